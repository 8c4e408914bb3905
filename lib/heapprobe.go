// Compiled into a copy of oh by an overlay, to measure it from outside:
// on SIGUSR2 it writes its live heap and the number of its goroutines.
package main

import (
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"syscall"
)

func init() {
	path := os.Getenv("VERIF_HEAP")
	if path == "" {
		return
	}
	os.Unsetenv("VERIF_HEAP")
	c := make(chan os.Signal, 1)
	signal.Notify(c, syscall.SIGUSR2)
	go func() {
		for range c {
			runtime.GC()
			runtime.GC()
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			f, err := os.OpenFile(path, os.O_WRONLY|os.O_APPEND, 0)
			if err != nil {
				continue
			}
			fmt.Fprintf(f, "%d %d %d\n", m.HeapAlloc, m.HeapObjects, runtime.NumGoroutine())
			f.Close()
		}
	}()
}
