From 1a039c63ad4d747a691251d354bd69de43e72d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 01/60] fix: evaluate every command when one line of input
 completes several

The reader only returned the last command parsed from the text passed to Scan,
so 'echo a & echo b', or a multi-line -c argument, lost all but the last
command. A final line without a newline was lost as well.
---
 internal/common/type/pipe/pipe.go | 14 +++++++++-----
 internal/engine/engine.go         |  2 +-
 internal/reader/reader.go         | 30 +++++++++++++++++++++++++-----
 main.go                           | 10 +++++++---
 4 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 19303b6..0648ecd 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -91,14 +91,18 @@ func (p *pipe) Read() cell.I {
 	p.RLock()
 	defer p.RUnlock()
 
-	var (
-		c   cell.I
-		err error
-	)
+	// The last line read may have held more than one command.
+	c := r.Next()
+	if c != nil {
+		return c
+	}
+
+	var err error
 
 	s, ok := line(b)
 	for ok {
-		c, err = r.Scan(s)
+		// The last line of a file may not have a newline.
+		c, err = r.Scan(strings.TrimSuffix(s, "\n") + "\n")
 		if err != nil {
 			panic(err.Error())
 		}
diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index e7ceba4..7f12afa 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -77,7 +77,7 @@ func Boot(path string, arguments []string) {
 			panic(err.Error())
 		}
 
-		if c != nil {
+		for ; c != nil; c = r.Next() {
 			System(j, c)
 		}
 	}
diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index c1bfab7..07ce7a1 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -13,6 +13,7 @@ type T struct {
 	i chan string
 	o chan cell.I
 	p *parser.T
+	q []cell.I // Parsed commands that have not been returned yet.
 	s *lexer.T
 }
 
@@ -27,17 +28,21 @@ func New(name string) *T {
 		s: lexer.New(name),
 	}
 
-	var v cell.I
+	// True if tokens have been read that are not part of a parsed command.
+	partial := false
 
 	r.p = parser.New(func(c cell.I) {
-		v = c
+		r.q = append(r.q, c)
+		partial = false
 	}, func() *token.T {
 		t := r.s.Token()
 
 		for t == nil {
-			r.o <- v
-
-			v = nil
+			if partial || r.s.Text() != "" {
+				r.o <- nil
+			} else {
+				r.o <- r.Next()
+			}
 
 			if !r.next() {
 				close(r.o)
@@ -46,6 +51,10 @@ func New(name string) *T {
 			t = r.s.Token()
 		}
 
+		if !t.Is('\n', token.Space) {
+			partial = true
+		}
+
 		return t
 	})
 
@@ -64,12 +73,23 @@ func (r *reader) Lexer() *lexer.T {
 	return r.s
 }
 
+// Next returns the next command from the last complete parse, or nil if there
+// are no more. A single line can hold more than one command.
+func (r *reader) Next() (c cell.I) {
+	if len(r.q) > 0 {
+		c, r.q = r.q[0], r.q[1:]
+	}
+
+	return c
+}
+
 // Parser returns the readers's internal parser.T.
 func (r *reader) Parser() *parser.T {
 	return r.p
 }
 
 // Scan reads the line and returns a cell.I on a complete parse or nil otherwise.
+// If line completes more than one command the rest are available from Next.
 // If scan encounters any error it returns the error.
 func (r *reader) Scan(line string) (c cell.I, err error) {
 	r.i <- line
diff --git a/main.go b/main.go
index 09b74c9..cdbbab3 100644
--- a/main.go
+++ b/main.go
@@ -62,7 +62,9 @@ func command() bool {
 		os.Exit(1)
 	}
 
-	engine.Evaluate(job.New(process.Group()), c)
+	for j := job.New(process.Group()); c != nil; c = r.Next() {
+		engine.Evaluate(j, c)
+	}
 
 	return true
 }
@@ -402,9 +404,11 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 		}
 
 		if c != nil {
-			engine.Evaluate(j, c)
+			for ; c != nil; c = r.Next() {
+				engine.Evaluate(j, c)
 
-			process.RestoreForegroundGroup()
+				process.RestoreForegroundGroup()
+			}
 
 			r.Close()
 
-- 
2.43.0


From e542dc158d5b9aca5e12a4542dbdcf8a387af3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:00 +0000
Subject: [PATCH 02/60] fix: exists compares file names, not their literal
 representation

A string (or a symbol with a space in it) never matched an existing file so
redirections silently clobbered files with quoted or generated names. Neither
did a file named -i.
---
 internal/engine/task/action.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 3a6f1ee..016416c 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -1023,8 +1023,8 @@ func exists(t *T) Op {
 	ignore := false
 
 	for ; args != pair.Null; args = pair.Cdr(args) {
-		path := literal.String(pair.Car(args))
-		if path == "-i" {
+		path := common.String(pair.Car(args))
+		if path == "-i" && !ignore {
 			ignore = true
 
 			continue
-- 
2.43.0


From 757b7b5b777a02edbda01f32d71ab256e0a53207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 03/60] fix: comparing a list to the empty list or to another
 type

Null's head and tail are Null, so () was equal to (()), and comparing a list to
something other than a list threw an exception.
---
 internal/common/type/pair/pair.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/common/type/pair/pair.go b/internal/common/type/pair/pair.go
index 0496334..c22d6df 100644
--- a/internal/common/type/pair/pair.go
+++ b/internal/common/type/pair/pair.go
@@ -29,8 +29,12 @@ type pair = T
 
 // Equal returns true if c is a pair with elements that are equal to p's.
 func (p *pair) Equal(c cell.I) bool {
-	if p == Null && c == Null {
-		return true
+	if !Is(c) {
+		return false
+	}
+
+	if p == Null || c == Null {
+		return p == c
 	}
 
 	return p.car.Equal(Car(c)) && p.cdr.Equal(Cdr(c))
-- 
2.43.0


From 4e92383a55344bc8457bbfd3d11407377a8d389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 04/60] fix: write improper lists so that they can be told
 apart when read back

(cons 1 (cons 2 3)) and (list 1 (cons 2 3)) had the same representation.
---
 internal/common/type/pair/pair.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/common/type/pair/pair.go b/internal/common/type/pair/pair.go
index c22d6df..05cebaf 100644
--- a/internal/common/type/pair/pair.go
+++ b/internal/common/type/pair/pair.go
@@ -61,7 +61,7 @@ func (p *pair) string(toString func(cell.I) string) string {
 	improper := false
 
 	tail := Cdr(p)
-	if !Is(tail) {
+	if !proper(tail) {
 		improper = true
 		s += "(|" + name + " "
 	}
@@ -69,7 +69,7 @@ func (p *pair) string(toString func(cell.I) string) string {
 	sublist := false
 
 	head := Car(p)
-	if Is(head) && Is(Cdr(head)) {
+	if proper(head) {
 		sublist = true
 		s += "("
 	}
@@ -102,6 +102,19 @@ func (p *pair) string(toString func(cell.I) string) string {
 	return s
 }
 
+// proper returns true if c is a list, that is, if it ends with Null.
+func proper(c cell.I) bool {
+	for Is(c) {
+		if c == Null {
+			return true
+		}
+
+		c = Cdr(c)
+	}
+
+	return false
+}
+
 // Functions specific to pair.
 
 // Car returns the car/head/first member of the pair c.
-- 
2.43.0


From 639e5b7dbc866a28faf2db6fcaf67a56fdc1272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 05/60] fix: quote symbols that contain metacharacters when
 writing them

Otherwise what was written could not be read back, or was read back as
something else: a # hid the rest of the line.
---
 internal/common/type/sym/sym.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/common/type/sym/sym.go b/internal/common/type/sym/sym.go
index e43a523..9e93e32 100644
--- a/internal/common/type/sym/sym.go
+++ b/internal/common/type/sym/sym.go
@@ -6,6 +6,7 @@ package sym
 import (
 	"fmt"
 	"math/big"
+	"strings"
 	"sync"
 
 	"github.com/michaelmacinnis/adapted"
@@ -92,10 +93,9 @@ func repr(s string) string {
 		return meta(q)
 	}
 
-	for _, r := range s {
-		if r == ' ' {
-			return meta(q)
-		}
+	// A '$', on its own, is a symbol.
+	if s != "$" && strings.ContainsAny(s, " \"#$&();<>`{|}") {
+		return meta(q)
 	}
 
 	if q[2:len(q)-1] != s {
-- 
2.43.0


From cd6ec55bdfe1e579333459e238f9c2ef80730a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 06/60] fix: make the value of a pipeline the value of its last
 command

It was the value of whichever side finished last, and when both sides threw,
the exception was that of whichever side finished first.
---
 internal/engine/boot/boot.oh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 5b61670..ee65d1c 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -238,9 +238,15 @@ block {
                 p writer-close
             } 
 
-            c write (override-stdin $e $p $right)
+            define right-rex: override-stdin $e $p $right
             p reader-close
 
+            define left-rex: c read
+
+            # The value of a pipeline is the value of its last command.
+            c write $right-rex
+            c write (cons (right-rex head) (left-rex tail))
+
             collect-unwrap-r-ex $c 2
         }
     }
-- 
2.43.0


From 423ebf497a81038e01a70a6b494bc36082a31c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:24 +0000
Subject: [PATCH 07/60] fix: catch and object no longer rewrite the program
 they are part of

Both appended to the list that holds the code of the calling command, so it
grew each time it was evaluated and tasks running the same code raced.
---
 internal/engine/boot/boot.oh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index ee65d1c..a8f2e33 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -131,7 +131,7 @@ define quote: syntax (v) {
 }
 
 define object: syntax ((body)) e {
-    body append (quote ((method self () = (return (resolve self)))))
+    set body: (list (splice $body)) append (quote ((method self () = (return (resolve self)))))
     e eval (cons block $body)
 }
 
@@ -545,7 +545,7 @@ define catch: syntax (name (clause)) e {
     if (null? $clause) {
         set body: list body
     } else {
-        set body: clause append $body
+        set body: (list (splice $clause)) append $body
     }
 
     define defn: list method (list $name throw) =
-- 
2.43.0


From 44f3509fdf1262d42a8fc2505d3158a16c1239e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:16 +0000
Subject: [PATCH 08/60] fix: report an error for a stray ')', '}' or operator

The parser did not consume the unexpected token and looped forever. Where an
operator was missing an operand the missing operand became part of the command.
---
 internal/reader/parser/parser.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 966dfb8..5e02f9e 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -71,13 +71,13 @@ func (p *T) Parse() (err error) {
 	}()
 
 	for t := p.peek(); t != nil; t = p.peek() {
-		if t.Is('\n') {
+		if t.Is('\n', token.Space) {
 			p.consume()
 
 			continue
 		}
 
-		p.emit(p.possibleBackground())
+		p.emit(p.check(p.possibleBackground()))
 	}
 
 	return nil
@@ -160,6 +160,7 @@ func (p *T) possibleBackground() cell.I {
 
 	t := p.peek()
 	if t.Is(token.Background) {
+		p.check(c)
 		p.consume()
 
 		c = list.New(sym.Token(t), c)
@@ -174,11 +175,11 @@ func (p *T) command() cell.I {
 
 	t := p.peek()
 	if t.Is(token.Orf) {
-		c = list.New(sym.Token(t), c)
+		c = list.New(sym.Token(t), p.check(c))
 
 		for p.peek().Is(token.Orf) {
 			p.consume()
-			c = list.Append(c, p.possibleAndf())
+			c = list.Append(c, p.check(p.possibleAndf()))
 		}
 	}
 
@@ -191,11 +192,11 @@ func (p *T) possibleAndf() cell.I {
 
 	t := p.peek()
 	if t.Is(token.Andf) {
-		c = list.New(sym.Token(t), c)
+		c = list.New(sym.Token(t), p.check(c))
 
 		for p.peek().Is(token.Andf) {
 			p.consume()
-			c = list.Append(c, p.possiblePipeline())
+			c = list.Append(c, p.check(p.possiblePipeline()))
 		}
 	}
 
@@ -207,9 +208,11 @@ func (p *T) possiblePipeline() cell.I {
 	c := p.possibleSequence()
 
 	if p.peek().Is(token.Pipe) {
+		p.check(c)
+
 		s := sym.Token(p.consume())
 
-		c = pair.Cons(p.possiblePipeline(), c)
+		c = pair.Cons(p.check(p.possiblePipeline()), c)
 		c = pair.Cons(s, c)
 	}
 
@@ -221,12 +224,15 @@ func (p *T) possibleSequence() cell.I {
 	c := p.possibleRedirection()
 
 	if p.peek().Is(';') {
-		c = list.New(sym.New("block"), c)
+		c = list.New(sym.New("block"), p.check(c))
 
 		for p.peek().Is(';') {
 			p.consume()
 
-			c = list.Append(c, p.possibleRedirection())
+			n := p.possibleRedirection()
+			if n != nil {
+				c = list.Append(c, n)
+			}
 		}
 	}
 
@@ -238,6 +244,8 @@ func (p *T) possibleRedirection() cell.I {
 	c := p.possibleSubstitution()
 
 	for p.peek().Is(token.Redirect) {
+		p.check(c)
+
 		s := sym.Token(p.consume())
 		c = list.New(s, p.check(p.implicitJoin(p.element())), c)
 
@@ -261,7 +269,7 @@ func (p *T) possibleSubstitution() cell.I {
 
 		for p.peek().Is(token.Substitute) {
 			s := sym.Token(p.consume())
-			l := pair.Cons(s, p.element())
+			l := pair.Cons(s, p.check(p.element()))
 			c = list.Append(c, l)
 
 			if !p.peek().Is(token.Substitute) {
-- 
2.43.0


From 54a263a715c7187b18e77b84d013e61932b428a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 09/60] fix: reading from a pipe shared by tasks, and after a
 syntax error

Concurrent readers shared a buffer without synchronization. After a syntax
error the next read blocked forever, as nothing was left to receive the line
read. Closing a reader leaked its goroutine.
---
 internal/common/type/pipe/pipe.go | 72 +++++++++++++++++++++----------
 internal/reader/reader.go         |  2 +-
 2 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 0648ecd..dde5328 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -26,6 +26,8 @@ const name = "pipe"
 // T (pipe) is oh's pipe conduit type.
 type T struct {
 	sync.RWMutex
+	in sync.Mutex // Held while reading. Reads change b and p.
+
 	b *bufio.Reader
 	p *reader.T
 	r *os.File
@@ -78,6 +80,9 @@ func (p *pipe) Name() string {
 
 // Read reads a cell from the pipe.
 func (p *pipe) Read() cell.I {
+	p.in.Lock()
+	defer p.in.Unlock()
+
 	b := p.buffer()
 	if b == nil {
 		return pair.Null
@@ -88,30 +93,12 @@ func (p *pipe) Read() cell.I {
 		return pair.Null
 	}
 
-	p.RLock()
-	defer p.RUnlock()
-
-	// The last line read may have held more than one command.
-	c := r.Next()
-	if c != nil {
-		return c
-	}
-
-	var err error
-
-	s, ok := line(b)
-	for ok {
-		// The last line of a file may not have a newline.
-		c, err = r.Scan(strings.TrimSuffix(s, "\n") + "\n")
-		if err != nil {
-			panic(err.Error())
-		}
-
-		if c != nil {
-			break
-		}
+	c, err := p.command(b, r)
+	if err != nil {
+		// The reader can't be used after an error.
+		p.discard(r)
 
-		s, ok = line(b)
+		panic(err.Error())
 	}
 
 	if c == nil {
@@ -123,6 +110,9 @@ func (p *pipe) Read() cell.I {
 
 // ReadLine reads a line from the pipe.
 func (p *pipe) ReadLine() cell.I {
+	p.in.Lock()
+	defer p.in.Unlock()
+
 	b := p.buffer()
 	if b == nil {
 		return pair.Null
@@ -222,6 +212,42 @@ func (p *pipe) closeableWriteEnd() bool {
 	return p.w != nil && len(p.w.Name()) > 0
 }
 
+// command reads lines from b until r has a complete command.
+func (p *pipe) command(b *bufio.Reader, r *reader.T) (c cell.I, err error) {
+	p.RLock()
+	defer p.RUnlock()
+
+	// The last line read may have held more than one command.
+	c = r.Next()
+
+	for c == nil {
+		s, ok := line(b)
+		if !ok {
+			break
+		}
+
+		// The last line of a file may not have a newline.
+		c, err = r.Scan(strings.TrimSuffix(s, "\n") + "\n")
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	return c, nil
+}
+
+// discard closes the reader r so that a new reader is used for the next Read.
+func (p *pipe) discard(r *reader.T) {
+	p.Lock()
+	defer p.Unlock()
+
+	if p.p == r {
+		p.p = nil
+
+		r.Close()
+	}
+}
+
 func (p *pipe) reader() *reader.T {
 	p.Lock()
 	defer p.Unlock()
diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index 07ce7a1..8e32a18 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -22,7 +22,7 @@ type reader = T
 // New creates a new reader for name.
 func New(name string) *T {
 	r := &T{
-		e: make(chan error),
+		e: make(chan error, 1), // Nothing receives from e after Close.
 		i: make(chan string),
 		o: make(chan cell.I),
 		s: lexer.New(name),
-- 
2.43.0


From 483333305d3f612943e7ece6ef0234b755276ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 10/60] fix: write a line to a pipe with a single write

The newline was written separately so lines from concurrent writers could be
joined and split.
---
 internal/common/type/pipe/pipe.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index dde5328..5edc527 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -145,12 +145,8 @@ func (p *pipe) Write(c cell.I) {
 		panic("write to closed pipe")
 	}
 
-	_, err := p.w.WriteString(literal.String(c))
-	if err != nil {
-		panic(err.Error())
-	}
-
-	_, err = p.w.WriteString("\n")
+	// A single write so that concurrent writers don't split lines.
+	_, err := p.w.WriteString(literal.String(c) + "\n")
 	if err != nil {
 		panic(err.Error())
 	}
@@ -166,12 +162,8 @@ func (p *pipe) WriteLine(c cell.I) {
 		panic("write to closed pipe")
 	}
 
-	_, err := p.w.WriteString(common.String(c))
-	if err != nil {
-		panic(err.Error())
-	}
-
-	_, err = p.w.WriteString("\n")
+	// A single write so that concurrent writers don't split lines.
+	_, err := p.w.WriteString(common.String(c) + "\n")
 	if err != nil {
 		panic(err.Error())
 	}
-- 
2.43.0


From dfd8cdb3514425b7ce9d5606e29fca7c2ac9fd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:59 +0000
Subject: [PATCH 11/60] fix: quote the script's path

A script with a space or metacharacters in its path could not be run, and its
name was evaluated.
---
 internal/system/options/options.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/system/options/options.go b/internal/system/options/options.go
index 3ceee9b..43bc2d9 100644
--- a/internal/system/options/options.go
+++ b/internal/system/options/options.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/docopt/docopt-go"
 	"github.com/mattn/go-isatty"
+	"github.com/michaelmacinnis/adapted"
 )
 
 //nolint:gochecknoglobals
@@ -81,7 +82,7 @@ func Parse() {
 
 	path, _ := opts.String("SCRIPT")
 	if path != "" {
-		command = "source " + path
+		command = "source " + adapted.CanonicalString(path)
 		name = path
 		script = path
 	} else if command == "" && isatty.IsTerminal(os.Stdin.Fd()) {
-- 
2.43.0


From ba1e6ef4dadc5b02f4b9904da9708bcea395f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:47 +0000
Subject: [PATCH 12/60] fix: resolve relative paths using PWD, as commands do

cd changes PWD in the current scope but the directory of the whole process.
When the two differed (after a cd in a block or a background task) redirections,
exists, open, source and ./command used a different directory than the commands
being run.
---
 internal/engine/commands/commands.go |  1 -
 internal/engine/commands/file.go     | 20 ++++++++++++++++++--
 internal/engine/task/action.go       | 19 +++++++++++++++----
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/internal/engine/commands/commands.go b/internal/engine/commands/commands.go
index 263d42a..dee4d7b 100644
--- a/internal/engine/commands/commands.go
+++ b/internal/engine/commands/commands.go
@@ -31,7 +31,6 @@ func Functions() map[string]func(cell.I) cell.I {
 		"number":    number,
 		"number?":   isNumber,
 		"object?":   isObject,
-		"open":      open,
 		"pipe":      makePipe,
 		"pipe?":     isPipe,
 		"random":    random,
diff --git a/internal/engine/commands/file.go b/internal/engine/commands/file.go
index b7be7e3..7abb7be 100644
--- a/internal/engine/commands/file.go
+++ b/internal/engine/commands/file.go
@@ -4,6 +4,7 @@ package commands
 
 import (
 	"os"
+	"path/filepath"
 	"strings"
 
 	"github.com/michaelmacinnis/adapted"
@@ -15,7 +16,8 @@ import (
 	"github.com/michaelmacinnis/oh/internal/common/validate"
 )
 
-func open(args cell.I) cell.I {
+// Open opens the file named by args. A relative path is relative to dir.
+func Open(args cell.I, dir string) cell.I {
 	mode := common.String(pair.Car(args))
 	path := common.String(pair.Cadr(args))
 	flags := 0
@@ -51,8 +53,12 @@ func open(args cell.I) cell.I {
 		flags |= os.O_WRONLY
 	}
 
-	f, err := os.OpenFile(path, flags, 0o666)
+	f, err := os.OpenFile(Path(path, dir), flags, 0o666)
 	if err != nil {
+		if pe, ok := err.(*os.PathError); ok { //nolint:errorlint
+			pe.Path = path
+		}
+
 		panic(err.Error())
 	}
 
@@ -69,6 +75,16 @@ func open(args cell.I) cell.I {
 	return pipe.New(r, w)
 }
 
+// Path returns a path for the file named path, where a relative path is
+// relative to dir.
+func Path(path, dir string) string {
+	if path == "" || dir == "" || filepath.IsAbs(path) {
+		return path
+	}
+
+	return dir + string(os.PathSeparator) + path
+}
+
 func tempfifo(args cell.I) cell.I {
 	validate.Fixed(args, 0, 0)
 
diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 016416c..ca9f0b2 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -59,6 +59,7 @@ func Actions(s scope.I) {
 	s.Define("command", &Method{Op: Action(cmd)})
 	s.Define("exists", &Method{Op: Action(exists)})
 	s.Define("glob", &Method{Op: Action(glob)})
+	s.Define("open", &Method{Op: Action(open)})
 
 	// Functions.
 	for k, v := range commands.Functions() {
@@ -804,9 +805,16 @@ func external(t *T) Op {
 
 	name := common.String(pair.Car(args))
 
-	arg0, executable, err := adapted.LookPath(name, t.stringValue("PATH"))
+	dir := t.stringValue("PWD")
+
+	path := name
+	if strings.HasPrefix(name, "./") || strings.HasPrefix(name, "../") {
+		path = commands.Path(name, dir)
+	}
+
+	arg0, executable, err := adapted.LookPath(path, t.stringValue("PATH"))
 	if err != nil {
-		panic(err.Error())
+		panic(strings.ReplaceAll(err.Error(), path, name))
 	}
 
 	cache.Check(arg0)
@@ -820,7 +828,6 @@ func external(t *T) Op {
 		argv = append(argv, common.String(pair.Car(args)))
 	}
 
-	dir := t.stringValue("PWD")
 	stdin := t.value(nil, "stdin")
 	stdout := t.value(nil, "stdout")
 	stderr := t.value(nil, "stderr")
@@ -1032,7 +1039,7 @@ func exists(t *T) Op {
 
 		count++
 
-		s, err := os.Stat(path)
+		s, err := os.Stat(commands.Path(path, t.stringValue("PWD")))
 		if err != nil {
 			return t.Return(pair.Null)
 		}
@@ -1051,6 +1058,10 @@ func glob(t *T) Op {
 	return t.Return(t.expand(t.code))
 }
 
+func open(t *T) Op {
+	return t.Return(commands.Open(t.code, t.stringValue("PWD")))
+}
+
 // Methods.
 
 func exit(t *T) Op {
-- 
2.43.0


From 5dc7b3031dfabd47b297760cd7b140ad7b58014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:22 +0000
Subject: [PATCH 13/60] fix: match globs literally against the names in PWD and
 HOME

In a directory with a '*', '?', '[' or '\\' in its path nothing matched.
---
 internal/engine/task/task.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index 1819c54..9c79cd8 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -237,18 +237,19 @@ func (t *T) expand(args cell.I) cell.I {
 
 		s := common.String(c)
 
-		path := t.tildeExpand(s)
-		if !strings.ContainsAny(path, "*?[") {
-			l = list.Append(l, sym.New(path))
+		if !strings.ContainsAny(s, "*?[") {
+			l = list.Append(l, sym.New(t.tildeExpand(s, verbatim)))
 
 			continue
 		}
 
+		path := t.tildeExpand(s, quoteMeta)
+
 		pwd := ""
 		if !filepath.IsAbs(path) {
 			pwd = t.stringValue("PWD")
 			// path = filepath.Join(pwd, path)
-			path = pwd + string(os.PathSeparator) + path
+			path = quoteMeta(pwd) + string(os.PathSeparator) + path
 			pwd = filepath.Clean(pwd)
 		}
 
@@ -290,12 +291,12 @@ func (t *T) stringValue(k string) string {
 	return common.String(v)
 }
 
-func (t *T) tildeExpand(s string) string {
+func (t *T) tildeExpand(s string, quote func(string) string) string {
 	if !strings.HasPrefix(s, "~") {
 		return s
 	}
 
-	return filepath.Join(t.stringValue("HOME"), s[1:])
+	return filepath.Join(quote(t.stringValue("HOME")), s[1:])
 }
 
 func (t *T) value(s scope.I, k string) cell.I {
@@ -318,3 +319,12 @@ func (t *T) value(s scope.I, k string) cell.I {
 
 	return v
 }
+
+// quoteMeta returns a pattern that matches path exactly.
+func quoteMeta(path string) string {
+	return strings.NewReplacer("*", "[*]", "?", "[?]", "[", "[[]", `\`, `[\\]`).Replace(path)
+}
+
+func verbatim(path string) string {
+	return path
+}
-- 
2.43.0


From c78fd56772097a283b78dba546409f86a75fec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:56 +0000
Subject: [PATCH 14/60] fix: list only the directory's own entries when
 completing a file name

Depth was judged by counting separators, which is wrong for / and where a
symbolic link is resolved to a path of a different depth, so completion for
these offered grandchildren or nothing at all.
---
 internal/system/cache/cache.go | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/internal/system/cache/cache.go b/internal/system/cache/cache.go
index 658148c..20afceb 100644
--- a/internal/system/cache/cache.go
+++ b/internal/system/cache/cache.go
@@ -49,8 +49,6 @@ func Executables(dirname string) []string {
 func Files(dirname string) []string {
 	dirname = filepath.Clean(dirname)
 
-	max := strings.Count(dirname, pathSeparator) + 1
-
 	e := []string{}
 	f := []string{}
 
@@ -72,25 +70,15 @@ func Files(dirname string) []string {
 		dirname = original
 	}
 
-	_ = filepath.Walk(dirname, func(p string, i os.FileInfo, err error) error {
-		if p == dirname {
-			return nil
-		}
-
-		depth := strings.Count(p, pathSeparator)
-		if depth > max {
-			if i.IsDir() {
-				return filepath.SkipDir
-			}
+	entries, _ := os.ReadDir(dirname)
 
-			return nil
-		} else if depth < max {
-			return nil
+	for _, entry := range entries {
+		i, err := entry.Info()
+		if err != nil {
+			continue
 		}
 
-		if original != dirname {
-			p = strings.Replace(p, dirname, original, 1)
-		}
+		p := filepath.Join(original, entry.Name())
 
 		switch {
 		case p != pathSeparator && i.IsDir():
@@ -102,9 +90,7 @@ func Files(dirname string) []string {
 		}
 
 		f = append(f, p)
-
-		return nil
-	})
+	}
 
 	requestq <- func() {
 		if len(e) > 0 {
-- 
2.43.0


From 7517579721be435d19d8b993c422355e1417ebfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 15/60] fix: set-head and set-tail no longer change the empty
 list itself

---
 internal/engine/commands/list.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/engine/commands/list.go b/internal/engine/commands/list.go
index 5f69416..d931849 100644
--- a/internal/engine/commands/list.go
+++ b/internal/engine/commands/list.go
@@ -77,6 +77,10 @@ func reverse(s, args cell.I) cell.I {
 
 func setHead(s, args cell.I) cell.I {
 	v := pair.Car(args)
+	if s == pair.Null {
+		panic("cannot set the head of an empty list")
+	}
+
 	pair.SetCar(s, v)
 
 	return v
@@ -84,6 +88,10 @@ func setHead(s, args cell.I) cell.I {
 
 func setTail(s, args cell.I) cell.I {
 	v := pair.Car(args)
+	if s == pair.Null {
+		panic("cannot set the tail of an empty list")
+	}
+
 	pair.SetCdr(s, v)
 
 	return v
-- 
2.43.0


From 015667d36f7d984ae7942516191fb9242de704e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:20 +0000
Subject: [PATCH 16/60] fix: extending a list with itself terminates

---
 internal/common/type/list/list.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/common/type/list/list.go b/internal/common/type/list/list.go
index 7883061..906cdd1 100644
--- a/internal/common/type/list/list.go
+++ b/internal/common/type/list/list.go
@@ -89,12 +89,11 @@ func Join(lists ...cell.I) cell.I {
 			continue
 		}
 
-		for list != pair.Null {
-			p := pair.Cons(pair.Car(list), pair.Null)
+		// The list may be start or share its end.
+		for _, c := range Array(list) {
+			p := pair.Cons(c, pair.Null)
 			pair.SetCdr(end, p)
 			end = p
-
-			list = pair.Cdr(list)
 		}
 	}
 
-- 
2.43.0


From f7e5192b176dbc5e8d7f75799a5121eb3c4a600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:00 +0000
Subject: [PATCH 17/60] fix: method? and syntax? of a named command; binding
 again no longer nests

---
 internal/engine/task/action.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index ca9f0b2..337c8e2 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -957,6 +957,11 @@ func m(do func(s, args cell.I) cell.I) *Method {
 
 // Bind a command to a scope.
 func bind(a command, self cell.I) *binding {
+	// Binding again replaces the previous binding.
+	if b, ok := a.(*binding); ok {
+		a = b.command
+	}
+
 	return &binding{a, self}
 }
 
-- 
2.43.0


From 8e4b09675eca43c04153a733452c2a21d7911189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 18/60] fix: the value of changing to a directory by naming it

---
 internal/engine/task/action.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 337c8e2..6a42e66 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -820,6 +820,9 @@ func external(t *T) Op {
 	cache.Check(arg0)
 
 	if !executable {
+		// There is no process so there is no result to resume with.
+		t.RemoveOp()
+
 		return t.Return(t.Chdir(name))
 	}
 
-- 
2.43.0


From 381a347aeadd9b68035f3385fec4189a070a8718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:37 +0000
Subject: [PATCH 19/60] fix: read fractions back in literal numbers and
 statuses

---
 internal/reader/parser/parser.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 5e02f9e..59c3980 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -508,13 +508,18 @@ func (p *T) meta(c cell.I) cell.I {
 
 	t = pair.Cadr(c)
 
-	arg, ok := t.(fmt.Stringer)
-	if ok {
-		return create(arg.String())
+	// A word like -1/2 is read as several elements that are joined.
+	if pair.Is(t) && sym.Is(pair.Car(t)) && sym.To(pair.Car(t)).String() == "mend" {
+		s := ""
+
+		for t = pair.Cddr(t); t != pair.Null; t = pair.Cdr(t) {
+			s += common.String(pair.Car(t))
+		}
+
+		return create(s)
 	}
 
-	// TODO: What case are we handling here?
-	return num.New(arg.String())
+	return create(common.String(t))
 }
 
 func (p *T) value() cell.I {
-- 
2.43.0


From 192e67da12e38032051edb5b67fe5e575587268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:32 +0000
Subject: [PATCH 20/60] fix: a blocked write no longer keeps a pipe from being
 read

---
 internal/common/type/pipe/pipe.go | 127 ++++++++++++++----------------
 1 file changed, 60 insertions(+), 67 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 5edc527..d8f46c9 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -25,7 +25,8 @@ const name = "pipe"
 
 // T (pipe) is oh's pipe conduit type.
 type T struct {
-	sync.RWMutex
+	sync.RWMutex // Never held while reading or writing, which may block.
+
 	in sync.Mutex // Held while reading. Reads change b and p.
 
 	b *bufio.Reader
@@ -118,9 +119,6 @@ func (p *pipe) ReadLine() cell.I {
 		return pair.Null
 	}
 
-	p.RLock()
-	defer p.RUnlock()
-
 	s, ok := line(b)
 	if !ok {
 		return pair.Null
@@ -131,50 +129,47 @@ func (p *pipe) ReadLine() cell.I {
 
 // ReaderClose closes the read end of the pipe and sets it to nil.
 func (p *pipe) ReaderClose() {
-	p.readerClosePipe()
-	p.readerPipeNil()
-}
+	f, r := p.readerPipeNil()
 
-// Write writes a cell to the pipe.
-func (p *pipe) Write(c cell.I) {
-	// Yes, RLock. This is a write but doesn't change the pipe itself.
-	p.RLock()
-	defer p.RUnlock()
-
-	if p.w == nil {
-		panic("write to closed pipe")
+	if f != nil {
+		err := f.Close()
+		if err != nil {
+			panic(err.Error())
+		}
 	}
 
-	// A single write so that concurrent writers don't split lines.
-	_, err := p.w.WriteString(literal.String(c) + "\n")
-	if err != nil {
-		panic(err.Error())
+	if r != nil {
+		// Wait for any read in progress. It ended when f was closed.
+		p.in.Lock()
+		defer p.in.Unlock()
+
+		r.Close()
 	}
 }
 
+// Write writes a cell to the pipe.
+func (p *pipe) Write(c cell.I) {
+	p.write(literal.String(c) + "\n")
+}
+
 // WriteLine writes the string value of a cell to the pipe.
 func (p *pipe) WriteLine(c cell.I) {
-	// Yes, RLock. This is a write but doesn't change the pipe itself.
-	p.RLock()
-	defer p.RUnlock()
+	p.write(common.String(c) + "\n")
+}
 
-	if p.w == nil {
-		panic("write to closed pipe")
+// WriterClose closes the write end of the pipe.
+func (p *pipe) WriterClose() {
+	w := p.writerPipeNil()
+	if w == nil {
+		return
 	}
 
-	// A single write so that concurrent writers don't split lines.
-	_, err := p.w.WriteString(common.String(c) + "\n")
+	err := w.Close()
 	if err != nil {
 		panic(err.Error())
 	}
 }
 
-// WriterClose closes the write end of the pipe.
-func (p *pipe) WriterClose() {
-	p.writerClosePipe()
-	p.writerPipeNil()
-}
-
 func (p *pipe) buffer() *bufio.Reader {
 	p.Lock()
 	defer p.Unlock()
@@ -206,9 +201,6 @@ func (p *pipe) closeableWriteEnd() bool {
 
 // command reads lines from b until r has a complete command.
 func (p *pipe) command(b *bufio.Reader, r *reader.T) (c cell.I, err error) {
-	p.RLock()
-	defer p.RUnlock()
-
 	// The last line read may have held more than one command.
 	c = r.Next()
 
@@ -255,64 +247,65 @@ func (p *pipe) reader() *reader.T {
 	return p.p
 }
 
-// readerClosePipe closes the read end of the pipe.
-func (p *pipe) readerClosePipe() {
-	p.RLock()
-	defer p.RUnlock()
-
-	if p.p != nil {
-		p.p.Close()
-	}
-
-	if p.r != nil {
-		err := p.r.Close()
-		if err != nil {
-			panic(err.Error())
-		}
-	}
-}
-
-// readerPipeNil sets the read end of the pipe to nil.
-func (p *pipe) readerPipeNil() {
+// readerPipeNil sets the read end of the pipe to nil and returns what it was.
+func (p *pipe) readerPipeNil() (f *os.File, r *reader.T) {
 	p.Lock()
 	defer p.Unlock()
 
+	f, r = p.r, p.p
+
 	p.b = nil
 	p.p = nil
 	p.r = nil
-}
 
-// writerClosePipe closes the write end of the pipe.
-func (p *pipe) writerClosePipe() {
-	p.RLock()
-	defer p.RUnlock()
+	return f, r
+}
 
-	if p.w == nil {
-		return
+// write writes s. A single write so that concurrent writers don't split lines.
+func (p *pipe) write(s string) {
+	w := W(p)
+	if w == nil {
+		panic("write to closed pipe")
 	}
 
-	err := p.w.Close()
+	_, err := w.WriteString(s)
+
+	// Don't finalize, and close, p before the write is complete.
+	runtime.KeepAlive(p)
+
 	if err != nil {
 		panic(err.Error())
 	}
 }
 
-// writerPipeNil sets the write end of the pipe to nil.
-func (p *pipe) writerPipeNil() {
+// writerPipeNil sets the write end of the pipe to nil and returns what it was.
+func (p *pipe) writerPipeNil() (w *os.File) {
 	p.Lock()
 	defer p.Unlock()
 
-	p.w = nil
+	w, p.w = p.w, nil
+
+	return w
 }
 
 // R converts c to a pipe and returns the read end of the pipe.
 func R(c cell.I) *os.File {
-	return To(c).r
+	p := To(c)
+
+	p.RLock()
+	defer p.RUnlock()
+
+	return p.r
 }
 
 // W converts c to a pipe and returns the write end of the pipe.
 func W(c cell.I) *os.File {
-	return To(c).w
+	p := To(c)
+
+	p.RLock()
+	defer p.RUnlock()
+
+	return p.w
 }
 
 // Read a line and return it, including the newline.
-- 
2.43.0


From 56495788a3d4f02ff3109c5ccc650c46b2b51b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:21 +0000
Subject: [PATCH 21/60] fix: completion no longer evaluates the incomplete
 command

---
 main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index cdbbab3..393d973 100644
--- a/main.go
+++ b/main.go
@@ -122,8 +122,13 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 				cs = append(cs, common.String(pair.Car(c)))
 			}
 		} else {
-			cmd := list.Append(list.New(list.Array(cmd)...), sym.New(completing))
-			v, _ := engine.System(*j, pair.Cons(sym.New("complete"), cmd))
+			// The command is not complete. Don't evaluate any part of it.
+			args := list.New(sym.New("complete"))
+			for _, arg := range append(list.Array(cmd), sym.New(completing)) {
+				args = list.Append(args, list.New(sym.New("quote"), arg))
+			}
+
+			v, _ := engine.System(*j, args)
 
 			process.RestoreForegroundGroup()
 
-- 
2.43.0


From 1641583cfd5ac295eed3a21fd8366dc15a6b3d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:41 +0000
Subject: [PATCH 22/60] fix: report an incomplete command at the end of a
 script or pipe

---
 internal/common/type/pipe/pipe.go | 8 ++++++--
 internal/reader/reader.go         | 9 ++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index d8f46c9..09d5d10 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -207,17 +207,21 @@ func (p *pipe) command(b *bufio.Reader, r *reader.T) (c cell.I, err error) {
 	for c == nil {
 		s, ok := line(b)
 		if !ok {
+			if r.Incomplete() {
+				err = common.Error("incomplete command")
+			}
+
 			break
 		}
 
 		// The last line of a file may not have a newline.
 		c, err = r.Scan(strings.TrimSuffix(s, "\n") + "\n")
 		if err != nil {
-			return nil, err
+			break
 		}
 	}
 
-	return c, nil
+	return c, err
 }
 
 // discard closes the reader r so that a new reader is used for the next Read.
diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index 8e32a18..04deced 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -11,6 +11,7 @@ import (
 type T struct {
 	e chan error
 	i chan string
+	m bool // True if more text is needed to complete a command.
 	o chan cell.I
 	p *parser.T
 	q []cell.I // Parsed commands that have not been returned yet.
@@ -38,7 +39,8 @@ func New(name string) *T {
 		t := r.s.Token()
 
 		for t == nil {
-			if partial || r.s.Text() != "" {
+			r.m = partial || r.s.Text() != ""
+			if r.m {
 				r.o <- nil
 			} else {
 				r.o <- r.Next()
@@ -68,6 +70,11 @@ func (r *reader) Close() {
 	close(r.i)
 }
 
+// Incomplete returns true if the text scanned so far ends within a command.
+func (r *reader) Incomplete() bool {
+	return r.m
+}
+
 // Lexer returns the reader's internal lexer.T.
 func (r *reader) Lexer() *lexer.T {
 	return r.s
-- 
2.43.0


From 4e3d32d06af81104ca88ba02e8c4d768b275cab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:02 +0000
Subject: [PATCH 23/60] fix: redirect input from devices and named pipes

---
 internal/engine/boot/boot.oh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index a8f2e33..4db0df5 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -269,7 +269,7 @@ block {
                         throw "${c} exists"
                     }
                 } else {
-                    if (eq? r $mode) {
+                    if (and (eq? r $mode) (not (exists $c))) {
                         throw "${c} does not exist"
                     }
                 }
-- 
2.43.0


From a2dcb3079a5a21f4798cdaf781458c896676cc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:08 +0000
Subject: [PATCH 24/60] fix: an exception or return in a task no longer runs
 its parent's program

---
 internal/engine/task/action.go    | 11 +++++++++--
 internal/engine/task/registers.go |  2 ++
 internal/engine/task/task.go      |  2 ++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 6a42e66..fc3382e 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -238,7 +238,7 @@ func apply(t *T) Op {
 
 	t.ReplaceOp(&registers{frame: t.frame})
 
-	cc := &registers{dump: t.dump, stack: t.stack}
+	cc := &registers{dump: t.dump, stack: t.stack, owner: t}
 
 	// If the visibility differs, create a new frame.
 	if !c.Scope.Visible(s) {
@@ -314,7 +314,13 @@ func block(t *T) Op {
 func continuation(t *T) Op {
 	r := t.PopResult()
 
-	t.Result().(*registers).restoreOver(t.registers)
+	c := t.Result().(*registers)
+	if t.spawned && c.owner != t {
+		// Another task's computation can't be continued by a spawned task.
+		t.stack = done
+	} else {
+		c.restoreOver(t.registers)
+	}
 
 	t.ReplaceResult(r)
 
@@ -910,6 +916,7 @@ func resume(t *T) Op {
 
 func spawn(t *T) Op {
 	child := New(t.job, t.code, frame.Dup(env.New(t.frame.Scope()), t.frame))
+	child.spawned = true
 
 	child.PushOp(Action(evalBlock))
 
diff --git a/internal/engine/task/registers.go b/internal/engine/task/registers.go
index c249188..842d4ff 100644
--- a/internal/engine/task/registers.go
+++ b/internal/engine/task/registers.go
@@ -14,6 +14,8 @@ type registers struct {
 	frame *frame.T
 	code  cell.I
 	dump  cell.I
+
+	owner *T // The task that created this continuation (if it is one).
 }
 
 // Perform copies non-nil fields from m to target.
diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index 9c79cd8..73a7baa 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -36,6 +36,8 @@ type T struct {
 	job monitor
 	*registers
 	*state
+
+	spawned bool
 }
 
 // New creates a new task.
-- 
2.43.0


From 1986f9702847817cb4c7dc29c8f2925c18be302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:55 +0000
Subject: [PATCH 25/60] fix: report text that is nested too deeply instead of
 overflowing the stack

---
 internal/reader/parser/parser.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 59c3980..05c17f9 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -23,6 +23,7 @@ import (
 // T holds the state of the parser.
 type T struct {
 	ahead int             // Lookahead count.
+	depth int             // Nesting depth.
 	emit  func(cell.I)    // Function to call to emit a parsed command.
 	item  func() *token.T // Function to call to get another token.
 	token *token.T        // Token lookahead.
@@ -31,6 +32,8 @@ type T struct {
 	current cell.I // The command being parsed, so far.
 }
 
+const limit = 200000
+
 // New creates a new parser.
 // It connects a producer of tokens with a consumer of cells.
 func New(emit func(cell.I), item func() *token.T) *T {
@@ -111,6 +114,20 @@ func (p *T) check(c cell.I) cell.I {
 	return c
 }
 
+// Enter is called by state functions that recurse and undone with leave.
+// Nesting is limited so that the text read can't exhaust the stack.
+func (p *T) enter() {
+	p.depth++
+
+	if p.depth > limit {
+		panic("commands are nested too deeply")
+	}
+}
+
+func (p *T) leave() {
+	p.depth--
+}
+
 func (p *T) expect(cs ...token.Class) {
 	if p.peek().Is(cs...) {
 		p.consume()
@@ -205,6 +222,9 @@ func (p *T) possibleAndf() cell.I {
 
 // <possiblePipeline> ::= <possibleSequence> (Pipe <possiblePipeline>)?
 func (p *T) possiblePipeline() cell.I {
+	p.enter()
+	defer p.leave()
+
 	c := p.possibleSequence()
 
 	if p.peek().Is(token.Pipe) {
@@ -286,6 +306,9 @@ func (p *T) possibleSubstitution() cell.I {
 
 func (p *T) braces() (c cell.I) {
 	if p.peek().Is('{') {
+		p.enter()
+		defer p.leave()
+
 		p.consume()
 
 		n := p.peek()
@@ -464,6 +487,9 @@ func (p *T) element() cell.I {
 
 func (p *T) expression() cell.I {
 	if p.peek().Is('$') {
+		p.enter()
+		defer p.leave()
+
 		p.consume()
 
 		c := p.braces()
-- 
2.43.0


From 465684de2ee97e3bab09b4c68edc163fb0942455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:03 +0000
Subject: [PATCH 26/60] fix: close a file opened for reading and writing only
 once

---
 internal/common/type/pipe/pipe.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 09d5d10..88ca5dd 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -159,6 +159,12 @@ func (p *pipe) WriteLine(c cell.I) {
 
 // WriterClose closes the write end of the pipe.
 func (p *pipe) WriterClose() {
+	if p.shared() {
+		p.ReaderClose()
+
+		return
+	}
+
 	w := p.writerPipeNil()
 	if w == nil {
 		return
@@ -258,6 +264,11 @@ func (p *pipe) readerPipeNil() (f *os.File, r *reader.T) {
 
 	f, r = p.r, p.p
 
+	// A file open for both reading and writing is closed once.
+	if p.w == p.r {
+		p.w = nil
+	}
+
 	p.b = nil
 	p.p = nil
 	p.r = nil
@@ -265,6 +276,14 @@ func (p *pipe) readerPipeNil() (f *os.File, r *reader.T) {
 	return f, r
 }
 
+// shared returns true if both ends of the pipe are the same file.
+func (p *pipe) shared() bool {
+	p.RLock()
+	defer p.RUnlock()
+
+	return p.r == p.w
+}
+
 // write writes s. A single write so that concurrent writers don't split lines.
 func (p *pipe) write(s string) {
 	w := W(p)
-- 
2.43.0


From d81d9216db6f5dd185c1c1f0dee42d8e1d009d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:18 +0000
Subject: [PATCH 27/60] fix: end a process substitution whose named pipe is not
 opened

---
 internal/engine/boot/boot.oh | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 4db0df5..b8362ad 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -338,11 +338,12 @@ block {
             }
 
             if (equal? -named-pipe-input-from (arg head)) {
-                define c: chan 1
+                define c: chan 2
                 define fifo: temp-fifo
 
                 spawn {
                     define f: open w $fifo
+                    c write ()
                     c write (override-stdout $e $f (arg tail))
                     f close
                 }
@@ -354,11 +355,12 @@ block {
             }
 
             if (equal? -named-pipe-output-to (arg head)) {
-                define c: chan 1
+                define c: chan 2
                 define fifo: temp-fifo
 
                 spawn {
                     define f: open r $fifo
+                    c write ()
                     c write (override-stdin $e $f (arg tail))
                     f close
                 }
@@ -374,6 +376,17 @@ block {
 
         define mainecex: e eval (wrap-redir-r-ex $cmd)
 
+        # The command may not have opened every fifo. Don't leave a task waiting.
+        define openers: for $fifos (method (fifo) {
+            open rw- $fifo
+        })
+        for $channels (method (c) {
+            c read
+        })
+        for $openers (method (f) {
+            f close
+        })
+
         define ecexs ()
         for $channels (method (c) {
             set ecexs: cons (c read) $ecexs
-- 
2.43.0


From b68c09fbd07f05201af9cce83aeea58d000a3139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:18 +0000
Subject: [PATCH 28/60] fix: never expand the name of a temporary named pipe

---
 internal/engine/commands/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/engine/commands/file.go b/internal/engine/commands/file.go
index 7abb7be..14e3342 100644
--- a/internal/engine/commands/file.go
+++ b/internal/engine/commands/file.go
@@ -12,7 +12,7 @@ import (
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
 	"github.com/michaelmacinnis/oh/internal/common/type/pair"
 	"github.com/michaelmacinnis/oh/internal/common/type/pipe"
-	"github.com/michaelmacinnis/oh/internal/common/type/sym"
+	"github.com/michaelmacinnis/oh/internal/common/type/str"
 	"github.com/michaelmacinnis/oh/internal/common/validate"
 )
 
@@ -93,5 +93,5 @@ func tempfifo(args cell.I) cell.I {
 		panic(err.Error())
 	}
 
-	return sym.New(name)
+	return str.New(name)
 }
-- 
2.43.0


From 5147c08f694df455b2d523dc891173a7c85cd5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:21 +0000
Subject: [PATCH 29/60] fix: don't count a core dump in the status of a killed
 process

---
 internal/system/job/job_unix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 23c6e34..a89ed34 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -420,14 +420,14 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 		return
 	}
 
-	code := int(ws)
+	var code int
 
 	switch {
 	case ws.Exited():
 		code = ws.ExitStatus()
 
 	case ws.Signaled():
-		code += 128
+		code = 128 + int(ws.Signal())
 
 	default:
 		return
-- 
2.43.0


From 26e2b992ea4cac2bd021372ca4d1b9dfbe1b951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:25 +0000
Subject: [PATCH 30/60] fix: keep waiting for a command that stops when not
 monitoring jobs

---
 internal/system/job/job_unix.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index a89ed34..970bc71 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -535,10 +535,15 @@ func reap() {
 		status unix.WaitStatus
 	)
 
-	options := unix.WNOHANG | unix.WUNTRACED | unix.WCONTINUED
+	flags := unix.WNOHANG
+
+	// Without job control a command that stops has not ended.
+	if options.Monitor() {
+		flags |= unix.WUNTRACED | unix.WCONTINUED
+	}
 
 	for {
-		pid, _ := unix.Wait4(-1, &status, options, &rusage)
+		pid, _ := unix.Wait4(-1, &status, flags, &rusage)
 		if pid <= 0 {
 			break
 		}
-- 
2.43.0


From 8006541f0035e170a6d62d5ef798570e709a0cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:04 +0000
Subject: [PATCH 31/60] fix: release the process handle of a command that is
 waited for by pid

---
 internal/system/job/job_unix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 970bc71..41fd77f 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -132,6 +132,9 @@ func (j *job) Execute(t *task.T, path string, argv []string, attr *os.ProcAttr)
 
 			j.running[p.Pid] = t
 			active[p.Pid] = j
+
+			// Processes are reaped by reap. Don't hold a handle for p.
+			_ = p.Release()
 		}
 
 		// Ack with error.
-- 
2.43.0


From 58cc3af7b1dac2ec63edbac81ae4a09e96dcea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:04 +0000
Subject: [PATCH 32/60] fix: close a sourced file that cannot be parsed

---
 internal/engine/boot/boot.oh | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index b8362ad..649e4f1 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -85,12 +85,19 @@ define source: method (basename) e {
     define f: open r- $name
 
     define r: cons () ()
-    define c $r
-    while (define l: f read-list) {
-        c set-tail (cons $l ())
-        set c: c tail
+    define read-all: method () {
+        catch ex {
+            f close
+        }
+
+        define c $r
+        while (define l: f read-list) {
+            c set-tail (cons $l ())
+            set c: c tail
+        }
     }
-    set c: r tail
+    read-all
+    define c: r tail
 
     f close
 
-- 
2.43.0


From c4c61f4674dac4c69fac35a09a262003e65f70a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:04 +0000
Subject: [PATCH 33/60] fix: stop the reader's goroutine when there is nothing
 to read

---
 internal/reader/reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index 04deced..6292a24 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -119,7 +119,10 @@ func (r *reader) next() bool {
 }
 
 func (r *reader) start() {
-	r.next()
+	if !r.next() {
+		// Closed before there was anything to read.
+		return
+	}
 
 	r.e <- r.p.Parse()
 	close(r.e)
-- 
2.43.0


From e0c323fe9fd94dddf158d381b8643af195f088c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:26 +0000
Subject: [PATCH 34/60] fix: expand escaped, . and .. elements of patterns

---
 internal/engine/task/task.go | 48 +++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index 73a7baa..52f6baa 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -250,12 +250,9 @@ func (t *T) expand(args cell.I) cell.I {
 		pwd := ""
 		if !filepath.IsAbs(path) {
 			pwd = t.stringValue("PWD")
-			// path = filepath.Join(pwd, path)
-			path = quoteMeta(pwd) + string(os.PathSeparator) + path
-			pwd = filepath.Clean(pwd)
 		}
 
-		m, err := adapted.Glob(path)
+		m, err := matching(pwd, path)
 		if err != nil || len(m) == 0 {
 			panic("no matches found: " + s)
 		}
@@ -322,6 +319,49 @@ func (t *T) value(s scope.I, k string) cell.I {
 	return v
 }
 
+// matching returns the existing paths that match pattern, starting at dir.
+func matching(dir, pattern string) ([]string, error) {
+	paths := []string{dir}
+
+	for _, elem := range strings.Split(strings.TrimPrefix(pattern, "/"), "/") {
+		next := []string{}
+
+		for _, path := range paths {
+			path += "/"
+
+			if !strings.ContainsAny(elem, `*?[\`) {
+				if _, err := os.Lstat(path + elem); err == nil {
+					next = append(next, path+elem)
+				}
+
+				continue
+			}
+
+			// Entries are sorted by name.
+			entries, _ := os.ReadDir(path)
+
+			for _, entry := range entries {
+				matched, err := adapted.Match(elem, entry.Name())
+				if err != nil {
+					return nil, err
+				}
+
+				if matched {
+					next = append(next, path+entry.Name())
+				}
+			}
+		}
+
+		paths = next
+	}
+
+	for n, path := range paths {
+		paths[n] = filepath.Clean(path)
+	}
+
+	return paths, nil
+}
+
 // quoteMeta returns a pattern that matches path exactly.
 func quoteMeta(path string) string {
 	return strings.NewReplacer("*", "[*]", "?", "[?]", "[", "[[]", `\`, `[\\]`).Replace(path)
-- 
2.43.0


From 40f2547d74578f8048420ec519fa71bc0fd3a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:08 +0000
Subject: [PATCH 35/60] fix: evaluate the user's commands in a scope of their
 own

The methods that boot.oh defines found the names exported at the top level,
such as PWD once cd had been used there, before those of their callers.
---
 internal/engine/boot/boot.oh |  1 -
 internal/engine/engine.go    | 34 +++++++++++++++++++++++-----------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 649e4f1..7f984fd 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -751,4 +751,3 @@ ${completer}
 }
 
 export OH_RC: coalesce OH_RC ~/.oh-rc
-exists $OH_RC && source $OH_RC
diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index 7f12afa..06400de 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -68,19 +68,14 @@ func Boot(path string, arguments []string) {
 		env0.Export("@", list.New(args[1:]...))
 	}
 
-	j := job.Job(0)
-	r := reader.New("boot.oh")
+	run("boot.oh", boot.Script())
 
-	for _, line := range strings.SplitAfter(boot.Script(), "\n") {
-		c, err := r.Scan(line)
-		if err != nil {
-			panic(err.Error())
-		}
+	// Names exported from here on are not in the scope of what boot.oh defines.
+	// Lookups there find the names exported by its callers.
+	scope0 = env.New(scope0)
+	frame0 = frame.New(scope0, frame0.Previous())
 
-		for ; c != nil; c = r.Next() {
-			System(j, c)
-		}
-	}
+	run("boot.oh", "exists $OH_RC && source $OH_RC\n")
 
 	sym.Cache(false)
 }
@@ -233,6 +228,23 @@ func jobs(t *task.T) task.Op {
 	return t.Return(status.Int(0))
 }
 
+// run evaluates each command in script. Used for commands known to be valid.
+func run(name, script string) {
+	j := job.Job(0)
+	r := reader.New(name)
+
+	for _, line := range strings.SplitAfter(script, "\n") {
+		c, err := r.Scan(line)
+		if err != nil {
+			panic(err.Error())
+		}
+
+		for ; c != nil; c = r.Next() {
+			System(j, c)
+		}
+	}
+}
+
 func success(c cell.I) (exitcode int) {
 	defer func() {
 		recover() //nolint:errcheck
-- 
2.43.0


From 3dabf833b74ff7834f4140705524643d78c03498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:08 +0000
Subject: [PATCH 36/60] fix: relative directories in PATH are relative to the
 current directory

---
 internal/engine/task/action.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index fc3382e..308dc8b 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -818,7 +818,13 @@ func external(t *T) Op {
 		path = commands.Path(name, dir)
 	}
 
-	arg0, executable, err := adapted.LookPath(path, t.stringValue("PATH"))
+	// Directories in PATH can be relative.
+	dirs := strings.Split(t.stringValue("PATH"), ":")
+	for n := range dirs {
+		dirs[n] = commands.Path(dirs[n], dir)
+	}
+
+	arg0, executable, err := adapted.LookPath(path, strings.Join(dirs, ":"))
 	if err != nil {
 		panic(strings.ReplaceAll(err.Error(), path, name))
 	}
-- 
2.43.0


From cbf50bb865ca4b5f4be2f4990b546f9c105997e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:08 +0000
Subject: [PATCH 37/60] fix: read-line returns what was written to a channel

Text that looked like an escape sequence was replaced.
---
 internal/common/type/chn/chn.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/common/type/chn/chn.go b/internal/common/type/chn/chn.go
index 52f5f42..9688daa 100644
--- a/internal/common/type/chn/chn.go
+++ b/internal/common/type/chn/chn.go
@@ -6,7 +6,6 @@ package chn
 import (
 	"fmt"
 
-	"github.com/michaelmacinnis/adapted"
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
 	"github.com/michaelmacinnis/oh/internal/common/interface/conduit"
 	"github.com/michaelmacinnis/oh/internal/common/interface/literal"
@@ -62,10 +61,7 @@ func (c *chn) ReadLine() cell.I {
 
 	i, ok := v.(fmt.Stringer)
 	if ok {
-		s, err := adapted.ActualBytes(i.String())
-		if err == nil {
-			return str.New(s)
-		}
+		return str.New(i.String())
 	}
 
 	return str.New(literal.String(v))
-- 
2.43.0


From bd6468502bbcedd8aebf601bcb8ef2353c044dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:36 +0000
Subject: [PATCH 38/60] fix: ignore an entry of the environment that has no =

---
 internal/engine/engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index 06400de..869ab01 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -199,6 +199,10 @@ func init() { //nolint:gochecknoinits
 	// Environment variables.
 	for _, entry := range os.Environ() {
 		kv := strings.SplitN(entry, "=", 2)
+		if len(kv) != 2 {
+			continue
+		}
+
 		env0.Export(kv[0], sym.New(kv[1]))
 	}
 
-- 
2.43.0


From 6ec2c846b69247f625d7c8f6478a7739d5e9064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:37 +0000
Subject: [PATCH 39/60] fix: an empty NAME after -c is the value of $0

---
 internal/system/options/options.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/system/options/options.go b/internal/system/options/options.go
index 43bc2d9..5b937d4 100644
--- a/internal/system/options/options.go
+++ b/internal/system/options/options.go
@@ -75,8 +75,8 @@ func Parse() {
 
 	command, _ = opts.String("--command")
 
-	name, _ := opts.String("NAME")
-	if name == "" {
+	name, err := opts.String("NAME")
+	if err != nil {
 		name = os.Args[0]
 	}
 
-- 
2.43.0


From 865ad16b9b1eed414fcb85ce1605ee8eb6baffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:29 +0000
Subject: [PATCH 40/60] fix: import from where the importer is, and methods of
 modules can throw

A method of an imported module that threw was caught by the handler that
had been in force while the module was evaluated, and the importer then
waited forever. A relative path was resolved where oh was started. Two
concurrent imports of modules with imports of their own could deadlock.
---
 internal/engine/boot/boot.oh | 47 ++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 7f984fd..a15e828 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -424,7 +424,7 @@ define import
 define module: method (name) = # At the top-level module is a no-op.
 
 block {
-    define do-import: method (callback path) {
+    define do-import: method (callback path dir) {
         define import-return $return
 
         catch ex {
@@ -432,34 +432,29 @@ block {
             import-return
         }
 
-        define import: method (path) {
-            define ecex: (method () {
-                request write $return $path
-                return ()
-            })
+        cd $dir
 
-            define ex: ecex tail
+        callback (list (load $path))
+    }
 
-            # TODO: Handle cases where we want to throw ().
-            if (not: null? $ex) {
-                throw $ex
-            }
+    # Names defined here are in the scope of what path defines, which may be
+    # called at any time. The handler in do-import must not be one of them.
+    define load: method (path) {
+        define load-return $return
+        define loading true
+        define module-name ()
 
-            define ec: ecex head
-            if (not: null? $ec) {
-                return $ec
+        define import: method (path) {
+            if $loading {
+                return (load $path)
             }
 
-            import-return
+            request-import $path
         }
 
-        define module-name ()
-
         define module: method (name) {
             if (modules has $name) {
-                define module-object: modules get $name
-                callback (list $module-object)
-                import-return
+                load-return (modules get $name)
             }
             set module-name $name
         }
@@ -468,19 +463,21 @@ block {
             source $path
         }
 
+        set loading ()
+
         if (not: null? $module-name) {
             modules set $module-name $module-object
         }
 
-        callback (list $module-object)
+        return $module-object
     }
 
-    set import: method (path) {
-        define response: chan
+    define request-import: method (path) {
+        define response: chan 1
 
         request write (method (returned) {
             response write $returned
-        }) $path
+        }) $path $PWD
 
         define ecex: response read
 
@@ -494,6 +491,8 @@ block {
         return (ecex head)
     }
 
+    set import $request-import
+
     define modules: map
     define request: chan 1
 
-- 
2.43.0


From dd440b6aea01857110e0eea25dcd5b19c5a07931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:34 +0000
Subject: [PATCH 41/60] fix: keys of a map that are the names of its methods

get, set, has and del were always members of a map, and setting them
replaced the method.
---
 internal/engine/boot/boot.oh | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index a15e828..0241933 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -144,12 +144,32 @@ define object: syntax ((body)) e {
 
 # TODO: Add optional map literal argument.
 define map: method () {
-    object {
+    # No key is the name of one of the methods, as every key is the text of a list.
+    define values: object {
         export del $unset
         export get $get
         export has $set?
         export set $export
     }
+
+    object {
+        export del: method (k) {
+            values del (list $k)
+        }
+
+        export get: method (k) {
+            values has (list $k) || throw "'${k}' not defined"
+            values get (list $k)
+        }
+
+        export has: method (k) {
+            values has (list $k)
+        }
+
+        export set: method (k v) {
+            values set (list $k) $v
+        }
+    }
 }
 
 define for: method (l m) {
-- 
2.43.0


From 34a26e2d6ddd886790ba1b9947176dd5a2b40585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:05 +0000
Subject: [PATCH 42/60] fix: the name of a method of a map is not a key

The text of a list with one element is that of the element.
---
 internal/engine/boot/boot.oh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 0241933..0ecbad2 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -144,7 +144,7 @@ define object: syntax ((body)) e {
 
 # TODO: Add optional map literal argument.
 define map: method () {
-    # No key is the name of one of the methods, as every key is the text of a list.
+    # No key is the name of one of the methods, as every key has two parts.
     define values: object {
         export del $unset
         export get $get
@@ -154,20 +154,20 @@ define map: method () {
 
     object {
         export del: method (k) {
-            values del (list $k)
+            values del (list key $k)
         }
 
         export get: method (k) {
-            values has (list $k) || throw "'${k}' not defined"
-            values get (list $k)
+            values has (list key $k) || throw "'${k}' not defined"
+            values get (list key $k)
         }
 
         export has: method (k) {
-            values has (list $k)
+            values has (list key $k)
         }
 
         export set: method (k v) {
-            values set (list $k) $v
+            values set (list key $k) $v
         }
     }
 }
-- 
2.43.0


From 9dba8ea0ca8d006dcb5021b74f7fb72bd151be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:05 +0000
Subject: [PATCH 43/60] fix: a handler without commands

It called a command named body.
---
 internal/engine/boot/boot.oh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 0ecbad2..7bcc72c 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -582,7 +582,7 @@ define catch: syntax (name (clause)) e {
     define body: list throw (list resolve $name)
 
     if (null? $clause) {
-        set body: list body
+        set body: list $body
     } else {
         set body: (list (splice $clause)) append $body
     }
-- 
2.43.0


From 68d384d336f1f91dbdf816bb142e7aa056b9b8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:05 +0000
Subject: [PATCH 44/60] fix: an exception in what a handler calls

It was given to the same handler again, without end, instead of to the
next one.
---
 internal/engine/boot/boot.oh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 7bcc72c..c369a03 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -587,6 +587,9 @@ define catch: syntax (name (clause)) e {
         set body: (list (splice $clause)) append $body
     }
 
+    # What the handler calls must not find the handler itself.
+    set body: cons (quote (export throw $throw)) $body
+
     define defn: list method (list $name throw) =
     defn extend $body
 
-- 
2.43.0


From 164e892f1d27c7877439566abc5b5493b6ec63f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:55 +0000
Subject: [PATCH 45/60] fix: a chain of tail calls kept the scopes of all its
 callers

The continuation of a call held the binding of the method called, which
holds the scope that the method was called from, which held the
continuation of the call before it.
---
 internal/engine/task/action.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 308dc8b..48c0b20 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -238,7 +238,11 @@ func apply(t *T) Op {
 
 	t.ReplaceOp(&registers{frame: t.frame})
 
-	cc := &registers{dump: t.dump, stack: t.stack, owner: t}
+	// The result at the top is replaced when a continuation is called.
+	// Keeping the binding there would keep the caller's scope.
+	dump := pair.Cons(pair.Null, pair.Cdr(t.dump))
+
+	cc := &registers{dump: dump, stack: t.stack, owner: t}
 
 	// If the visibility differs, create a new frame.
 	if !c.Scope.Visible(s) {
-- 
2.43.0


From 03e665507cc11bc155e92d733b306d2169342adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 46/60] fix: the last command before an else is in tail
 position

---
 internal/engine/task/action.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 48c0b20..426d746 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -489,7 +489,8 @@ func evalBlock(t *T) Op {
 	}
 
 	next := pair.Cdr(t.code)
-	if next == pair.Null {
+	if next == pair.Null || !pair.Is(pair.Car(next)) {
+		// The last command, or the last before an else-clause.
 		t.RemoveOp()
 	} else {
 		t.PushOp(&registers{code: next})
-- 
2.43.0


From 2cdcd9b68e741c2a928cd5b933f366cc7ecccfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:57 +0000
Subject: [PATCH 47/60] fix: a history line longer than a buffer lost the
 history after it

---
 internal/system/history/history.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/system/history/history.go b/internal/system/history/history.go
index 77db93e..a29e5fa 100644
--- a/internal/system/history/history.go
+++ b/internal/system/history/history.go
@@ -1,6 +1,7 @@
 package history
 
 import (
+	"bufio"
 	"io"
 	"os"
 )
@@ -13,7 +14,13 @@ func Load(read func(r io.Reader) (int, error)) error {
 		return nil
 	}
 
-	_, err = read(f)
+	info, err := f.Stat()
+	if err != nil {
+		return err
+	}
+
+	// No line is longer than the file.
+	_, err = read(bufio.NewReaderSize(f, int(info.Size())+1))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f20498b81fdd7fa3021364ccdd400513bb21e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:57 +0000
Subject: [PATCH 48/60] fix: exit at the prompt lost the history of the session

---
 internal/engine/engine.go |  8 +++----
 main.go                   | 48 +++++++++++++++++++++++++++++++--------
 2 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index 869ab01..57dcd53 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -80,8 +80,8 @@ func Boot(path string, arguments []string) {
 	sym.Cache(false)
 }
 
-// Evaluate evaluates the command c.
-func Evaluate(j *job.T, c cell.I) cell.I {
+// Evaluate evaluates the command c. If c exits, the exit code is returned.
+func Evaluate(j *job.T, c cell.I) (code int, exited bool) {
 	r, exited := System(j, c)
 
 	if exited {
@@ -90,12 +90,12 @@ func Evaluate(j *job.T, c cell.I) cell.I {
 			code = success(r)
 		}
 
-		os.Exit(code)
+		return code, true
 	}
 
 	scope0.Define("?", r)
 
-	return r
+	return 0, false
 }
 
 // Resolve returns the string value for a variable.
diff --git a/main.go b/main.go
index 393d973..781b99a 100644
--- a/main.go
+++ b/main.go
@@ -7,6 +7,7 @@ import (
 	"path"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/michaelmacinnis/oh/internal/common"
@@ -63,7 +64,10 @@ func command() bool {
 	}
 
 	for j := job.New(process.Group()); c != nil; c = r.Next() {
-		engine.Evaluate(j, c)
+		code, exited := engine.Evaluate(j, c)
+		if exited {
+			os.Exit(code)
+		}
 	}
 
 	return true
@@ -183,6 +187,13 @@ func directories(s string) []string {
 	return dirs
 }
 
+// The exit type is the exit code of an interactive session.
+type exit int
+
+func (e exit) Error() string {
+	return "exit " + strconv.Itoa(int(e))
+}
+
 func expand(cwd, home, candidate string) (string, bool) {
 	dotdir := false
 	prefix := candidate + "   "
@@ -219,9 +230,9 @@ func files(cached func(string) []string, cwd, home, paths, word string) []string
 	return matches(cached, candidates, word)
 }
 
-func interactive() bool {
+func interactive() (code int, ok bool) {
 	if !options.Interactive() {
-		return false
+		return 0, false
 	}
 
 	go cache.Populate(engine.Resolve("PATH"))
@@ -232,7 +243,7 @@ func interactive() bool {
 	if err != nil {
 		println(err.Error())
 
-		return false
+		return 0, false
 	}
 
 	// We assume the terminal starts in cooked mode.
@@ -240,7 +251,7 @@ func interactive() bool {
 	if err != nil {
 		println(err.Error())
 
-		return false
+		return 0, false
 	}
 
 	// Restore terminal state when we exit.
@@ -259,7 +270,7 @@ func interactive() bool {
 	if err != nil {
 		println(err.Error())
 
-		return false
+		return 0, false
 	}
 
 	err = history.Load(cli.ReadHistory)
@@ -273,15 +284,22 @@ func interactive() bool {
 			println(err.Error())
 		}
 
-		_, _ = os.Stdout.Write([]byte{'\n'})
 	}()
 
 	err = repl(cli, cooked, uncooked, name)
+
+	var e exit
+	if errors.As(err, &e) {
+		return int(e), true
+	}
+
 	if !errors.Is(err, io.EOF) {
 		println(err.Error())
 	}
 
-	return true
+	_, _ = os.Stdout.Write([]byte{'\n'})
+
+	return 0, true
 }
 
 func join(s ...string) string {
@@ -410,7 +428,10 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 
 		if c != nil {
 			for ; c != nil; c = r.Next() {
-				engine.Evaluate(j, c)
+				code, exited := engine.Evaluate(j, c)
+				if exited {
+					return exit(code)
+				}
 
 				process.RestoreForegroundGroup()
 			}
@@ -436,9 +457,16 @@ func main() {
 
 	engine.Boot(options.Script(), options.Args())
 
-	if !command() && !interactive() {
+	if command() {
+		return
+	}
+
+	code, ok := interactive()
+	if !ok {
 		println("unexpected error")
 	}
+
+	os.Exit(code)
 }
 
 //go:generate ./oh bin/test.oh
-- 
2.43.0


From 29ebc18a3db02c7978907c6a010ab597e7a4087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:36 +0000
Subject: [PATCH 49/60] fix: each command entered is its own job, named by its
 own lines

---
 internal/system/job/job_unix.go |  4 ++--
 main.go                         | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 41fd77f..aab4c03 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -73,8 +73,8 @@ func New(group int) *T {
 	return <-r
 }
 
-func (j *job) Append(line string) {
-	j.lines = append(j.lines, line)
+func (j *job) Append(lines ...string) {
+	j.lines = append(j.lines, lines...)
 }
 
 func (j *job) Await(fn func(), p *task.T, ts ...*task.T) {
diff --git a/main.go b/main.go
index 781b99a..67c6bc5 100644
--- a/main.go
+++ b/main.go
@@ -371,6 +371,9 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 	j := job.New(0)
 	r := reader.New(name)
 
+	// The lines of the command being entered.
+	lines := []string{}
+
 	cli.SetWordCompleter(completer(&j, &r))
 	cli.SetTabCompletionStyle(liner.TabPrints)
 
@@ -392,6 +395,7 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 			if errors.Is(err, liner.ErrPromptAborted) {
 				r.Close()
 				r = reader.New(name)
+				lines = []string{}
 				suffix = initial
 
 				continue
@@ -410,7 +414,8 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 		}
 
 		cli.AppendHistory(line)
-		j.Append(line)
+
+		lines = append(lines, line)
 
 		suffix = continued
 
@@ -420,6 +425,7 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 
 			r.Close()
 
+			lines = []string{}
 			suffix = initial
 			r = reader.New(name)
 
@@ -428,6 +434,10 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 
 		if c != nil {
 			for ; c != nil; c = r.Next() {
+				// Each command can be stopped.
+				j = job.New(0)
+				j.Append(lines...)
+
 				code, exited := engine.Evaluate(j, c)
 				if exited {
 					return exit(code)
@@ -438,6 +448,7 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 
 			r.Close()
 
+			lines = []string{}
 			suffix = initial
 			r = reader.New(name)
 
-- 
2.43.0


From 412029bd2ca25d8f579d87127cd85f40b509fecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:37 +0000
Subject: [PATCH 50/60] fix: stopping, resuming and interrupting jobs

---
 internal/engine/engine.go       |  13 ++
 internal/engine/task/action.go  |  22 ++-
 internal/engine/task/state.go   | 242 ++++++++++++++++-------------
 internal/engine/task/task.go    |  50 +++---
 internal/system/job/job_unix.go | 267 ++++++++++++++++++++------------
 5 files changed, 370 insertions(+), 224 deletions(-)

diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index 57dcd53..d5acc60 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -31,6 +31,12 @@ import (
 	"github.com/michaelmacinnis/oh/internal/system/process"
 )
 
+// Exit codes for commands that are interrupted or stopped from the keyboard.
+const (
+	interrupted = 128 + 2
+	stopped     = 128 + 20
+)
+
 // Boot gets things ready for Evaluate and System calls.
 func Boot(path string, arguments []string) {
 	sym.Cache(true)
@@ -131,6 +137,13 @@ func System(j *job.T, c cell.I) (cell.I, bool) {
 
 	<-done
 
+	switch {
+	case t.Aborted():
+		return status.Int(interrupted), false
+	case !t.Ended():
+		return status.Int(stopped), false
+	}
+
 	return t.Result(), t.Exited()
 }
 
diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 426d746..7acfb7d 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -3,6 +3,7 @@
 package task
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"regexp"
@@ -59,7 +60,7 @@ func Actions(s scope.I) {
 	s.Define("command", &Method{Op: Action(cmd)})
 	s.Define("exists", &Method{Op: Action(exists)})
 	s.Define("glob", &Method{Op: Action(glob)})
-	s.Define("open", &Method{Op: Action(open)})
+	s.Define("open", &Method{Op: blocking(Action(open))})
 
 	// Functions.
 	for k, v := range commands.Functions() {
@@ -857,6 +858,10 @@ func external(t *T) Op {
 	attr := &os.ProcAttr{Dir: dir, Env: t.Environ(), Files: files}
 
 	err = t.job.Execute(t, arg0, argv, attr)
+	if errors.Is(err, ErrStopping) {
+		return t.Op()
+	}
+
 	if err != nil {
 		panic(err.Error())
 	}
@@ -986,6 +991,19 @@ func bind(a command, self cell.I) *binding {
 	return &binding{a, self}
 }
 
+// Make the operation o, which may block, an operation that is not performed
+// by a task that is stopping.
+func blocking(o Op) Op {
+	return Action(func(t *T) Op {
+		if !t.Block() {
+			return t.Op()
+		}
+		defer t.Unblock()
+
+		return o.Perform(t)
+	})
+}
+
 // Convert a cell to a binding. Panic if not possible.
 func bound(a cell.I) *binding {
 	if b, ok := a.(*binding); ok {
@@ -1003,7 +1021,7 @@ func makeConduitScope() scope.I {
 	s := env.New(nil)
 
 	for k, v := range commands.ConduitMethods() {
-		s.Export(k, m(v))
+		s.Export(k, &Method{Op: blocking(m(v).Op)})
 	}
 
 	return obj.New(s)
diff --git a/internal/engine/task/state.go b/internal/engine/task/state.go
index 2c449dc..4c7461d 100644
--- a/internal/engine/task/state.go
+++ b/internal/engine/task/state.go
@@ -8,39 +8,69 @@ import (
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
 )
 
-// E R S W
-// 0 1 0 X Task is running.
-// 0 1 1 X Task is stopping but Runnable has not yet been called.
-// 0 0 1 X Task is stopping but has not returned from Run.
-// 0 0 0 X Task is stopped.
-
-// E R S W
-// X X X 0 Task is not waiting.
-// X X X 1 Task is waiting for an external process to finish.
-
-// E R S W
-// 1 X X X Task is no longer runnable.
-
-// The type state is a task's state.
+// The type state is a task's state. Only the job monitor starts, stops and
+// interrupts tasks. A task runs on its own goroutine, which ends when the task
+// stops, is interrupted, or has nothing left to do.
 type state struct {
 	*sync.Mutex
-	resume  *sync.Cond
-	stopped *sync.Cond
+	resume *sync.Cond
 
 	result cell.I
 
-	exited   bool
-	running  bool
-	stopping bool
-	waiting  bool
+	aborted     bool // Task was interrupted before it had completed.
+	blocked     bool // Task is performing an operation that may block.
+	ended       bool // Task is no longer runnable.
+	exited      bool // Task called exit.
+	exiting     bool // Task's goroutine is ending because stopping was set.
+	interrupted bool // Task must not perform any further operations.
+	restart     bool // Task was started while exiting.
+	running     bool // Task has a goroutine.
+	stopping    bool // Task must not perform another operation until started.
+	waiting     bool // Task is waiting to be notified.
 }
 
 func fresh() *state {
 	m := &sync.Mutex{}
 
-	return &state{Mutex: m, resume: sync.NewCond(m), stopped: sync.NewCond(m)}
+	return &state{Mutex: m, resume: sync.NewCond(m)}
+}
+
+// Aborted returns true if the task was interrupted before it had completed.
+func (s *state) Aborted() bool {
+	s.Lock()
+	defer s.Unlock()
+
+	return s.aborted
+}
+
+// Block marks the task as performing an operation that may block. If the task
+// is stopping Block returns false and the operation should not be performed.
+func (s *state) Block() bool {
+	s.Lock()
+	defer s.Unlock()
+
+	s.blocked = !s.stopping
+
+	return s.blocked
+}
+
+// End marks the task as no longer runnable.
+func (s *state) End() {
+	s.Lock()
+	defer s.Unlock()
+
+	s.ended = true
 }
 
+// Ended returns true if the task is no longer runnable.
+func (s *state) Ended() bool {
+	s.Lock()
+	defer s.Unlock()
+
+	return s.ended
+}
+
+// Exit records that the task called exit.
 func (s *state) Exit() {
 	s.Lock()
 	defer s.Unlock()
@@ -48,6 +78,7 @@ func (s *state) Exit() {
 	s.exited = true
 }
 
+// Exited returns true if the task called exit.
 func (s *state) Exited() bool {
 	s.Lock()
 	defer s.Unlock()
@@ -55,15 +86,33 @@ func (s *state) Exited() bool {
 	return s.exited
 }
 
-// Notify notifies a waiting task that it can continue. If running is set,
-// the condition variable resume is used to signal the task to resume.
-// Calling this on a task that is not waiting results in a panic.
-//
-// R S W -> R S W
-// X X 0    X X 0 panic
-// 0 X 1    0 X 0
-// 1 X 1    1 X 0 resume signal.
-//
+// Interrupt marks a task so that it performs no further operations. If the
+// task is waiting Interrupt signals it to resume. Interrupt returns true if
+// the task is not going to tell the monitor that it has ended, any time soon.
+func (s *state) Interrupt() bool {
+	s.Lock()
+	defer s.Unlock()
+
+	if s.ended {
+		return false
+	}
+
+	s.interrupted = true
+	s.stopping = true
+
+	s.resume.Signal()
+
+	if s.running && !s.blocked && !s.exiting {
+		return false
+	}
+
+	s.aborted = true
+
+	return true
+}
+
+// Notify notifies a waiting task that it can continue. Calling this on a task
+// that is not waiting results in a panic.
 func (s *state) Notify(r cell.I) {
 	s.Lock()
 	defer s.Unlock()
@@ -75,117 +124,99 @@ func (s *state) Notify(r cell.I) {
 	s.result = r
 	s.waiting = false
 
-	if s.running {
-		s.resume.Signal()
-	}
+	s.resume.Signal()
 }
 
-// Runnable returns true if a task is running and not stopping or waiting.
-// If the task is waiting and not stopping Runnable blocks until signaled via
-// the resume condition variable.
-//
-// R S W -> R S W
-// 0 X X    0 X X returns false
-// 1 0 0    1 0 0 returns true
-// 1 0 1    0 1 1 blocks until stopped, ...
-// 1 0 1    1 0 0 ...or resumed
-// 1 1 0    0 1 0 returns false
-// 1 1 1    0 1 1 .
-//
+// Runnable returns true if a task is not stopping or waiting. If the task is
+// waiting and not stopping Runnable blocks until the task is notified, stopped
+// or interrupted.
 func (s *state) Runnable() bool {
 	s.Lock()
 	defer s.Unlock()
 
-	if !s.running {
-		return false
-	}
-
 	for s.waiting && !s.stopping {
 		s.resume.Wait()
 	}
 
-	s.running = !s.stopping
+	s.exiting = s.stopping
 
-	return s.running
+	if s.interrupted {
+		s.aborted = true
+	}
+
+	return !s.stopping
 }
 
-// Started marks the task as running.
-// Calling this on a task that is already running results in a panic.
-//
-// R S W -> R S W
-// 0 0 X -> 1 0 X
-// 0 1 X -> 0 0 X
-// 1 X X    1 X X panic.
-//
-func (s *state) Started() {
+// Started marks the task as running. It returns true if the task needs a new
+// goroutine. If the task's goroutine has not noticed that the task is stopping
+// it carries on.
+func (s *state) Started() bool {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.ended || s.interrupted {
+		return false
+	}
+
+	s.stopping = false
+
 	if s.running {
-		// Why is this already running?
-		panic("already running")
+		s.restart = s.exiting
+
+		return false
 	}
 
 	s.running = true
+
+	return true
 }
 
-// Stop marks a running task as stopping and waits for a signal that the task
-// has stopped. If the task is waiting Stop signals it to resume so that it
-// can unblock and signal that it has stopped.
-//
-// R S W -> R S W
-// X 1 X -> X 1 X
-// 0 X X -> 0 X X
-// 1 0 0 -> 0 0 0 waits for stopped signal
-// 1 0 1 -> 0 0 1 resumes tasks, waits for stopped signal.
-//
-func (s *state) Stop(f func()) {
+// Stop marks a running task as stopping. If the task is waiting Stop signals
+// it to resume. Stop returns true if the task is not going to tell the monitor
+// that it has stopped, any time soon.
+func (s *state) Stop() bool {
 	s.Lock()
 	defer s.Unlock()
 
-	if s.stopping {
-		return
-	}
-
-	if !s.running {
-		// Stopped running before we got here.
-		return
+	if !s.running || s.stopping {
+		return false
 	}
 
 	s.stopping = true
 
-	if f != nil {
-		f()
-	}
+	s.resume.Signal()
 
-	if s.waiting {
-		s.resume.Signal()
-	}
+	return s.blocked
+}
 
-	for !s.stopping {
-		s.stopped.Wait()
-	}
+// Stopped records that the task's goroutine has ended. It returns true if the
+// task has been started since and needs a new goroutine.
+func (s *state) Stopped() bool {
+	s.Lock()
+	defer s.Unlock()
+
+	s.running = s.restart
+
+	s.exiting = false
+	s.restart = false
+
+	return s.running
 }
 
-// Stopped clears running and stopping and if stopping was set, signals that
-// the task has stopped.
-//
-// R S W -> R S W
-// X 0 X -> 0 0 X
-// 0 1 X -> 0 0 X signals task has stopped.
-//
-func (s *state) Stopped() {
+// Stopping returns true if the task has been stopped or interrupted.
+func (s *state) Stopping() bool {
 	s.Lock()
 	defer s.Unlock()
 
-	signal := s.stopping
+	return s.stopping
+}
 
-	s.running = false
-	s.stopping = false
+// Unblock marks the task as no longer performing an operation that may block.
+func (s *state) Unblock() {
+	s.Lock()
+	defer s.Unlock()
 
-	if signal {
-		s.stopped.Signal()
-	}
+	s.blocked = false
 }
 
 // Value returns the most recent value set by notify.
@@ -200,11 +231,6 @@ func (s *state) Value() cell.I {
 }
 
 // Wait sets waiting. Calling this when waiting is already set panics.
-//
-// R S W -> R S W
-// X X 0 -> X X 1
-// X X 1 -> X X 1 panic.
-//
 func (s *state) Wait() {
 	s.Lock()
 	defer s.Unlock()
diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index 52f6baa..8e057cd 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -24,6 +24,10 @@ import (
 
 const debug = false
 
+// ErrStopping is the error when a task can't execute anything because it is
+// stopping. It can try again if it is started.
+const ErrStopping = common.Error("stopping")
+
 type monitor interface {
 	Await(fn func(), t *T, ts ...*T)
 	Execute(t *T, path string, argv []string, attr *os.ProcAttr) error
@@ -147,13 +151,6 @@ func (t *T) Environ() []string {
 	return environ
 }
 
-// Interrupt stops the task.
-func (t *T) Interrupt() {
-	t.state.Stop(func() {
-		t.stack = done
-	})
-}
-
 // Return is a helper used by actions to return a value.
 func (t *T) Return(c cell.I) Op {
 	t.ReplaceResult(c)
@@ -161,15 +158,23 @@ func (t *T) Return(c cell.I) Op {
 	return t.PreviousOp()
 }
 
-// Run steps through a tasks operations until they are exhausted.
+// Run starts the task unless it is running.
 func (t *T) Run() {
-	t.Started()
-	defer t.job.Stopped(t)
+	if t.Started() {
+		go t.run()
+	}
+}
 
-	s := t.Op()
-	for t.state.Runnable() && s != nil {
-		s = t.Step(s)
+// Stopped is called by the monitor when the task's goroutine has ended. It
+// returns false if the task is still running because it was started since.
+func (t *T) Stopped() bool {
+	if t.state.Stopped() {
+		go t.run()
+
+		return false
 	}
+
+	return true
 }
 
 // Step performs a single action and determines the next action.
@@ -220,11 +225,6 @@ func (t *T) Step(s Op) (op Op) {
 	return op
 }
 
-// Stop stops a task but allows for it to be restarted.
-func (t *T) Stop() {
-	t.state.Stop(nil)
-}
-
 func (t *T) expand(args cell.I) cell.I {
 	l := pair.Null
 
@@ -281,6 +281,20 @@ func (t *T) resolve(s scope.I, k string) cell.I {
 	return v
 }
 
+// run steps through a task's operations until they are exhausted.
+func (t *T) run() {
+	defer t.job.Stopped(t)
+
+	s := t.Op()
+	for s != nil && t.Runnable() {
+		s = t.Step(s)
+	}
+
+	if t.Aborted() {
+		t.stack = done
+	}
+}
+
 func (t *T) stringValue(k string) string {
 	v := t.value(nil, k)
 	if v == nil {
diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index aab4c03..38d7c02 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -25,6 +25,7 @@ import (
 type T struct {
 	group   int
 	initial int
+	killed  bool // A foreground process was ended by SIGINT.
 	lines   []string
 	main    *task.T
 
@@ -118,7 +119,15 @@ func (j *job) Execute(t *task.T, path string, argv []string, attr *os.ProcAttr)
 	requestq <- func() {
 		reap()
 
-		foregroundProcess := options.Monitor() && j == foreground
+		if t.Stopping() {
+			errq <- task.ErrStopping
+
+			close(errq)
+
+			return
+		}
+
+		foregroundProcess := j.foreground()
 
 		attr.Sys = process.SysProcAttr(foregroundProcess, j.group)
 
@@ -151,6 +160,15 @@ func (j *job) Spawn(p, c *task.T, fn func()) {
 	done := make(chan struct{})
 
 	requestq <- func() {
+		// Ack.
+		defer close(done)
+
+		if p != nil && p.Aborted() {
+			c.Interrupt()
+
+			return
+		}
+
 		parent[c] = p
 		if p != nil {
 			children[p] = append(children[p], c)
@@ -158,6 +176,7 @@ func (j *job) Spawn(p, c *task.T, fn func()) {
 				background = append(background, c)
 			}
 		} else {
+			j.killed = false
 			j.main = c
 		}
 
@@ -175,10 +194,9 @@ func (j *job) Spawn(p, c *task.T, fn func()) {
 			wgs[w] = struct{}{}
 		}
 
-		go c.Run()
-
-		// Ack.
-		close(done)
+		if p == nil || !p.Stopping() {
+			c.Run()
+		}
 	}
 
 	// Wait for an ack.
@@ -187,33 +205,14 @@ func (j *job) Spawn(p, c *task.T, fn func()) {
 
 func (j *job) Stopped(t *task.T) {
 	requestq <- func() {
-		t.Stopped()
-
-		if !t.Completed() {
-			if foreground != nil && foreground.main == t {
-				tell(t)
-
-				number := 1
-				for n := range jobs {
-					if n >= number {
-						number = n + 1
-					}
-				}
-				jobs[number] = foreground
-
-				printJobs(os.Stdout, number)
-			}
-
+		if !t.Stopped() {
 			return
 		}
 
-		tell(t)
-
-		if p, found := parent[t]; found {
-			delete(parent, t)
-
-			children[p] = remove(children[p], t)
-			background = remove(background, t)
+		if t.Completed() || t.Aborted() {
+			j.ended(t)
+		} else {
+			j.halted(t)
 		}
 	}
 }
@@ -247,12 +246,7 @@ func Bg(w io.Writer, n int) *task.T {
 			fmt.Fprintf(w, "%s\n", line)
 		}
 
-		for pid, t := range j.stopped {
-			process.Continue(pid)
-			j.running[pid] = t
-		}
-
-		go j.main.Run()
+		j.resume()
 
 		r <- j.main
 
@@ -285,15 +279,17 @@ func Fg(w io.Writer, n int) bool {
 			return
 		}
 
-		wgs := waiting[foreground.main]
-		for wg := range wgs {
-			wg.on[j.main] = wg.on[foreground.main]
-			delete(wg.on, foreground.main)
+		// What waits for the current job also waits for the selected job.
+		if _, found := waiting[j.main]; !found {
+			waiting[j.main] = map[*wg]struct{}{}
+		}
+
+		for w := range waiting[foreground.main] {
+			w.on[j.main] = struct{}{}
+			waiting[j.main][w] = struct{}{}
 		}
-		waiting[j.main] = waiting[foreground.main]
-		delete(waiting, foreground.main)
 
-		foreground.main = j.main
+		foreground = j
 
 		delete(jobs, n)
 
@@ -307,12 +303,7 @@ func Fg(w io.Writer, n int) bool {
 			process.SetForegroundGroup(process.Group())
 		}
 
-		for pid, t := range j.stopped {
-			process.Continue(pid)
-			j.running[pid] = t
-		}
-
-		go foreground.main.Run()
+		j.resume()
 
 		r <- true
 
@@ -376,98 +367,190 @@ var (
 	waiting = map[*task.T]map[*wg]struct{}{}
 )
 
-func (j *job) interrupt() {
-	interrupt(j.main)
+// ended is called when the task t will not run any more.
+func (j *job) ended(t *task.T) {
+	t.End()
 
-	for pid := range j.running {
-		process.Interrupt(pid)
+	if t == j.main {
+		j.unlist()
+	}
+
+	tell(t)
+
+	if p, found := parent[t]; found {
+		delete(parent, t)
+
+		children[p] = remove(children[p], t)
+		background = remove(background, t)
 	}
 }
 
-func (j *job) notify(pid int, ws unix.WaitStatus) {
-	if ws.Continued() {
-		t, found := j.stopped[pid]
-		if !found {
-			println("UNKNOWN PID CONTINUED", pid)
+// foreground returns true if the processes of j should have the terminal.
+func (j *job) foreground() bool {
+	return options.Monitor() && j == foreground && j.main != nil && !j.main.Ended()
+}
 
-			return
-		}
+// halted is called when the task t has stopped.
+func (j *job) halted(t *task.T) {
+	if t != j.main {
+		return
+	}
 
-		if len(j.stopped) == 1 {
-			// The last stopped process is running. Resume the job.
-			j.resume()
+	j.unlist()
+
+	number := 1
+	for n := range jobs {
+		if n >= number {
+			number = n + 1
 		}
+	}
 
-		j.running[pid] = t
-		delete(j.stopped, pid)
+	jobs[number] = j
+
+	if j == foreground {
+		printJobs(os.Stdout, number)
+
+		tell(t)
+	}
+}
 
+func (j *job) interrupt() {
+	if j == nil || j.main == nil {
 		return
 	}
 
-	t, found := j.running[pid]
-	if !found {
+	for pid := range j.running {
+		process.Interrupt(pid)
+	}
+
+	j.interruptTask(j.main)
+}
+
+func (j *job) interruptTask(t *task.T) {
+	// Tasks that have ended are removed.
+	for _, child := range append([]*task.T{}, children[t]...) {
+		j.interruptTask(child)
+	}
+
+	if t.Interrupt() {
+		j.ended(t)
+	}
+}
+
+func (j *job) notify(pid int, ws unix.WaitStatus) {
+	t, running := j.running[pid]
+	if !running {
+		t = j.stopped[pid]
+	}
+
+	if t == nil {
 		println("UNKNOWN PID STATUS CHANGE", pid)
 
 		return
 	}
 
-	if ws.Stopped() {
-		if len(j.running) == 1 {
-			// The last running process is stopping. Stop the task.
-			j.stop()
+	delete(j.running, pid)
+	delete(j.stopped, pid)
+
+	switch {
+	case ws.Continued():
+		j.running[pid] = t
+
+		if !running && len(j.stopped) == 0 {
+			// The last stopped process is running. Resume the job.
+			j.unlist()
+			j.resume()
 		}
 
+		return
+
+	case ws.Stopped():
 		j.stopped[pid] = t
-		delete(j.running, pid)
+
+		if len(j.running) == 0 {
+			// The last running process has stopped. Stop the task.
+			j.stop()
+		}
 
 		return
 	}
 
-	var code int
-
-	switch {
-	case ws.Exited():
-		code = ws.ExitStatus()
+	code := ws.ExitStatus()
 
-	case ws.Signaled():
+	if ws.Signaled() {
 		code = 128 + int(ws.Signal())
 
-	default:
-		return
+		if ws.Signal() == unix.SIGINT && j.foreground() {
+			j.killed = true
+		}
 	}
 
-	delete(j.running, pid)
 	delete(active, pid)
 
-	if len(j.running) == 0 && len(j.stopped) == 0 {
+	switch {
+	case len(j.running) > 0:
+		break
+
+	case len(j.stopped) > 0:
+		// What is left has stopped. Stop the task.
+		j.stop()
+
+	default:
 		j.group = j.initial
+
+		if j.foreground() {
+			process.RestoreForegroundGroup()
+		}
+
+		if j.killed {
+			j.interrupt()
+		}
 	}
 
 	t.Notify(status.Int(code))
 }
 
 func (j *job) resume() {
-	resume(j.main)
+	for pid, t := range j.stopped {
+		j.running[pid] = t
+
+		delete(j.stopped, pid)
 
-	for pid := range j.running {
 		process.Continue(pid)
 	}
+
+	resume(j.main)
 }
 
 func (j *job) stop() {
-	stop(j.main)
+	if j == nil || j.main == nil {
+		return
+	}
 
 	for pid := range j.running {
 		process.Stop(pid)
 	}
+
+	j.stopTask(j.main)
 }
 
-func interrupt(t *task.T) {
+func (j *job) stopTask(t *task.T) {
 	for _, child := range children[t] {
-		interrupt(child)
+		j.stopTask(child)
 	}
 
-	t.Interrupt()
+	if t.Stop() {
+		j.halted(t)
+	}
+}
+
+// unlist removes j from the list of stopped jobs.
+func (j *job) unlist() {
+	for n, v := range jobs {
+		if v == j {
+			delete(jobs, n)
+		}
+	}
 }
 
 func jobNumbers() []int {
@@ -587,17 +670,9 @@ func remove(cs []*task.T, t *task.T) []*task.T {
 func resume(t *task.T) {
 	for _, child := range children[t] {
 		resume(child)
-
-		go child.Run()
-	}
-}
-
-func stop(t *task.T) {
-	for _, child := range children[t] {
-		stop(child)
 	}
 
-	t.Stop()
+	t.Run()
 }
 
 func tell(t *task.T) {
-- 
2.43.0


From b9376d0123dd20e705ee7ccc2622e4e670862100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:38 +0000
Subject: [PATCH 51/60] fix: a command reading from the terminal can be stopped
 and interrupted

---
 internal/common/type/pipe/pipe.go       | 16 ++++++++++++++++
 internal/engine/task/action.go          | 22 +++++++++++++++++++++-
 internal/system/process/process_unix.go |  9 +++++++++
 3 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 88ca5dd..b5c0881 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -79,6 +79,22 @@ func (p *pipe) Name() string {
 	return name
 }
 
+// Pending returns false if a read would have to wait for the file f.
+func (p *pipe) Pending(f *os.File, ready func(f *os.File) bool) bool {
+	if R(p) != f {
+		return true
+	}
+
+	if !p.in.TryLock() {
+		return true
+	}
+	defer p.in.Unlock()
+
+	b := p.buffer()
+
+	return b == nil || b.Buffered() > 0 || ready(f)
+}
+
 // Read reads a cell from the pipe.
 func (p *pipe) Read() cell.I {
 	p.in.Lock()
diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 7acfb7d..f47bbbc 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -30,6 +30,7 @@ import (
 	"github.com/michaelmacinnis/oh/internal/common/validate"
 	"github.com/michaelmacinnis/oh/internal/engine/commands"
 	"github.com/michaelmacinnis/oh/internal/system/cache"
+	"github.com/michaelmacinnis/oh/internal/system/process"
 )
 
 // Action performs a single step of the machine and returns the next operation.
@@ -914,6 +915,20 @@ func implicitLookup(t *T) Op {
 	return t.PreviousOp()
 }
 
+// Make the operation o, which reads, an operation that is tried again until
+// there is something to read from standard input. A task that is reading what
+// is typed at a terminal can then be stopped and won't take what is typed next.
+func reading(o Op) Op {
+	return Action(func(t *T) Op {
+		p, ok := bound(t.Result()).self.(*pipe.T)
+		if ok && !p.Pending(os.Stdin, process.Readable) {
+			return t.Op()
+		}
+
+		return o.Perform(t)
+	})
+}
+
 // resume returns the result from an external command.
 //
 // Result:
@@ -1021,7 +1036,12 @@ func makeConduitScope() scope.I {
 	s := env.New(nil)
 
 	for k, v := range commands.ConduitMethods() {
-		s.Export(k, &Method{Op: blocking(m(v).Op)})
+		o := blocking(m(v).Op)
+		if strings.HasPrefix(k, "read") && k != "reader-close" {
+			o = reading(o)
+		}
+
+		s.Export(k, &Method{Op: o})
 	}
 
 	return obj.New(s)
diff --git a/internal/system/process/process_unix.go b/internal/system/process/process_unix.go
index b609a5d..2a7a23f 100644
--- a/internal/system/process/process_unix.go
+++ b/internal/system/process/process_unix.go
@@ -81,6 +81,15 @@ func Interrupt(pid int) {
 	_ = unix.Kill(pid, unix.SIGINT)
 }
 
+// Readable waits, but not for long, for the file f to be readable.
+func Readable(f *os.File) bool {
+	fds := []unix.PollFd{{Fd: int32(f.Fd()), Events: unix.POLLIN}}
+
+	n, err := unix.Poll(fds, 50)
+
+	return n != 0 || err != nil && err != unix.EINTR
+}
+
 // RestoreForegroundGroup places the group for this process back in the foreground.
 func RestoreForegroundGroup() {
 	if group == ForegroundGroup() {
-- 
2.43.0


From 1ca6eb4f7b13059b61886e890b083ee7102d2f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:50 +0000
Subject: [PATCH 52/60] fix: a job stopped while fg was still returning ended
 the shell later

---
 internal/system/job/job_unix.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 38d7c02..d750160 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -676,21 +676,15 @@ func resume(t *task.T) {
 }
 
 func tell(t *task.T) {
-	wgs, found := waiting[t]
-	if !found {
-		return
-	}
+	wgs := waiting[t]
+
+	delete(waiting, t)
 
 	for w := range wgs {
 		delete(w.on, t)
 
 		if len(w.on) == 0 {
 			w.fn()
-			delete(wgs, w)
 		}
 	}
-
-	if len(wgs) == 0 {
-		delete(waiting, t)
-	}
 }
-- 
2.43.0


From c9265852abebdc9609d0c506cf8090d536923132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:52 +0000
Subject: [PATCH 53/60] fix: a command stopped from the keyboard while it
 starts hung the shell

---
 internal/system/job/job_unix.go | 66 ++++++++++++++++++++++++++++++++-
 1 file changed, 65 insertions(+), 1 deletion(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index d750160..3d10b74 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"os/signal"
 	"sort"
+	"sync"
 
 	"github.com/michaelmacinnis/oh/internal/common/type/status"
 	"github.com/michaelmacinnis/oh/internal/engine/task"
@@ -35,6 +36,11 @@ type T struct {
 
 type job = T
 
+type start struct {
+	sync.Mutex
+	active bool
+}
+
 type wg struct {
 	fn func()
 	on map[*task.T]struct{}
@@ -131,7 +137,10 @@ func (j *job) Execute(t *task.T, path string, argv []string, attr *os.ProcAttr)
 
 		attr.Sys = process.SysProcAttr(foregroundProcess, j.group)
 
+		starting.set(foregroundProcess)
 		p, err := os.StartProcess(path, argv, attr)
+		starting.set(false)
+
 		if err == nil {
 			t.Wait()
 
@@ -142,7 +151,11 @@ func (j *job) Execute(t *task.T, path string, argv []string, attr *os.ProcAttr)
 			j.running[p.Pid] = t
 			active[p.Pid] = j
 
-			// Processes are reaped by reap. Don't hold a handle for p.
+			if foregroundProcess {
+				j.started(p.Pid)
+			}
+
+			// Processes are reaped here. Don't hold a handle for p.
 			_ = p.Release()
 		}
 
@@ -341,6 +354,10 @@ func Monitor() {
 
 	signal.Notify(signalq, signals...)
 
+	if options.Monitor() {
+		go unstick()
+	}
+
 	go monitor()
 }
 
@@ -350,6 +367,7 @@ var (
 
 	requestq chan func()
 	signalq  chan os.Signal
+	starting start // Is a foreground process being started?
 
 	active     = map[int]*job{}
 	background = []*task.T{}
@@ -522,6 +540,23 @@ func (j *job) resume() {
 	resume(j.main)
 }
 
+// started is called when the foreground process pid has just started.
+func (j *job) started(pid int) {
+	var status unix.WaitStatus
+
+	p, _ := unix.Wait4(pid, &status, unix.WNOHANG|unix.WCONTINUED, nil)
+	if p != pid {
+		return
+	}
+
+	if status.Continued() {
+		// It was stopped from the keyboard. See unstick.
+		j.stop()
+	} else {
+		j.notify(pid, status)
+	}
+}
+
 func (j *job) stop() {
 	if j == nil || j.main == nil {
 		return
@@ -688,3 +723,32 @@ func tell(t *task.T) {
 		}
 	}
 }
+
+func (s *start) set(active bool) {
+	s.Lock()
+	defer s.Unlock()
+
+	s.active = active
+}
+
+// unstick continues a process that was stopped from the keyboard before it had
+// started. The monitor is waiting for it to start. The process has, or was about
+// to be given, the terminal.
+func (s *start) unstick() {
+	s.Lock()
+	defer s.Unlock()
+
+	if s.active {
+		process.Continue(-process.ForegroundGroup())
+	}
+}
+
+func unstick() {
+	q := make(chan os.Signal, 1)
+
+	signal.Notify(q, unix.SIGCHLD)
+
+	for range q {
+		starting.unstick()
+	}
+}
-- 
2.43.0


From 2138810c0fbbdf45bde416f0c9a3c7d46d943bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:47 +0000
Subject: [PATCH 54/60] fix: a stopped command could still take what was typed
 next

---
 internal/system/process/process_unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/system/process/process_unix.go b/internal/system/process/process_unix.go
index 2a7a23f..799c95b 100644
--- a/internal/system/process/process_unix.go
+++ b/internal/system/process/process_unix.go
@@ -87,7 +87,7 @@ func Readable(f *os.File) bool {
 
 	n, err := unix.Poll(fds, 50)
 
-	return n != 0 || err != nil && err != unix.EINTR
+	return n > 0 || err != nil && err != unix.EINTR
 }
 
 // RestoreForegroundGroup places the group for this process back in the foreground.
-- 
2.43.0


From 74f3dabb5c7c9bc03dade98415ec5fc6540d44fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:52 +0000
Subject: [PATCH 55/60] fix: a job resumed right after it was stopped could
 stop again

---
 internal/system/job/job_unix.go | 62 +++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 3d10b74..7647f4b 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -39,6 +39,7 @@ type job = T
 type start struct {
 	sync.Mutex
 	active bool
+	shared bool // This process will be told if it was stopped.
 }
 
 type wg struct {
@@ -533,7 +534,10 @@ func (j *job) resume() {
 		j.running[pid] = t
 
 		delete(j.stopped, pid)
+	}
 
+	// A process that was just stopped may not have been reaped.
+	for pid := range j.running {
 		process.Continue(pid)
 	}
 
@@ -549,11 +553,13 @@ func (j *job) started(pid int) {
 		return
 	}
 
-	if status.Continued() {
+	switch {
+	case !status.Continued():
+		j.notify(pid, status)
+
+	case !starting.shared:
 		// It was stopped from the keyboard. See unstick.
 		j.stop()
-	} else {
-		j.notify(pid, status)
 	}
 }
 
@@ -599,8 +605,32 @@ func jobNumbers() []int {
 	return i
 }
 
+func handle(s os.Signal) {
+	switch s {
+	case unix.SIGCHLD:
+		reap()
+
+	case unix.SIGINT:
+		foreground.interrupt()
+
+	case unix.SIGTSTP:
+		foreground.stop()
+	}
+}
+
 func monitor() {
 	for {
+		// A signal is for the job that was in the foreground when it was
+		// sent and not for one that a request puts in the foreground.
+		select {
+		case s := <-signalq:
+			handle(s)
+
+			continue
+
+		default:
+		}
+
 		select {
 		case f := <-requestq:
 			f()
@@ -618,16 +648,7 @@ func monitor() {
 		// For a cancelled one we could return an exit status
 		// of SIGINT + 130, immediately.
 		case s := <-signalq:
-			switch s {
-			case unix.SIGCHLD:
-				reap()
-
-			case unix.SIGINT:
-				foreground.interrupt()
-
-			case unix.SIGTSTP:
-				foreground.stop()
-			}
+			handle(s)
 		}
 	}
 }
@@ -729,6 +750,10 @@ func (s *start) set(active bool) {
 	defer s.Unlock()
 
 	s.active = active
+
+	if active {
+		s.shared = false
+	}
 }
 
 // unstick continues a process that was stopped from the keyboard before it had
@@ -738,9 +763,16 @@ func (s *start) unstick() {
 	s.Lock()
 	defer s.Unlock()
 
-	if s.active {
-		process.Continue(-process.ForegroundGroup())
+	if !s.active {
+		return
 	}
+
+	group := process.ForegroundGroup()
+	if group == process.Group() {
+		s.shared = true
+	}
+
+	process.Continue(-group)
 }
 
 func unstick() {
-- 
2.43.0


From 400136d8cdcb51de4cdb054229d9d7bc0111f956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:25 +0000
Subject: [PATCH 56/60] fix: completion takes the cursor position as a number
 of runes

The line editor passes the number of runes before the cursor. Used as a
number of bytes it broke lines with other than ASCII text.
---
 main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 67c6bc5..067a976 100644
--- a/main.go
+++ b/main.go
@@ -75,8 +75,9 @@ func command() bool {
 
 func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []string, t string) {
 	return func(s string, n int) (h string, cs []string, t string) {
-		h = s[:n]
-		t = s[n:]
+		// The cursor position is a number of runes.
+		h = string([]rune(s)[:n])
+		t = s[len(h):]
 
 		last := strings.LastIndexAny(h, " ()")
 		completing := h[last+1:]
-- 
2.43.0


From 4b0d2387fc471e733b86d16ab4f2f8d06f1d3d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:25 +0000
Subject: [PATCH 57/60] fix: keys typed during completion ended the shell

What completion runs took the terminal from the shell, whose line editor
reads ahead and failed to read while in the background.
---
 main.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/main.go b/main.go
index 067a976..d69b632 100644
--- a/main.go
+++ b/main.go
@@ -73,7 +73,7 @@ func command() bool {
 	return true
 }
 
-func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []string, t string) {
+func completer(r **reader.T) func(s string, n int) (h string, cs []string, t string) {
 	return func(s string, n int) (h string, cs []string, t string) {
 		// The cursor position is a number of runes.
 		h = string([]rune(s)[:n])
@@ -107,6 +107,9 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 		// Ensure line == prefix + completing + tail
 		prefix := h[0 : len(h)-len(completing)]
 
+		// The line editor may be reading. Stay in the foreground.
+		j := job.New(process.Group())
+
 		cwd := engine.Resolve("PWD")
 		home := engine.Resolve("HOME")
 
@@ -119,9 +122,7 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 			}
 
 			cmd := list.New(sym.New("complete"), sym.New(completing))
-			v, _ := engine.System(*j, cmd)
-
-			process.RestoreForegroundGroup()
+			v, _ := engine.System(j, cmd)
 
 			for c := pair.Cdr(v); c != pair.Null; c = pair.Cdr(c) {
 				cs = append(cs, common.String(pair.Car(c)))
@@ -133,9 +134,7 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 				args = list.Append(args, list.New(sym.New("quote"), arg))
 			}
 
-			v, _ := engine.System(*j, args)
-
-			process.RestoreForegroundGroup()
+			v, _ := engine.System(j, args)
 
 			cs = files(cache.Files, cwd, home, engine.Resolve("PWD"), completing)
 
@@ -375,7 +374,7 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 	// The lines of the command being entered.
 	lines := []string{}
 
-	cli.SetWordCompleter(completer(&j, &r))
+	cli.SetWordCompleter(completer(&r))
 	cli.SetTabCompletionStyle(liner.TabPrints)
 
 	continued := str.New("  ")
-- 
2.43.0


From b55da20cb998b83d96cfa1e36c81ad06f62dedce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:25 +0000
Subject: [PATCH 58/60] fix: completion lists the directory that the word names

Relative words found nothing in / and in directories with a colon in
their name, as did words with repeated separators or with .. after a
directory. Hidden entries of / were offered.
---
 main.go | 106 ++++++++++++--------------------------------------------
 1 file changed, 23 insertions(+), 83 deletions(-)

diff --git a/main.go b/main.go
index d69b632..e843ac3 100644
--- a/main.go
+++ b/main.go
@@ -28,23 +28,9 @@ import (
 
 //nolint:gochecknoglobals
 var (
-	pathListSeparator = string(os.PathListSeparator)
-	pathSeparator     = string(os.PathSeparator)
+	pathSeparator = string(os.PathSeparator)
 )
 
-func clean(s string) string {
-	if s == "." || s == pathSeparator+"." {
-		return s
-	}
-
-	head, tail := split(s)
-	if tail == s {
-		head, tail = tail, head
-	}
-
-	return filepath.Clean(head) + tail
-}
-
 func command() bool {
 	if options.Command() == "" {
 		return false
@@ -136,7 +122,7 @@ func completer(r **reader.T) func(s string, n int) (h string, cs []string, t str
 
 			v, _ := engine.System(j, args)
 
-			cs = files(cache.Files, cwd, home, engine.Resolve("PWD"), completing)
+			cs = files(cache.Files, cwd, home, completing)
 
 			cfname := common.String(pair.Car(v))
 			if cfname != "_minimal" && cfname != "_filedir_xspec" {
@@ -166,27 +152,6 @@ func completer(r **reader.T) func(s string, n int) (h string, cs []string, t str
 	}
 }
 
-func directories(s string) []string {
-	dirs := []string{}
-
-	for _, dir := range strings.Split(s, pathListSeparator) {
-		if dir == "" {
-			dir = "."
-		} else {
-			dir = filepath.Clean(dir)
-		}
-
-		stat, err := os.Stat(dir)
-		if err != nil || !stat.IsDir() {
-			continue
-		}
-
-		dirs = append(dirs, dir)
-	}
-
-	return dirs
-}
-
 // The exit type is the exit code of an interactive session.
 type exit int
 
@@ -194,40 +159,23 @@ func (e exit) Error() string {
 	return "exit " + strconv.Itoa(int(e))
 }
 
-func expand(cwd, home, candidate string) (string, bool) {
-	dotdir := false
-	prefix := candidate + "   "
-
+func expand(cwd, home, candidate string) string {
 	switch {
-	case candidate == "":
-		// Leave it as is.
-
-	case prefix[0:2] == "./" || prefix[0:3] == "../":
-		candidate = join(cwd, candidate)
-		dotdir = true
+	case candidate == "~":
+		return home
 
-	case prefix[0:1] == "~":
-		candidate = join(home, candidate[1:])
+	case strings.HasPrefix(candidate, "~"):
+		return join(home, candidate[1:])
 
-	default:
-		candidate = clean(candidate)
+	case path.IsAbs(candidate):
+		return join(pathSeparator, candidate)
 	}
 
-	return candidate, dotdir
+	return join(cwd, candidate)
 }
 
-func files(cached func(string) []string, cwd, home, paths, word string) []string {
-	candidate, dotdir := expand(cwd, home, word)
-
-	candidates := []string{candidate}
-	if !path.IsAbs(candidate) && !dotdir {
-		candidates = directories(paths)
-		for k, v := range candidates {
-			candidates[k] = v + pathSeparator + candidate
-		}
-	}
-
-	return matches(cached, candidates, word)
+func files(cached func(string) []string, cwd, home, word string) []string {
+	return matches(cached, []string{expand(cwd, home, word)}, word)
 }
 
 func interactive() (code int, ok bool) {
@@ -302,12 +250,17 @@ func interactive() (code int, ok bool) {
 	return 0, true
 }
 
-func join(s ...string) string {
-	last := len(s) - 1
-	head, tail := split(s[last])
-	s[last] = head
+// The join function joins the directory dir and name. It cleans
+// everything except what follows the last path separator in name.
+func join(dir, name string) string {
+	head, tail := filepath.Split(name)
 
-	return filepath.Join(s...) + tail
+	dir = filepath.Join(dir, head)
+	if dir != pathSeparator {
+		dir += pathSeparator
+	}
+
+	return dir + tail
 }
 
 func matches(cached func(string) []string, candidates []string, word string) []string {
@@ -321,7 +274,7 @@ func matches(cached func(string) []string, candidates []string, word string) []s
 		}
 
 		for _, p := range cached(dirname) {
-			if candidate != pathSeparator && len(basename) == 0 {
+			if len(basename) == 0 {
 				suffix := strings.TrimPrefix(p, dirname)
 				if strings.HasPrefix(suffix, ".") {
 					continue
@@ -354,19 +307,6 @@ func skip(dirname, basename string) bool {
 	return false
 }
 
-func split(s string) (head, tail string) {
-	head = s
-	tail = ""
-
-	index := strings.LastIndex(s, pathSeparator)
-	if index > -1 {
-		head = s[:index]
-		tail = s[index:]
-	}
-
-	return
-}
-
 func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) error {
 	j := job.New(0)
 	r := reader.New(name)
-- 
2.43.0


From fe1e3c21772a0e214e4a34a54306b3865d61eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:26 +0000
Subject: [PATCH 59/60] fix: columns after text that spans lines counted the
 ends of the lines

The lexer accepts the end of what has been read so far each time it runs
out of text in a string, and counted it as a character.
---
 internal/reader/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reader/lexer/lexer.go b/internal/reader/lexer/lexer.go
index be93aaa..ffd486a 100644
--- a/internal/reader/lexer/lexer.go
+++ b/internal/reader/lexer/lexer.go
@@ -112,7 +112,7 @@ func (l *T) accept(r token.Class, w int) {
 		// We fix this when emitting the newline.
 		l.source.Line++
 		l.runes = 1
-	} else {
+	} else if r != eof {
 		l.runes++
 	}
 
-- 
2.43.0


From 13916e715253aea4fbc7726eb7c1cfbad0149b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:44 +0000
Subject: [PATCH 60/60] fix: umask 0 left the mask unchanged

---
 internal/engine/commands/umask_unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/engine/commands/umask_unix.go b/internal/engine/commands/umask_unix.go
index 8ee8c05..827640e 100644
--- a/internal/engine/commands/umask_unix.go
+++ b/internal/engine/commands/umask_unix.go
@@ -23,7 +23,7 @@ func umask(args cell.I) cell.I {
 
 	omask := process.Umask(int(nmask))
 
-	if nmask == 0 {
+	if len(v) == 0 {
 		process.Umask(omask)
 	}
 
-- 
2.43.0

