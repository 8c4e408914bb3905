#!/usr/bin/env python3
"""run.py ID [ID...]: run the checks of the given properties. run.py --setup: sanity build."""
import importlib, os, signal, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
import ohv


def main():
    args = sys.argv[1:]
    # Whatever started this may ignore or block signals that commands are to be sent.
    for s in set(signal.valid_signals()) - {signal.SIGPIPE, signal.SIGXFSZ, signal.SIGKILL, signal.SIGSTOP}:
        if signal.getsignal(s) == signal.SIG_IGN:
            signal.signal(s, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    if args == ["--setup"]:
        ctx = ohv.Ctx("setup")
        try:
            ctx.oh, ctx.ohrace
            print("setup: ok")
        finally:
            ctx.close()
        return 0
    rc = 0
    for id in args:
        rc = max(rc, ohv.run_check(id, importlib.import_module(id.lower())))
    return rc


if __name__ == "__main__":
    sys.exit(main())
