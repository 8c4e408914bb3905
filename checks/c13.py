"""C13: space and time."""
import os, random, re, signal, subprocess, time, threading
import ohv

RULE = ("A case is one program that repeats something: a catalogue of loops over every construct, random bodies of loops, and random chains of tail calls (through if, else, else if, blocks, closures, members of objects, mutual recursion). "
        "It stops at five marks; at each the monitor makes the real process collect its garbage, and reads the size of its live heap, the number of its goroutines and the processor time it used. The heap may not grow with the iterations between the "
        "second and the last mark, and the last quarter may not take several times as long as the second; a violation is confirmed by a second run. Deep recursions that are not in tail position must give the right result. Distinct by program.")
ASSUMPTIONS = ["growth of less than 24 bytes an iteration would not be seen", "chains of calls that export names (cd, catch) or that go from the method of one object to that of another are not claimed to be bounded"]

MARK = """define verif-mark: method () {
    write-line mark
    read-line
}
"""


def marks(n):
    """The iterations to stop at."""
    return [max(1, n // 8)] + [n * j // 4 for j in (1, 2, 3)] + [n]


def stop(var, n):
    m = marks(n)
    return "if (" + " or ".join("x" for _ in []) + ")" if False else "if (or %s) {\n        verif-mark\n    }" % " ".join("(eq? $%s %d)" % (var, k) for k in m)


def loop(body, n, pre=""):
    return pre + "\ndefine i 0\nwhile (lt? $i %d) {\n    set i (add $i 1)\n    %s\n    %s\n}\n" % (n, body, stop("i", n))


F = "define f: method (x) {\n    define y $x\n    return $y\n}"
# name: (iterations in quick, body, what comes before)
CATALOGUE = {
    "while": (40000, "", ""),
    "define": (30000, "define x $i", ""),
    "export": (30000, "export x $i", ""),
    "set": (30000, "set x \"a ${i}\"", "define x 1"),
    "call": (20000, "f $i", F),
    "closure call": (20000, "(method (x) {\n        return $x\n    }) $i", ""),
    "rest call": (15000, "f $i 2 3", "define f: method (x (y)) {\n    return $y\n}"),
    "block": (30000, "block {\n        define x $i\n    }", ""),
    "if": (20000, "if (lt? $i 5) {\n        f 1\n    } else if (lt? $i 10) {\n        f 2\n    } else {\n        f 3\n    }", F),
    "catch": (8000, "f $i", "define f: method (x) {\n    catch ex {\n        return 0\n    }\n    return $x\n}"),
    "throw": (6000, "f $i", "define f: method (x) {\n    catch ex {\n        return 0\n    }\n    throw $x\n}"),
    "error": (6000, "f $i", "define f: method (x) {\n    catch ex {\n        return 0\n    }\n    write-line $undefined\n}"),
    "rethrow": (4000, "f $i", "define g: method (x) {\n    catch ex {\n        throw again\n    }\n    throw $x\n}\ndefine f: method (x) {\n    catch ex {\n        return 0\n    }\n    g $x\n}"),
    "object": (8000, "define o: object {\n        define p 1\n        export get: method () {\n            return $p\n        }\n        export put: method (x) {\n            set p $x\n        }\n    }\n    o put $i\n    o get", ""),
    "object member": (15000, "o put $i\n    o get", "define o: object {\n    define p 1\n    export get: method () {\n        return $p\n    }\n    export put: method (x) {\n        set p $x\n    }\n}"),
    "map": (5000, "m set x$i $i\n    m get x$i\n    m del x$i", "define m: map"),
    "map key": (8000, "m set x $i\n    m has x", "define m: map"),
    "new map": (5000, "define m: map\n    m set x $i", ""),
    "append": (1500, "block {\n        write-line $i\n    } >>/dev/null", ""),
    "clobber": (1500, "block {\n        write-line $i\n    } >|out", ""),
    "errors too": (1500, "block {\n        write-line $i\n    } >>&/dev/null", ""),
    "input": (1500, "block {\n        read-line\n    } <in", ""),
    "pipe": (1000, "block {\n        write-line $i\n    } | block {\n        read\n    }", ""),
    "pipe of three": (400, "block {\n        write-line $i\n    } | block {\n        write-line (read)\n    } | block {\n        read\n    }", ""),
    "capture": (1000, "define c: capture (write-line $i)", ""),
    "capture of a method": (1000, "define c: capture (f $i)", "define f: method (x) {\n    write-line $x\n    return $x\n}"),
    "caught in a redirection": (1000, "g $i", "define g: method (x) {\n    catch ex {\n        return 0\n    }\n    block {\n        throw $x\n    } >>/dev/null\n}"),
    "caught in a pipeline": (600, "g $i", "define g: method (x) {\n    catch ex {\n        return 0\n    }\n    block {\n        write-line a\n    } | block {\n        read-line\n        throw $x\n    }\n}"),
    "for": (8000, "for (list 1 2) (method (x) {\n        return $x\n    })", ""),
    "inner while": (8000, "define j 0\n    while (lt? $j 3) {\n        set j (add $j 1)\n    }", ""),
    "spawn": (3000, "wait (spawn {\n        define x 1\n    })", ""),
    "channel": (15000, "c write $i\n    c read", "define c: chan 1"),
    "new channel": (15000, "define c: chan 1\n    c write $i\n    c read", ""),
    "pipe object": (2000, "define p: pipe\n    p write $i\n    p writer-close\n    p read\n    p reader-close", ""),
    "file": (2000, "define p: open a /dev/null\n    p write $i\n    p close", ""),
    "saved continuation": (15000, "f $i", "define k ()\ndefine f: method (x) {\n    set k $return\n    return $x\n}"),
    "escape": (15000, "f $i", "define f: method (x) {\n    define k $return\n    define g: method (y) {\n        k $y\n    }\n    g $x\n    return 0\n}"),
    "external": (400, "/bin/true", ""),
    "external pipe": (200, "/bin/true | /bin/cat", ""),
    "substitution": (150, "/bin/cat |<(write-line 1)", ""),
    "cd": (15000, "cd /tmp", ""),
    "cd in a block": (10000, "block {\n        cd /tmp\n    }", ""),
    "interpolation": (20000, "define s \"a ${i} b\"", ""),
    "unique strings": (20000, "define s: symbol \"a${i}\"", ""),
    "source": (1500, "source ./m.oh", ""),
    "import": (1500, "define s: import ./m.oh", ""),
    "glob": (4000, "glob *", ""),
    "external glob": (200, "/bin/true *", ""),
    "syntax": (10000, "s (add $i 1)", "define s: syntax (x) e {\n    e eval $x\n}"),
    "new syntax": (8000, "define s: syntax (x) e {\n        e eval $x\n    }\n    s $i", ""),
    "quasiquote": (5000, "quasiquote (a (unquote $i))", ""),
    "and": (10000, "and (lt? $i 5) true", ""),
    "lists": (10000, "define l: list $i 2 3\n    define l2: l reverse\n    l append 4", ""),
    "eval": (10000, "here eval (quote (add 1 2))", "define env: syntax () e {\n    return $e\n}\ndefine here: env"),
    "prefix": (400, "A=$i /bin/true", ""),
    "resolves": (20000, "resolves? nothing", ""),
    "unset": (10000, "here define zz 1\n    here unset zz", "define env: syntax () e {\n    return $e\n}\ndefine here: env"),
    "undefined command": (2000, "g", "define g: method () {\n    catch ex {\n        return 0\n    }\n    nosuchcommand-verif\n}"),
}


class Run:
    def __init__(self):
        self.heap, self.cpu, self.bad, self.err, self.goroutines = [], [], None, b"", []


def measure(ctx, text, timeout=120):
    """Run a program, stopping at its marks."""
    exe = ctx.build(probe="heapprobe.go")
    root = ctx.mkdir()
    with open(root + "/m.oh", "w") as f:
        f.write("export a 1\ndefine b 2\ndefine c: method () {\n    return $b\n}\n")
    with open(root + "/in", "w") as f:
        f.write("line\n")
    with open(root + "/p.oh", "w") as f:
        f.write(MARK + text)
    heap = root + "/heap"
    open(heap, "w").close()
    r = Run()
    ferr = open(root + "/err", "w+b")
    p = subprocess.Popen([exe, "p.oh"], cwd=root, env=ctx.env(VERIF_HEAP=heap), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=ferr, start_new_session=True)
    done = []

    def watch():
        end = time.time() + timeout
        while not done and time.time() < end:
            time.sleep(0.2)
            if ohv.rss_mb(p.pid) > 4000:
                r.bad = "used more than 4000 MB"
                break
        if not done:
            r.bad = r.bad or "did not end within %d s" % timeout
            ohv.killsession(p.pid)
    w = threading.Thread(target=watch, daemon=True)
    w.start()
    last = None
    try:
        for line in p.stdout:
            if line.strip() != b"mark":
                continue
            cpu = ohv.proc_cpu(p.pid)
            if last is not None:
                r.cpu.append(cpu - last)
            size = os.path.getsize(heap)
            os.kill(p.pid, signal.SIGUSR2)
            for _ in range(6000):
                if os.path.getsize(heap) > size:
                    break
                time.sleep(0.005)
            last = ohv.proc_cpu(p.pid)
            p.stdin.write(b"go\n")
            p.stdin.flush()
    except OSError:
        pass
    rc = p.wait()
    done.append(1)
    ohv.killsession(p.pid)
    for l in open(heap):
        a = l.split()
        r.heap.append(int(a[0]))
        r.goroutines.append(int(a[2]))
    ferr.seek(0)
    r.err = ferr.read(3000)
    ferr.close()
    w.join()
    ctx.rmdir(root)
    if not r.bad and len(r.heap) != 5:
        r.bad = "stopped at %d of 5 marks, exit status %s: %r" % (len(r.heap), rc, r.err[-600:])
    return r


def judge(r, n):
    if r.bad:
        return r.bad
    m = marks(n)
    grown, iters = r.heap[4] - r.heap[1], m[4] - m[1]
    if grown > 250000 + 24 * iters:
        return "the live heap grew by %d bytes in %d iterations (%.0f each): %s" % (grown, iters, grown / iters, r.heap)
    if r.goroutines[4] - r.goroutines[1] > 8 + iters / 50:
        return "there were %d goroutines, later %d" % (r.goroutines[1], r.goroutines[4])
    early, late = r.cpu[1], r.cpu[3]
    if late > 4 * early + 0.6:
        return "a quarter of the iterations took %.2f s of processor time early and %.2f s late" % (early, late)
    return None


# --- random programs ------------------------------------------------------

class Gen:
    def __init__(self, r):
        self.r, self.k = r, 0

    def num(self):
        self.k += 1
        return self.k

    def filler(self, depth=1):
        """Commands that are not in tail position."""
        r = self.r
        k = r.choice(["define", "call", "block", "if", "while", "for", "string", "caught", "object", "list", "set"])
        n = self.num()
        if k == "define":
            return ["define v%d $n" % n]
        if k == "call":
            return ["helper $n"]
        if k == "block":
            return ["block {", "    define v%d $n" % n] + ["    " + l for l in (self.filler(depth - 1) if depth else [])] + ["}"]
        if k == "if":
            return ["if (lt? $n %d) {" % r.choice([0, 10 ** 6]), "    helper 1", "} else {", "    helper 2", "}"]
        if k == "while":
            return ["define j%d 0" % n, "while (lt? $j%d 2) {" % n, "    set j%d (add $j%d 1)" % (n, n), "}"]
        if k == "for":
            return ["for (list 1 2) (method (x) {", "    return $x", "})"]
        if k == "string":
            return ["define s%d \"got ${n}\"" % n]
        if k == "caught":
            return ["caught $n"]
        if k == "object":
            return ["define o%d: object {" % n, "    export get: method () {", "        return $n", "    }", "}", "o%d get" % n]
        if k == "list":
            return ["define l%d: list $n 2" % n]
        return ["set counter $n"]

    def tail(self, depth, calls):
        """Lines that end in one of the calls, in tail position."""
        r = self.r
        o = []
        if r.random() < 0.35:
            o += self.filler()
        k = r.choice(["call", "if", "ifelse", "elseif", "block", "block"]) if depth else "call"
        ind = lambda ls: ["    " + l for l in ls]
        if k == "call":
            return o + [r.choice(calls)]
        if k == "block":
            return o + ["block {"] + ind(self.tail(depth - 1, calls)) + ["}"]
        if k == "if":
            return o + ["if (lt? 0 1) {"] + ind(self.tail(depth - 1, calls)) + ["}"]
        c = r.choice(["(eq? (mod $n 2) 0)", "(lt? $n 100000000)", "(lt? $n 0)", "(helper ())", "$n"])
        if k == "ifelse":
            return o + ["if %s {" % c] + ind(self.tail(depth - 1, calls)) + ["} else {"] + ind(self.tail(depth - 1, calls)) + ["}"]
        return o + ["if %s {" % c] + ind(self.tail(depth - 1, calls)) + ["} else if (lt? $n 50) {"] + ind(self.tail(depth - 1, calls)) + ["} else {"] + ind(self.tail(depth - 1, calls)) + ["}"]

    def chain(self, n):
        """Methods that call each other in tail position, n calls in all."""
        r = self.r
        k = r.choice([1, 1, 2, 3])
        # A call from the scope of one object's exported names to that of another's keeps them visible.
        kinds = [r.choice(["method", "method", "closure", "rest"] + (["object", "self"] if k == 1 else [])) for _ in range(k)]
        calls = []
        for i, x in enumerate(kinds):
            v = r.choice(["(add $n 1)", "(add 1 $n)", "(sub $n -1)"])
            calls.append({"method": "m%d %s" % (i, v), "closure": "$m%d %s" % (i, v), "object": "m%d run %s" % (i, v), "rest": "m%d %s 2 3" % (i, v), "self": "m%d run %s" % (i, v)}[x])
        o = ["define counter 0", "define helper: method (x) {", "    return $x", "}", "define caught: method (x) {", "    catch ex {", "        return 0", "    }", "    throw $x", "}"]
        o += ["define m%d ()" % i for i in range(k)]
        for i, x in enumerate(kinds):
            b = stop("n", n).split("\n") + ["if (lt? %d $n) {" % n, "    write-line end", "    exit 0", "}"]
            own = list(calls)
            if x == "self":
                own.append("self run (add $n 1)")
            b += self.tail(r.randint(0, 4), own)
            ind = lambda ls, d: ["    " * d + l for l in ls]
            if x == "object":
                o += ["set m%d: object {" % i, "    define state 1", "    export run: method (n) {"] + ind(b, 2) + ["    }", "}"]
            elif x == "self":
                o += ["set m%d: object {" % i, "    export run: method self (n) {"] + ind(b, 2) + ["    }", "}"]
            else:
                o += ["set m%d: method (n%s) {" % (i, " (others)" if x == "rest" else "")] + ind(b, 1) + ["}"]
        o.append(calls[0].replace("(add $n 1)", "1").replace("(add 1 $n)", "1").replace("(sub $n -1)", "1"))
        return "\n".join(o) + "\n"

    def body(self, names):
        """A loop over a few entries of the catalogue, at some depth."""
        r = self.r
        pre, lines = [], []
        for j, name in enumerate(names):
            n, b, p = CATALOGUE[name]
            w = r.choice(["plain", "block", "if", "method"])
            b = re.sub(r"^    ", "", b, flags=re.M)
            if p:
                # Definitions of one entry are not seen by another.
                pass
            if w == "block":
                b = "block {\n" + p + "\n" + b + "\n}"
            elif w == "if":
                b = "if (lt? 0 1) {\n" + p + "\n" + b + "\n} else {\n    true\n}"
            elif w == "method":
                b = "(method () {\n" + p + "\n" + b + "\n})"
            else:
                b = "block {\n" + p + "\n" + b + "\n    true\n}" if p else b
            lines.append(b)
        return "\n".join(lines)


def one(ctx, name, text, n):
    r = measure(ctx, text)
    bad = judge(r, n)
    if bad:
        # Once more, to tell it from what the machine did.
        r2 = measure(ctx, text)
        ctx.count("runs confirmed")
        bad2 = judge(r2, n)
        if bad2:
            ctx.violation("%s: %s (and again: %s)" % (name, bad, bad2), MARK + text)
            return
    ctx.count("programs measured")
    ctx.count("iterations", n)
    ctx.count_max("largest live heap, bytes", max(r.heap or [0]))
    ctx.cover((name, text))


RECURSIONS = {
    "sum": ("define f: method (n) {\n    if (lt? $n 1) {\n        return 0\n    }\n    add 1 (f (sub $n 1))\n}\nwrite-line (f %d)\n", lambda n: "%d" % n),
    "return": ("define f: method (n) {\n    if (lt? $n 1) {\n        return 0\n    } else {\n        return (add 1 (f (sub $n 1)))\n    }\n}\nwrite-line (f %d)\n", lambda n: "%d" % n),
    "mutual": ("define g ()\ndefine f: method (n) {\n    if (lt? $n 1) {\n        return 0\n    }\n    add 1 (g (sub $n 1))\n}\nset g: method (n) {\n    if (lt? $n 1) {\n        return 0\n    }\n    define r (f (sub $n 1))\n    return (add $r 1)\n}\nwrite-line (f %d)\n", lambda n: "%d" % n),
    "throw": ("define f: method (n) {\n    if (lt? $n 1) {\n        throw bottom\n    }\n    add 1 (f (sub $n 1))\n}\ndefine g: method () {\n    catch ex {\n        return \"caught ${ex}\"\n    }\n    f %d\n}\nwrite-line (g)\n", lambda n: "caught bottom"),
    "escape": ("define g: method (m) {\n    define k $return\n    define f: method (n) {\n        if (lt? $n 1) {\n            k escaped\n        }\n        add 1 (f (sub $n 1))\n    }\n    f $m\n}\nwrite-line (g %d)\n", lambda n: "escaped"),
    "list": ("define f: method (n) {\n    if (lt? $n 1) {\n        return ()\n    }\n    cons $n (f (sub $n 1))\n}\ndefine l: f %d\nwrite-line (l length)\n", lambda n: "%d" % n),
    "for": ("define f: method (n) {\n    if (lt? $n 1) {\n        return 0\n    }\n    define r: for (list 1) (method (x) {\n        return (f (sub $n 1))\n    })\n    return (add 1 (r head))\n}\nwrite-line (f %d)\n", lambda n: "%d" % n),
    "catching": ("define f: method (n) {\n    catch ex {\n        throw (add $ex 1)\n    }\n    if (lt? $n 1) {\n        throw 0\n    }\n    f (sub $n 1)\n    return 0\n}\ndefine g: method () {\n    catch ex {\n        return $ex\n    }\n    f %d\n}\nwrite-line (g)\n", lambda n: "%d" % (n + 1)),
    "condition": ("define f: method (n) {\n    if (lt? $n 1) {\n        return 1\n    }\n    if (f (sub $n 1)) {\n        return 1\n    }\n    return 2\n}\nwrite-line (f %d)\n", lambda n: "1"),
    "object": ("define o: object {\n    export f: method self (n) {\n        if (lt? $n 1) {\n            return 0\n        }\n        add 1 (self f (sub $n 1))\n    }\n}\nwrite-line (o f %d)\n", lambda n: "%d" % n),
    "eval": ("define env: syntax () e {\n    return $e\n}\ndefine f: method (n) {\n    if (lt? $n 1) {\n        return 0\n    }\n    define here: env\n    add 1 (here eval (quote (f (sub $n 1))))\n}\nwrite-line (f %d)\n", lambda n: "%d" % n),
    "exporting": ("define f: method (n) {\n    export level $n\n    if (lt? $n 1) {\n        return (show)\n    }\n    define r (f (sub $n 1))\n    return $r\n}\ndefine show: method () {\n    return $level\n}\nwrite-line (f %d)\n", lambda n: "0"),
}


def recursion(ctx, name, n):
    text, want = RECURSIONS[name]
    text %= n
    r = ctx.script(text, timeout=200)
    ctx.cover(("recursion", name, n))
    ctx.count("deep recursions")
    ctx.count_max("deepest recursion", n)
    if r.timeout or r.crashed or r.out.decode("utf-8", "replace") != want(n) + "\n":
        ctx.violation("recursion %d deep (%s): %s" % (n, name, "no end (%s)" % r.states if r.timeout else r.brief()), text + r.brief())


def check(ctx):
    ctx.build(probe="heapprobe.go")
    jobs = []
    big = ctx.n(1, 12)
    for name, (n, body, pre) in CATALOGUE.items():
        jobs.append((name, loop(body, n * big, pre), n * big))
    r = random.Random("%s/13" % ctx.seed)
    for i in range(ctx.n(40, 400)):
        n = ctx.n(8000, 40000)
        jobs.append(("tail calls %d" % i, Gen(r).chain(n), n))
    names = [k for k in CATALOGUE if CATALOGUE[k][0] >= 1000 and k != "cd"]
    for i in range(ctx.n(16, 200)):
        picked = r.sample(names, r.randint(2, 4))
        n = min(CATALOGUE[k][0] for k in picked) // 2 * ctx.n(1, 4)
        jobs.append(("+".join(picked), loop(Gen(r).body(picked), n), n))
    # The longest first.
    jobs.sort(key=lambda j: -("pipe" in j[0] or "capture" in j[0] or "redirection" in j[0] or "append" in j[0] or "+" in j[0]))
    ctx.cover(n=0, sample=jobs[-1][1])
    tasks = [lambda k=k: recursion(ctx, k, ctx.n(20000, 200000)) for k in RECURSIONS] + [lambda j=j: one(ctx, *j) for j in jobs]
    ctx.pmap(lambda f: f(), tasks)
