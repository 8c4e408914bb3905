"""C21: exit statuses, $?, exit, and commands that cannot be started."""
import os, random, resource, time
import lit, tool

RULE = ("A case is one observation: the value (also through &&, ||, if, while, not, methods, blocks, redirections, pipelines, spawned tasks, $?) of a process that ends with a given status or signal, possibly after being stopped and continued, "
        "dumping core or with other processes ending at the same time; one run of oh that should end with a given status at a given point, with the commands after that point recorded if evaluated; or one attempt to start something "
        "that cannot be started. Non-trivial: always; distinct by status, signal, context and form.")
ASSUMPTIONS = ["exit in a spawned task is unspecified", "numbers given to exit are integers that fit in 32 bits", "a core dump is produced where the system's limits and core_pattern allow it"]

SIGS = [s for s in list(range(1, 32)) if s not in (17, 18, 19, 20, 21, 22, 23, 28)] + [34, 40, 63, 64]


class P:
    """A process that ends in a known way."""
    def __init__(self, r, small=False):
        k = r.choice(["exit", "exit", "exit", "exit", "zero", "zero", "sig", "nap", "napsig", "slow", "sh", "false", "true"])
        z = r.choice([0, 0, 0, 1, 3, 10])
        n = r.choice([0, 1, 2, 3, 7, 99, 126, 127, 128, 129, 137, 255, r.randint(0, 255)])
        g = r.choice(SIGS)
        if k == "exit":
            self.s, self.v = "./tool exit:%d" % n, n
        elif k == "zero":
            self.s, self.v = "./tool sleep:%d" % z, 0
        elif k == "sig":
            self.s, self.v = "./tool sleep:%d kill:%d" % (z, g), 128 + g
        elif k == "nap":
            self.s, self.v = "./tool nap:%d exit:%d" % (z, n), n
        elif k == "napsig":
            self.s, self.v = "./tool nap:%d kill:%d" % (z, g), 128 + g
        elif k == "slow":
            self.s, self.v = "./tool sleep:%d exit:%d" % (z, n), n
        elif k == "sh":
            # A process that leaves others behind.
            self.s, self.v = "sh -c 'sleep 0.0%d & exit %d'" % (r.randint(1, 5), n), n
        elif k == "false":
            self.s, self.v = "/bin/false", 1
        else:
            self.s, self.v = "/bin/true", 0
        self.k = (k, self.v)


def core():
    resource.setrlimit(resource.RLIMIT_CORE, (resource.getrlimit(resource.RLIMIT_CORE)[1],) * 2)


def observe(r, i):
    """Source text that writes one value, and the value; -c form when it uses $?."""
    p = P(r)
    q = P(r)
    st = lambda v: lit.Status(v)
    y, n = lit.Sym("yes"), lit.Sym("no")
    t = p.v == 0
    k = r.choice(["value", "value", "value", "and", "or", "if", "while", "not", "method", "block", "redirect", "pipeline", "pipestop", "return", "chain", "loop", "define", "spawned", "many", "cat"])
    if k == "value":
        return k, p.k, "write %d (%s)" % (i, p.s), st(p.v)
    if k == "define":
        return k, p.k, "define x%d: %s\nwrite %d $x%d" % (i, p.s, i, i), st(p.v)
    if k == "and":
        return k, p.k, "define a%d no\n%s && set a%d yes\nwrite %d $a%d" % (i, p.s, i, i, i), y if t else n
    if k == "or":
        return k, p.k, "define a%d no\n%s || set a%d yes\nwrite %d $a%d" % (i, p.s, i, i, i), n if t else y
    if k == "chain":
        u = P(r)
        v = "no"
        res = (p.v == 0 and q.v == 0) or u.v == 0
        return k, (p.k, q.k, u.k), "define a%d no\ndefine m%d: method () {\n%s && %s || %s\n}\nif (m%d) {\nset a%d yes\n}\nwrite %d $a%d" % (i, i, p.s, q.s, u.s, i, i, i, i), y if res else n
    if k == "if":
        return k, p.k, "define a%d ()\nif (%s) {\nset a%d yes\n} else {\nset a%d no\n}\nwrite %d $a%d" % (i, p.s, i, i, i, i), y if t else n
    if k == "not":
        return k, p.k, "write %d (not (%s))" % (i, p.s), (lit.NIL if t else lit.TRUE)
    if k == "while":
        return k, p.k, "define n%d 0\nwhile (and (%s) (lt? $n%d 2)) {\nset n%d: add $n%d 1\n}\nwrite %d (eq? $n%d 2)" % (i, p.s, i, i, i, i, i), lit.TRUE if t else lit.NIL
    if k == "method":
        return k, p.k, "define m%d: method () {\n%s\n%s\n}\nwrite %d (m%d)" % (i, q.s, p.s, i, i), st(p.v)
    if k == "return":
        return k, p.k, "define m%d: method () {\nwhile true {\nreturn (%s)\n}\n}\nwrite %d (m%d)" % (i, p.s, i, i), st(p.v)
    if k == "block":
        return k, p.k, "define x%d: block {\n%s\n%s\n}\nwrite %d $x%d" % (i, q.s, p.s, i, i), st(p.v)
    if k == "redirect":
        return k, p.k, "define x%d (%s > out%d)\nwrite %d $x%d" % (i, p.s, i, i, i), st(p.v)
    if k == "pipeline":
        return k, (p.k, q.k), "define x%d (%s | %s)\nwrite %d $x%d" % (i, q.s, p.s, i, i), st(p.v)
    if k == "pipestop":
        u = P(r)
        return k, (p.k, q.k, u.k), "define x%d (%s | %s | %s)\nwrite %d $x%d" % (i, u.s, q.s, p.s, i, i), st(p.v)
    if k == "loop":
        return k, (p.k, q.k), "write %d (for (list a b) (method (x) {\nif (equal? $x a) {\nreturn (%s)\n}\nreturn (%s)\n}))" % (i, p.s, q.s), lit.lst(st(p.v), st(q.v))
    if k == "spawned":
        return k, p.k, "define c%d: chan 1\ndefine t%d: spawn {\nc%d write (%s)\n}\n%s\nwait $t%d\nwrite %d (c%d read)" % (i, i, i, p.s, q.s, i, i, i), st(p.v)
    if k == "cat":
        return k, p.k, "define x%d (block {\n%s\n} < /dev/null)\nwrite %d $x%d" % (i, p.s, i, i), st(p.v)
    # Many at once: each task sees its own status.
    ps = [P(r) for _ in range(r.randint(2, 9))]
    o = ["define ch%d: chan %d" % (i, len(ps)), "define ts%d ()" % i]
    for j, x in enumerate(ps):
        o.append("set ts%d: cons (spawn {\nch%d write (list %d (%s))\n}) $ts%d" % (i, i, j, x.s, i))
    o.append("wait (splice $ts%d)" % i)
    o.append("define rs%d ()\nfor (seq %d) (method (x) {\nset rs%d: cons (ch%d read) $rs%d\n})" % (i, len(ps), i, i, i))
    o.append("write %d (splice $rs%d)" % (i, i))
    return k, tuple(x.k for x in ps), "\n".join(o), ("set", [lit.lst(lit.Sym(str(j)), st(x.v)) for j, x in enumerate(ps)])


def statuses(ctx, seed):
    r = random.Random(seed)
    d = ctx.mkdir()
    tool.install(ctx, d)
    src, want = [], []
    for i in range(r.randint(6, 16)):
        k, key, s, v = observe(r, i)
        src.append(s)
        want.append((i, k, v))
        ctx.cover((k, key), s)
        ctx.count("observed through " + k)
    text = "\n".join(src) + "\nwrite-line END\n"
    if r.random() < 0.5:
        res = ctx.script(text, cwd=d, timeout=60)
    else:
        res = ctx.c(text, cwd=d, timeout=60)
    replay = text + "\n" + res.brief(3000)
    ctx.rmdir(d)
    if res.timeout or res.crashed or res.rc != 0:
        ctx.violation("oh did not run the program: " + res.brief(300), replay)
        return
    out = res.out.decode("utf-8", "surrogateescape").split("\n")
    for (i, k, v), l in zip(want, out):
        try:
            got = lit.decode(l)
        except lit.Bad as e:
            got = l
        if isinstance(v, tuple):
            g = lit.pylist(got) if isinstance(got, lit.Cons) else None
            ok = g is not None and g[0] == lit.Sym(str(i)) and sorted(map(lit.rep, g[1:])) == sorted(map(lit.rep, v[1]))
        else:
            ok = got == lit.lst(lit.Sym(str(i)), v)
        if not ok:
            ctx.violation("observation %d (%s) is %s, expected %s" % (i, k, got if isinstance(got, str) else lit.rep(got), v), replay)
            return
    if out[len(want):] != ["END", ""]:
        ctx.violation("unexpected output %r" % out[len(want):len(want) + 4], replay)
    elif res.err:
        ctx.violation("unexpected output on standard error: %r" % res.err[:300], replay)


def lastline(ctx, seed):
    """$? between the lines of -c."""
    r = random.Random(seed)
    d = ctx.mkdir()
    tool.install(ctx, d)
    src, want = [], []
    for i in range(r.randint(4, 12)):
        p, q = P(r), P(r)
        k = r.choice(["plain", "plain", "two", "block", "method", "if", "pipeline", "redirect", "value", "and", "inner", "comment"])
        v = lit.Status(p.v)
        if k == "plain":
            s = p.s
        elif k == "two":
            s = "%s; %s" % (q.s, p.s)
        elif k == "block":
            s = "block {\n%s\n%s\n}" % (q.s, p.s)
        elif k == "method":
            src.append("define m%d: method () {\n%s\nreturn (%s)\n}" % (i, q.s, p.s))
            s = "m%d" % i
        elif k == "if":
            s = "if true {\n%s\n}" % p.s
        elif k == "pipeline":
            s = "%s | %s" % (q.s, p.s)
        elif k == "redirect":
            s = "%s > o%d" % (p.s, i)
        elif k == "and":
            s = "true && %s" % p.s
        elif k == "inner":
            # Commands inside of a line do not change it until the line ends.
            src.append(q.s)
            s = "block {\n%s\nwrite %d-inner $?\n%s\n}" % (P(r).s, i, p.s)
            want.append(("%d-inner" % i, lit.Status(q.v)))
        elif k == "comment":
            s = p.s + "\n\n# Not a command.\n"
        else:
            t, v = r.choice([("list a 'b c'", lit.lst(lit.Sym("a"), lit.Str("b c"))), ("add 1/2 1", lit.Num(3, 2)), ("cons 1 2", lit.Cons(lit.Sym("1"), lit.Sym("2")))])
            s = t
        src.append(s)
        src.append("write %d $?" % i)
        want.append((str(i), v))
        ctx.cover(("$?", k, p.k), s)
        ctx.count("$? after " + k)
    text = "\n".join(src)
    res = ctx.c(text, cwd=d, timeout=60)
    replay = text + "\n" + res.brief(3000)
    ctx.rmdir(d)
    if res.timeout or res.crashed or res.rc != 0 or res.err:
        ctx.violation("oh did not run the program: " + res.brief(300), replay)
        return
    out = res.out.decode("utf-8", "surrogateescape").split("\n")
    for (i, v), l in zip(want, out + [""] * len(want)):
        try:
            got = lit.decode(l)
        except lit.Bad:
            got = None
        if got != lit.lst(lit.Sym(i), v):
            ctx.violation("$? (%s) is %r, expected %s" % (i, l, lit.rep(v)), replay)
            return


CONTEXTS = ["top", "block", "method", "deep", "loop", "for", "if", "else", "handler", "eval", "source", "object", "redirect", "right", "argument", "define", "and", "or", "continuation", "while-cond", "guarded", "recursion", "after-bg", "in-c", "closure", "after-children"]


def wrapexit(r, d, k, x, ev, child=True):
    """Program text in which x is evaluated in the context k; then commands that must not be evaluated."""
    n = "./tool ev:NOT"
    if k in ("top", "in-c"):
        return x
    if k == "block":
        return "block {\nblock {\n%s\n%s\n}\n%s\n}" % (x, n, n)
    if k == "method":
        return "define m: method (a) {\n%s\n%s\n}\nm 1" % (x, n)
    if k == "deep":
        m = r.choice([5, 50, 200])
        o = ["define m0: method () {\n%s\n%s\n}" % (x, n)]
        for i in range(m):
            o.append("define m%d: method () {\nm%d\n%s\n}" % (i + 1, i, n))
        return "\n".join(o) + "\nm%d" % m
    if k == "recursion":
        return "define m: method (k) {\nif (eq? $k 0) {\n%s\n}\nm (sub $k 1)\n%s\n}\nm %d" % (x, n, r.choice([1, 100, 3000]))
    if k == "loop":
        return "define i 0\nwhile true {\nset i: add $i 1\nif (eq? $i 3) {\n%s\n}\nif (lt? 3 $i) {\n%s\n}\n}" % (x, n)
    if k == "for":
        return "for (list 1 2 3) (method (y) {\n%s\n%s\n})" % (x, n)
    if k == "if":
        return "if true {\n%s\n%s\n}" % (x, n)
    if k == "else":
        return "if (equal? 1 2) {\n%s\n} else {\n%s\n%s\n}" % (n, x, n)
    if k == "handler":
        return "define g: method () {\ncatch ex {\n%s\n%s\n}\nthrow a\n}\ng" % (x, n)
    if k == "guarded":
        return "define g: method () {\ncatch ex {\n%s\nreturn ()\n}\n%s\n%s\n}\ng" % (n, x, n)
    if k == "eval":
        return "define f: syntax (c) e {\ne eval $c\n%s\n}\nf (block {\n%s\n%s\n})" % (n, x, n)
    if k == "source":
        with open(os.path.join(d, "inc.oh"), "w") as f:
            f.write(x + "\n" + n + "\n")
        return "source inc.oh"
    if k == "object":
        return "define o: object {\nexport m: method () {\n%s\n%s\n}\n}\no m" % (x, n)
    if k == "redirect":
        return "block {\n%s\n%s\n} >> log" % (x, n)
    if k == "right":
        return "true | block {\n%s\n%s\n}" % (x, n)
    if k == "argument":
        return "./tool ev:NOT (block {\n%s\n})" % x
    if k == "define":
        return "define y (%s)" % x
    if k == "and":
        return "true && %s && %s" % (x, n)
    if k == "or":
        return "false || %s || %s" % (x, n)
    if k == "continuation":
        return "define k ()\ndefine m: method () {\nset k $return\nreturn 1\n}\ndefine first true\nm\nif $first {\nset first ()\nk 2\n%s\n}\n%s\n%s" % (n, x, n)
    if k == "while-cond":
        return "while (block {\n%s\n%s\n}) {\n%s\n}" % (x, n, n)
    if k == "after-bg":
        return "sleep 20 &\nspawn {\nsleep 20\n}\n%s" % x
    if k == "after-children":
        return "./tool exit:4\n./tool kill:9\ntrue | false\n%s" % x
    if k == "closure":
        return "define mk: method () {\nreturn (method () {\n%s\n%s\n})\n}\ndefine c: mk\nc" % (x, n)
    # Children of the program's own task.
    if k == "pipe-left":
        return "block {\n%s\n%s\n} | cat\n%s" % (x, n, n)
    if k == "capture":
        return "define y: capture (block {\n%s\n%s\n})\n%s" % (x, n, n)
    if k == "substitution":
        return "cat |<(block {\n%s\n%s\n})\n%s" % (x, n, n)
    raise ValueError(k)


def exits(ctx, seed):
    r = random.Random(str(seed))
    d = ctx.mkdir()
    tool.install(ctx, d)
    ev = os.path.join(d, "ev")
    k = r.choice(CONTEXTS) if not isinstance(seed, tuple) else seed[0]
    n = r.choice([0, 1, 2, 3, 7, 42, 126, 127, 128, 137, 254, 255, 256, 257, 300, 511, 512, 1000, 65535, 65537, -1, -2, -256, -255, r.randint(0, 255), r.randint(256, 2**31 - 1)])
    form = r.choice(["n", "n", "n", "quoted", "expr", "var", "none", "status", "number"])
    if form == "none":
        x, n = "exit", 0
    elif form == "quoted":
        x = "exit '%d'" % n
        x = "exit (number '%d')" % n
    elif form == "expr":
        x = "exit (add %d 1)" % (n - 1)
    elif form == "number":
        x = "exit (number %d)" % n
    elif form == "var":
        x = "exit $n"
    elif form == "status":
        n = r.randint(0, 255)
        x = "exit (./tool exit:%d)" % n
    else:
        x = "exit %d" % n
    body = wrapexit(r, d, k, x, ev)
    pre = r.choice(["", "./tool exit:9\n", "define z: list 1 2\n", "false\n"])
    text = "define n %d\n%s./tool ev:before\n%s\n./tool ev:NOT\nwrite-line NOT\n" % (n, pre, body)
    if r.random() < 0.35 or k == "in-c":
        res = ctx.c(text, cwd=d, env=ctx.env(EV=ev), timeout=40 if k in CONTEXTS else 6)
    else:
        res = ctx.script(text, cwd=d, env=ctx.env(EV=ev), timeout=40 if k in CONTEXTS else 6)
    replay = text + "\n" + res.brief(3000)
    try:
        with open(ev) as f:
            evs = f.read().split()
    except OSError:
        evs = []
    ctx.rmdir(d)
    ctx.cover(("exit", k, form, n), text)
    ctx.count("exit in " + k)
    if k not in CONTEXTS:
        # Not done by the program's own task.
        if res.timeout or res.rc != n % 256 or evs != ["before"] or res.out:
            sig = "exit-in-%s-hangs" % k if res.timeout and evs == ["before"] and not res.crashed else None
            ctx.violation("exit in %s: timeout=%s status %s (expected %d), evaluated %r" % (k, res.timeout, res.rc, n % 256, evs), replay, signature=sig)
        return
    if res.timeout or res.crashed:
        ctx.violation("exit in %s: oh did not end: %s" % (k, res.brief(300)), replay)
    elif res.rc != n % 256:
        ctx.violation("%s in %s: status %d, expected %d" % (x, k, res.rc, n % 256), replay)
    elif evs != ["before"] or res.out or (res.err and k != "handler"):
        ctx.violation("%s in %s: something was evaluated or written after it: %r %r %r" % (x, k, evs, res.out[:200], res.err[:200]), replay)
    elif res.wall > 15:
        ctx.violation("%s in %s: oh took %.1f s to end" % (x, k, res.wall), replay)


def unstartable(r, d, i):
    """(command word source, text that must be in the message)."""
    n = "cmd%d" % i
    k = r.choice(["missing", "missing", "special", "dot", "abs", "notexec", "format", "interp", "link", "notdir", "path-notexec", "toobig", "long", "loop", "noperm-dir"])
    p = os.path.join(d, n)
    if k == "missing":
        return k, "nosuch%d" % i, "nosuch%d" % i
    if k == "special":
        s = r.choice(["no such %d", "nosuch%d*", "nosuch\u00e9%d", "-nosuch%d", "'nosuch%d"]) % i
        return k, lit.dq(s), s
    if k == "dot":
        return k, "./nosuch%d" % i, "nosuch%d" % i
    if k == "abs":
        return k, d + "/nosuch%d" % i, "nosuch%d" % i
    if k == "notexec":
        open(p, "w").write("#!/bin/sh\necho ran\n")
        os.chmod(p, 0o644)
        return k, "./" + n, n
    if k == "format":
        open(p, "wb").write(r.choice([b"", b"not a program\n", b"\x7fELF", b"\0" * 100]))
        os.chmod(p, 0o755)
        return k, "./" + n, n
    if k == "interp":
        open(p, "w").write("#!/no/such/interpreter\n")
        os.chmod(p, 0o755)
        return k, "./" + n, n
    if k == "link":
        os.symlink(d + "/nothing", p)
        return k, "./" + n, n
    if k == "loop":
        os.symlink(p, p)
        return k, "./" + n, n
    if k == "notdir":
        open(p, "w").close()
        return k, "./%s/x" % n, n
    if k == "path-notexec":
        open(os.path.join(d, "bin", n), "w").write("#!/bin/sh\necho ran\n")
        return k, n, n
    if k == "toobig":
        os.link(os.path.join(d, "tool"), p)
        return k, "./%s 'say:%s'" % (n, "x" * 140000), n
    if k == "long":
        s = "n%d" % i + "x" * 300
        return k, "./" + s, s
    os.mkdir(p)
    return k, "./%s/nosuch" % n, n


def starting(ctx, seed):
    r = random.Random(seed)
    d = ctx.mkdir()
    tool.install(ctx, d)
    os.mkdir(os.path.join(d, "bin"))
    src, want = [], []
    for i in range(r.randint(4, 10)):
        k, w, m = unstartable(r, d, i)
        use = r.choice(["plain", "plain", "args", "value", "redirect", "right", "left", "capture", "spawned", "after", "and"])
        if k == "toobig":
            use = "plain"
        c = w
        if use == "args":
            c = "%s a 'b c' 1" % w
        elif use == "value":
            c = "define v (%s)" % w
        elif use == "redirect":
            c = "%s >> log" % w
        elif use == "right":
            c = "true | %s" % w
        elif use == "left":
            c = "%s | cat" % w
        elif use == "capture":
            c = "define v: capture (%s)" % w
        elif use == "after":
            c = "block {\ntrue\n%s\n}" % w
        elif use == "and":
            c = "true && %s" % w
        p = P(r)
        g = "define g%d: method () {\ncatch ex {\nwrite %d caught $ex\nreturn ()\n}\n%s\nwrite %d continued ''\n}\n" % (i, i, c, i)
        if use == "spawned":
            src.append(g + "wait (spawn {\ng%d\n})" % i)
        else:
            src.append(g + "g%d" % i)
        src.append("write %d (%s) after" % (i, p.s))
        want.append((i, k, use, m, p.v))
        ctx.cover(("start", k, use), (g)[:300])
        ctx.count("cannot be started: " + k)
    text = "\n".join(src) + "\nwrite-line END\n"
    res = ctx.script(text, cwd=d, env=ctx.env(PATH=d + "/bin:/usr/bin:/bin"), timeout=60)
    replay = text[:20000] + "\n" + res.brief(3000)
    ctx.rmdir(d)
    if res.timeout or res.crashed or res.rc != 0:
        ctx.violation("oh did not run the program: " + res.brief(300), replay)
        return
    out = res.out.decode("utf-8", "surrogateescape").split("\n")
    for (i, k, use, m, v), a, b in zip(want, out[0::2], out[1::2]):
        try:
            got = lit.pylist(lit.decode(a)) or []
        except lit.Bad:
            got = []
        if len(got) != 3 or got[:2] != [lit.Sym(str(i)), lit.Sym("caught")] or m not in lit.text(got[2]):
            ctx.violation("starting what cannot be started (%s, %s): %r, expected an exception naming %r" % (k, use, a[:300], m), replay)
            return
        if lit.decode(b) != lit.lst(lit.Sym(str(i)), lit.Status(v), lit.Sym("after")):
            ctx.violation("the command after %s (%s): %r, expected status %d" % (k, use, b[:300], v), replay)
            return
    if out[2 * len(want):] != ["END", ""]:
        ctx.violation("unexpected output %r" % out[2 * len(want):][:4], replay)


def cores(ctx):
    """A process that dumps core has the status of its signal."""
    d = ctx.mkdir()
    tool.install(ctx, d)
    import subprocess
    dumped = False
    for g in (3, 4, 6, 8, 11):
        text = "write (./tool kill:%d)\n" % g
        p = subprocess.run([ctx.oh, "-c", text], cwd=d, env=ctx.env(), stdin=subprocess.DEVNULL, capture_output=True, preexec_fn=core, timeout=60)
        dumped |= any(f.startswith("core") for f in os.listdir(d))
        ctx.cover(("core", g), text)
        if p.stdout != b"(|status %d|)\n" % (128 + g):
            ctx.violation("a process that was killed by signal %d (dumping core) has the value %r" % (g, p.stdout), text)
    ctx.count("core files seen", int(dumped))
    ctx.rmdir(d)


def check(ctx):
    tool.build(ctx)
    cores(ctx)
    jobs = [(statuses, ctx.rng.getrandbits(60)) for _ in range(ctx.n(220, 8000))]
    jobs += [(lastline, ctx.rng.getrandbits(60)) for _ in range(ctx.n(120, 4000))]
    jobs += [(exits, ctx.rng.getrandbits(60)) for _ in range(ctx.n(400, 10000))]
    jobs += [(starting, ctx.rng.getrandbits(60)) for _ in range(ctx.n(80, 3000))]
    jobs += [(exits, (k, ctx.rng.getrandbits(60))) for k in CONTEXTS + ["pipe-left", "capture", "substitution"]]
    ctx.rng.shuffle(jobs)
    ctx.pmap(lambda j: j[0](ctx, j[1]), jobs)
