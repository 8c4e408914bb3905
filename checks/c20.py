"""C20: process substitution."""
import os, random
import c19, lit, tool

RULE = ("A case is one process substitution: a command (external, method, pipeline, missing, failing, not opening, reading only a part, running in a loop, a capture, a spawned task) with one to five |<(...) and |>(...) "
        "arguments among other arguments, whose substituted commands write or read known bytes with delays, throw, or contain substitutions of their own. What each command read, the arguments the main command "
        "received, the order of the recorded ends, the exceptions, and the contents of TMPDIR after the construct are compared. Non-trivial: always; distinct by structure and data.")
ASSUMPTIONS = ["rm is found in PATH (oh uses it to remove named pipes)", "exit inside the construct, which ends oh at once, is excluded"]


class Gen:
    def __init__(self, r, i, d, ctx):
        self.r, self.i, self.d, self.ctx = r, i, d, ctx
        self.pre = []
        self.files = {}      # File name: its expected contents.
        self.ends = []       # Events that must precede the end of the construct.
        self.throws = []     # Exceptions of which one must be raised.
        self.k = 0
        self.kinds = []
        self.err = b""

    def name(self, p):
        self.k += 1
        return "%s%d_%d" % (p, self.i, self.k)

    def end(self):
        e = self.name("end ")
        self.ends.append(e)
        return "./tool sleep:%d 'ev:%s'" % (self.r.choice([0, 0, 2, 20]), e)

    def source(self, depth=1):
        """A command that writes bytes, and those bytes."""
        r = self.r
        c = c19.Case(r, self.i, self.d)
        c.k = self.k
        c.kinds = []
        k = r.choice(["plain", "plain", "plain", "slow", "throw-after", "throw-before", "nested", "missing", "var"])
        self.kinds.append("<" + k)
        if k == "nested" and depth > 0:
            s, b = self.source(depth - 1)
            return "cat |<(%s)" % s, b
        if k == "var":
            v = self.name("v")
            t = "value of %s" % v
            self.pre.append("define %s %s" % (v, lit.dq(t)))
            return "write-line $%s" % v, t.encode() + b"\n"
        if k == "throw-before":
            m = self.name("thrown ")
            self.throws.append(m)
            return "block {\nthrow '%s'\n}" % m, b""
        if k == "missing":
            m = self.name("nosuchcommand")
            self.throws.append(m)
            return m, b""
        s, b = c.command(1, nul=True)
        self.pre += c.pre
        self.k = c.k
        self.err += c.err
        if k == "slow":
            return "block {\n./tool sleep:%d\n%s\n%s\n}" % (r.choice([1, 10, 30]), s, self.end()), b
        if k == "throw-after":
            m = self.name("thrown ")
            self.throws.append(m)
            return "block {\n%s\n%s\nthrow '%s'\n}" % (s, self.end(), m), b
        return s, b

    def sink(self):
        """A command that reads, what it should read ends in a file; and how many bytes it takes at most."""
        r = self.r
        f = self.name("sink")
        k = r.choice(["tool", "tool", "cat", "pipe", "lines", "method", "slow", "throw", "nested", "none"])
        self.kinds.append(">" + k)
        text = False
        if k == "tool":
            s = "./tool sink:%s:%d" % (f, r.choice([1, 100, 65536]))
        elif k == "cat":
            s = "cat > %s" % f
        elif k == "pipe":
            s = "cat | ./tool copy:50 | ./tool sink:%s" % f
        elif k == "lines":
            text = True
            s = "block {\nwhile (define l: read-line) {\nwrite-line $l\n}\n} > %s" % f
        elif k == "method":
            text = True
            n = self.name("reader")
            self.pre.append("define %s: method () {\ndefine o: open w %s\nwhile (define l: stdin read-line) {\no write-line $l\n}\no close\n%s\n}" % (n, f, self.end()))
            s = n
        elif k == "slow":
            s = "block {\n./tool sleep:%d\n./tool sink:%s\n%s\n}" % (r.choice([1, 10, 30]), f, self.end())
        elif k == "throw":
            m = self.name("thrown ")
            self.throws.append(m)
            s = "block {\n./tool sink:%s\n%s\nthrow '%s'\n}" % (f, self.end(), m)
        elif k == "nested":
            s = "./tool copy | tee |>(./tool sink:%s) > /dev/null" % f
        else:
            return "true", None, False
        return s, f, text

    def outbytes(self, text, small):
        b = c19.output(self.r, not text)
        if small:
            b = b[:30000]
        if text:
            b = b.replace(b"\0", b"")
            if b and not b.endswith(b"\n"):
                b += b"\n"
        return b


def one(ctx, seed):
    r = random.Random(seed)
    d = ctx.mkdir()
    tool.install(ctx, d)
    tmp = os.path.join(d, r.choice(["tmp", "tmp", "t m p", "t[m]p*", "t'\"$x", "t(p)", "-tmp", "~tmp", "t\u00e9"]))
    os.mkdir(tmp)
    os.link(os.path.join(d, "tool"), os.path.join(d, "in"))
    src, want, files, evs, argvs, info = [], [], [], [], [], []
    wanterr = []
    for i in range(r.randint(3, 7)):
        g = Gen(r, i, d, ctx)
        n = r.choice([1, 1, 2, 2, 3, 5])
        main = r.choice(["tool", "tool", "tool", "tool", "method", "cat", "tee", "notopen", "missing", "throws", "partial", "builtin", "paste"])
        g.kinds.append(main)
        ops = []          # (source text of an argument, expected argument or None for a path)
        status = "0"
        if main in ("tool", "partial", "throws", "method", "notopen", "missing", "builtin"):
            av = g.name("argv")
            for _ in range(r.randint(0, 2)):
                w, e = r.choice([("plain",) * 2, ("'two words'", "two words"), ("-named-pipe-input-from",) * 2, ("'*'", "*"), ('"a\\nb"', "a\nb"), ("''", ""), ("$'\\x01'", "\x01"), ("'|<(x)'", "|<(x)")])
                ops += [("arg", "arg"), (w, e)]
            for _ in range(n):
                for _ in range(r.choice([0, 0, 1])):
                    x = g.name("x")
                    e = r.choice(["(mend '-' %s y)" % x, "(splice (list '%s-y'))" % x, "'%s-y'" % x, '"%s-y"' % x, "`(write-line %s-y)" % x])
                    ops += [("arg", "arg"), (e, x + "-y")]
                if r.random() < 0.6:
                    f = g.name("got")
                    if main == "notopen" and r.random() < 0.7:
                        s = r.choice(["cat %s" % lit.q("in"), "echo x", "./tool say:x", "block {\ntrue\n}"])
                        ops += [("arg", "arg"), ("|<(%s)" % s, None)]
                    elif main == "partial" and r.random() < 0.6:
                        big = bytes([r.randint(0, 255)]) * r.choice([10, 70000, 300000])
                        with open(os.path.join(d, f + ".src"), "wb") as h:
                            h.write(big)
                        m = r.choice([1, 9, 5000])
                        o = "readn:%s:%d:%d" % (f, r.choice([1, 9, 4096]), m)
                        ops += [(o, o), ("|<(cat %s.src)" % f, None)]
                        g.files[f] = big[:m]
                    elif main in ("missing", "throws", "builtin", "notopen"):
                        ops += [("arg", "arg"), ("|<(cat in)", None)]
                    else:
                        s, b = g.source()
                        o = "readn:%s:%d" % (f, r.choice([1, 7, 4096]) if len(b) < 3000 else 4096)
                        ops += [(o, o), ("|<(%s)" % s, None)]
                        g.files[f] = b
                elif main in ("missing", "throws", "builtin", "notopen"):
                    f = g.name("sink")
                    ops += [("arg", "arg"), ("|>(%s)" % r.choice(["cat", "./tool sink:%s" % f, "block {\nwhile (define l: read-line) {\nwrite-line $l\n}\n}"]), None)]
                    if f in ops[-1][0]:
                        g.files[f] = b""
                else:
                    s, f, text = g.sink()
                    if main == "method":
                        text = True
                    b = g.outbytes(text, f is None)
                    q = g.name("src")
                    with open(os.path.join(d, q), "wb") as h:
                        h.write(b if f else b[:100])
                    o = "writen:%s:%d" % (q, r.choice([1, 100, 4096]) if len(b) < 3000 else 4096)
                    if f is None:
                        o = "arg"   # Nobody reads: only opens.
                        if main == "method":
                            continue
                    ops += [(o, o), ("|>(%s)" % s, None)]
                    if f:
                        g.files[f] = b
            if not any(e is None for s, e in ops):
                ops += [("arg", "arg"), ("|<(true)", None)]
        if main in ("tool", "partial"):
            x = r.choice([0, 0, 3])
            status = str(x)
            z = r.choice([0, 0, 20])
            e = g.name("end main")
            g.ends.append(e)
            ops = [("argv:" + av, "argv:" + av)] + ops + [("sleep:%d" % z,) * 2, ("'ev:%s'" % e, "ev:" + e), ("exit:%d" % x,) * 2]
            cmd = "./tool " + " ".join(s for s, e in ops)
            argvs.append((i, av, ["./tool"] + [e for s, e in ops]))
        elif main == "notopen":
            ops = [("argv:" + av, "argv:" + av)] + ops
            cmd = "./tool " + " ".join(s for s, e in ops)
            argvs.append((i, av, ["./tool"] + [e for s, e in ops]))
        elif main == "missing":
            m = g.name("nosuchmain")
            g.throws.append(m)
            cmd = m + " " + " ".join(s for s, e in ops)
        elif main == "builtin":
            cmd = "true"
            for s, e in ops:
                if e is None:
                    cmd += " " + s
            if r.random() < 0.5:
                cmd = "mn%d %s" % (i, " ".join(s for s, e in ops if e is None))
                g.pre.append("define mn%d: method ((a)) {\n%s\n}" % (i, g.end()))
            status = None
        elif main == "throws":
            m = g.name("thrown main ")
            g.throws.append(m)
            g.pre.append("define mt%d: method ((a)) {\n%s\nthrow '%s'\n}" % (i, g.end(), m))
            cmd = "mt%d " % i + " ".join(s for s, e in ops)
        elif main == "method":
            # A method that does what the tool does.
            body = ["define l ()", "define io ()"]
            for j, (s, e) in enumerate(ops):
                if s.startswith("readn:"):
                    f = s.split(":")[1]
                    body.append("set io: open r- (a get %d)\ndefine o%d: open w %s\nwhile (set l: io read-line) {\no%d write-line $l\n}\nio close\no%d close" % (j + 1, j, f, j, j))
                    b = g.files[f]
                    if b and not b.endswith(b"\n"):
                        g.files[f] = b + b"\n"
                elif s.startswith("writen:"):
                    f = s.split(":")[1]
                    body.append("set io: open w (a get %d)\ndefine o%d: open r- %s\nwhile (set l: o%d read-line) {\nio write-line $l\n}\nio close\no%d close" % (j + 1, j, f, j, j))
            g.pre.append("define mm%d: method ((a)) {\n%s\n}" % (i, "\n".join(body)))
            cmd = "mm%d %s" % (i, " ".join(s for s, e in ops))
            status = None
        elif main == "cat":
            f = g.name("got")
            srcs = [g.source() for _ in range(n)]
            cmd = "cat " + " ".join("|<(%s)" % s for s, b in srcs)
            g.files[f] = b"".join(b for s, b in srcs)
            k = r.choice(["redirect", "pipe", "block"])
            if k == "redirect":
                cmd = "%s > %s" % (cmd, f)
            elif k == "pipe":
                cmd = "%s | ./tool sink:%s" % (cmd, f)
            else:
                cmd = "block {\n%s\n} > %s" % (cmd, f)
            status = None
        elif main == "paste":
            f = g.name("got")
            n = min(n, 3)
            bs = []
            for _ in range(n):
                while True:
                    b = c19.output(r)
                    if len(b) < 5000:
                        break
                bs.append(b)
            names = [g.name("src") for _ in bs]
            for q, b in zip(names, bs):
                with open(os.path.join(d, q), "wb") as h:
                    h.write(b)
            rows = [c19.lines(b) for b in bs]
            g.files[f] = b"".join(b"\t".join(x[j] if j < len(x) else b"" for x in rows) + b"\n" for j in range(max(map(len, rows))))
            cmd = "paste %s > %s" % (" ".join("|<(./tool out:%s:%d)" % (q, r.choice([3, 4096])) for q in names), f)
            status = None
        else:
            q = g.name("src")
            text = False
            sinks = []
            for _ in range(n):
                s, f, t = g.sink()
                while f is None:
                    g.kinds.pop()
                    s, f, t = g.sink()
                text |= t
                sinks.append((s, f))
            b = g.outbytes(text, False)
            with open(os.path.join(d, q), "wb") as h:
                h.write(b)
            f0 = g.name("got")
            cmd = "%s > %s" % ("tee " + " ".join("|>(%s)" % s for s, f in sinks), f0)
            cmd = r.choice(["./tool out:%s | %s", "cat %s | %s"]) % (q, cmd)
            for s, f in sinks:
                g.files[f] = b
            g.files[f0] = b
            status = None
        wrap = r.choice(["plain", "plain", "plain", "loop", "capture", "spawn", "block"])
        if main in ("tee", "cat", "paste") and wrap == "capture":
            wrap = "plain"
        times = 1
        body = cmd
        if wrap == "block":
            body = "block {\n%s\n}" % cmd
        elif wrap == "capture":
            if main == "missing" or g.throws:
                status = None
            body = "define cap%d: capture (%s)" % (i, cmd)
            status = None
        elif wrap == "spawn":
            # Run by another task.
            status = None
        elif wrap == "loop" and not g.files and main not in ("tool", "partial", "notopen"):
            times = 4
        src += g.pre
        gm = "define g%d: method () {\ncatch ex {\nset msg%d $ex\n./tool 'lsdir:%s'\n./tool 'ev:finished %d'\nreturn ()\n}\n" % (i, i, tmp.replace("'", "\\'") if "'" not in tmp else "TMP", i)
        if status is not None and wrap in ("plain", "block"):
            gm += "set st%d (%s)\n" % (i, body) if wrap == "plain" else "set st%d %s\n" % (i, "(" + body + ")")
        else:
            gm += body + "\n"
        gm += "./tool 'lsdir:%s'\n./tool 'ev:finished %d'\n}" % ("TMP", i)
        gm = gm.replace("lsdir:" + tmp, "lsdir:TMP")
        src.append("define msg%d 'nothing thrown'\ndefine st%d -" % (i, i))
        src.append(gm)
        if wrap == "spawn":
            src.append("define sp%d: spawn {\ng%d\n}\nwait $sp%d" % (i, i, i))
        else:
            src.append("\n".join(["g%d" % i] * times))
        src.append("write %d $msg%d $st%d" % (i, i, i))
        want.append((i, g, status if not g.throws and wrap in ("plain", "block") else None, times))
        wanterr.append(g.err)
        ctx.cover((tuple(g.kinds), wrap, tuple(sorted(g.files.items())), cmd), (src[-2] if wrap != "spawn" else gm)[:1500])
        ctx.count("main " + main)
        ctx.count("wrap " + wrap)
        for k in g.kinds[1:]:
            ctx.count("sub " + k)
        if g.throws:
            ctx.count("constructs that raise")
    os.symlink(tmp, os.path.join(d, "TMP"))
    text = "\n".join(src) + "\nwrite-line END\n"
    res = ctx.script(text, cwd=d, env=ctx.env(EV=os.path.join(d, "ev"), TMPDIR=tmp), timeout=100)
    replay = "TMPDIR=%s\n" % tmp + text + "\n" + res.brief(3000)
    try:
        judge(ctx, d, tmp, res, want, argvs, replay)
    finally:
        ctx.rmdir(d)


def judge(ctx, d, tmp, res, want, argvs, replay):
    if res.timeout or res.crashed or res.rc != 0:
        ctx.violation("oh did not run the program: " + res.brief(300), replay)
        return
    try:
        with open(os.path.join(d, "ev"), errors="surrogateescape") as f:
            ev = f.read().split("\n")[:-1]
    except OSError:
        ev = []
    out = res.out.decode("utf-8", "surrogateescape").split("\n")
    out = [l for l in out if l]
    pos = 0
    results = {}
    for l in out:
        try:
            v = lit.pylist(lit.decode(l))
            results[lit.text(v[0])] = [lit.text(x) for x in v[1:]]
        except Exception:
            pass
    for i, g, status, times in want:
        msg, st = results.get(str(i), (None, None))
        if msg is None:
            ctx.violation("construct %d (%s): no result" % (i, g.kinds), replay)
            return
        if g.throws:
            if not any(msg == t or msg == t + ": command not found" for t in g.throws):
                ctx.violation("construct %d (%s): raised %.200r, expected one of %r" % (i, g.kinds, msg, g.throws), replay)
                return
        elif msg != "nothing thrown":
            ctx.violation("construct %d (%s): unexpected exception: %.300r" % (i, g.kinds, msg), replay)
            return
        elif status is not None and st != status:
            ctx.violation("construct %d (%s): value is %s, not %s" % (i, g.kinds, st, status), replay)
            return
        # The ends of all the parts come before the end of the construct.
        seg = []
        seen = 0
        while pos < len(ev) and seen < times:
            seg.append(ev[pos])
            if ev[pos] == "finished %d" % i:
                seen += 1
            pos += 1
        if seen < times:
            ctx.violation("construct %d (%s) did not finish: %r" % (i, g.kinds, ev), replay)
            return
        got = sorted(e for e in seg if e.startswith("end "))
        if got != sorted(g.ends * times):
            ctx.violation("construct %d (%s): when it ended these parts had ended: %r, expected %r" % (i, g.kinds, got, sorted(g.ends * times)), replay)
            return
        left = [e for e in seg if e.startswith("entries ") and e != "entries 0"]
        if left or "entries 0" not in seg:
            ctx.violation("construct %d (%s): named pipes left behind (%r)" % (i, g.kinds, left), replay)
            return
        if "NOTFIFO" in seg or "TIMEOUT" in seg:
            ctx.violation("construct %d (%s): %r" % (i, g.kinds, seg), replay)
            return
        for f, b in g.files.items():
            try:
                with open(os.path.join(d, f), "rb") as h:
                    x = h.read()
            except OSError:
                x = None
            if x != b * times and not (x is None and not b):
                ctx.violation("construct %d (%s): %s is %.300r (%s bytes) instead of %.300r (%d bytes)" % (i, g.kinds, f, x, len(x or b""), b, len(b)), replay)
                return
            ctx.count("transfers compared")
            ctx.count("bytes", len(b))
    for i, av, exp in argvs:
        try:
            with open(os.path.join(d, av), "rb") as h:
                got = h.read().decode("utf-8", "surrogateescape").split("\0")[:-1]
        except OSError:
            got = []
        paths = []
        ok = len(got) == len(exp)
        for a, b in zip(got, exp):
            if b is None:
                ok &= os.path.dirname(a) == tmp
                paths.append(a)
            else:
                ok &= a == b
        if not ok or len(set(paths)) != len(paths):
            ctx.violation("construct %d: the command's arguments are %r, expected %r (None: a path in %s)" % (i, got, exp, tmp), replay)
            return
        ctx.count("argument lists compared")


def check(ctx):
    tool.build(ctx)
    ctx.pmap(lambda s: one(ctx, s), [ctx.rng.getrandbits(60) for _ in range(ctx.n(320, 8000))])
