"""C19: what a captured command yields."""
import os, random
import lit, probe, tool

RULE = ("A case is one capture: a command (external, built-in writes, methods, blocks, pipelines, redirected parts, loops, nested captures, background output that is waited for) writing known bytes to "
        "standard output and standard error, used as a value, spliced into the arguments of a recording executable or of a method, or in a loop. The lines, their types, the arguments, "
        "standard error and exceptions are compared with the bytes written. Non-trivial: something is written; distinct by bytes, kind of command and use.")
ASSUMPTIONS = ["within ` and similar uses the lines contain no NUL byte when passed to an external command"]

ALPH = ["a", "b", " ", "  ", "\t", "$x", "`", "'", '"', "\\n", "\\", "|", "\u00e9", "(", ")", "{", "#", "\r", "\x01", "~", "*", "?", "[a]", "0", "word", "\u4e2d", "&", ";", "<", ">", "=", "-", "--", "()", "true", "\x7f"]


def output(r, nul=False):
    k = r.random()
    if k < 0.06:
        return b""
    if k < 0.12:
        return r.choice([b"\n", b"\n\n", b"\n\n\n", b" ", b" \n", b"\r\n", b"a", b"\na", b"a\n\n", b"\n\na\n"])
    n = r.choice([1, 1, 2, 3, 5, 12])
    if k > 0.96:
        n = r.choice([300, 1500])
    ls = []
    for _ in range(n):
        m = r.choice([0, 1, 3, 6, 6, 20])
        if r.random() < 0.01:
            m = 20000
        b = "".join(r.choice(ALPH) for _ in range(m)).encode()
        if r.random() < 0.1:
            b = bytearray(b)
            b.insert(r.randint(0, len(b)), r.choice([0] if nul and r.random() < 0.3 else list(range(0x80, 0x100))))
            b = bytes(b)
        ls.append(b + b"\n")
    s = b"".join(ls)
    return s[:-1] if r.random() < 0.3 and not s.endswith(b"\n\n") and s != b"\n" else s


def lines(b):
    if not b:
        return []
    return (b[:-1] if b.endswith(b"\n") else b).split(b"\n")


class Case:
    def __init__(self, r, i, d):
        self.r, self.i, self.d = r, i, d
        self.pre = []
        self.err = b""
        self.throws = None
        self.k = 0

    def file(self, b):
        self.k += 1
        f = "data%d.%d" % (self.i, self.k)
        with open(os.path.join(self.d, f), "wb") as h:
            h.write(b)
        return f

    def command(self, depth=2, nul=False, closed=False):
        """(source lines of a command, bytes it writes). closed: must end with a newline (more follows)."""
        r = self.r
        b = output(r, nul)
        if closed and b and not b.endswith(b"\n"):
            b += b"\n"
        k = r.choice(["cat", "tool", "both", "printf", "wl", "method", "pipe", "redir", "block", "block", "nest", "wait", "loop", "if", "mixed"])
        if depth <= 0:
            k = r.choice(["cat", "tool", "both", "wl", "printf"])
        self.kinds.append(k)
        if k == "cat":
            return "cat %s" % self.file(b), b
        if k == "tool":
            return "./tool out:%s:%d:%d" % (self.file(b), r.choice([1, 7, 4096]) if len(b) < 5000 else 4096, r.choice([0, 0, 50]) if len(b) < 500 else 0), b
        if k == "both":
            # Standard error is not captured.
            ls = [l + b"\n" for l in lines(b)]
            self.err += b"".join(ls[1::2])
            return "./tool both:%s" % self.file(b"".join(ls)), b"".join(ls[0::2])
        if k == "printf":
            s = "".join(r.choice("abc xyz%09") for _ in range(r.randint(0, 9))) + ("\n" if closed else "")
            return "printf '%%s' %s" % lit.dq(s), s.encode() if s else b""
        if k == "wl":
            ss = []
            for l in lines(b)[:20]:
                if b"\0" not in l and len(l) < 3000:
                    ss.append(l.decode("utf-8", "surrogateescape"))
            src = "block {\n%s\n}" % "\n".join("%s %s" % (r.choice(["write-line", "stdout write-line"]), lit.dq(s)) for s in ss) if ss else "block {\ntrue\n}"
            return src, b"".join(s.encode("utf-8", "surrogateescape") + b"\n" for s in ss)
        if k == "method":
            s, b = self.command(depth - 1, nul, closed)
            self.k += 1
            n = "m%d_%d" % (self.i, self.k)
            self.pre.append("define %s: method () {\n%s\nreturn 'ignored'\n}" % (n, s))
            return n, b
        if k == "pipe":
            s, b = self.command(depth - 1, nul, closed)
            return "block {\n%s\n} | %s" % (s, r.choice(["cat", "./tool copy:100", "./tool copy"])), b
        if k == "redir":
            s, _ = self.command(depth - 1, nul, True)
            t, b = self.command(depth - 1, nul, closed)
            self.k += 1
            return "block {\nblock {\n%s\n} >> elsewhere%d.%d\n%s\n}" % (s, self.i, self.k, t), b
        if k == "block":
            o, v = [], b""
            n = r.randint(1, 3)
            for j in range(n):
                s, b = self.command(depth - 1, nul, closed or j < n - 1)
                o.append(s)
                v += b
            return "block {\n%s\n}" % "\n".join(o), v
        if k == "nest":
            s, b = self.command(depth - 1, nul, True)
            self.k += 1
            v = "n%d_%d" % (self.i, self.k)
            return "block {\ndefine %s: capture (%s)\nfor $%s (method (x) {\nwrite-line $x\n})\n}" % (v, s, v), b
        if k == "wait":
            s, b = self.command(depth - 1, nul, closed)
            self.k += 1
            v = "w%d_%d" % (self.i, self.k)
            return "block {\ndefine %s: spawn {\n%s\n}\nwait $%s\n}" % (v, s, v), b
        if k == "loop":
            e = self.err
            s, b = self.command(0, nul, True)
            n = r.randint(0, 3)
            self.err = e + self.err[len(e):] * n
            return ("block {\nfor (seq %d) (method (x) {\n%s\n})\n}" % (n, s)), b * n
        if k == "if":
            s, b = self.command(depth - 1, nul, closed)
            return "block {\nif true {\n%s\n}\n}" % s, b
        s, b = self.command(depth - 1, nul, True)
        t = "".join(r.choice("abc def") for _ in range(r.randint(1, 6)))
        return "block {\n%s\nwrite-line '%s'\n}" % (s, t), b + t.encode() + b"\n"


def one(ctx, seed):
    r = random.Random(seed)
    d = ctx.mkdir()
    tool.install(ctx, d)
    probe.install(ctx, d)
    src = []
    want, wantargs, wanterr, info = [], [], b"", []
    for i in range(r.randint(4, 9)):
        c = Case(r, i, d)
        c.kinds = []
        use = r.choice(["value", "value", "value", "probe", "probe", "tick", "tick", "bare", "each", "method", "mend", "in-method", "throw", "throw", "nested-tick", "bg"])
        s, b = c.command(2, nul=use in ("value", "each", "in-method"))
        ls = [x.decode("utf-8", "surrogateescape") for x in lines(b)]
        if use in ("probe", "tick", "bare", "nested-tick") and (len(b) > 100000 or len(ls) > 2000):
            use = "value"
        src += c.pre
        if use == "value":
            src.append("define c%d: capture (%s)\nwrite %d $c%d" % (i, s, i, i))
            want.append((i, lit.lst(*[lit.Str(x) for x in ls])))
        elif use == "bg":
            src.append("define ch%d: chan 1\nspawn {\nch%d write (capture (%s))\n}\ndefine c%d: ch%d read\nwrite %d $c%d" % (i, i, s, i, i, i, i))
            want.append((i, lit.lst(*[lit.Str(x) for x in ls])))
        elif use == "in-method":
            src.append("define im%d: method () {\ndefine local: capture (%s)\nreturn $local\n}\nwrite %d (im%d)" % (i, s, i, i))
            want.append((i, lit.lst(*[lit.Str(x) for x in ls])))
        elif use == "each":
            src.append("write %d (for (capture (%s)) (method (x) {\nreturn (list $x (string? $x))\n}))" % (i, s))
            want.append((i, lit.lst(*[lit.lst(lit.Str(x), lit.TRUE) for x in ls])))
        elif use == "mend":
            src.append("write %d (mend ', ' first (splice (capture (%s))))" % (i, s))
            want.append((i, lit.Str(", ".join(["first"] + ls)) if ls else lit.Sym("first")))
        elif use == "method":
            src.append("define args%d: method ((a)) {\nreturn $a\n}\nwrite %d (args%d one `(%s) two)" % (i, i, i, s))
            want.append((i, lit.lst(lit.Sym("one"), *[lit.Str(x) for x in ls], lit.Sym("two"))))
        elif use == "nested-tick":
            src.append("write %d (capture (./tool say:x `(%s) | cat))" % (i, "true"))
            want.append((i, lit.lst(lit.Str("x"))))
        elif use == "probe":
            src.append("./probe %d (splice (capture (%s))) end" % (i, s))
            wantargs.append((i, ["./probe", str(i)] + ls + ["end"]))
        elif use == "tick":
            src.append("./probe %d `(%s) end `(%s)" % (i, s, "printf 'x y'"))
            wantargs.append((i, ["./probe", str(i)] + ls + ["end", "x y"]))
        elif use == "bare":
            src.append("./probe %d x `(%s)" % (i, s))
            wantargs.append((i, ["./probe", str(i), "x"] + ls))
        elif use == "throw":
            m = "thrown %d" % i
            where = r.choice(["after", "before", "nested", "method", "undefined"])
            t = "throw '%s'" % m
            if where == "before":
                s = "block {\n%s\n%s\n}" % (t, s)
                c.err = b""
            elif where == "method":
                src.append("define tm%d: method () {\n%s\n}" % (i, t))
                s = "block {\n%s\ntm%d\n}" % (s, i)
            elif where == "nested":
                s = "block {\n%s\ndefine q: capture (block {\necho lost\n%s\n})\n}" % (s, t)
            elif where == "undefined":
                m = "'undefined%d' not defined" % i
                s = "block {\n%s\nwrite-line $undefined%d\n}" % (s, i)
            else:
                s = "block {\n%s\n%s\n}" % (s, t)
            src.append("define g%d: method () {\ncatch ex {\nwrite %d (list caught $ex)\nreturn ()\n}\ndefine x: capture (%s)\nwrite %d not-reached\n}\ng%d" % (i, i, s, i, i))
            want.append((i, lit.lst(lit.Sym("caught"), lit.Str(m))))
        if c.err and use == "nested-tick":
            c.err = b""
        wanterr += c.err
        info.append((use, tuple(c.kinds)))
        ctx.cover((use, tuple(c.kinds), b), src[-1][:1500], nontrivial=len(b) > 0)
        ctx.count("use " + use)
        ctx.count("lines", len(ls))
        ctx.count("bytes", len(b))
        if b and not b.endswith(b"\n"):
            ctx.count("unterminated last lines")
    text = "\n".join(src) + "\nwrite-line END\n"
    res = ctx.script(text, cwd=d, env=ctx.env(EV=os.path.join(d, "ev")), timeout=90)
    recs = probe.read(d)
    ctx.rmdir(d)
    replay = text + "\n" + res.brief(3000)
    if res.timeout or res.crashed or res.rc != 0:
        ctx.violation("oh did not run the program: " + res.brief(300), replay)
        return
    out = res.out.decode("utf-8", "surrogateescape").split("\n")
    for (i, v), l in zip(want, out):
        try:
            got = lit.decode(l)
        except lit.Bad as e:
            ctx.violation("capture %d: unreadable value: %s" % (i, e), replay)
            return
        exp = lit.lst(lit.Sym(str(i)), v)
        if got != exp:
            ctx.violation("capture %d (%s) gives %.600s instead of %.600s" % (i, info[i], lit.rep(got), lit.rep(exp)), replay)
            return
    if out[len(want):] != ["END", ""]:
        ctx.violation("unexpected output %r" % out[len(want):len(want) + 4], replay)
        return
    for j, (i, a) in enumerate(wantargs):
        got = recs[j].argv if j < len(recs) else None
        if got != a:
            ctx.violation("capture %d (%s) as arguments: %.600r instead of %.600r" % (i, info[i], got, a), replay)
            return
    if res.err != wanterr:
        ctx.violation("standard error is %.300r, expected %.300r" % (res.err, wanterr), replay)


def check(ctx):
    tool.build(ctx)
    probe.build(ctx)
    ctx.pmap(lambda s: one(ctx, s), [ctx.rng.getrandbits(60) for _ in range(ctx.n(280, 12000))])
