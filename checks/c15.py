"""C15: the environment of external commands."""
import lit, probe

RULE = ("A case is the environment received by one external command (a recording executable) at a point of a random program of nested blocks, "
        "branches, loops, methods, prefixes, pipelines, captures, redirections and background tasks that export, define and set names; it is compared "
        "with the environment computed by a simulation of lexical scopes and callers' frames. Non-trivial: it differs from the inherited environment; distinct by environment and context.")
ASSUMPTIONS = ["PWD, OLDPWD, ORIGIN, OH_RC, 0, @ and the positional parameters are the only names oh itself exports with a text value",
               "an exported name is not also defined privately, or exported with a value that has no text form, in an inner scope (which of the two is visible is not specified)"]
NAMES = ["A", "B_1", "c", "X", "Y", "lang-uage", "EMPTY", "PATHLIKE", "n%m"]
PRIV = ["p", "Q", "r_1"]


class Scope:
    def __init__(self, parent):
        self.parent, self.exp, self.priv = parent, {}, {}


class Sim:
    def __init__(self, rng, inherited):
        self.r = rng
        self.env0 = Scope(None)
        self.env0.exp.update(inherited)
        self.top = Scope(None)
        self.expected = []
        self.methods = []
        self.n = 0

    def env(self, frames):
        out = {}
        for s in frames + [self.env0]:
            while s:
                for k, v in s.exp.items():
                    if k not in out:
                        out[k] = v
                s = s.parent
        return {k: v for k, v in out.items() if v is not None}

    def value(self):
        """(source, text)"""
        r = self.r
        k = r.random()
        if k < 0.1:
            return r.choice([("(number 7)", "7"), ("(div 2 6)", "1/3"), ("(status 3)", "3"), ("(number 1.50)", "3/2")])
        if k < 0.3:
            s = r.choice(["a", "true", "x1", "0x10", "1.50", "a_b"])
            return s, s
        if k < 0.4:
            s = lit.rtext(r, 6)
            s = s.replace("\0", "")
            return "(symbol %s)" % lit.q(s), s
        s = lit.rtext(r, 10, invalid=True).replace("\0", "")
        return lit.q(s), s

    def lexical(self, frames, name):
        s = frames[0]
        while s:
            if name in s.exp or name in s.priv:
                return s
            s = s.parent
        return None

    def ops(self, depth, n, static=False):
        """A random list of operations (a tree, run by run())."""
        r = self.r
        o = []
        for _ in range(n):
            k = r.random()
            if k < 0.3:
                o.append(("probe",))
            elif k < 0.45:
                o.append(("export", r.choice(NAMES), self.value()))
            elif k < 0.52:
                o.append(("define", r.choice(PRIV), self.value() if r.random() < 0.7 else None))
            elif k < 0.62:
                # Only names found lexically can be set: those exported first.
                if self.settable:
                    o.append(("set", r.choice(self.settable), self.value()))
            elif k < 0.65:
                o.append(("nontext",))
            elif k < 0.78 and depth > 0:
                o.append((r.choice(["block", "block", "if", "for", "while", "bg", "redir", "capture", "stage", "stage2", "seq"]), self.ops(depth - 1, r.randint(1, 4))))
            elif k < 0.88 and self.methods:
                o.append(("call", r.randrange(len(self.methods))))
            elif k < 0.97:
                ps = [(n, self.value()) for n in r.sample(NAMES, r.randint(1, 2))]
                o.append(("prefix", ps, r.randrange(len(self.methods)) if self.methods and r.random() < 0.4 else None))
            else:
                o.append(("unknown",))
        return o

    def source(self, ops, out):
        for op in ops:
            k = op[0]
            if k == "probe":
                self.emit(out, "./probe")
            elif k == "export":
                out.append("export %s %s" % (op[1], op[2][0]))
            elif k == "define":
                out.append("define %s %s" % (op[1], op[2][0] if op[2] else "(list a b)"))
            elif k == "set":
                out.append("set %s %s" % (op[1], op[2][0]))
            elif k == "nontext":
                out.append("export NT (list a b)\nexport NM (method () {\ntrue\n})\nexport NP (chan 1)")
            elif k == "unknown":
                out.append("define NAME_%d private" % len(out))
            elif k == "call":
                out.append("m%d" % op[1])
            elif k == "prefix":
                out.append("%s %s" % (" ".join("%s=%s" % (n, v[0]) for n, v in op[1]), "./probe" if op[2] is None else "m%d" % op[2]))
            else:
                pre, post = {"block": ("block {", "}"), "if": ("if true {", "}"), "for": ("for (list 1 2) (method (x) {", "})"),
                             "while": ("block {\ndefine go true\nwhile $go {\nset go ()", "}\n}"), "bg": ("block {", "} &\nwait"), "redir": ("block {", "} >> /dev/null"),
                             "capture": ("define cap: capture (block {", "})"), "stage": ("block {", "} | cat"), "stage2": ("true | block {", "}"), "seq": ("true; block {", "}")}[k]
                out.append(pre)
                self.source(op[1], out)
                out.append(post)

    def emit(self, out, s):
        out.append(s)

    def run(self, ops, frames, ctx):
        for op in ops:
            k = op[0]
            if k == "probe":
                self.expected.append((self.env(frames), ctx))
            elif k == "export":
                frames[0].exp[op[1]] = op[2][1]
            elif k == "define":
                frames[0].priv[op[1]] = op[2]
            elif k == "set":
                s = self.lexical(frames, op[1])
                if s:
                    s.exp[op[1]] = op[2][1]
            elif k == "call":
                self.run(self.methods[op[1]], [Scope(self.top)] + frames, ctx + "/method")
            elif k == "prefix":
                s = Scope(frames[0])
                for n, v in op[1]:
                    s.exp[n] = v[1]
                if op[2] is None:
                    self.expected.append((self.env([s] + frames[1:]), ctx + "/prefix"))
                else:
                    self.run(self.methods[op[2]], [Scope(self.top), s] + frames[1:], ctx + "/prefix/method")
            elif k == "for":
                for _ in range(2):
                    self.run(op[1], [Scope(frames[0])] + frames, ctx + "/for")
            elif k == "nontext":
                frames[0].exp["NT"] = "a b"
            elif k == "unknown":
                pass
            else:
                self.run(op[1], [Scope(frames[0])] + frames[1:], ctx + "/" + k)


def check(ctx):
    rng = ctx.rng
    probe.build(ctx)
    progs = []
    for i in range(ctx.n(250, 6000)):
        inherited = {n: rng.choice(["()", "true", "", "=", "a=b", "x" * 5000]) if rng.random() < 0.2 else lit.rtext(rng, 6).replace("\0", "") for n in rng.sample(NAMES + ["OTHER", "Z1", "a.b", "d d"], rng.randint(0, 6))}
        e = ctx.env(**inherited)
        s = Sim(rng, e)
        out = ["./probe"]
        tops = [("export", n, s.value()) for n in NAMES[:3] if rng.random() < 0.7]
        s.settable = [t[1] for t in tops]
        for _ in range(rng.randint(0, 3)):
            # Methods call only those defined before them.
            m = s.ops(1, rng.randint(1, 4))
            s.methods.append(m)
        bulk = []
        if i % 8 == 5:
            # Many names, in one scope or spread over several.
            many = [("export", "MANY_%d" % j, s.value()) for j in range(rng.choice([70, 150, 600]))]
            if rng.random() < 0.5:
                tops += many
            else:
                bulk = many
        body = tops + s.ops(3, rng.randint(4, 10)) + [("probe",)]
        if bulk:
            body += [("block", bulk[:40] + [("block", bulk[40:] + [("probe",)]), ("probe",)])]
        s.source(tops, out)
        for i, m in enumerate(s.methods):
            out.append("define m%d: method () {" % i)
            save, s.methods = s.methods, s.methods[:i]
            s.source(m, out)
            s.methods = save
            out.append("}")
        s.source(body[len(tops):], out)
        progs.append((s, "\n".join(out) + "\n", body, e))
    ctx.pmap(lambda x: one(ctx, *x), progs)


def one(ctx, s, text, body, inherited):
    d = ctx.mkdir()
    probe.install(ctx, d, ("probe",))
    r = ctx.script(text, ["arg one", "b*"], cwd=d, env=inherited, timeout=90)
    recs = probe.read(d)
    if r.timeout or r.crashed or r.rc != 0 or not recs:
        ctx.violation("oh did not run a program: %s" % r.brief(300), text + r.brief(3000))
        ctx.rmdir(d)
        return
    s.env0.exp.update({"PWD": d, "OLDPWD": d, "ORIGIN": d, "0": d + "/t.oh", "1": "arg one", "2": "b*", "@": "arg one b*"})
    s.env0.exp.setdefault("OH_RC", "~/.oh-rc")
    ctx.rmdir(d)
    # The first probe runs before anything is exported.
    s.expected = [(s.env([s.top]), "top")]
    s.run(body, [s.top], "top")
    for i, (want, where) in enumerate(s.expected):
        if i >= len(recs):
            ctx.violation("a command did not run", text + r.brief(3000))
            return
        got, dup = {}, []
        for e in recs[i].env:
            k, eq, v = e.partition("=")
            if not eq or k in got:
                dup.append(e)
            got[k] = v
        ctx.cover((sorted(want.items()), where), text if i == 3 else None, nontrivial=want != inherited)
        for c in set(where.split("/")):
            ctx.count("within " + c)
        if dup or got != want:
            diff = ["%s: expected %r, got %r" % (k, want.get(k), got.get(k)) for k in sorted(set(want) | set(got)) if want.get(k) != got.get(k)]
            ctx.violation("the environment of command %d (in %s) is wrong: %s %s" % (i, where, "; ".join(diff)[:600], "malformed or duplicate: %r" % dup if dup else ""),
                          "inherited: %r\n%s\n%s" % (inherited, text, r.brief(1000)))
            return
    if len(recs) != len(s.expected):
        ctx.violation("%d commands ran instead of %d" % (len(recs), len(s.expected)), text + r.brief(3000))
