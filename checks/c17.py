"""C17: what is written within redirections, where it goes, and what is in force afterwards."""
import os, random
import lit

RULE = ("A case is one random program of nested redirections (files, pipes, channels, standard input), blocks, branches, loops, methods, pipelines, captures, background tasks, exceptions "
        "and handlers, in which every write (built-in or external, to either stream) carries a number. All files, the standard streams, the lines read, the values of redirected commands and "
        "oh's open files at many points are compared with a simulation. Non-trivial: there are nested redirections; distinct by program shape.")
ASSUMPTIONS = ["stages of a pipeline, and background tasks, are not compared with each other for order", "a redirected command is not left with return"]


class Thrown(Exception):
    pass


class Gen:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.methods = []
        self.nfiles = 0
        self.infiles = {}
        self.shape = []

    def num(self):
        self.n += 1
        return self.n

    def file(self):
        self.nfiles += 1
        return "f%d" % self.nfiles

    def chain(self, depth, only_out, bg, inp, throw):
        """Several redirections of one command."""
        r = self.r
        layers, cat = [], False
        for _ in range(r.choice([2, 2, 2, 3, 4])):
            if r.random() < 0.4 and not bg:
                f = "in%d" % len(self.infiles)
                self.infiles[f] = ["%s line %d" % (f, i) for i in range(r.randint(0, 12))]
                layers.append(("in", f))
                cat = True
            else:
                op = [">>"] if bg and only_out else [">>", ">>&"] if bg else [">", ">|", ">>"] if only_out else [">", ">|", ">>", ">&", ">&|", ">>&"]
                layers.append(("redir", r.choice(op), self.file(), r.choice(["bare", "quoted", "abs"])))
        if cat:
            body = [("cat", self.num())]
        elif r.random() < 0.5:
            body = [("w", r.choice(["wl", "echo", "write", "som", "printf"]), self.num())]
        else:
            body = self.nodes(depth - 1, r.randint(1, 4), only_out, bg, inp, throw)
        for x in layers:
            body = [x + (body,)]
        return ("chain", body)

    def nodes(self, depth, n, only_out=False, bg=False, inp=None, throw=False):
        r, o = self.r, []
        for _ in range(n):
            k = r.random()
            if bg and 0.6 <= k < 0.78:
                k = 0.67
            if bg and 0.84 <= k < 0.88:
                k = 0.8
            if k < 0.4 or depth == 0:
                o.append(("w", r.choice(["wl", "wl", "echo", "write", "som", "printf"] if only_out else
                                        ["wl", "wl", "error", "error", "echo", "sh", "write", "som", "sem", "printf", "big"]), self.num()))
            elif k < 0.46:
                o.append(self.chain(depth, only_out, bg, inp, throw))
            elif k < 0.6:
                kind = r.random()
                body = self.nodes(depth - 1, r.randint(1, 4), only_out, bg, inp, throw)
                if kind < 0.6:
                    op = r.choice([">>"] if bg and only_out else [">>", ">>&"] if bg else [">", ">", ">|", ">>", ">>"] if only_out else [">", ">", ">|", ">>", ">>", ">&", ">&|", ">>&"])
                    o.append(("redir", op, self.file(), r.choice(["bare", "quoted", "abs"]), body))
                elif kind < 0.75:
                    # A file that is appended to repeatedly, also when it is in use already.
                    o.append(("redir", r.choice([">>"] if only_out else [">>", ">>&"]), "app%s" % (bg or ""), "bare", body))
                elif kind < 0.9:
                    o.append(("pipe-target", r.choice([">", ">>"] if only_out else [">", ">&", ">|", ">>&"]), self.num(), body))
                else:
                    o.append(("chan-target", r.choice([">"] if only_out else [">", ">&"]), self.num(),
                              [("w", r.choice(["wl", "som"] if only_out else ["wl", "error", "som"]), self.num()) for _ in range(r.randint(0, 4))]))
            elif k < 0.66:
                o.append(("value", r.choice([">", ">>&", ">|"]) if not only_out else ">", self.file(), self.num(), self.nodes(depth - 1, r.randint(0, 2), only_out, bg, inp, throw)))
            elif k < 0.72:
                o.append((r.choice(["block", "if", "while", "seq"] + (["for"] if not bg else [])), self.nodes(depth - 1, r.randint(1, 3), only_out, bg, inp, throw)))
            elif k < 0.78:
                o.append(("guard", self.num(), self.nodes(depth - 1, r.randint(1, 4), only_out, bg, inp, True)))
            elif k < 0.8 and throw:
                o.append(("throw", r.choice(["throw", "undef", "badarg", "nocmd", "nofile"]), self.num()))
            elif k < 0.84:
                o.append(("pipe", self.nodes(depth - 1, r.randint(1, 3), True, bg, None, throw)))
            elif k < 0.88:
                o.append(("capture", self.num(), self.nodes(depth - 1, r.randint(1, 3), True, bg, inp, throw)))
            elif k < 0.92 and self.methods and not bg and not only_out:
                o.append(("call", r.randrange(len(self.methods))))
            elif k < 0.96 and not bg:
                f = "in%d" % len(self.infiles)
                self.infiles[f] = ["%s line %d" % (f, i) for i in range(r.randint(0, 12))]
                if r.random() < 0.3:
                    o.append(("in", f, [("cat", self.num())]))
                else:
                    o.append(("in", f, self.nodes(depth - 1, r.randint(1, 3), only_out, bg, f, throw) + [("rl", self.num())]))
            elif k < 0.98 and inp and not only_out:
                o.append(("rl", self.num()))
            elif not bg and not only_out:
                if r.random() < 0.5:
                    o.append(("fds",))
                else:
                    o.append(("bg", self.file(), self.nodes(depth - 1, r.randint(1, 3), False, "B", None, False),
                              self.nodes(depth - 1, r.randint(1, 3), False, "P", None, False)))
        if self.r.random() < 0.3 and not bg and not only_out:
            o.append(("fds",))
        return o


def source(nodes, o, g):
    for x in nodes:
        k = x[0]
        if k == "w":
            n = x[2]
            o.append({"wl": "write-line 'wl %d'" % n, "error": "error 'error %d'" % n, "echo": "echo 'echo %d'" % n,
                      "sh": "sh -c 'echo sh %d; echo she %d >&2; echo sh2 %d'" % (n, n, n), "write": "write a $'b c' %d" % n, "som": "stdout write-line 'som %d'" % n,
                      "sem": "stderr write-line 'sem %d'" % n, "printf": "printf %%s%%s. printf %d" % n, "big": "write-line (mend '' $big %d)" % n}[x[1]])
        elif k == "chain":
            # The first redirection is the innermost.
            x, ts = x[1], []
            while x and x[0][0] in ("redir", "in") and len(x) == 1 and len(ts) < 4:
                x = x[0]
                ts.append("< %s" % x[1] if x[0] == "in" else "%s %s" % (x[1], {"bare": x[2], "quoted": "'%s'" % x[2], "abs": '"${D}/%s"' % x[2]}[x[3]]))
                x = x[-1]
            if len(x) == 1 and x[0][0] in ("w", "cat") and x[0][1] != "sh":
                source(x, o, g)
                o[-1] += " " + " ".join(reversed(ts))
            else:
                o.append("block {")
                source(x, o, g)
                o.append("} " + g.r.choice(["", ""]) + g.r.choice([" ", "  "]).join(reversed(ts)))
        elif k == "redir":
            t = {"bare": x[2], "quoted": "'%s'" % x[2], "abs": "${D}/%s" % x[2]}[x[3]]
            if x[3] == "abs":
                t = '"%s"' % t
            o.append("block {")
            source(x[4], o, g)
            o.append("} %s %s" % (x[1], t))
        elif k == "pipe-target":
            o.append("define p%d: pipe" % x[2])
            o.append("define t%d: spawn {\nwhile (define l: p%d read-line) {\npipelog write-line \"%d ${l}\"\n}\n}" % (x[2], x[2], x[2]))
            o.append("define guarded%d: method () {\ncatch ex {\np%d writer-close\nwait $t%d\n}\nblock {" % (x[2], x[2], x[2]))
            source(x[3], o, g)
            o.append("} %s $p%d\n}\nguarded%d\np%d writer-close\nwait $t%d" % (x[1], x[2], x[2], x[2], x[2]))
        elif k == "chan-target":
            o.append("define c%d: chan 10" % x[2])
            o.append("block {")
            source(x[3], o, g)
            o.append("} %s $c%d\nc%d close\nwhile (define l: c%d read-line) {\npipelog write-line \"%d ${l}\"\n}" % (x[1], x[2], x[2], x[2], x[2]))
        elif k == "value":
            o.append("define v%d (block {" % x[3])
            source(x[4], o, g)
            o.append("mend '' value %d\n} %s %s)\nev \"value $v%d\"" % (x[3], x[1], x[2], x[3]))
        elif k in ("block", "if", "for", "while", "seq"):
            a, b = {"block": ("block {", "}"), "if": ("if true {", "}"), "for": ("for (list 1 2) (method (x) {", "})"),
                    "while": ("block {\ndefine go true\nwhile $go {\nset go ()", "}\n}"), "seq": ("true; block {", "}")}[k]
            o.append(a)
            source(x[1], o, g)
            o.append(b)
        elif k == "guard":
            o.append("define g%d: method () {\ncatch ex {\nev \"caught %d ${ex}\"\nreturn ()\n}" % (x[1], x[1]))
            source(x[2], o, g)
            o.append("}\ng%d" % x[1])
        elif k == "throw":
            o.append({"throw": "throw 'throw %d'" % x[2], "undef": "write-line $undefined-%d" % x[2], "badarg": "sub a %d" % x[2],
                      "nocmd": "no-such-command-%d" % x[2], "nofile": "cat < no-file-%d" % x[2]}[x[1]])
        elif k == "pipe":
            o.append("block {")
            source(x[1], o, g)
            o.append("} | cat")
        elif k == "capture":
            o.append("define cap%d: capture (block {" % x[1])
            source(x[2], o, g)
            o.append("})\nfor $cap%d (method (x) {\nev \"capture %d ${x}\"\n})" % (x[1], x[1]))
        elif k == "call":
            o.append("m%d" % x[1])
        elif k == "in":
            o.append("block {")
            source(x[2], o, g)
            o.append("} < %s" % x[1])
        elif k == "rl":
            o.append("define rl%d: read-line\nev \"read %d ${rl%d}\"" % (x[1], x[1], x[1]))
        elif k == "cat":
            o.append("cat")
        elif k == "fds":
            o.append("sh -c 'for f in /proc/$PPID/fd/*; do readlink $f; done | grep \"^$D/\" | sort | tr \"\\n\" \" \" >> $EV; echo >> $EV'")
        elif k == "bg":
            o.append("block {\ndefine b%s: spawn {\nblock {" % x[1])
            source(x[2], o, g)
            o.append("} >>& %s\n}" % x[1])
            source(x[3], o, g)
            o.append("wait $b%s\n}" % x[1])


BIG = "0123456789" * 400


class Sim:
    def __init__(self, g, d):
        self.g, self.d = g, d
        self.out = {"stdout": [], "stderr": []}
        self.ev = []
        self.pipelog = {}
        self.open = []
        self.reads = []
        self.depth = 0

    def put(self, t, s):
        self.out.setdefault(t, []).append(s)

    def run(self, nodes, so, se):
        for x in nodes:
            k = x[0]
            if k == "w":
                n = x[2]
                k = x[1]
                if k in ("wl", "echo", "som"):
                    self.put(so, "%s %d\n" % (k, n))
                elif k in ("error", "sem"):
                    self.put(se, "%s %d\n" % (k, n))
                elif k == "sh":
                    self.put(so, "sh %d\n" % n)
                    self.put(se, "she %d\n" % n)
                    self.put(so, "sh2 %d\n" % n)
                elif k == "write":
                    self.put(so, "a $'b c' %d\n" % n)
                elif k == "printf":
                    self.put(so, "printf%d." % n)
                elif k == "big":
                    self.put(so, "%s%d\n" % (BIG, n))
            elif k in ("redir", "value"):
                f, body = (x[2], x[4]) if k == "redir" else (x[2], x[4])
                op = x[1]
                if f in self.out and not op.startswith(">>"):
                    if "|" in op:
                        self.out[f] = []
                    else:
                        raise Thrown("%s exists" % (self.d + "/" + f if k == "redir" and x[3] == "abs" else f))
                self.out.setdefault(f, [])
                self.open.append(f)
                try:
                    self.run(body, f, f if "&" in op else se)
                finally:
                    self.open.pop()
                if k == "value":
                    self.ev.append("value value%d" % x[3])
            elif k in ("pipe-target", "chan-target"):
                t = ("pipe", x[2])
                self.out[t] = []
                try:
                    self.run(x[3], t, t if "&" in x[1] else se)
                finally:
                    self.pipelog.setdefault(x[2], []).extend(lines("".join(self.out.pop(t))))
            elif k in ("for",):
                for _ in range(2):
                    self.run(x[1], so, se)
            elif k == "cat":
                for l in self.reads[-1]:
                    self.put(so, l + "\n")
                self.reads[-1] = []
            elif k in ("block", "if", "while", "seq", "chain"):
                self.run(x[1], so, se)
            elif k == "guard":
                try:
                    self.run(x[2], so, se)
                except Thrown as e:
                    self.ev.append("caught %d %s" % (x[1], e.args[0]))
            elif k == "throw":
                raise Thrown({"throw": "throw %d" % x[2], "undef": "'undefined-%d' not defined" % x[2], "badarg": None,
                              "nocmd": None, "nofile": "no-file-%d does not exist" % x[2]}[x[1]])
            elif k == "pipe":
                self.run(x[1], so, se)
            elif k == "capture":
                t = ("cap", x[1])
                self.out[t] = []
                self.run(x[2], t, se)
                for l in lines("".join(self.out.pop(t))):
                    self.ev.append("capture %d %s" % (x[1], l))
            elif k == "call":
                self.run(self.g.methods[x[1]], so, se)
            elif k == "in":
                self.reads.append(list(self.g.infiles[x[1]]))
                self.open.append(x[1])
                try:
                    self.run(x[2], so, se)
                finally:
                    self.reads.pop()
                    self.open.pop()
            elif k == "rl":
                l = self.reads[-1]
                self.ev.append("read %d %s" % (x[1], l.pop(0) if l else "()"))
            elif k == "fds":
                self.ev.append("".join(sorted("%s/%s " % (self.d, f) for f in self.open + ["ev", "pipelog"])))
            elif k == "bg":
                f = x[1]
                self.out.setdefault(f, [])
                self.run(x[2], f, f)
                self.run(x[3], so, se)


def lines(s):
    return (s[:-1] if s.endswith("\n") else s).split("\n") if s else []


def shape(nodes):
    return tuple((x[0], x[1] if x[0] in ("w", "redir", "throw") else None, tuple(shape(y) for y in x if isinstance(y, list))) for x in nodes)


def nested(nodes, d=0):
    m = d
    for x in nodes:
        for y in x:
            if isinstance(y, list):
                m = max(m, nested(y, d + (x[0] in ("redir", "value", "in", "pipe-target", "chan-target", "bg"))))
    return m


def flags(nodes, ctx):
    for x in nodes:
        ctx.count(x[0] if x[0] != "redir" else "redirection " + x[1])
        for y in x:
            if isinstance(y, list):
                flags(y, ctx)


PRE = """define log: open a $EV
define pipelog: open a $PIPELOG
define big '%s'
define ev: method (s) {
log write-line $s
}
""" % BIG


def check(ctx):
    seeds = [ctx.rng.getrandbits(60) for _ in range(ctx.n(1000, 12000))]
    ctx.pmap(lambda s: one(ctx, s), seeds)


def one(ctx, seed):
    r = random.Random(seed)
    g = Gen(r)
    src = [PRE]
    for i in range(r.randint(0, 2)):
        m = g.nodes(2, r.randint(1, 4), throw=True)
        src.append("define m%d: method () {" % i)
        source(m, src, g)
        src.append("}")
        g.methods.append(m)
    g.infiles["stdin"] = ["stdin line %d" % i for i in range(r.randint(0, 9))]
    body = []
    for x in g.nodes(3, r.randint(3, 8), inp="stdin", throw=True):
        body.append(("guard", g.num(), [x]))
    source(body, src, g)
    text = "\n".join(src) + "\n"
    top = ctx.mkdir()
    d, ctl = os.path.join(top, "d"), os.path.join(top, "ctl")
    os.mkdir(d)
    os.mkdir(ctl)
    for f, ls in g.infiles.items():
        if f != "stdin":
            with open(os.path.join(d, f), "w") as h:
                h.write("".join(l + "\n" for l in ls))
    path = os.path.join(ctl, "t.oh")
    with open(path, "w") as h:
        h.write(text)
    evf, plf = os.path.join(d, "ev"), os.path.join(d, "pipelog")
    res = ctx.run([path], cwd=d, env=ctx.env(EV=evf, PIPELOG=plf, D=d), stdin="".join(l + "\n" for l in g.infiles["stdin"]).encode(), timeout=90)
    sim = Sim(g, d)
    sim.reads.append(list(g.infiles["stdin"]))
    sim.run(body, "stdout", "stderr")
    files = {}
    for n in os.listdir(d):
        with open(os.path.join(d, n), errors="surrogateescape") as h:
            files[n] = h.read()
    ctx.rmdir(top)
    ctx.cover(shape(body), text[len(PRE):], nontrivial=nested(body) > 1)
    flags(body, ctx)
    ctx.count_max("depth of redirections, at most", nested(body))
    evs, pls = files.pop("ev", "").split("\n")[:-1], files.pop("pipelog", "").split("\n")[:-1]
    replay = text + "\n\nexpected events:\n" + "\n".join(sim.ev) + "\n\nevents:\n" + "\n".join(evs) + "\n" + res.brief(3000)
    if res.timeout or res.crashed or res.rc != 0:
        ctx.violation("oh did not run the program: " + res.brief(300), replay)
        return
    ctx.count("writes compared", sum(len(v) for v in sim.out.values()))
    for i in range(max(len(evs), len(sim.ev))):
        e = sim.ev[i] if i < len(sim.ev) else None
        a = evs[i] if i < len(evs) else None
        if e != a and not (e and a and e.endswith(" None") and a.startswith(e[:-4])):
            ctx.violation("event %d: expected %r, got %r" % (i, e, a), replay)
            return
    got = {}
    for l in pls:
        n, _, t = l.partition(" ")
        got.setdefault(int(n), []).append(t)
    want = {k: v for k, v in sim.pipelog.items() if v}
    if got != want:
        k = next(k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k))
        ctx.violation("pipe or channel %d received %r, expected %r" % (k, got.get(k), want.get(k)), replay)
        return
    actual = {"stdout": res.out.decode("utf-8", "surrogateescape"), "stderr": res.err.decode("utf-8", "surrogateescape")}
    for f, ls in g.infiles.items():
        if f != "stdin" and files.pop(f, None) != "".join(l + "\n" for l in ls):
            ctx.violation("input file %s was changed" % f, replay)
    actual.update(files)
    model = {k: "".join(v) for k, v in sim.out.items() if isinstance(k, str)}
    if actual != model:
        k = next(k for k in sorted(set(actual) | set(model)) if actual.get(k) != model.get(k))
        ctx.violation("%s contains %r, expected %r" % (k, short(actual.get(k)), short(model.get(k))), replay)


def short(s):
    return s.replace(BIG, "BIG") if s else s
