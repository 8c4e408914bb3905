"""C24: the current directory."""
import os, random
import lit, probe

RULE = ("A case is one observation (or change) of the current directory in a random program of nested blocks, branches, loops, methods, guards, pipelines, captures, redirections and concurrent tasks "
        "that change directory: an external command, redirections, open, exists, source, a pattern, ./command, a command found through a relative entry of PATH, $PWD or $OLDPWD. Each logs which "
        "directory it used, and that is compared with a simulation of scopes and callers. Non-trivial: the directory is not the initial one; distinct by kind of observation, directory, and context.")
ASSUMPTIONS = ["relative paths used to observe a directory reached through a symbolic link do not start with ..",
               "PWD and OLDPWD are not changed other than by cd"]


class Outside(Exception):
    pass


class Scope:
    def __init__(self, parent):
        self.parent, self.v = parent, {}


def lookup(frames, k):
    for s in frames:
        while s:
            if k in s.v:
                return s.v[k]
            s = s.parent
    return None


KINDS = ["ext", "ext", "pwd", "oldpwd", "out", "append", "in", "open", "openr", "exists", "source", "glob", "redirglob", "dot", "dotpath", "cat", "upin", "upopen", "upcat"]


class Gen:
    def __init__(self, r, root, dirs, links):
        self.r, self.root, self.dirs, self.links = r, root, dirs, links
        self.n = self.notes = 0
        self.methods = []
        self.where = {}

    def num(self):
        self.n += 1
        return self.n

    def target(self, absolute=False):
        r = self.r
        k = r.random()
        d = r.choice(list(self.dirs))
        if absolute or k < 0.3:
            return ("abs", d)
        if k < 0.62:
            return ("rel", r.choice(sorted({os.path.basename(x) for x in self.dirs if x != self.root}) + list(self.links)))
        if k < 0.75:
            return r.choice([("up",), ("up",), ("dot",), ("upover", os.path.basename(d))])
        if k < 0.82:
            return ("missing", r.choice(["nosuch", "here", "./nosuch", "src.oh", "../nosuch/x", "/nonexistent"]))
        if k < 0.88:
            return ("home",)
        if k < 0.94:
            return ("minus",)
        return ("tilde",)

    def ops(self, depth, n, par=False):
        r, o = self.r, []
        for _ in range(n):
            k = r.random()
            if k < 0.36:
                o.append(("obs", r.choice(KINDS), self.num()))
            elif k < 0.58:
                o.append(("cd", self.target(), r.choice(["plain", "plain", "value"]), self.num()))
            elif k < 0.61:
                o.append(("sethome", r.choice(list(self.dirs))))
            elif k < 0.83 and depth:
                o.append((r.choice(["block", "block", "if", "for", "while", "bg", "redir", "capture", "stage", "stage2", "guard", "guardthrow", "inner", "eval"]), self.ops(depth - 1, r.randint(1, 5), par), self.num()))
            elif k < 0.95 and self.methods:
                o.append(("call", r.randrange(len(self.methods))))
            elif depth and not par:
                bodies = []
                for _ in range(r.randint(2, 4)):
                    bodies.append([("cd", self.target(True), "plain", self.num())] + self.ops(1, r.randint(3, 8), True))
                o.append(("par", bodies, self.ops(1, r.randint(2, 6), True)))
        return o

    # --- source ---
    def cdsrc(self, t):
        r = self.r
        if t[0] == "abs":
            return "cd " + lit.q(t[1])
        if t[0] == "rel":
            n = t[1]
            return "cd " + (n if n.isalnum() and r.random() < 0.7 else r.choice([lit.q(n), lit.q("./" + n), lit.q(n + "/")]))
        if t[0] == "upover":
            return "cd " + lit.q("../" + t[1])
        if t[0] == "missing":
            return "cd " + t[1]
        return {"up": "cd ..", "dot": "cd .", "home": "cd", "minus": "cd -", "tilde": "cd ~"}[t[0]]

    def obssrc(self, kind, n):
        return {
            "ext": "probe %d" % n,
            "pwd": 'ev %d "$PWD"' % n,
            "oldpwd": 'ev %d "$OLDPWD"' % n,
            "out": "write-line x > mark%d.o-%d" % (n, 0) if False else "echo x >> mark-%d" % n,
            "append": "write-line x >> mark-%d" % n,
            "in": "block {\ndefine l: read-line\nev %d \"${l}\"\n} < id" % n,
            "open": "define f%d: open a mark-%d\nf%d write-line x\nf%d close" % (n, n, n, n),
            "openr": "define f%d: open r- id\ndefine l%d: f%d read-line\nf%d close\nev %d \"${l%d}\"" % (n, n, n, n, n, n),
            "exists": "for $ids (method (i) {\nif (exists \"here-${i}\") {\nev %d $i\n}\n})" % n,
            "source": "define source-id %d\nsource ./src.oh" % n,
            "glob": "probe %d here-*" % n,
            "redirglob": "block {\ndefine l: read-line\nev %d \"${l}\"\n} < i[d]" % n,
            "dot": "./which %d" % n,
            "dotpath": "which-rel %d" % n,
            "upin": "block {\ndefine l: read-line\nev %d \"${l}\"\n} < ../id" % n,
            "upopen": "define f%d: open r- '../id'\ndefine l%d: f%d read-line\nf%d close\nev %d \"${l%d}\"" % (n, n, n, n, n, n),
            "upcat": "define l%d: capture (cat ../id)\nev %d (l%d head)" % (n, n, n),
            "cat": "define l%d: capture (cat id)\nev %d (l%d head)" % (n, n, n),
        }[kind]

    def source(self, ops, o):
        for op in ops:
            k = op[0]
            if k == "obs":
                o.append(self.obssrc(op[1], op[2]))
            elif k == "cd":
                s = self.cdsrc(op[1])
                o.append(s if op[2] == "plain" else "define r%d (%s)\nev %d $r%d" % (op[3], s, op[3], op[3]))
            elif k == "sethome":
                o.append("export HOME %s" % lit.q(op[1]))
            elif k == "call":
                o.append("m%d" % op[1])
            elif k == "par":
                o.append("block {")
                for b in op[1]:
                    o.append("block {")
                    self.source(b, o)
                    o.append("} &")
                o.append("block {")
                self.source(op[2], o)
                o.append("}\nwait\n}")
            else:
                n = op[2]
                a, b = {"block": ("block {", "}"), "if": ("if true {", "}"), "for": ("for (list 1 2) (method (x) {", "})"),
                        "while": ("block {\ndefine go true\nwhile $go {\nset go ()", "}\n}"), "bg": ("block {\ndefine tk: spawn {", "}\nwait $tk\n}"), "redir": ("block {", "} >> /dev/null"),
                        "capture": ("define cap%d: capture (block {" % n, "})"), "stage": ("block {", "} | cat"), "stage2": ("true | block {", "}"),
                        "guard": ("define g%d: method () {\ncatch ex {\nreturn ()\n}" % n, "}\ng%d" % n), "guardthrow": ("define g%d: method () {\ncatch ex {\nreturn ()\n}" % n, "throw done\n}\ng%d" % n),
                        "inner": ("define n%d: method (x) {" % n, "}\nn%d 1" % n), "eval": ("block {\nblock {", "}\n}")}[k]
                o.append(a)
                self.source(op[1], o)
                o.append(b)

    # --- simulation ---
    def note(self, n, v, where):
        self.where.setdefault(n, []).append((v, where))
        self.notes += 1
        if self.notes > 250:
            raise Outside

    def cd(self, frames, t):
        pwd = lookup(frames, "PWD")
        if t[0] == "abs":
            d = t[1]
        elif t[0] == "rel":
            d = os.path.join(pwd, t[1])
        elif t[0] == "up":
            d = os.path.dirname(pwd)
        elif t[0] == "upover":
            d = os.path.join(os.path.dirname(pwd), t[1])
        elif t[0] == "dot":
            d = pwd
        elif t[0] == "missing":
            return False
        elif t[0] in ("home", "tilde"):
            d = lookup(frames, "HOME")
        elif t[0] == "minus":
            d = lookup(frames, "OLDPWD")
        if not os.path.isdir(d):
            return False
        if not (d + "/").startswith(self.root + "/"):
            raise Outside
        frames[0].v["PWD"], frames[0].v["OLDPWD"] = d, pwd
        return True

    def run(self, ops, frames, where):
        for op in ops:
            k = op[0]
            if k == "obs":
                self.note(op[2], (op[1], lookup(frames, "OLDPWD" if op[1] == "oldpwd" else "PWD")), where)
            elif k == "cd":
                ok = self.cd(frames, op[1])
                if op[2] == "value":
                    self.note(op[3], ("value", "true" if ok else "()"), where)
            elif k == "sethome":
                frames[0].v["HOME"] = op[1]
            elif k == "call":
                self.run(self.methods[op[1]], [Scope(self.top)] + frames, where + "/m")
            elif k == "for":
                for _ in range(2):
                    self.run(op[1], [Scope(frames[0])] + frames, where + "/for")
            elif k == "par":
                s = Scope(frames[0])
                for b in op[1]:
                    self.run(b, [Scope(s)] + frames[1:], where + "/par")
                self.run(op[2], [Scope(s)] + frames[1:], where + "/besides")
            elif k in ("guard", "guardthrow", "inner"):
                self.run(op[1], [Scope(frames[0])] + frames, where + "/" + k)
            else:
                self.run(op[1], [Scope(frames[0])] + frames[1:], where + "/" + k)


NAMES = ["a", "b", "c1", "sp ace", "x*y", "[z]", "q'q", "\u00e9", "-d", "$v"]


def one(ctx, k):
    r = random.Random("%s/c24/%d" % (ctx.seed, k))
    top = ctx.mkdir("d")
    bin = os.path.join(top, "bin")
    os.mkdir(bin)
    probe.install(ctx, bin)
    root = os.path.join(top, "t")
    log = os.path.join(top, "events")
    dirs = {root: 0}
    names = r.sample(NAMES, 4)
    for d1 in names[:3]:
        p = os.path.join(root, d1)
        dirs[p] = len(dirs)
        for d2 in r.sample(names, r.randint(0, 3)):
            dirs[os.path.join(p, d2)] = len(dirs)
            if r.random() < 0.3:
                dirs[os.path.join(p, d2, names[0])] = len(dirs)
    for d, i in sorted(dirs.items()):
        os.makedirs(d, exist_ok=True)
    for d in {os.path.dirname(os.path.realpath(d)) for d in dirs} - {os.path.realpath(d) for d in dirs}:
        with open(os.path.join(d, "id"), "w") as f:
            f.write("none\n")
    for d, i in dirs.items():
        for n, text in (("here-%d" % i, "x"), ("id", "%d\n" % i), ("src.oh", "ev $source-id %d\n" % i),
                        ("which", "#!/bin/sh\necho \"$1 %d\" >> '%s'\n" % (i, log)), ("which-rel", "#!/bin/sh\necho \"$1 %d\" >> '%s'\n" % (i, log))):
            with open(os.path.join(d, n), "w") as f:
                f.write(text)
            if n.startswith("which"):
                os.chmod(os.path.join(d, n), 0o755)
    links = {}
    for d in r.sample(sorted(dirs), min(3, len(dirs))):
        links["ln"] = 1
        os.symlink(r.choice(sorted(dirs)), os.path.join(d, "ln"))
    home = r.choice(sorted(dirs))
    start = r.choice(sorted(dirs))
    while True:
        g = Gen(r, root, dirs, links)
        for _ in range(r.randint(0, 3)):
            g.methods.append(flat(g.ops(1, r.randint(1, 5), True), len(g.methods)))
        body = g.ops(3, r.randint(6, 14))
        g.top = Scope(None)
        env0 = Scope(None)
        env0.v.update(PWD=start, OLDPWD=start, HOME=home)
        try:
            g.run(body, [g.top, env0], "")
            break
        except Outside:
            ctx.count("programs left out that leave the tree or are too long")
    o = ["define LOG %s" % lit.q(log), "define ids (list %s)" % " ".join(str(i) for i in dirs.values()),
         "define ev: method (k v) {\nwrite-line $k $v >> $LOG\n}"]
    for i, m in enumerate(g.methods):
        o.append("define m%d: method () {" % i)
        g.source(m, o)
        o.append("}")
    g.source(body, o)
    res = ctx.script("\n".join(o) + "\n", cwd=start, name=os.path.join(top, "s.oh"),
                     env=ctx.env(PATH="nosuch:.:%s:/usr/bin:/bin" % bin, HOME=home), timeout=90)
    text = "in %s, HOME=%s\n%s" % (start, home, "\n".join(o))
    if res.crashed or res.timeout or res.rc != 0 or res.err:
        ctx.violation("oh did not run a program that changes directory: %s" % (res.crashed or ("timeout" if res.timeout else res.err[-300:])), text + "\n" + res.brief(4000))
        return
    # What was seen.
    seen = {}
    if os.path.exists(log):
        with open(log, errors="surrogateescape") as f:
            for ln in f.read().split("\n")[:-1]:
                n, _, v = ln.partition(" ")
                seen.setdefault(n, []).append(v)
    for rec in probe.read(bin):
        seen.setdefault(rec.argv[1], []).append(rec)
    marks = {}
    for d, ds, fs in os.walk(root):
        for n in fs:
            if n.startswith("mark-"):
                with open(os.path.join(d, n)) as f:
                    marks.setdefault(n[5:], []).extend([d] * f.read().count("x"))
    for n, exp in g.where.items():
        kind = exp[0][0][0]
        want = [v for (_, v), _ in exp]
        real = [os.path.realpath(v) if kind != "value" else v for v in want]
        if kind in ("out", "append", "open"):
            got, want = sorted(marks.get(str(n), [])), sorted(real)
        elif kind in ("pwd", "oldpwd", "value"):
            got = seen.get(str(n), [])
        elif kind in ("ext", "glob"):
            recs = seen.get(str(n), [])
            got = [(x.cwd, dict(e.split("=", 1) for e in x.env).get("PWD"), x.argv[2:]) for x in recs]
            want = [(a, b, ["here-%d" % dirs[a]] if kind == "glob" else []) for a, b in zip(real, want)]
        elif kind.startswith("up"):
            got, want = seen.get(str(n), []), [str(dirs.get(os.path.dirname(x), "none")) for x in real]
        else:
            got, want = seen.get(str(n), []), [str(dirs[x]) for x in real]
        if where_parallel(exp):
            got, want = sorted(got), sorted(want)
        for (_, v), where in exp:
            ctx.cover((kind, v, where), "%s in %s%s" % (kind, v, where), nontrivial=v != start)
        ctx.count("observed with " + kind, len(exp))
        ctx.count("observed while other tasks change directory", sum("/par" in w or "/besides" in w for _, w in exp))
        if got != want:
            ctx.violation("observation %d (%s, %s) used %r, expected %r" % (n, kind, exp[0][1], got, want), text + "\n" + res.brief(3000))
            return
    extra = set(seen) | set(marks)
    extra -= {str(n) for n in g.where}
    if extra:
        ctx.violation("observations %r should not have been made" % extra, text + "\n" + res.brief(3000))
        return
    ctx.count("programs")
    ctx.rmdir(top)


def where_parallel(exp):
    return any("/par" in w or "/besides" in w for _, w in exp)


def flat(ops, i):
    """ops without calls to method i or later ones."""
    o = []
    for op in ops:
        if op[0] == "call":
            if op[1] < i:
                o.append(op)
        elif op[0] == "par":
            o.append(("par", [flat(b, i) for b in op[1]], flat(op[2], i)))
        elif len(op) > 1 and isinstance(op[1], list):
            o.append((op[0], flat(op[1], i)) + op[2:])
        else:
            o.append(op)
    return o


def check(ctx):
    ctx.pmap(lambda k: one(ctx, k), range(ctx.n(300, 6000)))
