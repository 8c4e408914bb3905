"""C34: modules and import."""
import collections, os, random
import lit

RULE = ("A case is one import in a program that imports the files of a random acyclic graph, spread over directories, from its main task and from concurrent tasks, inside methods, blocks, loops, pipelines "
        "and redirections and by absolute, relative (also after cd), ~ and OHPATH paths. The files log what is evaluated of them, and their methods identify the file, count calls and throw. "
        "Non-trivial: the file was imported before, is imported concurrently, imports other files or fails; distinct by kind of file, kind of path, place and outcome.")
ASSUMPTIONS = ["no two files give the same module name; the imports of the files have no cycle", "files do not start tasks or exit while they are being evaluated",
               "a file that failed is evaluated again by the next import"]

NAMES = ["alpha", "beta", "gamma", "delta", "kappa", "omega"]


class File:
    pass


def graph(r, root, dirs):
    fs = []
    n = r.randint(4, 9)
    for i in range(n):
        f = File()
        f.i = i
        f.dir = r.choice(dirs)
        f.base = "f%d%s" % (i, r.choice([".oh", ".oh", "", "-x.mod"]))
        f.path = os.path.join(f.dir, f.base)
        f.named = r.random() < 0.6
        f.pos = r.choice(["first", "first", "middle", "last"])
        f.fail = r.choice(["no"] * 7 + ["always", "once", "syntax"])
        f.failpos = r.choice(["before", "mid", "end", "inner"])
        # What is not named must not fail once before it is known which import comes first.
        f.kids = []
        for j in range(i):
            if r.random() < 0.3 and len(f.kids) < 3:
                f.kids.append((fs[j], r.choice(["plain", "plain", "guard"]), r.choice(["abs", "abs", "home", "cd"])))
        pub = r.sample(NAMES, r.randint(1, 4))
        f.pub = pub
        f.priv = [x for x in NAMES if x not in pub][:r.randint(0, 2)]
        fs.append(f)
    return fs


def deepfail(f, kinds):
    return f.fail in kinds or any(deepfail(k, kinds) for k, _, _ in f.kids)


def source(r, f, root):
    o = ["ev b %d" % f.i]
    mod = ["module f%d-%s" % (f.i, r.choice("xyz")), "ev s %d" % f.i] if f.named else ["ev s %d" % f.i]

    def fail():
        t = "throw fail-%d" % f.i if f.failpos != "inner" else "define thrower: method () {\nblock {\nthrow fail-%d\n}\n}\nwhile true {\nthrower\n}" % f.i
        if f.fail == "once":
            t = "if (not (exists %s)) {\nwrite-line x > %s\n%s\n}" % (lit.q(root + "/flag%d" % f.i), lit.q(root + "/flag%d" % f.i), t)
        return t
    first = ["define count 0", "define own f%d" % f.i, "define shared file%d" % f.i]
    kids = []
    for k, how, p in f.kids:
        path = {"abs": lit.q(k.path), "home": "~/" + os.path.relpath(k.path, root) if " " not in k.path else lit.q(k.path), "cd": "./" + k.base}[p]
        if p == "cd":
            kids.append("cd %s" % lit.q(k.dir))
        if how == "plain":
            kids.append("define k%d: import %s" % (k.i, path))
        else:
            kids.append("define k%d ()\ndefine gk%d: method () {\ncatch ex {\nev g %d %d\nreturn ()\n}\nset k%d: import %s\n}\ngk%d" % (k.i, k.i, f.i, k.i, k.i, path, k.i))
    ms = ["export id: method () {\nreturn $own\n}",
          "export bump: method () {\nset count: add $count 1\nreturn $count\n}",
          "export boom: method (x) {\nblock {\nthrow \"boom-${x}-%d\"\n}\nreturn no\n}" % f.i,
          "export echo-rest: method ((xs)) {\nreturn $xs\n}",
          "export later: method (p) {\nreturn (import $p)\n}",
          "export seen: method () {\nreturn $shared\n}"]
    for k, how, p in f.kids:
        ms.append("export up%d: method () {\nif (null? $k%d) {\nreturn none\n} else {\nreturn (k%d id)\n}\n}" % (k.i, k.i, k.i))
        ms.append("export upbump%d: method () {\nreturn (k%d bump)\n}" % (k.i, k.i))
    for x in f.pub:
        ms.append("export %s: method () {\nreturn \"%s of %d\"\n}" % (x, x, f.i))
    for x in f.priv:
        ms.append("define %s: method () {\nreturn private\n}" % x)
    r.shuffle(ms)
    if f.pos == "first":
        o += mod + first + kids + ms
    elif f.pos == "middle":
        o += first + mod + kids + ms
    else:
        o += first + kids + ms + mod
    if f.fail in ("always", "once"):
        at = {"before": 1, "mid": len(o) // 2, "end": len(o), "inner": r.randint(1, len(o))}[f.failpos]
        o.insert(at, fail())
        f.failat = at
        f.failbefore = ("ev s %d" % f.i) not in o[:at]
    o.append("ev e %d" % f.i)
    if f.fail == "syntax":
        o.append(r.choice(["define a \"unfinished", "ev b )", "block {"]))
    f.order = []
    for s in o:
        if s.startswith("ev "):
            f.order.append(("ev", s.split()[1]))
        elif s.startswith("module "):
            f.order.append(("module",))
        elif "fail-%d" % f.i in s:
            f.order.append(("fail",))
        elif s.startswith("define k") and "import" in s:
            f.order.append(("kid", int(s[len("define k"):].split(":")[0].split(" ")[0])))
    return "\n".join(o) + "\n"


class Model:
    def __init__(self, fs):
        self.fs = fs
        self.log = collections.Counter()
        self.loaded = {}
        self.flags = set()
        self.n = 0

    def imp(self, f):
        """Import: the object and None, or None and what was thrown."""
        if f.fail == "syntax":
            return None, "syntax"
        o = {"f": f, "kids": {}, "count": 0}
        for a in f.order:
            if a[0] == "ev":
                self.log[(a[1], f.i)] += 1
            elif a[0] == "module":
                if f.i in self.loaded:
                    return self.loaded[f.i], None
            elif a[0] == "fail":
                if f.fail == "always" or f.i not in self.flags:
                    self.flags.add(f.i)
                    return None, "fail-%d" % f.i
            else:
                k, how, _ = next(x for x in f.kids if x[0].i == a[1])
                ko, ex = self.imp(k)
                if ex is not None:
                    if how == "plain":
                        return None, ex
                    self.log[("g", f.i, k.i)] += 1
                o["kids"][k.i] = ko
        if f.named:
            self.loaded[f.i] = o
        return o, None


def case(ctx, seed):
    r = random.Random(seed)
    root = ctx.mkdir()
    dirs = [root + "/a", root + "/b", root + "/a/c", root + "/lib", root + "/d e"]
    for d in dirs:
        os.mkdir(d)
    fs = graph(r, root, dirs)
    for f in fs:
        with open(f.path, "w") as h:
            t = source(r, f, root)
            h.write(t if r.random() < 0.8 or f.fail == "syntax" else t.rstrip("\n"))
    with open(root + "/bin-ev", "w") as h:
        h.write("")
    model = Model(fs)
    src = []
    expect = []
    st = dict(n=0, cwd=root)
    objs = {}
    cov = []

    def num():
        st["n"] += 1
        return st["n"]

    def path(f, cwd, quoted=True):
        k = r.choice(["abs", "abs", "home", "rel", "rel", "ohpath" if f.dir.endswith("/lib") and not os.path.exists(os.path.join(cwd, f.base)) else "rel"])
        if k == "abs":
            return k, lit.q(f.path)
        if k == "home":
            p = os.path.relpath(f.path, root)
            return k, "~/" + p if " " not in p else lit.q("../" * cwd.count("/") + f.path[1:])
        if k == "ohpath":
            return k, f.base
        p = os.path.relpath(f.path, cwd)
        return k, lit.q(p if r.random() < 0.4 and not p.startswith(".") else p if p.startswith(".") else "./" + p)

    def use(n, o):
        """Use what import n returned: methods, missing and private names, exceptions."""
        f = o["f"]
        for _ in range(r.randint(1, 4)):
            k = r.choice(["id", "pub", "priv", "missing", "boom", "boom", "rest", "up", "seen", "bump", "outer"])
            q = num()
            if k == "id":
                src.append("out %d (m%d id)" % (q, n))
                expect.append((q, "f%d" % f.i))
            elif k == "seen":
                src.append("out %d (m%d seen)" % (q, n))
                expect.append((q, "file%d" % f.i))
            elif k == "pub":
                x = r.choice(f.pub)
                src.append("out %d (m%d %s)" % (q, n, x))
                expect.append((q, "%s of %d" % (x, f.i)))
            elif k == "rest":
                src.append("out %d (m%d echo-rest 1 b 'c d')" % (q, n))
                expect.append((q, "1 b c d"))
            elif k == "up" and f.kids:
                kk = r.choice(f.kids)[0]
                src.append("out %d (m%d up%d)" % (q, n, kk.i))
                expect.append((q, "f%d" % kk.i if o["kids"][kk.i] else "none"))
            elif k in ("priv", "missing"):
                x = r.choice((f.priv or ["nosuch"]) if k == "priv" else [x for x in NAMES if x not in f.pub] + ["own", "count", "shared", "nosuch", "path", "k0", "module-name", "modules", "load"])
                src.append("define g%d: method () {\ncatch ex {\nout %d threw\nreturn ()\n}\nout %d (m%d %s)\n}\ng%d" % (q, q, q, n, x, q))
                expect.append((q, "threw"))
            elif k == "boom":
                src.append("define g%d: method () {\ncatch ex {\nout %d $ex\nreturn ()\n}\nm%d boom %d\nout %d not-reached\n}\ng%d" % (q, q, n, q, q, q))
                expect.append((q, "boom-%d-%d" % (q, f.i)))
                cov.append("boom-after-import")
            elif k == "bump":
                src.append("out %d (m%d bump)" % (q, n))
                o["count"] += 1
                expect.append((q, str(o["count"])))
            elif k == "outer":
                x = r.choice(f.pub + f.priv + ["own", "count", "id", "bump", "k0"])
                src.append("out %d (defined %s)" % (q, x))
                expect.append((q, "no"))

    def one(f, cwd, ctxt):
        n = num()
        kind, p = path(f, cwd)
        known = f.i in model.loaded
        o, ex = model.imp(f)
        cov.append(("import", f.named, f.pos, f.fail, len(f.kids), kind, ctxt, known, ex is not None, ex not in (None, "fail-%d" % f.i)))
        g = "define m%d ()\ndefine g%d: method () {\ncatch ex {\n%s\nreturn ()\n}\nset m%d: import %s\nout %d imported\n}\n" % (
            n, n, "out %d $ex" % n if ex != "syntax" else "out %d syntax" % n, n, p, n)
        call = {"plain": "g%d", "block": "block {\ng%d\n}", "if": "if true {\ng%d\n}", "for": "for (list 1) (method (x) {\ng%d\n})", "redir": "block {\ng%d\n} >> /dev/null",
                "stage": "true | block {\ng%d\n}", "left": "block {\ng%d\n} | cat", "capture": "define c%d: capture (block {\ng%%d\n})" % n, "task": "define t%d: spawn {\ng%%d\n}\nwait $t%d" % (n, n),
                "nested": "define h%d: method () {\ndefine hh: method (x) {\ng%%d\n}\nhh 1\n}\nh%d" % (n, n)}[ctxt]
        src.append(g + call % n)
        expect.append((n, "imported" if ex is None else ex))
        if o is not None:
            objs.setdefault(f.i, []).append((n, o))
            use(n, o)

    CTX = ["plain", "plain", "block", "if", "for", "redir", "stage", "left", "capture", "task", "nested"]

    def later(f):
        """A method of an imported file imports another one."""
        have = [x for v in objs.values() for x in v]
        if not have:
            return
        n0, o0 = r.choice(have)
        n = num()
        o, ex = model.imp(f)
        src.append("define m%d ()\ndefine g%d: method () {\ncatch ex {\n%s\nreturn ()\n}\nset m%d: m%d later %s\nout %d imported\n}\ng%d" % (
            n, n, "out %d $ex" % n if ex != "syntax" else "out %d syntax" % n, n, n0, lit.q(f.path), n, n))
        expect.append((n, "imported" if ex is None else ex))
        cov.append(("later", f.named, f.fail, ex is not None))
        if o is not None:
            objs.setdefault(f.i, []).append((n, o))
            use(n, o)

    def missing():
        n = num()
        src.append("define g%d: method () {\ncatch ex {\nout %d threw\nreturn ()\n}\nimport %s\nout %d imported\n}\ng%d" % (n, n, r.choice([lit.q(root + "/nosuch"), "./nosuch.oh", lit.q(root), "''"]), n, n))
        expect.append((n, "threw"))
        cov.append(("missing",))

    def par():
        """Tasks that import at the same time."""
        # A file that fails only once may do that in any one of them: only count those.
        ok = [f for f in fs if not deepfail(f, ("once",))]
        once = [f for f in fs if f.fail == "once" and not any(deepfail(k, ("once", "always", "syntax")) for k, _, _ in f.kids) and f.i not in model.flags]
        started = []
        tally = {}
        base = list(src)
        src.clear()
        hot = r.sample(ok, min(len(ok), r.randint(1, 3))) if ok else []
        if once and r.random() < 0.5:
            hot.append(r.choice(once))
        if not hot:
            src.extend(base)
            return
        jobs = []
        for t in range(r.randint(2, 8)):
            body = []
            cwd = r.choice(dirs)
            if r.random() < 0.6:
                body.append("cd %s" % lit.q(cwd))
            else:
                cwd = st["cwd"]
            for _ in range(r.randint(1, 4)):
                f = r.choice(hot)
                n = num()
                kind, p = path(f, cwd)
                o, ex = model.imp(f)
                cov.append(("par", f.named, f.pos, f.fail, len(f.kids), kind, ex is not None))
                src.append("define m%d ()" % n)
                body.append("define g%d: method () {\ncatch ex {\n%s\nreturn ()\n}\nset m%d: import %s\nout %d imported\n}\ng%d" % (
                    n, "out %d $ex" % n if ex != "syntax" else "out %d syntax" % n, n, p, n, n))
                tally.setdefault(f.i, []).append((n, o, "imported" if ex is None else ex))
                if r.random() < 0.5:
                    q = num()
                    body.append("if (not (null? $m%d)) {\nout %d (m%d id)\n}" % (n, q, n))
                    tally[f.i][-1] += (q,)
            jobs.append(body)
        main = None
        if r.random() < 0.5 and len(jobs) > 2:
            main = jobs.pop()
        for b in jobs:
            src.append("spawn {\n%s\n}" % "\n".join(b))
        if main:
            src.append("block {\n%s\n}" % "\n".join(main))
        src.append("wait")
        new = list(src)
        src.clear()
        src.extend(base + new)
        for i, lst in tally.items():
            expect.append(("tally", i, [x[0] for x in lst], sorted(x[2] for x in lst)))
            for x in lst:
                if len(x) > 3:
                    expect.append(("ifimported", x[0], x[3], "f%d" % i))
            if fs[i].fail == "once":
                # Which of them failed is not known, and those cannot be used further.
                continue
            for x in lst:
                if x[1] is not None:
                    objs.setdefault(i, []).append((x[0], x[1]))
                    if r.random() < 0.6:
                        use(x[0], x[1])

    for _ in range(r.randint(4, 12)):
        k = r.random()
        f = r.choice(fs)
        if k < 0.55:
            one(f, st["cwd"], r.choice(CTX))
        elif k < 0.65:
            st["cwd"] = r.choice(dirs + [root])
            src.append("cd %s" % lit.q(st["cwd"]))
        elif k < 0.72:
            missing()
        elif k < 0.82:
            later(f)
        else:
            par()
        if r.random() < 0.3:
            q = num()
            src.append('out %d "${PWD}"' % q)
            expect.append((q, st["cwd"]))
        have = [x for v in objs.values() for x in v]
        if have and r.random() < 0.5:
            use(*r.choice(have))
    # Which of the objects are the same one.
    have = [x for v in objs.values() for x in v]
    r.shuffle(have)
    for n, o in have[:12]:
        for _ in range(2):
            q = num()
            o["count"] += 1
            src.append("out %d (m%d bump)" % (q, n))
            expect.append((q, str(o["count"])))
        for ki, ko in o["kids"].items():
            if ko is not None:
                q = num()
                ko["count"] += 1
                src.append("out %d (m%d upbump%d)" % (q, n, ki))
                expect.append((q, str(ko["count"])))
    q = num()
    src.append("out %d $shared" % q)
    expect.append((q, "main"))
    head = ["define shared main", "define syn-env: syntax () e {\nreturn $e\n}", "define E: syn-env",
            "define defined: method (name) {\nif (E set? $name) {\nreturn yes\n} else {\nreturn no\n}\n}" if False else
            "define defined: syntax (name) e {\nif (e resolves? $name) {\nreturn yes\n} else {\nreturn no\n}\n}",
            "define out: method (n v) {\nwrite-line \"${n} ${v}\" >> %s\n}" % lit.q(root + "/out")]
    # Files that export nothing, or have no text at all.
    for _ in range(r.randint(1, 3)):
        q = num()
        priv = r.choice(NAMES)
        t = r.choice(["", "# nothing\n", "define %s: method () {\nreturn private\n}\n" % priv, "module bare%d\ndefine %s: method () {\nreturn private\n}" % (q, priv),
                      "define own: object {\nexport %s: method () {\nreturn private\n}\n}\n" % priv, "export %s 3\nunset %s" % (priv, priv)])
        with open(root + "/bare%d" % q, "w") as h:
            h.write(t)
        src.append("define b%d: import %s/bare%d" % (q, root, q))
        for x in [priv, "own", "write-line", "list", "import", "get", "source", "shared", "out"]:
            n = num()
            src.append("define g%d: method () {\ncatch ex {\nout %d threw\nreturn ()\n}\nb%d %s\nout %d reached\n}\ng%d" % (n, n, q, x, n, n))
            expect.append((n, "threw"))
        cov.append(("bare", t[:6]))
    # Logging within the files is by a method that every scope sees.
    text = "\n".join(head + src + ["out end end"]) + "\n"
    return r, root, fs, model, expect, text, cov


def evbin(root):
    os.mkdir(root + "/bin")
    p = root + "/bin/ev"
    with open(p, "w") as f:
        f.write("#!/bin/sh\necho \"$*\" >> %s/events\n" % root)
    os.chmod(p, 0o755)


def check(ctx):
    def one(i):
        seed = "%s/34/%d" % (ctx.seed, i)
        r, root, fs, model, expect, text, cov = case(ctx, seed)
        evbin(root)
        env = ctx.env(HOME=root, PATH=root + "/bin:/usr/bin:/bin", OHPATH=root + "/nosuch:" + root + "/lib")
        res = ctx.script(text, cwd=root, env=env, timeout=60, name="main.oh")
        bad = None
        if res.timeout:
            bad = "the program does not end (states %s)" % res.states
        elif res.crashed:
            bad = "fault: " + res.crashed
        else:
            got = collections.defaultdict(list)
            try:
                for line in open(root + "/out", errors="replace"):
                    n, _, v = line.rstrip("\n").partition(" ")
                    got[n].append(v)
            except OSError:
                pass
            if got.get("end") != ["end"]:
                bad = "the program stopped early: %s" % res.brief()
            for e in expect:
                if bad:
                    break
                if e[0] == "tally":
                    v = sorted(x for n in e[2] for x in got.get(str(n), []))
                    if v != e[3]:
                        bad = "concurrent imports of f%d: %r, expected %r" % (e[1], v, e[3])
                elif e[0] == "ifimported":
                    if got.get(str(e[1])) == ["imported"] and got.get(str(e[2])) != [e[3]]:
                        bad = "import %d gave %r, expected %r" % (e[2], got.get(str(e[2])), [e[3]])
                elif got.get(str(e[0])) != [e[1]]:
                    bad = "step %d: got %r, expected %r" % (e[0], got.get(str(e[0])), [e[1]])
            if not bad:
                log = collections.Counter()
                try:
                    for line in open(root + "/events"):
                        v = line.split()
                        log[(v[0],) + tuple(int(x) for x in v[1:])] += 1
                except OSError:
                    pass
                want = collections.Counter({k: v for k, v in model.log.items() if v})
                if log != want:
                    bad = "what was evaluated of the files (b: reached, s: past module, e: end, g: failed in): %r, expected %r" % (dict(log - want), dict(want - log))
                ctx.count("file evaluations observed", sum(log.values()))
        for c in cov:
            ctx.cover(c)
        ctx.count("steps compared", len(expect))
        ctx.count("concurrent imports", sum(1 for c in cov if c[0] == "par"))
        ctx.count("imports of a module already loaded", sum(1 for c in cov if c[0] == "import" and c[7]))
        if bad:
            files = "\n".join("--- %s\n%s" % (f.path, open(f.path).read()) for f in fs)
            ctx.violation(bad, "case %s\n%s\n%s\n--- main\n%s\n%s" % (seed, bad, files, text, res.brief(3000)))
        elif i < 3:
            with ctx.lock:
                if len(ctx.samples) < 5:
                    ctx.samples.append(text[:1500])
        ctx.rmdir(root)
    ctx.pmap(one, range(ctx.n(170, 6000)))
