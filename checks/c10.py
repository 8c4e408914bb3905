"""C10: objects and maps."""
import os, random
import lit, model
from model import NIL

RULE = ("A case is one use of an object (a public, private, missing or inherited name, a value that cannot be called) or one operation on a map. Random class-like definitions are evaluated repeatedly, by methods, loops and "
        "nested objects, and used in random order; events are compared with a reference interpreter. Maps are driven by random sequences of operations from one or more tasks and compared with dictionaries. "
        "Non-trivial: the object or map has been changed before, or the name is not a public member; distinct by kind of use and what was logged.")
ASSUMPTIONS = ["a symbol and a string with the same text are not both used as keys of one map"]

PUB = ["get", "put", "inc", "peek", "swap", "tell", "both"]
ODD = ["set", "define", "export", "eval", "list", "has", "unset", "resolve", "method", "self", "return", "write-line", "if", "nosuch", "import", "throw", "children", "public", "private"]


class Gen:
    def __init__(self, r):
        self.r, self.n, self.tag = r, 0, 0
        self.classes = []
        self.objs = []

    def num(self):
        self.n += 1
        return self.n

    def t(self):
        self.tag += 1
        return self.tag

    def guard(self, body, onerr):
        g = "g%d" % self.num()
        return ("block", [("method", g, [], None, [("catch", "ex", [onerr, ("return", ("k", NIL))])] + body + [("return", ("k", NIL))]), ("do", ("app", ("n", g), []))])

    def klass(self, depth=1):
        """The body of an object: private and public state and methods, and what they are."""
        r = self.r
        st = r.sample(["p", "q", "s"], r.randint(1, 3))
        b = []
        vals = {}
        for x in st:
            how = "export" if r.random() < 0.3 else "define"
            vals[x] = how
            b.append((how, x, r.choice([("k", self.num()), ("v", "init")]), r.choice(["", "colon"])))
        members = {}
        pm = "helper%d" % self.num()
        if r.random() < 0.6:
            b.append(("method", pm, ["v"], None, [("return", ("add", ("v", "v"), ("v", st[0])))]))
        else:
            pm = None
        for m in r.sample(PUB, r.randint(2, 5)):
            x = r.choice(st)
            if m == "get":
                body, n = [("return", ("v", x))], 0
            elif m == "put":
                body, n = [("set", x, ("v", "v"))], 1
            elif m == "inc":
                body, n = [("set", x, ("add", ("v", x), ("v", "v")))], 1
            elif m == "peek":
                body, n = [("return", ("list", [("v", y) for y in st]))], 0
            elif m == "swap":
                body, n = [("define", "old", ("v", x)), ("set", x, ("v", "v")), ("return", ("v", "old"))], 1
            elif m == "tell":
                body, n = ([("return", ("app", ("n", pm), [("v", "v")]))], 1) if pm else ([("return", ("add", ("v", "v"), ("v", st[0])))], 1)
            else:
                body, n = [("define", x, ("v", "v")), ("ev", self.t(), [("v", x)]), ("return", ("v", x))], 1
            members[m] = n
            b.append(("method", m, ["v"] * n, None, body, "export"))
        if r.random() < 0.3:
            m0 = r.choice(sorted(members))
            b.append(("method", "via-self", ["v"] * members[m0], None, [("return", ("mem", ("v", "me"), m0, [("v", "v")] * members[m0]))], "export", "me"))
            members["via-self"] = members[m0]
        if r.random() < 0.2:
            b.append(("method", "fail", ["v"], None, [("set", st[0], ("v", "v")), ("throw", ("interp", ["failed-", ("v",)])), ("return", ("k", 1))], "export"))
            members["fail"] = 1
        if depth and r.random() < 0.35:
            ib, im, iv, ip = self.klass(0)
            b.append(("define", "part", ("object", [("define", "init", ("k", self.num()))] + ib), r.choice(["", "colon"])))
            for m in sorted(im)[:2]:
                b.append(("method", "part-" + m, ["v"] * im[m], None, [("return", ("mem", ("v", "part"), m, [("v", "v")] * im[m]))], "export"))
                members["part-" + m] = im[m]
        r.shuffle(b) if False else None
        return b, members, vals, pm

    def use(self, o, c):
        """One use of the object that expression o is."""
        r = self.r
        b, members, vals, pm = c
        k = r.random()
        if k < 0.68:
            m = r.choice(sorted(members))
            a = [r.choice([("k", self.num()), ("k", self.num()), ("add", ("k", self.num()), ("k", 1))]) for _ in range(members[m])]
            if r.random() < 0.04:
                a = a + [("k", 1)] if r.random() < 0.5 else a[:-1]
        else:
            pool = [x for x in vals] + [x for x in PUB if x not in members] + ODD + ([pm] * 3 if pm else []) + ["part", "init", "old", "v", "outer", "mk", "log"]
            m, a = r.choice(pool), [("k", 1)] * r.randint(0, 1)
        return self.guard([("ev", self.t(), [("mem", o, m, a)])], ("ev", self.t(), [("k", "error"), ("v", "ex")]))

    def program(self):
        r = self.r
        o = [("define", "outer", ("k", 1)), ("define", "mk", ("k", 2))]
        live = []
        for _ in range(r.randint(1, 3)):
            c = self.klass()
            q = self.num()
            how = r.choice(["method", "method", "for", "while", "plain", "list"])
            if how == "method":
                o.append(("method", "make%d" % q, ["init"], None, [("return", ("object", c[0]))] if r.random() < 0.5 else [("do", ("object", c[0]))]))
                for j in range(r.randint(2, 3)):
                    o.append(("define", "o%d-%d" % (q, j), ("app", ("n", "make%d" % q), [("k", 1000 * (j + 1))])))
                    live.append((("v", "o%d-%d" % (q, j)), c))
            elif how == "for":
                o.append(("define", "l%d" % q, ("for", ("list", [("k", 1000), ("k", 2000)]), ("lam", ["init"], None, [("return", ("object", c[0]))]))))
                live += [(("head", ("v", "l%d" % q)), c), (("head", ("tail", ("v", "l%d" % q))), c)]
            elif how == "while":
                # The same code is evaluated again and again, and each time it is used the same way.
                uses = [self.use(("v", "w"), c) for _ in range(r.randint(2, 6))]
                o += [("define", "i%d" % q, ("k", 0)), ("while", ("lt", ("v", "i%d" % q), ("k", r.choice([2, 3, 8]))), [
                    ("set", "i%d" % q, ("add", ("v", "i%d" % q), ("k", 1))), ("define", "init", ("k", 7)), ("define", "w", ("object", c[0]))] + uses)]
            elif how == "list":
                o.append(("define", "init", ("k", 5)))
                o.append(("define", "l%d" % q, ("list", [("object", c[0]), ("object", c[0])])))
                live += [(("head", ("v", "l%d" % q)), c), (("head", ("tail", ("v", "l%d" % q))), c)]
            else:
                o.append(("define", "init", ("k", 5)))
                o.append(("define", "o%d" % q, ("object", c[0]), r.choice(["", "colon"])))
                live.append((("v", "o%d" % q), c))
                if r.random() < 0.5:
                    o.append(("define", "alias%d" % q, ("v", "o%d" % q)))
                    live.append((("v", "alias%d" % q), c))
        for _ in range(r.randint(8, 25) if live else 0):
            e, c = r.choice(live)
            u = self.use(e, c)
            k = r.random()
            if k < 0.1:
                u = ("task", [u])
            elif k < 0.2:
                n = "u%d" % self.num()
                u = ("block", [("method", n, ["p", "q"], None, [u]), ("do", ("app", ("n", n), [("k", 70), ("k", 71)]))])
            o.append(u)
        return o


# --- maps ----------------------------------------------------------------
KEYS = (["k%d" % i for i in range(6)] + ["get", "set", "has", "del", "self", "return", "define", "export", "unset", "write-line", "values", "k", "v"],
        ["a b", "", " ", "x=y", "a/b", "*", "(a)", "it's", "é", "\n", "$x", "~", "a:", "#", "=k0", "get ", "1", "日本", "{", "k0 "],
        ["0", "7", "-3", "1/2", "10000000000000000000001"],
        ["(list a b)", "(list a)", "(list 'a b')", "(list)", "(list (list a) b)", "(cons a b)"])


def mapcase(ctx, seed):
    r = random.Random(seed)
    keys = []
    for i, pool in enumerate(KEYS):
        for x in r.sample(pool, r.randint(1, min(len(pool), [6, 5, 2, 2][i]))):
            keys.append((i, x) if i else (0, x))
    keys = [k for k in keys if not (k[0] == 2 and any(j[1] == k[1] and j[0] != 2 for j in keys)) and not (k[0] == 1 and any(j[1] == k[1] and j[0] == 2 for j in keys))]

    def key(k):
        if k[0] == 0:
            return k[1]
        if k[0] == 1:
            return lit.q(k[1])
        return k[1]
    nm = r.randint(1, 3)
    maps = [dict() for _ in range(nm)]
    src = ["define m%d: map" % i for i in range(nm)]
    want = []
    kinds = set()
    tag = [0]

    def op(i, d, k, out, want, p):
        c = r.random()
        tag[0] += 1
        t = tag[0]
        ks = key(k)
        if r.random() < 0.25:
            out.append("define key%d %s" % (t, ks))
            ks = "$key%d" % t
        if c < 0.4:
            v = t
            vs = r.choice(["%d" % v, "v%d" % v, "'s %d'" % v, "()", "(list %d 1)" % v] if r.random() < 0.5 else ["%d" % v])
            shown = {"()": "()", "'s %d'" % v: "s %d" % v, "(list %d 1)" % v: "%d 1" % v}.get(vs, vs)
            out.append("%s set %s %s" % (p, ks, vs))
            kinds.add(("set", k[0], k in d, k[1] if k[1] in KEYS[0] else ""))
            d[k] = shown
        elif c < 0.6:
            kinds.add(("get", k[0], k in d))
            out.append("define g%d: method () {\ncatch ex {\nout %d missing\nreturn ()\n}\ndefine v: %s get %s\nout %d $v\n}\ng%d" % (t, t, p, ks, t, t))
            want.append("%d %s" % (t, d.get(k, "missing")))
        elif c < 0.8:
            kinds.add(("has", k[0], k in d))
            out.append("if (%s has %s) {\nout %d yes\n} else {\nout %d no\n}" % (p, ks, t, t))
            want.append("%d %s" % (t, "yes" if k in d else "no"))
        else:
            kinds.add(("del", k[0], k in d, k[1] if k[1] in KEYS[0] else ""))
            out.append("%s del %s" % (p, ks))
            d.pop(k, None)
    blocks = []
    for _ in range(r.randint(10, 60)):
        i = r.randrange(nm)
        if r.random() < 0.93:
            op(i, maps[i], r.choice(keys), src, want, "m%d" % i)
        else:
            # Tasks that each have keys of their own.
            tasks = []
            ws = []
            ks = list(keys)
            r.shuffle(ks)
            n = r.randint(2, 5)
            for j in range(n):
                o, w = [], []
                mine = ks[j::n]
                for _ in range(r.randint(3, 12)):
                    if mine:
                        op(i, maps[i], r.choice(mine), o, w, "m%d" % i)
                tasks.append("spawn {\n%s\n}" % "\n".join(o or ["true"]))
                ws.append(w)
            src.extend(tasks)
            src.append("wait")
            want.append(ws)
            kinds.add(("tasks", n))
    for i, d in enumerate(maps):
        for k in keys:
            tag[0] += 1
            src.append("if (m%d has %s) {\ndefine v: m%d get %s\nout %d $v\n} else {\nout %d none\n}" % (i, key(k), i, key(k), tag[0], tag[0]))
            want.append("%d %s" % (tag[0], d.get(k, "none")))
    head = ["define log: open w log", "define out: method (n v) {\nlog write-line \"${n} ${v}\"\n}"]
    return "\n".join(head + src + ["out end end"]) + "\n", want, kinds, tag[0]


def maps(ctx, i):
    seed = "%s/10m/%d" % (ctx.seed, i)
    src, want, kinds, n = mapcase(ctx, seed)
    root = ctx.mkdir()
    r = ctx.script(src, cwd=root, timeout=30)
    bad = None
    if r.timeout or r.crashed:
        bad = "does not end or faults: " + str(r.crashed)
    else:
        try:
            got = open(root + "/log", errors="surrogateescape").read().split("\n")[:-1]
        except OSError:
            got = []
        j = 0
        for w in want + ["end end"]:
            if isinstance(w, str):
                if got[j:j + 1] != [w]:
                    bad = "got %r, expected %r" % (got[j:j + 2], w)
                    break
                j += 1
            else:
                m = sum(len(x) for x in w)
                part = got[j:j + m]
                j += m
                ids = [{x.split()[0] for x in l} for l in w]
                for l, s in zip(w, ids):
                    g = [x for x in part if x.split(" ")[0] in s]
                    if g != l:
                        bad = "a task got %r, expected %r" % (g, l)
                        break
                if bad:
                    break
    for k in kinds:
        ctx.cover(k)
    ctx.count("map operations", n)
    if bad:
        ctx.violation(bad, "case %s\n%s\n%s\n%s" % (seed, bad, src, r.brief(2000)))
    ctx.rmdir(root)


def objects(ctx, i):
    seed = "%s/10o/%d" % (ctx.seed, i)
    r = random.Random(seed)
    for attempt in range(30):
        body = Gen(r).program()
        root = ctx.mkdir()
        res = model.compare(ctx, body, root, limit=60000)
        ctx.rmdir(root)
        if res is not None:
            break
        ctx.count("programs discarded")
    else:
        return
    m, bad, text, rr = res
    for l in m.log:
        ctx.cover(tuple(l.split()[:2]))
    ctx.count("object programs")
    ctx.count("events compared", len(m.log))
    for k, v in m.counts.items():
        ctx.count(k, v)
    if i < 2:
        ctx.cover(n=0, sample=text[:1500])
    if bad:
        ctx.violation(bad, "case %s\n%s\n%s\n%s\nexpected:\n%s" % (seed, bad, text, rr.brief(2000), "\n".join(m.log[:200])))


def check(ctx):
    ctx.pmap(lambda i: objects(ctx, i), range(ctx.n(1200, 20000)))
    ctx.pmap(lambda i: maps(ctx, i), range(ctx.n(300, 10000)))
