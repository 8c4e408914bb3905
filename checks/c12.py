"""C12: return and saved continuations."""
import random
import model
from model import NIL

RULE = ("A case is one event logged by a random program that returns from within nested blocks, branches and loops, and that saves the continuations of its methods, at all the places a call can be (arguments, conditions, definitions, "
        "loops, members of objects, handlers, redirections), and calls them later, from elsewhere and again. A reference interpreter with first-class continuations runs the same program, and the events, with the variables and the collected arguments they show, are compared. "
        "Non-trivial: a saved continuation was called before, after its method had returned or for the second time; distinct by event.")
ASSUMPTIONS = ["a continuation saved in a redirection is not called after the redirection has ended", "a continuation saved by a method for calls is not called after the call of it has returned", "only the task that saved a continuation calls it"]

KS = ["k0", "k1", "k2", "k3"]


class Gen:
    def __init__(self, r):
        self.r, self.n, self.tag, self.wrapped, self.infor = r, 0, 0, 0, 0
        self.savers, self.plain = [], []

    def num(self):
        self.n += 1
        return self.n

    def t(self):
        self.tag += 1
        return self.tag

    def ev(self, *a):
        return ("ev", self.t(), list(a))

    def vars(self):
        return self.r.sample([("v", "a"), ("v", "b"), ("v", "p")], self.r.randint(1, 3))

    def again(self, k=None):
        """Call a saved continuation, if there is one, as long as there is fuel."""
        r = self.r
        k = k or r.choice(KS)
        val = r.choice([[("k", self.num())], [("k", self.num())], [("add", ("v", "fuel"), ("k", 1000))], [("list", [("v", "a"), ("k", self.num())])], [("k", NIL)], []])
        call = r.choice([("do", ("app", ("n", k), val)), ("do", ("app", ("v", k), val)), ("ev", self.t(), [("v", "a"), ("app", ("n", k), val), ("v", "b")]), ("define", "u", ("app", ("n", k), val)),
                         ("if", ("app", ("n", k), val), [self.ev(("k", "not-here"))], None)])
        return ("if", ("iscont", ("v", k)), [("if", ("lt", ("v", "fuel"), ("k", self.limit)), [("set", "fuel", ("add", ("v", "fuel"), ("k", 1))), call, self.ev(("k", "not-here"))], None)], None)

    def call(self):
        """An expression that calls a method."""
        r = self.r
        ms = self.plain if self.wrapped or self.infor or r.random() < 0.2 else self.savers + self.plain
        if not ms:
            return ("k", self.num())
        kind, name = r.choice(ms)
        arg = ("k", self.num()) if r.random() < 0.75 else self.call()
        if kind == "object":
            return ("mem", ("v", name), "run", [arg])
        return ("app", ("n", name) if r.random() < 0.8 else ("v", name), [arg])

    def use(self):
        """A call somewhere."""
        r = self.r
        k = r.choice(["args", "args", "define", "set", "if", "while", "list", "add", "alone", "last", "nested", "for", "splice", "interp"])
        c = self.call()
        if k == "args":
            a = [r.choice([("v", "a"), ("v", "b"), ("k", self.num()), ("app", ("n", "bump"), [])]) for _ in range(r.randint(1, 3))]
            a.insert(r.randint(0, len(a)), c)
            if r.random() < 0.3:
                a.insert(r.randint(0, len(a)), self.call())
            return [self.ev(*a)]
        if k == "define":
            return [("define", "a", c, r.choice(["", "colon"])), self.ev(("v", "a"), ("v", "b"))]
        if k == "set":
            return [("set", r.choice(["a", "b"]), c), self.ev(("v", "a"), ("v", "b"))]
        if k == "if":
            return [("if", c, [self.ev(("k", "yes"), ("v", "a"))], [self.ev(("k", "no"), ("v", "a"))]), self.ev(("v", "b"))]
        if k == "while":
            w = "w%d" % self.num()
            return [("define", w, ("k", 0)), ("while", ("lt", ("app", ("n", "first"), [("v", w), c]), ("k", r.randint(1, 3))), [("set", w, ("add", ("v", w), ("k", 1))), self.ev(("v", w), ("v", "a"))] + self.body(0, 1)), self.ev(("v", w))]
        if k == "list":
            return [("define", "b", ("list", [("v", "a"), c, ("app", ("n", "bump"), [])])), self.ev(("v", "b"))]
        if k == "add":
            return [("set", "a", ("app", ("n", "first"), [("add", ("v", "fuel"), ("k", 1)), c])), self.ev(("v", "a"))]
        if k == "last":
            return [("block", [self.ev(("v", "a")), ("do", c)]) if c[0] != "k" else self.ev(("v", "a"))]
        if k == "nested":
            return [("block", [("define", "a", ("k", self.num())), self.ev(("v", "a"), c), ("set", "a", ("k", self.num()))]), self.ev(("v", "a"))]
        if k == "splice":
            return [self.ev(("splice", ("list", [("v", "a"), c, ("v", "b")])), ("v", "a"))]
        if k == "interp":
            return [("define", "s", c), self.ev(("interp", ["got ", ("s",), " and ", ("fuel",)]))]
        if k == "for":
            self.infor += 1
            b = self.body(1, r.randint(1, 3))
            b.append(self.ev(("v", "a"), self.call()))
            self.infor -= 1
            return [("for", ("list", [("k", self.num()) for _ in range(3)]), ("lam", ["a"], None, b))]
        return [("do", c) if c[0] != "k" else self.ev(("v", "a"))]

    def body(self, depth, n):
        known = list(self.savers), list(self.plain)
        try:
            return self.body1(depth, n)
        finally:
            self.savers, self.plain = known

    def body1(self, depth, n):
        r = self.r
        o = []
        for _ in range(n):
            k = r.random()
            if k < 0.12:
                o.append(self.ev(*self.vars()))
            elif k < 0.2:
                o.append(("set", r.choice(["a", "b"]), ("k", self.num())))
            elif k < 0.25:
                o.append(("define", r.choice(["a", "b"]), ("k", self.num())))
            elif k < 0.3:
                o.append(("say", self.t(), [("v", "a")]))
            elif k < 0.42:
                o.append(self.again())
            elif k < 0.62 or depth <= 0:
                o += self.use()
            elif k < 0.70:
                o.append(self.maybe_return(depth))
            else:
                o += self.inside(depth)
        return o

    def maybe_return(self, depth):
        """A return from some depth, taken or not."""
        r = self.r
        c = [self.ev(*self.vars()), ("return", self.value()), self.ev(("k", "not-here"))]
        for _ in range(r.randint(0, 4)):
            k = r.choice(["block", "if", "else", "while", "interm"])
            if k == "block":
                c = [("block", [("define", "a", ("k", self.num()))] + c), self.ev(("v", "b"))]
            elif k == "if":
                c = [("if", ("lt", ("v", "fuel"), ("k", r.randint(-1, self.limit + 1))), c, [self.ev(("k", "else"))])]
            elif k == "else":
                c = [("if", ("lt", ("v", "fuel"), ("k", r.randint(0, 2))), [self.ev(("k", "then"))], c)]
            elif k == "while":
                w = "w%d" % self.num()
                c = [("define", w, ("k", 0)), ("while", ("lt", ("v", w), ("k", 3)), [("set", w, ("add", ("v", w), ("k", 1))), ("if", ("eq", ("v", w), ("k", r.randint(1, 4))), c, None), self.ev(("v", w))])]
            else:
                c = [("ev", self.t(), [("v", "a"), ("block", c), ("v", "b")])] if r.random() < 0.5 else c
        return ("if", ("lt", ("v", "fuel"), ("k", r.randint(0, self.limit))), c, None) if r.random() < 0.7 else ("block", c)

    def value(self):
        r = self.r
        return r.choice([("k", self.num()), ("v", "a"), ("v", "p"), ("list", [("v", "p"), ("v", "b")]), ("k", NIL), self.call()])

    def inside(self, depth):
        r = self.r
        k = r.choice(["block", "block", "if", "while", "method", "method", "redir", "redir", "task", "guard", "gen", "carry"])
        if k == "block":
            return [("block", [("define", "a", ("k", self.num()))] + self.body(depth - 1, r.randint(1, 4))), self.ev(("v", "a"))]
        if k == "if":
            return [("if", r.choice([("lt", ("v", "fuel"), ("k", r.randint(0, self.limit))), self.call()]), self.body(depth - 1, r.randint(1, 3)), self.body(depth - 1, r.randint(1, 3)))]
        if k == "while":
            w = "w%d" % self.num()
            return [("define", w, ("k", 0)), ("while", ("lt", ("v", w), ("k", r.randint(1, 3))), [("set", w, ("add", ("v", w), ("k", 1)))] + self.body(depth - 1, r.randint(1, 3)))]
        if k == "method":
            return self.method(depth)
        if k == "redir":
            self.wrapped += 1
            o = [("wrap", "redir", self.plainbody(r.randint(1, 4)), "f%d" % r.randint(1, 2)), ("say", self.t(), [("v", "a"), ("v", "b")])]
            self.wrapped -= 1
            return o
        if k == "task":
            # A task of its own saves and calls a continuation of its own.
            s, m = "t%d" % self.num(), "tm%d" % self.num()
            self.wrapped += 1
            o = [("task", [("define", s, ("k", NIL)), ("define", "n", ("k", 0)), ("method", m, ["p"], None, [("set", s, ("v", "return")), ("return", ("v", "p"))]),
                           self.ev(("app", ("n", "bump"), []), ("app", ("n", m), [("k", self.num())]), ("v", "n")),
                           ("if", ("lt", ("v", "n"), ("k", r.randint(1, 4))), [("set", "n", ("add", ("v", "n"), ("k", 1))), ("do", ("app", ("n", s), [("k", self.num())]))], None), self.ev(("k", "task-end"))])]
            self.wrapped -= 1
            return o
        if k == "guard":
            # A handler, and what it returns from; calls of continuations go past it.
            g = "g%d" % self.num()
            b = [("catch", "ex", [self.ev(("k", "handler"), ("v", "ex"), ("v", "a")), self.again(), ("return", ("k", self.num()))])]
            b += self.body(depth - 1, r.randint(1, 3))
            b.append(("if", ("lt", ("v", "fuel"), ("k", r.randint(0, self.limit))), [("throw", ("k", "x%d" % self.num()))], None))
            b.append(("return", ("k", self.num())))
            return [("block", [("define", "p", ("k", self.num())), ("method", g, [], None, b), self.ev(("app", ("n", g), []))])]
        if k == "gen":
            # Two continuations that are called by turns.
            s, m = "t%d" % self.num(), "gm%d" % self.num()
            if self.wrapped or self.infor:
                return self.use()
            n = "n%d" % self.num()
            return [("define", n, ("k", 0)), ("method", m, ["p"], None, [("set", r.choice(KS), ("v", "return")), self.ev(("v", "p")), ("return", ("list", [("v", "p"), ("v", n)]))]),
                    ("define", "b", ("app", ("n", m), [("k", self.num())])), self.ev(("v", "b"), ("v", n)), ("set", n, ("add", ("v", n), ("k", 1))),
                    self.again()]
        # A continuation carried in a list and called from there.
        if self.wrapped or self.infor:
            return self.use()
        s, m = "c%d" % self.num(), "cm%d" % self.num()
        return [("define", s, ("k", NIL)), ("method", m, ["p"], None, [("set", s, ("list", [("k", self.num()), ("v", "return")])), ("return", ("v", "p"))]),
                self.ev(("v", "a"), ("app", ("n", m), [("k", self.num())])),
                ("if", ("lt", ("v", "fuel"), ("k", self.limit)), [("set", "fuel", ("add", ("v", "fuel"), ("k", 1))), ("do", ("app", ("head", ("tail", ("v", s))), [("k", self.num())])), self.ev(("k", "not-here"))], None)]

    def plainbody(self, n):
        r = self.r
        o = []
        for _ in range(n):
            k = r.random()
            if k < 0.25:
                o.append(self.ev(*self.vars()))
            elif k < 0.5:
                o.append(("say", self.t(), [("v", "a")]))
            elif k < 0.7:
                o.append(self.again())
            else:
                o += self.use()
        return o

    def method(self, depth):
        r = self.r
        saver = not (self.wrapped or self.infor) and r.random() < 0.7
        kind = r.choice(["method", "method", "method", "object", "closure"])
        name = "m%d-%s" % (self.num(), kind)
        b = [("define", "p%d" % self.num(), ("v", "p"))] if r.random() < 0.1 else []
        if not saver:
            self.infor += 1
        b += self.body(depth - 1, r.randint(1, 3))
        if saver:
            save = ("set", r.choice(KS), ("v", "return"))
            w = r.random()
            b.insert(r.randint(0, len(b)), save if w < 0.6 else ("block", [save]) if w < 0.8 else ("if", ("lt", ("v", "fuel"), ("k", r.randint(1, 3))), [save], None))
        w = r.random()
        if w < 0.6:
            b.append(("return", self.value()))
        elif w < 0.8:
            b.append(("do", ("app", ("n", "first"), [("v", "p"), ("k", 0)])))
        else:
            b.append(self.maybe_return(depth))
        if not saver:
            self.infor -= 1
        if kind == "object":
            o = [("define", name, ("object", [("define", "a", ("k", self.num())), ("method", "run", ["p"], None, b, "export")]))]
        elif kind == "closure":
            o = [("define", name, ("lam", ["p"], None, b))]
        else:
            o = [("method", name, ["p"], None, b)]
        (self.savers if saver else self.plain).append((kind, name))
        return o

    def program(self):
        r = self.r
        self.limit = r.choice([2, 3, 5, 12])
        o = [("define", k, ("k", NIL)) for k in KS]
        o += [("define", "fuel", ("k", 0)), ("define", "a", ("k", 1)), ("define", "b", ("k", 2)), ("define", "p", ("k", 3)),
              ("method", "first", ["x", "y"], None, [("return", ("v", "x"))]),
              ("define", "bumps", ("k", 0)), ("method", "bump", [], None, [("set", "bumps", ("add", ("v", "bumps"), ("k", 1))), ("return", ("v", "bumps"))])]
        for _ in range(r.randint(1, 3)):
            o += self.method(r.randint(1, 3))
        top = []
        for _ in range(r.randint(3, 6)):
            x = r.random()
            if x < 0.3:
                top += self.method(2)
            elif x < 0.6:
                top += self.use()
            else:
                top += self.inside(3)
        main = "main%d" % self.num()
        if r.random() < 0.5:
            o += top + [self.again(), self.ev(("v", "a"), ("v", "b"))]
        else:
            o += [("method", main, ["p"], None, top + [self.again()]), ("do", ("app", ("n", main), [("k", self.num())])), self.ev(("v", "a")), self.again(), self.ev(("v", "b"))]
        return o


def check(ctx):
    def one(i):
        seed = "%s/12/%d" % (ctx.seed, i)
        r = random.Random(seed)
        for attempt in range(80):
            body = Gen(r).program()
            root = ctx.mkdir()
            try:
                res = model.compare(ctx, body, root, limit=20000)
            except RecursionError:
                res = None
            ctx.rmdir(root)
            if res is not None and len(res[0].log) >= 3 and res[0].counts.get("saved continuations called"):
                break
            ctx.count("programs discarded")
        else:
            return
        m, bad, text, rr = res
        for l in m.log:
            ctx.cover(l[:40])
        ctx.count("programs")
        ctx.count("events compared", len(m.log) + sum(len(v) for v in m.out.values()))
        for k, v in m.counts.items():
            ctx.count(k, v)
        if i < 2:
            ctx.cover(n=0, sample=text[:1500])
        if bad:
            ctx.violation(bad, "case %s\n%s\n%s\n%s\nexpected:\n%s" % (seed, bad, text, rr.brief(2000), "\n".join(m.log[:200])))
    ctx.pmap(one, range(ctx.n(1000, 30000)))
