"""C14: arguments, parameters, syntax and code as data."""
import random
import batch, lit, model
from lit import Sym, Str, Num, Cons, NIL as LNIL, lst, pylist
from model import NIL

RULE = ("A case is either one event logged by a random program of methods, closures, object members and syntaxes with random parameter lists, called over and over with operands that log their own evaluation, define, set and return, "
        "compared with a reference interpreter; or one random code tree quoted or quasiquoted repeatedly, before and after the results and lists made from it are changed in place, compared with an independent translation of the source. "
        "Distinct by event and by source text.")
ASSUMPTIONS = ["no element of a quasiquoted list but its first is the word unquote", "where a call with the wrong number of arguments is found to be wrong, in the caller or in what is called, is not specified"]

VARS = ["a", "b", "c"]


class Gen:
    def __init__(self, r):
        self.r, self.n, self.tag = r, 0, 0
        self.methods, self.syntaxes = [], []
        self.insyntax = 0

    def num(self):
        self.n += 1
        return self.n

    def t(self):
        self.tag += 1
        return self.tag

    def ev(self, *a):
        return ("ev", self.t(), list(a))

    def expr(self, depth=2):
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.25:
            return ("k", self.num())
        if k < 0.4:
            return ("v", r.choice(VARS))
        if k < 0.65:
            return ("app", ("n", "note"), [self.expr(depth - 1)])
        if k < 0.72:
            return ("list", [self.expr(depth - 1) for _ in range(r.randint(0, 3))])
        if k < 0.78:
            return ("app", ("n", "bump"), [])
        if k < 0.82:
            return r.choice([("set", r.choice(VARS), self.expr(depth - 1)), ("define", r.choice(VARS), self.expr(depth - 1))])
        if k < 0.85:
            return ("k", NIL)
        if k < 0.93:
            return self.call(depth - 1)
        return self.use(depth - 1)

    def call(self, depth, exact=True):
        r = self.r
        if not self.methods:
            return ("app", ("n", "note"), [("k", self.num())])
        kind, name, n, rest = r.choice(self.methods)
        want = n if rest is None else n + r.choice([0, 0, 1, 2, 5])
        if not exact:
            bad = [x for x in range(0, n + 4) if x != n and (rest is None or x < n)]
            if bad:
                want = r.choice(bad)
        args = []
        while want > 0:
            if r.random() < 0.15:
                k = r.randint(0, want)
                args.append(("splice", ("list", [self.expr(depth) for _ in range(k)])))
                want -= k
            else:
                args.append(self.expr(depth))
                want -= 1
        if r.random() < 0.1:
            args.insert(r.randint(0, len(args)), ("splice", ("k", NIL)))
        if kind == "object":
            return ("mem", ("v", name), "run", args)
        if kind == "lam":
            return ("app", ("v", name), args)
        return ("app", ("n", name), args)

    def operand(self, depth):
        r = self.r
        k = r.random()
        if k < 0.6:
            return self.expr(depth)
        if k < 0.7:
            return (r.choice(["define", "export"]), "fresh%d" % r.randint(0, 2), self.expr(depth))
        if k < 0.8:
            return ("set", r.choice(VARS), self.expr(depth))
        if k < 0.85:
            return ("v", "undefined")
        if k < 0.9 and self.inmethod:
            return ("return", self.expr(0))
        return ("k", r.choice(["word", "a", "b", "-x", "12"]))

    inmethod = 0

    def use(self, depth):
        """A syntax, used."""
        r = self.r
        if not self.syntaxes:
            return ("app", ("n", "note"), [("k", self.num())])
        name, n, rest = r.choice(self.syntaxes)
        n += 0 if rest is None else r.choice([0, 1, 2, 4])
        return ("app", ("n", name), [self.operand(depth) for _ in range(n)])

    def params(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        return r.sample(VARS + ["p", "q", "s", "t"], n), r.choice([None, None, None, "rest"])

    def method(self):
        r = self.r
        ps, rest = self.params()
        kind = r.choice(["method", "method", "lam", "object"])
        name = "%s%d" % (kind, self.num())
        b = [self.ev(*[("v", p) for p in ps + ([rest] if rest else [])])]
        self.inmethod += 1
        if r.random() < 0.3:
            b += self.body(1, r.randint(1, 2))
        if rest and r.random() < 0.5:
            b += [("set", "rest", ("tail", ("v", "rest"))), self.ev(("v", "rest"))] if r.random() < 0.5 else [self.ev(("len", ("v", "rest")), ("splice", ("v", "rest")))]
        self.inmethod -= 1
        b.append(("return", r.choice([("k", self.num())] + [("v", p) for p in ps])))
        if kind == "method":
            o = [("method", name, ps, rest, b)]
        elif kind == "lam":
            o = [("define", name, ("lam", ps, rest, b))]
        else:
            o = [("define", name, ("object", [("method", "run", ps, rest, b, "export")]))]
        self.methods.append((kind, name, len(ps), rest))
        return o

    def syntax(self):
        r = self.r
        n = r.choice([1, 1, 2, 3])
        ps = ["p%d" % i for i in range(n)]
        rest = r.choice([None, None, "rest"])
        name = "syn%d" % self.num()
        b = []
        for _ in range(r.randint(1, 5)):
            p = r.choice(ps)
            k = r.random()
            if k < 0.12:
                b.append(("trytext", self.t(), p))
            elif k < 0.45:
                b.append(self.ev(("evalin", ("v", "e"), ("v", p))))
            elif k < 0.53:
                b.append(("define", r.choice(VARS), ("k", self.num())))
            elif k < 0.6:
                b.append(("define", r.choice(VARS), ("evalin", ("v", "e"), ("v", p))))
            elif k < 0.68:
                b.append(self.ev(("app", ("n", "evaluate"), [("v", "e"), ("v", p)])))
            elif k < 0.76:
                b.append(self.ev(("evalin", ("v", "here"), ("v", p))))
            elif k < 0.84:
                i = "i%d" % self.num()
                b += [("define", i, ("k", 0)), ("while", ("lt", ("v", i), ("k", 3)), [("set", i, ("add", ("v", i), ("k", 1))), self.ev(("v", i), ("evalin", ("v", "e"), ("v", p)))])]
            elif k < 0.92:
                b.append(("if", ("evalin", ("v", "e"), ("v", p)), [self.ev(("k", "yes"))], [self.ev(("k", "no"))]))
            else:
                b.append(("set", "saved", ("v", p)))
        if rest:
            b.append(("for", ("v", "rest"), ("lam", ["x"], None, [self.ev(("evalin", ("v", "e"), ("v", "x")))])))
        b.append(("return", ("evalin", ("v", "e"), ("v", r.choice(ps)))) if r.random() < 0.6 else ("return", ("k", self.num())))
        self.syntaxes.append((name, n, rest))
        return [("syntax", name, ps, rest, "e", [("trytext1", c[1], c[2]) if c[0] == "trytext" else c for c in b])]

    def guard(self, body):
        g = "g%d" % self.num()
        return ("block", [("method", g, [], None, [("catch", "ex", [self.ev(("k", "error")), ("return", ("k", NIL))])] + body + [("return", ("k", NIL))]), ("do", ("app", ("n", g), []))])

    def body(self, depth, n):
        r = self.r
        o = []
        for _ in range(n):
            k = r.random()
            if k < 0.3:
                o.append(self.ev(self.call(2)))
            elif k < 0.55:
                o.append(self.ev(self.use(2)))
            elif k < 0.62:
                o.append(self.guard([self.ev(self.call(1, False))]))
            elif k < 0.7:
                o.append(self.ev(*[self.expr() for _ in range(r.randint(0, 5))]))
            elif k < 0.76:
                o.append(self.ev(*[("v", x) for x in VARS]))
            elif k < 0.82:
                i = "i%d" % self.num()
                o += [("define", i, ("k", 0)), ("while", ("lt", ("v", i), ("k", r.randint(2, 4))), [("set", i, ("add", ("v", i), ("k", 1))), r.choice([self.ev(self.call(1)), self.ev(self.use(1))])])]
            elif k < 0.88:
                o.append(("block", [("define", r.choice(VARS), ("k", self.num()))] + [self.ev(self.use(1)), self.ev(*[("v", x) for x in VARS])]))
            elif k < 0.92:
                o.append(("if", ("resolves", "fresh%d" % r.randint(0, 2)), [self.ev(("k", "defined"))], [self.ev(("k", "undefined"))]))
            elif k < 0.95:
                o.append(("do", ("app", ("n", "show-saved"), [])))
            else:
                o.append(self.guard([self.ev(self.use(1)), self.ev(self.call(1))]))
        return o

    def program(self):
        r = self.r
        o = [("define", x, ("k", i)) for i, x in enumerate(VARS)]
        o += [("define", "saved", ("k", NIL)), ("define", "here", ("env",), "colon"),
              ("define", "bumps", ("k", 0)), ("method", "bump", [], None, [("set", "bumps", ("add", ("v", "bumps"), ("k", 1))), ("return", ("v", "bumps"))]),
              ("method", "note", ["x"], None, [("ev", "note", [("v", "x")]), ("return", ("v", "x"))]),
              ("method", "evaluate", ["e", "x"], None, [("define", "a", ("k", "wrong")), ("return", ("evalin", ("v", "e"), ("v", "x")))]),
              ("method", "show-saved", [], None, [("define", "b", ("k", "wrong")), ("ev", "saved", [("evalin", ("v", "here"), ("v", "saved"))])])]
        for _ in range(r.randint(2, 4)):
            o += self.method()
            o += self.syntax()
            o += [self.guard(self.body(2, r.randint(1, 3)))]
        o += [self.guard(self.body(2, 3)) for _ in range(3)]
        o.append(self.ev(*[("v", x) for x in VARS]))
        return o


def strip(b):
    """Log the text of an operand in those programs where all the texts can be told."""
    if isinstance(b, tuple) and b and b[0] == "trytext1":
        return ("ev", b[1], [("v", b[2])])
    if isinstance(b, (tuple, list)):
        return type(b)(strip(x) for x in b)
    return b


def drop(b):
    if isinstance(b, (tuple, list)):
        return type(b)(drop(x) for x in b if not (isinstance(x, tuple) and x and x[0] == "trytext1"))
    return b


def program(ctx, i):
    seed = "%s/14/%d" % (ctx.seed, i)
    r = random.Random(seed)
    for attempt in range(40):
        tree = Gen(r).program()
        root = ctx.mkdir()
        res = None
        for f in (strip, drop):
            try:
                res = model.compare(ctx, f(tree), root, limit=20000)
            except RecursionError:
                res = None
            if res is not None:
                break
        ctx.rmdir(root)
        if res is not None and len(res[0].log) >= 5:
            break
        ctx.count("programs discarded")
    else:
        return
    m, bad, text, rr = res
    for l in m.log:
        ctx.cover(l[:40])
    ctx.count("programs")
    ctx.count("events compared", len(m.log))
    for k, v in m.counts.items():
        ctx.count(k, v)
    if i < 1:
        ctx.cover(n=0, sample=text[:1500])
    if bad:
        ctx.violation(bad, "case %s\n%s\n%s\n%s\nexpected:\n%s" % (seed, bad, text, rr.brief(2000), "\n".join(m.log[:200])))


# --- code as data ---------------------------------------------------------

WORDS = ["a", "b", "foo", "-x", "12", "0", "add", "list", "if", "else", "block", "resolve", "quote", "x-y", "*", "a*", "~", "?", "set", "return", "true"]


def tree(r, depth, holes):
    """(source, value) of a random piece of code; with holes, parts are unquoted."""
    k = r.random()
    if holes is not None and k < 0.2:
        v = value(r)
        e = r.choice(["$v%d" % len(holes), "(same $v%d)" % len(holes), "(block (same $v%d))" % len(holes)])
        holes.append(v)
        return "(unquote %s)" % e, v
    if depth <= 0 or k < 0.4:
        k = r.random()
        if k < 0.5:
            w = r.choice(WORDS)
            return w, Sym(w)
        if k < 0.65:
            return "$x", lst(Sym("resolve"), Sym("x"))
        if k < 0.8:
            s = "".join(r.choice(list("abc {}()$|;&#*~\\\"")) for _ in range(r.randint(0, 6)))
            return "'" + s + "'", Str(s)
        if k < 0.9:
            s = "".join(r.choice(list("abc {}()|;&#*~'")) for _ in range(r.randint(0, 6)))
            return '"' + s + '"', lst(Sym("interpolate"), Str(s))
        return "()", LNIL
    items = [tree(r, depth - 1, holes) for _ in range(r.randint(1, 5))]
    # A word before or after another must not be taken for something else.
    if holes is not None and any(isinstance(v, Sym) and v == "unquote" for s, v in items):
        return "a", Sym("a")
    if depth > 0 and r.random() < 0.15 and all(isinstance(v, Cons) for s, v in items):
        pass
    return "(" + " ".join(s for s, v in items) + ")", lst(*[v for s, v in items])


def value(r):
    return r.choice([Sym("w"), Str("s t"), Num(r.randint(-5, 5)), lst(Sym("p"), Num(1)), LNIL, lst(lst(Sym("q"))), lst(Sym("unquote"), Sym("z")), lst(Sym("quote"), Sym("z"))])


def quoting(ctx, n):
    cases = []
    r = random.Random("%s/14q" % ctx.seed)
    for i in range(n):
        holes = [] if r.random() < 0.6 else None
        s, v = tree(r, r.randint(1, 4), holes)
        if v is LNIL or s.startswith("(unquote") or not s.startswith("("):
            s, v = "(f %s)" % s, lst(Sym("f"), v)
        # Read it several times; between, change what quasiquote made, and use what quote returned.
        body = ["define x 99"] + ["define v%d %s" % (j, lit.src(h)) for j, h in enumerate(holes or [])]
        how = "quasiquote" if holes is not None else "quote"
        body += ["define code: method () {", "    return (%s %s)" % (how, s), "}", "define r1 (code)", "define t1: string $r1", "define r2 (code)"]
        if how == "quasiquote":
            body += ["$r2 set-head changed", "define r3 (code)", "$r3 set-tail (list changed)", "$r3 set-head gone"]
        else:
            body += ["define f: method (((all)) ) {" if False else "define f: method ((all)) {", "    all set-head changed", "    set all (all tail)", "    return $all", "}", "f (splice $r2)", "define r3: list (splice $r2)", "r3 set-head changed",
                     "define r4: for $r2 (method (e) {", "    return 1", "})", "define r5: $r2 reverse", "r5 set-head changed"]
        body += ["list $t1 $r1 (code) (string (code))"]
        cases.append((body, v, s, how))
    pre = "define same: method (v) {\n    return $v\n}\n"
    out = batch.evaluate(ctx, [b for b, v, s, h in cases], pre=pre, size=60)
    for (b, v, s, h), o in zip(cases, out):
        ctx.cover((h, s), nontrivial=len(s) > 5)
        ctx.count(h)
        bad = None
        if o is None or o.kind != "V":
            bad = "%r" % (o,)
        else:
            l = pylist(o.value)
            if l is None or len(l) != 4:
                bad = "%r" % (o,)
            else:
                for j in (1, 2):
                    if l[j] != v:
                        bad = "got %s, expected %s" % (lit.rep(l[j]), lit.rep(v))
                if str(l[0]) != str(l[3]):
                    bad = "first %s, later %s" % (l[0], l[3])
        if bad:
            ctx.violation("%s %s: %s" % (h, s, bad), "\n".join(b) + "\n" + bad)
    if cases:
        ctx.cover(n=0, sample="\n".join(cases[0][0]))


def check(ctx):
    quoting(ctx, ctx.n(1500, 40000))
    ctx.pmap(lambda i: program(ctx, i), range(ctx.n(700, 20000)))
