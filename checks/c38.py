"""C38: library commands."""
import batch, lit
from lit import NIL, TRUE, Num, Str, Sym, lst

RULE = ("A case is one call of seq, coalesce, fn (and of the command it defines), here, mill, random, sprintf or str format with random arguments and surroundings, whose value, output or values passed to the body are compared with a model of it. "
        "Distinct by command and arguments.")
ASSUMPTIONS = ["coalesce is given names and a final literal", "the arguments of a command defined by fn are strings, numbers and symbols, and its body uses no parameter it was not given",
               "forty equal values of random for n over 1 are a violation; for n = 2 that has probability 2**-39"]
WORDS = ["a", "b-c", "x1", "true", "0x1", "w!", "Q"]


def value(r):
    k = r.random()
    if k < 0.5:
        return Str(lit.rtext(r, 8, invalid=True).replace("\0", ""))
    if k < 0.65:
        return Sym(r.choice(WORDS))
    if k < 0.8:
        return Num(lit.rnum(r))
    if k < 0.85:
        return NIL
    return lst(*[value(r) for _ in range(r.randint(0, 3))])


class Gen:
    def __init__(self, r):
        self.r = r

    def seq(self):
        n = self.r.choice([0, 1, 2, 3, 5, 17, 300, -1, -7])
        return ["seq %d" % n], lst(*[Num(i) for i in range(n)])

    def coalesce(self):
        r = self.r
        names = ["n%d" % i for i in range(5)]
        pre, have = [], {}
        for n in r.sample(names, r.randint(0, 3)):
            have[n] = value(r)
            pre.append("%s %s %s" % (r.choice(["define", "export"]), n, lit.src(have[n])))
        ask = r.sample(names, r.randint(0, 5))
        d = r.choice([Str(lit.rtext(r, 5).replace("\0", "")), Sym(r.choice(WORDS)), Str("")])
        call = "coalesce %s %s" % (" ".join(ask), lit.q(d) if isinstance(d, Str) else str(d))
        got = next((have[n] for n in ask if n in have), d)
        k = r.random()
        if k < 0.3:
            # In a scope within, where one of them is another.
            if ask:
                n = r.choice(ask)
                v = value(r)
                have[n] = v
                got = next((have[n] for n in ask if n in have), d)
                return pre + ["block {\ndefine %s %s\n%s\n}" % (n, lit.src(v), call)], got
        elif k < 0.6:
            return pre + ["define m: method () {\n%s\n}" % call, "m"], got
        return pre + [call], got

    def fn(self):
        r = self.r
        args = [r.choice([Str(lit.rtext(r, 6, invalid=True).replace("\0", "")), Num(lit.rnum(r)), Sym("plain")]) for _ in range(r.choice([0, 1, 2, 3, 3, 11]))]
        out = value(r)
        pre = ["define outer %s" % lit.src(out)]
        body, want = [], []
        if r.random() < 0.4:
            body.append("list 1\ndefine local 2")
        for i in r.sample(range(len(args)), min(len(args), r.randint(0, 4))):
            want.append((("$%d" if r.random() < 0.5 else "${%d}") % (i + 1), args[i]))
        want.append(("$outer", out))
        if r.random() < 0.7:
            want.append(("$@", lst(*args)))
        r.shuffle(want)
        setit = r.random() < 0.3
        body.append("list " + " ".join(w for w, _ in want))
        if setit:
            body.insert(0, "set outer %s" % lit.src(out))
        call = "f " + " ".join(lit.src(a) if not isinstance(a, Sym) else str(a) for a in args)
        res = lst(*[v for _, v in want])
        after = "(list (%s) (%s) (resolves? local))" % (call, call)
        return pre + ["fn f {\n%s\n}" % "\n".join(body), "return %s" % after], lst(res, res, NIL)

    def here(self):
        r = self.r
        t = r.choice(["", "\n"]) + r.choice(["", "\n", "\n\n"]) + "\n".join(lit.rtext(r, 6).replace("\0", "").replace("\n", "") for _ in range(r.randint(0, 4))) + r.choice(["", "\n", "\n\n"])
        s = t[:-1] if t.endswith("\n") else t
        s = s[1:] if s.startswith("\n") else s
        return ["capture (here %s)" % lit.q(t)], lst(*[Str(x) for x in s.split("\n")])

    def mill(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 8])
        width = r.choice([1, 2, 3])
        rest = r.random() < 0.4
        recs = [[value(r) for _ in range(r.randint(width, width + 3) if rest else width)] for _ in range(n)]
        ps = ["p%d" % i for i in range(width)] + (["(more)"] if rest else [])
        o, want = [], []
        for rec in recs:
            row = rec[:width] + ([lst(*rec[width:])] if rest else [])
            want.append(row)
            o.append("write " + " ".join(lit.src(v) for v in rec))
        # The rows go by way of a channel, as values.
        text = "define c: chan %d\nblock {\n%s\n} | mill (%s) {\nc write (list %s)\n%s}\nc close\ndefine l ()\ndefine done ()\nwhile (not $done) {\ndefine x: c read\nif (null? $x) {\nset done true\n} else {\nset l: cons $x $l\n}\n}\nl reverse" % (
            n + 1, "\n".join(o) or "true", " ".join(ps), " ".join("$p%d" % i for i in range(width)) + (" $more" if rest else ""), r.choice(["", "list ()\n", "false\n", "if true {\nreturn ()\n}\n"]))
        return [text], lst(*[lst(*row) for row in want])

    def fmt(self):
        r = self.r
        o, a, want = [], [], ""
        for _ in range(r.choice([0, 1, 2, 3, 4, 5, 7, 11, 18])):
            k = r.random()
            if k < 0.4:
                v = r.choice([Str(lit.rtext(r, 6).replace("\0", "")), Sym(r.choice(WORDS)), Num(lit.rnum(r))])
                o.append(r.choice(["%v", "%s"]))
                a.append(v)
                want += lit.text(v)
            elif k < 0.5:
                o.append("%%")
                want += "%"
            else:
                t = lit.rtext(r, 5).replace("\0", "").replace("%", "")
                o.append(t)
                want += t
        return ["%s %s %s" % (r.choice(["sprintf", "str format"]), lit.q("".join(o)), " ".join(lit.src(v) for v in a))], Str(want)

    def rand(self):
        r = self.r
        n = r.choice([1, 2, 3, 10, 1000, 2**31])
        t = ["define l: list %s" % " ".join("(random %d)" % n for _ in range(40)), "define bad ()", "define all (list)",
             "for $l (method (x) {\nif (not (and (number? $x) (ge? $x 0) (lt? $x %d) (equal? (mod $x 1) (number 0)))) {\nset bad true\n}\n})" % n,
             "define least: l head", "define most: l head", "for $l (method (x) {\nif (lt? $x $least) {\nset least $x\n}\nif (gt? $x $most) {\nset most $x\n}\n})",
             "list $bad (lt? $least $most)"]
        # Forty equal numbers do not occur by chance: one of them in 2**39.
        return t, lst(NIL, TRUE if n > 1 else NIL)


def check(ctx):
    g = Gen(ctx.rng)
    kinds = [g.seq, g.coalesce, g.coalesce, g.fn, g.fn, g.here, g.mill, g.mill, g.fmt, g.fmt, g.rand]
    cases = []
    for _ in range(ctx.n(2500, 60000)):
        k = ctx.rng.choice(kinds)
        t, w = k()
        cases.append((k.__name__, t, w))
    res = batch.evaluate(ctx, [c[1] for c in cases])
    for (name, t, w), x in zip(cases, res):
        if x is None or x.kind == "?":
            if not ctx.violations:
                ctx.violation("no result: %r" % x, "\n".join(t))
            return
        ctx.count("calls of %s" % name)
        ctx.cover((name, t), "%s: %s" % (name, t[-1][:150]) if ctx.rng.random() < 0.003 else None)
        if x.kind != "V" or x.value != w:
            ctx.violation("%s gives %s and not %s" % (name, x, lit.rep(w)), "\n".join(t) + "\n\nexpected %s\ngot      %s" % (lit.rep(w), x))
            if len(ctx.violations) > 4:
                return
