"""C05: exact rational arithmetic, against Python's fractions."""
from fractions import Fraction
import lit, batch
from lit import Num, NIL, TRUE

RULE = ("A case is one expression (nested calls, 0-6 operands per call, operands as number values, numerals, "
        "variables or statuses, of up to 200 bits) or a short accumulation loop; results, printed forms and the operands "
        "afterwards are compared with Python fractions. Non-trivial: not all operands equal, or an error case; distinct by source text.")
ASSUMPTIONS = ["Python's fractions module computes exactly"]

OPS = ["add", "sub", "mul", "div", "mod"]
CMP = {"lt?": lambda a, b: a < b, "le?": lambda a, b: a <= b, "gt?": lambda a, b: a > b, "ge?": lambda a, b: a >= b}


class Err(Exception):
    pass


def numeral(rng, f=None):
    """(text, value) of a numeral."""
    k = rng.random()
    if f is None:
        f = lit.rnum(rng)
    if k < 0.35:
        return lit.numtext(f), f
    if k < 0.5:
        m = rng.choice([1, 2, 3, 7, 10, 12])
        return "%d/%d" % (f.numerator * m, f.denominator * m), f
    sign = rng.choice(["", "-", "+"])
    ip = str(rng.randint(0, 10 ** rng.randint(1, 12)))
    fp = "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 12)))
    t = rng.choice([ip, ip + "." + fp, "." + fp, ip + "."])
    v = Fraction((t + "0") if t.endswith(".") else ("0" + t if t.startswith(".") else t))
    if rng.random() < 0.5:
        e = rng.randint(-30, 30)
        t += rng.choice(["e", "E"]) + rng.choice(["", "+"] if e >= 0 else [""]) + str(e)
        v *= Fraction(10) ** e
    if sign == "-":
        v = -v
    return sign + t, v


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def leaf(self):
        rng = self.rng
        k = rng.random()
        if k < 0.12 and self.vars:
            n = rng.choice(sorted(self.vars))
            return "$" + n, self.vars[n]
        if k < 0.5:
            t, v = numeral(rng)
            return "(number %s)" % lit.q(t), v
        if k < 0.6:
            v = Fraction(rng.randint(0, 300))
            return "(status %d)" % v, v
        if k < 0.95:
            n = rng.choice([0, 0, 1, 1, 2, 3, -1, rng.randint(-50, 50), rng.getrandbits(64) - 2 ** 63])
            return str(n), Fraction(n)
        return lit.src(Num(lit.rnum(rng))), None

    def leafv(self):
        while True:
            s, v = self.leaf()
            if v is not None:
                return s, v

    def expr(self, depth):
        rng = self.rng
        if depth == 0 or rng.random() < 0.25:
            return self.leafv()
        op = rng.choice(OPS)
        if op == "mod":
            a, b = self.intexpr(), self.intexpr()
            args = [a, b]
        else:
            args = [self.expr(depth - 1) for _ in range(rng.choice([1, 2, 2, 2, 3, 4, 6]) if op != "add" else rng.choice([0, 1, 2, 2, 3, 5]))]
        s = "(%s)" % " ".join([op] + [a for a, _ in args])
        return s, apply(op, [v for _, v in args])

    def intexpr(self):
        rng = self.rng
        n = rng.choice([rng.randint(-20, 20), rng.randint(-10 ** 6, 10 ** 6), rng.getrandbits(90) - 2 ** 89])
        if rng.random() < 0.3:
            return "(mul %d %d)" % (n, 3), Fraction(n * 3)
        return rng.choice(["%d", "(number '%d')"]) % n, Fraction(n)


def apply(op, vs):
    if any(isinstance(v, Err) for v in vs):
        return Err()
    if op == "add":
        return sum(vs, Fraction(0))
    r = vs[0]
    if op == "mod":
        a, b = vs
        if a.denominator != 1 or b.denominator != 1 or b == 0:
            return Err()
        return Fraction(a.numerator % abs(b.numerator))
    for v in vs[1:]:
        if op == "sub":
            r -= v
        elif op == "mul":
            r *= v
        else:
            if v == 0:
                return Err()
            r /= v
    return r


def check(ctx):
    rng = ctx.rng
    cases = []  # (lines, check function, description of expectation)
    for i in range(ctx.n(12000, 400000)):
        g = Gen(rng)
        g.vars = {}
        lines = []
        for n in "xyz"[:rng.randint(0, 3)]:
            v = lit.rnum(rng) if rng.random() < 0.7 else Fraction(rng.randint(-3, 3))
            g.vars[n] = v
            lines.append("define %s %s" % (n, lit.src(Num(v))))
        kind = rng.random()
        after = " ".join("$" + n for n in sorted(g.vars))
        afterv = [Num(g.vars[n]) for n in sorted(g.vars)]
        if kind < 0.5:
            s, v = g.expr(rng.randint(1, 3))
            if not s.startswith("(") or s[1:].split(" ")[0].rstrip(")") not in OPS:
                continue
            lines.append("define r %s" % s)
            lines.append("return (list $r %s (string $r) (equal? $r (number (string $r))))" % after)
            want = v if isinstance(v, Err) else lit.lst(Num(v), *afterv, lit.Str(lit.numtext(v)), TRUE)
        elif kind < 0.75:
            op = rng.choice(sorted(CMP))
            vs = [g.leafv() for _ in range(rng.choice([2, 2, 2, 3, 3, 4, 5]))]
            if rng.random() < 0.6:  # near-equal and ordered operands
                base = lit.rnum(rng)
                eps = Fraction(1, 10 ** rng.choice([1, 20, 60]))
                ks = [rng.choice([-1, 0, 0, 1]) for _ in vs]
                if rng.random() < 0.6:
                    ks.sort(reverse=op.startswith("g"))
                vs = [("(number '%s')" % lit.numtext(base + k * eps), base + k * eps) for k in ks]
            ok = all(CMP[op](a[1], b[1]) for a, b in zip(vs, vs[1:]))
            lines.append("define r (%s %s)" % (op, " ".join(s for s, _ in vs)))
            lines.append("return (list $r %s)" % after)
            want = lit.lst(TRUE if ok else NIL, *afterv)
        elif kind < 0.85:
            t, v = numeral(rng)
            lines.append("return (list (number %s) %s)" % (lit.q(t), after))
            want = lit.lst(Num(v), *afterv)
        elif kind < 0.9:
            # Accumulation: no operation may change its arguments.
            op = rng.choice(["add", "mul", "sub"])
            a, k, n = Fraction(rng.randint(-9, 9), rng.randint(1, 9)), Fraction(rng.randint(-5, 5), rng.randint(1, 5)), rng.randint(1, 12)
            lines += ["define k: %s" % lit.src(Num(k))[1:-1], "define a: %s" % lit.src(Num(a))[1:-1], "define b $a",
                      "define i: number %d" % n, "while $i {", "    set a: %s $a $k" % op, "    set i: sub $i 1", "}",
                      "return (list $a $b $k $i %s)" % after]
            v = a
            for _ in range(n):
                v = apply(op, [v, k])
            want = lit.lst(Num(v), Num(a), Num(k), Num(0), *afterv)
        else:
            # Errors.
            bad = rng.choice(["'12'", "\"3\"", "()", "(list 1 2)", "abc", "(number 'x')", "(number '')", "(number '1/0')", "$'1\\n'"])
            op = rng.choice(OPS + sorted(CMP) + ["zero", "fracmod", "few"])
            if op == "zero":
                s = rng.choice(["div %s 0", "div 0 %s 0", "mod 7 0", "div 1 (sub 2 2) %s", "mod 0 0"])
                s = s.replace("%s", str(rng.randint(1, 9)))
            elif op == "fracmod":
                s = rng.choice(["mod 7/2 2", "mod 7 (number '3/2')", "mod 0.5 3", "mod 5 1e-1"])
            elif op == "few":
                s = rng.choice(["sub", "mul", "div", "mod", "mod 1", "mod 1 2 3", "lt?", "lt? 1", "ge? 1"])
            else:
                a = [rng.choice(["1", "(number '2')", "3"]) for _ in range(1 if op == "mod" else rng.randint(1, 3))]
                if op in CMP:
                    # Keep comparisons true so that all operands are examined.
                    a = [str(x) for x in ({"lt?": range(len(a)), "le?": range(len(a)), "gt?": range(9, 9 - len(a), -1), "ge?": range(9, 9 - len(a), -1)}[op])]
                    a.append(bad)
                else:
                    a.insert(rng.randint(0, len(a)), bad)
                s = op + " " + " ".join(a)
            lines.append("return (list (%s) %s)" % (s, after))
            want = Err()
        cases.append((lines, want))
    res = batch.evaluate(ctx, [c[0] for c in cases])
    for (lines, want), o in zip(cases, res):
        if o is None:
            continue
        if isinstance(want, Err):
            ok = o.kind == "E"
            ctx.count("error cases")
        else:
            ok = o.kind == "V" and o.value == want
            ctx.count("value cases")
        ctx.cover("\n".join(lines), "%s => %r" % ("; ".join(lines), o))
        if not ok:
            ctx.violation("wrong result: expected %s, got %r" % ("an exception" if isinstance(want, Err) else lit.rep(want), o),
                          batch.program([lines]))
