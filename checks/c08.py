"""C08: equality, predicates, truth and conditionals."""
import itertools
from fractions import Fraction
import lit, batch
from lit import Sym, Str, Num, Status, Cons, NIL, TRUE, lst, pylist

RULE = ("(a) pairs/triples of generated values, near-equal ones preferred, through equal? and eq?; (b) every type predicate and truth form on "
        "values of every type; (c) generated nestings of if/else-if/while/and/or/&&/||/not whose tests and statements log their evaluation, "
        "log and value compared with a reference evaluator. Non-trivial: at least two operands or one conditional; distinct by source.")
ASSUMPTIONS = ["equality of methods, syntaxes and continuations is not specified"]

PREDS = ["number?", "string?", "symbol?", "cons?", "null?", "chan?", "pipe?", "object?", "method?", "syntax?", "continuation?"]

PRE = """define t: method (k v) {
    write T $k
    return $v
}
define run: method (n m) {
    catch ex {
        write $n E $ex
        return ()
    }
    write $n V (m)
}
"""


def truth(v):
    if v is NIL:
        return False
    if isinstance(v, Num):
        return v != 0 and v.numerator != 0
    if isinstance(v, Status):
        return v.numerator == 0
    return True


def value(rng, depth=2):
    k = rng.random()
    if k < 0.12:
        return NIL
    if k < 0.3:
        return Num(rng.choice([0, 0, 1, 2, -1, 256, -256, 1 << 32, 1 << 64, -(1 << 64), Fraction(1, 2), Fraction(-1, 256)]))
    if k < 0.4:
        return Status(rng.choice([0, 0, 1, 2, 127, 255, 256, 512, 65536, -1, -256, 1 << 32, 1 << 64, Fraction(1, 256), Fraction(256, 3)]))
    if k < 0.6:
        return Str(rng.choice(["", "0", "1", "a", "true", " ", "()", lit.rtext(rng, 3)]))
    if k < 0.8 or depth == 0:
        return Sym(rng.choice(["", "0", "1", "a", "true", "false", "nil", lit.rtext(rng, 3)]))
    if k < 0.95:
        return lst(*[value(rng, depth - 1) for _ in range(rng.randint(1, 3))])
    return Cons(value(rng, 0), Sym("z"))


def mutate(rng, v):
    """A value that is often, but not always, different in one place."""
    if isinstance(v, Cons):
        if rng.random() < 0.5:
            return Cons(mutate(rng, v.h), v.t)
        return Cons(v.h, mutate(rng, v.t))
    k = rng.random()
    if k < 0.4:
        return v
    if k < 0.8 and v is not NIL:
        t = lit.text(v)
        try:
            f = Num(t)
        except ValueError:
            f = None
        return rng.choice([Str(t), Sym(t)] + ([f, Status(f)] if f is not None and lit.numtext(f) == t else []))
    return value(rng, 1)


def stringable(v):
    return not isinstance(v, Cons) and v is not NIL


# --- conditionals ------------------------------------------------------------
VALS = [NIL, TRUE, Num(0), Num(1), Num(-2), Status(0), Status(1), Status(255), Status(256), Status(-256), Status(1 << 64), Status(Fraction(1, 2)), Num(1 << 64), Num(Fraction(-1, 3)), Str(""), Str("x"), Sym("no"), lst(Num(0)), lst(NIL)]


class Cond:
    def __init__(self, rng):
        self.rng, self.k, self.loops = rng, 0, 0

    def leaf(self):
        self.k += 1
        v = self.rng.choice(VALS)
        return ("t", self.k, v)

    def expr(self, d):
        r = self.rng
        if d == 0 or r.random() < 0.2:
            return self.leaf()
        k = r.random()
        if k < 0.18:
            return ("and", [self.expr(d - 1) for _ in range(r.randint(1, 3))], r.random() < 0.5)
        if k < 0.36:
            return ("or", [self.expr(d - 1) for _ in range(r.randint(1, 3))], r.random() < 0.5)
        if k < 0.46:
            return ("not", self.expr(d - 1))
        if k < 0.55:
            # Infix, && binding tighter than ||.
            return ("infix", [[self.expr(d - 1) for _ in range(r.randint(1, 3))] for _ in range(r.randint(1, 3))])
        if k < 0.85:
            return self.stmt(d)
        if k < 0.93:
            self.loops += 1
            return ("while", self.loops, r.randint(0, 3), [self.expr(d - 1) for _ in range(r.randint(1, 2))], r.randint(0, 1))
        return ("block", [self.expr(d - 1) for _ in range(r.randint(1, 3))])

    def stmt(self, d):
        r = self.rng
        arms = [(self.expr(d - 1), [self.expr(d - 1) for _ in range(r.randint(1, 2))]) for _ in range(r.choice([1, 1, 2, 3]))]
        els = [self.expr(d - 1) for _ in range(r.randint(1, 2))] if r.random() < 0.6 else None
        return ("if", arms, els)


def emit(e, ind):
    """Source of e as a command, without enclosing parentheses."""
    pad = "    " * (ind + 1)
    end = "    " * ind
    k = e[0]
    if k == "t":
        return "t %d %s" % (e[1], lit.src(e[2]))
    if k in ("and", "or"):
        if e[2] and len(e[1]) > 1:
            return {"and": " && ", "or": " || "}[k].join(operand(x, ind) for x in e[1])
        return "%s %s" % (k, " ".join("(%s)" % emit(x, ind) for x in e[1]))
    if k == "not":
        return "not (%s)" % emit(e[1], ind)
    if k == "infix":
        return " || ".join(" && ".join(operand(x, ind) for x in g) for g in e[1])
    if k == "block":
        return "block {\n%s\n%s}" % (body(e[1], ind), end)
    if k == "if":
        s = ""
        for i, (c, b) in enumerate(e[1]):
            s += ("if (%s) {\n%s\n%s}" if i == 0 else " else if (%s) {\n%s\n%s}") % (emit(c, ind), body(b, ind), end)
        if e[2] is not None:
            s += " else {\n%s\n%s}" % (body(e[2], ind), end)
        return s
    if k == "while":
        b = [pad + emit(x, ind + 1) for x in e[3]]
        b.insert(0 if e[4] else len(b), pad + "set i%d: sub $i%d 1" % (e[1], e[1]))
        return "block {\n%sdefine i%d (number %d)\n%swhile (t %d $i%d) {\n%s\n%s}\n%s}" % (
            pad, e[1], e[2], pad, 1000 + e[1], e[1], "\n".join("    " + x for x in b), pad, end)
    raise ValueError(k)


def operand(e, ind):
    """Source of e as an operand of && or ||. Parentheses would make its value a command."""
    if e[0] == "infix" or e[0] in ("and", "or") and e[2] and len(e[1]) > 1:
        return "or (%s)" % emit(e, ind)
    return emit(e, ind)


def body(es, ind):
    return "\n".join("    " * (ind + 1) + emit(e, ind + 1) for e in es)


def ev(e, log):
    k = e[0]
    if k == "t":
        log.append(str(e[1]))
        return e[2]
    if k == "and":
        v = NIL
        for x in e[1]:
            v = ev(x, log)
            if not truth(v):
                return v
        return v
    if k == "or":
        v = NIL
        for x in e[1]:
            v = ev(x, log)
            if truth(v):
                return v
        return v
    if k == "not":
        return NIL if truth(ev(e[1], log)) else TRUE
    if k == "infix":
        v = NIL
        for g in e[1]:
            v = ev(("and", g), log) if len(g) > 1 else ev(g[0], log)
            if truth(v):
                return v
        return v
    if k == "block":
        for x in e[1]:
            v = ev(x, log)
        return v
    if k == "if":
        for c, b in e[1]:
            v = ev(c, log)
            if truth(v):
                return ev(("block", b), log)
        return ev(("block", e[2]), log) if e[2] is not None else v
    if k == "while":
        n = e[2]
        while True:
            log.append(str(1000 + e[1]))
            if n == 0:
                return Num(0)
            if e[4]:
                n -= 1
            for x in e[3]:
                ev(x, log)
            if not e[4]:
                n -= 1
    raise ValueError(k)


def check(ctx):
    rng = ctx.rng
    # (a) equality
    cases = []
    for _ in range(ctx.n(6000, 150000)):
        n = rng.choice([2, 2, 2, 3, 4])
        v = value(rng)
        vs = [v]
        for _ in range(n - 1):
            vs.append(rng.choice([vs[-1], mutate(rng, vs[-1]), value(rng)]) if n == 2 or rng.random() < 0.4 else vs[-1])
        rng.shuffle(vs)
        if rng.random() < 0.7 or not all(stringable(x) for x in vs):
            want = all(lit.rep(a) == lit.rep(b) for a, b in zip(vs, vs[1:]))
            op = "equal?"
        else:
            want = all(lit.text(a) == lit.text(b) for a, b in zip(vs, vs[1:]))
            op = rng.choice(["eq?", "ne?"])
            if op == "ne?":
                want = not want
        cases.append((["return (%s %s)" % (op, " ".join(lit.src(x) for x in vs))], want))
    # conduits and objects: the same one
    objs = ["define c0: chan", "define c1: chan 1", "define p0: pipe", "define p1: pipe", "define o0: object {", "    export a 1", "}", "define o1: object {",
            "    export a 1", "}", "define m0: map", "define m1: map", "define a0 $c0", "define a1 $p0", "define a2 $o0", "define a3 $m1"]
    names = {"c0": "c0", "c1": "c1", "p0": "p0", "p1": "p1", "o0": "o0", "o1": "o1", "m0": "m0", "m1": "m1", "a0": "c0", "a1": "p0", "a2": "o0", "a3": "m1"}
    fin = ["p0 close", "p1 close"]
    for x, y in itertools.product(sorted(names), repeat=2):
        if rng.random() < ctx.n(0.25, 1):
            cases.append((objs + ["define r (equal? $%s $%s)" % (x, y)] + fin + ["return $r"], names[x] == names[y]))
    for x in sorted(names):
        for s in ("()", "1", "'x'", "(list 1)", "(number 0)"):
            if rng.random() < ctx.n(0.3, 1):
                cases.append((objs + ["define r: list (equal? $%s %s) (equal? %s $%s)" % (x, s, s, x)] + fin + ["return (or (r head) (r get 1))"], False))
    # (b) predicates and truth
    made = [("(add 1 2)", "number?", Num(3)), ("(number 0)", "number?", Num(0)), ("(status 0)", None, Status(0)), ("(status 3)", None, Status(3)),
            ("''", "string?", Str("")), ("'0'", "string?", Str("0")), ('"a"', "string?", Str("a")), ("a", "symbol?", Sym("a")), ("0", "symbol?", Sym("0")),
            ("(symbol '')", "symbol?", Sym("")), ("false", "symbol?", Sym("false")), ("a/b", "symbol?", Sym("a")), ("()", "null?", NIL), ("(list)", "null?", NIL), ("(list ())", "cons?", lst(NIL)), ("(cons 1 2)", "cons?", TRUE),
            ("(list 1)", "cons?", TRUE), ("(quote (a b))", "cons?", TRUE), ("(chan)", "chan?", TRUE), ("$stdout", "pipe?", TRUE), ("$o0", "object?", TRUE), ("$m0", "object?", TRUE), ("$str", "object?", TRUE),
            ("(method () = ())", "method?", TRUE), ("$mm", "method?", TRUE), ("$echoer", "method?", TRUE), ("$add", "method?", TRUE), ("$exists", "method?", TRUE), ("$m2", "method?", TRUE),
            ("$if", "syntax?", TRUE), ("$ss", "syntax?", TRUE), ("(syntax (x) = ())", "syntax?", TRUE), ("$kk", "continuation?", TRUE), ("(true)", None, Status(0)), ("(command false)", None, Status(1)),
            ("(lt? 1 2)", "symbol?", TRUE), ("(lt? 2 1)", "null?", NIL), ("(seq 0)", "null?", NIL), ("((list 1) head)", "symbol?", Sym("1")), ("(o0 a2)", "string?", Str("s"))]
    pre = ["define o0: object {", "    export a 1", "    export a2: method () = (return 's')", "}", "define m0: map", "define mm: method () = ()", "define m2 $mm", "define echoer $echo-me",
           "define ss: syntax (x) = ()", "define kf: method () = (return $return)", "define kk (kf)"]
    for s, p, v in made:
        want = [TRUE if q == p or (q == "cons?" and p == "null?") else NIL for q in PREDS]
        tv = [TRUE if truth(v) else NIL, NIL if truth(v) else TRUE, Sym("T" if truth(v) else "F"), Sym("T" if truth(v) else "F")]
        cases.append((pre + ["define v %s" % s, "define b F", "while (bool $v) {", "    set b T", "    set v ()", "}", "set v %s" % s, "define c F", "if $v {", "    set c T", "}",
                             "return (list %s (bool $v) (not $v) $b $c)" % " ".join("(%s $v)" % q for q in PREDS)], lst(*(want + tv))))
    res = batch.evaluate(ctx, [c[0] for c in cases], pre="define echo-me: method (x) = (return $x)\n")
    for (lines, want), o in zip(cases, res):
        if o is None:
            continue
        w = (TRUE if want else NIL) if isinstance(want, bool) else want
        ctx.cover("\n".join(lines), "%s => %r" % ("; ".join(lines), o))
        ctx.count("equality true" if want is True else "equality false" if want is False else "predicates")
        if o.kind != "V" or lit.rep(o.value) != lit.rep(w):
            ctx.violation("expected %s, got %r" % (lit.rep(w), o), "\n".join(lines))
    # (c) conditionals
    progs = []
    for i in range(ctx.n(3000, 80000)):
        g = Cond(rng)
        e = g.expr(rng.choice([1, 2, 2, 3, 3]))
        if e[0] != "t":
            log = []
            v = ev(e, log)
            if len(log) < 300:
                progs.append((i, e, log, v))

    def one(group):
        srcs = ["run %d (method () {\n    %s\n})\n" % (i, emit(e, 1)) for i, e, _, _ in group]
        text = PRE + "".join(srcs)
        r = ctx.script(text, timeout=120)
        if r.crashed or r.timeout or r.rc != 0:
            ctx.violation("conditionals crashed oh or made it unresponsive", text + "\n" + r.brief(3000))
            return
        lines = r.text().split("\n")[:-1]
        at = 0
        for (i, e, log, v), s in zip(group, srcs):
            want = ["T " + x for x in log] + ["%d V" % i]
            got = lines[at:at + len(want)]
            ok = got[:-1] == want[:-1] and len(got) == len(want) and got[-1].startswith(want[-1] + " ")
            if ok:
                try:
                    ok = lit.rep(lit.decode(got[-1])) == lit.rep(lst(Sym(str(i)), Sym("V"), v))
                except lit.Bad:
                    ok = False
            ctx.cover(s, s)
            ctx.count("tests and statements logged", len(log))
            ctx.count("conditional programs")
            if not ok:
                ctx.violation("conditional: expected log %s and value %s, got %s" % (log, lit.rep(v), got), PRE + s)
                return
            at += len(want)
    ctx.pmap(one, [progs[i:i + 100] for i in range(0, len(progs), 100)])
