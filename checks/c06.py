"""C06: random histories of list operations against a cons-cell model."""
import lit
from lit import Sym, Str, Num, Cons, NIL, TRUE, lst, pylist

RULE = ("A case is a history of 6-24 list operations over three variables that alias and share structure; after every "
        "operation its result (or exception) and the contents of all variables are logged and compared with a model of mutable cons "
        "cells. Non-trivial: at least one mutation and one later observation of a shared structure; distinct by source text.")
ASSUMPTIONS = ["the model in checks/c06.py states the definitions of the operations"]

PRE = """define try: method (n k m) {
    catch ex {
        write $n $k E $ex
        return ()
    }
    write $n $k V (m)
}
"""


class Err(Exception):
    pass


def length(c):
    n = 0
    while c is not NIL:
        if not isinstance(c, Cons):
            raise Err("improper")
        n += 1
        c = c.t
    return n


def nth(c, i):
    while i > 0:
        c, i = c.t, i - 1
    return c


def reaches(c, target, seen=None):
    """Whether the cell target can be reached from c."""
    seen = set() if seen is None else seen
    while isinstance(c, Cons) and id(c) not in seen:
        if c is target:
            return True
        seen.add(id(c))
        if reaches(c.h, target, seen):
            return True
        c = c.t
    return False


def m_slice(c, start, end=0):
    n = length(c)
    if start < 0:
        start += n
    if start < 0:
        raise Err()
    start = min(start, n)
    if end <= 0:
        end += n
    if end < 0:
        raise Err()
    end = min(end, n)
    if end < start:
        raise Err()
    return lst(*pylist(c)[start:end])


def m_get(c, i=0, *d):
    n = length(c)
    if i < 0:
        i += n
    if i < 0 or i >= n:
        if d:
            return d[0]
        raise Err()
    return nth(c, i).h


class Case:
    def __init__(self, rng, n):
        self.rng, self.n, self.k = rng, n, 0
        self.vars = {}
        self.src = []
        self.want = []  # (k, kind, deep copied value)
        self.mutated = False

    def scalar(self):
        r = self.rng
        k = r.random()
        if k < 0.5:
            return Sym(r.choice("p q r s t u v".split()))
        if k < 0.75:
            return Num(r.randint(-3, 9))
        return Str(lit.rtext(r, 4))

    def fresh(self, lo=0, hi=5, depth=1):
        """A new list and its source."""
        r = self.rng
        vs, ss = [], []
        for _ in range(r.randint(lo, hi)):
            if depth and r.random() < 0.15:
                v, s = self.fresh(0, 3, 0)
            else:
                v = self.scalar()
                s = lit.src(v)
            vs.append(v)
            ss.append(s)
        return lst(*vs), "(list %s)" % " ".join(ss) if ss else "()"

    def operand(self):
        r = self.rng
        if r.random() < 0.55:
            v = self.scalar()
            return v, lit.src(v)
        if r.random() < 0.5:
            return self.fresh(0, 4)
        n = r.choice("abc")
        return self.vars[n], "$" + n

    def listoperand(self):
        r = self.rng
        if r.random() < 0.5:
            return self.fresh(0, 4)
        n = r.choice("abc")
        return self.vars[n], "$" + n

    def record(self, body, fn):
        """One step: source of the body, fn computes value and new variables or raises Err."""
        self.src.append("try %d %d (method () {\n%s\n})" % (self.n, self.k, "\n".join("    " + b for b in body)))
        try:
            self.want.append((self.k, "V", lit.rep(fn())))
        except Err:
            self.want.append((self.k, "E", None))
        self.src.append("write %d %d S $a $b $c" % (self.n, self.k))
        self.want.append((self.k, "S", " ".join(lit.rep(self.vars[x]) for x in "abc")))
        self.k += 1

    def step(self):
        r = self.rng
        n, m = r.choice("abc"), r.choice("abc")
        c = self.vars[n]
        V = self.vars
        ops = ["get", "get", "getd", "head", "tail", "length", "reverse", "slice", "slice", "append", "append", "extend", "extend",
               "sethead", "sethead", "settail", "cons", "alias", "fresh", "for", "seq", "splice", "settailnil", "equal", "selfextend", "badindex", "keep"]
        op = r.choice(ops)
        idx = r.choice([0, 0, 1, 2, 3, 4, 5, 7, -1, -1, -2, -3, -5, -8])

        def assign(name, v):
            V[name] = v
            return v
        if op == "get":
            if idx == 0 and r.random() < 0.5:
                return self.record(["%s get" % n], lambda: m_get(c))
            return self.record(["%s get %d" % (n, idx)], lambda: m_get(c, idx))
        if op == "getd":
            d, s = self.operand()
            return self.record(["%s get %d %s" % (n, idx, s)], lambda: m_get(c, idx, d))
        if op == "head":
            return self.record(["%s head" % n], lambda: c.h if c is not NIL else NIL)
        if op == "tail":
            return self.record(["set %s: %s tail" % (m, n)], lambda: assign(m, c.t if c is not NIL else NIL))
        if op == "length":
            return self.record(["%s length" % n], lambda: Num(length(c)))
        if op == "reverse":
            return self.record(["set %s: %s reverse" % (m, n)], lambda: (length(c), assign(m, lst(*reversed(pylist(c)))))[1])
        if op == "slice":
            e = r.choice([None, 0, 1, 2, 3, 5, 9, -1, -2, -4, -9])
            if e is None:
                return self.record(["set %s: %s slice %d" % (m, n, idx)], lambda: assign(m, m_slice(c, idx)))
            return self.record(["set %s: %s slice %d %d" % (m, n, idx, e)], lambda: assign(m, m_slice(c, idx, e)))
        if op == "append":
            d, s = self.operand()
            if isinstance(d, Cons) and (reaches(d, c) or reaches(c, d) and False):
                d = self.scalar()
                s = lit.src(d)
            if isinstance(c, Cons) and any(reaches(d, x) for x in cells(c)):
                d = self.scalar()
                s = lit.src(d)

            def fn():
                length(c)
                if c is NIL:
                    return assign(m, lst(d)) if keep else lst(d)
                nth(c, length(c) - 1).t = lst(d)
                return assign(m, c) if keep else c
            keep = r.random() < 0.4
            self.mutated = True
            return self.record(["%s%s append %s" % ("set %s: " % m if keep else "", n, s)], fn)
        if op in ("extend", "selfextend"):
            d, s = (c, "$" + n) if op == "selfextend" else self.listoperand()
            if c is NIL or d is NIL and False:
                return
            if isinstance(d, Cons) and any(isinstance(x.h, Cons) and any(reaches(x.h, y) for y in cells(c)) for x in cells(d)):
                return
            if length(c) + length(d) > 60:
                return

            def fn():
                vs = pylist(d)
                nth(c, length(c) - 1).t = lst(*vs)
                return c
            self.mutated = True
            return self.record(["%s extend %s" % (n, s)], fn)
        if op == "sethead":
            d, s = self.operand()
            if isinstance(d, Cons) and c is not NIL and reaches(d, c):
                return
            i = r.choice([0, 0, 1])
            if i and isinstance(c, Cons) and isinstance(c.t, Cons) and not (isinstance(d, Cons) and reaches(d, c.t)):
                def fn1():
                    c.t.h = d
                    return d
                self.mutated = True
                return self.record(["%s tail" % n] and ["define t: %s tail" % n, "t set-head %s" % s], fn1)

            def fn():
                if c is NIL:
                    raise Err()
                c.h = d
                return d
            self.mutated = True
            return self.record(["%s set-head %s" % (n, s)], fn)
        if op in ("settail", "settailnil"):
            d, s = self.listoperand() if op == "settail" else (NIL, "()")
            if isinstance(d, Cons) and c is not NIL and reaches(d, c):
                return

            def fn():
                if c is NIL:
                    raise Err()
                c.t = d
                return d
            self.mutated = True
            return self.record(["%s set-tail %s" % (n, s)], fn)
        if op == "cons":
            d, s = self.operand()
            return self.record(["set %s: cons %s $%s" % (m, s, n)], lambda: assign(m, Cons(d, c)))
        if op == "alias":
            return self.record(["set %s $%s" % (m, n)], lambda: assign(m, c))
        if op == "fresh":
            d, s = self.fresh()
            return self.record(["set %s %s" % (m, s)], lambda: assign(m, d))
        if op == "for":
            t = self.scalar()
            how = r.choice(["list", "same", "null", "effects"])
            if how == "list":
                return self.record(["set %s: for $%s (method (x) = (list $x %s))" % (m, n, lit.src(t))],
                                   lambda: assign(m, lst(*[lst(x, t) for x in pylist(c)])))
            if how == "same":
                return self.record(["set %s: for $%s (method (x) = (return $x))" % (m, n)], lambda: assign(m, lst(*pylist(c))))
            if how == "null":
                return self.record(["for $%s (method (x) = (null? $x))" % n], lambda: lst(*[TRUE if x is NIL else NIL for x in pylist(c)]))
            return self.record(["define seen: list %s" % lit.src(t), "define r: for $%s (method (x) {" % n, "    seen append $x", "    return (seen length)", "})",
                                "return (list $r $seen)"],
                               lambda: lst(lst(*[Num(i + 2) for i in range(length(c))]), lst(t, *pylist(c))))
        if op == "seq":
            k = r.choice([0, 1, 2, 5, 11, -1, -4])
            return self.record(["set %s: seq %d" % (m, k)], lambda: assign(m, lst(*[Num(i) for i in range(max(0, k))])))
        if op == "splice":
            d, s = self.listoperand()
            t = self.scalar()
            return self.record(["set %s: list %s (splice $%s) %s (splice %s)" % (m, lit.src(t), n, lit.src(t), s)],
                               lambda: assign(m, lst(t, *pylist(c), t, *pylist(d))))
        if op == "equal":
            return self.record(["equal? $%s $%s" % (n, m)], lambda: TRUE if lit.rep(c) == lit.rep(V[m]) else NIL)
        if op == "badindex":
            bad = r.choice(["%s get 1/2", "%s get 'x'", "%s slice 0.5", "%s slice 0 'y'", "%s slice", "%s slice 0 1 2", "%s length 1", "%s reverse 1", "%s append", "%s append 1 2", "%s extend", "%s nosuch", "%s get 99999999999999999999999"])

            def fn():
                raise Err()
            return self.record([bad % n], fn)
        if op == "keep":
            d, s = self.fresh(1, 4)
            return self.record(["define l %s" % s, "define r: list (l slice 0) (l reverse) (l slice 1)", "l append x", "l set-head y", "return (list $l (splice $r))"],
                               lambda: lst(lst(Sym("y"), *pylist(d)[1:], Sym("x")), lst(*pylist(d)), lst(*reversed(pylist(d))), lst(*pylist(d)[1:])))


def cells(c):
    r = []
    while isinstance(c, Cons):
        r.append(c)
        c = c.t
    return r


def check(ctx):
    rng = ctx.rng
    cases = []
    for i in range(ctx.n(4000, 120000)):
        c = Case(rng, i)
        for v in "abc":
            val, s = c.fresh()
            c.vars[v] = val
            c.src.append("define %s %s" % (v, s))
        for _ in range(rng.randint(6, 24)):
            c.step()
        cases.append(c)

    def one(group):
        text = PRE + "".join("block {\n%s\n}\n" % "\n".join(c.src) for c in group)
        r = ctx.script(text, timeout=120)
        if r.crashed or r.timeout or r.rc != 0:
            ctx.violation("list operations crashed oh or made it unresponsive", text + "\n" + r.brief(3000))
            return
        got = {}
        for ln in r.text().split("\n")[:-1]:
            f = ln.split(" ", 3)
            if len(f) < 3 or not f[0].isdigit():
                continue
            got.setdefault(int(f[0]), []).append((int(f[1]), f[2], f[3] if len(f) > 3 else ""))
        for c in group:
            g = got.get(c.n, [])
            want = c.want
            msg = None
            for j, w in enumerate(want):
                if j >= len(g):
                    msg = "step %d: nothing logged, expected %s %s" % (w[0], w[1], w[2])
                    break
                x = g[j]
                try:
                    v = " ".join(lit.rep(e) for e in pylist(lit.decode(x[2])))
                except (lit.Bad, TypeError):
                    v = "undecodable " + x[2]
                if (x[0], x[1]) != (w[0], w[1]) or (w[2] is not None and v != w[2]):
                    msg = "step %d: expected %s %s, got %s %s" % (w[0], w[1], w[2], x[1], v)
                    break
            if msg is None and len(g) != len(want):
                msg = "%d events logged, expected %d" % (len(g), len(want))
            ctx.cover("\n".join(c.src), "\n".join(c.src), nontrivial=c.mutated)
            ctx.count("operations", c.k)
            ctx.count("observations", len(want))
            ctx.count("exceptions", sum(1 for w in want if w[1] == "E"))
            if msg:
                ctx.violation(msg, PRE + "block {\n%s\n}\n" % "\n".join(c.src))
    size = 40
    ctx.pmap(one, [cases[i:i + size] for i in range(0, len(cases), size)])
