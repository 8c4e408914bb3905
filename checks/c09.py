"""C09: names and scopes."""
import random
import model
from model import NIL

RULE = ("A case is one lookup, assignment or call in a random program of nested blocks, branches, loops, methods, closures, objects and first-class scopes that define, export, set and look up a few names at every level. "
        "The program is run by oh and by a reference interpreter of lexical scopes and callers' frames, and the event logs are compared. Every value is unique, so a log shows which variable was used. "
        "Non-trivial: the name is defined in more than one place that could be meant; distinct by the shape of the program around it and by what was logged.")
ASSUMPTIONS = ["a name is not both exported and privately defined in one scope", "names are not exported into the scope of a caller while the call is running"]

VARS = ["a", "b", "c", "d"]
DYN = ["p", "q", "r"]           # never defined outside of a method


class Gen:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.tag = 0
        self.mi = 0
        self.methods = []      # those that may be called, in order of definition
        self.closures = []
        self.scopes = []
        self.kind = {}
        self.inside = 0        # how many bodies of methods this is in
        self.busy = 0

    def var(self):
        return self.r.choice(VARS + DYN) if self.inside else self.r.choice(VARS)

    def lam(self, f):
        self.inside += 1
        v = f()
        self.inside -= 1
        return v

    def num(self):
        self.n += 1
        return self.n

    def t(self):
        self.tag += 1
        return self.tag

    def val(self):
        r = self.r
        return ("k", 100 + self.num()) if r.random() < 0.8 else r.choice([("v", r.choice(VARS)), ("list", [("k", self.num()), ("v", r.choice(VARS))])])

    def look(self, x=None):
        x = x or self.r.choice(VARS + DYN + DYN)
        return ("if", ("resolves", x), [("ev", self.t(), [("v", x)])], [("ev", self.t(), [("k", "none")])])

    def decl(self, here):
        """A definition that keeps names either private or exported in one scope."""
        r = self.r
        x = self.var()
        k = here.setdefault(x, r.choice(["define", "define", "export"] if x in VARS else ["define", "export", "export", "export"]))
        return (k, x, self.val(), r.choice(["", "colon"]))

    def body(self, depth, n, limit, here=None):
        """Commands for a scope of its own; methods with an index below limit may be called."""
        r = self.r
        here = {} if here is None else here
        o = []
        scopes = list(self.scopes)
        closures = list(self.closures)
        for _ in range(n):
            k = r.random()
            if k < 0.24:
                o.append(self.decl(here))
            elif k < 0.42:
                o.append(self.look())
            elif k < 0.52:
                x = r.choice(VARS + DYN)
                o.append(self.guard([("set", x, self.val(), r.choice(["", "colon"]))], ("ev", self.t(), [("k", "unset")])) if r.random() < 0.5 else
                         ("if", ("resolves", x), [self.guard([("set", x, self.val())], ("ev", self.t(), [("k", "dynamic")]))], None))
            elif k < 0.66 and self.callable(limit):
                m = r.choice(self.callable(limit))
                o.append(("do", ("app", ("n", m[1]), [self.val() for _ in range(m[2])])))
            elif k < 0.72 and self.closures:
                c = r.choice(self.closures)
                o.append(("if", ("resolves", c), [("do", ("app", ("v", c), []))], None))
            elif k < 0.75:
                o.append(("do", ("app", ("n", "nosuch-%d" % self.num()), [])) if r.random() < 0.04 else self.look())
            elif k < 0.80 and self.scopes:
                e = r.choice(self.scopes)
                kind = r.choice(["define", "set", "get", "eval"])
                x = r.choice(VARS)
                if kind == "get":
                    o.append(self.guard([("ev", self.t(), [("eget", ("v", e), x)])], ("ev", self.t(), [("k", "none")])))
                elif kind == "set":
                    o.append(self.guard([("edef", ("v", e), "set", x, self.val())], ("ev", self.t(), [("k", "none")])))
                elif self.kind.setdefault(e, {}).setdefault(x, "define") == "define" and kind == "define":
                    o.append(("edef", ("v", e), "define", x, self.val()))
                else:
                    o.append(self.look(x))
            elif depth <= 0:
                o.append(self.look())
            else:
                o.extend(self.compound(depth, limit, here))
        self.scopes = scopes
        self.closures = closures
        return o

    def callable(self, limit):
        return [m for m in self.methods if m[0] < limit]

    def guard(self, body, onerr):
        g = "g%d" % self.num()
        return ("block", [("method", g, [], None, [("catch", "ex", [onerr, ("return", ("k", NIL))])] + body + [("return", ("k", NIL))]), ("do", ("app", ("n", g), []))])

    def compound(self, depth, limit, here):
        r = self.r
        k = r.choice(["chain", "chain", "syntax", "evaluate", "block", "if", "for", "while", "method", "method", "method", "closure", "object", "scope", "makers", "guard", "redef"])
        size = r.randint(2, 5)
        if k == "block":
            return [("block", self.body(depth - 1, size, limit))]
        if k == "if":
            cond = r.choice([("lt", ("k", 1), ("k", 2)), ("lt", ("k", 2), ("k", 1)), ("resolves", r.choice(VARS))])
            return [("if", cond, self.body(depth - 1, size, limit), r.choice([None, 1]) and self.body(depth - 1, size, limit))]
        if k == "for":
            p = r.choice(VARS + ["i"])
            here2 = {p: "define"}
            return [("for", ("list", [("k", 500 + self.num()), ("k", 500 + self.num())]), ("lam", [p], None, self.lam(lambda: self.body(depth - 1, size, limit, here2)) + [("return", ("k", NIL))]))]
        if k == "while":
            w = "w%d" % self.num()
            return [("define", w, ("k", 0)), ("while", ("lt", ("v", w), ("k", 2)), [("set", w, ("add", ("v", w), ("k", 1)))] + self.body(depth - 1, size, limit, {}))]
        if k == "method":
            i = self.mi
            self.mi += 1
            n = r.choice([0, 0, 1, 2])
            ps = r.sample(VARS, n)
            b = self.lam(lambda: self.body(depth - 1, size, min(limit, i), {p: "define" for p in ps}))
            if r.random() < 0.4:
                b = b + [("return", self.val())]
            name = "mth%d" % i
            self.methods.append((i, name, n))
            out = "export" if r.random() < 0.3 else "define"
            o = [("method", name, ps, None, b, out)]
            if r.random() < 0.7:
                o.append(("do", ("app", ("n", name), [self.val() for _ in range(n)])))
            return o
        if k == "closure":
            c = "f%d" % self.num()
            self.closures.append(c)
            return [("define", c, ("lam", [], None, self.lam(lambda: self.body(1, size, limit)) + [("return", ("k", NIL))]))]
        if k == "object":
            ob = "o%d" % self.num()
            h = {}
            b = [self.decl(h) for _ in range(2)]
            ms = []
            for j in range(r.randint(1, 2)):
                ms.append("get%d" % j)
                b.append(("export", "get%d" % j, ("lam", [], None, self.lam(lambda: self.body(1, size, limit)) + [("return", ("k", NIL))])))
            o = [("define", ob, ("object", b), r.choice(["", "colon"]))]
            for m in ms * 2:
                o.append(("do", ("mem", ("v", ob), m, [])))
            return o
        if k == "scope":
            e = "E%d" % self.num()
            self.scopes.append(e)
            self.kind[e] = here
            return [("define", e, ("env",), "colon")]
        if k == "makers":
            # Every call has variables of its own, that live as long as the closures over them.
            mk, x, q = "mk%d" % self.num(), r.choice(VARS), self.num()
            inc = ("lam", [], None, [("set", x, ("add", ("v", x), ("k", r.choice([1, 10]))))])
            how = r.choice(["method", "for", "block"])
            if how == "method":
                o = [("method", mk, [x], None, [("return", inc)])]
                cs = ["h%d-%d" % (q, j) for j in range(3)]
                o += [("define", c, ("app", ("n", mk), [("k", 1000 * (j + 1))])) for j, c in enumerate(cs)]
                calls = [("app", ("v", c), []) for c in cs]
            elif how == "for":
                o = [("define", mk, ("for", ("list", [("k", 1000), ("k", 2000), ("k", 3000)]), ("lam", [x], None, [("return", inc)])))]
                cs = [("head", ("v", mk)), ("head", ("tail", ("v", mk))), ("head", ("tail", ("tail", ("v", mk))))]
                calls = [("app", c, []) for c in cs]
            else:
                cs = ["h%d-%d" % (q, j) for j in range(2)]
                o = [("define", c, ("k", NIL)) for c in cs]
                o += [("block", [("define", x, ("k", 1000 * (j + 1))), ("set", c, inc)]) for j, c in enumerate(cs)]
                calls = [("app", ("v", c), []) for c in cs]
            for _ in range(5):
                o.append(("ev", self.t(), [r.choice(calls)]))
                if r.random() < 0.3:
                    o.append(self.look(x))
            return o
        if k == "chain":
            # A name that only some of the callers export.
            q, n, o = self.num(), r.randint(1, 4), []
            names = ["ch%d-%d" % (q, j) for j in range(n + 1)]
            x = r.choice(DYN)
            leaf = [self.look(x), self.look()]
            if r.random() < 0.3:
                leaf.append(self.guard([("set", x, self.val())], ("ev", self.t(), [("k", "unset")])))
            o.append(("method", names[0], [], None, leaf))
            for j in range(n):
                call = ("do", ("app", ("n", names[j]), []))
                y = r.choice(DYN)
                first = (r.choice(["export", "export", "define"]), r.choice([x, x, y]), self.val())
                other = (r.choice(["export", "define"]), r.choice(VARS + [y]), self.val())
                w = r.choice(["plain", "block", "if", "after", "none", "ended", "sibling"])
                if w == "plain":
                    b = [first, call]
                elif w == "block":
                    b = [first, ("block", [other, call] if r.random() < 0.7 else [call])]
                elif w == "if":
                    b = [first, ("if", ("lt", ("k", 1), ("k", 2)), [other, call], None)]
                elif w == "after":
                    b = [call, first]
                elif w == "ended":
                    b = [("block", [first]), call]
                elif w == "sibling":
                    b = [("block", [first, call]), call]
                else:
                    b = [call]
                if other[1] == first[1]:
                    b = [("block", [first]) if c == other else c for c in b]
                o.append(("method", names[j + 1], [], None, b + [("return", ("k", NIL))] if r.random() < 0.5 else b))
            o.append(("do", ("app", ("n", names[n]), [])))
            return o
        if k == "syntax":
            # An operand evaluated where the call is, whatever the names of the syntax.
            q, x, y = "syn%d" % self.num(), r.choice(VARS + DYN), r.choice(VARS + DYN)
            b = [("define", x, self.val()), (r.choice(["define", "export"]), y, self.val())] if x != y else [("export", x, self.val())]
            return [("syntax", q, ["code"], None, "e", b + [("ev", self.t(), [("evalin", ("v", "e"), ("v", "code"))]), ("return", ("k", NIL))]),
                    ("if", ("resolves", x), [("do", ("app", ("n", q), [("v", x)]))], None),
                    ("do", ("app", ("n", q), [("resolves", y)]))]
        if k == "evaluate":
            # Code evaluated in the scope of a call that has ended.
            q, x = self.num(), r.choice(DYN)
            m, e, v = "mks%d" % q, "S%d" % q, "evl%d" % q
            b = [(r.choice(["define", "export", "export"]), r.choice(VARS), self.val()) for _ in range(r.choice([0, 1, 1]))]
            return [("method", m, [], None, b + [("return", ("env",))]),
                    ("define", e, ("app", ("n", m), [])),
                    ("method", v, ["s", "code"], None, [(r.choice(["define", "export", "export"]), x, self.val()), ("ev", self.t(), [("evalin", ("v", "s"), ("v", "code"))]), ("return", ("k", NIL))])] + [
                    ("do", ("app", ("n", v), [("v", e), ("quote", ("resolves", r.choice([x, x] + VARS)))])) for _ in range(2)]
        if k == "guard":
            return [self.guard(self.body(depth - 1, size, limit), ("ev", self.t(), [("k", "error"), ("v", "ex")]))]
        return [self.decl(here), self.look(), self.decl(here), self.look()]


def names(n, acc):
    if isinstance(n, (tuple, list)):
        for x in n:
            names(x, acc)
        if n and n[0] in ("define", "export", "set", "method", "while", "for", "block", "object", "if", "edef", "eget", "catch", "resolves"):
            acc.append(n[0])
    return acc


def check(ctx):
    def one(i):
        seed = "%s/09/%d" % (ctx.seed, i)
        r = random.Random(seed)
        for attempt in range(50):
            g = Gen(r)
            body = g.body(4, r.randint(6, 12), 10 ** 6)
            root = ctx.mkdir()
            res = model.compare(ctx, body, root, limit=30000)
            ctx.rmdir(root)
            if res is not None and len(res[0].log) >= 5:
                break
            ctx.count("programs discarded")
        else:
            return
        m, bad, text, rr = res
        for j, l in enumerate(m.log):
            ctx.cover((l.split()[0], l[:40], tuple(names(body, []))[:12]))
        ctx.count("programs")
        ctx.count("events compared", len(m.log))
        for k, v in m.counts.items():
            ctx.count(k, v)
        if i < 2:
            ctx.cover(n=0, sample=text[:1500])
        if bad:
            ctx.violation(bad, "case %s\n%s\n%s\n%s\nexpected:\n%s" % (seed, bad, text, rr.brief(2000), "\n".join(m.log[:200])))
    ctx.pmap(one, range(ctx.n(900, 30000)))
