"""C07: string functions against reference definitions."""
import lit, batch, globm
from lit import Sym, Str, Num, Status, NIL, TRUE, lst

RULE = ("A case is one call of a string function, mend/rend/match/string/symbol or a double-quoted string with references, on texts "
        "biased to metacharacters, multi-byte characters, empty strings and boundary indexes; the value (or exception) and its type are "
        "compared with a reference definition. Non-trivial: the result is not equal to the first operand, or is an exception; distinct by source.")
ASSUMPTIONS = ["upper and lower are checked on text whose case mapping is one character to one character"]


class Err:
    pass


ERR = Err()
CASED = "abcXYZ\u00e9\u00c9\u03b1\u03a9\u0436\u0416 9_-$\u4e2d"


def b(s):
    return s.encode("utf-8", "surrogateescape")


def u(x):
    return x.decode("utf-8", "surrogateescape")


def split_empty(s):
    return list(s)


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def s(self, maxlen=8, **kw):
        return lit.rtext(self.rng, maxlen, **kw)

    def val(self, t=None):
        """A string-like operand: (source, text, value)."""
        r = self.rng
        if t is None:
            k = r.random()
            if k < 0.1:
                f = Num(lit.rnum(r))
                return lit.src(f), lit.numtext(f), f
            if k < 0.15:
                f = Status(r.randint(0, 255))
                return lit.src(f), lit.numtext(f), f
            t = self.s(invalid=True)
        v = Str(t) if r.random() < 0.7 else Sym(t)
        return lit.src(v), t, v

    def length(self):
        s, t, _ = self.val()
        return "str length %s" % s, Num(len(b(t)))

    def slice(self):
        r = self.rng
        s, t, _ = self.val()
        x = b(t)
        n = len(x)
        st = r.choice([0, 0, 1, 2, n, n - 1, n + 1, r.randint(0, n + 2), -1, r.randint(-2, n)])
        args = [st]
        if r.random() < 0.7:
            args.append(r.choice([0, 1, n, n - 1, n + 1, -1, -2, -n, -n - 1, r.randint(-n - 2, n + 2)]))
        e = n
        if len(args) == 2:
            e = args[1]
            e = n if e > n else n + e if e < 0 else e
        st2 = min(st, n)
        v = ERR if st < 0 or e < st2 else Str(u(x[st2:e]))
        return "str slice %s %s" % (s, " ".join(map(str, args))), v

    def replace(self):
        r = self.rng
        alphabet = r.choice([None, ["a", "b", "ab"], ["\u00e9", "e", "."]])
        t = self.s(10, alphabet=alphabet)
        o = r.choice([self.s(2, alphabet=alphabet), t[:1], t[1:3], "", "a"])
        n = self.s(3)
        args = [lit.src(Str(t)), lit.q(o), lit.q(n)]
        cnt = -1
        if r.random() < 0.6:
            cnt = r.choice([0, 1, 2, 3, -1, -2])
            args.append(str(cnt))
        return "str replace " + " ".join(args), Str(t.replace(o, n, cnt if cnt >= 0 else -1))

    def case(self):
        r = self.rng
        t = "".join(r.choice(CASED) for _ in range(r.randint(0, 8)))
        s = lit.src(r.choice([Str, Sym])(t))
        if r.random() < 0.5:
            return "str upper %s" % s, Str(t.upper())
        return "str lower %s" % s, Str(t.lower())

    def trim(self):
        r = self.rng
        t = self.s(8, alphabet=r.choice([None, ["a", "b"], ["\n", "x"]]))
        k = r.choice([0, 1, 2, len(t), len(t) + 1])
        if r.random() < 0.5:
            p = r.choice([t[:k], self.s(2), t + "a", t[:1] + t[:1]])
            v = t[len(p):] if t.startswith(p) else t
            return "str trim-prefix %s %s" % (lit.q(t), lit.q(p)), Str(v)
        p = r.choice([t[len(t) - k:] if k <= len(t) else "a" + t, self.s(2), t[-1:] * 2])
        v = t[:len(t) - len(p)] if p and t.endswith(p) else t
        return "str trim-suffix %s %s" % (lit.q(t), lit.q(p)), Str(v)

    def mend(self):
        r = self.rng
        sep = self.s(3)
        vs = [self.val() for _ in range(r.randint(1, 5))]
        v = sep.join(t for _, t, _ in vs)
        # Joining bytes and decoding again can combine invalid pieces.
        v = u(b(sep).join(b(t) for _, t, _ in vs))
        kind = Str if any(isinstance(x, Str) for _, _, x in vs) else Sym
        return "mend %s %s" % (lit.q(sep), " ".join(s for s, _, _ in vs)), kind(v)

    def rend(self):
        r = self.rng
        a = r.choice([None, ["a", ",", ", "], ["::", ":", "x"]])
        t = self.s(10, alphabet=a)
        sep = r.choice([self.s(2, alphabet=a), t[:1], t[1:3], ",", ":", "", t])
        kind = r.choice([Str, Sym])
        ps = t.split(sep) if sep else split_empty(t)
        return "rend %s %s" % (lit.q(sep), lit.src(kind(t))), lst(*[kind(p) for p in ps])

    def roundtrip(self):
        r = self.rng
        sep = r.choice([",", "::", "\n", "ab", "\u00e9", " "])
        ps = [p for p in (self.s() for _ in range(r.randint(1, 5)))]
        ps = [p.replace(c, "") for p in ps for c in [sep]]
        ps = [p if all(c not in p for c in sep) else "z" for p in ps]
        # Pieces must not be able to combine with the separator.
        return "rend %s (mend %s %s)" % (lit.q(sep), lit.q(sep), " ".join(lit.q(p) for p in ps)), lst(*[Str(p) for p in ps])

    def match(self):
        r = self.rng
        while True:
            n = "".join(r.choice(["a", "b", "ab", ".", "-", "/", "]", "[", "*", "?", "\\", "\u00e9", "^"]) for _ in range(r.randint(0, 6)))
            if r.random() < 0.5:
                p = "".join(r.choice([c if c not in "*?[\\" else "\\" + c, "*", "?", "[%s]" % (c if c not in "]-\\^[" else "a-c"), "[^b]", "[a-c]", ""]) for c in n)
            else:
                p = "".join(r.choice(["a", "b", "*", "?", "[a-c]", "[^a]", "[ab]", ".", "/", "\\*", "[\\]]", "\u00e9", "**"]) for _ in range(r.randint(0, 6)))
            if "/" in n and "[" in p:
                continue  # Whether a class matches a separator is left open.
            try:
                v = globm.match(p, n)
            except globm.BadPattern:
                continue
            return "match %s %s" % (lit.q(p), lit.q(n)), TRUE if v else NIL

    def convert(self):
        r = self.rng
        s, t, _ = self.val()
        k = r.choice(["string", "symbol", "string", "symbol", "chain"])
        if k == "chain":
            return "string (symbol (string %s))" % s, Str(t)
        return "%s %s" % (k, s), (Str if k == "string" else Sym)(t)

    def interpolate(self):
        r = self.rng
        names = ["x", "y2", "_z", "A", "x-y", "q?", "w!", "a^b", "p%q", "s*t", "u+v", "w@", "[z]", "9", "3d", "Zz"]
        vals = {n: self.val() for n in r.sample(names, r.randint(1, 4))}
        pre = ["define %s %s" % (n, s) for n, (s, _, _) in vals.items()]
        src, out, err = [], [], False
        prev = ""
        for _ in range(r.randint(0, 7)):
            k = r.random()
            if k < 0.35:
                n = r.choice(sorted(vals))
                src.append("${%s}" % n)
                out.append(vals[n][1])
            elif k < 0.5:
                n = r.choice(sorted(vals))
                src.append("$" + n + r.choice([" ", ".", "/", ",", "\u00e9", "\\\"", ":", "$$", "(", ")", "'", "`", "{", "|"]))
                out.append(vals[n][1] + {"\\\"": '"', "$$": "$"}.get(src[-1][1 + len(n):], src[-1][1 + len(n):]))
            elif k < 0.6:
                src.append("$$")
                out.append("$")
            elif k < 0.64:
                src.append(r.choice(["${nosuch}", "$nosuch "]))
                err = True
            else:
                t = self.s(5)
                t = t.replace("$", "")
                for c in t:
                    o = ord(c)
                    if c == '"' or c == "\\":
                        src.append("\\" + c)
                    elif c in "\n\t\r" and r.random() < 0.7:
                        src.append({"\n": "\\n", "\t": "\\t", "\r": "\\r"}[c])
                    elif o < 32 or o == 127 or (0x80 <= o < 0x10000 and r.random() < 0.3):
                        src.append("\\u%04x" % o)
                    else:
                        src.append(c)
                    out.append(c)
        w = '"' + "".join(src) + '"'
        return pre + ["return " + w], ERR if err else Str(u(b"".join(b(x) for x in out)))

    def errors(self):
        r = self.rng
        return r.choice(["str length", "str length a b", "str slice abc", "str slice abc x", "str slice abc 1/2", "str slice abc 0 1 2", "str slice abc 2 1",
                         "str slice abc 'x'", "str slice abc -1", "str upper", "str lower a b", "str trim-prefix a", "str trim-suffix a b c", "str replace a b",
                         "str replace a b c d", "str replace a b c 1 2", "mend", "mend a", "match a", "match a b c", "match '[' 'a'", "string", "string a b",
                         "symbol", "str nosuch a", "str length (method () = ())"]), ERR


def check(ctx):
    g = Gen(ctx.rng)
    kinds = [g.length, g.slice, g.slice, g.replace, g.case, g.trim, g.trim, g.mend, g.rend, g.roundtrip, g.match, g.match, g.convert, g.interpolate, g.interpolate, g.errors]
    cases = []
    for _ in range(ctx.n(16000, 500000)):
        k = ctx.rng.choice(kinds)
        e, want = k()
        cases.append((k.__name__, e if isinstance(e, list) else ["return (%s)" % e], want))
    res = batch.evaluate(ctx, [c[1] for c in cases])
    for (name, lines, want), o in zip(cases, res):
        if o is None:
            continue
        ok = o.kind == "E" if want is ERR else o.kind == "V" and lit.rep(o.value) == lit.rep(want)
        ctx.cover("\n".join(lines), "%s => %r" % ("; ".join(lines), o))
        ctx.count(name)
        if not ok:
            ctx.violation("%s: expected %s, got %r" % (name, "an exception" if want is ERR else lit.rep(want), o), batch.program([lines]))
