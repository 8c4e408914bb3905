"""Oh values in Python: generation of source text for them and an independent
decoder for the text oh writes for them. Text is str with surrogateescape."""
import re
from fractions import Fraction


class Sym(str):
    def __repr__(self): return "Sym(%s)" % str.__repr__(self)
    def __eq__(self, o): return isinstance(o, Sym) and str.__eq__(self, o)
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(("sym", str(self)))


class Str(str):
    def __repr__(self): return "Str(%s)" % str.__repr__(self)
    def __eq__(self, o): return isinstance(o, Str) and str.__eq__(self, o)
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(("str", str(self)))


class Num(Fraction):
    def __repr__(self): return "Num(%s)" % str(self)
    def __eq__(self, o): return isinstance(o, Num) and Fraction.__eq__(self, o)
    def __hash__(self): return hash(("num", self.numerator, self.denominator))


class Status(Fraction):
    def __repr__(self): return "Status(%s)" % str(self)
    def __eq__(self, o): return isinstance(o, Status) and Fraction.__eq__(self, o)
    def __hash__(self): return hash(("status", self.numerator, self.denominator))


class Cons:
    __slots__ = ("h", "t")
    def __init__(self, h, t): self.h, self.t = h, t
    def __eq__(self, o):
        a = self
        while isinstance(a, Cons) and isinstance(o, Cons):
            if a is o:
                return True
            if a.h != o.h:
                return False
            a, o = a.t, o.t
        return not isinstance(a, Cons) and not isinstance(o, Cons) and a == o

    def __hash__(self):
        r, a = [], self
        while isinstance(a, Cons):
            r.append(hash(a.h))
            a = a.t
        return hash(("cons", tuple(r), a))

    def __repr__(self): return rep(self)


class _Nil:
    def __repr__(self): return "()"


NIL = _Nil()
TRUE = Sym("true")


def lst(*vs, tail=NIL):
    r = tail
    for v in reversed(vs):
        r = Cons(v, r)
    return r


def pylist(c):
    """The elements of a proper list, or None."""
    r = []
    while isinstance(c, Cons):
        r.append(c.h)
        c = c.t
    return r if c is NIL else None


def rep(v):
    if isinstance(v, Cons):
        s = []
        while isinstance(v, Cons):
            s.append(rep(v.h))
            v = v.t
        return "(" + " ".join(s) + ("" if v is NIL else " . " + rep(v)) + ")"
    return repr(v)


def numtext(f):
    return str(f.numerator) if f.denominator == 1 else "%d/%d" % (f.numerator, f.denominator)


def text(v):
    """String value of a scalar, as with common.String."""
    if isinstance(v, (Sym, Str)):
        return str(v)
    if isinstance(v, Fraction):
        return numtext(v)
    raise ValueError(v)


BARE = re.compile(r"[A-Za-z_][A-Za-z0-9_!%+?-]*\Z")


def dq(s):
    """$'...' source for the text s."""
    o = []
    for b in s.encode("utf-8", "surrogateescape"):
        c = chr(b)
        if c == "'" or c == "\\":
            o.append("\\" + c)
        elif c == "\n":
            o.append("\\n")
        elif 32 <= b < 127:
            o.append(c)
        else:
            o.append("\\x%02x" % b)
    return "$'" + "".join(o) + "'"


def q(s):
    """A source word denoting the string s."""
    if "'" not in s and "\n" not in s and "\0" not in s:
        try:
            s.encode("utf-8")
            return "'" + s + "'"
        except UnicodeEncodeError:
            pass
    return dq(s)


def src(v):
    """Source of an expression with the value v."""
    if v is NIL:
        return "()"
    if isinstance(v, Sym):
        if BARE.match(v):
            return str(v)
        return "(symbol %s)" % q(v)
    if isinstance(v, Str):
        return q(v)
    if isinstance(v, Num):
        return "(number '%s')" % numtext(v)
    if isinstance(v, Status):
        return "(status (number '%s'))" % numtext(v)
    if isinstance(v, Cons):
        l = pylist(v)
        if l is not None:
            return "(list %s)" % " ".join(src(x) for x in l)
        return "(cons %s %s)" % (src(v.h), src(v.t))
    raise ValueError(v)


class Bad(Exception):
    pass


ESC = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92, "'": 39, '"': 34}


class Reader:
    """Decodes one written record (a line without its newline)."""

    def __init__(self, s):
        self.s, self.i = s, 0

    def peek(self, n=1):
        return self.s[self.i:self.i + n]

    def ws(self):
        while self.peek() == " ":
            self.i += 1

    def expect(self, t):
        if not self.s.startswith(t, self.i):
            raise Bad("expected %r at %d in %r" % (t, self.i, self.s))
        self.i += len(t)

    def record(self):
        if self.s == "":
            return NIL
        v = self.items(None)
        if self.i != len(self.s):
            raise Bad("trailing text at %d in %r" % (self.i, self.s))
        return v

    def items(self, end):
        vs = []
        while True:
            self.ws()
            if self.i >= len(self.s):
                if end is None:
                    break
                raise Bad("unterminated list in %r" % self.s)
            if end and self.s.startswith(end, self.i):
                break
            vs.append(self.value())
        return lst(*vs)

    def value(self):
        if self.peek(2) == "(|":
            self.i += 2
            m = re.compile(r"[a-z]+").match(self.s, self.i)
            if not m:
                raise Bad("bad meta in %r" % self.s)
            kind = m.group()
            self.i = m.end()
            self.expect(" ")
            if kind == "cons":
                h = self.value()
                self.expect(" ")
                t = self.value()
                self.expect("|)")
                return Cons(h, t)
            if kind in ("number", "status"):
                m = re.compile(r"-?[0-9]+(/[0-9]+)?").match(self.s, self.i)
                if not m:
                    raise Bad("bad number in %r" % self.s)
                self.i = m.end()
                self.expect("|)")
                f = Fraction(m.group())
                if numtext(f) != m.group():
                    raise Bad("number not in lowest terms in %r" % self.s)
                return Num(f) if kind == "number" else Status(f)
            if kind == "symbol":
                v = self.quoted()
                self.expect("|)")
                return Sym(v)
            raise Bad("unknown meta %s in %r" % (kind, self.s))
        if self.peek() == "(":
            self.i += 1
            v = self.items(")")
            self.expect(")")
            return v
        if self.peek(2) == "$'":
            return Str(self.quoted())
        m = re.compile(r"[^\s\"#&'();<>`{|}]+").match(self.s, self.i)
        if not m:
            raise Bad("unexpected text at %d in %r" % (self.i, self.s))
        self.i = m.end()
        return Sym(m.group())

    def quoted(self):
        self.expect("$'")
        o = bytearray()
        while True:
            c = self.peek()
            if c == "":
                raise Bad("unterminated string in %r" % self.s)
            self.i += 1
            if c == "'":
                break
            if c != "\\":
                o += c.encode("utf-8", "surrogateescape")
                continue
            e = self.peek()
            self.i += 1
            if e in "xuU":
                n = {"x": 2, "u": 4, "U": 8}[e]
                h = self.peek(n)
                self.i += n
                try:
                    v = int(h, 16)
                except ValueError:
                    raise Bad("bad escape in %r" % self.s)
                o += bytes([v]) if e == "x" else chr(v).encode("utf-8", "surrogatepass")
            elif e in ESC:
                o.append(ESC[e])
            elif e and e in "01234567":
                h = e + self.peek(2)
                self.i += 2
                o.append(int(h, 8))
            else:
                raise Bad("bad escape in %r" % self.s)
        return bytes(o).decode("utf-8", "surrogateescape")


def decode(line):
    return Reader(line).record()


# --- random values --------------------------------------------------------

HOSTILE = list(" \t\n\r'\"\\$`(){}[]|&;<>#*?~!@%^-_=+,./:\x01\x7f\xa0\u00e9\u2028\u4e2d\U0001f600") + ["''", "$$", "${x}", "\\n", "(|", "|)", "&&", "a", "b", "0", "Z"]


def rtext(rng, maxlen=8, invalid=False, alphabet=None):
    r = rng.random()
    if r < 0.05:
        return ""
    a = alphabet or HOSTILE
    if r < 0.35:
        return "".join(rng.choice("abcxyzABC019_- ") for _ in range(rng.randint(1, maxlen)))
    s = "".join(rng.choice(a) for _ in range(rng.randint(1, maxlen)))
    if invalid and rng.random() < 0.25:
        b = bytearray(s.encode("utf-8", "surrogateescape"))
        b.insert(rng.randint(0, len(b)), rng.randint(1, 255))
        s = bytes(b).decode("utf-8", "surrogateescape")
    return s


def rnum(rng):
    r = rng.random()
    if r < 0.4:
        f = Fraction(rng.randint(-10, 10))
    elif r < 0.6:
        f = Fraction(rng.randint(-100, 100), rng.randint(1, 60))
    elif r < 0.8:
        f = Fraction(rng.getrandbits(rng.choice([31, 32, 53, 63, 64, 65, 128, 200])) * rng.choice([1, -1]))
    else:
        f = Fraction(rng.getrandbits(rng.choice([80, 80, 300])) * rng.choice([1, -1]), rng.getrandbits(70) + 1)
    return f
