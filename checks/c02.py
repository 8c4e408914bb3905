"""C02: values written to a pipe are read back equal."""
import lit
from lit import Sym, Str, Num, Status, Cons, NIL, lst, pylist

RULE = ("A case is a sequence of 1-4 records (lists of generated values, nested and improper, metacharacters preferred) written to a pipe or a file and "
        "read back with read-list, read or, for write-line, read-line. Monitors: equal? inside oh, a second write of what was read, and an "
        "independent decoder of the bytes written. Non-trivial: the records contain more than plain words; distinct by records.")
ASSUMPTIONS = ["symbols with , . / : = @ ~ next to other characters are outside of the domain: they are read back as code"]

SPECIAL = set(",./:=@~")


def domain(s):
    """Whether the symbol s is in the domain of the property."""
    return len(s) == 1 or not (set(s) & SPECIAL)


def value(rng, depth=2):
    k = rng.random()
    if k < 0.3:
        return Str(lit.rtext(rng, 8, invalid=True) if rng.random() < 0.95 else rng.choice(["\0", "a\0b", "x" * 300]))
    if k < 0.6:
        while True:
            s = lit.rtext(rng, 5, invalid=True) if rng.random() < 0.9 else rng.choice(["$", "$$", "a$", "else", "if", "quote", "!", "?", "*", "-", "+", "~", ".", "/", ":", "=", "@", ",", "1", "-1", "007"])
            if domain(s):
                return Sym(s)
    if k < 0.72:
        return Num(lit.rnum(rng))
    if k < 0.8:
        return Status(lit.rnum(rng) if rng.random() < 0.3 else rng.randint(0, 255))
    if k < 0.86 or depth == 0:
        return NIL
    if k < 0.95:
        return lst(*[value(rng, depth - 1) for _ in range(rng.randint(1, 3))])
    t = value(rng, 0)
    while t is NIL:
        t = value(rng, 0)
    return lst(*[value(rng, depth - 1) for _ in range(rng.randint(1, 3))], tail=t)


def plain(v):
    return isinstance(v, Sym) and lit.BARE.match(v)


def check(ctx):
    rng = ctx.rng
    cases = []
    for i in range(ctx.n(5000, 200000)):
        recs = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            k = rng.random()
            if k < 0.75:
                recs.append(("list", lst(*[value(rng) for _ in range(rng.randint(1, 4))])))
            elif k < 0.85:
                recs.append(("read", lst(value(rng))))
            else:
                recs.append(("line", Str(lit.rtext(rng, 10, invalid=True).replace("\n", ""))))
        cases.append((i, recs, rng.choice(["pipe", "pipe", "file"]) if rng.random() < 0.3 else "pipe"))

    def source(case):
        n, recs, via = case
        o = ["block {"]
        o.append("    define p: pipe" if via == "pipe" else "    define p: open w 'f%d'" % n)
        for j, (k, v) in enumerate(recs):
            if k == "line":
                o.append("    p write-line %s" % lit.src(v))
            else:
                o.append("    define v%d %s" % (j, lit.src(v)))
                o.append("    p write (splice $v%d)" % j)
        if via == "file":
            o += ["    p close", "    define raw: open r 'f%d'" % n] + ["    write-line (raw read-line)" for _ in recs]
            o += ["    write %d EOF (raw read-line)" % n, "    raw close", "    set p: open r 'f%d'" % n]
        for j, (k, v) in enumerate(recs):
            if k == "line":
                o += ["    write %d %d L (p read-line)" % (n, j)]
            elif k == "read":
                o += ["    define r%d: list (p read)" % j, "    write %d %d V (equal? $v%d $r%d) (splice $r%d)" % (n, j, j, j, j)]
            else:
                o += ["    define r%d: p read-list" % j, "    write %d %d V (equal? $v%d $r%d) (splice $r%d)" % (n, j, j, j, j)]
        if via == "pipe":
            o.append("    p writer-close")
        o += ["    write %d END (p read-list) (p read-line)" % n, "    p close", "}"]
        return "\n".join(o) + "\n"

    def want(case):
        n, recs, via = case
        w = []
        if via == "file":
            for k, v in recs:
                w.append(("raw", k, v))
            w.append(("rec", lst(Sym(str(n)), Sym("EOF"), NIL)))
        for j, (k, v) in enumerate(recs):
            if k == "line":
                w.append(("rec", lst(Sym(str(n)), Sym(str(j)), Sym("L"), v)))
            else:
                w.append(("rec", lst(Sym(str(n)), Sym(str(j)), Sym("V"), Sym("true"), *pylist(v))))
        w.append(("rec", lst(Sym(str(n)), Sym("END"), NIL, NIL)))
        return w

    def one(group):
        text = "".join(source(c) for c in group)
        r = ctx.script(text, timeout=120)
        if r.crashed or r.timeout or r.rc != 0:
            ctx.violation("reading back written values crashed oh or made it unresponsive", text + "\n" + r.brief(3000))
            return
        lines = r.text().split("\n")[:-1]
        at = 0
        for c in group:
            for w in want(c):
                ln = lines[at] if at < len(lines) else None
                at += 1
                msg = None
                try:
                    if ln is None:
                        msg = "nothing read back; stderr %r" % r.err[-400:]
                    elif w[0] == "raw" and w[1] == "line":
                        if ln != str(w[2]):
                            msg = "line %r written as %r" % (w[2], ln)
                    else:
                        x = w[2] if w[0] == "raw" else w[1]
                        got = lit.rep(lit.decode(ln))
                        if got != lit.rep(x):
                            msg = "expected %s, got %s" % (lit.rep(x), got)
                except lit.Bad as e:
                    msg = "undecodable: %s" % e
                if msg:
                    ctx.violation(msg, source(c))
                    return
            triv = all(k != "line" and all(plain(x) for x in pylist(v)) for k, v in c[1])
            ctx.cover([(k, lit.rep(v)) for k, v in c[1]], source(c), nontrivial=not triv)
            ctx.count("records", len(c[1]))
            ctx.count("via " + c[2])
    ctx.pmap(one, [cases[i:i + 100] for i in range(0, len(cases), 100)])
    # Long records, through a pipe with a concurrent writer.
    for n in ctx.n([1000, 70000, 300000], [1000, 4096, 65535, 65536, 65537, 70000, 300000, 2000000]):
        s = "".join(rng.choice("abc 'x\u00e9") for _ in range(1000)) * (n // 1000)
        text = "define p: pipe\ndefine v (list a (str replace %s '-' $'\\n') b)\nspawn {\n    p write (splice $v)\n    p write-line end\n    p writer-close\n}\ndefine r: p read-list\nwrite (equal? $v $r) (str length (r get 1)) (p read-line) (p read-line)\n" % lit.q(s + "-")
        r = ctx.script(text, timeout=120)
        ctx.cover(("long", n))
        exp = "true (|number %d|) $'end' ()\n" % len((s + "-").encode())
        if r.text() != exp:
            ctx.violation("a long record was not read back: expected %r" % exp, text[-400:] + "\n" + r.brief())
