"""C04: the words of a command are exactly the arguments the external command receives."""
import os
import lit, probe

RULE = ("A case is one command run through a recording executable, its words built from bare text, single quotes, $'...' escapes, double "
        "quotes with references, variables, captures, splices, numbers and adjacent pieces of these, in one of several contexts (plain, "
        "method, pipeline, capture, background, redirection, prefix, eval, through a name on PATH). The recorded argument vector is compared byte for "
        "byte with the intended words. Non-trivial: some word contains a metacharacter, is empty or is made of several pieces; distinct by source.")
ASSUMPTIONS = ["bytes that are not UTF-8 appear in words by way of escapes, files, arguments and variables, not raw within double quotes or $'...'",
               "a backslash in a bare word keeps the next character from ending the word, and stays in it"]

NASTY = ["*", "?", "[a]", "~", "$x", "${x}", "$$", "`x`", "(a b)", "|", "&", ";", "<", ">", "#c", "{", "}", " ", "  ", "\t", "\n", "'", "\"", "\\", "\\n", "\\\\", "!", "=", "a=b", ":", ",", ".", "..", "/",
         "-", "--", "-n", "\u00e9", "\u4e2d", "\U0001f600", "\x01", "\x7f", "\r", "a", "b", "XY", "0", "1.50", "()", "true", "%s", "\u2028", "\u00a0"]


def text(r, maxn=5, invalid=False):
    k = r.random()
    if k < 0.06:
        return ""
    if k < 0.08:
        return "".join(r.choice(NASTY) for _ in range(r.randint(50, 400)))
    s = "".join(r.choice(NASTY) for _ in range(r.randint(1, maxn)))
    if invalid and r.random() < 0.2:
        b = bytearray(s.encode("utf-8", "surrogateescape"))
        b.insert(r.randint(0, len(b)), r.randint(0x80, 0xff))
        s = bytes(b).decode("utf-8", "surrogateescape")
    return s


def sq(s):
    return "'" + s + "'" if "'" not in s else None


def ds(r, s):
    """A $'...' word for s, with randomly chosen escapes."""
    o = []
    try:
        s.encode("utf-8")
        units = list(s)
    except UnicodeEncodeError:
        units = [bytes([b]).decode("latin-1") if b < 128 else b for b in s.encode("utf-8", "surrogateescape")]
    esc = {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\a": "\\a", "\\": "\\\\", "'": "\\'", '"': '\\"'}
    for c in units:
        if isinstance(c, int):
            o.append(r.choice(["\\x%02x", "\\x%02X", "\\%03o"]) % c)
            continue
        n = ord(c)
        k = r.random()
        if c in "'\\" or k < 0.3 and c in esc:
            o.append(esc[c])
        elif k < 0.4 and n < 128:
            o.append(r.choice(["\\x%02x", "\\%03o", "\\u%04x", "\\U%08x"]) % n)
        elif k < 0.5 and n < 0x10000:
            o.append(r.choice(["\\u%04x", "\\U%08X"]) % n)
        elif k < 0.6:
            o.append("\\U%08x" % n)
        else:
            o.append(c)
    return "$'" + "".join(o) + "'"


class Prog:
    def __init__(self, r):
        self.r = r
        self.pre = []
        self.vars, self.lists, self.files = {}, {}, {}
        for i in range(6):
            n = "v%d" % i
            v = text(r, 6, True)
            self.vars[n] = v
            self.pre.append("define %s %s" % (n, ds(r, v)) if r.random() < 0.6 or sq(v) is None or not utf8(v) else "define %s %s" % (n, sq(v)))
        self.vars["VAR1"] = text(r, 4)
        self.pre.append("export VAR1 %s" % ds(r, self.vars["VAR1"]))
        for i in range(3):
            n = "l%d" % i
            vs = [text(r, 4, True) for _ in range(r.randint(0, 4))]
            self.lists[n] = vs
            self.pre.append("define %s (list %s)" % (n, " ".join(ds(r, v) for v in vs)))
        for i in range(3):
            n = "f%d.txt" % i
            ls = [text(r, 5, True).replace("\n", "") for _ in range(r.randint(0, 4))]
            self.files[n] = ls
        self.args = [text(r, 4, True) for _ in range(r.randint(1, 4))]

    def piece(self):
        """A piece of a word: (source, value, joinable on the right)."""
        r = self.r
        k = r.random()
        if k < 0.2:
            s = "".join(r.choice(["a", "b", "X", "0", "-", "_", "%", "+", "\u00e9", "!", "^", "\\ ", "\\;", "\\$", "\\#", "\\\"", "\\|", "\\(", "\\}", "\\&", "\\<", "\\'", "\\`", "\\\\", "\\\u00e9"] if r.random() < 0.4 else "abX0-_%+") for _ in range(r.randint(1, 4)))
            return "bare", s, s
        if k < 0.36:
            s = text(r)
            if sq(s):
                return "q", sq(s), s
        if k < 0.58:
            s = text(r, invalid=True)
            return "q", ds(r, s), s
        if k < 0.76:
            return self.dq()
        if k < 0.88:
            n = r.choice(list(self.vars))
            if r.random() < 0.7:
                return "q", "${%s}" % n, self.vars[n]
            return "var", "$" + n, self.vars[n]
        if k < 0.91:
            c = r.choice([":", ",", "@", ".", "/", "="])
            return "punct", c, c
        if k < 0.94:
            a, v = r.choice([("(number 3)", "3"), ("(div 1 3)", "1/3"), ("(status 7)", "7"), ("(number 1.50)", "3/2"), ("(sub 2 5)", "-3")])
            return "q", a, v
        if k < 0.97:
            n = r.randrange(len(self.args))
            return "q", "${%d}" % (n + 1), self.args[n]
        s = text(r)
        return "q", "(mend '' %s)" % ds(r, s), s

    def dq(self):
        r = self.r
        o, v = [], []
        for _ in range(r.randint(0, 5)):
            k = r.random()
            if k < 0.25:
                n = r.choice(list(self.vars))
                o.append("${%s}" % n)
                v.append(self.vars[n])
            elif k < 0.32:
                n = r.choice(list(self.vars))
                o.append("$" + n + " ")
                v.append(self.vars[n] + " ")
            elif k < 0.4:
                o.append("$$")
                v.append("$")
            elif k < 0.5:
                a, b = r.choice([("\\n", "\n"), ("\\t", "\t"), ("\\\\", "\\"), ("\\\"", '"'), ("\\x41", "A"), ("\\u4e2d", "\u4e2d"), ("\\x0a", "\n")])
                o.append(a)
                v.append(b)
            else:
                s = "".join(c for c in text(r) if c not in "\\\"$")
                o.append(s)
                v.append(s)
        return "q", '"' + "".join(o) + '"', "".join(v)

    def word(self):
        """(source, [values])"""
        r = self.r
        k = r.random()
        if k < 0.1:
            n = r.choice(list(self.lists))
            return "(splice $%s)" % n, list(self.lists[n])
        if k < 0.16:
            n = r.choice(list(self.files))
            return "`(cat %s)" % n, list(self.files[n])
        if k < 0.19:
            s = text(r).replace("\n", "")
            return "`(write-line %s)" % ds(r, s), [s]
        if k < 0.21:
            return "(splice $@)", list(self.args)
        if k < 0.24:
            a, v = r.choice([("~", self.home), ("~/x", self.home + "/x"), ("a~", "a~"), ("'~'", "~"), ('"~/x"', "~/x")])
            return a, [v]
        ps = [self.piece()]
        n = 1 if r.random() < 0.6 else r.randint(2, 4)
        for _ in range(20):
            if len(ps) >= n:
                break
            p = self.piece()
            if ps[-1][0] in ("bare", "var") and p[0] == "bare" or ps[-1][0] == "var" and p[0] != "punct":
                continue
            ps.append(p)
        # A word of bare pieces alone must not be something else.
        src = "".join(p[1] for p in ps)
        val = "".join(p[2] for p in ps)
        if all(p[0] in ("bare", "punct") for p in ps) and (src.endswith("=") or len(ps) > 1 and ps[1][1] == "=" or src in (".", "=") and len(ps) == 1):
            return "'%s'" % src, [val]
        return src, [val]

    def command(self, i):
        """(lines, argv)"""
        r = self.r
        words, vals = [], []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6])):
            s, v = self.word()
            words.append(s)
            vals += v
        k = r.random()
        tag = "n%d" % i
        gap = r.choice([" ", " ", "  ", "\t", " \\\n"])
        w = gap.join([tag] + words)
        argv = [tag] + vals
        a0, n0 = r.choice([("./probe", "./probe"), ("./probe", "./probe"), ("'./probe'", "./probe"), ("prb", "prb"), ("command prb", "prb"), ("'./my probe'", "./my probe"),
                           ("${pv}", "./probe"), ("$PWD/probe", None), ('"./pr${ob}e"', "./probe")])
        cmd = a0 + gap + w
        self.ctxname = "plain"
        if k < 0.5:
            return cmd, n0, argv
        c = r.choice(["block", "method", "pipeline", "capture", "background", "redirect", "prefix", "if", "andor", "forward", "seq", "stage2", "eval", "for", "subst"])
        self.ctxname = c
        t = {
            "block": "block {\n%s\n}", "method": "define m%d: method () {\n%%s\n}\nm%d" % (i, i), "pipeline": "%s | cat", "capture": "define c: capture (%s)",
            "background": "%s &\nwait", "redirect": "%s >> /dev/null", "prefix": "X=1 %s", "if": "if (%s) {\ntrue\n}", "andor": "true && %s", "forward": None,
            "seq": "true; %s", "stage2": "true | %s", "eval": "block {\ndefine q: quote (%s)\neval $q\n}", "for": "for (list 1) (method (x) {\n%s\n})",
            "subst": "cat |<(%s)",
        }[c]
        if c == "forward":
            return "fwd " + w, "./probe", argv
        return t % cmd, n0, argv


def utf8(s):
    try:
        s.encode("utf-8")
        return True
    except UnicodeEncodeError:
        return False


def check(ctx):
    rng = ctx.rng
    probe.build(ctx)
    progs = []
    for _ in range(ctx.n(250, 5000)):
        p = Prog(rng)
        p.home = ctx.home
        cmds = []
        for i in range(rng.randint(15, 40)):
            line, a0, argv = p.command(i)
            cmds.append((line, a0, argv, p.ctxname))
        progs.append((p, cmds))
    # Sizes: many words and long ones.
    big = []
    for n, size in ((3000, 8), (40, 2500), (1, 100000)):
        p = Prog(rng)
        p.home = ctx.home
        vs = [text(rng)[:size].ljust(min(size, 20), "x") * (1 if size <= 8 else size // 20) for _ in range(n)]
        big.append((p, [("./probe " + " ".join(ds(rng, v) for v in vs), "./probe", vs, "plain"),
                        ("define lv (list %s)\n./probe (splice $lv)" % " ".join(ds(rng, v) for v in vs), "./probe", vs, "splice")]))
    ctx.pmap(lambda x: one(ctx, *x), progs + big)


def one(ctx, p, cmds):
    d = ctx.mkdir()
    probe.install(ctx, d, ("probe", "prb", "my probe"))
    for n, ls in p.files.items():
        with open(os.path.join(d, n), "wb") as f:
            f.write("".join(x + "\n" for x in ls).encode("utf-8", "surrogateescape"))
    pre = "\n".join(p.pre) + "\ndefine pv './probe'\ndefine ob ob\ndefine fwd: method ((args)) {\n    ./probe (splice $args)\n}\n"
    text = pre + "\n".join(c[0] for c in cmds) + "\n"
    r = ctx.script(text, p.args, cwd=d, env=ctx.env(PATH="/usr/bin:/bin:" + d), timeout=90)
    recs = probe.read(d)
    ctx.rmdir(d)
    if r.timeout or r.crashed or r.rc != 0:
        ctx.violation("oh did not run a list of commands: %s" % r.brief(300), text + r.brief(3000))
        return
    for i, (line, a0, argv, cn) in enumerate(cmds):
        ctx.count("context " + cn)
        ctx.count("words", len(argv))
        ctx.cover(line, line if i % 7 == 3 else None, nontrivial=any(not v.isalnum() for v in argv))
        if i >= len(recs):
            ctx.violation("a command did not run: %s" % r.brief(300), "args %r\ncommand:\n%s\nprogram:\n%s" % (p.args, line, text) + r.brief(2000))
            return
        got = recs[i].argv
        # Stray bytes next to each other can be a character.
        argv = [a.encode("utf-8", "surrogateescape").decode("utf-8", "surrogateescape") for a in argv]
        if got[1:] != argv or a0 is not None and got[0] != a0:
            ctx.violation("the arguments received are not the words of the command: %s" % line[:300],
                          "expected %r\ngot      %r\nprogram (arguments %r):\n%s\n%s" % ([a0] + argv, got, p.args, text, r.brief(2000)))
            return
    if len(recs) != len(cmds):
        ctx.violation("%d commands ran instead of %d" % (len(recs), len(cmds)), text)
