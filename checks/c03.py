"""C03: whatever the text, the reader evaluates it, reports it or asks for more; and it recovers."""
import os, re
import lit, ptydrv
from lit import Sym, Str, Num, NIL, Cons, lst

RULE = ("A case is one text given to oh as a script, a sourced file, -c text, a record of a pipe or a line at the prompt: (a) a well-formed "
        "command rendered from a random tree, which must be read as exactly that tree; (b) the same with one malformation, which must be "
        "reported in every mode, evaluate nothing and leave the next record readable; (c) random bytes and mutated programs, where only "
        "evaluation, an error or a report of incompleteness is accepted (the text is parsed but not run: the first command exits). "
        "Distinct by text and mode.")
ASSUMPTIONS = ["texts of (c) are parsed but not evaluated, so that they have no effects; evaluation is covered by the other properties",
               "a text is considered to wedge the reader when it is not dealt with within 40 s"]

BARE = ["a", "foo", "b2", "-x", "x_y", "a*b", "?", "[ab]", "+", "0", "100", "%", "^", "!", "\u00e9", "a\\*b", "if", "else", "block"]


class Ast:
    """Random command trees with their text."""

    def __init__(self, rng):
        self.rng = rng

    def sp(self):
        return self.rng.choice(["", " ", "  ", "\t"])

    def sp1(self):
        return self.rng.choice([" ", " ", " ", "  ", "\t", " \\\n", " \\\n  "])

    def bare(self):
        return self.rng.choice(BARE)

    def element(self, d):
        """(kind, text, value)"""
        r = self.rng
        k = r.random()
        if k < 0.4 or d <= 0:
            t = self.bare()
            return "bare", t, Sym(t)
        if k < 0.5:
            t = "".join(r.choice(["a", " ", '"', "\\", "$", "(", ")", "#", "|", "{", "}", "\n", "\u4e2d", ";", "&"]) for _ in range(r.randint(0, 5)))
            return "q", "'" + t + "'", Str(t)
        if k < 0.58:
            v, t = [], []
            for _ in range(r.randint(0, 4)):
                a, b = r.choice([("\\n", "\n"), ("\\t", "\t"), ("\\'", "'"), ("\\\\", "\\"), ("\\x41", "A"), ("\\101", "A"), ("\\u00e9", "\u00e9"),
                                 ("\\\"", '"'), ("z", "z"), ("$", "$"), (" ", " "), ("(", "("), ("\\a", "\a"), ("#", "#"), ("|", "|")])
                t.append(a)
                v.append(b)
            return "q", "$'" + "".join(t) + "'", Str("".join(v))
        if k < 0.66:
            v, t = [], []
            for _ in range(r.randint(0, 4)):
                a, b = r.choice([("\\n", "\n"), ("\\\"", '"'), ("\\\\", "\\"), ("z", "z"), ("$x", "$x"), ("${x}", "${x}"), ("$$", "$$"), ("'", "'"), (")", ")"), (";", ";")])
                t.append(a)
                v.append(b)
            return "q", '"' + "".join(t) + '"', lst(Sym("interpolate"), Str("".join(v)))
        if k < 0.76:
            n = r.choice(["x", "abc", "y1"])
            return "q", "${%s}" % n, lst(Sym("resolve"), Sym(n))
        if k < 0.8:
            n = r.choice(["x", "abc"])
            return "var", "$" + n, lst(Sym("resolve"), Sym(n))
        if k < 0.84:
            t, v = self.paren(d - 1)
            return "q", "`" + t, lst(Sym("splice"), lst(Sym("capture"), v))
        if k < 0.86:
            return "q", "(|number -3/4|)", Num(-3, 4)
        if k < 0.88:
            c = r.choice([",", ".", "/", ":", "@", "~"])
            return "punct", c, Sym(c)
        if k < 0.9:
            return "q", "()", NIL
        t, v = self.paren(d - 1)
        return "q", t, v

    def paren(self, d):
        t, v = self.seqlevel(d) if self.rng.random() < 0.8 else self.orlevel(d)
        return "(" + self.rng.choice(["", " ", "\n", ""]) + t + self.rng.choice(["", " "]) + ")", v

    def word(self, d, head=False):
        r = self.rng
        n = 1 if d <= 0 or r.random() < 0.75 else r.randint(2, 4)
        es = []
        while len(es) < n:
            e = self.element(d)
            if head and e[0] == "punct":
                continue
            if es:
                p = es[-1]
                if p[0] in ("bare", "var") and e[0] == "bare":
                    continue
                if p[0] == "var" and e[0] not in ("q", "punct", "var"):
                    continue
                if p[0] == "bare" and head and e[1] == "=":
                    continue
            es.append(e)
        text = "".join(e[1] for e in es)
        if len(es) == 1:
            return text, es[0][2]
        return text, lst(Sym("mend"), Sym(""), *[e[2] for e in es])

    def statement(self, d):
        """Words and blocks: (text, list)."""
        r = self.rng
        t, v = self.word(min(d, 1), True)
        vs = [v]
        for _ in range(r.randint(0, 4)):
            # (What a block that directly follows a block means is not specified.)
            if d > 0 and r.random() < 0.12 and not t.endswith("}"):
                b, bv = self.block(d - 1)
                t += " " + b
                vs += bv
                continue
            w, v = self.word(d)
            t += self.sp1() + w
            vs.append(v)
        v = lst(*vs)
        if r.random() < 0.06:
            n, (w, wv) = r.choice(["X", "Y_1"]), self.word(0)
            t = "%s=%s %s" % (n, w, t)
            v = lst(Sym("block"), lst(Sym("export"), Sym(n), wv), v)
        if d > 0 and r.random() < 0.08 and v.h != Sym("block"):
            vs = [Sym("process-substitution")] + vs
            for _ in range(r.randint(1, 2)):
                op = r.choice([("|<", "-named-pipe-input-from"), ("|>", "-named-pipe-output-to")])
                s, sv = self.statement(0)
                t += " %s(%s)" % (op[0], s)
                vs.append(Cons(Sym(op[1]), sv))
                if r.random() < 0.4:
                    w, wv = self.word(0)
                    t += " " + w
                    vs.append(wv)
            v = lst(*vs)
        return t, v

    def block(self, d):
        r = self.rng
        o, vs = ["{" + r.choice(["", " ", " # x", "# }"]) + "\n"], []
        for _ in range(r.randint(1, 3)):
            t, v = self.command(d)
            o.append(r.choice(["", "  ", "\t", "\n"]) + t + r.choice(["", " ", " # (", " # '"]) + "\n")
            vs.append(v)
        return "".join(o) + r.choice(["", "  "]) + "}", vs

    def redir(self, d):
        t, v = self.statement(d)
        n = 0
        while self.rng.random() < 0.12 and n < 3:
            op, name = self.rng.choice([(">", "output-to"), (">>", "append-output-to"), (">&", "output-errors-to"), (">|", "output-clobbers"),
                                        (">&|", "output-errors-clobbers"), (">>&", "append-output-errors-to"), ("<", "input-from")])
            w, wv = self.word(0)
            t += self.rng.choice([" ", ""]) + op + self.rng.choice([" ", ""]) + w
            v = lst(Sym(name), wv, v)
            n += 1
        return t, v

    def seqlevel(self, d):
        t, v = self.redir(d)
        if d > 0 and self.rng.random() < 0.12:
            vs = [Sym("block"), v]
            for _ in range(self.rng.randint(1, 2)):
                s, sv = self.redir(d - 1)
                t += self.sp() + ";" + self.sp() + s
                vs.append(sv)
            if self.rng.random() < 0.1:
                t += self.sp() + ";"
            v = lst(*vs)
        return t, v

    def gap(self):
        return self.rng.choice(["", " ", " ", "\n", " \n ", "  "])

    def pipelevel(self, d):
        t, v = self.seqlevel(d)
        if d > 0 and self.rng.random() < 0.12:
            op, name = self.rng.choice([("|", "pipe-output-to"), ("|&", "pipe-output-errors-to")])
            s, sv = self.pipelevel(d - 1)
            t += self.sp() + op + self.gap() + s
            v = Cons(Sym(name), Cons(sv, v))
        return t, v

    def nary(self, d, op, name, sub):
        t, v = sub(d)
        if d > 0 and self.rng.random() < 0.1:
            vs = [Sym(name), v]
            for _ in range(self.rng.randint(1, 2)):
                s, sv = sub(d - 1)
                t += self.sp() + op + self.gap() + s
                vs.append(sv)
            v = lst(*vs)
        return t, v

    def andlevel(self, d):
        return self.nary(d, "&&", "and", self.pipelevel)

    def orlevel(self, d):
        return self.nary(d, "||", "or", self.andlevel)

    def command(self, d):
        t, v = self.orlevel(d)
        if self.rng.random() < 0.06:
            t += self.rng.choice([" &", "&"])
            v = lst(Sym("spawn"), v)
        return t, v


MAL = ["{a} )", ") {a}", "{a} }}", "}} {a}", "{a} ({b} }}", "{a} {{\n{b} )\n}}", "| {a}", "&& {a}", "|| {a}", "& {a}", "; {a}", "{a} | | {b}", "{a} || | {b}",
       "{a} && ; {b}", "{a} | ; {b}", "{a} <", "{a} >", "{a} >>", "{a} >|", "{a} >&", "{a} > > b", "{a} < ; {b}", "{a} & & {b}", "{a} & | {b}", "{a} & && {b}",
       "{a} | &", "{a} && &", "{a} || )", "{a} `", "{a} ` b", "{a} $'\\q'", "{a} \"\\q\"", "{a} $'\\x4'", "{a} $'\\u12'", "{a} $'\\U00110000'", "{a} \"\\xZZ\"",
       "{a} (|bogus x|)", "{a} (|number 1)", "{a} (number 1 |)", "{a} {{ b c }}", "{a} (b))", "{a} ({b}) {b} )", "{a} |<", "X=", "{a} $)", "{a} &&)", "{a} (b | )",
       "{a} (b ; ) )", "{a} < )", "({a} && ) b", "{a} |& |& {b}", "{a} |{b} |)", "{a} (> )", "if {a} {{\n{b}\n}} }}", "{a} ${{x", "(|{a}", "{a} (|(a) b|)"]
INCOMPLETE = ["{a} (", "({a}", "{a} (b (c)", "{a} {{\n{b}\n", "{a} {{", "{a} '", "{a} 'b\n", "{a} \"b", "{a} $'b", "{a} |", "{a} &&", "{a} ||", "{a} \\", "{a} (b\\\n", "if {a} {{\n{b}\n}} else {{\n",
              "{a} |&", "{a} {{\n{b} {{\n}}\n", "{a} \"b\\\"", "{a} (b |"]

READER = """define f: open r- recs.txt
define one: method () {
    catch ex {
        write E $ex
        return true
    }
    define l: f read-list
    if (null? $l) {
        return ()
    }
    write V $l
    return true
}
while (one) {
    true
}
write-line done
"""

SOURCER = """define one: method () {
    catch ex {
        write caught $ex
        return true
    }
    source inc.oh
    write-line returned
}
one
write-line done
"""


def fail(ctx, r, text, what=None):
    """Crash and hang monitors; true if there was a violation."""
    if r.crashed:
        ctx.violation("oh crashed reading text: " + r.crashed, text + "\n" + r.brief(3000))
    elif r.timeout:
        ctx.violation("oh stopped responding reading text", text + "\n" + r.brief(3000))
    elif r.rc < 0:
        ctx.violation("oh was killed by signal %d reading text" % -r.rc, text + "\n" + r.brief(3000))
    elif what:
        ctx.violation(what, text + "\n" + r.brief(3000))
    else:
        return False
    return True


def write(path, data):
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))


def show(t):
    return t if isinstance(t, str) else "bytes: %r" % t[:20000]


def check(ctx):
    rng = ctx.rng
    ctx.oh
    trees(ctx, rng)
    malformed(ctx, rng)
    fuzz(ctx, rng)
    deep(ctx, rng)
    prompt(ctx, rng)


def simple(rng):
    """A well-formed simple command on one line, with words only."""
    g = Ast(rng)
    while True:
        t, v = g.statement(1)
        if "\n" not in t and "|" not in t and "=" not in t and not t.startswith("(") and "#" not in t:
            return t


def pipe_records(ctx, records, timeout=60):
    """records: list of text (each a complete or malformed line). Returns (result, outcomes) of reading them all."""
    d = ctx.mkdir()
    write(os.path.join(d, "recs.txt"), b"".join(x if isinstance(x, bytes) else x.encode("utf-8", "surrogateescape") for x in records))
    r = ctx.script(READER, cwd=d, timeout=timeout)
    ctx.rmdir(d)
    outs = []
    for ln in r.text().split("\n")[:-1]:
        try:
            v = lit.pylist(lit.decode(ln))
        except lit.Bad:
            v = None
        outs.append((ln, v))
    return r, outs


def trees(ctx, rng):
    g = Ast(rng)
    n = ctx.n(6000, 150000)
    size = 200
    groups = []
    for _ in range(n // size):
        groups.append([g.command(rng.randint(0, 3)) for _ in range(size)])
    ctx.count("well-formed commands", n)

    def one(group):
        recs = []
        for t, v in group:
            recs.append(t + "\n")
        r, outs = pipe_records(ctx, recs)
        text = "".join(recs)
        if fail(ctx, r, READER + text):
            return
        got = [v for ln, v in outs if ln != "done"]
        for i, (t, v) in enumerate(group):
            if i >= len(got):
                ctx.violation("no command was read for a well-formed text (or for the one before)", "text:\n%s\npreceded by:\n%s" % (t, group[i - 1][0] if i else ""))
                return
            want = [Sym("V"), v]
            if got[i] != want:
                ctx.violation("a well-formed command was read as something else", "text:\n%s\nexpected: %s\ngot: %s" % (t, lit.rep(v), outs[i][0]))
                return
            ctx.cover(t, t if len(t) > 20 else None, nontrivial=True)
    ctx.pmap(one, groups)


def mal_text(rng):
    while True:
        inc = rng.random() < 0.25
        f = rng.choice(INCOMPLETE if inc else MAL)
        # A malformation is not hidden in quotes, parentheses or a comment of what it is added to.
        return inc, f.format(a=simple(rng), b=simple(rng))


def malformed(ctx, rng):
    cases = []
    # Every malformation in every mode, at least once.
    for f in MAL + INCOMPLETE:
        for mode in ("script", "source", "c"):
            cases.append((f in INCOMPLETE, f.format(a=simple(rng), b=simple(rng)), mode, rng.random()))
    for _ in range(ctx.n(500, 20000)):
        inc, t = mal_text(rng)
        cases.append((inc, t, rng.choice(["script", "source", "c"]), rng.random()))

    def one(case):
        inc, t, mode, k = case
        ctx.cover((t, mode), "%s: %s" % (mode, t), nontrivial=True)
        ctx.count("malformed in " + mode)
        if mode == "c":
            text = t + ("" if inc else "\nexit 7\n")
            r = ctx.c(text, timeout=40)
            if fail(ctx, r, "-c " + text):
                return
            if r.rc != 1 or not r.err.strip():
                fail(ctx, r, "-c " + text, "-c text that is not well formed is not reported")
            return
        after = "" if inc and k < 0.5 else "\nexit 8\n"
        nl = "" if k < 0.2 else "\n"
        if inc:
            after = nl
        body = "exit 7\n" + t + (after or nl)
        if mode == "script":
            r = ctx.script(body, timeout=40)
            if fail(ctx, r, body):
                return
            if r.rc in (7, 8) or r.out or not r.err.strip():
                fail(ctx, r, body, "a script that is not well formed is not reported")
            return
        d = ctx.mkdir()
        write(os.path.join(d, "inc.oh"), body)
        r = ctx.script(SOURCER, cwd=d, timeout=40)
        ctx.rmdir(d)
        if fail(ctx, r, SOURCER + "\ninc.oh:\n" + body):
            return
        ls = r.text().split("\n")
        if r.rc != 0 or len(ls) != 3 or not ls[0].startswith("caught ") or ls[1] != "done":
            fail(ctx, r, SOURCER + "\ninc.oh:\n" + body, "a sourced file that is not well formed is not reported as an exception")
    ctx.pmap(one, cases)

    # Recovery: records of a pipe, with errors in between.
    g = Ast(rng)
    groups = []
    for _ in range(ctx.n(16, 500)):
        recs = []
        for _ in range(100):
            if rng.random() < 0.4:
                f = rng.choice([m for m in MAL if "\n" not in m])
                recs.append((f.format(a=simple(rng), b=simple(rng)), None))
            else:
                while True:
                    t, v = g.command(rng.randint(0, 2))
                    if "\n" not in t:
                        break
                recs.append((t, v))
        # The last one may be incomplete.
        end = rng.choice(INCOMPLETE).format(a=simple(rng), b=simple(rng)) if rng.random() < 0.5 else None
        groups.append((recs, end))

    def rec(group):
        recs, end = group
        text = "".join(t + "\n" for t, _ in recs) + (end or "")
        r, outs = pipe_records(ctx, [text])
        if fail(ctx, r, READER + text):
            return
        got = [(ln, v) for ln, v in outs if ln != "done"]
        want = recs + ([(end, None)] if end else [])
        for i, (t, v) in enumerate(want):
            ctx.cover(("pipe", t), None)
            ctx.count("pipe records malformed" if v is None else "pipe records well-formed among errors")
            if i >= len(got):
                ctx.violation("reading records stopped early, at %r" % t, READER + text + "\n" + r.brief(3000))
                return
            ln, gv = got[i]
            if v is None:
                ok = ln.startswith("E ")
            else:
                ok = gv == [Sym("V"), v]
            if not ok:
                ctx.violation("record %d, %r: %s, got %s" % (i, t, "an error was expected" if v is None else "a command was expected", ln[:300]),
                              "preceding record: %r\n%s" % (want[i - 1][0] if i else None, READER + text))
                return
        if len(got) != len(want):
            ctx.violation("more records were read than written", READER + text + "\n" + r.brief(3000))
    ctx.pmap(rec, groups)


TOKENS = ["(", ")", "{", "}", "{\n", "}\n", "\n", " ", ";", "&", "|", "<", ">", "&&", "||", "|<", "|>", "|<(", ">>", ">&", ">|", ">&|", "|&", "`", "$", "${", "$'", "'", '"', "\\", "\\\n", "#", "(|",
          "|)", "a", "$x", "~", "*", "[", "=", ":", "/", ".", ",", "@", "X=", "if", "else", "define", "method", "\t", "\x00", "\x7f", "\u00e9", "\u2028", "1", "-", "\\x", "\\u", "\\0", "(|number ", "(|cons ",
          "(|symbol ", "(|status ", "$$", "\r"]


def corpus():
    out = []
    base = "/repo"
    for root, dirs, files in os.walk(os.environ.get("VERIF_REPO", base)):
        dirs[:] = [x for x in dirs if x != ".git"]
        for f in sorted(files):
            if f.endswith(".oh"):
                with open(os.path.join(root, f), "rb") as h:
                    out.append(h.read())
    return sorted(out)


def fuzz_text(rng, seeds):
    k = rng.random()
    if k < 0.25:
        return bytes(rng.choice([rng.randrange(256), rng.randrange(32, 127), 10, 32]) for _ in range(rng.randint(1, rng.choice([4, 20, 200]))))
    if k < 0.6:
        return "".join(rng.choice(TOKENS) for _ in range(rng.randint(1, rng.choice([4, 12, 60])))).encode()
    s = bytearray(rng.choice(seeds))
    at = rng.randrange(len(s) + 1)
    s = s[at:at + rng.randint(1, 3000)]
    for _ in range(rng.randint(1, 4)):
        p = rng.randrange(len(s) + 1)
        m = rng.random()
        if m < 0.35:
            del s[p:p + rng.randint(1, 5)]
        elif m < 0.7:
            s[p:p] = rng.choice(TOKENS).encode()
        elif m < 0.85:
            q = rng.randrange(len(s) + 1)
            s[p:p] = s[q:q + rng.randint(1, 50)]
        elif p < len(s):
            s[p] = rng.randrange(256)
    return bytes(s)


def fuzz(ctx, rng):
    seeds = corpus()
    cases = [(fuzz_text(rng, seeds), rng.choice(["script", "source", "pipe", "pipe", "pipe"])) for _ in range(ctx.n(800, 60000))]
    harmless = [x for x in TOKENS if not set(x) & set("/~\0") and x not in ("|<", "|>", "|<(")]
    for _ in range(ctx.n(150, 10000)):
        cases.append(("".join(rng.choice(harmless) for _ in range(rng.randint(1, rng.choice([4, 12, 40])))).encode(), "c"))

    def one(case):
        t, mode = case
        ctx.cover((t, mode), "%s: %r" % (mode, t[:200]))
        if mode == "pipe":
            # Several records at once: they are only read.
            r, outs = pipe_records(ctx, [t])
            if fail(ctx, r, "recs.txt: %r\n%s" % (t, READER)):
                return
            if r.rc != 0 or not outs or outs[-1][0] != "done":
                fail(ctx, r, "recs.txt: %r\n%s" % (t, READER), "reading records from a pipe did not end normally")
            for ln, v in outs:
                ctx.count("fuzz pipe " + ln[:1])
            return
        if mode == "c":
            # This is evaluated, if only with words that are not commands.
            r = ctx.run(["-c", t], timeout=40, env=ctx.env(PATH=ctx.home))
            fail(ctx, r, "-c %r" % t)
            ctx.count("fuzz c accepted" if r.rc == 0 else "fuzz c reported")
            return
        else:
            body = b"exit 7\n" + t
            if mode == "script":
                text = "script: %r" % body
                r = ctx.script(body, timeout=40)
            else:
                d = ctx.mkdir()
                write(os.path.join(d, "inc.oh"), body)
                text = "source: %r" % body
                r = ctx.script("source inc.oh\n", cwd=d, timeout=40)
                ctx.rmdir(d)
        if fail(ctx, r, text):
            return
        if r.rc == 7:
            ctx.count("fuzz %s accepted" % mode)
        elif r.err.strip():
            ctx.count("fuzz %s reported" % mode)
        else:
            fail(ctx, r, text, "text was neither evaluated nor reported")
    ctx.pmap(one, cases)


def deep(ctx, rng):
    """Very deep and very long texts."""
    cases = []
    n = 600000
    for a, b in (("(", ")"), ("{\n", "}"), ("${", "}"), ("{", "}"), ("{\n", "\n} "), ("(a ", ")"), ("`(", ")")):
        cases.append("list " + a * n + "x" + b * n + "\n")
    cases.append("list " + "(" * n + "\n")
    cases.append("list " + "{\n} " * n + "\n")
    cases.append("true" + " | true" * n + "\n")
    cases.append("list '" + "x" * 3000000 + "'\n")
    cases.append("list " + "x" * 3000000 + "\n")
    cases.append("#" + "x" * 3000000 + "\n")
    cases.append("true\n" * 20000)
    cases.append(")" * 100000)
    cases.append("list " + "$" * 4000 + "\n")
    if ctx.tier == "quick":
        cases = [cases[0], cases[1]] + rng.sample(cases[2:], 3)

    def one(t):
        ctx.cover(t, None)
        ctx.count("very deep or long texts")
        r = ctx.script("exit 7\n" + t, timeout=300)
        brief = "exit 7\\n + %r...(%d bytes)" % (t[:40], len(t))
        if fail(ctx, r, brief):
            return
        if r.rc != 7 and not r.err.strip():
            fail(ctx, r, brief, "text was neither evaluated nor reported")
    ctx.pmap(one, cases, workers=3)


def prompt(ctx, rng):
    """Malformed lines at the prompt: an error, and the next line works."""
    sessions = []
    for i in range(ctx.n(10, 200)):
        ls = []
        for _ in range(12):
            f = rng.choice([m for m in MAL if "\n" not in m])
            ls.append(f.format(a=simple(rng), b=simple(rng)).replace("\t", " "))
        sessions.append(ls)

    def one(ls):
        d = ctx.mkdir()
        p = ptydrv.Pty(ctx, d)
        try:
            for i, t in enumerate(ls):
                p.line(t)
                mark = len(p.out)
                p.line("write-line (mend '' o k %d)" % i)
                if b"ok%d\r\n" % i not in p.out[mark:]:
                    ctx.violation("after a malformed line the prompt does not evaluate the next one", repr(t) + "\n" + p.transcript())
                    return
                ctx.cover(("prompt", t), None)
                ctx.count("malformed at the prompt")
            p.close()
        except (ptydrv.Dead, ptydrv.Hang) as e:
            ctx.violation("the prompt did not survive a malformed line: %s" % e, p.transcript())
        finally:
            p.kill()
            ctx.rmdir(d)
    ctx.pmap(one, sessions)
