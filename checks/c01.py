"""C01: every command is evaluated exactly once, in order."""
import os, re
import ohv, ptydrv

RULE = ("A case is a generated program of commands that each emit a numbered event, laid out at random (lines, ';', '&', blocks, if/else, while, "
        "calls of multi-line methods, pipelines, comments, blank lines, continuations, with or without a final newline), run as a script, a sourced "
        "file, -c text, a program read from a pipe, or typed at a terminal. The event log is compared with the program's own sequence: exact order for the "
        "foreground, exactly once and not before its start for '&'. One in six scripts has a syntax error and must emit nothing. Non-trivial: "
        "at least two layout features; distinct by text.")
ASSUMPTIONS = ["the generator only uses layouts the grammar documents: a block's '{' ends its line"]

PRE = """define ev: method (n) {
    write-line "@${n}@"
    return true
}
define no: method (n) {
    write-line "@${n}@"
    return ()
}
"""
HOSTILE = ["plain", "it's", "\"", "{", "}", "(", ")", "|", "`x", "&&", "; ev 0", "$'", "\\", "#", "if true {", "é", "<", "&"]


class Gen:
    def __init__(self, rng, depth=3):
        self.rng, self.n, self.features = rng, 0, set()
        self.defs = 0

    def num(self):
        self.n += 1
        return self.n

    def indent(self):
        return self.rng.choice(["", "", "    ", "\t", "  "])

    def tail(self):
        r = self.rng.random()
        if r < 0.12:
            self.features.add("comment")
            return " # " + self.rng.choice(HOSTILE)
        if r < 0.2:
            return self.rng.choice([" ", "  ", "\t"])
        return ""

    def simple(self):
        """One simple command: (text, events)."""
        r = self.rng
        k = r.random()
        n = self.num()
        if k < 0.5:
            gap = r.choice([" ", " ", "  ", "\t"])
            if r.random() < 0.12:
                gap = r.choice([" \\\n", " \\\n  ", "\t\\\n\t"])
                self.features.add("continuation")
            return "ev%s%d" % (gap, n), [n]
        if k < 0.67:
            self.features.add("pipeline")
            return r.choice(["ev %d | cat", "write-line '@%d@' | cat", "ev %d |\n cat", "ev %d|& \n\ncat"]) % n, [n]
        if k < 0.73:
            self.features.add("nested call")
            m = self.num()
            return "list (ev %d) (ev %d)" % (n, m), [n, m]
        if k < 0.78:
            self.features.add("capture")
            return r.choice(["write-line `(ev %d)", "define cap `(ev %d); write-line $cap", "define cap (capture (ev %d)); write-line (cap head)"]) % n, [n]
        if k < 0.84:
            self.features.add("quoted newline")
            return "write-line \"@%d@\n\"" % n, [n]
        if k < 0.9:
            self.features.add("redirection")
            return r.choice(["ev %d >>& $stdout", "ev %d < /dev/null", "ev %d > $stdout"]) % n, [n]
        if k < 0.95:
            self.features.add("prefix")
            return "X=1 ev %d" % n, [n]
        return "write-line '@%d@'" % n, [n]

    def andor(self):
        """Commands joined by && and ||, alone on a line as ';' binds tighter."""
        r = self.rng
        self.features.add("and-or")
        a, b, c = self.num(), self.num(), self.num()
        t, i = r.choice([
            ("ev %d && ev %d" % (a, b), [a, b]), ("ev %d || ev %d" % (a, b), [a]), ("no %d || ev %d" % (a, b), [a, b]), ("no %d && ev %d" % (a, b), [a]),
            ("no %d && ev %d || ev %d" % (a, b, c), [a, c]), ("ev %d && no %d || ev %d" % (a, b, c), [a, b, c]), ("ev %d && ev %d; ev %d" % (a, b, c), [a, b, c]),
            ("no %d && ev %d; ev %d" % (a, b, c), [a]), ("no %d; ev %d && ev %d" % (a, b, c), [a, b, c]), ("ev %d||no %d&&ev %d" % (a, b, c), [a]),
            ("no %d || ev %d; ev %d" % (a, b, c), [a, b, c]), ("ev %d&&no %d; no %d || ev %d" % (a, b, c, self.num()), [a, b, c, self.n])])
        if r.random() < 0.4:
            # An operator at the end of a line: the command goes on.
            self.features.add("operator at the end of a line")
            nl = r.choice(["\n", " \n", "\n\n", "\t\n   "])
            t = re.sub(r"(&&|\|\|) ?", lambda m: m.group(1) + (nl if r.random() < 0.7 else " "), t)
        return t, i

    def body(self, depth, lo=1, hi=4):
        """Lines of a block: (text ending in newline, items)."""
        o, it = [], []
        for _ in range(self.rng.randint(lo, hi)):
            t, i = self.line(depth)
            o.append(t)
            it += i
        return "".join(o), it

    def compound(self, depth):
        r = self.rng
        k = r.random()
        if k < 0.3:
            t, i = self.body(depth - 1)
            self.features.add("block")
            return "block {\n%s}" % t, i
        if k < 0.55:
            a, ia = self.body(depth - 1)
            b, ib = self.body(depth - 1)
            self.features.add("if")
            m = self.num()
            f = r.random()
            if f < 0.3:
                return "if (ev %d) {\n%s} else {\n%s}" % (m, a, b), [m] + ia
            if f < 0.6:
                return "if (no %d) {\n%s} else {\n%s}" % (m, a, b), [m] + ib
            if f < 0.8:
                q = self.num()
                return "if (no %d) {\n%s} else if (ev %d) {\n%s}" % (m, a, q, b), [m, q] + ib
            return "if (no %d) {\n%s}" % (m, a), [m]
        if k < 0.75:
            b, ib = self.body(depth - 1, 1, 2)
            self.features.add("loop")
            times = r.randint(1, 3)
            if r.random() < 0.5:
                v = "i%d" % self.num()
                return "block {\ndefine %s 0\nwhile (lt? $%s %d) {\n%sset %s: add $%s 1\n}\n}" % (v, v, times, b, v, v), ib * times
            return "for (list %s) (method (x) {\n%s})" % (" ".join("abc"[:times]), b), ib * times
        b, ib = self.body(depth - 1)
        self.features.add("method")
        f = "f%d" % self.num()
        times = r.randint(1, 2)
        return "define %s: method () {\n%s}" % (f, b) + "; " + "; ".join([f] * times), ib * times

    def unit(self, depth):
        if depth > 0 and self.rng.random() < 0.22:
            return self.compound(depth)
        return self.simple()

    def line(self, depth):
        """One or more commands up to a newline: (text, items). An item is an event number or a background list."""
        r = self.rng
        pad = ""
        if r.random() < 0.12:
            pad = r.choice(["\n", "   \n", "# %s\n" % r.choice(HOSTILE), "\t# ev 0\n", "\n\n"])
            self.features.add("blank or comment line")
        parts, items = [], []
        k = r.choice([1, 1, 1, 1, 2, 2, 3])
        if r.random() < 0.12:
            t, i = self.andor()
            return pad + self.indent() + t + self.tail() + "\n", i
        units = [self.unit(depth) for _ in range(k)]
        text = ""
        # ';' binds tighter than '|': a background command joined to a
        # pipeline would write to a pipe that the pipeline closes.
        hasbg = any(isinstance(x, list) for _, i in units for x in i)
        for j, (t, i) in enumerate(units):
            text += t
            items += i
            if j < k - 1:
                text += "\n" if hasbg else r.choice([";", "; ", " ; ", ";  "])
                self.features.add("semicolon")
        if r.random() < 0.08:
            text += r.choice([";", " ; "])
        elif r.random() < 0.1:
            bg = self.simple_bg()
            self.features.add("background")
            before = r.random() < 0.5
            if before:
                text = bg[0] + r.choice([" & ", "& ", " &\n"]) + text
                items = [bg[1]] + items
            else:
                text = text + "\n" + bg[0] + r.choice([" &", "&"])
                items = items + [bg[1]]
        return pad + self.indent() + text + self.tail() + "\n", items

    def simple_bg(self):
        r = self.rng
        n = self.num()
        if r.random() < 0.5:
            return "ev %d" % n, ["bg", n]
        m = self.num()
        return "block {\n    ev %d\n    ev %d\n}" % (n, m), ["bg", n, m]


def check_log(log, items):
    """Compare the events seen with the items expected; None or a message."""
    fg = [x for x in items if not isinstance(x, list)]
    bgs = [x for x in items if isinstance(x, list)]
    bgn = {n for b in bgs for n in b[1:]}
    seen_fg = [n for n in log if n not in bgn]
    if seen_fg != fg:
        return "foreground events %r, expected %r" % (seen_fg, fg)
    # A background command in a loop is started several times.
    want = {}
    for b in bgs:
        for n in b[1:]:
            want[n] = want.get(n, 0) + 1
    got = {}
    for n in log:
        if n in bgn:
            got[n] = got.get(n, 0) + 1
    if want != got:
        return "background events (number: times) %r, expected %r" % (got, want)
    # Not before what precedes it, in its own order.
    at, seen = 0, {}
    for it in items:
        if isinstance(it, list):
            k = seen.get(it[1], 0)
            seen[it[1]] = k + 1
            last = -1
            if want[it[1]] == 1:
                pos = [log.index(n) for n in it[1:]]
                if pos != sorted(pos):
                    return "background events %r out of order" % it[1:]
                done = 0
                for p, n in enumerate(log):
                    if n not in bgn:
                        done += 1
                    if n == it[1] and done < at:
                        return "background event %d before the %d foreground events preceding it" % (n, at)
        else:
            at += 1
    return None


BAD = [")", "}", "| ev 999", "ev 999 )", "(|bogus 1|)", "&& ev 999", "ev 999 && || ev 998", "\"\\q\"", "ev (add 1", "; ev 999", "ev 999 > > x", "block {\nev 999 ) \n}"]


def check(ctx):
    rng = ctx.rng
    modes = ["script"] * 10 + ["source"] * 4 + ["c"] * 4 + ["pipe"] * 3
    cases = []
    for i in range(ctx.n(1500, 60000)):
        g = Gen(rng)
        lines, items = [], []
        for _ in range(rng.randint(1, 9)):
            t, it = g.line(2)
            lines.append(t)
            items += it
        mode = rng.choice(modes)
        bad = mode in ("script", "source") and rng.random() < 1 / 6
        cases.append((i, g, lines, items, mode, bad))

    def final(text, rng_choice):
        return text[:-1] if rng_choice and text.endswith("\n") else text

    def one(case):
        i, g, lines, items, mode, bad = case
        r = None
        if bad:
            at = (i * 7919) % (len(lines) + 1)
            lines = lines[:at] + [BAD[i % len(BAD)] + "\n"] + lines[at:]
        body = "".join(lines)
        hasbg = "background" in g.features
        if mode == "script":
            text = PRE + body + ("wait\n" if hasbg else "")
            r = ctx.script(final(text, i % 3 == 0))
        elif mode == "source":
            d = ctx.mkdir()
            with open(d + "/inc.oh", "w") as f:
                f.write(final(body, i % 3 == 0))
            text = PRE + "source inc.oh\n" + ("wait\n" if hasbg else "") + "ev 100000\n"
            r = ctx.script(text, cwd=d)
            ctx.rmdir(d)
            if not bad:
                items = items + [100000]
        elif mode == "c":
            text = PRE + body + ("wait" if hasbg else "")
            r = ctx.c(text if not text.endswith("\n") or i % 2 else text[:-1])
        else:
            d = ctx.mkdir()
            with open(d + "/inc.oh", "w") as f:
                f.write(body)
            text = PRE + "define f: open r- inc.oh\nblock {\nwhile (define l: f read-list) {\neval $l\n}\n}\n" + ("wait\n" if hasbg else "")
            r = ctx.script(text, cwd=d)
            ctx.rmdir(d)
        log = [int(x) for x in re.findall(rb"@(\d+)@", r.out)]
        text = "mode %s\n%s\n--- body\n%s" % (mode, text, body)
        if r.crashed or r.timeout:
            ctx.violation("oh crashed or did not finish", text + r.brief(3000))
            return
        if bad:
            if log:
                ctx.violation("commands of a file with a syntax error were evaluated: %r" % log, text + r.brief(2000))
            elif not r.err:
                ctx.violation("a syntax error was not reported", text + r.brief(2000))
            ctx.count("files with a syntax error")
        else:
            msg = check_log(log, items)
            if msg:
                ctx.violation(msg, text + r.brief(2000))
        ctx.cover(body + mode, "%s\n%s" % (mode, body), nontrivial=len(g.features) > 1)
        ctx.count("mode " + mode)
        ctx.count("events", len(log))
        for f in g.features:
            ctx.count("with " + f)
    ctx.pmap(one, cases)

    # At the prompt.
    sessions = []
    for i in range(ctx.n(24, 400)):
        g = Gen(rng)
        lines, items = [], []
        for _ in range(rng.randint(4, 12)):
            t, it = g.line(2)
            t = t.replace("\t", " ")
            lines += t.split("\n")[:-1]
            items += it
        sessions.append((i, g, lines, items))

    def session(s):
        i, g, lines, items = s
        d = ctx.mkdir()
        p = ptydrv.Pty(ctx, d)
        try:
            for ln in PRE.split("\n")[:-1]:
                p.line(ln.strip())
            mark = len(p.out)
            for ln in lines:
                if ln.strip() == "" and not ln:
                    continue  # The prompt does not accept empty lines.
                p.line(ln.rstrip(" ") if ln.strip() else ln)
            if "background" in g.features:
                p.line("wait")
            p.line("ev 100000")
            p.close()
            # What was typed contains '@N@' only after a quote: drop what liner echoed.
            msg = check_log(typed(p.out[mark:], lines), items + [100000])
            if msg:
                ctx.violation(msg, p.transcript())
        except (ptydrv.Dead, ptydrv.Hang) as e:
            ctx.violation("the session ended or stopped responding: %s" % e, p.transcript())
        finally:
            p.kill()
            ctx.rmdir(d)
        ctx.cover("\n".join(lines) + "prompt", None, nontrivial=True)
        ctx.count("mode prompt")

    def typed(out, lines):
        out = ptydrv.ESCSEQ.sub(b"", out)
        return [int(x) for x in re.findall(rb"(?<![\"'])@(\d+)@(?=\r\n)", out)]
    ctx.pmap(session, sessions)
