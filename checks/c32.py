"""C32: the history file of interactive sessions."""
import os, random, time
import ptydrv
import tool

RULE = ("A case is one line entered in one of several sessions that follow each other on a pseudo-terminal with one history file. Lines are commands, lines that fail or do not parse, parts of blocks, comments, blanks, text of any script, "
        "lines longer than any buffer, lines recalled with the arrow keys, lines interrupted or stopped while they run, and lines typed ahead; lines given up with Ctrl-C before Enter and what other programs read from the terminal are not lines entered. "
        "Sessions end with exit (with and without a status, from a method, a block or a pipeline) or at end of file, in the middle of a block as well. After every session the file is compared with the list of lines entered. "
        "Distinct by kind of line and what came before it.")
ASSUMPTIONS = ["sessions do not overlap", "the line editor keeps the last 1000 lines and keeps one of several equal lines entered in a row"]
LIMIT = 1000


def collapse(old, new):
    o = list(old)
    for l in new:
        if not o or o[-1] != l:
            o.append(l)
    return o[-LIMIT:]


ALPHABET = "abcdefghijklmnopqrstuvwxyzäöüßéèñçøåÆŁЖдфλΩשׁあ漢字한글🙂𝔘"
WORDS = ["alpha", "beta", "gamma", "x", "yy", "42", "-v", "--flag=1", "'single quoted'", '"double"', "a\\ b", "# note", "*", "~/x", "$HOME", "${pn}", "(add 1 2)"]


def simple(r):
    k = r.choice(["echo", "define", "comment", "words", "unicode", "spaces", "fail", "throw", "syntax", "pipe", "capture"])
    w = " ".join(r.choice(["alpha", "beta", "gamma", "1", "22", "x-y", "'a b'"]) for _ in range(r.randint(1, 5)))
    if k == "echo":
        return "write-line " + w
    if k == "define":
        return "define v%d (list %s)" % (r.randint(0, 9), w)
    if k == "comment":
        return "# " + w + r.choice(["", " {", " $'\\n'", " \\"])
    if k == "words":
        return "write-line 'q%d' \"r${pn}\"" % r.randint(0, 999)
    if k == "unicode":
        return "write-line '" + "".join(r.choice(ALPHABET) for _ in range(r.randint(1, 40))) + "'"
    if k == "spaces":
        return " " * r.randint(0, 4) + "write-line  " + w + " " * r.randint(0, 3)
    if k == "fail":
        return r.choice(["nosuchcommand ", "sub x ", "write-line $nosuchname ", "cd /nosuch/dir ", "head ", "/bin/sh -c 'exit 3' "]) + w
    if k == "throw":
        return "throw 'e%d'" % r.randint(0, 99)
    if k == "pipe":
        return "write-line %s | cat" % w
    if k == "capture":
        return "write-line (capture (write-line %s))" % w
    return r.choice([")", "write-line ) (", "}", "a | | b", "write-line 'x' )", "&& x", "write-line \\q $'\\zz' )"])


class Session:
    def __init__(self, ctx, r, root, env, mode):
        self.ctx, self.r, self.root, self.mode = ctx, r, root, mode
        self.entered = []
        self.kinds = []
        self.p = ptydrv.Pty(ctx, root, env=env, timeout=40)
        self.entered += ptydrv.SETUP

    def enter(self, text, kind):
        self.entered.append(text)
        self.kinds.append(kind)
        self.p.line(text)

    def step(self):
        r, p = self.r, self.p
        k = r.choice(["simple"] * 8 + ["block", "block", "long", "repeat", "recall", "abort", "interrupt", "stop", "program", "reader", "ahead", "edit"])
        if k == "simple":
            self.enter(simple(r), k)
        elif k == "block":
            self.enter("if true {", k)
            for _ in range(r.randint(0, 2)):
                self.enter("    write-line inner %d" % r.randint(0, 99), k)
            if r.random() < 0.3:
                p.give_up("wri" if r.random() < 0.5 else "x")
                self.kinds.append("block abandoned")
            else:
                self.enter("}", k)
        elif k == "long":
            n = r.choice([300, 1000, 2000, 4000, 4085, 4095, 4096, 4097, 5000, 9000])
            if self.fast:
                n = min(n, 5000)
            self.enter("# " + "".join(r.choice("abcdefg hijk") for _ in range(n - 3)) + ".", k)
        elif k == "repeat":
            s = simple(r)
            for _ in range(r.randint(2, 3)):
                self.enter(s, k)
        elif k == "recall":
            h = collapse(self.mode["old"], self.entered)
            n = r.randint(1, min(4, len(h)))
            if h[-n].split()[0:1] in ([], ["./tool"], ["/bin/cat"], ["spin"], ["fg"], ["while"], ["exit"], ["bye"]) or h[-n].endswith("{") or h[-n] == "}":
                return
            p.send("\x1b[A" * n + "\x1b[B" * 0)
            self.ctx.count("lines recalled")
            self.entered.append(h[-n])
            self.kinds.append(k)
            p.send("\r")
            p.prompt()
            if p.continued:
                p.give_up()
        elif k == "abort":
            p.give_up(r.choice(["write-line given up", "x", "'", "if true {"]))
            self.kinds.append(k)
        elif k == "interrupt":
            s = "./tool say:ready sleep:30000 # %d" % r.randint(0, 99)
            self.entered.append(s)
            self.kinds.append(k)
            p.send(s + "\r")
            p.expect(rb"\nready")
            p.send("\x03")
            p.prompt()
        elif k == "stop":
            s = "./tool say:ready sleep:30000"
            self.entered.append(s)
            p.send(s + "\r")
            p.expect(rb"\nready")
            p.send("\x1a")
            p.prompt()
            self.enter("fg-or-not", k)
            self.entered.append("fg")
            p.send("fg\r")
            p.settle(0.3)
            p.send("\x03")
            p.prompt()
        elif k == "program":
            # A running program of the shell itself.
            self.enter("define spin: method () {", k)
            self.enter("write-line ready", k)
            self.enter("while (list 1) {", k)
            self.enter("list 1", k)
            self.enter("}", k)
            self.enter("}", k)
            self.entered.append("spin")
            p.send("spin\r")
            p.expect(rb"\nready")
            p.send("\x03")
            p.prompt()
        elif k == "reader":
            self.entered.append("/bin/cat")
            self.kinds.append(k)
            p.send("/bin/cat\r")
            p.settle(0.2)
            p.send("not a line of the shell\n")
            p.expect(rb"shell\r?\n.*not a line of the shell")
            p.send("\x04")
            p.prompt()
        elif k == "edit":
            a, b = "write-line lost", "kept"
            # Home, then typed in front; backspaces; a word put in the middle.
            how = r.choice(["home", "back", "middle", "kill"])
            if how == "home":
                p.send("tail-end\x01write-line \r")
                self.entered.append("write-line tail-end")
            elif how == "back":
                p.send("write-line abc\x7f\x7fz\r")
                self.entered.append("write-line az")
            elif how == "middle":
                p.send("write-line ac\x1b[Db\r")
                self.entered.append("write-line abc")
            else:
                p.send("write-line gone\x15write-line there\r")
                self.entered.append("write-line there")
            self.kinds.append(k)
            p.prompt()
        else:
            ls = ["write-line ahead %d" % r.randint(0, 999) for _ in range(r.randint(2, 4))]
            n = p.n
            for l in ls:
                self.entered.append(l)
                self.kinds.append(k)
            p.send("".join(l + "\r" for l in ls))
            while p.n < n + len(ls):
                p.prompt()

    def end(self):
        r, p = self.r, self.p
        k = r.choice(["eof", "eof", "exit", "exit status", "exit method", "exit block", "eof in a block", "exit typed ahead"])
        self.kinds.append("end: " + k)
        if k == "eof in a block":
            self.enter("if true {", k)
        if k.startswith("eof"):
            rc = p.close()
            want = 0
        else:
            want = None
            s = {"exit": "exit", "exit status": "exit %d" % r.randint(0, 200), "exit method": "define bye: method () { exit 3 }", "exit block": "if true { exit 4 }", "exit typed ahead": "exit 5"}[k]
            if k == "exit method":
                self.enter("define bye: method () {", k)
                self.enter("exit 3", k)
                self.enter("}", k)
                s = "bye"
                want = 3
            elif k == "exit block":
                self.enter("block {", k)
                self.enter("write-line leaving", k)
                self.enter("exit 4", k)
                s = "}"
                want = 4
            elif k == "exit status":
                want = int(s.split()[1])
            elif k == "exit typed ahead":
                self.entered.append("write-line before")
                p.send("write-line before\r")
                want = 5
            else:
                want = 0
            self.entered.append(s)
            p.send(s + "\r")
            rc = p.ended()
        return rc, want


def check(ctx):
    def one(i):
        seed = "%s/32/%d" % (ctx.seed, i)
        r = random.Random(seed)
        root = ctx.mkdir()
        home = os.path.join(root, "home")
        tool.install(ctx, root)
        os.mkdir(home)
        where = r.choice(["variable", "variable", "home", "relative"])
        env = {"HOME": home}
        if where == "variable":
            path = os.path.join(root, "my history")
            env["OH_HISTORY"] = path
        elif where == "relative":
            path = os.path.join(root, "hist.txt")
            env["OH_HISTORY"] = "hist.txt"
        else:
            path = os.path.join(home, ".oh-history")
            env["OH_HISTORY"] = None
        old = []
        if r.random() < 0.5:
            n = r.choice([0, 1, 5, 990, 999, 1000, 1005])
            old = ["write-line old %d %s" % (j, "x" * r.choice([0, 10, 200])) for j in range(n)]
            if r.random() < 0.3 and n:
                old[r.randrange(n)] = "# " + "long " * r.choice([900, 2000])
            with open(path, "w") as f:
                f.write("".join(l + "\n" for l in old))
        ctx.count("history files that existed" if old else "history files that did not exist")
        s = None
        try:
            for n in range(r.randint(2, 4)):
                mode = {"old": old[-LIMIT:]}
                s = Session(ctx, r, root, env, mode)
                s.fast = ctx.tier == "quick"
                for _ in range(r.randint(2, 9)):
                    s.step()
                if r.random() < 0.2 and where != "relative":
                    s.enter("cd home", "cd")
                if r.random() < 0.2:
                    s.enter(r.choice(["export HOME /nosuch", "export OH_HISTORY /nosuch/file", "define OH_HISTORY x"]), "variable")
                rc, want = s.end()
                ctx.count("sessions")
                ctx.count("lines entered", len(s.entered))
                prev = "start"
                for k in s.kinds:
                    ctx.cover((k, prev, where))
                    ctx.count(k)
                    prev = k
                text = s.p.transcript()
                if rc is None or rc != want:
                    return ctx.violation("a session ended with status %s, expected %s" % (rc, want), "case %s\n%s" % (seed, text))
                expect = collapse(old[-LIMIT:], s.entered)
                try:
                    got = open(path, encoding="utf-8", errors="surrogateescape").read().split("\n")[:-1]
                except OSError as e:
                    return ctx.violation("no history file after session %d (%s): %s" % (n + 1, s.kinds[-1], e), "case %s\n%s" % (seed, text))
                if got != expect:
                    j = next((j for j in range(min(len(got), len(expect))) if got[j] != expect[j]), min(len(got), len(expect)))
                    return ctx.violation("the history after session %d (%s) differs at line %d: got %r, expected %r (%d and %d lines)" % (
                        n + 1, s.kinds[-1], j + 1, [l[:100] for l in got[j:j + 3]], [l[:100] for l in expect[j:j + 3]], len(got), len(expect)), "case %s\n%s" % (seed, text))
                ctx.count_max("lines in a history file", len(got))
                old = got
                if i < 2:
                    ctx.cover(n=0, sample="\n".join(l[:80] for l in s.entered))
        except (ptydrv.Dead, ptydrv.Hang) as e:
            ctx.violation("the session does not go on: %s" % e, "case %s\n%s" % (seed, s.p.transcript() if s else ""))
        finally:
            if s:
                s.p.kill()
            ctx.rmdir(root)
    ctx.pmap(one, range(ctx.n(200, 1500)))
