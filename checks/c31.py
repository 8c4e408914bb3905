"""C31: file name completion at the prompt."""
import os, random, re, shutil, stat, time
import ohv, ptydrv
import tool

RULE = ("A case is one line typed at the prompt with the cursor somewhere in it and Tab pressed once or several times. In most cases the cursor is after a word that is an argument: the line that results, and the list shown at the second Tab, "
        "are compared with the directory the word names, as it is at that moment; directories are generated, changed between cases by others, and named relative to the current directory, to ~ and to /, with ., .., repeated and trailing separators, through links, "
        "with text of other scripts before and after the cursor, at a first prompt and inside unfinished commands. In the others the line is arbitrary, complete or not, and must come back with the text before the word and after the cursor as it was. "
        "Lines contain commands that would leave a trace if any part of them were run; unfinished commands are then finished and their result compared. Distinct by way of naming the directory, context, number of names and what follows.")
ASSUMPTIONS = ["a word ends at a blank or parenthesis and is not quoted; patterns, ~ on its own and ~name are not compared",
               "names contain no control and no combining characters; the trailing / of a link to a directory is not compared",
               ".. after a link is not used (the shell resolves it by name)",
               "programmable completion (bash-completion) is not installed here and offers nothing"]

SAFE = "abcABC012-_.+,éжд漢字ñ🙂"
NAMES = SAFE + "aabbab" + "  '\"#;&|<>(){}$*?[]\\=:@%^!"
META = set(" '\"#;&|<>(){}$*?[]\\`=:@%^!~\t")
TAILS = ["", "", "", "", " tail", "x", "/rest", ")", " é)", "日本 x", "|tool:x", ' "q', " 'z", "; tool ev:z", " {", "$x", "  "]
CONTEXTS = [
    ("first", "mark "), ("second", "tool ev:a "), ("many", "tool ev:a b c  "), ("unicode", "tool é ж漢字 "), ("wide", "tool 🙂🙂 'ж д' "),
    ("quoted", "tool 'a b' \"c d\" "), ("after-pipe", "mark | tool x "), ("after-semi", "mark; tool x "), ("after-and", "mark && tool x "),
    ("colon", "write-line: mark "), ("nested", "write-line (mark) "), ("inner", "write-line (mark "), ("deep", "a (b (c d) (mark "),
    ("variable", "write-line $x ${x} "), ("set", "set x "), ("define", "define x: mark "), ("splice", "write-line (splice $a) "),
    ("open-string", "write-line \"é ж\" y "), ("redirect", "mark > /dev/null "), ("background", "mark & tool x "), ("cd", "cd "), ("leading", "   ls  "),
]


def name(r):
    while True:
        n = "".join(r.choice(NAMES if r.random() < 0.3 else SAFE) for _ in range(r.choice([1, 2, 2, 3, 3, 4, 6, 12])))
        if r.random() < 0.15:
            n = "." + n
        n = n.strip() if r.random() < 0.9 else n
        if n and n not in (".", ".."):
            return n


def fill(r, d, n):
    os.makedirs(d, exist_ok=True)
    for _ in range(n):
        p = os.path.join(d, name(r))
        if os.path.lexists(p):
            continue
        k = r.random()
        if k < 0.35:
            os.mkdir(p)
        elif k < 0.4:
            os.mkfifo(p)
        elif k < 0.45:
            os.symlink("nowhere", p)
        else:
            with open(p, "w"):
                pass
            if r.random() < 0.3:
                os.chmod(p, 0o755)


def candidates(word, d):
    tail = word.rsplit("/", 1)[-1]
    try:
        es = os.listdir(d)
    except OSError:
        return []
    out = []
    for e in es:
        if not e.startswith(tail) or (e[0] == "." and not tail.startswith(".")):
            continue
        p = os.path.join(d, e)
        try:
            isdir = stat.S_ISDIR(os.lstat(p).st_mode)
        except OSError:
            continue
        out.append(word + e[len(tail):] + ("/" if isdir else ""))
    return sorted(out, key=lambda s: s.encode())


def prefix(cs):
    p = cs[0]
    for c in cs[1:]:
        while not c.startswith(p):
            p = p[:-1]
    return p


def squash(s):
    return re.sub(" +", " ", s).strip()


class Session:
    def __init__(self, ctx, r, root, race=False, env=None):
        self.ctx, self.r, self.root = ctx, r, root
        self.work = os.path.join(root, r.choice(["work", "w:k", "wé", "w"]))
        self.home = os.path.join(root, "home")
        for d in (self.work, self.home):
            fill(r, d, r.choice([0, 3, 10, 20, 60]))
        for d in ("sub", "s2", "日", ".hid"):
            fill(r, os.path.join(self.work, d), r.choice([0, 1, 3, 10, 20]))
            fill(r, os.path.join(self.work, d, "in"), r.choice([0, 2, 10]))
        if r.random() < 0.15:
            fill(r, os.path.join(self.work, "big"), 200)
        self.links = os.path.join(root, "links")
        os.mkdir(self.links)
        os.symlink(os.path.join(self.work, "sub"), os.path.join(self.links, "l"))
        self.cwd = r.choice([self.work] * 4 + [os.path.join(self.work, "sub"), self.home, "/", root])
        bin = os.path.join(root, "bin")
        os.mkdir(bin)
        tool.install(ctx, bin)
        with open(os.path.join(bin, "mark"), "w") as f:
            f.write("#!/bin/sh\n: > '%s/MARK'\n" % root)
        os.chmod(os.path.join(bin, "mark"), 0o755)
        self.p = ptydrv.Pty(ctx, self.work, race=race, env={**(env or {}), "HOME": self.home, "PATH": bin + ":" + ohv.BASE_PATH, "OH_HISTORY": os.path.join(root, "history")})
        self.p.line("define x before")
        self.p.line("cd '%s'" % self.cwd)
        self.k = 0
        self.want = []          # (text of the line as read back, what it was)

    # --- words ------------------------------------------------------------
    def word(self):
        """A word, the directory it names and how."""
        r = self.r
        for _ in range(200):
            how = r.choice(["plain", "plain", "plain", "dir", "dir", "dot", "dotdot", "through", "double", "dotted", "abs", "abs", "absdots", "home", "homedir", "link", "none", "file", "root"])
            try:
                w, d = self.dirword(how)
            except (IndexError, FileNotFoundError):
                continue
            es = [e for e in os.listdir(d)] if os.path.isdir(d) else []
            k = r.random()
            if k < 0.25 or not es:
                t = ""
            elif k < 0.8:
                e = r.choice(es)
                t = e[:r.randint(1, len(e))] if k > 0.35 else e
            elif k < 0.9:
                t = "."
            else:
                t = "zzz"
            if set(w + t) & META - ({"~"} if how in ("home", "homedir") else set()) or (w + t) in ("~",) or ":" in w:
                continue
            if how in ("plain",) and t.startswith("~") or (w + t).endswith(".."):
                continue
            if d == "/" and (t == "" or "/tmp".startswith("/" + t)) and how != "plain":
                pass
            return w + t, d, how
        return "", self.cwd, "plain"

    def dirword(self, how):
        r, cwd = self.r, self.cwd
        subs = [e for e in os.listdir(cwd) if os.path.isdir(os.path.join(cwd, e)) and not os.path.islink(os.path.join(cwd, e))]
        if cwd == "/":
            subs = [s for s in subs if s in ("bin", "usr", "etc", "var", "opt")]
        subs = [s for s in subs if not set(s) & META]
        if how == "plain":
            return "", cwd
        if how == "dir":
            s = r.choice(subs)
            ss = [e for e in os.listdir(os.path.join(cwd, s)) if os.path.isdir(os.path.join(cwd, s, e))]
            if ss and r.random() < 0.4 and cwd != "/":
                t = r.choice(ss)
                return s + "/" + t + "/", os.path.join(cwd, s, t)
            return s + "/", os.path.join(cwd, s)
        if how == "dot":
            return "./", cwd
        if how == "dotdot":
            return "../", os.path.dirname(cwd)
        if how == "through":
            s = r.choice(subs)
            return r.choice(["", "./"]) + s + "/../", cwd
        if how == "double":
            s = r.choice(subs)
            return s + "//", os.path.join(cwd, s)
        if how == "dotted":
            s = r.choice(subs)
            return "./" + s + "/./", os.path.join(cwd, s)
        if how in ("abs", "absdots"):
            d = r.choice([self.work, self.home, os.path.join(self.work, "sub"), os.path.join(self.work, "s2", "in"), os.path.join(self.work, ".hid")])
            w = d + "/"
            if how == "absdots":
                w = r.choice([d + "//", "/" + d + "/", d + "/./", d + "/in/../" if os.path.isdir(d + "/in") else d + "/", "/../" + d[1:] + "/"])
            return w, d
        if how == "home":
            return r.choice(["~/", "~//", "~/./"]), self.home
        if how == "homedir":
            ss = [e for e in os.listdir(self.home) if os.path.isdir(os.path.join(self.home, e))]
            s = r.choice(ss)
            return "~/" + s + "/", os.path.join(self.home, s)
        if how == "link":
            return self.links + "/l/" , os.path.join(self.work, "sub")
        if how == "none":
            return r.choice(["nosuch/", "./nosuch/", "/nosuch/", "~/nosuch/"]), os.path.join(self.root, "nosuch")
        if how == "file":
            fs = [e for e in os.listdir(cwd) if os.path.isfile(os.path.join(cwd, e)) and not set(e) & META]
            return r.choice(fs) + "/", os.path.join(self.root, "nosuch")
        return "/", "/"

    def change(self):
        """Others change the directories."""
        r = self.r
        d = r.choice([self.work, os.path.join(self.work, "sub"), self.home])
        if not os.path.isdir(d):
            return
        es = [e for e in os.listdir(d) if e not in ("sub", "s2", "日", ".hid", "in", "home", "big")]
        for e in r.sample(es, min(len(es), r.randint(0, 3))):
            p = os.path.join(d, e)
            if os.path.isdir(p) and not os.path.islink(p):
                if not os.listdir(p):
                    os.rmdir(p)
                    if r.random() < 0.3:
                        open(p, "w").close()
            else:
                os.unlink(p)
                if r.random() < 0.3:
                    os.mkdir(p)
        fill(r, d, r.randint(0, 3))

    # --- steps ------------------------------------------------------------
    def readback(self, accept, what):
        """Turn the line into a comment and enter it; accept judges it at the end."""
        keys = "\x01# %d:" % self.k + "\r"
        start = self.p.pos
        if self.r.random() < 0.3:
            # Typed while the shell completes, a key at a time.
            for k in keys:
                self.p.send(k)
                time.sleep(self.r.choice([0, 0.0005, 0.002]))
            self.ctx.count("lines_typed_during_completion")
        else:
            self.p.send(keys)
        self.p.prompt()
        self.want.append((self.k, accept, what))
        self.k += 1
        return ptydrv.ESCSEQ.sub(b"", self.p.out[start:self.p.pos])

    def rows(self, shown):
        ls = shown.decode("utf-8", "replace").replace("\r", "").split("\n")[1:]
        out = []
        for l in ls:
            if re.search(r"<<\d+:? *>>", l):
                return out
            out.append(l)
        return out

    def exact(self):
        r, p, ctx = self.r, self.p, self.ctx
        if r.random() < 0.4:
            self.change()
        word, d, how = self.word()
        cname, before = r.choice(CONTEXTS)
        after = r.choice(TAILS)
        cs = candidates(word, d)
        p.send(before + word + after + "\x02" * len(after))
        p.send("\t")
        listed = len(cs) > 1 and r.random() < 0.6
        if listed:
            p.send("\t" + ("y" if len(cs) > 100 else ""))
        if not listed and len(cs) > 1 and r.random() < 0.3:
            listed = None                                   # no second Tab: the list must not appear
        result = before + (prefix(cs) if cs else word) + after
        what = "how %s, directory %r holding %r, current directory %r: Tab%s on %r then %r" % (how, d, sorted(os.listdir(d))[:40] if os.path.isdir(d) else None, self.cwd, " Tab" if listed else "", before + word, after)
        shown = self.readback(result, what)
        rows = self.rows(shown)
        if listed:
            n = max(1, len(rows)) if len(cs) <= 100 else len(rows)
            if len(cs) > 100 and rows and "Display all" in rows[0]:
                n -= 1
                rows = rows[1:]
            n = max(n, 1)
            exp = [squash(" ".join(cs[i::n])) for i in range(n)]
            got = [squash(x) for x in rows]
            if len(exp) == n and got != exp:
                ctx.violation("the names offered are not those of the directory", "%s\noffered:\n%s\nexpected:\n%s\n\n%s" % (what, "\n".join(got), "\n".join(exp), p.transcript()))
            ctx.count("lists_compared")
        elif rows:
            ctx.violation("something is shown at the first Tab", "%s\nshown %r\n\n%s" % (what, rows, p.transcript()))
        ctx.count("words_completed")
        ctx.count_max("most_names_offered", len(cs))
        n = "0" if not cs else "1" if len(cs) == 1 else "few" if len(cs) < 20 else "many" if len(cs) <= 100 else ">100"
        ctx.cover((how, cname, n, bool(after), listed, self.cwd == "/"), sample="%s%s<Tab>%s -> %s" % (before, word, after, result) if r.random() < 0.005 else None, nontrivial=bool(cs))

    ALPHA = ["(", ")", "{", "}", "'", '"', "$", "${", "$'", "\\", "|", "|<(", "|>(", "&", "&&", "||", ";", ">", ">>", "<", ":", "#", "`", "^", "!", "mark", "tool", "x", "set x after", "write-line", "é", "漢", "~", "~/", "/", "./", "../", "sub/",
             "a", "b", "if", "while", "catch e {", "define x after", "(mark)", "$(", "exit", "throw e", " ", " ", " ", " ", "  ", "*", "[", "?", "@", "=", "%", "+", "-", "import", "nosuch", "complete", "\"${x}\""]

    def arbitrary(self):
        r, p, ctx = self.r, self.p, self.ctx
        if self.cwd in ("/", self.root):
            return self.exact()
        line = "".join(r.choice(self.ALPHA) + (" " if r.random() < 0.4 else "") for _ in range(r.choice([1, 2, 3, 5, 8, 15])))
        at = r.choice([len(line), len(line), r.randint(0, len(line))])
        h, t = line[:at], line[at:]
        p.send(line + "\x02" * len(t) + "\t" * r.choice([1, 1, 2, 3]))
        i = max(h.rfind(c) for c in " ()") + 1
        # A list of more than 100 names asks a question. This answers it, or goes away.
        keep, word = h[:i], h[i:]

        def accept(l):
            return l.startswith(keep + word) and l.endswith(t) and len(l) >= len(line)
        self.readback(accept, "current directory %r: Tab on %r then %r" % (self.cwd, h, t))
        ctx.count("arbitrary_lines")
        ctx.cover(("arbitrary", line[:2], len(line) > 8, bool(t)))

    def finished(self):
        """A command over several lines, with completions in it, does what it says."""
        r, p, ctx = self.r, self.p, self.ctx
        kind = r.choice(["block", "string", "method"])
        es = [e for e in os.listdir(self.work) if not set(e) & META and e[0] not in ".-"]
        if not es or self.cwd != self.work:
            return self.exact()
        e = r.choice(es)
        cut = r.randint(1, len(e))
        cs = candidates(e[:cut], self.work)
        done = prefix(cs)
        if set(done) & META:
            return self.exact()
        noise = lambda: p.send(r.choice(["", "ls " + "é" * r.randint(0, 3) + "\t" + "\x15", "mark \t\x15", "(mark\t\x15", "\"\t\x15", "ls nosuch\t\x15", "write-line (\t\x15"]))
        if kind == "block":
            typed = ["if true {", "    write-line é %s\t" % e[:cut], "}"]
            exp = "é " + done
        elif kind == "string":
            typed = ["write-line \"one", "two\" %s\t" % e[:cut]]
            exp = "one\ntwo " + done
        else:
            typed = ["define m: method (a) {", "    write-line $a %s\t" % e[:cut], "}", "m ж"]
            exp = "ж " + done
        out = ""
        for l in typed:
            # A list must not be awaited while a string is open: noise only elsewhere.
            if kind != "string":
                noise()
            p.send(l + "\r")
            out = p.prompt().decode("utf-8", "replace").replace("\r", "")
            ctx.count("continued_lines_completed", "\t" in l)
        ls = out.split("\n")
        got = "\n".join(ls[-1 - len(exp.split("\n")):-1])
        if got != exp:
            ctx.violation("a command entered with completions in it gives something else", "typed %r gave %r not %r\n\n%s" % (typed, got, exp, p.transcript()))
        ctx.cover(("finished", kind, len(cs)))

    def abandoned(self):
        """Completion inside an unfinished command, which is then given up."""
        r, p = self.r, self.p
        p.send(r.choice(["if true {", "write-line \"abc", "write-line (mark", "write-line 'x", "define y: method () {"]) + "\r")
        p.prompt()
        if p.continued and r.random() < 0.3:
            p.send("    mark\r")
            p.prompt()
        p.send(r.choice(["mark \t", "ls é\t", "(\t", "\t", "\t\t", "}\t", "\"\t"]))
        p.give_up("x")
        self.ctx.count("abandoned_commands")

    def move(self):
        r = self.r
        self.cwd = r.choice([self.work, self.work, os.path.join(self.work, "sub"), self.home, "/", self.root, os.path.join(self.work, "s2", "in")])
        self.p.line("cd '%s'" % self.cwd)

    def run(self, steps):
        r, p, ctx = self.r, self.p, self.ctx
        for _ in range(steps):
            k = r.random()
            n = p.n
            if k < 0.66:
                self.exact()
                one = 1
            elif k < 0.82:
                self.arbitrary()
                one = 1
            elif k < 0.9:
                self.finished()
                one = None
            elif k < 0.95:
                self.abandoned()
                one = None
            else:
                self.move()
                one = 1
            if one and p.n != n + one:
                ctx.violation("a line is evaluated that was not entered", "%d prompts for one line\n\n%s" % (p.n - n, p.transcript()))
            if len(ctx.violations) >= 5:
                break
        out = p.line("write-line \"x=${x}\"")
        if "\nx=before\n" not in out:
            ctx.violation("completion changed a variable", "x is now %r\n\n%s" % (out, p.transcript()))
        st = p.close()
        if st != 0:
            ctx.violation("the shell did not end normally after completions", "exit status %r\n\n%s" % (st, p.transcript()))
            return
        for dp, dn, fn in os.walk(self.root):
            if "MARK" in fn:
                ctx.violation("completion ran a command", "%s was made\n\n%s" % (os.path.join(dp, "MARK"), p.transcript()))
        with open(os.path.join(self.root, "history"), encoding="utf-8", errors="surrogateescape") as f:
            lines = f.read().split("\n")
        back = {}
        for l in lines:
            m = re.match(r"# (\d+):(.*)\Z", l, re.S)
            if m:
                back[int(m.group(1))] = m.group(2)
        for k, accept, what in self.want:
            l = back.get(k)
            if l is None:
                ctx.violation("a line was lost", "%s\n\n%s" % (what, p.transcript()))
            elif (l != accept if isinstance(accept, str) else not accept(l)):
                ctx.violation("completion gives another line", "%s\nresult   %r\nexpected %r\n\n%s" % (what, l, accept if isinstance(accept, str) else "the text before the word and after the cursor kept", p.transcript()))
            else:
                ctx.count("lines_compared")


def check(ctx):
    def one(seed):
        r = random.Random("c31-%s-%s" % (ctx.seed, seed))
        top = ctx.mkdir("c31")
        root = os.path.join(top, "r")
        os.mkdir(root)
        s = None
        try:
            s = Session(ctx, r, root)
            s.run(40)
            ctx.count("sessions")
        except ptydrv.Dead as e:
            ctx.violation("the shell ended during completion", "seed %s: %s\n\n%s" % (seed, e, s.p.transcript() if s else ""))
        except ptydrv.Hang as e:
            ctx.violation("the shell hung during completion", "seed %s: %s\n\n%s" % (seed, e, s.p.transcript() if s else ""))
        finally:
            if s:
                s.p.kill()
            ctx.rmdir(top)

    ctx.pmap(one, range(ctx.n(250, 6000)))
