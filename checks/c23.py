"""C23: expansion of patterns in generated directory trees."""
import os, random
import globm, lit, probe

RULE = ("A case is one command (or redirection) with bare patterns, quoted patterns, strings, plain and ~ words, run in a generated directory tree from a directory set with cd in some scope. "
        "The arguments a recording executable received (or the file it was redirected to) are compared with an independent matcher walking the same tree; a pattern that matches nothing must "
        "raise an exception without the command being run. Non-trivial: a pattern is expanded or raises; distinct by pattern, directory contents, scope and use.")
ASSUMPTIONS = ["in a pattern, * is not followed by ? or [ within an element of names with non-ASCII characters (the matcher of the dependency works on bytes there)",
               "patterns do not end in /, and .. does not follow a pattern or a symbolic link"]

STEMS = ["a", "b", "ab", "aab", "abc", "b.a", "a.txt", "b.txt", "c.txt", "x1", "x2", "x10", "A", "B.txt", "-n", "-a", "~", "~a", "zz", "m-n", "e^", "k=v", "a,b", "t@"]
WEIRD = ["a b", " ", "a\nb", "new\n", "a*", "*", "?", "a?b", "[", "[a]", "]", "[ab", "a\\b", "\\", "a'b", 'q"q', "$v", "${x}", "`x`", "(a)", "{b}", "a;b", "a&b", "|", "<>", "#c", "a#", "\t", "\x01", "~*", "!x", "^", "a^b", "\x7f"]
HIDDEN = [".h", ".a", ".b.txt", "..x", "...", ".*", ".a b", ".ab"]
UNI = ["\u00e9", "\u00e9t\u00e9", "\u4e2d\u6587", "x\u4e2d", "\U0001f600", "\u00fcb.txt", "\xa0", "\u2028", "\udcff", "a\udc80", "\udcc3"]
META = "*?["


class Tree:
    def __init__(self, r, root):
        self.r = r
        self.kids = {}          # directory -> {name: kind}
        self.uni = r.random() < 0.4
        self.grow(root, 3)
        dirs = [d for d in self.kids if d != root]
        # Links to directories, to files and to nothing.
        for d in [root] + r.sample(dirs, min(2, len(dirs))):
            for i in range(r.randint(0, 3)):
                n = "l%d" % i
                if n in self.kids[d]:
                    continue
                k = r.random()
                if k < 0.4 and dirs:
                    os.symlink(r.choice(dirs), os.path.join(d, n))
                    self.kids[d][n] = "linkdir"
                elif k < 0.7:
                    os.symlink("nothing there", os.path.join(d, n))
                    self.kids[d][n] = "dangling"
                else:
                    os.symlink("/dev/null", os.path.join(d, n))
                    self.kids[d][n] = "linkfile"

    def grow(self, d, depth):
        r = self.r
        kids = self.kids[d] = {}
        pool = STEMS * 2 + WEIRD + HIDDEN + (UNI * 2 if self.uni else [])
        names = list(dict.fromkeys(r.choice(pool) for _ in range(r.choice([0, 3, 6, 9, 14]) + (5 if depth == 3 else 0))))
        for n in names:
            p = os.path.join(d, n)
            if r.random() < (0.4 if depth == 3 else 0.3) and depth:
                os.mkdir(p)
                kids[n] = "dir"
                self.grow(p, depth - 1)
            else:
                with open(p, "w") as f:
                    f.write("x")
                kids[n] = "file"

    def entries(self, d):
        try:
            return sorted(os.listdir(d), key=os.fsencode)
        except OSError:
            return []


def ambiguous(pat, names):
    i = pat.find("*")
    return i >= 0 and any(c in pat[i:] for c in "?[") and any(not n.isascii() for n in names)


class Ambiguous(Exception):
    pass


def expand(base, pat, tree):
    """The paths below base that the relative pattern matches, in order."""
    elems = [e for e in pat.split("/") if e not in ("", ".")]
    cur = [base]
    for k, e in enumerate(elems):
        nxt = []
        if e == "..":
            cur = [os.path.dirname(d) for d in cur]
            continue
        globm.parse(e)
        for d in cur:
            names = tree.entries(d)
            if ambiguous(e, names):
                raise Ambiguous
            nxt += [os.path.join(d, n) for n in names if globm.match(e, n)]
        cur = nxt
    return cur


def esc(name, r):
    """name as part of a bare pattern, matching exactly itself; None if it cannot be written."""
    o = []
    for c in name:
        if c in "\n\r\0" or 0xdc80 <= ord(c) <= 0xdcff:
            return None
        if c in "*?[]\\ \t\"#&'();<>`{|}$^~!" or not c.isprintable():
            if c in "*?[" and r.random() < 0.5:
                o.append("[%s]" % c)
            elif not c.isascii():
                o.append("?")
            else:
                o.append("\\" + c)
        else:
            o.append(c)
    return "".join(o)


def cls(c, r):
    """A bracket expression containing c (or one that does not)."""
    def e(x):
        return "\\" + x if x in "\\-]^[ \t\"#&'();<>`{|}$*?!~" or not x.isprintable() else x
    k = r.random()
    if c in "\n\r" or 0xdc80 <= ord(c) <= 0xdcff:
        return r.choice(["[^a]", "[^a-z]", "?"])
    if k < 0.3:
        return "[%s]" % e(c)
    if k < 0.5:
        return "[%s%s%s]" % (r.choice(["", "q", "0-9"]), e(c), r.choice(["", "z", "X-Z"]))
    if k < 0.7:
        lo, hi = chr(max(33, ord(c) - r.randint(0, 3))), chr(ord(c) + r.randint(0, 2))
        if ord(hi) < 127 and ord(c) >= 33 and ord(c) < 126:
            return "[%s-%s]" % (e(lo), e(hi))
        return "[%s]" % e(c)
    if k < 0.85:
        x = r.choice("abxz019")
        return "[^%s]" % x
    return r.choice(["[a-c]", "[^a-c]", "[ab]", "[A-Z]", "[0-9]", "[a-zA-Z]", "[.]", "[^.]"])


def element(r, names):
    """A pattern for one element, based on one of names."""
    if not names or r.random() < 0.12:
        return r.choice(["*", "*", "?", "*.txt", "a*", ".*", "[a-c]*", "[^a]*", "??", "zzz*", "*q*q*", "x?", "**", "*.*", "[.]*", "?h", ".?", "[a", "[]a]", "[", "a[]", "[^]", "[a-]", "*a*b*"])
    n = r.choice(names)
    o = []
    i = 0
    while i < len(n):
        k = r.random()
        if k < 0.2:
            o.append("*")
            i += r.choice([0, 0, 1, 1, 2, len(n)])
        elif k < 0.4:
            o.append("?")
            i += 1
        elif k < 0.55:
            o.append(cls(n[i], r))
            i += 1
        else:
            e = esc(n[i], r)
            o.append("?" if e is None else e)
            i += 1
    if r.random() < 0.25:
        o.append("*")
    return "".join(o)


class Gen:
    def __init__(self, ctx, r, top, root, tree, home):
        self.r, self.top, self.root, self.tree, self.home = r, top, root, tree, home
        self.n = 0
        self.expect = []       # (tag, kind, data)

    def pattern(self, pwd):
        """(source, expected [(form, path)]) of one pattern, or None."""
        r, t = self.r, self.tree
        k = r.random()
        if k < 0.55:
            pre, base = "", pwd
        elif k < 0.65:
            pre, base = "./", pwd
        elif k < 0.75 and len(pwd) > len(self.root):
            pre, base = "../", os.path.dirname(pwd)
        elif k < 0.85:
            pre, base = self.root + "/", self.root
        elif k < 0.95:
            pre, base = "~/", self.home
        else:
            pre, base = "", pwd
        elems, d = [], base
        depth = r.choice([1, 1, 1, 2, 2, 3])
        for j in range(depth):
            names = t.entries(d)
            subs = [n for n in names if os.path.isdir(os.path.join(d, n))]
            if j + 1 < depth:
                if not subs:
                    break
                n = r.choice(subs)
                if r.random() < 0.4 and esc(n, r) is not None:
                    elems.append(esc(n, r))
                else:
                    e = element(r, [n])
                    elems.append(e)
                d = os.path.join(d, n)
            else:
                vis = [n for n in names if not n.startswith(".")]
                elems.append(element(r, vis if vis and r.random() < 0.8 else names))
        elems = [e for e in elems if e]
        if not elems or any(e in (".", "..") for e in elems):
            return None
        pat = "/".join(elems)
        if not any(c in pat for c in META):
            return None
        if not pre and pat.startswith("~"):
            pat = "?" + pat[1:]
        if not pre and pat[0] in "-=.":
            pat = "./" + pat
        try:
            ms = expand(base, pat, t)
        except globm.BadPattern:
            ms = []
        except Ambiguous:
            return None
        rel = pre not in (self.root + "/", "~/")
        return pre + pat, ms, rel

    def word(self, pwd):
        """(source, list of checks, each ("is", text) or ("path", rel, path)) or None when it is an exception."""
        r = self.r
        k = r.random()
        if k < 0.62:
            for _ in range(30):
                p = self.pattern(pwd)
                if p:
                    s, ms, rel = p
                    return s, [("path", rel, m) for m in ms] if ms else None
        if k < 0.75:
            s = r.choice(["*", "a*", "?", "[a]", "*.txt", "zz*", "~", "~/*", "./*", "[", "a[", self.root + "/*", "x y*"])
            return r.choice(["'%s'", '"%s"', "$'%s'", "(mend '' '%s')", "\"$(mend '' '%s')\"" if 0 else "'%s'"]) % s, [("is", s)]
        if k < 0.85:
            v = r.choice([("$sv", "*"), ("$sv2", "a*.?"), ("(list '*' 'a*' | cat)", None), ("${sv}", "*"), ('"x${sv}"', "x*"), ("(splice $svs)", ["*", "[a-c]*", "~"]), ("(str 'a*')", None)])
            if v[1] is not None:
                vs = v[1] if isinstance(v[1], list) else [v[1]]
                return v[0], [("is", x) for x in vs]
        if k < 0.93:
            s = r.choice(["a", "zzz", "missing/file", "a.b", "x^y", "a]b", "%", "./a", "../zz", "a]", "a~", "a~/b", "x=~"])
            if s != "x=~":
                return s, [("is", s)]
        s, v = r.choice([("~", self.home), ("~", self.home), ("~/some", self.home + "/some"), ("~/a/b", self.home + "/a/b")])
        return s, [("is", v)]

    def command(self, o, pwd):
        r = self.r
        self.n += 1
        tag = "%d" % self.n
        k = r.random()
        if k < 0.2:
            # A redirection.
            w = None
            for _ in range(30):
                w = self.pattern(pwd)
                if w and (len(w[1]) == 1 or r.random() < 0.15):
                    break
            if not w:
                return
            s, ms, rel = w
            op = r.choice(["<", ">>", ">>", "<", ">|"])
            if len(ms) == 1:
                if not os.path.exists(ms[0]) or os.path.isdir(ms[0]):
                    return
                want = ("redir", 0 if op == "<" else 1, os.path.realpath(ms[0]))
            elif ms:
                want = ("throw",)
            else:
                want = ("throw",)
            cmd = "%s %s %s %s" % ("P", tag, op, s)
            self.note(tag, want, (s, tuple(ms)), cmd)
        else:
            ws = [self.word(pwd) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4]))]
            if any(w[1] is None for w in ws):
                want = ("throw",)
            else:
                want = ("args", [c for w in ws for c in w[1]], pwd)
            cmd = " ".join(["P", tag] + [w[0] for w in ws])
            self.note(tag, want, tuple(w[0] for w in ws), cmd)
        P = r.choice([os.path.join(self.top, "bin", "probe"), "probe", "$probe", "command probe"])
        cmd = P + cmd[1:]
        ctx = r.choice(["plain"] * 6 + ["block", "pipe", "pipe2", "capture", "bg", "if", "for", "andor", "eval", "prefix"])
        if ctx != "plain" and " > " not in cmd:
            cmd = {"block": "block {\n%s\n}", "pipe": "%s | cat", "pipe2": "true | %s", "capture": "define c%s: capture (%%s)" % tag, "bg": "block {\n%s\n} &\nwait",
                   "if": "if (%s) {\ntrue\n}", "for": "for (list 1) (method (x) {\n%s\n})", "andor": "%s && true", "eval": "block {\nblock {\n%s\n}\n}", "prefix": "X=1 %s"}[ctx] % cmd
        if ctx == "pipe2" and ("<" in cmd):
            cmd = cmd.replace("true | ", "")
        o.append("define g%s: method () {\ncatch ex {\n%s x%s $ex\nreturn ()\n}\n%s\n}\ng%s" % (tag, os.path.join(self.top, "bin", "probe"), tag, cmd, tag))
        self.expect[-1] += (ctx,)

    def note(self, tag, want, key, cmd):
        self.expect.append((tag, want, key, cmd))

    def scope(self, o, pwd, depth):
        r = self.r
        for _ in range(r.randint(2, 5)):
            k = r.random()
            if k < 0.6 or not depth:
                self.command(o, pwd)
                continue
            subs = [n for n in self.tree.entries(pwd) if self.tree.kids.get(pwd, {}).get(n) == "dir"]
            if not subs:
                continue
            n = r.choice(subs)
            d = os.path.join(pwd, n)
            kind = r.choice(["block", "block", "method", "bg", "if", "abs", "home"])
            if kind == "home":
                old = self.home
                self.home = d
                o.append("block {\nexport HOME %s" % lit.q(d))
                self.scope(o, pwd, depth - 1)
                o.append("}")
                self.home = old
                continue
            self.n += 1
            a, b = {"block": ("block {", "}"), "abs": ("block {", "}"), "method": ("define m%d: method () {" % self.n, "}\nm%d" % self.n),
                    "bg": ("block {", "} &\nwait"), "if": ("if true {", "}")}[kind]
            o.append(a)
            o.append("cd %s" % lit.dq(d if kind == "abs" else "./" + n))
            self.scope(o, d, depth - 1)
            o.append(b)


def one(ctx, k):
    r = random.Random("%s/c23/%d" % (ctx.seed, k))
    top = ctx.mkdir("g")
    bin = os.path.join(top, "bin")
    os.mkdir(bin)
    probe.install(ctx, bin)
    root = os.path.join(top, "t")
    os.mkdir(root)
    tree = Tree(r, root)
    dirs = [d for d in tree.kids if d != root]
    home = r.choice(dirs) if dirs and r.random() < 0.7 else os.path.join(top, "nohome")
    # A current directory below the root, so that there is something above.
    pwd = root
    if dirs and r.random() < 0.3:
        pwd = r.choice(dirs)
    g = Gen(ctx, r, top, root, tree, home)
    o = ["define sv '*'", "define sv2 'a*.?'", "define svs (list '*' '[a-c]*' '~')", "define probe %s" % lit.q(os.path.join(bin, "probe")),
         # Patterns never match these definitions, or the environment.
         "define a 1", "define abc 2"]
    g.scope(o, pwd, 3)
    while len(g.expect) < 8:
        g.command(o, pwd)
    before = snapshot(root)
    res = ctx.script("\n".join(o) + "\n", cwd=pwd, name=os.path.join(top, "s.oh"),
                     env=ctx.env(PATH=bin + ":/usr/bin:/bin", HOME=home))
    text = "in %s, HOME=%s\n%s" % (pwd, home, "\n".join(o))
    if res.crashed or res.timeout or res.rc != 0:
        ctx.violation("oh did not run a script with patterns: %s" % (res.crashed or "timeout" if res.timeout else res.crashed or res.rc), text + "\n" + res.brief(4000))
        return
    recs = probe.read(bin)
    got = {}
    for rec in recs:
        if len(rec.argv) < 2:
            ctx.violation("a command lost its first argument: %r" % rec.argv, text)
            return
        got.setdefault(rec.argv[1], []).append(rec)
    for tag, want, key, cmd, where in g.expect:
        ran, threw = got.pop(tag, []), got.pop("x" + tag, [])
        desc = "%s\nexpected %r\nran %r threw %r\nstderr %s" % (cmd, want, [x.argv for x in ran], [x.argv[2:] for x in threw], res.err[-600:].decode("utf-8", "backslashreplace"))
        ctx.cover((key, want, where), cmd, nontrivial=want[0] != "args" or any(c[0] == "path" for c in want[1]))
        ctx.count("used in " + where)
        if want[0] == "throw":
            ctx.count("patterns that match nothing, or redirections to several files")
            if ran or (where not in ("pipe", "pipe2", "bg") and len(threw) != 1):
                ctx.violation("a pattern that matches nothing (or several files for a redirection): the command %s" % ("was run" if ran else "raised no exception"), desc + "\n\n" + text)
                return
            continue
        if len(ran) != 1 or threw:
            ctx.violation("a command with patterns was run %d times%s" % (len(ran), " and raised an exception" if threw else ""), desc + "\n\n" + text)
            return
        if want[0] == "redir":
            ctx.count("redirections to a pattern")
            f = ran[0].fds.get(want[1])
            if f is None or os.path.realpath(f) != want[2]:
                ctx.violation("a redirection to a pattern used %r and not %r" % (f, want[2]), desc + "\n\n" + text)
                return
            continue
        args, checks, pwd = ran[0].argv[2:], want[1], want[2]
        ok = len(args) == len(checks)
        for a, c in zip(args, checks):
            if c[0] == "is":
                ok = ok and a == c[1]
            else:
                ctx.count("paths matched")
                if c[1]:
                    ok = ok and not a.startswith("/") and os.path.normpath(os.path.join(pwd, a)) == c[2]
                else:
                    ok = ok and a == c[2]
        if not ok:
            ctx.violation("patterns expanded to the wrong words", desc + "\n\n" + text)
            return
    if got:
        ctx.violation("unexpected commands were run: %r" % list(got), text)
        return
    if snapshot(root).keys() != before.keys():
        ctx.violation("expanding patterns created files: %r" % (snapshot(root).keys() ^ before.keys()), text)
    ctx.count("trees")
    ctx.count("tasks, scopes with their own directory or home", text.count("\ncd ") + text.count("\nexport HOME"))
    ctx.rmdir(top)


def snapshot(root):
    return {os.path.join(d, n): 1 for d, ds, fs in os.walk(root) for n in ds + fs}


def check(ctx):
    ctx.pmap(lambda k: one(ctx, k), range(ctx.n(260, 6000)))
