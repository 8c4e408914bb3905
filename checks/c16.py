"""C16: redirections against files in every prior state."""
import os
import lit

RULE = ("A case is one redirection in a random program run in a prepared directory tree: an operator, a prior state of the file (missing, empty, with contents, "
        "a link, a dangling link, a directory, in a missing directory, a device), a form of its name and a context. Events show whether the command ran and whether an "
        "exception was raised; the whole tree is compared with a model afterwards. Non-trivial: the file exists or an exception is due; distinct by operator, state, form and context.")
ASSUMPTIONS = ["no other process or task creates the file between the check for its existence and its being opened"]

NAMES = ["a", "b.txt", "file one", "x*y", "q?", "[z]", ".hid", "d'q", "$v", "caf\u00e9", "-n", "~t", "a;b", "new\nline", "#c", "e"]
OPS = [">", ">", ">", ">&", ">&", ">|", ">&|", ">>", ">>&", "<", "<"]


class FS:
    """files: relative path -> contents; links: relative path -> relative path of a file in the root."""

    def __init__(self, r):
        self.r = r
        self.dirs = ["", "sub", "sub/deep dir", "o*o"]
        self.files, self.links = {}, {}
        for d in self.dirs:
            for n in r.sample(NAMES, r.randint(3, 8)):
                p = os.path.join(d, n)
                self.files[p] = r.choice(["", "x", "one\ntwo\n", "no newline", "".join("line %d\n" % i for i in range(r.randint(1, 400)))])
        fs = list(self.files)
        for i in range(3):
            self.links[os.path.join(r.choice(self.dirs), "ln%d" % i)] = r.choice(fs)
        for i in range(2):
            self.links[os.path.join(r.choice(self.dirs), "dang%d" % i)] = "target%d" % i

    def create(self, root):
        for d in self.dirs:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for p, c in self.files.items():
            with open(os.path.join(root, p), "w") as f:
                f.write(c)
            os.chmod(os.path.join(root, p), self.r.choice([0o644, 0o644, 0o600, 0o444, 0o755, 0o4755, 0o2711, 0o1644]))
        for p, t in self.links.items():
            os.symlink(os.path.join(root, t), os.path.join(root, p))

    def real(self, p):
        return self.links.get(p, p)

    def snapshot(self, root):
        s = {}
        for d, ds, fs in os.walk(root):
            rel = os.path.relpath(d, root)
            rel = "" if rel == "." else rel
            for n in fs:
                p = os.path.join(d, n)
                k = os.path.join(rel, n)
                if os.path.islink(p):
                    s[k] = ("link", os.path.relpath(os.readlink(p), root))
                else:
                    with open(p, "rb") as f:
                        s[k] = f.read().decode("utf-8", "surrogateescape")
            for n in ds:
                s[os.path.join(rel, n) + "/"] = "dir"
        return s

    def expected(self):
        s = {d + "/": "dir" for d in self.dirs if d}
        s.update(self.files)
        s.update({p: ("link", t) for p, t in self.links.items()})
        return s


def glob_to(r, fs, cwd):
    """A pattern (without special characters other than its wildcards) and what it matches."""
    names = [n for n in set(list(fs.files) + list(fs.links)) if os.path.dirname(n) == cwd]
    existing = [os.path.basename(n) for n in names if fs.real(n) in fs.files or n in fs.links]
    existing += [os.path.basename(d) for d in fs.dirs if d and os.path.dirname(d) == cwd]
    import globm
    pat = r.choice(["a*", "b*", "*.txt", "*", "*", "ln0*", "ln?", "e*", "[a]", "[b].txt", "?.txt", "zzz*", "q*", "file*", "ca*", "[e]", "b.tx?", "[bc]*.txt", "?"])
    return pat, sorted(n for n in existing if globm.match(pat, n))


def step(r, i, fs, cwd, root):
    """Source lines, expected events, and a description, for step i; updates fs."""
    op = r.choice(OPS)
    form = r.choice(["bare", "quoted", "dollar", "dq", "var", "var", "symvar", "computed", "abs", "absbare", "dot", "glob", "glob", "dev", "nodir", "up", "method", "empty"])
    names = [n for n in NAMES] + ["ln0", "ln1", "ln2", "dang0", "dang1", "fresh%d" % i, "deep dir", "sub", "o*o"]
    pre = []
    n = r.choice(names)
    existing = [os.path.basename(f) for f in fs.files if os.path.dirname(f) == cwd]
    if existing and r.random() < 0.5:
        n = r.choice(existing)
    if form in ("bare", "absbare", "dot", "up", "symvar"):
        ok = [x for x in existing if x.isalnum() or x == "b.txt"]
        n = r.choice(ok) if ok and r.random() < 0.6 else r.choice(["a", "b.txt", "e", "ln0", "ln1", "ln2", "dang0", "dang1", "fresh%d" % i, "sub"])
    multiple = None
    p = os.path.join(cwd, n)
    if form == "bare":
        t = n
    elif form == "quoted":
        t = lit.q(n)
    elif form == "dollar":
        t = lit.dq(n)
    elif form == "dq":
        n = r.choice(["a", "b.txt", "file one", "x*y", "[z]", "fresh%d" % i])
        p = os.path.join(cwd, n)
        pre.append("define v%d %s" % (i, lit.q(n[:1])))
        t = '"${v%d}%s"' % (i, n[1:])
    elif form == "var":
        pre.append("define v%d %s" % (i, lit.q(n)))
        t = "$v%d" % i
    elif form == "symvar":
        pre.append("define v%d %s" % (i, n))
        t = "$v%d" % i
    elif form == "computed":
        k = len(n) // 2
        t = "(mend '' %s %s)" % (lit.dq(n[:k]), lit.dq(n[k:]))
    elif form == "method":
        pre.append("define m%d: method () {\nreturn %s\n}" % (i, lit.dq(n)))
        t = "(m%d)" % i
    elif form == "abs":
        t = lit.q(os.path.join(root, p))
    elif form == "absbare":
        if any(c in cwd for c in " *"):
            p = n
        t = os.path.join(root, p)
    elif form == "dot":
        t = "./" + n
    elif form == "up":
        if not cwd:
            t, p = "sub/../" + n, n
        else:
            p = os.path.join(os.path.dirname(cwd), n)
            t = "../" + n
    elif form == "dev":
        p, t = None, r.choice(["/dev/null", "'/dev/null'"])
    elif form == "empty":
        p, t = "missing/", r.choice(["''", '""', "$''", "(mend '' '')"])
    elif form == "nodir":
        p, t = "missing/" + n, lit.q("missing/" + n)
    elif form == "glob":
        t, m = glob_to(r, fs, cwd)
        if len(m) != 1:
            multiple = True
        else:
            p = os.path.join(cwd, m[0])
    # Its state.
    if p is None:
        state = "device"
    elif multiple:
        state = "ambiguous" if m else "unmatched"
    elif p.startswith("missing/"):
        state = "nodir"
    elif p in fs.dirs:
        state = "dir"
    elif fs.real(p) in fs.files:
        state = "file" if p not in fs.links else "link"
        if fs.files[fs.real(p)] == "":
            state = "empty " + state
    elif p in fs.links:
        state = "dangling"
    else:
        state = "missing"
    both = "&" in op
    out, err = "out %d\n" % i, "err %d\n" % i
    there = state in ("file", "link", "empty file", "empty link")
    if op in (">", ">&"):
        fails = there or state in ("dir", "ambiguous", "unmatched", "nodir")
    elif op == "<":
        fails = state in ("missing", "dangling", "nodir", "ambiguous", "unmatched")
    else:
        fails = state in ("dir", "nodir", "ambiguous", "unmatched")
    runs = not fails
    events = []
    context = r.choice(["plain", "plain", "method", "block", "bg", "capture", "pipe", "pipe2", "nested", "if", "for"])
    body = r.choice(["block", "external", "method"])
    if op == "<" and state == "dir":
        # Opening a directory works, reading it does not.
        return None
    if runs:
        events.append("r %d" % i)
        content = ""
        if op == "<":
            content = "" if state == "device" else fs.files[fs.real(p)]
            if body == "external":
                events.append("c %d %d" % (i, len(content.encode())))
            else:
                events += ["l %d %s" % (i, x) for x in (content[:-1] if content.endswith("\n") else content).split("\n") if content]
        elif state != "device":
            q = fs.real(p)
            add = out + (err if both else "")
            fs.files[q] = (fs.files.get(q, "") if op.startswith(">>") else "") + add
        events.append("d %d" % i)
    else:
        events.append("x %d" % i)
    if op == "<":
        cmd = {"block": "block {\nev 'r %d'\nwhile (define l: read-line) {\nev \"l %d ${l}\"\n}\n}" % (i, i),
               "method": "readall %d" % i,
               "external": "sh -c 'echo r %d >> \"$EVENTS\"; echo c %d $(cat | wc -c) >> \"$EVENTS\"'" % (i, i)}[body]
    else:
        cmd = {"block": "block {\nev 'r %d'\necho 'out %d'\nerror 'err %d'\n}" % (i, i, i),
               "method": "noise %d" % i,
               "external": "sh -c 'echo r %d >> \"$EVENTS\"; echo out %d; echo err %d >&2'" % (i, i, i)}[body]
    red = "%s %s %s" % (cmd, op, t)
    if context == "plain":
        src = red
    elif context == "method":
        src = "define g%d: method () {\n%s\n}\ng%d" % (i, red, i)
    elif context == "block":
        src = "block {\n%s\n}" % red
    elif context == "bg":
        # An exception ends the task: it is caught there.
        src = "define t%d: spawn {\nguard %d (method () {\n%s\n})\n}\nwait $t%d" % (i, i, red, i)
    elif context == "capture":
        src = "define c%d: capture (%s)" % (i, red)
    elif context == "pipe":
        src = "%s | cat" % red
    elif context == "pipe2":
        src = "true | %s" % red
    elif context == "nested":
        src = "block {\n%s\n} >> /dev/null" % red
    elif context == "if":
        src = "if true {\n%s\n}" % red
    else:
        src = "for (list 1) (method (x) {\n%s\n})" % red
    # The name is evaluated in the scope of the redirection.
    lines = ["guard %d (method () {" % i] + pre + [src] + ["})"]
    if context == "bg":
        lines = ["block {"] + pre + [src] + ["}"]
    return lines, events, (op, state, form, context, body), fails or there


PRE = """define log: open a %s
define ev: method (s) {
log write-line $s
}
define guard: method (i m) {
catch ex {
ev "x ${i}"
return ()
}
m
ev "d ${i}"
}
define noise: method (i) {
ev "r ${i}"
echo "out ${i}"
error "err ${i}"
}
define readall: method (i) {
ev "r ${i}"
while (define l: read-line) {
ev "l ${i} ${l}"
}
}
"""


def check(ctx):
    cases = []
    for n in range(ctx.n(260, 8000)):
        cases.append(ctx.rng.getrandbits(60))
    ctx.pmap(lambda s: one(ctx, s), cases)


def one(ctx, seed):
    import random
    r = random.Random(seed)
    d = ctx.mkdir()
    root = os.path.join(d, "r")
    ctl = os.path.join(d, "ctl")
    os.mkdir(root)
    os.mkdir(ctl)
    fs = FS(r)
    fs.create(root)
    evf = os.path.join(ctl, "events")
    src, want, infos = [PRE % evf], [], []
    cwd = ""
    for i in range(r.randint(6, 14)):
        if r.random() < 0.3:
            cwd = r.choice(fs.dirs)
            src.append("cd %s" % lit.q(os.path.join(root, cwd)))
        s = step(r, i, fs, cwd, root)
        if s is None:
            continue
        src += s[0]
        want.append((s[1], s[2]))
        ctx.cover(s[2], "\n".join(s[0]), nontrivial=s[3])
        ctx.count("operator " + s[2][0])
        ctx.count("state " + s[2][1])
        ctx.count("exceptions due" if not any(e.startswith("r") for e in s[1]) else "commands run")
    path = os.path.join(ctl, "t.oh")
    text = "\n".join(src) + "\n"
    with open(path, "w") as f:
        f.write(text)
    r_ = ctx.run([path], cwd=root, env=ctx.env(EVENTS=evf), timeout=60)
    try:
        with open(evf, errors="surrogateescape") as f:
            got = f.read()
    except OSError:
        got = ""
    exp = "".join(e + "\n" for es, _ in want for e in es)
    snap, model = fs.snapshot(root), fs.expected()
    ctx.rmdir(d)
    replay = text + "\nexpected events:\n" + exp + "\nevents:\n" + got + "\n" + r_.brief(2000)
    if r_.timeout or r_.crashed or r_.rc != 0:
        ctx.violation("oh did not run the program: " + r_.brief(300), replay)
        return
    if got != exp:
        g, e = got.split("\n"), exp.split("\n")
        k = next((j for j in range(min(len(g), len(e))) if g[j] != e[j]), min(len(g), len(e)))
        at = 0
        for es, info in want:
            at += len(es)
            if at > k:
                break
        ctx.violation("events of a redirection are wrong (%s): expected %r, got %r" % (info, e[k:k + 3], g[k:k + 3]), replay)
        return
    if snap != model:
        bad = [k for k in sorted(set(snap) | set(model)) if snap.get(k) != model.get(k)]
        ctx.violation("files are not as they should be: " + "; ".join("%r: expected %.80r, found %.80r" % (k, model.get(k), snap.get(k)) for k in bad[:3]), replay)
