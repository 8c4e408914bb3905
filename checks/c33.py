"""C33: invocation."""
import os, random, subprocess
import lit, probe

RULE = ("A case is one invocation of oh on a script (at a generated path, given relative or absolute) or with -c, with a generated name, arguments and environment. The script or text writes $0, $@, every positional parameter, ORIGIN, PWD "
        "and the variables of the environment, all of which are decoded and compared byte for byte, and passes the arguments to a program that records them. Others name scripts that cannot be read. Non-trivial: there is an argument, path or "
        "value that has other characters than letters and digits; distinct by the invocation.")
ASSUMPTIONS = ["a name given after -c does not begin with - and a script's path does not begin with - (the option parser takes these for options)",
               "names of environment variables that oh itself defines are left out"]
OPTIONS = ["-v", "-h", "--help", "-m", "-c", "-s", "-i", "--", "-", "--command=write-line hello", "-x", "--version", "--unknown", "-1", "-im"]
CODE = ["$HOME", "$(touch made)", "`(touch made)", "; touch made", "& touch made", "${1}", "(touch made)", "| cat", "> made", "*", "~", "~/x", "?", "[a-z]*", "'", '"', "\\", "\\n", "$$", "#", "{", "}", ")", "(", "()", "a=b", "a b", "\n", " ", "\t", "",
        "true", "if", "write-line", "throw x", "$'", "(|", "|)", "\x01", "\x7f", "\u00e9", "\u4e2d\u6587", "\U0001f600"]


def argument(r):
    k = r.random()
    if k < 0.2:
        return r.choice(OPTIONS)
    if k < 0.45:
        return r.choice(CODE)
    if k < 0.5:
        return "x" * r.choice([255, 4096, 30000])
    return lit.rtext(r, 12, invalid=True).replace("\0", "")


def element(r):
    """A file name."""
    while True:
        s = argument(r).replace("/", "").replace("\0", "")[:40]
        b = s.encode("utf-8", "surrogateescape")[:200]
        s = b.decode("utf-8", "surrogateescape")
        if s not in ("", ".", "..") and not s.startswith("-"):
            return s


def b(s):
    return s.encode("utf-8", "surrogateescape")


NAMES = ["V%d", "MY_VAR%d", "_x%d", "a%dB", "X%d_", "Lower%dcase", "V%d-x", "V%d+y", "%%%d", "V%d%%z"]
PLAIN = ["oh", "sh", "0", "1", "bin", "name", "source", "script"]


def env(r):
    e = {}
    for i in range(r.randint(0, 5)):
        e[r.choice(NAMES) % i] = r.choice([lambda: "", lambda: argument(r), lambda: r.choice(CODE) + r.choice(CODE), lambda: "a=b=" + argument(r), lambda: "\n".join(argument(r) for _ in range(3))])()[:20000]
    return e


def body(r, nargs, names):
    """Commands that write what oh was given."""
    o = ["write $0", "write $@"]
    for i in range(1, nargs + 1):
        o.append(r.choice(["write $%d", "write ${%d}", "write (resolve %d)", "write \"${%d}\"" if True else ""]) % i)
    o += ["write (resolves? %d)" % (nargs + 1), "write $ORIGIN", "write $PWD", "write (@ length)" if False else "write $@"]
    for n in names:
        o.append("write (resolve %s)" % n if not n.replace("_", "a").isalnum() or r.random() < 0.5 else "write %s" % r.choice(["$%s", "${%s}", "\"${%s}\""]) % n)
    # A scope of its own, where they are the same.
    o += ["define m: method (a) {", "write $0 $@", "}", "m x"]
    return o


def texts(line):
    return [lit.text(x) if not isinstance(x, lit.Cons) and x is not lit.NIL else "" if x is lit.NIL else [lit.text(y) for y in lit.pylist(x)] for x in lit.pylist(lit.decode(line))]


def one(ctx, k):
    r = random.Random("%s/c33/%d" % (ctx.seed, k))
    top = ctx.mkdir("iv")
    cwd = top
    probe.install(ctx, cwd)
    args = [argument(r) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 12]))]
    ev = env(r)
    mode = r.choice(["script", "script", "script", "c", "c", "c="])
    opts = r.choice([[], [], [], ["-m"]])
    src = body(r, len(args), list(ev))
    if not opts:
        # Without a terminal no command can be run in the foreground.
        src.append("./probe (splice $@)")
    if mode == "script":
        parts = [element(r) for _ in range(r.choice([0, 1, 1, 2]))]
        d = os.path.join(cwd, *parts)
        os.makedirs(b(d), exist_ok=True)
        name = element(r) if r.random() < 0.6 else r.choice(PLAIN) if r.random() < 0.5 else "t.oh"
        path = os.path.join(d, name)
        if os.path.exists(b(path)):
            ctx.rmdir(top)
            return
        if r.random() < 0.1:
            # A link to the script: its directory is that of the link.
            os.makedirs(os.path.join(cwd, "real"), exist_ok=True)
            real = os.path.join(cwd, "real", "script")
            os.symlink(b(real), b(path))
        else:
            real = path
        text = "\n".join(src) + r.choice(["\n", ""])
        with open(b(real), "wb") as f:
            f.write(b(text))
        rel = "/".join(parts + [name])
        given = r.choice([lambda: path, lambda: rel, lambda: "./" + rel, lambda: "../%s/%s" % (os.path.basename(cwd), rel)])()
        name = given
        argv = opts + [given] + args
        origin = d
    else:
        text = r.choice(["\n", "\n", "; " if False else "\n"]).join(src)
        name = r.choice([element(r), element(r), r.choice(PLAIN), ""]) if args or r.random() < 0.6 else None
        argv = opts + (["-c", text] if mode == "c" else [r.choice(["--command=", "-c"]) + text]) + ([name] if name is not None else []) + args
        origin = cwd
        if name is None:
            name = ctx.oh
    e = ctx.env(**ev)
    p = ctx.run([b(a) for a in argv], cwd=cwd, env={b(x): b(y) for x, y in e.items()}, timeout=60)
    what = None
    if p.crashed or p.timeout or p.rc != 0 or p.err:
        what = "an invocation %s" % ("crashed: " + p.crashed if p.crashed else "never ended" if p.timeout else "failed: " + p.err[-500:].decode("utf-8", "replace"))
    else:
        want = [[name], [args]] + [[a] for a in args] + [[""], [origin], [cwd], [args]] + [[ev[n]] for n in ev] + [[name, args]]
        if not args:
            want = [[x if x != [] else "" for x in w] for w in want]
        lines = p.out.decode("utf-8", "surrogateescape").split("\n")[:-1]
        try:
            got = [texts(x) for x in lines]
        except (lit.Bad, ValueError, TypeError) as x:
            got = None
            what = "the output can't be decoded: %s" % x
        if got is not None:
            if len(got) != len(want):
                what = "%d values were written, and not %d" % (len(got), len(want))
            else:
                labels = ["$0", "$@"] + ["$%d" % i for i in range(1, len(args) + 1)] + ["the parameter after the last", "ORIGIN", "PWD", "$@"] + list(ev) + ["$0 $@ in a method"]
                for l, w, g in zip(labels, want, got):
                    if w != g:
                        what = "%s is %r and not %r" % (l, g, w)
                        break
        if not what and not opts:
            recs = probe.read(cwd)
            if len(recs) != 1 or recs[0].argv[1:] != args:
                what = "the arguments passed on are %r and not %r" % (recs[0].argv[1:] if recs else None, args)
    if not what and os.path.exists(os.path.join(cwd, "made")):
        what = "part of an argument or value was evaluated"
    if what:
        ctx.violation(what, "argv %r\nenvironment %r\ntext:\n%s\n%s" % (argv, ev, text, p.brief(6000)))
        return
    ctx.cover((mode, argv, sorted(ev.items())), "%r environment %r" % (argv[:6], ev) if k % 50 == 7 else None, nontrivial=bool(args or ev or mode == "script"))
    ctx.count("arguments", len(args))
    ctx.count("arguments that look like options", sum(a.startswith("-") for a in args))
    ctx.count("variables", len(ev))
    ctx.count("mode %s" % mode)
    ctx.rmdir(top)


def text(ctx, k):
    """The text given to -c is the text evaluated."""
    r = random.Random("%s/c33t/%d" % (ctx.seed, k))
    vs = [lit.rtext(r, 12, invalid=True).replace("\0", "") for _ in range(r.randint(1, 6))]
    lines, want = [], []
    for v in vs:
        # Strings as they are, also over lines.
        raw = "'" not in v and b(v).decode("utf-8", "replace") == v
        lines.append("write %s" % ("'%s'" % v if raw else lit.dq(v)))
        want.append(lit.lst(lit.Str(v)))
    t = r.choice(["\n", ";", " ; ", "\n\n"]).join(lines) + r.choice(["", "\n", " ", " # comment"])
    p = ctx.c(b(t), args=r.choice([[], ["n"], ["n", "a"]]))
    try:
        got = [lit.decode(x) for x in p.out.decode("utf-8", "surrogateescape").split("\n")[:-1]]
    except (lit.Bad, ValueError) as x:
        got = str(x)
    if got != want or p.err or p.rc != 0:
        ctx.violation("the commands of -c did not give their values", "%r\n%s\nwanted %r" % (t, p.brief(2000), want))
        return
    ctx.cover(("text", t), nontrivial=True)
    ctx.count("texts for -c")


def unreadable(ctx, k):
    r = random.Random("%s/c33u/%d" % (ctx.seed, k))
    d = ctx.mkdir("un")
    kind = r.choice(["missing", "directory", "dangling", "through a file", "empty name", "loop"])
    n = element(r)
    while n == "f":
        n = element(r)
    p = os.path.join(d, n)
    given = r.choice([p, n, "./" + n])
    if kind == "directory":
        os.mkdir(b(p))
    elif kind == "dangling":
        os.symlink(b(n + "x"), b(p))
    elif kind == "loop":
        os.symlink(b(n), b(p))
    elif kind == "through a file":
        open(os.path.join(d, "f"), "w").write("write-line evaluated\n")
        given = "f/" + n
    elif kind == "empty name":
        given = ""
    res = ctx.run([b(given)] + ["a"] * r.randint(0, 2), cwd=d, timeout=60)
    what = None
    if res.crashed or res.timeout:
        what = "a script that can't be read (%s): %s" % (kind, res.crashed or "oh never ends")
    elif not res.err or res.out:
        what = "there was no error for a script that can't be read (%s)" % kind
    elif kind != "empty name" and b"error: " not in res.err:
        what = "there was no error for a script that can't be read (%s)" % kind
    if what:
        ctx.violation(what, "%r in %r\n%s" % (given, kind, res.brief(2000)))
        return
    ctx.cover(("unreadable", kind, given))
    ctx.count("scripts that can't be read")
    ctx.rmdir(d)


def odd(ctx):
    """An entry of the environment that is not a variable does no harm."""
    d = ctx.mkdir("od")
    with open(os.path.join(d, "e.c"), "w") as f:
        f.write('#include <unistd.h>\nint main(int c, char **v) { char *e[] = {"PATH=/usr/bin:/bin", "NOTAVARIABLE", "", "HOME=/nonexistent", "A=ab", 0}; execve(v[1], v + 1, e); return 9; }\n')
    subprocess.run(["gcc", "-w", "-o", "e", "e.c"], cwd=d, check=True, env={"PATH": "/usr/bin:/bin", "TMPDIR": d})
    r = ctx.run([ctx.oh, "-c", "write $A"], oh=os.path.join(d, "e"))
    if r.rc != 0 or r.out != b"ab\n" or r.err:
        ctx.violation("an environment with an entry that has no = keeps oh from running", r.brief(1500))
    ctx.cover("odd entry")


def check(ctx):
    probe.build(ctx)
    odd(ctx)
    ctx.pmap(lambda k: one(ctx, k), range(ctx.n(1200, 40000)))
    ctx.pmap(lambda k: text(ctx, k), range(ctx.n(300, 10000)))
    ctx.pmap(lambda k: unreadable(ctx, k), range(ctx.n(80, 1000)))
