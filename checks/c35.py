"""C35: reports of uncaught exceptions."""
import os, random, re
import ohv

RULE = ("A case is one program in which a command fails at the end of a random chain of calls of methods, members and closures, in blocks, branches, loops, arguments and definitions, in the script, in files it sources or imports, or in a task it spawns, "
        "with comments, blank lines, continuation lines, text over several lines and text of other scripts before it. What is written to standard error is compared with the positions of the commands in the text: one report, ending with the message; every position "
        "in it names a command whose text is there; the calls of the chain are all there, outermost first; and the last is the command that failed. Distinct by the chain, what is around each call and the kind of failure.")
ASSUMPTIONS = ["a call in tail position, or not in any construct at the top level of the script or a task, may be left out of the report, and so may a throw there; other commands than those of the chain may be in it",
               "the position of what fails in a pipeline, capture, redirection or handler is not compared"]
FAIL = [
    ("add 1 a", "'a' is not a valid number"), ("nosuchcmd-x a b", "nosuchcmd-x: command not found"), ("write-line $nosuch", "'nosuch' not defined"),
    ("throw \"the é message: $x\"", "the é message: 1"), ("throw 'quoted ; # (x'", "quoted ; # (x"), ("set nosuch 1", "'nosuch' not defined"), ("number q", "'q' is not a valid number"), ("mul 2 zz", "'zz' is not a valid number"),
    ("lt? 1 2 é", None), ("list-o nothing", "'nothing' not defined"), ("throw plain", "plain"), ("div 1 0", None), ("cd", ""), ("stdin nosuch 1", "'nosuch' not defined"),
]
FAIL = [f for f in FAIL if f[0] != "cd"]


class Src:
    def __init__(self, name):
        self.name, self.text = name, ""

    def put(self, s):
        self.text += s

    def mark(self):
        return (self.name, len(self.text))


def before(r, s, ind):
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        s.put(ind + r.choice(["list 1\n", "# a comment: é ( { ' \"\n", "\n", "   \n", "list 'é ж' 2 ; list\t3\n", "list a \\\n   b\n", "define v \"one\ntwo é\n  three\" ; list 4\n", "list 'x\n\ny' 2\n",
                              "if () {\n" + ind + "    list 1\n" + ind + "}\n", "define w: list 1 2\n", "list $'\\t' \"$x\" # more\n", "list 🙂漢字 a:b c/d\n", "list ()\n", "block {\n" + ind + "    add 1 2\n" + ind + "}\n"]))


def nest(r, s, ind, inner, deep, shape):
    """Writes commands, the one that inner writes among them, and one after it."""
    before(r, s, ind)
    k = r.choice(["plain"] * 3 + ["same", "block", "if", "else", "elseif", "while", "arg", "arg2", "define", "set", "cond", "and", "closure", "cont"]) if deep < 3 else "plain"
    shape.append(k)
    nind = ind + r.choice(["    ", "\t", "  ", ""])
    post = r.choice(["list 1\n", "list (list 1)\n", "list 'é'\n"])
    s.put(ind)
    if k == "plain":
        inner(s)
        s.put(r.choice(["\n", " # c é\n", "  \n"]))
    elif k == "same":
        s.put(r.choice(["list 1; ", "list 'é漢' ; ", "list \"a\nb\"  ;\t"]))
        inner(s)
        s.put(r.choice(["; list 3\n", " ; list 2\n"]))
    elif k == "block":
        s.put("block {\n")
        nest(r, s, nind, inner, deep + 1, shape)
        s.put(ind + "}\n")
    elif k == "closure":
        s.put("define c%d: method () {\n" % len(shape))
        n = len(shape)
        nest(r, s, nind, inner, deep + 1, shape)
        s.put(ind + "}\n" + ind + "c%d\n" % n)
    elif k in ("if", "else", "elseif"):
        if k == "if":
            s.put("if (list 1) {\n")
        elif k == "else":
            s.put("if (null? 1) {\n" + ind + "    list 1\n" + ind + "} else {\n")
        else:
            s.put("if () {\n" + ind + "    list 1\n" + ind + "} else if true {\n")
        nest(r, s, nind, inner, deep + 1, shape)
        s.put(ind + "}\n")
    elif k == "while":
        s.put("while true {\n")
        nest(r, s, nind, inner, deep + 1, shape)
        s.put(ind + "}\n")
    elif k == "cond":
        s.put("if (")
        inner(s)
        s.put(") {\n" + ind + "    list 1\n" + ind + "}\n")
    elif k == "and":
        s.put("list 1 && list (list (")
        inner(s)
        s.put(") 2) 3\n")
    elif k == "cont":
        s.put("list 1 \\\n" + ind + "  (")
        inner(s)
        s.put(") \\\n 3\n")
    else:
        s.put({"arg": "list (", "arg2": "list a 'é' (list 1 (", "define": "define u: list (", "set": "set x: list 1 ("}[k])
        inner(s)
        s.put({"arg": ") 2\n", "arg2": ") 2) 3\n", "define": ") 1\n", "set": ")\n"}[k])
    s.put(ind + post)


def program(r):
    n = r.choice([0, 1, 1, 2, 3, 4])
    main = Src("main é.oh" if r.random() < 0.2 else "main.oh")
    lib = Src("lib.oh")
    mod = Src("mod.oh")
    cmd, msg = r.choice(FAIL)
    shape = [cmd, n]
    required = []  # innermost first
    # Which file each method is in: once in the module, always in the module.
    files, f = [], r.choice(["main", "main", "lib"])
    for i in range(n):
        if f != "mod" and r.random() < 0.2:
            f = "mod"
        elif f != "mod":
            f = r.choice(["main", "lib"])
        files.append(f)
    src = {"main": main, "lib": lib, "mod": mod}
    if r.random() < 0.3:
        main.put(r.choice(["#!/usr/bin/env oh\n", "# é\n\n", "\n\n"]))
    for s in (main, lib, mod):
        s.put("define list-o: object {\n    export a 1\n}\ndefine x 1\n")
    main.put("source ./lib.oh\ndefine m: import ./mod.oh\n")
    out = []

    def failing(s):
        out.append(s.mark())
        s.put(cmd)

    def caller(i):
        """Writes the call of method i in file s."""
        def f(s):
            out.append(s.mark())
            if files[i] == "mod" and (i == 0 or files[i - 1] != "mod"):
                s.put("m f%d 1" % i)
            elif r.random() < 0.1:
                s.put("f%d $x" % i)
            else:
                s.put("f%d 1" % i)
        return f

    inner = failing
    for i in reversed(range(n)):
        s = src[files[i]]
        if r.random() < 0.2:
            # Through a method that calls itself, or others, from the same place.
            times = r.choice([1, 2, 3, 7])
            s.put("define g%d: method (w) {\n" % i)
            nest(r, s, "    ", inner, 1, shape)
            s.put("}\ndefine r%d: method (x) {\n    define h: x head\n    define y: x tail\n    " % i)
            out.extend([s.mark()] * (times + 1))
            s.put("h $y\n    list 1\n}\ndefine l%d: list %s$g%d\n" % (i, "$r%d " % i * times, i))
            shape.append(("repeated", times))

            def again(s, i=i):
                out.append(s.mark())
                s.put("r%d $l%d" % (i, i))
            inner = again
        s.put(("export " if files[i] == "mod" or r.random() < 0.3 else "define ") + "f%d: method (x) {\n" % i)
        nest(r, s, r.choice(["    ", "\t", ""]), inner, 0, shape)
        s.put("}\n" + r.choice(["", "\n", "# end\n"]))
        inner = caller(i)
    shape.append(tuple(files))
    task = r.random() < 0.2
    shape.append(task)
    if task:
        main.put("define t: spawn {\n")
        nest(r, main, "    ", inner, 0, shape)
        if n or cmd.startswith("throw "):
            out[-1] = None
        main.put("}\nwait $t\nwrite-line after-task\n")
    else:
        if r.random() < 0.7:
            main.put("block {\n")
            nest(r, main, "    ", inner, 0, shape)
            main.put("}\n")
        else:
            # What fails at the top level is reported; a call from there is a tail call of source.
            before(r, main, "")
            inner(main)
            if n or cmd.startswith("throw "):
                out.pop()
                out.append(None)
            main.put("\n")
            shape.append("top")
        main.put("write-line not-reached\n")
    # out is innermost first, as methods were written from the last to the first.
    return dict(src=src, required=list(reversed(out)), msg=msg, task=task, shape=tuple(shape), cmd=cmd)


def where(s, pos):
    """(line, column, the rest of the line) of a position."""
    b = s.text.rfind("\n", 0, pos) + 1
    e = s.text.find("\n", pos)
    return (s.text.count("\n", 0, pos) + 1, pos - b + 1, s.text[pos:len(s.text) if e < 0 else e])


LINE = re.compile(r"^(.*):(\d+):(\d+): (.*)$", re.S)


def judge(p, boot, cwd, rc, out, err):
    """What is wrong with the report, or None."""
    lines = err.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    if sum(ln.startswith("error: ") for ln in lines) != 1:
        return "not one report"
    if not lines[-1].startswith("error: "):
        return "something follows the message"
    if p["msg"] is not None and lines[-1] != "error: " + p["msg"]:
        return "the message is not the one of the exception"
    texts = {s.name: s.text.split("\n") for s in p["src"].values()}
    seen = []
    for ln in lines[:-1]:
        m = LINE.match(ln)
        if not m:
            return "a line that is not a position: " + ln
        name, n, c, text = m.group(1), int(m.group(2)), int(m.group(3)), m.group(4)
        if name == "boot.oh":
            t = boot
        else:
            name = os.path.relpath(os.path.normpath(os.path.join(cwd, name)), cwd)
            t = texts.get(name)
        if t is None:
            return "a position in a file that is not part of the program: " + ln
        if not (1 <= n <= len(t) and t[n - 1][c - 1:] == text and text):
            return "no such text at the position given: " + ln
        if name != "boot.oh":
            seen.append((name, n, c))
    need = [(q[0],) + where([s for s in p["src"].values() if s.name == q[0]][0], q[1])[:2] for q in p["required"] if q]
    i = 0
    for q in seen:
        if i < len(need) and q == need[i]:
            i += 1
    if i < len(need):
        return "the report does not have %s:%d:%d, or not in its place" % need[i]
    if need and seen[-1] != need[-1]:
        return "the last position is not that of the command that failed: %s:%d:%d" % need[-1]
    if ("not-reached" in out) or (p["task"] and "after-task" not in out):
        return "the program did not go on as it should after the report"
    return None


def check(ctx):
    boot = open(os.path.join(ohv.REPO, "internal/engine/boot/boot.oh")).read().split("\n")

    def one(i):
        r = random.Random("c35/%d/%d" % (ctx.seed, i))
        p = program(r)
        d = ctx.mkdir()
        for s in p["src"].values():
            with open(os.path.join(d, s.name), "w") as f:
                f.write(s.text)
        arg = r.choice(["", "./", d + "/"]) + p["src"]["main"].name
        res = ctx.run([arg], cwd=d)
        out, err = res.out.decode("utf-8", "replace"), res.err.decode("utf-8", "replace")
        bad = "it does not end" if res.timeout else judge(p, boot, d, res.rc, out, err)
        if bad:
            ctx.violation(bad, "\n".join("=== %s\n%s" % (s.name, s.text) for s in p["src"].values()) + "\n=== expected, outermost first\n%s\nerror: %s\n=== standard error\n%s\n=== standard output\n%s\n" % (
                "\n".join("%s:%d:%d: %s" % ((q[0],) + where([s for s in p["src"].values() if s.name == q[0]][0], q[1])) for q in p["required"] if q), p["msg"], err, out))
        ctx.count("positions_compared", len(p["required"]))
        ctx.count_max("longest_report", err.count("\n"))
        ctx.cover(p["shape"], sample=err[:400], nontrivial=True)
        ctx.rmdir(d)

    ctx.pmap(one, range(ctx.n(2500, 30000)))
