"""C36: the startup file."""
import os, random
import lit, ohv, probe, ptydrv

RULE = ("A case is one start of oh, with a script, -c text or at a terminal, with a random startup file (named by OH_RC in several forms, ~/.oh-rc, both or none) that logs, defines and exports names, methods and objects, replaces commands, sources another file, "
        "and may fail at a random point or have a syntax error. The program logs what it finds of all of this, in its own scope, a method, a task, a file it sources and an external command. The log is compared with the one expected. "
        "Distinct by the shape of the file, how it is named and the mode; non-trivial: there is a startup file.")
ASSUMPTIONS = ["the startup file does not change directory or exit, and is a regular file or missing", "of a file with a syntax error nothing is evaluated, as for any script"]
BAD = [("throw 'the message'", "the message"), ("no-such-command-q a", "no-such-command-q: command not found"), ("write $no-such-name", "'no-such-name' not defined"), ("add 1 a", "'a' is not a valid number"), ("set nothing-here 1", "'nothing-here' not defined")]
SYNTAX = ["block {\n list (\n", "list )\n", "list 'a\n", "list a | | b\n", "block {\nlist 1\n"]
NAMES = ["a1", "b-x", "Long_Name", "q?", "z", "PATHX"]


def value(r):
    # Without the keys that the terminal acts on.
    return "".join(c for c in lit.rtext(r, 8) if c.isprintable())


def startup(r, other):
    """(text, names, methods, log, failure) of a startup file."""
    o, n = ["define log: open a $EVLOG"], {"define": {}, "export": {}}
    log, fail, shape = [], None, []
    m, used = [], set()
    steps = r.randint(0, 8)
    bad = r.random()
    at = r.randint(0, steps) if bad < 0.3 else None
    for i in range(steps + 1):
        if i == at:
            fail = r.choice(BAD)
            if r.random() < 0.3:
                o.append("define failing: method () {\nlist 1\n%s\nlist 2\n}\nblock {\nfailing\nlist 3\n}" % fail[0])
            else:
                o.append(fail[0])
            shape.append(("fail", fail[0]))
        if i == steps:
            break
        k = r.choice(["log", "args", "define", "define", "export", "export", "method", "object", "replace", "replace", "source", "set", "inner", "task"])
        late = fail is not None
        nm = r.choice(NAMES)
        if k in ("define", "export"):
            if nm in used:
                continue
            used.add(nm)
            v = value(r)
            o.append("%s %s %s" % (k, nm, lit.q(v)))
            if not late:
                n[k][nm] = v
        elif k == "set":
            have = [x for x in n["define"]] + [x for x in n["export"]]
            if not have:
                continue
            nm = r.choice(have)
            v = value(r)
            o.append("set %s %s" % (nm, lit.q(v)))
            if not late:
                n["define" if nm in n["define"] else "export"][nm] = v
        elif k == "log":
            o.append("log write %d" % i)
            if not late:
                log.append([str(i)])
        elif k == "args":
            o.append("log write args $0 (splice $@)")
            if not late:
                log.append("args")
        elif k in ("method", "object", "replace", "inner"):
            name = {"method": "m%d" % i, "object": "o%d" % i, "replace": r.choice(["echo", "uname", "error", "numfmt"]), "inner": "t%d" % i}[k]
            if name in used:
                continue
            used.add(name)
            o.append({"method": "define %s: method (x) {\nlog write called %d $x\n}" % (name, i), "object": "define %s: object {\nexport go: method (x) {\nlog write called %d $x\n}\n}" % (name, i),
                      "replace": "%s %s: method (x) {\nlog write called %d $x\n}" % (r.choice(["define", "export"]), name, i),
                      "inner": "block {\ndefine %s 1\nexport E%s 1\n}" % (name, name)}[k])
            if not late and k != "inner":
                m.append(("%s go" % name if k == "object" else name, i))
        elif k == "source":
            if other in used:
                continue
            used.add(other)
            v = value(r)
            with open(other, "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write("define sourced %s\nlog write in-sourced\n" % lit.q(v))
            o.append("source %s" % lit.q(other))
            if not late:
                n["define"]["sourced"] = v
                log.append(["in-sourced"])
        elif k == "task":
            o.append("wait (spawn {\nlog write from-task\n})")
            if not late:
                log.append(["from-task"])
        shape.append((k, late))
    text = "\n".join(o) + r.choice(["\n", ""])
    if at is None and r.random() < 0.15:
        sx = r.choice(SYNTAX)
        text = text.rstrip("\n") + "\n" + sx
        fail, n, m, log = ("syntax", None), {"define": {}, "export": {}}, [], []
        shape.append(sx)
    return text, n, m, log, fail, tuple(shape)


def program(r, n, m, d):
    """(text, log): the log is what the program is expected to add."""
    o, log = ["define log: open a $EVLOG", "log write program $0 (splice $@)"], ["program"]
    names = {**n["define"], **n["export"]}
    for place in r.sample(["plain", "plain", "method", "task", "source", "block", "probe"], r.randint(2, 6)) + ["plain"]:
        if place == "probe":
            o.append("./probe")
            log.append(("probe", dict(n["export"])))
            continue
        body, exp = [], []
        for nm in r.sample(NAMES + ["sourced", "t1", "Et1", "t2", "nosuch"], 5):
            if nm in names:
                body.append("log write %s %s" % (nm, r.choice(["$" + nm, "${%s}" % nm, "(resolve %s)" % nm])))
                exp.append([nm, names[nm]])
            else:
                body.append("log write %s (resolves? %s)" % (nm, nm))
                exp.append([nm, ""])
        for c, i in r.sample(m, min(len(m), 3)):
            v = value(r)
            body.append("%s %s" % (c, lit.q(v)))
            exp.append(["called", str(i), v])
        log += exp
        t = "\n".join(body)
        if place == "method":
            k = len(o)
            o.append("define pm%d: method () {\n%s\n}\npm%d" % (k, t, k))
        elif place == "task":
            o.append("wait (spawn {\n%s\n})" % t)
        elif place == "block":
            o.append("block {\n%s\n}" % t)
        elif place == "source":
            f = os.path.join(d, "src%d.oh" % len(o))
            with open(f, "w", encoding="utf-8", errors="surrogateescape") as g:
                g.write(t + "\n")
            o.append("source %s" % lit.q(f))
        else:
            o.append(t)
    return o, log


def texts(line):
    return [lit.text(x) if not isinstance(x, lit.Cons) and x is not lit.NIL else "" for x in lit.pylist(lit.decode(line))]


def one(ctx, k):
    r = random.Random("%s/c36/%d" % (ctx.seed, k))
    top = ctx.mkdir()
    home, d = os.path.join(top, "home"), os.path.join(top, "work")
    os.makedirs(home)
    os.makedirs(d)
    probe.install(ctx, d)
    evlog = os.path.join(top, "ev")
    open(evlog, "w").close()
    rc, n, m, log, fail, shape = startup(r, os.path.join(top, r.choice(["other.oh", "the other"])))
    how = r.choice(["home", "home", "env", "env", "envhome", "tilde", "odd", "none", "missing", "relative"])
    e = {"HOME": home, "EVLOG": evlog}
    decoy = "define log: open a $EVLOG\nlog write decoy\ndefine nosuch 1\n"
    path = os.path.join(home, ".oh-rc")
    if how == "env" or how == "envhome":
        path = e["OH_RC"] = os.path.join(top, "rc")
    elif how == "tilde":
        path, e["OH_RC"] = os.path.join(home, "my.rc"), "~/my.rc"
    elif how == "odd":
        path = e["OH_RC"] = os.path.join(top, r.choice(["my rc", "rc \u00e9;x", "a'b", "$HOME", "-rc", "a(b)", "x\"y", "#rc", "a b  c"]))
    elif how == "relative":
        path, e["OH_RC"] = os.path.join(d, "rel.rc"), r.choice(["rel.rc", "./rel.rc", "../work/rel.rc"])
    elif how == "missing":
        e["OH_RC"] = os.path.join(top, "no", "such")
    if how in ("envhome", "missing"):
        with open(os.path.join(home, ".oh-rc"), "w") as f:
            f.write(decoy)
    if how in ("none", "missing"):
        n, m, log, fail, shape = {"define": {}, "export": {}}, [], [], None, ()
    else:
        with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(rc)
    o, more = program(r, n, m, d)
    args = [value(r) for _ in range(r.choice([0, 1, 2]))]
    mode = r.choice(["script", "c"]) if k % 12 else "terminal"
    err = None
    if mode == "terminal":
        args = []
        name = ctx.oh
        if "log write program" in o[1]:
            o[1] = "log write program $0"
        # As one line can be long, one command at a time.
        text = "\n".join(o)
        why = None
        p = None
        try:
            p = ptydrv.Pty(ctx, d, env=e)
            for ln in text.split("\n"):
                p.line(ln)
            if p.close() is None:
                why = "the session did not end"
        except (ptydrv.Dead, ptydrv.Hang) as x:
            why = "the session failed: %s" % x
        finally:
            if p:
                p.kill()
        out = p.transcript() if p else ""
        if p and not why and fail and fail[1] and p.out.replace(b"\r", b"").count(b"error: " + fail[1].encode()) != 1:
            why = "the failure was not reported once"
    else:
        text = "\n".join(o) + "\n"
        if mode == "script":
            name = r.choice(["t.oh", "./t.oh", d + "/t.oh"])
            with open(os.path.join(d, "t.oh"), "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(text)
            argv = [name] + args
        else:
            name = "given name"
            argv = ["-c", text, name] + args
        p = ctx.run([a.encode("utf-8", "surrogateescape") for a in argv], cwd=d, env=ctx.env(**e), timeout=60)
        out = p.brief(4000)
        err = p.err.decode("utf-8", "replace")
        why = "crashed" if p.crashed else "never ended" if p.timeout else "ended with status %d" % p.rc if p.rc else None
        if not why and not fail and err:
            why = "something was reported: %r" % err[-300:]
        if not why and fail and (err.count("error: ") != 1 or fail[1] and not err.endswith("error: %s\n" % fail[1])):
            why = "the failure of the startup file was not reported, once: %r" % err[-300:]
    recs = probe.read(d)
    if not why:
        want = []
        probes = []
        for x in log + more:
            if x == "args":
                want.append(["args", name] + args)
            elif x == "program":
                want.append(["program", name] + args)
            elif isinstance(x, tuple):
                probes.append(x[1])
            else:
                want.append(x)
        with open(evlog, encoding="utf-8", errors="surrogateescape") as f:
            got = [texts(x) for x in f.read().split("\n")[:-1]]
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            why = "entry %d of the log is %r and not %r" % (i, got[i] if i < len(got) else None, want[i] if i < len(want) else None)
        elif len(recs) != len(probes):
            why = "%d external commands ran and not %d" % (len(recs), len(probes))
        else:
            for rec, exp in zip(recs, probes):
                env = dict(x.split("=", 1) for x in rec.env)
                for nm in NAMES + ["sourced", "Et1", "Et2"]:
                    if env.get(nm) != exp.get(nm):
                        why = "an external command has %s=%r and not %r" % (nm, env.get(nm), exp.get(nm))
    if why:
        ctx.violation(why, "startup file (%s: %s):\n%s\nenvironment %r\nmode %s %r\nprogram:\n%s\n%s" % (how, path, rc, e, mode, args, text, out))
        return
    ctx.cover((shape, how, mode), "%s %s %r" % (how, mode, shape) if k % 40 == 3 else None, nontrivial=how not in ("none", "missing"))
    ctx.count("mode %s" % mode)
    ctx.count("startup file %s" % how)
    ctx.count("entries of logs compared", len(want))
    ctx.count("startup files that fail", fail is not None)
    ctx.rmdir(top)


def check(ctx):
    probe.build(ctx)
    ctx.pmap(lambda k: one(ctx, k), range(ctx.n(800, 20000)))
