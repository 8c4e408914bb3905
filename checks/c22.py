"""C22: descriptors, processes, named pipes and goroutines."""
import os, random, re, signal, subprocess, time
import ohv, lit, probe, tool

RULE = ("A case is one run in which a few kinds of construct (redirections, pipelines, captures, substitutions, files opened and closed in every mode, source, import, failures and exceptions at every stage, "
        "background commands, channels, pipes) are repeated; the descriptors and children of oh, the named pipes and, at the end, the goroutines are compared with those after the first few repetitions, with the collector "
        "off so that nothing is closed by chance; or one child process whose inherited descriptors are recorded in some context. Non-trivial: always; distinct by the constructs and their variants.")
ASSUMPTIONS = ["descriptors oh itself was started with are not oh's", "files, pipes and channels the program itself keeps open are its own", "a command left by calling a continuation has not completed"]


def op(r, i, d):
    """One construct: (setup, body, kind)."""
    f = "f%d" % i
    x = lambda: r.choice(["true", "./tool exit:0", "write-line a", "./tool say:a", "cat in", "./tool kill:9", "./tool exit:3", "block {\nwrite-line a\nwrite-line b\n}"])
    bad = lambda: r.choice(["throw x", "nosuchcommand", "./in", "write-line $undefined", "head ()", "./nothere", "cat > /nonexistent/x", "cat < nothere", "add a b", "cat nothing*"])
    safe = lambda s: "g {\n%s\n}" % s
    k = r.choice(["redirect", "redirect", "redirect-fails", "redirect-target-fails", "append", "input", "both", "nested", "pipeline", "pipeline", "pipe-throws", "early", "capture", "capture-throws", "nested-capture", "substitution",
                  "substitution", "substitution-throws", "substitution-unopened", "open", "open", "open-read", "open-fails", "pipe", "chan", "background", "spawn", "spawn-fails", "spawn-nested", "missing", "source", "source-fails", "source-syntax", "import", "import-fails",
                  "glob", "cd", "exception", "deep-exception", "signal", "read", "wait-many", "redirect-pipe", "loop-redirect", "handler", "object", "closed", "stdin", "rw"])
    if k == "redirect":
        return "", "%s >| %s" % (x(), f), k
    if k == "redirect-fails":
        return "", safe(r.choice(["block {\n%s\n} >| %s", "block {\nblock {\n%s\n} >| %s\n}"]) % (bad(), f)), k
    if k == "redirect-target-fails":
        return "", safe(r.choice(["%s > in", "%s >| /nonexistent/x", "%s < nothere", "%s >> .", "%s >&| /nonexistent/x", "%s > $undefined", "%s > (throw x)"]) % x()), k
    if k == "append":
        return "", "%s >> %s" % (x(), f), k
    if k == "input":
        return "", "cat < in >| %s" % f, k
    if k == "both":
        return "", "./tool say:a saye:b %s %s" % (r.choice([">&|", ">>&"]), f), k
    if k == "nested":
        return "", "block {\nblock {\n%s\n} >> %s\n%s >| %sb\n} >| %sc" % (x(), f, x(), f, f), k
    if k == "loop-redirect":
        return "", "block {\nfor (seq 3) (method (x) {\nwrite-line $x >> %s\n})\n} >| %sb" % (f, f), k
    if k == "pipeline":
        return "", " | ".join([x()] + ["cat"] * r.randint(1, 4)) + " >| %s" % f, k
    if k == "pipe-throws":
        s = r.choice(["block {\n%s\n} | cat", "cat in | block {\n%s\n}", "cat in | block {\ncat\n%s\n} | cat", "block {\n%s\n} | block {\nthrow y\n}"])
        return "", safe("block {\n%s\n} >| %s" % (s % bad(), f)), k
    if k == "early":
        return "", "cat big | %s >| %s" % (r.choice(["head -n 1", "true", "./tool take:5", "block {\nread-line\n}"]), f), k
    if k == "capture":
        return "", "define v%d: capture (%s)" % (i, x()), k
    if k == "capture-throws":
        return "", safe("define v%d: capture (block {\nwrite-line a\n%s\n})" % (i, bad())), k
    if k == "nested-capture":
        return "", "./tool `(write-line arg `(write-line x)) >| %s" % f if False else "define v%d: capture (write-line `(cat in))" % i, k
    if k == "substitution":
        return "", r.choice(["cat |<(%s) >| %s" % (x(), f), "cat |<(cat in) |<(write-line a) >| %s" % f, "cat in | tee |>(cat >| %sb) >| %s" % (f, f), "cat |<(cat |<(cat in)) >| %s" % f]), k
    if k == "substitution-throws":
        return "", safe("block {\n%s\n} >| %s" % (r.choice(["cat |<(block {\nwrite-line a\n%s\n})", "cat in | tee |>(block {\ncat\n%s\n})", "m0 |<(cat in) |>(cat)"]).replace("%s", bad()), f)), k
    if k == "substitution-unopened":
        return "", safe(r.choice(["true |<(cat in)", "nosuch |<(cat in) |>(cat)", "./tool arg |<(true)"])), k
    if k == "open":
        m = r.choice(["w", "a", "rw", "w-", "a-", "", "-", "ra"])
        c = r.choice(["close", "writer-close", "close\no%d close" % i])
        return "", "touch %s\ndefine o%d: open '%s' %s\no%d write-line x\no%d %s" % (f, i, m, f, i, i, c), k
    if k == "rw":
        return "", "touch %s\ndefine o%d: open '%s' %s\no%d %s" % (f, i, r.choice(["rw", "rw-", ""]), f, i, r.choice(["close", "reader-close", "writer-close", "reader-close\no%d writer-close" % i])), k
    if k == "open-read":
        return "", "define o%d: open r- in\nwrite-line (o%d %s) >| %s\no%d %s" % (i, i, r.choice(["read-line", "read", "read-list"]), f, i, r.choice(["close", "reader-close"])), k
    if k == "open-fails":
        return "", safe("open %s" % r.choice(["r- nothere", "w /nonexistent/x", "r- 'in/x'", "w ."])), k
    if k == "pipe":
        s = r.choice(["p write a\np write-line 'b c'\np read\np read-line\np close", "p write x\np writer-close\np read\np read-list\np reader-close", "p close", "spawn {\np write-line x\np writer-close\n}\np read-line\np reader-close\nwait",
                      "p write-line ')'\ng {\np read\n}\np close", "p write-line '(a'\np writer-close\ng {\np read\n}\np close", "write-line x >> $p\np read-line\np close", "./tool say:x >> $p\np close"])
        return "", s.replace("p ", "p%d " % i).replace("$p", "$p%d" % i).join(["define p%d: pipe\n" % i, ""]), k
    if k == "chan":
        return "", "define c%d: chan %d\nspawn {\nc%d write a\nc%d write b\nc%d close\n}\nc%d read\nc%d read\nc%d read\nwait" % ((i, r.choice([0, 1, 5])) + (i,) * 6), k
    if k == "background":
        return "", "%s %s&\nwait" % (x(), ">> %s " % f if r.random() < 0.99 else ""), k
    if k == "spawn":
        return "", "define t%d: spawn {\n%s >> %s\n}\nwait $t%d" % (i, x(), f, i), k
    if k == "spawn-fails":
        return "", "block {\ndefine t%d: spawn {\n%s\n}\nwait $t%d\n} >>& log" % (i, bad(), i), k
    if k == "spawn-nested":
        return "", "wait (spawn {\nwait (spawn {\n%s >> %s\n}) (spawn {\ntrue\n})\n})" % (x(), f), k
    if k == "wait-many":
        return "", "for (seq 5) (method (x) {\nspawn {\n%s >> %s\n}\n})\nwait" % (x(), f), k
    if k == "missing":
        return "", safe(bad()), k
    if k == "source":
        open(os.path.join(d, "s%d.oh" % i), "w").write(r.choice(["define q 1\nlist a b\n", "true\n# Nothing", "", "%s >| sf%d\n" % (x(), i)]))
        return "", "source s%d.oh" % i, k
    if k == "source-fails":
        open(os.path.join(d, "s%d.oh" % i), "w").write("define q 1\n%s\nwrite-line z\n" % bad())
        return "", safe("source s%d.oh" % i), k
    if k == "source-syntax":
        open(os.path.join(d, "s%d.oh" % i), "w").write(r.choice(["define q 1\n)\n", "write-line (a\n", "block {\n", "'abc\n", "a ; ; )\n", "|\n"]))
        return "", safe("source s%d.oh" % i), k
    if k == "import":
        open(os.path.join(d, "i%d.oh" % i), "w").write(r.choice(["export q 1\n", "module mod%d\nexport q: method () {\nreturn 1\n}\n" % i, "export v: capture (cat in)\n"]))
        return "", "define m%d: import i%d.oh" % (i, i), k
    if k == "import-fails":
        open(os.path.join(d, "i%d.oh" % i), "w").write(r.choice(["export q 1\n%s\n" % bad(), "throw x\n", "export q (\n", ")\n"]))
        return "", safe("import i%d.oh" % i), k
    if k == "glob":
        return "", "./tool arg i* arg *g\nglob *", k
    if k == "cd":
        return "", "block {\ncd /tmp\ncat < in >| %s\n}" % f if False else "block {\ncd /\n/bin/true\ncd -\n}\ncd /nonexistent", k
    if k == "exception":
        return "", safe("m1"), k
    if k == "deep-exception":
        return "", safe("block {\nfor (list 1 2) (method (x) {\nwhile true {\nm1\n}\n})\n} >| %s" % f), k
    if k == "signal":
        return "", "./tool kill:%d\n./tool nap:1 exit:2" % r.choice([1, 2, 9, 15, 13]), k
    if k == "read":
        return "", "block {\nread-line\nread\nread-list\n} < in", k
    if k == "redirect-pipe":
        return "", "define p%d: pipe\n./tool say:a saye:b >>& $p%d\np%d close" % (i, i, i), k
    if k == "handler":
        return "define h%d: method () {\ncatch ex {\ncat in >| %s\nreturn ()\n}\n%s\n}" % (i, f, bad()), "h%d" % i, k
    if k == "object":
        return "", "define o%d: object {\nexport m: method () {\ncat in >| %s\n}\n}\no%d m" % (i, f, i), k
    if k == "closed":
        return "", "define o%d: open r- in\no%d close\ng {\no%d read-line\n}\ng {\ncat < $o%d\n}\no%d close" % ((i,) * 5), k
    return "", "cat < in | cat | block {\nwhile (define l: read-line) {\ntrue\n}\n}", k


PRE = """define g: syntax ((body)) e {
catch ex {
return ()
}
e eval (cons block $body)
}
define m0: method ((a)) {
throw x
}
define m1: method () {
throw y
}
"""


def goroutines(err):
    """Goroutines in a dump, as (state, where created)."""
    res = []
    for g in re.split(rb"\n\n", err):
        m = re.match(rb"goroutine (\d+) (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\]]*)\]", g.lstrip())
        if not m or m.group(1) == b"0":
            continue
        c = re.search(rb"created by ([^\s(]+)", g)
        w = c.group(1).decode() if c else "main"
        if w.startswith("runtime.") or (w == "main" and m.group(1) != b"1"):
            continue
        fs = re.findall(rb"^([\w./*()-]+)\(", g, re.M)
        res.append((m.group(2).decode().split(",")[0], w, [x.decode() for x in fs if b"oh/internal" in x][:3]))
    return res


def dump(ctx, d, text, tmp):
    """Run the program; when it is done, the goroutines that are left."""
    path = os.path.join(d, "t.oh")
    with open(path, "w", errors="surrogateescape") as f:
        f.write(text + "\n./tool touch:ready\nread-line\nread-line\n")
    ready = os.path.join(d, "ready")
    if os.path.exists(ready):
        os.unlink(ready)
    fo, fe = open(os.path.join(d, "stdout"), "w+b"), open(os.path.join(d, "stderr"), "w+b")
    p = subprocess.Popen([ctx.oh, path], cwd=d, env=ctx.env(GOGC="off", TMPDIR=tmp, GOTRACEBACK="all"), stdin=subprocess.PIPE, stdout=fo, stderr=fe, start_new_session=True)
    t0 = time.time()
    state = "ok"
    while not os.path.exists(ready):
        if p.poll() is not None:
            state = "ended"
            break
        if time.time() - t0 > 90:
            state = "hung"
            break
        time.sleep(0.003)
    time.sleep(0.02)
    try:
        os.kill(p.pid, signal.SIGQUIT)
        p.wait(timeout=10)
    except (OSError, subprocess.TimeoutExpired):
        pass
    ohv.killsession(p.pid)
    p.wait()
    res = []
    for f in (fo, fe):
        f.seek(0)
        res.append(f.read())
        f.close()
    p.stdin.close()
    return state, res[0], res[1]


LEXICAL = ("define lx: method () {\ncatch ex {\nreturn ()\n}\ndefine h: method () {\nthrow x\n}\nblock {\nh\n} >| flex\n}", "lx", "lexical-handler")


def leaks(ctx, seed):
    r = random.Random(str(seed))
    d = ctx.mkdir()
    tmp = os.path.join(d, "tmp")
    os.mkdir(tmp)
    tool.install(ctx, d)
    with open(os.path.join(d, "in"), "w") as f:
        f.write("one two\n(three four)\nfive\n")
    with open(os.path.join(d, "big"), "w") as f:
        f.write("x" * 99 + "\n" * 1)
        f.write(("y" * 99 + "\n") * 3000)
    ops = [op(r, i, d) for i in range(r.choice([1, 1, 2, 3]))] if seed != "lexical" else [LEXICAL]
    n = r.choice([12, 20])
    kinds = tuple(o[2] for o in ops)
    body = "\n".join(o[1] for o in ops)
    # The same in the program's own task, in a method, or in another task.
    where = r.choice(["own", "own", "method", "task"])
    if where == "method":
        run = "define work: method () {\n%s\n}" % body
        call = "work"
    elif where == "task":
        run = "define work: method () {\nwait (spawn {\n%s\n})\n}" % body
        call = "work"
    else:
        run, call = "", "block {\n%s\n}" % body
    loop = "define n 0\nwhile (lt? $n %d) {\nset n: add $n 1\n%s\n}\n./tool settle:fds"
    text = PRE + "\n".join(o[0] for o in ops if o[0]) + "\n" + run + "\n"
    text += loop % (2, call) + "\n" + (loop % (n, call)).replace("define n", "set n")
    state, out, err = dump(ctx, d, text, tmp)
    replay = text + "\nstdout: %r\nstderr: %s" % (out[:2000], err[:60000].decode("utf-8", "replace"))
    try:
        with open(os.path.join(d, "fds")) as f:
            fds = [l.split(" ", 2) for l in f.read().split("\n")[:-1]]
    except OSError:
        fds = []
    left = os.listdir(tmp)
    ctx.rmdir(d)
    ctx.cover((kinds, where, body), body)
    for k in kinds:
        ctx.count("repetitions of " + k, n + 2)
    if state != "ok":
        ctx.violation("the program with %s %s: %r" % (kinds, state, (out + err)[:500]), replay)
        return
    if len(fds) != 2:
        ctx.violation("the program with %s recorded %r" % (kinds, fds), replay)
        return
    a, b = fds
    if int(b[0]) > int(a[0]):
        ctx.violation("%s: %s descriptors at first, %s after %d repetitions: %s" % (kinds, a[0], b[0], n, b[2][:1500]), replay,
                      signature="redirection-left-by-lexical-handler" if kinds == ("lexical-handler",) else None)
        return
    if int(a[0]) > ctx.basefds:
        ctx.violation("%s: %s descriptors are open after two repetitions, %d in a program that does nothing: %s" % (kinds, a[0], ctx.basefds, a[2][:1500]), replay)
        return
    if int(a[1]) or int(b[1]):
        ctx.violation("%s: children left behind: %s" % (kinds, (a[2] + b[2])[-1500:]), replay)
        return
    if left:
        ctx.violation("%s: named pipes left behind: %r" % (kinds, left[:5]), replay)
        return
    g = goroutines(err)
    ctx.count_max("goroutines at the end", len(g))
    if len(g) > ctx.basegs + 1:
        ctx.violation("%s: %d goroutines after %d repetitions, %d in a program that does nothing: %r" % (kinds, len(g), n + 2, ctx.basegs, g[:20]), replay)


def inherit(ctx, seed):
    """A child has descriptors 0, 1 and 2 only."""
    r = random.Random(seed)
    d = ctx.mkdir()
    probe.install(ctx, d)
    tool.install(ctx, d)
    tmp = os.path.join(d, "tmp")
    os.mkdir(tmp)
    with open(os.path.join(d, "in"), "w") as f:
        f.write("one\ntwo\n")
    src = ["define o1: open r- in\ndefine o2: open w held\ndefine p1: pipe\ndefine o3: open rw held"]
    want = 0
    for i in range(r.randint(3, 9)):
        p = "./probe %d" % i
        k = r.choice(["plain", "redirect", "append", "input", "pipe-left", "pipe-right", "pipe-mid", "capture", "sub-in", "sub-out", "sub-main", "background", "spawn", "in-pipe", "nested", "to-held", "from-held", "both", "handler", "concurrent", "source", "import"])
        n = 1
        s = {"plain": p, "redirect": p + " >| a%d" % i, "append": p + " >> a%d" % i, "input": p + " < in", "pipe-left": p + " | cat", "pipe-right": "cat in | " + p, "pipe-mid": "cat in | %s | cat" % p, "capture": "define c%d: capture (%s)" % (i, p),
             "sub-in": "cat |<(%s)" % p, "sub-out": "cat in | tee |>(%s) >| a%d" % (p, i), "sub-main": p + " |<(true) |>(cat)", "background": p + " &\nwait", "spawn": "wait (spawn {\n%s\n})" % p,
             "in-pipe": "block {\n%s\n} | block {\ncat\n%s\n}" % (p, p), "nested": "block {\nblock {\n%s\n} >| a%d\n%s\n} >| b%d" % (p, i, p, i), "to-held": p + " >> $o2", "from-held": p + " < $o1", "both": p + " >&| a%d" % i,
             "handler": "define h%d: method () {\ncatch ex {\n%s\nreturn ()\n}\nblock {\nthrow x\n} >| a%d\n}\nh%d" % (i, p, i, i),
             "concurrent": "for (seq 6) (method (x) {\nspawn {\ncat in | %s | cat >> a%d\n}\n})\nwait" % (p, i), "source": "source s%d.oh" % i, "import": "import s%d.oh" % i}[k]
        if k in ("source", "import"):
            open(os.path.join(d, "s%d.oh" % i), "w").write(p + " < in >| a%d\n" % i)
        want += {"in-pipe": 2, "nested": 2, "concurrent": 6}.get(k, 1)
        src.append(s)
        ctx.cover(("inherit", k), s)
        ctx.count("inherited by " + k)
    text = "\n".join(src) + "\n"
    res = ctx.script(text, cwd=d, env=ctx.env(TMPDIR=tmp), timeout=60)
    recs = probe.read(d)
    ctx.rmdir(d)
    replay = text + "\n" + res.brief(3000)
    if res.timeout or res.crashed or res.rc != 0 or len(recs) != want:
        ctx.violation("oh did not run the program (%d of %d children): %s" % (len(recs), want, res.brief(300)), replay)
        return
    for c in recs:
        if set(c.fds) != {0, 1, 2}:
            ctx.violation("child %r has the descriptors %r" % (c.argv, c.fds), replay)
            return


def check(ctx):
    tool.build(ctx)
    probe.build(ctx)
    d = ctx.mkdir()
    os.mkdir(os.path.join(d, "tmp"))
    tool.install(ctx, d)
    state, out, err = dump(ctx, d, "./tool exit:0\n./tool settle:fds\n", os.path.join(d, "tmp"))
    ctx.basegs = len(goroutines(err))
    ctx.basefds = int(open(os.path.join(d, "fds")).read().split()[0])
    ctx.count_max("goroutines in a program that does nothing", ctx.basegs)
    ctx.count_max("descriptors in a program that does nothing", ctx.basefds)
    ctx.rmdir(d)
    jobs = [(leaks, ctx.rng.getrandbits(60)) for _ in range(ctx.n(260, 8000))]
    jobs += [(leaks, "lexical")]
    jobs += [(inherit, ctx.rng.getrandbits(60)) for _ in range(ctx.n(60, 1500))]
    ctx.rng.shuffle(jobs)
    ctx.pmap(lambda j: j[0](ctx, j[1]), jobs)
