"""C18: data through pipelines, their value, and how they end."""
import os, random, hashlib
import lit, tool

RULE = ("A case is one pipeline: 2 to 6 stages of random kinds (external copying, transforming or early-stopping processes, blocks, methods and closures that read and write lines, "
        "nested pipelines, redirected stages), data of 0 bytes to several MB with random chunk sizes and delays, in one of several contexts. What the last stage received, the pipeline's value "
        "or exception, standard error and the order of events (every stage's end, the pipeline's end) are checked. Non-trivial: there are data; distinct by stages, size class and context.")
ASSUMPTIONS = ["an exception from writing to a stage that has stopped reading may or may not be raised, depending on timing",
               "when several stages raise exceptions any one of them is raised by the pipeline"]


def data(r, textual):
    k = r.random()
    if k < 0.08:
        return b""
    n = r.choice([1, 10, 100, 4096, 5000, 65535, 65536, 65537, 70000, 200000, 1000000, 5000000] if k < 0.5 or not textual else [3, 40, 200])
    if textual:
        alphabet = ["a", "b c", " ", "\t", "$x", "`", "'", '"', "\\n", "\\", "|", "\u00e9", "(", "{", "#", "\r", "\x01", "~", "*", "0123456789"]
        o, t = [], 0
        while t < min(n, 30000):
            l = "".join(r.choice(alphabet) for _ in range(r.choice([0, 1, 5, 20, 20, 200, 4000 if r.random() < 0.1 else 9])))
            o.append(l + "\n")
            t += len(l) + 1
        s = "".join(o).encode()
        if r.random() < 0.15 and not s.endswith(b"\n\n"):
            s = s[:-1]
        return s
    return r.randbytes(n)


def nl(b):
    """A built-in stage that copies lines writes a final newline."""
    return b if not b or b.endswith(b"\n") else b + b"\n"


def case(r, i, d):
    """Source lines and expectation."""
    textual = r.random() < 0.55
    b = data(r, textual)
    src = os.path.join(d, "data%d" % i)
    with open(src, "wb") as f:
        f.write(b)
    pre, stages, kinds, ends = [], [], [], []
    n = r.randint(2, 6)
    maythrow, throws, errs = False, set(), []
    both = [r.random() < 0.25 for _ in range(n)]
    cur = b
    dl = lambda: r.choice([0, 0, 0, 0, 100, 1000]) if len(b) < 70000 else 0
    chunk = lambda: r.choice([1, 100, 4096, 65536]) if len(b) < 5000 else r.choice([512, 4096, 65536, 1 << 20])

    def end(j):
        e = "end %d.%d" % (i, j)
        ends.append(e)
        z = r.choice([0, 0, 0, 5, 40])
        return z, e
    # Whether any stage stops early: then writers before it may fail.
    early_at = r.randint(1, n - 1) if r.random() < 0.25 else None
    forever = early_at is not None and r.random() < 0.3
    for j in range(n):
        z, e = end(j)
        if j == 0:
            k = "forever" if forever else r.choice(["ext", "ext", "both" if not early_at else "ext", "meth" if textual else "ext", "cat"])
            if k == "forever":
                ends.pop()
                s = "./tool forever"
            elif k == "ext":
                s = "./tool out:%s:%d:%d sleep:%d 'ev:%s'" % (src, chunk(), dl(), z, e)
                if early_at:
                    ends.pop()
                    s = "./tool out:%s:%d" % (src, chunk())
            elif k == "both":
                s = "./tool both:%s sleep:%d 'ev:%s'" % (src, z, e)
                ls = cur.split(b"\n")
                ls = [l + b"\n" for l in ls[:-1]] + ([ls[-1]] if ls[-1] else [])
                if not both[0]:
                    cur = b"".join(ls[0::2])
                    errs += ls[1::2]
            elif k == "cat":
                ends.pop()
                s = "cat < %s" % lit.q(src)
            elif k == "meth":
                if early_at:
                    ends.pop()
                    maythrow = True
                pre.append("define src%d: method () {\ndefine f: open r- %s\nwhile (define l: f read-line) {\nwrite-line $l\n}\nf close%s\n}" % (
                    i, lit.q(src), "" if early_at else "\nev '%s'" % e))
                s = "src%d" % i
                cur = nl(cur)
            kinds.append(k)
        elif early_at == j:
            k = r.choice(["take", "head1", "none", "noneb", "close"])
            if k == "take":
                m = r.choice([0, 1, 100, 5000])
                s = "./tool take:%d sleep:%d 'ev:%s'" % (m, z, e)
                cur = (b"forever\n" * 700 if forever else cur)[:m]
            elif k == "head1":
                ends.pop()
                s = "head -n 1"
                cur = b"forever\n" if forever else cur.split(b"\n")[0] + (b"\n" if b"\n" in cur else b"")
            elif k == "none":
                s = "./tool 'ev:%s'" % e
                cur = b""
            elif k == "noneb":
                s = "block {\nev '%s'\n}" % e
                cur = b""
            else:
                s = "./tool closein sleep:%d 'ev:%s'" % (z, e)
                cur = b""
            forever = False
            kinds.append("early " + k)
        else:
            fine = early_at is not None and j < early_at
            lines_ok = textual and len(cur) < 40000 and not (fine and forever)
            k = r.choice(["copy", "copy", "cat", "nested", "redir" if not (fine and forever) else "cat", "sh"] + ([] if early_at else ["errs", "errs"]) + (["lines", "meth", "closure", "lines", "for"] if lines_ok else []))
            evs = "" if fine else " 'ev:%s'" % e
            evb = "" if fine else "\nev '%s'" % e
            if fine or k in ("cat", "sh", "nested"):
                ends.pop()
            if k == "copy":
                s = "./tool copy:%d:%d closein sleep:%d%s" % (chunk(), dl(), z, evs)
            elif k == "cat":
                s = "cat"
            elif k == "sh":
                s = "sh -c 'cat; exit 3'"
            elif k == "nested":
                s = "block {\ncat | ./tool copy:%d\n}" % chunk() if r.random() < 0.5 else "block {\n./tool copy:%d\n}" % chunk()
            elif k == "errs":
                m = "error of %d.%d" % (i, j)
                s = r.choice(["./tool copy:%d 'saye:%s'%s" % (chunk(), m, evs), "block {\n./tool copy\nerror '%s'%s\n}" % (m, evb)])
                if both[j]:
                    cur += m.encode() + b"\n"
                else:
                    errs.append(m.encode() + b"\n")
            elif k == "redir":
                f = os.path.join(d, "mid%d.%d" % (i, j))
                s = "block {\n./tool copy:%d > %s\n./tool out:%s%s\n}" % (chunk(), f, f, evs)
            elif k in ("lines", "closure"):
                s = "block {\nwhile (define l: read-line) {\nwrite-line $l\n}%s\n}" % evb
                if k == "closure":
                    pre.append("define cl%d_%d: method (x) {\nreturn (method () {\nwhile (define l: read-line) {\nstdout write-line $l\n}%s\n})\n}\ndefine c%d_%d: cl%d_%d 1" % (i, j, evb, i, j, i, j))
                    s = "c%d_%d" % (i, j)
                cur = nl(cur)
            elif k == "for":
                s = "block {\ndefine ls: list 0\nwhile (define l: read-line) {\nls append $l\n}\nfor (ls tail) (method (x) {\nwrite-line $x\n})%s\n}" % evb
                cur = nl(cur)
            elif k == "meth":
                pre.append("define m%d_%d: method () {\nwhile (define l: read-line) {\nwrite-line $l\n}%s\n}" % (i, j, evb))
                s = "m%d_%d" % (i, j)
                cur = nl(cur)
            if fine and k in ("lines", "closure", "for", "meth"):
                maythrow = True
            kinds.append(k)
        # Exceptions.
        if r.random() < 0.08:
            w = r.choice(["before", "after"])
            m = "thrown %d.%d" % (i, j)
            throws.add(m)
            if w == "before" and j == 0 and not forever:
                # The stages after it receive nothing.
                s = "block {\nthrow '%s'\n%s\n}" % (m, s)
                if e in ends:
                    ends.remove(e)
                cur, errs = b"", []
            else:
                s = "block {\n%s\nthrow '%s'\n}" % (s, m)
            kinds.append("throw " + w)
        stages.append(s)
    return finish(r, i, d, pre, stages, cur, errs, kinds, ends, throws, maythrow, both, n, b)


def finish(r, i, d, pre, stages, cur, errs, kinds, ends, throws, maythrow, both, n, b):
    # The last stage records what it receives.
    sink = os.path.join(d, "sink%d" % i)
    e = "end %d.sink" % i
    k = r.choice(["sink", "sink", "exit", "value", "builtin", "throw", "kill"] if len(cur) < 30000 and textual_ok(cur) else ["sink", "exit", "kill", "value"])
    val = "0"
    if k == "sink":
        stages.append("./tool sink:%s:%d:%d 'ev:%s'" % (sink, r.choice([100, 4096, 65536]), r.choice([0, 0, 100]) if len(cur) < 70000 else 0, e))
    elif k == "exit":
        c = r.choice([1, 2, 3, 127, 255])
        val = str(c)
        stages.append("./tool sink:%s 'ev:%s' exit:%d" % (sink, e, c))
    elif k == "kill":
        c = r.choice([9, 15, 1, 6, 11])
        val = str(128 + c)
        stages.append("./tool sink:%s 'ev:%s' kill:%d" % (sink, e, c))
    elif k == "value":
        val = "the value %d" % i
        pre.append("define v%d: method () {\n./tool sink:%s 'ev:%s' exit:5\nreturn '%s'\n}" % (i, sink, e, val))
        stages.append("v%d" % i)
    elif k in ("builtin", "throw"):
        val = "built %d" % i
        x = "mend '' %s" % lit.q(val)
        if k == "throw":
            throws.add("thrown %d.last" % i)
            x = "throw 'thrown %d.last'" % i
        stages.append("block {\nblock {\nwhile (define l: read-line) {\nwrite-line $l\n}\n} >| %s\nev '%s'\n%s\n}" % (sink, e, x))
        cur = nl(cur)
    ends.append(e)
    kinds.append("last " + k)
    both += [False] * len(stages)
    s = stages[0]
    for j, x in enumerate(stages[1:]):
        s += (" |& " if both[j] else " | ") + x
    context = r.choice(["plain", "method", "bg", "capture", "redirect", "block", "loop"])
    out = []
    value = "val"
    if context == "plain":
        body = "define x%d (%s)\nev \"value %d ${x%d}\"" % (i, s, i, i)
    elif context == "method":
        out.append("define pm%d: method () {\n%s\n}" % (i, s))
        body = "define x%d (pm%d)\nev \"value %d ${x%d}\"" % (i, i, i, i)
    elif context == "bg":
        body = None
        value = None
    elif context == "capture":
        body = "define x%d: capture (block {\n%s\n})\nev \"value %d\"" % (i, s, i)
        value = ""
    elif context == "redirect":
        body = "define x%d (block {\n%s\n} >| /dev/null)\nev \"value %d ${x%d}\"" % (i, s, i, i)
    elif context == "block":
        body = "define x%d (block {\n%s\n})\nev \"value %d ${x%d}\"" % (i, s, i, i)
    else:
        body = "for (list 1) (method (y) {\ndefine x%d (%s)\nev \"value %d ${x%d}\"\n})" % (i, s, i, i)
    g = "define g%d: method () {\ncatch ex {\nev \"caught %d ${ex}\"\nreturn ()\n}\n%s\n}" % (
        i, i, body if body is not None else "%s\nev \"value %d\"" % (s, i))
    out.append(g)
    if context == "bg":
        value = ""
        out.append("define t%d: spawn {\ng%d\n}\nwait $t%d" % (i, i, i))
    else:
        out.append("g%d" % i)
    out.append("ev 'after %d'" % i)
    expect = dict(i=i, sink=sink, cur=cur, errs=errs, ends=set(ends), throws=throws, maythrow=maythrow,
                  value=("value %d %s" % (i, val)) if value == "val" else "value %d" % i, kinds=tuple(kinds), context=context, size=len(b))
    return pre + out, expect


def textual_ok(b):
    try:
        b.decode()
        return b"\0" not in b
    except UnicodeDecodeError:
        return False


PRE = """define log: open a $EV
define ev: method (s) {
log write-line $s
}
"""


def check(ctx):
    tool.build(ctx)
    seeds = [ctx.rng.getrandbits(60) for _ in range(ctx.n(260, 5000))]
    ctx.pmap(lambda s: one(ctx, s), seeds)
    ctx.pmap(lambda s: concurrent(ctx, s), [ctx.rng.getrandbits(60) for _ in range(ctx.n(48, 600))])


def one(ctx, seed):
    r = random.Random(seed)
    d = ctx.mkdir()
    tool.install(ctx, d)
    evf = os.path.join(d, "ev")
    src, exps = [PRE], []
    for i in range(r.randint(3, 7)):
        c = case(r, i, d)
        if c is None:
            continue
        src += c[0]
        exps.append(c[1])
    text = "\n".join(x for x in src if x) + "\n"
    res = ctx.script(text, cwd=d, env=ctx.env(EV=evf), timeout=90)
    evs = []
    if os.path.exists(evf):
        with open(evf, errors="surrogateescape") as f:
            evs = f.read().split("\n")[:-1]
    replay = text + "\n\nevents:\n" + "\n".join(evs) + "\n" + res.brief(3000)
    try:
        if res.timeout or res.crashed or res.rc != 0:
            ctx.violation("a pipeline does not end or oh failed: " + res.brief(300), replay)
            return
        errs = []
        at = 0
        for x in exps:
            i = x["i"]
            ctx.cover((x["kinds"], x["context"], x["size"].bit_length() // 3, bool(x["throws"])), text[:1500], nontrivial=x["size"] > 0)
            ctx.count("bytes", x["size"])
            ctx.count_max("largest", x["size"])
            for k in x["kinds"]:
                ctx.count("stage " + k)
            what = "pipeline %d (%s, in %s, %d bytes): " % (i, ", ".join(x["kinds"]), x["context"], x["size"])
            try:
                k = evs.index("after %d" % i)
            except ValueError:
                ctx.violation(what + "the program did not continue after it", replay)
                return
            got, at = evs[at:k], k + 1
            ends = {e for e in got if e.startswith("end ")}
            if ends != x["ends"] or len([e for e in got if e.startswith("end ")]) != len(ends):
                ctx.violation(what + "it ended when stages had not, or a stage ran more than once: expected %s, got %s" % (sorted(x["ends"]), got), replay)
                return
            outcome = [e for e in got if not e.startswith("end ")]
            if len(outcome) != 1 or outcome[0] != got[-1]:
                ctx.violation(what + "expected one outcome after all stages: %s" % got, replay)
                return
            o = outcome[0]
            if o.startswith("caught"):
                m = o.split(" ", 2)[2]
                ok = m in x["throws"] or x["maythrow"] and ("pipe" in m)
                ctx.count("exceptions raised")
            else:
                ok = not x["throws"] and o == x["value"]
            if not ok:
                ctx.violation(what + "expected %s, got %r" % (("an exception of " + repr(sorted(x["throws"]))) if x["throws"] else repr(x["value"]), o), replay)
                return
            try:
                with open(x["sink"], "rb") as f:
                    got = f.read()
            except OSError:
                got = b""
            if got != x["cur"]:
                p = next((j for j in range(min(len(got), len(x["cur"]))) if got[j] != x["cur"][j]), min(len(got), len(x["cur"])))
                ctx.violation(what + "the last stage received %d bytes instead of %d, differing at %d: %r instead of %r" % (
                    len(got), len(x["cur"]), p, got[p:p + 40], x["cur"][p:p + 40]), replay)
                return
            errs += x["errs"]
        if at != len(evs):
            ctx.violation("events after the last pipeline: %s" % evs[at:], replay)
        elif res.err != b"".join(errs):
            ctx.violation("standard error is %r, expected %r" % (res.err[:200], b"".join(errs)[:200]), replay)
    finally:
        ctx.rmdir(d)


def concurrent(ctx, seed):
    """Every stage waits for something the other stages do only while all of them run."""
    r = random.Random(seed)
    d = ctx.mkdir()
    tool.install(ctx, d)
    evf = os.path.join(d, "ev")
    n = r.randint(2, 6)
    st = []
    for j in range(n):
        w = [k for k in range(n) if k != j]
        r.shuffle(w)
        f = ["waitfile:%s/up%d" % (d, k) for k in w]
        k = r.choice(["ext", "ext", "block", "method"])
        ops = "touch:%s/up%d %s" % (d, j, " ".join(f))
        copy = "say:first" if j == 0 else "copy"
        if k == "ext":
            st.append("./tool %s %s" % (ops, copy))
        else:
            st.append("block {\n./tool %s closein\n%s\n}" % (ops, "write-line first" if j == 0 else "while (define l: read-line) {\nwrite-line $l\n}"))
    text = PRE + " | ".join(st) + "\nev done\n"
    res = ctx.script(text, cwd=d, env=ctx.env(EV=evf), timeout=90)
    with open(evf) as f:
        evs = f.read()
    ctx.rmdir(d)
    ctx.cover(("concurrent", tuple(s.split()[0] for s in st)), None)
    ctx.count("pipelines whose stages wait for each other")
    if res.timeout or res.crashed or res.out != b"first\n" or evs != "done\n":
        ctx.violation("the stages of a pipeline do not run concurrently, or its data are wrong: %r %s" % (evs, res.brief(300)), text + res.brief(3000))
