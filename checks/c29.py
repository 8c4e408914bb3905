"""C29: no data races, faults or lost tasks, whatever runs at the same time."""
import os, random, re, time
import c31, jobctl, ptydrv, races, tool

RULE = ("A case is one program, or one session on a pseudo-terminal, run on a build of the shell with Go's race detector, which observes every access to memory and the synchronisation between them. Programs start two to eight tasks, by spawn, & and the parts of pipelines, "
        "that each make a random sequence of operations of all kinds (variables, scopes, maps, objects, closures, channels, pipes, shared files and readers, redirections, captures, substitutions, exceptions, imports, evaluation, numbers, symbols, patterns, external commands, waiting), "
        "mostly on the same things. Sessions interrupt, stop, list and resume such commands and complete names while they are typed. Every race reported, exception that names a fault of the implementation, task that does not end and counter that is not what its only writer made it is a violation. "
        "Distinct by the pairs of operations that overlapped.")
ASSUMPTIONS = ["a race is seen only if both accesses occur in one run", "tasks do not change the same list in place", "a channel closed while it is written to is reported by the detector although the channel's own lock orders the two, and is left out"]

INTERNAL = re.compile(r"runtime error|nil pointer|interface conversion|index out of range|slice bounds|invalid memory|fatal error|goroutine \d+ \[|concurrent map|unhashable|negative WaitGroup|all goroutines are asleep|close of closed|close of nil")

PRELUDE = """
define L: open a events
define X: open a faults
define env: syntax () e {
return $e
}
define s0 0
define s1 1/3
define s2 "text"
define l0 (list a b c 1 2 3)
export x0 exported
define E: env
define m: map
m set k0 v0
define o: object {
define hidden 0
export get: method () {
return $hidden
}
export put: method (v) {
set hidden $v
}
export bump: method () {
set hidden: add $hidden 1
}
}
define make: method (n) {
method () {
set n: add $n 1
return $n
}
}
define closure: make 0
define c: chan
define A: open a shared
define R: open r numbers
define nothing: method ((args)) {
return ()
}
"""

# Operations: (name, lines). {t} is the task, {i} the operation, {r} a small number. Any may fail; what matters is how.
OPS = [
    ("set", ["set s0: add $s0 {r}"]), ("set", ["set s2 text{r}"]), ("get", ["nothing $s0 $s1 $s2 $x0"]), ("define", ["E define n{r} {i}"]), ("export", ["E export x{r} {t}"]),
    ("unset", ["E unset n{r}"]), ("scope-get", ["E get n{r}"]), ("scope-has", ["E set? n{r}"]), ("scope-eval", ["E eval (quote (set s0 {i}))"]), ("scope-eval", ["E eval (quote (add 1 $s0))"]),
    ("resolves", ["resolves? n{r}", "nothing (resolve s2)"]),
    ("map-set", ["m set k{r} {t}"]), ("map-get", ["m get k{r}"]), ("map-del", ["m del k{r}"]), ("map-has", ["m has k{r}"]), ("map-own", ["define q: map", "q set a 1", "q get a"]),
    ("object-get", ["o get"]), ("object-put", ["o put {i}"]), ("object-bump", ["o bump"]), ("object-set", ["o export new{r} {t}"]), ("object-missing", ["o nosuch"]),
    ("object-own", ["define q: object {{", "export f: method self (x) {{", "return $x", "}}", "}}", "q f {r}"]),
    ("closure", ["closure"]), ("closure-own", ["define q: make {r}", "q", "q"]),
    ("list-read", ["nothing (l0 length) (l0 head) (l0 tail)", "nothing (l0 get {r}) (l0 slice 1 3)"]), ("list-walk", ["for $l0 (method (x) {{", "set s2 $x", "}})"]), ("list-cons", ["set l0: cons {i} $l0"]), ("list-equal", ["equal? $l0 (list a b c)"]),
    ("number", ["nothing (add $s1 1/7) (mul $s1 $s0) (sub $s0 $s1) (lt? $s0 $s1)"]), ("number", ["set s1: add $s1 1/{i}1"]), ("number-parse", ["number '{i}/7'", "number 1.{r}"]), ("number-print", ["mend ' ' $s0 $s1"]),
    ("symbol", ["symbol new-{t}-{i}", "symbol same-{r}"]), ("string", ["nothing (str length $s2)", "mend '' 'a' $s2 \"${{s2}}b\"", "equal? $s2 text"]), ("sprintf", ["nothing (sprintf '%v %v' $s0 $s2) (str format '%v-%v' $s0 $s2)"]),
    ("match", ["match 'a*[b-c]' abc", "match '?' $s2"]), ("random", ["random"]), ("glob", ["nothing *", "nothing num*", "nothing ./f?*"]), ("exists", ["exists numbers", "exists nosuch{r}"]),
    ("eval", ["eval (quote (nothing $s0))", "eval (quote (add 1 {i}))"]), ("print-object", ["nothing (mend '' (capture (write $l0 $o)))"]), ("print-list", ["write-line $l0 $s1 > /dev/null"]),
    ("chan-own", ["define q: chan", "spawn {{", "q write {i}", "q close", "}}", "nothing (q read)", "q read"]), ("chan-shared", ["spawn {{", "c write {t} {i}", "}}", "nothing (c read-list)"]), ("chan-line", ["spawn {{", "c write-line {t} {i}", "}}", "nothing (c read-line)"]),
    ("chan-close", ["define q: chan", "spawn {{", "q write x", "}}", "spawn {{", "q close", "}}", "q read", "q read"]),
    ("pipe-own", ["define q: pipe", "spawn {{", "q write-line {i}", "q writer-close", "}}", "nothing (q read-line)", "q read-line", "q close"]), ("pipe-both", ["define q: pipe", "spawn {{", "q write (list 1 2)", "q writer-close", "}}", "spawn {{", "q read", "}}", "wait", "q reader-close"]),
    ("append", ["A write-line {t} {i}"]), ("append-redirect", ["write-line {t} {i} >> shared"]), ("redirect", ["write-line {t} >| f{t}", "nothing (capture (cat f{t}))"]), ("redirect-in", ["read-line < numbers", "read < numbers"]), ("redirect-all", ["sh -c 'echo out; echo err >&2' >&| f{t}"]),
    ("read-shared", ["R read-line"]), ("read-shared", ["R read"]), ("open-close", ["define q: open w f{t}", "q write-line {i}", "q close"]), ("close-twice", ["define q: open w f{t}", "spawn {{", "q close", "}}", "q close", "wait"]),
    ("pipeline", ["write-line {i} | read-line"]), ("pipeline", ["write-line a b | cat | read-line"]), ("pipeline", ["sh -c 'echo x; exit 1' | nothing (read-line)"]), ("pipeline-err", ["sh -c 'echo e >&2' |& cat > /dev/null"]),
    ("pipeline-throw", ["throw left | read-line"]), ("pipeline-throw", ["write-line x | throw right"]), ("pipeline-set", ["set s0 {i} | set s2 {t}"]),
    ("capture", ["nothing (capture (write-line $s0 $s2))"]), ("capture", ["define q: capture (echo {i})", "mend '' (splice $q)"]), ("substitution", ["cat |<(write-line {i}) > /dev/null"]), ("substitution", ["sh -c 'cat > \"$0\"' |>(read-line) < numbers"]),
    ("throw", ["throw e{i}"]), ("throw-nested", ["catch ex {{", "set s2 $ex", "throw again", "}}", "throw first"]), ("catch", ["define q: method () {{", "catch ex {{", "return $ex", "}}", "nosuchcommand{r} x", "}}", "q"]), ("undefined", ["nothing $nosuch{r}"]), ("bad-args", ["add x y"]), ("bad-args", ["m get"]),
    ("import", ["define q: import ./mod.oh", "q f {i}"]), ("import", ["define q: import ./mod2.oh", "nothing (q v)"]), ("source", ["source ./src.oh"]), ("import-missing", ["import ./nosuch.oh"]), ("import-bad", ["import ./bad.oh"]),
    ("external", ["/bin/true"]), ("external", ["./tool arg x"]), ("external-path", ["sh -c 'exit {r}'"]), ("external-env", ["sh -c 'echo \"$x0\"' > /dev/null"]), ("external-missing", ["no-such-command-{r}"]), ("external-fail", ["./mod.oh"]),
    ("cd", ["block {{", "cd .", "}}"]), ("umask", ["umask"]), ("wait-own", ["define q: spawn {{", "set s0 {i}", "}}", "wait $q $q"]), ("wait-shared", ["set w: spawn {{", "set s0 {i}", "}}", "wait $w"]), ("wait-all", ["spawn {{", "closure", "}}", "spawn {{", "throw lost", "}}", "wait"]),
    ("background", ["o bump &", "wait"]), ("nested", ["spawn {{", "spawn {{", "o bump", "}}", "m set k{r} n", "wait", "}}", "wait"]), ("fifo", ["define q: temp-fifo", "spawn {{", "sh -c 'echo x > \"$0\"' $q", "}}", "cat $q > /dev/null", "wait", "rm $q"]),
    ("method", ["define q: method (n) {{", "if (lt? $n 1) {{", "return $s0", "}}", "return (q (sub $n 1))", "}}", "q 10"]), ("syntax", ["define q: syntax (a) e {{", "e eval $a", "}}", "q (add $s0 1)"]), ("while", ["define j 0", "while (lt? $j 5) {{", "set j: add $j 1", "set s0 $j", "}}"]), ("mill", ["for (seq 4) (method (x) {{", "m set k{r} $x", "}})"]),
    ("quasi", ["nothing (quasiquote (a (unquote $s0) $s2))"]), ("splice", ["nothing (splice $l0)"]), ("here", ["nothing \"$s2 ${{s0}} ~ \\\"\""]), ("bool", ["bool $s0", "null? $l0", "object? $o", "not (null? $l0)"]), ("and-or", ["false || /bin/true", "/bin/true && set s0 {i}"]),
    ("return", ["return $s0"]),
]


# A stopped or interrupted task may be left with what another task of a session waits for.
ALONE = [o for o in OPS if o[0] not in ("chan-shared", "chan-line", "read-shared")]


def task(r, t, n, counts, ops=OPS):
    o = []
    for i in range(n):
        name, lines = r.choice(ops)
        counts.append(name)
        f = dict(t=t, i=i + 1, r=r.randint(0, 4))
        o += ["define op: method () {", "catch ex {", "X write-line '%s' (mend '' $ex)" % name, "return ()", "}"] + [l.format(**f) for l in lines] + ["}", "op", "set mine%d: add $mine%d 1" % (t, t)]
        if r.random() < 0.1:
            o.append("sleep 0.00%d" % r.randint(1, 3))
    return o + ["L write-line e %d $mine%d" % (t, t)]


def program(r, counts):
    n = r.choice([2, 3, 4, 6, 8])
    per = r.choice([5, 10, 20])
    how = []
    body = ["define w ()", "define ts ()"] + ["define mine%d 0" % t for t in range(n)]
    start = r.random() < 0.7
    if start:
        body.append("define go: chan")
    for t in range(n):
        b = (["go read"] if start else []) + task(r, t, per, counts)
        k = r.choice(["spawn", "spawn", "spawn", "&", "pipeline", "redirect"])
        how.append(k)
        if k == "spawn":
            body += ["set ts: cons (spawn {"] + b + ["}) $ts"]
        elif k == "&":
            body += ["block {"] + b + ["} &"]
        elif k == "pipeline":
            body += ["spawn {", "block {"] + b + ["} | cat >> shared", "}"]
        else:
            body += ["spawn {", "block {"] + b + ["} > out%d" % t, "}"]
    if start:
        body += ["go write x"] * n
    body += ["wait (splice $ts)", "wait"]
    if r.random() < 0.4:
        body = ["block {"] + body + ["}"]
    return PRELUDE + "\n".join(body + ["L write-line done"]) + "\n", n, per


def files(d):
    with open(os.path.join(d, "numbers"), "w") as f:
        f.write("".join("%d (a %d) 'x %d'\n" % (i, i, i) for i in range(200)))
    with open(os.path.join(d, "mod.oh"), "w") as f:
        f.write("define count 0\nexport f: method (x) {\nset count: add $count 1\nreturn $x\n}\n")
    with open(os.path.join(d, "mod2.oh"), "w") as f:
        f.write("define sub: import ./mod.oh\nexport v: method () {\nsub f 1\n}\n")
    with open(os.path.join(d, "src.oh"), "w") as f:
        f.write("define sourced 1\nset s0 2\n")
    with open(os.path.join(d, "bad.oh"), "w") as f:
        f.write("define bad 1\nthrow bad\n")


def read(p):
    try:
        with open(p, errors="backslashreplace") as f:
            return f.read()
    except OSError:
        return ""


def judge_races(ctx, d):
    for b in races.reports(d):
        if not races.close_and_send(b):
            return b
    return None


def script(ctx, k):
    r = random.Random("%s/c29/%d" % (ctx.seed, k))
    counts = []
    text, n, per = program(r, counts)
    d = ctx.mkdir("rc")
    files(d)
    tool.install(ctx, d)
    env = ctx.env(GORACE="halt_on_error=0 exitcode=0 log_path=%s/race" % d, GOMAXPROCS=str(r.choice([2, 4, 8])))
    res = ctx.script(text, cwd=d, env=env, race=True, timeout=150)
    log = read(os.path.join(d, "events"))
    faults = read(os.path.join(d, "faults"))
    err = res.err.decode("utf-8", "replace")
    race = judge_races(ctx, d)
    what = None
    ended = {}
    for l in log.split("\n"):
        f = l.split(" ")
        if f[0] == "e":
            ended[int(f[1])] = f[2]
    m = INTERNAL.search(faults) or INTERNAL.search(err)
    if race:
        what = "data race"
    elif res.crashed:
        what = "the shell crashed: " + res.crashed
    elif m:
        what = "a fault of the implementation: " + m.group(0)
    elif res.timeout:
        what = "the program never ended"
    elif len(ended) != n:
        what = "%d of %d tasks ended" % (len(ended), n)
    elif any(v != str(per) for v in ended.values()):
        what = "the counters of the tasks, which each counts to %d, are %s" % (per, ended)
    elif not log.endswith("done\n"):
        what = "the program did not end"
    if what:
        ctx.violation(what, "%s\n%s\nfaults:\n%s\nlog:\n%s\n%s" % (race or "", text, faults[-3000:], log, res.brief(3000)))
        return
    ctx.count("tasks", n)
    ctx.count("operations", n * per)
    for x in counts:
        ctx.count("op " + x)
    order = " ".join(l for l in log.split("\n") if l[:1] == "e")
    ctx.cover((tuple(sorted(counts)), order))
    ctx.count("operations that failed", faults.count("\n"))
    ctx.rmdir(d)


def finish(ctx, d, p, seed, what):
    """Judge what is left when a session has ended."""
    race = judge_races(ctx, d)
    m = INTERNAL.search(p.out.decode("utf-8", "replace")) if p else None
    if race:
        what = "data race in a session"
    elif m and not what:
        what = "a fault of the implementation in a session: " + m.group(0)
    if what:
        ctx.violation(what, "seed %s\n%s\n%s" % (seed, race or "", p.transcript() if p else ""))
    return bool(what)


class Quiet:
    """The context of a check whose violations are judged elsewhere."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.violations = []

    def __getattr__(self, k):
        return getattr(self.ctx, k)

    def violation(self, *a, **k):
        self.ctx.count("results judged by another check")

    def cover(self, *a, **k):
        pass


def session(ctx, k):
    """A session of commands, interrupted, stopped and resumed, or of completions."""
    seed = "%s/c29s/%d" % (ctx.seed, k)
    r = random.Random(seed)
    kind = ["jobs", "completion", "storm", "storm"][k % 4]
    top = ctx.mkdir("ss")
    d = os.path.join(top, "d")
    os.mkdir(d)
    env = {"GORACE": "halt_on_error=0 exitcode=0 log_path=%s/race" % top, "GOMAXPROCS": str(r.choice([2, 4, 8]))}
    s = p = what = None
    try:
        if kind == "jobs":
            s = jobctl.Session(Quiet(ctx), r, d, race=True, env=env)
            p = s.p
            s.run(r.randint(3, 7))
        elif kind == "completion":
            s = c31.Session(Quiet(ctx), r, d, race=True, env=env)
            p = s.p
            s.run(15)
        else:
            files(d)
            tool.install(ctx, d)
            p = ptydrv.Pty(ctx, d, env=env, race=True, timeout=100)
            storm(ctx, r, d, p)
        ctx.count("sessions of " + kind)
        ctx.cover((kind, seed))
    except jobctl.Wrong:
        # What the jobs did is judged by C30, on a build that is not as slow.
        ctx.count("sessions not completed")
    except ptydrv.Hang as e:
        if kind == "storm":
            what = "the shell hung: %s" % e
        else:
            ctx.count("sessions not completed")
    except ptydrv.Dead as e:
        what = "the shell ended: %s" % e
    finally:
        p = p or (s.p if s else None)
        if p:
            p.kill()
    if not finish(ctx, top, p, seed, what):
        ctx.rmdir(top)


def again(p):
    """Wait for a prompt. A key that arrived while one was made may have left another text there."""
    try:
        p.prompt(8)
    except ptydrv.Hang:
        p.send("\r")
        p.prompt()
    p.settle(0.05)
    for m in re.finditer(rb"<<(\d+):? *>>", p.out[p.pos:]):
        p.n = max(p.n, int(m.group(1)))
    p.pos = len(p.out)


def storm(ctx, r, d, p):
    """Commands that do many things at once, and keys at any moment."""
    for l in PRELUDE.strip().split("\n"):
        p.line(l)
    for n in range(r.randint(3, 6)):
        counts = []
        text = ["block {", "define ts ()"]
        for t in range(r.choice([1, 2, 3])):
            text += ["define mine%d 0" % t, "set ts: cons (spawn {"] + task(r, t, r.choice([2, 4, 8]), counts, ALONE) + ["}) $ts"]
        # At the prompt, wait on its own would wait for the tasks of stopped jobs.
        w = ["wait (splice $ts)"]
        text += r.choice([w, ["write-line waiting"] + w, ["./tool waitfile:gate%d" % n] + w, ["while (not (exists gate%d)) {" % n, "set s0 1", "}"], []]) + ["}"]
        for l in text[:-1]:
            p.line(l)
        p.send("}\r")
        p.expect(rb"}[^\n]*\n")
        time.sleep(r.choice([0, 0.01, 0.05, 0.2]))
        key = r.choice(["", "\x03", "\x1a", "\x1a", "\x03\x03", "\x1a\x03"])
        if key:
            p.send(key)
            ctx.count("keys pressed in sessions", len(key))
            time.sleep(r.choice([0, 0.05]))
        open(os.path.join(d, "gate%d" % n), "w").close()
        again(p)
        ctx.count("commands in sessions")
        for _ in range(r.randint(0, 2)):
            p.send(r.choice(["jobs", "fg", "bg", "set s0 1", "ls n\t", "nosuch", "fg 1"]) + "\r")
            again(p)
    for _ in range(12):
        at = p.pos
        p.send("fg\r")
        p.expect(rb"fg[^\n]*\n")
        again(p)
        if b"job does not exist" in p.out[at:]:
            break
    p.send("write-line 'ali''ve'\r")
    p.expect(rb"\nalive\r?\n")
    again(p)
    p.close()


def check(ctx):
    ctx.ohrace
    ctx.pmap(lambda k: script(ctx, k), range(ctx.n(240, 15000)))
    ctx.pmap(lambda k: session(ctx, k), range(ctx.n(40, 4000)))
