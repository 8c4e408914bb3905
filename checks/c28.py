"""C28: spawned tasks and wait."""
import os, random, re

RULE = ("A case is one program with a tree of up to thirty tasks, started with spawn or &, that log their start and end, with random delays, work, failures and external commands, use variables of their spawner, define their own, meet their "
        "spawner at a channel, and wait for their children, for tasks they have a reference to (running or ended, some failed) or for all; the log is checked offline: every task started and ended once, no wait returned before "
        "the last event of any of the tasks waited for, every wait returned. Other cases start and wait for many tasks that end at once. Non-trivial: more than one task; distinct by the order of events.")
ASSUMPTIONS = ["a task does not wait for itself or for a task that waits for it"]


class Tree:
    def __init__(self, ctx, k):
        r = self.r = random.Random("%s/c28/%d" % (ctx.seed, k))
        self.n = 0
        self.w = 0
        self.limit = r.choice([1, 2, 4, 8, 16, 30])
        self.fails = set()
        self.parent = {}
        self.last = {}          # The last thing a task logs.
        self.waits = {}         # wait: the tasks it waits for, each of which has then ended.
        self.handles = []
        self.how = {}
        self.pre = []
        self.lines = self.body(0, 0, [])

    def work(self):
        r = self.r
        k = r.random()
        if k < 0.25:
            return ["sleep 0.00%d" % r.randint(1, 9)]
        if k < 0.3:
            return ["sleep 0.0%d" % r.randint(1, 4)]
        if k < 0.5:
            return ["for (seq %d) (method (x) {" % r.choice([1, 10, 50]), "true", "})"]
        return []

    def body(self, me, depth, older):
        """The commands of task me, which may wait for the tasks in older."""
        r = self.r
        o = ['L write-line "s %d"' % me]
        if me:
            # It sees the variables of its spawner, and what it defines is its own.
            o += ["define own%d mine" % me, "set seen%d $given%d" % (me, me)]
        kids, amp = [], []
        older = list(older)
        for _ in range(r.choice([0, 1, 2, 3, 5]) if depth else r.choice([2, 4, 6, 10])):
            o += self.work()
            k = r.random()
            if k < 0.55 and self.n < self.limit and depth < 4:
                self.n += 1
                c = self.n
                self.parent[c] = me
                self.how[c] = r.choice(["spawn", "spawn", "spawn", "amp"])
                if self.how[c] == "spawn" and r.random() < 0.16:
                    self.fails.add(c)
                meet = r.random() < 0.25
                ex = self.how[c] == "amp" and r.random() < 0.3
                self.pre += ["define t%d ()" % c, "define seen%d ()" % c]
                o += ["define given%d value%d" % (c, c)]
                if meet:
                    self.pre += ["define meet%d: chan" % c]
                b = (["meet%d read" % c] if meet else []) + self.body(c, depth + 1, older + kids)
                if ex:
                    # An external command, which ends with its last line.
                    b = ["set seen%d $given%d" % (c, c)]
                    self.fails.discard(c)
                    o += b + ["sh -c 'echo \"s %d\" >> events; sleep 0.0%d; echo \"e %d\" >> events' && fin write %d &" % (c, r.randint(0, 3), c, c)]
                    # It has none of the children it might have had.
                    meet = False
                    amp.append(c)
                    continue
                if self.how[c] == "spawn":
                    o += ["set t%d: spawn {" % c] + b + ["}"]
                    kids.append(c)
                else:
                    o += ["block {"] + b + ["} &"]
                    amp.append(c)
                if meet:
                    # Returns only if the two run at the same time.
                    o += ["meet%d write x" % c]
            elif k < 0.75 and (kids or older):
                ts = [r.choice(kids + older if r.random() < 0.5 or not kids else kids) for _ in range(r.choice([1, 1, 2, 3]))]
                o += self.wait(me, "wait %s" % " ".join("$t%d" % t for t in ts), ts)
            elif k < 0.85:
                o += self.wait(me, "wait", kids + amp)
        if r.random() < 0.7 or depth == 0:
            o += self.wait(me, "wait", kids + amp)
        if me:
            o += ['L write-line "own %d ${own%d}"' % (me, me)]
        if me in self.fails:
            o += ['L write-line "e %d"' % me, "fin write %d" % me, "throw 'boom %d'" % me, 'L write-line "after %d"' % me]
        elif me:
            o += ['L write-line "e %d"' % me, "fin write %d" % me]
        return o

    def wait(self, me, cmd, ts):
        r = self.r
        self.w += 1
        w = self.w
        self.waits[w] = (me, [t for t in ts])
        log = 'L write-line "w %d"' % w
        k = r.random()
        o = ['L write-line "b %d"' % w]
        if k < 0.7:
            return o + [cmd, log]
        if k < 0.8:
            return o + ["block {", cmd, log, "}"]
        if k < 0.9:
            return o + ["define m%d: method () {" % w, cmd, log, "}", "m%d" % w]
        return o + ["if true {", cmd, "}", log]

    def source(self):
        tail = ["for (seq %d) (method (x) {" % self.count(), "fin read", "})"]
        # Those that fail report it after the last thing they log.
        tail += ["wait %s" % " ".join("$t%d" % c for c in sorted(self.fails))] if self.fails else []
        # Nothing that a task defines is visible to its spawner.
        tail += ['L write-line "names%s"' % "".join(" ${seen%d}" % c for c in sorted(self.parent) if c in self.started),
                 "L write-line hidden %s" % " ".join("(resolves? own%d)" % c for c in sorted(self.started))] if self.started else []
        return "\n".join(["define L: open a events", "define fin: chan %d" % (self.n + 1)] + self.pre + self.lines + tail + ["L write-line done"]) + "\n"

    def count(self):
        return self.nfin

    def settle(self):
        """Finds which tasks the text really has: those in the body of an external command are not there."""
        text = "\n".join(self.lines)
        self.started = {int(x) for x in re.findall(r'(?:"|echo \\?")s (\d+)', text)} - {0}
        self.fins = {int(x) for x in re.findall(r"fin write (\d+)", text)}
        self.nfin = len(self.fins)
        self.present = {int(x) for x in re.findall(r'"w (\d+)"', text)}
        self.fails &= self.fins

    def judge(self, log, err):
        lines = log.split("\n")[:-1]
        if not lines or lines[-1] != "done":
            return "the program did not finish"
        starts, ends, ret, begun = {}, {}, {}, {}
        for p, ln in enumerate(lines):
            f = ln.split(" ")
            if f[0] == "s":
                if f[1] in starts:
                    return "task %s was started twice" % f[1]
                starts[f[1]] = p
            elif f[0] == "e":
                if f[1] in ends:
                    return "task %s ended twice" % f[1]
                ends[f[1]] = p
            elif f[0] == "b":
                begun[f[1]] = p
            elif f[0] == "w":
                if f[1] in ret:
                    return "a wait returned twice"
                ret[f[1]] = p
            elif f[0] == "after":
                return "task %s went on after an exception" % f[1]
            elif f[0] == "own" and f[2] != "mine":
                return "the variable of task %s has the value %s" % (f[1], f[2])
            elif f[0] == "names" and f[1:] != ["value%d" % c for c in sorted(self.started)]:
                return "the variables of the spawners, as seen by the tasks, are %r" % ln
            elif f[0] == "hidden" and set(f[1:]) - {"()"}:
                return "a variable defined by a task is visible outside of it: %r" % ln
        if not all(x in ends for x in map(str, self.started)):
            return "tasks %s did not run to their end" % [x for x in self.started if str(x) not in ends]
        if "0" not in starts or set(map(int, starts)) - {0} != self.started:
            return "the tasks that started are %s and not %s" % (sorted(starts), sorted(self.started))
        if len(ret) != len(self.present):
            return "%d of %d waits returned" % (len(ret), len(self.present))
        for w, p in ret.items():
            for t in self.waits[int(w)][1]:
                if t in self.started and ends[str(t)] > p:
                    return "wait %s, by task %d, returned before task %d had ended" % (w, self.waits[int(w)][0], t)
        for c in self.started:
            if starts[str(c)] < starts[str(self.parent[c])]:
                return "task %d started before the task that spawns it" % c
        booms = sorted(int(x) for x in re.findall(r"^error: boom (\d+)$", err, re.M))
        if booms != sorted(self.fails):
            return "the tasks reported to have failed are %s and not %s" % (booms, sorted(self.fails))
        return None


def one(ctx, k):
    t = Tree(ctx, k)
    t.settle()
    text = t.source()
    d = ctx.mkdir("tr")
    race = k % 10 == 7
    env = ctx.env(GOMAXPROCS=str(t.r.choice([1, 2, 4, 8])))
    if race:
        env["GORACE"] = "halt_on_error=0 exitcode=0 log_path=%s/race" % d
    if t.r.random() < 0.25:
        mode = "-c"
        r = ctx.run(["-c", text], cwd=d, env=env, race=race, timeout=90)
    else:
        mode = "script"
        r = ctx.script(text, cwd=d, env=env, race=race, timeout=90)
    try:
        with open(os.path.join(d, "events"), errors="replace") as f:
            log = f.read()
    except OSError:
        log = ""
    err = r.err.decode("utf-8", "replace")
    what = None
    if r.crashed or r.timeout or r.rc != 0 or (r.err and not t.fails):
        what = "a program with %d tasks %s" % (len(t.started), "crashed: " + r.crashed if r.crashed else "never ended" if r.timeout else "failed: " + err[-300:])
    what = what or t.judge(log, err)
    if what:
        ctx.violation("%s (%s)" % (what, mode), "%s\nlog:\n%s\n%s" % (text, log[-20000:], r.brief(3000)))
        return
    ctx.cover(log, "%d tasks, %d waits\n%s" % (len(t.started), len(t.present), log[:500]), nontrivial=len(t.started) > 0)
    ctx.count("tasks", len(t.started))
    ctx.count("waits", len(t.present))
    ctx.count("tasks waited for", sum(len(t.waits[w][1]) for w in t.present))
    ctx.count("waits that had something to wait for", sum(1 for w in t.present for x in [log.index('b %d\n' % w)] if any(("\ne %d\n" % c) in log[x:] for c in t.waits[w][1])))
    ctx.count("tasks that fail", len(t.fails))
    if race:
        ctx.count("on the race-detector build")
    ctx.rmdir(d)


def storm(ctx, k):
    """Many tasks that end at once, waited for one by one or together, by one task or several."""
    r = random.Random("%s/c28s/%d" % (ctx.seed, k))
    n = r.choice([50, 100, 200])
    body = r.choice(["true", "set n%d: add $n%d 1", "throw x", "sleep 0", "/bin/true", "wait (spawn {\ntrue\n})"])
    shape = r.choice(["each", "all", "many", "shared", "none"])
    w = r.choice([1, 2, 4])
    quiet = "throw" not in body
    o = ["define L: open a events", "define tasks ()"]
    for j in range(w):
        b = body.replace("%d", str(j))
        o += ["define n%d 0" % j, "define ts%d ()" % j]
        loop = {"each": ["set count: spawn {", b, "}", "wait $count", "wait $count"], "all": ["spawn {", b, "}"],
                "many": ["set ts%d: cons (spawn {" % j, b, "}) $ts%d" % j], "shared": ["define c: spawn {", b, "}", "define w1: spawn {", "wait $c", "}", "define w2: spawn {", "wait $c $c", "}", "wait $w1 $c $w2"],
                "none": ["spawn {", b, "}", "wait"]}[shape]
        o += ["set tasks: cons (spawn {", "define count ()", "for (seq %d) (method (i) {" % n] + loop + ["})"]
        o += {"all": ["wait"], "many": ["wait (splice $ts%d)" % j, "wait (splice $ts%d)" % j]}.get(shape, [])
        o += ["}) $tasks"]
    o += ["wait (splice $tasks)", "wait", "L write-line end %s" % " ".join("$n%d" % j for j in range(w)), "L write-line done"]
    text = "\n".join(o) + "\n"
    d = ctx.mkdir("st")
    res = ctx.script(text, cwd=d, env=ctx.env(GOMAXPROCS=str(r.choice([1, 2, 4, 8]))), timeout=120)
    try:
        with open(os.path.join(d, "events"), errors="replace") as f:
            log = f.read().split("\n")
    except OSError:
        log = []
    what = None
    if res.crashed or res.timeout or res.rc != 0 or res.err and quiet:
        what = "a program that waits for tasks that end at once %s" % ("crashed: " + res.crashed if res.crashed else "never ended" if res.timeout else "failed: " + res.err[-300:].decode("utf-8", "replace"))
    elif len(log) < 2 or log[-2] != "done":
        what = "the program did not finish"
    elif "set n" in body and shape in ("each", "shared", "none") and log[0].split()[1:] != [str(n)] * w:
        what = "%d tasks that each add one, one after another, counted %s" % (n, log[0])
    elif not quiet and res.err.count(b"error: x\n") != n * w:
        what = "%d of %d tasks reported the exception they ended with" % (res.err.count(b"error: x\n"), n * w)
    if what:
        ctx.violation(what, "%s\nlog:\n%s\n%s" % (text, "\n".join(log), res.brief(2000)))
        return
    ctx.cover((shape, body, n, w))
    ctx.count("tasks that end at once", n * w)
    ctx.rmdir(d)


def check(ctx):
    ctx.ohrace
    ctx.pmap(lambda k: one(ctx, k), range(ctx.n(500, 15000)))
    ctx.pmap(lambda k: storm(ctx, k), range(ctx.n(60, 1500)))
