"""C27: variables and maps shared by tasks."""
import os, random, sys
import races

RULE = ("A case is one program in which two to eight tasks read, set, define, export and unset the same few variables of one scope, or get, set, delete and look for the same few keys of one map, logging the start and the end of "
        "every operation, with its result, to one append-only log. The history of every name is checked offline for linearizability against a register that may be undefined. In other cases tasks that own a name each "
        "change it and read it back at full speed while others add and remove names in the same scope or map. Non-trivial: more than one task uses a name at the same time; distinct by the order of events observed.")
ASSUMPTIONS = ["a name is not both exported and defined privately in one scope", "the log shows an operation as lasting longer than it does, so that some orders that are not linearizable are not seen as such"]
ABSENT = None


def linearizable(ops, init):
    """Whether ops (start, end, kind, argument, result) on one name have an order that a register allows."""
    ops = sorted(ops)
    n = len(ops)

    def apply(state, o):
        """The state after o, or False if o can't have that result in state."""
        kind, arg, res = o[2], o[3], o[4]
        if kind == "read":
            return (state,) if res == (state if state is not ABSENT else "undefined") else False
        if kind == "has":
            return (state,) if res == ("true" if state is not ABSENT else "()") else False
        if kind == "set":
            if res == "undefined":
                return (state,) if state is ABSENT else False
            return (arg,) if state is not ABSENT and res == arg else False
        if kind == "put":
            return (arg,) if res == arg else False
        if kind == "del":
            return (ABSENT,) if res == ("true" if state is not ABSENT else "()") else False
        if kind == "env":
            return (state,) if res == (state if state is not ABSENT else "") else False
        raise ValueError(kind)

    full = (1 << n) - 1
    seen = set()
    stack = [(0, init)]
    while stack:
        mask, state = stack.pop()
        if mask == full:
            return True
        if (mask, state) in seen:
            continue
        seen.add((mask, state))
        # An operation can be next if no operation that is left ended before it started.
        first = min(ops[i][1] for i in range(n) if not mask >> i & 1)
        for i in range(n):
            if mask >> i & 1:
                continue
            if ops[i][0] > first:
                break
            s = apply(state, ops[i])
            if s:
                stack.append((mask | 1 << i, s[0]))
    return False


def delay(r):
    k = r.random()
    if k < 0.06:
        return "sleep 0.00%d" % r.randint(1, 5)
    if k < 0.2:
        return "for (seq %d) (method (x) {\ntrue\n})" % r.choice([1, 5, 20])
    return None


class History:
    def __init__(self, ctx, k):
        self.ctx = ctx
        r = self.r = random.Random("%s/c27/%d" % (ctx.seed, k))
        self.kind = r.choice(["private", "private", "public", "public", "map", "map", "object"])
        self.tasks = r.choice([2, 3, 4, 4, 6, 8])
        self.keys = ["k%d" % i for i in range(r.choice([1, 1, 2, 3]))]
        self.per = r.choice([4, 8, 12])
        self.init = {x: ("init%d" % i if self.kind == "object" or r.random() < 0.6 else ABSENT) for i, x in enumerate(self.keys)}
        self.v = 0
        self.ops = {}    # (task, n): (key, kind, argument)

    def op(self, t, n):
        r = self.r
        x = r.choice(self.keys)
        self.v += 1
        v = "v%d" % self.v
        if self.kind == "map":
            kind = r.choice(["read", "read", "put", "put", "has", "del"])
            src = {"read": "m get %s" % x, "put": "m set %s %s" % (x, v), "has": "m has %s" % x, "del": "m del %s" % x}[kind]
        elif self.kind == "object":
            # The private variables of an object, through its methods.
            kind = r.choice(["read", "read", "set"])
            src = {"read": "o get-%s" % x, "set": "o set-%s %s" % (x, v)}[kind]
        else:
            kind = r.choice(["read", "read", "set", "set", "put", "has", "del"])
            if self.kind == "public" and r.random() < 0.05:
                kind = "env"
            d = "define" if self.kind == "private" else "export"
            src = {"read": r.choice(["mend '' $%s" % x, "E get %s" % x, "resolve %s" % x, "E eval (quote (resolve %s))" % x]),
                   "set": r.choice(["set %s %s" % (x, v), "E set %s %s" % (x, v), "E eval (quote (set %s %s))" % (x, v)]),
                   "put": "E %s %s %s" % (d, x, v),
                   "has": r.choice(["E set? %s" % x, "resolves? %s" % x]),
                   "del": "E unset %s" % x,
                   # No output, and so no value, when there is no such variable.
                   "env": "mend '' '' (splice (capture (sh -c 'echo \"$%s\"')))" % x}[kind]
        self.ops[t, n] = (x, kind, v)
        return ["L write-line 'i %d %d'" % (t, n), "define r: g (method () {", src, "})"] + ["L write-line 'r %d %d' $r" % (t, n)]

    def source(self):
        r = self.r
        o = ["define L: open a events", "define g: method (m) {", "catch ex {", "return undefined", "}", "m", "}", "define env: syntax () e {", "return $e", "}"]
        body = []
        if self.kind == "map":
            body.append("define m: map")
            body += ["m set %s %s" % (x, v) for x, v in self.init.items() if v is not ABSENT]
        elif self.kind == "object":
            body.append("define o: object {")
            for x, v in self.init.items():
                body += ["define %s %s" % (x, v), "export get-%s: method () {" % x, "return $%s" % x, "}", "export set-%s: method (v) {" % x, "set %s $v" % x, "}"]
            body.append("}")
        else:
            # Names of which no task changes the value, next to those that are changed.
            body += ["define E: env"] + ["%s %s %s" % ("define" if self.kind == "private" else "export", x, v) for x, v in self.init.items() if v is not ABSENT]
        for i in range(3):
            body.append("define still%d value%d" % (i, i) if self.kind in ("private", "public", "object") else "m set still%d value%d" % (i, i))
        body += ["define go: chan", "define ts ()"]
        for t in range(self.tasks):
            # All start at the same time.
            b = ["go read"]
            for n in range(self.per):
                d = delay(r)
                if d:
                    b.append(d)
                b += self.op(t, n)
            body += ["set ts: cons (spawn {"] + b + ["}) $ts"]
        body += ["go write x"] * self.tasks + ["wait (splice $ts)"]
        body.append("L write-line still %s" % " ".join("$still%d" % i if self.kind != "map" else "(m get still%d)" % i for i in range(3)))
        # At the top level, or in a scope of its own.
        if r.random() < 0.5:
            body = ["block {"] + body + ["}"]
        return "\n".join(o + body + ["L write-line done"]) + "\n"

    def judge(self, log):
        lines = log.split("\n")[:-1]
        if not lines or lines[-1] != "done":
            return "the program did not finish"
        if lines[-2] != "still value0 value1 value2":
            return "names that no task changed are %r" % lines[-2]
        start, hist = {}, {x: [] for x in self.keys}
        seen = set()
        for p, ln in enumerate(lines[:-2]):
            f = ln.split(" ")
            k = (int(f[1]), int(f[2]))
            if f[0] == "i":
                start[k] = p
            else:
                x, kind, v = self.ops[k]
                hist[x].append((start[k], p, kind, v, " ".join(f[3:])))
                seen.add(k)
        if len(seen) != len(self.ops):
            return "%d of %d operations ended" % (len(seen), len(self.ops))
        for x in self.keys:
            h = sorted(hist[x])
            over = sum(1 for a, b in zip(h, h[1:]) if b[0] < a[1])
            self.ctx.count("operations that overlap the next", over)
            self.ctx.count("operations", len(h))
            for o in h:
                self.ctx.count("%s %s" % (self.kind, o[2]))
            if not linearizable(h, self.init[x]):
                return "the history of %s (%s, at first %s) is that of no variable:\n%s" % (
                    x, self.kind, self.init[x], "\n".join("%d-%d %s %s gave %s" % o for o in h))
        return None


def hammer(r):
    """Tasks that own a name change it and read it back while others change the names next to it."""
    kind = r.choice(["scope", "map", "export", "mixed", "clone"])
    n = r.choice([2, 3, 4, 6])
    rounds = r.choice([50, 100, 200])
    o = ["define L: open a events", "define env: syntax () e {", "return $e", "}", "define shared a0", "define m: map", "define E: env", "define ts ()"]
    if kind == "clone":
        o += ["define proto: object {", "define s start", "export get: method () {", "return $s", "}", "export put: method (v) {", "set s $v", "}", "}", "define make: method () {", "object {",
              "define s start", "export get: method () {", "return $s", "}", "export put: method (v) {", "set s $v", "}", "}", "}"]
    for t in range(n):
        o += ["define own%d none" % t, "export pub%d none" % t, "m set own%d none" % t]
    for t in range(n):
        k = {"mixed": r.choice(["scope", "map", "export"])}.get(kind, kind)
        b = ["for (seq %d) (method (i) {" % rounds]
        if k == "scope":
            b += ["set own%d \"t%d.${i}\"" % (t, t), "E define extra%d_${i} x" % t, "set shared \"a%d.${i}\"" % t, "if (not: equal? $own%d \"t%d.${i}\") {" % (t, t), "L write-line bad own%d $i $own%d" % (t, t), "}", "E unset extra%d_${i}" % t]
        elif k == "map":
            b += ["m set own%d \"t%d.${i}\"" % (t, t), "m set extra%d_${i} x" % t, "m del extra%d_${i}" % t, "if (not: equal? (m get own%d) \"t%d.${i}\") {" % (t, t), "L write-line bad own%d $i (m get own%d)" % (t, t), "}",
                  "if (m has extra%d_${i}) {" % t, "L write-line bad extra%d $i" % t, "}"]
        elif k == "export":
            b += ["set pub%d \"t%d.${i}\"" % (t, t), "E export xtra%d_${i} x" % t, "if (not: equal? $pub%d \"t%d.${i}\") {" % (t, t), "L write-line bad pub%d $i $pub%d" % (t, t), "}", "E unset xtra%d_${i}" % t]
            if r.random() < 0.5:
                b += ["if (equal? $i (number 7)) {", "L write-line child%d: (splice (capture (sh -c 'echo $pub%d')))" % (t, t), "}"]
        else:
            b += ["define c: make", "c put \"t%d.${i}\"" % t, "if (not: equal? (c get) \"t%d.${i}\") {" % t, "L write-line bad clone $i (c get)", "}", "proto put \"p%d.${i}\"" % t, "define v: proto get",
                  "if (equal? $v start) {", "L write-line bad proto $v", "}"]
        # What another task changes always has a value, and one it was given.
        u = r.randrange(n)
        b += ["mend '' $shared $own%d $pub%d (m get own%d)" % (u, u, u), "})"]
        o += ["set ts: cons (spawn {"] + b + ["}) $ts"]
    o += ["wait (splice $ts)", "L write-line shared $shared"]
    o += ["L write-line own $own%d $pub%d (m get own%d)" % (t, t, t) for t in range(n)]
    return "\n".join(o + ["L write-line done"]) + "\n", kind, n, rounds


def tokens(r):
    """Tasks that all try to remove the same names: each is removed by one of them."""
    kind = r.choice(["scope", "map", "export"])
    n = r.choice([2, 3, 4, 8])
    rounds = r.choice([300, 600])
    o = ["define L: open a events", "define env: syntax () e {", "return $e", "}", "define m: map", "define E: env", "define ts ()", "define all: seq %d" % rounds, "define go: chan",
         "for $all (method (i) {", {"scope": "E define tok${i} x", "map": "m set tok${i} x", "export": "E export tok${i} x"}[kind], "})"]
    for t in range(n):
        # Some start from the other end, so that they meet.
        o += ["set ts: cons (spawn {", "define got ()", "go read", "for %s (method (i) {" % ("$all" if r.random() < 0.8 else "($all reverse)"), "if (%s tok${i}) {" % ("m del" if kind == "map" else "E unset"),
              "set got: cons $i $got", "}", "})", "L write-line got %d $got" % t, "}) $ts"]
    o += ["go write x"] * n + ["wait (splice $ts)", "L write-line left %s" % ("(m has tok0)" if kind == "map" else "(E set? tok0)")]
    return "\n".join(o + ["L write-line done"]) + "\n", kind, n, rounds


def removed(log, n, rounds):
    lines = log.split("\n")[:-1]
    if not lines or lines[-1] != "done":
        return "the program did not finish"
    if lines[-2] != "left ()":
        return "a name that was removed is still there"
    by = {}
    for ln in lines[:-2]:
        f = ln.replace("(", " ").replace(")", " ").split()
        for i in f[2:]:
            if i in by:
                return "name %s was removed by two tasks, %s and %s" % (i, by[i], f[1])
            by[i] = f[1]
    if len(by) != rounds:
        return "%d of %d names were removed by a task" % (len(by), rounds)
    return None


def hammered(log, n, rounds):
    lines = log.split("\n")[:-1]
    if not lines or lines[-1] != "done":
        return "the program did not finish"
    for ln in lines:
        f = ln.split(" ")
        if f[0] == "bad":
            return "a name that only one task changes had another value: %s" % ln
        if f[0].startswith("child") and f[1:] != ["t%s.7" % f[0][5:-1]]:
            return "a command was given %r" % ln
    i = 0
    for ln in lines:
        if ln.startswith("own "):
            for v in ln.split(" ")[1:]:
                if v not in ("none", "t%d.%d" % (i, rounds - 1)):
                    return "a name of task %d is %s at the end" % (i, v)
            i += 1
    return None


def one(ctx, k):
    r = random.Random("%s/c27x/%d" % (ctx.seed, k))
    ham = k % 6 == 5
    if ham:
        tok = r.random() < 0.4
        text, kind, n, rounds = (tokens if tok else hammer)(r)
    else:
        c = History(ctx, k)
        text = c.source()
    d = ctx.mkdir("va")
    race = k % 9 == 2
    env = ctx.env(GOMAXPROCS=str(r.choice([1, 2, 4, 8])))
    if race:
        env["GORACE"] = "halt_on_error=0 exitcode=0 log_path=%s/race" % d
    res = ctx.script(text, cwd=d, env=env, race=race, timeout=90)
    try:
        with open(os.path.join(d, "events"), errors="replace") as f:
            log = f.read()
    except OSError:
        log = ""
    what = None
    if res.crashed or res.timeout or res.rc != 0 or res.err:
        what = "a program whose tasks share variables %s" % (
            "crashed: " + res.crashed if res.crashed else "never ended" if res.timeout else "failed: " + res.err[-300:].decode("utf-8", "replace"))
    what = what or ((removed if tok else hammered)(log, n, rounds) if ham else c.judge(log))
    if race and not what:
        for b in races.reports(d):
            if any(x in b for x in ("/struct/hash.", "/struct/slot.", "/type/env.", "/type/obj.", "/type/sym.")):
                what = "data race in the use of a variable"
                text += b
    if what:
        ctx.violation(what, "%s\nlog:\n%s\n%s" % (text, log[-20000:], res.brief(3000)))
        return
    if ham:
        ctx.cover(("hammer", k, kind, n, rounds), "%s %s, %d tasks, %d rounds" % ("removal" if tok else "hammer", kind, n, rounds))
        ctx.count("names that several tasks try to remove" if tok else "names changed and read back at full speed", rounds if tok else n * rounds)
    else:
        ctx.cover(log, "%s, %d tasks, %d operations each, names %s\n%s" % (c.kind, c.tasks, c.per, c.init, log[:500]))
    if race:
        ctx.count("on the race-detector build")
    ctx.rmdir(d)


def check(ctx):
    # The oracle itself: a history that must be refused, and one that must not.
    assert not linearizable([(0, 1, "put", "a", "a"), (2, 3, "put", "b", "b"), (4, 5, "read", "", "a")], ABSENT)
    assert linearizable([(0, 3, "put", "a", "a"), (1, 2, "put", "b", "b"), (4, 5, "read", "", "a")], ABSENT)
    ctx.ohrace
    ctx.pmap(lambda k: one(ctx, k), range(ctx.n(360, 9000)))
