"""C25: channels shared by tasks."""
import os, random
import batch, lit, ohv, races

RULE = ("A case is one program in which several tasks write numbered values to a channel, several read from it and one closes it (after the writers are done, or while they are writing), with delays at random. "
        "Every task logs the start and the end of every operation to one append-only log; the log is checked offline: each value received exactly once, in the order of the real-time queue, never more values waiting "
        "than the capacity, failures only after the close, () only after all values. In other cases values of every type are passed through and compared. Non-trivial: always; distinct by the order of events observed.")
ASSUMPTIONS = ["a value read as () is not distinguished from the end of the channel"]


def delay(r, p=0.25):
    k = r.random()
    if k < p * 0.5:
        return "sleep 0.00%d" % r.randint(1, 9)
    if k < p:
        return "for (seq %d) (method (x) {\ntrue\n})" % r.choice([3, 20])
    return None


def loop(r, body):
    return [x for x in body if x]


class Case:
    def __init__(self, ctx, k):
        self.ctx, self.k = ctx, k
        r = self.r = random.Random("%s/c25/%d" % (ctx.seed, k))
        self.cap = r.choice([0, 0, 1, 1, 2, 3, 5, 10, 50])
        self.writers = r.choice([1, 1, 2, 3, 4, 8])
        self.readers = r.choice([1, 1, 2, 3, 5])
        self.per = r.choice([1, 3, 8, 15, 30])
        self.early = r.random() < 0.25
        self.readstyle = [r.choice(["read", "read", "read-list", "read-line"]) for _ in range(self.readers)]
        self.late = r.random() < 0.3    # readers start late, so that the writers fill the channel
        self.style = r.choice(["spawn", "amp"])

    def source(self):
        r = self.r
        o = ["define L: open a events", "define c: chan%s" % (" %d" % self.cap if self.cap or r.random() < 0.5 else ""), "define ws ()", "define rs ()"]

        def task(body, lst):
            if self.style == "spawn" or lst:
                o.append("set %s: cons (spawn {\n%s\n}) $%s" % (lst, "\n".join(body), lst))
        rd = []
        for m in range(self.readers):
            st = self.readstyle[m]
            lim = None
            rd.append(["define go true", "while $go {", 'L write-line "rs %d"' % m] + loop(r, [delay(r)]) +
                      ["define v: c %s" % st, 'if $v {', 'L write-line "re %d" $v' % m, "} else {", 'L write-line "rn %d"' % m, "set go ()", "}"] + loop(r, [delay(r)]) + ["}"])
        if not self.late:
            for b in rd:
                task(b, "rs")
        for t in range(self.writers):
            w = "write-line" if "read-line" in self.readstyle else "write"
            body = ["define g: method () {", "catch ex {", 'L write-line "wf %d"' % t, "return ()", "}", "for (seq %d) (method (i) {" % self.per,
                    'L write-line "ws %d ${i}"' % t] + loop(r, [delay(r, 0.1)]) + ["c %s \"%d.${i}\"" % (w, t), 'L write-line "we %d ${i}"' % t] + loop(r, [delay(r)]) + ["})", "}", "g"]
            task(body, "ws")
        if self.late:
            o.append("sleep 0.0%d" % r.randint(1, 9))
            for b in rd:
                task(b, "rs")
        if self.early:
            o += loop(r, [delay(r, 0.9)])
        else:
            o.append("wait (splice $ws)")
        o += ["L write-line cs", "c %s" % r.choice(["close", "writer-close"]), "L write-line ce", "wait (splice $ws)", "wait (splice $rs)", "L write-line 'after' (c read) (c read-list) (c read-line)",
              "define g: method () {\ncatch ex {\nL write-line failed\nreturn ()\n}\nc write x\nL write-line written\n}\ng", "L write-line done"]
        return "\n".join(o) + "\n"

    def judge(self, log):
        """The reason why the log is not that of a channel, or None."""
        lines = log.split("\n")[:-1]
        if not lines or lines[-1] != "done":
            return "the program did not finish"
        ws, we, rs, re_, order = {}, {}, {}, {}, {}
        pend = {}
        failed = set()
        started, completed = 0, 0
        taken, got = 0, []
        cs = ce = None
        rnull = 0
        for p, ln in enumerate(lines):
            f = ln.split(" ")
            if f[0] == "ws":
                pend[f[1]] = (f[1] + "." + f[2], p)
                ws[f[1] + "." + f[2]] = p
            elif f[0] == "we":
                v = f[1] + "." + f[2]
                if v not in ws or v in we:
                    return "stray event %r" % ln
                we[v] = p
                completed += 1
                pend.pop(f[1], None)
                self.ctx.count_max("values waiting (most seen)", completed - len(got))
                if completed > started + self.cap:
                    return "%d writes had completed when only %d reads had been started, with capacity %d (at %r, line %d)" % (completed, started, self.cap, ln, p)
            elif f[0] == "wf":
                if cs is None:
                    return "a write failed before the channel was closed"
                v = pend.pop(f[1], None)
                failed.add(v[0] if v else None)
            elif f[0] == "rs":
                started += 1
                pend["r" + f[1]] = (None, p)
            elif f[0] in ("re", "rn"):
                at = pend.pop("r" + f[1])[1]
                if f[0] == "rn":
                    rnull += 1
                    started -= 1     # It takes no value.
                    if cs is None:
                        return "() was received before the channel was closed"
                    rs.setdefault("()", []).append((at, p))
                    continue
                v = f[2].strip("()")
                if v in re_:
                    return "%s was received twice" % v
                if v not in ws:
                    return "%s was received but was not being written" % v
                re_[v] = (at, p)
                got.append(v)
            elif f[0] == "cs":
                cs = p
            elif f[0] == "ce":
                ce = p
            elif f[0] == "after":
                if ln != "after () () ()":
                    return "reading from the closed, empty channel gave %r" % ln
            elif f[0] == "written":
                return "a write to a closed channel succeeded"
        if lines[-2] != "failed":
            return "a write to a closed channel raised no exception"
        for v in we:
            if v not in re_:
                return "%s was written but never received" % v
        for v in re_:
            if v not in we:
                return "%s was received but its write %s" % (v, "failed" if v in failed else "did not complete")
        if rnull != self.readers:
            return "%d of %d readers saw the end" % (rnull, self.readers)
        if not self.early and len(we) != self.writers * self.per:
            return "%d of %d writes completed" % (len(we), self.writers * self.per)
        # a was written before b (as far as anyone can tell): b is not received (completely) before a begins to be.
        vs = sorted(we, key=lambda v: we[v])
        starts = sorted(ws.items(), key=lambda x: x[1])
        # For each value b, the latest start of a receive among values whose write ended before that of b started.
        i, latest, who = 0, -1, None
        for b, p in starts:
            if b not in re_:
                continue
            while i < len(vs) and we[vs[i]] < p:
                if re_[vs[i]][0] > latest:
                    latest, who = re_[vs[i]][0], vs[i]
                i += 1
            if re_[b][1] < latest:
                return "%s was received before %s, which had been written before it" % (b, who)
        # () is only received when nothing is left.
        for at, p in rs.get("()", []):
            for v in re_:
                if re_[v][0] > p:
                    return "() was received while %s was still to be received" % v
        return None


def one(ctx, k):
    c = Case(ctx, k)
    text = c.source()
    d = ctx.mkdir("ch")
    race = k % 8 == 3
    env = ctx.env(GOMAXPROCS=str(c.r.choice([1, 2, 4, 8])))
    if race:
        env["GORACE"] = "halt_on_error=0 exitcode=0 log_path=%s/race" % d
    r = ctx.script(text, cwd=d, env=env, race=race, timeout=90)
    try:
        with open(os.path.join(d, "events"), errors="surrogateescape") as f:
            log = f.read()
    except OSError:
        log = ""
    what = None
    if r.crashed or r.timeout or r.rc != 0 or r.err:
        what = "a program using a channel %s" % ("crashed: " + r.crashed if r.crashed else "never ended" if r.timeout else "failed: " + r.err[-300:].decode("utf-8", "replace"))
    what = what or c.judge(log)
    if race and not what:
        for b in races.reports(d):
            if "/type/chn." in b and not races.close_and_send(b):
                what = "data race in the use of a channel"
                text += b
    if what:
        ctx.violation(what, "capacity %d\n%s\nlog:\n%s\n%s" % (c.cap, text, log[-20000:], r.brief(3000)))
        return
    ctx.cover(log, "capacity %d, %d writers of %d values, %d readers%s\n%s" % (c.cap, c.writers, c.per, c.readers, ", closed early" if c.early else "", log[:300]))
    ctx.count("events", log.count("\n"))
    ctx.count("values received", log.count("\nre "))
    ctx.count("writes that failed because of the close", log.count("\nwf "))
    ctx.count("capacity %d" % c.cap)
    if race:
        ctx.count("on the race-detector build")
    ctx.rmdir(d)


def value(r, depth=2):
    k = r.random()
    if k < 0.45:
        return lit.Str(lit.rtext(r, 10, invalid=True).replace("\0", ""))
    if k < 0.6:
        return lit.Sym(lit.rtext(r, 5).replace("\0", ""))
    if k < 0.75:
        return lit.Num(lit.rnum(r))
    if k < 0.8:
        return lit.Status(r.randint(0, 300))
    if k < 0.85 or not depth:
        return lit.NIL
    return lit.lst(*[value(r, depth - 1) for _ in range(r.randint(0, 4))])


def values(ctx):
    """Values are not changed by a channel, and come out in order; writes fill it without a reader."""
    r = ctx.rng
    bodies, want = [], []
    for _ in range(ctx.n(400, 8000)):
        n = r.choice([1, 1, 2, 3, 6, 20])
        ops, exp = ["define c: chan %d" % n], []
        vs = []
        for _ in range(n):
            k = r.random()
            if k < 0.06:
                # Nothing at all is a value too.
                vs.append([])
                ops.append(r.choice(["c write", "c write-line"]))
            elif k < 0.5:
                v = value(r)
                vs.append([v])
                ops.append("c write %s" % lit.src(v))
            elif k < 0.7:
                v = [value(r) for _ in range(r.randint(1, 4))]
                vs.append(v)
                ops.append("c write %s" % " ".join(lit.src(x) for x in v))
            else:
                v = lit.Str(lit.rtext(r, 12, invalid=True).replace("\0", "").replace("\n", ""))
                vs.append(v)
                ops.append("c write-line %s" % lit.src(v))
        closed = r.random() < 0.5
        if closed:
            ops.append("c close")
        reads = []
        for v in vs:
            if isinstance(v, lit.Str):
                reads.append("(c read-line)")
                exp.append(v)
            elif not v:
                how = r.choice(["read-line", "read-list"])
                reads.append("(c %s)" % how)
                exp.append(lit.NIL if how == "read-list" else lit.Str("()"))
            elif r.random() < 0.5:
                reads.append("(c read)")
                exp.append(v[0])
            else:
                reads.append("(c read-list)")
                exp.append(lit.lst(*v))
        if closed:
            reads.append("(%s)" % r.choice(["c read", "c read-line", "c read-list"]))
            exp.append(lit.NIL)
        ops.append("list %s" % " ".join(reads))
        bodies.append(ops)
        want.append(lit.lst(*exp))
    for b, w, res in zip(bodies, want, batch.evaluate(ctx, bodies)):
        if res is None or res.kind == "?":
            if not ctx.violations:
                ctx.violation("no result: %r" % res, "\n".join(b))
            return
        ctx.count("lists of values passed through a channel by one task")
        ctx.cover(("values", b))
        if res.kind != "V" or res.value != w:
            ctx.violation("values read from a channel are %s and not the ones written, %s" % (res, lit.rep(w)), "\n".join(b))
            return


def check(ctx):
    values(ctx)
    ctx.ohrace
    ctx.pmap(lambda k: one(ctx, k), range(ctx.n(400, 12000)))
