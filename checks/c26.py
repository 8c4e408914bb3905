"""C26: pipes and standard streams shared by tasks."""
import os, random, re
import lit, races

RULE = ("A case is one program in which several tasks write records of known contents and sizes, from a few bytes to several times what a pipe holds, to one pipe, standard stream, file or named pipe, and several tasks read from "
        "it (or a program outside of oh does). Every reader writes what it received to a file of its own and logs the start and the end of each read; these are compared with the records written: each received exactly "
        "once, whole, in the order of its writer, and then (). Non-trivial: more than one task writes or reads; distinct by the order of events observed.")
ASSUMPTIONS = ["only tasks of oh write to the shared stream (what an external command writes is not a record)"]
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
SPECIAL = " '$`\\{}()|;&<>*?[]~#=.,:@%\té✓"


def payload(r, n, kind):
    """n characters that are different wherever they are cut."""
    o = r.randint(0, 60)
    s = "".join(ALPHA[(o + i + i // 61) % 62] for i in range(n))
    if kind == "special":
        b = list(s)
        for _ in range(min(n // 3, 400)):
            b[r.randrange(n)] = r.choice(SPECIAL)
        s = "".join(b)
        # The quote can't be part of single-quoted text.
        s = s.replace("'", '"')
    return s


def delay(r, p=0.2):
    k = r.random()
    if k < p / 2:
        return ["sleep 0.00%d" % r.randint(1, 9)]
    if k < p:
        return ["for (seq %d) (method (x) {" % r.choice([3, 20]), "true", "})"]
    return []


class Case:
    def __init__(self, ctx, k):
        r = self.r = random.Random("%s/c26/%d" % (ctx.seed, k))
        self.shape = r.choice(["pipe", "pipe", "pipe", "pipeline", "pipeline", "errors", "stdout", "stderr", "file", "append", "stdin", "fifo-in", "fifo-out", "redirect"])
        self.style = r.choice(["line", "line", "list", "mixed"])
        self.writers = r.choice([2, 2, 3, 4, 6, 10])
        self.readers = r.choice([1, 1, 2, 3, 5])
        if self.shape in ("stdin",):
            self.writers = 1
            self.readers = r.choice([2, 3, 4, 6])
        self.per = r.choice([1, 3, 8, 20])
        big = r.random() < 0.35
        sizes = [1, 2, 10, 50, 200, 1000, 4095, 4096, 4097]
        if big and self.style == "line":
            sizes += [30000, 65535, 65536, 65537, 100000, 200000]
            self.per = min(self.per, 5)
        elif big:
            sizes += [8000]
            self.per = min(self.per, 8)
        self.multi = self.shape in ("pipe", "pipeline", "stdout", "file", "append", "redirect", "fifo-in") and self.style == "line" and r.random() < 0.2
        if self.multi:
            self.readers = 1
        self.pool = []
        for _ in range(r.randint(1, 5)):
            s = payload(r, r.choice(sizes), r.choice(["plain", "special"]))
            if self.multi and len(s) > 4:
                c = list(s)
                for _ in range(r.randint(1, min(30, len(s) // 3))):
                    c[r.randrange(1, len(s) - 1)] = "\n"
                s = "".join(c)
            self.pool.append(s)
        # Which of the payloads the i-th record of task t has.
        self.of = {(t, i): r.randrange(len(self.pool)) for t in range(self.writers) for i in range(self.per)}
        self.how = {(t, i): ("line" if self.style == "line" else "list" if self.style == "list" else r.choice(["line", "list"])) for t, i in self.of}
        self.outside = self.shape in ("stdout", "stderr", "file", "append", "errors", "redirect", "fifo-in")

    def record(self, t, i):
        return "%d %d %s" % (t, i, self.pool[self.of[t, i]])

    def writer(self, t, to):
        r = self.r
        o = []
        for i in range(self.per):
            o += delay(r, 0.1)
            if self.how[t, i] == "line":
                o.append('%swrite-line "%d %d ${p%d}"' % (to, t, i, self.of[t, i]))
            else:
                # A record that is the same text whether it is read as a line or as code.
                o.append('%swrite \'%d %d\' $p%d' % (to, t, i, self.of[t, i]))
        return o

    def reader(self, m, frm):
        r = self.r
        st = "read-list" if self.style == "list" and r.random() < 0.7 else "read-line"
        return ["define R%d: open w r%d" % (m, m), "define go%d true" % m, "while $go%d {" % m, 'L write-line "rs %d"' % m, "define v: %s%s" % (frm, st),
                "if (null? $v) {", 'L write-line "rn %d"' % m, "set go%d ()" % m, "} else {", 'L write-line "re %d"' % m,
                "R%d %s" % (m, "write (splice $v)" if st == "read-list" else "write-line $v")] + delay(r) + ["}", "}", "R%d close" % m]

    def source(self):
        r = self.r
        o = ["define L: open a events"] + ["define p%d '%s'" % (i, s) for i, s in enumerate(self.pool)]

        def tasks(bodies, name):
            out = ["define %s ()" % name]
            for b in bodies:
                out += ["set %s: cons (spawn {" % name] + b + ["}) $%s" % name]
            return out
        ws = lambda to: tasks([self.writer(t, to) for t in range(self.writers)], "ws")
        rs = lambda frm: tasks([self.reader(m, frm) for m in range(self.readers)], "rs")
        W, R = ["wait (splice $ws)"], ["wait (splice $rs)"]
        sh = self.shape
        if sh == "pipe":
            o.append("define c: pipe")
            a, b = ws("c "), rs("c ")
            o += (a + ["sleep 0.01"] + b) if r.random() < 0.3 else b + a
            o += W + ["c writer-close"] + R + ["L write-line 'after' (c read) (c read-line) (c read-list)", "c close"]
        elif sh in ("pipeline", "errors"):
            if sh == "errors":
                self.outside = False
            # Half of the tasks write to standard error.
            bodies = [self.writer(t, "stderr " if sh == "errors" and t % 2 else "") for t in range(self.writers)]
            o += ["block {"] + tasks(bodies, "ws") + W + ["} %s block {" % ("|" if sh == "pipeline" else "|&")] + rs("") + R + ["}"]
        elif sh == "stdout":
            o += ws("") + W
        elif sh == "stderr":
            o += ws("stderr ") + W
        elif sh in ("file", "append"):
            if sh == "append":
                # Every task opens the file itself.
                bodies = [["define f: open a out"] + self.writer(t, "f ") + ["f close"] for t in range(self.writers)]
                o += tasks(bodies, "ws") + W
            else:
                o += ["define f: open %s out" % r.choice("wa")] + ws("f ") + W + ["f close"]
        elif sh == "redirect":
            o += ["block {"] + ws("") + W + ["} %s out" % r.choice([">", ">>", ">&", ">>&"])]
        elif sh == "stdin":
            o += rs("") + R
        elif sh == "fifo-out":
            # The command's side of a named pipe is read by the tasks of the substitution.
            o += ["define w: method (to) {", "define f: open w $to"] + ws("f ") + W + ["f close", "}", "w |>(block {"] + rs("") + R + ["})"]
        elif sh == "fifo-in":
            o += ["cat |<(block {"] + ws("") + W + ["}) > out"]
        o += ["L write-line done"]
        return "\n".join(o) + "\n"

    def records(self, text):
        """The records in a text, as keys, or the reason why there are none."""
        out = []
        if self.multi:
            # Where a record ends can only be told from its contents.
            p = 0
            while p < len(text):
                m = re.compile(r"(\d+) (\d+) ").match(text, p)
                k = m and (int(m.group(1)), int(m.group(2)))
                if not m or k not in self.of or not text.startswith(self.record(*k) + "\n", p):
                    return "a record is not as written: %r" % text[p:p + 300]
                out.append(k)
                p += len(self.record(*k)) + 1
            return out
        if text and not text.endswith("\n"):
            return "the last line has no end: %r" % text[-200:]
        for ln in text.split("\n")[:-1]:
            m = re.match(r"(?:\$?')?(\d+) (\d+)'? ", ln)
            k = m and (int(m.group(1)), int(m.group(2)))
            if not m or k not in self.of:
                return "a line is not as written: %r" % ln[:300]
            if self.how[k] == "line":
                if ln != self.record(*k):
                    return "record %r is not as written (%d characters, should be %d): %r" % (k, len(ln), len(self.record(*k)), ln[:200] + " ... " + ln[-200:])
            else:
                try:
                    v = lit.pylist(lit.decode(ln))
                except (lit.Bad, ValueError):
                    v = None
                if v != [lit.Str("%d %d" % k), lit.Str(self.pool[self.of[k]])]:
                    return "record %r is not as written: %r" % (k, ln[:300])
            out.append(k)
        return out

    def judge(self, d, r, log):
        lines = log.split("\n")[:-1]
        if not lines or lines[-1] != "done":
            return "the program did not finish"
        for ln in lines:
            if ln.startswith("after") and ln != "after () () ()":
                return "reading from the pipe after its end gave %r" % ln
        texts = []
        if self.shape == "stdout":
            texts = [r.out.decode("utf-8", "replace")]
        elif self.shape == "stderr":
            texts = [r.err.decode("utf-8", "replace")]
        elif self.outside:
            texts = [open(os.path.join(d, "out"), encoding="utf-8", errors="replace", newline="\n").read()]
        else:
            for m in range(self.readers):
                texts.append(open(os.path.join(d, "r%d" % m), encoding="utf-8", errors="replace", newline="\n").read())
        seen = {}
        per = []
        for m, t in enumerate(texts):
            ks = self.records(t)
            if isinstance(ks, str):
                return ks
            last = {}
            per.append(ks)
            for k in ks:
                if k in seen:
                    return "record %r was received twice" % (k,)
                seen[k] = m
                if last.get(k[0], -1) > k[1]:
                    return "record %r was received after %r" % (k, (k[0], last[k[0]]))
                last[k[0]] = k[1]
        miss = [k for k in self.of if k not in seen]
        if miss:
            return "%d of %d records were never received, such as %r" % (len(miss), len(self.of), miss[0])
        if self.outside:
            return None
        # Across readers: a record whose read had ended before the read of an earlier one began is out of order.
        n = [0] * self.readers
        begin, at, ended = {}, {}, {}
        nulls = 0
        for p, ln in enumerate(lines):
            f = ln.split(" ")
            if f[0] == "rs":
                begin[f[1]] = p
            elif f[0] == "re" and not self.multi:
                m = int(f[1])
                if n[m] >= len(per[m]):
                    return "stray event %r" % ln
                k = per[m][n[m]]
                n[m] += 1
                at[k], ended[k] = begin[f[1]], p
            elif f[0] == "rn":
                nulls += 1
                if any(f2.startswith("re %s" % f[1]) and f2 == "re %s" % f[1] for f2 in lines[p:]):
                    return "a reader received a line after ()"
        if nulls != self.readers:
            return "%d of %d readers received ()" % (nulls, self.readers)
        for t in range(self.writers):
            for i in range(self.per - 1):
                a, b = (t, i), (t, i + 1)
                if a in at and b in at and ended[b] < at[a]:
                    return "record %r was received before %r" % (b, a)
        return None


def one(ctx, k):
    c = Case(ctx, k)
    text = c.source()
    d = ctx.mkdir("pp")
    race = k % 10 == 3
    env = ctx.env(GOMAXPROCS=str(c.r.choice([1, 2, 4, 8])))
    if race:
        env["GORACE"] = "halt_on_error=0 exitcode=0 log_path=%s/race" % d
    stdin = b""
    if c.shape == "stdin":
        for kk in sorted(c.of):
            c.how[kk] = "line" if c.style != "list" else "list"
            stdin += ((c.record(*kk) if c.how[kk] == "line" else "$'%d %d' %s" % (kk[0], kk[1], lit.dq(c.pool[c.of[kk]]))) + "\n").encode()
    r = ctx.script(text, cwd=d, env=env, race=race, timeout=90, stdin=stdin)
    try:
        with open(os.path.join(d, "events"), errors="replace") as f:
            log = f.read()
    except OSError:
        log = ""
    what = None
    if r.crashed or r.timeout or r.rc != 0 or (r.err and c.shape != "stderr"):
        what = "a program whose tasks share a stream (%s) %s" % (
            c.shape, "crashed: " + r.crashed if r.crashed else "never ended" if r.timeout else "failed: " + r.err[-300:].decode("utf-8", "replace"))
    what = what or c.judge(d, r, log)
    if race and not what:
        for b in races.reports(d):
            if "/type/pipe." in b:
                what = "data race in the use of a pipe"
                text += b
    if what:
        ctx.violation("%s (%s, %d writers of %d records, %d readers)" % (what, c.shape, c.writers, c.per, c.readers), "%s\nlog:\n%s\n%s" % (text[:200000], log[-20000:], r.brief(3000)))
        return
    ctx.cover((c.shape, log if not c.outside else r.out[:2000000] or k), "%s, %d writers of %d records, %d readers, sizes %s" % (
        c.shape, c.writers, c.per, c.readers, sorted(len(s) for s in c.pool)), nontrivial=c.writers > 1 or c.readers > 1)
    ctx.count("records", len(c.of))
    ctx.count("records longer than a pipe holds", sum(1 for k in c.of if len(c.pool[c.of[k]]) > 65535))
    ctx.count("shape " + c.shape)
    if race:
        ctx.count("on the race-detector build")
    ctx.rmdir(d)


def check(ctx):
    ctx.ohrace
    ctx.pmap(lambda k: one(ctx, k), range(ctx.n(400, 10000)))
