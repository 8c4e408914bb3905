"""Random job-control sessions on a pseudo-terminal, with a model of the jobs.

A job is a command entered at the prompt that goes through phases. Each phase
writes a mark when it starts and another when it ends, and ends when the file
that is its gate appears, so the model knows at any time where every job is.
"""
import os, re, signal, time
import ptydrv, tool

KINDS = ["ext", "spin", "ext-pipe", "ext-loop", "loop-ext", "wait", "chan", "each", "tty", "capture", "redirect", "substitution", "quick", "after-ext", "open", "method", "full"]
EXTERNAL = ("ext", "ext-pipe", "ext-loop", "loop-ext", "capture", "redirect", "substitution")


class Wrong(Exception):
    pass


def phase(kind, t, g, m0, m1):
    """The lines of a phase. t is its name, g its gate, m0 and m1 commands that write its marks."""
    x = "./tool ev:%s waitfile:%s ev:%s.e" % (t, g, t)
    spin = ["while (not (exists %s)) {" % g, "set spins: add $spins 1", "}"]
    if kind == "ext":
        return [x]
    if kind == "ext-pipe":
        return ["./tool ev:%s waitfile:%s say:%s ev:%s.e | ./tool copy arg j%s | ./tool sink:o%s" % (t, g, t, t, t, t)]
    if kind == "ext-loop":
        return ["./tool ev:%s waitfile:%s say:%s | while (define l: read-line) {" % (t, g, t), "write-line $l >>o%s" % t, "}", m1]
    if kind == "loop-ext":
        return ["block {", m0] + spin + ["write-line %s" % t, "} | ./tool sink:o%s" % t, m1]
    if kind == "spin":
        return [m0] + spin + ["set total: add $total 1", m1]
    if kind == "wait":
        return ["define w: spawn {", m0] + spin + ["}", "wait $w", m1]
    if kind == "chan":
        return ["define c: chan", "spawn {", "./tool ev:%s waitfile:%s" % (t, g), "c write done", "}", "c read", m1]
    if kind == "each":
        return [m0, "while (not (exists %s)) {" % g, "./tool sleep:4 arg j%s" % t, "}", m1]
    if kind == "tty":
        return [m0, "define in: read-line", "write-line $in >>o%s" % t, m1]
    if kind == "capture":
        return ["define v: capture (./tool ev:%s waitfile:%s say:out)" % (t, g), "write-line $v >>o%s" % t, m1]
    if kind == "redirect":
        return ["block {", x, "write-line %s" % t, "} > o%s" % t]
    if kind == "substitution":
        return ["./tool readn:o%s |<(./tool ev:%s waitfile:%s say:%s)" % (t, t, g, t), m1]
    if kind == "quick":
        return ["./tool exit:0", m0] + spin + [m1]
    if kind == "after-ext":
        return ["./tool say:x | ./tool copy > /dev/null", m0, "define c: chan", "spawn {"] + spin + ["c write done", "}", "c read", m1]
    if kind == "open":
        return [m0, "spawn {"] + spin + ["define o: open w f%s" % t, "o write-line %s" % t, "o close", "}", "define f: open r f%s" % t, "write-line (f read-line) >>o%s" % t, m1]
    if kind == "method":
        return ["define go: method (n) {", "if (exists %s) {" % g, "return $n", "}", "return (go (add $n 1))", "}", m0, "go 0", m1]
    if kind == "full":
        # A pipe that fills up until the process that reads it goes on.
        return ["block {", m0, "define i 0", "while (lt? $i 800) {", "set i: add $i 1", "write-line '" + "%s " % t + "x" * 150 + "'", "}", "} | ./tool waitfile:%s sink:o%s" % (g, t), m1]
    raise KeyError(kind)


class Job:
    def __init__(self, n, kinds, lines):
        self.n, self.kinds, self.lines = n, kinds, lines
        self.at = 0
        self.status = "fg"
        self.number = None
        self.expect = []  # Marks.

    def text(self, number, mark="+"):
        return "".join(("[%d]%s" % (number, mark) if i == 0 else "    ") + "\t" + l + "\n" for i, l in enumerate(self.lines))


class Session:
    def __init__(self, ctx, r, root, race=False, timeout=60, env=None):
        self.ctx, self.r, self.root = ctx, r, root
        self.ev = os.path.join(root, "ev")
        open(self.ev, "w").close()
        tool.install(ctx, root)
        self.p = ptydrv.Pty(ctx, root, env=dict({"EV": self.ev}, **(env or {})), race=race, timeout=timeout)
        self.shell = self.p.pid
        self.timeout = timeout
        self.jobs = []
        self.listed = {}
        self.keep = 0
        self.total = 0
        self.trace = []
        self.pressed = None
        for l in ("define spins 0", "define total 0", "define keep 0"):
            self.p.line(l)

    # What is observed.

    def marks(self, j):
        return [l for l in open(self.ev).read().split("\n") if l.split(".")[0] == str(j.n)]

    def await_marks(self, j, want):
        end = time.time() + self.timeout
        while True:
            m = self.marks(j)
            if m == want:
                return
            if m != want[:len(m)]:
                time.sleep(1)
                raise Wrong("job %d has done %r, and then %r, expected %r" % (j.n, m, self.marks(j), want))
            if time.time() > end:
                raise Wrong("job %d (%s, %s) has done %r; expected it to go on to %r" % (j.n, j.kinds[j.at], j.status, m, want))
            self.p.pump(0.003)

    def processes(self, j):
        """(pid, state) of the processes of a job's current phase."""
        pat = re.compile(rb"[a-z:]%d\.%d(\.e)?(\0|$)" % (j.n, j.at + 1))
        out = []
        for d in os.listdir("/proc"):
            if not d.isdigit():
                continue
            try:
                st = open("/proc/%s/stat" % d, "rb").read()
                f = st[st.rindex(b")") + 2:].split()
                if int(f[3]) != self.shell or int(d) == self.shell:
                    continue
                if pat.search(open("/proc/%s/cmdline" % d, "rb").read()):
                    out.append((int(d), f[0].decode()))
            except (OSError, ValueError, IndexError):
                pass
        return out

    def await_states(self, j, ok, what, some=False):
        end = time.time() + 20
        while True:
            ps = [(p, s) for p, s in self.processes(j) if s not in "ZX"]
            if all(s in ok for _, s in ps) and (ps or not some):
                self.ctx.count("states of processes observed", len(ps))
                return ps
            if time.time() > end:
                raise Wrong("%s: processes of job %d (%s) are in states %r" % (what, j.n, j.kinds[j.at], ps))
            time.sleep(0.003)

    def gate(self, j):
        open(os.path.join(self.root, "g%d.%d" % (j.n, j.at + 1)), "w").close()

    # What is done.

    def note(self, *a):
        self.trace.append(" ".join(map(str, a)))
        self.ctx.count(a[0])

    def ok(self):
        """The prompt works and the shell's variables are what they were."""
        p, r = self.p, self.r
        k = r.random()
        if k < 0.4:
            self.keep += 1
            p.line("set keep: add $keep 1")
        s = p.line("write-line kept $keep $total")
        if s.split("\n")[1:] != ["kept %d %d" % (self.keep, self.total), ""]:
            raise Wrong("the prompt showed %r, expected kept %d %d" % (s, self.keep, self.total))

    def start(self, kinds):
        n = len(self.jobs) + 1
        lines = []
        for i, k in enumerate(kinds):
            t = "%d.%d" % (n, i + 1)
            if k == "open":
                os.mkfifo(os.path.join(self.root, "f" + t))
            lines += phase(k, t, "g" + t, "write-line %s >>%s" % (t, "ev"), "write-line %s.e >>%s" % (t, "ev"))
        if len(lines) > 1:
            lines = ["block {"] + lines + ["}"]
            ind = self.r.choice(["", "    "])
            lines = [lines[0]] + [ind + l for l in lines[1:-1]] + [lines[-1]]
        j = Job(n, kinds, lines)
        self.jobs.append(j)
        self.note("start", n, "+".join(kinds))
        for l in lines[:-1]:
            self.p.line(l)
            if not self.p.continued:
                raise Wrong("entering job %d ended early at %r" % (n, l))
        self.p.send(lines[-1] + "\r")
        j.expect = ["%d.1" % n]
        self.await_marks(j, j.expect)
        self.settle(j)
        return j

    def settle(self, j):
        """Wait until what the phase waits for is what it will keep waiting for."""
        k = j.kinds[j.at]
        if k in EXTERNAL or k == "full":
            n = {"ext-pipe": 3, "substitution": 2}.get(k, 1)
            end = time.time() + 20
            while len(self.processes(j)) < n and time.time() < end:
                time.sleep(0.003)
            if k in ("substitution", "ext-pipe"):
                time.sleep(0.02)
        elif self.r.random() < 0.7:
            time.sleep(self.r.choice([0.001, 0.01, 0.03]))

    def finish(self, j):
        """Let the current phase end; the job goes to its next phase or ends."""
        k = j.kinds[j.at]
        self.note("go on", j.n, k, j.status)
        t = "%d.%d" % (j.n, j.at + 1)
        if k == "tty":
            self.p.send("typed %s\r" % t)
        else:
            self.gate(j)
        if k == "spin":
            self.total += 1
        j.expect.append(t + ".e")
        last = j.at + 1 == len(j.kinds)
        if not last:
            j.expect.append("%d.%d" % (j.n, j.at + 2))
        self.await_marks(j, j.expect)
        self.results(j, t, k, last)
        if last:
            if j.status == "fg":
                self.p.prompt()
            j.status = "done"
        else:
            j.at += 1
            self.settle(j)

    def results(self, j, t, k, last):
        if k in ("ext", "spin", "wait", "chan", "each", "quick", "after-ext", "method"):
            return
        want = {"tty": "typed %s\n" % t, "capture": "(out)\n", "full": ("%s " % t + "x" * 150 + "\n") * 800}.get(k, t + "\n")
        end = time.time() + 20
        while True:
            try:
                got = open(os.path.join(self.root, "o" + t)).read()
            except OSError:
                got = None
            if got == want:
                return
            if time.time() > end:
                raise Wrong("the output of phase %s (%s) is %r" % (t, k, got and got[:200]))
            self.p.pump(0.003)

    def key(self, c, j):
        """Press a key until the prompt is back. Between two processes of a loop,
        the terminal can belong to a process that has just ended."""
        self.pressed = j
        tries = 40 if j.kinds[j.at] == "each" else 1
        for i in range(tries):
            self.p.send(c)
            try:
                return self.p.prompt(0.7 if i + 1 < tries else None)
            except ptydrv.Hang:
                if i + 1 == tries:
                    raise

    def interrupt(self, j):
        self.note("interrupt", j.n, j.kinds[j.at])
        self.key("\x03", j)
        s = self.p.line("write-line status $?")
        if not s.endswith("\nstatus 130\n") and not j.resumed:
            raise Wrong("after an interrupt of %s: %r" % (j.kinds[j.at], s))
        self.await_states(j, "", "after an interrupt")
        j.status = "interrupted"
        if self.r.random() < 0.5:
            self.gate(j)

    def stop(self, j):
        self.note("stop", j.n, j.kinds[j.at])
        s = self.key("\x1a", j).decode("utf-8", "replace").replace("\r", "")
        j.number = max(self.listed, default=0) + 1
        self.listed[j.number] = j
        j.status = "stopped"
        if not s.endswith(j.text(j.number)):
            raise Wrong("stopping job %d showed %r, expected %r" % (j.n, s[-500:], j.text(j.number)))
        self.await_states(j, "Tt", "after a stop")
        if self.r.random() < 0.4 and j.kinds[j.at] != "tty":
            # Nothing goes on while it is stopped.
            self.gate(j)
            time.sleep(self.r.choice([0.01, 0.05]))
            m = self.marks(j)
            if m != j.expect:
                raise Wrong("job %d went on while it was stopped: %r" % (j.n, m))
            j.open = True

    def still(self):
        """No loop of a job that was stopped or interrupted goes on."""
        if any(j.status not in ("done", "stopped", "interrupted") for j in self.jobs):
            return
        end = time.time() + 15
        n = 0
        while True:
            a = self.p.line("write-line $spins").split("\n")[1:2]
            time.sleep(0.03)
            b = self.p.line("write-line $spins").split("\n")[1:2]
            if a == b:
                break
            n += 1
            if time.time() > end:
                raise Wrong("loops of jobs go on although all of them are %s: %r, then %r" % (", ".join(sorted({j.status for j in self.jobs})), a, b))
        self.ctx.count("times nothing went on")

    def table(self):
        """jobs lists exactly the stopped jobs."""
        self.note("jobs", len(self.listed))
        s = self.p.line("jobs")
        top = max(self.listed, default=0)
        want = "jobs\n" + "".join(j.text(n, "+" if n == top else "") for n, j in sorted(self.listed.items()))
        if s != want:
            raise Wrong("jobs showed %r, expected %r" % (s, want))
        self.ctx.count_max("jobs listed at once", len(self.listed))

    def resume(self, how, n=None):
        """fg or bg, of the job with the number n or of the most recent."""
        j = self.listed.pop(n or max(self.listed))
        cmd = how if n is None else "%s %d" % (how, n)
        self.note(how, j.n, j.kinds[j.at], "of", len(self.listed) + 1)
        j.number = None
        j.resumed = True
        shown = "".join(l + "\n" for l in j.lines)
        if how == "bg":
            j.status = "bg"
            s = self.p.line(cmd)
            if s != cmd + "\n" + shown:
                raise Wrong("%s showed %r, expected %r" % (cmd, s, shown))
        else:
            j.status = "fg"
            self.p.send(cmd + "\r")
            s = self.p.expect(re.escape(shown.replace("\n", "\r\n").encode()))
        if j.open:
            # It stopped before its gate opened.
            j.open = False
            self.finish(j)
        elif j.killed:
            j.killed = False
            last = j.at + 1 == len(j.kinds)
            if last:
                if how == "fg":
                    self.p.prompt()
                j.status = "done"
            else:
                j.at += 1
                j.expect.append("%d.%d" % (j.n, j.at + 1))
                self.await_marks(j, j.expect)
                self.settle(j)
        else:
            self.await_states(j, "RSD", "after " + how, some=j.kinds[j.at] in ("ext", "capture", "redirect"))
        return j

    def missing(self):
        n = self.r.choice([99, max(self.listed, default=0) + 1])
        cmd = self.r.choice(["fg", "bg"])
        if self.listed or self.r.random() < 0.5:
            cmd += " %d" % n
        self.note("missing", cmd)
        s = self.p.line(cmd)
        if s != cmd + "\nerror: job does not exist\n":
            raise Wrong("%s of a job that does not exist showed %r" % (cmd, s))

    def kill(self, j, sig):
        """The process of a stopped job is killed."""
        self.note("kill", j.n, sig)
        for pid, _ in self.processes(j):
            os.kill(pid, sig)
        self.await_states(j, "", "after a kill")
        j.killed = True

    def outside(self, j):
        """A process in the background is stopped, and continued, by another process."""
        self.note("stopped from outside", j.n)
        for pid, _ in self.processes(j):
            os.kill(pid, signal.SIGSTOP)
        self.await_states(j, "Tt", "after SIGSTOP", some=True)
        j.number = max(self.listed, default=0) + 1
        self.listed[j.number] = j
        j.status = "stopped"
        end = time.time() + 20
        while j.text(j.number) not in self.p.line("jobs"):
            if time.time() > end:
                raise Wrong("job %d, stopped by another process, is not listed" % j.n)
        self.table()
        if self.r.random() < 0.5:
            self.note("continued from outside", j.n)
            for pid, _ in self.processes(j):
                os.kill(pid, signal.SIGCONT)
            del self.listed[j.number]
            end = time.time() + 20
            while j.text(j.number) in self.p.line("jobs"):
                if time.time() > end:
                    raise Wrong("job %d, continued by another process, is still listed" % j.n)
            j.number, j.status, j.resumed = None, "bg", True

    def foreground(self, j):
        """Work with a job that has the terminal until the prompt is back."""
        r = self.r
        while j.status == "fg":
            k = r.random()
            if k < 0.45:
                self.finish(j)
            elif k < 0.8:
                self.stop(j)
            else:
                self.interrupt(j)

    def run(self, steps):
        r = self.r
        self.fg = None
        for _ in range(steps):
            bg = [j for j in self.jobs if j.status == "bg"]
            k = r.random()
            if k < 0.35 and len(self.listed) + len(bg) < 5:
                kinds = [r.choice(KINDS) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
                j = self.start(kinds)
                j.resumed = j.open = j.killed = False
                self.foreground(j)
            elif k < 0.6 and self.listed:
                n = r.choice([None, None] + list(self.listed))
                j = self.listed[n or max(self.listed)]
                # What reads from the terminal stays in the foreground.
                how = "fg" if "tty" in j.kinds[j.at:] else r.choice(["fg", "fg", "bg"])
                j = self.resume(how, n)
                if how == "fg":
                    self.foreground(j)
            elif k < 0.75 and bg:
                j = r.choice(bg)
                if r.random() < 0.25 and j.kinds[j.at] == "ext":
                    self.outside(j)
                else:
                    self.finish(j)
            elif k < 0.82:
                self.missing()
            elif k < 0.87 and [j for j in self.listed.values() if j.kinds[j.at] == "ext" and not j.open and not j.killed]:
                j = r.choice([j for j in self.listed.values() if j.kinds[j.at] == "ext" and not j.open and not j.killed])
                self.kill(j, signal.SIGKILL)
            elif k < 0.95:
                self.table()
            self.ok()
            if r.random() < 0.3:
                self.still()
        # Everything that was stopped goes on to its end, once.
        while self.listed:
            j = self.resume("fg", None if r.random() < 0.5 else r.choice(list(self.listed)))
            while j.status == "fg":
                self.finish(j)
        for j in self.jobs:
            while j.status == "bg":
                self.finish(j)
        self.table()
        self.ok()
        for j in self.jobs:
            m = self.marks(j)
            if m != j.expect:
                raise Wrong("job %d (%s) has done %r, expected %r" % (j.n, j.status, m, j.expect))
        for j in self.jobs:
            self.ctx.cover((j.status, j.resumed, tuple(j.kinds[:2])))
            self.ctx.count("jobs that were " + j.status)
        s = self.p.transcript()
        rc = self.p.close()
        if rc != 0:
            raise Wrong("the session ended with status %s" % rc)
        return s
