"""Drives an interactive oh on a pseudo-terminal. Each prompt carries a number so
that a new prompt can't be confused with a redraw of an old one."""
import errno, fcntl, os, pty, re, select, signal, struct, termios, time
import ohv

SETUP = [
    "define pn 0",
    "define prompt: method (suffix) {",
    "set pn: add $pn 1",
    "return \"<<${pn}${suffix}>>\"",
    "}",
]
ESCSEQ = re.compile(rb"\x1b\[[0-9;?]*[A-Za-z]|\x1b[=>]")


class Dead(Exception):
    pass


class Hang(Exception):
    pass


class Pty:
    def __init__(self, ctx, cwd, env=None, race=False, setup=True, term="xterm", args=(), timeout=40, **extra):
        self.ctx, self.timeout = ctx, timeout
        exe = ctx.ohrace if race else ctx.oh
        e = ctx.env(TERM=term, OH_HISTORY=os.path.join(cwd, ".history"), **extra)
        if env:
            e.update(env)
            e = {k: v for k, v in e.items() if v is not None}
        self.out = b""
        self.pos = 0
        self.log = []
        self.n = 0
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            try:
                os.chdir(cwd)
                # Before oh looks: it can't edit lines on a terminal with no columns.
                fcntl.ioctl(0, termios.TIOCSWINSZ, struct.pack("HHHH", 60, 4000, 0, 0))
                os.execve(exe, [exe] + list(args), e)
            finally:
                os._exit(127)
        self.status = None
        if setup:
            self.expect(rb"u@[^\n]*: ")
            for ln in SETUP[:-1]:
                self.send(ln + "\r")
            self.send(SETUP[-1] + "\r")
            self.prompt()

    def pump(self, t):
        """Read what there is for up to t seconds; False at end of file."""
        r, _, _ = select.select([self.fd], [], [], t)
        if not r:
            return True
        try:
            d = os.read(self.fd, 1 << 16)
        except OSError as e:
            if e.errno == errno.EIO:
                return False
            raise
        if not d:
            return False
        self.out += d
        return True

    def send(self, data):
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogateescape")
        self.log.append("> %r" % data)
        while data:
            r, w, _ = select.select([self.fd], [self.fd], [], self.timeout)
            if r:
                if not self.pump(0):
                    raise Dead("terminal closed while sending")
            if w:
                data = data[os.write(self.fd, data[:512]):]
            elif not r:
                raise Hang("terminal does not accept input")

    def find(self, pat):
        m = re.compile(pat, re.S).search(self.out, self.pos)
        if m:
            s = self.out[self.pos:m.end()]
            self.pos = m.end()
            return s, m
        return None

    def expect(self, pat, timeout=None):
        """Wait for pat in the output; returns what came up to its end."""
        end = time.time() + (timeout or self.timeout)
        while True:
            f = self.find(pat)
            if f:
                return f[0]
            left = end - time.time()
            if left <= 0:
                raise Hang("no %r; output since: %r" % (pat, self.out[self.pos:][-800:]))
            if not self.pump(min(left, 1)):
                f = self.find(pat)
                if f:
                    return f[0]
                raise Dead("terminal closed waiting for %r; output since: %r" % (pat, self.out[self.pos:][-800:]))

    def prompt(self, timeout=None):
        """Wait for the next prompt (numbered n+1 or more); returns the output before it."""
        while True:
            s = self.expect(rb"<<(\d+)(:?) *>>", timeout)
            m = re.compile(rb"<<(\d+)(:?) *>>\Z").search(s)
            n = int(m.group(1))
            if n > self.n:
                self.n = n
                self.continued = m.group(2) == b""
                return ESCSEQ.sub(b"", s[:m.start()])

    def line(self, text, timeout=None):
        """Enter one line, wait for the next prompt, and return what was shown."""
        self.send(text + "\r")
        return self.prompt(timeout).decode("utf-8", "replace").replace("\r", "")

    def give_up(self, text="x"):
        """Type text and then Ctrl-C at the prompt. The prompt is shown before the line
        editor takes Ctrl-C for itself; the echo of text says that it has."""
        self.send(text)
        self.expect(re.escape(text[-1:].encode()))
        self.send("\x03")
        return self.prompt()

    def settle(self, t=0.15):
        """Read until nothing has arrived for t seconds."""
        while True:
            n = len(self.out)
            if not self.pump(t) or len(self.out) == n:
                return

    def close(self, timeout=20):
        """End of file at the prompt; returns oh's exit status or None if it did not end."""
        try:
            self.send("\x04")
        except (Dead, Hang, OSError):
            pass
        return self.ended(timeout)

    def ended(self, timeout=20):
        """Wait for oh to end; returns its exit status or None."""
        try:
            end = time.time() + timeout
            while time.time() < end:
                if not self.pump(0.2):
                    break
        except (Dead, Hang, OSError):
            pass
        end = time.time() + timeout
        while time.time() < end:
            p, st = os.waitpid(self.pid, os.WNOHANG)
            if p:
                self.status = st
                break
            time.sleep(0.01)
        self.kill()
        return None if self.status is None else os.waitstatus_to_exitcode(self.status)

    def kill(self):
        if self.pid is None:
            return
        ohv.killsession(self.pid)
        if self.status is None:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                _, self.status = os.waitpid(self.pid, 0)
            except OSError:
                pass
        try:
            os.close(self.fd)
        except OSError:
            pass
        self.pid = None

    def transcript(self):
        return "input:\n%s\n\nterminal:\n%s" % ("\n".join(self.log), ESCSEQ.sub(b"", self.out).decode("utf-8", "backslashreplace").replace("\r", "")[-6000:])
