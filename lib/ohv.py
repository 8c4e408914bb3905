"""Shared machinery: building oh from /repo's working tree, running it under
monitors, recording coverage, reporting violations and writing evidence."""
import collections, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = max(2, min(8, os.cpu_count() or 4))
GOENV = {
    "HOME": "/root",
    "PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off",
    "GOENV": "off", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
    "LANG": "C", "LC_ALL": "C", "TZ": "UTC",
}
BASE_PATH = "/usr/local/bin:/usr/bin:/bin"
STREAM_LIMIT = 64 << 20


class Result:
    """The outcome of one monitored execution."""
    __slots__ = ("rc", "out", "err", "timeout", "wall", "cpu", "states", "maxrss", "case")

    def __init__(self):
        self.rc = None
        self.out = self.err = b""
        self.timeout = False
        self.wall = self.cpu = 0.0
        self.states = ""
        self.maxrss = 0

    @property
    def crashed(self):
        # On a timeout the dump of the goroutines was asked for.
        err = self.err.split(b"SIGQUIT: quit")[0] if self.timeout else self.err
        return crash_text(err) or crash_text(self.out)

    def text(self):
        return self.out.decode("utf-8", "surrogateescape")

    def brief(self, n=600):
        if self.timeout:
            n = 60000
        def cut(b):
            s = b.decode("utf-8", "backslashreplace")
            return s if len(s) <= n else s[:n // 2] + "...[%d bytes]..." % len(b) + s[-n // 2:]
        return "rc=%s timeout=%s states=%s\nstdout: %s\nstderr: %s" % (
            self.rc, self.timeout, self.states, cut(self.out), cut(self.err))


def crash_text(b):
    """The Go runtime's own fault reports. A recovered panic does not look like this."""
    for pat in (rb"^panic: ", rb"^fatal error: ", rb"^goroutine \d+ \[", rb"^SIG[A-Z]+: ", rb"unexpected fault address"):
        m = re.search(pat, b, re.M)
        if m:
            return b[m.start():m.start() + 300].decode("utf-8", "replace")
    return None


def thread_states(pid):
    s = ""
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            with open("/proc/%d/task/%s/stat" % (pid, t)) as f:
                s += f.read().rsplit(")", 1)[1].split()[0]
    except OSError:
        pass
    return s


def proc_cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            v = f.read().rsplit(")", 1)[1].split()
        return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


class Ctx:
    def __init__(self, id):
        self.id = id
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (id, self.seed))
        self.scratch = tempfile.mkdtemp(prefix="ohv-%s-" % id.lower(), dir=os.environ.get("VERIF_TMP", "/tmp"))
        os.chmod(self.scratch, 0o755)
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = collections.Counter()
        self.violations = []
        self.assumptions = []
        self.rule = ""
        self._bin = {}
        self._n = 0
        self.known = load_known(id)
        self.known_seen = {}
        self.home = os.path.join(self.scratch, "home")
        os.mkdir(self.home)

    # --- sizes -----------------------------------------------------------
    def n(self, quick, thorough=None):
        if self.tier == "quick":
            return quick
        return thorough if thorough is not None else quick * 20

    # --- building --------------------------------------------------------
    def build(self, race=False, probe=None):
        """Build oh, with the race detector, or with a Go file of lib compiled into it."""
        key = probe or ("race" if race else "plain")
        with self.lock:
            if key in self._bin:
                return self._bin[key]
            env = dict(GOENV)
            gocache = "/root/.cache/go-build"
            try:
                os.makedirs(gocache, exist_ok=True)
                t = tempfile.TemporaryFile(dir=gocache)
                t.close()
            except OSError:
                gocache = os.path.join(self.scratch, "gocache")
            env["GOCACHE"] = gocache
            d = os.path.join(self.scratch, "bin-" + key)
            os.makedirs(d, exist_ok=True)
            out = os.path.join(d, "oh")
            if probe:
                j = os.path.join(d, "overlay.json")
                with open(j, "w") as f:
                    json.dump({"Replace": {os.path.join(REPO, "zz_verif_%s" % probe): os.path.join(VERIF, "lib", probe)}}, f)
            cmd = ["go", "build"] + (["-race"] if race else []) + (["-overlay", j] if probe else []) + ["-buildvcs=false", "-o", out, "."]
            p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if p.returncode != 0:
                raise RuntimeError("build failed:\n" + p.stdout.decode("utf-8", "replace"))
            self._bin[key] = out
            return out

    @property
    def oh(self):
        return self.build(False)

    @property
    def ohrace(self):
        return self.build(True)

    # --- running ---------------------------------------------------------
    def mkdir(self, name=None):
        with self.lock:
            self._n += 1
            d = os.path.join(self.scratch, "%s%06d" % (name or "w", self._n))
        os.mkdir(d)
        return d

    def rmdir(self, d):
        assert d.startswith(self.scratch + "/")
        shutil.rmtree(d, ignore_errors=True)

    def env(self, **kw):
        e = {"PATH": BASE_PATH, "HOME": self.home, "USER": "u", "LANG": "C", "LC_ALL": "C", "TZ": "UTC"}
        e.update(kw)
        return {k: v for k, v in e.items() if v is not None}

    def run(self, argv, cwd=None, env=None, stdin=b"", timeout=60, race=False, oh=None):
        """Run oh with arguments argv, in its own session, capturing its output."""
        exe = oh or (self.ohrace if race else self.oh)
        r = Result()
        e = env if env is not None else self.env()
        tmp = None
        if cwd is None:
            tmp = cwd = self.mkdir()
        fo = tempfile.TemporaryFile(dir=self.scratch)
        fe = tempfile.TemporaryFile(dir=self.scratch)
        t0 = time.time()
        p = subprocess.Popen([exe] + list(argv), cwd=cwd, env=e, stdout=fo, stderr=fe,
                             stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             start_new_session=True)
        try:
            if stdin is not None:
                def feed():
                    try:
                        if stdin:
                            p.stdin.write(stdin)
                        p.stdin.close()
                    except OSError:
                        pass
                if len(stdin) > 30000:
                    threading.Thread(target=feed, daemon=True).start()
                else:
                    feed()
            end = t0 + timeout
            while True:
                try:
                    p.wait(timeout=min(2.0, max(0.01, end - time.time())))
                    break
                except subprocess.TimeoutExpired:
                    if time.time() >= end:
                        r.timeout = True
                        r.states = thread_states(p.pid)
                        r.cpu = proc_cpu(p.pid)
                        break
                    # A runaway process must not take the machine with it.
                    if rss_mb(p.pid) > 6000 or os.fstat(fo.fileno()).st_size > STREAM_LIMIT:
                        r.timeout = True
                        r.states = "runaway"
                        break
        finally:
            if r.timeout and r.states != "runaway":
                # The Go runtime's dump of what every goroutine waits for goes to stderr.
                try:
                    os.kill(p.pid, signal.SIGQUIT)
                    p.wait(timeout=3)
                except (OSError, subprocess.TimeoutExpired):
                    pass
            killsession(p.pid)
            rc = p.wait()
            if not r.timeout:
                r.rc = rc
        r.wall = time.time() - t0
        for f, a in ((fo, "out"), (fe, "err")):
            f.seek(0)
            setattr(r, a, f.read(STREAM_LIMIT))
            f.close()
        if tmp:
            self.rmdir(tmp)
        return r

    def script(self, text, args=(), cwd=None, name="t.oh", **kw):
        """Run oh on a script with the given text."""
        tmp = None
        if cwd is None:
            tmp = cwd = self.mkdir()
        path = os.path.join(cwd, name)
        with open(path, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape"))
        r = self.run([path] + list(args), cwd=cwd, **kw)
        if tmp:
            self.rmdir(tmp)
        return r

    def c(self, text, args=(), **kw):
        return self.run(["-c", text] + list(args), **kw)

    def pmap(self, fn, items, workers=None):
        """Map in parallel; stops early once there are plenty of violations."""
        items = list(items)
        if not items:
            return []
        # Make sure that binaries are built before starting.
        self.oh

        def w(x):
            if len(self.violations) >= 5:
                return None
            return fn(x)
        with ThreadPoolExecutor(workers or NPROC) as ex:
            return list(ex.map(w, items))

    # --- recording -------------------------------------------------------
    def cover(self, key=None, sample=None, n=1, nontrivial=True):
        with self.lock:
            self.evaluations += n
            if nontrivial and key is not None:
                self.distinct.add(hashlib.blake2b(repr(key).encode("utf-8", "backslashreplace"), digest_size=8).digest())
            if sample is not None and len(self.samples) < 5:
                s = sample if isinstance(sample, str) else repr(sample)
                self.samples.append(s[:1500])

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] += n

    def count_max(self, name, n):
        with self.lock:
            self.counters[name] = max(self.counters[name], n)

    def violation(self, what, replay, signature=None):
        """Report that the property does not hold: replay is text to reproduce it."""
        with self.lock:
            for k in self.known:
                if signature is not None and k["signature"] == signature:
                    self.known_seen[signature] = what
                    return
            if len(self.violations) >= 8:
                return
            n = len(self.violations)
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.txt" % (self.id, n))
            with open(path, "w", errors="backslashreplace") as f:
                f.write("property %s seed %d tier %s\n%s\n\n%s\n" % (self.id, self.seed, self.tier, what, replay))
            self.violations.append((what, path))
            print("VIOLATION property=%s replay=%s" % (self.id, path), flush=True)
            sys.stdout.write("  " + what[:1000].replace("\n", "\n  ") + "\n")
            sys.stdout.flush()

    # --- finishing -------------------------------------------------------
    def close(self):
        for _ in range(3):
            shutil.rmtree(self.scratch, ignore_errors=True)
            if not os.path.exists(self.scratch):
                break
            subprocess.run(["chmod", "-R", "u+rwx", self.scratch], stderr=subprocess.DEVNULL)

    def evidence(self):
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples, observed=dict(sorted(self.counters.items())))
        d = dict(property=self.id, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.id + ".json")
        with open(path + ".tmp", "w", errors="backslashreplace") as f:
            json.dump(d, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)


def rss_mb(pid):
    try:
        with open("/proc/%d/statm" % pid) as f:
            return int(f.read().split()[1]) * 4096 >> 20
    except (OSError, IndexError, ValueError):
        return 0


def session_pids(sid):
    res = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    v = f.read().rsplit(")", 1)[1].split()
                if int(v[3]) == sid:
                    res.append((int(d), v[0]))
            except (OSError, IndexError, ValueError):
                pass
    return res


def killsession(sid):
    """Kill everything that is left of the session started for a run."""
    for _ in range(20):
        ps = [p for p, st in session_pids(sid) if st != "Z" or p == sid]
        ps = [p for p in ps if not (p == sid and thread_states(p) in ("Z", ""))]
        if not ps:
            return
        for p in ps:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        time.sleep(0.01)


def load_known(id):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == id and k["status"] == "open"]


def run_check(id, mod):
    ctx = Ctx(id)
    rc = 2
    try:
        try:
            ctx.rule = getattr(mod, "RULE", "")
            ctx.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
            mod.check(ctx)
            rc = 1 if ctx.violations else 0
            if rc == 0 and len(ctx.distinct) < getattr(mod, "MINIMUM", 20):
                print("%s: only %d distinct cases were observed" % (id, len(ctx.distinct)))
                rc = 2
        except Exception:
            traceback.print_exc()
            rc = 1 if ctx.violations else 2
        for k in ctx.known:
            if k["signature"] in ctx.known_seen:
                print("KNOWN-FINDING: property=%s %s" % (id, k["what"]))
        ctx.evidence()
        print("%s: %s tier=%s seed=%d evaluations=%d distinct=%d violations=%d wall=%.1fs %s" % (
            id, "HELD" if rc == 0 else "NOT HELD" if rc == 1 else "ERROR", ctx.tier, ctx.seed, ctx.evaluations,
            len(ctx.distinct), len(ctx.violations), time.time() - ctx.t0, dict(ctx.counters)))
    finally:
        ctx.close()
    return rc
