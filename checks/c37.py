"""C37: files a program opens, their modes, and the commands that find files."""
import os, random, stat
import lit

RULE = ("A case is one step of a program that opens files in random modes (as random names, in random states) and reads, writes, misuses and closes them, sets and asks for the mask, creates files by way of a command, asks whether files exist, finds a directory with ..., sources a file by way of OHPATH or makes fifos. "
        "A log of what it read and found, the bytes and modes of all files afterwards and the fifos made are compared with a model. Distinct by command, arguments and state of the file.")
ASSUMPTIONS = ["a file is read from its start to its end, or only written, between being opened and closed (where in the file a descriptor is in between is not specified)", "modes name at least one of r, w and a",
               "paths are compared after removing /./"]
FNAMES = ["f", "g.txt", "h h", "sub/k", "*", "[q]"]


def files(ctx, k):
    r = random.Random("%s/c37/%d" % (ctx.seed, k))
    d = ctx.mkdir()
    top = os.path.join(d, "t")
    os.makedirs(os.path.join(top, "sub", "deep", "er"))
    os.makedirs(os.path.join(top, "lib1"))
    os.makedirs(os.path.join(top, "lib2", "inner"))
    have, modes, o, ev, kinds = {}, {}, ["define log: open a %s" % lit.q(os.path.join(d, "ev"))], [], []
    o.append("define tried: method (m) {\ncatch ex {\nlog write-line raised\nreturn ()\n}\nm\n}")
    for f in FNAMES:
        if r.random() < 0.4:
            have[f] = "".join("%s old %d\n" % (f, i) for i in range(r.randint(0, 5)))
            with open(os.path.join(top, f), "w") as h:
                h.write(have[f])
            os.chmod(os.path.join(top, f), 0o644)
            modes[f] = 0o644
    lib = {}
    for p in ("lib1", "lib2"):
        for n in ("one.oh", "two.oh", "three"):
            if r.random() < 0.5:
                with open(os.path.join(top, p, n), "w") as h:
                    h.write("log write-line 'from %s %s'\ndefine here-%s %s\n" % (p, n, n[:3], p))
                lib.setdefault(n, p)
    if r.random() < 0.3:
        with open(os.path.join(top, "two.oh"), "w") as h:
            h.write("log write-line 'from . two.oh'\ndefine here-two .\n")
        lib["two.oh"] = "."
    os.symlink("lib1", os.path.join(top, "to-lib"))
    os.symlink("nowhere", os.path.join(top, "dangling"))
    mask = 0o022
    os.chmod(top, 0o755)
    for i in range(r.randint(4, 14)):
        k2 = r.random()
        if k2 < 0.12:
            m = r.choice([0o077, 0o027, 0o002, 0o111, 0o777, 0o022, 0o600, 0])
            o.append("log write-line (umask %s)" % r.choice(["0o%o" % m, "%d" % m, "(number %d)" % m]))
            ev.append("0o%o" % mask)
            mask = m
            o.append("log write-line (umask)")
            ev.append("0o%o" % mask)
            kinds.append(("umask", m))
        elif k2 < 0.2:
            f = "ext%d" % i
            o.append("touch %s" % f)
            have[f], modes[f] = "", 0o666 & ~mask
            kinds.append(("touch", mask))
        elif k2 < 0.3:
            names = r.sample(FNAMES + ["nosuch", "sub", "no/such", "/dev/null", "to-lib", "dangling"], r.choice([0, 1, 1, 2, 3]))
            ign = r.random() < 0.4
            o.append("if (exists %s%s) {\nlog write-line yes\n} else {\nlog write-line no\n}" % ("-i " * ign, " ".join(r.choice([lit.q(n), lit.q("./" + n), lit.q(os.path.join(top, n))]) if n[0] != "/" else n for n in names)))
            ok = bool(names) and all(n in have or n in ("sub", "to-lib") or n == "/dev/null" and not ign for n in names)
            ev.append("yes" if ok else "no")
            kinds.append(("exists", len(names), ign, ok))
        elif k2 < 0.42:
            at = r.choice(["sub", "sub/deep", "sub/deep/er", ".", "no/dir"])
            base = r.choice(["lib1", "k", "lib2/inner", "deep", "nosuch-base-q", "er"])
            a = r.choice([at, os.path.join(top, at), "./" + at])
            found = None
            x = os.path.normpath(os.path.join(top, at))
            if at != "no/dir":
                while x != "/":
                    if os.path.isdir(os.path.join(x, base)) or os.path.relpath(os.path.join(x, base), top) in have:
                        found = os.path.join(x, base)
                        break
                    x = os.path.dirname(x)
            o.append("log write-line (... %s %s)\nlog write-line $PWD" % (lit.q(a), lit.q(base)))
            ev += [found or base, top]
            kinds.append(("...", at, base, found is not None))
        elif k2 < 0.52:
            n = r.choice(["one.oh", "two.oh", "three", "nosuch.oh"])
            paths = r.choice([["lib1", "lib2"], ["lib2", "lib1"], ["nosuch", "lib2"], ["lib1"]])
            got = "." if lib.get(n) == "." else next((p for p in paths if os.path.exists(os.path.join(top, p, n))), None)
            o.append("tried (method () {\nexport OHPATH %s\nsource %s\nlog write-line $here-%s\n})" % (lit.q(":".join(r.choice([p, os.path.join(top, p)]) for p in paths)), lit.q(n), n[:3]))
            ev += ["from %s %s" % (got, n), got] if got else ["raised"]
            kinds.append(("source", n, tuple(paths), got))
        else:
            f = r.choice(FNAMES)
            cs = list(r.choice(["r", "r", "r-", "w", "w-", "a", "a-", "rw", "ra", "ra-", "rw-", "wa", "wa-"]))
            r.shuffle(cs)
            mode = "".join(cs)
            missing = f not in have
            state = "missing" if missing else "empty" if not have[f] else "full"
            reading = "r" in mode
            writing = "w" in mode or "a" in mode
            kinds.append(("open", mode, state))
            if missing and "-" in mode:
                o.append("tried (method () {\nopen %s %s\nlog write-line opened\n})" % (mode, lit.q(f)))
                ev.append("raised")
                continue
            if missing:
                have[f], modes[f] = "", 0o666 & ~mask
            if "w" in mode and "a" not in mode:
                have[f] = ""
            o.append("define h%d: open %s %s" % (i, mode, r.choice([lit.q(f), lit.q("./" + f), lit.q(os.path.join(top, f))])))
            do = r.choice(["read", "write", "both", "wrong", "none"])
            if do in ("read", "both") and reading:
                o.append("define l%d ()\nwhile (set l%d: h%d read-line) {\nlog write-line $l%d\n}\nlog write-line end" % (i, i, i, i))
                ev += have[f].split("\n")[:-1] + ["end"]
            if do in ("write", "both") and writing:
                for j in range(r.randint(1, 3)):
                    t = "%d line %d" % (i, j)
                    o.append("h%d write-line '%s'" % (i, t))
                    have[f] += t + "\n"
                    if "a" in mode and r.random() < 0.3:
                        o.append("sh -c 'echo other >> \"$1\"' sh %s" % lit.q(f if not f.startswith("-") else "./" + f))
                        have[f] += "other\n"
            if do == "wrong" and not writing:
                o.append("tried (method () {\nh%d write-line no\nlog write-line written\n})" % i)
                ev.append("raised")
            if do == "wrong" and not reading:
                o.append("if (h%d read-line) {\nlog write-line got\n} else {\nlog write-line nothing\n}" % i)
                ev.append("nothing")
            o.append("h%d close" % i)
            if r.random() < 0.3:
                o.append("tried (method () {\nh%d write-line no\nlog write-line written\n})" % i)
                ev.append("raised")
    # Names for fifos, all different and only in TMPDIR.
    nf = r.choice([0, 0, 2, 5])
    o += ["define fifo%d: temp-fifo\nif (test -p $fifo%d) {\nlog write-line fifo\n}" % (i, i) for i in range(nf)]
    ev += ["fifo"] * nf
    tmp = os.path.join(d, "tmp")
    os.makedirs(tmp)
    with open(os.path.join(d, "p.oh"), "w") as h:
        h.write("\n".join(o) + "\n")
    res = ctx.run([os.path.join(d, "p.oh")], cwd=top, env=ctx.env(TMPDIR=tmp), timeout=60)
    why = "crashed" if res.crashed else "never ended" if res.timeout else None
    if not why:
        with open(os.path.join(d, "ev")) as h:
            got = [x.replace("/./", "/") for x in h.read().split("\n")[:-1]]
        if got != ev:
            i = next((i for i, (a, b) in enumerate(zip(got, ev)) if a != b), min(len(got), len(ev)))
            why = "entry %d of the log is %r and not %r" % (i, got[i] if i < len(got) else None, ev[i] if i < len(ev) else None)
    if not why:
        for f, t in have.items():
            with open(os.path.join(top, f)) as h:
                x = h.read()
            m = stat.S_IMODE(os.stat(os.path.join(top, f)).st_mode)
            if x != t:
                why = "%s contains %r and not %r" % (f, x, t)
            elif m != modes[f]:
                why = "%s has mode %o and not %o" % (f, m, modes[f])
        for f in FNAMES:
            if f not in have and os.path.lexists(os.path.join(top, f)):
                why = "%s was created" % f
        if len(os.listdir(tmp)) != nf:
            why = "%d fifos were made and not %d" % (len(os.listdir(tmp)), nf)
    if why:
        ctx.violation(why, "\n".join(o) + "\n\nexpected log:\n%s\n%s" % ("\n".join(ev), res.brief(3000)))
        return
    for x in kinds:
        ctx.cover(x)
        ctx.count("steps with %s" % x[0])
    ctx.rmdir(d)


def check(ctx):
    os.umask(0o022)
    ctx.pmap(lambda k: files(ctx, k), range(ctx.n(600, 10000)))
