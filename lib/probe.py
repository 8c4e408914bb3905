"""The recording stand-in for external commands (see probe.c)."""
import os, subprocess


def build(ctx):
    with ctx.lock:
        p = os.path.join(ctx.scratch, "probe.bin")
        if not os.path.exists(p):
            subprocess.run(["gcc", "-O1", "-w", "-o", p, os.path.join(os.path.dirname(os.path.abspath(__file__)), "probe.c")],
                           check=True, env={"PATH": "/usr/bin:/bin", "TMPDIR": ctx.scratch})
        return p


def install(ctx, d, names=("probe",)):
    """Link the probe into directory d under the given names."""
    p = build(ctx)
    for n in names:
        os.link(p, os.path.join(d, n))


class Rec:
    def __init__(self, line):
        f = {}
        for part in line.split(b";"):
            k, *v = part.split(b" ")
            f[k.decode()] = [bytes.fromhex(x[1:].decode()).decode("utf-8", "surrogateescape") for x in v]
        self.argv = f["argv"]
        self.cwd = f["cwd"][0] if f["cwd"] else None
        self.env = f["env"]
        self.fds = {int(x.split(":", 1)[0]): x.split(":", 1)[1] for x in f["fds"]}


def read(d):
    """The records logged so far by the probes in directory d."""
    p = os.path.join(d, "log")
    if not os.path.exists(p):
        return []
    with open(p, "rb") as f:
        return [Rec(x) for x in f.read().split(b"\n")[:-1]]
