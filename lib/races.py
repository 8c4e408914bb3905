"""Reports of the race detector, read from the files it logs to."""
import os, re


def reports(d, prefix="race."):
    """Every report in the logs in directory d, as a string."""
    out = []
    for n in sorted(os.listdir(d)):
        if n.startswith(prefix):
            t = open(os.path.join(d, n), errors="replace").read()
            for b in t.split("=================="):
                if "DATA RACE" in b:
                    out.append(b.strip("\n"))
    return out


def accesses(report):
    """The two access stacks of a report, each as a list of function names."""
    out = []
    cur = None
    for line in report.split("\n"):
        if re.match(r"(Previous )?([Aa]tomic )?([Rr]ead|[Ww]rite) at ", line) or \
           re.match(r"(Previous|Atomic|Read|Write|atomic).*\bat 0x", line):
            cur = []
            out.append(cur)
        elif line.startswith("Goroutine") or not line.strip():
            cur = None
        elif cur is not None and line.startswith("  ") and not line.startswith("   "):
            cur.append(re.sub(r"\([^()]*\)$", "", line.strip()))
    return out


def close_and_send(report):
    """Whether the report is of a channel closed while being sent to.

    The runtime asks for such a report, but the two are synchronised by the
    channel's own lock: the sender is told that the channel was closed.
    """
    tops = sorted(x[0] for x in accesses(report) if x)
    return tops == ["runtime.chansend", "runtime.closechan"]
