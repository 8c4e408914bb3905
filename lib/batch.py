"""Evaluates many independent expressions in one oh process. Each case's
outcome is its value (V), or the exception it raised (E), decoded independently."""
import lit

PRE = """define run: method (n m) {
    catch ex {
        write $n E $ex
        return ()
    }
    write $n V (m)
}
"""


class Outcome:
    def __init__(self, kind, value, line):
        self.kind, self.value, self.line = kind, value, line

    def __repr__(self):
        return "%s %s" % (self.kind, lit.rep(self.value) if self.value is not None else self.line)


def program(bodies, pre=""):
    o = [PRE, pre]
    for i, b in enumerate(bodies):
        if isinstance(b, str):
            b = [b]
        o.append("run %d (method () {\n    %s\n})\n" % (i, "\n    ".join(b)))
    return "".join(o)


def evaluate(ctx, bodies, pre="", size=150, race=False, timeout=120, env=None, cwd=None):
    """Returns one Outcome per body (a list of source lines, the last giving the value)."""
    chunks = [(i, bodies[i:i + size]) for i in range(0, len(bodies), size)]
    results = [None] * len(bodies)

    def one(ch):
        at, bs = ch
        text = program(bs, pre)
        r = ctx.script(text, race=race, timeout=timeout, env=env, cwd=cwd, name="t%d.oh" % at)
        if r.crashed or r.timeout or r.rc not in (0,):
            ctx.violation("oh did not evaluate a list of independent expressions: %s" % (
                "crash: " + r.crashed if r.crashed else "no response" if r.timeout else "exit status %s" % r.rc),
                text + "\n" + r.brief(4000))
            return
        out = r.out.decode("utf-8", "surrogateescape")
        bad = []
        for ln in out.split("\n")[:-1]:
            n, _, rest = ln.partition(" ")
            try:
                i = int(n)
                k, _, v = rest.partition(" ")
                if k not in ("V", "E") or i >= len(bs):
                    raise ValueError
                if results[at + i] is not None:
                    raise ValueError
            except ValueError:
                bad.append(ln)
                continue
            try:
                value = lit.decode(v)
                value = value.h if isinstance(value, lit.Cons) and value.t is lit.NIL else None
            except lit.Bad:
                value = None
            results[at + i] = Outcome(k, value, ln)
        for i in range(len(bs)):
            if results[at + i] is None:
                results[at + i] = Outcome("?", None, "no result; stray output %r; stderr %r" % (bad[:3], r.err[-500:]))
    ctx.pmap(one, chunks)
    return results
