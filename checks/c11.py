"""C11: exceptions."""
import os, random
import model
from model import NIL

RULE = ("A case is one event logged by a random program that throws, and fails, in nested methods, blocks, branches, loops, redirections, pipelines, captures and tasks under handlers that return, fall through, throw, "
        "fail or call what throws. The same programs are run by a reference interpreter and the events, what was written to every stream, and what was reported are compared, so that an event too many "
        "(something evaluated after a failure), one too few, or one in another place shows. Non-trivial: an exception was thrown before; distinct by event.")
ASSUMPTIONS = ["the text of the message of a runtime error is not compared", "no handler that encloses code run by another task returns from outside of what that task runs, unless the task is spawned by the program"]

FILES = ["f1", "f2"]


class Gen:
    def __init__(self, r):
        self.r, self.n, self.tag = r, 0, 0
        self.helpers = []
        self.depth = 0

    def num(self):
        self.n += 1
        return self.n

    def t(self):
        self.tag += 1
        return self.tag

    def ev(self, *a):
        return ("ev", self.t(), list(a))

    def fail(self):
        """A command that fails."""
        r = self.r
        k = r.choice(["throw", "throw", "throw", "undef", "set", "prim", "cmd", "list", "helper", "arg", "deep"])
        if k == "throw":
            return ("throw", r.choice([("k", "x%d" % self.num()), ("k", self.num()), ("interp", ["x%d " % self.num(), "y"])]))
        if k == "undef":
            return ("ev", self.t(), [("v", "undefined%d" % self.num())])
        if k == "set":
            return ("set", "undefined%d" % self.num(), ("k", 1))
        if k == "prim":
            return ("ev", self.t(), [("add", ("k", 1), ("k", "notanumber"))])
        if k == "cmd":
            return ("do", ("app", ("n", "nosuchcommand%d" % self.num()), [("k", 1)]))
        if k == "list":
            return ("ev", self.t(), [("head", ("len", ("k", NIL)))]) if False else ("ev", self.t(), [("add", ("list", [("k", 1)]), ("k", 1))])
        if k == "arg":
            # The arguments evaluated before, but not those after.
            return ("do", ("app", ("n", "three"), [("app", ("n", "note"), [("k", self.num())]), ("app", ("n", "thrower"), [("k", "x%d" % self.num())]), ("app", ("n", "note"), [("k", self.num())])]))
        if k == "helper":
            return ("do", ("app", ("n", "thrower"), [("k", "h%d" % self.num())]))
        return ("do", ("app", ("n", "deep"), [("k", self.r.randint(1, 6)), ("k", "d%d" % self.num())]))

    def maybe(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return [self.ev(("v", "a"), ("v", "b"))]
        if k < 0.65:
            return [("say", self.t(), [("v", "a")])]
        if k < 0.8:
            return [("set", r.choice(["a", "b"]), ("k", self.num()))]
        return [("define", "a", ("k", self.num()))]

    def clause(self, depth):
        """What a handler does."""
        r = self.r
        o = [self.ev(("k", "handler"), ("v", "ex"), ("v", "a"))]
        if r.random() < 0.3:
            o += self.maybe()
        if depth > 0 and r.random() < 0.25:
            o += [self.guarded(depth - 1)]
        k = r.random()
        if k < 0.5:
            o.append(("return", ("k", self.num())))
        elif k < 0.58:
            o.append(("if", ("v", "flag"), [("return", ("k", self.num()))], None))
        elif k < 0.7:
            o.append(("throw", ("interp", ["again-", ("ex",)])))
        elif k < 0.76:
            o.append(self.fail())
            o.append(self.ev(("k", "not-here")))
        elif k < 0.82:
            o.append(("do", ("app", ("n", "thrower"), [("k", "from-handler")])))
        return o

    def catch(self, depth):
        return ("catch", "ex", self.clause(depth) if self.r.random() < 0.93 else [])

    def guarded(self, depth):
        """A method with a handler, called."""
        r = self.r
        g = "g%d" % self.num()
        b = []
        if r.random() < 0.5:
            b += self.maybe()
        if r.random() < 0.15:
            b += self.body(depth - 1, 2)
        b.append(self.catch(depth - 1))
        if r.random() < 0.15:
            b.append(self.catch(depth - 1))
        b += self.body(depth - 1, r.randint(1, 4))
        b.append(("return", ("k", self.num())))
        call = [self.ev(("app", ("n", g), []))] if r.random() < 0.7 else [("do", ("app", ("n", g), []))]
        if r.random() < 0.15:
            i = "i%d" % self.num()
            call = [("define", i, ("k", 0)), ("while", ("lt", ("v", i), ("k", r.choice([2, 3, 10]))), [("set", i, ("add", ("v", i), ("k", 1)))] + call)]
        return ("block", [("method", g, [], None, b)] + call)

    def body(self, depth, n):
        r = self.r
        o = []
        for _ in range(n):
            k = r.random()
            if k < 0.35 or depth <= 0:
                o += self.maybe()
            elif k < 0.47:
                o.append(self.fail())
            elif k < 0.62:
                o.append(self.guarded(depth - 1))
            else:
                o += self.inside(depth)
        return o

    def inside(self, depth):
        r = self.r
        k = r.choice(["block", "block", "if", "while", "for", "redir", "left", "right", "capture", "task", "method", "outer", "object", "call", "value", "inner"])
        b = self.body(depth - 1, r.randint(1, 4))
        if k == "block":
            return [("block", ([self.catch(depth - 1)] if r.random() < 0.25 else []) + b), self.ev(("v", "a"))]
        if k == "if":
            return [("if", r.choice([("v", "flag"), ("k", NIL), ("app", ("n", "note"), [("k", 1)])]), b, self.body(depth - 1, 2))]
        if k == "while":
            i = "i%d" % self.num()
            return [("define", i, ("k", 0)), ("while", ("lt", ("v", i), ("k", r.randint(1, 4))), [("set", i, ("add", ("v", i), ("k", 1)))] + b)]
        if k == "for":
            return [("for", ("list", [("k", self.num()) for _ in range(r.randint(1, 3))]), ("lam", ["a"], None, b + [self.ev(("v", "a"))]))]
        if k in ("redir", "left", "right", "capture"):
            return [("wrap", k, b, r.choice(FILES) if k == "redir" else "l%d" % self.num() if k == "left" else None if k == "right" else "discard"), ("say", self.t(), [("v", "a"), ("v", "b")])]
        if k == "task":
            return [("task", b), self.ev(("v", "a"))]
        if k == "object":
            o = "o%d" % self.num()
            return [("define", o, ("object", [("define", "p", ("k", self.num())), ("method", "run", [], None, b + [("return", ("v", "p"))], "export")])), self.ev(("mem", ("v", o), "run", []))]
        if k == "value":
            return [("define", "a", ("block", b + [("do", ("list", [("k", 1)]))])), self.ev(("v", "a"))]
        if k == "inner":
            # Code inside the method with the handler, called from another with a handler of its own.
            f = "f%d" % self.num()
            return [("method", f, [], None, b + [("return", ("k", self.num()))]),
                    ("method", f + "-caller", [], None, [self.catch(0), ("do", ("app", ("n", f), [])), self.ev(("k", "after")), ("return", ("k", 0))]), self.ev(("app", ("n", f + "-caller"), []))]
        m = "m%d-%s" % (self.num(), k)
        n = r.randint(0, 2)
        return [("method", m, ["a", "b"][:n], None, b + [("return", ("k", self.num()))]), self.ev(("app", ("n", m), [("k", self.num()) for _ in range(n)]))]

    def program(self):
        r = self.r
        o = [("define", "a", ("k", 1)), ("define", "b", ("k", 2)), ("define", "flag", ("k", r.choice([NIL, "true"]))),
             ("method", "note", ["x"], None, [("ev", "note", [("v", "x")]), ("return", ("v", "x"))]),
             ("method", "three", ["x", "y", "z"], None, [("ev", "three", []), ("return", ("k", 3))]),
             ("method", "thrower", ["x"], None, [("block", [("if", ("lt", ("k", 1), ("k", 2)), [("throw", ("v", "x"))], None), ("ev", "past", [])]), ("ev", "past", []), ("return", ("k", 0))]),
             ("method", "deep", ["n", "x"], None, [("if", ("lt", ("v", "n"), ("k", 1)), [("throw", ("v", "x"))], None), ("do", ("app", ("n", "deep"), [("add", ("v", "n"), ("k", -1)), ("v", "x")])), ("ev", "past", []), ("return", ("k", 0))])]
        for _ in range(r.randint(2, 5)):
            o.append(self.guarded(5) if r.random() < 0.9 else ("task", [self.guarded(4), self.fail()]))
        if r.random() < 0.2:
            o += self.body(2, 3)
        o.append(self.ev(("v", "a"), ("v", "b")))
        return o


def hang(ctx):
    """An exception in a task a pipeline started, whose handler is the one of code outside of the pipeline."""
    text = ("define m: method () {\n    catch ex {\n        return 5\n    }\n    define inner: method () {\n        throw x\n    }\n"
            "    inner | cat\n    return 6\n}\nwrite-line (m)\n")
    r = ctx.script(text, timeout=6)
    ctx.cover(("known", "left"))
    if r.timeout or r.out != b"5\n":
        ctx.violation("an exception raised on the left of a pipeline, in a method enclosed by a handler outside of the pipeline: %s" % ("oh never ends" if r.timeout else r.brief()), text + r.brief(),
                      signature="handler-outside-of-left-hangs" if r.timeout and not r.crashed else None)


def check(ctx):
    def one(i):
        seed = "%s/11/%d" % (ctx.seed, i)
        r = random.Random(seed)
        for attempt in range(60):
            body = Gen(r).program()
            root = ctx.mkdir()
            try:
                res = model.compare(ctx, body, root, limit=20000)
            except RecursionError:
                res = None
            ctx.rmdir(root)
            if res is not None and res[0].counts.get("throws"):
                break
            ctx.count("programs discarded")
        else:
            return
        m, bad, text, rr = res
        thrown = False
        for l in m.log:
            thrown = thrown or "handler" in l
            ctx.cover(l[:40], nontrivial=thrown)
        ctx.count("programs")
        ctx.count("events compared", len(m.log) + sum(len(v) for v in m.out.values()))
        ctx.count("uncaught exceptions reported", len(m.errors))
        for k, v in m.counts.items():
            ctx.count(k, v)
        if i < 2:
            ctx.cover(n=0, sample=text[:1500])
        if bad:
            ctx.violation(bad, "case %s\n%s\n%s\n%s\nexpected:\n%s" % (seed, bad, text, rr.brief(2000), "\n".join(m.log[:200])))
    hang(ctx)
    ctx.pmap(one, range(ctx.n(1500, 30000)))
