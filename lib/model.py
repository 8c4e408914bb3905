"""A reference interpreter for a core of the language, written from the
language's description: lexical scopes, frames of callers with exported names,
first-class continuations, exceptions, objects and syntaxes. Programs are
trees; the same tree is rendered as oh's source and run by the real shell."""

NIL = ()


class Scope:
    __slots__ = ("prev", "priv", "pub")

    def __init__(self, prev):
        self.prev, self.priv, self.pub = prev, {}, {}

    def lookup(self, k):
        """The scope and table with the innermost lexical definition of k."""
        s = self
        while s is not None:
            if k in s.priv:
                return s.priv
            if k in s.pub:
                return s.pub
            s = s.prev
        return None


class Frame:
    __slots__ = ("scope", "prev", "out")

    def __init__(self, scope, prev, out):
        self.scope, self.prev, self.out = scope, prev, out

    def inner(self):
        return Frame(Scope(self.scope), self.prev, self.out)

    def find(self, k):
        t = self.scope.lookup(k)
        if t is not None:
            return t
        f = self.prev
        while f is not None:
            s = f.scope
            while s is not None:
                if k in s.pub:
                    return s.pub
                s = s.prev
            f = f.prev
        return None


class Closure:
    __slots__ = ("params", "rest", "body", "scope", "env", "self", "syntax")

    def __init__(self, params, rest, body, scope, env=None, self_=None, syntax=False):
        self.params, self.rest, self.body, self.scope, self.env, self.self, self.syntax = params, rest, body, scope, env, self_, syntax


class Cont:
    __slots__ = ("k", "owner")

    def __init__(self, k, owner):
        self.k, self.owner = k, owner


class Obj:
    __slots__ = ("scope",)

    def __init__(self, scope):
        self.scope = scope


class Env:
    __slots__ = ("scope",)

    def __init__(self, scope):
        self.scope = scope


class Code:
    """An operand a syntax was given: a tree that has not been evaluated."""
    __slots__ = ("node",)

    def __init__(self, node):
        self.node = node


class Handler:
    __slots__ = ("scope", "name", "clause", "ret", "prev")

    def __init__(self, scope, name, clause, ret, prev):
        self.scope, self.name, self.clause, self.ret, self.prev = scope, name, clause, ret, prev


class WrapEnd:
    __slots__ = ("frame", "k", "kind", "task")

    def __init__(self, frame, k, kind):
        self.frame, self.k, self.kind, self.task = frame, k, kind, None


class Out(str):
    """A file that output goes to as long as the redirection to it lasts."""
    open = True


class Err(str):
    """The text of a runtime error, which is not specified."""


class Discard(Exception):
    """The program is not one with a specified meaning, or it takes too long."""


ANY = "\0ANY\0"


def text(v):
    if isinstance(v, Err):
        return ANY
    if v is True:
        return "true"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v
    if isinstance(v, Code):
        return codetext(v.node)
    if isinstance(v, tuple):
        if v and any(isinstance(x, (Err, Closure, Obj, Cont)) for x in v):
            raise Discard("list text")
        return "(" + " ".join(text(x) for x in v) + ")"
    raise Discard("text of %r" % (v,))


def codetext(n):
    """What an operand looks like as the list that it is."""
    if n[0] == "k":
        if isinstance(n[1], tuple) and n[1]:
            return "(list %s)" % " ".join(codetext(("k", x)) for x in n[1])
        return text(n[1])
    if n[0] == "v":
        return "(resolve %s)" % n[1]
    if n[0] == "app" and n[1][0] == "n":
        return "(%s)" % " ".join([n[1][1]] + [codetext(a) for a in n[2]])
    if n[0] in INFIX:
        return "(%s)" % " ".join([INFIX[n[0]]] + [codetext(a) for a in n[1:]])
    if n[0] == "list":
        return "(%s)" % " ".join(["list"] + [codetext(a) for a in n[1]])
    if n[0] in ("define", "set", "export"):
        return "(%s %s %s)" % (n[0], n[1], codetext(n[2]))
    if n[0] == "return":
        return "(return %s)" % codetext(n[1])
    raise Discard("text of code")


def truth(v):
    return v != NIL


def prim(fn, arity):
    def f(self, n, frame, k):
        def then(vals, frame, k):
            if arity is not None and len(vals) != arity:
                return self.error("arity", frame)
            try:
                v = fn(*vals)
            except (TypeError, ValueError, IndexError, AttributeError):
                return self.error("primitive", frame)
            return ("ret", v, k)
        return self.args(n[1:] if fn is not PRIM_LIST else n[1], frame, k, then)
    return f

def number(v):
    if isinstance(v, bool) or isinstance(v, tuple):
        raise TypeError
    return int(v)

def PRIM_LIST(*a):
    return tuple(a)


class Machine:
    def __init__(self, limit=60000):
        self.log = []
        self.out = {}
        self.errors = []          # uncaught exceptions, in order
        self.limit = limit
        self.steps = 0
        self.counts = {}
        self.task = 0
        self.tasks = 0
        self.active = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # --- running ---------------------------------------------------------
    def program(self, body):
        top = Frame(Scope(None), None, "stdout")
        top.scope.pub["throw"] = None
        user = Frame(Scope(top.scope), None, "stdout")
        # The outermost handler is found last of all.
        base = Frame(Scope(None), None, "stdout")
        base.scope.pub["throw"] = None
        del top.scope.pub["throw"]
        user.prev = base
        self.thread(("seq", body, 0), user)

    def thread(self, node, frame, k=None, result=None):
        saved, self.result = getattr(self, "result", None), result
        try:
            self.loop(("eval", node, frame, k))
        finally:
            self.result = saved

    def loop(self, st):
        while True:
            self.steps += 1
            if self.steps > self.limit:
                raise Discard("steps")
            if st[0] == "eval":
                st = self.eval(st[1], st[2], st[3])
            elif st[0] == "ret":
                k = st[2]
                if k is None:
                    return
                st = k[0](st[1], k[1], k[2], k[3])
            elif st[0] == "end":
                return

    # --- names -----------------------------------------------------------
    def get(self, name, frame):
        t = frame.find(name)
        if t is None:
            return None
        return t[name]

    # --- evaluation ------------------------------------------------------
    def eval(self, n, frame, k):
        return getattr(self, "n_" + n[0])(n, frame, k)

    def n_seq(self, n, frame, k):
        body, i = n[1], n[2]
        if not body:
            return ("ret", NIL, k)
        if i < len(body) - 1:
            k = (self.k_seq, (body, i + 1), frame, k)
        return self.eval(body[i], frame, k)

    def k_seq(self, v, d, frame, k):
        return ("eval", ("seq", d[0], d[1]), frame, k)

    def n_k(self, n, frame, k):
        return ("ret", n[1], k)

    def n_v(self, n, frame, k):
        t = frame.find(n[1])
        if t is None:
            return self.error("%s not defined" % n[1], frame)
        self.count("lookups found lexically" if frame.scope.lookup(n[1]) is t else "lookups found in a caller")
        return ("ret", t[n[1]], k)

    def n_lam(self, n, frame, k):
        return ("ret", Closure(n[1], n[2], n[3], frame.scope), k)

    def n_resolves(self, n, frame, k):
        return ("ret", True if frame.find(n[1]) is not None else NIL, k)

    # Arguments, left to right.
    def args(self, exprs, frame, k, then):
        """Evaluate exprs in order and continue with then(values, frame, k)."""
        return self.k_args(None, (exprs, 0, (), then), frame, k)

    def k_args(self, v, d, frame, k):
        exprs, i, vals, then = d
        if i:
            vals = vals + ((exprs[i - 1][0] == "splice", v),)
        if i == len(exprs):
            out = []
            for sp, x in vals:
                if sp:
                    if not isinstance(x, tuple):
                        return self.error("splice", frame)
                    out.extend(x)
                else:
                    out.append(x)
            return then(tuple(out), frame, k)
        e = exprs[i]
        return ("eval", e[1] if e[0] == "splice" else e, frame, (self.k_args, (exprs, i + 1, vals, then), frame, k))

    n_add = prim(lambda a, b: number(a) + number(b), 2)
    n_lt = prim(lambda a, b: True if number(a) < number(b) else NIL, 2)
    n_eq = prim(lambda a, b: True if text(a) == text(b) else NIL, 2)
    n_not = prim(lambda a: NIL if truth(a) else True, 1)
    n_isnull = prim(lambda a: True if a == NIL else NIL, 1)
    n_list = prim(PRIM_LIST, None)
    n_iscont = prim(lambda a: True if isinstance(a, Cont) else NIL, 1)
    n_len = prim(lambda a: len(a) if isinstance(a, tuple) else a.nosuch, 1)
    n_head = prim(lambda a: (a[0] if a else NIL) if isinstance(a, tuple) else a.nosuch, 1)
    n_tail = prim(lambda a: a[1:] if isinstance(a, tuple) else a.nosuch, 1)

    def n_interp(self, n, frame, k):
        out = []
        for p in n[1]:
            if isinstance(p, str):
                out.append(p)
            else:
                t = frame.find(p[0])
                if t is None:
                    return self.error("not defined", frame)
                v = text(t[p[0]])
                out.append(v[1:-1] if isinstance(t[p[0]], tuple) and t[p[0]] else v)
        s = "".join(out)
        return ("ret", Err(s) if ANY in s else s, k)

    # Commands.
    def n_do(self, n, frame, k):
        return ("eval", n[1], frame, k)

    def n_ev(self, n, frame, k):
        def then(vals, frame, k):
            self.log.append(" ".join([str(n[1])] + [text(v) for v in vals]))
            return ("ret", (n[1],) + vals, k)
        return self.args(n[2], frame, k, then)

    def n_say(self, n, frame, k):
        def then(vals, frame, k):
            if not getattr(frame.out, "open", True):
                raise Discard("redirection that ended")
            self.out.setdefault(frame.out, []).append(" ".join([str(n[1])] + [text(v) for v in vals]))
            return ("ret", (n[1],) + vals, k)
        return self.args(n[2], frame, k, then)

    def n_define(self, n, frame, k):
        return ("eval", n[2], frame, (self.k_define, ("priv", n[1]), frame, k))

    def n_export(self, n, frame, k):
        return ("eval", n[2], frame, (self.k_define, ("pub", n[1]), frame, k))

    def k_define(self, v, d, frame, k):
        getattr(frame.scope, d[0])[d[1]] = v
        return ("ret", v, k)

    def n_set(self, n, frame, k):
        return ("eval", n[2], frame, (self.k_set, n[1], frame, k))

    def k_set(self, v, name, frame, k):
        t = frame.scope.lookup(name)
        if t is None:
            return self.error("%s not defined" % name, frame)
        t[name] = v
        return ("ret", v, k)

    def n_block(self, n, frame, k):
        return ("eval", ("seq", n[1], 0), frame.inner(), k)

    def n_redir(self, n, frame, k):
        f = frame.inner()
        f.out = n[2]
        return ("eval", ("seq", n[1], 0), f, (self.k_redir, n[3] if len(n) > 3 else None, frame, k))

    def k_redir(self, v, d, frame, k):
        return ("ret", v, k)

    def n_if(self, n, frame, k):
        f = frame.inner()
        return ("eval", n[1], f, (self.k_if, n, f, k))

    def k_if(self, v, n, frame, k):
        if truth(v):
            return ("eval", ("seq", n[2], 0), frame, k)
        if n[3] is None:
            return ("ret", v, k)
        if n[3] and n[3][0] == "elseif":
            return ("eval", n[3][1], frame, k)
        return ("eval", ("seq", n[3], 0), frame, k)

    def n_while(self, n, frame, k):
        f = frame.inner()
        return ("eval", n[1], f, (self.k_while, n, f, k))

    def k_while(self, v, n, frame, k):
        if not truth(v):
            return ("ret", v, k)
        return ("eval", ("seq", n[2], 0), frame, (self.k_again, n, frame, k))

    def k_again(self, v, n, frame, k):
        return ("eval", n[1], frame, (self.k_while, n, frame, k))

    def n_for(self, n, frame, k):
        """for LIST (method (x) {...}): a call for every element, in order."""
        def then(vals, frame, k):
            if not isinstance(vals[0], tuple):
                raise Discard("for")
            return self.k_for(None, (vals[0], vals[1], 0, (), False), frame, k)
        return self.args(n[1:3], frame, k, then)

    def k_for(self, v, d, frame, k):
        l, m, i, got, have = d
        if have:
            got = got + (v,)
        if i == len(l):
            return ("ret", got, k)
        f = Frame(Scope(None), frame, frame.out)
        return self.apply(m, (l[i],), f, (self.k_for, (l, m, i + 1, got, True), frame, k))

    def n_method(self, n, frame, k):
        c = Closure(n[2], n[3], n[4], frame.scope, None, n[6] if len(n) > 6 else None)
        getattr(frame.scope, "pub" if len(n) > 5 and n[5] == "export" else "priv")[n[1]] = c
        return ("ret", c, k)

    def n_object(self, n, frame, k):
        f = frame.inner()
        return ("eval", ("seq", list(n[1]) + [("_self",)], 0), f, k)

    def n__self(self, n, frame, k):
        return ("ret", Obj(frame.scope), k)

    # Calls.
    def n_app(self, n, frame, k):
        """A name (resolved when it is defined) or an expression, called."""
        h = n[1]
        if h[0] == "n":
            t = frame.find(h[1])
            if t is None:
                # An external command: its arguments are evaluated first.
                return self.args(n[2], frame, k, lambda vals, frame, k: self.error("%s: command not found" % h[1], frame))
            return self.k_head(t[h[1]], n, frame, k)
        return ("eval", h, frame, (self.k_head, n, frame, k))

    def k_head(self, f, n, frame, k):
        if isinstance(f, WrapEnd):
            raise Discard("return from a redirection")
        if isinstance(f, Cont):
            if n[1] != ("n", "return"):
                self.count("saved continuations called")
            if not n[2]:
                return self.resume(f, NIL)
            return ("eval", n[2][0], frame, (self.k_resume, f, frame, k))
        if isinstance(f, Closure) and f.syntax:
            return self.apply(f, tuple(Code(a) for a in n[2]), frame, k)
        if isinstance(f, Closure):
            return self.args(n[2], frame, k, lambda vals, frame, k: self.apply(f, vals, frame, k))
        if isinstance(f, Handler) or f is None:
            raise Discard("throw as value")
        if isinstance(f, Obj):
            raise Discard("object called")
        raise Discard("value called")

    def n_return(self, n, frame, k):
        return self.n_app(("app", ("n", "return"), [n[1]]), frame, k)

    def k_resume(self, v, c, frame, k):
        return self.resume(c, v)

    def resume(self, c, v):
        if isinstance(c, WrapEnd):
            raise Discard("return from a redirection")
        self.count("continuations called")
        if c.owner != self.task:
            if not self.task:
                raise Discard("continuation of a task")
            return ("end",)
        if self.active and c.k is not None:
            t = c.k[2].out
            if not getattr(t, "open", True):
                raise Discard("redirection that ended")
            while self.active and self.active[-1] is not t:
                self.active.pop().open = False
                self.count("redirections left early")
        return ("ret", v, c.k)

    def apply(self, f, vals, frame, k, me=None):
        self.count("calls")
        s = Scope(f.scope)
        if f.self:
            if me is None:
                raise Discard("self")
            s.priv[f.self] = me
        if len(vals) < len(f.params) or (len(vals) > len(f.params) and f.rest is None):
            # Either of the caller and the method called could be taken for what failed.
            if frame.find("throw") is not Frame(s, frame, frame.out).find("throw"):
                raise Discard("arity")
            return self.error("expected arguments", frame)
        for p, v in zip(f.params, vals):
            s.priv[p] = v
        if f.rest is not None:
            s.priv[f.rest] = tuple(vals[len(f.params):])
        if f.env:
            s.priv[f.env] = Env(frame.scope)
        s.priv["return"] = Cont(k, self.task)
        return ("eval", ("seq", f.body, 0), Frame(s, frame, frame.out), k)

    def n_mem(self, n, frame, k):
        """(OBJECT MEMBER ARGS...)"""
        if n[1][0] == "v" and frame.find(n[1][1]) is None:
            raise Discard("not an object")
        return ("eval", n[1], frame, (self.k_mem, n, frame, k))

    def k_mem(self, o, n, frame, k):
        if not isinstance(o, Obj):
            raise Discard("member of %r" % (o,))
        if n[2] not in o.scope.pub:
            return self.error("%s not defined" % n[2], frame)
        v = o.scope.pub[n[2]]
        if not isinstance(v, Closure):
            if isinstance(v, (Cont, Handler)):
                raise Discard("member")
            return self.error("%s is not executable" % n[2], frame)
        return self.args(n[3], frame, k, lambda vals, frame, k: self.apply(v, vals, frame, k, o))

    # Scopes as values.
    def n_env(self, n, frame, k):
        return ("ret", Env(frame.scope), k)

    def n_edef(self, n, frame, k):
        """SCOPE define/export/set NAME VALUE"""
        _, e, op, name, val = n

        def then(vals, frame, k):
            s = vals[0]
            if not isinstance(s, Env):
                raise Discard("scope")
            if op == "set":
                t = s.scope.lookup(name)
                if t is None:
                    return self.error("not defined", frame)
                t[name] = vals[1]
            else:
                getattr(s.scope, "priv" if op == "define" else "pub")[name] = vals[1]
            return ("ret", vals[1], k)
        return self.args([e, val], frame, k, then)

    def n_eget(self, n, frame, k):
        """(SCOPE get NAME): as it is now, lexically."""
        def then(vals, frame, k):
            if not isinstance(vals[0], Env):
                raise Discard("scope")
            t = vals[0].scope.lookup(n[2])
            if t is None:
                return self.error("not defined", frame)
            return ("ret", t[n[2]], k)
        return self.args([n[1]], frame, k, then)

    def n_quote(self, n, frame, k):
        return ("ret", Code(n[1]), k)

    def n_syntax(self, n, frame, k):
        c = Closure(n[2], n[3], n[5], frame.scope, n[4], None, True)
        frame.scope.priv[n[1]] = c
        return ("ret", c, k)

    def n_evalin(self, n, frame, k):
        """(SCOPE eval CODE)"""
        def then(vals, frame, k):
            if not isinstance(vals[0], Env) or not isinstance(vals[1], Code):
                if isinstance(vals[1], (int, str)) or vals[1] == NIL:
                    return ("ret", vals[1], k)
                raise Discard("eval")
            return ("eval", vals[1].node, Frame(vals[0].scope, frame, frame.out), k)
        return self.args([n[1], n[2]], frame, k, then)

    # Exceptions.
    def n_catch(self, n, frame, k):
        t = frame.find("return")
        if t is None:
            raise Discard("catch")
        p = frame.find("throw")["throw"]
        frame.scope.pub["throw"] = Handler(frame.scope, n[1], n[2], t["return"], p)
        return ("ret", True, k)

    def n_throw(self, n, frame, k):
        return ("eval", n[1], frame, (self.k_throw, None, frame, k))

    def k_throw(self, v, d, frame, k):
        return self.throw(v, frame)

    def error(self, msg, frame):
        self.count("runtime errors")
        return self.throw(Err(msg), frame)

    def throw(self, v, frame):
        self.count("throws")
        return self.handle(frame.find("throw")["throw"], v, frame)

    def handle(self, h, v, frame):
        if isinstance(h, WrapEnd):
            self.count("exceptions through redirections, pipelines and captures")
            if h.kind in ("left", "capture"):
                if h.task != self.task:
                    return ("end",)
                self.result.append((True, v))
                return ("end",)
            if h.task != self.task:
                return ("end",)
            return self.throw(v, h.frame)
        if h is None:
            self.errors.append(v)
            return ("end",)
        self.count("handlers run")
        s = Scope(h.scope)
        s.priv[h.name] = v
        s.priv["throw"] = h.prev
        s.pub["throw"] = h.prev
        s.priv["return"] = Cont(h.ret.k, h.ret.owner) if isinstance(h.ret, Cont) else h.ret
        f = Frame(s, frame, frame.out)
        return ("eval", ("seq", list(h.clause) + [("_rethrow", h.name, h)], 0), f, None)

    def n__rethrow(self, n, frame, k):
        self.count("rethrows")
        return self.handle(frame.find("throw")["throw"], frame.find(n[1])[n[1]], frame)

    # Redirections, pipelines and captures: an exception in them that reaches
    # their end goes on in the code around them. What runs in them finds that
    # end before any handler of a caller, but after a handler that encloses it.
    def n_wrap(self, n, frame, k):
        """kind, body, file: kind is redir, left, right or capture."""
        _, kind, body, name = n
        f = frame.inner()
        if name:
            f.out = Out(name)
        end = WrapEnd(frame, k, kind)
        end.task = self.task
        f.scope.pub["throw"] = end
        f.scope.priv["return"] = end
        if kind in ("left", "capture"):
            old = self.task
            self.tasks += 1
            self.task = self.tasks
            end.task = self.task
            r = []
            active = list(self.active)
            if name:
                self.active.append(f.out)
            self.thread(("seq", body, 0), f, (lambda v, d, fr, kk: (r.append((False, v)), ("end",))[1], None, f, None), r)
            self.task = old
            for o in self.active:
                o.open = o.open and any(o is a for a in active)
            self.active = active
            if not r:
                raise Discard("a task ended early")
            thrown, v = r[0]
            if thrown:
                return self.throw(v, frame)
            return ("ret", NIL if kind == "capture" else v, k)
        if kind == "redir":
            self.active.append(f.out)
            k = (self.k_wrapped, f.out, frame, k)
        return ("eval", ("seq", body, 0), f, k)

    def k_wrapped(self, v, out, frame, k):
        out.open = False
        if any(o is out for o in self.active):
            while self.active.pop() is not out:
                pass
        return ("ret", v, k)

    # Tasks that are waited for at once.
    def n_task(self, n, frame, k):
        old = self.task
        self.tasks += 1
        self.task = self.tasks
        self.thread(("seq", n[1], 0), frame.inner())
        self.task = old
        return ("ret", NIL, k)


# --- rendering -----------------------------------------------------------
INFIX = {"add": "add", "lt": "lt?", "eq": "eq?", "not": "not", "isnull": "null?", "iscont": "continuation?"}


def atom(v):
    if v == NIL:
        return "()"
    if isinstance(v, int):
        return str(v)
    if v and all(c.isalnum() or c in "-_." for c in v):
        return v
    return "'" + v + "'" if "'" not in v else '"' + v + '"'


def rx(n, ind):
    """An expression in argument position."""
    k = n[0]
    if k == "k":
        if isinstance(n[1], tuple) and n[1]:
            return "(list " + " ".join(rx(("k", x), ind) for x in n[1]) + ")"
        return atom(n[1])
    if k == "v":
        return "$" + n[1]
    if k == "interp":
        return '"' + "".join(p if isinstance(p, str) else "${%s}" % p[0] for p in n[1]) + '"'
    if k == "splice":
        return "(splice " + rx(n[1], ind) + ")"
    return "(" + rc(n, ind) + ")"


def rbody(body, ind):
    p = "    " * (ind + 1)
    return "{\n" + "".join(p + rc(c, ind + 1) + "\n" for c in body) + "    " * ind + "}"


def params(ps, rest):
    return "(" + " ".join(list(ps) + (["(" + rest + ")"] if rest is not None else [])) + ")"


def rc(n, ind):
    """A command (or the inside of an expression's parentheses)."""
    k = n[0]
    if k in INFIX:
        return INFIX[k] + " " + " ".join(rx(a, ind) for a in n[1:])
    if k == "resolves":
        return "resolves? " + n[1]
    if k == "list":
        return "list" + "".join(" " + rx(a, ind) for a in n[1])
    if k in ("len", "head", "tail"):
        return rx(n[1], ind) + " " + {"len": "length"}.get(k, k)
    if k == "do":
        return rc(n[1], ind)
    if k == "ev":
        return "log write-line " + str(n[1]) + "".join(" " + rx(a, ind) for a in n[2])
    if k == "say":
        return "write-line " + str(n[1]) + "".join(" " + rx(a, ind) for a in n[2])
    if k in ("define", "export", "set"):
        e = n[2]
        if len(n) > 3 and n[3] == "colon" and e[0] not in ("k", "v", "interp", "splice"):
            return "%s %s: %s" % (k, n[1], rc(e, ind))
        return "%s %s %s" % (k, n[1], rx(e, ind))
    if k == "lam":
        return "method " + params(n[1], n[2]) + " " + rbody(n[3], ind)
    if k == "method":
        return "%s %s: method %s%s %s" % ("export" if len(n) > 5 and n[5] == "export" else "define", n[1], n[6] + " " if len(n) > 6 and n[6] else "", params(n[2], n[3]), rbody(n[4], ind))
    if k == "syntax":
        return "define %s: syntax %s %s %s" % (n[1], params(n[2], n[3]), n[4], rbody(n[5], ind))
    if k == "object":
        return "object " + rbody(n[1], ind)
    if k == "block":
        return "block " + rbody(n[1], ind)
    if k == "redir":
        return "block " + rbody(n[1], ind) + " " + (n[3] if len(n) > 3 else ">> " + n[2])
    if k == "wrap":
        b = "block " + rbody(n[2], ind)
        if n[1] == "redir":
            return b + " >> " + n[3]
        if n[1] == "left":
            return b + " | cat" + (" >> " + n[3] if n[3] else "")
        if n[1] == "right":
            return "true | " + b
        return "capture (" + b + ")"
    if k == "if":
        s = "if " + rx(n[1], ind) + " " + rbody(n[2], ind)
        if n[3] is not None:
            s += " else " + (rc(n[3][1], ind) if n[3] and n[3][0] == "elseif" else rbody(n[3], ind))
        return s
    if k == "while":
        return "while " + rx(n[1], ind) + " " + rbody(n[2], ind)
    if k == "for":
        return "for " + rx(n[1], ind) + " " + rx(n[2], ind)
    if k == "app":
        h = n[1]
        return (h[1] if h[0] == "n" else rx(h, ind)) + "".join(" " + rx(a, ind) for a in n[2])
    if k == "return":
        return "return " + rx(n[1], ind)
    if k == "mem":
        o = n[1]
        return (o[1] if o[0] == "v" else rx(o, ind)) + " " + n[2] + "".join(" " + rx(a, ind) for a in n[3])
    if k == "env":
        return "env"
    if k == "edef":
        return "%s %s %s %s" % (n[1][1] if n[1][0] == "v" else rx(n[1], ind), n[2], n[3], rx(n[4], ind))
    if k == "eget":
        return "%s get %s" % (n[1][1] if n[1][0] == "v" else rx(n[1], ind), n[2])
    if k == "quote":
        return "quote " + rx(n[1], ind)
    if k == "evalin":
        return "%s eval %s" % (n[1][1] if n[1][0] == "v" else rx(n[1], ind), rx(n[2], ind))
    if k == "catch":
        return "catch %s %s" % (n[1], rbody(n[2], ind) if n[2] else "{\n" + "    " * ind + "}")
    if k == "throw":
        return "throw " + rx(n[1], ind)
    if k == "task":
        return "wait (spawn " + rbody(n[1], ind) + ")"
    if k == "k":
        raise ValueError("constant as a command")
    raise ValueError(n)


HEAD = """define env: syntax () e {
    return $e
}
define log: open w %s
"""


def source(body, logname="log"):
    return HEAD % logname + "\n".join(rc(c, 0) for c in body) + "\n"


def matches(want, got):
    """Compare lines, where ANY in what is wanted stands for some text."""
    if len(want) != len(got):
        return False
    for w, g in zip(want, got):
        if ANY in w:
            parts = w.split(ANY)
            if not g.startswith(parts[0]) or not g.endswith(parts[-1]) or len(g) <= sum(len(p) for p in parts):
                return False
            i = len(parts[0])
            for p in parts[1:-1]:
                j = g.find(p, i)
                if j < 0:
                    return False
                i = j + len(p)
        elif w != g:
            return False
    return True


def difference(want, got):
    i = 0
    while i < min(len(want), len(got)) and matches([want[i]], [got[i]]):
        i += 1
    return "line %d: got %r, expected %r (of %d and %d lines)" % (
        i + 1, got[i:i + 3], [w.replace(ANY, "*") for w in want[i:i + 3]], len(got), len(want))


def compare(ctx, body, root, oh=None, limit=60000, timeout=30):
    """Run the program both ways. Returns (machine, what differs or None, source, result), or None if it has no specified meaning."""
    import os
    m = Machine(limit)
    try:
        m.program(body)
    except Discard as e:
        return None
    t = source(body)
    r = ctx.script(t, cwd=root, timeout=timeout, oh=oh)
    bad = None
    if r.timeout:
        bad = "does not end (states %s)" % r.states
    elif r.crashed:
        bad = "fault: " + r.crashed
    else:
        try:
            got = open(os.path.join(root, "log"), errors="surrogateescape").read().split("\n")[:-1]
        except OSError:
            got = []
        if not matches(m.log, got):
            bad = "the events differ: " + difference(m.log, got)
        out = r.out.decode("utf-8", "surrogateescape").split("\n")[:-1]
        if not bad and not matches(m.out.get("stdout", []), out):
            bad = "standard output differs: " + difference(m.out.get("stdout", []), out)
        for f, want in m.out.items():
            if bad or f in ("stdout", "discard"):
                continue
            try:
                got = open(os.path.join(root, f), errors="surrogateescape").read().split("\n")[:-1]
            except OSError:
                got = []
            if not matches(want, got):
                bad = "what is written to %s differs: %s" % (f, difference(want, got))
        if not bad:
            errs = [l[7:] for l in r.err.decode("utf-8", "surrogateescape").split("\n") if l.startswith("error: ")]
            want = [text(e) for e in m.errors]
            if not matches(want, errs):
                bad = "what is reported differs: " + difference(want, errs)
    return m, bad, t, r
