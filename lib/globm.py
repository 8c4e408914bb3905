"""Independent matcher for oh's patterns: * and ? match within a path element, a
leading dot is only matched explicitly, [...] with ranges and ^, \\ escapes."""
from functools import lru_cache


class BadPattern(Exception):
    pass


def parse(p):
    """List of tokens: ('*',), ('?',), ('c', ch), ('[', neg, ranges)."""
    o, i = [], 0
    while i < len(p):
        c = p[i]
        if c == "*":
            if not o or o[-1] != ("*",):
                o.append(("*",))
            i += 1
        elif c == "?":
            o.append(("?",))
            i += 1
        elif c == "\\":
            if i + 1 >= len(p):
                raise BadPattern
            o.append(("c", p[i + 1]))
            i += 2
        elif c == "[":
            i += 1
            neg = i < len(p) and p[i] == "^"
            if neg:
                i += 1
            rs = []

            def one(i):
                if i >= len(p) or p[i] in "-]":
                    raise BadPattern
                if p[i] == "\\":
                    i += 1
                    if i >= len(p):
                        raise BadPattern
                if i + 1 >= len(p):
                    raise BadPattern
                return p[i], i + 1
            while True:
                if i < len(p) and p[i] == "]" and rs:
                    i += 1
                    break
                lo, i = one(i)
                hi = lo
                if p[i] == "-":
                    hi, i = one(i + 1)
                rs.append((lo, hi))
            o.append(("[", neg, tuple(rs)))
        else:
            o.append(("c", c))
            i += 1
    return o


def match(pattern, name):
    toks = parse(pattern)

    @lru_cache(None)
    def m(i, j):
        if i == len(toks):
            return j == len(name)
        t = toks[i]
        lead = j < len(name) and name[j] == "." and (j == 0 or name[j - 1] == "/")
        if t[0] == "*":
            if lead:
                return False
            k = j
            while True:
                if m(i + 1, k):
                    return True
                if k >= len(name) or name[k] == "/":
                    return False
                k += 1
        if j >= len(name):
            return False
        c = name[j]
        if t[0] == "c":
            return c == t[1] and m(i + 1, j + 1)
        if lead or c == "/" and t[0] == "?":
            return False
        if t[0] == "?":
            return m(i + 1, j + 1)
        hit = any(lo <= c <= hi for lo, hi in t[2])
        return hit != t[1] and m(i + 1, j + 1)
    return m(0, 0)
