"""Evaluates the canonical expressions printed by the engine (engine/guards.cpp, struct Canon)."""
import re


class Canon:
    """evaluates the canonical expressions of the engine (engine/guards.cpp, struct Canon) over assignments of their leaves"""
    def __init__(self, s):
        self.s, self.p, self.leaves = s, 0, []
        self.t = self.expr()
        if self.p != len(s):
            raise ValueError(s)

    def expr(self):
        ts = [self.term()]
        while self.p < len(self.s) and self.s[self.p] == "+":
            self.p += 1
            ts.append(self.term())
        return ("+", ts)

    def term(self):
        m = re.compile(r"(-?\d+)\*").match(self.s, self.p)
        if m:
            self.p = m.end()
            return ("*", int(m.group(1)), self.term())
        m = re.compile(r"-?\d+(?![\w.])").match(self.s, self.p)
        if m:
            self.p = m.end()
            return ("c", int(m.group(0)))
        if self.s[self.p] == "(":
            m = re.compile(r"\(:(\w+)").match(self.s, self.p)
            if not m:
                raise ValueError(self.s)
            self.p = m.end()
            args = []
            while self.s[self.p] == " ":
                self.p += 1
                args.append(self.expr())
            if self.s[self.p] != ")":
                raise ValueError(self.s)
            self.p += 1
            return ("op", m.group(1), args)
        m = re.compile(r"[^ ()+]+").match(self.s, self.p)
        if not m:
            raise ValueError(self.s)
        self.p = m.end()
        if m.group(0) not in self.leaves:
            self.leaves.append(m.group(0))
        return ("l", m.group(0))

    def ev(self, env, t=None):
        t = t or self.t
        if t[0] == "+":
            return sum(self.ev(env, x) for x in t[1])
        if t[0] == "*":
            return t[1] * self.ev(env, t[2])
        if t[0] == "c":
            return t[1]
        if t[0] == "l":
            return env[t[1]]
        a = [self.ev(env, x) for x in t[2]]
        o = t[1]
        if o in ("udiv", "sdiv", "urem", "srem") and (a[1] == 0 or min(a) < 0):
            raise ValueError
        if o in ("shl", "lshr", "ashr") and not 0 <= a[1] < 64:
            raise ValueError
        f = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y, "mul": lambda x, y: x * y, "udiv": lambda x, y: x // y, "sdiv": lambda x, y: x // y,
             "urem": lambda x, y: x % y, "srem": lambda x, y: x % y, "shl": lambda x, y: x << y, "lshr": lambda x, y: x >> y, "ashr": lambda x, y: x >> y,
             "eq": lambda x, y: int(x == y), "ne": lambda x, y: int(x != y)}.get(o)
        if not f:
            raise ValueError
        return f(*a)
