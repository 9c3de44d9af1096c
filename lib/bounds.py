"""Linear bounds: is an index inside [0, n) under the path condition?  Decided by
adding up known linear facts (loop ranges, guards) until only terms known not to
be negative are left; no search beyond that."""
import itertools
from terms import *


class Facts:
    def __init__(self, pc, positive=lambda a: False, extra=()):
        """pc: conditions that hold; positive(atom): atom known >= 0; extra: terms known >= 0"""
        self.positive = positive
        self.lin = list(extra)
        self.ors = []
        for c in pc:
            self.put(c)

    def put(self, c):
        if c.op == "and":
            for x in c.a[0]:
                self.put(x)
        elif c.op == "or":
            self.ors.append(c.a[0])
        elif c.op == "gt0":
            self.lin.append(sub(c.a[0], num(1)) if c.a[1] else c.a[0])
        elif c.op == "ge0":
            self.lin.append(c.a[0])
        elif c.op == "eq0":
            self.lin += [c.a[0], neg(c.a[0])]

    def pos(self, a):
        return a.op in ("sym",) or nonneg(a) or self.positive(a)

    def done(self, g):
        return all(c >= 0 and all(self.pos(a) or p % 2 == 0 for a, p in m) for m, c in monos(g))

    def holds(self, g, depth=5, seen=None):
        """g >= 0 ?"""
        if self.done(g):
            return True
        if depth == 0:
            return False
        seen = seen if seen is not None else set()
        if g.id in seen:
            return False
        seen.add(g.id)
        # a monomial in the way: negative, or of unknown sign
        for m, c in monos(g):
            if m == () or c >= 0 and all(self.pos(a) or p % 2 == 0 for a, p in m):
                continue
            for f in self.lin:
                k = dict(monos(f)).get(m, 0)
                if k == 0 or (k > 0) != (c > 0):
                    continue
                if self.holds(sub(g, mul(num(c / k), f)), depth - 1, seen):
                    return True
            # conditional terms: both branches
            for a, p in m:
                if a.op == "ite" and p == 1 and len(m) == 1:
                    r = sub(g, mul(num(c), a))
                    if self.holds(add(r, mul(num(c), a.a[1])), depth - 1) and self.holds(add(r, mul(num(c), a.a[2])), depth - 1):
                        return True
            return self.split(g, depth)
        # a negative constant: use up a fact about a term that is there
        if dict(monos(g)).get((), 0) < 0:
            for m, c in monos(g):
                if m == ():
                    continue
                for f in self.lin:
                    d = dict(monos(f))
                    if d.get(m, 0) > 0 and d.get((), 0) < 0 and self.holds(sub(g, mul(num(c / d[m]), f)), depth - 1, seen):
                        return True
        return self.split(g, depth)

    def split(self, g, depth):
        for i, o in enumerate(self.ors):
            ok = True
            for c in o:
                f = Facts([], self.positive, self.lin)
                f.ors = self.ors[:i] + self.ors[i + 1:]
                f.put(c)
                if not f.holds(g, depth - 1):
                    ok = False
                    break
            if ok:
                return True
        return False
