"""Does any exchange with the traps start from occupancy left by an earlier
iteration of the outer (column) loop?  Abstract interpretation of the ordered
events on one kind of manager: where the live and the saved occupancy come from
(fresh, this column, an earlier column)."""
from terms import *

FRESH, THIS, PREV = "fresh", "this column", "an earlier column"


class Node:
    def __init__(self, sym, items):
        self.sym, self.items = sym, items


def tree(evs, depth):
    """events grouped by the loops they sit in, from loop depth on"""
    out = []
    i = 0
    while i < len(evs):
        e = evs[i]
        if len(e["loops"]) <= depth:
            out.append(e)
            i += 1
            continue
        k = e["loops"][depth][0]
        j = i
        while j < len(evs) and len(evs[j]["loops"]) > depth and evs[j]["loops"][depth][0] is k:
            j += 1
        out.append(Node(k, tree(evs[i:j], depth + 1)))
        i = j
    return out


class Carried:
    def __init__(self, m, kind, facts, depth=0):
        self.m, self.kind, self.facts = m, kind, facts
        self.bad = []
        evs = []
        for e in m.events:
            if e.get("kind") is not kind or e["what"] != "call" or len(e["loops"]) <= depth or e["region"] is None and depth == 0 and not m.main:
                continue
            if e["loops"][depth][0] not in m.columns:
                continue
            if m.role(e) is None and (e["const"] or m.printing(e)):
                continue
            evs.append(e)
        self.evs = evs
        t = tree(evs, depth + 1)
        s = (frozenset([FRESH]), frozenset([FRESH]))
        base = list(facts)
        k, n = evs[0]["loops"][depth] if evs else (None, None)
        for turn in ("first", "middle", "middle", "last"):
            if k is not None:
                first = cmp0("gt0", k, True)
                self.facts = base + [lnot(first) if turn == "first" else first]
                if turn != "last" and n is not None:
                    self.facts.append(cmp0("gt0", sub(sub(n, k), num(1)), True))
            s = tuple(frozenset(PREV if x == THIS else x for x in y) for y in s)
            s = self.run(t, s)

    def each(self, node):
        """a loop over the managers of all phases"""
        return all(isinstance(x, dict) and x["idx"] is node.sym for x in node.items)

    def run(self, items, s):
        for x in items:
            if isinstance(x, Node):
                if self.each(x):
                    s = self.run(x.items, s)
                    continue
                a = self.run(x.items, s)
                b = self.run(x.items, a)
                s = tuple(p | q | r for p, q, r in zip(s, a, b))
            else:
                c = given(self.facts, land(*self.m.extra(x)))
                if c is FALSE:
                    continue
                n = self.op(x, s)
                s = n if c is TRUE else tuple(p | q for p, q in zip(s, n))
        return s

    def op(self, e, s):
        live, saved = s
        r = self.m.role(e)
        if r == "restore":
            return saved, saved
        if r == "store":
            return live, live
        if r in ("reset", "setup"):
            return frozenset([FRESH]), saved
        if PREV in live:
            self.bad.append(e)
        return frozenset([THIS]), saved
