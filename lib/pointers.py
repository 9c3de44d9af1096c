"""Value graph of a function on flat arrays given by pointers: every element read and
written becomes an event named after the array (a parameter or a heap block)."""
import front, vg
from terms import *


class Pointers:
    def __init__(self, prog, f):
        self.p, self.f = prog, f
        v = vg.VG(prog, on_call=self.oncall, traced=self.traced)
        v.fastloops = True
        self.v = v
        try:
            self.ret, self.state, self.frame = v.run(f)
        except vg.Abort:
            raise front.AnalysisError(f["q"] + " never returns")
        self.events = v.events
        self.unresolved = [front.loc(g, n) + " " + str(c) for g, n, c in v.unk]
        for e in self.events:
            if e["what"] in ("rd", "wr") and e["name"].startswith("arr "):
                e["op"] = "arr." + e["what"]
                e["array"] = e["name"]

    def oncall(self, v, n, g, this, args, s):
        if g.get("cls") is None and g["q"].startswith("print"):
            return vg.VOID
        return None

    def traced(self, base):
        r = base[0]
        if len(base) == 1 and r.op == "deref":
            x = r.a[0]
            if x.op == "parg":
                return "arr " + x.a[0]
            if x.op in ("ext", "call", "new", "heap", "fn"):
                return "arr heap%s" % x.id
        return None

    def tag(self, e):
        return front.loc(e["f"], e.get("node"))


_memo = {}


def model(prog, f):
    if f["id"] not in _memo:
        _memo[f["id"]] = Pointers(prog, f)
    return _memo[f["id"]]


def bounds(r, e, n):
    """(lowest, highest - n) of r over the loops of e as constants, n being at least 2; None where unknown"""
    trips = {k.id: t for k, t in e["loops"]}
    lo = num(0)
    hi = num(0)
    for mo, c in monos(r):
        if mo == ():
            lo, hi = add(lo, num(c)), add(hi, num(c))
            continue
        if len(mo) != 1 or mo[0][1] != 1 or mo[0][0].id not in trips or trips[mo[0][0].id] is None:
            return None
        top = mul(num(c), sub(trips[mo[0][0].id], num(1)))
        if c > 0:
            hi = add(hi, top)
        else:
            lo = add(lo, top)
    return val(lo), val(sub(hi, n))


def rowcol(x, e, n=None):
    """flat index x as (row, column) for rows of n elements"""
    if n is None:
        for c in sorted({a.id: a for a in atoms(x, lambda y: y.op == "parg" and y.a[1] == "i")}.values(), key=str) + \
                sorted({a.id: a for k, t in e["loops"] if t is not None for a in atoms(t, lambda y: y.op == "parg")}.values(), key=str):
            s = rowcol(x, e, c)
            if s:
                return s
        return None
    li = linear_in(x, n)
    if li is None:
        return None
    q, r = li
    if occurs(r, n):
        return None
    for shift in (0, 1):
        # r + shift*n in [0, n)
        b = bounds(r, e, n)
        if b is None:
            return None
        lo, hi = b
        rn = r if not shift else add(r, n)
        if shift == 0:
            const = val(r)
            if lo is not None and lo >= 0 and (hi is not None and hi <= -1 or const is not None and const <= 1):
                return q, r
        else:
            # r + n: lowest r >= -n needs r >= -2 (n >= 2), highest r <= -1
            hv = val(r)
            if lo is not None and lo >= -2 and hv is not None and hv <= -1:
                return sub(q, num(1)), rn
    return None
