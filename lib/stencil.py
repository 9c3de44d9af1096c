"""Stencils on a flat image: every element written is classified by the kind of pixel
(interior, edge, corner) it can be, and the value stored is read off the value graph as
a linear combination of pixels at relative positions."""
import front, pointers
from terms import *
from bounds import Facts

ROWS = ("first row", "inner row", "last row")
COLS = ("first column", "inner column", "last column")
CLASSES = [(a, b) for a in ROWS for b in COLS]


class Stencils:
    def __init__(self, prog, f):
        self.m = pointers.model(prog, f)
        self.f = f
        self.ev = [e for e in self.m.events if e.get("op", "").startswith("arr.")]
        self.C, self.R = self.size()

    def size(self):
        """the parameters that give the length of a row and the number of rows"""
        votes = {}
        for e in self.ev:
            bvs = {k.id for k, t in e["loops"]}
            for m, c in monos(e["args"][0]):
                ps = [a for a, p in m if a.op == "parg"]
                if len(m) == 2 and len(ps) == 1 and any(a.id in bvs for a, p in m):
                    votes[ps[0].id] = votes.get(ps[0].id, 0) + 1
            for c in list(e["pc"]) + list(e["args"][1:]):
                for a in atoms(c, lambda y: y.op == "fn" and y.a[0] in ("mod", "idiv") and len(y.a) > 2 and y.a[2].op == "parg"):
                    votes[a.a[2].id] = votes.get(a.a[2].id, 0) + 1
        par = {}
        both = {}
        for e in self.ev:
            for t in [e["args"][0]] + [t for k, t in e["loops"] if t is not None]:
                for m, c in monos(t):
                    ps = sorted({a.id: a for a, p in m if a.op == "parg"}.values(), key=lambda a: a.id)
                    for a in ps:
                        par[a.id] = a
                    if len(ps) == 2:
                        both[(ps[0].id, ps[1].id)] = both.get((ps[0].id, ps[1].id), 0) + 1
        if not both:
            return None, None
        a, b = max(both, key=lambda k: both[k])
        C = a if votes.get(a, 0) >= votes.get(b, 0) else b
        return par[C], par[b if C == a else a]

    # ---- facts of one pixel class
    def base(self, e):
        """what holds at an event whatever the pixel"""
        ex = [sub(self.R, num(2)), sub(self.C, num(2))]
        for k, t in e["loops"]:
            ex.append(k)
            if t is not None:
                ex.append(sub(sub(t, num(1)), k))
        return ex

    def positive(self, a):
        return a.op == "fn" and a.a[0] in ("mod", "idiv") or a is self.R or a is self.C

    def kind(self, i, n, which):
        """facts of a coordinate i in [0, n) being first / inner / last"""
        last = sub(n, num(1))
        if which == 0:
            return [i, neg(i)]
        if which == 2:
            return [sub(i, last), sub(last, i)]
        return [sub(i, num(1)), sub(sub(n, num(2)), i)]

    def coords(self, x, e):
        """(row, column) of a flat index, or ('flat', bound variable)"""
        s = pointers.rowcol(x, e, self.C)
        if s:
            return s
        for k, t in e["loops"]:
            if x is k and t is not None and t is mul(self.R, self.C):
                return "flat", k
        return None

    def classfacts(self, rc, cl):
        a, b = ROWS.index(cl[0]), COLS.index(cl[1])
        if rc[0] != "flat":
            return self.kind(rc[0], self.R, a) + self.kind(rc[1], self.C, b)
        k = rc[1]
        C, RC = self.C, mul(self.R, self.C)
        out = [sub(sub(RC, num(1)), k)]
        if a == 0:
            out.append(sub(sub(C, num(1)), k))
        else:
            out.append(sub(k, C))
        if a == 2:
            out.append(sub(k, sub(RC, C)))
        else:
            out.append(sub(sub(sub(RC, C), num(1)), k))
        m, q = fn("mod", k, C), fn("idiv", k, C)
        out += [sub(sub(C, num(1)), m)] + self.kind(m, C, b) + self.kind(q, self.R, a)
        whole = sub(k, add(mul(q, C), m))
        if a != 1:
            own = sub(sub(k, m), num(0) if a == 0 else sub(RC, C))
            out += [own, neg(own)]
        return out + [whole, neg(whole)]

    def range(self, p, e):
        """lowest and highest value of p over the loops of the event (terms), None when unknown"""
        trips = {k.id: t for k, t in e["loops"]}
        lo, hi = num(0), num(0)
        for m, c in monos(p):
            b = [a for a, q in m if a.id in trips]
            if not b:
                if atoms(poly({m: c}), lambda y: y.op in ("bv", "sym") and y.id in trips):
                    return None
                lo, hi = add(lo, poly({m: c})), add(hi, poly({m: c}))
                continue
            if len(m) != 1 or m[0][1] != 1 or trips[b[0].id] is None:
                return None
            top = mul(num(c), sub(trips[b[0].id], num(1)))
            if c > 0:
                hi = add(hi, top)
            else:
                lo = add(lo, top)
        return lo, hi

    def covers(self, rc, e, cl):
        """does the event reach every pixel ('all'), none ('none') or some ('part') of the class?  None: unknown"""
        if rc[0] == "flat":
            return "all"
        F = Facts([], self.positive, [sub(self.R, num(2)), sub(self.C, num(2))])
        res = "all"
        for i, n, w in ((rc[0], self.R, ROWS.index(cl[0])), (rc[1], self.C, COLS.index(cl[1]))):
            s = self.range(i, e)
            if s is None:
                return None
            lo, hi = s
            clo, chi = [(num(0), num(0)), (num(1), sub(n, num(2))), (sub(n, num(1)), sub(n, num(1)))][w]
            if F.holds(sub(clo, add(hi, num(1)))) or F.holds(sub(lo, add(chi, num(1)))):
                return "none"
            if w == 1 and F.holds(sub(lo, clo)) and F.holds(sub(chi, hi)) and lo is hi:
                res = "part"
            if F.holds(sub(clo, lo)) and F.holds(sub(hi, chi)):
                continue
            over = [F.holds(sub(sub(lo, clo), num(1))), F.holds(sub(sub(chi, hi), num(1)))]
            if any(over):
                res = "part"
            else:
                return None
        return res

    def decide(self, c, F):
        """True / False / None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == "not":
            d = self.decide(c.a[0], F)
            return None if d is None else not d
        if c.op in ("and", "or"):
            ds = [self.decide(x, F) for x in c.a[0]]
            if c.op == "and":
                return False if False in ds else True if all(d is True for d in ds) else None
            return True if True in ds else False if all(d is False for d in ds) else None
        if c.op == "gt0":
            one = num(1 if c.a[1] else 0)
            if F.holds(sub(c.a[0], num(1))):
                return True
            if F.holds(neg(c.a[0])):
                return False
        elif c.op == "ge0":
            if F.holds(c.a[0]):
                return True
            if F.holds(sub(neg(c.a[0]), num(1))):
                return False
        elif c.op == "eq0":
            if F.holds(c.a[0]) and F.holds(neg(c.a[0])):
                return True
            if F.holds(sub(c.a[0], num(1))) or F.holds(sub(neg(c.a[0]), num(1))):
                return False
        return None

    def resolve(self, t, F):
        m = {}
        for i in atoms(t, lambda y: y.op == "ite"):
            d = self.decide(i.a[0], F)
            if d is not None:
                m[i.a[0].id] = TRUE if d else FALSE
                m[lnot(i.a[0]).id] = FALSE if d else TRUE
        return subst(t, m, {}) if m else t

    def geometric(self, c, e):
        """does the condition speak about the position in the image?"""
        ids = {k.id for k, t in e["loops"]} | {self.R.id, self.C.id}
        return bool(atoms(c, lambda y: y.id in ids))

    def applies(self, e, F):
        """do the guards of the event hold for the class?  free conditions (not about the position) count as true"""
        res = True
        for c in e["pc"]:
            if not self.geometric(c, e):
                continue
            d = self.decide(c, F)
            if d is False:
                return False
            if d is None:
                res = None
        return res

    def shift(self, x, own):
        """index x as (rows down, columns right) of the pixel with index own, None if not a constant step"""
        dr = dc = 0
        for m, c in monos(sub(x, own)):
            if m == ():
                dc = c
            elif m == ((self.C, 1),):
                dr = c
            else:
                return None
        if dr.denominator != 1 or dc.denominator != 1 if not isinstance(dr, int) or not isinstance(dc, int) else False:
            return None
        return int(dr), int(dc)

    def inside(self, cl, d):
        """is the pixel d away from a pixel of the class in the image (two rows and columns at least, steps of at most one)?"""
        dr, dc = d
        a, b = ROWS.index(cl[0]), COLS.index(cl[1])
        return abs(dr) <= 1 and abs(dc) <= 1 and not (a == 0 and dr < 0) and not (a == 2 and dr > 0) and not (b == 0 and dc < 0) and not (b == 2 and dc > 0)
