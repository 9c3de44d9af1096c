"""The ledger of a species: what an exchange returns is what the occupancy lost.

Abstract interpretation of n_electrons_released_and_captured of each manager.  Integers are linear
terms with linear facts (Farkas); the level arrays are overlays of segments [lo, hi) with a content
term in the level's index; loops become segments and sums with symbolic bounds (a sum over [a, b) is
the difference of one primitive at b and at a), so nothing is unrolled and nothing depends on the
number of levels or species.  On every exit: returned = sum(volume * fills before) - sum(after)."""
import random
import time
from fractions import Fraction as Fr
import front, vg, lp
from terms import *
from terms import construct as tconstruct

CI, CT, BI, BT = (mk("isym", n, 0) for n in ("#ci", "#ct", "#bi", "#bt"))
N = mk("isym", "n_traps", 0)
VOLS, FILLS, FIRST, ACTIVE, DENS = "watermark_volumes", "watermark_fills", "i_first_active_wmk", "n_active_watermarks", "trap_densities"


class Unresolved(Exception):
    pass


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts


class Split(Exception):
    """the iterations of the loop with this symbol behave differently below and from e on"""
    def __init__(self, sym, points):
        self.sym, self.points = sym, points


class Dead(Exception):
    pass


# ------------------------------------------------------------------ terms with bound variables
FV = {}
PUT = {}
NONE = frozenset()


def fv(t):
    """what occurs free in t"""
    r = FV.get(t.id)
    if r is None:
        if t.op == "PRIM":
            r = (fv(t.a[0]) - {BI}) | fv(t.a[1])
        elif t.op == "St":
            r = fv(t.a[0]) - {BT}
        else:
            r = NONE.union(*[fv(x) for x in subs(t)])
            if t.op in ("isym", "car", "par", "call"):
                r = r | {t}
        FV[t.id] = r
    return r


def free(t, v):
    return v in fv(t)


def put(t, v, w):
    """t with w for the free occurrences of v"""
    if t is v:
        return w
    if v not in fv(t):
        return t
    k = (t.id, v.id, w.id)
    r = PUT.get(k)
    if r is None:
        r = PUT[k] = put_(t, v, w)
    return r


def put_(t, v, w):
    """t with w for the free occurrences of v"""
    if t is v:
        return w
    if not free(t, v):
        return t
    if t.op == "poly":
        out = num(0)
        for m, c in t.a[0]:
            x = num(c)
            for a, p in m:
                y = put(a, v, w)
                for _ in range(abs(p)):
                    x = mul(x, y) if p > 0 else mul(x, inv(y))
            out = add(out, x)
        return out
    if t.op == "PRIM":
        return prim(t.a[0] if v is BI else put(t.a[0], v, w), put(t.a[1], v, w))
    if t.op == "St":
        return st_(put(t.a[0], v, w))
    args = tuple(put(x, v, w) if isinstance(x, T) else tuple(put(y, v, w) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x for x in t.a)
    if t.op in ("V0", "F0", "elem", "call", "ind", "isym", "car"):
        return mk(t.op, *args)
    return tconstruct(t.op, args)


def prod(ms):
    x = num(1)
    for a, p in ms:
        for _ in range(abs(p)):
            x = mul(x, a) if p > 0 else mul(x, inv(a))
    return x


def const(t):
    return dict(monos(t)).get((), 0)


def places(t):
    """subscripts, in which the bound level index occurs"""
    out = []
    if t.op in ("V0", "F0") and free(t.a[0], BI):
        out.append(t.a[0])
    elif t.op == "PRIM":
        if free(t.a[1], BI):
            out.append(t.a[1])
        return out
    for x in subs(t):
        out += places(x)
    return out


def prim(body, x):
    """the primitive of body (a term in BI) at x: prim(x + 1) - prim(x) = body(x)"""
    out = num(0)
    for m, c in monos(body):
        dep = [(a, p) for a, p in m if free(a, BI)]
        out_ = mul(num(c), prod([(a, p) for a, p in m if not free(a, BI)]))
        if not dep:
            out = add(out, mul(out_, x))
            continue
        d = prod(dep)
        offs = [sub(p, BI) for p in places(d)]
        offs = [o for o in offs if not free(o, BI)]
        if offs:
            o = min(offs, key=lambda o: (str(sub(o, num(const(o)))), const(o)))
            d = put(d, BI, sub(BI, o))
        else:
            o = num(0)
        y = add(x, o)
        k = const(y)
        if k.denominator != 1 if isinstance(k, Fr) else False:
            raise Unresolved("bounds of a sum")
        k = int(k)
        if abs(k) > 8:
            raise Unresolved("bounds of a sum")
        y = sub(y, num(k))
        z = mk("PRIM", d, y)
        for j in range(k):
            z = add(z, put(d, BI, add(y, num(j))))
        for j in range(k, 0):
            z = sub(z, put(d, BI, add(y, num(j))))
        out = add(out, mul(out_, z))
    return out


def st_(body):
    """the sum over all species of body (a term in BT)"""
    out = num(0)
    for m, c in monos(body):
        dep = [(a, p) for a, p in m if free(a, BT)]
        f = mul(num(c), prod([(a, p) for a, p in m if not free(a, BT)]))
        out = add(out, mul(f, mk("St", prod(dep)) if dep else N))
    return out


MEMO = {}      # (facts, goal) -> implied


class Scope:
    """one iteration of a loop"""
    def __init__(self, sym, kind, lo, hi, up):
        self.sym, self.kind, self.lo, self.hi, self.up = sym, kind, lo, hi, up
        self.writes, self.reads, self.cars = [], [], {}


class Ledger:
    def __init__(self, prog, helper, assumed):
        self.p, self.h = prog, helper
        self.lin, self.lits, self.eqs = [], {}, {}
        self.scopes, self.over = [], {"V": [], "F": []}
        self.env, self.stack = {}, []
        self.serial = 0
        self.memo = MEMO
        self.i0, self.n0 = mk("isym", "i_first", 0), mk("isym", "n_active", 0)
        self.lin += [self.i0, self.n0, sub(N, num(1))]
        for a in assumed:
            self.assume(a)
        # before the first capture nothing has moved the first level
        self.i0, self.n0 = self.norm(self.i0), self.norm(self.n0)
        if self.proves(neg(self.n0)) and not self.proves(neg(self.i0)):
            self.lin.append(neg(self.i0))
            self.eqs[self.i0] = num(0) if self.i0.op == "isym" else None
            if self.eqs[self.i0] is None:
                del self.eqs[self.i0]
            self.i0 = self.norm(self.i0)
        self.env[("f", FIRST)] = self.i0
        self.env[("f", ACTIVE)] = self.n0

    # ---------------------------------------------------------------- facts
    def norm(self, t):
        for _ in range(4):
            u = t
            for a, v in self.eqs.items():
                t = put(t, a, v)
            if t is u:
                break
        return t

    def assume(self, a):
        kind, g = a[0], self.norm(a[1])
        if kind == "ge":
            if self.proves(sub(neg(g), num(1))):
                raise Dead
            self.lin.append(g)
            if val(g) is None and self.proves(neg(g)):
                self.solve(g)
        elif kind == "eq":
            if self.proves(sub(g, num(1))) or self.proves(sub(neg(g), num(1))):
                raise Dead
            self.lin += [g, neg(g)]
            self.solve(g)
        else:
            self.lits[(kind, g.id)] = a[2]
            self.lits.setdefault("list", []).append((kind, g, a[2]))
            if kind == "zero" and a[2]:
                ms = monos(g)
                if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][0][0][0].op in ("call", "par"):
                    self.eqs[ms[0][0][0][0]] = num(0)

    def solve(self, g):
        """g == 0: one number is expressed by the others"""
        for m, c in sorted(monos(g), key=lambda mc: str(mc[0]), reverse=True):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "isym" and abs(c) == 1 and m[0][0] is not N:
                x = m[0][0]
                rest = sub(g, mul(num(c), x))
                if not free(rest, x):
                    self.eqs[x] = mul(num(-c), rest)
                    return

    def facts(self):
        out = list(self.lin)
        for s in self.scopes:
            out += [sub(s.sym, s.lo), sub(sub(s.hi, num(1)), s.sym)]
        return out

    def proves(self, g):
        v = val(g)
        if v is not None:
            return v >= 0
        if any(sum(p for _, p in m) > 1 for m, c in monos(g)):
            return False
        f = [x for x in self.facts() if all(sum(p for _, p in m) <= 1 for m, c in monos(x))]
        key = (frozenset(x.id for x in f), g.id)
        if key not in self.memo:
            self.memo[key] = lp.implied([monos(x) for x in f], monos(g))
        return self.memo[key]

    def loopsym(self, g):
        for s in reversed(self.scopes):
            if free(g, s.sym):
                return s
        return None

    def ge(self, g):
        """is g >= 0 (an integer)?  decided, or the path or the loop is split"""
        g = self.norm(g)
        if self.proves(g):
            return True
        if self.proves(sub(neg(g), num(1))):
            return False
        s = self.loopsym(g)
        if s is None:
            if any(free(g, c) for sc in self.scopes for c in sc.cars.values()):
                raise Unresolved("a condition on a number carried between iterations")
            raise Fork([("ge", g), ("ge", sub(neg(g), num(1)))])
        li = linear_in(g, s.sym)
        if li is None or val(li[0]) not in (1, -1) or self.loopsym(li[1]) is not None:
            raise Unresolved("a condition inside a loop")
        # i + r >= 0 from -r on; -i + r >= 0 below r + 1
        raise Split(s.sym, [neg(li[1]) if val(li[0]) == 1 else add(li[1], num(1))])

    def eq(self, g):
        g = self.norm(g)
        if val(g) is not None:
            return val(g) == 0
        if self.proves(g) and self.proves(neg(g)):
            return True
        if self.proves(sub(g, num(1))) or self.proves(sub(neg(g), num(1))):
            return False
        s = self.loopsym(g)
        if s is None:
            if any(free(g, c) for sc in self.scopes for c in sc.cars.values()):
                raise Unresolved("a condition on a number carried between iterations")
            raise Fork([("eq", g), ("ge", sub(g, num(1))), ("ge", sub(neg(g), num(1)))])
        li = linear_in(g, s.sym)
        if li is None or val(li[0]) not in (1, -1) or self.loopsym(li[1]) is not None:
            raise Unresolved("a condition inside a loop")
        e = neg(li[1]) if val(li[0]) == 1 else li[1]
        raise Split(s.sym, [e, add(e, num(1))])

    def real(self, kind, p):
        """truth of p > 0 ('pos') or p == 0 ('zero') for a real number; an indicator inside loops"""
        p = self.norm(p)
        v = val(p)
        if v is not None:
            return v > 0 if kind == "pos" else v == 0
        if self.loopsym(p) is not None or any(free(p, c) for s in self.scopes for c in s.cars.values()):
            return mk("ind", kind, p)
        if (kind, p.id) in self.lits:
            return self.lits[(kind, p.id)]
        if kind == "pos" and (self.lits.get(("pos", neg(p).id)) or self.lits.get(("zero", p.id))):
            return False
        raise Fork([(kind, p, True), (kind, p, False)])

    # ---------------------------------------------------------------- arrays
    def read(self, arr, row, t=None):
        row = self.norm(row)
        for s in reversed(self.scopes):
            for a, r, tt, v in reversed(s.writes):
                if a != arr:
                    continue
                d = sub(r, row)
                if val(d) == 0:
                    if arr == "V" or tt is None:
                        return v if t is None or arr == "V" else put(v, CT, t)
                    if t is not None and tt is t:
                        return v
                    raise Unresolved("an element written and read under different subscripts")
                if val(d) is None and not self.proves(sub(d, num(1))) and not self.proves(sub(neg(d), num(1))):
                    raise Unresolved("an element written and read under different subscripts")
            s.reads.append((arr, row, t))
        for lo, hi, body in reversed(self.over[arr]):
            if self.ge(sub(row, lo)) and self.ge(sub(sub(hi, num(1)), row)):
                v = put(body, CI, row)
                return v if t is None or arr == "V" else put(v, CT, t)
        if arr == "V":
            return mk("V0", row)
        # levels above the active ones hold nothing
        if self.ge(sub(row, add(self.i0, self.n0))):
            return num(0)
        return mk("F0", row, CT if t is None else t)

    def write(self, arr, row, t, v):
        row = self.norm(row)
        if self.scopes:
            self.scopes[-1].writes.append((arr, row, t, v))
            return
        if arr == "F" and t is not None:
            raise Unresolved("one species of a level written")
        self.over[arr].append((row, add(row, num(1)), v))

    def split(self, ix):
        """subscript of the fills -> (level, species)"""
        ix = self.norm(ix)
        li = linear_in(ix, N)
        if li is None or free(li[0], N):
            raise Unresolved("subscript of the fills")
        return li

    # ---------------------------------------------------------------- expressions
    def here(self, n):
        return front.loc(self.stack[-1], n) if self.stack else "?"

    def key(self, e):
        while e["k"] in ("cast", "expr"):
            e = e["e"]
        if e["k"] == "ref" and e.get("c") not in ("enum", "func"):
            k = ("v", e["id"], e["n"])
            return self.env[k][1] if isinstance(self.env.get(k), tuple) and self.env[k][0] == "alias" else k
        if e["k"] == "mem":
            o = e["e"]
            while o["k"] in ("cast", "expr") or o["k"] == "un" and o["op"] in ("*", "&"):
                o = o["e"]
            if o["k"] == "this":
                return ("f", e["n"])
        return None

    def field(self, name, ty, t):
        if name == VOLS:
            return ("arr", "V")
        if name == FILLS:
            return ("arr", "F")
        if name == "n_traps":
            return N
        if name == "any_non_uniform_traps":
            return False
        if "valarray<double>" in (ty or "").replace("const ", ""):
            return ("const", name)
        if t in ("d", "i", "u"):
            return mk("par" if t == "d" else "isym", name, 0)
        return ("obj", name, ())

    def ev(self, e):
        k = e["k"]
        if k == "int":
            return num(e["v"])
        if k == "flt":
            return num(Fr(e["v"]))
        if k == "bool":
            return bool(e["v"])
        if k in ("defarg", "expr"):
            return self.ev(e["e"])
        if k == "sexpr":
            if not self.silent(e["b"]) and self.st(e["b"]) is not None:
                raise Unresolved("a statement expression")
            return num(0)
        if k == "cast":
            v = self.ev(e["e"])
            if isinstance(v, T) and e.get("t") in ("i", "u") and e["e"].get("t") == "d" and val(v) is None:
                raise Unresolved("a real number made an integer")
            return v
        if k == "this":
            return ("obj", "this", ())
        if k in ("ref", "mem"):
            kk = self.key(e)
            if kk is not None and kk in self.env:
                return self.env[kk]
            if e["n"] == "verbosity" and e.get("t") in ("i", "u"):
                return num(0)       # printing changes nothing (C12)
            if kk is not None and kk[0] == "f":
                return self.field(e["n"], e.get("ty"), e.get("t"))
            if k == "mem":
                o = self.ev(e["e"])
                if isinstance(o, tuple) and o[0] == "obj":
                    if e["n"] == "fractional_volume_full_exposed":
                        return num(0)
                    nm = o[1] + "." + e["n"]
                    if e.get("t") in ("d", "i", "u"):
                        return mk("elem", nm, *o[2])
                    return ("obj", nm, o[2])
            if k == "ref" and e.get("c") == "enum":
                return num(e["v"])
            if k == "ref" and e.get("t") in ("d", "i", "u"):
                return mk("par" if e["t"] == "d" else "isym", e["n"], 0)
            return None
        if k == "cond":
            c = self.truth(e["c"])
            if isinstance(c, T):
                a, b = self.need(self.ev(e["a"])), self.need(self.ev(e["b"]))
                return add(b, mul(c, sub(a, b)))
            return self.ev(e["a"] if c else e["b"])
        if k == "un":
            op = e["op"]
            if op in ("++", "--", "p++", "p--"):
                v = self.need(self.ev(e["e"]))
                w = add(v, num(1 if "+" in op else -1))
                self.store(e["e"], w)
                return v if op.startswith("p") else w
            if op == "!":
                c = self.truth(e)
                return c
            v = self.load(self.ev(e["e"]))
            if op == "-":
                return ("row", neg(v[1])) if isinstance(v, tuple) else neg(self.need(v))
            if op in ("+", "*", "&"):
                return v
            raise Unresolved("operator " + op)
        if k == "bin":
            op = e["op"]
            if op in ("&&", "||", "<", "<=", ">", ">=", "==", "!="):
                return self.truth(e)
            if op == ",":
                self.ev(e["a"])
                return self.ev(e["b"])
            return self.arith(op, self.ev(e["a"]), self.ev(e["b"]), e)
        if k == "asg":
            op = e["op"]
            v = self.load(self.ev(e["b"]))
            if op != "=":
                v = self.arith(op[:-1], self.ev(e["a"]), v, e)
            self.store(e["a"], v)
            return v
        if k == "ctor":
            ty = e.get("ty") or ""
            args = [self.ev(a) for a in e.get("args") or []]
            if "slice" in ty and "array" not in ty:
                return args[0] if len(args) == 1 else ("slice",) + tuple(self.need(a) for a in args)
            if "valarray" in ty:
                if len(args) == 1:
                    v = self.load(args[0])
                    if isinstance(v, tuple) and v[0] == "row":
                        return v
                    if isinstance(v, T) and self.norm(v) is N:
                        return ("row", num(0))
                if len(args) == 2 and isinstance(args[1], T) and self.norm(args[1]) is N and isinstance(args[0], T):
                    return ("row", args[0])
                raise Unresolved("an array built otherwise")
            return args[0] if len(args) == 1 else None
        if k == "idx":
            return self.index(e["a"], e["b"])
        if k == "call":
            return self.call(e)
        if k in ("str", "null", "zero", "lambda"):
            return num(0) if k == "zero" and e.get("t") in ("i", "u", "d") else None
        raise Unresolved("expression " + k)

    def need(self, v):
        v = self.load(v)
        if isinstance(v, bool):
            return num(1 if v else 0)
        if not isinstance(v, T):
            raise Unresolved("a value that is not followed")
        return v

    def load(self, v):
        if isinstance(v, tuple) and v:
            if v[0] == "view":
                return ("row", self.read(v[1], v[2]))
            if v[0] == "const":
                return ("row", mk("elem", v[1], CT))
        return v

    def arith(self, op, a, b, e):
        a, b = self.load(a), self.load(b)
        if a is None or b is None:
            raise Unresolved("a value that is not followed")
        ra, rb = isinstance(a, tuple), isinstance(b, tuple)
        if ra and a[0] != "row" or rb and b[0] != "row":
            raise Unresolved("arithmetic of whole arrays")
        x, y = a[1] if ra else self.need(a), b[1] if rb else self.need(b)
        if op == "+":
            r = add(x, y)
        elif op == "-":
            r = sub(x, y)
        elif op == "*":
            r = mul(x, y)
        elif op == "/" and e.get("t") in ("d", None) or op == "/" and (ra or rb):
            if val(y) == 0:
                raise Unresolved("division by zero")
            r = div(x, y) if len(monos(y)) == 1 else mk("call", "/", x, y)
        else:
            raise Unresolved("operator " + op)
        return ("row", r) if ra or rb else r

    def index(self, obj, ix):
        a = self.ev(obj)
        i = self.ev(ix)
        if not isinstance(a, tuple):
            raise Unresolved("an element of something else")
        if a[0] == "arr":
            if isinstance(i, tuple) and i[0] == "slice":
                if a[1] != "F" or self.norm(i[2]) is not N or val(i[3]) != 1:
                    raise Unresolved("a slice that is not a level")
                row, rest = self.split(i[1])
                if val(rest) != 0:
                    raise Unresolved("a slice that is not a level")
                return ("view", "F", row)
            i = self.need(i)
            if a[1] == "V":
                return self.read("V", i)
            row, t = self.split(i)
            return self.read("F", row, t)
        if a[0] == "const":
            return mk("elem", a[1], self.need(i))
        if a[0] == "row":
            return put(a[1], CT, self.need(i))
        if a[0] == "obj":
            return ("obj", a[1], a[2] + (self.need(i),))
        raise Unresolved("an element of something else")

    def truth(self, e):
        """bool, or an indicator term"""
        while e["k"] in ("expr",) or e["k"] == "cast" and e.get("t") == "b" and e["e"].get("t") == "b":
            e = e["e"]
        k = e["k"]
        if k == "un" and e["op"] == "!":
            c = self.truth(e["e"])
            return sub(num(1), c) if isinstance(c, T) else not c
        if k == "bin" and e["op"] in ("&&", "||"):
            a = self.truth(e["a"])
            if isinstance(a, bool):
                if a == (e["op"] == "||"):
                    return a
                return self.truth(e["b"])
            b = self.truth(e["b"])
            b = b if isinstance(b, T) else num(1 if b else 0)
            return mul(a, b) if e["op"] == "&&" else sub(add(a, b), mul(a, b))
        if k == "bin" and e["op"] in ("<", "<=", ">", ">=", "==", "!="):
            a, b = self.need(self.ev(e["a"])), self.need(self.ev(e["b"]))
            op = e["op"]
            d = sub(a, b)
            if e["a"].get("t") in ("i", "u", "b") and e["b"].get("t") in ("i", "u", "b"):
                if op == "==" or op == "!=":
                    return self.eq(d) == (op == "==")
                g = {"<": sub(neg(d), num(1)), "<=": neg(d), ">": sub(d, num(1)), ">=": d}[op]
                return self.ge(g)
            if op in ("==", "!="):
                c = self.real("zero", d)
                neg_ = op == "!="
            else:
                c = self.real("pos", {"<": neg(d), "<=": d, ">": d, ">=": neg(d)}[op])
                neg_ = op in ("<=", ">=")
            if not neg_:
                return c
            return sub(num(1), c) if isinstance(c, T) else not c
        v = self.ev(e)
        if isinstance(v, bool):
            return v
        if isinstance(v, T):
            if v.op in ("ind",) or e.get("t") == "b":
                return v
            return not self.eq(v) if e.get("t") in ("i", "u") else self.inverse(self.real("zero", v))
        raise Unresolved("a condition")

    @staticmethod
    def inverse(c):
        return sub(num(1), c) if isinstance(c, T) else not c

    def store(self, e, v):
        while e["k"] in ("cast", "expr"):
            e = e["e"]
        k = self.key(e)
        if k is not None:
            cur = self.env.get(k)
            if cur is None and k[0] == "f":
                cur = self.field(k[1], e.get("ty"), e.get("t"))
            if isinstance(cur, tuple) and cur[0] in ("arr", "const"):
                raise Unresolved("a whole array is assigned")
            if isinstance(v, (T, bool)) or v is None or isinstance(v, tuple) and v[0] in ("row", "obj", "slice"):
                self.env[k] = v
                return
            raise Unresolved("an assignment")
        if e["k"] in ("idx", "call"):
            obj, ix = (e["a"], e["b"]) if e["k"] == "idx" else (e.get("obj"), (e.get("args") or [None])[0])
            if e["k"] == "call" and e.get("op") != "[]":
                raise Unresolved("an assignment")
            a = self.ev(obj)
            i = self.ev(ix)
            if isinstance(a, tuple) and a[0] == "arr":
                if isinstance(i, tuple):
                    vw = self.index(obj, ix)
                    self.assign_view(vw, v)
                    return
                if a[1] == "V":
                    self.write("V", self.need(i), None, self.need(v))
                    return
                row, t = self.split(self.need(i))
                self.write("F", row, t, self.need(v))
                return
        raise Unresolved("an assignment to " + e["k"])

    def assign_view(self, vw, v):
        v = self.load(v)
        x = v[1] if isinstance(v, tuple) and v[0] == "row" else self.need(v)
        self.write(vw[1], vw[2], None, x)

    def call(self, e):
        f = e.get("f") or ""
        base = f.split("::")[-1]
        args = e.get("args") or []
        obj = e.get("obj")
        if e.get("op") == "[]" and obj is not None:
            return self.index(obj, args[0])
        ts = self.p.targets(e)
        if base == "operator=" and obj is not None:
            v = self.load(self.ev(args[0]))
            o = obj
            while o["k"] in ("cast", "expr"):
                o = o["e"]
            if o["k"] in ("idx", "call"):
                vw = self.ev(o)
                if isinstance(vw, tuple) and vw[0] == "view":
                    self.assign_view(vw, v)
                    return v
            self.store(obj, v)
            return v
        if base in ("operator+=", "operator-=", "operator*=", "operator/=") and obj is not None:
            w = self.ev(obj)
            r = self.arith(base[-2], w, self.ev(args[0]), e)
            if isinstance(w, tuple) and w[0] == "view":
                self.assign_view(w, r)
            else:
                self.store(obj, r)
            return r
        if base in ("operator+", "operator-", "operator*", "operator/"):
            es = ([obj] if obj is not None else []) + args
            if len(es) == 1 and base == "operator-":
                v = self.load(self.ev(es[0]))
                return ("row", neg(v[1]))
            return self.arith(base[-1], self.ev(es[0]), self.ev(es[1]), e)
        if base.startswith("operator ") and obj is not None:
            return self.load(self.ev(obj))
        if base == "sum" and obj is not None and not ts:
            v = self.load(self.ev(obj))
            if isinstance(v, tuple) and v[0] == "row":
                return st_(put(v[1], CT, BT))
            raise Unresolved("sum of an array")
        if base in vg.PRINTERS or base == "print_v" or base.startswith("print"):
            return num(0)
        if base in ("error", "exit", "abort") or e.get("noret"):
            raise Dead
        if base in ("max", "min", "fmax", "fmin") and len(args) == 2 and not ts:
            a, b = self.need(self.ev(args[0])), self.need(self.ev(args[1]))
            d = sub(a, b) if "max" in base else sub(b, a)
            if e.get("t") in ("i", "u"):
                return a if self.ge(d) else b
            c = self.real("pos", d)
            return add(b, mul(c, sub(a, b))) if isinstance(c, T) else a if c else b
        mine = obj is None or self.onthis(obj)
        if len(ts) >= 1 and mine and ts[0].get("cls"):
            t = ts[0]
            if len(ts) > 1:
                t = vg.method(self.p, self.cls, base) or t
            if "double" not in (t.get("ret") or "double") and e.get("t") in ("i", "u") and args and not self.writes(t):
                # the level above the cloud: an active level, or the one after the last
                vs = [self.need(self.ev(a)) for a in args]
                i, n = self.env[("f", FIRST)], self.env[("f", ACTIVE)]
                self.serial += 1
                if self.scopes:
                    raise Unresolved("a search inside a loop")
                k = mk("isym", "k%d" % self.serial, 0)
                if self.proves(sub(sub(i, k), num(1))) or self.proves(sub(k, add(add(i, n), num(1)))):
                    raise Dead
                self.lin += [sub(k, i), sub(add(i, n), k)]
                for c in (i, add(i, n)):
                    if k not in self.eqs and self.proves(sub(k, c)) and self.proves(sub(c, k)):
                        self.eqs[k] = c
                return self.norm(k)
            return self.enter(e, t)
        if len(ts) == 1 and mine and not ts[0].get("cls") and any("&" in p["ty"] and "const" not in p["ty"] for p in ts[0].get("params") or []):
            return self.enter(e, ts[0])
        if len(ts) == 1 and obj is None and ts[0].get("b") and self.followable(ts[0]):
            return self.enter(e, ts[0])
        vs = []
        if obj is not None:
            o = self.ev(obj)
            if not (isinstance(o, tuple) and o[0] == "obj"):
                raise Unresolved("a call on " + str(o)[:40])
            vs += [mk("isym", o[1], 0)] + list(o[2])
        for a in args:
            v = self.load(self.ev(a))
            vs.append(self.need(v))
        if e.get("t") not in ("d", "i", "u"):
            return None
        return self.norm(mk("call", base, *vs))

    def followable(self, f):
        return len(self.stack) < 6 and not any(x.get("k") in ("for", "while", "do") for x in front.walk(f["b"]))

    def writes(self, f):
        for x in front.walk(f["b"]):
            if x.get("k") == "asg" or x.get("k") == "un" and x["op"] in ("++", "--", "p++", "p--"):
                t = x.get("a") or x.get("e")
                while t["k"] in ("cast", "expr", "idx"):
                    t = t.get("e") or t.get("a")
                if t["k"] == "mem" or t["k"] == "call":
                    return True
            if x.get("k") == "call" and (x.get("f") or "").endswith("operator="):
                return True
        return False

    def onthis(self, o):
        while o["k"] in ("cast", "expr") or o["k"] == "un" and o["op"] in ("*", "&"):
            o = o["e"]
        return o["k"] == "this"

    def enter(self, e, g):
        if len(self.stack) > 7 or g in self.stack or not g.get("b"):
            raise Unresolved("a call of " + g["q"])
        vals = []
        for p, a in zip(g["params"], e.get("args") or []):
            k = self.key(a) if ("&" in p["ty"] and "const" not in p["ty"]) else None
            vals.append((("v", p["id"], p["n"]), ("alias", k) if k is not None else self.load(self.ev(a))))
        for k, v in vals:
            self.env[k] = v
        self.stack.append(g)
        r = self.st(g["b"])
        self.stack.pop()
        return r[1] if r is not None and r[0] == "ret" else None

    # ---------------------------------------------------------------- statements
    def st(self, n):
        """None, or ('ret', value), ('break',), ('cont',)"""
        if n is None:
            return None
        k = n["k"]
        if k == "blk":
            for x in n["b"]:
                r = self.st(x)
                if r is not None:
                    return r
            return None
        if k == "decl":
            for v in n["v"]:
                if "id" not in v:
                    continue
                key = ("v", v["id"], v["n"])
                if v.get("init") is None:
                    self.env[key] = None
                elif v.get("ref") and self.key(v["init"]) is not None:
                    kk = self.key(v["init"])
                    if kk not in self.env:
                        self.env[kk] = self.ev(v["init"])
                    self.env[key] = ("alias", kk) if not isinstance(self.env[kk], tuple) else self.env[kk]
                elif v.get("ref") and "const" not in (v.get("ty") or ""):
                    raise Unresolved("a reference to an element")
                else:
                    self.env[key] = self.load(self.ev(v["init"]))
            return None
        if k == "expr":
            self.ev(n["e"])
            return None
        if k == "sexpr":
            self.ev(n)
            return None
        if k == "if" and self.silent(n):
            return None
        if k == "if":
            c = self.truth(n["c"])
            if isinstance(c, T):
                return self.both(c, n)
            return self.st(n["a"] if c else n.get("b"))
        if k == "ret":
            return ("ret", self.load(self.ev(n["e"])) if n.get("e") is not None else None)
        if k in ("for", "while", "do"):
            return self.loop(n)
        if k == "break":
            return ("break",)
        if k == "continue":
            return ("cont",)
        if k in ("null", "nop"):
            return None
        if k in ("call", "asg", "un", "cast", "bin", "cond"):
            self.ev(n)
            return None
        raise Unresolved("statement " + k)

    def silent(self, n):
        """nothing but printing"""
        for x in front.walk(n):
            k = x.get("k")
            if k in ("asg", "ret", "break", "continue", "throw", "decl") or k == "un" and x["op"] in ("++", "--", "p++", "p--"):
                return False
            if k == "call" and x.get("op") != "[]":
                b = (x.get("f") or "").split("::")[-1]
                if b not in vg.PRINTERS and not b.startswith("print") and b not in vg.PURE and b != "gettimelapsed":
                    return False
        return True

    def both(self, c, n):
        """a branch inside a loop, on the data: both sides, joined with the indicator"""
        env0, w0 = dict(self.env), list(self.scopes[-1].writes)
        if self.st(n["a"]) is not None:
            raise Unresolved("a loop left early")
        enva, wa = self.env, self.scopes[-1].writes
        self.env, self.scopes[-1].writes = dict(env0), list(w0)
        if self.st(n.get("b")) is not None:
            raise Unresolved("a loop left early")
        envb, wb = self.env, self.scopes[-1].writes
        mix = lambda a, b: a if a is b else add(b, mul(c, sub(a, b)))
        out = {}
        for k in set(enva) | set(envb):
            a, b = enva.get(k), envb.get(k)
            out[k] = a if a is b or a == b else mix(a, b) if isinstance(a, T) and isinstance(b, T) else None
        self.env = out
        self.scopes[-1].writes = w0
        for ws, other, sign in ((wa[len(w0):], wb[len(w0):], True), (wb[len(w0):], wa[len(w0):], False)):
            for a, r, t, v in ws:
                o = [x for x in other if x[0] == a and x[1] is r and x[2] is t]
                if o and not sign:
                    continue
                w = o[-1][3] if o else self.read(a, r, t)
                self.scopes[-1].writes.append((a, r, t, mix(v, w) if sign else mix(w, v)))
        return None

    def assigned(self, n):
        out = set()
        seen = set()

        def go(x):
            for y in front.walk(x):
                if y.get("k") in ("asg", "un") and (y["k"] == "asg" or y["op"] in ("++", "--", "p++", "p--")):
                    k = self.key(y.get("a") or y.get("e"))
                    if k is not None:
                        out.add(k)
                if y.get("k") == "call":
                    for p, a in zip((self.p.targets(y) or [{}])[0].get("params") or [], y.get("args") or []):
                        if "&" in p["ty"] and "const" not in p["ty"] and self.key(a) is not None:
                            out.add(self.key(a))
                    for t in self.p.targets(y):
                        if t.get("b") and t["id"] not in seen and t.get("cls"):
                            seen.add(t["id"])
                            go(t["b"])
        go(n)
        return out

    def loop(self, n):
        env_key = None
        if n["k"] == "for":
            if n.get("init") is not None:
                r = self.st(n["init"])
            c = self.h.counter(n)
            down = None if c else self.downward(n)
            if c:
                x, bound, step, op = c
                x = ("v", x["id"], x["n"])
                if val(self.need(self.ev(step))) != 1 or op == "!=":
                    raise Unresolved("a loop")
                a = self.need(self.env[x])
                b = self.need(self.ev(bound))
                if op == "<=":
                    b = add(b, num(1))
                up = True
            elif down:
                x, bound, op = down
                b = add(self.need(self.env[x]), num(1))
                a = self.need(self.ev(bound))
                if op == ">":
                    a = add(a, num(1))
                up = False
            else:
                raise Unresolved("a loop")
            body = n["b"]
        else:
            m = self.whileloop(n)
            if m is None:
                raise Unresolved("a loop")
            x, a, b, up, body = m
        bound0 = (a, b)
        a, b = self.norm(a), self.norm(b)
        if not self.ge(sub(b, add(a, num(1)))):
            self.env[x] = a if up else sub(b, num(1))
            return None
        self.serial += 1
        sym = mk("isym", "loop%d" % self.serial, 0)
        kind = "t" if val(a) == 0 and b is N else "i"
        self.ranges(sym, kind, a, b, up, body, x)
        self.env[x] = b if up else sub(a, num(1))
        return None

    def downward(self, n):
        x = self.h.downward(n)
        c = n["c"]
        while c is not None and c["k"] in ("cast", "expr"):
            c = c["e"]
        return (x, c["b"], c["op"]) if x else None

    def whileloop(self, n):
        """while (v < b) { ...; v++; }"""
        if n["k"] != "while":
            return None
        body = n["b"]["b"] if n["b"]["k"] == "blk" else [n["b"]]
        if not body:
            return None
        last = body[-1]
        while last["k"] in ("expr", "sexpr"):
            last = last["e"]
        fake = {"k": "for", "init": None, "c": n["c"], "inc": last, "b": {"k": "blk", "b": body[:-1]}}
        if any(y.get("k") == "continue" for y in front.walk(n["b"])):
            return None
        c = self.h.counter(fake)
        if c:
            x = ("v", c[0]["id"], c[0]["n"])
            if val(self.need(self.ev(c[2]))) != 1 or c[3] == "!=" or not isinstance(self.env.get(x), T):
                return None
            b = self.need(self.ev(c[1]))
            return x, self.env[x], add(b, num(1)) if c[3] == "<=" else b, True, fake["b"]
        d = self.downward(fake)
        if d:
            x = d[0]
            a = self.need(self.ev(d[1]))
            return x, add(a, num(1)) if d[-1] == ">" else a, add(self.need(self.env[x]), num(1)), False, fake["b"]
        return None

    def ranges(self, sym, kind, a, b, up, body, x):
        """iterations a <= i < b, in pieces that each behave uniformly"""
        todo = [(a, b)]
        cuts = 0
        while todo:
            lo, hi = todo.pop(0)
            snap = (dict(self.env), {k: list(v) for k, v in self.over.items()}, self.serial, len(self.scopes),
                    [(list(s.writes), list(s.reads)) for s in self.scopes], len(self.stack))
            try:
                self.piece(sym, kind, lo, hi, up, body, x)
            except Split as sp:
                self.env, self.over, self.serial = snap[0], snap[1], snap[2]
                del self.scopes[snap[3]:]
                del self.stack[snap[5]:]
                for s, (w, r) in zip(self.scopes, snap[4]):
                    s.writes, s.reads = w, r
                if sp.sym is not sym:
                    raise
                cuts += 1
                if cuts > 8:
                    raise Unresolved("a loop in too many pieces")
                pts = [lo]
                for e in sp.points:
                    e = self.norm(e)
                    if self.ge(sub(e, add(pts[-1], num(1)))) and self.ge(sub(hi, add(e, num(1)))):
                        pts.append(e)
                pts.append(hi)
                if len(pts) == 2:
                    raise Unresolved("a loop that does not split")
                new = list(zip(pts, pts[1:]))
                todo = (new if up else new[::-1]) + todo

    def piece(self, sym, kind, a, b, up, body, x):
        sc = Scope(sym, kind, a, b, up)
        before = dict(self.env)
        ks = [k for k in self.assigned(body) if k in self.env and k != x]
        for k in ks:
            if isinstance(self.env[k], T):
                c = mk("car", str(k), sym)
                sc.cars[k] = c
                self.env[k] = c
        self.scopes.append(sc)
        self.env[x] = sym
        r = self.st(body)
        if r is not None and r[0] != "cont":
            raise Unresolved("a loop left early")
        if self.env.get(x) is not sym:
            raise Unresolved("a counter changed in the loop")
        self.scopes.pop()
        # numbers carried from one iteration to the next
        outs = {k: self.env.get(k) for k in sc.cars}
        start, end = {}, {}
        change = True
        while change:
            change = False
            for k, c in sc.cars.items():
                if k in start:
                    continue
                o = outs[k]
                if o is c:
                    start[k] = end[k] = before[k]
                    change = True
                    continue
                if not isinstance(o, T):
                    continue
                for kk, cc in sc.cars.items():
                    if kk in start and start[kk] is not None:
                        o = put(o, cc, start[kk])
                g = sub(o, c)
                if any(free(g, cc) for cc in sc.cars.values()):
                    continue
                if kind == "t":
                    s = st_(put(g, sym, BT))
                    start[k], end[k] = None, add(before[k], s)
                elif up:
                    p = put(g, sym, BI)
                    start[k] = add(before[k], sub(prim(p, sym), prim(p, a)))
                    end[k] = add(before[k], sub(prim(p, b), prim(p, a)))
                else:
                    p = put(g, sym, BI)
                    start[k] = add(before[k], sub(prim(p, b), prim(p, add(sym, num(1)))))
                    end[k] = add(before[k], sub(prim(p, b), prim(p, a)))
                change = True

        def closed(v):
            for kk, cc in sc.cars.items():
                if free(v, cc):
                    if start.get(kk) is None:
                        return None
                    v = put(v, cc, start[kk])
            return v
        last = sub(b, num(1)) if up else a
        for k, c in sc.cars.items():
            if k in end:
                self.env[k] = end[k]
            elif isinstance(outs[k], T):
                o = closed(outs[k])
                self.env[k] = put(o, sym, last) if o is not None else None
            else:
                self.env[k] = None
        for k in list(self.env):
            if k not in sc.cars and k != x and isinstance(self.env[k], T) and free(self.env[k], sym):
                o = closed(self.env[k])
                self.env[k] = put(o, sym, last) if o is not None else None
            elif isinstance(self.env[k], tuple) and self.env[k][0] == "row" and free(self.env[k][1], sym):
                self.env[k] = None
        # elements written
        ups = {}
        for arr, row, t, v in sc.writes:
            v = closed(v)
            if v is None:
                raise Unresolved("an element depends on a number carried between iterations")
            if kind == "t":
                if arr != "F" or t is None or t is not sym or free(row, sym):
                    raise Unresolved("an element written for every species")
                ups[(arr, row)] = put(v, sym, CT)
            else:
                w = sub(row, sym)
                if free(w, sym) or arr == "F" and t is not None:
                    raise Unresolved("an element written by every iteration")
                ups[(arr, w)] = v
        if kind == "t":
            for arr, row, t in sc.reads:
                if arr == "F" and ("F", row) in ups and t is not sym:
                    raise Unresolved("another species read in the loop that writes")
            for (arr, row), v in ups.items():
                for r0, t0 in [(r, t) for a_, r, t in sc.reads if a_ == "F" and r is not row]:
                    d = sub(r0, row)
                    if not (self.proves(sub(d, num(1))) or self.proves(sub(neg(d), num(1)))):
                        raise Unresolved("another level read in the loop that writes")
                self.write(arr, row, None, v)
            return
        if len({a_ for a_, w in ups}) < len(ups):
            raise Unresolved("two elements of one array written in each iteration")
        for (arr, w), v in ups.items():
            for a_, row, t in sc.reads:
                if a_ != arr:
                    continue
                d = sub(sub(row, sym), w)
                if free(row, sym) and not free(d, sym):
                    bad = neg(d) if up else d
                    # an element written by an earlier iteration is read
                    if not self.proves(neg(bad)):
                        raise Unresolved("an element written by an earlier iteration is read")
                elif not (self.proves(sub(add(a, w), add(row, num(1)))) or self.proves(sub(row, add(b, w)))):
                    raise Unresolved("an element that the loop writes is read")
        for (arr, w), v in ups.items():
            content = put(v, sym, sub(CI, w))
            if self.scopes:
                raise Unresolved("levels written in nested loops")
            self.over[arr].append((add(a, w), add(b, w), content))

    # ---------------------------------------------------------------- totals
    def total(self, lo, hi):
        """sum over lo <= i < hi of volume times fills, as the arrays are now"""
        if not self.ge(sub(hi, add(lo, num(1)))):
            return num(0)
        self.serial += 1
        sym = mk("isym", "level%d" % self.serial, 0)
        out = num(0)
        todo = [(lo, hi)]
        cuts = 0
        while todo:
            a, b = todo.pop(0)
            self.scopes.append(Scope(sym, "i", a, b, True))
            try:
                v = self.read("V", sym)
                f = self.read("F", sym)
                self.scopes.pop()
            except Split as sp:
                self.scopes.pop()
                cuts += 1
                if cuts > 30:
                    raise Unresolved("occupancy in too many pieces")
                pts = [a]
                for e in sp.points:
                    e = self.norm(e)
                    if self.ge(sub(e, add(pts[-1], num(1)))) and self.ge(sub(b, add(e, num(1)))):
                        pts.append(e)
                pts.append(b)
                if len(pts) == 2:
                    raise Unresolved("occupancy that does not split")
                todo = list(zip(pts, pts[1:])) + todo
                continue
            body = put(mul(v, st_(put(f, CT, BT))), sym, BI)
            out = add(out, sub(prim(body, b), prim(body, a)))
        return out

    def balance(self, f, cls):
        """returned - (held before - held after)"""
        self.cls = cls
        before = self.total(self.i0, add(self.i0, self.n0))
        self.stack = [f]
        for p in f["params"]:
            self.env[("v", p["id"], p["n"])] = mk("par", p["n"], 0)
        r = self.st(f["b"])
        ret = r[1] if r is not None else None
        after = self.total(self.env[("f", FIRST)], add(self.env[("f", FIRST)], self.env[("f", ACTIVE)]))
        d = self.norm(sub(self.need(ret), sub(before, after)))
        return self.settle(d), r

    def settle(self, d):
        """bounds that are equal by the facts of the path made equal"""
        for _ in range(4):
            if val(d) == 0:
                break
            xs = {t.a[1] for t in atoms(d, lambda t: t.op == "PRIM")} | {t.a[0] for t in atoms(d, lambda t: t.op in ("V0", "F0")) if not free(t.a[0], BI)}
            xs = sorted(xs | isyms(d, set()) - {N}, key=lambda t: t.id)
            hit = False
            for i, x in enumerate(xs):
                for y in xs[:i]:
                    for c0 in (0, 1, -1, 2, -2):
                        g = sub(sub(x, y), num(c0))
                        if val(g) is None and not free(g, BI) and self.proves(g) and self.proves(neg(g)):
                            for m, c in monos(g):
                                if len(m) == 1 and m[0][0].op == "isym" and abs(c) == 1:
                                    d = put(d, m[0][0], mul(num(-1 / c), sub(g, mul(num(c), m[0][0]))))
                                    hit = True
                                    break
                        if hit:
                            break
                    if hit:
                        break
                if hit:
                    break
            if not hit:
                break
        return d


# ------------------------------------------------------------------ numbers that show an imbalance
class Numbers:
    def __init__(self, rnd, ints):
        self.rnd, self.ints, self.tab = rnd, ints, {}

    def draw(self, *key):
        if key not in self.tab:
            self.tab[key] = 0.05 + 0.9 * self.rnd.random()
        return self.tab[key]

    def of(self, t, env=()):
        op = t.op
        if op == "poly":
            s = 0.0
            for m, c in t.a[0]:
                x = float(c)
                for a, p in m:
                    x *= self.of(a, env) ** p
                s += x
            return s
        for v, w in env:
            if t is v:
                return w
        if op == "isym":
            return self.ints.setdefault(t, 0)
        if op == "par":
            return 3 * self.draw("par", t.id)
        if op == "car":
            raise KeyError
        if op == "call" and t.a[0] == "/":
            return self.of(t.a[1], env) / self.of(t.a[2], env)
        if op == "call" and t.a[0] in ("abs", "fabs"):
            return abs(self.of(t.a[1], env))
        if op in ("V0", "F0", "elem", "call"):
            a = [round(self.of(x, env), 9) if isinstance(x, T) else x for x in t.a]
            return self.draw(op, *a)
        if op == "St":
            return sum(self.of(t.a[0], ((BT, j),) + env) for j in range(self.ints[N]))
        if op == "PRIM":
            x = int(round(self.of(t.a[1], env)))
            if x >= 0:
                return sum(self.of(t.a[0], ((BI, j),) + env) for j in range(x))
            return -sum(self.of(t.a[0], ((BI, j),) + env) for j in range(x, 0))
        if op == "ind":
            v = self.of(t.a[1], env)
            return 1.0 if (v > 0 if t.a[0] == "pos" else v == 0) else 0.0
        if op == "fn":
            v = [self.of(x, env) for x in t.a[1:] if isinstance(x, T)]
            if t.a[0] in ("abs", "fabs"):
                return abs(v[0])
        if op == "grp":
            return self.of(t.a[0], env)
        raise KeyError(op)


def isyms(t, out):
    if t.op == "isym" and t not in (BI, BT, CI, CT):
        out.add(t)
    for x in subs(t):
        isyms(x, out)
    return out


def witness(L, d, tries=4000):
    rnd = random.Random(7)
    syms = isyms(d, set())
    for g in L.lin:
        isyms(g, syms)
    syms |= {N}
    for k, g, b in L.lits.get("list", []):
        isyms(g, syms)
    syms = sorted(syms, key=lambda t: t.id)
    for _ in range(tries):
        ints = {s: rnd.choice((0, 1, 1, 2, 3, 4)) for s in syms}
        ints[N] = rnd.choice((1, 2))
        nm = Numbers(rnd, ints)
        try:
            for a, v in reversed(list(L.eqs.items())):
                if a.op == "isym" and a in ints:
                    ints[a] = int(nm.of(v))
            if any(nm.of(g) < -1e-9 for g in L.lin):
                continue
            ok = True
            for k, g, b in L.lits.get("list", []):
                g = L.norm(g)
                x = nm.of(g)
                if (x > 0 if k == "pos" else abs(x) < 1e-12) != b:
                    ok = False
                    break
            if ok and abs(nm.of(d)) > 1e-7:
                return {t.a[0]: v for t, v in ints.items() if not str(t.a[0]).startswith("#")}, nm.of(d)
        except (KeyError, ZeroDivisionError, OverflowError, TypeError):
            continue
    return None


def words(a):
    k, g = a[0], a[1]
    s = str(g)[:110]
    if k == "ge":
        return s + " >= 0"
    if k == "eq":
        return s + " == 0"
    return "%s(%s %s 0)" % ("" if a[2] else "not ", s, ">" if k == "pos" else "==")


def one(prog, helper, f, cls, asm):
    """a path: ('done', ledger, difference) or ('fork', alternatives) or ('lost', why) or None"""
    try:
        L = Ledger(prog, helper, asm)
        return "done", L, L.balance(f, cls)[0]
    except Fork as fk:
        return "fork", fk.alts
    except Dead:
        return None
    except Unresolved as u:
        return "lost", "%s: %s" % (f["q"], u)
    except Split:
        return "lost", "%s: a condition on a loop's counter" % f["q"]
    except RecursionError:
        return "lost", "%s: too deep" % f["q"]


JOB = {}


def work(k):
    """all paths below the k-th collection of assumptions -> plain text"""
    prog, helper, jobs, end = JOB["all"]
    f, cls, asm = jobs[k]
    out, todo, n = [], [asm], 0
    bad = 0
    while todo:
        a = todo.pop()
        n += 1
        if n > LIMIT or time.time() > end:
            out.append(("lost", "%s: more than %d paths" % (f["q"], n)))
            break
        x = one(prog, helper, f, cls, a)
        if x is None:
            continue
        if x[0] == "fork":
            todo += [a + [y] for y in x[1][::-1]]
        elif x[0] == "lost":
            out.append(x)
        elif val(x[2]) == 0:
            out.append(("ok", "; ".join(words(y) for y in a[:6])))
        elif bad > 3:
            out.append(("lost", "%s: further unbalanced paths not shown" % f["q"]))
        else:
            w = witness(x[1], x[2])
            if w is None:
                out.append(("lost", "%s: balance not decided on a path: %s" % (f["q"], str(x[2])[:200])))
                bad += 1
            else:
                bad += 1
                out.append(("bad", "off by %s (e.g. by %.3g with %s) when %s" % (
                    str(x[2])[:300], w[1], ", ".join("%s=%d" % kv for kv in sorted(w[0].items())), "; ".join(words(y) for y in a[:8]))))
    return k, out


LIMIT = 4000


def run(r, prog):
    import shapes
    import multiprocessing
    helper = shapes.Exec(prog)
    fs = [f for f in sorted(prog.defined(), key=lambda f: f["q"])
          if f["q"].split("::")[-1] == "n_electrons_released_and_captured" and f.get("cls") and not f["cls"].endswith("Base")]
    jobs = []
    for f in fs:
        todo = [[]]
        # the first forks here, what is below them in parallel
        while todo and len(todo) < 12:
            a = todo.pop(0)
            x = one(prog, helper, f, f["cls"], a)
            if x is not None and x[0] == "fork":
                todo += [a + [y] for y in x[1]]
            elif x is not None:
                jobs.append((f, f["cls"], a))
        jobs += [(f, f["cls"], a) for a in todo]
    JOB["all"] = prog, helper, jobs, time.time() + 300
    order = sorted(range(len(jobs)), key=lambda k: "Slow" not in jobs[k][1])
    with multiprocessing.get_context("fork").Pool(min(8, multiprocessing.cpu_count())) as pool:
        res = dict(pool.imap_unordered(work, order, 1))
    lost, seen = set(), set()
    for k in range(len(jobs)):
        f, cls, a = jobs[k]
        for kind, text in res[k]:
            if kind == "ok":
                r.ok(front.loc(f), "%s: the charge returned is what the occupancy lost, when %s" % (cls, text))
                r.count("ledger_paths", 1)
            elif kind == "bad":
                r.count("ledger_paths", 1)
                if cls not in seen:
                    r.bad("C13:ledger:%s" % cls, front.loc(f), "the charge %s returns is not what its occupancy lost: %s" % (cls, text))
                seen.add(cls)
            elif text not in lost:
                lost.add(text)
                r.undecided(front.loc(f), text)
    r.count("ledgers", len(fs))
