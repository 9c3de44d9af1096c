"""Fractions stay between zero and one.

Every quantity the property names is summarised as a value-graph term over the model's parameters, and both
bounds are proved on every branch of it:

 - a conditional is split into its branches, each under the conditions that lead to it;
 - a branch is inside when the conditions themselves say so (a clamp), by a Farkas combination of them;
 - exp(x) with x <= 0 and pow(b, p) with 0 <= b <= 1, p > 0 are numbers between 0 and 1; a polynomial linear in such
   numbers is smallest at a corner, where what is left must have no negative term; a positive denominator is
   multiplied out.

Where no proof is found, an assignment of the parameters for which the term itself lies outside [0, 1] is looked
for; only then is there a violation."""
import itertools
import math
import random
import front
import vg
import lp
from terms import num, val, add, sub, neg, monos, poly, mul, mk, subst, subs, Fr

UNIT = {"first_electron_fill", "fill_capture_long_time"}
TABLES = {"fill_fraction_table", "fill_fraction_capture_table"}
POS = {"full_well_depth", "well_notch_depth", "well_fill_power", "release_timescale", "capture_timescale", "release_rate",
       "capture_rate", "dwell_time", "release_timescale_sigma", "time_min", "time_max", "d_log_time", "n_intp", "tau", "mu", "sigma",
       "time_elapsed", "n_traps"}
DIRECT = {"CCDPhase::cloud_fractional_volume_from_electrons": "the fractional volume of a charge cloud",
          "TrapInstantCapture::fill_fraction_from_time_elapsed": "the fill fraction after a time",
          "TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed_table": "the tabulated fill fraction",
          "TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed_table": "the tabulated fill fraction",
          "TrapSlowCaptureContinuum::fill_fraction_after_slow_capture_table": "the tabulated fill fraction after slow capture"}
STORED = "set_fill_probabilities"


def last(t):
    """the name of the parameter or field an atom stands for"""
    if t.op == "parg":
        return t.a[0]
    if t.op == "fld":
        return t.a[0]
    if t.op == "init":
        p = t.a[0]
        x = p[-1] if isinstance(p, tuple) else None
        if isinstance(x, tuple) and x and x[0] == "f":
            return x[1]
    return None


def table(t):
    return t.op == "sel" and last(t.a[0]) in TABLES


class Prover:
    def __init__(self, free=()):
        self.free = set(free)       # parameters that may be anything
        self.memo = {}
        self.steps = 0

    def kind(self, a, facts):
        """'u' in [0,1], 'p' >= 0, None"""
        k = (a.id, tuple(f.id for f in facts))
        if k not in self.memo:
            self.memo[k] = None
            self.memo[k] = self._kind(a, facts)
        return self.memo[k]

    def _kind(self, a, facts):
        n = last(a)
        if n is not None and n not in self.free:
            if n in UNIT:
                return "u"
            if n in POS:
                return "p"
        if table(a):
            return "u"
        if a.op == "fn":
            if a.a[0] == "exp":
                return "u" if self.ge0(neg(a.a[1]), facts) else "p"
            if a.a[0] == "sqrt":
                return "p"
            if a.a[0] == "pow":
                b, e = a.a[1], a.a[2]
                if val(e) is not None and val(e) % 2 == 0:
                    return "p"
                if self.ge0(e, facts) and self.between(b, facts):
                    return "u"
                if self.ge0(b, facts):
                    return "p"
        if a.op == "fn" and a.a[0] in ("fabs", "abs"):
            return "p"
        return None

    def between(self, t, facts):
        return self.ge0(t, facts) and self.ge0(sub(num(1), t), facts)

    # ---- conditionals
    def cond(self, c, truth):
        """the ways in which condition c has that truth: lists of facts (polynomials >= 0)"""
        if c.op == "not":
            return self.cond(c.a[0], not truth)
        if c.op in ("and", "or"):
            l = c.a[0] if len(c.a) == 1 and isinstance(c.a[0], tuple) else c.a
            if (c.op == "and") == truth:
                r = [[]]
                for x in l:
                    r = [y + z for y in r for z in self.cond(x, truth)]
                return r
            r = []
            done = [[]]
            for x in l:
                r += [y + z for y in done for z in self.cond(x, truth)]
                done = [y + z for y in done for z in self.cond(x, not truth)]
            return r
        if c.op in ("ge0", "gt0"):
            return [[c.a[0] if truth else neg(c.a[0])]]
        if c.op == "eq0":
            return [[c.a[0], neg(c.a[0])]] if truth else [[]]
        return [[]]

    def ites(self, t):
        return [a for m, c in monos(t) for a, p in m if a.op == "ite"]

    def cases(self, t, facts):
        """(value without conditionals at the top, facts)"""
        self.steps += 1
        if self.steps > 4000:
            yield None, facts
            return
        l = self.ites(t)
        if not l:
            yield t, facts
            return
        a = l[0]
        for v, truth in ((a.a[1], True), (a.a[2], False)):
            for f in self.cond(a.a[0], truth):
                f = [x for x in f if x not in facts]
                nf = facts + f
                if f and self.contra(nf):
                    continue
                u = subst(t, {a.id: v}, {})
                yield from self.cases(u, [subst(x, {a.id: v}, {}) for x in nf])

    def contra(self, facts):
        return lp.feasible([dict(monos(f)) for f in facts] + [{(): Fr(1)}], {(): Fr(-1)}) if facts else False

    # ---- polynomials
    def clear(self, p, facts):
        """multiply out the denominators whose sign is known; None if one is not"""
        for _ in range(12):
            g = None
            for m, c in monos(p):
                for a, k in m:
                    if k < 0 and (a.op == "grp" or not self.kind(a, facts)):
                        g = a
            if g is None:
                break
            if g.op != "grp":
                return None
            b = g.a[0]
            s = 1 if self.ge0(b, facts) else -1 if self.ge0(neg(b), facts) else 0
            if not s:
                return None
            e = max(-k for m, c in monos(p) for a, k in m if a is g)
            r = num(0)
            for m, c in monos(p):
                k = sum(k for a, k in m if a is g)
                x = poly({tuple((a, q) for a, q in m if a is not g): c})
                if k + e < 0:
                    return None
                for _ in range(k + e):
                    x = mul(x, b)
                r = add(r, x)
            if s < 0 and e % 2:
                r = neg(r)
            p = r
        # single denominators of positive quantities
        low = {}
        for m, c in monos(p):
            for a, k in m:
                if k < 0:
                    low[a] = min(low.get(a, 0), k)
        if low:
            p = mul(p, poly({tuple(sorted(((a, -k) for a, k in low.items()), key=lambda x: x[0].id)): Fr(1)}))
        return p

    def ge0(self, t, facts):
        if facts and lp.feasible([dict(monos(f)) for f in facts] + [{(): Fr(1)}], dict(monos(t))):
            return True
        if self.ites(t):
            return all(u is not None and self.ge0(u, f) for u, f in self.cases(t, facts))
        v = val(t)
        if v is not None:
            return v >= 0 or self.contra(facts)
        for order in (("well_notch_depth", "full_well_depth"),):
            t = self.order(t, order)
        p = self.clear(t, facts)
        if p is None:
            return False
        ats = sorted({a for m, c in monos(p) for a, k in m}, key=lambda a: a.id)
        ks = {a: self.kind(a, facts) for a in ats}
        if not all(ks.values()):
            return False
        units = [a for a in ats if ks[a] == "u" and all(0 <= k <= 1 for m, c in monos(p) for b, k in m if b is a)]
        if len(units) > 10:
            return False
        for vs in itertools.product((0, 1), repeat=len(units)):
            q = subst(p, {a.id: num(v) for a, v in zip(units, vs)}, {})
            if any(c < 0 for m, c in monos(q)):
                return False
        return True

    def order(self, t, names):
        """full_well_depth >= well_notch_depth: written as notch + a positive difference"""
        by = {}
        for m, c in monos(t):
            for a, k in m:
                if last(a) in names:
                    by[last(a)] = a
        hi = by.get(names[1])
        lo = by.get(names[0])
        if hi is None or lo is None or any(k < 0 for m, c in monos(t) for a, k in m if a is hi):
            return t
        d = mk("parg", "n_traps", "well")      # a non-negative number
        return subst(t, {hi.id: add(lo, d)}, {})


# ------------------------------------------------------------------ values for a counterexample
class Skip(Exception):
    pass


class Valuation:
    def __init__(self, rng):
        self.rng = rng
        self.v = {}
        lo = rng.choice((1e-3, 0.1, 1.0))
        self.p = {"time_min": lo, "time_max": lo * 10 ** rng.choice((1, 2, 4)), "n_intp": rng.choice((3, 8, 50))}
        self.p["d_log_time"] = math.log(self.p["time_max"] / lo) / (self.p["n_intp"] - 1)
        self.p["well_notch_depth"] = rng.choice((0.0, 10.0, 100.0))
        self.p["full_well_depth"] = self.p["well_notch_depth"] + rng.choice((1.0, 50.0, 1e4))
        self.p["well_fill_power"] = rng.choice((0.3, 0.58, 1.0, 2.0))
        self.p["first_electron_fill"] = rng.choice((0.0, 0.0, 0.2, 1.0))
        self.tau = rng.choice((0.3, 1.0, 20.0)) * lo
        self.memo = {}

    def param(self, n):
        if n not in self.p:
            r = self.rng
            if n == "n_electrons":
                f = self.p["full_well_depth"]
                x = r.choice((-5.0, 0.0, 1.0, f / 2, f, 1.5 * f, 10 * f, r.uniform(0, 2 * f)))
            elif n == "time_elapsed":
                a, b = self.p["time_min"], self.p["time_max"]
                x = r.choice((0.0, a / 30, a, a * 1.1, b, b * 1.3, b * 30, math.exp(r.uniform(math.log(a / 100), math.log(b * 100)))))
            elif n == "fill_capture_long_time" or n in UNIT:
                x = r.random()
            elif n in POS:
                x = r.choice((1e-3, 0.5, 1.0, 3.0, 100.0)) * r.uniform(0.9, 1.1)
                if n == "n_traps":
                    x = r.randint(1, 3)
            else:
                raise Skip
            self.p[n] = x
        return self.p[n]

    def ev(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._ev(t)
        return r

    def _ev(self, t):
        o = t.op
        if o == "poly":
            s = 0.0
            for m, c in t.a[0]:
                x = float(c)
                for a, k in m:
                    y = self.ev(a)
                    if k < 0 and y == 0:
                        raise Skip
                    x *= y ** k
                s += x
            return s
        if o == "grp":
            return self.ev(t.a[0])
        if o == "ite":
            return self.ev(t.a[1] if self.ev(t.a[0]) else t.a[2])
        if o == "ge0":
            return self.ev(t.a[0]) >= 0
        if o == "gt0":
            return self.ev(t.a[0]) > 0
        if o == "eq0":
            return self.ev(t.a[0]) == 0
        if o == "not":
            return not self.ev(t.a[0])
        if o in ("and", "or"):
            l = t.a[0] if len(t.a) == 1 and isinstance(t.a[0], tuple) else t.a
            return (all if o == "and" else any)(self.ev(x) for x in l)
        if o == "fn":
            n = t.a[0]
            if n == "DBL_MAX":
                return 1.7976931348623157e308
            x = [self.ev(a) for a in t.a[1:]]
            try:
                if n == "exp":
                    return math.exp(x[0])
                if n == "log":
                    return math.log(x[0])
                if n == "log10":
                    return math.log10(x[0])
                if n == "sqrt":
                    return math.sqrt(x[0])
                if n == "pow":
                    return math.pow(x[0], x[1])
                if n == "floor":
                    return float(math.floor(x[0]))
                if n == "ceil":
                    return float(math.ceil(x[0]))
                if n == "toint":
                    return float(int(x[0]))
                if n in ("fabs", "abs"):
                    return abs(x[0])
                if n in ("max", "fmax"):
                    return max(x)
                if n in ("min", "fmin"):
                    return min(x)
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Skip
            raise Skip
        if table(t):
            i = self.ev(t.a[1])
            if not 0 <= i <= self.p["n_intp"] - 1:
                raise Skip
            return math.exp(-self.p["time_max"] * math.exp(-i * self.p["d_log_time"]) / self.tau)
        n = last(t)
        if n is not None:
            return self.param(n)
        raise Skip


def outside(t, seed=20):
    rng = random.Random(seed)
    for _ in range(3000):
        v = Valuation(rng)
        try:
            x = v.ev(t)
        except (Skip, OverflowError):
            continue
        if x != x or isinstance(x, bool):
            continue
        if x < -1e-6 or x > 1 + 1e-6:
            names = {last(a) for a in _all(t)} - {None}
            return "%.6g with %s" % (x, ", ".join("%s = %.4g" % (n, v.p[n]) for n in sorted(names) if n in v.p))
    return None


def _all(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(subs(x))


def judge(r, f, t, what, key):
    w = front.loc(f, f["b"])
    P = Prover({"n_electrons"})
    lo = P.ge0(t, [])
    hi = P.ge0(sub(num(1), t), [])
    r.count("bounds", 2)
    if lo and hi:
        r.ok(w, "%s lies between 0 and 1 (%d cases)" % (what, P.steps))
        return
    x = outside(t)
    if x:
        r.bad("C20:%s:%s" % (f["q"].split("(")[0], key), w, "%s leaves [0, 1]: it is %s" % (what, x))
    else:
        r.undecided(w, "%s of %s not proved" % (" and ".join(n for n, b in (("lower bound", lo), ("upper bound", hi)) if not b), what))


def elements(t):
    """values stored in an array term: [value], or None"""
    if t.op == "map":
        e = elements(t.a[0]) if isinstance(t.a[0], type(t)) else None
        return None if e is None else e + [t.a[-1]]
    if t.op == "fill":
        return [t.a[1]]
    if t.op == "store":
        b = elements(t.a[0])
        return None if b is None else b + [t.a[2]]
    if t.op == "rv":
        return []
    if t.op == "ite":
        a, b = elements(t.a[1]), elements(t.a[2])
        return None if a is None or b is None else a + b
    if t.op == "rec":
        out = []
        for x in t.a[1:]:
            for y in (x if isinstance(x, tuple) else (x,)):
                if not hasattr(y, "op"):
                    continue
                e = elements(y)
                if e is None:
                    return None
                out += e
        return out
    if t.op == "init":
        return []
    return None


def squares(t):
    """pow(x, 2) written as a product"""
    for a in [a for m, c in monos(t) for a, p in m if a.op == "fn" and a.a[0] == "pow" and val(a.a[2]) == 2]:
        t = subst(t, {a.id: mul(a.a[1], a.a[1])}, {})
    return t


def integrand(r, f, prog):
    """a probability density of the timescale, times a number between 0 and 1"""
    try:
        t = vg.VG(prog).run(f)[0]
    except Exception as e:
        r.undecided(front.rel(f), "%s: %s" % (f["q"], str(e)[:80]))
        return
    w = front.loc(f, f["b"])
    ats = list(_all(t))
    tau = [a for a in ats if a.op == "parg" and a.a[0] == "tau"] or [a for a in ats if a.op == "parg" and a.a[1] == "d"]
    sg = [a for a in ats if last(a) == "sigma"]
    gs = [a for a in ats if a.op == "fn" and a.a[0] == "exp" and any(b.op == "fn" and b.a[0] == "log" for b in _all(a)) and any(b in sg for b in _all(a))]
    rt = [a for a in ats if a.op == "fn" and a.a[0] == "sqrt"]
    if len(tau) != 1 or len(sg) != 1 or len(gs) != 1 or len(rt) > 1:
        r.undecided(w, "no lognormal density recognised in the integrand")
        return
    mu = [a for a in _all(gs[0]) if last(a) == "mu"]
    want = None
    if len(mu) == 1:
        z = sub(mk("fn", "log", tau[0]), mk("fn", "log", mu[0]))
        want = mul(mul(z, z), mul(num(Fr(-1, 2)), poly({((sg[0], -2),): Fr(1)})))
    if not rt:
        rt = [mk("fn", "sqrt", num(Fr(math.pi * 2)))]
    c2 = val(rt[0].a[1])
    if want is None or squares(gs[0].a[1]) is not want or c2 is None or c2 <= 0:
        r.undecided(w, "the exponent of the density is not that of a lognormal one")
        return
    k = 2 * math.pi / float(c2)
    k = Fr(1) if abs(k - 1) < 1e-9 else Fr(math.sqrt(k)).limit_denominator(10 ** 6)
    # what is left once the normalised density is divided out
    d = {tau[0]: -1, sg[0]: -1, gs[0]: 1, rt[0]: -1}
    q = {}
    for m, c in monos(t):
        e = dict(m)
        if e.get(gs[0], 0) != 1:
            r.undecided(w, "a term of the integrand without the density")
            return
        for a, n in d.items():
            e[a] = e.get(a, 0) - n
        if e[rt[0]]:
            e[rt[0]] = 0            # left out of the integrand: a factor sqrt(2 pi)
            c = c * Fr(2.5066).limit_denominator(10 ** 5)
        q[tuple(sorted(((a, n) for a, n in e.items() if n), key=lambda x: x[0].id))] = c * k
    judge(r, f, poly(q), "the fraction weighted by the density of timescales", "integrand")


def run(r):
    r.rule = "both bounds of every named fraction proved on every branch of its value graph (clamp conditions by Farkas, corners of polynomials in exp/pow terms); a violation carries parameters that leave [0, 1]"
    r.assume += ["full well > notch >= 0, fill power > 0, first-electron fill in [0, 1]; timescales, rates and dwell times positive; times given to the fill fractions not negative",
                 "the integrals the tables are made of lie in [0, 1] when the integrand is a probability density times a number in [0, 1] (proved for the integrand)",
                 "real arithmetic"]
    prog = front.program()
    byq = {}
    for f in prog.funcs.values():
        if f.get("b"):
            byq.setdefault(f["q"].split("(")[0], f)
    for q, what in sorted(DIRECT.items()):
        f = byq.get(q)
        if f is None:
            r.undecided(q, "function not found")
            continue
        try:
            t = vg.VG(prog).run(f)[0]
        except Exception as e:
            r.undecided(front.rel(f), "%s: %s" % (q, str(e)[:80]))
            continue
        judge(r, f, t, what, "value")
    n = 0
    for q, f in sorted(byq.items()):
        if q.split("::")[-1] != STORED:
            continue
        try:
            st = vg.VG(prog).run(f)[1]
        except Exception as e:
            r.undecided(front.rel(f), "%s: %s" % (q, str(e)[:80]))
            continue
        for k, x in sorted(st.m.items(), key=lambda kv: str(kv[0])):
            if k[0].op != "this":
                continue
            name = k[-1][1] if isinstance(k[-1], tuple) and len(k[-1]) > 1 else str(k[-1])
            e = elements(x)
            if e is None:
                r.undecided(front.loc(f, f["b"]), "%s: values of %s" % (q, name))
                continue
            for i, v in enumerate(dict.fromkeys(e)):
                n += 1
                judge(r, f, v, "%s[%d]" % (name, i), name)
    if not n:
        r.undecided("src/trap_managers.cpp", "no probabilities found")
    for q, f in sorted(byq.items()):
        if q.endswith("integrand"):
            integrand(r, f, prog)
