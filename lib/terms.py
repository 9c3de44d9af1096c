"""Hash-consed value-graph terms with a polynomial normal form.

Numbers are polynomials with rational coefficients over atoms (machine rounding is
abstracted: two computations are identified when they agree as real-number
expressions).  Conditions are normalised comparisons.  Loops appear as bounded
sums, maps over arrays, or canonical recurrences; bound variables are numbered by
nesting height so alpha-equivalent terms are the same object."""
from fractions import Fraction as Fr

_tab = {}
_ids = [0]


class T:
    __slots__ = ("op", "a", "id", "lvl", "conds", "__weakref__")

    def __repr__(self):
        return show(self)


def _key(x):
    if isinstance(x, T):
        return ("#", x.id)
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    return x


def mk(op, *a):
    k = (op,) + tuple(_key(x) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _ids[0] += 1
        t.id = _ids[0]
        lvl = 0
        conds = None
        for s in subs(t):
            if s.lvl > lvl:
                lvl = s.lvl
            if s.conds:
                conds = s.conds if conds is None else (conds | s.conds)
        if op == "bv":
            lvl = max(lvl, a[0])
        t.lvl = lvl
        if op == "ite":
            conds = (conds or frozenset()) | {a[0].id}
        t.conds = conds
        _tab[k] = t
    return t


def subs(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _subs(x)


def _subs(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _subs(y)


# ------------------------------------------------------------------ numbers
def num(v):
    v = Fr(v)
    return mk("poly", (((), v),)) if v else mk("poly", ())


def monos(t):
    if t.op == "poly":
        return t.a[0]
    return ((((t, 1),), Fr(1)),)


def poly(d):
    """d: {mono: coef}"""
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    items.sort(key=lambda mc: tuple((a.id, p) for a, p in mc[0]))
    return mk("poly", tuple(items))


def add(x, y, k=1):
    d = dict(monos(x))
    for m, c in monos(y):
        d[m] = d.get(m, Fr(0)) + c * k
    return poly(d)


def sub(x, y):
    return add(x, y, -1)


def neg(x):
    return add(num(0), x, -1)


def mmul(m1, m2):
    d = {}
    for a, p in m1 + m2:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(((a, p) for a, p in d.items() if p), key=lambda ap: ap[0].id))


def mul(x, y):
    d = {}
    for m1, c1 in monos(x):
        for m2, c2 in monos(y):
            m = mmul(m1, m2)
            # an inverse polynomial times itself cancels through mmul as atoms
            d[m] = d.get(m, Fr(0)) + c1 * c2
    return poly(d)


def inv(y):
    ms = monos(y)
    if len(ms) == 1:
        m, c = ms[0]
        return poly({tuple((a, -p) for a, p in m): 1 / c})
    if not ms:
        return mk("fn", "inv0")
    # normalise the scale: leading coefficient 1
    c = ms[0][1]
    base = poly({m: k / c for m, k in ms})
    return poly({((base_atom(base), -1),): 1 / c})


def base_atom(p):
    return mk("grp", p)


def div(x, y):
    if y.op == "poly" and len(y.a[0]) > 1:
        # (k*y)/y
        ms = y.a[0]
        c = ms[0][1]
        nx = monos(x)
        if len(nx) == len(ms):
            r = dict(nx)
            k = r.get(ms[0][0])
            if k is not None and all(r.get(m) == k / c * cc for m, cc in ms):
                return num(k / c)
    return mul(x, inv(y))


def isnum(t):
    return t.op == "poly" and (not t.a[0] or (len(t.a[0]) == 1 and t.a[0][0][0] == ()))


def val(t):
    if t.op == "poly":
        if not t.a[0]:
            return Fr(0)
        if len(t.a[0]) == 1 and t.a[0][0][0] == ():
            return t.a[0][0][1]
    return None


def linear_in(t, atom):
    """(coefficient term, rest) with t = coef*atom + rest, or None when not linear"""
    co, re = {}, {}
    for m, c in monos(t):
        p = dict(m).get(atom, 0)
        if p == 0:
            if any(occurs(a, atom) for a, _ in m):
                return None
            re[m] = re.get(m, Fr(0)) + c
        elif p == 1:
            m2 = tuple(x for x in m if x[0] is not atom)
            if any(occurs(a, atom) for a, _ in m2):
                return None
            co[m2] = co.get(m2, Fr(0)) + c
        else:
            return None
    return poly(co), poly(re)


_occ = {}


def occurs(t, atom):
    if t is atom:
        return True
    k = (t.id, atom.id)
    r = _occ.get(k)
    if r is None:
        r = any(occurs(s, atom) for s in subs(t))
        _occ[k] = r
    return r


def atoms(t, pred, out=None, seen=None):
    """all sub-terms satisfying pred"""
    if out is None:
        out, seen = [], set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if pred(x):
            out.append(x)
        st.extend(subs(x))
    return out


# ------------------------------------------------------------------ conditions
TRUE, FALSE = mk("true"), mk("false")


def cmp0(op, p, isint):
    """op in gt0, ge0, eq0"""
    v = val(p)
    if v is not None:
        r = {"gt0": v > 0, "ge0": v >= 0, "eq0": v == 0}[op]
        return TRUE if r else FALSE
    if isint and op == "ge0":
        op, p = "gt0", add(p, num(1))
    ms = monos(p)
    if isint and op == "eq0":
        # a non-negative count is zero exactly when it is not positive
        if nonneg(p):
            return mk("gt0", sub(num(1), p), True)
        if nonneg(neg(p)):
            return mk("gt0", add(num(1), p), True)
    lead = [c for m, c in ms if m != ()][0]
    sc = abs(lead)
    if op == "eq0":
        sc = lead
    if not isint or op == "eq0":
        if sc != 1:
            p = poly({m: c / sc for m, c in ms})
    return mk(op, p, bool(isint))


def nonneg(t):
    """certainly a non-negative integer: built from sizes"""
    if t.op == "fn":
        return t.a[0] == "len"
    if t.op == "ite":
        return nonneg(t.a[1]) and nonneg(t.a[2])
    if t.op == "poly":
        return all(c >= 0 and all(nonneg(a) for a, _ in m) for m, c in monos(t))
    return False


def implied(facts, c):
    """c holds whenever every condition in facts holds (decided by simplification)"""
    m = {}
    for f in facts:
        for x in (f.a[0] if f.op == "and" else (f,)):
            m[x.id] = TRUE
            m[lnot(x).id] = FALSE
    return subst(c, m, {}) is TRUE


def given(facts, t):
    m = {}
    for f in facts:
        for x in (f.a[0] if f.op == "and" else (f,)):
            m[x.id] = TRUE
            m[lnot(x).id] = FALSE
    return subst(t, m, {})


def lnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    if c.op == "gt0":
        return cmp0("ge0", neg(c.a[0]), c.a[1])
    if c.op == "ge0":
        return cmp0("gt0", neg(c.a[0]), c.a[1])
    if c.op == "and":
        return lor(*[lnot(x) for x in c.a[0]])
    if c.op == "or":
        return land(*[lnot(x) for x in c.a[0]])
    return mk("not", c)


def land(*cs):
    s = {}
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for x in (c.a[0] if c.op == "and" else (c,)):
            s[x.id] = x
    for x in s.values():
        if lnot(x).id in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return list(s.values())[0]
    return mk("and", tuple(s[i] for i in sorted(s)))


def lor(*cs):
    s = {}
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for x in (c.a[0] if c.op == "or" else (c,)):
            s[x.id] = x
    for x in s.values():
        if lnot(x).id in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return list(s.values())[0]
    return mk("or", tuple(s[i] for i in sorted(s)))


def truth(t):
    """numeric or boolean term as a condition"""
    if t.op in ("true", "false", "gt0", "ge0", "eq0", "not", "and", "or"):
        return t
    if t.op == "b2i":
        return t.a[0]
    v = val(t)
    if v is not None:
        return TRUE if v != 0 else FALSE
    if t.op == "ite":
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    return lnot(cmp0("eq0", t, True))


def isbool(t):
    return t.op in ("true", "false", "gt0", "ge0", "eq0", "not", "and", "or")


def numeric(t):
    if t is TRUE:
        return num(1)
    if t is FALSE:
        return num(0)
    if isbool(t):
        return mk("b2i", t)
    return t


NUMERIC = {"poly", "sum", "sel", "fld", "init", "fn", "bv", "sym", "lv", "grp", "b2i", "call", "rec", "idiv"}


def under(t, c, v):
    """simplify t knowing condition c is v"""
    if not t.conds:
        return t
    m = {c.id: TRUE if v else FALSE, lnot(c).id: FALSE if v else TRUE}
    if not (t.conds & set(m)):
        return t
    return subst(t, m, {})


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isbool(a) or isbool(b):
        if isbool(a) and isbool(b):
            return lor(land(c, a), land(lnot(c), b))
        a, b = numeric(a), numeric(b)
    n = lnot(c)
    if n.id < c.id:
        c, a, b = n, b, a
    a, b = under(a, c, True), under(b, c, False)
    if a is b:
        return a
    # pull out the common part of numeric branches
    if a.op in NUMERIC and b.op in NUMERIC and not (a.op != "poly" and b.op != "poly"):
        da, db = dict(monos(a)), dict(monos(b))
        com = {m: k for m, k in da.items() if db.get(m) == k}
        if com:
            for m in com:
                del da[m], db[m]
            return add(poly(com), ite(c, poly(da), poly(db)))
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    return mk("ite", c, a, b)


# ------------------------------------------------------------------ arrays
def lam(n, body_of):
    """array with n elements; body_of(k) gives element k"""
    k = fresh("k", n)
    b = body_of(k)
    return bind("lam", n, k, b)


_fresh = [0]
RANGE = {}


def fresh(name, n=None):
    _fresh[0] += 1
    s = mk("sym", "%s!%d" % (name, _fresh[0]))
    if n is not None:
        RANGE[s.id] = n
    return s


def bind(op, n, k, *bodies):
    lvl = max(b.lvl for b in bodies) + 1
    bv = mk("bv", lvl)
    bs = [subst(b, {k.id: bv}, {}) for b in bodies]
    # constant sums and affine pieces
    if op == "sum":
        return mksum(n, bv, bs[0])
    return mk(op, n, bv, *bs)


def mksum(n, bv, body):
    """sum over bv in [0,n) of body, split into monomials"""
    out = num(0)
    for m, c in monos(body):
        dep = [(a, p) for a, p in m if occurs(a, bv)]
        ind = tuple((a, p) for a, p in m if not occurs(a, bv))
        if not dep:
            out = add(out, mul(poly({ind: c}), n))
            continue
        inner = poly({tuple(dep): Fr(1)})
        if val(n) is not None and 0 <= val(n) <= 4 and val(n).denominator == 1:
            s = num(0)
            for i in range(int(val(n))):
                s = add(s, subst(inner, {bv.id: num(i)}, {}))
        else:
            # renumber the bound variable to this body's own height
            l2 = max([s.lvl for s in subs(inner) if True] + [0])
            own = height(inner, bv) + 1
            nb = mk("bv", own)
            if nb is not bv:
                inner2 = subst(inner, {bv.id: nb}, {})
            else:
                inner2 = inner
            s = mk("sum", n, nb, inner2)
        out = add(out, mul(poly({ind: c}), s))
    return out


def height(t, bv):
    """largest bound level in t other than bv"""
    h = 0
    for x in atoms(t, lambda y: y.op == "bv"):
        if x is not bv and x.a[0] > h:
            h = x.a[0]
    return h


def sel(A, i):
    if A.op == "lam":
        return subst(A.a[2], {A.a[1].id: i}, {})
    if A.op == "fill":
        return A.a[1]
    if A.op == "store":
        d = sub(i, A.a[1])
        v = val(d)
        if v == 0:
            return A.a[2]
        if v is not None or distinct(d):
            return sel(A.a[0], i)
        return mk("sel", A, i)
    if A.op == "map":
        A0, n, bv, idx, v = A.a
        li = linear_in(idx, bv)
        if li is not None:
            co, base = li
            d = sub(i, base)
            q = div(d, co)
            hit = within(q, n)
            if hit is True:
                return subst(v, {bv.id: q}, {})
            if hit is False:
                return sel(A0, i)
        return mk("sel", A, i)
    if A.op == "rowmap":
        # A0, N, n, bvq, bvt, row, v
        A0, N, n, bq, bt, row, v = A.a
        r = rowsplit(i, n)
        if r is not None:
            q, t = r
            li = linear_in(row, bq)
            if li is not None:
                d = div(sub(q, li[1]), li[0])
                hit = within(d, N)
                if hit is True:
                    return subst(v, {bq.id: d, bt.id: t}, {})
                if hit is False:
                    return sel(A0, i)
        return mk("sel", A, i)
    if A.op == "ite":
        return ite(A.a[0], sel(A.a[1], i), sel(A.a[2], i))
    return mk("sel", A, i)


def rowsplit(i, n):
    """i = q*n + t with t a symbol ranging over [0,n) (or 0): returns (q,t)"""
    if n.op == "poly":
        return None
    li = linear_in(i, n)
    if li is None:
        return None
    q, t = li
    if val(t) == 0:
        return q, t
    if RANGE.get(t.id) is n or (t.op == "bv" and RANGE.get(t.id) is n):
        return q, t
    return None


def distinct(d):
    """d certainly nonzero"""
    ms = monos(d)
    if val(d) is not None:
        return val(d) != 0
    # c*n + t - t' with |.| rows apart: handled only for pure row offsets
    if len(ms) == 1 and ms[0][0] and len(ms[0][0]) == 1 and ms[0][0][0][1] == 1:
        a = ms[0][0][0][0]
        return POSITIVE(a)
    return False


def POSITIVE(a):
    return a.op in ("init", "fld") and str(a.a[-1]).find("n_traps") >= 0


def within(q, n):
    """is 0 <= q < n decidable?  q may contain loop symbols with known range"""
    v, vn = val(q), val(n)
    if v is not None:
        if v.denominator != 1 or v < 0:
            return False
        if vn is not None:
            return v < vn
        return None
    if RANGE.get(q.id) is n:
        return True
    # q >= n ?
    d = val(sub(q, n))
    if d is not None and d >= 0:
        return False
    # symbol + negative constant below zero etc. is not decided
    return None


# ------------------------------------------------------------------ substitution
def subst(t, m, memo):
    """m: {term id: replacement}"""
    r = m.get(t.id)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r
    if not t.a or t.op in ("init", "sym", "bv"):
        return t
    r = rebuild(t, lambda x: subst(x, m, memo))
    memo[t.id] = r
    return r


def rebuild(t, f):
    op, a = t.op, t.a
    if op == "poly":
        ch = {}
        same = True
        for mo, c in a[0]:
            for x, p in mo:
                if x.id not in ch:
                    y = f(x)
                    ch[x.id] = y
                    if y is not x:
                        same = False
        if same:
            return t
        out = num(0)
        for mo, c in a[0]:
            term = num(c)
            for x, p in mo:
                y = ch[x.id]
                if p > 0:
                    for _ in range(p):
                        term = mul(term, y)
                else:
                    for _ in range(-p):
                        term = div(term, y)
            out = add(out, term)
        return out
    na = tuple(_map(x, f) for x in a)
    if all(x is y or x == y for x, y in zip(na, a)) and all(_same(x, y) for x, y in zip(na, a)):
        return t
    return construct(op, na)


def _map(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_map(y, f) for y in x)
    return x


def _same(x, y):
    if isinstance(x, T) or isinstance(y, T):
        return x is y
    if isinstance(x, tuple):
        return len(x) == len(y) and all(_same(p, q) for p, q in zip(x, y))
    return x == y


def construct(op, a):
    if op == "ite":
        return ite(*a)
    if op in ("gt0", "ge0", "eq0"):
        return cmp0(op, a[0], a[1])
    if op == "not":
        return lnot(a[0])
    if op == "and":
        return land(*a[0])
    if op == "or":
        return lor(*a[0])
    if op == "sel":
        return sel(*a)
    if op == "fld":
        return fld(*a)
    if op == "b2i":
        return numeric(a[0])
    if op == "grp":
        # occurs only with power -1 inside poly: keep as polynomial
        return a[0]
    if op == "sum":
        return mksum(*a)
    if op == "fn":
        return fn(*a)
    if op == "lam":
        n, bv, body = a
        return mk("lam", n, bv, body)
    return mk(op, *a)


def fld(name, t):
    if t.op == "setfld":
        if t.a[1] == name:
            return t.a[2]
        return fld(name, t.a[0])
    if t.op == "struct":
        for k, v in t.a[1]:
            if k == name:
                return v
    if t.op == "ite":
        return ite(t.a[0], fld(name, t.a[1]), fld(name, t.a[2]))
    if t.op == "init":
        return mk("init", t.a[0] + (("f", name),))
    return mk("fld", name, t)


def fn(name, *args):
    if name == "abs":
        v = val(args[0])
        if v is not None:
            return num(abs(v))
        # abs(-x) = abs(x)
        ms = monos(args[0])
        if ms and ms[0][1] < 0:
            return mk("fn", "abs", neg(args[0]))
    if name in ("max", "min") and len(args) == 2:
        a, b = args
        if a is b:
            return a
        if val(a) is not None and val(b) is not None:
            return num(max(val(a), val(b)) if name == "max" else min(val(a), val(b)))
        if a.id > b.id:
            a, b = b, a
        return mk("fn", name, a, b)
    return mk("fn", name, *args)


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "..."
    op, a = t.op, t.a
    if op == "poly":
        if not a[0]:
            return "0"
        s = []
        for m, c in a[0]:
            f = "*".join((show(x, d + 1) if p == 1 else "%s^%d" % (show(x, d + 1), p)) for x, p in m)
            if not f:
                s.append(str(c))
            elif c == 1:
                s.append(f)
            elif c == -1:
                s.append("-" + f)
            else:
                s.append("%s*%s" % (c, f))
        return "(" + " + ".join(s).replace("+ -", "- ") + ")" if len(s) > 1 else s[0]
    if op == "init":
        return ".".join(str(x[1]) if isinstance(x, tuple) else str(x) for x in a[0][-2:]) if isinstance(a[0], tuple) else str(a[0])
    if op == "sym":
        return a[0]
    if op == "bv":
        return "k%d" % a[0]
    if op == "sel":
        return "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    if op == "fld":
        return "%s.%s" % (show(a[1], d + 1), a[0])
    if op == "fn":
        return "%s(%s)" % (a[0], ", ".join(show(x, d + 1) for x in a[1:]))
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(show(x, d + 1) for x in a)
    if op == "gt0":
        return "%s > 0" % show(a[0], d + 1)
    if op == "ge0":
        return "%s >= 0" % show(a[0], d + 1)
    if op == "eq0":
        return "%s == 0" % show(a[0], d + 1)
    if op == "not":
        return "!(%s)" % show(a[0], d + 1)
    if op == "sum":
        return "sum[%s<%s](%s)" % (show(a[1]), show(a[0], d + 1), show(a[2], d + 1))
    return "%s(%s)" % (op, ", ".join(show(x, d + 1) for x in a))
