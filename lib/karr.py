"""Affine relations between the local arrays of a Python function (Karr's domain over the
monomials of a polynomial value numbering): straight-line code is evaluated to polynomials
over symbols, joins keep every affine relation that holds on both sides."""
import ast
from fractions import Fraction as Fr
import pysrc
from terms import *


def nullspace(cols):
    """rational vectors c with sum c[i]*cols[i] = 0; cols: list of {key: number}"""
    n = len(cols)
    rows = {}
    for i, c in enumerate(cols):
        for k, v in c.items():
            rows.setdefault(k, {})[i] = Fr(v)
    m = rref([[r.get(i, Fr(0)) for i in range(n)] for r in rows.values()])
    piv = [next(i for i, x in enumerate(r) if x) for r in m]
    out = []
    for f in range(n):
        if f in piv:
            continue
        v = [Fr(0)] * n
        v[f] = Fr(1)
        for r, p in zip(m, piv):
            v[p] = -r[f]
        out.append(v)
    return out


def rref(m):
    m = [list(r) for r in m]
    out, col = [], 0
    n = len(m[0]) if m else 0
    while m and col < n:
        p = next((r for r in m if r[col]), None)
        if p is None:
            col += 1
            continue
        m.remove(p)
        p = [x / p[col] for x in p]
        m = [[a - r[col] * b for a, b in zip(r, p)] for r in m]
        out = [[a - r[col] * b for a, b in zip(r, p)] for r in out]
        m = [r for r in m if any(r)]
        out.append(p)
        col += 1
    return out


def intersect(A, B):
    """intersection of two row spaces"""
    if not A or not B:
        return []
    n = len(A[0])
    # a.A = b.B
    cols = [{i: x for i, x in enumerate(r) if x} for r in A] + [{i: -x for i, x in enumerate(r) if x} for r in B]
    out = []
    for v in nullspace(cols):
        out.append([sum(v[k] * A[k][i] for k in range(len(A))) for i in range(n)])
    return rref([r for r in out if any(r)])


def sym(name):
    return mk("ksym", name, fresh_id())


def site(n):
    """allocation site of a fresh array"""
    return frozenset([(n.id, n.lineno, n.col_offset)])


_n = [0]


def fresh_id():
    _n[0] += 1
    return _n[0]


def parts(same):
    by = {}
    for n, t in same.items():
        by.setdefault(t, []).append(n)
    return sorted(sorted(v) for v in by.values())


class State:
    def __init__(self):
        self.v = {}             # name -> polynomial
        self.alias = {}         # name -> alias class
        self.dirty = set()      # names whose value was lost by something not modelled
        self.same = {}          # name -> token of the object it certainly denotes

    def copy(self):
        s = State()
        s.v, s.alias, s.dirty, s.same = dict(self.v), dict(self.alias), set(self.dirty), dict(self.same)
        return s


class Karr:
    def __init__(self, fn, params, free=()):
        self.fn = fn
        self.free = free
        self.returns = []       # (node, state)
        s = State()
        for p in params:
            s.v[p] = sym(p)
            s.v[p + "@0"] = s.v[p]
            s.alias[p] = frozenset([p])
            s.same[p] = p
        self.loops = []
        self.block(fn.body, [s])

    # states: list of disjuncts, one per set of bound names
    def merge(self, states):
        by = {}
        for s in states:
            by.setdefault(frozenset(s.v), []).append(s)
        out = []
        for k, ss in by.items():
            s = ss[0]
            for t in ss[1:]:
                s = self.join(s, t)
            out.append(s)
        return out

    def relations(self, s, names):
        cols = [{(): Fr(1)}]
        for n in names:
            cols.append({tuple(sorted((a.id, p) for a, p in m)): c for m, c in monos(s.v[n])})
        return rref(nullspace(cols)) if names else []

    def join(self, a, b):
        if all(a.v[n] is b.v[n] for n in a.v) and a.dirty == b.dirty and a.alias == b.alias and a.same == b.same:
            return a
        names = sorted(a.v, reverse=True)
        rel = intersect(self.relations(a, names), self.relations(b, names))
        out = State()
        out.dirty = a.dirty | b.dirty
        none = frozenset()
        out.alias = {n: a.alias.get(n, none) | b.alias.get(n, none) for n in names if n in a.alias or n in b.alias}
        tok = {}
        out.same = {n: tok.setdefault((a.same[n], b.same[n]), fresh_id()) for n in a.same if n in b.same}
        # dependent names: pivots, taken from the last column on
        m = rref([list(reversed(r)) for r in rel])
        cols = list(reversed(["1"] + names))
        dep = {}
        for r in m:
            p = next(i for i, x in enumerate(r) if x)
            dep[cols[p]] = r
        for n in names:
            if n not in dep:
                out.v[n] = a.v[n] if a.v[n] is b.v[n] else sym(n)
        for c, r in dep.items():
            if c == "1":
                continue
            t = num(0)
            p = cols.index(c)
            for i, x in enumerate(r):
                if i != p and x:
                    t = add(t, mul(num(-x), num(1) if cols[i] == "1" else out.v[cols[i]]))
            out.v[c] = t
        return out

    def key(self, states):
        return sorted((sorted(s.v), self.relations(s, sorted(s.v)), sorted(s.dirty), parts(s.same)) for s in states)

    # ---- statements
    def block(self, b, states):
        for st in b:
            if not states:
                return []
            states = self.st(st, states)
        return states

    def each(self, states, f):
        out = []
        for s in states:
            s = s.copy()
            if f(s) is not False:
                out.append(s)
        return out

    def st(self, n, states):
        if isinstance(n, ast.Assign):
            return self.each(states, lambda s: self.assign(n.targets, n.value, s))
        if isinstance(n, ast.AnnAssign):
            return states if n.value is None else self.each(states, lambda s: self.assign([n.target], n.value, s))
        if isinstance(n, ast.AugAssign):
            return self.each(states, lambda s: self.aug(n, s))
        if isinstance(n, ast.Expr):
            return self.each(states, lambda s: self.bound(n.value, s) and (self.ev(n.value, s), True)[1])
        if isinstance(n, ast.If):
            states = self.each(states, lambda s: self.bound(n.test, s))
            a = self.block(n.body, [s.copy() for s in states])
            b = self.block(n.orelse, [s.copy() for s in states])
            return self.merge(a + b)
        if isinstance(n, (ast.For, ast.While)):
            head = self.each(states, lambda s: self.bound(n.iter if isinstance(n, ast.For) else n.test, s))
            for _ in range(50):
                self.loops.append(([], []))
                inner = [s.copy() for s in head]
                if isinstance(n, ast.For):
                    for s in inner:
                        self.forget(n.target, s)
                end = self.block(n.body, inner)
                brk, cont = self.loops.pop()
                new = self.merge([s.copy() for s in head] + end + cont)
                if self.key(new) == self.key(head):
                    break
                head = new
            out = self.block(n.orelse, [s.copy() for s in head]) if n.orelse else head
            return self.merge(out + brk)
        if isinstance(n, ast.Break):
            self.loops[-1][0].extend(states)
            return []
        if isinstance(n, ast.Continue):
            self.loops[-1][1].extend(states)
            return []
        if isinstance(n, ast.Return):
            for s in states:
                if n.value is None or self.bound(n.value, s):
                    self.returns = [r for r in self.returns if r[0] is not n or frozenset(r[1].v) != frozenset(s.v)]
                    self.returns.append((n, s))
            return []
        if isinstance(n, ast.Raise):
            return []
        if isinstance(n, ast.With):
            return self.block(n.body, states)
        if isinstance(n, ast.Try):
            return self.merge(self.block(n.body, states) + [s for h in n.handlers for s in self.block(h.body, [self.lost(n, x) for x in states])])
        if isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom, ast.Assert, ast.FunctionDef)):
            return states
        return [self.lost(n, s) for s in states]

    def lost(self, n, s):
        s = s.copy()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in s.v:
                s.v[x.id] = sym(x.id)
                s.dirty.add(x.id)
        return s

    def bound(self, e, s):
        """every local name read is bound"""
        loc = self.locals()
        return all(x.id in s.v for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in loc)

    def locals(self):
        if not hasattr(self, "_loc"):
            self._loc = {x.id for b in self.fn.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)
                         and not any(isinstance(c, ast.comprehension) for c in ())}
            for b in self.fn.body:
                for c in ast.walk(b):
                    if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                        self._loc -= {x.id for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        return self._loc

    def forget(self, t, s, dirty=False):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                s.v[x.id] = sym(x.id)
                s.alias[x.id] = site(x)
                s.same[x.id] = fresh_id()
                s.dirty.discard(x.id)
                if dirty:
                    s.dirty.add(x.id)

    def assign(self, targets, value, s):
        if not self.bound(value, s):
            return False
        for t in targets:
            if isinstance(t, ast.Name):
                v, d = self.ev(value, s)
                s.v[t.id] = v
                (s.dirty.add if d else s.dirty.discard)(t.id)
                s.same[t.id] = s.same.get(value.id) if isinstance(value, ast.Name) else None
                s.same[t.id] = s.same[t.id] or fresh_id()
                s.alias[t.id] = s.alias.get(value.id, site(t)) if isinstance(value, ast.Name) else self.viewof(value, s) or site(t)
            elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) and len(t.elts) == len(value.elts):
                vs = [self.ev(x, s) + (s.alias.get(x.id) if isinstance(x, ast.Name) else None, s.same.get(x.id) if isinstance(x, ast.Name) else None) for x in value.elts]
                for x, (v, d, al, sm) in zip(t.elts, vs):
                    if isinstance(x, ast.Name):
                        s.v[x.id] = v
                        (s.dirty.add if d else s.dirty.discard)(x.id)
                        s.alias[x.id] = al or site(x)
                        s.same[x.id] = sm or fresh_id()
            elif isinstance(t, (ast.Tuple, ast.List)):
                self.forget(t, s, dirty=True)
            elif isinstance(t, ast.Subscript):
                self.touch(t.value, s)
        return True

    def viewof(self, e, s):
        """alias class of the array an expression may be a view of"""
        while isinstance(e, (ast.Subscript, ast.Attribute)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("view", "reshape", "ravel", "squeeze", "transpose"):
            e = e.func.value if isinstance(e, ast.Call) else e.value
        return s.alias.get(e.id) if isinstance(e, ast.Name) else None

    def touch(self, e, s):
        """the array an expression denotes is changed in a way not modelled"""
        while isinstance(e, (ast.Subscript, ast.Attribute)):
            e = e.value
        if isinstance(e, ast.Name) and e.id in s.v:
            k = s.alias.get(e.id)
            for n in list(s.v):
                if n == e.id or k and k & s.alias.get(n, frozenset()):
                    s.v[n] = sym(n)
                    s.dirty.add(n)

    def aug(self, n, s):
        if not self.bound(n.value, s):
            return False
        if not isinstance(n.target, ast.Name):
            self.touch(n.target, s)
            return True
        if n.target.id not in s.v:
            return False
        v, d = self.binop(n.op, (s.v[n.target.id], n.target.id in s.dirty), self.ev(n.value, s))
        k = s.alias.get(n.target.id)
        for x in list(s.v):
            if x != n.target.id and k and k & s.alias.get(x, frozenset()):
                if s.same.get(x) == s.same.get(n.target.id):
                    continue
                s.v[x] = sym(x)
                s.dirty.add(x)
        for x in [x for x in s.v if x == n.target.id or s.same.get(x) is not None and s.same.get(x) == s.same.get(n.target.id)]:
            s.v[x] = v
            (s.dirty.add if d else s.dirty.discard)(x)
        return True

    def binop(self, op, a, b):
        d = a[1] or b[1]
        if isinstance(op, ast.Add):
            return add(a[0], b[0]), d
        if isinstance(op, ast.Sub):
            return sub(a[0], b[0]), d
        if isinstance(op, ast.Mult):
            return mul(a[0], b[0]), d
        if isinstance(op, ast.Div):
            return div(a[0], b[0]), d
        return mk("kop", type(op).__name__, a[0], b[0]), d

    COPIES = ("copy", "array", "asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "asfarray", "require", "atleast_2d", "asarray_chkfinite", "float64", "double")
    CHANGES = ("abs", "absolute", "fabs", "rint", "round", "around", "floor", "ceil", "trunc", "clip", "maximum", "minimum", "sqrt", "square", "negative", "where", "median",
               "mean", "ones_like", "ones", "full", "full_like", "flip", "fliplr", "flipud", "roll", "transpose", "sign", "exp", "log")

    def ev(self, e, s):
        """(polynomial, value lost?)"""
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
            return num(Fr(e.value)), False
        if isinstance(e, ast.Name):
            if e.id in s.v:
                return s.v[e.id], e.id in s.dirty
            return mk("kglobal", e.id), False
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.ev(e.left, s), self.ev(e.right, s))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
            v, d = self.ev(e.operand, s)
            return (neg(v) if isinstance(e.op, ast.USub) else v), d
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            v, d = self.ev(e.value, s)
            return mk("kattr", e.attr, v), d
        if isinstance(e, ast.Call):
            f = e.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else "?"
            base = f.value if isinstance(f, ast.Attribute) else None
            isnp = isinstance(base, ast.Name) and base.id in ("np", "numpy")
            if nm == "copy" and base is not None and not isnp and not e.args:
                return self.ev(base, s)
            if nm == "astype" and base is not None and not isnp:
                return self.ev(base, s)
            if isnp and nm in self.COPIES and e.args:
                return self.ev(e.args[0], s)
            if isnp and nm in ("add", "subtract", "multiply", "divide", "true_divide") and len(e.args) == 2 and not e.keywords:
                op = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult}.get(nm, ast.Div)()
                return self.binop(op, self.ev(e.args[0], s), self.ev(e.args[1], s))
            if isnp and nm in ("zeros_like", "zeros"):
                return num(0), False
            for k in e.keywords:
                if k.arg == "out":
                    self.touch(k.value, s)
            # the model of the noise comes from the compiled routine: any image at all
            return sym("call"), not (isnp and nm in self.CHANGES or nm in self.free)
        if isinstance(e, ast.IfExp):
            return sym("if"), True
        return sym("expr"), True


def routines(tree):
    """functions whose result is an image the compiled routine has written"""
    out = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            rets = {x.value.id for x in ast.walk(f) if isinstance(x, ast.Return) and isinstance(x.value, ast.Name)}
            for c in ast.walk(f):
                if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute)):
                    nm = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id
                    if nm.startswith("cy_") and any(isinstance(x, ast.Return) and x.value is c for x in ast.walk(f)) or \
                       nm.startswith("cy_") and any(isinstance(x, ast.Assign) and x.value is c and isinstance(x.targets[0], ast.Name) and x.targets[0].id in rets for x in ast.walk(f)):
                        out.add(f.name)
    return out


def separation(r):
    m = pysrc.modules()["read_noise"]
    for f in ast.walk(m.tree):
        if isinstance(f, ast.FunctionDef) and f.name == "generate_SR_frames_from_image":
            k = Karr(f, [a.arg for a in f.args.args + f.args.kwonlyargs], routines(m.tree))
            img = [a.arg for a in f.args.args][1] + "@0"
            if not k.returns:
                r.undecided(m.rel, "no return found")
            for n, s in k.returns:
                where = "%s:%d" % (m.rel, n.lineno)
                v = n.value
                if isinstance(v, ast.Name):
                    src = [x.value for x in ast.walk(f) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in x.targets)]
                    v = src[0] if len(src) == 1 else v
                if not isinstance(v, ast.Tuple) or len(v.elts) != 2:
                    r.undecided(where, "not a pair of frames")
                    continue
                a, b = k.ev(v.elts[0], s), k.ev(v.elts[1], s)
                d = sub(add(a[0], b[0]), s.v[img])
                if val(d) == 0:
                    r.ok(where, "signal + noise = image")
                elif a[1] or b[1]:
                    r.undecided(where, "signal + noise = image")
                else:
                    r.bad("C21:sum", where, "signal plus noise differs from the image: the difference is %s" % str(d)[:200])
