"""Abstract interpretation of Python (and translated Cython) code over NumPy arrays: memory
order, element type, loss of precision, identity and length of every array, path by path.

contig  "yes"   C-contiguous
        "fresh" own memory in the order of its source (contiguous when one-dimensional)
        "user"  whatever the caller passed, or a view that need not be contiguous
        "?"     not known
dtype   "double", "user" (whatever the caller passed), another name, or "?" """
import ast
import pysrc
from terms import *

CAP = 24
DOUBLE = ("double", "float64", "float64_t", "double_t", "float", "float_", "f8", "d")
_n = [0]


def new():
    _n[0] += 1
    return _n[0]


class V:
    __slots__ = ("contig", "dtype", "lossy", "ids", "len", "num", "kind", "items", "parts")

    def __init__(self, contig="?", dtype="?", lossy=None, ids=None, len=None, num=None, kind="array", items=None, parts=None):
        self.parts = parts          # [(class of the elements, how many of them)]
        self.contig, self.dtype, self.lossy, self.len, self.num, self.kind, self.items = contig, dtype, lossy, len, num, kind, items
        self.ids = frozenset([new()]) if ids is None else ids

    def but(self, **k):
        v = V(self.contig, self.dtype, self.lossy, self.ids, self.len, self.num, self.kind, self.items, self.parts)
        for a, x in k.items():
            setattr(v, a, x)
        return v

    def key(self):
        return (self.contig, self.dtype, self.lossy, self.len.id if self.len is not None else None,
                self.num.id if self.num is not None else None, self.kind, tuple(x.key() for x in self.items) if self.items else None,
                tuple((c, n.id) for c, n in self.parts) if self.parts else None)


def unknown():
    return V()


def user(name="?"):
    return V("user", "user", len=mk("asym", "len", name), kind="user")


def scalar(n=None):
    return V("yes", "?", num=n, kind="num")


ORDER = {"yes": 0, "fresh": 1, "?": 2, "user": 3}


def join(a, b):
    if a is b:
        return a
    items = None
    if a.items and b.items and len(a.items) == len(b.items):
        items = [join(x, y) for x, y in zip(a.items, b.items)]
    return V(max(a.contig, b.contig, key=ORDER.get), a.dtype if a.dtype == b.dtype else "?" if "user" not in (a.dtype, b.dtype) else "user",
             a.lossy or b.lossy, a.ids | b.ids, a.len if a.len is b.len else None, a.num if a.num is b.num else None,
             a.kind if a.kind == b.kind else "?", items,
             a.parts if a.parts is not None and b.parts is not None and [(c, n.id) for c, n in a.parts] == [(c, n.id) for c, n in b.parts] else None)


class State:
    def __init__(self, env=None, facts=None, guards=()):
        self.env = env or {}
        self.facts = facts or []
        self.guards = guards        # names in refusals that were not understood

    def copy(self):
        return State(dict(self.env), list(self.facts), self.guards)

    def key(self):
        return (tuple(sorted((k, v.key()) for k, v in self.env.items())), tuple(sorted(f.id for f in self.facts)), self.guards)


def atleast(a, b, facts):
    """a >= b by a known inequality"""
    if equal(a, b, facts) is not None:
        return equal(a, b, facts) >= 0
    d = sub(a, b)
    for f in facts:
        if f.op == "atl0":
            x = sub(d, f.a[0])
            if equal(x, num(0), facts) is not None and equal(x, num(0), facts) >= 0:
                return True
    return False


def equal(a, b, facts):
    """a - b when constant under the facts, else None"""
    d = sub(a, b)
    if val(d) is not None:
        return val(d)
    facts = [f for f in facts if f.op != "atl0"]
    for f in facts:
        for c in (1, -1):
            x = sub(d, mul(num(c), f))
            if val(x) is not None:
                return val(x)
            for g in facts:
                if g is not f:
                    for e in (1, -1):
                        y = sub(x, mul(num(e), g))
                        if val(y) is not None:
                            return val(y)
    return None


class Interp:
    """on_call(interp, call, callee name, args: {param or index: V}, state) may return a value"""

    def __init__(self, funcs, classes=None, on_call=None, mod=None):
        self.funcs = funcs          # name -> FunctionDef reachable by that name
        self.classes = classes or {}
        self.on_call = on_call
        self.mod = mod
        self.stack = []
        self.loops = []
        self.stores = None          # attribute stores of self while summarising a class
        self.cls = None
        self.wraps = []             # differences in the element type of the caller

    # ---------------------------------------------------------------- functions
    def run(self, fn, args=None, cls=None):
        """states at every return: [(value, state)]"""
        s = State()
        a = fn.args
        ps = a.posonlyargs + a.args
        for i, p in enumerate(ps):
            s.env[p.arg] = user(p.arg)
        for p in a.kwonlyargs:
            s.env[p.arg] = user(p.arg)
        for p in (a.vararg, a.kwarg):
            if p is not None:
                s.env[p.arg] = unknown()
        if cls is not None and ps:
            s.env[ps[0].arg] = V("?", "?", kind="self")
        for k, v in (args or {}).items():
            s.env[k] = v
        old = self.loops, self.cls
        self.loops, self.cls = [], cls
        self.stack.append(fn)
        rets = []
        end = self.block(fn.body, [s], rets)
        self.stack.pop()
        self.loops, self.cls = old
        return rets + [(scalar(), x) for x in end]

    def block(self, b, states, rets):
        for st in b:
            if not states:
                return []
            states = self.limit(self.st(st, states, rets))
        return states

    def limit(self, states):
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        while len(out) > CAP:
            a, b = out.pop(), out.pop()
            c = State()
            for n in a.env:
                if n in b.env:
                    c.env[n] = join(a.env[n], b.env[n])
            c.facts = [f for f in a.facts if f in b.facts]
            c.guards = tuple(sorted(set(a.guards) | set(b.guards)))
            out.insert(0, c)
        return out

    def st(self, n, states, rets):
        if isinstance(n, ast.Assign):
            return [self.assign(n.targets, n.value, s) for s in states]
        if isinstance(n, ast.AnnAssign):
            return [self.assign([n.target], n.value, s) if n.value is not None else s for s in states]
        if isinstance(n, ast.AugAssign):
            out = []
            for s in states:
                s = s.copy()
                v = self.ev(n.value, s)
                if isinstance(n.target, ast.Name) and n.target.id in s.env:
                    o = s.env[n.target.id]
                    if o.kind == "num" and v.kind == "num" and o.num is not None and v.num is not None and isinstance(n.op, (ast.Add, ast.Sub)):
                        s.env[n.target.id] = scalar((add if isinstance(n.op, ast.Add) else sub)(o.num, v.num))
                    elif o.kind == "list":
                        s.env[n.target.id] = o.but(len=add(o.len, v.len) if o.len is not None and v.len is not None else None)
                    else:
                        s.env[n.target.id] = o.but(num=None)
                out.append(s)
            return out
        if isinstance(n, ast.Expr):
            out = []
            for s in states:
                s = s.copy()
                self.ev(n.value, s)
                out.append(s)
            return out
        if isinstance(n, ast.If):
            a, b = [], []
            for s in states:
                s = s.copy()
                self.ev(n.test, s)
                x, y = self.refine(n.test, s, True), self.refine(n.test, s, False)
                for side, z in ((n.body, y), (n.orelse, x)):
                    if z is not None and side and isinstance(side[-1], (ast.Raise, ast.Return)) and z.key() == s.key():
                        z.guards = tuple(sorted(set(z.guards) | {ast.unparse(m) for m in ast.walk(n.test) if isinstance(m, (ast.Name, ast.Attribute))}))
                if x is not None:
                    a.append(x)
                if y is not None:
                    b.append(y)
            return self.block(n.body, a, rets) + self.block(n.orelse, b, rets)
        if isinstance(n, (ast.For, ast.While)):
            out = list(states)
            cur = states
            grown = {c.func.value.id for b in n.body for c in ast.walk(b) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
                     and c.func.attr in ("append", "extend", "insert", "pop", "remove") and isinstance(c.func.value, ast.Name)}
            total = self.grow(n, states, grown) if grown and isinstance(n, ast.For) else {}
            for _ in range(2):
                nxt = []
                for s in cur:
                    s = s.copy()
                    if isinstance(n, ast.For):
                        it = self.ev(n.iter, s)
                        self.bind(n.target, V("user" if it.contig == "user" else "?", it.dtype) if it.kind != "num" else scalar(), s)
                    else:
                        self.ev(n.test, s)
                    nxt.append(s)
                self.loops.append(([], []))
                end = self.block(n.body, nxt, rets)
                brk, cont = self.loops.pop()
                cur = self.limit(end + cont)
                for s in cur + brk:
                    for g in grown:
                        if g in s.env:
                            s.env[g] = s.env[g].but(len=None, items=None, parts=None)
                    for b in n.body:
                        for x in ast.walk(b):
                            if isinstance(x, (ast.Assign, ast.AugAssign)):
                                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                                    for y in ast.walk(t):
                                        if isinstance(y, ast.Name) and y.id in s.env and s.env[y.id].kind == "num":
                                            s.env[y.id] = scalar()
                out += cur + brk
            for g, l in total.items():
                for s in out:
                    if g in s.env:
                        s.env[g] = s.env[g].but(len=l, items=None)
            return self.block(n.orelse, out, rets) if n.orelse else out
        if isinstance(n, ast.Break):
            self.loops[-1][0].extend(states)
            return []
        if isinstance(n, ast.Continue):
            self.loops[-1][1].extend(states)
            return []
        if isinstance(n, ast.Return):
            for s in states:
                s = s.copy()
                rets.append((self.ev(n.value, s) if n.value is not None else scalar(), s))
            return []
        if isinstance(n, ast.Raise):
            return []
        if isinstance(n, ast.Assert):
            return [x for s in states for x in [self.refine(n.test, s.copy(), True)] if x is not None]
        if isinstance(n, ast.With):
            for s in states:
                for i in n.items:
                    self.ev(i.context_expr, s)
            return self.block(n.body, states, rets)
        if isinstance(n, ast.Try):
            out = self.block(n.body, [s.copy() for s in states], rets)
            for h in n.handlers:
                out += self.block(h.body, [s.copy() for s in states], rets)
            return self.block(n.finalbody, out, rets) if n.finalbody else out
        return states

    def grow(self, n, states, grown):
        """lengths of the lists a loop appends to, from what one pass appends for each kind of element"""
        if len(states) > 1:
            ts = [self.grow(n, [s], grown) for s in states]
            return {g: l for g, l in ts[0].items() if all(t.get(g) is l for t in ts)}
        if not states or any(isinstance(x, (ast.Break, ast.Return)) for b in n.body for x in ast.walk(b)):
            return {}
        s0 = states[0].copy()
        it = self.ev(n.iter, s0)
        parts = it.parts or ([(None, it.len)] if it.len is not None else None)
        if parts is None:
            return {}
        tot = {}
        for g in grown:
            v = s0.env.get(g)
            if v is None or v.kind != "list" or v.len is None:
                continue
            tot[g] = v.len
        for cls, cnt in parts:
            s = s0.copy()
            self.bind(n.target, V("?", "?", kind="obj", parts=[(cls, num(1))]) if cls is not None else unknown(), s)
            self.loops.append(([], []))
            old = self.wraps
            end = self.block(n.body, [s], [])
            self.wraps = old
            end += self.loops.pop()[1]
            for g in list(tot):
                ds = {val(sub(e.env[g].len, s0.env[g].len)) if g in e.env and e.env[g].len is not None else None for e in end}
                if len(ds) != 1 or None in ds:
                    del tot[g]
                else:
                    tot[g] = add(tot[g], mul(num(ds.pop()), cnt))
        return tot

    def typetest(self, t, s):
        """(variable, class, sense) of type(x) == C, isinstance(x, C)"""
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], ast.Name) and isinstance(t.args[1], (ast.Name, ast.Attribute)):
            return t.args[0].id, ast.unparse(t.args[1]).split(".")[-1], True
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
            a, b = t.left, t.comparators[0]
            for x, y in ((a, b), (b, a)):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "type" and len(x.args) == 1 and isinstance(x.args[0], ast.Name) and isinstance(y, (ast.Name, ast.Attribute)):
                    return x.args[0].id, ast.unparse(y).split(".")[-1], isinstance(t.ops[0], (ast.Eq, ast.Is))
        return None

    # ---------------------------------------------------------------- conditions
    CFLAGS = ("C_CONTIGUOUS", "C", "CONTIGUOUS", "CARRAY", "c_contiguous", "contiguous", "carray")

    def refine(self, t, s, truth):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.refine(t.operand, s, not truth)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == truth
            if conj:
                for x in t.values:
                    s = self.refine(x, s, truth)
                    if s is None:
                        return None
                return s
            return s.copy()
        s = s.copy()
        f = None
        tt = self.typetest(t, s)
        if tt is not None and s.env.get(tt[0]) is not None and s.env[tt[0]].kind == "obj":
            return s if (s.env[tt[0]].parts[0][0] == tt[1]) == (truth == tt[2]) else None
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == "flags" and isinstance(t.slice, ast.Constant):
            f = (t.value.value, t.slice.value)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Attribute) and t.value.attr == "flags":
            f = (t.value.value, t.attr)
        if f is not None and isinstance(f[0], ast.Name) and f[0].id in s.env:
            if f[1] in self.CFLAGS and truth:
                s.env[f[0].id] = s.env[f[0].id].but(contig="yes")
            return s
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b, op = t.left, t.comparators[0], t.ops[0]
            if isinstance(a, ast.Attribute) and a.attr == "dtype" and isinstance(a.value, ast.Name) and a.value.id in s.env:
                if isinstance(op, (ast.Eq, ast.Is)) == truth and isinstance(op, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
                    s.env[a.value.id] = s.env[a.value.id].but(dtype=self.dtype(b))
                return s
            if isinstance(op, (ast.Eq, ast.NotEq)):
                x, y = self.ev(a, s).num, self.ev(b, s).num
                if x is not None and y is not None:
                    d = sub(x, y)
                    eq = isinstance(op, ast.Eq) == truth
                    if val(d) is not None and (val(d) == 0) != eq:
                        return None
                    if eq and val(d) is None and d not in s.facts:
                        s.facts.append(d)
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                x, y = self.ev(a, s).num, self.ev(b, s).num
                if x is not None and y is not None:
                    d = sub(x, y)
                    if isinstance(op, (ast.Lt, ast.LtE)):
                        d = neg(d)
                    strict = isinstance(op, (ast.Lt, ast.Gt))
                    if not truth:
                        d, strict = neg(d), not strict
                    if strict:
                        d = sub(d, num(1))
                    if val(d) is not None:
                        if val(d) < 0:
                            return None
                    else:
                        f = mk("atl0", d)
                        if f not in s.facts:
                            if mk("atl0", neg(d)) in s.facts:
                                s.facts.append(d)
                            s.facts.append(f)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(b, ast.Constant) and b.value is None and isinstance(a, ast.Name):
                v = s.env.get(a.id)
                none = isinstance(op, ast.Is) == truth
                if v is not None and v.kind == "none" and not none:
                    return None
                if v is not None and v.kind in ("array", "list", "num", "tuple") and none and v.contig != "?":
                    return None
        return s

    # ---------------------------------------------------------------- assignment
    def assign(self, targets, value, s):
        s = s.copy()
        v = self.ev(value, s)
        for t in targets:
            self.bind(t, v, s)
        return s

    def bind(self, t, v, s):
        if isinstance(t, ast.Name):
            s.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.bind(x.value if isinstance(x, ast.Starred) else x, v.items[i] if v.items and len(v.items) == len(t.elts) else unknown(), s)
        elif isinstance(t, ast.Attribute):
            b = s.env.get(t.value.id) if isinstance(t.value, ast.Name) else None
            if b is not None and b.kind == "self":
                s.env["self." + t.attr] = v
            elif t.attr in ("T", "shape", "strides"):
                if isinstance(t.value, ast.Name) and t.value.id in s.env:
                    s.env[t.value.id] = unknown()

    # ---------------------------------------------------------------- expressions
    def dtype(self, e):
        if e is None:
            return None
        if isinstance(e, ast.Attribute):
            n = e.attr
        elif isinstance(e, ast.Name):
            n = e.id
        elif isinstance(e, ast.Constant) and isinstance(e.value, str):
            n = e.value.lstrip("<=")
        else:
            return "?"
        if n == "dtype":
            return "?"
        return "double" if n in DOUBLE else n if n in NARROW or n.startswith(">") else "?"

    def convert(self, v, d):
        """element type after a conversion to d"""
        if d is None:
            return v
        l = v.lossy
        if d in NARROW and v.kind != "list":
            l = l or d
        return v.but(dtype=d, lossy=l)

    def kw(self, c, name, pos=None):
        for k in c.keywords:
            if k.arg == name:
                return k.value
        return c.args[pos] if pos is not None and len(c.args) > pos else None

    def ev(self, e, s):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool) or e.value is None:
                return V("?", "?", kind="none" if e.value is None else "num")
            if isinstance(e.value, (int, float)):
                return scalar(num(Fr(e.value)) if isinstance(e.value, int) else None).but(dtype="double" if isinstance(e.value, float) else "?")
            return V("?", "?", kind="str")
        if isinstance(e, ast.Name):
            return s.env.get(e.id) or unknown()
        if isinstance(e, (ast.Tuple, ast.List)):
            items = [self.ev(x, s) for x in e.elts]
            return V("yes", "?", kind="list" if isinstance(e, ast.List) else "tuple", items=items, len=num(len(items)))
        if isinstance(e, ast.ListComp):
            g = e.generators[0]
            it = self.ev(g.iter, s)
            inner = s.copy()
            for x in e.generators:
                self.bind(x.target, unknown(), inner)
            self.ev(e.elt, inner)
            n, parts = it.len, None
            if len(e.generators) > 1 or g.ifs:
                n = mk("asym", "comp", e.lineno, e.col_offset)
                t = self.typetest(g.ifs[0], inner) if len(g.ifs) == 1 and len(e.generators) == 1 else None
                if t is not None and t[2] and isinstance(g.target, ast.Name) and t[0] == g.target.id and it.len is not None:
                    n = mk("asym", "count", t[1], it.len)
                    if isinstance(e.elt, ast.Name) and e.elt.id == t[0]:
                        parts = [(t[1], n)]
            elif isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id:
                parts = it.parts
            return V("yes", "?", kind="list", len=n, parts=parts)
        if isinstance(e, ast.IfExp):
            self.ev(e.test, s)
            a, b = self.refine(e.test, s, True), self.refine(e.test, s, False)
            vs = [self.ev(x, y) for x, y in ((e.body, a), (e.orelse, b)) if y is not None]
            return vs[0] if len(vs) == 1 else join(*vs)
        if isinstance(e, ast.Attribute):
            return self.attribute(e, s)
        if isinstance(e, ast.Subscript):
            return self.subscript(e, s)
        if isinstance(e, (ast.BinOp, ast.UnaryOp)):
            vs = [self.ev(x, s) for x in ([e.left, e.right] if isinstance(e, ast.BinOp) else [e.operand])]
            if all(v.kind == "num" for v in vs):
                if len(vs) == 2 and all(v.num is not None for v in vs) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
                    return scalar({ast.Add: add, ast.Sub: sub, ast.Mult: mul}[type(e.op)](vs[0].num, vs[1].num))
                return scalar()
            if all(v.kind == "list" for v in vs) and len(vs) == 2 and isinstance(e.op, ast.Add):
                ls = [v.len for v in vs]
                return V("yes", "?", kind="list", len=add(*ls) if None not in ls else None, parts=vs[0].parts + vs[1].parts if vs[0].parts and vs[1].parts else None)
            if len(vs) == 2 and isinstance(e.op, ast.Mult) and {v.kind for v in vs} == {"list", "num"}:
                l, k = vs if vs[0].kind == "list" else vs[::-1]
                return V("yes", "?", kind="list", len=mul(l.len, k.num) if l.len is not None and k.num is not None else None)
            arr = [v for v in vs if v.kind not in ("num", "str", "list")]
            if not arr or isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and vs[0].kind == "str":
                return unknown()
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub) and all(v.kind == "array" and v.dtype == "user" for v in vs):
                self.wraps.append(e)
            c = max((v.contig for v in arr), key=ORDER.get)
            ds = {v.dtype for v in arr}
            d = "double" if "double" in ds and ds <= {"double", "user"} or isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div) and ds <= {"double"} else ds.pop() if len(ds) == 1 and len(arr) == len(vs) else "?"
            return V("fresh" if c == "user" else c, d, next((v.lossy for v in arr if v.lossy), None), len=arr[0].len if len({v.len.id if v.len is not None else 0 for v in arr}) == 1 else None)
        if isinstance(e, ast.Call):
            return self.call(e, s)
        if isinstance(e, ast.Compare):
            for x in [e.left] + e.comparators:
                self.ev(x, s)
            return unknown()
        if isinstance(e, ast.BoolOp):
            vs = [self.ev(x, s) for x in e.values]
            r = vs[0]
            for v in vs[1:]:
                r = join(r, v)
            return r
        if isinstance(e, ast.Starred):
            self.ev(e.value, s)
        return unknown()

    def attribute(self, e, s):
        b = self.ev(e.value, s)
        if b.kind == "self" and "self." + e.attr in s.env:
            return s.env["self." + e.attr]
        if e.attr == "T":
            return b.but(contig="user", ids=frozenset([new()]), len=None) if b.kind in ("array", "user") and b.contig != "?" else unknown()
        if e.attr == "size" and b.len is not None and b.kind == "array":
            return scalar(b.len)
        if e.attr in ("real", "values", "data"):
            return b.but(contig="user" if b.contig in ("user",) else "?")
        if e.attr in ("shape", "size", "ndim", "flags", "dtype"):
            return scalar()
        return self.member(e, b, s)

    def member(self, e, b, s):
        """attribute of an object of the package: what the constructors store"""
        out, classes = None, []
        for c in self.classes.values():
            if e.attr in c.attrs:
                v = c.attrs[e.attr]
                classes.append(c)
                out = v if out is None else join(out, v)
        if out is None:
            return unknown()
        base = ast.unparse(e.value)
        if len(classes) == 1 or len({c.root for c in classes}) == 1:
            c = classes[0]
            m = {}

            def own(t):
                for a in atoms(t, lambda y: y.op == "asym"):
                    m[a.id] = mk("asym", "of", base, a)
                return subst(t, m, {})
            if c.guarded:
                s.guards = tuple(sorted(set(s.guards) | {"constructor of " + c.name}))
            if out.len is not None:
                out = out.but(len=own(out.len))
            for f in c.facts:
                g = own(f)
                if g not in s.facts:
                    s.facts.append(g)
        else:
            out = out.but(len=None)
        return out.but(ids=frozenset([("attr", base, e.attr)]))

    def subscript(self, e, s):
        b = self.ev(e.value, s)
        if isinstance(e.value, ast.Attribute) and e.value.attr == "shape" and isinstance(e.slice, ast.Constant):
            a = self.ev(e.value.value, s)
            if e.slice.value == 0 and a.len is not None:
                return scalar(a.len)
            return scalar()
        if not isinstance(e.slice, ast.Slice):
            self.ev(e.slice, s)
        if b.kind in ("list", "tuple"):
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and b.items and -len(b.items) <= e.slice.value < len(b.items):
                return b.items[e.slice.value]
            return unknown()
        sl = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        if any(isinstance(x, ast.Slice) for x in sl) and b.contig in ("yes", "fresh", "user"):
            full = [isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None for x in sl]
            if all(full):
                return b.but(len=b.len)
            return b.but(kind="array", contig="user" if len(sl) > 1 or sl[0].step is not None or b.contig == "user" else b.contig, len=None, ids=frozenset([new()]), num=None)
        return V("?", b.dtype, b.lossy)

    # ---------------------------------------------------------------- calls
    def call(self, e, s):
        f = e.func
        args = [self.ev(a, s) for a in e.args]
        kws = {k.arg: self.ev(k.value, s) for k in e.keywords}
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        base = f.value if isinstance(f, ast.Attribute) else None
        isnp = isinstance(base, ast.Name) and base.id in ("np", "numpy")
        if self.on_call is not None:
            v = self.on_call(self, e, nm, args, kws, s)
            if v is not None:
                return v
        if isnp:
            return self.numpy(e, nm, args, kws, s)
        if base is None:
            if nm == "len" and args:
                return scalar(args[0].len)
            if nm in ("int", "float", "bool", "abs", "min", "max", "round", "sum"):
                return scalar(args[0].num if nm in ("int", "float") and args else None)
            if nm == "list" and args:
                return V("yes", "?", kind="list", len=args[0].len)
            if nm == "range":
                return V("yes", "?", kind="list", len=args[0].num if len(args) == 1 else None)
        else:
            b = self.ev(base, s)
            if b.kind in ("array", "user"):
                v = self.method(e, b, nm, args, kws)
                if v is not None:
                    return v
            if b.kind == "list" and nm == "append" and isinstance(base, ast.Name):
                s.env[base.id] = b.but(len=add(b.len, num(1)) if b.len is not None else None, items=None)
                return scalar()
        g = self.target(f, nm, s)
        if g is not None and g[0] not in self.stack and len(self.stack) < 12:
            fn, cls = g
            ps = [p.arg for p in fn.args.posonlyargs + fn.args.args]
            bound = {}
            if cls is not None:
                ps = ps[1:]
            if not any(isinstance(a, ast.Starred) for a in e.args) and not any(k.arg is None for k in e.keywords):
                for p, v in zip(ps, args):
                    bound[p] = v
                bound.update({k: v for k, v in kws.items() if k in ps or k in [p.arg for p in fn.args.kwonlyargs]})
                pos = fn.args.posonlyargs + fn.args.args
                for p, d in zip(pos[len(pos) - len(fn.args.defaults):], fn.args.defaults):
                    if p.arg not in bound:
                        bound[p.arg] = self.ev(d, State())
                for p, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults):
                    if p.arg not in bound and d is not None:
                        bound[p.arg] = self.ev(d, State())
            rets = self.run(fn, bound, cls)
            if rets:
                r = rets[0][0]
                for v, x in rets[1:]:
                    r = join(r, v)
                s.guards = tuple(sorted(set(s.guards).union(*[x.guards for v, x in rets])))
                if len(rets) == 1 or all(set(x.facts) == set(rets[0][1].facts) for v, x in rets):
                    for fct in rets[0][1].facts:
                        if fct not in s.facts:
                            s.facts.append(fct)
                return r
        return unknown()

    def target(self, f, nm, s):
        if isinstance(f, ast.Name) and nm in self.funcs:
            return self.funcs[nm], None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and self.cls is not None:
            b = s.env.get(f.value.id)
            if b is not None and b.kind == "self":
                for m in self.cls.body:
                    if isinstance(m, ast.FunctionDef) and m.name == nm:
                        if any(isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod") for d in m.decorator_list):
                            return None
                        return m, self.cls
        return None

    def order(self, c, v, order, default):
        """memory order of a copy of v"""
        if order is not None:
            o = order.value if isinstance(order, ast.Constant) else "?"
        else:
            o = default
        if v.kind in ("list", "num", "tuple"):
            return "yes"
        if o == "C":
            return "yes"
        if o in ("K", "A"):
            return {"user": "fresh"}.get(v.contig, v.contig)
        if o == "F":
            return "fresh"
        return "?"

    def numpy(self, e, nm, args, kws, s):
        d = self.dtype(self.kw(e, "dtype"))
        a = args[0] if args else unknown()
        if nm in ("array", "copy", "asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "require", "atleast_1d", "atleast_2d", "asarray_chkfinite"):
            if nm in ("array", "asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "require") and d is None and len(e.args) > 1:
                d = self.dtype(e.args[1])
            order = self.kw(e, "order", 1 if nm == "copy" else None)
            if nm in ("atleast_1d", "atleast_2d"):
                return a if a.kind not in ("list", "num") else V("yes", a.dtype, len=a.len)
            if nm == "ascontiguousarray":
                c = "yes"
            elif nm == "asfortranarray":
                c = "fresh"
            elif nm == "require":
                req = self.kw(e, "requirements", 2)
                c = "yes" if req is not None and any(isinstance(x, ast.Constant) and x.value in ("C", "C_CONTIGUOUS", "CONTIGUOUS") for x in ast.walk(req)) else a.contig
            elif nm in ("array", "copy"):
                nocopy = self.kw(e, "copy")
                if nocopy is not None and not (isinstance(nocopy, ast.Constant) and nocopy.value is True):
                    c = self.order(e, a, order, "K") if order is not None else "yes" if a.kind in ("list", "num", "tuple") else a.contig
                else:
                    c = self.order(e, a, order, "K")
            else:
                c = self.order(e, a, order, None) if order is not None else "yes" if a.kind in ("list", "num", "tuple") else a.contig
            x = V(c, a.dtype, a.lossy, len=a.len if a.kind in ("list", "array", "tuple", "user") else None)
            if nm in ("asarray", "asanyarray", "ascontiguousarray", "require"):
                x.ids = x.ids | a.ids
            x.kind = "list" if False else "array"
            if a.kind in ("list", "tuple"):
                return x.but(dtype=d or ("double" if a.items and all(i.kind == "num" and i.dtype == "double" for i in a.items) else "user"))
            return self.convert(x, d)
        if nm in ("zeros", "ones", "empty", "full", "linspace", "arange", "eye", "logspace"):
            order = self.kw(e, "order")
            n = None
            if nm in ("zeros", "ones", "empty", "full") and args:
                n = args[0].num if args[0].kind == "num" else args[0].items[0].num if args[0].items and len(args[0].items) == 1 else None
            if d is None and nm in ("zeros", "ones", "empty", "full") and len(e.args) > (2 if nm == "full" else 1):
                d = self.dtype(e.args[2 if nm == "full" else 1])
            return V("yes" if order is None or isinstance(order, ast.Constant) and order.value == "C" else "fresh", d or ("double" if nm in ("zeros", "ones", "empty", "linspace", "eye", "logspace") else "?"), len=n)
        if nm in ("zeros_like", "ones_like", "empty_like", "full_like"):
            return self.convert(V({"user": "fresh"}.get(a.contig, a.contig), a.dtype, len=a.len), d)
        if nm in ("float32", "float16", "int32", "int64", "double", "float64"):
            return scalar()
        if nm in ("transpose", "swapaxes", "rot90", "flip", "fliplr", "flipud", "moveaxis", "broadcast_to"):
            return a.but(contig="user", len=None, ids=frozenset([new()])) if a.contig != "?" else unknown()
        if nm in ("abs", "absolute", "clip", "round", "around", "rint", "floor", "where", "maximum", "minimum", "add", "subtract", "multiply", "nan_to_num"):
            return V({"user": "fresh"}.get(a.contig, a.contig), a.dtype if a.dtype in ("double",) else "?", a.lossy or (nm if nm in ("round", "around", "rint", "floor") else None), len=a.len)
        if nm in ("concatenate", "append", "hstack", "vstack", "stack"):
            return V("?", "?")
        return unknown()

    def method(self, e, b, nm, args, kws):
        d = self.dtype(self.kw(e, "dtype", 0)) if nm in ("astype",) else None
        if nm == "copy":
            return V(self.order(e, b, self.kw(e, "order", 0), "C"), b.dtype, b.lossy, len=b.len)
        if nm == "astype":
            cp = self.kw(e, "copy")
            c = self.order(e, b, self.kw(e, "order", 1), "K")
            if cp is not None and isinstance(cp, ast.Constant) and cp.value is False and self.kw(e, "order", 1) is None:
                c = b.contig
            return self.convert(V(c, b.dtype, b.lossy, len=b.len), d)
        if nm in ("transpose", "swapaxes", "view"):
            return b.but(contig="user" if b.contig != "?" and nm != "view" else b.contig if nm == "view" and not args and not kws else "?", len=None)
        if nm in ("reshape", "ravel", "flatten"):
            return V("yes" if nm in ("flatten",) and b.contig != "?" else "?", b.dtype, b.lossy)
        if nm in ("round", "clip"):
            return V({"user": "fresh"}.get(b.contig, b.contig), b.dtype, b.lossy or ("round" if nm == "round" else None), len=b.len)
        if nm in ("sum", "mean", "max", "min", "std", "item", "tolist", "any", "all"):
            return scalar()
        return None


NARROW = {"float32", "float16", "single", "half", "int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "f4", "f2", "i4", "i8", "intc", "longlong", "bool_"}


class Summary:
    """what the constructor of a class leaves in its attributes"""

    def __init__(self, name, root):
        self.name, self.root = name, root
        self.attrs = {}
        self.facts = []
        self.guarded = False


def summarise(tree, funcs, out, names=None):
    cls = {n.name: n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)}
    for c in cls.values():
        init = next((m for m in c.body if isinstance(m, ast.FunctionDef) and m.name == "__init__"), None)
        root = c
        while root.bases and isinstance(root.bases[0], ast.Name) and root.bases[0].id in cls:
            root = cls[root.bases[0].id]
        if init is None:
            continue
        ends = [s for v, s in Interp(funcs).run(init, None, c)]
        if not ends:
            continue
        S = Summary(c.name, root.name)
        S.guarded = any(s.guards for s in ends)
        common = set.intersection(*[{k for k in s.env if k.startswith("self.")} for s in ends])
        for k in common:
            vs = [s.env[k] for s in ends]
            v = vs[0]
            for w in vs[1:]:
                v = join(v, w)
            ls = [w.len for w in vs]
            if None not in ls:
                v = v.but(len=ls[0] if all(x is ls[0] for x in ls) else mk("asym", "either", tuple(x.id for x in ls)))
            S.attrs[k[5:]] = v
        ks = sorted(k for k in common if all(s.env[k].len is not None for s in ends))
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                if all(equal(s.env[a].len, s.env[b].len, s.facts) == 0 for s in ends):
                    f = sub(S.attrs[a[5:]].len, S.attrs[b[5:]].len)
                    if val(f) is None:
                        S.facts.append(f)
                else:
                    for x, y in ((a, b), (b, a)):
                        if all(atleast(s.env[x].len, s.env[y].len, s.facts) for s in ends):
                            S.facts.append(mk("atl0", sub(S.attrs[x[5:]].len, S.attrs[y[5:]].len)))
        # attributes other methods overwrite
        for m in c.body:
            if isinstance(m, ast.FunctionDef) and m.name != "__init__":
                for n in ast.walk(m):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in S.attrs:
                        S.attrs[n.attr] = S.attrs[n.attr].but(len=None, contig="?", dtype="?")
        out[c.name] = S
    return out
