"""Value graphs for the Python layer: a small abstract interpreter over ast whose
values are the same terms as the C++ one.  Nothing is imported or executed."""
import ast
from terms import *

# numpy calls and methods that return the same values (copies, dtype and layout changes)
SAME = {"copy", "astype", "asarray", "asanyarray", "atleast_2d", "asarray_chkfinite", "ascontiguousarray", "array", "double", "float64", "deepcopy", "asfortranarray", "require", "float"}
NONE = mk("none")


class PyVG:
    def __init__(self, mod, fold=None, on_call=None, inline=()):
        self.mod = mod
        self.fold = fold or {}
        self.on_call = on_call
        self.inline = set(inline)
        self.env = {}
        self.attrs = {}
        self.events = []
        self.rets = []
        self.pc = []
        self.loops = []
        self.n = 0
        self.notes = []

    # ------------------------------------------------------------ running
    def run(self, f, args=None):
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for n in names:
            v = (args or {}).get(n)
            if v is None:
                v = self.const(self.fold[n]) if n in self.fold else mk("parg", n, "py")
            self.env[n] = v
        if a.vararg:
            self.env[a.vararg.arg] = mk("parg", "*" + a.vararg.arg, "py")
        if a.kwarg:
            self.env[a.kwarg.arg] = mk("parg", "**" + a.kwarg.arg, "py")
        live = self.block(f.body)
        return self.rets

    def const(self, v):
        if v is None:
            return NONE
        if isinstance(v, bool):
            return num(int(v))
        if isinstance(v, (int, float)):
            return num(v)
        return mk("str", str(v))

    def event(self, what, **kw):
        e = dict(what=what, pc=list(self.pc), loops=list(self.loops), **kw)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            if not self.stmt(s):
                return False
        return True

    def stmt(self, s):
        if isinstance(s, ast.Expr):
            c = s.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and len(c.args) == 1 \
                    and isinstance(c.func.value, ast.Name) and not c.keywords:
                b = self.env.get(c.func.value.id)
                if b is not None and b.op in ("list", "lv", "append", "cat", "comp", "ite"):
                    self.env[c.func.value.id] = mk("append", b, self.ev(c.args[0])) if b.op != "list" \
                        else mk("list", b.a[0] + (self.ev(c.args[0]),))
                    return True
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value)
            return True
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s)
            return True
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s)
            return True
        if isinstance(s, ast.AugAssign):
            old = self.ev(self.load(s.target))
            v = self.binop(s.op, old, self.ev(s.value))
            self.event("aug", node=s, target=s.target, old=old, value=v)
            self.assign(s.target, v, s)
            return True
        if isinstance(s, ast.Return):
            self.rets.append((land(*self.pc), self.ev(s.value) if s.value is not None else NONE, dict(self.env), s))
            return False
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc)
            self.event("raise", node=s)
            return False
        if isinstance(s, ast.If):
            c = self.cond(s.test)
            if c is TRUE:
                return self.block(s.body)
            if c is FALSE:
                return self.block(s.orelse)
            e0, a0 = dict(self.env), dict(self.attrs)
            self.pc.append(c)
            l1 = self.block(s.body)
            e1, a1 = self.env, self.attrs
            self.pc.pop()
            self.env, self.attrs = dict(e0), dict(a0)
            self.pc.append(lnot(c))
            l2 = self.block(s.orelse)
            self.pc.pop()
            e2, a2 = self.env, self.attrs
            if l1 and l2:
                self.env = self.merge(c, e1, e2)
                self.attrs = self.merge(c, a1, a2)
            elif l1:
                self.env, self.attrs = e1, a1
                self.pc.append(c)
            elif l2:
                self.env, self.attrs = e2, a2
                self.pc.append(lnot(c))
            else:
                return False
            return True
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s)
        if isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, s)
            return self.block(s.body)
        if isinstance(s, ast.Try):
            live = self.block(s.body)
            for h in s.handlers:
                e, a = dict(self.env), dict(self.attrs)
                if h.name:
                    self.env[h.name] = mk("sym", "exception")
                self.n += 1
                self.pc.append(mk("not", mk("eq0", mk("sym", "exc%d" % self.n), True)))
                l2 = self.block(h.body)
                self.pc.pop()
                self.env, self.attrs = e, a
            self.block(s.orelse)
            self.block(s.finalbody)
            return live
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            self.env[s.name] = mk("pyfun", s.name)
            return True
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                self.env[(a.asname or a.name).split(".")[0]] = mk("gname", a.name)
            return True
        if isinstance(s, ast.Assert):
            self.cond(s.test)
            return True
        if isinstance(s, ast.Delete):
            return True
        if isinstance(s, (ast.Break, ast.Continue)):
            self.event("jump", node=s)
            return False
        return True

    def merge(self, c, a, b):
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                x = x if x is not None else mk("undef", str(k))
                y = y if y is not None else mk("undef", str(k))
            out[k] = x if x is y else ite(c, x, y)
        return out

    def load(self, t):
        import copy
        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, mk("rest", v, num(i)), s)
                else:
                    self.assign(x, self.item(v, num(i)), s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.event("setattr", node=s, base=b, attr=t.attr, value=v)
            self.attrs[(b, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            ix = self.ev(t.slice)
            self.event("setitem", node=s, base=b, index=ix, value=v, target=t)
            if self.whole(t.slice):
                nv = v
            else:
                nv = mk("setitem", b, ix, v)
            self.rebind(t.value, nv, s)

    def rebind(self, t, v, s):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.attrs[(self.ev(t.value), t.attr)] = v
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.rebind(t.value, mk("setitem", b, self.ev(t.slice), v), s)

    def whole(self, s):
        if isinstance(s, ast.Slice):
            return s.lower is None and s.upper is None and s.step is None
        if isinstance(s, ast.Tuple):
            return bool(s.elts) and all(self.whole(x) for x in s.elts)
        return isinstance(s, ast.Constant) and s.value is Ellipsis

    def assigned(self, body):
        out = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, (ast.Name,)) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                    x = n
                    while isinstance(x, (ast.Subscript, ast.Attribute)):
                        x = x.value
                    if isinstance(x, ast.Name):
                        out.add(x.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert") \
                        and isinstance(n.func.value, ast.Name):
                    out.add(n.func.value.id)
        return out

    def loop(self, s):
        self.n += 1
        names = self.assigned(s.body)
        if isinstance(s, ast.For):
            it = self.ev(s.iter)
            trip = None
            k = fresh("k")
            tgt = None
            c = s.iter
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "range" and 1 <= len(c.args) <= 2:
                lo = self.ev(c.args[0]) if len(c.args) == 2 else num(0)
                hi = self.ev(c.args[-1])
                trip = sub(numeric(hi), numeric(lo))
                tgt = add(k, numeric(lo))
            else:
                trip = fn("len", it)
                tgt = self.item(it, k)
        else:
            k, trip, tgt = fresh("k"), None, None
        before = dict(self.env)
        init = {}
        lv = {}
        for n in sorted(names):
            if n in self.env:
                init[n] = self.env[n]
                lv[n] = mk("lv", self.n, n)
                self.env[n] = lv[n]
        ln = self.n
        self.loops.append((k, trip))
        if tgt is not None:
            self.assign(s.target, tgt, s)
        npc = len(self.pc)
        if isinstance(s, ast.While):
            self.pc.append(self.cond(s.test))
        self.block(s.body)
        del self.pc[npc:]
        self.loops.pop()
        jumps = any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in s.body for x in ast.walk(b))
        end = self.env
        out = {}
        for n in set(end) | set(before):
            if n in lv:
                if end.get(n) is lv[n]:
                    out[n] = init[n]
                else:
                    out[n] = self.appended(s, it if tgt is not None else None, k, lv[n], init[n], end.get(n), jumps) or \
                        mk("pyrec", ln, n, trip if trip is not None else NONE)
            else:
                out[n] = end.get(n, before.get(n))
        self.event("loop", node=s, k=k, trip=trip, lv=lv, init=init, end=dict(end), jumps=jumps, ln=ln)
        self.env = out
        self.block(s.orelse)
        return True

    def appended(self, s, it, k, lv, init, end, jumps):
        """a list that every iteration appends at most one value to"""
        if it is None or jumps or end is None or not isinstance(s, ast.For) or trip_is_range(s):
            return None

        def split(t):
            if t is lv:
                return FALSE, None
            if t.op == "append" and t.a[0] is lv:
                return TRUE, t.a[1]
            if t.op == "append" and t.a[0].op == "ite":
                return None
            if t.op == "ite":
                a, b = split(t.a[1]), split(t.a[2])
                if a is None or b is None:
                    return None
                c = lor(land(t.a[0], a[0]), land(lnot(t.a[0]), b[0]))
                v = b[1] if a[1] is None else a[1] if b[1] is None else ite(t.a[0], a[1], b[1])
                return c, v
            return None
        r = split(end)
        if r is None or r[1] is None:
            return None
        c = mk("comp", it, k, r[1], () if r[0] is TRUE else (r[0],))
        return cat(init, c)

    # ------------------------------------------------------------ expressions
    def cond(self, e):
        return self.truth(self.ev(e))

    def truth(self, v):
        if v is NONE:
            return FALSE
        if v.op == "str":
            return TRUE if v.a[0] else FALSE
        if v.op == "list":
            return TRUE if v.a[0] else FALSE
        return truth(v)

    def binop(self, op, a, b):
        try:
            a2, b2 = numeric(a), numeric(b)
        except Exception:
            a2, b2 = a, b
        if isinstance(op, ast.Add) and (a.op in ("comp", "cat") or b.op in ("comp", "cat")):
            return cat(a, b)
        if a.op in ("str", "list") or b.op in ("str", "list"):
            if isinstance(op, ast.Add) and a.op == "list" and b.op == "list":
                return mk("list", a.a[0] + b.a[0])
            return mk("pybin", type(op).__name__, a, b)
        t = type(op)
        if t is ast.Add:
            return add(a2, b2)
        if t is ast.Sub:
            return sub(a2, b2)
        if t is ast.Mult:
            return mul(a2, b2)
        if t is ast.Div:
            if val(b2) == 0:
                return mk("pybin", "Div", a2, b2)
            return div(a2, b2)
        if t is ast.Pow and val(b2) in (2, 3):
            x = a2
            for _ in range(int(val(b2)) - 1):
                x = mul(x, a2)
            return x
        return mk("pybin", t.__name__, a2, b2)

    def item(self, v, i):
        if v.op == "list" and val(i) is not None and 0 <= val(i) < len(v.a[0]):
            return v.a[0][int(val(i))]
        if v.op == "ite":
            return ite(v.a[0], self.item(v.a[1], i), self.item(v.a[2], i))
        return mk("item", v, i)

    def ev(self, e):
        t = type(e)
        if t is ast.Constant:
            return self.const(e.value)
        if t is ast.Name:
            if e.id in self.env:
                return self.env[e.id]
            return mk("gname", e.id)
        if t is ast.Attribute:
            b = self.ev(e.value)
            v = self.attrs.get((b, e.attr))
            self.event("getattr", node=e, base=b, attr=e.attr)
            return v if v is not None else fld(e.attr, b)
        if t is ast.BinOp:
            return self.binop(e.op, self.ev(e.left), self.ev(e.right))
        if t is ast.UnaryOp:
            v = self.ev(e.operand)
            if isinstance(e.op, ast.USub):
                return neg(numeric(v))
            if isinstance(e.op, ast.Not):
                return lnot(self.truth(v))
            if isinstance(e.op, ast.UAdd):
                return v
            return mk("pyun", type(e.op).__name__, v)
        if t is ast.BoolOp:
            vs = [self.ev(x) for x in e.values]
            cs = [self.truth(x) for x in vs]
            return land(*cs) if isinstance(e.op, ast.And) else lor(*cs)
        if t is ast.Compare:
            out = []
            l = self.ev(e.left)
            for op, rr in zip(e.ops, e.comparators):
                r = self.ev(rr)
                out.append(self.compare(op, l, r))
                l = r
            return land(*out) if len(out) > 1 else out[0]
        if t is ast.IfExp:
            c = self.cond(e.test)
            return ite(c, self.ev(e.body), self.ev(e.orelse))
        if t in (ast.Tuple, ast.List):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return mk("pylist", tuple(self.ev(x.value if isinstance(x, ast.Starred) else x) for x in e.elts))
            return mk("list", tuple(self.ev(x) for x in e.elts))
        if t is ast.Subscript:
            return self.item(self.ev(e.value), self.ev(e.slice))
        if t is ast.Slice:
            return mk("slice", *[self.ev(x) if x is not None else NONE for x in (e.lower, e.upper, e.step)])
        if t is ast.Call:
            return self.call(e)
        if t is ast.Dict:
            return mk("pydict", tuple((self.ev(k) if k is not None else NONE, self.ev(v)) for k, v in zip(e.keys, e.values)))
        if t is ast.JoinedStr:
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    self.ev(x.value)
            return mk("str", "f")
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            g = e.generators[0]
            it = self.ev(g.iter)
            save = dict(self.env)
            k = fresh("k", fn("len", it))
            self.loops.append((k, fn("len", it)))
            self.assign(g.target, self.item(it, k), e)
            cs = [self.cond(c) for c in g.ifs]
            v = self.ev(e.elt) if len(e.generators) == 1 else mk("pyopaque", ast.dump(e))
            self.loops.pop()
            self.env = save
            return mk("comp", it, k, v, tuple(cs))
        if t is ast.Starred:
            return mk("star", self.ev(e.value))
        if t is ast.Lambda:
            return mk("pylambda", ast.dump(e))
        return mk("pyopaque", ast.dump(e))

    def compare(self, op, l, r):
        t = type(op)
        if t in (ast.Is, ast.IsNot) or t in (ast.Eq, ast.NotEq) and (l is NONE or r is NONE):
            if l is r:
                c = TRUE
            elif (l is NONE or r is NONE) and (l if r is NONE else r).op in ("poly", "num", "str", "list", "pycall", "pydict"):
                c = FALSE
            else:
                a, b = (l, r) if r is NONE else (r, l) if l is NONE else (l, r)
                c = self.isnone(a) if b is NONE else mk("eq0", fn("pyis", a, b), True)
            return c if t in (ast.Is, ast.Eq) else lnot(c)
        if t in (ast.In, ast.NotIn):
            c = mk("eq0", fn("notin", l, r), True)
            return c if t is ast.In else lnot(c)
        if t in (ast.Eq, ast.NotEq) and (l.op in ("gname", "pyfun") or r.op in ("gname", "pyfun")):
            a, b = (l, r) if l.id <= r.id else (r, l)
            c = mk("eq0", fn("pyis", a, b), True) if a is not b else TRUE
            return c if t is ast.Eq else lnot(c)
        if l.op == "str" or r.op == "str":
            if l.op == r.op:
                c = TRUE if l is r else FALSE
            else:
                c = mk("eq0", fn("streq", l, r), True)
            return c if t is ast.Eq else lnot(c)
        try:
            d = sub(numeric(l), numeric(r))
        except Exception:
            return mk("eq0", fn("cmp" + t.__name__, l, r), True)
        if t is ast.Eq:
            return cmp0("eq0", d, False)
        if t is ast.NotEq:
            return lnot(cmp0("eq0", d, False))
        if t is ast.Gt:
            return cmp0("gt0", d, False)
        if t is ast.GtE:
            return cmp0("ge0", d, False)
        if t is ast.Lt:
            return cmp0("gt0", neg(d), False)
        return cmp0("ge0", neg(d), False)

    def isnone(self, a):
        if a.op == "ite":
            return lor(land(a.a[0], self.isnone(a.a[1])), land(lnot(a.a[0]), self.isnone(a.a[2])))
        if a is NONE:
            return TRUE
        if a.op in ("poly", "num", "str", "list", "pycall"):
            return FALSE
        return mk("eq0", fn("isnotnone", a), True)

    def name(self, f):
        if isinstance(f, ast.Name):
            return f.id
        if isinstance(f, ast.Attribute):
            b = self.name(f.value)
            return (b + "." if b else ".") + f.attr
        return ""

    def call(self, e):
        nm = self.name(e.func)
        last = nm.split(".")[-1]
        obj = None
        if isinstance(e.func, ast.Attribute):
            obj = self.ev(e.func.value)
        args = [self.ev(a) for a in e.args]
        kw = {k.arg or "**": self.ev(k.value) for k in e.keywords}
        ev = self.event("call", node=e, name=nm, obj=obj, args=args, kw=kw)
        if self.on_call:
            r = self.on_call(self, e, nm, obj, args, kw)
            if r is not None:
                ev["res"] = r
                return r
        if last in SAME:
            if nm.split(".")[0] in ("np", "numpy", "copy") and args:
                r = args[0]
            elif last in ("float",) and args and isinstance(e.func, ast.Name):
                r = args[0]
            elif obj is not None and last in ("copy", "astype"):
                r = obj
            else:
                r = None
            if r is not None:
                ev["res"] = r
                ev["same"] = True
                return r
        if nm in ("np.concatenate", "np.hstack", "numpy.concatenate") and len(args) == 1 and args[0].op == "list" \
                and not (set(kw) - {"dtype"}):
            return cat(*args[0].a[0])
        if nm == "list" and len(args) == 1 and args[0].op in ("comp", "cat", "list"):
            return args[0]
        if nm == "abs" or nm in ("np.abs", "np.absolute"):
            return fn("abs", numeric(args[0]))
        if nm in ("np.maximum", "np.minimum", "max", "min") and len(args) == 2:
            return fn("max" if "max" in nm else "min", numeric(args[0]), numeric(args[1]))
        if nm == "len":
            return fn("len", args[0])
        f = None
        if isinstance(e.func, ast.Name) and e.func.id in self.inline and e.func.id not in self.env:
            f = self.mod.function(e.func.id)
        if f is not None:
            return self.inlined(f, args, kw, e)
        r = mk("pycall", nm, (obj,) if obj is not None else (), tuple(args), tuple(sorted(kw.items())))
        ev["res"] = r
        return r

    def inlined(self, f, args, kw, e):
        bound = bind_args(f, args, kw, self)
        env, rets, pc, attrs = self.env, self.rets, self.pc, self.attrs
        self.env, self.rets = {}, []
        self.pc = list(pc)
        n = len(self.pc)
        self.run(f, bound)
        rs = self.rets
        self.env, self.rets, self.pc = env, rets, pc
        if not rs:
            return NONE
        v = rs[-1][1]
        for c, x, _, _ in reversed(rs[:-1]):
            v = ite(given(pc, c), x, v)
        return v


def trip_is_range(s):
    return isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id in ("range", "enumerate", "zip")


def cat(*xs):
    out = []
    for x in xs:
        if x.op == "cat":
            out += list(x.a[0])
        elif x.op == "list" and not x.a[0]:
            continue
        else:
            out.append(x)
    return out[0] if len(out) == 1 else mk("cat", tuple(out))


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def bind_args(f, args, kw, vg=None):
    """parameter name -> term, defaults evaluated as constants"""
    a = f.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    for n, v in zip(names, args):
        out[n] = v
    for n, v in kw.items():
        out[n] = v
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        if n not in out:
            out[n] = vg.ev(d) if vg else d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg not in out and d is not None:
            out[x.arg] = vg.ev(d) if vg else d
    return out
