"""Interprocedural alias and mutation analysis of the Python package and the Cython wrapper.

A value is a set of objects: (root, path) with root ("P", name) a parameter's
object, ("G", module, name) a module-level object, ("D", func, param) a mutable
default argument, ("C", cls) a class object, ("N", id) an object made in the
function.  Variables are flow-sensitive (rebinding kills aliases, joins unite),
object fields are weakly updated.  A mutation is a store to an item, a slice or an
attribute of an object, an augmented assignment to an array, a mutator method, an
`out=` argument, or a call of something that mutates what it is given."""
import ast
import front, pysrc

MUTATORS = {"sort", "fill", "put", "resize", "itemset", "partition", "setflags", "append", "extend", "insert", "pop", "remove",
            "clear", "reverse", "update", "setdefault", "popitem", "add", "discard", "byteswap", "setfield", "__setitem__",
            "__setattr__", "__delitem__", "__iadd__", "__isub__", "__imul__", "__itruediv__"}
NPMUT = {"copyto": 0, "put": 0, "place": 0, "putmask": 0, "fill_diagonal": 0, "put_along_axis": 0, "shuffle": 0, "setattr": 0,
         "delattr": 0}
ALIASFN = {"asarray", "ascontiguousarray", "asanyarray", "asfortranarray", "reshape", "ravel", "transpose", "atleast_1d", "atleast_2d",
           "atleast_3d", "squeeze", "swapaxes", "moveaxis", "rollaxis", "rot90", "flip", "flipud", "fliplr", "broadcast_to",
           "expand_dims", "diagonal", "real", "imag", "require", "split", "array_split", "hsplit", "vsplit", "view", "rot90", "iter",
           "reversed", "memoryview", "frombuffer", "vars", "getattr", "nditer"}
ALIASATTR = {"T", "flat", "real", "imag", "base", "data", "mT"}
# array methods of ALIASFN too
LISTFN = {"list", "tuple", "sorted", "set", "zip", "enumerate", "filter", "map", "dict", "copy"}
SCALARATTR = {"shape", "size", "ndim", "dtype", "strides", "itemsize", "nbytes", "__name__", "__class__", "type"}
DEPTH = 3


class Sum:
    def __init__(self):
        self.mut = {}      # (root, path) -> (where, how, chain)
        self.ret = set()   # objects
        self.stores = {}   # (obj, field) -> set of objects
        self.fields = {}   # fields of returned new objects: field -> objects


class PyEffects:
    def __init__(self, mods, pyx=None, externmut=None):
        """mods: {name: pysrc.Module}; pyx: pyx.Pyx; externmut(name) -> set of mutated parameter indices of a C++ function"""
        self.mods, self.pyx, self.externmut = mods, pyx, externmut
        self.funcs = {}    # qualified -> (module, node, classname)
        self.classes = {}  # class -> (module, node)
        self.bymeth = {}
        for m in mods.values():
            for n in m.tree.body:
                if isinstance(n, ast.FunctionDef):
                    self.funcs[(m.name, n.name)] = (m, n, None)
                elif isinstance(n, ast.ClassDef):
                    self.classes[n.name] = (m, n)
                    for k in n.body:
                        if isinstance(k, ast.FunctionDef):
                            if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in k.decorator_list):
                                self.funcs[(n.name, k.name + "=")] = (m, k, n.name)
                                continue
                            self.funcs[(n.name, k.name)] = (m, k, n.name)
                            self.bymeth.setdefault(k.name, []).append((n.name, k.name))
        if pyx:
            class M:
                pass
            pm = M()
            pm.name, pm.rel, pm.tree = "wrapper", pyx.rel, None
            for n, f in pyx.functions.items():
                self.funcs[("wrapper", n)] = (pm, f, None)
        self.env = {m.name: self._imports(m) for m in mods.values()}
        self.glob = {m.name: {n for n in self._globals(m)} for m in mods.values()}
        self.sums = {k: Sum() for k in self.funcs}
        self.edges = {k: set() for k in self.funcs}
        self.extcalls = {k: set() for k in self.funcs}   # (name, line) of outside calls
        for it in range(12):
            ch = False
            for k in self.funcs:
                o = self.sums[k]
                s = Interp(self, k).run()
                if (set(s.mut), s.ret, s.stores, s.fields) != (set(o.mut), o.ret, o.stores, o.fields):
                    ch = True
                for q, v in o.mut.items():
                    if q in s.mut:
                        s.mut[q] = v
                self.sums[k] = s
            if not ch:
                break

    def _imports(self, m):
        out = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = (n.module or "").split(".")[-1]
                for a in n.names:
                    nm = a.asname or a.name
                    if (base, a.name) in self.funcs:
                        out[nm] = ("func", (base, a.name))
                    elif a.name in self.classes and self.classes[a.name][0].name == base:
                        out[nm] = ("class", a.name)
                    elif a.name == "wrapper":
                        out[nm] = ("mod", "wrapper")
                    elif a.name in self.mods:
                        out[nm] = ("mod", a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    b = a.name.split(".")[-1]
                    if b == "wrapper" or b in self.mods:
                        out[a.asname or a.name] = ("mod", b)
        for n in m.tree.body:
            if isinstance(n, ast.FunctionDef):
                out.setdefault(n.name, ("func", (m.name, n.name)))
            elif isinstance(n, ast.ClassDef):
                out.setdefault(n.name, ("class", n.name))
        return out

    def _globals(self, m):
        for n in m.tree.body:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []):
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        yield x.id

    def params(self, f):
        a = f.args
        return [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]

    def defaults(self, f):
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        return d

    def method(self, cls, name):
        while cls in self.classes:
            if (cls, name) in self.funcs:
                return (cls, name)
            b = [x.id if isinstance(x, ast.Name) else getattr(x, "attr", None) for x in self.classes[cls][1].bases]
            cls = next((x for x in b if x in self.classes), None)
        return None


    def reachable(self, keys):
        seen, todo = set(), list(keys)
        while todo:
            k = todo.pop()
            if k not in seen:
                seen.add(k)
                todo += self.edges[k]
        return seen


def mutable_default(d):
    if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp)):
        return True
    if isinstance(d, ast.Call):
        f = d.func
        n = f.id if isinstance(f, ast.Name) else getattr(f, "attr", "")
        return n not in ("int", "float", "bool", "str", "tuple", "frozenset")
    return False


class Interp:
    def __init__(self, pe, key):
        self.pe, self.key = pe, key
        self.m, self.f, self.cls = pe.funcs[key]
        self.s = Sum()
        self.heap = {}
        self.types = {}
        self.globals = set()

    def run(self):
        env = {}
        ps = self.pe.params(self.f)
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in self.f.decorator_list)
        for i, p in enumerate(ps):
            env[p] = frozenset([(("P", p), ())])
            if i == 0 and self.cls and not static:
                self.types[(("P", p), ())] = self.cls
                if self.f.name == "__new__" or any(isinstance(d, ast.Name) and d.id == "classmethod" for d in self.f.decorator_list):
                    env[p] = frozenset([(("C", self.cls), ())])
        for v in (self.f.args.vararg, self.f.args.kwarg):
            if v:
                env[v.arg] = frozenset([(("N", "var" + v.arg), ())])
        self.block(self.f.body, env)
        for (o, fld), vs in self.heap.items():
            if o[0][0] == "P":
                keep = {v for v in vs if v[0][0] != "N"} | {(("N", "new"), ()) for v in vs if v[0][0] == "N"}
                self.s.stores[(o, fld)] = frozenset(keep)
        r, fields = set(), {}
        for o in self.s.ret:
            if o[0][0] == "N":
                r.add((("N", "ret"), ()))
                for (q, fld), vs in self.heap.items():
                    if q == o:
                        for v in vs:
                            fields.setdefault(fld, set()).add(v if v[0][0] != "N" else (("N", "new"), ()))
            else:
                r.add(o)
        self.s.ret = r
        self.s.fields = {k: frozenset(v) for k, v in fields.items()}
        return self.s

    def where(self, n):
        return "%s:%d (%s)" % (self.m.rel, getattr(n, "lineno", 0), ".".join(self.key) if self.cls else self.key[1])

    def mutate(self, objs, n, how, chain=()):
        for o in objs:
            if o[0][0] != "N":
                self.s.mut.setdefault(o, (self.where(n), how, chain))

    # heap
    def load(self, o, fld, env=None):
        out = set(self.heap.get((o, fld), ()))
        if o[0][0] != "N":
            out.add((o[0], (o[1] + (fld,))[:DEPTH]))
        return out

    def store(self, objs, fld, vals):
        for o in objs:
            k = (o, fld)
            self.heap[k] = self.heap.get(k, set()) | set(vals)

    def new(self, n, cls=None):
        o = (("N", "%s%d:%d" % (type(n).__name__, getattr(n, "lineno", 0), getattr(n, "col_offset", 0))), ())
        if cls:
            self.types[o] = cls
        return o

    # statements: returns env after, or None when control does not fall through
    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return {k: a.get(k, frozenset()) | b.get(k, frozenset()) for k in set(a) | set(b)}

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            env = dict(env)
            for t in s.targets:
                self.assign(t, v, s, env, s.value)
            return env
        if isinstance(s, ast.AnnAssign):
            env = dict(env)
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), s, env, s.value)
            return env
        if isinstance(s, ast.AugAssign):
            env = dict(env)
            self.ev(s.value, env)
            t = s.target
            if isinstance(t, ast.Name):
                objs = env.get(t.id, frozenset())
                if t.id in self.globals:
                    self.mutate({(("G", self.m.name, t.id), ())}, s, "augmented assignment to a global")
                objs = {o for o in objs if self.arraylike(o)}
                self.mutate(objs, s, "in-place `%s`" % ast.unparse(s)[:60])
            elif isinstance(t, ast.Subscript):
                self.mutate(self.ev(t.value, env), s, "in-place `%s`" % ast.unparse(s)[:60])
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, env)
                self.mutate(base, s, "in-place `%s`" % ast.unparse(s)[:60])
                for o in base:
                    self.mutate(self.load(o, t.attr), s, "in-place `%s`" % ast.unparse(s)[:60])
            return env
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            return self.join(self.block(s.body, dict(env)), self.block(s.orelse, dict(env)))
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                it = self.ev(s.iter, env)
                tv = self.iterate(it, s.iter)
            else:
                self.ev(s.test, env)
            self.brk = getattr(self, "brk", [])
            self.brk.append([])
            cur = dict(env)
            for _ in range(4):
                e = dict(cur)
                if isinstance(s, ast.For):
                    self.assign(s.target, tv, s, e, None)
                o = self.block(s.body, e)
                n = self.join(cur, o)
                if n == cur:
                    break
                cur = n
            for b in self.brk.pop():
                cur = self.join(cur, b)
            return self.block(s.orelse, cur) if s.orelse else cur
        if isinstance(s, (ast.Break, ast.Continue)):
            if getattr(self, "brk", None):
                self.brk[-1].append(dict(env))
            return None
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.s.ret |= set(self.ev(s.value, env))
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return env
        if isinstance(s, ast.Try):
            a = self.block(s.body, dict(env))
            out = self.block(s.orelse, a) if a is not None and s.orelse else a
            for h in s.handlers:
                out = self.join(out, self.block(h.body, self.join(dict(env), a)))
            return self.block(s.finalbody, out) if s.finalbody and out is not None else out
        if isinstance(s, ast.With):
            env = dict(env)
            for it in s.items:
                v = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, s, env, None)
            return self.block(s.body, env)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.mutate(self.ev(t.value, env), s, "`%s`" % ast.unparse(s)[:60])
            return env
        if isinstance(s, ast.Global):
            self.globals |= set(s.names)
            return env
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            env = dict(env)
            env[s.name] = frozenset()
            if isinstance(s, ast.FunctionDef):    # a closure may run: its body acts on the captured variables
                e = dict(env)
                for p in self.pe.params(s):
                    e[p] = frozenset()
                r = self.s.ret
                self.s.ret = set()
                self.block(s.body, e)
                self.s.ret = r
            return env
        return env

    def arraylike(self, o):
        """is the object known to be something that `+=` changes in place (array or list)?"""
        if o[0][0] in ("G", "D", "C"):
            return True
        if o[0][0] != "P" or o[1]:
            return bool(o[1])
        p = o[0][1]
        d = self.pe.defaults(self.f).get(p)
        if isinstance(d, ast.Constant) and d.value is not None:
            return False
        if isinstance(d, ast.UnaryOp):
            return False
        for x in ast.walk(self.f):
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.value, ast.Name) and x.value.id == p:
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                    x.func.value.id in ("np", "numpy", "w") and any(isinstance(a, ast.Name) and a.id == p for a in x.args):
                return x.func.attr not in ("arange", "zeros", "ones", "linspace", "log", "exp", "sqrt")
        return p in ("image",)

    def iterate(self, objs, node):
        out = set()
        for o in objs:
            out |= self.load(o, "[]")
        return frozenset(out)

    def assign(self, t, v, s, env, src):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.mutate({(("G", self.m.name, t.id), ())}, s, "assignment to a global")
            env[t.id] = frozenset(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts):
                vs = [self.ev(e, env) for e in src.elts]
                for e, x in zip(t.elts, vs):
                    self.assign(e, x, s, env, None)
                return
            for i, e in enumerate(t.elts):
                out = set()
                for o in v:
                    if (o, i) in self.heap:
                        out |= self.heap[(o, i)]
                    else:
                        out |= self.load(o, "[]")
                self.assign(e.value if isinstance(e, ast.Starred) else e, out, s, env, None)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            for o in b:
                c = self.types.get(o)
                st = self.pe.method(c, t.attr + "=") if c else None
                if st:
                    self.apply(st, [{o}, v], {}, t)
            self.mutate(b, s, "assignment `%s`" % ast.unparse(s)[:60])
            self.store(b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.mutate(b, s, "assignment `%s`" % ast.unparse(s)[:60])
            self.store(b, "[]", {x for x in v})
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s, env, None)

    # expressions: a set of objects
    def ev(self, e, env):
        if e is None or isinstance(e, ast.Constant):
            return frozenset()
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if self.m.name in self.pe.glob and e.id in self.pe.glob[self.m.name]:
                return frozenset([(("G", self.m.name, e.id), ())])
            i = self.pe.env.get(self.m.name, {}).get(e.id)
            if i and i[0] == "class":
                return frozenset([(("C", i[1]), ())])
            return frozenset()
        if isinstance(e, ast.Attribute):
            if e.attr in SCALARATTR:
                self.ev(e.value, env)
                return frozenset()
            b = self.ev(e.value, env)
            if e.attr in ALIASATTR:
                return b
            out = set()
            for o in b:
                c = self.types.get(o)
                pm = self.pe.method(c, e.attr) if c else None
                if pm and any(isinstance(d, ast.Name) and d.id == "property" for d in self.pe.funcs[pm][1].decorator_list):
                    out |= self.apply(pm, [{o}], {}, e)
                    continue
                if o[0][0] == "P" and o[1] == () and not pm and not c:
                    pass
                out |= self.load(o, e.attr)
            return frozenset(out)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env)
            self.ev(e.slice, env)
            sl = e.slice
            parts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if any(isinstance(x, (ast.Compare, ast.BoolOp, ast.List, ast.ListComp, ast.Call)) or
                   (isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.Invert, ast.Not))) for x in parts):
                # masks and index lists copy; elements of containers are still shared
                n = self.new(e)
                for o in b:
                    self.store({n}, "[]", self.load(o, "[]"))
                return frozenset([n])
            out = set()
            isslice = any(isinstance(x, ast.Slice) for x in parts) or \
                any(isinstance(x, ast.Constant) and x.value in (None, Ellipsis) for x in parts)
            for o in b:
                if isslice:
                    out.add(o)       # a view of an array (a list slice is a copy, but nothing here mutates one)
                    continue
                if len(parts) == 1 and isinstance(sl, ast.Constant) and (o, sl.value) in self.heap:
                    out |= self.heap[(o, sl.value)]
                else:
                    out |= self.load(o, "[]")
            return frozenset(out)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            n = self.new(e)
            for i, x in enumerate(e.elts):
                v = self.ev(x.value if isinstance(x, ast.Starred) else x, env)
                if isinstance(x, ast.Starred):
                    v = self.iterate(v, x)
                elif not any(isinstance(y, ast.Starred) for y in e.elts):
                    self.store({n}, i, v)
                self.store({n}, "[]", v)
            return frozenset([n])
        if isinstance(e, ast.Dict):
            n = self.new(e)
            for x in e.keys + e.values:
                self.store({n}, "[]", self.ev(x, env) if x is not None else ())
            return frozenset([n])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env2 = dict(env)
            for g in e.generators:
                self.assign(g.target, self.iterate(self.ev(g.iter, env2), g.iter), e, env2, None)
                for c in g.ifs:
                    self.ev(c, env2)
            n = self.new(e)
            self.store({n}, "[]", self.ev(e.value if isinstance(e, ast.DictComp) else e.elt, env2))
            return frozenset([n])
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return self.ev(e.body, env) | self.ev(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            out = frozenset()
            for x in e.values:
                out |= self.ev(x, env)
            return out
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Starred):
            return self.ev(e.value, env)
        if isinstance(e, ast.Lambda):
            e2 = dict(env)
            for p in [a.arg for a in e.args.args]:
                e2[p] = frozenset()
            self.ev(e.body, e2)
            return frozenset()
        if isinstance(e, (ast.BinOp, ast.UnaryOp, ast.Compare, ast.JoinedStr, ast.FormattedValue, ast.Slice, ast.Await)):
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, env)
            if isinstance(e, (ast.BinOp, ast.UnaryOp)):
                n = self.new(e)
                if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):  # list + list shares the elements
                    for c in (e.left, e.right):
                        for o in self.ev(c, env):
                            self.store({n}, "[]", self.load(o, "[]"))
                return frozenset([n])
            return frozenset()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return frozenset()

    def call(self, e, env):
        fn = e.func
        args = [self.ev(a, env) for a in e.args]
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
        star = any(isinstance(a, ast.Starred) for a in e.args) or None in kw
        if "out" in kw:
            self.mutate(kw["out"], e, "`out=` argument of `%s`" % ast.unparse(fn)[:40])
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
        imp = self.pe.env.get(self.m.name, {})
        self.pe.extcalls[self.key].add((ast.unparse(fn)[:60], e.lineno))
        # package functions and classes
        if isinstance(fn, ast.Name) and fn.id not in env:
            i = imp.get(fn.id)
            if i and i[0] == "func":
                return self.apply(i[1], args, kw, e)
            if i and i[0] == "class":
                return self.construct(i[1], args, kw, e)
            if self.m.name == "wrapper":
                if ("wrapper", fn.id) in self.pe.funcs:
                    return self.apply(("wrapper", fn.id), args, kw, e)
                if fn.id == "__addr__":
                    a = e.args[0]
                    while isinstance(a, ast.Subscript):
                        a = a.value
                    return self.ev(a, env)
                if fn.id in self.pe.pyx.externs and self.pe.externmut:
                    for i in self.pe.externmut(fn.id):
                        if i < len(args):
                            self.mutate(args[i], e, "C++ %s() writes through its parameter %d" % (fn.id, i + 1))
                    return frozenset()
                if fn.id == "check_contiguous":
                    return args[0] if args else frozenset()
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id not in env:
                i = imp.get(fn.value.id)
                if i and i[0] == "mod":
                    if (i[1], name) in self.pe.funcs:
                        return self.apply((i[1], name), args, kw, e)
                    if name in self.pe.classes:
                        return self.construct(name, args, kw, e)
                    return frozenset()
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                c = None
                for b in self.pe.classes[self.cls][1].bases if self.cls else []:
                    bn = b.id if isinstance(b, ast.Name) else getattr(b, "attr", None)
                    c = c or (self.pe.method(bn, name) if bn in self.pe.classes else None)
                ps = self.pe.params(self.f)
                if c and ps:
                    return self.apply(c, [env.get(ps[0], frozenset())] + args, kw, e)
                return frozenset()
            base = self.ev(fn.value, env)
            ismod = isinstance(fn.value, ast.Name) and fn.value.id not in env and not base
            if not ismod:
                ts = {self.types.get(o) for o in base} - {None}
                cands = []
                for c in ts:
                    m = self.pe.method(c, name)
                    if m:
                        cands.append(m)
                for o in base:
                    if o[0][0] == "C":
                        m = self.pe.method(o[0][1], name)
                        if m:
                            st = any(isinstance(d, ast.Name) and d.id in ("staticmethod",) for d in self.pe.funcs[m][1].decorator_list)
                            return self.apply(m, args if st else args, kw, e)
                if not cands and not ts and name in self.pe.bymeth and name not in MUTATORS:
                    cands = self.pe.bymeth[name]
                if cands:
                    out = frozenset()
                    for c in cands:
                        st = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in self.pe.funcs[c][1].decorator_list)
                        out |= self.apply(c, ([] if st else [base]) + args, kw, e)
                    return out
                if name in MUTATORS:
                    self.mutate(base, e, "`.%s()`" % name)
                    for a in args:
                        self.store(base, "[]", a)
                        if name == "extend":
                            self.store(base, "[]", self.iterate(a, e))
                    if name in ("pop", "setdefault", "popitem"):
                        return self.iterate(base, e)
                    return frozenset()
                if name == "at" and args:        # np.add.at
                    self.mutate(args[0], e, "`%s`" % ast.unparse(fn)[:40])
                    return frozenset()
                if name == "astype":
                    c = [k for k in e.keywords if k.arg == "copy"]
                    if c and not (isinstance(c[0].value, ast.Constant) and c[0].value.value is True):
                        return base | {self.new(e)}
                    return frozenset([self.new(e)])
                if name in ALIASFN or name in ("values", "items", "keys", "get", "__getitem__", "flatten_view"):
                    return base if name in ALIASFN else frozenset(set(base)) | self.iterate(base, e)
                if name in ("copy", "tolist", "flatten"):
                    n = self.new(e)
                    for o in base:
                        self.store({n}, "[]", self.load(o, "[]"))
                    return frozenset([n])
                return frozenset([self.new(e)])
        # outside functions
        if name in NPMUT and args:
            self.mutate(args[NPMUT[name]], e, "`%s`" % ast.unparse(fn)[:40])
            return frozenset()
        if name == "nan_to_num":
            c = [k for k in e.keywords if k.arg == "copy"]
            if c and isinstance(c[0].value, ast.Constant) and c[0].value.value is False:
                self.mutate(args[0], e, "`np.nan_to_num(copy=False)`")
                return args[0]
            return frozenset([self.new(e)])
        if name in ("array",):
            c = [k for k in e.keywords if k.arg == "copy"]
            if c and isinstance(c[0].value, ast.Constant) and not c[0].value.value and args:
                return args[0]
            n = self.new(e)
            return frozenset([n])
        if name in ALIASFN and args:
            return args[0]
        if name == "deepcopy":
            return frozenset([self.new(e)])
        if name in LISTFN:
            n = self.new(e)
            for a in args:
                for o in a:
                    self.store({n}, "[]", self.load(o, "[]"))
            if name == "copy" and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == "copy":
                for a in args:
                    for o in a:
                        if o[0][0] != "N":
                            for fld in ("dwell_times", "phases"):
                                self.store({n}, fld, self.load(o, fld))
            if name in ("zip", "enumerate"):
                n2 = self.new(e)
                n2 = (("N", n2[0][1] + "i"), ())
                self.heap[(n, "[]")] = {n2}
                for j, a in enumerate(args):
                    it = self.iterate(a, e)
                    self.store({n2}, j + (1 if name == "enumerate" else 0), it)
                    self.store({n2}, "[]", it)
            return frozenset([n])
        if name in ("min", "max", "next") and len(args) == 1:
            return self.iterate(args[0], e)
        return frozenset([self.new(e)])

    def construct(self, cls, args, kw, e):
        nw = self.pe.method(cls, "__new__")
        o = self.new(e, cls)
        out = frozenset([o])
        if nw:
            r = self.apply(nw, [{(("C", cls), ())}] + args, kw, e)
            out = frozenset(r) or out
        init = self.pe.method(cls, "__init__")
        if init:
            self.apply(init, [out] + args, kw, e)
        return out

    def apply(self, key, args, kw, e):
        m, f, cls = self.pe.funcs[key]
        self.pe.edges[self.key].add(key)
        s = self.pe.sums[key]
        ps = self.pe.params(f)
        dflt = self.pe.defaults(f)
        b = {}
        for i, a in enumerate(args):
            if i < len(ps):
                b[ps[i]] = set(a)
        for k, v in kw.items():
            if k in ps:
                b[k] = set(v)
        for p in ps:
            if p not in b and p in dflt and mutable_default(dflt[p]):
                b[p] = {(("D", ".".join(key), p), ())}
        new = self.new(e)

        def mp(o):
            root, path = o
            if root[0] == "P":
                cur = set(b.get(root[1], ()))
                for fld in path:
                    nx = set()
                    for c in cur:
                        nx |= self.load(c, fld)
                    cur = nx
                return cur
            if root[0] == "N":
                return {new}
            return {o}
        for o, (wh, how, ch) in s.mut.items():
            if len(ch) < 8:
                self.mutate(mp(o), e, how, (wh,) + ch)
        for (o, fld), vs in s.stores.items():
            t = mp(o)
            vv = set()
            for v in vs:
                vv |= mp(v)
            self.store(t, fld, vv)
        out = set()
        for o in s.ret:
            out |= mp(o)
        for fld, vs in s.fields.items():
            for v in vs:
                self.store({new}, fld, mp(v) - {new})
        return frozenset(out)


def text(o):
    root, path = o
    r = {"P": lambda: root[1], "G": lambda: "global %s.%s" % root[1:], "D": lambda: "default value of %s of %s" % (root[2], root[1]),
         "C": lambda: "class " + root[1], "N": lambda: "new object"}[root[0]]()
    return r + "".join(p if p == "[]" else "[%s]" % p if isinstance(p, int) else "." + p for p in path)


def whence(w):
    where, how, chain = w
    return how + ("" if not chain else " via " + " -> ".join(chain))


def package(prog=None, eff=None):
    import pyx
    px = pyx.wrapper()
    cache = {}

    def externmut(name):
        if eff is None:
            return set()
        if name not in cache:
            out = set()
            for f in prog.defined():
                if f["q"].split("::")[-1] == name and "interface" in front.rel(f):
                    out |= {p[0][1] for p in eff.sum[f["id"]] if p[0][0] == "P"}
            cache[name] = out
        return cache[name]
    return PyEffects(pysrc.modules(), px, externmut)
