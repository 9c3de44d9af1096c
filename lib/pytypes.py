"""Flow-sensitive type and definedness analysis of the Python package.

Abstract values: a frozenset of types, one per way the name may have been bound;
ANY for what comes from outside (arguments, NumPy, files), 'unbound' for not bound."""
import ast, builtins, symtable
import pysrc, pyx, front

ANY = "any"
UNB = "unbound"
ANYSET = frozenset([ANY])
NONE = "none"


NDARRAY = set(dir(object)) | set(dir(list)) | set("""T __array__ __array_finalize__ __array_function__ __array_interface__ __array_prepare__ __array_priority__ __array_struct__
 __array_ufunc__ __array_wrap__ all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum
 data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero partition prod
 ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist
 tostring trace transpose var view device mT to_device __dlpack__ __matmul__ __truediv__ __pow__ __abs__ __neg__ __and__ __or__ __xor__ __invert__""".split())


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.bases = []         # Cls or None (outside)
        self.ndarray = False    # derived from numpy.ndarray
        self.subs = []
        self.methods = {}       # name -> FunctionDef
        self.kind = {}          # name -> property/static/class/method/other
        self.attrs = {}         # name -> set of types
        self.dynamic = False    # attributes made in ways not seen here

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c is None or c in out:
                continue
            out.append(c)
            todo += c.bases
        return out

    def external(self):
        return any(b is None for c in self.mro() for b in c.bases)

    def family(self):
        """the class, its ancestors and its descendants"""
        out = list(self.mro())
        todo = list(self.subs)
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                out += [x for x in c.mro() if x not in out]
                todo += c.subs
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c, c.methods[name]
        return None

    def has(self, name, family=False):
        for c in (self.family() if family else self.mro()):
            if name in c.methods or name in c.attrs or c.dynamic:
                return True
        if name in NDARRAY and any(c.ndarray for c in self.mro()):
            return True
        return name in dir(object) or self.external()

    def __repr__(self):
        return self.name


class Program:
    def __init__(self):
        self.mods = pysrc.modules()
        self.sigs = {}
        self.classes = {}       # (module, name) -> Cls
        self.globals = {}       # module -> {name: typeset}
        self.wrapper = {}
        try:
            w = pyx.wrapper()
            self.wrapper = pyxdefs(w)
        except front.AnalysisError:
            raise
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    self.classes[(m.name, n.name)] = Cls(m, n)
        self.issues = []        # (key, module, node, text)
        self.maybe = []
        self.counts = {"names": 0, "attributes": 0, "calls": 0, "functions": 0, "imports": 0}
        self.rtypes = {}
        self.rbusy = set()
        self.reporting = False
        for m in self.mods.values():
            self.modglobals(m)
        for c in self.classes.values():
            self.setupclass(c)
        for c in self.classes.values():
            for b in c.bases:
                if b is not None:
                    b.subs.append(c)
        # attributes of classes: two rounds (the second sees the types of the first)
        self.inflow = {}        # (function, parameter) -> types passed in calls of the package
        for _ in range(4):
            self.rtypes = {}
            for m in self.mods.values():
                Flow(self, m).module()
        self.reporting = True
        self.rtypes = {}
        for m in self.mods.values():
            Flow(self, m).module()

    # ---- declarations
    def modglobals(self, m):
        g = {}

        def put(n, t):
            g[n] = g.get(n, frozenset()) | t

        def top(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    put(s.name, frozenset([("func", m.name, s, None)]))
                elif isinstance(s, ast.ClassDef):
                    put(s.name, frozenset([("cls", self.classes[(m.name, s.name)])]))
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    for n, t in self.imported(m, s):
                        if n == "*":
                            m.star = True
                        else:
                            put(n, t)
                else:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            put(x.id, ANYSET)
                    for f in ("body", "orelse", "finalbody"):
                        if isinstance(getattr(s, f, None), list):
                            top(getattr(s, f))
                    for h in getattr(s, "handlers", []):
                        if h.name:
                            put(h.name, ANYSET)
                        top(h.body)
        top(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    put(x, ANYSET)
        self.globals[m.name] = g

    def pkgmodule(self, m, s):
        """the package module an import statement names, or None"""
        name = s.module or ""
        if s.level:
            if s.level == 1 and not name:
                return "__init__"
            name = "arcticpy." + name if name else "arcticpy"
        if name == "arcticpy":
            return "__init__"
        if name.startswith("arcticpy."):
            return name.split(".", 1)[1]
        if name in self.mods or name == "wrapper":
            return name
        return None

    def imported(self, m, s):
        if isinstance(s, ast.Import):
            for a in s.names:
                n = a.asname or a.name.split(".")[0]
                p = a.name
                if p == "arcticpy" and (a.asname or "." not in a.name):
                    yield n, frozenset([("mod", "__init__")])
                elif p.startswith("arcticpy.") and a.asname:
                    yield n, frozenset([("mod", p.split(".", 1)[1])])
                elif p.startswith("arcticpy"):
                    yield n, frozenset([("mod", "__init__")])
                elif p == "wrapper":
                    yield n, frozenset([("mod", "wrapper")])
                else:
                    yield n, ANYSET
            return
        pm = self.pkgmodule(m, s)
        for a in s.names:
            n = a.asname or a.name
            if a.name == "*":
                yield "*", ANYSET
            elif pm is None:
                yield n, ANYSET
            else:
                yield n, frozenset([("import", pm, a.name)])

    def resolve(self, t, depth=0):
        """imports chased to what they import"""
        out = set()
        for x in t:
            if isinstance(x, tuple) and x[0] == "import":
                r = self.member(x[1], x[2], depth + 1) if depth < 8 else ANYSET
                out |= r if r is not None else ANYSET
            else:
                out.add(x)
        return frozenset(out)

    def member(self, mod, name, depth=0):
        """the global of a package module, None if there is none"""
        if mod == "wrapper":
            if not self.wrapper:
                return ANYSET
            if name in self.wrapper:
                return frozenset([("cyfunc", name)])
            return None
        if mod not in self.mods:
            return ANYSET if mod == "wrapper" else None
        g = self.globals[mod]
        if name in g:
            return self.resolve(g[name], depth)
        if mod == "__init__" and (name in self.mods or name == "wrapper"):
            return frozenset([("mod", name)])
        if name in ("__file__", "__name__", "__doc__", "__path__", "__all__", "__version__", "__spec__", "__package__"):
            return ANYSET
        if getattr(self.mods[mod], "star", False):
            return ANYSET
        return None

    def setupclass(self, c):
        for b in c.node.bases:
            t = None
            if isinstance(b, ast.Name):
                if b.id == "object":
                    continue
                t = self.member(c.mod.name, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.attr == "ndarray" and b.value.id in ("np", "numpy"):
                c.ndarray = True
                continue
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                for x in self.member(c.mod.name, b.value.id) or ():
                    if isinstance(x, tuple) and x[0] == "mod":
                        t = self.member(x[1], b.attr)
            ks = [x[1] for x in (t or ()) if isinstance(x, tuple) and x[0] == "cls"]
            c.bases.append(ks[0] if ks else None)
        if c.node.keywords:
            c.bases.append(None)
        if c.node.decorator_list:
            c.dynamic = True

        def top(body):
            for s in body:
                if isinstance(s, ast.FunctionDef):
                    k = "method"
                    for d in s.decorator_list:
                        nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else "?"
                        k = {"property": "property", "staticmethod": "static", "classmethod": "class", "setter": "property", "getter": "property", "deleter": "property",
                             "cached_property": "property"}.get(nm, "other")
                    if s.name in c.methods and c.kind[s.name] == "property":
                        k = "property"
                        if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in s.decorator_list):
                            continue
                    c.methods[s.name] = s
                    c.kind[s.name] = k
                    if s.name in ("__getattr__", "__getattribute__"):
                        c.dynamic = True
                else:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            c.attrs.setdefault(x.id, set()).add(ANY)
                        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                            c.attrs.setdefault(x.name, set()).add(ANY)
        top(c.node.body)
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and n.attr == "__dict__" or isinstance(n, ast.Name) and n.id in ("setattr", "vars"):
                c.dynamic = True

    def issue(self, key, mod, node, text):
        if self.reporting:
            i = (key, mod, getattr(node, "lineno", 0), text)
            if i not in self.issues:
                self.issues.append(i)

    def perhaps(self, mod, node, text):
        if self.reporting:
            i = (mod, getattr(node, "lineno", 0), text)
            if i not in self.maybe:
                self.maybe.append(i)

    # names of attributes known on the package's classes
    def owners(self, attr):
        return [c for c in self.classes.values() if attr in c.methods or attr in c.attrs]


def pyxdefs(w):
    import re
    out = {}
    for n in ast.walk(w.tree) if hasattr(w, "tree") else []:
        if isinstance(n, ast.FunctionDef):
            out[n.name] = n
    return out


def flowing(t):
    """what a value of these types tells about a parameter without annotation"""
    out = set()
    for x in t:
        if isinstance(x, tuple) and x[0] in ("inst", "flow"):
            out.add(("flow", x[1]))
        elif isinstance(x, tuple) and x[0] == "list":
            e = flowing(x[1])
            if e:
                out.add(("list", e | ANYSET))
    return frozenset(out)


COMMON = set()
for _t in (list, dict, str, int, float, tuple, set, bytes, object, complex, range, slice):
    COMMON |= set(dir(_t))
COMMON |= set("""shape size ndim dtype flags T flat real imag itemsize nbytes strides base data ctypes astype copy sum mean std var min max argmin argmax argsort
 sort reshape ravel flatten transpose swapaxes squeeze clip cumsum cumprod prod dot round any all nonzero take put fill tolist tobytes tofile view repeat
 searchsorted trace diagonal conj conjugate byteswap choose compress item itemset newbyteorder partition ptp resize setfield setflags getfield
 native array header savefig add_subplot plot imshow read write close name""".split())


class Flow:
    def __init__(self, prog, mod):
        self.p, self.m = prog, mod
        self.cls = None
        self.fn = None

    # ------------------------------------------------------------ scopes
    def module(self):
        self.table = symtable.symtable(self.m.src, self.m.rel, "exec")
        self.globalsread(self.table)
        env = {}
        self.local = None
        self.retset = None
        self.globenv = True
        self.block(self.m.tree.body, env)

    def globalsread(self, t):
        """every global name read in any scope is defined in the module or built in"""
        pass

    def name(self, n, env):
        """value of a name read at n"""
        p = self.p
        p.counts["names"] += p.reporting
        if n.id in env:
            v = env[n.id]
            if v == frozenset([UNB]):
                p.issue("unbound:" + n.id, self.m, n, "the local name '%s' is not bound here" % n.id)
                return ANYSET
            if UNB in v:
                p.perhaps(self.m, n, "the local name '%s' may not be bound" % n.id)
                v = v - {UNB}
            return p.resolve(v)
        if self.local is not None:
            for sc in self.outer:
                if n.id in sc:
                    return ANYSET
        g = p.globals[self.m.name]
        if n.id in g:
            return p.resolve(g[n.id])
        if hasattr(builtins, n.id) or n.id in ("__file__", "__name__", "__doc__", "__builtins__", "__spec__", "__package__", "__path__", "__class__", "WindowsError"):
            return frozenset([("builtin", n.id)])
        if getattr(self.m, "star", False):
            return ANYSET
        p.issue("name:" + n.id, self.m, n, "the name '%s' is defined nowhere" % n.id)
        return ANYSET

    def function(self, f, cls=None, outer=(), types=None):
        """walk one function; returns the types of its results"""
        p = self.p
        sub = Flow(p, self.m)
        sub.cls, sub.fn = cls, f
        sub.outer = list(outer)
        names = bound_names(f)
        a = f.args
        allargs = a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])
        env = {n: frozenset([UNB]) for n in names}
        kind = cls.kind.get(f.name, "method") if cls and f.name in cls.methods else None
        for i, x in enumerate(allargs):
            t = ANYSET
            if isinstance(f, ast.Lambda):
                pass
            elif x.annotation is not None:
                t = sub.annotation(x.annotation)
            if ANY in t:
                t = t | p.inflow.get((id(f), x.arg), frozenset())
            if cls is not None and i == 0 and kind in ("method", "property") and x.arg == "self" and x in a.args:
                t = frozenset([("inst", cls)])
            elif cls is not None and i == 0 and kind == "class":
                t = frozenset([("cls", cls)])
            env[x.arg] = t
        sub.local = set(env)
        sub.rets = set()
        sub.used = {}           # parameter -> {attribute: node}
        sub.params = {x.arg for x in allargs}
        if isinstance(f, ast.Lambda):
            sub.ev(f.body, env)
            return ANYSET
        p.counts["functions"] += p.reporting
        out = sub.block(f.body, env)
        if out is not None:
            sub.rets.add(NONE)
        sub.duck()
        return frozenset(sub.rets) or ANYSET

    outer = ()
    params = frozenset()
    elems = frozenset()

    def duck(self):
        """a parameter used like one of the package's classes, with one attribute none of them has"""
        p = self.p
        for q, at in self.used.items():
            for a, n in at.items():
                if q in self.elems and a not in COMMON and a not in NDARRAY and not p.owners(a):
                    p.issue("attr:%s.%s" % (q, a), self.m, n, "no class of the package and no built-in or array type has an attribute '%s'" % a)
            known = [a for a in at if a not in COMMON and p.owners(a)]
            if not known:
                continue
            cand = [c for c in p.classes.values() if all(c.has(a, True) or a in COMMON for a in known)]
            if not cand:
                continue
            for a, n in at.items():
                if a in COMMON or p.owners(a) or any(c.external() or c.dynamic for c in cand):
                    continue
                p.issue("attr:%s.%s" % (q, a), self.m, n, "'%s' is used like %s, which has no attribute '%s' (no class of the package has)" % (
                    q, " or ".join(sorted({c.name for c in cand})), a))

    def annotation(self, a):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return ANYSET
        if isinstance(a, (ast.Name, ast.Attribute)):
            for x in self.ev(a, {}, quiet=True):
                if isinstance(x, tuple) and x[0] == "cls":
                    return frozenset([("inst", x[1])])
            return ANYSET
        if isinstance(a, ast.Subscript):
            h = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(a.value, "id", "")
            if h == "Optional":
                return self.annotation(a.slice) | {NONE}
            if h in ("List", "list", "Sequence", "Iterable", "Tuple", "Set"):
                t = a.slice.elts[0] if isinstance(a.slice, ast.Tuple) else a.slice
                e = self.annotation(t)
                return frozenset([("list", e)]) if e != ANYSET else ANYSET
            if h == "Union":
                r = frozenset()
                for t in a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]:
                    r |= self.annotation(t)
                return r
        return ANYSET

    # ------------------------------------------------------------ statements
    def block(self, b, env):
        for s in b:
            if env is None:
                return None
            env = self.st(s, env)
        return env

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                out[k] = x if y is None else y
            else:
                out[k] = x | y
        return out

    def st(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.ev(d, env) if not isinstance(d, ast.Attribute) else None
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                self.ev(d, env)
            self.function(s, None, ([set(self.local)] if self.local else []) + list(self.outer))
            if self.local is not None:
                env = dict(env)
                env[s.name] = frozenset([("func", self.m.name, s, None)])
            return env
        if isinstance(s, ast.ClassDef):
            c = self.p.classes[(self.m.name, s.name)]
            cenv = {}
            for x in s.body:
                if isinstance(x, ast.FunctionDef):
                    for d in x.args.defaults + [y for y in x.args.kw_defaults if y is not None]:
                        self.ev(d, dict(cenv))
                    self.function(x, c, ([set(self.local)] if self.local else []) + list(self.outer))
                elif isinstance(x, ast.Assign):
                    self.ev(x.value, dict(cenv))
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            cenv[t.id] = ANYSET
            if self.local is not None:
                env = dict(env)
                env[s.name] = frozenset([("cls", c)])
            return env
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            self.imports(s)
            if self.local is not None:
                env = dict(env)
                for n, t in self.p.imported(self.m, s):
                    if n != "*":
                        env[n] = self.p.resolve(t)
            return env
        if isinstance(s, ast.Return):
            if s.value is not None:
                t = self.ev(s.value, env)
                if self.local is not None:
                    self.rets |= t
            elif self.local is not None:
                self.rets.add(NONE)
            return None
        if isinstance(s, ast.Raise):
            for x in (s.exc, s.cause):
                if x is not None:
                    self.ev(x, env)
            return None
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            if isinstance(s.value, ast.Call) and self.ends(s.value):
                return None
            return env
        if isinstance(s, ast.Assign):
            t = self.ev(s.value, env)
            env = dict(env)
            for x in s.targets:
                self.bind(x, t, env, s.value)
            return env
        if isinstance(s, ast.AnnAssign):
            env = dict(env)
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
            return env
        if isinstance(s, ast.AugAssign):
            self.ev(s.value, env)
            x = s.target
            if isinstance(x, ast.Name):
                self.ev(ast.copy_location(ast.Name(x.id, ast.Load()), x), env)
                env = dict(env)
                if x.id in env:
                    env[x.id] = ANYSET
            elif isinstance(x, ast.Attribute):
                self.attr(ast.copy_location(ast.Attribute(x.value, x.attr, ast.Load()), x), env)
                self.bind(x, ANYSET, dict(env))
            else:
                self.ev(x, env)
            return env
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            c = constant(s.test)
            a = self.block(s.body, self.narrow(s.test, env, True)) if c is not False else None
            b = self.block(s.orelse, self.narrow(s.test, env, False)) if c is not True else None
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            t = self.ev(s.iter, env)
            self.elements(s.iter, s.target)
            self.brk.append([])
            self.cont.append([])
            e = env
            for _ in range(2):
                e2 = dict(e)
                self.bind(s.target, self.element(t), e2)
                out = self.block(s.body, e2)
                for x in self.cont[-1]:
                    out = self.join(out, x)
                if out is None:
                    break
                e = self.join(e, out)
            self.cont.pop()
            after = e
            if s.orelse:
                after = self.block(s.orelse, after)
            for x in self.brk.pop():
                after = self.join(after, x)
            return after
        if isinstance(s, ast.While):
            self.brk.append([])
            self.cont.append([])
            e = env
            c = constant(s.test)
            for _ in range(2):
                self.ev(s.test, e)
                out = self.block(s.body, self.narrow(s.test, dict(e), True))
                for x in self.cont[-1]:
                    out = self.join(out, x)
                if out is None:
                    break
                e = self.join(e, out)
            self.cont.pop()
            after = None if c is True else e
            if s.orelse and after is not None:
                after = self.block(s.orelse, after)
            for x in self.brk.pop():
                after = self.join(after, x)
            return after
        if isinstance(s, ast.Break):
            self.brk[-1].append(env)
            return None
        if isinstance(s, ast.Continue):
            self.cont[-1].append(env)
            return None
        if isinstance(s, ast.Try):
            out = self.block(s.body, dict(env))
            mid = self.join(dict(env), out)
            # a handler may start from any point of the body
            hs = []
            for h in s.handlers:
                e = dict(mid)
                for x in ast.walk(ast.Module(s.body, [])):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in e:
                        e[x.id] = e[x.id] | {ANY}
                if h.type is not None:
                    self.ev(h.type, e)
                if h.name:
                    e[h.name] = ANYSET
                hs.append(self.block(h.body, e))
            if s.orelse and out is not None:
                out = self.block(s.orelse, out)
            for h in hs:
                out = self.join(out, h)
            if s.finalbody:
                out = self.block(s.finalbody, out if out is not None else dict(mid)) if out is not None else (self.block(s.finalbody, dict(mid)), None)[1]
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            env = dict(env)
            for i in s.items:
                t = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, ANYSET, env)
            return self.block(s.body, env)
        if isinstance(s, ast.Assert):
            self.ev(s.test, env)
            if s.msg is not None:
                self.ev(s.msg, env)
            return None if constant(s.test) is False else env
        if isinstance(s, ast.Delete):
            env = dict(env)
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if t.id in env:
                        env[t.id] = frozenset([UNB])
                else:
                    self.ev(t.value, env)
            return env
        if isinstance(s, (ast.Global, ast.Nonlocal)):
            env = dict(env)
            for n in s.names:
                env.pop(n, None)
            return env
        if isinstance(s, ast.Pass):
            return env
        if hasattr(ast, "Match") and isinstance(s, ast.Match):
            self.ev(s.subject, env)
            out = dict(env)
            for c in s.cases:
                e = dict(env)
                for x in ast.walk(c.pattern):
                    for nm in (getattr(x, "name", None), getattr(x, "rest", None)):
                        if nm:
                            e[nm] = ANYSET
                if c.guard is not None:
                    self.ev(c.guard, e)
                out = self.join(out, self.block(c.body, e))
            return out
        return env

    brk = ()
    cont = ()

    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)

    def ends(self, c):
        f = c.func
        if isinstance(f, ast.Attribute) and f.attr in ("exit", "_exit") and isinstance(f.value, ast.Name) and f.value.id in ("sys", "os"):
            return True
        return isinstance(f, ast.Name) and f.id in ("exit", "quit")

    def imports(self, s):
        p = self.p
        p.counts["imports"] += p.reporting
        if isinstance(s, ast.ImportFrom):
            pm = p.pkgmodule(self.m, s)
            if pm is None:
                return
            guarded = in_try(s)
            if pm != "wrapper" and pm not in p.mods:
                if not guarded:
                    p.issue("import:" + pm, self.m, s, "there is no module '%s' in the package" % pm)
                return
            for a in s.names:
                if a.name != "*" and p.member(pm, a.name) is None and not (guarded and pm != "wrapper"):
                    p.issue("import:%s.%s" % (pm, a.name), self.m, s, "module '%s' defines no '%s'" % (pm, a.name))
        else:
            for a in s.names:
                if a.name.startswith("arcticpy."):
                    x = a.name.split(".", 1)[1]
                    if x != "wrapper" and x not in p.mods:
                        p.issue("import:" + x, self.m, s, "there is no module '%s' in the package" % x)

    def bind(self, t, v, env, node=None):
        if isinstance(t, ast.Name):
            if self.local is None:
                g = self.p.globals[self.m.name]
                return
            if t.id in env or t.id in self.local:
                env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            ts = [x for x in v if isinstance(x, tuple) and x[0] == "tuple"]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, ANYSET, env)
                    continue
                e = frozenset()
                for y in v:
                    if isinstance(y, tuple) and y[0] == "tuple" and len(y[1]) == len(t.elts):
                        e |= y[1][i]
                    else:
                        e |= self.element(frozenset([y]))
                self.bind(x, e or ANYSET, env)
            return
        if isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            for x in b:
                if isinstance(x, tuple) and x[0] in ("inst", "cls"):
                    c = x[1]
                    f = c.find(t.attr)
                    if f is None:
                        c.attrs.setdefault(t.attr, set()).update(v)
            return
        if isinstance(t, ast.Subscript):
            self.ev(t.value, env)
            self.ev(t.slice, env)
            return
        if isinstance(t, ast.Starred):
            self.bind(t.value, ANYSET, env)

    def element(self, t):
        out = frozenset()
        for x in t:
            if isinstance(x, tuple) and x[0] == "list":
                out |= x[1]
            elif isinstance(x, tuple) and x[0] == "tuple":
                for y in x[1]:
                    out |= y
            elif x == NONE:
                continue
            else:
                out |= ANYSET
        return out or ANYSET

    def narrow(self, test, env, pos):
        env = dict(env)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, env, not pos)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and pos or isinstance(test.op, ast.Or) and not pos:
                for v in test.values:
                    env = self.narrow(v, env, pos)
            return env
        c = self.istype(test, env)
        if c and pos:
            env[c[0]] = frozenset(("inst", k) for k in c[1])
        elif c:
            gone = {x for x in env[c[0]] if isinstance(x, tuple) and x[0] == "flow" and any(x[1] in k.family() for k in c[1])}
            env[c[0]] = (env[c[0]] - gone) or ANYSET
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id in ("hasattr", "isinstance", "callable", "issubclass") and not c:
            for a in test.args:
                if isinstance(a, ast.Name) and a.id in env:
                    env[a.id] = ANYSET
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id in env and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            n = test.left.id
            is_ = isinstance(test.ops[0], (ast.Is, ast.Eq))
            if is_ == pos:
                if NONE in env[n]:
                    env[n] = frozenset([NONE]) | (env[n] & {UNB})
            else:
                env[n] = env[n] - {NONE} or env[n]
        return env

    def istype(self, test, env):
        """(name, classes) for type(x) == C, isinstance(x, C)"""
        n = ks = None
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            n = test.args[0].id
            ks = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Eq, ast.Is, ast.In)):
            for a, b in ((test.left, test.comparators[0]), (test.comparators[0], test.left)):
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "type" and len(a.args) == 1 and isinstance(a.args[0], ast.Name):
                    n = a.args[0].id
                    ks = b.elts if isinstance(b, (ast.Tuple, ast.List)) else [b]
        if n is None or n not in env:
            return None
        out = []
        for k in ks:
            t = self.ev(k, env, quiet=True)
            cs = [x[1] for x in t if isinstance(x, tuple) and x[0] == "cls"]
            if not cs:
                return None
            out += cs
        return n, out

    # ------------------------------------------------------------ expressions
    def ev(self, n, env, quiet=False):
        if quiet and self.p.reporting:
            self.p.reporting = False
            try:
                return self.ev(n, env)
            finally:
                self.p.reporting = True
        if n is None:
            return ANYSET
        if isinstance(n, ast.Name):
            return self.name(n, env)
        if isinstance(n, ast.Constant):
            return frozenset([NONE]) if n.value is None else frozenset([("const", type(n.value).__name__)])
        if isinstance(n, ast.Attribute):
            return self.attr(n, env)
        if isinstance(n, ast.Call):
            return self.call(n, env)
        if isinstance(n, ast.IfExp):
            self.ev(n.test, env)
            return self.ev(n.body, self.narrow(n.test, env, True)) | self.ev(n.orelse, self.narrow(n.test, env, False))
        if isinstance(n, ast.BoolOp):
            out, e = frozenset(), env
            for v in n.values:
                out |= self.ev(v, e)
                e = self.narrow(v, e, isinstance(n.op, ast.And))
            return out
        if isinstance(n, (ast.List, ast.Set)):
            e = frozenset()
            for x in n.elts:
                e |= self.ev(x, env)
            return frozenset([("list", e)]) if n.elts else frozenset([("list", frozenset())])
        if isinstance(n, ast.Tuple):
            return frozenset([("tuple", tuple(self.ev(x, env) for x in n.elts))])
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = dict(env)
            loc = self.local
            self.local = set(loc or ()) | set(bound_names_comp(n))
            for g in n.generators:
                t = self.ev(g.iter, e)
                self.elements(g.iter, g.target)
                self.bind(g.target, self.element(t), e)
                for c in g.ifs:
                    self.ev(c, e)
                    e = self.narrow(c, e, True)
            if isinstance(n, ast.DictComp):
                self.ev(n.key, e)
                self.ev(n.value, e)
                r = ANYSET
            else:
                r = frozenset([("list", self.ev(n.elt, e))])
            self.local = loc
            return r
        if isinstance(n, ast.Subscript):
            b = self.ev(n.value, env)
            self.ev(n.slice, env)
            if isinstance(n.slice, ast.Slice):
                return frozenset(x for x in b if isinstance(x, tuple) and x[0] == "list") or ANYSET
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
                out = frozenset()
                for x in b:
                    if isinstance(x, tuple) and x[0] == "tuple" and -len(x[1]) <= n.slice.value < len(x[1]):
                        out |= x[1][n.slice.value]
                    else:
                        out |= self.element(frozenset([x]))
                return out or ANYSET
            return self.element(b)
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults:
                self.ev(d, env)
            sub = Flow(self.p, self.m)
            sub.cls, sub.fn = self.cls, self.fn
            sub.outer = ([set(self.local)] if self.local else []) + list(self.outer)
            e = {a.arg: ANYSET for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]}
            sub.local = set(e)
            sub.used, sub.rets, sub.params = {}, set(), set(e)
            sub.ev(n.body, e)
            return ANYSET
        if isinstance(n, ast.NamedExpr):
            t = self.ev(n.value, env)
            env[n.target.id] = t
            return t
        if isinstance(n, ast.Starred):
            self.ev(n.value, env)
            return ANYSET
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env)
            elif isinstance(c, (ast.comprehension, ast.keyword, ast.FormattedValue)):
                self.ev(getattr(c, "value", None), env)
        return ANYSET

    def elements(self, it, target):
        """the loop variable over a parameter is judged like a parameter"""
        if isinstance(it, ast.Name) and it.id in self.params and isinstance(target, ast.Name):
            if target.id not in self.params:
                self.elems = self.elems | {target.id}
            self.params = self.params | {target.id}

    def attr(self, n, env):
        p = self.p
        b = self.ev(n.value, env)
        p.counts["attributes"] += p.reporting
        if isinstance(n.value, ast.Name) and n.value.id in self.params and ANY in b:
            self.used.setdefault(n.value.id, {}).setdefault(n.attr, n)
        out = frozenset()
        miss = []
        for x in b:
            t = self.attrof(x, n, env)
            if t is None and x[0] == "flow":
                if in_try_of(self.m.tree, n):
                    p.perhaps(self.m, n, "attribute '%s' may be missing on %s" % (n.attr, x[1].name))
                else:
                    p.issue("attr:%s.%s" % (x[1].name, n.attr), self.m, n, "an object of class %s, passed here by a call in the package, has no attribute '%s'" % (x[1].name, n.attr))
            elif t is None:
                miss.append(x)
            else:
                out |= t
        definite = [x for x in b if x != NONE and not (isinstance(x, tuple) and x[0] == "flow")]
        if miss and len(miss) == len(definite):
            x = miss[0]
            what = {"inst": "an object of class %s", "cls": "class %s", "mod": "module %s"}[x[0]] % (x[1].name if isinstance(x[1], Cls) else x[1])
            p.issue("attr:%s.%s" % (x[1].name if isinstance(x[1], Cls) else x[1], n.attr), self.m, n, "%s has no attribute '%s'" % (what, n.attr))
            return ANYSET
        known = [x for x in definite if isinstance(x, tuple) and x[0] == "inst"]
        if miss and len(miss) == len(known) and not any(x[1].has(n.attr, True) for x in known) and not in_try_of(self.m.tree, n):
            x = miss[0]
            p.issue("attr:%s.%s" % (x[1].name, n.attr), self.m, n, "an object of class %s, bound here on some paths, has no attribute '%s'" % (x[1].name, n.attr))
        elif miss:
            p.perhaps(self.m, n, "attribute '%s' may be missing on %s" % (n.attr, miss))
        return out or ANYSET

    def attrof(self, x, n, env):
        """type of x.attr, None if it does not exist"""
        p, a = self.p, n.attr
        if not isinstance(x, tuple):
            return ANYSET
        if x[0] == "mod":
            return p.member(x[1], a)
        if x[0] in ("inst", "cls", "flow"):
            c = x[1]
            isself = x[0] == "flow" or isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")
            if x[0] == "cls" and a in ("__name__", "__module__", "__mro__", "mro", "__subclasses__", "__bases__", "__qualname__", "__dict__"):
                return ANYSET
            f = c.find(a)
            if f is None and isself:
                for k in c.family():
                    if a in k.methods:
                        f = (k, k.methods[a])
            if f is not None:
                k = f[0].kind.get(a)
                if k == "property":
                    return self.result(f[0], f[1])
                if k == "other":
                    return ANYSET
                return frozenset([("bound" if x[0] in ("inst", "flow") and k != "static" or k == "class" else "func", f[0].mod.name, f[1], f[0])])
            got = frozenset()
            hit = False
            for k in (c.family() if isself else c.mro()):
                if a in k.attrs:
                    hit = True
                    got |= frozenset(k.attrs[a])
            if hit:
                return got or ANYSET
            if c.has(a, isself):
                return ANYSET
            return None
        return ANYSET

    def result(self, cls, f):
        p = self.p
        k = id(f)
        if k in p.rtypes:
            return p.rtypes[k]
        if k in p.rbusy:
            return ANYSET
        p.rbusy.add(k)
        rep, p.reporting = p.reporting, False
        try:
            mod = cls.mod if cls is not None else next((m for m in p.mods.values() if any(x is f for x in ast.walk(m.tree))), self.m)
            t = Flow(p, mod)
            t.local, t.outer = None, ()
            r = t.function(f, cls)
        finally:
            p.reporting = rep
            p.rbusy.discard(k)
        p.rtypes[k] = r
        return r

    def call(self, n, env):
        p = self.p
        f = self.ev(n.func, env)
        pos, kw = [], {}
        for a in n.args:
            pos.append(self.ev(a, env))
        for k in n.keywords:
            kw[k.arg] = self.ev(k.value, env)
        if not any(isinstance(a, ast.Starred) for a in n.args):
            for x in f:
                self.passed(x, pos, kw)
        p.counts["calls"] += p.reporting
        out = frozenset()
        errs = []
        for x in f:
            e, t = self.callone(x, n)
            if e:
                errs.append(e)
            out |= t
        if errs and len(errs) == len(f):
            p.issue("call:" + errs[0][0], self.m, n, errs[0][1])
        elif errs and len(errs) == len([x for x in f if isinstance(x, tuple)]) and not in_try_of(self.m.tree, n):
            p.issue("call:" + errs[0][0], self.m, n, errs[0][1])
        elif errs:
            p.perhaps(self.m, n, errs[0][1])
        return out or ANYSET

    def passed(self, x, pos, kw):
        """remember what a call hands to a function of the package"""
        if not isinstance(x, tuple):
            return
        if x[0] == "cls":
            g, skip = x[1].find("__init__") or x[1].find("__new__"), 1
            g = g and g[1]
        elif x[0] in ("func", "bound"):
            g, skip = x[2], 1 if x[0] == "bound" else 0
        else:
            return
        if not isinstance(g, ast.FunctionDef) or any(self.odd(d) for d in g.decorator_list):
            return
        names = [y.arg for y in g.args.posonlyargs + g.args.args]
        got = list(zip(names[skip:], pos)) + [(k, v) for k, v in kw.items() if k in names or k in {y.arg for y in g.args.kwonlyargs}]
        for k, v in got:
            v = flowing(v)
            if v:
                self.p.inflow[(id(g), k)] = self.p.inflow.get((id(g), k), frozenset()) | v

    def callone(self, x, n):
        """(error or None, result types)"""
        p = self.p
        if not isinstance(x, tuple):
            return None, ANYSET
        if x[0] == "cls":
            c = x[1]
            r = frozenset([("inst", c)])
            if c.dynamic or c.external():
                return None, r
            if any(k.ndarray for k in c.mro()) and not c.find("__new__") and not c.find("__init__"):
                return None, r
            i = c.find("__init__")
            if i is None:
                if c.find("__new__"):
                    return self.match(c.find("__new__")[1], n, 1, c.name), r
                return (("%s" % c.name, "%s() takes no arguments" % c.name) if n.args or n.keywords else None), r
            return self.match(i[1], n, 1, c.name), r
        if x[0] in ("func", "bound"):
            g, c = x[2], x[3]
            if any(self.odd(d) for d in g.decorator_list):
                return None, ANYSET
            e = self.match(g, n, 1 if x[0] == "bound" else 0, (c.name + "." if c else "") + g.name)
            if isinstance(g, ast.FunctionDef):
                if any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(g)):
                    return e, ANYSET
                return e, self.result(c, g)
            return e, ANYSET
        if x[0] == "cyfunc":
            return self.match(p.wrapper[x[1]], n, 0, x[1]), ANYSET
        if x[0] == "inst":
            c = x[1].find("__call__")
            if c is None and not x[1].external() and not x[1].dynamic:
                return (x[1].name, "an object of class %s is not callable" % x[1].name), ANYSET
            return None, ANYSET
        if x[0] == "mod":
            return (x[1], "module %s is not callable" % x[1]), ANYSET
        if x[0] == "builtin" and x[1] == "super" and self.cls is not None:
            bs = [b for b in self.cls.bases if b is not None]
            if bs and not self.cls.external() and not any(k.ndarray for k in self.cls.mro()):
                return None, frozenset(("inst", b) for b in bs)
            return None, ANYSET
        if x[0] == "builtin" and x[1] in ("list", "sorted", "reversed", "tuple", "set") and len(n.args) >= 1:
            return None, ANYSET
        if x[0] == "builtin" and x[1] in ("enumerate", "zip"):
            return None, ANYSET
        return None, ANYSET

    def odd(self, d):
        nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else "?"
        return nm not in ("staticmethod", "classmethod", "property", "setter")

    def match(self, g, n, skip, name):
        """does the call fit the signature?"""
        a = g.args
        pos = [x.arg for x in a.posonlyargs + a.args][skip:]
        if skip and not (a.posonlyargs or a.args) and not a.vararg:
            return name, "%s takes no self" % name
        star = any(isinstance(x, ast.Starred) for x in n.args)
        dstar = any(k.arg is None for k in n.keywords)
        npos = sum(not isinstance(x, ast.Starred) for x in n.args)
        if npos > len(pos) and not a.vararg:
            return name, "%s takes at most %d positional arguments, %d given" % (name, len(pos), npos)
        names = set(pos[len(a.posonlyargs) - skip if a.posonlyargs else 0:]) | {x.arg for x in a.kwonlyargs}
        for k in n.keywords:
            if k.arg is None:
                continue
            if k.arg not in names and not a.kwarg:
                return name + ":" + k.arg, "%s has no parameter '%s'" % (name, k.arg)
            if k.arg not in names and not reads(g, a.kwarg.arg):
                return name + ":" + k.arg, "%s has no parameter '%s' and never looks at its further keywords" % (name, k.arg)
            if k.arg in pos[:npos] and not star:
                return name + ":" + k.arg, "%s gets '%s' twice" % (name, k.arg)
        if star or dstar:
            return None
        nd = len(a.defaults)
        allpos = [x.arg for x in a.posonlyargs + a.args]
        req = set(allpos[:len(allpos) - nd][skip:]) | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
        given = set(pos[:npos]) | {k.arg for k in n.keywords}
        miss = [x for x in allpos + [y.arg for y in a.kwonlyargs] if x in req and x not in given]
        if miss:
            return name + ":" + miss[0], "%s is called without its parameter '%s'" % (name, miss[0])
        return None


def init_lists(self, *a):
    self.brk, self.cont = [], []


_old = Flow.__init__


def _init(self, prog, mod):
    _old(self, prog, mod)
    self.brk, self.cont = [], []
    self.used, self.rets = {}, set()
    self.local = None


Flow.__init__ = _init


def constant(t):
    if isinstance(t, ast.Constant):
        return bool(t.value)
    return None


def reads(f, name):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) for b in f.body for x in ast.walk(b)) or any(
        isinstance(x, ast.Name) and x.id in ("locals", "vars") for b in f.body for x in ast.walk(b))


def in_try_of(tree, n):
    """is the node inside the body of a try statement?"""
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and t.handlers and any(x is n for b in t.body for x in ast.walk(b)):
            return True
    return False


def in_try(s):
    n = s
    while getattr(n, "parent", None) is not None:
        if isinstance(n.parent, ast.Try):
            return True
        n = n.parent
    return False


def bound_names_comp(n):
    out = set()
    for g in n.generators:
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                out.add(x.id)
    return out


def bound_names(f):
    """names a function binds in its own scope"""
    out, glob = set(), set()

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
                for d in getattr(c, "decorator_list", []):
                    go(d)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for x in ast.walk(c):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    if a.name != "*":
                        out.add(a.asname or a.name.split(".")[0])
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                glob.update(c.names)
            go(c)
    if not isinstance(f, ast.Lambda):
        for s in f.body:
            go(ast.Module([s], []))
    return out - glob
