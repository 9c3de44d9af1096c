"""C06: every Python argument reaches its own C++ parameter unaltered."""
import ast
import front, vg, pysrc, pyvg, pyx
from terms import *
from p_c17 import short

SPECIES = ["TrapInstantCapture", "TrapSlowCapture", "TrapInstantCaptureContinuum", "TrapSlowCaptureContinuum"]
ROES = ["ROE", "ROEChargeInjection", "ROETrapPumping"]


class Stop(Exception):
    pass


def norm(n):
    return n.replace("window_offset", "offset")


# ---------------------------------------------------------------- C++ side
class Cpp:
    """the core calls of the C interface: fields of every object handed over, as
    functions of the interface's parameters"""
    def __init__(self, r, prog):
        self.p = prog
        self.r = r
        fs = [g for g in prog.defined() if g["q"] == "add_cti"]
        core = [g for g in fs if front.rel(g).startswith("src/")]
        itf = [g for g in fs if not front.rel(g).startswith("src/")]
        if not core or not itf:
            raise front.AnalysisError("anchor vanished: add_cti and its C interface")
        self.core, self.itf = core[0], itf[0]
        self.calls = []
        self.v = vg.VG(prog, opaque=lambda g: g["id"] == self.core["id"], on_call=self.oncall)
        self.v.fastloops = True
        self.ret, self.st, self.frm = self.v.run(self.itf)

    def oncall(self, v, n, g, this, args, s):
        if g["id"] == self.core["id"]:
            vals = {}
            for q, a in zip(self.core["params"], args):
                if isinstance(a, (vg.Path, vg.CondPath)):
                    a = v.rd(s, a)
                vals[norm(q["n"])] = a
            self.calls.append((list(v.pc), vals, s.copy(), n))
            return mk("result", len(self.calls))
        return None

    def ctor(self, cls, nparams=None):
        """fields of a freshly built object as functions of the constructor's parameters"""
        cs = [g for g in self.p.defined() if g.get("kind") == "ctor" and g.get("cls") == cls and g["params"]
              and not any(q["n"] == "" for q in g["params"]) and not any(cls + " &" in q["ty"] for q in g["params"])]
        if not cs:
            raise Stop("no constructor of %s found" % cls)
        c = max(cs, key=lambda g: len(g["params"]))
        o = vg.Path(mk("sym", "new " + cls))
        v = vg.VG(self.p)
        v.fastloops = True
        st = vg.State()
        args = []
        for q in c["params"]:
            args.append(None)
        ret, st, fr = v.run(c, this=o, state=st)
        out = {}
        for f in self.fields(cls):
            out[f["n"]] = v.rd(st, o.f(f["n"]))
        return c, out

    def fields(self, cls):
        out = []
        rec = self.p.js["records"].get(cls) if isinstance(self.p.js["records"], dict) else \
            next((x for x in self.p.js["records"] if x["q"] == cls), None)
        if rec is None:
            raise Stop("class %s not found" % cls)
        for b in rec.get("bases", []):
            out += self.fields(b if isinstance(b, str) else b.get("q"))
        return out + list(rec["fields"])


# ---------------------------------------------------------------- Python side
class Env:
    """Python layer: terms of the arguments of the compiled wrapper, and what each C parameter receives"""
    def __init__(self, r):
        self.r = r
        self.mods = pysrc.modules()
        self.px = pyx.wrapper()

    def classof(self, name):
        for m in self.mods.values():
            c = m.cls(name)
            if c is not None:
                return m, c
        return None, None

    def subclass(self, a, b):
        while a:
            if a == b:
                return True
            m, c = self.classof(a)
            a = c.bases[0].id if c is not None and c.bases and isinstance(c.bases[0], ast.Name) else None
        return False

    def init(self, name):
        m, c = self.classof(name)
        while c is not None:
            for n in c.body:
                if isinstance(n, ast.FunctionDef) and n.name == "__init__":
                    return m, c, n
            b = c.bases[0].id if c.bases and isinstance(c.bases[0], ast.Name) else None
            m, c = self.classof(b) if b else (None, None)
        return None, None, None

    def attrs(self, name):
        """attributes of a new Python object of class name, as terms of its constructor's parameters"""
        m, c, f = self.init(name)
        if f is None:
            raise Stop("Python class %s has no constructor" % name)
        me = mk("parg", "self", "py")
        state = {"cls": c}

        def oncall(v, e, nm, obj, args, kw):
            if nm.endswith(".__init__"):
                base = nm[:-9]
                cur = state["cls"]
                if base in ("super", "") or base.startswith("super"):
                    b = cur.bases[0].id if cur.bases and isinstance(cur.bases[0], ast.Name) else None
                    a2 = [me] + list(args)
                else:
                    b, a2 = base.split(".")[-1], list(args)
                m2, c2, f2 = self.init(b)
                if f2 is None:
                    return pyvg.NONE
                state["cls"] = c2
                v.inlined(f2, a2, kw, e)
                state["cls"] = cur
                return pyvg.NONE
            return None
        v = pyvg.PyVG(m, on_call=oncall)
        glob = {}
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant):
                glob[n.targets[0].id] = v.const(n.value.value)
        v.run(f, {"self": me})
        out = {k[1]: globs(t, glob) for k, t in v.attrs.items() if k[0] is me}
        for n in ([x for x in c.body] if c is not None else []):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id not in out:
                out[n.targets[0].id] = globs(v.ev(n.value), glob)
        return m, f, out

    # the compiled function's argument expressions
    def cython(self, name, cfun):
        f = self.px.functions.get(name)
        if f is None:
            raise Stop("wrapper has no function " + name)
        calls = []

        def oncall(v, e, nm, obj, args, kw):
            if nm == cfun:
                calls.append((e, args))
            if nm == "__addr__" and len(args) == 1:
                return mk("pyaddr", args[0])
            return None

        class M:
            pass
        mod = M()
        mod.function = lambda n: self.px.functions[n]
        v = pyvg.PyVG(mod, on_call=oncall, inline=set(self.px.functions) - {name})
        v.run(f)
        return f, calls


def globs(t, g):
    m = {mk("gname", k).id: v for k, v in g.items()}
    return subst(t, m, {})


def run(r):
    r.rule = ("value graphs of the three interface layers composed by argument position (Python call -> Cython parameters -> C parameters -> core call); "
              "every field of every object the core receives is compared with the same class built from the Python user's arguments of the same names, "
              "every scalar with the Python argument of the same name; intermediate names play no part")
    r.assume += ["numpy dtype and memory-order conversions of parameters keep values (C25)", "a user-level argument and the C++ parameter of the same meaning have the same name"]
    prog = front.program()
    try:
        go(r, prog)
    except Stop as e:
        r.undecided("python/arcticpy", str(e))


def go(r, prog):
    cp = Cpp(r, prog)
    env = Env(r)
    externs(r, prog, env)
    readnoise(r, prog, env)
    cf, calls = env.cython("cy_add_cti", "add_cti")
    wx = env.px.rel
    r.check(len(calls) == 1, "C06:cy:call", "%s:%d" % (wx, cf.lineno), "the wrapper calls the C interface once (%d calls)" % len(calls))
    if len(calls) != 1:
        return
    cargs = calls[0][1]
    cnode = calls[0][0]
    ip = cp.itf["params"]
    if not r.check(len(cargs) == len(ip), "C06:cy:count", "%s:%d" % (wx, cnode.lineno),
                   "the wrapper passes one argument for each C parameter (%d for %d)" % (len(cargs), len(ip))):
        return
    # Python call
    m = env.mods["cti"]
    pf = m.function("add_cti")
    got = []

    def oncall(v, e, nm, obj, args, kw):
        if nm.split(".")[-1] == "cy_add_cti":
            got.append((list(v.pc), e, args, kw))
        return None
    helpers = {n.name for n in m.tree.body if isinstance(n, ast.FunctionDef) and n.name.startswith("_")}
    pv = pyvg.PyVG(m, on_call=oncall, inline=helpers)
    pv.run(pf)
    wp = "%s:%d" % (m.rel, pf.lineno)
    r.check(len(got) == 1, "C06:py:call", wp, "Python add_cti() calls the wrapper once (%d calls)" % len(got))
    if len(got) != 1:
        return
    ppc, pe, pargs, pkw = got[0]
    wcall = "%s:%d" % (m.rel, pe.lineno)
    cnames = [a.arg for a in cf.args.args]
    if not r.check(len(pargs) + len(pkw) == len(cnames), "C06:py:count", wcall, "Python passes one argument for each wrapper parameter (%d for %d)" % (len(pargs) + len(pkw), len(cnames))):
        return
    bound = dict(zip(cnames, pargs))
    bound.update(pkw)
    user = set(pyvg.params(pf))
    # C parameter -> term over the Python call's arguments
    both = [traps_given("parallel"), traps_given("serial")]
    state = {"sub": None}

    def assume(facts):
        state["sub"] = {mk("parg", n, "py").id: plain(given(facts, t)) for n, t in bound.items()}
    assume([])
    PV = {}
    for q, a in zip(ip, cargs):
        PV[q["n"]] = a

    def pyval(n):
        """the value the C parameter n receives, over Python-level terms"""
        a = PV[n]
        if a.op == "pyaddr":
            return None
        return subst(a, state["sub"], {})

    def pyelem(n, idx):
        """element idx of the buffer the C parameter n points at"""
        a = PV[n]
        if a.op != "pyaddr" or a.a[0].op != "item":
            raise Stop("C parameter %s is not handed the address of an array's first element" % n)
        base, ix = a.a[0].a
        if val(ix) != 0 and not (ix.op == "list" and all(val(x) == 0 for x in ix.a[0])):
            raise Stop("C parameter %s is not handed the start of its array (%s)" % (n, short(ix)))
        return element(subst(base, state["sub"], {}), idx)

    def element(t, i):
        if t.op == "ite":
            return ite(t.a[0], element(t.a[1], i), element(t.a[2], i))
        if t.op == "list" and val(i) is not None and 0 <= val(i) < len(t.a[0]):
            return t.a[0][int(val(i))]
        if t.op == "list" and len(t.a[0]) == 1 and False:
            return t.a[0][0]
        if t.op == "comp" and all(everyone(c, mk("item", t.a[0], t.a[1])) for c in t.a[3]):
            it, k, e, _ = t.a
            x = element(it, i)
            return elemsub(e, it, k, x, i)
        if t.op == "cat":
            off = num(0)
            for p_ in t.a[0]:
                d = sub(i, off)
                if d.op == "sym" and d.a[0].startswith("i!"):
                    return element(p_, d)
                off = add(off, fn("len", p_))
            return mk("item", t, i)
        return mk("item", t, i)

    def everyone(c, x):
        return all(decide(env, c, x, K) is True for K in SPECIES)

    def elemsub(e, it, k, x, i):
        old = mk("item", it, k)
        e = subst(e, {old.id: x}, {})
        return subst(e, {k.id: i}, {})

    def tr(t, memo):
        """a term over the interface's parameters as a term over Python arguments"""
        if t.id in memo:
            return memo[t.id]
        if t.op == "parg" and t.a[0] in PV:
            x = pyval(t.a[0])
            o = x if x is not None else t
            if t.a[1] == "b" and o.op not in ("num",):
                o = o
        elif t.op == "sel" and buffer(t.a[0]) is not None:
            o = pyelem(buffer(t.a[0]), tr(t.a[1], memo))
        else:
            o = rebuild(t, lambda x: tr(x, memo))
        memo[t.id] = o
        return o

    for u in cp.v.unk or []:
        r.undecided(front.loc(cp.itf), "statement of the C interface not resolved")
    r.check(len(cp.calls) >= 1, "C06:itf:calls", front.loc(cp.itf), "the C interface calls the core (%d call sites)" % len(cp.calls))
    r.count("core calls", len(cp.calls))
    r.count("C parameters", len(ip))
    # ---- classes
    pyattrs = {}
    for k in ROES + ["CCDPhase", "CCD"] + SPECIES:
        pyattrs[k] = env.attrs(k)
    classes(r, env, pyattrs)
    # type codes
    codes = {}
    for k in ROES:
        c = val(pyattrs[k][2].get("type", pyvg.NONE)) if "type" in pyattrs[k][2] else None
        if c is None:
            r.undecided("%s" % pyattrs[k][0].rel, "the type code of Python %s is not a constant" % k)
            return
        codes[k] = int(c)
    for d in ("parallel", "serial"):
        assume([traps_given(d)])
        direction(r, env, cp, d, tr, pyattrs, codes, wcall, user)
    assume([])
    scalars(r, cp, tr, user, m, pf, wcall)


def plain(t):
    """list(x) and tuple(x) have the elements of x"""
    memo = {}

    def go(x):
        if x.id not in memo:
            if x.op == "pycall" and x.a[0] in ("list", "tuple") and len(x.a[2]) == 1 and not x.a[3]:
                memo[x.id] = go(x.a[2][0])
            else:
                memo[x.id] = rebuild(x, go)
        return memo[x.id]
    return go(t)


def buffer(t):
    """parameter name when t is the contents of a pointer parameter"""
    if t.op == "init" and len(t.a) == 1 and isinstance(t.a[0], tuple) and len(t.a[0]) == 1:
        t = t.a[0][0]
    if isinstance(t, T) and t.op == "deref" and t.a[0].op == "parg":
        return t.a[0].a[0]
    return None


def isnull(t):
    return t.op == "null" or val(t) == 0


def traps_given(d):
    return lnot(mk("eq0", fn("isnotnone", mk("parg", d + "_traps", "py")), True))


def settle(t, facts):
    return given(facts, t)


def nocount(cp, pc, d):
    """does pc say that direction d has no traps?"""
    names = [q["n"] for q in cp.itf["params"] if q["n"].startswith(d + "_n_traps")]
    s = num(0)
    for n in names:
        s = add(s, mk("parg", n, "i"))
    for c in pc:
        if c is cmp0("eq0", s, True) or c is cmp0("eq0", s, False):
            return True
        if c.op == "eq0" and any(sub(c.a[0], s) is num(0) or add(c.a[0], s) is num(0) for _ in (0,)):
            return True
    return all(any(c is cmp0("eq0", mk("parg", n, "i"), True) for c in pc) for n in names)


def direction(r, env, cp, d, tr, pyattrs, codes, wcall, user):
    wi = front.loc(cp.itf)
    for pc, vals, s, node in cp.calls:
        wc = front.loc(cp.itf, node)
        roe, ccd = vals.get(d + "_roe"), vals.get(d + "_ccd")
        lists = {k: vals.get(n) for k, n in zip(SPECIES, [d + "_traps_" + x for x in ("ic", "sc", "ic_co", "sc_co")])}
        if roe is None or ccd is None or any(x is None for x in lists.values()):
            raise Stop("core parameters of the %s direction not recognised" % d)
        if all(isnull(x) for x in lists.values()):
            r.check(nocount(cp, pc, d), "C06:%s:dropped" % d, wc, "%s clocking is left out only when there are no %s traps" % (d, d))
            continue
        memo = {}
        other = "serial" if d == "parallel" else "parallel"
        G = [traps_given(d)]
        if any(not isnull(vals.get(n)) for n in [other + "_traps_" + x for x in ("ic", "sc", "ic_co", "sc_co")] if vals.get(n) is not None):
            G.append(traps_given(other))
        v = cp.v
        # trap species
        for k, a in lists.items():
            name = "%s %s" % (d, k)
            if isnull(a):
                r.bad("C06:%s:%s" % (d, k), wc, "%s list is not handed to the core" % name)
                continue
            try:
                path = vg.deref(a)
                arr = v.rd(s, path)
                n = v.length(arr)
                i = fresh("i", n)
                c, exp = cp.ctor(k)
                plen = settle(tr(n, memo), G)
                piece = plen.a[-1] if plen.op == "fn" and plen.a[0] == "len" else None
                want = {}
                for q in c["params"]:
                    want[q["n"]] = nth(d, k, i, q["n"])
                facts = G
                ok = is_count(env, plen, d, k)
                if ok is None:
                    r.undecided(wc, "number of %s traps not resolved: %s" % (name, short(plen)))
                else:
                    r.check(ok, "C06:%s:%s:n" % (d, k), wc, "as many %s traps reach the core as the caller gave (%s)" % (name, short(plen)))
                for f in cp.fields(k):
                    e = exp[f["n"]]
                    e2 = subst(e, {x.id: want[x.a[0]] for x in atoms(e, lambda y: y.op == "parg")if x.a[0] in want}, {})
                    act = v.rd(s, path.i(i).f(f["n"]))
                    act = settle(tr(act, memo), G)
                    act = canon(env, act, d, k, i)
                    if mentions(e2, "sym", "new ") or mentions(e2, "rec", None):
                        continue
                    same(r, "C06:%s:%s:%s" % (d, k, f["n"]), wc, "%s.%s of every trap" % (name, f["n"]), act, e2)
            except Stop as x:
                r.undecided(wc, "%s: %s" % (name, x))
        # CCD
        try:
            path = vg.deref(ccd)
            ph = path.f("phases")
            n = v.length(v.rd(s, ph))
            i = fresh("i", n)
            c, exp = cp.ctor("CCDPhase")
            for f in cp.fields("CCDPhase"):
                e = exp[f["n"]]
                act = settle(tr(v.rd(s, ph.i(i).f(f["n"])), memo), G)
                cc = pyccd(pyattrs, act, d)
                e2 = subst(e, {x.id: fld(x.a[0], mk("item", fld("phases", mk("parg", d + "_ccd", "py")), i)) for x in atoms(e, lambda y: y.op == "parg")}, {})
                if e2 is e and e.op != "parg":
                    continue
                same(r, "C06:%s:ccd:%s" % (d, f["n"]), wc, "%s CCD phase %s" % (d, f["n"]), cc, e2)
            fr = path.f("fraction_of_traps_per_phase")
            act = settle(tr(v.rd(s, fr.i(i)), memo), G)
            same(r, "C06:%s:ccd:fraction" % d, wc, "%s CCD fraction_of_traps_per_phase" % d, act,
                 mk("item", fld("fraction_of_traps_per_phase", mk("parg", d + "_ccd", "py")), i))
            nn = settle(tr(n, memo), G)
            okn = nn.op == "fn" and nn.a[0] == "len" and nn.a[1].op == "fld" and nn.a[1].a[1] is mk("parg", d + "_ccd", "py")
            if not okn:
                same(r, "C06:%s:ccd:n" % d, wc, "number of %s CCD phases" % d, nn, fn("len", fld("phases", mk("parg", d + "_ccd", "py"))))
        except Stop as x:
            r.undecided(wc, "%s CCD: %s" % (d, x))
        # ROE, for each type code
        for k in ROES:
            me = mk("parg", d + "_roe", "py")
            code = fld("type", me)
            try:
                pa = settle(tr(roe, memo), G)
                pa = subst(pa, {code.id: num(codes[k])}, {})
                if pa.op != "addr" or pa.a[0].op != "heap":
                    r.undecided(wc, "%s readout object not resolved for Python %s: %s" % (d, k, short(pa)))
                    continue
                cls = pa.a[0].a[-1]
                if not r.check(cls == k, "C06:%s:roe:%s:class" % (d, k), wc, "a Python %s becomes a C++ %s (%s)" % (k, k, cls)):
                    continue
                path = vg.deref(pa)
                c, exp = cp.ctor(k)
                for f in cp.fields(k):
                    e = exp[f["n"]]
                    ps = atoms(e, lambda y: y.op in ("parg", "param"))
                    if not ps and e.op == "init" or mentions(e, "rec", None):
                        continue
                    if any(x.op == "param" for x in ps):
                        # an array parameter
                        nm = [x.a[0] for x in ps if x.op == "param"]
                        if len(set(nm)) != 1 or e.op != "init":
                            continue
                        arr = v.rd(s, path.f(f["n"]))
                        n = v.length(arr)
                        i = fresh("i", n)
                        act = v.rd(s, path.f(f["n"]).i(i))
                        RANGE[i.id] = tr(n, memo)
                        act = settle(tr(act, memo), G)
                        act = elem(subst(act, {code.id: num(codes[k])}, {}))
                        same(r, "C06:%s:roe:%s:%s" % (d, k, f["n"]), wc, "%s %s.%s" % (d, k, f["n"]), act, mk("item", fld(nm[0], me), i))
                        ln = subst(settle(tr(n, memo), G), {code.id: num(codes[k])}, {})
                        same(r, "C06:%s:roe:%s:%s:n" % (d, k, f["n"]), wc, "length of %s %s.%s" % (d, k, f["n"]), ln, fn("len", fld(nm[0], me)))
                        continue
                    e2 = subst(e, {x.id: fld(x.a[0], me) for x in ps}, {})
                    act = settle(tr(v.rd(s, path.f(f["n"])), memo), G)
                    act = subst(act, {code.id: num(codes[k])}, {})
                    if mentions(e2, "sym", "new "):
                        continue
                    if atoms(e2, lambda y: y.op == "fn"):
                        # derived from array lengths by the constructor itself
                        pass
                    same(r, "C06:%s:roe:%s:%s" % (d, k, f["n"]), wc, "%s %s.%s" % (d, k, f["n"]), bools(act), bools(e2))
            except Stop as x:
                r.undecided(wc, "%s %s: %s" % (d, k, x))


def elem(t):
    """element of an array filled one by one over its whole length"""
    if t.op == "sel":
        m, i = t.a
        if m.op == "map" and m.a[2] is m.a[3]:
            return subst(m.a[4], {m.a[2].id: i}, {})
        return sel(m, i)
    return t


def bools(t):
    return num(1) if t is TRUE else num(0) if t is FALSE else t


def same(r, key, where, what, act, exp):
    if act is exp:
        r.check(True, key, where, what)
        return
    if act.op == "ite" and len(leaves(act)) <= 64:
        ls = leaves(act)
        if all(l is exp for l in ls):
            r.check(True, key, where, what)
            return
        if not any(unresolved(l) or l is exp for l in ls) and not unresolved(exp):
            r.bad(key, where, "%s is %s, where the caller's is %s" % (what, short(act), short(exp)))
            return
    # unresolved pieces decide nothing
    if unresolved(act) or unresolved(exp):
        r.undecided(where, "%s not resolved: %s" % (what, short(act)))
        return
    r.bad(key, where, "%s is %s, where the caller's is %s" % (what, short(act), short(exp)))


def leaves(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            todo += [x.a[1], x.a[2]]
        else:
            out.append(x)
    return out


def unresolved(t):
    return bool(atoms(t, lambda y: y.op in ("pyrec", "pycall", "pybin", "pyopaque", "rec", "map", "sel", "comp", "cat", "lv", "setitem", "undef", "pylist", "havoc", "unknown", "heap")
                      or y.op == "fn" and str(y.a[0]).startswith("opq")))


def mentions(t, op, pre):
    return bool(atoms(t, lambda y: y.op == op and (pre is None or str(y.a[0]).startswith(pre))))


def nth(d, k, i, attr):
    return fld(attr, mk("nth", k, d, i))


def kind_comp(env, t, d):
    """species class K if t is the caller's traps of class K, in order; None otherwise"""
    if t.op != "comp":
        return None
    it, k, e, cs = t.a
    if it is not mk("parg", d + "_traps", "py") or e is not mk("item", it, k) or len(cs) != 1:
        return None
    sel_ = [K for K in SPECIES if decide(env, cs[0], e, K) is True]
    oth = [K for K in SPECIES if decide(env, cs[0], e, K) is None]
    return sel_ if not oth else None


def decide(env, c, item, K):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c.op == "not":
        x = decide(env, c.a[0], item, K)
        return None if x is None else not x
    if c.op in ("and", "or"):
        xs = [decide(env, x, item, K) for x in (c.a[0] if isinstance(c.a[0], tuple) else c.a)]
        if c.op == "and":
            return False if False in xs else None if None in xs else True
        return True if True in xs else None if None in xs else False
    if c.op in ("eq0", "truth"):
        x = c.a[0]
        if x.op == "fn" and x.a[0] == "pyis":
            a, b = x.a[1], x.a[2]
            for p, q in ((a, b), (b, a)):
                if p.op == "pycall" and p.a[0] == "type" and p.a[2] == (item,) and q.op in ("gname", "pyfun"):
                    return q.a[0] == K
                if p.op == "fld" and p.a[0] == "__class__" and p.a[1] is item and q.op in ("gname", "pyfun"):
                    return q.a[0] == K
    for x in atoms(c, lambda y: y.op == "pycall" and y.a[0] == "isinstance"):
        if x.a[2][0] is item and x.a[2][1].op in ("gname", "pyfun"):
            pos = c.op != "eq0"
            return env.subclass(K, x.a[2][1].a[0]) == pos
    return None


def is_count(env, t, d, k):
    if t.op == "fn" and t.a[0] == "len":
        ks = kind_comp(env, t.a[1], d)
        if ks is None:
            return None
        return ks == [k]
    return None


def canon(env, t, d, k, i):
    """nth trap of a class for items of the filtered lists, conditions on its class decided"""
    memo = {}
    me = mk("nth", k, d, i)
    stop = []

    def go(x):
        if x.id in memo:
            return memo[x.id]
        if x.op == "item" and x.a[1] is i and x.a[0].op == "comp":
            ks = kind_comp(env, x.a[0], d)
            o = mk("nth", ks[0], d, i) if ks and len(ks) == 1 else x
        elif x.op == "ite":
            c = x.a[0]
            c2 = resub(c)
            v = decide(env, c2, me, k)
            o = go(x.a[1]) if v is True else go(x.a[2]) if v is False else rebuild(x, go)
        else:
            o = rebuild(x, go)
        memo[x.id] = o
        return o

    def resub(c):
        for x in atoms(c, lambda y: y.op == "item" and y.a[0].op == "comp"):
            c = subst(c, {x.id: go(x)}, {})
        return c
    return go(t)


def pyccd(pyattrs, act, d):
    """ccd.full_well_depths[i] -> phases[i].full_well_depth, as the Python constructor defines it"""
    me = mk("parg", d + "_ccd", "py")
    m, f, at = pyattrs["CCD"]
    if act.op == "item" and act.a[0].op == "fld" and act.a[0].a[1] is me:
        t = at.get(act.a[0].a[0])
        if t is not None:
            ph = at.get("phases")
            if t.op == "comp" and not t.a[3] and ph is not None and t.a[0] is ph:
                it, k, e, _ = t.a
                e = subst(e, {mk("item", it, k).id: mk("item", fld("phases", me), act.a[1])}, {})
                # attribute of an item whose object is known on some paths
                e = strip(e, it, k, mk("item", fld("phases", me), act.a[1]))
                return e
    return act


def strip(e, it, k, x):
    if e.op == "fld":
        def leafy(y):
            return y.op == "ite" and True
        return e if not atoms(e, lambda y: y is k) else attr_of(e, it, k, x)
    if e.op == "ite":
        names = set()

        def names_of(t):
            if t.op == "ite":
                names_of(t.a[1])
                names_of(t.a[2])
            elif t.op == "fld":
                names.add(t.a[0])
            else:
                names.add(None)
        names_of(e)
        if len(names) == 1 and None not in names:
            return fld(names.pop(), x)
    return e


def attr_of(e, it, k, x):
    return fld(e.a[0], x)


def classes(r, env, pyattrs):
    """Python constructors store every argument under its own name"""
    for k in ROES + ["CCDPhase", "CCD"] + SPECIES:
        m, f, at = pyattrs[k]
        w = "%s:%d" % (m.rel, f.lineno)
        for n in pyvg.params(f):
            if n == "self":
                continue
            r.count("Python constructor parameters")
            p = mk("parg", n, "py")
            if k == "CCD" and n not in ("phases", "fraction_of_traps_per_phase"):
                # convenience: a single phase
                ph = at.get("phases")
                if ph is None:
                    continue
                one = [x for x in atoms(ph, lambda y: y.op == "pycall" and y.a[0].split(".")[-1] == "CCDPhase")]
                if not one:
                    r.undecided(w, "CCD(%s=...) not resolved" % n)
                    continue
                _, f2, _ = pyattrs["CCDPhase"]
                v = pyvg.PyVG(m)
                b = pyvg.bind_args(f2, [mk("parg", "self", "py")] + list(one[0].a[2]), dict(one[0].a[3]), v)
                got = b.get(n, pyvg.NONE)
                g2 = given([lnot(v.isnone(p))], got)
                if g2 is p:
                    r.check(True, "C06:py:CCD:" + n, w, "CCD(%s=...) sets its phase's %s" % (n, n))
                elif unresolved(g2):
                    r.undecided(w, "CCD(%s=...) not resolved" % n)
                else:
                    r.bad("C06:py:CCD:" + n, w, "CCD(%s=...) sets its phase's %s (%s)" % (n, n, short(g2)))
                continue
            t = at.get(n)
            if t is None:
                r.undecided(w, "%s.%s is not set by the constructor" % (k, n))
                continue
            if k == "CCD" and n == "phases" and t.op == "ite":
                leaves = [t.a[1], t.a[2]]
                if any(x is p for x in leaves):
                    r.check(True, "C06:py:%s:%s" % (k, n), w, "%s.%s is the caller's" % (k, n))
                    continue
            g = pyvg.PyVG(m)
            t2 = given([lnot(g.isnone(p))], t)
            if t2 is p:
                r.check(True, "C06:py:%s:%s" % (k, n), w, "%s.%s is the caller's argument" % (k, n))
            elif unresolved(t2):
                r.undecided(w, "%s.%s not resolved: %s" % (k, n, short(t2)))
            else:
                r.bad("C06:py:%s:%s" % (k, n), w, "%s(%s=...) is stored as %s" % (k, n, short(t2)))


def scalars(r, cp, tr, user, m, pf, wcall):
    """express, offsets, windows, pruning, flags"""
    base = [norm(q["n"]) for q in cp.core["params"]]
    names = {norm(u): u for u in user}
    for pc, vals, s, node in cp.calls:
        wc = front.loc(cp.itf, node)
        off = {d: all(isnull(vals.get(d + "_traps_" + x, vg.NULL)) for x in ("ic", "sc", "ic_co", "sc_co")) for d in ("parallel", "serial")}
        for q in cp.core["params"]:
            n = norm(q["n"])
            if q.get("ptr") or q.get("ref") or "*" in q["ty"] or "valarray" in q["ty"]:
                continue
            d = n.split("_")[0]
            if off.get(d) and "window" not in n:
                continue
            u = names.get(n)
            if u is None:
                r.undecided(wc, "core parameter %s has no Python argument of that name" % q["n"])
                continue
            try:
                act = tr(vals[n], {})
            except Stop as x:
                r.undecided(wc, "%s: %s" % (n, x))
                continue
            G = [traps_given(x) for x in ("parallel", "serial") if not off[x]]
            act = given(G, act)
            r.count("scalar arguments")
            same(r, "C06:arg:%s" % n, wc, "the core's %s" % q["n"], act, mk("parg", u, "py"))


def externs(r, prog, env):
    """Cython's declarations of C functions agree with the C++ ones parameter by parameter"""
    for name, x in sorted(env.px.externs.items()):
        fs = [g for g in prog.defined() if g["q"] == name and not front.rel(g).startswith("test")]
        fs = [g for g in fs if len(g["params"]) == len(x["params"]) and arrays(g) == [("*" in t or "[" in t) for t, _ in x["params"]]] or \
            [g for g in fs if not front.rel(g).startswith("src/")] or fs
        w = "%s:%d" % (env.px.rel, x["line"])
        if not fs:
            r.undecided(w, "no C++ definition of %s seen" % name)
            continue
        g = fs[0]
        if not r.check(len(g["params"]) == len(x["params"]), "C06:extern:%s" % name, w, "%s() is declared with as many parameters as it has (%d, %d)" % (name, len(x["params"]), len(g["params"]))):
            continue
        for (t, n), q in zip(x["params"], g["params"]):
            r.count("declared C parameters")
            a, b = ctype(t), ctype(q["ty"])
            r.check(a == b or {a, b} <= {"int", "bool"}, "C06:extern:%s:%s" % (name, q["n"]), w, "%s(): parameter %s is %s in C++, declared %s" % (name, q["n"], q["ty"], t))


def arrays(g):
    return ["*" in q["ty"] for q in g["params"]]


def ctype(t):
    t = t.replace("const", "").replace("bint", "bool").replace(" ", "").replace("_Bool", "bool").replace("np.double_t", "double").replace("np.float64_t", "double").replace("double_t", "double")
    return t


def readnoise(r, prog, env):
    """read-noise routine: wrapper parameters to C++ parameters"""
    c = [g for g in prog.defined() if g["q"] == "determine_read_noise_model"]
    if not c or "cy_determine_read_noise_model" not in env.px.functions:
        r.undecided(env.px.rel, "read-noise routine not found")
        return
    c = c[0]
    f, calls = env.cython("cy_determine_read_noise_model", "determine_read_noise_model")
    w = "%s:%d" % (env.px.rel, f.lineno)
    if len(calls) != 1 or len(calls[0][1]) != len(c["params"]):
        r.undecided(w, "call of the read-noise routine not resolved")
        return
    names = [a.arg for a in f.args.args]
    scal = [n for n in names]
    arr = []
    for q, a in zip(c["params"], calls[0][1]):
        if a.op == "pyaddr":
            b = a.a[0].a[0] if a.a[0].op == "item" else a.a[0]
            if b.op == "parg":
                arr.append((q["n"], b.a[0]))
            continue
        if q["n"] in names and "parg" != a.op:
            own = mk("parg", q["n"], "py")
            ps = atoms(a, lambda y: y.op == "parg")
            if not any(x.a[0] == q["n"] for x in ps):
                r.bad("C06:readnoise:" + q["n"], w, "the read-noise routine's %s does not come from the wrapper's (%s)" % (q["n"], short(a)))
                continue
        if a.op == "parg":
            r.check(a.a[0] == q["n"] or q["n"] not in names, "C06:readnoise:" + q["n"], w, "the read-noise routine's %s is the wrapper's %s" % (q["n"], a.a[0]))
        else:
            axis = [y for y in atoms(a, lambda y: y.op == "item")]
            if len(axis) == 1 and axis[0].a[0].op == "fld" and axis[0].a[0].a[0] == "shape":
                want = 0 if q["n"].startswith("row") else 1 if q["n"].startswith("col") else None
                if want is not None:
                    r.check(val(axis[0].a[1]) == want, "C06:readnoise:" + q["n"], w, "the read-noise routine's %s is the image's size along axis %d" % (q["n"], want))
    ins = [x for x in arr]
    order = [names.index(b) for _, b in ins]
    r.check(order == sorted(order) and len(set(order)) == len(order), "C06:readnoise:arrays", w,
            "input images are handed over in the wrapper's own order: " + ", ".join("%s<-%s" % x for x in ins))
