"""Dimension inference: every floating expression gets an element of the free
abelian group on {T (time), E (charge)}; '+', comparison, assignment, argument
passing and return are equations, '*' and '/' add exponents.  The equations are
solved exactly (Gaussian elimination over the rationals).  Functions are
polymorphic (one instance per call), fields are shared.  A log of a dimensioned
value carries a 'log weight' so that log(a)-log(b) is accepted and log(a) alone
in a dimensionless place is not."""
from fractions import Fraction as F
import front

ZERO = (F(0), F(0))


class Form:
    __slots__ = ("v", "c")

    def __init__(self, v=None, c=ZERO):
        self.v = v or {}
        self.c = c

    def scale(self, k):
        if k == 0:
            return Form()
        return Form({x: a * k for x, a in self.v.items()}, (self.c[0] * k, self.c[1] * k))

    def add(self, o, k=F(1)):
        v = dict(self.v)
        for x, a in o.v.items():
            n = v.get(x, F(0)) + a * k
            if n:
                v[x] = n
            else:
                v.pop(x, None)
        return Form(v, (self.c[0] + o.c[0] * k, self.c[1] + o.c[1] * k))

    def is0(self):
        return not self.v and self.c == ZERO


def const(t, e):
    return Form({}, (F(t), F(e)))


class Solver:
    def __init__(self):
        self.n = 0
        self.sub = {}

    def fresh(self):
        self.n += 1
        return Form({self.n: F(1)})

    def norm(self, f):
        while True:
            hit = None
            for x in f.v:
                if x in self.sub:
                    hit = x
                    break
            if hit is None:
                return f
            k = f.v[hit]
            s = self.norm(self.sub[hit])
            self.sub[hit] = s
            f = Form({x: a for x, a in f.v.items() if x != hit}, f.c).add(s, k)

    def eq0(self, f):
        f = self.norm(f)
        if not f.v:
            return f.c == ZERO
        x = max(f.v)
        k = f.v[x]
        rest = Form({y: a for y, a in f.v.items() if y != x}, f.c)
        self.sub[x] = rest.scale(-1 / k)
        return True


def show(c):
    names = ("T", "E")
    s = ["%s^%s" % (names[i], c[i]) if c[i] != 1 else names[i] for i in (0, 1) if c[i]]
    return "*".join(s) or "1"


T, E, N1, RATE = (1, 0), (0, 1), (0, 0), (-1, 0)
NAME_SEEDS = {
    "density": E, "release_timescale": T, "capture_timescale": T, "release_rate": RATE, "capture_rate": RATE,
    "release_timescale_sigma": N1, "full_well_depth": E, "well_notch_depth": E, "well_fill_power": N1,
    "first_electron_fill": N1, "dwell_times": T, "dwell_time": T, "fractional_volume_none_exposed": N1,
    "fractional_volume_full_exposed": N1, "fraction_of_traps_per_phase": N1, "prune_n_electrons": E,
}
SEED_CLASSES = {"TrapInstantCapture", "TrapSlowCapture", "TrapInstantCaptureContinuum", "TrapSlowCaptureContinuum",
                "CCDPhase", "CCD", "ROE", "ROEChargeInjection", "ROETrapPumping"}
# parameters of API functions: (function, parameter) -> dim
FUNC_SEEDS = {
    ("add_cti", "image_in"): E, ("remove_cti", "image_in"): E, ("add_cti", None): E, ("remove_cti", None): E,
    ("clock_charge_in_one_direction", "image_in"): E, ("clock_charge_in_one_direction", None): E,
}
IFACE = {"dwell_times": T, "fraction_of_traps": N1, "full_well_depth": E, "well_notch_depth": E, "well_fill_power": N1,
         "first_electron_fill": N1, "trap_densities": E, "trap_release_timescales": T}
DIMLESS1 = {"exp", "sin", "cos", "tan", "erf", "erfc", "tanh", "expm1", "floor", "ceil", "round", "trunc", "lround",
            "std::exp", "std::floor", "std::ceil", "std::round", "std::erf", "rint", "exp2", "log1p", "std::expm1"}
SAME1 = {"abs", "fabs", "std::abs", "std::fabs"}
SAMEN = {"max", "min", "fmax", "fmin", "std::max", "std::min", "std::fmax", "std::fmin", "hypot"}


class Dims:
    def __init__(self, prog, skip_files=("src/main.cpp",)):
        self.p = prog
        self.s = Solver()
        self.fields = {}
        self.globs = {}
        self.conflicts = []
        self.equations = 0
        self.instances = 0
        self.seeds = 0
        self.unresolved = 0
        self.stack = {}
        self.skip = skip_files
        self.solverdim = {}
        self.eqsites = {}
        self.loops = []
        self.names = {}
        self.weaks = {}

    # -- values are (dim, logw)
    def fresh(self):
        return (self.s.fresh(), Form())

    def freshL(self):
        return (self.s.fresh(), self.s.fresh())

    def one(self):
        return (Form(), Form())

    def eq(self, a, b, n, what):
        self.equations += 1
        key = (self.cur["id"], n.get("l") if n else None)
        self.eqsites[key] = self.eqsites.get(key, 0) + 1
        for i in (0, 1):
            f = self.s.norm(a[i].add(b[i], F(-1)))
            if not self.s.eq0(f):
                l, rr = self.s.norm(a[i]), self.s.norm(b[i])
                self.conflicts.append((self.cur, n, what, f.c, show(l.c) if not l.v else "?", show(rr.c) if not rr.v else "?", i))

    def need1(self, a, n, what):
        self.eq(a, self.one(), n, what)

    def field(self, cls, name, t):
        k = (cls, name)
        if k not in self.fields:
            if t in ("i", "u", "b", "e"):
                self.fields[k] = self.one()
            elif cls in SEED_CLASSES and name in NAME_SEEDS:
                self.seeds += 1
                self.fields[k] = (const(*NAME_SEEDS[name]), Form())
            else:
                self.fields[k] = self.freshL()
        return self.fields[k]

    def var(self, env, n, t, ty):
        k = n
        if k not in env:
            env[k] = self.one() if t in ("i", "u", "b", "e") else self.freshL()
        return self.rd(env, k)

    # -- functions
    def run(self):
        for f in self.p.defined():
            if any(front.rel(f).endswith(s) for s in self.skip):
                continue
            self.cur = f
            self.instance(f, None)
        return self.conflicts

    def instance(self, f, callargs):
        if f["id"] in self.stack:
            inst = self.stack[f["id"]]
            return inst
        self.instances += 1
        env = {}
        inst = {"env": env, "params": [], "ret": self.one() if f.get("rett") in ("i", "u", "b", "e") else self.freshL()}
        for p in f.get("params") or []:
            v = self.var(env, p["id"], p["t"] if not p.get("ptr") else "p", p["ty"])
            inst["params"].append(v)
        inst["weak"] = self.weakset(f)
        self.stack[f["id"]] = inst
        saved = self.cur
        sloops, self.loops = self.loops, []
        self.cur = f
        # seeds
        nm = f["q"]
        cls = f.get("cls")
        for p, v in zip(f.get("params") or [], inst["params"]):
            d = FUNC_SEEDS.get((nm, p["n"]))
            if d is None and f.get("kind") == "ctor" and cls in SEED_CLASSES and p["t"] not in ("i", "u", "b"):
                d = NAME_SEEDS.get(p["n"])
            if d is None and nm.split("::")[-1] in ("add_cti", "remove_cti", "clock_charge_in_one_direction") and \
                    p["n"].endswith("prune_n_electrons"):
                d = E
            if d is None and "arcticpy/src" in f["file"] and not p["ty"].startswith("int"):
                for k, dd in IFACE.items():
                    if p["n"].endswith(k):
                        d = dd
                if p["n"] == "image":
                    d = E
            if d is not None:
                self.seeds += 1
                self.eq(v, (const(*d), Form()), {"l": f["l"]}, "API dimension of parameter " + p["n"])
        if (nm, None) in FUNC_SEEDS:
            self.seeds += 1
            self.eq(inst["ret"], (const(*FUNC_SEEDS[(nm, None)]), Form()), {"l": f["l"]}, "API dimension of result")
        inst["fn"] = f
        self.inst = inst
        for i in f.get("inits") or []:
            if i.get("field") and i.get("e"):
                v = self.ex(i["e"], env)
                ft = self.ftype(cls, i["field"])
                self.eq(self.field(cls, i["field"], ft), v, i["e"], "initialiser of " + i["field"])
            elif i.get("e"):
                self.ex(i["e"], env)
        if f.get("b"):
            self.st(f["b"], env, inst)
        self.cur = saved
        self.loops = sloops
        del self.stack[f["id"]]
        return inst

    def weakset(self, f):
        w = self.weaks.get(f["id"])
        if w is None:
            w = {p["id"] for p in f.get("params") or [] if p.get("ref")}
            for m in front.walk(f.get("b")):
                if m["k"] == "un" and m["op"] == "&":
                    e = m["e"]
                    while e["k"] == "cast":
                        e = e["e"]
                    if e["k"] == "ref" and "id" in e:
                        w.add(e["id"])
                elif m["k"] == "decl":
                    for v in m["v"]:
                        if v.get("ref") and v.get("init"):
                            w.add(v["id"])
                            for e in front.walk(v["init"]):
                                if e["k"] == "ref":
                                    w.add(e["id"])
                elif m["k"] in ("call", "ctor") and m.get("id") in self.p.funcs:
                    g = self.p.funcs[m["id"]]
                    for p, a in zip(g.get("params") or [], m.get("args") or []):
                        while a["k"] == "cast":
                            a = a["e"]
                        if p.get("ref") and a["k"] == "ref" and not p.get("const"):
                            w.add(a["id"])
                elif m["k"] == "lambda":
                    for e in front.walk(m):
                        if e["k"] == "ref":
                            w.add(e["id"])
            self.weaks[f["id"]] = w
        return w

    def ftype(self, cls, name):
        for r in self.p.js["records"]:
            if r.get("q", r.get("name")) == cls or r.get("name") == cls:
                for fl in r["fields"]:
                    if fl["n"] == name:
                        return fl["t"]
        return "d"

    # -- statements: flow-sensitive for scalar and array locals, lazily joined
    def rd(self, env, k):
        v = env[k]
        if isinstance(v, Phi):
            if v.val is None:
                v.val = self.freshL()
                for o in list(v.ops):
                    self.link(v, o)
            return v.val
        return v

    def link(self, phi, o):
        if isinstance(o, Phi):
            if o is phi or (o.val is not None and o.val is phi.val):
                return
            if o.val is None:
                o.val = self.freshL()
                for q in list(o.ops):
                    self.link(o, q)
            o = o.val
        self.eq(phi.val, o, phi.at, "values of %s meeting here" % phi.name)

    def addop(self, phi, o):
        phi.ops.append(o)
        if phi.val is not None:
            self.link(phi, o)

    def merge(self, env, outs, at):
        """replace env's content by the join of the environments outs"""
        if not outs:
            return
        keys = set(outs[0])
        for o in outs[1:]:
            keys &= set(o)
        res = {}
        for k in keys:
            vs = []
            for o in outs:
                if not any(o[k] is v for v in vs):
                    vs.append(o[k])
            if len(vs) == 1:
                res[k] = vs[0]
            else:
                res[k] = Phi(vs, at, self.names.get(k, "a variable"))
        for o in outs:
            for k in o:
                if k not in res:
                    res[k] = o[k]
        env.clear()
        env.update(res)

    def st(self, n, env, inst):
        """returns False when control does not fall through"""
        if n is None:
            return True
        if isinstance(n, list):
            for x in n:
                if not self.st(x, env, inst):
                    return False
            return True
        k = n["k"]
        if k == "decl":
            for v in n["v"]:
                self.names[v["id"]] = v["n"]
                isint = v["t"] in ("i", "u", "b", "e") and not v.get("isarr")
                y = self.ex(v["init"], env) if v.get("init") else None
                if isint:
                    env[v["id"]] = self.one()
                elif v["id"] in inst["weak"] or v.get("static"):
                    x = self.var(env, v["id"], v["t"], v["ty"])
                    if y is not None:
                        self.eq(x, y, v["init"], "initialisation of " + v["n"])
                else:
                    env[v["id"]] = y if y is not None else self.freshL()
            return True
        if k == "ret":
            if n.get("e"):
                y = self.ex(n["e"], env)
                self.eq(inst["ret"], y, n, "returned value")
            return False
        if k in ("break", "continue", "goto"):
            if self.loops:
                self.loops[-1][k if k != "goto" else "break"].append(dict(env))
            return False
        if k == "expr":
            self.ex(n["e"], env)
            return n["e"]["k"] != "throw" and not (n["e"]["k"] == "call" and n["e"].get("noret"))
        if k == "blk":
            return self.st(n["b"], env, inst)
        if k == "if":
            if n.get("init"):
                self.st(n["init"], env, inst)
            if n.get("cv"):
                self.st(n["cv"], env, inst)
            self.ex(n["c"], env)
            e1, e2 = dict(env), dict(env)
            f1 = self.st(n["a"], e1, inst)
            f2 = self.st(n["b"], e2, inst) if n.get("b") else True
            outs = ([e1] if f1 else []) + ([e2] if f2 else [])
            self.merge(env, outs, n)
            return bool(outs)
        if k in ("for", "while", "do", "rfor"):
            if k == "for" and n.get("init"):
                i = n["init"]
                self.st(i, env, inst) if i["k"] in STM else self.ex(i, env)
            if k == "rfor":
                y = self.ex(n["e"], env)
            asgd = assigned(n)
            heads = {}
            for x in list(env):
                if x in asgd:
                    heads[x] = Phi([env[x]], n, self.names.get(x, "a variable"))
                    env[x] = heads[x]
            self.loops.append({"break": [], "continue": []})
            if k == "rfor":
                v = n["v"]
                v = v[0] if isinstance(v, list) else v
                if isinstance(v, dict) and v.get("k") == "decl":
                    v = v["v"][0]
                env[v["id"]] = self.one() if v["t"] in ("i", "u", "b", "e") else y
            if k in ("for", "while") and n.get("c"):
                self.ex(n["c"], env)
            body = dict(env)
            fall = self.st(n["b"], body, inst)
            L = self.loops[-1]
            backs = ([body] if fall else []) + L["continue"]
            if backs:
                self.merge(body, backs, n)
                if k == "for" and n.get("inc"):
                    self.ex(n["inc"], body)
                if k == "do" and n.get("c"):
                    self.ex(n["c"], body)
                for x, ph in heads.items():
                    self.addop(ph, body[x])
            self.loops.pop()
            outs = ([env] if k != "do" else []) + L["break"] + ([body] if k == "do" and backs else [])
            outs = [dict(o) for o in outs]
            keep = set(env)
            self.merge(env, outs, n)
            return True
        if k == "switch":
            self.ex(n["c"], env)
            self.loops.append({"break": [], "continue": []})
            b = dict(env)
            body = n["b"]["b"] if n["b"]["k"] == "blk" else [n["b"]]
            for x in body:
                if x["k"] in ("case", "default"):
                    self.merge(b, [dict(b), dict(env)], n)
                self.st(x, b, inst)
            L = self.loops.pop()
            if L["continue"] and self.loops:
                self.loops[-1]["continue"] += L["continue"]
            self.merge(env, [dict(env), b] + L["break"], n)
            return True
        if k in ("case", "default", "label"):
            r = True
            for key in ("b", "s"):
                if n.get(key):
                    r = self.st(n[key], env, inst)
            return r
        if k == "omp":
            return self.st(n["b"], env, inst)
        if k == "try":
            e0 = dict(env)
            self.st(n["b"], env, inst)
            hs = []
            for h in n.get("h") or []:
                e1 = dict(e0)
                b = h.get("b") if isinstance(h, dict) else None
                if b and self.st(b, e1, inst):
                    hs.append(e1)
            self.merge(env, [dict(env)] + hs, n)
            return True
        for c in front.kids(n):
            if c["k"] in STM:
                self.st(c, env, inst)
            else:
                self.ex(c, env)
        return True

    def setvar(self, env, na, v):
        """strong update of a local scalar/array; False when na is not one"""
        x = na
        while x["k"] == "cast":
            x = x["e"]
        if x["k"] == "ref" and x["c"] in ("param", "local") and x["t"] in ("d", "o", "p") and \
                x["id"] not in self.inst["weak"]:
            env[x["id"]] = v
            return True
        return False

    def toint(self, n, y):
        pass

    def lit0(self, n):
        while n["k"] == "cast":
            n = n["e"]
        return n["k"] in ("flt", "int") and float(n["v"]) == 0.0

    def neglit(self, n):
        while n["k"] == "cast":
            n = n["e"]
        return n["k"] == "un" and n["op"] == "-" and n["e"]["k"] in ("int", "flt")

    def litval(self, n):
        while n["k"] == "cast":
            n = n["e"]
        if n["k"] in ("flt", "int"):
            return F(n["v"]).limit_denominator(10 ** 6)
        if n["k"] == "un" and n["op"] == "-":
            v = self.litval(n["e"])
            return None if v is None else -v
        return None

    def mul(self, a, b, n, na, nb, op):
        k = F(1) if op == "*" else F(-1)
        lw = Form()
        if op in ("*", "/") and not self.s.norm(a[1]).is0() or not self.s.norm(b[1]).is0():
            la, lb = self.litval(na), self.litval(nb)
            if lb is not None and lb != 0:
                lw = a[1].scale(lb if op == "*" else 1 / lb)
            elif la is not None and op == "*":
                lw = b[1].scale(la)
            else:
                # a log-weighted value may only be multiplied by literals, or be weightless
                self.eq((a[1], Form()), self.one(), n, "product with the logarithm of a dimensioned value")
                self.eq((b[1], Form()), self.one(), n, "product with the logarithm of a dimensioned value")
        return (a[0].add(b[0], k), lw)

    def ex(self, n, env):
        k = n["k"]
        if k in ("flt", "int"):
            return self.fresh() if float(n["v"]) == 0 else self.one()
        if k in ("bool", "str", "null", "sizeof", "zero"):
            return self.fresh()
        if k == "ref":
            if n["c"] in ("param", "local"):
                return self.var(env, n["id"], n["t"], n.get("ty", ""))
            if n["c"] in ("global", "static"):
                key = n.get("q") or n["n"]
                if n["c"] == "static":
                    key = (self.cur["id"], n["n"])
                if key not in self.globs:
                    self.globs[key] = self.one() if n["t"] in ("i", "u", "b", "e") else self.freshL()
                return self.globs[key]
            if n["c"] == "enum":
                return self.one()
            return self.fresh()
        if k == "mem":
            if n["e"]["k"] not in ("this",):
                self.ex(n["e"], env)
            return self.field(n["cls"], n["n"], n["t"])
        if k == "this":
            return self.fresh()
        if k == "cast":
            v = self.ex(n["e"], env)
            if n["t"] in ("i", "u", "e") and n["e"].get("t") == "d":
                self.need1(v, n, "conversion of a floating value to an integer")
                return self.one()
            return v
        if k == "un":
            v = self.ex(n["e"], env)
            if n["op"] == "!":
                return self.one()
            if n["op"] == "-":
                return (v[0], v[1].scale(F(-1)))
            return v
        if k in ("bin", "asg"):
            return self.binop(n, n["op"], n["a"], n["b"], env)
        if k == "cond":
            self.ex(n["c"], env)
            a, b = self.ex(n["a"], env), self.ex(n["b"], env)
            self.eq(a, b, n, "branches of ?:")
            return a
        if k == "idx":
            a = self.ex(n["a"], env)
            self.ex(n["b"], env)
            x = n["a"]
            while x["k"] == "cast":
                x = x["e"]
            if x["k"] == "ref" and x["c"] == "param" and "arcticpy/src" in self.cur["file"] and \
                    any(x["n"].endswith(q) for q in ("third_params", "fourth_params")):
                return self.fresh()   # packed array: its meaning depends on the species (see C06)
            return a
        if k == "init":
            if n.get("fields"):
                for nm, e in zip(n["fields"], n["args"]):
                    v = self.ex(e, env)
                    self.eq(self.field(n["ty"], nm, self.ftype(n["ty"], nm)), v, e, "initialiser of field " + nm)
                return self.fresh()
            r = self.freshL()
            for e in n["args"]:
                self.eq(r, self.ex(e, env), e, "array element")
            return r
        if k == "defarg":
            return self.fresh()
        if k == "sexpr":
            self.st(n["b"], env, self.inst)
            return self.fresh()
        if k == "new":
            if n.get("init"):
                return self.ex(n["init"], env)
            return self.fresh()
        if k == "ctor":
            return self.ctor(n, env)
        if k == "call":
            return self.call(n, env)
        if k in ("delete", "throw", "lambda", "unk"):
            for c in front.kids(n):
                if c["k"] in STM:
                    self.st(c, env, self.inst)
                else:
                    self.ex(c, env)
            return self.fresh()
        return self.fresh()

    def binop(self, n, op, na, nb, env):
        if op == "=":
            x = na
            while x["k"] == "cast":
                x = x["e"]
            if x["k"] == "ref" and x["c"] in ("param", "local") and x["t"] in ("d", "o", "p") and \
                    x["id"] not in self.inst["weak"]:
                b = self.ex(nb, env)
                env[x["id"]] = b
                return b
        a, b = self.ex(na, env), self.ex(nb, env)
        if op == ",":
            return b
        ta, tb = na.get("t"), nb.get("t")
        if op in ("&&", "||", "%", "<<", ">>", "&", "|", "^"):
            return self.one()
        if ta == "p" or tb == "p":
            if op == "-" and ta == "p" and tb == "p":
                return self.one()
            if op in ("+", "-", "+=", "-="):
                return a if ta == "p" else b
            if op == "=":
                self.eq(a, b, n, "assignment")
                return a
            return self.one()
        if op in ("==", "!=") and (self.neglit(na) or self.neglit(nb)):
            return self.one()
        if op in ("<", ">", "<=", ">=", "==", "!="):
            self.eq(a, b, n, "comparison")
            return self.one()
        if op in ("+", "-"):
            self.eq((a[0], Form()), (b[0], Form()), n, "operands of " + op)
            return (a[0], a[1].add(b[1], F(1) if op == "+" else F(-1)))
        if op in ("*", "/"):
            if ta in ("i", "u") and tb in ("i", "u"):
                return self.one()
            return self.mul(a, b, n, na, nb, op)
        if op == "=":
            if ta in ("i", "u", "b") and tb == "d":
                self.need1(b, n, "conversion to integer")
                return a
            if self.setvar(env, na, b):
                return b
            self.eq(a, b, n, "assignment")
            return a
        if op in ("+=", "-="):
            self.eq((a[0], Form()), (b[0], Form()), n, "operands of " + op)
            v = (a[0], a[1].add(b[1], F(1) if op == "+=" else F(-1)))
            if self.setvar(env, na, v):
                return v
            self.eq((Form(), Form()), (Form(), b[1]), n, "accumulation of logarithms")
            return a
        if op in ("*=", "/="):
            v = self.mul(a, b, n, na, nb, op[0])
            if self.setvar(env, na, v):
                return v
            self.need1(b, n, "scaling in place by a dimensioned value")
            return a
        return self.fresh()

    def gslfns(self, n, env):
        """functions stored in the gsl_function a pointer expression refers to"""
        while n["k"] in ("cast",) or (n["k"] == "un" and n["op"] == "&"):
            n = n["e"]
        key = (n.get("id"), n.get("n"))
        body = self.cur
        out = []
        fs = [body] if n["k"] == "ref" and n["c"] == "local" else []
        for f in fs:
            for m in front.walk(f["b"]):
                if m["k"] == "asg" and m["a"]["k"] == "mem" and m["a"]["n"] == "function":
                    base = m["a"]["e"]
                    if base["k"] == "ref" and (base["id"], base["n"]) == key:
                        out += self.fref(m["b"])
                if m["k"] == "decl":
                    for v in m["v"]:
                        if (v["id"], v["n"]) == key and v.get("init"):
                            for x in front.walk(v["init"]):
                                out += self.fref(x)
        if not out:
            self.unresolved += 1
        return out

    def fref(self, n):
        while n["k"] == "cast" or (n["k"] == "un" and n["op"] == "&"):
            n = n["e"]
        if n["k"] == "ref" and n["c"] == "func" and n["id"] in self.p.funcs:
            f = self.p.funcs[n["id"]]
            return [f] if f.get("b") else []
        return []

    def call(self, n, env):
        name = n.get("f") or ""
        args = n.get("args") or []
        op = n.get("op")
        ts = self.p.targets(n)
        if n.get("obj") is not None and not (op and not ts):
            ov = self.ex(n["obj"], env)
        if ts:
            av = [None if a["k"] == "defarg" else self.ex(a, env) for a in args]
            ret = self.one() if n.get("t") in ("i", "u", "b", "e") else self.freshL()
            for f in ts:
                saved = self.cur, self.inst
                inst = self.instance(f, av)
                self.cur, self.inst = saved
                for p, pv, a, v in zip(f.get("params") or [], inst["params"], args, av):
                    if v is None:
                        continue
                    if p["t"] in ("i", "u") and a.get("t") == "d":
                        self.need1(v, a, "argument %s of %s" % (p["n"], f["q"]))
                    elif p["t"] not in ("i", "u", "b", "e"):
                        self.eq(pv, v, a, "argument %s of %s" % (p["n"], f["q"]))
                if n.get("t") not in ("v", "i", "u", "b", "e"):
                    self.eq(ret, inst["ret"], n, "result of " + f["q"])
            return ret
        if op:
            if n.get("obj") is not None:
                ops = [n["obj"]] + args
            else:
                ops = args
            if op == "[]":
                o = self.ex(ops[0], env)
                self.ex(ops[1], env)
                return o
            if op == "()" or len(ops) > 2:
                for a in ops:
                    self.ex(a, env)
                return self.fresh()
            if len(ops) == 2:
                if op in ("<<", ">>"):
                    self.ex(ops[0], env)
                    self.ex(ops[1], env)
                    return self.fresh()
                return self.binop(n, op, ops[0], ops[1], env)
            if len(ops) == 1:
                v = self.ex(ops[0], env)
                return (v[0], v[1].scale(F(-1))) if op == "-" else v
        base = name.split("::")[-1]
        if "gsl_integration_qag" in name or "gsl_integration_qng" in name or "gsl_integration_cquad" in name:
            av = [self.ex(a, env) for a in args]
            fs = self.gslfns(args[0], env)
            lo, hi = av[1], av[2]
            self.eq(lo, hi, n, "integration limits")
            for f in fs:
                saved = self.cur, self.inst
                inst = self.instance(f, None)
                self.cur, self.inst = saved
                self.eq(inst["params"][0], lo, n, "integration variable of " + f["q"])
                res = (inst["ret"][0].add(lo[0]), Form())
                self.eq(res, av[-2], n, "integral of " + f["q"])
                self.eq(res, av[-1], n, "integration error estimate")
                self.eq(res, av[3], n, "absolute tolerance of the integral")
            self.need1(av[4], n, "relative tolerance")
            return self.one()
        if name.startswith("gsl_root_fsolver"):
            av = [self.ex(a, env) for a in args]
            if base == "gsl_root_fsolver_set":
                self.eq(av[0], av[2], n, "root bracket")
                self.eq(av[2], av[3], n, "root bracket")
                for f in self.gslfns(args[1], env):
                    saved = self.cur, self.inst
                    inst = self.instance(f, None)
                    self.cur, self.inst = saved
                    self.eq(inst["params"][0], av[2], n, "root variable of " + f["q"])
                return self.one()
            if base in ("gsl_root_fsolver_root", "gsl_root_fsolver_x_lower", "gsl_root_fsolver_x_upper"):
                return av[0]
            return self.one() if n.get("t") in ("i", "u") else self.fresh()
        if name == "gsl_root_test_interval":
            av = [self.ex(a, env) for a in args]
            self.eq(av[0], av[1], n, "bracket ends")
            self.eq(av[2], av[0], n, "absolute tolerance of the root")
            self.need1(av[3], n, "relative tolerance")
            return self.one()
        av = [self.ex(a, env) for a in args]
        if base in ("exp",) and len(av) == 1:
            self.eq((av[0][0], Form()), self.one(), n, "argument of exp")
            return (av[0][1], Form())
        if base in ("log",) and len(av) == 1:
            return (Form(), av[0][0])
        if base in ("log10", "log2"):
            self.need1(av[0], n, "argument of " + base)
            return self.one()
        if base in {x.split("::")[-1] for x in DIMLESS1}:
            if n.get("t") in ("i",) and base == "abs":
                return self.one()
            self.need1(av[0], n, "argument of " + base)
            return self.one()
        if base in ("abs", "fabs"):
            return av[0] if n.get("t") not in ("i", "u") else self.one()
        if base in ("max", "min", "fmax", "fmin", "hypot", "clamp") and len(av) >= 2:
            for v in av[1:]:
                self.eq(av[0], v, n, "arguments of " + base)
            return av[0]
        if base in ("max", "min", "sum") and not av and n.get("obj") is not None:
            return ov
        if base in ("accumulate",) and len(av) >= 3:
            self.eq(av[0], av[2], n, "accumulate")
            return av[0]
        if base == "sqrt":
            return (av[0][0].scale(F(1, 2)), Form())
        if base == "cbrt":
            return (av[0][0].scale(F(1, 3)), Form())
        if base == "fmod":
            self.eq(av[0], av[1], n, "arguments of fmod")
            return av[0]
        if base == "pow" and len(av) == 2:
            self.need1(av[1], n, "exponent of pow")
            lv = self.litval(args[1])
            if lv is not None:
                self.eq((av[0][1], Form()), self.one(), n, "power of a logarithm of a dimensioned value")
                return (av[0][0].scale(lv), Form())
            self.need1(av[0], n, "base of pow with a non-literal exponent")
            return self.one()
        if base in ("begin", "end", "data", "at", "front", "back", "move", "forward", "ref", "cbegin", "cend"):
            if av and n.get("obj") is None:
                return av[0]
            if n.get("obj") is not None:
                return ov
        if base in ("push_back", "emplace_back", "assign", "fill") and n.get("obj") is not None and av:
            self.eq(ov, av[-1], n, base)
            return ov
        if base in ("upper_bound", "lower_bound") and len(av) >= 3:
            self.eq(av[0], av[2], n, base)
            return av[0]
        if base in ("swap",) and len(av) == 2:
            self.eq(av[0], av[1], n, "swap")
            return self.one()
        if base in ("resize",) and n.get("obj") is not None and len(av) == 2:
            self.eq(ov, av[1], n, "resize fill")
            return ov
        if n.get("t") in ("i", "u", "b", "e"):
            return self.one()
        return self.freshL()

    def ctor(self, n, env):
        args = n.get("args") or []
        f = self.p.funcs.get(n.get("id")) if n.get("id") else None
        if f and f.get("b") is not None and not n.get("copy"):
            av = [None if a["k"] == "defarg" else self.ex(a, env) for a in args]
            saved = self.cur, self.inst
            inst = self.instance(f, av)
            self.cur, self.inst = saved
            for p, pv, a, v in zip(f.get("params") or [], inst["params"], args, av):
                if v is not None and p["t"] not in ("i", "u", "b", "e"):
                    self.eq(pv, v, a, "argument %s of %s" % (p["n"], f["q"]))
            return self.fresh()
        av = [None if a["k"] == "defarg" else self.ex(a, env) for a in args]
        nm = n.get("f") or ""
        if nm.startswith("std::valarray") or nm.startswith("std::vector"):
            if n.get("copy") and av:
                return av[0]
            if len(av) == 2:
                e = 0 if "valarray" in nm else 1
                if args[0].get("t") == "p":
                    e = 0
                return av[e] if av[e] is not None else self.freshL()
            if len(av) == 1 and args[0].get("t") not in ("i", "u"):
                return av[0] if av[0] is not None else self.freshL()
            return self.freshL()
        if n.get("copy") and av and av[0] is not None:
            return av[0]
        return self.fresh()


class Phi:
    __slots__ = ("ops", "val", "at", "name")

    def __init__(self, ops, at, name):
        self.ops, self.val, self.at, self.name = list(ops), None, at, name


def assigned(n):
    out = set()
    for m in front.walk(n):
        t = None
        if m["k"] == "asg":
            t = m["a"]
        elif m["k"] == "un" and ("++" in m["op"] or "--" in m["op"]):
            t = m["e"]
        elif m["k"] == "call" and m.get("op") and m["op"].endswith("=") and m["op"] not in ("==", "!=", "<=", ">="):
            t = m.get("obj") or (m["args"][0] if m.get("args") else None)
        while t is not None and t["k"] == "cast":
            t = t["e"]
        if t is not None and t["k"] == "ref" and t["c"] in ("param", "local"):
            out.add(t["id"])
    return out


STM = {"blk", "decl", "if", "for", "while", "rfor", "do", "switch", "case", "default", "break", "continue", "ret", "nop",
       "try", "omp", "label", "goto", "expr"}
