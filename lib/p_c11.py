"""C11: no negative pixel is returned when negatives are disallowed."""
import ast
import front, clocking, removal, pysrc
from terms import *
from p_c17 import short


def nonneg_value(t, facts):
    """t >= 0 provable from the facts by simplification and the shape of the expression"""
    t = given(facts, t)
    v = val(t)
    if v is not None:
        return v >= 0
    for c in (cmp0("ge0", t, False), cmp0("gt0", t, False)):
        if implied(facts, c):
            return True
    if t.op == "poly" and len(monos(t)) == 1 and monos(t)[0][1] == 1 and len(monos(t)[0][0]) == 1 and monos(t)[0][0][0][1] == 1:
        t = monos(t)[0][0][0][0]
    if t.op == "ite":
        return nonneg_value(t.a[1], list(facts) + [t.a[0]]) and nonneg_value(t.a[2], list(facts) + [lnot(t.a[0])])
    if t.op == "fn" and t.a[0] == "max":
        return any(nonneg_value(x, facts) for x in t.a[1:])
    if t.op == "fn" and t.a[0] == "min":
        return all(nonneg_value(x, facts) for x in t.a[1:])
    if t.op == "fn" and t.a[0] in ("abs", "exp", "sqrt"):
        return True
    if t.op == "poly":
        return all(c >= 0 and all(p % 2 == 0 or nonneg_value(a, facts) for a, p in mo) for mo, c in monos(t))
    return False


def run(r):
    prog = front.program()
    r.rule = ("value left in every pixel written by an innermost clocking iteration, and every element of the image after a removal "
              "iteration, proved non-negative from the conditions on the path when negatives are disallowed")
    m = clocking.Model(prog)
    for u in m.unresolved:
        r.undecided(u, "loop or statement not resolved")
    allow = cmp0("eq0", mk("parg", "allow_negative_pixels", "i"), True)
    groups = {}
    for w in m.events:
        if w.get("op") == "image.wr":
            groups.setdefault((w["name"], tuple(a.id for a in w["args"][:-1]), tuple(k.id for k, _ in w["loops"])), []).append(w)
    r.count("write_groups", len(groups))
    n = 0
    for g in groups.values():
        base = None
        facts = [allow]
        # conditions shared by the group
        common = [c for c in g[0]["pc"] if all(c in w["pc"] for w in g)]
        facts += common
        out = mk("acc", g[0]["name"], tuple(g[0]["args"][:-1]))
        touched = FALSE
        for w in g:
            c = given(facts, land(*[x for x in w["pc"] if x not in common]))
            out = ite(c, w["args"][-1], out)
            touched = lor(touched, c)
        n += 1
        if given([allow], touched) is FALSE:
            r.ok(m.tag(g[-1]), "not written when negatives are disallowed")
            continue
        r.check(nonneg_value(out, facts + [touched]), "C11:clock:%s" % front.rel(g[-1]["f"]), m.tag(g[-1]),
                "a pixel written while clocking is left non-negative: it holds %s" % short(given(facts, out)))
    if not n:
        r.bad("C11:nowrite", front.loc(m.f), "clocking writes no pixel")
    # C++ removal
    R = removal.Removal(prog)
    for u in R.unresolved:
        r.undecided(u, "loop or statement not resolved")
    rec = R.rec([allow])
    w = front.loc(R.f)
    if rec is None:
        t = given([allow], R.ret)
        img(r, R, t, [allow], w, "returned image")
    else:
        img(r, R, R.settle(rec), [allow], w, "image after each removal iteration")
    pyremove(r)


def img(r, R, t, facts, w, what):
    v = R.v
    i = fresh("row", v.length(t))
    RANGE[i.id] = v.length(t)
    rowt = sel(t, i)
    j = fresh("col", v.length(rowt))
    RANGE[j.id] = v.length(rowt)
    e = given(facts, sel(rowt, j))
    if nonneg_value(e, facts):
        r.ok(w, what + ": every element non-negative when negatives are disallowed")
    elif R.unresolved and atoms(e, lambda y: y.op in ("loopout", "loopret", "unk", "ext")):
        r.undecided(w, what)
    else:
        r.bad("C11:remove", w, "%s: element can be negative although negatives are disallowed: %s" % (what, short(e)))


# ------------------------------------------------------------------ Python
def pyremove(r):
    mod = pysrc.module("cti")
    f = mod.function("remove_cti")
    where = "%s:%d (remove_cti)" % (mod.rel, f.lineno)
    rets = [n for n in ast.walk(f) if isinstance(n, ast.Return) and n.value is not None]
    names = set()
    for n in rets:
        x = n.value
        if isinstance(x, ast.Call) and x.args:      # wrapped for returning
            x = x.args[0]
        if isinstance(x, ast.Name):
            names.add(x.id)
    if len(names) != 1:
        r.undecided(where, "which variable is returned")
        return
    st = PyNonNeg(names.pop(), {"allow_negative_pixels": False, "n_iterations": 1, "remove_read_noise": 0})
    for label, first in (("after one iteration", True), ("after several iterations", False)):
        st.first = first
        st.last = None
        ok = st.block(f.body, False)
        key = "C11:py:remove:" + ("one" if first else "later")
        if st.clamps == 0:
            key = "C11:py:remove:none"
        r.check(ok, key, "%s:%d (remove_cti)" % (mod.rel, st.last or f.lineno), "Python removal returns no negative pixel %s when negatives are disallowed" % label)


class PyNonNeg:
    """is variable `name` certainly non-negative? forward walk with the given option values"""

    def __init__(self, name, env):
        self.name, self.env = name, env
        self.first = True
        self.last = None
        self.clamps = 0
        self.iter = set()

    def truth(self, t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            x = self.truth(t.operand)
            return None if x is None else not x
        if isinstance(t, ast.Name) and t.id in self.env:
            return bool(self.env[t.id])
        if isinstance(t, ast.BoolOp):
            xs = [self.truth(x) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in xs else (True if all(xs) and None not in xs else None)
            return True if True in xs else (False if all(x is False for x in xs) else None)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant):
            c = t.comparators[0].value
            if t.left.id in self.env:
                a = self.env[t.left.id]
            elif t.left.id in self.iter:
                a = 1 if self.first else 10**6
            else:
                return None
            ops = {ast.Eq: lambda: a == c, ast.NotEq: lambda: a != c, ast.Gt: lambda: a > c, ast.GtE: lambda: a >= c, ast.Lt: lambda: a < c,
                   ast.LtE: lambda: a <= c, ast.Is: lambda: a is c, ast.IsNot: lambda: a is not c}
            o = ops.get(type(t.ops[0]))
            return o() if o else None
        return None

    def isclamp(self, s):
        n = self.name
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t, v = s.targets[0], s.value
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == n and isinstance(t.slice, ast.Compare) \
                    and isinstance(t.slice.left, ast.Name) and t.slice.left.id == n and isinstance(t.slice.ops[0], (ast.Lt, ast.LtE)) \
                    and self.num(t.slice.comparators[0]) == 0 and (self.num(v) or 0) >= 0 and self.num(v) is not None:
                return True
            if isinstance(t, ast.Name) and t.id == n or isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == n and self.whole(t.slice):
                return self.clampcall(v)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            for k in s.value.keywords:
                if k.arg == "out" and any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(k.value)):
                    return self.clampcall(s.value)
        return False

    def whole(self, s):
        if isinstance(s, ast.Slice):
            return s.lower is None and s.upper is None and s.step is None
        if isinstance(s, ast.Tuple):
            return all(self.whole(x) for x in s.elts)
        return isinstance(s, ast.Constant) and s.value is Ellipsis

    def num(self, e):
        return e.value if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) else None

    def clampcall(self, v):
        if not isinstance(v, ast.Call) or not isinstance(v.func, ast.Attribute):
            return False
        a = v.func.attr
        if a in ("maximum", "fmax"):
            return any((self.num(x) is not None and self.num(x) >= 0) for x in v.args)
        if a == "clip":
            args = v.args if not (isinstance(v.func.value, ast.Name) and v.func.value.id == self.name) else [None] + v.args
            lo = args[1] if len(args) > 1 else next((k.value for k in v.keywords if k.arg in ("a_min", "min")), None)
            return lo is not None and self.num(lo) is not None and self.num(lo) >= 0
        if a == "where" and len(v.args) == 3 and isinstance(v.args[0], ast.Compare):
            return isinstance(v.args[0].ops[0], (ast.Lt, ast.LtE)) and self.num(v.args[1]) == 0 or \
                isinstance(v.args[0].ops[0], (ast.Gt, ast.GtE)) and self.num(v.args[2]) == 0
        return False

    def writes(self, s):
        n = self.name
        ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign)) else []
        for t in ts:
            for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                while isinstance(x, (ast.Subscript, ast.Attribute, ast.Starred)):
                    if isinstance(x, ast.Attribute):
                        x = None
                        break
                    x = x.value
                if isinstance(x, ast.Name) and x.id == n:
                    return True
        return False

    def block(self, body, st):
        for s in body:
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if self.isclamp(s):
            self.clamps += 1
            return True
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and self.writes(s):
            self.last = s.lineno
            return False
        if isinstance(s, ast.If):
            t = self.truth(s.test)
            if t is True:
                return self.block(s.body, st)
            n0 = self.clamps
            if t is False:
                # still note clamps that exist
                for x in ast.walk(ast.Module(body=s.body, type_ignores=[])):
                    if isinstance(x, ast.stmt) and self.isclamp(x):
                        self.clamps += 1
                return self.block(s.orelse, st)
            a, b = self.block(s.body, st), self.block(s.orelse, st)
            return a and b
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name):
                self.iter.add(s.target.id)
            st2 = self.block(s.body, st)
            return st2
        if isinstance(s, ast.With):
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            return self.block(s.body, st)
        return st
