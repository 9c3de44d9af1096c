"""C10: CTI removal inverts exactly the forward model it was given."""
import ast
import front, removal, pysrc, pyvg
from terms import *
from p_c17 import short

FREE = {"verbosity", "iteration"}      # affect printing only (C12)


def run(r):
    prog = front.program()
    r.rule = ("value graph of the removal loop with the forward model opaque: recurrence started from the input image, run n_iterations "
              "times, step estimate + input - model(estimate), the model called with every caller option under its own name")
    r.assume += ["real arithmetic (rounding ignored)", "the arguments named verbosity and iteration affect printing only (property C12)"]
    cpp(r, prog)
    py(r)


def cpp(r, prog):
    R = removal.Removal(prog)
    w = front.loc(R.f)
    for u in R.unresolved:
        r.undecided(u, "loop or statement not resolved")
    t = given([lnot(R.allow)], R.ret)
    nit = mk("parg", "n_iterations", "i")
    image = mk("init", (mk("param", "image_in"),))
    # an early return of the input for no iterations is the same thing
    while t.op == "ite" and (t.a[1] is image or t.a[2] is image):
        c, o = (t.a[0], t.a[2]) if t.a[1] is image else (lnot(t.a[0]), t.a[1])
        ok = o.op == "rec" and implied([c], lnot(cmp0("gt0", o.a[0], True)))
        if not ok:
            break
        t = o
    if t.op != "rec":
        if R.unresolved:
            return
        r.bad("C10:cpp:loop", w, "removal is not an iteration of estimate + input - model(estimate): " + short(t))
        return
    trip, bodies, inits = t.a
    r.check(trip is nit, "C10:cpp:trip", w, "number of removal iterations is n_iterations (%s)" % short(trip))
    r.check(inits[0] is image, "C10:cpp:init", w, "the first estimate is the input image (%s)" % short(inits[0]))
    rv = mk("rv", 0)
    calls = atoms(bodies[0], R.isfwd)
    calls = list({c.id: c for c in calls}.values())
    r.check(len(calls) == 1, "C10:cpp:model", w, "one forward model per iteration (%d found)" % len(calls))
    if len(calls) != 1:
        return
    call = calls[0]
    step(r, R, R.settle(t), rv, image, call, w, [lnot(R.allow)], None)
    t2 = given([R.allow], R.ret)
    if t2.op == "rec":
        c2 = list({c.id: c for c in atoms(t2.a[1][0], R.isfwd)}.values())
        if len(c2) == 1:
            r.check(t2.a[0] is nit, "C10:cpp:trip", w, "number of removal iterations is n_iterations when negatives are disallowed")
            step(r, R, R.settle(t2), rv, image, c2[0], w, [R.allow], True)
    # arguments
    for q, a in zip(R.fwd["params"], call.a[2]):
        n = q["n"]
        if n in FREE:
            continue
        if n.startswith("image"):
            r.check(a is rv, "C10:cpp:arg:%s" % n, w, "the forward model is applied to the current estimate (%s)" % short(a))
            continue
        want = n in R.params
        if not want:
            r.undecided(w, "forward-model parameter %s has no namesake in remove_cti" % n)
            continue
        good = a.op == "parg" and a.a[0] == n or a is mk("init", (mk("param", n),))
        r.check(good, "C10:cpp:arg:%s" % n, w, "forward model's %s is the caller's %s in every iteration (it is %s)" % (n, n, short(a)))
    # no option is ignored
    used = {a.a[0] for a in call.a[2] if a.op == "parg"}
    r.count("forward_model_arguments", len(call.a[2]))


def isrow(t, mats):
    return t.op == "sel" and t.a[0].id in mats or t.op in ("lam", "map", "store", "fill")


def pick(t, j, mats):
    """element j of a row, an elementwise expression of rows being taken element by element"""
    if t.op == "poly":
        def at(x):
            return numeric(pick(x, j, mats))
        out = num(0)
        for mo, c in monos(t):
            m = num(c)
            for a, p in mo:
                x = at(a) if atoms(a, lambda y: isrow(y, mats)) else a
                for _ in range(abs(p)):
                    m = mul(m, x) if p > 0 else div(m, x)
            out = add(out, m)
        return out
    if t.op == "ite":
        return ite(t.a[0], pick(t.a[1], j, mats), pick(t.a[2], j, mats))
    return spread(sel(t, j), mats)


def spread(t, mats):
    """every element of an elementwise expression of rows written as that expression of elements"""
    if t.op == "sel" and t.a[0].op == "poly":
        return pick(t.a[0], t.a[1], mats)
    return rebuild(t, lambda x: spread(x, mats)) if t.a and t.op not in ("init", "sym", "bv", "parg", "call") else t


def step(r, R, body, rv, image, call, w, facts, clamp):
    v = R.v
    n = v.length(body)
    i = fresh("row", n)
    RANGE[i.id] = n
    row = sel(body, i)
    m = v.length(row)
    j = fresh("col", m)
    RANGE[j.id] = m
    mats = {x.id for x in (rv, image, call)}
    e = given(facts, pick(row, j, mats))
    at = lambda x: sel(sel(x, i), j)
    want = sub(add(numeric(at(rv)), numeric(at(image))), numeric(at(call)))
    if clamp:
        e = given(facts + [cmp0("ge0", want, False)], e)
        e = given([lnot(cmp0("gt0", neg(want), False))], e)
    what = "new estimate is estimate + input - model(estimate)" + (" wherever that is not negative" if clamp else "")
    if e is want or val(sub(numeric(e), want)) == 0:
        r.ok(w, what)
    elif atoms(e, lambda y: y.op in ("loopout", "loopret", "unk", "ext")):
        r.undecided(w, what)
    else:
        r.bad("C10:cpp:step", w, "%s: it is %s" % (what, short(e)))


def py(r):
    mod = pysrc.module("cti")
    f = mod.function("remove_cti")
    g = mod.function("add_cti")
    where = lambda n: "%s:%d (remove_cti)" % (mod.rel, n.lineno)
    fold = {"remove_read_noise": 0, "vv_test": False}
    v = pyvg.PyVG(mod, fold=dict(fold, allow_negative_pixels=True))
    v.run(f)
    loops = [e for e in v.events if e["what"] == "loop" and any(x["what"] == "call" and x["name"] == "add_cti" for x in v.events if (e["k"]) in [k for k, _ in x["loops"]])]
    calls = [e for e in v.events if e["what"] == "call" and e["name"] == "add_cti"]
    r.check(len(calls) == 1 and len(loops) == 1, "C10:py:model", where(f), "one forward model in one removal loop (%d calls)" % len(calls))
    if len(calls) != 1 or len(loops) != 1:
        return
    L, C = loops[0], calls[0]
    nit = mk("parg", "n_iterations", "py")
    r.check(L["trip"] is not None and val(sub(L["trip"], nit)) == 0, "C10:py:trip", where(L["node"]), "number of removal iterations is n_iterations (%s)" % short(L["trip"]))
    r.check(not L["jumps"], "C10:py:exit", where(L["node"]), "the removal loop has no early exit")
    r.check(not [c for c in C["pc"] if c is not TRUE], "C10:py:cond", where(C["node"]), "the forward model is run in every iteration")
    bound = pyvg.bind_args(g, C["args"], C["kw"], v)
    image = mk("parg", "image", "py")
    est = bound.get("image")
    good = est is not None and est.op == "lv"
    r.check(good, "C10:py:arg:image", where(C["node"]), "the forward model is applied to the current estimate (%s)" % short(est))
    mine = set(pyvg.params(f))
    for n in pyvg.params(g):
        if n in ("image", "verbosity", "iteration", "vv_test", "header"):
            continue
        a = bound.get(n)
        if n not in mine:
            continue
        want = num(1) if n == "allow_negative_pixels" else mk("parg", n, "py")
        r.check(a is want, "C10:py:arg:%s" % n, where(C["node"]), "forward model's %s is the caller's %s in every iteration (it is %s)" % (n, n, short(a)))
    r.count("python_forward_arguments", len(bound))
    if not good:
        return
    name = est.a[1]
    r.check(L["init"].get(name) is image, "C10:py:init", where(L["node"]), "the first estimate is the input image (%s)" % short(L["init"].get(name)))
    end = L["end"].get(name)
    want = sub(add(est, image), C["res"])
    ok = end is not None and val(sub(numeric(end), want)) == 0
    r.check(ok, "C10:py:step", where(L["node"]), "new estimate is estimate + input - model(estimate) (it is %s)" % short(end))
    # what is returned is the last estimate
    rec = mk("pyrec", L["ln"], name, L["trip"])
    rets = [x for x in v.rets]
    for c, x, env, n in rets:
        y = x
        if y.op == "pycall" and y.a[2]:
            y = y.a[2][0]
        r.check(y is rec, "C10:py:return", where(n), "the last estimate is returned (%s)" % short(y))
