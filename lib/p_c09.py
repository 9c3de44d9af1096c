"""C09: serial clocking is parallel clocking of the transposed image, after parallel."""
import front, vg
from terms import *
from p_c17 import short

CLOCK = "clock_charge_in_one_direction"
FREE = ("print", "verbos", "iteration")


def swapname(n):
    if n.startswith("parallel_"):
        return "serial_" + n[9:]
    if n.startswith("serial_"):
        return "parallel_" + n[7:]
    return n


def swap(t, memo=None):
    """exchange the roles of the parallel_* and serial_* parameters in a term"""
    memo = {} if memo is None else memo
    if t.id in memo:
        return memo[t.id]
    if t.op == "parg":
        r = mk("parg", swapname(t.a[0]), *t.a[1:])
    elif t.op == "param":
        r = mk("param", swapname(t.a[0]))
    elif t.op == "init":
        def go(x):
            if isinstance(x, T):
                return swap(x, memo)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        r = mk("init", *[go(x) for x in t.a])
    else:
        r = rebuild(t, lambda x: swap(x, memo))
    memo[t.id] = r
    return r


def run(r):
    r.rule = ("value graph of add_cti with single-direction clocking and transposition opaque: result = [if serial traps] transpose(clock("
              "transpose(P), serial options)) with P = [if parallel traps] clock(image, parallel options); the two argument lists and the "
              "two conditions are images of each other under exchanging parallel_* and serial_*")
    r.assume = ["transpose() is the matrix transpose and the clocking function itself treats rows and columns by role (C02, C22)",
                "arguments that only affect printing are free (C12)"]
    p = front.program()
    f = p.fn("add_cti") if not isinstance(p.fn("add_cti"), list) else None
    cands = [g for g in p.defined() if g["q"] == "add_cti" and front.rel(g).startswith("src/")]
    if not cands:
        raise front.AnalysisError("anchor vanished: no function add_cti")
    f = cands[0]
    clock = next((g for g in p.defined() if g["q"] == CLOCK), None)
    if clock is None:
        raise front.AnalysisError("anchor vanished: no function " + CLOCK)
    trans = {g["id"] for g in p.defined() if g["q"].split("::")[-1] == "transpose"}

    def oncall(v, n, g, this, args, s):
        if g["id"] in trans:
            a = args[0] if isinstance(args[0], T) else v.rd(s, args[0])
            return tr(a)
        if g.get("cls") is None and g["q"].startswith("print"):
            return vg.VOID
        return None

    def tr(a):
        if a.op == "transposed":
            return a.a[0]
        if a.op == "ite":
            return ite(a.a[0], tr(a.a[1]), tr(a.a[2]))
        return mk("transposed", a)
    v = vg.VG(p, opaque=lambda g: g["id"] == clock["id"], on_call=oncall)
    v.fastloops = True
    ret, st, fr = v.run(f)
    w = front.loc(f)
    for x in v.unk or []:
        r.undecided(front.loc(x[1]) if isinstance(x[1], dict) else w, "statement not resolved")
    image = mk("init", (mk("param", "image_in"),))
    names = {q["n"] for q in f["params"]}
    if not any(q["n"] == "image_in" for q in f["params"]):
        image = mk("init", (mk("param", f["params"][0]["n"]),))
    iscall = lambda t: t.op == "call" and t.a[0] == clock["id"]
    calls = list({c.id: c for c in atoms(ret, iscall)}.values())
    # nested calls: the inner image
    allc = {}
    todo = list(calls)
    while todo:
        c = todo.pop()
        if c.id in allc:
            continue
        allc[c.id] = c
        for a in c.a[2]:
            todo += atoms(a, iscall)
    kinds = [q["n"] for q in clock["params"]]
    imgpos = 0

    def direction(c):
        d = {"parallel": 0, "serial": 0}
        for i, a in enumerate(c.a[2]):
            for x in atoms(a, lambda t: t.op in ("parg", "param")):
                for k in d:
                    if x.a[0].startswith(k + "_") and i != imgpos and "window" not in x.a[0]:
                        d[k] += 1
        return max(d, key=d.get)

    sers = [c for c in allc.values() if direction(c) == "serial"]
    pars = [c for c in allc.values() if direction(c) == "parallel"]
    r.count("clocking_calls", len(allc))
    if not r.check(bool(sers) and bool(pars), "C09:calls", w, "one clocking of the image for parallel and one for serial (%d, %d)" % (len(pars), len(sers))):
        return
    # distinct option lists per direction
    opts = {}
    for lab, cs in (("parallel", pars), ("serial", sers)):
        ls = {tuple(a.id for i, a in enumerate(c.a[2]) if i != imgpos) for c in cs}
        r.check(len(ls) == 1, "C09:one:%s" % lab, w, "all %s clocking uses the same options" % lab)
        opts[lab] = cs[0].a[2]
    pa, sa = opts["parallel"], opts["serial"]
    for i, q in enumerate(kinds):
        if i == imgpos or any(x in q for x in FREE):
            continue
        want = swap(pa[i])
        r.check(sa[i] is want, "C09:arg:%s" % q, w, "option %s: serial %s plays the role parallel %s plays" % (q, short(sa[i]), short(pa[i])))
        other = [x.a[0] for x in atoms(pa[i], lambda t: t.op in ("parg", "param")) if x.a[0].startswith("serial_") and "window" not in x.a[0]]
        r.check(not other, "C09:mix:%s" % q, w, "option %s of parallel clocking is not a serial option (%s)" % (q, short(pa[i])))
    # structure
    sw = lambda q: ite_free(q)
    SG, PG = guardof(ret, sers, iscall), None
    T0 = ret
    # parallel only / serial only / both / none
    pn = [n for n in names if n.startswith("parallel_traps")]
    sn = [n for n in names if n.startswith("serial_traps")]
    if not pn or len(pn) != len(sn):
        r.undecided(w, "no trap arguments per direction")
        return
    null = {n: nullfact(n, ret) for n in pn + sn}

    def world(present):
        t = ret
        for n, (isn, notn) in null.items():
            if isn is None:
                continue
            t = given([notn if n in present else isn], t)
        return t

    def canonical(t):
        while t.op == "ite" and t.a[1] is t.a[2]:
            t = t.a[1]
        return t
    n = 0
    for i, a in enumerate([None] + pn):
        for b in [None] + sn:
            t = canonical(world({x for x in (a, b) if x}))
            par = mk("call", clock["id"], pars[0].a[1], (image,) + pa[1:]) if a else image
            want = par
            if b:
                want = tr(mk("call", clock["id"], sers[0].a[1], (tr(par),) + sa[1:]))
            want2 = mask(want, clock, kinds)
            t2 = mask(t, clock, kinds)
            n += 1
            lab = "%s, %s" % (a or "no parallel traps", b or "no serial traps")
            if t2 is want2:
                r.ok(w, "result with " + lab)
            elif atoms(t2, lambda x: x.op in ("unk", "ext", "rec")) or any(c.op == "ite" for c in [t2]) and not decided(t2):
                r.undecided(w, "result with %s: %s" % (lab, short(t2)))
            else:
                r.bad("C09:result:%s:%s" % (bool(a), bool(b)), w, "with %s the result is %s, expected %s" % (lab, short(t2), short(want2)))
    r.count("trap_combinations", n)


def decided(t):
    """the top condition depends on trap presence only, so a different result is a definite mismatch"""
    return all(x.a[0].startswith(("parallel_", "serial_")) for x in atoms(t.a[0], lambda y: y.op == "parg"))


def mask(t, clock, kinds):
    """drop printing-only arguments"""
    if t.op == "call" and t.a[0] == clock["id"]:
        return mk("call", t.a[0], t.a[1], tuple(num(0) if any(x in k for x in FREE) else mask(a, clock, kinds)
                                                for k, a in zip(kinds, t.a[2])))
    return rebuild(t, lambda x: mask(x, clock, kinds)) if t.a and t.op not in ("init", "parg", "param", "num") else t


def ite_free(t):
    return t


def guardof(ret, cs, iscall):
    return None


def nullfact(name, ret):
    """(condition 'is null', condition 'is not null') as they occur in the result"""
    def has(t):
        return any(x.a[0] == name for x in atoms(t, lambda y: y.op in ("parg", "param")))
    seen = {}

    def go(t):
        if t.id in seen:
            return
        seen[t.id] = t
        if t.op in ("eq0", "not", "isnull", "null?", "ne0") and has(t):
            conds.append(t)
        for x in subs(t):
            go(x)
    conds = []
    go(ret)
    for c in conds:
        if c.op != "not":
            inner = lnot(c)
            if len(atoms(c, lambda y: y.op in ("parg", "param"))) == 1:
                return (c, inner) if c.op != "ne0" else (inner, c)
    return (None, None)
