"""C14: trap occupancy levels never outgrow the arrays that hold them.

Three links, each decided on the code as it stands:
 1. growth: one release-and-capture step, entered with any number of levels that leaves room for one more transfer,
    reads and writes inside the arrays on every path and moves the end of the levels up by no more than the
    number the class reserves per transfer (path-wise abstract execution, exact linear facts);
 2. storage: construction and setup give the arrays a size from which that room follows for every transfer;
 3. transfers: the number handed to the constructors covers every transfer between two resets, for each kind of
    clocking, with and without emptying the traps between columns."""
import sys
import front
import parts
import shapes
from shapes import *
from terms import *

STEP = "n_electrons_released_and_captured"
MAKE, SAVE = "set_express_matrix_from_rows_and_express", "set_store_trap_states_matrix"
VOL, FILL, FIRST, ACTIVE = "watermark_volumes", "watermark_fills", "i_first_active_wmk", "n_active_watermarks"


def sym(n):
    return mk("isym", n, 0)


NT = sym("n_traps")
M = sym("max_n_transfers")


def key(n):
    return ("f", "this", n)


def split(g, a):
    """g = q * a + r"""
    q, r = {}, {}
    for m, c in monos(g):
        d = dict(m)
        if d.get(a, 0) >= 1:
            d[a] -= 1
            q[tuple((x, k) for x, k in sorted(d.items(), key=lambda y: y[0].id) if k)] = c
        else:
            r[m] = c
    return poly(q), poly(r)


def holds(E, st, g, depth=0):
    """g >= 0, also when it is level * n_traps + trap"""
    if E.proves(st, g):
        return True
    if depth > 2:
        return False
    q, r = split(g, NT)
    if not monos(q):
        return False
    for c in (0, 1, -1, 2):
        if E.proves(st, add(r, mul(num(c), NT))) and holds(E, st, sub(q, num(c)), depth + 1):
            return True
    return False


def products(st, atoms_, extra=()):
    """the facts, also multiplied by numbers that are not negative"""
    fs = list(st.lin) + list(extra)
    out = list(fs)
    for f in fs:
        if len(monos(f)) > 4 or any(a.op != "isym" for m, c in monos(f) for a, p in m):
            continue
        for i, a in enumerate(atoms_):
            out.append(mul(f, a))
            for b in atoms_[i:]:
                out.append(mul(mul(f, a), b))
    return tuple(dict.fromkeys(out))


class Exec14(Exec):
    """also notes what trap managers are constructed with"""
    made = stop = None

    def ctor(self, e, s):
        outs = Exec.ctor(self, e, s)
        if self.made is not None and "TrapManager" in (e.get("ty") or "") and not isarr(e.get("ty")) and len(e.get("args") or []) > 1:
            for vs, x in self.evs(e["args"], s):
                self.made.append((e, vs, x, self.where(e)))
            if self.stop == e.get("ty"):
                return []
        return outs


def owner(f):
    return f["q"].rsplit("::", 1)[0]


def managers(prog):
    return sorted((f for f in prog.funcs.values() if f.get("b") and f["q"].split("::")[-1] == STEP), key=lambda f: f["q"])


def mine(f):
    return "TrapManager" in f["q"].split("::")[0]


def contract(E, e, s):
    """what is shown separately of two helpers"""
    b = (e.get("f") or "").split("::")[-1]
    if b not in E.shown:
        return None
    out = []
    for vs, x in E.evs(e["args"], s):
        x = x.copy()
        if b == "watermark_index_above_cloud":
            a, n = E.num_(x.env.get(key(FIRST))), E.num_(x.env.get(key(ACTIVE)))
            if a is None or n is None:
                return None
            i = isym("above")
            E.seen.add(i)
            x.lin += (sub(i, a), sub(add(a, n), i))
            out.append((i, x))
        else:
            i = E.num_(vs[0])
            E.need("index", e, "the level handed to " + b, [i, sub(sub(E.size, num(1)), i)] if i is not None else None, x)
            out.append((E.dbl(), x))
    return out


def fresh(prog, size, shown=(), room=None):
    E = Exec14(prog, contract, inline=mine, join_at=8)
    E.shown, E.seen, E.size = set(shown), set(), size
    i0, n = sym("first"), sym("levels")
    s = S(lin=(i0, n, sub(NT, num(1)), sub(M, num(1))))
    if room is not None:
        s.lin += (sub(room, add(i0, n)),)
    e = s.env
    e[key(VOL)], e[key(FILL)] = A(size), A(mul(size, NT))
    for x in ("traps", "trap_densities", "empty_probabilities_from_release", "fill_probabilities_from_empty", "fill_probabilities_from_full"):
        e[key(x)] = A(NT)
    e[key("n_traps")], e[key(FIRST)], e[key(ACTIVE)], e[key("max_n_transfers")] = NT, i0, n, M
    e[key("n_watermarks")] = size
    return E, s, i0, n


ARRAYS = (VOL, FILL, "the level handed to")


def judge(r, E, f, goals_of=None):
    """accesses to the arrays of levels"""
    by = {}
    for kind, where, what, goals, st, stack, line in E.obl:
        if what.split(".")[-1].startswith(ARRAYS):
            by.setdefault((kind, where, what), []).append((goals, st))
    inputs = {sym("first"), sym("levels"), NT, M, sym("level")} | E.seen
    for (kind, where, what), l in by.items():
        open_, wit = 0, None
        for goals, st in l:
            if goals is not None and all(holds(E, st, g) for g in goals):
                continue
            open_ += 1
            if wit is None and goals is not None and open_ <= 12 and E.tries < 60:
                E.tries += 1
                wit = witness(E, st, goals, inputs, -1, 6, True)
        r.count("accesses")
        name = what.replace("this.", "")
        if not open_:
            r.ok(where, "%s of %s stays inside on %d paths" % ({"index": "subscript", "slice": "slice"}.get(kind, kind), name, len(l)))
        elif wit:
            r.bad("C14:%s:%s:%s" % (where.split("(")[-1].rstrip(")"), kind, name), where, "%s of %s leaves the array with %s" % (kind, name, wit))
        else:
            r.undecided(where, "%s of %s: %d of %d paths" % (kind, name, open_, len(l)))


def construct(E, prog, f, vals, s, depth=0):
    """run constructor f (base first) with numbers for its parameters; [state] """
    s = s.copy()
    for p, v in zip(f["params"], vals):
        s.env[("v", p["id"], p["n"])] = v
    states = [s]
    E.stack.append((f, "this"))
    for i in f.get("inits") or []:
        nxt = []
        for x in states:
            if i.get("base"):
                g = prog.funcs.get(i["e"].get("id"))
                if g is None or depth > 4:
                    nxt.append(x)
                    continue
                for vs, y in E.evs(i["e"].get("args") or [], x):
                    nxt += construct(E, prog, g, [E.load(v, y) for v in vs], y, depth + 1)
            elif i.get("field") and i.get("e") is not None and i["e"].get("t") in ("i", "u", "b"):
                for v, y in E.ev(i["e"], x):
                    nxt.append(E.put(y, key(i["field"]), E.load(v, y)))
            elif i.get("field") and i.get("e") is not None and isarr(i["e"].get("ty")):
                for v, y in E.ev(i["e"], x):
                    nxt.append(E.put(y, key(i["field"]), E.load(v, y)))
            else:
                nxt.append(x)
        states = nxt
    out = []
    for o in E.block(f["b"], states) if f.get("b") else [("next", x) for x in states]:
        if o[0] in ("next", "ret"):
            out.append(o[1])
    E.stack.pop()
    return out


def ctor_of(prog, cls):
    l = [f for f in prog.funcs.values() if f.get("b") and f["q"] == cls + "::" + cls.split("::")[-1] and len(f["params"]) > 1]
    return l[0] if len(l) == 1 else None


def storage(prog, cls):
    """(levels reserved per transfer, size of the array of volumes, numbers per level), or a reason"""
    f = ctor_of(prog, cls)
    setup = [g for g in prog.funcs.values() if g.get("b") and g["q"] == cls + "::setup"]
    if f is None or len(setup) != 1:
        return "constructor or setup of " + cls
    E = Exec14(prog, inline=lambda g: mine(g), join_at=8)
    vals = []
    for p in f["params"]:
        if isarr(p["ty"].replace("const ", "").rstrip("& ")):
            vals.append(A(NT))
        elif p.get("t") in ("i", "u") or p["ty"] == "int":
            vals.append(M)
        else:
            vals.append(None)
    if vals.count(M) != 1:
        return "parameters of " + f["q"]
    s = S(lin=(sub(M, num(1)), sub(NT, num(1))))
    res = set()
    for x in construct(E, prog, f, vals, s):
        for v, y in E.run(setup[0], {}, x, "this"):
            per = y.env.get(key("n_watermarks_per_transfer"))
            a, b = y.env.get(key(VOL)), y.env.get(key(FILL))
            if not isinstance(a, A) or not isinstance(b, A) or E.num_(y.env.get(key("max_n_transfers"))) is not M:
                return "sizes set by %s::setup" % cls
            res.add((per if isinstance(per, T) else None, a.len, b.len))
    if not 1 <= len(res) <= 4:
        return "sizes set by %s::setup" % cls
    return sorted(res, key=str)


def manager(r, prog, f):
    cls = owner(f)
    w = front.loc(f, f["b"])
    st = storage(prog, cls)
    if isinstance(st, str):
        r.undecided(w, st)
        return
    for per, size, fills in st:
        sized(r, prog, f, cls, w, size, fills)


def sized(r, prog, f, cls, w, size, fills):
    step = subst(size, {M.id: add(M, num(1))}, {})
    step = sub(step, size)
    k = val(step)
    if k is None or any(a is not M for m, c in monos(size) for a, p in m):
        r.undecided(w, "the arrays have %s levels" % show(size))
        return
    g = ctor_of(prog, cls)
    if fills is mul(size, NT):
        r.ok(front.loc(g, g["b"]), "%s: arrays of %s levels, n_traps numbers each, after construction and setup" % (cls, show(size)))
    else:
        E, s, i0, n = fresh(prog, size)
        d = sub(fills, mul(size, NT))
        if E.proves(s, d):
            r.ok(front.loc(g, g["b"]), "%s: room for n_traps numbers per level" % cls)
        elif witness(E, s, [d], {NT, M, sym("first"), sym("levels")}, 0, 6, True):
            r.bad("C14:%s:fills" % cls, front.loc(g, g["b"]), "the fill fractions have %s numbers for %s levels of n_traps" % (show(fills), show(size)))
        else:
            r.undecided(front.loc(g, g["b"]), "the fill fractions have %s numbers" % show(fills))
    # before the last transfer at most k levels were added by each of the others
    room = mul(num(k), sub(M, num(1)))
    verified = []
    # helpers
    for q in ("watermark_index_above_cloud", "n_electrons_released_from_wmk_above_cloud"):
        hs = [h for h in prog.funcs.values() if h.get("b") and h["q"].split("::")[-1] == q and owner(h) in (cls, "TrapManagerBase")]
        hs = [h for h in hs if owner(h) == cls] or hs
        if len(hs) != 1 or len(hs[0]["params"]) != 1:
            continue
        h = hs[0]
        E, s, i0, n = fresh(prog, size, (), sub(size, num(1)))
        if q.startswith("watermark_index"):
            outs = E.run(h, {}, s, "this")
            good = bool(outs) and all(E.num_(v) is not None and holds(E, t, sub(v, i0)) and holds(E, t, sub(add(i0, n), v)) for v, t in outs)
        else:
            i = sym("level")
            s.lin += (i, sub(sub(size, num(1)), i))
            E.run(h, {h["params"][0]["n"]: i}, s, "this")
            good = True
        judge(r, E, h)
        if good and not E.overflow:
            verified.append(q)
            r.ok(front.loc(h, h["b"]), "%s: %s" % (cls, "the level above the cloud is between the first level and one past the last" if q.startswith("watermark_index") else "reads inside the arrays for every level of theirs"))
        else:
            r.undecided(front.loc(h, h["b"]), "result of %s in %s" % (q, cls))
    # one transfer
    E, s, i0, n = fresh(prog, size, verified, room)
    outs = E.run(f, {}, s, "this")
    for l in E.lost[:3]:
        r.undecided(w, l)
    if E.overflow:
        r.undecided(w, "too many paths")
    judge(r, E, f)
    ends(r, E, outs, f, i0, n, num(k), "one transfer raises the end of the levels by at most %s, what is reserved per transfer" % k)
    # pruning
    for h in prog.funcs.values():
        if h.get("b") and h["q"].split("::")[-1] == "prune_watermarks" and owner(h) in (cls, "TrapManagerBase"):
            E, s, i0, n = fresh(prog, size, verified, sub(size, num(1)))
            outs = E.run(h, {}, s, "this")
            judge(r, E, h)
            ends(r, E, outs, h, i0, n, num(0), "pruning does not raise the end of the levels")
    # what only reads
    for h in sorted(prog.funcs.values(), key=lambda h: h["q"]):
        if h.get("b") and owner(h) == "TrapManagerBase" and h["q"].split("::")[-1] in ("n_trapped_electrons_total", "n_trapped_electrons_per_watermark", "n_trapped_electrons_in_watermark"):
            E, s, i0, n = fresh(prog, size, verified, sub(size, num(1)))
            a = {}
            if h["params"]:
                i = sym("level")
                s.lin += (i, sub(sub(size, num(1)), i))
                a = {h["params"][0]["n"]: i}
            E.run(h, a, s, "this")
            judge(r, E, h)


def ends(r, E, outs, f, i0, n, k, text):
    w = front.loc(f, f["b"])
    open_, wit = 0, None
    for v, t in outs:
        a, b = E.num_(t.env.get(key(FIRST))), E.num_(t.env.get(key(ACTIVE)))
        if a is None or b is None:
            open_ += 1
            continue
        goals = [a, b, sub(add(add(i0, n), k), add(a, b))]
        if all(holds(E, t, g) for g in goals):
            continue
        open_ += 1
        if wit is None and open_ <= 12:
            wit = witness(E, t, goals, {i0, n, NT, M} | E.seen, -1, 6, True)
    r.count("paths", len(outs))
    if not open_ and outs:
        r.ok(w, "%s: %s, on %d paths" % (f["q"], text, len(outs)))
    elif wit:
        r.bad("C14:%s:growth" % f["q"], w, "not so: %s, with %s" % (text, wit))
    else:
        r.undecided(w, "%s: %d of %d paths" % (text, open_, len(outs)))


# ------------------------------------------------------------------ transfers
def handed(r, prog):
    """what the manager of managers hands to each trap manager: transfers times steps"""
    fs = [f for f in prog.funcs.values() if f.get("b") and f["q"] == "TrapManagerManager::TrapManagerManager" and len(f["params"]) > 3]
    if len(fs) != 1:
        r.undecided("src/trap_managers.cpp", "constructor of the trap managers")
        return
    f = fs[0]
    E = Exec14(prog, inline=lambda g: mine(g) and g["q"] != f["q"] and "::" not in g["q"], join_at=4)
    E.made, E.seen = [], set()
    steps = sym("n_steps")
    vals = []
    for p in f["params"]:
        ty = p["ty"].replace("const ", "").rstrip("& ")
        if ty == "std::valarray<double>":
            vals.append(A(steps))
        elif isarr(ty):
            l = isym("n_" + p["n"])
            vals.append(A(l))
        elif p["ty"] == "int":
            vals.append(M)
        else:
            vals.append(None)
    if vals.count(M) != 1 or sum(isinstance(v, A) and v.len is steps for v in vals) != 1:
        r.undecided(front.loc(f, f["b"]), "parameters of " + f["q"])
        return
    s = S(lin=(sub(M, num(1)), sub(steps, num(1))))
    construct(E, prog, f, vals, s)
    seen = {}
    for e, vs, x, where in E.made:
        g = prog.funcs.get(e.get("id"))
        if g is None:
            continue
        # the number that ends up in the manager
        E2 = Exec14(prog, inline=lambda h: False)
        y = S(lin=x.lin)
        c = construct(E2, prog, g, [v if isinstance(v, T) else None for v in (E.load(v, x) for v in vs)], y)
        got = {E2.num_(z.env.get(key("max_n_transfers"))) for z in c}
        seen.setdefault((where, e["ty"]), []).append((got.pop() if len(got) == 1 else None, x))
    for (where, ty), l in sorted(seen.items()):
        open_, wit = 0, None
        for v, x in l:
            if v is not None and prod(E, x, sub(v, mul(M, steps)), [M, steps]):
                continue
            open_ += 1
            if v is not None and wit is None:
                y = x.copy()
                free = {M, steps} | {a for m, c in monos(v) for a, p in m if a.op == "isym"}
                y.lits, y.lin = (), tuple(g for g in x.lin if all(a in free for m, c in monos(g) for a, p in m))
                wit = witness(E, y, [sub(v, mul(M, steps))], free, 1, 6, True)
        if not open_:
            r.ok(where, "%s: storage for every transfer in every step of the clock sequence" % ty)
        elif wit:
            r.bad("C14:%s:steps" % ty, where, "%s: storage for fewer than max_n_transfers * n_steps transfers, with %s" % (ty, wit))
        else:
            r.undecided(where, "%s: number of transfers handed over" % ty)
    if not seen:
        r.undecided(front.loc(f, f["b"]), "no trap manager is constructed")


def prod(E, s, g, ats):
    if E.proves(s, g):
        return True
    t = s.copy()
    t.lin = products(s, ats)
    return E.proves(t, g)


def clock_contract(E, e, s):
    b = (e.get("f") or "").split("::")[-1]
    if b == MAKE:
        out = []
        for vs, x in E.evs(e["args"], s):
            x = x.copy()
            o = E.place(e["obj"], x)
            P = sym("passes")
            n = E.num_(vs[0])
            x.env[("f", o, "express_matrix")] = A(mul(P, n if n is not None else isym("rows")))
            x.env[("f", o, "n_express_passes")] = P
            x.lin += (sub(P, num(1)),)
            out.append((None, x))
        return out
    return None


def pumping(prog):
    """the code of the clocking that keeps its states from one pass to the next"""
    l = [f for f in prog.funcs.values() if f.get("b") and f["q"] == "ROETrapPumping::ROETrapPumping"]
    for f in l:
        E = Exec(prog, inline=lambda g: False)
        ts = {E.num_(t.env.get(key("type"))) for v, t in E.run(f, {}, S(), "this")}
        t = ts.pop() if len(ts) == 1 else None
        if t is not None and val(t) is not None:
            return val(t)
    return None


def transfers(r, prog):
    k = pumping(prog)
    users = [f for f in prog.funcs.values() if f.get("b") and "TrapManager" not in f["q"]
             and any(x.get("k") == "ctor" and x.get("ty") == "TrapManagerManager" and len(x.get("args") or []) > 3 for x in front.walk(f["b"]))]
    if k is None or not users:
        r.undecided("src/cti.cpp", "construction of the trap managers")
        return
    for f in sorted(users, key=lambda f: f["q"]):
        makes = lambda x: x.get("k") == "ctor" and x.get("ty") == "TrapManagerManager" and len(x.get("args") or []) > 3
        for pump in (False, True):
            for empty in (True, False):
                scenario(r, prog, f, makes, k, pump, empty)


def scenario(r, prog, f, makes, code, pump, empty):
    E = Exec14(prog, clock_contract, inline=lambda g: "TrapManager" not in g["q"] and g["q"].split("::")[-1] not in (MAKE, SAVE) and g.get("file") == f.get("file"), join_at=16)
    E.made, E.seen = [], set()
    s = S()
    args, shape = {}, {}
    rows = cols = None
    for p in f["params"]:
        ty = p["ty"].replace("const ", "")
        if ty.count("valarray<") == 2 and rows is None:
            rows, cols = sym("rows"), sym("columns")
            args[p["n"]] = A(rows, inner=A(cols))
            s.lin += (sub(rows, num(1)), sub(cols, num(1)))
        elif p.get("t") in ("i", "u") or ty in ("int", "unsigned int"):
            args[p["n"]] = shape[p["n"]] = sym(p["n"])
    need = ("row_start", "row_stop", "column_start", "column_stop", "row_offset")
    w = front.loc(f, f["b"])
    if rows is None or any(n not in shape for n in need):
        r.undecided(w, "parameters of " + f["q"])
        return
    rs, re, cs, ce, off = (shape[n] for n in need)
    s.lin += (rs, cs, off, sub(sub(re, rs), num(1)), sub(rows, re), sub(sub(ce, cs), num(1)), sub(cols, ce))
    for n in ("verbosity", "print_inputs"):
        if n in shape:
            args[n] = num(0)
    # what is set for the readout electronics
    for x in front.walk(f["b"]):
        if x.get("k") == "mem" and x["n"] in ("type", "empty_traps_between_columns"):
            pl = E.place(x, s)
            if pl is not None:
                if x["n"] == "type":
                    s.env[pl] = num(code) if pump else num(code - 1)
                else:
                    s.env[pl] = mk("btrue", empty)
    E.stop = "TrapManagerManager"
    E.run(f, args, s)
    P = sym("passes")
    ra, ca = sub(re, rs), sub(ce, cs)
    req = ra
    if pump:
        req = mul(req, P)
    if not empty:
        req = mul(req, ca)
    name = "%s clocking, traps %s between columns" % ("trap-pumping" if pump else "standard", "emptied" if empty else "kept")
    l = []
    for e, vs, x, where in E.made:
        g = prog.funcs.get(e.get("id"))
        i = [j for j, p in enumerate(g["params"]) if p["ty"] == "int"] if g else []
        if (e.get("ty") or "") != "TrapManagerManager" or len(i) != 1:
            continue
        l.append((E.num_(E.load(vs[i[0]], x)), x, where))
    ats = [ra, off, P, ca, cols]
    inputs = {rows, cols, rs, re, cs, ce, off, P} | set(shape.values())
    open_, wit = 0, None
    for v, x, where in l:
        if v is not None and prod(E, x, sub(v, req), ats):
            continue
        open_ += 1
        if v is not None and wit is None and open_ < 4:
            y = x.copy()
            y.lits = ()
            wit = witness(E, y, [sub(v, req)], inputs, 0, 4, True, seconds=10)
    if not open_ and l:
        r.ok(l[0][2], "%s: room for every transfer between two resets (%d paths)" % (name, len(l)))
    elif wit:
        r.bad("C14:%s:transfers:%s:%s" % (f["q"], "pump" if pump else "clock", "empty" if empty else "keep"), l[0][2],
              "%s: storage for fewer transfers than happen between two resets, with %s" % (name, wit))
    else:
        r.undecided(w, "%s: %d of %d paths" % (name, open_, len(l)))


def run(r):
    sys.setrecursionlimit(20000)
    r.rule = "abstract execution of every transfer from any number of levels that leaves room for one more; sizes after construction and setup; number of transfers between resets"
    r.assume += ["at least one row, one column and one transfer; the window is not empty and inside the image; the offset is not negative",
                 "clocking other than trap pumping resumes saved states on rows it has not clocked since the last reset (the saving table)"]
    prog = front.program()
    fs = managers(prog)
    parts.run(r, [(manager, (prog, f)) for f in fs] + [(handed, (prog,)), (transfers, (prog,))])
    if not fs:
        r.undecided("src/trap_managers.cpp", "no release-and-capture step")
