"""C03: saving, restoring and emptying trap occupancy is exact and complete."""
import front, clocking, effects, vg
from terms import *
from p_c17 import short

WANT = ["setup", "restore", "exchange", "prune", "store", "reset", "store"]


def state_fields(prog, E, cls, fns):
    """fields of a manager that exchanging or pruning may change"""
    have = vg.class_fields(prog, cls)
    out = {}
    for f in fns:
        for path, (site, chain) in E.sum[f["id"]].items():
            if path[0] == ("T",) and path[1] and path[1][0] in have:
                out.setdefault(path[1][0], effects.chain_text(chain) if not isinstance(site, str) else site)
    return out, have


def isarray(ty):
    return "valarray" in ty or "vector" in ty


def unknown(t):
    return bool(atoms(t, lambda y: y.op in ("loopout", "loopret", "ext", "call", "rec", "unk", "uninit", "lv")))


def havoc(v, s, this, fields, have):
    for f in fields:
        p = this.f(f)
        if isarray(have[f]["ty"]):
            n = v.length(v.rd(s, p))
            k = fresh("k", n)
            v.wr(s, p, bind("lam", n, k, fn("changed_" + f, k)))
        else:
            v.wr(s, p, mk("sym", "changed_" + f))


def mkvg(prog, cls):
    v = vg.VG(prog, on_call=lambda v, n, g, this, args, s: vg.VOID if g["q"].startswith("print") else None)
    v.fastloops = True
    v.dyncls = cls
    return v


def run(r):
    prog = front.program()
    m = clocking.Model(prog)
    E = effects.Effects(prog)
    r.rule = ("for each trap-manager class: fields written by exchange/pruning (effect analysis) are returned to their exact prior values "
              "by save; change everything; restore, and to their freshly-built values by reset (value graphs of those methods); position, "
              "conditions and phases of every save/restore/reset in the clocking walk")
    for u in m.unresolved:
        r.undecided(u, "loop or statement not resolved")
    this = vg.Path(mk("this"))
    for k in m.kinds:
        fns = {}
        for e in m.events:
            if e.get("kind") is k and m.role(e):
                g = vg.method(prog, k.cls, e["op"])
                fns[m.role(e)] = g or e["fn"]
        where = lambda ro: front.loc(fns[ro]) + " for " + k.cls
        missing = [x for x in ("setup", "store", "restore", "reset", "exchange", "prune") if x not in fns]
        if missing:
            r.bad("C03:roles:%s:%s" % (k.cls, missing[0]), "%s (%s)" % (m.holder, k.field), "%s managers never take part in: %s" % (k.cls, ", ".join(missing)))
            continue
        mod, have = state_fields(prog, E, k.cls, [fns["exchange"], fns["prune"]])
        r.count("state_fields", len(mod))
        r.check(len(mod) > 0, "C03:mod:%s" % k.cls, where("exchange"), "exchange changes the occupancy fields " + ", ".join(sorted(mod)))
        # save, change, restore
        try:
            v = mkvg(prog, k.cls)
            s = vg.State()
            _, s, _ = v.run(fns["store"], this=this, state=s)
            before = {f: v.rd(vg.State(), this.f(f)) for f in mod}
            for f in mod:
                x = v.rd(s, this.f(f))
                if x is not before[f]:
                    (r.undecided if unknown(x) else lambda w, t: r.bad("C03:savechanges:%s" % f, w, t))(where("store"), "saving changes %s itself" % f)
            havoc(v, s, this, mod, have)
            _, s, _ = v.run(fns["restore"], this=this, state=s)
            for f in mod:
                x = v.rd(s, this.f(f))
                what = "%s (changed at %s) is exactly what it was when saved, whatever happened since" % (f, mod[f])
                if x is before[f] or same_array(v, x, before[f]):
                    r.ok(where("restore"), what)
                elif unknown(x):
                    r.undecided(where("restore"), what)
                else:
                    r.bad("C03:roundtrip:%s" % f, where("restore"), "after save, change and restore, %s is %s instead of its saved value" % (f, short(x)))
            # restoring twice gives the saved state again: the store survives a restore and what follows
            havoc(v, s, this, mod, have)
            _, s, _ = v.run(fns["restore"], this=this, state=s)
            for f in mod:
                x = v.rd(s, this.f(f))
                if x is before[f] or same_array(v, x, before[f]):
                    r.ok(where("restore"), "%s can be restored again from the same save" % f)
                elif unknown(x):
                    r.undecided(where("restore"), f)
                else:
                    r.bad("C03:again:%s" % f, where("restore"), "a second restore from the same save gives %s = %s" % (f, short(x)))
        except vg.NotHandled as ex:
            r.undecided(where("restore"), str(ex))
        # fresh, change, reset
        try:
            v = mkvg(prog, k.cls)
            s = vg.State()
            ctor = construct(prog, k.cls)
            if ctor is not None:
                _, s, _ = v.run(ctor, this=this, state=s)
            _, s, _ = v.run(fns["setup"], this=this, state=s)
            fresh_ = {f: v.rd(s, this.f(f)) for f in mod}
            # a restore before any save gives fresh traps too (first express pass of the first column)
            s1 = s.copy()
            havoc(v, s1, this, mod, have)
            _, s1, _ = v.run(fns["restore"], this=this, state=s1)
            for f in mod:
                x = v.rd(s1, this.f(f))
                cmpf(r, v, x, fresh_[f], "C03:first:%s:%s" % (k.cls, f), where("setup"), "the first restore gives %s as freshly built" % f)
            s2 = s.copy()
            havoc(v, s2, this, mod, have)
            _, s2, _ = v.run(fns["reset"], this=this, state=s2)
            for f in mod:
                x = v.rd(s2, this.f(f))
                cmpf(r, v, x, fresh_[f], "C03:reset:%s:%s" % (k.cls, f), where("reset"), "emptying gives %s as freshly built" % f)
        except vg.NotHandled as ex:
            r.undecided(where("reset"), str(ex))
    places(r, m)


def construct(prog, cls):
    c = [f for f in prog.funcs.values() if f["q"] == cls + "::" + cls.split("::")[-1] and f.get("b") and len(f.get("params") or []) > 1]
    return max(c, key=lambda f: len(f["params"])) if c else None


def same_array(v, a, b):
    try:
        n = v.length(b)
        full = a.op == "map" and a.a[3] is a.a[2] and a.a[1] is n     # every element assigned
        if not full and v.length(a) is not n:
            return False
        k = fresh("k", n)
        RANGE[k.id] = n
        return sel(a, k) is sel(b, k)
    except Exception:
        return False


def cmpf(r, v, x, want, key, where, what):
    if x is want or same_array(v, x, want):
        r.ok(where, what)
    elif unknown(x) or unknown(want):
        r.undecided(where, what)
    else:
        r.bad(key, where, "%s: it is %s, fresh is %s" % (what, short(x), short(want)))


def places(r, m):
    """where in the clocking walk the state is restored, saved and emptied"""
    flag = None
    for k in m.kinds:
        evs = [e for e in m.events if e.get("kind") is k and m.role(e)]
        loop = [e for e in evs if e["region"] is not None or m.role(e) == "setup"]
        order = [m.role(e) for e in loop]
        w0 = "%s (%s)" % (m.holder, k.field)
        r.check(order == WANT, "C03:order:%s" % k.field, m.tag(loop[-1]) if loop else w0,
                "each column: restore per express pass, exchange, prune and save per row, then empty and save (found: %s)" % ", ".join(order))
        if order != WANT:
            continue
        setup, restore, exch, prune, store, reset, last = loop
        col = restore["loops"][0][0]
        # all phases
        for e in (setup, restore, prune, store, reset, last):
            k_, n_ = e["loops"][-1]
            full = e["idx"] is k_ and n_ is not None and given(e["pc"], e["len"]) is n_
            r.check(full, "C03:phases:%s:%s" % (k.field, m.role(e)), m.tag(e), "%s covers the managers of every phase" % m.role(e))
        # restore: once per express pass, unconditionally, before the rows
        r.check(len(restore["loops"]) == 3 and not m.extra(restore), "C03:restore:%s" % k.field, m.tag(restore),
                "occupancy is restored at the start of every express pass" + ("" if not m.extra(restore) else ", not only if " + short(m.extra(restore)[0])))
        same = restore["loops"][:2] == exch["loops"][:2]
        r.check(same, "C03:restore-pass:%s" % k.field, m.tag(restore), "the restore belongs to the express pass whose rows follow")
        # save in the row loop: exactly where the save table says
        ls = [x for x, _ in store["loops"]]
        le = [x for x, _ in exch["loops"]]
        r.check(len(ls) == 4 and ls[:3] == le[:3], "C03:store-row:%s" % k.field, m.tag(store), "the save table is consulted for every clocked row of every pass")
        conds = m.extra(store)
        table = [c for c in conds if atoms(c, lambda y: tab(y, "store_trap_states_matrix"))]
        others = [c for c in conds if c not in table and c not in m.extra(exch)]
        good = len(table) == 1 and not others
        r.check(good, "C03:store-cond:%s" % k.field, m.tag(store), "the state is saved exactly where the save table says so (conditions: %s)" % (
            "; ".join(short(c) for c in conds)))
        if len(table) == 1:
            st = [y for y in atoms(table[0], lambda y: tab(y, "store_trap_states_matrix"))]
            em = [y for c in m.extra(exch) for y in atoms(c, lambda y: tab(y, "express_matrix"))]
            pos = table[0] is lnot(cmp0("eq0", st[0], True)) or table[0] is st[0] or table[0] is lnot(cmp0("eq0", st[0], False))
            r.check(len(st) == 1 and pos, "C03:store-when:%s" % k.field, m.tag(store), "the save happens when the table entry is set: " + short(table[0]))
            if em:
                r.check(st[0].a[1] is em[0].a[1], "C03:store-index:%s" % k.field, m.tag(store),
                        "save table and express multiplier are looked up for the same pass and row")
        # end of column
        r.check(not m.extra(last) and len(last["loops"]) == 2, "C03:final-store:%s" % k.field, m.tag(last),
                "after a column the state is saved for the next column, unconditionally")
        c = m.extra(reset)
        okc = len(c) == 0 or len(c) == 1 and c[0].op == "not" and atoms(c[0], lambda y: "empty_traps_between_columns" in str(y))
        r.check(okc and len(reset["loops"]) == 2, "C03:final-reset:%s" % k.field, m.tag(reset),
                "after a column the traps are emptied exactly when the readout says so (condition: %s)" % ("; ".join(short(x) for x in c) or "always"))
        for e in (restore, exch, store, reset, last):
            r.check(e["loops"][0][0] is col, "C03:column:%s:%s" % (k.field, m.role(e)), m.tag(e), "belongs to the column loop")


def tab(y, field):
    if y.op != "sel":
        return False
    a = y.a[0]
    return a.op == "fld" and a.a[0] == field or a.op == "init" and a.a[0][-1] == ("f", field)
