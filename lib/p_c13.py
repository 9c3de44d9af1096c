"""C13: charge exchanged with the traps is booked exactly once."""
import itertools
import front, clocking
from terms import *
from p_c17 import short


def factors(t):
    """t as a coefficient and a list of atoms, if it is one product"""
    ms = monos(t)
    if len(ms) != 1:
        return None
    m, c = ms[0]
    return c, [a for a, p in m for _ in range(p)] if all(p > 0 for _, p in m) else None


def isel(t, field):
    """t == (something).field[i]  ->  (something, i)"""
    if t.op != "sel":
        return None
    return owner(t.a[0], field) and (owner(t.a[0], field), t.a[1])


def owner(t, field):
    if t.op == "fld" and t.a[0] == field:
        return t.a[1]
    if t.op == "init" and t.a[0][-1] == ("f", field):
        return mk("init", t.a[0][:-1])
    return None


def assume(facts, t):
    return given(facts, t)


def run(r):
    prog = front.program()
    m = clocking.Model(prog)
    r.rule = ("booking: for each image write of the clocking walk and each combination of present trap types, the value written is the "
              "value read plus one common factor (express multiplier x release fraction of the written pixel) times the sum of every "
              "present type's returned charge; each type is offered the charge read plus what earlier types returned")
    r.assume += ["linear arithmetic over the reals (rounding ignored)"]
    for u in m.unresolved:
        r.undecided(u, "loop or statement not resolved")
    booking(r, m)
    r.assume += ["ledger: traps spread uniformly over the volume, levels beyond the active ones hold no electrons, and the index of the level "
                 "above the cloud is that of an active level or the one after the last (C14)"]
    import ledger
    ledger.run(r, prog)


def booking(r, m):
    ex = {}
    for e in m.events:
        if m.role(e) == "exchange":
            ex.setdefault(e["kind"].field, []).append(e)
    for k in m.kinds:
        n = len(ex.get(k.field, []))
        r.check(n == 1, "C13:once:%s" % k.field, m.tag(ex[k.field][0]) if n else "%s (%s)" % (m.holder, k.field),
                "charge is offered to the %s managers at exactly one place of the step loop (%d found)" % (k.field, n))
    if any(len(x) != 1 for x in ex.values()) or len(ex) != len(m.kinds):
        return
    exs = sorted((v[0] for v in ex.values()), key=lambda e: m.events.index(e))
    allow = cmp0("eq0", mk("parg", "allow_negative_pixels", "i"), True)
    writes = [e for e in m.events if e.get("op") == "image.wr" and e["region"] is not None]
    if not writes:
        r.bad("C13:nowrite", front.loc(m.f), "no image write in the clocking loop")
        return
    r.count("image_writes", len(writes))
    r.count("exchanges", len(exs))
    live = []
    for w in writes:
        c = given([lnot(allow)], land(*w["pc"]))
        if c is FALSE:
            continue
        live.append(w)
    # group writes by index and loops: the last one of an iteration is what stays
    groups = {}
    for w in live:
        groups.setdefault((tuple(a.id for a in w["args"][:-1]), tuple(k.id for k, _ in w["loops"])), []).append(w)
    r.check(len(groups) == 1, "C13:writes", m.tag(live[-1]) if live else front.loc(m.f),
            "with negatives allowed the clocking loop writes the image at one place (%d found)" % len(groups))
    for g in groups.values():
        bookgroup(r, m, exs, g, allow)


def bookgroup(r, m, exs, g, allow):
    w = g[-1]
    idx, val_ = w["args"][:-1], w["args"][-1]
    acc = mk("acc", w["name"], tuple(idx))
    syms = [e["res"] for e in exs]
    n = len(exs)
    nsub = 0
    factor = None
    args_ok = [True] * n
    inflow = None
    for act in itertools.product((True, False), repeat=n):
        facts = [lnot(allow)]
        contradictory = False
        for on, e in zip(act, exs):
            gd = e["kind"].guard
            if gd is None or gd is TRUE:
                if not on:
                    contradictory = True
                continue
            facts.append(gd if on else lnot(gd))
        if contradictory:
            continue
        nsub += 1
        d = sub(numeric(given(facts, val_)), acc)
        names = "+".join(e["kind"].field for on, e in zip(act, exs) if on) or "none"
        for on, e in zip(act, exs):
            li = linear_in(d, e["res"])
            if li is None:
                r.bad("C13:linear:%s" % e["kind"].field, m.tag(w), "the charge written is not linear in what %s returns" % e["kind"].field)
                return
            co, d = li
            if not on:
                if val(co) != 0:
                    r.bad("C13:absent:%s" % e["kind"].field, m.tag(w), "charge of absent type %s is booked" % e["kind"].field)
                continue
            if val(co) == 0:
                r.bad("C13:lost:%s" % e["kind"].field, m.tag(w), "charge returned by %s is not added to the written pixel (types present: %s)" % (e["kind"].field, names))
                return
            if factor is None:
                factor = co
            r.check(co is factor, "C13:factor:%s" % e["kind"].field, m.tag(w),
                    "charge returned by %s is booked once with the common factor %s (types present: %s)" % (e["kind"].field, short(factor), names))
        r.check(val(d) == 0, "C13:rest", m.tag(w), "nothing but returned charge is added to the written pixel (types present: %s)%s" % (
            names, "" if val(d) == 0 else ": also " + short(d)))
        # what each type is offered
        for j, (on, e) in enumerate(zip(act, exs)):
            if not on:
                continue
            a = numeric(given(facts, e["args"][0]))
            rest = a
            for i, (on2, e2) in enumerate(zip(act, exs)):
                li = linear_in(rest, e2["res"])
                if li is None:
                    rest = None
                    break
                co, rest = li
                want = 1 if (on2 and i < j) else 0
                if val(co) != want:
                    r.bad("C13:offer:%s" % e["kind"].field, m.tag(e), "%s is offered charge %s what %s returned (types present: %s)" % (
                        e["kind"].field, "without" if want else "counting", e2["kind"].field, names))
                    rest = None
                    break
            if rest is None:
                continue
            if inflow is None:
                inflow = rest
            r.check(rest is inflow, "C13:inflow:%s" % e["kind"].field, m.tag(e), "%s is offered the charge read plus what earlier types returned (types present: %s)" % (e["kind"].field, names))
    r.count("type_combinations", nsub)
    if factor is None:
        return
    # the factor: express multiplier x release fraction of the written pixel
    row, col = idx[0], idx[1] if len(idx) > 1 else None
    f = factors(factor)
    em = rf = None
    for a in (f[1] if f and f[1] else []):
        if isel(a, "express_matrix"):
            em = a
        elif isel(a, "release_fraction_to_pixels"):
            rf = a
    good = f and f[1] and f[0] == 1 and len(f[1]) == 2 and em is not None and rf is not None
    r.check(good, "C13:factor", m.tag(w), "booked charge is multiplied by the express multiplier and the release fraction, once each: factor is " + short(factor))
    if good:
        st, i = isel(rf, "release_fraction_to_pixels")
        tow = [a for mo, c in monos(row) for a, p in mo if isel(a, "release_to_which_pixels")]
        ok = len(tow) == 1 and isel(tow[0], "release_to_which_pixels") == (st, i)
        r.check(ok, "C13:pixel", m.tag(w), "the pixel written is the one the release fraction belongs to")
        if ok:
            centre = sub(row, tow[0])
            own, em_i = isel(em, "express_matrix")
            el = rowof(em_i, centre, m, w)
            r.check(el, "C13:express", m.tag(w), "the express multiplier is that of the row being clocked and of this express pass: index %s, row %s" % (short(em_i), short(centre)))
            # reads
            want = readsum(inflow, st, centre, col, w["name"])
            r.check(want is True, "C13:read", m.tag(w), "the charge offered is the sum over the step's capture pixels of this column" + ("" if want is True else ": " + str(want)))
            # the same step and phase for manager and pixels
            for e in exs:
                ph = st.a[1] if st.op == "sel" else None
                r.check(ph is not None and e["idx"] is ph, "C13:phase:%s" % e["kind"].field, m.tag(e), "the %s managers asked are those of the phase whose pixels are read and written" % e["kind"].field)
    # conditions: an exchange or a write may only be skipped when nothing would be booked
    for e in exs + [w]:
        for c in m.extra(e):
            if c.op == "not" and c.a[0].op == "eq0":
                p = c.a[0].a[0]
                if p is em or p is rf or p is factor or p in syms:
                    continue
            if e is w and inside(c, row):
                continue
            r.bad("C13:cond:%s" % (e["kind"].field if e.get("kind") else "write"), m.tag(e), "exchange and booking happen for every clocked pixel, not only if " + short(c))
        else:
            r.ok(m.tag(e), "happens in every step and phase with a non-zero express multiplier")
    ls = [tuple(k.id for k, _ in e["loops"]) for e in exs]
    r.check(len(set(ls)) == 1 and ls[0] == tuple(k.id for k, _ in w["loops"])[:len(ls[0])], "C13:loops", m.tag(w),
            "all exchanges and the booking belong to the same step and phase iteration")


def inside(c, row):
    """does the condition hold for every row of the image (0 <= row < number of rows)?"""
    if c.op == "and":
        return all(inside(x, row) for x in c.a[0])
    if c.op == "or":
        return any(inside(x, row) for x in c.a[0])
    if c.op not in ("gt0", "ge0"):
        return False
    p = c.a[0] if c.op == "gt0" else add(c.a[0], num(1))
    v = val(sub(p, row))
    if v is not None:
        return v >= 1
    q = add(p, row)         # rows of the image - row + slack
    k = dict(monos(q)).get((), 0)
    q = sub(q, num(k))
    q = base(q)
    return k >= 0 and q.op == "fn" and q.a[0] == "len" and any(a.op == "param" for a in atoms(q, lambda a: a.op == "param"))


def withinimage(t, row):
    """t where the pixel read lies in the image"""
    m = {}
    for c in atoms(t, lambda c: c.op in ("gt0", "ge0")):
        if inside(c, row):
            m[c.id] = TRUE
        elif inside(lnot(c), row):
            m[c.id] = FALSE
    return subst(t, m, {})


def rowof(i, centre, m, w):
    """i == pass * n_rows + centre with the express-pass loop symbol"""
    d = sub(i, centre)
    for k, n in w["loops"]:
        li = linear_in(d, k)
        if li and val(li[0]) != 0:
            rest = li[1]
            return val(rest) == 0 and not any(occurs(li[0], kk) for kk, _ in w["loops"])
    return False


def readsum(t, st, centre, col, name):
    if t is None or t.op != "sum" and not (t.op == "poly" and len(monos(t)) == 1):
        return "not a single sum: " + short(t) if t is not None else "unknown"
    if t.op == "poly":
        (mo, c), = monos(t)
        if c != 1 or len(mo) != 1:
            return "not a plain sum: " + short(t)
        t = mo[0][0]
        if t.op != "sum":
            return "not a sum: " + short(t)
    n, bv, body = t.a[0], t.a[1], t.a[2]
    if owner(n, "n_capture_pixels") is not st and not (n.op == "fn" and n.a[0] == "len" and owner(n.a[1], "capture_from_which_pixels") is st):
        return "number of pixels read is " + short(n)
    for a in atoms(body, lambda a: a.op == "acc" and a.a[0] == name):
        body = withinimage(body, a.a[1][0])
    if body.op == "poly" and len(monos(body)) == 1 and monos(body)[0][1] == 1 and len(monos(body)[0][0]) == 1:
        body = monos(body)[0][0][0][0]
    if body.op != "acc" or body.a[0] != name:
        return "sums " + short(body)
    ix = body.a[1]
    if len(ix) > 1 and ix[1] is not col:
        return "reads column " + short(ix[1])
    frm = sub(ix[0], centre)
    o = isel(base(frm), "capture_from_which_pixels")
    if not o or o[0] is not st or o[1] is not bv:
        return "reads row " + short(ix[0])
    return True


def base(p):
    if p.op == "poly" and len(monos(p)) == 1 and monos(p)[0][1] == 1 and len(monos(p)[0][0]) == 1:
        return monos(p)[0][0][0][0]
    return p
