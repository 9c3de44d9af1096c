"""C19: the express and occupancy-saving tables have one entry per express pass and row."""
import sys
import front
import parts
import shapes
from shapes import *
from terms import *

TABLES = ("express_matrix", "store_trap_states_matrix")
MAKE, SAVE = "set_express_matrix_from_rows_and_express", "set_store_trap_states_matrix"


def sym(n):
    return mk("isym", n, 0)


def judge(r, E, obls, inputs, opaque=True, low=-1, high=7):
    """one verdict per access: every path proved; a path with numbers that break it; neither"""
    by = {}
    for kind, where, what, goals, s, stack, line in obls:
        by.setdefault((kind, where, what), []).append((goals, s))
    for (kind, where, what), l in by.items():
        open_, wit = 0, None
        for goals, s in l:
            if goals is not None and all(E.proves(s, g) for g in goals):
                continue
            open_ += 1
            if wit is None and goals is not None and open_ <= 12 and E.tries < 60:
                E.tries += 1
                wit = witness(E, s, goals, inputs, low, high, opaque)
        text = {"index": "subscript of %s stays inside", "slice": "slice of %s stays inside", "mask": "mask of %s has its length",
                "assign": "what is copied to the slice of %s has its length", "same": "%s have one length"}[kind] % what
        r.count("accesses")
        if not open_:
            r.ok(where, "%s (%d paths)" % (text, len(l)))
        elif wit:
            r.bad("C19:%s:%s:%s" % (where.split("(")[-1].rstrip(")"), kind, what), where, "not so: %s, with %s" % (text, wit))
        else:
            r.undecided(where, "%s: %d of %d paths" % (text, open_, len(l)))


def same(E, s, a, b):
    return E.equal(s, a, b)


def tables(r, prog, f, o):
    """the table builder f, without (-1) or with overscan"""
    for f in [f]:
        if len(f["params"]) < 3:
            r.undecided(f["q"], "parameters")
            continue
        E = Exec(prog, peel=True)
        names = [p["n"] for p in f["params"]]
        n, x, w = (sym(k) for k in names[:3])
        po, pumps = sym("this.prescan_offset"), sym("this.n_pumps")
        over = sym("this.overscan_start")
        s = S(lin=(sub(n, num(1)), x, w, po, sub(pumps, num(1))))
        outs = []
        for o in (num(-1) if o < 0 else over,):
            t = s.copy()
            t.env[("f", "this", "overscan_start")] = o
            if o is over:
                t.lin += (sub(over, num(2)),)
            outs += E.run(f, dict(zip(names, (n, x, w))), t, "this")
        inputs = {n, x, w, po, pumps, over}
        for l in E.lost[:3]:
            r.undecided(f["q"], l)
        if E.overflow:
            r.undecided(f["q"], "too many paths")
        judge(r, E, E.obl, inputs)
        open_, wit, ok = 0, None, 0
        for v, t in outs:
            m, q = t.env.get(("f", "this", "express_matrix")), t.env.get(("f", "this", "n_express_passes"))
            if not isinstance(m, A) or E.num_(q) is None:
                open_ += 1
                continue
            d = sub(m.len, mul(q, n))
            if E.equal(t, m.len, mul(q, n)) and E.proves(t, sub(q, num(1))):
                ok += 1
                continue
            open_ += 1
            if wit is None and open_ <= 12:
                wit = witness(E, t, [d, neg(d), sub(q, num(1))], inputs, -1, 7)
        r.count("paths", len(outs))
        where = front.loc(f, f)
        if wit:
            r.bad("C19:%s:size" % f["q"], where, "the express table has not n_express_passes * %s entries with %s" % (names[0], wit))
        elif open_ or not outs:
            r.undecided(where, "size of the express table on %d of %d paths" % (open_, len(outs)))
        else:
            r.ok(where, "express table of %s: n_express_passes * %s entries, n_express_passes >= 1, on %d paths" % (f["q"], names[0], len(outs)))
    r.count("table builders")


def saves(r, prog):
    fs = [f for f in prog.funcs.values() if f["q"].split("::")[-1] == SAVE and f.get("b")]
    for f in sorted(fs, key=lambda f: f["q"]):
        E = Exec(prog, peel=True)
        P, R = sym("n_express_passes"), sym("n_rows")
        s = S(lin=(sub(P, num(1)), sub(R, num(1))))
        s.env[("f", "this", "express_matrix")] = A(mul(P, R))
        s.env[("f", "this", "n_express_passes")] = P
        outs = E.run(f, {}, s, "this")
        for l in E.lost[:3]:
            r.undecided(f["q"], l)
        judge(r, E, E.obl, {P, R})
        open_, wit = 0, None
        for v, t in outs:
            m = t.env.get(("f", "this", "store_trap_states_matrix"))
            if not isinstance(m, A):
                open_ += 1
            elif not E.equal(t, m.len, mul(P, R)):
                open_ += 1
                d = sub(m.len, mul(P, R))
                wit = wit or witness(E, t, [d, neg(d)], {P, R}, 0, 7)
        where = front.loc(f, f)
        r.count("paths", len(outs))
        if wit:
            r.bad("C19:%s:size" % f["q"], where, "the saving table differs in size from the express table with " + wit)
        elif open_ or not outs:
            r.undecided(where, "size of the saving table on %d of %d paths" % (open_, len(outs)))
        else:
            r.ok(where, "saving table of %s: as many entries as the express table, on %d paths" % (f["q"], len(outs)))


alias = set()       # local references to a table


def hit(x):
    if x.get("k") != "call" or x.get("op") != "[]" or x.get("obj") is None:
        return False
    o = x["obj"]
    while o["k"] == "cast":
        o = o["e"]
    return o["k"] == "mem" and o["n"] in TABLES or o["k"] == "ref" and (o.get("id"), o.get("n")) in alias


def contract(E, e, s):
    b = (e.get("f") or "").split("::")[-1]
    if b == MAKE:
        out = []
        for vs, x in E.evs(e["args"], s):
            x = x.copy()
            o = E.place(e["obj"], x)
            P = sym("passes")
            n = E.num_(vs[0])
            n = n if n is not None else isym("rows")
            x.env[("f", o, "express_matrix")] = A(mul(P, n))
            x.env[("f", o, "n_express_passes")] = P
            x.env[("k", "rows")] = n
            x.lin += (sub(P, num(1)),)
            if E.num_(vs[0]) is not None:
                E.made.append((E.where(e), [E.proves(x, sub(n, num(1)))] + [E.num_(v) is not None and E.proves(x, v) for v in vs[1:3]], len(vs)))
            out.append((None, x))
        return out
    if b == SAVE:
        s = s.copy()
        o = E.place(e["obj"], s)
        m = s.env.get(("f", o, "express_matrix"))
        if isinstance(m, A):
            s.env[("f", o, "store_trap_states_matrix")] = A(m.len)
        return [(None, s)]
    return None


def lookups(r, prog):
    own = lambda f: f["q"].split("::")[-1] in (MAKE, SAVE)
    alias.clear()
    for f in prog.funcs.values():
        for x in front.walk(f["b"]) if f.get("b") else ():
            if x.get("k") == "decl":
                for v in x["v"]:
                    i = v.get("init")
                    while i is not None and i["k"] == "cast":
                        i = i["e"]
                    if "id" in v and (v.get("ref") or v.get("ptr")) and i is not None and i["k"] == "mem" and i["n"] in TABLES:
                        alias.add((v["id"], v["n"]))
    users = {id(f): f for f in prog.funcs.values() if f.get("b") and not own(f) and any(hit(x) for x in front.walk(f["b"]))}
    # helpers that look up are followed from their callers
    way = dict(users)
    more = True
    while more:
        more = False
        for f in prog.funcs.values():
            if f.get("b") and id(f) not in way and not own(f) and any(id(t) in way for x in prog.calls(f) for t in prog.targets(x)):
                way[id(f)] = f
                more = True
    makers = [f for f in prog.funcs.values() if f.get("b") and not own(f) and any((x.get("f") or "").split("::")[-1] == MAKE for x in prog.calls(f))]
    seen = set()
    for f in makers:
        goto = lambda x: hit(x) or x.get("k") == "call" and any(id(t) in way for t in prog.targets(x)) or x.get("k") == "call" and (x.get("f") or "").split("::")[-1] in (MAKE, SAVE)
        keep = {("k", "rows")}
        reach, todo = {}, [f]
        while todo:
            g = todo.pop()
            if id(g) in reach:
                continue
            reach[id(g)] = g
            keep |= relevant(g, goto)
            todo += [t for x in prog.calls(g) for t in prog.targets(x) if id(t) in way and not own(t)]
        E = Exec(prog, contract, inline=lambda g: id(g) in reach, join_at=1, keep=keep)
        E.made = []
        s = S()
        args, inputs = {}, set()
        shape = {}
        rows = cols = None
        for p in f["params"]:
            ty = p["ty"].replace("const ", "")
            if ty.count("valarray<") == 2 and rows is None:
                rows, cols = sym("rows"), sym("columns")
                args[p["n"]] = A(rows, inner=A(cols))
                s.lin += (sub(rows, num(1)), sub(cols, num(1)))
            elif p.get("t") in ("i", "u") or ty in ("int", "unsigned int"):
                args[p["n"]] = shape[p["n"]] = sym(p["n"])
        if rows is None:
            r.undecided(f["q"], "image parameter")
            continue
        # 0 <= start <= stop <= size, or -1 for all; offsets and the setting are not negative
        for n, v in shape.items():
            if n.endswith("_start"):
                s.lin += (v,)
            elif n.endswith("_stop"):
                a, size = shape.get(n[:-5] + "_start"), {"row_stop": rows, "column_stop": cols}.get(n)
                if a is not None:
                    s.lin += (sub(v, a),)
                if size is not None:
                    s.lin += (sub(size, v),)
            elif "offset" in n or n == "express":
                s.lin += (v,)
        starts = [s]
        for n in ("row_stop", "column_stop"):
            if n in shape:
                nxt = []
                for t in starts:
                    nxt.append((t, dict(args)))
                starts = [t for t, a in nxt]
        combos = [{}]
        for n in ("row_stop", "column_stop"):
            if n in shape:
                combos = [dict(c, **{n: k}) for c in combos for k in (shape[n], num(-1))]
        for c in combos:
            t = s.copy()
            drop = {shape[n] for n, v in c.items() if val(v) is not None}
            t.lin = tuple(g for g in t.lin if not {a for m, k in monos(g) for a, p in m} & drop)
            outs = E.run(f, dict(args, **c), t)
            r.count("paths", len(outs))
        for l in E.lost[:3]:
            r.undecided(f["q"], l)
        if E.overflow:
            r.undecided(f["q"], "too many paths")
        for w, oks, n in E.made:
            if not all(oks):
                r.undecided(w, "arguments of the table builder: at least one row, offset and setting not negative")
            else:
                r.ok(w, "the tables are built for at least one row, with an offset and a setting that are not negative")
        inputs = {rows, cols, sym("passes")} | set(shape.values())
        obls = [o for o in E.obl if o[2].split(".")[-1] in TABLES]
        judge(r, E, obls, inputs, opaque=True)
        # the stride
        by = {}
        for kind, where, what, goals, st, stack, line in obls:
            seen.add(where)
            by.setdefault((where, what), []).append((goals[0] if goals else None, st))
        for (where, what), l in sorted(by.items()):
            open_, wit = 0, None
            for i, st in l:
                n = st.env.get(("k", "rows"))
                if i is None or n is None:
                    open_ += 1
                    continue
                good = False
                cs = {a for m, k in monos(i) for a, p in m if a.id in E.counters}
                for c in sorted(cs, key=lambda a: a.id):
                    if not (E.proves(st, c) and E.proves(st, sub(sub(sym("passes"), num(1)), c))):
                        continue
                    rest = sub(i, mul(c, n))
                    if c not in {a for m, k in monos(rest) for a, p in m} and E.proves(st, rest) and E.proves(st, sub(sub(n, num(1)), rest)):
                        good = True
                        break
                    # another stride: entries of two passes would share a row
                    if wit is None and all(p == 1 for m, k in monos(i) for a, p in m if a is c):
                        k = sub(subst(i, {c.id: num(1)}, {}), subst(i, {c.id: num(0)}, {}))
                        d = sub(k, n)
                        if val(d) != 0 and E.tries < 60:
                            E.tries += 1
                            wit = witness(E, st, [d, neg(d)], inputs, -1, 7, True)
                if not good:
                    open_ += 1
            if not open_:
                r.ok(where, "%s is read at pass * n + row, 0 <= row < n, with the n the table was built for (%d paths)" % (what, len(l)))
            elif wit:
                r.bad("C19:%s:stride:%s" % (where.split("(")[-1].rstrip(")"), what), where, "%s is read with another row stride than it was built with: %s" % (what, wit))
            else:
                r.undecided(where, "row stride of %s on %d of %d paths" % (what, open_, len(l)))
    for f in users.values():
        for x in front.walk(f["b"]):
            if hit(x):
                w = front.loc(f, x)
                if w not in seen:
                    r.undecided(w, "look-up that no path from a table builder reaches")


def run(r):
    sys.setrecursionlimit(20000)
    r.rule = "abstract execution of table builders and clocking over linear facts: size of the tables, every access inside, stride of look-ups"
    r.assume += ["the image has at least one row; offsets, the express setting and the prescan are not negative; at least one pump",
                 "the overscan, if there is one, starts after at least one pixel (overscan_start = -1 or >= 2)",
                 "0 <= start <= stop <= size of the image (or stop = -1)"]
    prog = front.program()
    fs = sorted((f for f in prog.funcs.values() if f["q"].split("::")[-1] == MAKE and f.get("b")), key=lambda f: f["q"])
    parts.run(r, [(tables, (prog, f, o)) for f in fs for o in (-1, 2)] + [(saves, (prog,)), (lookups, (prog,))])
    if not fs:
        r.undecided("src/roe.cpp", "no function builds the express table")
