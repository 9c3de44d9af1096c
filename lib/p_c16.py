"""C16: a failed step is reported, never turned into a result."""
import front, status, vg, terms


def run(r):
    r.rule = ("status flow of every fallible call (GSL integration and root finding, stdio opens, reads and writes, system): every failure code it may return is "
              "followed through variables and conditions; none survives to a normal return unless the return value passes it on, and no failure ends in exit status 0")
    r.assume += ["a status compared with constants between -10 and 40 is told apart exactly", "out-of-memory conditions are not failed steps"]
    prog = front.program()
    found = {}

    def report(kind, f, n, o, c):
        found.setdefault((kind, f["q"], o), (f, n, c))
    st = status.Status(prog, report)
    todo = [f for f in prog.defined() if front.rel(f).startswith(("src/", "python/", "include/")) and not front.rel(f).split("/")[-1].startswith("test")]
    todo = sorted([f for f in todo if st.touches(f)], key=lambda f: (front.rel(f), f.get("l") or 0))
    for f in todo:
        st.check(f)
    bad = set()
    for (kind, q, o), (f, n, c) in sorted(found.items(), key=lambda x: repr(x[0][:2]) + repr(x[0][2][:3])):
        g, node = st.sites.get(o, (f, n))
        bad.add(o)
        name = node.get("f") or "call"
        if o[0] == "stream":
            name, text = "write", "a failed write to the file is never noticed: neither every write nor ferror() is tested before %s returns" % q
        elif kind == "lost":
            text = "the status of %s is overwritten before anything has looked at it (codes %s)" % (name, short(c))
        elif kind == "exit0":
            text = "failure of %s ends the program with exit status 0 (codes %s)" % (name, short(c))
        else:
            text = "%s returns normally although %s failed (codes %s)" % (q, name, short(c))
        r.bad("C16:%s:%s:%s" % (kind, q, name), front.loc(g, node), text)
    n = 0
    for o, (g, node) in st.sites.items():
        if o not in bad:
            n += 1
            r.ok(front.loc(g, node), "every failure of %s is reported" % (node.get("f") or "call"))
    r.count("fallible calls", len(st.sites))
    r.count("functions followed", len(todo))
    for f, n, what in st.unknown:
        r.undecided(front.loc(f, n), what)
    arguments(r, prog)


def short(c):
    c = sorted(c, key=repr)
    return ", ".join(map(str, c[:4])) + (", ..." if len(c) > 4 else "")


def arguments(r, prog):
    """invalid arguments: the function cannot return normally"""
    from terms import mk, num, add, sub, neg, cmp0, lnot, fn, subst, TRUE

    def count(n):           # some non-negative integer
        return fn("len", mk("sym", n))

    def fact(t):
        """truth of comparisons of non-negative counts"""
        if t.op == "gt0" and terms.nonneg(sub(t.a[0], num(1))) or t.op == "ge0" and terms.nonneg(t.a[0]):
            return TRUE
        if t.op in ("gt0", "ge0") and terms.nonneg(neg(t.a[0])) and t.op == "gt0":
            return terms.FALSE
        if t.op == "eq0" and (terms.nonneg(sub(t.a[0], num(1))) or terms.nonneg(sub(neg(t.a[0]), num(1)))):
            return terms.FALSE
        return t

    def parity(x):
        """remainder and quotient of 2 k + constant by 2"""
        if terms.val(x.a[2]) not in (1, 2) or x.a[0] not in ("mod", "and", "bitand", "&", "idiv"):
            return x
        two = terms.val(x.a[2]) == 2
        ms = terms.monos(x.a[1])
        if x.a[1].op != "poly" or any(m != () and c % 2 for m, c in ms) or not terms.nonneg(x.a[1]):
            return x
        k = dict(ms).get((), 0)
        if two and x.a[0] == "mod" or not two and x.a[0] != "mod":
            return num(int(k) % 2)
        return terms.div(sub(x.a[1], num(int(k) % 2)), num(2)) if x.a[0] == "idiv" and two else x

    def simp(c, m, facts):
        c = subst(c, {k.id: v for k, v in m}, {})
        for _ in range(4):
            ats = {x.id: parity(x) for x in terms.atoms(c, lambda x: x.op == "fn" and len(x.a) == 3)}
            ats.update((x.id, fact(x)) for x in terms.atoms(c, lambda x: x.op in ("gt0", "ge0", "eq0")))
            d = subst(c, {k: v for k, v in ats.items() if v.id != k}, {})
            if d is c:
                break
            c = d
        return terms.given(facts, c)

    def decide(key, f, aborts, m, facts, what):
        facts = list(facts)
        n0 = len(facts)
        for pc in aborts:
            c = terms.land(*[simp(x, m, facts) for x in pc]) if pc else TRUE
            if c is TRUE:
                r.ok(front.loc(f), what + ": refused on every path")
                return
            if c is not terms.FALSE:
                facts.append(lnot(c))
        if any(terms.atoms(x, lambda y: y.op == "fn" and y.a[0] not in ("len", "min", "max", "abs") or y.op in ("unk", "opaque")) for x in facts[n0:]):
            r.undecided(front.loc(f), what + ": refused under a condition the analysis cannot resolve: " + "; ".join(terms.show(lnot(x))[:80] for x in facts[n0:]))
            return
        r.bad("C16:argument:" + key, front.loc(f), what + ": " + f["q"] + " goes on and returns normally")

    def par(f, name):
        for q in f["params"]:
            if q["n"] == name:
                return mk("parg", name, q.get("t") or "i")
        return None

    def ctor(cls, types):
        c = [f for f in prog.defined() if f.get("kind") == "ctor" and f.get("cls") == cls and all(any(t in q["ty"] for q in f["params"]) for t in types)]
        return c

    def run1(f):
        v = vg.VG(prog)
        try:
            v.run(f)
        except vg.Abort:
            return [[]], v
        return [a[2] for a in v.aborts], v

    n = 0
    for f in ctor("ROE", ["int"]):
        ab, v = run1(f)
        pre, ov = par(f, "prescan_offset"), par(f, "overscan_start")
        if pre is None or ov is None:
            r.undecided(front.loc(f), "readout constructor without prescan_offset / overscan_start")
            continue
        L = count("k")
        n += 3
        decide("prescan", f, ab, [(pre, sub(num(-1), L))], [], "a negative prescan offset")
        decide("overscan-zero", f, ab, [(ov, num(0))], [], "an overscan that starts at row 0")
        decide("overscan-negative", f, ab, [(ov, sub(num(-2), L))], [], "an overscan that starts below row -1 (unless the prescan is refused first)")
    for f in ctor("CCD", ["CCDPhase", "double"]):
        ps = [q for q in f["params"] if "valarray" in q["ty"]]
        if len(ps) < 2:
            continue
        ab, v = run1(f)
        n += 1
        a, b = [fn("len", mk("init", (mk("param", q["n"]),))) for q in ps[:2]]
        a2, b2 = [fn("len", mk("param", q["n"])) for q in ps[:2]]
        best = None
        decide("ccd-phases", f, ab, [(a, a2), (b, b2)], [lnot(cmp0("eq0", sub(x, y), True)) for x, y in ((a, b), (b, a), (a2, b2), (b2, a2))],
               "different numbers of CCD phases and trap fractions")
    for f in ctor("ROETrapPumping", ["int"]):
        ab, v = run1(f)
        ps = [q for q in f["params"] if "valarray" in q["ty"]]
        if not ps:
            continue
        n += 1
        odd = add(num(1), terms.mul(num(2), count("k")))
        decide("pumping-steps", f, ab, [(fn("len", mk("param", ps[0]["n"])), odd), (fn("len", mk("init", (mk("param", ps[0]["n"]),))), odd)], [], "trap pumping with an odd number of steps")
    import clocking
    c = clocking.Model(prog)
    f = c.f
    ab = [a[2] for a in c.v.aborts]
    ats = {}
    for pc in ab:
        for x in pc:
            for t in terms.atoms(x, lambda t: t.op == "init", None, None) or []:
                ats[terms.show(t)] = t
    fields = {}
    for t in ats.values():
        fields.setdefault(t.a[0][-1][1] if isinstance(t.a[0][-1], tuple) else None, []).append(t)
    ph = fields.get("n_phases", [])
    n += 2
    if len(ph) == 2:
        d = cmp0("eq0", sub(*ph), True), cmp0("eq0", sub(ph[1], ph[0]), True)
        decide("phases-differ", f, ab, [], [lnot(x) for x in d], "CCD and readout with different numbers of phases")
    else:
        r.bad("C16:argument:phases-differ", front.loc(f), "CCD and readout with different numbers of phases: no test refuses them")
    ty = fields.get("type", [])
    enum = next((v["v"] for g in prog.defined() for v in front.walk(g.get("b")) if v["k"] == "ref" and v.get("c") == "enum" and v.get("n") == "roe_type_trap_pumping"), None)
    rs, re_ = par(f, "row_start"), par(f, "row_stop")
    if rs is None or re_ is None:
        r.undecided(front.loc(f), "rows of the window not found")
    elif not ty or enum is None:
        r.bad("C16:argument:pumping-rows", front.loc(f), "trap pumping of several rows: no test refuses it")
    else:
        L = count("rows")
        facts = [cmp0("eq0", sub(ty[0], num(enum)), True)]
        decide("pumping-rows", f, ab, [(rs, num(0)), (re_, add(num(2), L))], facts, "trap pumping of several rows")
    r.count("invalid arguments", n)
