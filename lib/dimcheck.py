import front, dims


def selftest(r, comp):
    p = front.selftest_program("dims.cpp")
    d = dims.Dims(p)
    got = {f["q"] for f, n, what, c, l, rr, i in d.run() if c[comp]}
    want = {0: {"bad_time", "bad_time2"}, 1: {"bad_charge"}}[comp]
    if got != want:
        raise front.AnalysisError("self-test of the dimension rule failed: reported %s, expected %s" % (got, want))
    r.count("selftest_positive_examples", len(want))


def run(r, comp, unit):
    selftest(r, comp)
    prog = front.program()
    d = dims.Dims(prog)
    conf = d.run()
    if d.seeds < 20:
        raise front.AnalysisError("only %d API dimension seeds found" % d.seeds)
    need = ["add_cti", "remove_cti", "clock_charge_in_one_direction"]
    for q in need:
        prog.fn(q)
    # every seed dimension has to be present in the program
    have = {n for (c, n) in d.fields if c in dims.SEED_CLASSES and n in dims.NAME_SEEDS}
    r.count("api_fields_with_declared_dimension", len(have))
    bad = {}
    for f, n, what, c, l, rr, i in conf:
        if c[comp] == 0:
            continue
        key = (f["id"], n.get("l"))
        bad.setdefault(key, (f, n, what, l, rr, i))
    for (fid, l), k in sorted(d.eqsites.items(), key=str):
        if (fid, l) in bad:
            continue
        f = prog.funcs[fid]
        r.ok("%s:%s (%s)" % (front.rel(f), l, f["q"]), "%d homogeneous equations" % k)
    for (fid, l), (f, n, what, a, b, i) in bad.items():
        kind = "logarithm of a dimensioned quantity" if i else "dimension"
        r.bad("%s|%s" % (f["q"], what), front.loc(f, n),
              "not homogeneous in the %s unit: %s equates %s %s with %s" % (unit, what, kind, a, b))
    r.count("functions", len({k[0] for k in d.eqsites}))
    r.count("function_instances", d.instances)
    r.count("equations", d.equations)
    r.count("gsl_callbacks_unresolved", d.unresolved)
    r.assume += ["default argument values are user-replaceable configuration, not code",
                 "comparison for equality with a negative literal is a sentinel test on a non-negative quantity",
                 "packed per-species interface arrays (third/fourth parameter) are not dimension-checked at their index; C06 decides their routing"]
    r.rule = ("Exact dimension inference over every C++ function except the demo program: fields and parameters of the public "
              "model API are seeded with time/charge dimensions, every +,-,comparison,assignment,argument,return and transcendental "
              "call is an equation in the free abelian group, solved over the rationals; a source site whose equation is "
              "unsatisfiable depends on the unit.")
