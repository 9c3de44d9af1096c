"""C01: results do not depend on threads or their schedule."""
import front, clocking, carried, defassign, effects, pointers
from front import walk, loc
from terms import *
from p_c17 import short

PRIV = {"private", "lastprivate", "linear"}
FIRST = {"firstprivate"}
SHAREDC = {"shared", "default", "schedule", "num_threads", "nowait", "if", "collapse", "ordered", "proc_bind", "safelen", "simdlen"}


def regions(prog):
    for f in prog.defined():
        for n in walk(f["b"]):
            if n["k"] == "omp":
                yield f, n


def run(r):
    prog = front.program()
    r.rule = ("every OpenMP region of the sources: data-sharing of every variable it writes (side-effect analysis through all callees), definite "
              "assignment of private variables, injectivity of shared-array indices in the parallel loop's variable (value graph), and "
              "provenance of thread-private trap occupancy (abstract interpretation)")
    r.assume += ["valarray copies are deep", "gsl integration and root-finding functions are thread-safe on distinct workspaces"]
    E = effects.Effects(prog)
    n = 0
    for f, o in regions(prog):
        n += 1
        region(r, prog, E, f, o)
    r.count("parallel_regions", n)
    nondet(r, prog, E)


def region(r, prog, E, f, o):
    w = loc(f, o)
    if "for" not in o["dir"] or "parallel" not in o["dir"]:
        if o["dir"] in ("simd",):
            return
        if o["dir"] in ("critical", "atomic", "barrier", "master", "single"):
            r.undecided(w, "synchronisation construct " + o["dir"])
            return
        r.undecided(w, "parallel construct '%s' not modelled" % o["dir"])
        return
    L = o["b"]
    if L is None or L["k"] != "for":
        raise front.AnalysisError("parallel loop is not a for loop at " + w)
    cl = {}
    for c in o["cl"]:
        for v in c.get("vars") or []:
            if v.get("id"):
                cl[v["id"]] = c["c"]
    declared = defassign.declared_in(L)
    # ---- scalars assigned in the region
    asg = defassign.assigned_in(L)
    ivar = defassign.assigned_in(L.get("inc")) if L.get("inc") else {}
    priv = set()
    for i, v in asg.items():
        if i in declared or i in ivar:
            continue
        c = cl.get(i)
        if c == "reduction" and v.get("t") == "d":
            r.check(False, "C01:shared:%s" % v["n"], loc(f, v), "%s is summed in an order that depends on the schedule" % v["n"])
            continue
        r.check(c in PRIV | FIRST | {"reduction"}, "C01:shared:%s" % v["n"], loc(f, v), "variable %s written in the parallel loop is private to each thread" % v["n"])
        if c in PRIV | FIRST:
            priv.add(i)
    for c in o["cl"]:
        for v in c.get("vars") or []:
            if c["c"] in PRIV and v.get("id") and v["id"] not in declared:
                priv.add(v["id"])
    # ---- private variables hold nothing across iterations
    bad = {}

    def rep(i, n, fl):
        if fl == "un":
            bad.setdefault(i, n)
        else:
            r.undecided(loc(f, n), "private %s is assigned in each iteration provided an inner loop runs" % n["n"])
    track = {i for i in priv if i not in ivar}
    objs = {v["id"] for c in o["cl"] if c["c"] in FIRST for v in c.get("vars") or [] if v.get("t") == "o"}
    track -= objs
    # firstprivate variables never assigned in the loop keep their value
    track -= {i for i in track if cl.get(i) in FIRST and i not in asg}
    defassign.DefAssign(prog, set(track), rep).st(L["b"], {i: frozenset([("un", None)]) for i in track})
    for i in track:
        r.check(i not in bad, "C01:private:%s" % (bad[i]["n"] if i in bad else i), loc(f, bad.get(i, o)), "private variables are assigned in each iteration before use")
    # ---- anything else the region writes
    seen = {}
    for p, n, chain in E.writes(f, L):
        root = p[0]
        if root[0] == "L" and (root[1] in declared or cl.get(root[1]) in PRIV | FIRST | {"reduction"} or root[1] in ivar):
            if deref_shared(prog, p, root):
                pass
            continue
        if root[0] == "L" and root[1] in asg and not p[1]:
            continue
        seen.setdefault(p, (n, chain))
    arrays = {}
    for p, (n, chain) in seen.items():
        root, fs = p
        if root[0] == "G" and root[1] in ("stdout", "stderr", "std::cout", "std::cerr"):
            continue
        if root[0] == "H":
            arrays.setdefault(p, (n, chain))
            continue
        if "[]" in fs or root[0] == "P" and not fs and f["params"][root[1]].get("ptr"):
            arrays[p] = (n, chain)
            continue
        what = E.show(p, f)
        r.check(False, "C01:write:%s" % what, loc(f, n), "%s, shared by all threads, is not written in the parallel loop%s" % (what, effects.chain_text(chain)))
    check_arrays(r, prog, f, o, L, arrays, E)
    for c in o["cl"]:
        if c["c"] in FIRST:
            for v in c.get("vars") or []:
                if v.get("t") == "o":
                    firstprivate(r, prog, E, f, o, v)


def deref_shared(prog, p, root):
    return False


def check_arrays(r, prog, f, o, L, arrays, E):
    if f["q"] == clocking.ROOT:
        m = clocking.Model(prog)
        evs = [e for e in m.events if e["region"] is o and e.get("op", "").startswith("image.")]
        depth = m.v.regdepth.get(id(o), 0)
    else:
        P = pointers.model(prog, f)
        m = P
        evs = [e for e in P.events if e["region"] is o and e.get("op", "").startswith("arr.")]
        depth = P.v.regdepth.get(id(o), 0)
    for u in m.unresolved:
        r.undecided(u, "loop or statement not resolved")
    groups = {}
    for e in evs:
        wr = e["op"].endswith(".wr")
        args = e["args"][:-1] if wr else e["args"]
        groups.setdefault(e["array"], []).append((wr, args, e))
    if arrays and not groups:
        r.undecided(loc(f, o), "which elements of shared arrays are written")
        return
    for name, accs in groups.items():
        if not any(w for w, a, e in accs):
            continue
        for wr, a, e in accs:
            if wr:
                for wr2, a2, e2 in accs:
                    ok = disjoint(a, e, a2, e2, depth)
                    if ok is None:
                        r.undecided(m.tag(e), "elements %s and %s" % (short(a[-1]), short(a2[-1])))
                        continue
                    r.check(ok, "C01:race:%s" % name.split()[-1], m.tag(e2), "no two iterations of the parallel loop touch the same element of %s (%s against %s)" % (
                        name, "][".join(short(x) for x in a), "][".join(short(x) for x in a2)))


def disjoint(a, e, b, e2, depth):
    """accesses a (iteration k) and b (iteration k') with k != k' touch different elements"""
    if len(e["loops"]) <= depth or len(e2["loops"]) <= depth:
        return None
    k, k2 = e["loops"][depth][0], e2["loops"][depth][0]
    inner = lambda x: {s.id for s, _ in x["loops"][depth + 1:]}
    pairs = []
    for x, y in zip(a, b):
        pairs.append((x, y))
        sx, sy = split(x, e), split(y, e2)
        if len(sx) == len(sy) == 2:
            pairs += list(zip(sx, sy))
    if True:
        for x1, y1 in pairs:
            l1, l2 = linear_in(x1, k), linear_in(y1, k2)
            if l1 is None or l2 is None:
                continue
            c1, r1 = l1
            c2, r2 = l2
            v1, v2 = val(c1), val(c2)
            if v1 and v1 == v2 and val(sub(r1, r2)) == 0 and not atoms(r1, lambda t: t.id in inner(e)):
                return True
            if occurs(x1, k) or occurs(y1, k2):
                continue
            # different constant coordinate
            d = val(sub(x1, y1))
            if d is not None and d != 0:
                return True
            if different(sub(x1, y1)):
                return True
    if atoms(mk("pair", *a), lambda t: t.op in ("unk", "loopout", "ext")) and not occurs(mk("pair", *a), k):
        return None
    return False


def different(d):
    """the difference of two coordinates cannot be zero for at least two rows and columns"""
    ms = [(mo, c) for mo, c in monos(d)]
    k = sum(c for mo, c in ms if mo == ())
    rest = [(mo, c) for mo, c in ms if mo != ()]
    # +-(n - 1) with n >= 2
    if len(rest) == 1 and len(rest[0][0]) == 1 and rest[0][0][0][1] == 1 and abs(rest[0][1]) == 1 and rest[0][1] * k == -1 and rest[0][0][0][0].op == "parg":
        return True
    return False


def split(x, e):
    """an index into a flat image as (row, column)"""
    s = pointers.rowcol(x, e)
    return s if s else [x]


def firstprivate(r, prog, E, f, o, v):
    """each thread's copy of an object: nothing in it refers to shared memory that is written, and its state does not
    pass from one iteration to the next"""
    ty = (v.get("ty") or "").replace("const ", "").strip()
    recs = {x["q"]: x for x in prog.js["records"]}
    todo, seen, ptrs = [ty], set(), []
    while todo:
        t = todo.pop()
        for q, rec in recs.items():
            if q in seen or q not in t.replace("<", " ").replace(">", " ").replace(",", " ").replace("*", " ").split():
                continue
            seen.add(q)
            for fl in rec["fields"]:
                if "*" in fl["ty"] or "&" in fl["ty"]:
                    ptrs.append((q, fl["n"]))
                else:
                    todo.append(fl["ty"])
            for b in rec.get("bases", []):
                todo.append(b if isinstance(b, str) else b.get("n", ""))
    names = {n for _, n in ptrs}
    hit = None
    for p, n, chain in E.writes(f, o["b"]):
        if p[0] == ("L", v["id"]) and len(p[1]) > 1 and any(x in names for x in p[1][:-1]):
            hit = (p, n)
    r.check(hit is None, "C01:copy:%s" % v["n"], loc(f, hit[1] if hit else o), "threads' copies of %s share nothing that is written" % v["n"])
    r.count("classes_copied", len(seen))
    if f["q"] != clocking.ROOT:
        r.undecided(loc(f, o), "state of firstprivate %s between iterations" % v["n"])
        return
    m = clocking.Model(prog)
    cond = TRUE
    for c in o["cl"]:
        if c["c"] == "if":
            t = m.v.clauses.get(id(c))
            if t is not None:
                cond = truth(t)
    facts = [cond] if cond is not TRUE else []
    for k in m.kinds:
        c = carried.Carried(m, k, facts)
        e = c.bad[0] if c.bad else (c.evs[-1] if c.evs else None)
        r.check(not c.bad, "C01:state:%s" % k.field, m.tag(e) if e else loc(m.f),
                "no column clocked in parallel starts from occupancy another column left%s" % (" (parallel when %s)" % short(cond) if cond is not TRUE else ""))


def nondet(r, prog, E):
    for f in prog.defined():
        for n in prog.calls(f):
            q = n.get("f") or ""
            if q.startswith("omp_get_thread") or q in ("omp_get_num_threads", "omp_get_max_threads", "omp_in_parallel", "omp_get_num_procs"):
                r.check(False, "C01:thread:%s" % q, loc(f, n), "the number of threads or the thread's number is not used (%s)" % q)
