"""C04: runs are repeatable; no state is carried from one call to the next."""
import ast
import front, effects, exposed, pyeffects
from front import walk, loc
from effects import base_name, NONDET
from defassign import DefAssign, isprint, declared_in

ENTRIES = ["add_cti", "remove_cti", "clock_charge_in_one_direction", "determine_read_noise_model"]
STREAMS = {"stdout", "stderr", "stdin", "std::cout", "std::cerr", "errno"}
PYNONDET = ("np.random", "numpy.random", "random.", "time.", "datetime.", "os.environ", "os.getenv", "uuid.", "secrets.", "id", "hash")


def library(p):
    """functions of the library: everything outside the file that defines main()"""
    mains = {front.rel(f) for f in p.defined() if f["q"] == "main"}
    return [f for f in p.defined() if front.rel(f) not in mains and f.get("b") is not None]


def globals_(r, p, eff, fs):
    """no function writes a global or static, except the verbosity setting and the output streams"""
    printed = {}
    for f in fs:
        bad = {}
        for path, node, ch in eff.writes(f):
            if ch:
                continue            # reported where the write is
            root = path[0]
            if root[0] not in ("G", "S"):
                continue
            name = root[-1]
            if name in STREAMS or root[0] == "G" and base_name(name) == "verbosity":
                continue
            bad.setdefault((root, name), node)
        for (root, name), node in bad.items():
            if onlyprinted(p, eff, fs, root, name):
                r.ok(loc(f, node), "%s only reaches printed text" % name)
                continue
            r.bad("C04:global:%s" % name, loc(f, node),
                  "%s() writes %s %s, which outlives the call" % (f["q"], "the static variable" if root[0] == "S" else "the global", name))
        if not bad:
            r.ok(f["q"], "writes no global or static variable")
        for n in walk(f.get("b")):
            if n["k"] == "decl":
                for v in n["v"]:
                    if v.get("static") and v.get("init") is not None:
                        deps = [x for x in walk(v["init"]) if x["k"] == "ref" and x.get("c") in ("param", "local") or x["k"] == "this"]
                        lam = [x for x in walk(v["init"]) if x["k"] == "lambda"]
                        r.check(not deps or bool(lam), "C04:static:%s" % v["n"], loc(f, n),
                                "static variable %s of %s() is initialised from constants only" % (v["n"], f["q"]) if not deps else
                                "static variable %s of %s() keeps the first call's arguments" % (v["n"], f["q"]))


def onlyprinted(p, eff, fs, root, name):
    """every read of the variable is an argument of a printing call (or feeds only itself)"""
    for f in fs:
        if root[0] == "S" and f["q"] != root[1]:
            continue
        ok = set()
        for n in walk(f.get("b")):
            if n["k"] == "call" and isprint(n):
                for x in walk(n):
                    ok.add(id(x))
            if n["k"] == "asg" and n["a"]["k"] == "ref" and n["a"]["n"] == name:
                refs = {x["n"] for x in walk(n["b"]) if x["k"] == "ref" and x.get("c") != "func"}
                if refs <= {name}:
                    for x in walk(n):
                        ok.add(id(x))
            if n["k"] == "un" and n["op"].lstrip("p") in ("++", "--"):
                ok.add(id(n["e"]))
        for n in walk(f.get("b")):
            if n["k"] == "ref" and n["n"] == name.split("::")[-1] and n.get("c") == ("static" if root[0] == "S" else "global") \
                    and id(n) not in ok:
                return False
    return True


def stale(r, p, eff):
    """tables written into the caller's objects are rewritten before they are read"""
    X = exposed.Exposed(p, eff)
    for q in ENTRIES:
        for f in p.defined():
            if f["q"] != q or not front.rel(f).startswith("src/"):
                continue
            exp, _ = X.of(f)
            written = {}
            for path, (site, ch) in eff.sum[f["id"]].items():
                if path[0][0] == "P" and path[1] and path[1][0] not in ("[]", "*"):
                    written.setdefault((path[0], path[1][0]), site)
            for (root, fld), site in written.items():
                e = exp.get((root, fld))
                nm = f["params"][root[1]]["n"]
                r.check(e is None, "C04:stale:%s:%s" % (q, fld), loc(*e[:2]) if e else loc(*site),
                        "%s() rebuilds %s->%s before reading it" % (q, nm, fld) if e is None else
                        "%s() may read %s->%s before rebuilding it, as an earlier call left it" % (q, nm, fld))
    r.count("entry_points", len(ENTRIES))


def references(r, p):
    """no object holds a reference into the caller's or default data which it writes through"""
    seen = set()
    for rec in p.js["records"]:
        for x in rec["fields"]:
            if (rec["q"], x["n"]) in seen:
                continue
            seen.add((rec["q"], x["n"]))
            if not (x.get("ref") or x["ty"].rstrip().endswith("&")):
                r.count("fields")
                continue
            if x["ty"].startswith("const "):
                r.ok("%s::%s" % (rec["q"], x["n"]), "a reference, to const data")
                continue
            w = None
            for f in p.defined():
                if f.get("cls") == rec["q"]:
                    for n in walk(f.get("b")):
                        t = n["a"] if n["k"] == "asg" else n.get("obj") if n["k"] == "call" and n.get("op") in ("=", "+=", "-=", "*=", "/=") else None
                        while t is not None and t["k"] in ("idx", "cast"):
                            t = t.get("a") or t.get("e")
                        if t is not None and t["k"] == "mem" and t["n"] == x["n"]:
                            w = w or (f, n)
            r.check(w is None, "C04:ref:%s::%s" % (rec["q"], x["n"]), loc(*w) if w else "%s:%s" % (rec["file"], x.get("l")),
                    "%s::%s refers to data of others and is never written" % (rec["q"], x["n"]) if w is None else
                    "%s() writes through the reference member %s: the caller's or the default's data change for later calls"
                    % (w[0]["q"], x["n"]))


def nondet(r, p, eff, fs):
    """values of the clock, thread numbers, random numbers or the environment reach printed text only"""
    tret = set()
    sinks = {}
    for rnd in range(4):
        n0 = len(tret)
        for f in fs:
            T = set()

            def src(n):
                return n["k"] == "call" and not p.targets(n) and (n.get("f") in NONDET or base_name(n.get("f")) in NONDET)

            def tainted(e):
                for n in walk(e):
                    if n["k"] == "ref" and n.get("id") in T and n.get("c") in ("local", "param"):
                        return True
                    if src(n):
                        return True
                    if n["k"] == "call" and any(t["id"] in tret for t in p.targets(n)):
                        return True
                return False

            def root(e):
                while e is not None and e["k"] in ("mem", "idx", "cast", "un"):
                    e = e.get("a") if e["k"] == "idx" else e.get("e")
                return e
            for _ in range(5):
                k = len(T)
                for n in walk(f.get("b")):
                    if src(n):
                        for a in n["args"]:
                            o = root(a)
                            if o is not None and o["k"] == "ref" and o.get("c") == "local":
                                T.add(o["id"])
                    if n["k"] == "decl":
                        for v in n["v"]:
                            if v.get("init") is not None and tainted(v["init"]):
                                T.add(v["id"])
                    if n["k"] == "asg" and tainted(n["b"]):
                        o = root(n["a"])
                        if o is not None and o["k"] == "ref" and o.get("c") in ("local", "param") and not o["ty"].rstrip().endswith(("&", "*")):
                            T.add(o["id"])
                        else:
                            sinks.setdefault((f["id"], n.get("l")), (f, n, "is stored"))
                if len(T) == k:
                    break
            for n in walk(f.get("b")):
                if n["k"] in ("if", "while", "do", "for") and n.get("c") is not None and tainted(n["c"]):
                    body = [n.get("a"), n.get("b"), n.get("e")]
                    acts = [x for b in body for x in walk(b) if x["k"] in ("asg", "ret", "throw", "break", "continue") or
                            x["k"] in ("call", "ctor") and not isprint(x)]
                    if any(x["k"] != "asg" for x in acts) or \
                            any(x["k"] == "asg" and (root(x["a"]) or {}).get("c") != "local" for x in acts):
                        sinks.setdefault((f["id"], n.get("l")), (f, n, "decides a branch"))
                    for x in acts:
                        if x["k"] == "asg" and (root(x["a"]) or {}).get("id"):
                            T.add(root(x["a"])["id"])
                if n["k"] == "ret" and n.get("e") is not None and tainted(n["e"]):
                    tret.add(f["id"])
                if n["k"] == "call" and n.get("op") in ("=", "+=", "-=", "*=", "/=") and n.get("obj") is not None and \
                        any(a is not None and tainted(a) for a in n["args"]):
                    sinks.setdefault((f["id"], n.get("l")), (f, n, "is stored"))
        if len(tret) == n0:
            break
    for f, n, how in sinks.values():
        # gettimelapsed-like helpers only compute from their own arguments
        r.bad("C04:nondet:%s" % f["q"], loc(f, n), "a value of the clock, the environment, a random or thread number %s in %s()" % (how, f["q"]))
    for q in ENTRIES:
        for f in fs:
            if f["q"] == q:
                r.check(f["id"] not in tret, "C04:nondet:ret:" + q, loc(f), "%s() returns nothing derived from the clock or random numbers" % q)
    src = sum(1 for f in fs for n in p.calls(f) if base_name(n.get("f")) in NONDET and not p.targets(n))
    r.count("nondeterministic_sources", src)


def uninit(r, p, fs):
    """no local is read before it is assigned"""
    for f in fs:
        tr = declared_in(f["b"])
        out = []
        d = DefAssign(p, set(tr), lambda i, n, fl: out.append((i, n, fl)))
        d.st(f["b"], {})
        hard = [(i, n) for i, n, fl in out if any(x[0] == "un" for x in fl)]
        r.check(not hard, "C04:uninit:%s:%s" % (f["q"], tr[hard[0][0]]["n"] if hard else ""), loc(f, hard[0][1]) if hard else loc(f),
                "%s(): locals are assigned before they are read" % f["q"] if not hard else
                "%s() may read %s before it is assigned" % (f["q"], tr[hard[0][0]]["n"]))


def python(r, p, eff):
    pe = pyeffects.package(p, eff)
    for k, s in pe.sums.items():
        m, f, cls = pe.funcs[k]
        dfl = pe.defaults(f)
        bad = [(o, w) for o, w in s.mut.items() if o[0][0] in ("G", "C") and not w[2] or o[0][0] == "D" or
               o[0][0] == "P" and pyeffects.mutable_default(dfl.get(o[0][1]))]
        for o, w in bad:
            r.bad("C04:py:%s" % pyeffects.text(o), w[0], "%s outlives the call and is modified: %s" % (pyeffects.text(o), pyeffects.whence(w)))
        if not bad:
            r.ok("%s:%d (%s)" % (m.rel, f.lineno, ".".join(k)), "no module-level, class-level or default object is modified")
        # a mutable default kept in an object and modified later
    for cls, (m, c) in pe.classes.items():
        shared = {}
        for n in c.body:
            if isinstance(n, ast.Assign) and pyeffects.mutable_default(n.value):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        shared[t.id] = n
        init = pe.sums.get((cls, "__init__"))
        own = set()
        if init:
            own = {fld for (o, fld) in init.stores}
        for name, n in shared.items():
            for k, s in pe.sums.items():
                if k[0] != cls:
                    continue
                for o, w in s.mut.items():
                    if o[0][0] == "P" and o[0][1] == "self" and o[1][:1] == (name,) and name not in own:
                        r.bad("C04:py:%s.%s" % (cls, name), w[0], "%s.%s belongs to the class, is shared by all objects, and is modified: %s"
                              % (cls, name, pyeffects.whence(w)))
    reach = pe.reachable([("cti", "add_cti"), ("cti", "remove_cti")])
    r.count("python_functions", len(reach))
    for k in sorted(reach):
        m, f, cls = pe.funcs[k]
        bad = [(c, l) for c, l in sorted(pe.extcalls[k]) if any(c.startswith(x) if x.endswith(".") or "." in x else c == x for x in PYNONDET)]
        r.check(not bad, "C04:py:nondet:%s" % ".".join(k), "%s:%d" % (m.rel, bad[0][1] if bad else f.lineno),
                "%s(): no random number, clock or environment value" % ".".join(k) if not bad else "%s() calls %s" % (".".join(k), bad[0][0]))
    # default objects of the public classes are not modified by C++ through the wrapper: covered by the same summaries


def run(r):
    r.rule = ("no global, static or default object is written except the verbosity; every table kept in a caller's object is rewritten whole "
              "before it is read; clock/thread/random values reach printed text only; no variable is read before assignment")
    r.assume = ["the C++ standard library, GSL and NumPy keep no state of their own that changes results"]
    p = front.program()
    eff = effects.Effects(p)
    fs = library(p)
    for q in ENTRIES[:3]:
        if not any(f["q"] == q for f in fs):
            raise front.AnalysisError("anchor vanished: no function " + q)
    r.count("functions", len(fs))
    globals_(r, p, eff, fs)
    stale(r, p, eff)
    references(r, p)
    nondet(r, p, eff, fs)
    uninit(r, p, fs)
    python(r, p, eff)
