"""C05: the caller's data are never modified.

C++: the interprocedural write effects of every entry point, mapped to the caller's
arguments; only fields of a model class that no constructor sets from its
arguments (tables the object derives for itself) may be written.  Python: alias and
mutation analysis from the public functions through the wrapper into C++."""
import re
import front, effects, pyeffects
from front import walk, loc

ENTRIES = ["add_cti", "remove_cti", "clock_charge_in_one_direction"]
PY = [("cti", "add_cti"), ("cti", "remove_cti")]
EXEMPT = {"header"}


def strip(t):
    t = (t or "").strip()
    while True:
        n = re.sub(r"^(const|volatile|struct|class)\s+|\s*(\*|&|const|__restrict)$", "", t).strip()
        if n == t:
            return t
        t = n


def elem(t):
    m = re.match(r"(?:std::)?(?:__1::)?(valarray|vector|array|deque|initializer_list|unique_ptr|shared_ptr)<(.*)>$", strip(t))
    if not m:
        return strip(t)
    d, out = 0, ""
    for c in m.group(2):
        if c == "<":
            d += 1
        if c == ">":
            d -= 1
        if c == "," and d == 0:
            break
        out += c
    return strip(out)


def run(r):
    r.rule = ("every write reachable from an entry point, mapped through all calls (virtual ones to all overriders) to the entry's "
              "arguments, lands in a field that no constructor sets from its arguments; Python: no mutation of an argument, no alias "
              "of the input image in the result")
    r.assume = ["external functions (GSL, NumPy, the C++ standard library) write only through non-const pointer/reference arguments "
                "or as NumPy documents", "the FITS header argument is meant to be updated"]
    p = front.program()
    eff = effects.Effects(p)
    recs = {x["q"]: x for x in p.js["records"]}
    kids_of = {}
    for q, x in recs.items():
        for b in x.get("bases", []):
            kids_of.setdefault(b if isinstance(b, str) else b.get("q"), set()).add(q)

    def family(q):
        out, todo = set(), [q]
        while todo:
            c = todo.pop()
            if c in out or c not in recs:
                continue
            out.add(c)
            todo += list(kids_of.get(c, ()))
            todo += [b if isinstance(b, str) else b.get("q") for b in recs[c].get("bases", [])]
        return out
    fromargs = {}

    def config(q):
        """fields set from constructor arguments, for the class, its bases and derived classes"""
        if q in fromargs:
            return fromargs[q]
        out = set()
        for c in family(q):
            for f in p.defined():
                if f.get("kind") != "ctor" or f.get("cls") != c:
                    continue
                taint = {x["id"] for x in f["params"]}

                def tainted(e):
                    return any(n.get("k") == "ref" and n.get("id") in taint for n in walk(e))
                for n in walk(f["b"]) if f.get("b") else []:
                    if n.get("k") == "var" and n.get("init") and tainted(n["init"]):
                        taint.add(n.get("id"))
                for i in f.get("inits", []):
                    if i.get("field") and i.get("e") and tainted(i["e"]):
                        out.add(i["field"])
                for path, node, ch in eff.writes(f):
                    if path[0] == ("T",) and path[1] and path[1][0] != "[]" and tainted(node):
                        out.add(path[1][0])
        fromargs[q] = out
        return out

    def allowed(t, path):
        """is some class field on the path derived?"""
        t = strip(t)
        for fld in path:
            if fld == "[]":
                t = elem(t)
                continue
            t2 = None
            for c in family(elem(t) if elem(t) in recs else t):
                for x in recs[c]["fields"]:
                    if x["n"] == fld:
                        t2 = x["ty"]
                        if fld not in config(c) and x.get("ptr") is not True and not x["ty"].endswith("&"):
                            return True
            if t2 is None:
                return False
            t = strip(t2)
        return False
    for q in ENTRIES:
        fs = [f for f in p.defined() if f["q"] == q and front.rel(f).startswith("src/")]
        if not fs:
            raise front.AnalysisError("anchor vanished: no function " + q)
        for f in fs:
            hit = {}
            for path, (site, ch) in eff.sum[f["id"]].items():
                if path[0][0] != "P":
                    continue
                pi = f["params"][path[0][1]]
                if allowed(pi["ty"], path[1]):
                    r.ok("%s (%s)" % (eff.show(path, f), q), "written table is derived by the object for itself")
                    continue
                hit.setdefault(pi["n"], []).append((path, site, ch))
            for i, pi in enumerate(f["params"]):
                h = hit.get(pi["n"])
                if not h:
                    r.ok("%s: argument %s" % (q, pi["n"]), "never written")
                for path, site, ch in (h or [])[:1]:
                    r.bad("C05:%s:%s" % (q, eff.show(path, f)), effects.chain_text(ch) if ch else loc(*site),
                          "%s() writes %s of its caller, set at %s" % (q, eff.show(path, f), loc(*site)))
            r.count("entry_points")
            if f.get("retref") or strip(f["ret"]) != f["ret"].replace("const ", "").strip():
                r.bad("C05:ret:" + q, loc(f, f), "%s() returns a reference instead of a new image" % q)
            else:
                r.ok(q, "returns a new image by value")
    r.count("functions_analysed", len(eff.sum))
    pe = pyeffects.package(p, eff)
    r.count("python_functions_analysed", len(pe.sums))
    for k in PY:
        if k not in pe.sums:
            raise front.AnalysisError("anchor vanished: no Python function %s.%s" % k)
        m, f, _ = pe.funcs[k]
        s = pe.sums[k]
        hit = {}
        for o, w in s.mut.items():
            if o[0][0] == "P" and o[0][1] not in EXEMPT:
                hit.setdefault(o[0][1], []).append((o, w))
        for x in pe.params(f):
            if x in EXEMPT:
                continue
            if x in hit:
                o, w = hit[x][0]
                r.bad("C05:py:%s:%s" % (k[1], pyeffects.text(o)), w[0],
                      "%s() modifies its caller's %s: %s" % (k[1], pyeffects.text(o), pyeffects.whence(w)))
            else:
                r.ok("%s.%s: argument %s" % (k[0], k[1], x), "never mutated")
        al = [o for o in s.ret if o[0][0] == "P"]
        r.check(not al, "C05:py:alias:" + k[1], "%s:%d" % (m.rel, f.lineno),
                "%s() returns a new image" % k[1] if not al else
                "%s() can return %s itself (or a view of it) instead of a new image" % (k[1], pyeffects.text(al[0])))
