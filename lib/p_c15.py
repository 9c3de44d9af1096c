"""C15: every resource acquired by a call is released, once, and not used afterwards."""
import front, typestate


def run(r):
    r.rule = ("typestate (live, released, handed on) of every allocator result over every path of every function, conditions on pointers and on flags derived from them kept apart; "
              "at each return nothing acquired is live unless it is returned or kept in a member that the class releases; no second release, no use after release, matching release function")
    r.assume += ["an allocation failure of GSL or new does not return", "calls outside the sources do not keep the pointers they are given, except those of the C++ library",
                 "paths that leave through an exception or exit() are outside the property"]
    prog = front.program()
    seen = {}

    def report(kind, f, n, rid, text):
        k = (kind, rid, f["q"])
        seen.setdefault(k, (f, n, text))
    ts = typestate.Typestate(prog, report)
    todo = [f for f in prog.defined() if front.rel(f).startswith(("src/", "python/", "include/")) and not front.rel(f).split("/")[-1].startswith("test")]
    for f in sorted(todo, key=lambda f: (front.rel(f), f.get("l") or 0)):
        ts.check(f)
    # members
    for cls, field, rid, g, node in ts.members:
        w = front.loc(g, node)
        ok = any(fd == field for c, fd in ts.memfree)
        r.check(ok, "C15:member:%s.%s" % (cls, field), w, "the resource kept in %s::%s is released by the class" % (cls, field))
        if ok and not any(c.get("kind") == "ctor" and c.get("cls") == cls and any(cls in q["ty"] and "&" in q["ty"] for q in c["params"]) for c in prog.funcs.values()):
            copies = [x for h in prog.defined() for x in front.walk(h["b"]) if x["k"] in ("ctor", "decl", "var") and ("<%s>" % cls) in str(x.get("ty"))]
            fields = [x for rec in prog.records.values() for x in rec.get("fields", []) if ("<%s>" % cls) in x["ty"]]
            r.check(not copies and not fields, "C15:copied:%s.%s" % (cls, field), w, "objects of %s are not copied with the resource they release" % cls)
    bad = set()
    for (kind, rid, q), (f, n, text) in sorted(seen.items(), key=repr):
        g, node = ts.sites.get(rid, (f, n))[:2] if rid in ts.sites else (f, n)
        bad.add(rid)
        if f["id"] in ts.lossy and kind == "leak":
            r.undecided(front.loc(f, n or node), "path conditions lost: " + text)
            continue
        what = {"leak": "never released on some path", "double": "released twice on some path", "uaf": "used after release", "mismatch": "released the wrong way"}[kind]
        name = (node or {}).get("f") or "new"
        r.bad("C15:%s:%s:%s:%s" % (kind, q, g["q"], name), front.loc(f, n or node), "result of %s: %s: %s" % (name, what, text))
    for rid in sorted(ts.stat["sites"]):
        g, node = ts.sites[rid][:2]
        if rid not in bad:
            r.check(True, "C15:site", front.loc(g, node), "released on every path out of %s" % g["q"])
    for f in {f["id"]: f for f in ts.given_up}.values():
        r.undecided(front.loc(f), "too many paths")
    r.count("functions", ts.stat["functions"])
    r.count("acquisitions", len(ts.stat["sites"]))
    r.count("releases", len(ts.stat["releases"]))
    r.count("function exits", ts.stat["exits"])
