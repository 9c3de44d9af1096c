"""C25: results do not depend on the memory layout of NumPy inputs. Every array the Python
package hands to the Cython layer, and every address the Cython layer hands to C++, is decided
on every path by abstract interpretation: element type, memory order, length."""
import ast, re
import arrays, front, layout, pysrc, pyx
from arrays import Interp, V, user
from terms import *



def buffer(a):
    """(element type, dimensions) of a typed array parameter"""
    t = ast.literal_eval(a) if isinstance(a, ast.Constant) else None
    if not isinstance(t, str):
        return None
    m = re.match(r"(?:np|numpy)\s*\.\s*ndarray\s*\[\s*([\w\.]+)\s*(?:,(.*))?\]\s*$", t)
    if m:
        nd = re.search(r"ndim\s*=\s*(\d)", m.group(2) or "")
        return m.group(1).split(".")[-1], int(nd.group(1)) if nd else 1, "mode" in (m.group(2) or "")
    m = re.match(r"(?:const\s+)?(\w+)\s*\[\s*(:[^\]]*)\]\s*$", t)
    if m:
        return m.group(1), m.group(2).count(",") + 1, "::1" in m.group(2)
    return None


def run(r):
    px = pyx.wrapper()
    mods = {k: m for k, m in pysrc.modules().items() if k != "__init__"}
    r.rule = ("a buffer handed to C++ is C-contiguous, of element type double without loss, and at least as long as C++ reads; "
           "the array returned is the one C++ wrote")
    r.assume += ["attributes of objects handed to add_cti hold what their constructors stored"]
    prog = front.program()
    summ = {}
    funcs = {}
    for m in mods.values():
        fs = {n.name: n for n in m.tree.body if isinstance(n, ast.FunctionDef)}
        funcs[m.name] = fs
        arrays.summarise(m.tree, fs, summ)
    allf = {}
    for fs in funcs.values():
        allf.update(fs)
    # ---- what the package hands to the Cython layer
    records, wraps, roots = [], {}, 0

    def hook(mod):
        def on_call(ip, e, nm, args, kws, s):
            if nm in px.functions and nm not in funcs[mod.name]:
                f = e.func
                if isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Name) and f.value.id in ("w", "wrapper")):
                    return None
                fn = px.functions[nm]
                bound = {}
                for p, v in zip(fn.args.args, args):
                    bound[p.arg] = v
                bound.update({k: v for k, v in kws.items() if k is not None})
                records.append((mod, e, fn, bound, s.copy()))
                return V("yes", "double", kind="array")
            return None
        return on_call
    for m in mods.values():
        defs = [(n, None) for n in m.tree.body if isinstance(n, ast.FunctionDef)]
        for c in m.tree.body:
            if isinstance(c, ast.ClassDef):
                defs += [(n, c) for n in c.body if isinstance(n, ast.FunctionDef)]
        for fn, cls in defs:
            if fn.name.startswith("_") and fn.name != "__init__":
                continue
            static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list)
            ip = Interp(dict(allf, **funcs[m.name]), summ, hook(m), m)
            ip.run(fn, None, None if static else cls)
            roots += 1
            for w in ip.wraps:
                wraps.setdefault((m.name, w.lineno, w.col_offset), (m, w, fn))
    if not records:
        raise front.AnalysisError("no call into the Cython layer found")
    for (mn, l, c), (m, w, fn) in sorted(wraps.items(), key=lambda x: x[0]):
        r.bad("C25:wrap:%s:%s:%s" % (m.rel, fn.name, ast.unparse(w)[:60]), "%s:%d (%s)" % (m.rel, l, fn.name),
              "%s is taken in the element type of the caller's array: unsigned or narrow integers wrap around" % ast.unparse(w))
    r.ok("python", "no difference of pixels is taken in the caller's element type, other than those reported")
    # ---- element types at the typed parameters
    seen = {}
    for m, e, fn, bound, s in records:
        for p in fn.args.args:
            b = buffer(p.annotation)
            if b is None:
                continue
            where = "%s: %s argument %s" % (m.rel, fn.name, p.arg)
            v = bound.get(p.arg)
            key = "C25:dtype:%s:%s:%s" % (m.name, fn.name, p.arg)
            if v is None:
                seen.setdefault(key, []).append((where, e, "?", "argument not found"))
            elif b[0] not in arrays.DOUBLE:
                seen.setdefault(key, []).append((where, e, "?", "element type %s" % b[0]))
            elif v.lossy:
                seen.setdefault(key, []).append((where, e, "bad", "values went through %s before they reach C++" % v.lossy))
            elif v.dtype == "double":
                seen.setdefault(key, []).append((where, e, "ok", ""))
            elif v.dtype == "user" and v.kind != "num":
                seen.setdefault(key, []).append((where, e, "bad", "the caller's array is handed on in its own element type: only double is accepted"))
            elif v.dtype in arrays.NARROW:
                seen.setdefault(key, []).append((where, e, "bad", "the array has element type %s: only double is accepted" % v.dtype))
            else:
                seen.setdefault(key, []).append((where, e, "?", "element type not known"))
    for key, xs in sorted(seen.items()):
        bad = [x for x in xs if x[2] == "bad"]
        q = [x for x in xs if x[2] == "?"]
        if bad:
            r.bad(key, bad[0][0] + " (line %d)" % bad[0][1].lineno, bad[0][3])
        elif q:
            r.undecided(q[0][0], q[0][3])
        else:
            r.ok(xs[0][0], "element type double on every path (%d)" % len(xs))
    # ---- how much C++ reads
    reads = {}
    for name in px.externs:
        for f in prog.funcs.values():
            for g in (f if isinstance(f, list) else [f]):
                if g["q"] == name and g.get("b") and len(g["params"]) == len(px.externs[name]["params"]) and any(layout.norm(p["ty"]) == "flat" for p in g["params"]):
                    reads[name] = extents(r, prog, g)
    # ---- the Cython functions, with what the package hands them
    called = {}
    for m, e, fn, bound, s in records:
        called.setdefault(fn.name, []).append((m, e, bound, s))
    sinks = {}
    for name, fn in px.functions.items():
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in px.externs for n in ast.walk(fn)):
            continue
        runs = called.get(name)
        if runs is None:
            runs = [(None, None, {}, arrays.State())]
        for m, e, bound, s in runs:
            one(r, px, fn, m, e, bound, s, reads, sinks)
    for key, xs in sorted(sinks.items()):
        bad = [x for x in xs if x[1] == "bad"]
        q = [x for x in xs if x[1] == "?"]
        if bad:
            r.bad(key, bad[0][0], bad[0][2])
        elif q:
            r.undecided(q[0][0], q[0][2])
        else:
            r.ok(xs[0][0], xs[0][2])
    r.count("functions_interpreted", roots)
    r.count("calls_into_cython", len({(m.name, e.lineno) for m, e, fn, b, s in records}))
    r.count("paths_into_cython", len(records))
    r.count("buffers", len(sinks))


def extents(r, prog, f):
    """{parameter: [number of elements needed]} for the flat buffers of f"""
    L = layout.Layout(prog, f)
    out = {}
    for e in L.events:
        if not e["name"].startswith("arr ") or L.kind.get(e["name"]) != "flat":
            continue
        nm = e["name"][4:]
        if len(e["args"]) < 1 or e.get("args") is None:
            out.setdefault(nm, []).append(None)
            continue
        x = e["args"][0]
        for k, trip in reversed(e["loops"]):
            if k is None or trip is None:
                continue
            x = top(x, k, trip)
            if x is None:
                break
        if x is not None:
            x = add(x, num(1))
            if any(a.op != "parg" for a in atoms(x, lambda y: y.op not in ("num", "poly"))):
                x = None
        out.setdefault(nm, []).append(x)
    return out


def top(x, k, trip):
    """largest value of x when k runs from 0 to trip-1, when x grows with k"""
    m = {k.id: sub(trip, num(1))}
    d = sub(x, subst(x, {k.id: num(0)}, {}))
    one_ = subst(d, {k.id: num(1)}, {})
    if d is not mul(one_, k):
        return None
    p = dict(monos(one_))
    if all(c >= 0 for c in p.values()):
        return subst(x, m, {})
    return None


def one(r, px, fn, m, call, bound, s, reads, sinks):
    from_py = m is not None
    base = "%s %s" % (px.rel, fn.name)
    site = " for %s:%d" % (m.rel, call.lineno) if from_py else ""
    args, ids = {}, {}
    for p in fn.args.args:
        b = buffer(p.annotation)
        v = bound.get(p.arg, user(p.arg)) if from_py else user(p.arg)
        if b is not None:
            v = v.but(dtype="double", kind="array")
            if b[2]:
                v = v.but(contig="yes")
            if b[1] == 1 and v.contig == "fresh":
                v = v.but(contig="yes")
            if v.len is None:
                v = v.but(len=mk("asym", "unk", p.arg))
        args[p.arg] = v
    got = []

    def on_call(ip, e, nm, av, kw, st):
        if nm == "__addr__" and e.args:
            x = e.args[0]
            if isinstance(x, ast.Subscript):
                a = ip.ev(x.value, st)
                ix = x.slice.elts if isinstance(x.slice, ast.Tuple) else [x.slice]
                zero = all(isinstance(i, ast.Constant) and i.value == 0 for i in ix)
                return V("?", "?", kind="ptr", items=[a], num=num(0 if zero else 1), ids=a.ids)
            return V(kind="ptr?")
        if nm == "__cast__" and len(av) > 1:
            return av[1]
        if isinstance(e.func, ast.Name) and nm in px.externs and nm not in px.functions:
            got.append((e, nm, av, list(st.facts), st))
            return V("?", "?", kind="ext")
        return None
    ip = Interp(px.functions, {}, on_call)
    st0 = arrays.State()
    rets = ip.run(fn, args)
    written = set()
    for e, nm, av, facts, st in got:
        ps = px.externs[nm]["params"]
        by = dict(zip([p[1] for p in ps], av))
        cf = [g for x in front.program().funcs.values() for g in (x if isinstance(x, list) else [x]) if g["q"] == nm and g.get("b") and len(g["params"]) == len(ps)]
        cnames = [p["n"] for p in cf[0]["params"]] if len(cf) == 1 else [p[1] for p in ps]
        numof = {}
        for c, v in zip(cnames, av):
            numof[c] = v
        for i, ((ty, pn), v) in enumerate(zip(ps, av)):
            if "double" not in ty or "*" not in ty:
                continue
            key = "C25:buffer:%s:%s" % (fn.name, pn)
            where = "%s: %s of %s%s" % (base, pn, nm, site)
            if v.kind != "ptr":
                sinks.setdefault(key, []).append((where, "?", "address not understood"))
                continue
            a = v.items[0]
            if "const" not in ty and cf and i < len(cnames):
                written |= a.ids
            if val(v.num) != 0:
                sinks.setdefault(key, []).append((where, "?", "address of a later element"))
                continue
            if a.contig in ("user", "fresh"):
                sinks.setdefault(key, []).append((where, "bad", "its address is handed to C++ although the array is %s: C++ reads it as C-contiguous"
                                                 % ("laid out as the caller left it" if a.contig == "user" else "a copy in the memory order of the caller's array")))
                continue
            if a.contig == "?":
                sinks.setdefault(key, []).append((where, "?", "memory order of the array not known"))
                continue
            sinks.setdefault(key, []).append((where, "ok", "C-contiguous double buffer on every path"))
            # ---- length
            if nm not in reads or i >= len(cnames):
                continue
            bp = next((buffer(p.annotation) for p in fn.args.args if buffer(p.annotation) and args[p.arg].ids & a.ids), None)
            if bp is None or bp[1] != 1 or not from_py and False:
                continue
            k2 = "C25:length:%s:%s" % (fn.name, pn)
            for x in reads[nm].get(cnames[i], []):
                sinks.setdefault(k2, []).append(length(x, a, numof, facts + s.facts, s, "%s: length of %s%s" % (base, pn, site)))
    # ---- the array returned is the one C++ wrote
    if written:
        for v, st in rets:
            if v.kind in ("array", "user") and v.contig != "?":
                key = "C25:returned:%s" % fn.name
                if v.ids & written:
                    sinks.setdefault(key, []).append((base, "ok", "returns the array whose memory C++ wrote"))
                else:
                    sinks.setdefault(key, []).append((base, "bad", "returns an array other than the one whose memory C++ wrote"))
        if from_py and isinstance(getattr(call, "parent", None), ast.Expr):
            for p in fn.args.args:
                b = buffer(p.annotation)
                v = bound.get(p.arg)
                if b and b[1] == 2 and v is not None and v.contig in ("user", "fresh"):
                    sinks.setdefault("C25:result:%s:%s" % (m.name, fn.name), []).append(
                        ("%s:%d" % (m.rel, call.lineno), "bad", "the result of %s is dropped, but the array handed over may be copied before C++ writes it" % fn.name))


def length(x, a, numof, facts, s, where):
    if x is None or a.len is None:
        return (where, "?", "extent or length not known")
    sb = {}
    for p in atoms(x, lambda y: y.op == "parg"):
        v = numof.get(p.a[0])
        if v is None or v.num is None:
            return (where, "?", "count %s not known" % p.a[0])
        sb[p.id] = v.num
    need = subst(x, sb, {})
    d = sub(a.len, need)
    best = None
    tries = [d]
    for f in facts:
        if f.op == "atl0":
            tries += [sub(y, f.a[0]) for y in list(tries[:40])]
            continue
        tries += [sub(y, mul(num(c), f)) for y in list(tries[:40]) for c in (1, -1)]
    for y in tries:
        if all(c >= 0 for c in dict(monos(y)).values()):
            return (where, "ok", "at least as long as C++ reads")
    if any(z.op == "asym" and z.a[0] in ("unk", "comp") for z in atoms(d, lambda y: y.op == "asym")) or s.guards:
        return (where, "?", "length against %s not decided" % show(need)[:80])
    return (where, "bad", "holds %s elements where C++ reads %s" % (show(a.len)[:120], show(need)[:120]))
