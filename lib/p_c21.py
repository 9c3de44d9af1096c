"""C21: read-noise separation conserves the image and averages real neighbours only."""
import front, stencil, karr
from stencil import CLASSES
from terms import *
from bounds import Facts


def run(r):
    prog = front.program()
    r.rule = ("every array element the read-noise routine computes is a linear combination of pixels at fixed relative positions; per kind of pixel (3 x 3 kinds) the positions are distinct, "
              "lie inside the image, and the weights are one over their number; every other neighbour read is guarded by the edge of the image it would cross; "
              "the Python separation keeps the affine relation signal + noise = image on every path")
    r.assume += ["at least two rows and two columns", "real arithmetic"]
    means(r, prog, prog.fn("determine_read_noise_model"))
    karr.separation(r)


def means(r, prog, f):
    S = stencil.Stencils(prog, f)
    for u in S.m.unresolved:
        r.undecided(u, "not modelled")
    if S.C is None:
        r.undecided(front.rel(f["file"]) if "file" in f else f["q"], "no image size found")
        return
    arrays = sorted({e["array"] for e in S.ev if e["op"] == "arr.wr"})
    where = {}
    cur = {cl: {a: {(a, 0, 0): 1} for a in arrays} for cl in CLASSES}
    stencils = {cl: {} for cl in CLASSES}
    doubt = {cl: {} for cl in CLASSES}
    for group in groups(S):
        A, own = group[0]["array"], group[0]["args"][0]
        rc = S.coords(own, group[0])
        before = {cl: dict(cur[cl]) for cl in CLASSES}
        for cl in CLASSES:
            if rc is None:
                doubt[cl][A] = group[-1]
                continue
            for e in group:
                cov = S.covers(rc, e, cl)
                if cov == "none":
                    continue
                F = Facts([], S.positive, S.base(e) + S.classfacts(rc, cl))
                ap = S.applies(e, F)
                if ap is False:
                    continue
                if cov is None or ap is None:
                    doubt[cl][A] = e
                    continue
                if cov == "part":
                    doubt[cl].setdefault(A, e)
                    where.setdefault((A, cl), e)
                    continue
                doubt[cl].pop(A, None)
                cur[cl][A] = combine(S, e, cl, own, F, before, A)
                if cur[cl][A] is not None:
                    stencils[cl][A] = e
    S.result = {(A, cl): (cur[cl][A], stencils[cl].get(A), doubt[cl].get(A)) for A in arrays for cl in CLASSES}
    for A in arrays:
        got = [(cl, S.result[(A, cl)]) for cl in CLASSES]
        if not any(g is not None and len({k[1:] for k in g}) > 2 for cl, (g, e, d) in got):
            continue
        for cl, (g, e, d) in got:
            name = "%s, %s" % cl
            if d is not None:
                if (A, cl) in where and (g is None or len({k[1:] for k in g}) <= 1):
                    r.bad("C21:cover:%s:%s" % (cl[0].split()[0], cl[1].split()[0]), S.m.tag(d), "the local mean is not computed for every pixel of kind '%s'" % name)
                else:
                    r.undecided(S.m.tag(d), "the local mean of pixels of kind '%s'" % name)
                continue
            if g is None:
                r.undecided(f["q"], "the local mean of pixels of kind '%s' is not a linear combination of pixels" % name)
                continue
            ok = judge(r, S, A, cl, name, g, e)
    last(r, S, arrays)
    reads(r, S)


def last(r, S, arrays):
    """the pass that writes an array last reaches every pixel (flat passes)"""
    gs = groups(S)
    G = Facts([], S.positive, [sub(S.R, num(2)), sub(S.C, num(2))])
    for A in arrays:
        g = [g for g in gs if g[0]["array"] == A][-1]
        x, e = g[0]["args"][0], g[0]
        rc = S.coords(x, e)
        if rc is not None and rc[0] == "flat":
            r.ok(S.m.tag(e), "the last pass over %s reaches every pixel" % A)
        elif rc is None and len(e["loops"]) == 1 and x is e["loops"][0][0]:
            s = S.range(x, e)
            if s is not None and (G.holds(sub(s[0], num(1))) or G.holds(sub(sub(mul(S.R, S.C), num(2)), s[1]))):
                r.bad("C21:last:" + A, S.m.tag(e), "the last pass over %s covers elements %s to %s only" % (A, s[0], s[1]))


def groups(S):
    """writes of one element in one pass, in order; values are relative to the start of the pass"""
    out, seg, last = {}, 0, None
    for e in S.ev:
        if e["op"] != "arr.wr":
            continue
        ls = tuple(k.id for k, t in e["loops"])
        if ls != last:
            seg += 1
            last = ls
        out.setdefault((seg, e["array"], e["args"][0].id), []).append(e)
    return list(out.values())


def combine(S, e, cl, own, F, cur, A):
    """the value written as {(array, rows, columns): weight}, None when it is not linear in pixels"""
    v = S.resolve(e["args"][1], F)
    out = {}

    def put(k, w):
        out[k] = out.get(k, 0) + w
        if out[k] == 0:
            del out[k]
    for m, c in monos(v):
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "acc":
            return None
        a = m[0][0]
        X, idx = a.a[0], a.a[1]
        if len(idx) != 1:
            return None
        d = S.shift(idx[0], own)
        if d is None:
            return None
        # what the array holds, where that is the same rule for every pixel
        known = cur[cl].get(X)
        if d != (0, 0) and X in cur[cl] and any(cur[k][X] != known for k in CLASSES):
            put((X + " (in place)",) + d, c)
            continue
        if X not in cur[cl]:
            put((X,) + d, c)
        elif known is None:
            return None
        else:
            for k, w in known.items():
                put((k[0], k[1] + d[0], k[2] + d[1]), w * c)
    return out


def judge(r, S, A, cl, name, g, e):
    tag = S.m.tag(e) if e else S.f["q"]
    key = "%s:%s" % (cl[0].split()[0], cl[1].split()[0])
    steps = {}
    for k, w in g.items():
        steps.setdefault(k[1:], {})[k[0]] = w
    n = len(steps)
    if n == 1:
        return r.bad("C21:cover:" + key, tag, "no local mean is computed for pixels of kind '%s'" % name)
    for d in sorted(steps):
        r.check(S.inside(cl, d), "C21:outside:" + key, tag, "the mean for pixels of kind '%s' uses the pixel %+d rows, %+d columns away%s" % (
            name, d[0], d[1], "" if S.inside(cl, d) else ", which is not a neighbour inside the image"))
    if any("(in place)" in k[0] for k in g):
        return r.bad("C21:inplace:" + key, tag, "the mean for pixels of kind '%s' uses neighbours that may have been averaged already" % name)
    vs = list(steps.values())
    one = all(abs(w) * n == 1 for w in vs[0].values())
    r.check(all(v == vs[0] for v in vs) and one, "C21:divisor:" + key, tag, "the mean for pixels of kind '%s' sums %d pixels with weights %s" % (
        name, n, ", ".join(sorted({str(abs(w)) for v in vs for w in v.values()}))))


def reads(r, S):
    """every neighbour read stays inside the image and inside its row"""
    groups = {}
    for e in S.ev:
        if e["op"] == "arr.wr":
            groups.setdefault(tuple(k.id for k, t in e["loops"]), []).append(e)
    for e in S.ev:
        if e["op"] != "arr.rd":
            continue
        x = e["args"][0]
        tag = S.m.tag(e)
        flat = [w for w in groups.get(tuple(k.id for k, t in e["loops"]), []) if (S.coords(w["args"][0], w) or "?")[0] == "flat"]
        if not flat:
            inimage(r, S, e, x, tag)
            continue
        w = flat[0]
        rc = S.coords(w["args"][0], w)
        d = S.shift(x, w["args"][0])
        if d is None:
            r.undecided(tag, "position of the pixel read")
            continue
        for cl in CLASSES:
            if S.covers(rc, e, cl) == "none":
                continue
            if S.inside(cl, d):
                r.ok(tag, "neighbour %+d, %+d of pixels of kind '%s, %s'" % (d + cl))
                continue
            F = Facts([], S.positive, S.base(e) + S.classfacts(rc, cl))
            ap = S.applies(e, F)
            if ap is False:
                r.ok(tag, "neighbour %+d, %+d excluded by the guard for pixels of kind '%s, %s'" % (d + cl))
            elif ap is None:
                r.undecided(tag, "guard of neighbour %+d, %+d of pixels of kind '%s, %s'" % (d + cl))
            else:
                r.bad("C21:read:%+d:%+d:%s:%s" % (d + (cl[0].split()[0], cl[1].split()[0])), tag, "pixels of kind '%s, %s' read the pixel %+d rows, %+d columns away, outside the image or its row" % (cl + d))


def inimage(r, S, e, x, tag):
    """an element given by row and column: the row is one of the image"""
    F = Facts(e["pc"], S.positive, S.base(e))
    rc = S.coords(x, e)
    if rc is None:
        total = mul(S.R, S.C)
        trips = [S.range(x, e)]
        if trips[0] is not None:
            lo, hi = trips[0]
            G = Facts([], S.positive, [sub(S.R, num(2)), sub(S.C, num(2))])
            if not e["pc"] or all(not S.geometric(c, e) or c.op == "gt0" and c in loopconds(e) for c in e["pc"]):
                if G.holds(sub(neg(lo), num(1))) or G.holds(sub(hi, total)):
                    return r.bad("C21:read:%s" % x, tag, "the element read, %s, is outside the image" % x)
        return r.undecided(tag, "row and column of the element read")
    if rc[0] == "flat":
        return r.ok(tag, "element of the image")
    lo, hi = rc[0], sub(sub(S.R, num(1)), rc[0])
    if F.holds(lo) and F.holds(hi):
        return r.ok(tag, "row %s of the image" % rc[0])
    s = S.range(rc[0], e)
    G = Facts([], S.positive, [sub(S.R, num(2)), sub(S.C, num(2))])
    if s is not None and (G.holds(sub(neg(s[0]), num(1))) or G.holds(sub(s[1], S.R))) and all(c in loopconds(e) or not S.geometric(c, e) for c in e["pc"]):
        return r.bad("C21:read:%s" % x, tag, "the row read, %s, is outside the image" % rc[0])
    r.undecided(tag, "row %s of the image" % rc[0])


def loopconds(e):
    out = []
    for k, t in e["loops"]:
        if t is not None:
            out.append(cmp0("gt0", sub(t, k), True))
    return out
