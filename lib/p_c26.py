"""C26: every pixel and every manager that clocking touches lies inside its array."""
import front, clocking
from bounds import Facts
from terms import *
from p_c17 import short


def run(r):
    prog = front.program()
    m = clocking.Model(prog)
    r.rule = ("for each access of the clocking walk to an element of the image or of an array of trap managers: 0 <= index < length follows "
              "linearly from the loop ranges and conditions under which the access happens")
    r.assume += ["windows passed by the caller lie inside the image (0 <= start <= stop <= size, or stop = -1), rows of an image have equal length, images have at least one row",
                 "per-phase manager arrays are as long as the value graph of setup_traps says"]
    for u in m.unresolved:
        r.undecided(u, "loop or statement not resolved")
    n = 0
    for e in m.events:
        if str(e.get("op", "")).startswith("image.") and e["loops"]:
            n += 1
            access(r, m, e)
        elif e.get("kind") is not None and "len" in e and e["what"] == "call":
            n += 1
            manager(r, m, e)
    rows(r, m)
    r.count("accesses", n)
    r.check(n > 0, "C26:none", front.loc(m.f), "the clocking loop touches the image and the managers (%d accesses)" % n)


def wide(a, m):
    """an image row's length: all rows alike"""
    return a.op == "fn" and a.a[0] == "len" and a.a[1].op == "acc"


def canon(m, t):
    ws = {}
    for a in atoms(t, lambda a: wide(a, m)):
        ws[a.id] = mk("fn", "len", mk("str", "row"))
    return subst(t, ws, {}) if ws else t


def window(a):
    """an integer parameter as used for the start of a window"""
    return a.op == "parg" and a.a[-1] == "i"


def windowstop(t):
    """P == -1 ? size : P, for a parameter P: at most size"""
    out = []
    for a in atoms(t, lambda a: a.op == "ite"):
        c, x, y = a.a
        for p, s in ((x, y), (y, x)):
            if window(p) and s.op == "fn" and s.a[0] == "len":
                out.append(sub(s, a))
    return out


def access(r, m, e):
    idx = e["args"][:-1] if e["op"] == "image.wr" else e["args"]
    what = "written" if e["op"] == "image.wr" else "read"
    pc = [canon(m, c) for c in e["pc"]]
    lens = [canon(m, e["len"]), mk("fn", "len", mk("str", "row"))]
    extra = []
    for c in pc:
        for x in windowstop(c):
            if x not in extra:
                extra.append(x)
    F = Facts(pc, window, extra)
    for name, i, n in zip(("row", "column"), idx, lens):
        i = canon(m, i)
        lo = F.holds(i)
        hi = F.holds(sub(sub(n, num(1)), i))
        if not lo and hi and unsigned(m, e):
            lo = True
        verdict(r, m, e, "C26:%s:%s" % (name, what), lo, hi, i, n, F,
                "the %s of the pixel %s lies inside the image" % (name, what))


TABLES = ("express_matrix", "store_trap_states_matrix")


def rows(r, m):
    """the rows clocked are those of the window, and every table looked up has an entry for them"""
    start, stop = mk("parg", "row_start", "i"), mk("parg", "row_stop", "i")
    seen = {}
    for e in m.events:
        if e["region"] is None or not e["loops"]:
            continue
        for t in e["pc"] + [a for a in e["args"] if isinstance(a, T)]:
            for a in atoms(t, lambda a: a.op == "sel" and a.a[0].op in ("fld", "init") and field(a.a[0]) in TABLES):
                seen.setdefault(a, e)
    for a, e in seen.items():
        i = a.a[1]
        size = None
        row, passes = i, None
        for k, n in e["loops"]:
            li = linear_in(row, k)
            if li and li[0].op == "fn" and li[0].a[0] == "len":
                row, passes, size = li[1], (k, n), li[0]
        if passes is None:
            r.undecided(m.tag(e), "table subscript " + short(i))
            continue
        name = field(a.a[0])
        pc = [canon(m, c) for c in e["pc"] if not occurs(c, a)]
        extra = []
        for c in pc:
            extra += windowstop(c)
        F = Facts(pc, window, extra)
        if passes[1] is not None:
            r.check(F.holds(sub(sub(passes[1], num(1)), passes[0])), "C26:pass:" + name, m.tag(e), "%s is looked up for existing express passes" % name)
        verdict(r, m, e, "C26:row:" + name, F.holds(row), F.holds(sub(sub(size, num(1)), row)), row, size, F,
                "the row clocked, for which %s is looked up, lies inside the image" % name)
        ks = [(k, n) for k, n in e["loops"] if occurs(row, k)]
        if len(ks) != 1 or ks[0][1] is None:
            r.undecided(m.tag(e), "rows clocked: " + short(row))
            continue
        k, trip = ks[0]
        d = sub(row, add(start, k))
        r.check(val(d) == 0, "C26:window:start", m.tag(e), "the k-th row clocked is row_start + k (it is %s)" % short(row))
        none = cmp0("eq0", add(stop, num(1)), True)
        g = numeric(given([lnot(none)], trip))
        r.check(val(sub(g, sub(stop, start))) == 0, "C26:window:stop", m.tag(e), "rows are clocked up to row_stop - 1 when a stop is given (count is %s)" % short(g))
        g = numeric(given([none], trip))
        r.check(val(sub(g, sub(size, start))) == 0, "C26:window:all", m.tag(e), "rows are clocked up to the last one when no stop is given (count is %s)" % short(g))
    r.check(len(seen) > 0, "C26:tables", front.loc(m.f), "clocking looks up its tables for every row (%d look-ups)" % len(seen))


def field(t):
    return t.a[0] if t.op == "fld" else t.a[0][-1][1] if t.a[0][-1][0] == "f" else None


def verdict(r, m, e, key, lo, hi, i, n, F, text):
    if lo and hi:
        r.ok(m.tag(e), text)
        return
    odd = atoms(i, lambda a: a.op in ("unk", "ext", "acc", "loop"))
    side = " and ".join(x for x, ok in (("below the first", lo), ("beyond the last", hi)) if not ok)
    text = "%s: it can be %s (index %s, size %s)" % (text, side, short(i), short(n))
    if odd:
        r.undecided(m.tag(e), text)
    else:
        r.bad(key, m.tag(e), text)


def manager(r, m, e):
    i, n = e["idx"], e["len"]
    pc = list(e["pc"])
    F = Facts(pc, window, [])
    # the arrays have one manager per phase when the kind is present
    if e["kind"].guard is not None:
        n = given(pc + [e["kind"].guard], n)
    verdict(r, m, e, "C26:manager:%s" % e["kind"].field, F.holds(i), F.holds(sub(sub(n, num(1)), i)), i, n, F,
            "the %s manager asked exists" % e["kind"].field)


def unsigned(m, e):
    """the row subscript is an unsigned variable: a negative value becomes larger than any size"""
    f, line = e["f"], e["node"].get("l") if e.get("node") else None
    found = []
    for x in front.walk(f["b"]):
        if x.get("k") == "call" and x.get("op") == "[]" and x.get("l") == line and x.get("args") and "valarray<double>" in str(x.get("ty")):
            i = x["args"][0]
            while i.get("k") == "cast":
                i = i["e"]
            found.append(i.get("t") == "u")
    return bool(found) and all(found)
