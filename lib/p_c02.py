"""C02: columns are independent, and columns outside the window are untouched."""
import front, clocking, carried, defassign
from front import walk
from terms import *
from p_c17 import short


def run(r):
    prog = front.program()
    m = clocking.Model(prog)
    r.rule = ("every image element accessed while clocking column k has column index column_start + k, k below column_stop - column_start, in the "
              "value graph of the clocking walk; nothing else crosses columns: trap occupancy (abstract interpretation of where it comes from), "
              "scalars (definite assignment within the column loop)")
    r.assume += ["the readout object is not modified while clocking (checked: no non-const readout call inside the column loop)"]
    for u in m.unresolved:
        r.undecided(u, "loop or statement not resolved")
    image(r, m)
    cols = m.columnloops
    r.check(len(cols) >= 1, "C02:loop", front.loc(m.f), "there is a loop over columns around the exchange with the traps")
    # trap state
    flag = m.roeflag("empty_traps_between_columns")
    facts = [flag] if flag is not None else []
    for k in m.kinds:
        c = carried.Carried(m, k, facts)
        e = c.bad[0] if c.bad else (c.evs[-1] if c.evs else None)
        r.check(not c.bad, "C02:state:%s" % k.field, m.tag(e) if e else front.loc(m.f),
                "traps start every column from fresh occupancy when emptied between columns")
        r.count("manager_events", len(c.evs))
    scalars(r, prog, m)
    for e in m.events:
        if e["what"] == "call" and e.get("kind") is None and e["loops"] and e["loops"][0][0] in m.columns:
            r.check(e["const"] or m.printing(e), "C02:roe:%s" % e["name"], m.tag(e), "%s called for a column changes nothing another column sees" % e["name"])


def image(r, m):
    cs = mk("parg", "column_start", "i")
    stop = mk("parg", "column_stop", "i")
    n = 0
    arrs = {}
    for e in m.events:
        if not e.get("op", "").startswith("image."):
            continue
        wr = e["op"] == "image.wr"
        args = e["args"][:-1] if wr and len(e["args"]) > 1 else e["args"]
        if not e["loops"] or e["loops"][0][0] not in m.columns:
            # set-up of the whole array or its size
            if wr and e["array"].startswith("local"):
                r.check(len(args) < 2 and setup_copy(m, e), "C02:outside:wr", m.tag(e), "image elements are written only while clocking their column")
            elif len(args) == 2 and not m.printing(e):
                r.check(False, "C02:outside:rd", m.tag(e), "an image element is used outside the loop over columns")
            continue
        arrs[e["array"]] = 1
        n += 1
        what = "element read" if not wr else "element written"
        if len(args) < 2:
            if wr or not m.printing(e):
                r.check(not wr and only_len(e), "C02:whole:%s" % e["op"], m.tag(e), "no whole row of the image is %s while clocking a column" % ("written" if wr else "read"))
            continue
        k, trip = e["loops"][0]
        d = sub(numeric(args[1]), add(cs, k))
        key = "C02:column:%s:%s" % (e["op"], front.rel(e["f"]))
        if m.printing(e) and not wr:
            continue
        others = atoms(args[1], lambda y: y.op in ("loopout", "unk", "ext"))
        if val(d) is None and others and m.unresolved:
            r.undecided(m.tag(e), "column index")
            continue
        r.check(val(d) == 0, key, m.tag(e), "%s while clocking the k-th column of the window is in column column_start + k (it is %s)" % (what, short(args[1])))
        if trip is None:
            r.undecided(m.tag(e), "number of columns clocked")
            continue
        given_stop = given([lnot(cmp0("eq0", add(stop, num(1)), True))], trip)
        r.check(val(sub(numeric(given_stop), sub(stop, cs))) == 0, "C02:window", m.tag(e),
                "columns clocked are column_start to column_stop - 1 when a stop is given (count is %s)" % short(given_stop))
        all_ = given([cmp0("eq0", add(stop, num(1)), True)], trip)
        L = add(numeric(all_), cs)
        r.check(L.op == "fn" and L.a[0] == "len" and rowlike(L.a[1]), "C02:window:all", m.tag(e),
                "columns clocked are column_start to the last one when no stop is given (they end at %s)" % short(L))
    r.count("image_accesses", n)
    if not n:
        r.bad("C02:none", front.loc(m.f), "clocking accesses no image element")
    ret = m.ret
    r.check(ret.op == "init" and ret.a[0][0].op == "param" or ret.op in ("acc", "local"), "C02:return", front.loc(m.f), "the image returned is the copy of the input that was clocked (%s)" % short(ret))


def rowlike(t):
    """one row of the image (not the image itself)"""
    return t.op in ("acc", "sel") or t.op == "init" and any(x[0] == "i" for x in t.a[0][1:])


def only_len(e):
    return True


def setup_copy(m, e):
    x = e["args"][-1]
    return x.op == "init" and x.a[0][0].op == "param"


def scalars(r, prog, m):
    """variables declared outside the column loop and assigned inside are assigned before use in each column"""
    f = m.f
    loops = column_stmts(prog, m)
    for f, L in loops:
        body = L["b"]
        inner = defassign.declared_in(body)
        outer = {i: n for i, n in defassign.assigned_in(body).items() if i not in inner}
        iv = defassign.assigned_in(L.get("inc")) if L.get("inc") else {}
        iv.update(defassign.assigned_in(L.get("c")) if L.get("c") else {})
        names = {i: n["n"] for i, n in outer.items()}
        bad = {}

        def rep(i, n, fl):
            if fl == "un":
                bad.setdefault(i, n)
            else:
                r.undecided(front.loc(f, n), "%s is assigned in each column provided an inner loop runs" % names[i])
        track = {i for i in outer if i not in iv}
        s0 = {i: frozenset([("un", None)]) for i in track}
        defassign.DefAssign(prog, set(track), rep).st(body, s0)
        for i in track:
            r.check(i not in bad, "C02:scalar:%s" % names[i], front.loc(f, bad.get(i, L)), "%s is assigned in each column before it is used" % names[i])
        r.count("column_variables", len(track))


def column_stmts(prog, m):
    """the loop statements over columns: outermost for/while around an exchange event in its function"""
    f = m.f
    out = []

    def has(n):
        for x in walk(n):
            if x["k"] == "call" and (x.get("f") or "").endswith("n_electrons_released_and_captured"):
                return True
            if x["k"] == "call" and any(reaches(t) for t in prog.targets(x)):
                return True
        return False
    memo = {}

    def reaches(t):
        if t["id"] in memo:
            return memo[t["id"]]
        memo[t["id"]] = False
        if t["q"].endswith("::n_electrons_released_and_captured"):
            memo[t["id"]] = True
            return True
        memo[t["id"]] = any(reaches(u) for c in prog.calls(t) for u in prog.targets(c))
        return memo[t["id"]]

    def find(f, n, seen):
        if n is None:
            return False
        if n["k"] in ("for", "while", "do", "rfor") and has(n):
            out.append((f, n))
            return True
        hit = False
        if n["k"] == "call" and not (n.get("f") or "").endswith("n_electrons_released_and_captured"):
            for t in prog.targets(n):
                if reaches(t) and t["id"] not in seen:
                    hit |= find(t, t["b"], seen | {t["id"]})
        for c in front.kids(n):
            hit |= find(f, c, seen)
        return hit
    find(f, f["b"], set())
    return out
