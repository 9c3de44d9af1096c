"""C17: absent trap types are never touched; every present type takes part."""
import front, clocking
from terms import *


def within_len(m, e):
    facts = list(e["pc"])
    L = given(facts, e["len"])
    i = e["idx"]
    if val(i) is not None and val(i) == 0:
        # needs a non-empty array: the number of phases is at least one
        if L is num(0) or L.op == "ite":
            return False
        return True
    return implied(facts, cmp0("gt0", sub(numeric(L), numeric(i)), True))


def run(r):
    prog = front.program()
    m = clocking.Model(prog)
    r.rule = ("path-sensitive bounds of every access to a trap-manager array in the clocking walk (value graph of "
              "clock_charge_in_one_direction with TrapManagerManager inlined), and equality of the per-type operation sequences")
    r.assume += ["a CCD has at least one phase", "constructors copy the trap-type arrays they are given (std::valarray semantics)"]
    for u in m.unresolved:
        r.undecided(u, "loop or statement not resolved")
    n = 0
    for e in m.events:
        if not e.get("kind") or "len" not in e:
            continue
        r.check(within_len(m, e), "C17:absent:%s:%s" % (e["kind"].field, e["op"]), m.tag(e),
                "access to %s[%s] in %s happens only when that type's managers exist: array length is %s" % (
                    e["kind"].field, short(e["idx"]), e["op"], short(given(e["pc"], e["len"]))))
        n += 1
    r.count("manager_array_accesses", n)
    # every kind goes through the same sequence of operations
    seqs = {}
    for k in m.kinds:
        seqs[k.field] = m.signature(k)
    # printing-only (const) operations are no part of taking part
    major = {}
    for k in m.kinds:
        major.setdefault(tuple(x[0] for x in seqs[k.field]), []).append(k.field)
    ref = max(major, key=lambda x: (len(major[x]), len(x)))
    for k in m.kinds:
        sg = seqs[k.field]
        same = tuple(x[0] for x in sg) == ref
        miss = [x for x in ref if x not in [y[0] for y in sg]]
        more = [y for y in sg if y[0] not in ref]
        what = "same operations, loops and conditions as the other types"
        if not same:
            what = "type takes part differently from the others: " + (
                "missing " + showsig(miss[0]) if miss else "only here " + showsig(more[0][0]) if more else "order of operations differs")
        r.check(same, "C17:part:%s" % k.field, more[0][1] if more else "%s (%s)" % (m.holder, k.field), what)
        ops = [x[0][0] for x in sg]
        for need in ("setup", "restore", "exchange", "prune", "store", "reset"):
            r.check(need in ops, "C17:need:%s:%s" % (need, k.field), "%s (%s)" % (m.holder, k.field), "%s managers take part in %s" % (k.field, need))
    r.count("trap_types", len(m.kinds))


def showsig(x):
    return "%s under {%s} in loops <%s>" % (x[0], "; ".join(short(c) for c in x[2]), ", ".join(short(t) for t in x[1]))


def short(t):
    s = str(t)
    return s if len(s) < 200 else s[:200] + "…"
