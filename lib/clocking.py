"""The clocking model: one abstract walk over clock_charge_in_one_direction with
the per-kind trap managers opaque and the image traced.  The result is the list
of events (image reads/writes, manager construction/setup/restore/exchange/prune/
store/reset, ROE set-up calls), each with the exact condition under which it
happens, the loops it sits in and its arguments as terms."""
import front
from terms import *
import vg

ROOT = "clock_charge_in_one_direction"
BASE = "TrapManagerBase"


def record(prog, q):
    for r in prog.js["records"]:
        if r["q"] == q:
            return r
    return None


def derived(prog, base):
    out = {base}
    n = 0
    while n != len(out):
        n = len(out)
        for r in prog.js["records"]:
            if any((b if isinstance(b, str) else b.get("n")) in out for b in r.get("bases", [])):
                out.add(r["q"])
    return out


class Kind:
    def __init__(self, field, cls):
        self.field, self.cls = field, cls
        self.guard = None

    def __repr__(self):
        return self.field


class Model:
    def __init__(self, prog):
        self.p = prog
        self.f = prog.fn(ROOT)
        if self.f is None or not self.f.get("b"):
            raise front.AnalysisError("no function " + ROOT)
        self.managers = derived(prog, BASE)
        self.roes = derived(prog, "ROE")
        self.kinds = []
        self.holder = None
        seen = set()
        for r in prog.js["records"]:
            ks = []
            for fl in r["fields"]:
                ty = fl["ty"].replace(" ", "")
                for pre in ("std::valarray<", "std::vector<"):
                    if ty.startswith(pre) and ty.endswith(">"):
                        c = ty[len(pre):-1]
                        if c in self.managers:
                            ks.append(Kind(fl["n"], c))
            if ks and r["q"] not in seen and len(ks) > len(self.kinds):
                seen.add(r["q"])
                self.kinds, self.holder = ks, r["q"]
        if not self.kinds:
            raise front.AnalysisError("no record holds arrays of trap managers")
        self.bykind = {k.field: k for k in self.kinds}
        # declared types of locals/params, to know which arrays to trace
        self.vty = {}
        for g in prog.funcs.values():
            for q in g.get("params") or []:
                self.vty[(q["id"], q["n"])] = q["ty"]
            if g.get("b"):
                for n in front.walk(g["b"]):
                    if n.get("k") == "decl":
                        for x in n["v"]:
                            if "id" in x:
                                self.vty[(x["id"], x["n"])] = x["ty"]
        self.pty = {q["n"]: q["ty"] for q in self.f["params"]}
        v = vg.VG(prog, opaque=self.opaque, on_call=self.oncall, traced=self.traced)
        v.fastloops = True
        self.v = v
        try:
            self.ret, self.state, self.frame = v.run(self.f)
        except vg.Abort:
            raise front.AnalysisError(ROOT + " never returns")
        self.events = v.events
        self.unresolved = [front.loc(n) + " " + str(c) for f, n, c in v.unk] if v.unk else []
        self.classify()
        self.findcolumns()

    # ------------------------------------------------------------ callbacks
    @staticmethod
    def is2d(ty):
        return ty and ty.replace(" ", "").replace("const", "").startswith("std::valarray<std::valarray<double>>")

    def traced(self, base):
        r = base[0]
        if len(base) > 1:
            n = base[-1][1]
            return n if n in self.bykind else None
        if r.op == "local" and self.is2d(self.vty.get((r.a[1], r.a[2]))):
            return "local " + r.a[2]
        if r.op == "param" and self.is2d(self.pty.get(r.a[0])):
            return "param " + r.a[0]
        return None

    def opaque(self, g):
        return g.get("cls") in self.managers or g.get("cls") in self.roes

    def kindof(self, this):
        """(kind, index term, path of the array) for a manager path"""
        if not isinstance(this, vg.Path):
            return None
        for j, x in enumerate(this.sels):
            if x[0] == "f" and x[1] in self.bykind and j + 1 < len(this.sels) and this.sels[j + 1][0] == "i":
                return self.bykind[x[1]], this.sels[j + 1][1], vg.Path(this.root, this.sels[:j + 1])
        return None

    def oncall(self, v, n, g, this, args, s):
        q = g["q"]
        if self.opaque(g):
            av = [a if isinstance(a, T) else v.rd(s, a) for a in args]
            e = v.event("call", q, av)
            e["this"] = this
            e["fn"] = g
            e["const"] = bool(g.get("const"))
            e["call"] = n
            k = self.kindof(this)
            if k:
                e["kind"], e["idx"], path = k
                e["len"] = v.length(v.rd(s, path))
                e["array"] = path
            r = mk("ext", q, vg.addr(this) if this is not None else None, len(v.events))
            e["res"] = r
            return r
        if g.get("cls") is None and (g["q"].startswith("print") or self.printer(g)):
            return vg.VOID
        return None

    def printer(self, g):
        return False

    # ------------------------------------------------------------ classification
    def classify(self):
        for e in self.events:
            if e["what"] in ("rd", "wr"):
                nm = e["name"].split(".")[0]
                if nm in self.bykind:
                    e["kind"] = self.bykind[nm]
                    e["idx"] = e["args"][0]
                    e["op"] = e["what"] + "." + ".".join(e["name"].split(".")[1:])
                elif nm.startswith("local ") or nm.startswith("param "):
                    e["op"] = "image." + e["what"]
                    e["array"] = nm
            elif e["what"] == "call":
                e["op"] = e["name"].split("::")[-1]
        # the guard of each kind: the condition under which its array is non-empty
        for k in self.kinds:
            k.guard = None
            for e in self.events:
                if e.get("kind") is k and "len" in e:
                    L = e["len"]
                    if L.op == "ite" and L.a[2] is num(0):
                        k.guard = L.a[0]
                    elif L.op == "ite" and L.a[1] is num(0):
                        k.guard = lnot(L.a[0])
        omp = [e for e in self.events if e["region"] is not None]
        self.main = omp
        reg = [set(e["pc"]) for e in self.main if not isinstance(e.get("node"), type(None))]
        self.prelude = set.intersection(*reg) if reg else set()

    def findcolumns(self):
        """symbols of the outermost loops in which traps exchange charge"""
        self.columns = []
        self.columnloops = []
        for e in self.events:
            if self.role(e) == "exchange" and e["loops"] and e["loops"][0][0] not in self.columns:
                self.columns.append(e["loops"][0][0])
                self.columnloops.append(e["loops"][0])

    def roeflag(self, name):
        """the condition 'readout flag is set', as it occurs in the model"""
        for e in self.events:
            for c in e["pc"]:
                for a in atoms(c, lambda y: y.op in ("init", "fld", "sel") and str(y).endswith("." + name)):
                    return lnot(cmp0("eq0", a, True))
        return None

    def tag(self, e):
        return front.loc(e["f"], e.get("node"))

    def loopsyms(self, e):
        return [k for k, n in e["loops"]]

    def extra(self, e, own=True):
        """conditions specific to this event: minus loop ranges, minus the prelude, minus (optionally) the kind's own guard"""
        rng = set()
        for k, n in e["loops"]:
            if n is not None:
                rng.add(cmp0("gt0", sub(n, k), True))
        out = []
        for c in e["pc"]:
            if c in rng or c in self.prelude:
                continue
            if own and e.get("kind") is not None and c is e["kind"].guard:
                continue
            out.append(c)
        return out

    def canon(self, e, t):
        """rename loop symbols by depth so that events of different kinds compare"""
        m = {k.id: mk("sym", "L%d" % i) for i, (k, n) in enumerate(e["loops"])}
        return subst(t, m, {})

    ROLE = {"setup": "setup", "restore_trap_states": "restore", "store_trap_states": "store", "reset_trap_states": "reset",
            "prune_watermarks": "prune", "n_electrons_released_and_captured": "exchange"}

    def role(self, e):
        if e["what"] == "call" and e.get("kind") is not None:
            return self.ROLE.get(e["op"])
        return None

    def signature(self, k):
        """ordered state-changing operations on one kind: (role, trips, conditions) with loop symbols canonical"""
        out = []
        for e in self.events:
            if e.get("kind") is not k:
                continue
            ro = self.role(e)
            if ro is None:
                if e["what"] == "call" and not e["const"] and not self.printing(e):
                    ro = e["op"]
                else:
                    continue
            conds = []
            for c in self.extra(e):
                conds.append(self.neutral(self.canon(e, c)))
            trips = tuple(self.neutral(self.canon(e, n)) if n is not None else mk("str", "?") for _, n in e["loops"])
            out.append(((ro, trips, tuple(sorted(conds, key=str)), self.neutral(self.canon(e, e["idx"]))), self.tag(e)))
        return out

    def neutral(self, t):
        """results of exchanges of other kinds are not part of a signature"""
        xs = {x.id: mk("sym", "earlier") for x in atoms(t, lambda y: y.op == "ext")}
        return subst(t, xs, {}) if xs else t

    def printing(self, e):
        """happens only under a verbosity / print_inputs condition"""
        for c in e["pc"]:
            if atoms(c, lambda y: y.op == "global" or y.op == "parg" and y.a[0] == "print_inputs"):
                return True
        return False
