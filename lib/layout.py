"""Copies between layouts of an image: every element access of an array, a row-of-rows array or
a flat buffer becomes an event with its loops; a copy is decided by the coordinates it reads and
writes, the loops that give them and the shapes of both sides."""
import front, vg
from terms import *


def norm(ty):
    t = (ty or "").replace("const", "").replace("&", "").replace(" ", "")
    if t in ("std::valarray<std::valarray<double>>", "std::vector<std::vector<double>>", "std::vector<std::valarray<double>>"):
        return 2
    if t in ("std::valarray<double>", "std::vector<double>"):
        return 1
    if t == "double*":
        return "flat"
    return None


class LVG(vg.VG):
    shapes = None

    def shape(self, s, p):
        nf = 0
        while p.sels[nf][0] == "f":
            nf += 1
        v = self.rdbase(s, (p.root,) + p.sels[:nf])
        if v.op == "fill":
            inner = v.a[1]
            return (v.a[0], inner.a[0] if inner.op == "fill" else self.length(inner) if inner.op in ("param", "acc", "ext") else None)
        return (self.length(v), None)

    def tracedpath(self, p):
        t = super().tracedpath(p)
        if t is not None and t[0].startswith("arr ") and len(t[1]) > 1:
            # pointer arithmetic on a flat buffer
            x = num(0)
            for i in t[1]:
                x = add(x, i)
            return t[0], (x,)
        return t

    def trd(self, s, name, idx, p):
        x = super().trd(s, name, idx, p)
        self.events[-1]["shape"] = self.shape(s, p)
        return x

    def twr(self, s, name, idx, x, p):
        super().twr(s, name, idx, x, p)
        self.events[-1]["shape"] = self.shape(s, p)

    def call(self, n, s, raw=False):
        name = n.get("f") or ""
        base = name.split("::")[-1]
        if n.get("obj") is not None and base in ("push_back", "emplace_back") and n.get("args"):
            p = self.lv(n["obj"], s)
            x = self.ev(n["args"][0], s)
            nm = self.traced((p.root,) + p.sels) or "?"
            self.event("append", nm, (x,))
            self.wr(s, p, mk("append", self.rd(s, p) if not self.tracedpath(p) else mk("obj", "row", ()), x))
            return vg.VOID
        if base in ("fprintf", "fscanf", "sscanf", "printf", "fputs", "fputc", "puts", "putchar") and not self.p.targets(n):
            args = n.get("args") or []
            vals = []
            for a in args:
                try:
                    b = a
                    while b["k"] == "cast":
                        b = b["e"]
                    vals.append(mk("outarg") if base in ("fscanf", "sscanf") and b["k"] == "un" and b["op"] == "&" else self.ev(a, s))
                except vg.NotHandled:
                    vals.append(mk("unkarg"))
            self.event("io", base, tuple(vals), call=n)
            if base in ("fscanf", "sscanf"):
                nout = 0
                for a in args:
                    b = a
                    while b["k"] == "cast":
                        b = b["e"]
                    if b["k"] == "un" and b["op"] == "&":
                        self.wr(s, self.lv(b["e"], s), mk("scan", len(self.events), nout, tuple(k for k, t in self.loops)))
                        nout += 1
                    elif a["k"] == "ref" and a.get("ty", "").replace(" ", "").endswith("double*"):
                        try:
                            pt = vg.deref(self.ev(a, s))
                            self.wr(s, pt, mk("scan", len(self.events), nout, tuple(k for k, t in self.loops)))
                        except Exception:
                            self.event("io?", base, ())
                        nout += 1
            return fn("ext", mk("str", base), fresh("io", None) if False else mk("str", str(len(self.events))))
        return super().call(n, s, raw)


class Layout:
    def __init__(self, prog, f, opaque=None):
        self.p, self.f = prog, f
        self.vty = {}
        for g in prog.funcs.values():
            for h in (g if isinstance(g, list) else [g]):
                for q in h.get("params") or []:
                    self.vty[(q["id"], q["n"])] = q["ty"]
                if h.get("b"):
                    for n in front.walk(h["b"]):
                        if n.get("k") == "decl":
                            for x in n["v"]:
                                if "id" in x:
                                    self.vty[(x["id"], x["n"])] = x["ty"]
        self.pty = {q["n"]: q["ty"] for q in f["params"]}
        self.kind = {}
        v = LVG(prog, opaque=opaque, traced=self.traced)
        v.fastloops = True
        self.v = v
        try:
            self.ret, self.state, self.frame = v.run(f)
        except vg.Abort:
            raise front.AnalysisError(f["q"] + " never returns")
        self.events = v.events
        self.rows = {}
        for e in self.events:
            if self.kind.get(e["name"]) == 2 and e.get("shape") and e["shape"][1] is not None:
                self.rows[e["name"]] = e["shape"][1]
        self.unresolved = [front.loc(g, n) + " " + str(c) for g, n, c in v.unk]

    def traced(self, base):
        r = base[0]
        if len(base) > 1:
            return None
        k = nm = None
        if r.op == "local":
            k, nm = norm(self.vty.get((r.a[1], r.a[2]))), "local " + r.a[2] + "#%s" % r.a[1]
        elif r.op == "param":
            k, nm = norm(self.pty.get(r.a[0])), "param " + r.a[0]
        elif r.op == "deref" and r.a[0].op == "parg":
            k, nm = norm(self.pty.get(r.a[0].a[0])), "arr " + r.a[0].a[0]
        if k is None or k == "flat" and nm[:4] != "arr ":
            return None
        self.kind[nm] = k
        return nm
