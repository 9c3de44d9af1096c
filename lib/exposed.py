"""Upward-exposed reads of object fields: which fields of its parameters' objects (or
of *this) a function may read before it has certainly rewritten them whole."""
import front
from front import walk, kids
from effects import base_name
from defassign import isprint

SIZE = {"resize", "assign", "clear"}


class Exposed:
    def __init__(self, prog, eff):
        self.p, self.eff = prog, eff
        self.memo = {}

    def of(self, f):
        """({(root, field): (f, node, chain)}, {(root, field)} certainly rewritten)"""
        i = f["id"]
        if i not in self.memo:
            self.memo[i] = ({}, frozenset())
            w = Walk(self, f)
            self.memo[i] = w.run()
        return self.memo[i]


class Walk:
    def __init__(self, X, f):
        self.X, self.f = X, f
        self.exp = {}
        self.rets = []
        self.brk, self.cont = [], []

    def run(self):
        s = frozenset()
        for i in self.f.get("inits") or []:
            s = self.ex(i.get("e"), s)
            if i.get("field") and i.get("written") and s is not None:
                s = s | {(("T",), i["field"])}
        s = self.st(self.f.get("b"), s) if self.f.get("b") else s
        outs = [x for x in self.rets + [s] if x is not None]
        k = frozenset.intersection(*outs) if outs else frozenset()
        return self.exp, k

    def paths(self, e):
        return [(r, fs) for r, fs in self.X.eff.lv(self.f, e) if r[0] in ("T", "P", "G") and fs]

    def read(self, e, s, chain=()):
        for r, fs in self.paths(e):
            if fs[0] in ("[]", "*"):
                continue
            k = (r, fs[0])
            if k not in s:
                self.exp.setdefault(k, (self.f, e, chain))

    def whole(self, e):
        """the one field that e denotes completely"""
        while e is not None and e["k"] == "cast":
            e = e["e"]
        ps = self.paths(e) if e is not None and e["k"] == "mem" else []
        if len(ps) == 1 and len(ps[0][1]) == 1:
            return (ps[0][0], ps[0][1][0])
        return None

    def target(self, e, s):
        """evaluate the index expressions of a store's target, without reading it"""
        if e is None or s is None:
            return s
        if e["k"] == "idx":
            s = self.target(e["a"], s)
            for c in kids(e):
                if c is not e["a"]:
                    s = self.ex(c, s)
            return s
        if e["k"] == "call" and e.get("obj") is not None and base_name(e.get("f")) in ("operator[]", "at"):
            s = self.target(e["obj"], s)
            for a in e["args"]:
                s = self.ex(a, s)
            return s
        if e["k"] in ("mem", "ref", "this"):
            return s
        return self.ex(e, s)

    def ex(self, n, s):
        if n is None or s is None:
            return s
        k = n["k"]
        if k == "mem":
            self.read(n, s)
            b = n["e"]
            while b is not None and b["k"] in ("mem", "cast"):
                b = b["e"]
            return self.ex(b, s) if b is not None and b["k"] not in ("ref", "this") else s
        if k == "asg":
            s = self.ex(n["b"], s)
            w = self.whole(n["a"])
            if n["op"] != "=":
                s = self.ex(n["a"], s)
            else:
                s = self.target(n["a"], s)
            return s | {w} if w and s is not None else s
        if k == "bin" and n.get("op") in ("&&", "||"):
            s = self.ex(n["a"], s)
            t = self.ex(n["b"], s)
            return s
        if k == "cond":
            s = self.ex(n["c"], s)
            a, b = self.ex(n["a"], s), self.ex(n["b"], s)
            return self.join(a, b)
        if k in ("call", "ctor"):
            if isprint(n):
                return s
            ts = self.X.p.targets(n)
            nm = base_name(n.get("f"))
            if n.get("op") == "=" and n.get("obj") is not None:
                for a in n["args"]:
                    s = self.ex(a, s)
                w = self.whole(n["obj"])
                s = self.target(n["obj"], s)
                if w and s is not None:
                    return s | {w}
                return s
            if n.get("obj") is not None and not ts and nm in SIZE:
                for a in n["args"]:
                    s = self.ex(a, s)
                w = self.whole(n["obj"])
                return s | {w} if w and s is not None else s
            if not ts and nm == "swap":
                for a in list(n["args"]) + ([n["obj"]] if n.get("obj") else []):
                    w = self.whole(a)
                    s = s | {w} if w else self.ex(a, s)
                return s
            if n.get("obj") is not None:
                o = n["obj"]
                s = self.ex(o, s)
            for a in n["args"]:
                s = self.ex(a, s)
            if s is None:
                return None
            if ts:
                ks = None
                for t in ts:
                    e, kl = self.X.of(t)
                    for (r, fld), (g, nd, ch) in e.items():
                        for mr, mfs in self.X.eff.map(self.f, n, t, (r, (fld,))):
                            if mr[0] in ("T", "P", "G") and mfs and mfs[0] not in ("[]", "*"):
                                if (mr, mfs[0]) not in s:
                                    self.exp.setdefault((mr, mfs[0]), (g, nd, (((self.f, n),) + ch)[:8]))
                    mk = set()
                    for r, fld in kl:
                        m = self.X.eff.map(self.f, n, t, (r, (fld,)))
                        if len(m) == 1:
                            mr, mfs = list(m)[0]
                            if len(mfs) == 1:
                                mk.add((mr, mfs[0]))
                    ks = mk if ks is None else ks & mk
                s = s | ks
            if n.get("noret") or nm in ("exit", "abort"):
                return None
            return s
        if k == "throw":
            self.ex(n.get("e"), s)
            return None
        if k in ("lambda", "sizeof"):
            return s
        if k == "sexpr":
            return self.st(n["b"], s)
        for c in kids(n):
            s = self.ex(c, s)
        return s

    @staticmethod
    def join(*xs):
        xs = [x for x in xs if x is not None]
        return frozenset.intersection(*xs) if xs else None

    def st(self, n, s):
        if s is None or n is None:
            return s
        if isinstance(n, list):
            for x in n:
                s = self.st(x, s)
            return s
        k = n["k"]
        if k == "blk":
            return self.st(n["b"], s)
        if k == "decl":
            for v in n["v"]:
                if v.get("init") is not None:
                    s = self.ex(v["init"], s) if not v.get("ref") else self.target(v["init"], s)
            return s
        if k == "if":
            s = self.st(n["init"], s) if n.get("init") else s
            s = self.ex(n["c"], s)
            return self.join(self.st(n["a"], s), self.st(n["b"], s) if n.get("b") else s)
        if k in ("for", "while", "rfor", "do"):
            if n.get("init") is not None and k != "rfor":
                s = self.st(n["init"], s)
            if k == "rfor":
                s = self.ex(n["e"], s)
            if n.get("c") is not None and k != "do":
                s = self.ex(n["c"], s)
            self.brk.append([])
            self.cont.append([])
            b = self.st(n["b"], s)
            cs, bs = self.cont.pop(), self.brk.pop()
            b = self.join(b, *cs)
            if b is not None and n.get("inc") is not None:
                b = self.ex(n["inc"], b)
            if k == "do":
                b = self.ex(n["c"], b)
                return self.join(b, *bs)
            return s
        if k == "omp":
            return self.st(n["b"], s)
        if k == "ret":
            self.rets.append(self.ex(n.get("e"), s))
            return None
        if k == "break":
            if self.brk:
                self.brk[-1].append(s)
            return None
        if k == "continue":
            if self.cont:
                self.cont[-1].append(s)
            return None
        if k == "switch":
            s = self.ex(n["c"], s)
            self.brk.append([])
            cur, dflt = None, False
            for x in (n["b"]["b"] if n["b"]["k"] == "blk" else [n["b"]]):
                y = x
                while y is not None and y["k"] in ("case", "default"):
                    dflt |= y["k"] == "default"
                    cur = self.join(cur, s)
                    y = y.get("b")
                if y is not None and cur is not None:
                    cur = self.st(y, cur)
            outs = self.brk.pop()
            return self.join(cur, *(outs + ([] if dflt else [s])))
        if k in ("case", "default", "label"):
            return self.st(n.get("b"), s)
        if k == "try":
            return self.join(self.st(n["b"], s), *[self.st(h["b"], s) for h in n.get("h") or []])
        if k == "expr":
            return self.ex(n["e"], s)
        if k == "throw":
            return None
        if k in ("goto", "nop"):
            return s
        return self.ex(n, s)
