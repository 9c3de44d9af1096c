"""Definite assignment over the structured AST.

state: {variable id: flags}; flag "un" = unassigned on some branch (condition
labels kept for correlated branches), "lz" = unassigned only if some loop makes
no pass.  An absent key is assigned.  Reads inside the arguments of printing
calls are not results and are skipped (property C12)."""
import json
import front

PRINT = ("printf", "fprintf", "print_array", "print_array_2D", "print_v", "puts", "putchar", "std::cout")
SCALAR = {"i", "u", "d", "b", "p", "e"}


def key(n):
    def strip(x):
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items() if k not in ("l", "ty")}
        if isinstance(x, list):
            return [strip(y) for y in x]
        return x
    return json.dumps(strip(n), sort_keys=True)


def isprint(n):
    f = (n.get("f") or "").split("::")[-1]
    return f.startswith("print") or f in ("fprintf", "puts", "putchar", "fputs", "fflush") or (n.get("op") == "<<" and "basic_ostream" in (n.get("ty") or ""))


class DefAssign:
    def __init__(self, prog, track, report, noret=()):
        self.p = prog
        self.track = track          # ids to follow
        self.report = report        # f(var id, node, flags)
        self.brk = []
        self.cont = []
        self.conds = []             # branch labels in force
        self.noret = noret

    # ------------------------------------------------------------ lattice
    @staticmethod
    def merge(*ss):
        ss = [s for s in ss if s is not None]
        if not ss:
            return None
        out = {}
        for s in ss:
            for k, v in s.items():
                out[k] = out.get(k, frozenset()) | v
        return out

    def assign(self, s, i):
        if i in s:
            s = dict(s)
            del s[i]
        return s

    def read(self, s, n):
        i = n["id"]
        fl = s.get(i)
        if not fl:
            return
        bad = [x for x in fl if x[0] == "un"]
        # unassigned only where a condition that holds here is false
        bad = [x for x in bad if x[1] is None or x[1] not in [self.neg(c) for c in self.conds]]
        self.report(i, n, "un" if bad else "lz")

    @staticmethod
    def neg(c):
        return c[1:] if c.startswith("!") else "!" + c

    # ------------------------------------------------------------ expressions
    def isvar(self, n):
        while n and n["k"] == "cast":
            n = n["e"]
        if n and n["k"] == "ref" and n.get("id") in self.track:
            return n
        return None

    def ex(self, n, s):
        if s is None or n is None:
            return s
        k = n["k"]
        if k == "ref":
            if n.get("id") in self.track:
                self.read(s, n)
            return s
        if k == "asg":
            v = self.isvar(n["a"])
            if v is not None:
                s = self.ex(n["b"], s)
                if n["op"] != "=":
                    self.read(s, v)
                return self.assign(s, v["id"])
            s = self.ex(n["b"], s)
            return self.ex(n["a"], s)
        if k in ("bin",) and n.get("op") in ("&&", "||"):
            s = self.ex(n["a"], s)
            return self.merge(s, self.ex(n["b"], s))
        if k == "cond":
            s = self.ex(n["c"], s)
            return self.merge(self.ex(n["a"], s), self.ex(n["b"], s))
        if k == "un" and n.get("op") == "&":
            v = self.isvar(n["e"])
            if v is not None:
                return self.assign(s, v["id"])
            return self.ex(n["e"], s)
        if k in ("call", "ctor"):
            if isprint(n):
                return s
            args = list(n.get("args") or [])
            o = n.get("obj")
            if o is not None:
                v = self.isvar(o)
                if v is not None and n.get("op") == "=":
                    for a in args:
                        s = self.ex(a, s)
                    return self.assign(s, v["id"])
                s = self.ex(o, s)
            pk = n.get("pk") or ""
            outs = []
            for i, a in enumerate(args):
                v = self.isvar(a)
                c = pk[i] if i < len(pk) else "v"
                if v is not None and c == "r":
                    outs.append(v["id"])
                    continue
                s = self.ex(a, s)
            for i in outs:
                s = self.assign(s, i)
            if n.get("noret") or (n.get("f") or "").split("::")[-1] in ("exit", "abort", "_exit"):
                return None
            return s
        if k == "lambda":
            return s
        if k == "throw":
            self.ex(n.get("e"), s)
            return None
        if k == "sizeof":
            return s
        if k == "sexpr":
            return self.st(n["b"], s)
        for c in front.kids(n):
            if s is None:
                return None
            s = self.ex(c, s)
        return s

    # ------------------------------------------------------------ statements
    def blk(self, b, s):
        for x in b if isinstance(b, list) else [b]:
            if s is None:
                return None
            s = self.st(x, s)
        return s

    def mark(self, s0, s, c):
        """variables still unassigned at the end of a branch entered under c"""
        return s

    def st(self, n, s):
        if s is None or n is None:
            return s
        k = n["k"]
        if k == "blk":
            return self.blk(n["b"], s)
        if k == "decl":
            for v in n["v"]:
                if v.get("init") is not None:
                    s = self.ex(v["init"], s)
                    if s is not None:
                        s = self.assign(s, v.get("id"))
                elif v.get("id") in self.track and v.get("t") in SCALAR:
                    s = dict(s)
                    s[v["id"]] = frozenset([("un", None)])
            return s
        if k == "if":
            s = self.st(n["init"], s) if n.get("init") else s
            s = self.ex(n["c"], s)
            if s is None:
                return None
            c = key(n["c"])
            self.conds.append(c)
            a = self.st(n["a"], s)
            self.conds[-1] = "!" + c
            b = self.st(n["b"], s) if n.get("b") else s
            self.conds.pop()
            if a is not None and b is not None:
                a, b = self.label(a, b, c), self.label(b, a, "!" + c)
            return self.merge(a, b)
        if k in ("for", "while", "rfor", "do"):
            return self.loop(n, s)
        if k == "omp":
            return self.st(n["b"], s)
        if k == "ret":
            self.ex(n.get("e"), s)
            return None
        if k == "break":
            if self.brk:
                self.brk[-1].append(s)
            return None
        if k == "continue":
            if self.cont:
                self.cont[-1].append(s)
            return None
        if k == "switch":
            s = self.ex(n["c"], s)
            self.brk.append([])
            cur, dflt = None, False
            for x in (n["b"]["b"] if n["b"]["k"] == "blk" else [n["b"]]):
                y = x
                while y is not None and y["k"] in ("case", "default"):
                    dflt |= y["k"] == "default"
                    cur = self.merge(cur, s)
                    y = y.get("b")
                if y is not None and cur is not None:
                    cur = self.st(y, cur)
            outs = self.brk.pop()
            return self.merge(cur, *(outs + ([] if dflt else [s])))
        if k in ("case", "default", "label"):
            return self.st(n.get("b"), s)
        if k == "try":
            a = self.st(n["b"], s)
            hs = [self.st(h["b"], s) for h in n.get("h") or []]
            return self.merge(a, *hs)
        if k in ("goto", "nop"):
            return s
        if k == "expr":
            return self.ex(n["e"], s)
        if k == "throw":
            return None
        return self.ex(n, s)

    def label(self, a, b, c):
        """unassigned in branch a but assigned in b: unassigned only where c held"""
        out = {}
        for i, fl in a.items():
            if i not in b:
                fl = frozenset((x[0], c if x[1] is None else x[1]) for x in fl)
            out[i] = fl
        return out

    def loop(self, n, s):
        k = n["k"]
        if n.get("init") is not None and k != "rfor":
            s = self.st(n["init"], s)
        if k == "rfor":
            s = self.ex(n["e"], s)
        head = s
        if n.get("c") is not None and k != "do":
            s = self.ex(n["c"], s)
        if s is None:
            return None
        self.brk.append([])
        self.cont.append([])
        b = self.st(n["b"], s)
        cs, bs = self.cont.pop(), self.brk.pop()
        b = self.merge(b, *cs)
        if b is not None and n.get("inc") is not None:
            b = self.ex(n["inc"], b)
        if k == "do":
            if b is not None:
                b = self.ex(n["c"], b)
            return self.merge(b, *bs)
        out = dict(b) if b is not None else {}
        for i, fl in s.items():
            if b is None or i not in b:
                out[i] = out.get(i, frozenset()) | {("lz", None)}
            else:
                out[i] = out[i]
        return self.merge(out, *bs) if (b is not None or s) else self.merge(*bs)


def assigned_in(body):
    """ids of variables assigned anywhere in body"""
    out = {}
    for n in front.walk(body):
        if n["k"] == "asg" or n["k"] == "un" and n.get("op") in ("++", "--", "post++", "post--", "pre++", "pre--"):
            a = n.get("a") if n["k"] == "asg" else n.get("e")
            while a and a["k"] == "cast":
                a = a["e"]
            if a and a["k"] == "ref" and a.get("c") in ("local", "param"):
                out.setdefault(a["id"], a)
    return out


def declared_in(body):
    out = {}
    for n in front.walk(body):
        if n["k"] == "decl":
            for v in n["v"]:
                if "id" in v:
                    out[v["id"]] = v
        if n["k"] == "rfor" and isinstance(n.get("v"), dict) and "id" in n["v"]:
            out[n["v"]["id"]] = n["v"]
        if n["k"] == "lambda":
            for q in n.get("params") or []:
                out[q["id"]] = q
    return out
