"""Constant propagation with path splitting over the AST of whole functions: a
value is a constant, a symbolic expression over the outside world, or unknown.
Used where behaviour is a finite table of cases (the command line)."""
import re
import front


class Unresolved(Exception):
    pass


class Agg:
    """array or record value (immutable)"""

    def __init__(self, items, fields=None):
        self.items, self.fields = tuple(items), fields

    def key(self):
        return ("agg", self.items)


UNK = ("?",)


def const(v):
    return isinstance(v, (int, float, str))


class State:
    __slots__ = ("m", "eff", "pos", "n")

    def __init__(self, m=None, eff=(), pos=0, n=0):
        self.m, self.eff, self.pos, self.n = m if m is not None else {}, eff, pos, n

    def copy(self):
        return State(dict(self.m), self.eff, self.pos, self.n)

    def effect(self, *e):
        s = self.copy()
        s.eff = s.eff + (e,)
        return s


STEPS = 40000


class AbsInt:
    """script: what each call of a scripted function returns, in order; opaque: functions that are effects"""

    def __init__(self, prog, script=None, scripted=(), opaque=()):
        self.p, self.script, self.scripted, self.opaque = prog, list(script or []), set(scripted), set(opaque)
        self.frames = 0
        self.seen_args = []         # arguments of the scripted calls
        self.work = 0
        self.ginit = {}
        for g in prog.js["globals"]:
            if g.get("def") and not g.get("staticlocal") and "init" in g:
                self.ginit.setdefault((g["q"], None), g["init"])

    # ---- functions
    def call(self, f, args, s):
        """-> [(kind, value, state)], kind in return/exit/throw"""
        self.frames += 1
        if self.frames > 2000:
            raise Unresolved("too many calls")
        fr = self.frames
        s = s.copy()
        for q, a in zip(f["params"], args):
            s.m[("L", fr, q["id"])] = a
        out = []
        for k, v, t in self.st(f["b"], s, fr):
            if k == "next":
                out.append(("return", None, t))
            elif k in ("return", "exit", "throw"):
                out.append((k, v, t))
            else:
                raise Unresolved(k + " outside a loop")
        return self.merge(out)

    def merge(self, outs):
        seen, r = set(), []
        for k, v, s in outs:
            key = (k, self.hk(v), s.eff, s.pos, tuple(sorted(((repr(a), repr(self.hk(b))) for a, b in s.m.items() if a[0] == "G"))))
            if key not in seen:
                seen.add(key)
                r.append((k, v, s))
        return r

    @staticmethod
    def hk(v):
        return v.key() if isinstance(v, Agg) else v

    # ---- statements
    def st(self, n, s, fr):
        self.work += 1
        if self.work > STEPS:
            raise Unresolved("too many paths")
        if n is None:
            return [("next", None, s)]
        k = n["k"]
        if k == "blk":
            return self.block(n["b"], s, fr)
        if k == "expr":
            return self.unval(self.ev(n["e"], s, fr))
        if k == "decl":
            outs = [("next", None, s)]
            for v in n["v"]:
                if "id" not in v:
                    raise Unresolved("declaration")
                nxt = []
                for kk, vv, t in outs:
                    if kk != "next":
                        nxt.append((kk, vv, t))
                        continue
                    if v.get("static") and ("L", "static", v["id"]) in t.m:
                        nxt.append((kk, vv, t))
                        continue
                    if v.get("ref") and v.get("init") is not None and self.lv(v["init"], t, fr) is not None:
                        t = t.copy()
                        t.m[("L", fr, v["id"])] = ("alias", self.lv(v["init"], t, fr))
                        nxt.append(("next", None, t))
                        continue
                    if v.get("init") is None:
                        t = t.copy()
                        t.m[("L", fr, v["id"])] = UNK
                        nxt.append(("next", None, t))
                        continue
                    for k2, x, u in self.ev(v["init"], t, fr):
                        if k2 == "val":
                            u = u.copy()
                            u.m[("L", fr, v["id"])] = x
                            nxt.append(("next", None, u))
                        else:
                            nxt.append((k2, x, u))
                outs = nxt
            return outs
        if k == "if":
            outs = []
            pre = [("next", None, s)]
            if n.get("init"):
                pre = self.st(n["init"], s, fr)
            if n.get("cv"):
                pre = [y for kk, vv, t in pre for y in (self.st(n["cv"], t, fr) if kk == "next" else [(kk, vv, t)])]
            for kk, vv, t in pre:
                if kk != "next":
                    outs.append((kk, vv, t))
                    continue
                for k2, c, u in self.ev(n["c"], t, fr):
                    if k2 != "val":
                        outs.append((k2, c, u))
                        continue
                    b = self.truth(c)
                    if b is not False:
                        outs += self.st(n["a"], u, fr)
                    if b is not True:
                        outs += self.st(n.get("b"), u, fr)
            return self.merge2(outs)
        if k in ("while", "for", "do"):
            return self.loop(n, s, fr)
        if k == "switch":
            return self.switch(n, s, fr)
        if k in ("case", "default", "label"):
            return self.st(n.get("b"), s, fr)
        if k in ("break", "continue"):
            return [(k, None, s)]
        if k == "ret":
            if n.get("e") is None:
                return [("return", None, s)]
            return [("return" if kk == "val" else kk, v, t) for kk, v, t in self.ev(n["e"], s, fr)]
        if k == "nop":
            return [("next", None, s)]
        if k == "throw":
            return [("throw", None, s)]
        raise Unresolved("statement " + k)

    def merge2(self, outs):
        seen, r = set(), []
        for k, v, s in outs:
            key = (k, self.hk(v), s.eff, s.pos, tuple(sorted((repr(a), repr(self.hk(b))) for a, b in s.m.items())))
            if key not in seen:
                seen.add(key)
                r.append((k, v, s))
        return r

    def unval(self, outs):
        return [("next" if k == "val" else k, v, t) for k, v, t in outs]

    def block(self, b, s, fr):
        outs = [("next", None, s)]
        for x in b:
            nxt = []
            for k, v, t in outs:
                nxt += self.st(x, t, fr) if k == "next" else [(k, v, t)]
            outs = nxt
        return outs

    def loop(self, n, s, fr):
        outs, live = [], []
        for k, v, t in self.st(n.get("init"), s, fr) if n["k"] == "for" else [("next", None, s)]:
            (live if k == "next" else outs).append((k, v, t))
        first = n["k"] == "do"
        rounds, unknown = 0, 0
        while live:
            rounds += 1
            if rounds > 60:
                raise Unresolved("loop without end")
            body = []
            for _, _, t in live:
                if first or n.get("c") is None:
                    body.append(t)
                    continue
                for k, c, u in self.ev(n["c"], t, fr):
                    if k != "val":
                        outs.append((k, c, u))
                        continue
                    b = self.truth(c)
                    if b is None:
                        unknown += 1
                        outs.append(("next", None, u))
                        if unknown <= 2:
                            body.append(u)
                    elif b:
                        body.append(u)
                    else:
                        outs.append(("next", None, u))
            first = False
            live = []
            for t in body:
                for k, v, u in self.st(n["b"], t, fr):
                    if k in ("next", "continue"):
                        if n["k"] == "for" and n.get("inc"):
                            for k2, v2, w in self.ev(n["inc"], u, fr):
                                (live if k2 == "val" else outs).append(("next" if k2 == "val" else k2, v2, w))
                        else:
                            live.append(("next", None, u))
                    elif k == "break":
                        outs.append(("next", None, u))
                    else:
                        outs.append((k, v, u))
            live = self.merge2(live)
        return self.merge2(outs)

    def switch(self, n, s, fr):
        body = n["b"]["b"] if n["b"]["k"] == "blk" else [n["b"]]
        flat = []               # (labels, statement)
        for x in body:
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x)
                x = x.get("b")
            flat.append((labels, x))
        outs = []
        for k, v, t in self.ev(n["c"], s, fr):
            if k != "val":
                outs.append((k, v, t))
                continue
            if not const(v):
                starts = [i for i, (ls, x) in enumerate(flat) if ls] + [None]
            else:
                st, dflt = None, None
                for i, (ls, x) in enumerate(flat):
                    for l in ls:
                        if l["k"] == "default":
                            dflt = i
                        else:
                            (kk, cv, _), = self.ev(l["e"], t, fr)
                            if cv == v and st is None:
                                st = i
                starts = [st if st is not None else dflt]
            for i in starts:
                if i is None:
                    outs.append(("next", None, t))
                    continue
                for k2, v2, u in self.block([x for _, x in flat[i:] if x is not None], t, fr):
                    outs.append(("next" if k2 == "break" else k2, v2, u))
        return self.merge2(outs)

    # ---- expressions: [(val|exit|throw, value, state)]
    def truth(self, v):
        if v is None:
            return None
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, str):
            return True
        return None

    def evs(self, ns, s, fr):
        outs = [((), s)]
        ends = []
        for n in ns:
            nxt = []
            for vs, t in outs:
                for k, v, u in self.ev(n, t, fr):
                    if k == "val":
                        nxt.append((vs + (v,), u))
                    else:
                        ends.append((k, v, u))
            outs = nxt
        return outs, ends

    def ev(self, n, s, fr):
        self.work += 1
        if self.work > STEPS:
            raise Unresolved("too many paths")
        if n is None:
            return [("val", None, s)]
        k = n["k"]
        if k in ("int", "flt", "str"):
            return [("val", n["v"], s)]
        if k == "bool":
            return [("val", int(n["v"]), s)]
        if k in ("null", "zero"):
            return [("val", 0, s)]
        if k == "defarg":
            return self.ev(n.get("e"), s, fr) if n.get("e") else [("val", UNK, s)]
        if k in ("cast",):
            out = []
            for kk, v, t in self.ev(n["e"], s, fr):
                if kk == "val" and n.get("t") == "b" and isinstance(v, (int, float)):
                    v = int(v != 0)
                elif kk == "val" and n.get("t") in ("i", "u") and isinstance(v, float):
                    v = int(v)
                out.append((kk, v, t))
            return out
        if k == "ref":
            c = n["c"]
            if c == "enum":
                return [("val", n["v"], s)]
            if c == "func":
                return [("val", ("func", n.get("q", n.get("n")), n.get("id")), s)]
            key = self.lv(n, s, fr)
            return [("val", self.read(key, s), s)]
        if k == "bin":
            return self.binary(n, s, fr)
        if k == "un":
            return self.unary(n, s, fr)
        if k == "asg":
            return self.assign(n, s, fr)
        if k == "cond":
            outs = []
            for kk, c, t in self.ev(n["c"], s, fr):
                if kk != "val":
                    outs.append((kk, c, t))
                    continue
                b = self.truth(c)
                if b is not False:
                    outs += self.ev(n["a"], t, fr)
                if b is not True:
                    outs += self.ev(n["b"], t, fr)
            return outs
        if k == "sexpr":
            b = n["b"]["b"] if n["b"]["k"] == "blk" else [n["b"]]
            outs = []
            for kk, v, t in self.block(b, s, fr):
                outs.append(("val" if kk == "next" else kk, v, t))
            return outs
        if k == "init":
            outs, ends = self.evs(n.get("args") or [], s, fr)
            return ends + [("val", Agg(v, n.get("fields")), t) for v, t in outs]
        if k == "ctor":
            a = n.get("args") or []
            if len(a) == 1:
                return self.ev(a[0], s, fr)
            outs, ends = self.evs(a, s, fr)
            return ends + [("val", ("new", n.get("f")) + v if all(const(x) or isinstance(x, tuple) for x in v) else UNK, t) for v, t in outs]
        if k == "idx":
            outs, ends = self.evs([n["a"], n["b"]], s, fr)
            return ends + [("val", self.index(v[0], v[1]), t) for v, t in outs]
        if k == "mem":
            outs = []
            for kk, v, t in self.ev(n["e"], s, fr):
                if kk == "val":
                    v = self.member(v, n["n"])
                outs.append((kk, v, t))
            return outs
        if k == "call":
            return self.callexpr(n, s, fr)
        if k == "expr":
            return self.ev(n["e"], s, fr)
        if k in ("this", "lambda", "new", "delete"):
            return [("val", UNK, s)]
        raise Unresolved("expression " + k)

    def index(self, a, i):
        if isinstance(a, Agg) and isinstance(i, int):
            return a.items[i] if 0 <= i < len(a.items) else UNK
        if isinstance(a, str) and isinstance(i, int):
            return ord(a[i]) if i < len(a) else 0 if i == len(a) else UNK
        return ("idx", self.hk(a), self.hk(i))

    def member(self, v, f):
        if isinstance(v, Agg) and v.fields and f in v.fields:
            i = list(v.fields).index(f)
            return v.items[i] if i < len(v.items) else 0
        return ("mem", self.hk(v), f)

    def lv(self, n, s, fr):
        while n["k"] == "cast":
            n = n["e"]
        if n["k"] == "ref":
            if n["c"] in ("local", "param"):
                v = s.m.get(("L", fr, n["id"]))
                if isinstance(v, tuple) and v[:1] == ("alias",):
                    return v[1]
                return ("L", fr, n["id"])
            return ("G", n["q"])
        return None

    def read(self, key, s):
        if key is None:
            return UNK
        if key in s.m:
            v = s.m[key]
            return v
        if key[0] == "G":
            i = self.ginit.get((key[1], None))
            if i is not None:
                try:
                    (kk, v, _), = self.ev(i, State(), 0)
                    return v
                except (Unresolved, ValueError):
                    return UNK
            return ("g", key[1])
        return UNK

    def binary(self, n, s, fr):
        op = n["op"]
        if op in ("&&", "||"):
            outs = []
            for k, a, t in self.ev(n["a"], s, fr):
                if k != "val":
                    outs.append((k, a, t))
                    continue
                x = self.truth(a)
                if x is False and op == "&&":
                    outs.append(("val", 0, t))
                    continue
                if x is True and op == "||":
                    outs.append(("val", 1, t))
                    continue
                for k2, b, u in self.ev(n["b"], t, fr):
                    if k2 == "val":
                        y = self.truth(b)
                        if x is not None and y is not None:
                            b = int(y)
                        elif op == "&&" and y is False:
                            b = 0
                        elif op == "||" and y is True:
                            b = 1
                        else:
                            b = UNK
                    outs.append((k2, b, u))
            return outs
        if op == ",":
            outs, ends = self.evs([n["a"], n["b"]], s, fr)
            return ends + [("val", v[1], t) for v, t in outs]
        outs, ends = self.evs([n["a"], n["b"]], s, fr)
        return ends + [("val", self.arith(op, v[0], v[1]), t) for v, t in outs]

    def arith(self, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b),
                     ">": lambda: int(a > b), "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
                     "<<": lambda: a << b, ">>": lambda: a >> b, "/": lambda: (a / b if isinstance(a, float) or isinstance(b, float) else int(a / b)), "%": lambda: a - b * int(a / b)}[op]()
                return r
            except (KeyError, ZeroDivisionError, TypeError):
                return UNK
        if op in ("==", "!=") and isinstance(a, (str, Agg)) and b == 0:
            return int(op == "!=")
        return ("bin", op, self.hk(a), self.hk(b))

    def unary(self, n, s, fr):
        op = n["op"]
        if op in ("++", "--", "p++", "p--"):
            key = self.lv(n["e"], s, fr)
            v = self.read(key, s)
            w = self.arith("+" if "+" in op else "-", v, 1)
            t = self.write(key, w, s)
            return [("val", v if op[0] == "p" else w, t)]
        if op == "&":
            return [("val", ("addr", self.lv(n["e"], s, fr)), s)]
        outs = []
        for k, v, t in self.ev(n["e"], s, fr):
            if k == "val":
                if op == "-":
                    v = -v if isinstance(v, (int, float)) else ("neg", self.hk(v))
                elif op == "!":
                    b = self.truth(v)
                    v = int(not b) if b is not None else ("not", self.hk(v))
                elif op == "+":
                    pass
                elif op == "*" and isinstance(v, tuple) and v[0] == "addr" and v[1]:
                    v = self.read(v[1], t)
                elif op == "*" and isinstance(v, (str, Agg)):
                    v = self.index(v, 0)
                elif op == "~" and isinstance(v, int):
                    v = ~v
                else:
                    v = ("un", op, self.hk(v))
            outs.append((k, v, t))
        return outs

    def write(self, key, v, s):
        if key is None:
            return s
        s = s.copy()
        s.m[key] = v
        return s

    def assign(self, n, s, fr):
        outs = []
        for k, v, t in self.ev(n["b"], s, fr):
            if k != "val":
                outs.append((k, v, t))
                continue
            op = n["op"]
            a = n["a"]
            while a["k"] == "cast":
                a = a["e"]
            if a["k"] == "un" and a["op"] == "*":
                (kk, p, t), = self.ev(a["e"], t, fr)
                key = p[1] if isinstance(p, tuple) and p[0] == "addr" else None
            elif a["k"] in ("mem", "idx"):
                t = self.setpart(a, v if op == "=" else UNK, t, fr)
                outs.append(("val", v, t))
                continue
            else:
                key = self.lv(a, t, fr)
            if key is None:
                raise Unresolved("assignment target")
            if op != "=":
                v = self.arith(op[:-1], self.read(key, t), v)
            if a.get("t") == "b" and isinstance(v, (int, float)):
                v = int(v != 0)
            outs.append(("val", v, self.write(key, v, t)))
        return outs

    def setpart(self, a, v, s, fr):
        """assignment to a field or element"""
        path = []
        while a["k"] in ("mem", "idx", "cast"):
            if a["k"] == "mem":
                path.append(("f", a["n"]))
                if a.get("arrow"):
                    (kk, p, s), = self.ev(a["e"], s, fr)
                    key = p[1] if isinstance(p, tuple) and p[0] == "addr" else None
                    return self.place(key, path[::-1], v, s)
                a = a["e"]
            elif a["k"] == "idx":
                (kk, i, s), = self.ev(a["b"], s, fr)
                path.append(("i", i))
                a = a["a"]
            else:
                a = a["e"]
        return self.place(self.lv(a, s, fr) if a["k"] == "ref" else None, path[::-1], v, s)

    def place(self, key, path, v, s):
        if key is None:
            raise Unresolved("assignment target")

        def put(x, p):
            if not p:
                return v
            if not isinstance(x, Agg):
                if p[0][0] == "f":
                    x = Agg([], [])
                else:
                    return UNK
            kind, i = p[0]
            items, fields = list(x.items), list(x.fields or [])
            if kind == "f":
                if i not in fields:
                    fields.append(i)
                    items += [0] * (len(fields) - len(items))
                i = fields.index(i)
            if not isinstance(i, int) or i >= len(items) or i < 0:
                return UNK
            items[i] = put(items[i], p[1:])
            return Agg(items, fields or None)
        return self.write(key, put(self.read(key, s), path), s)

    PRINT = {"printf", "puts", "putchar", "fflush", "perror", "fprintf", "fputs", "fputc", "vprintf", "fwrite", "operator<<"}
    NUMBER = {"atoi", "atol", "strtol", "strtoul", "atof", "strtod", "std::stoi", "std::stol", "std::atoi", "strtoll", "std::strtol"}

    def callexpr(self, n, s, fr):
        q = n.get("f") or ""
        args = list(n.get("args") or [])
        base = q.split("::")[-1]
        if n.get("obj") is not None:
            args = [n["obj"]] + args
        outs, ends = self.evs(args, s, fr)
        res = list(ends)
        for vs, t in outs:
            if q in self.scripted or base in self.scripted:
                self.seen_args.append((n, vs))
                v = self.script[t.pos] if t.pos < len(self.script) else -1
                t = t.copy()
                t.pos += 1
                res.append(("val", v, t))
                continue
            if base in ("exit", "_Exit", "_exit", "quick_exit"):
                res.append(("exit", vs[0] if vs else UNK, t))
                continue
            if base == "abort":
                res.append(("exit", 134, t))
                continue
            if base in self.PRINT:
                res.append(("val", UNK, t.effect("print", tuple(v for v in vs if isinstance(v, str)))))
                continue
            if base in self.opaque:
                res.append(("val", ("call", base) + tuple(self.hk(v) for v in vs), t.effect("call", base)))
                continue
            if q in self.NUMBER:
                res.append(("val", ("number", self.hk(vs[0])), t))
                continue
            if base in ("strcmp", "strncmp", "strcasecmp") and isinstance(vs[0], str) and isinstance(vs[1], str):
                res.append(("val", (vs[0] > vs[1]) - (vs[0] < vs[1]), t))
                continue
            if base == "strlen" and isinstance(vs[0], str):
                res.append(("val", len(vs[0]), t))
                continue
            tg = self.p.targets(n) if n.get("id") or n.get("f") else []
            tg = [g for g in tg if g.get("b")]
            if len(tg) == 1 and n.get("obj") is None:
                pa = []
                g = tg[0]
                for i, qv in enumerate(g["params"]):
                    a = vs[i] if i < len(vs) else UNK
                    if (qv.get("ref") and not qv.get("const")) and i < len(args):
                        key = self.lv(args[i], t, fr)
                        if key is None:
                            raise Unresolved("reference argument of " + q)
                        a = ("alias", key)
                    pa.append(a)
                for k, v, u in self.call(g, pa, t):
                    res.append(("val" if k == "return" else k, v, u))
                continue
            if n.get("noret"):
                res.append(("exit", ("call", q), t))
                continue
            # a call to the outside: result unknown; locals whose address is passed become unknown
            t = t.copy()
            for v in vs:
                if isinstance(v, tuple) and v[:1] == ("addr",) and v[1]:
                    t.m[v[1]] = UNK
            t = t.effect("ext", q)
            res.append(("val", ("call", q) + tuple(self.hk(v) for v in vs if const(v) or isinstance(v, tuple)), t))
        return res
