"""C12: verbosity changes what is printed, never the result; zero is silent."""
import ast
import front, effects, pyeffects
from front import walk, kids, loc
from effects import base_name

ENTRIES = ["add_cti", "remove_cti", "determine_read_noise_model"]
OUT = {"printf", "vprintf", "puts", "putchar", "std::printf", "std::puts", "std::putchar"}
FOUT = {"fprintf", "vfprintf", "fputs", "fputc", "putc", "fwrite", "write"}
HARMLESS = {"fflush", "std::fflush", "strrchr", "strlen", "std::endl", "operator<<", "std::setprecision", "std::setw"}


def isV(n):
    return n is not None and n["k"] == "ref" and n.get("c") in ("global", "param", "local") and "verbos" in (n.get("n") or "").lower()


def strip(e):
    while e is not None and e["k"] in ("cast", "defarg"):
        e = e.get("e")
    return e


def num(e):
    e = strip(e)
    if e is None:
        return None
    if e["k"] in ("int", "flt", "bool"):
        try:
            return float(e["v"])
        except (TypeError, ValueError):
            return None
    if e["k"] == "un" and e["op"] == "-":
        v = num(e["e"])
        return None if v is None else -v
    return None


class Cpp:
    def __init__(self, p, eff, reach):
        self.p, self.eff, self.reach = p, eff, reach
        self.byid = {f["id"]: f for f in reach}
        self.sites = {}     # callee id -> [(f, call)]
        self.opaque = set()
        for f in reach:
            for n in p.calls(f):
                for t in p.targets(n):
                    self.sites.setdefault(t["id"], []).append((f, n))
        self.busy = set()

    # does "e is true" (pos) / "e is false" (not pos) imply verbosity >= 1
    def imp(self, f, e, pos=True):
        e = strip(e)
        if e is None:
            return False
        if e["k"] == "un" and e["op"] == "!":
            return self.imp(f, e["e"], not pos)
        if e["k"] == "bin":
            o = e["op"]
            if o == "&&":
                return (self.imp(f, e["a"], True) or self.imp(f, e["b"], True)) if pos else \
                    (self.imp(f, e["a"], False) and self.imp(f, e["b"], False))
            if o == "||":
                return (self.imp(f, e["a"], True) and self.imp(f, e["b"], True)) if pos else \
                    (self.imp(f, e["a"], False) or self.imp(f, e["b"], False))
            a, b = e["a"], e["b"]
            if num(a) is not None:
                a, b = b, a
                o = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(o, o)
            c = num(b)
            if c is None:
                return False
            if not pos:
                o = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}.get(o, o)
            if o == ">=" and c > 0 or o == ">" and c >= 0 or o == "==" and c > 0 or o == "!=" and c == 0:
                return self.nz(f, a)
            return False
        if pos:
            return self.nz(f, e)
        return False

    def nz(self, f, e):
        """a positive value of e implies verbosity >= 1"""
        e = strip(e)
        if e is None:
            return False
        c = num(e)
        if c is not None:
            return c <= 0
        if isV(e):
            return True
        k = e["k"]
        if k == "cond":
            return (self.imp(f, e["c"]) or self.nz(f, e["a"])) and (self.imp(f, e["c"], False) or self.nz(f, e["b"]))
        if k == "bin" and e["op"] in ("&&", "||", ">", ">=", "==", "!=", "<", "<="):
            return self.imp(f, e)
        if k == "bin" and e["op"] == "*":
            return self.nz(f, e["a"]) or self.nz(f, e["b"])
        if k == "bin" and e["op"] in ("+", "-", "/") and num(e["b"]) is not None and num(e["b"]) >= 0 and e["op"] != "+":
            return self.nz(f, e["a"])
        if k == "un" and e["op"] == "!":
            return self.imp(f, e)
        if k == "ref" and e.get("c") == "local":
            key = (f["id"], e["id"])
            if key in self.busy:
                return True
            self.busy.add(key)
            try:
                vals = []
                for n in walk(f["b"]):
                    if n["k"] == "decl":
                        vals += [v.get("init") for v in n["v"] if v.get("id") == e["id"] and v.get("init") is not None]
                    if n["k"] == "asg" and strip(n["a"])["k"] == "ref" and strip(n["a"]).get("id") == e["id"]:
                        vals.append(n["b"] if n["op"] == "=" else None)
                return bool(vals) and all(v is not None and self.nz(f, v) for v in vals)
            finally:
                self.busy.discard(key)
        if k == "ref" and e.get("c") == "param":
            i = next((i for i, q in enumerate(f["params"]) if q["id"] == e["id"]), None)
            ss = self.sites.get(f["id"], [])
            key = (f["id"], "p", i)
            if i is None or not ss:
                return False
            if key in self.busy:
                return True
            self.busy.add(key)
            try:
                for g, n in ss:
                    a = n["args"][i] if i < len(n["args"]) else None
                    if a is None or a["k"] == "defarg" and a.get("e") is None:
                        a = f["params"][i].get("def")
                    if not isinstance(a, dict) or not self.nz(g, a):
                        return False
                return True
            finally:
                self.busy.discard(key)
        if k == "call":
            ts = self.p.targets(e)
            if ts:
                for t in ts:
                    rs = [n for n in walk(t.get("b")) if n["k"] == "ret"]
                    if not rs or not all(self.nz(t, n.get("e")) for n in rs):
                        return False
                return True
            if base_name(e.get("f")) in ("min",):
                return any(self.nz(f, a) for a in e["args"])
            if base_name(e.get("f")) in ("max",):
                return all(self.nz(f, a) for a in e["args"])
        return False

    # ---- output
    def output(self, n):
        """is the node itself an output to the terminal"""
        if n["k"] != "call" or self.p.targets(n):
            return False
        q = n.get("f") or ""
        if q in OUT or base_name(q) in OUT:
            return True
        if base_name(q) in FOUT and n["args"]:
            x = n["args"][3 if base_name(q) == "fwrite" else -1 if base_name(q) in ("fputs", "fputc", "putc") else 0]
            return any(y["k"] == "ref" and y.get("n") == "stdout" for y in walk(x))
        if n.get("op") == "<<" or base_name(q) in ("operator<<", "write", "put"):
            for a in ([n["obj"]] if n.get("obj") else []) + list(n["args"]):
                if a is not None and a["k"] == "ref" and a.get("n") in ("cout", "clog"):
                    return True
        return False

    def ends(self, n):
        """control never falls out of statement n"""
        if n is None:
            return False
        if n["k"] in ("ret", "throw", "break", "continue"):
            return True
        if n["k"] == "expr":
            return self.ends(n["e"])
        if n["k"] == "call":
            return bool(n.get("noret")) or base_name(n.get("f")) in ("exit", "abort")
        if n["k"] == "blk":
            return any(self.ends(x) for x in n["b"])
        if n["k"] == "sexpr":
            return self.ends(n["b"])
        if n["k"] == "if":
            return self.ends(n["a"]) and n.get("b") is not None and self.ends(n["b"])
        return False

    def scan(self, f, n, g, out):
        """collect (site, guarded) of outputs and calls under n; g: verbosity >= 1 is implied here"""
        if n is None:
            return
        k = n["k"]
        if k == "blk":
            for x in n["b"]:
                if x is None:
                    continue
                if self.fatal(x):
                    pass            # an error report before the process ends
                else:
                    self.scan(f, x, g, out)
                if x["k"] == "if" and not g:
                    if self.ends(x["a"]) and not x.get("b") and self.imp(f, x["c"], False):
                        g = True
            return
        if k == "if":
            self.scan(f, n["c"], g, out)
            self.scan(f, n["a"], g or self.imp(f, n["c"], True), out)
            self.scan(f, n.get("b"), g or self.imp(f, n["c"], False), out)
            return
        if k == "cond":
            self.scan(f, n["c"], g, out)
            self.scan(f, n["a"], g or self.imp(f, n["c"], True), out)
            self.scan(f, n["b"], g or self.imp(f, n["c"], False), out)
            return
        if k == "bin" and n["op"] in ("&&", "||"):
            self.scan(f, n["a"], g, out)
            self.scan(f, n["b"], g or self.imp(f, n["a"], n["op"] == "&&"), out)
            return
        if k in ("for", "while") and n.get("c") is not None:
            g2 = g or self.imp(f, n["c"], True)
            for x in kids(n):
                self.scan(f, x, g2 if x is n["b"] else g, out)
            return
        if k in ("call", "ctor"):
            out.append((n, g))
        for x in kids(n):
            self.scan(f, x, g, out)

    def fatal(self, x):
        return x["k"] in ("expr", "sexpr", "blk", "call") and self.ends(x)

    def loud(self):
        """functions that may print when verbosity is 0: {id: (site chain)}"""
        self.calls_ = {}
        for f in self.reach:
            out = []
            self.scan(f, f.get("b"), False, out)
            for i in f.get("inits") or []:
                self.scan(f, i.get("e"), False, out)
            self.calls_[f["id"]] = out
        L = {}
        for f in self.reach:
            for n, g in self.calls_[f["id"]]:
                if not g and self.output(n):
                    L.setdefault(f["id"], []).append(((f, n),))
        direct = {k: v for k, v in L.items()}
        ch = True
        while ch:
            ch = False
            for f in self.reach:
                ends = {id(x[-1][1]) for x in L.get(f["id"], [])}
                for n, g in self.calls_[f["id"]]:
                    if g:
                        continue
                    for t in self.p.targets(n):
                        for x in L.get(t["id"], []):
                            if id(x[-1][1]) not in ends:
                                ends.add(id(x[-1][1]))
                                L.setdefault(f["id"], []).append(((f, n),) + x)
                                ch = True
        return L


# ---------------------------------------------------------------- non-interference
class Flow:
    """verbosity values reach printing and verbosity parameters only"""

    def __init__(self, c):
        self.c, self.p = c, c.p
        self.taintp = {}     # function id -> tainted parameter ids
        self.sinks = {}
        self.regions = 0

    def printonly(self, f, stmts, outer):
        """first node under stmts that does more than print; locals declared inside may be assigned"""
        own = set()
        for s in stmts:
            for n in walk(s):
                if n["k"] == "decl":
                    own |= {v["id"] for v in n["v"] if "id" in v}
                if n["k"] == "rfor" and isinstance(n["v"], dict):
                    own.add(n["v"].get("id"))
        used = self.usedonlyforprint(f)
        for s in stmts:
            for n in walk(s):
                if n["k"] in ("ret", "throw", "delete", "goto"):
                    if n["k"] == "ret" and n.get("e") is None and self.tailprints(f, n):
                        continue
                    return n
                t = None
                if n["k"] == "asg":
                    t = n["a"]
                elif n["k"] == "un" and n["op"].lstrip("p") in ("++", "--"):
                    t = n["e"]
                elif n["k"] == "call" and n.get("obj") is not None and n.get("op") in effects.ASSIGN:
                    t = n["obj"]
                if t is not None:
                    while t is not None and t["k"] in ("mem", "idx", "cast") and not t.get("arrow"):
                        t = t.get("a") if t["k"] == "idx" else t.get("e")
                    if t is None or t["k"] != "ref" or t.get("c") != "local" or t["id"] not in own | used:
                        return n
                    continue
                if n["k"] in ("call", "ctor"):
                    if n.get("noret") or base_name(n.get("f")) in ("exit", "abort", "_exit", "longjmp"):
                        return n
                    ts = self.p.targets(n)
                    for g in ts:
                        for path in self.c.eff.sum[g["id"]]:
                            if path[0][0] == "G" and path[0][1] in ("stdout", "stderr", "std::cout"):
                                continue
                            if path[0][0] in ("L", "H"):
                                continue
                            if path[0][0] in ("P", "T"):
                                m = self.c.eff.map(f, n, g, path)
                                if all(x[0][0] == "L" and x[0][1] in own | used or x[0][0] == "H" for x in m):
                                    continue
                            return n
        return None

    def tailprints(self, f, ret):
        """a `return;` that only skips printing: every other effect of the (void) function is printing"""
        for n in walk(f.get("b")):
            if n["k"] in ("asg", "throw", "delete"):
                return False
            if n["k"] in ("call", "ctor") and not self.c.output(n):
                if any(self.c.eff.sum[g["id"]] and any(x[0][0] not in ("G",) or x[0][1] not in ("stdout", "stderr") for x in self.c.eff.sum[g["id"]])
                       for g in self.p.targets(n)):
                    return False
        return True

    def usedonlyforprint(self, f):
        """locals whose every use is in printed text (or computing each other)"""
        if not hasattr(self, "_uop"):
            self._uop = {}
        if f["id"] in self._uop:
            return self._uop[f["id"]]
        ids = {}
        inpr = set()
        for n in walk(f.get("b")):
            if n["k"] == "decl":
                for v in n["v"]:
                    if "id" in v and not v.get("ref") and not v.get("ptr") and not v.get("static"):
                        ids[v["id"]] = v
            if self.c.output(n) or n["k"] == "call" and base_name(n.get("f")).startswith("print"):
                for x in walk(n):
                    inpr.add(id(x))
        cand = set(ids)
        ch = True
        while ch:
            ch = False
            okn = set(inpr)
            for n in walk(f.get("b")):
                if n["k"] == "asg":
                    t = strip(n["a"])
                    if t["k"] == "ref" and t.get("id") in cand:
                        for x in walk(n):
                            okn.add(id(x))
                if n["k"] == "decl":
                    for v in n["v"]:
                        if v.get("id") in cand and v.get("init") is not None:
                            for x in walk(v["init"]):
                                okn.add(id(x))
            for n in walk(f.get("b")):
                if n["k"] == "ref" and n.get("c") == "local" and n.get("id") in cand and id(n) not in okn:
                    cand.discard(n["id"])
                    ch = True
        self._uop[f["id"]] = cand
        return cand

    def run(self):
        todo = True
        rounds = 0
        while todo and rounds < 6:
            todo = False
            rounds += 1
            for f in self.c.reach:
                if self.one(f):
                    todo = True

    def one(self, f):
        T = set(self.taintp.get(f["id"], ()))
        grow = False
        pr = set()
        for n in walk(f.get("b")):
            if self.c.output(n) or n["k"] == "call" and base_name(n.get("f")).startswith("print_"):
                for x in walk(n):
                    pr.add(id(x))

        def tv(n):
            return isV(n) or n["k"] == "ref" and n.get("id") in T and n.get("c") in ("local", "param")

        def tainted(e):
            if e is None or id(e) in pr:
                return False
            if tv(e):
                return True
            if e["k"] in ("call", "ctor"):
                ts = self.p.targets(e)
                if ts:      # what it does with its arguments is tracked through its parameters
                    return any(t["id"] in self.tret for t in ts)
            return any(tainted(x) for x in kids(e))
        if not hasattr(self, "tret"):
            self.tret = set()
        only = self.usedonlyforprint(f)
        for _ in range(4):
            k = len(T)
            for n in walk(f.get("b")):
                if n["k"] == "decl":
                    for v in n["v"]:
                        if v.get("init") is not None and tainted(v["init"]):
                            T.add(v["id"])
                if n["k"] == "asg" and tainted(n["b"]):
                    t = strip(n["a"])
                    if t["k"] == "ref" and t.get("c") in ("local", "param"):
                        T.add(t["id"])
                    elif t["k"] == "ref" and t.get("c") == "global" and isV(t):
                        pass
                    else:
                        self.sink(f, n, "is stored in the result or the model")
            if len(T) == k:
                break
        # uses
        cond = {}
        for n in walk(f.get("b")):
            if n["k"] == "if" and tainted(n["c"]):
                self.regions += 1
                body = [x for x in (n["a"], n.get("b")) if x is not None]
                if n.get("b") is None and self.c.ends(n["a"]) and not self.c.fatal(n["a"]):
                    pass
                b = self.printonly(f, body, n)
                if b is not None:
                    self.sink(f, b, "decides whether this happens")
                for x in walk(n["c"]):
                    cond[id(x)] = 1
            elif n["k"] in ("while", "for", "do") and n.get("c") is not None and tainted(n["c"]):
                b = self.printonly(f, [n["b"]], n)
                self.regions += 1
                if b is not None:
                    self.sink(f, b, "decides how often this happens")
                for x in walk(n["c"]):
                    cond[id(x)] = 1
            elif n["k"] == "cond" and tainted(n["c"]):
                # the chosen value: taints what it is assigned to (handled above); its arms must be pure
                b = self.printonly(f, [n["a"], n["b"]], n)
                if b is not None:
                    self.sink(f, b, "decides whether this happens")
            elif n["k"] == "switch" and tainted(n["c"]):
                b = self.printonly(f, [n["b"]], n)
                if b is not None:
                    self.sink(f, b, "decides whether this happens")
        for n in walk(f.get("b")):
            if id(n) in pr:
                continue
            if n["k"] in ("call", "ctor"):
                ts = self.p.targets(n)
                for i, a in enumerate(n["args"]):
                    if a is None or not tainted(a):
                        continue
                    if ts:
                        for g in ts:
                            if i < len(g["params"]):
                                q = g["params"][i]["id"]
                                s = self.taintp.setdefault(g["id"], set())
                                if q not in s:
                                    s.add(q)
                                    grow = True
                    elif base_name(n.get("f")) not in ("min", "max", "abs"):
                        self.sink(f, n, "is used in a computation")
            elif n["k"] == "ret" and n.get("e") is not None and tainted(n["e"]):
                if f["id"] not in self.tret:
                    self.tret.add(f["id"])
                    grow = True
            elif n["k"] == "idx" and any(tainted(x) for x in kids(n) if x is not n["a"]):
                self.sink(f, n, "selects an element")
        # arithmetic results are tracked through the assignments above; a tainted entry result is a sink
        return grow

    def sink(self, f, n, how):
        self.sinks.setdefault((f["id"], n.get("l"), how), (f, n, how))


# ---------------------------------------------------------------- Python
class Py:
    def __init__(self, pe, reach):
        self.pe, self.reach = pe, reach
        self.busy = set()
        self.calls = {}
        for k in reach:
            m, f, cls = pe.funcs[k]
            for n in ast.walk(f):
                if isinstance(n, ast.Call):
                    for t in self.resolve(k, n):
                        self.calls.setdefault(t, []).append((k, n))

    def resolve(self, k, n):
        m, f, cls = self.pe.funcs[k]
        imp = self.pe.env.get(m.name, {})
        fn = n.func
        if isinstance(fn, ast.Name):
            i = imp.get(fn.id)
            if i and i[0] == "func":
                return [i[1]]
            if i and i[0] == "class":
                x = self.pe.method(i[1], "__init__")
                return [x] if x else []
            if m.name == "wrapper" and ("wrapper", fn.id) in self.pe.funcs:
                return [("wrapper", fn.id)]
            return []
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name):
                i = imp.get(fn.value.id)
                if i and i[0] == "mod":
                    return [(i[1], fn.attr)] if (i[1], fn.attr) in self.pe.funcs else []
                if fn.value.id == "self" and cls:
                    x = self.pe.method(cls, fn.attr)
                    return [x] if x else []
            return [c for c in self.pe.bymeth.get(fn.attr, []) if c in self.reach]
        return []

    @staticmethod
    def isV(e):
        return isinstance(e, ast.Name) and "verbos" in e.id.lower() and e.id.lower() not in ("verbose",)

    def num(self, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float, bool)):
            return float(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.num(e.operand)
            return None if v is None else -v
        return None

    def imp(self, k, e, pos=True):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.imp(k, e.operand, not pos)
        if isinstance(e, ast.BoolOp):
            anys = isinstance(e.op, ast.And) == pos
            xs = [self.imp(k, x, pos) for x in e.values]
            return any(xs) if anys else all(xs)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = e.left, e.comparators[0]
            o = {ast.Gt: ">", ast.GtE: ">=", ast.Lt: "<", ast.LtE: "<=", ast.Eq: "==", ast.NotEq: "!="}.get(type(e.ops[0]))
            if self.num(a) is not None:
                a, b = b, a
                o = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(o, o)
            c = self.num(b)
            if c is None:
                return False
            if not pos:
                o = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}.get(o, o)
            if o == ">=" and c > 0 or o == ">" and c >= 0 or o == "==" and c > 0 or o == "!=" and c == 0:
                return self.nz(k, a)
            return False
        return pos and self.nz(k, e)

    def nz(self, k, e):
        c = self.num(e)
        if c is not None:
            return c <= 0
        if isinstance(e, ast.Constant) and not e.value:
            return True
        if self.isV(e):
            return True
        m, f, cls = self.pe.funcs[k]
        if isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.imp(k, e)
        if isinstance(e, ast.IfExp):
            return (self.imp(k, e.test) or self.nz(k, e.body)) and (self.imp(k, e.test, False) or self.nz(k, e.orelse))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("int", "bool") and len(e.args) == 1:
            return self.nz(k, e.args[0])
        if isinstance(e, ast.Name):
            key = (k, e.id)
            if key in self.busy:
                return True
            self.busy.add(key)
            try:
                vals = [n.value for n in ast.walk(f) if isinstance(n, ast.Assign) and
                        any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
                ps = self.pe.params(f)
                if e.id in ps:
                    i = ps.index(e.id)
                    ss = self.calls.get(k, [])
                    if not ss:
                        return False
                    for ck, n in ss:
                        a = self.arg(k, n, i, e.id)
                        if a is None or not self.nz(ck if a[1] else k, a[0]):
                            return False
                elif not vals:
                    return False
                return all(self.nz(k, v) for v in vals)
            finally:
                self.busy.discard(key)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and cls:
            key = (cls, "." + e.attr)
            if key in self.busy:
                return True
            self.busy.add(key)
            try:
                vals = []
                for k2, (m2, f2, c2) in self.pe.funcs.items():
                    if c2 == cls:
                        for n in ast.walk(f2):
                            if isinstance(n, ast.Assign):
                                for t in n.targets:
                                    if isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(t.value, ast.Name) and t.value.id == "self":
                                        vals.append((k2, n.value))
                return bool(vals) and all(self.nz(a, b) for a, b in vals)
            finally:
                self.busy.discard(key)
        return False

    def arg(self, k, n, i, name):
        """(expression, from the call site?) bound to parameter i of k at call n"""
        m, f, cls = self.pe.funcs[k]
        for kw in n.keywords:
            if kw.arg == name:
                return kw.value, True
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list)
        j = i - 1 if cls and not static else i
        if 0 <= j < len(n.args):
            return n.args[j], True
        d = self.pe.defaults(f).get(name)
        return (d, False) if d is not None else None

    def prints(self, n):
        fn = n.func
        if isinstance(fn, ast.Name):
            return fn.id == "print"
        t = ast.unparse(fn)
        return t in ("sys.stdout.write", "pprint.pprint", "warnings.warn") and t != "warnings.warn"

    def scan(self, k, body, g, out):
        for s in body:
            if isinstance(s, ast.If):
                self.expr(k, s.test, g, out)
                a, b = self.imp(k, s.test, True), self.imp(k, s.test, False)
                self.scan(k, s.body, g or a, out)
                self.scan(k, s.orelse, g or b, out)
                if b and s.body and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Break, ast.Raise)) and not s.orelse:
                    g = True
                continue
            for fld, v in ast.iter_fields(s):
                if fld in ("body", "orelse", "finalbody") and isinstance(v, list):
                    self.scan(k, v, g, out)
                elif fld == "handlers":
                    for h in v:
                        self.scan(k, h.body, g, out)
                elif isinstance(v, ast.AST):
                    self.expr(k, v, g, out)
                elif isinstance(v, list):
                    for x in v:
                        if isinstance(x, ast.AST):
                            self.expr(k, x, g, out)

    def expr(self, k, e, g, out):
        if isinstance(e, ast.IfExp):
            self.expr(k, e.test, g, out)
            self.expr(k, e.body, g or self.imp(k, e.test), out)
            self.expr(k, e.orelse, g or self.imp(k, e.test, False), out)
            return
        if isinstance(e, ast.Call):
            out.append((e, g))
        for c in ast.iter_child_nodes(e):
            self.expr(k, c, g, out)

    def loud(self, cloud):
        """{key: chain}: functions that may print at verbosity 0"""
        L, sites = {}, {}
        for k in self.reach:
            m, f, cls = self.pe.funcs[k]
            out = []
            self.scan(k, f.body, False, out)
            sites[k] = out
            for n, g in out:
                if not g and self.prints(n):
                    L.setdefault(k, []).append(((k, n),))
                if not g and m.name == "wrapper" and isinstance(n.func, ast.Name) and cloud(n.func.id):
                    L.setdefault(k, []).append(((k, n),))
        ch = True
        while ch:
            ch = False
            for k in self.reach:
                ends = {id(x[-1][1]) for x in L.get(k, [])}
                for n, g in sites[k]:
                    if not g:
                        for t in self.resolve(k, n):
                            for x in L.get(t, []):
                                if id(x[-1][1]) not in ends:
                                    ends.add(id(x[-1][1]))
                                    L.setdefault(k, []).append(((k, n),) + x)
                                    ch = True
        return L, sites

    def interference(self, r):
        """branches on verbosity only print"""
        for k in self.reach:
            m, f, cls = self.pe.funcs[k]
            for n in ast.walk(f):
                if isinstance(n, ast.Call):
                    for t in self.resolve(k, n):
                        tf = self.pe.funcs[t][1]
                        for i, q in enumerate(self.pe.params(tf)):
                            if "verbos" not in q.lower() or q.lower() == "verbose":
                                continue
                            a = self.arg(t, n, i, q)
                            good = a is None or self.nz(k if a[1] else t, a[0])
                            r.check(good, "C12:py:pass:%s:%s" % (".".join(k), ".".join(t)), "%s:%d (%s)" % (m.rel, n.lineno, ".".join(k)),
                                    "the caller's verbosity (or none) is passed to %s()" % t[1] if good else
                                    "%s() gives %s() a verbosity of its own choice" % (k[1], t[1]))
            V = set()
            for _ in range(3):
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign) and self.tainted(n.value, V, cls, k):
                        for t in n.targets:
                            if isinstance(t, ast.Name):
                                V.add(t.id)
            bad = None
            for n in ast.walk(f):
                if isinstance(n, (ast.If, ast.While)) and self.tainted(n.test, V, cls):
                    r.count("python_verbosity_branches")
                    b = self.onlyprints(k, n.body + n.orelse, V)
                    if b is not None:
                        bad = bad or (b, "verbosity decides whether this happens")
                if isinstance(n, ast.BinOp) and (self.tainted(n.left, V, cls) or self.tainted(n.right, V, cls)) and not self.inprint(f, n):
                    bad = bad or (n, "verbosity is used in a computation")
                if isinstance(n, ast.Subscript) and self.tainted(n.slice, V, cls):
                    bad = bad or (n, "verbosity selects an element")
                if isinstance(n, ast.IfExp) and self.tainted(n.test, V, cls) and not self.inprint(f, n):
                    bad = bad or (n, "verbosity chooses a value")
                if isinstance(n, ast.Call):
                    for a in list(n.args) + [x.value for x in n.keywords]:
                        if isinstance(a, ast.Name) and (self.isV(a) or a.id in V) and not self.resolve(k, n) and not self.prints(n):
                            if m.name == "wrapper":
                                continue       # its position in the C++ call is C06's
                            if isinstance(n.func, ast.Attribute) and self.isverbkw(n, a):
                                continue
                            bad = bad or (n, "verbosity is passed to %s" % ast.unparse(n.func)[:40])
                    for t in self.resolve(k, n):
                        tm, tf, tc = self.pe.funcs[t]
                        ps = self.pe.params(tf)
                        for i, p_ in enumerate(ps):
                            a = self.arg(t, n, i, p_)
                            if a and a[1] and isinstance(a[0], ast.Name) and self.isV(a[0]) and "verb" not in p_.lower():
                                bad = bad or (n, "verbosity is passed as the parameter %s" % p_)
            r.check(bad is None, "C12:py:%s" % ".".join(k), "%s:%d (%s)" % (m.rel, bad[0].lineno if bad else f.lineno, ".".join(k)),
                    "verbosity only affects printing" if not bad else bad[1])

    def isverbkw(self, n, a):
        return any(x.value is a and x.arg and "verb" in x.arg.lower() for x in n.keywords)

    def inprint(self, f, e):
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and (self.prints(n) or isinstance(n.func, ast.Attribute) and n.func.attr == "print"):
                for x in ast.walk(n):
                    if x is e:
                        return True
        return False

    def tainted(self, e, V, cls, k=None):
        if self.isV(e) or isinstance(e, ast.Name) and e.id in V:
            return True
        if isinstance(e, ast.Attribute) and "verbos" in e.attr.lower():
            return True
        if k is not None and isinstance(e, ast.Call) and self.resolve(k, e):
            return False        # tracked inside the package function
        return any(self.tainted(c, V, cls, k) for c in ast.iter_child_nodes(e))

    def onlyprints(self, k, body, V):
        own = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, (ast.For, ast.comprehension)):
                    own |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        f = self.pe.funcs[k][1]
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, (ast.Raise, ast.Delete)) or isinstance(n, ast.Return) and n.value is not None:
                    return n
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Name) and self.printlocal(f, t.id, body):
                            continue
                        return n
                if isinstance(n, ast.Call):
                    ts = self.resolve(k, n)
                    for t in ts:
                        s2 = self.pe.sums[t]
                        if any(o[0][0] != "N" for o in s2.mut):
                            return n
                    if not ts and isinstance(n.func, ast.Attribute) and n.func.attr in pyeffects.MUTATORS and \
                            not isinstance(n.func.value, ast.Constant):
                        return n
        return None

    def printlocal(self, f, name, body):
        """the name is used inside these statements only"""
        inside = {id(x) for s in body for x in ast.walk(s)}
        return not any(isinstance(n, ast.Name) and n.id == name and id(n) not in inside for n in ast.walk(f))


def chaintext(ch):
    return " <- ".join(loc(f, n) for f, n in reversed(ch))


def passed(r, p, eff, c):
    """a callee's verbosity argument is positive only if the caller's verbosity is; the interface sets the global one first"""
    for f in c.reach:
        for n in p.calls(f):
            for g in p.targets(n):
                for i, q in enumerate(g["params"]):
                    if "verbos" not in q["n"].lower() and not (g["q"].endswith("set_verbosity") and i == 0):
                        continue
                    a = n["args"][i] if i < len(n["args"]) else None
                    if a is None or a["k"] == "defarg":
                        a = q.get("def")
                    good = isinstance(a, dict) and c.nz(f, a)
                    r.check(good, "C12:pass:%s:%s" % (f["q"], g["q"]), loc(f, n),
                            "%s() passes its own verbosity (or none) to %s()" % (f["q"], g["q"]) if good else
                            "%s() gives %s() a verbosity of its own choice" % (f["q"], g["q"]))
    # global readers
    reads = set()
    for f in c.reach:
        if any(isV(n) and n.get("c") == "global" for n in eff.global_uses(f)):
            reads.add(f["id"])
    ch = True
    while ch:
        ch = False
        for f in c.reach:
            if f["id"] not in reads and any(t["id"] in reads for n in p.calls(f) for t in p.targets(n)):
                reads.add(f["id"])
                ch = True
    for f in c.reach:
        if not any("verbos" in q["n"].lower() for q in f["params"]) or "interface" not in front.rel(f):
            continue
        isset, bad = False, None
        for st in f["b"]["b"] if f["b"]["k"] == "blk" else f["b"]:
            cond = st["k"] in ("if", "for", "while", "do", "switch")
            for n in walk(st):
                if n["k"] == "call":
                    for t in p.targets(n):
                        w = any(x[0][0] == "G" and base_name(x[0][1]) == "verbosity" for x in eff.sum[t["id"]])
                        if w and not cond:
                            isset = True
                        elif t["id"] in reads and not isset:
                            bad = bad or n
                if n["k"] == "asg" and isV(n["a"]) and n["a"].get("c") == "global" and not cond:
                    isset = True
        r.check(bad is None, "C12:set:%s" % f["q"], loc(f, bad) if bad else loc(f),
                "the global verbosity is set to the caller's before anything can print" if not bad else
                "this can print according to the verbosity of an earlier call")


def run(r):
    r.rule = ("every terminal output reachable from the entry points is control-dependent on verbosity >= 1, on every call path; values "
              "derived from verbosity reach printing and verbosity parameters only; branches on it contain nothing but printing")
    r.assume = ["error reports on stderr just before the process ends or an exception is thrown are not printing"]
    p = front.program()
    eff = effects.Effects(p)
    roots = []
    for q in ENTRIES:
        fs = [f for f in p.defined() if f["q"] == q]
        if not fs:
            raise front.AnalysisError("anchor vanished: no function " + q)
        roots += fs
    reach = [f for f in eff.reachable(roots) if f.get("b") is not None]
    r.count("functions", len(reach))
    c = Cpp(p, eff, reach)
    L = c.loud()
    done = set()
    for f in roots:
        ch = L.get(f["id"])
        if ch:
            for x in ch:
                end = x[-1]
                if id(end[1]) in done:
                    continue
                done.add(id(end[1]))
                r.bad("C12:silent:%s:%s" % (end[0]["q"], c.output(end[1]) and (end[1].get("f") or "out")), chaintext(x),
                      "%s() prints at verbosity 0" % f["q"])
        else:
            r.ok(loc(f), "%s(): nothing is printed at verbosity 0" % f["q"])
    for f in reach:
        for n, g in c.calls_[f["id"]]:
            if c.output(n):
                r.count("output_sites")
                if g:
                    r.ok(loc(f, n), "printed only at verbosity >= 1")
    fl = Flow(c)
    fl.run()
    r.count("verbosity_branches", fl.regions)
    bysite = {}
    for f, n, how in fl.sinks.values():
        bysite.setdefault(f["id"], []).append((f, n, how))
    for f in reach:
        if f["id"] in bysite:
            for g, n, how in bysite[f["id"]]:
                r.bad("C12:flow:%s" % g["q"], loc(g, n), "verbosity %s in %s()" % (how, g["q"]))
        else:
            r.ok(loc(f), "verbosity does not affect what it computes")
    for f in roots:
        r.check(f["id"] not in fl.tret, "C12:ret:" + f["q"], loc(f), "the result of %s() does not depend on verbosity" % f["q"])
    passed(r, p, eff, c)
    pe = pyeffects.package(p, eff)
    keys = [("cti", "add_cti"), ("cti", "remove_cti")]
    preach = sorted(pe.reachable(keys))
    P = Py(pe, preach)
    byname = {}
    for f in p.defined():
        byname.setdefault(f["q"], []).append(f)

    def cloud(name):
        # C++ function called by the wrapper: its own silence is decided above; others from here
        fs = [f for f in byname.get(name, []) if f in roots or f in reach]
        return any(f["id"] in L for f in fs)
    PL, sites = P.loud(cloud)
    for k in keys:
        m, f, cls = pe.funcs[k]
        if k in PL:
            for ch in PL[k]:
                e = ch[-1]
                em = pe.funcs[e[0]]
                r.bad("C12:py:silent:%s:%s" % (".".join(e[0]), ast.unparse(e[1])[:50]),
                      " <- ".join("%s:%d (%s)" % (pe.funcs[a][0].rel, b.lineno, ".".join(a)) for a, b in reversed(ch)),
                      "%s() prints at verbosity 0: %s" % (k[1], ast.unparse(e[1])[:70]))
        else:
            r.ok("%s:%d" % (m.rel, f.lineno), "%s() prints nothing at verbosity 0" % k[1])
    for k in preach:
        for n, g in sites[k]:
            if P.prints(n):
                r.count("python_print_sites")
    P.interference(r)
