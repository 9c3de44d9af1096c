"""Value-graph construction: an abstract interpreter over the exported AST whose
abstract values are terms (terms.py).  Calls are inlined (or kept opaque on
request), branches become conditional terms, loops become sums / maps /
canonical recurrences.  Nothing is executed and no solver is involved: two pieces
of code with the same normal form compute the same function."""
import front
from terms import *


class Abort(Exception):
    pass


class NotHandled(Exception):
    pass


NULL = mk("null")
VOID = mk("void")
PRINTERS = {"printf", "fprintf", "fflush", "puts", "putchar", "fputs", "fputc", "gettimeofday", "perror", "srand", "time"}
PURE = {"exp", "log", "sqrt", "pow", "abs", "fabs", "floor", "ceil", "max", "min", "fmax", "fmin", "log10", "sin", "cos", "isnan",
        "isfinite", "round", "trunc", "begin", "end", "upper_bound", "lower_bound", "erf", "clamp"}


class Path:
    """an lvalue: root + selectors ('f',name) / ('i',T)"""
    __slots__ = ("root", "sels")

    def __init__(self, root, sels=()):
        self.root, self.sels = root, tuple(sels)

    def f(self, name):
        return Path(self.root, self.sels + (("f", name),))

    def i(self, t):
        return Path(self.root, self.sels + (("i", t),))

    def base(self):
        out = []
        for s in self.sels:
            if s[0] != "f":
                break
            out.append(s)
        return (self.root,) + tuple(out), self.sels[len(out):]

    def key(self):
        return (self.root,) + self.sels


class CondPath:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def f(self, n):
        return CondPath(self.c, self.a.f(n), self.b.f(n))

    def i(self, t):
        return CondPath(self.c, self.a.i(t), self.b.i(t))


def addr(p):
    if isinstance(p, CondPath):
        return ite(p.c, addr(p.a), addr(p.b))
    return mk("addr", p.root, p.sels)


def deref(t):
    if t.op == "addr":
        return Path(t.a[0], t.a[1])
    if t.op == "ite":
        return CondPath(t.a[0], deref(t.a[1]), deref(t.a[2]))
    if t.op == "padd":
        q = deref(t.a[0])
        return q.i(t.a[1])
    return Path(mk("deref", t))


class State:
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = dict(m) if m else {}

    def copy(self):
        return State(self.m)


class Ret:
    """pending return: condition under which it was taken, value, state"""
    __slots__ = ("c", "v", "s")

    def __init__(self, c, v, s):
        self.c, self.v, self.s = c, v, s


class Frame:
    def __init__(self, f, this, uid):
        self.f, self.this, self.uid = f, this, uid
        self.env = {}          # var id -> Path (references bind to other paths)
        self.rets = []


class VG:
    def __init__(self, prog, opaque=None, on_call=None, consts=None, nothrow=False, zero_loops=False, traced=None):
        self.p = prog
        self.traced = traced
        self.modcache = {}
        self.opaque = opaque or (lambda f: False)
        self.on_call = on_call
        self.consts = consts or {}
        self.uid = 0
        self.frames = []
        self.stack = []
        self.unk = []        # constructs approximated
        self.aborts = []
        self.loopn = 0
        self.pc = []         # current branch conditions
        self.loops = []      # (loop symbol, trip count)
        self.reads = None
        self.ctypes = {}
        self.notes = []
        self.events = []
        self.regdepth, self.clauses = {}, {}

    # ------------------------------------------------------------ memory
    def init(self, base):
        root = base[0]
        if len(base) > 1 and base[-1][1] in self.consts:
            return num(self.consts[base[-1][1]])
        return mk("init", base)

    def rd(self, s, p):
        if isinstance(p, CondPath):
            return ite(p.c, self.rd(s, p.a), self.rd(s, p.b))
        tr = self.tracedpath(p)
        if tr is not None:
            return self.trd(s, *tr, p)
        base, suf = p.base()
        v = self.rdbase(s, base)
        for x in suf:
            v = sel(v, x[1]) if x[0] == "i" else self.getfld(x[1], v)
        return v

    # ---- traced arrays: element accesses become events instead of memory updates
    def tracedpath(self, p):
        if not self.traced:
            return None
        idx = [x[1] for x in p.sels if x[0] == "i"]
        if not idx:
            return None
        nf = 0
        while p.sels[nf][0] == "f":
            nf += 1
        name = self.traced((p.root,) + p.sels[:nf])
        if name is None:
            return None
        return name + "".join("." + x[1] for x in p.sels[nf:] if x[0] == "f"), tuple(idx)

    def event(self, what, name, args, **kw):
        e = dict(what=what, name=name, args=list(args), pc=list(self.pc), loops=list(self.loops), f=self.fr.f, node=self.cur,
                 region=self.region, **kw)
        self.events.append(e)
        return e

    def elemlen(self, s, p):
        nf = 0
        while p.sels[nf][0] == "f":
            nf += 1
        return self.length(self.rdbase(s, (p.root,) + p.sels[:nf]))

    def trd(self, s, name, idx, p):
        key = (mk("elem", name),) + idx
        self.event("rd", name, idx, len=self.elemlen(s, p))
        if key in s.m:
            return s.m[key]
        return mk("acc", name, idx)

    def twr(self, s, name, idx, x, p):
        root = mk("elem", name)
        for k in [k for k in s.m if k[0] is root or k[0].op == "elem" and k[0].a[0].startswith(name + ".")]:
            del s.m[k]
        s.m[(root,) + idx] = x
        self.event("wr", name, tuple(idx) + (x,), len=self.elemlen(s, p))

    def untrace(self, s):
        for k in [k for k in s.m if k[0].op == "elem"]:
            del s.m[k]
        return s

    cur = None
    region = None

    def getfld(self, name, v):
        if name in self.consts and v.op not in ("setfld", "struct"):
            return num(self.consts[name])
        return fld(name, v)

    def rdbase(self, s, base):
        m = s.m
        if base in m:
            v = m[base]
        else:
            v = None
            for k in range(len(base) - 1, 0, -1):
                if base[:k] in m:
                    v = m[base[:k]]
                    for x in base[k:]:
                        v = self.getfld(x[1], v)
                    break
            if v is None:
                v = self.init(base)
        # fields written separately below this location
        n = len(base)
        ext = [(k, x) for k, x in m.items() if len(k) > n and k[:n] == base]
        if ext:
            for k, x in sorted(ext, key=lambda kx: (len(kx[0]), str(kx[0]))):
                v = self.setpath(v, k[n:], x)
        return v

    def setpath(self, v, sels, x):
        if not sels:
            return x
        if sels[0][0] == "f":
            nm = sels[0][1]
            inner = self.setpath(self.getfld(nm, v), sels[1:], x)
            return setfld(v, nm, inner)
        i = sels[0][1]
        if len(sels) == 1:
            return store(v, i, x)
        return store(v, i, self.setpath(sel(v, i), sels[1:], x))

    def wr(self, s, p, x):
        if isinstance(p, CondPath):
            a = self.rd(s, p.a)
            b = self.rd(s, p.b)
            self.wr(s, p.a, ite(p.c, x, a))
            self.wr(s, p.b, ite(p.c, b, x))
            return
        tr = self.tracedpath(p)
        if tr is not None:
            return self.twr(s, tr[0], tr[1], x, p)
        base, suf = p.base()
        if suf:
            x = self.setpath(self.rdbase(s, base), suf, x)
        n = len(base)
        for k in [k for k in s.m if len(k) > n and k[:n] == base]:
            del s.m[k]
        s.m[base] = x

    def merge(self, c, s1, s2):
        """state: c ? s1 : s2"""
        out = State()
        keys = set(s1.m) | set(s2.m)
        for k in keys:
            if k[0].op == "elem":
                if k in s1.m and k in s2.m:
                    out.m[k] = ite(c, s1.m[k], s2.m[k])
                elif k in s1.m:
                    if not any(y[0] is k[0] for y in s2.m):
                        out.m[k] = ite(c, s1.m[k], mk("acc", k[0].a[0], k[1:]))
                elif not any(y[0] is k[0] for y in s1.m):
                    out.m[k] = ite(c, mk("acc", k[0].a[0], k[1:]), s2.m[k])
                continue
            # a location known on one side only
            a = s1.m[k] if k in s1.m else self.rdbase(s1, k)
            b = s2.m[k] if k in s2.m else self.rdbase(s2, k)
            out.m[k] = a if a is b else ite(c, a, b)
        return out

    # ------------------------------------------------------------ functions
    def run(self, f, args=None, this=None, state=None):
        """summarise function f.  Returns (return value, final state, frame)."""
        s = state or State()
        self.uid += 1
        fr = Frame(f, this, self.uid)
        self.frames.append(fr)
        self.stack.append(f["id"])
        args = args or []
        for k, p in enumerate(f.get("params") or []):
            a = args[k] if k < len(args) else None
            if p.get("ref"):
                if a is None:
                    a = Path(mk("param", p["n"]))
                fr.env[p["id"]] = a
            else:
                q = Path(mk("local", fr.uid, p["id"], p["n"]))
                fr.env[p["id"]] = q
                if a is None:
                    a = mk("parg", p["n"], p["t"])
                self.wr(s, q, a)
        if this is not None or f.get("cls"):
            if this is None:
                fr.this = Path(mk("this"))
        try:
            for i in f.get("inits") or []:
                if i.get("field") and i.get("e"):
                    p = fr.this.f(i["field"])
                    if self.isref_field(f.get("cls"), i["field"]):
                        self.wr(s, p, addr(self.lv(i["e"], s)))
                    else:
                        self.wr(s, p, self.ev(i["e"], s))
                elif i.get("e") and i["e"]["k"] == "ctor":
                    self.construct(i["e"], s, fr.this)
            s2 = self.block([f["b"]], s)
            rets = fr.rets
            rv = VOID
            if s2 is None:
                if not rets:
                    raise Abort()
                last = rets.pop()
                s2, rv = last.s, last.v
            for r in reversed(rets):
                s2 = self.merge(r.c, r.s, s2)
                rv = r.v if r.v is rv else (ite(r.c, r.v, rv) if r.v is not VOID and rv is not VOID else (rv if r.v is VOID else r.v))
            # drop the locals of this frame
            for k in [k for k in s2.m if k[0].op == "local" and k[0].a[0] == fr.uid]:
                del s2.m[k]
            return rv, s2, fr
        finally:
            self.frames.pop()
            self.stack.pop()

    def isref_field(self, cls, name):
        for r in self.p.js["records"]:
            if r.get("name") == cls or r.get("q") == cls:
                for fl in r["fields"]:
                    if fl["n"] == name:
                        return fl.get("ref")
        return False

    @property
    def fr(self):
        return self.frames[-1]

    # ------------------------------------------------------------ statements
    def block(self, stmts, s):
        """returns the fall-through state or None"""
        base = len(self.pc)
        try:
            for n in stmts:
                if n is None:
                    continue
                self.left = None
                s = self.st(n, s)
                if s is None:
                    return None
                if self.left is not None and n["k"] == "if":
                    # one branch jumped away: what follows runs under the other
                    self.pc.append(self.left)
                    self.left = None
            return s
        finally:
            del self.pc[base:]

    left = None

    def st(self, n, s):
        k = n["k"]
        if n.get("l") and k in ("expr", "decl", "ret", "if"):
            self.cur = n
        if k == "blk":
            return self.block(n["b"], s)
        if k == "decl":
            for v in n["v"]:
                self.decl(v, s)
            return s
        if k == "expr":
            try:
                self.ev(n["e"], s)
            except Abort:
                self.aborts.append((self.fr.f, n, list(self.pc)))
                return None
            return s
        if k == "if":
            if n.get("init"):
                s = self.st(n["init"], s)
            c = truth(self.ev(n["c"], s))
            if c is TRUE:
                return self.st(n["a"], s)
            if c is FALSE:
                return self.st(n["b"], s) if n.get("b") else s
            nr = len(self.fr.rets)
            self.pc.append(c)
            s1 = self.st(n["a"], s.copy())
            self.pc[-1] = lnot(c)
            r1 = self.fr.rets[nr:]
            for r in r1:
                r.c = land(c, r.c)
            n2 = len(self.fr.rets)
            s2 = self.st(n["b"], s.copy()) if n.get("b") else s
            self.pc.pop()
            for r in self.fr.rets[n2:]:
                r.c = land(lnot(c), r.c)
            self.left = None
            if s1 is None:
                self.left = lnot(c) if s2 is not None else None
                return s2
            if s2 is None:
                self.left = c
                return s1
            return self.merge(c, s1, s2)
        if k == "ret":
            v = VOID
            if n.get("e"):
                if self.fr.f.get("retref"):
                    v = addr(self.lv(n["e"], s))
                else:
                    v = self.ev(n["e"], s)
            self.fr.rets.append(Ret(TRUE, v, s))
            return None
        if k in ("for", "while", "do", "rfor"):
            return self.loop(n, s)
        if k == "omp":
            old, self.region = self.region, n
            self.regdepth[id(n)] = len(self.loops)
            for c in n.get("cl") or []:
                if c.get("e") is not None:
                    self.clauses[id(c)] = self.ev(c["e"], s)
            try:
                return self.st(n["b"], s)
            finally:
                self.region = old
        if k in ("continue", "break"):
            if not self.jump:
                raise NotHandled("jump outside a loop")
            self.jump[-1].append((k, s, list(self.pc[self.jumpbase[-1]:])))
            return None
        if k == "nop":
            return s
        if k == "switch":
            return self.switch(n, s)
        if k in ("case", "default", "label"):
            return self.st(n["b"], s) if n.get("b") else s
        if k == "try":
            return self.st(n["b"], s)
        if k == "throw":
            return None
        raise NotHandled("statement " + k)

    jump = []
    jumpbase = []

    def switch(self, n, s):
        v = self.ev(n["c"], s)
        body = n["b"]["b"] if n["b"]["k"] == "blk" else [n["b"]]
        # groups: list of (cond, statements until break)
        groups, cur = [], None
        for x in body:
            y = x
            labels = []
            while y is not None and y["k"] in ("case", "default"):
                labels.append(y)
                y = y.get("b")
            if labels:
                if cur is not None and cur[2]:
                    cur = None
                if cur is None:
                    cur = [[], [], False]
                    groups.append(cur)
                elif cur[1]:
                    raise NotHandled("switch fall-through")
                cur[0] += labels
            if y is None:
                continue
            if y["k"] == "break":
                cur[2] = True
                continue
            if cur is None:
                continue
            if y["k"] == "blk" and y["b"] and y["b"][-1]["k"] == "break":
                cur[1] += y["b"][:-1]
                cur[2] = True
            else:
                cur[1].append(y)
        conds, default = [], None
        tree = None
        allc = FALSE
        items = []
        for labels, stm, br in groups:
            c = FALSE
            isd = False
            for l in labels:
                if l["k"] == "default":
                    isd = True
                else:
                    c = lor(c, cmp0("eq0", sub(numeric(v), numeric(self.ev(l["c"] if "c" in l else l["e"], s))), True))
            if isd:
                default = stm
            else:
                items.append((c, stm))

        def go(i, s):
            if i == len(items):
                return self.block(default, s) if default else s
            c, stm = items[i]
            self.pc.append(c)
            nr = len(self.fr.rets)
            s1 = self.block(stm, s.copy())
            for r in self.fr.rets[nr:]:
                r.c = land(c, r.c)
            self.pc[-1] = lnot(c)
            n2 = len(self.fr.rets)
            s2 = go(i + 1, s)
            for r in self.fr.rets[n2:]:
                r.c = land(lnot(c), r.c)
            self.pc.pop()
            if s1 is None:
                return s2
            if s2 is None:
                return s1
            return self.merge(c, s1, s2)
        return go(0, s)

    def decl(self, v, s):
        fr = self.fr
        if v.get("static"):
            q = Path(mk("static", fr.f["id"], v["n"]))
            fr.env[v["id"]] = q
            return
        if v.get("ref") and v.get("init"):
            try:
                fr.env[v["id"]] = self.lv(v["init"], s)
            except NotHandled:
                q = Path(mk("local", fr.uid, v["id"], v["n"]))
                fr.env[v["id"]] = q
                self.wr(s, q, self.ev(v["init"], s))
            return
        q = Path(mk("local", fr.uid, v["id"], v["n"]))
        fr.env[v["id"]] = q
        i = v.get("init")
        if i is None:
            self.wr(s, q, mk("uninit", v["t"]))
        elif i["k"] == "ctor" and not i.get("copy") and i.get("id") in self.p.funcs:
            self.construct(i, s, q)
        else:
            x = self.ev(i, s)
            if v["t"] in ("i", "u", "d") and not v.get("isarr"):
                x = self.conv(i, v["t"], x)
            self.wr(s, q, x)

    def conv(self, e, t, x):
        if t in ("i", "u") and e.get("t") == "d":
            return fn("toint", numeric(x)) if val(numeric(x)) is None else num(int(val(x)))
        return numeric(x) if t != "b" else x

    def construct(self, n, s, p):
        f = self.p.funcs.get(n.get("id"))
        if f is None or f.get("b") is None:
            return
        if n.get("copy"):
            self.wr(s, p, self.ev(n["args"][0], s))
            return
        args = self.args(f, n.get("args") or [], s)
        if self.opaque(f):
            self.wr(s, p, mk("obj", f["id"], tuple(a if isinstance(a, T) else self.rd(s, a) for a in args)))
            return
        rv, s2, _ = self.run(f, args, p, s)
        s.m = s2.m

    def args(self, f, args, s):
        out = []
        ps = f.get("params") or []
        for p, a in zip(ps, args):
            if a["k"] == "defarg":
                a = a.get("e") or p.get("def") or a
            if p.get("ref"):
                try:
                    out.append(self.lv(a, s))
                    continue
                except NotHandled:
                    self.uid += 1
                    q = Path(mk("local", -1, self.uid, "tmp"))
                    self.wr(s, q, self.ev(a, s))
                    out.append(q)
                    continue
            x = self.ev(a, s)
            if p["t"] in ("i", "u", "d"):
                x = self.conv(a, p["t"], x)
            out.append(x)
        for p in ps[len(args):]:
            if p.get("def"):
                out.append(self.ev(p["def"], s))
        return out

    # ------------------------------------------------------------ lvalues
    def lv(self, n, s):
        k = n["k"]
        if k == "ref":
            if n["c"] in ("param", "local"):
                if n["id"] in self.fr.env:
                    return self.fr.env[n["id"]]
                q = Path(mk("local", self.fr.uid, n["id"], n["n"]))
                self.fr.env[n["id"]] = q
                return q
            if n["c"] == "static":
                return Path(mk("static", self.fr.f["id"], n["n"]))
            return Path(mk("global", n.get("q") or n["n"]))
        if k == "mem":
            e = n["e"]
            if e["k"] == "this":
                p = self.fr.this.f(n["n"])
            elif n.get("arrow"):
                p = deref(self.ev(e, s)).f(n["n"])
            else:
                try:
                    p = self.lv(e, s).f(n["n"])
                except NotHandled:
                    raise
            if self.isref_field(n.get("cls"), n["n"]):
                v = self.rd(s, p)
                return deref(v)
            return p
        if k == "un" and n["op"] == "*":
            e = n["e"]
            if e["k"] == "this":
                return self.fr.this
            return deref(self.ev(e, s))
        if k == "un" and n["op"] in ("++", "--"):
            self.ev(n, s)
            return self.lv(n["e"], s)
        if k == "idx":
            a = n["a"]
            base = a
            while base["k"] == "cast":
                base = base["e"]
            i = numeric(self.ev(n["b"], s))
            if base.get("t") == "p" and not (base["k"] == "ref" and base.get("isarr")):
                v = self.ev(a, s)
                if v.op == "addr" or v.op == "ite" or v.op == "padd":
                    return deref(v).i(i)
                return Path(mk("deref", v)).i(i)
            return self.lv(base, s).i(i)
        if k == "call" and n.get("op") == "[]" and not self.p.targets(n):
            o = n.get("obj") or n["args"][0]
            ix = n["args"][-1]
            if ix.get("t") in ("i", "u"):
                return self.lv(o, s).i(numeric(self.ev(ix, s)))
            raise NotHandled("slice lvalue")
        if k == "cast":
            return self.lv(n["e"], s)
        if k == "cond":
            c = truth(self.ev(n["c"], s))
            return CondPath(c, self.lv(n["a"], s), self.lv(n["b"], s))
        if k == "asg":
            self.ev(n, s)
            return self.lv(n["a"], s)
        if k == "call":
            ts = self.p.targets(n)
            if ts and ts[0].get("retref"):
                return deref(self.ev(n, s, raw=True))
            if n.get("op") and n["op"].endswith("=") and n.get("obj") is not None and not ts:
                self.ev(n, s)
                return self.lv(n["obj"], s)
        raise NotHandled("lvalue " + k)

    # ------------------------------------------------------------ rvalues
    def ev(self, n, s, raw=False):
        k = n["k"]
        if k in ("int", "flt"):
            return num(Fr(n["v"])) if k == "int" else num(Fr(str(n["v"])))
        if k == "bool":
            return TRUE if n["v"] else FALSE
        if k == "str":
            return mk("str", n["v"])
        if k == "null":
            return NULL
        if k == "zero":
            return num(0)
        if k == "this":
            return addr(self.fr.this)
        if k == "ref":
            if n["c"] == "enum":
                return num(n["v"]) if "v" in n else mk("enum", n["n"])
            if n["c"] == "func":
                return mk("func", n.get("id") or n["n"])
            p = self.lv(n, s)
            return self.rdv(n, s, p)
        if k in ("mem", "idx"):
            try:
                p = self.lv(n, s)
            except NotHandled:
                if k == "mem":
                    return self.getfld(n["n"], self.ev(n["e"], s))
                raise
            return self.rdv(n, s, p)
        if k == "cast":
            x = self.ev(n["e"], s)
            st, dt = n["e"].get("t"), n["t"]
            if dt in ("i", "u") and st == "d":
                return self.conv(n["e"], dt, x)
            if dt == "b" and st in ("i", "u", "d", "p"):
                if st == "p":
                    return lnot(ptreq(x, NULL))
                return truth(numeric(x))
            if dt in ("d", "i", "u") and st == "b":
                return numeric(x)
            return x
        if k == "un":
            return self.unary(n, s)
        if k == "bin":
            return self.binary(n["op"], n["a"], n["b"], n, s)
        if k == "asg":
            return self.assign(n["op"], n["a"], n["b"], n, s)
        if k == "cond":
            c = truth(self.ev(n["c"], s))
            s1, s2 = s.copy(), s.copy()
            a, b = self.ev(n["a"], s1), self.ev(n["b"], s2)
            s.m = self.merge(c, s1, s2).m
            return ite(c, a, b)
        if k == "init":
            if n.get("fields"):
                return mk("struct", n["ty"], tuple((nm, self.ev(e, s)) for nm, e in zip(n["fields"], n["args"])))
            if len(n["args"]) == 1 and n["ty"] in ("double", "int", "unsigned int", "bool"):
                return self.ev(n["args"][0], s)
            return mk("list", tuple(numeric(self.ev(e, s)) for e in n["args"]))
        if k == "defarg":
            return self.ev(n["e"], s) if n.get("e") else mk("default", "?")
        if k == "sexpr":
            b = n["b"]
            r = self.st(b, s)
            if r is None:
                raise Abort()
            s.m = r.m
            return VOID
        if k == "new":
            self.uid += 1
            p = Path(mk("heap", self.uid, n["ty"]))
            i = n.get("init")
            if i is not None and i["k"] == "ctor" and i.get("id") in self.p.funcs and not i.get("copy"):
                self.construct(i, s, p)
            elif i is not None:
                self.wr(s, p, self.ev(i, s))
            return addr(p)
        if k == "delete":
            self.ev(n["e"], s)
            return VOID
        if k == "ctor":
            return self.ctor(n, s)
        if k == "call":
            return self.call(n, s, raw)
        if k == "throw":
            raise Abort()
        if k == "sizeof":
            return mk("sizeof", n.get("ty", ""))
        raise NotHandled("expression " + k)

    def rdv(self, n, s, p):
        """read; arrays declared int a[N] decay to pointers when used as such"""
        v = self.rd(s, p)
        return v

    def unary(self, n, s):
        op, e = n["op"], n["e"]
        if op == "&":
            b = e
            while b["k"] == "cast":
                b = b["e"]
            if b["k"] == "ref" and b["c"] == "func":
                return self.ev(b, s)
            return addr(self.lv(e, s))
        if op == "*":
            return self.rd(s, self.lv(n, s))
        if op in ("++", "--", "p++", "p--"):
            p = self.lv(e, s)
            v = numeric(self.rd(s, p))
            if e.get("t") == "p":
                w = padd(v, num(1 if "+" in op else -1))
            else:
                w = add(v, num(1 if "+" in op else -1))
            self.wr(s, p, w)
            return v if op.startswith("p") else w
        v = self.ev(e, s)
        if op == "!":
            if e.get("t") == "p":
                return ptreq(v, NULL)
            return lnot(truth(v))
        if op == "-":
            if self.isarr(v):
                return self.lift(lambda x: neg(x), v)
            return neg(numeric(v))
        if op == "+":
            return v
        return fn("un" + op, numeric(v))

    def isarr(self, v):
        return v.op in ("lam", "fill", "store", "map", "rowmap", "list", "mask") or v in self.arrs if not isinstance(v, Path) else False

    arrs = ()

    def binary(self, op, na, nb, n, s):
        if op == ",":
            self.ev(na, s)
            return self.ev(nb, s)
        if op in ("&&", "||"):
            a = truth(self.evb(na, s))
            if (op == "&&" and a is FALSE) or (op == "||" and a is TRUE):
                return a
            self.pc.append(a if op == "&&" else lnot(a))
            s2 = s.copy()
            b = truth(self.evb(nb, s2))
            self.pc.pop()
            s.m = (self.merge(a, s2, s) if op == "&&" else self.merge(a, s, s2)).m
            return land(a, b) if op == "&&" else lor(a, b)
        a, b = self.ev(na, s), self.ev(nb, s)
        return self.arith(op, a, b, na, nb)

    def evb(self, n, s):
        v = self.ev(n, s)
        if n.get("t") == "p":
            return lnot(ptreq(v, NULL))
        return v

    def arrlen(self, v):
        return self.length(v)

    def arith(self, op, a, b, na, nb):
        ta, tb = na.get("t"), nb.get("t")
        # element-wise valarray arithmetic
        if "valarray" in str(na.get("ty", "")) or "valarray" in str(nb.get("ty", "")) or "_Expr" in str(na.get("ty", "")) \
                or "_Expr" in str(nb.get("ty", "")) or "slice_array" in str(na.get("ty", "")) or "slice_array" in str(nb.get("ty", "")):
            if ta == "o" or tb == "o":
                n = self.arrlen(a) if ta == "o" else self.arrlen(b)
                if a.op == "lam" and ta == "o":
                    n = self.arrlen(a)
                elif b.op == "lam" and tb == "o":
                    n = self.arrlen(b)
                k = fresh("k", n)
                x = sel(a, k) if ta == "o" else numeric(a)
                y = sel(b, k) if tb == "o" else numeric(b)
                r = self.scalar(op, x, y, "d", "d")
                return bind("lam", n, k, r)
        return self.scalar(op, a, b, ta, tb)

    def scalar(self, op, a, b, ta, tb):
        if ta == "p" or tb == "p":
            if op in ("==", "!="):
                c = ptreq(a, b)
                return c if op == "==" else lnot(c)
            if op == "+":
                return padd(a, numeric(b)) if ta == "p" else padd(b, numeric(a))
            if op == "-":
                if tb == "p":
                    if a.op == "padd" and a.a[0] is b:
                        return a.a[1]
                    return fn("pdiff", a, b)
                return padd(a, neg(numeric(b)))
            return cmp0("gt0", fn("pcmp", a, b), True)
        isint = ta in ("i", "u", "b", "e") and tb in ("i", "u", "b", "e")
        if ta == "b" and tb == "b" and op in ("==", "!="):
            x, y = truth(a), truth(b)
            e = lor(land(x, y), land(lnot(x), lnot(y)))
            return e if op == "==" else lnot(e)
        a, b = numeric(a), numeric(b)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if isint:
                if val(a) is not None and val(b):
                    q = abs(val(a)) // abs(val(b))
                    return num(q if (val(a) >= 0) == (val(b) >= 0) else -q)
                return fn("idiv", a, b)
            return div(a, b)
        if op == "%":
            return fn("mod", a, b)
        if op == "<":
            return cmp0("gt0", sub(b, a), isint)
        if op == ">":
            return cmp0("gt0", sub(a, b), isint)
        if op == "<=":
            return cmp0("ge0", sub(b, a), isint)
        if op == ">=":
            return cmp0("ge0", sub(a, b), isint)
        if op == "==":
            return cmp0("eq0", sub(a, b), isint)
        if op == "!=":
            return lnot(cmp0("eq0", sub(a, b), isint))
        return fn("op" + op, a, b)

    def assign(self, op, na, nb, n, s):
        if op == "=":
            x = self.ev(nb, s)
            if na.get("t") in ("i", "u", "d"):
                x = self.conv(nb, na["t"], x)
            elif na.get("t") == "b":
                x = truth(x)
            p = self.lv(na, s)
            self.wr(s, p, x)
            return x
        b = self.ev(nb, s)
        p = self.lv(na, s)
        a = self.rd(s, p)
        x = self.arith(op[:-1], a, b, na, nb)
        if na.get("t") in ("i", "u") and nb.get("t") == "d":
            x = fn("toint", x)
        self.wr(s, p, x)
        return x

    # ------------------------------------------------------------ calls
    def ctor(self, n, s):
        nm = n.get("f") or ""
        args = n.get("args") or []
        f = self.p.funcs.get(n.get("id")) if n.get("id") else None
        if n.get("copy") and len(args) == 1:
            return self.ev(args[0], s)
        if f is not None and f.get("b") is not None:
            self.uid += 1
            p = Path(mk("local", -2, self.uid, "tmp"))
            self.construct(n, s, p)
            return self.rd(s, p)
        if nm.startswith("std::valarray") or nm.startswith("std::vector"):
            vec = nm.startswith("std::vector")
            if not args:
                return mk("fill", num(0), num(0))
            if n.get("list") or args[0]["k"] == "init":
                a0 = args[0]
                while a0["k"] in ("cast",):
                    a0 = a0["e"]
                v = self.ev(a0, s)
                return v
            if len(args) == 1:
                if args[0].get("t") in ("i", "u"):
                    return mk("fill", numeric(self.ev(args[0], s)), num(0))
                return self.ev(args[0], s)
            if len(args) == 2:
                a, b = self.ev(args[0], s), self.ev(args[1], s)
                if args[0].get("t") == "p":
                    nn = numeric(b)
                    k = fresh("k", nn)
                    return bind("lam", nn, k, self.rd(s, deref(padd(a, k)) if a.op != "init" else Path(mk("deref", a)).i(k)))
                if vec:
                    a, b = b, a
                return mk("fill", numeric(b), a if "valarray" in str(args[0].get("ty")) else (truth(a) if args[0].get("t") == "b" else numeric(a) if args[0].get("t") in ("i", "u", "d") else a))
        if nm == "std::slice::slice":
            return mk("slice", *[numeric(self.ev(a, s)) for a in args])
        if nm.startswith("std::initializer_list"):
            return mk("list", tuple(self.ev(a, s) for a in args))
        return mk("obj", nm, tuple(self.ev(a, s) for a in args))

    def call(self, n, s, raw=False):
        name = n.get("f") or ""
        base = name.split("::")[-1]
        args = n.get("args") or []
        ts = self.p.targets(n)
        if n.get("noret"):
            raise Abort()
        if ts:
            return self.docall(n, ts, s, raw)
        if name in PRINTERS or base in PRINTERS:
            for a in args:
                if self.traced or self.on_call:
                    try:
                        self.ev(a, s)
                    except NotHandled:
                        pass
                self.out_arg(a, s, name)
            return fn("ext", mk("str", name))
        op = n.get("op")
        obj = n.get("obj")
        if op:
            ops = ([obj] if obj is not None else []) + args
            if op == "[]":
                return self.index(ops[0], ops[1], s)
            if op == "=":
                return self.arrassign(ops[0], ops[1], s)
            if op in ("+=", "-=", "*=", "/=") and len(ops) == 2:
                a = self.ev(ops[0], s)
                b = self.ev(ops[1], s)
                x = self.arith(op[:-1], a, b, ops[0], ops[1])
                self.store_to(ops[0], x, s)
                return x
            if op == "<<":
                for a in ops:
                    try:
                        self.ev(a, s)
                    except NotHandled:
                        pass
                return mk("stream")
            if len(ops) == 2:
                a, b = self.ev(ops[0], s), self.ev(ops[1], s)
                return self.arith(op, a, b, ops[0], ops[1])
            if len(ops) == 1 and op == "-":
                a = self.ev(ops[0], s)
                return self.lift(neg, a)
        if obj is not None:
            if base == "size":
                return self.length(self.ev(obj, s))
            if base == "sum" and not args:
                v = self.ev(obj, s)
                nn = self.arrlen(v)
                k = fresh("k", nn)
                return bind("sum", nn, k, sel(v, k))
            if base in ("resize",):
                nn = numeric(self.ev(args[0], s))
                fillv = num(0)
                if len(args) > 1 and args[1]["k"] != "defarg":
                    fillv = self.ev(args[1], s)
                elif "<double>" not in name and "<int>" not in name and "<bool>" not in name:
                    fillv = mk("obj", "default:" + name, ())
                self.wr(s, self.lv(obj, s), mk("fill", nn, fillv))
                return VOID
            if base == "data":
                return addr(self.lv(obj, s))
            if base == "push_back":
                p = self.lv(obj, s)
                self.wr(s, p, mk("append", self.rd(s, p), self.ev(args[0], s)))
                return VOID
            if base in ("max", "min") and not args:
                return fn(base + "elem", self.ev(obj, s))
        if name.endswith("numeric_limits<double>::max"):
            return mk("fn", "DBL_MAX")
        av = []
        for a in args:
            try:
                av.append(self.ev(a, s))
            except NotHandled:
                av.append(mk("unkarg"))
        if base in ("fmax", "fmin"):
            base = base[1:]
        if base == "fabs":
            base = "abs"
        if base == "clamp" and len(av) == 3:
            return fn("min", numeric(av[2]), fn("max", numeric(av[1]), numeric(av[0])))
        if base == "exit" or base == "abort":
            raise Abort()
        if base in ("move", "forward"):
            return av[0]
        if base == "swap" and len(args) == 2:
            p, q = self.lv(args[0], s), self.lv(args[1], s)
            self.wr(s, p, av[1])
            self.wr(s, q, av[0])
            return VOID
        if base in PURE or name.startswith("gsl_") or n.get("t") in ("d", "i", "u", "b", "p"):
            r = fn(base, *[numeric(x) if isinstance(x, T) and isbool(x) else x for x in av])
            if base not in PURE:
                for a in args:
                    self.out_arg(a, s, name, av)
            return r
        for a in args:
            self.out_arg(a, s, name, av)
        return mk("ext", name, tuple(av))

    def out_arg(self, a, s, name, av=()):
        """external call: whatever a pointer argument &x designates is unknown afterwards"""
        b = a
        while b["k"] == "cast":
            b = b["e"]
        if b["k"] == "un" and b["op"] == "&":
            e = b["e"]
            if e["k"] == "ref" and e["c"] in ("local", "param"):
                p = self.lv(e, s)
                self.wr(s, p, mk("ext", name, tuple(x for x in av), e["n"] if not av else len(av)))

    def lift(self, f, v):
        nn = self.arrlen(v)
        k = fresh("k", nn)
        return bind("lam", nn, k, f(sel(v, k)))

    alias = {}

    def length(self, v):
        if v.id in self.alias:
            return self.alias[v.id]
        if v.op == "lam":
            return v.a[0]
        if v.op == "fill":
            return v.a[0]
        if v.op == "list":
            return num(len(v.a[0]))
        if v.op in ("store", "map", "rowmap"):
            return self.length(v.a[0])
        if v.op == "append":
            return add(self.length(v.a[0]), num(1))
        if v.op == "ite":
            return ite(v.a[0], self.length(v.a[1]), self.length(v.a[2]))
        return mk("fn", "len", v)

    def index(self, no, ni, s):
        if ni.get("t") in ("i", "u"):
            i = numeric(self.ev(ni, s))
            try:
                p = self.lv(no, s).i(i)
                return self.rd(s, p)
            except NotHandled:
                return sel(self.ev(no, s), i)
        A = self.ev(no, s)
        x = self.ev(ni, s)
        if x.op == "slice":
            st, nn, stp = x.a
            k = fresh("k", nn)
            return bind("lam", nn, k, sel(A, add(st, mul(stp, k))))
        return mk("masked", A, x)

    def arrassign(self, na, nb, s):
        x = self.ev(nb, s)
        return self.store_to(na, x, s, nb)

    def store_to(self, na, x, s, nb=None):
        a = na
        while a["k"] == "cast":
            a = a["e"]
        if a["k"] == "call" and a.get("op") == "[]" and a["args"][-1].get("t") not in ("i", "u"):
            o = a.get("obj") or a["args"][0]
            ix = self.ev(a["args"][-1], s)
            p = self.lv(o, s)
            A = self.rd(s, p)
            if ix.op == "slice":
                st, nn, stp = ix.a
                k = fresh("k", nn)
                xv = sel(x, k) if (nb is None or nb.get("t") == "o") else numeric(x)
                self.wr(s, p, mkmap(A, nn, k, add(st, mul(stp, k)), xv))
                return x
            # boolean mask
            nn = self.arrlen(A)
            k = fresh("k", nn)
            c = truth(sel(ix, k))
            xv = sel(x, k) if (nb is not None and nb.get("t") == "o") else numeric(x)
            self.wr(s, p, bind("lam", nn, k, ite(c, xv, sel(A, k))))
            return x
        p = self.lv(na, s)
        if nb is not None and nb.get("t") in ("d", "i", "u", "b") and ("valarray" in str(na.get("ty", ""))):
            x = mk("fill", self.arrlen(self.rd(s, p)), numeric(x))
        self.wr(s, p, x)
        return x

    def docall(self, n, ts, s, raw=False):
        f = ts[0]
        obj = n.get("obj")
        this = None
        if f.get("cls") and not f.get("static"):
            if obj is None or obj["k"] == "this":
                this = self.fr.this
            elif n.get("arrow"):
                this = deref(self.ev(obj, s))
            else:
                try:
                    this = self.lv(obj, s)
                except NotHandled:
                    self.uid += 1
                    this = Path(mk("local", -3, self.uid, "tmp"))
                    self.wr(s, this, self.ev(obj, s))
        ops = False
        if len(ts) > 1 and n.get("virt"):
            g = self.dispatch(ts, this)
            if g is None:
                ops = True
            else:
                f = g
        args = self.args(f, n.get("args") or [], s)
        if self.on_call:
            r = self.on_call(self, n, f, this, args, s)
            if r is not None:
                return r
        if ops or self.opaque(f) or f["id"] in self.stack or len(self.stack) > 40:
            return self.opaque_call(n, f, this, args, s)
        rv, s2, fr = self.run(f, args, this, s.copy())
        s.m = s2.m
        if f.get("retref") and not raw and rv.op in ("addr", "ite"):
            return self.rd(s, deref(rv))
        return rv

    dyncls = None       # dynamic class of the object the analysis starts from

    def dispatch(self, ts, this):
        if self.dyncls is None or not isinstance(this, Path) or this.root.op != "this" or this.sels:
            return None
        for c in ancestors(self.p, self.dyncls):
            for t in ts:
                if t.get("cls") == c:
                    return t
        return None

    def opaque_call(self, n, f, this, args, s):
        av = [a if isinstance(a, T) else self.rd(s, a) for a in args]
        if this is not None and not isinstance(this, CondPath):
            tv = self.rd(s, this)
        else:
            tv = VOID
        av = tuple(numeric(x) if isbool(x) else x for x in av)
        t = mk("call", f["id"], tv, av)
        return t

    # ------------------------------------------------------------ loops
    def loop(self, n, s):
        k = n["k"]
        if k == "for" and n.get("init"):
            i = n["init"]
            s = self.st(i, s) if i["k"] in ("decl", "blk", "expr") else (self.ev(i, s), s)[1]
        rf = None
        if k == "rfor":
            s, rf = self.rfor_setup(n, s)
        # 1. what does an iteration modify?
        ck = (id(n), tuple(self.stack))
        mod = self.cachedmod(ck)
        trust = ck in self.modcache and self.fastloops
        for _ in range(6):
            if trust:
                break
            head = self.havoc(s, mod)
            save = len(self.events), len(self.fr.rets), len(self.aborts)
            c, ends, exits, rets = self.iteration(n, head.copy(), rf)
            del self.events[save[0]:], self.fr.rets[save[1]:], self.aborts[save[2]:]
            new = {}
            for e in ends + [x[1] for x in exits]:
                for loc_, v in e.m.items():
                    if loc_[0].op == "elem":
                        continue
                    old = head.m.get(loc_)
                    if old is None:
                        old = self.rdbase_quiet(head, loc_)
                    if v is not old and loc_[0].op != "elem" and not self.dead_local(loc_, s):
                        new[loc_] = 1
            add_ = [x for x in new if x not in mod]
            # a write to a prefix subsumes writes below it
            if not add_:
                break
            for x in add_:
                mod[x] = 1
            for x in list(mod):
                for kx in range(1, len(x)):
                    if x[:kx] in mod:
                        mod.pop(x, None)
        self.modcache[ck] = ([f.uid for f in self.frames], mod)
        return self.untrace(self.solve(n, s, mod, rf))

    def cachedmod(self, ck):
        """locations a loop modifies, as found before, in terms of the current frames"""
        if ck not in self.modcache:
            return {}
        us, mod = self.modcache[ck]
        ren = dict(zip(us, [f.uid for f in self.frames]))
        out = {}
        for l in mod:
            r = l[0]
            if r.op == "local" and r.a[0] in ren:
                l = (mk("local", ren[r.a[0]], *r.a[1:]),) + tuple(l[1:])
            out[l] = 1
        return out

    fastloops = False

    def dead_local(self, loc_, s):
        """a variable declared inside the loop body"""
        return loc_[0].op == "local" and loc_ not in s.m and not any(k[0] is loc_[0] for k in s.m)

    def rdbase_quiet(self, s, k):
        return self.rdbase(s, k)

    def rfor_setup(self, n, s):
        v = n["v"]
        v = v[0] if isinstance(v, list) else v
        if v.get("k") == "decl":
            v = v["v"][0]
        self.uid += 1
        try:
            ap = self.lv(n["e"], s)
        except NotHandled:
            ap = Path(mk("local", -4, self.uid, "range"))
            self.wr(s, ap, self.ev(n["e"], s))
        ctr = Path(mk("local", -4, self.uid, "rfor"))
        self.wr(s, ctr, num(0))
        length = self.length(self.rd(s, ap))
        return s, (v, ap, ctr, length)

    def havoc(self, s, mod):
        h = s.copy()
        self.lvsym = {}
        for loc_ in mod:
            t = mk("lv", self.loopn, loc_)
            n = len(loc_)
            for k in [k for k in h.m if len(k) > n and k[:n] == loc_]:
                del h.m[k]
            h.m[loc_] = t
        return h

    def iteration(self, n, s, rf):
        """one iteration from head state s: (loop condition, end states, exits, returns)"""
        k = n["k"]
        self.untrace(s)
        if k == "do":
            c = TRUE
        elif rf:
            c = cmp0("gt0", sub(rf[3], numeric(self.rd(s, rf[2]))), True)
        else:
            c = truth(self.evb(n["c"], s)) if n.get("c") else TRUE
        self.jump = self.jump + [[]]
        self.jumpbase = self.jumpbase + [len(self.pc) + 1]
        self.pc.append(c)
        nr = len(self.fr.rets)
        try:
            if rf:
                v, ap, ctr, ln = rf
                el = ap.i(numeric(self.rd(s, ctr)))
                if v.get("ref"):
                    self.fr.env[v["id"]] = el
                else:
                    q = Path(mk("local", self.fr.uid, v["id"], v["n"]))
                    self.fr.env[v["id"]] = q
                    self.wr(s, q, self.rd(s, el))
            e = self.st(n["b"], s)
        finally:
            self.pc.pop()
            J = self.jump[-1]
            self.jump = self.jump[:-1]
            self.jumpbase = self.jumpbase[:-1]
        rets = self.fr.rets[nr:]
        del self.fr.rets[nr:]
        conts = [(land(*pc), st) for kk, st, pc in J if kk == "continue"]
        brks = [(land(*pc), st) for kk, st, pc in J if kk == "break"]
        ends = [e] if e is not None else []
        cur = e
        for cc, st in reversed(conts):
            cur = st if cur is None else self.merge(cc, st, cur)
        if cur is not None:
            cur = cur.copy()
            if k == "for" and n.get("inc"):
                self.ev(n["inc"], cur)
            if rf:
                self.wr(cur, rf[2], add(numeric(self.rd(cur, rf[2])), num(1)))
        docond = None
        if k == "do" and cur is not None:
            c = truth(self.evb(n["c"], cur))
        return c, ([cur] if cur is not None else []), brks, rets

    def solve(self, n, s, mod, rf):
        self.loopn += 1
        ln = self.loopn
        locs = list(mod)
        if n["k"] == "do" or not locs and False:
            return self.opaque_loop(n, s, locs, rf)
        # head state with lv symbols
        h = s.copy()
        lv = {}
        for l in locs:
            t = mk("lv", ln, l)
            for k in [k for k in h.m if len(k) > len(l) and k[:len(l)] == l]:
                del h.m[k]
            h.m[l] = t
            lv[l] = t
        init = {l: self.rdbase(s, l) for l in locs}
        save = len(self.events), len(self.fr.rets), len(self.aborts)
        self.loops.append((mk("lk", ln), None))
        c, ends, exits, rets = self.iteration(n, h.copy(), rf)
        self.loops.pop()
        if exits or rets or not ends:
            return self.opaque_loop(n, s, locs, rf, c, ends, exits, rets, lv, init)
        e = ends[0]
        nxt = {l: (e.m[l] if l in e.m else self.rdbase(e, l)) for l in locs}
        lvids = {t.id for t in lv.values()}
        # 2. induction variables
        k = fresh("k")
        at = {}                       # lv id -> value at iteration k
        step = {}
        for l in locs:
            t = lv[l]
            if nxt[l] is t:
                at[t.id] = init[l]
                continue
            try:
                d = sub(numeric(nxt[l]), t)
            except Exception:
                continue
            if not atoms(d, lambda x: x.id in lvids):
                if val(d) is not None or not occurs(d, t):
                    # loop invariant increment
                    step[l] = d
                    at[t.id] = add(numeric(init[l]), mul(k, d))
        c2 = subst(c, at, {})
        trip = self.trips(c2, k, lvids)
        if trip is None:
            return self.opaque_loop(n, s, locs, rf, c, ends, exits, rets, lv, init)
        RANGE[k.id] = trip
        # run the iteration again with the induction variables known, so that
        # conditions on them are decided and events see closed forms
        del self.events[save[0]:], self.fr.rets[save[1]:], self.aborts[save[2]:]
        h2 = s.copy()
        for l in locs:
            for kk in [kk for kk in h2.m if len(kk) > len(l) and kk[:len(l)] == l]:
                del h2.m[kk]
            h2.m[l] = at.get(lv[l].id, lv[l])
        self.loops.append((k, trip))
        c, ends, exits, rets = self.iteration(n, h2, rf)
        self.loops.pop()
        if not ends or exits or rets:
            return self.opaque_loop(n, s, locs, rf, c, ends, exits, rets, lv, init)
        e = ends[0]
        nxt = {l: (e.m[l] if l in e.m else self.rdbase(e, l)) for l in locs}
        final = {}
        for l in locs:
            if lv[l].id in at:
                if l in step:
                    final[l] = add(numeric(init[l]), mul(trip, step[l]))
                else:
                    final[l] = nxt[l] if False else init[l]
        # 3. sums, maps
        pend = [l for l in locs if lv[l].id not in at]
        progress = True
        while pend and progress:
            progress = False
            for l in list(pend):
                t = lv[l]
                x = subst(nxt[l], at, {})
                others = atoms(x, lambda y: y.id in lvids and y is not t)
                if others:
                    continue
                r = self.recur(t, x, init[l], k, trip)
                if r is None:
                    continue
                final[l], atk = r
                if atk is not None:
                    at[t.id] = atk
                pend.remove(l)
                progress = True
                if atk is None:
                    # later variables cannot see intermediate values of this one
                    pass
        if pend:
            self.opaque_rec(ln, n, locs, lv, init, nxt, at, pend, k, trip, final)
        out = s.copy()
        for l in locs:
            for kk in [kk for kk in out.m if len(kk) > len(l) and kk[:len(l)] == l]:
                del out.m[kk]
            out.m[l] = final[l]
        # rewrite events recorded inside this loop
        if at:
            for ev in self.events[save[0]:]:
                ev["args"] = [subst(a, at, {}) if isinstance(a, T) else a for a in ev["args"]]
                ev["pc"] = [subst(a, at, {}) for a in ev["pc"]]
                ev["loops"] = [(kk, subst(nn, at, {}) if isinstance(nn, T) else nn) for kk, nn in ev["loops"]]
                for fl in ("idx", "len", "res"):
                    if isinstance(ev.get(fl), T):
                        ev[fl] = subst(ev[fl], at, {})
        return out

    def trips(self, c, k, lvids):
        """number of iterations: largest k with c(0..k-1) true, for affine conditions"""
        if c.op in ("gt0", "ge0"):
            p = c.a[0]
            if atoms(p, lambda x: x.id in lvids):
                return None
            li = linear_in(p, k)
            if li is None:
                return None
            co, base = li
            v = val(co)
            if v is None or v >= 0:
                return None
            if v == -1:
                return base if c.op == "gt0" else add(base, num(1))
            return fn("ceildiv", base, num(-v))
        if c.op == "not" and c.a[0].op == "eq0":
            p = c.a[0].a[0]
            if atoms(p, lambda x: x.id in lvids):
                return None
            li = linear_in(p, k)
            if li is None:
                return None
            v = val(li[0])
            if v in (1, -1):
                return mul(li[1], num(-v))
        if c.op == "and":
            return None
        return None

    def recur(self, t, x, init, k, trip):
        """closed form of t := x(t, k).  Returns (final, value at iteration k) or None"""
        if not occurs(x, t):
            # last value wins
            last = subst(x, {k.id: sub(trip, num(1))}, {})
            fin = ite(cmp0("gt0", trip, True), last, init)
            atk = ite(cmp0("gt0", k, True), subst(x, {k.id: sub(k, num(1))}, {}), init)
            return fin, atk
        if x.op in ("store", "map", "rowmap", "ite", "lam", "sel"):
            r = self.arrrec(t, x, init, k, trip)
            if r is not None:
                return r
        # scalar accumulation
        li = linear_in(x, t) if x.op == "poly" or x is t else None
        if li is not None:
            co, d = li
            if val(co) == 1 and not occurs(d, t):
                fin = add(numeric(init), bind("sum", trip, k, d))
                j = fresh("k", k)
                RANGE[j.id] = k
                atk = add(numeric(init), bind("sum", k, j, subst(d, {k.id: j}, {})))
                return fin, atk
        return None

    def chain(self, x, t):
        """x as a chain of writes on t: list of writes, oldest first"""
        out = []
        while x is not t:
            if x.op in ("store", "map", "rowmap"):
                out.append(x)
                x = x.a[0]
            elif x.op == "ite":
                # conditional update of the same array: c ? W(t) : t
                a, b = x.a[1], x.a[2]
                if b is t and a.op == "store" and a.a[0] is t:
                    out.append(mk("store", t, a.a[1], ite(x.a[0], a.a[2], mk("sel", t, a.a[1]))))
                    x = t
                elif a is t and b.op == "store" and b.a[0] is t:
                    out.append(mk("store", t, b.a[1], ite(x.a[0], mk("sel", t, b.a[1]), b.a[2])))
                    x = t
                else:
                    return None
            else:
                return None
        return out[::-1]

    def arrrec(self, t, x, init, k, trip):
        ch = self.chain(x, t)
        if not ch:
            return None
        if len(ch) == 1:
            w = ch[0]
            if w.op == "store":
                idx, v = w.a[1], w.a[2]
                li = linear_in(idx, k)
                if li is None:
                    return None
                stp, base = li
                if val(stp) == 0:
                    # same cell every time: accumulation in a cell
                    cell = mk("sel", t, idx)
                    if occurs(v, t):
                        lj = linear_in(v, cell)
                        if lj is not None and val(lj[0]) == 1 and not occurs(lj[1], t):
                            tot = bind("sum", trip, k, lj[1])
                            fin = store(init, idx, add(numeric(sel(init, idx)), tot))
                            return fin, None
                        return None
                    return store(init, idx, subst(v, {k.id: sub(trip, num(1))}, {})), None
                if val(stp) is None:
                    return None
                v = self.readsafe(v, t, idx, k, stp, init)
                if v is None:
                    return None
                return mkmap(init, trip, k, idx, v), None
            if w.op == "map":
                A0, nn, bv, idx, v = w.a
                # row structure: idx = row*nn + bv
                i2 = fresh("t", nn)
                ix = subst(idx, {bv.id: i2}, {})
                vv = subst(v, {bv.id: i2}, {})
                rs = rowsplit(ix, nn)
                if rs is None or rs[1] is not i2:
                    return None
                row = rs[0]
                li = linear_in(row, k)
                if li is None or val(li[0]) in (None, 0) or atoms(row, lambda z: z is i2):
                    return None
                vv = self.readsafe(vv, t, ix, k, mul(li[0], nn), init, nn, row, i2, li[0])
                if vv is None:
                    return None
                return mkrowmap(init, trip, k, nn, i2, row, vv), None
        return None

    def readsafe(self, v, t, idx, k, stp, init, nn=None, row=None, i2=None, rstep=None):
        """replace reads of the array under construction by reads of the initial array when they
        can only see elements no earlier iteration has written"""
        reads = atoms(v, lambda z: z.op == "sel" and z.a[0] is t)
        m = {}
        for r in reads:
            if nn is None:
                d = sub(r.a[1], idx)
                q = val(div(d, stp))
            else:
                rs = rowsplit(r.a[1], nn)
                if rs is None:
                    return None
                q = val(div(sub(rs[0], row), rstep))
            if q is None or q < 0:
                # q = -1: reads what the previous iteration wrote
                return None
            m[r.id] = sel(init, r.a[1])
        v = subst(v, m, {})
        if occurs(v, t):
            return None
        return v

    def opaque_rec(self, ln, n, locs, lv, init, nxt, at, pend, k, trip, final):
        """mutually dependent locations: canonical recurrence terms"""
        bvk = None
        for l in pend:
            order = {}
            todo = [lv[l]]
            lvrev = {lv[x].id: x for x in locs}
            body = []
            seen = {lv[l].id}
            i = 0
            while i < len(todo):
                t = todo[i]
                i += 1
                x = subst(nxt[lvrev[t.id]], at, {})
                body.append(x)
                for y in sorted_atoms(x, lambda z: z.id in lvrev):
                    if y.id not in seen:
                        seen.add(y.id)
                        todo.append(y)
            ren = {t.id: mk("rv", j) for j, t in enumerate(todo)}
            ren[k.id] = mk("rk")
            bs = tuple(subst(b, ren, {}) for b in body)
            inits = tuple(init[lvrev[t.id]] for t in todo)
            final[l] = mk("rec", trip, bs, inits)

    def opaque_loop(self, n, s, locs, rf, c=None, ends=(), exits=(), rets=(), lv=None, init=None):
        self.unk.append((self.fr.f, n, "loop kept as an opaque recurrence"))
        self.uid += 1
        out = s.copy()
        if lv is None:
            self.loopn += 1
            lv = {l: mk("lv", self.loopn, l) for l in locs}
            init = {l: self.rdbase(s, l) for l in locs}
            h = s.copy()
            for l in locs:
                h.m[l] = lv[l]
            self.loops.append((mk("lk", self.loopn), None))
            c, ends, exits, rets = self.iteration(n, h, rf)
            self.loops.pop()
        # canonical description of one iteration
        lvrev = {lv[x].id: x for x in locs}

        def canon(roots):
            todo, seen, body, i = [], set(), [], 0

            def visit(x):
                for y in sorted_atoms(x, lambda z: z.id in lvrev):
                    if y.id not in seen:
                        seen.add(y.id)
                        todo.append(y)
            for x in roots:
                visit(x)
            while i < len(todo):
                t = todo[i]
                i += 1
                l = lvrev[t.id]
                for e in ends:
                    x = e.m.get(l)
                    if x is not None:
                        visit(x)
            ren = {t.id: mk("rv", j) for j, t in enumerate(todo)}
            nx = []
            for t in todo:
                l = lvrev[t.id]
                nx.append(tuple(subst(e.m[l] if l in e.m else t, ren, {}) for e in ends))
            ins = tuple(init[lvrev[t.id]] for t in todo)
            return ren, tuple(nx), ins
        ex = [x[0] for x in exits] + [r.c for r in rets]
        for l in locs:
            roots = [lv[l], c] + ex
            ren, nx, ins = canon(roots)
            xs = tuple((subst(cc, ren, {}), subst(st.m.get(l, lv[l]), ren, {})) for cc, st in exits)
            rs = tuple((subst(r.c, ren, {}), subst(r.s.m.get(l, lv[l]), ren, {})) for r in rets)
            out.m[l] = mk("loopout", subst(lv[l], ren, {}), subst(c, ren, {}), nx, ins, xs, rs)
        if rets:
            # value returned from inside the loop
            ren, nx, ins = canon([c] + ex + [r.v for r in rets if isinstance(r.v, T)])
            rc = mk("loopret", subst(c, ren, {}), nx, ins,
                    tuple((subst(r.c, ren, {}), subst(r.v, ren, {})) for r in rets))
            cond = lnot(cmp0("eq0", mk("fn", "returns", rc), True))
            self.fr.rets.append(Ret(cond, mk("fn", "retval", rc), out.copy()))
        return out


def ancestors(prog, cls):
    """cls and its bases, most derived first"""
    out, todo = [], [cls]
    while todo:
        c = todo.pop(0)
        if c in out:
            continue
        out.append(c)
        for r in prog.js["records"]:
            if r["q"] == c:
                todo += [b if isinstance(b, str) else b.get("n") for b in r.get("bases", [])]
                break
    return out


def method(prog, cls, name):
    for c in ancestors(prog, cls):
        for f in prog.funcs.values():
            if f["q"] == c + "::" + name and f.get("b"):
                return f
    return None


def class_fields(prog, cls):
    out = {}
    for c in ancestors(prog, cls):
        for r in prog.js["records"]:
            if r["q"] == c:
                for f in r["fields"]:
                    out.setdefault(f["n"], f)
                break
    return out


def sorted_atoms(x, pred):
    """atoms in a deterministic structural (left-to-right, first occurrence) order"""
    out, seen = [], set()

    def go(t):
        if t.id in seen:
            return
        seen.add(t.id)
        if pred(t):
            out.append(t)
            return
        for y in subs(t):
            go(y)
    go(x)
    return out


def setfld(v, name, x):
    if v.op == "setfld" and v.a[1] == name:
        return setfld(v.a[0], name, x)
    if v.op == "setfld" and v.a[1] > name:
        return mk("setfld", setfld(v.a[0], name, x), v.a[1], v.a[2])
    if v.op == "struct":
        return mk("struct", v.a[0], tuple((k, x if k == name else y) for k, y in v.a[1]))
    if fld(name, v) is x:
        return v
    return mk("setfld", v, name, x)


def store(A, i, v):
    if A.op == "store":
        d = sub(i, A.a[1])
        if val(d) == 0:
            return store(A.a[0], i, v)
        if (val(d) is not None or distinct(d)) and A.a[1].id > i.id:
            # commuting stores in canonical order
            return mk("store", store(A.a[0], i, v), A.a[1], A.a[2])
    if A.op == "ite":
        # push the store into both branches when the index is unaffected
        return ite(A.a[0], store(A.a[1], i, under(v, A.a[0], True)), store(A.a[2], i, under(v, A.a[0], False)))
    if sel(A, i) is v and v.op == "sel":
        return A
    return mk("store", A, i, v)


def mkmap(A, n, k, idx, v):
    """A with A[idx(k)] = v(k) for k in [0,n); canonical direction is increasing"""
    if val(n) is not None and 0 <= val(n) <= 3:
        for i in range(int(val(n))):
            A = store(A, subst(idx, {k.id: num(i)}, {}), subst(v, {k.id: num(i)}, {}))
        return A
    li = linear_in(idx, k)
    if li is not None and val(li[0]) is not None and val(li[0]) < 0:
        r = {k.id: sub(sub(n, num(1)), k)}
        idx, v = subst(idx, r, {}), subst(v, r, {})
    if v.op == "sel" and v.a[0] is A and v.a[1] is idx:
        return A
    if A.op == "map" and A.a[1] is n:
        b = subst(A.a[3], {A.a[2].id: k}, {})
        if b is idx:
            A = A.a[0]
    lvl = max(idx.lvl, v.lvl) + 1
    bv = mk("bv", lvl)
    m = {k.id: bv}
    return mk("map", A, n, bv, subst(idx, m, {}), subst(v, m, {}))


def mkrowmap(A, N, k, n, t, row, v):
    li = linear_in(row, k)
    if li is not None and val(li[0]) is not None and val(li[0]) < 0:
        r = {k.id: sub(sub(N, num(1)), k)}
        row, v = subst(row, r, {}), subst(v, r, {})
    lvl = max(row.lvl, v.lvl) + 1
    bt, bq = mk("bv", lvl), mk("bv", lvl + 1)
    m = {k.id: bq, t.id: bt}
    return mk("rowmap", A, N, n, bq, bt, subst(row, m, {}), subst(v, m, {}))


def padd(p, i):
    if val(i) == 0:
        return p
    if p.op == "padd":
        return padd(p.a[0], add(p.a[1], i))
    if p.op == "ite":
        return ite(p.a[0], padd(p.a[1], i), padd(p.a[2], i))
    return mk("padd", p, i)


def ptreq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            return lor(land(x.a[0], ptreq(x.a[1], y)), land(lnot(x.a[0]), ptreq(x.a[2], y)))
    nn = ("addr", "func", "padd")
    if a is NULL and b.op in nn or b is NULL and a.op in nn:
        return FALSE
    if a.op == "addr" and b.op == "addr" and (a.a[0].op in ("local", "heap") or b.a[0].op in ("local", "heap")) and a.a[0] is not b.a[0]:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("eq0", fn("pcmp", a, b), True)
