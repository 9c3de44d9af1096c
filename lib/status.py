"""Where the failure statuses of fallible calls go: forward dataflow over the structured AST.

For every fallible call (origin) the set of failure codes it may have returned on this path and nobody has yet looked at
is kept (F), with the variables that still hold the status or something computed from it (B: value under each code).
Conditions remove codes from the arm they cannot reach; an arm that exits or throws ends them.  Codes that survive to a
normal return of the function are a failure that went unreported, unless the return value tells the caller."""
import re, front

GSL = frozenset(list(range(-10, 0)) + list(range(1, 40)) + [256, 1000, 32512])
GSLNOT = re.compile(r"^gsl_(isnan|isinf|finite|fcmp|ran_|rng_|sf_|max|min|pow_|hypot|sign)")
WRITES = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3}
CONSOLE = {"stdout", "stderr"}
T, NZ = "T", "NZ"
OK = "ok"            # the call succeeded


def pend(c):
    return frozenset(x for x in c or () if x != OK)


def meet(a, b):
    """can the two values be equal?"""
    return a == b or T in (a, b) or a == NZ and b != 0 or b == NZ and a != 0


def convs(fmt):
    return len(re.findall(r"%(?!\*)[^%a-zA-Z\[]*(?:hh|h|ll|l|L|q|j|z|t)?[a-zA-Z\[]", fmt.replace("%%", "")))


class V:
    """value: what it is when nothing failed, and under each failure code of each origin"""
    __slots__ = ("d", "m")

    def __init__(self, d=T, m=None):
        self.d, self.m = d, m or {}

    def key(self):
        return (self.d, tuple(sorted((repr(o), tuple(sorted(c.items(), key=repr))) for o, c in self.m.items())))

    def at(self, o, c):
        if o in self.m and c in self.m[o]:
            return self.m[o][c]
        return T if c == OK and len(self.m) > 1 else self.d


def truth(x):
    return None if x == T else True if x == NZ else x != 0


def op2(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "|": a | b, "&": a & b, "+": a + b, "-": a - b, "*": a * b,
                "&&": bool(a and b), "||": bool(a or b), "^": a ^ b}.get(op, T) + 0 if op not in ("/", "%", "<<", ">>") else T
    ta, tb = truth(a), truth(b)
    if op == "||" and (ta or tb) or op == "|" and (ta or tb):
        return 1 if op == "||" else NZ
    if op == "&&" and (ta is False or tb is False):
        return 0
    if op == "&&" and ta and tb:
        return 1
    if op == "==" and (a == NZ and b == 0 or a == 0 and b == NZ):
        return 0
    if op == "!=" and (a == NZ and b == 0 or a == 0 and b == NZ):
        return 1
    return T


def lift(op, a, b):
    out = {}
    for o in set(a.m) | set(b.m):
        out[o] = {c: op2(op, a.at(o, c), b.at(o, c)) for c in set(a.m.get(o, ())) | set(b.m.get(o, ()))}
    return V(op2(op, a.d, b.d), out)


def lift1(g, a):
    return V(g(a.d), {o: {c: g(x) for c, x in m.items()} for o, m in a.m.items()})


def jv(x, y):
    return x if x == y else NZ if truth(x) and truth(y) else T


class S:
    __slots__ = ("F", "B", "W")

    def __init__(self, F=None, B=None, W=None):
        self.F, self.B, self.W = F or {}, B or {}, W or frozenset()

    def copy(self):
        return S(dict(self.F), dict(self.B), self.W)

    def key(self):
        return (tuple(sorted((repr(k), tuple(sorted(v, key=repr))) for k, v in self.F.items() if v)), tuple(sorted((repr(k), v.key()) for k, v in self.B.items())), self.W)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    F = {o: a.F.get(o, frozenset()) | b.F.get(o, frozenset()) for o in set(a.F) | set(b.F)}
    B = {}
    for k in set(a.B) & set(b.B):
        x, y = a.B[k], b.B[k]
        m = {}
        for o in F:
            for c in F[o]:
                ia, ib = c in a.F.get(o, ()), c in b.F.get(o, ())
                v = jv(x.at(o, c), y.at(o, c)) if ia and ib else x.at(o, c) if ia else y.at(o, c)
                m.setdefault(o, {})[c] = v
        B[k] = V(jv(x.d, y.d), m)
    return S(F, B, a.W | b.W)


class Dead(Exception):
    pass


class Status:
    def __init__(self, prog, report):
        self.p, self.report = prog, report      # report(kind, f, node, origin, text)
        self.sites = {}
        self.done = {}
        self.stack = []
        self.unknown = []
        self.tmp = []
        self.quiet = 0

    # ---------------------------------------------------------------- functions
    def touches(self, g, seen=None):
        if g["id"] in self.done:
            return self.done[g["id"]]
        self.done[g["id"]] = False
        t = False
        for x in front.walk(g.get("b")):
            if x["k"] in ("call", "ctor"):
                if self.codes(x) is not None or (x.get("f") or "") in WRITES or (x.get("f") or "") in ("fclose", "ferror", "fflush"):
                    t = True
                elif any(self.touches(h) for h in self.p.targets(x)):
                    t = True
        self.done[g["id"]] = t
        return t

    def codes(self, n):
        f = (n.get("f") or "").split("::")[-1]
        a = n.get("args") or []
        if f.startswith("gsl_") and n.get("ty") in ("int", None) and not GSLNOT.match(f):
            return GSL
        if f in ("fscanf", "sscanf", "scanf", "vfscanf"):
            i = 0 if f == "scanf" else 1
            if len(a) > i:
                while a[i]["k"] == "cast":
                    a = [x if j != i else x["e"] for j, x in enumerate(a)]
                if a[i]["k"] == "str":
                    return frozenset(range(-1, convs(a[i]["v"])))
            return frozenset((-1, 0))
        if f in ("fopen", "fdopen", "popen", "tmpfile", "fgets", "freopen"):
            return frozenset((0,))
        if f == "fread":
            return frozenset((0,))
        if f == "system":
            return frozenset((-1, 1, 256, 1024, 32512))
        return None

    def site(self, n, codes):
        o = (self.f["id"], n.get("l"), n.get("c0"), n.get("f"), id(n))
        self.sites[o] = (self.f, n)
        return o

    def run(self, f, args=None, F=None):
        """[(state, return value, node)] of the normal exits"""
        sv = [getattr(self, x, None) for x in ("f", "exits", "jumps")]
        self.f, self.exits, self.jumps = f, [], []
        s = S(dict(F or {}))
        for i, v in (args or {}).items():
            s.B[("v", f["params"][i]["id"])] = v
        s = self.st(f.get("b"), s)
        if s is not None:
            self.exits.append((s, None, None))
        ex = self.exits
        self.f, self.exits, self.jumps = sv
        return ex

    def check(self, f):
        self.stack = [f["id"]]
        ismain = f["q"] == "main"
        params = {("v", q["id"]) for q in f["params"]}
        ex = self.run(f)
        for s, v, n in ex:
            for o, c in s.F.items():
                c = pend(c)
                if not c or o not in self.sites and o[0] != "stream":
                    continue
                if ismain:
                    if v is not None and all(isinstance(v.at(o, x), int) and v.at(o, x) & 255 for x in c):
                        continue
                else:
                    c = frozenset(x for x in c if not self.told(ex, o, x, v))
                if not c or o[0] == "stream" and o[1] in params:
                    continue
                self.say("unreported", f, n, o, c)

    def told(self, ex, o, c, v):
        """does the return value under this failure differ from all those of success?"""
        if v is None or v.at(o, c) == T:
            return False
        good = [w.at(o, OK) if w is not None else T for s, w, _ in ex if o not in s.F or OK in s.F[o]]
        return not any(meet(v.at(o, c), g) for g in good)

    def say(self, kind, f, n, o, c):
        if not self.quiet:
            self.report(kind, f, n, o, c)

    def summary(self, n, tg, vs, s):
        """(state, value) after a call of functions of the sources; statuses of the caller handed over are followed into it"""
        out, val = None, None
        for g in tg:
            if g["id"] in self.stack or len(self.stack) > 8:
                return s, V()
            if not self.touches(g) and not any(any(pend(s.F.get(o)) for o in v.m) for v in vs if v):
                return s, V()
            self.stack.append(g["id"])
            self.quiet += 1
            args = {i: v for i, v in enumerate(vs) if v and i < len(g["params"])}
            ren = {}
            F = {o: c for o, c in s.F.items() if pend(c)}
            for i, a in enumerate(n.get("args") or []):
                if i < len(g["params"]) and "FILE" in g["params"][i]["ty"]:
                    k, ck = ("stream", ("v", g["params"][i]["id"])), ("stream", self.key(a))
                    ren[k] = ck
                    if F.get(ck):
                        F[k] = F.pop(ck)
            ex = self.run(g, args, F)
            self.quiet -= 1
            self.stack.pop()
            own = {}
            for e, v, _ in ex:
                z = s.copy()
                z.W = z.W | frozenset(ren.get(("stream", w), ("stream", w))[1] for w in e.W if ("stream", w) in ren)
                for o in list(F) + list(ren.values()):
                    z.F[o] = frozenset()
                for o, c in e.F.items():
                    o2 = ren.get(o, o)
                    if o in F or o in ren:
                        z.F[o2] = z.F.get(o2, frozenset()) | c
                    elif v is not None:
                        for x in pend(c):
                            if self.told(ex, o, x, v):
                                own.setdefault(v.at(o, x), True)
                r = V(v.d, {ren.get(o, o): m for o, m in v.m.items() if o in F or o in ren}) if v is not None else None
                val = r if val is None else V(jv(val.d, r.d), dict(val.m, **r.m)) if r is not None else val
                out = join(out, z)
            own = {x for x in own if x != T}
            if own and out is not None:
                o = self.site(n, None)
                if pend(out.F.get(o)):
                    self.say("lost", self.f, n, o, pend(out.F[o]))
                out = out.copy()
                out.F[o] = frozenset(own) | {OK}
                val = val or V()
                good = [w.at(q, OK) for e, w, _ in ex if w is not None for q in e.F if q not in F and q not in ren and OK in e.F[q]]
                m = dict(val.m)
                m[o] = {x: x for x in own}
                m[o][OK] = good[0] if good and all(g == good[0] for g in good) else NZ if own == {0} and good and all(truth(g) for g in good) else T
                val = V(val.d, m)
        if out is None:
            raise Dead()
        return out, val or V()

    # ---------------------------------------------------------------- expressions
    def key(self, n):
        while n is not None and n["k"] == "cast":
            n = n["e"]
        if n is None:
            return None
        if n["k"] == "ref":
            return ("v", n["id"]) if n.get("c") in ("local", "param") and "id" in n else ("g", n.get("q") or n.get("n"))
        if n["k"] == "mem":
            b = n.get("e") or n.get("b") or n.get("o")
            if b is None or b["k"] == "this":
                return ("this", n.get("n"))
            k = self.key(b)
            return k and k + (n.get("n"),)
        if n["k"] == "un" and n.get("op") == "&":
            return self.key(n["e"])
        return None

    def ev(self, n, s):
        """(state, value)"""
        if n is None:
            return s, V()
        k = n["k"]
        if k in ("cast", "expr") and n.get("e") is not None:
            s, v = self.ev(n["e"], s)
            if k == "cast" and n.get("t") == "b":
                v = lift1(lambda x: T if truth(x) is None else int(truth(x)), v)
            elif k == "cast" and n.get("ty") == "void":
                v = V()
            return s, v
        if k == "int":
            return s, V(n.get("v", T))
        if k in ("null", "zero"):
            return s, V(0)
        if k == "bool":
            return s, V(int(bool(n.get("v"))))
        if k == "ref" and n.get("c") == "enum" and isinstance(n.get("v"), int):
            return s, V(n["v"])
        if k in ("ref", "mem"):
            kk = self.key(n)
            if k == "mem" and kk is None:
                s, _ = self.kids(n, s)
            return s, s.B.get(kk, V()) if kk else V()
        if k == "asg":
            s, v = self.ev(n["b"], s)
            kk = self.key(n["a"])
            if n.get("op") != "=":
                s, o = self.ev(n["a"], s)
                v = lift(n["op"][:-1], o, v)
            elif kk is None:
                s, _ = self.ev(n["a"], s)
            return self.assign(s, kk, v, n), v
        if k == "un":
            if n.get("op") == "!":
                s, v = self.ev(n["e"], s)
                return s, lift1(lambda x: T if truth(x) is None else int(not truth(x)), v)
            if n.get("op") == "-":
                s, v = self.ev(n["e"], s)
                return s, lift1(lambda x: -x if isinstance(x, int) else x, v)
            s, v = self.ev(n["e"], s)
            if n.get("op") in ("++", "--", "p++", "p--"):
                s = self.assign(s, self.key(n["e"]), V(), n)
            return s, V()
        if k == "bin":
            op = n.get("op")
            if op in ("&&", "||"):
                t, f = self.cond(n["a"], s)
                go, stay = (t, f) if op == "&&" else (f, t)
                cut = V(0 if op == "&&" else 1)
                if go is None:
                    return stay, cut
                g2, v = self.ev(n["b"], go)
                v = lift1(lambda x: T if truth(x) is None else int(truth(x)), v)
                return self.phi(g2, v, stay, cut)
            s, a = self.ev(n["a"], s)
            if op == ",":
                return self.ev(n["b"], s)
            s, b = self.ev(n["b"], s)
            return s, lift(op, a, b)
        if k == "cond":
            t, f = self.cond(n["c"], s)
            if t is None:
                return self.ev(n["b"], f)
            if f is None:
                return self.ev(n["a"], t)
            r = []
            for arm, z in ((n["a"], t), (n["b"], f)):
                try:
                    r.append(self.ev(arm, z))
                except Dead:
                    pass
            if not r:
                raise Dead()
            return r[0] if len(r) == 1 else self.phi(r[0][0], r[0][1], r[1][0], r[1][1])
        if k == "sexpr":
            z = self.st(n["b"], s)
            if z is None:
                raise Dead()
            return z, V()
        if k == "throw":
            raise Dead()
        if k in ("call", "ctor"):
            return self.call(n, s)
        if k in ("lambda", "sizeof"):
            if k == "lambda" and any(x["k"] == "call" and self.codes(x) is not None for x in front.walk(n)):
                self.unknown.append((self.f, n, "fallible call inside a lambda"))
            return s, V()
        return self.kids(n, s)

    def phi(self, a, va, b, vb):
        ka = ("phi", 0)
        a, b = a.copy() if a else None, b.copy() if b else None
        if a:
            a.B[ka] = va
        if b:
            b.B[ka] = vb
        z = join(a, b)
        z = z.copy()
        return z, z.B.pop(ka, V())

    def kids(self, n, s):
        for c in front.kids(n):
            s, v = self.ev(c, s)
            if n["k"] not in ("init", "idx"):
                continue
            s = self.escape(s, v, n)
        return s, V()

    def escape(self, s, v, n):
        live = [o for o in v.m if pend(s.F.get(o))] if v else []
        if live:
            s = s.copy()
            for o in live:
                self.unknown.append((self.f, n, "a status goes where it is not followed"))
                s.F[o] = frozenset()
        return s

    def assign(self, s, k, v, n):
        if k is None:
            return self.escape(s, v, n)
        s = s.copy()
        if k[0] in ("g", "this"):
            s = self.escape(s, v, n)
        s.B[k] = v
        return s

    def call(self, n, s):
        f = (n.get("f") or "")
        sh = f.split("::")[-1]
        args = n.get("args") or []
        if n.get("obj") is not None:
            s, _ = self.ev(n["obj"], s)
        vs = []
        for a in args:
            s, v = self.ev(a, s)
            vs.append(v)
        if n.get("noret") or sh in ("exit", "abort", "_exit", "quick_exit", "terminate"):
            if sh in ("exit", "_exit", "quick_exit") and vs:
                for o, c in s.F.items():
                    if vs[0].m and o not in vs[0].m or vs[0].d == T and o not in vs[0].m:
                        continue
                    if any(isinstance(vs[0].at(o, x), int) and vs[0].at(o, x) & 255 == 0 for x in pend(c)):
                        self.say("exit0", self.f, n, o, {x for x in pend(c) if isinstance(vs[0].at(o, x), int) and vs[0].at(o, x) & 255 == 0})
            raise Dead()
        tg = self.p.targets(n)
        if tg:
            pk = n.get("pk") or ""
            s, v = self.summary(n, tg, vs, s)
            for i, a in enumerate(args):
                if i < len(pk) and pk[i] == "r" and self.key(a) in s.B:
                    s = s.copy()
                    s.B.pop(self.key(a))
            return s, v
        cs = self.codes(n)
        if cs is not None:
            o = self.site(n, cs)
            s = s.copy()
            lost = pend(s.F.get(o)) - (frozenset((-2,)) if "_test" in sh else frozenset())      # GSL_CONTINUE asks for another iteration
            if lost:
                self.say("lost", self.f, n, o, lost)
            s.F[o] = cs | {OK}
            if sh == "fopen" and self.probe(n):
                s.F[o] = frozenset()
            d = NZ if sh in ("fopen", "fdopen", "popen", "tmpfile", "fgets", "freopen", "fread") else 0
            if sh.endswith("scanf"):
                d = max(cs) + 1
            return s, V(d, {o: {c: c for c in cs}})
        if sh in WRITES and len(args) > WRITES[sh]:
            k = self.key(args[WRITES[sh]])
            if k and k[-1] in CONSOLE:
                return s, V()
            s = s.copy()
            s.W = s.W | {k}
            o = self.site(n, None)
            self.sites[o] = (self.f, n)
            c = 0 if sh == "fwrite" else -1
            s.F[o] = frozenset((c, OK))
            return s, V(T, {o: {c: c, OK: T}})
        if sh == "ferror" and args:
            o = ("stream", self.key(args[0]))
            return s, V(0, {o: {1: 1}})
        if sh in ("fclose", "fflush") and args:
            k = self.key(args[0])
            if k not in s.W:
                return s, V()
            o = self.site(n, None)
            s = s.copy()
            s.F[o] = frozenset((-1, OK))
            if sh == "fclose":
                s.B.pop(k, None)
            return s, V(0, {o: {-1: -1}})
        # anything else outside the sources: printing a status does not settle it, handing it to a container does
        if n["k"] == "ctor" and len(vs) == 1:
            return s, vs[0]
        if sh in ("push_back", "insert", "emplace_back"):
            for v in vs:
                s = self.escape(s, v, n)
        pk = n.get("pk") or ""
        for i, a in enumerate(args):
            if i < len(pk) and pk[i] == "r" and self.key(a) in s.B:
                s = s.copy()
                s.B.pop(self.key(a))
        if sh in ("min", "max", "abs", "operator|=", "operator||") and vs:
            for v in vs:
                s = self.escape(s, v, n)
        return s, V()

    def probe(self, n):
        """is the file only opened to see whether it is there (never read or written)?"""
        var = None
        for x in front.walk(self.f.get("b")):
            if x["k"] == "decl":
                for v in x["v"]:
                    if v.get("init") is not None and any(y is n for y in front.walk(v["init"])):
                        var = ("v", v.get("id"))
            if x["k"] == "asg" and any(y is n for y in front.walk(x["b"])):
                var = self.key(x["a"])
        if var is None:
            return False
        for x in front.walk(self.f.get("b")):
            if x["k"] in ("call", "ctor", "ret", "init") and (x.get("f") or "") != "fclose" and any(self.key(a) == var for a in front.kids(x)):
                return False
        return True

    # ---------------------------------------------------------------- conditions
    def cond(self, n, s):
        """(state if true, state if false), None where it cannot be"""
        while n["k"] == "cast":
            n = n["e"]
        if n["k"] == "un" and n.get("op") == "!":
            t, f = self.cond(n["e"], s)
            return f, t
        if n["k"] == "bin" and n.get("op") in ("&&", "||"):
            t, f = self.cond(n["a"], s)
            if n["op"] == "&&":
                if t is None:
                    return None, f
                t2, f2 = self.cond(n["b"], t)
                return t2, join(f, f2)
            if f is None:
                return t, None
            t2, f2 = self.cond(n["b"], f)
            return join(t, t2), f2
        try:
            s, v = self.ev(n, s)
        except Dead:
            return None, None
        t, f = s.copy(), s.copy()
        for o in v.m:
            if not s.F.get(o):
                continue
            t.F[o] = frozenset(c for c in s.F[o] if truth(v.at(o, c)) is not False)
            f.F[o] = frozenset(c for c in s.F[o] if truth(v.at(o, c)) is not True)
        if not v.m and v.d != T:
            return (t, None) if truth(v.d) else (None, f)
        k = self.key(n)
        if k and k in s.B and not v.m:
            pass
        return t, f

    # ---------------------------------------------------------------- statements
    def discard(self, n, s, v):
        """the value of an expression statement is thrown away"""
        while n["k"] in ("cast", "expr") and n.get("e") is not None:
            n = n["e"]
        if n["k"] == "call" and (n.get("f") or "") in WRITES:
            for o in v.m:
                if pend(s.F.get(o)):
                    s = s.copy()
                    s.F[o] = frozenset((OK,))
                    k = ("stream", self.key(n["args"][WRITES[n["f"]]]))
                    s.F[k] = frozenset((1, OK))
                    self.sites.setdefault(k, (self.f, n))
        return s

    def st(self, n, s):
        if n is None or s is None:
            return s
        k = n["k"]
        try:
            if k == "blk":
                for x in n["b"]:
                    s = self.st(x, s)
                    if s is None:
                        return None
                return s
            if k == "expr":
                s, v = self.ev(n["e"], s)
                return self.discard(n["e"], s, v)
            if k == "decl":
                for v in n["v"]:
                    s, x = self.ev(v.get("init"), s)
                    s = self.assign(s, ("v", v.get("id")), x, n)
                return s
            if k == "if":
                if n.get("init"):
                    s = self.st(n["init"], s)
                if n.get("var"):
                    s = self.st(n["var"], s)
                t, f = self.cond(n["c"], s)
                return join(self.st(n["a"], t), self.st(n["b"], f) if n.get("b") else f)
            if k in ("while", "for", "do", "rfor"):
                return self.loop(n, s)
            if k == "omp":
                return self.st(n.get("b"), s)
            if k == "ret":
                s, v = self.ev(n.get("e"), s)
                self.exits.append((s, v, n))
                return None
            if k in ("break", "continue"):
                for kind, acc in reversed(self.jumps):
                    if kind == "loop" or k == "break":
                        acc.append((k, s))
                        break
                return None
            if k == "switch":
                return self.switch(n, s)
            if k in ("case", "default", "label"):
                return self.st(n.get("b"), s)
            if k == "try":
                return self.st(n["b"], s)
            if k == "throw":
                return None
            s, v = self.ev(n, s)
            return self.discard(n, s, v)
        except Dead:
            return None

    def loop(self, n, s):
        k = n["k"]
        if n.get("init") is not None and k == "for":
            s = self.st(n["init"], s)
        head, out, first = s, None, True
        seen = set()
        for _ in range(60):
            if head is None or head.key() in seen:
                break
            seen.add(head.key())
            if k == "do" and first:
                t, f = head, None
            elif k in ("rfor",) or n.get("c") is None:
                t, f = head.copy(), (head.copy() if k == "rfor" else None)
            else:
                t, f = self.cond(n["c"], head)
            out = join(out, f)
            if t is not None:       # GSL_CONTINUE asked for this iteration
                t = t.copy()
                for o in t.F:
                    if len(o) == 5 and "_test" in (o[3] or ""):
                        t.F[o] = t.F[o] - frozenset((-2,))
            acc = []
            self.jumps.append(("loop", acc))
            e = self.st(n["b"], t) if t is not None else None
            self.jumps.pop()
            for w, z in acc:
                if w == "break":
                    out = join(out, z)
                else:
                    e = join(e, z)
            if e is not None and n.get("inc") is not None:
                e = self.st(n["inc"], e)
            first = False
            head = e if k == "do" and head is s else join(head, e)
        return out

    def switch(self, n, s):
        try:
            s, v = self.ev(n["c"], s)
        except Dead:
            return None
        body = n["b"]["b"] if n["b"]["k"] == "blk" else [n["b"]]
        acc = []
        self.jumps.append(("switch", acc))
        cur, vals, dflt = None, [], False
        for x in body:
            y, entry, isd = x, [], False
            while y is not None and y["k"] in ("case", "default"):
                if y["k"] == "case":
                    e = y["e"]
                    while e["k"] == "cast":
                        e = e["e"]
                    entry.append(e.get("v"))
                else:
                    isd = True
                y = y.get("b")
            if entry or isd:
                z = s.copy()
                for o in v.m:
                    if s.F.get(o):
                        z.F[o] = frozenset(c for c in s.F[o] if v.at(o, c) in (T, NZ) or v.at(o, c) in entry or isd and v.at(o, c) not in self.cases(body))
                cur = join(cur, z)
                dflt |= isd
            if cur is not None and y is not None:
                cur = self.st(y, cur)
        self.jumps.pop()
        out = cur
        for w, z in acc:
            if w == "break":
                out = join(out, z)
            elif self.jumps:
                self.jumps[-1][1].append((w, z))
        if not dflt:
            z = s.copy()
            for o in v.m:
                if s.F.get(o):
                    z.F[o] = frozenset(c for c in s.F[o] if v.at(o, c) in (T, NZ) or v.at(o, c) not in self.cases(body))
            out = join(out, z)
        return out

    def cases(self, body):
        out = set()
        for x in body:
            while x is not None and x["k"] in ("case", "default"):
                if x["k"] == "case":
                    e = x["e"]
                    while e["k"] == "cast":
                        e = e["e"]
                    out.add(e.get("v"))
                x = x.get("b")
        return out
