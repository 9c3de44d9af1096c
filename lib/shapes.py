"""Path-sensitive abstract execution of C++ over integers (polynomials) and the lengths of arrays.
Every element access, slice and whole-array operation becomes an obligation; loops are entered
once from a state in which everything they change is arbitrary."""
import time

import front
import lp
from terms import *

_n = [0]


def isym(name):
    _n[0] += 1
    return mk("isym", name, _n[0])


class A:
    """array: length, range of its numbers, element arrays"""
    __slots__ = ("len", "lo", "hi", "inner")

    def __init__(self, len, lo=None, hi=None, inner=None):
        self.len, self.lo, self.hi, self.inner = len, lo, hi, inner

    def but(self, **k):
        a = A(self.len, self.lo, self.hi, self.inner)
        for x, v in k.items():
            setattr(a, x, v)
        return a


class Sl:
    """slice object"""
    def __init__(self, start, n, stride):
        self.start, self.n, self.stride = start, n, stride


class View:
    """a[slice] or a[mask] of the array at a place"""
    def __init__(self, place, n):
        self.place, self.n = place, n


class S:
    __slots__ = ("env", "lin", "lits")

    def __init__(self, env=None, lin=(), lits=()):
        self.env, self.lin, self.lits = env if env is not None else {}, lin, lits

    def copy(self):
        return S(dict(self.env), self.lin, self.lits)


def isarr(ty):
    t = (ty or "").replace("const ", "").strip()
    return t.startswith(("std::valarray<", "std::vector<", "valarray<", "vector<"))


def inner(ty):
    t = (ty or "").replace("const ", "").strip()
    return t[t.index("<") + 1:t.rindex(">")].strip() if isarr(t) else None


class Exec:
    MAXPATHS = 400

    def __init__(self, prog, contract=None, inline=lambda f: True, join_at=64, keep=None, peel=False):
        self.p = prog
        self.obl = []            # (kind, where, what, goal list, state)
        self.contract = contract
        self.inline = inline
        self.stack = []
        self.lost = []
        self.calls = []
        self.overflow = False
        self.mute = 0
        self.memo = {}
        self.tries = 0
        self.quotients = set()
        self.branch = set()      # facts that say which way a path goes (the others always hold)
        self.peel = peel         # also enter loops that do not count once, as they start
        self.names = {}
        self.keep = keep         # the places whose values are followed (all)
        self.join_at = join_at
        self.counters = set()

    # ------------------------------------------------------------ facts
    def proves(self, s, g, extra=()):
        """g >= 0 ?"""
        v = val(g)
        if v is not None:
            return v >= 0
        lin = list(s.lin) + list(extra)
        key = (frozenset(x.id for x in lin), g.id)
        if key not in self.memo:
            self.memo[key] = self.decide(lin, g)
        return self.memo[key]

    def decide(self, lin, g):
        ms = [monos(x) for x in lin]
        if lp.implied(ms, monos(g)):
            return True
        # products of two facts, for the products in the goal
        if not any(sum(p for _, p in m) > 1 for m, c in monos(g)):
            return False
        at = {a for m, c in monos(g) for a, p in m}
        more = True
        near = [x for x in lin if all(sum(p for _, p in m) <= 1 for m, c in monos(x))]
        rel = [x for x in near if {a for m, c in monos(x) for a, p in m} & at]
        prod = [monos(mul(x, y)) for i, x in enumerate(rel) for y in rel[i:]]
        return lp.implied(ms + prod, monos(g))

    def equal(self, s, a, b):
        d = sub(a, b)
        if val(d) is not None:
            return val(d) == 0
        return self.proves(s, d) and self.proves(s, neg(d))

    def addlin(self, s, g):
        """state in which g >= 0, or None when that cannot be"""
        if val(g) is not None:
            return s if val(g) >= 0 else None
        if g in s.lin:
            return s
        if self.proves(s, sub(neg(g), num(1))):
            return None
        self.branch.add(g.id)
        s = s.copy()
        s.lin = s.lin + (g,)
        return s

    # ------------------------------------------------------------ running
    def run(self, f, args=None, s=None, this=None):
        """[(value, state)] at the ends of f"""
        s = s.copy() if s is not None else S()
        for p in f["params"]:
            k = ("v", p["id"], p["n"])
            if args and p["n"] in args:
                s.env[k] = args[p["n"]]
        self.stack.append((f, this))
        outs = self.block(f["b"], [s])
        self.stack.pop()
        return [(o[2] if o[0] == "ret" else None, o[1]) for o in outs if o[0] in ("ret", "next")]

    def where(self, n):
        return front.loc(self.stack[-1][0], n) if self.stack else "?"

    def block(self, n, states):
        """[(kind, state[, value])]"""
        if n is None:
            return [("next", s) for s in states]
        return [o for s in states for o in self.st(n, s)]

    def seq(self, ns, states):
        cur, out = states, []
        for n in ns:
            nxt = []
            for o in self.block(n, cur):
                if o[0] == "next":
                    nxt.append(o[1])
                else:
                    out.append(o)
            cur = self.join(nxt)
            if len(cur) > self.MAXPATHS:
                self.overflow = True
                cur = cur[:self.MAXPATHS]
            if not cur:
                break
        return out + [("next", s) for s in cur]

    def st(self, n, s):
        k = n["k"]
        if k == "blk":
            outs = self.seq(n["b"], [s])
            dead = [("v", v["id"], v["n"]) for x in n["b"] if x and x["k"] == "decl" for v in x["v"] if "id" in v and not v.get("static")]
            if dead:
                for o in outs:
                    if o[0] != "ret":
                        for d in dead:
                            o[1].env.pop(d, None)
            return self.merge(outs)
        if k == "decl":
            cur = [s]
            for v in n["v"]:
                nxt = []
                for x in cur:
                    nxt += self.decl(v, x)
                cur = nxt
            return [("next", x) for x in cur]
        if k in ("expr", "sexpr"):
            return [("next", x) for v, x in self.ev(n["e"], s)]
        if k == "if":
            out = []
            for t, x in self.cond(n["c"], s):
                out += self.block(n["a"] if t else n.get("b"), [x])
            return out
        if k == "ret":
            if n.get("e") is None:
                return [("ret", s, None)]
            return [("ret", x, v) for v, x in self.ev(n["e"], s)]
        if k in ("for", "while", "do"):
            return self.loop(n, s)
        if k == "break":
            return [("break", s)]
        if k == "continue":
            return [("cont", s)]
        if k in ("null", "nop"):
            return [("next", s)]
        if k == "throw":
            return [("dead", s)]
        if k == "omp":
            b = n.get("b") or n.get("body")
            return self.block(b, [s]) if b else [("next", s)]
        if k == "switch":
            self.lost.append(self.where(n) + " switch")
            return [("next", self.havoc(n, s))]
        if k in ("case", "default"):
            return self.block(n.get("b"), [s])
        if k in ("call", "asg", "un", "cast", "delete", "new", "bin", "throw"):
            return [("next", x) for v, x in self.ev(n, s)]
        self.lost.append(self.where(n) + " " + k)
        return [("next", self.havoc(n, s))]

    def decl(self, v, s):
        if "id" not in v:
            return [s]
        key = ("v", v["id"], v["n"])
        if v.get("init") is None:
            s = s.copy()
            s.env[key] = A(num(0)) if isarr(v["ty"]) else None
            return [s]
        if v.get("ref") or v.get("ptr"):
            pl = self.place(v["init"], s) if v.get("ref") else None
            if pl is not None:
                s = s.copy()
                s.env[key] = ("ref", pl)
                return [s]
        out = []
        for x, t in self.ev(v["init"], s):
            t = t.copy()
            if isarr(v["ty"]) and not isinstance(x, A):
                x = A(isym("len")) if not isinstance(x, View) else self.load(x, t)
            t.env[key] = x if self.keep is None or key in self.keep else None
            out.append(t)
        return out

    # ------------------------------------------------------------ loops
    def changed(self, n):
        """places a piece of code may change: {node key: how}"""
        out = {}
        for x in front.walk(n):
            k = x.get("k")
            if k == "asg":
                out.setdefault(self.skey(x["a"]), []).append(x)
            elif k == "un" and x["op"] in ("++", "--", "p++", "p--"):
                out.setdefault(self.skey(x["e"]), []).append(x)
            elif k == "call":
                if x.get("obj") is not None:
                    base = (x.get("f") or "").split("::")[-1]
                    if base in ("operator=", "resize", "push_back", "clear", "operator+=", "operator-=", "operator*=", "operator/=", "swap", "emplace_back", "assign") or not (x.get("cm") or base in ("size", "sum", "min", "max", "operator[]", "begin", "end", "data")):
                        out.setdefault(self.skey(x["obj"]), []).append(x)
                for i, a in enumerate(x.get("args") or []):
                    pk = x.get("pk") or ""
                    if pk[i:i + 1] in ("r", "p") or a.get("k") == "un" and a.get("op") == "&":
                        out.setdefault(self.skey(a), []).append(x)
        out.pop(None, None)
        return out

    def skey(self, e):
        """static key of the variable or field an lvalue belongs to"""
        while True:
            k = e["k"]
            if k == "ref":
                return ("v", e["id"], e["n"]) if e["c"] in ("local", "param") else ("g", e.get("n"))
            if k == "mem":
                if e["e"]["k"] == "this":
                    return ("f", "this", e["n"])
                b = self.skey(e["e"])
                return ("f", b, e["n"])
            if k == "idx":
                e = e["a"]
            elif k == "call" and e.get("obj") is not None and e.get("op") == "[]":
                e = e["obj"]
            elif k == "cast":
                e = e["e"]
            elif k == "un" and e["op"] in ("&", "*"):
                e = e["e"]
            elif k == "expr":
                e = e["e"]
            else:
                return None

    def whole(self, x, key):
        """does the change replace the array, or only its elements?"""
        k = x["k"]
        if k == "asg":
            return self.direct(x["a"])
        if k == "call":
            base = (x.get("f") or "").split("::")[-1]
            if base in ("operator+=", "operator-=", "operator*=", "operator/="):
                return False
            if x.get("obj") is not None and self.skey(x["obj"]) == key:
                return self.direct(x["obj"])
            return True
        return False

    @staticmethod
    def direct(e):
        while e["k"] in ("cast", "expr"):
            e = e["e"]
        return e["k"] in ("ref", "mem")

    def havoc(self, n, s):
        s = s.copy()
        for key, how in self.changed(n).items():
            key = self.deref(key, s)
            old = s.env.get(key)
            if self.keep is not None and key not in self.keep and not (isinstance(old, tuple) and old and old[0] == "ref"):
                s.env[key] = None
                continue
            if isinstance(old, A):
                if any(self.whole(x, key) for x in how):
                    l = isym("len")
                    s.env[key] = A(l, inner=old.inner if not isarr(None) else None)
                    s.lin = s.lin + (l,)
                else:
                    s.env[key] = old.but(lo=None, hi=None)
            elif isinstance(old, tuple) and old and old[0] == "ref":
                pass
            elif key in s.env and (old is None or isinstance(old, T) and old.op == "dbl"):
                s.env[key] = None
            else:
                v = isym(key[2] if len(key) > 2 else str(key))
                if isinstance(old, T) and old.op not in ("bsym", "btrue"):
                    up = down = True
                    for x in how:
                        if x["k"] == "un":
                            if "+" in x["op"]:
                                down = False
                            else:
                                up = False
                        elif x["k"] == "asg" and x["op"] in ("+=", "-=") and x["b"]["k"] == "int":
                            if (x["op"] == "+=") == (x["b"]["v"] >= 0):
                                down = False
                            else:
                                up = False
                        else:
                            up = down = False
                    if up:
                        s.lin = s.lin + (sub(v, old),)
                    if down:
                        s.lin = s.lin + (sub(old, v),)
                s.env[key] = v if not isinstance(old, T) or old.op != "bsym" else mk("bsym", "havoc", _n[0])
        # fields of objects whose methods are called
        return s

    def counter(self, n):
        """(variable node, start node, bound node, step, strict) of for (v = a; v < b; v += s)"""
        if n["k"] != "for" or not n.get("c") or not n.get("inc"):
            return None
        c = n["c"]
        while c["k"] in ("cast", "expr"):
            c = c["e"]
        if c["k"] != "bin" or c["op"] not in ("<", "<=", "!="):
            return None
        x = c["a"]
        while x["k"] == "cast":
            x = x["e"]
        if x["k"] != "ref":
            return None
        inc = n["inc"]
        while inc["k"] == "expr":
            inc = inc["e"]
        step = None
        if inc["k"] == "un" and inc["op"] in ("++", "p++") and inc["e"]["k"] == "ref" and inc["e"]["id"] == x["id"]:
            step = {"k": "int", "v": 1}
        elif inc["k"] == "asg" and inc["op"] == "+=" and inc["a"]["k"] == "ref" and inc["a"]["id"] == x["id"]:
            step = inc["b"]
        if step is None:
            return None
        for y in front.walk(n["b"]):
            if y.get("k") in ("asg", "un") and self.skey(y.get("a") or y.get("e")) == ("v", x["id"], x["n"]) and not (y["k"] == "un" and y["op"] not in ("++", "--", "p++", "p--")):
                return None
        return x, c["b"], step, c["op"]

    def downward(self, n):
        """the variable of for (v = a; v > b or v >= b; v--), which runs through every number on its way"""
        c, inc = n.get("c"), n.get("inc")
        if n["k"] != "for" or not c or not inc:
            return None
        while c["k"] in ("cast", "expr"):
            c = c["e"]
        while inc["k"] == "expr":
            inc = inc["e"]
        x = c.get("a") if c["k"] == "bin" and c["op"] in (">", ">=") else None
        while x is not None and x["k"] == "cast":
            x = x["e"]
        if x is None or x["k"] != "ref" or inc["k"] != "un" or "--" not in inc["op"] or inc["e"].get("id") != x["id"]:
            return None
        key = ("v", x["id"], x["n"])
        if any(y.get("k") in ("asg", "un") and self.skey(y.get("a") or y.get("e")) == key for y in front.walk(n["b"])):
            return None
        bound = {self.skey(y) for y in front.walk(c["b"]) if y.get("k") in ("ref", "mem")}
        if bound & set(self.changed(n["b"])) or self.leaves(n["b"]):
            return None
        return key

    def paced(self, n, s0, h, a, v):
        """what is only counted up, at most k per pass, has grown by no more than k per pass"""
        nested = {id(y) for x in front.walk(n["b"]) if x.get("k") in ("for", "while", "do") for y in front.walk(x)}
        for key, how in self.changed(n["b"]).items():
            k = 0
            for x in how:
                if id(x) in nested:
                    break
                if x["k"] == "un" and "+" in x["op"]:
                    k += 1
                elif x["k"] == "asg" and x["op"] == "+=" and x["b"]["k"] == "int" and x["b"]["v"] >= 0:
                    k += x["b"]["v"]
                else:
                    break
            else:
                key = self.deref(key, s0)
                old, new = self.num_(s0.env.get(key)), self.num_(h.env.get(key))
                if old is not None and new is not None and new is not v and new.op == "isym":
                    h = self.up(h, sub(add(old, mul(num(k), sub(v, a))), new))
        return h

    def loop(self, n, s):
        outs = []
        pre = [s]
        if n["k"] == "for" and n.get("init"):
            pre = [o[1] for o in self.block(n["init"], [s]) if o[0] == "next"]
        body = {"k": "blk", "b": [x for x in (n.get("b"), {"k": "expr", "e": n["inc"]["e"] if n["inc"]["k"] == "expr" else n["inc"]} if n.get("inc") else None) if x]}
        for s0 in pre:
            cnt = self.counter(n)
            h = self.havoc(body, s0)
            if n.get("c"):
                h = self.havoc({"k": "expr", "e": n["c"]}, h)
            grown = self.grown(n, s0, cnt)
            down = self.downward(n)
            if down is not None and isinstance(h.env.get(down), T):
                self.counters.add(h.env[down].id)
            ext = None
            if cnt is not None:
                key = ("v", cnt[0]["id"], cnt[0]["n"])
                a, v = s0.env.get(key), h.env.get(key)
                bs = self.ev(cnt[1], h)
                st = self.ev(cnt[2], h)
                if isinstance(a, T) and isinstance(v, T) and len(bs) == 1 and self.num_(bs[0][0]) is not None and self.num_(a) is not None and self.integral(a) and self.integral(bs[0][0]) and len(st) == 1 and st[0][0] is num(1):
                    ext = (a, v, bs[0][0])
                    h = self.up(h, sub(v, a))
                    h = self.paced(n, s0, h, a, v)
                    if not self.leaves(n["b"]):
                        self.counters.add(v.id)
            if n["k"] == "do":
                for o in self.block(n["b"], [h]):
                    if o[0] in ("next", "cont"):
                        outs += [("next", x) for t, x in self.cond(n["c"], o[1]) if not t]
                    elif o[0] == "break":
                        outs.append(("next", o[1]))
                    else:
                        outs.append(o)
                continue
            if self.peel and n.get("c") and (ext is None or ext[1].id not in self.counters):
                for t, x in self.cond(n["c"], s0):
                    if t:
                        self.block(n.get("b"), [x])
            conds = self.cond(n["c"], h) if n.get("c") else [(True, h)]
            for t, x in conds:
                if not t:
                    if ext is not None and cnt[3] == "<":
                        a, v, b = ext
                        # leaves with v = b, or at once when a >= b
                        y = self.addlin(x, sub(b, a))
                        z = self.addlin(x, sub(a, add(b, num(1))))
                        if y is not None:
                            y = self.put(y, ("v", cnt[0]["id"], cnt[0]["n"]), b)
                            y = self.subst(y, v, b)
                            for g, l0 in grown.items():
                                y = self.put(y, g, A(add(l0, sub(b, a))))
                            outs.append(("next", y))
                        if z is not None:
                            z = self.put(z, ("v", cnt[0]["id"], cnt[0]["n"]), a)
                            for g, l0 in grown.items():
                                z = self.put(z, g, A(l0))
                            outs.append(("next", z))
                        continue
                    outs.append(("next", x))
                else:
                    for o in self.block(n.get("b"), [x]):
                        if o[0] == "break":
                            outs.append(("next", o[1]))
                        elif o[0] in ("ret", "dead"):
                            outs.append(o)
                        elif n.get("inc"):
                            self.mute += 0
        if n["k"] == "for" and n.get("init") and n["init"]["k"] == "decl":
            for v in n["init"]["v"]:
                for o in outs:
                    if "id" in v and o[0] != "ret":
                        o[1].env.pop(("v", v["id"], v["n"]), None)
        return self.merge(outs)

    def merge(self, outs):
        """states that agree on every value are joined: what only one of them knows is forgotten"""
        r = [o for o in outs if o[0] == "ret" or o[0] == "dead"]
        for kind in ("next", "break", "cont"):
            r += [(kind, s) for s in self.join([o[1] for o in outs if o[0] == kind])]
        return r

    def join(self, states):
        if len(states) < 2:
            return states
        seen = {}
        for s in states:
            k = frozenset((a, self.vkey(v)) for a, v in s.env.items() if not self.initial(a, v))
            if len(states) <= self.join_at:
                k = (k, s.lin, s.lits)
            o = seen.get(k)
            if o is None:
                seen[k] = s
            elif o.lin != s.lin or o.lits != s.lits:
                b, l = set(s.lin), set(s.lits)
                oa = set(o.lin)
                seen[k] = S(o.env, tuple(x for x in o.lin if x in b or self.proves(s, x)) + tuple(x for x in s.lin if x not in oa and self.proves(o, x)),
                            tuple(x for x in o.lits if x in l))
        return list(seen.values())

    def initial(self, key, v):
        """is this what a first read of the place gives?"""
        if isinstance(v, T):
            return v.op in ("isym", "bsym") and v.a == (self.pname(key), 0)
        if isinstance(v, A) and v.lo is None and v.hi is None:
            return v.len.op == "alen" and v.len.a == (self.pname(key),) and (v.inner is None or v.inner.len.op == "alen" and v.inner.len.a == (self.pname(key) + "[]",))
        return False

    @staticmethod
    def vkey(v):
        if isinstance(v, T):
            return v.id
        if isinstance(v, A):
            return ("A", v.len.id, v.lo, v.hi, Exec.vkey(v.inner))
        return repr(v)

    def leaves(self, n, inner=False):
        """may the body of a loop end the loop?"""
        k = n.get("k")
        if k in ("ret", "throw") or k == "break" and not inner:
            return True
        inner = inner or k in ("for", "while", "do", "switch")
        return any(self.leaves(x, inner) for x in front.kids(n))

    def up(self, s, g):
        if val(g) is not None or g in s.lin:
            return s
        s = s.copy()
        s.lin = s.lin + (g,)
        return s

    def put(self, s, key, v):
        s = s.copy()
        s.env[key] = v
        return s

    def subst(self, s, v, b):
        if v.op != "isym":
            return s
        m = {v.id: b}

        def sv(x):
            if isinstance(x, T):
                return subst(x, m, {})
            if isinstance(x, A):
                return A(subst(x.len, m, {}), x.lo, x.hi, sv(x.inner))
            return x
        return S({k: sv(x) for k, x in s.env.items()}, tuple(y for y in (subst(x, m, {}) for x in s.lin) if val(y) is None), s.lits)

    def grown(self, n, s0, cnt):
        """vectors to which every pass appends exactly one element"""
        if cnt is None:
            return {}
        out = {}
        pbs = [x for x in front.walk(n["b"]) if x.get("k") == "call" and (x.get("f") or "").split("::")[-1] in ("push_back", "emplace_back")]
        if any(x.get("k") in ("if", "break", "continue", "ret", "for", "while", "switch", "cond") for x in front.walk(n["b"])):
            return {}
        for x in pbs:
            key = self.deref(self.skey(x["obj"]), s0)
            v = s0.env.get(key)
            if isinstance(v, A) and sum(self.deref(self.skey(y["obj"]), s0) == key for y in pbs) == 1:
                out[key] = v.len
        return out

    # ------------------------------------------------------------ places
    def deref(self, key, s):
        if key is None:
            return None
        for _ in range(4):
            v = s.env.get(key)
            if isinstance(v, tuple) and v and v[0] == "ref":
                key = v[1]
            else:
                break
        if key[0] == "f" and key[1] == "this" and self.stack and self.stack[-1][1] is not None:
            return ("f", self.stack[-1][1], key[2])
        if key[0] == "f" and isinstance(key[1], tuple):
            b = self.deref(key[1], s)
            if b != key[1]:
                return ("f", b, key[2])
        return key

    def place(self, e, s):
        """place of a variable or field (not of an element)"""
        while e["k"] in ("cast", "expr"):
            e = e["e"]
        if e["k"] == "un" and e["op"] == "*":
            return self.place(e["e"], s)
        if e["k"] not in ("ref", "mem"):
            return None
        k = self.skey(e)
        return self.deref(k, s) if k is not None else None

    def read(self, e, s):
        """value of a variable or field, created on first use"""
        key = self.place(e, s)
        ty = e.get("ty") or ""
        if self.keep is not None and key not in self.keep and not isinstance(s.env.get(key), tuple):
            return self.dbl() if e.get("t") == "d" else isym(self.pname(key)) if e.get("t") in ("i", "u") else mk("bsym", self.pname(key), isym("b").id) if e.get("t") == "b" else None
        if key in s.env and s.env[key] is None:
            s.env[key] = self.dbl() if e.get("t") == "d" else isym(self.pname(key)) if e.get("t") in ("i", "u") else mk("bsym", self.pname(key), isym("b").id) if e.get("t") == "b" else None
            if s.env[key] is None and isarr(ty.replace("&", "").strip()):
                l = isym("len")
                s.env[key] = A(l)
                s.lin = s.lin + (l,)
            return s.env[key]
        if key not in s.env:
            nm = self.pname(key)
            if isarr(ty.replace("&", "").strip()):
                l = mk("alen", nm)
                it = inner(ty.replace("&", "").strip())
                s.env[key] = A(l, inner=A(mk("alen", nm + "[]")) if isarr(it) else None)
                s.lin = s.lin + (l,)
                if isarr(it):
                    s.lin = s.lin + (s.env[key].inner.len,)
            elif e.get("t") == "b":
                s.env[key] = mk("bsym", nm, 0)
            else:
                s.env[key] = mk("isym", nm, 0)
        return s.env[key]

    @staticmethod
    def pname(key):
        if key[0] == "f":
            return (key[1] if isinstance(key[1], str) else Exec.pname(key[1])) + "." + str(key[2])
        return str(key[2] if key[0] == "v" else key[1])

    # ------------------------------------------------------------ conditions
    def cond(self, e, s):
        """[(truth, state)]"""
        k = e["k"]
        if k in ("cast", "expr"):
            return self.cond(e["e"], s)
        if k == "un" and e["op"] == "!":
            return [(not t, x) for t, x in self.cond(e["e"], s)]
        if k == "bin" and e["op"] in ("&&", "||"):
            out = []
            for t, x in self.cond(e["a"], s):
                if t == (e["op"] == "&&"):
                    out += self.cond(e["b"], x)
                else:
                    out.append((t, x))
            return out
        if k == "bool":
            return [(bool(e["v"]), s)]
        if k == "bin" and e["op"] in ("<", "<=", ">", ">=", "==", "!="):
            out = []
            for (a, b), x in self.evs([e["a"], e["b"]], s):
                if not isinstance(a, T) or not isinstance(b, T) or a.op == "bsym" or b.op == "bsym" or a.op == "dbl" or b.op == "dbl":
                    out += self.literal(mk("cmp", e["op"], a.id if isinstance(a, T) else isym("?").id, b.id if isinstance(b, T) else isym("?").id), x)
                    continue
                d = sub(a, b)
                ints = e["a"].get("t") != "d" and e["b"].get("t") != "d" or self.integral(a) and self.integral(b)
                one = num(1) if ints else num(0)
                op = e["op"]
                if op in ("==", "!="):
                    y = self.addlin(x, d)
                    y = self.addlin(y, neg(d)) if y is not None else None
                    if y is not None:
                        out.append((op == "==", y))
                    if val(d) != 0:
                        for g in (sub(d, one), sub(neg(d), one)):
                            y = self.addlin(x, g)
                            if y is not None:
                                out.append((op == "!=", y))
                    continue
                if op in ("<", "<="):
                    d = neg(d)
                strict = op in ("<", ">")
                for t in (True, False):
                    g = d if t else neg(d)
                    if strict == t:
                        g = sub(g, one)
                    y = self.addlin(x, g)
                    if y is not None:
                        out.append((t, y))
            return out
        out = []
        for v, x in self.ev(e, s):
            if isinstance(v, T) and v.op == "btrue":
                out.append((bool(v.a[0]), x))
            elif isinstance(v, T) and val(v) is not None:
                out.append((val(v) != 0, x))
            elif isinstance(v, T):
                out += self.literal(v, x)
            else:
                out += self.literal(isym("cond"), x)
        return out

    def literal(self, v, s):
        out = []
        self.names[v.id] = v
        for t in (True, False):
            if (v.id, not t) in s.lits:
                continue
            if (v.id, t) in s.lits:
                out.append((t, s))
                continue
            y = s.copy()
            y.lits = y.lits + ((v.id, t),)
            out.append((t, y))
        return out

    @staticmethod
    def integral(t):
        return all(c.denominator == 1 for m, c in monos(t)) and all(a.op in ("isym", "alen") for m, c in monos(t) for a, p in m)

    # ------------------------------------------------------------ expressions
    def evs(self, es, s):
        out = [((), s)]
        for e in es:
            out = [(vs + (v,), y) for vs, x in out for v, y in self.ev(e, x)]
        return out

    def need(self, kind, n, what, goals, s):
        if not self.mute:
            self.obl.append((kind, self.where(n), what, goals, s, [f["q"] for f, t in self.stack], self.text(n)))

    def text(self, n):
        return n.get("l")

    def load(self, v, s):
        if isinstance(v, View):
            a = s.env.get(v.place)
            return A(v.n, a.lo, a.hi) if isinstance(a, A) else A(v.n)
        return v

    def ev(self, e, s):
        """[(value, state)]"""
        k = e["k"]
        if k == "int":
            return [(num(e["v"]), s)]
        if k == "flt":
            return [(num(Fr(e["v"])), s)]
        if k == "bool":
            return [(mk("btrue", bool(e["v"])), s)]
        if k in ("defarg", "expr"):
            return self.ev(e["e"], s) if e.get("e") else [(None, s)]
        if k == "cast":
            out = []
            for v, x in self.ev(e["e"], s):
                if isinstance(v, T) and e.get("t") in ("i", "u") and e["e"].get("t") == "d" and v.op != "bsym":
                    if not self.integral(v):
                        w = isym("int")
                        x = x.copy()
                        if v.op == "dbl":
                            lo, hi = v.a[1], v.a[2]
                            if lo is not None:
                                x.lin = x.lin + (sub(w, lo),)
                            if hi is not None:
                                x.lin = x.lin + (sub(hi, w),)
                        v = w
                out.append((v, x))
            return out
        if k == "this":
            return [(("self",), s)]
        if k in ("ref", "mem"):
            if k == "ref" and e["c"] == "enum":
                return [(num(e["v"]), s)]
            if k == "ref" and e["c"] == "func":
                return [(None, s)]
            s = s.copy()
            if self.place(e, s) is None:
                return [(isym("?"), s)]
            return [(self.read(e, s), s)]
        if k == "cond":
            out = []
            for t, x in self.cond(e["c"], s):
                out += self.ev(e["a"] if t else e["b"], x)
            return out
        if k == "un":
            return self.unary(e, s)
        if k == "bin":
            return self.binary(e, s)
        if k == "asg":
            return self.assign(e, s)
        if k == "ctor":
            return self.ctor(e, s)
        if k == "idx":
            return self.index(e["a"], [e["b"]], e, s)
        if k == "call":
            return self.call(e, s)
        if k == "init":
            args = e.get("args") or []
            if isarr(e.get("ty")):
                return [(A(num(len(args))), x) for v, x in self.evs(args, s)]
            return [(None, x) for v, x in self.evs(args, s)]
        if k == "throw":
            return []
        if k == "new":
            return [(None, s)]
        if k in ("zero", "null", "str", "lambda", "delete", "new", "var"):
            return [(num(0) if k == "zero" and e.get("t") in ("i", "u", "d") else None, s)]
        return [(None, s)]

    def dbl(self, lo=None, hi=None):
        return mk("dbl", isym("d"), lo, hi)

    def num_(self, v):
        """as a term, opaque when it is not a number of the domain"""
        return v if isinstance(v, T) and v.op not in ("bsym", "btrue", "dbl") else None

    def unary(self, e, s):
        op = e["op"]
        if op in ("++", "--", "p++", "p--"):
            out = []
            for v, x in self.ev(e["e"], s):
                w = self.num_(v)
                w = (add if "+" in op else sub)(w, num(1)) if w is not None else isym("n")
                y = self.store(e["e"], w, x)
                out.append((v if op.startswith("p") else w, y))
            return out
        if op in ("-", "+"):
            return [(neg(self.num_(v)) if self.num_(v) is not None and op == "-" else v if op == "+" or isinstance(v, A) else self.dbl(), x) for v, x in self.ev(e["e"], s)]
        if op == "!":
            return [(mk("btrue", t), x) for t, x in self.cond(e, s)]
        if op == "*":
            return self.ev(e["e"], s)
        return [(None, x) for v, x in self.ev(e["e"], s)]

    def binary(self, e, s):
        op = e["op"]
        if op in ("&&", "||", "<", "<=", ">", ">=", "==", "!="):
            return [(mk("btrue", t), x) for t, x in self.cond(e, s)]
        if op == ",":
            return [(vs[1], x) for vs, x in self.evs([e["a"], e["b"]], s)]
        out = []
        for (a, b), x in self.evs([e["a"], e["b"]], s):
            out += self.arith(op, a, b, x, e)
        return out

    def arith(self, op, a, b, x, e):
        a, b = self.load(a, x), self.load(b, x)
        if isinstance(a, A) or isinstance(b, A):
            if isinstance(a, A) and isinstance(b, A):
                self.need("same", e, "operands of %s" % op, [sub(a.len, b.len), sub(b.len, a.len)], x)
            return [(A((a if isinstance(a, A) else b).len), x)]
        a0, b0 = a, b
        a, b = self.num_(a), self.num_(b)
        if op == "/" and e.get("t") == "d" and not (a is not None and val(b) if b is not None else None):
            z = num(0)
            la = a is not None and self.proves(x, a) or isinstance(a0, T) and a0.op == "dbl" and a0.a[1] is z
            lb = b is not None and self.proves(x, sub(b, num(1))) or isinstance(b0, T) and b0.op == "dbl" and b0.a[1] is z
            return [(self.dbl(z if la and lb else None), x)]
        if a is None or b is None:
            return [(self.dbl() if e.get("t") == "d" else isym("n"), x)]
        if op == "+":
            return [(add(a, b), x)]
        if op == "-":
            return [(sub(a, b), x)]
        if op == "*":
            return [(mul(a, b), x)]
        if op == "/" and e.get("t") in ("i", "u"):
            q = exact(a, b)
            if q is not None:
                return [(q, x)]
            w = mk("isym", "idiv", a.id, b.id)
            if self.proves(x, sub(b, num(1))) and self.proves(x, a):
                x = x.copy()
                x.lin = x.lin + (sub(w, num(1)) if self.proves(x, sub(a, b)) else w, sub(a, mul(w, b)), sub(mul(w, b), add(sub(a, b), num(1))))
                self.quotients.add(w.id)
            return [(w, x)]
        if op == "%" and e.get("t") in ("i", "u"):
            w = mk("isym", "mod", a.id, b.id)
            if self.proves(x, sub(b, num(1))) and self.proves(x, a):
                x = x.copy()
                x.lin = x.lin + (w, sub(sub(b, num(1)), w))
            return [(w, x)]
        if op == "/" and val(b) not in (None, 0):
            return [(mul(a, num(1 / val(b))), x)]
        return [(self.dbl() if e.get("t") == "d" else isym("n"), x)]

    def assign(self, e, s):
        out = []
        op = e["op"]
        for v, x in self.ev(e["b"], s):
            if op != "=":
                for w, y in self.ev(e["a"], x):
                    for r, z in self.arith(op[:-1], w, v, y, dict(e, t=e["a"].get("t"))):
                        out.append((r, self.store(e["a"], r, z)))
            else:
                # evaluate the subscripts on the left
                for y in self.lhs(e["a"], x):
                    out.append((v, self.store(e["a"], v, y)))
        return out

    def lhs(self, e, s):
        """obligations of the subscripts of an assigned element"""
        while e["k"] in ("cast", "expr"):
            e = e["e"]
        if e["k"] in ("idx", "call", "mem") and not (e["k"] == "mem" and e["e"]["k"] == "this"):
            if e["k"] == "mem":
                return self.lhs(e["e"], s)
            return [x for v, x in self.ev(e, s)]
        return [s]

    def store(self, e, v, s):
        while e["k"] in ("cast", "expr"):
            e = e["e"]
        key = self.place(e, s)
        s = s.copy()
        if key is not None:
            if self.keep is not None and key not in self.keep:
                s.env[key] = None
                return s
            if isinstance(v, View):
                v = self.load(v, s)
            old = s.env.get(key)
            if isinstance(old, A) and isinstance(v, T):
                s.env[key] = old.but(lo=v if val(v) is not None else None, hi=v if val(v) is not None else None)
            else:
                s.env[key] = v
            return s
        k = self.skey(e)
        if k is not None:
            k = self.deref(k, s)
            old = s.env.get(k)
            if isinstance(old, A):
                c = val(v) if isinstance(v, T) else None
                s.env[k] = old.but(lo=old.lo if c is not None and old.lo is not None and c >= val(old.lo) else None,
                                   hi=old.hi if c is not None and old.hi is not None and c <= val(old.hi) else None)
        return s

    def ctor(self, e, s):
        ty = e.get("ty") or ""
        args = e.get("args") or []
        if "slice" in ty and "array" not in ty:
            out = []
            for vs, x in self.evs(args, s):
                if len(vs) == 1 and isinstance(vs[0], Sl):
                    out.append((vs[0], x))
                elif len(vs) == 3 and all(self.num_(v) is not None for v in vs):
                    out.append((Sl(*vs), x))
                else:
                    out.append((Sl(isym("start"), isym("n"), isym("stride")), x))
            return out
        if isarr(ty):
            out = []
            pk = e.get("pk") or ""
            for vs, x in self.evs(args, s):
                vs = tuple(self.load(v, x) for v in vs)
                if not vs:
                    r = A(num(0))
                elif isinstance(vs[0], A) and len(vs) == 1:
                    r = vs[0]
                elif len(vs) == 1 and self.num_(vs[0]) is not None and args[0].get("t") in ("i", "u"):
                    r = A(vs[0])
                elif len(vs) >= 2 and "valarray" in ty and self.num_(vs[1]) is not None:
                    # (value, n) or (pointer, n)
                    c = vs[0] if isinstance(vs[0], T) and val(vs[0]) is not None else None
                    r = A(vs[1], c, c, vs[0] if isinstance(vs[0], A) else None)
                elif len(vs) >= 2 and "vector" in ty and self.num_(vs[0]) is not None:
                    c = vs[1] if isinstance(vs[1], T) and val(vs[1]) is not None else None
                    r = A(vs[0], c, c, vs[1] if isinstance(vs[1], A) else None)
                else:
                    l = isym("len")
                    x = x.copy()
                    x.lin = x.lin + (l,)
                    r = A(l)
                out.append((r, x))
            return out
        return [(vs[0] if len(vs) == 1 and not isinstance(vs[0], T) else None, x) for vs, x in self.evs(args, s)]

    def index(self, obj, args, e, s):
        """obj[args]: a number, an element array or a view"""
        out = []
        for ix, x in self.evs(args, s):
            for a, y in self.ev(obj, x):
                i = ix[0]
                a = self.load(a, y)
                nm = self.pname(self.deref(self.skey(obj), y)) if self.skey(obj) is not None else "?"
                if isinstance(i, A):
                    # a mask
                    if isinstance(a, A):
                        self.need("mask", e, nm, [sub(a.len, i.len), sub(i.len, a.len)], y)
                        n = isym("count")
                        y = y.copy()
                        y.lin = y.lin + (n, sub(a.len, n))
                        out.append((View(self.place(obj, y), n), y))
                    else:
                        out.append((None, y))
                    continue
                if isinstance(i, Sl):
                    if isinstance(a, A):
                        last = add(i.start, mul(sub(i.n, num(1)), i.stride))
                        self.need("slice", e, nm, [i.start, sub(sub(a.len, num(1)), last)], self.some(y, i.n))
                        out.append((View(self.place(obj, y), i.n), y))
                    else:
                        out.append((None, y))
                    continue
                if isinstance(a, A):
                    t = self.num_(i)
                    self.need("index", e, nm, [t, sub(sub(a.len, num(1)), t)] if t is not None else None, y)
                    if a.inner is not None:
                        out.append((a.inner, y))
                        continue
                    et = e.get("t")
                    out.append((self.dbl(a.lo, a.hi) if et == "d" else mk("bsym", "elem", isym("e").id) if et == "b" else isym("elem") if et in ("i", "u") else None, y))
                else:
                    out.append((self.dbl() if e.get("t") == "d" else isym("elem") if e.get("t") in ("i", "u") else None, y))
        return out

    def some(self, s, n):
        """s, with n >= 1"""
        y = self.addlin(s, sub(n, num(1)))
        return y if y is not None else s

    def call(self, e, s):
        f = e.get("f") or ""
        base = f.split("::")[-1]
        args = e.get("args") or []
        obj = e.get("obj")
        if e.get("op") == "[]" and obj is not None:
            return self.index(obj, args, e, s)
        if f in ("std::max", "std::min"):
            out = []
            for (a, b), x in self.evs(args[:2], s):
                ta, tb = self.num_(a), self.num_(b)
                if ta is None or tb is None:
                    out.append((self.dbl() if e.get("t") == "d" else isym(base), x))
                    continue
                d = sub(ta, tb)
                for g, w in ((d, ta if base == "max" else tb), (sub(neg(d), num(1) if e.get("t") in ("i", "u") else num(0)), tb if base == "max" else ta)):
                    y = self.addlin(x, g)
                    if y is not None:
                        out.append((w, y))
            return out
        if base == "operator=" and obj is not None:
            out = []
            for (v,), x in self.evs(args[:1], s):
                v = self.load(v, x)
                for o, y in self.ev(obj, x):
                    if isinstance(o, View):
                        if isinstance(v, A):
                            self.need("assign", e, self.pname(o.place) if o.place else "?", [sub(v.len, o.n), sub(o.n, v.len)], y)
                        a = y.env.get(o.place)
                        if isinstance(a, A):
                            y = y.copy()
                            y.env[o.place] = self.masked(a, v, obj, y)
                        out.append((v, y))
                    else:
                        out.append((v, self.store(obj, v, y)))
            return out
        if base in ("operator+", "operator-", "operator*", "operator/", "operator%", "operator<", "operator>", "operator<=", "operator>=", "operator==", "operator!=", "operator&&", "operator||") and not self.p.targets(e):
            es = ([obj] if obj is not None else []) + args
            out = []
            for vs, x in self.evs(es, s):
                vs = [self.load(v, x) for v in vs]
                ar = [v for v in vs if isinstance(v, A)]
                if len(ar) == 2:
                    self.need("same", e, "operands of " + base, [sub(ar[0].len, ar[1].len), sub(ar[1].len, ar[0].len)], x)
                out.append((A(ar[0].len) if ar else None, x))
            return out
        if base in ("operator+=", "operator-=", "operator*=", "operator/=") and obj is not None and not self.p.targets(e):
            out = []
            for (v,), x in self.evs(args[:1], s):
                v = self.load(v, x)
                for o, y in self.ev(obj, x):
                    n = o.len if isinstance(o, A) else o.n if isinstance(o, View) else None
                    if isinstance(v, A) and n is not None:
                        self.need("same", e, "operands of " + base, [sub(n, v.len), sub(v.len, n)], y)
                    k = self.deref(self.skey(obj), y)
                    if isinstance(y.env.get(k), A):
                        y = y.copy()
                        y.env[k] = y.env[k].but(lo=None, hi=None)
                    out.append((v, y))
            return out
        if obj is not None and not self.p.targets(e):
            out = []
            for o, x in self.ev(obj, s):
                o = self.load(o, x)
                for vs, y in self.evs(args, x):
                    if isinstance(o, A):
                        if base == "size":
                            out.append((o.len, y))
                            continue
                        if base == "resize" and vs and self.num_(vs[0]) is not None:
                            out.append((None, self.store(obj, A(vs[0], num(0), num(0)), y)))
                            continue
                        if base in ("push_back", "emplace_back"):
                            out.append((None, self.store(obj, A(add(o.len, num(1)), inner=o.inner), y)))
                            continue
                        if base == "sum":
                            lo = mul(o.len, o.lo) if o.lo is not None else None
                            hi = mul(o.len, o.hi) if o.hi is not None else None
                            out.append((self.dbl(lo, hi), y))
                            continue
                        if base in ("min", "max"):
                            out.append((self.dbl(o.lo, o.hi), y))
                            continue
                        if base in ("clear",):
                            out.append((None, self.store(obj, A(num(0)), y)))
                            continue
                    out.append((self.dbl() if e.get("t") == "d" else isym(base) if e.get("t") in ("i", "u") else None, y))
            return out
        if self.contract is not None:
            r = self.contract(self, e, s)
            if r is not None:
                return r
        if base in ("ceil", "floor", "fabs", "abs", "sqrt", "exp", "round") and len(args) == 1 and e.get("t") == "d":
            z = num(0)
            keep = base in ("fabs", "abs", "sqrt", "exp")
            return [(v if isinstance(v, T) and v.op != "dbl" and self.num_(v) is not None and self.integral(v) and base in ("ceil", "floor", "round") else
                     self.dbl(z if keep or isinstance(v, T) and v.op == "dbl" and v.a[1] is z or self.num_(v) is not None and self.proves(x, v) else None), x) for v, x in self.ev(args[0], s)]
        ts = self.p.targets(e)
        if base in ("error", "exit", "abort") or e.get("noret"):
            return []
        if len(ts) == 1 and ts[0].get("b") and self.inline(ts[0]) and len(self.stack) < 6 and all(ts[0] is not g for g, t in self.stack):
            return self.enter(e, ts[0], s)
        # effects of a call that is not followed
        out = []
        for vs, x in self.evs(args, s):
            y = self.havoc({"k": "expr", "e": e}, x)
            if isarr((e.get("ty") or "").replace("&", "").strip()):
                l = isym("len")
                y = y.copy()
                y.lin = y.lin + (l,)
                v = A(l)
            else:
                v = self.dbl() if e.get("t") == "d" else isym(base) if e.get("t") in ("i", "u") else mk("bsym", base, isym("b").id) if e.get("t") == "b" else None
            out.append((v, y))
        return out

    def masked(self, a, v, obj, s):
        """range of a after a[mask] = constant"""
        c = v if isinstance(v, T) and val(v) is not None else None
        m = (obj.get("args") or [None])[0] if obj["k"] == "call" else None
        while m is not None and m["k"] in ("cast", "ctor") and (m.get("e") or (m.get("args") or [None])[0]) is not None:
            m = m.get("e") or m["args"][0]
        if c is not None and m is not None and m["k"] == "call":
            op = (m.get("f") or "").split("operator")[-1]
            es = ([m["obj"]] if m.get("obj") is not None else []) + (m.get("args") or [])
            if len(es) == 2 and op in ("<", ">", "<=", ">=") and self.skey(es[0]) == self.skey(obj["obj"]):
                t = es[1]
                while t["k"] in ("cast", "expr"):
                    t = t["e"]
                tv = Fr(t["v"]) if t["k"] in ("int", "flt") else None
                if tv is not None:
                    if op in ("<", "<="):
                        lo = num(min(tv, val(c))) if op == "<" or True else None
                        hi = a.hi if a.hi is not None and val(a.hi) is not None and val(a.hi) >= val(c) else None
                        return a.but(lo=lo, hi=hi)
                    hi = num(max(tv, val(c)))
                    lo = a.lo if a.lo is not None and val(a.lo) <= val(c) else None
                    return a.but(lo=lo, hi=hi)
                # an unknown bound: the other side is kept
                if op in (">", ">=") and a.lo is not None:
                    return a.but(hi=None)
        if c is None and m is not None and m["k"] == "call" and (m.get("f") or "").split("operator")[-1] in (">", ">=") and a.lo is not None:
            # a[a > M] = M: nothing falls below the smaller of the old bound and M, and M < a
            es = ([m["obj"]] if m.get("obj") is not None else []) + (m.get("args") or [])
            return a.but(hi=None, lo=None) if len(es) != 2 else a.but(hi=None, lo=a.lo if self.positive(es[1], s) else None)
        return a.but(lo=None, hi=None)

    def positive(self, e, s):
        """is a number known not to be negative?"""
        k = s.copy()
        n = len(self.obl)
        vs = [self.load(v, x) for v, x in self.ev(e, k)]
        del self.obl[n:]
        z = num(0)
        return len(vs) == 1 and isinstance(vs[0], T) and (vs[0].op == "dbl" and vs[0].a[1] is not None and self.proves(s, vs[0].a[1]) or self.num_(vs[0]) is not None and self.proves(s, vs[0]))

    def enter(self, e, g, s):
        out = []
        args = e.get("args") or []
        for vs, x in self.evs(args, s):
            x = x.copy()
            this = None
            if e.get("obj") is not None:
                o = e["obj"]
                while o["k"] in ("cast", "expr") or o["k"] == "un" and o["op"] in ("*", "&"):
                    o = o["e"]
                if o["k"] == "this":
                    this = self.stack[-1][1] or "this"
                else:
                    this = self.place(o, x)
                    if this is None:
                        self.lost.append(self.where(e) + " object of " + g["q"])
            elif g.get("cls") or not g.get("static") and "::" in g["q"] and self.stack and "::" in self.stack[-1][0]["q"]:
                this = self.stack[-1][1] or "this"
            saved = {}
            for p, a, v in zip(g["params"], args, vs):
                key = ("v", p["id"], p["n"])
                saved[key] = x.env.get(key)
                pl = self.place(a, x) if "&" in p["ty"] and "const" not in p["ty"] or "*" in p["ty"] else None
                x.env[key] = ("ref", pl) if pl is not None and pl != key else self.load(v, x)
            self.stack.append((g, this))
            for o in self.block(g["b"], [x]):
                if o[0] in ("ret", "next"):
                    y = o[1].copy()
                    out.append((o[2] if o[0] == "ret" else None, y))
            self.stack.pop()
        return out


def witness(E, s, goals, inputs, low, high, opaque=False, seconds=4.0):
    """small numbers for the inputs (and loop counters) with which the path is taken and a goal (>= 0)
    fails, or None.  None as well when the path or the goal depends on anything else."""
    for i, t in s.lits:
        v = E.names.get(i)
        if v is None or not (v.op == "bsym" and v.a[-1] == 0) and not (opaque and v.op == "cmp"):
            return None
    ok = lambda a: a in inputs or a.id in E.counters or a.id in E.quotients
    at = lambda g: {a for m, c in monos(g) for a, p in m}
    facts = []
    for g in s.lin:
        k = [ok(a) for a in at(g)]
        if all(k):
            facts.append(g)
        elif any(k) and g.id in E.branch:
            return None
    end = time.time() + seconds
    for g in goals:
        if not all(ok(a) for a in at(g)):
            continue
        # the facts fall into groups that share no number: the goal's group is searched for numbers
        # that break it, the others for any that satisfy them
        groups = []
        for x, y in [(at(g), [])] + [(at(f), [f]) for f in facts]:
            hitg = [q for q in groups if q[0] & x]
            for q in hitg:
                groups.remove(q)
            groups.append((x.union(*[q[0] for q in hitg]), y + [f for q in hitg for f in q[1]]))
        try:
            r = {}
            home = next((q for q in groups if at(g) <= q[0] and at(g)), (set(), []))
            for q in groups:
                if q is not home:
                    r.update(_search(q[0], q[1], None, low, high, end))
            r.update(_search(home[0], home[1], g, low, high, end))
        except TimeoutError:
            return None
        except LookupError:
            continue
        return ", ".join("%s = %d" % (a.a[0], n) for a, n in sorted(r.items(), key=lambda x: x[0].id)) or "any input"
    return None


def _search(vs, facts, goal, low, high, end):
    """numbers for vs with all facts >= 0 and goal < 0"""
    if goal is not None and val(goal) is not None and val(goal) >= 0:
        raise LookupError
    fs = [[(c, m) for m, c in monos(f)] for f in facts]
    if goal is not None:
        fs.append([(-c, m) for m, c in monos(goal)] + [(Fr(-1), ())])
    first = {a for m, c in monos(goal) for a, p in m} if goal is not None else set()
    order = sorted(vs, key=lambda a: (a not in first, -sum(any(x is a for c, m in f for x, p in m) for f in fs), a.id))
    by = {a: [f for f in fs if any(x is a for c, m in f for x, p in m)] for a in order}

    def top(f, env):
        """the largest a fact can be"""
        r = 0
        for c, m in f:
            lo = hi = c
            for a, p in m:
                n = env.get(a)
                l, h = (n, n) if n is not None else (low, high)
                for _ in range(p):
                    k = (lo * l, lo * h, hi * l, hi * h)
                    lo, hi = min(k), max(k)
            r += hi
        return r
    count = [0]

    def go(i, env):
        count[0] += 1
        if count[0] % 64 == 0 and time.time() > end:
            raise TimeoutError
        if i == len(order):
            return env
        for n in range(low, high + 1):
            env[order[i]] = n
            if all(top(f, env) >= 0 for f in by[order[i]]):
                r = go(i + 1, env)
                if r is not None:
                    return r
        env.pop(order[i], None)
        return None
    if not all(top(f, {}) >= 0 for f in fs):
        raise LookupError
    r = go(0, {})
    if r is None:
        raise LookupError
    return dict(r)


def relevant(f, hit):
    """the places the nodes that `hit` selects depend on: their own variables, those of the conditions of
    the loops around them, and what these are computed from"""
    E = Exec(None)
    R = set()

    def keys(n):
        return {k for k in (E.skey(x) for x in front.walk(n) if x.get("k") in ("ref", "mem")) if k is not None and not (k[0] == "g")}

    def down(n, loops):
        k = n.get("k")
        if k in ("for", "while", "do") and any(hit(x) for x in front.walk(n)):
            R.update(keys(n["c"]) if n.get("c") else ())
        for x in front.kids(n):
            down(x, loops)
    for x in front.walk(f["b"]):
        if hit(x):
            R.update(keys(x))
    down(f["b"], [])
    while True:
        n = len(R)
        for x in front.walk(f["b"]):
            k = x.get("k")
            if k == "decl":
                for v in x["v"]:
                    if "id" in v and v.get("init") is not None and ("v", v["id"], v["n"]) in R:
                        R.update(keys(v["init"]))
            elif k == "asg" and E.direct(x["a"]) and E.skey(x["a"]) in R:
                R.update(keys(x["b"]))
            elif k == "call" and (x.get("f") or "").split("::")[-1] == "operator=" and x.get("obj") is not None and E.direct(x["obj"]) and E.skey(x["obj"]) in R:
                for a in x["args"]:
                    R.update(keys(a))
        if len(R) == n:
            return R


def exact(a, b):
    """a / b when every monomial of a contains b, for a single monomial b"""
    mb = monos(b)
    if len(mb) != 1 or mb[0][0] == ():
        return None
    m, c = mb[0]
    out = num(0)
    for ma, ca in monos(a):
        d = dict(ma)
        for at, p in m:
            if d.get(at, 0) < p:
                return None
            d[at] -= p
        t = num(ca / c)
        for at, p in d.items():
            for _ in range(p):
                t = mul(t, at)
        out = add(out, t)
    if any(cc.denominator != 1 for mm, cc in monos(out)):
        return None
    return out
