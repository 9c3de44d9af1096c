"""Typestate of resources: disjunctive path states over the structured AST.

Every function is interpreted over sets of abstract states; a state holds what
pointer variables (and fields of local objects) point at, the status of every
resource, and facts about conditions already taken on the path.  Calls use
summaries (releases argument i / returns a fresh resource / keeps argument i)."""
import re
import front
from defassign import key as condkey

LIMIT = 400
CLIB = re.compile(r"^(gsl_|f(printf|scanf|gets|puts|read|write|eof|error|flush|putc|getc|seek|tell|lush|ileno)|get[cs]|put[cs]|mem(cpy|set|move|cmp)|str|printf|snprintf|sprintf|sscanf|getline|rewind|setvbuf|u?n?getc|vfprintf|perror|qsort|feof|ferror|omp_)")


def family(name):
    """(release function, may be null) of an acquiring function"""
    n = (name or "").split("::")[-1]
    m = re.match(r"^(gsl_\w+?)_c?alloc(_\w+)?$", n)
    if m:
        return m.group(1) + "_free", False
    return {"malloc": ("free", True), "calloc": ("free", True), "strdup": ("free", True), "strndup": ("free", True), "aligned_alloc": ("free", True),
            "fopen": ("fclose", True), "fdopen": ("fclose", True), "tmpfile": ("fclose", True), "popen": ("pclose", True),
            "opendir": ("closedir", True), "freopen": None}.get(n)


def isrelease(name):
    n = (name or "").split("::")[-1]
    return bool(re.match(r"^gsl_\w+_free$", n)) or n in ("free", "fclose", "pclose", "closedir")


def takes(h):
    """can h hand a resource over, in or out?"""
    return "*" in (h.get("rett") or h.get("ret") if isinstance(h.get("rett") or h.get("ret"), str) else "*") or any("*" in q["ty"] for q in h["params"])


class St:
    __slots__ = ("env", "res", "facts")

    def __init__(self, env=None, res=None, facts=None):
        self.env, self.res, self.facts = env or {}, res or {}, facts or {}

    def copy(self):
        return St(dict(self.env), dict(self.res), dict(self.facts))

    def id(self):
        return (tuple(sorted(self.env.items(), key=repr)), tuple(sorted(self.res.items())), tuple(sorted((k, v[0]) for k, v in self.facts.items())))


def dedupe(ss):
    out = {}
    for s in ss:
        out.setdefault(s.id(), s)
    return list(out.values())


class Typestate:
    def __init__(self, prog, report):
        self.p = prog
        self.report = report          # f(kind, function, node, site, text)
        self.sum = {}
        self.active = []
        self.sites = {}               # rid -> (function, node, release name, maybe null, type)
        self.members = []             # (cls, field, rid, function, node)
        self.memfree = set()          # (cls, field)
        self.stat = {"functions": 0, "sites": set(), "releases": set(), "exits": 0, "uses": 0}
        self.given_up = []
        self.repeated = {}
        self.lossy = set()
        self.touch = {}

    # ------------------------------------------------------------ functions
    def run(self, f, args=None):
        """exit states [(state, returned value, node)] of f"""
        self.f = f
        if f["id"] not in self.repeated:
            cnt, hot = {}, set()
            for x in front.walk(f.get("b")):
                c = x.get("c")
                if x["k"] in ("if", "cond", "while", "for", "do") and isinstance(c, dict):
                    t = any(y["k"] in ("new", "delete", "ret") or y["k"] in ("call", "ctor") and (family(y.get("f")) or isrelease(y.get("f")) or any(self.touches(h) and takes(h) for h in self.p.targets(y)))
                            for y in front.walk(x) if y is not c)
                    for y in front.walk(c):
                        if y["k"] not in ("cast", "int", "null"):
                            z = condkey(y)
                            cnt[z] = cnt.get(z, 0) + 1
                            if t:
                                hot.add(z)
            self.repeated[f["id"]] = {z for z, m in cnt.items() if m > 1 and z in hot}
        self.exits = []
        self.brk, self.cont = [], []
        s = St()
        for i, q in enumerate(f["params"]):
            v = (args or {}).get(i)
            s.env[("v", q["id"])] = v if v is not None else ("p", q["n"])
            if v is not None and v[0] == "res":
                s.res[v[1]] = "live"
        ss = [s]
        for i in f.get("inits") or []:
            nxt = []
            for s in ss:
                for s2, v in self.ev(i.get("e"), s):
                    if v and v[0] == "res" and i.get("n"):
                        s2 = s2.copy()
                        s2.env[("this", i["n"])] = v
                    nxt.append(s2)
            ss = nxt
        ss = self.st(f.get("b"), ss)
        for s in ss:
            self.exits.append((s, None, None))
        return self.exits

    def save(self):
        return self.f, self.exits, self.brk, self.cont

    def restore(self, x):
        self.f, self.exits, self.brk, self.cont = x

    def check(self, f):
        """leaks of f's own resources at its exits"""
        if not self.touches(f):
            self.stat["functions"] += 1
            return
        self.active.append(f["id"])
        self.quiet = False
        ex = self.run(f)
        self.active.pop()
        self.stat["functions"] += 1
        self.stat["exits"] += len(ex)
        for s, v, n in ex:
            held = {}
            for k, val in s.env.items():
                if val[0] == "res" and k[0] == "this":
                    held[val[1]] = k
            for rid, stt in s.res.items():
                if stt != "live" or rid.startswith("P:"):
                    continue
                if v and v[0] == "res" and v[1] == rid:
                    continue
                if rid in held:
                    g, node = self.sites[rid][:2]
                    self.members.append((f.get("cls"), held[rid][1], rid, g, node))
                    continue
                g, node = self.sites[rid][:2]
                self.report("leak", f, n, rid, "acquired at %s, still held when %s returns%s" % (front.loc(g, node), f["q"].split("::")[-1], " at line %s" % n.get("l") if n else ""))

    def touches(self, g, depth=0):
        """does g, or anything it calls, acquire or release something?"""
        i = g["id"]
        if i in self.touch:
            return self.touch[i]
        self.touch[i] = False
        t = False
        for x in [y for root in [g.get("b")] + [k.get("e") for k in g.get("inits") or []] for y in front.walk(root)]:
            if x["k"] in ("new", "delete") or x["k"] in ("call", "ctor") and (family(x.get("f")) or isrelease(x.get("f"))):
                t = True
                break
            if x["k"] in ("call", "ctor") and any(self.touches(h) for h in self.p.targets(x) if takes(h)):
                t = True
                break
        self.touch[i] = t
        return t

    def summary(self, g):
        if g["id"] in self.sum:
            return self.sum[g["id"]]
        if g["id"] in self.active or len(self.active) > 12 or not self.touches(g) and not any("*" in q["ty"] for q in g["params"]):
            return {"args": {}, "ret": None}
        self.active.append(g["id"])
        sv, q = self.save(), getattr(self, "quiet", False)
        self.quiet = True
        args = {i: ("res", "P:%d" % i) for i, x in enumerate(g["params"]) if "*" in x["ty"] and "&" not in x["ty"]}
        ex = self.run(g, args)
        out = {"args": {}, "ret": None}
        for i in args:
            ends = {s.res.get("P:%d" % i) for s, v, n in ex if not (v and v == ("res", "P:%d" % i))}
            if "freed" in ends:
                ends.discard(None)      # paths on which the argument is null
            kept = any(v == ("res", "P:%d" % i) for s, v, n in ex)
            inthis = any(val == args[i] and k[0] == "this" for s, v, n in ex for k, val in s.env.items())
            out["args"][i] = "freed" if ends == {"freed"} and not kept else "mixed" if "freed" in ends else "esc" if "esc" in ends or inthis or kept else "use"
        fresh = [v[1] for s, v, n in ex if v and v[0] == "res" and not v[1].startswith("P:") and s.res.get(v[1]) == "live"]
        if fresh:
            out["ret"] = (self.sites[fresh[0]][2], any(v and v[0] == "null" for _, v, _ in ex), self.sites[fresh[0]][4])
        self.restore(sv)
        self.quiet = q
        self.active.pop()
        self.sum[g["id"]] = out
        return out

    def say(self, kind, n, rid, text):
        if not self.quiet:
            self.report(kind, self.f, n, rid, text)

    # ------------------------------------------------------------ values
    def lkey(self, n):
        while n is not None and n["k"] == "cast":
            n = n["e"]
        if n is None:
            return None
        if n["k"] == "ref":
            if n.get("c") in ("local", "param") and "id" in n:
                return ("v", n["id"])
            return ("g", n.get("n"))
        if n["k"] == "mem":
            b = n.get("e") or n.get("b") or n.get("o")
            if b is None or b["k"] == "this" or (b["k"] == "un" and b.get("e", {}).get("k") == "this"):
                return ("this", n.get("n") or n.get("m"))
            k = self.lkey(b)
            return None if k is None else k + (n.get("n") or n.get("m"),)
        return None

    def acquire(self, n, s, rel, maybe, ty):
        rid = "%s@%s:%s" % (self.f["q"], n.get("l"), condkey(n)[-60:])
        if rid not in self.sites:
            self.sites[rid] = (self.f, n, rel, maybe, ty)
        if not self.quiet:
            self.stat["sites"].add(rid)
        if s.res.get(rid) == "live":
            held = [k for k, v in s.env.items() if v == ("res", rid)]
            if not held or True:
                self.say("leak", n, rid, "acquired again while the one acquired before is still held")
        s = s.copy()
        s.res[rid] = "live"
        for k in [k for k, v in s.env.items() if v == ("res", rid)]:
            s.env[k] = ("top",)
        return s, ("res", rid)

    def release(self, n, s, v, name, k):
        if not self.quiet:
            self.stat["releases"].add((self.f["q"], n.get("l"), name))
        if v[0] == "res":
            rid = v[1]
            if s.res.get(rid) == "freed":
                self.say("double", n, rid, "released again (%s)" % name)
            s = s.copy()
            if s.res.get(rid) == "live" or s.res.get(rid) == "freed":
                if rid in self.sites and self.sites[rid][2] != name:
                    self.say("mismatch", n, rid, "released with %s, to be released with %s" % (name, self.sites[rid][2]))
                s.res[rid] = "freed"
        elif k and k[0] == "this" and len(k) == 2:
            self.memfree.add((self.f.get("cls"), k[1]))
        return s

    def use(self, n, s, v):
        if v and v[0] == "res":
            if not self.quiet:
                self.stat["uses"] += 1
            if s.res.get(v[1]) == "freed":
                self.say("uaf", n, v[1], "used after it was released")

    def escape(self, s, v):
        if v and v[0] == "res" and s.res.get(v[1]) == "live":
            s = s.copy()
            s.res[v[1]] = "esc"
        return s

    def kill(self, s, k):
        """facts about a variable that changes"""
        if k is None:
            return s
        bad = [c for c, v in s.facts.items() if k[:2] in v[1]]
        if bad:
            s = s.copy()
            for c in bad:
                del s.facts[c]
        return s

    def assign(self, s, k, v):
        s = self.kill(s, k)
        s = s.copy()
        if k is None:
            return self.escape(s, v)
        if k[0] == "g":
            s = self.escape(s, v)
        for x in [x for x in s.env if len(x) > len(k) and x[:len(k)] == k]:
            del s.env[x]
        if v is None or v[0] == "top":
            s.env.pop(k, None)
        else:
            s.env[k] = v
        return s

    # ------------------------------------------------------------ expressions
    def evs(self, n, ss):
        out = []
        for s in ss:
            out += self.ev(n, s)
        return out

    def ev(self, n, s):
        """[(state, value)]"""
        if n is None:
            return [(s, None)]
        k = n["k"]
        if k == "cast":
            return self.ev(n["e"], s)
        if k == "null" or k == "int" and n.get("v") == 0 or k == "zero":
            return [(s, ("null",))]
        if k == "bool":
            return [(s, ("b", bool(n.get("v"))))]
        if k in ("ref", "mem"):
            pre = [(s, None)]
            if k == "mem":
                b = n.get("e") or n.get("b") or n.get("o")
                if b is not None and b["k"] != "this":
                    pre = self.ev(b, s)
                    for s2, v in pre:
                        if "*" in (b.get("ty") or ""):
                            self.use(n, s2, v)
            lk = self.lkey(n)
            return [(s2, s2.env.get(lk) if lk else None) for s2, _ in pre]
        if k == "asg":
            out = []
            for s2, v in self.ev(n["b"], s):
                lk = self.lkey(n["a"])
                if lk is None:
                    for s3, _ in self.ev(n["a"], s2):
                        out.append((self.escape(s3, v), v))
                    continue
                if n["a"]["k"] == "mem":
                    for s3, _ in self.ev(n["a"], s2):
                        out.append((self.assign(s3, lk, v if n["op"] == "=" else None), v))
                else:
                    out.append((self.assign(s2, lk, v if n["op"] == "=" else None), v))
            return out
        if k == "un":
            op = n.get("op")
            if op == "!":
                return [(s2, ("b", not t)) for s2, t in self.cond(n["e"], s)] if self.boolish(n["e"], s) else [(s2, None) for s2, _ in self.ev(n["e"], s)]
            r = self.ev(n["e"], s)
            if op == "*":
                for s2, v in r:
                    self.use(n, s2, v)
                return [(s2, None) for s2, v in r]
            if op == "&":
                lk = self.lkey(n["e"])
                return [(self.escape(self.kill(s2, lk), v), None) for s2, v in r]
            if op in ("++", "--", "post++", "post--", "pre++", "pre--"):
                lk = self.lkey(n["e"])
                return [(self.kill(s2, lk), None) for s2, v in r]
            return [(s2, None) for s2, v in r]
        if k == "idx":
            out = []
            for s2, v in self.ev(n["a"], s) if "a" in n else self.evkids(n, s):
                self.use(n, s2, v)
                out += [(s3, None) for s3, _ in self.ev(n.get("b") or n.get("i"), s2)]
            return out
        if k == "bin" and n.get("op") in ("&&", "||", "==", "!=") and self.boolish(n, s):
            return [(s2, ("b", t)) for s2, t in self.cond(n, s)]
        if k == "bin" and n.get("op") == ",":
            return self.evs(n["b"], [x for x, _ in self.ev(n["a"], s)])
        if k == "bin" and n.get("op") in ("+", "-"):
            out = []
            for s2, v in self.ev(n["a"], s):
                for s3, w in self.ev(n["b"], s2):
                    out.append((s3, v if v and v[0] == "res" else w if w and w[0] == "res" else None))
            return out
        if k == "cond":
            out = []
            for s2, t in self.cond(n["c"], s):
                out += self.ev(n["a"] if t else n["b"], s2)
            return self.cap(out)
        if k == "new":
            out = []
            for s2, _ in self.ev(n.get("init"), s) if n.get("init") else [(s, None)]:
                out.append(self.acquire(n, s2, "delete[]" if n.get("array") else "delete", False, n.get("ty") or (n.get("init") or {}).get("ty")))
            return out
        if k == "delete":
            out = []
            for s2, v in self.ev(n["e"], s):
                if v and v[0] == "res" and v[1] in self.sites:
                    self.vdtor(n, v[1])
                if v and v[0] == "null":
                    out.append((s2, None))
                    continue
                out.append((self.release(n, s2, v or ("top",), "delete[]" if n.get("array") else "delete", self.lkey(n["e"])), None))
            return out
        if k in ("call", "ctor"):
            return self.call(n, s)
        if k == "throw":
            self.ev(n.get("e"), s)
            return []
        if k in ("sizeof", "lambda"):
            if k == "lambda":
                for x in front.walk(n.get("b")):
                    if x["k"] == "ref":
                        s = self.escape(s, s.env.get(self.lkey(x)))
            return [(s, None)]
        if k == "sexpr":
            return [(x, None) for x in self.st(n["b"], [s])]
        if k == "init":
            out = [s]
            for c in front.kids(n):
                out = dedupe([self.escape(s2, v) for x in out for s2, v in self.ev(c, x)])
            return [(x, None) for x in out]
        return [(s2, None) for s2, _ in self.evkids(n, s)]

    def vdtor(self, n, rid):
        ty = (self.sites[rid][4] or "").replace("*", "").strip()
        st = (n["e"].get("ty") or "").replace("*", "").replace("const", "").strip()
        if ty and st and ty != st and st in self.p.records:
            d = [g for g in self.p.funcs.values() if g.get("kind") == "dtor" and g.get("cls") == st]
            if not any(g.get("virtual") for g in d):
                self.say("mismatch", n, rid, "a %s is deleted as a %s, whose destructor is not virtual" % (ty, st))

    def evkids(self, n, s):
        ss = [(s, None)]
        for c in front.kids(n):
            ss = self.cap([y for x, _ in ss for y in self.ev(c, x)])
        return ss

    def cap(self, r):
        seen, out = set(), []
        for s, v in r:
            i = (s.id(), v)
            if i not in seen:
                seen.add(i)
                out.append((s, v))
        if len(out) > LIMIT:
            self.given_up.append(self.f)
            out = out[:LIMIT]
        return out

    def call(self, n, s):
        f = n.get("f") or ""
        short = f.split("::")[-1]
        rs = [(s, [])]
        if n.get("obj") is not None:
            rs = [(s2, []) for s2, v in self.objuse(n, s)]
        for a in n.get("args") or []:
            nx = []
            for s2, vs in rs:
                for s3, v in self.ev(a, s2):
                    nx.append((s3, vs + [v]))
            seen, rs = set(), []
            for s2, vs in nx:
                i = (s2.id(), tuple(vs))
                if i not in seen:
                    seen.add(i)
                    rs.append((s2, vs))
            rs = rs[:LIMIT]
        if n.get("noret") or short in ("exit", "abort", "_exit", "quick_exit", "terminate"):
            return []
        fam = family(f)
        tg = self.p.targets(n)
        out = []
        for s2, vs in rs:
            if n.get("obj") is not None and n.get("op") == "=" and len(vs) == 1:
                s2 = self.kill(s2, self.lkey(n["obj"]))
            # by-reference arguments may change
            pk = n.get("pk") or ""
            for i, a in enumerate(n.get("args") or []):
                if i < len(pk) and pk[i] in "rp":
                    lk = self.lkey(a)
                    if pk[i] == "r" and lk:
                        s2 = self.kill(s2, lk)
            if tg:
                bad = [c for c, v in s2.facts.items() if ("m",) in v[1]]
                if bad:
                    s2 = s2.copy()
                    for c in bad:
                        del s2.facts[c]
            if fam and not tg:
                out.append(self.acquire(n, s2, fam[0], fam[1], n.get("ty")))
                continue
            if isrelease(f) and not tg and vs:
                if vs[0] and vs[0][0] == "null":
                    if short == "fclose":
                        self.say("uaf", n, "null", "null file handed to fclose")
                    out.append((s2, None))
                    continue
                out.append((self.release(n, s2, vs[0] or ("top",), short, self.lkey(n["args"][0])), None))
                continue
            ret = None
            if tg:
                sums = [self.summary(g) for g in tg]
                forks = []
                for i, v in enumerate(vs):
                    if not v or v[0] != "res":
                        continue
                    self.use(n, s2, v)
                    kinds = {x["args"].get(i, "use") for x in sums}
                    if kinds == {"freed"}:
                        s2 = self.release(n, s2, v, self.sites[v[1]][2] if v[1] in self.sites else "free", None)
                    elif kinds == {"mixed"} and not any(q["ty"].split()[-1] not in ("double", "float") for g in tg for j, q in enumerate(g["params"]) if j != i):
                        # released on some of the callee's paths, which no flag of the caller selects
                        forks.append(self.release(n, s2, v, self.sites[v[1]][2] if v[1] in self.sites else "free", None))
                    elif kinds != {"use"}:
                        s2 = self.escape(s2, v)
                out += [(x, None) for x in forks]
                fr = [x["ret"] for x in sums if x["ret"]]
                if fr and "*" in (n.get("ty") or "*"):
                    out.append(self.acquire(n, s2, fr[0][0], fr[0][1], fr[0][2]))
                    continue
            else:
                for i, v in enumerate(vs):
                    if v and v[0] == "res":
                        self.use(n, s2, v)
                        if n["k"] == "ctor" or not CLIB.match(short) or f.startswith("std::") and n.get("obj") is not None:
                            s2 = self.escape(s2, v)
            if n["k"] == "ctor" and n.get("op") is None and len(vs) == 1 and n.get("copy"):
                ret = vs[0]
            out.append((s2, ret))
        return self.cap(out)

    def objuse(self, n, s):
        r = self.ev(n["obj"], s)
        for s2, v in r:
            self.use(n, s2, v)
        return r

    # ------------------------------------------------------------ conditions
    def boolish(self, n, s):
        """does the expression test something tracked?"""
        for x in front.walk(n):
            if x["k"] in ("ref", "mem"):
                lk = self.lkey(x)
                v = s.env.get(lk) if lk else None
                if v and v[0] in ("res", "null", "p", "b"):
                    return True
        return False

    def cond(self, n, s):
        """[(state, truth)]"""
        while n["k"] == "cast":
            n = n["e"]
        k = n["k"]
        if k == "bool":
            return [(s, bool(n.get("v")))]
        if k == "int":
            return [(s, n.get("v") != 0)]
        if k == "un" and n.get("op") == "!":
            return [(x, not t) for x, t in self.cond(n["e"], s)]
        if k == "bin" and n.get("op") in ("&&", "||"):
            out = []
            for s2, t in self.cond(n["a"], s):
                if t == (n["op"] == "||"):
                    out.append((s2, t))
                else:
                    out += self.cond(n["b"], s2)
            return self.cap(out)
        if k == "bin" and n.get("op") in ("==", "!="):
            out = []
            for s2, a in self.ev(n["a"], s):
                for s3, b in self.ev(n["b"], s2):
                    out += self.eq(n, s3, a, b)
            return self.cap([(x, t == (n["op"] == "==")) for x, t in out])
        if k == "asg":
            out = []
            for s2, v in self.ev(n, s):
                out += self.truth(n["a"], s2, v)
            return self.cap(out)
        out = []
        for s2, v in self.ev(n, s):
            out += self.truth(n, s2, v)
        return self.cap(out)

    def eq(self, n, s, a, b):
        if a and b:
            if a == b and a[0] in ("res", "null", "b"):
                return [(s, True)]
            for x, y in ((a, b), (b, a)):
                if y[0] == "null":
                    return [(z, not t) for z, t in self.truth(n["a"] if x is a else n["b"], s, x)]
                if y[0] == "b" and x[0] in ("b",):
                    return [(s, x[1] == y[1])]
        ka = n["a"]
        return self.fork(dict(n, op="=="), s)

    def truth(self, n, s, v):
        if v:
            if v[0] == "null":
                return [(s, False)]
            if v[0] == "b":
                return [(s, v[1])]
            if v[0] == "res":
                rid = v[1]
                if s.res.get(rid) == "live" and (rid.startswith("P:") or self.sites.get(rid, (0, 0, 0, False))[3]):
                    z = s.copy()
                    z.res.pop(rid, None)
                    for k in [k for k, x in z.env.items() if x == v]:
                        z.env[k] = ("null",)
                    y = s
                    if not rid.startswith("P:"):
                        y = s
                    return [(y, True)] + ([(z, False)] if not rid.startswith("P:") else [])
                return [(s, True)]
            if v[0] == "p":
                fk = "null:" + v[1]
                if fk in s.facts:
                    return [(s, s.facts[fk][0])]
                a, b = s.copy(), s.copy()
                a.facts[fk] = (True, frozenset())
                b.facts[fk] = (False, frozenset())
                for k in [k for k, x in b.env.items() if x == v]:
                    b.env[k] = ("null",)
                return [(a, True), (b, False)]
        return self.fork(n, s)

    def fork(self, n, s):
        """a condition nothing is known about: both ways, remembered"""
        deps = set()
        stable = True
        for x in front.walk(n):
            if x["k"] in ("call", "ctor", "asg", "idx"):
                stable = False
            if x["k"] == "un" and x.get("op") in ("++", "--", "post++", "post--", "pre++", "pre--", "*"):
                stable = False
            if x["k"] in ("ref", "mem"):
                lk = self.lkey(x)
                if lk:
                    deps.add(lk[:2])
                    if lk[0] != "v":
                        deps.add(("m",))
        c = condkey(n)
        if not stable or c not in self.repeated.get(self.f["id"], ()) and c.replace('"!="', '"=="') not in self.repeated.get(self.f["id"], ()):
            return [(s, True), (s, False)]
        if c in s.facts:
            return [(s, s.facts[c][0])]
        a, b = s.copy(), s.copy()
        a.facts[c] = (True, frozenset(deps))
        b.facts[c] = (False, frozenset(deps))
        return [(a, True), (b, False)]

    # ------------------------------------------------------------ statements
    def st(self, n, ss):
        if n is None or not ss:
            return ss
        if isinstance(n, list):
            for x in n:
                ss = self.st(x, ss)
            return ss
        if len(ss) > 1:
            ss = dedupe(ss)
            if len(ss) > 48:
                ss = self.coarse(ss)
            if len(ss) > LIMIT:
                self.given_up.append(self.f)
                ss = ss[:LIMIT]
        k = n["k"]
        if k == "blk":
            for x in n["b"]:
                ss = self.st(x, ss)
            return ss
        if k == "expr":
            return [x for x, _ in self.evs(n["e"], ss)]
        if k == "decl":
            for v in n["v"]:
                nx = []
                for s in ss:
                    if v.get("init") is None:
                        nx.append(self.assign(s, ("v", v.get("id")), None))
                        continue
                    for s2, val in self.ev(v["init"], s):
                        if v.get("static") and val and val[0] == "res":
                            s2 = self.escape(s2, val)
                        if v["init"]["k"] == "init":
                            val = None
                        nx.append(self.assign(s2, ("v", v.get("id")), val))
                ss = nx
            return ss
        if k == "if":
            if n.get("init"):
                ss = self.st(n["init"], ss)
            out = []
            ta, fa = [], []
            for s in ss:
                for s2, t in self.cond(n["c"], s):
                    (ta if t else fa).append(s2)
            out = self.st(n["a"], dedupe(ta))
            out = out + (self.st(n["b"], dedupe(fa)) if n.get("b") else dedupe(fa))
            return self.forget(out)
        if k in ("for", "while", "rfor", "do"):
            return self.loop(n, ss)
        if k == "omp":
            return self.st(n["b"], ss)
        if k == "ret":
            for s in ss:
                for s2, v in self.ev(n.get("e"), s):
                    if v and v[0] == "res" and s2.res.get(v[1]) == "freed":
                        self.say("uaf", n, v[1], "returned after it was released")
                    self.exits.append((s2, v, n))
            return []
        if k == "break":
            if self.brk:
                self.brk[-1] += ss
            return []
        if k == "continue":
            if self.cont:
                self.cont[-1] += ss
            return []
        if k == "switch":
            ss = [x for x, _ in self.evs(n["c"], ss)]
            self.brk.append([])
            cur, dflt = [], False
            for x in (n["b"]["b"] if n["b"]["k"] == "blk" else [n["b"]]):
                y = x
                while y is not None and y["k"] in ("case", "default"):
                    dflt |= y["k"] == "default"
                    cur = dedupe(cur + ss)
                    y = y.get("b")
                if y is not None and cur:
                    cur = self.st(y, cur)
            return dedupe(cur + self.brk.pop() + ([] if dflt else ss))
        if k in ("case", "default", "label"):
            return self.st(n.get("b"), ss)
        if k == "try":
            a = self.st(n["b"], ss)
            for h in n.get("h") or []:
                a = a + self.st(h["b"], ss)
            return a
        if k == "throw":
            return []
        if k in ("goto", "nop"):
            return ss
        return [x for x, _ in self.evs(n, ss)]

    def forget(self, ss):
        """states that differ only in facts about conditions without any tracked resource behind them"""
        if len(ss) < 2:
            return ss
        groups = {}
        for s in ss:
            groups.setdefault((tuple(sorted(s.env.items(), key=repr)), tuple(sorted(s.res.items()))), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1:
                out += g
                continue
            m = g[0].copy()
            m.facts = {c: v for c, v in m.facts.items() if all(c in x.facts and x.facts[c][0] == v[0] for x in g)}
            out.append(m)
        return out

    def coarse(self, ss):
        """too many states: keep only what they agree on, besides resources"""
        self.lossy.add(self.f["id"])
        groups = {}
        for s in ss:
            e = tuple(sorted(((k, v) for k, v in s.env.items() if v[0] == "res"), key=repr))
            groups.setdefault((e, tuple(sorted(s.res.items()))), []).append(s)
        out = []
        for g in groups.values():
            m = g[0].copy()
            m.env = {k: v for k, v in m.env.items() if all(x.env.get(k) == v for x in g)}
            m.facts = {c: v for c, v in m.facts.items() if all(c in x.facts and x.facts[c][0] == v[0] for x in g)}
            out.append(m)
        return out

    def loop(self, n, ss):
        k = n["k"]
        if n.get("init") is not None and k != "rfor":
            ss = self.st(n["init"], ss)
        if k == "rfor":
            ss = [x for x, _ in self.evs(n.get("e"), ss)]
        seen = {}
        done = []
        todo = ss
        first = k == "do"
        for rnd in range(6):
            enter = []
            for s in todo:
                if first or n.get("c") is None:
                    enter.append(s)
                    if k == "rfor":
                        done.append(s)
                    continue
                for s2, t in self.cond(n["c"], s):
                    (enter if t else done).append(s2)
            first = False
            enter = [s for s in dedupe(enter) if s.id() not in seen]
            for s in enter:
                seen[s.id()] = 1
            if not enter:
                break
            self.brk.append([])
            self.cont.append([])
            b = self.st(n["b"], enter)
            b = b + self.cont.pop()
            done += self.brk.pop()
            if n.get("inc") is not None:
                b = [x for x, _ in self.evs(n["inc"], b)]
            todo = self.forget(dedupe(b))
        else:
            self.given_up.append(self.f)
        return self.forget(dedupe(done))
