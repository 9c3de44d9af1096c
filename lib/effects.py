"""Interprocedural side-effect analysis on access paths.

A path is (root, (field, ...)) with root one of ("P",i) what parameter i refers
or points to, ("T",) the object a method is called on, ("G",q) a global,
("S",f,q) a function-local static, ("L",id) a local of the function, ("H",) fresh
heap memory, ("?",) unknown.  Array elements are the field "[]".  Pointers and
references are resolved with flow-insensitive alias sets of each function;
callee effects are mapped through the arguments of every call, virtual calls to
every overrider, function pointers to every function whose address the function
takes.  Anything outside the repository is judged by its signature."""
import front
from front import walk, kids, loc

ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "|=", "&=", "^="}
# standard methods that are not const only because they hand out a reference
ACCESS = {"operator[]", "begin", "end", "data", "at", "front", "back", "rbegin", "rend", "c_str", "find"}
# external functions with effects beyond their arguments
IO_FUNCS = {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "putc", "vprintf", "vfprintf", "perror", "fflush",
            "fwrite", "write", "dprintf"}
NONDET = {"rand", "random", "srand", "srandom", "drand48", "time", "clock", "getenv", "gettimeofday", "clock_gettime",
          "std::rand", "std::srand", "omp_get_thread_num", "omp_get_num_threads", "omp_get_max_threads", "omp_get_wtime",
          "std::time", "std::clock", "std::getenv", "getpid", "std::this_thread::get_id", "omp_set_num_threads",
          "std::chrono::_V2::system_clock::now", "std::chrono::_V2::steady_clock::now", "rand_r", "lrand48", "mrand48",
          "secure_getenv", "getrandom", "omp_get_num_procs", "omp_get_dynamic", "omp_in_parallel"}
# pointer arguments these only read although their prototype is not const
PTR_READ = {"gsl_integration_qag", "gsl_integration_qags", "gsl_integration_qagiu", "upper_bound", "lower_bound", "binary_search",
            "accumulate", "min_element", "max_element", "count", "equal", "inner_product", "distance", "all_of", "any_of", "none_of",
            "is_sorted"}
# standard algorithms that write through some of their pointer arguments only
ARG_WRITES = {"copy": {2}, "copy_n": {2}, "copy_if": {2}, "transform": {2, 3}, "partial_sum": {2}, "fill": {0}, "memcpy": {0}}


def base_name(q):
    return (q or "").split("::")[-1]


class Effects:
    def __init__(self, prog):
        self.p = prog
        self.alias = {}
        self.sum = {}        # id -> {path: (site, chain)}
        self.greads = {}     # id -> {global q: site}
        self.nondet = {}
        self.callees = {}
        fs = prog.defined()
        self.byid = {f["id"]: f for f in fs}
        for f in fs:
            self._alias(f)
        for f in fs:
            self.sum[f["id"]] = {}
        ch, n = True, 0
        while ch and n < 30:
            ch, n = False, n + 1
            for f in fs:
                s = self._summary(f)
                if set(s) != set(self.sum[f["id"]]):
                    o = self.sum[f["id"]]
                    for k, v in s.items():
                        o.setdefault(k, v)
                    ch = True

    # ---- functions that may be called from f, with address-taken functions
    def edges(self, f):
        if f["id"] in self.callees:
            return self.callees[f["id"]]
        out = {}
        roots = [f.get("b")] + [i.get("e") for i in f.get("inits") or []]
        for r in roots:
            for n in walk(r):
                if n["k"] in ("call", "ctor"):
                    for t in self.p.targets(n):
                        out[t["id"]] = t
                elif n["k"] == "ref" and n.get("c") == "func":
                    for t in self.p.by_q.get(n.get("q") or n["n"], []):
                        if t.get("b") is not None:
                            out[t["id"]] = t
        self.callees[f["id"]] = list(out.values())
        return self.callees[f["id"]]

    def reachable(self, roots):
        seen, st = {}, list(roots)
        while st:
            f = st.pop()
            if f["id"] in seen:
                continue
            seen[f["id"]] = f
            st.extend(self.edges(f))
        return list(seen.values())

    # ---- aliases of pointer/reference locals and reassigned pointer params
    def _alias(self, f):
        A = {}
        self.alias[f["id"]] = A
        for i, p in enumerate(f["params"]):
            if p.get("ref") or p.get("ptr"):
                A[p["id"]] = {(("P", i), ())}
        for _ in range(6):
            before = {k: set(v) for k, v in A.items()}
            for n in walk(f.get("b")):
                if n["k"] == "decl":
                    for v in n["v"]:
                        if v.get("static"):
                            continue
                        if v.get("ref") and v.get("init") is not None:
                            A.setdefault(v["id"], set()).update(self.lv(f, v["init"]))
                        elif v.get("ptr") and v.get("init") is not None:
                            A.setdefault(v["id"], set()).update(self.pt(f, v["init"]))
                elif n["k"] == "rfor":
                    v = n["v"]
                    if isinstance(v, dict) and v.get("ref"):
                        A.setdefault(v["id"], set()).update(self._sub(self.lv(f, n["e"]), "[]"))
                elif n["k"] == "asg" and n["op"] == "=" and n["a"]["k"] == "ref" and n["a"].get("t") == "p" \
                        and n["a"].get("c") in ("local", "param"):
                    A.setdefault(n["a"]["id"], set()).update(self.pt(f, n["b"]))
            if before == A:
                break

    def _sub(self, paths, fld):
        return {self._cut((r, fs + (fld,))) for r, fs in paths}

    def _cut(self, p):
        r, fs = p
        # collapse repeated [] and bound the depth
        out = []
        for x in fs:
            if x == "[]" and len(out) >= 2 and out[-1] == "[]" and out[-2] == "[]":
                continue
            out.append(x)
        return (r, tuple(out[:8]))

    def lv(self, f, e):
        """Paths an lvalue expression may denote."""
        if e is None:
            return set()
        k = e["k"]
        A = self.alias[f["id"]]
        if k == "ref":
            c = e.get("c")
            if c == "global":
                return {(("G", e.get("q") or e["n"]), ())}
            if c == "static":
                return {(("S", f["q"], e["n"]), ())}
            if c in ("param", "local"):
                if e["id"] in A and not (e.get("t") == "p"):
                    return set(A[e["id"]])
                return {(("L", e["id"]), ())}
            return set()
        if k == "this":
            return {(("T",), ())}
        if k == "mem":
            b = self.pt(f, e["e"]) if e.get("arrow") else self.lv(f, e["e"])
            return self._sub(b, e["n"])
        if k == "idx":
            a = e["a"]
            return self._sub(self.pt(f, a) if a.get("t") == "p" else self.lv(f, a), "[]")
        if k == "un":
            if e["op"] == "*":
                return self.pt(f, e["e"])
            if e["op"] == "&":
                return set()
            return self.lv(f, e["e"])
        if k == "cond":
            return self.lv(f, e["a"]) | self.lv(f, e["b"])
        if k == "asg":
            return self.lv(f, e["a"])
        if k == "bin" and e["op"] == ",":
            return self.lv(f, e["b"])
        if k in ("cast", "defarg"):
            return self.lv(f, e.get("e"))
        if k == "call":
            nm = base_name(e.get("f"))
            if e.get("obj") is not None:
                ob = self.obj(f, e)
                if nm in ACCESS:
                    return self._sub(ob, "[]")
                if e.get("rref"):
                    out = set(ob)
                    for t in self.p.targets(e):
                        out |= self._retpaths(f, e, t)
                    return out
                return set()
            if e.get("rref"):
                ts = self.p.targets(e)
                out = set()
                if ts:
                    for t in ts:
                        out |= self._retpaths(f, e, t)
                else:
                    for i, a in enumerate(e["args"]):
                        pk = (e.get("pk") or "")[i:i + 1]
                        if pk in "rc" and a is not None:
                            out |= self.lv(f, a)
                return out
            return set()
        return set()

    def _retpaths(self, f, call, t, depth=0):
        """What a reference/pointer returned by a repository function may denote."""
        key = (t["id"])
        if not hasattr(self, "_ret"):
            self._ret = {}
        if key not in self._ret:
            self._ret[key] = {}
            rs = set()
            for n in walk(t.get("b")):
                if n["k"] == "ret" and n.get("e") is not None:
                    rs |= self.lv(t, n["e"]) if t.get("retref") else self.pt(t, n["e"])
            self._ret[key] = {p for p in rs if p[0][0] != "L"}
        out = set()
        for p in self._ret[key] or ():
            out |= self.map(f, call, t, p)
        return out

    def obj(self, f, e):
        o = e.get("obj")
        return self.pt(f, o) if e.get("arrow") or o.get("t") == "p" else self.lv(f, o)

    def pt(self, f, e):
        """Paths a pointer-valued expression may point to."""
        if e is None:
            return set()
        k = e["k"]
        A = self.alias[f["id"]]
        if k == "this":
            return {(("T",), ())}
        if k == "ref":
            c = e.get("c")
            if c in ("param", "local"):
                if e["id"] in A:
                    return set(A[e["id"]])
                return {(("L", e["id"]), ())}
            if c == "global":
                return {(("G", e.get("q") or e["n"]), ())}
            if c == "static":
                return {(("S", f["q"], e["n"]), ())}
            return set()
        if k == "un":
            if e["op"] == "&":
                return self.lv(f, e["e"])
            if e["op"] == "*":
                return self._sub(self.pt(f, e["e"]), "*")
            return self.pt(f, e["e"])
        if k == "new":
            return {(("H",), ())}
        if k == "null":
            return set()
        if k in ("cast", "defarg"):
            return self.pt(f, e.get("e"))
        if k == "cond":
            return self.pt(f, e["a"]) | self.pt(f, e["b"])
        if k == "bin":
            return self.pt(f, e["a"]) | self.pt(f, e["b"]) if e.get("t") == "p" else set()
        if k == "asg":
            return self.pt(f, e["b"])
        if k == "mem":
            return self.lv(f, e)
        if k == "idx":
            return self.lv(f, e)
        if k == "call":
            nm = base_name(e.get("f"))
            if nm in ("malloc", "calloc", "realloc", "fopen") or nm.endswith("_alloc"):
                return {(("H",), ())}
            ts = self.p.targets(e)
            out = set()
            if ts:
                for t in ts:
                    out |= self._retpaths(f, e, t)
                return out
            if e.get("obj") is not None:
                return self._sub(self.obj(f, e), "[]") if nm in ACCESS else self.obj(f, e)
            for a in e["args"]:
                if a is not None and a.get("t") == "p":
                    out |= self.pt(f, a)
                elif a is not None and nm in ACCESS:
                    # std::begin(array) and the like
                    out |= self._sub(self.lv(f, a), "[]")
            return out
        if k in ("str", "int", "zero", "init", "flt", "bool", "sizeof"):
            return set()
        if e.get("t") == "p":
            return {(("?",), ())}
        # an array object decays
        return self.lv(f, e)

    def argpaths(self, f, call, t, i):
        args = call["args"]
        if i >= len(args) or args[i] is None:
            d = t["params"][i].get("def") if i < len(t["params"]) else None
            if isinstance(d, dict):
                return self.lv(t, d) if t["params"][i].get("ref") else self.pt(t, d)
            return set()
        a = args[i]
        p = t["params"][i]
        if p.get("ref"):
            return self.lv(f, a)
        if p.get("ptr"):
            return self.pt(f, a)
        return set()

    def map(self, f, call, t, path):
        """A callee path seen from the caller."""
        root, fs = path
        if root[0] == "P":
            base = self.argpaths(f, call, t, root[1])
        elif root[0] == "T":
            if call["k"] == "ctor":
                return set()
            base = self.obj(f, call) if call.get("obj") is not None else {(("T",), ())}
        elif root[0] in ("G", "S", "?"):
            return {path}
        else:
            return set()
        return {self._cut((r, b + fs)) for r, b in base}

    def _summary(self, f):
        out = {}

        def put(path, site, chain=()):
            r, fs = path
            if r[0] in ("L", "H"):
                return
            if path not in out:
                out[path] = (site, chain)
        for path, n, chain in self.writes(f):
            put(path, (f, n) if not chain else chain[-1], chain)
        return out

    def writes(self, f, body=None):
        """(path, node, callee chain) of every write f may perform, locals included."""
        roots = [body] if body is not None else [f.get("b")] + [i.get("e") for i in f.get("inits") or []]
        if body is None and f.get("kind") == "ctor":
            pass
        for r in roots:
            for n in walk(r):
                k = n["k"]
                if k == "asg":
                    a = n["a"]
                    for p in self.lv(f, a):
                        yield p, n, ()
                elif k == "un" and n["op"].lstrip("p") in ("++", "--"):
                    for p in self.lv(f, n["e"]):
                        yield p, n, ()
                elif k == "delete":
                    pass
                elif k in ("call", "ctor"):
                    for x in self._callwrites(f, n):
                        yield x

    def _callwrites(self, f, n):
        ts = self.p.targets(n)
        q = n.get("f") or ""
        nm = base_name(q)
        if ts:
            for t in ts:
                for p, (site, chain) in self.sum[t["id"]].items():
                    for m in self.map(f, n, t, p):
                        yield m, n, (((f, n),) + (chain or (site,)))[:8]
            return
        if n["k"] == "ctor":
            pk = n.get("pk") or ""
            for i, a in enumerate(n["args"]):
                c = pk[i:i + 1]
                if c == "r" and a is not None and "valarray" not in q:
                    for p in self.lv(f, a):
                        yield p, n, ()
            return
        if n.get("obj") is not None:
            if n.get("op") in ASSIGN or n.get("op") in ("++", "--"):
                for p in self.obj(f, n):
                    # slices, masks: the assignment goes to the sliced array's elements
                    yield p, n, ()
            elif not n.get("cm") and nm not in ACCESS:
                for p in self.obj(f, n):
                    yield p, n, ()
        elif n.get("op") in ASSIGN and n["args"]:
            for p in self.lv(f, n["args"][0]):
                yield p, n, ()
        if nm in PTR_READ or nm in ACCESS:
            return
        only = ARG_WRITES.get(nm)
        pk = n.get("pk") or ""
        for i, a in enumerate(n["args"]):
            c = pk[i:i + 1] if i < len(pk) and pk[i:i + 1] != "." else ""
            if a is None or only is not None and i not in only:
                continue
            if c == "r" and not (n.get("op") and n["op"] not in ASSIGN):
                for p in self.lv(f, a):
                    yield p, n, ()
            elif c == "p":
                for p in self.pt(f, a):
                    yield p, n, ()

    # ---- uses
    def global_uses(self, f):
        roots = [f.get("b")] + [i.get("e") for i in f.get("inits") or []]
        for r in roots:
            for n in walk(r):
                if n["k"] == "ref" and n.get("c") in ("global", "static"):
                    yield n

    def show(self, path, f=None):
        r, fs = path
        if r[0] == "P" and f is not None:
            s = f["params"][r[1]]["n"]
        elif r[0] == "T":
            s = "this"
        elif r[0] == "G":
            s = r[1]
        elif r[0] == "S":
            s = "static " + r[2]
        else:
            s = r[0]
        for x in fs:
            s += x if x == "[]" else "." + x
        return s


def chain_text(chain):
    return " <- ".join("%s" % loc(f, n) for f, n in reversed(chain)) if chain else ""
