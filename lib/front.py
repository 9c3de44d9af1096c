"""Front end: turns /repo's current C++ sources into a type-checked AST (via
tool/export.cpp, a clang LibTooling program) and offers call-graph helpers."""
import glob, hashlib, json, os, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisError(Exception):
    """The analysis cannot decide (front end failed, anchor vanished)."""


def _tool():
    src = os.path.join(VERIF, "tool", "export.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "export-" + h)
    if os.path.exists(out):
        return out
    try:
        os.makedirs(BUILD, exist_ok=True)
        d = BUILD
    except OSError:
        d = tempfile.mkdtemp(prefix="vexport")
        out = os.path.join(d, "export-" + h)
    tmp = out + ".%d.tmp" % os.getpid()
    cxx = "clang++-18"
    from shutil import which
    if which(cxx) is None:
        cxx = "clang++"
    cmd = [cxx, "-O0", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
           "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM-18.so"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build the exporter:\n" + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


def cpp_sources():
    s = sorted(glob.glob(REPO + "/src/*.cpp")) + sorted(glob.glob(REPO + "/python/arcticpy/src/*.cpp"))
    # never the Cython output
    s = [f for f in s if not os.path.basename(f).startswith("wrapper")]
    if not s:
        raise AnalysisError("no C++ sources found")
    return s


_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program(export(cpp_sources()))
    return _prog


def export(files, extra=(), root=None):
    cmd = [_tool(), root or REPO] + list(files) + ["--", "-std=c++11", "-fopenmp", "-I" + REPO + "/include",
           "-I" + REPO + "/python/arcticpy/include", "-w", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + list(extra)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("front end failed:\n" + r.stderr[-3000:])
    return json.loads(r.stdout)


def selftest_program(name):
    """The positive example sources of a rule (under /verif/selftest)."""
    f = os.path.join(VERIF, "selftest", name)
    return Program(export([f], root=os.path.join(VERIF, "selftest")))


# ---------------------------------------------------------------- tree walking
CHILD_KEYS = ("init", "c", "a", "b", "inc", "e", "obj", "m", "h", "i", "n", "v", "args", "cv", "size", "cond",
              "fields", "base_e", "f_e", "s", "written")


def kids(n):
    """Direct AST children of a node (dicts having a 'k'), in source order where it matters."""
    k = n.get("k")
    out = []

    def add(x):
        if isinstance(x, dict):
            if "k" in x:
                out.append(x)
            elif "e" in x or "init" in x:
                for y in (x.get("init"), x.get("e")):
                    add(y)
        elif isinstance(x, list):
            for y in x:
                add(y)
    for key, val in n.items():
        if key in ("k", "t", "l", "ty"):
            continue
        if isinstance(val, (dict, list)):
            add(val)
    return out


def walk(n):
    if n is None:
        return
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            stack.extend(reversed(x))
            continue
        if x is None:
            continue
        yield x
        stack.extend(reversed(kids(x)))


class Program:
    def __init__(self, js):
        self.js = js
        self.funcs = {}
        for f in js["functions"]:
            # prefer definitions with a body
            o = self.funcs.get(f["id"])
            if o is None or (o.get("b") is None and f.get("b") is not None):
                self.funcs[f["id"]] = f
        self.records = {}
        for r in js["records"]:
            self.records.setdefault(r["name"] if "name" in r else r["q"], r)
        self.globals = js["globals"]
        self.by_q = {}
        for f in self.funcs.values():
            self.by_q.setdefault(f["q"], []).append(f)
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.get("overrides") or []:
                self.overriders.setdefault(o, []).append(f["id"])
        for k in list(self.overriders):
            self.overriders[k] = self._closure(k)

    def _closure(self, k):
        seen, st = [], list(self.overriders.get(k, []))
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.append(x)
            st.extend(self.overriders.get(x, []))
        return seen

    def defined(self):
        return [f for f in self.funcs.values() if f.get("b") is not None]

    def fn(self, q, required=True):
        fs = [f for f in self.by_q.get(q, []) if f.get("b") is not None]
        if not fs:
            if required:
                raise AnalysisError("anchor vanished: function %s is not defined in the sources" % q)
            return None
        return fs[0]

    def targets(self, call):
        """Defined functions a call may reach."""
        i = call.get("id")
        if i is None or i not in self.funcs:
            return []
        out = [i]
        if call.get("virt"):
            out += self.overriders.get(i, [])
        return [self.funcs[x] for x in out if self.funcs[x].get("b") is not None]

    def calls(self, f):
        roots = [f.get("b")] + [i.get("e") for i in f.get("inits") or []]
        for r in roots:
            for n in walk(r):
                if n["k"] in ("call", "ctor"):
                    yield n

    def reachable(self, roots):
        seen, st = {}, list(roots)
        while st:
            f = st.pop()
            if f["id"] in seen:
                continue
            seen[f["id"]] = f
            for c in self.calls(f):
                st.extend(self.targets(c))
        return list(seen.values())


def rel(f):
    p = f["file"]
    return os.path.relpath(p, REPO) if p.startswith("/") else p


def loc(f, n=None):
    l = (n or {}).get("l") or f.get("l")
    return "%s:%s (%s)" % (rel(f), l, f["q"])
