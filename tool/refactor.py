"""Behaviour-preserving edits: every check must stay quiet on each of them.
   refactor.py [--build] [--only=NAME] [--check=C01,C02]   (development tool, not run by any check)"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile

C = "src/cti.cpp"
TM = "src/trap_managers.cpp"
I = "python/arcticpy/src/interface.cpp"
P = "python/arcticpy/cti.py"
U = "src/util.cpp"
R = []


def ref(name, *edits):
    R.append((name, edits))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactors.py")).read())


def apply(d, edits):
    for e in edits:
        f, o, n = e[:3]
        p = d + "/" + f
        s = open(p, newline="").read()
        if "\r\n" in s:
            o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
        c = s.count(o)
        if c == 0:
            return "NOT FOUND %s: %s" % (f, o[:70])
        if len(e) > 3:
            parts = s.split(o)
            s = o.join(parts[:e[3] + 1]) + n + o.join(parts[e[3] + 1:])
        else:
            if c > 1:
                return "AMBIGUOUS (%d) %s: %s" % (c, f, o[:70])
            s = s.replace(o, n)
        open(p, "w", newline="").write(s)
    return None


def one(name, edits, checks, build):
    d = tempfile.mkdtemp(prefix="rf", dir="/tmp")
    out = []
    try:
        if build:
            subprocess.run("cp -a /repo/. %s" % d, shell=True, check=True)
        else:
            subprocess.run("cd /repo && git ls-files -z | xargs -0 cp --parents -t %s" % d, shell=True, check=True)
        e = apply(d, edits)
        if e:
            return name, [e]
        if build:
            q = subprocess.run(["unshare", "-Urm", "sh", "-c", "mount --bind %s /repo && bash /opt/vp/build.sh >/dev/null 2>%s/b.err; bash /opt/vp/test.sh %s/o.json >/dev/null 2>&1; tail -3 %s/b.err" % (d, d, d, d)], capture_output=True, text=True)
            try:
                j = json.load(open(d + "/o.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))
                want = base["stable"]
                want = want if isinstance(want, list) else list(want)
                got = set(j.get("passed", []))
                miss = [x for x in want if x not in got]
                out.append("tests: %d missing" % len(miss) if miss else "tests OK")
            except Exception as x:
                out.append("tests? %s %s" % (x, q.stdout[-300:]))
        for c in checks:
            try:
                q = subprocess.run(["python3", "/verif/check.py", c], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d), capture_output=True, text=True, timeout=900)
                last = [l for l in q.stdout.splitlines() if l.startswith(c)]
                if q.returncode != 0:
                    out.append("%s rc %d %s %s" % (c, q.returncode, q.stdout.replace("\n", " | ")[:600], q.stderr[-400:]))
                else:
                    n = last[-1].split()[1] if last else "?"
                    u = [w for w in last[-1].split(",") if "undecided" in w] if last else []
                    out.append("%s ok %s%s" % (c, n, "/" + u[0].split()[0] if u else ""))
            except subprocess.TimeoutExpired:
                out.append(c + " TIMEOUT")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return name, out


if __name__ == "__main__":
    only, build = None, False
    m = json.load(open("/verif/MANIFEST.json"))
    checks = [c["property"] for c in m["checks"]] if "property" in m["checks"][0] else [c["id"] for c in m["checks"]]
    for a in sys.argv[1:]:
        if a == "--build":
            build = True
        elif a.startswith("--only="):
            only = a[7:].split(",")
        elif a.startswith("--check="):
            checks = [x for x in a[8:].split(",") if x]
    todo = [x for x in R if not only or any(x[0].startswith(o) for o in only)]
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for name, out in ex.map(lambda x: one(x[0], x[1], checks, build), todo):
            bad = [o for o in out if " rc " in o or "TIMEOUT" in o or "NOT" in o or "AMB" in o or "missing" in o or "tests?" in o]
            print("%-28s %s" % (name, "QUIET " if not bad else "ALARM "), "; ".join(out if not bad else bad)[:1500], flush=True)
