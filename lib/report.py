"""Evidence, known findings and verdicts shared by all checks."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.viol = []          # dicts: key, where, what
        self.counts = {}
        self.samples = []
        self.assume = []
        self.rule = ""
        self.notes = []
        self.explanation = ""
        self.obl = 0
        self.sites = []

    def ok(self, where, what=""):
        """One obligation decided and discharged."""
        self.obl += 1
        self.sites.append({"site": where, "obligation": what} if what else {"site": where})

    def bad(self, key, where, what):
        """One obligation violated. key: stable identity of the finding."""
        self.obl += 1
        for v in self.viol:
            if v["key"] == key and v["where"] == where and v["what"] == what:
                return
        self.viol.append({"key": key, "where": where, "what": what})

    def undecided(self, where, what):
        """a construct the analysis cannot decide: reported in the evidence, never an alarm"""
        self.count("undecided")
        self.notes.append("undecided: %s: %s" % (where, what))

    def check(self, cond, key, where, what):
        if cond:
            self.ok(where, what)
        else:
            self.bad(key, where, what)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", [])]


def finish(r, level="other"):
    kn = [k for k in known() if k["property"] == r.prop]
    listed, new = [], []
    for v in r.viol:
        m = None
        for k in kn:
            if k["key"] == v["key"]:
                m = k
        (listed if m else new).append((v, m))
    cov = dict(r.counts)
    cov["obligations"] = r.obl
    cov["discharged"] = r.obl - len(r.viol)
    cov["rule"] = r.rule
    cov["explanation"] = r.explanation or r.rule
    n = len(r.sites)
    step = max(1, n // 40)
    cov["samples"] = r.sites[::step][:60]
    if r.notes:
        cov["notes"] = r.notes[:40]
    ev = {"property": r.prop, "tier": r.tier, "seed": r.seed, "level": level, "coverage": cov,
          "assumptions": r.assume, "wall_s": round(time.time() - r.t0, 3), "violations": len(new)}
    if new:
        ev["coverage"]["violating_sites"] = [v for v, _ in new]
    if listed:
        ev["coverage"]["known_findings"] = [v for v, _ in listed]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", r.prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d known findings, %d violations, %d undecided" %
          (r.prop, r.obl, r.obl - len(r.viol), len(listed), len(new), r.counts.get("undecided", 0)))
    done = set()
    for v, m in listed:
        if m["key"] not in done:
            done.add(m["key"])
            print("KNOWN-FINDING: property=%s %s: %s" % (r.prop, v["where"], v["what"]))
    if new:
        rp = os.path.join(VERIF, "evidence", r.prop + ".violations.json")
        json.dump([v for v, _ in new], open(rp, "w"), indent=1)
        for v, _ in new:
            print("  at %s\n     %s" % (v["where"], v["what"]))
            print("VIOLATION property=%s replay=%s" % (r.prop, os.path.relpath(rp, VERIF)))
        return 1
    return 0
