"""Value graph of C++ remove_cti with the forward model opaque (shared by C10, C11)."""
import front, vg
from terms import *


class Removal:
    def __init__(self, prog, name="remove_cti", forward="add_cti"):
        self.p = prog
        self.f = prog.fn(name)
        self.fwd = prog.fn(forward)
        v = vg.VG(prog, opaque=lambda g: g["q"] == forward,
                  on_call=lambda v, n, g, this, args, s: vg.VOID if g["q"].startswith("print") else None)
        v.fastloops = True
        self.v = v
        self.ret, self.state, self.frame = v.run(self.f)
        self.unresolved = [front.loc(a, n) + " " + c for a, n, c in v.unk]
        self.params = [q["n"] for q in self.f["params"]]
        self.allow = cmp0("eq0", mk("parg", "allow_negative_pixels", "i"), True)

    def isfwd(self, t):
        return t.op == "call" and t.a[0] == self.fwd["id"]

    def rec(self, facts=()):
        t = given(facts, self.ret)
        return t if t.op == "rec" else None

    def settle(self, rec):
        """body of the recurrence, the number of rows of the running estimate being that of its initial value if every step keeps it"""
        trip, bodies, inits = rec.a
        rv = mk("rv", 0)
        n0 = self.v.length(inits[0])
        m = {fn("len", rv).id: n0}
        body = subst(bodies[0], m, {})
        self.v.alias = {rv.id: n0}
        if self.v.length(body) is n0:
            return body
        self.v.alias = {}
        return bodies[0]
