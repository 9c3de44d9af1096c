"""C22: conversions between image layouts lose or misplace no pixel."""
import ast
import front, layout, pyx, stencil, vg
from layout import Layout
from terms import *

SIG = {"transpose": "T", "flatten": "F", "load_image_from_txt": "load", "save_image_to_txt": "save"}


def run(r):
    prog = front.program()
    r.rule = ("every copy between a row-of-rows image, a flat buffer and a text stream is a loop nest over the whole image; "
              "the element read at (row, column) is written at (row, column), for transpose at (column, row), a flat buffer holding (row, column) at row * columns + column; "
              "a stream is read and written row by row, each row from its first column, after the number of rows and of columns")
    r.assume += ["images are rectangular", "the core's add_cti returns an image of the shape it was given"]
    seen = {}
    for g in prog.funcs.values():
        for f in (g if isinstance(g, list) else [g]):
            if not f.get("b") or not f.get("q"):
                continue
            if f["q"] in SIG:
                seen[f["q"]] = f
                judge(r, prog, f, SIG[f["q"]])
            elif any(layout.norm(p["ty"]) == "flat" for p in f["params"]) and converts(f):
                seen["flat " + f["q"]] = f
                judge(r, prog, f, "flat")
    for q in SIG:
        if q not in seen:
            r.undecided("src", "no function %s" % q)
    for q, f in seen.items():
        if q.startswith("flat "):
            sizes(r, f, Result.get(f["id"]))
    try:
        f = prog.fn("determine_read_noise_model")
        S = stencil.Stencils(prog, f)
        sizes(r, f, (S.R, S.C))
    except front.AnalysisError as e:
        r.undecided("determine_read_noise_model", str(e))
    if "flat add_cti" not in seen:
        r.undecided("python/arcticpy/src", "no copy between the flat buffer and the image")


Result = {}


def sizes(r, f, shape):
    """the wrapper hands on the numbers of rows and columns of the array it hands on"""
    if not shape or any(z is None or z.op != "parg" for z in shape):
        return r.undecided(f["q"], "parameters holding the size of the image")
    names = [p["n"] for p in f["params"]]
    pos = [names.index(z.a[0]) for z in shape]
    flat = [i for i, p in enumerate(f["params"]) if layout.norm(p["ty"]) == "flat"]
    px = pyx.wrapper()
    for fn_ in px.functions.values():
        for c in ast.walk(fn_):
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == f["q"] and c.func.id in px.externs):
                continue
            where = "%s:%d" % (px.rel, c.lineno)
            if len(c.args) != len(names) or c.keywords:
                r.undecided(where, "arguments of %s" % f["q"])
                continue
            bufs = [c.args[i].args[0].value.id for i in flat if isinstance(c.args[i], ast.Call) and getattr(c.args[i].func, "id", "") == "__addr__"
                    and isinstance(c.args[i].args[0], ast.Subscript) and isinstance(c.args[i].args[0].value, ast.Name)]
            for k, i in enumerate(pos):
                got = extent(c.args[i], fn_)
                what = ("rows", "columns")[k]
                if got is None:
                    r.undecided(where, "number of %s handed to %s" % (what, f["q"]))
                elif got[1] != k:
                    r.bad("C22:size:%s:%s" % (f["q"], what), where, "%s is given shape[%d] of %s as its number of %s" % (f["q"], got[1], got[0], what))
                elif got[0] not in bufs:
                    r.undecided(where, "number of %s handed to %s is that of %s" % (what, f["q"], got[0]))
                else:
                    r.ok(where, "number of %s handed to %s" % (what, f["q"]))


def extent(e, fn_, depth=0):
    """(array, dimension) an expression is the extent of"""
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == "shape" and isinstance(e.value.value, ast.Name) and isinstance(e.slice, ast.Constant):
        k = e.slice.value
        return (e.value.value.id, k + 2 if k < 0 else k)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        if e.func.id == "len" and isinstance(e.args[0], ast.Name):
            return (e.args[0].id, 0)
        if e.func.id in ("int", "__cast__") and e.args:
            return extent(e.args[-1], fn_, depth)
    if isinstance(e, ast.Name) and depth < 4:
        found = []
        for n in ast.walk(fn_):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                if n.value is not None:
                    found.append(extent(n.value, fn_, depth + 1))
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == e.id:
                        found.append(extent(n.value, fn_, depth + 1))
                    elif isinstance(t, ast.Tuple):
                        for j, x in enumerate(t.elts):
                            if isinstance(x, ast.Name) and x.id == e.id:
                                v = n.value
                                if isinstance(v, ast.Attribute) and v.attr == "shape" and isinstance(v.value, ast.Name):
                                    found.append((v.value.id, j))
                                elif isinstance(v, ast.Tuple) and len(v.elts) == len(t.elts):
                                    found.append(extent(v.elts[j], fn_, depth + 1))
                                else:
                                    found.append(None)
        return found[0] if found and all(x == found[0] for x in found) else None
    return None


def converts(f):
    """declares an image of rows and takes a flat buffer"""
    for n in front.walk(f["b"]):
        if n.get("k") == "decl" and any(layout.norm(x.get("ty")) == 2 for x in n["v"]):
            return True
    return False


def judge(r, prog, f, what):
    try:
        L = Layout(prog, f, opaque=lambda g: g is not f and (g.get("cls") is not None or g["q"] == f["q"]))
    except (front.AnalysisError, vg.NotHandled) as e:
        return r.undecided(f["q"], "not modelled: %s" % e)
    ROWS.clear()
    ROWS.update(L.rows)
    C = Copies(r, L, what)
    if what == "load":
        C.load()
    elif what == "save":
        C.save()
    elif what == "F":
        C.flatten()
    else:
        C.copies("T" if what == "T" else "I")
        if what == "flat":
            Result[f["id"]] = C.flatshape(None, None, None, None, None)
    r.count("copies", len(C.found))


ROWS = {}


def canon(t):
    """rectangular images: every row is as long as the first"""
    if t is None:
        return None
    m = {}
    for a in atoms(t, lambda y: y.op == "fn" and y.a[0] == "len" and y.a[1].op == "acc" and len(y.a[1].a[1]) == 1):
        z = ROWS.get(a.a[1].a[0], rowlen(a.a[1].a[0]))
        if z is not a:
            m[a.id] = z
    return subst(t, m, {}) if m else t


def rowlen(name):
    return mk("fn", "len", mk("acc", name, (num(0),)))


class Copies:
    def __init__(self, r, L, what):
        self.r, self.L, self.what = r, L, what
        self.found = []
        self.assigned = {}

    def tag(self, e):
        return front.loc(e["f"], e.get("node"))

    def dims(self, e):
        """shape of the image of rows an event accesses"""
        name = e["name"]
        a, b = e.get("shape") or (None, None)
        if b is None:
            # rows of the same length: the first row of the array
            b = rowlen(name)
        return canon(a), canon(b)

    def trips(self, e):
        return {k.id: canon(t) for k, t in e["loops"]}

    def guards(self, e):
        """conditions on the position other than the loop bounds"""
        ids = {k.id for k, t in e["loops"]}
        own = {cmp0("gt0", sub(t, k), True).id for k, t in e["loops"] if t is not None}
        return [c for c in e["pc"] if c.id not in own and atoms(c, lambda y: y.id in ids)]

    def coords(self, idx, e, cols=None):
        rc = self.coords1([canon(x) for x in idx], e, cols)
        return rc and tuple(canon(x) for x in rc)

    def coords1(self, idx, e, cols=None):
        """(row, column) of an access; a flat index is split by rows of `cols` elements"""
        if len(idx) == 2:
            return idx[0], idx[1]
        x = idx[0]
        if cols is not None:
            li = linear_in(x, cols)
            if li is not None and not occurs(li[1], cols) and li[0] is not num(0):
                q, rem = li
                return q, rem
            return fn("idiv", x, cols), fn("mod", x, cols)
        return None

    def cover(self, rc, e, shape, side):
        """the loops run over every pixel of the shape exactly once: True, False (definitely not), None"""
        T = self.trips(e)
        if any(t is None for t in T.values()):
            return None, "unknown loop"
        R, N = shape
        res, why = True, ""
        used = []
        names = ("row", "column")
        k = rc[0].a[0] if rc[0].op == "fn" and rc[0].a[0] == "idiv" else None
        if rc[0].op == "idiv" or k is not None:
            # one loop over all elements
            args = rc[0].a[1:] if k is not None else rc[0].a
            x = args[0]
            if isinstance(x, tuple):
                x = x[0]
            if x.id in T and len(T) == 1:
                d = val(sub(T[x.id], mul(R, N)))
                if d == 0:
                    return True, ""
                if d is not None:
                    return False, "the loop covers %s of %s elements" % (T[x.id], mul(R, N))
            return None, "one loop over all elements expected"
        for i, n in ((0, R), (1, N)):
            c = rc[i]
            bs = [a for a in atoms(c, lambda y: y.id in T)]
            if len({a.id for a in bs}) != 1:
                return None, "%s %s" % (names[i], c)
            b = bs[0]
            li = linear_in(c, b)
            if li is None or val(li[0]) not in (1, -1):
                return None, "%s %s" % (names[i], c)
            used.append(b.id)
            t = T[b.id]
            lo, hi = li[1], add(li[1], sub(t, num(1)))
            if val(li[0]) == -1:
                lo, hi = sub(li[1], sub(t, num(1))), li[1]
            dl, dh = val(lo), val(sub(hi, sub(n, num(1))))
            if dl == 0 and dh == 0:
                continue
            if dl is not None and dl != 0 or dh is not None and dh != 0:
                res, why = False, "%ss %s to %s of an image with %s" % (names[i], lo, hi, n)
            elif res is True:
                d = sub(hi, sub(n, num(1)))
                other = sub(hi, sub((N, R)[i], num(1)))
                if val(lo) == 0 and val(other) == 0:
                    res, why = False, "%ss 0 to %s, the size in the other direction" % (names[i], hi)
                else:
                    res, why = None, "%ss %s to %s of an image with %s" % (names[i], lo, hi, n)
        if len(set(used)) == 1 and res:
            return False, "the row and the column move together"
        if len(T) > 2 and res:
            return None, "more loops than two"
        return res, why

    # ------------------------------------------------------------ array to array
    def copies(self, mode):
        r, L = self.r, self.L
        for e in L.events:
            if e["what"] != "wr":
                continue
            x = e["args"][-1]
            idx = e["args"][:-1]
            dk = L.kind.get(e["name"])
            if x.op != "acc":
                if dk == 2 and len(idx) <= 2 and not val(x) == 0:
                    r.undecided(self.tag(e), "value written to %s" % e["name"])
                continue
            sk = L.kind.get(x.a[0])
            if 2 not in (dk, sk) or dk == 1 or sk == 1:
                continue
            if dk == 2 and len(idx) != 2 or sk == 2 and len(x.a[1]) != 2:
                r.undecided(self.tag(e), "whole rows copied")
                continue
            self.found.append(e)
            self.copy(e, idx, x, dk, sk, mode)
        if not self.found:
            r.undecided(self.L.f["q"], "no copy of an image found")
        if mode == "I":
            # both directions for the image handed over by Python
            for p in L.f["params"]:
                if layout.norm(p["ty"]) == "flat" and any(e["args"][-1].a[0] == "arr " + p["n"] for e in self.found):
                    self.source = p["n"]

    def read_event(self, x, e):
        for g in self.L.events:
            if g["what"] == "rd" and g["name"] == x.a[0] and tuple(g["args"]) == tuple(x.a[1]) and [k.id for k, t in g["loops"]] == [k.id for k, t in e["loops"]]:
                return g
        return None

    def copy(self, e, idx, x, dk, sk, mode):
        r = self.r
        tag = self.tag(e)
        g = self.read_event(x, e)
        if g is None:
            return r.undecided(tag, "the element read")
        D = self.dims(e) if dk == 2 else None
        S = self.dims(g) if sk == 2 else None
        if e["name"] == x.a[0]:
            return r.undecided(tag, "copy within one array")
        # the shape both sides share
        if mode == "T":
            want = D[::-1] if D else None
            shape = S if S else want
        else:
            shape = None
            for s in (D, S):
                if s is not None and (shape is None or "len(" not in str(s)):
                    shape = s
            if self.flatshape(e, x, idx, dk, sk) is not None and (shape is None or any("len(" in str(z) for z in shape)):
                shape = self.flatshape(e, x, idx, dk, sk)
        N = shape[1]
        dc = self.coords(idx, e, N)
        sc = self.coords(x.a[1], e, N)
        if dc is None or sc is None:
            return r.undecided(tag, "row and column")
        key = "%s:%s" % (self.L.f["q"], e["name"].split("#")[0].split(" ")[-1])
        src = (sc[1], sc[0]) if mode == "T" else sc
        same = [val(sub(a, b)) for a, b in zip(dc, src)]
        if same == [0, 0]:
            r.ok(tag, "%s[%s][%s] is taken from %s[%s][%s]" % (short(e["name"]), dc[0], dc[1], short(x.a[0]), sc[0], sc[1]))
        elif self.affine(dc, e) and self.affine(sc, e):
            r.bad("C22:place:" + key, tag, "%s[%s][%s] is taken from %s[%s][%s]" % (short(e["name"]), dc[0], dc[1], short(x.a[0]), sc[0], sc[1]))
            return
        else:
            r.undecided(tag, "place of the pixel copied")
            return
        gs = self.guards(e)
        twice = [g for g in self.L.events if g["what"] == "wr" and g["name"] == e["name"] and g is not e]
        data = [c for c in gs if atoms(c, lambda y: y.op == "acc")]
        if data and not twice and dk == "flat":
            return r.bad("C22:guard:" + key, tag, "pixels are left as they were unless %s" % str(data[0])[:120])
        for name, rc, sh in (("written", dc, D if D else shape), ("read", sc, S if S else shape)):
            if mode == "I" and shape is not None and sh is not shape and any("len(" in str(z) for z in sh):
                sh = shape
            ok, why = self.cover(rc, e, sh, name)
            if ok is True and gs:
                ok, why = None, "guarded by " + ", ".join(str(c) for c in gs)[:100]
            if ok is None:
                r.undecided(tag, "every pixel %s: %s" % (name, why))
            elif ok:
                r.ok(tag, "every pixel of %s %s once" % (short(e["name"] if name == "written" else x.a[0]), name))
            else:
                r.bad("C22:cover:%s:%s" % (name, key), tag, "not every pixel is %s: %s" % (name, why))

    def flatshape(self, e, x, idx, dk, sk):
        """shape known from the integer parameters the flat side is declared with"""
        for g in self.L.events:
            if g["what"] in ("rd", "wr") and self.L.kind.get(g["name"]) == 2 and g.get("shape") and all(z is not None and z.op == "parg" for z in g["shape"]):
                return g["shape"]
        return None

    def affine(self, rc, e):
        ids = {k.id for k, t in e["loops"]}
        for c in rc:
            for a in atoms(subst(c, {}, {}), lambda y: y.op == "fn" and y.a[0] not in ("idiv", "mod", "len") or y.op in ("acc", "loopout", "rec", "ext")):
                if a.op == "acc" and len(a.a[1]) == 1:
                    continue
                return False
        return True

    # ------------------------------------------------------------ streams
    def order(self, rc, e, tag, key, what):
        """row by row, each row from its first column"""
        ks = [k for k, t in e["loops"]]
        if len(ks) == 2 and len(rc) == 2:
            a, b = linear_in(rc[0], ks[0]), linear_in(rc[1], ks[1])
            if a and b and val(a[0]) == 1 and val(b[0]) == 1:
                return self.r.ok(tag, "%s row by row" % what)
            if atoms(rc[0], lambda y: y.id == ks[1].id) and atoms(rc[1], lambda y: y.id == ks[0].id):
                return self.r.bad("C22:order:" + key, tag, "the image is %s column by column" % what)
            if a and b and -1 in (val(a[0]), val(b[0])):
                return self.r.bad("C22:order:" + key, tag, "the image is %s backwards" % what)
        if len(ks) == 1 and "idiv" in str(rc[0]) and "mod" in str(rc[1]):
            return self.r.ok(tag, "%s row by row" % what)
        self.r.undecided(tag, "order in which the image is " + what)

    def stream(self, e, rc, shape, key, what):
        tag = self.tag(e)
        self.order(rc, e, tag, key, what)
        ok, why = self.cover(rc, e, shape, what)
        if ok is True and self.guards(e):
            ok, why = None, "guarded"
        if ok is None:
            self.r.undecided(tag, "every pixel %s: %s" % (what, why))
        else:
            self.r.check(ok, "C22:cover:" + key, tag, "every pixel is %s once" % what if ok else "not every pixel is %s: %s" % (what, why))

    def flatten(self):
        L, r = self.L, self.r
        es = [e for e in L.events if e["what"] == "append" and e["args"][0].op == "acc" and L.kind.get(e["args"][0].a[0]) == 2]
        if not es:
            ws = [e for e in L.events if e["what"] == "wr" and L.kind.get(e["name"]) == 1 and e["args"][-1].op == "acc" and L.kind.get(e["args"][-1].a[0]) == 2]
            for e in ws:
                x = e["args"][-1]
                g = self.read_event(x, e)
                if g is None or len(x.a[1]) != 2:
                    continue
                self.found.append(e)
                self.copy(e, e["args"][:-1], x, "flat", 2, "I")
            if not ws:
                r.undecided(L.f["q"], "no copy of an image found")
            return
        r.check(len(es) == 1, "C22:twice", self.tag(es[-1]), "one value appended per pixel")
        for e in es[:1]:
            x = e["args"][0]
            g = self.read_event(x, e)
            if len(x.a[1]) != 2 or g is None:
                r.undecided(self.tag(e), "value appended")
                continue
            self.found.append(e)
            self.stream(e, tuple(x.a[1]), self.dims(g), "flatten", "appended")

    def load(self):
        L, r = self.L, self.r
        scans = [e for e in L.events if e["what"] == "io" and e["name"] in ("fscanf", "sscanf")]
        ws = [e for e in L.events if e["what"] == "wr" and L.kind.get(e["name"]) == 2 and e["args"][-1].op == "scan"]
        if not ws:
            return r.undecided(L.f["q"], "no pixel read found")
        for e in ws:
            if len(e["args"]) != 3:
                r.undecided(self.tag(e), "pixel read")
                continue
            self.found.append(e)
            sh = self.dims(e)
            self.stream(e, tuple(e["args"][:2]), sh, "load", "read")
            # the two numbers of the header
            a, b = sh
            if a is not None and a.op == "scan" and b is not None and b.op == "scan" and not a.a[2] and not b.a[2]:
                first = (a.a[0], a.a[1]) < (b.a[0], b.a[1])
                r.check(first, "C22:header:load", self.tag(e), "the first number of the file is the number of rows and the second the number of columns"
                        if first else "the first number of the file is used as the number of columns")
            else:
                r.undecided(self.tag(e), "size of the image read")

    def save(self):
        L, r = self.L, self.r
        out = [e for e in L.events if e["what"] == "io" and e["name"] == "fprintf"]
        px = [e for e in out if any(x.op == "acc" and L.kind.get(x.a[0]) == 2 and len(x.a[1]) == 2 for x in e["args"])]
        if not px:
            return r.undecided(L.f["q"], "no pixel written found")
        r.check(len(px) == 1, "C22:twice:save", self.tag(px[-1]), "one value printed per pixel")
        e = px[0]
        x = [x for x in e["args"] if x.op == "acc"][0]
        g = self.read_event(x, e)
        if g is None:
            return r.undecided(self.tag(e), "pixel written")
        self.found.append(e)
        sh = self.dims(g)
        self.stream(e, tuple(x.a[1]), sh, "save", "written")
        i = L.events.index(e)
        head = [h for h in L.events[:i] if h in out and not h["loops"] and str(h["args"][0]) == str(e["args"][0])]
        vals = [canon(y) for h in head for y in h["args"][2:]]
        if len(vals) == 2:
            if vals[0] is sh[0] and vals[1] is sh[1]:
                r.ok(self.tag(head[0]), "the number of rows, then the number of columns, come first")
            elif vals[0] is sh[1] and vals[1] is sh[0]:
                r.bad("C22:header:save", self.tag(head[0]), "the number of columns is written before the number of rows")
            else:
                r.undecided(self.tag(head[0]), "size of the image written")
        else:
            r.undecided(self.tag(e), "size of the image written")
        # values are kept apart
        inner = [h for h in out if [k.id for k, t in h["loops"]] == [k.id for k, t in e["loops"]]]
        fm = "".join(str(h["args"][1]) for h in inner if len(h["args"]) > 1)
        apart = any(c in fm for c in (" ", "\\n", "\n", "\t", "\\t"))
        r.check(apart, "C22:apart", self.tag(e), "values are kept apart" if apart else "consecutive values are written without anything between them")


def short(n):
    return n.split("#")[0].split(" ")[-1]
