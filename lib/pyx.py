"""Cython source as a Python syntax tree: typed parameters become annotations, C declarations
annotated assignments, &x -> __addr__(x), <T>x -> __cast__("T", x); extern blocks are parsed apart."""
import ast, glob, os, re
import front


class Pyx:
    def __init__(self, path):
        self.path = path
        self.rel = os.path.relpath(path, front.REPO)
        src = open(path, newline="").read().replace("\r\n", "\n")
        self.externs = {}      # C name -> dict(params=[(type, name)], ret, header, line, exc)
        self.tree = ast.parse(self.translate(src), filename=path)
        self.functions = {n.name: n for n in ast.walk(self.tree) if isinstance(n, ast.FunctionDef)}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c.parent = n

    def translate(self, src):
        lines = src.split("\n")
        i = 0
        out = list(lines)
        while i < len(lines):
            l = lines[i]
            m = re.match(r"\s*cdef\s+extern\s+from\s+(.*?):\s*(#.*)?$", l)
            if m:
                ind = len(l) - len(l.lstrip())
                j = i + 1
                while j < len(lines) and (not lines[j].strip() or len(lines[j]) - len(lines[j].lstrip()) > ind):
                    j += 1
                self.extern(lines[i + 1:j], i + 2, m.group(1))
                for k in range(i, j):
                    out[k] = ""
                i = j
                continue
            if re.match(r"\s*(from\s+\S+\s+)?cimport\b", l):
                out[i] = re.match(r"\s*", l).group(0) + "pass"
            i += 1
        s = "\n".join(out)
        s = self.defs(s)
        s = re.sub(r"(?m)^([ \t]*)cdef[ \t]+(?!class|extern)([^\n]*)$", self.cdecl, s)
        # address-of: unary & after an operator, bracket or comma
        s = self.unary(s)
        return s

    def cdecl(self, m):
        t, init, d = m.group(2), "", 0
        for i, c in enumerate(t):
            if c in "([":
                d += 1
            elif c in ")]":
                d -= 1
            elif c == "=" and d == 0:
                t, init = t[:i], " =" + t[i + 1:]
                break
        q = re.match(r"(.*[\s\*\]])(\w+)\s*$", re.sub(r"#.*", "", t))
        if not q:
            return m.group(1) + "pass"
        return "%s%s: %r%s" % (m.group(1), q.group(2), q.group(1).strip(), init)

    def unary(self, s):
        out, i, prev = [], 0, ""
        while i < len(s):
            c = s[i]
            if c in "\"'":
                q = s[i:i + 3] if s[i:i + 3] in ('"""', "'''") else c
                j = s.find(q, i + len(q))
                while j > 0 and s[j - 1] == "\\":
                    j = s.find(q, j + 1)
                j = len(s) if j < 0 else j + len(q)
                out.append(s[i:j])
                prev = "x"
                i = j
                continue
            if c == "#":
                j = s.find("\n", i)
                j = len(s) if j < 0 else j
                out.append(s[i:j])
                i = j
                continue
            if c == "&" and s[i:i + 2] != "&&" and (prev in "(,=[:" or prev == ""):
                j = self.primary(s, i + 1)
                out.append("__addr__(" + s[i + 1:j] + ")")
                prev = ")"
                i = j
                continue
            if c == "<" and (prev in "(,=[:" or prev == ""):
                m = re.match(r"<\s*([\w \.\*]+?)\s*>\s*", s[i:])
                if m:
                    st = i + m.end()
                    j = self.primary(s, st)
                    out.append("__cast__(%r, %s)" % (m.group(1), self.unary(s[st:j])))
                    prev = ")"
                    i = j
                    continue
            out.append(c)
            if not c.isspace():
                prev = c
            i += 1
        return "".join(out)

    @staticmethod
    def primary(s, i):
        while i < len(s) and s[i] == " ":
            i += 1
        if i < len(s) and s[i] == "&":
            i += 1
        while i < len(s):
            if s[i].isalnum() or s[i] in "_.":
                i += 1
            elif s[i] in "[(":
                d = 0
                while i < len(s):
                    if s[i] in "[(":
                        d += 1
                    elif s[i] in "])":
                        d -= 1
                        if d == 0:
                            i += 1
                            break
                    i += 1
            else:
                break
        return i

    @staticmethod
    def splitargs(t):
        out, d, cur = [], 0, ""
        for c in t:
            if c in "([{":
                d += 1
            elif c in ")]}":
                d -= 1
            if c == "," and d == 0:
                out.append(cur)
                cur = ""
            else:
                cur += c
        if cur.strip():
            out.append(cur)
        return out

    def defs(self, s):
        out, pos = [], 0
        for m in re.finditer(r"(?m)^([ \t]*)(?:cpdef|cdef(?:\s+inline)?|def)\s+(?:([\w\.\[\]\*, =]+?)\s+)?(\w+)\s*\(", s):
            if m.start() < pos:
                continue
            i, d = m.end() - 1, 0
            while i < len(s):
                if s[i] == "#":
                    i = s.find("\n", i)
                    continue
                if s[i] in "([":
                    d += 1
                elif s[i] in ")]":
                    d -= 1
                    if d == 0:
                        break
                i += 1
            body = s[m.end():i]
            k = s.find(":", i)
            # keep line structure: handle parameters line by line
            clean = re.sub(r"#[^\n]*", "", body)
            args = [self.param(a) for a in self.splitargs(clean)]
            if not re.match(r"\s*$", s[i + 1:k]) and "except" not in s[i + 1:k] and "->" not in s[i + 1:k] and "nogil" not in s[i + 1:k]:
                continue
            out.append(s[pos:m.start()])
            out.append("%sdef %s(%s):" % (m.group(1), m.group(3), ",".join(args)))
            pos = k + 1
        out.append(s[pos:])
        return "".join(out)

    def param(self, a):
        nl = "\n" * a.count("\n")
        t = a.strip()
        if not t or t.startswith("*"):
            return nl + t
        dflt = ""
        d = 0
        for i, c in enumerate(t):
            if c in "([":
                d += 1
            elif c in ")]":
                d -= 1
            elif c == "=" and d == 0:
                t, dflt = t[:i].strip(), "=" + t[i + 1:]
                break
        m = re.match(r"(?s)(.*[\s\*\]])(\w+)$", t)
        if m:
            ty = " ".join(m.group(1).split())
            return "%s%s: %r%s" % (nl, m.group(2), ty, dflt)
        return nl + t + dflt

    def extern(self, lines, first, header):
        txt = "\n".join(re.sub(r"#.*", "", l) for l in lines)
        for m in re.finditer(r"(?m)^[ \t]*(?:cdef\s+)?([\w \.\*&<>]+?[\s\*&])(\w+)\s*\(", txt):
            i, d = m.end() - 1, 0
            while i < len(txt):
                if txt[i] == "(":
                    d += 1
                elif txt[i] == ")":
                    d -= 1
                    if d == 0:
                        break
                i += 1
            ps = []
            for a in self.splitargs(txt[m.end():i]):
                t = " ".join(a.split())
                if not t:
                    continue
                q = re.match(r"(.*[\s\*&])(\w+)$", t)
                ps.append((q.group(1).strip(), q.group(2)) if q else (t, None))
            tail = txt[i + 1:].split("\n")[0]
            self.externs[m.group(2)] = dict(params=ps, ret=m.group(1).strip(), header=header.strip("\"' "), line=first + txt[:m.start()].count("\n"),
                                            exc="except" in tail)


def wrapper():
    fs = sorted(glob.glob(front.REPO + "/python/**/*.pyx", recursive=True))
    if not fs:
        raise front.AnalysisError("no Cython source found")
    try:
        return Pyx(fs[0])
    except SyntaxError as e:
        raise front.AnalysisError("Cython source not understood: %s" % e)
