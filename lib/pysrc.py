"""The Python package's sources as syntax trees."""
import ast, os
import front

PKG = "python/arcticpy"


class Module:
    def __init__(self, path):
        self.path = path
        self.rel = os.path.relpath(path, front.REPO)
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.src = open(path, encoding="utf-8").read()
        try:
            self.tree = ast.parse(self.src)
        except SyntaxError as e:
            raise front.AnalysisError("%s does not parse: %s" % (self.rel, e))
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c.parent = n

    def function(self, name):
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return n
        raise front.AnalysisError("anchor vanished: %s has no function %s" % (self.rel, name))

    def cls(self, name):
        for n in self.tree.body:
            if isinstance(n, ast.ClassDef) and n.name == name:
                return n
        return None


def modules():
    d = os.path.join(front.REPO, PKG)
    return {os.path.splitext(f)[0]: Module(os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.endswith(".py")}


def module(name):
    p = os.path.join(front.REPO, PKG, name + ".py")
    if not os.path.exists(p):
        raise front.AnalysisError("anchor vanished: " + PKG + "/" + name + ".py")
    return Module(p)
