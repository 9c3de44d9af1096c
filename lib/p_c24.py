"""C24: the Python package refers only to things that exist."""
import ast

import pytypes


def enclosing(m, line):
    """dotted name of the innermost class / function around the line"""
    best = []

    def visit(node, path):
        nonlocal best
        for k in ast.iter_child_nodes(node):
            inner = path
            if isinstance(k, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                if not k.lineno <= line <= k.end_lineno:
                    continue
                inner = path + [k.name]
                if len(inner) > len(best):
                    best = inner
            visit(k, inner)
    visit(m.tree, [])
    return ".".join(best) or "module"


def run(r):
    p = pytypes.Program()
    r.rule = ("every name read resolves to a binding that reaches it, a module-level definition or a built-in; every attribute of a value of known type (package module, class, "
              "object by construction, annotation, isinstance or duck type) is defined by that type; every call of a package or wrapper function fits its signature")
    r.assume += ["values from outside the package (arguments without annotation, NumPy, astropy, autoarray) are not judged"]
    bad = {}
    for key, m, line, text in p.issues:
        where = "%s:%d" % (m.rel, line)
        r.bad("C24:%s:%s:%s" % (m.name, enclosing(m, line), key), where, text)
        bad[where] = 1
    for m, line, text in p.maybe:
        r.undecided("%s:%d" % (m.rel, line), text)
    for k, n in p.counts.items():
        r.count(k, n)
    r.obl += sum(p.counts.values()) - len(p.issues)
