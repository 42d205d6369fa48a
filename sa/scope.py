"""Name resolution inside a function: local imports, simple aliases, module scope."""
import ast

from .model import FuncInfo


def own_nodes(node):
    """nodes of a function or module body without those of nested functions and classes"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            if isinstance(n, ast.Lambda):
                todo = list(ast.iter_child_nodes(n)) + todo
            continue
        todo = list(ast.iter_child_nodes(n)) + todo


class Scope:
    """what a name or dotted expression refers to, seen from one function (or module body)"""

    def __init__(self, prog, module, node=None, outer=None):
        self.p, self.m, self.node, self.outer = prog, module, node, outer
        self.local = {}
        self.alias = {}
        self.bound = set()
        self.counts = {}
        self.globals = set()
        if node is not None and not isinstance(node, ast.Module):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
                self.bound.add(x.arg)
            counts = {}
            for n in own_nodes(node):
                if isinstance(n, ast.Import):
                    for al in n.names:
                        if al.asname:
                            self.local[al.asname] = ("mod", al.name)
                        else:
                            self.local[al.name.split(".")[0]] = ("mod", al.name.split(".")[0])
                elif isinstance(n, ast.ImportFrom):
                    base = prog._abs(module, n)
                    for al in n.names:
                        self.local[al.asname or al.name] = ("obj", base, al.name)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    counts[n.id] = counts.get(n.id, 0) + 1
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    counts[n.name] = counts.get(n.name, 0) + 1
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    counts[n.name] = counts.get(n.name, 0) + 1
            for n in own_nodes(node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    if counts.get(n.targets[0].id) == 1 and isinstance(n.value, (ast.Name, ast.Attribute)):
                        self.alias[n.targets[0].id] = n.value
            self.bound |= set(counts)
            self.counts = counts
            self.globals = {x for n in own_nodes(node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}

    def resolve(self, e, depth=0):
        """('func'|'class'|'mod'|'ext'|'global', ...) or None when it is a local value"""
        if depth > 8:
            return None
        if isinstance(e, ast.Name):
            if e.id in self.local:
                imp = self.local[e.id]
                return self.p.resolve_import(imp)
            if e.id in self.alias:
                return self.resolve(self.alias[e.id], depth + 1)
            if e.id in self.bound:
                return None
            if self.outer is not None:
                return self.outer.resolve(e, depth + 1)
            return self.p.resolve_name(self.m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve(e.value, depth + 1)
            return self.p.member(r, e.attr) if r else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("__import__", "import_module") and e.args and isinstance(e.args[0], ast.Constant):
            n = e.args[0].value
            if n in self.p.modules:
                return ("mod", self.p.modules[n])
            return ("ext", n)
        return None

    def ext(self, e):
        """dotted name of an external object, '' otherwise"""
        r = self.resolve(e)
        return r[1] if r and r[0] == "ext" else ""


def scopes(prog):
    """(FuncInfo-like name, module, node, Scope) of every module body and function, nested ones included"""
    for m in prog.modules.values():
        yield "<module>", m, m.tree, Scope(prog, m, m.tree)

        def visit(node, outer, prefix):
            for n in own_nodes(node):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    s = Scope(prog, m, n, outer)
                    out.append((prefix + n.name, m, n, s))
                    visit(n, s, prefix + n.name + ".")
                elif isinstance(n, ast.ClassDef):
                    visit(n, outer, prefix + n.name + ".")

        out = []
        visit(m.tree, None, "")
        for o in out:
            yield o
