"""P14: every name, attribute and argument used inside the library exists."""
import ast
import builtins
import os
import sys
from multiprocessing import get_context

from sa.alias import Analysis
from sa.model import AnalysisError, Program
from sa.scope import Scope, own_nodes, scopes
from . import effects

TECHNIQUE = "name, import and reaching-definition resolution; class-typed attribute, assignment and call-arity resolution on the alias analysis"
NOTE = (
    "Static: all names, imports, internal attributes and internal calls on all branches. Attributes of numpy, scipy, pandas and matplotlib objects are "
    "resolved at module level only (from the installed sources), not on their instances. Receivers that reach an operation only through an "
    "argument of undocumented type are not judged.")

_S = {}


# ---------------------------------------------------------------- names
def assigned_before_use(fn):
    """names a function can only read before any assignment of them has happened"""
    out = []
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    params |= {x.arg for x in (a.vararg, a.kwarg) if x}
    stores, globs = {}, set()
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if not in_comp_target(n, fn):
                stores.setdefault(n.id, []).append(n)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            globs |= set(n.names)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            stores.setdefault(n.name, []).append(n)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                stores.setdefault((al.asname or al.name).split(".")[0], []).append(n)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            stores.setdefault(n.name, []).append(n)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            stores.setdefault(n.name, []).append(n)
    local = set(stores) - params - globs
    live = {}

    def may(body, env):
        """env: set of names possibly bound; returns set after, or None when unreachable"""
        for st in body:
            if env is None:
                return None
            env = one(st, env)
        return env

    def uses(e, env, skip=()):
        if e is None:
            return env
        env = set(env)
        for n in walk_expr(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local and n.id not in env and not bound_in_comp(n, e):
                out.append(n)
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                env.add(n.target.id)
        return env

    def bind(t, env):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                env.add(n.id)
        return env

    def one(st, env):
        env = set(env)
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            env.add(st.name)
            return env
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            for al in st.names:
                env.add((al.asname or al.name).split(".")[0])
            return env
        if isinstance(st, ast.Assign):
            env = uses(st.value, env)
            for t in st.targets:
                env = bind(t, uses_target(t, env))
            return env
        if isinstance(st, ast.AugAssign):
            env = uses(st.value, env)
            if isinstance(st.target, ast.Name):
                if st.target.id in local and st.target.id not in env:
                    out.append(st.target)
            else:
                env = uses_target(st.target, env)
            return bind(st.target, env)
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                env = uses(st.value, env)
                env = bind(st.target, env)
            return env
        if isinstance(st, ast.If):
            env = uses(st.test, env)
            a, b = may(st.body, env), may(st.orelse, env)
            return b if a is None else (a if b is None else a | b)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            env = uses(st.iter, env)
            inner = bind(st.target, set(env))
            # anything assigned in the body may come from an earlier turn
            for n in st.body:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        inner.add(x.id)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        inner |= {(al.asname or al.name).split(".")[0] for al in x.names}
            may(st.body, inner)
            after = may(st.orelse, inner)
            return inner if after is None else inner | after
        if isinstance(st, ast.While):
            env = uses(st.test, env)
            inner = set(env)
            for n in st.body:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        inner.add(x.id)
            may(st.body, inner)
            after = may(st.orelse, inner)
            return inner if after is None else inner | after
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                env = uses(it.context_expr, env)
                if it.optional_vars is not None:
                    env = bind(it.optional_vars, env)
            return may(st.body, env)
        if isinstance(st, ast.Try) or type(st).__name__ == "TryStar":
            full = set(env)
            for n in st.body:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        full.add(x.id)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        full |= {(al.asname or al.name).split(".")[0] for al in x.names}
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        full.add(x.name)
            r = may(st.body, env)
            outs = []
            if r is not None:
                r = may(st.orelse, r)
                if r is not None:
                    outs.append(r)
            for h in st.handlers:
                h_env = set(full)
                if h.name:
                    h_env.add(h.name)
                x = may(h.body, h_env)
                if x is not None:
                    outs.append(x)
            if not outs:
                may(st.finalbody, full)
                return None
            m = set()
            for o in outs:
                m |= o
            return may(st.finalbody, m)
        if isinstance(st, ast.Return):
            uses(st.value, env)
            return None
        if isinstance(st, ast.Raise):
            uses(st.exc, env)
            return None
        if isinstance(st, (ast.Break, ast.Continue)):
            return None
        if isinstance(st, ast.Delete):
            return env
        if isinstance(st, ast.Match):
            env = uses(st.subject, env)
            full = set(env)
            for c in st.cases:
                e2 = set(env)
                for x in ast.walk(c.pattern):
                    if getattr(x, "name", None):
                        e2.add(x.name)
                r = may(c.body, e2)
                if r is not None:
                    full |= r
            return full
        for f in ("value", "test", "msg"):
            v = getattr(st, f, None)
            if isinstance(v, ast.expr):
                env = uses(v, env)
        return env

    def uses_target(t, env):
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            return uses(t.value, env) if isinstance(t, ast.Attribute) else uses(t.slice, uses(t.value, env))
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                env = uses_target(x, env)
        return env

    may(fn.body, set())
    return out


def walk_expr(e):
    """expression nodes evaluated where the expression stands (not lambda bodies)"""
    todo = [e]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, ast.Lambda):
            todo += list(n.args.defaults)
            continue
        todo += list(ast.iter_child_nodes(n))


def in_comp_target(n, fn):
    p = n
    while p is not fn and p is not None:
        par = getattr(p, "_parent", None)
        if isinstance(par, ast.comprehension) and p is par.target:
            return True
        p = par
    return False


def bound_in_comp(n, top):
    p = n
    while p is not None and p is not top._parent if hasattr(top, "_parent") else p is not None:
        if isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in p.generators:
                for t in ast.walk(g.target):
                    if isinstance(t, ast.Name) and t.id == n.id:
                        return True
        if isinstance(p, ast.Lambda):
            if n.id in [a.arg for a in p.args.args]:
                return True
        p = getattr(p, "_parent", None)
    return False


def undefined_names(prog, name, m, node, sc):
    """names that resolve nowhere"""
    chain = []
    s = sc
    while s is not None:
        chain.append(s)
        s = s.outer
    if any(isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names) and prog._abs(m, x) not in prog.modules for x in ast.walk(m.tree)):
        return
    modnames = set(m.imports) | set(m.functions) | set(m.classes) | set(m.globals) | module_stores(m)
    for base in m.star:
        if base in prog.modules:
            b = prog.modules[base]
            modnames |= set(b.imports) | set(b.functions) | set(b.classes) | set(b.globals) | module_stores(b)
    for n in own_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if hasattr(builtins, n.id) or n.id in modnames or n.id in ("__file__", "__name__", "__class__", "__path__"):
                continue
            if any(n.id in s.bound or n.id in s.local or n.id in s.alias for s in chain):
                continue
            if class_scope(n, n.id):
                continue
            yield n


def class_scope(n, name):
    p = getattr(n, "_parent", None)
    while p is not None:
        if isinstance(p, ast.ClassDef):
            for st in ast.walk(p):
                if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store) and st.id == name:
                    return True
                if isinstance(st, ast.FunctionDef) and st.name == name:
                    return True
            return False
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            if isinstance(p, ast.Lambda) and name in [a.arg for a in p.args.args + p.args.kwonlyargs] + [x.arg for x in (p.args.vararg, p.args.kwarg) if x]:
                return True
            if isinstance(p, ast.FunctionDef):
                return False
        p = getattr(p, "_parent", None)
    return False


def module_stores(m):
    out = set()
    for n in own_nodes(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
    return out


# ---------------------------------------------------------------- imports
SITE = ["/opt/venv/lib"]


class External:
    """module-level names of installed third-party packages, read from their sources"""

    def __init__(self):
        self.roots = []
        for base in SITE:
            if os.path.isdir(base):
                for d in sorted(os.listdir(base)):
                    sp = os.path.join(base, d, "site-packages")
                    if os.path.isdir(sp):
                        self.roots.append(sp)
        self.cache = {}
        self.stdlib = os.path.dirname(os.__file__)

    def find(self, mod):
        rel = mod.replace(".", os.sep)
        for r in self.roots + [self.stdlib]:
            for suf in (".pyi", ".py"):
                p = os.path.join(r, rel + suf)
                if os.path.isfile(p):
                    return p
                p = os.path.join(r, rel, "__init__" + suf)
                if os.path.isfile(p):
                    return p
        return None

    def names(self, mod, seen=()):
        """set of module level names, or None when the source does not tell"""
        if mod in self.cache:
            return self.cache[mod]
        if mod in seen:
            return set()
        p = self.find(mod)
        if p is None:
            self.cache[mod] = None
            return None
        try:
            tree = ast.parse(open(p, encoding="utf-8").read())
        except (SyntaxError, UnicodeDecodeError):
            self.cache[mod] = None
            return None
        out = set()
        ok = True
        pkg = mod if os.path.basename(p).startswith("__init__") else mod.rpartition(".")[0]
        for n in own_nodes(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(n.name)
                if n.name == "__getattr__":
                    ok = os.path.basename(p).endswith(".pyi") and "numpy" in mod
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.Import):
                out |= {(a.asname or a.name).split(".")[0] for a in n.names}
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = pkg.split(".")
                    if n.level > 1:
                        parts = parts[: -(n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == "*":
                        sub = self.names(base, seen + (mod,))
                        if sub is None:
                            ok = False
                        else:
                            out |= sub
                    else:
                        out.add(a.asname or a.name)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "setattr") and isinstance(n.func.value, ast.Call):
                ok = False
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "exec"):
                ok = False
        if os.path.basename(p).startswith("__init__"):
            for f in os.listdir(os.path.dirname(p)):
                b = f.split(".")[0]
                if f.endswith((".py", ".pyi", ".so")) or os.path.isdir(os.path.join(os.path.dirname(p), f)):
                    out.add(b)
        self.cache[mod] = out if ok else None
        return self.cache[mod]

    def exists(self, dotted):
        """True, False or None (unknown) for module.name"""
        mod, _, name = dotted.rpartition(".")
        if not mod:
            return None
        if mod.split(".")[0] in sys.builtin_module_names:
            return None
        ns = self.names(mod)
        if ns is None:
            return None
        return name in ns


def optional_import(n):
    """imports the library itself allows to fail"""
    p = n
    while p is not None:
        par = getattr(p, "_parent", None)
        if isinstance(par, ast.Try) and p in par.body:
            for h in par.handlers:
                t = ast.unparse(h.type) if h.type is not None else ""
                if h.type is None or any(x in t for x in ("ImportError", "ModuleNotFoundError", "Exception")):
                    return True
        if isinstance(par, ast.If) and "TYPE_CHECKING" in ast.unparse(par.test):
            return True
        p = par
    return False


# ---------------------------------------------------------------- guards
def same(a, b):
    return ast.dump(a).replace("ctx=Store()", "ctx=Load()") == ast.dump(b).replace("ctx=Store()", "ctx=Load()")


def guarded(fi, node, attr, classes):
    """is this access under (or after) a test of the class or of the attribute of the same object"""
    recv = node.value
    alike = [recv]
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "copy":
            if same(n.value.func.value, recv):
                alike.append(n.targets[0])
            elif same(n.targets[0], recv):
                alike.append(n.value.func.value)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            if same(n.value, recv):
                alike.append(n.targets[0])
            elif isinstance(recv, ast.Name) and n.targets[0].id == recv.id:
                alike.append(n.value)

    def tests(e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                if n.func.id in ("isinstance", "hasattr", "type", "getattr") and n.args and any(same(n.args[0], r) for r in alike):
                    return True
            if isinstance(n, ast.Attribute) and n.attr == "__class__" and any(same(n.value, r) for r in alike):
                return True
            if isinstance(n, ast.Attribute) and n.attr == "is_pattern" and "DataPattern" in classes:
                return True
            if isinstance(n, ast.Attribute) and n.attr == "is_components" and attr in ("values", "sort_indices"):
                return True
        return False

    p = node
    while p is not None and p is not fi.node:
        par = getattr(p, "_parent", None)
        if isinstance(par, (ast.If, ast.IfExp, ast.While)) and p is not par.test and tests(par.test):
            return True
        if isinstance(par, ast.BoolOp) and any(tests(v) for v in par.values[: par.values.index(p)]):
            return True
        if isinstance(par, ast.comprehension):
            pass
        if isinstance(par, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            if any(tests(c) for g in par.generators for c in g.ifs):
                return True
        if isinstance(par, ast.Try) and p in par.body:
            for h in par.handlers:
                if h.type is None or any(x in ast.unparse(h.type) for x in ("AttributeError", "Exception")):
                    return True
        for fld in ("body", "orelse", "finalbody"):
            blk = getattr(par, fld, None)
            if isinstance(blk, list) and p in blk:
                for st in blk[: blk.index(p)]:
                    if isinstance(st, ast.If) and tests(st.test) and not falls_through(st.body):
                        return True
                    if isinstance(st, ast.Assert) and tests(st.test):
                        return True
        p = par
    return False


def falls_through(body):
    return not (body and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)))


# ---------------------------------------------------------------- driver
def work(e):
    prog = _S["prog"]
    A = Analysis(prog)
    A.conventions = True
    f, env = effects.prepare(prog, e, A)
    A.run(f, env)
    grouped = {}
    for kind, owner, what, fi, m, node, chain in A.issues.values():
        if fi is None:
            continue
        grouped.setdefault((kind, what, fi.qual, id(node)), [fi, m, node, chain, set()])[4].add(owner)
    out = []
    for (kind, what, q, _), (fi, m, node, chain, owners) in grouped.items():
        if kind in ("attribute", "assignment") and guarded(fi, node, what, owners):
            continue
        if kind == "argument" and dynamic_callee(fi, node):
            continue
        out.append((kind, what, q, "%s:%d (%s)" % (m.rel, getattr(node, "lineno", 0), fi.name), tuple(sorted(owners)), m.rel, fi.name,
                    ["%s in %s" % (s[1], s[0]) for s in chain]))
    return e, out, sorted(x.qual for x in A.visited), A.callsites


def dynamic_callee(fi, node):
    """the called function is looked up by a computed name (decided by P17)"""
    if not isinstance(node, ast.Call) or not isinstance(node.func, (ast.Name, ast.Call)):
        return False
    if isinstance(node.func, ast.Call):
        return True
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.func.id for t in n.targets):
            v = n.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "getattr" and not isinstance(v.args[1], ast.Constant):
                return True
    return False


def arity(f, call, bound):
    """why this call does not fit this function, or None"""
    if any(isinstance(a, ast.Starred) for a in call.args):
        star = True
    else:
        star = False
    params = f.params[1:] if bound else list(f.params)
    npos = len([a for a in call.args if not isinstance(a, ast.Starred)])
    if not f.vararg and npos > len(params):
        return "%d positional arguments" % npos
    dstar = any(k.arg is None for k in call.keywords)
    for k in call.keywords:
        if k.arg is not None and k.arg not in params and k.arg not in f.kwonly and not f.kwarg:
            return "unknown keyword %s" % k.arg
        if k.arg in params[:npos]:
            return "%s given twice" % k.arg
    if not star and not dstar:
        given = set(params[:npos]) | {k.arg for k in call.keywords}
        for p in params + f.kwonly:
            if p not in given and p not in f.defaults:
                return "missing %s" % p
    return None


def names_rules(ctx, prog, report):
    ext = External()
    nnames = nimp = next_ = ncalls = 0
    for name, m, node, sc in scopes(prog):
        if isinstance(node, ast.FunctionDef):
            for n in assigned_before_use(node):
                report("name read before any assignment", "%s:%s %s" % (m.rel, name, n.id), "%s:%d (%s)" % (m.rel, n.lineno, name), "local name %s has no value here on any path" % n.id)
        for n in undefined_names(prog, name, m, node, sc):
            report("undefined name", "%s:%s %s" % (m.rel, name, n.id), "%s:%d (%s)" % (m.rel, n.lineno, name), "name %s is not defined" % n.id)
        for n in own_nodes(node):
            if isinstance(n, ast.Name):
                nnames += 1
            if isinstance(n, ast.ImportFrom) and not optional_import(n):
                base = prog._abs(m, n)
                nimp += 1
                for a in n.names:
                    if a.name == "*":
                        continue
                    if base.split(".")[0] == "SciDataTool" or base in prog.modules:
                        if prog.resolve_import(("obj", base, a.name)) is None:
                            report("unresolved import", "%s %s.%s" % (m.rel, base, a.name), "%s:%d (%s)" % (m.rel, n.lineno, name), "%s does not define %s" % (base, a.name))
                    else:
                        next_ += 1
                        if ext.exists(base + "." + a.name) is False:
                            report("unresolved import", "%s %s.%s" % (m.rel, base, a.name), "%s:%d (%s)" % (m.rel, n.lineno, name), "the installed %s does not define %s" % (base, a.name))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                r = sc.resolve(n.value)
                if r and r[0] == "mod":
                    if prog.member(r, n.attr) is None and n.attr not in module_stores(r[1]) and not n.attr.startswith("__"):
                        report("missing attribute", "%s:%s %s.%s" % (m.rel, name, r[1].name, n.attr), "%s:%d (%s)" % (m.rel, n.lineno, name), "module %s has no %s" % (r[1].name, n.attr))
                elif r and r[0] == "ext":
                    # only when the value is itself a module
                    if ext.find(r[1]) is not None:
                        next_ += 1
                        if ext.exists(r[1] + "." + n.attr) is False and not n.attr.startswith("__"):
                            report("missing attribute", "%s:%s %s.%s" % (m.rel, name, r[1], n.attr), "%s:%d (%s)" % (m.rel, n.lineno, name), "the installed %s has no %s" % (r[1], n.attr))
            if isinstance(n, ast.Call):
                r = sc.resolve(n.func)
                tgt = None
                if r and r[0] == "func":
                    tgt, bound = r[1], False
                elif r and r[0] == "class":
                    tgt, bound = r[1].find_method("__init__"), True
                elif isinstance(n.func, ast.Name):
                    for x in own_nodes(node):
                        if isinstance(x, ast.FunctionDef) and x.name == n.func.id:
                            tgt = None
                if tgt is not None:
                    ncalls += 1
                    why = arity(tgt, n, bound)
                    if why:
                        report("call its callee does not accept", "%s:%s -> %s %s" % (m.rel, name, tgt.name, why), "%s:%d (%s)" % (m.rel, n.lineno, name), "%s(): %s" % (tgt.name, why))
    return nnames, nimp, next_, ncalls


BAD = '''
from os import getcwd
import math
def f(x, y=1):
    return undefined_thing + x
def g():
    if late:
        pass
    late = 1
    return late
def h():
    f()
    f(1, z=2)
    f(1, 2, 3)
    math.nosuch(1)
def ok(a, *args, **kw):
    for i in range(3):
        if i:
            print(prev)
        prev = i
    try:
        val = f(a)
    except ValueError as e:
        val = e
    [q for q in args if q]
    return val, (lambda t: t + a)(1)
'''


def selftest(ctx):
    from sa.model import ModuleInfo
    prog = Program.__new__(Program)
    prog.modules, prog.classes, prog.funcs, prog.parse_files, prog.repo, prog._init_stores = {}, {}, [], 0, "", {}
    tree = ast.parse(BAD)
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c._parent = n
    m = ModuleInfo("sample", "sample.py", "sample.py", tree, BAD)
    prog.modules["sample"] = m
    prog._scan(m, tree.body)
    got = []
    names_rules(ctx, prog, lambda rule, key, where, msg: got.append((rule, key.split(" ", 1)[1] if "->" not in key else key.split("-> ")[1])))
    want = {("undefined name", "undefined_thing"), ("name read before any assignment", "late"), ("call its callee does not accept", "f missing x"),
            ("call its callee does not accept", "f unknown keyword z"), ("call its callee does not accept", "f 3 positional arguments")}
    missing = want - set(got)
    extra = {x for x in set(got) - want if x[1] != "math.nosuch"}
    ctx.selftest("names: missing %s, extra %s" % (sorted(missing), sorted(extra)), not missing and not extra)


def run(ctx):
    prog = ctx.prog
    ctx.rule(
        "Every name resolves (function scope, enclosing scopes, module, builtins) and no local is read where no assignment can have reached it; every import from the package and "
        "every module-level attribute of an installed package exists. Every attribute read or assigned on an object of the library is declared for each class the object can have, and every call of a "
        "library function, constructor or method fits its parameters.")
    selftest(ctx)

    def report(rule, key, where, msg, path=()):
        ctx.report(rule, key, where, msg, path)

    a, b, c, d = names_rules(ctx, prog, report)
    ctx.count("names resolved", a)
    ctx.count("imports resolved", b)
    ctx.count("external module attributes resolved", c)
    ctx.count("direct calls matched", d)
    ctx.obligation(a + b + c + d)
    _S["prog"] = prog
    effects._STATE["prog"] = prog
    entries = [("method",) + x for x in effects.public_methods(prog, prog.data_classes())] + [("func",) + x for x in effects.public_functions(prog)]
    for cl in prog.data_classes():
        entries.append(("ctor", cl.name, "__init__"))
        entries += [("setter", cl.name, p) for p in sorted(cl.all_properties())]
    n = max(1, min(8, os.cpu_count() or 1))
    funcs = set()
    RN = {"attribute": "missing attribute", "assignment": "undeclared attribute assigned", "argument": "call its callee does not accept"}
    with get_context("fork").Pool(n) as pool:
        for e, out, visited, cs in pool.map(work, entries, chunksize=1):
            funcs.update(visited)
            ctx.count("call sites resolved", cs)
            for kind, what, q, where, owners, rel, fn, chain in out:
                if kind == "argument":
                    key, msg = "%s:%s -> %s %s" % (rel, fn, owners[0], what), "%s(): %s" % (owners[0], what)
                else:
                    key = "%s:%s .%s of %s" % (rel, fn, what, ",".join(owners))
                    msg = "%s has no attribute %s" % (" / ".join(owners), what)
                ctx.report(RN[kind], key, where, msg, chain + ["reached from %s.%s" % (e[1], e[2])])
    ctx.counts["entry points"] = len(entries)
    ctx.counts["functions analysed"] = len(funcs)
    ctx.obligation(ctx.counts["call sites resolved"])
    ctx.need("names resolved", 8000)
    ctx.need("imports resolved", 300)
    ctx.need("entry points", 440)
    ctx.need("functions analysed", 300)
