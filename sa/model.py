"""Model of the program under analysis, built from source text only.

Parses every module of the package, resolves imports (static and the library's
dynamic ones), and models the generated classes: bases, methods bound from the
Methods tree, properties with their getter and setter.
"""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "SciDataTool"


class AnalysisError(Exception):
    """The check cannot decide: an anchor vanished or a file does not parse."""


class FuncInfo:
    __slots__ = ("name", "module", "node", "cls", "qual", "params", "vararg", "kwarg", "kwonly", "defaults", "parent")

    def __init__(self, name, module, node, cls=None, parent=None):
        self.name, self.module, self.node, self.cls, self.parent = name, module, node, cls, parent
        self.qual = module.name + "." + ((cls + ".") if cls else "") + name
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args]
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for p, d in zip(self.params[len(self.params) - len(a.defaults):], a.defaults):
            self.defaults[p] = d
        for p, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[p] = d

    @property
    def file(self):
        return self.module.rel

    def where(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return "%s:%d (%s)" % (self.module.rel, n.lineno, self.name)

    def __repr__(self):
        return "<func %s>" % self.qual


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.base_exprs = node.bases
        self.bases = []  # ClassInfo or dotted external name
        self.methods = {}  # name -> FuncInfo
        self.properties = {}  # name -> (FuncInfo getter, FuncInfo setter)
        self.attrs = {}  # other class attributes -> node

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo = [b for b in c.bases if isinstance(b, ClassInfo)] + todo
        return out

    def find_method(self, name, after=None):
        seen = after is None
        for c in self.mro():
            if seen and name in c.methods:
                return c.methods[name]
            if c is after:
                seen = True
        return None

    def find_property(self, name):
        for c in self.mro():
            if name in c.properties:
                return c.properties[name]
            if name in c.methods or name in c.attrs:
                return None
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def is_sub(self, other):
        return other in self.mro()

    def all_properties(self):
        """name -> owning ClassInfo, declared data properties only"""
        out = {}
        for c in self.mro():
            for p, (g, s) in c.properties.items():
                if s is not None:
                    out.setdefault(p, c)
        return out

    def all_methods(self):
        out = {}
        for c in self.mro():
            for m, f in c.methods.items():
                out.setdefault(m, f)
        return out

    def __repr__(self):
        return "<class %s>" % self.name


class ModuleInfo:
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel, self.tree, self.src = name, path, rel, tree, src
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.imports = {}  # local name -> ("mod", dotted) | ("obj", dotted, name)
        self.functions = {}
        self.classes = {}
        self.globals = {}  # name -> value node (last assignment)
        self.star = []

    def defines(self, name):
        """is the name bound anywhere at module level (loops, handlers, global statements included)"""
        if not hasattr(self, "_bound"):
            self._bound = set()
            todo = list(self.tree.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    self._bound.add(n.name)
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self._bound.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    self._bound |= {a.asname or a.name.split(".")[0] for a in n.names}
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    self._bound.add(n.name)
                todo.extend(ast.iter_child_nodes(n))
            for n in ast.walk(self.tree):
                if isinstance(n, ast.Global):
                    self._bound |= set(n.names)
            self._top = {id(n) for n in self.tree.body}
            for n in self.tree.body:
                if isinstance(n, ast.ClassDef):
                    self._top |= {id(x) for x in n.body}
        return name in self._bound

    def is_top(self, node):
        """a function defined directly in the module or in a class of it"""
        self.defines("")
        return id(node) in self._top

    def package(self):
        return self.name if self.is_pkg else self.name.rpartition(".")[0]


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.classes = {}
        self.funcs = []
        self.parse_files = 0
        self._init_stores = {}
        self._load()
        self._link()

    @classmethod
    def from_sources(cls, sources):
        """model of a few module texts (self-tests of the rules)"""
        self = cls.__new__(cls)
        self.repo, self.modules, self.classes, self.funcs, self.parse_files, self._init_stores = "", {}, {}, [], 0, {}
        for name, src in sources.items():
            tree = ast.parse(src)
            for n in ast.walk(tree):
                for c in ast.iter_child_nodes(n):
                    c._parent = n
            m = ModuleInfo(name, name + ".py", name.replace(".", "/") + ".py", tree, src)
            self.modules[name] = m
            self._scan(m, tree.body)
        self._link()
        return self

    # -- loading -----------------------------------------------------------
    def _load(self):
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisError("package directory %s is missing" % root)
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "GUI") and not x.startswith("."))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.repo)
                mod = rel[:-3].replace(os.sep, ".")
                if mod.endswith(".__init__"):
                    mod = mod[: -len(".__init__")]
                with open(path, "rb") as fh:
                    raw = fh.read()
                src = raw.decode("utf-8-sig")
                try:
                    tree = ast.parse(src, filename=rel)
                except SyntaxError as e:
                    raise AnalysisError("cannot parse %s: %s" % (rel, e))
                self.parse_files += 1
                for n in ast.walk(tree):
                    for c in ast.iter_child_nodes(n):
                        c._parent = n
                m = ModuleInfo(mod, path, rel, tree, src)
                self.modules[mod] = m
                self._scan(m, tree.body)

    def _scan(self, m, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = ("mod", a.name)
                    else:
                        m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._abs(m, st)
                for a in st.names:
                    if a.name == "*":
                        m.star.append(base)
                    else:
                        m.imports[a.asname or a.name] = ("obj", base, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(st.name, m, st)
                m.functions[st.name] = fi
                self.funcs.append(fi)
            elif isinstance(st, ast.ClassDef):
                ci = ClassInfo(st.name, m, st)
                m.classes[st.name] = ci
                self.classes.setdefault(st.name, ci)
            elif isinstance(st, ast.Try):
                self._scan(m, st.body)
                self._scan(m, st.orelse)
                self._scan(m, st.finalbody)
            elif isinstance(st, (ast.If, ast.With, ast.For, ast.While)):
                self._scan(m, st.body)
                self._scan(m, getattr(st, "orelse", []))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.globals[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.globals[st.target.id] = st.value

    def _abs(self, m, st):
        if not st.level:
            return st.module or ""
        parts = m.package().split(".")
        if st.level > 1:
            parts = parts[: -(st.level - 1)]
        if st.module:
            parts.append(st.module)
        return ".".join(parts)

    # -- linking -----------------------------------------------------------
    def _link(self):
        for m in self.modules.values():
            for ci in m.classes.values():
                for b in ci.base_exprs:
                    r = self.resolve_expr(m, b)
                    if r and r[0] == "class":
                        ci.bases.append(r[1])
                    else:
                        ci.bases.append(ast.unparse(b))
        for m in self.modules.values():
            for ci in m.classes.values():
                self._class_body(m, ci, ci.node.body)

    def _class_body(self, m, ci, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(st.name, m, st, cls=ci.name)
                ci.methods[st.name] = fi
                self.funcs.append(fi)
                for d in st.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "property":
                        del ci.methods[st.name]
                        ci.properties[st.name] = (fi, None)
                    elif isinstance(d, ast.Attribute) and d.attr == "setter":
                        old = ci.properties.get(st.name, (None, None))
                        ci.methods.pop(st.name, None)
                        ci.properties[st.name] = (old[0], fi)
            elif isinstance(st, ast.If):
                self._class_body(m, ci, st.body)
                self._class_body(m, ci, st.orelse)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                n, v = st.targets[0].id, st.value
                if isinstance(v, ast.Name):
                    f = ci.methods.get(v.id)
                    if f is None or v.id == n:
                        r = self.resolve_name(m, v.id)
                        f = r[1] if r and r[0] == "func" else f
                    if f is not None:
                        ci.methods[n] = f
                        ci.properties.pop(n, None)
                        ci.attrs.pop(n, None)
                    else:
                        ci.attrs[n] = v
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "property":
                    kw = {k.arg: k.value for k in v.keywords}
                    args = list(v.args)
                    g = args[0] if args else kw.get("fget")
                    s = args[1] if len(args) > 1 else kw.get("fset")
                    if isinstance(g, ast.Lambda):
                        # "method not importable" placeholder
                        if n not in ci.methods:
                            ci.attrs[n] = v
                        continue
                    ci.properties[n] = (self._accessor(m, ci, g), self._accessor(m, ci, s))
                    ci.attrs.pop(n, None)
                else:
                    ci.attrs[n] = v

    def _accessor(self, m, ci, e):
        if isinstance(e, ast.Name):
            if e.id in ci.methods:
                return ci.methods[e.id]
            r = self.resolve_name(m, e.id)
            if r and r[0] == "func":
                return r[1]
        return None

    # -- resolution --------------------------------------------------------
    def resolve_name(self, m, name, _seen=None):
        """('func', FuncInfo) | ('class', ClassInfo) | ('mod', ModuleInfo) | ('ext', dotted) | ('global', ModuleInfo, name) | None"""
        if name in m.functions:
            return ("func", m.functions[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.imports:
            imp = m.imports[name]
            return self.resolve_import(imp, _seen)
        if name in m.globals:
            return ("global", m, name)
        for base in m.star:
            if base in self.modules:
                r = self.resolve_name(self.modules[base], name, _seen)
                if r:
                    return r
        return None

    def resolve_import(self, imp, _seen=None):
        _seen = _seen or set()
        if imp in _seen:
            return None
        _seen = _seen | {imp}
        if imp[0] == "mod":
            if imp[1] in self.modules:
                return ("mod", self.modules[imp[1]])
            return ("ext", imp[1])
        _, base, name = imp
        if base in self.modules:
            r = self.resolve_name(self.modules[base], name, _seen)
            if r:
                return r
            sub = base + "." + name
            if sub in self.modules:
                return ("mod", self.modules[sub])
            return None
        if base.split(".")[0] == PKG:
            return None
        return ("ext", base + "." + name)

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(m, e.value)
            if r is None:
                return None
            return self.member(r, e.attr)
        return None

    def member(self, r, attr):
        if r[0] == "mod":
            x = self.resolve_name(r[1], attr)
            if x:
                return x
            sub = r[1].name + "." + attr
            if sub in self.modules:
                return ("mod", self.modules[sub])
            return None
        if r[0] == "ext":
            return ("ext", r[1] + "." + attr)
        return None

    # -- class sets --------------------------------------------------------
    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisError("class %s not found in the package" % name)
        return c

    def subclasses(self, c):
        return [k for k in self.classes.values() if k.is_sub(c)]

    def data_classes(self):
        """the generated public classes (frozen classes)"""
        fr = self.classes.get("FrozenClass")
        if fr is None:
            raise AnalysisError("FrozenClass not found")
        return [c for c in self.classes.values() if c.is_sub(fr) and c is not fr]

    def field_classes(self):
        nd = self.cls("DataND")
        return [c for c in self.data_classes() if c.is_sub(nd)]

    def axis_classes(self):
        d, nd = self.cls("Data"), self.cls("DataND")
        return [c for c in self.data_classes() if c.is_sub(d) and not c.is_sub(nd) and c.find_method("get_values")]

    def declared(self, ci, name):
        """can an instance of this class have this attribute at all"""
        if name.startswith("__") and name.endswith("__"):
            return True
        if ci.find_property(name) or ci.find_method(name) or ci.find_attr(name) is not None:
            return True
        if any(isinstance(b, str) and b not in ("object",) for c in ci.mro() for b in c.bases):
            return True
        key = ci.name
        if key not in self._init_stores:
            st = set()
            for c in ci.mro():
                f = c.methods.get("__init__")
                if f is not None and f.params:
                    st |= self.self_stores(f, set())
                for g, s in c.properties.values():
                    if s is not None and s.params:
                        st |= self.self_stores(s, set())
            self._init_stores[key] = st
        return name in self._init_stores[key]

    def self_stores(self, f, seen):
        """attributes a method assigns on its first parameter"""
        out = set()
        me = f.params[0]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                out.add(n.attr)
        return out

    def doc_type(self, ci, prop):
        """type given in the documentation of a property, without module path"""
        for c in ci.mro():
            for st in c.node.body:
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == prop and isinstance(st.value, ast.Call):
                    for k in st.value.keywords:
                        if k.arg == "doc" and isinstance(k.value, ast.Constant):
                            for l in k.value.value.splitlines():
                                if l.strip().startswith(":Type:"):
                                    t = l.strip()[6:].strip()
                                    a, b = (t[0], t[-1]) if t[:1] in "[{" else ("", "")
                                    return a + t.strip("[]{}").split(".")[-1] + b
        return None

    def prop_type(self, ci, prop):
        """declared type of a property, from the type check in its setter"""
        p = ci.find_property(prop)
        if p is None or p[1] is None:
            return None
        for n in ast.walk(p[1].node):
            if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) == "check_var" and len(n.args) >= 3:
                if isinstance(n.args[2], ast.Constant):
                    return n.args[2].value
        return None


def docs_types(fi):
    """parameter -> type text from the numpy-style docstring"""
    d = ast.get_docstring(fi.node) or ""
    out = {}
    lines = d.splitlines()
    for i, l in enumerate(lines):
        for p in fi.params + fi.kwonly:
            s = l.strip()
            if s.startswith(p) and s[len(p):].lstrip().startswith(":"):
                out.setdefault(p, s[len(p):].lstrip()[1:].strip())
    # stop parameters described in Returns sections from overriding: first wins
    return out
