"""Interprocedural alias, write-effect and provenance analysis.

Abstract interpretation of function bodies over a points-to domain.  Locals are
flow sensitive, the heap is flow insensitive and only grows; calls are analysed
by target and abstract arguments (call strings of length 2 name allocations).
An abstract value (AV) is a frozenset of atoms:

  ('c', typename, value)     known constant
  ('k', kind, src)           unknown scalar, src = provenance labels
  ('l', Loc)                 reference to a heap location
  ('f', FuncInfo, self|None) function / bound method     ('nf', FuncInfo, env)
  ('cls', ClassInfo) ('mod', ModuleInfo) ('ext', dotted) ('extm', atom, name)
  ('super', atom, ClassInfo) ('lam', node, env, frame) ('anycls',) ('top',)

Locations reachable from the analysed entry (receiver, arguments), default
argument values and module level tables carry a root path ("self.values",
"arg:axis_data", "default:f.p", "table:m.x"); every write to a location with a
root is recorded as an event with its site and call chain.
"""
import ast
import sys

from .model import AnalysisError, ClassInfo, FuncInfo, docs_types

sys.setrecursionlimit(20000)

EMPTY = frozenset()
WIDE = frozenset(["*"])
TOP = frozenset([("top",)])
NONE = frozenset([("c", "NoneType", None)])


def const(v):
    return frozenset([("c", type(v).__name__, v)])


TRACK = [False]


def scal(kind, src=EMPTY):
    if src and not TRACK[0]:
        src = [".symbol" for x in src if x.endswith(".symbol")] + [".name" for x in src if x.endswith(".name")] if kind == "str" else EMPTY
        if len(set(src)) > 1:
            src = EMPTY
    return frozenset([("k", kind, frozenset(src))])


class Loc:
    __slots__ = ("key", "kind", "cls", "root", "fields", "elems", "keys", "src", "ndim", "uid", "name")
    _n = 0

    def __init__(self, key, kind, cls=None, root=None, ndim=None):
        Loc._n += 1
        self.uid = Loc._n
        self.key, self.kind, self.cls, self.root, self.ndim = key, kind, cls, root, ndim
        self.fields, self.keys = {}, {}
        self.elems = EMPTY
        self.src = set()

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.cls.name if self.cls else "", self.root or self.uid)


VIEW_FUNCS = set(
    "squeeze reshape ravel transpose swapaxes moveaxis rollaxis atleast_1d atleast_2d atleast_3d asarray asanyarray "
    "ascontiguousarray asfortranarray broadcast_to expand_dims real imag flip fliplr flipud rot90 split array_split vsplit "
    "hsplit dsplit diagonal require broadcast_arrays real_if_close".split()
)
VIEW_METHODS = set("squeeze reshape ravel transpose swapaxes view diagonal".split())
ARRAY_MUT_METHODS = set("sort fill resize put itemset partition setfield setflags byteswap".split())
LIST_MUT = set("append extend insert remove pop clear sort reverse".split())
DICT_MUT = set("pop popitem clear update setdefault".split())
SET_MUT = set("add discard remove pop clear update difference_update intersection_update symmetric_difference_update".split())
NP_MUT_ARG0 = set("copyto put place putmask fill_diagonal put_along_axis".split())

KIND_TYPES = {
    "ndarray": "array", "array": "array", "list": "list", "dict": "dict", "str": "str", "int": "int", "float": "float",
    "bool": "bool", "tuple": "tuple", "complex": "complex", "set": "set",
}


def origin(a):
    """protected receivers are never analysed together with fresh ones, nor the object with an argument"""
    if a and a[0] == "l" and a[1].root:
        return a[1].root.split(".")[0].split("[")[0]
    return None


class Memo:
    __slots__ = ("ret", "round", "args")

    def __init__(self):
        self.ret, self.round, self.args = EMPTY, -1, {}


class Frame:
    __slots__ = ("fi", "ctx", "chain", "rets", "loops", "trys", "module", "handlers")

    def __init__(self, fi, ctx, chain, module):
        self.fi, self.ctx, self.chain, self.module = fi, ctx, chain, module
        self.rets = EMPTY
        self.loops, self.trys = [], []
        self.handlers = []


class Analysis:
    MAXCONST = 10

    def __init__(self, prog, k=1, track=False):
        self.p = prog
        self.K = k
        self.conventions = False
        self.track = TRACK[0] = track  # keep full provenance of scalars
        self.heap = {}
        self.memo = {}
        self.events = {}
        self.round = 0
        self.changed = False
        self.globals = {}
        self.defaults = {}
        self.visited = set()  # functions analysed
        self.callsites = 0
        self.calls = {}  # (fi.qual, node) -> {callee qual: merged args}
        self.entry_classes = {}
        self.depth = 0
        self.store_log = {}
        self.record_calls = None  # optional callback(frame, node, callee FuncInfo|ClassInfo|dotted, argmap)
        self.ctor_log = {}
        self.issues = {}  # attributes, arguments and assignments an internal object or function does not accept

    # ------------------------------------------------------------------ heap
    def alloc(self, kind, node, ctx, sub="", cls=None, ndim=None):
        if kind == "array" and not self.track and not (ctx and ctx[0] in ("default", "global")):
            key = ("fresh array", ndim)  # fresh arrays need no identity unless provenance is tracked
        else:
            key = (id(node), sub, ctx, kind, cls.name if cls else None)
        l = self.heap.get(key)
        if l is None:
            l = self.heap[key] = Loc(key, kind, cls, ndim=ndim)
            self.changed = True
        return l

    def protected(self, kind, root, cls=None, ndim=None):
        key = ("root", root, kind, cls.name if cls else None)
        l = self.heap.get(key)
        if l is None:
            l = self.heap[key] = Loc(key, kind, cls, root, ndim)
            self.changed = True
        return l

    def add(self, cur, new):
        if new <= cur:
            return cur, False
        u = cur | new
        wid = {a[1] for a in u if a[0] == "k" and "*" in a[2]}
        cs = [a for a in u if a[0] == "c" and a[2] is not None and a[1] != "bool"]
        if len(cs) > self.MAXCONST or (wid and any(c[1] in wid for c in cs)):
            if len(cs) > self.MAXCONST:
                wid = wid | {a[1] for a in cs}
            u = frozenset(a for a in u if not (a[0] == "c" and a[1] in wid)) | frozenset(("k", k, WIDE) for k in wid)
            if u == cur:
                return cur, False
        return u, True

    def join(self, a, b):
        return self.add(a, b)[0]

    def wfield(self, loc, name, av):
        cur = loc.fields.get(name, EMPTY)
        u, ch = self.add(cur, av)
        if ch:
            loc.fields[name] = u
            self.changed = True

    def welems(self, loc, av):
        u, ch = self.add(loc.elems, av)
        if ch:
            loc.elems = u
            self.changed = True

    def wkey(self, loc, k, av):
        cur = loc.keys.get(k, EMPTY)
        u, ch = self.add(cur, av)
        if ch or k not in loc.keys:
            loc.keys[k] = u
            self.changed = True

    def wsrc(self, loc, src):
        if not src <= loc.src:
            loc.src |= src
            self.changed = True

    def event(self, loc, what, node, fr):
        if loc.root is None:
            return
        k = (loc.root + what[1], fr.fi.module.rel if fr.fi else "", getattr(node, "lineno", 0), what[0])
        if fr.fi and fr.fi.name.startswith("_set_") and fr.chain:
            k += (fr.chain[-1][1],)
        if k not in self.events:
            self.events[k] = dict(
                path=loc.root + what[1], op=what[0], loc=loc,
                func=fr.fi.qual if fr.fi else "<module>",
                site="%s:%d (%s)" % (fr.module.rel, getattr(node, "lineno", 0), fr.fi.name if fr.fi else "<module>"),
                chain=fr.chain, value=what[2] if len(what) > 2 else EMPTY, cls=loc.cls.name if loc.cls else loc.kind,
                attr=what[1],
            )
        elif len(what) > 2:
            self.events[k]["value"] = self.events[k]["value"] | what[2]

    # ----------------------------------------------------- protected structure
    def from_type(self, typ, root, cls=None, prop=None):
        """abstract value of a property of declared type typ at root"""
        if typ is None:
            return TOP
        if typ in ("str", "int", "float", "bool", "complex"):
            return scal(typ, [root]) | NONE if typ not in ("bool",) else scal("bool", [root])
        if typ == "ndarray":
            nd = None
            if cls is not None and cls in self.p.axis_classes():
                nd = 1
            return frozenset([("l", self.protected("array", root, ndim=nd))]) | NONE
        if typ == "list":
            l = self.protected("list", root)
            l.elems = l.elems | scal("num", [root])
            return frozenset([("l", l)]) | NONE
        if typ == "dict":
            l = self.protected("dict", root)
            if ("?",) not in l.keys:
                l.keys[("?",)] = scal("num", [root])
            return frozenset([("l", l)]) | NONE
        if typ[0] in "[{":
            base = self.p.cls(typ[1:-1])
            l = self.protected("list" if typ[0] == "[" else "dict", root)
            el = set()
            for c in self.concrete(base):
                el.add(("l", self.protected("inst", root + "[]", cls=c)))
            if typ[0] == "[":
                l.elems = l.elems | el
            elif ("?",) not in l.keys:
                l.keys[("?",)] = frozenset(el)
                if base.name == "Normalization" and self.conventions:
                    # by convention of the library these two entries have a fixed kind
                    for key, cn in (("ref", "Norm_ref"), ("A-weight", "Norm_vector")):
                        if cn in self.p.classes:
                            l.keys[("c", key)] = frozenset(x for x in el if x[1].cls is self.p.classes[cn])
            return frozenset([("l", l)]) | NONE
        if typ == "function":
            return TOP
        if typ in self.p.classes:
            return frozenset(("l", self.protected("inst", root, cls=c)) for c in self.concrete(self.p.cls(typ)))
        return TOP

    def concrete(self, base):
        p = self.p
        if base.name == "Data":
            return p.axis_classes()
        out = [c for c in p.data_classes() if c.is_sub(base)]
        if base.name == "Normalization":
            out = [c for c in out if c is not base]
        return out

    def read_field(self, loc, name):
        av = loc.fields.get(name)
        if av is not None:
            if loc.root is None or loc.fields.get("@init:" + name):
                return av
        if loc.root is not None and loc.kind == "inst":
            if name == "parent":
                return NONE
            prop = name[1:] if name.startswith("_") else None
            if prop and loc.cls and loc.cls.find_property(prop):
                typ = self.p.prop_type(loc.cls, prop)
                v = self.from_type(typ, loc.root + "." + prop, cls=loc.cls, prop=prop)
                if prop == "vector" and loc.cls.name == "Norm_vector":
                    v = frozenset([("l", self.protected("array", loc.root + ".vector", ndim=1))])
                loc.fields[name] = v | loc.fields.get(name, EMPTY)
                loc.fields["@init:" + name] = EMPTY | {1}
                return loc.fields[name]
        return av if av is not None else EMPTY

    # ------------------------------------------------------------- provenance
    def prov(self, av, depth=3, seen=None):
        out = set()
        seen = seen if seen is not None else set()
        for a in av:
            if a[0] == "k":
                out |= a[2]
            elif a[0] == "l":
                l = a[1]
                if l.uid in seen:
                    continue
                seen.add(l.uid)
                if l.root:
                    out.add(l.root)
                    continue
                out |= l.src
                if depth > 0 and l.kind in ("list", "tuple", "dict", "set"):
                    for x in [l.elems] + list(l.keys.values()) + list(l.fields.values()):
                        out |= self.prov(x, depth - 1, seen)
            elif a[0] == "extm":
                out |= self.prov(frozenset([a[1]]), depth, seen)
        return frozenset(out)

    # ---------------------------------------------------------------- entries
    def run(self, fi, env, max_rounds=15, chain=None):
        """analyse fi with the given parameter values to a fixpoint; returns AV"""
        ret = EMPTY
        for _ in range(max_rounds):
            self.round += 1
            self.changed = False
            self.issues = {}
            ret = self.invoke(fi, env, (), chain or (), None)
            if not self.changed:
                break
        else:
            self.unstable = True
        return ret

    def entry_env(self, fi, self_loc=None, overrides=None):
        env = {}
        docs = docs_types(fi)
        params = list(fi.params)
        if self_loc is not None and params:
            env[params.pop(0)] = frozenset([("l", self_loc)])
        for p in params + fi.kwonly:
            if overrides and p in overrides:
                env[p] = overrides[p]
                continue
            env[p] = self.param_value(fi, p, docs.get(p, ""))
        if fi.vararg:
            l = self.protected("tuple", "arg:*" + fi.vararg)
            d = docs.get(fi.vararg, docs.get("*" + fi.vararg, ""))
            l.elems = scal("str", ["arg:" + fi.vararg])
            env[fi.vararg] = frozenset([("l", l)])
        if fi.kwarg:
            l = self.protected("dict", "arg:**" + fi.kwarg)
            l.root = None
            env[fi.kwarg] = frozenset([("l", l)])
        return env

    def param_value(self, fi, p, doc):
        root = "arg:" + p
        d = fi.defaults.get(p)
        out = EMPTY
        low = doc.lower()
        if d is not None:
            out |= self.default_value(fi, p)
        kind_known = False
        if isinstance(d, ast.Constant) and d.value is not None and not isinstance(d.value, bool):
            if isinstance(d.value, str):
                return out | scal("str", [root])
            if isinstance(d.value, (int, float)) and d.value != -1:
                return out | scal(type(d.value).__name__, [root])
        if isinstance(d, ast.Constant) and isinstance(d.value, bool):
            return frozenset([("c", "bool", True), ("c", "bool", False)])
        if p in ("axis_data",):
            l = self.protected("dict", root)
            l.keys[("?",)] = frozenset([("l", self.protected("array", root + "[]", ndim=1))])
            return out | frozenset([("l", l)])
        if p in ("data_list", "data") or "data object" in low or "list of data" in low:
            els = frozenset(("l", self.protected("inst", root + "[]", cls=c)) for c in self.p.field_classes())
            if p == "data_list" or "list" in low:
                l = self.protected("list", root)
                l.elems = l.elems | els
                return out | frozenset([("l", l)])
            return out | frozenset(("l", self.protected("inst", root, cls=c)) for c in self.p.field_classes())
        if "list of" in low and "requestedaxis" in low.replace(" ", "") or p in ("axes_list", "axes_list_requested"):
            l = self.protected("list", root)
            l.elems = l.elems | frozenset([("l", self.protected("inst", root + "[]", cls=self.p.cls("RequestedAxis")))])
            return out | frozenset([("l", l)])
        for cn in sorted(self.p.classes, key=len, reverse=True):
            c = self.p.classes[cn]
            if cn in doc.replace(",", " ").split() and c in self.p.data_classes():
                return out | frozenset(("l", self.protected("inst", root, cls=x)) for x in self.concrete(c))
        if "ndarray" in low or "array" in low or "matrix" in low:
            if "list of" in low:
                l = self.protected("list", root)
                l.elems = l.elems | frozenset([("l", self.protected("array", root + "[]"))])
                out |= frozenset([("l", l)])
            else:
                out |= frozenset([("l", self.protected("array", root))])
            if "list" in low:
                l = self.protected("list", root)
                l.elems = l.elems | frozenset([("l", self.protected("any", root + "[]"))])
                out |= frozenset([("l", l)])
            kind_known = True
        elif low.startswith("list") or " list" in low or isinstance(d, (ast.List,)):
            l = self.protected("list", root)
            l.elems = l.elems | frozenset([("l", self.protected("any", root + "[]"))])
            out |= frozenset([("l", l)])
            kind_known = True
        elif low.startswith("dict") or " dict" in low or isinstance(d, ast.Dict):
            l = self.protected("dict", root)
            l.keys[("?",)] = frozenset([("l", self.protected("any", root + "[]"))])
            out |= frozenset([("l", l)])
            kind_known = True
        elif low.startswith(("str", "string")):
            out |= scal("str", [root])
            kind_known = True
        elif low.startswith(("float", "int", "bool", "double", "integer")):
            out |= scal("num", [root])
            kind_known = True
        if not kind_known:
            out |= frozenset([("l", self.protected("any", root))])
        return out

    def default_value(self, fi, p):
        key = (fi.qual, p)
        if key not in self.defaults:
            self.defaults[key] = EMPTY
            fr = Frame(None, ("default", fi.qual, p), (), fi.module)
            av = self.ev(fi.defaults[p], {}, fr)
            self.mark_root(av, "default:%s.%s" % (fi.name, p))
            self.defaults[key] = av
        return self.defaults[key]

    def mark_root(self, av, root, depth=4):
        for a in av:
            if a[0] == "l" and a[1].root is None and depth > 0:
                a[1].root = root
                for x in [a[1].elems] + list(a[1].keys.values()) + list(a[1].fields.values()):
                    self.mark_root(x, root + "[]", depth - 1)

    def global_value(self, m, name):
        key = (m.name, name)
        if key not in self.globals:
            self.globals[key] = EMPTY
            fr = Frame(None, ("global", m.name, name), (), m)
            node = m.globals[name]
            av = self.ev(node, {}, fr)
            self.mark_root(av, "table:%s.%s" % (m.name, name))
            self.globals[key] = av
        return self.globals[key]

    # ------------------------------------------------------------------ calls
    def invoke(self, fi, env, ctx, chain, node, bound=True):
        names = fi.params + fi.kwonly + ([fi.vararg] if fi.vararg else []) + ([fi.kwarg] if fi.kwarg else [])
        if bound and names:
            first = env.get(names[0], EMPTY)
        else:
            # plain functions: never merge a call on protected data with a call on fresh data
            first = frozenset(a for n in names for a in env.get(n, EMPTY) if a[0] == "l" and a[1].root)
            if len(first) > 6:
                first = None
        key = (fi.qual, ctx, first)
        m = self.memo.get(key)
        if m is None:
            m = self.memo[key] = Memo()
        grown = False
        for n in names:
            u, ch = self.add(m.args.get(n, EMPTY), env.get(n, EMPTY))
            if ch or n not in m.args:
                m.args[n] = u
                grown = True
        if grown:
            self.changed = True
        elif m.round == self.round:
            return m.ret
        env = dict(m.args)
        if self.depth > 60:
            return TOP
        m.round = self.round
        self.visited.add(fi)
        fr = Frame(fi, ctx, chain, fi.module)
        self.depth += 1
        try:
            out = self.block(fi.node.body, dict(env), fr)
        finally:
            self.depth -= 1
        ret = fr.rets
        if out is not None:
            ret = ret | NONE
        u, ch = self.add(m.ret, ret)
        if ch:
            m.ret = u
            self.changed = True
        return m.ret

    def bind(self, fi, selfav, pos, kws, starpos, starkw, fr, node):
        """map call arguments to parameters"""
        env = {}
        params = list(fi.params)
        args = list(pos)
        if selfav is not None:
            args = [selfav] + args
        extra = []
        for i, a in enumerate(args):
            if i < len(params):
                env[params[i]] = a
            else:
                extra.append(a)
        used = len(args)
        if starpos is not None:
            for prm in params[used:]:
                if prm not in kws:
                    if fi.vararg and prm in fi.defaults:
                        continue
                    env[prm] = env.get(prm, EMPTY) | starpos
            extra.append(starpos)
        kwextra = {}
        if extra and not fi.vararg and starpos is None:
            self.issue("argument", fi.name, "%d positional arguments" % len(pos), node, fr)
        for k, v in kws.items():
            if k in params or k in fi.kwonly:
                if k in env and starpos is None:
                    self.issue("argument", fi.name, "%s given twice" % k, node, fr)
                env[k] = v
            elif not fi.kwarg and any(kw.arg == k for kw in getattr(node, "keywords", ())):
                self.issue("argument", fi.name, "unknown keyword %s" % k, node, fr)
                kwextra[k] = v
            else:
                kwextra[k] = v
        if fi.vararg:
            l = self.alloc("tuple", node, fr.ctx, "va" + fi.qual)
            for e in extra:
                self.welems(l, e)
            env[fi.vararg] = frozenset([("l", l)])
        if fi.kwarg:
            l = self.alloc("dict", node, fr.ctx, "kw" + fi.qual)
            for k, v in kwextra.items():
                self.wkey(l, ("c", k), v)
            if starkw is not None:
                self.wkey(l, ("?",), starkw)
            env[fi.kwarg] = frozenset([("l", l)])
        for prm in params + fi.kwonly:
            if prm not in env:
                if starkw is not None:
                    env[prm] = starkw | (self.default_value(fi, prm) if prm in fi.defaults else EMPTY)
                elif prm in fi.defaults:
                    env[prm] = self.default_value(fi, prm)
                else:
                    if starpos is None and not any(kw.arg is None for kw in getattr(node, "keywords", ())):
                        self.issue("argument", fi.name, "missing %s" % prm, node, fr)
                    env[prm] = EMPTY
        return env

    def check_receiver(self, base, name, node, fr, kind="attribute"):
        """classes of the receiver that cannot have this attribute"""
        known = [a for a in base if not (a[0] == "c" and a[2] is None)]
        if not known or any(a[0] != "l" or a[1].kind != "inst" or a[1].cls is None for a in known):
            return
        bad = [a for a in known if not self.p.declared(a[1].cls, name)]
        if not bad:
            return
        roots = {origin(a) for a in bad}
        if any(r is not None and r.startswith("arg:") for r in roots):
            return
        partial = len(bad) < len(known)
        if partial and not isinstance(node.value, ast.Name) and roots != {"self"}:
            return
        for a in bad:
            self.issue(kind, a[1].cls.name, name, node, fr)

    def issue(self, kind, owner, what, node, fr):
        k = (kind, owner, what, fr.fi.qual if fr.fi else fr.module.name, id(node))
        if k not in self.issues:
            self.issues[k] = (kind, owner, what, fr.fi, fr.module, node, fr.chain)

    def call_repo(self, fi, selfav, pos, kws, starpos, starkw, fr, node):
        env = self.bind(fi, selfav, pos, kws, starpos, starkw, fr, node)
        if self.record_calls:
            self.record_calls(fr, node, fi, env)
        here = id(node)
        if selfav:
            org = {origin(x) for x in selfav} - {None}
            if org:
                here = (here,) + tuple(sorted(org))
        ctx = (fr.ctx + (here,))[-self.K:] if isinstance(fr.ctx, tuple) else (here,)
        site = "%s:%d" % (fr.module.rel, getattr(node, "lineno", 0))
        return self.invoke(fi, env, ctx, fr.chain + ((fr.fi.name if fr.fi else "<module>", site),), node, selfav is not None)

    # ------------------------------------------------------------- statements
    def block(self, body, env, fr):
        for st in body:
            if env is None:
                return None
            env = self.stmt(st, env, fr)
        return env

    def jenv(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = dict(a)
        for k, v in b.items():
            if k in out:
                if out[k] is not v:
                    out[k] = self.join(out[k], v)
            else:
                out[k] = v
        return out

    def stmt(self, st, env, fr):
        for t in fr.trys:
            t[0] = self.jenv(t[0], env)
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            return env
        return m(st, env, fr)

    def s_Expr(self, st, env, fr):
        self.ev(st.value, env, fr)
        return self.after_check(st.value, env, fr)

    def after_check(self, call, env, fr):
        """a type check that returned narrows the checked variable"""
        if not (isinstance(call, ast.Call) and len(call.args) >= 3 and isinstance(call.args[1], ast.Name)):
            return env
        if getattr(call.func, "id", getattr(call.func, "attr", "")) != "check_var":
            return env
        t, n = call.args[2], call.args[1].id
        if not isinstance(t, ast.Constant) or not isinstance(t.value, str) or n not in env:
            return env
        want = {"[": "list", "{": "dict"}.get(t.value[:1], t.value)
        if want in ("ndarray", "list", "dict"):
            env = dict(env)
            env[n] = frozenset(a for a in env[n] if a == ("c", "NoneType", None) or self.isinst(a, want) is not False)
        return env

    def s_Assign(self, st, env, fr):
        v = self.ev(st.value, env, fr)
        for t in st.targets:
            self.assign(t, v, env, fr)
        return env

    def s_AnnAssign(self, st, env, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env, fr), env, fr)
        return env

    def s_AugAssign(self, st, env, fr):
        t = st.target
        cur = self.ev(t, env, fr)
        rhs = self.ev(st.value, env, fr)
        inplace = frozenset(a for a in cur if a[0] == "l" and a[1].kind in ("array", "list", "dict", "set"))
        for a in inplace:
            self.event(a[1], ("augmented assignment", "", rhs), st, fr)
            if a[1].kind == "list":
                self.welems(a[1], self.iter_elems(rhs, st, fr))
            self.wsrc(a[1], self.prov(rhs))
        other = cur - inplace
        res = inplace
        if other or not inplace:
            res = res | self.binop(st.op, other, rhs, st, fr)
        # rebinding the target: attributes and subscripts are stores of their own
        if isinstance(t, ast.Name):
            env[t.id] = res
        else:
            self.assign(t, res, env, fr, aug=True)
        return env

    def s_Return(self, st, env, fr):
        v = self.ev(st.value, env, fr) if st.value is not None else NONE
        fr.rets = fr.rets | v
        return None

    def s_Raise(self, st, env, fr):
        if st.exc is not None:
            self.ev(st.exc, env, fr)
        return None

    def s_Assert(self, st, env, fr):
        t, _ = self.cond(st.test, env, fr)
        return t if t is not None else env

    def s_If(self, st, env, fr):
        t, f = self.cond(st.test, env, fr)
        a = self.block(st.body, t, fr) if t is not None else None
        b = self.block(st.orelse, f, fr) if f is not None else None
        return self.jenv(a, b)

    def s_For(self, st, env, fr):
        it = self.ev(st.iter, env, fr)
        el = self.iter_elems(it, st.iter, fr)
        out = env
        brk = None
        for _ in range(5):
            fr.loops.append([None, None])
            e = dict(out)
            self.assign(st.target, el, e, fr)
            e = self.block(st.body, e, fr)
            b, c = fr.loops.pop()
            brk = self.jenv(brk, b)
            e = self.jenv(e, c)
            new = self.jenv(out, e)
            el = self.iter_elems(self.ev(st.iter, env, fr), st.iter, fr)
            if self.same(new, out):
                break
            out = new
        if st.orelse:
            out = self.block(st.orelse, out, fr)
        return self.jenv(out, brk)

    s_AsyncFor = s_For

    def same(self, a, b):
        if a.keys() != b.keys():
            return False
        return all(a[k] == b[k] for k in a)

    def s_While(self, st, env, fr):
        out = env
        brk = None
        for _ in range(5):
            t, f = self.cond(st.test, out, fr)
            if t is None:
                break
            fr.loops.append([None, None])
            e = self.block(st.body, dict(t), fr)
            b, c = fr.loops.pop()
            brk = self.jenv(brk, b)
            e = self.jenv(e, c)
            new = self.jenv(out, e)
            if self.same(new, out):
                break
            out = new
        t, f = self.cond(st.test, out, fr)
        if f is not None and st.orelse:
            f = self.block(st.orelse, f, fr)
        return self.jenv(f, brk)

    def s_Break(self, st, env, fr):
        if fr.loops:
            fr.loops[-1][0] = self.jenv(fr.loops[-1][0], env)
        return None

    def s_Continue(self, st, env, fr):
        if fr.loops:
            fr.loops[-1][1] = self.jenv(fr.loops[-1][1], env)
        return None

    def s_Try(self, st, env, fr):
        acc = [dict(env)]
        fr.trys.append(acc)
        out = self.block(st.body, dict(env), fr)
        fr.trys.pop()
        exc = self.jenv(acc[0], out)
        if out is not None and st.orelse:
            out = self.block(st.orelse, out, fr)
        for h in st.handlers:
            e = dict(exc)
            if h.name:
                e[h.name] = TOP
            out = self.jenv(out, self.block(h.body, e, fr))
        if st.finalbody:
            out2 = self.block(st.finalbody, dict(out if out is not None else exc), fr)
            out = out2 if out is not None else None
        return out

    s_TryStar = s_Try

    def s_With(self, st, env, fr):
        for it in st.items:
            v = self.ev(it.context_expr, env, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, TOP, env, fr)
        return self.block(st.body, env, fr)

    s_AsyncWith = s_With

    def s_Delete(self, st, env, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                for a in self.ev(t.value, env, fr):
                    if a[0] == "l":
                        self.event(a[1], ("deletion of an element", ""), st, fr)
            elif isinstance(t, ast.Attribute):
                for a in self.ev(t.value, env, fr):
                    if a[0] == "l" and a[1].kind == "inst":
                        self.event(a[1], ("deletion of an attribute", "." + t.attr.lstrip("_")), st, fr)
        return env

    def s_FunctionDef(self, st, env, fr):
        fi = getattr(st, "_fi", None)
        if fi is None:
            fi = st._fi = FuncInfo(st.name, fr.module, st, parent=fr.fi)
            fi.qual = (fr.fi.qual if fr.fi else fr.module.name) + ".<locals>." + st.name
        self.closures = getattr(self, "closures", {})
        self.closures[(fi, fr.ctx)] = env
        env[st.name] = frozenset([("nf", fi, fr.ctx)])
        return env

    def s_Import(self, st, env, fr):
        for a in st.names:
            nm = a.asname or a.name.split(".")[0]
            r = self.p.resolve_import(("mod", a.name if a.asname else a.name.split(".")[0]))
            env[nm] = self.from_res(r)
        return env

    def s_ImportFrom(self, st, env, fr):
        base = self.p._abs(fr.module, st)
        for a in st.names:
            env[a.asname or a.name] = self.from_res(self.p.resolve_import(("obj", base, a.name)))
        return env

    def s_Match(self, st, env, fr):
        self.ev(st.subject, env, fr)
        out = env
        for c in st.cases:
            out = self.jenv(out, self.block(c.body, dict(env), fr))
        return out

    # ------------------------------------------------------------- assignment
    def assign(self, t, v, env, fr, aug=False):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    l = self.alloc("list", e, fr.ctx)
                    self.welems(l, self.iter_elems(v, t, fr))
                    self.assign(e.value, frozenset([("l", l)]), env, fr)
                else:
                    self.assign(e, self.item(v, i, t, fr), env, fr)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env, fr)
            groups = {}
            for a in base:
                if a[0] == "l" and a[1].kind == "inst" and a[1].cls is not None:
                    pr = a[1].cls.find_property(t.attr)
                    if pr and pr[1] is not None:
                        groups.setdefault((pr[1], origin(a)), set()).add(a)
                        continue
                self.store_attr(a, t.attr, v, t, fr)
            self.check_receiver(base, t.attr, t, fr, "assignment")
            for (g, _), selfs in groups.items():
                self.call_repo(g, frozenset(selfs), [v], {}, None, None, fr, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env, fr)
            idx = self.ev(t.slice, env, fr)
            for a in base:
                if a[0] == "l":
                    self.store_sub(a[1], idx, v, t, fr, aug)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, fr)

    def store_attr(self, a, name, v, node, fr):
        if a[0] != "l" or a[1].kind != "inst":
            return
        l = a[1]
        pr = l.cls.find_property(name) if l.cls else None
        if pr and pr[1] is not None:
            self.call_repo(pr[1], frozenset([a]), [v], {}, None, None, fr, node)
            return
        if l.root is not None:
            self.event(l, ("attribute assignment", "." + name.lstrip("_"), v), node, fr)
        if name == "parent":
            return
        for x in v:
            if x[0] == "l" and x[1].root is not None:
                self.store_log.setdefault((l.uid, name.lstrip("_"), x[1].root), "%s:%d" % (fr.module.rel, node.lineno))
        self.wfield(l, name, v)

    def keydesc(self, idx):
        out = set()
        for a in idx:
            if a[0] == "c" and not isinstance(a[2], float):
                out.add(("c", a[2]))
            elif a[0] == "k" and a[1] == "str" and a[2]:
                last = {s.rpartition(".")[2] for s in a[2] if s != "*"} or {"*"}
                if last <= {"symbol"}:
                    out.add(("s", "symbol"))
                elif last <= {"name"}:
                    out.add(("s", "name"))
                else:
                    out.add(("?",))
            else:
                out.add(("?",))
        return out or {("?",)}

    def store_sub(self, l, idx, v, node, fr, aug=False):
        self.event(l, ("element assignment", "", v), node, fr)
        if l.kind == "array":
            self.wsrc(l, self.prov(v))
        elif l.kind in ("list", "tuple"):
            self.welems(l, v)
            if l.kind == "list":
                for k in self.keydesc(idx):
                    if k[0] == "c":
                        pass
        elif l.kind == "dict":
            for k in self.keydesc(idx):
                self.wkey(l, k, v)
        elif l.kind == "any":
            self.wsrc(l, self.prov(v))

    # -------------------------------------------------------------- branching
    def cond(self, test, env, fr):
        """(env if true or None, env if false or None)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.cond(test.operand, env, fr)
            return f, t
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                cur, fout = env, None
                for v in test.values:
                    t, f = self.cond(v, cur, fr)
                    fout = self.jenv(fout, f)
                    if t is None:
                        return None, fout
                    cur = t
                return cur, fout
            cur, tout = env, None
            for v in test.values:
                t, f = self.cond(v, cur, fr)
                tout = self.jenv(tout, t)
                if f is None:
                    return tout, None
                cur = f
            return tout, cur
        nar = self.narrow(test, env, fr)
        if nar is not None:
            return nar
        v = self.ev(test, env, fr)
        truth = self.truth(v)
        t = dict(env) if truth in (True, None) else None
        f = dict(env) if truth in (False, None) else None
        if isinstance(test, ast.Name) and truth is None:
            if t is not None:
                t[test.id] = frozenset(a for a in v if self.atom_truth(a) is not False)
            if f is not None:
                f[test.id] = frozenset(a for a in v if self.atom_truth(a) is not True)
        return t, f

    def atom_truth(self, a):
        if a[0] == "c":
            return bool(a[2])
        if a[0] in ("f", "nf", "cls", "mod", "ext", "extm", "lam"):
            return True
        if a[0] == "l" and a[1].kind == "inst":
            return True
        return None

    def truth(self, v):
        ts = {self.atom_truth(a) for a in v}
        if ts == {True}:
            return True
        if ts == {False}:
            return False
        return None

    def typename_of(self, e, env, fr):
        """list of type descriptors of a type expression"""
        if isinstance(e, ast.Tuple):
            out = []
            for x in e.elts:
                r = self.typename_of(x, env, fr)
                if r is None:
                    return None
                out += r
            return out
        if isinstance(e, ast.Name) and e.id in ("list", "dict", "str", "int", "float", "bool", "tuple", "complex", "set"):
            return [e.id]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type" and isinstance(e.args[0], ast.Constant) and e.args[0].value is None:
            return ["NoneType"]
        av = self.ev(e, env, fr)
        if len(av) == 1:
            a = next(iter(av))
            if a[0] == "cls":
                return [a[1]]
            if a[0] == "ext":
                if a[1] == "numpy.ndarray":
                    return ["ndarray"]
                if a[1].startswith("numpy."):
                    return ["np:" + a[1]]
                return ["ext:" + a[1]]
        return None

    def isinst(self, a, t, exact=False):
        """True/False/None"""
        if a[0] == "top" or (a[0] == "l" and a[1].kind == "any"):
            return None
        if a[0] == "c":
            n = a[1]
        elif a[0] == "k":
            n = a[1]
            if n == "num":
                if t in ("int", "float", "bool", "complex") or str(t).startswith("np:"):
                    return None
                return False
        elif a[0] == "l":
            n = {"array": "ndarray", "inst": a[1].cls}.get(a[1].kind, a[1].kind)
        else:
            return None
        if isinstance(n, ClassInfo) and isinstance(t, ClassInfo):
            return n is t if exact else n.is_sub(t)
        if isinstance(n, ClassInfo) or isinstance(t, ClassInfo):
            return False
        if n == t:
            return True
        if n == "bool" and t == "int" and not exact:
            return True
        if str(t).startswith("np:"):
            return None if n in ("int", "float") else False
        return False

    def narrow(self, test, env, fr):
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
            ts = self.typename_of(test.args[1], env, fr)
            if ts is None:
                return None
            return self.split(test.args[0], lambda a: self.any3([self.isinst(a, t) for t in ts]), env, fr)
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "hasattr" and len(test.args) == 2:
            n = test.args[1]
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and isinstance(test.args[0], ast.Name):

                def has(a):
                    if a[0] == "l" and a[1].kind == "inst" and a[1].cls is not None:
                        return self.p.declared(a[1].cls, n.value)
                    return None

                return self.split(test.args[0], has, env, fr)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, l, r = test.ops[0], test.left, test.comparators[0]
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "type" and len(l.args) == 1:
                if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq, ast.In, ast.NotIn)):
                    if isinstance(r, (ast.List, ast.Tuple)):
                        ts = self.typename_of(ast.Tuple(elts=r.elts), env, fr)
                    else:
                        ts = self.typename_of(r, env, fr)
                    if ts is None:
                        return None
                    res = self.split(l.args[0], lambda a: self.any3([self.isinst(a, t, True) for t in ts]), env, fr)
                    if isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn)):
                        res = (res[1], res[0])
                    return res
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                rv = self.ev(r, env, fr)
                if len(rv) == 1 and next(iter(rv))[0] == "c":
                    c = next(iter(rv))

                    def same(a):
                        if a[0] == "c":
                            return a[2] == c[2] and (a[1] == c[1] or c[2] is not None)
                        if c[2] is None:
                            return None if a[0] == "top" or (a[0] == "l" and a[1].kind == "any") else False
                        if a[0] == "k":
                            num = ("int", "float", "num", "bool", "complex")
                            if (c[1] in num) != (a[1] in num):
                                return False
                            return None
                        if a[0] == "l" and a[1].kind in ("inst", "dict", "tuple", "list", "array"):
                            return False if c[1] == "str" or isinstance(op, (ast.Is, ast.IsNot)) else (None if a[1].kind == "array" else False)
                        return None

                    res = self.split(l, same, env, fr)
                    if isinstance(op, (ast.IsNot, ast.NotEq)):
                        res = (res[1], res[0])
                    return res
        return None

    def any3(self, xs):
        if any(x is True for x in xs):
            return True
        if any(x is None for x in xs):
            return None
        return False

    def split(self, e, pred, env, fr):
        v = self.ev(e, env, fr)
        if not v:
            return dict(env), dict(env)
        tv = frozenset(a for a in v if pred(a) is not False)
        fv = frozenset(a for a in v if pred(a) is not True)
        t = dict(env) if tv else None
        f = dict(env) if fv else None
        if isinstance(e, ast.Name) and e.id in env:
            if t is not None:
                t[e.id] = tv
            if f is not None:
                f[e.id] = fv
        return t, f

    # ------------------------------------------------------------ expressions
    def from_res(self, r):
        if r is None:
            return TOP
        if r[0] == "func":
            return frozenset([("f", r[1], None)])
        if r[0] == "class":
            return frozenset([("cls", r[1])])
        if r[0] == "mod":
            return frozenset([("mod", r[1])])
        if r[0] == "ext":
            return frozenset([("ext", r[1])])
        if r[0] == "global":
            return self.global_value(r[1], r[2])
        return TOP

    def ev(self, e, env, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, env, fr)
            return TOP
        return m(e, env, fr)

    def e_Constant(self, e, env, fr):
        if isinstance(e.value, (bytes, type(Ellipsis))):
            return scal("slice") if e.value is Ellipsis else scal("str")
        return const(e.value)

    def e_Name(self, e, env, fr):
        if e.id in env:
            return env[e.id]
        r = self.p.resolve_name(fr.module, e.id)
        if r is not None:
            return self.from_res(r)
        return frozenset([("ext", "builtins." + e.id)])

    def e_JoinedStr(self, e, env, fr):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, env, fr)
        return scal("str")

    def e_Lambda(self, e, env, fr):
        self.closures = getattr(self, "closures", {})
        self.closures[(id(e), fr.ctx)] = (env, fr)
        return frozenset([("lam", e, fr.ctx)])

    def e_IfExp(self, e, env, fr):
        t, f = self.cond(e.test, env, fr)
        out = EMPTY
        if t is not None:
            out = out | self.ev(e.body, t, fr)
        if f is not None:
            out = out | self.ev(e.orelse, f, fr)
        return out

    def e_BoolOp(self, e, env, fr):
        out = EMPTY
        cur = env
        for i, v in enumerate(e.values):
            x = self.ev(v, cur, fr)
            last = i == len(e.values) - 1
            if last:
                out = out | x
            else:
                t, f = self.cond(v, cur, fr)
                if isinstance(e.op, ast.And):
                    out = out | frozenset(a for a in x if self.atom_truth(a) is not True)
                    cur = t
                else:
                    out = out | frozenset(a for a in x if self.atom_truth(a) is not False)
                    cur = f
                if cur is None:
                    break
        return out

    def e_UnaryOp(self, e, env, fr):
        v = self.ev(e.operand, env, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return scal("bool") if t is None else const(not t)
        out = EMPTY
        for a in v:
            if a[0] == "c" and isinstance(a[2], (int, float)) and not isinstance(a[2], bool):
                out |= const(-a[2] if isinstance(e.op, ast.USub) else a[2])
            elif a[0] == "l" and a[1].kind == "array":
                l = self.alloc("array", e, fr.ctx)
                self.wsrc(l, self.prov(v))
                out |= {("l", l)}
            elif a[0] == "top" or a[0] == "l":
                out |= TOP
            else:
                out |= {a}
        return out

    def e_BinOp(self, e, env, fr):
        return self.binop(e.op, self.ev(e.left, env, fr), self.ev(e.right, env, fr), e, fr)

    def binop(self, op, a, b, node, fr):
        out = EMPTY
        src = self.prov(a) | self.prov(b)
        ca = [x for x in a if x[0] == "c"]
        cb = [x for x in b if x[0] == "c"]
        if isinstance(op, ast.Add) and len(ca) == len(a) and len(cb) == len(b) and len(a) * len(b) <= 12:
            try:
                for x in ca:
                    for y in cb:
                        out |= const(x[2] + y[2])
                return out
            except TypeError:
                out = EMPTY
        kinds = set()
        for x in a | b:
            if x[0] == "l":
                kinds.add(x[1].kind)
            elif x[0] in ("c", "k"):
                kinds.add(x[1])
            elif x[0] == "top":
                kinds.add("top")
        if "array" in kinds:
            l = self.alloc("array", node, fr.ctx)
            self.wsrc(l, src)
            out |= {("l", l)}
        if "list" in kinds or "tuple" in kinds:
            k = "list" if "list" in kinds else "tuple"
            l = self.alloc(k, node, fr.ctx)
            for x in a | b:
                if x[0] == "l" and x[1].kind in ("list", "tuple"):
                    self.welems(l, self.all_elems(x[1]))
            out |= {("l", l)}
        if "str" in kinds and isinstance(op, (ast.Add, ast.Mod, ast.Mult)):
            out |= scal("str", src)
        if "top" in kinds or "any" in kinds:
            out |= TOP
        if not out or kinds & {"int", "float", "num", "bool", "complex"} and not kinds & {"array", "list", "tuple", "str"}:
            out |= scal("num", src)
        return out

    def all_elems(self, l):
        out = l.elems
        if l.kind in ("tuple",):
            for v in l.fields.values():
                out |= v
        return out

    def e_Compare(self, e, env, fr):
        l = self.ev(e.left, env, fr)
        rs = [self.ev(c, env, fr) for c in e.comparators]
        arr = any(x[0] == "l" and x[1].kind == "array" for av in [l] + rs for x in av)
        if len(rs) == 1:
            op, r = e.ops[0], rs[0]
            if all(x[0] == "c" for x in l) and l:
                if isinstance(op, (ast.Eq, ast.NotEq)) and r and all(x[0] == "c" for x in r):
                    res = {(x[2] == y[2]) == isinstance(op, ast.Eq) for x in l for y in r}
                    if len(res) == 1:
                        return const(res.pop())
                if isinstance(op, (ast.In, ast.NotIn)) and isinstance(e.comparators[0], (ast.List, ast.Tuple, ast.Set)):
                    els = e.comparators[0].elts
                    if all(isinstance(x, ast.Constant) for x in els):
                        vals = [x.value for x in els]
                        res = {(x[2] in vals) == isinstance(op, ast.In) for x in l}
                        if len(res) == 1:
                            return const(res.pop())
        if arr and not isinstance(e.ops[0], (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
            loc = self.alloc("array", e, fr.ctx)
            return frozenset([("l", loc)])
        return scal("bool")

    def e_List(self, e, env, fr, kind="list"):
        l = self.alloc(kind, e, fr.ctx)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.welems(l, self.iter_elems(self.ev(x.value, env, fr), x, fr))
            else:
                self.welems(l, self.ev(x, env, fr))
        return frozenset([("l", l)])

    def e_Set(self, e, env, fr):
        return self.e_List(e, env, fr, "set")

    def e_Tuple(self, e, env, fr):
        l = self.alloc("tuple", e, fr.ctx)
        for i, x in enumerate(e.elts):
            if isinstance(x, ast.Starred):
                self.welems(l, self.iter_elems(self.ev(x.value, env, fr), x, fr))
            else:
                self.wfield(l, str(i), self.ev(x, env, fr))
        return frozenset([("l", l)])

    def e_Dict(self, e, env, fr):
        l = self.alloc("dict", e, fr.ctx)
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, env, fr)
            if k is None:
                for a in vv:
                    if a[0] == "l" and a[1].kind == "dict":
                        self.copy_dict_into(a[1], l)
            else:
                for kd in self.keydesc(self.ev(k, env, fr)):
                    self.wkey(l, kd, vv)
        return frozenset([("l", l)])

    def copy_dict_into(self, a, l):
        for k, v in list(a.keys.items()):
            self.wkey(l, k, v)

    def comp_env(self, gens, env, fr):
        env = dict(env)
        for g in gens:
            it = self.ev(g.iter, env, fr)
            self.assign(g.target, self.iter_elems(it, g.iter, fr), env, fr)
            for c in g.ifs:
                t, f = self.cond(c, env, fr)
                if t is not None:
                    env = t
        return env

    def e_ListComp(self, e, env, fr, kind="list"):
        l = self.alloc(kind, e, fr.ctx)
        env = self.comp_env(e.generators, env, fr)
        self.welems(l, self.ev(e.elt, env, fr))
        return frozenset([("l", l)])

    def e_GeneratorExp(self, e, env, fr):
        return self.e_ListComp(e, env, fr)

    def e_SetComp(self, e, env, fr):
        return self.e_ListComp(e, env, fr, "set")

    def e_DictComp(self, e, env, fr):
        l = self.alloc("dict", e, fr.ctx)
        env = self.comp_env(e.generators, env, fr)
        v = self.ev(e.value, env, fr)
        for kd in self.keydesc(self.ev(e.key, env, fr)):
            self.wkey(l, kd, v)
        return frozenset([("l", l)])

    def e_Slice(self, e, env, fr):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, env, fr)
        return scal("slice")

    def e_Starred(self, e, env, fr):
        return self.iter_elems(self.ev(e.value, env, fr), e, fr)

    def e_NamedExpr(self, e, env, fr):
        v = self.ev(e.value, env, fr)
        self.assign(e.target, v, env, fr)
        return v

    def e_Await(self, e, env, fr):
        return self.ev(e.value, env, fr)

    def e_Yield(self, e, env, fr):
        if e.value is not None:
            fr.rets = fr.rets | self.ev(e.value, env, fr)
        return TOP

    # -- subscripts --------------------------------------------------------
    def is_basic(self, sl, env, fr):
        """True for basic indexing (view), False for fancy indexing (copy)"""
        if isinstance(sl, ast.Slice):
            return True
        if isinstance(sl, ast.Tuple):
            rs = [self.is_basic(x, env, fr) for x in sl.elts]
            return all(rs)
        if isinstance(sl, ast.Starred):
            return True
        av = self.ev(sl, env, fr)
        return self.basic_av(av)

    def basic_av(self, av):
        basic = False
        for a in av:
            if a[0] == "c" and (a[2] is None or isinstance(a[2], int)):
                basic = True
            elif a[0] == "k" and a[1] in ("int", "num", "slice"):
                basic = True
            elif a[0] == "l" and a[1].kind == "tuple":
                parts = [a[1].elems] + list(a[1].fields.values())
                if all(self.basic_av(x) or not x for x in parts):
                    basic = True
        return basic

    def e_Subscript(self, e, env, fr):
        base = self.ev(e.value, env, fr)
        out = EMPTY
        idx = self.ev(e.slice, env, fr)
        for a in base:
            out |= self.sub(a, e.slice, idx, env, fr, e)
        return out

    def sub(self, a, sl, idx, env, fr, node):
        if a[0] == "l":
            l = a[1]
            if l.kind == "array":
                isint = not isinstance(sl, (ast.Slice, ast.Tuple)) and all(
                    (x[0] == "c" and isinstance(x[2], int)) or (x[0] == "k" and x[1] in ("int", "num")) for x in idx
                ) and idx
                if l.ndim == 1 and isint:
                    return scal("num", self.prov(frozenset([a])))
                if self.is_basic(sl, env, fr):
                    return frozenset([a])
                f = self.alloc("array", node, fr.ctx, ndim=None)
                self.wsrc(f, self.prov(frozenset([a])))
                return frozenset([("l", f)])
            if l.kind in ("list", "tuple"):
                if isinstance(sl, ast.Slice):
                    f = self.alloc(l.kind, node, fr.ctx)
                    self.welems(f, self.all_elems(l))
                    return frozenset([("l", f)])
                out = EMPTY
                for x in idx:
                    if x[0] == "c" and str(x[2]) in l.fields:
                        out |= l.fields[str(x[2])] | l.elems
                    elif x[0] == "c" and isinstance(x[2], int) and x[2] < 0 and l.fields and not l.elems:
                        k = str(len(l.fields) + x[2])
                        out |= l.fields.get(k, EMPTY)
                    else:
                        out |= self.all_elems(l)
                return out
            if l.kind == "dict":
                return self.dget(l, idx)
            if l.kind == "any":
                if l.root and l.root.count("[]") < 3:
                    return frozenset([("l", self.protected("any", l.root + "[]"))])
                return TOP
            return TOP
        if a[0] == "c" and isinstance(a[2], str) or a[0] == "k" and a[1] == "str":
            return scal("str", a[2] if a[0] == "k" else EMPTY)
        if a[0] == "k":
            return scal("num", a[2])
        if a[0] == "c":
            return EMPTY
        return TOP

    def dget(self, l, idx):
        out = EMPTY
        for k in self.keydesc(idx):
            unk = l.keys.get(("?",), EMPTY)
            if k[0] == "c":
                if k in l.keys and self.conventions and k[1] in ("ref", "A-weight"):
                    out |= l.keys[k]
                elif k in l.keys:
                    out |= l.keys[k] | unk
                else:
                    for kk, v in l.keys.items():
                        if kk[0] != "c":
                            out |= v
            elif k[0] == "s":
                if k in l.keys:
                    out |= l.keys[k] | unk
                else:
                    for v in l.keys.values():
                        out |= v
            else:
                for v in l.keys.values():
                    out |= v
        return out

    def dkeys(self, l):
        out = EMPTY
        for k in l.keys:
            if k[0] == "c":
                out = self.join(out, const(k[1]))
            elif k[0] == "s":
                out = self.join(out, scal("str", ["." + k[1]]))
            else:
                out = self.join(out, scal("str", [l.root] if l.root else EMPTY))
        return out

    def item(self, v, i, node, fr):
        """i-th item for unpacking"""
        out = EMPTY
        for a in v:
            if a[0] == "l" and a[1].kind in ("tuple", "list"):
                if str(i) in a[1].fields:
                    out |= a[1].fields[str(i)] | a[1].elems
                else:
                    out |= self.all_elems(a[1])
            elif a[0] == "l" and a[1].kind == "array":
                out |= frozenset([a]) if a[1].ndim != 1 else scal("num", self.prov(frozenset([a])))
            elif a[0] == "l" and a[1].kind == "dict":
                out |= self.dkeys(a[1])
            elif a[0] == "k" and a[1] == "str" or a[0] == "c" and a[1] == "str":
                out |= scal("str")
            elif a[0] == "c":
                pass
            else:
                out |= TOP
        return out

    def iter_elems(self, v, node, fr):
        out = EMPTY
        for a in v:
            if a[0] == "l":
                l = a[1]
                if l.kind in ("list", "tuple", "set"):
                    out |= self.all_elems(l)
                elif l.kind == "dict":
                    out |= self.dkeys(l)
                elif l.kind == "array":
                    out |= frozenset([a]) if l.ndim != 1 else scal("num", self.prov(frozenset([a])))
                elif l.kind == "any":
                    if l.root and l.root.count("[]") < 3:
                        out |= frozenset([("l", self.protected("any", l.root + "[]"))])
                    else:
                        out |= TOP
                else:
                    out |= TOP
            elif a[0] in ("k", "c") and a[1] == "str":
                out |= scal("str", a[2] if a[0] == "k" else EMPTY)
            elif a[0] == "c":
                pass
            elif a[0] == "k":
                pass
            else:
                out |= TOP
        return out

    # -- attributes --------------------------------------------------------
    def e_Attribute(self, e, env, fr):
        base = self.ev(e.value, env, fr)
        out = EMPTY
        groups = {}
        for a in base:
            if a[0] == "l" and a[1].kind == "inst" and a[1].cls is not None:
                pr = a[1].cls.find_property(e.attr)
                if pr and pr[0] is not None:
                    groups.setdefault((pr[0], origin(a)), set()).add(a)
                    continue
            out |= self.getattr_atom(a, e.attr, e, fr)
        self.check_receiver(base, e.attr, e, fr)
        for (g, _), selfs in groups.items():
            f = self.trivial_getter(g)
            if f is not None:
                self.visited.add(g)
                for a in selfs:
                    out |= self.read_field(a[1], f)
            else:
                out |= self.call_repo(g, frozenset(selfs), [], {}, None, None, fr, e)
        return out

    def trivial_getter(self, fi):
        """attribute returned by a getter whose body is just `return self._x`"""
        body = [s for s in fi.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute):
            v = body[0].value
            if isinstance(v.value, ast.Name) and fi.params and v.value.id == fi.params[0] and v.attr.startswith("_"):
                return v.attr
        return None

    def getattr_atom(self, a, name, node, fr):
        if a[0] == "l":
            l = a[1]
            if l.kind == "inst":
                if name == "__class__":
                    return frozenset([("cls", l.cls)])
                if name == "__dict__":
                    return TOP
                if l.cls is not None:
                    pr = l.cls.find_property(name)
                    if pr and pr[0] is not None:
                        return self.call_repo(pr[0], frozenset([a]), [], {}, None, None, fr, node)
                    f = l.cls.find_method(name)
                    if f is not None:
                        return frozenset([("f", f, a)])
                return self.read_field(l, name)
            if l.kind == "array":
                if name in ("T", "real", "imag", "flat"):
                    return frozenset([a])
                if name == "shape":
                    t = self.alloc("tuple", node, fr.ctx, "shape")
                    self.welems(t, scal("int"))
                    return frozenset([("l", t)])
                if name in ("size", "ndim", "itemsize", "nbytes"):
                    return scal("int")
                if name in ("dtype",):
                    return TOP
                return frozenset([("extm", a, name)])
            return frozenset([("extm", a, name)])
        if a[0] == "mod":
            r = self.p.member(("mod", a[1]), name)
            return self.from_res(r)
        if a[0] == "ext":
            d = a[1] + "." + name
            if d in ("numpy.pi", "numpy.e", "numpy.inf", "numpy.nan", "math.pi"):
                return scal("float")
            return frozenset([("ext", d)])
        if a[0] == "cls":
            if name == "__name__":
                return const(a[1].name)
            f = a[1].find_method(name)
            if f is not None:
                return frozenset([("f", f, None)])
            return TOP
        if a[0] == "super":
            _, selfa, after = a
            f = selfa[1].cls.find_method(name, after=after) if selfa[1].cls else None
            if f is not None:
                return frozenset([("f", f, selfa)])
            return frozenset([("ext", "object." + name)])
        if a[0] in ("c", "k"):
            if a[0] == "c" and a[2] is None:
                return EMPTY
            return frozenset([("extm", a, name)])
        return TOP

    # -- calls ---------------------------------------------------------------
    def e_Call(self, e, env, fr):
        f = e.func
        # super()
        if isinstance(f, ast.Name) and f.id == "super" and "super" not in env:
            return self.ev_super(e, env, fr)
        fav = self.ev(f, env, fr)
        pos, starpos = [], None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, fr)
                starpos = (starpos or EMPTY) | self.iter_elems(v, a, fr)
                # known tuples keep their positions
                if len(v) == 1:
                    x = next(iter(v))
                    if x[0] == "l" and x[1].kind == "tuple" and x[1].fields and not x[1].elems:
                        starpos = None
                        for i in range(len(x[1].fields)):
                            pos.append(x[1].fields[str(i)])
            else:
                av = self.ev(a, env, fr)
                if starpos is not None:
                    starpos = starpos | av
                else:
                    pos.append(av)
        kws, starkw = {}, None
        for k in e.keywords:
            v = self.ev(k.value, env, fr)
            if k.arg is None:
                for a in v:
                    if a[0] == "l" and a[1].kind == "dict":
                        for kk, vv in list(a[1].keys.items()):
                            if kk[0] == "c" and isinstance(kk[1], str):
                                kws[kk[1]] = kws.get(kk[1], EMPTY) | vv
                            else:
                                starkw = (starkw or EMPTY) | vv
                    else:
                        starkw = starkw or EMPTY
            else:
                kws[k.arg] = v
        self.callsites += 1
        out = EMPTY
        groups = {}
        for a in fav:
            if a[0] == "f" and a[2] is not None:
                groups.setdefault((a[1], origin(a[2])), set()).add(a[2])
            else:
                out |= self.call_atom(a, pos, kws, starpos, starkw, e, env, fr)
        for (fi, _), selfs in groups.items():
            out |= self.call_repo_i(fi, frozenset(selfs), pos, kws, starpos, starkw, fr, e)
        return out

    def ev_super(self, e, env, fr):
        selfname = fr.fi.params[0] if fr.fi and fr.fi.params else "self"
        sav = env.get(selfname, EMPTY)
        out = set()
        for a in sav:
            if a[0] != "l" or a[1].kind != "inst":
                continue
            after = None
            if e.args:
                cav = self.ev(e.args[0], env, fr)
                for c in cav:
                    if c[0] == "cls":
                        # type(self): dynamic class of that very object
                        if isinstance(e.args[0], ast.Call):
                            after = a[1].cls
                        else:
                            after = c[1]
            elif fr.fi and fr.fi.cls:
                after = fr.fi.module.classes.get(fr.fi.cls)
            if after is not None and a[1].cls and a[1].cls.is_sub(after):
                out.add(("super", a, after))
        return frozenset(out)

    def fresh(self, kind, node, fr, srcs, sub="", ndim=None, elems=None):
        l = self.alloc(kind, node, fr.ctx, sub, ndim=ndim)
        self.wsrc(l, self.prov(srcs))
        if elems is not None:
            self.welems(l, elems)
        return frozenset([("l", l)])

    def call_atom(self, a, pos, kws, starpos, starkw, node, env, fr):
        t = a[0]
        if t == "f":
            return self.call_repo_i(a[1], frozenset([a[2]]) if a[2] is not None else None, pos, kws, starpos, starkw, fr, node)
        if t == "nf":
            fi = a[1]
            base = self.closures.get((fi, a[2]), {})
            env2 = self.bind(fi, None, pos, kws, starpos, starkw, fr, node)
            full = dict(base)
            full.update(env2)
            return self.invoke_closure(fi, full, fr, node)
        if t == "lam":
            base, bfr = self.closures.get((id(a[1]), a[2]), ({}, fr))
            e2 = dict(base)
            ps = [p.arg for p in a[1].args.args]
            for i, p in enumerate(ps):
                e2[p] = pos[i] if i < len(pos) else (starpos or TOP)
            for k, v in kws.items():
                e2[k] = v
            if self.depth > 40:
                return TOP
            self.depth += 1
            try:
                return self.ev(a[1].body, e2, bfr)
            finally:
                self.depth -= 1
        if t == "cls":
            return self.construct(a[1], pos, kws, starpos, starkw, node, fr)
        if t == "anycls":
            src = EMPTY
            for x in list(pos) + list(kws.values()):
                src |= x
            return self.fresh("any", node, fr, src)
        if t == "ext":
            if self.record_calls:
                self.record_calls(fr, node, a[1], (pos, kws))
            return self.ext_call(a[1], pos, kws, starpos, starkw, node, env, fr)
        if t == "extm":
            return self.method_call(a[1], a[2], pos, kws, starpos, node, fr)
        if t == "l" and a[1].kind == "inst":
            f = a[1].cls.find_method("__call__") if a[1].cls else None
            if f:
                return self.call_repo(f, frozenset([a]), pos, kws, starpos, starkw, fr, node)
        return TOP

    def invoke_closure(self, fi, env, fr, node):
        if self.depth > 40:
            return TOP
        self.visited.add(fi)
        fr2 = Frame(fi, (fr.ctx + (id(node),))[-self.K:], fr.chain + ((fr.fi.name if fr.fi else "", "%s:%d" % (fr.module.rel, node.lineno)),), fi.module)
        self.depth += 1
        try:
            out = self.block(fi.node.body, dict(env), fr2)
        finally:
            self.depth -= 1
        return fr2.rets | (NONE if out is not None else EMPTY)

    def call_repo_i(self, fi, selfav, pos, kws, starpos, starkw, fr, node):
        """repo call with the library's own dynamic-resolution intrinsics"""
        if fi.name == "import_class" and fi.module.name.startswith("SciDataTool.Functions"):
            args = list(pos) + [kws.get(k) for k in ("module_name", "class_name") if k in kws]
            return self.import_class(args)
        if fi.name == "check_var":
            return NONE
        if fi.name == "raise_":
            return EMPTY
        return self.call_repo(fi, selfav, pos, kws, starpos, starkw, fr, node)

    def import_class(self, args):
        out = EMPTY
        if len(args) > 1:
            for a in args[1]:
                if a[0] == "c" and a[2] in self.p.classes:
                    out |= {("cls", self.p.classes[a[2]])}
                elif a[0] == "k":
                    last = {s.rpartition(".")[2] for s in a[2]}
                    out |= {("anycls",)}
                elif a[0] == "top" or a[0] == "l":
                    out |= {("anycls",)}
        return out or frozenset([("anycls",)])

    def construct(self, ci, pos, kws, starpos, starkw, node, fr):
        if not any(c.name == "FrozenClass" for c in ci.mro()) and not ci.find_method("__init__"):
            return TOP
        l = self.alloc("inst", node, fr.ctx, cls=ci)
        me = frozenset([("l", l)])
        init = ci.find_method("__init__")
        if init is not None:
            if self.record_calls:
                self.record_calls(fr, node, ci, (pos, kws, starkw))
            self.call_repo(init, me, pos, kws, starpos, starkw, fr, node)
        return me

    def arg(self, pos, kws, i, name):
        if i < len(pos):
            return pos[i]
        return kws.get(name, EMPTY)

    def mutate(self, av, what, node, fr, value=EMPTY):
        for a in av:
            if a[0] == "l" and a[1].kind != "inst":
                self.event(a[1], (what, "", value), node, fr)

    def ext_call(self, d, pos, kws, starpos, starkw, node, env, fr):
        allargs = EMPTY
        for x in list(pos) + list(kws.values()) + ([starpos] if starpos else []):
            allargs |= x
        base, _, name = d.rpartition(".")
        if base == "builtins":
            return self.builtin(name, pos, kws, starpos, node, env, fr, allargs)
        if d.startswith("numpy."):
            if "out" in kws:
                outs = kws["out"]
                for a in outs:
                    if a[0] == "l" and a[1].kind == "tuple":
                        self.mutate(self.all_elems(a[1]), "out= of numpy.%s" % name, node, fr)
                self.mutate(outs, "out= of numpy.%s" % name, node, fr)
                return outs
            if name in NP_MUT_ARG0 and pos:
                self.mutate(pos[0], "numpy.%s" % name, node, fr)
                return NONE
            if name == "at" and pos:
                self.mutate(pos[0], "ufunc.at", node, fr)
                return NONE
            if d == "numpy.random.shuffle" and pos:
                self.mutate(pos[0], "numpy.random.shuffle", node, fr)
                return NONE
            if name in VIEW_FUNCS or (name == "array" and self.is_false(kws.get("copy"))) or (
                name == "nan_to_num" and self.is_false(kws.get("copy"))
            ):
                if name == "nan_to_num" and pos:
                    self.mutate(pos[0], "numpy.nan_to_num(copy=False)", node, fr)
                src = self.arg(pos, kws, 0, "a")
                arrs = frozenset(a for a in src if a[0] == "l" and a[1].kind in ("array", "any"))
                out = arrs
                if src - arrs - (NONE if arrs else EMPTY):
                    out = out | self.fresh("array", node, fr, allargs)
                if name in ("split", "array_split", "vsplit", "hsplit", "dsplit", "broadcast_arrays"):
                    return self.fresh("list", node, fr, EMPTY, "sp", elems=out)
                return out
            if name in ("apply_along_axis", "apply_over_axes") and len(pos) >= 3 - (1 if "arr" in kws else 0):
                if name == "apply_along_axis":
                    func, arr, rest = pos[0], self.arg(pos, kws, 2, "arr"), pos[3:]
                else:
                    func, arr, rest = pos[0], pos[1], []
                kw2 = {k: v for k, v in kws.items() if k not in ("func1d", "axis", "arr")}
                for a in func:
                    self.call_atom(a, [arr] + list(rest), kw2, None, None, node, env, fr)
                return self.fresh("array", node, fr, allargs)
            if name in ("shape", "unravel_index"):
                t = self.fresh("tuple", node, fr, EMPTY, "t", elems=scal("int"))
                return t
            if name in ("where", "nonzero", "meshgrid", "unique", "histogram", "polyfit", "intersect1d", "argwhere"):
                arr = self.fresh("array", node, fr, allargs)
                tup = self.fresh("tuple", node, fr, EMPTY, "t", elems=arr)
                return arr | tup
            if name in ("size", "ndim", "argmax", "argmin", "searchsorted", "array_equal", "allclose", "isscalar", "all", "any", "iscomplexobj", "isrealobj", "trapz"):
                if name in ("searchsorted", "argmax", "argmin", "trapz", "all", "any"):
                    return scal("num") | self.fresh("array", node, fr, allargs)
                return scal("num")
            if base == "numpy" and name in ("float64", "int64", "int32", "float32", "complex128"):
                return scal("num", self.prov(allargs))
            if name in ("abs", "absolute", "sqrt", "exp", "log10", "log", "cos", "sin", "angle", "round", "rint", "floor", "ceil", "sum", "mean", "max", "min", "amax", "amin"):
                sc = not any(a[0] == "l" for a in allargs) and not any(a[0] == "top" for a in allargs)
                if sc:
                    return scal("num", self.prov(allargs))
            return self.fresh("array", node, fr, allargs)
        if d in ("copy.deepcopy",):
            return self.deep(pos[0] if pos else EMPTY, node, fr)
        if d in ("copy.copy",):
            return self.shallow(pos[0] if pos else EMPTY, node, fr)
        if d.startswith("importlib.import_module"):
            out = EMPTY
            for a in pos[0] if pos else EMPTY:
                if a[0] == "c" and a[2] in self.p.modules:
                    out |= {("mod", self.p.modules[a[2]])}
            return out or TOP
        if d.startswith("scipy.") or d.startswith("math.") or d.startswith("cmath."):
            if name in ("interp1d", "RegularGridInterpolator", "RectBivariateSpline", "splrep"):
                return TOP
            if any(a[0] == "l" for a in allargs):
                return self.fresh("array", node, fr, allargs)
            return scal("num", self.prov(allargs)) if d.startswith(("math.", "cmath.")) else TOP
        if d in ("os.getcwd", "os.path.join", "os.path.abspath", "re.sub") or d.startswith("os.path."):
            return scal("str", self.prov(allargs))
        if d == "re.findall":
            return self.fresh("list", node, fr, EMPTY, elems=scal("str"))
        if d == "random.shuffle" and pos:
            self.mutate(pos[0], "random.shuffle", node, fr)
            return NONE
        if name in ("heappush", "heappop", "heapify", "insort", "insort_left", "insort_right") and pos:
            self.mutate(pos[0], d, node, fr)
        return TOP

    def is_false(self, av):
        return av is not None and len(av) == 1 and next(iter(av))[0] == "c" and next(iter(av))[2] is False

    def shallow(self, av, node, fr):
        out = EMPTY
        for a in av:
            if a[0] == "l":
                l = a[1]
                if l.kind == "array":
                    out |= self.fresh("array", node, fr, frozenset([a]), ndim=l.ndim)
                elif l.kind in ("list", "set", "tuple"):
                    out |= self.fresh(l.kind, node, fr, EMPTY, elems=self.all_elems(l))
                    n = next(x for x in out if x[0] == "l" and x[1].kind == l.kind)[1]
                    self.wsrc(n, self.prov(frozenset([a]), 0))
                elif l.kind == "dict":
                    n = self.alloc("dict", node, fr.ctx)
                    self.copy_dict_into(l, n)
                    self.wsrc(n, self.prov(frozenset([a]), 0))
                    out |= {("l", n)}
                elif l.kind == "inst":
                    n = self.alloc("inst", node, fr.ctx, cls=l.cls)
                    for p in l.cls.all_properties():
                        self.wfield(n, "_" + p, self.read_field(l, "_" + p))
                    out |= {("l", n)}
                else:
                    out |= TOP
            else:
                out |= {a}
        return out

    def deep(self, av, node, fr, depth=0):
        out = EMPTY
        for a in av:
            if a[0] == "l" and depth < 4:
                l = a[1]
                if l.kind == "array":
                    out |= self.fresh("array", node, fr, frozenset([a]), "d%d" % l.uid, ndim=l.ndim)
                elif l.kind in ("list", "set", "tuple", "dict"):
                    n = self.alloc(l.kind, node, fr.ctx, "d%d" % l.uid)
                    self.wsrc(n, self.prov(frozenset([a]), 0))
                    self.welems(n, self.deep(self.all_elems(l), node, fr, depth + 1))
                    for k, v in list(l.keys.items()):
                        self.wkey(n, k, self.deep(v, node, fr, depth + 1))
                    out |= {("l", n)}
                elif l.kind == "inst":
                    n = self.alloc("inst", node, fr.ctx, "d%d" % l.uid, cls=l.cls)
                    if l.cls:
                        for p in l.cls.all_properties():
                            self.wfield(n, "_" + p, self.deep(self.read_field(l, "_" + p), node, fr, depth + 1))
                    out |= {("l", n)}
                else:
                    out |= TOP
            else:
                out |= {a} if a[0] != "l" else TOP
        return out

    def builtin(self, name, pos, kws, starpos, node, env, fr, allargs):
        p0 = pos[0] if pos else EMPTY
        if name in ("list", "sorted", "tuple", "set", "frozenset", "reversed", "iter"):
            k = {"sorted": "list", "reversed": "list", "iter": "list", "frozenset": "set"}.get(name, name)
            r = self.fresh(k, node, fr, EMPTY, elems=self.iter_elems(p0, node, fr))
            for a in p0:
                if a[0] == "l" and a[1].kind != "dict":
                    self.wsrc(next(iter(r))[1], self.prov(frozenset([a]), 0))
            return r
        if name == "dict":
            l = self.alloc("dict", node, fr.ctx)
            for a in p0:
                if a[0] == "l" and a[1].kind == "dict":
                    self.copy_dict_into(a[1], l)
                    self.wsrc(l, self.prov(frozenset([a]), 0))
                elif a[0] == "l":
                    for t in self.all_elems(a[1]):
                        if t[0] == "l" and t[1].kind == "tuple":
                            kd = self.keydesc(t[1].fields.get("0", EMPTY))
                            for k in kd:
                                self.wkey(l, k, t[1].fields.get("1", EMPTY))
            for k, v in kws.items():
                self.wkey(l, ("c", k), v)
            return frozenset([("l", l)])
        if name == "enumerate":
            t = self.alloc("tuple", node, fr.ctx, "t")
            self.wfield(t, "0", scal("int"))
            self.wfield(t, "1", self.iter_elems(p0, node, fr))
            return self.fresh("list", node, fr, EMPTY, elems=frozenset([("l", t)]))
        if name == "zip":
            t = self.alloc("tuple", node, fr.ctx, "t")
            for i, p in enumerate(pos):
                self.wfield(t, str(i), self.iter_elems(p, node, fr))
            if starpos:
                self.welems(t, self.iter_elems(starpos, node, fr))
            return self.fresh("list", node, fr, EMPTY, elems=frozenset([("l", t)]))
        if name in ("map", "filter"):
            out = EMPTY
            el = [self.iter_elems(p, node, fr) for p in pos[1:]]
            for a in p0:
                out |= self.call_atom(a, el, {}, None, None, node, env, fr)
            return self.fresh("list", node, fr, EMPTY, elems=out if name == "map" else (el[0] if el else EMPTY))
        if name == "range":
            return self.fresh("list", node, fr, EMPTY, elems=scal("int"))
        if name in ("len", "int", "id", "hash", "ord"):
            return scal("int", self.prov(p0) if name == "int" else EMPTY)
        if name in ("float", "abs", "round", "pow", "complex", "divmod"):
            if name in ("abs", "round") and any(a[0] == "l" for a in p0):
                return self.fresh("array", node, fr, allargs)
            return scal("num", self.prov(allargs))
        if name in ("sum", "max", "min"):
            return scal("num", self.prov(allargs)) | (
                frozenset(a for a in self.iter_elems(p0, node, fr) if a[0] in ("l", "k", "c", "top")) if name != "sum" else EMPTY
            )
        if name in ("str", "repr", "format", "chr", "input"):
            return scal("str", self.prov(allargs))
        if name in ("bool", "isinstance", "issubclass", "callable", "any", "all", "hasattr"):
            if name == "hasattr" and len(pos) == 2:
                return self.hasattr(pos[0], pos[1])
            return scal("bool")
        if name == "getattr":
            out = EMPTY
            for a in p0:
                for n in self.arg(pos, kws, 1, "name"):
                    if n[0] == "c" and isinstance(n[2], str):
                        out |= self.getattr_atom(a, n[2], node, fr)
                    elif a[0] == "mod":
                        for f in a[1].functions.values():
                            if "_to_" in f.name:
                                out |= {("f", f, None)}
                    elif a[0] == "l" and a[1].kind == "inst" and a[1].cls:
                        for p in a[1].cls.all_properties():
                            out |= self.getattr_atom(a, p, node, fr)
            if len(pos) > 2:
                out |= pos[2]
            return out
        if name == "setattr" and len(pos) == 3:
            for a in p0:
                for n in pos[1]:
                    if n[0] == "c":
                        self.store_attr(a, n[2], pos[2], node, fr)
                    elif a[0] == "l" and a[1].kind == "inst" and a[1].cls and a[1].root:
                        self.event(a[1], ("setattr with a computed name", ".*", pos[2]), node, fr)
            return NONE
        if name == "delattr" and pos:
            for a in p0:
                if a[0] == "l" and a[1].kind == "inst":
                    self.event(a[1], ("delattr", ".*"), node, fr)
            return NONE
        if name == "type" and len(pos) == 1:
            out = EMPTY
            for a in p0:
                if a[0] == "l" and a[1].kind == "inst" and a[1].cls:
                    out |= {("cls", a[1].cls)}
                else:
                    out |= TOP
            return out
        if name == "__import__":
            out = EMPTY
            for a in p0:
                if a[0] == "c" and a[2] in self.p.modules:
                    out |= {("mod", self.p.modules[a[2]])}
                elif a[0] == "k":
                    out |= TOP
            return out or TOP
        if name == "print":
            return NONE
        if name == "next":
            return self.iter_elems(p0, node, fr) | (pos[1] if len(pos) > 1 else EMPTY)
        return TOP

    def hasattr(self, o, n):
        res = set()
        for a in o:
            for x in n:
                if a[0] == "l" and a[1].kind == "inst" and a[1].cls and x[0] == "c":
                    c = a[1].cls
                    res.add(bool(c.find_property(x[2]) or c.find_method(x[2]) or x[2] in a[1].fields or x[2] == "parent"))
                elif a[0] == "c" and a[2] is None:
                    res.add(False)
                else:
                    return scal("bool")
        return const(res.pop()) if len(res) == 1 else scal("bool")

    def method_call(self, a, name, pos, kws, starpos, node, fr):
        me = frozenset([a])
        allargs = me
        for x in list(pos) + list(kws.values()):
            allargs |= x
        if a[0] in ("c", "k"):
            if a[1] == "str":
                if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
                    return self.fresh("list", node, fr, allargs, elems=scal("str", self.prov(me)))
                if name in ("startswith", "endswith", "isdigit", "isnumeric", "isalpha"):
                    return scal("bool")
                if name in ("find", "index", "count"):
                    return scal("int")
                if name in ("encode",):
                    return TOP
                return scal("str", self.prov(me))
            return scal("num", self.prov(me)) if name != "copy" else me
        l = a[1]
        if l.kind == "array":
            if "out" in kws:
                self.mutate(kws["out"], "out= of ndarray.%s" % name, node, fr)
                return kws["out"]
            if name in ARRAY_MUT_METHODS:
                self.event(l, ("ndarray.%s" % name, ""), node, fr)
                return NONE
            if name in VIEW_METHODS or (name == "astype" and self.is_false(kws.get("copy"))):
                return me
            if name == "copy":
                return self.fresh("array", node, fr, me, ndim=l.ndim)
            if name == "tolist":
                return self.fresh("list", node, fr, me, elems=scal("num", self.prov(me)))
            if name in ("item",):
                return scal("num", self.prov(me))
            if name in ("min", "max", "sum", "mean", "any", "all", "argmax", "argmin", "std", "var", "prod") and not pos and "axis" not in kws:
                return scal("num", self.prov(me))
            return self.fresh("array", node, fr, me)
        if l.kind == "list":
            if name in LIST_MUT:
                self.event(l, ("list.%s" % name, "", pos[0] if pos else EMPTY), node, fr)
                if name == "append" and pos:
                    self.welems(l, pos[0])
                elif name == "insert" and len(pos) > 1:
                    self.welems(l, pos[1])
                elif name == "extend" and pos:
                    self.welems(l, self.iter_elems(pos[0], node, fr))
                elif name == "pop":
                    return l.elems
                return NONE
            if name == "copy":
                return self.shallow(me, node, fr)
            if name in ("index", "count"):
                return scal("int")
            return TOP
        if l.kind == "tuple":
            return scal("int") if name in ("index", "count") else TOP
        if l.kind == "set":
            if name in SET_MUT:
                self.event(l, ("set.%s" % name, ""), node, fr)
                for p in pos:
                    self.welems(l, p)
                return NONE
            return self.shallow(me, node, fr)
        if l.kind == "dict":
            if name in DICT_MUT:
                self.event(l, ("dict.%s" % name, "", allargs), node, fr)
                if name == "update":
                    for p in pos:
                        for x in p:
                            if x[0] == "l" and x[1].kind == "dict":
                                self.copy_dict_into(x[1], l)
                    for k, v in kws.items():
                        self.wkey(l, ("c", k), v)
                    return NONE
                if name == "setdefault" and len(pos) > 1:
                    for k in self.keydesc(pos[0]):
                        self.wkey(l, k, pos[1])
                    return self.dget(l, pos[0]) | pos[1]
                if name == "pop":
                    return (self.dget(l, pos[0]) if pos else EMPTY) | (pos[1] if len(pos) > 1 else EMPTY)
                return TOP
            if name == "copy":
                return self.shallow(me, node, fr)
            if name == "get":
                return (self.dget(l, pos[0]) if pos else EMPTY) | (pos[1] if len(pos) > 1 else NONE)
            if name == "keys":
                return self.fresh("list", node, fr, EMPTY, elems=self.dkeys(l))
            if name == "values":
                vs = EMPTY
                for v in l.keys.values():
                    vs |= v
                return self.fresh("list", node, fr, EMPTY, elems=vs)
            if name == "items":
                vs = EMPTY
                for v in l.keys.values():
                    vs |= v
                t = self.alloc("tuple", node, fr.ctx, "t")
                self.wfield(t, "0", self.dkeys(l))
                self.wfield(t, "1", vs)
                return self.fresh("list", node, fr, EMPTY, elems=frozenset([("l", t)]))
            return TOP
        if l.kind == "any":
            if name in ("append", "extend", "insert", "remove", "clear", "reverse", "fill", "setdefault", "popitem", "resize"):
                self.event(l, ("method %s" % name, ""), node, fr)
            if name in ("sort", "update", "pop", "put") and l.root:
                self.event(l, ("method %s" % name, ""), node, fr)
            if name in ("copy",):
                return self.fresh("any", node, fr, me)
            if name in VIEW_METHODS:
                return me
            return TOP
        return TOP

    # ------------------------------------------------------------ reachability
    def reach(self, av, skip=("parent",), maxdepth=9):
        """yield (path, Loc) reachable from av"""
        seen = set()
        todo = [("result", av, 0)]
        while todo:
            path, v, d = todo.pop(0)
            for a in v:
                if a[0] != "l":
                    continue
                l = a[1]
                if l.uid in seen:
                    continue
                seen.add(l.uid)
                yield path, l
                if d > maxdepth or l.root is not None:
                    continue
                for k, x in l.fields.items():
                    if k in skip or k.startswith("@"):
                        continue
                    if l.kind == "tuple":
                        todo.append((path + "[%s]" % k, x, d + 1))
                    else:
                        todo.append((path + "." + k.lstrip("_"), x, d + 1))
                for k, x in l.keys.items():
                    todo.append((path + "[%s]" % (repr(k[1]) if k[0] == "c" else k[-1]), x, d + 1))
                if l.elems:
                    todo.append((path + "[]", l.elems, d + 1))
