"""Shared by P04-P08: symbolic objects of every declared class and what is assumed of them.

An input object holds one term per stored attribute, typed by the declared property
type.  Nested library objects are terms of their class; their own copy, export,
comparison and rebuild are the properties being proved, so on a nested object they
are taken as given (induction over the nesting depth).
"""
import ast

from sa.absint import ABSENT, C, FALSE, NONE, TRUE, U, UNKNOWN, V, Interp, Obj, Oracle, Raised, State, is_c, is_t, show, term
from sa.model import AnalysisError

PLAIN = ("str", "int", "float", "bool", "complex")
VIEWS = ("numpy.squeeze", "numpy.expand_dims", "numpy.asarray", "numpy.atleast_1d", "numpy.reshape", "numpy.ravel", "numpy.asanyarray")
COPIES = ("numpy.array", "numpy.copy", "copy.copy", "copy.deepcopy")


def IN(name):
    return ("t", "in", name)


def base_type(t):
    return "list" if t[:1] == "[" else "dict" if t[:1] == "{" else t


def inner_type(t):
    return t[1:-1] if t[:1] in ("[", "{") else None


class ObjOracle(Oracle):
    """types of the inputs; nested objects are opaque"""

    def __init__(self, prog):
        self.p = prog
        self.types = {}
        self.values_equal = {}
        self.undecided = 0
        self.calls = []

    # -- types
    def full_type(self, i, st=None):
        if i in self.types:
            return self.types[i]
        if not is_t(i):
            return None
        op = i[1]
        if op in ("elem", "val"):
            t = self.full_type(i[2])
            if t and inner_type(t):
                return inner_type(t)
            return None
        if op == "key":
            return "str"
        if op == "idx":
            return "int"
        if op == "copyof":
            return self.full_type(i[2])
        if op == "asdict":
            return "dict"
        if op == "rebuilt":
            return self.full_type(i[2])
        if op == "classtag" or op == "diffname":
            return "str"
        if op == "listof":
            t = self.full_type(i[2])
            return t if t and base_type(t) == "list" else "list"
        if op == "view":
            return "ndarray"
        if op == "slice":
            return self.full_type(i[2])
        if op == "call":
            n, b = i[2], i[3]
            if n in VIEWS + ("numpy.array", "numpy.copy"):
                return "ndarray"
            if n in ("copy.copy", "copy.deepcopy", "dict") and i[4]:
                return self.full_type(i[4][0])
            if n == ".copy":
                return self.full_type(b)
            if n == ".tolist":
                return "list"
            if n == "str" or n == ".join":
                return "str"
        return None

    def type_of(self, i, interp, st):
        t = self.full_type(i)
        return base_type(t) if t else None

    def is_class(self, t):
        return t in self.p.classes

    # -- truth
    def truth(self, t, interp, st):
        op = t[1]
        if op == "cmp" and t[2] == "==":
            a, b = t[3], t[4]
            for x, y in ((a, b), (b, a)):
                if x == C(-1):
                    if self.full_type(y):
                        return False
            r = self.equal_terms(a, b, interp, st)
            if r is not None:
                return r
        if op == "call" and t[2] in ("numpy.array_equal", "numpy.array_equiv", "numpy.allclose", ".all") and t[2] != ".all" and len(t[4]) >= 2:
            a, b = t[4][0], t[4][1]
            if NONE in (a, b):
                return True if a == b else False if self.full_type(a) or self.full_type(b) else None
            return self.equal_terms(a, b, interp, st)
        if op == "isinstance":
            ft = self.full_type(t[2])
            if ft:
                n = interp.tname(t[3], st)
                if n is None and t[3][0] == "x":
                    n = t[3][1].split(".")[-1]
                return interp.isinst(base_type(ft), n) if n else None
        if op == "call" and t[2] == "callable":
            ft = self.full_type(t[4][0])
            return (ft == "function") if ft else None
        if op == "hasattr":
            ft = self.full_type(t[2])
            return None
        ft = self.full_type(t)
        if ft:
            if self.is_class(ft) or ft == "function":
                return True
            if base_type(ft) in ("list", "dict"):
                return self.nonempty(t, interp, st)
        return None

    def equal_terms(self, a, b, interp, st):
        return None

    def nonempty(self, i, interp, st):
        return True if self.full_type(i) and base_type(self.full_type(i)) in ("list", "dict") else None

    # -- calls
    def arg(self, args, kw, pos, name):
        if name in kw:
            return kw[name]
        if pos < len(args):
            return args[pos]
        return None

    def method(self, interp, st, base, name, args, kw, node):
        if not is_t(base):
            return None
        ft = self.full_type(base)
        if base[1] == "asdict":
            if name in ("get", "__getitem__", "pop") and args and args[0] == V(C("__class__")):
                return V(term("classtag", base[2]))
            return None
        if ft and self.is_class(ft):
            if name in ("copy", "__copy__", "__deepcopy__"):
                return V(term("copyof", base))
            if name == "as_dict":
                h = self.arg(args, kw, 0, "type_handle_ndarray")
                k = self.arg(args, kw, 1, "keep_function")
                return V(term("asdict", base, h if h is not None else V(C(0)), k if k is not None else V(FALSE)))
            if name == "compare":
                return self.nested_compare(interp, st, base, args, kw, node)
            if name in ("__eq__", "__ne__") and args:
                out = frozenset()
                for i in args[0]:
                    out |= V(interp.cmp1("==" if name == "__eq__" else "!=", base, i, st))
                return out
        return None

    def nested_compare(self, interp, st, base, args, kw, node):
        return None

    def call(self, interp, st, fn, args, kw, node):
        if fn[0] == "f" and fn[1].name == "import_class":
            tag = args[1] if len(args) > 1 else kw.get("class_name", UNKNOWN)
            mod = args[0] if args else kw.get("mod_name", UNKNOWN)
            self.calls.append(("import_class", mod, tag, interp.cur))
            if len(tag) == 1 and next(iter(tag))[:2] == ("t", "classtag"):
                return V(term("classref", next(iter(tag))[2]))
            return None
        if is_t(fn) and fn[1] == "classref":
            d = kw.get("init_dict")
            if d is not None and len(d) == 1 and not args and len(kw) == 1:
                i = next(iter(d))
                if i[:2] == ("t", "asdict") and i[2] == fn[2]:
                    return V(term("rebuilt", i[2], i[3], i[4]))
            return V(term("built", fn[2], tuple(sorted(kw.items()))))
        if fn[0] == "f" and fn[1].name == "check_var" and fn[1].module.name.endswith("._check"):
            return self.check_var(interp, st, args, kw, node)
        if fn[0] == "x" and fn[1] in VIEWS and args and args[0] and all(is_t(i) for i in args[0]):
            # same data, possibly seen with other dimensions
            return frozenset(i if i[1] == "view" else term("view", i) for i in args[0])
        if fn[0] == "bi" and fn[1] == "eval":
            return V(interp.mk_call("eval", None, args, kw))
        return None

    def check_var(self, interp, st, args, kw, node):
        """values whose type is certainly refused do not go on"""
        want = args[2] if len(args) > 2 else kw.get("expect_type")
        val = args[1] if len(args) > 1 else kw.get("value")
        if want is None or val is None or len(want) != 1 or not is_c(next(iter(want))):
            return V(NONE)
        want = next(iter(want))[2]
        ok = frozenset(i for i in val if self.admits(i, want, interp, st))
        if not ok:
            raise Raised("CheckTypeError", st)
        vnode = node.args[1] if len(node.args) > 1 else next((k.value for k in node.keywords if k.arg == "value"), None)
        if isinstance(vnode, ast.Name) and ok != val:
            st.env[vnode.id] = ok
        return V(NONE)

    def admits(self, i, want, interp, st):
        """False only when the type is certainly refused"""
        if i == NONE:
            return True
        t = interp.type_of(i, st)
        if t is None:
            return True
        w = base_type(want)
        if w in ("float", "complex", "int"):
            return t in ("int", "float") or (t == "complex" and w == "complex")
        if w in ("str", "bool", "list", "dict", "ndarray"):
            return t == w
        if w in self.p.classes:
            return interp.isinst(t, w) is not False
        return True


def stored(prog, ci):
    """stored attribute -> declared property and type, for one class"""
    out = {}
    for p, owner in sorted(ci.all_properties().items()):
        g, s = ci.find_property(p)
        t = prog.doc_type(ci, p) or prog.prop_type(ci, p)
        names = [a for a in prog.self_stores(s, set()) if a.startswith("_") and not a.startswith("__")]
        if not names:
            # set through a helper: the conventional name
            names = ["_" + p]
        for a in sorted(names):
            out[a] = (p, t if a == "_" + p else "str" if a.endswith("_str") else t)
    return out


def make(prog, o, st, interp, ci, tag, absent=()):
    """symbolic object of a class; attributes of the properties in `absent` are None"""
    fields = {"parent": V(IN(tag + ".parent"))}
    for a, (p, t) in stored(prog, ci).items():
        if p in absent or a in absent:
            fields[a] = V(NONE)
        else:
            i = IN("%s.%s" % (tag, a))
            fields[a] = V(i)
            if t:
                o.types[i] = t
    return interp.instance(st, ci, tag, fields)


def concrete(prog):
    """classes objects can be made of"""
    return [c for c in prog.data_classes() if c.find_method("copy") and c.find_method("as_dict")]


# -- comparing a stored value with its source -------------------------------------
def peel(i):
    """(root, fresh) of a whole-value copy or view chain, None when it is something else"""
    fresh = False
    while is_t(i):
        if i[1] == "call":
            n, b, a, k = i[2], i[3], i[4], i[5]
            if n in VIEWS and a:
                i = a[0]
                continue
            if n in COPIES and a:
                fresh, i = True, a[0]
                continue
            if n in (".copy", ".tolist", ".__copy__") and b is not None:
                fresh, i = True, b
                continue
            if n in (".squeeze", ".reshape", ".ravel", ".view") and b is not None:
                i = b
                continue
            if n in (".flatten",) and b is not None:
                fresh, i = True, b
                continue
            if n in ("list", "dict", "tuple") and a:
                fresh, i = True, a[0]
                continue
            return i, fresh
        if i[1] == "view":
            i = i[2]
            continue
        if i[1] == "listof":
            fresh, i = True, i[2]
            continue
        if i[1] == "slice" and i[3:] == (NONE, NONE, NONE):
            fresh, i = True, i[2]
            continue
        return i, fresh
    return i, fresh


class Verdict:
    def __init__(self):
        self.bad = []
        self.undecided = 0

    def add(self, kind, text):
        if (kind, text) not in self.bad:
            self.bad.append((kind, text))


def judge(value, src, t, st, prog, want, need_fresh):
    """does a stored value equal its source (a term), and is it independent of it

    want(term): the term standing for the accepted counterpart of a nested object"""
    v = Verdict()
    if value is None or not (value - {ABSENT}):
        v.add("lost", "never set")
        return v
    for i in sorted(value, key=repr):
        if i == ABSENT:
            v.add("lost", "not set on some path")
        elif i == U:
            v.undecided += 1
        elif i == NONE:
            v.add("lost", "None")
        elif t and (t in prog.classes):
            one(v, i, src, want)
        elif t and inner_type(t) in prog.classes:
            container(v, i, src, t, st, want, need_fresh)
        else:
            flat(v, i, src, t, st, need_fresh)
    return v


def one(v, i, src, want):
    if i == want(src):
        return
    if i == src:
        v.add("shared", "the same object")
    elif is_t(i) and i[1] in ("copyof", "rebuilt", "asdict") and i[2] == src:
        v.add("differs", show(i))
    elif is_t(i) and mentions(i, src):
        v.undecided += 1
    else:
        v.add("differs", show(i))


def container(v, i, src, t, st, want, need_fresh):
    inner = term("elem", src) if t[0] == "[" else term("val", src)
    if i[0] == "o":
        o = st.heap[i[1]]
        if o.kind == "dict" and t[0] == "{":
            ent = dict(o.pairs)
            key = term("key", src)
            if not ent and not o.fields:
                v.add("lost", "empty")
                return
            for k, x in ent.items():
                if k != key:
                    v.undecided += 1 if k == U or mentions(k, src) else 0
                    if not (k == U or mentions(k, src)):
                        v.add("differs", "entry under " + show(k))
                    continue
                if ABSENT in x:
                    v.add("lost", "some entries left out")
                for e in x - {ABSENT}:
                    if e == U:
                        v.undecided += 1
                    elif e == NONE:
                        v.add("lost", "some entries None")
                    else:
                        one(v, e, inner, want)
            for k in o.fields:
                if ABSENT not in o.fields[k]:
                    v.add("differs", "extra entry " + show(k))
            return
        if o.kind == "list" and t[0] == "[":
            if o.exact == ():
                v.add("lost", "empty")
                return
            el = o.all_elems()
            if not (o.must or o.exact):
                v.add("lost", "some elements left out")
            for e in el:
                if e == U:
                    v.undecided += 1
                elif e == NONE:
                    v.add("lost", "some elements None")
                else:
                    one(v, e, inner, want)
            return
        v.add("differs", "a " + o.kind)
        return
    if is_t(i):
        r, fresh = peel(i)
        if r == src:
            if want(inner) != inner:
                v.add("shared", "nested objects are the same objects" if fresh else "the same container")
            elif need_fresh and not fresh:
                v.add("shared", "the same container")
            return
        if i[1] == "call" and i[2] == "copy.deepcopy" and i[4] and i[4][0] == src:
            return
        if mentions(i, src):
            v.undecided += 1
            return
    v.add("differs", show(i))


def flat(v, i, src, t, st, need_fresh):
    mutable = t in ("ndarray", "list", "dict") or t is None
    if i[0] == "o":
        o = st.heap[i[1]]
        if o.kind == "list" and t == "list":
            if o.exact == ():
                v.add("lost", "empty")
            elif o.all_elems() == V(term("elem", src)):
                if not (o.must or o.exact):
                    v.add("lost", "some elements left out")
            else:
                v.undecided += 1
            return
        if o.kind == "dict" and t == "dict":
            if not o.pairs and not o.fields:
                v.add("lost", "empty")
            elif dict(o.pairs) == {term("key", src): V(term("val", src))} and not o.fields:
                pass
            else:
                x = dict(o.pairs).get(term("key", src))
                if x and ABSENT in x:
                    v.add("lost", "some entries left out")
                else:
                    v.undecided += 1
            return
        v.add("differs", "a new " + o.kind)
        return
    if is_c(i):
        v.add("differs", "always " + show(i))
        return
    r, fresh = peel(i)
    if is_t(i) and i[1] == "slice" and i[2] == src and t == "ndarray":
        fresh = False
    if r == src:
        if mutable and need_fresh and not fresh and t is not None:
            v.add("shared", "the same " + t)
        return
    if is_t(r) and r[1] == "in":
        v.add("differs", show(i))
        return
    if is_t(i) and mentions(i, src):
        v.undecided += 1
        return
    if is_t(i) and any(x[:2] == ("t", "in") for x in walk(i)):
        v.add("differs", show(i))
        return
    v.undecided += 1


def walk(i):
    if isinstance(i, (tuple, frozenset)):
        if isinstance(i, tuple) and i and isinstance(i[0], str):
            yield i
        for x in i:
            if isinstance(x, (tuple, frozenset)):
                yield from walk(x)


def mentions(i, t):
    return any(x == t for x in walk(i))


def where_prop(ci, p, meth):
    f = ci.find_method(meth)
    return f.where() if f is not None else ci.name


def feasible(prog, ci, absent):
    """can an object with these properties None be constructed at all"""
    o = ObjOracle(prog)
    it = Interp(prog, o)
    st = State()
    kw = {}
    init = ci.find_method("__init__")
    for a, (p, t) in stored(prog, ci).items():
        if p in absent or a in absent:
            kw.setdefault(p, V(NONE))
        elif a == "_" + p or p not in kw:
            i = IN("arg." + p)
            if t:
                o.types[i] = t
            kw[p] = V(i)
    kw = {k: v for k, v in kw.items() if k in init.params or k in init.kwonly}
    try:
        it.construct(ci, [], kw, None, st, ci.node)
    except Raised:
        return False
    return True
