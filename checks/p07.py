"""P07: every assignment to an object is validated."""
from sa.absint import ABSENT, C, FALSE, NONE, TRUE, U, UNKNOWN, Interp, Obj, Raised, State, V, is_c, is_t, show, term
from sa.model import AnalysisError, Program

from . import objects as ob

TECHNIQUE = "abstract interpretation of every property setter and constructor over a finite domain of value kinds, and of attribute assignment on constructed objects"
NOTE = "assumes: None (unset) is accepted by every property; values meant to be converted (lists for arrays, dictionaries or file names for nested objects) are outside the refused kinds"

KINDS = ("int", "float", "complex", "str", "bool", "list", "dict", "tuple", "ndarray", "set", "function")
NUM = {"float": ("int", "float"), "complex": ("int", "float", "complex"), "int": ("int", "float")}


class KindOracle(ob.ObjOracle):
    """nothing assumed about the validation helpers: they are analysed"""

    def __init__(self, prog):
        ob.ObjOracle.__init__(self, prog)
        self.shapes = None

    def check_var(self, interp, st, args, kw, node):
        return None

    def truth(self, t, interp, st):
        if t[1] == "isinstance":
            ft = self.full_type(t[2])
            n = interp.tname(t[3], st) or (t[3][1].split(".")[-1] if t[3][0] == "x" else None)
            if ft and n:
                return interp.isinst(ob.base_type(ft), n)
            if ft and t[3][0] == "tu":
                ns = [interp.tname(x, st) or (x[1].split(".")[-1] if x[0] == "x" else None) for y in t[3][1] for x in y]
                if all(ns):
                    return any(interp.isinst(ob.base_type(ft), n) for n in ns)
        if self.shapes is not None and t[1] == "cmp" and t[2] == "==":
            k = [shape_kind(x) for x in t[3:5]]
            if "shape" in k:
                return False
            if "rank" in k or "size" in k:
                return True
        return ob.ObjOracle.truth(self, t, interp, st)


def shape_kind(t):
    if not is_t(t):
        return None
    if t[1] == "attr" and t[3] == "shape":
        return "shape"
    if t[1] == "attr" and t[3] == "ndim":
        return "rank"
    if t[1] == "attr" and t[3] == "size":
        return "size"
    if t[1] == "call" and t[2] == "len" and t[4] and shape_kind(t[4][0]) == "shape":
        return "rank"
    if t[1] == "call" and t[2] in ("tuple", "list") and t[4]:
        return shape_kind(t[4][0])
    if t[1] in ("listof",):
        return shape_kind(t[2])
    if t[1] == "call" and t[2].split(".")[-1] in ("prod", "size") and t[4]:
        return "size"
    if t[1] == "call" and t[2] == "numpy.shape":
        return "shape"
    return None


def refused(prog, t):
    """kinds of value that must be refused by a property of declared type t"""
    if t is None or t == "function":
        return ["int", "float", "list", "dict", "tuple", "ndarray"] if t == "function" else []
    b = ob.base_type(t)
    out = []
    others = [c.name for c in (prog.classes.get("Normalization"), prog.classes.get("Data1D"), prog.classes.get("VectorField")) if c is not None]
    for k in list(KINDS) + others:
        if k == b or k in NUM.get(b, ()):
            continue
        if b == "ndarray" and k == "list":
            continue
        if b in prog.classes:
            if k in ("dict", "str"):
                continue
            if k in prog.classes and prog.classes[k].is_sub(prog.classes[b]):
                continue
        if b not in prog.classes and b not in KINDS:
            continue
        out.append(k)
    i = ob.inner_type(t)
    if i in prog.classes:
        w = "[%s]" if t[0] == "[" else "{%s}"
        for k in ["complex", "tuple", "bool", "function"] + [c for c in others if not prog.classes[c].is_sub(prog.classes[i])]:
            if k == "bool" and i == "Normalization":
                continue
            out.append(w % k)
            out.append(w % ("%s,%s" % (good(prog, i), k)))
    return out


def good(prog, i):
    """a concrete class acceptable as element"""
    return next(c.name for c in ob.concrete(prog) if c.is_sub(prog.classes[i]))


def value_of(o, it, st, kind):
    """a value of that kind; '[A,B]' is a list of an A followed by a B"""
    if kind[0] in "[{" and "," in kind:
        e = []
        for n, k in enumerate(kind[1:-1].split(",")):
            x = ob.IN("element %d" % n)
            o.types[x] = k
            e.append(V(x))
        if kind[0] == "[":
            return it.new(st, ("given",), Obj("list", exact=tuple(e)))
        return it.new(st, ("given",), Obj("dict", None, {C("entry %d" % n): x for n, x in enumerate(e)}))
    v = ob.IN("new value")
    o.types[v] = kind
    return v


def try_setter(prog, ci, p, kind):
    """assign a value of that kind: ('raises', kept) or ('accepted', stored value)"""
    o = KindOracle(prog)
    it = Interp(prog, o)
    st = State()
    me = ob.make(prog, o, st, it, ci, "self")
    old = dict(st.heap[me[1]].fields)
    v = value_of(o, it, st, kind)
    s = ci.find_property(p)[1]
    names = [a for a, (q, _) in ob.stored(prog, ci).items() if q == p]
    try:
        _, st = it.run(s, [V(me), V(v)], {}, st)
    except Raised as e:
        f = e.state.heap.get(me[1])
        f = f.fields if f is not None else old
        kept = all(f.get(a) == old[a] or U in f.get(a, UNKNOWN) for a in names)
        return "raises", kept, it
    f = st.heap[me[1]].fields
    if any(U in f.get(a, UNKNOWN) for a in names):
        return "unknown", None, it
    if all(f.get(a) == old[a] for a in names):
        return "ignored", None, it
    return "accepted", show(frozenset().union(*[f[a] for a in names])), it


def try_ctor(prog, ci, p, kind, how):
    o = KindOracle(prog)
    it = Interp(prog, o)
    st = State()
    v = value_of(o, it, st, kind)
    kw = {p: V(v)}
    if how == "dict":
        d = it.new(st, ("input",), ob.Obj("dict", None, {C(p): V(v)}))
        kw = {"init_dict": V(d)}
    try:
        it.construct(ci, [], kw, None, st, ci.node)
    except Raised:
        return "raises"
    return "accepted"


def frozen_after(prog, ci):
    """is the object closed for new attributes after construction with defaults"""
    o = KindOracle(prog)
    it = Interp(prog, o)
    st = State()
    try:
        r = it.construct(ci, [], {}, None, st, ci.node)
    except Raised:
        return None
    f = st.heap[next(iter(r))[1]].fields
    return next((f[k] for k in f if k.endswith("__isfrozen")), V(FALSE)), st, next(iter(r)), it


def set_new(prog, ci, st, me, it):
    m = ci.find_method("__setattr__")
    if m is None:
        return "accepted"
    try:
        it.run(m, [V(me), V(C("undeclared_attribute")), V(C(1))], {}, st.copy())
    except Raised:
        return "raises"
    return "accepted"


def try_shape(prog, ci):
    """assign an array whose shape differs from the axes"""
    o = KindOracle(prog)
    o.shapes = True
    it = Interp(prog, o)
    st = State()
    me = ob.make(prog, o, st, it, ci, "self")
    v = ob.IN("new value")
    o.types[v] = "ndarray"
    try:
        _, st = it.run(ci.find_property("values")[1], [V(me), V(v)], {}, st)
    except Raised as e:
        f = e.state.heap.get(me[1])
        return "raises" if f is None or f.fields.get("_values") == V(ob.IN("self._values")) else "overwritten"
    got = st.heap[me[1]].fields.get("_values", UNKNOWN)
    return "unknown" if U in got else "accepted"


def run(ctx):
    prog = ctx.prog
    ctx.rule("For every declared property the setter is evaluated on a value of each kind its declared type excludes: it must raise and leave the stored value; the same through the constructor and an initialisation dictionary.")
    ctx.rule("After construction with defaults every object must be closed for new attributes, and assigning an undeclared one must raise; assigning field values whose shape differs from the axes must raise.")
    done = set()
    for ci in ob.concrete(prog):
        ctx.count("classes")
        for p, owner in sorted(ci.all_properties().items()):
            t = prog.doc_type(ci, p)
            if t is None:
                raise AnalysisError("declared type of %s.%s not found" % (ci.name, p))
            s = ci.find_property(p)[1]
            if (owner.name, p, id(s.node)) not in done:
                done.add((owner.name, p, id(s.node)))
                ctx.count("setters")
                for k in refused(prog, t):
                    r, x, it = try_setter(prog, ci, p, k)
                    ctx.count("assignments judged")
                    ctx.obligation()
                    if r == "accepted":
                        ctx.report("assign-accepted", "%s.%s=%s" % (owner.name, p, k), s.where(), "property %s (%s) accepts a value of type %s" % (p, t, k))
                    elif r == "ignored":
                        ctx.report("assign-ignored", "%s.%s=%s" % (owner.name, p, k), s.where(), "assigning a value of type %s to property %s (%s) is ignored without an error" % (k, p, t))
                    elif r == "raises" and not x:
                        ctx.report("assign-lost", "%s.%s=%s" % (owner.name, p, k), s.where(), "property %s (%s) loses its previous value when a value of type %s is refused" % (p, t, k))
                    elif r == "unknown":
                        ctx.count("undecided")
            init = ci.find_method("__init__")
            for k in refused(prog, t)[:3]:
                for how in ("argument", "dict"):
                    if how == "argument" and p not in init.params:
                        continue
                    ctx.count("constructions judged")
                    ctx.obligation()
                    if try_ctor(prog, ci, p, k, how) == "accepted":
                        ctx.report("construct-accepted", "%s.%s=%s" % (ci.name, p, k), init.where(), "constructing %s with %s of type %s (%s) does not raise (%s expected)" % (ci.name, p, k, how, t))
        ctx.obligation()
        r = frozen_after(prog, ci)
        if r is None:
            ctx.report("construct-raises", ci.name, ci.find_method("__init__").where(), "constructing %s with defaults certainly raises" % ci.name)
            continue
        if r[0] == V(FALSE) or FALSE in r[0]:
            ctx.report("not-frozen", ci.name, ci.find_method("__init__").where(), "a constructed %s accepts undeclared attributes: it is not closed at the end of its construction" % ci.name)
        elif set_new(prog, ci, r[1], r[2], r[3]) == "accepted":
            m = ci.find_method("__setattr__")
            ctx.report("not-frozen", ci.name, m.where() if m else ci.name, "assigning an undeclared attribute to a constructed %s does not raise" % ci.name)
        if ci in prog.field_classes():
            ctx.count("shape checks")
            ctx.obligation()
            r = try_shape(prog, ci)
            s = ci.find_property("values")[1]
            if r == "accepted":
                ctx.report("shape-accepted", ci.name + ".values", s.where(), "a %s accepts values whose shape does not match its axes" % ci.name)
            elif r == "overwritten":
                ctx.report("shape-overwritten", ci.name + ".values", s.where(), "a %s loses its values when values of another shape are refused" % ci.name)
            elif r == "unknown":
                ctx.count("undecided")
        ctx.sample("%s: %d properties" % (ci.name, len(ci.all_properties())))
    ctx.need("classes", 14)
    ctx.need("setters", 40)
    ctx.need("assignments judged", 400)
    ctx.need("shape checks", 4)
