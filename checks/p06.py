"""P06: equality and comparison see every property and name it."""
import ast
import re

from sa.absint import ABSENT, C, FALSE, NONE, TRUE, U, Interp, Obj, Raised, State, V, is_c, is_t, show, term
from sa.model import Program

from . import objects as ob

TECHNIQUE = "conditional constant propagation over the term domain: equality and comparison methods of every class evaluated under 'only this property differs' and 'nothing differs'"
NOTE = "assumes: nested objects compare correctly (induction over nesting); elementwise comparison of equal containers is equal"


class PairOracle(ob.ObjOracle):
    """two objects; the attributes in `differ` differ, all others are equal"""

    def __init__(self, prog, differ=(), how="value"):
        ob.ObjOracle.__init__(self, prog)
        self.differ, self.how = set(differ), how

    def side(self, i):
        """(side, attribute, what) of a term taken from one stored attribute"""
        what = ""
        while is_t(i):
            if i[1] == "in":
                s, _, a = i[2].partition(".")
                return s, a, what
            if i[1] in ("elem", "val", "view"):
                what = "value" if i[1] != "view" else what
                i = i[2]
            elif i[1] in ("key", "idx", "listof", "keys", "values", "items"):
                what = {"keys": "key", "listof": what, "values": "value", "items": "value"}.get(i[1], i[1])
                i = i[2]
            elif i[1] == "call" and i[2] == "len" and i[4]:
                what = "len"
                i = i[4][0]
            elif i[1] == "call" and i[2] in ("set", "sorted", "frozenset", "list", "tuple", "numpy.array", "numpy.asarray") and i[4]:
                i = i[4][0]
            elif i[1] == "call" and i[2] in (".tolist", ".copy") and i[3] is not None:
                i = i[3]
            elif i[1] == "attr":
                what = i[3] if i[3] in ("shape", "size") else "part"
                i = i[2]
            else:
                return None
        return None

    def equal_terms(self, a, b, interp, st):
        x, y = self.side(a), self.side(b)
        if not x or not y or x[0] == y[0] or x[1] != y[1]:
            return None
        if x[1] not in self.differ:
            return True
        w = {x[2], y[2]}
        if w == {""}:
            return False
        if w == {"len"} or w <= {"shape", "size"}:
            return self.how != "len"
        if w == {"key"}:
            return self.how not in ("len", "key")
        if w == {"value"}:
            return False if self.how == "value" else None
        return None

    def nested_compare(self, interp, st, base, args, kw, node):
        other = self.arg(args, kw, 0, "other")
        name = self.arg(args, kw, 1, "name")
        if other is None or len(other) != 1:
            return None
        r = self.equal_terms(base, next(iter(other)), interp, st)
        site = interp.site(node, "list")
        if r is True:
            return V(interp.new(st, site, Obj("list")))
        if r is False:
            n = V(term("diffname", name if name is not None else V(C("self"))))
            return V(interp.new(st, site, Obj("list", elems=n, exact=None, must=V(n))))
        return None

    def method(self, interp, st, base, name, args, kw, node):
        # other.d[key of self.d]: missing when the keys differ
        if name == "__getitem__" and self.how == "key" and args and len(args[0]) == 1:
            k = next(iter(args[0]))
            if is_t(k) and k[1] == "key":
                x, y = self.side(base), self.side(k[2])
                if x and y and x[0] != y[0] and x[1] == y[1] and x[1] in self.differ:
                    raise Raised("KeyError", st)
        return ob.ObjOracle.method(self, interp, st, base, name, args, kw, node)


def run_pair(prog, ci, meth, differ=(), how="value", none=(), absent=(), kw=None):
    """result of self.meth(other); `none` = (side, attribute) pairs that are None"""
    o = PairOracle(prog, differ, how)
    it = Interp(prog, o)
    st = State()
    objs = {}
    for side in ("self", "other"):
        i = ob.make(prog, o, st, it, ci, side, [a for s, a in none if s == side] + list(absent))
        objs[side] = i
    kw = dict(kw or {})
    if meth == "compare" and "name" in ci.find_method(meth).params:
        kw["name"] = V(ob.IN("label"))
        o.types[ob.IN("label")] = "str"
    v, st = it.run(ci.find_method(meth), [V(objs["self"]), V(objs["other"])], kw, st)
    return v, st, it


def outcome(v, it, st):
    out = set()
    for i in v:
        out.add(it.truth(i, st))
    return out


def texts(i):
    """constant texts an abstract string is made of"""
    if isinstance(i, (tuple, frozenset)):
        if isinstance(i, tuple) and len(i) == 3 and i[0] == "c":
            if isinstance(i[2], str):
                yield i[2]
            return
        for x in i:
            yield from texts(x)


def names_in(i, props):
    ts = list(texts(i))
    out = set()
    for t in ts:
        for w in re.findall(r"[A-Za-z_][A-Za-z_0-9]*", t):
            if w in props:
                out.add(w)
    return out


def listing(v, st):
    """(must values, may items, decided) of a returned list"""
    must, may, ok = [], set(), True
    for i in v:
        if i[0] == "o" and st.heap[i[1]].kind == "list":
            o = st.heap[i[1]]
            must.append(list(o.exact or ()) + list(o.must))
            may |= o.all_elems()
        else:
            ok = False
    return must, may, ok and U not in may


def scen(prog, ci):
    """differing scenarios: (attribute, property, type, how, none)"""
    for a, (p, t) in sorted(ob.stored(prog, ci).items()):
        hows = ["value"]
        if t and ob.base_type(t) in ("list", "dict") and ob.inner_type(t):
            hows = ["value", "len"] + (["key"] if t[0] == "{" else [])
        for h in hows:
            yield a, p, t, h, ()
        yield a, p, t, "value", (("self", a),)
        yield a, p, t, "value", (("other", a),)


def paired(a, p, ci, prog):
    """attributes that hold the same property in two forms"""
    return [b for b, (q, _) in ob.stored(prog, ci).items() if q == p and b != a]


def check_class(prog, ci, report, ctx=None):
    props = set(ci.all_properties())
    n = und = 0
    eq, cmp_ = ci.find_method("__eq__"), ci.find_method("compare")
    for absent in ((), tuple(sorted(ob.stored(prog, ci)))):
        # nothing differs
        for meth in ("__eq__", "compare"):
            n += 1
            try:
                v, st, it = run_pair(prog, ci, meth, absent=absent)
            except Raised as e:
                report("raises", meth, "comparing two equal objects certainly raises %s" % e.exc)
                continue
            if meth == "__eq__":
                out = outcome(v, it, st)
                if out == {False}:
                    report("unequal", meth, "two equal objects compare unequal")
                elif out != {True}:
                    und += 1
            else:
                must, may, ok = listing(v, st)
                if must and all(must):
                    report("unequal", meth, "a difference is listed between two equal objects: %s" % show(must[0][0]))
                elif may or not ok:
                    und += 1
    for a, p, t, how, none in scen(prog, ci):
        twin = paired(a, p, ci, prog)
        if twin and not none:
            # text and function of one property: the text differs, or only the functions differ (no text)
            kinds = [((a,) + tuple(twin), ())] if a.endswith("_str") else [((a,), tuple((s, b) for b in twin if b.endswith("_str") for s in ("self", "other")))]
        elif twin:
            continue
        else:
            kinds = [((a,), none)]
        for differ, nn in kinds:
            label = "property %s %s" % (p, {"len": "has another length", "key": "has other keys", "value": "differs"}[how]) + (" (None on one side)" if none else "")
            for meth, kw in (("__eq__", {}), ("compare", {}), ("compare", {"is_add_value": V(TRUE)})):
                n += 1
                try:
                    v, st, it = run_pair(prog, ci, meth, differ, how, nn, kw=kw)
                except Raised as e:
                    report("raises", "%s.%s" % (p, meth), "%s: the comparison certainly raises %s" % (label, e.exc))
                    continue
                if meth == "__eq__":
                    out = outcome(v, it, st)
                    if out == {True}:
                        report("unseen", "%s.%s" % (p, meth), "%s and the objects still compare equal" % label)
                    elif out != {False}:
                        und += 1
                    continue
                if v == V(NONE):
                    report("unseen", "%s.%s" % (p, meth), "the comparison returns None instead of the differences")
                    continue
                must, may, ok = listing(v, st)
                if not may and ok:
                    report("unseen", "%s.%s" % (p, meth), "%s and no difference is listed" % label)
                elif ok and may and not any(p in names_in(i, props) for i in may):
                    report("misnamed", "%s.%s" % (p, meth), "%s and the listing does not name it: %s" % (label, show(frozenset(may))))
                elif not (must and all(must)) or not ok:
                    und += 1
                if ok:
                    for i in may:
                        w = names_in(i, props)
                        if w and p not in w:
                            report("misnamed", "%s.%s" % (p, meth), "%s and the listing names %s" % (label, ", ".join(sorted(w))))
    return n, und


def run(ctx):
    prog = ctx.prog
    ctx.rule("For every class and declared property, equality and comparison are evaluated on two symbolic objects that differ in that property only (another value, another length, other keys, None on one side): equality must be false, the listing must be non-empty and name it; on equal objects equality must be true and the listing empty.")
    for ci in ob.concrete(prog):
        ctx.count("classes")

        def report(kind, what, msg):
            f = ci.find_method(what.split(".")[-1]) or ci.find_method("compare")
            ctx.report("compare-" + kind, "%s.%s" % (ci.name, what), f.where(), "%s: %s" % (ci.name, msg))
        n, und = check_class(prog, ci, report)
        ctx.count("scenarios", n)
        ctx.count("undecided", und)
        ctx.obligation(n)
        ctx.sample("%s: %d scenarios" % (ci.name, n))
    ctx.need("classes", 14)
    ctx.need("scenarios", 1000)
