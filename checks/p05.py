"""P05: export to a dictionary and rebuild preserve every property."""
from sa.absint import ABSENT, C, FALSE, NONE, TRUE, U, Interp, Raised, State, V, is_c, is_t, show, term
from sa.model import Program

from . import objects as ob

TECHNIQUE = "flow-sensitive value-provenance analysis of every dictionary export followed by construction from that dictionary (term domain, all array-handling modes)"
NOTE = "assumes: nested objects export and rebuild correctly (induction over nesting); numpy array(list(x)) equals x"


def analyse(prog, ci, absent, h, k):
    o = ob.ObjOracle(prog)
    it = Interp(prog, o)
    st = State()
    me = ob.make(prog, o, st, it, ci, "self", absent)
    src = dict(st.heap[me[1]].fields)
    val, st = it.run(ci.find_method("as_dict"), [V(me)], {"type_handle_ndarray": V(C(h)), "keep_function": V(C(k))}, st)
    return src, val, st, it, o


def exported(prog, d, src, st, ci, h, k, report):
    """the dictionary itself: every property under its name, handled as requested"""
    n = und = 0
    for a, (p, t) in sorted(ob.stored(prog, ci).items()):
        if a != "_" + p:
            continue
        s = next(iter(src[a]))
        got = d.fields.get(C(p))
        n += 1
        if got is None:
            if not d.pairs:
                report("missing", p, "property %s is missing from the exported dictionary" % p)
            continue
        if not is_t(s):
            if not (got & V(NONE)) and U not in got:
                report("exported", p, "property %s is None but exported as %s" % (p, show(got)))
            continue
        if t == "ndarray":
            for i in got:
                r, fresh = ob.peel(i)
                if r != s:
                    continue
                kind = ob.ObjOracle.full_type(ORC(s, t), i)
                if h == 0 and kind == "ndarray":
                    report("handling", p, "array property %s is exported as an array although lists are requested" % p)
                elif h == 1 and (kind == "list" or not fresh):
                    report("handling", p, "array property %s is exported %s although a copy is requested" % (p, "as a list" if kind == "list" else "without copy"))
                elif h == 2 and (kind == "list" or fresh):
                    report("handling", p, "array property %s is exported as %s although it is requested as is" % (p, "a list" if kind == "list" else "a copy"))
    tag = d.fields.get(C("__class__"))
    if tag is None:
        report("tag", "__class__", "the exported dictionary does not tell the class")
    elif U not in tag and all(is_c(i) for i in tag) and tag != V(C(ci.name)):
        report("tag", "__class__", "the exported dictionary of a %s says class %s" % (ci.name, show(tag)))
    return n, und


class ORC(ob.ObjOracle):
    def __init__(self, s, t):
        self.types = {s: t}


def check_class(prog, ci, absent, h, k, report):
    n = und = 0
    src, val, st, it, o = analyse(prog, ci, absent, h, k)
    want = lambda x: term("rebuilt", x, V(C(h)), V(C(k)))
    for i in val:
        if i[0] != "o" or st.heap[i[1]].kind != "dict":
            if i == NONE:
                report("nothing", "as_dict", "exporting returns None")
            und += 1
            continue
        d = st.heap[i[1]]
        x, y = exported(prog, d, src, st, ci, h, k, report)
        n, und = n + x, und + y
        s2 = st.copy()
        new = it.construct(ci, [], {"init_dict": V(i)}, None, s2, ci.node)
        obj = s2.heap[next(iter(new))[1]]
        for a, (p, t) in sorted(ob.stored(prog, ci).items()):
            n += 1
            got = obj.fields.get(a)
            s = next(iter(src[a]))
            if a != "_" + p and a.endswith("_func"):
                if not is_t(s) or (got and any(is_t(q) and q[1] == "call" and q[2] == "eval" for q in got)):
                    continue
                if not k:
                    continue
            if not is_t(s):
                if got is None:
                    report("lost", p, "property %s is not set in the rebuilt object" % p)
                elif U not in got and not (got & src[a]):
                    report("differs", p, "property %s is None in the original but %s in the rebuilt object" % (p, show(got)))
                continue
            v = ob.judge(got, s, t, s2, prog, want, False)
            und += v.undecided
            for kind, text in v.bad:
                if kind == "shared" and t == "ndarray":
                    continue
                report(kind, p, {"lost": "property %s is lost by export and rebuild: %s", "shared": "the rebuilt object holds the original's %s: %s",
                                 "differs": "property %s has another value after export and rebuild: %s"}[kind] % (p, text))
    return n, und


def scenarios(ci):
    props = sorted(ci.all_properties())
    for h in (0, 1, 2):
        yield (), h, h == 2
    for p in props:
        yield (p,), 0, False
    yield tuple(props), 0, False


def run(ctx):
    prog = ctx.prog
    ctx.rule("For every class the exported dictionary of a symbolic object is computed for each array-handling mode, then an object is constructed from it; each stored attribute must come back as the original's value, nested objects exported with the same modes, and arrays must be exported in the requested form.")
    for ci in ob.concrete(prog):
        f = ci.find_method("as_dict")
        ctx.count("classes")
        for absent, h, k in scenarios(ci):
            def report(kind, p, msg):
                ctx.report("dict-" + kind, "%s.%s" % (ci.name, p), f.where(), msg + (" (type_handle_ndarray=%d%s)" % (h, ", %s None" % absent if len(absent) == 1 else "")))
            if absent and not ob.feasible(prog, ci, absent):
                ctx.count("scenarios that cannot be built")
                continue
            try:
                n, und = check_class(prog, ci, absent, h, k, report)
            except Raised as e:
                report("raises", "", "exporting and rebuilding certainly raises %s" % e.exc)
                continue
            ctx.count("properties judged", n)
            ctx.count("undecided", und)
            ctx.obligation(n)
        # a callable without source text
        for a, (p, t) in ob.stored(prog, ci).items():
            if a.endswith("_str") and a != "_" + p:
                def report(kind, p, msg):
                    ctx.report("dict-" + kind, "%s.%s" % (ci.name, p), f.where(), msg + " (callable, keep_function=True)")
                try:
                    n, und = check_class(prog, ci, (a,), 2, True, report)
                    ctx.obligation(n)
                except Raised as e:
                    report("raises", p, "exporting and rebuilding certainly raises %s" % e.exc)
        ctx.sample("%s: %d properties, modes 0, 1, 2, each property None" % (ci.name, len(ci.all_properties())))
    ctx.need("classes", 14)
    ctx.need("properties judged", 800)
