"""P04: a copy equals its original and shares nothing with it."""
from sa.absint import NONE, Interp, Raised, State, V, is_t, show, term
from sa.model import Program

from . import objects as ob

TECHNIQUE = "flow-sensitive value-provenance analysis (term domain, heap objects per allocation site) of every copy method through constructors and setters"
NOTE = "assumes: plain lists and dictionaries hold immutable entries; nested objects copy correctly (induction over nesting)"


def analyse(prog, ci, absent):
    """(object, result value, state, interp) of copying a symbolic object"""
    o = ob.ObjOracle(prog)
    it = Interp(prog, o)
    st = State()
    me = ob.make(prog, o, st, it, ci, "self", absent)
    src = dict(st.heap[me[1]].fields)
    f = ci.find_method("copy")
    val, st = it.run(f, [V(me)], {}, st)
    return me, src, val, st, it, o


def check_class(prog, ci, absent, report):
    """judgements of every stored attribute of the copy"""
    me, src, val, st, it, o = analyse(prog, ci, absent)
    und = 0
    n = 0
    insts = [i for i in val if i[0] == "o" and st.heap[i[1]].kind == "inst"]
    for i in val:
        if i[0] == "o" and i == me:
            report("same object", "", "copying returns the object itself")
        elif i == NONE:
            report("nothing", "", "copying returns None")
        elif i not in insts:
            und += 1
    for i in insts:
        if i == me:
            continue
        obj = st.heap[i[1]]
        if obj.cls is not ci:
            report("class", "", "copying a %s gives a %s" % (ci.name, obj.cls.name))
            continue
        for a, (p, t) in sorted(ob.stored(prog, ci).items()):
            n += 1
            got = obj.fields.get(a)
            s = next(iter(src[a]))
            if not is_t(s):
                # None in the original
                if got is None:
                    report("lost", p, "property %s is not set in the copy" % p)
                elif got != src[a] and not any(x == ob.U for x in got) and not (got & src[a]):
                    report("differs", p, "property %s is None in the original but %s in the copy" % (p, show(got)))
                continue
            if a.endswith("_func") and a != "_" + p and got is not None and any(is_t(x) and x[1] == "call" and x[2] == "eval" for x in got):
                continue
            v = ob.judge(got, s, t, st, prog, lambda x: term("copyof", x), True)
            und += v.undecided
            for kind, text in v.bad:
                report(kind, p, {"lost": "property %s of the original is lost in the copy: %s", "shared": "property %s is shared between the copy and the original: %s",
                                 "differs": "property %s of the copy has another value: %s"}[kind] % (p, text))
    return n, und


def run(ctx):
    prog = ctx.prog
    ctx.rule("Every copy method is analysed on a symbolic object of its class, through the constructor and every setter, once with all properties set and once with each property None; each stored attribute of the result must be the original's value, freshly copied if mutable.")
    for ci in ob.concrete(prog):
        f = ci.find_method("copy")
        props = sorted(ci.all_properties())
        ctx.count("classes")
        for absent in [()] + [(p,) for p in props] + [tuple(props)]:
            def report(kind, p, msg):
                ctx.report("copy-" + kind, "%s.%s" % (ci.name, p or "copy"), f.where(), msg + (" (when %s is None)" % ", ".join(absent) if absent and len(absent) < 3 else ""))
            if absent and not ob.feasible(prog, ci, absent):
                ctx.count("scenarios that cannot be built")
                continue
            try:
                n, und = check_class(prog, ci, absent, report)
            except Raised as e:
                report("raises", "", "copying certainly raises %s" % e.exc)
                continue
            ctx.count("properties judged", n)
            ctx.count("undecided", und)
            ctx.obligation(n)
        ctx.sample("%s.copy: %d properties" % (ci.name, len(props)))
    ctx.need("classes", 14)
    ctx.need("properties judged", 400)
    bad = []
    s = Program.from_sources({"SciDataTool.Classes._frozen": FROZEN, "SciDataTool.Classes.Sample": SAMPLE})
    check_class(s, s.classes["Sample"], (), lambda k, p, m: bad.append((k, p)))
    ctx.selftest("sample copy", sorted(bad) == [("differs", "b"), ("lost", "d"), ("shared", "a")])


FROZEN = "class FrozenClass(object):\n    pass\n"
SAMPLE = '''
from ._frozen import FrozenClass
class Sample(FrozenClass):
    def __init__(self, a=None, b=None, c=None, d=None):
        self.a = a
        self.b = b
        self.c = c
        self.d = d
    def as_dict(self):
        return {}
    def copy(self):
        return type(self)(a=self.a, b=self.c, c=self.c.copy())
    def _get_a(self):
        return self._a
    def _set_a(self, value):
        self._a = value
    a = property(fget=_get_a, fset=_set_a, doc=u"""x

        :Type: ndarray
        """)
    def _get_b(self):
        return self._b
    def _set_b(self, value):
        self._b = value
    b = property(fget=_get_b, fset=_set_b, doc=u"""x

        :Type: str
        """)
    def _get_c(self):
        return self._c
    def _set_c(self, value):
        self._c = value
    c = property(fget=_get_c, fset=_set_c, doc=u"""x

        :Type: ndarray
        """)
    def _get_d(self):
        return self._d
    def _set_d(self, value):
        self._d = value
    d = property(fget=_get_d, fset=_set_d, doc=u"""x

        :Type: ndarray
        """)
'''
