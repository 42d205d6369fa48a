"""P16: the two frames of a vector field are mutually inverse and complete."""
import itertools

from sa.absint import ABSENT, C, NONE, U, UNKNOWN, Interp, Obj, Oracle, Raised, State, V, is_c, is_t, show, term
from sa.algebra import ONE, NotAlgebraic, Poly, Rat, ZERO, atom, number, rat
from sa.model import AnalysisError

TECHNIQUE = "symbolic evaluation of every change of frame over the components present, compared as exact linear forms (rational-function normal forms modulo cos^2+sin^2=1)"
NOTE = "assumes: extraction along axes, magnitude and harmonics act on one component at a time; the angle axis of the extracted data is that of its values"

FRAMES = {"xyz": ("comp_x", "comp_y", "comp_z"), "rphiz": ("radial", "tangential", "axial")}
REQUESTS = (("time", "angle"), ("time", "angle[smallestperiod]"), ("time", "angle[0]"), ("time",), ("time", "wavenumber"), ("freqs", "angle"))
STAGES = {"get_along": "along", "get_magnitude_along": "magnitude", "get_harmonics": "harmonics"}
LAYOUT = ("numpy.squeeze", "numpy.reshape", "numpy.array", "numpy.asarray", "numpy.copy", "numpy.expand_dims")
PHI, J = ("t", "phi"), ("j",)
COS, SIN = ("cos",), ("sin",)


# -- algebra of rotations ---------------------------------------------------------
def reduce(p):
    """polynomial with sin^2 = 1 - cos^2 and j^2 = -1"""
    out = {}
    todo = list(p.t.items())
    while todo:
        m, c = todo.pop()
        d = dict(m)
        if d.get(J, 0) >= 2:
            d[J] -= 2
            todo.append((mono(d), -c))
        elif d.get(SIN, 0) >= 2:
            d[SIN] -= 2
            todo.append((mono(d), c))
            d[COS] = d.get(COS, 0) + 2
            todo.append((mono(d), -c))
        else:
            out[m] = out.get(m, 0) + c
    return Poly(out)


def mono(d):
    return tuple(sorted(((k, e) for k, e in d.items() if e), key=repr))


def same(a, b):
    return not reduce((a - b).n).t


def split(r):
    """real and imaginary part, all atoms but j being real"""
    d = reduce(r.d)
    if any(dict(m).get(J) for m in d.t):
        raise NotAlgebraic("complex denominator")
    n = reduce(r.n)
    re = Poly({m: c for m, c in n.t.items() if not dict(m).get(J)})
    im = Poly({mono({k: e for k, e in m if k != J}): c for m, c in n.t.items() if dict(m).get(J)})
    return Rat(re, d), Rat(im, d)


class Form:
    """normal form of a field or axis formula; `phi` and `points` name the angle and the point coordinates"""

    def __init__(self, leafs=None, phi=PHI, point=None, is_real=False):
        self.leafs, self.phi, self.point, self.is_real = leafs or {}, phi, point, is_real

    def __call__(self, i):
        return rat(i, self.leaf)

    def angle(self, i):
        """+1 or -1 when the term is plus or minus the angle (to a multiple of a turn)"""
        r = self(i)
        d = r - atom(self.phi)
        if turns(d):
            return 1
        if turns(r + atom(self.phi)):
            return -1
        raise NotAlgebraic("angle")

    def leaf(self, i):
        if i in self.leafs:
            return self.leafs[i]
        if i == self.phi:
            return atom(self.phi)
        if is_c(i) and isinstance(i[2], complex):
            return number(i[2].real) + number(i[2].imag) * atom(J)
        if not is_t(i):
            return None
        if i[1] in ("slice of", "along", "magnitude", "harmonics"):
            return self(i[2])
        if i[1] == "bin" and i[2] == "%":
            if not same(self(i[4]), number(2) * atom(PI)):
                raise NotAlgebraic("remainder")
            return self(i[3])
        if i[1] == "attr" and i[3] in ("real", "imag"):
            return self.part(i[2], i[3])
        if i[1] != "call":
            return None
        n, a = i[2], i[4]
        short = n.split(".")[-1]
        if short in ("zeros", "zeros_like"):
            return Rat(ZERO)
        if short in ("full", "full_like") and len(a) > 1:
            return self(a[1])
        if n.startswith("numpy.") or n.startswith("math."):
            if short == "cos":
                self.angle(a[0])
                return atom(COS)
            if short == "sin":
                return number(self.angle(a[0])) * atom(SIN)
            if short == "exp":
                r = self(a[0])
                for k in (1, -1):
                    if turns(split(r)[1] - number(k) * atom(self.phi)) and not split(r)[0].n.t:
                        return atom(COS) + number(k) * atom(J) * atom(SIN)
                raise NotAlgebraic("exp")
            if short in ("real", "imag"):
                return self.part(a[0], short)
            if short in ("abs", "absolute", "hypot", "angle", "arctan2", "sqrt"):
                return self.polar(short, a)
        if n == "abs":
            return self.polar("abs", a)
        return None

    def part(self, i, which):
        if not self.is_real:
            raise NotAlgebraic("part of a complex field")
        return split(self(i))[0 if which == "real" else 1]

    def polar(self, short, a):
        if self.point is None:
            raise NotAlgebraic(short)
        x, y = self.point
        if short in ("hypot", "arctan2"):
            p, q = self(a[0]), self(a[1])
            if short == "arctan2":
                p, q = q, p
        elif short == "sqrt":
            if same(self(a[0]), x * x + y * y):
                return atom(("radius",))
            raise NotAlgebraic(short)
        else:
            p, q = split(self(a[0]))
        is_radius = short in ("abs", "absolute", "hypot")
        if same(p, x) and same(q, y):
            return atom(("radius",)) if is_radius else atom(("angle",))
        for u, v in [(u, v) for u in (x, y, Rat(ZERO)) for v in (x, y, Rat(ZERO))]:
            if same(p, u) and same(q, v):
                return atom(("radius" if is_radius else "angle", "other point"))
        raise NotAlgebraic(short)


PI = ("x", "numpy.pi")


def turns(r):
    """a whole number of turns"""
    for k in range(-2, 3):
        if same(r, number(2 * k) * atom(PI)):
            return True
    return False


# -- vector fields ----------------------------------------------------------------
class FrameOracle(Oracle):
    """components are objects with values; extraction keeps track of what was asked"""

    def __init__(self, prog):
        self.p = prog
        self.n = 0
        self.odd = []

    def comp(self, interp, st, values, symbol, like="component"):
        self.n += 1
        return interp.new(st, (like, self.n), Obj("inst", None, {
            "values": values, "symbol": symbol, "name": V(("t", "name", next(iter(symbol)))), "unit": V(("t", "unit")), "axes": V(("t", "axes")),
            "normalizations": V(("t", "norms")), "parent": V(NONE)}))

    def is_comp(self, b, st):
        return b[0] == "o" and st.heap[b[1]].kind == "inst" and "values" in st.heap[b[1]].fields and st.heap[b[1]].cls is None

    def type_of(self, i, interp, st):
        if is_t(i) and i[1] in ("name", "symbol", "unit"):
            return "str"
        if is_t(i) and i[1] in ("field", "along", "slice of"):
            return "ndarray"
        if i[0] == "o" and self.is_comp(i, st):
            return "DataND"
        return None

    def attr(self, interp, st, b, name):
        return V(("t", "method", b, name)) if self.is_comp(b, st) else None

    def call(self, interp, st, fn, args, kw, node):
        if is_t(fn) and fn[1] == "method":
            return self.request(interp, st, fn[2], fn[3], args, kw)
        if fn[0] == "f" and fn[1].name == "check_var":
            return V(NONE)
        if fn[0] == "x" and fn[1] in LAYOUT and args:
            return args[0]
        if fn[0] == "x" and fn[1] in ("numpy.zeros", "numpy.zeros_like"):
            return V(C(0))
        return None

    def req(self, interp, st, args):
        if len(args) == 1:
            ex = interp.exact_elems(args[0], st) if not all(is_c(i) and isinstance(i[2], str) for i in args[0]) else None
            if ex is not None:
                args = ex
        if any(len(a) != 1 for a in args):
            return U
        return tuple(next(iter(a)) for a in args)

    def request(self, interp, st, b, name, args, kw):
        o = st.heap[b[1]]
        v, sym = o.fields["values"], o.fields["symbol"]
        if name == "copy":
            return V(self.comp(interp, st, v, sym, "copied"))
        if name == "get_data_along":
            r = self.req(interp, st, args)
            return V(self.comp(interp, st, frozenset(term("slice of", i, r) for i in v), sym, "extracted"))
        if name in STAGES:
            if name == "get_harmonics":
                args = args[1:]
            r = self.req(interp, st, args)
            self.n += 1
            return V(interp.new(st, ("result", self.n), Obj("dict", None, {}, pairs=frozenset(
                [(next(iter(sym)), frozenset(term(STAGES[name], i, r) for i in v)), (("t", "axis key"), V(("t", "axis values")))]))))
        if name == "get_axes":
            return V(interp.new(st, ("axes", self.n), Obj("list", exact=(V(("t", "axis", next(iter(args[0])) if args else U)),))))
        self.odd.append(name)
        return UNKNOWN

    def method(self, interp, st, base, name, args, kw, node):
        if is_t(base) and base[1] == "axis" and name == "get_values":
            return V(PHI) if base[2] == C("angle") else UNKNOWN
        if is_t(base) and name in ("reshape", "squeeze", "copy", "astype") and base[1] not in ("name", "symbol", "axis", "axes"):
            return V(base)
        if base == ("t", "axes") and name == "__getitem__":
            return V(("t", "axis", U))
        return None

    def truth(self, t, interp, st):
        return None


def field(c):
    return ("t", "field", c)


def setup(prog, present):
    o = FrameOracle(prog)
    it = Interp(prog, o)
    st = State()
    comps = {C(c): V(o.comp(it, st, V(field(c)), V(("t", "symbol", c)))) for c in present}
    d = it.new(st, ("components",), Obj("dict", None, comps))
    me = it.instance(st, prog.classes["VectorField"], "self", {
        "_components": V(d), "_name": V(("t", "name", "self")), "_symbol": V(("t", "symbol", "self")), "parent": V(NONE)})
    return o, it, st, me


def expected(frame, present):
    x = {c: atom(field(c)) if c in present else Rat(ZERO) for f in FRAMES.values() for c in f}
    z = x["comp_z"] if "comp_z" in present else x["axial"]
    c, s = atom(COS), atom(SIN)
    if frame == "rphiz":
        if "comp_x" in present or "comp_y" in present:
            return {"radial": c * x["comp_x"] + s * x["comp_y"], "tangential": c * x["comp_y"] - s * x["comp_x"], "axial": z}
        return {"radial": x["radial"], "tangential": x["tangential"], "axial": z}
    if "radial" in present or "tangential" in present:
        return {"comp_x": c * x["radial"] - s * x["tangential"], "comp_y": s * x["radial"] + c * x["tangential"], "comp_z": z}
    return {"comp_x": x["comp_x"], "comp_y": x["comp_y"], "comp_z": z}


def peel(i):
    """without changes of layout"""
    while is_t(i) and i[1] == "call" and (i[2] in ("numpy.squeeze", "numpy.array", "numpy.copy", "numpy.asarray") and i[4] or i[2] in (".squeeze", ".copy")):
        i = i[4][0] if i[2].startswith("numpy") else i[3]
    return i


def stages(i, out):
    """outermost extractions in a term: (kind, request)"""
    if not i:
        return out
    if is_t(i) and i[1] in ("slice of", "along", "magnitude", "harmonics"):
        out.append((i[1], i[3]))
        return out
    if isinstance(i, tuple):
        if is_t(i) and i[1] == "call" and i[2].split(".")[-1].startswith(("zeros", "full")):
            return out
        for x in i[2:] if is_t(i) else i:
            if isinstance(x, tuple):
                stages(x, out)
    return out


def subsets(names):
    return [s for n in range(1, len(names) + 1) for s in itertools.combinations(names, n)]


def presences():
    out = subsets(FRAMES["xyz"]) + subsets(FRAMES["rphiz"])
    out += [s + ("comp_z",) for s in subsets(FRAMES["rphiz"][:2])] + [s + ("axial",) for s in subsets(FRAMES["xyz"][:2])]
    return out


def request_methods(prog):
    out = {}
    vf = prog.classes.get("VectorField")
    if vf is None:
        raise AnalysisError("no vector field class")
    for kind, stage in (("get_%s_along", "along"), ("get_mag_%s_along", "magnitude"), ("get_harm_%s_along", "harmonics")):
        for frame in FRAMES:
            m = vf.find_method(kind % frame)
            if m is None:
                raise AnalysisError("vector field request %s not found" % (kind % frame))
            out[m] = (frame, stage)
    return out


def judge_value(ctx, rule, f, what, name, value, want, stage, req):
    ok = True
    form = Form()
    key = "%s:%s:%s" % (f.name, name, what)
    for i in sorted(value, key=repr):
        if i == U:
            ctx.count("undecided")
            continue
        if i == ABSENT or i == NONE:
            ctx.report(rule + "-missing", key, f.where(), "with %s the component %s is not always given" % (what, name))
            continue
        try:
            r = form(i)
            if not same(r, want):
                unknown = [a for a in r.atoms() if a not in (COS, SIN) and not (is_t(a) and a[1] == "field")]
                if unknown:
                    ctx.count("undecided")
                    ctx.sample("undecided: %s %s %s" % (f.name, name, show(i)), 30)
                else:
                    ctx.report(rule + "-wrong", key, f.where(), "with %s the component %s is %s" % (what, name, show(i)[:300]))
                continue
        except NotAlgebraic:
            ctx.count("undecided")
            continue
        if want.n.t and stage is not None:
            for s, q in stages(i, []):
                if s == "slice of":
                    s = "along"
                if s != stage:
                    ctx.report(rule + "-stage", key, f.where(), "with %s the component %s is given by its %s instead of its %s" % (what, name, s, stage))
                elif q != U and req is not None and q != req:
                    ctx.report(rule + "-request", key, f.where(), "with %s the component %s is extracted along (%s), the request being (%s)" % (
                        what, name, ", ".join(show(x) for x in q), ", ".join(show(x) for x in req)))
    return ok


def judge_requests(ctx, prog):
    for m, (frame, stage) in request_methods(prog).items():
        for present in presences():
            what = " and ".join(present)
            for rq in REQUESTS:
                if rq[1:] == ("angle[smallestperiod]",) and stage != "along":
                    continue
                o, it, st, me = setup(prog, present)
                args = [V(C(a)) for a in rq]
                req = tuple(C(a) for a in rq)
                if "N_harm" in m.params or (m.params[1:2] and stage == "harmonics"):
                    args = [V(("t", "in", "count"))] + args
                ctx.count("frame requests")
                ctx.obligation()
                try:
                    r, st = it.run(m, [V(me)] + args, {}, st)
                except Raised as e:
                    ctx.report("request-refused", "%s:%s" % (m.name, what), m.where(), "a field with %s is refused (%s)" % (what, e.exc))
                    continue
                for i in r:
                    if i[0] != "o" or st.heap[i[1]].kind != "dict":
                        ctx.count("undecided")
                        continue
                    d = st.heap[i[1]]
                    for name, want in expected(frame, present).items():
                        ctx.count("components judged")
                        v = d.fields.get(C(name))
                        if v is None:
                            ctx.report("request-missing", "%s:%s:%s" % (m.name, name, what), m.where(), "with %s the component %s is not returned" % (what, name))
                        else:
                            judge_value(ctx, "request", m, what, name, v, want, stage, req)


def judge_changes(ctx, prog):
    vf = prog.classes["VectorField"]
    for frame, names in FRAMES.items():
        m = vf.find_method("to_" + frame)
        if m is None:
            raise AnalysisError("change of frame to_%s not found" % frame)
        for present in presences():
            what = " and ".join(present)
            o, it, st, me = setup(prog, present)
            ctx.count("changes of frame")
            ctx.obligation()
            try:
                r, st = it.run(m, [V(me)], {}, st)
            except Raised as e:
                ctx.report("change-refused", "%s:%s" % (m.name, what), m.where(), "a field with %s is refused (%s)" % (what, e.exc))
                continue
            want = expected(frame, present)
            plane, z = any(c in present for c in ("comp_x", "comp_y", "radial", "tangential")), any(c in present for c in ("comp_z", "axial"))
            already = any(c in present for c in names[:2]) or not plane and names[2] in present
            for i in r:
                d = components(i, st)
                if d is None:
                    ctx.count("undecided")
                    continue
                have = {k[2] for k, v in d.fields.items() if v - {ABSENT}}
                if not already and have - set(names):
                    ctx.report("change-foreign", "%s:%s" % (m.name, what), m.where(), "with %s the result also holds %s" % (what, ", ".join(sorted(have - set(names)))))
                for n, name in enumerate(names):
                    if already and name not in present:
                        continue
                    if n < 2 and not plane or n == 2 and not z:
                        continue
                    ctx.count("components judged")
                    v = d.fields.get(C(name))
                    if v is None or ABSENT in v:
                        ctx.report("change-missing", "%s:%s:%s" % (m.name, name, what), m.where(), "with %s the result has no component %s" % (what, name))
                        continue
                    for c in v:
                        if c[0] == "o" and "values" in st.heap[c[1]].fields:
                            judge_value(ctx, "change", m, what, name, st.heap[c[1]].fields["values"], want[name], None, None)
                        else:
                            ctx.count("undecided")


def components(i, st):
    if i[0] != "o" or st.heap[i[1]].kind != "inst":
        return None
    v = st.heap[i[1]].fields.get("_components", UNKNOWN)
    if len(v) != 1 or next(iter(v))[0] != "o":
        return None
    return st.heap[next(iter(v))[1]]


# -- conversions of points and of fields given by columns ---------------------------
VALUES = ("t", "in", "values")


class ColumnOracle(Oracle):
    def __init__(self, n):
        self.ncol = n

    def type_of(self, i, interp, st):
        return "ndarray" if i == VALUES else None

    def attr(self, interp, st, b, name):
        if b == VALUES and name == "shape":
            return V(("tu", (V(("t", "rows")), V(C(self.ncol)))))
        if b == VALUES and name == "ndim":
            return V(C(2))
        return None

    def method(self, interp, st, base, name, args, kw, node):
        if is_t(base) and name in ("reshape", "squeeze", "copy", "astype"):
            return V(base)
        if base == VALUES and name == "__getitem__" and args:
            k = next(iter(args[0]))
            if k[0] == "tu" and len(k[1]) == 2:
                j = next(iter(k[1][1])) if len(k[1][1]) == 1 else U
                if is_c(j) and isinstance(j[2], int):
                    if not -self.ncol <= j[2] < self.ncol:
                        raise Raised("IndexError", st)
                    return V(("t", "column", j[2] % self.ncol))
        return None


def columns(i, it, st):
    """terms of the columns of a result"""
    if not is_t(i):
        return None
    turn = False
    if i[1] == "attr" and i[3] == "T":
        turn, i = True, i[2]
    elif i[1] == "call" and i[2] in (".transpose", "numpy.transpose") and not i[5]:
        turn, i = True, i[3] if i[2][0] == "." else i[4][0]
    if not is_t(i) or i[1] != "call" or not i[4]:
        return None
    n, kw = i[2], dict(i[5])
    if not (n == "numpy.column_stack" and not turn or n == "numpy.stack" and not turn and kw.get("axis", i[4][1] if len(i[4]) > 1 else C(0)) in (C(1), C(-1))
            or turn and n in ("numpy.vstack", "numpy.array", "numpy.stack", "numpy.row_stack")):
        return None
    ex = it.exact_elems(V(i[4][0]), st)
    return list(ex) if ex is not None else None


def judge_columns(ctx, prog):
    m = "SciDataTool.Functions.conversions"
    cols = [("t", "column", k) for k in range(3)]
    a = [atom(c) for c in cols]
    c, s = atom(COS), atom(SIN)
    r, ang = atom(("radius",)), atom(("angle",))
    field_form = Form(phi=("t", "in", "phi"))
    point_form = Form(phi=cols[1], point=(a[0], a[1]), is_real=True)
    back_form = Form(phi=cols[1], is_real=True)
    jobs = [
        ("xyz_to_rphiz_field", 3, [V(VALUES), V(("t", "in", "phi"))], field_form, [c * a[0] + s * a[1], c * a[1] - s * a[0], a[2]]),
        ("rphiz_to_xyz_field", 3, [V(VALUES), V(("t", "in", "phi"))], field_form, [c * a[0] - s * a[1], s * a[0] + c * a[1], a[2]]),
        ("xyz_to_rphiz", 3, [V(VALUES)], point_form, [r, ang, a[2]]),
        ("rphiz_to_xyz", 3, [V(VALUES)], back_form, [a[0] * c, a[0] * s, a[2]]),
        ("xyz_to_rphiz", 2, [V(VALUES)], point_form, [r, ang]),
        ("rphiz_to_xyz", 2, [V(VALUES)], back_form, [a[0] * c, a[0] * s]),
        ("xy_to_rphi", 0, [V(cols[0]), V(cols[1])], point_form, [r, ang]),
        ("rphi_to_xy", 0, [V(cols[0]), V(cols[1])], back_form, [a[0] * c, a[0] * s]),
        ("cart2pol", 0, [V(cols[0]), V(cols[1]), V(("t", "in", "phi"))], field_form, [c * a[0] + s * a[1], c * a[1] - s * a[0]]),
        ("pol2cart", 0, [V(cols[0]), V(cols[1]), V(("t", "in", "phi"))], field_form, [c * a[0] - s * a[1], s * a[0] + c * a[1]]),
    ]
    for name, n, args, form, want in jobs:
        f = prog.modules[m].functions.get(name) if m in prog.modules else None
        if f is None:
            raise AnalysisError("conversion %s not found" % name)
        it = Interp(prog, ColumnOracle(n))
        st = State()
        ctx.count("conversions of coordinates")
        ctx.obligation()
        what = "%s of %s" % (name, "%d columns" % n if n else "separate components")
        try:
            res, st = it.run(f, args, {}, st)
        except Raised as e:
            ctx.report("convert-fails", what, f.where(), "converting coordinates given as %s always fails (%s)" % ("%d columns" % n if n else "separate arrays", e.exc))
            continue
        for i in sorted(res, key=repr):
            got = list(i[1]) if i[0] == "tu" else columns(i, it, st)
            if is_c(i) and i[2] is None:
                ctx.report("convert-lost", what, f.where(), "%s gives nothing" % what)
                continue
            if got is None:
                ctx.count("undecided")
                continue
            if len(got) != len(want):
                ctx.report("convert-lost", what, f.where(), "%s gives %d components instead of %d" % (what, len(got), len(want)))
                continue
            for k, g, w in [(k, g, w) for k, (gs, w) in enumerate(zip(got, want)) for g in sorted(gs, key=repr)]:
                ctx.count("components judged")
                try:
                    x = form(g)
                    if not same(x, w) and not (w is ang and turns(x - w)):
                        known = {COS, SIN, ("radius",), ("angle",), ("radius", "other point"), ("angle", "other point"), J, PI, *cols, ("t", "in", "phi")}
                        if x.atoms() <= known:
                            ctx.report("convert-wrong", "%s:%d" % (what, k), f.where(), "component %d of %s is %s" % (k + 1, what, show(g)[:300]))
                        else:
                            ctx.count("undecided")
                except NotAlgebraic:
                    ctx.count("undecided")


def run(ctx):
    prog = ctx.prog
    ctx.rule("Every frame request and change of frame is evaluated for every set of components a field can hold and every way of asking for the angle; each returned component must be the exact linear form of its source components.")
    ctx.rule("Conversions of points and of fields given by columns are compared with the rotation by the angle, whose inverse is the rotation back.")
    judge_columns(ctx, prog)
    judge_requests(ctx, prog)
    judge_changes(ctx, prog)
    c, s = atom(COS), atom(SIN)
    ctx.selftest("rotation undone", same(c * (c * atom("x") - s * atom("y")) + s * (s * atom("x") + c * atom("y")), atom("x")))
    ctx.selftest("wrong sign seen", not same(c * (c * atom("x") + s * atom("y")) + s * (s * atom("x") + c * atom("y")), atom("x")))
    ctx.need("frame requests", 500)
    ctx.need("changes of frame", 36)
    ctx.need("conversions of coordinates", 10)
    ctx.need("components judged", 1500)
