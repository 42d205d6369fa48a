"""P22: values asked for at points of the axis are the samples stored there, in the order asked for"""

from sa.absint import C, NONE, U, UNKNOWN, Interp, Obj, Raised, State, V, is_c, is_t, show, term
from sa.framework import AnalysisError
from sa.shapes import N, Shapes, arr, did, is_arr

from checks.p12 import undecided
from checks.p17 import function, method
from checks.p20 import a_field, requested

TECHNIQUE = "abstract interpretation of the interpolation for each kind of request to the provenance of the returned samples, compared with the positions of the requested points"
NOTE = "rounding and points between samples are judged only by the axis, the points and the field given to the interpolating routine"

AX, NEW = ("axis",), ("new",)
MODULE = "SciDataTool.Functions.interpolations"


class PointsOracle(Shapes):
    def __init__(self, prog, same, member, superset):
        Shapes.__init__(self, prog)
        self.refused = False
        self.same, self.member, self.superset, self.tolerances = same, member, superset, []

    def truth(self, t, interp, st):
        r = repr(t)
        if "'whole'" in r:
            return False
        if is_t(t) and t[1] == "not":
            x = self.truth(t[2], interp, st)
            return None if x is None else not x
        if "isin" in r and "('axis',)" in r and "('new',)" in r:
            if "'all'" not in r and ".all" not in r:
                return None
            return self.same or self.superset if "('isin', ('axis',)" in r else self.member
        if "'same'" in r or ("'all'" in r or ".all" in r or "array_equal" in r) and "('axis',)" in r and "('new',)" in r:
            self.tolerances += [("step", k) for k in bounds(t)]
            return self.same
        if is_t(t) and t[1] == "cmp" and "('new',)" in r and ("'min'" in r or "'max'" in r) and "('axis',)" in r:
            # a single point lies on the axis
            return None if t[2] == "==" else t[2] in ("<=", ">=")
        return Shapes.truth(self, t, interp, st)

    def one(self, v):
        return next(iter(v)) if len(v) == 1 else U

    def call(self, interp, st, fn, args, kw, node):
        if is_t(fn) and fn[1] == "interpolant" and args:
            x = self.one(args[0])
            r = Shapes.call(self, interp, st, fn, args, kw, node)
            return frozenset(arr(i[2], i[3] + (x[3] if is_arr(x) else None,)) if is_arr(i) else i for i in r)
        if fn[0] == "x" and fn[1].startswith("numpy"):
            n = fn[1].split(".")[-1]
            xs = [self.one(a) for a in args]
            cs = [x[3] if is_arr(x) else x for x in xs]
            if n in ("isclose", "allclose") and len(cs) > 1 and {AX, NEW} == set(cs[:2]):
                tol = self.const(kw["rtol"] if "rtol" in kw else args[2] if len(args) > 2 else V(C(1e-5)))
                self.tolerances.append(tol)
                return V(term("same")) if n == "allclose" else V(arr(xs[0][2], ("same",)))
            if n in ("isin", "in1d") and len(cs) > 1 and {AX, NEW} == set(cs[:2]):
                return V(arr(xs[0][2], ("isin", cs[0], cs[1])))
            if n in ("where", "nonzero") and len(args) == 1 and is_arr(xs[0]):
                return V(("tu", (V(arr((N(None, ("len", cs[0])),), ("true", cs[0]))),)))
            if n in ("flatnonzero",) and is_arr(xs[0]):
                return V(arr((N(None, ("len", cs[0])),), ("true", cs[0])))
        return Shapes.call(self, interp, st, fn, args, kw, node)

    def np_searchsorted(self, interp, st, name, a, d):
        x = self.one(d.get("v", UNKNOWN))
        o = self.one(d["sorter"]) if "sorter" in d else None
        if first_point(x) and o is None:
            return V(term("after", a[3], x))
        if not is_arr(x) or o is not None and not is_arr(o):
            return None
        side = self.const(d.get("side", V(C("left"))))
        return V(arr([N(None, y[3]) for y in x[2]], (name, a[3], x[3], o[3] if o is not None else None, side)))

    def np_take(self, interp, st, name, a, d):
        k = self.axis(interp, st, d["axis"], len(a[2]), name) if "axis" in d else 0 if len(a[2]) == 1 else None
        i = self.one(d.get("indices", UNKNOWN))
        ex = interp.exact_elems(V(i), st) if i != U and not is_arr(i) else None
        if k is None or i == U:
            return None
        if is_arr(i) and len(i[2]) == 1:
            c, n = i[3], i[2][0][3]
        elif ex is not None and all(len(x) == 1 for x in ex):
            c, n = ("list",) + tuple(self.one(x) for x in ex), (0, len(ex))
        elif i[0] == "o" and st.heap[i[1]].kind == "list":
            c, n = ("each", tuple(sorted(st.heap[i[1]].elems, key=repr))), ("len", i)
        else:
            return None
        if len(a[2]) == 1:
            return V(arr((N(None, n),), ("at", a[3], c)))
        return V(arr(a[2][:k] + (did(a[2][k], ("take", c), length=n),) + a[2][k + 1:], ("picked", a[3], a[2][k][2], c)))

    def subscript(self, interp, st, b, node, f):
        if is_arr(b) and len(b[2]) == 1:
            v = interp.ev(node, st, f) if node.__class__.__name__ in ("Name", "Call", "Subscript") else UNKNOWN
            i = self.one(v)
            if is_arr(i) and len(i[2]) == 1:
                return V(arr(i[2], ("at", b[3], i[3])))
        return Shapes.subscript(self, interp, st, b, node, f)

    def np_interp1d(self, interp, st, name, d, node):
        try:
            r = Shapes.np_interp1d(self, interp, st, name, d, node)
        except Raised:
            self.refused = True
            raise
        x = self.one(d.get("x", UNKNOWN))
        kind = self.const(d.get("kind", V(C("linear"))))
        return frozenset(i[:4] + (("between", x[3] if is_arr(x) else None, i[4], kind),) if is_t(i) and i[1] == "interpolant" else i for i in r)


def bounds(t):
    """constants by which distances between samples are multiplied to bound those between points"""
    if not isinstance(t, tuple):
        return []
    out = []
    if t[:2] == ("bin", "*") or t[:3] == ("t", "bin", "*"):
        xs = t[-2:]
        for a, b in (xs, xs[::-1]):
            if is_c(a) and isinstance(a[2], (int, float)) and "diff" in repr(b) and "('new',)" not in repr(b):
                out.append(a[2])
    for x in t:
        out += bounds(x)
    return out


def nearest(i, point):
    """is an index that of the sample nearest to a point, None when it cannot be told"""
    if is_t(i) and i[1] == "bin" and is_c(i[4]) and i[4][2] != 0 and nearest(i[3], point):
        return False
    if is_t(i) and i[1] == "call" and i[2] == "int" and len(i[4]) == 1:
        return nearest(i[4][0], point)
    if is_t(i) and i[1] == "num" and i[2][0] == "red":
        how, x = i[2][1], i[2][3]
    elif is_t(i) and i[1] == "call" and (i[2].startswith("numpy.") and len(i[4]) == 1 or i[2].startswith(".") and not i[4]):
        how, x = i[2].split(".")[-1], i[4][0] if i[4] else i[3]
        x = x[3] if is_arr(x) else x
    else:
        return None
    if how not in ("argmin", "nanargmin", "argmax"):
        return None
    if x[0] not in ("abs", "absolute", "fabs"):
        return False if x[0] == "bin" and AX in x else None
    d = x[1]
    if d[0] != "bin" or d[1] != "-" or AX not in d[2:]:
        return None
    p = d[2] if d[3] == AX else d[3]
    return how != "argmax" and point(p)


def first_point(p):
    return is_t(p) and p[1] == "sample" and p[2][:2] == ("part", NEW) and p[3] in ((C(0),), (C(-1),))


def picked(c, name, single, alone):
    """what is wrong with samples picked along an axis, None when nothing is; NotImplementedError when it cannot be told"""
    if c[0] != "picked" or c[1] != ("values",):
        raise NotImplementedError
    if c[2] != name:
        return "are picked along another axis"
    i = c[3]
    order = ("argsort", AX)
    if i[0] == "list" and len(i) == 2 and single:
        ok = nearest(i[1], first_point)
        if ok is None and alone and is_t(i[1]) and i[1][1] == "after" and i[1][2] == AX:
            return "are those next to the point, which need not be the nearest"
        if ok is None:
            raise NotImplementedError
        return None if ok else "are not those nearest to the point"
    if i[0] == "true" and i[1][0] == "isin":
        return "are in the order of the axis" if i[1][1] == AX else "are counted along the requested points"
    if i[0] == "at" and i[1] == order and i[2][0] == "searchsorted":
        s = i[2]
        if s[1] in (AX, ("at", AX, order)) and s[2] == NEW and (s[3] == order) == (s[1] == AX):
            if s[3] is None and s[1] == AX:
                return "are looked up as if the axis were increasing"
            return None if s[4] == "left" else "are those after the requested points"
        if s[1] == AX and s[2] == NEW and s[3] is None:
            return "are looked up as if the axis were increasing"
        if s[1] == NEW:
            return "are looked up the other way round"
    if i[0] == "searchsorted" and i[1] == AX and i[2] == NEW:
        return "are counted in the increasing order of the axis" if i[3] == order else "are looked up as if the axis were increasing" if i[3] is None else "are looked up in another order"
    raise NotImplementedError


def run(ctx):
    prog = ctx.prog
    ctx.rule("samples are those of the requested points, in their order")
    f = function(prog, MODULE, "get_interpolation")
    if len(f.params) != 4:
        raise AnalysisError("%s has other parameters" % f.qual)
    names = ("a", "b", "c")
    for k, name in enumerate(names):
        for kind in ("same", "member", "single", "between", "around"):
            for many in ((False,) if kind in ("same", "single", "around") else (False, True)):
                ctx.count("requests")
                ctx.obligation()
                length = (0, 1) if kind == "single" else N(name)[3] if kind == "same" or many else N("new")[3]
                what = {"same": "the points of the axis itself", "member": "points of the axis" + (", as many as it has" if many else ""), "single": "one point of the axis", "between": "other points", "around": "points between and at those of the axis"}[kind] + ", asked for along axis %d of 3," % (k + 1)
                o = PointsOracle(prog, kind == "same", kind in ("same", "member", "single"), kind == "around")
                it, st = Interp(prog, o), State()
                args = [V(arr([N(n) for n in names], ("values",))), V(arr((N(name),), AX)), V(arr((N(name if kind == "same" or many else "new", length),), NEW)), V(C(k))]
                try:
                    v, st = it.run(f, args, {}, st)
                except Raised as e:
                    if not o.refused:
                        undecided(ctx, "%s: fails with %s" % (what, e.exc))
                        continue
                    ctx.count("requests decided")
                    ctx.report("samples", kind, f.where(), "for %s the samples cannot be interpolated along the axis taken: %s" % (what, e.exc))
                    continue
                for tol in o.tolerances:
                    if isinstance(tol, tuple) and tol[1] >= 0.5:
                        ctx.report("tolerance", "same points", f.where(), "points are taken for those of the axis when they differ by less than %g of the distance between samples" % tol[1])
                    if isinstance(tol, float) and tol > 1e-4:
                        ctx.report("tolerance", "same points", f.where(), "points are taken for those of the axis when they differ by less than %g of their value, which may be more than the distance between samples" % tol)
                said = []
                for i in v:
                    try:
                        said.append(wrong(i, name, kind, len(v) == 1))
                    except (NotImplementedError, IndexError, TypeError):
                        said = None
                        undecided(ctx, "%s: %s" % (what, str(i)[:300]))
                        break
                if said is None:
                    continue
                ctx.count("requests decided")
                if said and all(said):
                    ctx.report("samples", kind, f.where(), "for %s the samples %s" % (what, said[0]))
    ctx.need("requests", 12)
    judge_field(ctx, prog, names)


def judge_field(ctx, prog, names):
    """requests along one axis of a field while the others are taken as they are"""
    ctx.rule("a field is interpolated along the axis of the request")
    f = method(prog, "DataND", "_interpolate")
    for k, name in enumerate(names):
        for kind in ("member", "single", "between"):
            ctx.count("requests of fields")
            ctx.obligation()
            what = {"member": "points of the axis", "single": "one point of the axis", "between": "other points"}[kind] + ", asked for along axis %d of a field of 3," % (k + 1)
            o = PointsOracle(prog, False, kind != "between", False)
            it, st = Interp(prog, o), State()
            new = arr((N("new", (0, 1) if kind == "single" else N("new")[3]),), NEW)
            axes = []
            for j, n in enumerate(names):
                d = {"_values": V(arr((N(name),), AX)), "_input_data": V(new)} if j == k else {"_values": V(arr((N(n),), ("other", n)))}
                axes.append(requested(it, st, prog, n, index=j, **d))
            lst = it.new(st, ("p22 axes",), Obj("list", exact=tuple(V(a) for a in axes)))
            try:
                v, st = it.run(f, [V(a_field(it, st, prog)), V(arr([N(n) for n in names], ("values",))), V(lst)], {}, st)
            except Raised as e:
                if o.refused:
                    ctx.report("field", kind, f.where(), "for %s the samples cannot be interpolated along the axis taken: %s" % (what, e.exc))
                else:
                    undecided(ctx, "%s: fails with %s" % (what, e.exc))
                continue
            try:
                said = [wrong(i, name, kind, len(v) == 1) for i in v]
            except (NotImplementedError, IndexError, TypeError):
                undecided(ctx, "%s: %s" % (what, str(v)[:300]))
                continue
            ctx.count("requests of fields decided")
            if said and all(said):
                ctx.report("field", kind, f.where(), "for %s the samples %s" % (what, said[0]))
            for j, a in enumerate(axes):
                kept = st.heap[a[1]].fields.get("_values")
                if kept and all(is_arr(i) for i in kept):
                    cs = {i[3] for i in kept}
                    if not cs & {NEW if j == k else ("other", names[j])}:
                        ctx.report("field", kind + " points", f.where(), "for %s the points of axis %d are then %s" % (what, j + 1, "not those asked for" if j == k else "replaced"))
    ctx.need("requests of fields", 9)


def wrong(i, name, kind, alone):
    if not is_arr(i):
        raise NotImplementedError
    c = i[3]
    if kind in ("between", "around") and c[0] == "interpolated":
        x = c[1]
        if x[0] != "between":
            raise NotImplementedError
        if c[2] != NEW:
            return "are interpolated at other points"
        if x[1] != AX or x[2] != ("values",):
            return "are interpolated from other points"
        if x[3] is None:
            raise NotImplementedError
        if x[3] not in ("linear", "slinear", 1):
            return "are not interpolated linearly"
        changed = [d[2] for d in i[2] if ("interpolated",) in d[4]]
        return None if changed == [name] else "are interpolated along another axis"
    if c == ("values",):
        return None if kind == "same" else "are those of the whole axis"
    if kind in ("between", "around"):
        if c[0] == "picked":
            return "are picked without interpolation"
        raise NotImplementedError
    if c[0] == "interpolated":
        return None
    return picked(c, name, kind == "single", alone)
