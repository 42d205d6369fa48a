"""P12: a slice, transform or operation asked for one axis acts on that axis only, wherever it is stored"""

import ast
from itertools import permutations, product

from sa.absint import C, FALSE, NONE, TRUE, U, UNKNOWN, Interp, Obj, Raised, State, V, is_c, is_t, show, term
from sa.framework import AnalysisError
from sa.shapes import N, ONE, Shapes, arr, is_arr, is_one, linear, said

from checks.p17 import function, method, single
from checks.p20 import a_field, an_axis, norm

TECHNIQUE = "abstract interpretation of the request pipeline over array shapes whose dimensions remember their axis and what was done along them"
NOTE = "numpy is described by its effect on the dimensions; what an operation computes along its axis is not judged here"

REDUCTIONS = ("max", "min", "sum", "rss", "mean", "rms", "integrate")
LOCAL = ("derivate", "antiderivate", "integrate_local")
DUAL = {"freqs": "time", "wavenumber": "angle", "time": "freqs", "angle": "wavenumber"}
TIMES = ("time", "angle", "z", "speed")


class RequestOracle(Shapes):
    """the abscissae of the requested axes are arrays of the announced length"""

    def __init__(self, prog, uniform=True, positive=True, grid=True):
        Shapes.__init__(self, prog)
        self.uniform, self.positive, self.grid, self.ifft = uniform, positive, grid, None

    def truth(self, t, interp, st):
        if is_t(t) and t[1] == "cmp" and t[2] == "==" and any(is_t(x) and x[1] == "sample" for x in t[3:]) and any(x in (C(0), C(0.0)) for x in t[3:]):
            return True
        if is_t(t) and t[1] == "call" and t[2] == "numpy.allclose":
            return self.grid
        if is_t(t) and t[1] == "call" and t[2] in (".all", "numpy.all"):
            return self.grid if "isin" in repr(t) else False
        if is_t(t) and t[1] == "cmp" and t[2] in ("<", "<=") and len(t) == 5:
            for a, b, up in ((t[3], t[4], False), (t[4], t[3], True)):
                if b in (C(0), C(0.0)) and is_t(a) and a[1] in ("call", "num") and "min" in repr(a)[:60]:
                    return self.positive if up else not self.positive
        return Shapes.truth(self, t, interp, st)

    def call(self, interp, st, fn, args, kw, node):
        f = fn[1] if fn[0] in ("f", "b") else None
        if f is None:
            if fn[0] == "bi" and fn[1] == "eval":
                i = single(args[0]) if args else None
                if i is not None and is_c(i) and isinstance(i[2], str):
                    try:
                        return V(C(ast.literal_eval(i[2].strip())))
                    except (ValueError, SyntaxError):
                        return V(term("eval", i))
            return Shapes.call(self, interp, st, fn, args, kw, node)
        if f.name == "get_axis" and fn[0] == "b":
            self.complete(interp, st, fn[2], args[0] if args else kw.get("axis"))
            return V(NONE)
        if f.name == "comp_fft_freqs" and self.ifft is not None:
            return V(self.ifft)
        if f.name == "check_var":
            return V(NONE)
        if f.name == "is_uniform":
            return V(TRUE if self.uniform else FALSE)
        if f.name in ("get_values", "get_length") and fn[0] == "b" and fn[2][0] == "o":
            o = st.heap[fn[2][1]]
            n = single(o.fields.get("_name", UNKNOWN))
            if n is not None and is_c(n):
                d = N(origin_of(st, o), extent(interp, st, o, "whole"))
                return V(arr((d,), ("axis", n[2]))) if f.name == "get_values" else V(d)
        if f.name == "check_dimensions" and len(args) == 2:
            return self.stored(interp, st, *args)
        if f.name == "to_linspace" and fn[0] == "b":
            return V(fn[2])
        if f.name in ("convert", "to_dB") and args and fn[0] == "f":
            return args[0]
        return None

    def stored(self, interp, st, values, axes):
        """the field kept by new data: one dimension per axis, in the order of the axes"""
        ex = interp.exact_elems(axes, st)
        if ex is None or any(single(x) is None or single(x)[0] != "o" for x in ex):
            return UNKNOWN
        objs = [st.heap[single(x)[1]] for x in ex]
        out = frozenset()
        for v in values:
            if not is_arr(v):
                return UNKNOWN
            if v[3] == ("array", ()):
                continue
            left, dims = [d for d in v[2] if not is_one(d)], []
            for o in objs:
                if stored_length(o) == ONE:
                    dims.append(N(origin_of(st, o), ONE))
                elif not left:
                    self.fault(interp, st, "CheckDimError", "no values are left for axis %s" % origin_of(st, o))
                else:
                    d = left.pop(0)
                    if d[2] is not None and d[2] != origin_of(st, o):
                        self.fault(interp, st, "CheckDimError", "values along %s are stored for axis %s" % (d[2], origin_of(st, o)))
                    if linear(d[3]) and linear(stored_length(o)) and d[3] != stored_length(o):
                        self.fault(interp, st, "CheckDimError", "%s values are stored for %s samples of axis %s" % (said(d[3]), said(stored_length(o)), d[2]))
                    dims.append(d)
            if left:
                self.fault(interp, st, "CheckDimError", "values along %s are stored without their axis" % left[0][2])
            out |= V(arr(dims, v[3]))
        return out or values

    def complete(self, interp, st, rq, ax):
        """what the requested axis knows once it is read from the stored one"""
        o = st.heap[rq[1]].copy()
        a = st.heap[single(ax)[1]]
        g = lambda k: (lambda i: i[2] if i is not None and is_c(i) else None)(single(o.fields.get("_" + k, UNKNOWN)))
        name, ext, tr, stored = g("name"), g("extension"), g("transform"), origin_of(st, a)
        pattern = a.cls is not None and a.cls.name == "DataPattern"
        l = extent(interp, st, a, "whole" if ext in ("whole", "interval", "single", "list") else ext)
        if pattern:
            o.fields["_is_pattern"] = V(TRUE)
            o.fields["_rebuild_indices"] = V(term("in", "rebuild", stored))
            if ext != "smallestperiod":
                l = ("len", term("in", "rebuild", stored))
        if tr == "fft":
            sym = symmetry(interp, st, a)
            base = times(stored_length(a), 2) if "antiperiod" in sym else stored_length(a)
            if pattern:
                base = l
            o.fields["_corr_values"] = V(arr((N(stored, base),), ("axis", stored)))
            l = ("half", base) if name == "freqs" else base
        elif tr == "ifft":
            l = stored_length(a)
            self.ifft = arr((N(stored, l),), ("frequencies",))
            o.fields["_corr_values"] = V(arr((N(stored, l),), ("axis", stored)))
            l = ("double", l) if name == "time" else l
        if ext in ("single", "list", "interval"):
            k = {"single": (1,), "list": (0, 2), "interval": (0, 1, 2)}[ext]
            o.fields["_indices"] = V(interp.new(st, ("p12 indices", name), Obj("list", exact=tuple(V(C(x)) for x in k))))
            l = (0, len(k))
        if ext == "axis_data" and not tr and not pattern:
            l = stored_length(a)
        o.fields["_values"] = V(arr((N(stored, l),), ("axis", name)))
        if ext == "axis_data":
            o.fields["_input_data"] = V(arr((N(stored, ("asked", name)),), ("axis data", name)))
        st.heap[rq[1]] = o


def symmetry(interp, st, a):
    s = single(a.fields.get("_symmetries", UNKNOWN))
    return {k[2]: single(v)[2] for k, v in st.heap[s[1]].fields.items()} if s is not None and s[0] == "o" else {}


def extent(interp, st, a, ext):
    s, n = symmetry(interp, st, a), stored_length(a)
    if ext in ("whole", "axis_data"):
        return times(n, s.get("period", s.get("antiperiod", 1)))
    if ext == "oneperiod":
        return times(n, 2 if "antiperiod" in s else 1)
    return n


def times(l, k):
    return (l[0] * k, l[1] * k) if linear(l) else ("times", l, C(k)) if k != 1 else l


def stored_length(a):
    i = single(a.fields.get("_values", UNKNOWN))
    return i[2][0][3] if i is not None and is_arr(i) and len(i[2]) == 1 else (1, 0)


def origin_of(st, a):
    """the axis of the data the samples come from"""
    i = single(a.fields.get("_values", UNKNOWN))
    if i is not None and is_arr(i) and len(i[2]) == 1 and i[2][0][2] is not None:
        return i[2][0][2]
    return single(a.fields["_name"])[2]


SYMMETRY = {"time": {"antiperiod": 4}, "angle": {"period": 3}, "freqs": {}, "wavenumber": {}, "speed": {}, "z": {}}


def build(it, st, prog, names, **fields):
    axes = []
    for n in names:
        cls = "DataPattern" if n == "z" else "Data1D"
        extra = {"_is_components": V(FALSE), "_is_overlay": V(FALSE)}
        if n == "z":
            extra.update(_rebuild_indices=V(term("in", "rebuild", "z")))
        axes.append(an_axis(it, st, prog, cls, n, sym=SYMMETRY.get(n, {}), **extra))
    values = arr([N(n) for n in names], ("values",))
    e = {"_values": V(values)}
    e.update(fields)
    return a_field(it, st, prog, "DataND", axes, norms_={"ref": norm(it, st, prog, "ref")}, **e)


def answer(prog, f, names, requests, uniform=True, positive=True, grid=True, **kw):
    """(shape of the field returned, faults, unanswered)"""
    o = RequestOracle(prog, uniform, positive, grid)
    it, st = Interp(prog, o), State()
    me = build(it, st, prog, names)
    data = Obj("dict")
    for n in names:
        data.fields[C(n)] = V(arr((N(None, ("asked", n)),), ("axis data", n)))
        if n in DUAL:
            data.fields[C(DUAL[n])] = V(arr((N(None, ("asked", DUAL[n])),), ("axis data", DUAL[n])))
    given = {"is_squeeze": V(FALSE), "axis_data": V(it.new(st, ("p12 axis data",), data))}
    given.update(kw)
    data = {k: v for k, v in given.items()}
    try:
        v, st = it.run(f, [V(me)] + [V(C(r)) for r in requests], data, st)
    except Raised as e:
        return None, o.faults, e.exc
    i = single(v)
    if i is not None and i[0] == "o" and st.heap[i[1]].kind == "dict":
        v = st.heap[i[1]].fields.get(C("B"), UNKNOWN)
    return v, o.faults, None


def ops_of(c, out):
    if isinstance(c, tuple):
        if c and c[0] == "red":
            out.add((c[1], c[2]))
        elif len(c) > 1 and c[0] in ("primitive", "gradient", "rfftn", "fftn", "irfftn", "ifftn", "repeated"):
            out.add((c[0], ()))
        for x in c:
            ops_of(x, out)
    return out


def requests_of(axis):
    """requests along a stored axis"""
    out = [axis]
    if axis in ("time", "angle"):
        out += ["%s=%s" % (axis, x) for x in REDUCTIONS + LOCAL]
        out += ["%s[oneperiod]" % axis, "%s[smallestperiod]" % axis, "%s[1]" % axis, "%s[0,2]" % axis, DUAL[axis], DUAL[axis] + "=sum", DUAL[axis] + "[1]"]
    elif axis == "z":
        out += ["z=%s" % x for x in REDUCTIONS + LOCAL] + ["z[smallestperiod]", "z[1]"]
    elif axis == "speed":
        out += ["speed=%s" % x for x in ("max", "min", "sum", "rss", "mean", "rms")] + ["speed[1]"]
    else:
        out += ["%s=%s" % (axis, x) for x in ("max", "min", "sum", "rss", "mean", "rms")] + ["%s[1]" % axis, DUAL[axis], DUAL[axis] + "[1]"]
        if axis == "freqs":
            out += ["freqs=derivate", "freqs=antiderivate"]
    return out


def stored_axis(names, request):
    n = request.split("=")[0].split("[")[0].split("<")[0].split(">")[0]
    return n if n in names else DUAL[n]


def dim_said(d):
    return "%s samples along %s%s" % (said(d[3]), d[2] or "nothing", " after " + ", ".join(str(x[0]) for x in d[4]) if d[4] else "")


class Judge:
    def __init__(self, ctx, prog, f, squeezed=False, **kw):
        self.squeezed = squeezed
        self.ctx, self.prog, self.f, self.kw = ctx, prog, f, kw
        self.alone = {}

    def reference(self, axis, request):
        """the dimension left by the request on data along that axis only"""
        if (axis, request) not in self.alone:
            v, faults, exc = answer(self.prog, self.f, (axis,), (request,), **self.kw)
            if exc is not None and "unit" in self.kw and not request.startswith("freqs"):
                # the weighting along frequencies does not concern this axis
                v, faults, exc = answer(self.prog, self.f, (axis,), (request,), **{k: x for k, x in self.kw.items() if k != "unit"})
            d = {i[2][0] if is_arr(i) and len(i[2]) == 1 else None for i in v or (None,) if i is not None}
            if not d or None in d or len({is_one(x) for x in d}) > 1:
                d = None
            self.alone[axis, request] = (d, {i[3] for i in v} if d is not None else None, exc)
            if faults:
                k = faults[0]
                self.ctx.report("fault", "%s|%s" % (k[0], k[2][0].split(".")[-1]), self.f.where(), "%s of data along %s fails: %s" % (request, axis, k[1]))
            elif d is None and exc is None:
                undecided(self.ctx, "%s of data along %s alone gives %s" % (request, axis, show(v)[:150]))
        return self.alone[axis, request]

    def __call__(self, names, requests):
        ctx = self.ctx
        by = {stored_axis(names, r): r for r in requests}
        refs = {a: self.reference(a, r) for a, r in by.items()}
        if any(x[0] is None for x in refs.values()):
            ctx.count("requests not answered alone")
            return
        what = "%s of data along %s" % (" and ".join(requests), ", ".join(names))
        ctx.count("requests")
        ctx.obligation()
        v, faults, exc = answer(self.prog, self.f, names, requests, **self.kw)
        if faults:
            k = faults[0]
            ctx.report("fault", "%s|%s" % (k[0], k[2][0].split(".")[-1]), self.f.where(), "%s fails: %s (in %s)" % (what, k[1], k[2][0].split(".")[-1]))
            return
        if exc is not None:
            ctx.report("fails", "%s|%s" % (exc, kinds(requests)), self.f.where(), "%s fails with %s, though each is answered alone" % (what, exc))
            return
        if any(not is_arr(i) for i in v):
            undecided(ctx, "%s gives %s" % (what, show(v)[:150]))
            return
        for i in v:
            dims = i[2]
            if self.squeezed:
                # the levels are summed in data without the reduced axes
                dims = [d for d in dims if not is_one(d)]
                rest = [n for n in names if n in by and not any(is_one(x) for x in refs[n][0])]
                if len(dims) != len(rest):
                    ctx.report("rank", kinds(requests), self.f.where(), "%s has values along %s instead of %s" % (what, [d[2] for d in dims], rest))
                    return
                full, k = [], 0
                for n in names:
                    full.append(dims[rest.index(n)] if n in rest else N(n, ONE))
                dims = [d if n in rest or n not in by else next(iter(refs[n][0])) for n, d in zip(names, full)]
            if len(dims) != len(names):
                ctx.report("rank", kinds(requests), self.f.where(), "%s has %d dimensions instead of %d" % (what, len(dims), len(names)))
                return
            for k, (n, d) in enumerate(zip(names, dims)):
                if n not in by:
                    if not is_one(d) or d[2] not in (None, n):
                        ctx.report("axis", kinds(requests), self.f.where(), "%s leaves %s at the position of %s, which is not requested" % (what, dim_said(d), n))
                        return
                    continue
                w = sorted(refs[n][0], key=repr)[0]
                if any(same(d, x) for x in refs[n][0]):
                    continue
                ctx.report("axis", kinds(requests), self.f.where(), "%s leaves %s at the position of %s instead of %s" % (what, dim_said(d), n, dim_said(w)))
                return
            want = set()
            for a in by:
                want |= set.intersection(*[ops_of(c, set()) for c in refs[a][1]])
            if zero(i[3]) or any(zero(c) for a in by for c in refs[a][1]):
                continue
            if "'elements'" in repr(i[3]) or "'deep'" in repr(i[3]):
                continue
            got = ops_of(i[3], set())
            lost = {x for x in want if x[0] not in ("prod",) and x not in got and x[1]} 
            if lost:
                ctx.report("lost", kinds(requests), self.f.where(), "%s does not apply %s" % (what, ", ".join("%s along %s" % (a, "".join(str(y) for y in b)) for a, b in sorted(lost, key=str))))
                return
        ctx.count("requests decided")


def zero(c):
    return isinstance(c, tuple) and (c[:1] == ("zero",) or any(zero(x) for x in c if isinstance(x, tuple)) and c[0] in ("bin", "sqrt", "neg", "part", "red", "set"))


def same(a, b):
    if is_one(a) and is_one(b) and (a[2] is None or b[2] is None):
        return True
    return a[2:] == b[2:]


def kinds(requests):
    return " and ".join(requests)


def undecided(ctx, text):
    ctx.count("undecided")
    ctx.sample("undecided: " + text)


GROUPS = (("time", "angle", "z"), ("speed", "time", "z"), ("freqs", "wavenumber", "z"))
FEW = {"min", "rss", "mean", "antiderivate"}


def pairs(group, few=FEW):
    layouts = list(permutations(group))
    k = 0
    for a, b in (group[:2], group[1:], group[::2]):
        third = [x for x in group if x not in (a, b)][0]
        xs, ys = [[r for r in requests_of(n) if r.split("=")[-1] not in few] for n in (a, b)]
        for x, y in product(xs, ys):
            k += 1
            rs = [x, y] if k % 4 < 2 else [y, x]
            if k % 3:
                rs.insert(k % 2, third)
            yield layouts[k % len(layouts)], rs


def judge_along(ctx, prog):
    f = method(prog, "DataND", "get_along")
    j = Judge(ctx, prog, f)
    for group in GROUPS:
        for names in list(permutations(group))[::2]:
            for a in names:
                for r in requests_of(a):
                    j(names, [r])
        for names, rs in pairs(group):
            j(names, rs)


def judge_weighted(ctx, prog):
    """levels weighted along the frequencies"""
    for fname in ("get_along", "get_magnitude_along"):
        f = method(prog, "DataND", fname)
        j = Judge(ctx, prog, f, squeezed=fname != "get_along", unit=V(C("dBA")))
        for group in GROUPS:
            for names, rs in pairs(group, FEW | {"max", "rms", "integrate_local", "derivate"}):
                if any(r.startswith("freqs") for r in rs):
                    j(names, rs)


def judge_interpolated(ctx, prog):
    """values asked for by the user, and transforms of axes that are not uniform"""
    f = method(prog, "DataND", "get_along")
    for uniform, grid in ((True, True), (True, False), (False, False)):
        j = Judge(ctx, prog, f, uniform=uniform, grid=grid)
        for group in GROUPS:
            layouts = list(permutations(group))
            k = 0
            for a in group:
                for own in [a] + ([DUAL[a]] if a in DUAL else []):
                    if not uniform and own == a:
                        continue
                    for b in group:
                        for r in requests_of(b) if b != a else []:
                            if r.split("=")[-1] in FEW or not uniform and b in DUAL and r.startswith(DUAL[b]):
                                continue
                            k += 1
                            j(layouts[k % len(layouts)], [own + "=axis_data", r] if k % 2 else [r, own + "=axis_data"])


def judge_interpolations(ctx, prog):
    """interpolation of a field along each of its axes"""
    for fname in ("get_interpolation", "get_interpolation_step"):
        f = function(prog, "SciDataTool.Functions.interpolations", fname)
        for index, grid, asked in product(range(3), (True, False), (("asked",), ONE)):
            o = RequestOracle(prog, grid=grid)
            it, st = Interp(prog, o), State()
            names = ("time", "angle", "z")
            given = {"values": arr([N(n) for n in names], ("values",)), "axis_values": arr((N(names[index]),), ("axis",)), "new_axis_values": arr((N(names[index], asked),), ("asked",)), "index": C(index)}
            if not set(f.params) <= set(given):
                raise AnalysisError("%s has other parameters" % f.qual)
            what = "%s along axis %d at %s%s" % (fname, index, "samples" if asked != ONE else "one sample", " of the axis" if grid else "")
            ctx.count("interpolations")
            ctx.obligation()
            try:
                v, st = it.run(f, [V(given[p]) for p in f.params], {}, st)
            except Raised as e:
                ctx.report("interpolation", what, f.where(), "%s fails (%s)" % (what, o.faults[0][1] if o.faults else e.exc))
                continue
            if o.faults:
                ctx.report("interpolation", what, f.where(), "%s fails: %s" % (what, o.faults[0][1]))
            for i in v:
                if not is_arr(i):
                    undecided(ctx, "%s gives %s" % (what, show(V(i))[:150]))
                    continue
                bad = len(i[2]) != 3 or any(d[2] not in (None, names[k]) or k != index and (d[3] != (1, 0) or d[4]) for k, d in enumerate(i[2]))
                if bad:
                    ctx.report("interpolation", what, f.where(), "%s leaves %s" % (what, ", ".join(dim_said(d) for d in i[2])))


def judge_magnitude(ctx, prog):
    f = method(prog, "DataND", "get_magnitude_along")
    j = Judge(ctx, prog, f)
    for group in GROUPS:
        for names, rs in pairs(group, FEW | {"max", "rms", "integrate_local", "derivate", "integrate"}):
            j(names, rs)


def run(ctx):
    prog = ctx.prog
    ctx.rule("slices, transforms and operations act on the requested axis only")
    for g in (judge_along, judge_weighted, judge_magnitude, judge_interpolated, judge_interpolations):
        g(ctx, prog)
    ctx.need("requests", 500)
