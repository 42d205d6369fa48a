"""P15: the axis, the field along it and the announced length have the same number of samples under symmetries"""

from itertools import product

from sa.absint import C, FALSE, NONE, TRUE, U, UNKNOWN, Interp, Obj, Raised, State, V, depth, is_c, is_t, show, term
from sa.framework import AnalysisError
from sa.shapes import N, ONE, arr, is_arr, is_n, linear, said

from checks.p12 import DUAL, RequestOracle, undecided
from checks.p17 import function, method, single
from checks.p20 import a_field, an_axis, norm

TECHNIQUE = "abstract interpretation of axis, field and length reconstruction over array shapes with lengths linear in the number of stored samples"
NOTE = "periodicity counts up to 7 and, for transformed axes, up to 9 stored samples; numpy is described by its effect on lengths"

COUNTS = [{}] + [{"period": k} for k in (1, 2, 3, 4, 7)] + [{"antiperiod": k} for k in (1, 2, 3, 4, 5, 6)]
EXTENTS = ("whole", "oneperiod", "antiperiod", "smallestperiod")


def plain(v):
    """arrays whose elements are not followed for long"""
    return v if v is None else frozenset(arr(i[2], ("computed",)) if is_arr(i) and depth(i[3]) > 6 else i for i in v)


class Lengths(RequestOracle):
    """only the shapes are abstracted: axes are read by the code analysed"""

    def __init__(self, prog, covered=1, grid=True):
        RequestOracle.__init__(self, prog, grid=grid)
        self.rounding, self.covered = set(), covered

    def truth(self, t, interp, st):
        if is_t(t) and t[1] == "cmp" and t[2] == "==" and C("whole") in t[3:] and "'arr'" in repr(t):
            return False
        if is_t(t) and t[1] == "cmp" and len(t) == 5 and all(is_t(x) and x[1] == "call" and len(x[4]) == 1 and is_arr(x[4][0]) for x in t[3:]):
            (a, b), asked = (t[3], t[4]), ("asked",)
            la, lb = a[4][0][2][0][3], b[4][0][2][0][3]
            if t[2] in ("<", "<=") and (la == asked) != (lb == asked) and linear(lb if la == asked else la):
                # the points asked for lie between the bounds of so many stored periods
                if a[2] == b[2] == "min":
                    return t[2] == "<=" if la == asked else True
                if a[2] == b[2] == "max":
                    inside = self.covered <= (lb if la == asked else la)[0]
                    return inside if la == asked else not inside
        return RequestOracle.truth(self, t, interp, st)

    def binop(self, *a):
        return plain(RequestOracle.binop(self, *a))

    def unary(self, *a):
        return plain(RequestOracle.unary(self, *a))

    def store(self, *a):
        return plain(RequestOracle.store(self, *a))

    def subscript(self, *a):
        return plain(RequestOracle.subscript(self, *a))

    def method(self, *a):
        if is_arr(a[2]) and a[3] == "tolist" and len(a[2][2]) == 1:
            return V(a[2])
        return plain(RequestOracle.method(self, *a))

    def call(self, *a):
        return plain(self.called(*a))

    def called(self, interp, st, fn, args, kw, node):
        f = fn[1] if fn[0] in ("f", "b") else None
        if f is not None and f.name in ("get_axis", "get_values", "get_length", "comp_fft_freqs", "to_linspace"):
            return None
        if fn[0] == "bi" and fn[1] in ("int", "round") and len(args) == 1 and len(args[0]) == 1:
            i = single(args[0])
            if is_n(i):
                return args[0]
            if is_t(i) and i[1] == "bin" and "step" in repr(i):
                self.rounding.add((fn[1], i))
                return V(N(None))
        return RequestOracle.call(self, interp, st, fn, args, kw, node)

    def complete(self, *a):
        raise AnalysisError("not used")


def axis(it, st, prog, cls, name, sym, length=(1, 0), given="number", **extra):
    d = N(name, length)
    f = {"_is_components": V(FALSE), "_is_overlay": V(FALSE), "_sort_indices": V(NONE)}
    if cls == "DataLinspace":
        n = C(length[1]) if linear(length) and length[0] == 0 else d
        f.update(_initial=V(C(0.0)), _final=V(("t", "num", "final", ())), _step=V(NONE), _number=V(n), _include_endpoint=V(FALSE))
        if given == "step":
            f.update(_step=V(("t", "num", "step", ())), _number=V(NONE))
        elif given == "start":
            f.update(_step=V(("t", "num", "step", ())), _final=V(NONE))
    else:
        f["_values"] = V(arr((d,), ("axis", name)))
    if cls == "DataPattern":
        whole = N(name, ("whole", name))
        f.update(_values_whole=V(arr((whole,), ("whole axis", name)) if given == "whole" else NONE), _rebuild_indices=V(arr((whole,), ("rebuild", name))), _unique_indices=V(arr((d,), ("unique", name))), _is_step=V(FALSE))
    f.update(extra)
    return an_axis(it, st, prog, cls, name, sym=sym, **f)


def known(l):
    """number of samples of a real transform of a known number of samples"""
    if isinstance(l, tuple) and l and l[0] in ("half", "double"):
        n = known(l[1])
        if linear(n) and n[0] == 0:
            return (0, n[1] // 2 + 1 if l[0] == "half" else 2 * (n[1] - 1))
        return (l[0], n)
    return l


def agree(a, b):
    """True, False or None when it is not known"""
    a, b = known(a), known(b)
    if a == b:
        return True
    if linear(a) and linear(b):
        return False
    return None


def lengths(v):
    """numbers of samples an array or a number may stand for; None when it is not known"""
    out = set()
    for i in v:
        if is_arr(i) and len(i[2]) == 1:
            out.add(i[2][0][3])
        elif is_n(i):
            out.add(i[3])
        elif is_c(i) and isinstance(i[2], int):
            out.add((0, i[2]))
        else:
            return None
    return out


def kinds():
    for given in ("number", "step", "start"):
        yield "DataLinspace", given
    yield "Data1D", "number"
    for given in ("number", "whole"):
        yield "DataPattern", given


def judge_axes(ctx, prog):
    """the announced length of an axis against the number of its values"""
    for (cls, given), sym, ext, name in product(kinds(), COUNTS, EXTENTS, ("time", "angle", "freqs", "wavenumber")):
        if cls == "DataPattern" and (sym or ext == "oneperiod"):
            continue
        got, rounding = [], []
        for f in (method(prog, cls, "get_values"), method(prog, cls, "get_length")):
            o = Lengths(prog)
            it, st = Interp(prog, o), State()
            me = axis(it, st, prog, cls, name, sym, given=given)
            kw = {"is_" + ext: V(TRUE)} if ext != "whole" else {}
            if not set(kw) <= set(f.params):
                got.append((None, None, f))
                continue
            try:
                v, st = it.run(f, [V(me)], kw, st)
                got.append((v, None, f))
                rounding.append(o.rounding)
            except Raised as e:
                got.append((None, o.faults[0][1] if o.faults else e.exc, f))
        what = "%s of a %s axis %s%s" % (ext, cls, name, " with %s %d" % next(iter(sym.items())) if sym else "")
        compare(ctx, what, got, "%s|%s" % (cls, ext))
        if cls != "DataPattern":
            judge_normalized(ctx, prog, cls, given, sym, ext, name, what)
        if len(rounding) == 2:
            for (x, y), (mine, theirs) in ((rounding, ("axis", "announced length")), (rounding[::-1], ("announced length", "axis"))):
                # a quotient of steps falls short of the number of samples by rounding error
                if any(k == "int" and t[2] == "/" for k, t in x) and not any(k == "int" for k, t in y):
                    ctx.report("rounding", cls, got[0][2].where(), "%s: the %s truncates the number of steps, the %s does not" % (what, mine, theirs))


def judge_normalized(ctx, prog, cls, given, sym, ext, name, what):
    """an axis normalized by one value per stored sample"""
    if given != "number" or ext == "antiperiod" and "antiperiod" not in sym or sym.get("antiperiod", 2) % 2:
        return
    f = method(prog, cls, "get_values")
    o = Lengths(prog)
    it, st = Interp(prog, o), State()
    v = norm(it, st, prog, "v", cls="Norm_vector", _vector=V(arr((N(name),), ("vector",))))
    me = axis(it, st, prog, cls, name, sym, given=given, norms_={"v": v})
    ctx.count("normalized axes")
    ctx.obligation()
    try:
        v, st = it.run(f, [V(me)], dict({"normalization": V(C("v"))}, **({"is_" + ext: V(TRUE)} if ext != "whole" else {})), st)
    except Raised as e:
        ctx.report("normalized", "%s|%s" % (cls, ext), f.where(), "%s is refused when normalized by one value per stored sample (%s)" % (what, e.exc))
        return
    if lengths(v) is None:
        undecided(ctx, "%s normalized: %s" % (what, show(v)[:150]))


def compare(ctx, what, got, key):
    ctx.count("axes and lengths")
    ctx.obligation()
    (v, e, f), (w, g, h) = got
    if e is not None and g is not None:
        return
    if e is not None or g is not None:
        if (v is None and e is None) or (w is None and g is None):
            return
        ctx.report("refused", key, (f if e is not None else h).where(), "%s: %s is refused (%s) but %s is not" % (what, "values" if e else "length", e or g, "length" if e else "values"))
        return
    if v is None or w is None:
        return
    a, b = lengths(v), lengths(w)
    if a is None or b is None:
        undecided(ctx, "%s: %s and %s" % (what, show(v)[:100], show(w)[:100]))
        return
    r = [agree(x, y) for x in a for y in b]
    if False in r:
        ctx.report("length", key, h.where(), "%s: the axis has %s samples, the announced length is %s" % (what, " or ".join(map(said, a)), " or ".join(map(said, b))))
    elif None in r:
        undecided(ctx, "%s: %s and %s" % (what, a, b))


def judge_rebuilt(ctx, prog):
    """a field rebuilt along each of its axes against the rebuilt axis"""
    field = function(prog, "SciDataTool.Functions.symmetries", "rebuild_symmetries")
    ax = function(prog, "SciDataTool.Functions.symmetries", "rebuild_symmetries_axis")
    names = ("time", "angle", "z")
    for sym, k in product(COUNTS, range(3)):
        got = []
        for f in (ax, field):
            o = Lengths(prog)
            it, st = Interp(prog, o), State()
            given = {"values": arr([N(n) for n in names] if f is field else [N(names[k])], ("values",)), "axis_index": C(k)}
            s = Obj("dict")
            for key, x in sym.items():
                s.fields[C(key)] = V(C(x))
            given["symmetries"] = it.new(st, ("p15 symmetries",), s)
            if not set(f.params) <= set(given):
                raise AnalysisError("%s has other parameters" % f.qual)
            try:
                v, st = it.run(f, [V(given[p]) for p in f.params], {}, st)
                if f is field and all(is_arr(i) and len(i[2]) == 3 for i in v):
                    for i in v:
                        for j in range(3):
                            if j != k and i[2][j][3] != (1, 0):
                                ctx.report("length", "rebuilt|%d" % k, f.where(), "%s of axis %d leaves %s samples along axis %d" % (sym, k, said(i[2][j][3]), j))
                    v = frozenset(arr((i[2][k],), i[3]) for i in v)
                got.append((v, None, f))
            except Raised as e:
                got.append((None, o.faults[0][1] if o.faults else e.exc, f))
        what = "field rebuilt along axis %d%s" % (k, " with %s %d" % next(iter(sym.items())) if sym else "")
        compare(ctx, what, got, "rebuilt|%s" % "".join(sym))


def data(it, st, prog, axes, names, lengths_):
    e = {"_values": V(arr([N(n, l) for n, l in zip(names, lengths_)], ("values",)))}
    return a_field(it, st, prog, "DataND", axes, norms_={"ref": norm(it, st, prog, "ref")}, **e)


def judge_request(ctx, prog, f, names, spec, requests, asked=None, options={}, **kw):
    """samples of each returned axis against the field along it"""
    o = Lengths(prog, **options)
    it, st = Interp(prog, o), State()
    axes = [axis(it, st, prog, cls, n, sym, l, given) for n, (cls, given, sym, l) in zip(names, spec)]
    me = data(it, st, prog, axes, names, [s[3] for s in spec])
    said_ = ", ".join("%s (%s%s%s)" % (n, s[0], " with %s %d" % next(iter(s[2].items())) if s[2] else "", ", %d samples" % s[3][1] if s[3][0] == 0 else "") for n, s in zip(names, spec))
    what = "%s of data along %s" % (" and ".join(requests), said_)
    ctx.count("requests")
    ctx.obligation()
    if asked is not None:
        d = Obj("dict")
        for n in names:
            d.fields[C(n)] = V(arr((N(None, asked),), ("axis data", n)))
        kw["axis_data"] = V(it.new(st, ("p15 axis data",), d))
    try:
        v, st = it.run(f, [V(me)] + [V(C(r)) for r in requests], dict({"is_squeeze": V(FALSE)}, **kw), st)
    except Raised as e:
        if o.faults:
            ctx.report("fault", "%s|%s" % (o.faults[0][0], o.faults[0][2][0].split(".")[-1]), f.where(), "%s fails: %s" % (what, o.faults[0][1]))
        elif e.exc not in ("AxisError",):
            ctx.report("fails", str(e.exc), f.where(), "%s fails with %s" % (what, e.exc))
        else:
            ctx.count("requests refused")
        return
    i = single(v)
    if i is None or i[0] != "o" or st.heap[i[1]].kind != "dict":
        undecided(ctx, "%s gives %s" % (what, show(v)[:150]))
        return
    d = st.heap[i[1]].fields
    for b in d.get(C("B"), UNKNOWN):
        if not is_arr(b) or len(b[2]) != len(names):
            undecided(ctx, "%s gives %s" % (what, str(b)[:150]))
            continue
        for k, n in enumerate(names):
            r = [x for x in requests if x.split("[")[0].split("=")[0].split("<")[0] in (n, DUAL.get(n))]
            if not r:
                continue
            key = r[0].split("[")[0].split("=")[0].split("<")[0]
            a = lengths(d.get(C(key), UNKNOWN))
            if a is None:
                undecided(ctx, "%s: axis %s is %s" % (what, key, show(d.get(C(key), UNKNOWN))[:150]))
                continue
            got = [agree(x, b[2][k][3]) for x in a]
            if False in got:
                ctx.report("field", "%s|%s" % (spec[k][0], r[0]), f.where(), "%s: %s has %s samples, the field has %s along it" % (what, key, " or ".join(map(said, a)), said(b[2][k][3])))
            elif None in got:
                undecided(ctx, "%s: %s has %s, the field %s" % (what, key, a, b[2][k][3]))
            else:
                ctx.count("axes of requests decided")


def judge_requests(ctx, prog):
    f = method(prog, "DataND", "get_along")
    syms = [s for s in COUNTS if s.get("antiperiod", 2) % 2 == 0]
    for cls, name, sym, ext in product(("Data1D", "DataLinspace"), ("time", "angle"), syms, EXTENTS):
        r = name if ext == "whole" else "%s[%s]" % (name, ext)
        judge_request(ctx, prog, f, (name,), [(cls, "number", sym, (1, 0))], (r,))
        judge_request(ctx, prog, f, ("z", name), [("Data1D", "number", {}, (1, 0)), (cls, "number", sym, (1, 0))], (r, "z"))
    for cls, name, sym, r in product(("Data1D", "DataLinspace"), ("time", "angle"), syms, ("[1]", "[0,2]", "=axis_data")):
        for covered, grid in product((1, 2, 9), (True, False)) if r == "=axis_data" else ((1, True),):
            o = dict(covered=covered, grid=grid)
            judge_request(ctx, prog, f, (name,), [(cls, "number", sym, (1, 0))], (name + r,), ("asked",), o)
            judge_request(ctx, prog, f, ("z", name), [("Data1D", "number", {}, (1, 0)), (cls, "number", sym, (1, 0))], (name + r, "z"), ("asked",), o)
    for cls, name, k, ext in product(("Data1D", "DataLinspace"), ("time", "angle"), (2, 4), EXTENTS):
        for sym in ({"period": k, "delta": 0.5}, {"antiperiod": k, "delta": 0.5}):
            judge_request(ctx, prog, f, (name,), [(cls, "number", sym, ONE)], (name if ext == "whole" else "%s[%s]" % (name, ext),))
    for given, ext in product(("number", "whole"), ("whole", "pattern", "smallestperiod")):
        judge_request(ctx, prog, f, ("z",), [("DataPattern", given, {}, (1, 0))], ("z" if ext == "whole" else "z[%s]" % ext,))
    for cls, name, sym, n in product(("Data1D", "DataLinspace"), ("time", "angle"), syms, (2, 3, 4, 5, 8)):
        judge_request(ctx, prog, f, (name,), [(cls, "number", sym, (0, n))], (DUAL[name],))
    # the spectrum of antiperiodic data is that of one period
    for name, sym, n in product(("freqs", "wavenumber"), [s for s in syms if "antiperiod" not in s], (3, 4, 5, 9)):
        for ext in ("", "[oneperiod]", "[smallestperiod]"):
            judge_request(ctx, prog, f, (name,), [("Data1D", "number", sym, (0, n))], (DUAL[name] + ext,))


def run(ctx):
    prog = ctx.prog
    ctx.rule("axis, field and announced length have the same number of samples")
    judge_axes(ctx, prog)
    judge_rebuilt(ctx, prog)
    judge_requests(ctx, prog)
