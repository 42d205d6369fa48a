"""P17: every axis with a counterpart has exactly one, consistently, with the conversion of that pair."""
import ast

from sa.absint import ABSENT, C, FALSE, NONE, TRUE, U, UNKNOWN, Interp, Obj, Oracle, Raised, State, V, is_c, is_t, show, term
from sa.algebra import NotAlgebraic, atom, number, rat
from sa.model import AnalysisError

TECHNIQUE = "evaluation of the pairing tables and of every function that pairs axes over all pairs and positions (constant and value-provenance analysis); conversion formulas compared as exact rational functions"
NOTE = "assumes: extraction returns the values of each axis under the name it was requested by; converted coordinates of points are judged with the frames"

FOURIER = {"time": "freqs", "angle": "wavenumber"}
PAIRS = dict(FOURIER, xyz="rphiz")
UNITS = {"time": "s", "freqs": "Hz", "angle": "rad", "wavenumber": "dimless", "xyz": "m", "rphiz": "m"}
BACK = {"ifft": "fft", "fft": "ifft", "pol2cart": "cart2pol", "cart2pol": "pol2cart"}
FUNCTIONS, PLOT, CONVERSIONS = "SciDataTool.Functions", "SciDataTool.Functions.Plot", "SciDataTool.Functions.conversions"
PI = ("x", "numpy.pi")
IN = lambda n: ("t", "in", n)


def counterpart(a):
    return PAIRS.get(a) or next(k for k, v in PAIRS.items() if v == a)


NAMES = sorted(PAIRS) + sorted(PAIRS.values())


class PairOracle(Oracle):
    def __init__(self, prog):
        self.p = prog
        self.calls = []
        self.requests = []
        self.n = 0

    def type_of(self, i, interp, st):
        if is_t(i) and i[1] in ("results",):
            return "dict"
        if i == IN("values") or is_t(i) and i[1] == "values of":
            return "ndarray"
        if is_t(i) and i[1] == "norm":
            return "Normalization"
        return None

    def call(self, interp, st, fn, args, kw, node):
        if fn[0] == "f":
            f = fn[1]
            if f.name == "check_var":
                return V(NONE)
            if f.module.name == CONVERSIONS and "_to_" in f.name and f.name.split("_to_")[0] in NAMES:
                self.calls.append((f, args, kw, node))
                return V(term("converted", f.name))
            if f.name == "rebuild_symmetries_axis" and args:
                return args[0]
            if f.name == "convert" and args:
                return V(term("unit changed", *[next(iter(a)) if len(a) == 1 else U for a in args]))
            if f.name.startswith("get_unit_"):
                return V(("t", "other unit"))
        if fn[0] == "b":
            name = fn[1].name
            if name in ("get_along", "get_magnitude_along"):
                return self.extract(interp, st, args)
            if name in ("to_linspace", "copy") and fn[1].name != "__init__":
                return V(fn[2]) if name == "to_linspace" else None
            if name == "get_axis":
                return V(NONE)
        if fn[0] == "x" and fn[1] in ("numpy.array", "numpy.asarray") and args:
            return args[0]
        return None

    def extract(self, interp, st, args):
        if len(args) == 1:
            ex = interp.exact_elems(args[0], st) if not all(is_c(i) for i in args[0]) else None
            args = ex if ex is not None else args
        names = []
        for a in args:
            if len(a) != 1 or not is_c(next(iter(a))) or not isinstance(next(iter(a))[2], str):
                names = None
                break
            names.append(next(iter(a))[2])
        self.requests.append(names)
        if names is None:
            return UNKNOWN
        d = {C(n.split("[")[0].split("{")[0]): V(("t", "values of", n.split("[")[0].split("{")[0])) for n in names}
        d[C("B")] = V(("t", "field"))
        self.n += 1
        lst = interp.new(st, ("requested axes", self.n), Obj("list"))
        other = interp.new(st, ("other axes", self.n), Obj("dict"))
        d[C("axes_list")], d[C("axes_dict_other")] = V(lst), V(other)
        return V(interp.new(st, ("results", self.n), Obj("dict", None, d)))

    def method(self, interp, st, base, name, args, kw, node):
        if is_t(base) and base[1] in ("norm", "axis values", "values of") and name == "copy":
            return V(base)
        return None


def axis(interp, st, prog, name, tag, cls="Data1D", **fields):
    c = prog.classes.get(cls)
    if c is None:
        raise AnalysisError("class %s not found" % cls)
    e = {"_name": V(C(name)), "_unit": V(C("unit of " + tag)), "_is_components": V(FALSE), "_values": V(IN("values")), "_symbol": V(C("")),
         "_symmetries": V(interp.new(st, ("symmetries", tag), Obj("dict"))), "_normalizations": V(interp.new(st, ("norms", tag), Obj("dict"))),
         "_sort_indices": V(NONE), "_is_overlay": V(FALSE), "parent": V(NONE), "_delta": V(NONE), "_filter": V(NONE), "_char_to_rm": V(NONE),
         "_ordinals": V(NONE), "_ordinals": V(NONE)}
    e.update(fields)
    return interp.instance(st, c, "axis " + tag, e)


def data(interp, st, prog, cls, axes):
    c = prog.classes.get(cls)
    if c is None:
        raise AnalysisError("class %s not found" % cls)
    lst = interp.new(st, ("axes",), Obj("list", exact=tuple(V(a) for a in axes)))
    return interp.instance(st, c, "self", {
        "_axes": V(lst), "_name": V(C("B")), "_symbol": V(C("B")), "_unit": V(C("T")), "_is_real": V(IN("is_real")), "_values": V(("t", "field")),
        "_normalizations": V(interp.new(st, ("norms", "self"), Obj("dict"))), "_FTparameters": V(interp.new(st, ("ft",), Obj("dict"))), "parent": V(NONE)})


def single(v):
    return next(iter(v)) if v is not None and len(v) == 1 else None


def const(v):
    i = single(v)
    return i[2] if i is not None and is_c(i) else U


def method(prog, cls, name):
    c = prog.classes.get(cls)
    m = c.find_method(name) if c is not None else None
    if m is None:
        raise AnalysisError("%s.%s not found" % (cls, name))
    return m


def function(prog, module, name):
    f = prog.modules[module].functions.get(name) if module in prog.modules else None
    if f is None:
        raise AnalysisError("%s.%s not found" % (module, name))
    return f


# -- tables ------------------------------------------------------------------------
def table(prog, module, name):
    """module-level dictionary of constants: key -> constant or list of constants"""
    if module not in prog.modules:
        raise AnalysisError("module %s not found" % module)
    it, st = Interp(prog), State()
    v = it.global_value(prog.modules[module], name, st)
    i = single(v)
    if i is None or i[0] != "o" or st.heap[i[1]].kind != "dict":
        return None
    out = {}
    for k, x in st.heap[i[1]].fields.items():
        j = single(x)
        if j is None:
            return None
        if j[0] == "o" and st.heap[j[1]].kind == "list" or j[0] == "tu":
            ex = it.exact_elems(V(j), st)
            if ex is None:
                return None
            out[k[2]] = [const(e) for e in ex]
        else:
            out[k[2]] = const(x)
    return out


def judge_tables(ctx, prog):
    where = {m: prog.modules[m].rel if hasattr(prog.modules[m], "rel") else m for m in (FUNCTIONS, PLOT) if m in prog.modules}
    fw, bw = table(prog, FUNCTIONS, "axes_dict"), table(prog, FUNCTIONS, "rev_axes_dict")
    ft, ift = table(prog, PLOT, "fft_dict"), table(prog, PLOT, "ifft_dict")
    if fw is None and bw is None and ft is None and ift is None:
        raise AnalysisError("no table of axis pairs found")
    for a, b, names in ((fw, bw, ("axes_dict", "rev_axes_dict")), (bw, fw, ("rev_axes_dict", "axes_dict"))):
        if a is None or b is None:
            ctx.count("undecided")
            continue
        seen = {}
        for k, e in sorted(a.items()):
            ctx.count("table entries")
            ctx.obligation()
            w = where[FUNCTIONS]
            if not isinstance(e, list) or len(e) < 3:
                ctx.report("pair-entry", "%s:%s" % (names[0], k), w, "the entry of %s is not a counterpart, a transform and a unit" % k)
                continue
            c, tr, un = e[:3]
            if c in seen:
                ctx.report("pair-shared", "%s:%s" % (names[0], c), w, "%s is the counterpart of both %s and %s" % (c, seen[c], k))
            seen[c] = k
            if c not in b:
                ctx.report("pair-one-way", "%s:%s" % (names[0], k), w, "%s has counterpart %s, which has none" % (k, c))
                continue
            if not isinstance(b[c], list) or len(b[c]) < 3:
                continue
            if b[c][0] != k:
                ctx.report("pair-mismatch", "%s:%s" % (names[0], k), w, "%s has counterpart %s, whose counterpart is %s" % (k, c, b[c][0]))
            if tr in BACK and b[c][1] != BACK[tr]:
                ctx.report("pair-transform", "%s:%s" % (names[0], k), w, "%s is reached from %s by %s and back by %s" % (k, c, tr, b[c][1]))
            if k in b:
                ctx.report("pair-twice", "%s:%s" % (names[0], k), w, "%s is listed on both sides of the pairs" % k)
            if k in NAMES and c != counterpart(k):
                ctx.report("pair-wrong", "%s:%s" % (names[0], k), w, "the counterpart of %s is %s" % (k, c))
            if k in UNITS and un != UNITS[k]:
                ctx.report("pair-unit", "%s:%s" % (names[0], k), w, "values of %s are given in %s" % (k, un))
            if k in FOURIER and tr != "ifft" or k in FOURIER.values() and tr != "fft":
                ctx.report("pair-transform", "%s:%s" % (names[0], k), w, "%s is reached from %s by %s" % (k, c, tr))
        for k in (PAIRS if names[0] == "axes_dict" else PAIRS.values()):
            if k not in a:
                ctx.report("pair-missing", "%s:%s" % (names[0], k), where[FUNCTIONS], "the axis %s has no counterpart in this table" % k)
    for a, b, names in ((ft, ift, ("fft_dict", "ifft_dict")), (ift, ft, ("ifft_dict", "fft_dict"))):
        if a is None or b is None:
            ctx.count("undecided")
            continue
        for k, c in sorted(a.items()):
            ctx.count("table entries")
            ctx.obligation()
            if b.get(c) != k:
                ctx.report("pair-mismatch", "%s:%s" % (names[0], k), where[PLOT], "%s has counterpart %s, whose counterpart is %s" % (k, c, b.get(c)))
            if k in NAMES and c != counterpart(k):
                ctx.report("pair-wrong", "%s:%s" % (names[0], k), where[PLOT], "the counterpart of %s is %s" % (k, c))
        for k in (FOURIER if names[0] == "fft_dict" else FOURIER.values()):
            if k not in a:
                ctx.report("pair-missing", "%s:%s" % (names[0], k), where[PLOT], "the axis %s has no counterpart in this table" % k)


# -- completion of a request -----------------------------------------------------
def judge_completion(ctx, prog):
    f = method(prog, "DataND", "_comp_axes")
    ra = prog.classes.get("RequestedAxis")
    if ra is None:
        raise AnalysisError("class RequestedAxis not found")
    for asked in NAMES:
        for stored in (asked, counterpart(asked)):
            for pos in (0, 1):
                o = PairOracle(prog)
                it, st = Interp(prog, o), State()
                axes = [axis(it, st, prog, "z", "z")]
                axes.insert(pos, axis(it, st, prog, stored, stored))
                me = data(it, st, prog, "DataND", axes)
                names = ("name", "corr_name", "unit", "corr_unit", "extension", "values", "indices", "input_data", "operation", "index", "transform", "is_pattern",
                         "rebuild_indices", "is_step", "noct", "corr_values", "is_components")
                rq = it.instance(st, ra, "request", dict({"_" + n: V(NONE) for n in names}, parent=V(NONE), _name=V(C(asked)), _unit=V(C("SI")), _extension=V(C("whole"))))
                lst = it.new(st, ("request list",), Obj("list", exact=(V(rq),)))
                what = "%s of data along %s" % (asked, " and ".join(st.heap[a[1]].fields["_name"] and const(st.heap[a[1]].fields["_name"]) for a in axes))
                ctx.count("requests completed")
                ctx.obligation()
                try:
                    r, st = it.run(f, [V(me), V(lst)], {}, st)
                except Raised as e:
                    ctx.report("request-fails", what, f.where(), "requesting %s always fails (%s)" % (what, e.exc))
                    continue
                got = st.heap[rq[1]].fields
                kept = it.exact_elems(V(lst), st)
                if kept is not None and len(kept) == 0:
                    ctx.report("request-ignored", what, f.where(), "requesting %s is ignored" % what)
                    continue
                want = {"index": pos, "corr_name": stored}
                if stored == asked:
                    want.update(operation=None, corr_unit="unit of " + stored)
                else:
                    want.update(operation=stored + "_to_" + asked, corr_unit=UNITS[asked])
                    if asked in FOURIER:
                        want["transform"] = "ifft"
                    elif asked in FOURIER.values():
                        want["transform"] = "fft"
                for n, w in want.items():
                    g = const(got.get("_" + n))
                    if g == U:
                        ctx.count("undecided")
                    elif g != w:
                        ctx.report("request-" + n, what, f.where(), "requesting %s gives %s %s instead of %s" % (what, n, g, w))


# -- conversion of the values -----------------------------------------------------
def binds(f, args, kw):
    """text of the mismatch between a call and the parameters, None when the call is accepted"""
    names = list(f.params)
    if len(args) > len(names) and not f.vararg:
        return "takes %d arguments" % len(names)
    for k in kw:
        if k not in names + list(f.kwonly) and not f.kwarg:
            return "has no argument %s" % k
        if k in names[:len(args)]:
            return "is given %s twice" % k
    for n in names[len(args):] + list(f.kwonly):
        if n not in kw and n not in f.defaults:
            return "needs an argument %s" % n
    return None


def judge_conversions(ctx, prog):
    conv = prog.modules.get(CONVERSIONS)
    if conv is None:
        raise AnalysisError("module %s not found" % CONVERSIONS)
    where = getattr(conv, "rel", CONVERSIONS)
    for a in NAMES:
        op = a + "_to_" + counterpart(a)
        if op not in conv.functions:
            ctx.report("convert-missing", op, where, "values of %s cannot be converted to %s: no %s" % (a, counterpart(a), op))
            continue
        for cls in ("Data1D", "DataLinspace", "DataPattern"):
            f = method(prog, cls, "get_values")
            if "operation" not in f.params:
                raise AnalysisError("%s.get_values takes no operation" % cls)
            for sym in (None, "period"):
                o = PairOracle(prog)
                it, st = Interp(prog, o), State()
                more = {}
                if cls == "DataLinspace":
                    more = {"_initial": V(IN("initial")), "_final": V(IN("final")), "_step": V(NONE), "_number": V(IN("number")), "_include_endpoint": V(TRUE)}
                if sym:
                    more["_symmetries"] = V(it.new(st, ("sym",), Obj("dict", None, {C(sym): V(IN(sym))})))
                me = axis(it, st, prog, a, a, cls, **more)
                what = "%s of %s axis %s" % (counterpart(a), cls, a)
                ctx.count("conversions requested")
                ctx.obligation()
                kw = {"operation": V(C(op)), "is_real": V(IN("is_real"))}
                try:
                    r, st = it.run(f, [V(me)], kw, st)
                except Raised as e:
                    ctx.report("convert-fails", what, f.where(), "asking for %s always fails (%s)" % (what, e.exc))
                    continue
                done = [c for c in o.calls if c[0] is conv.functions[op]]
                for g, args, k, node in o.calls:
                    if g is not conv.functions[op]:
                        ctx.report("convert-other", what, f.where(), "asking for %s applies %s" % (what, g.name))
                    bad = binds(g, args, k)
                    if bad:
                        ctx.report("convert-call", "%s:%s" % (what, op), f.where(), "asking for %s fails: %s %s" % (what, op, bad))
                    elif "is_real" in g.params and g is conv.functions[op]:
                        n = g.params.index("is_real")
                        v = args[n] if n < len(args) else k.get("is_real")
                        if v is None and g.name.split("_to_")[0] not in ("xyz", "rphiz"):
                            ctx.report("convert-real", what, f.where(), "asking for %s does not tell %s whether the field is real" % (what, op))
                        elif v is not None and single(v) is not None and single(v) != IN("is_real") and single(v) != U:
                            ctx.report("convert-real", what, f.where(), "asking for %s converts as if the field were %s" % (what, "real" if single(v) == TRUE else "something else"))
                if not done:
                    if it.unknown_calls:
                        ctx.count("undecided")
                    else:
                        ctx.report("convert-skipped", what, f.where(), "asking for %s does not convert the values" % what)
                elif not any(mentions(i, op, it, st) for i in r) and U not in r:
                    ctx.report("convert-dropped", what, f.where(), "asking for %s returns %s" % (what, show(r)[:200]))


def mentions(i, op, it, st, seen=()):
    if i == ("t", "converted", op):
        return True
    if isinstance(i, (tuple, frozenset)):
        if isinstance(i, tuple) and i and i[0] == "o" and i[1] in st.heap and i[1] not in seen:
            o = st.heap[i[1]]
            return any(mentions(x, op, it, st, seen + (i[1],)) for x in o.all_elems())
        return any(mentions(x, op, it, st, seen) for x in i if isinstance(x, (tuple, frozenset)))
    return False


# -- formulas ----------------------------------------------------------------------
VALUES = IN("values")
N, HALF, STEP, LAST, K = atom(("count",)), atom(("half",)), atom(("step",)), atom(("last",)), atom(("k",))


class FormulaOracle(Oracle):
    def __init__(self, is_real):
        self.is_real = is_real

    def type_of(self, i, interp, st):
        return "ndarray" if i == VALUES else None

    def attr(self, interp, st, b, name):
        if b == VALUES and name == "size":
            return V(("t", "count"))
        if b == VALUES and name == "shape":
            return V(("tu", (V(("t", "count")),)))
        return None

    def call(self, interp, st, fn, args, kw, node):
        if fn == ("bi", "len") and args and args[0] == V(VALUES):
            return V(("t", "count"))
        return None

    def truth(self, t, interp, st):
        if is_t(t) and t[1] == "cmp" and ("t", "count") in t[2:] and C(1) in t[2:]:
            op = next((x for x in t[2:] if isinstance(x, str)), None)
            return {"==": False, "!=": True, ">": True, "<=": False}.get(op)
        return None


def leaf(i):
    if i == ("t", "count"):
        return N
    if is_t(i) and i[1] == "item" and i[2] == VALUES and is_c(i[3]):
        k = i[3][2]
        if k == -1:
            return LAST
        if isinstance(k, int) and not isinstance(k, bool) and k >= 0:
            return atom(("first",)) + number(k) * STEP
    if is_t(i) and i[1] == "call" and i[2] in ("int", "numpy.floor", "math.floor") and len(i[4]) == 1:
        r = rat(i[4][0], leaf)
        if r == N / number(2):
            return HALF
        if r == N or r == HALF:
            return r
    if is_t(i) and i[1] == "bin" and i[2] == "//":
        if rat(i[3], leaf) == N and rat(i[4], leaf) == number(2):
            return HALF
    if is_t(i) and i[1] == "idx":
        return K
    if i == PI:
        return atom(PI)
    return None


def spread(i):
    """(value at position k, number of positions) of a regular sequence, None when it is not recognised"""
    if is_t(i) and i[1] == "bin" and i[2] in ("*", "/"):
        a, b = spread(i[3]), spread(i[4]) if i[2] == "*" else None
        if a is not None:
            r = rat(i[4], leaf)
            return (a[0] * r if i[2] == "*" else a[0] / r), a[1]
        if b is not None:
            return b[0] * rat(i[3], leaf), b[1]
        return None
    if is_t(i) and i[1] == "call":
        if i[2] in (".tolist", ".copy"):
            return spread(i[3])
        if i[2] in ("list", "numpy.array", "numpy.asarray") and len(i[4]) == 1:
            return spread(i[4][0])
        kw = dict(i[5])
        if i[2] == "numpy.linspace" and len(i[4]) == 3:
            lo, hi, n = (rat(x, leaf) for x in i[4])
            d = n if kw.get("endpoint") == FALSE else n - number(1)
            return lo + K * (hi - lo) / d, n
        if i[2] == "numpy.arange" and len(i[4]) == 1 and not kw:
            return K, rat(i[4][0], leaf)
    return None


def length(i):
    """number of positions an index runs over"""
    for x in walk(i):
        if is_t(x) and x[1] == "idx" and is_t(x[2]) and x[2][1] == "range" and len(x[2][2]) == 1:
            return rat(x[2][2][0], leaf)
    return None


def walk(i):
    yield i
    if isinstance(i, (tuple, frozenset)):
        for x in i:
            if isinstance(x, (tuple, frozenset)):
                yield from walk(x)


def judge_formulas(ctx, prog):
    one, two = number(1), number(2)
    tau = two * atom(PI)
    want = {
        ("time_to_freqs", True): (K / (N * STEP), HALF + one),
        ("time_to_freqs", False): ((K - HALF) / (N * STEP), N),
        ("angle_to_wavenumber", True): (K - HALF, N),
        ("angle_to_wavenumber", False): (K - HALF, N),
        ("freqs_to_time", True): (K / (two * LAST), two * (N - one)),
        ("freqs_to_time", False): (K * (N - two) / (two * LAST * N), N),
        ("wavenumber_to_angle", True): (tau * K * (N - two) / (two * LAST * N), N),
        ("wavenumber_to_angle", False): (tau * K * (N - two) / (two * LAST * N), N),
    }
    for (name, is_real), (value, count) in want.items():
        f = function(prog, CONVERSIONS, name)
        it, st = Interp(prog, FormulaOracle(is_real)), State()
        ctx.count("formulas")
        ctx.obligation()
        what = "%s of a %s field" % (name, "real" if is_real else "complex")
        try:
            r, st = it.run(f, [V(VALUES)], {"is_real": V(C(is_real))}, st)
        except Raised as e:
            ctx.report("formula-fails", what, f.where(), "%s always fails (%s)" % (what, e.exc))
            continue
        for i in r:
            if i == NONE:
                ctx.report("formula-none", what, f.where(), "%s gives nothing" % what)
                continue
            try:
                if i[0] == "o" and st.heap[i[1]].kind == "list" and st.heap[i[1]].exact is None and len(st.heap[i[1]].elems) == 1:
                    e = single(st.heap[i[1]].elems)
                    v, n = rat(e, leaf), length(e)
                else:
                    s = spread(i)
                    if s is None:
                        ctx.count("undecided")
                        ctx.sample("undecided: %s is %s" % (what, show(i)))
                        continue
                    v, n = s
            except NotAlgebraic:
                ctx.count("undecided")
                continue
            known = {("count",), ("half",), ("step",), ("last",), ("k",), ("first",), PI}
            if not v.atoms() <= known or n is not None and not n.atoms() <= known:
                ctx.count("undecided")
                ctx.sample("undecided: %s is %s" % (what, show(i)))
                continue
            ctx.count("formulas decided")
            if not v == value:
                ctx.report("formula-value", what, f.where(), "the values given by %s are not those of the pair: %s" % (what, show(i)[:200] if i[0] != "o" else show(single(st.heap[i[1]].elems))[:200]))
            elif n is not None and not n == count:
                ctx.report("formula-count", what, f.where(), "%s does not give as many values as the transform" % what)


# -- transforms that build new data ---------------------------------------------------
def judge_transforms(ctx, prog):
    for cls, name, pairs, other in (("DataTime", "time_to_freq", FOURIER, "DataFreq"), ("DataFreq", "freq_to_time", {v: k for k, v in FOURIER.items()}, "DataTime")):
        f = method(prog, cls, name)
        for stored in (list(pairs), list(pairs)[::-1], [list(pairs)[0], "z"], ["z", list(pairs)[1]], ["z"] + list(pairs)):
            o = PairOracle(prog)
            it, st = Interp(prog, o), State()
            axes = [axis(it, st, prog, n, n) for n in stored]
            me = data(it, st, prog, cls, axes)
            judge_built(ctx, prog, f, [V(me)], {}, it, st, o, stored, [pairs.get(n, n) for n in stored], other, "%s of data along %s" % (name, " and ".join(stored)))


def judge_slices(ctx, prog):
    f = method(prog, "DataND", "get_data_along")
    for stored in (["time", "angle"], ["freqs", "wavenumber"], ["angle", "time"], ["z", "xyz"], ["rphiz", "z"], ["time", "z"], ["freqs", "z"]):
        for swap in range(4):
            asked = [counterpart(n) if n in NAMES and swap >> k & 1 else n for k, n in enumerate(stored)]
            if asked[0] == stored[0] and stored[0] not in NAMES and swap & 1 or asked[1] == stored[1] and stored[1] not in NAMES and swap & 2:
                continue
            o = PairOracle(prog)
            it, st = Interp(prog, o), State()
            axes = [axis(it, st, prog, n, n) for n in stored]
            me = data(it, st, prog, "DataND", axes)
            kind = "DataTime" if "time" in asked else "DataFreq" if "freqs" in asked else "DataND"
            judge_built(ctx, prog, f, [V(me)] + [V(C(a)) for a in asked], {}, it, st, o, stored, asked, kind,
                        "data along %s taken along %s" % (" and ".join(stored), " and ".join(asked)))


def judge_built(ctx, prog, f, args, kw, it, st, o, stored, asked, kind, what):
    ctx.count("derived data")
    ctx.obligation()
    try:
        r, st = it.run(f, args, kw, st)
    except Raised as e:
        ctx.report("derived-fails", what, f.where(), "%s always fails (%s)" % (what, e.exc))
        return
    for q in o.requests:
        if q is None:
            ctx.count("undecided")
            return
        if [x.split("[")[0].split("{")[0] for x in q] != asked:
            ctx.report("derived-request", what, f.where(), "%s extracts along %s instead of %s" % (what, " and ".join(q), " and ".join(asked)))
            return
    for i in r:
        if i[0] != "o" or st.heap[i[1]].kind != "inst" or st.heap[i[1]].cls is None:
            ctx.count("undecided")
            continue
        d = st.heap[i[1]]
        if d.cls.name != kind:
            ctx.report("derived-class", what, f.where(), "%s gives a %s" % (what, d.cls.name))
        v = single(d.fields.get("_axes", UNKNOWN))
        ex = it.exact_elems(V(v), st) if v is not None else None
        if ex is None:
            ctx.count("undecided")
            continue
        if len(ex) != len(asked):
            ctx.report("derived-axes", what, f.where(), "%s has %d axes instead of %d" % (what, len(ex), len(asked)))
            continue
        for n, (s, a, x) in enumerate(zip(stored, asked, ex)):
            for j in x:
                if j[0] != "o" or st.heap[j[1]].kind != "inst":
                    ctx.count("undecided")
                    continue
                g = st.heap[j[1]].fields
                ctx.count("derived axes judged")
                unit = UNITS[a] if a != s else "unit of " + s
                vals = IN("values") if a == s and single(g.get("_values")) != ("t", "values of", a) else ("t", "values of", a)
                for field, w in (("_name", C(a)), ("_unit", C(unit)), ("_values", vals)):
                    k = single(g.get(field))
                    while is_t(k or U) and k[1] in ("copyof",):
                        k = k[2]
                    if k is None or k == U or is_t(k) and k[1] not in ("values of", "in"):
                        ctx.count("undecided")
                        ctx.sample("undecided: %s %s %s" % (what, field, show(g.get(field, UNKNOWN))))
                    elif k != w:
                        ctx.report("derived-axis", "%s:%d:%s" % (what, n, field), f.where(), "%s: %s of axis %d is %s instead of %s" % (what, field[1:], n + 1, show(k), show(w)))


# -- order of the request -----------------------------------------------------------
class OrderOracle(PairOracle):
    def call(self, interp, st, fn, args, kw, node):
        if fn[0] == "meth" and fn[2] == "argsort" or fn == ("x", "numpy.argsort"):
            ex = interp.exact_elems(V(fn[1]) if fn[0] == "meth" else args[0], st)
            k = [const(x) for x in ex] if ex is not None else [U]
            if all(isinstance(x, int) for x in k):
                self.n += 1
                return V(interp.new(st, ("order", self.n), Obj("list", exact=tuple(V(C(j)) for j in sorted(range(len(k)), key=k.__getitem__)))))
            return UNKNOWN
        if fn[0] == "b" and fn[1].name == "get_axes":
            return st.heap[fn[2][1]].fields["_axes"]
        return PairOracle.call(self, interp, st, fn, args, kw, node)


def judge_orders(ctx, prog):
    fix = function(prog, "SciDataTool.Functions.fix_axes_order", "fix_axes_order")
    order = function(prog, "SciDataTool.Functions.is_axes_in_order", "is_axes_in_order")
    for stored in (["time", "angle"], ["angle", "time"], ["freqs", "wavenumber"], ["wavenumber", "freqs"]):
        for swap in range(4):
            straight = [counterpart(n) if swap >> k & 1 else n for k, n in enumerate(stored)]
            for asked in (straight, straight[::-1]):
                o = OrderOracle(prog)
                it, st = Interp(prog, o), State()
                lst = lambda tag, xs: it.new(st, (tag,), Obj("list", exact=tuple(V(C(x)) for x in xs)))
                what = "%s of data along %s" % (" and ".join(asked), " and ".join(stored))
                ctx.count("orders")
                ctx.obligation()
                try:
                    r, s2 = it.run(fix, [V(lst("stored", stored)), V(lst("asked", asked))], {}, st)
                    ex = it.exact_elems(r, s2)
                    got = [const(x) for x in ex] if ex is not None else [U]
                    if U in got:
                        ctx.count("undecided")
                    elif got != straight:
                        ctx.report("order", what, fix.where(), "requesting %s is read as %s" % (what, " and ".join(map(str, got))))
                except Raised as e:
                    ctx.report("order-fails", what, fix.where(), "requesting %s always fails (%s)" % (what, e.exc))
                if swap in (1, 2):
                    continue
                it, st = Interp(prog, o), State()
                axes = [axis(it, st, prog, n, n) for n in stored]
                me = data(it, st, prog, "DataND", axes)
                ctx.count("orders")
                ctx.obligation()
                try:
                    r, s2 = it.run(order, [V(lst("asked", asked)), V(me)], {}, st)
                except Raised as e:
                    ctx.report("order-fails", what, order.where(), "the order of %s always fails to be found (%s)" % (what, e.exc))
                    continue
                i = single(r)
                ex = it.exact_elems(r, s2) if i is not None else None
                names = it.exact_elems(ex[1], s2) if ex is not None and len(ex) == 2 else None
                if names is None or const(ex[0]) == U or U in [const(x) for x in names]:
                    ctx.count("undecided")
                    continue
                if const(ex[0]) != (asked != straight) or [const(x) for x in names] != straight:
                    ctx.report("order", what, order.where(), "%s is said to be %s, to be read as %s" % (
                        what, "out of order" if const(ex[0]) else "in order", " and ".join(const(x) for x in names)))


# -- names of conversions used ----------------------------------------------------------
def judge_names(ctx, prog):
    conv = prog.modules[CONVERSIONS]
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.keyword) and n.arg == "operation" and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                use(ctx, conv, m, n.value)
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str) and any(
                    isinstance(t, ast.Name) and t.id == "operation" or isinstance(t, ast.Attribute) and t.attr == "operation" for t in n.targets):
                use(ctx, conv, m, n.value)


def use(ctx, conv, m, node):
    s = node.value
    if "_to_" not in s:
        return
    ctx.count("conversions named")
    ctx.obligation()
    if s not in conv.functions:
        ctx.report("convert-named", "%s:%s" % (m.name, s), "%s:%d" % (getattr(m, "rel", m.name), node.lineno), "the conversion %s does not exist" % s)


def judge_frequencies(ctx, prog):
    """the frequencies of data along time are those of the time axis"""
    f = method(prog, "DataND", "_get_freqs")
    for stored in (["time", "angle"], ["angle", "freqs"], ["angle", "time"]):
        o = OrderOracle(prog)
        it, st = Interp(prog, o), State()
        axes = [axis(it, st, prog, n, n, _values=V(("t", "in", "values")) if n != "angle" else V(("t", "values of", "angle"))) for n in stored]
        me = data(it, st, prog, "DataND", axes)
        what = "frequencies of data along %s" % " and ".join(stored)
        ctx.count("frequencies")
        ctx.obligation()
        try:
            r, st = it.run(f, [V(me)], {}, st)
        except Raised as e:
            ctx.report("frequencies-fail", what, f.where(), "the %s always fail (%s)" % (what, e.exc))
            continue
        i = single(r)
        if i is None or i == U:
            ctx.count("undecided")
            continue
        want = ("t", "converted", "time_to_freqs") if "time" in stored else IN("values")
        while is_t(i) and i[1] in ("call", "copyof") and i != want:
            i = i[2] if i[1] == "copyof" else i[3] if i[3] else i[4][0] if i[4] else U
        if i != want and i != U:
            ctx.report("frequencies", what, f.where(), "the %s are %s" % (what, show(r)[:200]))
        for g, args, k, node in o.calls:
            bad = binds(g, args, k)
            if bad:
                ctx.report("convert-call", "%s:%s" % (what, g.name), f.where(), "the %s fail: %s %s" % (what, g.name, bad))


def run(ctx):
    prog = ctx.prog
    ctx.rule("The pairing tables are evaluated and must be inverse of one another, agree on every pair, and give each axis its own unit and transform.")
    ctx.rule("Every function that pairs axes is evaluated for every pair, direction and position; it must find the counterpart, its conversion and its unit.")
    ctx.rule("Every conversion must exist, accept the call that reaches it, and give the values of that pair as an exact formula of step, count and position.")
    judge_tables(ctx, prog)
    judge_completion(ctx, prog)
    judge_conversions(ctx, prog)
    judge_formulas(ctx, prog)
    judge_transforms(ctx, prog)
    judge_slices(ctx, prog)
    judge_orders(ctx, prog)
    judge_names(ctx, prog)
    judge_frequencies(ctx, prog)
    ctx.need("requests completed", 24)
    ctx.need("conversions requested", 24)
    ctx.need("formulas", 8)
    ctx.need("derived data", 20)
    ctx.need("orders", 30)
