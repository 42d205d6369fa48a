"""P10: every axis keyword is honoured at every stage of a request."""
import ast
from itertools import product

from sa.absint import ABSENT, C, FALSE, NONE, TRUE, U, UNKNOWN, Interp, Obj, Oracle, Raised, State, V, is_c, is_t, show, term
from sa.model import AnalysisError
from checks.p17 import const, function, method, single
from checks.p20 import AXES, a_field, an_axis, norm, requested

TECHNIQUE = "abstract interpretation of each stage of the extraction over the finite domain of keywords: parsed fields, extents, stage order, operation called and reported value, keyword by keyword"
NOTE = "assumes: numpy reductions do what their names say; numbers in requests are literals; the numeric content of the operations is outside this property"

REDUCE = ("max", "min", "sum", "rss", "mean", "rms", "integrate")
KEEP = ("integrate_local", "derivate", "antiderivate")
EXTENT = ("oneperiod", "antiperiod", "smallestperiod", "pattern")
IN = lambda *n: ("t", "in") + n
INF = ("t", "inf")
NEG = ("t", "-inf")


class ParseOracle(Oracle):
    def __init__(self, prog):
        self.p = prog

    def type_of(self, i, interp, st):
        return "ndarray" if is_t(i) and i[1] == "in" else None

    def call(self, interp, st, fn, args, kw, node):
        if fn[0] in ("f", "b") and fn[1].name == "check_var":
            return V(NONE)
        if fn[0] == "x" and fn[1] in ("numpy.array", "numpy.asarray") and len(args) == 1:
            return args[0]
        if fn[0] == "bi" and fn[1] == "eval" or fn[0] == "x" and fn[1] in ("eval", "builtins.eval"):
            i = single(args[0]) if args else None
            if i is not None and is_c(i) and isinstance(i[2], str):
                try:
                    return V(C(ast.literal_eval(i[2].strip())))
                except (ValueError, SyntaxError):
                    return V(term("eval", i))
        return None


# request -> name, unit, extension, indices, input data, octave
def requests():
    for n in ("time", "z", "loadcases", "terminal", "consumption", "maximum_load", "armss"):
        yield n, (n, "SI", "whole", None, None, None)
        yield n + "{ms}", (n, "ms", "whole", None, None, None)
        yield n + "->order", (n, "order", "whole", None, None, None)
        for op in REDUCE + KEEP:
            yield "%s=%s" % (n, op), (n, "SI", op, None, None, None)
            yield "%s=%s{°}" % (n, op), (n, "°", op, None, None, None)
            yield "%s->order=%s" % (n, op), (n, "order", op, None, None, None)
    for n in ("time", "freqs"):
        for e in EXTENT:
            yield "%s[%s]" % (n, e), (n, "SI", e, None, None, None)
            yield "%s[%s]{ms}" % (n, e), (n, "ms", e, None, None, None)
            yield "%s->order[%s]" % (n, e), (n, "order", e, None, None, None)
        for text, unit in (("%s", "SI"), ("%s{ms}", "ms")):
            yield text % (n + ">2"), (n, unit, "interval", None, [2, INF], None)
            yield text % (n + "<2.5"), (n, unit, "interval", None, [NEG, 2.5], None)
            yield text % (n + "=[0,1]"), (n, unit, "interval", None, [0, 1], None)
            yield text % (n + "=[0.5,1,2]"), (n, unit, "list", None, [0.5, 1, 2], None)
            yield text % (n + "=[3,1,2,7]"), (n, unit, "list", None, [3, 1, 2, 7], None)
            yield text % (n + "=0.25"), (n, unit, "single", None, [0.25], None)
            yield text % (n + "=axis_data"), (n, unit, "axis_data", None, "data of " + n, None)
            yield text % (n + "[2:5]"), (n, unit, "interval", [2, 3, 4], None, None)
            yield text % (n + "[1,4]"), (n, unit, "list", [1, 4], None, None)
            yield text % (n + "[3,0,4]"), (n, unit, "list", [3, 0, 4], None, None)
            yield text % (n + "[]"), (n, unit, "list", [":"], None, None)
            yield text % (n + "[5largest]"), (n, unit, "list", ["5"], None, None)
            yield text % (n + "[0]"), (n, unit, "single", [0], None, None)
        yield n + "->order>2", (n, "order", "interval", None, [2, INF], None)
        yield n + "->order<2", (n, "order", "interval", None, [NEG, 2], None)
        yield n + "->order=[1,3]", (n, "order", "interval", None, [1, 3], None)
        yield n + "->order=3", (n, "order", "single", None, [3], None)
        yield n + "->order[1,2]", (n, "order", "list", [1, 2], None, None)
        yield n + "->order=axis_data", (n, "order", "axis_data", None, "data of " + n, None)
    yield "freqs->1/3oct", ("freqs", "SI", "whole", None, None, 3)
    yield "freqs{1/12oct}", ("freqs", "SI", "whole", None, None, 12)
    yield "time=axis_data_none", None


def read(it, st, v):
    """a parsed field as a plain value; raises LookupError when it is not determined"""
    i = single(v)
    if i is None:
        raise LookupError
    if is_c(i):
        return i[2]
    if i[0] == "o":
        o = st.heap[i[1]]
        if o.kind == "list" and o.exact is not None:
            return [read(it, st, e) for e in o.exact]
        raise LookupError
    if i[0] == "tu":
        return [read(it, st, e) for e in i[1]]
    if i[0] == "x" and i[1].split(".")[-1] in ("inf", "Inf", "infty"):
        return INF
    if i == IN("data", "time") or i == IN("data", "freqs"):
        return "data of " + i[3]
    if is_t(i) and i[1] == "neg" and read(it, st, V(i[2])) == INF:
        return NEG
    raise LookupError


FIELDS = ("_name", "_unit", "_extension", "_indices", "_input_data", "_noct")
WORDS = {"_name": "name", "_unit": "unit", "_extension": "operation", "_indices": "indices", "_input_data": "values asked", "_noct": "octave band"}


def judge_parse(ctx, prog):
    f = function(prog, "SciDataTool.Functions.parser", "read_input_strings")
    todo = [(r, w) for r, w in requests() if w is not None]
    lists = [((r,), (w,)) for r, w in todo]
    # what was read for one axis does not leak into the next one
    loaded = ("z=axis_data", ("z", "SI", "axis_data", None, "data of z", None)), ("phase[1,2]{ms}", ("phase", "ms", "list", [1, 2], None, None)), ("freqs{1/3oct}", ("freqs", "SI", "whole", None, None, 3)), ("x=[1,2]", ("x", "SI", "interval", None, [1, 2], None))
    for a, w in loaded:
        for r, x in (("time", ("time", "SI", "whole", None, None, None)), ("time=max", ("time", "SI", "max", None, None, None)), ("time=[0,1]", ("time", "SI", "interval", None, [0, 1], None)), ("time[2]", ("time", "SI", "single", [2], None, None))):
            lists.append(((a, r), (w, x)))
            lists.append(((r, a), (x, w)))
    for rs, wants in lists:
        o = ParseOracle(prog)
        it, st = Interp(prog, o), State()
        what = " and ".join(rs)
        ctx.count("requests parsed")
        ctx.obligation()
        d = Obj("dict")
        for n in ("time", "freqs", "z"):
            d.fields[C(n)] = V(IN("data", n))
        args = [V(it.new(st, ("request",), Obj("list", exact=tuple(V(C(r)) for r in rs)))), V(it.new(st, ("axis data",), d))]
        try:
            r, st = it.run(f, args, {}, st)
        except Raised as e:
            ctx.report("parse-fails", what, f.where(), "the request %s is not understood (%s)" % (what, e.exc))
            continue
        lst = single(r)
        o_ = st.heap.get(lst[1]) if lst is not None and lst[0] == "o" else None
        if o_ is None or o_.kind != "list" or o_.exact is None:
            undecided(ctx, "parsing of %s" % what)
            continue
        if len(o_.exact) != len(wants):
            ctx.report("parse", what, f.where(), "the request %s is read as %d axes" % (what, len(o_.exact)))
            continue
        for e, want in zip(o_.exact, wants):
            a = single(e)
            if a is None or a[0] != "o" or st.heap[a[1]].cls is None:
                undecided(ctx, "parsing of %s" % what)
                continue
            h = st.heap[a[1]].fields
            for k, w in zip(FIELDS, want):
                try:
                    got = read(it, st, h.get(k, UNKNOWN))
                except LookupError:
                    if k == "_input_data" and w == "data of z" and single(h.get(k, UNKNOWN)) == IN("data", "z"):
                        continue
                    undecided(ctx, "%s of %s is %s" % (WORDS[k], what, show(h.get(k, UNKNOWN))))
                    continue
                if got != w or type(got) is bool:
                    ctx.report("parse", what, f.where(), "in the request %s the %s is read as %s instead of %s" % (what, WORDS[k], plain(got), plain(w)))


def plain(x):
    if isinstance(x, list):
        return "[%s]" % ", ".join(plain(i) for i in x)
    return "infinity" if x == INF else "minus infinity" if x == NEG else "nothing" if x is None else str(x)


def undecided(ctx, text):
    ctx.count("undecided")
    ctx.samples.insert(0, "undecided: " + text)


class StageOracle(Oracle):
    """stands in for the functions named, recording their calls"""

    def __init__(self, prog, stubs=(), lengths=None):
        self.p = prog
        self.stubs = stubs
        self.seen = []
        self.lengths = lengths or {}

    def type_of(self, i, interp, st):
        if is_t(i) and i[1] in ("in", "values of", "axis values", "stage"):
            return "ndarray"
        return None

    def nonempty(self, i, interp, st):
        return is_t(i) and i[1] in ("in", "values of", "axis values", "stage")

    def call(self, interp, st, fn, args, kw, node):
        if fn[0] == "x" and fn[1] in self.stubs:
            self.seen.append((fn[1], args, kw))
            return V(term("stage", fn[1].split(".")[-1], *[single(a) or U for a in args]))
        f = fn[1] if fn[0] in ("f", "b") else None
        if f is None:
            return None
        if f.name == "check_var":
            return V(NONE)
        if f.name in self.stubs:
            a = list(args)
            names = f.params[1:] if fn[0] == "b" else f.params
            d = dict(zip(names, a))
            d.update(kw)
            self.seen.append((f.name, d, fn[2] if fn[0] == "b" else None))
            return self.stub(interp, st, f.name, d)
        return None

    def stub(self, interp, st, name, d):
        first = single(next(iter(d.values()))) if d else None
        return V(term("stage", name, first or U))

    def method(self, interp, st, base, name, args, kw, node):
        if is_t(base) and name == "copy":
            return V(base)
        return None


class AxisOracle(StageOracle):
    def stub(self, interp, st, name, d):
        def flag(k):
            i = single(d.get(k, V(FALSE)))
            return i if i is not None else U
        return V(term("axis values", flag("is_oneperiod"), flag("is_antiperiod"), flag("is_smallestperiod"), single(d.get("unit", V(C("SI")))) or U, single(d.get("operation", V(NONE))) or U))


def judge_extent(ctx, prog):
    """the values of a requested axis cover the extent asked for"""
    f = method(prog, "RequestedAxis", "get_axis")
    ONE, ANTI, SMALL, ALL = (TRUE, FALSE, FALSE), (FALSE, TRUE, FALSE), (FALSE, FALSE, TRUE), (FALSE, FALSE, FALSE)
    for cls, name, transform in (("Data1D", "time", None), ("DataLinspace", "angle", None), ("Data1D", "z", None), ("Data1D", "freqs", "fft_axis"), ("Data1D", "freqs", "fft"), ("DataLinspace", "wavenumber", "fft"), ("Data1D", "time", "ifft"), ("DataPattern", "z", None)):
        pattern = cls == "DataPattern"
        for ext in REDUCE + KEEP + EXTENT + ("whole",):
            if pattern and ext in ("oneperiod", "antiperiod") or not pattern and ext == "pattern":
                continue
            if transform == "fft" and ext not in ("whole", "oneperiod") + REDUCE:
                continue
            if ext == "smallestperiod" or ext == "pattern":
                want = SMALL
            elif ext == "antiperiod":
                want = ANTI
            elif ext == "oneperiod" or transform == "fft":
                want = ONE
            elif ext in REDUCE + KEEP:
                want = ALL if pattern else SMALL
            elif name in ("freqs", "wavenumber") or transform == "ifft":
                want = SMALL
            else:
                want = ALL
            o = AxisOracle(prog, ("get_values",))
            it, st = Interp(prog, o), State()
            stored = {"freqs": "time", "wavenumber": "angle"}.get(name, name) if transform == "fft" else {"time": "freqs"}.get(name, name) if transform == "ifft" else name
            ax = an_axis(it, st, prog, cls, stored)
            op = NONE if transform in (None, "fft_axis") else C(stored + "_to_" + name)
            rq = requested(it, st, prog, name, ext, _transform=V(C(transform) if transform else NONE), _operation=V(op), _corr_name=V(C(stored)), _values=V(NONE))
            what = "%s of %s%s stored as %s" % (ext, name, " (%s)" % transform if transform else "", cls)
            ctx.count("extents")
            ctx.obligation()
            try:
                r, st = it.run(f, [V(rq), V(ax), V(TRUE)], {}, st)
            except Raised as e:
                ctx.report("extent-fails", what, f.where(), "%s fails (%s)" % (what, e.exc))
                continue
            h = st.heap[rq[1]].fields
            for i in h["_values"]:
                found = list(axis_terms(i))
                if not found:
                    if i == NONE:
                        ctx.report("extent", what, f.where(), "%s: the axis has no values" % what)
                    else:
                        undecided(ctx, "%s has values %s" % (what, show(V(i))))
                    continue
                for t in found:
                    if U in t[2:5]:
                        undecided(ctx, "%s has values %s" % (what, show(V(i))))
                    elif tuple(t[2:5]) != want:
                        ctx.report("extent", what, f.where(), "%s covers %s instead of %s" % (what, extent(t[2:5]), extent(want)))
                    elif t[6] != op and t[6] != U:
                        ctx.report("extent", what, f.where(), "%s applies the operation %s instead of %s" % (what, show(V(t[6])), show(V(op))))
            if pattern:
                for k, w in (("_is_pattern", TRUE), ("_rebuild_indices", IN("indices")), ("_is_step", FALSE)):
                    if h[k] != V(w) and U not in h[k]:
                        ctx.report("pattern", what + ":" + k[1:], f.where(), "%s: %s is %s" % (what, k[1:], show(h[k])))
            # the keyword survives, except that a pattern is read as smallest period
            for i in h["_extension"]:
                if is_c(i) and i[2] != ext and not (ext == "pattern" and i[2] == "smallestperiod"):
                    ctx.report("keyword", what, f.where(), "%s is continued as %s" % (what, i[2]))


def axis_terms(i):
    if is_t(i):
        if i[1] == "axis values":
            yield i
            return
        for x in i[2:]:
            if isinstance(x, tuple) and x:
                yield from axis_terms(x)


def extent(t):
    return {(TRUE, FALSE, FALSE): "one period", (FALSE, TRUE, FALSE): "one antiperiod", (FALSE, FALSE, TRUE): "the smallest period", (FALSE, FALSE, FALSE): "the whole axis"}.get(tuple(t), "conflicting extents")


class SampleOracle(StageOracle):
    """axes with known samples"""

    def __init__(self, prog, samples):
        StageOracle.__init__(self, prog, ("get_values",))
        self.samples = samples

    def stub(self, interp, st, name, d):
        flags = tuple(const(d.get(k, V(FALSE))) for k in ("is_oneperiod", "is_antiperiod", "is_smallestperiod"))
        if any(x not in (True, False) for x in flags):
            return UNKNOWN
        k = "one" if flags[0] else "small" if flags[1] or flags[2] else "whole"
        return V(("tu", tuple(V(C(x)) for x in self.samples[k])))

    def call(self, interp, st, fn, args, kw, node):
        if fn[0] == "x" and fn[1] in ("numpy.array", "numpy.asarray") and len(args) == 1:
            return args[0]
        if fn[0] == "x" and fn[1] == "numpy.argsort" and len(args) == 1:
            ex = interp.exact_elems(args[0], st)
            if ex is not None:
                v = [const(x) for x in ex]
                return V(("tu", tuple(V(C(k)) for k in sorted(range(len(v)), key=lambda k: v[k]))))
        return StageOracle.call(self, interp, st, fn, args, kw, node)

    def method(self, interp, st, base, name, args, kw, node):
        if base[0] == "tu" and name in ("tolist", "copy"):
            return V(base)
        return StageOracle.method(self, interp, st, base, name, args, kw, node)


def judge_selection(ctx, prog):
    """the samples selected are those asked for"""
    f = method(prog, "RequestedAxis", "get_axis")
    tu = lambda *x: V(("tu", tuple(V(C(k)) for k in x)))
    whole = tuple(range(12))
    for cls, sym, one in (("Data1D", {}, 12), ("DataLinspace", {"period": 4}, 3), ("Data1D", {"antiperiod": 4}, 6), ("DataPattern", {}, 12)):
        samples = {"small": whole[:3] if sym or cls == "DataPattern" else whole, "one": whole[:one], "whole": whole}
        asked = [("interval", [a, b], None) for a, b in ((0, 2), (1, 1.5), (0.5, 4.5), (4, 20), (-1, 0), (7, 8), (0, 11))]
        asked += [("list", [0, 0.5, 2], None), ("list", [1, 3, 5], None), ("list", [2, 7, 30], None), ("single", [1.5], None), ("single", [8], None), ("axis_data", [0.5, 1.5], None), ("axis_data", [1, 7], None), ("axis_data", [1, 2, 3, 9], None)]
        asked += [("interval", None, [2, 3, 4]), ("list", None, [1, 4]), ("list", None, [9, 0]), ("single", None, [5]), ("list", None, ["2"]), ("list", None, ["5"])]
        for ext, data, ind in asked:
            for sort in (None, (7, 3, 5, 1, 0, 2)) if ind and isinstance(ind[0], str) and cls == "Data1D" else (None,):
                o = SampleOracle(prog, samples)
                it, st = Interp(prog, o), State()
                extra = {"_sort_indices": V(NONE) if sort is None else tu(*sort)} if cls == "Data1D" else {}
                ax = an_axis(it, st, prog, cls, "time", sym=sym, **extra)
                il = V(it.new(st, ("asked indices",), Obj("list", exact=tuple(V(C(k)) for k in ind)))) if ind else V(NONE)
                rq = requested(it, st, prog, "time", ext, _values=V(NONE), _input_data=tu(*data) if data else V(NONE), _indices=il)
                what = "%s %s of a %s axis%s%s" % ("indices" if ind else ext, ind or data, cls, " with " + next(iter(sym)) if sym else "", " with a sorting" if sort else "")
                ctx.count("selections")
                ctx.obligation()
                try:
                    r, st = it.run(f, [V(rq), V(ax), V(TRUE)], {}, st)
                except Raised as e:
                    if ext == "interval" and data and not [x for x in whole if data[0] <= x <= data[1]]:
                        continue
                    ctx.report("selection-fails", what, f.where(), "%s fails (%s)" % (what, e.exc))
                    continue
                h = st.heap[rq[1]].fields
                try:
                    got = [read(it, st, h[k]) for k in ("_values", "_indices", "_input_data")]
                except LookupError:
                    undecided(ctx, "%s gives %s" % (what, ", ".join(show(h[k]) for k in ("_values", "_indices", "_input_data"))))
                    continue
                if ext == "interval" and data:
                    k = [x for x in whole if data[0] <= x <= data[1]]
                    want = [k, k, None]
                elif ind:
                    k = list(sort[:int(ind[0])]) if sort else list(whole[::-1][:int(ind[0])]) if isinstance(ind[0], str) else ind
                    want = [k, k, None]
                else:
                    want = [got[0], None, data]
                    if got[0] not in [list(whole[:n]) for n in (3, one, 12)] or got[0] != list(whole) and got[0][-1] < max(data):
                        want[0] = "samples around those asked for"
                got[1] = None if got[1] is None else [x for x in got[1]]
                if got != want:
                    ctx.report("selection", what, f.where(), "%s gives the samples %s, positions %s, values to interpolate %s instead of %s, %s, %s" % ((what,) + tuple(plain(x) for x in got + want)))
                else:
                    ctx.count("selections decided")
    names = ("a", "b", "c")
    for ext, ind, overlay in (("whole", None, False), ("whole", None, True), ("list", [":"], False), ("list", [2, 0], False), ("single", [1], False), ("interval", [0, 1], False), ("list", ["2"], False), ("oneperiod", None, False)) + tuple((op, None, v) for op in REDUCE for v in (False, True)):
        for sort in (None, (1, 2, 0)) if ind == ["2"] else (None,):
            o = SampleOracle(prog, {"whole": names, "one": names, "small": names})
            it, st = Interp(prog, o), State()
            ax = an_axis(it, st, prog, "Data1D", "phase", _is_components=V(TRUE), _is_overlay=V(TRUE if overlay else FALSE), _sort_indices=V(NONE) if sort is None else tu(*sort))
            il = V(it.new(st, ("asked indices",), Obj("list", exact=tuple(V(C(k)) for k in ind)))) if ind else V(NONE)
            rq = requested(it, st, prog, "phase", ext, _values=V(NONE), _indices=il, _is_components=V(TRUE))
            what = "%s %s of components%s%s" % (ext, ind or "", ", overlaid" if overlay else "", ", sorted" if sort else "")
            ctx.count("selections")
            ctx.obligation()
            try:
                r, st = it.run(f, [V(rq), V(ax), V(TRUE)], {}, st)
            except Raised as e:
                ctx.report("selection-fails", what, f.where(), "%s fails (%s)" % (what, e.exc))
                continue
            h = st.heap[rq[1]].fields
            try:
                got = [read(it, st, h[k]) for k in ("_values", "_indices", "_extension")]
            except LookupError:
                undecided(ctx, "%s gives %s" % (what, ", ".join(show(h[k]) for k in ("_values", "_indices", "_extension"))))
                continue
            k = list(sort[:2]) if sort else [2, 1] if ind == ["2"] else [0, 1, 2] if ind == [":"] or ind is None else ind
            full = ind is None
            want = [[names[j] for j in k], k, ext if ext in REDUCE else "list" if not full or overlay else "whole"]
            same = full and got[1] is None and (not overlay or ext in REDUCE) or got[1] == k
            if got[0] != want[0] or not same or got[2] != want[2] and not (ext in REDUCE and got[2] != ext) and (got[2] in REDUCE) != (want[2] in REDUCE) or ext in REDUCE and got[2] != ext or overlay and ext == "whole" and got[2] != "list":
                ctx.report("selection", what, f.where(), "%s gives %s at %s as %s instead of %s at %s as %s" % ((what,) + tuple(plain(x) for x in got + want)))
            else:
                ctx.count("selections decided")


class ShapeOracle(StageOracle):
    def attr(self, interp, st, b, name):
        if name == "shape" and is_t(b) and b[1] in ("in", "rebuilt"):
            return V(("tu", (V(C(2)), V(C(3)), V(C(2)))))
        return None


class FieldOracle(ShapeOracle):
    def stub(self, interp, st, name, d):
        sym = d.get("symmetries") or UNKNOWN
        i = single(sym)
        desc = U
        if i is not None and i[0] == "o":
            o = st.heap[i[1]]
            if o.kind == "dict" and not o.pairs:
                desc = tuple(sorted((k[2], single(v)[2] if single(v) is not None and is_c(single(v)) else "?") for k, v in o.fields.items()))
        return V(("t", "rebuilt", single(d.get("values", UNKNOWN)) or U, single(d.get("axis_index", UNKNOWN)) or U, C(repr(desc)) if desc != U else U))


def judge_rebuilt(ctx, prog):
    """the values follow the extent of their axis"""
    g, r = method(prog, "DataND", "_get_field"), method(prog, "DataND", "_rebuild_symmetries")
    rebuild = function(prog, "SciDataTool.Functions.symmetries", "rebuild_symmetries")
    for name, transform, pattern, sym in product(("time", "z", "freqs"), (None, "fft", "ifft", "fft_axis"), (False, True), ({}, {"period": 4}, {"antiperiod": 4})):
        if pattern and (transform or sym) or (name == "freqs") != (transform in ("fft", "fft_axis")) or transform == "ifft" and name != "time":
            continue
        for ext in REDUCE + KEEP + EXTENT[:3] + ("whole", "interval"):
            if pattern and ext in ("oneperiod", "antiperiod") or ext == "antiperiod" and "antiperiod" not in sym:
                continue
            o = FieldOracle(prog, ("rebuild_symmetries", "numpy.take"))
            it, st = Interp(prog, o), State()
            stored = {"fft": "time", "ifft": "freqs"}.get(transform, name)
            first = an_axis(it, st, prog, "Data1D", "phase")
            ax = an_axis(it, st, prog, "DataPattern" if pattern else "Data1D", stored, sym=sym)
            me = a_field(it, st, prog, "DataND", [first, ax])
            rq = requested(it, st, prog, name, ext, 1, _transform=V(C(transform) if transform else NONE), _is_pattern=V(TRUE if pattern else FALSE), _rebuild_indices=V(IN("pattern indices")) if pattern else V(NONE), _corr_name=V(C(stored)))
            al = V(it.new(st, ("axes list",), Obj("list", exact=(V(rq),))))
            what = "%s of %s%s%s%s" % (ext, name, " (%s)" % transform if transform else "", " stored as a pattern" if pattern else "", " with " + next(iter(sym)) if sym else "")
            ctx.count("rebuilt fields")
            ctx.obligation()
            try:
                v, st = it.run(g, [V(me), al], {}, st)
                v, st = it.run(r, [V(me), v, al], {}, st)
            except Raised as e:
                ctx.report("rebuild-fails", what, r.where(), "%s fails (%s)" % (what, e.exc))
                continue
            whole = repr(tuple(sorted((k, n) for k, n in sym.items())))
            if pattern:
                want = [["pattern"]] if ext != "smallestperiod" else [[]]
            elif transform == "fft":
                want = [[repr((("antiperiod", 2),))]] if "antiperiod" in sym else [[]]
            elif ext == "oneperiod":
                want = [[repr((("antiperiod", 2),))]] if "antiperiod" in sym else [[]]
            elif ext in ("whole", "interval") and name not in ("freqs",):
                want = [[whole], []] if not sym or transform == "ifft" else [[whole]]
            else:
                want = [[]]
            for i in v:
                got = chain(i)
                if got is None:
                    undecided(ctx, "%s gives %s" % (what, show(V(i))))
                elif [x for x, _ in got] not in want:
                    ctx.report("rebuild", what, r.where(), "%s: the field is %s, expected %s" % (what, said([x for x, _ in got]), said(want[0])))
                elif any(k != C(1) for _, k in got):
                    ctx.report("rebuild", what, r.where(), "%s: the field is rebuilt along another axis" % what)
                else:
                    ctx.count("rebuilt fields decided")


def judge_reach(ctx, prog):
    """indices beyond the stored samples are looked up in the rebuilt field, once"""
    g, r = method(prog, "DataND", "_get_field"), method(prog, "DataND", "_rebuild_symmetries")
    for pattern, sym in ((False, {"period": 4}), (False, {"antiperiod": 4}), (True, {})):
        for ind in ([0], [2], [1, 0], [3], [0, 3], [5, 1], [0, 1, 2, 3, 4]):
            o = FieldOracle(prog, ("rebuild_symmetries", "numpy.take"))
            it, st = Interp(prog, o), State()
            ax = an_axis(it, st, prog, "DataPattern" if pattern else "Data1D", "time", sym=sym)
            me = a_field(it, st, prog, "DataND", [an_axis(it, st, prog, "Data1D", "phase"), ax, an_axis(it, st, prog, "Data1D", "z")])
            il = V(it.new(st, ("asked indices",), Obj("list", exact=tuple(V(C(k)) for k in ind))))
            rq = requested(it, st, prog, "time", "list", 1, _is_pattern=V(TRUE if pattern else FALSE), _rebuild_indices=V(IN("pattern indices")) if pattern else V(NONE), _indices=il)
            al = V(it.new(st, ("axes list",), Obj("list", exact=(V(rq),))))
            what = "indices %s of 3 stored samples%s%s" % (ind, " of a pattern" if pattern else "", " with " + next(iter(sym)) if sym else "")
            ctx.count("reaches")
            ctx.obligation()
            try:
                v, st = it.run(g, [V(me), al], {}, st)
                v, st = it.run(r, [V(me), v, al], {}, st)
            except Raised as e:
                ctx.report("rebuild-fails", what, g.where(), "%s fails (%s)" % (what, e.exc))
                continue
            once = "pattern" if pattern else repr(tuple(sym.items()))
            for i in v:
                got = chain(i)
                if got is None:
                    undecided(ctx, "%s gives %s" % (what, show(V(i))))
                elif [x for x, _ in got] not in ([[once]] if max(ind) > 2 else [[], [once]]) or any(k != C(1) for _, k in got):
                    ctx.report("reach", what, g.where(), "%s: the field is %s" % (what, said([x for x, _ in got])))


def said(l):
    return " then ".join("rebuilt from the pattern" if x == "pattern" else "rebuilt with " + x for x in l) or "left as stored"


def chain(i):
    """sequence of rebuildings applied to the stored field"""
    out = []
    while True:
        if is_t(i) and i[1] == "rebuilt":
            if not is_c(i[4]):
                return None
            out.append((i[4][2], i[3]))
            i = i[2]
        elif is_t(i) and i[1] == "stage" and i[2] == "take":
            if len(i) < 6 or i[4] != IN("pattern indices"):
                return None
            out.append(("pattern", i[5]))
            i = i[3]
        elif is_t(i) and i[1] == "in" and i[2] == "field":
            return out[::-1]
        else:
            return None


OPERATIONS = {"max": "nanmax", "min": "nanmin", "sum": "my_sum", "rss": "root_sum_square", "mean": "my_mean", "rms": "root_mean_square", "integrate": "integrate", "integrate_local": "integrate_local", "derivate": "derivate", "antiderivate": "antiderivate"}


class OperationOracle(StageOracle):
    def __init__(self, prog):
        StageOracle.__init__(self, prog, tuple(set(OPERATIONS.values())) + ("integrate_local_pattern", "get_periodicity"))

    def call(self, interp, st, fn, args, kw, node):
        if fn[0] == "x" and fn[1].startswith("numpy.") and fn[1].split(".")[-1] in ("nanmax", "nanmin", "max", "min", "amax", "amin", "sum", "nansum", "mean", "nanmean"):
            d = dict(zip(("values", "axis"), args))
            d.update({"values" if k == "a" else k: v for k, v in kw.items()})
            self.seen.append((fn[1].split(".")[-1], d, None))
            return V(term("stage", fn[1].split(".")[-1], single(d.get("values", UNKNOWN)) or U))
        return StageOracle.call(self, interp, st, fn, args, kw, node)

    def stub(self, interp, st, name, d):
        if name == "get_periodicity":
            return V(("tu", (V(IN("periods")), V(FALSE))))
        r = term("stage", name, single(d.get("values", UNKNOWN)) or U)
        if name == "integrate_local_pattern":
            return V(("tu", (V(r), V(IN("segment middles")))))
        return V(r)

    def method(self, interp, st, base, name, args, kw, node):
        if is_t(base) and name in ("max", "min", "sum", "mean"):
            self.seen.append((name, dict(values=V(base), axis=args[0] if args else kw.get("axis", UNKNOWN)), None))
            return V(term("stage", name, base))
        return StageOracle.method(self, interp, st, base, name, args, kw, node)


FLAGS = {"time": (True, False, False), "angle": (True, False, False), "z": (True, False, False), "freqs": (False, True, True), "frequency": (False, True, True), "wavenumber": (False, False, True), "speed": (False, False, False)}


def judge_magnitude(ctx, prog):
    """the magnitude is taken before the operations, and after them on levels"""
    f = method(prog, "DataND", "_apply_operations")
    for name, ext, unit, magnitude in product(("time", "freqs", "speed"), ("sum", "max", "mean", "whole"), ("T", "dB", "dBA"), (False, True)):
        o = OperationOracle(prog)
        it, st = Interp(prog, o), State()
        me = a_field(it, st, prog, "DataND", [an_axis(it, st, prog, "Data1D", name)])
        al = V(it.new(st, ("axes list",), Obj("list", exact=(V(requested(it, st, prog, name, ext, 0)),))))
        what = "%s of %s%s in %s" % (ext, name, " of the magnitude" if magnitude else "", unit)
        ctx.count("magnitudes")
        ctx.obligation()
        given = {"values": V(IN("values")), "axes_list": al, "is_magnitude": V(TRUE if magnitude else FALSE), "unit": V(C(unit)), "corr_unit": V(IN("corr unit"))}
        try:
            v, st = it.run(f, [V(me)] + [given[p] for p in f.params[1:]], {}, st)
        except Raised as e:
            ctx.report("operation-fails", what, f.where(), "%s fails (%s)" % (what, e.exc))
            continue
        ops = [OPERATIONS[ext]] if ext in OPERATIONS else []
        want = (["abs"] + ops if unit == "T" else ops + ["abs"]) if magnitude else ops
        i = single(v)
        got = nested(i) if i is not None else None
        if got is None:
            undecided(ctx, "%s gives %s" % (what, show(v)))
        elif got != want and got != ["abs"] + want:
            ctx.report("magnitude", what, f.where(), "%s is computed by %s instead of %s" % (what, " then ".join(got) or "nothing", " then ".join(want) or "nothing"))


def nested(i):
    """operations applied to the values, first one first"""
    out = []
    while i != IN("values"):
        if is_t(i) and i[1] == "stage" and len(i) > 3:
            out.append(i[2])
            i = i[3]
        elif is_t(i) and i[1] == "call" and i[2] in ("numpy.abs", "numpy.absolute") and len(i) > 4 and len(i[4]) == 1:
            out.append("abs")
            i = i[4][0]
        elif is_t(i) and i[1] == "abs":
            out.append("abs")
            i = i[2]
        else:
            return None
    return out[::-1]


def judge_operations(ctx, prog):
    f = method(prog, "DataND", "_apply_operations")
    for name, ext, pattern, position in product(FLAGS, REDUCE + KEEP + EXTENT[:3] + ("whole", "interval", "list", "single", "axis_data"), (False, True), (0, 1)):
        if pattern and name not in ("z", "time") or ext == "integrate_local" and name == "z" and not pattern and position:
            continue
        o = OperationOracle(prog)
        it, st = Interp(prog, o), State()
        other = "phase"
        names = [name, other] if position == 0 else [other, name]
        me = a_field(it, st, prog, "DataND", [an_axis(it, st, prog, "Data1D", n) for n in names])
        rqs = [requested(it, st, prog, n, ext if n == name else "whole", k, _is_pattern=V(TRUE if pattern and n == name else FALSE)) for k, n in enumerate(names)]
        al = V(it.new(st, ("axes list",), Obj("list", exact=tuple(V(x) for x in rqs))))
        what = "%s of %s%s" % (ext, name, " stored as a pattern" if pattern else "")
        ctx.count("operations")
        ctx.obligation()
        params = list(f.params)
        given = {"values": V(IN("values")), "axes_list": al, "is_magnitude": V(FALSE), "unit": V(C("T")), "corr_unit": V(IN("corr unit"))}
        if not set(params[1:]) <= set(given):
            raise AnalysisError("%s has other parameters" % f.qual)
        try:
            v, st = it.run(f, [V(me)] + [given[p] for p in params[1:]], {}, st)
        except Raised as e:
            ctx.report("operation-fails", what, f.where(), "%s fails (%s)" % (what, e.exc))
            continue
        seen = [(n, d) for n, d, _ in o.seen if n != "get_periodicity"]
        got = [n for n, d in seen]
        want = [OPERATIONS[ext]] if ext in OPERATIONS else []
        if ext == "integrate_local" and name == "z":
            want = ["integrate_local_pattern"]
        alike = {"max": {"nanmax"}, "min": {"nanmin"}}
        if len(v) != 1 and got == want:
            undecided(ctx, "%s gives %s" % (what, show(v)))
            continue
        if got != want:
            ctx.report("operation", what, f.where(), "%s is computed by %s instead of %s" % (what, " and ".join(got) or "nothing", " and ".join(want) or "nothing"))
            continue
        i = single(v)
        if want and i != term("stage", want[0], IN("values")) or not want and i != IN("values"):
            ctx.report("operation", what, f.where(), "%s returns %s" % (what, show(v)))
            continue
        ctx.count("operations decided")
        if not want:
            continue
        d = seen[0][1]
        k = single(d.get("index", d.get("axis", UNKNOWN)))
        if k is not None and is_c(k) and k[2] != position:
            ctx.report("operation-axis", what, f.where(), "%s acts on axis %s instead of %s" % (what, k[2], position))
        phys, fr, fft = FLAGS[name]
        for p, w in (("is_phys", phys), ("is_freqs", fr), ("is_fft", fft)):
            x = single(d[p]) if p in d else None
            if x is not None and is_c(x) and x[2] != w:
                ctx.report("operation-kind", what + ":" + p, f.where(), "%s is told that the axis %s %s" % (what, "is" if x[2] else "is not", {"is_phys": "physical", "is_freqs": "a frequency axis", "is_fft": "a Fourier axis"}[p]))
        for p, w in (("ax_val", ("t", "values of", name)), ("Nper", NONE if pattern else IN("periods")), ("is_aper", NONE if pattern else FALSE), ("unit", C("T")), ("corr_unit", IN("corr unit"))):
            x = single(d[p]) if p in d else None
            if x is not None and x != U and x != w and (is_c(x) or is_t(x) and x[1] in ("in", "values of")):
                ctx.report("operation-argument", what + ":" + p, f.where(), "%s is given %s as %s" % (what, show(V(x)), p))


STAGES = ("_get_field", "comp_ifftn", "_extract_slices", "comp_fftn", "_extract_slices_fft", "_rebuild_symmetries", "_interpolate", "_apply_operations", "_convert")


class PipeOracle(StageOracle):
    def __init__(self, prog, axes, transforms):
        StageOracle.__init__(self, prog, STAGES + ("read_input_strings", "_comp_axes", "fix_axes_order"))
        self.axes, self.transforms = axes, transforms
        self.at = {}

    def stub(self, interp, st, name, d):
        if name == "fix_axes_order":
            return V(IN("ordered"))
        if name == "read_input_strings":
            return V(interp.new(st, ("parsed",), Obj("list", exact=tuple(V(a) for a in self.axes))))
        if name == "_comp_axes":
            return V(("tu", (d.get("axes_list", UNKNOWN), V(interp.new(st, ("transforms",), Obj("list", exact=tuple(V(C(t)) for t in self.transforms)))))))
        if name == "_get_field":
            return V(term("stage", name))
        if name in ("comp_ifftn", "comp_fftn"):
            self.at[name] = [tuple(st.heap[a[1]].fields[k] for k in ("_name", "_transform")) for a in self.axes]
        r = V(term("stage", name, single(d.get("values", UNKNOWN)) or U))
        if name == "_extract_slices":
            return V(("tu", (r, V(IN("other axes")))))
        return r


def stages(i):
    out = []
    while i is not None and is_t(i) and i[1] == "stage":
        out.append(i[2])
        i = i[3] if len(i) > 3 else None
    return out[::-1] if i is None else None


def judge_pipeline(ctx, prog):
    f = method(prog, "DataND", "get_along")
    words = REDUCE + KEEP + EXTENT[:3] + ("whole", "interval", "list", "single", "axis_data")
    for ext, transforms in product(words, ((), ("fft",), ("ifft",), ("ifft", "fft"))):
        o = PipeOracle(prog, (), transforms)
        it, st = Interp(prog, o), State()
        me = a_field(it, st, prog, "DataND", [an_axis(it, st, prog, "Data1D", n) for n in ("time", "z")])
        o.axes = [requested(it, st, prog, "time", ext, 0), requested(it, st, prog, "z", "whole", 1)]
        what = "%s of time%s" % (ext, " with " + " and ".join(transforms) if transforms else "")
        ctx.count("pipelines")
        ctx.obligation(2)
        try:
            v, st = it.run(f, [V(me), V(C("time")), V(C("z"))], {}, st)
        except Raised as e:
            ctx.report("pipeline-fails", what, f.where(), "%s fails (%s)" % (what, e.exc))
            continue
        i = single(v)
        d = st.heap.get(i[1]) if i is not None and i[0] == "o" else None
        if d is None or d.kind != "dict":
            undecided(ctx, "%s gives %s" % (what, show(v)))
            continue
        b = d.fields.get(C("B"), V(ABSENT))
        for k in ("B", "axes_list", "axes_dict_other"):
            if ABSENT in d.fields.get(C(k), V(ABSENT)) and not d.pairs:
                ctx.report("reported", what + ":" + k, f.where(), "%s: %s is missing from the result" % (what, "the field" if k == "B" else k))
        b = b - {ABSENT} or UNKNOWN
        want = [s for s in STAGES if s not in ("comp_ifftn", "comp_fftn") or s == "comp_ifftn" and "ifft" in transforms or s == "comp_fftn" and "fft" in transforms]
        for x in b:
            got = stages(x)
            if got is None:
                undecided(ctx, "%s returns %s" % (what, show(V(x))))
            elif got != want:
                ctx.report("stages", "%s: %s" % (what, ",".join(got)), f.where(), "%s goes through %s instead of %s" % (what, ", ".join(got), ", ".join(want)))
            else:
                ctx.count("pipelines decided")
        for n, w in (("time", C(ext) if ext in REDUCE else ("t", "values of", "time")), ("z", ("t", "values of", "z"))):
            g = d.fields.get(C(n), V(ABSENT))
            if g != V(w):
                if len(g) == 1 and (is_c(single(g)) or is_t(single(g)) and single(g)[1] == "values of") or ABSENT in g:
                    ctx.report("reported", what + ":" + n, f.where(), "%s: the axis %s is reported as %s instead of %s" % (what, n, "nothing" if ABSENT in g else show(g), show(V(w))))
                else:
                    undecided(ctx, "%s reports %s" % (what, show(g)))


def judge_mixed(ctx, prog):
    """each axis is transformed in the direction asked for, and keeps its name"""
    f = method(prog, "DataND", "get_along")
    # requested axes (name, transform) -> as seen by the inverse and by the direct transform
    pairs = {"freqs": "time", "wavenumber": "angle"}
    cases = [[("time", "ifft")], [("angle", "ifft")], [("freqs", "fft")], [("wavenumber", "fft")], [("time", "ifft"), ("angle", "ifft")], [("freqs", "fft"), ("wavenumber", "fft")], [("time", "ifft"), ("wavenumber", "fft_axis")],
             [("freqs", "fft_axis"), ("angle", "ifft")], [("angle", "ifft"), ("phase", None), ("freqs", "fft_axis")], [("phase", None), ("wavenumber", "fft_axis"), ("time", "ifft")]]
    for case in cases:
        ts = sorted({"fft" if t == "fft_axis" else t for _, t in case if t})
        o = PipeOracle(prog, (), ts)
        it, st = Interp(prog, o), State()
        me = a_field(it, st, prog, "DataND", [an_axis(it, st, prog, "Data1D", n) for n, _ in case])
        o.axes = [requested(it, st, prog, n, "whole", k, _transform=V(C(t) if t else NONE)) for k, (n, t) in enumerate(case)]
        what = " and ".join("%s (%s)" % (n, t) for n, t in case)
        ctx.count("transforms")
        ctx.obligation()
        try:
            v, st = it.run(f, [V(me)] + [V(C(n)) for n, _ in case], {}, st)
        except Raised as e:
            ctx.report("pipeline-fails", what, f.where(), "%s fails (%s)" % (what, e.exc))
            continue
        want = {}
        if "ifft" in ts:
            want["comp_ifftn"] = [(pairs.get(n, n), "ifft" if n in pairs else t) for n, t in case]
        if "fft" in ts:
            want["comp_fftn"] = [(n, "fft" if t == "fft_axis" else t) for n, t in case]
        for k in ("comp_ifftn", "comp_fftn"):
            if (k in want) != (k in o.at):
                ctx.report("transform", what + ":" + k, f.where(), "%s: the %s transform is %s" % (what, "inverse" if k == "comp_ifftn" else "direct", "not applied" if k in want else "applied"))
                continue
            for (n, t), (wn, wt) in zip(o.at.get(k, ()), want.get(k, ())):
                if n != V(C(wn)) and U not in n or t != V(C(wt) if wt else NONE) and U not in t:
                    ctx.report("transform", what + ":" + k, f.where(), "%s: the %s transform is given the axis %s with the transform %s instead of %s with %s" % (what, "inverse" if k == "comp_ifftn" else "direct", show(n), show(t), wn, wt))
        d = single(v)
        if d is not None and d[0] == "o" and st.heap[d[1]].kind == "dict":
            for n, _ in case:
                if st.heap[d[1]].fields.get(C(n)) is None and not st.heap[d[1]].pairs:
                    ctx.report("transform", what + ":" + n, f.where(), "%s: the axis %s is missing from the result" % (what, n))


class InterpolateOracle(StageOracle):
    def __init__(self, prog):
        StageOracle.__init__(self, prog, ("get_interpolation", "get_interpolation_step"))


def judge_interpolation(ctx, prog):
    f = method(prog, "DataND", "_interpolate")
    for step, asked, position in product((False, True), (False, True), (0, 1)):
        o = InterpolateOracle(prog)
        it, st = Interp(prog, o), State()
        names = ("time", "z") if position == 0 else ("z", "time")
        me = a_field(it, st, prog, "DataND", [an_axis(it, st, prog, "Data1D", n) for n in names])
        rqs = [requested(it, st, prog, n, "interval" if n == "time" else "whole", k, _is_step=V(TRUE if step and n == "time" else FALSE), _input_data=V(IN("asked")) if asked and n == "time" else V(NONE)) for k, n in enumerate(names)]
        al = V(it.new(st, ("axes list",), Obj("list", exact=tuple(V(x) for x in rqs))))
        what = "values %s of a%s axis" % ("asked for" if asked else "as stored", " stepwise" if step else "")
        ctx.count("interpolations")
        ctx.obligation()
        try:
            v, st = it.run(f, [V(me), V(IN("values")), al], {}, st)
        except Raised as e:
            ctx.report("interpolation-fails", what, f.where(), "%s fails (%s)" % (what, e.exc))
            continue
        want = ["get_interpolation_step" if step else "get_interpolation"] if asked else []
        got = [n for n, _, _ in o.seen]
        if got != want:
            ctx.report("interpolation", what, f.where(), "%s are computed by %s instead of %s" % (what, " and ".join(got) or "nothing", " and ".join(want) or "nothing"))
            continue
        i = single(v)
        if i != (term("stage", want[0], IN("values")) if want else IN("values")):
            ctx.report("interpolation", what, f.where(), "%s: %s is returned" % (what, show(v)))
        if asked:
            d = o.seen[0][1]
            for p, w in (("axis_values", ("t", "values of", "time")), ("new_axis_values", IN("asked")), ("index", C(position))):
                x = single(d.get(p, UNKNOWN))
                if x is not None and x != U and x != w:
                    ctx.report("interpolation", what + ":" + p, f.where(), "%s: %s is given as %s" % (what, show(V(x)), p))
        t = st.heap[rqs[names.index("time")][1]].fields["_values"]
        if t != V(IN("asked") if asked else ("t", "values of", "time")):
            ctx.report("interpolation", what + ":axis", f.where(), "%s: the axis is left with %s" % (what, show(t)))


def run(ctx):
    prog = ctx.prog
    ctx.rule("Each request string is read with its name, unit, keyword, indices and values, alone and next to other axes.")
    ctx.rule("Each keyword gives the axis its own extent, the field the same extent, and one call of the matching operation with the data of that axis.")
    ctx.rule("Values pass through every stage once in order; reduced axes are reported by keyword and the others by values.")
    judge_parse(ctx, prog)
    judge_extent(ctx, prog)
    judge_selection(ctx, prog)
    judge_rebuilt(ctx, prog)
    judge_reach(ctx, prog)
    judge_interpolation(ctx, prog)
    judge_operations(ctx, prog)
    judge_magnitude(ctx, prog)
    judge_pipeline(ctx, prog)
    judge_mixed(ctx, prog)
    ctx.need("requests parsed", 250)
    ctx.need("extents", 80)
    ctx.need("rebuilt fields", 100)
    ctx.need("operations", 150)
    ctx.need("pipelines", 60)
    ctx.need("selections", 80)
    ctx.need("magnitudes", 50)
    ctx.need("transforms", 8)
    ctx.need("reaches", 15)
