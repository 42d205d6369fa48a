"""P20: a request that cannot be honoured raises an error."""
import ast

from sa.absint import C, FALSE, NONE, TRUE, U, UNKNOWN, Interp, Obj, Oracle, Raised, State, V, is_c, is_t, show, term
from sa.model import AnalysisError
from checks import p09
from checks.p17 import axis, function, method, single

TECHNIQUE = "path analysis by abstract interpretation: every path of a request that cannot be honoured ends in a raise; scan of the exception handlers for absorbed refusals"
NOTE = "assumes: array operations of numpy do not change which requests are refused; files that do not exist fail to open"

IN = lambda *n: ("t", "in") + n
DIM = {C("s"): "time", C("ms"): "time", C("T"): "induction", C("mT"): "induction", C("rad"): "angle", C("°"): "angle", C("Hz"): "frequency", C("m"): "length", C("A/m"): "field strength"}
PHYSICAL = ("integrate", "integrate_local", "derivate", "antiderivate")


class RefuseOracle(Oracle):
    def __init__(self, prog, files=None, results=None, negative=(), sizes=None):
        self.p = prog
        self.files = files
        self.results = results
        self.negative = negative
        self.sizes = sizes or {}

    def type_of(self, i, interp, st):
        if is_t(i) and i[1] in ("in", "values of", "rebuilt"):
            return "ndarray"
        return None

    def nonempty(self, i, interp, st):
        return is_t(i) and i[1] in ("in", "values of", "rebuilt")

    def attr(self, interp, st, b, name):
        if is_t(b) and name == "size" and b in self.sizes:
            return V(C(self.sizes[b]))
        return None

    def call(self, interp, st, fn, args, kw, node):
        if fn[0] == "x":
            n = fn[1]
            if n in ("os.path.isfile", "os.path.exists"):
                return V(FALSE)
            if n == "os.path.isdir":
                return V(FALSE)
            if n == "numpy.any" and self.negative is not None and args:
                for i in args[0]:
                    if is_t(i) and any(x in repr(i) for x in self.negative):
                        return V(TRUE)
                return V(FALSE)
        f = fn[1] if fn[0] in ("f", "b") else None
        if f is None:
            return None
        if f.name == "check_var":
            return V(NONE)
        if f.name == "check_dimensions":
            return V(IN("checked"))
        if f.name == "convert" and f.module.name.endswith("conversions"):
            u = [single(a) for a in args[1:3]] + [single(kw[k]) for k in ("unit1", "unit2") if k in kw]
            if any(i in (C("furlong"), C("known"), C("unknown")) for i in u) or len(u) == 2 and DIM.get(u[0]) != DIM.get(u[1]):
                raise Raised("UnitError", st)
            return V(term("converted", *[i or U for i in u]))
        if f.name == "plot_2D_Data":
            return V(("tu", (V(IN("abscissae")), V(IN("ordinates")), V(C("B for z=0")), V(C("x")), V(C("y")), V(IN("legends")))))
        if f.name in ("to_dB", "to_dBA", "to_noct"):
            return V(IN("decibels"))
        if f.name in ("load_json", "load_hdf5", "load_pkl") and self.files is not None:
            return V(("tu", (V(C("file.json")), self.files(interp, st))))
        if self.results is not None and f.name == "get_along" and fn[0] == "b":
            return V(self.results(interp, st))
        return None

    def method(self, interp, st, base, name, args, kw, node):
        if is_t(base) and name == "copy":
            return V(base)
        if is_t(base) and name == "any" and not args and self.negative is not None:
            return V(TRUE if any(x in repr(base) for x in self.negative) else FALSE)
        return None


class Run:
    """one scenario: a request and the verdict on it"""

    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog

    def __call__(self, what, f, build, control=False, **oracle):
        ctx = self.ctx
        o = RefuseOracle(self.prog, **oracle)
        it, st = Interp(self.prog, o), State()
        args, kw = build(it, st)
        ctx.obligation(0 if control else 1)
        ctx.count("controls" if control else "requests to refuse")
        try:
            r, st = it.run(f, args, kw, st)
        except Raised as e:
            if control:
                ctx.count("controls not answered")
                ctx.sample("undecided: control %s fails with %s" % (what, e.exc))
            else:
                ctx.count("refusals decided")
                ctx.samples.append("%s: refused with %s" % (what, e.exc))
            return
        if control:
            ctx.count("controls answered")
            return
        maybe = [x for q, x in it.raised if str(x) not in ("KeyError", "IndexError", "TypeError", "AttributeError")]
        if maybe:
            ctx.count("undecided")
            ctx.samples.insert(0, "undecided: %s answered with %s or refused by %s" % (what, show(r)[:80], maybe[:3]))
            return
        ctx.report("answered", what, f.where(), "%s is answered instead of refused" % what)


def norm(it, st, prog, tag, unit="SI", cls="Norm_ref", **fields):
    c = prog.classes.get(cls)
    if c is None:
        raise AnalysisError("class %s not found" % cls)
    e = {"_unit": V(C(unit)), "_ref": V(IN("ref")), "_function": V(NONE), "_indices": V(NONE), "_vector": V(IN("vector")), "_slope": V(IN("slope")), "_offset": V(IN("offset")), "parent": V(NONE)}
    e.update(fields)
    return it.instance(st, c, "norm " + tag, e)


def norms(it, st, prog, tag, **d):
    o = Obj("dict")
    for k, i in d.items():
        o.fields[C(k)] = V(i)
    return V(it.new(st, ("p20 norms", tag), o))


def symmetries(it, st, tag, **d):
    o = Obj("dict")
    for k, i in d.items():
        o.fields[C(k)] = V(C(i))
    return V(it.new(st, ("p20 symmetries", tag), o))


AXES = {"Data1D": {}, "DataLinspace": {"_initial": V(IN("initial")), "_final": V(IN("final")), "_step": V(IN("step")), "_number": V(C(8)), "_include_endpoint": V(FALSE)},
        "DataPattern": {"_values_whole": V(NONE), "_rebuild_indices": V(IN("indices")), "_unique_indices": V(IN("unique")), "_is_step": V(FALSE)}}


def an_axis(it, st, prog, cls="Data1D", name="time", tag=None, norms_=None, sym=None, **fields):
    tag = tag or name
    e = {"_unit": V(C({"time": "s", "angle": "rad", "freqs": "Hz"}.get(name, "m"))), "_values": V(("t", "values of", tag)), "_normalizations": norms(it, st, prog, tag, **(norms_ or {})),
         "_symmetries": symmetries(it, st, tag, **(sym or {}))}
    e.update(AXES[cls])
    e.update(fields)
    return axis(it, st, prog, name, tag, cls, **e)


def a_field(it, st, prog, cls="DataND", axes=(), norms_=None, tag="self", **fields):
    c = prog.classes.get(cls)
    if c is None:
        raise AnalysisError("class %s not found" % cls)
    lst = it.new(st, ("p20 axes", tag), Obj("list", exact=tuple(V(a) for a in axes)))
    e = {"_axes": V(lst), "_name": V(C("B")), "_symbol": V(C("B")), "_unit": V(C("T")), "_is_real": V(TRUE), "_values": V(("t", "in", "field", tag)),
         "_normalizations": norms(it, st, prog, "field " + tag, **(norms_ or {})), "_FTparameters": V(it.new(st, ("p20 ft", tag), Obj("dict"))), "parent": V(NONE)}
    e.update(fields)
    return it.instance(st, c, tag, e)


def requested(it, st, prog, name, extension="whole", index=0, **fields):
    c = prog.classes.get("RequestedAxis")
    if c is None:
        raise AnalysisError("no class of requested axes")
    e = {"_name": V(C(name)), "_corr_name": V(C(name)), "_extension": V(C(extension)), "_index": V(C(index)), "_unit": V(C("SI")), "_corr_unit": V(C("SI")), "_values": V(("t", "values of", name)),
         "_corr_values": V(NONE), "_operation": V(NONE), "_transform": V(NONE), "_input_data": V(NONE), "_indices": V(NONE), "_is_pattern": V(FALSE), "_is_step": V(FALSE), "_noct": V(NONE),
         "_normalization": V(NONE), "_rebuild_indices": V(NONE), "_is_components": V(FALSE), "_indices_input": V(NONE), "_interpolate": V(NONE), "parent": V(NONE)}
    e.update(fields)
    return it.instance(st, c, "requested " + name, e)


def judge_axis_values(ctx, prog, run):
    for cls in AXES:
        f = method(prog, cls, "get_values")

        def build(kw, **a):
            def b(it, st):
                d = dict(a)
                if "known" in d:
                    u = d.pop("known")
                    d["norms_"] = {"known": norm(it, st, prog, "known", u)}
                return [V(an_axis(it, st, prog, cls, **d))], {k: V(C(v)) for k, v in kw.items()}
            return b
        of = " of a %s axis" % cls
        run("values with a known normalization" + of, f, build({"normalization": "known"}, known="SI"), control=True)
        run("values with a unit of the same dimension" + of, f, build({"unit": "ms"}), control=True)
        for tag, known in (("without normalizations", None), ("with other normalizations", "SI")):
            run("the values %s by an unknown normalization%s" % (tag, of), f, build({"normalization": "unknown"}, **({"known": known} if known else {})))
            run("the values %s in an unknown unit%s" % (tag, of), f, build({"unit": "furlong"}, **({"known": known} if known else {})))
            run("the values %s in an incompatible unit%s" % (tag, of), f, build({"unit": "T"}, **({"known": known} if known else {})))
        for extent in ({}, {"is_smallestperiod": True}, {"is_oneperiod": True}):
            e = " over " + ", ".join(extent) if extent else ""
            run("the values by a normalization defined in another unit" + e + of, f, build(dict(normalization="known", **extent), known="rad"))
            run("the values in another unit by a normalization defined in another unit" + e + of, f, build(dict(normalization="known", unit="ms", **extent), known="rad"))
            run("the values in another unit by an unknown normalization" + e + of, f, build(dict(normalization="unknown", unit="ms", **extent), known="SI"))
            run("the values in a unit named after a normalization defined in another unit" + e + of, f, build(dict(unit="known", **extent), known="rad"))
            run("the values by an unknown normalization" + e + of, f, build(dict(normalization="unknown", **extent), known="SI"))
            run("the values in an incompatible unit" + e + of, f, build(dict(unit="T", **extent)))
        for op in ("time_to_freqs",):
            run("the values by an unknown normalization after a transform" + of, f, build(dict(normalization="unknown", operation=op), known="SI"))
        for n in (f,) + ((method(prog, cls, "get_length"),) if cls != "DataPattern" else ()):
            w = "values" if n.name == "get_values" else "length"
            run("the antiperiod %s of an axis without symmetry%s" % (w, of), n, build({"is_antiperiod": True}))
            if cls != "DataPattern":
                run("the antiperiod %s of a periodic axis%s" % (w, of), n, build({"is_antiperiod": True}, sym={"period": 4}))
                run("the antiperiod %s of an antiperiodic axis%s" % (w, of), n, build({"is_antiperiod": True}, sym={"antiperiod": 4}), control=True)
    f = method(prog, "Norm_vector", "normalize")

    def vec(n, m):
        def b(it, st):
            v = it.new(st, ("vector",), Obj("list", exact=tuple(V(IN("v", str(k))) for k in range(n))))
            x = it.new(st, ("axis values",), Obj("list", exact=tuple(V(IN("x", str(k))) for k in range(m))))
            return [V(norm(it, st, prog, "vector", cls="Norm_vector", _vector=V(v))), V(x)], {}
        return b
    for n, m in ((3, 2), (2, 3), (1, 4), (0, 2)):
        run("normalizing %d samples by a vector of %d" % (m, n), f, vec(n, m))
    run("normalizing 3 samples by a vector of 3", f, vec(3, 3), control=True)
    f = function(prog, "SciDataTool.Functions.symmetries", "rebuild_symmetries_axis")

    def reb(n, **sym):
        def b(it, st):
            return [V(it.new(st, ("axis values",), Obj("list", exact=tuple(V(IN("x", str(k))) for k in range(n))))), symmetries(it, st, "given", **sym)], {}
        return b
    for k in ("period", "antiperiod"):
        for n in (2, 3):
            run("rebuilding %ss of one sample without spacing (%d)" % (k, n), f, reb(1, **{k: n}))


def judge_requested(ctx, prog, run):
    f = method(prog, "RequestedAxis", "get_axis")

    def build(ext, cls, **a):
        r = {k: a.pop(k) for k in list(a) if k.startswith("_")}

        def b(it, st):
            ax = an_axis(it, st, prog, cls, **a)
            return [V(requested(it, st, prog, a.get("name", "time"), ext, **r)), V(ax), V(TRUE)], {}
        return b
    for cls in ("Data1D", "DataLinspace"):
        for n in ("time", "angle", "z"):
            run("the pattern of %s stored as %s" % (n, cls), f, build("pattern", cls, name=n))
            run("the antiperiod of %s stored as %s without symmetry" % (n, cls), f, build("antiperiod", cls, name=n))
            run("the antiperiod of %s stored as %s with a period" % (n, cls), f, build("antiperiod", cls, name=n, sym={"period": 3}))
        for ext in ("whole", "smallestperiod", "oneperiod", "max", "interval", "list", "derivate"):
            run("%s of time in an incompatible unit, stored as %s" % (ext, cls), f, build(ext, cls, _unit=V(C("T"))))
            run("%s of time in an unknown unit, stored as %s" % (ext, cls), f, build(ext, cls, _unit=V(C("furlong"))))
        run("the period of time stored as %s" % cls, f, build("oneperiod", cls), control=True)
        run("the antiperiod of antiperiodic time stored as %s" % cls, f, build("antiperiod", cls, sym={"antiperiod": 2}), control=True)
    for n in ("time", "angle", "z"):
        for ext in ("antiperiod", "oneperiod"):
            run("the %s of %s stored as a pattern" % (ext, n), f, build(ext, "DataPattern", name=n))
    run("the pattern of z stored as a pattern", f, build("pattern", "DataPattern", name="z"), control=True)
    f = function(prog, "SciDataTool.Functions.parser", "read_input_strings")

    def parse(request, given):
        def b(it, st):
            if given == "list":
                d = it.new(st, ("axis data",), Obj("list", exact=()))
            else:
                o = Obj("dict")
                for k in given:
                    o.fields[C(k)] = V(IN("data", k))
                d = it.new(st, ("axis data",), o)
            return [V(it.new(st, ("request",), Obj("list", exact=tuple(V(C(x)) for x in request)))), V(d)], {}
        return b
    for request, given in ((("time=axis_data",), "list"), (("time=axis_data",), ()), (("time=axis_data",), ("angle",)), (("angle", "time=axis_data"), ("angle",)), (("time=axis_data", "angle=axis_data"), ("time",)),
                           (("angle=axis_data",), ("time", "z"))):
        run("%s with data given for %s" % (" and ".join(request), "nothing" if given in ("list", ()) else " and ".join(given)), f, parse(request, given))
    run("time=axis_data with data given for time", f, parse(("time=axis_data",), ("time",)), control=True)


def results(prog, *axes):
    def r(it, st):
        o = Obj("dict")
        ax = [requested(it, st, prog, n, index=k) for k, n in enumerate(axes)]
        o.fields[C("B")] = V(IN("result"))
        for n in axes:
            o.fields[C(n)] = V(it.new(st, ("values", n), Obj("list", exact=tuple(V(IN(n, str(k))) for k in range(3)))))
        o.fields[C("axes_list")] = V(it.new(st, ("result axes",), Obj("list", exact=tuple(V(a) for a in ax))))
        o.fields[C("axes_dict_other")] = V(it.new(st, ("other axes",), Obj("dict")))
        return it.new(st, ("results",), o)
    return r


def judge_fields(ctx, prog, run):
    for cls in ("DataND", "DataDual"):
        over = {"_axes_dt": V(NONE), "_axes_df": V(NONE), "_values_dt": V(NONE), "_values_df": V(NONE)} if cls == "DataDual" else {}

        def build(name, kw, axes=("angle", "z"), known=None, request=None, axis_norms=None):
            def b(it, st):
                n = {k: norm(it, st, prog, "field " + k, u) for k, u in (known or {}).items()}
                me = a_field(it, st, prog, cls, [an_axis(it, st, prog, "Data1D", a, norms_={k: norm(it, st, prog, a + k) for k in (axis_norms or {}).get(a, ())}) for a in axes], n, **over)
                if name == "_convert":
                    d = dict(unit=C("SI"), is_norm=FALSE, is_squeeze=FALSE)
                    d.update({k: C(v) for k, v in kw.items()})
                    ax = V(it.new(st, ("axes list",), Obj("list", exact=tuple(V(requested(it, st, prog, a, index=k)) for k, a in enumerate(axes)))))
                    return [V(me), V(IN("values")), V(d["unit"]), V(d["is_norm"]), V(d["is_squeeze"]), ax], {}
                if name == "_get_freqs":
                    return [V(me)], {}
                return [V(me)] + [V(C(a)) for a in (request or axes)], {k: V(C(v)) for k, v in kw.items()}
            return b
        of = " (%s)" % cls
        for name in ("_convert", "get_magnitude_along", "get_phase_along"):
            f = method(prog, cls, name)
            res = results(prog, "angle", "z")
            n = {"_convert": "extraction", "get_magnitude_along": "magnitude", "get_phase_along": "phase"}[name]
            for u in ("SI",):
                run("%s normalized without reference%s" % (n, of), f, build(name, {"is_norm": True, "unit": u}), results=res)
                run("%s normalized and in its own unit with another normalization only%s" % (n, of), f, build(name, {"is_norm": True, "unit": "T"}, known={"other": "SI"}), results=res)
                run("%s normalized with another normalization only%s" % (n, of), f, build(name, {"is_norm": True, "unit": u}, known={"other": "SI"}), results=res)
                run("%s normalized by its reference%s" % (n, of), f, build(name, {"is_norm": True, "unit": u}, known={"ref": "SI"}), control=True, results=res)
            if name != "get_phase_along":
                run("%s in its own unit normalized without reference%s" % (n, of), f, build(name, {"is_norm": True, "unit": "T"}), results=res)
            for u in ("furlong", "m", "A/m"):
                w = "an unknown unit" if u == "furlong" else "the incompatible unit " + u
                for known in ({}, {"ref": "SI"}):
                    run("%s in %s%s%s" % (n, w, " of normalized data" if known else "", of), f, build(name, {"unit": u}, known=known), results=res)
            if name != "get_phase_along":
                run("%s in a multiple of its unit%s" % (n, of), f, build(name, {"unit": "mT"}), control=True, results=res)
                for axes in (("angle", "z"), ("wavenumber", "z"), ("order", "z"), ("angle", "phase")):
                    for known in ({}, {"ref": "SI"}):
                        for kw in ({}, {"is_sum": False}) if name == "get_magnitude_along" else ({},):
                            run("%s in dBA along %s%s%s%s" % (n, " and ".join(axes), " of normalized data" if known else "", " without sum" if kw else "", of), f, build(name, dict(unit="dBA", **kw), axes, known), results=results(prog, *axes))
        f = method(prog, cls, "_get_freqs")
        for axes in (("angle", "z"), ("order", "z"), ("speed", "z"), ("angle",), ("phase", "order")):
            run("the frequencies of data along %s%s" % (" and ".join(axes), of), f, build("_get_freqs", {}, axes))
        run("the frequencies of data along freqs%s" % of, f, build("_get_freqs", {}, ("z", "freqs")), control=True)


def judge_export(ctx, prog, run):
    f = method(prog, "DataND", "export_along")

    def build(axes, **kw):
        def b(it, st):
            me = a_field(it, st, prog, "DataND", [an_axis(it, st, prog, "Data1D", a) for a in axes])
            return [V(me)] + [V(C(a)) for a in axes], {k: V(C(v)) for k, v in dict(dict(save_path="folder", file_name="name", is_2D=False), **kw).items()}
        return b
    for axes in (("time",), ("time", "angle"), ("time", "angle", "z")):
        for fmt in ("xlsx", "txt", "mat"):
            run("exporting data along %s as %s" % (" and ".join(axes), fmt), f, build(axes, file_format=fmt), results=results(prog, *axes))
            run("exporting data along %s drawn in 2D as %s" % (" and ".join(axes), fmt), f, build(axes, file_format=fmt, is_2D=True), results=results(prog, *axes))
    for axes in (("time", "angle", "z", "phase"), ("time", "angle", "z", "phase", "speed")):
        run("exporting data along %s in a csv file" % " and ".join(axes), f, build(axes, file_format="csv"), results=results(prog, *axes))
        run("exporting data along %s in several csv files" % " and ".join(axes), f, build(axes, file_format="csv", is_multiple_files=True), results=results(prog, *axes))
    axes = ("time", "angle", "z")
    run("exporting data along three axes in one csv file", f, build(axes, file_format="csv"), results=results(prog, *axes))


def judge_operations(ctx, prog, run):
    f = method(prog, "DataND", "_apply_operations")

    def build(name, ext, second=None, cls="Data1D", pattern=False):
        def b(it, st):
            names = [name] + ([second] if second else [])
            if second:
                names.reverse()
            me = a_field(it, st, prog, "DataND", [an_axis(it, st, prog, cls, n) for n in names])
            ax = tuple(V(requested(it, st, prog, n, ext if n == name else "whole", k, _is_pattern=V(TRUE if pattern else FALSE))) for k, n in enumerate(names))
            return [V(me), V(IN("values")), V(it.new(st, ("axes list",), Obj("list", exact=ax))), V(FALSE), V(C("SI")), V(NONE)], {}
        return b
    two = {("t", "values of", n): 3 for n in ("time", "angle", "z", "freqs", "wavenumber", "phase", "speed", "order", "frequency")}
    for ext in PHYSICAL:
        for name in ("phase", "speed", "order", "wavenumber", "radius", "freqs", "frequency"):
            if name in ("freqs", "frequency") and ext not in ("integrate", "integrate_local"):
                run("%s along %s" % (ext, name), f, build(name, ext), control=True, sizes=two)
                continue
            run("%s along %s" % (ext, name), f, build(name, ext), sizes=two)
            run("%s along %s after time" % (ext, name), f, build(name, ext, "time"), sizes=two)
        for name in ("time", "angle", "z"):
            run("%s along %s" % (ext, name), f, build(name, ext), control=True, sizes=two)
            one = dict(two)
            one[("t", "values of", name)] = 1
            run("%s along one sample of %s" % (ext, name), f, build(name, ext), sizes=one)


def judge_spectra(ctx, prog, run):
    for name in ("sum", "conv"):
        f = method(prog, "DataFreq", name)

        def build(mine=("freqs",), other=("freqs",), cls="DataFreq"):
            def b(it, st):
                me = a_field(it, st, prog, "DataFreq", [an_axis(it, st, prog, "Data1D", n, "my " + n) for n in mine])
                o = a_field(it, st, prog, cls, [an_axis(it, st, prog, "Data1D", n, "other " + n) for n in other], tag="other") if cls else C(3)
                return [V(me), V(o)], {}
            return b
        w = {"sum": "sum of spectra", "conv": "product of spectra"}[name]
        run(w + " with a field in the time domain", f, build(cls="DataTime"))
        run(w + " with a number", f, build(cls=None))
        run(w + " of which the first has two axes", f, build(mine=("freqs", "wavenumber")))
        run(w + " of which the second has two axes", f, build(other=("freqs", "wavenumber")))
        run(w + " of which the first has no frequencies", f, build(mine=("wavenumber",)))
        run(w + " of which the second has no frequencies", f, build(other=("wavenumber",)))
        run(w + " of which the first has negative frequencies", f, build(), negative=("my freqs",))
        run(w + " of which the second has negative frequencies", f, build(), negative=("other freqs",))
        run(w, f, build(), control=True)


def judge_vector_fields(ctx, prog, run):
    c = prog.classes.get("VectorField")
    if c is None:
        raise AnalysisError("no class of vector fields")

    def field(comps, axes=("time", "angle"), axcls="Data1D"):
        def b(it, st):
            o = Obj("dict")
            for k, cls in comps:
                d = a_field(it, st, prog, cls, [an_axis(it, st, prog, axcls, n, k + n) for n in axes], tag="comp " + k)
                o.fields[C(k)] = V(d)
            return it.instance(st, c, "self", {"_name": V(C("B")), "_symbol": V(C("B")), "_components": V(it.new(st, ("components",), o)), "parent": V(NONE)})
        return b

    def build(comps, args=(), **a):
        return lambda it, st: ([V(field(comps, **a)(it, st))] + [V(C(x)) for x in args], {})
    for name, right, wrong in (("time_to_freq", "DataTime", "DataFreq"), ("freq_to_time", "DataFreq", "DataTime")):
        f = method(prog, "VectorField", name)
        for comps in ((("radial", wrong),), (("radial", right), ("axial", wrong)), (("radial", wrong), ("axial", right)), (("radial", wrong), ("tangential", wrong))):
            run("%s of a vector field with %s" % (name, ", ".join("%s in the %s domain" % (k, "right" if x == right else "other") for k, x in comps)), f, build(comps))
    for name in ("get_rphiz_along", "get_xyz_along", "get_mag_rphiz_along", "get_mag_xyz_along", "get_harm_rphiz_along", "get_harm_xyz_along"):
        f = method(prog, "VectorField", name)
        args = (2, "time", "angle") if "harm" in name else ("time", "angle")
        run("%s of a vector field without components" % name, f, build((), args))


def judge_files(ctx, prog, run):
    L = "SciDataTool.Functions.load"

    def content(kind):
        def c(it, st):
            if kind == "list":
                return V(it.new(st, ("content",), Obj("list", exact=(V(C(1)), V(C(2))))))
            if kind in ("number", "text", "nothing"):
                return V(C({"number": 3.5, "text": "abc", "nothing": None}[kind]))
            o = Obj("dict")
            o.fields[C("values")] = V(C(1))
            if kind != "dict":
                o.fields[C("__class__")] = V(C(kind))
            return V(it.new(st, ("content",), o))
        return c
    arg = lambda p: (lambda it, st: ([V(C(p))], {}))
    f = function(prog, L, "load")
    for k in ("list", "number", "text", "nothing"):
        for p in ("a.json", "b.h5", "folder/a.json"):
            run("loading %s which holds a %s" % (p, k), f, arg(p), files=content(k))
    for p in ("a.json", "b.hdf5"):
        run("loading %s which holds no class" % p, f, arg(p), files=content("dict"))
        run("loading %s which holds an unknown class" % p, f, arg(p), files=content("Unknown"))
    for p in ("a.txt", "b.npz", "data", "folder/x.csv"):
        run("loading %s" % p, f, arg(p))
    run("loading a.json which does not exist", f, arg("a.json"))
    f = function(prog, L, "load_list")
    for k in ("dict", "number", "text", "nothing"):
        run("loading a list from a file which holds a %s" % k, f, arg("a.json"), files=content(k))
    run("loading a list from a file which does not exist", f, arg("a.json"))
    f = function(prog, L, "load_dict")
    for k in ("list", "number", "text", "nothing"):
        run("loading a dictionary from a file which holds a %s" % k, f, arg("a.json"), files=content(k))
    f = function(prog, "SciDataTool.Functions.Load.import_class", "import_class")
    for p in ("", "axes"):
        run("importing an unknown class%s" % (" for a property" if p else ""), f, lambda it, st: ([V(C("SciDataTool.Classes")), V(C("Unknown")), V(C(p))], {}))
    run("importing a class", f, lambda it, st: ([V(C("SciDataTool.Classes")), V(C("Data1D")), V(C(""))], {}), control=True)
    f = function(prog, "SciDataTool.Functions.Load.load_json", "load_json")
    for p in ("a.json", "a", "folder/a.json"):
        run("reading %s which does not exist" % p, f, arg(p))


def judge_filters(ctx, prog, run):
    f, g = method(prog, "Data1D", "get_filter"), method(prog, "Data1D", "check_filter")

    def d(it, st, tag, m):
        o = Obj("dict")
        for k, v in m.items():
            o.fields[C(k)] = V(it.new(st, ("filter", tag, k), Obj("list", exact=tuple(V(C(x)) for x in v))))
        return V(it.new(st, ("filter", tag), o))

    def build(values, own, asked=None):
        def b(it, st):
            v = it.new(st, ("labels",), Obj("list", exact=tuple(V(C(x)) for x in values)))
            me = an_axis(it, st, prog, "Data1D", "loadcase", _values=V(v), _filter=d(it, st, "own", own), _delimiter=V(C(", ")))
            return [V(me)] + ([d(it, st, "asked", asked)] if asked is not None else []), {}
        return b
    own = {"wind": ["radial", "tangential"], "order": ["r=0", "r=1"]}
    run("filtering by an unknown key", f, build(["radial, r=0"], own, {"wind": ["radial"], "phase": ["a"]}))
    run("filtering by some of the keys", f, build(["radial, r=0"], own, {"wind": ["radial"]}))
    run("filtering by more than the keys", f, build(["radial, r=0"], own, {"wind": ["radial"], "order": ["r=0"], "phase": ["a"]}))
    run("a filter with fewer keys than the labels have items", g, build(["radial, r=0, a"], own))
    run("a filter with more keys than the labels have items", g, build(["radial"], own))
    run("a filter that lacks an item", g, build(["radial, r=0", "axial, r=1"], own))
    run("a complete filter", g, build(["radial, r=0", "tangential, r=1"], own), control=True)


def absorbing(h):
    """a handler that some path leaves without raising"""
    def ends(body):
        for s in body:
            if isinstance(s, (ast.Raise,)):
                return True
            if isinstance(s, ast.If) and s.orelse and ends(s.body) and ends(s.orelse):
                return True
            if isinstance(s, ast.With) and ends(s.body):
                return True
            if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
                return False
        return False
    return not ends(h.body)


def caught(h):
    if h.type is None:
        return None
    t = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "?") for x in t}


def judge_handlers(ctx, prog):
    """a refusal of the library is not swallowed by a handler around the refusing call"""
    refusing = refusing_names(prog)
    for f in all_functions(prog):
        if "/GUI/" in f.where() or "/Classes/" in f.where() or "/Plot/" in f.where() or f.name.startswith("plot"):
            continue
        for t in ast.walk(f.node):
            if not isinstance(t, ast.Try) or not t.handlers:
                continue
            own = {x.exc.func.id for s in t.body for x in ast.walk(s) if isinstance(x, ast.Raise) and isinstance(x.exc, ast.Call) and isinstance(x.exc.func, ast.Name)}
            discarded = {id(s.value) for s in t.body if isinstance(s, ast.Expr)}
            calls = []
            for s in t.body:
                for c in ast.walk(s):
                    if isinstance(c, ast.Call) and id(c) not in discarded:
                        n = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
                        if n in refusing:
                            calls.append(n)
            for h in t.handlers:
                ctx.obligation()
                ctx.count("exception handlers")
                got = caught(h)
                where = "%s:%d" % (f.where().rsplit(":", 1)[0], h.lineno)
                if not calls or not absorbing(h):
                    continue
                if got is not None and got <= own:
                    continue
                if got is not None and not got & {"Exception", "BaseException", "AxisError", "NormError", "UnitError", "InitUnKnowClassError", "LoadMissingFileError", "LoadWrongTypeError", "LoadWrongDictClassError"}:
                    continue
                ctx.report("absorbed", "%s:%s" % (f.name, "+".join(sorted(set(calls)))), where, "a refusal of %s is absorbed and the request is answered" % ", ".join(sorted(set(calls))))


def all_functions(prog):
    seen = set()
    for m in prog.modules.values():
        for f in m.functions.values():
            if id(f.node) not in seen:
                seen.add(id(f.node))
                yield f
        for c in getattr(m, "classes", {}).values():
            for f in getattr(c, "methods", {}).values():
                if id(f.node) not in seen:
                    seen.add(id(f.node))
                    yield f


def refusing_names(prog):
    """names of the functions from which a raise can be reached"""
    direct, calls = set(), {}
    for f in all_functions(prog):
        s = calls.setdefault(f.name, set())
        for x in ast.walk(f.node):
            if isinstance(x, ast.Raise):
                direct.add(f.name)
            elif isinstance(x, ast.Call):
                n = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else None
                if n:
                    s.add(n)
    while True:
        new = {n for n, s in calls.items() if n not in direct and s & direct}
        new -= {"__init__", "append", "index", "copy", "get", "update"}
        if not new:
            return direct - {"__init__", "append", "index", "copy", "get", "update"}
        direct |= new


class Refusals:
    """the part of the unit analysis that concerns refusals"""

    def __init__(self, ctx):
        self.ctx = ctx

    def report(self, rule, *a, **k):
        if rule in ("parse-accepted", "convert-accepted"):
            self.ctx.report(rule, *a, **k)

    def count(self, name, *a):
        if name in ("conversion scenarios", "parsing scenarios"):
            self.ctx.count("unit " + name, *a)

    def __getattr__(self, name):
        if name in ("obligation", "prog", "counts"):
            return getattr(self.ctx, name)
        return lambda *a, **k: None


def judge_units(ctx, prog):
    sub = Refusals(ctx)
    sym, pre = p09.tables(sub, prog)
    f = sym[0].functions.get("convert")
    if f is None:
        raise AnalysisError("conversion function not found in %s" % sym[0].name)
    parse = p09.find_parse(prog, f, sym)
    p09.judge_convert(sub, prog, f, parse)
    p09.judge_parse(sub, prog, parse, sym, pre)


def run(ctx):
    prog = ctx.prog
    ctx.rule("Every path of a request that cannot be honoured (each kind of request, object and branch listed) must end in a raise.")
    ctx.rule("No exception handler may turn the refusal of a call whose result is used into an answer.")
    go = Run(ctx, prog)
    judge_axis_values(ctx, prog, go)
    judge_requested(ctx, prog, go)
    judge_fields(ctx, prog, go)
    judge_export(ctx, prog, go)
    judge_operations(ctx, prog, go)
    judge_spectra(ctx, prog, go)
    judge_vector_fields(ctx, prog, go)
    judge_files(ctx, prog, go)
    judge_filters(ctx, prog, go)
    judge_units(ctx, prog)
    judge_handlers(ctx, prog)
    ctx.need("requests to refuse", 350)
    ctx.need("controls answered", 40)
    ctx.need("unit parsing scenarios", 6)
