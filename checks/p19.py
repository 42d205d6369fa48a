"""P19: derived objects keep the identity of the data they come from."""
from sa.absint import ABSENT, C, FALSE, NONE, TRUE, U, UNKNOWN, Interp, Obj, Oracle, Raised, State, V, is_c, is_t, show, term
from sa.model import AnalysisError
from checks.p17 import axis, const, method, single

TECHNIQUE = "value-provenance analysis of every operation that builds a data object from another: each piece of metadata of the result is traced to the source object or to the caller's override"
NOTE = "assumes: extraction along axes returns the field under the source's symbol; numerical kernels only produce values; components of a vector field are derived by their own methods"

IN = lambda n: ("t", "in", n)
META = ("name", "symbol", "unit", "normalizations", "is_real")
KERNELS = "SciDataTool.Functions."


class DeriveOracle(Oracle):
    def __init__(self, prog, inside=()):
        self.p = prog
        self.n = 0
        self.inside = inside        # methods evaluated in place
        self.extensions = ()
        self.requested = ()
        self.types = {}

    def type_of(self, i, interp, st):
        if i in self.types:
            return self.types[i]
        if is_t(i) and i[1] == "norm":
            return "Normalization"
        if is_t(i) and i[1] == "copyof":
            return self.type_of(i[2], interp, st)
        if is_t(i) and i[1] == "derived":
            return "DataND"
        if is_t(i) and i[1] in ("values of", "field"):
            return "ndarray"
        return None

    def attr(self, interp, st, b, name):
        if is_t(b) and b[1] == "derived" and name in META:
            return V(term("meta", b, name))
        return None

    def call(self, interp, st, fn, args, kw, node):
        if fn[0] == "f":
            f = fn[1]
            if f.name == "check_var":
                return V(NONE)
            if f.name in ("get_unit_derivate", "get_unit_integrate"):
                return V(term("unit change", f.name, *[single(a) or U for a in args]))
            if f.name == "import_class":
                return None
            if f.module.name.startswith(KERNELS) and ".Load." not in f.module.name:
                return V(term("kernel", f.name))
        if fn[0] == "b":
            f, base = fn[1], fn[2]
            name = f.name
            if name in ("get_along", "get_magnitude_along", "get_rphiz_along", "get_xyz_along"):
                return self.extract(interp, st, base, args, {"get_rphiz_along": ("radial", "tangential", "axial"), "get_xyz_along": ("comp_x", "comp_y", "comp_z")}.get(name))
            if name == "get_axes":
                return self.axes_of(interp, st, base, args)
            if name in self.inside:
                return None
            o = st.heap.get(base[1]) if base[0] == "o" else None
            if name == "copy" and o is not None and o.kind == "inst":
                return V(self.copied(interp, st, o))
            if o is not None and o.kind == "inst" and base[1] and base[1][0].startswith("component "):
                d = term("derived", name, base[1][0][len("component "):])
                if name in ("change_referential",) or name == "filter_spectral_leakage" and kw.get("is_return_calc_data") == V(TRUE):
                    return V(("tu", (V(d),) + (V(("t", "calc")),) * (7 if name == "change_referential" else 5)))
                return V(d)
            if name == "to_linspace":
                return V(base)
            if name in ("get_values", "get_length", "get_periodicity", "time_to_freq", "freq_to_time"):
                if name == "get_periodicity":
                    return V(("tu", (V(("t", "calc")), V(("t", "flag")))))
                return V(term("result of", name))
        return None

    def copied(self, interp, st, o):
        """copies are judged elsewhere: the same fields, in other containers"""
        fields = {}
        for k, v in o.fields.items():
            fields[k] = V(NONE) if k == "parent" else frozenset(self.contents(interp, st, i) for i in v)
        self.n += 1
        return interp.new(st, ("copy", self.n), Obj("inst", o.cls, fields))

    def contents(self, interp, st, i):
        o = st.heap.get(i[1]) if i[0] == "o" else None
        if o is None or o.kind == "inst":
            return i if o is None else self.copied(interp, st, o)
        self.n += 1
        if o.kind == "dict":
            return interp.new(st, ("copied", self.n), Obj("dict", None, {k: frozenset(self.contents(interp, st, x) for x in v) for k, v in o.fields.items()}, pairs=o.pairs))
        if o.exact is not None:
            return interp.new(st, ("copied", self.n), Obj("list", exact=tuple(frozenset(self.contents(interp, st, x) for x in v) for v in o.exact)))
        return i

    def axes_of(self, interp, st, base, args):
        o = st.heap[base[1]]
        v = o.fields.get("_axes")
        if v is None and "_components" in o.fields:
            d = st.heap[single(o.fields["_components"])[1]]
            first = single(next(iter(d.fields.values())))
            v = st.heap[first[1]].fields["_axes"]
        ex = interp.exact_elems(v, st) if v is not None else None
        if ex is None:
            return UNKNOWN
        if args:
            ask = const(args[0])
            ex = [a for a in ex if const(st.heap[single(a)[1]].fields["_name"]) == ask]
        self.n += 1
        return V(interp.new(st, ("axes list", self.n), Obj("list", exact=tuple(ex))))

    def extract(self, interp, st, base, args, frame=None):
        d = {}
        for a in args:
            names = {i[2].split("[")[0].split("{")[0] if is_c(i) and isinstance(i[2], str) else None for i in a}
            for n in names if None not in names else ("time", "freqs", "angle", "wavenumber", "z"):
                d[C(n)] = V(("t", "values of", n))
        o = st.heap[base[1]]
        self.n += 1
        lst = []
        for n, u in self.requested:
            lst.append(V(interp.new(st, ("requested", self.n, n), Obj("inst", self.p.classes.get("RequestedAxis"), {"_extension": V(C("whole")), "_corr_unit": V(IN("axis unit")), "_name": V(C(n)), "_unit": V(C(u))}))))
        for e in self.extensions:
            lst.append(V(interp.new(st, ("requested", self.n, e), Obj("inst", self.p.classes.get("RequestedAxis"), {"_extension": V(C(e)), "_corr_unit": V(IN("axis unit")), "_name": V(C("time")), "_unit": V(C("SI"))}))))
        d[C("axes_list")] = V(interp.new(st, ("requested axes", self.n), Obj("list", exact=tuple(lst))))
        d[C("axes_dict_other")] = V(interp.new(st, ("other axes", self.n), Obj("dict")))
        if frame:
            for k in frame:
                d[C(k)] = V(("t", "field", k))
        else:
            d[single(o.fields["_symbol"])] = V(("t", "field"))
        return V(interp.new(st, ("results", self.n), Obj("dict", None, d)))

    def method(self, interp, st, base, name, args, kw, node):
        if is_t(base) and base[1] in ("norm", "copyof") and name == "copy":
            return V(term("copyof", base) if base[1] == "norm" else base)
        if is_t(base) and base[1] in ("field", "values of", "kernel", "call", "bin", "item") and name == "copy":
            return V(base)
        return None

    def truth(self, t, interp, st):
        return None


def symbol(tag):
    """symbols are keys of the results, so they are kept apart from every axis name"""
    return C("<symbol of %s>" % tag)


def norms(interp, st, tag):
    return V(interp.new(st, ("identity norms", tag), Obj("dict", None, {C("speed"): V(("t", "norm", tag))})))


def make(o, interp, st, prog, cls, axes, tag="self"):
    c = prog.classes.get(cls)
    if c is None:
        raise AnalysisError("class %s not found" % cls)
    for k in ("name", "unit"):
        o.types[IN("%s of %s" % (k, tag))] = "str"
    o.types[IN("is_real of %s" % tag)] = "bool"
    lst = interp.new(st, ("axes", tag), Obj("list", exact=tuple(V(a) for a in axes)))
    return interp.instance(st, c, tag, {
        "_axes": V(lst), "_name": V(IN("name of " + tag)), "_symbol": V(symbol(tag)), "_unit": V(IN("unit of " + tag)), "_is_real": V(IN("is_real of " + tag)),
        "_values": V(("t", "field")), "_normalizations": norms(interp, st, tag), "_FTparameters": V(interp.new(st, ("ft", tag), Obj("dict"))), "parent": V(NONE)})


def axes_for(interp, st, prog, names):
    out = []
    for n in names:
        out.append(axis(interp, st, prog, n, n, _normalizations=norms(interp, st, "axis " + n)))
    return out


def judge(ctx, f, what, it, st, i, want):
    """metadata of one resulting object"""
    if is_t(i) or i == U or i[0] != "o" or st.heap[i[1]].kind != "inst":
        ctx.count("undecided")
        ctx.sample("undecided: %s gives %s" % (what, show(i)[:200]))
        return
    o = st.heap[i[1]]
    for k, w in want.items():
        if w is None:
            continue
        ctx.count("metadata judged")
        ctx.obligation()
        v = o.fields.get("_" + k, UNKNOWN)
        if k == "normalizations":
            for x in v:
                if x == NONE:
                    ctx.report("lost", "%s:%s" % (what, k), f.where(), "%s: the normalizations are lost" % what)
                elif x[0] == "o" and st.heap[x[1]].kind == "dict":
                    d = st.heap[x[1]]
                    e = d.fields.get(C("speed"))
                    if e is None and not d.pairs:
                        ctx.report("lost", "%s:%s" % (what, k), f.where(), "%s: the normalizations are lost" % what)
                    elif e is None or U in e:
                        ctx.count("undecided")
                        ctx.sample("undecided: %s %s %s" % (what, k, show(e) if e else d.pairs))
                    else:
                        for y in e:
                            while is_t(y) and y[1] == "copyof":
                                y = y[2]
                            if y == ABSENT or y == NONE:
                                ctx.report("lost", "%s:%s" % (what, k), f.where(), "%s: the normalizations may be lost" % what)
                            elif y != w:
                                if is_t(y) and y[1] == "norm":
                                    ctx.report("other", "%s:%s" % (what, k), f.where(), "%s: the normalizations are those of %s" % (what, y[2]))
                                else:
                                    ctx.count("undecided")
                                    ctx.sample("undecided: %s %s %s" % (what, k, show(y)))
                elif x != w:
                    ctx.count("undecided")
                    ctx.sample("undecided: %s %s %s" % (what, k, show(x)))
            continue
        for x in v:
            if x == w:
                continue
            if x == U or is_t(x) and x[1] not in ("in", "unit change"):
                ctx.count("undecided")
                ctx.sample("undecided: %s %s %s" % (what, k, show(x)))
            else:
                ctx.report("lost" if is_c(x) else "other", "%s:%s" % (what, k), f.where(), "%s: the %s is %s instead of %s" % (what, k, show(x), show(w)))


def source(tag="self", **over):
    w = {k: IN("%s of %s" % (k, tag)) for k in META}
    w["normalizations"] = ("t", "norm", tag)
    w["symbol"] = symbol(tag)
    w.update(over)
    return w


def evaluate(ctx, prog, o, cls, name, it, st, args, kw, what):
    f = method(prog, cls, name)
    ctx.count("derivations")
    ctx.obligation()
    try:
        r, st = it.run(f, args, kw, st)
        return f, r, st
    except Raised as e:
        ctx.report("fails", what, f.where(), "%s always fails (%s)" % (what, e.exc))
        return f, frozenset(), st


def first(r, it, st):
    """the object, or the first element of a tuple of results"""
    out = []
    for i in r:
        out += list(i[1][0]) if i[0] == "tu" else [i]
    return out


def scenario(ctx, prog, cls, name, axes, args=(), kw=None, want=None, label="", extensions=(), inside=()):
    o = DeriveOracle(prog, inside)
    o.extensions = extensions
    it, st = Interp(prog, o), State()
    me = make(o, it, st, prog, cls, axes_for(it, st, prog, axes))
    a = [V(me)] + [x(o, it, st) if callable(x) else V(x) for x in args]
    k = {n: x(o, it, st) if callable(x) else V(x) for n, x in (kw or {}).items()}
    what = "%s of %s%s" % (name, cls, label)
    f, r, st = evaluate(ctx, prog, o, cls, name, it, st, a, k, what)
    for i in first(r, it, st):
        judge(ctx, f, what, it, st, i, want or source())
        if i[0] == "o" and i == me:
            ctx.count("source returned")


def judge_slice_axes(ctx, prog):
    """the axes of a slice are labelled with the unit of their values"""
    for cls, axes, asked in (("DataND", ["z", "angle"], ["z", "angle"]), ("DataTime", ["time", "angle"], ["time", "angle"]), ("DataTime", ["z", "time"], ["z", "freqs"]), ("DataFreq", ["freqs", "wavenumber"], ["time", "wavenumber"])):
        for units in (("SI", "SI"), ("SI", "other"), ("other", "SI"), ("speed", "SI")):
            o = DeriveOracle(prog)
            o.requested = tuple(zip(asked, units))
            it, st = Interp(prog, o), State()
            src = axes_for(it, st, prog, axes)
            me = make(o, it, st, prog, cls, src)
            what = "slice of %s along %s as %s in %s" % (cls, " and ".join(axes), " and ".join(asked), " and ".join(units))
            f, r, st = evaluate(ctx, prog, o, cls, "get_data_along", it, st, [V(me)] + [V(C(a)) for a in asked], {}, what)
            for i in r:
                ex = it.exact_elems(st.heap[i[1]].fields.get("_axes", UNKNOWN), st) if i[0] == "o" and st.heap[i[1]].kind == "inst" else None
                if ex is None or len(ex) != len(asked):
                    ctx.count("undecided")
                    ctx.sample("undecided: axes of " + what)
                    continue
                for a, name, old, u in zip(ex, asked, axes, units):
                    want = {"name": C(name), "normalizations": ("t", "norm", "axis " + old), "is_components": FALSE}
                    if u == "other":
                        want["unit"] = C("other")
                    elif name == old:
                        want["unit"] = C("unit of " + old)
                    for x in a:
                        judge(ctx, f, "%s: axis %s" % (what, name), it, st, x, want)


def given(tag):
    def build(o, it, st):
        o.types[IN(tag)] = "str"
        return V(IN(tag))
    return build


def judge_data(ctx, prog):
    scenario(ctx, prog, "DataTime", "time_to_freq", ["time", "angle"])
    scenario(ctx, prog, "DataTime", "time_to_freq", ["angle", "z"], label=" without time")
    scenario(ctx, prog, "DataFreq", "freq_to_time", ["freqs", "wavenumber"])
    scenario(ctx, prog, "DataFreq", "freq_to_time", ["wavenumber", "z"], label=" without frequencies")
    other = lambda cls, names: lambda o, it, st: V(make(o, it, st, prog, cls, axes_for(it, st, prog, names), "other"))
    for cls, oc, on in (("DataTime", "DataFreq", ["freqs"]), ("DataFreq", "DataTime", ["time"])):
        scenario(ctx, prog, cls, "to_datadual", ["time"] if cls == "DataTime" else ["freqs"], args=[other(oc, on)], label=" with its other domain")
        scenario(ctx, prog, cls, "to_datadual", ["time"] if cls == "DataTime" else ["freqs"])
    # slices
    for cls, axes, asked in (("DataND", ["time", "angle"], ("time", "angle")), ("DataTime", ["time", "angle"], ("freqs", "wavenumber")), ("DataFreq", ["freqs"], ("time",)),
                             ("DataND", ["z", "angle"], ("z", "angle"))):
        req = [C(a) for a in asked]
        lab = " along %s as %s" % (" and ".join(axes), " and ".join(asked))
        scenario(ctx, prog, cls, "get_data_along", axes, args=req, label=lab)
        scenario(ctx, prog, cls, "get_data_along", axes, args=req, kw={"unit": C("kT")}, want=source(unit=C("kT")), label=lab + " in another unit")
        scenario(ctx, prog, cls, "get_data_along", axes, args=req, kw={"unit": C("dB")}, want=source(unit=C("dB")), label=lab + " in dB")
        for ext, fn in (("derivate", "get_unit_derivate"), ("antiderivate", "get_unit_integrate"), ("integrate", "get_unit_integrate"), ("integrate_local", "get_unit_integrate"),
                        ("whole", None), ("max", None), ("mean", None), ("rms", None), ("sum", None), ("smallestperiod", None)):
            for u, base in (("SI", IN("unit of self")), ("kT", C("kT"))):
                w = ("t", "unit change", fn, base, IN("axis unit")) if fn else base
                scenario(ctx, prog, cls, "get_data_along", axes, args=req, kw={"unit": C(u)}, want=source(unit=w), extensions=(ext,), label="%s with %s in %s" % (lab, ext, u))
    # referential and filtering
    for cls, axes in (("DataTime", ["time", "angle"]), ("DataFreq", ["freqs", "wavenumber"])):
        for wave in ((True, False) if cls == "DataTime" else (False,)):
            scenario(ctx, prog, cls, "change_referential", axes, args=[IN("speed"), C(wave)], label=" in the %s domain" % ("waveform" if wave else "spectral"))
        scenario(ctx, prog, cls, "filter_spectral_leakage", axes, args=[IN("freqs_th")])
        scenario(ctx, prog, cls, "filter_spectral_leakage", axes, args=[IN("freqs_th")], kw={"is_return_calc_data": TRUE}, label=" with its data")
    # sums and convolutions
    over = {"name": IN("given name"), "symbol": IN("given symbol"), "unit": IN("given unit")}
    for name in ("sum", "conv"):
        oth = other("DataFreq", ["freqs"])
        scenario(ctx, prog, "DataFreq", name, ["freqs"], args=[oth])
        for k, v in over.items():
            scenario(ctx, prog, "DataFreq", name, ["freqs"], args=[oth], kw={k: given(v[2])}, want=source(**{k: v}), label=" with its %s" % k)
        scenario(ctx, prog, "DataFreq", name, ["freqs"], args=[oth], kw={"normalizations": lambda o, it, st: norms(it, st, "given")},
                 want=source(normalizations=("t", "norm", "given")), label=" with its normalizations")
    for axes in (["time"], ["time", "angle"], ["angle", "time"]):
        t = lambda o, it, st: V(axis(it, st, prog, "time", "full", _normalizations=norms(it, st, "full")))
        scenario(ctx, prog, "DataTime", "orthogonal_mp", axes, args=[t], label=" along " + " and ".join(axes))


def judge_axes(ctx, prog):
    for cls in ("Data1D", "DataLinspace"):
        for name, args in (("get_axis_periodic", [IN("count")]), ("get_axis_periodic", [IN("count"), TRUE])) + ((("to_linspace", []),) if cls == "Data1D" else ()):
            o = DeriveOracle(prog)
            it, st = Interp(prog, o), State()
            more = {}
            if cls == "DataLinspace":
                more = {"_initial": V(IN("initial")), "_final": V(IN("final")), "_step": V(NONE), "_number": V(IN("number")), "_include_endpoint": V(TRUE)}
            me = axis(it, st, prog, "time", "self", cls, _name=V(IN("name of self")), _symbol=V(IN("symbol of self")), _unit=V(IN("unit of self")), _normalizations=norms(it, st, "self"),
                      _is_components=V(IN("is_components of self")), **more)
            for k in ("name", "symbol", "unit"):
                o.types[IN(k + " of self")] = "str"
            what = "%s of %s%s" % (name, cls, " with antiperiod" if len(args) > 1 else "")
            f, r, st = evaluate(ctx, prog, o, cls, name, it, st, [V(me)] + [V(a) for a in args], {}, what)
            want = {"name": IN("name of self"), "symbol": IN("symbol of self"), "unit": IN("unit of self"), "normalizations": ("t", "norm", "self"), "is_components": IN("is_components of self")}
            for i in r:
                judge(ctx, f, what, it, st, i, want)


COMPONENTS = ("radial", "tangential", "axial")
FIELD_OPS = {"time_to_freq": [], "freq_to_time": [], "get_vectorfield_along": [C("time"), C("angle")], "change_referential": [IN("speed"), FALSE],
             "filter_spectral_leakage": [IN("freqs_th")], "change_periodicity": [IN("per a"), IN("per t")], "to_xyz": [], "to_rphiz": []}
MATCHING = {"get_vectorfield_along": "get_data_along"}


def judge_fields(ctx, prog):
    vf = prog.classes.get("VectorField")
    if vf is None:
        raise AnalysisError("no vector field class")
    for name, args in FIELD_OPS.items():
        for kinds in (("DataTime",), ("DataFreq",)):
            if name == "time_to_freq" and kinds != ("DataTime",) or name == "freq_to_time" and kinds != ("DataFreq",):
                continue
            for present in (COMPONENTS, COMPONENTS[:2], COMPONENTS[1:]):
                o = DeriveOracle(prog)
                it, st = Interp(prog, o), State()
                axes = axes_for(it, st, prog, ["time", "angle", "z"] if kinds == ("DataTime",) else ["freqs", "wavenumber", "z"])
                src = present if name != "to_rphiz" else tuple({"radial": "comp_x", "tangential": "comp_y", "axial": "comp_z"}[c] for c in present)
                comps = {C(c): V(make(o, it, st, prog, kinds[0], axes, "component " + c)) for c in src}
                d = it.new(st, ("components",), Obj("dict", None, comps))
                for k in ("name", "symbol"):
                    o.types[IN("%s of self" % k)] = "str"
                me = it.instance(st, vf, "self", {"_components": V(d), "_name": V(IN("name of self")), "_symbol": V(IN("symbol of self")), "parent": V(NONE)})
                what = "%s of a vector field with %s" % (name, " and ".join(src))
                f, r, st = evaluate(ctx, prog, o, "VectorField", name, it, st, [V(me)] + [V(a) for a in args], {}, what)
                for i in r:
                    judge(ctx, f, what, it, st, i, {"name": IN("name of self"), "symbol": IN("symbol of self")})
                    if i[0] != "o" or st.heap[i[1]].kind != "inst" or name in ("to_xyz", "to_rphiz"):
                        if name in ("to_xyz", "to_rphiz") and i[0] == "o":
                            judge_changed(ctx, f, what, it, st, i, src)
                        continue
                    dv = single(st.heap[i[1]].fields.get("_components", UNKNOWN))
                    if dv is None or dv[0] != "o":
                        ctx.count("undecided")
                        continue
                    res = st.heap[dv[1]].fields
                    for c in present:
                        ctx.count("components judged")
                        ctx.obligation()
                        v = res.get(C(c))
                        if v is None or ABSENT in v:
                            ctx.report("component-lost", "%s:%s" % (what, c), f.where(), "%s: the component %s is lost" % (what, c))
                            continue
                        for x in v:
                            w = ("t", "derived", MATCHING.get(name, name), c)
                            if x == w:
                                continue
                            if is_t(x) and x[1] == "derived":
                                ctx.report("component-other", "%s:%s" % (what, c), f.where(), "%s: the component %s comes from %s of the component %s" % (what, c, x[2], x[3]))
                            elif x[0] == "o" and st.heap[x[1]].kind == "inst":
                                judge(ctx, f, "%s, component %s" % (what, c), it, st, x, source("component " + c))
                            else:
                                ctx.count("undecided")
                                ctx.sample("undecided: %s %s %s" % (what, c, show(x)))


def judge_changed(ctx, f, what, it, st, i, src):
    """unit, normalizations and real flag of the components after a change of frame"""
    dv = single(st.heap[i[1]].fields.get("_components", UNKNOWN))
    if dv is None or dv[0] != "o":
        ctx.count("undecided")
        return
    for k, v in sorted(st.heap[dv[1]].fields.items(), key=repr):
        for x in v:
            if x[0] != "o" or st.heap[x[1]].kind != "inst":
                continue
            o = st.heap[x[1]]
            tags = {y[2] for y in o.fields.get("_unit", ()) if is_t(y) and y[1] == "in"}
            if not any(t == "unit of component " + c for t in tags for c in src):
                if not o.fields.get("_unit", UNKNOWN) & UNKNOWN:
                    ctx.report("lost", "%s:%s:unit" % (what, k[2]), f.where(), "%s: the unit of %s is %s" % (what, k[2], show(o.fields.get("_unit", UNKNOWN))))
                continue
            tag = sorted(tags)[0][len("unit of "):]
            ctx.count("components judged")
            judge(ctx, f, "%s, component %s" % (what, k[2]), it, st, x, {k2: w for k2, w in source(tag).items() if k2 not in ("name", "symbol")})


def run(ctx):
    prog = ctx.prog
    ctx.rule("Every operation that builds a data object from another is evaluated with a source of unknown metadata; each property of the result must be the source's, or the caller's when given.")
    ctx.rule("The unit of a slice must be that of its values: the requested unit, changed once per derived or integrated axis.")
    ctx.rule("Each component of a derived vector field must come from the component of the same name by the operation of the same name.")
    judge_data(ctx, prog)
    judge_axes(ctx, prog)
    judge_slice_axes(ctx, prog)
    judge_fields(ctx, prog)
    ctx.need("derivations", 120)
    ctx.need("metadata judged", 400)
