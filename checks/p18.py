"""P18: a dual-domain object answers with axes and values of one and the same domain."""
from itertools import product

from sa.absint import ABSENT, C, FALSE, NONE, TRUE, U, UNKNOWN, Interp, Obj, Oracle, Raised, State, V, is_c, is_t, show, term
from sa.model import AnalysisError
from checks.p17 import axis, method, single

TECHNIQUE = "value-provenance analysis of the domain choice over all requests, available domains and histories, and of every construction of a dual-domain object"
NOTE = "assumes: extraction by the general class uses the axes and values of the object at the time of the call; the domain of each pair is that of its property"

DT, DF = "time/space", "Fourier"
IN = lambda *n: ("t", "in") + n
SIDES = {DT: ("_axes_dt", "_values_dt"), DF: ("_axes_df", "_values_df")}
AXES = {DT: ("time", "angle", "z"), DF: ("freqs", "wavenumber", "z")}
FOURIER = ("freqs", "wavenumber")
REQUESTS = (("time",), ("freqs",), ("angle",), ("wavenumber",), ("z",), ("time", "angle"), ("freqs", "wavenumber"), ("freqs", "angle"), ("time", "wavenumber"), ("z", "freqs"), ("angle", "z", "wavenumber"),
            ("time[smallestperiod]", "angle=sum"), ("freqs<100", "wavenumber=0"), ("time=[0,1]{ms}", "z=mean"), ("z", "wavenumber->space_order"), ("angle{°}", "freqs=[0,100]"), ("time=0.1", "z"),
            ("phase[]", "freqs->elec_order"), ("angle[0]", "time=rms"))


def fourier(request):
    return any(x in a for a in request for x in FOURIER)


class DualOracle(Oracle):
    def __init__(self, prog, me=None):
        self.p = prog
        self.seen = []
        self.me = me

    def type_of(self, i, interp, st):
        if is_t(i) and i[1] in ("in", "item", "copyof"):
            if i[1] == "in":
                return {"axes": "list", "values": "ndarray"}.get(i[2])
            if i[1] == "copyof":
                return self.type_of(i[2], interp, st)
        return None

    def nonempty(self, i, interp, st):
        return is_t(i) and i[1] == "in" and i[2] == "axes"

    def call(self, interp, st, fn, args, kw, node):
        if fn[0] == "f" and fn[1].name == "check_var":
            return V(NONE)
        if fn[0] == "b":
            f = fn[1]
            if f.name == "get_along" and "/DataDual/" not in f.where():
                o = st.heap[fn[2][1]]
                self.seen.append((o.fields.get("_axes", UNKNOWN), o.fields.get("_values", UNKNOWN), args, node))
                return V(("t", "results"))
            if f.name in ("time_to_freq", "freq_to_time"):
                cls = self.p.classes["DataFreq" if f.name == "time_to_freq" else "DataTime"]
                return V(interp.instance(st, cls, "derived", {"_axes": pair_axes(interp, st, self.p, "derived"), "_values": V(IN("values", "derived")), "parent": V(NONE)}))
        return None

    def method(self, interp, st, base, name, args, kw, node):
        if is_t(base) and name == "copy" and base[1] in ("in", "elem", "item"):
            return V(term("copyof", base))
        return None


def dual(it, st, prog, available, current):
    c = prog.classes.get("DataDual")
    if c is None:
        raise AnalysisError("no dual-domain class")
    e = {"_name": V(C("B")), "_symbol": V(C("B")), "_unit": V(C("T")), "_is_real": V(IN("is_real")), "_normalizations": V(it.new(st, ("norms",), Obj("dict"))),
         "_FTparameters": V(it.new(st, ("ft",), Obj("dict"))), "parent": V(NONE), "_axes": V(NONE), "_values": V(NONE)}
    for side, (a, v) in SIDES.items():
        e[a] = pair_axes(it, st, prog, side) if side in available else V(NONE)
        e[v] = V(IN("values", side)) if side in available else V(NONE)
    if current:
        e["_axes"], e["_values"] = e[SIDES[current][0]], e[SIDES[current][1]]
    return it.instance(st, c, "self", e)


def pair_axes(it, st, prog, side):
    ax = [axis(it, st, prog, n, n + " of " + side) for n in AXES.get(side, AXES[DT])]
    return V(it.new(st, ("pair axes", side), Obj("list", exact=tuple(V(a) for a in ax))))


def judge_requests(ctx, prog):
    f = method(prog, "DataDual", "get_along")
    if "/DataDual/" not in f.where():
        raise AnalysisError("no extraction of its own for the dual-domain class")
    for request, available, packed in product(REQUESTS, ((DT, DF), (DT,), (DF,)), (False, True)):
        for current in (None,) + available:
            o = DualOracle(prog)
            it, st = Interp(prog, o), State()
            me = dual(it, st, prog, available, current)
            args = [V(C(a)) for a in request]
            if packed:
                args = [V(("tu", tuple(args)))]
            what = "%s of data with %s pair%s%s" % (" and ".join(request), " and ".join(available), " after a %s request" % current if current else "", " (one tuple)" if packed else "")
            ctx.count("requests")
            ctx.obligation()
            try:
                r, st = it.run(f, [V(me)] + args, {}, st)
            except Raised as e:
                ctx.report("fails", what, f.where(), "requesting %s always fails (%s)" % (what, e.exc))
                continue
            want = DF if fourier(request) and DF in available else DT if DT in available else DF
            if not o.seen:
                ctx.report("unanswered", what, f.where(), "requesting %s does not extract anything" % what)
            for a, v, got, node in o.seen:
                wa, wv = origin(a, it, st), origin(v, it, st)
                if None in wa or None in wv:
                    ctx.count("undecided")
                    ctx.sample("undecided: %s uses axes %s values %s" % (what, show(a), show(v)))
                elif wa != wv or len(wa) > 1:
                    ctx.report("mixed", what, f.where(), "requesting %s uses the %s axes with the %s values" % (what, "/".join(sorted(wa)), "/".join(sorted(wv))))
                elif wa != {want}:
                    ctx.report("domain", what, f.where(), "requesting %s uses the %s pair instead of the %s pair" % (what, "/".join(sorted(wa)), want))
                else:
                    ctx.count("requests decided")
            # the stored pairs are left alone
            h = st.heap[me[1]].fields
            for side, (a, v) in SIDES.items():
                for k in (a, v):
                    if origin(h[k], it, st) - {None} - {side if side in available else "nothing"}:
                        ctx.report("overwritten", what + ":" + k, f.where(), "requesting %s leaves %s with data of the other domain" % (what, k[1:]))


def judge_axes(ctx, prog):
    f = method(prog, "DataDual", "get_axes")
    for current, names in product((None, DT, DF), ((), ("time",), ("freqs",), ("angle", "z"), ("wavenumber",))):
        o = DualOracle(prog)
        it, st = Interp(prog, o), State()
        me = dual(it, st, prog, (DT, DF), current)
        what = "axes %sof data %s" % (" and ".join(names) + " " if names else "", "after a %s request" % current if current else "before any request")
        ctx.count("axes requested")
        ctx.obligation()
        try:
            r, st = it.run(f, [V(me)] + [V(C(n)) for n in names], {}, st)
        except Raised as e:
            ctx.report("fails", what, f.where(), "%s: always fails (%s)" % (what, e.exc))
            continue
        for i in r:
            if i == NONE:
                ctx.report("axes", what, f.where(), "%s are not returned" % what)
                continue
            ex = it.exact_elems(V(i), st)
            if ex is None:
                ctx.count("undecided")
                ctx.sample("undecided: %s gives %s" % (what, show(i)))
                continue
            got = {(which_axis(x, st), name_of(x, st)) for v in ex for x in v}
            have = {(side, n) for side in ((current,) if current else (DT, DF)) for n in AXES[side]}
            want = {x for x in have if x[1] in names or not names}
            if None in {x for y in got for x in y}:
                ctx.count("undecided")
            elif got != want:
                ctx.report("axes", what, f.where(), "%s are %s" % (what, ", ".join("%s of %s" % (n, s) for s, n in sorted(got)) or "none"))


def name_of(i, st):
    v = st.heap[i[1]].fields.get("_name", UNKNOWN) if i[0] == "o" else UNKNOWN
    x = single(v)
    return x[2] if x is not None and is_c(x) else None


def judge_built(ctx, prog):
    for cls, own, other, op in (("DataTime", DT, DF, "time_to_freq"), ("DataFreq", DF, DT, "freq_to_time")):
        f = method(prog, cls, "to_datadual")
        c = prog.classes[cls]
        for given in (True, False):
            o = DualOracle(prog)
            it, st = Interp(prog, o), State()
            objs = {}
            for side, k in ((own, cls), (other, "DataFreq" if cls == "DataTime" else "DataTime")):
                objs[side] = it.instance(st, prog.classes[k], side, {
                    "_axes": pair_axes(it, st, prog, side), "_values": V(IN("values", side)), "_name": V(C("B")), "_symbol": V(C("B")), "_unit": V(C("T")), "_is_real": V(IN("is_real")),
                    "_normalizations": V(it.new(st, ("norms", side), Obj("dict"))), "_FTparameters": V(it.new(st, ("ft", side), Obj("dict"))), "parent": V(NONE)})
            what = "dual-domain data built from %s%s" % (cls, " and its other domain" if given else "")
            ctx.count("constructions")
            try:
                r, st = it.run(f, [V(objs[own])] + ([V(objs[other])] if given else []), {}, st)
            except Raised as e:
                ctx.report("fails", what, f.where(), "%s: always fails (%s)" % (what, e.exc))
                continue
            for i in r:
                h = st.heap[i[1]] if i[0] == "o" else None
                if i == NONE:
                    ctx.report("built", what, f.where(), "%s is not returned" % what)
                    continue
                if h is None or h.kind != "inst":
                    ctx.count("undecided")
                    ctx.sample("undecided: %s gives %s" % (what, show(i)))
                    continue
                for side, keys in SIDES.items():
                    want = side if side == own or given else "derived"
                    for k in keys:
                        ctx.obligation()
                        got = origin(h.fields.get(k, UNKNOWN), it, st)
                        if None in got:
                            ctx.count("undecided")
                            ctx.sample("undecided: %s %s %s" % (what, k, show(h.fields.get(k, UNKNOWN))))
                        elif got != {want}:
                            ctx.report("built", "%s:%s" % (what, k), f.where(), "%s: %s is that of %s instead of %s" % (what, k[1:], "/".join(sorted(got)), want))
                        else:
                            ctx.count("pairs judged")


def leaves(i, out):
    if isinstance(i, tuple) and i[:2] == ("t", "in"):
        out.add(i)
    elif isinstance(i, (tuple, frozenset)):
        for x in i:
            leaves(x, out)
    return out


def origin(v, it, st):
    """domains that these axes or values come from"""
    out = set()
    for i in v:
        if i == NONE or i == ABSENT:
            out.add("nothing")
        elif is_t(i):
            got = {x[3] for x in leaves(i, set()) if len(x) > 3}
            out |= got or {None}
        elif i[0] == "o" and st.heap[i[1]].kind == "list":
            o = st.heap[i[1]]
            if o.exact is not None and not o.exact:
                out.add("nothing")
            for x in o.exact or [o.elems]:
                for y in x:
                    if is_t(y):
                        out |= {z[3] for z in leaves(y, set()) if len(z) > 3} or {None}
                    elif y[0] == "o":
                        out.add(which_axis(y, st))
                    else:
                        out.add(None)
        else:
            out.add(None)
    return out


def which_axis(i, st):
    o = st.heap[i[1]] if i[0] == "o" else None
    for z in o.fields.get("_unit", UNKNOWN) if o is not None and o.kind == "inst" else ():
        for side in (DT, DF, "derived"):
            if is_c(z) and str(z[2]).endswith("of " + side):
                return side
    return None


def judge_constructor(ctx, prog):
    """each property given to the constructor is stored as itself"""
    c = prog.classes["DataDual"]
    f = c.find_method("__init__")
    if f is None:
        raise AnalysisError("no constructor")
    for given in product((True, False), repeat=2):
        o = DualOracle(prog)
        it, st = Interp(prog, o), State()
        kw = {"name": V(C("B")), "symbol": V(C("B")), "unit": V(C("T"))}
        for (side, keys), g in zip(SIDES.items(), given):
            if g:
                kw[keys[0][1:]] = pair_axes(it, st, prog, side)
                kw[keys[1][1:]] = V(IN("values", side))
        me = it.new(st, ("made",), Obj("inst", c, {}))
        what = "dual-domain data made with %s" % " and ".join(s for s, g in zip(SIDES, given) if g)
        ctx.count("constructions")
        try:
            r, st = it.run(f, [V(me)], kw, st)
        except Raised as e:
            ctx.report("fails", what, f.where(), "%s: always fails (%s)" % (what, e.exc))
            continue
        for (side, keys), g in zip(SIDES.items(), given):
            if not g:
                continue
            for k in keys:
                ctx.obligation()
                got = origin(st.heap[me[1]].fields.get(k, UNKNOWN), it, st)
                if None in got:
                    ctx.count("undecided")
                    ctx.sample("undecided: %s %s %s" % (what, k, show(st.heap[me[1]].fields.get(k, UNKNOWN))))
                elif got != {side}:
                    ctx.report("built", "%s:%s" % (what, k), f.where(), "%s: %s is that of %s" % (what, k[1:], "/".join(sorted(got))))
                else:
                    ctx.count("pairs judged")


def run(ctx):
    prog = ctx.prog
    ctx.rule("For every request, set of available domains and earlier request, the extraction must see the axes and values of one domain: the Fourier pair when a Fourier axis is asked and available, else the time/space pair when available.")
    ctx.rule("Every way of building a dual-domain object must store the axes and the values of each source together.")
    judge_requests(ctx, prog)
    judge_axes(ctx, prog)
    judge_built(ctx, prog)
    judge_constructor(ctx, prog)
    ctx.need("requests", 200)
    ctx.need("constructions", 7)
