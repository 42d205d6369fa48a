"""P21: spectra have the amplitudes of their lines and the inverse transform undoes the direct one"""

from sa.absint import C, FALSE, NONE, TRUE, UNKNOWN, Interp, Raised, State, V, is_c, is_t, term
from sa.algebra import NotAlgebraic, atom, number
from sa.shapes import N, arr, is_arr

from checks.p12 import RequestOracle, undecided
from checks.p17 import method, single
from checks.p20 import a_field, an_axis

TECHNIQUE = "abstract interpretation of direct and inverse requests to the factors of the zero line and of the others and to the order of the lines, compared as exact rational forms of the numbers of samples with those of the discrete Fourier transform"
NOTE = "rounding, transforms at given frequencies and along non uniform axes are not judged"

OTHER = {"time": "freqs", "angle": "wavenumber", "freqs": "time", "wavenumber": "angle"}


class SpectrumOracle(RequestOracle):
    """lines taken out of and put back into spectra keep their positions"""

    def truth(self, t, interp, st):
        # wavenumbers have both signs
        if is_t(t) and t[1] == "cmp" and C(0) in t[3:] and "'min'" in repr(t) and "freqs" not in repr(t):
            return t[2] == "<" if t[4] == C(0) else t[2] == ">"
        return RequestOracle.truth(self, t, interp, st)

    def attr(self, interp, st, b, name):
        if is_arr(b) and name == "size" and len(b[2]) > 1:
            return V(term("num", ("red", "prod", (None,), ("array", tuple(b[2])))))
        return RequestOracle.attr(self, interp, st, b, name)

    def line(self, interp, st, a, d, p):
        k = self.axis(interp, st, d["axis"], len(a[2]), "line") if "axis" in d else None
        i = self.const(d.get(p, V(NONE)))
        return (None, None) if k is None or not isinstance(i, int) or isinstance(i, bool) else (k, i)

    def np_take(self, interp, st, name, a, d):
        k, i = self.line(interp, st, a, d, "indices")
        if k is None:
            return RequestOracle.np_take(self, interp, st, name, a, d)
        c = ("line", a[2][k][2], i, a[3])
        dims = a[2][:k] + a[2][k + 1:]
        return V(arr(dims, c)) if dims else V(term("sample", c))

    def np_delete(self, interp, st, name, a, d):
        r = RequestOracle.np_delete(self, interp, st, name, a, d)
        k, i = self.line(interp, st, a, d, "obj")
        return r if r is None or k is None else frozenset(arr(x[2], ("rest", a[2][k][2], i, a[3])) for x in r)

    def np_insert(self, interp, st, name, a, d):
        r = RequestOracle.np_insert(self, interp, st, name, a, d)
        k, i = self.line(interp, st, a, d, "obj")
        if r is None or k is None:
            return r
        return frozenset(arr(x[2], ("lines", a[2][k][2], i) + x[3][1:]) if x[3][0] == "join" else x for x in r)

    def np_along(self, interp, st, name, a, d):
        r = RequestOracle.np_along(self, interp, st, name, a, d)
        return r if r is None else frozenset(arr(x[2], (name,) + x[3][1:]) if x[3][0] == "shift" else x for x in r)

    def np_fourier(self, interp, st, name, a, d):
        if "norm" in d and self.const(d["norm"]) is not None:
            return None
        return RequestOracle.np_fourier(self, interp, st, name, a, d)


def scalar(i):
    """form of a number of samples"""
    if is_c(i):
        return number(i[2])
    if is_t(i) and i[1] == "n":
        a, b = i[3]
        if a in ("half", "double"):
            raise NotAlgebraic("length")
        return number(a) * atom(i[2]) + number(b)
    if is_t(i) and i[1] == "number":
        return scalar(i[2])
    if is_t(i) and i[1] == "num":
        c = i[2]
        if c[0] == "red" and c[1] == "prod" and c[3][0] == "array":
            r = number(1)
            for x in c[3][1]:
                r = r * scalar(x)
            return r
    if is_t(i) and i[1] == "bin" and i[2] in "*/+-":
        x, y = scalar(i[3]), scalar(i[4])
        return {"*": x.__mul__, "/": x.__truediv__, "+": x.__add__, "-": x.__sub__}[i[2]](y)
    raise NotAlgebraic("number")


def read(c):
    """(factor of the zero line, factor of the others, [operation...] from the last to the first)"""
    if is_arr(c):
        return read(c[3])
    if is_t(c) and c[1] == "sample":
        return read(c[2])
    if c == ("values",):
        return number(1), number(1), ()
    m = c[1:] if is_t(c) and c[1] == "bin" else c
    if m[0] == "bin" and m[1] in "*/":
        for a, b in ((m[2], m[3]), (m[3], m[2]))[:1 if m[1] == "/" else 2]:
            try:
                k = scalar(b)
            except NotAlgebraic:
                continue
            z, o, ops = read(a)
            return (z * k, o * k, ops) if m[1] == "*" else (z / k, o / k, ops)
    if c[0] == "lines":
        _, axis, i, rest, one = c
        (_, o, ops), (z, _, ops1) = read(rest), read(one)
        if i != 0 or ops != ops1 or not around(rest, ("rest", axis, 0)) or not around(one, ("line", axis, 0)):
            raise NotAlgebraic("lines")
        return z, o, ops + (("zero", axis),) if ("zero", axis) not in ops else ops
    if c[0] in ("rest", "line"):
        return read(c[3])
    if c[0] in ("fftshift", "ifftshift", "fftn", "ifftn", "rfftn", "irfftn"):
        z, o, ops = read(c[2])
        return z, o, ((c[0], c[1]),) + ops if c[1] else ops
    if c[0] == "real":
        z, o, ops = read(c[1])
        return z, o, (("real", ()),) + ops
    raise NotAlgebraic(str(c[0] if c[0] != "t" else c[1]))


def around(c, head):
    return isinstance(c, tuple) and (c[:3] == head or any(around(x, head) for x in c if isinstance(x, tuple)))


def wrong(c, names, changed, direct, real):
    """what a transform does against its definition, None when it does it"""
    z, o, ops = read(c)
    base = "time" if direct else "freqs"
    half = real and base in changed
    kind = ("" if direct else "i") + ("rfftn" if half else "fftn")
    shift = "fftshift" if direct else "ifftshift"
    size = number(1)
    for n in changed:
        size = size * (number(2) * atom(n) + number(-2) if half and not direct and n == base else atom(n))
    k = number(1) / size if direct else size
    fts = [x for x in ops if x[0].endswith("fftn")]
    zeros = [x[1] for x in ops if x[0] == "zero"]
    if len(fts) != 1:
        return "%d transforms are applied" % len(fts)
    if fts[0][0] != kind:
        return "%s is applied instead of %s" % (fts[0][0], kind.replace("irfftn", "the inverse for half spectra").replace("rfftn", "the transform to half spectra"))
    if set(fts[0][1]) != set(changed):
        return "the transform acts along %s instead of %s" % (", ".join(fts[0][1]), ", ".join(changed))
    if half and fts[0][1][-1] != base:
        return "half of the lines are kept along %s instead of %s" % (fts[0][1][-1], base)
    twosided = set(changed) - ({base} if half else set())
    shifts = [x for x in ops if x[0].endswith("shift")]
    for x in shifts:
        if set(x[1]) - twosided:
            return "lines are reordered along %s, where they are in order" % ", ".join(sorted(set(x[1]) - twosided))
        if x[0] != shift:
            return "lines are reordered as by %s, which differs for odd numbers of samples" % x[0]
    done = sorted(n for x in shifts for n in x[1])
    if done != sorted(twosided):
        return "lines are reordered along %s instead of %s" % (", ".join(done) or "no axis", ", ".join(sorted(twosided)))
    order = [x[0] for x in ops if x[0].endswith(("shift", "fftn"))]
    if order and (order[-1] if direct else order[0]) != kind:
        return "lines are reordered on the wrong side of the transform"
    if zeros and (not half or set(zeros) != {base}):
        return "the zero line along %s has its own factor" % zeros[0]
    want = (k, k) if not half else (k, (k * number(2) if direct else k / number(2)))
    if zeros and z != want[0] or not zeros and half:
        return "the zero line has the factor of the others" if not zeros else "the zero line is multiplied by %s instead of %s" % (said(z, changed), said(want[0], changed))
    if o != want[1]:
        return "lines are multiplied by %s instead of %s" % (said(o, changed), said(want[1], changed))
    if not direct and real and not half and ("real", ()) not in ops:
        return "the samples of a real field are left complex"
    return None


def said(r, names):
    def poly(p):
        return " + ".join("*".join(["%g" % float(c)] + ["N(%s)%s" % (a, "" if e == 1 else "^%d" % e) for a, e in m]) for m, c in sorted(p.t.items(), key=repr))
    return "(%s) / (%s)" % (poly(r.n), poly(r.d))


def cases(t, a, direct):
    """(axes of the field, transformed axes)"""
    yield (t,), (t,)
    yield (a,), (a,)
    for names in ((t, a), (a, t), (t, a, "z"), ("z", a, t), (a, "z", t)):
        yield names, (t, a)
        # an inverse request of one axis is put together from both transforms
        for x, y in ((t, a), (a, t)):
            yield (names if direct else tuple(OTHER[n] if n == y else n for n in names)), (x,)


def run(ctx):
    prog = ctx.prog
    ctx.rule("spectra have the amplitudes of their lines")
    for cls, base in (("DataTime", ("time", "angle")), ("DataFreq", ("freqs", "wavenumber"))):
        f = method(prog, cls, "get_along")
        direct = cls == "DataTime"
        for real in (True, False):
            for names, changed in cases(*base, direct):
                what = "%s transform of %s data along %s to %s" % ("direct" if direct else "inverse", "real" if real else "complex", " and ".join(names), " and ".join(OTHER[n] for n in changed))
                ctx.count("transforms")
                ctx.obligation()
                o = SpectrumOracle(prog)
                it, st = Interp(prog, o), State()
                extra = {"_is_components": V(FALSE), "_is_overlay": V(FALSE)}
                axes = [an_axis(it, st, prog, "Data1D", n, sym={}, **extra) for n in names]
                me = a_field(it, st, prog, cls, axes, _is_real=V(TRUE if real else FALSE), _values=V(arr([N(n) for n in names], ("values",))))
                try:
                    v, st = it.run(f, [V(me)] + [V(C(OTHER[n] if n in changed else n)) for n in names], {"is_squeeze": V(FALSE)}, st)
                except Raised as e:
                    undecided(ctx, "%s fails with %s" % (what, e.exc))
                    continue
                i = single(v)
                v = st.heap[i[1]].fields.get(C("B"), UNKNOWN) if i is not None and i[0] == "o" else UNKNOWN
                said_ = []
                try:
                    for x in v:
                        said_.append(wrong(x, names, changed, direct, real))
                except (NotAlgebraic, IndexError, TypeError, ValueError, KeyError) as e:
                    undecided(ctx, "%s: %s in %s" % (what, e, str(sorted(v, key=repr)[0])[:400]))
                    continue
                ctx.count("transforms decided")
                if real and not direct and "freqs" in changed and not any(said_):
                    # the parity of the number of samples is not kept by the number of lines
                    if all(is_arr(x) and any(d[2] == "freqs" and d[3][:1] == ("double",) for d in x[2]) for x in v):
                        ctx.report("parity", "inverse along freqs", f.where(), "%s: the number of samples is twice the number of lines less one, also for data that had an odd number of samples" % what)
                if said_ and all(said_):
                    ctx.report("transform", "%s|%s|%s" % (cls, real, "+".join(sorted(changed))), f.where(), "%s: %s" % (what, said_[0]))
    ctx.need("transforms", 20)
