"""P24: levels in dB and dBA and octave bands follow their definitions"""

from fractions import Fraction
from itertools import product

from sa.absint import C, FALSE, UNKNOWN, Interp, Obj, Raised, State, U, V, is_c, is_t, show, term
from sa.algebra import NotAlgebraic, Poly, Rat, atom, number
from sa.algebra import rat as rational
from sa.framework import AnalysisError
from sa.shapes import N, Shapes, arr, is_arr

from checks.p12 import RequestOracle, undecided
from checks.p17 import function, method, single
from checks.p20 import a_field, an_axis, norm

TECHNIQUE = "abstract interpretation to the formula of the level, compared as exact rational forms of the values, the reference and the frequency; constants and tables compared with the standards"
NOTE = "rounding is not modelled; bands other than 1/1 and 1/3 octave and the correction for lines that do not fill a band are not judged"

CONVERSIONS = "SciDataTool.Functions.conversions"
THIRDS = (12.5, 16, 20, 25, 31.5, 40, 50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500, 630, 800, 1000, 1250, 1600, 2000, 2500, 3150, 4000, 5000, 6300, 8000, 10000, 12500, 16000, 20000)
OCTAVES = (16, 31.5, 63, 125, 250, 500, 1000, 2000, 4000, 8000, 16000)
# A-weighting of the sound level meter standard
F1, F2, F3, F4, OFFSET = 20.598997, 107.65265, 737.86223, 12194.217, 2.0
TOLERANCE = 0.03


class Formulas:
    """numpy.where, masked logarithms and conversions as contents of arrays"""

    def formula(self, interp, st, fn, args, kw, node):
        f = fn[1] if fn[0] in ("f", "b") else None
        if f is not None and f.name == "convert":
            x, y = [next(iter(a)) if len(a) == 1 else U for a in args[1:3]] if len(args) > 2 else (U, U)
            if not is_c(x) or not is_c(y):
                return UNKNOWN
            if x[2] != y[2]:
                raise Raised("UnitError", st)
            return args[0]
        if fn[0] != "x" or not fn[1].startswith("numpy"):
            return None
        n = fn[1].split(".")[-1]
        if n == "where" and len(args) == 3 and any(is_arr(i) for a in args for i in a):
            out = set()
            for c, a, b in product(*args):
                x = next((x for x in (a, b, c) if is_arr(x)), None)
                if x is None or U in (c, a, b):
                    return UNKNOWN
                out.add(arr(x[2], ("choose", c, inner(a), inner(b))))
            return frozenset(out)
        if n == "apply_along_axis" and len(args) > 3 and len(args[0]) == 1 and len(args[2]) == 1:
            g, a = next(iter(args[0])), next(iter(args[2]))
            if g[0] == "f" and is_arr(a):
                k = self.axis(interp, st, args[1], len(a[2]), n)
                if k is None:
                    return UNKNOWN
                v = interp.into(st, interp.invoke(g[1], [V(arr((a[2][k],), a[3]))] + list(args[3:]), kw, st, node))
                return frozenset(arr(a[2][:k] + i[2] + a[2][k + 1:], i[3]) if is_arr(i) and len(i[2]) == 1 else U for i in v)
        if n in ("log10", "divide", "log", "sqrt") and ("where" in kw or "out" in kw):
            return Shapes.call(self, interp, st, fn, args, {k: v for k, v in kw.items() if k not in ("where", "out")}, node)
        return None


def inner(i):
    return i[3] if is_arr(i) else i


class LevelOracle(Formulas, Shapes):
    def __init__(self, prog):
        Shapes.__init__(self, prog)
        self.bands = []

    def truth(self, t, interp, st):
        if is_t(t) and t[1] == "cmp" and t[2] == "==" and any(x in (C(0), C(0.0)) for x in t[3:]) and "'band'" in repr(t):
            return False
        return Shapes.truth(self, t, interp, st)

    def call(self, interp, st, fn, args, kw, node):
        f = fn[1] if fn[0] in ("f", "b") else None
        if f is not None and f.name == "comp_nthoctave_axis":
            return V(interp.new(st, ("p24 bands",), Obj("list", exact=tuple(V(term("in", "c%d" % k)) for k in range(3)))))
        if fn[0] == "x" and fn[1].startswith("numpy") and args and len(args[0]) == 1:
            n, i = fn[1].split(".")[-1], next(iter(args[0]))
            if n in ("argwhere", "flatnonzero") and not kw:
                if i not in self.bands:
                    self.bands.append(i)
                k = self.bands.index(i)
                return V(arr((N("band", ("len", ("band", k))),), ("indices", k)))
            if n == "take" and len(args) > 1 and is_arr(i) and len(i[2]) == 1 and len(args[1]) == 1:
                j = next(iter(args[1]))
                if is_arr(j) and j[3][:1] == ("indices",):
                    return V(arr(j[2], ("picked", i[3], j[3][1])))
        r = self.formula(interp, st, fn, args, kw, node)
        return r if r is not None else Shapes.call(self, interp, st, fn, args, kw, node)


class PipelineOracle(Formulas, RequestOracle):
    def call(self, interp, st, fn, args, kw, node):
        f = fn[1] if fn[0] in ("f", "b") else None
        r = self.formula(interp, st, fn, args, kw, node)
        if r is not None:
            return r
        if f is not None and f.name == "to_dB":
            return None
        return RequestOracle.call(self, interp, st, fn, args, kw, node)


# -- formulas of levels ------------------------------------------------------

def holds(c):
    """is a choice made for values above the reference, at frequencies above zero"""
    if is_arr(c):
        return holds(c[3])
    if is_t(c) and c[1] == "not":
        return not holds(c[2])
    m = c[1:] if is_t(c) and c[1] in ("cmp", "bin") else c
    if m[0] in ("cmp", "bin") and len(m) == 4 and m[1] in ("<", "<=", "==", "!=", ">", ">="):
        op, a, b = m[1:]
        small = [is_c(x) and x[2] in (0, 1, REF) for x in (a, b)]
        if sum(small) != 1:
            raise NotAlgebraic("comparison")
        return {"==": False, "!=": True, "<": small[0], "<=": small[0], ">": small[1], ">=": small[1]}[op]
    raise NotAlgebraic("choice")


class Level:
    def __init__(self, values, freqs):
        self.values, self.freqs = values, freqs

    def rat(self, c):
        """form of a positive quantity; square roots are atoms"""
        if is_c(c):
            return number(c[2])
        if is_arr(c):
            return self.rat(c[3])
        if c in self.values:
            return atom("v")
        if c in self.freqs:
            return atom("f")
        if c[0] == "abs":
            return self.rat(c[1])
        if c[0] == "choose":
            return self.rat(c[2] if holds(c[1]) else c[3])
        if c[0] == "set" and (is_c(c[2]) or c[2][:1] == ("x",)) and len(c) > 4 and not any(is_c(w) and isinstance(w[2], int) for w in c[4] or (C(0),)):
            return self.rat(c[1])
        if c[0] == "square":
            r = self.rat(c[1])
            return r * r
        if c[0] == "sqrt":
            return self.root(self.rat(c[1]))
        m = c[1:] if is_t(c) and c[1] == "bin" else c
        if m[0] == "bin":
            x = self.rat(m[2])
            if m[1] == "**":
                k = self.rat(m[3]).const()
                if k == Fraction(1, 2):
                    return self.root(x)
                if k is None or k.denominator != 1 or abs(k) > 8:
                    raise NotAlgebraic("power")
                return x.power(int(k))
            y = self.rat(m[3])
            if m[1] in "+-*/":
                return {"+": Rat.__add__, "-": Rat.__sub__, "*": Rat.__mul__, "/": Rat.__truediv__}[m[1]](x, y)
        raise NotAlgebraic(str(c[0] if c[0] != "t" else c[1]))

    def root(self, r):
        self.roots.append(r)
        return atom(("sqrt", len(self.roots) - 1))

    def total(self, c):
        """(offset, logarithms): the level is the offset and the sum of k log10(r)"""
        if is_arr(c):
            return self.total(c[3])
        if is_c(c):
            return Fraction(c[2]), []
        if c[0] == "choose":
            return self.total(c[2] if holds(c[1]) else c[3])
        if c[0] == "set" and is_c(c[2]):
            return self.total(c[1])
        if is_t(c) and c[1] == "call" and c[2] == "numpy.log10":
            c = ("log10", c[4][0])
        if c[0] == "log10":
            self.roots = []
            r = self.rat(c[1])
            return Fraction(0), [(Fraction(1), r, list(self.roots))]
        m = c[1:] if is_t(c) and c[1] == "bin" else c
        if m[0] == "bin" and m[1] in "*/":
            for a, b in ((m[2], m[3]), (m[3], m[2]))[:2 if m[1] == "*" else 1]:
                if m[1] == "/":
                    a, b = b, a
                if is_c(a):
                    k = Fraction(a[2]) if m[1] == "*" else 1 / Fraction(a[2])
                    o, ls = self.total(b)
                    return o * k, [(k * x, r, q) for x, r, q in ls]
        if m[0] == "bin" and m[1] in "+-":
            (o1, l1), (o2, l2) = self.total(m[2]), self.total(m[3])
            s = 1 if m[1] == "+" else -1
            return o1 + s * o2, l1 + [(s * x, r, q) for x, r, q in l2]
        raise NotAlgebraic(str(c[0] if c[0] != "t" else c[1]))


def powered(ls):
    """argument of 5 log10"""
    y = number(1)
    for k, r, roots in ls:
        if (k / 5).denominator != 1 or abs(k) > 80:
            raise NotAlgebraic("factor %s of a logarithm" % k)
        r = r.power(int(k / 5))
        for n in reversed(range(len(roots))):
            r = even(r, ("sqrt", n), roots[n])
        y = y * r
    return y


def even(r, a, square):
    """replace the even powers of a square root"""

    def poly(p):
        out = Rat(Poly())
        for m, c in p.t.items():
            e = dict(m).get(a, 0)
            if e % 2:
                raise NotAlgebraic("square root")
            out = out + Rat(Poly({tuple(x for x in m if x[0] != a): c})) * square.power(e // 2)
        return out
    return poly(r.n) / poly(r.d)


def close(offset, y, want_offset, want):
    """do two levels agree, every coefficient within the tolerance"""
    a, b = y.n * want.d, want.n * y.d
    if set(a.t) != set(b.t):
        return False
    g = 10 ** (float(offset - want_offset) / 5)
    return all(abs(float(a.t[m] / b.t[m]) * g - 1) <= TOLERANCE for m in a.t)


def a_weight():
    f2, n = atom("f") * atom("f"), lambda x: number(Fraction(repr(x))) * number(Fraction(repr(x)))
    num = n(F4) * n(F4) * f2.power(4)
    den = (f2 + n(F1)) * (f2 + n(F1)) * (f2 + n(F2)) * (f2 + n(F3)) * (f2 + n(F4)) * (f2 + n(F4))
    return num / den


REF = Fraction(3, 8)


def judge(ctx, what, key, where, v, values, freqs, ref, power, weighted):
    ctx.count("levels")
    ctx.obligation()
    found = []
    want = atom("v") / ref if ref is not None else atom("v")
    want = want * want if power else want.power(4)
    if weighted:
        want = want * a_weight().power(2)
    for i in v:
        l = Level(values, freqs)
        try:
            o, y = l.total(i)
            y = powered(y)
            y = Rat(y.n, y.d)
            good = close(o, y, OFFSET if weighted else 0, want)
        except (NotAlgebraic, IndexError, TypeError, ValueError, AttributeError, KeyError) as e:
            undecided(ctx, "%s: %s in %s" % (what, e, str(i)[:300]))
            return
        found.append(None if good else said(o, y))
    ctx.count("levels decided")
    if found and all(found):
        ctx.report("level", key, where, "%s is %s" % (what, sorted(found)[0]))


def said(o, y):
    def poly(p):
        return " + ".join(" ".join(["%.6g" % float(c)] + ["%s%s" % (a if isinstance(a, str) else "ref", "" if e == 1 else "^%d" % e) for a, e in m]) for m, c in sorted(p.t.items(), key=repr)[:4])
    return "%s5 log10((%s) / (%s))" % ("%g + " % float(o) if o else "", poly(y.n), poly(y.d))


def judge_functions(ctx, prog):
    """the conversions of values"""
    values, freqs = arr((N("freqs"),), ("values",)), arr((N("freqs"),), ("freqs",))
    for power in (False, True):
        for fname in ("to_dB", "to_dBA"):
            f = function(prog, CONVERSIONS, fname)
            given = {"values": V(values), "freqs": V(freqs), "unit": V(C("W" if power else "Pa")), "ref_value": V(C(float(REF)))}
            if not set(f.params) <= set(given):
                raise AnalysisError("%s has other parameters" % f.qual)
            o = LevelOracle(prog)
            it, st = Interp(prog, o), State()
            what = "the level of a %s in %s" % ("power" if power else "field", fname[3:])
            try:
                v, st = it.run(f, [V(values)], {k: given[k] for k in f.params[1:]}, st)
            except Raised as e:
                undecided(ctx, "%s fails with %s" % (what, e.exc))
                continue
            judge(ctx, what, "%s|%s" % (fname, power), f.where(), v, [("values",)], [("freqs",)], number(REF), power, fname == "to_dBA")


def judge_requests(ctx, prog):
    """levels asked for of a field"""
    for fname in ("get_along", "get_magnitude_along"):
        f = method(prog, "DataND", fname)
        for power in (False, True):
            for unit, names, asked in (("dB", ("freqs",), "freqs"), ("dB", ("time",), "time"), ("dBA", ("freqs",), "freqs"), ("dB", ("freqs", "angle"), "freqs"), ("dBA", ("freqs", "angle"), "freqs"), ("dBA", ("angle", "freqs"), "freqs")):
                for with_ref in (True, False):
                    o = PipelineOracle(prog)
                    it, st = Interp(prog, o), State()
                    extra = {"_is_components": V(FALSE), "_is_overlay": V(FALSE)}
                    axes = [an_axis(it, st, prog, "Data1D", n, sym={}, **extra) for n in names]
                    norms = {"ref": norm(it, st, prog, "ref")} if with_ref else {}
                    if with_ref:
                        st.heap[norms["ref"][1]].fields["_ref"] = V(C(float(REF)))
                    me = a_field(it, st, prog, "DataND", axes, norms_=norms, _unit=V(C("W" if power else "Pa")), _values=V(arr([N(n) for n in names], ("values",))))
                    given = {"is_squeeze": V(FALSE), "axis_data": V(it.new(st, ("p24 axis data",), Obj("dict"))), "unit": V(C(unit))}
                    what = "%s of %s in %s along %s%s" % (fname, "powers" if power else "a field", unit, " and ".join(names), "" if with_ref else " without a reference")
                    try:
                        v, st = it.run(f, [V(me)] + [V(C(n)) for n in names], given, st)
                    except Raised as e:
                        undecided(ctx, "%s fails with %s" % (what, e.exc))
                        continue
                    i = single(v)
                    if i is not None and i[0] == "o" and st.heap[i[1]].kind == "dict":
                        v = st.heap[i[1]].fields.get(C("B"), UNKNOWN)
                    ref = number(REF) if with_ref else None
                    judge(ctx, what, "%s|%s|%s" % (fname, unit, power), f.where(), v, [("values",)], [("axis", "freqs")], ref, power, unit == "dBA")


# -- octave bands ------------------------------------------------------------

def judge_tables(ctx, prog):
    f = function(prog, "SciDataTool.Functions.fft_functions", "comp_nthoctave_axis")
    for n, table in ((3, THIRDS), (1, OCTAVES)):
        for lo, hi in ((10.0, 30000.0), (100, 1000), (101, 999), (24, 20000), (16, 16000)):
            it, st = Interp(prog, Shapes(prog)), State()
            ctx.count("octave axes")
            ctx.obligation()
            try:
                v, st = it.run(f, [V(C(n)), V(C(lo)), V(C(hi))], {}, st)
            except Raised:
                undecided(ctx, "1/%d octave axis fails" % n)
                continue
            i = single(v)
            ex = interp_elems(it, st, i)
            if ex is None:
                undecided(ctx, "1/%d octave axis gives %s" % (n, show(v)[:150]))
                continue
            want = [x for x in table if lo <= x <= hi]
            if ex != want:
                odd = sorted(set(ex) ^ set(want))
                ctx.report("table", "1/%d octave" % n, f.where(), "the 1/%d octave axis between %s and %s Hz %s" % (n, lo, hi, "differs from the standard at %s" % odd if odd else "is not in order"))


def interp_elems(it, st, i):
    if i is None:
        return None
    if is_arr(i) and i[3][:1] == ("array",):
        xs = i[3][1]
    else:
        ex = it.exact_elems(V(i), st)
        if ex is None or any(len(x) != 1 for x in ex):
            return None
        xs = [next(iter(x)) for x in ex]
    return [x[2] for x in xs] if all(is_c(x) for x in xs) else None


def edges(c):
    """(lower, upper) edges, as factors of the central frequencies, of the lines picked by a condition"""
    if is_arr(c):
        return edges(c[3])
    m = c[1:] if is_t(c) and c[1] in ("bin", "cmp") else c
    if is_t(c) and c[1] == "call" and c[2] == "numpy.logical_and" and len(c[4]) == 2:
        m = ("bin", "&") + tuple(c[4])
    if m[0] in ("logical_and",) and len(m) == 3:
        m = ("bin", "&") + m[1:]
    if is_t(c) and c[1] == "not":
        # freqs >= x is not (freqs < x)
        lo, hi = edges(c[2])
        return hi, lo
    if m[0] == "bin" and m[1] == "&":
        (a, b), (x, y) = edges(m[2]), edges(m[3])
        if a is not None and x is not None or b is not None and y is not None:
            raise NotAlgebraic("edges")
        return a if a is not None else x, b if b is not None else y
    if m[0] in ("cmp", "bin") and m[1] in ("<", "<=", ">", ">="):
        a, b = m[2], m[3]
        if m[1] in (">", ">="):
            a, b = b, a
        isf = [inner(x) == ("freqs",) for x in (a, b)]
        if sum(isf) != 1:
            raise NotAlgebraic("comparison")
        return (None, factor(b)) if isf[0] else (factor(a), None)
    raise NotAlgebraic("condition")


def factor(i):
    r = rational(i)
    if len(r.n.t) != 1 or set(r.d.t) != {()}:
        raise NotAlgebraic("edge")
    (m, c), = r.n.t.items()
    if len(m) != 1 or m[0][1] != 1:
        raise NotAlgebraic("edge")
    return m[0][0][2], float(c / r.d.t[()])


def judge_bands(ctx, prog):
    f = function(prog, CONVERSIONS, "to_noct")
    for n in (1, 3):
        o = LevelOracle(prog)
        it, st = Interp(prog, o), State()
        half = 2 ** (1 / (2 * n))
        what = "1/%d octave bands" % n
        ctx.count("bands", 3)
        ctx.obligation()
        try:
            v, st = it.run(f, [V(arr((N("freqs"),), ("values",))), V(arr((N("freqs"),), ("freqs",)))], {"noct": V(C(n))}, st)
        except Raised as e:
            undecided(ctx, "%s fail with %s" % (what, e.exc))
            continue
        if len(o.bands) != 3:
            undecided(ctx, "%s pick lines %d times" % (what, len(o.bands)))
            continue
        for k, c in enumerate(o.bands):
            try:
                lo, hi = edges(c)
            except (NotAlgebraic, IndexError, TypeError, ValueError) as e:
                undecided(ctx, "%s: %s in %s" % (what, e, str(c)[:200]))
                continue
            if lo is None or hi is None:
                undecided(ctx, "%s have one edge" % what)
                continue
            ctx.count("bands decided")
            his = [("c%d" % k, half)] + ([("c%d" % (k + 1), 1 / half)] if k < 2 else [])
            los = [("c%d" % k, 1 / half)] + ([("c%d" % (k - 1), half)] if k else [])
            for x, xs, side in ((lo, los, "starts"), (hi, his, "ends")):
                if not any(x[0] == y[0] and abs(x[1] / y[1] - 1) < 1e-9 for y in xs):
                    last = " (the last one)" if k == 2 else ""
                    ctx.report("band", "edges", f.where(), "a 1/%d octave band%s %s at %.4f of the central frequency%s instead of %.4f" % (n, last, side, x[1], "" if x[0] == "c%d" % k else " of another band", xs[0][1]))
        # lines of a band are combined as the root of their sum of squares
        for root in roots_of(it, st, v):
            if root != "rss":
                ctx.report("band", "combined", f.where(), "the lines of a 1/%d octave band are combined as %s instead of the root of their sum of squares" % (n, root))


def roots_of(it, st, v):
    """how the picked lines are combined"""
    seen, out = set(), set()

    def walk(i):
        if isinstance(i, frozenset):
            for x in i:
                walk(x)
            return
        if not isinstance(i, tuple) or i in seen:
            return
        seen.add(i)
        if i[:1] == ("o",) and len(i) > 1 and i[1] in st.heap:
            ob = st.heap[i[1]]
            for x in (ob.exact or ()):
                walk(x)
            return
        c = i
        if c[:1] == ("sqrt",) or c[:3] == ("t", "call", "numpy.sqrt"):
            x = c[1] if c[0] == "sqrt" else c[4][0] if c[4] else None
            x = x[2] if x is not None and is_t(x) and x[1] == "num" else x
            if isinstance(x, tuple) and x[:1] == ("red",) and isinstance(x[3], tuple):
                sq = x[3]
                if x[1] in ("sum", "nansum") and (sq[0] == "bin" and sq[1] == "**" and sq[3] in (C(2), C(2.0)) and sq[2][0] in ("picked", "abs") or sq[0] == "square" or sq[0] == "bin" and sq[1] == "*" and sq[2] == sq[3]):
                    out.add("rss")
                elif sq[0] == "picked" or x[1] in ("mean", "nanmean") and sq[0] == "bin" and sq[1] == "**":
                    out.add("the root of the %s of %s" % (x[1], "the lines" if sq[0] == "picked" else "their squares"))
                return
        if c[:1] == ("red",) and len(c) > 3 and isinstance(c[3], tuple) and c[3][0] == "picked" and c[1] in ("sum", "mean", "nansum", "nanmean", "max"):
            out.add("their " + c[1])
            return
        for x in i:
            walk(x)
    walk(v)
    return out


def run(ctx):
    prog = ctx.prog
    ctx.rule("levels and bands follow their definitions")
    for g in (judge_functions, judge_requests, judge_tables, judge_bands):
        g(ctx, prog)
    ctx.need("levels", 4)
    ctx.need("octave axes", 10)
