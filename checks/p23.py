"""P23: a change of referential displaces angles and frequencies as the rotation does, and nothing else"""

import ast
from fractions import Fraction

from sa.absint import C, NONE, TRUE, FALSE, U, UNKNOWN, Interp, Obj, Raised, State, V, is_c, is_t, term
from sa.algebra import Rat, NotAlgebraic, rat as rational
from sa.framework import AnalysisError
from sa.shapes import N, Shapes, arr, did, is_arr, is_n, is_one

from checks.p12 import undecided
from checks.p17 import function, method
from checks.p20 import a_field, an_axis

TECHNIQUE = "abstract interpretation of the change of referential to the formulas of the new frequencies and angles, compared as exact rational forms of frequency, wavenumber, angle, time and speed; layouts of positions and amplitudes compared"
NOTE = "the interpolation between samples and the tolerances on frequencies and amplitudes are not judged"

MODULE = "SciDataTool.Functions.change_referential"
F, R, T, A, VAL = ("freqs",), ("wavenumbers",), ("time",), ("angle",), ("values",)
SPEED = ("t", "in", "speed")


class Watched(Interp):
    """records the calls that sort frequencies"""
    def invoke(self, f, args, kw, st, node, extra_kw=None):
        if f.name == "unique_tol" and args:
            x = next(iter(args[0])) if len(args[0]) == 1 else U
            self.o.sorted.append(x)
            c = x[3] if is_arr(x) else None
            return V(("tu", (V(arr((N("new freqs", ("len", "new freqs")),), ("distinct", c))), V(arr((N(None, ("flat", 0)),), ("place", c)))))), st
        o = self.o
        if o.components is not None and f.name == "change_referential" and args and self.o.one(args[0]) in o.components:
            n = o.components[self.o.one(args[0])]
            o.changes.append((f, args, kw, n))
            ax = []
            for a, c in (("freqs", ("distinct",)), ("wavenumber", R)):
                d = N("new freqs" if a == "freqs" else "r")
                ax.append(an_axis(self, st, o.prog, name=a, tag="p23 " + str(n) + a, _values=V(arr((d,), c))))
            x = a_field(self, st, o.prog, "DataFreq", axes=ax, tag="p23 " + str(n), _values=V(arr((N("new freqs"), N("r")), ("lines of", n))))
            return V(("tu", (V(x),) + tuple(V(("t", "in", "shared", i)) for i in range(7)))), st
        if o.result is not None and f.name == "get_along":
            return V(self.new(st, ("p23 result",), Obj("dict", fields={C(k): V(x) for k, x in o.result.items()}))), st
        if o.result is not None and f.name in ("change_referential_spectrum", "change_referential_waveform"):
            d = dict(zip(f.params, args))
            d.update(kw)
            o.changes.append((f, d))
            if f.name.endswith("spectrum"):
                out = (arr((N("new freqs"), N("r")), ("lines",)), arr((N("new freqs"),), ("distinct",)), ("t", "in", "places"), ("t", "in", "couples"))
            else:
                out = (arr((N("t"), N("a")), ("samples",)), arr((N("t"),), T), arr((N("a"),), A), ("t", "in", "points"), ("t", "in", "places"))
            return V(("tu", tuple(V(x) for x in out))), st
        return Interp.invoke(self, f, args, kw, st, node, extra_kw)


class RotatingOracle(Shapes):
    def __init__(self, prog, is_complex=True):
        Shapes.__init__(self, prog)
        self.is_complex = is_complex
        self.result, self.components, self.changes = None, None, []
        self.sorted, self.gathered, self.grids, self.sets, self.shaped = [], [], [], [], []

    def truth(self, t, interp, st):
        x, r = t, repr(t)
        if "complex" in r and ("'dtype'" in r or "iscomplexobj" in r):
            if is_t(x) and x[1] == "not":
                y = self.truth(x[2], interp, st)
                return None if y is None else not y
            if is_t(x) and x[1] == "call" or is_t(x) and x[1] == "cmp" and x[2] in ("==", "is", "in"):
                return self.is_complex
            return not self.is_complex if is_t(x) and x[1] == "cmp" and x[2] in ("!=", "is not") else None
        if is_t(x) and x[1] == "cmp" and any(is_t(y) and y[1] == "lines chosen" for y in x[3:5]) and C(0) in x[3:5]:
            return {"==": False, "!=": True, "<=": x[3] == C(0), "<": x[3] == C(0)}.get(x[2])
        return Shapes.truth(self, t, interp, st)

    def attr(self, interp, st, b, name):
        if name == "size" and is_t(b) and b[1] in ("cmp", "not") and "'lines of'" in repr(b):
            return V(term("lines chosen", b))
        return Shapes.attr(self, interp, st, b, name)

    def one(self, v):
        return next(iter(v)) if len(v) == 1 else U

    def order(self, interp, st, v):
        """orders in which the points of an interpolation are counted"""
        out = set()
        for x in interp.exact_elems(v, st) or ():
            x = self.one(x)
            if is_arr(x):
                orders(x[3], out)
        return out.pop() if len(out) == 1 else None

    def flat(self, x, order):
        names = tuple(d[2] for d in x[2])
        return arr((N(None, ("flat", 0)),), ("flat", names[::-1] if order == "F" else names, x[3]))

    def method(self, interp, st, b, name, args, kw, node):
        if is_arr(b) and b[3][:1] == ("on grid",) and name == "reshape" and args:
            xs = [self.one(x) for x in (interp.exact_elems(args[0], st) or [] if len(args) == 1 else args)]
            if len(xs) == 2 and all(is_n(x) for x in xs) and self.const(kw.get("order", V(C("C")))) == "C":
                self.shaped.append((b[3][1], tuple(x[2] for x in xs)))
                return V(arr(xs, b[3]))
        if is_arr(b) and len(b[2]) > 1 and name == "reshape" and len(args) == 1 and not kw and self.const(args[0]) == -1:
            return V(self.flat(b, "C"))
        if is_arr(b) and len(b[2]) > 1 and name in ("ravel", "flatten"):
            o = self.const((list(args) + list(kw.values()) + [V(C("C"))])[0])
            return V(self.flat(b, o)) if o in ("C", "F") else UNKNOWN
        return Shapes.method(self, interp, st, b, name, args, kw, node)

    def call(self, interp, st, fn, args, kw, node):
        if is_t(fn) and fn[1] == "grid" and args:
            self.grids.append((fn[2], fn[3], self.one(args[0])))
            return V(arr((N(None, ("flat", 0)),), ("on grid", self.order(interp, st, args[0]))))
        if fn[0] == "x" and fn[1].startswith(("numpy", "scipy")):
            n = fn[1].split(".")[-1]
            xs = [self.one(a) for a in args]
            if n == "meshgrid" and len(xs) == 2 and all(is_arr(x) and len(x[2]) == 1 for x in xs):
                x, y = xs
                dims = (x[2][0], y[2][0]) if self.const(kw.get("indexing", V(C("xy")))) == "ij" else (y[2][0], x[2][0])
                return V(("tu", (V(arr(dims, x[3])), V(arr(dims, y[3])))))
            if n == "ravel" and xs and is_arr(xs[0]) and len(xs[0][2]) > 1:
                return self.method(interp, st, xs[0], n, args[1:], kw, node)
            if n == "bincount" and xs:
                w = self.one(kw["weights"]) if "weights" in kw else xs[1] if len(xs) > 1 else U
                self.gathered.append((xs[0], w))
                return V(arr((N("couples"),), ("gathered", w[3] if is_arr(w) else None)))
            if n == "zeros":
                # lines that stay at zero are not told from the others
                z = Shapes.call(self, interp, st, fn, args, kw, node)
                return frozenset(arr(i[2], ("lines",)) if is_arr(i) and i[2] and i[2][0][2] == "new freqs" else i for i in z) if z else z
            if n == "arange" and len(xs) == 1 and is_n(xs[0]):
                return V(arr((xs[0],), ("index", xs[0][2])))
            if n in ("tile", "repeat") and len(xs) == 2 and is_arr(xs[0]) and xs[0][3][:1] == ("index",) and is_n(xs[1]) and not kw:
                a, b = xs[0][3][1], xs[1][2]
                return V(arr((N(None, ("flat", 0)),), ("flat", (b, a) if n == "tile" else (a, b), xs[0][3])))
            if n in ("concatenate", "column_stack", "stack") and xs and xs[0][0] in ("tu", "o"):
                ex = interp.exact_elems(V(xs[0]), st)
                ys = [self.one(e) for e in ex] if ex is not None else []
                if len(ys) == 2 and all(is_arr(y) and (len(y[2]) == 1 and n != "concatenate" or len(y[2]) == 2 and is_one(y[2][1]) and n == "concatenate") for y in ys) and (n == "column_stack" or self.const(kw.get("axis", args[1] if len(args) > 1 else V(C(0)))) in (1, -1)):
                    return V(arr((N(None, ("flat", 0)), N("columns", (0, 2))), ("pairs", ys[0][3], ys[1][3])))
            if n == "unique" and xs and is_arr(xs[0]) and xs[0][3][0] == "pairs" and self.const(kw.get("return_inverse", V(FALSE))) is True and self.const(kw.get("axis", V(NONE))) == 0 and len(kw) == 2:
                c = xs[0][3]
                return V(("tu", (V(arr((N("couples"), N("columns", (0, 2))), ("distinct",) + c)), V(arr((N(None, ("flat", 0)),), ("place",) + c)))))
            if n == "RegularGridInterpolator" and len(xs) > 1:
                return V(term("grid", xs[0], xs[1]))
            if n in ("append",) and len(xs) > 1 and is_arr(xs[0]) and not is_arr(xs[1]) and len(xs[0][2]) == 1:
                return V(arr((N(xs[0][2][0][2], (1, 1)),), ("followed", xs[0][3], xs[1])))
        return Shapes.call(self, interp, st, fn, args, kw, node)

    def subscript(self, interp, st, b, node, f):
        r = Shapes.subscript(self, interp, st, b, node, f)
        if not is_arr(b) or not r or len(r) != 1 or r == UNKNOWN:
            return r
        i = self.one(r)
        c = b[3]
        if isinstance(c, tuple) and c[:2] == ("distinct", "pairs") and len(self.where) == 3 and is_c(self.where[1]) and self.where[0][0] == "slice":
            return V(arr(i[2], ("column", self.where[1][2] % 2, c[2:])))
        if c == VAL or isinstance(c, tuple) and c[:2] == ("at", VAL):
            got = tuple((d[2], w[2]) for d, w in zip([d for d, w in zip(b[2], [w for w in self.where if w != NONE])], [w for w in self.where if w != NONE]) if is_c(w) and isinstance(w[2], int) and d[2] is not None)
            cut = any(w[0] == "slice" and w[1:] not in ((None, None, None), (0, None, None)) for w in self.where)
            c = ("at", VAL, (c[2] if c != VAL else ()) + got) if not cut else ("part of", c)
            return V(arr(i[2], c) if is_arr(i) else term("value", c))
        return r

    def chosen(self, interp, st, d, i):
        if is_t(i) and i[1] in ("cmp", "not"):
            return did(d, ("mask", i), length=("len", i))
        return Shapes.chosen(self, interp, st, d, i)

    def store(self, interp, st, node, b, v, f):
        if is_arr(b) and isinstance(node, ast.Tuple):
            ks = [self.one(interp.ev(e, st, f)) if not isinstance(e, ast.Slice) else None for e in node.elts]
            if sum(1 for k in ks if k is not None and is_arr(k)) > 1:
                # positions taken together
                self.sets.append((b, tuple(k[3] if k is not None and is_arr(k) else None for k in ks), v))
                return V(arr(b[2], ("lines",)))
        r = Shapes.store(self, interp, st, node, b, v, f)
        if is_arr(b):
            self.sets.append((b, self.where, v))
        return r



def orders(c, out):
    if isinstance(c, tuple):
        if c[:1] == ("flat",):
            out.add(c[1])
        for x in c:
            orders(x, out)


def formula(c):
    """content of an array as a rational form of its inputs"""
    def t(c):
        if isinstance(c, tuple) and c[:1] == ("flat",):
            return t(c[2])
        if isinstance(c, tuple) and c[:1] == ("bin",):
            return term("bin", c[1], t(c[2]), t(c[3]))
        if isinstance(c, tuple) and c[:2] == ("t", "bin"):
            return term("bin", c[2], t(c[3]), t(c[4]))
        if isinstance(c, tuple) and len(c) == 1:
            return ("t", "in", c[0])
        if isinstance(c, tuple) and c[:1] == ("neg",):
            return term("bin", "*", C(-1), t(c[1]))
        return c
    return rational(t(c))


def sample(name, k):
    return term("sample", ("part", (name,)), (C(k),))


def known(r, *extra):
    """is a form made of the inputs of a change of referential only"""
    return all(a in [("t", "in", n) for n in ("freqs", "wavenumbers", "time", "angle", "speed")] + [("x", "numpy.pi"), ("x", "math.pi"), ("t", "in", "pi")] or is_t(a) and a[1] == "sample" for a in r.n.atoms() | r.d.atoms())


def bin_(op, a, b):
    return term("bin", op, a, b)


def judge_spectrum(ctx, prog):
    ctx.rule("each line is displaced by its wavenumber times the speed in turns per second")
    f = function(prog, MODULE, "change_referential_spectrum")
    want = rational(bin_("+", ("t", "in", "freqs"), bin_("/", bin_("*", ("t", "in", "wavenumbers"), SPEED), C(60))))
    for rank in (2, 3):
        for atol, is_complex in ((C(0), True), (C(0), False), (C(1e-9), True)):
            ctx.count("cases")
            ctx.obligation()
            what = "in a %s spectrum of %d axes" % ("complex" if is_complex else "real", rank)
            o = RotatingOracle(prog, is_complex)
            it, st = Watched(prog, o), State()
            dims = [N("f"), N("r"), N("s")][:rank]
            try:
                v, st = it.run(f, [V(arr((N("f"),), F)), V(arr((N("r"),), R)), V(SPEED), V(arr(dims, VAL))], {"freqs_new": V(arr((N(None, (0, 0)),), ("none",))), "atol": V(atol)}, st)
            except Raised as e:
                undecided(ctx, "%s: fails with %s" % (what, e.exc))
                continue
            done = True
            layouts = set()
            for x in o.sorted:
                if not is_arr(x):
                    done = undecided(ctx, "%s: frequencies %s" % (what, str(x)[:200]))
                    continue
                orders(x[3], layouts)
                try:
                    r = formula(x[3])
                    if not known(r):
                        raise NotAlgebraic("other inputs")
                except NotAlgebraic as e:
                    done = undecided(ctx, "%s: frequencies %s" % (what, e))
                    continue
                if not r == want:
                    ctx.report("spectrum", "frequencies", f.where(), "%s the frequencies become %s instead of freqs + wavenumbers * speed / 60" % (what, said(r)))
            if not o.sorted or not o.gathered:
                done = undecided(ctx, "%s: no frequencies are gathered" % what)
            for p, w in o.gathered:
                if not is_arr(p) or not is_arr(w) or p[3][:2] != ("place", "pairs"):
                    done = undecided(ctx, "%s: amplitudes gathered by %s" % (what, str(p)[:200]))
                    continue
                a, b = p[3][2:]
                if a[:1] == ("flat",) and b[:1] == ("place",):
                    a, b = b, a
                if a[:1] != ("place",) or b[:1] != ("flat",) or b[2] not in (("index", "r"), ("index", "f")):
                    done = undecided(ctx, "%s: places %s" % (what, str(p[3])[:200]))
                    continue
                if b[2] != ("index", "r"):
                    ctx.report("spectrum", "places", f.where(), "%s lines are placed by another axis than the wavenumbers" % what)
                orders(b, layouts)
                orders(w[3], layouts)
            if len(layouts) > 1:
                ctx.report("spectrum", "layout", f.where(), "%s frequencies, wavenumbers and amplitudes are not counted in the same order: %s" % (what, " and ".join(sorted("by " + " then ".join(str(n) for n in l) for l in layouts))))
            for b, at, w in o.sets:
                if not any(isinstance(k, tuple) and k[:1] == ("column",) for k in at):
                    continue
                cols = [k for k in at if isinstance(k, tuple) and k[:1] == ("column",)]
                # the place of a frequency is one column, that of a wavenumber the other
                for d, k in zip(b[2], at):
                    if isinstance(k, tuple) and k[:1] == ("column",):
                        source = k[2][k[1]]
                        if (source[:1] == ("place",)) != (d[2] == "new freqs"):
                            ctx.report("spectrum", "places", f.where(), "%s amplitudes are put at the place of frequencies along wavenumbers" % what)
                kinds = {whole(i[3]) if is_arr(i) else None for i in w}
                if None not in kinds and "whole" not in kinds and is_complex:
                    ctx.report("spectrum", "amplitudes", f.where(), "%s the amplitudes become %s" % (what, " and ".join(sorted(kinds))))
            for i in v:
                if i[0] == "tu" and len(i[1]) > 1:
                    if all(is_arr(a) for x in i[1][:2] for a in x):
                        if not {a[2][0][3:] for a in i[1][0]} & {a[2][0][3:] for a in i[1][1]}:
                            ctx.report("spectrum", "selection", f.where(), "%s lines and frequencies are not selected alike" % what)
                        continue
                if True:
                    done = undecided(ctx, "%s: result %s" % (what, str(i)[:200]))
            if done:
                ctx.count("cases decided")


def whole(c):
    """part of the amplitudes that a sum of gathered ones holds, None when it cannot be told"""
    if c[:1] == ("gathered",):
        w = c[1]
        if w is None:
            return None
        return {"real": "their real part", "imag": "their imaginary part"}.get(w[0]) or ("whole" if w[0] == "flat" and w[2][:2] in (("at", VAL), ("part", VAL)) or w == VAL else None)
    if c[:1] == ("bin",) and c[1] in ("+", "-"):
        a, b = c[2], c[3]
        ks = []
        for x in (a, b):
            if x[:2] == ("bin", "*"):
                y = [z for z in x[2:] if z != ("c", "complex", 1j)]
                if len(y) != 1 or whole(y[0]) != "their imaginary part":
                    return None
                ks.append("i")
            elif whole(x) == "their real part":
                ks.append("r")
            else:
                return None
        if c[1] == "-":
            return "their conjugate" if ks == ["r", "i"] else None
        return "whole" if sorted(ks) == ["i", "r"] else None
    return None


def said(r):
    def poly(p):
        out = []
        for m, k in sorted(p.t.items(), key=repr):
            names = [(a[2] if a[:2] == ("t", "in") else "pi" if a[0] == "x" else "%s[%s]" % (a[2][1][0], a[3][0][2])) + ("**%s" % e if e != 1 else "") for a, e in m]
            out.append(" * ".join(([str(k)] if k != 1 or not names else []) + names))
        return " + ".join(out) or "0"
    return "(%s) / (%s)" % (poly(r.n), poly(r.d))


def judge_waveform(ctx, prog):
    ctx.rule("each sample is taken at its angle displaced by the rotation reached at its time, within the extent of the angles")
    f = function(prog, MODULE, "change_referential_waveform")
    pi = ("x", "numpy.pi")
    want = rational(bin_("+", ("t", "in", "angle"), bin_("*", bin_("/", bin_("*", bin_("*", C(2), pi), SPEED), C(60)), ("t", "in", "time"))))
    end = {n: rational(bin_("-", bin_("+", sample(n, -1), sample(n, 1)), sample(n, 0))) for n in ("time", "angle")}
    for rank in (2, 3):
        for aper in ((FALSE, FALSE), (TRUE, FALSE), (FALSE, TRUE), (TRUE, TRUE)):
            ctx.count("cases")
            ctx.obligation()
            what = "in a waveform of %d axes%s" % (rank, "".join(" antiperiodic along " + n for n, a in zip(("angle", "time"), aper) if a == TRUE))
            o = RotatingOracle(prog)
            it, st = Watched(prog, o), State()
            dims = [N("t"), N("a"), N("s")][:rank]
            try:
                v, st = it.run(f, [V(arr(dims, VAL)), V(arr((N("t"),), T)), V(arr((N("a"),), A)), V(SPEED), V(aper[0]), V(aper[1])], {}, st)
            except Raised as e:
                undecided(ctx, "%s: fails with %s" % (what, e.exc))
                continue
            done = bool(o.grids) or undecided(ctx, "%s: no interpolation" % what)
            for points, values, at in o.grids:
                try:
                    ps = [o.one(x) for x in it.exact_elems(V(points), st) or ()]
                    xs = [o.one(x) for x in it.exact_elems(V(at), st) or ()]
                    if len(ps) != 2 or len(xs) != 2 or not all(is_arr(x) for x in ps + xs) or any(x[3][:1] != ("followed",) or x[3][1] not in (T, A) for x in ps):
                        raise NotAlgebraic("grid")
                    names = [p[3][1][0] for p in ps]
                    for p, n in zip(ps, names):
                        r = formula(p[3][2])
                        if not known(r):
                            raise NotAlgebraic("end of the axis")
                        if not r == end[n]:
                            ctx.report("waveform", n, f.where(), "%s the %s axis is taken to end at %s" % (what, n, said(r)))
                    for x, n in zip(xs, names):
                        c = x[3]
                        if n == "angle":
                            if c[:2] == ("bin", "%"):
                                m = formula(c[3])
                                if not known(m):
                                    raise NotAlgebraic("extent")
                                if not m == end["angle"]:
                                    ctx.report("waveform", "extent", f.where(), "%s angles are brought back by %s instead of the extent of their axis" % (what, said(m)))
                                c = c[2]
                                r = formula(c)
                                if not known(r):
                                    raise NotAlgebraic("angles")
                            else:
                                r = formula(c)
                                if not known(r):
                                    raise NotAlgebraic("angles")
                                ctx.report("waveform", "extent", f.where(), "%s angles are not brought back to the extent of their axis" % what)
                            if not r == want:
                                ctx.report("waveform", "angles", f.where(), "%s the angles become %s instead of angle + 2 * pi * speed / 60 * time" % (what, said(r)))
                        elif not formula(c) == rational(("t", "in", "time")):
                            if not known(formula(c)):
                                raise NotAlgebraic("times")
                            ctx.report("waveform", "times", f.where(), "%s the times become %s" % (what, said(formula(c))))
                except (NotAlgebraic, IndexError, TypeError) as e:
                    done = undecided(ctx, "%s: %s %s" % (what, e, str((points, at))[:200]))
            for order, shape in o.shaped:
                if order is not None and order != shape and set(order) == set(shape):
                    ctx.report("waveform", "layout", f.where(), "%s samples counted by %s then %s are laid out by %s then %s" % ((what,) + order + shape))
            for b, where, w in o.sets:
                if tuple(d[2] for d in b[2]) != ("t", "a") or b[2][0][3] != (1, 1):
                    continue
                last = [d[2] for d, k in zip(b[2], where) if k == C(-1)]
                for i in w:
                    c = i[3] if is_arr(i) else i[2] if is_t(i) and i[1] == "value" else None
                    if not last or c is None or c[:2] != ("at", VAL):
                        continue
                    got = dict(c[2])
                    for n in last:
                        if n in got and got[n] != 0:
                            ctx.report("waveform", "border", f.where(), "%s the border along %s repeats sample %d instead of the first" % (what, {"t": "time", "a": "angle"}[n], got[n]))
                    if set(got) & {"t", "a"} and set(got) & {"t", "a"} != set(last):
                        ctx.report("waveform", "border", f.where(), "%s the border along %s repeats samples of another axis" % (what, " and ".join({"t": "time", "a": "angle"}[n] for n in last)))
            for i in v:
                xs = i[1][:3] if i[0] == "tu" else ()
                if len(xs) != 3 or not all(is_arr(a) for x in xs for a in x):
                    done = undecided(ctx, "%s: result %s" % (what, str(i)[:200]))
                    continue
                for k, n in enumerate(("time", "angle")):
                    if not {a[2][k][3] for a in xs[0]} & {a[2][0][3] for a in xs[k + 1]}:
                        ctx.report("waveform", "lengths", f.where(), "%s values along %s and its points are not as many" % (what, n))
            if done:
                ctx.count("cases decided")


def factor(c):
    """number by which lines are multiplied, None when it cannot be told"""
    if c[:1] in (("part",), ("at",)):
        return factor(c[1])
    if c == ("lines",):
        return Fraction(1)
    if c[:1] == ("bin",) and c[1] in ("*", "/"):
        a, b = c[2], c[3]
        if c[1] == "*" and is_c(a):
            a, b = b, a
        x = factor(a)
        if x is None or not is_c(b) or isinstance(b[2], bool) or not isinstance(b[2], (int, float)) or b[2] == 0:
            return None
        return x * Fraction(b[2]) if c[1] == "*" else x / Fraction(b[2])
    return None


def judge_field(ctx, prog):
    ctx.rule("fields are given to the change of referential and their lines counted once")
    f = method(prog, "DataND", "change_referential")
    wanted = {"change_referential_spectrum": (F, R, SPEED, VAL), "change_referential_waveform": (VAL, T, A, SPEED)}
    for cls, names in (("DataTime", ("time", "angle")), ("DataFreq", ("freqs", "wavenumber"))):
        for is_real in (True, False):
            for waveform in ((False, True) if cls == "DataTime" else (False,)):
                ctx.count("cases")
                ctx.obligation()
                what = "for a %s %s changed as a %s" % ("real" if is_real else "complex", "waveform" if cls == "DataTime" else "spectrum", "waveform" if waveform else "spectrum")
                o = RotatingOracle(prog, not waveform)
                it, st = Watched(prog, o), State()
                o.result = {"freqs": arr((N("f"),), F), "wavenumber": arr((N("r"),), R), "time": arr((N("t"),), T), "angle": arr((N("a"),), A),
                            "B": arr((N("t"), N("a")) if waveform else (N("f"), N("r")), VAL)}
                me = a_field(it, st, prog, cls, axes=[an_axis(it, st, prog, name=n) for n in names], _is_real=V(C(is_real)))
                try:
                    v, st = it.run(f, [V(me), V(SPEED), V(C(waveform))], {}, st)
                except Raised as e:
                    undecided(ctx, "%s: fails with %s" % (what, e.exc))
                    continue
                done = bool(o.changes) or undecided(ctx, "%s: no change of referential" % what)
                for g, d in o.changes:
                    if g.name.endswith("waveform") != waveform:
                        ctx.report("field", "domain", f.where(), "%s the other change is made" % what)
                    for p, w in zip(g.params, wanted[g.name]):
                        x = o.one(d.get(p, UNKNOWN))
                        c = x[3] if is_arr(x) else x
                        if c == w:
                            continue
                        try:
                            r = formula(c)
                            if not known(r) and c != VAL:
                                raise NotAlgebraic("other inputs")
                            if not r == formula(w):
                                ctx.report("field", "arguments", f.where(), "%s the %s given are %s" % (what, {F: "frequencies", R: "wavenumbers", T: "times", A: "angles", VAL: "values", SPEED: "speed"}[w], said(r)))
                        except (NotAlgebraic, TypeError, IndexError):
                            done = undecided(ctx, "%s: %s %s" % (what, p, str(c)[:200]))
                for i in v:
                    for d in i[1][0] if i[0] == "tu" and i[1] else ():
                        if d[0] != "o" or st.heap[d[1]].cls is None:
                            done = undecided(ctx, "%s: result %s" % (what, str(d)[:100]))
                            continue
                        fields = st.heap[d[1]].fields
                        if st.heap[d[1]].cls.name != ("DataTime" if waveform else "DataFreq"):
                            ctx.report("field", "class", f.where(), "%s the result is a %s" % (what, st.heap[d[1]].cls.name))
                        x = o.one(fields.get("_values", UNKNOWN))
                        if not is_arr(x):
                            done = undecided(ctx, "%s: values %s" % (what, str(x)[:100]))
                            continue
                        for a in fields.get("_axes", ()):
                            ex = [o.one(e) for e in it.exact_elems(V(a), st) or ()]
                            if len(ex) != len(x[2]):
                                continue
                            for e, n in zip(ex, x[2]):
                                y = o.one(st.heap[e[1]].fields.get("_values", UNKNOWN)) if e[0] == "o" else U
                                if is_arr(y) and len(y[2]) == 1 and y[2][0][3:] != n[3:]:
                                    ctx.report("field", "selection", f.where(), "%s the values along an axis are not selected as its points" % what)
                                w = {"r": R, "t": T, "a": A}.get(n[2])
                                try:
                                    if is_arr(y) and w is not None and known(formula(y[3])) and not formula(y[3]) == formula(w):
                                        ctx.report("field", "points", f.where(), "%s the %s become %s" % (what, w[0], said(formula(y[3]))))
                                except (NotAlgebraic, TypeError, IndexError):
                                    done = undecided(ctx, "%s: points %s" % (what, str(y[3])[:200]))
                        if waveform:
                            continue
                        c, sets = x[3], []
                        while c[:1] == ("set",) and c[1] != "elements":
                            sets.append((c[2], c[4][0] if c[4] else None))
                            c = c[1]
                        ks = [factor(c)] + [factor(s) if isinstance(s, tuple) else None for s, _ in sets]
                        if None in ks:
                            done = undecided(ctx, "%s: lines %s" % (what, str(x[3])[:200]))
                            continue
                        ok = {Fraction(1), Fraction(2)} if is_real and cls == "DataTime" else {Fraction(1)}
                        if set(ks) != ok:
                            ctx.report("field", "amplitudes", f.where(), "%s the amplitudes are multiplied by %s instead of %s" % (what, " and ".join(map(str, sorted(set(ks)))), " and ".join(map(str, sorted(ok)))))
                        for (s, at), k in zip(sets, ks[1:]):
                            if k != ks[0] and at is not None and is_c(at):
                                ctx.report("field", "zero line", f.where(), "%s the line of index %s is multiplied by %s whatever its frequency, the others by %s" % (what, at[2], k, ks[0]))
                        if is_real != any(o_[:1] == ("mask",) for o_ in x[2][0][4]) and not (x[2][0][4] and is_real):
                            ctx.report("field", "negative frequencies", f.where(), "%s lines of negative frequency are %s" % (what, "kept" if is_real else "left out"))
                        if is_real and cls == "DataFreq" and x[2][0][2] == "new freqs" and x[2][0][4]:
                            # a real spectrum holds one of each two opposite lines
                            ctx.report("field", "lines of real spectra", f.where(), "%s lines whose frequency becomes negative are left out instead of being replaced by their opposites" % what)
                if done:
                    ctx.count("cases decided")


def judge_vector(ctx, prog):
    ctx.rule("no component of a vector field loses the lines that only it has")
    f = method(prog, "VectorField", "change_referential")
    for waveform in (False, True):
        ctx.count("cases")
        ctx.obligation()
        what = "for a vector field changed as a %s" % ("waveform" if waveform else "spectrum")
        o = RotatingOracle(prog)
        it, st = Watched(prog, o), State()
        names = ("radial", "tangential")
        fields = [a_field(it, st, prog, "DataTime", tag=n) for n in names]
        o.components = dict(zip(fields, names))
        comps = it.new(st, ("p23 components",), Obj("dict", fields={C(n): V(x) for n, x in zip(names, fields)}))
        me = it.instance(st, prog.classes["VectorField"], "vector", {"_name": V(C("B")), "_symbol": V(C("B")), "_components": V(comps), "parent": V(NONE)})
        try:
            v, st = it.run(f, [V(me), V(SPEED), V(C(waveform))], {}, st)
        except Raised as e:
            undecided(ctx, "%s: fails with %s" % (what, e.exc))
            continue
        done = True
        for g, args, kw, n in o.changes:
            d = dict(zip(g.params, args))
            d.update(kw)
            for p, w in (("rotation_speed", SPEED), ("is_waveform", C(waveform))):
                x = o.one(d.get(p, UNKNOWN))
                if x != w and (is_c(x) or is_t(x) and x[1] == "bin"):
                    ctx.report("vector", "arguments", f.where(), "%s the component %s is changed with another %s" % (what, n, "speed" if w == SPEED else "domain"))
        for i in v:
            c = [x for x in st.heap[i[1]].fields.get("_components", ())] if i[0] == "o" else []
            found = {}
            for x in c:
                if x[0] == "o":
                    found.update(st.heap[x[1]].fields)
            for n in names:
                xs = found.get(C(n))
                if xs is None:
                    done = undecided(ctx, "%s: component %s" % (what, n))
                    continue
                for x in {x for d in xs for x in (st.heap[d[1]].fields.get("_values", UNKNOWN) if d[0] == "o" else UNKNOWN)}:
                    if not is_arr(x):
                        done = undecided(ctx, "%s: values %s" % (what, str(x)[:300]))
                        continue
                    if "('lines of', '%s')" % n not in repr(x[3]):
                        ctx.report("vector", "component", f.where(), "%s the component %s is not its own" % (what, n))
                    for m in x[2][0][4]:
                        by = [k for k in names if "('lines of', '%s')" % k in repr(m)]
                        if m[:1] == ("mask",) and by and n not in by:
                            ctx.report("vector", "lines of one component", f.where(), "%s lines of the component %s are left out when the component %s lacks them" % (what, n, " and ".join(by)))
        if done:
            ctx.count("cases decided")


def run(ctx):
    judge_vector(ctx, ctx.prog)
    judge_spectrum(ctx, ctx.prog)
    judge_waveform(ctx, ctx.prog)
    judge_field(ctx, ctx.prog)
    ctx.need("cases", 12)
