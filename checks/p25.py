"""P25: a reduction follows its definition, and over one period or antiperiod gives the result for the rebuilt axis"""

from fractions import Fraction

from sa.absint import C, FALSE, U, UNKNOWN, Interp, Obj, Raised, State, V, is_c, is_t, show, term
from sa.algebra import ONE as POLY_ONE
from sa.algebra import NotAlgebraic, Poly, Rat, atom, number
from sa.shapes import N, arr, is_arr, linear

from checks.p12 import DUAL, RequestOracle, undecided
from checks.p17 import method, single
from checks.p20 import a_field, an_axis, norm

TECHNIQUE = "abstract interpretation of the request pipeline to the formula of the reduced values, compared as exact rational forms of sums, integrals and extrema with their definitions"
NOTE = "numpy reductions are atoms of the formulas; antiperiods of odd order are not judged, and how a spectrum is computed is not judged here"

PHYSICAL = ("time", "angle")
SUMS = ("nansum", "sum")
MEANS = ("nanmean", "mean", "average")
MAX, MIN = ("nanmax", "max", "amax"), ("nanmin", "min", "amin")


def tidy(p):
    """squares of magnitudes of real values are squares of the values"""
    out = {}
    for m, c in p.t.items():
        d = dict(m)
        for a in [a for a in d if isinstance(a, tuple) and a[0] == "abs"]:
            e = d.pop(a)
            if e % 2:
                d[a] = 1
            if e - e % 2:
                d[a[1]] = d.get(a[1], 0) + e - e % 2
        k = tuple(sorted(((a, e) for a, e in d.items() if e), key=repr))
        out[k] = out.get(k, 0) + c
    return Poly(out)


def flat(r):
    """numerator of a form whose denominator is a number"""
    if set(r.d.t) != {()}:
        raise NotAlgebraic("quotient inside a reduction")
    d = r.d.t[()]
    return tidy(Poly({m: c / d for m, c in r.n.t.items()}))


def magnitude(r):
    p = flat(r)
    if not p.t:
        return number(0)
    if len(p.t) != 1:
        raise NotAlgebraic("magnitude of a sum")
    (m, c), = p.t.items()
    x = number(abs(c))
    for a, e in m:
        b = atom(a) if e % 2 == 0 or isinstance(a, tuple) and a[0] in ("abs", "power") else atom(("abs", a))
        x = x * b.power(e)
    return Rat(tidy(x.n), x.d)


class Forms:
    """rational forms of the reduced values, for an axis stored over one of `count` parts"""

    def __init__(self, axis, count, given=("values",), length=None):
        self.axis, self.count, self.given, self.length = axis, count, given, length

    # values along the axis: the forms of the parts following one another
    def blocks(self, c):
        """([form of each part], are they repeated to the whole axis)"""
        if is_c(c):
            return [number(c[2])], False
        if not isinstance(c, tuple) or not c:
            raise NotAlgebraic(repr(c))
        k = c[0]
        if c == self.given:
            return [atom("v")], False
        if k == "t" and c[1] == "view":
            return self.blocks(c[2])
        if k == "t" and c[1] in ("bin", "neg"):
            return self.blocks(c[1:])
        if k in ("part",):
            return self.blocks(c[1])
        if k == "repeated":
            b, rep = self.blocks(c[1])
            if rep:
                raise NotAlgebraic("repeated twice")
            return b, True
        if k == "join":
            out = []
            for x in c[1:]:
                b, rep = self.blocks(x)
                if rep:
                    raise NotAlgebraic("joined to repeated values")
                out += b
            return out, False
        if k in ("neg", "negative"):
            b, rep = self.blocks(c[1])
            return [number(-1) * x for x in b], rep
        if k == "abs":
            b, rep = self.blocks(c[1])
            return [magnitude(x) for x in b], rep
        if k == "square":
            b, rep = self.blocks(c[1])
            return [x * x for x in b], rep
        if k == "bin":
            a, r1 = self.blocks(c[2])
            b, r2 = self.blocks(c[3])
            if len(a) == 1 and not r1:
                a = a * len(b)
            if len(b) == 1 and not r2:
                b = b * len(a)
            if len(a) != len(b):
                raise NotAlgebraic("parts")
            return [self.arith(c[1], x, y) for x, y in zip(a, b)], r1 or r2
        raise NotAlgebraic(str(k))

    def arith(self, op, x, y):
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "/":
            return x / y
        if op == "**":
            k = y.const()
            if k is not None and k.denominator == 1 and abs(k) <= 8:
                return x.power(int(k))
            if x.const() is not None and k is None:
                return atom(("power", x.const(), tuple(sorted(flat(y).t.items(), key=repr))))
        raise NotAlgebraic(op)

    def linear(self, kind, r):
        out = Rat(Poly())
        for m, c in flat(r).t.items():
            out = out + number(c) * (atom((kind, m)) if m or kind != "S" else atom("n"))
        return out

    def total(self, c):
        b, rep = self.blocks(c)
        out = Rat(Poly())
        for x in b:
            out = out + self.linear("S", x)
        return out * number(Fraction(self.count, len(b)) if rep else 1), number(Fraction(self.count) if rep else len(b)) * atom("n")

    def leaves(self, c):
        """what is written one after the other in an array"""
        if isinstance(c, tuple) and c:
            if c[0] == "zero":
                return []
            if c[0] == "set" and len(c) >= 3:
                return self.leaves(c[1]) + self.leaves(c[2])
            if c[0] == "part":
                return self.leaves(c[1])
            if c[:2] == ("t", "sample"):
                return self.leaves(c[2])
            if c[0] == "join":
                return [y for x in c[1:] for y in self.leaves(x)]
        b, rep = self.blocks(c)
        if rep or len(b) != 1:
            raise NotAlgebraic("integral of rebuilt values")
        return b

    def integral(self, c, x):
        try:
            q = self.sequence(c)
            b = [f for _, f in q]
            if len(q) == 2 and q[0][0] == "body" and q[1][0] not in ("body", 0):
                return atom(("I", "closed by sample %s" % q[1][0], ""))
        except NotAlgebraic:
            b = self.leaves(c)
        if not b:
            return number(0)
        closed = len(b) > 1
        if len(b) > 2:
            raise NotAlgebraic("integral of several parts")
        if x is None:
            raise NotAlgebraic("integral without abscissae")
        if closed != self.closed(x):
            raise NotAlgebraic("abscissae of the integral")
        if closed and flat(b[0] - b[1]).t:
            return atom(("I", "closed by another value", repr(b[1].n.t)))
        return self.linear("I" if closed else "open I", b[0])

    def closed(self, x):
        """do the abscissae end with the first sample of the next period (they are taken as positive)"""
        if x[:1] == ("abs",):
            return self.closed(x[1])
        if x[:1] == ("axis",):
            return False
        if x[0] == "join" and len(x) == 3 and x[1][:1] == ("axis",) and x[2][:1] == ("array",) and len(x[2][1]) == 1:
            r = self.abscissa(x[2][1][0])
            if r == atom("x0") + atom("n") * atom("h"):
                return True
            self.wrong = "an integral closed at another abscissa than the first one of the next period"
            return True
        raise NotAlgebraic("abscissae")

    wrong = None

    def abscissa(self, i):
        """an abscissa of the uniform axis x0 + k h"""
        if is_c(i):
            return number(i[2])
        if is_t(i) and i[1] == "bin":
            return self.arith(i[2], self.abscissa(i[3]), self.abscissa(i[4]))
        if is_t(i) and i[1] == "neg":
            return number(-1) * self.abscissa(i[2])
        if is_t(i) and i[1] == "sample" and len(i[3]) == 1 and is_c(i[3][0]) and type(i[3][0][2]) is int:
            c, k = i[2], i[3][0][2]
            if c == ("part", ("axis", self.axis)):
                return atom("x0") + atom("h") * (number(k) if k >= 0 else atom("n") + number(k))
            if c[0] == "part" and c[1][:1] == ("join",) and self.closed(c[1]) and k in (0, -1):
                return atom("x0") + (atom("h") * atom("n") if k else number(0))
        if is_t(i) and i[1] == "num" and i[2][0] == "red" and len(i[2]) == 4 and i[2][1] in MAX + MIN:
            k, closed = i[2][1] in MAX, self.closed(i[2][3])
            return atom("x0") + (atom("h") * (atom("n") if closed else atom("n") - number(1)) if k else number(0))
        if is_t(i) and i[1] in ("number", "n"):
            return self.size(i)
        raise NotAlgebraic("abscissa")

    def size(self, i):
        d = i[2] if i[1] == "number" else i
        if is_t(d) and d[1] == "n" and self.length is not None:
            if d[3] == self.length:
                return atom("n")
            raise NotAlgebraic("size")
        if is_t(d) and d[1] == "n" and linear(d[3]):
            return number(d[3][0]) * atom("n") + number(d[3][1])
        raise NotAlgebraic("size")

    # reduced values
    def reduced(self, c):
        if is_c(c):
            return number(c[2])
        if not isinstance(c, tuple) or not c:
            raise NotAlgebraic(repr(c))
        if c[0] == "t" and c[1] in ("bin", "neg") :
            try:
                return self.abscissa(c)
            except NotAlgebraic:
                return self.reduced(c[1:])
        if c[0] == "t" and c[1] == "view":
            return self.reduced(c[2])
        if c[0] == "t":
            return self.abscissa(c)
        if c[0] == "zero":
            return number(0)
        if c[0] == "part":
            return self.reduced(c[1])
        if c[0] in ("neg", "negative"):
            return number(-1) * self.reduced(c[1])
        if c[0] == "bin" and c[1] in "+-**/":
            return self.arith(c[1], self.reduced(c[2]), self.reduced(c[3]))
        if c[0] == "red" and c[2] == (self.axis,):
            if c[1] in SUMS and len(c) == 4:
                return self.total(c[3])[0]
            if c[1] in MEANS and len(c) == 4:
                s, n = self.total(c[3])
                return s / n
            if c[1] == "trapz":
                return self.integral(c[3], c[4] if len(c) > 4 else None)
        raise NotAlgebraic(str(c[0]))

    def extrema(self, c, up=True):
        """{(is it a maximum, form, sign)} whose largest (up) or lowest is taken"""
        if c[0] == "bin" and c[1] in ("max", "min"):
            if (c[1] == "max") != up:
                raise NotAlgebraic("extremum of the other kind")
            return self.extrema(c[2], up) | self.extrema(c[3], up)
        if c[0] == "part":
            return self.extrema(c[1], up)
        if c[0] in ("neg", "negative"):
            return {(k, x, -s) for k, x, s in self.extrema(c[1], not up)}
        if c[0] == "red" and c[2] == (self.axis,) and len(c) == 4 and c[1] in MAX + MIN:
            if (c[1] in MAX) != up:
                return {("other",)}
            out = set()
            for r in self.blocks(c[3])[0]:
                p = flat(r)
                if len(p.t) != 1:
                    raise NotAlgebraic("extremum of a sum")
                (m, k), = p.t.items()
                if k not in (1, -1):
                    raise NotAlgebraic("scaled extremum")
                # the largest of -v is minus the lowest of v
                out.add((up if k > 0 else not up, m, int(k)))
            return out
        raise NotAlgebraic(str(c[0]))


    # values along the axis computed from their neighbours
    def sequence(self, c):
        """what follows one another along the axis: ("body", form), (index of the sample, form) or an abscissa"""
        if c[0] == "set":
            places, base = [], c
            while base[0] == "set":
                w = base[4] if len(base) > 4 else None
                if not w:
                    raise NotAlgebraic("stored anywhere")
                places.append((w[0], base[2]))
                base = base[1]
            if base != ("zero",):
                raise NotAlgebraic("stored over other values")
            head, body, tail = [], None, []
            for w, x in reversed(places):
                if w == C(0):
                    head = self.sequence(x)
                elif w == C(-1):
                    tail = self.sequence(x)
                elif w[0] == "slice" and w[3] in (None, 1) and body is None:
                    body, lo, hi = self.sequence(x), w[1] or 0, w[2] or 0
                else:
                    raise NotAlgebraic("stored elsewhere")
            if body is None or len(head) != lo or len(tail) != -hi:
                raise NotAlgebraic("stored in part")
            return head + body + tail
        if c[0] == "join":
            return [y for x in c[1:] for y in self.sequence(x)]
        if c[0] == "axis":
            return [("axis", None)]
        if c[0] == "array" and isinstance(c[1], tuple):
            return [("at", self.abscissa(x)) for x in c[1]]
        if c[:2] == ("t", "sample") and len(c) > 3 and len(c[3]) == 1 and is_c(c[3][0]):
            if c[2] == ("part", ("axis", self.axis)):
                return [("at", self.abscissa(c))]
            return [(c[3][0][2], f) for f in self.blocks(c[2])[0]]
        m = c[1:] if c[:2] == ("t", "bin") else c
        if m[0] == "bin":
            if is_c(m[3]) and m[1] in ("*", "/", "**"):
                return [(k, self.arith(m[1], f, number(m[3][2]))) for k, f in self.sequence(m[2])]
            if is_c(m[2]) and m[1] == "*":
                return [(k, number(m[2][2]) * f) for k, f in self.sequence(m[3])]
        if c[:2] == ("t", "neg") or c[0] in ("neg", "negative"):
            return [(k, number(-1) * f) for k, f in self.sequence(c[2] if c[0] == "t" else c[1])]
        if c[0] == "part" and len(c) > 2 and c[2][1] in ((None, 1, None), (0, 1, None)):
            return [(0, f) for f in self.blocks(c[1])[0]]
        if c[0] == "part" and len(c) > 2 and c[2][1] == (-1, None, None):
            return [(-1, f) for f in self.blocks(c[1])[0]]
        if c[0] == "part":
            raise NotAlgebraic("part of the values")
        b, rep = self.blocks(c)
        if rep or len(b) != 1:
            raise NotAlgebraic("rebuilt values")
        return [("body", b[0])]

    def around(self, values, x, before, after, sign):
        """does the stored part continue as the axis does; None when it is not continued"""
        vs, xs = self.sequence(values), self.sequence(x)
        if [k for k, _ in vs] == ["body"] and [k for k, _ in xs] == ["axis"]:
            return None
        b = atom("v")
        want = [(-1, sign * b)] * before + [("body", b)] + [(0, sign * b)] * after
        if [k for k, _ in vs] != [k for k, _ in want] or any(flat(f - g).t for (_, f), (_, g) in zip(vs, want)):
            self.wrong = "computed with other samples around the stored part than those of the rebuilt axis"
        at = [("at", atom("x0") - atom("h"))] * before + [("axis", None)] + [("at", atom("x0") + atom("n") * atom("h"))] * after
        if [k for k, _ in xs] != [k for k, _ in at] or any(k == "at" and f != g for (k, f), (_, g) in zip(xs, at)):
            self.wrong = self.wrong or "computed with other abscissae around the stored part than those of the rebuilt axis"
        return True

    def derivative(self, c, count, even):
        sign = number(-1 if even else 1)
        trim = None
        if c[0] == "part" and len(c) > 2:
            trim, c = c[2][1], c[1]
        if c[0] != "gradient" or c[1] != self.axis or c[3] is None:
            raise NotAlgebraic(str(c[0]))
        around = self.around(c[2], c[3], 1, 1, sign)
        if around is None and (count > 1 or even):
            return "computed without the samples around the stored part"
        if trim != ((1, -1, None) if around else None):
            return "left with other samples than those of the axis"

    def primitive(self, c, even):
        """the form of a primitive: P its samples, M their mean, E the integral over the whole part"""
        if is_c(c):
            return number(c[2])
        if c[0] == "t" and c[1] in ("bin", "neg"):
            return self.primitive(c[1:], even)
        if c[0] == "bin":
            return self.arith(c[1], self.primitive(c[2], even), self.primitive(c[3], even))
        if c[0] in ("neg", "negative"):
            return number(-1) * self.primitive(c[1], even)
        if c[0] == "red" and c[1] in MEANS and c[2] == (self.axis,) and len(c) == 4:
            if self.primitive(c[3], even) == atom("P"):
                return atom("M")
            raise NotAlgebraic("mean of another primitive")
        if c[:2] == ("t", "sample") and len(c) > 3 and c[3] == (C(-1),) and c[2][0] == "part" and self.running(c[2][1], even) == "whole":
            return atom("E")
        if c[0] == "part" and len(c) > 2 and self.running(c[1], even) == "whole":
            if c[2][1] in ((None, -1, None), (0, -1, None)):
                return atom("P")
            return atom(("other samples of the primitive",))
        if c[0] == "join" and len(c) == 3 and c[1][:1] == ("zero",) and c[2][0] == "part" and self.running(c[2][1], even) == "later":
            return atom("P")
        if c[0] == "roll" and self.running(c[2], even) == "later":
            return atom(("primitive rotated",))
        k = self.running(c, even)
        if k == "open":
            self.open = True
            return atom("P")
        raise NotAlgebraic("primitive")

    open = False

    def running(self, c, even):
        if c[0] != "primitive" or c[1] != self.axis or c[3] is None:
            raise NotAlgebraic(str(c[0]))
        around = self.around(c[2], c[3], 0, 1, number(-1 if even else 1))
        if c[4] is None:
            return "later" if around else None
        if c[4] != 0:
            self.wrong = "a primitive that does not start at zero"
        return "whole" if around else "open"

    def spectral(self, c):
        """form over the values, the abscissae f, pi and j"""
        if is_c(c):
            z = c[2]
            if isinstance(z, complex):
                return number(z.real) + number(z.imag) * atom("j")
            return number(z)
        if c == self.given:
            return atom("v")
        if c[0] == "x" and c[1] in ("numpy.pi", "math.pi"):
            return atom("pi")
        if c[0] == "axis":
            return atom("f")
        if c[0] == "t" and c[1] in ("bin", "neg"):
            return self.spectral(c[1:])
        if c[0] == "bin":
            return self.arith(c[1], self.spectral(c[2]), self.spectral(c[3]))
        if c[0] in ("neg", "negative"):
            return number(-1) * self.spectral(c[1])
        raise NotAlgebraic(str(c[0]))


def turns(p):
    """j^2 is -1"""
    out = {}
    for m, c in p.t.items():
        e = dict(m).get("j", 0) % 4
        k = tuple((a, x) for a, x in m if a != "j") + ((("j", 1),) if e % 2 else ())
        k = tuple(sorted(k, key=repr))
        out[k] = out.get(k, 0) + (c if e < 2 else -c)
    return Poly(out)


def root(f, c):
    """form of the square, when the values are a square root"""
    if c[0] == "sqrt":
        return f.reduced(c[1])
    if c[0] == "part":
        return root(f, c[1])
    if c[0] == "bin" and c[1] == "**" and c[3] == C(0.5):
        return f.reduced(c[2])
    if c[0] == "bin" and c[1] in "*/":
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            if is_c(a) and c[1] == "*":
                return number(a[2]) * number(a[2]) * root(f, b)
        if is_c(c[3]):
            return root(f, c[2]) / (number(c[3][2]) * number(c[3][2]))
    return f.reduced(c) * f.reduced(c)


def level(f, c):
    """(k, form) of k log10(form)"""
    if is_c(c) and c[2] == 0:
        return None
    if c[:2] in (("t", "bin"), ("t", "call")):
        if c[1] == "call" and c[2] == "numpy.log10" and len(c[4]) == 1:
            return Fraction(1), f.reduced(c[4][0])
        if c[1] == "bin":
            return level(f, c[1:])
        raise NotAlgebraic("level")
    if c[0] == "abs" or c[0] == "part":
        return level(f, c[1])
    if c[0] == "set" and is_c(c[2]):
        return level(f, c[1])
    if c[0] == "log10":
        return Fraction(1), f.reduced(c[1])
    if c[0] == "bin" and c[1] == "*":
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            if is_c(a):
                k, r = level(f, b)
                return k * Fraction(a[2]), r
    if c[0] == "bin" and c[1] in "+-":
        x, y = level(f, c[2]), level(f, c[3])
        x, y = [None if z is not None and z[1].const() == 1 else z for z in (x, y)]
        if x is None or y is None:
            return x or y
        if x[0] == y[0]:
            return x[0], x[1] * y[1] if c[1] == "+" else x[1] / y[1]
    raise NotAlgebraic("level")


def expected(op, b, factor, even):
    """accepted forms (square of the result for rss and rms): what the definition gives for values whose parts follow one another"""
    def over(kind, r):
        out = Rat(Poly())
        for m, c in flat(r).t.items():
            odd = sum(e for a, e in m if a == "v") % 2
            if not (odd and even):
                out = out + number(c) * atom((kind, m))
        return out
    p, n, l = number(factor), atom("n"), atom("n") * atom("h")
    sq = b * b
    if op == "sum":
        return [p * over("S", b)]
    if op == "integrate":
        return [p * over("I", b)]
    if op == "mean":
        return [over("S", b) / n, over("I", b) / l]
    if op == "rss":
        return [p * over("S", sq), p * over("I", sq)]
    if op == "rms":
        return [over("S", sq) / n, over("I", sq) / l]


def reduce(prog, f, names, syms, cls, requests, **kw):
    o = RequestOracle(prog)
    it, st = Interp(prog, o), State()
    extra = {"_is_components": V(FALSE), "_is_overlay": V(FALSE)}
    axes = [an_axis(it, st, prog, cls, n, sym=syms[n], **extra) for n in names]
    me = a_field(it, st, prog, "DataND", axes, norms_={"ref": norm(it, st, prog, "ref")}, _values=V(arr([N(n) for n in names], ("values",))))
    given = {"is_squeeze": V(FALSE), "axis_data": V(it.new(st, ("p25 axis data",), Obj("dict")))}
    given.update(kw)
    try:
        v, st = it.run(f, [V(me)] + [V(C(r)) for r in requests], given, st)
    except Raised as e:
        return None, e.exc
    i = single(v)
    if i is not None and i[0] == "o" and st.heap[i[1]].kind == "dict":
        v = st.heap[i[1]].fields.get(C("B"), UNKNOWN)
    return v, None


def said(r):
    def poly(p):
        def mono(m, c):
            fs = [("" if c == 1 and m else str(c))] + ["%s%s" % (name(a), "" if e == 1 else "^%d" % e) for a, e in m]
            return " ".join(x for x in fs if x)
        return " + ".join(mono(m, c) for m, c in sorted(p.t.items(), key=repr)) or "0"
    d = poly(r.d)
    return poly(r.n) if r.d == POLY_ONE else "(%s) / (%s)" % (poly(r.n), d)


def name(a):
    if isinstance(a, tuple) and a[0] in ("S", "I", "open I"):
        what = {"S": "sum", "I": "integral", "open I": "integral without the last interval"}[a[0]]
        inside = " ".join("%s%s" % (name(x), "" if e == 1 else "^%d" % e) for x, e in a[1]) if isinstance(a[1], tuple) else a[1]
        return "%s(%s)" % (what, inside)
    if isinstance(a, tuple) and a[0] == "abs":
        return "|%s|" % name(a[1])
    if isinstance(a, tuple) and a[0] == "power":
        return "%s^(...)" % a[1]
    return a if isinstance(a, str) else str(a[0])


def same(a, b):
    return Rat(tidy(a.n), tidy(a.d)) == Rat(tidy(b.n), tidy(b.d))


class Judge:
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog

    def __call__(self, f, names, syms, cls, request, others=(), magnitude=False, unit=None):
        ctx = self.ctx
        axis, op = request.split("=")
        own = axis if axis in names else DUAL[axis]
        sym = syms[own]
        direct = axis == own and axis not in ("freqs", "wavenumber")
        count = sym.get("period", sym.get("antiperiod", 1)) if direct else 1
        even = direct and "antiperiod" in sym
        what = "%s%s of %s along %s" % (request, " in %s" % unit if unit else "", "magnitudes" if magnitude else "data", said_axis(own, cls, sym))
        if others:
            what += " and %s" % ", ".join(others)
        kw = {"unit": V(C(unit))} if unit else {}
        ctx.count("reductions")
        ctx.obligation()
        v, exc = reduce(self.prog, f, names, syms, cls, (request,) + others, **kw)
        if exc is not None or v is None:
            return undecided(ctx, "%s fails with %s" % (what, exc))
        base, given, length = atom("v"), ("values",), None
        if not direct and axis != own:
            plain, _ = reduce(self.prog, f, names, syms, cls, (axis,) + others, **kw)
            i = single(plain or UNKNOWN)
            if i is None or not is_arr(i):
                return undecided(ctx, "%s: the spectrum is %s" % (what, show(plain or UNKNOWN)[:150]))
            given, length = i[3], i[2][names.index(own)][3]
        elif magnitude:
            base = atom(("abs", "v"))
        key = "%s|%s|%s" % (op, "spectrum" if not direct else "antiperiod" if even else "period" if sym else "whole", "dB" if unit else "magnitude" if magnitude else "values")
        found = []
        for i in v:
            if not is_arr(i):
                undecided(ctx, "%s gives %s" % (what, show(V(i))[:150]))
                return
            forms = Forms(own, count, given, length)
            try:
                bad = self.wrong(forms, op, i[3], base, count, even, unit)
            except (NotAlgebraic, IndexError, TypeError, ValueError, AttributeError) as e:
                undecided(ctx, "%s: %s not understood in %s" % (what, e, str(i[3])[:200]))
                return
            found.append(bad or forms.wrong)
        ctx.count("reductions decided")
        # several results: which one is obtained is not known
        if found and all(found):
            ctx.report("reduction", key, f.where(), "%s is %s" % (what, sorted(found)[0]))

    def wrong(self, forms, op, c, base, count, even, unit):
        if unit and op in ("sum", "rss"):
            k, r = level(forms, c)
            p = forms.arith("**", number(10), base / number(10))
            want = number(count) * forms.linear("S", p)
            if k != 10 or not same(r, want):
                return "%s log10(%s) instead of 10 log10(%s)" % (k, said(r), said(want))
            return None
        if op in ("max", "min"):
            up = op == "max"
            got = forms.extrema(c, up)
            (m, _), = flat(base).t.items()
            odd = sum(e for a, e in m if a == "v") % 2
            want = [{(up, m, 1)}]
            if even and odd:
                both = {(up, m, 1), (not up, m, -1)}
                whole = {(True, ((("abs", "v"), 1),), 1 if up else -1)}
                want = [both, whole, both | whole]
            if got not in want:
                return "the %s of %s instead of %s" % ("largest" if up else "lowest", said_ends(got), said_ends(want[0]))
            return None
        if op in ("derivate", "antiderivate") and (forms.axis in ("freqs", "wavenumber") or forms.given != ("values",)):
            got = forms.spectral(c)
            factor = number(2) * atom("pi") * atom("j") * atom("f")
            want = atom("v") * factor if op == "derivate" else atom("v") / factor
            if turns(got.n * want.d) != turns(want.n * got.d):
                return "%s instead of %s" % (said(got), said(want))
            return None
        if op == "derivate":
            return forms.derivative(c, count, even)
        if op == "antiderivate":
            got = forms.primitive(c, even)
            want = atom("P") - (atom("E") / number(2) if even else atom("M"))
            if forms.open and (count > 1 or even):
                return "computed without the last interval of the stored part"
            return None if got == want else "%s instead of %s" % (said(got), said(want))
        got = root(forms, c) if op in ("rss", "rms") else forms.reduced(c)
        want = expected(op, base, count, even)
        if any(same(got, w) for w in want):
            return None
        if count == 1 and not even:
            # the integral of an axis that is not periodic may stop at its last sample
            open_ = Rat(rename(got.n), rename(got.d))
            if any(same(open_, w) for w in want[-1:]):
                return None
            if op in ("mean", "rms") and "open" in repr(got.n.t) and any(same(open_.subst("n", atom("n") + number(1)), w) for w in want[-1:]):
                return None
        sq = "the root of " if op in ("rss", "rms") else ""
        return "%s%s instead of %s%s" % (sq, said(got), sq, said(want[-1] if "I" in repr(got.n.t) else want[0]))


def rename(p):
    return Poly({tuple(((("I",) + a[1:]) if isinstance(a, tuple) and a[0] == "open I" else a, e) for a, e in m): c for m, c in p.t.items()})


def said_axis(n, cls, sym):
    s = "".join(" stored over one %s of %d" % x for x in sym.items())
    return "a %s axis %s%s" % (cls, n, s)


def said_ends(ends):
    if ("other",) in ends:
        return "the other extrema"
    return " and ".join("%s%s %s" % ("-" if s < 0 else "", "max" if k else "min", "".join(name(a) for a, _ in m)) for k, m, s in sorted(ends, key=repr))


SYMS = ({}, {"period": 1}, {"period": 2}, {"period": 3}, {"period": 7}, {"antiperiod": 2}, {"antiperiod": 4}, {"antiperiod": 6})
OPS = ("sum", "mean", "rms", "rss", "integrate", "max", "min")


def run(ctx):
    prog = ctx.prog
    ctx.rule("reductions over one part of an axis give the value for the rebuilt axis")
    along, mag = method(prog, "DataND", "get_along"), method(prog, "DataND", "get_magnitude_along")
    j = Judge(ctx, prog)
    for sym in SYMS:
        for cls in ("Data1D", "DataLinspace"):
            for axis in ("time", "angle", "speed"):
                for op in OPS:
                    if axis == "speed" and op == "integrate":
                        continue
                    j(along, (axis,), {axis: sym}, cls, "%s=%s" % (axis, op))
                    j(mag, (axis,), {axis: sym}, cls, "%s=%s" % (axis, op), magnitude=True)
            j(mag, ("time",), {"time": sym}, cls, "time=sum", magnitude=True, unit="dB")
            for axis in ("freqs", "wavenumber"):
                for op in OPS:
                    if op == "integrate":
                        continue
                    if "antiperiod" not in sym:
                        j(along, (axis,), {axis: sym}, cls, "%s=%s" % (axis, op))
                        j(mag, (axis,), {axis: sym}, cls, "%s=%s" % (axis, op), magnitude=True)
                    j(mag, (DUAL[axis],), {DUAL[axis]: sym}, cls, "%s=%s" % (axis, op), magnitude=True)
    # the periodicity of another axis does not matter
    for names in (("time", "angle"), ("angle", "time")):
        for s1, s2 in (({"period": 2}, {"period": 3}), ({}, {"period": 5}), ({"antiperiod": 4}, {"period": 3}), ({"period": 3}, {"antiperiod": 2})):
            syms = {"time": s1, "angle": s2}
            for a, b in (names, names[::-1]):
                for op in OPS:
                    j(along, names, syms, "Data1D", "%s=%s" % (a, op), others=(b + "[smallestperiod]",))
    # samples computed from their neighbours
    for sym in SYMS:
        for cls in ("Data1D", "DataLinspace"):
            for op in ("derivate", "antiderivate"):
                for axis in PHYSICAL:
                    j(along, (axis,), {axis: sym}, cls, "%s=%s" % (axis, op))
                j(along, ("time",), {"time": sym}, cls, "freqs=" + op)
                if not sym:
                    j(along, ("freqs",), {"freqs": sym}, cls, "freqs=" + op)
    ctx.need("reductions", 200)
