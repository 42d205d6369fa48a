"""Exact algebra of the formulas found in the source: terms as quotients of polynomials.

A term of the value-provenance analysis becomes num/den, each a polynomial with
rational coefficients over atoms (inputs, calls that are not arithmetic, constants
like pi).  Two formulas are the same function when the cross products agree.
"""
from fractions import Fraction

from .absint import U, is_c, is_t

ADD = {"numpy.add": "+", "numpy.subtract": "-", "numpy.multiply": "*", "numpy.divide": "/", "numpy.true_divide": "/", "numpy.power": "**",
       "operator.add": "+", "operator.sub": "-", "operator.mul": "*", "operator.truediv": "/"}
# same numbers, other container or layout
SAME = {"numpy.array", "numpy.asarray", "numpy.squeeze", "numpy.reshape", "numpy.ravel", "numpy.atleast_1d", "numpy.expand_dims", "numpy.copy", "numpy.asanyarray",
        ".copy", ".reshape", ".ravel", ".squeeze", ".flatten", ".astype", "float", "numpy.float64"}


class NotAlgebraic(Exception):
    pass


def frac(v):
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        raise NotAlgebraic(repr(v))
    if v != v or v in (float("inf"), float("-inf")):
        raise NotAlgebraic(repr(v))
    return Fraction(repr(v)) if isinstance(v, float) else Fraction(v)


def mul_mono(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
        if d[k] == 0:
            del d[k]
    return tuple(sorted(d.items(), key=repr))


class Poly:
    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v != 0}

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Poly(t)

    def neg(self):
        return Poly({k: -v for k, v in self.t.items()})

    def __mul__(self, o):
        t = {}
        for a, x in self.t.items():
            for b, y in o.t.items():
                k = mul_mono(a, b)
                t[k] = t.get(k, 0) + x * y
        if len(t) > 4000:
            raise NotAlgebraic("too large")
        return Poly(t)

    def __eq__(self, o):
        return self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def atoms(self):
        return {a for m in self.t for a, _ in m}


ONE = Poly({(): Fraction(1)})
ZERO = Poly()


class Rat:
    def __init__(self, n, d=ONE):
        if not d.t:
            raise NotAlgebraic("division by zero")
        self.n, self.d = n, d

    def __add__(self, o):
        if self.d == o.d:
            return Rat(self.n + o.n, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)

    def __sub__(self, o):
        return self + Rat(o.n.neg(), o.d)

    def __mul__(self, o):
        return Rat(self.n * o.n, self.d * o.d)

    def __truediv__(self, o):
        return Rat(self.n * o.d, self.d * o.n)

    def __eq__(self, o):
        return self.n * o.d == o.n * self.d

    def __hash__(self):
        return 0

    def atoms(self):
        return self.n.atoms() | self.d.atoms()

    def const(self):
        """the number, None when it is not one"""
        if set(self.n.t) <= {()} and set(self.d.t) <= {()}:
            return self.n.t.get((), Fraction(0)) / self.d.t[()]
        return None

    def power(self, k):
        r = Rat(ONE)
        for _ in range(abs(k)):
            r = r * self
        return r if k >= 0 else Rat(ONE) / r

    def subst(self, atom, r):
        """replace one atom"""
        def poly(p):
            out = Rat(ZERO)
            for m, c in p.t.items():
                x = Rat(Poly({tuple(z for z in m if z[0] != atom): c}))
                for a, e in m:
                    if a == atom:
                        x = x * r.power(e)
                out = out + x
            return out
        return poly(self.n) / poly(self.d)


def atom(a):
    return Rat(Poly({((a, 1),): Fraction(1)}))


def number(x):
    return Rat(Poly({(): frac(x) if not isinstance(x, Fraction) else x}))


def rat(i, leaf=None, same=SAME):
    """quotient of polynomials of a term; leaf(term) may give the value of a subterm"""
    if leaf is not None:
        r = leaf(i)
        if r is not None:
            return r
    if i == U:
        raise NotAlgebraic("unknown")
    if is_c(i):
        return number(i[2])
    if not is_t(i):
        return atom(i)
    if i[1] == "neg":
        return number(-1) * rat(i[2], leaf, same)
    if i[1] == "view":
        return rat(i[2], leaf, same)
    if i[1] == "bin":
        return arith(i[2], i[3], i[4], leaf, same)
    if i[1] == "call":
        n, b, a = i[2], i[3], i[4]
        if n in ADD and len(a) == 2 and not i[5]:
            return arith(ADD[n], a[0], a[1], leaf, same)
        if n == "numpy.negative" and len(a) == 1:
            return number(-1) * rat(a[0], leaf, same)
        if n == "numpy.square" and len(a) == 1:
            r = rat(a[0], leaf, same)
            return r * r
        if n == "numpy.reciprocal" and len(a) == 1:
            return Rat(ONE) / rat(a[0], leaf, same)
        if n in same:
            x = b if n.startswith(".") else a[0] if a else None
            if x is not None:
                return rat(x, leaf, same)
    return atom(i)


def arith(op, a, b, leaf, same):
    x = rat(a, leaf, same)
    if op == "**":
        y = rat(b, leaf, same)
        k = y.const()
        if k is not None:
            if k.denominator == 1 and abs(k) <= 8:
                return x.power(int(k))
            raise NotAlgebraic("power")
        return sympow(x, y)
    y = rat(b, leaf, same)
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op == "/":
        return x / y
    raise NotAlgebraic(op)


def sympow(x, y):
    """a monomial to a symbolic power: every factor to that power"""
    if len(x.n.t) != 1 or len(x.d.t) != 1:
        raise NotAlgebraic("power of a sum")
    key = tuple(sorted(((m, c) for m, c in y.n.t.items()), key=repr)), tuple(sorted(((m, c) for m, c in y.d.t.items()), key=repr))
    out = Rat(ONE)
    for p, sgn in ((x.n, 1), (x.d, -1)):
        (m, c), = p.t.items()
        if c != 1:
            out = out * atom(("pow", ("num", c), key)).power(sgn)
        for a, e in m:
            out = out * atom(("pow", a, key)).power(sgn * e)
    return out
