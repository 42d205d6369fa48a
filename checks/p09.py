"""P09: unit conversion is dimensionally sound and consistent with SI."""
import ast
import math

from sa.absint import C, FALSE, NONE, TRUE, U, UNKNOWN, V, Interp, Obj, Oracle, Raised, State, is_c, is_t, show, term
from sa.algebra import NotAlgebraic, Rat, atom, number, rat, ONE
from sa.model import AnalysisError

TECHNIQUE = "comparison of the literal unit tables with SI definitions, and abstract interpretation of the conversion in a term domain with exact algebra of its formulas"
NOTE = "assumes: string methods split a unit at its symbols as documented; offsets between temperature scales are outside the property"

PI = math.pi
# factor to SI and dimension (mass, length, time, temperature, angle, current)
SI = {
    "dimless": (1, (0, 0, 0, 0, 0, 0)), "degC": (1, (0, 0, 0, 1, 0, 0)), "K": (1, (0, 0, 0, 1, 0, 0)), "rad": (1, (0, 0, 0, 0, 1, 0)), "°": (PI / 180, (0, 0, 0, 0, 1, 0)),
    "deg": (PI / 180, (0, 0, 0, 0, 1, 0)), "rpm": (2 * PI / 60, (0, 0, -1, 0, 1, 0)), "min": (60, (0, 0, 1, 0, 0, 0)), "Ohm": (1, (1, 2, -3, 0, 0, -2)),
    "At": (1, (0, 0, 0, 0, 0, 1)), "Wb": (1, (1, 2, -2, 0, 0, -1)), "Mx": (1e-8, (1, 2, -2, 0, 0, -1)), "Hz": (1, (0, 0, -1, 0, 0, 0)), "Pa": (1, (1, -1, -2, 0, 0, 0)),
    "bar": (1e5, (1, -1, -2, 0, 0, 0)), "g": (1e-3, (1, 0, 0, 0, 0, 0)), "s": (1, (0, 0, 1, 0, 0, 0)), "h": (3600, (0, 0, 1, 0, 0, 0)), "A": (1, (0, 0, 0, 0, 0, 1)),
    "J": (1, (1, 2, -2, 0, 0, 0)), "W": (1, (1, 2, -3, 0, 0, 0)), "N": (1, (1, 1, -2, 0, 0, 0)), "C": (1, (0, 0, 1, 0, 0, 1)), "T": (1, (1, 0, -2, 0, 0, -1)),
    "G": (1e-4, (1, 0, -2, 0, 0, -1)), "V": (1, (1, 2, -3, 0, 0, -1)), "F": (1, (-1, -2, 4, 0, 0, 2)), "H": (1, (1, 2, -2, 0, 0, -2)), "m": (1, (0, 1, 0, 0, 0, 0)),
    "S": (1, (-1, -2, 3, 0, 0, 2)), "tr": (2 * PI, (0, 0, 0, 0, 1, 0)), "rev": (2 * PI, (0, 0, 0, 0, 1, 0)), "day": (86400, (0, 0, 1, 0, 0, 0)), "Oe": (1000 / (4 * PI), (0, -1, 0, 0, 0, 1)),
    "eV": (1.602176634e-19, (1, 2, -2, 0, 0, 0)), "Wh": (3600, (1, 2, -2, 0, 0, 0)), "in": (0.0254, (0, 1, 0, 0, 0, 0)), "l": (1e-3, (0, 3, 0, 0, 0, 0)), "L": (1e-3, (0, 3, 0, 0, 0, 0)),
    "t": (1e3, (1, 0, 0, 0, 0, 0)), "%": (1e-2, (0, 0, 0, 0, 0, 0)),
}
PREFIX = {"Q": 1e30, "R": 1e27, "Y": 1e24, "Z": 1e21, "E": 1e18, "P": 1e15, "T": 1e12, "G": 1e9, "M": 1e6, "k": 1e3, "h": 1e2, "da": 1e1, "": 1.0, "d": 1e-1, "c": 1e-2,
          "m": 1e-3, "µ": 1e-6, "u": 1e-6, "μ": 1e-6, "n": 1e-9, "p": 1e-12, "f": 1e-15, "a": 1e-18, "z": 1e-21, "y": 1e-24, "r": 1e-27, "q": 1e-30}


class NotConstant(Exception):
    pass


def fold(e, m, prog):
    """value of a constant numeric expression"""
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
        v = fold(e.operand, m, prog)
        return -v if isinstance(e.op, ast.USub) else v
    if isinstance(e, ast.BinOp):
        a, b = fold(e.left, m, prog), fold(e.right, m, prog)
        try:
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                return a * b
            if isinstance(e.op, ast.Div):
                return a / b
            if isinstance(e.op, ast.Pow) and abs(b) < 100:
                return a ** b
        except (ZeroDivisionError, OverflowError):
            raise NotConstant()
    if isinstance(e, (ast.Name, ast.Attribute)):
        from sa.scope import Scope
        x = Scope(prog, m).ext(e)
        if x in ("numpy.pi", "math.pi", "scipy.constants.pi"):
            return PI
        if isinstance(e, ast.Name) and e.id in m.globals and m.globals[e.id] is not None:
            return fold(m.globals[e.id], m, prog)
    raise NotConstant()


def close(a, b):
    return abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def tables(ctx, prog):
    """the literal tables; returns (module, name) of the symbol table and of the prefix table"""
    sym = pre = None
    for m in prog.modules.values():
        for name, node in m.globals.items():
            if isinstance(node, (ast.List, ast.Tuple)) and len(node.elts) >= 5:
                rows = [(e.elts[0], e.elts[1], e.elts[2], e) for e in node.elts if isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == 3 and isinstance(e.elts[2], (ast.Tuple, ast.List)) and len(e.elts[2].elts) == 6]
                if len(rows) != len(node.elts):
                    continue
            elif isinstance(node, ast.Dict) and len(node.keys) >= 5 and all(isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == 2 and isinstance(v.elts[1], (ast.Tuple, ast.List)) and len(v.elts[1].elts) == 6 for v in node.values):
                rows = [(k, v.elts[0], v.elts[1], v) for k, v in zip(node.keys, node.values)]
            else:
                continue
            sym = (m, name)
            seen = {}
            for k, f, d, e in rows:
                where = "%s:%d" % (m.rel, e.lineno)
                if not (isinstance(k, ast.Constant) and isinstance(k.value, str)):
                    raise AnalysisError("unit symbol at %s is not a literal" % where)
                s = k.value
                ctx.count("unit symbols")
                ctx.obligation(2)
                if s not in SI:
                    ctx.count("symbols without reference")
                    continue
                try:
                    fv, dv = fold(f, m, prog), tuple(fold(x, m, prog) for x in d.elts)
                except NotConstant:
                    ctx.count("undecided")
                    continue
                if not close(fv, SI[s][0]):
                    ctx.report("unit-factor", s, where, "the unit %s is given the factor %r, its SI definition is %r" % (s, fv, SI[s][0]))
                if tuple(dv) != SI[s][1]:
                    ctx.report("unit-dimension", s, where, "the unit %s is given the dimension %s, its SI definition is %s" % (s, dv, SI[s][1]))
                seen[s] = 1
        for name, node in m.globals.items():
            if isinstance(node, ast.Dict) and len(node.keys) >= 8 and {k.value for k in node.keys if isinstance(k, ast.Constant)} >= {"k", "M", "m"}:
                pre = (m, name)
                last = {}
                for k, v in zip(node.keys, node.values):
                    where = "%s:%d" % (m.rel, v.lineno)
                    if not (isinstance(k, ast.Constant) and k.value in PREFIX):
                        ctx.count("symbols without reference")
                        continue
                    ctx.count("unit prefixes")
                    ctx.obligation()
                    try:
                        x = fold(v, m, prog)
                    except NotConstant:
                        ctx.count("undecided")
                        continue
                    last[k.value] = (x, where)
                for k, (x, where) in last.items():
                    if not close(x, PREFIX[k]):
                        ctx.report("unit-prefix", k, where, "the prefix %r is given the value %r instead of %r" % (k, x, PREFIX[k]))
    if sym is None or pre is None:
        raise AnalysisError("unit tables not found")
    return sym, pre


# -- the conversion itself ---------------------------------------------------------
def part(i, n=0):
    """('unit1', 'num'|'den') a string term stands for, None when not understood"""
    if is_c(i) and isinstance(i[2], str) and "/" not in i[2] and i[2]:
        return ("the unit " + i[2], "whole")
    if n > 30 or not is_t(i):
        return None
    if i[1] == "in":
        return (i[2], "whole")
    if i[1] == "call" and i[2] in (".replace", ".strip", ".rstrip", ".lstrip"):
        return part(i[3], n + 1)
    if i[1] == "item" and is_c(i[3]) and is_t(i[2]) and i[2][1] == "call" and i[2][2] in (".split", ".rsplit", ".partition"):
        sep = i[2][4][0] if i[2][4] else None
        p = part(i[2][3], n + 1)
        if sep == C("/") and p is not None:
            k = i[3][2]
            last = 2 if i[2][2] == ".partition" else 1
            if p[1] == "whole":
                if k == 0:
                    return (p[0], "num")
                if k in (last, -1):
                    return (p[0], "den")
            elif p[1] == "num" and k == 0:
                return p
    return None


class ConvertOracle(Oracle):
    def __init__(self, slash, differ, parse, units=("unit1", "unit2")):
        self.slash, self.differ, self.parse, self.units = slash, differ, parse, units
        self.odd = []
        self.asked = 0
        self.leaves = {}

    def type_of(self, i, interp, st):
        p = part(i) if is_t(i) else None
        return "str" if p else "float" if is_t(i) and i[1] in ("dim", "factor") else None

    def inline(self, f):
        return f is not self.parse

    def call(self, interp, st, fn, args, kw, node):
        if fn[0] == "f" and fn[1] is self.parse:
            a = args[0] if args else next(iter(kw.values()), UNKNOWN)
            if len(a) != 1:
                self.odd.append("the unit parsed is not certain")
                return UNKNOWN
            i = next(iter(a))
            p = part(i)
            if p is None:
                self.odd.append("parsed text %s not understood" % show(i))
                return UNKNOWN
            u, w = p
            if w == "whole":
                if self.slash[u]:
                    w = "both"
                else:
                    w = "num"
            k = ("dims", u, w)
            d = interp.new(st, k, Obj("list", exact=tuple(V(term("dim", u, w, j)) for j in range(6))))
            return V(("tu", (V(d), V(term("factor", u, w)))))
        return None

    def form(self, t):
        return rat(t)

    def truth(self, t, interp, st):
        if t[1] == "cmp" and t[2] == "in" and t[3] == C("/"):
            p = part(t[4])
            if p:
                return self.slash[p[0]] if p[1] in ("whole", "den") else False
        if t[1] == "cmp" and t[2] == "==":
            x, y = t[3], t[4]
            for a, b in ((x, y), (y, x)):
                if is_c(a) and isinstance(a[2], str) and is_t(b) and part(b):
                    return False
            try:
                d = rat(x) - rat(y)
            except NotAlgebraic:
                return None
            dims = [a for a in d.atoms() if is_t(a) and a[1] == "dim"]
            if not dims and d.const() is None:
                return None
            if dims or d.const() is not None:
                self.asked += 1
                for k in range(6):
                    w = want_dim(k, self.slash, self.units)
                    if d == w or d == number(-1) * w:
                        return k not in self.differ
                if d.const() is not None:
                    return d.const() == 0
                self.odd.append("compares %s with %s" % (show(x), show(y)))
        return None


def want_dim(k, slash, units=("unit1", "unit2")):
    r = Rat(ONE) - Rat(ONE)
    for u, s in zip(units, (1, -1)):
        r = r + number(s) * atom(term("dim", u, "num", k))
        if slash[u]:
            r = r - number(s) * atom(term("dim", u, "den", k))
    return r


def want_factor(slash, units=("unit1", "unit2")):
    r = atom(("t", "in", "values"))
    for u, s in zip(units, (1, -1)):
        r = r * atom(term("factor", u, "num")).power(s)
        if slash[u]:
            r = r * atom(term("factor", u, "den")).power(-s)
    return r


def run_convert(prog, f, parse, slash, differ, fixed=(None, None)):
    units = tuple("the unit " + c if c is not None else u for c, u in zip(fixed, ("unit1", "unit2")))
    o = ConvertOracle(slash, differ, parse, units)
    it = Interp(prog, o)
    args = [V(("t", "in", "values"))] + [V(C(c) if c is not None else ("t", "in", u)) for c, u in zip(fixed, units)]
    try:
        r, st = it.run(f, args, {}, State())
    except Raised as e:
        return "raises", e.exc, o
    return "returns", r, o


def judge_convert(ctx, prog, f, parse):
    for s1 in (False, True):
        for s2 in (False, True):
            slash = {"unit1": s1, "unit2": s2}
            what = "%s and %s" % ("a quotient" if s1 else "a simple unit", "a quotient" if s2 else "a simple unit")
            key = "%s/%s" % (s1, s2)
            ctx.count("conversion scenarios")
            ctx.obligation()
            kind, r, o = run_convert(prog, f, parse, slash, ())
            if kind == "raises":
                if o.odd:
                    ctx.count("undecided")
                else:
                    ctx.report("convert-refused", key, f.where(), "conversion between compatible units (%s) is refused" % what)
            else:
                try:
                    good = True
                    for i in r:
                        if i == NONE:
                            ctx.report("convert-nothing", key, f.where(), "conversion between %s returns nothing" % what)
                            continue
                        x = rat(i)
                        if any(is_t(a) and a[1] == "item" for a in x.atoms()):
                            raise NotAlgebraic("")
                        if x != want_factor(slash):
                            good = False
                            ctx.report("convert-factor", key, f.where(), "conversion between %s does not multiply by the ratio of the units: %s" % (what, show(i)))
                except NotAlgebraic:
                    ctx.count("undecided")
            for k in range(6):
                ctx.count("conversion scenarios")
                ctx.obligation()
                kind, r, o = run_convert(prog, f, parse, slash, (k,))
                if kind == "returns":
                    lost = U in r and len(r) == 1
                    if o.asked or o.odd == []:
                        if not lost:
                            ctx.report("convert-accepted", key, f.where(), "units (%s) that differ in dimension %d are converted instead of refused%s" % (
                                what, k, ": the conversion " + o.odd[0] if o.odd else ""))
                        else:
                            ctx.count("undecided")
                    else:
                        ctx.count("undecided")


class ParseOracle(Oracle):
    """one entry in the symbol table, found in the unit"""

    def __init__(self, rest, known, parse, product=False, found=True):
        self.rest, self.known, self.parse, self.product, self.found = rest, known, parse, product, found
        self.odd = []

    def is_rest(self, t):
        return is_t(t) and t[1] == "item" and t[3] in (C(1), C(-1), C(2)) and is_t(t[2]) and t[2][1] == "call" and t[2][2] in (".split", ".rsplit", ".partition", ".rpartition") and t[2][4][:1] == (SYM,)

    def is_prefix(self, t):
        return is_t(t) and t[1] == "item" and t[3] == C(0) and is_t(t[2]) and t[2][1] == "call" and t[2][2] in (".split", ".rsplit", ".partition", ".rpartition") and t[2][4][:1] == (SYM,)

    def type_of(self, i, interp, st):
        if i in (UNIT, SYM) or self.is_rest(i) or self.is_prefix(i):
            return "str"
        return None

    def call(self, interp, st, fn, args, kw, node):
        if fn[0] == "f" and fn[1] is self.parse:
            if not self.product:
                raise Raised("UnitError", st)
            d = interp.new(st, ("other", node.lineno, node.col_offset), Obj("list", exact=tuple(V(x) for x in ODIMS)))
            return V(("tu", (V(d), V(OFAC))))
        return None

    def truth(self, t, interp, st):
        if t[1] == "cmp" and t[2] == "in":
            if t[3] == SYM and t[4] == UNIT:
                return self.found
            if t[4] == UNIT and is_c(t[3]):
                return False
            if self.is_prefix(t[3]):
                return self.known
            if t[3] == SYM and self.is_prefix(t[4]):
                return self.product
        if t[1] == "call" and t[2] in (".isdigit", ".isdecimal", ".isnumeric"):
            if self.is_rest(t[3]):
                return self.rest == "digits"
        if t[1] == "call" and t[2] == ".endswith" and t[3] == UNIT and t[4] and t[4][0] == SYM:
            return self.found and self.rest == ""
        if t[1] == "cmp" and t[2] == "==":
            for a, b in ((t[3], t[4]), (t[4], t[3])):
                if b == C("") and self.is_rest(a):
                    return self.rest == ""
                if b == C("") and a == UNIT:
                    return False
                if is_c(b) and a == UNIT:
                    return False
        if self.is_rest(t):
            return self.rest != ""
        if is_t(t) and (t[1] in ("cmp", "call")):
            self.odd.append(show(t))
        return None


UNIT, SYM, FAC = ("t", "in", "unit"), ("t", "in", "symbol"), ("t", "in", "factor")
ODIMS, OFAC = tuple(("t", "in", "o%d" % k) for k in range(6)), ("t", "in", "other factor")
DIMS = tuple(("t", "in", "d%d" % k) for k in range(6))


class ParseInterp(Interp):
    symname = prename = None

    def global_value(self, m, name, st):
        if (m.name, name) == self.symname:
            e = ("tu", (V(SYM), V(FAC), V(("tu", tuple(V(d) for d in DIMS)))))
            return V(self.new(st, ("symbols",), Obj("list", exact=(V(e),))))
        if (m.name, name) == self.prename:
            return V(("t", "in", "prefixes"))
        return Interp.global_value(self, m, name, st)


def judge_parse(ctx, prog, parse, sym, pre):
    for rest in ("", "digits", "other"):
        for known in (True, False):
            o = ParseOracle(rest, known, parse)
            it = ParseInterp(prog, o)
            it.symname, it.prename = (sym[0].name, sym[1]), (pre[0].name, pre[1])
            ctx.count("parsing scenarios")
            ctx.obligation()
            text = "%s%s" % ("a known prefix" if known else "an unknown prefix", {"": "", "digits": " and a power", "other": " and other text after the symbol"}[rest])
            try:
                r, st = it.run(parse, [V(UNIT)], {}, State())
            except Raised as e:
                if rest != "other" and known and not o.odd:
                    ctx.report("parse-refused", text, parse.where(), "a unit with %s is refused" % text)
                continue
            if not known or rest == "other":
                if o.odd or U in r:
                    ctx.count("undecided")
                else:
                    ctx.report("parse-accepted", text, parse.where(), "a unit with %s is accepted" % text)
                continue
            for i in r:
                if i == NONE:
                    ctx.report("parse-nothing", text, parse.where(), "a unit with %s is read as nothing" % text)
                    continue
                if i[0] != "tu" or len(i[1]) != 2:
                    ctx.count("undecided")
                    continue
                judge_result(ctx, it, st, parse, i, rest, text)
    o = ParseOracle("", True, parse, found=False)
    it = ParseInterp(prog, o)
    it.symname, it.prename = (sym[0].name, sym[1]), (pre[0].name, pre[1])
    ctx.count("parsing scenarios")
    ctx.obligation()
    try:
        r, st = it.run(parse, [V(UNIT)], {}, State())
        if not o.odd and U not in r:
            ctx.report("parse-accepted", "unknown symbol", parse.where(), "a unit without any known symbol is accepted")
        else:
            ctx.count("undecided")
    except Raised:
        pass
    for rest in ("", "digits"):
        o = ParseOracle(rest, False, parse, True)
        it = ParseInterp(prog, o)
        it.symname, it.prename = (sym[0].name, sym[1]), (pre[0].name, pre[1])
        ctx.count("parsing scenarios")
        ctx.obligation()
        try:
            r, st = it.run(parse, [V(UNIT)], {}, State())
        except Raised:
            continue
        for i in r:
            if i[0] == "tu" and len(i[1]) == 2 and not o.odd:
                judge_result(ctx, it, st, parse, i, rest, "a product" + (" and a power" if rest else ""), True)
            else:
                ctx.count("undecided")


def judge_result(ctx, it, st, parse, i, rest, text, product=False):
    dims, fac = i[1]
    ex = it.exact_elems(dims, st)
    powers = set()

    def leaf(t):
        if is_t(t) and t[1] == "call" and t[2] in ("int", "float") and t[4] and rest == "digits":
            return atom("power")
        if is_t(t) and t[1] in ("item", "val") and t[2] == ("t", "in", "prefixes"):
            return atom("prefix")
        if is_t(t) and t[1] == "call" and t[2] == ".get" and t[3] == ("t", "in", "prefixes"):
            return atom("prefix")
        return None
    p = atom("power") if rest == "digits" else number(1)
    if ex is None or len(ex) != 6:
        ctx.count("undecided")
    else:
        for k, v in enumerate(ex):
            for x in v:
                try:
                    want = p * atom(DIMS[k])
                    if rat(x, leaf) != (want + atom(ODIMS[k]) if product else want):
                        ctx.report("parse-dimension", text, parse.where(), "dimension %d of a unit with %s is %s" % (k, text, show(x)))
                except NotAlgebraic:
                    ctx.count("undecided")
    for x in fac:
        try:
            got = rat(x, leaf)
        except NotAlgebraic:
            ctx.count("undecided")
            continue
        from sa.algebra import sympow
        want = atom(FAC) if product else atom("prefix") * atom(FAC)
        if rest == "digits":
            want = sympow(want, p)
        if product:
            want = want * atom(OFAC)
        if any(is_t(a) and a[1] == "call" for a in got.atoms() if isinstance(a, tuple)):
            ctx.count("undecided")
        elif got != want:
            ctx.report("parse-factor", text, parse.where(), "the factor of a unit with %s is %s" % (text, show(x)))


# -- special conversions and call sites ----------------------------------------------
def judge_special(ctx, prog, f, parse):
    """units the conversion names explicitly: converted by the ratio like all others, or by a formula and its inverse"""
    names = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and (n.value in SI or n.value in ("Bark",)):
            names.add(n.value)
    v = ("t", "in", "values")
    forms, odd = {}, {}
    for a in [None] + sorted(names):
        for b in [None] + sorted(names):
            if a == b:
                continue
            units = tuple("the unit " + c if c is not None else u for c, u in zip((a, b), ("unit1", "unit2")))
            slash = {u: False for u in units}
            kind, r, o = run_convert(prog, f, parse, slash, (), (a, b))
            ctx.count("named unit scenarios")
            ctx.obligation()
            if kind == "raises":
                continue
            if o.odd or U in r or len(r) != 1:
                ctx.count("undecided")
                continue
            i = next(iter(r))
            if i == NONE:
                ctx.report("convert-nothing", "%s/%s" % (a, b), f.where(), "conversion from %s to %s returns nothing" % (a or "any unit", b or "any unit"))
                continue
            try:
                x = rat(i)
            except NotAlgebraic:
                ctx.count("undecided")
                continue
            if x.atoms() <= {v}:
                forms[a, b] = x
            elif x != want_factor(slash, units):
                ctx.report("convert-factor", "%s/%s" % (a, b), f.where(), "conversion from %s to %s does not multiply by the ratio of the units: %s" % (a or "any unit", b or "any unit", show(i)))
    for (a, b), x in sorted(forms.items(), key=repr):
        ctx.count("special conversions")
        ctx.obligation()
        if None in (a, b):
            ctx.report("special-any", "%s/%s" % (a, b), f.where(), "conversion from %s to %s ignores the unit" % (a or "any unit", b or "any unit"))
        elif (b, a) not in forms:
            if x != atom(v):
                ctx.report("special-inverse", "%s/%s" % (a, b), f.where(), "%s is converted to %s by a formula whose inverse is not used the other way" % (a, b))
        else:
            try:
                if forms[b, a].subst(v, x) != atom(v):
                    ctx.report("special-inverse", "%s/%s" % (a, b), f.where(), "converting from %s to %s and back does not give the value back" % (a, b))
            except NotAlgebraic:
                ctx.count("undecided")


def judge_calls(ctx, prog, f):
    """a value is converted from the unit it has into the unit asked for"""
    from sa.scope import Scope
    for g in prog.funcs:
        sc = None
        for n in ast.walk(g.node):
            if not isinstance(n, ast.Call):
                continue
            sc = sc or Scope(prog, g.module, g.node)
            r = sc.resolve(n.func)
            if not (r and r[0] == "func" and r[1] is f):
                continue
            a = list(n.args) + [None] * 3
            for k in n.keywords:
                if k.arg in f.params:
                    a[f.params.index(k.arg)] = k.value
            ctx.count("conversion calls")
            ctx.obligation()
            src, dst = a[1], a[2]
            if "self" not in g.params[:1] or "unit" not in g.params:
                continue
            own = isinstance(dst, ast.Attribute) and isinstance(dst.value, ast.Name) and dst.value.id == "self"
            asked = isinstance(src, ast.Name) and src.id == "unit" and "unit" not in sc.bound - set(g.params)
            if own and asked:
                ctx.report("convert-reversed", g.qual, g.where(n), "values are converted from the unit asked for into their own unit")


def run(ctx):
    prog = ctx.prog
    ctx.rule("Every entry of the literal unit and prefix tables has the factor and the dimension of its SI definition.")
    ctx.rule("The conversion, evaluated on symbolic units with and without denominator, multiplies by the ratio of the two parsed factors and refuses units that differ in any dimension; the parsing, evaluated on a symbolic symbol, raises prefix and factor to the power and refuses unknown prefixes and trailing text.")
    sym, pre = tables(ctx, prog)
    m = sym[0]
    f = m.functions.get("convert")
    if f is None:
        raise AnalysisError("conversion function not found in %s" % m.name)
    parse = find_parse(prog, f, sym)
    judge_convert(ctx, prog, f, parse)
    judge_parse(ctx, prog, parse, sym, pre)
    judge_special(ctx, prog, f, parse)
    judge_calls(ctx, prog, f)
    if not any(isinstance(n, ast.Constant) and isinstance(n.value, str) and "^" in n.value for g in (f, parse) for n in ast.walk(g.node)):
        ctx.report("power-sign", f.name, f.where(), "units written with a power sign are not handled")
    ctx.selftest("ratio", want_factor({"unit1": True, "unit2": False}) != want_factor({"unit1": False, "unit2": False}))
    ctx.need("unit symbols", 20)
    ctx.need("unit prefixes", 20)
    ctx.need("conversion scenarios", 28)
    ctx.need("parsing scenarios", 6)
    ctx.need("conversion calls", 8)


def find_parse(prog, f, sym):
    """the function called by the conversion that reads the symbol table"""
    from sa.scope import Scope
    todo, seen = [f], set()
    while todo:
        g = todo.pop(0)
        if id(g) in seen:
            continue
        seen.add(id(g))
        if g is not f and any(isinstance(n, ast.Name) and n.id == sym[1] for n in ast.walk(g.node)):
            return g
        sc = Scope(prog, g.module, g.node)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                r = sc.resolve(n.func)
                if r and r[0] == "func":
                    todo.append(r[1])
    raise AnalysisError("the function reading the unit table was not found")
