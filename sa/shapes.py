"""Shapes of arrays as an abstract domain for sa.absint.

An array is ("t", "arr", dims, content): one dimension per axis, and a term telling how its elements were
obtained.  A dimension is ("t", "n", name, length, ops): the axis its samples belong to, their number as a
multiple of the stored samples plus a constant (or any other hashable when it is not linear), and what was
done along it.  numpy is described by what it does to the dimensions; what is not described is unknown."""

import ast

from sa.absint import C, NONE, U, UNKNOWN, Obj, Oracle, Raised, V, depth, is_c, is_t, term

ONE = (0, 1)


def N(name, length=(1, 0), ops=()):
    return ("t", "n", name, length, tuple(ops))


def arr(dims, content=None):
    if depth(content) > 40:
        content = ("deep",)
    return ("t", "arr", tuple(dims), content)


def is_arr(i):
    return is_t(i) and i[1] == "arr"


def is_n(i):
    return is_t(i) and i[1] == "n"


def linear(l):
    return isinstance(l, tuple) and len(l) == 2 and all(isinstance(x, int) for x in l)


def did(d, *ops, **kw):
    """the dimension after an operation along it"""
    if d[4] and (d[4][-1], ops) == (("inverse fourier",), (("fourier",),)):
        return N(d[2], kw.get("length", d[3]), d[4][:-1])
    return N(d[2], kw.get("length", d[3]), d[4] + ops)


def count(d):
    """the number of samples as a value of the program"""
    if linear(d[3]) and d[3][0] == 0:
        return C(d[3][1])
    return d


def dim_of(i):
    """dimension for an element of a shape"""
    if is_n(i):
        return i
    if is_c(i) and isinstance(i[2], int) and not isinstance(i[2], bool):
        return N(None, (0, i[2]))
    if i == U:
        return None
    return N(None, ("expr", i))


def is_one(d):
    return d[3] == ONE


REDUCE = {"sum", "nansum", "mean", "nanmean", "max", "min", "nanmax", "nanmin", "amax", "amin", "prod", "nanprod", "median", "nanmedian", "std", "nanstd", "var", "average", "any", "all", "ptp"}
AREA = {"trapz", "trapezoid", "simpson", "simps"}
SAME = {"abs", "absolute", "fabs", "sqrt", "log", "log10", "exp", "real", "imag", "conj", "conjugate", "angle", "negative", "round", "around", "round_", "nan_to_num", "square", "sin", "cos", "sign",
        "asarray", "ascontiguousarray", "copy", "float64", "complex128", "isnan", "isfinite", "degrees", "radians", "deg2rad", "rad2deg", "positive", "ceil", "floor", "real_if_close", "array", "asanyarray", "ones_like", "zeros_like", "empty_like", "full_like"}
BINARY = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/", "maximum": "max", "minimum": "min", "fmax": "max", "fmin": "min", "power": "**", "hypot": "hypot", "arctan2": "arctan2", "mod": "%"}
ALONG = {"roll": ("a", "shift", "axis"), "cumsum": ("a", "axis"), "flip": ("m", "axis"), "sort": ("a", "axis"), "fftshift": ("x", "axes"), "ifftshift": ("x", "axes"), "cumprod": ("a", "axis"), "nancumsum": ("a", "axis")}
FOURIER = {"fftn", "ifftn", "rfftn", "irfftn", "fft", "ifft", "rfft", "irfft", "fft2", "ifft2"}
SIG = {"take": ("a", "indices", "axis"), "insert": ("arr", "obj", "values", "axis"), "delete": ("arr", "obj", "axis"), "append": ("arr", "values", "axis"), "swapaxes": ("a", "axis1", "axis2"),
       "moveaxis": ("a", "source", "destination"), "expand_dims": ("a", "axis"), "squeeze": ("a", "axis"), "concatenate": ("arrays", "axis"), "stack": ("arrays", "axis"), "tile": ("A", "reps"), "repeat": ("a", "repeats", "axis"),
       "reshape": ("a", "newshape"), "zeros": ("shape", "dtype"), "ones": ("shape", "dtype"), "empty": ("shape", "dtype"), "full": ("shape", "fill_value", "dtype"), "transpose": ("a", "axes"), "gradient": ("f", "x", "axis"),
       "cumulative_trapezoid": ("y", "x", "dx", "axis", "initial"), "cumtrapz": ("y", "x", "dx", "axis", "initial"), "apply_along_axis": ("func1d", "axis", "arr"), "outer": ("a", "b"), "tensordot": ("a", "b", "axes"),
       "interp1d": ("x", "y", "kind", "axis"), "diff": ("a", "n", "axis"), "linspace": ("start", "stop", "num"), "arange": ("start",), "broadcast_to": ("array", "shape"), "rollaxis": ("a", "axis", "start"), "interp": ("x", "xp", "fp"), "searchsorted": ("a", "v"), "argsort": ("a", "axis")}
SIG.update(ALONG)
SIG.update({n: ("y", "x", "dx", "axis") for n in AREA})
SIG.update({n: ("a", "axis", "dtype", "out", "keepdims") for n in REDUCE})
SIG.update({n: ("a", "s", "axes") for n in FOURIER})
SIG.update({n: ("a", "n", "axis") for n in ("fft", "ifft", "rfft", "irfft")})
ALIAS = {"a": {"arr", "array", "x", "m", "y", "f"}}


class Fault(Exception):
    pass


class Shapes(Oracle):
    """facts about arrays; a definite mistake is kept in self.faults and raised in the program analysed"""

    def __init__(self, prog):
        self.prog = prog
        self.faults = []

    # -- helpers -------------------------------------------------------------
    def fault(self, interp, st, kind, text):
        self.faults.append((kind, text, interp.stack[-1] if interp.stack else "", tuple(interp.stack)))
        raise Raised(kind, st)

    def const(self, v):
        i = next(iter(v)) if v is not None and len(v) == 1 else None
        return i[2] if i is not None and is_c(i) else Ellipsis

    def axis(self, interp, st, v, rank, what):
        """position meant by a constant axis number, None when it is not known"""
        k = self.const(v)
        if k is Ellipsis or isinstance(k, bool) or not isinstance(k, int):
            return None
        if not -rank <= k < rank:
            self.fault(interp, st, "AxisError", "%s along axis %d of an array with %d dimensions" % (what, k, rank))
        return k % rank

    def axes(self, interp, st, v, rank, what):
        if v is None or self.const(v) is None:
            return list(range(rank))
        if self.const(v) is not Ellipsis and isinstance(self.const(v), int):
            return [self.axis(interp, st, v, rank, what)]
        ex = interp.exact_elems(v, st)
        if ex is None:
            return None
        out = [self.axis(interp, st, x, rank, what) for x in ex]
        return None if None in out else out

    def broadcast(self, interp, st, a, b, what):
        n = max(len(a), len(b))
        one = N(None, ONE)
        xs, ys = (one,) * (n - len(a)) + tuple(a), (one,) * (n - len(b)) + tuple(b)
        out = []
        for x, y in zip(xs, ys):
            if is_one(x) and is_one(y):
                out.append(x if x[2] is not None else y)
            elif is_one(x):
                out.append(y)
            elif is_one(y):
                out.append(x)
            elif x[2] is None or y[2] is None:
                out.append(x if x[2] is not None else y)
            elif x[2] != y[2]:
                self.fault(interp, st, "ValueError", "%s of values along %s with values along %s" % (what, x[2], y[2]))
            elif x[3] == y[3] or not (linear(x[3]) and linear(y[3])):
                out.append(x if len(x[4]) >= len(y[4]) else y)
            else:
                self.fault(interp, st, "ValueError", "%s of %s samples along %s with %s samples" % (what, said(x[3]), x[2], said(y[3])))
        return tuple(out)

    def scalar(self, i):
        if is_c(i):
            return not isinstance(i[2], (str, tuple))
        if i[0] == "x":
            return True
        return is_t(i) and i != U and "'arr'" not in repr(i)

    def same_length(self, interp, st, d, x, what):
        """samples along a dimension against the abscissae given for it"""
        if is_arr(x) and len(x[2]) == 1:
            e = x[2][0]
            if e[2] is not None and d[2] is not None and e[2] != d[2]:
                self.fault(interp, st, "ValueError", "%s: values along %s with abscissae along %s" % (what, d[2], e[2]))
            if linear(e[3]) and linear(d[3]) and e[3] != d[3]:
                self.fault(interp, st, "ValueError", "%s: %s samples along %s with %s abscissae" % (what, said(d[3]), d[2], said(e[3])))

    # -- hooks ---------------------------------------------------------------
    def type_of(self, i, interp, st):
        if is_arr(i):
            return "ndarray"
        if is_n(i):
            return "int"
        return None

    def nonempty(self, i, interp, st):
        return True if is_arr(i) else None

    def truth(self, t, interp, st):
        """samples are numerous where their number is not a constant"""
        if is_t(t) and t[1] == "cmp" and len(t) == 5:
            a, b = t[3], t[4]
            if is_n(a) and is_n(b) and a[2] == b[2] and linear(a[3]) and linear(b[3]):
                x, y = a[3], b[3]
            elif is_n(a) and linear(a[3]) and is_c(b) and isinstance(b[2], int):
                x, y = a[3], (0, b[2])
            elif is_n(b) and linear(b[3]) and is_c(a) and isinstance(a[2], int):
                x, y = (0, a[2]), b[3]
            elif is_n(a) and is_c(b) and b[2] in (0, 1, 2):
                x, y = (1, 0), (0, b[2])
            elif is_n(b) and is_c(a) and a[2] in (0, 1, 2):
                x, y = (0, a[2]), (1, 0)
            else:
                return None
            x, y = x[0] * 1000 + x[1], y[0] * 1000 + y[1]
            return {"==": x == y, "<": x < y, "<=": x <= y}[t[2]]
        return None

    def attr(self, interp, st, b, name):
        if not is_arr(b):
            return None
        if name == "shape":
            return V(("tu", tuple(V(d) for d in b[2])))
        if name == "ndim":
            return V(C(len(b[2])))
        if name == "size":
            if len(b[2]) == 1:
                return V(count(b[2][0]))
            return V(term("size", b))
        if name == "T":
            return V(arr(b[2][::-1], b[3]))
        if name in ("real", "imag"):
            return V(arr(b[2], (name, b[3])))
        return None

    def binop(self, interp, st, op, a, b, node):
        if is_n(a) and linear(a[3]) and is_c(b) and isinstance(b[2], int) and op in "+-*":
            x, k = a[3], b[2]
            return V(count(N(a[2], (x[0], x[1] + k) if op == "+" else (x[0], x[1] - k) if op == "-" else (x[0] * k, x[1] * k), a[4])))
        if is_n(b) and linear(b[3]) and is_c(a) and isinstance(a[2], int) and op in "+*":
            return self.binop(interp, st, op, b, a, node)
        if is_arr(a) or is_arr(b):
            if is_arr(a) and is_arr(b):
                return V(arr(self.broadcast(interp, st, a[2], b[2], "operation %s" % op), ("bin", op, a[3], b[3])))
            x, y = (a, b) if is_arr(a) else (b, a)
            if is_n(y):
                y = term("number", y)
            if not self.scalar(y):
                return UNKNOWN
            return V(arr(x[2], ("bin", op, a[3] if is_arr(a) else y, b[3] if is_arr(b) else y)))
        return None

    def unary(self, interp, st, op, a, node):
        return V(arr(a[2], (op, a[3]))) if is_arr(a) else None

    def store(self, interp, st, node, b, v, f):
        """value of an array after some of its elements are set"""
        if not is_arr(b):
            return None
        self.where = None
        into = self.subscript(interp, st, b, node, f)
        for i in v:
            for j in into or ():
                if is_arr(i) and is_arr(j):
                    xs = [d for d in i[2] if not is_one(d)]
                    if len(i[2]) > len(j[2]) and len(xs) > len(j[2]):
                        self.fault(interp, st, "ValueError", "values with %d dimensions are stored in %d" % (len(xs), len(j[2])))
                    self.broadcast(interp, st, j[2], i[2], "storing")
        if isinstance(b[3], tuple) and b[3][:1] == ("set",) and (len(v) != 1 or b[3][3] > 3):
            return V(arr(b[2], ("set", "elements", None, 4)))
        return frozenset(arr(b[2], ("set", b[3], i[3] if is_arr(i) else i, b[3][3] + 1 if isinstance(b[3], tuple) and b[3][:1] == ("set",) else 1, self.where)) for i in v)

    def subscript(self, interp, st, b, node, f):
        if not is_arr(b):
            return None
        parts = list(node.elts) if isinstance(node, ast.Tuple) else [node]
        keys = []

        def key(i):
            if is_t(i) and i[1] == "slice of":
                return ("slice", [V(x) for x in i[2]])
            return ("item", NONE if i == ("x", "numpy.newaxis") else i)
        for p in parts:
            if isinstance(p, ast.Slice):
                keys.append(("slice", [interp.ev(x, st, f) if x is not None else V(NONE) for x in (p.lower, p.upper, p.step)]))
            else:
                v = interp.ev(p, st, f)
                i = next(iter(v)) if len(v) == 1 else U
                if i[0] == "tu" and len(parts) == 1:
                    keys += [key(next(iter(x)) if len(x) == 1 else U) for x in i[1]]
                else:
                    keys.append(key(i))
        if sum(1 for k in keys if k[0] == "item" and is_arr(k[1])) > 1:
            # positions taken together
            return UNKNOWN
        used = sum(1 for k in keys if k not in (("item", C(Ellipsis)), ("item", NONE)))
        if used > len(b[2]):
            self.fault(interp, st, "IndexError", "%d indices for an array with %d dimensions" % (used, len(b[2])))
        if ("item", C(Ellipsis)) not in keys:
            keys.append(("item", C(Ellipsis)))
        rest, dims, content = list(b[2]), [], b[3]
        self.where = tuple(k[1] if k[0] == "item" else ("slice",) + tuple(self.const(x) for x in k[1]) for k in keys)
        for k in keys:
            if k == ("item", C(Ellipsis)):
                n = len(rest) - (used - sum(1 for x in keys[:keys.index(k)] if x != ("item", NONE)))
                dims += rest[:n]
                rest = rest[n:]
                continue
            if k == ("item", NONE):
                dims.append(N(None, ONE))
                continue
            d = rest.pop(0)
            if k[0] == "slice":
                e = sliced(d, [self.const(x) for x in k[1]])
                if e != d:
                    content = ("part", content, (d[2], tuple(self.const(x) for x in k[1])))
                dims.append(e)
                continue
            e = self.chosen(interp, st, d, k[1])
            if e is None:
                return UNKNOWN
            content = ("part", content)
            if e != "drop":
                dims.append(e)
        if not dims:
            return V(term("sample", content, tuple(k[1] for k in keys if k[0] == "item" and k[1] != C(Ellipsis))))
        return V(arr(dims, content))

    def chosen(self, interp, st, d, i):
        """dimension left by indexing with an item: "drop", a dimension or None"""
        if is_c(i) and isinstance(i[2], int) and not isinstance(i[2], bool):
            return "drop"
        if is_c(i) and isinstance(i[2], tuple):
            return did(d, ("take", i), length=(0, len(i[2])))
        if is_arr(i) and len(i[2]) == 1:
            return did(d, ("take", i[3]), length=i[2][0][3])
        ex = interp.exact_elems(V(i), st) if i != U else None
        if ex is not None:
            return did(d, ("take", tuple(next(iter(x)) if len(x) == 1 else U for x in ex)), length=(0, len(ex)))
        if is_t(i) and (i[1] == "in" or i[1] == "item" and is_t(i[2]) and i[2][1] == "call" and i[2][2] in ("numpy.nonzero", "numpy.where")):
            return did(d, ("take", i), length=("len", i))
        if is_t(i) and i[1] in ("elem", "idx", "range", "bin"):
            return "drop"
        return None

    # -- calls ---------------------------------------------------------------
    def call(self, interp, st, fn, args, kw, node):
        if fn[0] == "bi":
            if fn[1] == "len" and args and len(args[0]) == 1 and is_arr(next(iter(args[0]))):
                return V(count(next(iter(args[0]))[2][0]))
            if fn[1] == "slice" and args and all(len(x) == 1 for x in args):
                xs = [next(iter(x)) for x in args]
                xs = [NONE] + xs if len(xs) == 1 else xs
                return V(term("slice of", tuple(xs + [NONE] * (3 - len(xs)))))
            if fn[1] == "abs" and args and all(is_arr(i) for i in args[0]):
                return frozenset(arr(i[2], ("abs", i[3])) for i in args[0])
            return None
        if is_t(fn) and fn[1] == "interpolant" and args:
            d, k, c = list(fn[2]), fn[3], fn[4]
            x = next(iter(args[0])) if len(args[0]) == 1 else U
            e = x[2][0] if is_arr(x) and len(x[2]) == 1 else None
            d[k] = did(d[k], ("interpolated",), length=e[3] if e is not None else ("expr", x))
            return V(arr(d, ("interpolated", c)))
        if fn[0] != "x" or not fn[1].startswith(("numpy", "scipy")):
            return None
        name = fn[1].split(".")[-1]
        return self.numpy(interp, st, name, args, kw, node)

    def method(self, interp, st, b, name, args, kw, node):
        if b[0] == "o" and name in ("ravel", "flatten") and st.heap[b[1]].kind == "list":
            return V(b)
        if not is_arr(b) or name == "__getitem__":
            return None
        if name in ("copy", "astype", "view"):
            return V(b)
        if name in ("ravel", "flatten"):
            return V(b) if len(b[2]) == 1 else UNKNOWN
        if name == "reshape" and len(args) > 1:
            return self.numpy(interp, st, name, [V(b), V(("tu", tuple(args)))], kw, node)
        if name == "transpose":
            return V(arr(b[2][::-1], b[3])) if not args else UNKNOWN
        if name == "argsort" and not args and not kw and b[3] and b[3][0] == "array" and all(is_c(x) for x in b[3][1]):
            xs = [x[2] for x in b[3][1]]
            return V(interp.new(st, interp.site(node, "argsort"), Obj("list", exact=tuple(V(C(k)) for k in sorted(range(len(xs)), key=lambda k: xs[k])))))
        if name in ("any", "all") and not args and not kw:
            return V(term("call", "." + name, b[3], (), ()))
        if name in SIG or name in SAME:
            return self.numpy(interp, st, name, [V(b)] + list(args), kw, node)
        return None

    def numpy(self, interp, st, name, args, kw, node):
        args = list(args)
        if name in BINARY and len(args) >= 2:
            out = frozenset()
            for a in args[0]:
                for b in args[1]:
                    r = self.binop(interp, st, BINARY[name], a, b, node) if is_arr(a) or is_arr(b) else None
                    if r is None:
                        return None
                    out |= r
            return out
        if name in SAME and args:
            if all(is_arr(i) for i in args[0]):
                return frozenset(arr(i[2], ("zero",) if name == "zeros_like" else ("one",) if name in ("ones_like", "full_like") else i[3] if name in ("array", "asarray", "copy", "ascontiguousarray", "asanyarray") else (name, i[3])) for i in args[0])
            if any(is_arr(i) for i in args[0]) and len(args[0]) > 1:
                out = frozenset()
                for i in args[0]:
                    out |= self.numpy(interp, st, name, [V(i)] + args[1:], kw, node) or (UNKNOWN if i == U else V(interp.mk_call("numpy." + name, None, [V(i)] + args[1:], kw)))
                return out
            if name in ("array", "asarray"):
                ex = interp.exact_elems(args[0], st)
                if ex is not None and all(len(x) == 1 for x in ex) and all((is_c(i) or is_t(i)) and not is_arr(i) and i != U for x in ex for i in x):
                    return V(arr((N(None, (0, len(ex))),), ("array", tuple(next(iter(x)) for x in ex))))
            return None
        if name not in SIG:
            return None
        d = dict(zip(SIG[name], args))
        d.update(kw)
        if name == "reshape" and "shape" in d:
            d["newshape"] = d.pop("shape")
        first = d.get(SIG[name][0])
        if first is None:
            first = next((kw[k] for k in ("a", "arr", "array", "x", "m", "y") if k in kw), None)
        g = getattr(self, "np_" + name, None)
        if g is None:
            g = self.np_reduce if name in REDUCE else self.np_area if name in AREA else self.np_along if name in ALONG else self.np_fourier if name in FOURIER else None
        if g is None or first is None:
            return None
        if name in ("zeros", "ones", "empty", "full", "linspace", "arange", "concatenate", "stack", "apply_along_axis", "outer", "tensordot", "interp1d", "interp"):
            return g(interp, st, name, d, node)
        if not any(is_arr(i) for i in first):
            return None
        out = frozenset()
        for i in first:
            if not is_arr(i):
                return UNKNOWN
            r = g(interp, st, name, i, d)
            if r is None:
                return UNKNOWN
            out |= r
        return out

    def np_reduce(self, interp, st, name, a, d):
        keep = self.const(d.get("keepdims", V(C(False))))
        ks = self.axes(interp, st, d.get("axis"), len(a[2]), name)
        if ks is None or keep is Ellipsis:
            return None
        content = ("red", name, tuple(a[2][k][2] for k in ks), a[3])
        dims = [did(x, (name,), length=ONE) if k in ks else x for k, x in enumerate(a[2]) if keep or k not in ks]
        return V(arr(dims, content)) if dims or isinstance(self.const(d.get("axis", V(NONE))), int) else V(term("num", content))

    def np_area(self, interp, st, name, a, d):
        k = self.axis(interp, st, d.get("axis", V(C(-1))), len(a[2]), name)
        if k is None:
            return None
        for x in d.get("x", ()):
            self.same_length(interp, st, a[2][k], x, name)
        x = d.get("x")
        content = ("red", "trapz", (a[2][k][2],), a[3], next(iter(x))[3] if x and len(x) == 1 and is_arr(next(iter(x))) else None)
        dims = a[2][:k] + a[2][k + 1:]
        return V(arr(dims, content))

    def np_along(self, interp, st, name, a, d):
        ks = self.axes(interp, st, d.get("axis", d.get("axes")), len(a[2]), name)
        if ks is None or name == "roll" and self.const(d.get("axis", V(NONE))) is None and len(a[2]) > 1:
            return None
        tag = "shift" if name in ("fftshift", "ifftshift") else name
        if tag == "shift":
            return V(arr(a[2], (tag, tuple(a[2][k][2] for k in ks), a[3])))
        return V(arr([did(x, (tag,)) if k in ks else x for k, x in enumerate(a[2])], (tag, tuple(a[2][k][2] for k in ks), a[3])))

    def np_fourier(self, interp, st, name, a, d):
        v = d.get("axis", V(C(-1))) if name in ("fft", "ifft", "rfft", "irfft") else d.get("axes")
        ks = self.axes(interp, st, v, len(a[2]), name)
        if ks is None or not ks:
            return None
        if self.const(d.get("s", d.get("n", V(NONE)))) is not None:
            return None
        if len(set(ks)) < len(ks):
            return None
        dims = []
        for k, x in enumerate(a[2]):
            if k not in ks:
                dims.append(x)
            elif k == ks[-1] and name.startswith("rfft"):
                dims.append(did(x, ("fourier",), length=x[3][1] if x[3][0] == "double" else half(x[3])))
            elif k == ks[-1] and name.startswith("irfft"):
                dims.append(did(x, ("inverse fourier",), length=x[3][1] if x[3][0] == "half" else double(x[3])))
            else:
                dims.append(did(x, ("inverse fourier" if name.startswith("i") else "fourier",)))
        return V(arr(dims, (name, tuple(a[2][k][2] for k in ks), a[3])))

    def np_take(self, interp, st, name, a, d):
        if "axis" not in d or self.const(d["axis"]) is None:
            return None
        k = self.axis(interp, st, d["axis"], len(a[2]), name)
        if k is None or "indices" not in d:
            return None
        out = frozenset()
        for i in d["indices"]:
            e = self.chosen(interp, st, a[2][k], i)
            if e is None:
                e = did(a[2][k], ("take", i), length=("len", i)) if is_t(i) and i != U and i[1] not in ("idx", "elem", "bin") else None
            if e is None:
                return None
            dims = a[2][:k] + (() if e == "drop" else (e,)) + a[2][k + 1:]
            out |= V(arr(dims, ("part", a[3]))) if dims else V(term("sample", a[3]))
        return out

    def np_delete(self, interp, st, name, a, d):
        if "axis" not in d:
            return None
        k = self.axis(interp, st, d["axis"], len(a[2]), name)
        if k is None or not isinstance(self.const(d.get("obj", V(NONE))), int):
            return None
        x = a[2][k]
        return V(arr(a[2][:k] + (N(x[2], plus(x[3], -1), x[4]),) + a[2][k + 1:], ("part", a[3])))

    def np_insert(self, interp, st, name, a, d):
        if "axis" not in d:
            return None
        k = self.axis(interp, st, d["axis"], len(a[2]), name)
        if k is None or not isinstance(self.const(d.get("obj", V(NONE))), int):
            return None
        x = a[2][k]
        vs = d.get("values", frozenset())
        for v in vs:
            if is_arr(v) and len(v[2]) == len(a[2]) - 1:
                self.broadcast(interp, st, a[2][:k] + a[2][k + 1:], v[2], name)
        v = next(iter(vs)) if len(vs) == 1 else None
        return V(arr(a[2][:k] + (N(x[2], plus(x[3], 1), x[4]),) + a[2][k + 1:], ("join", a[3], v[3] if v is not None and is_arr(v) else v)))

    def np_append(self, interp, st, name, a, d):
        v = next(iter(d.get("values", UNKNOWN))) if len(d.get("values", UNKNOWN)) == 1 else U
        if len(a[2]) != 1 and "axis" not in d:
            return None
        if len(a[2]) == 1:
            x = a[2][0]
            if is_arr(v) and len(v[2]) == 1:
                return V(arr((N(x[2], total(x[3], v[2][0][3]), x[4]),), ("join", a[3], v[3])))
            if v != U and self.scalar(v):
                return V(arr((N(x[2], plus(x[3], 1), x[4]),), ("join", a[3], v)))
            return None
        if is_arr(v):
            return self.join(interp, st, [a, v], d["axis"], name)
        return None

    def np_swapaxes(self, interp, st, name, a, d):
        ks = [self.axis(interp, st, d[p], len(a[2]), name) if p in d else None for p in ("axis1", "axis2")]
        if None in ks:
            return None
        dims = list(a[2])
        dims[ks[0]], dims[ks[1]] = dims[ks[1]], dims[ks[0]]
        return V(arr(dims, a[3]))

    def np_moveaxis(self, interp, st, name, a, d):
        ks = [self.axis(interp, st, d[p], len(a[2]), name) if p in d else None for p in ("source", "destination")]
        if None in ks:
            return None
        dims = list(a[2])
        x = dims.pop(ks[0])
        dims.insert(ks[1], x)
        return V(arr(dims, a[3]))

    def np_expand_dims(self, interp, st, name, a, d):
        k = self.axis(interp, st, d["axis"], len(a[2]) + 1, name) if "axis" in d else None
        return V(arr(a[2][:k] + (N(None, ONE),) + a[2][k:], a[3])) if k is not None else None

    def np_squeeze(self, interp, st, name, a, d):
        if "axis" in d and self.const(d["axis"]) is not None:
            k = self.axis(interp, st, d["axis"], len(a[2]), name)
            if k is None:
                return None
            if linear(a[2][k][3]) and not is_one(a[2][k]):
                self.fault(interp, st, "ValueError", "squeeze of %s" % a[2][k][2])
            return V(arr(a[2][:k] + a[2][k + 1:], a[3]))
        return V(arr([x for x in a[2] if not is_one(x)], a[3]))

    def np_transpose(self, interp, st, name, a, d):
        if "axes" in d:
            ks = self.axes(interp, st, d["axes"], len(a[2]), name)
            return V(arr([a[2][k] for k in ks], a[3])) if ks is not None and len(ks) == len(a[2]) else None
        return V(arr(a[2][::-1], a[3]))

    def np_gradient(self, interp, st, name, a, d):
        k = self.axis(interp, st, d["axis"], len(a[2]), name) if "axis" in d else 0 if len(a[2]) == 1 else None
        if k is None:
            return None
        for x in d.get("x", ()):
            self.same_length(interp, st, a[2][k], x, name)
        x = d.get("x")
        return V(arr(a[2][:k] + (did(a[2][k], (name,)),) + a[2][k + 1:], ("gradient", a[2][k][2], a[3], next(iter(x))[3] if x and len(x) == 1 and is_arr(next(iter(x))) else None)))

    def np_cumulative_trapezoid(self, interp, st, name, a, d):
        k = self.axis(interp, st, d.get("axis", V(C(-1))), len(a[2]), name)
        if k is None:
            return None
        for x in d.get("x", ()):
            self.same_length(interp, st, a[2][k], x, name)
        x, at = a[2][k], d.get("x")
        ini = self.const(d.get("initial", V(NONE)))
        x = did(x, ("primitive",), length=x[3] if ini is not None else plus(x[3], -1))
        return V(arr(a[2][:k] + (x,) + a[2][k + 1:], ("primitive", a[2][k][2], a[3], next(iter(at))[3] if at and len(at) == 1 and is_arr(next(iter(at))) else None, ini)))

    np_cumtrapz = np_cumulative_trapezoid

    def np_diff(self, interp, st, name, a, d):
        k = self.axis(interp, st, d.get("axis", V(C(-1))), len(a[2]), name)
        if k is None or self.const(d.get("n", V(C(1)))) != 1:
            return None
        x = a[2][k]
        return V(arr(a[2][:k] + (did(x, ("diff",), length=plus(x[3], -1)),) + a[2][k + 1:], ("diff", a[3])))

    def np_tile(self, interp, st, name, a, d):
        v = d.get("reps", UNKNOWN)
        ex = interp.exact_elems(v, st)
        if ex is None and isinstance(self.const(v), int):
            ex = (v,)
        if ex is None or any(len(x) != 1 for x in ex):
            return None
        reps = [next(iter(x)) for x in ex]
        dims = list(a[2])
        if len(reps) > len(dims):
            return None
        off = len(dims) - len(reps)
        for k, r in enumerate(reps):
            if r == C(1):
                continue
            x = dims[off + k]
            dims[off + k] = did(x, ("repeated",), length=(x[3][0] * r[2], x[3][1] * r[2]) if linear(x[3]) and is_c(r) and isinstance(r[2], int) else ("times", x[3], r))
        return V(arr(dims, ("repeated", a[3])))

    def np_repeat(self, interp, st, name, a, d):
        return None

    def np_reshape(self, interp, st, name, a, d):
        v = d.get("newshape", UNKNOWN)
        ex = interp.exact_elems(v, st)
        if ex is None:
            return V(a) if len(a[2]) == 1 and self.const(v) == -1 else None
        if any(len(x) != 1 for x in ex):
            return None
        es = [next(iter(x)) for x in ex]
        if len(a[2]) == 1 and es.count(C(-1)) == 1 and all(x in (C(1), C(-1)) for x in es):
            return V(arr([a[2][0] if x == C(-1) else N(None, ONE) for x in es], a[3]))
        dims = [dim_of(x) for x in es]
        if None in dims or any(x == C(-1) for x in es):
            return None
        had, has = sorted(str(x[2:4]) for x in a[2] if not is_one(x)), sorted(str(x[2:4]) for x in dims if not is_one(x))
        if had != has or [x[2] for x in a[2] if not is_one(x)] != [x[2] for x in dims if not is_one(x)]:
            return None
        return V(arr(dims, a[3]))

    def np_broadcast_to(self, interp, st, name, a, d):
        ex = interp.exact_elems(d.get("shape", UNKNOWN), st)
        if ex is None or any(len(x) != 1 for x in ex):
            return None
        dims = [dim_of(next(iter(x))) for x in ex]
        return None if None in dims else V(arr(self.broadcast(interp, st, a[2], dims, name), a[3]))

    # functions of something else than an array
    def np_zeros(self, interp, st, name, d, node):
        v = d["shape"]
        if len(v) > 1:
            return frozenset().union(*[self.np_zeros(interp, st, name, dict(d, shape=V(x)), node) for x in v])
        ex = interp.exact_elems(v, st)
        if ex is None:
            i = next(iter(v)) if v else U
            if not (is_c(i) or is_n(i) or is_t(i) and i[1] == "call" and i[2] == "len"):
                return UNKNOWN
            ex = (v,)
        if any(len(x) != 1 for x in ex):
            return UNKNOWN
        es = [next(iter(x)) for x in ex]
        if name == "ones" and es and all(is_c(x) and isinstance(x[2], int) for x in es) and all(x[2] == 1 for x in es[:-1]) and es[-1][2] < 12:
            return V(interp.new(st, interp.site(node, "ones"), Obj("list", exact=(V(C(1)),) * es[-1][2])))
        dims = [dim_of(x) for x in es]
        if None in dims:
            return UNKNOWN
        return V(arr(dims, ("zero",) if name == "zeros" else (name,)))

    np_ones = np_empty = np_full = np_zeros

    def np_linspace(self, interp, st, name, d, node):
        n = d.get("num", V(C(50)))
        i = next(iter(n)) if len(n) == 1 else U
        x = dim_of(i)
        return V(arr((N(None, x[3], ()),), ("linspace",))) if x is not None else None

    def np_arange(self, interp, st, name, d, node):
        return None

    def parts(self, interp, st, v):
        ex = interp.exact_elems(v, st)
        if ex is None or any(len(x) != 1 for x in ex):
            return None
        xs = [next(iter(x)) for x in ex]
        for k, x in enumerate(xs):
            if not is_arr(x):
                e = interp.exact_elems(V(x), st)
                if e is None:
                    return None
                xs[k] = arr((N(None, (0, len(e))),), ("array",))
        return xs

    def np_concatenate(self, interp, st, name, d, node):
        xs = self.parts(interp, st, d["arrays"])
        return self.join(interp, st, xs, d.get("axis", V(C(0))), name) or UNKNOWN if xs else None

    def join(self, interp, st, xs, axis, name):
        if len({len(x[2]) for x in xs}) > 1:
            self.fault(interp, st, "ValueError", "%s of arrays with different numbers of dimensions" % name)
        k = self.axis(interp, st, axis, len(xs[0][2]), name)
        if k is None:
            return None
        dims = []
        for j in range(len(xs[0][2])):
            if j == k:
                named = next((x[2][j] for x in xs if x[2][j][2] is not None), xs[0][2][j])
                l = xs[0][2][j][3]
                for x in xs[1:]:
                    l = total(l, x[2][j][3])
                names = {x[2][j][2] for x in xs} - {None}
                dims.append(N(named[2] if len(names) <= 1 else None, l, named[4]))
            else:
                e = xs[0][2][j]
                for x in xs[1:]:
                    y = x[2][j]
                    if e[2] is not None and y[2] is not None and (e[2] != y[2] or linear(e[3]) and linear(y[3]) and e[3] != y[3]):
                        self.fault(interp, st, "ValueError", "%s of values along %s with values along %s" % (name, e[2], y[2]))
                    e = e if e[2] is not None else y
                dims.append(e)
        return V(arr(dims, ("join",) + tuple(x[3] for x in xs)))

    def np_stack(self, interp, st, name, d, node):
        v = d["arrays"]
        i = next(iter(v)) if len(v) == 1 else U
        if i[0] != "o" or st.heap[i[1]].kind != "list":
            return None
        o = st.heap[i[1]]
        es = {x for x in (frozenset().union(*o.exact) if o.exact else o.all_elems())}
        if len(es) != 1 or not is_arr(next(iter(es))):
            return UNKNOWN
        e = next(iter(es))
        k = self.axis(interp, st, d.get("axis", V(C(0))), len(e[2]) + 1, name)
        if k is None:
            return UNKNOWN
        return V(arr(e[2][:k] + (N(None, (0, len(o.exact)) if o.exact else ("stacked",)),) + e[2][k:], ("stack", e[3])))

    def np_apply_along_axis(self, interp, st, name, d, node):
        out = frozenset()
        for a in d.get("arr", UNKNOWN):
            if not is_arr(a):
                return UNKNOWN
            k = self.axis(interp, st, d["axis"], len(a[2]), name)
            if k is None:
                return UNKNOWN
            out |= V(arr(a[2][:k] + (did(a[2][k], (name,)),) + a[2][k + 1:], (name, a[2][k][2], a[3])))
        return out

    def np_outer(self, interp, st, name, d, node):
        xs = [next(iter(d[p])) if len(d.get(p, ())) == 1 else U for p in ("a", "b")]
        if not all(is_arr(x) and len(x[2]) == 1 for x in xs):
            return UNKNOWN if any(is_arr(x) for x in xs) else None
        return V(arr(xs[0][2] + xs[1][2], ("outer", xs[0][3], xs[1][3])))

    def np_tensordot(self, interp, st, name, d, node):
        xs = [next(iter(d[p])) if len(d.get(p, ())) == 1 else U for p in ("a", "b")]
        if not all(is_arr(x) for x in xs):
            return UNKNOWN
        ex = interp.exact_elems(d.get("axes", UNKNOWN), st)
        if ex is None or len(ex) != 2:
            return UNKNOWN
        ks = [self.axes(interp, st, e, len(x[2]), name) for e, x in zip(ex, xs)]
        if None in ks or len(ks[0]) != len(ks[1]):
            return UNKNOWN
        for i, j in zip(*ks):
            x, y = xs[0][2][i], xs[1][2][j]
            if x[2] is not None and y[2] is not None and x[2] != y[2]:
                self.fault(interp, st, "ValueError", "%s of values along %s with values along %s" % (name, x[2], y[2]))
            if linear(x[3]) and linear(y[3]) and x[3] != y[3] and x[2] == y[2]:
                self.fault(interp, st, "ValueError", "%s of %s samples with %s samples along %s" % (name, said(x[3]), said(y[3]), x[2]))
        # what replaces the summed axis is the transform of that axis
        left = [x for i, x in enumerate(xs[0][2]) if i not in ks[0]]
        if len(left) == len(ks[1]) == 1:
            y = xs[1][2][ks[1][0]]
            left = [N(y[2], left[0][3], y[4] + (("matrix",),))]
        return V(arr(left + [y for j, y in enumerate(xs[1][2]) if j not in ks[1]], ("tensordot", xs[0][3], xs[1][3])))

    def np_interp1d(self, interp, st, name, d, node):
        v = d.get("y", UNKNOWN)
        a = next(iter(v)) if len(v) == 1 else U
        if not is_arr(a):
            return UNKNOWN
        k = self.axis(interp, st, d.get("axis", V(C(-1))), len(a[2]), name)
        if k is None:
            return UNKNOWN
        for x in d.get("x", ()):
            self.same_length(interp, st, a[2][k], x, name)
        return V(("t", "interpolant", a[2], k, a[3]))

    def np_argsort(self, interp, st, name, a, d):
        return V(arr([N(None, x[3]) for x in a[2]], (name, a[3]))) if len(a[2]) == 1 else None

    def np_searchsorted(self, interp, st, name, a, d):
        v = d.get("v", UNKNOWN)
        x = next(iter(v)) if len(v) == 1 else U
        return V(arr([N(None, y[3]) for y in x[2]], (name, a[3], x[3]))) if is_arr(x) else None

    def np_interp(self, interp, st, name, d, node):
        x = next(iter(d["x"])) if len(d["x"]) == 1 else U
        return V(arr(x[2], ("interpolated",))) if is_arr(x) else None


def half(l):
    """samples of the real transform"""
    return (0, l[1] // 2 + 1) if linear(l) and l[0] == 0 else ("half", l)


def double(l):
    """samples of the inverse of the real transform"""
    return (0, 2 * (l[1] - 1)) if linear(l) and l[0] == 0 and l[1] > 1 else ("double", l)


def plus(l, k):
    if linear(l):
        return (l[0], l[1] + k)
    if l[0] == "plus":
        return plus_(l[1], l[2] + k)
    return plus_(l, k)


def plus_(l, k):
    return ("plus", l, k) if k else l


def total(a, b):
    if linear(a) and linear(b):
        return (a[0] + b[0], a[1] + b[1])
    if linear(b) and b[0] == 0:
        return plus(a, b[1])
    return ("total", a, b)


def sliced(d, key):
    lo, up, step = key
    l = d[3]
    if step not in (None, 1):
        if step == -1 and lo is None and up is None:
            return did(d, ("reversed",))
        return did(d, ("slice",), length=("slice", l, str(key)))
    if lo is None and up is None:
        return d
    if not all(x is None or isinstance(x, int) and not isinstance(x, bool) for x in (lo, up)):
        return did(d, ("slice", str(key)), length=("slice", l, str(key)))
    if not linear(l) or l[0] == 0 and l[1] < 3:
        n = l[1] if linear(l) else None
        if n is not None:
            return N(d[2], (0, len(range(n)[slice(lo, up)])), d[4])
        if (lo or 0) >= 0 and (up is None or up < 0):
            return N(d[2], plus(l, (up or 0) - (lo or 0)), d[4])
        return did(d, ("slice", str(key)), length=("slice", l, str(key)))
    if l[0] == 0:
        return N(d[2], (0, len(range(l[1])[slice(lo, up)])), d[4])
    lo = lo or 0
    if lo >= 0 and (up is None or up < 0):
        return N(d[2], (l[0], l[1] - lo + (up or 0)), d[4])
    if lo >= 0:
        return N(d[2], (0, max(up - lo, 0)), d[4])
    if up is None:
        return N(d[2], (0, -lo), d[4])
    return did(d, ("slice", str(key)), length=("slice", l, str(key)))


def said(l):
    if linear(l):
        return str(l[1]) if not l[0] else ("%dN" % l[0] if l[0] != 1 else "N") + ("%+d" % l[1] if l[1] else "")
    return str(l)
