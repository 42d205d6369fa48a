"""Flow-sensitive value-provenance analysis over a term domain.

An abstract value is a finite set of items: constants, terms over the inputs
(which input, which attribute, which element, which library call), abstract heap
objects (dict, list, instance) keyed by allocation site, functions and classes.
States are joined where control flow joins and loops are iterated to a fixpoint,
so the result covers all paths at once.  Calls of library functions, accessors and
constructors are analysed in context.  A client (Oracle) gives the facts assumed
about the inputs: their types, and the truth of tests on them.
"""
import ast
import contextlib

from .model import AnalysisError, ClassInfo, FuncInfo
from .scope import Scope

U = ("?",)
ABSENT = ("absent",)
MAXITEMS = 24
MAXDEPTH = 14


def C(v):
    return ("c", type(v).__name__, v)


NONE, TRUE, FALSE = C(None), C(True), C(False)


def V(*items):
    return frozenset(items)


UNKNOWN = V(U)


def is_c(i):
    return i[0] == "c"


def is_t(i):
    return i[0] == "t"


def depth(i):
    if isinstance(i, frozenset):
        return max([depth(x) for x in i] or [0])
    if not isinstance(i, tuple):
        return 0
    if i[:2] == ("t", "arr"):
        return 2    # sa.shapes bounds the depth of its arrays
    return 1 + max([depth(x) for x in i if isinstance(x, (tuple, frozenset))] or [0])


def term(op, *args):
    t = ("t", op) + args
    return t if depth(t) <= MAXDEPTH else U


def cap(v):
    return v if len(v) <= MAXITEMS else frozenset(list(sorted(v, key=repr))[:MAXITEMS - 1]) | UNKNOWN


def show(i, n=0):
    """readable form of an item or value"""
    if isinstance(i, frozenset):
        return " | ".join(sorted(show(x, n) for x in i)) or "nothing"
    if not i or not isinstance(i[0], str):
        return "(%s)" % ", ".join(show(x, n) if isinstance(x, (tuple, frozenset)) else str(x) for x in i)
    if i[0] == "c":
        return repr(i[2])
    if i[0] == "t":
        op, a = i[1], i[2:]
        if op == "in":
            return a[0]
        if op == "attr":
            return "%s.%s" % (show(a[0]), a[1])
        if op == "call":
            args = [show(x) for x in a[2]] + ["%s=%s" % (k, show(x)) for k, x in a[3]]
            return "%s%s(%s)" % (show(a[1]) if a[1] else "", a[0], ", ".join(args))
        return "%s(%s)" % (op, ", ".join(show(x) if isinstance(x, (tuple, frozenset)) and x else str(x) for x in a))
    if i[0] in ("k", "f"):
        return i[1].name
    if i[0] == "tu":
        return "(%s)" % ", ".join(show(x) for x in i[1])
    return i[0] if i[0] != "o" else "<new %s>" % (i[1][0] if i[1] else "")


def join_pairs(a, b):
    """entries present on one side only may be absent"""
    x, y = dict(a), dict(b)
    return frozenset((k, x.get(k, V(ABSENT)) | y.get(k, V(ABSENT))) for k in set(x) | set(y))


def dict_update(a, b):
    for k, v in b:
        a = set_pair(a, k, v if ABSENT not in v else (v - {ABSENT}) | dict(a).get(k, V(ABSENT)))
    return a


def set_pair(pairs, k, v):
    return frozenset((x, y) for x, y in pairs if x != k) | {(k, v)}


class Obj:
    """abstract heap object"""
    __slots__ = ("kind", "cls", "fields", "pairs", "elems", "exact", "must")

    def __init__(self, kind, cls=None, fields=None, pairs=frozenset(), elems=frozenset(), exact=(), must=frozenset()):
        self.kind, self.cls = kind, cls
        self.fields = fields if fields is not None else {}
        self.pairs = pairs  # dict: (key item, value) for keys not known as constants
        self.elems = elems  # list: items when positions are not known
        self.exact = exact  # list: tuple of values, or None
        self.must = must    # list: values certainly contained

    def copy(self):
        return Obj(self.kind, self.cls, dict(self.fields), self.pairs, self.elems, self.exact, self.must)

    def all_elems(self):
        if self.kind == "dict":
            return frozenset().union(*[v for v in self.fields.values()], *[v for _, v in self.pairs]) - {ABSENT}
        return self.elems | (frozenset().union(*self.exact) if self.exact else frozenset())

    def same(self, o):
        return (self.kind, self.cls, self.fields, self.pairs, self.elems, self.exact, self.must) == \
            (o.kind, o.cls, o.fields, o.pairs, o.elems, o.exact, o.must)

    @staticmethod
    def join(a, b):
        if a is b or a.same(b):
            return a
        o = a.copy()
        for k in set(a.fields) | set(b.fields):
            x, y = a.fields.get(k), b.fields.get(k)
            o.fields[k] = cap((x if x is not None else V(ABSENT)) | (y if y is not None else V(ABSENT)))
        o.pairs = join_pairs(a.pairs, b.pairs)
        if a.exact == b.exact:
            o.exact, o.elems = a.exact, a.elems | b.elems
            o.must = a.must & b.must
        elif a.exact is not None and b.exact is not None and len(a.exact) == len(b.exact):
            o.exact = tuple(x | y for x, y in zip(a.exact, b.exact))
            o.elems = a.elems | b.elems
            o.must = a.must & b.must
        else:
            ma = a.must | (frozenset(a.exact) if a.exact else frozenset())
            mb = b.must | (frozenset(b.exact) if b.exact else frozenset())
            o.must = ma & mb
            o.elems = cap(a.all_elems() | b.all_elems())
            o.exact = None
        return o


class State:
    __slots__ = ("env", "heap", "facts")

    def __init__(self, env=None, heap=None, facts=None):
        self.env, self.heap, self.facts = env or {}, heap or {}, facts or {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts))

    def with_env(self, env):
        return State(env, dict(self.heap), dict(self.facts))

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        env = {}
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            env[k] = x if x == y else cap((x if x is not None else V(ABSENT)) | (y if y is not None else V(ABSENT)))
        heap = {}
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            heap[k] = x if y is None else y if x is None else Obj.join(x, y)
        facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
        return State(env, heap, facts)

    def same(self, o):
        return self.env == o.env and self.facts == o.facts and set(self.heap) == set(o.heap) and all(
            self.heap[k] is o.heap[k] or self.heap[k].same(o.heap[k]) for k in self.heap)


class Flow:
    """result of a block: state after it (or None) and the abrupt exits"""
    __slots__ = ("state", "returns", "raises", "breaks", "continues")

    def __init__(self, state):
        self.state = state
        self.returns, self.raises, self.breaks, self.continues = [], [], [], []

    def absorb(self, f):
        self.returns += f.returns
        self.raises += f.raises
        self.breaks += f.breaks
        self.continues += f.continues


class Raised(Exception):
    """evaluation of an expression certainly raises"""

    def __init__(self, exc, state):
        Exception.__init__(self)
        self.exc, self.state = exc, state


class Oracle:
    """facts assumed about the inputs; clients override"""

    def type_of(self, item, interp, st):
        return None

    def truth(self, t, interp, st):
        return None

    def nonempty(self, item, interp, st):
        return None

    def call(self, interp, st, fn, args, kw, node):
        """value for a call, or None to let the interpreter handle it; fn is an item"""
        return None

    def method(self, interp, st, base, name, args, kw, node):
        return None

    def attr(self, interp, st, base, name):
        return None

    def binop(self, interp, st, op, a, b, node):
        return None

    def unary(self, interp, st, op, a, node):
        return None

    def subscript(self, interp, st, base, node, f):
        """value of base[node], the index being a syntax tree"""
        return None

    def store(self, interp, st, node, base, value, f):
        """what base is after an assignment to base[node]"""
        return None

    def inline(self, f):
        return True

    def on_return(self, interp, f, st, value):
        pass


NEG = {"!=": "==", "is not": "is", "not in": "in", ">=": "<", ">": "<="}
OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
       ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.Pow: "**", ast.FloorDiv: "//", ast.BitOr: "|", ast.BitAnd: "&", ast.MatMult: "@"}
TYPENAMES = {"list", "dict", "str", "int", "float", "bool", "tuple", "set", "complex", "ndarray"}
PYTYPE = {"NoneType": "NoneType"}
SCALARS = {"int8", "int16", "int32", "int64", "float16", "float32", "float64", "complex64", "complex128", "number", "integer", "floating"}
BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)


class Interp:
    def __init__(self, prog, oracle=None, max_depth=24, budget=400000):
        self.p = prog
        self.o = oracle or Oracle()
        self.max_depth = max_depth
        self.stack = []
        self.scopes = {}
        self.lams = {}
        self.budget = budget
        self.raised = []
        self.unknown_calls = 0
        self.events = []
        self.turns = []     # passes of the unrolled loops being evaluated, from the second one

    # -- entry -------------------------------------------------------------
    def new(self, st, site, obj):
        st.heap[site] = obj
        return ("o", site)

    def instance(self, st, cls, tag, fields=None):
        """input object of a library class: one term per declared property"""
        return self.new(st, (tag,), Obj("inst", cls, dict(fields or {})))

    def site(self, node, extra=""):
        return (extra or type(node).__name__, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tuple(self.stack[-4:]), len(self.stack)) + tuple(self.turns)

    @contextlib.contextmanager
    def turn(self, n):
        """objects made in different passes of an unrolled loop are different objects"""
        if n:
            self.turns.append(n)
        try:
            yield
        finally:
            if n:
                self.turns.pop()

    def run(self, f, args, kw, st):
        """value of the call and the state after it; raises Raised when no path returns"""
        return self.invoke(f, args, kw, st, f.node)

    # -- calls ------------------------------------------------------------
    def scope_of(self, f):
        k = id(f.node)
        if k not in self.scopes:
            kept = self.p.__dict__.setdefault("kept_scopes", {})
            if f not in kept:
                kept[f] = Scope(self.p, f.module, f.node)
            self.scopes[k] = kept[f]
        return self.scopes[k]

    def bind(self, f, args, kw, st, extra_kw=None):
        env = {}
        pos = list(args)
        names = list(f.params)
        for n in names:
            if pos:
                env[n] = pos.pop(0)
            elif n in kw:
                env[n] = kw[n]
            elif extra_kw is not None and n in extra_kw[0]:
                env[n] = extra_kw[0][n]
            elif extra_kw is not None and extra_kw[1]:
                env[n] = UNKNOWN
            elif n in f.defaults:
                env[n] = self.default(f, f.defaults[n], st)
            else:
                env[n] = UNKNOWN
        if f.vararg:
            env[f.vararg] = V(("tu", tuple(pos)))
        for n in f.kwonly:
            if n in kw:
                env[n] = kw[n]
            elif extra_kw is not None and n in extra_kw[0]:
                env[n] = extra_kw[0][n]
            elif n in f.defaults:
                env[n] = self.default(f, f.defaults[n], st)
            else:
                env[n] = UNKNOWN
        if f.kwarg:
            rest = {C(k): v for k, v in kw.items() if k not in names and k not in f.kwonly}
            if extra_kw is not None:
                rest.update({C(k): v for k, v in extra_kw[0].items() if k not in names and k not in f.kwonly})
            env[f.kwarg] = V(self.new(st, ("kwargs", f.qual, tuple(x for x, _ in self.stack[-3:])), Obj("dict", None, rest)))
        return env

    def default(self, f, node, st):
        try:
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("list", "dict", "tuple") and not node.args and not node.keywords:
                v = {"list": list, "dict": dict, "tuple": tuple}[node.func.id]()
            else:
                v = ast.literal_eval(node)
        except (ValueError, TypeError, SyntaxError, MemoryError):
            return UNKNOWN
        if v == ():
            return V(("tu", ()))
        if isinstance(v, list):
            return V(self.new(st, ("default", f.qual, node.lineno, node.col_offset), Obj("list", None, exact=tuple(V(C(x)) for x in v if not isinstance(x, (list, dict))))))
        if isinstance(v, dict):
            return V(self.new(st, ("default", f.qual, node.lineno, node.col_offset), Obj("dict")))
        try:
            hash(v)
        except TypeError:
            return UNKNOWN
        return V(C(v))

    def invoke(self, f, args, kw, st, node, extra_kw=None):
        if len(self.stack) >= self.max_depth or sum(1 for n, _ in self.stack if n == f.qual) >= 4 or not self.o.inline(f):
            self.unknown_calls += 1
            single = [next(iter(a)) if len(a) == 1 else U for a in args]
            return V(term("call", f.name, None, tuple(single), tuple(sorted((k, next(iter(v)) if len(v) == 1 else U) for k, v in kw.items())))), st
        env = self.bind(f, args, kw, st, extra_kw)
        inner = st.with_env(env)
        self.stack.append((f.qual, getattr(node, "lineno", 0)))
        try:
            self.cur = f
            flow = self.block(f.node.body, inner, f)
        finally:
            self.stack.pop()
        out, val = None, frozenset()
        outs = list(flow.returns)
        if flow.state is not None:
            outs.append((flow.state, V(NONE)))
        for s, v in outs:
            out = State.join(out, s)
            val |= v
        if out is None:
            exc = flow.raises[0][1] if flow.raises else "Exception"
            s = None
            for x, _ in flow.raises:
                s = State.join(s, x)
            s = s or inner
            raise Raised(exc, State(st.env, s.heap, {}))
        for s, e in flow.raises:
            self.raised.append((f.qual, e))
        res = State(st.env, out.heap, out.facts)
        val = cap(val)
        self.o.on_return(self, f, res, val)
        return val, res

    # -- statements --------------------------------------------------------
    def block(self, body, st, f):
        flow = Flow(st)
        for s in body:
            if flow.state is None:
                break
            self.budget -= 1
            if self.budget < 0:
                raise AnalysisError("value analysis exceeded its budget in %s" % f.qual)
            try:
                r = self.stmt(s, flow.state, f)
            except Raised as e:
                e.state.env = flow.state.env
                flow.raises.append((e.state, e.exc))
                flow.state = None
                break
            flow.absorb(r)
            flow.state = r.state
        return flow

    def stmt(self, s, st, f):
        flow = Flow(st)
        st = flow.state
        if isinstance(s, ast.Expr):
            self.ev(s.value, st, f)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, st, f)
            for t in s.targets:
                self.assign(t, v, st, f)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st, f), st, f)
        elif isinstance(s, ast.AugAssign):
            cur = self.ev(as_load(s.target), st, f)
            v = self.ev(s.value, st, f)
            new = frozenset()
            for a in cur:
                for b in v:
                    new |= self.binop(BIN.get(type(s.op), "?"), a, b, st, s)
            self.assign(s.target, cap(new), st, f)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, st, f) if s.value is not None else V(NONE)
            flow.returns.append((st, v))
            flow.state = None
        elif isinstance(s, ast.Raise):
            name = "Exception"
            if s.exc is not None:
                e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                name = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else "Exception"
            flow.raises.append((st, name))
            flow.state = None
        elif isinstance(s, ast.If):
            a, b = self.branch(s.test, st, f)
            out = None
            for br, body in ((a, s.body), (b, s.orelse)):
                if br is None:
                    continue
                r = self.block(body, br, f)
                flow.absorb(r)
                out = State.join(out, r.state)
            flow.state = out
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.loop(s, st, f, flow)
        elif isinstance(s, ast.While):
            self.wloop(s, st, f, flow)
        elif isinstance(s, ast.Try):
            self.trystmt(s, st, f, flow)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, st, f)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, st, f)
            r = self.block(s.body, st, f)
            flow.absorb(r)
            flow.state = r.state
        elif isinstance(s, ast.Assert):
            a, b = self.branch(s.test, st, f)
            flow.state = a
            if b is not None:
                flow.raises.append((b, "AssertionError"))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                self.delete(t, st, f)
        elif isinstance(s, ast.Break):
            flow.breaks.append(st)
            flow.state = None
        elif isinstance(s, ast.Continue):
            flow.continues.append(st)
            flow.state = None
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fi = FuncInfo(s.name, f.module, s, cls=None)
            self.scopes[id(s)] = Scope(self.p, f.module, s, self.scope_of(f))
            k = ("lam", s.lineno, s.col_offset, f.qual)
            self.lams[k] = (fi, st.env)
            st.env[s.name] = V(k)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                n = al.asname or al.name.split(".")[0]
                r = self.scope_of(f).resolve(ast.Name(id=n, ctx=ast.Load()))
                st.env[n] = V(self.entity(r)) if r else UNKNOWN
        return flow

    def entity(self, r):
        return {"func": ("f", r[1]), "class": ("k", r[1]), "mod": ("m", r[1]), "ext": ("x", r[1])}.get(r[0]) or U

    def delete(self, t, st, f):
        if isinstance(t, ast.Name):
            st.env.pop(t.id, None)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, f)
            key = self.ev(t.slice, st, f)
            for b in base:
                if b[0] == "o":
                    o = st.heap[b[1]].copy()
                    if o.kind == "dict" and len(key) == 1 and is_c(next(iter(key))) and len(base) == 1:
                        o.fields.pop(next(iter(key)), None)
                    elif o.kind == "dict":
                        for k in key:
                            o.pairs = frozenset((x, v if x != k else v | V(ABSENT)) for x, v in o.pairs if x != k or len(base) * len(key) > 1)
                    elif o.kind == "list":
                        o.elems, o.exact, o.must = o.all_elems(), None, frozenset()
                    st.heap[b[1]] = o

    def loop(self, s, st, f, flow):
        it = self.ev(s.iter, st, f)
        if it == V(NONE):
            raise Raised("TypeError", st)
        exact = self.exact_elems(it, st)
        if exact is not None and len(exact) <= 40:
            cur = st
            brk = None
            for n, v in enumerate(exact):
                if cur is None:
                    break
                cur = cur.copy()
                self.assign(s.target, v, cur, f)
                with self.turn(n):
                    r = self.block(s.body, cur, f)
                flow.returns += r.returns
                flow.raises += r.raises
                for b in r.breaks:
                    brk = State.join(brk, b)
                cur = r.state
                for c in r.continues:
                    cur = State.join(cur, c)
            if cur is not None and s.orelse:
                r = self.block(s.orelse, cur, f)
                flow.absorb(r)
                cur = r.state
            flow.state = State.join(cur, brk)
            return
        sure = bool(it) and all(self.is_nonempty(i, st) for i in it)
        # every element is visited as it was when the loop started
        v = frozenset()
        for i in it:
            v |= self.elem_of(i, st, sure)
        head = st
        out = first = None
        brk = None
        rets, raises = [], []
        for _ in range(5):
            cur = head.copy()
            self.assign(s.target, cap(v) or UNKNOWN, cur, f)
            r = self.block(s.body, cur, f)
            rets, raises = r.returns, r.raises
            for b in r.breaks:
                brk = State.join(brk, b)
            cur = r.state
            for c in r.continues:
                cur = State.join(cur, c)
            out = cur
            if first is None:
                first = cur
            nxt = State.join(head, cur)
            if nxt.same(head):
                break
            head = nxt
        flow.returns += rets
        flow.raises += raises
        # when the sequence is not empty the first pass certainly happens
        end = State.join(first, out) if sure else State.join(head, out)
        if end is not None and s.orelse:
            r = self.block(s.orelse, end, f)
            flow.absorb(r)
            end = r.state
        # leaving early: elements may remain unprocessed
        flow.state = State.join(State.join(end, brk), st) if brk is not None else end

    def wloop(self, s, st, f, flow):
        brk = None
        end = None
        rets, raises = [], []
        # passes whose test is decided are followed one by one
        cur = st
        for _ in range(40):
            c = self.cond(s.test, cur, f)
            if c != {True}:
                break
            r = self.block(s.body, cur.copy(), f)
            flow.returns += r.returns
            flow.raises += r.raises
            for x in r.breaks:
                brk = State.join(brk, x)
            cur = r.state
            for x in r.continues:
                cur = State.join(cur, x)
            if cur is None:
                flow.state = brk
                return
        head = cur
        for _ in range(4):
            a, b = self.branch(s.test, head.copy(), f)
            end = State.join(end, b)
            if a is None:
                break
            r = self.block(s.body, a, f)
            rets, raises = r.returns, r.raises
            for x in r.breaks:
                brk = State.join(brk, x)
            cur = r.state
            for c in r.continues:
                cur = State.join(cur, c)
            if cur is None:
                break
            nxt = State.join(head, cur)
            if nxt.same(head):
                break
            head = nxt
        flow.returns += rets
        flow.raises += raises
        if end is not None and s.orelse:
            r = self.block(s.orelse, end, f)
            flow.absorb(r)
            end = r.state
        flow.state = State.join(end, brk)

    def trystmt(self, s, st, f, flow):
        start = st.copy()
        r = self.block(s.body, st, f)
        mid = State.join(start, r.state.copy() if r.state is not None else None)
        for x, _ in r.returns + r.raises:
            mid = State.join(mid, State(mid.env, x.heap, x.facts))
        end = r.state
        if end is not None and s.orelse:
            q = self.block(s.orelse, end, f)
            flow.absorb(q)
            end = q.state
        left = list(r.raises)
        flow.returns += r.returns
        flow.breaks += r.breaks
        flow.continues += r.continues
        certain = r.state is None and not r.returns and not r.breaks and not r.continues
        for h in s.handlers:
            caught = []
            for x, e in left:
                if self.catches(h, e, f):
                    caught.append((x, e))
            left = [x for x in left if x not in caught]
            if certain and not caught and r.raises:
                continue
            hs = mid.copy()
            if h.name:
                hs.env[h.name] = UNKNOWN
            q = self.block(h.body, hs, f)
            flow.absorb(q)
            end = State.join(end, q.state)
        flow.raises += left
        if s.finalbody:
            if end is not None:
                q = self.block(s.finalbody, end, f)
                flow.absorb(q)
                end = q.state
        flow.state = end

    def catches(self, h, exc, f):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            n = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else ""
            if n in ("Exception", "BaseException") or n == exc:
                return True
            c = self.p.classes.get(exc)
            if c and any(k.name == n for k in c.mro()):
                return True
            if n == "LookupError" and exc in ("KeyError", "IndexError"):
                return True
        return False

    # -- assignment --------------------------------------------------------
    def assign(self, t, v, st, f):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Starred):
            self.assign(t.value, UNKNOWN, st, f)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = [frozenset() for _ in t.elts]
            for i in v:
                ex = self.exact_elems(V(i), st)
                if ex is not None and len(ex) == len(t.elts):
                    for k, x in enumerate(ex):
                        parts[k] |= x
                elif is_t(i):
                    for k in range(len(parts)):
                        parts[k] |= V(term("item", i, C(k)))
                else:
                    for k in range(len(parts)):
                        parts[k] |= UNKNOWN
            for e, x in zip(t.elts, parts):
                self.assign(e, x or UNKNOWN, st, f)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, f)
            for b in base:
                self.setattr(b, t.attr, v, st, t, len(base) == 1)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, f)
            key = self.ev(t.slice, st, f) if not isinstance(t.slice, ast.Slice) else UNKNOWN
            for b in base:
                self.setitem(b, key, v, st, len(base) == 1)
            if isinstance(t.value, ast.Name) and t.value.id in st.env:
                got = [self.o.store(self, st, t.slice, b, v, f) for b in base if is_t(b)]
                if got and len(got) == len(base) and None not in got:
                    st.env[t.value.id] = cap(frozenset().union(*got))

    def setattr(self, b, name, v, st, node, strong):
        if b[0] != "o":
            self.events.append(("setattr", b, name, v, tuple(self.stack)))
            return
        o = st.heap[b[1]]
        if o.kind == "inst" and o.cls is not None:
            p = o.cls.find_property(name)
            if p is not None and p[1] is not None:
                _, s2 = self.invoke(p[1], [V(b), v], {}, st, node)
                st.heap, st.facts = s2.heap, s2.facts
                return
        o = o.copy()
        o.fields[name] = v if strong else v | o.fields.get(name, frozenset())
        st.heap[b[1]] = o

    def setitem(self, b, key, v, st, strong):
        if b[0] != "o":
            self.events.append(("setitem", b, key, v, tuple(self.stack)))
            return
        o = st.heap[b[1]].copy()
        k = next(iter(key)) if len(key) == 1 else U
        if o.kind == "dict":
            if is_c(k):
                o.fields[k] = v if strong else v | o.fields.get(k, V(ABSENT))
            else:
                # the key stands for the element the loop is at: every element is set in its own pass
                for kk in key:
                    old = dict(o.pairs).get(kk, V(ABSENT))
                    o.pairs = set_pair(o.pairs, kk, v if strong and len(key) == 1 else cap(old | v))
        elif o.kind == "list":
            if o.exact is not None and is_c(k) and isinstance(k[2], int) and -len(o.exact) <= k[2] < len(o.exact):
                e = list(o.exact)
                e[k[2]] = v
                o.exact = tuple(e)
            elif is_t(k) and k[1] == "idx" and strong:
                o.elems, o.exact, o.must = v, None, V(v)
            else:
                o.elems, o.exact, o.must = cap(o.all_elems() | v), None, frozenset()
        st.heap[b[1]] = o

    # -- truth ---------------------------------------------------------------
    def truth(self, i, st):
        if is_c(i):
            try:
                return bool(i[2])
            except Exception:
                return None
        if i[0] in ("f", "k", "b", "m", "lam", "bi", "x"):
            return True
        if i[0] == "tu":
            return bool(i[1])
        if i[0] == "o":
            o = st.heap[i[1]]
            if o.kind == "inst":
                return True
            if o.kind == "list":
                if o.exact is not None:
                    return bool(o.exact)
                return True if o.must else None
            if any(ABSENT not in v for v in o.fields.values()) or any(ABSENT not in v for _, v in o.pairs):
                return True
            if not o.fields and not o.pairs:
                return False
            return None
        if is_t(i):
            if i[1] == "not":
                r = self.truth(i[2], st)
                return None if r is None else not r
            if i in st.facts:
                return st.facts[i]
            r = self.o.truth(i, self, st)
            if r is not None:
                return r
            if i[1] == "cmp":
                return None
        return None

    def cond(self, test, st, f):
        """set of possible outcomes of a test, without changing the state"""
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            res = set()
            cur = st
            for k, v in enumerate(test.values):
                c = self.cond(v, cur, f)
                last = k == len(test.values) - 1
                if isand:
                    if False in c:
                        res.add(False)
                    if True not in c:
                        return res
                    if last:
                        res.add(True)
                    cur = self.assume(v, True, cur.copy(), f)
                else:
                    if True in c:
                        res.add(True)
                    if False not in c:
                        return res
                    if last:
                        res.add(False)
                    cur = self.assume(v, False, cur.copy(), f)
                if cur is None:
                    return res
            return res
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return {not x for x in self.cond(test.operand, st, f)}
        v = self.ev(test, st, f)
        out = set()
        for i in v:
            t = self.truth(i, st)
            out |= {True, False} if t is None else {t}
        return out or {True, False}

    def branch(self, test, st, f):
        c = self.cond(test, st, f)
        a = self.assume(test, True, st.copy(), f) if True in c else None
        b = self.assume(test, False, st.copy(), f) if False in c else None
        if a is None and b is None:
            return st.copy(), st.copy()
        return a, b

    def assume(self, test, val, st, f):
        """state restricted to the outcome; None when impossible"""
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            if isand == val:
                for v in test.values:
                    st = self.assume(v, val, st, f)
                    if st is None:
                        return None
                return st
            # one of them, the ones before it having the other outcome
            cur, open_ = st, []
            for v in test.values:
                try:
                    c = self.cond(v, cur, f)
                except Raised:
                    break
                if val in c:
                    open_.append((v, cur))
                if (not val) not in c:
                    break
                cur = self.assume(v, not val, cur.copy(), f)
                if cur is None:
                    break
            if len(open_) == 1:
                return self.assume(open_[0][0], val, open_[0][1].copy(), f)
            return st
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, not val, st, f)
        # split the items of the variables read by the test
        for n in {x.id for x in ast.walk(test) if isinstance(x, ast.Name)}:
            cur = st.env.get(n)
            if cur is None or not 2 <= len(cur) <= 10:
                continue
            keep = set()
            for i in cur:
                s2 = st.copy()
                s2.env[n] = V(i)
                try:
                    if val in self.cond(test, s2, f):
                        keep.add(i)
                except Raised:
                    pass
            if not keep:
                return None
            st.env[n] = frozenset(keep)
        v = self.ev(test, st, f)
        if len(v) == 1:
            i = next(iter(v))
            t = self.truth(i, st)
            if t is not None and t != val:
                return None
            if is_t(i):
                if i[1] == "not":
                    st.facts[i[2]] = not val
                else:
                    st.facts[i] = val
        return st

    # -- types ----------------------------------------------------------------
    def type_of(self, i, st):
        """name of the type of an item, None when not known"""
        if is_c(i):
            return i[1]
        if i[0] == "tu":
            return "tuple"
        if i[0] == "o":
            o = st.heap[i[1]]
            if o.kind == "inst" and o.cls is None:
                return self.o.type_of(i, self, st)
            return o.cls.name if o.kind == "inst" else o.kind
        if i[0] in ("f", "b", "lam"):
            return "function"
        if i[0] == "k":
            return "type"
        if is_t(i):
            r = self.o.type_of(i, self, st)
            if r:
                return r
            if i[1] == "cmp" or i[1] == "not":
                return "bool"
            if i[1] == "fstr":
                return "str"
            if i[1] == "bin" and i[2] == "+" and "str" in (self.type_of(i[3], st), self.type_of(i[4], st)):
                return "str"
            if i[1] == "call" and i[2] == "str":
                return "str"
            if i[1] == "call" and i[2] == "len":
                return "int"
        return None

    def isinst(self, t, name):
        """does a value of type t belong to class `name`: True, False or None"""
        if t is None or name is None:
            return None
        if t == name:
            return True
        if t == "bool" and name == "int":
            return True
        a = self.p.classes.get(t)
        if a is not None:
            return any(c.name == name for c in a.mro()) or name == "object"
        return name == "object"

    def is_nonempty(self, i, st):
        if is_t(i):
            if i[1] in ("enumerate", "items", "keys", "values", "rangelen", "listof"):
                return self.is_nonempty(i[2], st)
            if i[1] == "zip":
                return all(self.is_nonempty(x, st) for x in i[2])
            return bool(self.o.nonempty(i, self, st))
        if i[0] == "o":
            return bool(self.truth(i, st)) and st.heap[i[1]].kind != "inst"
        if i[0] == "tu":
            return bool(i[1])
        return False

    # -- elements --------------------------------------------------------------
    def exact_elems(self, v, st):
        """tuple of values when the sequence is completely known"""
        if len(v) != 1:
            return None
        i = next(iter(v))
        if i[0] == "tu":
            return i[1]
        if is_c(i) and isinstance(i[2], (tuple, str)):
            return tuple(V(C(x)) for x in i[2])
        if i[0] == "o":
            o = st.heap[i[1]]
            if o.kind == "list" and o.exact is not None and not o.elems:
                return o.exact
            if o.kind == "dict" and not o.pairs and all(ABSENT not in x for x in o.fields.values()):
                return tuple(V(k) for k in o.fields)
        if is_t(i) and i[1] in ("items", "keys", "values", "enumerate", "listof", "rangelen"):
            b = i[2]
            if i[1] == "listof":
                return self.exact_elems(V(b), st)
            if i[1] == "enumerate":
                ex = self.exact_elems(V(b), st)
                return tuple(V(("tu", (V(C(k)), x))) for k, x in enumerate(ex)) if ex is not None else None
            if i[1] == "rangelen":
                ex = self.exact_elems(V(b), st)
                return tuple(V(C(k)) for k in range(len(ex))) if ex is not None else None
            if b[0] == "o":
                o = st.heap[b[1]]
                if o.kind == "dict" and not o.pairs and all(ABSENT not in x for x in o.fields.values()):
                    if i[1] == "keys":
                        return tuple(V(k) for k in o.fields)
                    if i[1] == "values":
                        return tuple(o.fields.values())
                    return tuple(V(("tu", (V(k), x))) for k, x in o.fields.items())
        if is_t(i) and i[1] == "range":
            a = [x for x in i[2]]
            if all(is_c(x) and isinstance(x[2], int) for x in a):
                r = range(*[x[2] for x in a])
                if len(r) <= 40:
                    return tuple(V(C(k)) for k in r)
        if is_t(i) and i[1] == "zip":
            ex = [self.exact_elems(V(x), st) for x in i[2]]
            if all(e is not None for e in ex):
                return tuple(V(("tu", tuple(t))) for t in zip(*ex))
        return None

    def elem_of(self, i, st, sure=False):
        if i[0] == "tu":
            return frozenset().union(*i[1]) if i[1] else frozenset()
        if is_c(i) and isinstance(i[2], (str, tuple)):
            return frozenset(C(x) for x in i[2])
        if i[0] == "o":
            o = st.heap[i[1]]
            if o.kind == "dict":
                return frozenset(o.fields) | frozenset(k for k, _ in o.pairs)
            if o.kind == "list":
                return o.all_elems()
            return UNKNOWN
        if is_t(i):
            op = i[1]
            if op == "items":
                b = i[2]
                if b[0] == "o":
                    o = st.heap[b[1]]
                    return frozenset(("tu", (V(k), v - {ABSENT})) for k, v in o.fields.items()) | frozenset(("tu", (V(k), v - {ABSENT} or UNKNOWN)) for k, v in o.pairs)
                return V(("tu", (V(term("key", b)), V(term("val", b)))))
            if op == "keys":
                return self.keys_of(i[2], st)
            if op == "values":
                b = i[2]
                return st.heap[b[1]].all_elems() if b[0] == "o" else V(term("val", b))
            if op == "enumerate":
                return V(("tu", (V(term("idx", i[2])), self.elem_of(i[2], st) or UNKNOWN)))
            if op == "rangelen":
                return V(term("idx", i[2]))
            if op == "listof":
                return self.elem_of(i[2], st)
            if op == "range":
                return V(term("idx", i))
            if op == "zip":
                return V(("tu", tuple(self.elem_of(x, st) or UNKNOWN for x in i[2])))
            if self.type_of(i, st) == "dict":
                return V(term("key", i))
            return V(term("elem", i))
        return UNKNOWN

    def keys_of(self, b, st):
        if b[0] == "o":
            o = st.heap[b[1]]
            return frozenset(o.fields) | frozenset(k for k, _ in o.pairs)
        return V(term("key", b))

    def getitem(self, b, key, st):
        out = frozenset()
        for k in key:
            out |= self.getitem1(b, k, st)
        return cap(out)

    def getitem1(self, b, k, st):
        if b[0] == "o":
            o = st.heap[b[1]]
            if o.kind == "dict":
                if is_c(k):
                    r = o.fields.get(k)
                    if r is not None:
                        r = r - {ABSENT}
                    if r:
                        return r if not o.pairs else r
                    if o.pairs:
                        return frozenset().union(*[v for _, v in o.pairs]) - {ABSENT} or UNKNOWN
                    raise Raised("KeyError", st)
                m = [v - {ABSENT} for kk, v in o.pairs if kk == k]
                if m and m[0]:
                    return m[0]
                return o.all_elems() or UNKNOWN
            if o.kind == "list":
                if is_c(k) and isinstance(k[2], int) and o.exact is not None and -len(o.exact) <= k[2] < len(o.exact):
                    return o.exact[k[2]]
                return o.all_elems() or UNKNOWN
            return UNKNOWN
        if b[0] == "tu" and k[0] in ("o", "tu"):
            # a tuple standing for an array, indexed by a list
            ex = self.exact_elems(V(k), st)
            if ex is not None and all(len(x) == 1 and is_c(next(iter(x))) and type(next(iter(x))[2]) is int for x in ex):
                js = [next(iter(x))[2] for x in ex]
                if all(-len(b[1]) <= j < len(b[1]) for j in js):
                    return V(("tu", tuple(b[1][j] for j in js)))
                raise Raised("IndexError", st)
        if b[0] == "tu" and is_c(k) and isinstance(k[2], int) and -len(b[1]) <= k[2] < len(b[1]):
            return b[1][k[2]]
        if is_c(b) and is_c(k):
            try:
                return V(C(b[2][k[2]]))
            except Exception:
                return UNKNOWN
        if is_t(b):
            r = self.o.method(self, st, b, "__getitem__", [V(k)], {}, None)
            if r is not None:
                return r
            if is_t(k) and k[1] == "idx":
                return V(term("elem", b))
            if is_t(k) and k[1] == "key":
                return V(term("val", b))
            if b[1] in ("listof", "items", "keys", "values", "zip", "enumerate"):
                return self.elem_of(b, st)
            return V(term("item", b, k))
        return UNKNOWN

    # -- expressions -------------------------------------------------------------
    def ev(self, e, st, f):
        if e is None:
            return V(NONE)
        if isinstance(e, ast.Constant):
            return V(C(e.value))
        if isinstance(e, ast.Name):
            return self.name(e, st, f)
        if isinstance(e, ast.Attribute):
            base = self.ev(e.value, st, f)
            out = frozenset()
            for b in base:
                if b == ABSENT or b == NONE and not e.attr.startswith("__"):
                    continue
                out |= self.getattr(b, e.attr, st, e, f)
            if base == V(NONE) and not out:
                raise Raised("AttributeError", st)
            return cap(out) or UNKNOWN
        if isinstance(e, ast.Call):
            return self.call(e, st, f)
        if isinstance(e, ast.Compare):
            return self.compare(e, st, f)
        if isinstance(e, ast.BoolOp):
            out = frozenset()
            isand = isinstance(e.op, ast.And)
            cur = st
            for k, x in enumerate(e.values):
                v = self.ev(x, cur, f)
                last = k == len(e.values) - 1
                if last:
                    out |= v
                    break
                tr = {self.truth(i, cur) for i in v}
                stop = False if isand else True
                out |= frozenset(i for i in v if self.truth(i, cur) in (stop, None))
                if tr == {stop}:
                    return out
                cur = self.assume(x, isand, cur.copy(), f)
                if cur is None:
                    break
            return cap(out)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, st, f)
            out = frozenset()
            for i in v:
                if isinstance(e.op, ast.Not):
                    t = self.truth(i, st)
                    out |= V(C(not t)) if t is not None else V(i[2] if is_t(i) and i[1] == "not" else term("not", i) if i != U else U)
                elif is_t(i) and self.o.unary(self, st, "neg" if isinstance(e.op, ast.USub) else "pos", i, e) is not None:
                    out |= self.o.unary(self, st, "neg" if isinstance(e.op, ast.USub) else "pos", i, e)
                elif is_c(i) and isinstance(i[2], complex) and isinstance(e.op, ast.USub):
                    out |= V(C(-i[2]))
                elif is_c(i) and isinstance(i[2], (int, float)):
                    out |= V(C(-i[2] if isinstance(e.op, ast.USub) else +i[2] if isinstance(e.op, ast.UAdd) else ~i[2]))
                elif is_t(i) or i[0] == "x":
                    out |= V(term("neg", i) if isinstance(e.op, ast.USub) else i)
                else:
                    out |= UNKNOWN
            return cap(out)
        if isinstance(e, ast.IfExp):
            a, b = self.branch(e.test, st, f)
            out = frozenset()
            if a is not None:
                out |= self.ev(e.body, a, f)
                self.adopt(st, a)
            if b is not None:
                out |= self.ev(e.orelse, b, f)
                self.adopt(st, b)
            return cap(out)
        if isinstance(e, ast.Subscript):
            base = self.ev(e.value, st, f)
            got = [self.o.subscript(self, st, b, e.slice, f) for b in base if is_t(b)]
            if got and len(got) == len(base) and None not in got:
                return cap(frozenset().union(*got))
            if isinstance(e.slice, ast.Slice):
                lo, up, stp = [self.ev(x, st, f) if x is not None else V(NONE) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                out = frozenset()
                for b in base:
                    out |= self.slice(b, lo, up, stp, st, e)
                return cap(out)
            key = self.ev(e.slice, st, f)
            out = frozenset()
            err = None
            if base == V(NONE):
                raise Raised("TypeError", st)
            for b in base:
                if b == ABSENT or b == NONE:
                    continue
                try:
                    out |= self.getitem(b, key, st)
                except Raised as x:
                    err = x
            if not out and err is not None:
                raise err
            return cap(out) or UNKNOWN
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return self.display(e, st, f)
        if isinstance(e, ast.Dict):
            o = Obj("dict")
            for k, v in zip(e.keys, e.values):
                vv = self.ev(v, st, f)
                if k is None:
                    for b in vv:
                        if b[0] == "o":
                            src = st.heap[b[1]]
                            o.fields.update(src.fields)
                            o.pairs = dict_update(o.pairs, src.pairs)
                        elif is_t(b):
                            o.pairs = set_pair(o.pairs, term("key", b), V(term("val", b)))
                    continue
                kk = self.ev(k, st, f)
                if len(kk) == 1 and is_c(next(iter(kk))):
                    o.fields[next(iter(kk))] = vv
                else:
                    for x in kk:
                        o.pairs = set_pair(o.pairs, x, vv)
            return V(self.new(st, self.site(e, "dict"), o))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.comp(e, st, f)
        if isinstance(e, ast.DictComp):
            return self.dcomp(e, st, f)
        if isinstance(e, ast.BinOp):
            l, r = self.ev(e.left, st, f), self.ev(e.right, st, f)
            out = frozenset()
            for a in l:
                for b in r:
                    out |= self.binop(BIN.get(type(e.op), "?"), a, b, st, e)
            return cap(out)
        if isinstance(e, ast.JoinedStr):
            parts = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    parts.append(C(v.value))
                else:
                    x = self.ev(v.value, st, f)
                    parts.append(next(iter(x)) if len(x) == 1 else U)
            return V(term("fstr", *parts))
        if isinstance(e, ast.Lambda):
            k = ("lam", e.lineno, e.col_offset, f.qual)
            fn = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)], decorator_list=[], lineno=e.lineno, col_offset=e.col_offset)
            fi = FuncInfo("<lambda>", f.module, fn)
            self.scopes[id(fn)] = self.scope_of(f)
            self.lams[k] = (fi, st.env)
            return V(k)
        if isinstance(e, ast.Starred):
            return self.ev(e.value, st, f)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, st, f)
            self.assign(e.target, v, st, f)
            return v
        return UNKNOWN

    def adopt(self, st, other):
        for k, o in other.heap.items():
            st.heap[k] = Obj.join(st.heap[k], o) if k in st.heap else o

    def display(self, e, st, f):
        vals, open_ = [], frozenset()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, f)
                ex = self.exact_elems(v, st)
                if ex is not None:
                    vals += list(ex)
                else:
                    for i in v:
                        open_ |= self.elem_of(i, st)
                    open_ |= UNKNOWN if not open_ else frozenset()
            else:
                vals.append(self.ev(x, st, f))
        if isinstance(e, ast.Tuple) and not open_:
            return V(("tu", tuple(vals)))
        if open_:
            o = Obj("list", elems=open_ | frozenset().union(*vals), exact=None, must=frozenset(vals))
        else:
            o = Obj("list", exact=tuple(vals))
        return V(self.new(st, self.site(e, "list"), o))

    def comp(self, e, st, f):
        s = st.copy()
        return self.comp_rec(e, 0, s, st, f, lambda s2: self.ev(e.elt, s2, f))

    def gens(self, gens, s, f, body):
        """evaluate the body for every element; (values, exact, must)"""
        if not gens:
            return [body(s)], True
        g = gens[0]
        it = self.ev(g.iter, s, f)
        ex = self.exact_elems(it, s)
        out = []
        exact = True
        if ex is not None and len(ex) <= 40:
            seq = list(ex)
        else:
            v = frozenset()
            for i in it:
                v |= self.elem_of(i, s)
            seq = [cap(v) or UNKNOWN]
            exact = False
            sure = bool(it) and all(self.is_nonempty(i, s) for i in it)
            exact = False if not sure else None
        for n, x in enumerate(seq):
            s2 = s.copy()
            self.assign(g.target, x, s2, f)
            ok = True
            for c in g.ifs:
                cs = self.cond(c, s2, f)
                if cs == {False}:
                    ok = False
                    break
                if False in cs and exact is not False:
                    exact = False
                s2 = self.assume(c, True, s2, f)
                if s2 is None:
                    ok = False
                    break
            if not ok:
                continue
            with self.turn(n):
                r, ex2 = self.gens(gens[1:], s2, f, body)
            out += r
            if ex2 is False:
                exact = False
            elif ex2 is None and exact:
                exact = None
            for k, o in s2.heap.items():
                if k not in s.heap:
                    s.heap[k] = o
        return out, exact

    def comp_rec(self, e, k, s, st, f, body):
        vals, exact = self.gens(e.generators, s, f, body)
        for kk, o in s.heap.items():
            if kk not in st.heap:
                st.heap[kk] = o
        if exact is True:
            o = Obj("list", exact=tuple(vals))
        else:
            o = Obj("list", elems=cap(frozenset().union(*vals)) if vals else frozenset(), exact=None, must=frozenset(vals) if exact is None else frozenset())
        if isinstance(e, ast.ListComp) and exact is False and len(e.generators) == 1 and not e.generators[0].ifs and len(vals) == 1 and len(vals[0]) == 1:
            # elementwise map of an input sequence
            pass
        return V(self.new(st, self.site(e, "list"), o))

    def dcomp(self, e, st, f):
        s = st.copy()

        def body(s2):
            return ("kv", self.ev(e.key, s2, f), self.ev(e.value, s2, f))
        vals, exact = self.gens(e.generators, s, f, body)
        for kk, o in s.heap.items():
            if kk not in st.heap:
                st.heap[kk] = o
        o = Obj("dict")
        for _, k, v in vals:
            if len(k) == 1 and is_c(next(iter(k))):
                kk = next(iter(k))
                o.fields[kk] = v if exact is True else v | V(ABSENT)
            else:
                for x in k:
                    o.pairs = set_pair(o.pairs, x, v if exact is not False else v | V(ABSENT))
        return V(self.new(st, self.site(e, "dict"), o))

    def slice(self, b, lo, up, stp, st, e):
        if b[0] == "o" and st.heap[b[1]].kind == "list":
            o = st.heap[b[1]]
            cs = [next(iter(x)) for x in (lo, up, stp) if len(x) == 1]
            if o.exact is not None and len(cs) == 3 and all(is_c(x) for x in cs):
                return V(self.new(st, self.site(e, "list"), Obj("list", exact=o.exact[slice(*[x[2] for x in cs])])))
            return V(self.new(st, self.site(e, "list"), Obj("list", elems=o.all_elems(), exact=None)))
        if b[0] == "tu":
            cs = [next(iter(x)) for x in (lo, up, stp) if len(x) == 1]
            if len(cs) == 3 and all(is_c(x) for x in cs):
                return V(("tu", b[1][slice(*[x[2] for x in cs])]))
        if is_c(b):
            cs = [next(iter(x)) for x in (lo, up, stp) if len(x) == 1]
            if len(cs) == 3 and all(is_c(x) for x in cs):
                try:
                    return V(C(b[2][slice(*[x[2] for x in cs])]))
                except Exception:
                    return UNKNOWN
        if is_t(b):
            return V(term("slice", b, *[next(iter(x)) if len(x) == 1 else U for x in (lo, up, stp)]))
        return UNKNOWN

    def binop(self, op, a, b, st, node):
        if is_t(a) or is_t(b):
            r = self.o.binop(self, st, op, a, b, node)
            if r is not None:
                return r
        if is_c(a) and is_c(b):
            try:
                return V(C({"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y,
                            "%": lambda x, y: x % y, "**": lambda x, y: x ** y, "//": lambda x, y: x // y}[op](a[2], b[2])))
            except Exception:
                return UNKNOWN
        if a == U or b == U:
            return UNKNOWN
        if op == "+" and a[0] == "tu" and b[0] == "tu":
            return V(("tu", a[1] + b[1]))
        if op == "+" and a[0] == "o" and b[0] == "o" and st.heap[a[1]].kind == st.heap[b[1]].kind == "list":
            x, y = st.heap[a[1]], st.heap[b[1]]
            if x.exact is not None and y.exact is not None:
                return V(self.new(st, self.site(node, "list"), Obj("list", exact=x.exact + y.exact)))
            return V(self.new(st, self.site(node, "list"), Obj("list", elems=cap(x.all_elems() | y.all_elems()), exact=None,
                                                              must=x.must | y.must | frozenset(x.exact or ()) | frozenset(y.exact or ()))))
        if op == "*" and a[0] == "tu" and is_c(b) and type(b[2]) is int and len(a[1]) * b[2] < 40:
            return V(("tu", a[1] * b[2]))
        if op == "*" and a[0] == "o" and st.heap[a[1]].kind == "list":
            o = st.heap[a[1]]
            return V(self.new(st, self.site(node, "list"), Obj("list", elems=o.all_elems(), exact=None)))
        return V(term("bin", op, a, b))

    def name(self, e, st, f):
        if e.id in st.env:
            v = st.env[e.id] - {ABSENT}
            if not v:
                raise Raised("UnboundLocalError", st)
            return v
        sc = self.scope_of(f)
        r = sc.resolve(e)
        if r is None:
            # captured variable of an enclosing function
            for k, (fi, env) in self.lams.items():
                if fi.node is f.node and e.id in env:
                    return env[e.id] - {ABSENT} or UNKNOWN
            if e.id in sc.bound and e.id in sc.counts and not sc.globals:
                raise Raised("UnboundLocalError", st)
            if e.id in BUILTINS:
                return V(("bi", e.id))
            if not f.module.star and e.id not in f.module.imports and not e.id.startswith("__") and not f.module.defines(e.id) and f.module.is_top(f.node):
                raise Raised("NameError", st)
            return UNKNOWN
        if r[0] == "global":
            return self.global_value(r[1], r[2], st)
        return V(self.entity(r))

    def global_value(self, m, name, st):
        node = m.globals.get(name)
        try:
            v = ast.literal_eval(node)
        except (ValueError, TypeError, SyntaxError, MemoryError):
            return V(term("global", m.name, name))
        return V(self.lift(v, ("global", m.name, name), st))

    def lift(self, v, site, st):
        """abstract value of a literal"""
        if isinstance(v, dict):
            if site in st.heap:
                return ("o", site)
            return self.new(st, site, Obj("dict", None, {C(k): V(self.lift(x, site + (k,), st)) for k, x in v.items()}))
        if isinstance(v, list):
            if site in st.heap:
                return ("o", site)
            return self.new(st, site, Obj("list", exact=tuple(V(self.lift(x, site + (k,), st)) for k, x in enumerate(v))))
        if isinstance(v, tuple):
            return ("tu", tuple(V(self.lift(x, site + (k,), st)) for k, x in enumerate(v)))
        return C(v)

    def getattr(self, b, name, st, node, f):
        if b[0] == "o":
            o = st.heap[b[1]]
            if o.kind == "inst":
                if name == "__class__" and o.cls is not None:
                    return V(("k", o.cls))
                p = o.cls.find_property(name) if o.cls else None
                if p is not None and p[0] is not None:
                    v, s2 = self.invoke(p[0], [V(b)], {}, st, node)
                    st.heap, st.facts = s2.heap, s2.facts
                    return v
                if name in o.fields:
                    return o.fields[name] - {ABSENT} or UNKNOWN
                m = o.cls.find_method(name) if o.cls else None
                if m is not None:
                    return V(("b", m, b))
                r = self.o.attr(self, st, b, name)
                if r is not None:
                    return r
                a = o.cls.find_attr(name) if o.cls else None
                if a is not None:
                    try:
                        return V(C(ast.literal_eval(a)))
                    except Exception:
                        return UNKNOWN
                return V(term("attr", b, name))
            return V(("meth", b, name))
        if b[0] == "super":
            inst = st.heap[b[2][1]]
            m = inst.cls.find_method(name, after=b[1])
            if m is not None:
                return V(("b", m, b[2]))
            return UNKNOWN
        if b[0] in ("m", "x"):
            r = self.p.member(("mod", b[1]) if b[0] == "m" else ("ext", b[1]), name)
            if r is None:
                return UNKNOWN
            if r[0] == "global":
                return self.global_value(r[1], r[2], st)
            return V(self.entity(r))
        if b[0] == "k":
            m = b[1].find_method(name)
            if m is not None:
                return V(("f", m))
            if name == "__name__":
                return V(C(b[1].name))
            if name == "__bases__":
                bs = [("k", x) if isinstance(x, ClassInfo) else ("bi", x) if x in BUILTINS else U for x in b[1].bases]
                return V(("tu", tuple(V(x) for x in bs or [("bi", "object")])))
            return V(term("attr", b, name))
        if b[0] == "bi" or b[0] == "f":
            if name == "__name__":
                return V(C(b[1] if b[0] == "bi" else b[1].name))
            if name == "__bases__" and b[0] == "bi":
                return V(("tu", () if b[1] == "object" else (V(("bi", "object")),)))
            return UNKNOWN
        if is_t(b):
            r = self.o.attr(self, st, b, name)
            if r is not None:
                return r
            if name == "__class__":
                return V(term("typeof", b))
            if b[1] == "typeof" and name in ("__name__", "__bases__"):
                t = self.type_of(b[2], st)
                if t and name == "__name__":
                    return V(C(t))
                if t:
                    c = self.p.classes.get(t)
                    return self.getattr(("k", c), name, st, node, f) if c is not None else V(("tu", (V(("bi", "object")),)))
            return V(term("attr", b, name))
        if is_c(b) or b[0] == "tu":
            return V(("meth", b, name))
        return UNKNOWN

    def compare(self, e, st, f):
        left = self.ev(e.left, st, f)
        out = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st, f)
            if isinstance(op, (ast.In, ast.NotIn)) and right == V(NONE):
                raise Raised("TypeError", st)
            v = frozenset()
            for a in left:
                for b in right:
                    v |= V(self.cmp1(OPS[type(op)], a, b, st))
            out = v if out is None else frozenset(x for x in out | v)
            if len(e.ops) > 1 and out and any(self.truth(i, st) is None for i in out):
                out = V(U) if len(out) > 1 else out
            left = right
        if len(e.ops) > 1:
            tr = {self.truth(i, st) for i in out}
            if tr == {True}:
                return V(TRUE)
            if tr == {False}:
                return V(FALSE)
            return UNKNOWN
        return cap(out)

    def cmp1(self, op, a, b, st):
        neg = False
        if op in NEG:
            op, neg = NEG[op], True

        def res(x):
            if x is None:
                return None
            return C(bool(x) != neg)
        if a == U or b == U:
            return U
        r = None
        if op in ("is", "=="):
            r = self.equal(a, b, op, st)
        elif op == "in":
            r = self.contains(a, b, st)
        elif is_c(a) and is_c(b):
            try:
                r = a[2] < b[2] if op == "<" else a[2] <= b[2]
            except TypeError:
                r = None
        if r is not None:
            return res(r)
        if op in ("is", "==") and repr(b) < repr(a):
            a, b = b, a
        t = term("cmp", "==" if op == "is" else op, a, b)
        if t == U:
            return U
        tr = self.truth(t, st)
        if tr is not None:
            return res(tr)
        return term("not", t) if neg else t

    def equal(self, a, b, op, st):
        if is_c(a) and is_c(b):
            try:
                return (a[2] == b[2]) if op == "==" else (a[2] is b[2] or a == b)
            except Exception:
                return None
        if a == b and a[0] in ("o", "k", "f", "bi", "x", "m"):
            return True
        for x, y in ((a, b), (b, a)):
            if x == NONE:
                if y[0] in ("o", "k", "f", "b", "m", "lam", "tu", "bi"):
                    return False
                if is_t(y):
                    t = self.type_of(y, st)
                    k = ("t", "cmp", "==", *sorted((x, y), key=repr))
                    if k in st.facts:
                        return st.facts[k]
                    r = self.o.truth(k, self, st)
                    if r is not None:
                        return r
                    if t is not None:
                        return t == "NoneType"
                return None
        # classes
        ka, kb = self.tname(a, st), self.tname(b, st)
        if ka is not None and kb is not None:
            return ka == kb
        if a[0] == "o" and b[0] == "o":
            x, y = st.heap[a[1]], st.heap[b[1]]
            if x.kind == y.kind == "list" and x.exact is not None and y.exact is not None and not x.elems and not y.elems:
                return self.equal_seq(x.exact, y.exact, st)
            return None
        if (is_c(a) and b[0] == "o") or (is_c(b) and a[0] == "o"):
            o = st.heap[(b if b[0] == "o" else a)[1]]
            if o.kind in ("list", "dict"):
                return False
            return None
        for x, y in ((a, b), (b, a)):
            if is_c(x) and is_t(y):
                t = self.type_of(y, st)
                num = ("int", "float", "bool", "complex")
                if t is not None and t != x[1] and not (t in num and x[1] in num) and t != "ndarray":
                    return False
        if a[0] == "tu" and b[0] == "tu":
            return self.equal_seq(a[1], b[1], st)
        if a == b and is_t(a):
            return True
        return None

    def equal_seq(self, xs, ys, st):
        """elementwise equality of two completely known sequences"""
        if len(xs) != len(ys):
            return False
        rs = []
        for x, y in zip(xs, ys):
            r = None
            if len(x) == len(y) == 1:
                i, j = next(iter(x)), next(iter(y))
                r = self.equal(i, j, "==", st)
                if r is None and (is_t(i) or is_t(j)):
                    r = self.o.truth(("t", "cmp", "==", *sorted((i, j), key=repr)), self, st)
            rs.append(r)
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs):
            return False
        return None

    def not_scalar(self, t, i):
        """the class named by the item is a numpy scalar, which a value of type t is not"""
        return i[0] == "x" and i[1].split(".")[0] == "numpy" and i[1].split(".")[-1] in SCALARS and (t in self.p.classes or t in ("str", "list", "dict", "tuple", "ndarray", "function"))

    def tname(self, i, st):
        """type named by an item: class, builtin type or type(x)"""
        if i[0] == "k":
            return i[1].name
        if i[0] == "bi" and i[1] in ("list", "dict", "str", "int", "float", "bool", "tuple", "set", "complex"):
            return i[1]
        if i[0] == "x" and i[1].split(".")[-1] in ("ndarray",):
            return "ndarray"
        if is_t(i) and i[1] == "typeof":
            return self.type_of(i[2], st)
        return None

    def contains(self, a, b, st):
        if b[0] == "tu":
            seq = [next(iter(x)) if len(x) == 1 else U for x in b[1]]
        elif b[0] == "o":
            o = st.heap[b[1]]
            if o.kind == "dict":
                if is_c(a):
                    if a in o.fields:
                        return None if ABSENT in o.fields[a] else True
                    return None if o.pairs else False
                return None
            if o.kind == "list" and o.exact is not None:
                seq = [next(iter(x)) if len(x) == 1 else U for x in o.exact]
            else:
                return None
        elif is_c(b) and is_c(a):
            try:
                return a[2] in b[2]
            except TypeError:
                return None
        elif is_t(b) and b[1] in ("keys", "listof") and b[2][0] in ("o", "t"):
            return self.contains(a, b[2], st) if b[2][0] == "o" or b[1] == "listof" else self.truth(term("cmp", "in", a, b[2]), st)
        else:
            return None
        if not seq:
            return False
        if a in seq and a != U:
            return True
        if is_c(a) and all(is_c(x) for x in seq):
            return False
        if a[0] in ("k", "bi") and all(x[0] in ("k", "bi", "c") for x in seq):
            return False
        rs = [self.equal(a, x, "==", st) if x != U else None for x in seq]
        if all(r is False for r in rs):
            return False
        if any(r is True for r in rs):
            return True
        fs = [self.truth(("t", "cmp", "==", *sorted((a, x), key=repr)), st) for x in seq]
        if any(r is True for r in fs):
            return True
        if all(r is False or q is False for r, q in zip(fs, rs)):
            return False
        return None

    # -- calls in expressions -------------------------------------------------------
    def call(self, e, st, f):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            return self.super_(e, st, f)
        fn = self.ev(e.func, st, f)
        args, kw, extra, star = [], {}, None, False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, f)
                ex = self.exact_elems(v, st)
                if ex is not None:
                    args += list(ex)
                else:
                    args.append(frozenset().union(*[V(term("star", i)) if is_t(i) else UNKNOWN for i in v]))
                    star = True
            else:
                args.append(self.ev(a, st, f))
        for k in e.keywords:
            v = self.ev(k.value, st, f)
            if k.arg is not None:
                kw[k.arg] = v
            else:
                extra = extra or [{}, False]
                for i in v:
                    if i[0] == "o" and st.heap[i[1]].kind == "dict" and len(v) == 1:
                        o = st.heap[i[1]]
                        for kk, x in o.fields.items():
                            if isinstance(kk[2], str):
                                extra[0][kk[2]] = x - {ABSENT} if ABSENT not in x else x - {ABSENT} | UNKNOWN
                        if o.pairs:
                            extra[1] = True
                    else:
                        extra[1] = True
        out = frozenset()
        err = None
        cur = None
        for g in fn:
            s = st if len(fn) == 1 else st.copy()
            try:
                v = self.apply(g, args, kw, extra, s, e, f)
            except Raised as x:
                err = x
                continue
            out |= v
            if s is not st:
                cur = State.join(cur, s)
        if cur is not None:
            st.heap, st.facts = cur.heap, cur.facts
        if not out:
            if err is not None:
                raise err
            return UNKNOWN
        return cap(out)

    def into(self, st, res):
        v, s2 = res
        st.heap, st.facts = s2.heap, s2.facts
        return v

    def apply(self, g, args, kw, extra, st, e, f):
        r = self.o.call(self, st, g, args, kw, e)
        if r is not None:
            return r
        t = g[0]
        if t == "f":
            return self.into(st, self.invoke(g[1], args, kw, st, e, extra))
        if t == "b":
            return self.into(st, self.invoke(g[1], [V(g[2])] + args, kw, st, e, extra))
        if t == "lam":
            fi, env = self.lams[g]
            try:
                return self.into(st, self.invoke(fi, args, kw, st, e, extra))
            except KeyError:
                return UNKNOWN
        if t == "k":
            return self.construct(g[1], args, kw, extra, st, e)
        if t == "bi":
            return self.builtin(g[1], args, kw, st, e, f)
        if t == "x":
            return self.external(g[1], args, kw, st, e)
        if t == "meth":
            return self.meth(g[1], g[2], args, kw, st, e)
        if is_t(g):
            if g[1] == "attr":
                r = self.o.method(self, st, g[2], g[3], args, kw, e)
                if r is not None:
                    return r
                r = self.term_method(g[2], g[3], args, kw, st, e)
                if r is not None:
                    return r
                return V(self.mk_call("." + g[3], g[2], args, kw))
            return V(self.mk_call("()", g, args, kw))
        self.unknown_calls += 1
        return UNKNOWN

    def mk_call(self, name, base, args, kw):
        one = [next(iter(a)) if len(a) == 1 else U for a in args]
        kws = tuple(sorted((k, next(iter(v)) if len(v) == 1 else U) for k, v in kw.items()))
        return term("call", name, base, tuple(one), kws)

    def construct(self, cls, args, kw, extra, st, e):
        site = self.site(e, cls.name)
        o = self.new(st, site, Obj("inst", cls))
        init = cls.find_method("__init__")
        if init is not None and self.o.inline(init):
            _, s2 = self.invoke(init, [V(o)] + args, kw, st, e, extra)
            st.heap, st.facts = s2.heap, s2.facts
        return V(o)

    def super_(self, e, st, f):
        if e.args:
            c = self.ev(e.args[0], st, f)
            s = self.ev(e.args[1], st, f) if len(e.args) > 1 else UNKNOWN
            ci = next((i[1] for i in c if i[0] == "k"), None)
        else:
            ci = self.p.classes.get(f.cls) if f.cls else None
            s = st.env.get(f.params[0], UNKNOWN) if f.params else UNKNOWN
        out = frozenset()
        for i in s:
            if ci is not None and i[0] == "o" and st.heap[i[1]].kind == "inst":
                out |= V(("super", ci, i))
            else:
                out |= UNKNOWN
        return out

    def term_method(self, base, name, args, kw, st, e):
        if name in ("items", "keys", "values") and not args and (self.type_of(base, st) in ("dict", None)):
            return V(term(name, base))
        if name == "get" and args and len(args[0]) == 1 and self.type_of(base, st) in ("dict", None):
            v = V(term("item", base, next(iter(args[0]))))
            k = next(iter(args[0]))
            if is_t(k) and k[1] == "key":
                v = V(term("val", base))
            return v
        return None

    def builtin(self, n, args, kw, st, e, f):
        a = args[0] if args else frozenset()
        one = next(iter(a)) if len(a) == 1 else None
        if n == "type" and len(args) == 1:
            out = frozenset()
            for i in a:
                if i[0] == "o" and st.heap[i[1]].kind == "inst" and st.heap[i[1]].cls is not None:
                    out |= V(("k", st.heap[i[1]].cls))
                elif i == U:
                    out |= UNKNOWN
                else:
                    t = self.type_of(i, st)
                    c = self.p.classes.get(t) if t else None
                    out |= V(("k", c)) if c is not None and not is_t(i) else V(("bi", t)) if t in ("list", "dict", "str", "int", "float", "bool", "tuple", "set", "complex") else V(term("typeof", i))
            return out
        if n == "isinstance" and len(args) == 2:
            out = frozenset()
            for i in a:
                t = self.type_of(i, st)
                for c in args[1]:
                    cs = [next(iter(x)) for x in c[1] if len(x) == 1] if c[0] == "tu" else [c]
                    rs = [self.isinst(t, self.tname(x, st)) if not self.not_scalar(t, x) else False for x in cs]
                    if any(r is True for r in rs):
                        out |= V(TRUE)
                    elif rs and all(r is False for r in rs) and not (t == "object"):
                        out |= V(FALSE)
                    else:
                        x = term("isinstance", i, c) if i != U else U
                        tr = self.truth(x, st) if x != U else None
                        out |= V(C(tr)) if tr is not None else V(x)
            return out
        if n in ("list", "tuple", "set", "sorted", "reversed") :
            if not args:
                return V(self.new(st, self.site(e, "list"), Obj("list"))) if n != "tuple" else V(("tu", ()))
            out = frozenset()
            for i in a:
                ex = self.exact_elems(V(i), st)
                if ex is not None and n in ("list", "tuple"):
                    out |= V(("tu", tuple(ex))) if n == "tuple" else V(self.new(st, self.site(e, "list"), Obj("list", exact=tuple(ex))))
                elif i[0] == "o":
                    o = st.heap[i[1]]
                    elems = o.all_elems() if o.kind == "list" else self.keys_of(i, st)
                    must = o.must | frozenset(o.exact or ()) if o.kind == "list" else frozenset()
                    out |= V(self.new(st, self.site(e, "list"), Obj("list", elems=elems, exact=None, must=must)))
                elif is_t(i):
                    out |= V(term("listof", i)) if n in ("list", "tuple") else V(self.mk_call(n, None, args, kw))
                else:
                    out |= UNKNOWN
            return out
        if n == "dict":
            o = Obj("dict", None, {C(k): v for k, v in kw.items()})
            for i in a:
                if i[0] == "o" and st.heap[i[1]].kind == "dict":
                    src = st.heap[i[1]]
                    f2 = dict(src.fields)
                    f2.update(o.fields)
                    o.fields, o.pairs = f2, src.pairs
                elif is_t(i):
                    if not kw:
                        return V(self.mk_call("dict", None, args, kw))
                    o.pairs = set_pair(o.pairs, term("key", i), V(term("val", i)))
                else:
                    return UNKNOWN
            return V(self.new(st, self.site(e, "dict"), o))
        if n == "len" and args:
            if a == V(NONE):
                raise Raised("TypeError", st)
            out = frozenset()
            for i in a:
                ex = self.exact_elems(V(i), st)
                out |= V(C(len(ex))) if ex is not None else V(self.mk_call("len", None, [V(i)], {})) if i != U else UNKNOWN
            return out
        if n == "range":
            if len(args) == 1 and one is not None and is_t(one) and one[1] == "call" and one[2] == "len":
                return V(term("rangelen", one[4][0]))
            return V(term("range", tuple(next(iter(x)) if len(x) == 1 else U for x in args)))
        if n == "enumerate" and args:
            return frozenset(term("enumerate", i) if i != U else U for i in a)
        if n == "zip":
            if all(len(x) == 1 and next(iter(x)) != U for x in args):
                return V(term("zip", tuple(next(iter(x)) for x in args)))
            return UNKNOWN
        if n == "filter" and len(args) == 2:
            return self.filter(args, st, e, f)
        if n == "map" and len(args) == 2:
            out = frozenset()
            for i in args[1]:
                vals = frozenset()
                for g in a:
                    vals |= self.apply(g, [self.elem_of(i, st) or UNKNOWN], {}, None, st, e, f)
                out |= V(self.new(st, self.site(e, "list"), Obj("list", elems=vals, exact=None)))
            return out
        if n == "hasattr" and len(args) == 2:
            out = frozenset()
            nm = next(iter(args[1]))
            for i in a:
                if i[0] == "o" and st.heap[i[1]].kind == "inst" and is_c(nm):
                    h = st.heap[i[1]]
                    out |= V(C(bool(self.p.declared(h.cls, nm[2]) or nm[2] in h.fields or h.cls.find_method(nm[2]))))
                else:
                    out |= V(term("hasattr", i, nm)) if i != U else UNKNOWN
            return out
        if n == "getattr" and len(args) >= 2:
            nm = next(iter(args[1])) if len(args[1]) == 1 else U
            out = frozenset()
            for i in a:
                if is_c(nm) and isinstance(nm[2], str):
                    out |= self.getattr(i, nm[2], st, e, f)
                elif i != U:
                    out |= V(term("getattr", i, nm))
                else:
                    out |= UNKNOWN
            return out
        if n == "callable" and len(args) == 1 and a and all(i[0] in ("f", "b", "k", "lam", "meth", "bi") for i in a):
            return V(TRUE)
        if n == "setattr" and len(args) == 3:
            nm = next(iter(args[1])) if len(args[1]) == 1 else U
            if is_c(nm):
                for i in a:
                    self.setattr(i, nm[2], args[2], st, e, len(a) == 1)
            return V(NONE)
        if n in ("all", "any") and args:
            out = frozenset()
            for i in a:
                if i[0] == "o" and st.heap[i[1]].kind == "list":
                    o = st.heap[i[1]]
                    tr = {self.truth(x, st) for x in o.all_elems()}
                    want = n == "any"
                    if tr <= {not want}:
                        out |= V(C(not want))
                        continue
                    sure = list(o.exact or ()) + list(o.must)
                    if any({self.truth(x, st) for x in v} == {want} for v in sure):
                        out |= V(C(want))
                        continue
                    out |= UNKNOWN
                else:
                    out |= V(self.mk_call(n, None, [V(i)], {})) if i != U else UNKNOWN
            return out
        if n in ("min", "max") and len(args) == 1 and not kw:
            ex = self.exact_elems(args[0], st)
            if ex and all(len(x) == 1 and is_c(next(iter(x))) for x in ex):
                try:
                    return V(C({"min": min, "max": max}[n](next(iter(x))[2] for x in ex)))
                except TypeError:
                    pass
        if n in ("str", "int", "float", "bool", "abs", "round", "min", "max") and args and all(len(x) == 1 and is_c(next(iter(x))) for x in args) and not kw:
            try:
                return V(C({"str": str, "int": int, "float": float, "bool": bool, "abs": abs, "round": round, "min": min, "max": max}[n](*[next(iter(x))[2] for x in args])))
            except Exception:
                return UNKNOWN
        if n == "print":
            return V(NONE)
        if n == "__import__" and one is not None:
            if is_c(one):
                name = str(one[2])
                if "fromlist" not in kw and len(args) < 4:
                    self.module(name, st)
                    name = name.split(".")[0]
                return self.module(name, st)
            return V(self.mk_call("__import__", None, args, {}))
        if n in ("Exception", "ValueError", "TypeError", "KeyError", "IndexError"):
            return V(self.mk_call(n, None, args, kw))
        if any(len(x) == 1 for x in args) or not args:
            return V(self.mk_call(n, None, args, kw))
        out = frozenset()
        if len(args) == 1:
            for i in a:
                out |= V(self.mk_call(n, None, [V(i)], kw)) if i != U else UNKNOWN
            return out
        return UNKNOWN

    def filter(self, args, st, e, f):
        out = frozenset()
        for i in args[1]:
            if i[0] != "o" or st.heap[i[1]].kind != "list":
                out |= V(self.mk_call("filter", None, [V(U), V(i)], {})) if i != U else UNKNOWN
                continue
            o = st.heap[i[1]]

            def keep(v):
                r = set()
                for g in args[0]:
                    if g == NONE:
                        r |= {self.truth(x, st) for x in v}
                        continue
                    for x in self.apply(g, [v], {}, None, st, e, f):
                        r.add(self.truth(x, st))
                return r
            if o.exact is not None:
                ks = [keep(v) for v in o.exact]
                if all(k in ({True}, {False}) for k in ks):
                    out |= V(self.new(st, self.site(e, "list"), Obj("list", exact=tuple(v for v, k in zip(o.exact, ks) if k == {True}))))
                else:
                    out |= V(self.new(st, self.site(e, "list"), Obj("list", elems=frozenset().union(*o.exact), exact=None,
                                                                    must=frozenset(v for v, k in zip(o.exact, ks) if k == {True}))))
            else:
                out |= V(self.new(st, self.site(e, "list"), Obj("list", elems=frozenset(x for x in o.elems if keep(V(x)) != {False}), exact=None,
                                                                must=frozenset(v for v in o.must if keep(v) == {True}))))
        return out

    def module(self, name, st):
        m = self.p.modules.get(name)
        if m is None and name.split(".")[0] in {x.split(".")[0] for x in self.p.modules}:
            raise Raised("ModuleNotFoundError", st)
        return V(("m", m)) if m else V(("x", name))

    def external(self, name, args, kw, st, e):
        if name == "importlib.import_module" and args and len(args[0]) == 1 and is_c(next(iter(args[0]))) and len(args) == 1:
            return self.module(str(next(iter(args[0]))[2]), st)
        short = name.split(".")[-1]
        if name in ("copy.copy", "copy.deepcopy") and args:
            out = frozenset()
            for i in args[0]:
                out |= self.clone(i, st, e, name.endswith("deepcopy"))
            return out
        if name in ("importlib.import_module",) and args:
            i = next(iter(args[0])) if len(args[0]) == 1 else U
            if is_c(i):
                m = self.p.modules.get(i[2])
                return V(("m", m)) if m else V(("x", i[2]))
        outs = [frozenset()]
        if len(args) >= 1 and 1 < len(args[0]) <= 8 and all(len(a) == 1 for a in args[1:]):
            return frozenset(self.mk_call(name, None, [V(i)] + args[1:], kw) if i != U else U for i in args[0])
        return V(self.mk_call(name, None, args, kw))

    def clone(self, i, st, e, deep):
        if i[0] == "o":
            o = st.heap[i[1]]
            new = o.copy()
            if deep:
                def d(v):
                    return frozenset(x for y in v for x in self.clone(y, st, e, True))
                new.fields = {k: d(v) for k, v in new.fields.items()}
                new.elems = d(new.elems)
                new.exact = tuple(d(v) for v in new.exact) if new.exact is not None else None
                new.must = frozenset(d(v) for v in new.must)
                new.pairs = frozenset((k, d(v)) for k, v in new.pairs)
            return V(self.new(st, self.site(e, "copy") + (i[1],), new))
        if is_c(i) or i[0] in ("f", "k"):
            return V(i)
        if is_t(i):
            return V(self.mk_call("copy.deepcopy" if deep else "copy.copy", None, [V(i)], {}))
        return UNKNOWN

    def position(self, seq, name, args, st):
        """index and count in a completely known sequence"""
        if name not in ("index", "count") or len(args) != 1 or len(args[0]) != 1 or any(len(x) != 1 for x in seq):
            return None
        k = next(iter(args[0]))
        xs = [next(iter(x)) for x in seq]
        if not is_c(k) or not all(is_c(x) for x in xs):
            return None
        if name == "count":
            return V(C(xs.count(k)))
        if k not in xs:
            raise Raised("ValueError", st)
        return V(C(xs.index(k)))

    def meth(self, b, name, args, kw, st, e):
        r = self.o.method(self, st, b, name, args, kw, e)
        if r is not None:
            return r
        if is_c(b) or b[0] == "tu":
            if is_c(b) and all(len(a) == 1 and is_c(next(iter(a))) for a in args) and not kw and isinstance(b[2], (str, tuple)):
                try:
                    v = getattr(b[2], name)(*[next(iter(a))[2] for a in args])
                    if isinstance(v, list):
                        return V(self.new(st, self.site(e, "list"), Obj("list", exact=tuple(V(C(x)) for x in v))))
                    hash(v)
                    return V(C(v))
                except Exception:
                    return UNKNOWN
            if is_c(b):
                return V(self.mk_call("." + name, b, args, kw))
            return self.position(b[1], name, args, st) or UNKNOWN
        o = st.heap[b[1]]
        if o.kind == "dict":
            if name in ("items", "keys", "values"):
                return V(term(name, b))
            if name == "copy":
                return V(self.new(st, self.site(e, "copy") + (b[1],), o.copy()))
            if name in ("get", "pop", "setdefault"):
                k = next(iter(args[0])) if args and len(args[0]) == 1 else U
                d = args[1] if len(args) > 1 else V(NONE)
                if is_c(k):
                    cur = o.fields.get(k)
                    out = frozenset()
                    if cur is not None:
                        out |= cur - {ABSENT}
                    if cur is None and o.pairs:
                        out |= frozenset().union(*[v for _, v in o.pairs])
                    if cur is None or ABSENT in cur:
                        if name != "pop" or len(args) > 1:
                            out |= d
                        elif cur is None and not o.pairs:
                            raise Raised("KeyError", st)
                    if name == "pop":
                        o2 = o.copy()
                        o2.fields.pop(k, None)
                        st.heap[b[1]] = o2
                    if name == "setdefault" and (cur is None or ABSENT in cur):
                        o2 = o.copy()
                        o2.fields[k] = out
                        st.heap[b[1]] = o2
                    return out or UNKNOWN
                out = frozenset().union(*[v for kk, v in o.pairs if kk == k]) or o.all_elems()
                if name == "setdefault":
                    cur = dict(o.pairs).get(k)
                    if cur is None or ABSENT in cur:
                        o2 = o.copy()
                        new = d if cur is None and not o.fields else cap(d | (cur or o.all_elems()) - {ABSENT})
                        o2.pairs = set_pair(o.pairs, k, new)
                        st.heap[b[1]] = o2
                        return new
                    return cur
                return (out | (d if name != "pop" or len(args) > 1 else frozenset())) or UNKNOWN
            if name == "update":
                o2 = o.copy()
                for a in args[:1]:
                    for i in a:
                        if i[0] == "o" and st.heap[i[1]].kind == "dict":
                            src = st.heap[i[1]]
                            for k, v in src.fields.items():
                                o2.fields[k] = v if ABSENT not in v else (v | o2.fields.get(k, frozenset()))
                            o2.pairs = dict_update(o2.pairs, src.pairs)
                        elif is_t(i):
                            o2.pairs = set_pair(o2.pairs, term("key", i), V(term("val", i)))
                for k, v in kw.items():
                    o2.fields[C(k)] = v
                st.heap[b[1]] = o2
                return V(NONE)
            if name == "__setitem__" and len(args) == 2:
                self.setitem(b, args[0], args[1], st, True)
                return V(NONE)
            if name == "__getitem__" and args:
                return self.getitem(b, args[0], st)
            if name == "__contains__" and args:
                return UNKNOWN
            o2 = o.copy()
            o2.fields = {k: v | UNKNOWN for k, v in o.fields.items()} if name != "clear" else {}
            o2.pairs = set_pair(o.pairs, U, UNKNOWN) if name != "clear" else frozenset()
            st.heap[b[1]] = o2
            return UNKNOWN
        if o.kind == "list":
            o2 = o.copy()
            if name == "append" and args:
                if o.exact is not None and len(o.exact) < 60:
                    o2.exact = o.exact + (args[0],)
                else:
                    o2.elems, o2.exact, o2.must = cap(o.all_elems() | args[0]), None, o.must | {args[0]}
                st.heap[b[1]] = o2
                return V(NONE)
            if name in ("extend", "__iadd__") and args:
                ex = self.exact_elems(args[0], st)
                if ex is not None and o.exact is not None:
                    o2.exact = o.exact + tuple(ex)
                else:
                    new = frozenset()
                    must = frozenset()
                    for i in args[0]:
                        new |= self.elem_of(i, st)
                        if len(args[0]) == 1:
                            if i[0] == "o" and st.heap[i[1]].kind == "list":
                                must |= st.heap[i[1]].must | frozenset(st.heap[i[1]].exact or ())
                            elif self.is_nonempty(i, st):
                                must |= {self.elem_of(i, st)}
                    o2.must = o.must | frozenset(o.exact or ()) | must
                    o2.elems = cap(o.all_elems() | new)
                    o2.exact = None
                st.heap[b[1]] = o2
                return V(NONE)
            if name == "copy":
                return V(self.new(st, self.site(e, "copy") + (b[1],), o2))
            if name == "insert" and len(args) == 2:
                k = next(iter(args[0])) if len(args[0]) == 1 else U
                if o.exact is not None and is_c(k):
                    x = list(o.exact)
                    x.insert(k[2], args[1])
                    o2.exact = tuple(x)
                else:
                    o2.elems, o2.exact, o2.must = cap(o.all_elems() | args[1]), None, o.must | {args[1]}
                st.heap[b[1]] = o2
                return V(NONE)
            if name == "pop":
                k = next(iter(args[0])) if args and len(args[0]) == 1 else C(-1) if not args else U
                if o.exact is not None and is_c(k) and isinstance(k[2], int) and -len(o.exact) <= k[2] < len(o.exact):
                    x = list(o.exact)
                    v = x.pop(k[2])
                    o2.exact = tuple(x)
                    st.heap[b[1]] = o2
                    return v
                o2.elems, o2.exact, o2.must = o.all_elems(), None, frozenset()
                st.heap[b[1]] = o2
                return o.all_elems() or UNKNOWN
            r = self.position(o.exact, name, args, st) if o.exact is not None else None
            if r:
                return r
            if name in ("remove", "clear", "sort", "reverse"):
                o2.elems, o2.exact, o2.must = o.all_elems(), None, frozenset()
                st.heap[b[1]] = o2
                return V(NONE)
            return V(self.mk_call("." + name, b, args, kw))
        return UNKNOWN


def as_load(t):
    n = ast.copy_location(type(t)(**{k: getattr(t, k) for k in t._fields}), t)
    n.ctx = ast.Load()
    return n
