"""P13: request options reach every sub-request."""
import ast

from sa.model import Program
from sa.scope import own_nodes, scopes

TECHNIQUE = "interprocedural option-forwarding (def-use) analysis over the request functions"
NOTE = (
    "Static: every function that takes an extraction option and every call it makes to another request. The option must be bound to a value "
    "derived from the caller's option, unless the result is afterwards processed with the option, the receiver was extracted with it, only axis "
    "values are read from the result, or the branch has fixed the unit to one for which normalization is not defined.")

OPTS = ["unit", "is_norm", "axis_data", "is_squeeze", "N_harm"]
RULE = "option not forwarded"
COMPS = {"radial", "tangential", "axial", "comp_x", "comp_y", "comp_z"}
CONVERSIONS = {"convert", "convert_unit", "to_dB", "to_dBA", "normalize", "squeeze", "dB_to_dBA"}


def params(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], a.vararg, a.kwarg


def all_params(node):
    p, k, _, _ = params(node)
    return p + k


def parents(n):
    n = getattr(n, "_parent", None)
    while n is not None:
        yield n
        n = getattr(n, "_parent", None)


def stmt_of(n):
    while not isinstance(n, ast.stmt):
        n = n._parent
    return n


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def base_name(t):
    while isinstance(t, (ast.Attribute, ast.Subscript, ast.Starred)):
        t = t.value
    return t.id if isinstance(t, ast.Name) else None


def targets(st):
    if isinstance(st, ast.Assign):
        ts = st.targets
    elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
        ts = [st.target]
    elif isinstance(st, ast.For):
        ts = [st.target]
    elif isinstance(st, ast.With):
        ts = [i.optional_vars for i in st.items if i.optional_vars is not None]
    else:
        ts = []
    out = set()
    for t in ts:
        for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
            b = base_name(e)
            if b:
                out.add(b)
    return out


def read_part(st):
    """expressions evaluated by the statement itself (not by its body)"""
    if isinstance(st, ast.Assign):
        return [st.value]
    if isinstance(st, (ast.AugAssign,)):
        return [st.value, st.target]
    if isinstance(st, ast.AnnAssign):
        return [st.value] if st.value else []
    if isinstance(st, ast.For):
        return [st.iter]
    if isinstance(st, (ast.If, ast.While)):
        return [st.test]
    if isinstance(st, ast.With):
        return [i.context_expr for i in st.items]
    if isinstance(st, (ast.Expr, ast.Return)):
        return [st.value] if st.value is not None else []
    return []


def blocks(st):
    for f in ("body", "orelse", "finalbody"):
        b = getattr(st, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield b
    for h in getattr(st, "handlers", []):
        yield h.body


def all_stmts(body):
    for st in body:
        yield st
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            continue
        for b in blocks(st):
            yield from all_stmts(b)


def derived(fn, seed, request=lambda c: False):
    """names computed from the seed names (flow insensitive); what a request returns is data, not an option"""
    out = set(seed)
    changed = True
    sts = list(all_stmts(fn.body))

    def hit(e):
        if isinstance(e, ast.Call) and request(e):
            return False
        if isinstance(e, ast.Name):
            return e.id in out
        return any(hit(c) for c in ast.iter_child_nodes(e))
    while changed:
        changed = False
        for st in sts:
            if isinstance(st, ast.Assign) and any(hit(e) for e in read_part(st)):
                new = targets(st) - out
                if new:
                    out |= new
                    changed = True
            elif isinstance(st, (ast.If,)) and hit(st.test):
                # value chosen by a test of the option
                for x in list(all_stmts(st.body)) + list(all_stmts(st.orelse)):
                    if isinstance(x, ast.Assign) and isinstance(x.value, (ast.Constant, ast.Name)):
                        new = targets(x) - out
                        if new:
                            out |= new
                            changed = True
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                    and st.value.func.attr in ("update", "append", "extend", "setdefault", "insert") and hit(st.value):
                b = base_name(st.value.func)
                if b and b not in out:
                    out.add(b)
                    changed = True
    return out


def following(call, fn):
    """statements that can run after the call, branches not taken excluded"""
    out = []
    st = stmt_of(call)
    while True:
        par = st._parent
        for b in ([par.body] if isinstance(par, ast.Lambda) else [getattr(par, f) for f in ("body", "orelse", "finalbody", "handlers") if isinstance(getattr(par, f, None), list)]):
            if any(x is st for x in b):
                i = next(k for k, x in enumerate(b) if x is st)
                if not isinstance(par, ast.Try) or b is par.body or True:
                    out.extend(all_stmts(b[i + 1:]))
        if isinstance(par, ast.Try) and any(x is st for x in par.body):
            for h in par.handlers:
                out.extend(all_stmts(h.body))
            out.extend(all_stmts(par.orelse))
            out.extend(all_stmts(par.finalbody))
        if isinstance(par, (ast.For, ast.While)):
            out.append(par)
            out.extend(all_stmts(par.body))
        if par is fn:
            return out
        if isinstance(par, ast.ExceptHandler):
            st = par._parent
            out.extend(all_stmts(st.finalbody))
            continue
        if isinstance(par, ast.stmt):
            st = par
            continue
        return out


def conditions(n, fn):
    """(test, taken) of the enclosing conditionals"""
    out = []
    child = n
    for p in parents(n):
        if isinstance(p, (ast.If, ast.While)):
            if any(x is child for x in p.body):
                out.append((p.test, True))
            elif any(x is child for x in p.orelse):
                out.append((p.test, False))
        elif isinstance(p, ast.IfExp):
            if p.body is child:
                out.append((p.test, True))
            elif p.orelse is child:
                out.append((p.test, False))
        if p is fn:
            break
        child = p
    return out


def conjuncts(t):
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
        for v in t.values:
            yield from conjuncts(v)
    else:
        yield t


def unit_fixed(n, fn):
    """the branch implies a unit that is a logarithmic level or one constant"""
    for test, taken in conditions(n, fn):
        if not taken:
            continue
        for c in conjuncts(test):
            if isinstance(c, ast.Compare) and len(c.ops) == 1:
                l, r = c.left, c.comparators[0]
                if isinstance(c.ops[0], ast.In) and isinstance(l, ast.Constant) and l.value in ("dB", "dBA") and isinstance(r, ast.Name) and r.id == "unit":
                    return True
                if isinstance(c.ops[0], ast.Eq):
                    for a, b in ((l, r), (r, l)):
                        if isinstance(a, ast.Name) and a.id == "unit" and isinstance(b, ast.Constant) and b.value != "SI":
                            return True
                if isinstance(c.ops[0], ast.In) and isinstance(l, ast.Name) and l.id == "unit" and isinstance(r, (ast.Tuple, ast.List, ast.Set)) \
                        and all(isinstance(x, ast.Constant) and x.value != "SI" for x in r.elts):
                    return True
    return False


def decided(n, fn, o):
    """constants the enclosing tests force the option to be equal to"""
    out = []
    for test, taken in conditions(n, fn):
        for c in (conjuncts(test) if taken else [test]):
            neg = not taken
            while isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
                c, neg = c.operand, not neg
            if isinstance(c, ast.Name) and c.id == o:
                out.append((not neg,))
            elif isinstance(c, ast.Compare) and len(c.ops) == 1:
                l, r = c.left, c.comparators[0]
                if isinstance(l, ast.Constant):
                    l, r = r, l
                if isinstance(l, ast.Name) and l.id == o:
                    if isinstance(r, ast.Constant) and isinstance(c.ops[0], (ast.NotEq, ast.IsNot) if neg else (ast.Eq, ast.Is)):
                        out.append((r.value,))
                    elif isinstance(r, (ast.List, ast.Tuple)) and not r.elts and isinstance(c.ops[0], ast.NotEq if neg else ast.Eq):
                        out.append(([],))
    return out


def overwritten(call, fn, o, dep):
    """value of an assignment that always replaces the option before the call"""
    st = stmt_of(call)
    while st is not fn:
        par = st._parent
        seq = next((getattr(par, f) for f in ("body", "orelse", "finalbody") if isinstance(getattr(par, f, None), list)
                    and any(x is st for x in getattr(par, f))), [])
        for x in reversed(seq[:next((k for k, y in enumerate(seq) if y is st), 0)]):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == o for t in x.targets):
                return None if names(x.value) & dep else x.value
            if o in set().union(*[targets(y) for y in all_stmts([x])]):
                return None
        for test in [par.test] if isinstance(par, (ast.If, ast.While)) else []:
            if names(test) & dep:
                return None
        st = par
    return None


class Unit:
    def __init__(self, name, module, node, sc, cls):
        self.name, self.m, self.node, self.sc, self.cls = name, module, node, sc, cls


class Forward:
    def __init__(self, prog):
        self.p = prog
        self.field = [c for c in prog.field_classes()]
        self.vec = [c for c in prog.classes.values() if c.name == "VectorField" or any(b.name == "VectorField" for b in c.mro())]
        self.api = {}
        for c in self.field + self.vec:
            for n, f in c.all_methods().items():
                if len(set(all_params(f.node)) & set(OPTS)) >= 2:
                    self.api.setdefault(n, {})[f.node] = (f, c)
        self.owner = {}
        for c in self.field + self.vec:
            for n, f in c.all_methods().items():
                self.owner.setdefault(id(f.node), []).append(c)
        self.norm_only_si = self.check_norm()
        self.plot_params = set().union(*[set(all_params(c.find_method("plot_2D_Data").node)) for c in self.field if c.find_method("plot_2D_Data")] or [set()])
        self.calls = 0
        self.pairs = 0
        self.excused = {}
        self.findings = []

    def check_norm(self):
        """normalization is read only where the unit is the stored or SI one, whatever the request"""
        for n, defs in self.api.items():
            for node in defs:
                if "unit" not in all_params(node) or "is_norm" not in all_params(node):
                    continue
                for x in own_nodes(node):
                    if not isinstance(x, (ast.If, ast.IfExp)) or "is_norm" not in names(x.test):
                        continue
                    if not any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "normalize" for c in ast.walk(x)):
                        continue
                    tests = [(x.test, True)] + conditions(x, node)
                    if not any(taken and "unit" in names(t) and any(isinstance(y, ast.Eq) for y in ast.walk(t)) for t, taken in tests):
                        return False
        return True

    def targets_of(self, call, u):
        """request functions the call may reach, as (node, bound) or None when it is not a request"""
        f = call.func
        if isinstance(f, ast.Name):
            r = u.sc.resolve(f)
            if r and r[0] == "func":
                node = r[1].node
                if set(all_params(node)) & set(OPTS) and len(set(all_params(node)) & set(OPTS)) >= 2:
                    return [(node, r[1].cls is not None and False)]
            return None
        if not isinstance(f, ast.Attribute) or f.attr not in self.api:
            return None
        defs = self.api[f.attr]
        r = u.sc.resolve(f)
        if r and r[0] == "func":
            return [(r[1].node, False)]
        recv = f.value
        text = ast.unparse(recv)
        if isinstance(recv, ast.Subscript) and isinstance(recv.value, ast.Attribute) and recv.value.attr == "components":
            nodes = {c.find_method(f.attr).node for c in self.field if c.find_method(f.attr)}
        elif text == "self" and u.cls:
            nodes = {c.find_method(f.attr).node for c in u.cls if c.find_method(f.attr)}
        else:
            nodes = set(defs)
        if isinstance(recv, ast.Name) and recv.id in {c.name for c in self.field + self.vec}:
            return [(n, False) for n in nodes]
        return [(n, True) for n in nodes]

    def bind(self, call, node, bound, opt):
        """expression given for the option, 'kw' for unpacked keywords, None when dropped"""
        pos, kw, var, kwarg = params(node)
        if bound and pos:
            pos = pos[1:]
        for k in call.keywords:
            if k.arg == opt:
                return k.value
        if opt in pos:
            i = pos.index(opt)
            if i < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args[:i + 1]):
                return call.args[i]
            if any(isinstance(a, ast.Starred) for a in call.args) and not var:
                return "kw"
        for k in call.keywords:
            if k.arg is None:
                return k
        return None

    def run(self):
        for name, m, node, sc in scopes(self.p):
            if not isinstance(node, ast.FunctionDef):
                continue
            mine = set(all_params(node))
            kwarg = node.args.kwarg.arg if node.args.kwarg else None
            if not mine & set(OPTS) - {"N_harm"}:
                continue
            u = Unit(name, m, node, sc, self.owner.get(id(node)))
            self.function(u, mine, kwarg)

    def function(self, u, mine, kwarg):
        dep = {o: derived(u.node, {o}, lambda c: bool(self.targets_of(c, u))) for o in mine}
        for call in [n for n in own_nodes(u.node) if isinstance(n, ast.Call)]:
            tg = self.targets_of(call, u)
            if not tg:
                continue
            self.calls += 1
            same = isinstance(call.func, ast.Attribute) and call.func.attr == u.node.name and u.node.name.startswith("plot") \
                and isinstance(call.func.value, ast.Subscript)
            common = set(mine) - {"self"}
            for n, _ in tg:
                common &= set(all_params(n)) | (self.plot_params if same and n.args.kwarg else set())
            if not same:
                common &= set(OPTS)
            for o in sorted(common):
                self.pairs += 1
                why = self.judge(call, tg, u, o, dep, kwarg)
                if why is True:
                    continue
                if isinstance(why, str):
                    self.excused[why] = self.excused.get(why, 0) + 1
                    continue
                self.findings.append((u, call, o, why[0]))

    def judge(self, call, tg, u, o, dep, kwarg):
        given = [self.bind(call, n, b, o) for n, b in tg]
        fn = u.node
        ok = True
        literal = None
        for g in given:
            if g is None:
                ok = False
            elif g == "kw":
                pass
            elif isinstance(g, ast.keyword):
                v = g.value
                if not (names(v) & dep[o] or (kwarg and kwarg in names(v)) or names(v) & set(all_params(fn))):
                    ok = False
            elif not names(g) & dep[o]:
                ok = False
                literal = g
            elif isinstance(g, ast.Name) and g.id == o and o in OPTS:
                over = overwritten(call, fn, o, dep[o])
                if over is not None:
                    ok = False
                    literal = over
        if ok:
            return True
        if isinstance(call._parent, ast.Expr) and isinstance(call.func, ast.Attribute) and not call.func.attr.startswith("plot"):
            return "result unused"
        if o in ("is_norm", "unit") and self.norm_only_si and unit_fixed(call, fn) and (o == "is_norm" or literal is not None):
            return "unit fixed by the branch"
        fixed = decided(call, fn, o)
        if fixed and all(self.effective(g, n, o) in fixed for g, (n, _) in zip(given, tg)):
            return "branch selected by the option"
        if o != "axis_data" and self.processed(call, fn, dep[o], o):
            return "result processed with the option"
        if o != "axis_data" and isinstance(call.func, ast.Attribute) and self.receiver_done(call, u, o, dep):
            return "receiver extracted with the option"
        if o != "axis_data" and self.axis_only(call, fn):
            return "only axis values are read"
        var = fn.args.vararg.arg if fn.args.vararg else None
        if o == "axis_data" and var and not set().union(*[names(a) for a in call.args] or [set()]) & derived(fn, {var}):
            return "the axes requested by the caller are not requested"
        what = "given %s instead of the caller's" % ast.unparse(literal) if literal is not None else "left to its default"
        return (what,)

    def processed(self, call, fn, dep, o):
        # enclosing calls of the same statement
        inner = call
        for p in parents(call):
            if isinstance(p, ast.stmt):
                break
            if isinstance(p, ast.Call):
                others = [a for a in list(p.args) + [k.value for k in p.keywords] if a is not inner]
                if any(names(a) & dep for a in others):
                    return True
            inner = p
        return self.must(call, fn, dep, o)

    def must(self, call, fn, dep, o):
        """every path from the call to a use of its result in the function's result processes it with the option"""
        st = stmt_of(call)
        if isinstance(st, ast.Return):
            return False
        taint = targets(st)
        if not taint:
            return False
        self._hit = False
        done = False
        while True:
            par = st._parent
            seq = next((getattr(par, f) for f in ("body", "orelse", "finalbody") if isinstance(getattr(par, f, None), list)
                        and any(x is st for x in getattr(par, f))), None)
            if seq is None:
                return False
            i = next(k for k, x in enumerate(seq) if x is st)
            done, end, bad = self.walk(seq[i + 1:], taint, dep, o, fn, done)
            if bad:
                return False
            if done or end:
                return self._hit
            if par is fn:
                return False
            if not isinstance(par, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                return False
            st = par

    def walk(self, seq, taint, dep, o, fn, done):
        """(processed, ended, returned unprocessed)"""
        for st in seq:
            if isinstance(st, ast.Raise):
                return done, True, False
            reads = any(names(e) & taint for e in read_part(st))
            if isinstance(st, ast.If):
                chosen = bool(names(st.test) & (dep - taint))
                t1, t2 = set(taint), set(taint)
                r1 = self.walk(st.body, t1, dep, o, fn, done)
                r2 = self.walk(st.orelse, t2, dep, o, fn, done)
                taint |= t1 | t2
                inner = o == "is_norm" and self.norm_only_si and "unit" in names(st.test) and any(
                    isinstance(x, ast.If) and names(x.test) & dep and self.converts(x, taint) for x in ast.walk(st))
                if inner or chosen and (r1[0] or r2[0] or self.converts(st, taint)):
                    self._hit = True
                    done = True
                    continue
                if r1[2] or r2[2]:
                    return done, False, True
                if r1[1] and r2[1]:
                    return done, True, False
                done = (r1[0] or r1[1]) and (r2[0] or r2[1])
                continue
            if isinstance(st, (ast.For, ast.While, ast.With, ast.Try)):
                if isinstance(st, ast.For) and reads:
                    taint |= targets(st)
                for b in blocks(st):
                    d, e, bad = self.walk(b, taint, dep, o, fn, done)
                    if bad:
                        return done, False, True
                    done = done or d
                continue
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            if reads and self.handles(st, taint, dep):
                self._hit = True
                done = True
            if isinstance(st, ast.Return):
                if not done and reads:
                    return done, True, True
                return done, True, False
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and not reads:
                taint -= targets(st)
            elif reads or any(base_name(t) in taint for t in getattr(st, "targets", [])):
                taint |= targets(st)
        return done, False, False

    def handles(self, st, taint, dep):
        for e in read_part(st):
            for c in ast.walk(e):
                if not isinstance(c, ast.Call):
                    continue
                nm = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ""
                args = set().union(*[names(a) for a in list(c.args) + [k.value for k in c.keywords]] or [set()])
                if nm in self.api:
                    if isinstance(c.func, ast.Attribute) and names(c.func.value) & taint and args & dep:
                        return True
                elif nm in CONVERSIONS or self.own(nm):
                    if names(c) & taint and args & (dep - taint):
                        return True
        return False

    def converts(self, st, taint):
        for c in ast.walk(st):
            if isinstance(c, ast.Call) and names(c) & taint:
                nm = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ""
                if nm in CONVERSIONS:
                    return True
        return False

    def effective(self, g, node, o):
        """1-tuple of the constant the callee receives"""
        if g is None:
            pos, kw, _, _ = params(node)
            a = node.args
            d = None
            if o in pos:
                k = pos.index(o) - (len(pos) - len(a.defaults))
                d = a.defaults[k] if k >= 0 else None
            elif o in kw:
                d = a.kw_defaults[kw.index(o)]
            g = d
        try:
            return (ast.literal_eval(g),)
        except (ValueError, TypeError, SyntaxError, AttributeError):
            return None

    def own(self, nm):
        return nm in getattr(self, "_own", None) if hasattr(self, "_own") else self._mk(nm)

    def _mk(self, nm):
        self._own = {f.name.split(".")[-1] for f in self.p.funcs} - {"plot_2D", "plot_3D", "plot_4D", "init_fig"}
        return nm in self._own

    def receiver_done(self, call, u, o, dep):
        b = base_name(call.func)
        if b is None or b == "self":
            return False
        srcs = []
        for st in all_stmts(u.node.body):
            if isinstance(st, ast.Assign) and b in targets(st) and any(isinstance(t, ast.Name) for t in st.targets):
                srcs.append(st.value)
        if not srcs:
            return False
        for v in srcs:
            good = False
            for c in ast.walk(v):
                if isinstance(c, ast.Call) and c is not call:
                    tg = self.targets_of(c, u)
                    if not tg:
                        continue
                    if all(o in all_params(n) for n, _ in tg):
                        w = self.judge(c, tg, u, o, dep, u.node.args.kwarg.arg if u.node.args.kwarg else None) if not self.busy(c) else "busy"
                        if w is True:
                            good = True
            if not good:
                return False
        return True

    def busy(self, c):
        st = self.__dict__.setdefault("_stack", [])
        if c in st:
            return True
        st.append(c)
        return False

    def axis_only(self, call, fn):
        st = stmt_of(call)
        if not (isinstance(st, ast.Assign) and st.value is call and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)):
            if isinstance(call._parent, ast.Subscript) and call._parent.value is call:
                return not self.field_key(call._parent.slice)
            return False
        v = st.targets[0].id
        seen = False
        for s in following(call, fn):
            if s is not st and v in targets(s) and isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in s.targets):
                break
            for e in ([s] if not list(blocks(s)) else read_part(s)):
                for x in ast.walk(e):
                    if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load):
                        seen = True
                        p = x._parent
                        if isinstance(p, ast.Subscript) and p.value is x and not self.field_key(p.slice):
                            continue
                        if isinstance(p, ast.Compare):
                            continue
                        return False
        return seen

    def field_key(self, k):
        for x in ast.walk(k):
            if isinstance(x, ast.Attribute) and x.attr == "symbol":
                return True
            if isinstance(x, ast.Constant) and x.value in COMPS:
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "list":
                return True
        if isinstance(k, ast.Name) and any(w in k.id.lower() for w in ("comp", "symb")):
            return True
        return False


SAMPLE = '''
class FrozenClass:
    pass

class DataND(FrozenClass):
    def get_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeeze=True):
        values = self.values
        if unit == "SI":
            if is_norm:
                values = self.normalizations["ref"].normalize(values)
        else:
            values = convert(values, self.unit, unit)
        return {self.symbol: values}

    def good(self, *args, unit="SI", is_norm=False, axis_data=[]):
        opts = dict(unit=unit, is_norm=is_norm)
        first = self.get_along(*args, axis_data=axis_data, **opts)
        if unit == "SI":
            first = self.get_along(*args, is_norm=is_norm, axis_data=axis_data)
        return first

    def late(self, *args, unit="SI"):
        values = self.get_along(*args)[self.symbol]
        values = convert(values, self.unit, unit)
        return values

    def bad_dropped(self, *args, unit="SI", is_norm=False, axis_data=[]):
        return self.get_along(*args, unit=unit, axis_data=axis_data)

    def bad_constant(self, *args, unit="SI", is_norm=False, axis_data=[]):
        return self.get_along(*args, unit="T", is_norm=is_norm, axis_data=axis_data)

    def bad_overwritten(self, *args, unit="SI", is_norm=False, axis_data=[]):
        is_norm = False
        return self.get_along(*args, unit=unit, is_norm=is_norm, axis_data=axis_data)

    def bad_half(self, *args, unit="SI"):
        values = self.get_along(*args)[self.symbol]
        if len(values) > 1:
            values = convert(values, self.unit, unit)
        return values
'''


def run(ctx):
    ctx.rule(
        "For every function taking one of %s and every call it makes to a request taking the same option, the option is bound to a value derived "
        "from the caller's one. Component-wise plots must forward every option they share with the plot of one component." % ", ".join(OPTS))
    t = Forward(Program.from_sources({"SciDataTool.sample": SAMPLE}))
    t.run()
    got = {u.node.name for u, _, _, _ in t.findings}
    want = {n.name for n in ast.walk(ast.parse(SAMPLE)) if isinstance(n, ast.FunctionDef) and n.name.startswith("bad_")}
    ctx.selftest("option forwarding, expected %s got %s" % (sorted(want), sorted(got)), got == want)
    f = Forward(ctx.prog)
    f.run()
    ctx.count("delegating calls", f.calls)
    ctx.count("option bindings", f.pairs)
    for k, v in sorted(f.excused.items()):
        ctx.count("not needed: " + k, v)
    ctx.obligation(f.pairs)
    for u, call, o, what in f.findings:
        callee = ast.unparse(call.func)
        ctx.report(RULE, "%s:%s %s -> %s" % (u.m.rel, u.node.name, o, callee), "%s:%d (%s)" % (u.m.rel, call.lineno, u.node.name),
                   "option %s is %s in the call of %s" % (o, what, callee))
    ctx.sample("requests: " + ", ".join(sorted(f.api)))
    ctx.need("delegating calls", 90)
    ctx.need("option bindings", 250)
    if not f.norm_only_si:
        ctx.notes.append("normalization is read outside the SI branch: no request is exempted from forwarding it")
