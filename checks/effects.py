"""Shared driver of the effect checks (P01, P02, P03): one abstract run per public entry point."""
import os
from multiprocessing import get_context

from sa.alias import Analysis
from sa.model import AnalysisError

CONSTRUCTION = {"__init__", "__setattr__", "_freeze", "_set_None"}
_STATE = {}


def public_methods(prog, classes):
    for c in classes:
        for m, f in sorted(c.all_methods().items()):
            if m in CONSTRUCTION or m.startswith("_set_") or (m.startswith("_") and not m.startswith("__")):
                continue
            yield (c.name, m)


def public_functions(prog):
    for mn, m in sorted(prog.modules.items()):
        if ".Functions" not in mn:
            continue
        for fn in sorted(m.functions):
            yield (mn, fn)


def switch_of_active_domain(e):
    """the one allowed self-update: a dual-domain object adopting its own stored axes or values"""
    loc = e["loc"]
    if loc.cls is None or loc.cls.name != "DataDual" or e["attr"] not in (".axes", ".values"):
        return False
    own = (".axes_dt", ".axes_df") if e["attr"] == ".axes" else (".values_dt", ".values_df")

    def ok(av, depth):
        for a in av:
            if a[0] == "c" and a[2] is None:
                continue
            if a[0] != "l":
                return False
            l = a[1]
            if l.root is not None:
                if not any(x in l.root for x in own):
                    return False
            elif l.kind == "list" and depth:
                if not ok(l.elems, depth - 1):
                    return False
            else:
                return False
        return True

    return bool(e["value"]) and ok(e["value"], 1)


def prepare(prog, e, A):
    """function and abstract environment of one entry point"""
    kind, owner, name = e
    if kind == "method":
        c = prog.cls(owner)
        f = c.find_method(name)
        env = A.entry_env(f, A.protected("inst", "self", cls=c))
    elif kind == "setter":
        c = prog.cls(owner)
        f = c.find_property(name)[1]
        me = A.alloc("inst", f.node, ("entry",), cls=c)
        env = {f.params[0]: frozenset([("l", me)])}
        env[f.params[1]] = value_of_any_kind(A, prog, c, name, "arg:" + name)
    elif kind == "ctor":
        c = prog.cls(owner)
        f = c.find_method("__init__")
        me = A.alloc("inst", f.node, ("entry",), cls=c)
        env = {f.params[0]: frozenset([("l", me)])}
        for p in f.params[1:]:
            if p == "init_dict":
                d = A.protected("dict", "arg:init_dict")
                for q in c.all_properties():
                    d.keys[("c", q)] = value_of_any_kind(A, prog, c, q, "arg:init_dict[%s]" % q)
                env[p] = frozenset([("l", d), ("c", "NoneType", None)])
            elif p in c.all_properties():
                env[p] = value_of_any_kind(A, prog, c, p, "arg:" + p)
            else:
                env[p] = A.param_value(f, p, "")
    else:
        f = prog.modules[owner].functions[name]
        env = A.entry_env(f)
    return f, env


def work(e):
    prog = _STATE["prog"]
    A = Analysis(prog)
    f, env = prepare(prog, e, A)
    ret = A.run(f, env)
    events = []
    for x in A.events.values():
        if x["attr"] == ".parent":
            continue
        if switch_of_active_domain(x):
            continue
        via = [s for s in x["chain"]]
        events.append(dict(
            path=x["path"], op=x["op"], site=x["site"], func=x["func"], cls=x["cls"], attr=x["attr"],
            chain=["%s in %s" % (s[1], s[0]) for s in via]))
    reach = []
    for path, l in A.reach(ret):
        if l.root and l.kind != "any":
            reach.append((path, l.root, l.kind, l.cls.name if l.cls else ""))
    params = {p: "".join(sorted(set(a[1].kind[0] for a in env.get(p, ()) if a[0] == "l"))) for p in env}
    return e, events, reach, sorted(x.qual for x in A.visited), A.callsites, getattr(A, "unstable", False), f.where(), params


def value_of_any_kind(A, prog, c, prop, root):
    """a property value as the caller may pass it: of the declared type, or as list/dict to be converted"""
    typ = prog.prop_type(c, prop)
    v = A.from_type(typ, root, cls=None, prop=prop)
    if typ and typ[0] in "[{":
        base = prog.cls(typ[1:-1])
        lst = A.protected("list" if typ[0] == "[" else "dict", root)
        d = A.protected("dict", root + "[]{}")
        d.keys[("c", "__class__")] = frozenset(("c", "str", x.name) for x in A.concrete(base))
        arr = A.protected("array", root + "[]array")
        el = frozenset([("l", d), ("l", arr), ("k", "float", frozenset())])
        if typ[0] == "[":
            lst.elems = lst.elems | el
        else:
            lst.keys[("?",)] = lst.keys.get(("?",), frozenset()) | el
    elif typ == "ndarray":
        l = A.protected("list", root)
        l.elems = l.elems | frozenset([("k", "float", frozenset())])
        v = v | frozenset([("l", l)])
    return v


def analyse(ctx, entries):
    _STATE["prog"] = ctx.prog
    entries = list(entries)
    n = max(1, min(8, os.cpu_count() or 1))
    with get_context("fork").Pool(n) as pool:
        out = pool.map(work, entries, chunksize=1)
    funcs = set()
    for e, ev, rs, visited, cs, unstable, where, params in out:
        funcs.update(visited)
        ctx.count("call sites resolved", cs)
        if unstable:
            ctx.count("entries not at a fixpoint")
    ctx.counts["entry points"] = len(entries)
    ctx.counts["functions analysed"] = len(funcs)
    return out


def user_site(ev):
    """the construct responsible for a write: the caller of a generated setter"""
    if "(_set_" in ev["site"] and ev["chain"]:
        return ev["chain"][-1]
    return ev["site"]


def strip_line(site):
    """file (function) without the line number, for keys"""
    import re

    m = re.match(r"(.*?):\d+ \((.*)\)$", site) or re.match(r"(.*?):\d+ in (.*)$", site)
    return "%s:%s" % (m.group(1), m.group(2)) if m else site
