"""P03: caller's inputs, defaults and tables are never modified."""
from . import effects

TECHNIQUE = "interprocedural alias and write-effect analysis of parameters, defaults and module tables"
NOTE = (
    "Static: every branch and every call target by receiver class, nothing executed. Flow-sensitive locals, growing heap, "
    "call-string contexts. Numpy, pandas and matplotlib calls are modelled; an unmodelled external call is assumed not to write its arguments.")

RULE = "write to an input, default or table"


def run(ctx):
    prog = ctx.prog
    ctx.rule(
        "Alias and write-effect analysis of every public method, property setter, constructor and library function: no "
        "reachable statement may write to a location reachable from a caller's argument, from a default argument value or "
        "from a module-level table. Exempt: the parent link set on adopted sub-objects and the working state of axis requests.")
    classes = prog.data_classes()
    entries = [("method",) + e for e in effects.public_methods(prog, classes)]
    for c in classes:
        entries.append(("ctor", c.name, "__init__"))
        for p in sorted(c.all_properties()):
            entries.append(("setter", c.name, p))
    entries += [("func",) + e for e in effects.public_functions(prog)]
    out = effects.analyse(ctx, entries)
    for e, events, reach, visited, cs, unstable, where, params in out:
        ctx.obligation(max(1, len(params)))
        for ev in events:
            if not ev["path"].startswith(("arg:", "default:", "table:")):
                continue
            if ev["cls"] == "RequestedAxis":
                continue
            site = effects.user_site(ev)
            ctx.report(RULE, "%s %s" % (effects.strip_line(site), ev["path"]), site,
                       "%s.%s writes %s (%s)" % (e[1], e[2], ev["path"], ev["op"]), ev["chain"] + [ev["site"]])
        ctx.sample("%s %s.%s" % e)
    ctx.need("entry points", 440)
    ctx.need("functions analysed", 200)
