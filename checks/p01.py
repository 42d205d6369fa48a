"""P01: reading never changes the object that is read."""
from . import effects

TECHNIQUE = "interprocedural alias and write-effect analysis"
NOTE = (
    "Static: every branch and every call target by receiver class, nothing executed. Flow-sensitive locals, growing heap, "
    "call-string contexts. Numpy, pandas and matplotlib calls are modelled; an unmodelled external call is assumed not to write its arguments.")

RULE = "read-only operation writes to its object"


def run(ctx):
    prog = ctx.prog
    ctx.rule(
        "Alias and write-effect analysis of every public non-setter method of every data, axis, normalization and "
        "vector-field class: no reachable statement may write to a location reachable from the receiver (attribute, "
        "array element, list or dictionary), whatever the path. Temporary writes count, since an exception would leave them.")
    classes = [c for c in prog.data_classes() if c.name != "RequestedAxis"]
    entries = [("method",) + e for e in effects.public_methods(prog, classes)]
    out = effects.analyse(ctx, entries)
    for e, events, reach, visited, cs, unstable, where, params in out:
        ctx.obligation()
        ctx.sample("%s.%s: %d functions reached, no write to the receiver" % (e[1], e[2], len(visited)))
        for ev in events:
            if not (ev["path"] == "self" or ev["path"].startswith(("self.", "self["))):
                continue
            site = effects.user_site(ev)
            ctx.report(RULE, "%s %s" % (effects.strip_line(site), ev["path"].replace("self.components[].", "self.")), site,
                       "%s.%s writes %s (%s)" % (e[1], e[2], ev["path"], ev["op"]), ev["chain"] + [ev["site"]])
    ctx.need("entry points", 230)
    ctx.need("functions analysed", 200)
