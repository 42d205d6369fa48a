"""P02: results never share storage with the object they were read from."""
from . import effects

TECHNIQUE = "interprocedural points-to analysis of returned values"
NOTE = (
    "Static: every branch and every call target by receiver class, nothing executed. Flow-sensitive locals, growing heap, "
    "call-string contexts. Numpy, pandas and matplotlib calls are modelled; an unmodelled external call is assumed not to write its arguments.")

RULE = "result shares storage with its source"
# accessors whose documented purpose is to hand out the object's own parts
LIVE = {
    "get_axes": "hands out the object's own axes",
    "as_dict": "array handling mode 2 exports arrays as they are",
}
CONTAINERS = ("array", "list", "dict", "inst", "set")


def run(ctx):
    prog = ctx.prog
    ctx.rule(
        "Points-to analysis of the value returned by every public non-setter method: no array, list, dictionary or object "
        "reachable from the result may be a location of the receiver (views count as sharing). Exempt: %s; the parent link."
        % "; ".join("%s (%s)" % kv for kv in sorted(LIVE.items())))
    classes = [c for c in prog.data_classes() if c.name != "RequestedAxis"]
    entries = [("method",) + e for e in effects.public_methods(prog, classes)]
    out = effects.analyse(ctx, entries)
    for e, events, reach, visited, cs, unstable, where, params in out:
        ctx.obligation()
        if e[2] in LIVE:
            ctx.count("live accessors")
            continue
        for path, root, kind, cls in reach:
            if not (root == "self" or root.startswith(("self.", "self["))) or kind not in CONTAINERS:
                continue
            ctx.report(RULE, "%s %s<-%s" % (e[2], path.replace("result.components[?].", "result."), root.replace("self.components[].", "self.")),
                       where, "%s returned by %s.%s is the %s stored in %s" % (path, e[1], e[2], cls or kind, root))
        ctx.sample("%s.%s" % (e[1], e[2]))
    ctx.need("entry points", 230)
    ctx.need("functions analysed", 200)
