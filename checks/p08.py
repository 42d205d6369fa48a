"""P08: what is saved can be loaded back as the same class."""
import ast

from sa.absint import C, FALSE, NONE, U, UNKNOWN, V, Interp, Obj, Raised, State, is_c, show
from sa.model import AnalysisError, Program

from . import objects as ob
from .p07 import KindOracle

TECHNIQUE = "abstract interpretation of export, save, load and nested rebuild with the class name as a constant, for every class of the library"
NOTE = "assumes: the json and hdf5 readers give back the dictionary that was written; pickled files resolve their classes in the pickle format itself"


class FileOracle(KindOracle):
    """files hold one dictionary; what is written is recorded"""

    def __init__(self, prog):
        KindOracle.__init__(self, prog)
        self.content = None
        self.written = []

    def call(self, interp, st, fn, args, kw, node):
        if fn[0] == "f" and fn[1].name == "import_class":
            return None
        if fn[0] == "x" and fn[1] in ("json.load", "json.loads") and self.content is not None:
            return V(self.content)
        if fn[0] == "f" and fn[1].name == "construct_dict_from_group" and self.content is not None:
            return V(self.content)
        if fn[0] == "x" and fn[1] in ("json.dump", "json.dumps"):
            a = args[0] if args else kw.get("obj", UNKNOWN)
            self.written.append((a, {i[1]: st.heap[i[1]] for i in a if i[0] == "o"}))
            return V(NONE)
        if fn[0] == "f" and fn[1].name == "check_var" and fn[1].module.name.endswith("._check"):
            return V(NONE)
        return KindOracle.call(self, interp, st, fn, args, kw, node)


def tag_of(d):
    """the class name of an exported dictionary"""
    return d.fields.get(C("__class__")) if d.kind == "dict" else None


def exported(prog, ci):
    o = FileOracle(prog)
    it = Interp(prog, o)
    st = State()
    me = ob.make(prog, o, st, it, ci, "self")
    r, st = it.run(ci.find_method("as_dict"), [V(me)], {}, st)
    return [tag_of(st.heap[i[1]]) if i[0] == "o" else None for i in r]


def saved(prog, ci):
    """class names in what saving an object writes; None when nothing is known to be written"""
    m = ci.find_method("save")
    if m is None:
        return None
    o = FileOracle(prog)
    it = Interp(prog, o)
    st = State()
    me = ob.make(prog, o, st, it, ci, "self")
    it.run(m, [V(me), V(C("folder/file.json"))], {}, st)
    out = []
    for a, h in o.written:
        for i in a:
            out.append(tag_of(h[i[1]]) if i[0] == "o" else V(U) if i == U else None)
    return out


def entry(it, st, ci, name):
    return it.new(st, ("stored", name), Obj("dict", None, {C("__class__"): V(C(ci.name))}))


def classes_in(v, st, out=None, deep=True):
    out = [] if out is None else out
    for i in v:
        if i[0] == "o":
            h = st.heap[i[1]]
            if h.kind == "inst":
                out.append(h.cls.name)
            elif deep and h.kind == "list":
                classes_in(h.all_elems(), st, out)
            elif deep:
                if C("__class__") in h.fields:
                    out.append("a plain dictionary")
                else:
                    classes_in(h.all_elems(), st, out)
        elif i == U:
            out.append(None)
        else:
            out.append(show(i))
    return out


def loaded(prog, f, ci, path, nest=None, only=None):
    """classes of what a loading function returns for a file holding one object of class ci"""
    o = FileOracle(prog)
    it = Interp(prog, o)
    st = State()
    e = entry(it, st, ci, "file")
    if nest == "list":
        e = it.new(st, ("stored", "list"), Obj("list", exact=(V(e),)))
    elif nest == "dict":
        e = it.new(st, ("stored", "dict"), Obj("dict", None, {C("some key"): V(e)}))
    elif nest == "dict of lists":
        e = it.new(st, ("stored", "list"), Obj("list", exact=(V(e),)))
        e = it.new(st, ("stored", "dict"), Obj("dict", None, {C("some key"): V(e)}))
    o.content = e
    try:
        r, st = it.run(f, [V(C(path))], {}, st)
    except Raised as x:
        return ["an error (%s)" % x.exc]
    return classes_in(r, st)


def nested(prog, ci, p, t, x, from_file, lead):
    """classes of the element stored when a property is given a dictionary (or file) of class x, after one of another class"""
    o = FileOracle(prog)
    it = Interp(prog, o)
    st = State()
    me = ob.make(prog, o, st, it, ci, "self")
    e = entry(it, st, x, "element")
    o.content = e
    v = V(C("some/file.json")) if from_file else V(e)
    first = V(entry(it, st, lead, "first element"))
    if t[0] == "[":
        v = V(it.new(st, ("given",), Obj("list", exact=(first, v))))
    elif t[0] == "{":
        v = V(it.new(st, ("given",), Obj("dict", None, {C("first"): first, C("key"): v})))
    try:
        _, st = it.run(ci.find_property(p)[1], [V(me), v], {}, st)
    except Raised as x:
        return ["an error (%s)" % x.exc]
    got = st.heap[me[1]].fields.get("_" + p, UNKNOWN)
    if t[0] in "[{" and len(got) == 1:
        b = next(iter(got))
        b = st.heap[b[1]] if b[0] == "o" else None
        if t[0] == "[" and b is not None and b.exact is not None and len(b.exact) == 2:
            got = b.exact[1]
        elif t[0] == "{" and b is not None and C("key") in b.fields:
            got = b.fields[C("key")]
    out = classes_in(got, st)
    return None if from_file and show(C("some/file.json")) in out else out  # file names are not supported there


def resolved(prog, f, mod, name):
    o = FileOracle(prog)
    it = Interp(prog, o)
    try:
        r, _ = it.run(f, [V(C(mod)), V(C(name))], {}, State())
    except Raised as x:
        return ["an error (%s)" % x.exc]
    return [i[1].name if i[0] == "k" else None if i == U else show(i) for i in r]


def function(prog, module, name):
    m = prog.modules.get(module)
    f = m and m.functions.get(name)
    if f is None:
        raise AnalysisError("%s.%s not found" % (module, name))
    return f


def wrong(got, want):
    """the classes found that are not the wanted one; undecided ones left out"""
    return sorted({g for g in got if g is not None and g != want})


def run(ctx):
    prog = ctx.prog
    ctx.rule("For every class: the class name in the exported dictionary and in what saving writes is the name of the class; importing that name gives that class.")
    ctx.rule("Each loading function is evaluated on a file holding an object of each class (alone, in a list, in a dictionary), and each property holding library objects on a dictionary and on a file of each admissible class: the result must be of that class.")
    imp = function(prog, "SciDataTool.Functions.Load.import_class", "import_class")
    load = function(prog, "SciDataTool.Functions.load", "load")
    llist = function(prog, "SciDataTool.Functions.load", "load_list")
    ldict = function(prog, "SciDataTool.Functions.load", "load_dict")
    init = function(prog, "SciDataTool.Functions.load", "init_data")
    cs = ob.concrete(prog)

    def judge(rule, construct, where, got, want, text):
        if got is None:
            return
        ctx.obligation()
        ctx.count("resolutions judged")
        if not got:
            ctx.report(rule, construct, where, text + "nothing")
            return
        if None in got:
            ctx.count("undecided")
        for g in wrong(got, want):
            ctx.report(rule, construct, where, text + str(g))

    for ci in cs:
        ctx.count("classes")
        m = ci.find_method("as_dict")
        try:
            tags = exported(prog, ci)
        except Raised as e:
            ctx.report("export-fails", ci.name, m.where(), "exporting a %s always fails (%s)" % (ci.name, e.exc))
            continue
        for t in tags:
            ctx.obligation()
            if t is None or NONE in t and len(t) == 1:
                ctx.report("tag-missing", ci.name, m.where(), "exporting a %s writes no class name" % ci.name)
            elif U not in t and t != V(C(ci.name)):
                ctx.report("tag-wrong", ci.name, m.where(), "exporting a %s writes the class name %s" % (ci.name, " or ".join(sorted(show(i) for i in t))))
        try:
            s = saved(prog, ci)
        except Raised as e:
            s = None
            ctx.report("save-fails", ci.name, ci.find_method("save").where(), "saving a %s always fails (%s)" % (ci.name, e.exc))
        if s is not None:
            ctx.count("save methods")
            ctx.obligation()
            sm = ci.find_method("save")
            if not s:
                ctx.report("save-nothing", ci.name, sm.where(), "saving a %s writes nothing" % ci.name)
            for t in s:
                if t is None:
                    ctx.report("save-tag", ci.name, sm.where(), "saving a %s writes something without a class name" % ci.name)
                elif U not in t and t != V(C(ci.name)):
                    ctx.report("save-tag", ci.name, sm.where(), "saving a %s writes the class name %s" % (ci.name, " or ".join(sorted(show(i) for i in t))))
        judge("import-wrong", ci.name, imp.where(), resolved(prog, imp, "SciDataTool.Classes", ci.name), ci.name, "the saved class name %s is resolved to " % ci.name)
        for path in ("file.json", "folder/file.json", "folder/file.h5"):
            judge("load-wrong", "%s:%s" % (ci.name, path.split(".")[-1]), load.where(), loaded(prog, load, ci, path), ci.name, "loading a saved %s from %s gives " % (ci.name, path))
        judge("load-wrong", ci.name + ":list", llist.where(), loaded(prog, llist, ci, "folder/file.json", "list"), ci.name, "loading a list holding a %s gives " % ci.name)
        judge("load-wrong", ci.name + ":dict", ldict.where(), loaded(prog, ldict, ci, "folder/file.json", "dict"), ci.name, "loading a dictionary holding a %s gives " % ci.name)
        judge("load-wrong", ci.name + ":dict of lists", ldict.where(), loaded(prog, ldict, ci, "file.json", "dict of lists"), ci.name, "loading a dictionary of lists holding a %s gives " % ci.name)
    done = set()
    for ci in cs:
        for p, owner in sorted(ci.all_properties().items()):
            t = prog.doc_type(ci, p)
            if t is None:
                continue
            i = ob.inner_type(t) or t
            if i not in prog.classes:
                continue
            s = ci.find_property(p)[1]
            if id(s.node) in done:
                continue
            done.add(id(s.node))
            ctx.count("nested properties")
            fit = [x for x in cs if x.is_sub(prog.classes[i])]
            for n, x in enumerate(fit):
                for ff in (False, True):
                    judge("nested-wrong", "%s.%s=%s%s" % (owner.name, p, x.name, " file" if ff else ""), s.where(), nested(prog, ci, p, t, x, ff, fit[n - 1]), x.name,
                          "a %s given as %s for property %s is stored as " % (x.name, "a file name" if ff else "its dictionary", p))
    tables(ctx, prog, cs)
    ctx.selftest("wrong class seen", wrong(["A", None, "B"], "A") == ["B"])
    ctx.need("classes", 14)
    ctx.need("save methods", 14)
    ctx.need("nested properties", 4)


def tables(ctx, prog, cs):
    """literal name -> class tables, and constant names given to the dynamic import"""
    m = prog.modules.get("SciDataTool.Functions.load_switch")
    if m is not None:
        it = Interp(prog, FileOracle(prog))
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Dict):
                for k, v in zip(n.value.keys, n.value.values):
                    if isinstance(k, ast.Constant) and isinstance(v, ast.Name):
                        ctx.count("table entries")
                        ctx.obligation()
                        r = resolve_star(prog, m, v.id)
                        if r is None:
                            ctx.report("table-unknown", str(k.value), "%s:%d" % (m.rel, v.lineno), "the class name %s stands for %s, which is not defined" % (k.value, v.id))
                        elif r.name != k.value:
                            ctx.report("table-wrong", str(k.value), "%s:%d" % (m.rel, v.lineno), "the class name %s stands for the class %s" % (k.value, r.name))
                have = {k.value for k in n.value.keys if isinstance(k, ast.Constant)}
                for c in cs:
                    if c.name not in have:
                        ctx.report("table-missing", c.name, "%s:%d" % (m.rel, n.lineno), "the class name %s is not in the table of class names" % c.name)
    for f in prog.funcs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "import_class" and len(n.args) >= 2:
                a = [x.value if isinstance(x, ast.Constant) else None for x in n.args[:2]]
                if a[0] and str(a[0]).split(".")[0] == "SciDataTool":
                    ctx.obligation()
                    ctx.count("import sites")
                    if a[0] != "SciDataTool.Classes" and (a[1] is None or (a[0] + "." + a[1]) not in prog.modules):
                        ctx.report("import-site", "%s:%s" % (f.qual, a[0]), f.where(n), "classes are looked up in %s" % a[0])
                    elif a[1] is not None and a[1] not in prog.classes:
                        ctx.report("import-site", "%s:%s" % (f.qual, a[1]), f.where(n), "the class %s does not exist" % a[1])


def resolve_star(prog, m, name):
    r = prog.resolve_name(m, name)
    if r and r[0] == "class":
        return r[1]
    for n in m.tree.body:
        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
            b = prog.modules.get(prog._abs(m, n))
            if b is not None:
                r = prog.resolve_name(b, name)
                if r and r[0] == "class":
                    return r[1]
    return None
