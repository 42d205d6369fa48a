"""P11: process-wide state is left as found."""
import ast

from sa.scope import Scope, own_nodes, scopes
from sa.model import Program

TECHNIQUE = "typestate analysis of process-wide setters with restoration on all exits, interprocedural residual effects"
NOTE = (
    "Static: every module body and function, nested ones included. A setter is accepted only when a try/finally (or the matching "
    "context manager) around everything after it restores the value read before it, in the function itself or around every call of it. "
    "The list of process-wide settings is finite (see FAMILIES); changes made by third-party code on the library's behalf are out of reach.")

RULE = "process-wide state changed and not restored"

# family -> (setter names, getter names giving the value to restore)
FAMILIES = {
    "current directory": ({"os.chdir", "os.fchdir"}, {"os.getcwd", "os.getcwdb", "pathlib.Path.cwd", "os.path.abspath"}),
    "umask": ({"os.umask"}, {"os.umask"}),
    "environment": ({"os.putenv", "os.unsetenv"}, set()),
    "random generator": (
        {"random.seed", "random.setstate", "numpy.random.seed", "numpy.random.set_state"},
        {"random.getstate", "numpy.random.get_state"}),
    "numpy error settings": ({"numpy.seterr", "numpy.seterrcall", "numpy.setbufsize"}, {"numpy.geterr", "numpy.seterr", "numpy.geterrcall", "numpy.seterrcall", "numpy.setbufsize", "numpy.getbufsize"}),
    "numpy print settings": ({"numpy.set_printoptions", "numpy.set_string_function"}, {"numpy.get_printoptions"}),
    "warning filters": ({"warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings"}, set()),
    "recursion limit": ({"sys.setrecursionlimit"}, {"sys.getrecursionlimit"}),
    "interpreter settings": ({"sys.setswitchinterval", "sys.settrace", "sys.setprofile", "sys.set_int_max_str_digits", "gc.disable", "gc.enable", "gc.set_threshold", "gc.freeze",
                              "faulthandler.enable", "signal.signal", "signal.alarm", "atexit.register", "multiprocessing.set_start_method", "socket.setdefaulttimeout", "time.tzset", "resource.setrlimit"}, {"sys.getswitchinterval", "sys.gettrace", "signal.getsignal", "gc.isenabled", "socket.getdefaulttimeout"}),
    "locale": ({"locale.setlocale"}, {"locale.setlocale", "locale.getlocale"}),
    "logging configuration": ({"logging.basicConfig", "logging.disable", "logging.setLoggerClass", "logging.captureWarnings"}, set()),
    "plotting backend": ({"matplotlib.use", "matplotlib.pyplot.switch_backend", "matplotlib.pyplot.ion", "matplotlib.pyplot.ioff", "matplotlib.interactive"},
                         {"matplotlib.get_backend", "matplotlib.pyplot.get_backend", "matplotlib.is_interactive", "matplotlib.pyplot.isinteractive"}),
    "plotting defaults": (
        {"matplotlib.rc", "matplotlib.pyplot.rc", "matplotlib.style.use", "matplotlib.pyplot.style.use", "matplotlib.rcdefaults", "matplotlib.pyplot.rcdefaults",
         "matplotlib.rc_file", "matplotlib.rc_file_defaults", "matplotlib.pyplot.set_cmap", "matplotlib.pyplot.xkcd", "matplotlib.pyplot.gray",
         "matplotlib.pyplot.jet", "matplotlib.pyplot.hot", "matplotlib.pyplot.viridis", "matplotlib.pyplot.set_loglevel", "matplotlib.set_loglevel", "seaborn.set", "seaborn.set_theme", "seaborn.set_style"},
        set()),
    "pandas options": ({"pandas.set_option", "pandas.reset_option"}, {"pandas.get_option"}),
    "decimal context": ({"decimal.setcontext"}, {"decimal.getcontext"}),
}
# mappings and sequences that belong to the whole process
STATE_OBJECTS = {
    "os.environ": "environment", "matplotlib.rcParams": "plotting defaults", "matplotlib.pyplot.rcParams": "plotting defaults",
    "matplotlib.rcParamsDefault": "plotting defaults", "sys.path": "module search path", "sys.modules": "module table", "sys.argv": "program arguments",
    "warnings.filters": "warning filters", "sys.meta_path": "module search path", "sys.path_hooks": "module search path", "pandas.options": "pandas options",
}
MUTATORS = set("update setdefault pop popitem clear append insert extend remove reverse sort".split())
# context managers that put the family back themselves
MANAGERS = {
    "warnings.catch_warnings": {"warning filters"}, "numpy.errstate": {"numpy error settings"}, "numpy.printoptions": {"numpy print settings"},
    "matplotlib.rc_context": {"plotting defaults"}, "matplotlib.pyplot.rc_context": {"plotting defaults"},
    "matplotlib.style.context": {"plotting defaults"}, "matplotlib.pyplot.style.context": {"plotting defaults"},
    "contextlib.chdir": {"current directory"}, "pandas.option_context": {"pandas options"}, "decimal.localcontext": {"decimal context"},
    "matplotlib.pyplot.ion": {"plotting backend"}, "matplotlib.pyplot.ioff": {"plotting backend"}, "matplotlib.pyplot.xkcd": {"plotting defaults"},
}
# drawing from the shared generators advances them
DRAW = {"random." + x for x in "random randint randrange uniform choice choices sample shuffle gauss normalvariate triangular betavariate expovariate gammavariate lognormvariate paretovariate vonmisesvariate weibullvariate getrandbits randbytes".split()}
DRAW_NP_EXEMPT = {"RandomState", "default_rng", "Generator", "SeedSequence", "PCG64", "MT19937", "Philox", "SFC64", "get_state", "BitGenerator", "bit_generator"}

SETTER = {s: fam for fam, (ss, _) in FAMILIES.items() for s in ss}
GETTER = {}
for _fam, (_, _gs) in FAMILIES.items():
    for _g in _gs:
        GETTER.setdefault(_g, set()).add(_fam)


def setter_events(scope, node):
    """(ast node, family, what) of every direct write to process-wide state in one function or module body"""
    for n in own_nodes(node):
        if isinstance(n, ast.Call):
            d = scope.ext(n.func)
            if d in SETTER:
                if d == "numpy.seterr" and not n.args and not n.keywords:
                    continue
                if d == "locale.setlocale" and len(n.args) < 2 and not n.keywords:
                    continue
                if d in MANAGERS and isinstance(getattr(n, "_parent", None), ast.withitem):
                    continue
                yield n, SETTER[d], d
            elif d in DRAW or (d.startswith("numpy.random.") and d.count(".") == 2 and d.split(".")[2] not in DRAW_NP_EXEMPT):
                yield n, "random generator", d
            elif isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                o = scope.ext(n.func.value)
                if o in STATE_OBJECTS:
                    yield n, STATE_OBJECTS[o], o + "." + n.func.attr
        targets = []
        if isinstance(n, ast.Assign):
            targets = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            targets = [n.target]
        elif isinstance(n, ast.Delete):
            targets = n.targets
        flat = []
        for t in targets:
            flat += list(t.elts) if isinstance(t, (ast.Tuple, ast.List)) else [t]
        for t in flat:
            if isinstance(t, ast.Subscript):
                o = scope.ext(t.value)
                if o in STATE_OBJECTS:
                    yield n, STATE_OBJECTS[o], o
            elif isinstance(t, ast.Attribute):
                o = scope.ext(t.value)
                if o:
                    fam = STATE_OBJECTS.get(o + "." + t.attr, "attribute of module " + o)
                    yield n, fam, o + "." + t.attr
            elif isinstance(t, ast.Name) and isinstance(n, ast.AugAssign):
                o = scope.ext(t)
                if o in STATE_OBJECTS:
                    yield n, STATE_OBJECTS[o], o


def stmt_of(n):
    while not isinstance(n, ast.stmt):
        n = n._parent
    return n


def saved_names(scope, node):
    """local name -> [(line, families whose earlier value it holds)]"""
    out = {}
    for n in own_nodes(node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            fams = set()
            for c in ast.walk(n.value):
                if isinstance(c, ast.Call):
                    fams |= GETTER.get(scope.ext(c.func), set())
                    if isinstance(c.func, ast.Attribute) and c.func.attr in ("copy", "get"):
                        o = scope.ext(c.func.value)
                        if o in STATE_OBJECTS:
                            fams.add(STATE_OBJECTS[o])
                    for a in c.args:
                        o = scope.ext(a)
                        if o in STATE_OBJECTS:
                            fams.add(STATE_OBJECTS[o])
                if isinstance(c, ast.Subscript):
                    o = scope.ext(c.value)
                    if o in STATE_OBJECTS:
                        fams.add(STATE_OBJECTS[o])
                if isinstance(c, ast.Attribute):
                    o = scope.ext(c.value)
                    if o:
                        fams.add("attribute of module " + o)
                        if o + "." + c.attr in STATE_OBJECTS:
                            fams.add(STATE_OBJECTS[o + "." + c.attr])
            out.setdefault(n.targets[0].id, []).append((n.lineno, fams))
    return out


def restores(scope, saved, body, fam, before_line):
    """does this finally block put back a value of the family read before the change"""
    for st in body:
        for ev, f, _ in setter_events(scope, ast.Module(body=[st], type_ignores=[])):
            if f != fam:
                continue
            src = []
            if isinstance(ev, ast.Call):
                src = list(ev.args) + [k.value for k in ev.keywords]
            elif isinstance(ev, ast.Assign):
                src = [ev.value]
            elif isinstance(ev, ast.Delete):
                return True
            for a in src:
                for x in ast.walk(a):
                    if isinstance(x, ast.Name) and any(fam in fams and ln <= before_line for ln, fams in saved.get(x.id, [])):
                        return True
            if fam == "environment" and isinstance(ev, ast.Call) and isinstance(ev.func, ast.Attribute) and ev.func.attr == "pop":
                return True
    return False


def harmless(st):
    """a statement that cannot raise"""
    if isinstance(st, (ast.Pass, ast.Global, ast.Nonlocal)):
        return True
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
        return True
    return isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) for t in st.targets) and isinstance(st.value, (ast.Constant, ast.Name))


def protected(scope, saved, n, fam):
    """is the change at n undone on every exit of the function"""
    st = stmt_of(n)
    cur, prev = st, None
    line = n.lineno
    while cur is not None and not isinstance(cur, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module, ast.ClassDef)):
        par = cur._parent
        if isinstance(cur, ast.Try) and prev is not None and prev not in cur.finalbody and cur.finalbody:
            if restores(scope, saved, cur.finalbody, fam, line):
                return True
        if isinstance(cur, ast.Try) and prev is not None and prev in cur.finalbody:
            # a restoring statement is judged by the change it undoes
            if restores(scope, saved, [prev], fam, line):
                return True
        if isinstance(cur, (ast.With, ast.AsyncWith)) and prev is not None:
            for it in cur.items:
                c = it.context_expr
                if isinstance(c, ast.Call) and fam in MANAGERS.get(scope.ext(c.func), ()):
                    return True
        # statement directly followed by a try whose finally restores
        for field in ("body", "orelse", "finalbody", "handlers"):
            blk = getattr(par, field, None)
            if isinstance(blk, list) and cur in blk:
                rest = blk[blk.index(cur) + 1:]
                for nx in rest:
                    if harmless(nx):
                        continue
                    if isinstance(nx, ast.Try) and nx.finalbody and restores(scope, saved, nx.finalbody, fam, line) and cur is st:
                        return True
                    break
        prev, cur = cur, par
    return False


def residual(prog, unit_list):
    """(residual effects by function node, number of setters seen)"""
    by_node = {}
    res = {}
    seen = 0
    calls = {}
    for name, m, node, sc in unit_list:
        by_node[node] = (name, m, sc)
        saved = saved_names(sc, node)
        res[node] = {}
        for ev, fam, what in setter_events(sc, node):
            seen += 1
            if not protected(sc, saved, ev, fam):
                res[node][(fam, what, m.rel, name)] = "%s:%d (%s)" % (m.rel, ev.lineno, name)
        calls[node] = []
        for n in own_nodes(node):
            if isinstance(n, ast.Call):
                targets = []
                r = sc.resolve(n.func)
                if r and r[0] == "func":
                    targets.append(r[1].node)
                elif isinstance(n.func, ast.Attribute) and not (r and r[0] == "ext"):
                    for c in prog.classes.values():
                        f = c.methods.get(n.func.attr)
                        if f:
                            targets.append(f.node)
                elif isinstance(n.func, ast.Name):
                    for nn in own_nodes(node):
                        if isinstance(nn, ast.FunctionDef) and nn.name == n.func.id:
                            targets.append(nn)
                for t in targets:
                    calls[node].append((n, t))
    changed = True
    while changed:
        changed = False
        for node, cs in calls.items():
            name, m, sc = by_node[node]
            saved = None
            for n, t in cs:
                for key, site in res.get(t, {}).items():
                    if key in res[node]:
                        continue
                    if saved is None:
                        saved = saved_names(sc, node)
                    if not protected(sc, saved, n, key[0]):
                        res[node][key] = site
                        changed = True
    return res, by_node, seen


def is_entry(name, called):
    last = name.split(".")[-1]
    return name == "<module>" or not (last.startswith("_") and not last.startswith("__")) or not called


def analyse(prog):
    units = list(scopes(prog))
    res, by_node, seen = residual(prog, units)
    called = set()
    for name, m, node, sc in units:
        for n in own_nodes(node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name):
                    called.add(n.func.id)
                elif isinstance(n.func, ast.Attribute):
                    called.add(n.func.attr)
    out = {}
    for node, effs in res.items():
        name, m, sc = by_node[node]
        nested = isinstance(node, ast.FunctionDef) and any(isinstance(p, ast.FunctionDef) for p in parents(node))
        if nested or not is_entry(name, name.split(".")[-1] in called):
            continue
        for key, site in effs.items():
            out.setdefault(key, (site, name))
    return out, len(units), seen


def parents(n):
    n = getattr(n, "_parent", None)
    while n is not None:
        yield n
        n = getattr(n, "_parent", None)


SAMPLE = '''
import os, numpy as np, warnings
from os import chdir, getcwd
import matplotlib.pyplot as plt
def bad_cwd(p):
    wd = getcwd()
    chdir(p)
    work()
    chdir(wd)
def good_cwd(p):
    wd = getcwd()
    chdir(p)
    try:
        work()
    finally:
        chdir(wd)
def good_cwd2(p):
    wd = os.getcwd()
    try:
        os.chdir(p)
        return work()
    finally:
        os.chdir(wd)
def _enter(p):
    chdir(p)
def good_helper(p):
    wd = getcwd()
    try:
        _enter(p)
        work()
    finally:
        chdir(wd)
def bad_helper(p):
    _leave(p)
def _leave(p):
    plt.rcParams["font.size"] = p
def bad_seed():
    rs = np.random
    rs.seed(3)
def good_rng():
    return np.random.RandomState(3).rand()
def bad_draw():
    return np.random.rand(3)
def good_warn():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
def bad_warn():
    warnings.simplefilter("ignore")
def bad_late(p):
    chdir(p)
    wd = getcwd()
    try:
        work()
    finally:
        chdir(wd)
def bad_err():
    np.seterr(all="ignore")
def bad_env(p):
    os.environ["A"] = p
'''


def sample_program():
    prog = Program.__new__(Program)
    prog.modules, prog.classes, prog.funcs, prog.parse_files, prog.repo = {}, {}, [], 0, ""
    from sa.model import ModuleInfo
    tree = ast.parse(SAMPLE)
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c._parent = n
    m = ModuleInfo("sample", "sample.py", "sample.py", tree, SAMPLE)
    prog.modules["sample"] = m
    prog._scan(m, tree.body)
    return prog


def run(ctx):
    ctx.rule(
        "Every module body and function is scanned for changes of process-wide settings (%s). A change must be undone, with the "
        "value read before it, by a finally block or context manager that covers every exit; unprotected changes propagate to callers "
        "and are reported for every public function and every module import." % ", ".join(sorted(FAMILIES)))
    got, _, _ = analyse(sample_program())
    names = {k[3] for k in got}
    expect = {"bad_cwd", "_leave", "bad_seed", "bad_draw", "bad_warn", "bad_late", "bad_err", "bad_env"}
    ctx.selftest("process-wide setters, expected %s got %s" % (sorted(expect), sorted(names)), names == expect)
    out, units, seen = analyse(ctx.prog)
    ctx.count("bodies analysed", units)
    ctx.count("process-wide changes seen", seen)
    ctx.obligation(units)
    for (fam, what, rel, name), (site, entry) in sorted(out.items()):
        ctx.report(RULE, "%s:%s %s" % (rel, name, what), site, "%s (%s) is not put back on every exit, reached from %s" % (fam, what, entry))
    ctx.sample("restored on all exits: %d of %d changes" % (seen - len(out), seen))
    ctx.need("bodies analysed", 400)
