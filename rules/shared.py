"""No call leaves traces in what outlives it: module tables, class attributes, default arguments, process-wide settings."""
import ast

from sa.effects import Roots, effects
from sa.rule import imprecise, show
from sa.terms import walk

# calls that change settings of the whole process
SETTINGS = {
    "numpy.random.seed", "numpy.random.set_state", "numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions", "numpy.set_string_function",
    "random.seed", "random.setstate", "torch.manual_seed", "torch.random.manual_seed", "torch.seed", "torch.cuda.manual_seed", "torch.cuda.manual_seed_all",
    "torch.set_default_dtype", "torch.set_default_tensor_type", "torch.set_num_threads", "torch.set_num_interop_threads", "torch.set_grad_enabled",
    "torch.set_rng_state", "torch.use_deterministic_algorithms", "torch.set_printoptions", "torch.autograd.set_detect_anomaly",
    "torch.set_default_device", "pandas.set_option", "pandas.reset_option", "pandas.set_eng_float_format", "warnings.simplefilter", "warnings.filterwarnings",
    "warnings.resetwarnings", "sys.setrecursionlimit", "sys.settrace", "sys.setprofile", "sys.setswitchinterval", "os.putenv", "os.unsetenv", "os.chdir",
    "os.umask", "os.environ.update", "os.environ.setdefault", "os.environ.pop", "os.environ.clear", "sys.path.append", "sys.path.insert", "sys.path.remove",
    "logging.disable", "logging.basicConfig", "logging.captureWarnings", "locale.setlocale", "socket.setdefaulttimeout", "signal.signal", "atexit.register",
    "gc.disable", "gc.enable", "gc.freeze", "decimal.setcontext", "matplotlib.use", "matplotlib.rcParams.update", "matplotlib.pyplot.rcParams.update",
    "matplotlib.pyplot.style.use", "matplotlib.pyplot.switch_backend", "matplotlib.rcdefaults", "matplotlib.rc", "matplotlib.pyplot.rc", "sklearn.set_config",
    "multiprocessing.set_start_method", "builtins.setattr",
}
# settings restored by the block that encloses them
SCOPED = {
    "warnings.simplefilter": {"warnings.catch_warnings"}, "warnings.filterwarnings": {"warnings.catch_warnings"}, "warnings.resetwarnings": {"warnings.catch_warnings"},
    "numpy.seterr": {"numpy.errstate"}, "numpy.set_printoptions": {"numpy.printoptions"}, "decimal.setcontext": {"decimal.localcontext"},
    "pandas.set_option": {"pandas.option_context"}, "sklearn.set_config": {"sklearn.config_context"}, "torch.manual_seed": {"torch.random.fork_rng"},
    "matplotlib.pyplot.style.use": {"matplotlib.pyplot.style.context", "matplotlib.pyplot.rc_context", "matplotlib.rc_context"},
}
# tables whose items are settings of the whole process
TABLES = {"os.environ", "sys.path", "sys.modules", "matplotlib.rcParams", "matplotlib.pyplot.rcParams", "warnings.filters"}
SEEDS = {"numpy.random.seed", "random.seed", "torch.manual_seed", "torch.random.manual_seed"}
FRESH = {"list", "dict", "set"}
MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
FACTORIES = {"list", "dict", "set", "defaultdict", "OrderedDict", "Counter", "deque", "bytearray", "array", "zeros", "ones", "empty", "DataFrame", "Series",
             "Graph", "DiGraph", "full"}


def mutable_value(v):
    """an expression that denotes an object that can be changed in place"""
    if isinstance(v, MUTABLE):
        return True
    if isinstance(v, ast.Call):
        n = v.func.attr if isinstance(v.func, ast.Attribute) else v.func.id if isinstance(v.func, ast.Name) else ""
        return n in FACTORIES
    return False


def dotted(e):
    return ast.unparse(e) if isinstance(e, (ast.Name, ast.Attribute)) else None


class Scan(ast.NodeVisitor):
    """settings changed by the text of one function (nested functions included)"""

    def __init__(self, p, f):
        self.p, self.f = p, f
        self.withs, self.found, self.calls, self.scopes = [], [], [], [f.node]
        self.names = set()

    def resolve(self, e):
        d = dotted(e)
        if d is None:
            return None
        head, _, rest = d.partition(".")
        if head in self.names:
            return None
        q = self.p.resolve_dotted(self.imports[head]) if head in self.imports else self.p.resolve(self.f.module, head)
        if q is None:
            return None
        if q[0] == "global":
            q = f"{q[1].name}.{q[2]}"
        elif q[0] == "builtin":
            q = "builtins." + q[1]
        else:
            q = q[1] if isinstance(q[1], str) else getattr(q[1], "qual", None) or q[1].name
        return q + ("." + rest if rest else "")

    def visit_With(self, n):
        held = [self.resolve(i.context_expr.func) for i in n.items if isinstance(i.context_expr, ast.Call)]
        for i in n.items:
            # the manager's own call is not a statement of the block
            if isinstance(i.context_expr, ast.Call):
                for a in i.context_expr.args + [k.value for k in i.context_expr.keywords]:
                    self.visit(a)
            else:
                self.visit(i.context_expr)
        self.withs.append(set(h for h in held if h))
        for s in n.body:
            self.visit(s)
        self.withs.pop()

    def held(self):
        return set().union(*self.withs) if self.withs else set()

    def visit_Call(self, n):
        q = self.resolve(n.func)
        if q:
            self.calls.append((q, n, self.held()))
            if q in SETTINGS and not (SCOPED.get(q, set()) & self.held()):
                self.setting(q, n)
        elif isinstance(n.func, ast.Attribute):
            self.calls.append(("." + n.func.attr, n, self.held()))
            o = n.func.value
            if n.func.attr == "seed" and isinstance(o, ast.Call) and self.resolve(o.func) in ("numpy.random.mtrand._rand",):
                self.found.append((n, "random generator"))
        self.generic_visit(n)

    def setting(self, q, n):
        if q in SEEDS:
            # a seed the caller asked for
            a = n.args[0] if n.args else n.keywords[0].value if n.keywords else None
            ps = {x.arg for x in self.f.node.args.args + self.f.node.args.kwonlyargs + self.f.node.args.posonlyargs}
            if isinstance(a, ast.Name) and a.id in ps and ("seed" in a.id or "random_state" in a.id):
                return
        if q == "builtins.setattr":
            o = self.resolve(n.args[0]) if n.args else None
            if o in self.p.class_by_qual or o in self.p.modules or o in self.p.func_by_qual:
                self.found.append((n, f"setattr on {o}"))
            return
        self.found.append((n, q))

    def target(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x)
        elif isinstance(t, ast.Starred):
            self.target(t.value)
        elif isinstance(t, ast.Name):
            if t.id in self.globals_:
                self.found.append((t, f"global {t.id}"))
        elif isinstance(t, ast.Attribute):
            o = t.value
            q = self.resolve(o)
            if q and (q in self.p.class_by_qual or q in self.p.modules or q in self.p.func_by_qual or q.split(".")[0] in
                      ("numpy", "pandas", "torch", "networkx", "sklearn", "scipy", "matplotlib", "random", "warnings", "os", "sys", "builtins", "math")):
                self.found.append((t, f"{q}.{t.attr} ="))
            if isinstance(o, ast.Attribute) and o.attr == "__class__" or isinstance(o, ast.Call) and dotted(o.func) == "type" and len(o.args) == 1:
                self.found.append((t, f"{ast.unparse(t)} ="))
            if self.f.is_class and isinstance(o, ast.Name) and self.f.params and o.id == self.f.params[0]:
                self.found.append((t, f"{ast.unparse(t)} ="))
        elif isinstance(t, ast.Subscript):
            if self.resolve(t.value) in TABLES:
                self.found.append((t, f"{ast.unparse(t.value)}[...] ="))

    def visit_Assign(self, n):
        for t in n.targets:
            self.target(t)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.target(n.target)
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.target(n.target)
        self.generic_visit(n)

    def visit_Delete(self, n):
        for t in n.targets:
            self.target(t)

    def visit_For(self, n):
        self.target(n.target)
        self.generic_visit(n)

    def run(self):
        self.globals_ = {x for s in ast.walk(self.f.node) if isinstance(s, ast.Global) for x in s.names}
        local = {a.arg for s in ast.walk(self.f.node) if isinstance(s, ast.arguments)
                 for a in s.args + s.kwonlyargs + s.posonlyargs + [x for x in (s.vararg, s.kwarg) if x]}
        local |= {x.id for x in ast.walk(self.f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        self.imports = {}
        for s in ast.walk(self.f.node):
            if isinstance(s, ast.Import):
                for x in s.names:
                    self.imports[x.asname or x.name.split(".")[0]] = x.name if x.asname else x.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom) and s.module and not s.level:
                for x in s.names:
                    self.imports[x.asname or x.name] = f"{s.module}.{x.name}"
        self.names = local - self.globals_
        for s in self.f.node.body:
            self.visit(s)
        return self


def kin(p, a, b):
    """classes one of which derives from the other"""
    return a is b or a in p.mro(b) or b in p.mro(a)


def own(p, f, cls):
    """f mutates its own object, which is of another family than cls"""
    return f is not None and f.cls is not None and cls is not None and not kin(p, f.cls, cls)


def c49(R):
    p = R.p
    stored, mutated, scans, n = [], {}, {}, 0
    for q, f in sorted(p.func_by_qual.items()):
        if f.outer is not None:
            continue
        scans[q] = Scan(p, f).run()
        try:
            r = R.run(q)
            rt = Roots(r)
            es = effects(r, rt)
        except RecursionError:
            R.und("shared", f.where, f"{q[10:]} leaves shared state as it was", "cannot be followed")
            continue
        n += 1
        told = {}
        for e in es:
            for x in sorted(e.roots, key=repr):
                if x[0] in ("g", "dflt"):
                    told.setdefault(x, e)
                elif x[0] == "p" and e.target == x and ("p", x[1]) in shared_defaults(p, f):
                    # the default itself, when the argument is left out
                    told.setdefault(("dflt", q, x[1]), e)
        for x, e in told.items():
            kind = "default argument" if x[0] == "dflt" else "module table or class attribute"
            nm = f"{x[1]}" + (f" ({x[2]})" if x[0] == "dflt" else "")
            R.bad("shared", e.where, f"{q[10:]} leaves shared state as it was", f"{e.how} changes the {kind} {nm.replace('causalnex.', '')} for every later call: {show(e.target)[:80]}")
        if not told:
            R.ok("shared", f.where, f"{q[10:]} leaves shared state as it was")
        # what is stored for later, and what is changed later
        for e in r.events:
            if e.kind == "setattr" and isinstance(e["value"], tuple) and not sliced(e["value"]):
                rs = {x for x in rt.roots(e["value"]) if x[0] in ("g", "dflt")}
                if e["value"] in shared_defaults(p, f):
                    rs.add(("dflt", q, e["value"][1]))
                if rs:
                    stored.append((e["attr"], e.fn, e.where, rs, q))
            tg = e["obj"] if e.kind in ("mut", "setitem", "delitem") else e["target"] if e.kind == "aug" else None
            if isinstance(tg, tuple):
                for t in [tg]:
                    while isinstance(t, tuple) and t and t[0] in ("i", "get"):
                        t = t[1]
                    if isinstance(t, tuple) and t and t[0] == "a" and isinstance(t[2], str):
                        if e.kind == "aug" and not (isinstance(e.get("value"), tuple) and e["value"][:1] in (("ref",), ("seq",))):
                            continue
                        mutated.setdefault(t[2], []).append((e, t[1], f))
    # an object that holds a shared default or table, changed later through the object
    seen = set()
    for attr, fn, where, rs, q in stored:
        cls = p.func_by_qual[q].cls
        for x in rs:
            if x[0] == "g" and not any(mutable_value(v) for v in [table(p, x[1])] if v is not None):
                continue
            if x[0] == "dflt" and not default_mutable(p, x):
                continue
            for e, o, f in mutated.get(attr, ()):
                if o == ("p", "self") and own(p, f, cls):
                    continue
                if (attr, where) not in seen:
                    seen.add((attr, where))
                    R.bad("instances", where, f"{q[10:]}: .{attr} is the object's own", f"it is the shared {x[1].replace('causalnex.', '')}{' default of ' + x[2] if x[0] == 'dflt' else ''}, changed at {e.where}")
    # mutable class attributes
    for cq, cls in sorted(p.class_by_qual.items()):
        for a, v in cls.attrs.items():
            if not mutable_value(v):
                continue
            init = [m for c in p.mro(cls) for m in [c.methods.get("__init__")] if m is not None]
            if any(isinstance(s, ast.Attribute) and s.attr == a and isinstance(s.ctx, ast.Store) for m in init for s in ast.walk(m.node)):
                continue
            for e, o, f in mutated.get(a, ()):
                if o == ("p", "self") and not own(p, f, cls):
                    R.bad("instances", e.where, f"{cq[10:]}.{a} is the object's own", "it is an attribute of the class, shared by all its objects, and changed through one of them")
                    break
    R.ok("instances", "-", f"{len(stored)} attributes that hold a shared value are never changed through the object")
    settings(R, p, scans)
    remembered(R, p)
    if n < 200:
        R.und("coverage", "-", "the functions of the package were followed", f"only {n}")


def sliced(v):
    """a slice of a list is a list of its own"""
    return v[:1] == ("i",) and isinstance(v[2], tuple) and v[2][:1] == ("slice",)


def table(p, q):
    mod, _, n = q.rpartition(".")
    if mod in p.modules:
        return p.modules[mod].globals.get(n)
    if mod in p.class_by_qual:
        return p.class_by_qual[mod].attrs.get(n)
    return None


def shared_defaults(p, f):
    return {("p", x) for x in f.params if default_mutable(p, ("dflt", f.qual, x), False)}


def default_mutable(p, x, unknown=True):
    f = p.func_by_qual.get(x[1])
    if f is None:
        return unknown
    a = f.node.args
    for y, d in list(zip(reversed(a.posonlyargs + a.args), reversed(a.defaults))) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if y.arg == x[2]:
            return d is not None and mutable_value(d)
    return unknown and not (f and x[2] in f.params)


def settings(R, p, scans):
    """settings of the process stay as they were"""
    callers = {}
    for q, s in scans.items():
        for name, node, held in s.calls:
            callers.setdefault(name, []).append((q, held))
            if name.startswith("."):
                continue
            callers.setdefault("." + name.rsplit(".", 1)[-1], []).append((q, held))
    k = 0
    for q, s in sorted(scans.items()):
        k += len(s.calls)
        f = s.f
        for node, what in s.found:
            # a private helper all of whose calls stand in the block that restores the setting
            if f.name.startswith("_") and what in SCOPED:
                cs = callers.get("." + f.name, [])
                if cs and all(SCOPED[what] & h for _, h in cs):
                    continue
            R.bad("settings", f"{f.module.rel}:{node.lineno}", f"{q[10:]} leaves the settings of the process as they were", f"{what} outlives the call")
    R.ok("settings", "-", f"{k} calls and all assignments leave the settings of the process as they were")


def remembered(R, p):
    """a function that remembers its results hands out one object to all callers, and ignores what changed since"""
    for q, f in sorted(p.func_by_qual.items()):
        if not f.cached:
            continue
        what = f"{q[10:]}: a remembered result is as good as a new one"
        r = R.run(q)
        ret = r.interp.snap(r.ret, r.st) if isinstance(r.ret, tuple) else r.ret
        me = ("p", f.params[0]) if f.cls is not None and f.params and not f.is_static else None
        reads = {t[2] for t in walk(ret) if isinstance(t, tuple) and len(t) > 2 and t[0] == "a" and t[1] == me and me is not None} if isinstance(ret, tuple) else set()
        fresh = isinstance(ret, tuple) and (ret[0] == "seq" and ret[1] in FRESH or ret[0] == "new")
        if reads and not f.is_class:
            R.bad("remembered", f.where, what, f"it depends on {', '.join(sorted(map(str, reads)))}, which may change between calls")
        elif fresh:
            R.bad("remembered", f.where, what, "all callers share the one object it returned")
        elif imprecise(ret):
            R.und("remembered", f.where, what, "what it returns is not known")
        else:
            R.ok("remembered", f.where, what)


CHECKS = {"C49": (c49, "")}
