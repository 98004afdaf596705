"""May-alias roots of terms and the effects of a function on what outlives it.

roots(t) over-approximates which parameters, globals, shared defaults or closure variables the object
denoted by t may be (part of).  Copies and freshly built objects have no roots.
"""
from .interp import Interp, LISTLIKE, MUTATORS
from .rule import norm
from .terms import F, NONE, contains, is_const, show, subst, walk

ALIAS_CALLS = {
    "numpy.asarray", "numpy.ravel", "numpy.squeeze", "numpy.reshape", "numpy.atleast_2d", "numpy.atleast_1d",
    "numpy.transpose", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.broadcast_to", "numpy.swapaxes",
    "numpy.expand_dims", "numpy.diagonal", "torch.as_tensor", "torch.from_numpy", "torch.squeeze",
    "sklearn.utils.check_X_y", "sklearn.utils.check_array", "sklearn.utils.validation.check_array",
    "builtins.iter", "builtins.next", "builtins.zip", "builtins.enumerate", "builtins.map", "builtins.filter",
    "builtins.reversed", "builtins.getattr", "builtins.vars", "builtins.max", "builtins.min",
    "typing.cast", "random.choice", "numpy.random.choice_", "itertools.chain", "itertools.product",
    "itertools.combinations", "itertools.permutations", "itertools.chain.from_iterable", "networkx.freeze",
    "networkx.subgraph_view", "networkx.restricted_view", "networkx.reverse_view",
}
ALIAS_METHODS = {
    "reshape", "ravel", "view", "get", "setdefault", "pop", "transpose", "squeeze", "to_numpy", "numpy", "detach",
    "items", "keys", "values", "swapaxes", "diagonal", "expand", "unsqueeze", "popitem", "popleft",
    "get_group", "__getitem__", "xs", "nodes", "edges", "successors", "predecessors", "neighbors", "adjacency", "parameters",
    "children", "modules", "named_parameters", "union_", "iterrows", "itertuples", "set_axis_",
}
# containers of aliases (the container is new, its elements are not)
SHALLOW_CALLS = {"copy.copy", "builtins.list", "builtins.set", "builtins.tuple", "builtins.dict", "builtins.sorted",
                 "builtins.frozenset", "random.sample", "builtins.zip", "builtins.enumerate", "builtins.map",
                 "builtins.filter", "itertools.product", "itertools.combinations", "itertools.permutations",
                 "itertools.chain", "builtins.reversed", "builtins.iter"}
SHALLOW_METHODS = {"items", "values", "keys", "successors", "predecessors", "neighbors"}
MUTATING_CALLS = {
    "numpy.fill_diagonal": 0, "numpy.put": 0, "numpy.copyto": 0, "numpy.place": 0, "numpy.putmask": 0,
    "numpy.random.shuffle": 0, "random.shuffle": 0, "heapq.heappush": 0, "heapq.heappop": 0, "heapq.heapify": 0,
    "bisect.insort": 0, "networkx.set_node_attributes": 0, "networkx.set_edge_attributes": 0,
    "networkx.relabel_nodes_": 0, "networkx.add_path": 0, "operator.setitem": 0, "operator.iadd": 0, "operator.delitem": 0,
    "torch.nn.init.zeros_": 0, "torch.nn.init.uniform_": 0, "torch.nn.init.normal_": 0,
    "networkx.classes.function.set_node_attributes": 0, "numpy.put_along_axis": 0, "numpy.nan_to_num_": 0,
    "random.Random.shuffle": 0,
}


class Roots:
    def __init__(self, r, interp=None):
        self.r = r
        self.it = interp or r.interp
        self.p = self.it.p
        self.memo, self.ememo, self.busy = {}, {}, set()
        self.init_cache = {}

    def is_global(self, q):
        if q in self.p.func_by_qual or q in self.p.class_by_qual:
            return False
        mod, _, n = q.rpartition(".")
        if mod in self.p.modules and n in self.p.modules[mod].globals:
            return True
        if mod in self.p.modules or mod in self.p.class_by_qual or not mod.startswith("causalnex."):
            pass
        elif self.is_global(mod):
            # something held by a table
            return True
        # class attributes
        if mod in self.p.class_by_qual and n in self.p.class_by_qual[mod].attrs:
            return True
        return False

    # ---------------------------------------------------------------- the object itself
    def roots(self, t):
        if not isinstance(t, tuple) or not t:
            return frozenset()
        if t in self.memo:
            return self.memo[t]
        if t in self.busy:
            return frozenset()
        self.busy.add(t)
        v = frozenset(self._roots(t))
        self.busy.discard(t)
        self.memo[t] = v
        return v

    def _roots(self, t):
        k = t[0]
        if k == "p":
            return {t}
        if k == "g":
            return {t} if self.is_global(t[1]) else set()
        if k == "dflt":
            return {t}
        if k == "a":
            o = t[1]
            if o[0] == "new":
                return self.new_attr(o, t[2])
            if o[0] == "ref":
                ob = self.r.st.heap.get(o[1])
                if ob is not None and ob.kind == "inst":
                    v = ob.attr(t[2])
                    return self.roots(v) if v is not None else set()
            if t[2] in ("shape", "dtype", "name", "__name__", "__class__", "ndim", "size"):
                return set()
            # attribute of an element of a fresh container of fresh objects
            return self.roots(o)
        if k == "i":
            return self.elems(t[1]) | (self.roots(t[1]) if t[1][0] not in ("seq", "ref") and False else set())
        if k == "get":
            return self.elems(t[1]) | self.roots(t[3])
        if k in ("el",):
            lp = self.it.loops.get(t[1])
            return self.keys(lp["coll"]) if lp else set()
        if k == "ite":
            return self.roots(t[2]) | self.roots(t[3])
        if k in ("first", "firstor"):
            return set().union(*[self.roots(x) for x in t[2:] if isinstance(x, tuple)])
        if k in ("pick",):
            return self.roots(t[3]) | self.roots(t[4])
        if k == "lout":
            out = set()
            for x in t[2:4]:
                if isinstance(x, tuple):
                    out |= self.roots(x)
            return out
        if k == "lv":
            c = self.it.loops.get(t[1], {}).get("carried", {}).get(t[2][1] if isinstance(t[2], tuple) and t[2][0] == "self" else t[2])
            if c:
                return set().union(*[self.roots(x) for x in c if isinstance(x, tuple)])
            return set()
        if k == "getattr":
            return self.roots(t[1]) | self.roots(t[2])
        if k == "bop":
            return set().union(*[self.roots(x) for x in t[2]])
        if k == "pop":
            return self.elems(t[1])
        if k == "star":
            return self.roots(t[1])
        if k == "setdef":
            return self.elems(t[1]) | self.roots(t[3])
        if k == "call":
            fn = t[1]
            if fn[0] == "g":
                q = fn[1]
                if q in SHALLOW_CALLS:
                    return set()
                if q in ALIAS_CALLS:
                    return set().union(*[self.roots(x) for x in t[2]]) if t[2] else set()
                if q == "numpy.array" and dict(t[3]).get("copy") == F:
                    return self.roots(t[2][0])
                if q in self.p.func_by_qual and self.p.func_by_qual[q].cached:
                    return {("g", q + ".<cache>")}
                if q in self.p.func_by_qual:
                    return self.ret_roots(q, t)
            return set()
        if k == "m":
            name = t[2]
            if name == "astype" and dict(t[4]).get("copy") == F:
                return self.roots(t[1])
            if name in SHALLOW_METHODS:
                return set()
            if name in ("get", "pop", "setdefault", "popitem", "popleft"):
                return self.elems(t[1])
            if name in ALIAS_METHODS:
                return self.roots(t[1])
            return set()
        return set()

    # ---------------------------------------------------------------- what it contains
    def elems(self, t):
        if not isinstance(t, tuple) or not t:
            return frozenset()
        if t in self.ememo:
            return self.ememo[t]
        key = ("E", t)
        if key in self.busy:
            return frozenset()
        self.busy.add(key)
        v = frozenset(self._elems(t))
        self.busy.discard(key)
        self.ememo[t] = v
        return v

    def keys(self, t):
        """roots of what iterating over t yields"""
        kind = t[1] if t[0] == "seq" else None
        if t[0] == "ref":
            o = self.r.st.heap.get(t[1])
            kind = o.kind if o is not None else None
            t = self.it.snap(t, self.r.st)
        if kind != "dict":
            return self.elems(t)
        out = set()
        for e in t[2]:
            i = e[2]
            if i[0] in ("kv", "app", "kv2"):
                out |= self.roots(i[1])
            elif i[0] == "acc":
                out |= self.roots(i[2])
            elif i[0] in ("base", "upd"):
                out |= self.keys(i[1])
        return frozenset(out)

    def _item(self, it):
        if it[0] == "x":
            return self.roots(it[1])
        if it[0] in ("kv", "app"):
            return self.roots(it[2])
        if it[0] in ("acc", "kv2"):
            return set()
        if it[0] in ("base",):
            return self.elems(it[1])
        if it[0] == "ins":
            return self.roots(it[2])
        if it[0] in ("heap",):
            return self.roots(it[1])
        if it[0] == "upd":
            return self.elems(it[1])
        return set()

    def _elems(self, t):
        k = t[0]
        if k == "seq":
            out = set()
            for e in t[2]:
                out |= self._item(e[2])
            return out
        if k == "ref":
            o = self.r.st.heap.get(t[1])
            if o is None:
                return set()
            out = set()
            for c, i in o.ems:
                out |= self._item(i)
            if o.base is not None:
                out |= self.elems(o.base)
            return out
        if k == "tuple":
            return set().union(*[self.roots(x) for x in t[1]]) if t[1] else set()
        if k == "app_list":
            return set()
        if k in ("sorted", "reversed", "dictof"):
            return self.elems(t[1])
        if k == "lvc":
            c = self.it.loops.get(t[1], {}).get("carried", {}).get(t[2][1] if isinstance(t[2], tuple) and t[2][0] == "self" else t[2])
            out = set()
            for o in c or ():
                if o is not None and not isinstance(o, tuple):
                    for cx, i in o.ems:
                        out |= self._item(i)
                    if o.base is not None and o.base != t:
                        out |= self.elems(o.base)
            return out
        if k == "ite":
            return self.elems(t[2]) | self.elems(t[3])
        if k == "i" and t[1][0] in ("seq", "ref"):
            if t[2][0] == "slice":
                return self.elems(t[1])
            # element of a local dict of lists
            out = set()
            snapped = t[1] if t[1][0] == "seq" else self.it.snap(t[1], self.r.st)
            for e in snapped[2] if snapped[0] == "seq" else ():
                if e[2][0] == "app":
                    out |= self.roots(e[2][2])
                elif e[2][0] == "kv":
                    out |= self.elems(e[2][2])
                elif e[2][0] == "x":
                    out |= self.elems(e[2][1])
                elif e[2][0] == "base":
                    out |= self.elems(e[2][1])
            return out
        if k == "call" and t[1][0] == "g":
            q = t[1][1]
            if q in SHALLOW_CALLS:
                return set().union(*[self.elems(x) for x in t[2]]) if t[2] else set()
            if q in self.p.func_by_qual:
                return self.ret_roots(q, t, elem=True)
            if q not in ALIAS_CALLS:
                return set()
        if k == "m":
            if t[2] in SHALLOW_METHODS:
                return self.elems(t[1])
            if t[2] in ("union", "intersection", "difference", "copy") and t[1][0] in ("seq", "m", "ref"):
                out = self.elems(t[1])
                for a in t[3]:
                    out = out | self.elems(a)
                return out
            if t[2] == "copy":
                return set()
        return self.roots(t)

    # ---------------------------------------------------------------- objects built here / by callees
    def new_attr(self, new, attr):
        cls = self.p.class_by_qual.get(new[1])
        if cls is None:
            return set()
        s = self.init_summary(cls)
        if attr not in s:
            return set()
        names, vals = s["__params__"], s[attr]
        args = {}
        pos = 0
        for a in new[2]:
            if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and a[0] in names:
                args[a[0]] = a[1]
            else:
                if pos < len(names):
                    args[names[pos]] = a
                pos += 1
        out = set()
        for rt in vals:
            if rt[0] == "p":
                if rt[1] in args:
                    out |= self.roots(args[rt[1]])
                elif rt[1] in s["__defaults__"]:
                    out.add(("dflt", s["__qual__"], rt[1]))
            else:
                out.add(rt)
        return out

    def init_summary(self, cls):
        if cls.qual in self.init_cache:
            return self.init_cache[cls.qual]
        out = {"__params__": [], "__defaults__": set(), "__qual__": cls.qual}
        self.init_cache[cls.qual] = out
        init = self.p.find_method(cls, "__init__")
        if init is None:
            return out
        out["__params__"] = init.params[1:]
        out["__qual__"] = init.qual
        import ast
        a = init.node.args
        for x, d in zip(reversed(a.args), reversed(a.defaults)):
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
                out["__defaults__"].add(x.arg)
        it = Interp(self.p)
        r = it.analyze(init, selfcls=cls)
        rt = Roots(r, it)
        me = ("p", init.params[0])
        for e in r.events:
            if e.kind == "setattr" and e["obj"] == me and isinstance(e["value"], tuple):
                v = e["value"]
                cond_v = rt.roots(v)
                # slices of lists are copies
                if v[0] == "i" and v[2][0] == "slice":
                    cond_v = frozenset()
                out.setdefault(e["attr"], set()).update(cond_v)
        return out

    def ret_roots(self, q, t, elem=False):
        s = summary(self.p, q)
        out = set()
        args = dict(t[3])
        for rt in (s["ret_elems"] if elem else s["ret"]):
            if rt[0] == "p":
                if rt[1] in args:
                    out |= self.roots(args[rt[1]])
            else:
                out.add(rt)
        return out


_SUM = {}


def summary(project, qual):
    """effects and returned aliases of a package function analysed on its own"""
    key = (id(project), qual)
    if key in _SUM:
        return _SUM[key]
    _SUM[key] = {"mut": [], "ret": frozenset(), "ret_elems": frozenset()}
    f = project.func_by_qual[qual]
    it = Interp(project)
    r = it.analyze(f)
    rt = Roots(r, it)
    _SUM[key] = {"mut": effects(r, rt), "ret": rt.roots(r.ret), "ret_elems": rt.elems(r.ret)}
    return _SUM[key]


class Effect:
    def __init__(self, kind, roots, target, attr, where, fn, cond, stack, event=None, how=""):
        self.kind, self.roots, self.target, self.attr = kind, roots, target, attr
        self.where, self.fn, self.cond, self.stack, self.event, self.how = where, fn, cond, stack, event, how

    def __repr__(self):
        return f"<{self.kind} {self.how} on {show(self.target)[:100]} roots={sorted(self.roots)} at {self.where}>"


def used_as_container(r, t):
    for e in r.events:
        for v in list(e.data.values()) + [c for c in e.ctx]:
            if isinstance(v, tuple) and contains(v, lambda x: (x[0] in ("a", "i", "m") and len(x) > 1 and x[1] == t) or
                                                 (x[0] == "for" and len(x) > 2 and x[2] == t)):
                return True
    return False




LIST_ONLY = {"append", "extend", "insert", "appendleft", "popleft"}


def effects(r, rt=None):
    """all mutations that may reach an object not created by the analysed call"""
    rt = rt or Roots(r)
    it = r.interp
    out = []

    def add(kind, e, target, attr=None, how="", extra=None):
        tg = it.snap(target, r.st) if isinstance(target, tuple) else target
        if isinstance(tg, tuple) and tg[0] == "i" and len(tg) > 2 and tg[2][0] == "slice" and how in LIST_ONLY:
            return
        roots = rt.roots(target) | (extra or frozenset())
        if roots:
            out.append(Effect(kind, roots, tg, attr, e.where, e.fn, e.cond, e.stack, e, how))

    for e in r.events:
        if e.kind == "mut":
            how = e["method"]
            add("mutate", e, e["obj"], how=how)
        elif e.kind == "setitem":
            add("setitem", e, e["obj"], how="[]=")
        elif e.kind == "delitem":
            add("setitem", e, e["obj"], how="del []")
        elif e.kind in ("setattr", "delattr"):
            add("setattr", e, e["obj"], e["attr"], how=f".{e['attr']}=")
        elif e.kind == "aug":
            t = e["target"]
            v = e.get("value")
            ref = isinstance(v, tuple) and v[:1] in (("ref",), ("seq",))
            if rt.roots(t) and not is_const(t) and (ref and e["op"] in ("+", "|", "-", "&") or used_as_container(r, t)):
                add("aug", e, t, how=f"{e['op']}=")
        elif e.kind == "call":
            fn = e["fn"]
            if fn[0] == "g":
                q = fn[1]
                raw = e.get("rawargs")
                base, _, last = q.rpartition(".")
                if last in MUTATORS and rt.is_global(base):
                    add("mutate", e, ("g", base), how=last)
                if q in MUTATING_CALLS and raw and len(raw) > MUTATING_CALLS[q]:
                    add("mutate", e, raw[MUTATING_CALLS[q]], how=q)
                if q.split(".")[-1].endswith("_") and raw and q.startswith("torch"):
                    add("mutate", e, raw[0], how=q)
                for k, v in e.get("rawkw") or ():
                    if k == "out":
                        add("mutate", e, v, how=f"{q}(out=)")
                    if k == "inplace" and v != F and raw:
                        add("mutate", e, raw[0], how=f"{q}(inplace)")
                    if k == "overwrite_a" and v != F and raw:
                        add("mutate", e, raw[0], how=f"{q}({k})")
                    if k == "copy" and v == F and raw and q.startswith("networkx.relabel"):
                        add("mutate", e, raw[0], how=f"{q}(copy=False)")
            f = e.get("func")
            if f is not None and e.get("name") != "__init__":
                args = e["args"]
                for m in summary(it.p, f.qual)["mut"]:
                    roots = set()
                    for x in m.roots:
                        if x[0] == "p":
                            if x[1] in args and isinstance(args[x[1]], tuple):
                                roots |= rt.roots(args[x[1]]) | (rt.elems(args[x[1]]) if m.target != x else set())
                        else:
                            roots.add(x)
                    if roots:
                        out.append(Effect(m.kind, frozenset(roots), m.target, m.attr, m.where, m.fn, m.cond,
                                          e.stack + m.stack, e, m.how))
        elif e.kind == "mcall":
            for k, v in e.get("kw") or ():
                if k == "out":
                    add("mutate", e, v, how=f"{e['name']}(out=)")
    return out
