"""Abstract executor: every function body is evaluated once over provenance terms.

No input values exist here.  A loop body is evaluated for one symbolic element, all branches are
joined, containers built locally become descriptions ("for each x in C if p: item"), and every
effect on something that outlives the function is recorded as an event under the condition and
loop nest it happens in.  Helper functions of the package are summarised by inlining them.
"""
import ast
from dataclasses import dataclass, field, replace
from typing import Any, Dict, Optional, Tuple

from .project import AnalysisError, Class, Func, Project
from .terms import (F, NONE, T, assume, atoms, canon_ctx_term, const, contains, disjuncts, implies, is_bool,
                    is_const, mk_and, mk_ite, mk_not, mk_or, show, subst, walk)

LISTLIKE = {"list", "set", "tuple", "gen", "frozenset", "deque"}
MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "clear", "add", "update", "discard", "setdefault",
    "sort", "reverse", "popitem", "appendleft", "popleft", "extendleft",
    "intersection_update", "difference_update", "symmetric_difference_update",
    "add_edge", "add_edges_from", "add_node", "add_nodes_from", "remove_edge", "remove_edges_from",
    "remove_node", "remove_nodes_from", "add_weighted_edges_from", "clear_edges", "add_path", "add_cycle",
    "fill", "put", "itemset", "resize", "partition", "setfield", "setflags",
    "__setitem__", "__setattr__", "__delitem__", "__iadd__",
    "add_unknown_edges_from",
}
CONTAINER_METHODS = {
    "append", "extend", "insert", "remove", "pop", "clear", "add", "update", "discard", "setdefault", "sort",
    "reverse", "popitem", "get", "items", "keys", "values", "copy", "index", "count", "union", "intersection",
    "difference", "issubset", "issuperset", "join", "split", "format", "strip", "lstrip", "rstrip", "startswith",
    "endswith", "replace", "lower", "upper", "fit", "predict", "transform", "fit_transform", "sum", "mean", "std",
    "nodes", "edges", "forward", "backward", "step", "sample", "shape", "reshape", "apply", "map",
}


CLEAN = {}  # id -> term without references to the heap


@dataclass(frozen=True)
class Obj:
    kind: str
    ems: Tuple = ()
    base: Any = None          # placeholder / source the emissions extend
    cls: Any = None           # class qualname for instances
    args: Any = ()            # constructor arguments of instances
    attrs: Tuple = ()         # ((name, value), ...)
    factory: Any = None       # defaultdict factory term

    def attr(self, name):
        for k, v in self.attrs:
            if k == name:
                return v
        return None

    def with_attr(self, name, v):
        return replace(self, attrs=tuple((k, x) for k, x in self.attrs if k != name) + ((name, v),))


class St:
    __slots__ = ("loc", "heap", "ext", "ver", "cver", "cond")

    def __init__(self):
        self.loc, self.heap, self.ext, self.ver, self.cver, self.cond = {}, {}, {}, {}, {}, T

    def copy(self):
        s = St()
        s.loc, s.heap, s.ext, s.ver, s.cver, s.cond = (dict(self.loc), dict(self.heap), dict(self.ext),
                                                       dict(self.ver), dict(self.cver), self.cond)
        return s


@dataclass
class Event:
    kind: str
    pos: int
    ctx: Tuple
    data: Dict
    where: str
    fn: str
    stack: Tuple

    def __getitem__(self, k):
        return self.data[k]

    def get(self, k, d=None):
        return self.data.get(k, d)

    @property
    def cond(self):
        return mk_and(*[e[1] for e in self.ctx if e[0] == "if"])

    @property
    def loops(self):
        return [e for e in self.ctx if e[0] == "for"]


class Result:
    def __init__(self, interp, func, ret, st):
        self.interp, self.func, self.ret, self.st = interp, func, ret, st
        self.events = interp.events
        self.loops = interp.loops

    def ev(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def final(self, t):
        return self.interp.snap(t, self.st)

    def raises(self):
        return [e for e in self.ev("raise") if not e.get("caught")]


class Unsupported(Exception):
    pass


def has_until(ctx, c, positive):
    """an early exit of the loop that does not imply that the flag's condition was just met"""
    want = c if positive else mk_not(c)
    return any(e[0] == "for" and len(e) > 3 and e[3] not in (None, F) and implies(e[3], want) is not True for e in ctx)


CALLBACK_METHODS = {"apply", "map", "applymap", "agg", "transform", "filter"}


class Interp:
    def __init__(self, project: Project, opaque=(), depth=12, attr_types=None, never_opaque=(), inline=None):
        self.p = project
        self.opaque = set(opaque)
        self.maxdepth = depth
        self.attr_types = attr_types or {}
        self.events, self.loops, self.lams = [], {}, {}
        self.frames = {}
        self.nid = 0
        self.prefix = ()
        self.stack = []
        self.exits = []
        self.lv_init = {}
        self.types = {}
        self.mod = None
        self.funcs_seen, self.lines = set(), 0
        self.inline = inline      # optional predicate Func -> bool
        self.quiet = 0
        self.fallback = None
        self.calls_seen = 0
        self.unsupported = []

    # ------------------------------------------------------------------ basics
    def fresh(self):
        self.nid += 1
        return self.nid

    def new(self, st, obj):
        i = self.fresh()
        st.heap[i] = obj
        return ("ref", i)

    def event(self, st, kind, node, **data):
        if self.quiet:
            return None
        f = self.stack[-1] if self.stack else None
        e = Event(kind, len(self.events), self.prefix + ((("if", st.cond),) if st.cond != T else ()), data,
                  f"{f.module.rel}:{getattr(node, 'lineno', 0)}" if f else "?", f.qual if f else "?",
                  tuple(x.qual for x in self.stack))
        self.events.append(e)
        return e

    def obj(self, t, st):
        if t[0] == "ref":
            return st.heap.get(t[1])
        return None

    # ------------------------------------------------------------------ snapshots
    def snap(self, t, st, seen=()):
        """replace references by a description of what they hold now"""
        if not isinstance(t, tuple) or id(t) in CLEAN:
            return t
        if t and t[0] == "ref":
            if t[1] in seen:
                return ("cyc", t[1])
            o = st.heap.get(t[1])
            if o is None:
                return t
            if o.kind == "inst":
                return ("new", o.cls, self.snap(o.args, st, seen + (t[1],)))
            if o.kind == "func":
                return ("lamref", t[1])
            sn = lambda x: self.snap(x, st, seen + (t[1],))
            ems = tuple(("em", sn(c), sn(i)) for c, i in o.ems)
            if o.base is not None:
                ems = (("em", (), ("base", sn(o.base))),) + ems
            return ("seq", o.kind, ems)
        if t and t[0] == "lam":
            return self.lam_term(t[1])
        out, ch, clean = [], False, True
        for x in t:
            if isinstance(x, tuple):
                y = self.snap(x, st, seen)
                ch |= y is not x
                clean = clean and id(x) in CLEAN
            else:
                y = x
            out.append(y)
        if clean and not ch:
            CLEAN[id(t)] = t
        return tuple(out) if ch else t

    def lam_term(self, i):
        params, body, env, mod, cls = self.lams[i]
        if not isinstance(body, ast.AST) or not isinstance(body, ast.expr):
            return ("lam", i)
        key = ("lamterm", i)
        if key in self.lams:
            return self.lams[key]
        self.lams[key] = ("lam", i)
        st = env.copy()
        for n, p in enumerate(params):
            st.loc[p] = ("lp", n)
        self.quiet += 1
        old_events = len(self.events)
        try:
            r = ("lambda", len(params), self.snap(self.ev(body, st), st))
        finally:
            self.quiet -= 1
            del self.events[old_events:]
        self.lams[key] = r
        return r

    # ------------------------------------------------------------------ types
    def typeof(self, t, st):
        o = self.obj(t, st)
        if o is not None:
            return o.cls if o.kind == "inst" else None
        if t in self.types:
            return self.types[t]
        if t[0] == "new":
            return t[1]
        if t[0] == "el":
            lp = self.loops.get(t[1])
            if lp:
                return self.elemtype(lp["coll"], st)
        if t[0] == "a":
            c = self.typeof(t[1], st)
            if c:
                for k in [x.qual for x in self.p.mro(self.p.class_by_qual[c])]:
                    if (k.split(".")[-1], t[2]) in self.attr_types:
                        return self.cq(self.attr_types[(k.split(".")[-1], t[2])])
        if t[0] in ("i", "get") and t[0] == "i":
            return self.elemtype(t[1], st)
        if t[0] == "ite":
            a, b = self.typeof(t[2], st), self.typeof(t[3], st)
            return a if a == b else None
        if t[0] == "call" and t[1][0] == "g" and t[1][1] in self.p.func_by_qual:
            r = self.p.func_by_qual[t[1][1]].node.returns
            return self.ann_class(r, self.p.func_by_qual[t[1][1]].module)
        if t[0] == "call" and t[1] == ("g", "copy.deepcopy") and t[2]:
            return self.typeof(t[2][0], st)
        if t[0] == "m" and t[2] == "copy":
            return self.typeof(t[1], st)
        return None

    def cq(self, name):
        c = self.p.cls(name, soft=True)
        return c.qual if c else None

    def elemtype(self, coll, st):
        if coll[0] == "ref":
            coll = self.snap(coll, st)
        if coll[0] == "sorted":
            return self.elemtype(coll[1], st)
        if coll[0] == "seq":
            ts = set()
            for em in coll[2]:
                it = em[2]
                if it[0] == "x":
                    t = self.typeof(it[1], st)
                    for c in em[1]:
                        if c[0] == "if":
                            for a in ([c[1]] + list(c[1][1:] if c[1][0] == "and" else ())):
                                if a[0] == "isinstance" and a[1] == it[1] and a[2][0] == "g":
                                    t = a[2][1]
                    ts.add(t)
                elif it[0] == "kv":
                    ts.add(self.typeof(it[2], st))
                elif it[0] == "base":
                    pass
            if len(ts) == 1:
                return ts.pop()
        if coll[0] == "a":
            c = self.typeof(coll[1], st)
            if c:
                for k in [x.qual for x in self.p.mro(self.p.class_by_qual[c])]:
                    key = (k.split(".")[-1], coll[2] + "[]")
                    if key in self.attr_types:
                        return self.cq(self.attr_types[key])
        if coll[0] == "p" and coll in self.types:
            t = self.types[coll]
            return t[1] if isinstance(t, tuple) else None
        return None

    def ann_class(self, node, mod):
        if node is None:
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode="eval").body
            except SyntaxError:
                return None
        d = ast.unparse(node)
        if not all(ch.isalnum() or ch in "._" for ch in d):
            return None
        head, *rest = d.split(".")
        r = self.p.resolve(mod, head)
        if r and rest and r[0] == "module":
            r = self.p.resolve_dotted(r[1].name + "." + ".".join(rest))
        return r[1].qual if r and r[0] == "class" else None

    # ------------------------------------------------------------------ entry
    def analyze(self, func, binds=None, selfcls=None):
        st = St()
        names = func.params
        a = func.node.args
        if func.cls is not None and names and not func.is_static:
            self.types[("p", names[0])] = (selfcls or func.cls).qual
        allp = list(names) + [x.arg for x in a.kwonlyargs]
        for n in allp:
            st.loc[n] = ("p", n)
        if a.vararg:
            st.loc[a.vararg.arg] = ("p", a.vararg.arg)
        if a.kwarg:
            st.loc[a.kwarg.arg] = ("p", a.kwarg.arg)
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            c = self.ann_class(x.annotation, func.module)
            if c and ("p", x.arg) not in self.types:
                self.types[("p", x.arg)] = c
        self.pkinds = {}
        if a.kwarg:
            self.pkinds[("p", a.kwarg.arg)] = "dict"
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            k = {"Dict": "dict", "List": "list", "Set": "set"}.get(type(d).__name__)
            if k:
                self.pkinds[("p", x.arg)] = k
        for x in pos + a.kwonlyargs:
            if x.annotation is not None:
                k = {"Dict": "dict", "dict": "dict", "List": "list", "list": "list", "Set": "set", "set": "set"}.get(
                    ast.unparse(x.annotation).replace("typing.", "").split("[")[0])
                if k:
                    self.pkinds[("p", x.arg)] = k
        for k, v in (binds or {}).items():
            st.loc[k] = v
        ret, st2 = self.run(func, st, func.node)
        return Result(self, func, ret, st2 if st2 is not None else st)

    def run(self, func, st, node):
        """execute func's body in st (locals are bound); returns (value, state or None when it never returns)"""
        self.stack.append(func)
        self.funcs_seen.add(func.qual)
        omod, self.mod = self.mod, func.module
        oexits, self.exits = self.exits, []
        st.loc["__frame__"] = ("frame", self.fresh())
        oprefix = self.prefix
        ocond = st.cond
        if ocond != T:
            self.prefix = self.prefix + (("if", ocond),)
        st.cond = T
        isgen = self.is_generator(func.node)
        if isgen:
            st.loc["__yield__"] = self.new(st, Obj("gen"))
        body = func.node.body if not isinstance(func.node, ast.Lambda) else [ast.Return(func.node.body)]
        end = self.block(body, st)
        rets = [(c, v, s) for k, c, v, s, n in self.exits if k == "return"]
        if end is not None:
            rets.append((end.cond, NONE, end))
        raised = mk_or(*[c for k, c, v, s, n in self.exits if k == "raise"]) if self.exits else F
        self.exits = oexits + [("raise", mk_and(ocond, c), v, s1, n) for k, c, v, s1, n in self.exits if k == "raise"]
        self.prefix = oprefix
        self.mod = omod
        self.stack.pop()
        if not rets:
            return NONE, None
        val, s = rets[-1][1], rets[-1][2]
        if isgen:
            val = s.loc.get("__yield__", NONE)
        for c, v, s1 in reversed(rets[:-1]):
            if isgen:
                v = val
            g = assume(c, mk_not(raised)) if raised != F else c
            val = mk_ite(g, v, val)
            s = self.merge(g, s1, s)
        s.cond = mk_and(ocond, mk_not(raised)) if raised != F else ocond
        return val, s

    def is_generator(self, node):
        if isinstance(node, ast.Lambda):
            return False
        for n in self.own_nodes(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def own_nodes(self, fn):
        todo = list(fn.body)
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))

    # ------------------------------------------------------------------ merging
    def merge(self, c, a, b):
        """state that is a when c holds, else b"""
        if a is b:
            return a
        s = St()
        # what both paths share is not repeated in each
        ca, cb = [x[1:] if x[0] == "and" else (x,) for x in (a.cond, b.cond)]
        both = [x for x in ca if x in set(cb)]
        s.cond = mk_and(*both, mk_or(mk_and(*[x for x in ca if x not in both]), mk_and(*[x for x in cb if x not in both])))
        for k in list(a.loc) + [k for k in b.loc if k not in a.loc]:
            x, y = a.loc.get(k), b.loc.get(k)
            if x is None or y is None:
                s.loc[k] = x if x is not None else y      # possibly undefined on one side
                continue
            s.loc[k] = self.merge_val(c, x, y, s, a, b)
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None or y is None or x is y or x == y:
                s.heap[k] = x if x is not None else y
            else:
                s.heap[k] = self.merge_obj(c, x, y)
        for k in set(a.ver) | set(b.ver):
            s.ver[k] = max(a.ver.get(k, 0), b.ver.get(k, 0))
        for k in set(a.cver) | set(b.cver):
            s.cver[k] = max(a.cver.get(k, 0), b.cver.get(k, 0))
        for k in set(a.ext) | set(b.ext):
            x = a.ext.get(k) or ("a", k[0], k[1], a.ver.get(k[1], 0))
            y = b.ext.get(k) or ("a", k[0], k[1], b.ver.get(k[1], 0))
            s.ext[k] = x if x == y else mk_ite(c, x, y)
        return s

    def merge_val(self, c, x, y, s, a, b):
        if x == y:
            return x
        return mk_ite(c, x, y)

    def guard(self, c, em):
        ctx, item = em
        if c == T:
            return em
        if ctx and ctx[0][0] == "if":
            return ((("if", mk_and(c, ctx[0][1])),) + ctx[1:], item)
        return ((("if", c),) + ctx, item)

    def merge_obj(self, c, x, y):
        if x.kind != y.kind and not (x.kind in LISTLIKE and y.kind in LISTLIKE):
            return replace(x, base=("opaque", self.fresh()))
        attrs = []
        names = [k for k, _ in x.attrs] + [k for k, _ in y.attrs if x.attr(k) is None]
        for k in names:
            u, v = x.attr(k), y.attr(k)
            if u is None or v is None:
                attrs.append((k, u if u is not None else v))
            else:
                attrs.append((k, mk_ite(c, u, v)))
        if x.base != y.base:
            return replace(x, base=("ite", c, x.base or ("empty",), y.base or ("empty",)), ems=(), attrs=tuple(attrs))
        n = 0
        while n < len(x.ems) and n < len(y.ems) and x.ems[n] == y.ems[n]:
            n += 1
        r1, r2 = list(x.ems[n:]), list(y.ems[n:])
        out = []
        # pair up emissions that only differ in the value
        while r1 and r2 and r1[0][0] == r2[0][0] == () and r1[0][1][0] == r2[0][1][0]:
            i, j = r1[0][1], r2[0][1]
            if i[0] == "x" and x.kind == "list" and len(r1) == len(r2):
                out.append(((), ("x", mk_ite(c, i[1], j[1]))))
            elif i[0] == "kv" and i[1] == j[1]:
                out.append(((), ("kv", i[1], mk_ite(c, i[2], j[2]))))
            elif i[0] == "acc" and i[1] == j[1] and i[2] == j[2] and i[1] in ("+",):
                out.append(((), ("acc", i[1], i[2], mk_ite(c, i[3], j[3]))))
            elif i[0] == "x" and x.kind == "set":
                break
            else:
                break
            r1.pop(0), r2.pop(0)
        # if k in d: d[k] += v  else: d[k] = v
        if len(r1) == 1 and len(r2) == 1 and r1[0][0] == r2[0][0] == ():
            i, j, cc = r1[0][1], r2[0][1], c
            if i[0] == "kv" and j[0] in ("acc", "app"):
                i, j, cc = j, i, mk_not(c)
            if i[0] == "acc" and j[0] == "kv" and i[2] == j[1] and i[3] == j[2] and i[1] == "+" and \
                    cc[0] in ("in", "ex") and self.in_key(cc, i[2]):
                return replace(x, ems=x.ems[:n] + tuple(out) + (((), i),), attrs=tuple(attrs))
        out += [self.guard(c, e) for e in r1] + [self.guard(mk_not(c), e) for e in r2]
        return replace(x, ems=x.ems[:n] + tuple(out), attrs=tuple(attrs))

    def in_key(self, c, k):
        return contains(c, lambda t: t == k)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            self.lines += 1
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.unsupported.append(type(s).__name__)
                continue
            st = m(s, st)
        return st

    def s_Pass(self, s, st):
        return st

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st):
        for a in s.names:
            st.loc[a.asname or a.name.split(".")[0]] = ("g", a.name if a.asname else a.name.split(".")[0])
        return st

    def s_ImportFrom(self, s, st):
        base = s.module or ""
        for a in s.names:
            r = self.p.resolve_dotted(f"{base}.{a.name}") if not s.level else ("lib", a.name)
            st.loc[a.asname or a.name] = self.res_term(r)
        return st

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return st if st.cond != F else None

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.event(st, "return", s, value=v)
        self.exits.append(("return", st.cond, v, st, s))
        return None

    def s_Raise(self, s, st):
        exc = self.ev(s.exc, st) if s.exc is not None else ("reraise",)
        self.event(st, "raise", s, exc=self.snap(exc, st), name=self.exc_name(exc))
        self.exits.append(("raise", st.cond, exc, st, s))
        return None

    def exc_name(self, e):
        if e[0] == "call" and e[1][0] == "g":
            return e[1][1].split(".")[-1]
        if e[0] == "g":
            return e[1].split(".")[-1]
        if e[0] == "ref":
            return "?"
        if e[0] == "new":
            return e[1].split(".")[-1]
        return "?"

    def s_Assert(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        self.event(st, "assert", s, test=c)
        return st

    def s_Break(self, s, st):
        self.exits.append(("break", st.cond, None, st, s))
        return None

    def s_Continue(self, s, st):
        self.exits.append(("continue", st.cond, None, st, s))
        return None

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, st), self.ev(t.slice, st)
                ob = self.obj(o, st)
                if ob is not None:
                    st.heap[o[1]] = replace(ob, ems=ob.ems + (((), ("del", k)),))
                else:
                    self.event(st, "delitem", s, obj=o, key=k)
                    st.cver[o] = st.cver.get(o, 0) + 1
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                self.event(st, "delattr", s, obj=o, attr=t.attr)
            elif isinstance(t, ast.Name):
                st.loc.pop(t.id, None)
        return st

    def s_FunctionDef(self, s, st):
        i = self.fresh()
        f = Func(f"{self.stack[-1].qual}.<locals>.{s.name}", s, self.mod, None, self.stack[-1])
        self.lams[i] = (f.params, f, st, self.mod, None)
        ref = ("ref", self.fresh())
        st.heap[ref[1]] = Obj("func", args=("lam", i))
        st.loc[s.name] = ref
        return st

    def s_ClassDef(self, s, st):
        st.loc[s.name] = ("g", f"{self.mod.name}.<local>.{s.name}")
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st if st.cond != F else None

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        op = self.opname(s.op)
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st)
            v = self.ev(s.value, st)
            ob = self.obj(cur, st)
            if ob is not None and ob.kind in LISTLIKE and op in ("+", "|"):
                self.extend(cur, v, st, s)
                return st
            if ob is None:
                self.event(st, "aug", s, target=cur, op=op, value=v, name=t.id)
            st.loc[t.id] = self.binop(op, cur, v, st)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, st), self.ev(t.slice, st)
            v = self.ev(s.value, st)
            ob = self.obj(o, st)
            if ob is not None and ob.kind in ("dict",):
                st.heap[o[1]] = replace(ob, ems=ob.ems + (((), ("acc", op, k, v)),))
            elif ob is not None:
                st.heap[o[1]] = replace(ob, ems=ob.ems + (((), ("acc", op, k, v)),))
            else:
                self.event(st, "setitem", s, obj=o, key=k, value=self.binop(op, self.index(o, k, st), v, st), aug=op, by=v)
                st.cver[o] = st.cver.get(o, 0) + 1
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(o, t.attr, st, s)
            v = self.ev(s.value, st)
            ob = self.obj(cur, st)
            if ob is not None and ob.kind in LISTLIKE and op in ("+", "|"):
                self.extend(cur, v, st, s)
                return st
            self.setattr(o, t.attr, self.binop(op, cur, v, st), st, s)
        return st

    def s_If(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        if st.cond == F:
            return None
        a_cond, b_cond = mk_and(st.cond, c), mk_and(st.cond, mk_not(c))
        if a_cond == F:
            return self.block(s.orelse, st)
        if b_cond == F:
            return self.block(s.body, st)
        a, b = st.copy(), st.copy()
        a.cond, b.cond = a_cond, b_cond
        ra = self.block(s.body, a)
        rb = self.block(s.orelse, b)
        if ra is None:
            return rb
        if rb is None:
            return ra
        m = self.merge(c, ra, rb)
        return m

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ("call", ("g", "__enter__"), (v,), ()), st, s)
        return self.block(s.body, st)

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        pre = st.copy()
        nexits, nev = len(self.exits), len(self.events)
        r = self.block(s.body, st)
        body_events, body_exits = self.events[nev:], self.exits[nexits:]
        catchall = []
        for h in s.handlers:
            hexits = len(self.exits)
            hs = pre.copy()
            x = ("exc", self.fresh(), ast.unparse(h.type) if h.type else "")
            hs.cond = mk_and(hs.cond, x)
            if h.name:
                hs.loc[h.name] = x
            # what the body mutated may have happened
            hr = self.block(h.body, hs)
            if hr is not None or any(k == "return" for k, *_ in self.exits[hexits:]):
                names = self.handler_names(h)
                for e in body_events:
                    if e.kind == "raise" and self.exc_caught(e["name"], names):
                        e.data["caught"] = True
                self.exits = [q for q in self.exits if not (
                    q[0] == "raise" and any(q is b for b in body_exits) and self.exc_caught(self.exc_name(q[2]), names))]
            if hr is not None:
                catchall.append((x, hr))
        if r is not None:
            r = self.block(s.orelse, r)
        for x, hr in catchall:
            r = hr if r is None else self.merge(x, hr, r)
        if r is not None and s.finalbody:
            r = self.block(s.finalbody, r)
        elif s.finalbody:
            self.block(s.finalbody, pre.copy())
        return r

    def handler_names(self, h):
        if h.type is None:
            return {"BaseException"}
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return {ast.unparse(t).split(".")[-1] for t in ts}

    def exc_caught(self, name, names):
        import builtins
        up = {name}
        c = self.p.cls(name, soft=True) if name != "?" else None
        todo = [c] if c else []
        lib = [] if c else [name]
        while todo:
            k = todo.pop()
            for b in self.p.bases(k):
                if b[0] == "class":
                    up.add(b[1].name)
                    todo.append(b[1])
                else:
                    lib.append(str(b[1]).split(".")[-1])
        for n in lib:
            up.add(n)
            t = getattr(builtins, n, None)
            if isinstance(t, type):
                up |= {x.__name__ for x in t.__mro__}
        return bool(up & names) or "BaseException" in names or "Exception" in names

    # ------------------------------------------------------------------ loops
    def stored_names(self, nodes):
        out = set()
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    out.add(x.id)
                elif isinstance(x, (ast.FunctionDef,)):
                    out.add(x.name)
        return out

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        branches = self.iterate(it, st)
        if branches is None:
            # literal with several items: unroll
            pass
        r = st
        unroll = len(branches) != 1
        if unroll:
            ocnt = len(self.exits)
            for ctx, val in branches:
                if r is None:
                    break
                r = self.loop(s, ctx, val, r)
            return self.block(s.orelse, r) if r is not None and s.orelse else r
        ctx, val = branches[0]
        return self.loop(s, ctx, val, st)

    def loop(self, s, ctx, val, st, assign=None, body=None):
        """run the loop body for one symbolic element val under the iteration context ctx"""
        assign = assign or (lambda b: self.assign(s.target, val, b, s))
        stmts = body if body is not None else s.body
        if not ctx:
            # a single known element: straight-line code
            b = st
            assign(b)
            exits0 = self.exits
            self.exits = []
            r = self.block(stmts, b)
            mine, self.exits = self.exits, exits0
            for e in mine:
                if e[0] in ("continue", "break"):
                    r = e[3] if r is None else self.merge(e[1], e[3], r)
                else:
                    self.exits.append(e)
            return r
        return self._loop(s, ctx, assign, stmts, st)

    def _loop(self, s, ctx, assign, stmts, st):
        # pass 1: what does the body modify?
        probe = st.copy()
        ev0, lp0 = len(self.events), dict(self.loops)
        self.quiet += 1
        ex0, self.exits = self.exits, []
        probe.cond = T
        oprefix = self.prefix
        self.prefix = self.prefix + ((("if", st.cond),) if st.cond != T else ()) + ctx
        assign(probe)
        end = self.block(stmts, probe)
        ends = [e[3] for e in self.exits if e[0] in ("continue", "break")] + ([end] if end is not None else [])
        ends_all = ends + [e[3] for e in self.exits if e[0] == "return"]
        self.exits = ex0
        self.prefix = oprefix
        self.quiet -= 1
        del self.events[ev0:]
        mod_refs = {k for e in ends_all for k in st.heap if e.heap.get(k) != st.heap[k]}
        mod_loc = {k for e in ends_all for k in st.loc if e.loc.get(k) != st.loc[k]}
        mod_ext = {k for e in ends_all for k in set(e.ext) if e.ext.get(k) != st.ext.get(k)}
        mod_ver = {k for e in ends_all for k in e.ver if e.ver[k] != st.ver.get(k, 0)}
        mod_cver = {k for e in ends_all for k in e.cver if e.cver[k] != st.cver.get(k, 0)}
        L = next(e[1] for e in ctx if e[0] == "for")
        # pass 2
        b = st.copy()
        b.cond = T
        for k in mod_loc:
            b.loc[k] = ("lv", L, k)
            self.lv_init[(L, k)] = st.loc[k] if k in st.loc else None
        for k in mod_refs:
            o = st.heap[k]
            at = tuple((n, v if all(e.heap.get(k) is not None and e.heap[k].attr(n) == v for e in ends_all)
                        else ("lv", L, ("attr", k, n))) for n, v in o.attrs)
            changed_content = any(e.heap[k].ems != o.ems or e.heap[k].base != o.base for e in ends_all if k in e.heap)
            if changed_content:
                b.heap[k] = replace(o, ems=(), base=("lvc", L, k), attrs=at)
            else:
                b.heap[k] = replace(o, attrs=at)
        for k in mod_ext:
            b.ext.pop(k, None)
        for k in mod_ver:
            b.ver[k] = st.ver.get(k, 0) + 1000
        for k in mod_cver:
            b.cver[k] = st.cver.get(k, 0) + 1000
        # keys overridden for other objects in the loop remain valid only if the attr is not written
        for k in list(b.ext):
            if k[1] in mod_ver:
                b.ext.pop(k)
        outer_prefix = self.prefix
        self.prefix = self.prefix + ((("if", st.cond),) if st.cond != T else ()) + ctx
        exits0, self.exits = self.exits, []
        assign(b)
        bstart = b.copy()
        end = self.block(stmts, b)
        mine, self.exits = self.exits, exits0
        self.prefix = outer_prefix
        brks = [e for e in mine if e[0] == "break"]
        rets = [e for e in mine if e[0] == "return"]
        rais = [e for e in mine if e[0] == "raise"]
        conts = [e for e in mine if e[0] == "continue"]
        stop = mk_or(*[e[1] for e in brks + rets]) if brks or rets else None
        self.loops[L]["stop"] = stop
        self.loops[L]["brk"] = mk_or(*[e[1] for e in brks]) if brks else None
        if stop is not None:
            sctx = tuple((e + (self.snap(stop, b),)) if e[0] == "for" and e[1] == L else e for e in ctx)
        else:
            sctx = ctx
        # end-of-iteration state
        m = end
        for e in conts + brks + rets:
            m = e[3] if m is None else self.merge(e[1], e[3], m)
        out = st.copy()
        if m is None:
            # every iteration raises
            ex = self.exists(ctx, T, st)
            for e in rais:
                self.exits.append(("raise", mk_and(st.cond, self.exists(ctx, e[1], st)), e[2], out.copy(), e[4]))
            out.cond = mk_and(st.cond, mk_not(ex))
            return self.block(s.orelse, out) if getattr(s, "orelse", None) else out
        for k in m.heap:
            if k not in st.heap:
                out.heap[k] = m.heap[k]
        for k in mod_refs:
            o, n = st.heap[k], m.heap[k]
            if o.attrs != n.attrs:
                at = []
                for a_, v_ in n.attrs:
                    if v_ == ("lv", L, ("attr", k, a_)) or v_ == o.attr(a_):
                        at.append((a_, o.attr(a_)))
                    else:
                        at.append((a_, self.lift_scalar(("lv", L, ("attr", k, a_)), o.attr(a_), v_, sctx, L, m)))
                n = replace(n, attrs=tuple(at))
            if n.base == ("lvc", L, k):
                new = [self.wrap(sctx, e) for e in n.ems]
                out.heap[k] = replace(o, ems=o.ems + tuple(new), attrs=n.attrs)
            elif n.base == o.base and n.ems == o.ems:
                out.heap[k] = n
            else:
                out.heap[k] = replace(n, base=("lout", L, self.snap(("ref", k), m)), ems=())
        carried = self.loops[L].setdefault("carried", {})
        for k in mod_refs:
            carried[k] = (st.heap[k], m.heap.get(k))
        for k in mod_loc | {x for x in m.loc if x not in st.loc}:
            v = m.loc.get(k)
            if v is None:
                continue
            lv, init = ("lv", L, k), st.loc.get(k)
            carried[k] = (self.snap(init, st) if init is not None else None, self.snap(v, m))
            self.loops[L].setdefault("raw", {})[k] = init
            if v == lv:
                out.loc[k] = init
            else:
                out.loc[k] = self.lift_scalar(lv, init, v, sctx, L, m)
        for k in mod_ext:
            out.ext.pop(k, None)
        for k in mod_ver:
            out.ver[k] = st.ver.get(k, 0) + 2000
            for kk in list(out.ext):
                if kk[1] == k:
                    out.ext.pop(kk)
        for k in mod_cver:
            out.cver[k] = st.cver.get(k, 0) + 2000
        # abrupt exits
        for e in rais:
            self.exits.append(("raise", mk_and(st.cond, self.exists(ctx, e[1], st)), e[2], out.copy(), e[4]))
        exf = []
        for e in rets:
            c = self.exists(ctx, e[1], e[3])
            exf.append(c)
            v = e[2]
            if self.depends(v, ctx):
                v = ("first", sctx, e[1], v)
            self.exits.append(("return", mk_and(st.cond, c), v, out.copy(), e[4]))
        rexf = [self.exists(ctx, e[1], e[3]) for e in rais]
        out.cond = mk_and(st.cond, *[mk_not(c) for c in exf + rexf])
        if out.cond == F:
            return None
        if getattr(s, "orelse", None):
            if not brks:
                return self.block(s.orelse, out)
            cb = mk_or(*[self.exists(ctx, e[1], e[3]) for e in brks])
            o2 = out.copy()
            o2.cond = mk_and(out.cond, mk_not(cb))
            r = self.block(s.orelse, o2)
            if r is None:
                out.cond = mk_and(out.cond, cb)
                return out
            out.cond = mk_and(out.cond, cb)
            return self.merge(cb, out, r)
        return out

    def depends(self, v, ctx):
        ids = {e[1] for e in ctx if e[0] == "for"}
        return contains(v, lambda t: t[0] in ("el", "idx", "lv", "lvc") and t[1] in ids) or v[0] == "ref"

    def wrap(self, ctx, em):
        c, i = em
        return (ctx + c, i)

    def exists(self, ctx, cond, st):
        """formula: some iteration of ctx satisfies cond"""
        if cond == F:
            return F
        body = tuple(self.snap(e, st) for e in ctx) + ((("if", self.snap(cond, st)),) if cond != T else ())
        return self.mk_ex(body)

    def mk_ex(self, ctx):
        # drop conditions/for binders structure into canonical form
        out = []
        for e in ctx:
            if e[0] == "for":
                out.append(("for", e[1], e[2]))
            elif out and out[-1][0] == "if":
                out[-1] = ("if", mk_and(out[-1][1], e[1]))
            else:
                out.append(e)
        if any(e[0] == "if" and e[1] == F for e in out):
            return F
        out = [e for e in out if not (e[0] == "if" and e[1] == T)]
        # hoist leading ifs
        lead = []
        while out and out[0][0] == "if":
            lead.append(out.pop(0)[1])
        if not out:
            return mk_and(*lead)
        # conditions not depending on binders
        if len(out) == 2 and out[0][0] == "for" and out[1][0] == "if":
            L = out[0][1]
            cs = list(out[1][1][1:]) if out[1][1][0] == "and" else [out[1][1]]
            free = [c for c in cs if not contains(c, lambda t: t[0] in ("el", "idx") and t[1] == L)]
            if free and len(free) < len(cs):
                dep = mk_and(*[c for c in cs if c not in free])
                return mk_and(*lead, *free, self.mk_ex((out[0], ("if", dep))))
            el = ("el", L)
            f = out[1][1]
            # exists x in A: not (x in B)  ->  not subset(A, B)
            if f[0] == "not" and f[1][0] == "in" and f[1][1] == el and not contains(f[1][2], lambda t: t == el):
                return mk_and(*lead, mk_not(("subset", out[0][2], f[1][2])))
            # exists x in A: x == v   -> v in A
            if f[0] == "==" and el in f[1:]:
                o = f[2] if f[1] == el else f[1]
                if not contains(o, lambda t: t == el):
                    return mk_and(*lead, ("in", o, out[0][2]))
            # exists x in A: (forall y in B(y->item): x != item) -> not subset
            if f[0] == "not" and f[1][0] == "ex":
                sub = self.match_member(f[1], el)
                if sub is not None:
                    return mk_and(*lead, mk_not(("subset", out[0][2], sub)))
        if len(out) >= 2 and out[-1][0] == "if" and out[-1][1][0] == "ex" and out[-2][0] == "for":
            # exists x: exists y: c  ->  exists x, y: c
            return mk_and(*lead, self.mk_ex(tuple(out[:-1]) + tuple(out[-1][1][1])))
        if len(out) == 1:
            return mk_and(*lead, out[0][2] if out[0][0] == "for" and self.nonempty_ok(out[0][2]) else
                          canon_ctx_term("ex", tuple(out), ("c", 1, "int")))
        return mk_and(*lead, canon_ctx_term("ex", tuple(out), ("c", 1, "int")))

    def nonempty_ok(self, coll):
        return coll[0] not in ("c",)

    def match_member(self, ex, el):
        """ex is 'exists y in B: el == item(y)' -> a set-comprehension term"""
        ctx = ex[1]
        if len(ctx) == 2 and ctx[0][0] == "for" and ctx[1][0] == "if" and ctx[1][1][0] == "==" and el in ctx[1][1][1:]:
            f = ctx[1][1]
            o = f[2] if f[1] == el else f[1]
            if not contains(o, lambda t: t == el):
                return ("seq", "set", (("em", (ctx[0],), ("x", o)),))
        return None

    def delta(self, lv, e):
        """e as lv plus a list of (ctx, op, value) contributions, or None"""
        if e == lv:
            return []
        if e[0] == "op" and e[1] in ("+", "*", "-", "|", "&", "//", "/") and len(e) == 4:
            if contains(e[3], lambda t: t == lv):
                if e[1] in ("+", "*") and not contains(e[2], lambda t: t == lv):
                    d = self.delta(lv, e[3])
                    return None if d is None else d + [((), e[1], e[2])]
                return None
            d = self.delta(lv, e[2])
            return None if d is None else d + [((), e[1], e[3])]
        if e[0] == "red" and e[2] != lv and len(e) == 4:
            d = self.delta(lv, e[2])
            return None if d is None else d + [(x[1], e[1], x[2]) for x in e[3]]
        if e[0] == "red" and e[2] == lv:
            return [(x[1], e[1], x[2]) for x in e[3]]
        if e[0] == "ite":
            a, b = self.delta(lv, e[2]), self.delta(lv, e[3])
            if a is None or b is None or contains(e[1], lambda t: t == lv):
                return None
            g = lambda c, d: [((("if", c),) + x[0],) + x[1:] for x in d]
            return g(e[1], a) + g(mk_not(e[1]), b)
        return None

    def lift_scalar(self, lv, init, v, ctx, L, m):
        """value of a variable after the loop, given its value v after one iteration"""
        if init is None:
            init = ("undef",)
        d = self.delta(lv, v)
        if d and len({x[1] for x in d}) == 1:
            return ("red", d[0][1], init, tuple(("em", ctx + x[0], x[2]) for x in d))
        has = contains(v, lambda t: t == lv)
        # boolean flags
        if v[0] == "ite" and init in (T, F) and not has_until(ctx, v[1], v[3] == lv):
            if v[3] == lv and v[2] in (T, F) and not contains(v[1], lambda t: t == lv):
                ex = self.exists(tuple(e[:3] if e[0] == "for" else e for e in ctx), v[1], m)
                return mk_or(init, ex) if v[2] == T else mk_and(init, mk_not(ex))
            if v[2] == lv and v[3] in (T, F) and not contains(v[1], lambda t: t == lv):
                ex = self.exists(tuple(e[:3] if e[0] == "for" else e for e in ctx), mk_not(v[1]), m)
                return mk_or(init, ex) if v[3] == T else mk_and(init, mk_not(ex))
        if is_bool(v) or (v[0] == "ite" and is_bool(v)):
            pos = self.flag(lv, v)
            if pos is not None and not has_until(ctx, pos[1], True):
                kind, c = pos
                ex = self.exists(tuple(e[:3] if e[0] == "for" else e for e in ctx), c, m)
                return mk_or(init, ex) if kind == "or" else mk_and(init, mk_not(ex))
        if v[0] == "ite" and not contains(v[1], lambda t: t == lv):
            if v[3] == lv and not contains(v[2], lambda t: t == lv):
                if v[2] == init:
                    return init
                return ("pick", ctx, v[1], v[2], init)
            if v[2] == lv and not contains(v[3], lambda t: t == lv):
                return ("pick", ctx, mk_not(v[1]), v[3], init)
        if not has and not self.depends(v, ctx):
            if v == init:
                return init
            return mk_ite(self.exists(tuple(e[:3] if e[0] == "for" else e for e in ctx), T, m), v, init)
        if has:
            # the variable's own previous value, told apart from those of other variables
            v = subst(v, lambda t: ("lv", L, ("self", lv[2])) if t == lv else None)
        return ("lout", L, v, init, ctx)

    def flag(self, lv, v):
        if v[0] == "or" and lv in v[1:]:
            r = mk_or(*[x for x in v[1:] if x != lv])
            return None if contains(r, lambda t: t == lv) else ("or", r)
        if v[0] == "and" and lv in v[1:]:
            r = mk_and(*[x for x in v[1:] if x != lv])
            return None if contains(r, lambda t: t == lv) else ("and", mk_not(r))
        return None

    def s_While(self, s, st):
        f = s.body[0]
        if isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and len(s.body) > 1 and isinstance(f, ast.If) \
                and not f.orelse and len(f.body) == 1 and isinstance(f.body[0], ast.Break):
            # while True: if c: break; ...
            test = f.test.operand if isinstance(f.test, ast.UnaryOp) and isinstance(f.test.op, ast.Not) else ast.UnaryOp(ast.Not(), f.test)
            s = ast.fix_missing_locations(ast.copy_location(ast.While(ast.copy_location(test, f), s.body[1:], []), s))
        # index loop:  i = 0 ... while i < len(x): ... ; i += 1
        r = self.while_index(s, st)
        if r is not None:
            return r[0]
        r = self.while_grow(s, st)
        if r is not None:
            return r[0]
        L = self.fresh()
        self.loops[L] = {"coll": ("while", L), "kind": "while", "node": s, "stop": None}
        test = s.test
        body = s.body
        holder = {}

        def assign(b):
            c = self.truth(self.ev(test, b), b)
            holder["cond"] = self.snap(c, b)
            self.loops[L]["cond"] = holder["cond"]
            if c != T:
                b.cond = mk_and(b.cond, c)

        ctx = (("for", L, ("while", L)),)
        r = self._loop(s, ctx, assign, body, st)
        if r is not None and holder.get("cond") == T and not self.loops[L].get("brk"):
            return None
        return r

    def while_index(self, s, st):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq, ast.Gt))):
            return None
        l, r = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            l, r = r, l
        if not (isinstance(l, ast.Name) and st.loc.get(l.id) == const(0)):
            return None
        last = s.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
                and last.target.id == l.id and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        if l.id in self.stored_names(s.body[:-1]) or any(isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b)):
            return None
        # bound must not change in the loop: take its value now
        bound = self.ev(r, st)
        if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "len":
            seqt = self.ev(r.args[0], st)
            it = ("call", ("g", "builtins.range"), (("call", ("g", "builtins.len"), (seqt,), ()),), ())
        else:
            it = ("call", ("g", "builtins.range"), (bound,), ())
        # abort when the body grows the collection
        br = self.iterate(it, st)
        if len(br) != 1:
            return None
        ctx, val = br[0]
        out = self._loop(s, ctx, lambda b: b.loc.__setitem__(l.id, val), s.body[:-1], st)
        if out is not None:
            out.loc[l.id] = bound
        return (out,)

    def while_grow(self, s, st):
        """while len(xs) < n: ...; xs.append(e)   ==   for _ in range(n)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.Gt, ast.NotEq))):
            return None
        l, r = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            l, r = r, l
        if not (isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and
                isinstance(l.args[0], ast.Name)):
            return None
        x = l.args[0].id
        ref = st.loc.get(x)
        o = self.obj(ref, st) if ref else None
        if o is None or o.kind != "list" or o.ems or o.base is not None or x in self.stored_names(s.body):
            return None
        apps = [b for b in s.body if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and
                isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append" and
                isinstance(b.value.func.value, ast.Name) and b.value.func.value.id == x]
        uses = [n for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == x]
        if len(apps) != 1 or len(uses) != 1:
            return None
        if any(isinstance(n, (ast.Continue, ast.Break, ast.Return)) for b in s.body for n in self._own_loop_nodes(b)):
            return None
        bound = self.ev(r, st)
        br = self.iterate(("call", ("g", "builtins.range"), (bound,), ()), st)
        ctx, val = br[0]
        return (self._loop(s, ctx, lambda b: None, s.body, st),)

    def _own_loop_nodes(self, n):
        todo = [n]
        while todo:
            x = todo.pop()
            yield x
            if isinstance(x, (ast.For, ast.While)):
                todo.extend(y for y in x.body + x.orelse for y in [y] if True)
                # breaks/continues of nested loops are theirs, returns are not
                todo = [y for y in todo]
                for y in list(x.body):
                    pass
                todo = [y for y in todo if y not in x.body]
                for y in x.body:
                    for z in ast.walk(y):
                        if isinstance(z, ast.Return):
                            yield z
                continue
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                continue
            todo.extend(ast.iter_child_nodes(x))

    # ------------------------------------------------------------------ iteration
    def newloop(self, coll, st, **kw):
        L = self.fresh()
        self.loops[L] = dict(coll=coll, kind="for", stop=None, **kw)
        return L

    def counts(self, t, coll, st):
        """t is range(len(coll)) or itertools.count()"""
        if t[0] != "call" or t[1][0] != "g":
            return False
        if t[1][1] == "itertools.count" and not t[2]:
            return True
        if t[1][1] == "builtins.range" and len(t[2]) == 1 and t[2][0][0] == "call" and t[2][0][1] == ("g", "builtins.len"):
            from .rule import norm, source
            return source(norm(self.snap(t[2][0][2][0], st))) == source(norm(self.snap(coll, st)))
        return False

    def iterate(self, it, st):
        """[(ctx entries, element value)] ; one entry = a loop (or nothing for a known single element)"""
        o = self.obj(it, st)
        if o is not None and o.kind in LISTLIKE | {"dict"}:
            if o.base is None:
                if all(c == () and i[0] == "x" for c, i in o.ems) and o.kind != "set":
                    if len(o.ems) <= 6 and not any(i[1][0] == "star" for c, i in o.ems):
                        return [((), i[1]) for c, i in o.ems]
                if len(o.ems) == 1 and o.kind in ("list", "gen", "tuple") and o.ems[0][1][0] == "x":
                    ctx, item = o.ems[0]
                    if not any(e[0] == "for" and len(e) > 3 for e in ctx) and \
                            sum(1 for e in ctx if e[0] == "for") >= 1:
                        ren = {}
                        nctx = []
                        f = lambda x: (x[0], ren[x[1]]) + x[2:] if x[0] in ("el", "idx") and x[1] in ren else None
                        for e in ctx:
                            if e[0] == "for":
                                coll = subst(e[2], f)
                                L2 = self.newloop(coll, st)
                                ren[e[1]] = L2
                                nctx.append(("for", L2, coll))
                            else:
                                nctx.append(("if", subst(e[1], f)))
                        return [(tuple(nctx), subst(item[1], f))]
            coll = self.snap(it, st)
            L = self.newloop(coll, st)
            return [((("for", L, coll),), ("el", L))]
        if it[0] == "tuple":
            if len(it[1]) <= 6:
                return [((), v) for v in it[1]]
        if it[0] == "m" and it[2] in ("items", "keys", "values", "iteritems") and not it[3]:
            base = it[1]
            o = self.obj(base, st)
            if o is not None and o.kind == "dict" and o.base is None and len(o.ems) == 1 and o.ems[0][1][0] == "kv" and len(o.ems[0][0]) == 1 and \
                    len(o.ems[0][0][0]) == 3 and o.ems[0][1][1] == ("idx", o.ems[0][0][0][1]):
                # positions are distinct: one item per element
                (f,), (_, k0, v0) = o.ems[0]
                L = self.newloop(f[2], st)
                ren = lambda y: (y[0], L) + y[2:] if y[0] in ("el", "idx") and y[1] == f[1] else None
                k0, v0 = ("idx", L), subst(v0, ren)
                return [((("for", L, f[2]),), {"items": ("tuple", (k0, v0)), "iteritems": ("tuple", (k0, v0)), "keys": k0, "values": v0}[it[2]])]
            coll = self.snap(base, st)
            L = self.newloop(coll, st)
            el = ("el", L)
            val = self.index(base, el, st)
            v = {"items": ("tuple", (el, val)), "iteritems": ("tuple", (el, val)), "keys": el, "values": val}[it[2]]
            return [((("for", L, coll),), v)]
        if it[0] == "call" and it[1][0] == "g":
            g, args = it[1][1], it[2]
            if g == "builtins.enumerate" and args:
                br = self.iterate(args[0], st)
                if len(br) == 1 and br[0][0]:
                    ctx, v = br[0]
                    fors = [e for e in ctx if e[0] == "for"]
                    start = args[1] if len(args) > 1 else const(0)
                    ix = ("idx", fors[0][1]) if len(fors) == 1 and len(ctx) == 1 else ("idx", ("multi", fors[0][1]))
                    if start != const(0):
                        ix = ("op", "+", ix, start)
                    return [(ctx, ("tuple", (ix, v)))]
                return [((), ("tuple", (const(n), v))) for n, (c, v) in enumerate(br)]
            if g == "builtins.range" and len(args) == 1 and args[0][0] == "call" and \
                    args[0][1] == ("g", "builtins.len"):
                br = self.iterate(args[0][2][0], st)
                if len(br) == 1 and len(br[0][0]) == 1 and br[0][1] == ("el", br[0][0][0][1]):
                    ctx, v = br[0]
                    return [(ctx, ("idx", ctx[0][1]))]
            if g == "builtins.zip" and args:
                br = self.iterate(args[0], st)
                if len(br) == 1 and len(br[0][0]) == 1 and br[0][0][0][0] == "for":
                    ctx, v = br[0]
                    ix = ("idx", ctx[0][1])
                    vals = [v] + [ix if self.counts(a, args[0], st) else self.index(a, ix, st) for a in args[1:]]
                    self.loops[ctx[0][1]]["zip"] = tuple(self.snap(a, st) for a in args)
                    return [(ctx, ("tuple", tuple(vals)))]
            if g in ("builtins.list", "builtins.tuple", "builtins.iter", "copy.copy") and len(args) == 1:
                return self.iterate(args[0], st)
            if g == "builtins.map" and len(args) == 2:
                br = self.iterate(args[1], st)
                return [(c, self.apply(args[0], [v], [], st, None)) for c, v in br]
            if g == "builtins.filter" and len(args) == 2:
                out = []
                for c, v in self.iterate(args[1], st):
                    t = self.truth(v if args[0] == NONE else self.apply(args[0], [v], [], st, None), st)
                    out.append((c + (("if", t),), v))
                return out
        if it[0] == "ite" and len(it) == 4:
            pass
        coll = self.snap(it, st)
        L = self.newloop(coll, st)
        return [((("for", L, coll),), ("el", L))]

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.loc[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, ("i", v, ("slice", const(i), NONE, NONE)), st, node)
                else:
                    self.assign(x, self.index(v, const(i), st), st, node)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr(o, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Subscript):
                # d[k1][k2] = v on a local dict of dicts
                d = self.ev(t.value.value, st)
                ob = self.obj(d, st)
                if ob is not None and ob.kind == "dict":
                    k1 = self.snap(self.ev(t.value.slice, st), st)
                    if self.obj(self.index(d, k1, st), st) is None:
                        self.emit(d, ("kv2", k1, self.snap(self.ev(t.slice, st), st), v), st)
                        return
            o, k = self.ev(t.value, st), self.ev(t.slice, st)
            if o[0] == "setdef" and self.obj(o[1], st) is not None:
                self.emit(o[1], ("kv2", self.snap(o[2], st), self.snap(k, st), v), st)
                return
            self.setitem(o, k, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def setitem(self, o, k, v, st, node):
        ob = self.obj(o, st)
        if ob is not None and ob.kind not in ("inst", "func"):
            # d[k] = d[k] + v  is an accumulation
            item = ("kv", k, v)
            if v[0] == "op" and v[1] in ("+", "*") and len(v) == 4:
                for a, b in ((v[2], v[3]), (v[3], v[2])):
                    if self.is_read(a, o, k, st):
                        item = ("acc", v[1], k, b)
            st.heap[o[1]] = replace(ob, ems=ob.ems + (((), item),))
            return
        cls = self.typeof(o, st)
        if cls:
            f = self.p.find_method(self.p.class_by_qual[cls], "__setitem__")
            if f:
                self.callf(f, [o, k, v], [], st, node)
                return
        self.event(st, "setitem", node, obj=o, key=k, value=v)
        st.cver[o] = st.cver.get(o, 0) + 1

    def is_read(self, a, o, k, st):
        sn = self.snap(o, st)
        if a[0] == "i" and a[2] == k and a[1] == sn:
            return True
        if a[0] == "get" and a[2] == k and a[1] == sn and a[3] in (const(0), const(0.0)):
            return True
        if a[0] == "ite" and a[1][0] in ("in", "ex", "not") and self.is_read(a[2], o, k, st) and \
                a[3] in (const(0), const(0.0)):
            return True
        return False

    def setattr(self, o, attr, v, st, node):
        ob = self.obj(o, st)
        if ob is not None:
            cls = ob.cls
            if cls:
                f = self.p.find_method(self.p.class_by_qual[cls], attr, setter=True) if cls in self.p.class_by_qual else None
                if f:
                    self.callf(f, [o, v], [], st, node)
                    return
            st.heap[o[1]] = ob.with_attr(attr, v)
            self.event(st, "setattr_local", node, obj=o, attr=attr, value=v)
            return
        cls = self.typeof(o, st)
        if cls:
            f = self.p.find_method(self.p.class_by_qual[cls], attr, setter=True)
            if f:
                self.callf(f, [o, v], [], st, node)
                return
        self.event(st, "setattr", node, obj=o, attr=attr, value=v,
                   old=st.ext.get((o, attr)) or ("a", o, attr, st.ver.get(attr, 0)))
        n = st.ver.get(attr, 0) + 1
        st.ver[attr] = n
        for k in list(st.ext):
            if k[1] == attr and k[0] != o:
                st.ext.pop(k)
        st.ext[(o, attr)] = v

    def getattr(self, o, attr, st, node):
        ob = self.obj(o, st)
        if ob is not None:
            v = ob.attr(attr)
            if v is not None:
                return v
            if ob.cls and ob.cls in self.p.class_by_qual:
                f = self.p.find_method(self.p.class_by_qual[ob.cls], attr)
                if f:
                    if f.is_property:
                        return self.callf(f, [o], [], st, node)
                    return ("bound", f.qual, o)
                v = self.class_attr(ob.cls, attr, st)
                if v is not None:
                    return v
            return ("a", o, attr, 0)
        if o[0] == "g":
            return self.gattr(o, attr)
        if o[0] == "ite":
            # attribute of a choice
            return mk_ite(o[1], self.getattr(o[2], attr, st, node), self.getattr(o[3], attr, st, node))
        if (o, attr) in st.ext:
            return st.ext[(o, attr)]
        cls = self.typeof(o, st)
        if cls and cls in self.p.class_by_qual:
            f = self.p.find_method(self.p.class_by_qual[cls], attr)
            if f:
                if f.is_property:
                    return self.callf(f, [o], [], st, node, prop=attr)
                return ("bound", f.qual, o)
        return ("a", o, attr, st.ver.get(attr, 0))

    def class_attr(self, qual, attr, st):
        for c in self.p.mro(self.p.class_by_qual[qual]):
            if attr in c.attrs:
                try:
                    return const(ast.literal_eval(c.attrs[attr])) if not isinstance(
                        c.attrs[attr], (ast.Dict, ast.List, ast.Set)) else ("g", f"{c.qual}.{attr}")
                except Exception:
                    return ("g", f"{c.qual}.{attr}")
        return None

    def gattr(self, o, attr):
        r = self.p.resolve_dotted(o[1] + "." + attr)
        if r[0] == "lib" and o[1] in self.p.class_by_qual:
            f = self.p.find_method(self.p.class_by_qual[o[1]], attr)
            if f:
                return ("g", f.qual)
        return self.res_term(r)

    def res_term(self, r):
        if r[0] in ("func", "class"):
            return ("g", r[1].qual)
        if r[0] == "module":
            return ("g", r[1].name)
        if r[0] == "global":
            m, n = r[1], r[2]
            v = m.globals[n]
            try:
                lit = ast.literal_eval(v)
                if isinstance(lit, (str, int, float, bool, type(None))):
                    return const(lit)
                if isinstance(lit, tuple) and all(isinstance(x, (str, int, float, bool)) for x in lit):
                    return ("tuple", tuple(const(x) for x in lit))
            except Exception:
                pass
            return ("g", f"{m.name}.{n}")
        if r[0] == "builtin":
            return ("g", f"builtins.{r[1]}")
        return ("g", r[1])

    def name(self, n, st):
        if n in st.loc:
            return st.loc[n]
        r = self.p.resolve(self.mod, n)
        if r is None and self.fallback:
            # reference text names what it means, whatever the module at hand imports
            if n in self.fallback:
                return ("g", self.fallback[n])
            qs = [q for d in (self.p.class_by_qual, self.p.func_by_qual) for q in d if q.rsplit(".", 1)[-1] == n]
            if len(qs) == 1:
                return ("g", qs[0])
        if r is None:
            # name-mangled private module globals, or really undefined
            return ("g", f"?.{n}")
        return self.res_term(r)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unsupported.append(type(e).__name__)
            return ("unk", type(e).__name__, self.fresh())
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.name(e.id, st)

    def e_Attribute(self, e, st):
        return self.getattr(self.ev(e.value, st), e.attr, st, e)

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.e_List(e, st, "tuple")
        return ("tuple", tuple(self.ev(x, st) for x in e.elts))

    def e_List(self, e, st, kind="list"):
        r = self.new(st, Obj(kind))
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.extend(r, self.ev(x.value, st), st, e)
            else:
                self.emit(r, ("x", self.ev(x, st)), st)
        return r

    def e_Set(self, e, st):
        return self.e_List(e, st, "set")

    def e_Dict(self, e, st):
        r = self.new(st, Obj("dict"))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(r, self.ev(v, st), st, e)
            else:
                kk = self.ev(k, st)
                self.emit(r, ("kv", kk, self.ev(v, st)), st)
        return r

    def emit(self, ref, item, st):
        o = st.heap[ref[1]]
        st.heap[ref[1]] = replace(o, ems=o.ems + (((), item),))

    def extend(self, ref, v, st, node):
        o = st.heap[ref[1]]
        ems = []
        for ctx, x in self.iterate(v, st):
            ems.append((ctx, ("x", x)))
        st.heap[ref[1]] = replace(o, ems=o.ems + tuple(ems))

    def dict_update(self, ref, v, st, node):
        new = self.updates(v, st)
        o = st.heap[ref[1]]
        st.heap[ref[1]] = replace(o, ems=o.ems + new)

    def updates(self, v, st, depth=0):
        """the entries an update with v makes"""
        if v[0] == "ite" and depth < 4:
            return tuple((((("if", c),) + ctx), it) for c, w in ((v[1], v[2]), (mk_not(v[1]), v[3])) for ctx, it in self.updates(w, st, depth + 1))
        vo = self.obj(v, st)
        if vo is not None and vo.kind == "dict":
            return vo.ems if vo.base is None else (((), ("upd", self.snap(v, st))),)
        if vo is not None and vo.kind in LISTLIKE:
            return tuple((c, ("kv", self.index(i[1], const(0), st), self.index(i[1], const(1), st)))
                         for c, i in vo.ems if i[0] == "x")
        if v[0] in ("m", "call") and v[0] == "m":
            self.iterate(v, st)
        return (((), ("upd", self.snap(v, st))),)

    def comp(self, e, st, kind):
        r = self.new(st, Obj(kind))
        saved = {k: st.loc.get(k) for g in e.generators for k in self.stored_names([g.target])}

        def gen(i, s):
            if i == len(e.generators):
                if kind == "dict":
                    self.emit(r, ("kv", self.ev(e.key, s), self.ev(e.value, s)), s)
                else:
                    self.emit(r, ("x", self.ev(e.elt, s)), s)
                return s
            g = e.generators[i]
            it = self.ev(g.iter, s)
            brs = self.iterate(it, s)
            for ctx, val in brs:
                def body_run(b, g=g, i=i):
                    if g.ifs:
                        c = mk_and(*[self.truth(self.ev(x, b), b) for x in g.ifs])
                        if c == F:
                            return b
                        b2 = b.copy()
                        b2.cond = mk_and(b.cond, c)
                        nb = gen(i + 1, b2)
                        nb2 = self.merge(c, nb, b)
                        return nb2
                    return gen(i + 1, b)
                for c in ctx:
                    if c[0] == "for" and c[1] in self.loops:
                        self.loops[c[1]]["comp"] = True
                if not ctx:
                    self.assign(g.target, val, s, e)
                    s2 = body_run(s)
                else:
                    marker = _Fake(body_run)
                    s2 = self._loop(_NoElse(), ctx, lambda b, g=g, val=val: self.assign(g.target, val, b, e), [marker], s)
                s = s2
            return s

        s2 = gen(0, st.copy())
        if s2 is None:  # building an element always raises
            s2 = st.copy()
        # copy effects back into st (same identity expected by callers)
        st.heap, st.ext, st.ver, st.cver = s2.heap, s2.ext, s2.ver, s2.cver
        st.cond = s2.cond
        for k, v in saved.items():
            if v is None:
                st.loc.pop(k, None)
            else:
                st.loc[k] = v
        return r

    def s__Fake(self, s, st):
        return s.run(st)

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "gen")

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def e_Lambda(self, e, st):
        i = self.fresh()
        self.lams[i] = ([a.arg for a in e.args.posonlyargs + e.args.args], e.body, st.copy(), self.mod, None)
        if e.args.vararg:
            self.lams[("vararg", i)] = e.args.vararg.arg
        self.lams[("defaults", i)] = {a.arg: self.ev(d, st) for a, d in
                                      zip(reversed(e.args.args), reversed(e.args.defaults))}
        return ("lam", i)

    def e_IfExp(self, e, st):
        c = self.truth(self.ev(e.test, st), st)
        oc = st.cond
        st.cond = mk_and(oc, c)
        a = self.ev(e.body, st)
        st.cond = mk_and(oc, mk_not(c))
        b = self.ev(e.orelse, st)
        st.cond = oc
        return mk_ite(c, a, b)

    def e_BoolOp(self, e, st):
        oc = st.cond
        isand = isinstance(e.op, ast.And)
        vals, guard = [], T
        for x in e.values:
            st.cond = mk_and(oc, guard)
            v = self.ev(x, st)
            vals.append(v)
            t = self.truth(v, st)
            guard = mk_and(guard, t if isand else mk_not(t))
        st.cond = oc
        if all(is_bool(v) for v in vals):
            return mk_and(*vals) if isand else mk_or(*vals)
        # a leading constant that does not decide is dropped
        while len(vals) > 1 and is_const(vals[0]) and bool(vals[0][1]) == isand:
            vals.pop(0)
        if len(vals) == 1:
            return vals[0]
        return ("bop", "and" if isand else "or", tuple(vals))

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return mk_not(self.truth(v, st))
        if isinstance(e.op, ast.USub):
            if is_const(v) and isinstance(v[1], (int, float)):
                return const(-v[1])
            return ("op", "neg", v)
        if isinstance(e.op, ast.Invert):
            return ("op", "inv", v)
        return v

    def opname(self, op):
        return {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**",
                "MatMult": "@", "BitAnd": "&", "BitOr": "|", "BitXor": "^", "LShift": "<<", "RShift": ">>"}[
            type(op).__name__]

    def e_BinOp(self, e, st):
        return self.binop(self.opname(e.op), self.ev(e.left, st), self.ev(e.right, st), st)

    def binop(self, op, a, b, st):
        if is_const(a) and is_const(b) and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            try:
                return const({"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y,
                              "/": lambda x, y: x / y, "//": lambda x, y: x // y, "**": lambda x, y: x ** y,
                              "%": lambda x, y: x % y}[op](a[1], b[1]))
            except Exception:
                pass
        if op == "%" and (is_const(a) and isinstance(a[1], str)):
            return self.percent(a, b, st)
        if op == "+" and (self.is_str(a) or self.is_str(b)):
            return self.fmt(self.parts(a) + self.parts(b))
        oa, ob = self.obj(a, st), self.obj(b, st)
        if op == "+" and a[0] == "tuple" and b[0] == "tuple":
            return ("tuple", a[1] + b[1])
        if op == "+" and ((oa is not None and oa.kind in ("list", "tuple")) or (ob is not None and ob.kind in ("list", "tuple"))):
            r = self.new(st, Obj("list"))
            for x in (a, b):
                self.extend(r, x, st, None)
            return r
        if op in ("-", "&", "|") and (self.is_set(a, st) or self.is_set(b, st)):
            return self.setop({"-": "difference", "&": "intersection", "|": "union"}[op], a, b, st)
        if op == "*":
            for o, x, n in ((oa, a, b), (ob, b, a)):
                if o is not None and o.kind == "list" and self.obj(n, st) is None:
                    return self.new(st, Obj("list", base=("op", "*", self.snap(x, st), self.snap(n, st))))
        if op == "*" and is_const(a) and not is_const(b):
            a, b = b, a           # constants to the right
        if op == "*" and b == const(-1):
            return ("op", "neg", a)
        return ("op", op, self.snap(a, st), self.snap(b, st))

    def is_set(self, t, st):
        o = self.obj(t, st)
        if o is not None:
            return o.kind in ("set", "frozenset")
        if t[0] == "seq":
            return t[1] in ("set", "frozenset")
        return t[0] == "m" and t[2] in ("union", "intersection", "difference")

    def setop(self, name, a, b, st):
        a, b = self.snap(a, st), self.snap(b, st)
        if name in ("union", "intersection") and repr(b) < repr(a) and self.is_set(b, st):
            a, b = b, a
        return ("m", a, name, (b,), ())

    def is_str(self, t):
        return (is_const(t) and isinstance(t[1], str)) or t[0] == "fmt"

    def parts(self, t):
        if t[0] == "fmt":
            return t[1]
        return (t,)

    def fmt(self, parts):
        out = []
        for p in parts:
            if is_const(p) and isinstance(p[1], (str, int)) and not isinstance(p[1], bool):
                p = const(str(p[1]))
            if out and is_const(p) and is_const(out[-1]):
                out[-1] = const(out[-1][1] + p[1])
            elif p != const(""):
                out.append(p)
        if len(out) == 1 and is_const(out[0]):
            return out[0]
        return ("fmt", tuple(out))

    def percent(self, a, b, st):
        args = list(b[1]) if b[0] == "tuple" else [b]
        parts, i, s = [], 0, a[1]
        segs = s.split("%s")
        if len(segs) - 1 == len(args):
            for n, sg in enumerate(segs):
                parts.append(const(sg))
                if n < len(args):
                    parts.append(self.strip_str(args[n]))
            return self.fmt(tuple(parts))
        import re
        found = re.findall(r"%([-+ 0#]*[0-9]*(?:\.[0-9]+)?)([sdrfxXeEgG%])", s)
        if "%" in s and len(found) == len(args) == s.count("%"):
            segs = re.split(r"%[-+ 0#]*[0-9]*(?:\.[0-9]+)?[sdrfxXeEgG%]", s)
            for n, sg in enumerate(segs):
                parts.append(const(sg))
                if n < len(args):
                    w, c = found[n]
                    x = self.strip_str(args[n])
                    if c == "s" and not w or c == "d" and not w:
                        parts.append(x)
                    else:
                        parts.append(self.formatted(x, const("" if c == "r" and not w else w + c), "r" if c == "r" else None, st))
            return self.fmt(tuple(parts))
        return ("fmt", (a,) + tuple(self.snap(x, st) for x in args))

    def strip_str(self, t):
        if t[0] == "fmt" and len(t[1]) == 1:
            return t[1][0]
        return t

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.snap(self.ev(v, st) if v.format_spec is not None or v.conversion > 0 else self.ev(v.value, st), st)
                parts.extend(self.parts(x) if x[0] == "fmt" else (x,))
        return self.fmt(tuple(parts))

    def e_FormattedValue(self, e, st):
        spec = self.ev(e.format_spec, st) if e.format_spec is not None else const("")
        return self.fmt((self.formatted(self.ev(e.value, st), spec, chr(e.conversion) if e.conversion > 0 else None, st),))

    def formatted(self, v, spec, conv, st):
        """one value of a formatted text"""
        if conv in ("r", "a"):
            v = ("call", ("g", "builtins.repr"), (self.snap(v, st),), ())
        if spec in (const(""), ("fmt", ())) or spec is None:
            return v
        return ("call", ("g", "builtins.format"), (self.snap(v, st), spec), ())

    def format_call(self, s, args, kw, st):
        import string
        parts, auto = [], 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(const(lit))
                if fld is not None:
                    if fld == "":
                        v = args[auto]
                        auto += 1
                    elif fld.isdigit():
                        v = args[int(fld)]
                    else:
                        v = dict(kw)[fld]
                    v = self.formatted(self.snap(v, st), const(spec or ""), conv, st)
                    parts.extend(self.parts(v) if v[0] == "fmt" else (v,))
        except Exception:
            return ("fmt", (const(s),) + tuple(self.snap(x, st) for x in args) + tuple(self.snap(v, st) for _, v in kw))
        return self.fmt(tuple(parts))

    def e_Compare(self, e, st):
        out, left = [], self.ev(e.left, st)
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            out.append(self.compare(type(op).__name__, left, right, st))
            left = right
        return mk_and(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, st):
        if op == "In":
            return self.member(a, b, st)
        if op == "NotIn":
            return mk_not(self.member(a, b, st))
        a, b = self.snap(a, st), self.snap(b, st)
        if op in ("Is", "IsNot"):
            if is_const(a) and is_const(b):
                f = T if a == b else F
            elif (b == NONE and a[0] in ("tuple", "seq", "new", "fmt", "lam")):
                f = F
            elif b == NONE and a[0] == "call" and a[1][0] == "g" and a[1][1] in ("re.match", "re.fullmatch", "re.search"):
                f = mk_not(a)
            elif a[0] == "ite" and is_const(b):
                f = mk_ite(a[1], self.compare("Is", a[2], b, st), self.compare("Is", a[3], b, st))
            else:
                x, y = sorted((a, b), key=repr)
                f = ("is", x, y)
            # x is True  stays an identity test
            return f if op == "Is" else mk_not(f)
        if op in ("Eq", "NotEq"):
            f = self.eq(a, b, st)
            return f if op == "Eq" else mk_not(f)
        if op == "Gt":
            return self.lt(b, a, st)
        if op == "Lt":
            return self.lt(a, b, st)
        if op == "GtE":
            if self.setish(a) or self.setish(b):
                return ("subset", self.strip_set(b), self.strip_set(a))
            return mk_not(self.lt(a, b, st))
        if op == "LtE":
            if self.setish(a) or self.setish(b):
                return ("subset", self.strip_set(a), self.strip_set(b))
            return mk_not(self.lt(b, a, st))
        return ("cmp", op, a, b)

    def setish(self, t):
        return t[0] == "seq" and t[1] in ("set", "frozenset")

    def eq(self, a, b, st):
        if is_const(a) and is_const(b):
            return T if a[1] == b[1] else F
        if a == b:
            return T
        for x, y in ((a, b), (b, a)):
            if x[0] == "call" and x[1] == ("g", "builtins.len") and y == const(0):
                return mk_not(self.truth(x[2][0], st))
            if y[0] == "seq" and not y[2] and x[0] not in ("seq",):
                return mk_not(self.truth(x, st))
            if x[0] == "ite" and is_const(y):
                return mk_ite(x[1], self.eq(x[2], y, st), self.eq(x[3], y, st))
        x, y = sorted((a, b), key=repr)
        return ("==", x, y)

    def lt(self, a, b, st):
        if is_const(a) and is_const(b):
            try:
                return T if a[1] < b[1] else F
            except TypeError:
                pass
        ln = ("g", "builtins.len")
        if a == const(0) and b[0] == "call" and b[1] == ln:
            return self.truth(b[2][0], st)
        if b == const(1) and a[0] == "call" and a[1] == ln:
            return mk_not(self.truth(a[2][0], st))
        return ("<", a, b)

    def strip_set(self, t):
        """the collection a set/list/tuple conversion was taken of"""
        while True:
            if t[0] == "seq" and len(t[2]) == 1:
                em = t[2][0]
                if len(em[1]) == 1 and em[1][0][0] == "for" and em[2][0] == "x" and em[2][1] == ("el", em[1][0][1]):
                    t = em[1][0][2]
                    continue
            if t[0] == "m" and t[2] == "keys" and not t[3]:
                t = t[1]
                continue
            if t[0] == "sorted":
                t = t[1]
                continue
            if t[0] == "call" and t[1][0] == "g" and t[1][1] in ("builtins.list", "builtins.set", "builtins.tuple",
                                                                 "builtins.frozenset") and len(t[2]) == 1:
                t = t[2][0]
                continue
            return self.canon(t)

    def canon(self, t):
        """canonical loop ids for a stand-alone collection description"""
        if t[0] == "seq":
            ems = []
            for em in t[2]:
                if em[1] and any(e[0] == "for" and not isinstance(e[1], tuple) for e in em[1]):
                    x = canon_ctx_term("em", em[1], em[2])
                    ems.append(x)
                else:
                    ems.append(em)
            return ("seq", t[1], tuple(ems))
        return t

    def member(self, a, b, st):
        a = self.snap(a, st)
        bs = self.snap(b, st)
        bs = self.strip_set(bs)
        if bs[0] == "tuple":
            return mk_or(*[self.eq(a, self.snap(x, st), st) for x in bs[1]])
        if bs[0] == "seq":
            fs = []
            for em in bs[2]:
                it = em[2]
                v = it[1] if it[0] in ("x", "kv", "app", "kv2") else it[2] if it[0] == "acc" else None
                if v is None:
                    return ("in", a, bs)
                eq = self.eq(a, v, st)
                fs.append(self.mk_ex(tuple(em[1]) + (("if", eq),)))
            return mk_or(*fs)
        if bs[0] == "ite":
            return mk_or(mk_and(bs[1], self.member(a, bs[2], st)), mk_and(mk_not(bs[1]), self.member(a, bs[3], st)))
        if bs[0] == "m" and bs[2] == "union" and len(bs[3]) == 1:
            return mk_or(self.member(a, bs[1], st), self.member(a, bs[3][0], st))
        if is_const(a) and is_const(bs) and isinstance(a[1], str) and isinstance(bs[1], str):
            return T if a[1] in bs[1] else F
        return ("in", a, bs)

    def truth(self, t, st):
        if t in (T, F):
            return t
        if is_const(t):
            return T if t[1] else F
        if is_bool(t):
            return t
        if t[0] == "bop":
            fs = [self.truth(x, st) for x in t[2]]
            return mk_and(*fs) if t[1] == "and" else mk_or(*fs)
        if t[0] == "ite":
            return mk_or(mk_and(t[1], self.truth(t[2], st)), mk_and(mk_not(t[1]), self.truth(t[3], st)))
        if t[0] == "tuple":
            return T if t[1] else F
        if t[0] == "call" and t[1] == ("g", "builtins.len"):
            return self.truth(t[2][0], st)
        if t[0] == "call" and t[1] == ("g", "builtins.bool"):
            return self.truth(t[2][0], st)
        o = self.obj(t, st)
        if o is not None:
            if o.kind in ("inst", "func"):
                return T
            t = self.snap(t, st)
        if t[0] == "seq":
            fs = []
            for em in t[2]:
                if em[2][0] in ("base", "rm", "del", "clear", "upd"):
                    return self.canon(t)
                fs.append(self.mk_ex(em[1]) if em[1] else T)
            return mk_or(*fs)
        if t[0] == "m" and t[2] == "difference" and len(t[3]) == 1:
            return mk_not(self.subset(t[1], t[3][0], st))
        if t[0] == "sorted":
            return self.truth(t[1], st)
        return t

    def subset(self, a, b, st):
        a, b = self.strip_set(self.snap(a, st)), self.strip_set(self.snap(b, st))
        return ("subset", a, b)

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        k = self.ev(e.slice, st)
        cls = self.typeof(o, st)
        if cls and cls in self.p.class_by_qual:
            f = self.p.find_method(self.p.class_by_qual[cls], "__getitem__")
            if f:
                return self.callf(f, [o, k], [], st, e)
        return self.index(o, k, st)

    def e_Slice(self, e, st):
        g = lambda x: self.ev(x, st) if x is not None else NONE
        return ("slice", g(e.lower), g(e.upper), g(e.step))

    def e_Index(self, e, st):
        return self.ev(e.value, st)

    def index(self, o, k, st):
        if o[0] == "tuple" and is_const(k) and isinstance(k[1], int) and -len(o[1]) <= k[1] < len(o[1]):
            return o[1][k[1]]
        if o[0] == "tuple" and k[0] == "slice" and all(is_const(x) for x in k[1:]):
            return ("tuple", o[1][slice(*[x[1] for x in k[1:]])])
        if o[0] == "ite":
            return mk_ite(o[1], self.index(o[2], k, st), self.index(o[3], k, st))
        ob = self.obj(o, st)
        k = self.snap(k, st) if k[0] != "ref" else self.snap(k, st)
        if ob is not None and ob.kind in ("list", "tuple", "gen"):
            if k[0] == "idx":
                L = k[1]
                if not isinstance(L, tuple) and L in self.loops and self.loops[L]["coll"] == self.snap(o, st):
                    return ("el", L)
            if is_const(k) and isinstance(k[1], int) and ob.base is None and \
                    all(c == () and i[0] == "x" for c, i in ob.ems) and -len(ob.ems) <= k[1] < len(ob.ems):
                return ob.ems[k[1]][1][1]
            if k == ("slice", NONE, NONE, NONE):
                return self.new(st, replace(ob))
            if k[0] == "slice":
                return self.new(st, Obj(ob.kind, base=("i", self.snap(o, st), k)))
            return ("i", self.snap(o, st), k)
        if ob is not None and ob.kind == "dict":
            for c, i in reversed(ob.ems):
                if i[0] == "kv" and i[1] == k and c == ():
                    return i[2]
                if i[0] == "kv" and c == () and is_const(i[1]) and is_const(k) and i[1] != k:
                    continue
                break
            sn = self.snap(o, st)
            if sn[0] == "seq" and len(sn[2]) == 1:
                r = self.beta(sn, k)
                if r is not None:
                    return r
            return ("i", sn, k)
        if o[0] == "seq":
            r = self.beta(o, k)
            if r is not None:
                return r
        if k[0] == "idx" and not isinstance(k[1], tuple) and k[1] in self.loops and \
                self.loops[k[1]]["coll"] in (o, self.snap(o, st)):
            return ("el", k[1])
        so = self.snap(o, st)
        v = st.cver.get(o, 0)
        return ("i", so, k) if not v else ("i", so, k, v)

    def beta(self, sn, k):
        if len(sn[2]) != 1:
            return None
        em = sn[2][0]
        if em[2][0] != "kv" or len(em[1]) != 1 or em[1][0][0] != "for":
            return None
        L = em[1][0][1]
        coll = em[1][0][2]
        if em[2][1] == ("el", L):
            # the position of a key among the (distinct) keys
            return subst(em[2][2], lambda x: k if x == ("el", L) else (("m", coll, "index", (k,), ()) if x == ("idx", L) else None))
        if em[2][1] == ("idx", L) and len(em[1][0]) == 3:
            return subst(em[2][2], lambda x: k if x == ("idx", L) else (("i", coll, k) if x == ("el", L) else None))
        key = em[2][1]
        if key[0] == "m" and key[2] == "index" and key[3] == (("el", L),) and len(em[1][0]) == 3 and self.keys_of(coll) == self.keys_of(key[1]):
            # the inverse of a position map
            c = key[1]
            return subst(em[2][2], lambda x: k if x == key else (("i", c, k) if x == ("el", L) else None))
        return None

    def keys_of(self, coll):
        """the collection whose elements are the keys of a dictionary written {c: .. for c in coll}, in the same order"""
        if coll[0] == "seq" and coll[1] == "dict" and len(coll[2]) == 1 and coll[2][0][2][0] == "kv" and len(coll[2][0][1]) == 1 and \
                coll[2][0][1][0][0] == "for" and len(coll[2][0][1][0]) == 3 and coll[2][0][2][1] == ("el", coll[2][0][1][0][1]):
            return self.keys_of(coll[2][0][1][0][2])
        if coll[0] == "m" and coll[2] in ("keys",) and not coll[3]:
            return self.keys_of(coll[1])
        return coll


    def e_Starred(self, e, st):
        return ("star", self.ev(e.value, st))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value else NONE
        if "__yield__" in st.loc:
            self.emit(st.loc["__yield__"], ("x", v), st)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        if "__yield__" in st.loc:
            self.extend(st.loc["__yield__"], v, st, e)
        return NONE

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        args, kw = [], []
        f = e.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == "super":
            recv, fn = self.super_method(f, st)
            args, kw = self.args(e, st)
            if fn is not None:
                return self.callf(fn, [recv] + args, kw, st, e)
            return self.external(("g", f"super.{f.attr}"), [recv] + args, kw, st, e)
        if isinstance(f, ast.Attribute) and f.attr in ("append", "add", "extend", "update", "appendleft") and \
                isinstance(f.value, ast.Subscript):
            # d[k].append(v) on a local dict of collections
            o = self.ev(f.value.value, st)
            ob = self.obj(o, st)
            if ob is not None and ob.kind == "dict":
                k = self.snap(self.ev(f.value.slice, st), st)
                cur = self.index(o, k, st)
                if self.obj(cur, st) is None:
                    args, kw = self.args(e, st)
                    return self.append_at(o, k, f.attr, args, st, e)
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, st)
            args, kw = self.args(e, st)
            if recv[0] == "setdef" and f.attr in ("append", "add", "extend", "update", "appendleft"):
                return self.append_at(recv[1], self.snap(recv[2], st), f.attr, args, st, e)
            return self.method(recv, f.attr, args, kw, st, e)
        fn = self.ev(f, st)
        args, kw = self.args(e, st)
        return self.apply(fn, args, kw, st, e)

    def append_at(self, d, k, name, args, st, node):
        if name in ("extend", "update"):
            for ctx, x in self.iterate(args[0], st):
                o = st.heap[d[1]]
                st.heap[d[1]] = replace(o, ems=o.ems + ((ctx, ("app", k, x)),))
        else:
            self.emit(d, ("app", k, args[0]), st)
        return NONE

    def args(self, e, st):
        args, kw = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if v[0] == "tuple":
                    args.extend(v[1])
                else:
                    o = self.obj(v, st)
                    if o is not None and o.base is None and o.kind in ("list", "tuple") and \
                            all(c == () and i[0] == "x" for c, i in o.ems):
                        args.extend(i[1] for c, i in o.ems)
                    else:
                        args.append(("star", v))
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                o = self.obj(v, st)
                if o is not None and o.kind == "dict" and o.base is None and all(
                        c == () and i[0] == "kv" and is_const(i[1]) for c, i in o.ems):
                    d = {}
                    for c, i in o.ems:
                        d[i[1][1]] = i[2]
                    kw.extend(d.items())
                elif o is not None and o.kind == "dict" and all(
                        c == () and (i[0] == "kv" and is_const(i[1]) and isinstance(i[1][1], str) or i[0] == "upd") for c, i in o.ems) and \
                        (o.base is not None) + sum(i[0] == "upd" for c, i in o.ems) == 1:
                    # some by name, the others from one mapping
                    d = {i[1][1]: i[2] for c, i in o.ems if i[0] == "kv"}
                    kw.extend(d.items())
                    kw.extend(("**", i[1]) for c, i in o.ems if i[0] == "upd")
                    if o.base is not None:
                        kw.append(("**", o.base[1] if o.base[0] == "dictof" else o.base))
                else:
                    kw.append(("**", v))
            else:
                kw.append((k.arg, v))
        return args, kw

    def super_method(self, f, st):
        cur = next((x for x in reversed(self.stack) if x.cls is not None), None)
        if cur is None:
            return NONE, None
        cls = cur.cls
        a = f.value.args
        if a and isinstance(a[0], ast.Name):
            r = self.p.resolve(self.mod, a[0].id)
            if r and r[0] == "class":
                cls = r[1]
        recv = st.loc.get(cur.params[0], NONE) if cur.params else NONE
        dyn = self.typeof(recv, st)
        mro = self.p.mro(self.p.class_by_qual[dyn]) if dyn and dyn in self.p.class_by_qual else self.p.mro(cls)
        if cls in mro:
            mro = mro[mro.index(cls) + 1:]
        else:
            mro = self.p.mro(cls)[1:]
        for c in mro:
            if f.attr in c.methods:
                return recv, c.methods[f.attr]
        return recv, None

    def apply(self, fn, args, kw, st, node):
        if fn[0] == "partial":
            have = {k for k, _ in kw}
            return self.apply(fn[1], list(fn[2]) + list(args), [x for x in fn[3] if x[0] not in have] + list(kw), st, node)
        if fn[0] == "lam":
            return self.call_lam(fn[1], args, kw, st, node)
        o = self.obj(fn, st)
        if o is not None and o.kind == "func":
            return self.call_lam(o.args[1], args, kw, st, node)
        if o is not None and o.kind == "inst":
            f = self.p.find_method(self.p.class_by_qual[o.cls], "__call__") if o.cls in self.p.class_by_qual else None
            if f:
                return self.callf(f, [fn] + args, kw, st, node)
        if fn[0] == "bound":
            return self.callf(self.p.func_by_qual[fn[1]], [fn[2]] + args, kw, st, node)
        if fn[0] == "g":
            q = fn[1]
            if q in self.p.func_by_qual:
                return self.callf(self.p.func_by_qual[q], args, kw, st, node)
            if q in self.p.class_by_qual:
                return self.construct(self.p.class_by_qual[q], args, kw, st, node)
            if q.startswith("builtins."):
                return self.builtin(q[9:], args, kw, st, node)
            return self.library(q, args, kw, st, node)
        if fn[0] == "ite":
            a = self.apply(fn[2], args, kw, st, node)
            b = self.apply(fn[3], args, kw, st, node)
            return mk_ite(fn[1], a, b)
        return self.external(fn, args, kw, st, node)

    def call_lam(self, i, args, kw, st, node):
        params, body, env, mod, cls = self.lams[i]
        if isinstance(body, Func):
            f = body
            # names are looked up when the function is called, not when it is defined
            fid = env.loc.get("__frame__")
            if fid is not None:
                if st.loc.get("__frame__") == fid:
                    self.frames[fid] = dict(st.loc)
                if fid in self.frames:
                    env = env.copy()
                    env.loc = self.frames[fid]
            va = f.node.args.vararg
            if va and len(args) == 1 and args[0][0] == "star" and not f.params and not kw:
                ns = st.copy()
                ns.loc = dict(env.loc)
                ns.loc[va.arg] = args[0][1]
                v, s2 = self.run(f, ns, node)
                self.adopt(st, s2)
                return v
            if len(self.stack) > self.maxdepth or f in self.stack or any(a[0] == "star" for a in args):
                return self.external(("lamfn", i), args, kw, st, node)
            ns = st.copy()
            loc = dict(env.loc)
            ns.loc = loc
            if not self.bind(f, args, kw, ns, st, node):
                return self.external(("lamfn", i), args, kw, st, node)
            v, s2 = self.run(f, ns, node)
            self.adopt(st, s2)
            return v
        s2 = st.copy()
        s2.loc = dict(env.loc)
        for k, v in self.lams.get(("defaults", i), {}).items():
            s2.loc[k] = v
        va = self.lams.get(("vararg", i))
        if va:
            rest = args[len(params):]
            s2.loc[va] = rest[0][1] if len(rest) == 1 and rest[0][0] == "star" else ("tuple", tuple(rest))
        for n, v in zip(params, args):
            s2.loc[n] = v
        for k, v in kw:
            s2.loc[k] = v
        v = self.ev(body, s2)
        loc = st.loc
        self.adopt(st, s2, keep_loc=True)
        return v

    def adopt(self, st, s2, keep_loc=True):
        if s2 is None:
            st.cond = F
            return
        st.heap, st.ext, st.ver, st.cver, st.cond = s2.heap, s2.ext, s2.ver, s2.cver, s2.cond

    def bind(self, f, args, kw, ns, st, node):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        handed = None
        if a.vararg and len(args) == len(pos) + 1 and args[-1][0] == "star" and not any(x[0] == "star" for x in args[:-1]):
            # all further arguments are handed on
            handed, args = args[-1][1], args[:-1]
        if any(x[0] == "star" for x in args):
            return False
        bound = {}
        for n, v in zip(pos, args):
            bound[n] = v
        rest = args[len(pos):]
        if handed is not None:
            bound[a.vararg.arg] = handed
        elif a.vararg:
            bound[a.vararg.arg] = ("tuple", tuple(rest))
        elif rest:
            return False
        extra = []
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw:
            if k in names:
                bound[k] = v
            else:
                extra.append((k, v))
        if a.kwarg:
            star = [v for k, v in extra if k == "**"]
            rest_kw = [(k, v) for k, v in extra if k != "**"]
            if len(star) == 1 and not rest_kw:
                bound[a.kwarg.arg] = ("dictof", self.snap(star[0], st)) if self.obj(star[0], st) is not None else star[0]
            else:
                r = self.new(ns, Obj("dict"))
                for k, v in rest_kw:
                    self.emit(r, ("kv", const(k), v), ns)
                for v in star:
                    self.emit(r, ("upd", v), ns)
                bound[a.kwarg.arg] = r
        elif extra:
            return False
        dfl = {}
        for x, d in zip(reversed(a.posonlyargs + a.args), reversed(a.defaults)):
            dfl[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dfl[x.arg] = d
        for n in names:
            if n not in bound:
                if n in dfl:
                    d = dfl[n]
                    if isinstance(d, (ast.Dict, ast.List, ast.Set, ast.Call)):
                        bound[n] = ("dflt", f.qual, n)
                    else:
                        om, self.mod = self.mod, f.module
                        bound[n] = self.ev(d, ns)
                        self.mod = om
                else:
                    bound[n] = ("missing", n)
        ns.loc.update(bound)
        # a known class for an annotated parameter
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            c = self.ann_class(x.annotation, f.module)
            v = bound.get(x.arg)
            if c and v is not None and v[0] not in ("ref", "c") and v not in self.types and self.typeof(v, st) is None:
                self.types[v] = c
        return True

    def is_opaque(self, f):
        if f.qual in self.opaque or f.qual[len("causalnex."):] in self.opaque or f.name in self.opaque:
            return True
        if f.cls and f"{f.cls.name}.{f.name}" in self.opaque:
            return True
        if self.inline is not None and not self.inline(f):
            return True
        return False

    def callf(self, f, args, kw, st, node, prop=None):
        self.calls_seen += 1
        if self.is_opaque(f) or f.is_abstract or f.cached or len(self.stack) > self.maxdepth or f in self.stack:
            if prop is not None or f.is_property:
                return ("a", args[0], f.name, st.ver.get(f.name, 0)) if args else NONE
            return self.opaque_call(f, args, kw, st, node)
        ns = st.copy()
        ns.loc = {}
        if f.is_class:
            args = args
        if not self.bind(f, args, kw, ns, st, node):
            return self.opaque_call(f, args, kw, st, node)
        pos = f.params
        if f.cls is not None and pos and not f.is_static and args:
            if self.typeof(args[0], st) is None:
                self.types[args[0]] = f.cls.qual
        v, s2 = self.run(f, ns, node)
        self.adopt(st, s2)
        return v

    def opaque_call(self, f, args, kw, st, node):
        names = f.params
        b = [(n, v) for n, v in zip(names, args)] if not any(a[0] == "star" for a in args) else \
            [("*", a) for a in args]
        for k, v in kw:
            b.append((k, v))
        order = {n: i for i, n in enumerate(names)}
        b.sort(key=lambda kv: (order.get(kv[0], 99), kv[0]))
        t = ("call", ("g", f.qual), (), tuple((k, self.snap(v, st)) for k, v in b))
        self.event(st, "call", node, fn=("g", f.qual), args=dict(b), term=t, name=f.name, func=f)
        return t

    def construct(self, cls, args, kw, st, node):
        init = self.p.find_method(cls, "__init__")
        sn = tuple(self.snap(a, st) for a in args) + tuple((k, self.snap(v, st)) for k, v in kw)
        is_exc = any(b[0] in ("lib", "builtin") and (b[1].endswith("Exception") or b[1].endswith("Error") or b[1].endswith("Warning"))
                     for c in self.p.mro(cls) for b in self.p.bases(c))
        if is_exc:
            return ("new", cls.qual, sn)
        if init is not None and kw and not any(a[0] == "star" for a in args) and not init.node.args.vararg:
            # arguments by name that fill the next places
            named, more = dict(kw), []
            for n in init.params[1 + len(args):]:
                if n not in named:
                    break
                more.append(self.snap(named.pop(n), st))
            sn = tuple(self.snap(a, st) for a in args) + tuple(more) + tuple((k, self.snap(v, st)) for k, v in kw if k in named)
        ref = self.new(st, Obj("inst", cls=cls.qual, args=sn))
        e = self.event(st, "construct", node, cls=cls.qual, args=args, kw=kw, ref=ref)
        if init is not None:
            if self.is_opaque(init) or len(self.stack) > self.maxdepth or init in self.stack:
                self.event(st, "call", node, fn=("g", init.qual), args=dict(zip(init.params[1:], args)) | dict(kw),
                           term=ref, name="__init__", func=init)
                return ref
            self.callf(init, [ref] + args, kw, st, node)
        return ref

    # ------------------------------------------------------------------ library
    def external(self, fn, args, kw, st, node, recv=None):
        sargs = tuple(self.snap(a, st) for a in args)
        skw = tuple(sorted((k, self.snap(v, st)) for k, v in kw))
        fs = self.snap(fn, st)
        t = ("call", fs, sargs, skw)
        more = {}
        if fs == ("g", "scipy.optimize.minimize") and not self.quiet:
            named = dict(kw)
            fun = named.get("fun", args[0] if args else None)
            jac = named.get("jac", args[4] if len(args) > 4 else None)
            ex = named.get("args", args[2] if len(args) > 2 else None)
            more = {k: self.callback_run(f, st, node, ex) for k, f in (("fun", fun), ("jac", jac)) if f is not None}
        self.event(st, "call", node, fn=fs, args=dict(enumerate(args)) | dict(kw), term=t,
                   name=fs[1].split(".")[-1] if fs[0] == "g" else "?", func=None, rawargs=args, rawkw=kw, **more)
        return t

    def library(self, q, args, kw, st, node):
        if q.startswith("logging.") or q == "builtins.print":
            return NONE
        if q == "functools.partial" and args and not any(a[0] == "star" for a in args):
            return ("partial", args[0], tuple(args[1:]), tuple(kw))
        if q == "collections.defaultdict":
            r = self.new(st, Obj("dict", factory=args[0] if args else NONE))
            return r
        if q in ("collections.OrderedDict",):
            return self.builtin("dict", args, kw, st, node)
        if q == "collections.deque":
            return self.conv("list", args, st)
        if q == "itertools.chain.from_iterable" and len(args) == 1:
            r = self.new(st, Obj("gen"))
            for ctx, v in self.iterate(args[0], st):
                for c2, v2 in self.iterate(v, st):
                    o = st.heap[r[1]]
                    st.heap[r[1]] = replace(o, ems=o.ems + ((ctx + c2, ("x", v2)),))
            return r
        if q == "itertools.chain" and not any(a[0] == "star" for a in args):
            r = self.new(st, Obj("gen"))
            for a in args:
                self.extend(r, a, st, node)
            return r
        if q == "copy.copy" and args:
            o = self.obj(args[0], st)
            if o is not None:
                return self.new(st, o)
        if q == "copy.deepcopy" and args:
            o = self.obj(args[0], st)
            if o is not None and o.kind != "inst" and o.kind != "func":
                return self.new(st, o)
        if q == "math.prod" and args:
            return self.reduce("*", const(1), args[0], st)
        if q == "functools.reduce" and len(args) >= 2:
            br = self.iterate(args[1], st)
            if len(br) == 1 and len(args) == 3 and br[0][0]:
                lv = ("lv", -1, "acc")
                v = self.apply(args[0], [lv, br[0][1]], [], st, node)
                d = self.delta(lv, v)
                if d:
                    return ("red", d[0][1], args[2], tuple(("em", br[0][0] + x[0], x[2]) for x in d))
        if q == "operator.itemgetter" and len(args) == 1:
            i = self.fresh()
            return ("itemgetter", args[0])
        if q == "heapq.heappush" and len(args) == 2:
            o = self.obj(args[0], st)
            if o is not None:
                self.emit(args[0], ("heap", args[1]), st)
                return NONE
        return self.external(("g", q), args, kw, st, node)

    def reduce(self, op, init, it, st):
        o = self.obj(it, st)
        if o is not None and o.base is None and all(i[0] == "x" for c, i in o.ems):
            return ("red", op, init, tuple(("em", self.snap(c, st), self.snap(i[1], st)) for c, i in o.ems))
        br = self.iterate(it, st)
        return ("red", op, init, tuple(("em", self.snap(c, st), self.snap(v, st)) for c, v in br))

    def conv(self, kind, args, st):
        r = self.new(st, Obj(kind))
        if args:
            a = args[0]
            o = self.obj(a, st)
            if o is not None and o.kind in LISTLIKE and o.base is None:
                st.heap[r[1]] = replace(st.heap[r[1]], ems=o.ems)
            elif o is not None and o.kind in LISTLIKE:
                st.heap[r[1]] = replace(st.heap[r[1]], ems=o.ems, base=o.base)
            else:
                self.extend(r, a, st, None)
        return r

    def builtin(self, n, args, kw, st, node):
        if n in ("list", "set", "frozenset", "tuple") and not kw:
            if n == "tuple" and args and args[0][0] == "tuple":
                return args[0]
            if n == "tuple" and args:
                o = self.obj(args[0], st)
                if o is not None and o.base is None and o.kind in ("list", "tuple") and \
                        all(c == () and i[0] == "x" for c, i in o.ems):
                    return ("tuple", tuple(i[1] for c, i in o.ems))
            return self.conv(n if n != "frozenset" else "set", args, st)
        if n == "dict":
            r = self.new(st, Obj("dict"))
            if args:
                o = self.obj(args[0], st)
                if o is not None:
                    if o.kind == "dict":
                        st.heap[r[1]] = replace(st.heap[r[1]], ems=o.ems, base=o.base)
                    else:
                        self.dict_update(r, args[0], st, node)
                elif args[0][0] == "call" and args[0][1] in (("g", "builtins.zip"), ("g", "builtins.enumerate")):
                    for ctx, v in self.iterate(args[0], st):
                        ob = st.heap[r[1]]
                        st.heap[r[1]] = replace(ob, ems=ob.ems + ((ctx, ("kv", self.index(v, const(0), st),
                                                                         self.index(v, const(1), st))),))
                elif args[0][0] == "m" and args[0][2] == "items":
                    st.heap[r[1]] = replace(st.heap[r[1]], base=("dictof", self.snap(args[0][1], st)))
                else:
                    st.heap[r[1]] = replace(st.heap[r[1]], base=("dictof", self.snap(args[0], st)))
            for k, v in kw:
                if k == "**":
                    self.dict_update(r, v, st, node)
                else:
                    self.emit(r, ("kv", const(k), v), st)
            return r
        if n == "dict.fromkeys" and args and not kw and (len(args) == 1 or self.obj(args[1], st) is None):
            r = self.new(st, Obj("dict"))
            for ctx, x in self.iterate(args[0], st):
                o = st.heap[r[1]]
                st.heap[r[1]] = replace(o, ems=o.ems + ((ctx, ("kv", x, args[1] if len(args) > 1 else NONE)),))
            return r
        if n == "sorted" and args:
            key = dict(kw).get("key", NONE)
            rev = dict(kw).get("reverse", F)
            what = self.snap(args[0], st)
            if what[0] == "seq" and what[1] == "gen":
                what = ("seq", "list") + what[2:]
            return ("sorted", what, self.snap(key, st), rev)
        if n == "len" and args:
            a = args[0]
            o = self.obj(a, st)
            if o is not None and o.base is None and o.kind in ("list", "tuple") and \
                    all(c == () and i[0] == "x" for c, i in o.ems):
                return const(len(o.ems))
            if a[0] == "tuple":
                return const(len(a[1]))
            return ("call", ("g", "builtins.len"), (self.snap(a, st),), ())
        if n in ("any", "all") and args:
            fs = []
            o = self.obj(args[0], st)
            if o is not None and o.base is None and o.kind in LISTLIKE and all(i[0] == "x" for c, i in o.ems):
                brs = [(c, i[1]) for c, i in o.ems]
            else:
                brs = self.iterate(args[0], st)
            for c, v in brs:
                t = self.truth(v, st)
                if n == "any":
                    fs.append(self.exists(c, t, st) if c else t)
                else:
                    fs.append(mk_not(self.exists(c, mk_not(t), st)) if c else t)
            return mk_or(*fs) if n == "any" else mk_and(*fs)
        if n == "sum" and args:
            return self.reduce("+", args[1] if len(args) > 1 else const(0), args[0], st)
        if n == "isinstance" and len(args) == 2:
            x, c = self.snap(args[0], st), args[1]
            cs = c[1] if c[0] == "tuple" else (c,)
            fs = []
            for k in cs:
                o = self.obj(args[0], st)
                tag = {"builtins.list": "list", "builtins.dict": "dict", "builtins.set": "set",
                       "builtins.tuple": "tuple"}.get(k[1] if k[0] == "g" else "")
                if o is not None and o.kind in ("list", "dict", "set", "tuple") and tag:
                    fs.append(T if o.kind == tag else F)
                elif args[0][0] == "tuple" and tag:
                    fs.append(T if tag == "tuple" else F)
                elif is_const(args[0]) and k[0] == "g" and k[1].startswith("builtins."):
                    import builtins
                    try:
                        fs.append(T if isinstance(args[0][1], getattr(builtins, k[1][9:])) else F)
                    except Exception:
                        fs.append(("isinstance", x, k))
                else:
                    fs.append(("isinstance", x, k))
            return mk_or(*fs)
        if n == "issubclass":
            return ("call", ("g", "builtins.issubclass"), tuple(self.snap(a, st) for a in args), ())
        if n == "bool" and args:
            return self.truth(args[0], st)
        if n == "str" and len(args) == 1:
            return self.fmt(self.parts(self.snap(args[0], st)))
        if n == "hasattr" and len(args) == 2:
            return ("hasattr", self.snap(args[0], st), args[1])
        if n == "getattr" and len(args) >= 2 and is_const(args[1]) and isinstance(args[1][1], str):
            v = self.getattr(args[0], args[1][1], st, node)
            if len(args) == 3:
                return ("getattr", v, self.snap(args[2], st))
            return v
        if n == "setattr" and len(args) == 3:
            if is_const(args[1]):
                self.setattr(args[0], args[1][1], args[2], st, node)
            else:
                self.event(st, "setattr", node, obj=args[0], attr="*", value=args[2], old=None)
            return NONE
        if n in ("enumerate", "zip", "map", "filter", "iter", "range", "reversed"):
            return ("call", ("g", f"builtins.{n}"), tuple(args), tuple(kw))
        if n == "next" and args:
            a = args[0]
            if a[0] == "call" and a[1] == ("g", "builtins.iter"):
                return self.index(self.conv("list", [a[2][0]], st), const(0), st)
            br = self.iterate(a, st)
            if len(br) == 1 and br[0][0]:
                ctx, v = br[0]
                fctx = tuple(e for e in ctx)
                if len(args) == 1 and fctx[0][0] == "for" and len(fctx[0]) == 3 and all(e[0] == "if" for e in fctx[1:]) and fctx[1:]:
                    c = self.snap(mk_and(*[e[1] for e in fctx[1:]]), st)
                    return ("first", (("for", fctx[0][1], self.snap(fctx[0][2], st), c),), c, self.snap(v, st))
                return ("first", fctx, T, self.snap(v, st)) if len(args) == 1 else \
                    ("firstor", fctx, self.snap(v, st), self.snap(args[1], st))
        if n in ("print",):
            return NONE
        if n in ("ValueError", "KeyError", "TypeError", "RuntimeError", "Exception", "NotImplementedError",
                 "IndexError", "AttributeError", "ImportError", "UserWarning", "AssertionError", "Warning"):
            return ("call", ("g", f"builtins.{n}"), tuple(self.snap(a, st) for a in args), ())
        if n in ("int", "float") and len(args) == 1 and not kw:
            if args[0] in (T, F) or n == "int" and is_bool(args[0]):
                one, zero = (const(1), const(0)) if n == "int" else (const(1.0), const(0.0))
                return mk_ite(args[0], one, zero)
            if args[0][0] == "c" and args[0][2] in ("int", "float") and abs(args[0][1]) < 1e15:
                return const(int(args[0][1]) if n == "int" else float(args[0][1]))
        if n in ("max", "min", "abs", "round", "float", "int", "type", "id", "hash", "repr", "callable", "divmod", "pow",
                 "slice", "object", "vars", "dir", "ord", "chr", "super", "format"):
            return ("call", ("g", f"builtins.{n}"), tuple(self.snap(a, st) for a in args),
                    tuple(sorted((k, self.snap(v, st)) for k, v in kw)))
        return self.external(("g", f"builtins.{n}"), args, kw, st, node)

    # ------------------------------------------------------------------ methods
    def method(self, recv, name, args, kw, st, node):
        if recv[0] == "g":
            g = self.gattr(recv, name)
            return self.apply(g, args, kw, st, node)
        if recv[0] == "bound":
            pass
        o = self.obj(recv, st)
        if o is not None and o.kind in ("list", "set", "dict", "tuple", "gen"):
            r = self.container_method(recv, o, name, args, kw, st, node)
            if r is not NotImplemented:
                return r
            return self.ext_method(recv, name, args, kw, st, node)
        if o is not None and o.kind == "inst":
            v = o.attr(name)
            if v is not None:
                return self.apply(v, args, kw, st, node)
        if is_const(recv) and isinstance(recv[1], str) and name == "format":
            return self.format_call(recv[1], args, kw, st)
        if is_const(recv) and isinstance(recv[1], str) and name == "join" and args:
            return ("fmt", (("join", recv, self.snap(args[0], st)),))
        if (recv, name) in st.ext:
            return self.apply(st.ext[(recv, name)], args, kw, st, node)
        cls = self.typeof(recv, st)
        if cls and cls in self.p.class_by_qual:
            f = self.p.find_method(self.p.class_by_qual[cls], name)
            if f and not f.is_property:
                a = args if f.is_static else [recv] + args
                return self.callf(f, a, kw, st, node)
            if f and f.is_property:
                return self.apply(self.callf(f, [recv], [], st, node, prop=name), args, kw, st, node)
        elif name not in CONTAINER_METHODS and o is None and recv[0] != "ite" and not (
                recv[0] == "call" and recv[1][0] == "g" and not recv[1][1].startswith("causalnex.")):
            cands = [f for f in self.p.method_index.get(name, []) if not f.is_property]
            if len(cands) == 1 and not cands[0].name.startswith("__") and not self.library_attr(recv):
                f = cands[0]
                return self.callf(f, ([] if f.is_static else [recv]) + args, kw, st, node)
        if recv[0] == "ite" and name not in MUTATORS and not (name in ("items", "keys", "values") and not args):
            return mk_ite(recv[1], self.method(recv[2], name, args, kw, st, node),
                          self.method(recv[3], name, args, kw, st, node))
        return self.ext_method(recv, name, args, kw, st, node)

    def callback_run(self, fn, st, node, ex=None):
        """(value, writes into arrays) of a function the library calls with one array"""
        o = self.obj(fn, st)
        if not (fn[0] == "lam" or (o is not None and o.kind == "func") or fn[0] in ("bound", "partial") or
                (fn[0] == "g" and fn[1] in self.p.func_by_qual)):
            return None
        extra = []
        if ex is not None and ex != NONE:
            eo = self.obj(ex, st)
            if ex[0] == "tuple":
                extra = list(ex[1])
            elif eo is not None and eo.base is None and all(c == () and i[0] == "x" for c, i in eo.ems):
                extra = [i[1] for c, i in eo.ems]
            else:
                extra = [ex]
        old = len(self.events)
        prefix, self.prefix = self.prefix, ()
        try:
            s = st.copy()
            s.cond = T
            v = self.snap(self.apply(fn, [("lp", 0)] + extra, [], s, node), s)
            writes = [(e.kind, e.ctx, {k: self.snap(x, s) if isinstance(x, tuple) else x for k, x in e.data.items()}, e.where)
                      for e in self.events[old:] if e.kind in ("setitem", "aug", "mut", "setattr", "raise", "opaque", "mcall", "call")]
        finally:
            self.prefix = prefix
            del self.events[old:]
        return ("cb", v, writes)

    def callback_term(self, fn, st, node, extra=()):
        """a function that the library calls with one value, as a term over that value"""
        o = self.obj(fn, st)
        if not (fn[0] == "lam" or (o is not None and o.kind == "func") or fn[0] in ("bound", "partial") or
                (fn[0] == "g" and fn[1] in self.p.func_by_qual)):
            return None
        self.quiet += 1
        old = len(self.events)
        try:
            s = st.copy()
            v = self.apply(fn, [("lp", 0)] + list(extra), [], s, node)
            v = self.snap(v, s)
        finally:
            self.quiet -= 1
            del self.events[old:]
        if contains(v, lambda x: x[0] in ("lamfn", "missing", "undef")):
            return None
        return ("lambda", 1, v)

    def library_attr(self, recv):
        """an attribute that some class fills with the result of a library call"""
        if recv[0] != "a":
            return False
        k = self.p.__dict__.setdefault("_libattrs", None)
        if k is None:
            k = set()
            for c in self.p.class_by_qual.values():
                for f in list(c.methods.values()) + list(c.setters.values()):
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and \
                                isinstance(n.targets[0], ast.Attribute):
                            fn = n.value.func
                            while isinstance(fn, ast.Attribute):
                                fn = fn.value
                            if isinstance(fn, ast.Name):
                                g = f.module.imports.get(fn.id) if hasattr(f.module, "imports") else None
                                g = g if isinstance(g, str) else (g[1] if isinstance(g, tuple) and len(g) > 1 else None)
                                if g and not str(g).startswith("causalnex"):
                                    k.add(n.targets[0].attr)
            self.p._libattrs = k
        return recv[2] in k

    def ext_method(self, recv, name, args, kw, st, node):
        srecv = self.snap(recv, st)
        sargs = tuple(self.snap(a, st) for a in args)
        skw = tuple(sorted((k, self.snap(v, st)) for k, v in kw))
        if name in ("items", "keys", "values") and not args:
            return ("m", recv, name, (), ())
        if name == "copy" and not args and not kw and recv in self.pkinds:
            return self.builtin(self.pkinds[recv], [recv], [], st, node)
        if name == "get" and args and not kw:
            return ("get", srecv, sargs[0], sargs[1] if len(args) > 1 else NONE)
        if name == "issuperset" and len(args) == 1:
            return self.subset(args[0], recv, st)
        if name == "issubset" and len(args) == 1:
            return self.subset(recv, args[0], st)
        if name in ("union", "intersection", "difference") and len(args) == 1:
            return self.setop(name, recv, args[0], st)
        if name == "isdisjoint" and len(args) == 1:
            return mk_not(self.setop("intersection", recv, args[0], st))
        if name == "format" and recv[0] == "fmt":
            return ("fmt", recv[1] + sargs)
        if name in CALLBACK_METHODS and args:
            more = [v for k, v in kw if k == "args"]
            ex = self.obj(more[0], st) if more else None
            extra = list(more[0][1]) if more and more[0][0] == "tuple" else (
                [i[1] for c, i in ex.ems] if ex is not None and ex.kind in ("tuple", "list") and ex.base is None and
                all(c == () and i[0] == "x" for c, i in ex.ems) else [])
            if not more or extra:
                cb = self.callback_term(args[0], st, node, extra)
                if cb is not None:
                    sargs = (cb,) + sargs[1:]
                    skw = tuple(x for x in skw if x[0] != "args")
        t = ("m", srecv, name, sargs, skw)
        inplace = any(k == "inplace" and v != F for k, v in kw)
        mut = name in MUTATORS or inplace or (name.endswith("_") and not name.startswith("_"))
        if mut:
            self.event(st, "mut", node, obj=recv, method=name, args=args, kw=kw, term=t)
            st.cver[recv] = st.cver.get(recv, 0) + 1
            t = t + (st.cver[recv],)
        self.event(st, "mcall", node, obj=recv, name=name, args=args, kw=kw, term=t)
        return t

    pkinds = {}

    def container_method(self, ref, o, name, args, kw, st, node):
        k = o.kind
        put = lambda item: st.heap.__setitem__(ref[1], replace(o, ems=o.ems + (((), item),)))
        if k in ("list", "gen", "tuple"):
            if name == "append" and args:
                put(("x", args[0]))
                return NONE
            if name == "extend" and args:
                self.extend(ref, args[0], st, node)
                return NONE
            if name == "insert" and len(args) == 2:
                put(("ins", args[0], args[1]))
                return NONE
            if name in ("remove",):
                put(("rm", args[0]))
                return NONE
            if name == "pop":
                v = ("pop", self.snap(ref, st), args[0] if args else const(-1))
                put(("popped", args[0] if args else const(-1)))
                return v
            if name == "clear":
                st.heap[ref[1]] = replace(o, ems=(), base=None)
                return NONE
            if name == "sort":
                sn = self.snap(ref, st)
                st.heap[ref[1]] = replace(o, ems=(), base=("sorted", sn, self.snap(dict(kw).get("key", NONE), st),
                                                           dict(kw).get("reverse", F)))
                return NONE
            if name == "reverse":
                sn = self.snap(ref, st)
                st.heap[ref[1]] = replace(o, ems=(), base=("reversed", sn))
                return NONE
            if name == "copy":
                return self.new(st, o)
            return NotImplemented
        if k == "set":
            if name == "add" and args:
                put(("x", args[0]))
                return NONE
            if name == "update":
                for a in args:
                    self.extend(ref, a, st, node)
                return NONE
            if name in ("remove", "discard"):
                put(("rm", args[0]))
                return NONE
            if name == "pop":
                put(("popped", NONE))
                return ("pop", self.snap(ref, st), NONE)
            if name == "clear":
                st.heap[ref[1]] = replace(o, ems=(), base=None)
                return NONE
            if name == "copy":
                return self.new(st, o)
            return NotImplemented
        if k == "dict":
            if name in ("items", "keys", "values") and not args:
                return ("m", ref, name, (), ())
            if name == "get" and args:
                d = args[1] if len(args) > 1 else NONE
                v = self.index(ref, args[0], st)
                if v[0] == "i" or contains(v, lambda t: t[0] == "seq"):
                    return ("get", self.snap(ref, st), self.snap(args[0], st), self.snap(d, st))
                if any(c == () and i[0] == "kv" and i[1] == args[0] for c, i in o.ems):
                    return v
                return ("get", self.snap(ref, st), self.snap(args[0], st), self.snap(d, st))
            if name == "setdefault" and args:
                d = args[1] if len(args) > 1 else NONE
                return ("setdef", ref, args[0], d)
            if name == "update":
                for a in args:
                    self.dict_update(ref, a, st, node)
                for kk, v in kw:
                    self.emit(ref, ("kv", const(kk), v), st)
                return NONE
            if name == "pop":
                v = self.index(ref, args[0], st)
                put(("del", args[0]))
                return v
            if name == "copy":
                return self.new(st, o)
            if name == "clear":
                st.heap[ref[1]] = replace(o, ems=(), base=None)
                return NONE
            return NotImplemented
        return NotImplemented


class _Fake(ast.stmt):
    _fields = ()

    def __init__(self, run):
        super().__init__()
        self.run = run


class _NoElse:
    orelse = None
