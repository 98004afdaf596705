"""Distribution types of columns, the neural network that learns a structure from them, and its training."""
import ast

from rules.generators import carried, handed
from sa.conform import (distinct, event_forms, match_events, method, near, novel, raises_like, same_cases, sn, term_like, untouched)
from sa.rule import NONE, P, alpha, imprecise, nctx, norm, show
from sa.terms import F, T, const, contains, mk_ite, mk_not, subst, walk

DT = "structure.pytorch.dist_type."
CORE = "structure.pytorch.core.NotearsMLP."
LC = "structure.pytorch.nonlinear.LocallyConnected."
G = lambda n: ("g", n)
SELF = P("self")
ZERO, ONE = const(0), const(1)
OTHER = ("numpy.max", "numpy.min", "numpy.prod", "numpy.median", "torch.max", "torch.min", "torch.prod", "torch.median", "tanh", "relu", "abs", "exp", "log", "sigmoid",
         "softmax", "mean", "sum", "cumsum", "argmax", "argmin", "max", "min", "prod", "T", "round", "softplus", "log_softmax", "triu", "tril", "trace", "diag", "clamp",
         "combinations", "itertools.combinations", "torch.nn.functional.mse_loss", "torch.nn.functional.l1_loss", "torch.nn.functional.binary_cross_entropy",
         "torch.nn.functional.nll_loss", "torch.nn.functional.cross_entropy", "torch.ones", "numpy.ones", "fill_", "zero_", "fit_transform", "sqrt", "square")
# functions that are methods of their first argument too
ALIKE = {"abs", "sum", "mean", "exp", "log", "sigmoid", "softmax", "argmax", "unsqueeze", "squeeze", "gather", "matmul", "tanh", "transpose", "cumsum", "flatten", "clamp",
         "clone", "any", "all", "max", "min", "view", "reshape", "repeat", "mul", "pow", "sqrt", "square", "detach", "trace"}
DIMS = {"sum": "dim", "mean": "dim", "softmax": "dim", "argmax": "dim", "unsqueeze": "dim", "squeeze": "dim", "cumsum": "dim", "max": "dim", "min": "dim"}
LOSS = {"torch.nn.functional.binary_cross_entropy_with_logits": ("input", "target"), "torch.nn.functional.cross_entropy": ("input", "target"),
        "torch.nn.functional.poisson_nll_loss": ("input", "target", "log_input", "full"), "torch.nn.LayerNorm": ("normalized_shape", "eps", "elementwise_affine"),
        "torch.nn.Linear": ("in_features", "out_features", "bias"), "torch.nn.init.uniform_": ("tensor", "a", "b"), "torch.cat": ("tensors", "dim"),
        "torch.autograd.grad": ("outputs", "inputs"), "torch.matrix_power": ("input", "n"), "torch.as_tensor": ("data",), "torch.zeros": ("size",),
        "networkx.set_node_attributes": ("G", "values", "name"), "networkx.set_edge_attributes": ("G", "values", "name")}
USUAL = {"reduction": const("mean"), "log_input": const(True), "full": const(False), "elementwise_affine": const(True), "categories": const("auto"), "drop": NONE,
         "requires_grad": const(False), "dim": None}


FORWARD = "causalnex." + CORE + "forward"
PARAMS = ("m", SELF, "parameters", (), ())
OWN = ("i", ("i", ("a", ("call", G("torch.optim.Optimizer"), (PARAMS, ("seq", "dict", ())), ()), "param_groups"), ZERO), const("params"))


def words(x):
    """one spelling of torch, numpy and arithmetic"""
    f = words
    if x[0] == "g" and isinstance(x[1], str) and x[1].startswith("?."):
        return G(x[1][2:])
    if x[0] == "call" and x[1][0] == "g":
        if x[1][1].startswith("?."):
            x = ("call", G(x[1][1][2:])) + x[2:]
        n, args, kw = x[1][1], [subst(y, f) for y in x[2]], {k: subst(v, f) for k, v in x[3]}
        last = n.split(".")[-1]
        if n.startswith(("torch.", "numpy.")) and last in ALIKE and (args or "input" in kw or "a" in kw):
            o = args[0] if args else kw.pop("input", None) or kw.pop("a")
            return mcall(o, last, args[1:], kw)
        if n in LOSS:
            kw.update(zip(LOSS[n], args))
            args = args[len(LOSS[n]):]
        if n == "torch.cat" and kw.get("dim") == ZERO:
            del kw["dim"]
        kw = {k: v for k, v in kw.items() if not (k in USUAL and v == USUAL[k])}
        if n in ("builtins.float", "builtins.int") and len(args) == 1 and args[0][0] == "c":
            return args[0]
        if n == "builtins.len" and len(args) == 1 and args[0][0] == "a" and args[0][2] == "shape":
            return ("a", args[0][1], "ndim")
        if n in ("builtins.max", "builtins.min") and len(args) == 1 and not kw:
            return mcall(args[0], last, [], {})
        if n in ("numpy.copy", "numpy.array", "copy.copy") and len(args) == 1 and not kw:
            return ("call", G("copy.deepcopy"), tuple(args), ())
        if n == FORWARD and set(kw) == {"self", "x"}:
            return ("call", kw["self"], (kw["x"],), ())
        if n in ("numpy.hstack", "numpy.column_stack") or n == "numpy.concatenate" and kw.get("axis") in (ONE, const(-1)):
            return ("beside", parts(args[0]))
        return ("call", x[1], tuple(args), tuple(sorted(kw.items())))
    if x[0] == "m":
        o, args, kw = subst(x[1], f), [subst(y, f) for y in x[3]], {k: subst(v, f) for k, v in x[4]}
        return mcall(o, x[2], args, kw)
    if x[0] == "a":
        o = subst(x[1], f)
        if x[2] == "T":
            return transposed(o)
        return ("a", o) + x[2:]
    if x[0] == "for" and len(x) == 3 and x[2][0] == "call" and x[2][1] == G("copy.deepcopy") and len(x[2][2]) == 1:
        return ("for", x[1], subst(x[2][2][0], f))
    if x[0] == "<" and x[1] == ZERO and x[2][0] == "m" and x[2][2] == "sum" and not x[2][3] and not x[2][4] and x[2][1][0] in ("<", "<=", "==", "not"):
        return ("m", subst(x[2][1], f), "any", (), ())
    if x[0] == "seq" and x[1] == "dict":
        return ("seq", "dict", tuple(z for y in x[2] for z in merged(subst(y, f))))
    if x[0] == "i" and x[1][0] == "i" and x[2][0] == "c" and isinstance(x[2][1], int) and x[1][2][0] == "slice" and x[1][2][1] in (NONE, ZERO) and x[1][2][3] in (NONE, ONE) \
            and x[1][2][2][0] == "c" and isinstance(x[1][2][2][1], int) and 0 <= x[2][1] < x[1][2][2][1]:
        return ("i", subst(x[1][1], f), x[2])
    if x[0] == "seq" and x[1] in ("list", "tuple"):
        es = []
        for e in (subst(y, f) for y in x[2]):
            if e[0] == "em" and len(e[1]) == 1 and e[1][0][0] == "for" and e[2] == ("x", ("el", e[1][0][1])) and e[1][0][2][0] == "seq" and e[1][0][2][1] in ("list", "tuple"):
                es += e[1][0][2][2]
            else:
                es.append(e)
        return ("seq", x[1], tuple(es))
    if x[0] == "slice":
        a, b, c = (subst(y, f) for y in x[1:4])
        return ("slice", NONE if a == ZERO else a, b, NONE if c == ONE else c)
    if x[0] == "op":
        a = [subst(y, f) for y in x[2:]]
        o = x[1]
        if o == "@":
            return mcall(a[0], "matmul", a[1:], {})
        if o == "neg":
            return minus(a[0])
        if o == "**" and a[1][0] == "c" and a[1][1] == 2:
            return product([a[0], a[0]], [])
        if o == "//":
            a = [expand(y) for y in a]
        if o in ("*", "/"):
            return product([a[0]], [a[1]]) if o == "/" else product(a, [])
        if o in ("+", "-"):
            return total(a[0], a[1:] if o == "+" else [minus(y) for y in a[1:]])
        return x[:2] + tuple(a)
    if x[0] == "neg":
        return minus(subst(x[1], f))
    if x[0] == "fmt":
        return ("fmt", tuple(z for y in x[1] for z in (lambda w: w[1] if w[0] == "fmt" else (w,))(subst(y, f))))
    if x[0] == "exc" and len(x) == 3 and isinstance(x[1], int):
        return ("exc", x[2])
    if x == OWN or x[0] == "call" and x[1] == G("builtins.list") and x[2] == (PARAMS,):
        return PARAMS
    if x[0] == "i" and x[1][0] == "m" and x[1][2] == "size" and not x[1][3]:
        return ("i", ("a", subst(x[1][1], f), "shape"), subst(x[2], f))
    return None


def expand(t):
    """integer sums of products"""
    if t[0] == "total":
        return total(ZERO, [expand(y) for y in t[1]])
    if t[0] == "neg":
        return minus(expand(t[1]))
    if t[0] == "product" and not t[3]:
        out = [const(t[1])]
        for y in t[2]:
            y = expand(y)
            out = [product([a, b], []) for a in out for b in (y[1] if y[0] == "total" else (y,))]
        return cancel(out)
    return t


def cancel(ts):
    n = []
    for t in ts:
        if minus(t) in n:
            n.remove(minus(t))
        else:
            n.append(t)
    return total(ZERO, n)


def merged(e):
    """one part of a dict: what it is updated with"""
    if e[0] != "em" or e[2][0] not in ("upd", "base"):
        return [e]
    ctx, v = e[1], e[2][1]
    while v[0] == "dictof":
        v = v[1]
    if v[0] == "seq" and v[1] == "dict":
        return [("em", ctx + y[1], y[2]) for y in v[2]]
    if v[0] == "ite" and v[3] == ("seq", "dict", ()):
        return merged(("em", ctx + (("if", v[1]),), ("upd", v[2])))
    if v[0] == "bop" and v[1] == "or" and len(v[2]) == 2 and v[2][1] == ("seq", "dict", ()):
        return merged(("em", ctx + (("if", v[2][0]),), ("upd", v[2][0])))
    return [("em", ctx, ("upd", v))]


def indexed(t):
    """the i-th of values computed for i in a range, asked for by a pass of that range"""
    over = {x[1]: x[2] for x in walk(("_", t)) if x[0] == "for" and len(x) == 3}

    def f(x):
        if x[0] == "i" and x[1][0] == "seq" and x[1][1] == "list" and len(x[1][2]) == 1 and x[2][0] == "el":
            e = x[1][2][0]
            if e[0] == "em" and len(e[1]) == 1 and e[1][0][0] == "for" and e[2][0] == "x" and e[1][0][2][0] == "call" and e[1][0][2][1] == G("builtins.range") and len(e[1][0][2][2]) == 1 \
                    and over.get(x[2][1]) == e[1][0][2]:
                L, to = e[1][0][1], x[2]
                return subst(subst(e[2][1], lambda y: to if y == ("el", L) else None), f)
        return None
    return subst(t, f)


def parts(t):
    if t[0] == "seq" and all(not e[-2] and e[-1][0] == "x" for e in t[2]):
        return ("tuple", tuple(e[-1][1] for e in t[2]))
    return t


def transposed(o):
    return o[1] if o[0] == "t" else ("t", o)


def mcall(o, n, args, kw):
    if "axis" in kw and "dim" not in kw:
        kw["dim"] = kw.pop("axis")
    if n in DIMS and args:
        kw.setdefault(DIMS[n], args[0])
        args = args[1:]
    if n == "gather":
        kw.update(zip(("dim", "index"), args))
        args = []
    if n in ("t",) and not args or n == "transpose" and (not args or sorted(args) == [ZERO, ONE]):
        return transposed(o)
    if n in ("copy", "clone") and not args and not kw:
        return ("call", G("copy.deepcopy"), (o,), ())
    if n in ("sum", "mean") and o[0] == "neg":
        return minus(mcall(o[1], n, args, kw))
    if n in ("sum", "mean") and o[0] == "product" and o[1] != 1.0:
        return product([const(o[1]), mcall(product(o[2], o[3]), n, args, kw)], [])
    if n in ("square",) and not args:
        return product([o, o], [])
    if n == "pow" and args and args[0][0] == "c" and args[0][1] == 2:
        return product([o, o], [])
    if n == "mul" and len(args) == 1:
        return product([o, args[0]], [])
    if n == "item" and not args or n in ("cpu", "detach", "numpy") and not args:
        # reading numbers out of a tensor
        return o if o[0] == "read" else ("read", o)
    if n == "size" and len(args) == 1:
        return ("i", ("a", o, "shape"), args[0])
    if n == "numel" and not args:
        return ("numel", o)
    if n == "type" and len(args) == 1 and args[0] == G("torch.float32") or n == "to" and args == [G("torch.float32")]:
        n, args = "float", []
    if n == "to" and len(args) == 1 and contains(args[0], lambda y: y[0] == "a" and y[2] == "device"):
        # which device numbers live on
        return o
    return ("m", o, n, tuple(args), tuple(sorted(kw.items())))


def minus(y):
    if y[0] == "c" and isinstance(y[1], (int, float)) and not isinstance(y[1], bool):
        return const(-y[1])
    if y[0] == "neg":
        return y[1]
    if y[0] == "total":
        return total(minus(y[1][0]), [minus(z) for z in y[1][1:]])
    if y[0] == "product":
        return ("product", -y[1]) + y[2:]
    return ("neg", y)


def total(a, bs):
    out, n = [], 0
    for y in [a] + list(bs):
        for z in y[1] if y[0] == "total" else (y,):
            if z[0] == "c" and isinstance(z[1], (int, float)) and not isinstance(z[1], bool):
                n += z[1]
            else:
                out.append(z)
    if any(z[0] in ("seq", "tuple", "list", "fmt") or z[0] == "c" for z in out):
        return ("op", "+", a) + tuple(bs)
    if n or not out:
        out.append(const(n))
    return out[0] if len(out) == 1 else ("total", tuple(sorted(out, key=repr)))


def product(ups, downs):
    up, down, k = [], [], 1.0
    work = [(y, True) for y in ups] + [(y, False) for y in downs]
    while work:
        y, on = work.pop()
        if y[0] == "product":
            work += [(z, on) for z in y[2]] + [(z, not on) for z in y[3]]
            k = k * y[1] if on else k / y[1]
        elif y[0] == "neg":
            k = -k
            work.append((y[1], on))
        elif y[0] == "c" and isinstance(y[1], (int, float)) and not isinstance(y[1], bool) and (on or y[1]):
            k = k * y[1] if on else k / y[1]
        else:
            (up if on else down).append(y)
    for side in (up, down):
        for i, y in enumerate(side):
            if y[0] == "total":
                # a sum and its negative: one of them stands for both
                m = minus(y)
                if repr(m) < repr(y):
                    side[i], k = m, -k
    for y in list(up):
        if y in down:
            up.remove(y)
            down.remove(y)
    if not up and not down:
        return const(k)
    if k in (1.0, -1.0) and len(up) == 1 and not down:
        return up[0] if k == 1.0 else minus(up[0])
    return ("product", k, tuple(sorted(up, key=repr)), tuple(sorted(down, key=repr)))


def numbers(x):
    """numbers by their value; comparisons with the number on one side"""
    if x[0] == "c" and isinstance(x[1], float) and x[1] == int(x[1]) if x[0] == "c" and isinstance(x[1], float) and abs(x[1]) < 1e15 else False:
        return const(int(x[1]))
    return None


def form_of(rr):
    k = carried(rr, lambda t: t)
    w = lambda t: subst(subst(subst(t, words), words), numbers)
    return lambda t: subst(flags(w(k(w(t)))), states)


def states(x):
    """what loops hand from pass to pass, and on, is named by now"""
    if x[0] in ("lv", "lvc") and len(x) == 3 and x[1] == 0:
        return ("state", subst(x[2], states))
    if x[0] == "lout" and len(x) == 4:
        return ("after",) + tuple(subst(y, states) for y in x[1:])
    if x[0] == "while" and x[1] == 0:
        return ("again",)
    return None


def flags(t):
    """how often a tensor is cast or moved between devices does not matter"""
    def f(x):
        if x[0] == "call" and dict(x[3]).get("device") is not None:
            return x[:3] + (tuple((k, subst(v, f)) for k, v in x[3] if k != "device"),) if x[1][0] == "g" else None
        return None
    return subst(t, f)


def selected(k, o, e):
    if k == "setattr":
        return o in (SELF, ("self",)) or o[0] != "new"
    return k == "setitem" or k == "mut" and e.data["method"] in ("append", "extend", "insert", "pop", "remove", "update", "clear")


def alike(R, rule, q, text, what, opaque=(), roots=frozenset(), select=selected, ret=True, allowed=lambda e: False):
    """the function returns what the reference returns, makes the changes it makes, and raises where it raises"""
    texts = [text] if isinstance(text, str) else text
    r, ss = method(R, q, texts, opaque=opaque)
    fr = form_of(r)
    value = lambda z: form_of(z)(alpha(indexed(sn(z, z.final(z.ret)))))
    if ret:
        g = value(r)
        ws = [value(s) for s in ss]
        ok = any(g == w or same_cases(g, w) for w in ws)
        nv = bool(novel(g, *ws)) if not ok else False
        sure = not ok and any(near(g, w) for w in ws)
        R.check(ok, rule, r.func.where, f"{what}", f"returns {show(g)[:300]}; required {show(ws[0])[:300]}", unsure=not ok and (nv or imprecise(("_", g)) and not sure))
    got = event_forms(r, select, fr, True)
    wants = [event_forms(s, select, form_of(s), True) for s in ss]
    if got or any(wants):
        match_events(R, rule, r.func.where, got, wants, what + " (what is written)")
    if r.raises() or any(s.raises() for s in ss):
        r.rewrite = fr
        for s in ss:
            s.rewrite = form_of(s)
        raises_like(R, rule, r, ss, what=what)
    if any(i.get("carried") for i in ss[0].interp.loops.values()):
        passes(R, rule, r, ss, what)
    stops = lambda z: [form_of(z)(alpha(sn(z, i["brk"]))) for i in z.interp.loops.values() if i.get("brk") not in (None, F)]
    gb, wb = stops(r), [stops(s) for s in ss]
    if gb or any(wb):
        ok = gb in wb
        R.check(ok, rule, r.func.where, what + " (when it stops)", f"{[show(b)[:200] for b in gb]}; required {[show(b)[:200] for b in wb[0]]}",
                unsure=not ok and (len(gb) != len(wb[0]) or bool(novel(("tuple", tuple(gb)), ("tuple", tuple(wb[0])))) or imprecise(("tuple", tuple(gb)))))
    if roots:
        untouched(R, "read-only", r, roots, f"{'.'.join(q.split('.')[-2:])} changes nothing else", allowed=allowed)
    return r, ss


def passes(R, rule, r, ss, what):
    fr = form_of(r)
    w = lambda z: (lambda t: subst(subst(t, words), words))
    got = handed(r, w(r))
    for s in ss[:1]:
        for k, body in sorted(handed(s, w(s)).items()):
            if k == "collected" or k.startswith("('lvc'") or " 'lvc'" in k:
                # lists that grow are compared as what comes out
                continue
            g = got.get(k)
            body = subst(body, numbers)
            g = subst(g, numbers) if g else g
            R.check(g == body or bool(g) and same_cases(g, body), rule, r.func.where, f"{what}: what a pass hands on", f"found {show(g)[:200] if g else 'nothing'}; required {show(body)[:200]}",
                    unsure=g is None or imprecise(("_", g)) and not near(g, body) or bool(novel(g, body)))


# ------------------------------------------------------------------ distribution types
X = frozenset({P("X")})
BOTH = frozenset({P("X"), SELF})
PLAIN = [("get_columns", "X", "return X[:, self.idx]", "a column of its own"), ("preprocess_X", "X, fit_transform", "return X", "data as they are"),
         ("preprocess_tabu_edges", "tabu_edges", "return tabu_edges", "tabu edges as they are"), ("preprocess_tabu_nodes", "tabu_nodes", "return tabu_nodes", "tabu nodes as they are"),
         ("update_idx_col", "idx_col", "return idx_col", "names as they are"), ("modify_h", "square_weight_mat", "return square_weight_mat", "weights as they are"),
         ("collapse_adj", "adj", "return adj", "adjacencies as they are")]
ENCODE = {
    "_base.DistTypeBase.add_to_node": ("def spec(self, sm):\n    sm.nodes[self.idx]['dist_type'] = self\n    return sm\n", "a node knows its type", ()),
    "_base.DistTypeBase.__init__": ("def spec(self, idx):\n    self.idx = idx\n", "a type knows its column", ()),
    "poisson.DistTypePoisson.preprocess_X": ('''
def spec(self, X, fit_transform):
    if (X[:, self.idx] < 0).sum() > 0:
        raise ValueError("negative")
    return X
''', "counts are not negative", X),
    "ordinal.DistTypeOrdinal.preprocess_X": ('''
def spec(self, X, fit_transform):
    X = deepcopy(X)
    if fit_transform:
        self.encoder = OrdinalEncoder()
        self.encoder.fit(X[:, [self.idx]])
    X[:, [self.idx]] = self.encoder.transform(X[:, [self.idx]])
    if fit_transform:
        _, n = np.unique(X[:, self.idx], return_counts=True)
        cum = np.cumsum(n / np.sum(n))[:-1]
        self.log_cum_odds = np.log(cum / (1 - cum))
    return X
''', "ordinal columns hold positions, thresholds are the cumulative odds", X),
    "categorical.DistTypeCategorical.preprocess_X": ('''
def spec(self, X, fit_transform):
    X = deepcopy(X)
    if fit_transform:
        self.encoder = OneHotEncoder(sparse=False, categories="auto", drop=None)
        self.encoder.fit(X[:, [self.idx]])
    hot = self.encoder.transform(X[:, [self.idx]])
    X[:, self.idx] = hot[:, 0]
    X = np.hstack([X, hot[:, 1:]])
    if fit_transform:
        self.idx_group = [self.idx] + list(range(X.shape[1] - (hot.shape[1] - 1), X.shape[1]))
    return X
''', "a categorical column becomes one column per category, the first in its place, the others at the end", X),
    "categorical.DistTypeCategorical.get_columns": ("def spec(self, X):\n    return X[:, self.idx_group]\n", "the columns of all categories", BOTH),
    "categorical.DistTypeCategorical.add_to_node": ("def spec(self, sm):\n    for i in self.idx_group:\n        sm.nodes[i]['dist_type'] = self\n    return sm\n",
                                                    "the nodes of all categories know their type", ()),
    "categorical.DistTypeCategorical.update_idx_col": ('''
def spec(self, idx_col):
    new = {}
    name = idx_col.pop(self.idx_group[0])
    for k, i in enumerate(self.idx_group):
        new[i] = self.make_node_name(name, k)
    return {**idx_col, **new}
''', "the columns of the categories have names of their own", frozenset({SELF})),
    "categorical.DistTypeCategorical.make_node_name": ('''
def spec(colname, catidx):
    if catidx:
        return "{}{}".format(colname, catidx)
    return colname
''', "the first category keeps the name", ()),
    "categorical.DistTypeCategorical.preprocess_tabu_nodes": ('''
def spec(self, tabu_nodes):
    if tabu_nodes is None:
        return tabu_nodes
    out = deepcopy(tabu_nodes)
    return out + [k for i in out if i == self.idx_group[0] for k in self.idx_group[1:]]
''', "a tabu column is tabu with all its categories", frozenset({SELF, P("tabu_nodes")})),
    "categorical.DistTypeCategorical.preprocess_tabu_edges": ('''
def spec(self, tabu_edges):
    out = deepcopy([] if tabu_edges is None else tabu_edges)
    more = []
    for i, j in out:
        if i == self.idx_group[0]:
            more += [(k, j) for k in self.idx_group[1:]]
        elif j == self.idx_group[0]:
            more += [(i, k) for k in self.idx_group[1:]]
    out += more
    out += list(itertools.permutations(self.idx_group, 2))
    return out
''', "a tabu edge is tabu for all categories, and so are edges between them", frozenset({SELF, P("tabu_edges")})),
}


def c44(R):
    with distinct(*OTHER):
        for n, ps, body, what in PLAIN:
            alike(R, "plain", DT + "_base.DistTypeBase." + n, f"def spec(self, {ps}):\n    {body}\n", f"{n}: {what}", roots=frozenset({SELF}) | frozenset(P(p) for p in ps.split(", ")))
        for q, (text, what, roots) in ENCODE.items():
            text = [text] + [text.replace("deepcopy(", "list(")] * ("tabu" in q)
            alike(R, "encoded", DT + q, text, f"{'.'.join(q.split('.')[1:])}: {what}", opaque=("make_node_name",) if q.endswith("idx_col") else (), roots=frozenset(roots),
                  allowed=lambda e: e.kind == "setattr" and e.target in (SELF, ("self",)))
        aliases(R)
    R.floor(30)


def resolved(R, m, n):
    x = R.p.resolve(m, n)
    return getattr(x, "name", None) or getattr(x[-1] if isinstance(x, tuple) else x, "name", None)


def aliases(R):
    want = {"bin": "DistTypeBinary", "cat": "DistTypeCategorical", "cont": "DistTypeContinuous", "ord": "DistTypeOrdinal", "poiss": "DistTypePoisson"}
    m = next((m for q, m in R.p.modules.items() if q.endswith("structure.pytorch.dist_type")), None)
    v = m.globals.get("dist_type_aliases") if m else None
    got = None
    if isinstance(v, ast.Dict) and all(isinstance(k, ast.Constant) for k in v.keys) and all(isinstance(x, ast.Name) for x in v.values):
        got = {k.value: resolved(R, m, x.id) for k, x in zip(v.keys, v.values)}
    R.check(got == want, "aliases", "causalnex/structure/pytorch/dist_type/__init__.py:1", "each alias names its distribution type", f"{got}", unsure=got is None)


PROBS = '''
    odds = torch.unsqueeze(torch.as_tensor(self.log_cum_odds, device=X_hat.device), dim=0) - X_hat[:, [self.idx]]
    cum = torch.sigmoid(odds)
    probs = torch.zeros((cum.shape[0], cum.shape[1] + 1), device=X_hat.device)
    probs[:, 0] = cum[:, 0]
    probs[:, -1] = 1 - cum[:, -1]
    probs[:, 1:-1] = cum[:, 1:] - cum[:, :-1]
'''
FITS = {
    "binary.DistTypeBinary.loss": ('''
def spec(self, X, X_hat):
    return nn.functional.binary_cross_entropy_with_logits(input=X_hat[:, self.idx], target=X[:, self.idx], reduction="mean")
''', "the mean cross entropy of logits"),
    "binary.DistTypeBinary.inverse_link_function": ('''
def spec(self, X_hat):
    X_hat[:, self.idx] = torch.sigmoid(X_hat[:, self.idx])
    return X_hat
''', "its own column becomes a probability"),
    "continuous.DistTypeContinuous.loss": ('''
def spec(self, X, X_hat):
    return 0.5 / X.shape[0] * torch.sum((X_hat[:, self.idx] - X[:, self.idx]) ** 2)
''', "half the mean squared error"),
    "continuous.DistTypeContinuous.inverse_link_function": ("def spec(self, X_hat):\n    return X_hat\n", "predictions as they are"),
    "poisson.DistTypePoisson.loss": ('''
def spec(self, X, X_hat):
    return nn.functional.poisson_nll_loss(input=X_hat[:, self.idx], target=X[:, self.idx], reduction="mean", log_input=True, full=False)
''', "the mean Poisson likelihood of log rates"),
    "poisson.DistTypePoisson.inverse_link_function": ('''
def spec(self, X_hat):
    X_hat[:, self.idx] = torch.exp(X_hat[:, self.idx])
    return X_hat
''', "its own column becomes a rate"),
    "categorical.DistTypeCategorical.loss": ('''
def spec(self, X, X_hat):
    return nn.functional.cross_entropy(input=X_hat[:, self.idx_group], target=torch.argmax(X[:, self.idx_group], dim=1), reduction="mean")
''', "the mean cross entropy of the categories"),
    "categorical.DistTypeCategorical.inverse_link_function": ('''
def spec(self, X_hat):
    X_hat[:, self.idx_group] = torch.softmax(X_hat[:, self.idx_group], dim=1)
    return X_hat
''', "its own columns become probabilities"),
    "ordinal.DistTypeOrdinal.loss": ("def spec(self, X, X_hat):" + PROBS + '''
    picked = probs.gather(dim=1, index=X[:, self.idx].long().unsqueeze(dim=1)).squeeze()
    return torch.mean(-torch.log(picked))
''', "the mean likelihood of the ordered categories"),
    "categorical.DistTypeCategorical.modify_h": ('''
def spec(self, square_weight_mat):
    a, b = self.idx_group[0], self.idx_group[1:]
    square_weight_mat[a, :] = square_weight_mat[a, :] + torch.sum(square_weight_mat[b, :], dim=0)
    square_weight_mat[:, a] = square_weight_mat[:, a] + torch.sum(square_weight_mat[:, b], dim=1)
    return square_weight_mat
''', "a cycle through any category is a cycle"),
    "categorical.DistTypeCategorical.collapse_adj": ('''
def spec(self, adj):
    a, b = self.idx_group[0], self.idx_group[1:]
    adj[a, :] = adj[a, :] + np.sum(adj[b, :], axis=0)
    adj[:, a] = adj[:, a] + np.sum(adj[:, b], axis=1)
    return adj
''', "the categories' edges are the variable's"),
}


def c45(R):
    with distinct(*OTHER):
        for q, (text, what) in FITS.items():
            alike(R, "fitted", DT + q, text, f"{'.'.join(q.split('.')[1:])}: {what}", roots=BOTH if q.endswith("loss") else frozenset({SELF}))
        own(R)
    R.floor(24)


def own(R):
    """each type makes predictions of its own columns from its own columns, and hands the others on"""
    for m, c in (("binary", "Binary"), ("categorical", "Categorical"), ("continuous", "Continuous"), ("poisson", "Poisson"), ("ordinal", "Ordinal")):
        r = R.run(DT + f"{m}.DistType{c}.inverse_link_function")
        t = sn(r, r.final(r.ret))
        R.check(t == P("X_hat"), "shared", r.func.where, f"DistType{c}.inverse_link_function hands on the columns of the other types", f"returns {show(t)[:160]}",
                unsure=imprecise(("_", t)) or contains(("_", t), lambda x: x == P("X_hat")) and t[0] in ("m", "ite"))
        if c == "Ordinal" and t != P("X_hat"):
            alike(R, "fitted", DT + "ordinal.DistTypeOrdinal.inverse_link_function", "def spec(self, X_hat):" + PROBS + "    return probs\n",
                  "DistTypeOrdinal.inverse_link_function: probabilities of the ordered categories", roots=frozenset({SELF}))


# ------------------------------------------------------------------ the network
NET = {
    CORE + "forward": ('''
def spec(self, x):
    x = self.dag_layer(x)
    x = x.view(-1, self.dims[0], self.dims[1])
    for n, layer in zip(self.dims[1:], self.loc_lin_layer_weights):
        x = torch.sigmoid(x)
        x = nn.LayerNorm(n, eps=self.nonlinear_clamp, elementwise_affine=True)(x)
        x = layer(x)
    x = x.squeeze(dim=2)
    return x
''', "predictions: the first layer, then sigmoid, normalisation and local layer each", (), frozenset({SELF, P("x")})),
    CORE + "_l1_reg": ("def spec(self, n_features):\n    return torch.mean(torch.abs(self.dag_layer_weight)) * n_features\n", "the lasso term: mean absolute weight of the first layer, times features",
                       (), frozenset({SELF})),
    CORE + "_l2_reg": ('''
def spec(self, n_features):
    reg = 0.0
    reg += torch.sum(self.dag_layer_weight ** 2)
    for layer in self.loc_lin_layer_weights:
        reg += torch.sum(layer.weight ** 2)
    n = self.dag_layer_weight.numel()
    for layer in self.loc_lin_layer_weights:
        n = n + layer.weight.numel()
    return reg / n * n_features
''', "the ridge term: mean squared weight of all layers, times features", (), frozenset({SELF})),
    CORE + "_h_func": ('''
def spec(self):
    d = self.dims[0]
    w = self.dag_layer_weight.view(d, -1, d)
    sq = torch.sum(w * w, dim=1).t()
    idxs = []
    for t in self.dist_types:
        sq = t.modify_h(sq)
        idxs.append(t.idx)
    n = np.max(idxs) + 1
    sq = sq[:n, :n]
    d = sq.shape[0]
    m = torch.eye(d).to(self.device) + sq / torch.tensor(d).to(self.device)
    p = torch.matrix_power(m, d - 1)
    return (p.t() * m).sum() - d
''', "the acyclicity term: tr((I + W∘W/d)^d) - d over the variables", (), frozenset({SELF})),
    CORE + "_calculate_adj": ('''
def spec(self, X, mean_effect):
    if len(self.dims) <= 2:
        return self.dag_layer_weight.T if mean_effect else torch.abs(self.dag_layer_weight.T)
    _, n = X.shape
    X = X.clone().requires_grad_()
    y = self(X).sum(dim=0)
    adj = []
    for j in range(n):
        d = torch.autograd.grad(y[j], X, create_graph=True)[0]
        if mean_effect:
            adj.append(d.mean(axis=0).unsqueeze(0))
        else:
            adj.append(torch.abs(d).mean(dim=0).unsqueeze(0))
    return torch.cat(adj, dim=0).T
''', "strengths: weights of a linear model, mean (absolute) derivatives of a nonlinear one, from parent to child", ("forward",), frozenset({SELF, P("X")})),
    CORE + "reconstruct_data": ('''
def spec(self, X):
    for t in self.dist_types:
        X = t.preprocess_X(X, fit_transform=False)
    with torch.no_grad():
        X = torch.from_numpy(X).float().to(self.device)
        y = self(X)
        for t in self.dist_types:
            y = t.inverse_link_function(y)
        return np.asarray(y.cpu().detach().numpy().astype(np.float64))
''', "reconstruction: data encoded as they were fitted, predicted, and turned back by each type", ("forward",), frozenset({SELF, P("X")})),
    CORE + "bias": ('''
def spec(self):
    b = self.dag_layer_bias
    return b if b is None else b.cpu().detach().numpy()
''', "the bias is the first layer's, or None", (), frozenset({SELF})),
    CORE + "__init__": ('''
def spec(self, n_features, dist_types, use_bias, hidden_layer_units, bounds, lasso_beta, ridge_beta, nonlinear_clamp):
    super().__init__()
    self.device = torch.device("cpu")
    self.lasso_beta = lasso_beta
    self.ridge_beta = ridge_beta
    self.nonlinear_clamp = nonlinear_clamp
    self.dims = [n_features] + list(hidden_layer_units) + [1] if hidden_layer_units[0] else [n_features, 1]
    self.dag_layer = nn.Linear(self.dims[0], self.dims[0] * self.dims[1], bias=use_bias).float()
    nn.init.zeros_(self.dag_layer.weight)
    if use_bias:
        nn.init.zeros_(self.dag_layer.bias)
    layers = [LocallyConnected(self.dims[0], a, b, bias=use_bias).float() for a, b in zip(self.dims[1:-1], self.dims[2:])]
    self._loc_lin_layer_weights = nn.ModuleList(layers)
    for layer in layers:
        layer.reset_parameters()
    self.dag_layer.weight.bounds = bounds
    self.dist_types = dist_types
    self.adj = None
    self.adj_mean_effect = None
''', "the model has a layer per number of units, starts at zero, and holds its bounds", ("LocallyConnected.__init__", "reset_parameters"), frozenset({P("dist_types"), P("hidden_layer_units")})),
    LC + "__init__": ('''
def spec(self, num_linear, input_features, output_features, bias):
    super().__init__()
    self.num_linear = num_linear
    self.input_features = input_features
    self.output_features = output_features
    self.weight = nn.Parameter(torch.Tensor(num_linear, input_features, output_features))
    if bias:
        self.bias = nn.Parameter(torch.Tensor(num_linear, output_features))
    else:
        self.register_parameter("bias", None)
    self.reset_parameters()
''', "a local layer has weights for each node", ("reset_parameters",), frozenset()),
    LC + "forward": ('''
def spec(self, x):
    out = torch.matmul(x.unsqueeze(dim=2), self.weight.unsqueeze(dim=0))
    out = out.squeeze(dim=2)
    if self.bias is not None:
        out += self.bias
    return out
''', "a local layer multiplies each node's values with its own weights and adds its bias", (), frozenset({SELF, P("x")})),
}
CALLED = ("register_parameter", "zeros_", "uniform_", "reset_parameters", "torch.nn.init.zeros_", "torch.nn.init.uniform_")
FIT = '''
def spec(self, x, max_iter, h_tol, rho_max):
    rho, alpha, h = 1.0, 0.0, np.inf
    data = torch.from_numpy(x).float().to(self.device)
    for k in range(max_iter):
        rho, alpha, h = self._dual_ascent_step(data, rho, alpha, h, rho_max)
        if h <= h_tol or rho >= rho_max:
            break
        if k == max_iter - 1 and h > h_tol:
            self._logger.warning("Failed to converge. Consider increasing max_iter.")
    self.adj = self._calculate_adj(data, mean_effect=False).cpu().detach().numpy()
    self.adj_mean_effect = self._calculate_adj(data, mean_effect=True).cpu().detach().numpy()
'''


def called(k, o, e):
    return selected(k, o, e) or e.kind in ("call", "mcall") and (e.data.get("name") in CALLED or o in CALLED)


def c46(R):
    with distinct(*OTHER):
        for q, (text, what, opaque, roots) in NET.items():
            alike(R, "network", q, text, f"{'.'.join(q.split('.')[-2:])}: {what}", opaque=opaque, roots=roots, select=called if q.endswith("__init__") else selected,
                  allowed=lambda e: e.kind == "setattr" and e.target in (SELF, ("self",)))
        r, _ = alike(R, "trained", CORE + "fit", FIT, "NotearsMLP.fit: steps until h is small or rho too large, then the adjacencies of the data",
                     opaque=("_dual_ascent_step", "_calculate_adj"), roots=frozenset({P("x")}))
    R.floor(24)


# ------------------------------------------------------------------ a step of training
STEP = '''
def spec(self, X, rho, alpha, h, rho_max):
    params = list(self.parameters())

    def put(flat):
        at = 0
        flat = torch.from_numpy(flat).to(torch.get_default_dtype())
        for p in params:
            p.data = flat[at : at + p.numel()].view_as(p.data)
            at += p.numel()

    def objective(flat):
        put(flat)
        optimizer.zero_grad()
        y = self(X)
        h_val = self._h_func()
        loss = 0.0
        for t in self.dist_types:
            loss = loss + t.loss(X, y)
        n = X.shape[1]
        o = loss + 0.5 * rho * h_val * h_val + alpha * h_val + 0.5 * self.ridge_beta * self._l2_reg(n) + self.lasso_beta * self._l1_reg(n)
        o.backward()
        grad = torch.cat([p.data.new(p.data.numel()).zero_() if p.grad is None else p.grad.data.to_dense().view(-1) if p.grad.data.is_sparse else p.grad.data.view(-1)
                          for p in params], 0).cpu().detach().numpy()
        return o.item(), grad.astype("float64")

    optimizer = torch.optim.Optimizer(self.parameters(), dict())
    start = torch.cat([p.data.to_dense().view(-1) if p.data.is_sparse else p.data.view(-1) for p in params], 0).cpu().detach().numpy()
    bounds = []
    for p in params:
        b = getattr(p, "bounds", None)
        if b is None:
            b = [(None, None)] * p.numel()
        bounds += b
    h_new = np.inf
    while rho < rho_max and (h_new > 0.25 * h or h_new == np.inf):
        sol = sopt.minimize(objective, start, method="L-BFGS-B", jac=True, bounds=bounds)
        put(sol.x)
        h_new = self._h_func().item()
        if h_new > 0.25 * h:
            rho *= 10
    alpha += rho * h_new
    return rho, alpha, h_new
'''
STEPPED = ("_h_func", "_l1_reg", "_l2_reg", "forward")
MINIMIZE = ("fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback", "options")


def searches(r):
    """the calls of the optimiser, arguments by name"""
    out = []
    for e in r.events:
        if e.kind == "call" and e.data["fn"] == G("scipy.optimize.minimize"):
            out.append((e, {MINIMIZE[k] if isinstance(k, int) else k: v for k, v in e.data["args"].items()}))
    return out


def one(R, rule, where, what, g, ws):
    ok = any(g == w or same_cases(g, w) for w in ws)
    sure = not ok and any(near(g, w) for w in ws)
    R.check(ok, rule, where, what, f"found {show(g)[:300]}; required {show(ws[0])[:300]}", unsure=not ok and (bool(novel(g, *ws)) or imprecise(("_", g)) and not sure))


def c47(R):
    with distinct(*OTHER):
        q = CORE + "_dual_ascent_step"
        r, ss = method(R, q, [STEP], opaque=STEPPED)
        s = ss[0]
        value = lambda z, t: form_of(z)(alpha(sn(z, t)))
        one(R, "step", r.func.where, "a step returns the last penalty, the multiplier moved by it, and the acyclicity reached", value(r, r.final(r.ret)), [value(s, s.final(s.ret))])
        w = lambda z: (lambda t: subst(subst(t, words), words))
        whiles = lambda z: [subst(form_of(z)(alpha(sn(z, i["cond"]))), lambda x: None) for L, i in z.interp.loops.items() if i["kind"] == "while" and i.get("cond") is not None]
        gc, wc = whiles(r), whiles(s)
        if len(gc) == 1:
            one(R, "step", r.func.where, "the penalty grows until the acyclicity term falls to a quarter or the penalty is too large", gc[0], wc)
        else:
            R.und("step", r.func.where, "the penalty grows until the acyclicity term falls to a quarter or the penalty is too large", f"{len(gc)} condition-controlled loops")
        gs, ws = searches(r), searches(s)
        if len(gs) != 1:
            R.und("objective", r.func.where, "one search", f"{len(gs)} calls of the optimiser")
            return
        (ge, ga), (we, wa) = gs[0], ws[0]
        for k in sorted(set(ga) | set(wa)):
            if k == "fun":
                continue
            what = {"x0": "the search starts at the parameters, flat, in their order", "bounds": "each parameter has the bounds it was given, in the same order, or none"}.get(k, f"the search is told {k}")
            if k not in ga or k not in wa:
                R.check(False, "search", ge.where, what, "missing" if k not in ga else f"{k}={show(sn(r, ga[k]))[:80]}", unsure=k not in wa)
                continue
            one(R, "search", ge.where, what, value(r, r.final(ga[k]) if k != "bounds" else ga[k]), [value(s, s.final(wa[k]) if k != "bounds" else wa[k])])
        gf, wf = ge.data.get("fun"), we.data.get("fun")
        if not gf or not wf or gf[1][0] != "tuple" or len(gf[1][1]) != 2:
            R.und("objective", ge.where, "the objective and its gradient", "the function is not recognised")
            return
        for k, what in ((0, "what is minimised: every column type's loss, 0.5·rho·h² + alpha·h, and the ridge and lasso terms with their betas"),
                        (1, "the gradient handed over is what was propagated back, parameter by parameter in their order")):
            one(R, "objective", ge.where, what, value(r, gf[1][1][k]), [value(s, wf[1][1][k])])
        order(R, r, ge, gf)
        put(R, r, s, gf, wf)
        passes(R, "step", r, ss, "a step")
    R.floor(14)


def writes(z, evs):
    """what is written into parameters: (loop, value)"""
    out = []
    fr = form_of(z)
    for k, ctx, d, wh in evs:
        if k != "setattr" or d["attr"] != "data":
            continue
        loops = [c for c in ctx if c[0] == "for" and not (isinstance(c[2], tuple) and c[2][:1] == ("while",))]
        conds = [c[1] for c in ctx if c[0] == "if" and not any(c[1] == i.get("cond") for i in z.interp.loops.values())]
        t = fr(alpha(sn(z, ("tuple", tuple(c[2] for c in loops) + tuple(conds) + (d["obj"], d["value"])))))
        at = {c[1]: ("L", n) for n, c in enumerate(loops)}
        name = lambda x: ("lamref",) if x[0] == "lamref" else (x[0], at[x[1]]) + x[2:] if x[0] in ("el", "idx") and x[1] in at else None
        out.append((subst(t, name), wh))
    return out


def put(R, r, s, gf, wf):
    """parameters are set from the flat vector, each from its own stretch, in the order they are flattened in"""
    what = "each parameter is set from its own stretch of the flat vector"
    gw, ww = writes(r, gf[2]), writes(s, wf[2])
    ok = len(gw) == len(ww) and all(a[0] == b[0] for a, b in zip(gw, ww))
    R.check(ok, "parameters", gw[0][1] if gw else r.func.where, what + " (in the objective)", f"{[show(a[0])[:300] for a in gw]}; required {[show(a[0])[:300] for a in ww]}",
            unsure=not gw or len(gw) != len(ww) or bool(novel(gw[0][0], ww[0][0])) or imprecise(("_", gw[0][0])) and not near(gw[0][0], ww[0][0]))
    out = lambda z: [(e.kind, e.ctx, e.data, e.where) for e in z.events if e.kind == "setattr"]
    gw, ww = writes(r, out(r)), writes(s, out(s))
    ok = len(gw) == len(ww) and all(a[0] == b[0] for a, b in zip(gw, ww))
    R.check(ok, "parameters", gw[0][1] if gw else r.func.where, what + " (found by the search)", f"{[show(a[0])[:300] for a in gw]}; required {[show(a[0])[:300] for a in ww]}",
            unsure=not gw or len(gw) != len(ww) or bool(novel(gw[0][0], ww[0][0])) or imprecise(("_", gw[0][0])) and not near(gw[0][0], ww[0][0]))


def order(R, r, ge, gf):
    """parameters are set before anything is computed from them, gradients cleared before and read after they are propagated"""
    at = {}
    for i, (k, ctx, d, wh) in enumerate(gf[2]):
        n = None
        if k == "setattr" and d["attr"] == "data":
            n = "set"
        elif k == "mcall" and d["name"] in ("zero_grad", "backward"):
            n = d["name"]
        elif k == "mcall" and contains(d["obj"], lambda x: x[0] == "a" and x[2] == "grad"):
            n = "read"
        elif k == "call" and (d.get("fn") == SELF or d.get("name") in ("_h_func", "_l2_reg", "_l1_reg", "forward")):
            n = "compute"
        if n:
            at.setdefault(n, []).append(i)
    w = ge.where
    first, last = (lambda n: min(at[n])), (lambda n: max(at[n]))
    for a, b, what in (("set", "compute", "parameters are set before the objective is computed from them"), ("compute", "backward", "the whole objective is propagated back"),
                       ("zero_grad", "backward", "gradients are cleared before they are propagated"), ("backward", "read", "gradients are read after they were propagated")):
        if a not in at and a == "zero_grad":
            R.check(False, "order", w, what, "gradients are never cleared", unsure=any(k == "setattr" and d["attr"] == "grad" or k == "mcall" and d["name"] in ("zero_", "fill_") and contains(d["obj"], lambda x: x[0] == "a" and x[2] == "grad")
                                                                                                 for k, c, d, wh in gf[2]))
        elif a not in at or b not in at:
            R.und("order", w, what, f"no event of {a if a not in at else b}")
        else:
            R.check(last(a) < first(b), "order", w, what, f"{a} comes after {b}")
    es = r.events
    i = next((k for k, e in enumerate(es) if e is ge), None)
    sets = [k for k, e in enumerate(es) if e.kind == "setattr" and e.data["attr"] == "data"]
    hs = [k for k, e in enumerate(es) if e.kind == "call" and e.data.get("name") == "_h_func" and k > i]
    what = "the acyclicity reached is that of the parameters found"
    if not sets:
        R.check(False, "order", w, what, "the parameters found are not set", unsure=any(e.kind in ("mcall", "call") and e.data.get("name") in ("copy_", "set_", "load_state_dict", "vector_to_parameters", "step")
                                                                                   for e in es))
    elif not hs:
        R.und("order", w, what, "no such events")
    else:
        R.check(i < min(sets) and max(sets) < min(hs), "order", w, what, "h is computed before the parameters are set")


CHECKS = {"C44": (c44, ""), "C45": (c45, ""), "C46": (c46, ""), "C47": (c47, "")}
