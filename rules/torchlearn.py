"""The PyTorch learner: data checks, column expansion, bounds, and the graph that is returned."""
from rules.learners import Fuzzy, TABU, compare, dict_forms, dims, frame, padd, poly, tabu_arg, tabu_forms, tree
from sa.conform import best_of, distinct, eqv, events_like, event_forms, form, novel, raise_conditions, raises_like, sn, term_like, untouched
from sa.rule import A, NONE, P, SELF, T, alpha, conds, fors, imprecise, ncond, ncond_ok, nctx, norm, same, show
from sa.terms import F, const, contains, implies, mk_and, mk_not, subst, walk

M = "structure.pytorch.notears."
MLP = "NotearsMLP"
SMOPS = ("StructureModel.__init__", "StructureModel.add_edge", "StructureModel.add_edges_from", "StructureModel.add_weighted_edges_from",
         "StructureModel.remove_edges_below_threshold")
OPAQUE = SMOPS + ("NotearsMLP.__init__", "NotearsMLP.fit", "NotearsMLP.bias")


def isnew(t, cls):
    return t[0] == "new" and t[1].split(".")[-1] == cls


def lib(t):
    """one spelling of ranges, list copies and of constructing a distribution type"""
    def f(x):
        if x[0] == "call" and x[1] == ("g", "numpy.arange") and len(x[2]) == 1 and not x[3]:
            return ("call", ("g", "builtins.range"), x[2], ())
        if x[0] == "call" and x[1] in (("g", "builtins.list"), ("g", "builtins.tuple")) and len(x[2]) == 1 and x[2][0][0] in ("seq", "p", "ite", "m"):
            return x[2][0]
        if x[0] == "call" and x[1][0] == "i" and x[1][1][0] == "g" and x[1][1][1].endswith("dist_type_aliases") and len(x[2]) == 1 and not x[3]:
            return ("call", x[1], (), (("idx", x[2][0]),))
        if x[0] == "m" and x[2] in ("preprocess_X", "get_columns") and dict(x[4]).get("fit_transform") == const(True) and x[2] == "preprocess_X":
            return ("m", x[1], x[2], x[3], tuple(k for k in x[4] if k[0] != "fit_transform"))
        if x[0] == "m" and x[2] == "preprocess_X" and len(x[3]) == 2 and x[3][1] == const(True):
            return ("m", x[1], x[2], x[3][:1], x[4])
        if x[0] == "m" and x[2].startswith(("preprocess_", "add_to_node", "collapse_adj")) and not x[3] and len(x[4]) == 1:
            return ("m", x[1], x[2], (x[4][0][1],), ())
        if x[0] == "new" and x[1].split(".")[-1].startswith("DistType") and len(x[2]) == 1 and isinstance(x[2][0][0], str) and x[2][0][0] != "idx":
            return ("new", x[1], (("idx", subst(x[2][0], f)),))
        if x[0] == "seq" and x[1] in ("tuple", "gen") and x[2]:
            return ("seq", "list", tuple(subst(y, f) for y in x[2]))
        if x[0] == "lout":
            body, init, ctx = x[-3:]
            if len(ctx) == 1 and ctx[0][0] == "for" and len(ctx[0]) == 3 and body[0] == "m":
                # one value handed from round to round
                b = subst(body, lambda y: ("carry", 0) if y[0] == "lv" and isinstance(y[2], tuple) and y[2][0] == "self" and (len(x) == 4 or y[1] == x[1]) else None)
                if not contains(("_", b), lambda y: y[0] == "lv"):
                    return ("fold", subst(ctx, f), subst(b, f), subst(init, f))
        return None
    for _ in range(4):
        y = subst(t, f)
        if y == t:
            break
        t = y
    return t


def replaced(t, table):
    for _ in range(4):
        y = subst(t, lambda x: table.get(x))
        if y == t:
            break
        t = y
    return t


def loops(t, method):
    """the values accumulated by calling `method` of one element after another"""
    return [x for x in walk(("_", t)) if x[0] == "fold" and contains(("_", x[2]), lambda y: y[0] == "m" and y[2] == method)]


def spec_value(R, r, params, body, **kw):
    s = R.spec(r.func, f"def spec({params}):\n" + "".join("    " + l + "\n" for l in body.strip("\n").split("\n")), **kw)
    return lib(norm(s.final(s.ret)))


class Learner:
    """the parts of the numpy learner, each under a name"""

    def __init__(self, R, r):
        self.R, self.r, self.w = R, r, r.func.where
        self.table = {}
        self.ps = ", ".join(p for p in r.func.params if p not in ("kwargs",))
        self.model = [e for e in r.ev("call") if show(e["fn"]).endswith("NotearsMLP.__init__")]

    def t(self, x):
        x = lib(sn(self.r, x)) if isinstance(x, tuple) else x
        return lib(replaced(x, self.table))

    def args(self):
        return self.model[0]["args"]


def c34(R):
    with distinct("symmetric_difference", "size", "numpy.isnan", "collapse_adj", "preprocess_X", "preprocess_tabu_edges", "preprocess_tabu_nodes",
                  "add_to_node", "update_idx_col", "builtins.any", "builtins.all", "shape", "builtins.len", "subset"):
        numpy_learner(R, "C34")


def c35(R):
    with distinct("collapse_adj", "preprocess_X", "add_to_node", "update_idx_col", "adj", "adj_mean_effect", "bias", "mean_effect", "weight", "dist_type",
                  "shape", "T", "abs", "remove_edges_below_threshold", "columns", "builtins.sorted"):
        numpy_learner(R, "C35")
        pandas_learner(R)


def numpy_learner(R, pid):
    r = R.run(M + "from_numpy", opaque=OPAQUE)
    w = r.func.where
    L = Learner(R, r)
    if len(L.model) != 1:
        R.und("model", w, "from_numpy builds one NotearsMLP", f"{len(L.model)} constructions recognised")
        return
    me = L.model[0]
    # --- the distribution types
    d0 = L.t(L.args().get("dist_types", NONE))
    refs = []
    for a, b in (("for i in range(X.shape[1])", "for i, a in dist_type_schema.items()"),
                 ("for i in range(X.shape[1])", "for i, a in sorted(dist_type_schema.items())")):
        refs.append(spec_value(R, r, L.ps, f"if dist_type_schema is None:\n    return [DistTypeContinuous(idx=i) {a}]\n"
                                           f"return [dist_type_aliases[a](idx=i) {b}]"))
    refs.append(spec_value(R, r, L.ps, "if dist_type_schema is None:\n    return [DistTypeContinuous(idx=i) for i in range(X.shape[1])]\n"
                                       "return [dist_type_aliases[dist_type_schema[i]](idx=i) for i in range(X.shape[1])]"))
    L.table[d0] = P("dists")
    if pid == "C34":
        got, evs = raise_conditions(r).get("ValueError", (F, []))
        refs_r = [R.spec(r.func, f"def spec({L.ps}):\n    if not X.size:\n        raise ValueError()\n    if dist_type_schema is not None and {c}:\n"
                                 "        raise ValueError()\n") for c in ("set(range(X.shape[1])) != set(dist_type_schema.keys())",
                                                                           "set(range(X.shape[1])).symmetric_difference(set(dist_type_schema.keys()))")]
        r.rewrite = lambda x: keysets(x)
        for s in refs_r:
            s.rewrite = lambda x: keysets(x)
        raises_like(R, "checked", r, refs_r, what="empty data and a schema that does not name every column exactly once are rejected, nothing else")
        chk = [e for e in r.ev("call") if e["name"] in ("check_array", "check_X_y", "assert_all_finite") or
               show(e["fn"]) in ("numpy.isfinite", "numpy.isnan")]
        good = [e for e in chk if e["name"] in ("check_array", "assert_all_finite") and sn(r, next(iter(e["args"].values()))) == P("X") and
                e.pos < me.pos and not fors(nctx(r, e)) and not (set(e["args"]) - {0, "X", "array"})]
        off = [e for e in chk if any(k in e["args"] and sn(r, e["args"][k]) in (const(False), F) for k in ("force_all_finite", "ensure_all_finite"))]
        R.check(bool(good), "checked", chk[0].where if chk else w, "data with NaN or infinite values is rejected before anything is learned",
                "check_array(X) is not called on the data as given" if not chk else f"{chk[0]['name']} with {list(chk[0]['args'])}",
                unsure=any(show(e["fn"]).startswith("numpy.is") for e in chk) or any(e["name"] == "check_array" and e not in off for e in chk))
        for e in good[:1]:
            c = ncond_ok(r, e)
            free = contains(("_", c), lambda x: x[0] == "p" and x[1] not in ("X", "dist_type_schema"))
            R.check(not free, "checked", e.where, "the data is checked whatever the options", f"only if {show(c)[:160]}", unsure=True)
        term_like(R, "dist-types", me.where, "one distribution type per column, as the schema says; continuous without a schema", d0, refs,
                  rewrite=lambda t: alpha(lib(schema_forms(t))))
    # --- expanded data and tabu lists
    xs = loops(L.t(L.args().get("n_features", NONE)), "preprocess_X")
    fit = [e for e in r.ev("call") if e["name"] == "fit" and "NotearsMLP" in show(e["fn"])]
    if not fit:
        R.und("model", w, "the model is fitted", "no call of fit recognised")
        return
    xfit = L.t(fit[0]["args"].get("x", NONE))
    want_x = spec_value(R, r, "X, dists", "for t in dists:\n    X = t.preprocess_X(X)\nreturn X")
    ok_x = same(alpha(xfit), alpha(want_x))
    if pid == "C34":
        term_like(R, "expanded", fit[0].where, "the model is fitted to the data after every distribution type preprocessed it, in turn", xfit, [want_x],
                  rewrite=alpha)
        wm = spec_value(R, r, "X, dists, max_iter", "return max_iter")
        term_like(R, "expanded", fit[0].where, "max_iter bounds the iterations of the fit", L.t(fit[0]["args"].get("max_iter", NONE)), [wm])
        R.check(norm(sn(r, fit[0]["args"].get("self", NONE))) == norm(sn(r, me["term"])) or isnew(sn(r, fit[0]["args"].get("self", NONE)), MLP), "expanded",
                fit[0].where, "it is the model that is fitted", unsure=True)
        c = ncond_ok(r, fit[0])
        free = contains(("_", c), lambda x: x[0] == "p" and x[1] not in ("X", "dist_type_schema", "hidden_layer_units"))
        R.check(not free and not fors(nctx(r, fit[0])), "expanded", fit[0].where, "the model is fitted once, whatever the options", f"only if {show(c)[:160]}",
                unsure=True)
    for x in xs + loops(xfit, "preprocess_X"):
        if same(alpha(x), alpha(want_x)):
            L.table[x] = P("$X")
    lists = {}
    bounds = L.t(L.args().get("bounds", NONE))
    for name, meth in (("tabu_edges", "preprocess_tabu_edges"), ("tabu_parent_nodes", "preprocess_tabu_nodes"),
                       ("tabu_child_nodes", "preprocess_tabu_nodes")):
        want = spec_value(R, r, f"{name}, dists", f"for t in dists:\n    {name} = t.{meth}({name})\nreturn {name}")
        hit = [x for x in walk(("_", bounds)) if x[0] == "fold" and same(alpha(x), alpha(want))]
        for x in hit:
            L.table[x] = P("$" + name)
        lists[name] = hit
    bounds = L.t(L.args().get("bounds", NONE))
    units = L.t(L.args().get("hidden_layer_units", NONE))
    wu = [spec_value(R, r, "hidden_layer_units", b) for b in (
        "if hidden_layer_units is None or isinstance(hidden_layer_units, list) and not hidden_layer_units:\n    return [0]\nreturn hidden_layer_units",
        "return hidden_layer_units if hidden_layer_units else [0]", "return hidden_layer_units or [0]",
        "return [0] if hidden_layer_units is None or len(hidden_layer_units) == 0 else hidden_layer_units")]
    if pid == "C34":
        if units[0] != "p" or units == P("hidden_layer_units"):
            term_like(R, "layers", me.where, "no hidden layers (None or an empty list) means a linear model, otherwise the units as given", units, wu, rewrite=alpha)
        bounds = replaced(bounds, {units: P("units")})
        b = subst(bounds, lambda x: P("X0") if x == P("X") else None)
        b = replaced(b, {P("tabu_edges"): P("E0"), P("tabu_parent_nodes"): P("P0"), P("tabu_child_nodes"): P("C0")})
        b = replaced(b, {P("$X"): P("X"), P("$tabu_edges"): P("tabu_edges"), P("$tabu_parent_nodes"): P("tabu_parent_nodes"),
                         P("$tabu_child_nodes"): P("tabu_child_nodes")})
        bounds_like(R, r, me, b)
        # the data is expanded before the tabu lists of the same type are
        mc = [e for e in r.ev("mcall") if e["name"].startswith("preprocess_")]
        xpos = [e for e in mc if e["name"] == "preprocess_X"]
        early = [e for e in mc if e["name"] != "preprocess_X" and xpos and e.pos < xpos[0].pos]
        R.check(not early, "expanded", early[0].where if early else w, "a type expands the data before the tabu lists, which need its columns",
                f"{early[0]['name'] if early else ''} comes first")
        for p in ("lasso_beta", "ridge_beta", "use_bias"):
            a = L.args().get(p)
            t = L.t(a) if isinstance(a, tuple) else None
            R.check(t == P(p), "options", me.where, f"{p} reaches the model as given", f"{p} = {show(t) if t else 'default'}",
                    unsure=t is not None and (imprecise(t) or t[0] not in ("p", "c")) or t is None and "**" in L.args())
        kw = [e for e in r.ev("construct") if isnew(sn(r, e["ref"]), MLP)]
        R.check(any(contains(("_", sn(r, e["ref"])), lambda x: x == P("kwargs")) for e in kw), "options", me.where,
                "further options reach the model", "keyword arguments are dropped", unsure=not kw)
        nf = replaced(L.t(L.args().get("n_features", NONE)), {P("X"): P("X0")})
        nf = dims(replaced(nf, {P("$X"): P("X")}))
        R.check(nf == P("d"), "expanded", me.where, "the model has one feature per column of the expanded data", show(nf)[:120],
                unsure=nf[0] not in ("p", "i") or not ok_x)
        roots = frozenset({P("X"), P("dist_type_schema"), P("hidden_layer_units")} | {P(t) for t in TABU})
        untouched(R, "read-only", r, roots, "from_numpy modifies neither the data nor the options")
        R.floor(17)
        return
    graph(R, r, L)


def schema_forms(t):
    """a schema's key set as the schema"""
    def f(x):
        if x[0] == "m" and x[2] == "keys" and not x[3]:
            return x[1]
        return None
    return subst(t, f)


def keysets(x):
    """differences between the columns and the keys of the schema"""
    def isset(y, what):
        return contains(("_", y), lambda z: z == what)
    rng = lambda y: contains(("_", y), lambda z: z[0] == "call" and z[1] == ("g", "builtins.range") and len(z[2]) == 1 and
                             z[2][0] == ("i", ("a", P("X"), "shape"), const(1)))
    sch = lambda y: contains(("_", y), lambda z: z == P("dist_type_schema"))
    pair = None
    if x[0] == "m" and x[2] == "symmetric_difference" and len(x[3]) == 1:
        pair = (x[1], x[3][0], False)
    if x[0] == "op" and x[1] == "^" and len(x) == 4:
        pair = (x[2], x[3], False)
    if x[0] == "==" and not any(y[0] == "c" for y in x[1:]):
        pair = (x[1], x[2], True)
    if pair and (rng(pair[0]) and sch(pair[1]) and not sch(pair[0]) or rng(pair[1]) and sch(pair[0]) and not sch(pair[1])) and \
            all(simple_set(y) for y in pair[:2]):
        d = P("$schema-differs")
        return mk_not(d) if pair[2] else d
    sh = lambda k: ("i", ("a", P("X"), "shape"), const(k))
    full = mk_and(sh(0), sh(1))
    size = ("a", P("X"), "size")
    if x == size:
        return full
    for k in (0, 1):
        if x in (("==", const(0), sh(k)), ("==", sh(k), const(0)), ("<", sh(k), const(1))):
            return mk_not(sh(k))
        if x == ("<", const(0), sh(k)):
            return sh(k)
    if x == ("call", ("g", "builtins.len"), (P("X"),), ()):
        return sh(0)
    if x in (("==", const(0), size), ("==", size, const(0)), ("<", size, const(1))):
        return mk_not(full)
    if x == ("<", const(0), size):
        return full
    if x[0] == "call" and x[1] == ("g", "builtins.len") and len(x[2]) == 1 and (x[2][0][0] == "m" and x[2][0][2] == "symmetric_difference"):
        return None
    return None


def simple_set(y):
    """a set of all elements of one collection"""
    if y[0] == "seq":
        return len(y[2]) == 1 and len(y[2][0][1]) <= 1 and (not y[2][0][1] or y[2][0][1][0][0] == "for" and y[2][0][2] == ("x", ("el", y[2][0][1][0][1])))
    if y[0] == "call" and y[1] in (("g", "builtins.set"), ("g", "builtins.range"), ("g", "builtins.frozenset"), ("g", "builtins.sorted"), ("g", "builtins.list")):
        return len(y[2]) == 1
    if y[0] == "sorted":
        return True
    return y[0] == "p" or y[0] == "m" and y[2] == "keys"


BOUNDS = '''
def spec(X, units, tabu_edges, tabu_parent_nodes, tabu_child_nodes):
    d = X.shape[1]
    return [(0, 0) if i == j or (tabu_edges is not None and (i, j) in tabu_edges) or (tabu_parent_nodes is not None and i in tabu_parent_nodes)
            or (tabu_child_nodes is not None and j in tabu_child_nodes) else (None, None)
            for j in range(d) for _ in range(units[0] if units[0] else 1) for i in range(d)]
'''


def bounds_like(R, r, e, b):
    what = "every weight of a connection from i to j, in every unit of the first layer, is pinned to zero exactly if i = j or the edge, its parent " \
           "or its child is forbidden"
    s = R.spec(r.func, BOUNDS)
    want = tabu_forms(dims(lib(norm(s.final(s.ret)))))
    got = tabu_forms(dims(b))
    u0 = ("i", P("hidden_layer_units"), const(0))
    full = [form(norm(c.final(c.ret))[1]) for c in (R.spec(r.func, f"def spec(hidden_layer_units):\n    return 5 if {t} else 7\n") for t in (
        "hidden_layer_units is not None and (not isinstance(hidden_layer_units, list) or hidden_layer_units) and hidden_layer_units[0]",
        "hidden_layer_units is not None and hidden_layer_units and hidden_layer_units[0]", "hidden_layer_units and hidden_layer_units[0]",
        "hidden_layer_units is not None and len(hidden_layer_units) != 0 and hidden_layer_units[0]"))]

    def unit(x):
        if x in (("i", P("units"), const(0)), u0):
            return P("$u")
        c0, y = T, x
        while y[0] == "ite" and const(0) in y[2:]:
            c0, y = (mk_and(c0, y[1]), y[2]) if y[3] == const(0) else (mk_and(c0, mk_not(y[1])), y[3])
        if y == u0 and any(eqv(form(mk_and(c0, u0)), c) is True for c in full):
            return P("$u")
        if x[0] == "ite" and x[2] == const(1) and x[3] != const(1):
            x = ("ite", mk_not(x[1]), x[3], x[2])
        if x[0] == "ite" and x[3] == const(1) and x[2] in (u0, ("i", P("units"), const(0))):
            if x[2] != u0 and x[1] == x[2] or any(eqv(form(x[1]), c) is True for c in full):
                return P("m1")
        if x[0] == "bop" and x[1] == "or" and len(x[2]) == 2 and unit(x[2][0]) == P("$u") and x[2][1] == const(1):
            return P("m1")
        if x[0] == "call" and x[1] == ("g", "builtins.max") and len(x[2]) == 2 and {unit(y) for y in x[2]} == {P("$u"), None} and const(1) in x[2]:
            return P("m1")
        return None
    first = lambda t: subst(t, lambda x: P("m1") if unit(x) == P("m1") else None)
    got, want = first(got), first(want)
    for n, o in (("E0", "tabu_edges"), ("P0", "tabu_parent_nodes"), ("C0", "tabu_child_nodes")):
        if contains(("_", got), lambda x: x == P(n)):
            R.bad("bounds", e.where, what, f"uses {o} as given, not as extended to the expanded columns")
            return
    if contains(("_", got), lambda x: x == P("X0")):
        R.bad("bounds", e.where, what, "uses the shape of the data before its columns are expanded")
        return
    try:
        g = tree(got)
    except Fuzzy as x:
        R.check(got != NONE, "bounds", e.where, what, f"bounds not recognised: {x}" if got != NONE else "the model has no bounds", unsure=got != NONE)
        if got != NONE:
            R.und("bounds", e.where, what, f"bounds not recognised: {x}")
        return
    if compare(R, "bounds", e.where, what, g, tree(want)):
        R.ok("bounds", e.where, what)


# ---------------------------------------------------------------------------------------------- the returned graph
def graph(R, r, L):
    w = r.func.where
    sms = [e for e in r.ev("construct") if isnew(sn(r, e["ref"]), "StructureModel")]
    model = sn(r, [e for e in r.ev("construct") if isnew(sn(r, e["ref"]), MLP)][0]["ref"])

    def f(x):
        if isnew(x, MLP):
            return P("model")
        return None
    dist_terms = dict(L.table)

    def abstract(t):
        t = lib(norm(t))
        t = replaced(t, dist_terms)
        t = subst(t, f)

        def g(x):
            if isnew(x, "StructureModel") and same(alpha(subst(x, f)), ("new", x[1], (("a", P("model"), "adj"),))):
                return P("sm")
            return None
        t = subst(t, g)
        # a type adds itself to the nodes of the graph it is given, and hands that graph back
        t = subst(t, lambda x: P("sm") if x[0] == "fold" and x[2][0] == "m" and x[2][2] == "add_to_node" and x[3] == P("sm") else None)
        return t
    ret = abstract(sn(r, r.final(r.ret)))
    R.check(ret == P("sm"), "learned", w, "the graph is made of the fitted model's adjacency matrix", f"returns {show(ret)[:200]}",
            unsure=imprecise(ret) or not isnew(ret, "StructureModel"))
    fit = [e for e in r.ev("call") if e["name"] == "fit" and "NotearsMLP" in show(e["fn"])]
    built = [e for e in r.ev("call") if "StructureModel.__init__" in show(e["fn"])]
    early = [e for e in built if fit and e.pos < fit[0].pos]
    R.check(not early, "learned", early[0].where if early else w, "it is made after the model is fitted", "it is built before the fit")
    # threshold
    thr = [e for e in r.ev("call") if "remove_edges_below_threshold" in show(e["fn"])]
    rs = [R.spec(r.func, f"def spec({L.ps}, sm):\n    if {c}:\n        sm.remove_edges_below_threshold({a})\n") for c in (
        "w_threshold", "w_threshold is not None", "w_threshold is not None and w_threshold != 0", "w_threshold is not None and w_threshold > 0") for a in ("w_threshold",)]
    what = "edges below w_threshold are removed, if one is given"
    if not thr:
        R.bad("threshold", w, what, "w_threshold is not applied") if not any(
            contains(("_", x), lambda y: y == P("w_threshold")) for e in r.events for x in e.data.values() if isinstance(x, tuple) and x and isinstance(x[0], str)) \
            else R.und("threshold", w, what, "the removal is not recognised")
    for e in thr:
        a = abstract(sn(r, e["args"].get("threshold", NONE)))
        o = abstract(sn(r, e["args"].get("self", NONE)))
        c = residual(r, abstract(ncond_ok(r, e)))
        R.check(a == P("w_threshold") and o == P("sm"), "threshold", e.where, what, f"removes below {show(a)[:80]} from {show(o)[:80]}", unsure=imprecise((a, o)))
        pw = P("w_threshold")
        R.check(any(eqv(form(c), k) is True for k in (form(pw), form(mk_not(("is", NONE, pw))), form(mk_and(mk_not(("is", NONE, pw)), pw)),
                                                      form(mk_and(mk_not(("is", NONE, pw)), ("<", const(0), pw))))),
                "threshold", e.where, what, f"only if {show(c)[:200]}", unsure=imprecise(c))
    # edges, nodes, attributes
    sel = lambda k, o, e: k == "call" and e["name"] in ("add_edge", "add_edges_from", "add_weighted_edges_from")
    bodies = ["for u, v, d in sm.edges.data(True):\n        sm.add_edge(u, v, origin='learned', weight=d['weight'], mean_effect=model.adj_mean_effect[u, v])",
              "for u, v, w in sm.edges.data('weight'):\n        sm.add_edge(u, v, origin='learned', weight=w, mean_effect=model.adj_mean_effect[u, v])",
              "for u, v, w in sm.edges.data('weight'):\n        sm.add_edge(u, v, origin='learned', weight=w, mean_effect=model.adj_mean_effect[u][v])",
              "for u, v in sm.edges:\n        sm.add_edge(u, v, origin='learned', weight=sm[u][v]['weight'], mean_effect=model.adj_mean_effect[u, v])",
              "for u, v in sm.edges:\n        sm.add_edge(u, v, origin='learned', weight=sm.edges[u, v]['weight'], mean_effect=model.adj_mean_effect[u, v])"]
    specs = [R.spec(r.func, f"def spec({L.ps}, sm, model):\n    {b}\n", opaque=SMOPS) for b in bodies]
    what = "every edge keeps its weight, is marked as learned and gets the mean effect of its own entry"
    sets = [e for e in r.ev("setitem") if sn(r, e["key"]) == const("mean_effect")]
    if sets or any(e["name"] == "set_edge_attributes" for e in r.ev("call")):
        R.und("edges", w, what, "edge attributes are set directly")
    else:
        events_like(R, "edges", r, specs, lambda k, o, e: sel(k, o, e) and abstract(sn(r, e["args"].get("self", NONE))) in (P("sm"), NONE) or
                    sel(k, o, e) and not isnew(sn(r, e["args"].get("self", NONE)), "StructureModel"), what, rewrite=abstract, okc=True)
    sel = lambda k, o, e: k == "setitem" and sn(r, e["key"]) == const("bias")
    specs = [R.spec(r.func, f"def spec({L.ps}, sm, model):\n    b = model.bias\n    for n in sm.nodes{c}:\n        sm.nodes[n]['bias'] = {v}\n")
             for c in ("()", "") for v in ("b[n] if b is not None else None",)]
    nodes = lambda t: subst(abstract(t), lambda x: ("a", x[1], "nodes") if x[0] == "m" and x[2] == "nodes" and not x[3] and not x[4] else
                            P("model.bias") if x[0] == "call" and show(x[1]).endswith("NotearsMLP.bias") else
                            P("model.bias") if x == ("a", P("model"), "bias") else None)
    what = "every node carries the fitted bias of its column, or None"
    if any(e["name"] == "set_node_attributes" for e in r.ev("call")) or not any(sel("setitem", None, e) for e in r.ev("setitem")):
        touched = any(e["name"] == "set_node_attributes" for e in r.ev("call")) or any(e["name"] == "update" for e in r.ev("mcall"))
        R.check(False, "bias", w, what, "no bias is stored", unsure=touched)
    else:
        events_like(R, "bias", r, specs, sel, what, rewrite=nodes, okc=True)
    # attributes of the graph
    attrs = {"structure_learner": "return model",
             "graph_collapsed": "a = copy.deepcopy(model.adj)\nfor t in dists:\n    a = t.collapse_adj(a)\nreturn StructureModel(a[:n, :n])"}
    n0 = ("i", ("a", P("X"), "shape"), const(1))
    for key, text in attrs.items():
        es = [e for e in r.ev("setitem") if sn(r, e["key"]) == const(key)]
        what = {"structure_learner": "the graph carries the fitted model", "graph_collapsed": "the graph carries its collapsed form: the expanded columns of "
                "every type summed onto the original ones, in a copy of the adjacency matrix"}[key]
        if not es:
            kw = any(e["name"] == "update" for e in r.ev("mcall"))
            R.check(False, "attributes", w, what, f"{key} is not set", unsure=kw)
            continue
        e = es[-1]
        got = abstract(sn(r, e["value"]))
        o = abstract(sn(r, e["obj"]))
        R.check(o == ("a", P("sm"), "graph"), "attributes", e.where, what, f"stored in {show(o)[:80]}", unsure=imprecise(o))
        c = residual(r, ncond_ok(r, e))
        R.check(c == T, "attributes", e.where, what, f"only if {show(c)[:120]}", unsure=imprecise(c))
        ref = [copies(abstract(spec_value(R, r, "model, dists, n", "import copy\n" + text, opaque=SMOPS)))]
        got = copies(subst(got, lambda x: P("n") if x == n0 else None))
        term_like(R, "attributes", e.where, what, got, ref, rewrite=alpha)
    adds = [e for e in r.ev("mcall") if e["name"] == "add_to_node"]
    what = "every distribution type is attached to the nodes of its columns"
    if not adds:
        R.bad("attributes", w, what, "add_to_node is not called")
    for e in adds:
        fs = fors(nctx(r, e))
        coll = [abstract(norm(x[2])) for x in fs]
        a = abstract(sn(r, e["args"][0])) if e["args"] else NONE
        a = P("sm") if a[0] == "lv" and ret == P("sm") else a
        c = residual(r, ncond_ok(r, e))
        R.check(coll == [P("dists")] and sn(r, e["obj"]) == ("el", fs[0][1]), "attributes", e.where, what, f"for {[show(x)[:80] for x in coll]}",
                unsure=imprecise(coll) or not coll)
        R.check(a == P("sm"), "attributes", e.where, what, f"to {show(a)[:80]}", unsure=imprecise(a))
        R.check(c == T, "attributes", e.where, what, f"only if {show(c)[:120]}", unsure=True)


def copies(t):
    """copies of the adjacency matrix in one spelling"""
    def f(x):
        if x[0] == "call" and x[1][0] == "g" and x[1][1] in ("copy.deepcopy", "copy.copy", "numpy.copy", "numpy.array") and len(x[2]) == 1 and \
                x[2][0] == ("a", P("model"), "adj"):
            return P("adj-copy")
        if x[0] == "m" and x[2] == "copy" and not x[3] and x[1] == ("a", P("model"), "adj"):
            return P("adj-copy")
        return None
    return subst(t, f)


def residual(r, c):
    """a condition without what only says that no exception was raised"""
    rc = [x for x, _ in raise_conditions(r).values()]
    keep = []
    from sa.terms import conjuncts
    for x in conjuncts(form(c)):
        if all(contains(("_", x), lambda y: y == z) is False for z in (P("w_threshold"), P("use_bias"), P("lasso_beta"), P("ridge_beta"), P("max_iter"))) and \
                not contains(("_", x), lambda y: y[0] in ("el", "lout", "new")) and (contains(("_", x), lambda y: y in (
                    P("X"), P("dist_type_schema"), P("hidden_layer_units")))):
            continue
        keep.append(x)
    return mk_and(*keep) if keep else T


# ---------------------------------------------------------------------------------------------- data frames
def pandas_learner(R):
    r = R.run(M + "from_pandas", opaque=SMOPS + (M + "from_numpy",))
    w = r.func.where
    calls = [e for e in r.ev("call") if e["name"] == "from_numpy"]
    if len(calls) != 1:
        R.und("translated", w, "from_pandas learns on column positions", f"{len(calls)} calls of from_numpy recognised")
        return
    e = calls[0]
    ps = ", ".join(p for p in r.func.params if p != "kwargs")
    got, evs = raise_conditions(r).get("ValueError", (F, []))
    refs = [R.spec(r.func, f"def spec({ps}):\n    if {c}:\n        raise ValueError()\n", opaque=(M + "from_numpy",)) for c in (
        "len(X.select_dtypes(exclude='number').columns) > 0", "X.select_dtypes(exclude='number').shape[1] > 0", "not X.select_dtypes(exclude='number').empty")]
    for x in [r] + refs:
        x.rewrite = lambda y: P("X") if y[0] == "call" and y[1][0] == "g" and y[1][1] in ("copy.deepcopy", "copy.copy") and y[2] == (P("X"),) or \
            y[0] == "m" and y[2] == "copy" and y[1] == P("X") else None
    raises_like(R, "checked", r, refs, what="columns that are not numeric are rejected, nothing else")
    # --- arguments
    for p in r.func.params:
        if p in TABU or p in ("X", "dist_type_schema", "kwargs"):
            continue
        a = e["args"].get(p)
        t = sn(r, a) if isinstance(a, tuple) else None
        R.check(t == P(p), "translated", e.where, f"from_pandas passes {p} on as given", f"{p} = {show(t) if t else 'default'}",
                unsure=t is not None and t[0] not in ("p", "c"))
    R.check("**" in e["args"] or None, "translated", e.where, "from_pandas passes further options on", "keyword arguments are dropped")
    cols = lambda t: frame(lib(t))
    term_like(R, "translated", e.where, "from_pandas learns from the values of all columns in their order", cols(sn(r, e["args"].get("X", NONE))),
              [("a", P("X"), "values")],
              rewrite=lambda t: subst(t, lambda x: P("X") if x[0] == "i" and x[1] == P("X") and x[2][:3] == ("a", P("X"), "columns") else None))
    for n, text in (("dist_type_schema", "{X.columns.index(c): a for c, a in dist_type_schema.items()}"),
                    ("tabu_edges", "[(X.columns.index(u), X.columns.index(v)) for u, v in tabu_edges]"),
                    ("tabu_parent_nodes", "[X.columns.index(n) for n in tabu_parent_nodes]"),
                    ("tabu_child_nodes", "[X.columns.index(n) for n in tabu_child_nodes]")):
        a = e["args"].get(n)
        if not isinstance(a, tuple):
            R.check(False, "translated", e.where, f"{n} is translated to column positions", f"{n} is not passed on", unsure="**" in e["args"] and False)
            continue
        ref = cols(spec_value(R, r, ps, "return " + text))
        term_like(R, "translated", e.where, f"{n} is translated to column positions", alpha(tabu_arg(cols(sn(r, a)), n)), [ref],
                  rewrite=lambda t: alpha(schema_forms(t)))
    # --- names
    def isg(x):
        return x[0] == "call" and x[1][0] == "g" and x[1][1].endswith("pytorch.notears.from_numpy")

    def ab(t):
        t = cols(subst(norm(t), lambda x: P("g") if isg(x) else None))
        t = subst(t, positions)
        t = subst(t, lambda x: P("names") if x[0] == "fold" and alpha(x) == alpha(WANT) else None)
        return pairs(t)

    def positions(x):
        # {position: column}, however it is spelled
        c = ("a", P("X"), "columns")
        strip0 = lambda y: y[:3] if y[0] == "a" else y
        if x[0] == "seq" and x[1] == "dict" and len(x[2]) == 1 and len(x[2][0][1]) == 1 and x[2][0][1][0][0] == "for" and x[2][0][2][0] == "kv":
            L, coll = x[2][0][1][0][1:3]
            k, v = x[2][0][2][1:3]
            if strip0(coll) == c and v == ("el", L) and (k == ("idx", L) or k[0] == "m" and k[2] == "index" and strip0(k[1]) == c and k[3] == (("el", L),)):
                return P("base")
        if x[0] == "call" and x[1] == ("g", "builtins.dict") and len(x[2]) == 1 and x[2][0] == ("call", ("g", "builtins.enumerate"), (c,), ()):
            return P("base")
        if x[0] in ("fcopy",) or x[0] == "call" and x[1][0] == "g" and x[1][1] in ("copy.copy", "copy.deepcopy", "builtins.dict") and len(x[2]) == 1:
            y = x[1] if x[0] == "fcopy" else x[2][0]
            y = subst(y, positions)
            return y if y == P("base") else None
        if x[0] == "m" and x[2] == "copy" and not x[3]:
            y = subst(x[1], positions)
            return y if y == P("base") else None
        return None

    def pairs(t):
        def f(x):
            # names taken from the listing of a dictionary or straight from it
            if x[0] == "seq" and len(x[2]) == 1 and len(x[2][0][1]) == 1 and x[2][0][1][0][0] == "for" and x[2][0][2][0] == "x":
                L, coll = x[2][0][1][0][1:3]
                v = x[2][0][2][1]
                for d in (P("names"), P("base")):
                    if coll == d and v in (("i", d, ("el", L)), ("i", ("a", P("X"), "columns"), ("el", L))):
                        return ("m", d, "values", (), ())
                if coll == ("m", P("names"), "values", (), ()) and v == ("el", L):
                    return coll
            if x[0] == "call" and x[1] in (("g", "builtins.list"), ("g", "builtins.tuple")) and len(x[2]) == 1:
                return f(x[2][0]) or x[2][0]
            if x[0] == "m" and x[1] == P("base") and x[2] == "values":
                return ("a", P("X"), "columns")
            if x[0] == "i" and x[1] == P("base"):
                return ("i", ("a", P("X"), "columns"), subst(x[2], f))
            if x[0] == "m" and x[2] == "nodes" and x[1] == P("g"):
                return ("a", P("g"), "nodes") if not x[3] and not x[4] else None
            if x[0] == "m" and x[2] == "nodes" and x[1][0] != "a" and dict(x[4]).get("data") == const(True):
                return ("m", ("a", x[1], "nodes"), "data", (const(True),), ())
            if x[0] == "m" and x[2] == "items" and x[1] == ("a", P("g"), "graph"):
                return None
            return None
        return subst(subst(t, f), f)
    uniq = ["{n[1]['dist_type'] for n in g.nodes(data=True)}", "{d['dist_type'] for n, d in g.nodes(data=True)}", "{t for n, t in g.nodes(data='dist_type')}",
            "{g.nodes[n]['dist_type'] for n in g.nodes}", "set(nx.get_node_attributes(g, 'dist_type').values())"]
    ups = [x for x in r.ev("mcall") if x["name"] == "update_idx_col"]
    what = "the names of expanded columns come from every distribution type of the graph, starting from {position: column}"
    WANT = ("none", 0)
    folds = []
    for x in [x for x in r.events if x.pos > e.pos]:
        for v in list(x.data.values()) + (list(x["args"].values()) if isinstance(x.data.get("args"), dict) else list(x.data.get("args") or ())):
            if isinstance(v, tuple) and v and isinstance(v[0], str):
                folds += [y for y in loops(ab(sn(r, v)), "update_idx_col") if y not in folds]
    good = []
    for u in uniq:
        s = R.spec(r.func, f"def spec(g, base):\n    import networkx as nx\n    names = base\n    for t in {u}:\n        names = t.update_idx_col(names)\n    return names\n")
        good.append(pairs(cols(norm(s.final(s.ret)))))
    if not folds:
        R.check(bool(ups), "names", w, what, "update_idx_col is never used", unsure=False)
        if ups:
            R.und("names", w, what, "the names are not recognised")
        return
    aslist = lambda t: subst(alpha(t), lambda x: ("seq", "list") + x[2:] if x[0] == "seq" and x[1] == "set" else None)
    term_like(R, "names", ups[0].where if ups else w, what, folds[0], good, rewrite=aslist)
    WANT = folds[0]
    shared(R, r, ups)
    # --- the two graphs
    key = [x for x in r.ev("setitem") if sn(r, x["key"]) == const("graph_collapsed")]
    main, small = r.ret, key[-1]["value"] if key else None
    what = "the graph carries its collapsed form under column names"
    if small is None or main[0] != "ref" or small[0] != "ref" or small == main:
        R.check(bool(key), "collapsed", w, what, "graph_collapsed keeps positions instead of names", unsure=any(
            "graph_collapsed" in show(sn(r, v)) for x in r.ev("mcall") for v in x.data.values() if isinstance(v, tuple) and v and isinstance(v[0], str)) and False)
        if key:
            R.und("collapsed", w, what, "the graphs are not recognised")
        return
    owner = lambda x: x.data.get("obj") if x.kind in ("mut", "setitem") else x["args"].get("self")
    sel = lambda g: lambda k, o, x: (k == "mut" and x["method"] in ("add_nodes_from", "add_node") or k == "call" and x["name"] in (
        "add_edges_from", "add_edge", "add_weighted_edges_from")) and owner(x) in (g, P("sm"))
    heads = ["sm.add_nodes_from(list({v}))", "for n in {v}:\n        sm.add_node(n)"]
    bodies = ["for u, v, d in {g}.edges.data(True):\n        sm.add_edge({m}[u], {m}[v], origin='learned', weight=d['weight']{x1})",
              "for u, v in {g}.edges:\n        sm.add_edge({m}[u], {m}[v], origin='learned', weight={g}[u][v]['weight']{x2})",
              "for u, v in {g}.edges:\n        sm.add_edge({m}[u], {m}[v], origin='learned', weight={g}.edges[u, v]['weight']{x3})",
              "sm.add_edges_from([({m}[u], {m}[v], dict(weight=d['weight']{x1})) for u, v, d in {g}.edges.data(True)], origin='learned')"]
    lone = ["for u, v, w in {g}.edges.data('weight'):\n        sm.add_edge({m}[u], {m}[v], origin='learned', weight=w)",
            "sm.add_weighted_edges_from([({m}[u], {m}[v], w) for u, v, w in {g}.edges.data('weight')], origin='learned')"]
    for g, v, m, src, full, what in ((main, "names.values()", "names", "g", True, "all expanded columns are nodes, and every learned edge joins the columns it was "
                                      "learned for, with its weight and mean effect"),
                                     (small, "X.columns", "X.columns", "g.graph['graph_collapsed']", False, "all columns are nodes of the collapsed graph, and every "
                                      "collapsed edge joins its columns, with its weight")):
        extra = {"x1": ", mean_effect=d['mean_effect']", "x2": f", mean_effect={src}[u][v]['mean_effect']", "x3": f", mean_effect={src}.edges[u, v]['mean_effect']"}
        if not full:
            extra = dict.fromkeys(extra, "")
        specs = [R.spec(r.func, f"def spec({ps}, g, names, sm):\n    {h}\n    {b}\n".format(v=v, m=m, g=src, **extra), opaque=SMOPS)
                 for h in heads for b in bodies + ([] if full else lone)]
        rw = lambda t: subst(ab(t), lambda x: P("sm") if isnew(x, "StructureModel") and not x[2] else ("m", ("m", x[1][1], "edges", (), ()), "data", x[3], x[4])
                             if False else None)
        events_like(R, "edges", r, specs, sel(g), what, rewrite=rw, okc=True)
    for k in ("bias", "dist_type"):
        specs = [R.spec(r.func, f"def spec({ps}, g, names, sm):\n    {b}\n") for b in (
            f"for n, d in g.nodes(data=True):\n        sm.nodes[names[n]]['{k}'] = d['{k}']", f"for n, d in g.nodes(data='{k}'):\n        sm.nodes[names[n]]['{k}'] = d",
            f"for n in g.nodes:\n        sm.nodes[names[n]]['{k}'] = g.nodes[n]['{k}']")]
        es = [x for x in r.ev("setitem") if sn(r, x["key"]) == const(k)]
        what = f"every node keeps the {k} learned for it"
        if not es:
            R.check(False, "nodes", w, what, f"no {k} is stored", unsure=any(x["name"] in ("set_node_attributes", "update") for x in r.ev("mcall") + r.ev("call")))
            continue
        events_like(R, "nodes", r, specs, lambda k_, o, x, k=k: k_ == "setitem" and sn(r, x["key"]) == const(k), what,
                    rewrite=lambda t: subst(ab(t), lambda x: P("sm") if isnew(x, "StructureModel") and not x[2] else None), okc=True)
    # the collapsed graph replaces the one on positions
    allk = [x for x in r.ev("setitem") if x not in key and contains(("_", ab(sn(r, x["obj"]))), lambda y: y[0] == "a" and y[2] == "graph") and
            isnew(ab(sn(r, x["obj"]))[1], "StructureModel")]
    upd = [x for x in r.ev("mcall") if x["name"] == "update" and contains(("_", ab(sn(r, x["obj"]))), lambda y: y[0] == "a" and y[2] == "graph")]
    what = "graph attributes are carried over"
    if not allk and not upd:
        R.bad("attributes", w, what, "no attribute of the learned graph is copied")
    for x in allk:
        fs = fors(nctx(r, x))
        k, v = ab(sn(r, x["key"])), ab(sn(r, x["value"]))
        gg = ("a", P("g"), "graph")
        ok = len(fs) == 1 and ab(fs[0][2])[:3] == gg and k == ("el", fs[0][1]) and v in (("i", gg, k), ("i", ("a", P("g"), "graph", 0), k))
        ok = ok or k == const("structure_learner") and v[0] == "i" and v[2] == k
        R.check(ok, "attributes", x.where, what, f"{show(k)[:60]} = {show(v)[:100]}", unsure=imprecise((k, v)) or not fs)
    last = max([x.pos for x in allk + upd] or [0])
    R.check(key[-1].pos > last, "collapsed", key[-1].where, "the collapsed graph under column names replaces the one on positions", "it is overwritten")
    R.check(ncond_ok(r, key[-1]) == T or None, "collapsed", key[-1].where, "the collapsed graph is always there", show(ncond_ok(r, key[-1]))[:100])
    roots = frozenset({P("X"), P("dist_type_schema"), P("hidden_layer_units")} | {P(t) for t in TABU})
    untouched(R, "read-only", r, roots, "from_pandas modifies neither the data nor the options")
    R.floor(30)


def shared(R, r, ups):
    """a type may rewrite the dictionary it is given, so nobody else may hold that dictionary"""
    what = "the positions are kept in a dictionary of their own while names are expanded"
    writes = [c for c in ("DistTypeCategorical", "DistTypeOrdinal", "DistTypePoisson", "DistTypeBinary", "DistTypeContinuous") if rewrites(R, c)]
    for x in ups:
        a = x["args"][0] if x["args"] else NONE
        raw = r.interp.loops.get(a[1], {}).get("raw", {}).get(a[2]) if a[0] == "lv" else a
        held = [k for k, v in r.st.loc.items() if v == raw and raw[0] == "ref"] if isinstance(raw, tuple) else []
        R.check(not (held and writes), "names", x.where, what, f"{held[:2]} is the dictionary that {writes[:1]}.update_idx_col rewrites")


def rewrites(R, cls):
    from sa.effects import Roots, effects
    qs = [q for q in R.p.func_by_qual if q.endswith(f"{cls}.update_idx_col")]
    for q in qs:
        s = R.run(q)
        p = P(s.func.params[1])
        if any(e.roots & {p} for e in effects(s, Roots(s))):
            return True
    return False


CHECKS = {"C34": (c34, ""), "C35": (c35, "")}
