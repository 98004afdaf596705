"""sklearn-style estimators around the learned structure: what is learned, what is predicted, what is reported."""
from sa.conform import distinct, event_forms, match_events, method, raises_like, sn, term_like, untouched
from sa.rule import NONE, P, alpha, nctx, show
from sa.terms import F, const, contains, mk_and, mk_ite, mk_not, mk_or, subst

ES = "structure.pytorch.sklearn."
BASE = ES + "_base.DAGBase."
CLF = ES + "clf.DAGClassifier."
REG = ES + "reg.DAGRegressor."
G = lambda n: ("g", n)
SELF = P("self")
FLOATS = (G("builtins.float"), G("numpy.float64"), const("float"), const("float64"))
WORDS = ("reshape", "numpy.argmax", "numpy.argmin", "round", "transform", "inverse_transform", "fit", "fit_transform", "numpy.zeros", "numpy.ones", "numpy.empty",
         "threshold_till_dag", "feature_importances_", "numpy.abs", "abs", "sort_values", "sort_index", "hstack", "vstack", "numpy.floor",
         "numpy.ceil", "numpy.column_stack", "numpy.vstack", "numpy.hstack", "numpy.clip", "fillna", "dropna", "astype")


def words(x):
    """one spelling of library vocabulary"""
    f = words
    if x[0] == "bop" and x[1] == "or" and len(x[2]) == 2:
        a, b = (subst(y, f) for y in x[2])
        return mk_ite(a, a, b)
    if x[0] == "call" and x[1][0] == "g":
        n, args, kw = x[1][1], x[2], dict(x[3])
        if n in ("numpy.asarray", "numpy.array", "numpy.asanyarray", "numpy.copy") and len(args) == 1 and set(kw) <= {"dtype", "copy"}:
            v = subst(args[0], f)
            v = v[1] if v[0] == "arr" else v
            if kw.get("dtype") in FLOATS and (n == "numpy.array" and kw.get("copy") != F):
                return ("m", ("arr", v), "astype", (FLOATS[0],), ())
            if not kw or n == "numpy.array" and set(kw) == {"copy"}:
                return ("arr", v)
        if n in ("numpy.hstack", "numpy.column_stack") and len(args) == 1 or n == "numpy.concatenate" and len(args) == 1 and kw.get("axis") in (const(1), const(-1)):
            return ("beside", items(subst(args[0], f)))
        if n == "numpy.stack" and len(args) == 1 and kw.get("axis") in (const(1), const(-1)):
            return ("columns", items(subst(args[0], f)))
        if n == "numpy.argmax" and args:
            kw.update({"axis": args[1]} if len(args) > 1 else {})
            return ("m", subst(args[0], f), "argmax", (), tuple((k, subst(v, f)) for k, v in sorted(kw.items())))
        if n in ("numpy.round", "numpy.rint", "numpy.around") and len(args) == 1 and not kw:
            return ("m", subst(args[0], f), "round", (), ())
        if n == "numpy.zeros":
            shape = kw.get("shape", args[0] if args else NONE)
            return ("zeros", tuple_of(subst(shape, f)))
        if n == "builtins.len" and len(args) == 1:
            a = subst(args[0], f)
            if a[0] == "ite":
                return mk_ite(a[1], *(subst(("call", x[1], (y,), ()), f) for y in a[2:4]))
            return ("a", a[1], "ndim") if a[0] == "a" and a[2] == "shape" else ("i", ("a", data(a), "shape"), const(0)) if table(a) else ("call", x[1], (a,), ())
        if n.endswith("get_edges_to_node"):
            return x[:2] + (subst(x[2], f), tuple(sorted((k, subst(v, f)) for k, v in x[3] if not (k == "data" and v == const("weight")))))
        if n == "pandas.concat" and "axis" in kw:
            kw["axis"] = const(1) if kw["axis"] == const("columns") else kw["axis"]
            return x[:2] + (tuple(items(subst(a, f)) for a in args), tuple((k, subst(v, f)) for k, v in sorted(kw.items())))
        if n == "builtins.float" and len(args) == 1 and args[0][0] == "c" and isinstance(args[0][1], (int, float)):
            return const(float(args[0][1]))
    if x[0] == "a" and x[2] == "shape":
        v = subst(x[1], f)
        return ("a", data(v), "shape") if table(v) else ("a", v) + x[2:]
    if x[0] == "i" and x[1][0] == "a" and x[1][2] == "classes_" and x[2][0] == "ite":
        c, u, v = (subst(y, f) for y in x[2][1:])
        a = subst(x[1], f)
        return mk_ite(c, ("i", a, u), ("i", a, v))
    if x[0] == "a" and x[2] == "values" or x[0] == "m" and x[2] == "to_numpy" and not x[3] and not x[4]:
        v = subst(x[1], f)
        return ("arr", v[1] if v[0] == "arr" else v)
    if x[0] == "a" and x[2] == "T" and x[1][0] == "call" and x[1][1] in (G("numpy.vstack"), G("numpy.array"), G("numpy.stack")) and len(x[1][2]) == 1 and not x[1][3]:
        return ("columns", items(subst(x[1][2][0], f)))
    if x[0] == "m" and x[2] in ("ravel", "flatten") and not x[3] and not x[4]:
        return ("m", subst(x[1], f), "reshape", (const(-1),), ())
    if x[0] == "m" and x[2] == "reshape" and len(x[3]) == 1 and x[3][0][0] == "tuple":
        return ("m", subst(x[1], f), "reshape", subst(x[3][0][1], f), ())
    if x[0] == "m" and x[2] == "argmax":
        kw = dict(x[4])
        kw.update({"axis": x[3][0]} if x[3] else {})
        return ("m", subst(x[1], f), "argmax", (), tuple((k, subst(v, f)) for k, v in sorted(kw.items())))
    if x[0] == "m" and x[2] == "astype" and len(x[3]) == 1:
        v = subst(x[1], f)
        if x[3][0] in FLOATS and not x[4]:
            return ("m", v, "astype", (FLOATS[0],), ())
        if x[3][0] in (G("builtins.int"), G("numpy.int64"), G("numpy.int32"), const("int")) and (v[0] in ("<", "not", "or", "and") or v[0] == "m" and v[2] == "round"):
            # rounding a probability
            return ("<", const(0.5), v[1]) if v[0] == "m" else v
    if x[0] == "i" and x[1][0] == "m" and x[1][2] == "nodes" and not x[1][3] and set(dict(x[1][4])) <= {"data"}:
        return ("i", ("a", subst(x[1][1], f), "nodes"), subst(x[2], f))
    if x[0] == "==" and len(x) == 3:
        a, b = subst(x[1], f), subst(x[2], f)
        for u, v in ((a, b), (b, a)):
            # a fitted classifier has two classes or more
            if u == const(2) and classes(v):
                return ("<", v, const(3))
        return (x[0], a, b)
    if x[0] == "<" and x[1][0] == "c" and isinstance(x[1][1], int):
        v = subst(x[2], f)
        if classes(v):
            return mk_not(("<", v, const(x[1][1] + 1)))
    return None


def table(a):
    """an array or frame, whose length is its number of rows"""
    return a[0] == "arr" or a[0] == "m" and a[2] in ("astype", "copy") and table(a[1]) or a[0] == "call" and a[1] == G("pandas.DataFrame")


def data(a):
    while table(a):
        a = a[2][0] if a[0] == "call" else a[1]
    return a


def classes(x):
    """a number of classes"""
    return x[0] == "call" and x[1] == G("builtins.len") and len(x[2]) == 1 and x[2][0][0] == "a" and x[2][0][2] == "classes_"


def items(x):
    if x[0] == "seq" and all(not c and i[0] == "x" for _, c, i in x[2]):
        return ("tuple", tuple(i[1] for _, _, i in x[2]))
    return x


def tuple_of(x):
    x = items(x)
    return x if x[0] == "tuple" else ("tuple", (x,))


def uncopied(x):
    """copies have the values of what they copy"""
    f = uncopied
    if x[0] == "m" and x[2] == "copy" and not x[3] or x[0] == "m" and x[2] == "astype" and x[3] and x[3][0] in FLOATS:
        return subst(x[1], f)
    if x[0] == "call" and x[1] in (G("copy.deepcopy"), G("copy.copy"), G("builtins.dict"), G("builtins.list"), G("builtins.tuple")) and len(x[2]) == 1 and not x[3]:
        return subst(x[2][0], f)
    if x[0] == "seq" and x[1] == "list" and x[2] and len(x[2][0][1]) == 1 and x[2][0][1][0][0] == "for" and x[2][0][2] == ("x", ("el", x[2][0][1][0][1])):
        v = subst(x[2][0][1][0][2], f)
        return v if len(x[2]) == 1 else ("and then", v, subst(x[2][1:], f))
    if x[0] in ("list", "dict", "tuple") and len(x) == 2 and isinstance(x[1], tuple) and x[1] and isinstance(x[1][0], str):
        return subst(x[1], f)
    return None


NAMED = ("a", ("call", G("pandas.Series"), (P("y"),), ()), "name")


def fitted(x):
    """the target's name is the one it was given at the start, whichever copy it is read from"""
    if x[0] == "a" and x[:3] == NAMED:
        return ("target",)
    return None


def target(x):
    if x[0] == "ite" and x[1] == ("target",) and x[2] == ("target",) and x[3] == const("__target"):
        return ("target",)
    # whatever copy is read: the substitute only where there is no name
    if x[0] == "ite" and x[2] == const("__target") and x[3] == ("target",) and x[1][0] == "and" and mk_not(("target",)) in x[1][1:]:
        return ("target",)
    return None


SCHEMA = ("a", SELF, "dist_type_schema")


def schema(x):
    """the types of the features: those given, or continuous"""
    if x[0] == "ite" and x[1] == SCHEMA:
        a, b = subst(x[2], schema), subst(x[3], schema)
        if a in (SCHEMA, ("types",)) and (b == ("types",) or continuous(b)):
            return ("types",)
        if contains(a, lambda y: y == SCHEMA) and subst(a, lambda y: const("cont") if y[0] == "i" and y[1] in (SCHEMA, ("types",)) else None) == b:
            return subst(a, lambda y: ("types",) if y == SCHEMA else None)
    if x[0] == "or" and mk_not(SCHEMA) in x[1:]:
        rest = [y for y in x[1:] if y != mk_not(SCHEMA)]
        if len(rest) == 1 and rest[0][0] == "==" and const("cont") in rest[0]:
            return subst(rest[0], lambda y: ("types",) if y == SCHEMA else None)
    if x[0] == "seq" and x[1] == "dict" and x[2] and not x[2][0][1] and x[2][0][2][0] == "base":
        v = subst(x[2][0][2][1], schema)
        v = v[1] if v[0] in ("dictof", "dict") and len(v) == 2 else v
        if v == ("types",):
            return v if all(y[1] == () and y[2] == TYPED for y in x[2][1:]) else None
    return None


TYPED = ("kv", ("target",), ("a", SELF, "_target_dist_type"))


def continuous(b):
    return b[0] == "seq" and b[1] == "dict" and len(b[2]) == 1 and b[2][0][2][0] == "kv" and b[2][0][2][2] == const("cont") and len(b[2][0][1]) == 1 and \
        b[2][0][1][0][0] == "for" and b[2][0][1][0][2][:3] == ("a", ("call", G("pandas.DataFrame"), (P("X"),), ()), "columns") and b[2][0][2][1] == ("el", b[2][0][1][0][1])


def values(t):
    """what a term of fit stands for"""
    for f in (words, uncopied, words, fitted, target, schema):
        t = subst(t, f)
    for _ in range(3):
        t = subst(t, none_kept)
        t = subst(t, lambda x: subst(x[2], same_branch) if x[0] == "ite" and subst(x[2], same_branch) == subst(x[3], same_branch) else None)
    return subst(t, lambda x: ("learned",) if x[0] == "call" and x[1][0] == "g" and x[1][1].endswith(".from_pandas") else None)


def none_kept(x):
    """None if x is None else x"""
    if x[0] == "ite" and x[2] == NONE and x[1] in (("is", NONE, x[3]), ("is", x[3], NONE)):
        return subst(x[3], none_kept)
    return None


def same_branch(x):
    return subst(x[2], same_branch) if x[0] == "ite" and subst(x[2], same_branch) == subst(x[3], same_branch) else None


FIT = '''
def spec(self, X, y):
    check_X_y(X, y, y_numeric=True)
    X = pd.DataFrame(X)
    y = pd.Series(y)
    y.name = y.name or "__target"
    types = copy.deepcopy(self.dist_type_schema) or {c: "cont" for c in X.columns}
    if self.standardize:
        self.continuous_col_idxs = [X.columns.get_loc(c) for c, alias in types.items() if alias == "cont"]
        X = X.copy()
        self._ss_X = StandardScaler()
        X.iloc[:, self.continuous_col_idxs] = self._ss_X.fit_transform(X.iloc[:, self.continuous_col_idxs])
        if self._target_dist_type == "cont":
            y = y.copy()
            self._ss_y = StandardScaler()
            y[:] = self._ss_y.fit_transform(y.values.reshape(-1, 1)).reshape(-1)
    types[y.name] = self._target_dist_type
    self._features = tuple(X.columns)
    self._target = y.name
    X = pd.concat([X, y], axis=1)
    tabu = copy.deepcopy(self.tabu_parent_nodes)
    if self.dependent_target:
        if tabu is None:
            tabu = [self._target]
        elif self._target not in tabu:
            tabu.append(self._target)
    self.graph_ = notears.from_pandas(X, dist_type_schema=types, lasso_beta=self.alpha, ridge_beta=self.beta, hidden_layer_units=self.hidden_layer_units,
                                      w_threshold=self.threshold, tabu_edges=self.tabu_edges, tabu_parent_nodes=tabu, tabu_child_nodes=self.tabu_child_nodes,
                                      use_bias=self.fit_intercept, **self.kwargs)
    if self.enforce_dag:
        self.graph_.threshold_till_dag()
    return self
'''
ASKED = {"X": "the features, then the target", "dist_type_schema": "the schema of the features, continuous by default",
         "lasso_beta": "alpha", "ridge_beta": "beta", "hidden_layer_units": "the hidden layers", "w_threshold": "the threshold", "tabu_edges": "the tabu edges",
         "tabu_parent_nodes": "the tabu parents, with a dependent target among them", "tabu_child_nodes": "the tabu children", "use_bias": "whether to fit an intercept"}
INIT = '''
def spec(self, dist_type_schema, alpha, beta, fit_intercept, hidden_layer_units, threshold, tabu_edges, tabu_parent_nodes, tabu_child_nodes, dependent_target,
         enforce_dag, standardize, target_dist_type, **kwargs):
    if not isinstance(alpha, (int, float)):
        raise TypeError("alpha")
    if not isinstance(beta, (int, float)):
        raise TypeError("beta")
    if not isinstance(fit_intercept, bool):
        raise TypeError("fit_intercept")
    if not isinstance(threshold, (int, float)):
        raise TypeError("threshold")
    if target_dist_type is not None and target_dist_type not in self._supported_types:
        raise NotImplementedError("target")
    self.alpha = alpha
    self.beta = beta
    self.fit_intercept = fit_intercept
    self.hidden_layer_units = hidden_layer_units
    self.dist_type_schema = dist_type_schema
    self.threshold = threshold
    self.tabu_edges = tabu_edges
    self.tabu_parent_nodes = tabu_parent_nodes
    self.tabu_child_nodes = tabu_child_nodes
    self._target_dist_type = target_dist_type
    self.kwargs = kwargs
    self.dependent_target = dependent_target
    self.enforce_dag = enforce_dag
    self.standardize = standardize
'''
CLF_FIT = '''
def spec(self, X, y):
    check_classification_targets(y)
    enc = LabelEncoder()
    y = y.copy()
    y[:] = enc.fit_transform(y)
    self.classes_ = enc.classes_
    n = len(enc.classes_)
    if n < 2:
        raise ValueError("one class")
    if self._target_dist_type is None:
        self._target_dist_type = "cat" if n > 2 else "bin"
    DAGBase.fit(self, X, y)
    return self
'''
REG_FIT = '''
def spec(self, X, y):
    if self._target_dist_type is None:
        self._target_dist_type = "cont"
    DAGBase.fit(self, X, y)
    return self
'''


def events(R, rule, r, s, select, what, rewrite=values):
    got, want = ([(k, c, e) for k, c, e in event_forms(z, select, rewrite, True)] for z in (r, s))
    return match_events(R, rule, r.func.where, got, [want], what)


def sets(*attrs):
    return lambda k, o, e: k == "setattr" and o in (SELF, ("self",)) and e.data["attr"] in attrs


def call(*names):
    return lambda k, o, e: e.kind in ("call", "mcall") and (e.data.get("name") in names)


def c42(R):
    with distinct(*WORDS):
        learned(R)
    R.floor(44)


def grows(k, o, e):
    return e.kind == "mut" and e.data["method"] in ("append", "add", "extend", "insert", "remove", "clear", "pop", "update")


def sources(t):
    """what a table or array may be a view of"""
    while isinstance(t, tuple) and t:
        if t[0] == "ite":
            return sources(t[2]) | sources(t[3])
        if t[0] == "a" and t[2] in ("iloc", "loc", "values", "at", "iat") or t[0] == "i":
            t = t[1]
        elif t[0] == "call" and t[1][0] == "g" and t[1][1] in ("pandas.DataFrame", "pandas.Series", "numpy.asarray") and len(t[2]) == 1 and \
                dict(t[3]).get("copy") in (None, F):
            t = t[2][0]
        else:
            return {t}
    return set()


def own(R, r):
    """what fit writes to is its own, and the target's type joins the schema once the continuous columns are known"""
    w = r.func.where
    for e in r.events:
        if e.kind == "setitem":
            bad = sources(sn(r, e.data["obj"])) & {P("X"), P("y")}
            R.check(not bad, "read-only", e.where, "fit writes into copies of X and y only", f"writes into {show(e.data['obj'])[:120]}, which may share its data with the argument")
    ts = [e for e in r.events if typed(e)]
    known = [e for e in r.events if e.kind == "setattr" and e.data["attr"] == "continuous_col_idxs"]
    es = asked(r, "from_pandas")
    if not es:
        return
    raw = es[0].data["args"].get("dist_type_schema", NONE)
    late = [e for e in known if any(t.pos < e.pos for t in ts)]
    R.check(not late, "prepared", late[0].where if late else w, "the target's type joins the schema after the continuous features are listed",
            "the target is listed among the continuous features")
    ok = any(t.pos < es[0].pos and not [c for c in nctx(r, t) if c[0] != "if"] and values(alpha(sn(r, t.data["key"]))) == ("target",) for t in ts)
    if not ok:
        v = alpha(sn(r, raw))
        for f in (words, uncopied, words, fitted, target):
            v = subst(v, f)
        ok = contains(v, lambda y: y == TYPED)
    R.check(ok, "prepared", ts[0].where if ts else es[0].where, "the schema says the target's type", "no type for the target", unsure=bool(ts))


def typed(e):
    return e.kind == "setitem" and e.data["value"] == ("a", SELF, "_target_dist_type", 0)


def asked(r, n):
    return [e for e in r.events if e.kind == "call" and e.data["fn"][0] == "g" and e.data["fn"][1].endswith("." + n)]


def learned(R):
    r, ss = method(R, BASE + "fit", [FIT, FIT.replace("tabu.append(self._target)", "tabu = tabu + [self._target]")], opaque=("from_pandas", "threshold_till_dag"))
    s = ss[0] if any(grows(None, None, e) for e in r.events) else ss[1]
    r.rewrite = s.rewrite = values
    es, (ref,) = asked(r, "from_pandas"), asked(s, "from_pandas")
    if len(es) != 1:
        R.check(False, "asked", r.func.where, "fit learns one structure", f"{len(es)} calls of from_pandas", unsure=True)
    for e in es[:1]:
        args = {k: values(alpha(sn(r, v))) for k, v in e.data["args"].items()}
        want = {k: values(alpha(sn(s, v))) for k, v in ref.data["args"].items()}
        for k, what in ASKED.items():
            term_like(R, "asked", e.where, f"fit hands from_pandas {what}", args.get(k, NONE), [want[k]])
        rest = {k: v for k, v in args.items() if k not in ASKED}
        R.check(rest == {k: v for k, v in want.items() if k not in ASKED}, "asked", e.where, "fit hands from_pandas the other arguments as they were given",
                f"{ {k: show(v)[:60] if isinstance(v, tuple) else v for k, v in rest.items()} }", unsure=bool(rest) or not set(ASKED) <= set(args))
    events(R, "prepared", r, s, lambda k, o, e: e.kind == "setitem" and not typed(e), "fit standardises the continuous columns, and a continuous target")
    events(R, "prepared", r, s, grows, "a dependent target is added to the copy of the tabu parents")
    own(R, r)
    kept(R, "kept", r, s, {"continuous_col_idxs": "the places of the continuous columns", "_ss_X": "the scaler of the features", "_ss_y": "the scaler of the target",
                           "_features": "the names of the features", "_target": "the name of the target", "graph_": "the structure learned"})
    events(R, "prepared", r, s, call("StandardScaler"), "features and target have a scaler each")
    events(R, "asked", r, s, call("threshold_till_dag"), "the structure is thresholded to a DAG exactly if asked to")
    events(R, "checked", r, s, call("check_X_y"), "X and y are checked")
    term_like(R, "kept", r.func.where, "fit returns the estimator", r.final(r.ret), [s.final(s.ret)])
    untouched(R, "read-only", r, frozenset({P("X")}), "fit does not change X")
    untouched(R, "read-only", r, frozenset({SELF}), "fit does not change what the estimator was constructed with",
              allowed=lambda e: e.kind == "setattr" and e.attr not in PARAMS or from_graph(e.target))
    r, (s,) = method(R, BASE + "__init__", INIT)
    raises_like(R, "constructed", r, [s], what="the constructor rejects")
    at = [{e.data["attr"]: sn(z, z.final(e.data["value"])) for e in z.events if e.kind == "setattr" and e.data["obj"] in (SELF, ("self",))} for z in (r, s)]
    for k, v in at[1].items():
        term_like(R, "constructed", r.func.where, f"the constructor keeps {k}", at[0].get(k, NONE), [v])
    r, (s,) = method(R, CLF + "fit", CLF_FIT, opaque=("DAGBase.fit",))
    r.rewrite = s.rewrite = spelled
    events(R, "encoded", r, s, lambda k, o, e: e.kind == "setitem", "the classifier learns from the number of each class")
    kept(R, "encoded", r, s, {"classes_": "the classes in the order of their numbers", "_target_dist_type": "two classes are binary, more categorical"})
    events(R, "encoded", r, s, call("fit"), "the classifier fits the encoded target", uncopied_only)
    raises_like(R, "encoded", r, [s], what="the classifier rejects a single class")
    untouched(R, "read-only", r, frozenset({P("X"), P("y")}), "the classifier changes neither X nor y")
    before(R, r, "_target_dist_type", "fit")
    r, (s,) = method(R, REG + "fit", REG_FIT, opaque=("DAGBase.fit",))
    kept(R, "encoded", r, s, {"_target_dist_type": "the regressor's target is continuous unless said otherwise"})
    events(R, "encoded", r, s, call("fit"), "the regressor fits X and y", uncopied_only)
    before(R, r, "_target_dist_type", "fit")


PARAMS = ("alpha", "beta", "fit_intercept", "hidden_layer_units", "dist_type_schema", "threshold", "tabu_edges", "tabu_parent_nodes", "tabu_child_nodes", "kwargs",
          "dependent_target", "enforce_dag", "standardize")


def from_graph(t):
    while isinstance(t, tuple) and t and t[0] in ("a", "i", "m"):
        if t[0] == "a" and t[1] == SELF:
            return t[2] in ("graph_", "_ss_X", "_ss_y")
        t = t[1]
    return False


def uncopied_only(t):
    return subst(subst(t, uncopied), words)


def before(R, r, attr, name):
    a = [e for e in r.events if e.kind == "setattr" and e.data["attr"] == attr]
    c = asked(r, "DAGBase." + name)
    if a and c:
        R.check(max(e.pos for e in a) < min(e.pos for e in c), "encoded", c[0].where, f"{r.func.qual.split('.')[-2]}: the target's type is set before the structure is learned",
                "it is set afterwards")


def kept(R, rule, r, s, table):
    for k, what in table.items():
        events(R, rule, r, s, sets(k), f"{r.func.qual.split('.')[-2]}.{k}: {what}")


# ------------------------------------------------------------------ predictions
PREDICT = '''
def spec(self, X):
    X = np.asarray(X)
    if self.standardize:
        X = X.astype(float)
        X[:, self.continuous_col_idxs] = self._ss_X.transform(X[:, self.continuous_col_idxs])
    X = np.hstack([X, np.zeros(shape=(X.shape[0], 1))])
    learner = self.graph_.graph["structure_learner"]
    whole = learner.reconstruct_data(X)
    kind = self.graph_.nodes[self._target]["dist_type"]
    out = kind.get_columns(whole)
    if self.standardize and self._target_dist_type == "cont":
        out = self._ss_y.inverse_transform(out.reshape(-1, 1)).reshape(-1)
    return out
'''
EDGES = '''
def spec(self, name, data):
    edges = pd.Series(index=self._features)
    for i, j, w in self.graph_.edges(data=data):
        if j == name:
            edges[i] = w
    edges = edges.fillna(0)
    return edges
'''
ANSWERS = {
    BASE + "feature_importances_": ['''
def spec(self):
    return np.asarray(self.get_edges_to_node(self._target))
'''],
    BASE + "coef_": ['''
def spec(self):
    return np.asarray(self.get_edges_to_node(self._target, data="mean_effect"))
'''],
    BASE + "intercept_": ['''
def spec(self):
    bias = self.graph_.nodes[self._target]["bias"]
    return 0.0 if bias is None else float(bias)
'''],
    CLF + "predict_proba": ['''
def spec(self, X):
    p = DAGBase.predict(self, X)
    if p.ndim == 1:
        p = np.vstack([1 - p, p]).T
    return p
'''],
    CLF + "predict": ['''
def spec(self, X):
    p = self.predict_proba(X)
    if len(self.classes_) == 2:
        return self.classes_[p[:, 1].round().astype(np.int64)]
    return self.classes_[np.argmax(p, axis=1)]
''', '''
def spec(self, X):
    return self.classes_[np.argmax(self.predict_proba(X), axis=1)]
'''],
}
for n_, d_ in (("feature_importances_", ""), ("coef_", ', data="mean_effect"')):
    ANSWERS[CLF + n_] = [f'''
def spec(self):
    if len(self.classes_) == 2:
        return np.asarray(self.get_edges_to_node(self._target{d_})).reshape(1, -1)
    return np.vstack([np.asarray(self.get_edges_to_node(DistTypeCategorical.make_node_name(self._target, c){d_})).reshape(1, -1)
                      for c in range(len(self.classes_))])
''', f'''
def spec(self):
    if len(self.classes_) == 2:
        return np.asarray(self.get_edges_to_node(self._target{d_})).reshape(1, -1)
    return np.vstack([np.asarray(self.get_edges_to_node(DistTypeCategorical.make_node_name(self._target, c){d_}))
                      for c in range(len(self.classes_))])
''']
ANSWERS[CLF + "intercept_"] = ['''
def spec(self):
    if len(self.classes_) == 2:
        bias = self.graph_.nodes[self._target]["bias"]
        return np.array([0.0 if bias is None else float(bias)])
    out = []
    for c in range(len(self.classes_)):
        bias = self.graph_.nodes[DistTypeCategorical.make_node_name(self._target, c)]["bias"]
        out.append(0.0 if bias is None else float(bias))
    return np.array(out)
''']
WHAT = {"predict": "predictions", "predict_proba": "probabilities", "feature_importances_": "importances are the weights of the target's edges",
        "coef_": "coefficients are the mean effects on the target", "intercept_": "the intercept is the target's bias, zero without one"}


def c43(R):
    with distinct(*WORDS):
        answered(R)
    R.floor(20)


def series(x):
    """a series of zeros for given labels"""
    if x[0] == "m" and x[2] == "fillna" and x[3] in ((const(0),), (const(0.0),)) and labels(x[1]):
        return ("zero where unset", subst(labels(x[1]), series))
    if x[0] == "call" and labels(x):
        return ("zero where unset" if x[2] or len(x[3]) > 1 else "by label", subst(labels(x), series))
    return None


def split(x):
    """either-or as a choice"""
    if x[0] == "or" and len(x) == 3 and all(y[0] == "and" and len(y) == 3 for y in x[1:]):
        a, b = (set(y[1:]) for y in x[1:])
        for c in a:
            if mk_not(c) in b:
                (u,), (v,) = a - {c}, b - {mk_not(c)}
                return ("ite", c, subst(u, split), subst(v, split)) if c[0] != "not" else ("ite", c[1], subst(v, split), subst(u, split))
    if x[0] == "<" and x[2][0] == "ite":
        return ("ite", x[2][1]) + tuple(subst(("<", x[1], y), split) for y in x[2][2:])
    return None


def labels(x):
    """the labels of a series without values, or of zeros"""
    if x[0] == "call" and x[1] == G("pandas.Series"):
        kw = dict(x[3])
        data = [x[2][0]] if len(x[2]) == 1 else [kw["data"]] if "data" in kw else []
        if "index" in kw and len(x[2]) < 2 and all(d in (const(0), const(0.0)) for d in data):
            return kw["index"]
    return None


def spelled(t):
    return subst(subst(subst(subst(subst(t, words), words), series), same_branch), split)


def written(t):
    return subst(spelled(t), lambda x: ("by label", x[1]) if x[0] == "zero where unset" else None)


def answered(R):
    r, (s,) = method(R, BASE + "predict", PREDICT, opaque=("reconstruct_data",))
    r.rewrite = s.rewrite = spelled
    ret = lambda z: sn(z, z.final(z.ret))
    term_like(R, "predicted", r.func.where, "predict reads the target off the reconstruction, in the target's own units", ret(r), [ret(s)], rewrite=spelled)
    events(R, "predicted", r, s, lambda k, o, e: e.kind == "setitem", "predict standardises the columns that fit standardised, with fit's scaler", spelled)
    untouched(R, "read-only", r, frozenset({P("X"), SELF}), "predict changes neither X nor the estimator",
              allowed=lambda e: fresh_when_standardised(r, e))
    r, (s,) = method(R, BASE + "get_edges_to_node", EDGES)
    term_like(R, "reported", r.func.where, "get_edges_to_node answers for every feature, zero without an edge", ret(r), [ret(s)], rewrite=spelled)
    events(R, "reported", r, s, lambda k, o, e: e.kind == "setitem", "get_edges_to_node reports the edges into the node", written)
    untouched(R, "read-only", r, frozenset({SELF}), "get_edges_to_node changes nothing")
    for q, texts in ANSWERS.items():
        r, ss = method(R, q, texts, opaque=("DAGBase.predict", "get_edges_to_node"))
        n = ".".join(q.split(".")[-2:])
        term_like(R, "reported", r.func.where, f"{n}: {WHAT[q.split('.')[-1]]}", ret(r), [ret(s) for s in ss], rewrite=spelled)
        untouched(R, "read-only", r, frozenset({SELF, P("X")}), f"{n} changes nothing")


def fresh_when_standardised(r, e):
    return False


CHECKS = {"C42": (c42, ""), "C43": (c43, "")}
