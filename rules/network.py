"""BayesianNetwork: construction, node states, fitting, prediction, tables."""
from sa.conform import (atomic, best_of, calls_named, eqv, events_like, form, method, novel, pandas_forms, raises_like, returns_like, sn,
                        term_like, untouched)
from sa.effects import Roots, effects
from sa.rule import (A, P, SELF, alpha, conds, fors, imprecise, ncond, ncond_ok, nctx, norm, same, show, source)
from sa.terms import F, NONE, T, const, contains, implies, mk_and, mk_not, subst, walk

B = "network.network.BayesianNetwork."
MODEL = "self._model"


def cls(R):
    return R.p.class_by_qual["causalnex." + B[:-1]]


def lib(t):
    """spelling of library objects: nodes()/edges() views, get_parents/predecessors, deep copies of frames"""
    def f(x):
        if x[0] == "m" and x[2] in ("nodes", "edges") and not x[3] and not x[4]:
            return ("a", lib(x[1]), x[2])
        if x[0] == "m" and x[2] == "predecessors":
            return ("m", lib(x[1]), "get_parents", lib(x[3]), x[4]) if len(x) > 4 else None
        if x[0] == "call" and x[1] == ("g", "copy.deepcopy") and len(x[2]) == 1:
            return ("fcopy", lib(x[2][0]))
        if x[0] == "m" and x[2] == "copy" and (not x[3]) and (not x[4] or x[4] == (("deep", const(True)),)) and \
                x[1][0] in ("p", "i"):
            return ("fcopy", lib(x[1]))
        if x[0] == "m" and x[2] == "copy" and x[3] == (const(True),):
            return ("fcopy", lib(x[1]))
        return None

    def g(x):
        if x[0] == "sorted" and x[1][0] == "m" and x[1][2] == "keys" and not x[1][3]:
            return subst(("sorted", x[1][1]) + x[2:], g)
        if x[0] == "sorted" and x[1][0] == "seq" and x[1][1] in ("list", "tuple", "gen") and source(x[1]) != x[1] and \
                len(x[1][2]) == 1 and x[1][2][0][2][0] in ("x", "base"):
            return subst(("sorted", source(x[1])) + x[2:], g)
        # the copy of some columns is those columns of the copy
        if x[0] == "i" and x[1][0] == "fcopy" and x[2][0] == "seq":
            return ("fcopy", ("i", subst(x[1][1], g), subst(x[2], g)))
        return None
    return subst(subst(pandas_forms(t), f), g)


# ---------------------------------------------------------------------------------------------- C17
def c17(R):
    comp = ["nx.number_weakly_connected_components({s}) > 1", "not nx.is_weakly_connected({s})",
            "len(list(nx.weakly_connected_components({s}))) > 1", "nx.number_weakly_connected_components({s}) != 1"]
    r = R.run(B + "__init__")
    s = r.func.params[1]
    specs = [R.spec(r.func, f'''
def spec(self, {s}):
    if {c.format(s=s)}:
        raise ValueError("components")
    if not nx.is_directed_acyclic_graph({s}):
        raise ValueError("cycle")
''') for c in comp]
    raises_like(R, "structure-validated", r, specs, what="the constructor rejects exactly the disconnected and the cyclic structures")
    untouched(R, "structure-read-only", r, frozenset({P(s)}), "the constructor does not modify the structure")
    w = r.func.where
    # every edge reaches the model, and the structure is kept
    model, kept = None, None
    for e in r.ev("setattr"):
        if e["obj"] != SELF:
            continue
        v = sn(r, e["value"])
        if v == P(s):
            kept = e["attr"]
        if v[0] == "call" and v[1][0] == "g" and v[1][1].endswith("BayesianModel"):
            model = (e["attr"], v, e)
    R.check(kept is not None, "structure-kept", w, "the network keeps the structure it was given", "it is not stored")
    if kept:
        g = R.run(B + "structure")
        term_like(R, "structure-kept", g.func.where, "structure returns the structure given", g.final(g.ret), [A(SELF, kept)])
    if model is None:
        R.und("edges-modelled", w, "every edge of the structure is in the model", "the model is not recognised")
        return
    at, v, me = model
    edges = (A(P(s), "edges"), ("m", P(s), "edges", (), ()))
    full = False
    seen = []
    for a in list(v[2]) + [x for _, x in v[3]]:
        if isinstance(a, tuple) and source(a) in edges:
            full = True
    for e in r.ev("mcall", "mut"):
        if e.kind == "mut" and e.get("method") or e.get("name") in ("add_edges_from", "add_edge"):
            pass
        nm = e.get("name") or e.get("method")
        o = sn(r, e["obj"])
        if nm not in ("add_edges_from", "add_edge") or o not in (v, A(SELF, at)):
            continue
        a = [sn(r, x) for x in e["args"]] if isinstance(e["args"], (list, tuple)) else []
        c = ncond_ok(r, e)
        fs = fors(nctx(r, e))
        if nm == "add_edges_from" and len(a) >= 1 and source(a[0]) in edges and c == T and not fs:
            full = True
        elif nm == "add_edge" and len(fs) == 1 and source(fs[0][2]) in edges and c == T and len(fs[0]) == 3 and \
                a == [("star", ("el", fs[0][1]))]:
            full = True
        elif nm == "add_edge" and len(fs) == 1 and source(fs[0][2]) in edges and c == T and len(fs[0]) == 3 and \
                a[:2] == [("i", ("el", fs[0][1]), const(0)), ("i", ("el", fs[0][1]), const(1))]:
            full = True
        else:
            seen.append((e, a, c))
    un = any(any(imprecise(x) or (novel(x, edges[0]) and not filtered(x, edges)) for x in a) or imprecise(c) for _, a, c in seen)
    R.check(full, "edges-modelled", seen[0][0].where if seen else w, "every edge of the structure is in the model",
            "; ".join(f"{[show(x)[:150] for x in a]} if {show(c)[:100]}" for _, a, c in seen) or "no call adds the structure's edges",
            unsure=un)
    for name, attr in (("nodes", "nodes"), ("edges", "edges")):
        g, sp = method(R, B + name, f"def spec(self):\n    return list(self.{at}.{attr})\n")
        term_like(R, "edges-modelled", g.func.where, f"{name} lists the model's {name}", g.final(g.ret), [x.final(x.ret) for x in sp],
                  rewrite=lib)


def filtered(x, colls):
    """some elements of one of the collections, chosen by a condition"""
    return x[0] == "seq" and len(x[2]) == 1 and len(fors(x[2][0][1])) == 1 and source(fors(x[2][0][1])[0][2]) in colls and \
        conds(x[2][0][1]) != T


# ---------------------------------------------------------------------------------------------- C18
def states_attr(R):
    """the attribute the node_states getter reads"""
    g = R.run(cls(R).methods["node_states"])
    at = [x[2] for x in walk(("_", norm(g.final(g.ret)))) if x[0] == "a" and x[1] == SELF]
    return (at[0] if at else None), g


def c18(R):
    at, g = states_attr(R)
    st = cls(R).setters.get("node_states")
    w = g.func.where
    if at is None or st is None:
        R.und("states-validated", w, "node_states", "getter or setter not recognised")
        return
    term_like(R, "states-readable", w, "node_states reports every node with the set of its states", g.final(g.ret),
              [x.final(x.ret) for x in [R.spec(g.func, f'''
def spec(self):
    return {{n: set(s.keys()) for n, s in self.{at}.items()}}
''')]])
    r = R.run(st)
    p = r.func.params[1]
    nul = ["any(pd.isnull(list(s)))", "any(pd.isnull(x) for x in s)", "any(pd.isna(list(s)))", "any(pd.isna(x) for x in s)",
           "pd.isnull(list(s)).any()", "pd.Series(list(s)).isnull().any()"]
    specs = [R.spec(st, f'''
def spec(self, {p}):
    if set(self.nodes) - set({p}.keys()):
        raise KeyError("missing")
    for n, s in {p}.items():
        if {c}:
            raise ValueError("null")
    self.{at} = {{n: {{v: k for k, v in enumerate(sorted({p}[n]))}} for n in {p}}}
''') for c in nul]
    raises_like(R, "states-validated", r, specs, what="states are rejected exactly if a node is missing or a state is missing data")
    atomic(R, "states-atomic", r, frozenset({SELF}), "the node states are replaced only after they have been validated")
    untouched(R, "states-atomic", r, frozenset({P(p)}), "the states passed in are not modified")
    vals = [e for e in r.ev("setattr") if e["obj"] == SELF and e["attr"] == at]
    wants = [sn(s, e["value"]) for s in specs for e in s.ev("setattr") if e["attr"] == at]
    for e in vals[-1:]:
        term_like(R, "states-sorted", e.where, "the states of a node are numbered from 0 in sorted order", sn(r, e["value"]), wants)
        c = ncond_ok(r, e)
        R.check(c == T and not fors(nctx(r, e)), "states-sorted", e.where, "valid states are always stored",
                f"stored only if {show(c)[:200]}", unsure=imprecise(("_", c)))
    if not vals:
        R.check(None if r.ev("setitem", "mut") else False, "states-sorted", st.where, "the states of a node are numbered from 0 in sorted order", "nothing is stored")
    # fit_node_states: every column with every value, through the same validation
    f, sp = method(R, B + "fit_node_states", [f'''
def spec(self, df):
    self.node_states = {{c: set(df[c].{u}) for c in df.columns}}
    return self
''' for u in ("unique()", "values", "tolist()", "drop_duplicates()")] + ['''
def spec(self, df):
    self.node_states = {c: set(df[c]) for c in df.columns}
    return self
''', '''
def spec(self, df):
    self.node_states = {c: set(df[c].unique()) for c in df}
    return self
'''])
    fr = [f"def spec(self, df):\n    self.node_states = {{c: set(df[c].unique()) for c in df.columns}}\n    return self\n"]
    raises_like(R, "states-fitted", f, sp, what="fitting states applies the same validation")
    atomic(R, "states-fitted", f, frozenset({SELF}), "fitting states stores nothing before validation")
    untouched(R, "states-fitted", f, frozenset({P("df")}), "fitting states does not modify the data")
    wants = [sn(s, e["value"]) for s in sp for e in s.ev("setattr") if e["attr"] == at]
    vals = [e for e in f.ev("setattr") if e["obj"] == SELF and e["attr"] == at]
    for e in vals[-1:]:
        term_like(R, "states-fitted", e.where, "every column's values become that node's states", sn(f, e["value"]), wants)
    if not vals:
        R.bad("states-fitted", f.func.where, "every column's values become that node's states", "nothing is stored")
    returns_like(R, "states-fitted", f, [sp[0]], "fit_node_states returns the network")


# ---------------------------------------------------------------------------------------------- C19
def c19(R):
    at, _ = states_attr(R)
    at = at or "_node_states"
    frame = '''
    t = data.copy(deep=True)[self.nodes]
    for c in t.columns:
        t[c] = t[c].map(self.%s[c])
''' % at
    head = "def spec(self, data, method='MaximumLikelihoodEstimator', bayes_prior=None, equivalent_sample_size=None):"
    names = ["{k: list(v.values()) for k, v in self.%s.items()}" % at, "{k: list(range(len(v))) for k, v in self.%s.items()}" % at]
    text = lambda sn_, lo: f'''
{head}
    {lo}
    state_names = {sn_}
{frame}
    if method == "MaximumLikelihoodEstimator":
        self._model.fit(data=t, estimator=MaximumLikelihoodEstimator, state_names=state_names)
    elif method == "BayesianEstimator":
        if bayes_prior not in ["BDeu", "K2"]:
            raise ValueError("prior")
        self._model.fit(data=t, estimator=BayesianEstimator, prior_type=bayes_prior,
            equivalent_sample_size=equivalent_sample_size, state_names=state_names)
    else:
        raise ValueError("method")
    return self
'''
    r, specs = method(R, B + "fit_cpds", [text(a, "pass") for a in names])
    raises_like(R, "options-validated", r, specs, what="fit_cpds rejects exactly unknown methods and unknown priors")
    fits = [e for e in r.ev("mcall") if e["name"] == "fit"]
    w = r.func.where
    for e in fits:
        pre = [x for x in r.raises() if x.pos > e.pos]
        c = ncond(r, e)
        bad = [x for x in pre if implies(mk_and(form(c), form(ncond(r, x))), F) is not True]
        R.check(not bad, "options-validated", e.where, "nothing is fitted before the options are validated", "an exception can follow the fit",
                unsure=any(imprecise(("_", ncond(r, x))) for x in bad))
    want = {}
    for s in specs:
        for e in s.ev("mcall"):
            if e["name"] == "fit":
                kw = dict((k, lib(alpha(sn(s, v)))) for k, v in e["kw"])
                want.setdefault(show(kw["estimator"]), []).append((form(ncond(s, e)), kw))
    seen = {}
    for e in fits:
        kw = dict((k, lib(alpha(sn(r, v)))) for k, v in e["kw"])
        if any(k == "**" for k, _ in e["kw"]) or "estimator" not in kw:
            R.und("fit-dispatch", e.where, "estimator", "arguments not recognised")
            seen = None
            break
        k = show(kw["estimator"])
        if k not in want:
            R.check(False, "fit-dispatch", e.where, "each method uses its own estimator", f"estimator {k}", unsure=imprecise(kw["estimator"]) or kw["estimator"][0] not in ("g",))
            seen = None
            break
        seen.setdefault(k, []).append(e)
        c = form(ncond(r, e))
        R.check(any(eqv(c, c2) is True for c2, _ in want[k]), "fit-dispatch", e.where, f"{k.split('.')[-1]} is used exactly when asked for",
                f"if {show(c)[:200]}", unsure=imprecise(("_", c)) or bool(novel(c, *[x for x, _ in want[k]])))
        for a in sorted(set(x for _, d in want[k] for x in d) - {"estimator"}):
            opts = [d[a] for _, d in want[k]]
            if a not in kw:
                dflt = a == "equivalent_sample_size"
                R.bad("fit-arguments", e.where, f"{k.split('.')[-1]} receives {a}", "the argument is missing")
                continue
            term_like(R, "fit-arguments", e.where, f"{k.split('.')[-1]} receives {WHAT[a]}", kw[a], opts, rewrite=lib)
    if seen is not None:
        for k in want:
            if k not in seen:
                R.check(False, "fit-dispatch", w, f"{k.split('.')[-1]} is available", "no call", unsure=not fits)
    # the frame that is fitted holds state indices
    events_like(R, "states-indexed", r, specs[:1], lambda k, o, e: k == "setitem" and o[0] != "a", "every column is mapped to the indices of its node's states",
                rewrite=lib)
    R.check(not [e for e in r.ev("setattr") if e["obj"] == SELF], "fit-arguments", w, "fitting probabilities leaves the node states alone", "the network's attributes are assigned")
    untouched(R, "data-read-only", r, frozenset({P("data")}), "fit_cpds does not modify the data")
    returns_like(R, "fit-arguments", r, specs[:1], "fit_cpds returns the network")
    b, sp = method(R, B + "fit_node_states_and_cpds", '''
def spec(self, data, method='MaximumLikelihoodEstimator', bayes_prior=None, equivalent_sample_size=None):
    return self.fit_node_states(data).fit_cpds(data, method, bayes_prior, equivalent_sample_size)
''', opaque=("BayesianNetwork.fit_node_states", "BayesianNetwork.fit_cpds"))
    a = calls_in_order(b, ("fit_node_states", "fit_cpds"))
    want = calls_in_order(sp[0], ("fit_node_states", "fit_cpds"))
    okk = len(a) == len(want) and all(x == y for x, y in zip(a, want))
    R.check(okk, "fit-both", b.func.where, "fit_node_states_and_cpds fits the states and then the probabilities with the same arguments",
            f"calls {[(n, [show(v)[:40] for _, v in k]) for n, k in a]}", unsure=len(a) != len(want) and not a)


WHAT = {"data": "the network's own columns as state indices", "state_names": "every state index of every node",
        "prior_type": "the prior asked for", "equivalent_sample_size": "the sample size asked for"}


def calls_in_order(r, names):
    out = []
    for e in r.events:
        if e.kind in ("call", "mcall") and e["name"] in names:
            a = e["args"]
            ps = ["df"] if e["name"] == "fit_node_states" else ["data", "method", "bayes_prior", "equivalent_sample_size"]
            if isinstance(a, dict):
                items = a.items()
            else:
                items = list(enumerate(a)) + list(e.get("kw") or [])
            d = {}
            for k, v in items:
                if k in ("self",):
                    continue
                if isinstance(k, int):
                    # position 0 of an unbound call is the receiver
                    k = ps[k] if k < len(ps) else str(k)
                if isinstance(v, tuple):
                    d[k] = alpha(sn(r, v))
            out.append((e["name"], tuple(sorted(d.items()))))
    return out



# ---------------------------------------------------------------------------------------------- C20 / C21
CPDS = ("BayesianNetwork.cpds",)
FRAMES = ["data.copy(deep=True)", "deepcopy(data)"]


def split(t):
    """(condition, value if it holds, value otherwise) of the answer"""
    return (t[1], t[2], t[3]) if t[0] == "ite" else (None, t, t)


def prediction(R, fn, complete, incomplete, model_call, writes, what):
    at, _ = states_attr(R)
    at = at or "_node_states"
    texts = []
    for c in complete:
        for i in incomplete:
            texts.append(f"""
def spec(self, data, node):
    if all(p in data.columns for p in self._model.get_parents(node)):
        {c.format(at=at)}
    {i.format(at=at)}
""")
    r, specs = method(R, B + fn, texts, opaque=CPDS)
    w = r.func.where
    ret = lib(alpha(r.final(r.ret)))
    sel = lambda k, o, e: k == "setitem" or (k == "setattr" and writes(e))

    def judge(R, s):
        c, a, b = split(ret)
        wc, wa, wb = split(lib(alpha(s.final(s.ret))))
        if c is None:
            R.check(False, "dispatch", w, "the tables are looked up exactly when all parents are given", f"always {show(ret)[:200]}",
                    unsure=imprecise(ret))
            return
        if eqv(c, mk_not(wc)) is True and eqv(c, wc) is not True:
            c, a, b = mk_not(c), b, a
        R.check(eqv(c, wc), "dispatch", w, "the tables are looked up exactly when all parents are given",
                f"if {show(c)[:200]}; required: if {show(wc)[:200]}", unsure=imprecise(("_", c)) or bool(novel(c, wc)))
        term_like(R, "columns-returned", w, f"with all parents given: {what[0]}", a, [wa], rewrite=lib)
        term_like(R, "states-restored", w, f"with parents missing: {what[1]}", b, [wb], rewrite=lib)
        events_like(R, "values-written", r, [s], sel,
                    "the working copy holds, per row, the value looked up with that row's parent states; or state indices", rewrite=lib)
    best_of(R, specs, judge)
    untouched(R, "data-read-only", r, frozenset({P("data"), SELF}), f"{fn} modifies neither the data nor the network")


def c20(R):
    comp = []
    for look in ("cpd[tuple([row[p] for p in parents])].idxmax() if parents else cpd[''].idxmax()",):
        comp.append(f"""t = data.copy(deep=True)
        parents = sorted(self._model.get_parents(node))
        cpd = self.cpds[node]
        t[node + "_prediction"] = t.apply(lambda row: {look}, axis=1)
        return t[[node + "_prediction"]]""")
    comp.append("""parents = sorted(self._model.get_parents(node))
        cpd = self.cpds[node]
        return data.apply(lambda row: cpd[tuple([row[p] for p in parents])].idxmax() if parents else cpd[''].idxmax(), axis=1).to_frame(node + "_prediction")""")
    inc = """t = data.copy(deep=True)
    for c in t.columns:
        t[c] = t[c].map(self.{at}[c])
    t = t.drop(columns=[node])
    """
    back = "back = {{i: s for s, i in self.{at}[node].items()}}\n    "
    incs = [inc + "p = self._model.predict(t)[[node]]\n    " + back + x for x in (
        "p = p.apply(lambda c: c.map(back))\n    return p.rename(columns={{node: node + '_prediction'}})",
        "p[node] = p[node].map(back)\n    return p.rename(columns={{node: node + '_prediction'}})",
        "p = p.rename(columns={{node: node + '_prediction'}})\n    return p.apply(lambda c: c.map(back))",
        "return p.applymap(lambda i: back[i]).rename(columns={{node: node + '_prediction'}})",
        "return p.replace(back).rename(columns={{node: node + '_prediction'}})",
    )]
    incs.append(inc + back + "return self._model.predict(t)[node].map(back).to_frame(node + '_prediction')")
    prediction(R, "predict", comp, incs, "predict", lambda e: False,
               ("a single column named after the node holds the prediction", "the model's state indices are mapped back to the node's states"))


def c21(R):
    look = "cpd[tuple([row[p] for p in parents])].loc[s] if parents else cpd.at[s, '']"
    comp = ["""t = data.copy(deep=True)
        parents = sorted(self._model.get_parents(node))
        cpd = self.cpds[node]
        for s in %s:
            t["{{n}}_{{s}}".format(n=node, s=s)] = t.apply(lambda row: %s, axis=1)
        return t[["{{n}}_{{s}}".format(n=node, s=s) for s in %s]]""" % (it, look, it) for it in ("self.node_states[node]", "self.{at}[node]")]
    inc = """t = data.copy(deep=True)
    for c in t.columns:
        t[c] = t[c].map(self.{at}[c])
    t = t.drop(columns=[node])
    p = self._model.predict_probability(t)
    """
    incs = [inc + x for x in (
        """p = p[["{{n}}_{{i}}".format(n=node, i=i) for i in self.{at}[node].values()]]
    p.columns = ["{{n}}_{{s}}".format(n=node, s=s) for s in self.{at}[node]]
    return p""",
        """p = p[["{{n}}_{{i}}".format(n=node, i=i) for i in self.{at}[node].values()]]
    return p.rename(columns={{"{{n}}_{{i}}".format(n=node, i=i): "{{n}}_{{s}}".format(n=node, s=s) for s, i in self.{at}[node].items()}})""",
        """p = p.rename(columns={{"{{n}}_{{i}}".format(n=node, i=i): "{{n}}_{{s}}".format(n=node, s=s) for s, i in self.{at}[node].items()}})
    return p[["{{n}}_{{s}}".format(n=node, s=s) for s in self.{at}[node]]]""")]
    prediction(R, "predict_probability", comp, incs, "predict_probability", lambda e: e["attr"] == "columns",
               ("one column per state of the node, named after it", "the model's columns for the node's state indices, renamed to the states"))


# ---------------------------------------------------------------------------------------------- C22
def c22(R):
    at, _ = states_attr(R)
    at = at or "_node_states"
    lv = f"sorted(self.{at}[v].keys())"
    shape = [f"len(self.{at}[c.variable]), max(1, len(cols))", f"len(self.{at}[c.variable]), -1"]
    cols = f"""cols = [""]
        its = [{lv} for v in c.variables[1:]]
        if its:
            cols = pd.MultiIndex.from_product(its, names=c.variables[1:])"""
    own = f"sorted(self.{at}[c.variable].keys())"
    tails = ["out[c.variable] = pd.DataFrame(c.values.reshape({s}))\n        out[c.variable][c.variable] = {o}\n        "
             "out[c.variable].set_index([c.variable], inplace=True)\n        out[c.variable].columns = cols",
             "t = pd.DataFrame(c.values.reshape({s}), index=pd.Index({o}, name=c.variable), columns=cols)\n        out[c.variable] = t",
             "t = pd.DataFrame(c.values.reshape({s}))\n        t[c.variable] = {o}\n        t.set_index([c.variable], inplace=True)\n"
             "        t.columns = cols\n        out[c.variable] = t",
             "t = pd.DataFrame(c.values.reshape({s}))\n        t[c.variable] = {o}\n        t = t.set_index([c.variable])\n"
             "        t.columns = cols\n        out[c.variable] = t",
             "t = pd.DataFrame(c.values.reshape({s}))\n        t.index = pd.Index({o}, name=c.variable)\n        t.columns = cols\n        out[c.variable] = t",
             "t = pd.DataFrame(c.values.reshape({s}), columns=cols)\n        t.index = pd.Index({o}, name=c.variable)\n        out[c.variable] = t"]
    r, specs = method(R, B + "cpds", [f"""
def spec(self):
    out = dict()
    for c in self._model.cpds:
        {cols}
        {t.format(s=s, o=own)}
    return out
""" for s in shape for t in tails])
    sel = lambda k, o, e: k in ("mut", "setitem") or (k == "setattr" and e["attr"] in ("columns", "index"))

    def judge(R, s):
        term_like(R, "tables-shaped", r.func.where, "one table per node: the model's values, a row per state, a column per parent state combination",
                  r.final(r.ret), [s.final(s.ret)], rewrite=lib)
        events_like(R, "tables-labelled", r, [s], sel, "rows are labelled with the node's sorted states, columns with its parents' sorted states",
                    rewrite=lambda t: drop_obj(lib(t)))
    best_of(R, specs, judge)
    untouched(R, "tables-fresh", r, frozenset({SELF}), "reading the tables changes nothing in the network")


def drop_obj(t):
    """the table under construction, however it is referred to"""
    def f(x):
        if x[0] == "i" and x[1][0] == "seq" and x[1][1] == "dict":
            return ("table",)
        if x[0] == "call" and x[1] == ("g", "pandas.DataFrame"):
            return ("table",)
        return None
    return subst(t, f)


CHECKS = {"C17": (c17, ""), "C18": (c18, ""), "C19": (c19, ""), "C20": (c20, ""), "C21": (c21, ""), "C22": (c22, "")}
