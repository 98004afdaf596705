"""evaluation: ROC and classification report."""
from sa.conform import best_of, events_like, method, sn, term_like, untouched
from sa.rule import P, alpha, fors, ncond_ok, nctx, show
from sa.terms import T, subst
from rules.network import lib

E = "evaluation.evaluation."
OPAQUE = ("BayesianNetwork.predict", "BayesianNetwork.predict_probability", "BayesianNetwork.node_states", "BayesianNetwork.cpds")


POS = {"sklearn.metrics.roc_curve": ["y_true", "y_score"], "sklearn.metrics.auc": ["x", "y"]}


def flat(t):
    """.values.ravel() / .to_numpy().flatten() / .values.reshape(-1)"""
    def f(x):
        if x[0] == "m" and x[2] in ("ravel", "flatten") and not x[3]:
            return ("flat", flat(x[1]))
        if x[0] == "m" and x[2] in ("ravel", "flatten"):
            return ("flat", flat(x[1]), x[3], x[4])
        if x[0] == "call" and x[1][0] == "g" and x[1][1] in POS and any(k in POS[x[1][1]] for k, _ in x[3]):
            kw = dict(x[3])
            a = list(x[2]) + [kw.pop(k) for k in POS[x[1][1]][len(x[2]):] if k in kw]
            return flat(("call", x[1], tuple(a), tuple(sorted(kw.items()))))
        if x[0] == "m" and x[2] == "reshape" and x[3] == (("c", -1, "int"),):
            return ("flat", flat(x[1]))
        if x[0] == "m" and x[2] == "to_numpy" and not x[3]:
            return ("a", flat(x[1]), "values")
        if x[0] == "call" and x[1] == ("g", "numpy.ravel") and len(x[2]) == 1:
            return ("flat", flat(x[2][0]))
        return None
    return subst(lib(t), f)


def c23(R):
    zero = ["[0 for _ in range(len(g))]", "0", "[0] * len(g)", "np.zeros(len(g))"]
    fin = [("g = g[sorted(g.columns)]", "g.columns", "p[['{n}_{s}'.format(n=node, s=s) for s in g.columns]]"),
           ("pass", "", "p[['{n}_{s}'.format(n=node, s=s) for s in g.columns]]"),
           ("g = g[sorted(bn.node_states[node])]", "", "p[['{n}_{s}'.format(n=node, s=s) for s in sorted(bn.node_states[node])]]"),
           ("g = g[sorted(bn.node_states[node])]", "", "p[['{n}_{s}'.format(n=node, s=s) for s in g.columns]]"),
           ("g = g[sorted(g.columns)]", "", "p[['{n}_{s}'.format(n=node, s=s) for s in sorted(g.columns)]]")]
    r, specs = method(R, E + "roc_auc", [f"""
def spec(bn: BayesianNetwork, data, node):
    g = pd.get_dummies(data[node])
    for d in bn.node_states[node]:
        if d not in g.columns:
            g[d] = {z}
    {a}
    p = bn.predict_probability(data, node)
    p = {c}
    fpr, tpr, _ = metrics.roc_curve(g.values.ravel(), p.values.ravel())
    return list(zip(fpr, tpr)), metrics.auc(fpr, tpr)
""" for z in zero for a, _, c in fin], opaque=OPAQUE)
    w = r.func.where
    pick = [e for e in r.ev("call") if e["name"] == "roc_curve"]
    if not pick:
        R.und("roc-paired", w, "roc_curve", "no call recognised")
    else:
        e = pick[0]
        a = e["args"]
        t = a.get(0, a.get("y_true"))
        s = a.get(1, a.get("y_score"))

        def judge(R, sp):
            se = [x for x in sp.ev("call") if x["name"] == "roc_curve"][0]
            if t is None or s is None:
                R.und("roc-paired", e.where, "arguments of roc_curve", "not recognised")
                return
            term_like(R, "roc-paired", e.where, "the truth side holds one indicator column per state of the node", sn(r, t),
                      [sn(sp, se["args"][0])], rewrite=flat)
            term_like(R, "roc-paired", e.where, "the score side holds the predicted probability of the same states in the same order", sn(r, s),
                      [sn(sp, se["args"][1])], rewrite=flat)
            events_like(R, "roc-complete", r, [sp], lambda k, o, e: k == "setitem", "states that do not occur in the data get a column of zeros",
                        rewrite=flat)
            term_like(R, "roc-returned", w, "the curve and its area belong together", r.final(r.ret), [sp.final(sp.ret)], rewrite=flat)
        best_of(R, specs, judge)
    untouched(R, "data-read-only", r, frozenset({P("data"), P("bn")}), "roc_auc modifies neither the data nor the network")
    r, specs = method(R, E + "classification_report", [f"""
def spec(bn: BayesianNetwork, data, node):
    p = bn.predict(data, node)
    return metrics.classification_report(y_true={y}, y_pred=p{q}, labels={o}, target_names=["{{0}}_{{1}}".format(node, v) for v in {o}], output_dict=True)
""" for o in ("sorted(bn.node_states[node])", "list(bn.node_states[node])") for y, q in (("data[node]", ""), ("data[node]", "[node + '_prediction']"))],
        opaque=OPAQUE)
    w = r.func.where
    calls = [e for e in r.ev("call") if e["name"] == "classification_report"]
    if not calls:
        R.und("report-paired", w, "classification_report", "no call recognised")
    WHAT = {"y_true": "the data's own states", "y_pred": "the predictions for the same rows", "labels": "all states of the node",
            "target_names": "names in the order of the labels", "output_dict": "a dictionary"}
    order = ["y_true", "y_pred", "labels", "target_names"]

    def judge2(R, sp):
        want = [x for x in sp.ev("call") if x["name"] == "classification_report"][0]["args"]
        for e in calls:
            got = {order[k] if isinstance(k, int) and k < 4 else k: v for k, v in e["args"].items()}
            if "labels" not in got and "**" in got:
                R.und("report-paired", e.where, "arguments", "not recognised")
                continue
            for k in WHAT:
                if not isinstance(got.get(k), tuple):
                    R.bad("report-paired", e.where, f"the report receives {WHAT[k]}", f"{k} is missing")
                    continue
                term_like(R, "report-paired", e.where, f"the report receives {WHAT[k]}", sn(r, got[k]), [sn(sp, want[k])], rewrite=strs)
            c = ncond_ok(r, e)
            R.check(c == T and not fors(nctx(r, e)), "report-paired", e.where, "there is one report over all states", f"if {show(c)[:100]}")
    if calls:
        best_of(R, specs, judge2)
    untouched(R, "data-read-only", r, frozenset({P("data"), P("bn")}), "classification_report modifies neither the data nor the network")


def strs(t):
    """str(v) inside a formatted string; list() around sorted(); set order of a sorted collection"""
    def f(x):
        if x[0] == "fmt":
            return ("fmt", tuple(strs(y[2][0]) if isinstance(y, tuple) and y[0] == "call" and y[1] == ("g", "builtins.str") and len(y[2]) == 1
                                 else (strs(y) if isinstance(y, tuple) else y) for y in x[1]))
        return None
    return subst(flat(t), f)


CHECKS = {"C23": (c23, "")}
