"""Edits of evaluation/evaluation.py."""
EDITS = []
FILE = "evaluation/evaluation.py"


def ref(name, *subs, file=FILE):
    EDITS.append(("r_ev_" + name, "ref", file, list(subs)))


def bug(name, ids, *subs, file=FILE):
    EDITS.append(("b_ev_" + name, ids, file, list(subs)))


ref("zeros", ("ground_truth[dummy] = [0 for _ in range(len(ground_truth))]", "ground_truth[dummy] = 0"))
ref("inline", ("    ground_truth = _build_ground_truth(bn, data, node)\n", '''    ground_truth = pd.get_dummies(data[node])
    for state in bn.node_states[node]:
        if state not in ground_truth.columns:
            ground_truth[state] = 0
    ground_truth = ground_truth[sorted(ground_truth.columns)]
'''))
ref("cols", ("    predictions = predictions[\n        [\"{n}_{s}\".format(n=node, s=state) for state in ground_truth.columns]\n    ]\n",
             "    columns = [f\"{node}_{state}\" for state in ground_truth.columns]\n    predictions = predictions[columns]\n"))
ref("ravel", ("    fpr, tpr, _ = metrics.roc_curve(\n        ground_truth.values.ravel(), predictions.values.ravel()\n    )\n",
              "    truth = ground_truth.values.ravel()\n    score = predictions.values.ravel()\n    fpr, tpr, _ = metrics.roc_curve(y_true=truth, y_score=score)\n"))
ref("report", ('''    labels = sorted(list(bn.node_states[node]))
    target_names = [
        "{0}_{1}".format(node, str(v)) for v in sorted(bn.node_states[node])
    ]
''', '''    labels = sorted(bn.node_states[node])
    target_names = [f"{node}_{label}" for label in labels]
'''))
ref("report_ret", ("    report = metrics.classification_report(", "    return metrics.classification_report("), ("\n    return report", ""))
ref("missing", ('''    for dummy in bn.node_states[node]:
        if dummy not in ground_truth.columns:
            ground_truth[dummy]''', '''    missing = [s for s in bn.node_states[node] if s not in ground_truth.columns]
    for dummy in missing:
        if True:
            ground_truth[dummy]'''))
bug("order", "C23", ("for state in ground_truth.columns]", "for state in sorted(ground_truth.columns, key=str)]"))
bug("pred_sorted", "C23", ('    predictions = predictions[\n        ["{n}_{s}".format(n=node, s=state) for state in ground_truth.columns]\n    ]\n', "    predictions = predictions[sorted(predictions.columns)]\n"))
bug("nozero", "C23", ("    for dummy in bn.node_states[node]:", "    for dummy in set(data[node]):"))
bug("ones", "C23", ("[0 for _ in", "[1 for _ in"))
bug("swapped", "C23", ("        ground_truth.values.ravel(), predictions.values.ravel()", "        predictions.values.ravel(), ground_truth.values.ravel()"))
bug("transposed", "C23", ("predictions.values.ravel()", "predictions.values.ravel('F')"))
bug("auc", "C23", ("metrics.auc(fpr, tpr)", "metrics.auc(tpr, fpr)"))
bug("labels", "C23", ("labels = sorted(list(bn.node_states[node]))", "labels = list(bn.node_states[node])"))
bug("labels_data", "C23", ("labels = sorted(list(bn.node_states[node]))", "labels = sorted(data[node].unique())"))
bug("names", "C23", ("for v in sorted(bn.node_states[node])", "for v in sorted(bn.node_states[node], key=str)"))
bug("drop", "C23", ("        y_true=data[node],", "        y_true=data[node].fillna(0),"))
bug("mut", "C23", ("    predictions = bn.predict(data, node)\n", "    predictions = bn.predict(data, node)\n    data.sort_index(inplace=True)\n"))
