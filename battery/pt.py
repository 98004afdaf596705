"""Edits of the PyTorch learner."""
F = "structure/pytorch/notears.py"
EDITS = []


def ref(n, *subs, f=F):
    EDITS.append(("r_pt_" + n, "ref", f, list(subs)))


def bug(n, ids, *subs, f=F):
    EDITS.append(("b_pt_" + n, ids, f, list(subs)))


RAISE = '''        if set(range(X.shape[1])).symmetric_difference(set(dist_type_schema.keys())):
'''
TYPES = '''    dist_types = (
        [DistTypeContinuous(idx=idx) for idx in np.arange(X.shape[1])]
        if dist_type_schema is None
        else [
            dist_type_aliases[alias](idx=idx) for idx, alias in dist_type_schema.items()
        ]
    )
'''
PRE = '''    for dist_type in dist_types:
        # NOTE: preprocess_X must be called first to perform possible column expansions
        X = dist_type.preprocess_X(X)
        tabu_edges = dist_type.preprocess_tabu_edges(tabu_edges)
        tabu_parent_nodes = dist_type.preprocess_tabu_nodes(tabu_parent_nodes)
        tabu_child_nodes = dist_type.preprocess_tabu_nodes(tabu_child_nodes)
'''
HID = '''    if hidden_layer_units is None:
        hidden_layer_units = [0]
    elif isinstance(hidden_layer_units, list) and not hidden_layer_units:
        hidden_layer_units = [0]

    # if no hidden layer units, still take 1 iteration step with bounds
    hidden_layer_bnds = hidden_layer_units[0] if hidden_layer_units[0] else 1
'''
BND = '''    bnds = [
        (0, 0)
        if i == j
        else (0, 0)
        if tabu_edges is not None and (i, j) in tabu_edges
        else (0, 0)
        if tabu_parent_nodes is not None and i in tabu_parent_nodes
        else (0, 0)
        if tabu_child_nodes is not None and j in tabu_child_nodes
        else (None, None)
        for j in range(d)
        for _ in range(hidden_layer_bnds)
        for i in range(d)
    ]
'''
MEAN = '''    mean_effect = model.adj_mean_effect
    for u, v, edge_dict in sm.edges.data(True):
        sm.add_edge(
            u,
            v,
            origin="learned",
            weight=edge_dict["weight"],
            mean_effect=mean_effect[u, v],
        )
'''
BIAS = '''    bias = model.bias
    for node in sm.nodes():
        value = None
        if bias is not None:
            value = bias[node]
        sm.nodes[node]["bias"] = value
'''
COL = '''    adj = deepcopy(model.adj)
    for dist_type in dist_types:
        adj = dist_type.collapse_adj(adj)
    sm.graph["graph_collapsed"] = StructureModel(adj[:d_orig, :d_orig])
'''
THR = '''    if w_threshold:
        sm.remove_edges_below_threshold(w_threshold)
'''
ATT = '''    for dist_type in dist_types:
        sm = dist_type.add_to_node(sm)
'''
ref("neq", (RAISE, "        if set(dist_type_schema) != set(range(X.shape[1])):\n"))
ref("empty", ("    if not X.size:\n        raise ValueError(\"Input", "    if X.size == 0:\n        raise ValueError(\"Input"))
ref("types_if", (TYPES, '''    if dist_type_schema is None:
        dist_types = [DistTypeContinuous(idx=i) for i in range(X.shape[1])]
    else:
        dist_types = []
        for idx, alias in dist_type_schema.items():
            dist_types.append(dist_type_aliases[alias](idx=idx))
'''))
ref("types_pos", (TYPES, TYPES.replace("DistTypeContinuous(idx=idx)", "DistTypeContinuous(idx)").replace("(idx=idx) for idx, alias", "(idx) for idx, alias")))
ref("types_keys", (TYPES, TYPES.replace("dist_type_aliases[alias](idx=idx) for idx, alias in dist_type_schema.items()", "dist_type_aliases[dist_type_schema[k]](idx=k) for k in dist_type_schema")))
ref("pre_split", (PRE, '''    for dist_type in dist_types:
        X = dist_type.preprocess_X(X)
    for dist_type in dist_types:
        tabu_edges = dist_type.preprocess_tabu_edges(tabu_edges)
    for dist_type in dist_types:
        tabu_parent_nodes = dist_type.preprocess_tabu_nodes(tabu_parent_nodes)
        tabu_child_nodes = dist_type.preprocess_tabu_nodes(tabu_child_nodes)
'''))
ref("pre_reorder", (PRE, '''    for t in dist_types:
        X = t.preprocess_X(X, fit_transform=True)
        tabu_child_nodes = t.preprocess_tabu_nodes(tabu_child_nodes)
        tabu_parent_nodes = t.preprocess_tabu_nodes(tabu_nodes=tabu_parent_nodes)
        tabu_edges = t.preprocess_tabu_edges(tabu_edges)
'''))
ref("pre_names", (PRE, '''    X_exp, edges, parents, children = X, tabu_edges, tabu_parent_nodes, tabu_child_nodes
    for t in dist_types:
        X_exp = t.preprocess_X(X_exp)
        edges = t.preprocess_tabu_edges(edges)
        parents = t.preprocess_tabu_nodes(parents)
        children = t.preprocess_tabu_nodes(children)
    X, tabu_edges, tabu_parent_nodes, tabu_child_nodes = X_exp, edges, parents, children
'''))
ref("hid_one", (HID, '''    if hidden_layer_units is None or (isinstance(hidden_layer_units, list) and len(hidden_layer_units) == 0):
        hidden_layer_units = [0]
    hidden_layer_bnds = hidden_layer_units[0] or 1
'''))
ref("hid_max", (HID, HID.replace("hidden_layer_units[0] if hidden_layer_units[0] else 1", "max(hidden_layer_units[0], 1)")))
ref("bnd_or", (BND, '''    bnds = []
    for j in range(d):
        column = [
            (0, 0)
            if i == j
            or (tabu_edges is not None and (i, j) in tabu_edges)
            or (tabu_parent_nodes is not None and i in tabu_parent_nodes)
            or (tabu_child_nodes is not None and j in tabu_child_nodes)
            else (None, None)
            for i in range(d)
        ]
        bnds.extend(column * hidden_layer_bnds)
'''))
ref("bnd_loop", (BND, '''    bnds = []
    banned = set(tabu_edges or [])
    no_parent = set(tabu_parent_nodes or [])
    no_child = set(tabu_child_nodes or [])
    for j in range(d):
        for _ in range(hidden_layer_bnds):
            for i in range(d):
                if i == j or (i, j) in banned or i in no_parent or j in no_child:
                    bnds.append((0, 0))
                else:
                    bnds.append((None, None))
'''))
ref("bnd_fn", (BND, '''    def _forbidden(i, j):
        if i == j:
            return True
        if tabu_edges is not None and (i, j) in tabu_edges:
            return True
        if tabu_parent_nodes is not None and i in tabu_parent_nodes:
            return True
        return tabu_child_nodes is not None and j in tabu_child_nodes

    bnds = [
        (0, 0) if _forbidden(i, j) else (None, None)
        for j in range(d)
        for _ in range(hidden_layer_bnds)
        for i in range(d)
    ]
'''))
ref("d_shape", ("    _, d = X.shape\n", "    d = X.shape[1]\n"), ("    _, d_orig = X.shape\n", "    d_orig = X.shape[1]\n"))
ref("mean_weight", (MEAN, '''    for u, v, w in sm.edges.data("weight"):
        sm.add_edge(u, v, origin="learned", weight=w, mean_effect=model.adj_mean_effect[u, v])
'''))
ref("bias_ite", (BIAS, '''    bias = model.bias
    for node in sm.nodes:
        sm.nodes[node]["bias"] = None if bias is None else bias[node]
'''))
ref("bias_two", (BIAS, '''    if model.bias is None:
        for node in sm.nodes():
            sm.nodes[node]["bias"] = None
    else:
        for node in sm.nodes():
            sm.nodes[node]["bias"] = model.bias[node]
'''))
ref("copy", ("adj = deepcopy(model.adj)", "adj = model.adj.copy()"))
ref("col_fn", (COL, '''    sm.graph["graph_collapsed"] = _collapsed(model.adj, dist_types, d_orig)
'''), ('''# pylint: disable=too-many-locals
# pylint: disable=too-many-arguments
def from_numpy(''', '''def _collapsed(adj, dist_types, size):
    adj = deepcopy(adj)
    for dist_type in dist_types:
        adj = dist_type.collapse_adj(adj)
    return StructureModel(adj[:size, :size])


# pylint: disable=too-many-locals
# pylint: disable=too-many-arguments
def from_numpy('''))
ref("thr_none", (THR, THR.replace("if w_threshold:", "if w_threshold is not None:")))
ref("att_noassign", (ATT, '''    for dist_type in dist_types:
        dist_type.add_to_node(sm)
'''))
ref("att_early", (ATT, ""), (MEAN, ATT + MEAN))
ref("learner_first", ('''    sm.graph["structure_learner"] = model
''', ""), (BIAS, '''    sm.graph["structure_learner"] = model
''' + BIAS))

B = "C34"
bug("no_finite", B, ("    check_array(X)\n", ""))
bug("finite_off", B, ("check_array(X)", "check_array(X, force_all_finite=False)"))
bug("schema_subset", B, (RAISE, "        if set(range(X.shape[1])) - set(dist_type_schema.keys()):\n"))
bug("schema_len", B, (RAISE, "        if len(dist_type_schema) != X.shape[1]:\n"))
bug("empty_rows", B, ("    if not X.size:\n        raise ValueError(\"Input", "    if not X.shape[0]:\n        raise ValueError(\"Input"))
bug("types_enum", B, (TYPES, TYPES.replace("for idx, alias in dist_type_schema.items()", "for idx, alias in enumerate(dist_type_schema.values())")))
bug("types_binary", B, (TYPES, TYPES.replace("DistTypeContinuous(idx=idx)", "dist_type_aliases['bin'](idx=idx)")))
bug("tabu_first", B, (PRE, '''    for dist_type in dist_types:
        tabu_edges = dist_type.preprocess_tabu_edges(tabu_edges)
        tabu_parent_nodes = dist_type.preprocess_tabu_nodes(tabu_parent_nodes)
        tabu_child_nodes = dist_type.preprocess_tabu_nodes(tabu_child_nodes)
        X = dist_type.preprocess_X(X)
'''))
bug("no_child_pre", B, ("        tabu_child_nodes = dist_type.preprocess_tabu_nodes(tabu_child_nodes)\n", ""))
bug("parent_from_child", B, ("tabu_parent_nodes = dist_type.preprocess_tabu_nodes(tabu_parent_nodes)", "tabu_parent_nodes = dist_type.preprocess_tabu_nodes(tabu_child_nodes)"))
bug("x_not_threaded", B, ("        X = dist_type.preprocess_X(X)\n", "        X_new = dist_type.preprocess_X(X)\n"), ("    _, d = X.shape\n", "    X = X_new\n    _, d = X.shape\n"))
bug("pre_nofit", B, ("X = dist_type.preprocess_X(X)", "X = dist_type.preprocess_X(X, False)"))
bug("flip", B, ("and (i, j) in tabu_edges", "and (j, i) in tabu_edges"))
bug("order", B, ('''        for j in range(d)
        for _ in range(hidden_layer_bnds)
        for i in range(d)
''', '''        for i in range(d)
        for _ in range(hidden_layer_bnds)
        for j in range(d)
'''))
bug("hidden_outer", B, ('''        for j in range(d)
        for _ in range(hidden_layer_bnds)
        for i in range(d)
''', '''        for _ in range(hidden_layer_bnds)
        for j in range(d)
        for i in range(d)
'''))
bug("parent_j", B, ("and i in tabu_parent_nodes", "and j in tabu_parent_nodes"))
bug("positive", B, ("        else (None, None)\n        for j", "        else (0, None)\n        for j"))
bug("no_diag", B, ("        if i == j\n        else (0, 0)\n", ""))
bug("edges_elif", B, ("if tabu_edges is not None and (i, j) in tabu_edges", "if tabu_edges is not None and tabu_parent_nodes is None and (i, j) in tabu_edges"))
bug("d_orig", B, ("        for j in range(d)\n", "        for j in range(d_orig)\n"))
bug("hid_last", B, ("hidden_layer_units[0] if hidden_layer_units[0] else 1", "hidden_layer_units[-1] if hidden_layer_units[0] else 1"))
bug("hid_nodefault", B, ("hidden_layer_units[0] if hidden_layer_units[0] else 1", "hidden_layer_units[0]"))
bug("no_bounds", B, ("        bounds=bnds,\n", ""))
bug("lasso_ridge", B, ("        lasso_beta=lasso_beta,\n        ridge_beta=ridge_beta,\n        bounds", "        lasso_beta=ridge_beta,\n        ridge_beta=lasso_beta,\n        bounds"))
bug("no_kwargs", B, ("        use_bias=use_bias,\n        **kwargs\n    )\n\n    model.fit", "        use_bias=use_bias,\n    )\n\n    model.fit"))
bug("iter", B, ("model.fit(X, max_iter=max_iter)", "model.fit(X)"))
bug("inplace", B, ("    # shape of X before", "    X -= X.mean(axis=0)\n    # shape of X before"))
bug("schema_default", B, ("    if dist_type_schema is not None:\n\n        # make", "    if dist_type_schema:\n\n        # make"))

B = "C35"
bug("adj_mean", B, ("sm = StructureModel(model.adj)", "sm = StructureModel(model.adj_mean_effect)"))
bug("adj_T", B, ("sm = StructureModel(model.adj)", "sm = StructureModel(model.adj.T)"))
bug("mean_flip", B, ("mean_effect=mean_effect[u, v]", "mean_effect=mean_effect[v, u]"))
bug("mean_adj", B, ("mean_effect = model.adj_mean_effect", "mean_effect = model.adj"))
bug("weight_mean", B, ('weight=edge_dict["weight"],\n            mean_effect=mean_effect[u, v]', 'weight=mean_effect[u, v],\n            mean_effect=mean_effect[u, v]'))
bug("thr_sign", B, (THR, THR.replace("if w_threshold:", "if w_threshold and not tabu_edges:")))
bug("thr_gone", B, (THR, ""))
bug("thr_const", B, (THR, THR.replace("(w_threshold)", "(abs(w_threshold) / 2)")))
bug("bias_if", B, ("        if bias is not None:\n            value = bias[node]\n", "        if bias is not None and len(bias) == d:\n            value = bias[node]\n"))
bug("bias_zero", B, ("        value = None\n        if bias", "        value = 0\n        if bias"))
bug("bias_orig", B, ("    for node in sm.nodes():\n", "    for node in range(d_orig):\n"))
bug("att_edges", B, (ATT, '''    for dist_type in dist_types[:d_orig - 1]:
        sm = dist_type.add_to_node(sm)
'''))
bug("nocopy", B, ("adj = deepcopy(model.adj)", "adj = model.adj"))
bug("collapse_once", B, (COL, COL.replace("adj = dist_type.collapse_adj(adj)", "adj = dist_type.collapse_adj(deepcopy(model.adj))")))
bug("collapse_d", B, ("adj[:d_orig, :d_orig]", "adj[:d, :d]"))
bug("collapse_corner", B, ("adj[:d_orig, :d_orig]", "adj[-d_orig:, -d_orig:]"))
bug("collapse_mean", B, ("adj = deepcopy(model.adj)", "adj = deepcopy(model.adj_mean_effect)"))
bug("learner_none", B, ('    sm.graph["structure_learner"] = model\n', '    sm.graph["structure_learner"] = model if use_bias else None\n'))
# ------------------------------------------------------------------------------------------ from_pandas
SCH = '''        else {X.columns.get_loc(col): alias for col, alias in dist_type_schema.items()}
'''
UNIQ = '''    unique_dist_types = {node[1]["dist_type"] for node in g.nodes(data=True)}
    # use the dist types to update the idx_col mapping
    idx_col_expanded = deepcopy(idx_col)
    for dist_type in unique_dist_types:
        idx_col_expanded = dist_type.update_idx_col(idx_col_expanded)
'''
NODES = '''    sm.add_nodes_from(list(idx_col_expanded.values()))
'''
ED = '''    for u, v, edge_dict in g.edges.data(True):
        sm.add_edge(
            idx_col_expanded[u],
            idx_col_expanded[v],
            origin="learned",
            weight=edge_dict["weight"],
            mean_effect=edge_dict["mean_effect"],
        )
'''
ATTR = '''    for key, val in g.graph.items():
        sm.graph[key] = val
'''
NB = '''    for node in g.nodes(data=True):
        node_name = idx_col_expanded[node[0]]
        sm.nodes[node_name]["bias"] = node[1]["bias"]
'''
ND = '''    for node_data in g.nodes(data=True):
        node_name = idx_col_expanded[node_data[0]]
        sm.nodes[node_name]["dist_type"] = node_data[1]["dist_type"]
'''
CO = '''    sm_collapsed = StructureModel()
    sm_collapsed.add_nodes_from(list(idx_col.values()))
    for u, v, edge_dict in g.graph["graph_collapsed"].edges.data(True):
        sm_collapsed.add_edge(
            idx_col[u],
            idx_col[v],
            origin="learned",
            weight=edge_dict["weight"],
        )
    sm.graph["graph_collapsed"] = sm_collapsed
'''
ref("p_nocopy", ("    data = deepcopy(X)\n", "    data = X.copy()\n"))
ref("p_data", ("    data = deepcopy(X)\n", "    data = X\n"))
ref("p_enum", ("    idx_col = {i: c for c, i in col_idx.items()}\n", "    idx_col = dict(enumerate(data.columns))\n"))
ref("p_enum2", ("    idx_col = {i: c for c, i in col_idx.items()}\n", "    idx_col = {i: c for i, c in enumerate(data.columns)}\n"))
ref("p_sch", (SCH, '''        else {data.columns.get_loc(c): dist_type_schema[c] for c in dist_type_schema}
'''))
ref("p_uniq", (UNIQ, '''    idx_col_expanded = deepcopy(idx_col)
    for dist_type in {attrs["dist_type"] for _, attrs in g.nodes(data=True)}:
        idx_col_expanded = dist_type.update_idx_col(idx_col_expanded)
'''))
ref("p_dictcopy", (UNIQ, UNIQ.replace("deepcopy(idx_col)", "dict(idx_col)")))
ref("p_nodes", (NODES, "    sm.add_nodes_from(idx_col_expanded.values())\n"))
ref("p_one_loop", (NB, '''    for node, attrs in g.nodes(data=True):
        sm.nodes[idx_col_expanded[node]]["bias"] = attrs["bias"]
        sm.nodes[idx_col_expanded[node]]["dist_type"] = attrs["dist_type"]
'''), (ND, ""))
ref("p_attr", (ATTR, '''    for key in g.graph:
        sm.graph[key] = g.graph[key]
'''))
ref("p_attr_up", (ATTR, "    sm.graph.update(g.graph)\n"))
ref("p_co", (CO, CO.replace("for u, v, edge_dict in g.graph[\"graph_collapsed\"].edges.data(True)", "for u, v, w in g.graph[\"graph_collapsed\"].edges.data(\"weight\")").replace('edge_dict["weight"]', "w")))
ref("p_co_cols", (CO, CO.replace("list(idx_col.values())", "data.columns")))
ref("p_len", ("    if len(non_numeric_cols) > 0:", "    if not non_numeric_cols.empty:"))

bug("p_sch_enum", B, (SCH, "        else dict(enumerate(dist_type_schema.values()))\n"))
bug("p_flip", B, ("[(col_idx[u], col_idx[v]) for u, v in tabu_edges]", "[(col_idx[v], col_idx[u]) for u, v in tabu_edges]"))
bug("p_swap", B, ("        tabu_parent_nodes=tabu_parent_nodes,\n        tabu_child_nodes=tabu_child_nodes,\n        **kwargs\n    )\n\n    # set", "        tabu_parent_nodes=tabu_child_nodes,\n        tabu_child_nodes=tabu_parent_nodes,\n        **kwargs\n    )\n\n    # set"))
bug("p_lost", B, ("        use_bias=use_bias,\n        hidden_layer_units", "        hidden_layer_units"))
bug("p_iter", B, ("        max_iter=max_iter,\n        tabu", "        max_iter=100,\n        tabu"))
bug("p_sorted", B, ("        X=data.values,", "        X=data[sorted(data.columns)].values,"))
bug("p_first", B, (UNIQ, UNIQ.replace("for node in g.nodes(data=True)}", "for node in g.nodes(data=True) if node[0] == 0}")))
bug("p_base", B, (UNIQ, UNIQ.replace("idx_col_expanded = dist_type.update_idx_col(idx_col_expanded)", "idx_col_expanded = dist_type.update_idx_col(deepcopy(idx_col))")))
bug("p_alias", "any", (UNIQ, UNIQ.replace("deepcopy(idx_col)", "idx_col")))
bug("p_uv", B, (ED, ED.replace("idx_col_expanded[u]", "idx_col_expanded[w]").replace("u, v, edge", "w, v, edge").replace("idx_col_expanded[v]", "idx_col_expanded[w]")))
bug("p_rev", B, (ED, ED.replace("[u]", "[U]").replace("[v]", "[u]").replace("[U]", "[v]")))
bug("p_expert", B, (ED, ED.replace('"learned"', '"expert"')))
bug("p_nomean", B, (ED, ED.replace('edge_dict["mean_effect"]', 'edge_dict["weight"]')))
bug("p_nodes_lost", B, (NODES, ""))
bug("p_nodes_orig", B, (NODES, "    sm.add_nodes_from(list(idx_col.values()))\n"))
bug("p_attr_lost", B, (ATTR, ""))
bug("p_bias_name", B, (NB, NB.replace("idx_col_expanded[node[0]]", "idx_col[node[0] % len(idx_col)]")))
bug("p_dist", B, (ND, ND.replace('["dist_type"] = node_data[1]["dist_type"]', '["dist_type"] = g.nodes[0]["dist_type"]')))
bug("p_co_rev", B, (CO, CO.replace("idx_col[u],\n            idx_col[v]", "idx_col[v],\n            idx_col[u]")))
bug("p_co_main", B, (CO, CO.replace('g.graph["graph_collapsed"].edges', "g.edges")))
bug("p_co_lost", B, ('    sm.graph["graph_collapsed"] = sm_collapsed\n', ""))
bug("p_co_order", B, (ATTR, ""), ('    sm.graph["graph_collapsed"] = sm_collapsed\n', '    sm.graph["graph_collapsed"] = sm_collapsed\n' + ATTR))
bug("p_co_nodes", B, ("    sm_collapsed.add_nodes_from(list(idx_col.values()))\n", ""))
bug("p_num", B, ('exclude="number"', 'exclude=["number", "object"]'))
