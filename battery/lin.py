"""Edits of structure/notears.py and structure/dynotears.py."""
EDITS = []
NT = "structure/notears.py"
DT = "structure/dynotears.py"


def ref(name, *subs, file=NT):
    EDITS.append(("r_lin_" + name, "ref", file, list(subs)))


def bug(name, ids, *subs, file=NT):
    EDITS.append(("b_lin_" + name, ids, file, list(subs)))


BN = '''    bnds = [
        (0, 0)
        if i == j
        else (0, 0)
        if tabu_edges is not None and (i, j) in tabu_edges
        else (0, 0)
        if tabu_parent_nodes is not None and i in tabu_parent_nodes
        else (0, 0)
        if tabu_child_nodes is not None and j in tabu_child_nodes
        else (None, None)
        for i in range(d)
        for j in range(d)
    ]
'''
BL = BN.replace("(None, None)", "(0, None)").replace("    ]\n", "    ] * 2\n")
BW = '''    bnds_w = 2 * [
        (0, 0)
        if i == j
        else (0, 0)
        if tabu_edges is not None and (0, i, j) in tabu_edges
        else (0, 0)
        if tabu_parent_nodes is not None and i in tabu_parent_nodes
        else (0, 0)
        if tabu_child_nodes is not None and j in tabu_child_nodes
        else (0, None)
        for i in range(d_vars)
        for j in range(d_vars)
    ]
'''
BA = '''            2
            * [
                (0, 0)
                if tabu_edges is not None and (k, i, j) in tabu_edges
                else (0, 0)
                if tabu_parent_nodes is not None and i in tabu_parent_nodes
                else (0, 0)
                if tabu_child_nodes is not None and j in tabu_child_nodes
                else (0, None)
                for i in range(d_vars)
                for j in range(d_vars)
            ]
'''

# ------------------------------------------------------------------ refactorings
ref("bnd-loop", (BN, '''    bnds = []
    for i in range(d):
        for j in range(d):
            if i == j:
                bnds.append((0, 0))
            elif tabu_edges is not None and (i, j) in tabu_edges:
                bnds.append((0, 0))
            elif tabu_parent_nodes is not None and i in tabu_parent_nodes:
                bnds.append((0, 0))
            elif tabu_child_nodes is not None and j in tabu_child_nodes:
                bnds.append((0, 0))
            else:
                bnds.append((None, None))
'''))
ref("bnd-helper", (BN, '''    def _bound(i, j):
        if i == j:
            return (0, 0)
        if tabu_edges is not None and (i, j) in tabu_edges:
            return (0, 0)
        if tabu_parent_nodes is not None and i in tabu_parent_nodes:
            return (0, 0)
        if tabu_child_nodes is not None and j in tabu_child_nodes:
            return (0, 0)
        return (None, None)

    bnds = [_bound(i, j) for i in range(d) for j in range(d)]
'''))
ref("bnd-shared", (BN, '''    bnds = _bounds(d, tabu_edges, tabu_parent_nodes, tabu_child_nodes, (None, None))
'''), (BL, '''    bnds = 2 * _bounds(d, tabu_edges, tabu_parent_nodes, tabu_child_nodes, (0, None))
'''), ("def from_pandas(\n", '''def _bounds(d, tabu_edges, tabu_parent_nodes, tabu_child_nodes, free):
    tabu_edges = set(tabu_edges or [])
    tabu_parent_nodes = set(tabu_parent_nodes or [])
    tabu_child_nodes = set(tabu_child_nodes or [])
    return [
        (0, 0)
        if i == j or (i, j) in tabu_edges or i in tabu_parent_nodes or j in tabu_child_nodes
        else free
        for i in range(d)
        for j in range(d)
    ]


def from_pandas(
'''))
ref("bnd-or", (BN, '''    edges = tabu_edges if tabu_edges is not None else []
    parents = tabu_parent_nodes if tabu_parent_nodes is not None else []
    children = tabu_child_nodes if tabu_child_nodes is not None else []
    bnds = []
    for i in range(d):
        for j in range(d):
            forbidden = i == j or (i, j) in edges or i in parents or j in children
            bnds.append((0, 0) if forbidden else (None, None))
'''))
ref("bnd-product", (BN, '''    import itertools
    bnds = [
        (0, 0)
        if i == j
        or (tabu_edges is not None and (i, j) in tabu_edges)
        or (tabu_parent_nodes is not None and i in tabu_parent_nodes)
        or (tabu_child_nodes is not None and j in tabu_child_nodes)
        else (None, None)
        for i, j in itertools.product(range(d), repeat=2)
    ]
'''))
ref("bnd-not", (BN, '''    bnds = [
        (None, None)
        if i != j
        and not (tabu_edges and (i, j) in tabu_edges)
        and not (tabu_parent_nodes and i in tabu_parent_nodes)
        and not (tabu_child_nodes and j in tabu_child_nodes)
        else (0, 0)
        for i in range(d)
        for j in range(d)
    ]
'''))
ref("lasso-plus", ("    ] * 2\n\n    return _learn_structure_lasso(X, beta, bnds,", "    ]\n    bnds = bnds + bnds\n\n    return _learn_structure_lasso(X, beta, bnds,"))
ref("d-shape", ("    _, d = X.shape\n", "    d = X.shape[1]\n"))
ref("pandas-idx", ('''    col_idx = {c: i for i, c in enumerate(data.columns)}
    idx_col = {i: c for c, i in col_idx.items()}
''', '''    idx_col = dict(enumerate(data.columns))
    col_idx = {c: i for i, c in idx_col.items()}
'''))
ref("pandas-helper", ('''    if tabu_edges:
        tabu_edges = [(col_idx[u], col_idx[v]) for u, v in tabu_edges]
    if tabu_parent_nodes:
        tabu_parent_nodes = [col_idx[n] for n in tabu_parent_nodes]
    if tabu_child_nodes:
        tabu_child_nodes = [col_idx[n] for n in tabu_child_nodes]

    g = from_numpy(
''', '''    def _index(nodes):
        return [col_idx[n] for n in nodes] if nodes else nodes

    if tabu_edges:
        tabu_edges = [(col_idx[u], col_idx[v]) for u, v in tabu_edges]
    tabu_parent_nodes = _index(tabu_parent_nodes)
    tabu_child_nodes = _index(tabu_child_nodes)

    g = from_numpy(
'''))
ref("pandas-kw", ('''    g = from_numpy(
        data.values,
        max_iter,
        h_tol,
        w_threshold,
        tabu_edges,
        tabu_parent_nodes,
        tabu_child_nodes,
    )
''', '''    g = from_numpy(
        X=data.to_numpy(),
        max_iter=max_iter,
        h_tol=h_tol,
        w_threshold=w_threshold,
        tabu_edges=tabu_edges,
        tabu_child_nodes=tabu_child_nodes,
        tabu_parent_nodes=tabu_parent_nodes,
    )
'''))
ref("pandas-edges", ('''    sm.add_weighted_edges_from(
        [(idx_col[u], idx_col[v], w) for u, v, w in g.edges.data("weight")],
        origin="learned",
    )
''', '''    named_edges = []
    for u, v, w in g.edges(data="weight"):
        named_edges.append((idx_col[u], idx_col[v], w))
    sm.add_weighted_edges_from(named_edges, origin="learned")
'''))
ref("pandas-edge1", ('''    sm.add_weighted_edges_from(
        [(idx_col[u], idx_col[v], w) for u, v, w in g.edges.data("weight")],
        origin="learned",
    )
''', '''    for u, v, w in g.edges.data("weight"):
        sm.add_edge(idx_col[u], idx_col[v], origin="learned", weight=w)
'''))
ref("pandas-common", ('''    sm = StructureModel()
    sm.add_nodes_from(data.columns)
    sm.add_weighted_edges_from(
        [(idx_col[u], idx_col[v], w) for u, v, w in g.edges.data("weight")],
        origin="learned",
    )

    return sm


def from_pandas_lasso(''', '''    return _named(g, data.columns)


def _named(g, columns):
    names = list(columns)
    sm = StructureModel()
    sm.add_nodes_from(names)
    sm.add_weighted_edges_from(
        [(names[u], names[v], w) for u, v, w in g.edges.data("weight")], origin="learned"
    )
    return sm


def from_pandas_lasso('''))
ref("pandas-copy", ("    data = deepcopy(X)\n", "    data = X.copy()\n"))
ref("pandas-nocopy", ("    data = deepcopy(X)\n", "    data = X\n"))
ref("finite", ("    if not np.isfinite(X).all():\n", "    if np.isnan(X).any() or np.isinf(X).any():\n"))
ref("finite2", ("    if not np.isfinite(X).all():\n", "    if not np.all(np.isfinite(X)):\n"))
ref("finite3", ("    if not np.isfinite(X).all():\n", "    if (~np.isfinite(X)).any():\n"))
ref("finite4", ("    if not np.isfinite(X).all():\n", "    if np.any(np.logical_not(np.isfinite(X))):\n"))
ref("empty-first", ('''    _, d = X.shape

    _assert_all_finite(X)
''', '''    if X.size == 0:
        raise ValueError("Input data X is empty, cannot learn any structure")
    _, d = X.shape

    _assert_all_finite(X)
'''))
ref("validate-helper", ('''    if X.size == 0:
        raise ValueError("Input data X is empty, cannot learn any structure")
    logging.info("Learning structure using 'NOTEARS' optimisation.")
''', '''    _check_not_empty(X)
    logging.info("Learning structure using 'NOTEARS' optimisation.")
'''), ("def _learn_structure(", '''def _check_not_empty(X):
    if X.size == 0:
        raise ValueError("Input data X is empty, cannot learn any structure")


def _learn_structure('''))
ref("warn-elif", ('''        if h <= h_tol:
            break
        if h > h_tol and n_iter == max_iter - 1:
            warnings.warn("Failed to converge. Consider increasing max_iter.")

    w_est[''', '''        if h <= h_tol:
            break
        if n_iter == max_iter - 1:
            warnings.warn("Failed to converge. Consider increasing max_iter.")

    w_est['''))
ref("warn-last", ('''        if h <= h_tol:
            break
        if h > h_tol and n_iter == max_iter - 1:
            warnings.warn("Failed to converge. Consider increasing max_iter.")

    w_est[''', '''        converged = h <= h_tol
        if not converged and n_iter + 1 == max_iter:
            warnings.warn("Failed to converge. Consider increasing max_iter.")
        if converged:
            break

    w_est['''))
ref("warn-else", ('''        if h <= h_tol:
            break
        if h > h_tol and n_iter == max_iter - 1:
            warnings.warn("Failed to converge. Consider increasing max_iter.")

    w_est[''', '''        if h <= h_tol:
            break
    else:
        warnings.warn("Failed to converge. Consider increasing max_iter.")

    w_est['''))
ref("thr-where", ('''    w_est[np.abs(w_est) <= w_threshold] = 0
    return StructureModel(w_est.reshape([d, d]))
''', '''    w_est = np.where(np.abs(w_est) <= w_threshold, 0, w_est)
    return StructureModel(w_est.reshape([d, d]))
'''))
ref("thr-mask", ('''    w_est[np.abs(w_est) <= w_threshold] = 0
    return StructureModel(w_est.reshape([d, d]))
''', '''    small = np.abs(w_est) <= w_threshold
    w_est[small] = 0.0
    adjacency = w_est.reshape(d, d)
    return StructureModel(adjacency)
'''))
ref("thr-reshape", ('''    w_est[np.abs(w_est) <= w_threshold] = 0
    return StructureModel(w_est.reshape([d, d]))
''', '''    adjacency = w_est.reshape((d, -1))
    adjacency[abs(adjacency) <= w_threshold] = 0
    return StructureModel(adjacency)
'''))
ref("lasso-split", ('''    w_new = w_est[: d ** 2].reshape([d, d]) - w_est[d ** 2 :].reshape([d, d])
    w_new[np''', '''    w_pos, w_neg = w_est[: d * d], w_est[d * d :]
    w_new = (w_pos - w_neg).reshape([d, d])
    w_new[np'''))
ref("lasso-helper", ('''    w_new = w_est[: d ** 2].reshape([d, d]) - w_est[d ** 2 :].reshape([d, d])
    w_new[np''', '''    def _unpack(vec):
        return vec[: d ** 2].reshape([d, d]) - vec[d ** 2 :].reshape([d, d])

    w_new = _unpack(w_est)
    w_new[np'''))
ref("lasso-2d", ('''    w_new = w_est[: d ** 2].reshape([d, d]) - w_est[d ** 2 :].reshape([d, d])
    w_new[np''', '''    stacked = w_est.reshape([2 * d, d])
    w_new = stacked[:d] - stacked[d:]
    w_new[np'''))
ref("solve", ('''            sol = sopt.minimize(_func, w_est, method="L-BFGS-B", jac=_grad, bounds=bnds)
            w_new = sol.x
            h_new = _h(w_new)
            if''', '''            w_new = sopt.minimize(
                fun=_func, x0=w_est, jac=_grad, bounds=bnds, method="L-BFGS-B"
            ).x
            h_new = _h(w_new)
            if'''))
# dynotears
ref("dyn-w-helper", (BW, '''    def _is_tabu(lag, i, j):
        return (
            (tabu_edges is not None and (lag, i, j) in tabu_edges)
            or (tabu_parent_nodes is not None and i in tabu_parent_nodes)
            or (tabu_child_nodes is not None and j in tabu_child_nodes)
        )

    bnds_w = 2 * [
        (0, 0) if i == j or _is_tabu(0, i, j) else (0, None)
        for i in range(d_vars)
        for j in range(d_vars)
    ]
'''), (BA, '''            2
            * [
                (0, 0) if _is_tabu(k, i, j) else (0, None)
                for i in range(d_vars)
                for j in range(d_vars)
            ]
'''), file=DT)
ref("dyn-one-loop", ('''    bnds_a = []
    for k in range(1, p_orders + 1):
        bnds_a.extend(
''' + BA + '''        )

    bnds = bnds_w + bnds_a
''', '''    bnds = bnds_w
    for k in range(p_orders):
        bnds += 2 * [
            (0, 0)
            if tabu_edges is not None and (k + 1, i, j) in tabu_edges
            else (0, 0)
            if tabu_parent_nodes is not None and i in tabu_parent_nodes
            else (0, 0)
            if tabu_child_nodes is not None and j in tabu_child_nodes
            else (0, None)
            for i in range(d_vars)
            for j in range(d_vars)
        ]
'''), file=DT)
ref("dyn-lags-in-one", (BW + '''
    bnds_a = []
    for k in range(1, p_orders + 1):
        bnds_a.extend(
''' + BA + '''        )

    bnds = bnds_w + bnds_a
''', '''    bnds = []
    for lag in range(p_orders + 1):
        block = [
            (0, 0)
            if (lag == 0 and i == j)
            or (tabu_edges is not None and (lag, i, j) in tabu_edges)
            or (tabu_parent_nodes is not None and i in tabu_parent_nodes)
            or (tabu_child_nodes is not None and j in tabu_child_nodes)
            else (0, None)
            for i in range(d_vars)
            for j in range(d_vars)
        ]
        bnds += block + block
'''), file=DT)
ref("dyn-reshape", ('''    w_tilde = wa_vec.reshape([2 * (p_orders + 1) * d_vars, d_vars])
    w_plus = w_tilde[:d_vars, :]
    w_minus = w_tilde[d_vars : 2 * d_vars, :]
    w_mat = w_plus - w_minus
''', '''    w_tilde = wa_vec.reshape([2 * (p_orders + 1) * d_vars, d_vars])
    w_mat = w_tilde[:d_vars] - w_tilde[d_vars : 2 * d_vars]
'''), file=DT)
ref("dyn-reshape2", ('''    a_plus = (
        w_tilde[2 * d_vars :]
        .reshape(2 * p_orders, d_vars ** 2)[::2]
        .reshape(d_vars * p_orders, d_vars)
    )
    a_minus = (
        w_tilde[2 * d_vars :]
        .reshape(2 * p_orders, d_vars ** 2)[1::2]
        .reshape(d_vars * p_orders, d_vars)
    )
    a_mat = a_plus - a_minus
''', '''    lagged = wa_vec[2 * d_vars ** 2 :].reshape(2 * p_orders, d_vars ** 2)
    a_mat = (lagged[::2] - lagged[1::2]).reshape(d_vars * p_orders, d_vars)
'''), file=DT)
ref("dyn-struct-loops", ('''    sm.add_edges_from(
        [
            (lag_cols[i + w_est.shape[0]], lag_cols[j], dict(weight=a_est[i, j]))
            for i in range(a_est.shape[0])
            for j in range(a_est.shape[1])
            if a_est[i, j] != 0
        ]
    )
''', '''    n_vars = a_est.shape[1]
    lagged_edges = []
    for i in range(a_est.shape[0]):
        for j in range(n_vars):
            weight = a_est[i, j]
            if weight != 0:
                lagged_edges.append((lag_cols[i + n_vars], lag_cols[j], {"weight": weight}))
    sm.add_edges_from(lagged_edges)
'''), file=DT)
ref("dyn-struct-names", ('''    sm.add_edges_from(
        [
            (lag_cols[i + w_est.shape[0]], lag_cols[j], dict(weight=a_est[i, j]))
            for i in range(a_est.shape[0])
            for j in range(a_est.shape[1])
            if a_est[i, j] != 0
        ]
    )
''', '''    n_vars = a_est.shape[1]
    sm.add_edges_from(
        [
            (f"{i % n_vars}_lag{1 + i // n_vars}", f"{j}_lag0", dict(weight=a_est[i, j]))
            for i in range(a_est.shape[0])
            for j in range(n_vars)
            if a_est[i, j] != 0
        ]
    )
'''), file=DT)
ref("dyn-thr", ('''    w_est[np.abs(w_est) < w_threshold] = 0
    a_est[np.abs(a_est) < w_threshold] = 0
''', '''    for weights in (w_est, a_est):
        weights[np.abs(weights) < w_threshold] = 0
'''), file=DT)
ref("dyn-pandas-name", ('''    idx, lag_val = from_numpy_node.split("_lag")
    return "{var}_lag{l_val}".format(var=idx_col[int(idx)], l_val=lag_val)
''', '''    parts = from_numpy_node.split("_lag")
    return f"{idx_col[int(parts[0])]}_lag{parts[1]}"
'''), file=DT)
ref("dyn-validate", ('''    if X.size == 0:
        raise ValueError("Input data X is empty, cannot learn any structure")
    if Xlags.size == 0:
        raise ValueError("Input data Xlags is empty, cannot learn any structure")
    if X.shape[0] != Xlags.shape[0]:
        raise ValueError("Input data X and Xlags must have the same number of rows")
    if Xlags.shape[1] % X.shape[1] != 0:
''', '''    for name, data in (("X", X), ("Xlags", Xlags)):
        if data.size == 0:
            raise ValueError(f"Input data {name} is empty, cannot learn any structure")
    if not X.shape[0] == Xlags.shape[0]:
        raise ValueError("Input data X and Xlags must have the same number of rows")
    if Xlags.shape[1] % X.shape[1]:
'''), file=DT)

# ------------------------------------------------------------------ bugs
bug("swap-ij", "C26", (BN, BN.replace("(i, j) in", "(j, i) in")))
bug("no-self", "C26", (BN, BN.replace("if i == j\n        else (0, 0)\n        if tabu_edges", "if tabu_edges")))
bug("parent-j", "C26", (BN, BN.replace("i in tabu_parent_nodes", "j in tabu_parent_nodes")))
bug("child-i", "C26", (BL, BL.replace("j in tabu_child_nodes", "i in tabu_child_nodes")))
bug("edges-elif", "C26", (BN, '''    bnds = [
        (0, 0)
        if i == j
        else ((0, 0) if (i, j) in tabu_edges else (None, None))
        if tabu_edges is not None
        else (0, 0)
        if tabu_parent_nodes is not None and i in tabu_parent_nodes
        else (0, 0)
        if tabu_child_nodes is not None and j in tabu_child_nodes
        else (None, None)
        for i in range(d)
        for j in range(d)
    ]
'''))
bug("tiny", "C26", (BN, BN.replace("(0, 0)\n        if tabu_child", "(0, 1e-3)\n        if tabu_child")))
bug("loops-swapped", "C26", (BN, BN.replace("        for i in range(d)\n        for j in range(d)\n", "        for j in range(d)\n        for i in range(d)\n")))
bug("lasso-once", "C26", (BL, BL.replace("    ] * 2\n", "    ] + [(0, None)] * (d * d)\n")))
bug("lasso-neg-transposed", "C26", ("    w_new = w_est[: d ** 2].reshape([d, d]) - w_est[d ** 2 :].reshape([d, d])\n    w_new[np", "    w_new = w_est[: d ** 2].reshape([d, d]) - w_est[d ** 2 :].reshape([d, d]).T\n    w_new[np"))
bug("no-bounds", "C26", ("            sol = sopt.minimize(_func, w_est, method=\"L-BFGS-B\", jac=_grad, bounds=bnds)\n            w_new = sol.x\n            h_new = _h(w_new)\n            if", "            sol = sopt.minimize(_func, w_est, method=\"L-BFGS-B\", jac=_grad)\n            w_new = sol.x\n            h_new = _h(w_new)\n            if"))
bug("bfgs", "C26", ('method="L-BFGS-B"', 'method="BFGS"'))
bug("transposed", "C26", ("    return StructureModel(w_est.reshape([d, d]))", "    return StructureModel(w_est.reshape([d, d]).T)"))
bug("pandas-swap", "C26", ("        tabu_parent_nodes,\n        tabu_child_nodes,\n    )\n\n    sm", "        tabu_child_nodes,\n        tabu_parent_nodes,\n    )\n\n    sm"))
bug("pandas-vu", "C26", ("[(col_idx[u], col_idx[v]) for u, v in tabu_edges]", "[(col_idx[v], col_idx[u]) for u, v in tabu_edges]"))
bug("pandas-drop", "C26", ("        tabu_parent_nodes,\n        tabu_child_nodes,\n    )\n\n    sm", "        tabu_parent_nodes,\n    )\n\n    sm"))
bug("pandas-elif", "C26", ("    if tabu_parent_nodes:\n        tabu_parent_nodes = [col_idx[n] for n in tabu_parent_nodes]\n    if tabu_child_nodes:", "    if tabu_parent_nodes:\n        tabu_parent_nodes = [col_idx[n] for n in tabu_parent_nodes]\n    elif tabu_child_nodes:"))
bug("pandas-sorted", "C26,C28", ("    col_idx = {c: i for i, c in enumerate(data.columns)}", "    col_idx = {c: i for i, c in enumerate(sorted(data.columns))}"))
bug("pandas-nodes", "C28", ("    sm.add_nodes_from(data.columns)\n", ""))
bug("pandas-rev", "C28", ("[(idx_col[u], idx_col[v], w) for u, v, w", "[(idx_col[v], idx_col[u], w) for u, v, w"))
bug("pandas-origin", "C28", ('        origin="learned",\n', '        origin="expert",\n'))
bug("pandas-abs", "C28", ("[(idx_col[u], idx_col[v], w) for u, v, w", "[(idx_col[u], idx_col[v], abs(w)) for u, v, w"))
bug("pandas-tol", "C28", ("        data.values,\n        max_iter,\n        h_tol,\n        w_threshold,", "        data.values,\n        max_iter,\n        w_threshold,\n        h_tol,"))
bug("pandas-beta", "C28", ("        data.values,\n        beta,\n        max_iter,\n        h_tol,", "        data.values,\n        0.1,\n        max_iter,\n        h_tol,"))
bug("pandas-scale", "C28", ("        data.values,\n        max_iter,", "        (data - data.mean()).values,\n        max_iter,"))
bug("pandas-inplace", "C28", ("    data = deepcopy(X)\n", "    data = X\n    data.fillna(0, inplace=True)\n"))
bug("nan-ok", "C29", ("    if not np.isfinite(X).all():\n", "    if np.isinf(X).any():\n"))
bug("finite-any", "C29", ("    if not np.isfinite(X).all():\n", "    if not np.isfinite(X).any():\n"))
bug("lasso-unchecked", "C29", ('''    # n examples, d properties
    _, d = X.shape

    _assert_all_finite(X)

    bnds = [
        (0, 0)
        if i == j
        else (0, 0)
        if tabu_edges is not None and (i, j) in tabu_edges
        else (0, 0)
        if tabu_parent_nodes is not None and i in tabu_parent_nodes
        else (0, 0)
        if tabu_child_nodes is not None and j in tabu_child_nodes
        else (0, None)''', '''    # n examples, d properties
    _, d = X.shape

    bnds = [
        (0, 0)
        if i == j
        else (0, 0)
        if tabu_edges is not None and (i, j) in tabu_edges
        else (0, 0)
        if tabu_parent_nodes is not None and i in tabu_parent_nodes
        else (0, 0)
        if tabu_child_nodes is not None and j in tabu_child_nodes
        else (0, None)'''))
bug("empty-ok", "C29", ('''    if X.size == 0:
        raise ValueError("Input data X is empty, cannot learn any structure")
    logging.info("Learning''', '''    logging.info("Learning'''))
bug("numeric-ok", "C29", ("    if len(non_numeric_cols) > 0:\n", "    if len(non_numeric_cols) > 1:\n"))
bug("numeric-incl", "C29", ('exclude="number"', 'exclude=["number", "bool"]'))
bug("warn-off", "C30", ("        if h > h_tol and n_iter == max_iter - 1:", "        if h > h_tol and n_iter == max_iter:"))
bug("warn-gone", "C30", ('''        if h > h_tol and n_iter == max_iter - 1:
            warnings.warn("Failed to converge. Consider increasing max_iter.")
''', ""))
bug("warn-abs", "C30", ("        if h_val > h_tol and n_iter == max_iter - 1:", "        if h_val > 1e-8 and n_iter == max_iter - 1:"))
bug("break-strictly", "C30", ("        if h <= h_tol:\n            break\n", "        if h <= 1e-8:\n            break\n"))
bug("thr-signed", "C30", ("    w_est[np.abs(w_est) <= w_threshold] = 0\n", "    w_est[w_est <= w_threshold] = 0\n"))
bug("thr-flip", "C30", ("    w_new[np.abs(w_new) < w_threshold] = 0\n", "    w_new[np.abs(w_new) > w_threshold] = 0\n"))
bug("thr-gone", "C30", ("    w_new[np.abs(w_new) < w_threshold] = 0\n", ""))
bug("thr-one-part", "C30", ('''    w_new = w_est[: d ** 2].reshape([d, d]) - w_est[d ** 2 :].reshape([d, d])
    w_new[np.abs(w_new) < w_threshold] = 0
''', '''    w_est[np.abs(w_est) < w_threshold] = 0
    w_new = w_est[: d ** 2].reshape([d, d]) - w_est[d ** 2 :].reshape([d, d])
'''))
# dynotears
bug("dyn-lag", "C27", (BA, BA.replace("(k, i, j)", "(k - 1, i, j)")), file=DT)
bug("dyn-lag0", "C27", (BW, BW.replace("(0, i, j)", "(i, j)")), file=DT)
bug("dyn-range", "C27", ("    for k in range(1, p_orders + 1):", "    for k in range(1, p_orders):"), file=DT)
bug("dyn-a-self", "C27", (BA, BA.replace("(0, 0)\n                if tabu_edges is not", "(0, 0)\n                if i == j\n                else (0, 0)\n                if tabu_edges is not")), file=DT)
bug("dyn-child-inter", "C27", (BA, BA.replace('''                else (0, 0)
                if tabu_child_nodes is not None and j in tabu_child_nodes
''', "")), file=DT)
bug("dyn-a-layout", "C27", ('''        .reshape(2 * p_orders, d_vars ** 2)[::2]
        .reshape(d_vars * p_orders, d_vars)
    )
    a_minus = (
        w_tilde[2 * d_vars :]
        .reshape(2 * p_orders, d_vars ** 2)[1::2]
''', '''        .reshape(2 * p_orders, d_vars ** 2)[:p_orders]
        .reshape(d_vars * p_orders, d_vars)
    )
    a_minus = (
        w_tilde[2 * d_vars :]
        .reshape(2 * p_orders, d_vars ** 2)[p_orders:]
'''), file=DT)
bug("dyn-bnd-layout", "C27", ('''    bnds_a = []
    for k in range(1, p_orders + 1):
        bnds_a.extend(
''' + BA + '''        )

    bnds = bnds_w + bnds_a
''', '''    bnds_a = []
    for k in range(1, p_orders + 1):
        bnds_a.extend(
''' + BA.replace("            2\n            * [", "            [").replace("            ]", "            ]") + '''        )

    bnds = bnds_w + 2 * bnds_a
'''), file=DT)
bug("dyn-edge-lag", "C27", ("            (lag_cols[i + w_est.shape[0]], lag_cols[j], dict(weight=a_est[i, j]))", "            (lag_cols[i], lag_cols[j], dict(weight=a_est[i, j]))"), file=DT)
bug("dyn-edge-dir", "C27", ("            (lag_cols[i + w_est.shape[0]], lag_cols[j], dict(weight=a_est[i, j]))", "            (lag_cols[j], lag_cols[i + w_est.shape[0]], dict(weight=a_est[i, j]))"), file=DT)
bug("dyn-edge-pos", "C27", ("            if w_est[i, j] != 0\n", "            if w_est[i, j] > 0\n"), file=DT)
bug("dyn-cols", "C27", ('''        for l_val in range(1 + (a_est.shape[0] // a_est.shape[1]))
        for var in range(a_est.shape[1])
''', '''        for var in range(a_est.shape[1])
        for l_val in range(1 + (a_est.shape[0] // a_est.shape[1]))
'''), file=DT)
bug("dyn-pandas-tabu", "C27", ("        tabu_edges = [(lag, col_idx[u], col_idx[v]) for lag, u, v in tabu_edges]", "        tabu_edges = [(lag, col_idx[u], col_idx[v]) for lag, v, u in tabu_edges]"), file=DT)
bug("dyn-pandas-lambda", "C28", ("        lambda_w,\n        lambda_a,\n        max_iter,\n        h_tol,\n        w_threshold,", "        lambda_a,\n        lambda_w,\n        max_iter,\n        h_tol,\n        w_threshold,"), file=DT)
bug("dyn-pandas-nodes", "C28", ("            for l_val in range(p + 1)\n", "            for l_val in range(p)\n"), file=DT)
bug("dyn-pandas-name", "C28", ('    return "{var}_lag{l_val}".format(var=idx_col[int(idx)], l_val=lag_val)', '    return "{var}_lag{l_val}".format(var=idx_col[int(idx) % 10], l_val=lag_val)'), file=DT)
bug("dyn-pandas-p", "C28", ("DynamicDataTransformer(p=p)", "DynamicDataTransformer(p=1)"), file=DT)
bug("dyn-rows", "C29", ("    if X.shape[0] != Xlags.shape[0]:\n", "    if X.shape[0] > Xlags.shape[0]:\n"), file=DT)
bug("dyn-mult", "C29", ('''    if Xlags.shape[1] % X.shape[1] != 0:
        raise ValueError(
            "Number of columns of Xlags must be a multiple of number of columns of X"
        )
''', ""), file=DT)
bug("dyn-thr-a", "C30", ("    a_est[np.abs(a_est) < w_threshold] = 0\n", ""), file=DT)
bug("dyn-thr-cross", "C30", ("    a_est[np.abs(a_est) < w_threshold] = 0\n", "    a_est[a_est < w_threshold] = 0\n"), file=DT)
bug("dyn-warn", "C30", ("        if h_value > h_tol and n_iter == max_iter - 1:", "        if h_value > h_tol and n_iter == max_iter + 1:"), file=DT)
