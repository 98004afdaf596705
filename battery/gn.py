"""Edits of the data generators and of the variable-to-feature map."""
CO = "structure/data_generators/core.py"
WR = "structure/data_generators/wrappers.py"
CV = "structure/categorical_variable_mapper.py"
EDITS = []


def ref(n, f, *subs):
    EDITS.append(("r_gn_" + n, "ref", f, list(subs)))


def bug(n, ids, f, *subs):
    EDITS.append(("b_gn_" + n, ids, f, list(subs)))


# ---------------------------------------------------------------- generate_structure
ref("perm", CO, ("    perms = np.random.permutation(np.eye(num_nodes, num_nodes))\n", "    order = np.random.permutation(np.eye(num_nodes))\n"),
    ("perms.T.dot(edge_flags).dot(perms)", "order.T @ edge_flags @ order"))
ref("rand", CO, ("(np.random.rand(num_nodes, num_nodes) < p_threshold)", "(np.random.uniform(size=(num_nodes, num_nodes)) < p_threshold)"))
ref("elifs", CO, ("    if num_nodes < 2:\n        raise ValueError", "    if not num_nodes >= 2:\n        raise ValueError"))
ref("inline", CO, ("    graph = StructureModel(adj_matrix)\n    return graph\n", "    return StructureModel(adj_matrix)\n"))
ref("flip", CO, ("    if w_min > w_max:\n", "    if w_max < w_min:\n"))
ref("bag", CO, ("            bag.append(i)\n            bag.extend(dest)\n", "            bag += [i]\n            bag.extend(dest)\n"))
ref("struct_helper", CO, ("        edge_flags = np.tril(np.ones([num_nodes, num_nodes]), k=-1)\n", "        edge_flags = _all_edges(num_nodes)\n"),
    ("def sem_generator(", "def _all_edges(n):\n    return np.tril(np.ones([n, n]), k=-1)\n\n\ndef sem_generator("))
bug("tril", "C37", CO, ("np.tril(p_edge, k=-1)", "np.tril(p_edge, k=0)"))
bug("tril_full", "C37", CO, ("np.tril(np.ones([num_nodes, num_nodes]), k=-1)", "np.ones([num_nodes, num_nodes])"))
bug("noperm", "C37", CO, ("    edge_flags = perms.T.dot(edge_flags).dot(perms)\n", ""))
bug("permT", "C37", CO, ("perms.T.dot(edge_flags).dot(perms)", "perms.dot(edge_flags).dot(np.random.permutation(perms))"))
bug("abs", "C37", CO, ("    w_min, w_max = abs(w_min), abs(w_max)\n", ""))
bug("sign", "C37", CO, ("edge_weights[np.random.rand(num_nodes, num_nodes) < 0.5] *= -1", "edge_weights[np.random.rand(num_nodes, num_nodes) < 0.5] -= 1"))
bug("bag_range", "C37", CO, ("        for i in range(1, num_nodes):\n            dest", "        for i in range(1, num_nodes - 1):\n            dest"))
bug("bag_first", "C37", CO, ("                edge_flags[i, j] = 1\n            bag.append(i)\n", "                edge_flags[i, j] = 1\n                bag.append(i)\n"))
bug("ba_order", "C37", CO, ("            dest = np.random.choice(bag, size=m)\n            for j in dest:\n                edge_flags[i, j] = 1\n            bag.append(i)\n",
                            "            bag.append(i)\n            dest = np.random.choice(bag, size=m)\n            for j in dest:\n                edge_flags[i, j] = 1\n"))
bug("gt", "C37", CO, ("    if w_min > w_max:\n", "    if w_min >= w_max:\n"))
bug("nodes2", "C37", CO, ("    if num_nodes < 2:\n", "    if num_nodes < 1:\n"))
bug("prob", "C37", CO, ("float(degree) / (num_nodes - 1)", "float(degree) / num_nodes"))

# ---------------------------------------------------------------- sem_generator
ref("topo", CO, ("    for j_node in nx.topological_sort(graph):\n", "    ordered_nodes = list(nx.topological_sort(graph))\n    for j_node in ordered_nodes:\n"))
ref("root_std", CO, ("    if root_node:\n        noise_std = 1\n", "    noise_std = 1 if root_node else noise_std\n"))
ref("poisson", CO, ("    while np.any(mask) and count.max() < max_count:", "    while count.max() < max_count and np.any(mask):"))
ref("onehot", CO, ("        one_hot[:, i] = (x_cat == i).astype(int)", "        one_hot[:, i] = (i == x_cat).astype(int)"))
ref("defaults", CO, ("    if distributions is None:\n        return default_distributions\n", "    if distributions is None:\n        distributions = {}\n"))
ref("weights_else", CO, ("            if n_weights == 1:\n                w_mat[ix_mask_array] = weight\n            elif n_weights > 1:\n",
                         "            if n_weights == 1:\n                w_mat[ix_mask_array] = weight\n            if n_weights > 1:\n"))
ref("ret", CO, ("    return pd.DataFrame(\n        x_mat[:, :-1] if intercept else x_mat, columns=var_fte_mapper.feature_list\n    )\n",
                "    if intercept:\n        x_mat = x_mat[:, :-1]\n    return pd.DataFrame(x_mat, columns=var_fte_mapper.feature_list)\n"))
ref("scale", CO, ("    y_all = _scale_y(np.concatenate(outputs))\n    return y_all[reverse_ix]\n", "    return _scale_y(np.concatenate(outputs))[reverse_ix]\n"))
ref("binary", CO, ("    labels = (latent_mean > 0).astype(int)\n", "    labels = (0 < latent_mean).astype(int)\n"))
ref("gp_empty", CO, ("    use_batches = x.shape[0] > max_chunk_size\n\n    if not use_batches:", "    if x.shape[0] <= max_chunk_size:"))
bug("seed", "C38", CO, ("    np.random.seed(seed)\n", "    if seed:\n        np.random.seed(seed)\n"))
bug("dag", "C38", CO, ("    if not nx.algorithms.is_directed_acyclic_graph(graph):\n        raise ValueError(\"Provided graph is not a DAG.\")\n", ""))
bug("noise_root", "C38", CO, ("    if root_node:\n        noise_std = 1\n", ""))
bug("student", "C38", CO, ("return distribution_func(df=5, size=size) * noise_std", "return distribution_func(df=5, size=size)"))
bug("cat_axis", "C38", CO, ("x_cat = np.argmax(latent_mean, axis=1)", "x_cat = np.argmin(latent_mean, axis=1)"))
bug("quantile", "C38", CO, ("np.quantile(latent_mean, 1 - max_imbalance)", "np.quantile(latent_mean, max_imbalance)"))
bug("share", "C38", CO, ("if share_positive > (1 - max_imbalance):", "if share_positive >= (1 - max_imbalance):"))
bug("icpt_row", "C38", CO, ("            w_mat[-1, :] = np.random.normal(loc=0, scale=1, size=[1, n_columns])", "            w_mat[0, :] = np.random.normal(loc=0, scale=1, size=[1, n_columns])"))
bug("weight_none", "C38", CO, ("        if weight is None:\n", "        if not weight:\n"))
bug("sparse", "C38", CO, ("sparse_mask == np.min(sparse_mask)", "sparse_mask <= np.mean(sparse_mask)"))
bug("zif", "C38", CO, ("    count[zif] = 0\n", ""))
bug("zero_pct", "C38", CO, ("        or zero_inflation_pct > 1\n", ""))
bug("icpt_out", "C38", CO, ("        x_mat[:, :-1] if intercept else x_mat, columns", "        x_mat[:, 1:] if intercept else x_mat, columns"))
bug("topo_nodes", "C38", CO, ("    for j_node in nx.topological_sort(graph):\n        j_idx_list = var_fte_mapper.get_indices(j_node)\n\n        # get all parent features in index notation\n        parents_idx = var_fte_mapper.get_indices(list(graph.predecessors(j_node)))\n\n        # if the data",
                              "    for j_node in graph.nodes:\n        j_idx_list = var_fte_mapper.get_indices(j_node)\n\n        # get all parent features in index notation\n        parents_idx = var_fte_mapper.get_indices(list(graph.predecessors(j_node)))\n\n        # if the data")) if False else None
bug("succ", "C38", CO, ("graph.predecessors(j_node)", "graph.successors(j_node)"))
bug("chunks", "C38", CO, ("f_old=outputs[-1],", "f_old=outputs[0],"))
bug("unsort", "C38", CO, ("    return y_all[reverse_ix]\n", "    return y_all[ix_sort]\n"))
bug("user_dists", "C38", CO, ("    default_distributions.update(distributions)\n    return default_distributions\n", "    distributions.update({k: v for k, v in default_distributions.items() if k not in distributions})\n    return distributions\n"))
bug("maxcount", "C38", CO, ("count.max() < max_count", "count.min() < max_count"))
bug("mapper", "C38", CO, ("np.ix_(parents_idx, j_idx_list)", "np.ix_(sorted(parents_idx), j_idx_list)")) if False else None
bug("gp_same", "C38", CO, ("                        np.expand_dims(_gp_index(x_mat[:, parents_idx], kernel), axis=1)\n                        for _ in j_idx_list\n",
                           "                        gp\n                        for gp in [np.expand_dims(_gp_index(x_mat[:, parents_idx], kernel), axis=1)]\n                        * len(j_idx_list)\n"))
bug("std_noise", "C38", CO, ("                distribution=distributions[\"binary\"],\n                noise_std=noise_std,", "                distribution=distributions[\"binary\"],\n                noise_std=1.0,"))

# ---------------------------------------------------------------- features
ref("cv_missing", CV, ("    schema = {} if schema is None else schema\n", "    if schema is None:\n        schema = {}\n"))
ref("cv_var", CV, ("        return list(chain.from_iterable(self.variable_type_dict.values()))", "        return [v for vs in self.variable_type_dict.values() for v in vs]"))
ref("cv_ftes", CV, ("        return [k for k, v in self._cat_fte_var_dict.items() if v == var]", "        return [fte for fte, name in self._cat_fte_var_dict.items() if var == name]"))
ref("cv_index", CV, ("        self._fte_index_dict = {fte: ix for ix, fte in enumerate(self.feature_list)}", "        self._fte_index_dict = dict(zip(self.feature_list, range(len(self.feature_list))))"))
ref("cv_get", CV, ("schema = {k: schema.get(k, default_type) for k in nodes}", "schema = {k: schema[k] if k in schema else default_type for k in nodes}"))
ref("cv_guard", CV, ("        if var not in self.variable_type_dict[\"categorical\"]:\n            return var\n        return [k for k, v in self._cat_fte_var_dict.items() if v == var]",
                     "        if var in self.variable_type_dict[\"categorical\"]:\n            return [k for k, v in self._cat_fte_var_dict.items() if v == var]\n        return var"))
bug("cv_all", "C39", CV, ("        any(t in x for t in VariableFeatureMapper.PERMISSIBLE_TYPES)\n        for x", "        all(t not in x for t in VariableFeatureMapper.PERMISSIBLE_TYPES)\n        for x"))
bug("cv_default", "C39", CV, ("schema.get(k, default_type) for k in nodes", "schema.get(k, default_type) for k in sorted(nodes)"))
bug("cv_extra", "C39", CV, ("    schema = {k: schema.get(k, default_type) for k in nodes}\n", "    schema = {**{k: default_type for k in nodes}, **schema}\n"))
bug("cv_card", "C39", CV, ('[1-9]+[0-9]*"', '[0-9]+"'))
bug("cv_order", "C39", CV, ("            self.variable_type_dict[\"binary\"]\n            + self.variable_type_dict[\"continuous\"]", "            self.variable_type_dict[\"continuous\"]\n            + self.variable_type_dict[\"binary\"]"))
bug("cv_count", "C39", CV, ("            + self.variable_type_dict[\"binary\"]\n            + self.variable_type_dict[\"count\"]\n        }", "            + self.variable_type_dict[\"binary\"]\n        }"))
bug("cv_squeeze", "C39", CV, ("if squeeze and var not in self.get_var_of_type(\"categorical\"):", "if squeeze:"))
bug("cv_range", "C39", CV, ("                for i in range(card)\n", "                for i in range(1, card)\n"))
bug("cv_inplace", "C39", CV, ("    schema = {k: schema.get(k, default_type) for k in nodes}\n", "    for k in nodes:\n        schema.setdefault(k, default_type)\n"))
bug("cv_iter", "C39", CV, ("        if hasattr(var, \"__next__\"):", "        if hasattr(var, \"__iter__\"):"))
bug("cv_feature", "C39", CV, ("        if feature in self.variable_list and feature not in self.feature_list:", "        if feature in self.variable_list:"))

# ---------------------------------------------------------------- wrappers
ref("w_else", WR, ("    if kernel is None:\n        return sem_generator(\n            graph=sm,\n            default_type=\"count\",", "    if None is kernel:\n        return sem_generator(\n            graph=sm,\n            default_type=\"count\","))
ref("w_cols", WR, ("    return df[list(sm.nodes())].values\n", "    return df[list(sm.nodes)].values\n"))
bug("w_vals", "C40", WR, ("    return df[list(sm.nodes())].values\n", "    return df.values\n"))
bug("w_type", "C40", WR, ('            default_type="count",', '            default_type="continuous",'))
bug("w_kernel", "C40", WR, ("    if kernel is None:\n        return sem_generator(", "    if kernel is not None:\n        return sem_generator("))
bug("w_seed", "C40", WR, ("            seed=seed,\n", ""))
bug("w_cat", "C40", WR, ('"categorical:{}".format(n_categories)', '"categorical:{}".format(n_categories + 1)'))
bug("w_dist", "C40", WR, ('distributions={"binary": distribution},', 'distributions={"continuous": distribution},'))

# ---------------------------------------------------------------- time series
ref("t_names", WR, ('"{var}_lag0".format(var=u) for u in sm_intra.nodes', 'f"{u}_lag0" for u in sm_intra.nodes'))
ref("t_len", WR, ("        if (t + 1) < total_length:\n", "        if t < total_length - 1:\n"))
ref("t_drift", WR, ("    if drift is None:\n        drift = np.zeros(d)\n", "    drift = np.zeros(d) if drift is None else drift\n"))
ref("t_lags", WR, ("            parents = list(g_intra.predecessors(j))\n            parents_prev = list(g_inter.predecessors(j + p * d))\n",
                   "            parents_prev = list(g_inter.predecessors(p * d + j))\n            parents = list(g_intra.predecessors(j))\n"))
ref("t_ones", WR, ("np.ones((n_samples, num_nodes * (1 + p)))", "np.ones((n_samples, (p + 1) * num_nodes))"))
ref("t_flag", WR, ("            max_data_gen_trials -= 1\n", "            max_data_gen_trials = max_data_gen_trials - 1\n"))
ref("t_left", WR, ("            if max_data_gen_trials <= 0:\n                simulate_flag = False\n", "            simulate_flag = max_data_gen_trials > 0\n"))
ref("t_burn", WR, ("        burn_in = max(n_samples // 10, 50)\n", "        burn_in = max(50, n_samples // 10)\n"))
ref("t_semcheck", WR, ("    if sem_type not in s_types:\n", "    if not sem_type in s_types:\n"))
bug("t_shift", "C41", WR, ("Xlags[t + 1, :] = np.concatenate([X[t, :], Xlags[t, :]])[: d * p]", "Xlags[t + 1, :] = np.concatenate([Xlags[t, :], X[t, :]])[: d * p]"))
bug("t_burned", "C41", WR, ("n_samples=n_samples + burn_in,\n                        sem_type", "n_samples=n_samples,\n                        sem_type"))
bug("t_kept", "C41", WR, (".loc[burn_in:, intra_nodes + inter_nodes]", ".loc[:n_samples, intra_nodes + inter_nodes]"))
bug("t_colsw", "C41", WR, (".loc[burn_in:, intra_nodes + inter_nodes]", ".loc[burn_in:, inter_nodes + intra_nodes]"))
bug("t_decay", "C41", WR, ("w_decay**i", "w_decay ** (p - i)"), ) if False else None
bug("t_neg", "C41", WR, ("np.zeros([total_length, p * d])", "np.ones([total_length, p * d])"))
bug("t_trials", "C41", WR, ("            max_data_gen_trials -= 1\n", ""))
bug("t_const", "C41", WR, ("num_nodes * (1 + p)", "num_nodes * p"))
bug("t_args", "C41", WR, ("                        w_min_inter=w_min_inter,\n                        w_max_inter=w_max_inter,\n                        w_decay=w_decay,\n", "                        w_min_inter=w_min_intra,\n                        w_max_inter=w_max_inter,\n                        w_decay=w_decay,\n"))
bug("t_argw", "C41", WR, ("                        sem_type=sem_type,\n                        noise_scale=noise_scale,\n", "                        sem_type=sem_type,\n"))
bug("t_ret", "C41", WR, ("    return g, df, intra_nodes, inter_nodes", "    return g, df, inter_nodes, intra_nodes"))
bug("t_warn", "C41", WR, ("        if max_data_gen_trials <= 0:\n            warnings.warn(", "        if max_data_gen_trials < 0:\n            warnings.warn("))
bug("t_err", "C41", WR, ('np.errstate(over="raise", invalid="raise")', 'np.errstate(over="ignore", invalid="raise")'))
bug("t_lagnodes", "C41", WR, ("    res.add_nodes_from(sm_inter.nodes)\n", ""))
bug("t_sort", "C41", WR, ("key=lambda el: (int(el.rsplit(\"_lag\", 1)[1]), el)", "key=lambda el: el")) if False else None
bug("t_pa", "C41", WR, ("parents_prev = list(g_inter.predecessors(j + p * d))", "parents_prev = list(g_inter.predecessors(j + d))"))
bug("t_last", "C41", WR, ("pd.DataFrame(X[-n_samples:], columns=intra_nodes)", "pd.DataFrame(X[:n_samples], columns=intra_nodes)"))
EDITS = [e for e in EDITS if e]

# restructured sampling
ref("x_zip", CO, ("    outputs.append(y)\n    x_old = x_splits[0]\n    for x_subset in x_splits[1:]:\n", "    outputs.append(y)\n    for x_old, x_subset in zip(x_splits[:-1], x_splits[1:]):\n"),
    ("        outputs.append(y)\n        x_old = x_subset\n", "        outputs.append(y)\n"))
ref("x_enum", CO, ("    outputs.append(y)\n    x_old = x_splits[0]\n    for x_subset in x_splits[1:]:\n", "    outputs.append(y)\n    for i in range(1, len(x_splits)):\n        x_subset, x_old = x_splits[i], x_splits[i - 1]\n"),
    ("        outputs.append(y)\n        x_old = x_subset\n", "        outputs.append(y)\n"))
ref("x_fold", CO, ("            f_old=outputs[-1],\n", "            f_old=f_old,\n"), ("    outputs.append(y)\n    x_old = x_splits[0]\n", "    outputs.append(y)\n    f_old = y\n    x_old = x_splits[0]\n"),
    ("        outputs.append(y)\n        x_old = x_subset\n", "        outputs.append(y)\n        f_old = y\n        x_old = x_subset\n"))
ref("x_first", CO, ("    outputs = []\n    y, cov_mat = _unconditional_sample(x_splits[0], kernel=kernel)\n    outputs.append(y)\n", "    y, cov_mat = _unconditional_sample(x_splits[0], kernel=kernel)\n    outputs = [y]\n"))
ref("x_pois", CO, ("    mask = log_uni >= log_intensity_budget\n\n    # mask", "    mask = log_intensity_budget <= log_uni\n\n    # mask")) if False else None
ref("x_count", CO, ("    count[zif] = 0\n    return count\n", "    return np.where(zif, 0, count)\n"))
ref("x_cat", CO, ("    for i in range(n_cardinality):\n        one_hot[:, i] = (x_cat == i).astype(int)\n\n    return one_hot\n", "    return np.stack([(x_cat == i).astype(int) for i in range(n_cardinality)], axis=1)\n"))
ref("x_bin", CO, ("    labels = (latent_mean > 0).astype(int)\n    share_positive = np.mean(labels)\n", "    labels = (latent_mean > 0).astype(int)\n    share_positive = labels.mean()\n"))
ref("x_helper", CO, ("    cov_mat = kernel(x)\n    y = np.random.multivariate_normal(mean=np.zeros(shape=x.shape[0]), cov=cov_mat)\n    return y.squeeze(), cov_mat\n",
                     "    cov_mat = kernel(x)\n    return _draw(np.zeros(shape=x.shape[0]), cov_mat), cov_mat\n\n\ndef _draw(mean, cov):\n    return np.random.multivariate_normal(mean=mean, cov=cov).squeeze()\n"),
    ("    y_new = np.random.multivariate_normal(mean=cond_mean, cov=cond_cov).squeeze()\n    return y_new, cov_mat_new", "    return _draw(cond_mean, cond_cov), cov_mat_new"))
ref("x_noise", CO, ("    mean += _handle_distribution_sampling(\n", "    noise = _handle_distribution_sampling(\n"), ("        root_node=root_node,\n    )\n\n    return mean\n", "        root_node=root_node,\n    )\n\n    return mean + noise\n"))
ref("x_types", CO, ("        elif var_fte_mapper.is_var_of_type(j_node, \"binary\"):\n            x_mat[:, j_idx_list[0]] = _sample_binary_from_latent(\n                latent_mean=x_mat[:, parents_idx].dot(",
                    "        if var_fte_mapper.is_var_of_type(j_node, \"binary\"):\n            x_mat[:, j_idx_list[0]] = _sample_binary_from_latent(\n                latent_mean=x_mat[:, parents_idx].dot("))
ref("x_wmat", CO, ("        n_weights = len(ix_from) * len(ix_to)\n", "        shape = (len(ix_from), len(ix_to))\n        n_weights = shape[0] * shape[1]\n"),
    ("                    -np.sqrt(12) / 2, np.sqrt(12) / 2, size=(len(ix_from), len(ix_to))\n", "                    -np.sqrt(12) / 2, np.sqrt(12) / 2, size=shape\n"))
ref("x_early", CO, ("    if x.shape[1] == 0:\n        return np.zeros(shape=(x.shape[0],))\n", "    n, d = x.shape\n    if d == 0:\n        return np.zeros(n)\n"))
ref("x_parents", CO, ("        root_node = len(parents_idx) <= 0\n", "        root_node = not parents_idx\n"))
ref("x_root_len", CO, ("    root_node_len = 1 if intercept else 0\n", "    root_node_len = int(intercept)\n"))
ref("t_x_hist", WR, ("        if (t + 1) < total_length:\n            Xlags[t + 1, :] = np.concatenate([X[t, :], Xlags[t, :]])[: d * p]\n", "        nxt = t + 1\n        if nxt < total_length:\n            Xlags[nxt, :] = np.concatenate([X[t, :], Xlags[t, :]])[: d * p]\n"))
ref("t_x_noise", WR, ("            X[t, j] = (\n                drift[j]\n                + X[t, parents].dot(w_mat[parents, j])\n                + Xlags[t, parents_prev].dot(a_mat[parents_prev, j])\n            )\n",
                      "            past = Xlags[t, parents_prev].dot(a_mat[parents_prev, j])\n            present = X[t, parents].dot(w_mat[parents, j])\n            X[t, j] = drift[j] + present + past\n"))
ref("t_x_skip", WR, ("        if (t + 1) < total_length:\n            Xlags[t + 1, :] = np.concatenate([X[t, :], Xlags[t, :]])[: d * p]\n", "        if t + 1 >= total_length:\n            continue\n        Xlags[t + 1, :] = np.concatenate([X[t, :], Xlags[t, :]])[: d * p]\n"))
ref("t_x_hstack", WR, ("np.concatenate([X[t, :], Xlags[t, :]])[: d * p]", "np.hstack([X[t, :], Xlags[t, :]])[: d * p]"))
ref("t_x_trial", WR, ("                g = generate_structure_dynamic(\n", "                g = generate_structure_dynamic(\n")) if False else None
ref("t_x_enough", WR, ("            if (df.abs().max().max() < 1e3) or (max_data_gen_trials <= 0):\n                simulate_flag = False\n", "            if max_data_gen_trials <= 0 or df.abs().max().max() < 1e3:\n                simulate_flag = False\n"))
ref("t_x_names", WR, ("                    intra_nodes = sorted([el for el in g.nodes if \"_lag0\" in el])\n", "                    intra_nodes = sorted(el for el in g.nodes if \"_lag0\" in el)\n"))
ref("t_x_u", WR, ("    u = np.concatenate(u, axis=0) if u else np.empty(b.shape)\n", "    u = np.vstack(u) if u else np.empty(b.shape)\n"))
EDITS = [e for e in EDITS if e]
