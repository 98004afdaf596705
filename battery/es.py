B = "structure/pytorch/sklearn/_base.py"
C = "structure/pytorch/sklearn/clf.py"
D = "structure/pytorch/sklearn/reg.py"
EDITS = [
    # bugs in fit
    ("b_es_alias_X", "C42", B, [("            X = X.copy()\n", "")]),
    ("b_es_alias_y", "any", B, [("                y = y.copy()\n                self._ss_y", "                self._ss_y")]),
    ("b_es_alias_tabu", "C42", B, [("tabu_parent_nodes = copy.deepcopy(self.tabu_parent_nodes)", "tabu_parent_nodes = self.tabu_parent_nodes")]),
    ("b_es_alias_schema", "C42", B, [("copy.deepcopy(self.dist_type_schema) or", "self.dist_type_schema or")]),
    ("b_es_swap_reg", "C42", B, [("lasso_beta=self.alpha", "lasso_beta=self.beta"), ("ridge_beta=self.beta", "ridge_beta=self.alpha")]),
    ("b_es_nobias", "C42", B, [("            use_bias=self.fit_intercept,\n", "")]),
    ("b_es_nothr", "C42", B, [("            w_threshold=self.threshold,\n", "")]),
    ("b_es_notabuchild", "C42", B, [("tabu_child_nodes=self.tabu_child_nodes", "tabu_child_nodes=self.tabu_parent_nodes")]),
    ("b_es_tabu_orig", "C42", B, [("            tabu_parent_nodes=tabu_parent_nodes,\n", "            tabu_parent_nodes=self.tabu_parent_nodes,\n")]),
    ("b_es_tabu_only", "C42", B, [("            elif self._target not in tabu_parent_nodes:\n                tabu_parent_nodes.append(self._target)\n", "")]),
    ("b_es_tabu_always", "C42", B, [("        if self.dependent_target:\n            if tabu_parent_nodes is None:", "        if not self.dependent_target:\n            if tabu_parent_nodes is None:")]),
    ("b_es_tabu_overwrite", "C42", B, [("            if tabu_parent_nodes is None:\n                tabu_parent_nodes = [self._target]\n            elif self._target not in tabu_parent_nodes:\n                tabu_parent_nodes.append(self._target)\n",
                                        "            tabu_parent_nodes = [self._target]\n")]),
    ("b_es_order", "C42", B, [("pd.concat([X, y], axis=1)", "pd.concat([y, X], axis=1)")]),
    ("b_es_std_early_schema", "C42", B, [("        # add the target to the dist_type_schema\n        # NOTE: this must be done AFTER standardize\n        dist_type_schema[y.name] = self._target_dist_type\n\n", ""),
                                         ("        if self.standardize:\n            # only standardize", "        dist_type_schema[y.name] = self._target_dist_type\n        if self.standardize:\n            # only standardize")]),
    ("b_es_std_all", "C42", B, [('                if alias == "cont"\n', "")]),
    ("b_es_std_neg", "C42", B, [('if alias == "cont"', 'if alias != "bin"')]),
    ("b_es_std_always_y", "C42", B, [('            if self._target_dist_type == "cont":\n                y = y.copy()', '            if self._target_dist_type != "bin":\n                y = y.copy()')]),
    ("b_es_std_same_scaler", "C42", B, [("self._ss_y = StandardScaler()", "self._ss_y = self._ss_X")]),
    ("b_es_std_transform", "C42", B, [("X.iloc[:, self.continuous_col_idxs] = self._ss_X.fit_transform(\n                X.iloc[:, self.continuous_col_idxs]", "X.iloc[:, self.continuous_col_idxs] = self._ss_X.fit_transform(\n                X.iloc[:, :len(self.continuous_col_idxs)]")]),
    ("b_es_enforce_always", "C42", B, [("        if self.enforce_dag:\n            self.graph_.thr", "        if self.enforce_dag or self.threshold:\n            self.graph_.thr")]),
    ("b_es_enforce_never", "C42", B, [("        if self.enforce_dag:\n            self.graph_.threshold_till_dag()\n", "")]),
    ("b_es_name_none", "C42", B, [('y.name = y.name or "__target"', 'y.name = "__target" if y.name is None else y.name')]),
    ("b_es_features_after", "C42", B, [("        self._features = tuple(X.columns)\n        self._target = y.name\n\n        # concat X and y along column axis\n        X = pd.concat([X, y], axis=1)\n",
                                        "        self._target = y.name\n\n        # concat X and y along column axis\n        X = pd.concat([X, y], axis=1)\n        self._features = tuple(X.columns)\n")]),
    ("b_es_kwargs", "any", B, [("            **self.kwargs,\n", "")]),
    ("b_es_schema_missing", "C42", B, [("            dist_type_schema=dist_type_schema,\n            lasso", "            dist_type_schema=self.dist_type_schema,\n            lasso")]),
    ("b_es_init_swap", "C42", B, [("self.tabu_child_nodes = tabu_child_nodes", "self.tabu_child_nodes = tabu_parent_nodes")]),
    ("b_es_init_drop", "C42", B, [("        self.standardize = standardize\n", "        self.standardize = False\n")]),
    ("b_es_init_type", "C42", B, [("        if not isinstance(threshold, (int, float)):\n            raise TypeError(\"threshold should be numeric\")\n", "")]),
    ("b_es_init_supported", "C42", B, [("        if (target_dist_type not in self._supported_types) and (\n            target_dist_type is not None\n        ):", "        if target_dist_type and target_dist_type not in ('cont', 'bin', 'cat', 'ord', 'poiss'):")]),
    ("b_es_clf_alias", "C42", C, [("        y = y.copy()\n", "")]),
    ("b_es_clf_noenc", "C42", C, [("        y[:] = enc.fit_transform(y)\n", "        enc.fit_transform(y)\n")]),
    ("b_es_clf_type", "C42", C, [('"cat" if n_classes > 2 else "bin"', '"cat" if n_classes > 3 else "bin"')]),
    ("b_es_clf_type_over", "C42", C, [('        if self._target_dist_type is None:\n            self._target_dist_type = "cat" if n_classes > 2 else "bin"', '        self._target_dist_type = "cat" if n_classes > 2 else "bin"')]),
    ("b_es_clf_after", "C42", C, [('        if self._target_dist_type is None:\n            self._target_dist_type = "cat" if n_classes > 2 else "bin"\n\n        # fit the NOTEARS model\n        super().fit(X, y)\n', '        super().fit(X, y)\n        if self._target_dist_type is None:\n            self._target_dist_type = "cat" if n_classes > 2 else "bin"\n')]),
    ("b_es_clf_one", "C42", C, [("if n_classes < 2:", "if n_classes < 1:")]),
    ("b_es_clf_classes", "C42", C, [("self.classes_ = enc.classes_", "self.classes_ = y.unique()")]),
    ("b_es_reg_type", "C42", D, [('            self._target_dist_type = "cont"', '            self._target_dist_type = "poiss"')]),
    # bugs in predict and the reports
    ("b_es_predict_int", "C43", B, [("            X = X.astype(float)\n", "            X = X.copy()\n")]),
    ("b_es_predict_alias", "C43", B, [("            X = X.astype(float)\n", "")]),
    ("b_es_predict_alias2", "C43", B, [("            X = X.astype(float)\n", "            X = X.astype(float, copy=False)\n")]),
    ("b_es_predict_refit", "C43", B, [("self._ss_X.transform(", "self._ss_X.fit_transform(")]),
    ("b_es_predict_nostd", "C43", B, [("        if self.standardize:\n            # a copy", "        if not self.standardize:\n            # a copy")]),
    ("b_es_predict_front", "C43", B, [("np.hstack([X, y_fill])", "np.hstack([y_fill, X])")]),
    ("b_es_predict_noinv", "C43", B, [('        if self.standardize and self._target_dist_type == "cont":\n            y_pred = self._ss_y.inverse', '        if self.standardize and self._target_dist_type == "poiss":\n            y_pred = self._ss_y.inverse')]),
    ("b_es_predict_inv_always", "C43", B, [('        if self.standardize and self._target_dist_type == "cont":\n            y_pred = self._ss_y.inverse', '        if self.standardize:\n            y_pred = self._ss_y.inverse')]),
    ("b_es_predict_transform", "C43", B, [("self._ss_y.inverse_transform", "self._ss_y.transform")]),
    ("b_es_predict_X", "C43", B, [("target_dist_type.get_columns(X_hat)", "target_dist_type.get_columns(X)")]),
    ("b_es_edges_from", "C43", B, [("if j == name:\n                # insert the weight into the series\n                edges[i] = w", "if i == name:\n                edges[j] = w")]),
    ("b_es_edges_weight", "C43", B, [("self.graph_.edges(data=data)", 'self.graph_.edges(data="weight")')]),
    ("b_es_edges_drop", "C43", B, [("edges = edges.fillna(0)", "edges = edges.dropna()")]),
    ("b_es_edges_abs", "C43", B, [("                edges[i] = w\n", "                edges[i] = abs(w)\n")]),
    ("b_es_coef", "C43", B, [('np.asarray(self.get_edges_to_node(self._target, data="mean_effect"))', "np.asarray(self.get_edges_to_node(self._target))")]),
    ("b_es_bias", "C43", B, [("return 0.0 if bias is None else float(bias)", "return float(bias or 1.0)")]),
    ("b_es_proba", "C43", C, [("np.vstack([1 - y_pred, y_pred]).T", "np.vstack([y_pred, 1 - y_pred]).T")]),
    ("b_es_proba2", "C43", C, [("np.vstack([1 - y_pred, y_pred]).T", "np.vstack([1 - y_pred, y_pred])")]),
    ("b_es_clf_col0", "C43", C, [("probs[:, 1].round()", "probs[:, 0].round()")]),
    ("b_es_clf_ceil", "C43", C, [("indices = probs[:, 1].round().astype(np.int64)", "indices = np.ceil(probs[:, 1]).astype(np.int64)")]),
    ("b_es_clf_argmin", "C43", C, [("np.argmax(probs, axis=1)", "np.argmin(probs, axis=1)")]),
    ("b_es_clf_axis", "C43", C, [("np.argmax(probs, axis=1)", "np.argmax(probs, axis=0)")]),
    ("b_es_clf_nocls", "C43", C, [("return self.classes_[indices]", "return indices")]),
    ("b_es_clf_coef", "C43", C, [('                    self.get_edges_to_node(node, data="mean_effect").values', "                    self.get_edges_to_node(node).values")]),
    ("b_es_clf_nodes", "C43", C, [("for catidx in range(len(self.classes_)):", "for catidx in range(1, len(self.classes_) + 1):")]),
    ("b_es_clf_icpt", "C43", C, [("        for node in self._target_node_names:\n            bias = self.graph_.nodes[node][\"bias\"]", "        for node in self._target_node_names:\n            bias = self.graph_.nodes[self._target][\"bias\"]")]),
    # same behaviour
    ("r_es_name", "ref", B, [('        y.name = y.name or "__target"\n', '        if not y.name:\n            y.name = "__target"\n')]),
    ("r_es_schema", "ref", B, [('        dist_type_schema = copy.deepcopy(self.dist_type_schema) or {\n            col: "cont" for col in X.columns\n        }\n',
                                '        if self.dist_type_schema:\n            dist_type_schema = copy.deepcopy(self.dist_type_schema)\n        else:\n            dist_type_schema = {col: "cont" for col in X.columns}\n')]),
    ("r_es_schema2", "ref", B, [("copy.deepcopy(self.dist_type_schema) or {\n            col: \"cont\" for col in X.columns\n        }", "dict(self.dist_type_schema or {c: \"cont\" for c in X.columns})")]),
    ("r_es_loop", "ref", B, [('            self.continuous_col_idxs = [\n                X.columns.get_loc(col)\n                for col, alias in dist_type_schema.items()\n                if alias == "cont"\n            ]\n',
                              '            idxs = []\n            for col, alias in dist_type_schema.items():\n                if alias != "cont":\n                    continue\n                idxs.append(X.columns.get_loc(col))\n            self.continuous_col_idxs = idxs\n')]),
    ("r_es_scaler", "ref", B, [("            self._ss_X = StandardScaler()\n", "            scaler = StandardScaler()\n            self._ss_X = scaler\n"), ("self._ss_X.fit_transform(\n", "scaler.fit_transform(\n")]),
    ("r_es_helper", "ref", B, [("        tabu_parent_nodes = copy.deepcopy(self.tabu_parent_nodes)\n        if self.dependent_target:\n            if tabu_parent_nodes is None:\n                tabu_parent_nodes = [self._target]\n            elif self._target not in tabu_parent_nodes:\n                tabu_parent_nodes.append(self._target)\n",
                                "        tabu_parent_nodes = self._tabu_parents()\n"),
                               ("    def predict(self, X: Union", "    def _tabu_parents(self):\n        tabu = copy.deepcopy(self.tabu_parent_nodes)\n        if not self.dependent_target:\n            return tabu\n        if tabu is None:\n            return [self._target]\n        if self._target not in tabu:\n            tabu.append(self._target)\n        return tabu\n\n    def predict(self, X: Union")]),
    ("r_es_tabu_list", "ref", B, [("                tabu_parent_nodes.append(self._target)\n", "                tabu_parent_nodes = tabu_parent_nodes + [self._target]\n")]),
    ("r_es_tabu_list2", "ref", B, [("tabu_parent_nodes = copy.deepcopy(self.tabu_parent_nodes)\n", "tabu_parent_nodes = None if self.tabu_parent_nodes is None else list(self.tabu_parent_nodes)\n")]),
    ("r_es_flag", "ref", B, [("        if self.standardize and self._target_dist_type == \"cont\":\n            y_pred = self._ss_y.inverse_transform(y_pred.reshape(-1, 1)).reshape(-1)\n\n        return y_pred\n",
                              "        rescale = self.standardize and self._target_dist_type == \"cont\"\n        if not rescale:\n            return y_pred\n\n        return self._ss_y.inverse_transform(y_pred.reshape(-1, 1)).ravel()\n")]),
    ("r_es_float", "ref", B, [("            X = X.astype(float)\n", "            X = np.array(X, dtype=np.float64)\n")]),
    ("r_es_nodes", "ref", B, [('self.graph_.nodes(data=True)[self._target]["dist_type"]', 'self.graph_.nodes[self._target]["dist_type"]')]),
    ("r_es_concat", "ref", B, [("np.hstack([X, y_fill])", "np.concatenate([X, y_fill], axis=1)")]),
    ("r_es_zeros", "ref", B, [("np.zeros(shape=(X.shape[0], 1))", "np.zeros((len(X), 1))")]),
    ("r_es_edges", "ref", B, [("            if j == name:\n                # insert the weight into the series\n                edges[i] = w\n", "            if j != name:\n                continue\n            edges[i] = w\n"),
                              ("        edges = edges.fillna(0)\n\n        return edges\n", "        return edges.fillna(0)\n")]),
    ("r_es_edges2", "ref", B, [("edges = pd.Series(index=self._features)", "edges = pd.Series(0.0, index=self._features)"), ("        edges = edges.fillna(0)\n\n", "")]),
    ("r_es_asarray", "ref", B, [("return np.asarray(self.get_edges_to_node(self._target))", 'return self.get_edges_to_node(self._target, data="weight").values')]),
    ("r_es_bias", "ref", B, [("        return 0.0 if bias is None else float(bias)\n", "        if bias is None:\n            return 0.0\n        return float(bias)\n")]),
    ("r_es_proba", "ref", C, [("        if len(y_pred.shape) == 1:\n            y_pred = np.vstack([1 - y_pred, y_pred]).T\n        return y_pred\n", "        if y_pred.ndim != 1:\n            return y_pred\n        return np.stack([1 - y_pred, y_pred], axis=1)\n")]),
    ("r_es_cls", "ref", C, [("            indices = probs[:, 1].round().astype(np.int64)\n", "            indices = (probs[:, 1] > 0.5).astype(int)\n")]),
    ("r_es_cls2", "ref", C, [("        n_classes = len(self.classes_)\n        if n_classes == 2:\n            # get the class by rounding the (0, 1) bound probability\n            # NOTE: probs is returned as a (n_samples, n_classes) array\n            indices = probs[:, 1].round().astype(np.int64)\n        else:\n            # use max probability in columns to determine class\n            indices = np.argmax(probs, axis=1)\n",
                              "        indices = probs.argmax(axis=1)\n")]),
    ("r_es_names", "ref", C, [("        target_nodes = []\n        for catidx in range(len(self.classes_)):\n            target_nodes.append(\n                DistTypeCategorical.make_node_name(self._target, catidx)\n            )\n        return target_nodes\n",
                               "        return [\n            DistTypeCategorical.make_node_name(self._target, catidx)\n            for catidx, _ in enumerate(self.classes_)\n        ]\n")]),
    ("r_es_coef", "ref", C, [('        data = []\n        for node in self._target_node_names:\n            # get stack into (n_classes, n_features) format\n            data.append(\n                np.asarray(\n                    self.get_edges_to_node(node, data="mean_effect").values\n                ).reshape(1, -1)\n            )\n        return np.vstack(data)\n',
                              '        return np.vstack(\n            [\n                self.get_edges_to_node(node, data="mean_effect").values.reshape(1, -1)\n                for node in self._target_node_names\n            ]\n        )\n')]),
    ("r_es_order", "ref", B, [("        self._features = tuple(X.columns)\n        self._target = y.name\n", "        self._target = y.name\n        self._features = tuple(X.columns)\n")]),
    ("r_es_clf_local", "ref", C, [("        self.classes_ = enc.classes_\n", "        classes = enc.classes_\n        self.classes_ = classes\n"), ("n_classes = len(self.classes_)\n        if n_classes < 2", "n_classes = len(classes)\n        if n_classes <= 1")]),
    ("r_es_clf_type", "ref", C, [('self._target_dist_type = "cat" if n_classes > 2 else "bin"', 'if n_classes == 2:\n                self._target_dist_type = "bin"\n            else:\n                self._target_dist_type = "cat"')]),
    ("r_es_kw", "ref", B, [("        self.graph_ = notears.from_pandas(\n            X,\n", "        graph = notears.from_pandas(\n            X=X,\n"), ("        # keep thresholding until the DAG", "        self.graph_ = graph\n        # keep thresholding until the DAG"),
                           ("        if self.enforce_dag:\n            self.graph_.thr", "        if self.enforce_dag:\n            graph.thr")]),
    ("r_es_super", "ref", D, [("        super().fit(X, y)\n        return self", "        return super().fit(X, y)")]),
]
EDITS += [
    ("r_es_kwdict", "ref", B, [("        self.graph_ = notears.from_pandas(\n            X,\n", "        options = dict(self.kwargs)\n        self.graph_ = notears.from_pandas(\n            X,\n"), ("            **self.kwargs,\n", "            **options,\n")]),
    ("r_es_kwall", "ref", B, [("            use_bias=self.fit_intercept,\n            **self.kwargs,\n", "            **{\"use_bias\": self.fit_intercept, **self.kwargs},\n")]),
    ("r_es_kwall2", "ref", B, [("        self.graph_ = notears.from_pandas(\n            X,\n", "        options = {**self.kwargs, \"use_bias\": self.fit_intercept}\n        self.graph_ = notears.from_pandas(\n            X,\n"), ("            use_bias=self.fit_intercept,\n            **self.kwargs,\n", "            **options,\n")]),
]
