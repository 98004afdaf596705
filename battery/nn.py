"""edits of the distribution types and the network"""
D = "structure/pytorch/dist_type/"
B, BI, CA, CO, OR, PO = (D + f for f in ("_base.py", "binary.py", "categorical.py", "continuous.py", "ordinal.py", "poisson.py"))
CM = "structure/pytorch/core.py"
NL = "structure/pytorch/nonlinear.py"
EDITS = [
    ("nn_bin_loss", "C45", BI, [("reduction=\"mean\"", "reduction=\"sum\"")]),
    ("nn_cat_tabu_none", "C44", B, [("tabu_edges += list(itertools.permutations(idx_group, 2))", "tabu_edges += list(itertools.combinations(idx_group, 2))")]),
    ("nn_cat_tabu_if", "ref", B, [("            elif j == idx_group[0]:", "            if i != idx_group[0] and j == idx_group[0]:")]),
    ("nn_cat_tabu_both", "C44", B, [("            elif j == idx_group[0]:\n                new_tabu_edges += [(i, idx)", "            elif j == idx_group[0]:\n                new_tabu_edges += [(idx, i)")]),
    ("nn_cat_tabu_copy", "C44", B, [("        tabu_edges = deepcopy(tabu_edges)\n", "")]),
    ("nn_cat_tabu_nodes_copy", "C44", B, [("        tabu_nodes = deepcopy(tabu_nodes)\n", "")]),
    ("nn_cat_tabu_copy2", "ref", B, [("        tabu_nodes = deepcopy(tabu_nodes)\n", "        tabu_nodes = list(tabu_nodes)\n")]),
    ("nn_cat_tabu_drop", "C44", B, [("        tabu_nodes += new_tabu_nodes\n", "        tabu_nodes = new_tabu_nodes\n")]),
    ("nn_cat_tabu_flag", "C44", CA, [("tabu_idx_group=True", "tabu_idx_group=False")]),
    ("nn_cat_first", "C44", CA, [("X[:, self.idx] = expanded_columns[:, 0]", "X[:, self.idx] = expanded_columns[:, -1]")]),
    ("nn_cat_rest", "C44", CA, [("self._expand_columns(X, expanded_columns[:, 1:])", "self._expand_columns(X, expanded_columns[:, :-1])")]),
    ("nn_cat_swapcols", "C44", B, [("np.hstack([X, new_columns])", "np.hstack([new_columns, X])")]),
    ("nn_cat_conc", "ref", B, [("np.hstack([X, new_columns])", "np.concatenate([X, new_columns], axis=1)")]),
    ("nn_cat_start", "C44", CA, [("idx_start = X.shape[1] - n_new_cols", "idx_start = X.shape[1] - n_new_cols - 1")]),
    ("nn_cat_refit", "C44", CA, [("        if fit_transform:\n            self.encoder = OneHotEncoder(sparse=False, categories=\"auto\", drop=None)\n            self.encoder.fit(X[:, [self.idx]])",
                                 "        self.encoder = OneHotEncoder(sparse=False, categories=\"auto\", drop=None)\n        self.encoder.fit(X[:, [self.idx]])")]),
    ("nn_cat_group_ref", "ref", CA, [("            self.idx_group = []\n            # preserve the first column location\n            self.idx_group.append(self.idx)\n", "            self.idx_group = [self.idx]\n")]),
    ("nn_cat_group_expr", "ref", CA, [("            self.idx_group += list(range(idx_start, X.shape[1]))", "            self.idx_group.extend(range(idx_start, X.shape[1]))")]),
    ("nn_cat_nocopy", "C44", CA, [("        X = deepcopy(X)\n", "")]),
    ("nn_ord_nocopy", "C44", OR, [("        X = deepcopy(X)\n", "")]),
    ("nn_ord_copy", "ref", OR, [("        X = deepcopy(X)\n", "        X = X.copy()\n")]),
    ("nn_ord_cum", "C44", OR, [("cum_class_probs = cum_class_probs[:-1]", "cum_class_probs = cum_class_probs[1:]")]),
    ("nn_ord_odds", "C44", OR, [("np.log(cum_class_probs / (1 - cum_class_probs))", "np.log((1 - cum_class_probs) / cum_class_probs)")]),
    ("nn_ord_odds_ref", "ref", OR, [("            self.log_cum_odds = np.log(cum_class_probs / (1 - cum_class_probs))", "            odds = cum_class_probs / (1 - cum_class_probs)\n            self.log_cum_odds = np.log(odds)")]),
    ("nn_ord_refit", "C44", OR, [("        if fit_transform:\n            # calculate the", "        if True:\n            # calculate the")]),
    ("nn_ord_shift", "C45", OR, [("torch.unsqueeze(log_cum_odds, dim=0) - X_hat[:, [self.idx]]", "torch.unsqueeze(log_cum_odds, dim=0) + X_hat[:, [self.idx]]")]),
    ("nn_ord_mid", "C45", OR, [("cum_prob[:, 1:] - cum_prob[:, 0:-1]", "cum_prob[:, 0:-1] - cum_prob[:, 1:]")]),
    ("nn_ord_top", "C45", OR, [("probs[:, -1] = 1 - cum_prob[:, -1]", "probs[:, -1] = cum_prob[:, -1]")]),
    ("nn_ord_nll", "C45", OR, [("loss = -torch.log(predicted_prob)", "loss = torch.log(predicted_prob)")]),
    ("nn_ord_nll_ref", "ref", OR, [("        loss = -torch.log(predicted_prob)\n\n        return torch.mean(loss)", "        return -torch.mean(torch.log(predicted_prob))")]),
    ("nn_ord_mean", "ref", OR, [("return torch.mean(loss)", "return loss.mean()")]),
    ("nn_pois_zero", "C44", PO, [("< 0", "<= 0")]),
    ("nn_pois_any", "ref", PO, [("(X[:, self.idx] < 0).sum() > 0", "(X[:, self.idx] < 0).any()")]),
    ("nn_pois_log", "C45", PO, [("log_input=True", "log_input=False")]),
    ("nn_pois_inv", "C45", PO, [("torch.exp(X_hat[:, self.idx])", "torch.abs(X_hat[:, self.idx])")]),
    ("nn_bin_swap", "C45", BI, [("input=X_hat[:, self.idx]", "input=X[:, self.idx]"), ("target=X[:, self.idx]", "target=X_hat[:, self.idx]")]),
    ("nn_bin_pos", "ref", BI, [("input=X_hat[:, self.idx]", "X_hat[:, self.idx]"), ("target=X[:, self.idx]", "X[:, self.idx]")]),
    ("nn_bin_inv", "C45", BI, [("X_hat[:, self.idx] = torch.sigmoid(X_hat[:, self.idx])", "X_hat = torch.sigmoid(X_hat)")]),
    ("nn_bin_inv_m", "ref", BI, [("torch.sigmoid(X_hat[:, self.idx])", "X_hat[:, self.idx].sigmoid()")]),
    ("nn_cont_half", "C45", CO, [("0.5 / X.shape[0]", "1.0 / X.shape[0]")]),
    ("nn_cont_swap", "ref", CO, [("X_hat[:, self.idx] - X[:, self.idx]", "X[:, self.idx] - X_hat[:, self.idx]")]),
    ("nn_cat_soft", "C45", CA, [("torch.softmax(X_hat[:, self.idx_group], dim=1)", "torch.softmax(X_hat[:, self.idx_group], dim=0)")]),
    ("nn_cat_arg", "C45", CA, [("torch.argmax(X_one_hot, dim=1)", "torch.argmax(X_one_hot, dim=0)")]),
    ("nn_cat_arg_m", "ref", CA, [("torch.argmax(X_one_hot, dim=1)", "X_one_hot.argmax(dim=1)")]),
    ("nn_cat_h_dim", "C45", CA, [("square_weight_mat[expand_idx, :], dim=0", "square_weight_mat[expand_idx, :], dim=1")]),
    ("nn_cat_h_drop", "C45", CA, [("        # Add on the edges to expanded nodes.\n        square_weight_mat[:, orig_idx] = square_weight_mat[:, orig_idx] + torch.sum(\n            square_weight_mat[:, expand_idx], dim=1\n        )\n", "")]),
    ("nn_cat_adj", "C45", CA, [("adj[:, orig_idx] = adj[:, orig_idx] + np.sum(adj[:, expand_idx], axis=1)", "adj[:, orig_idx] = np.sum(adj[:, expand_idx], axis=1)")]),
    ("nn_cat_adj_aug", "ref", CA, [("adj[:, orig_idx] = adj[:, orig_idx] + np.sum(adj[:, expand_idx], axis=1)", "adj[:, orig_idx] += np.sum(adj[:, expand_idx], axis=1)")]),
    ("nn_cat_adj_sum", "ref", CA, [("np.sum(adj[:, expand_idx], axis=1)", "adj[:, expand_idx].sum(axis=1)")]),
    ("nn_cat_names", "C44", CA, [("enumerate(self.idx_group)", "enumerate(self.idx_group, 1)")]),
    ("nn_cat_names_ref", "ref", CA, [("        new_idx_cols = {}\n        colname = idx_col.pop(self.idx_group[0])\n        for catidx, idx in enumerate(self.idx_group):\n            new_idx_cols[idx] = self.make_node_name(colname, catidx)\n        return",
                                      "        colname = idx_col.pop(self.idx_group[0])\n        new_idx_cols = {idx: self.make_node_name(colname, catidx) for catidx, idx in enumerate(self.idx_group)}\n        return")]),
    ("nn_cat_name_fmt", "ref", CA, [("return \"{}{}\".format(colname, catidx)", "return f\"{colname}{catidx}\"")]),
    ("nn_cat_name_bug", "C44", CA, [("return \"{}{}\".format(colname, catidx)", "return \"{}{}\".format(catidx, colname)")]),
    ("nn_cat_merge", "C44", CA, [("return {**idx_col, **new_idx_cols}", "return new_idx_cols")]),
    ("nn_cat_node", "C44", CA, [("        for idx in self.idx_group:\n            sm.nodes[idx]", "        for idx in self.idx_group[1:]:\n            sm.nodes[idx]")]),
    ("nn_base_node", "C44", B, [("sm.nodes[self.idx][\"dist_type\"] = self", "sm.nodes[self.idx][\"dist_type\"] = type(self)")]),
    ("nn_alias", "C44", D + "__init__.py", [("\"cat\": DistTypeCategorical", "\"cat\": DistTypeOrdinal")]),
    # the network
    ("nn_dims", "C46", CM, [("[n_features] + list(hidden_layer_units) + [1]", "[n_features] + list(hidden_layer_units)")]),
    ("nn_dims_ref", "ref", CM, [("[n_features] + list(hidden_layer_units) + [1]", "[n_features, *hidden_layer_units, 1]")]),
    ("nn_bias_zero", "C46", CM, [("        if use_bias:\n            nn.init.zeros_(self.dag_layer.bias)\n", "")]),
    ("nn_layers_zip", "C46", CM, [("zip(self.dims[1:-1], self.dims[2:])", "zip(self.dims[2:], self.dims[1:-1])")]),
    ("nn_layers_bias", "C46", CM, [("self.dims[0], input_features, output_features, bias=use_bias", "self.dims[0], input_features, output_features, bias=True")]),
    ("nn_bounds_lost", "C46", CM, [("        self.dag_layer.weight.bounds = bounds\n", "")]),
    ("nn_clamp", "C46", CM, [("eps=self.nonlinear_clamp", "eps=1e-5")]),
    ("nn_fwd_order", "C46", CM, [("            x = layer(x)  # [n, d, m2]\n", ""), ("            x = torch.sigmoid(x)  # [n, d, m1]\n", "            x = torch.sigmoid(x)\n            x = layer(x)\n")]),
    ("nn_fwd_m", "ref", CM, [("            x = torch.sigmoid(x)  # [n, d, m1]\n", "            x = x.sigmoid()\n")]),
    ("nn_fwd_norm", "ref", CM, [("            x = nn.LayerNorm(\n                output_dim,\n                eps=self.nonlinear_clamp,\n                elementwise_affine=True,\n            )(x)\n",
                                 "            norm = nn.LayerNorm(output_dim, eps=self.nonlinear_clamp)\n            x = norm(x)\n")]),
    ("nn_rec_refit", "C46", CM, [("X = dist_type.preprocess_X(X, fit_transform=False)", "X = dist_type.preprocess_X(X)")]),
    ("nn_rec_link", "C46", CM, [("X_hat = dist_type.inverse_link_function(X_hat)", "X_hat = dist_type.inverse_link_function(X)")]),
    ("nn_rec_nolink", "C46", CM, [("            for dist_type in self.dist_types:\n                X_hat = dist_type.inverse_link_function(X_hat)\n", "")]),
    ("nn_rec_name", "ref", CM, [("            X_hat = self(X)\n\n            # recover", "            recon = self.forward(X)\n            X_hat = recon\n\n            # recover")]),
    ("nn_fit_break", "C46", CM, [("if h <= h_tol or rho >= rho_max:", "if h <= h_tol and rho >= rho_max:")]),
    ("nn_fit_break_ref", "ref", CM, [("            if h <= h_tol or rho >= rho_max:\n                break", "            converged = h <= h_tol\n            if converged or rho >= rho_max:\n                break")]),
    ("nn_fit_adj", "C46", CM, [("self._calculate_adj(X_torch, mean_effect=False)", "self._calculate_adj(X_torch, mean_effect=True)")]),
    ("nn_fit_rho", "C46", CM, [("rho, alpha, h = 1.0, 0.0, np.inf", "rho, alpha, h = 0.0, 0.0, np.inf")]),
    ("nn_fit_state", "C46", CM, [("rho, alpha, h = self._dual_ascent_step(X_torch, rho, alpha, h, rho_max)", "_, alpha, h = self._dual_ascent_step(X_torch, rho, alpha, h, rho_max)")]),
    ("nn_h_power", "C46", CM, [("torch.matrix_power(characteristic_poly_mat, d - 1)", "torch.matrix_power(characteristic_poly_mat, d - 2)")]),
    ("nn_h_trace", "C46", CM, [("(polynomial_mat.t() * characteristic_poly_mat).sum() - d", "(polynomial_mat * characteristic_poly_mat).sum() - d")]),
    ("nn_h_ref", "ref", CM, [("        h = (polynomial_mat.t() * characteristic_poly_mat).sum() - d\n        return h", "        return torch.sum(polynomial_mat.T * characteristic_poly_mat) - d")]),
    ("nn_h_full", "C46", CM, [("        square_weight_mat = square_weight_mat[:original_size, :original_size]\n", "")]),
    ("nn_h_modify", "C46", CM, [("            square_weight_mat = dist_type.modify_h(square_weight_mat)\n", "")]),
    ("nn_h_sizes", "ref", CM, [("        original_size = np.max(original_idxs) + 1\n", "        original_size = max(original_idxs) + 1\n")]),
    ("nn_h_sq", "ref", CM, [("dag_layer_weight * dag_layer_weight, dim=1", "dag_layer_weight ** 2, dim=1")]),
    ("nn_h_dim", "C46", CM, [("dag_layer_weight * dag_layer_weight, dim=1\n        ).t()", "dag_layer_weight * dag_layer_weight, dim=1\n        )")]),
    ("nn_l1_sum", "C46", CM, [("torch.mean(torch.abs(self.dag_layer_weight)) * n_features", "torch.sum(torch.abs(self.dag_layer_weight)) * n_features")]),
    ("nn_l1_ref", "ref", CM, [("torch.mean(torch.abs(self.dag_layer_weight)) * n_features", "n_features * self.dag_layer_weight.abs().mean()")]),
    ("nn_l2_count", "C46", CM, [("n_elements = n_elements + layer.weight.numel()", "n_elements = n_elements + 1")]),
    ("nn_l2_ref", "ref", CM, [("        n_elements = self.dag_layer_weight.numel()\n        for layer in self.loc_lin_layer_weights:\n            n_elements = n_elements + layer.weight.numel()\n",
                               "        n_elements = self.dag_layer_weight.numel()\n        for layer in self.loc_lin_layer_weights:\n            n_elements += layer.weight.numel()\n")]),
    ("nn_adj_T", "C46", CM, [("        return adj.T\n", "        return adj\n")]),
    ("nn_adj_abs", "C46", CM, [("torch.abs(ddx).mean(dim=0)", "torch.abs(ddx.mean(dim=0))")]),
    ("nn_adj_lin", "C46", CM, [("                self.dag_layer_weight.T\n                if mean_effect", "                torch.abs(self.dag_layer_weight.T)\n                if mean_effect")]),
    ("nn_adj_ref", "ref", CM, [("            if mean_effect:\n                # get the average effect\n                adj.append(ddx.mean(axis=0).unsqueeze(0))\n            else:\n                # otherwise, use the average L1 of the gradient as the W\n                adj.append(torch.abs(ddx).mean(dim=0).unsqueeze(0))\n",
                                "            if not mean_effect:\n                ddx = torch.abs(ddx)\n            adj.append(ddx.mean(dim=0).unsqueeze(0))\n")]),
    ("nn_lc_bias", "C46", NL, [("            out += self.bias", "            out -= self.bias")]),
    ("nn_lc_reset", "C46", NL, [("        self.reset_parameters()\n", "")]),
    ("nn_lc_ref", "ref", NL, [("            out += self.bias", "            out = out + self.bias")]),
    # a step of training
    ("nn_st_quarter", "C47", CM, [("            if h_new > 0.25 * h:\n                rho *= 10", "            if h_new > h:\n                rho *= 10")]),
    ("nn_st_rho", "C47", CM, [("                rho *= 10", "                rho += 10")]),
    ("nn_st_alpha", "C47", CM, [("        alpha += rho * h_new\n", "        alpha += rho * h\n")]),
    ("nn_st_hold", "C47", CM, [("            _update_params_from_flat(params, sol.x)\n            h_new = self._h_func().item()\n", "            h_new = self._h_func().item()\n            _update_params_from_flat(params, sol.x)\n")]),
    ("nn_st_noset", "C47", CM, [("            _update_params_from_flat(params, sol.x)\n            h_new", "            h_new")]),
    ("nn_st_bounds", "C47", CM, [("                bounds=bounds,\n", "")]),
    ("nn_st_bounds2", "C47", CM, [("                    b = [(None, None)] * p.numel()", "                    b = [(0, None)] * p.numel()")]),
    ("nn_st_pen", "C47", CM, [("0.5 * rho * h_val * h_val + alpha * h_val", "0.5 * rho * h_val + alpha * h_val")]),
    ("nn_st_pen_ref", "ref", CM, [("0.5 * rho * h_val * h_val + alpha * h_val", "h_val * (alpha) + 0.5 * rho * h_val ** 2")]),
    ("nn_st_beta", "C47", CM, [("l2_reg = 0.5 * self.ridge_beta *", "l2_reg = 0.5 * self.lasso_beta *")]),
    ("nn_st_loss", "C47", CM, [("                loss = loss + dist_type.loss(X, X_hat)", "                loss = dist_type.loss(X, X_hat)")]),
    ("nn_st_loss_aug", "ref", CM, [("                loss = loss + dist_type.loss(X, X_hat)", "                loss += dist_type.loss(X, X_hat)")]),
    ("nn_st_zero", "C47", CM, [("            optimizer.zero_grad()\n", "")]),
    ("nn_st_zero_late", "C47", CM, [("            optimizer.zero_grad()\n", ""), ("            primal_obj.backward()\n", "            primal_obj.backward()\n            optimizer.zero_grad()\n")]),
    ("nn_st_zero_first", "ref", CM, [("            _update_params_from_flat(params, flat_params)\n            optimizer.zero_grad()\n", "            optimizer.zero_grad()\n            _update_params_from_flat(params, flat_params)\n")]),
    ("nn_st_obj", "C47", CM, [("            loss = primal_obj.item()\n", "            loss = loss.item()\n")]),
    ("nn_st_obj_ref", "ref", CM, [("            loss = primal_obj.item()\n\n            flat_grad = _get_flat_grad(params)\n            return loss, flat_grad", "            flat_grad = _get_flat_grad(params)\n            return primal_obj.item(), flat_grad")]),
    ("nn_st_offset", "C47", CM, [("                offset += n_params", "                offset = n_params")]),
    ("nn_st_slice", "C47", CM, [("flat_params_torch[offset : offset + n_params]", "flat_params_torch[: n_params]")]),
    ("nn_st_params", "ref", CM, [("params = optimizer.param_groups[0][\"params\"]", "params = list(self.parameters())")]),
    ("nn_st_while", "ref", CM, [("        while (rho < rho_max) and (h_new > 0.25 * h or h_new == np.inf):", "        while (h_new == np.inf or h_new > 0.25 * h) and rho < rho_max:")]),
    ("nn_st_while_bug", "C47", CM, [("        while (rho < rho_max) and (h_new > 0.25 * h or h_new == np.inf):", "        while (rho < rho_max) and (h_new > 0.25 * h and h_new == np.inf):")]),
    ("nn_st_grad", "C47", CM, [("p.data.new(p.data.numel()).zero_()\n", "p.data.new(p.data.numel()).fill_(1)\n")]),
    ("nn_st_jac", "C47", CM, [("                jac=True,\n", "                jac=False,\n")]),
    ("nn_st_helper", "ref", CM, [("            lagrange_penalty = 0.5 * rho * h_val * h_val + alpha * h_val\n", "            def _penalty(v):\n                return 0.5 * rho * v * v + alpha * v\n\n            lagrange_penalty = _penalty(h_val)\n")]),
]
