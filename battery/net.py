"""Edits of network/network.py."""
EDITS = []
FILE = "network/network.py"


def ref(name, *subs, file=FILE):
    EDITS.append(("r_net_" + name, "ref", file, list(subs)))


def bug(name, ids, *subs, file=FILE):
    EDITS.append(("b_net_" + name, ids, file, list(subs)))


COMP = '''        n_components = nx.number_weakly_connected_components(structure)

        if n_components > 1:
            raise ValueError(
                "The given structure has {n_components} separated graph components. "
                "Please make sure it has only one.".format(n_components=n_components)
            )
'''
CYC = '''        if not nx.is_directed_acyclic_graph(structure):
            cycle = nx.find_cycle(structure)
            raise ValueError(
                "The given structure is not acyclic. Please review the following cycle: {cycle}".format(
                    cycle=cycle
                )
            )
'''
ADD = '''        self._model.add_edges_from(structure.edges)
'''
SETMISS = '''        missing_feature = set(self.nodes).difference(set(nodes.keys()))
        if missing_feature:
            raise KeyError(
                "The data does not cover all the features found in the Bayesian Network. "
                "Please check the following features: {nodes}".format(
                    nodes=missing_feature
                )
            )
'''
SETNULL = '''        for node, states in nodes.items():
            if any(pd.isnull(list(states))):
                raise ValueError("node '{node}' contains None state".format(node=node))
'''
SETVAL = '''        self._node_states = {
            n: {v: k for k, v in enumerate(sorted(nodes[n]))} for n in nodes
        }
'''
FIT = '''        if method == "MaximumLikelihoodEstimator":
            self._model.fit(
                data=transformed_data,
                estimator=MaximumLikelihoodEstimator,
                state_names=state_names,
            )

        elif method == "BayesianEstimator":
            valid_bayes_priors = ["BDeu", "K2"]
            if bayes_prior not in valid_bayes_priors:
                raise ValueError(
                    "unrecognised bayes_prior, please use on of %s"
                    % " ".join(valid_bayes_priors)
                )

            self._model.fit(
                data=transformed_data,
                estimator=BayesianEstimator,
                prior_type=bayes_prior,
                equivalent_sample_size=equivalent_sample_size,
                state_names=state_names,
            )
        else:
            valid_methods = ["MaximumLikelihoodEstimator", "BayesianEstimator"]
            raise ValueError(
                "unrecognised method, please use on of %s" % " ".join(valid_methods)
            )

        return self
'''
TRANS = '''        transformed_data = data.copy(deep=True)  # type: pd.DataFrame
        transformed_data = self._state_to_index(transformed_data[self.nodes])
'''
S2I = '''        df.is_copy = False
        cols = nodes if nodes else df.columns
        for col in cols:
            df[col] = df[col].map(self._node_states[col])
        df.is_copy = True
        return df
'''
PRED = '''        if all(parent in data.columns for parent in self._model.get_parents(node)):
            return self._predict_from_complete_data(data, node)

        return self._predict_from_incomplete_data(data, node)
'''
LOOK = '''        parents = sorted(self._model.get_parents(node))
        cpd = self.cpds[node]

        transformed_data[
            "{node}_prediction".format(node=node)
        ] = transformed_data.apply(
            lambda row: cpd[tuple([row[parent] for parent in parents])].idxmax()
            if parents
            else cpd[""].idxmax(),
            axis=1,
        )
        return transformed_data[[node + "_prediction"]]
'''
BACK = '''        index_to_state = {i: state for state, i in self._node_states[node].items()}
        predictions = predictions.apply(lambda column: column.map(index_to_state))
'''
LP = '''        def lookup_probability(row, s):
            """Retrieve probability from CPD"""
            if parents:
                return cpd[tuple([row[parent] for parent in parents])].loc[s]
            return cpd.at[s, ""]

        for state in self.node_states[node]:
            transformed_data[
                "{n}_{s}".format(n=node, s=state)
            ] = transformed_data.apply(
                lambda row, st=state: lookup_probability(row, st), axis=1
            )
'''
PIN = '''        states = self._node_states[node]
        probability = probability[
            ["{n}_{i}".format(n=node, i=index) for index in states.values()]
        ]
        probability.columns = ["{n}_{s}".format(n=node, s=state) for state in states]

        return probability
'''
TAB = '''            cpds[cpd.variable] = pd.DataFrame(
                cpd.values.reshape(
                    len(self._node_states[cpd.variable]), max(1, len(cols))
                )
            )
            cpds[cpd.variable][cpd.variable] = sorted(
                self._node_states[cpd.variable].keys()
            )
            cpds[cpd.variable].set_index([cpd.variable], inplace=True)
            cpds[cpd.variable].columns = cols
'''

ref("valid_helper", (COMP, "        self._check_structure(structure)\n"), (CYC, ""),
    ("    @property\n    def structure(self)", '''    @staticmethod
    def _check_structure(structure):
        components = nx.number_weakly_connected_components(structure)
        if components > 1:
            raise ValueError("{} components".format(components))
        if nx.is_directed_acyclic_graph(structure):
            return
        raise ValueError("cycle {}".format(nx.find_cycle(structure)))

    @property
    def structure(self)'''))
ref("valid_order", (COMP, CYC), (CYC + "\n        # _node", COMP + "\n        # _node"))
ref("weakly", (COMP, '''        if not nx.is_weakly_connected(structure):
            raise ValueError("more than one component")
'''))
ref("edges_ctor", ("BayesianModel()\n" + ADD, "BayesianModel(list(structure.edges))\n"))
ref("edges_loop", (ADD, "        for edge in structure.edges:\n            self._model.add_edge(*edge)\n"))
ref("edges_loop2", (ADD, "        for parent, child in structure.edges():\n            self._model.add_edge(parent, child)\n"))
ref("set_any", (SETNULL, '''        for node in nodes:
            for state in nodes[node]:
                if pd.isnull(state):
                    raise ValueError("node '{}' contains None state".format(node))
'''))
ref("set_loop", (SETVAL, '''        node_states = {}
        for name, states in nodes.items():
            node_states[name] = {state: i for i, state in enumerate(sorted(states))}
        self._node_states = node_states
'''))
ref("set_zip", (SETVAL, '''        self._node_states = {
            n: dict(zip(sorted(nodes[n]), range(len(nodes[n])))) for n in nodes
        }
'''))
ref("set_swap", (SETMISS + "\n" + SETNULL, SETNULL + "\n" + SETMISS))
ref("fit_guard", (FIT, '''        estimators = {"MaximumLikelihoodEstimator", "BayesianEstimator"}
        if method not in estimators:
            raise ValueError("unrecognised method")
        if method == "MaximumLikelihoodEstimator":
            self._model.fit(data=transformed_data, estimator=MaximumLikelihoodEstimator, state_names=state_names)
            return self
        if bayes_prior not in ("BDeu", "K2"):
            raise ValueError("unrecognised prior")
        self._model.fit(
            data=transformed_data,
            estimator=BayesianEstimator,
            prior_type=bayes_prior,
            equivalent_sample_size=equivalent_sample_size,
            state_names=state_names,
        )
        return self
'''))
ref("fit_kwargs", (FIT, '''        if method == "MaximumLikelihoodEstimator":
            options = dict(estimator=MaximumLikelihoodEstimator)
        elif method == "BayesianEstimator":
            if bayes_prior not in ["BDeu", "K2"]:
                raise ValueError("prior")
            options = dict(estimator=BayesianEstimator, prior_type=bayes_prior,
                           equivalent_sample_size=equivalent_sample_size)
        else:
            raise ValueError("method")
        self._model.fit(data=transformed_data, state_names=state_names, **options)
        return self
'''))
ref("fit_cols", (TRANS, '''        transformed_data = self._state_to_index(data[self.nodes].copy())
'''))
ref("s2i_plain", (S2I, '''        for col in nodes or df.columns:
            df[col] = df[col].map(self._node_states[col])
        return df
'''))
ref("pred_subset", (PRED, '''        missing = [p for p in self._model.get_parents(node) if p not in data.columns]
        if missing:
            return self._predict_from_incomplete_data(data, node)
        return self._predict_from_complete_data(data, node)
'''))
ref("pred_set", (PRED, '''        if set(self._model.get_parents(node)).issubset(data.columns):
            return self._predict_from_complete_data(data, node)
        return self._predict_from_incomplete_data(data, node)
'''))
ref("look_def", (LOOK, '''        parents = sorted(self._model.get_parents(node))
        cpd = self.cpds[node]
        column = node + "_prediction"

        def most_likely(row):
            if not parents:
                return cpd[""].idxmax()
            key = tuple(row[p] for p in parents)
            return cpd[key].idxmax()

        transformed_data[column] = transformed_data.apply(most_likely, axis=1)
        return transformed_data[[column]]
'''))
ref("look_branch", (LOOK, '''        parents = sorted(self._model.get_parents(node))
        cpd = self.cpds[node]
        name = f"{node}_prediction"
        if parents:
            transformed_data[name] = transformed_data.apply(
                lambda row: cpd[tuple(row[parent] for parent in parents)].idxmax(), axis=1)
        else:
            transformed_data[name] = transformed_data.apply(lambda row: cpd[""].idxmax(), axis=1)
        return transformed_data[[name]]
'''))
ref("back_inline", (BACK, '''        states = self._node_states[node]
        predictions = predictions.apply(lambda column: column.map({states[s]: s for s in states}))
'''))
ref("lp_closure", (LP, '''        def lookup_probability(row, s):
            if not parents:
                return cpd.at[s, ""]
            return cpd[tuple(row[p] for p in parents)].loc[s]

        for state in self.node_states[node]:
            column = f"{node}_{state}"
            transformed_data[column] = transformed_data.apply(lookup_probability, axis=1, args=(state,))
'''))
ref("lp_lambda", (LP, '''        for state in self.node_states[node]:
            transformed_data["{n}_{s}".format(n=node, s=state)] = transformed_data.apply(
                lambda row: cpd[tuple([row[parent] for parent in parents])].loc[state] if parents else cpd.at[state, ""],
                axis=1,
            )
'''))
ref("pin_items", (PIN, '''        index_columns, state_columns = [], []
        for state, index in self._node_states[node].items():
            index_columns.append("{n}_{i}".format(n=node, i=index))
            state_columns.append("{n}_{s}".format(n=node, s=state))
        probability = probability[index_columns]
        probability.columns = state_columns
        return probability
'''))
ref("tab_local", (TAB, '''            table = pd.DataFrame(
                cpd.values.reshape(
                    len(self._node_states[cpd.variable]), max(1, len(cols))
                )
            )
            table[cpd.variable] = sorted(self._node_states[cpd.variable])
            table.set_index([cpd.variable], inplace=True)
            table.columns = cols
            cpds[cpd.variable] = table
'''))
ref("tab_helper", ("sorted(self._node_states[var].keys()) for var in cpd.variables[1:]", "self._sorted_states(var) for var in cpd.variables[1:]"),
    ('''sorted(
                self._node_states[cpd.variable].keys()
            )''', "self._sorted_states(cpd.variable)"),
    ("    def fit_node_states(self,", "    def _sorted_states(self, node):\n        return sorted(self._node_states[node].keys())\n\n    def fit_node_states(self,"))
ref("both_lines", ('''        return self.fit_node_states(data).fit_cpds(
            data, method, bayes_prior, equivalent_sample_size
        )
''', '''        self.fit_node_states(data)
        self.fit_cpds(data, method=method, bayes_prior=bayes_prior, equivalent_sample_size=equivalent_sample_size)
        return self
'''))
ref("getter", ("return {node: set(states.keys()) for node, states in self._node_states.items()}",
               "return {node: set(self._node_states[node]) for node in self._node_states}"))

bug("comp2", "C17", ("n_components > 1:", "n_components > 2:"))
bug("cyc_two", "C17", ("if not nx.is_directed_acyclic_graph(structure):", "if not nx.is_directed_acyclic_graph(structure) and len(structure) > 2:"))
bug("edge_filter", "C17", ("add_edges_from(structure.edges)", "add_edges_from((u, v) for u, v in structure.edges if u != v and u in structure.adj[u])"))
bug("edge_prune", "C17", (ADD, "        self._model.add_edges_from(nx.transitive_reduction(structure).edges)\n"))
bug("struct_mut", "C17", (ADD, ADD + "        structure.remove_nodes_from(list(nx.isolates(structure)))\n"))
bug("nodes_sorted", "C17", ("return list(self._model.nodes)", "return [n for n in self._model.nodes if self._model.get_parents(n)]"))
bug("null_first", "C18", ("any(pd.isnull(list(states)))", "any(pd.isnull(list(states)[:1]))"))
bug("null_nodes", "C18", ("for node, states in nodes.items():\n            if any", "for node, states in nodes.items():\n            if node in self.nodes and any"))
bug("early_set", "C18", (SETMISS, SETVAL + SETMISS))
bug("unsorted", "C18", ("enumerate(sorted(nodes[n]))", "enumerate(nodes[n])"))
bug("start1", "C18", ("enumerate(sorted(nodes[n]))", "enumerate(sorted(nodes[n]), 1)"))
bug("sort_str", "C18", ("enumerate(sorted(nodes[n]))", "enumerate(sorted(nodes[n], key=str))"))
bug("miss_any", "C18", ("        if missing_feature:", "        if len(missing_feature) > 1:"))
bug("fit_drop", "C18", ("set(df[c].unique())", "set(df[c].dropna().unique())"))
bug("fit_head", "C18", ("set(df[c].unique())", "set(df[c][:1000].unique())"))
bug("fit_keep", "C18", ("self.node_states = {c: set(df[c].unique()) for c in df.columns}", "self._node_states = {c: {v: k for k, v in enumerate(sorted(df[c].unique()))} for c in df.columns}"))
bug("prior_case", "C19", ('valid_bayes_priors = ["BDeu", "K2"]', 'valid_bayes_priors = ["BDeu", "K2", None]'))
bug("swap_prior", "C19", ("prior_type=bayes_prior", 'prior_type="BDeu" if equivalent_sample_size else bayes_prior'))
bug("ess", "C19", ("equivalent_sample_size=equivalent_sample_size,\n                state", "equivalent_sample_size=equivalent_sample_size or 5,\n                state"))
bug("names", "C19", ("state_names = {k: list(v.values()) for k, v in self._node_states.items()}", "state_names = {k: sorted(set(data[k].map(v))) for k, v in self._node_states.items()}"))
bug("no_names", "C19", ("estimator=MaximumLikelihoodEstimator,\n                state_names=state_names,", "estimator=MaximumLikelihoodEstimator,"))
bug("mut", "C19", (TRANS, "        transformed_data = self._state_to_index(data)[self.nodes]\n"))
bug("cols", "C19", ("transformed_data[self.nodes])", "transformed_data.dropna()[self.nodes])"))
bug("order", "C19", ("        if method ==", "        self._model.fit(data=transformed_data, estimator=MaximumLikelihoodEstimator, state_names=state_names)\n        if method =="))
bug("both", "C19", ("            data, method, bayes_prior, equivalent_sample_size\n", "            data, method, bayes_prior\n"))
bug("disp_any", "C20", ("        if all(parent in data.columns for parent in self._model.get_parents(node)):\n            return self._predict_from", "        if any(parent in data.columns for parent in self._model.get_parents(node)):\n            return self._predict_from"))
bug("unsorted_par", "C20", ("parents = sorted(self._model.get_parents(node))\n        cpd = self.cpds[node]\n\n        transformed", "parents = self._model.get_parents(node)\n        cpd = self.cpds[node]\n\n        transformed"))
bug("idxmin", "C20", ("in parents])].idxmax()", "in parents])].idxmin()"))
bug("noback", "C20", (BACK, ""))
bug("back_other", "C20", ("index_to_state = {i: state for state, i in self._node_states[node].items()}", "index_to_state = dict(enumerate(self.node_states[node]))"))
bug("shallow", "C20", ("        transformed_data = deepcopy(data)  # type: pd.DataFrame\n", "        transformed_data = data\n"))
bug("nodrop", "C20", ("        # pgmpy will predict all missing data, so drop column we want to predict\n        transformed_data = transformed_data.drop(columns=[node])\n\n        predictions", "        predictions"))
bug("p_lookup", "C21", ("in parents])].loc[s]", "in parents])].iloc[s]"))
bug("p_unsorted", "C21", ("parents = sorted(self._model.get_parents(node))\n        cpd = self.cpds[node]\n\n        def", "parents = sorted(self._model.get_parents(node), reverse=True)\n        cpd = self.cpds[node]\n\n        def"))
bug("p_cols", "C21", ("for state in states]\n\n        return probability", "for state in self.node_states[node]]\n\n        return probability"))
bug("p_skip", "C21", ("for index in states.values()", "for index in range(1, len(states))"))
bug("t_labels", "C22", ("sorted(\n                self._node_states[cpd.variable].keys()\n            )", "list(self.node_states[cpd.variable])"))
bug("t_cols", "C22", ("names=cpd.variables[1:])", "names=sorted(cpd.variables[1:]))"))
bug("t_parents", "C22", ("for var in cpd.variables[1:]", "for var in sorted(cpd.variables[1:])"))
bug("t_shape", "C22", ("                cpd.values.reshape(\n                    len(self._node_states[cpd.variable]), max(1, len(cols))\n                )", "                cpd.values.reshape(\n                    max(1, len(cols)), len(self._node_states[cpd.variable])\n                ).T"))
