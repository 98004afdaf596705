"""Edits of inference/inference.py."""
EDITS = []
FILE = "inference/inference.py"


def ref(name, *subs, file=FILE):
    EDITS.append(("r_inf_" + name, "ref", file, list(subs)))


def bug(name, ids, *subs, file=FILE):
    EDITS.append(("b_inf_" + name, ids, file, list(subs)))


DO = '''        if sum(state.values()) != 1.0:
            raise ValueError("The cpd for the provided observation must sum to 1")

        if max(state.values()) > 1.0 or min(state.values()) < 0:
            raise ValueError(
                "The cpd for the provided observation must be between 0 and 1"
            )

        if not set(state.keys()) == set(self._cpds_original[observation]):
            raise ValueError(
                "The cpd states do not match expected states: expected {expected}, found {found}".format(
                    expected=set(self._cpds_original[observation]),
                    found=set(state.keys()),
                )
            )

        self._cpds[observation] = {s: {(): p} for s, p in state.items()}
'''
ISO = '''        if not any(
            [
                node in inspect.getargs(f.__code__)[0][1:]
                for _, f in self._node_functions.items()
            ]
        ):
            raise ValueError(
                "Do calculus cannot be applied because it would result in an isolate"
            )
'''
HARD = '''        if not isinstance(state, dict):
            state = {s: float(s == state) for s in self._cpds[node]}
'''
TAIL = '''        self._do(node, state)
        self._generate_bbn()

    def reset_do'''
QUERY = '''        bbn_results = (
            self._bbn.query(**observations) if observations else self._bbn.query()
        )

        results = {node: dict() for node in self._cpds}
        for (node, state), prob in bbn_results.items():
            results[node][state] = prob

        return results
'''
RESET = '''        self._cpds[observation] = self._cpds_original[observation]
'''
NF = '''            states_conditions = list(states.values())[0]
'''
NF2 = '''            # take any state, and get its conditions
            state_conditions = list(states_conditions.items())[0]
            condition_nodes = [n for n, v in state_conditions[0]]

            node_args = tuple([node] + condition_nodes)  # type: Tuple[str]
            function_name = "f_{node}".format(node=node)
            node_function = self._create_node_function(function_name, node_args)
            node_functions[node] = node_function
'''
TAB = '''        lookup = {
            variable: {
                state: {
                    tuple(zip(cpd.columns.names, parent_value)): cpd.loc[state][
                        parent_value
                    ]
                    for parent_value in pd.MultiIndex.from_frame(cpd).names
                }
                for state in cpd.index.values
            }
            for variable, cpd in bn.cpds.items()
        }
'''
LOOK = '''            return self._cpds[arg_spec.args[0]][  # target name
                arg_spec.locals[arg_spec.args[0]]
            ][  # target state
                tuple([(arg, arg_spec.locals[arg]) for arg in arg_spec.args[1:]])
            ]  # conditions
'''

ref("do_split", (DO, '''        self._check_distribution(observation, state)
        table = {}
        for s, p in state.items():
            table[s] = {(): p}
        self._cpds[observation] = table

    def _check_distribution(self, observation, state):
        probs = list(state.values())
        if not sum(probs) == 1.0:
            raise ValueError("The cpd for the provided observation must sum to 1")
        for p in probs:
            if p < 0 or p > 1.0:
                raise ValueError("between 0 and 1")
        expected = set(self._cpds_original[observation])
        found = set(state)
        if found != expected:
            raise ValueError("The cpd states do not match {} {}".format(expected, found))
'''))
ref("do_inline", (TAIL, '''        self._do(node, state)
        self._node_functions = self._create_node_functions()
        fns = list(self._node_functions.values())
        self._bbn = build_bbn(fns, domains=self._domains)

    def reset_do'''))
ref("do_order", (DO, '''        expected = set(self._cpds_original[observation])
        if set(state.keys()) != expected:
            raise ValueError("The cpd states do not match expected states")

        if max(state.values()) > 1.0 or min(state.values()) < 0:
            raise ValueError(
                "The cpd for the provided observation must be between 0 and 1"
            )

        if sum(state.values()) != 1.0:
            raise ValueError("The cpd for the provided observation must sum to 1")

        self._cpds[observation] = {s: {(): p} for s, p in state.items()}
'''))
ref("do_msg", ("must sum to 1", "has to sum to one"))
ref("iso_loop", (ISO, '''        has_child = False
        for f in self._node_functions.values():
            if node in inspect.getargs(f.__code__)[0][1:]:
                has_child = True
                break
        if not has_child:
            raise ValueError(
                "Do calculus cannot be applied because it would result in an isolate"
            )
'''))
ref("iso_helper", (ISO, '''        if self._is_leaf(node):
            raise ValueError("isolate")
'''), ("    def reset_do", '''    def _is_leaf(self, node):
        return all(
            node not in inspect.getargs(f.__code__).args[1:]
            for f in self._node_functions.values()
        )

    def reset_do'''))
ref("hard_ite", (HARD, '''        if not isinstance(state, dict):
            state = {s: 1.0 if s == state else 0.0 for s in self._cpds[node]}
'''))
ref("hard_dist", (HARD, '''        distribution = state
        if not isinstance(state, dict):
            distribution = {s: float(s == state) for s in self._cpds[node].keys()}
'''), (TAIL, TAIL.replace("self._do(node, state)", "self._do(node, distribution)")))
ref("hard_loop", (HARD, '''        if not isinstance(state, dict):
            chosen, state = state, {}
            for s in self._cpds[node]:
                state[s] = float(s == chosen)
'''))
ref("query_kwargs", (QUERY, '''        evidence = observations or {}
        bbn_results = self._bbn.query(**evidence)
        results = {node: {} for node in self._cpds}
        for key, prob in bbn_results.items():
            node, state = key
            results[node][state] = prob
        return results
'''))
ref("query_if", (QUERY, '''        if observations:
            bbn_results = self._bbn.query(**observations)
        else:
            bbn_results = self._bbn.query()

        results = {}
        for node in self._cpds:
            results[node] = {}
        for key in bbn_results:
            results[key[0]][key[1]] = bbn_results[key]

        return results
'''))
ref("query_comp", (QUERY, '''        bbn_results = self._bbn.query(**(observations or {}))
        return {
            node: {s: p for (n, s), p in bbn_results.items() if n == node}
            for node in self._cpds
        }
'''))
ref("query_setdefault", (QUERY, '''        bbn_results = (
            self._bbn.query(**observations) if observations else self._bbn.query()
        )
        results = {node: dict() for node in self._cpds}
        for (node, state), prob in bbn_results.items():
            results.setdefault(node, {})[state] = prob
        return results
'''))
ref("query_helper", (QUERY, '''        bbn_results = (
            self._bbn.query(**observations) if observations else self._bbn.query()
        )
        return self._group(bbn_results)

    def _group(self, answers):
        grouped = {node: dict() for node in self._cpds}
        for (node, state), prob in answers.items():
            grouped[node][state] = prob
        return grouped
'''))
ref("query_inner", (QUERY, '''        bbn_results = (
            self._bbn.query(**observations) if observations else self._bbn.query()
        )
        results = {node: dict() for node in self._cpds}
        for (node, state), prob in bbn_results.items():
            of_node = results[node]
            of_node[state] = prob
        return results
'''))
ref("reset_copy", (RESET, '''        self._cpds[observation] = copy.deepcopy(self._cpds_original[observation])
'''))
ref("reset_local", (RESET, '''        original = self._cpds_original[observation]
        self._cpds[observation] = original
'''))
ref("nf_next", (NF, '''            states_conditions = next(iter(states.values()))
'''), (NF2, NF2.replace("list(states_conditions.items())[0]", "next(iter(states_conditions.items()))")))
ref("nf_keys", (NF2, '''            conditions = list(states_conditions)[0]
            node_args = (node,) + tuple(n for n, _ in conditions)
            node_functions[node] = self._create_node_function(
                "f_{node}".format(node=node), node_args
            )
'''))
ref("nf_comp", ('''        node_functions = dict()

        for node, states in self._cpds.items():
''', '''        node_functions = {}

        for node in self._cpds:
            states = self._cpds[node]
'''))
ref("tab_cols", (TAB, TAB.replace("pd.MultiIndex.from_frame(cpd).names", "cpd.columns")))
ref("tab_loop", (TAB, '''        lookup = {}
        for variable, cpd in bn.cpds.items():
            lookup[variable] = {}
            for state in cpd.index.values:
                row = {}
                for parent_value in pd.MultiIndex.from_frame(cpd).names:
                    key = tuple(zip(cpd.columns.names, parent_value))
                    row[key] = cpd.loc[state][parent_value]
                lookup[variable][state] = row
'''))
ref("tab_helper", (TAB, '''        lookup = {
            variable: self._table(cpd) for variable, cpd in bn.cpds.items()
        }
'''), ("    def _create_node_function(self", '''    @staticmethod
    def _table(cpd):
        return {
            state: {
                tuple(zip(cpd.columns.names, value)): cpd.loc[state][value]
                for value in pd.MultiIndex.from_frame(cpd).names
            }
            for state in cpd.index.values
        }

    def _create_node_function(self'''))
ref("orig_shallow", ("copy.deepcopy(self._cpds)", "dict(self._cpds)"))
ref("dom_tolist", ("list(cpd.index.values)", "cpd.index.tolist()"))
ref("look_gen", (LOOK, '''            args, values = arg_spec.args, arg_spec.locals
            target = args[0]
            conditions = tuple((arg, values[arg]) for arg in args[1:])
            return self._cpds[target][values[target]][conditions]
'''))
ref("init_order", ('''        self._cpds = None

        self._create_cpds_dict_bn(bn)
        self._generate_domains_bn(bn)
''', '''        self._generate_domains_bn(bn)
        self._create_cpds_dict_bn(bn)
'''))
ref("init_loop", ('''        bad_nodes = [node for node in bn.nodes if not re.match("^[0-9a-zA-Z_]+$", node)]
''', '''        bad_nodes = []
        for node in bn.nodes:
            if re.match("^[0-9a-zA-Z_]+$", node) is None:
                bad_nodes.append(node)
'''))
ref("build_map", ('''        self._bbn = build_bbn(
            list(self._node_functions.values()), domains=self._domains
        )
''', '''        functions = [f for f in self._node_functions.values()]
        self._bbn = build_bbn(functions, domains=self._domains)
'''))

bug("do_sumgt", "C13", ("if sum(state.values()) != 1.0:", "if sum(state.values()) > 1.0:"))
bug("do_norange", "C13", ("if max(state.values()) > 1.0 or min(state.values()) < 0:", "if max(state.values()) > 1.0 and min(state.values()) < 0:"))
bug("do_subset", "C13", ("if not set(state.keys()) == set(self._cpds_original[observation]):", "if not set(state.keys()) <= set(self._cpds_original[observation]):"))
bug("do_superset", "C13", ("if not set(state.keys()) == set(self._cpds_original[observation]):", "if set(self._cpds_original[observation]) - set(state.keys()):"))
bug("do_len", "C13", ("if not set(state.keys()) == set(self._cpds_original[observation]):", "if len(state) != len(self._cpds_original[observation]):"))
bug("do_early", "C13", (DO, "        self._cpds[observation] = {s: {(): p} for s, p in state.items()}\n\n" + DO.replace("        self._cpds[observation] = {s: {(): p} for s, p in state.items()}\n", "")))
bug("do_norebuild", "C13", (TAIL, '''        rebuild = self._cpds.get(node)
        self._do(node, state)
        if rebuild != self._cpds_original[node]:
            self._generate_bbn()

    def reset_do'''))
bug("do_rebuildfirst", "C13", (TAIL, '''        self._generate_bbn()
        self._do(node, state)

    def reset_do'''))
bug("do_inplace", "C13,C14", ("        self._cpds[observation] = {s: {(): p} for s, p in state.items()}\n", '''        for s, p in state.items():
            table = self._cpds[observation][s]
            for k in table:
                table[k] = p
'''))
bug("do_falsy", "C13", ("{s: {(): p} for s, p in state.items()}", "{s: {(): p} for s, p in state.items() if p}"))
bug("hard_is", "C13", ("float(s == state)", "float(s is state)"))
bug("hard_str", "C13", ("float(s == state)", "float(str(s) == str(state))"))
bug("hard_truth", "C13", ("if not isinstance(state, dict):", "if state is not None and not isinstance(state, dict):"))
bug("iso_all", "C13", ("in inspect.getargs(f.__code__)[0][1:]", "in inspect.getargs(f.__code__)[0]"))
bug("iso_gone", "C13", (ISO, ""))
bug("iso_late", "C13", (ISO, ""), ("        self._do(node, state)\n        self._generate_bbn()\n", "        self._do(node, state)\n        self._generate_bbn()\n" + ISO))
bug("reset_cond", "C14", (RESET, '''        if len(self._cpds[observation]) == len(self._cpds_original[observation]):
            self._cpds[observation] = self._cpds_original[observation]
'''))
bug("reset_norebuild", "C14", (RESET + "        self._generate_bbn()\n", RESET))
bug("reset_update", "C14", (RESET, "        self._cpds[observation].update(self._cpds_original[observation])\n"))
bug("reset_all", "C14", (RESET, "        self._cpds = dict(self._cpds_original)\n"))
bug("orig_alias", "C14", ("copy.deepcopy(self._cpds)", "self._cpds"))
bug("orig_lost", "C13,C14", ("        self._cpds[observation] = {s: {(): p} for s, p in state.items()}\n", "        self._cpds[observation] = {s: {(): p} for s, p in state.items()}\n        self._cpds_original[observation] = self._cpds[observation]\n"))
bug("query_popobs", "C14", (QUERY, "        if observations:\n            observations.pop(None, None)\n" + QUERY))
bug("query_first", "C15", ("self._bbn.query(**observations) if observations else", "self._bbn.query(**{k: v for k, v in observations.items() if v}) if observations else"))
bug("query_single", "C15", ("if observations else self._bbn.query()", "if observations and len(observations) > 1 else self._bbn.query()"))
bug("query_swap", "C15", ("            results[node][state] = prob\n", "            results[node][prob] = state\n"))
bug("query_dropzero", "C15", ("            results[node][state] = prob\n", "            if prob > 0:\n                results[node][state] = prob\n"))
bug("query_skipobs", "C15", ("            results[node][state] = prob\n", "            if not observations or node not in observations:\n                results[node][state] = prob\n"))
bug("query_shared", "C15", ("results = {node: dict() for node in self._cpds}", "results = dict.fromkeys(self._cpds, {})"))
bug("init_names", "C15", ('"^[0-9a-zA-Z_]+$", node', '"^[0-9a-zA-Z_]", node'))
bug("init_cpds", "C15", ("        if not bn.cpds:\n", "        if bn.cpds is None:\n"))
bug("tab_zip", "C16", ("tuple(zip(cpd.columns.names, parent_value))", "tuple(zip(sorted(cpd.columns.names), parent_value))"))
bug("tab_state", "C16", ("for state in cpd.index.values", "for state in cpd.index.values[::-1]") , ("cpd.loc[state][\n", "cpd.loc[cpd.index[0]][\n"))
bug("tab_skip0", "C16", ("                for state in cpd.index.values\n", "                for state in cpd.index.values\n                if state is not None\n"))
bug("dom_short", "C16", ("list(cpd.index.values)", "list(cpd.index.values)[:-1]"))
bug("nf_sorted", "C16", ("tuple([node] + condition_nodes)", "tuple([node] + sorted(condition_nodes))"))
bug("nf_rev", "C16", ("tuple([node] + condition_nodes)", "tuple(condition_nodes + [node])"))
bug("nf_var", "C16", ("[n for n, v in state_conditions[0]]", "[v for n, v in state_conditions[0]]"))
bug("look_orig", "C16,C13", ("            return self._cpds[arg_spec.args[0]][", "            return self._cpds_original[arg_spec.args[0]]["))
bug("look_all", "C16", ("for arg in arg_spec.args[1:]])", "for arg in sorted(arg_spec.args[1:])])"))
