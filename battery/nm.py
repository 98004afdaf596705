"""Edits for C32: references to things that do not exist (and harmless ones)."""
EDITS = []


def ref(n, file, *subs):
    EDITS.append(("r_nm_" + n, "ref", file, list(subs)))


def bug(n, file, *subs):
    EDITS.append(("b_nm_" + n, "C32", file, list(subs)))


I, N, M = "inference/inference.py", "network/network.py", "structure/categorical_variable_mapper.py"
bug("fmt_kw", I, ("                    found=set(state.keys()),\n", ""))
bug("name", I, ("            function_name = \"f_{node}\".format(node=node)\n", ""))
bug("raise_str", "structure/notears.py", ("raise ValueError(\"Input data X is empty, cannot learn any structure\")",
                                           "raise \"Input data X is empty, cannot learn any structure\""))
bug("self_attr", N, ("in self._node_states.items()}", "in self._nodestates.items()}"))
bug("import", "evaluation/evaluation.py", ("from causalnex.network import BayesianNetwork", "from causalnex.network import BayesNetwork as BayesianNetwork"))
bug("noreturn", "ebaybbn/bbn.py", ("        return neighbours\n", "        neighbours\n"))
bug("unbound", "plots/plots.py", ("    _sm = deepcopy(sm)\n", "    pass\n"))
bug("missing_arg", I, ("self._create_node_function(function_name, node_args)", "self._create_node_function(node_args)"))
ref("late", N, ("    def fit_cpds(", "    _late = None\n\n    def fit_cpds("))
ref("try", "structure/notears.py", ("    # n examples, d properties\n", "    try:\n        kind = X.dtype\n    except AttributeError:\n        kind = None\n    del kind\n"))
ref("loopvar", "ebaybbn/bbn.py", ("        samples = []\n", "        samples = []\n        for seed in (1,):\n            pass\n        del seed\n"))
ref("walrus", "structure/notears.py", ("    # n examples, d properties\n", "    if (size := X.size) == 0:\n        raise ValueError(\"Input data X is empty, cannot learn any structure\")\n    del size\n"))
ref("nested", I, ("        node_functions = dict()\n", "        node_functions = dict()\n\n        def later():\n            return node_args\n\n        del later\n"))
