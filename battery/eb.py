F = "ebaybbn/bbn.py"
EDITS = []


def ref(n, *subs, file=F):
    EDITS.append(("r_eb_" + n, "ref", file, list(subs)))


def bug(n, kind, *subs, file=F):
    EDITS.append(("b_eb_" + n, kind, file, list(subs)))


INIT_ROWS = """            vals = []
            variables = list(clique.variable_names)
            variables.sort()
            for variable in variables:
                domain = bbn.domains.get(variable, [True, False])
                vals.append(list(product([variable], domain)))
            permutations = product(*vals)
"""
# ---------------------------------------------------------------- refactors
ref("rows_helper", (INIT_ROWS, "            permutations = _rows(sorted(clique.variable_names), bbn)\n"),
    ("class JoinTree(UndirectedGraph):", """def _rows(variables, bbn):
    return product(*[[(v, d) for d in bbn.domains.get(v, [True, False])] for v in variables])


class JoinTree(UndirectedGraph):"""))
ref("rows_comp", (INIT_ROWS, """            permutations = product(
                *[
                    list(product([variable], bbn.domains.get(variable, [True, False])))
                    for variable in sorted(clique.variable_names)
                ]
            )
"""))
ref("args_comp", ("""                    arg_list = []
                    for arg_name in get_args(bbn_node.func):
                        arg_list.append(argvals[arg_name])

                    potential *= bbn_node.func(*arg_list)
""", """                    potential = potential * bbn_node.func(
                        *(argvals[a] for a in get_args(bbn_node.func))
                    )
"""))
ref("pot_helper", ("""                argvals = dict(permutation)
                potential = 1
                for bbn_node in bbn_nodes:
                    bbn_node.clique = clique
                    # We could handle evidence here
                    # by altering the potential_tt.
                    # This is slightly different to
                    # the way that H&D do it.

                    arg_list = []
                    for arg_name in get_args(bbn_node.func):
                        arg_list.append(argvals[arg_name])

                    potential *= bbn_node.func(*arg_list)
                tt[permutation] = potential
""", """                tt[permutation] = self._potential(clique, bbn_nodes, permutation)
"""), ("    def initial_likelihoods(self", """    @staticmethod
    def _potential(clique, bbn_nodes, row):
        values = dict(row)
        result = 1
        for node in bbn_nodes:
            node.clique = clique
            result *= node.func(*[values[name] for name in get_args(node.func)])
        return result

    def initial_likelihoods(self"""))
ref("ev_early", ("        if not evidence:\n            # We dont need to deal with likelihoods\n            # if we dont have any evidence.\n            return\n", "        if len(evidence) == 0:\n            return\n"))
ref("ev_loop", ("""                    for k, v in list(clique.potential_tt.items()):
                        # Encode the evidence in
                        # the clique potential...
                        for variable, value in k:
                            if variable == node.variable_name:
                                if value != evidence[variable]:
                                    clique.potential_tt[k] = 0
""", """                    name = node.variable_name
                    table = clique.potential_tt
                    for k in list(table):
                        if any(var == name and val != evidence[name] for var, val in k):
                            table[k] = 0
"""))
ref("ev_continue", ("""                if node.variable_name in evidence:
                    for k, v in list(clique.potential_tt.items()):
                        # Encode the evidence in
                        # the clique potential...
                        for variable, value in k:
                            if variable == node.variable_name:
                                if value != evidence[variable]:
                                    clique.potential_tt[k] = 0
""", """                if node.variable_name not in evidence:
                    continue
                observed = evidence[node.variable_name]
                for k in list(clique.potential_tt.keys()):
                    for variable, value in k:
                        if variable == node.variable_name and value != observed:
                            clique.potential_tt[k] = 0
"""))
ref("assign_break", ("""            for clique in containing_cliques:
                if node in assigned:
                    # Make sure we assign all original
                    # PMFs only once each
                    break
                assignments_by_clique[clique].append(node)
                assigned.add(node)
""", """            assignments_by_clique[containing_cliques[0]].append(node)
"""))
ref("assign_break2", ("""                if node in assigned:
                    # Make sure we assign all original
                    # PMFs only once each
                    break
                assignments_by_clique[clique].append(node)
                assigned.add(node)
""", """                if node not in assigned:
                    assignments_by_clique[clique].append(node)
                    assigned.add(node)
"""))
ref("assign_next", ("""            containing_cliques = [
                clique_node
                for clique_node in self.clique_nodes
                if (set(clique_node.variable_names).issuperset(family))
            ]
            assert len(containing_cliques) >= 1
            for clique in containing_cliques:
                if node in assigned:
                    # Make sure we assign all original
                    # PMFs only once each
                    break
                assignments_by_clique[clique].append(node)
                assigned.add(node)
            assignments_by_family[tuple(family)] = containing_cliques
""", """            for candidate in self.clique_nodes:
                if family <= set(candidate.variable_names):
                    assignments_by_clique[candidate].append(node)
                    break
            else:
                raise AssertionError("no clique contains the family")
"""))
ref("keyvals_inline", ("        self.validate_keyvals(**kwds)\n", """        names = {n.variable_name for n in self.nodes}
        for name in kwds:
            if name not in names:
                raise VariableNotInGraphError(name)
            if kwds[name] not in self.domains.get(name, (True, False)):
                raise VariableValueNotInDomainError("{}={}".format(name, kwds[name]))
"""))
ref("keyvals_split", ("""        vars = set([n.variable_name for n in self.nodes])
        for k, v in list(kwds.items()):
            if k not in vars:
                raise VariableNotInGraphError(k)
            domain = self.domains.get(k, (True, False))
            if v not in domain:
                s = "{}={}".format(k, v)
                raise VariableValueNotInDomainError(s)
        return True
""", """        known = {node.variable_name for node in self.nodes}
        for key, value in kwds.items():
            self._check_one(key, value, known)
        return True

    def _check_one(self, key, value, known):
        if key not in known:
            raise VariableNotInGraphError(key)
        if value in self.domains.get(key, (True, False)):
            return
        raise VariableValueNotInDomainError("{}={}".format(key, value))
"""))
ref("query_norm_comp", ("""        if kwds:
            for k, v in marginals.items():
                if normalizers[k[0]] != 0:
                    marginals[k] /= normalizers[k[0]]

        return marginals
""", """        if not kwds:
            return marginals
        return {
            k: v / normalizers[k[0]] if normalizers[k[0]] != 0 else v
            for k, v in marginals.items()
        }
"""))
ref("query_norm_always_total", ("                if kwds:\n                    normalizers[k[0][0]] += v\n", "                normalizers[k[0][0]] += v\n"))
ref("query_norm_helper", ("""        if kwds:
            for k, v in marginals.items():
                if normalizers[k[0]] != 0:
                    marginals[k] /= normalizers[k[0]]

        return marginals
""", """        if kwds:
            self._normalise(marginals, normalizers)
        return marginals

    @staticmethod
    def _normalise(marginals, totals):
        for key in marginals:
            total = totals[key[0]]
            if total == 0:
                continue
            marginals[key] = marginals[key] / total
"""))
ref("query_totals_after", ("                if kwds:\n                    normalizers[k[0][0]] += v\n\n        if kwds:\n", "\n        if kwds:\n            for key, mass in marginals.items():\n                normalizers[key[0]] += mass\n"))
ref("sample_for", ("        while len(samples) < n:\n            sample = dict(query)\n", "        for _ in range(n):\n            sample = query.copy()\n"))
ref("sample_key_frozen", ("                key = tuple(sorted(sample.items()))\n                if key not in result_cache:\n                    result_cache[key] = self.query(**sample)\n                result = result_cache[key]\n",
                          "                state = frozenset(sample.items())\n                if state not in result_cache:\n                    result_cache[state] = self.query(**sample)\n                result = result_cache[state]\n"))
ref("sample_nocache", ("                key = tuple(sorted(sample.items()))\n                if key not in result_cache:\n                    result_cache[key] = self.query(**sample)\n                result = result_cache[key]\n",
                       "                result = self.query(**sample)\n"))
ref("sample_helper", ("""                r = random()
                i = 0
                while i < len(cumulative_density) - 1 and r > cumulative_density[i][1]:
                    i += 1
                sample[next_node.variable_name] = cumulative_density[i][0][1]
""", """                sample[next_node.variable_name] = self._pick(cumulative_density)
"""), ("    def build_join_tree(self):\n", """    @staticmethod
    def _pick(cumulative):
        r = random()
        position = 0
        last = len(cumulative) - 1
        while position < last and cumulative[position][1] < r:
            position += 1
        return cumulative[position][0][1]

    def build_join_tree(self):
"""))
ref("sample_density", ("""                var_density = [
                    r
                    for r in list(result.items())
                    if r[0][0] == next_node.variable_name
                ]
""", """                wanted = next_node.variable_name
                var_density = [
                    (state, mass) for state, mass in result.items() if state[0] == wanted
                ]
"""))
ref("project_comp", ("""        tt = defaultdict(float)
        for k, v in self.potential_tt.items():
            entry = transform(k, self.variable_names, sepset_node.variable_names)
            tt[entry] += v
        sepset_node.potential_tt = tt
""", """        sepset_node.potential_tt = self._marginalise(sepset_node.variable_names)

    def _marginalise(self, onto):
        own = self.variable_names
        result = dict()
        for key in self.potential_tt:
            entry = transform(key, own, onto)
            result[entry] = result.get(entry, 0.0) + self.potential_tt[key]
        return result
"""))
ref("absorb_flip", ("""            if target.potential_tt[k] == 0:
                tt[k] = 0
            else:
                tt[k] = target.potential_tt[k] * (
                    sepset.potential_tt[entry] / sepset.potential_tt_old[entry]
                )
""", """            if v != 0:
                ratio = sepset.potential_tt[entry] / sepset.potential_tt_old[entry]
                tt[k] = v * ratio
            else:
                tt[k] = 0
"""))
ref("absorb_comp", ("""            entry = transform(k, target.variable_names, sepset.variable_names)
            if target.potential_tt[k] == 0:
                tt[k] = 0
            else:
                tt[k] = target.potential_tt[k] * (
                    sepset.potential_tt[entry] / sepset.potential_tt_old[entry]
                )
""", """            if v == 0:
                tt[k] = 0
                continue
            entry = transform(k, target.variable_names, sepset.variable_names)
            tt[k] = v * sepset.potential_tt[entry] / sepset.potential_tt_old[entry]
"""))
ref("transform_comp", ("""    entry = []
    for r in R:
        pos = X.index(r)
        entry.append(x[pos])
    return tuple(entry)
""", """    return tuple(x[X.index(r)] for r in R)
"""))
ref("transform_dict", ("""    entry = []
    for r in R:
        pos = X.index(r)
        entry.append(x[pos])
    return tuple(entry)
""", """    lookup = dict(zip(X, x))
    return tuple([lookup[name] for name in R])
"""))
ref("marginal_first", ("""        containing_nodes = []

        for node in self.clique_nodes:
            if bbn_node.name in [n.name for n in node.clique.nodes]:
                containing_nodes.append(node)
""", """        containing_nodes = [
            node
            for node in self.clique_nodes
            if any(n.name == bbn_node.name for n in node.clique.nodes)
        ]
"""))
ref("marginal_next", ("""        containing_nodes = []

        for node in self.clique_nodes:
            if bbn_node.name in [n.name for n in node.clique.nodes]:
                containing_nodes.append(node)
                # In theory it doesnt matter which one we
                # use so we could bale out after we
                # find the first one
                # TODO: With some better indexing we could
                # avoid searching for this node every time...
        clique_node = containing_nodes[0]
""", """        clique_node = next(
            node
            for node in self.clique_nodes
            if bbn_node.name in [n.name for n in node.clique.nodes]
        )
"""))
ref("propagate_helper", ("""        for node in self.clique_nodes:
            node.marked = False
            logging.debug("Marking node as not visited Node: %s", node.name)
        self.collect_evidence""", """        self._unmark()
        self.collect_evidence"""), ("""        for node in self.clique_nodes:
            node.marked = False

        self.distribute_evidence(starting_clique)
""", """        self._unmark()
        self.distribute_evidence(sender=starting_clique)

    def _unmark(self):
        for clique in self.clique_nodes:
            clique.marked = False
"""))
ref("collect_continue", ("""            if not neighbouring_clique.marked:
                logging.debug(
                    "Collect evidence from %s to %s",
                    neighbouring_clique.name,
                    sender.name,
                )
                self.collect_evidence(sender=neighbouring_clique, receiver=sender)
        # Step 3, pass message from sender to receiver
        if receiver is not None:
            sender.pass_message(receiver)
""", """            if neighbouring_clique.marked:
                continue
            self.collect_evidence(neighbouring_clique, sender)
        if receiver is None:
            return
        sender.pass_message(receiver)
"""))
ref("distribute_merge", ("""                sender.pass_message(neighbouring_clique)

        # Step 3, call distribute_evidence on Xs unmarked neighbours
        for neighbouring_clique in sender.neighbouring_cliques:
            if not neighbouring_clique.marked:
                logging.debug(
                    "Distribute evidence from: %s to %s",
                    neighbouring_clique.name,
                    sender.name,
                )
                self.distribute_evidence(sender=neighbouring_clique, receiver=sender)
""", """                sender.pass_message(neighbouring_clique)
        unvisited = [c for c in sender.neighbouring_cliques if not c.marked]
        for clique in unvisited:
            self.distribute_evidence(sender=clique, receiver=sender)
"""))
ref("neigh_comp", ("""        neighbours = set()
        for sepset_node in self.neighbours:
            # All *immediate* neighbours will
            # be sepset nodes, its the neighbours of
            # these sepsets that form the nodes
            # clique neighbours (excluding itself)
            for clique_node in sepset_node.neighbours:
                if clique_node is not self:
                    neighbours.add(clique_node)
        return neighbours
""", """        return {
            clique for sepset in self.neighbours for clique in sepset.neighbours if clique is not self
        }
"""))
ref("passmsg", ("        sepset_node = list(set(self.neighbours).intersection(target.neighbours))[0]\n", "        sepset_node = next(n for n in self.neighbours if n in target.neighbours)\n"))
ref("moral_helper", ("""            if gm_nodes[parent_1.name] not in gm_nodes[parent_2.name].neighbours:
                gm_nodes[parent_2.name].neighbours.append(gm_nodes[parent_1.name])
            if gm_nodes[parent_2.name] not in gm_nodes[parent_1.name].neighbours:
                gm_nodes[parent_1.name].neighbours.append(gm_nodes[parent_2.name])
""", """            _link(gm_nodes[parent_1.name], gm_nodes[parent_2.name])
"""), ("def make_moralized_copy(", """def _link(a, b):
    if a not in b.neighbours:
        b.neighbours.append(a)
    if b not in a.neighbours:
        a.neighbours.append(b)


def make_moralized_copy("""))
ref("moral_locals", ("""            if gm_nodes[parent_1.name] not in gm_nodes[parent_2.name].neighbours:
                gm_nodes[parent_2.name].neighbours.append(gm_nodes[parent_1.name])
            if gm_nodes[parent_2.name] not in gm_nodes[parent_1.name].neighbours:
                gm_nodes[parent_1.name].neighbours.append(gm_nodes[parent_2.name])
""", """            first = gm_nodes[parent_1.name]
            second = gm_nodes[parent_2.name]
            if first not in second.neighbours:
                second.neighbours.append(first)
                first.neighbours.append(second)
"""))
ref("undirected_comp", ("    gm_nodes = dict([(node.name, node) for node in gm.nodes])\n    for node in dag.nodes:\n        for parent_1", "    gm_nodes = {node.name: node for node in gm.nodes}\n    for node in dag.nodes:\n        for parent_1"),
    ("    for node in dag.nodes:\n        for parent in node.parents:\n            nodes[node.name].neighbours.append(nodes[parent.name])\n            nodes[parent.name].neighbours.append(nodes[node.name])\n",
     "    for child in dag.nodes:\n        copied = nodes[child.name]\n        for parent in child.parents:\n            other = nodes[parent.name]\n            other.neighbours.append(copied)\n            copied.neighbours.append(other)\n"))
ref("tri_while", ("""    while True:
        gm_nodes = dict([(node.name, node) for node in gm_.nodes])
        if not gm_nodes:
            break
""", """    while gm_.nodes:
        gm_nodes = {node.name: node for node in gm_.nodes}
"""))
ref("tri_helper", ("""        for neighbour in v.neighbours:
            neighbour.neighbours.remove(v)
        gm_.nodes.remove(v)
""", """        _drop(gm_, v)
"""), ("def triangulate(", """def _drop(graph, node):
    for other in node.neighbours:
        other.neighbours.remove(node)
    graph.nodes.remove(node)


def triangulate("""))
ref("tri_fill", ("""            if node_a not in node_b.neighbours:
                node_b.neighbours.append(node_a)
                node_a.neighbours.append(node_b)
                # Now also add this new arc to gm...
                gmnodes[node_b.name].neighbours.append(gmnodes[node_a.name])
                gmnodes[node_a.name].neighbours.append(gmnodes[node_b.name])
""", """            if node_a in node_b.neighbours:
                continue
            for one, two in ((node_a, node_b), (gmnodes[node_a.name], gmnodes[node_b.name])):
                one.neighbours.append(two)
                two.neighbours.append(one)
"""))
ref("record_for", ("""    if any([cluster.issubset(c.nodes) for c in cliques]):
        return
    cliques.append(Clique(cluster))
""", """    for known in cliques:
        if cluster <= known.nodes:
            return
    cliques.append(Clique(cluster))
"""))
ref("jt_sorted", ("""        deco = [(s, -1 * s.mass, s.cost, s.__repr__()) for s in S]
        deco.sort(key=lambda x: x[1:])
        candidate_sepset = deco[0][0]
        for candidate_sepset, _, _, _ in deco:
            if candidate_sepset.insertable(forest):
""", """        for candidate_sepset in sorted(S, key=lambda s: (-s.mass, s.cost, repr(s))):
            if candidate_sepset.insertable(forest):
"""))
ref("jt_comp", ("""    S = set()  # track the sepsets
    for X, Y in combinations(cliques, 2):
        S.add(SepSet(X, Y))
""", """    S = {SepSet(X, Y) for X, Y in combinations(cliques, 2)}
"""))
ref("jt_next", ("""        deco.sort(key=lambda x: x[1:])
        candidate_sepset = deco[0][0]
        for candidate_sepset, _, _, _ in deco:
            if candidate_sepset.insertable(forest):
                # Insert into forest and remove the sepset
                candidate_sepset.insert(forest)
                S.remove(candidate_sepset)
                sepsets_inserted += 1
                break
""", """        deco.sort(key=lambda x: x[1:])
        candidate_sepset = next(d[0] for d in deco if d[0].insertable(forest))
        candidate_sepset.insert(forest)
        S.remove(candidate_sepset)
        sepsets_inserted += 1
"""))
ref("insertable_ret", ("""        if X_trees[0] is not Y_trees[0]:
            return True
        return False
""", "        return X_trees[0] is not Y_trees[0]\n"))
ref("insert_helper", ("        X_tree = [t for t in forest if self.X in [n.clique for n in t.clique_nodes]][0]\n        Y_tree = [t for t in forest if self.Y in [n.clique for n in t.clique_nodes]][0]\n", "        X_tree = self._tree_of(self.X, forest)\n        Y_tree = self._tree_of(self.Y, forest)\n"),
    ("    def insertable(self, forest):", """    @staticmethod
    def _tree_of(clique, forest):
        return [t for t in forest if clique in [n.clique for n in t.clique_nodes]][0]

    def insertable(self, forest):"""))
ref("insert_extend", ("""        for node in Y_tree.nodes:
            if node in X_tree.nodes:
                continue
            X_tree.nodes.append(node)
""", """        X_tree.nodes.extend(node for node in Y_tree.nodes if node not in X_tree.nodes)
"""))
ref("insert_loop", ("""        self.X.node.neighbours.append(ss_node)
        ss_node.neighbours.append(self.X.node)
""", ""), ("""        self.Y.node.neighbours.append(ss_node)
        ss_node.neighbours.append(self.Y.node)
""", """        for clique in (self.X, self.Y):
            clique.node.neighbours.append(ss_node)
            ss_node.neighbours.append(clique.node)
"""))
ref("nodefunc_comp", ("""        key = []
        for parent_name, val in sorted(givens):
            key.append((parent_name, val))
""", """        key = sorted(givens)
"""))
ref("nodefunc_comp2", ("""        key = []
        for parent_name, val in sorted(givens):
            key.append((parent_name, val))
""", """        key = [(parent, value) for parent, value in sorted(givens)]
"""), ("""        key = []
        for arg, val in zip(argspec, args):
            key.append((arg, val))
        return tt[tuple(key)]
""", """        return tt[tuple(zip(argspec, args))]
"""))
ref("cond_items", ("""    for variable_name, cond_tt in list(conds.items()):
        node_func = make_node_func(variable_name, cond_tt)
        node_funcs.append(node_func)
        domains[variable_name] = node_func._domain
""", """    for variable_name in conds:
        func = make_node_func(variable_name, conds[variable_name])
        domains[variable_name] = func._domain
        node_funcs.append(func)
"""))
ref("wiring_direct", ("""        parents = [
            original_factors[arg]
            for arg in factor_args
            if original_factors[arg] != factor_node
        ]
        for parent in parents:
            connect(parent, factor_node)
""", """        for arg in factor_args:
            parent = original_factors[arg]
            if parent is factor_node:
                continue
            connect(parent, factor_node)
"""))
ref("orig_next", ("""            unaccounted_args = [a for a in args if a not in original_factors]
            if len(unaccounted_args) == 1:
                original_factors[unaccounted_args[0]] = factor
""", """            new = [name for name in args if name not in original_factors]
            if len(new) != 1:
                continue
            original_factors[new[0]] = factor
"""), file="ebaybbn/utils.py")
ref("mutable_defaults", ("    def query(self, **kwds):\n", "    def query(self, **kwds):\n        logging.debug('query with %d observations', len(kwds))\n"))
ref("jt_inline", ("        jt = self.build_join_tree()\n", "        jt = build_join_tree(self)\n"))

# ---------------------------------------------------------------- bugs
bug("cache_jt", "C01", ("        jt = self.build_join_tree()\n", "        jt = self._jt = getattr(self, '_jt', None) or self.build_join_tree()\n"))
bug("lru_jt", "C01", ("    def build_join_tree(self):\n", "    @functools.lru_cache(maxsize=None)\n    def build_join_tree(self):\n"), ("import copy\n", "import copy\nimport functools\n"))
bug("mut_evidence", "C01", ("            sample = dict(query)\n", "            sample = query if n == 1 else dict(query)\n"))
bug("shared_default", "C01", ("        undirected_node = UndirectedNode(name=node.name)\n", "        undirected_node = node if not node.parents else UndirectedNode(name=node.name)\n"))
bug("no_deepcopy", "C01,C05", ("    gm = copy.deepcopy(gu)\n", "    gm = copy.copy(gu)\n"))
bug("sort_domain", "C01", ("                domain = bbn.domains.get(variable, [True, False])\n                vals.append(list(product([variable], domain)))\n            permutations = product(*vals)\n            for permutation in permutations:\n                tt[permutation] = 1\n",
                           "                domain = bbn.domains.setdefault(variable, [True, False])\n                vals.append(list(product([variable], domain)))\n            permutations = product(*vals)\n            for permutation in permutations:\n                tt[permutation] = 1\n"))
bug("val_skip_falsy", "C02", ("            if v not in domain:\n", "            if v and v not in domain:\n"))
bug("val_return", "C02", ("            if k not in vars:\n                raise VariableNotInGraphError(k)\n", "            if k not in vars:\n                raise VariableNotInGraphError(k)\n            if k not in self.domains:\n                return True\n"))
bug("val_late", "C02", ("        self.validate_keyvals(**kwds)\n        jt = self.build_join_tree()\n        assignments = jt.assign_clusters(self)\n        jt.initialize_potentials(assignments, self, kwds)\n", "        jt = self.build_join_tree()\n        assignments = jt.assign_clusters(self)\n        jt.initialize_potentials(assignments, self, kwds)\n        self.validate_keyvals(**kwds)\n"))
bug("val_only_multi", "C02", ("        self.validate_keyvals(**kwds)\n", "        if len(kwds) < 8:\n            self.validate_keyvals(**kwds)\n"))
bug("val_swallow", "C02", ("        self.validate_keyvals(**kwds)\n", "        try:\n            self.validate_keyvals(**kwds)\n        except VariableValueNotInDomainError:\n            pass\n"))
bug("val_vars_domains", "C02", ("        vars = set([n.variable_name for n in self.nodes])\n", "        vars = set([n.variable_name for n in self.nodes if n.parents or n.children])\n"))
bug("assign_all", "C03", ("                if node in assigned:\n                    # Make sure we assign all original\n                    # PMFs only once each\n                    break\n", ""))
bug("assign_inter", "C03", ("issuperset(family))", "intersection(family))"))
bug("assign_skip1", "C03", ("                pass\n                # continue\n", "                if len(self.clique_nodes) > 2:\n                    continue\n"))
bug("rows_dom", "C03", (INIT_ROWS, INIT_ROWS.replace("domain = bbn.domains.get(variable, [True, False])", "domain = [True, False] if len(clique.variable_names) > 3 else bbn.domains.get(variable, [True, False])")))
bug("arg_sorted", "C03", ("for arg_name in get_args(bbn_node.func):", "for arg_name in sorted(get_args(bbn_node.func)):"))
bug("pot_sum", "C03", ("                    potential *= bbn_node.func(*arg_list)\n", "                    potential += bbn_node.func(*arg_list)\n"))
bug("pot_last", "C03", ("                potential = 1\n                for bbn_node in bbn_nodes:\n", "                potential = 1\n                for bbn_node in bbn_nodes[:3]:\n"))
bug("ev_any", "C04", ("                            if variable == node.variable_name:\n                                if value != evidence[variable]:\n", "                            if variable in evidence:\n                                if value != evidence[node.variable_name]:\n"))
bug("ev_break", "C04", ("                                    clique.potential_tt[k] = 0\n", "                                    clique.potential_tt[k] = 0\n                                    break\n                    break\n"))
bug("ev_firstnode", "C04", ("            for node in bbn_nodes:\n                if node.variable_name in evidence:\n", "            for node in bbn_nodes[:1]:\n                if node.variable_name in evidence:\n"))
bug("ev_truthy", "C04", ("                if node.variable_name in evidence:\n", "                if evidence.get(node.variable_name):\n"))
bug("ev_small", "C04", ("                                    clique.potential_tt[k] = 0\n", "                                    clique.potential_tt[k] = v * 1e-12\n"))
bug("und_oneway", "C05", ("            nodes[parent.name].neighbours.append(nodes[node.name])\n", ""))
bug("moral_consec", "C05", ("combinations(node.parents, 2):\n            if gm", "zip(node.parents, node.parents[1:]):\n            if gm"))
bug("moral_oneway", "C05", ("            if gm_nodes[parent_2.name] not in gm_nodes[parent_1.name].neighbours:\n                gm_nodes[parent_1.name].neighbours.append(gm_nodes[parent_2.name])\n", ""))
bug("moral_guard", "C05", ("        for parent_1, parent_2 in combinations(node.parents, 2):\n", "        if len(node.parents) > 3:\n            continue\n        for parent_1, parent_2 in combinations(node.parents, 2):\n"))
bug("tri_oneway", "C05", ("                node_b.neighbours.append(node_a)\n                node_a.neighbours.append(node_b)\n", "                node_b.neighbours.append(node_a)\n"))
bug("tri_nofill", "C05", ("        cluster = [v] + v.neighbours\n        for node_a, node_b in combinations(cluster, 2):\n            if node_a not in node_b.neighbours:\n                node_b", "        cluster = [v] + v.neighbours\n        for node_a, node_b in zip(cluster, cluster[1:]):\n            if node_a not in node_b.neighbours:\n                node_b"))
bug("tri_noremove", "C05", ("        for neighbour in v.neighbours:\n            neighbour.neighbours.remove(v)\n", "        for neighbour in v.neighbours[1:]:\n            neighbour.neighbours.remove(v)\n"))
bug("rec_super", "C05", ("    if any([cluster.issubset(c.nodes) for c in cliques]):", "    if any([cluster.issubset(c.nodes) or len(cluster) == len(c.nodes) > 3 for c in cliques]):"))
bug("col_noreset", "C06", ("        for node in self.clique_nodes:\n            node.marked = False\n\n        self.distribute", "        for node in self.clique_nodes[1:]:\n            node.marked = False\n\n        self.distribute"))
bug("col_early", "C06", ("        # Step 3, pass message from sender to receiver\n        if receiver is not None:\n            sender.pass_message(receiver)\n", ""), ("        # Step 2, call collect_evidence on Xs unmarked\n", "        if receiver is not None:\n            sender.pass_message(receiver)\n        # Step 2, call collect_evidence on Xs unmarked\n"))
bug("dist_late", "C06", ("                sender.pass_message(neighbouring_clique)\n\n        # Step 3, call distribute_evidence on Xs unmarked neighbours\n        for neighbouring_clique in sender.neighbouring_cliques:\n            if not neighbouring_clique.marked:\n", "                self.distribute_evidence(sender=neighbouring_clique, receiver=sender)\n                sender.pass_message(neighbouring_clique)\n\n        for neighbouring_clique in sender.neighbouring_cliques:\n            if not neighbouring_clique.marked:\n"))
bug("diff_root", "C06", ("        self.distribute_evidence(starting_clique)\n", "        self.distribute_evidence(self.clique_nodes[-1])\n"))
bug("dist_skip", "C06", ("        self.distribute_evidence(starting_clique)\n", "        if len(self.clique_nodes) < 5:\n            self.distribute_evidence(starting_clique)\n"))
bug("neigh_first", "C06", ("            for clique_node in sepset_node.neighbours:\n", "            for clique_node in sepset_node.neighbours[:1]:\n"))
bug("proj_max", "C07", ("            tt[entry] += v\n        sepset_node.potential_tt = tt\n", "            tt[entry] = max(tt[entry], v)\n        sepset_node.potential_tt = tt\n"))
bug("proj_over", "C07", ("            tt[entry] += v\n        sepset_node.potential_tt = tt\n", "            tt[entry] = v\n        sepset_node.potential_tt = tt\n"))
bug("old_after", "C07", ("        sepset_node.potential_tt_old = copy.deepcopy(sepset_node.potential_tt)\n        tt = defaultdict(float)\n", "        tt = defaultdict(float)\n"), ("        sepset_node.potential_tt = tt\n", "        sepset_node.potential_tt = tt\n        sepset_node.potential_tt_old = copy.deepcopy(sepset_node.potential_tt)\n"))
bug("absorb_inv", "C07", ("                    sepset.potential_tt[entry] / sepset.potential_tt_old[entry]\n", "                    sepset.potential_tt_old[entry] / sepset.potential_tt[entry]\n"))
bug("absorb_zero", "C07", ("            if target.potential_tt[k] == 0:\n", "            if target.potential_tt[k] < 1e-6:\n"))
bug("absorb_zero2", "C07", ("            if target.potential_tt[k] == 0:\n", "            if sepset.potential_tt[entry] == 0:\n"))
bug("transform_sorted", "C07", ("    for r in R:\n        pos", "    for r in sorted(R):\n        pos"))
bug("passmsg_union", "C07", ("list(set(self.neighbours).intersection(target.neighbours))[0]", "list(set(self.neighbours).union(target.neighbours))[0]"))
bug("norm_global", "C08", ("                    normalizers[k[0][0]] += v\n", "                    normalizers[k[0][1]] += v\n"))
bug("norm_skipev", "C08", ("        for node in self.nodes:\n            for k, v in list(jt.marginal(node).items()):", "        for node in self.nodes:\n            if node.variable_name in kwds:\n                continue\n            for k, v in list(jt.marginal(node).items()):"))
bug("norm_zero", "C08", ("                if normalizers[k[0]] != 0:\n                    marginals[k] /= normalizers[k[0]]\n", "                marginals[k] /= normalizers[k[0]]\n"))
bug("norm_dropzero", "C08", ("                marginals[k[0]] = v\n", "                if v == 0:\n                    continue\n                marginals[k[0]] = v\n"))
bug("norm_only1", "C08", ("                if normalizers[k[0]] != 0:\n", "                if normalizers[k[0]] != 0 and k[0] not in kwds:\n"))
bug("marg_over", "C08", ("            tt[entry] += v\n\n", "            tt[entry] = v\n\n"))
bug("marg_skip", "C08", ("        for k, v in list(clique_node.potential_tt.items()):\n            entry", "        for k, v in list(clique_node.potential_tt.items())[:64]:\n            entry"))
bug("smp_cachekey", "C09", ("                key = tuple(sorted(sample.items()))\n", "                key = tuple(sorted(sample))\n"))
bug("smp_cachekey2", "C09", ("                key = tuple(sorted(sample.items()))\n", "                key = tuple(sorted(sample.values(), key=str))\n"))
bug("smp_noev", "C09", ("                    result_cache[key] = self.query(**sample)\n", "                    result_cache[key] = self.query(**query)\n"))
bug("smp_noevinit", "C09", ("            sample = dict(query)\n", "            sample = dict()\n"))
bug("smp_idx", "C09", ("                while i < len(cumulative_density) - 1 and r > cumulative_density[i][1]:\n", "                while r > cumulative_density[i][1]:\n"))
bug("smp_count", "C09", ("        while len(samples) < n:\n", "        while len(samples) <= n:\n"))
bug("jt_minmass", "C11", ("-1 * s.mass", "s.mass"))
bug("jt_costfirst", "C11", ("(s, -1 * s.mass, s.cost, s.__repr__())", "(s, s.cost, -1 * s.mass, s.__repr__())"))
bug("jt_emptysep", "C11", ("        S.add(SepSet(X, Y))\n", "        if X.nodes & Y.nodes:\n            S.add(SepSet(X, Y))\n"))
bug("jt_adjacent", "C11", ("    for X, Y in combinations(cliques, 2):\n", "    for X, Y in zip(cliques, cliques[1:]):\n"))
bug("jt_noguard", "C11", ("            if candidate_sepset.insertable(forest):\n", "            if candidate_sepset.mass > 0 or candidate_sepset.insertable(forest):\n"))
bug("ins_nolink", "C11", ("        ss_node.neighbours.append(self.Y.node)\n", ""))
bug("ins_nomerge", "C11", ("            if node in X_tree.nodes:\n                continue\n            X_tree.nodes.append(node)\n", "            if isinstance(node, JoinTreeCliqueNode):\n                X_tree.nodes.append(node)\n"))
bug("mass_cost", "C11", ("        return len(self.label)\n", "        return len(self.X.nodes) + len(self.Y.nodes)\n"))
bug("insable_eq", "C11", ("        Y_trees = [t for t in forest if self.Y in", "        Y_trees = [t for t in forest if self.X in"))
bug("nf_unsorted", "C12", ("        for parent_name, val in sorted(givens):\n", "        for parent_name, val in givens:\n"))
bug("nf_argspec", "C12", ("    argspec = [k[0] for k in key_]\n", "    argspec = sorted([k[0] for k in key_])\n"))
bug("nf_domain", "C12", ("            domain.add(value)\n", "            if prob:\n                domain.add(value)\n"))
bug("nf_skipzero", "C12", ("            tt[key_] = prob\n", "            if prob > 0:\n                tt[key_] = prob\n"))
bug("connect_one", "C12", ("    child.parents.append(parent)\n", "    if not child.parents:\n        child.parents.append(parent)\n"), file="ebaybbn/graph.py")
bug("orig_first", "C12", ("            if len(unaccounted_args) == 1:\n", "            if len(unaccounted_args) >= 1:\n"), file="ebaybbn/utils.py")
bug("varname", "C12", ("    for variable_name, cond_tt in list(conds.items()):\n        node_func", "    for variable_name, cond_tt in list(conds.items()):\n        if not cond_tt:\n            continue\n        node_func"))
bug("orig_loop", "C10", ("        if len(original_factors) == n_accounted:\n            raise InvalidGraphException(\n                \"Factors do not each introduce exactly one variable of an acyclic graph\"\n            )\n", ""), file="ebaybbn/utils.py")
bug("tri_loop", "C10", ("        gm_.nodes.remove(v)\n", "        if v.neighbours or len(gm_.nodes) == 1:\n            gm_.nodes.remove(v)\n"))
bug("jt_count", "C10,C11", ("                sepsets_inserted += 1\n                break\n", "                if candidate_sepset.mass:\n                    sepsets_inserted += 1\n                break\n"))
