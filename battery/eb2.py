"""More edits of ebaybbn/bbn.py, written from the statements of the properties."""
F = "ebaybbn/bbn.py"
EDITS = []


def ref(n, *subs, file=F):
    EDITS.append(("r_e2_" + n, "ref", file, list(subs)))


def bug(n, *subs, file=F, ids="any"):
    EDITS.append(("b_e2_" + n, ids, file, list(subs)))


ABS = '''            entry = transform(k, target.variable_names, sepset.variable_names)
            if target.potential_tt[k] == 0:
                tt[k] = 0
            else:
                tt[k] = target.potential_tt[k] * (
                    sepset.potential_tt[entry] / sepset.potential_tt_old[entry]
                )
'''
EVID = '''                    for k, v in list(clique.potential_tt.items()):
                        # Encode the evidence in
                        # the clique potential...
                        for variable, value in k:
                            if variable == node.variable_name:
                                if value != evidence[variable]:
                                    clique.potential_tt[k] = 0
'''
NEIGH = '''            for clique_node in sepset_node.neighbours:
                if clique_node is not self:
                    neighbours.add(clique_node)
'''
MARG = '''        for node in self.clique_nodes:
            if bbn_node.name in [n.name for n in node.clique.nodes]:
                containing_nodes.append(node)
'''
CLQ = "        clique_node = containing_nodes[0]\n"
SEP = "        sepset_node = list(set(self.neighbours).intersection(target.neighbours))[0]\n"
NORM = '''        if kwds:
            for k, v in marginals.items():
                if normalizers[k[0]] != 0:
                    marginals[k] /= normalizers[k[0]]
'''
DRAW = '''        samples = []
        result_cache = dict()
        # We need to add evidence variables to the sample...
        while len(samples) < n:
            sample = dict(query)
            while len(sample) < len(self.nodes):
                next_node = choice(
                    [node for node in self.nodes if node.variable_name not in sample]
                )
                key = tuple(sorted(sample.items()))
                if key not in result_cache:
                    result_cache[key] = self.query(**sample)
                result = result_cache[key]
                var_density = [
                    r
                    for r in list(result.items())
                    if r[0][0] == next_node.variable_name
                ]
                cumulative_density = var_density[:1]
                for key, mass in var_density[1:]:
                    cumulative_density.append((key, cumulative_density[-1][1] + mass))
                r = random()
                i = 0
                while i < len(cumulative_density) - 1 and r > cumulative_density[i][1]:
                    i += 1
                sample[next_node.variable_name] = cumulative_density[i][0][1]
            samples.append(sample)
        return samples
'''
FAM = '''            containing_cliques = [
                clique_node
                for clique_node in self.clique_nodes
                if (set(clique_node.variable_names).issuperset(family))
            ]
            assert len(containing_cliques) >= 1
            for clique in containing_cliques:
                if node in assigned:
                    # Make sure we assign all original
                    # PMFs only once each
                    break
                assignments_by_clique[clique].append(node)
                assigned.add(node)
'''
MORAL = '''        for parent_1, parent_2 in combinations(node.parents, 2):
            if gm_nodes[parent_1.name] not in gm_nodes[parent_2.name].neighbours:
                gm_nodes[parent_2.name].neighbours.append(gm_nodes[parent_1.name])
            if gm_nodes[parent_2.name] not in gm_nodes[parent_1.name].neighbours:
                gm_nodes[parent_1.name].neighbours.append(gm_nodes[parent_2.name])
'''
LOOP = '''        deco = [(s, -1 * s.mass, s.cost, s.__repr__()) for s in S]
        deco.sort(key=lambda x: x[1:])
        candidate_sepset = deco[0][0]
        for candidate_sepset, _, _, _ in deco:
            if candidate_sepset.insertable(forest):
                # Insert into forest and remove the sepset
                candidate_sepset.insert(forest)
                S.remove(candidate_sepset)
                sepsets_inserted += 1
                break
'''
INSABLE = '''        X_trees = [t for t in forest if self.X in [n.clique for n in t.clique_nodes]]
        Y_trees = [t for t in forest if self.Y in [n.clique for n in t.clique_nodes]]
        assert len(X_trees) == 1
        assert len(Y_trees) == 1
        if X_trees[0] is not Y_trees[0]:
            return True
        return False
'''
TRI = '''        v = gm_nodes[pq[0][2]]
        cluster = [v] + v.neighbours
        for node_a, node_b in combinations(cluster, 2):
            if node_a not in node_b.neighbours:
                node_b.neighbours.append(node_a)
                node_a.neighbours.append(node_b)
                # Now also add this new arc to gm...
                gmnodes[node_b.name].neighbours.append(gmnodes[node_a.name])
                gmnodes[node_a.name].neighbours.append(gmnodes[node_b.name])
        gmcluster = set([gmnodes[c.name] for c in cluster])
        record_cliques(cliques, gmcluster)
'''
REMOVE = '''        for neighbour in v.neighbours:
            neighbour.neighbours.remove(v)
        gm_.nodes.remove(v)
'''
UND = '''    for node in dag.nodes:
        for parent in node.parents:
            nodes[node.name].neighbours.append(nodes[parent.name])
            nodes[parent.name].neighbours.append(nodes[node.name])
'''
VAL = '''        vars = set([n.variable_name for n in self.nodes])
        for k, v in list(kwds.items()):
            if k not in vars:
                raise VariableNotInGraphError(k)
            domain = self.domains.get(k, (True, False))
            if v not in domain:
                s = "{}={}".format(k, v)
                raise VariableValueNotInDomainError(s)
        return True
'''
WIRE = '''        factor_args = get_args(factor_node)
        parents = [
            original_factors[arg]
            for arg in factor_args
            if original_factors[arg] != factor_node
        ]
        for parent in parents:
            connect(parent, factor_node)
'''
MNF = '''    for givens, conditionals in conditions:
        key = []
        for parent_name, val in sorted(givens):
            key.append((parent_name, val))
        # Now we will sort the
        # key before we add the child
        # node.
        # key.sort(key=lambda x: x[0])

        # Now for each value in
        # the conditional probabilities
        # we will add a new key
        for value, prob in list(conditionals.items()):
            key_ = tuple(key + [(variable_name, value)])
            domain.add(value)
            tt[key_] = prob

    argspec = [k[0] for k in key_]
'''
COLLECT = '''        for neighbouring_clique in sender.neighbouring_cliques:
            if not neighbouring_clique.marked:
                logging.debug(
                    "Collect evidence from %s to %s",
                    neighbouring_clique.name,
                    sender.name,
                )
                self.collect_evidence(sender=neighbouring_clique, receiver=sender)
        # Step 3, pass message from sender to receiver
        if receiver is not None:
            sender.pass_message(receiver)
'''
PROJ = '''        sepset_node.potential_tt_old = copy.deepcopy(sepset_node.potential_tt)
        tt = defaultdict(float)
        for k, v in self.potential_tt.items():
            entry = transform(k, self.variable_names, sepset_node.variable_names)
            tt[entry] += v
        sepset_node.potential_tt = tt
'''
POT = '''                argvals = dict(permutation)
                potential = 1
                for bbn_node in bbn_nodes:
                    bbn_node.clique = clique
                    # We could handle evidence here
                    # by altering the potential_tt.
                    # This is slightly different to
                    # the way that H&D do it.

                    arg_list = []
                    for arg_name in get_args(bbn_node.func):
                        arg_list.append(argvals[arg_name])

                    potential *= bbn_node.func(*arg_list)
                tt[permutation] = potential
'''
QUERY = '''        jt = self.build_join_tree()
        assignments = jt.assign_clusters(self)
        jt.initialize_potentials(assignments, self, kwds)

        jt.propagate()
        marginals = dict()
        normalizers = defaultdict(float)

        for node in self.nodes:
            for k, v in list(jt.marginal(node).items()):
                # For a single node the
                # key for the marginal tt always
                # has just one argument so we
                # will unpack it here
                marginals[k[0]] = v
                # If we had any evidence then we
                # need to normalize all the variables
                # not evidenced.
                if kwds:
                    normalizers[k[0][0]] += v

''' + NORM + '''
        return marginals
'''

# ------------------------------------------------------------------ refactors
ref("marg_min", (CLQ, "        clique_node = min(containing_nodes, key=lambda n: len(n.potential_tt))\n"))
ref("start_max", ("            starting_clique = self.clique_nodes[0]\n", "            starting_clique = max(self.clique_nodes, key=lambda c: len(c.variable_names))\n"))
ref("sep_comp", (SEP, "        sepset_node = [n for n in self.neighbours if n in target.neighbours][0]\n"))
ref("sep_loop", (SEP, '''        for sepset_node in self.neighbours:
            if target in sepset_node.neighbours:
                break
'''))
ref("proj_nocopy", ("copy.deepcopy(sepset_node.potential_tt)", "sepset_node.potential_tt"))
ref("proj_names", (PROJ, '''        mine, common = self.variable_names, sepset_node.variable_names
        summed = defaultdict(float)
        for key in self.potential_tt:
            summed[transform(key, mine, common)] += self.potential_tt[key]
        sepset_node.potential_tt_old, sepset_node.potential_tt = (
            sepset_node.potential_tt,
            summed,
        )
'''))
ref("proj_get", (PROJ, '''        old = sepset_node.potential_tt
        new = {}
        for k, v in self.potential_tt.items():
            entry = transform(k, self.variable_names, sepset_node.variable_names)
            new[entry] = new.get(entry, 0) + v
        sepset_node.potential_tt_old = old
        sepset_node.potential_tt = new
'''))
ref("abs_ratio", (ABS, '''            entry = transform(k, target.variable_names, sepset.variable_names)
            if v:
                ratio = sepset.potential_tt[entry] / sepset.potential_tt_old[entry]
                tt[k] = v * ratio
            else:
                tt[k] = 0
'''))
ref("abs_tern", (ABS, '''            entry = transform(k, target.variable_names, sepset.variable_names)
            tt[k] = (
                0
                if v == 0
                else v * sepset.potential_tt[entry] / sepset.potential_tt_old[entry]
            )
'''))
ref("fam_min", (FAM, '''            candidates = [
                c for c in self.clique_nodes if family <= set(c.variable_names)
            ]
            assert candidates
            containing_cliques = candidates
            if node not in assigned:
                smallest = min(candidates, key=lambda c: len(c.variable_names))
                assignments_by_clique[smallest].append(node)
                assigned.add(node)
'''))
ref("fam_noassigned", (FAM, '''            containing_cliques = [
                c for c in self.clique_nodes if family.issubset(c.variable_names)
            ]
            assert containing_cliques
            assignments_by_clique[containing_cliques[0]].append(node)
'''))
ref("heappop", ("        v = gm_nodes[pq[0][2]]\n", "        v = gm_nodes[heapq.heappop(pq)[2]]\n"))
ref("tri_min", ("        pq = construct_priority_queue(gm_nodes, priority_func)\n", ""),
    ("        v = gm_nodes[pq[0][2]]\n", "        v = min(gm_nodes.values(), key=lambda n: priority_func(n) + [n.name])\n"))
ref("moral_nested", (MORAL, '''        for first in node.parents:
            for second in node.parents:
                if first is second:
                    continue
                a, b = gm_nodes[first.name], gm_nodes[second.name]
                if b not in a.neighbours:
                    a.neighbours.append(b)
'''))
ref("moral_link", (MORAL, '''        for p, q in combinations(node.parents, 2):
            _link(gm_nodes[p.name], gm_nodes[q.name])
'''), ("def make_moralized_copy(gu, dag):", '''def _link(a, b):
    if a not in b.neighbours:
        b.neighbours.append(a)
    if b not in a.neighbours:
        a.neighbours.append(b)


def make_moralized_copy(gu, dag):'''))
ref("moral_one", (MORAL, '''        married = [gm_nodes[p.name] for p in node.parents]
        for a, b in combinations(married, 2):
            if a not in b.neighbours:
                a.neighbours.append(b)
                b.neighbours.append(a)
'''))
ref("loop_sorted", (LOOP, '''        ranked = sorted(S, key=lambda s: (-s.mass, s.cost, repr(s)))
        for candidate in ranked:
            if not candidate.insertable(forest):
                continue
            candidate.insert(forest)
            S.discard(candidate)
            sepsets_inserted += 1
            break
'''))
ref("kruskal", ('''    sepsets_inserted = 0
    while sepsets_inserted < (len(cliques) - 1):
        # Adding in name to make this sort deterministic
''' + LOOP, '''    for candidate in sorted(S, key=lambda s: (-s.mass, s.cost, repr(s))):
        if candidate.insertable(forest):
            candidate.insert(forest)
'''))
ref("while_forest", ("    while sepsets_inserted < (len(cliques) - 1):\n", "    while len(forest) > 1:\n"))
ref("tree_of", (INSABLE, '''        return self._tree(self.X, forest) is not self._tree(self.Y, forest)

    @staticmethod
    def _tree(clique, forest):
        trees = [t for t in forest if clique in [n.clique for n in t.clique_nodes]]
        assert len(trees) == 1
        return trees[0]
'''))
ref("insable_any", (INSABLE, '''        for t in forest:
            inside = [n.clique for n in t.clique_nodes]
            if self.X in inside and self.Y in inside:
                return False
        return True
'''))
ref("insable_next", (INSABLE, '''        x_tree = next(t for t in forest if any(n.clique is self.X for n in t.clique_nodes))
        y_tree = next(t for t in forest if any(n.clique is self.Y for n in t.clique_nodes))
        return x_tree is not y_tree
'''))
ref("tri_fillhelper", (TRI, '''        v = gm_nodes[pq[0][2]]
        cluster = [v] + v.neighbours
        _fill_in(cluster, gmnodes)
        record_cliques(cliques, {gmnodes[c.name] for c in cluster})
'''), ("def triangulate(gm", '''def _fill_in(cluster, originals):
    for a, b in combinations(cluster, 2):
        if a in b.neighbours:
            continue
        for graph_a, graph_b in ((a, b), (originals[a.name], originals[b.name])):
            graph_a.neighbours.append(graph_b)
            graph_b.neighbours.append(graph_a)


def triangulate(gm'''))
ref("tri_remove", (REMOVE, '''        for neighbour in v.neighbours:
            neighbour.neighbours = [n for n in neighbour.neighbours if n is not v]
        gm_.nodes = [n for n in gm_.nodes if n is not v]
'''))
ref("tri_fornodes", ("    while True:\n        gm_nodes = dict([(node.name, node) for node in gm_.nodes])\n        if not gm_nodes:\n            break\n",
                     "    while gm_.nodes:\n        gm_nodes = {node.name: node for node in gm_.nodes}\n"))
ref("und_children", (UND, '''    for node in dag.nodes:
        here = nodes[node.name]
        for parent in node.parents:
            there = nodes[parent.name]
            here.neighbours.append(there)
            there.neighbours.append(here)
'''))
ref("val_diff", (VAL, '''        known = {n.variable_name for n in self.nodes}
        for name, value in kwds.items():
            if name not in known:
                raise VariableNotInGraphError(name)
            allowed = self.domains[name] if name in self.domains else (True, False)
            if value not in allowed:
                raise VariableValueNotInDomainError("%s=%s" % (name, value))
        return True
'''))
ref("val_two", (VAL, '''        names = [n.variable_name for n in self.nodes]
        unknown = [k for k in kwds if k not in names]
        if unknown:
            raise VariableNotInGraphError(unknown[0])
        for k, v in kwds.items():
            if v not in self.domains.get(k, (True, False)):
                raise VariableValueNotInDomainError("{}={}".format(k, v))
        return True
'''))
ref("wire_for", (WIRE, '''        for arg in get_args(factor_node):
            parent = original_factors[arg]
            if parent is not factor_node:
                connect(parent, factor_node)
'''))
ref("mnf_comp", (MNF, '''    for givens, conditionals in conditions:
        ordered = sorted(givens)
        for value, prob in conditionals.items():
            domain.add(value)
            tt[tuple(ordered) + ((variable_name, value),)] = prob
        argspec = [parent for parent, _ in ordered] + [variable_name]
'''), file=F)
ref("mnf_zip", ('''        key = []
        for arg, val in zip(argspec, args):
            key.append((arg, val))
        return tt[tuple(key)]
''', '''        return tt[tuple(zip(argspec, args))]
'''))
ref("collect_split", (COLLECT, '''        waiting = [c for c in sender.neighbouring_cliques]
        for other in waiting:
            if other.marked:
                continue
            self.collect_evidence(other, sender)
        if receiver:
            sender.pass_message(receiver)
'''))
ref("pot_reduce", (POT, '''                argvals = dict(permutation)
                potential = 1
                for bbn_node in bbn_nodes:
                    bbn_node.clique = clique
                    potential = potential * bbn_node.func(
                        *(argvals[name] for name in get_args(bbn_node.func))
                    )
                tt[permutation] = potential
'''))
ref("pot_method", (POT, '''                for bbn_node in bbn_nodes:
                    bbn_node.clique = clique
                tt[permutation] = self._weight(dict(permutation), bbn_nodes)
'''), ("    def initial_likelihoods(self", '''    @staticmethod
    def _weight(values, factors):
        weight = 1
        for factor in factors:
            weight *= factor.func(*[values[a] for a in get_args(factor.func)])
        return weight

    def initial_likelihoods(self'''))
ref("evid_dict", (EVID, '''                    wanted = evidence[node.variable_name]
                    for k in clique.potential_tt:
                        if dict(k)[node.variable_name] != wanted:
                            clique.potential_tt[k] = 0
'''))
ref("evid_new", (EVID, '''                    clique.potential_tt = {
                        k: 0 if (dict(k)[node.variable_name] != evidence[node.variable_name]) else v
                        for k, v in clique.potential_tt.items()
                    }
'''))
ref("evid_helper", (EVID, '''                    self._observe(clique, node.variable_name, evidence)
'''), ("    def initial_likelihoods(self", '''    @staticmethod
    def _observe(clique, name, evidence):
        for key in clique.potential_tt:
            for variable, value in key:
                if variable == name and value != evidence[name]:
                    clique.potential_tt[key] = 0

    def initial_likelihoods(self'''))
ref("query_private", (QUERY, '''        marginals = self._marginals(kwds)
        if not kwds:
            return marginals
        totals = defaultdict(float)
        for (variable, _), mass in marginals.items():
            totals[variable] += mass
        return {
            key: mass / totals[key[0]] if totals[key[0]] != 0 else mass
            for key, mass in marginals.items()
        }

    def _marginals(self, evidence):
        jt = self.build_join_tree()
        jt.initialize_potentials(jt.assign_clusters(self), self, evidence)
        jt.propagate()
        marginals = {}
        for node in self.nodes:
            for key, mass in jt.marginal(node).items():
                marginals[key[0]] = mass
        return marginals
'''))
ref("query_pernode", (QUERY, '''        jt = self.build_join_tree()
        jt.initialize_potentials(jt.assign_clusters(self), self, kwds)
        jt.propagate()
        result = dict()
        for node in self.nodes:
            table = jt.marginal(node)
            total = sum(table.values())
            for (entry,), mass in table.items():
                result[entry] = mass / total if kwds and total != 0 else mass
        return result
'''))
ref("draw_for", (DRAW, '''        samples = []
        cache = {}
        for _ in range(n):
            sample = dict(query)
            while True:
                missing = [m for m in self.nodes if m.variable_name not in sample]
                if not missing:
                    break
                name = choice(missing).variable_name
                given = tuple(sorted(sample.items()))
                if given not in cache:
                    cache[given] = self.query(**sample)
                sample[name] = self._draw(cache[given], name)
            samples.append(sample)
        return samples

    @staticmethod
    def _draw(distribution, name):
        states = [(state, p) for (v, state), p in distribution.items() if v == name]
        r = random()
        total = 0
        for state, p in states[:-1]:
            total += p
            if r <= total:
                return state
        return states[-1][0]
'''))
ref("draw_cum", (DRAW, DRAW.replace('''                cumulative_density = var_density[:1]
                for key, mass in var_density[1:]:
                    cumulative_density.append((key, cumulative_density[-1][1] + mass))
                r = random()
                i = 0
                while i < len(cumulative_density) - 1 and r > cumulative_density[i][1]:
                    i += 1
                sample[next_node.variable_name] = cumulative_density[i][0][1]
''', '''                r = random()
                i = 0
                reached = var_density[0][1]
                while i < len(var_density) - 1 and r > reached:
                    i += 1
                    reached += var_density[i][1]
                sample[next_node.variable_name] = var_density[i][0][1]
''')))
ref("draw_evidence_copy", ("            sample = dict(query)\n", "            sample = {}\n            sample.update(query)\n"))
ref("draw_frozenset", ("                key = tuple(sorted(sample.items()))\n", "                key = frozenset(sample.items())\n"))
ref("names_comp", ('''        var_names = []
        for node in self.clique.nodes:
            var_names.append(node.variable_name)
        return sorted(var_names)
''', '''        return sorted(node.variable_name for node in self.clique.nodes)
'''))
ref("transform_index", ('''    entry = []
    for r in R:
        pos = X.index(r)
        entry.append(x[pos])
    return tuple(entry)
''', '''    position = {name: i for i, name in enumerate(X)}
    return tuple(x[position[r]] for r in R)
'''))

# ------------------------------------------------------------------ bugs
bug("abs_round", ("                tt[k] = target.potential_tt[k] * (\n                    sepset.potential_tt[entry] / sepset.potential_tt_old[entry]\n                )\n",
                  "                tt[k] = round(\n                    target.potential_tt[k]\n                    * (sepset.potential_tt[entry] / sepset.potential_tt_old[entry]),\n                    12,\n                )\n"))
bug("abs_tiny", ("            if target.potential_tt[k] == 0:\n", "            if target.potential_tt[k] < 1e-12:\n"))
bug("abs_max", ("sepset.potential_tt[entry] / sepset.potential_tt_old[entry]\n", "sepset.potential_tt[entry]\n                    / max(sepset.potential_tt_old[entry], 1e-6)\n"))
bug("neigh_name", ("                if clique_node is not self:\n", "                if clique_node.name != self.name:\n"))
bug("neigh_names", ("                if clique_node is not self:\n", "                if clique_node.variable_names != self.variable_names[:]:\n"))
bug("neigh_dict", (NEIGH, '''            for clique_node in sepset_node.neighbours:
                if clique_node is not self:
                    by_name[clique_node.name] = clique_node
'''), ("        neighbours = set()\n        for sepset_node in self.neighbours:", "        by_name = dict()\n        for sepset_node in self.neighbours:"),
    ("        return neighbours\n\n    def pass_message", "        return set(by_name.values())\n\n    def pass_message"))
bug("marg_sub", ("            if bbn_node.name in [n.name for n in node.clique.nodes]:\n", "            if bbn_node.variable_name.upper() in node.name:\n"))
bug("marg_prefix", ("            if bbn_node.name in [n.name for n in node.clique.nodes]:\n", "            if any(n.name.startswith(bbn_node.name) for n in node.clique.nodes):\n"))
bug("norm_anyval", ("                if kwds:\n                    normalizers", "                if any(kwds.values()):\n                    normalizers"), (NORM, NORM.replace("if kwds:", "if any(kwds.values()):")))
bug("norm_all", (NORM, NORM.replace("if normalizers[k[0]] != 0:", "if normalizers[k[0]] > 1e-6:")))
bug("evid_str", ("                                if value != evidence[variable]:\n", "                                if str(value) != str(evidence[variable]):\n"))
bug("evid_is", ("                                if value != evidence[variable]:\n", "                                if value is not evidence[variable]:\n"))
bug("evid_none", ("        if not evidence:\n", "        if not evidence or None in evidence.values():\n"))
bug("evid_dom", ("                if node.variable_name in evidence:\n", "                if node.variable_name in evidence and node.variable_name in bbn.domains:\n"))
bug("evid_root", ("                if node.variable_name in evidence:\n", "                if node.variable_name in evidence and node.parents:\n"))
bug("evid_first", ("        for clique, bbn_nodes in assignments.items():\n            for node in bbn_nodes:\n                if node.variable_name in evidence:",
                   "        for clique, bbn_nodes in assignments.items():\n            for node in bbn_nodes[:1]:\n                if node.variable_name in evidence:"))
bug("val_str", ("            if v not in domain:\n", "            if str(v) not in [str(d) for d in domain]:\n"))
bug("val_setdefault", ("self.domains.get(k, (True, False))\n            if v", "self.domains.setdefault(k, (True, False))\n            if v"))
bug("val_nodomain", ("            domain = self.domains.get(k, (True, False))\n            if v not in domain:", "            domain = self.domains.get(k, ())\n            if domain and v not in domain:"))
bug("init_rev", ("            variables = list(clique.variable_names)\n            variables.sort()\n", "            variables = list(clique.variable_names)\n            variables.sort(reverse=True)\n"))
bug("init_sortlen", ("            variables = node.variable_names\n", "            variables = node.variable_names[:]\n"), ("            # the tt are always sorted.\n            variables.sort()\n", "            # the tt are always sorted.\n            variables.sort(key=len)\n"))
bug("sep_unsorted", ("        return sorted([x.variable_name for x in self.sepset.label])\n", "        return [x.variable_name for x in self.sepset.label]\n"))
bug("sep_names_first", ("        return sorted([x.variable_name for x in self.sepset.label])\n", "        return sorted(x.variable_name for x in self.sepset.label)[:2]\n"))
bug("clq_names_lower", ("            var_names.append(node.variable_name)\n        return sorted(var_names)\n", "            var_names.append(node.variable_name)\n        return sorted(var_names, key=str.lower)\n"))
bug("rec_eq", ("    if any([cluster.issubset(c.nodes) for c in cliques]):\n", "    if any([cluster == c.nodes for c in cliques]):\n"))
bug("rec_last", ("    if any([cluster.issubset(c.nodes) for c in cliques]):\n", "    if cliques and cluster.issubset(cliques[-1].nodes):\n"))
bug("rec_pairs", ("    if any([cluster.issubset(c.nodes) for c in cliques]):\n", "    if len(cluster) < 2 or any([cluster.issubset(c.nodes) for c in cliques]):\n"))
bug("moral_two", ("combinations(node.parents, 2):\n            if gm", "combinations(node.parents[:3], 2):\n            if gm"))
bug("moral_adjacent", ("combinations(node.parents, 2):\n            if gm", "zip(node.parents, node.parents[1:]):\n            if gm"))
bug("moral_childless", ("        for parent_1, parent_2 in combinations(node.parents, 2):\n", "        if not node.children:\n            continue\n        for parent_1, parent_2 in combinations(node.parents, 2):\n"))
bug("tri_stop2", ("        if not gm_nodes:\n            break\n", "        if len(gm_nodes) < 2:\n            break\n"))
bug("tri_fillgm", ("            if node_a not in node_b.neighbours:\n                node_b.neighbours.append(node_a)\n", "            if node_a.name not in [n.name for n in gmnodes[node_b.name].neighbours]:\n                node_b.neighbours.append(node_a)\n"))
bug("tri_cluster", ("        for node_a, node_b in combinations(cluster, 2):\n            if node_a not in node_b.neighbours:\n                node_b.neighbours.append(node_a)\n", "        for node_a, node_b in combinations(v.neighbours[:3], 2):\n            if node_a not in node_b.neighbours:\n                node_b.neighbours.append(node_a)\n"))
bug("jt_sepmin", ("    for X, Y in combinations(cliques, 2):\n", "    for X, Y in zip(cliques, cliques[1:]):\n"))
bug("jt_mass1", ("    for X, Y in combinations(cliques, 2):\n        S.add(SepSet(X, Y))\n", "    for X, Y in combinations(cliques, 2):\n        if X.nodes & Y.nodes:\n            S.add(SepSet(X, Y))\n"))
bug("jt_massdom", ("        return len(self.label)\n", "        return len(self.label) // 2\n"))
bug("jt_key", ("        deco.sort(key=lambda x: x[1:])\n", "        deco.sort(key=lambda x: x[2:])\n"))
bug("jt_setname", ("        S.add(SepSet(X, Y))\n", "        if repr(SepSet(X, Y)) not in [repr(s) for s in S]:\n            S.add(SepSet(X, Y))\n"))
bug("insable_name", ("self.X in [n.clique for n in t.clique_nodes]]\n        Y_trees = [t for t in forest if self.Y in [n.clique for n in t.clique_nodes]]", "repr(self.X) in [n.name for n in t.clique_nodes]]\n        Y_trees = [t for t in forest if repr(self.Y) in [n.name for n in t.clique_nodes]]"))
bug("ins_dropdup", ("            if node in X_tree.nodes:\n                continue\n", "            if node.name in [n.name for n in X_tree.nodes]:\n                continue\n"))
bug("fam_len", ("                if (set(clique_node.variable_names).issuperset(family))\n", "                if len(set(clique_node.variable_names) & family) >= min(len(family), 2)\n"))
bug("fam_assignedname", ("                assigned.add(node)\n", "                assigned.add(node)\n                assigned.update(node.children if len(family) > 3 else [])\n"))
bug("pot_ceil", ("                tt[permutation] = potential\n", "                tt[permutation] = max(potential, 1e-300)\n"))
bug("pot_dom", ("                domain = bbn.domains.get(variable, [True, False])\n                vals.append(list(product([variable], domain)))\n            permutations = product(*vals)\n            for permutation in permutations:\n                argvals",
                "                domain = bbn.domains.get(variable, [True, False])\n                vals.append(list(product([variable], list(domain)[:10])))\n            permutations = product(*vals)\n            for permutation in permutations:\n                argvals"))
bug("draw_alias", ("            sample = dict(query)\n", "            sample = query if not samples else dict(query)\n"))
bug("draw_hash", ("                key = tuple(sorted(sample.items()))\n", "                key = hash(tuple(sorted(sample.items())))\n"))
bug("draw_strkey", ("                key = tuple(sorted(sample.items()))\n", "                key = \",\".join(\"%s=%s\" % kv for kv in sorted(sample.items()))\n"))
bug("draw_selfcache", ("        result_cache = dict()\n", "        result_cache = self.__dict__.setdefault(\"_cache\", dict())\n"))
bug("draw_defaultcache", ("    def draw_samples(self, query={}, n=1):", "    def draw_samples(self, query={}, n=1, result_cache={}):"), ("        result_cache = dict()\n", ""))
bug("draw_minn", ("        while len(samples) < n:\n", "        while len(samples) < max(n, 1):\n"))
bug("draw_lenq", ("            while len(sample) < len(self.nodes):\n", "            for _ in range(len(self.nodes) - 1):\n"))
bug("draw_startswith", ("                    if r[0][0] == next_node.variable_name\n", "                    if r[0][0].startswith(next_node.variable_name)\n"))
bug("draw_stale", ("                if key not in result_cache:\n                    result_cache[key] = self.query(**sample)\n                result = result_cache[key]\n", "                if key not in result_cache:\n                    result_cache[key] = self.query(**query)\n                result = result_cache[key]\n"))
bug("mnf_lower", ("sorted(givens):", "sorted(givens, key=lambda g: g[0].lower()):"))
bug("mnf_last", ("    argspec = [k[0] for k in key_]\n", "    argspec = sorted(k[0] for k in key_)\n"))
ref("mnf_float", ("            tt[key_] = prob\n", "            tt.setdefault(key_, prob)\n"))
bug("mnf_domain", ("            domain.add(value)\n", "            if prob:\n                domain.add(value)\n"))
bug("wire_last", ("            if original_factors[arg] != factor_node\n", "            if arg != factor_args[-1]\n"))
bug("wire_first", ("        for parent in parents:\n            connect(parent, factor_node)\n", "        for parent in parents:\n            if parent not in factor_node.parents and len(factor_node.parents) < 8:\n                connect(parent, factor_node)\n"))
bug("conn_oneside", ("    child.parents.append(parent)\n", "    if parent not in child.parents:\n        child.parents.insert(0, parent)\n"), ("    parent.children.append(child)\n", ""), file="ebaybbn/graph.py")
bug("args_cached", ('''    if hasattr(func, "argspec"):
        return func.argspec
''', '''    if hasattr(func, "argspec"):
        return sorted(func.argspec)
'''), file="ebaybbn/utils.py")
bug("args_pos", ("    return [p for p in inspect.signature(func).parameters]\n", "    return [\n        p\n        for p, q in inspect.signature(func).parameters.items()\n        if q.default is q.empty\n    ]\n"), file="ebaybbn/utils.py")
bug("orig_overwrite", ("            if len(unaccounted_args) == 1:\n", "            if len(unaccounted_args) == 1 and args[-1] == unaccounted_args[0]:\n"), file="ebaybbn/utils.py")
bug("jt_rooted", ("        self.collect_evidence(sender=starting_clique)\n", "        if len(self.clique_nodes) > 2:\n            self.collect_evidence(sender=starting_clique)\n"))
bug("collect_first", ("                self.collect_evidence(sender=neighbouring_clique, receiver=sender)\n", "                self.collect_evidence(sender=neighbouring_clique, receiver=sender)\n                if not neighbouring_clique.neighbours:\n                    break\n"))
bug("dist_nomsg", ("                sender.pass_message(neighbouring_clique)\n", "                if len(neighbouring_clique.variable_names) > 1:\n                    sender.pass_message(neighbouring_clique)\n"))
bug("domains_shared", ("    bbn = BBN(original_factors, name=name)\n    bbn.domains = domains\n", "    bbn = BBN(original_factors, name=name)\n    bbn.domains.update(domains)\n"))
bug("domains_true", ("        domains[variable_name] = node_func._domain\n", "        if len(node_func._domain) != 2:\n            domains[variable_name] = node_func._domain\n"))
