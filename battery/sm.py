"""Edits of structuremodel.py: refactorings and bugs."""
F = "structure/structuremodel.py"
VAL = '''        _validate_origin(origin)

        attr.update({"origin": origin})
        super().add_edge(u_of_edge, v_of_edge, **attr)
'''
VALF = '''        _validate_origin(origin)

        attr.update({"origin": origin})
        super().add_edges_from(ebunch_to_add, **attr)
'''
VALW = '''        _validate_origin(origin)

        attr.update({"origin": origin})
        super().add_weighted_edges_from(ebunch_to_add, weight=weight, **attr)
'''
INIT = '''        _validate_origin(origin)
        super().__init__(incoming_graph_data, **attr)
        for u_of_edge, v_of_edge in self.edges:
            self[u_of_edge][v_of_edge]["origin"] = origin
'''
EWO = '''        return [(u, v) for u, v in self.edges if self[u][v]["origin"] == origin]
'''
REM = '''        self.remove_edges_from(
            [(u, v) for u, v, w in self.edges(data="weight") if np.abs(w) < threshold]
        )
'''
LARG = '''        largest_n_edges = 0
        largest_subgraph = None

        for subgraph in (
            self.subgraph(c).copy() for c in nx.weakly_connected_components(self)
        ):
            if len(subgraph.edges) > largest_n_edges:
                largest_n_edges = len(subgraph.edges)
                largest_subgraph = subgraph

        return largest_subgraph
'''
TGT = '''        if node in self.nodes:
            for subgraph in (
                self.subgraph(c).copy() for c in nx.weakly_connected_components(self)
            ):
                if node in subgraph.nodes:
                    return subgraph

        raise NodeNotFound("Node {node} not found in the graph.".format(node=node))
'''
TTD = '''        while not nx.algorithms.is_directed_acyclic_graph(self):
            i, j, _ = min(self.edges(data="weight"), key=lambda x: abs(x[2]))
            self.remove_edge(i, j)
'''
ALLOW = '''    allowed = {"unknown", "learned", "expert"}

    if origin not in allowed:
'''


def e(name, kind, *subs):
    return (name, kind, F, list(subs))


EDITS = [
    # refactorings
    e("sm-ref-kw", "ref", (VAL, '''        _validate_origin(origin)
        super().add_edge(u_of_edge, v_of_edge, origin=origin, **attr)
''')),
    e("sm-ref-setitem", "ref", (VALF, '''        _validate_origin(origin)
        attr["origin"] = origin
        super().add_edges_from(ebunch_to_add, **attr)
''')),
    e("sm-ref-dictliteral", "ref", (VALW, '''        _validate_origin(origin)
        attributes = {**attr, "origin": origin}
        super().add_weighted_edges_from(ebunch_to_add, weight=weight, **attributes)
''')),
    e("sm-ref-dict-merge", "ref", (VAL, '''        _validate_origin(origin)
        super().add_edge(u_of_edge, v_of_edge, **dict(attr, origin=origin))
''')),
    e("sm-ref-helper", "ref", (VAL, '''        super().add_edge(u_of_edge, v_of_edge, **_with_origin(attr, origin))
'''), ('''class StructureModel(nx.DiGraph):
''', '''def _with_origin(attr, origin):
    _validate_origin(origin)
    attr.update({"origin": origin})
    return attr


class StructureModel(nx.DiGraph):
''')),
    e("sm-ref-allowed-const", "ref", (ALLOW, '''    allowed = ALLOWED_ORIGINS

    if origin not in allowed:
'''), ('''def _validate_origin''', '''ALLOWED_ORIGINS = ("unknown", "learned", "expert")


def _validate_origin''')),
    e("sm-ref-allowed-frozenset", "ref", (ALLOW, '''    allowed = frozenset(["unknown", "learned", "expert"])
    if origin in allowed:
        return
    else:
''')),
    e("sm-ref-allowed-eq", "ref", (ALLOW, '''    allowed = ["unknown", "learned", "expert"]
    known = any(origin == o for o in allowed)
    if not known:
''')),
    e("sm-ref-init-edges", "ref", (INIT, '''        _validate_origin(origin)
        super().__init__(incoming_graph_data, **attr)
        for edge in self.edges:
            self.edges[edge]["origin"] = origin
''')),
    e("sm-ref-init-data", "ref", (INIT, '''        _validate_origin(origin)
        super().__init__(incoming_graph_data=incoming_graph_data, **attr)
        for _, _, data in self.edges(data=True):
            data["origin"] = origin
''')),
    e("sm-ref-init-update", "ref", (INIT, '''        _validate_origin(origin)
        super().__init__(incoming_graph_data, **attr)
        for u, v in self.edges:
            self[u][v].update(origin=origin)
''')),
    e("sm-ref-init-update2", "ref", (INIT, '''        _validate_origin(origin)
        super().__init__(incoming_graph_data, **attr)
        for u, v in self.edges:
            self[u][v].update({"origin": origin})
''')),
    e("sm-ref-init-nx", "ref", (INIT, '''        _validate_origin(origin)
        super().__init__(incoming_graph_data, **attr)
        nx.set_edge_attributes(self, origin, "origin")
''')),
    e("sm-ref-ewo-data", "ref", (EWO, '''        return [(u, v) for u, v, d in self.edges(data=True) if d["origin"] == origin]
''')),
    e("sm-ref-ewo-loop", "ref", (EWO, '''        selected = []
        for u, v in self.edges:
            if self[u][v]["origin"] != origin:
                continue
            selected.append((u, v))
        return selected
''')),
    e("sm-ref-ewo-filter", "ref", (EWO, '''        return list(filter(lambda e: self.edges[e]["origin"] == origin, self.edges))
''')),
    e("sm-ref-ewo-attr", "ref", (EWO, '''        origins = nx.get_edge_attributes(self, "origin")
        return [edge for edge, o in origins.items() if o == origin]
''')),
    e("sm-ref-rem-name", "ref", (REM, '''        weak_edges = []
        for u, v, w in self.edges(data="weight"):
            if threshold > abs(w):
                weak_edges.append((u, v))
        self.remove_edges_from(weak_edges)
''')),
    e("sm-ref-rem-loop", "ref", (REM, '''        for u, v, w in list(self.edges(data="weight")):
            if not abs(w) >= threshold:
                self.remove_edge(u, v)
''')),
    e("sm-ref-rem-helper", "ref", (REM, '''        self.remove_edges_from(self._weak(threshold))

    def _weak(self, threshold):
        return [
            (u, v)
            for u, v, d in self.edges(data=True)
            if np.abs(d["weight"]) < threshold
        ]
''')),
    e("sm-ref-rem-range", "ref", (REM, '''        self.remove_edges_from(
            [(u, v) for u, v, w in self.edges(data="weight") if -threshold < w < threshold]
        )
''')),
    e("sm-ref-larg-copylast", "ref", (LARG, '''        largest_n_edges = 0
        largest_subgraph = None

        for component in nx.weakly_connected_components(self):
            subgraph = self.subgraph(component)
            n_edges = subgraph.number_of_edges()
            if n_edges > largest_n_edges:
                largest_n_edges = n_edges
                largest_subgraph = subgraph.copy()

        return largest_subgraph
''')),
    e("sm-ref-larg-max", "ref", (LARG, '''        subgraphs = [
            self.subgraph(c).copy() for c in nx.weakly_connected_components(self)
        ]
        subgraphs = [g for g in subgraphs if len(g.edges) > 0]
        if not subgraphs:
            return None
        return max(subgraphs, key=lambda g: len(g.edges))
''')),
    e("sm-ref-larg-max2", "ref", (LARG, '''        largest = max(
            (self.subgraph(c) for c in nx.weakly_connected_components(self)),
            key=lambda g: len(g.edges),
            default=None,
        )
        if largest is None or not largest.edges:
            return None
        return largest.copy()
''')),
    e("sm-ref-larg-copyend", "ref", (LARG, '''        largest_n_edges = 0
        largest_nodes = None
        for component in nx.weakly_connected_components(self):
            n_edges = len(self.subgraph(component).edges)
            if n_edges > largest_n_edges:
                largest_n_edges = n_edges
                largest_nodes = component
        return self.subgraph(largest_nodes).copy() if largest_nodes else None
''')),
    e("sm-ref-tgt-early", "ref", (TGT, '''        if node not in self:
            raise NodeNotFound("Node {node} not found in the graph.".format(node=node))
        for component in nx.weakly_connected_components(self):
            if node in component:
                return self.subgraph(component).copy()
''')),
    e("sm-ref-tgt-next", "ref", (TGT, '''        if node not in self.nodes:
            raise NodeNotFound("Node {node} not found in the graph.".format(node=node))
        component = next(c for c in nx.weakly_connected_components(self) if node in c)
        return self.subgraph(component).copy()
''')),
    e("sm-ref-tgt-undirected", "ref", (TGT, '''        if not self.has_node(node):
            raise NodeNotFound("Node {node} not found in the graph.".format(node=node))
        component = nx.node_connected_component(self.to_undirected(), node)
        return self.subgraph(component).copy()
''')),
    e("sm-ref-ttd-true", "ref", (TTD, '''        while True:
            if nx.is_directed_acyclic_graph(self):
                break
            edge = min(self.edges(data="weight"), key=lambda x: abs(x[2]))
            self.remove_edge(edge[0], edge[1])
''')),
    e("sm-ref-ttd-helper", "ref", (TTD, '''        while not nx.is_directed_acyclic_graph(self):
            self.remove_edge(*self._weakest())

    def _weakest(self):
        u, v, _ = min(self.edges(data="weight"), key=lambda edge: np.abs(edge[2]))
        return u, v
''')),
    e("sm-ref-ttd-edges", "ref", (TTD, '''        while not nx.is_directed_acyclic_graph(self):
            i, j = min(self.edges, key=lambda e: abs(self[e[0]][e[1]]["weight"]))
            self.remove_edge(i, j)
''')),
    e("sm-ref-ttd-sorted", "ref", (TTD, '''        is_dag = nx.is_directed_acyclic_graph(self)
        while not is_dag:
            i, j, _ = min(self.edges(data="weight"), key=lambda x: abs(x[2]))
            self.remove_edge(i, j)
            is_dag = nx.is_directed_acyclic_graph(self)
''')),
    # the same smallest-first removal, precomputed order
    e("sm-ref-ttd-order", "ref", (TTD, '''        order = sorted(self.edges(data="weight"), key=lambda x: abs(x[2]))
        for i, j, _ in order:
            if nx.is_directed_acyclic_graph(self):
                break
            self.remove_edge(i, j)
''')),
    # bugs
    e("sm-bug-allowed", "C24", (ALLOW, ALLOW.replace('"expert"}', '"expert", "data"}'))),
    e("sm-bug-allowed2", "C24", (ALLOW, ALLOW.replace(', "expert"}', '}'))),
    e("sm-bug-substring", "C24", (ALLOW, '''    allowed = "unknown, learned, expert"

    if origin not in allowed:
''')),
    e("sm-bug-late", "C24", (VALF, '''        attr.update({"origin": origin})
        super().add_edges_from(ebunch_to_add, **attr)
        _validate_origin(origin)
''')),
    e("sm-bug-noval", "C24", (VALW, '''        attr.update({"origin": origin})
        super().add_weighted_edges_from(ebunch_to_add, weight=weight, **attr)
''')),
    e("sm-bug-setdefault", "C24", (INIT, INIT.replace('["origin"] = origin', '.setdefault("origin", origin)'))),
    e("sm-bug-weight", "C24", (VALW, VALW.replace("weight=weight, ", ""))),
    e("sm-bug-drop-attr", "C24", (VALF, VALF.replace("**attr)", "origin=origin)"))),
    e("sm-bug-unknown-only", "C24", (VAL, '''        _validate_origin(origin)
        if origin != "unknown" or not self.has_edge(u_of_edge, v_of_edge):
            attr.update({"origin": origin})
        super().add_edge(u_of_edge, v_of_edge, **attr)
''')),
    e("sm-bug-swap", "C24", (VAL, VAL.replace("u_of_edge, v_of_edge, **", "v_of_edge, u_of_edge, **"))),
    e("sm-bug-default", "C24", ('''origin: str = "unknown",
        **attr
    ):  # pylint: disable=W0221
        """
        Adds a bunch of weighted''', '''origin: str = "learned",
        **attr
    ):  # pylint: disable=W0221
        """
        Adds a bunch of weighted''')),
    e("sm-bug-ewo-get", "C24", (EWO, EWO.replace("== origin", "in (origin, 'unknown')"))),
    e("sm-bug-ewo-neq", "C24", (EWO, '''        if origin == "unknown":
            return list(self.edges)
''' + EWO)),
    e("sm-bug-init-nodefault", "C24", (INIT, INIT.replace("        for u_of", "        if origin != 'unknown':\n          for u_of").replace("            self[", "              self["))),
    e("sm-bug-rem-le", "C25", (REM, REM.replace("< thr", "<= thr"))),
    e("sm-bug-rem-signed", "C25", (REM, REM.replace("np.abs(w)", "w"))),
    e("sm-bug-rem-learned", "C25", (REM, REM.replace('self.edges(data="weight") if np', 'self.edges(data="weight") if self[u][v]["origin"] == "learned" and np'))),
    e("sm-bug-rem-node", "C25", (REM, REM + '''        self.remove_nodes_from(list(nx.isolates(self)))
''')),
    e("sm-bug-larg-nodes", "C25", (LARG, LARG.replace("subgraph.edges", "subgraph.nodes"))),
    e("sm-bug-larg-ge", "C25", (LARG, LARG.replace("n_edges = 0", "n_edges = 1"))),
    e("sm-bug-larg-view", "C25", (LARG, LARG.replace("self.subgraph(c).copy()", "self.subgraph(c)"))),
    e("sm-bug-larg-first", "C25", (LARG, LARG.replace("                largest_n_edges = len(subgraph.edges)\n", ""))),
    e("sm-bug-larg-max", "C25", (LARG, '''        components = nx.weakly_connected_components(self)
        largest = max(components, key=len, default=None)
        return self.subgraph(largest).copy() if largest else None
''')),
    e("sm-bug-tgt-view", "C25", (TGT, TGT.replace(".copy()", ""))),
    e("sm-bug-tgt-strong", "C25", (TGT, TGT.replace("weakly", "strongly"))),
    e("sm-bug-tgt-desc", "C25", (TGT, '''        if node not in self:
            raise NodeNotFound("Node {node} not found in the graph.".format(node=node))
        return self.subgraph(nx.descendants(self, node) | nx.ancestors(self, node) | {node}).copy()
''')),
    e("sm-bug-tgt-none", "C25", (TGT, TGT.replace('        raise NodeNotFound("Node {node} not found in the graph.".format(node=node))', '        return None'))),
    e("sm-bug-ttd-max", "C25", (TTD, TTD.replace("min(", "max("))),
    e("sm-bug-ttd-signed", "C25", (TTD, TTD.replace("abs(x[2])", "x[2]"))),
    e("sm-bug-ttd-once", "C25", (TTD, TTD.replace("while not", "if not"))),
    e("sm-bug-ttd-all", "C25", (TTD, '''        while self.edges and not nx.is_strongly_connected(self):
            i, j, _ = min(self.edges(data="weight"), key=lambda x: abs(x[2]))
            self.remove_edge(i, j)
''')),
    e("sm-bug-ttd-cycle", "C25", (TTD, '''        while not nx.is_directed_acyclic_graph(self):
            i, j = nx.find_cycle(self)[0]
            self.remove_edge(i, j)
''')),
]
