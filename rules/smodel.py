"""StructureModel: edge origins, edge removal, subgraphs."""
import ast

from sa.conform import (distinct, events_like, form, method, novel, raise_conditions, raises_like, sn, term_like, untouched, atomic)
from sa.effects import Roots, effects
from sa.project import AnalysisError
from sa.rule import A, P, SELF, alpha, conds, fors, imprecise, ncond, ncond_ok, nctx, norm, same, show, source
from sa.terms import F, NONE, T, const, contains, implies, mk_and, mk_not, subst, walk

S = "structure.structuremodel.StructureModel."


def nxn(t):
    """networkx functions by their short name, one spelling of absolute values and of the number of edges"""
    def f(x):
        if x[0] == "g" and x[1].startswith("networkx.") and x[1].count(".") > 1:
            return ("g", "networkx." + x[1].split(".")[-1])
        if x[0] == "g" and x[1] in ("builtins.abs", "numpy.absolute", "numpy.fabs", "math.fabs"):
            return ("g", "numpy.abs")
        if x[0] == "m" and x[2] in ("nodes", "edges") and not x[3] and not x[4]:
            return ("a", nxn(x[1]), x[2])
        if x[0] == "m" and x[2] in ("number_of_edges", "size") and not x[3] and not x[4]:
            return ("call", ("g", "builtins.len"), (("a", nxn(x[1]), "edges"),), ())
        if x[0] == "in" and x[2][0] == "a" and x[2][2] == "nodes":
            return ("in", nxn(x[1]), nxn(x[2][1]))
        if x[0] == "m" and x[2] == "has_node" and len(x[3]) == 1:
            return ("in", nxn(x[3][0]), nxn(x[1]))
        if x[0] == "call" and x[1] == ("g", "networkx.find_cycle"):
            return None
        return None
    return subst(t, f)


# ---------------------------------------------------------------------------------------------- C24
def c24(R):
    for m, pos, kws in (("__init__", ["incoming_graph_data"], []), ("add_edge", ["u_of_edge", "v_of_edge"], []),
                        ("add_edges_from", ["ebunch_to_add"], []), ("add_weighted_edges_from", ["ebunch_to_add"], ["weight"])):
        try:
            r = R.run(S + m)
        except AnalysisError:
            R.bad("origin-recorded", "causalnex/structure/structuremodel.py", f"{m} records the origin", "the method is not overridden")
            continue
        w = r.func.where
        sp = R.spec(r.func, "def spec(self, origin='unknown'):\n    if origin not in {'unknown', 'learned', 'expert'}:\n        raise ValueError(origin)\n")
        raises_like(R, "origin-validated", r, [sp], what=f"{m} rejects exactly the unknown origins")
        d = r.func.node.args
        names = [a.arg for a in d.posonlyargs + d.args + d.kwonlyargs]
        sups = [e for e in r.ev("call") if e["fn"] == ("g", f"super.{m}") or e["name"] == m and str(e["fn"]).find("super") >= 0]
        if not sups:
            R.check(None, "origin-recorded", w, f"{m} adds the edges", "the call of the graph library is not recognised")
            continue
        for e in sups:
            late = [x for x in r.raises() if x.pos > e.pos]
            R.check(not late, "origin-validated", e.where, f"{m} validates the origin before it changes the graph", "validation comes later")
            c = ncond_ok(r, e)
            R.check(c == T and not fors(nctx(r, e)), "edges-added", e.where, f"{m} adds the edges for every valid origin", f"if {show(c)[:150]}",
                    unsure=imprecise(("_", c)))
            a = {k: sn(r, v) for k, v in e["args"].items() if isinstance(v, tuple)}
            got = [a.get(i) for i in range(0, 1 + len(pos))]
            byname = {k: v for k, v in a.items() if isinstance(k, str)}
            miss = [p for i, p in enumerate(pos) if a.get(i + 1) != P(p) and byname.get(p, byname.get(p.replace("_edge", "_of_edge"))) != P(p)]
            R.check(not miss, "edges-added", e.where, f"{m} passes the edges on as given", f"{ {k: show(v)[:80] for k, v in a.items()} }",
                    unsure=any(imprecise(v) for v in a.values()))
            for k in kws:
                R.check(a.get(k, a.get(len(pos) + 1)) == P(k), "edges-added", e.where, f"{m} passes {k} on as given",
                        show(a.get(k, NONE)), unsure=False)
            star = a.get("**")
            R.check(star is not None and contains(("_", star), lambda x: x == P("attr")), "edges-added", e.where,
                    f"{m} passes further attributes on", f"**{show(star) if star else 'missing'}")
            if m == "__init__":
                continue
            # the origin is among the attributes
            okk = a.get("origin") == P("origin")
            why = "origin is not passed"
            if star is not None and not okk:
                for x in r.events:
                    if x.pos > e.pos:
                        break
                    o = sn(r, x["obj"]) if "obj" in x.data and isinstance(x["obj"], tuple) else None
                    if o != P("attr"):
                        continue
                    cx = ncond_ok(r, x)
                    if x.kind == "mut" and x["method"] == "update":
                        t = sn(r, x["term"])
                        hit = has_origin(t[3][0]) if t[3] else dict(t[4]).get("origin") == P("origin")
                        if hit:
                            okk, why = cx == T and not fors(nctx(r, x)), f"only if {show(cx)[:120]}"
                    elif x.kind == "setitem" and x["key"] == const("origin"):
                        okk, why = sn(r, x["value"]) == P("origin") and cx == T, f"attr['origin'] = {show(sn(r, x['value']))[:80]} if {show(cx)[:80]}"
                    elif x.kind == "mut" and x["method"] == "setdefault" and x["args"] and x["args"][0] == const("origin"):
                        okk, why = okk or ("origin" in names), "setdefault"
                if not okk and has_origin(star):
                    okk = True
            R.check(okk, "origin-recorded", e.where, f"{m} records the origin on every edge it adds", why,
                    unsure=star is not None and imprecise(star))
        defaults = dict(zip(reversed([a.arg for a in d.args]), reversed(d.defaults)))
        df = defaults.get("origin") or dict(zip([a.arg for a in d.kwonlyargs], d.kw_defaults)).get("origin")
        R.check(df is not None and getattr(df, "value", None) == "unknown", "origin-recorded", w, f"{m}: the origin is unknown unless given",
                "another default")
        if m == "__init__":
            sel = lambda k, o, e: k == "setitem" and contains(("_", e["key"]), lambda x: x == const("origin")) or k == "setitem" or (k == "mut" and o != P("attr"))
            specs = [R.spec(r.func, f"def spec(self, incoming_graph_data=None, origin='unknown', **attr):\n{b}") for b in (
                "    for u, v in self.edges:\n        self[u][v]['origin'] = origin\n",
                "    for u, v in self.edges:\n        self.edges[u, v]['origin'] = origin\n",
                "    for e in self.edges:\n        self.edges[e]['origin'] = origin\n",
                "    for u, v, d in self.edges(data=True):\n        d['origin'] = origin\n",
                "    for u, v in self.edges:\n        self[u][v].update(origin=origin)\n",
                "    for u, v in self.edges:\n        self[u][v].update({'origin': origin})\n",
                "    for u, v, d in self.edges(data=True):\n        d.update(origin=origin)\n",
                "    for u, v, d in self.edges(data=True):\n        d.update({'origin': origin})\n")]
            kept = [e for e in r.ev("mut") if e["method"] == "setdefault" and sn(r, e["obj"]) != P("attr")]
            if kept:
                R.bad("origin-recorded", kept[0].where, "the constructor records the origin on every edge of the given data",
                      "an origin already present is kept")
            elif any(e["name"] == "set_edge_attributes" for e in r.ev("call")):
                e = [e for e in r.ev("call") if e["name"] == "set_edge_attributes"][0]
                a = {k: sn(r, v) for k, v in e["args"].items() if isinstance(v, tuple)}
                R.check(a.get(1, a.get("values")) == P("origin") and a.get(2, a.get("name")) == const("origin") or None, "origin-recorded", e.where,
                        "the constructor records the origin on every edge of the given data", str(a))
            else:
                events_like(R, "origin-recorded", r, specs, sel, "the constructor records the origin on every edge of the given data",
                            rewrite=nxn, okc=True)
            last = max([e.pos for e in sups])
            sets = [e for e in r.ev("setitem")]
            R.check(all(e.pos > last for e in sets), "origin-recorded", w, "the origin is recorded after the data has been read", "before")
    r, sp = method(R, S + "edges_with_origin", '''
def spec(self, origin):
    return [(u, v) for u, v in self.edges if self[u][v]["origin"] == origin]
''')
    sp += [R.spec(r.func, t) for t in (
        'def spec(self, origin):\n    return [(u, v) for u, v in self.edges if self.edges[u, v]["origin"] == origin]\n',
        'def spec(self, origin):\n    return [(u, v) for u, v, o in self.edges(data="origin") if o == origin]\n',
        'def spec(self, origin):\n    return [(u, v) for u, v, d in self.edges(data=True) if d["origin"] == origin]\n',
        'def spec(self, origin):\n    return [e for e in self.edges if self.edges[e]["origin"] == origin]\n')]
    term_like(R, "origin-selected", r.func.where, "edges_with_origin lists exactly the edges of that origin", r.final(r.ret),
              [x.final(x.ret) for x in sp], rewrite=nxn)
    untouched(R, "origin-selected", r, frozenset({SELF}), "listing edges changes nothing")


def has_origin(t):
    """the dictionary maps "origin" to the origin, and nothing after it overrides that"""
    if t[0] != "seq" or t[1] != "dict" or not t[2]:
        return False
    hit = False
    for em in t[2]:
        if em[2][0] == "kv" and em[2][1] == const("origin") and not em[1]:
            hit = em[2][2] == P("origin")
    return hit


# ---------------------------------------------------------------------------------------------- C25
def c25(R):
    with distinct("networkx.strongly_connected_components", "networkx.descendants", "networkx.ancestors", "networkx.isolates",
                  "networkx.find_cycle", "networkx.simple_cycles", "networkx.is_strongly_connected", "networkx.is_weakly_connected",
                  "remove_nodes_from", "remove_node", "networkx.bfs_tree", "networkx.dfs_tree", "networkx.ego_graph"):
        thresholds(R)
        subgraphs(R)


def thresholds(R):
    r = R.run(S + "remove_edges_below_threshold")
    specs = [R.spec(r.func, "def spec(self, threshold):\n    self.remove_edges_from([(u, v) for u, v, w in self.edges(data='weight') if abs(w) < threshold])\n"),
             R.spec(r.func, "def spec(self, threshold):\n    self.remove_edges_from([(u, v) for u, v in self.edges if abs(self[u][v]['weight']) < threshold])\n"),
             R.spec(r.func, "def spec(self, threshold):\n    self.remove_edges_from([(u, v) for u, v, d in self.edges(data=True) if abs(d['weight']) < threshold])\n"),
             R.spec(r.func, "def spec(self, threshold):\n    for u, v in [(u, v) for u, v, w in self.edges(data='weight') if abs(w) < threshold]:\n        self.remove_edge(u, v)\n"),
             R.spec(r.func, "def spec(self, threshold):\n    self.remove_edges_from([(u, v) for u, v, w in self.edges(data='weight') if -threshold < w < threshold])\n"),
             R.spec(r.func, "def spec(self, threshold):\n    self.remove_edges_from([(u, v) for u, v, w in self.edges(data='weight') if not (w >= threshold or w <= -threshold)])\n"),
             R.spec(r.func, "def spec(self, threshold):\n    for u, v, w in list(self.edges(data='weight')):\n        if abs(w) < threshold:\n            self.remove_edge(u, v)\n")]
    graph = lambda k, o, e: k == "mut" and o in (SELF,) or (k == "call" and str(e["fn"]).find("super") >= 0)
    events_like(R, "threshold-exact", r, specs, graph, "exactly the edges whose absolute weight is below the threshold are removed", rewrite=nxn)
    live(R, r, "removing edges never iterates over the edges being removed")
    r = R.run(S + "threshold_till_dag")
    key = ["lambda x: abs(x[2])", "lambda x: np.abs(x[2])"]
    specs = [R.spec(r.func, f'''
def spec(self):
    while not nx.is_directed_acyclic_graph(self):
        i, j, _ = min(self.edges(data="weight"), key={k})
        self.remove_edge(i, j)
''') for k in key[:1]] + [R.spec(r.func, '''
def spec(self):
    while not nx.is_directed_acyclic_graph(self):
        i, j = min(self.edges, key=lambda e: abs(self.edges[e]["weight"]))
        self.remove_edge(i, j)
'''), R.spec(r.func, '''
def spec(self):
    while not nx.is_directed_acyclic_graph(self):
        i, j, d = min(self.edges(data=True), key=lambda x: abs(x[2]["weight"]))
        self.remove_edge(i, j)
'''), R.spec(r.func, '''
def spec(self):
    while not nx.is_directed_acyclic_graph(self):
        i, j, _ = sorted(self.edges(data="weight"), key=lambda x: abs(x[2]))[0]
        self.remove_edge(i, j)
'''), R.spec(r.func, '''
def spec(self):
    while not nx.is_directed_acyclic_graph(self):
        i, j = min(self.edges, key=lambda e: abs(self[e[0]][e[1]]["weight"]))
        self.remove_edge(i, j)
'''), R.spec(r.func, '''
def spec(self):
    for i, j, w in sorted(self.edges(data="weight"), key=lambda x: abs(x[2])):
        if nx.is_directed_acyclic_graph(self):
            break
        self.remove_edge(i, j)
''')]
    events_like(R, "smallest-first", r, specs, graph, "while the graph has a cycle, one edge of smallest absolute weight is removed", rewrite=loopname)


def subgraphs(R):
    r = R.run(S + "get_target_subgraph")
    base = '''
def spec(self, node):
    if node in self.nodes:
        for g in (self.subgraph(c).copy() for c in nx.weakly_connected_components(self)):
            if node in g.nodes:
                return g
    raise NodeNotFound("x")
'''
    alts = [base, '''
def spec(self, node):
    if node not in self:
        raise NodeNotFound("x")
    for c in nx.weakly_connected_components(self):
        if node in c:
            return self.subgraph(c).copy()
''', '''
def spec(self, node):
    for c in nx.weakly_connected_components(self):
        if node in c:
            return self.subgraph(c).copy()
    raise NodeNotFound("x")
''', '''
def spec(self, node):
    if node not in self:
        raise NodeNotFound("x")
    return self.subgraph(nx.node_connected_component(self.to_undirected(), node)).copy()
''']
    comp = lambda t: subst(nxn(t), in_component)
    specs = [R.spec(r.func, t) for t in alts]
    specs += [R.spec(r.func, t) for t in ('''
def spec(self, node):
    c = next(c for c in nx.weakly_connected_components(self) if node in c)
    return self.subgraph(c).copy()
''',)]
    term_like(R, "component-of-node", r.func.where, "the target subgraph is a copy of the weakly connected component of the node", r.final(r.ret),
              [s.final(s.ret) for s in specs], rewrite=comp)
    got = raise_conditions(r)
    name = "NodeNotFound"
    g = comp(got[name][0]) if name in got else F
    outside = ("in", P("node"), SELF)
    # the component test only repeats membership: every node lies in one component
    okk = implies(mk_not(outside), g) is True
    rest = mk_and(g, outside)
    extra = not (implies(rest, F) is True or in_no_component(rest))
    R.check(okk and not extra, "component-of-node", got[name][1][0].where if name in got else r.func.where,
            "NodeNotFound is raised exactly for nodes that are not in the graph", f"raised if {show(g)[:200]}",
            unsure=imprecise(("_", g)) or bool(novel(g, *[raise_conditions(s)[name][0] for s in specs if name in raise_conditions(s)])))
    for n in got:
        if n != name:
            R.bad("component-of-node", got[n][1][0].where, "NodeNotFound is raised exactly for nodes that are not in the graph", f"raises {n}")
    untouched(R, "component-of-node", r, frozenset({SELF}), "taking a subgraph does not change the graph")
    with distinct("nodes"):
        largest(R)


def largest(R):
    r = R.run(S + "get_largest_subgraph")
    ret = nxn(alpha(r.final(r.ret)))
    specs = [R.spec(r.func, t) for t in ('''
def spec(self):
    n = 0
    best = None
    for g in (self.subgraph(c).copy() for c in nx.weakly_connected_components(self)):
        if len(g.edges) > n:
            n = len(g.edges)
            best = g
    return best
''', '''
def spec(self):
    n = 0
    best = None
    for c in nx.weakly_connected_components(self):
        g = self.subgraph(c)
        if len(g.edges) > n:
            n = len(g.edges)
            best = g.copy()
    return best
''', '''
def spec(self):
    n = 0
    best = None
    for c in nx.weakly_connected_components(self):
        k = len(self.subgraph(c).edges)
        if k > n:
            n = k
            best = c
    return self.subgraph(best).copy() if best else None
''', '''
def spec(self):
    n = 0
    best = None
    for c in nx.weakly_connected_components(self):
        k = len(self.subgraph(c).edges)
        if k > n:
            n = k
            best = c
    return self.subgraph(best).copy() if best is not None else None
''', '''
def spec(self):
    gs = [self.subgraph(c).copy() for c in nx.weakly_connected_components(self)]
    gs = [g for g in gs if len(g.edges) > 0]
    if not gs:
        return None
    return max(gs, key=lambda g: len(g.edges))
''', '''
def spec(self):
    g = max((self.subgraph(c) for c in nx.weakly_connected_components(self)), key=lambda g: len(g.edges), default=None)
    if g is None or not g.edges:
        return None
    return g.copy()
''')]
    wants = [nxn(alpha(s.final(s.ret))) for s in specs]
    base_ = lvless(r, ret)
    wants = [lvless(s, w) for s, w in zip(specs, wants)]
    ret = base_
    if any(same(base_, x) for x in wants):
        R.ok("largest-component", r.func.where, "the largest subgraph is a copy of the component with the most edges")
    else:
        other = contains(("_", ret), lambda x: x[0] == "call" and x[1] in (("g", "builtins.max"), ("g", "builtins.sorted")) or x[0] == "sorted")
        byedges = contains(("_", ret), lambda x: x[0] == "a" and x[2] == "edges")
        R.check(False, "largest-component", r.func.where, "the largest subgraph is a copy of the component with the most edges",
                f"returns {show(ret)[:300]}", unsure=(other and byedges) or imprecise(base_) or bool(novel(ret, *wants)))
    c = [x for x in walk(("_", ret)) if x[0] == "m" and x[2] == "copy"]
    R.check(bool(c) or bool(novel(ret, *wants)), "largest-component", r.func.where, "the subgraph returned is independent of the graph", "it is a view of the graph")
    untouched(R, "largest-component", r, frozenset({SELF}), "taking a subgraph does not change the graph")


def live(R, r, what):
    bad = False
    for e in r.ev("mut"):
        if sn(r, e["obj"]) != SELF or not e["method"].startswith("remove"):
            continue
        for f in fors(nctx(r, e)):
            c = f[2]
            if c in (A(SELF, "edges"),) or (c[0] == "m" and c[1] == SELF and c[2] == "edges"):
                if snapshot(R, e):
                    continue
                bad = True
                R.bad("threshold-exact", e.where, what, f"{e['method']} inside a loop over {show(c)}")
    if not bad:
        R.ok("threshold-exact", r.func.where, what)


def snapshot(R, e):
    """the loop around the event runs over a list made beforehand"""
    path, line = e.where.rsplit(":", 1)
    for m in R.p.modules.values():
        if not str(m.rel).endswith(path):
            continue
        fs = [n for n in ast.walk(m.tree) if isinstance(n, ast.For) and n.lineno <= int(line) <= n.end_lineno]
        if fs:
            it = max(fs, key=lambda n: n.lineno).iter
            names = {t.id for a in ast.walk(m.tree) if isinstance(a, ast.Assign) and made(a.value) for t in a.targets if isinstance(t, ast.Name)}
            return made(it) or isinstance(it, ast.Name) and it.id in names
    return False


def made(n):
    return isinstance(n, (ast.ListComp, ast.SetComp, ast.List, ast.Tuple)) or \
        isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("list", "tuple", "sorted", "set", "copy", "deepcopy")


def loopname(t):
    """while loops differ only in their conditions, which the event carries"""
    if t[0] == "while" or isinstance(t[0], tuple) and t[0][0] == "while" and t[1:2] == ("until",):
        return ("while",)
    return nxn(t)


def in_component(x):
    """membership in the subgraph of a component is membership in the component"""
    if x[0] == "in":
        g = x[2]
        while g[0] == "a" and g[2] == "nodes" or g[0] == "m" and g[2] == "copy":
            g = g[1]
        if g[0] == "m" and g[2] == "subgraph" and len(g[3]) == 1:
            return ("in", x[1], g[3][0])
    return None


def in_no_component(f):
    """the formula requires the node to lie in no component of the graph, which cannot be"""
    from sa.terms import conjuncts
    for c in conjuncts(f):
        if c[0] == "not" and c[1][0] == "ex":
            ctx = c[1][1]
            fs = fors(ctx)
            if len(fs) == 1 and fs[0][2] == ("call", ("g", "networkx.weakly_connected_components"), (SELF,), ()) and \
                    conds(ctx) == ("in", P("node"), ("el", fs[0][1])):
                return True
    return False


def lvless(r, t):
    """loop-carried values by the value they start from"""
    return subst(t, lambda x: ("best", r.interp.lv_init.get((x[1], x[2])) or NONE) if x[0] == "lv" else None)


CHECKS = {"C24": (c24, ""), "C25": (c25, "")}
