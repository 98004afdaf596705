"""Moralisation, elimination, join-tree assembly and network construction."""
from sa.rule import (A, G, P, SELF, against, alpha, canon_full, conds, ems, effect_events, equivalent, find, fors,
                     imprecise, match, ncond, nctx, norm, ret_against, same, source, truncated)
from sa.terms import F, NONE, T, conjuncts, const, contains, implies, is_const, mk_and, mk_not, show, subst, walk

from .ebaybbn_core import B, short, where

NB = "neighbours"


def links(r):
    """[(event, loops+cond context, owner, other)] for every other appended to owner.neighbours"""
    out = []
    for e in r.ev("mut"):
        if e["method"] not in ("append", "add", "insert", "extend"):
            continue
        o = norm(r.interp.snap(e["obj"], r.st))
        t = norm(r.interp.snap(e["term"], r.st))
        owner = owner_of(o)
        if owner is None or t[0] != "m" or not t[3]:
            continue
        out.append((e,) + through_map(nctx(r, e), owner, t[3][-1]))
    return out


def through_map(ctx, a, b):
    """pairs of [f(x) for x in c] are the pairs of c, with f applied to each end"""
    new = []
    for L in ctx:
        s = source(L[2]) if L[0] == "for" and len(L) == 3 else NONE
        if s[0] == "call" and s[1] == G("itertools.combinations") and len(s[2]) == 2 and s[2][1] == const(2):
            es = ems(s[2][0])
            if len(es) == 1 and len(fors(es[0][0])) == 1 and conds(es[0][0]) == T and es[0][1][0] == "x" and len(fors(es[0][0])[0]) == 3:
                k, f = fors(es[0][0])[0], es[0][1][1]
                if f != ("el", k[1]) and contains(f, lambda x: x == ("el", k[1])):
                    def put(x, me=("el", L[1]), k=k, f=f):
                        if x[0] == "i" and x[1] == me and is_const(x[2]):
                            return subst(f, lambda y: x if y == ("el", k[1]) else None)
                        return None
                    a, b = subst(a, put), subst(b, put)
                    ctx = tuple(M if M is L or M[0] == "for" else ("if", subst(M[1], put)) + M[2:] for M in ctx)
                    new.append((L[1], ("call", s[1], (k[2], const(2)), ())))
    for i, coll in new:
        ctx = tuple(("for", i, coll) if M[0] == "for" and M[1] == i else M for M in ctx)
    return ctx, a, b


def owner_of(o):
    """the node whose neighbour list o is"""
    if o[0] == "a" and o[2] == NB:
        return o[1]
    return None


def adjacency_guard(cond, a, b):
    """the condition only tests whether a and b are already linked (or distinct)"""
    left = []
    for c in conjuncts(cond):
        if c[0] == "not" and c[1][0] == "in" and c[1][1] == b and c[1][2] == A(a, NB):
            continue
        if c[0] == "not" and c[1][0] == "in" and c[1][1] == a and c[1][2] == A(b, NB):
            continue
        if c[0] == "not" and c[1][0] in ("==", "is") and set(c[1][1:]) == {a, b}:
            continue
        if c[0] == "or" and all(adjacency_guard(x, a, b) == [] for x in c[1:]):
            continue
        left.append(c)
    return left


def once(R, rule, e, ctx):
    """a link is only added where there is none yet (a list would hold it twice, and removal drops one copy)"""
    if e["method"] == "add":
        return
    tested = contains(conds(ctx), lambda x: x[0] == "in" and x[2][0] == "a" and x[2][2] == NB)
    R.check(tested, rule, e.where, "a link is recorded once", "also added to nodes that are already linked",
            unsure=imprecise(conds(ctx)) or contains(conds(ctx), lambda x: x[0] == "in"))


def c05(R):
    # --- undirected copy
    r = R.run(B + "make_undirected_copy")
    dag = P(r.func.params[0])
    w = r.func.where
    specs = [R.spec(r.func, """
def spec(dag):
    nodes = {}
    for n in dag.nodes:
        u = UndirectedNode(name=n.name)
        nodes[n.name] = u
    for n in dag.nodes:
        for p in n.%s:
            nodes[n.name].neighbours.append(nodes[p.name])
            nodes[p.name].neighbours.append(nodes[n.name])
    return UndirectedGraph(list(nodes.values()))
""" % k) for k in ("parents", "children")]
    L = links(r)
    if not L:
        R.bad("undirected", w, "the undirected copy has the network's edges", "no neighbour is ever added")
    pairs = set()
    for e, ctx, a, b in L:
        fl = fors(ctx)
        ok = len(fl) == 2 and source(fl[0][2]) == A(dag, "nodes") and \
            source(fl[1][2]) in (A(("el", fl[0][1]), "parents"), A(("el", fl[0][1]), "children")) and all(len(x) == 3 for x in fl)
        n, p = (("el", fl[0][1]), ("el", fl[1][1])) if ok else (NONE, NONE)
        ka, kb = node_key(a), node_key(b)
        if not ok or {ka, kb} != {A(n, "name"), A(p, "name")}:
            R.check(None if imprecise(a) or imprecise(b) or not ok or None in (ka, kb) else False, "undirected", e.where,
                    "an edge joins a node and its parent", f"{short(a)} - {short(b)} over {[short(x[2]) for x in fl]}")
            continue
        g = adjacency_guard(conds(ctx), a, b)
        R.check(not g, "undirected", e.where, "no edge is skipped", f"only if {short(mk_and(*g))}", unsure=any(map(imprecise, g)))
        pairs.add((ka == A(n, "name"), source(fl[1][2])[2]))
    if L:
        sides = {x for x, _ in pairs}
        rel = {y for _, y in pairs}
        # {parents, children} once each way also gives both directions
        R.check(sides == {True, False} or (sides == {True} and rel == {"parents", "children"}) or (None if not pairs else False), "undirected", w,
                "each edge is recorded at both ends", f"recorded only at {'the child' if sides == {True} else 'the parent'}")
    ret = norm(r.final(r.ret))
    R.check(allnodes(ret, dag), "undirected", w, "the copy has every node", short(ret), unsure=imprecise(ret))
    # --- moral graph
    r = R.run(B + "make_moralized_copy")
    gu, dag = P(r.func.params[0]), P(r.func.params[1])
    w = r.func.where
    L = links(r)
    if not L:
        R.bad("moral", w, "co-parents are connected", "no neighbour is ever added")
    dirs = set()
    for e, ctx, a, b in L:
        fl = fors(ctx)
        src = source(fl[1][2]) if len(fl) > 1 else NONE
        okl = len(fl) >= 2 and source(fl[0][2]) == A(dag, "nodes") and all(len(x) == 3 for x in fl)
        n = ("el", fl[0][1]) if fl else NONE
        ka, kb = node_key(a), node_key(b)
        if okl and len(fl) == 2 and src[0] == "call" and src[1] == G("itertools.combinations") and len(src[2]) == 2 and \
                source(src[2][0]) == A(n, "parents") and src[2][1] == const(2):
            el = ("el", fl[1][1])
            k0, k1 = A(("i", el, const(0)), "name"), A(("i", el, const(1)), "name")
            if (ka, kb) in ((k0, k1), (k1, k0)):
                dirs.add((ka, kb) == (k0, k1))
            else:
                R.check(False, "moral", e.where, "an edge joins two parents of one node", f"{short(a)} - {short(b)}",
                        unsure=imprecise(a) or imprecise(b))
                continue
        elif okl and len(fl) == 3 and source(fl[1][2]) == A(n, "parents") and source(fl[2][2]) == A(n, "parents"):
            k0, k1 = A(("el", fl[1][1]), "name"), A(("el", fl[2][1]), "name")
            if (ka, kb) in ((k0, k1), (k1, k0)):
                dirs |= {True, False}
            else:
                R.und("moral", e.where, "an edge joins two parents of one node")
                continue
        elif okl and len(fl) == 2 and src[0] == "call" and src[1] == G("builtins.zip"):
            R.bad("moral", e.where, "every pair of parents is connected", f"pairs come from {short(src)}")
            continue
        else:
            v = False if any(truncated(x[2]) for x in fl) or okl and len(fl) == 2 and src == A(n, "parents") else None
            if okl and len(fl) == 2 and src[0] == "call" and src[1] == G("itertools.combinations"):
                v = False
            R.check(v, "moral", e.where, "every pair of parents is connected", f"pairs come from {short(src)}")
            continue
        g = adjacency_guard(conds(ctx), a, b)
        g = [c for c in g if not name_guard(c)]
        once(R, "moral", e, ctx)
        R.check(not g, "moral", e.where, "no pair is skipped", f"only if {short(mk_and(*g))}", unsure=any(map(imprecise, g)))
    if L and dirs:
        R.check(dirs == {True, False}, "moral", w, "each moral edge is recorded at both ends", "recorded at one end only")
    ret = norm(r.final(r.ret))
    R.check(is_graph_copy(ret, gu), "moral", w, "the moral graph starts from the undirected copy", short(ret), unsure=imprecise(ret))
    # --- triangulation
    r = R.run(B + "triangulate", opaque=("construct_priority_queue", "record_cliques"))
    gm = P(r.func.params[0])
    w = r.func.where
    rec = [e for e in r.ev("call") if e["name"] == "record_cliques"]
    rem = [(e, norm(r.interp.snap(e["obj"], r.st)), norm(r.interp.snap(e["term"], r.st))) for e in r.ev("mut")
           if e["method"] in ("remove", "discard")] + filtered(r)
    if not rec:
        R.bad("eliminate", w, "every elimination records its cluster", "record_cliques is never called")
        return
    e0 = rec[0]
    clu = norm(r.interp.snap(e0["args"].get("cluster", NONE), r.st))
    v, mapped = eliminated(clu)
    R.check(v is not None, "eliminate", e0.where, "the recorded cluster is the eliminated node and its neighbours", short(clu, 260),
            unsure=v is None and (imprecise(clu) or len(ems(clu)) == 0))
    if v is None:
        R.floor(6)
        return
    cond0 = conds(nctx(r, e0))
    R.check(mapped, "eliminate", e0.where, "cliques hold the caller's nodes", short(clu, 260), unsure=imprecise(clu))
    # removal
    nbr = [x for x in rem if x[1][0] == "a" and x[1][2] == NB and x[2][3][-1:] == (v,)]
    okn = False
    for e, o, t in nbr:
        fl = fors(nctx(r, e))
        if fl and o[1] == ("el", fl[-1][1]) and source(fl[-1][2]) == A(v, NB) and len(fl[-1]) == 3:
            extra = [c for c in conjuncts(conds(nctx(r, e))) if c not in conjuncts(cond0) and
                     not (c[0] == "in" and c[1] == v)]
            okn = not extra
    R.check(okn, "eliminate", nbr[0][0].where if nbr else w, "the eliminated node leaves all its neighbours",
            "its neighbours keep a link to it", unsure=not nbr and any(x[1][0] == "a" and x[1][2] == NB for x in rem))
    top = [x for x in rem if x[1][0] == "a" and x[1][2] == "nodes" and x[2][3][-1:] == (v,)]
    R.check(bool(top) and conds(nctx(r, top[0][0])) == cond0, "eliminate", top[0][0].where if top else w,
            "the eliminated node leaves the working graph", "it stays")
    if top:
        g = top[0][1][1]
        left = A(g, "nodes")
        some = [sized(c, left, 1) for c in conjuncts(cond0)]
        R.check(True if set(conjuncts(cond0)) <= {left} else False if mk_not(left) in conjuncts(cond0) or cond0 == F or False in some else
                True if all(some) and all(sized(c, left, 2) for c in conjuncts(cond0)) else None, "eliminate",
                e0.where, "elimination goes on until no node is left", f"goes on while {short(cond0)}")
        R.check(is_graph_copy(g, gm) and g != gm, "eliminate", top[0][0].where, "elimination runs on a copy of the graph",
                short(g), unsure=imprecise(g))
    # fill-in
    L = links(r)
    here, theirs = set(), set()
    for e, ctx, a, b in L:
        fl = fors(ctx)
        src = source(fl[-1][2])
        okp = src[0] == "call" and src[1] == G("itertools.combinations") and len(src[2]) == 2 and src[2][1] == const(2)
        if not okp:
            R.check(None, "fill-in", e.where, "every pair of the cluster is connected", f"pairs come from {short(src)}")
            continue
        scope = ems(src[2][0])
        got = {i[1] if not fors(c) else source(fors(c)[-1][2]) for c, i in scope if i[0] == "x"}
        full = A(v, NB) in got or source(src[2][0]) == A(v, NB)
        R.check(full and all(conds(c) == T for c, _ in scope), "fill-in", e.where, "every pair of neighbours of the eliminated node is considered",
                f"pairs come from {short(src, 250)}", unsure=imprecise(src))
        el = ("el", fl[-1][1])
        x, y = ("i", el, const(0)), ("i", el, const(1))
        if (a, b) in ((x, y), (y, x)):
            here.add((a, b) == (x, y))
            ga, gb = a, b
        elif (node_key(a), node_key(b)) in ((A(x, "name"), A(y, "name")), (A(y, "name"), A(x, "name"))):
            theirs.add(node_key(a) == A(x, "name"))
            ga, gb = x, y
        else:
            R.check(False, "fill-in", e.where, "a fill-in edge joins the pair", f"{short(a)} - {short(b)}", unsure=imprecise(a) or imprecise(b))
            continue
        g = [c for c in conjuncts(conds(ctx)) if c not in conjuncts(cond0)]
        g = adjacency_guard(mk_and(*g), ga, gb)
        g = adjacency_guard(mk_and(*g), a, b) if g else g
        once(R, "fill-in", e, ctx)
        R.check(not g, "fill-in", e.where, "no missing edge is skipped", f"only if {short(mk_and(*g))}", unsure=any(map(imprecise, g)))
        if nbr:
            R.check(e.pos < min(z[0].pos for z in nbr + top), "fill-in", e.where, "neighbours are connected before the node is removed",
                    "the node is removed first")
    R.check(here == {True, False}, "fill-in", w, "each fill-in edge is recorded at both ends",
            f"recorded at {len(here)} ends", unsure=not L and any(e["method"] in ("append", "add", "update", "extend") and e["obj"][0] != "ref"
                                                                  for e in r.ev("mut")))
    R.check(theirs == {True, False}, "fill-in", w, "each fill-in edge is also added to the caller's graph, at both ends",
            f"recorded at {len(theirs)} ends", unsure=not L and any(e["method"] in ("append", "add", "update", "extend") and e["obj"][0] != "ref"
                                                                    for e in r.ev("mut")))
    # record_cliques
    r = R.run(B + "record_cliques")
    s = R.spec(r.func, """
def spec(cliques, cluster):
    if not any(cluster.issubset(c.nodes) for c in cliques):
        cliques.append(Clique(cluster))
""")
    against(R, "record", r, [s], lambda k, o, e: k in ("mut", "setitem"), "a cluster is recorded unless a recorded one contains it")
    R.floor(22)


def sized(c, coll, n):
    """a condition on the number of members of coll, at n members (None: not such a condition)"""
    if c == coll:
        return n > 0
    if c[0] == "not":
        v = sized(c[1], coll, n)
        return None if v is None else not v
    if c[0] in ("<", "<=", "==", ">", ">=") and len(c) == 3:
        v = [n if x[0] == "call" and x[1] == G("builtins.len") and one_each(x[2][0]) == coll else x[1] if is_const(x) else None for x in c[1:]]
        if all(isinstance(x, int) for x in v):
            a, b = v
            return {"<": a < b, "<=": a <= b, "==": a == b, ">": a > b, ">=": a >= b}[c[0]]
    return None


def one_each(t):
    """the collection t has one member (or key) for each member of"""
    s = source(t)
    es = ems(s)
    if s[0] == "seq" and len(es) == 1 and len(fors(es[0][0])) == 1 and conds(es[0][0]) == T and len(fors(es[0][0])[0]) == 3:
        return source(fors(es[0][0])[0][2])
    return s


def filtered(r):
    """o.attr = [n for n in o.attr if n is not v], as a removal of v from o.attr"""
    out = []
    for e in r.ev("setattr"):
        v, o = norm(r.interp.snap(e["value"], r.st)), norm(r.interp.snap(e["obj"], r.st))
        es = ems(v)
        if v[0] != "seq" or len(es) != 1 or len(fors(es[0][0])) != 1 or e["attr"] not in (NB, "nodes"):
            continue
        L = fors(es[0][0])[0]
        el, c = ("el", L[1]), conds(es[0][0])
        if len(L) != 3 or es[0][1] != ("x", el) or c[0] != "not" or c[1][0] not in ("is", "==") or el not in c[1][1:]:
            continue
        if source(L[2]) != A(o, e["attr"]):
            continue
        gone = c[1][2] if c[1][1] == el else c[1][1]
        out.append((e, A(o, e["attr"]), ("m", A(o, e["attr"]), "remove", (gone,), ())))
    return out


def name_guard(c):
    """a != b on the two parents themselves"""
    return c[0] == "not" and c[1][0] in ("==", "is")


def node_key(t):
    """nodes[k] of a mapping by name -> k; or a direct node -> its name"""
    if t[0] == "i" and (t[1][0] in ("seq",) or contains(t[1], lambda x: x[0] == "seq")):
        return t[2]
    return None


def allnodes(g, dag):
    """g is a graph whose nodes are one new node per dag node"""
    if g[0] != "new":
        return None
    s = source(g[2][0]) if g[2] else NONE
    e = ems(s)
    if len(e) == 1 and len(fors(e[0][0])) == 1:
        L = fors(e[0][0])[0]
        coll = source(L[2])
        if conds(e[0][0]) != T:
            return False
        if coll == A(dag, "nodes"):
            return True
        c2 = ems(coll)
        if len(c2) == 1 and conds(c2[0][0]) == T and len(fors(c2[0][0])) == 1:
            return source(fors(c2[0][0])[0][2]) == A(dag, "nodes")
    return None


def is_graph_copy(t, g):
    if t == g:
        return True
    if t[0] == "call" and t[1] == G("copy.deepcopy") and t[2][:1] == (g,):
        return True
    return False


def eliminated(clu):
    """cluster description -> (eliminated node v, cluster mapped into another graph?)"""
    es = ems(source(clu) if clu[0] != "seq" else clu)
    base, mapped = None, False
    if len(es) == 1 and len(fors(es[0][0])) == 1 and conds(es[0][0]) == T:
        L = fors(es[0][0])[0]
        it = es[0][1]
        if it[0] == "x" and node_key(it[1]) == A(("el", L[1]), "name"):
            mapped = True
        base = L[2]
    elif len(es) == 2:
        base = clu
        mapped = all(i[0] == "x" and node_key(i[1]) is not None for _, i in es)
        es2 = []
        for c, i in es:
            k = node_key(i[1]) if mapped else None
            if k is None or k[0] != "a" or k[2] != "name":
                return None, mapped
            es2.append((c, ("x", k[1])))
        return pair_cluster(es2), mapped
    if base is None:
        return None, mapped
    return pair_cluster(ems(base)), mapped


def pair_cluster(es):
    if len(es) != 2:
        return None
    one = [i[1] for c, i in es if not fors(c) and conds(c) == T]
    rest = [(fors(c)[0], i[1]) for c, i in es if len(fors(c)) == 1 and conds(c) == T]
    if len(one) == 1 and len(rest) == 1 and rest[0][1] == ("el", rest[0][0][1]) and \
            source(rest[0][0][2]) == A(one[0], NB):
        return one[0]
    return None


# ---------------------------------------------------------------------------------------------- C11
def c11(R):
    # sepset label and mass
    r = R.run(B + "SepSet.__init__")
    X, Y = P(r.func.params[1]), P(r.func.params[2])
    lab = [e for e in r.ev("setattr") if e["attr"] == "label"]
    specs = [R.spec(r.func, s) for s in ("""
def spec(self, X, Y):
    self.label = list(X.nodes.intersection(Y.nodes))
""", """
def spec(self, X, Y):
    self.label = list(Y.nodes.intersection(X.nodes))
""", """
def spec(self, X, Y):
    self.label = [n for n in X.nodes if n in Y.nodes]
""", """
def spec(self, X, Y):
    self.label = [n for n in Y.nodes if n in X.nodes]
""", """
def spec(self, X, Y):
    self.label = list(X.nodes & Y.nodes)
""")]
    want = [norm(s.final(s.ev("setattr")[0]["value"])) for s in specs]
    if not lab:
        R.bad("sepset", r.func.where, "a sepset is the intersection of its two cliques", "no label is set")
    for e in lab:
        v = norm(r.final(e["value"]))
        v = alpha(v)
        ok = any(same(strip_order(v), strip_order(alpha(x))) for x in want)
        R.check(ok, "sepset", e.where, "a sepset is the intersection of its two cliques", short(v), unsure=imprecise(v))
    r = R.run(B + "SepSet.mass")
    R.check(norm(r.final(r.ret)) == ("call", G("builtins.len"), (A(SELF, "label"),), ()), "mass", r.func.where,
            "the mass of a sepset is its number of variables", short(r.final(r.ret)), unsure=imprecise(r.final(r.ret)))
    # insertable
    r = R.run(B + "SepSet.insertable")
    fo = P(r.func.params[1])
    ret = norm(r.final(r.ret))
    t = ret[1] if ret[0] == "not" else None
    ok = None
    if t is not None and t[0] in ("is", "=="):
        a, b = tree_of(t[1], fo), tree_of(t[2], fo)
        if a and b:
            ok = {a, b} == {A(SELF, "X"), A(SELF, "Y")}
        elif by_name(ret):
            ok = False
    elif ret[0] in ("is", "==") and tree_of(ret[1], fo):
        ok = False
    elif ret in (const(True), const(False)):
        ok = False
    R.check(ok, "insertable", r.func.where, "a sepset may be inserted only between two different trees", short(ret, 300),
            unsure=imprecise(ret))
    # insert
    r = R.run(B + "SepSet.insert")
    fo = P(r.func.params[1])
    muts = [(e, norm(r.interp.snap(e["obj"], r.st)), norm(r.interp.snap(e["term"], r.st))) for e in r.ev("mut")]
    news = [e for e in r.ev("construct") if e["cls"].name == "JoinTreeSepSetNode"] if r.ev("construct") and hasattr(r.ev("construct")[0].data.get("cls"), "name") else r.ev("construct")
    links_ = set()
    nodes_added, merged, removed = set(), set(), []
    for e, o, t in muts:
        arg = t[3][-1] if t[0] == "m" and t[3] else NONE
        c = conds(nctx(r, e))
        fl = fors(nctx(r, e))
        if e["method"] in ("append", "add") and not fl and c == T:
            if is_new(arg) and o[0] == "a" and o[2] == NB:
                links_.add((o[1], "ss"))
            elif is_new(arg) and o[0] == "a" and o[2] == "nodes":
                nodes_added.add(tree_of(o[1], fo))
            elif arg[0] == "a" and arg[2] == "node":
                links_.add(("ss", arg))
            else:
                pass
        elif e["method"] == "append" and len(fl) == 1 and arg == ("el", fl[0][1]) and o[0] == "a" and o[2] == "nodes":
            src = source(fl[0][2])
            g = [x for x in conjuncts(c) if not (x[0] == "not" and x[1] == ("in", arg, o))]
            if src[0] == "a" and src[2] == "nodes" and not g:
                merged.add((tree_of(o[1], fo), tree_of(src[1], fo)))
        elif e["method"] in ("extend", "update") and not fl and o[0] == "a" and o[2] == "nodes":
            s = source(arg)
            es = ems(arg)
            if s[0] == "a" and s[2] == "nodes":
                merged.add((tree_of(o[1], fo), tree_of(s[1], fo)))
            elif len(es) == 1 and source(fors(es[0][0])[0][2])[0] == "a":
                merged.add((tree_of(o[1], fo), tree_of(source(fors(es[0][0])[0][2])[1], fo)))
            elif [1 for x in es if is_new(x[1][1])]:
                nodes_added.add(tree_of(o[1], fo))
        elif e["method"] in ("remove", "discard") and o == fo and c == T:
            removed.append(tree_of(arg, fo))
    w = r.func.where
    for side in ("X", "Y"):
        nd = A(SELF, side, "node")
        R.check((nd, "ss") in links_, "insert", w, f"the {side} clique gets the sepset as neighbour", "link missing")
        R.check(("ss", nd) in links_, "insert", w, f"the sepset gets the {side} clique as neighbour", "link missing")
    XT, YT = A(SELF, "X"), A(SELF, "Y")
    keep = [x for x in (XT, YT) if x not in removed]
    R.check(len(removed) == 1 and removed[0] in (XT, YT), "insert", w, "one of the two trees leaves the forest", f"removed {removed}")
    if len(removed) == 1 and removed[0] in (XT, YT):
        k, gone = keep[0], removed[0]
        R.check((k, gone) in merged, "insert", w, "the kept tree receives every node of the dropped tree", f"{merged}",
                unsure=any(None in m for m in merged))
        R.check(k in nodes_added or (gone in nodes_added and (k, gone) in merged), "insert", w, "the kept tree receives the sepset node",
                f"added to {nodes_added}", unsure=None in nodes_added)
    # assembly
    r = R.run(B + "build_join_tree", opaque=("make_undirected_copy", "make_moralized_copy", "triangulate", "insertable", "insert",
                                             "SepSet.mass", "SepSet.cost"))
    dag = P(r.func.params[0])
    w = r.func.where
    tri = [e for e in r.ev("call") if e["name"] == "triangulate"]
    if not tri:
        R.bad("assembly", w, "cliques come from triangulating the moral graph", "no triangulation")
        R.floor(12)
        return
    tt = norm(r.interp.snap(tri[0]["term"], r.st))
    cl = ("i", tt, const(0))
    a = dict(tt[3])
    MU, MM = "causalnex.ebaybbn.bbn.make_undirected_copy", "causalnex.ebaybbn.bbn.make_moralized_copy"
    gm = norm(r.interp.snap(tri[0]["args"].get("gm", NONE), r.st))
    okg = gm[0] == "call" and gm[1] == G(MM) and dict(gm[3]).get("dag") == dag and \
        dict(gm[3]).get("gu", NONE)[0] == "call" and dict(gm[3])["gu"][1] == G(MU) and dict(dict(gm[3])["gu"][3]).get("dag") == dag
    R.check(okg, "assembly", tri[0].where, "cliques come from triangulating the moral graph of the network", short(gm),
            unsure=imprecise(gm))
    # one tree per clique, whose node is registered on the clique
    reg = [e for e in r.ev("setattr") if e["attr"] == "node"]
    okr = False
    for e in reg:
        fl = fors(nctx(r, e))
        o = norm(r.interp.snap(e["obj"], r.st))
        v = norm(r.final(e["value"]))
        okr = okr or (len(fl) == 1 and source(fl[0][2]) == cl and o == ("el", fl[0][1]) and conds(nctx(r, e)) == T and
                      is_new(v) and contains(v, lambda x: x == o) and len(fl[0]) == 3)
    R.check(okr, "assembly", w, "every clique is represented by a node of its own", "clique.node is not set for every clique",
            unsure=any(imprecise(norm(r.final(e["value"]))) for e in reg))
    # candidates
    ins = [e for e in r.ev("call") if e["name"] == "insert"] + [e for e in r.ev("mcall") if e["name"] == "insert"]
    inb = [e for e in r.ev("call") if e["name"] == "insertable"]
    if not ins or not inb:
        R.bad("assembly", w, "insertable sepsets are inserted", "no call of insert" if not ins else "no call of insertable")
        R.floor(12)
        return
    e = ins[0]
    cand = norm(r.interp.snap(e["args"].get("self", e.get("obj")) if isinstance(e["args"], dict) else e["obj"], r.st))
    c = conds(nctx(r, e))
    chosen = T
    if cand[0] == "first":
        # next(candidate for candidate in order if insertable)
        cl_extra = fors(cand[1])
        chosen = mk_and(conds(cand[1]), cand[2])
        cand = cand[3]
    elif cand[0] == "call" and cand[1][0] == "g" and cand[1][1] in ("builtins.min", "builtins.max") and len(cand[2]) == 1:
        cl_extra = [("for", -7, ("sorted", cand[2][0], dict(cand[3]).get("key", NONE), const(cand[1][1] == "builtins.max")))]
        es = ems(cand[2][0])
        if len(es) == 1 and len(fors(es[0][0])) == 1 and es[0][1] == ("x", ("el", fors(es[0][0])[0][1])):
            chosen = subst(conds(es[0][0]), lambda x: ("el", -7) if x == es[0][1][1] else None)
        cand = ("el", -7)
    else:
        cl_extra = []
    need = [x for x in conjuncts(mk_and(c, chosen)) if x[0] == "call" and x[1][1].endswith(".insertable")]
    okc = any(dict(x[3]).get("self") == cand for x in need)
    R.check(okc, "assembly", e.where, "a sepset is inserted only when it joins two trees", f"inserted if {short(c, 250)}",
            unsure=imprecise(cand) and not need)
    # order of candidates
    cl_loop = [x for x in fors(nctx(r, e)) if x[2][0] != "while"] + cl_extra
    pool, keyt, elem = sort_key(cand, cl_loop, r)
    if keyt is None:
        R.und("max-mass", e.where, "candidates are tried in order of decreasing mass", short(cand, 250))
    else:
        k0 = keyt[1][0] if keyt[0] == "tuple" and keyt[1] else keyt
        okm = is_neg_mass(k0, elem)
        R.check(okm, "max-mass", e.where, "candidates are tried in order of decreasing mass", f"ordered by {short(keyt)}",
                unsure=imprecise(keyt))
    # pool = all pairs
    if pool is not None:
        okp, msg = pool_all_pairs(r, pool, cl)
        R.check(okp, "all-pairs", w, "every pair of cliques is a candidate sepset", msg)
    else:
        R.und("all-pairs", w, "every pair of cliques is a candidate sepset")
    # loop bound
    wl = [x for x in fors(nctx(r, e)) if x[2][0] == "while"]
    okb = None
    if wl:
        cnd = norm(r.interp.loops[wl[0][1]].get("cond", NONE))
        n1 = ("op", "-", ("call", G("builtins.len"), (cl,), ()), const(1))
        lens = ("call", G("builtins.len"), (cl,), ())
        if cnd[0] == "<" and cnd[2] == n1:
            okb = True
        elif cnd[0] == "<" and cnd[1] == const(1) and contains(cnd[2], lambda x: x == G("builtins.len")):
            okb = True
        elif contains(cnd, lambda x: x == lens):
            okb = False
    elif contains(("_",) + tuple(x[2] for x in fors(nctx(r, e))), lambda x: x == ("op", "-", ("call", G("builtins.len"), (cl,), ()), const(1))):
        okb = True
    elif len(fors(nctx(r, e))) == 1 and len(fors(nctx(r, e))[0]) == 3 and fors(nctx(r, e))[0][2][0] in ("sorted", "seq"):
        # one pass over every candidate, none left out (see all-pairs): whatever can be joined is joined
        okb = True
    R.check(okb, "single-tree", w, "sepsets are inserted until n cliques are joined by n-1 of them", "other bound")
    cnt = [x for x in r.ev("aug") if x["op"] == "+" and x["value"] == const(1)]
    if wl and cnt:
        R.check(equivalent(conds(nctx(r, cnt[0])), c), "single-tree", cnt[0].where, "the count of inserted sepsets follows the insertions",
                f"counted if {short(conds(nctx(r, cnt[0])), 200)}")
    R.floor(14)


def by_name(t):
    """trees are told apart by the names of their nodes (several cliques may have the same name), not by the cliques"""
    return contains(t, lambda x: x[0] in ("==", "in") and contains(x, lambda y: y[0] == "a" and y[2] == "name" or
                                                                   y[0] == "call" and y[1] in (G("builtins.repr"), G("builtins.str")))) and \
        not contains(t, lambda y: y[0] == "a" and y[2] in ("clique", "node"))


def strip_order(t):
    return source(t) if t[0] in ("sorted",) else t


def is_new(t):
    return t[0] == "new" or t[0] == "ref"


def tree_of(t, forest):
    """the member of the forest that holds clique q: returns q"""
    el = None
    if t[0] == "i" and is_const(t[2]) and t[1][0] == "seq":
        es = ems(t[1])
        if len(es) == 1 and es[0][1][0] == "x" and len(fors(es[0][0])) == 1 and source(fors(es[0][0])[0][2]) == forest:
            c = conds(es[0][0])
            el = (c, ("el", fors(es[0][0])[0][1]))
    elif t[0] in ("first", "firstor", "pick"):
        fl = fors(t[1])
        if len(fl) == 1 and source(fl[0][2]) == forest:
            c = mk_and(conds(t[1]), *[x for x in t[2:3] if isinstance(x, tuple)])
            el = (conds(t[1]) if t[0] != "first" else c, ("el", fl[0][1]))
    if el is None:
        return None
    c, e = el
    for x in (A(SELF, "X"), A(SELF, "Y")):
        if contains(c, lambda y: y == x) and contains(c, lambda y: y[0] == "a" and y[2] == "clique"):
            return x
    return None


def sort_key(cand, loops, r):
    """(pool collection, key term, element) of the ordering that cand is drawn from"""
    for L in reversed(loops):
        if not contains(cand, lambda x: x == ("el", L[1])):
            continue
        coll = norm(r.interp.snap(L[2], r.st))
        rev = False
        while True:
            if coll[0] == "seq" and len(coll[2]) == 1 and coll[2][0][2][0] == "base":
                coll = coll[2][0][2][1]
            elif coll[0] == "reversed":
                rev = not rev
                coll = coll[1]
            else:
                break
        if coll[0] != "sorted":
            return None, None, None
        inner, key = coll[1], coll[2]
        if len(coll) > 3 and coll[3] in (const(True), T):
            rev = not rev
        es = ems(inner)
        if len(es) == 1 and len(fors(es[0][0])) == 1 and es[0][1][0] == "x" and is_new(es[0][1][1]):
            # a list of new sepsets sorted by a key
            el = es[0][1][1]
            item, pool = el, inner
        elif len(es) == 1 and len(fors(es[0][0])) == 1 and es[0][1][0] == "x":
            fl = fors(es[0][0])[0]
            item = es[0][1][1]
            el = ("el", fl[1])
            pool = fl[2] if conds(es[0][0]) == T else None
        else:
            el = ("el", -1)
            item, pool = el, inner
        if key in (None, NONE):
            k = item
        elif key[0] == "lambda":
            from sa.terms import subst
            k = subst(key[2], lambda x: item if x == ("lp", 0) else None)
            k = simp_slice(k)
        else:
            return pool, None, el
        if rev:
            k = ("neg", k if k[0] != "tuple" else k[1][0])
        return pool, k, el
    return None, None, None


def simp_slice(k):
    if k[0] == "i" and k[1][0] == "tuple":
        ix = k[2]
        if is_const(ix) and isinstance(ix[1], int):
            return k[1][1][ix[1]]
        if ix[0] == "slice":
            lo = 0 if ix[1] in (None, NONE) else ix[1][1]
            hi = None if ix[2] in (None, NONE) else ix[2][1]
            return ("tuple", tuple(k[1][1][lo:hi]))
    return k


def is_neg_mass(k, s):
    m = lambda x: x == A(s, "mass") or (x[0] == "call" and x[1][1].endswith("SepSet.mass") and dict(x[3]).get("self") == s)
    if k[0] in ("neg",) and m(k[1]) or k[:2] == ("op", "neg") and m(k[2]):
        return True
    if k[0] == "op" and k[1] == "*" and {const(-1)} & set(k[2:]) and any(m(x) for x in k[2:]):
        return True
    if k[0] == "op" and k[1] == "-" and k[2] == const(0) and m(k[3]):
        return True
    if contains(k, m):
        return False
    return False


def pool_all_pairs(r, pool, cl):
    """the pool starts as SepSet over combinations(cliques, 2), unfiltered"""
    inits = [pool]
    for x in walk(pool):
        if x[0] == "lvc":
            c = r.interp.loops.get(x[1], {}).get("carried", {}).get(x[2])
            if c and c[0] is not None:
                inits.append(norm(r.interp.snap(("seq", "set", tuple(("em", k, i) for k, i in c[0].ems)), r.st))
                             if not isinstance(c[0], tuple) else norm(c[0]))
    for t in inits:
        for ctx, it in ems(t):
            if it[0] != "x" or not is_new(it[1]):
                continue
            fl = fors(ctx)
            if len(fl) == 1:
                s = source(fl[0][2])
                if s[0] == "call" and s[1][1] in ("itertools.combinations", "itertools.permutations", "itertools.product"):
                    ok = source(s[2][0]) == cl and (s[2][1:2] == (const(2),))
                    full = conds(ctx) == T
                    return (ok and full, f"pairs from {short(s)}" + ("" if full else f" if {short(conds(ctx))}"))
                if s[0] == "call" and s[1] == G("builtins.zip"):
                    return False, f"pairs from {short(s)}"
                if s == cl:
                    return False, "one pair per clique"
            elif len(fl) == 2 and source(fl[0][2]) == cl:
                return (None, f"pairs if {short(conds(ctx))}")
    return None, f"pool {short(pool)}"


# ---------------------------------------------------------------------------------------------- C12
def c12(R):
    # --- conditional table function
    r = R.run(B + "make_node_func")
    vn, cnds = P(r.func.params[0]), P(r.func.params[1])
    w = r.func.where
    it = r.interp
    va = ("p", "$args")
    fn = r.ret
    st = r.st.copy()
    val = None
    try:
        val = norm(it.snap(it.apply(fn, [("star", va)], {}, st, r.func.node), st))
    except Exception as ex:  # noqa: the closure could not be applied
        R.und("table", w, "the node function looks its arguments up", str(ex))
    if val is not None:
        ok = None
        if val[0] == "i":
            tab, key = val[1], val[2]
            rows = ems(tab)
            ks = ems(key)
            okk = None
            zipok = contains(key, lambda x: x == va)
            if len(ks) == 1 and len(fors(ks[0][0])) == 1:
                okk = zipok and conds(ks[0][0]) == T
            elif source(key)[0] == "call" and source(key)[1] == G("builtins.zip"):
                okk = zipok
            R.check(okk, "table", w, "the table is looked up by (argument name, value) in argument order", short(key, 250))
            good = [x for x in rows if x[1][0] == "kv"]
            if len(good) == 1:
                ctx, (_, k, v) = good[0]
                fl = fors(ctx)
                okl = len(fl) == 2 and source(fl[0][2]) == cnds and all(len(x) == 3 for x in fl)
                el = ("el", fl[0][1]) if fl else NONE
                okl = okl and source(fl[1][2]) == ("i", el, const(1))
                R.check(okl and conds(ctx) == T, "table", w, "every row and every state of a conditional enters the table",
                        f"{[short(x[2]) for x in fl]} if {short(conds(ctx))}", unsure=imprecise(("_",) + tuple(x[2] for x in fl)))
                if okl:
                    state = ("el", fl[1][1])
                    vv = ("i", ("i", el, const(1)), state)
                    R.check(v == vv, "table", w, "a row stores its own probability", short(v), unsure=imprecise(v))
                    kk = ems(k)
                    last = kk[-1][1] if kk else NONE
                    okc = len(kk) == 2 and last == ("x", ("tuple", (vn, state)))
                    okp, unsure = None, True
                    if len(kk) == 2 and fors(kk[0][0]):
                        pc = fors(kk[0][0])[0][2]
                        pe = ("el", fors(kk[0][0])[0][1])
                        item = kk[0][1]
                        pairs = item in (("x", ("tuple", (("i", pe, const(0)), ("i", pe, const(1))))), ("x", pe))
                        okp = source(pc) == ("i", el, const(0)) and conds(kk[0][0]) == T and pairs
                        R.check(is_sorted(pc), "parent-order", w, "parents are put in alphabetical order in every row", short(pc),
                                unsure=imprecise(pc))
                        unsure = imprecise(k)
                    R.check(okp, "table", w, "a row is keyed by all its parents' values", short(k, 250), unsure=unsure)
                    R.check(okc, "table", w, "a row's key ends with the node's own value", short(k, 250), unsure=len(kk) != 2)
            else:
                R.und("table", w, "rows of the table", f"{len(good)} kinds of rows")
        else:
            R.check(None, "table", w, "the node function looks its arguments up", short(val))
    # argument order = key order
    aspec = [e for e in it.events if e.kind in ("setattr_local", "setattr") and e["attr"] == "argspec"]
    for e in aspec:
        v = norm(r.final(e["value"]))
        es = ems(v)
        ok = None
        if v[0] in ("sorted", "reversed"):
            ok = False
        elif len(es) == 1 and len(fors(es[0][0])) == 1:
            x = es[0][1]
            L = fors(es[0][0])[0]
            ok = (x == ("x", ("i", ("el", L[1]), const(0))) and conds(es[0][0]) == T and L[2][0] not in ("sorted", "reversed")) or None
            if x[0] == "x" and x[1] == ("i", ("el", L[1]), const(1)):
                ok = False
            if conds(es[0][0]) != T:
                ok = False
        R.check(ok, "argspec", e.where, "the argument order is the order of the names in the table's keys", short(v, 250))
    dom = [e for e in it.events if e.kind in ("setattr_local", "setattr") and e["attr"] == "_domain"]
    for e in dom:
        v = norm(r.final(e["value"]))
        es = ems(v)
        ok = len(es) == 1 and len(fors(es[0][0])) == 2 and conds(es[0][0]) == T and source(fors(es[0][0])[0][2]) == cnds and \
            es[0][1] == ("x", ("el", fors(es[0][0])[1][1]))
        R.check(ok, "domain", e.where, "a node's domain is every state of its conditional", short(v), unsure=imprecise(v))
    if not aspec or not dom:
        R.bad("argspec", w, "the node function declares its arguments and domain", f"argspec {len(aspec)}, domain {len(dom)}")
    nm = [e for e in it.events if e.kind in ("setattr_local", "setattr") and e["attr"] == "__name__"]
    R.check(bool(nm) and all(contains(norm(r.final(e["value"])), lambda x: x == vn) for e in nm), "unique-name", w,
            "node functions are named after their variable", "the name does not depend on the variable")
    # --- network from conditionals
    r = R.run(B + "build_bbn_from_conditionals", opaque=("make_node_func", "build_bbn"))
    specs = [R.spec(r.func, """
def spec(conds):
    fs = [make_node_func(k, conds[k]) for k in conds]
    return build_bbn(*fs, domains={k: make_node_func(k, conds[k])._domain for k in conds})
""", opaque=("make_node_func", "build_bbn")), R.spec(r.func, """
def spec(conds):
    fs = [make_node_func(k, conds[k]) for k in conds]
    return build_bbn(fs, domains={k: make_node_func(k, conds[k])._domain for k in conds})
""", opaque=("make_node_func", "build_bbn"))]
    ret_against(R, "from-conditionals", r, specs, "every conditional becomes a node with its domain")
    # --- wiring
    r = R.run(B + "build_bbn", opaque=("get_args", "get_original_factors"))
    w = r.func.where
    ret = norm(r.final(r.ret))
    app = [(e, norm(r.interp.snap(e["obj"], r.st)), norm(r.interp.snap(e["term"], r.st))) for e in r.ev("mut") if e["method"] == "append"]
    seen = {}
    GA = "causalnex.ebaybbn.utils.get_args"
    GO = "causalnex.ebaybbn.utils.get_original_factors"
    for e, o, t in app:
        if o[0] != "a" or o[2] not in ("parents", "children"):
            continue
        fl = fors(nctx(r, e))
        arg = t[3][-1]
        child, parent = (o[1], arg) if o[2] == "parents" else (arg, o[1])
        okl = len(fl) == 2 and all(len(x) == 3 for x in fl)
        ga = source(fl[1][2]) if okl else NONE
        okl = okl and ga[0] == "call" and ga[1] == G(GA) and (dict(ga[3]).get("func") in (child, A(child, "func")))
        okp = okl and parent[0] == "i" and parent[2] == ("el", fl[1][1]) and contains(parent[1], lambda x: x == G(GO))
        c = conds(nctx(r, e))
        g = [x for x in conjuncts(c) if not (x[0] == "not" and x[1][0] in ("==", "is") and set(x[1][1:]) == {parent, child})]
        okg = len(conjuncts(c)) - len(g) == 1
        R.check(okp, "wiring", e.where, f"a node's {o[2]} are the factors of its other arguments" if o[2] == "parents" else
                "a factor's children are the nodes taking it as argument",
                f"{short(parent)} -> {short(child)}", unsure=imprecise(parent) or imprecise(child) or not okl)
        R.check(not g and okg, "wiring", e.where, f"every argument other than the node itself adds to {o[2]}",
                f"only if {short(mk_and(*g)) if g else 'also for itself'}", unsure=any(map(imprecise, g)))
        seen[o[2]] = True
    for k in ("parents", "children"):
        if k not in seen:
            R.bad("wiring", w, f"{k} are connected", f"nothing is added to {k}")
    dm = [e for e in r.events if e.kind in ("setattr", "setattr_local") and e["attr"] == "domains"]
    kw = P(r.func.node.args.kwarg.arg) if r.func.node.args.kwarg else P("domains")
    okd = False
    if dm:
        v = norm(r.final(dm[-1]["value"]))
        okd = contains(v, lambda x: x == kw or x == P("domains")) and conds(nctx(r, dm[-1])) == T
    R.check(okd, "wiring", w, "the network keeps the given domains", "domains are not stored")
    # variable names
    r = R.run(B + "BBN.__init__")
    nd = P(r.func.params[1])
    vs = [e for e in r.ev("setattr") if e["attr"] == "variable_name"]
    okv = False
    for e in vs:
        fl = fors(nctx(r, e))
        o = norm(r.interp.snap(e["obj"], r.st))
        v = norm(r.final(e["value"]))
        okv = okv or (len(fl) == 1 and source(fl[0][2]) == nd and o == ("i", nd, ("el", fl[0][1])) and v == ("el", fl[0][1]) and
                      conds(nctx(r, e)) == T)
    R.check(okv, "wiring", r.func.where, "each node carries the name of the variable it introduces", "variable_name not set so",
            unsure=any(imprecise(norm(r.final(e["value"]))) for e in vs))
    # what a network is made of is what it was given
    for attr, want, what in (("nodes", None, "a network holds every given node"), ("domains", P("domains"), "a network keeps the given domains")):
        es = [e for e in r.ev("setattr") if e["attr"] == attr and norm(r.interp.snap(e["obj"], r.st)) == SELF]
        if not es:
            R.bad("wiring", r.func.where, what, f".{attr} is never set")
            continue
        e = es[-1]
        v = norm(r.final(e["value"]))
        if want is None:
            it = ems(v)
            full = source(v) == ("m", nd, "values", (), ()) or (len(it) == 1 and len(fors(it[0][0])) == 1 and source(fors(it[0][0])[0][2]) == nd and
                                                                conds(it[0][0]) == T and it[0][1] == ("x", ("i", nd, ("el", fors(it[0][0])[0][1]))))
        else:
            full = source(v) == want or contains(v, lambda x: x == want) and v[0] in ("ite", "or", "call")
        R.check(full and conds(nctx(r, e)) == T, "wiring", e.where, what, f"is {short(v)} if {short(conds(nctx(r, e)))}", unsure=imprecise(v))
    # original factors: one variable per factor
    r = R.run("ebaybbn.utils.get_original_factors", opaque=("get_args",))
    ret = norm(r.final(r.ret))
    kv = [(c, i) for c, i in ems(ret) if i[0] == "kv"]
    ok, msg = None, short(ret, 250)
    if len(kv) == 1:
        c, (_, k, v) = kv[0]
        fl = fors(c)
        if fl and v == ("el", fl[-1][1]) and source(fl[-1][2]) == P(r.func.params[0]):
            ok = k[0] == "i" and is_const(k[2]) and contains(k, lambda x: x[0] == "not" and x[1][0] == "in")
            one = [x for x in conjuncts(conds(c)) if x[0] == "==" and const(1) in x[1:] and contains(x, lambda y: y == G("builtins.len"))]
            more = [x for x in conjuncts(conds(c)) if x not in one and contains(x, lambda y: y[0] == "el")]
            ok = ok and bool(one) and (not more or (None if imprecise(("_",) + tuple(more)) else False))
            msg = f"{short(k)} -> factor if {short(conds(c))}"
    R.check(ok, "introduces", r.func.where, "a variable belongs to the factor whose only unseen argument it is", msg)
    # the arguments of a factor: the declared ones, or else all those of its signature, in their order
    r = R.run("ebaybbn.utils.get_args")
    fn = P(r.func.params[0])
    rets = [(e, norm(r.final(e["value"]))) for e in r.ev("return") if len(e.stack) == 1]
    full = norm(r.final(r.ret))
    bad = contains(full, lambda x: x[0] in ("sorted", "reversed", "set", "slice"))
    bad = bad or contains(full, lambda x: x[0] == "seq" and any(conds(c) != T and not has_argspec(conds(c), fn) for c, _ in ems(x)))
    said = contains(full, lambda x: x == A(fn, "argspec") or x[0] == "call" and x[1] == G("builtins.getattr") and
                    x[2][:2] == (fn, const("argspec")))
    R.check(not bad and (said or None), "args", r.func.where, "the arguments of a factor are all it declares, in that order", short(full, 300),
            unsure=bad and imprecise(full))
    R.floor(12)


def has_argspec(c, fn):
    return contains(c, lambda x: x == const("argspec"))


def is_sorted(c):
    while True:
        if c[0] == "sorted":
            return c[2] in (None, NONE) or key_first(c[2])
        if c[0] == "seq" and len(c[2]) == 1 and c[2][0][2][0] == "base":
            c = c[2][0][2][1]
        elif c[0] == "call" and c[1][1] in ("builtins.list", "builtins.tuple"):
            c = c[2][0]
        else:
            return False


def key_first(k):
    return k[0] == "lambda" and k[2] in (("lp", 0), ("i", ("lp", 0), const(0)))


CHECKS = {"C05": (c05, ""), "C11": (c11, ""), "C12": (c12, "")}
