"""Exact-inference engine: purity, evidence, potentials, messages, results, sampling."""
from sa.effects import Roots, effects
from sa.rule import (A, ANY, G, LEN, P, SELF, V, alpha, canon_event, conds, ems, equivalent, find, fors, imprecise,
                     length, match, matches, ncond, ncond_ok, nctx, norm, same, source, truncated)
from sa.terms import (F, NONE, T, assume, atoms, conjuncts, const, contains, implies, is_const, mk_and, mk_not, mk_or,
                      show, walk)

B = "ebaybbn.bbn."
TRUEFALSE = {const(True), const(False)}


def where(r):
    return r.func.where


def short(t, n=160):
    s = show(norm(t)) if isinstance(t, tuple) else str(t)
    return s if len(s) <= n else s[:n] + "…"


# ---------------------------------------------------------------------------------------------- C01
def network_reads(r, rt, attr, roots):
    """does anything in the analysis read .attr of an object that may belong to the same roots?"""
    def reads(t):
        return contains(t, lambda x: x[0] == "a" and x[2] == attr and rt.roots(x[1]) & roots)
    for e in r.events:
        for k, v in e.data.items():
            if k in ("old", "term") and e.kind in ("setattr", "delattr"):
                continue
            if isinstance(v, tuple) and reads(r.interp.snap(v, r.st)):
                return True
            if k == "args":
                vs = v.values() if isinstance(v, dict) else v
                if any(isinstance(x, tuple) and reads(r.interp.snap(x, r.st)) for x in vs):
                    return True
        if any(isinstance(c, tuple) and reads(c) for c in e.ctx):
            return True
    return reads(r.final(r.ret))


def pure(R, rule, qual, opaque=(), allowed=lambda e: False, what=None, selfcls=None, dead_ok=True):
    r = R.run(qual, opaque=opaque, selfcls=selfcls)
    rt = Roots(r)
    n = 0
    for e in effects(r, rt):
        if allowed(e):
            continue
        if dead_ok and e.kind == "setattr" and e.attr and e.attr != "*" and not network_reads(r, rt, e.attr, e.roots):
            R.ok(rule, e.where, f"{r.func.qual}: write of .{e.attr} is never read back")
            continue
        n += 1
        R.bad(rule, e.where, f"{r.func.qual} -> {e.fn}",
              f"{e.how or e.kind} on {short(e.target)} reaches {', '.join(sorted(short(x) for x in e.roots))}")
    if n == 0:
        R.ok(rule, r.func.where, what or f"{r.func.qual} mutates nothing it did not create")
    return r


def c01(R):
    pure(R, "query-pure", B + "BBN.query")
    pure(R, "query-pure", B + "BBN.draw_samples", opaque=("BBN.query",))
    pure(R, "query-pure", B + "BBN.build_join_tree")
    pure(R, "query-pure", B + "build_join_tree")
    pure(R, "query-pure", B + "BBN.validate_keyvals")
    pure(R, "query-pure", B + "BBN.get_graphviz_source")
    pure(R, "query-pure", B + "make_undirected_copy")
    pure(R, "query-pure", B + "make_moralized_copy")
    pure(R, "query-pure", B + "JoinTree.assign_clusters")
    pure(R, "query-pure", B + "JoinTree.marginal")
    # the join tree used by a query is built by that query
    r = R.run(B + "BBN.query", opaque=("build_join_tree", "assign_clusters", "initialize_potentials", "propagate",
                                       "marginal", "validate_keyvals"))
    for name in ("initialize_potentials", "propagate", "marginal"):
        for e in r.ev("call"):
            if e["name"] == name:
                jt = norm(r.interp.snap(e["args"].get("self", NONE), r.st))
                fresh = jt[0] == "call" and jt[1][0] == "g" and jt[1][1].endswith(".build_join_tree")
                R.check(fresh or (None if imprecise(jt) else False), "fresh-tree", e.where, f"query: {name} on a tree built by this call",
                        f"{name} runs on {short(jt)}")


# ---------------------------------------------------------------------------------------------- C02
def c02(R):
    r = R.run(B + "BBN.query", opaque=("build_join_tree", "assign_clusters", "initialize_potentials", "propagate",
                                       "marginal"))
    f = r.func
    kw = P(f.node.args.kwarg.arg) if f.node.args.kwarg else None
    spec = R.spec(f, f'''
def spec(self, {kw[1]}):
    for k in {kw[1]}:
        if k not in {{n.variable_name for n in self.nodes}}:
            raise VariableNotInGraphError(k)
        if {kw[1]}[k] not in self.domains.get(k, (True, False)):
            raise VariableValueNotInDomainError(k)
''') if kw else None
    if spec is None:
        R.und("evidence-validated", f.where, "query", "query no longer takes evidence as keyword arguments")
        return
    want = {e["name"]: canon_event(e.ctx, NONE) for e in spec.raises()}
    got = {}
    for e in r.raises():
        got.setdefault(e["name"], []).append(e)
    for name, w in want.items():
        evs = got.get(name, [])
        if not evs:
            R.bad("evidence-validated", f.where, f"query raises {name}", f"no reachable raise of {name} in query")
            continue
        verdicts = []
        for e in evs:
            c = canon_event(e.ctx, NONE)
            # the condition may be stated with the earlier raise already excluded
            other = mk_or(*[x[1] for n, x in want.items() if n != name])
            v = None
            if c[0] == w[0]:
                v = equivalent(mk_and(c[1], mk_not(other)), mk_and(w[1], mk_not(other)))
            elif imprecise(("_",) + c[0] + (c[1],)):
                v = None
            else:
                v = False
            if v is False and contains(c[1], lambda x: x[0] in ("subset", "disjoint") and kw in x[1:] or
                                       x[0] == "ex" and contains(x, lambda y: y[0] == "for" and contains(y[2], lambda z: z == kw))):
                v = None        # asked of all the evidence at once
            verdicts.append((v, e, c))
        v, e, c = max(verdicts, key=lambda x: (x[0] is True, x[0] is None))
        R.check(v, "evidence-validated", e.where, f"query raises {name} for exactly the invalid evidence",
                f"raised for {[short(x) for x in c[0]]} if {short(c[1], 300)}; required: if {short(w[1], 300)}")
        # no handler swallows it, and nothing returns before it
        first_ret = min([x.pos for x in r.events if x.kind == "return" and len(x.stack) == 1], default=10 ** 9)
        use = min([x.pos for x in r.ev("call") if x["name"] == "initialize_potentials"], default=first_ret)
        R.check(e.pos < min(first_ret, use), "validated-first", e.where, f"{name} precedes the use of the evidence",
                "evidence is used before it is validated")
    # unconditional: the check is not skipped for some calls
    used = [e for e in r.ev("call") if e["name"] == "initialize_potentials"]
    for e in used:
        ev = norm(r.interp.snap(e["args"].get("evidence", NONE), r.st))
        R.check(source(ev) == kw or (None if imprecise(ev) else False), "evidence-passed", e.where,
                "the validated evidence is what inference receives", f"inference receives {short(ev)}")
    R.floor(3)


# ---------------------------------------------------------------------------------------------- C03
def is_cliques(coll, me):
    """all clique nodes of the join tree"""
    coll = source(norm(coll))
    if coll == A(me, "clique_nodes"):
        return True
    return False


def vars_of(t, clique):
    """t denotes (an ordering of) the variable names of clique"""
    s = source(norm(t))
    if s == A(clique, "variable_names"):
        return True
    for ctx, it in ems(s):
        if it[0] == "x" and len(fors(ctx)) == 1 and it[1] == A(("el", ctx[0][1]), "variable_name") and \
                contains(ctx[0][2], lambda x: x == clique) and conds(ctx) == T:
            return True
    return False


def get_args_of(node):
    return lambda t: t[0] == "call" and t[1] == G("causalnex.ebaybbn.utils.get_args") and \
        dict(t[3]).get("func") in (A(node, "func"), node)


def c03_assign(R):
    r = R.run(B + "JoinTree.assign_clusters", opaque=("get_args",))
    me, bbn = P(r.func.params[0]), P(r.func.params[1])
    ret = norm(r.final(r.ret))
    rule = "table-once"
    items = [(c, i) for c, i in ems(ret) if i[0] in ("app", "kv")]
    w = r.func.where
    apps = [(c, i) for c, i in items if i[0] == "app"]
    if not apps:
        R.check(None if imprecise(ret) or ret[0] != "seq" else False, rule, w, "assign_clusters assigns tables to cliques",
                f"result is {short(ret)}")
        return
    if len(apps) > 1:
        R.und(rule, w, "assign_clusters assigns in one place", f"{len(apps)} places")
        return
    ctx, (_, key, val) = apps[0]
    fs = fors(ctx)
    node_loops = [e for e in fs if source(e[2]) == A(bbn, "nodes")]
    if not node_loops or val != ("el", node_loops[0][1]):
        R.check(False, rule, w, "every network node is considered", f"assigns {short(val)} for {[short(e[2]) for e in fs]}",
                unsure=imprecise(val))
        return
    R.ok(rule, w, "every network node is considered")
    N = ("el", node_loops[0][1])
    inner = [e for e in fs if e is not node_loops[0]]
    allc = conds(ctx)
    # which condition must hold for the clique
    def clique_terms(c):
        out = []
        for a in conjuncts(c):
            if a[0] == "subset" and get_args_of(N)(source(a[1])):
                out.append(a)
        return out
    def fam_ok(a, clique):
        return vars_of(a[2], clique)
    once = None
    if len(inner) == 1:
        L = inner[0][1]
        C = ("el", L)
        if key != C:
            R.check(None, rule, w, "the table goes to the clique found")
            return
        coll = inner[0][2]
        cs = list(conjuncts(allc))
        # conditions coming from a filtered list of cliques
        sub = [a for a in cs if a[0] == "subset" and get_args_of(N)(source(a[1])) and fam_ok(a, C)]
        other_sub = [a for a in cs if a[0] == "subset" and a not in sub]
        R.check(bool(sub) or (None if imprecise(coll) else False), "family-contained", w,
                "a table is only assigned to a clique containing its whole family",
                f"condition is {short(allc)}" + (f" (wrong containment {short(other_sub[0])})" if other_sub else ""))
        rest = [a for a in cs if a not in sub and not (a[0] == "isinstance" and a[1] == C)]
        guard = [a for a in rest if a[0] == "not" and a[1][0] == "in" and a[1][1] == N and contains(a[1][2], lambda x: x[0] == "lvc")]
        extra = [a for a in rest if a not in guard]
        until = inner[0][3] if len(inner[0]) > 3 else None
        if extra:
            R.check(False, rule, w, "no table is skipped", f"assignment additionally requires {short(mk_and(*extra))}",
                    unsure=any(imprecise(a) for a in extra))
        else:
            R.ok(rule, w, "no table is skipped")
        if guard:
            # N in S, S grows by N at each assignment
            S = guard[0][1][2]
            once = grows_with(r, S, N)
            only_processed(R, r, rule, w, S, N)
        if not once and until is not None:
            loops_here = mk_and(*[a for a in cs])
            once = implies(loops_here, until) is True or once
        if once is None and until is not None:
            pass
        elif once is None:
            once = False
        R.check(once, rule, w, "a table is assigned at most once", "nothing stops a second assignment of the same table")
    elif not inner:
        # the first (or a chosen) containing clique
        k = key
        cand = None
        if k[0] == "i" and k[1][0] == "seq" and is_const(k[2]):
            cand = ems(k[1])
        elif k[0] == "first":
            cand = [(k[1] + (("if", k[2]),), ("x", k[3]))]
        elif k[0] == "call" and k[1][0] == "g" and k[1][1] in ("builtins.min", "builtins.max") and k[2]:
            cand = ems(k[2][0])
        if cand and len(cand) == 1 and cand[0][1][0] == "x" and len(fors(cand[0][0])) == 1 and \
                cand[0][1][1] == ("el", fors(cand[0][0])[0][1]):
            C = cand[0][1][1]
            cs = list(conjuncts(conds(cand[0][0])))
            sub = [a for a in cs if a[0] == "subset" and get_args_of(N)(source(a[1])) and fam_ok(a, C)]
            R.check(bool(sub), "family-contained", w, "a table is only assigned to a clique containing its whole family",
                    f"condition is {short(conds(cand[0][0]))}")
            extra = [a for a in cs if a not in sub and not (a[0] == "isinstance" and a[1] == C)]
            outer = [a for a in conjuncts(allc) if not (cand and implies(mk_and(*[a]), a))]
            ex2 = [a for a in conjuncts(allc) if a[0] not in ("ex", "seq", "subset")]
            seen = [a for a in ex2 if a[0] == "not" and a[1][0] == "in" and a[1][1] == N and grows_with(r, a[1][2], N)]
            for a in seen:
                only_processed(R, r, rule, w, a[1][2], N)
            ex2 = [a for a in ex2 if a not in seen]
            R.check(not extra and not ex2, rule, w, "no table is skipped", f"requires {short(mk_and(*(extra + ex2)))}")
            R.ok(rule, w, "a table is assigned at most once")
        else:
            R.und(rule, w, "clique chosen for a table", f"{short(key)}")
    else:
        R.und(rule, w, "clique chosen for a table", f"{len(inner)} nested loops")


def grows_with(r, S, node):
    """S is a loop-carried set to which node is added whenever an assignment happens"""
    for x in walk(S):
        if x[0] == "lvc":
            c = r.interp.loops.get(x[1], {}).get("carried", {}).get(x[2])
            if c and c[1] is not None:
                for ctx, it in c[1].ems:
                    if it[0] == "x" and it[1] == node:
                        return True
    return False


def only_processed(R, r, rule, w, S, node):
    """nothing but tables that were dealt with counts as dealt with"""
    extra, odd = [], False
    for x in walk(S):
        if x[0] == "lvc":
            c = r.interp.loops.get(x[1], {}).get("carried", {}).get(x[2])
            if c and c[1] is not None:
                for ctx, it in c[1].ems:
                    if it[0] == "base" or it[0] == "x" and (it[1] == node or norm(it[1]) == node):
                        continue
                    extra.append(it[1])
                    odd = odd or it[0] != "x" or imprecise(it[1])
    R.check(not extra, rule, w, "only tables already assigned are passed over", f"also counted as assigned: {[short(x) for x in extra[:2]]}", unsure=False)


def row_of(coll, R, rule, w, clique, bbn, what):
    """coll enumerates every assignment of the clique's variables: itertools.product over per-variable domains"""
    c = source(norm(coll))
    if not (c[0] == "call" and c[1] == G("itertools.product")):
        R.check(None if imprecise(c) else None, rule, w, what, f"rows come from {short(c)}")
        return
    a = c[2]
    if len(a) != 1 or a[0][0] != "star":
        R.und(rule, w, what, f"rows come from {short(c)}")
        return
    inner = ems(a[0][1])
    if len(inner) != 1 or inner[0][1][0] != "x":
        R.und(rule, w, what, f"per-variable lists {short(a[0][1])}")
        return
    ctx, (_, v) = inner[0]
    if len(fors(ctx)) != 1:
        R.und(rule, w, what, f"per-variable lists {short(a[0][1])}")
        return
    L = fors(ctx)[0]
    var = ("el", L[1])
    ok_vars = vars_of(L[2], clique) and conds(ctx) == T
    if ok_vars:
        row_order(R, rule, w, L[2], clique, what)
    R.check(ok_vars, rule, w, what + ": every variable", f"rows enumerate {short(L[2])} if {short(conds(ctx))}",
            unsure=imprecise(L[2]))
    dom = source(v)
    if dom[0] == "call" and dom[1] == G("itertools.product") and len(dom[2]) == 2:
        pair_ok = source(dom[2][0]) == var or [i for _, i in ems(dom[2][0])] == [("x", var)]
        d = dom[2][1]
    else:
        e = ems(v)
        pair_ok = len(e) == 1 and e[0][1] == ("x", ("tuple", (var, ("el", fors(e[0][0])[0][1])))) if e and fors(e[0][0]) else False
        d = fors(e[0][0])[0][2] if e and fors(e[0][0]) else NONE
        if e and conds(e[0][0]) != T:
            pair_ok = False
    R.check(pair_ok, rule, w, what + ": (variable, value) pairs", f"pairs come from {short(v)}", unsure=imprecise(v))
    d = source(d)
    okd = d[0] == "get" and source(d[1]) == A(bbn, "domains") and d[2] == var and default_bool(d[3])
    R.check(okd, rule, w, what + ": every value of the variable's domain", f"values come from {short(d)}",
            unsure=imprecise(d))


def row_order(R, rule, w, coll, owner, what):
    """the variables of a row come in the order in which every cluster lists them, because keys are re-expressed by position"""
    coll = norm(coll)
    while coll[0] == "call" and coll[1] in (G("builtins.list"), G("builtins.tuple")) and len(coll[2]) == 1:
        coll = coll[2][0]
    if coll[0] == "seq" and len(coll[2]) == 1 and not coll[2][0][1] and coll[2][0][2][0] == "base":
        coll = coll[2][0][2][1]
    if coll == A(owner, "variable_names"):
        R.ok(rule, w, what + ": variables in the cluster's own order")
        return
    mine = sorting(coll)
    for cls in ("JoinTreeCliqueNode", "JoinTreeSepSetNode"):
        r = R.run(B + cls + ".variable_names")
        theirs = sorting(norm(r.final(r.ret)))
        v = mine == theirs and mine is not None
        R.check(v, rule, w, what + f": variables in the order in which a {cls} lists them", f"rows are ordered by {mine}, the cluster by {theirs}",
                unsure=imprecise(coll) or mine is None and coll[0] not in ("seq", "a", "reversed"))


def sorting(t):
    """(key, reverse) of a sorted sequence"""
    while t[0] == "sorted" and t[1][0] == "sorted" and t[2] in (None, NONE, const(None)):
        return (None, str(t[3]) in ("True", str(T), str(const(True))))
    if t[0] == "sorted":
        return (None if t[2] in (None, NONE, const(None)) else t[2], str(t[3]) in ("True", str(T), str(const(True))))
    return None


def names_complete(R, rule, cls, path):
    """variable_names lists the variable of every member"""
    r = R.run(B + cls + ".variable_names")
    ret = norm(r.final(r.ret))
    core = ret
    while core[0] == "sorted":
        core = core[1]
    es = ems(core)
    ok = False
    if len(es) == 1 and len(fors(es[0][0])) == 1:
        L = fors(es[0][0])[0]
        ok = source(L[2]) == A(SELF, *path) and len(L) == 3 and conds(es[0][0]) == T and es[0][1] == ("x", A(("el", L[1]), "variable_name")) and \
            not truncated(L[2])
    R.check(ok, rule, r.func.where, f"{cls}.variable_names lists the variable of every member", short(ret), unsure=imprecise(ret) or not es and ret[0] != "i")


def default_bool(t):
    t = source(t)
    if t[0] == "tuple":
        return set(t[1]) == TRUEFALSE
    if t[0] == "seq":
        return {i[1] for _, i in ems(t) if i[0] == "x"} == TRUEFALSE and len(ems(t)) == 2
    return False


def potential_writes(r):
    return [e for e in r.ev("setattr") if e["attr"] == "potential_tt"]


def c03_tables(R):
    r = R.run(B + "JoinTree.initialize_potentials", opaque=("get_args",))
    ps = r.func.params
    me, asg, bbn, evd = (P(x) for x in ps[:4])
    w = r.func.where
    writes = [(e, norm(r.final(e["value"])), norm(r.interp.snap(e["obj"], r.st))) for e in potential_writes(r)]
    prods = []
    for e, v, o in writes:
        for ctx, it in ems(v):
            if it[0] == "kv" and contains(it[2], lambda x: x[0] == "m" and x[2] == "func"):
                prods.append((e, o, ctx, it))
    if not prods:
        R.check(None if any(imprecise(v) for _, v, _ in writes) else False, "joint-product", w,
                "clique potentials are products of the assigned tables", "no potential is computed from a node's table")
        return
    for e, o, ctx, it in prods:
        loops = fors(nctx(r, e))
        okc = bool(loops) and source(loops[0][2]) == asg and o == ("el", loops[0][1])
        R.check(okc, "joint-product", e.where, "the potential of every assigned clique is set", f"sets {short(o)}",
                unsure=imprecise(o))
        C = o
        rows = fors(ctx)
        if len(rows) != 1:
            R.und("joint-product", e.where, "rows of a clique potential")
            continue
        row = ("el", rows[0][1])
        row_of(rows[0][2], R, "joint-rows", e.where, C, bbn, "rows of a clique potential")
        R.check(it[1] == row, "joint-product", e.where, "the product is stored under its own row", f"stored under {short(it[1])}")
        v = it[2]
        if v[0] != "red":
            R.check(False, "joint-product", e.where, "potential = product over assigned tables", f"potential is {short(v)}",
                    unsure=imprecise(v))
            continue
        R.check(v[1] == "*" and v[2] == const(1) or v[2] == const(1.0), "joint-product", e.where,
                "potential = product over assigned tables", f"reduction {v[1]} from {short(v[2])}")
        okr = len(v[3]) == 1
        if okr:
            em = v[3][0]
            fl = fors(em[1])
            okr = len(fl) == 1 and source(fl[0][2]) == ("i", asg, C) and conds(em[1]) == T and len(fl[0]) == 3
            if not okr and len(fl) == 1 and conds(em[1]) != T:
                R.bad("joint-product", e.where, "every assigned table enters the product",
                      f"only if {short(conds(em[1]))}")
            else:
                R.check(okr, "joint-product", e.where, "every assigned table enters the product", f"{short(em)}",
                        unsure=imprecise(em))
            node = ("el", fl[0][1]) if fl else NONE
            call = em[2]
            good = call[0] == "m" and call[1] == node and call[2] == "func" and not call[4] and len(call[3]) == 1 and \
                call[3][0][0] == "star"
            if not good:
                R.check(False, "args-aligned", e.where, "a table is evaluated at the row's values", f"{short(call)}",
                        unsure=imprecise(call))
                continue
            ae = ems(call[3][0][1])
            raw = call[3][0][1]
            ok = len(ae) == 1 and ae[0][1][0] == "x" and len(fors(ae[0][0])) == 1 and conds(ae[0][0]) == T and \
                raw[0] != "sorted"
            if ok:
                al = fors(ae[0][0])[0]
                arg = ("el", al[1])
                ordered = get_args_of(node)(strip_copy(al[2]))
                val = ae[0][1][1]
                look = val[0] == "i" and val[2] == arg and source(val[1]) == row
                R.check(ordered, "args-aligned", e.where, "arguments follow the table's own argument order",
                        f"arguments enumerate {short(al[2])}", unsure=imprecise(al[2]))
                R.check(look, "args-aligned", e.where, "each argument takes the row's value of that variable",
                        f"argument is {short(val)}", unsure=imprecise(val))
            else:
                R.check(False, "args-aligned", e.where, "arguments follow the table's own argument order",
                        f"{short(raw)}", unsure=True)
        else:
            R.und("joint-product", e.where, "every assigned table enters the product")
    # every cluster starts from the all-ones potential
    ones = [(e, v, o) for e, v, o in writes if any(i[0] == "kv" and i[2] in (const(1), const(1.0)) for _, i in ems(v))]
    okn = False
    for e, v, o in ones:
        fl = fors(nctx(r, e))
        if len(fl) == 1 and source(fl[0][2]) == A(me, "nodes") and e.cond == T and o == ("el", fl[0][1]):
            okn = True
            first = min(x.pos for x, _, _, _ in prods)
            R.check(e.pos < first, "ones-first", e.where, "clusters are initialised before tables are multiplied in",
                    "initialisation overwrites the products")
            for ctx, it in ems(v):
                if it[0] == "kv" and fors(ctx):
                    row_of(fors(ctx)[0][2], R, "ones-rows", e.where, o, bbn, "rows of the initial potential")
    R.check(okn or (None if not ones or any(imprecise(v) for _, v, _ in writes) else False), "ones-first", w,
            "every cluster and sepset starts at 1", "no initialisation of every node")


def strip_copy(c):
    """like source but keeps re-orderings visible"""
    while True:
        if c[0] in ("sorted", "reversed"):
            return c
        s = source_once(c)
        if s == c:
            return c
        c = s


def source_once(c):
    if c[0] == "seq" and len(c[2]) == 1:
        ctx, it = c[2][0][1], c[2][0][2]
        if it[0] == "base" and not ctx:
            return it[1]
        if it[0] == "x" and len(ctx) == 1 and ctx[0][0] == "for" and it[1] == ("el", ctx[0][1]) and c[1] != "set":
            return ctx[0][2]
    if c[0] == "m" and c[2] in ("keys", "copy"):
        return c[1]
    if c[0] == "call" and c[1][0] == "g" and c[1][1] in ("builtins.list", "builtins.tuple", "copy.copy") and len(c[2]) == 1:
        return c[2][0]
    return c


def c03(R):
    c03_assign(R)
    c03_tables(R)
    R.floor(8)


# ---------------------------------------------------------------------------------------------- C04
def c04(R):
    r = R.run(B + "JoinTree.initialize_potentials", opaque=("get_args", "initial_likelihoods"))
    ps = r.func.params
    me, asg, bbn, evd = (P(x) for x in ps[:4])
    w = r.func.where
    rule = "evidence-zeroes"
    # candidate places: element writes on a potential, or potentials rebuilt with the evidence
    cands = []
    for e in r.ev("setitem"):
        o = norm(r.interp.snap(e["obj"], r.st))
        if o[0] == "a" and o[2] == "potential_tt":
            cands.append((e, nctx(r, e), o[1], norm(r.interp.snap(e["key"], r.st)), norm(r.final(e["value"]))))
    rebuilt = []
    for e in potential_writes(r):
        v = norm(r.final(e["value"]))
        if contains(("_",) + tuple(v), lambda x: x == evd) or contains(("_", v), lambda x: x == evd):
            rebuilt.append((e, v))
    if not cands and not rebuilt:
        R.bad(rule, w, "evidence enters the potentials", "no potential entry depends on the evidence")
        return
    for e, ctx, clique, key, val in cands:
        ctx = tuple((x[0], x[1], norm(x[2])) + tuple(x[3:]) if x[0] == "for" else (x[0], norm(x[1])) for x in ctx)
        check_zero(R, rule, e.where, ctx, clique, key, val, asg, evd)
    for e, v in rebuilt:
        for c2, it in ems(v):
            if it[0] != "kv":
                continue
            val = it[2]
            o = norm(r.interp.snap(e["obj"], r.st))
            if val[0] == "ite" and (val[2] in (const(0), const(0.0)) or val[3] in (const(0), const(0.0))):
                z = val[1] if val[2] in (const(0), const(0.0)) else mk_not(val[1])
                check_zero(R, rule, e.where, nctx(r, e) + tuple(c2) + (("if", z),), o, it[1], const(0), asg, evd)
            else:
                R.und(rule, e.where, "evidence enters the potentials", f"potential entry {short(val)}")
    pos_prod = [e.pos for e in potential_writes(r)]
    for e, *_ in cands:
        later = [x for x in potential_writes(r) if x.pos > e.pos]
        R.check(not later, "evidence-last", e.where, "evidence is encoded after the potentials are built",
                f"potentials are rebuilt at {later[0].where}" if later else "")
    R.floor(1)


def check_zero(R, rule, w, ctx, clique, key, val, asg, evd):
    """an entry of clique's potential is set to val under ctx: must be exactly 'some assigned, evidenced variable
    has a different value in this row'"""
    what = "an entry is zeroed exactly when it contradicts the evidence"
    R.check(val in (const(0), const(0.0)), rule, w, "contradicting entries become zero", f"they become {short(val)}",
            unsure=imprecise(val))
    fl = fors(ctx)
    cs = conjuncts(mk_and(*[e[1] for e in ctx if e[0] == "if"]))
    cs = [c for c in cs if c != evd]
    K = key
    nodes = [e for e in fl if source(e[2]) == ("i", asg, clique)]
    if not nodes:
        # evidence loop form: for var, value in evidence.items()
        evl = [e for e in fl if source(e[2]) == evd]
        if not evl:
            R.check(False if any(truncated(e[2]) for e in fl) else None, rule, w, what, f"loops {[short(e[2]) for e in fl]}")
            return
        var = ("el", evl[0][1])
        node = None
    else:
        node = ("el", nodes[0][1])
        var = A(node, "variable_name")
    evv = ("i", evd, var)
    # what is compared with the evidence
    pairs = [e for e in fl if e[2] == K or source(e[2]) == K]
    cut = [e for e in fl if e not in pairs and len(e) > 3 and e[3] not in (None, F, NONE)]
    R.check(not cut, rule, w, "no entry is skipped once another has been handled",
            f"the loop over {short(cut[0][2])} stops early" if cut else "", unsure=any(imprecise(e[3]) for e in cut))
    ok_in = node is None
    cmp_ok, unknown, wrong = False, [], []
    names_pair = [var]
    if pairs:
        pe = ("el", pairs[0][1])
        k0, v0 = ("i", pe, const(0)), ("i", pe, const(1))
        eqname = ("==",) + tuple(sorted((k0, var), key=repr))
        name_atoms = [c for c in cs if c[0] == "==" and set(c[1:]) == {k0, var}]
        evs = {evv, ("i", evd, k0)} | {("get", evd, var, NONE), ("get", evd, k0, NONE)}
        for c in cs:
            if c in name_atoms:
                continue
            if c[0] == "in" and c[2] == evd and c[1] in (var, k0):
                ok_in = True
                continue
            if c[0] == "not" and c[1][0] == "==" and v0 in c[1][1:] and (set(c[1][1:]) & evs):
                cmp_ok = True
                continue
            wrong.append(c)
        if not name_atoms:
            wrong.append(("missing", "variable match"))
            if any(c[0] == "in" and c[2] == evd and c[1] == k0 for c in cs) and any(
                    c[0] == "not" and c[1][0] == "==" and set(c[1][1:]) == {v0, ("i", evd, k0)} for c in cs):
                # every evidenced variable of the row is compared: at least as strict, still exact
                wrong = [x for x in wrong if x[0] != "missing"]
    else:
        rowval = lambda t: t[0] == "i" and source(t[1]) == K and t[2] == var
        for c in cs:
            if c[0] == "in" and c[2] == evd and c[1] == var:
                ok_in = True
                continue
            if c[0] == "in" and c[1] == ("tuple", (var, evv)) or (
                    c[0] == "not" and c[1][0] == "in" and c[1][1] == ("tuple", (var, evv)) and source(c[1][2]) == K):
                cmp_ok = c[0] == "not"
                if not cmp_ok:
                    wrong.append(c)
                continue
            if c[0] == "not" and c[1][0] == "==" and any(rowval(x) for x in c[1][1:]) and (evv in c[1][1:]):
                cmp_ok = True
                continue
            if c[0] == "ex":
                m = ex_mismatch(c, K, var, evd)
                if m:
                    cmp_ok = True
                    continue
                unknown.append(c)
                continue
            if node is None and c[0] == "in" and c[1] == var:
                continue
            wrong.append(c)
    bad = [c for c in wrong]
    if unknown:
        R.und(rule, w, what, f"condition {short(mk_and(*unknown))}")
        return
    msg = []
    if bad:
        msg.append("extra or wrong condition " + "; ".join(short(c) if c[0] != "missing" else "no " + c[1] for c in bad))
    if not cmp_ok:
        msg.append("entries are not compared with the observed value")
    if not ok_in:
        msg.append("not restricted to observed variables")
    R.check(not msg, rule, w, what, "; ".join(msg), unsure=any(imprecise(c) for c in bad if c[0] != "missing"))


def ex_mismatch(c, K, var, evd):
    ctx = c[1]
    if len(ctx) != 2 or source(ctx[0][2]) != K:
        return False
    pe = ("el", ctx[0][1])
    k0, v0 = ("i", pe, const(0)), ("i", pe, const(1))
    cs = conjuncts(ctx[1][1])
    a = any(x[0] == "==" and set(x[1:]) == {k0, var} for x in cs)
    b = any(x[0] == "not" and x[1][0] == "==" and v0 in x[1][1:] and
            (set(x[1][1:]) & {("i", evd, var), ("i", evd, k0)}) for x in cs)
    return a and b and len(cs) == 2


# ---------------------------------------------------------------------------------------------- C06
def c06(R):
    r = R.run(B + "JoinTree.propagate", opaque=("collect_evidence", "distribute_evidence"))
    me, start = P(r.func.params[0]), P(r.func.params[1])
    w = r.func.where
    col = [e for e in r.ev("call") if e["name"] == "collect_evidence"]
    dis = [e for e in r.ev("call") if e["name"] == "distribute_evidence"]
    ok = len(col) == 1 and len(dis) == 1
    R.check(ok or (False if not col or not dis else None), "two-phases", w, "one collect and one distribute phase",
            f"{len(col)} collect calls, {len(dis)} distribute calls")
    if ok:
        c, d = col[0], dis[0]
        R.check(c.pos < d.pos, "two-phases", d.where, "collect precedes distribute", "distribute runs first")
        for e, n in ((c, "collect"), (d, "distribute")):
            ec = ncond_ok(r, e)
            R.check(ec == T and not e.loops, "two-phases", e.where, f"{n} always runs", f"only if {short(ec)}",
                    unsure=bool(e.loops))
        s1, s2 = (norm(r.interp.snap(e["args"].get("sender", NONE), r.st)) for e in (c, d))
        R.check(same(s1, s2), "same-root", d.where, "both phases start from the same clique", f"{short(s1)} vs {short(s2)}",
                unsure=imprecise(s1) or imprecise(s2))
        for e, n in ((c, "collect"), (d, "distribute")):
            rc = e["args"].get("receiver", NONE)
            R.check(rc == NONE, "same-root", e.where, f"{n} starts without a receiver", f"receiver {short(rc)}")
        un = [e for e in r.ev("setattr") if e["attr"] == "marked" and e["value"] == F and covers_cliques(r, e, me)]
        a = [e for e in un if e.pos < c.pos]
        b = [e for e in un if c.pos < e.pos < d.pos]
        R.check(bool(a), "unmark", w, "all cliques are unmarked before collect", "a stale mark stops the collect phase")
        R.check(bool(b), "unmark", w, "all cliques are unmarked between the phases", "marks left by collect stop distribute")
    # collect
    phase(R, "collect_evidence", before=False)
    phase(R, "distribute_evidence", before=True)
    # neighbouring cliques: every clique behind every adjacent sepset
    n = R.run(B + "JoinTreeCliqueNode.neighbouring_cliques")
    s = P(n.func.params[0])
    ret = norm(n.final(n.ret))
    e = ems(ret)
    ok = None
    if len(e) == 1 and e[0][1][0] == "x" and len(fors(e[0][0])) == 2:
        f1, f2 = fors(e[0][0])
        ok = source(f1[2]) == A(s, "neighbours") and source(f2[2]) == A(("el", f1[1]), "neighbours") and \
            e[0][1][1] == ("el", f2[1])
        cs = conjuncts(conds(e[0][0]))
        ex = [c for c in cs if not (c[0] == "not" and c[1][0] in ("is", "==") and set(c[1][1:]) == {("el", f2[1]), s})]
        ok = ok and not ex and len(f1) == 3 and len(f2) == 3
    elif contains(ret, lambda x: x[0] == "seq" and any(i[0] == "kv" and i[1][0] == "a" and i[1][2] in ("name", "variable_names")
                                                       for _, i in ems(x))):
        ok = False      # cliques may share a name: only one of them would be reached
    R.check(ok, "neighbours-complete", n.func.where, "every clique across every adjacent sepset is a neighbour", short(ret, 300))
    # query runs the phases between initialisation and reading marginals
    q = R.run(B + "BBN.query", opaque=("build_join_tree", "assign_clusters", "initialize_potentials", "propagate", "marginal",
                                       "validate_keyvals"))
    pos = {}
    for e in q.ev("call"):
        pos.setdefault(e["name"], []).append(e)
    if all(k in pos for k in ("initialize_potentials", "propagate", "marginal")):
        i, p, m = pos["initialize_potentials"][0], pos["propagate"][0], pos["marginal"][0]
        R.check(max(e.pos for e in pos["initialize_potentials"]) < p.pos < m.pos, "phase-order", p.where,
                "query: initialise, propagate, then read marginals", "marginals are read from unpropagated potentials")
        pc = ncond_ok(q, p)
        R.check(pc == T, "phase-order", p.where, "query always propagates", f"only if {short(pc)}")
    else:
        miss = [k for k in ("initialize_potentials", "propagate", "marginal") if k not in pos]
        R.bad("phase-order", q.func.where, "query: initialise, propagate, then read marginals", f"no call of {miss}")
    R.floor(10)


def covers_cliques(r, e, me):
    o = norm(r.interp.snap(e["obj"], r.st))
    fl = fors(nctx(r, e))
    if len(fl) != 1 or o != ("el", fl[0][1]) or len(fl[0]) > 3:
        return False
    src = source(norm(fl[0][2]))
    cs = [c for c in conjuncts(e.cond) if not (c[0] == "isinstance" and c[1] == o)]
    if cs:
        return False
    if src in (A(me, "nodes"), A(me, "clique_nodes")):
        return True
    for ctx, it in ems(src):
        if it[0] == "x" and len(fors(ctx)) == 1 and source(fors(ctx)[0][2]) == A(me, "nodes") and \
                it[1] == ("el", fors(ctx)[0][1]) and \
                all(c[0] == "isinstance" and c[1] == it[1] for c in conjuncts(conds(ctx))):
            return True
    return False


def phase(R, name, before):
    r = R.run(B + "JoinTree." + name, opaque=("pass_message", "neighbouring_cliques"))
    ps = r.func.params
    S, Rc = P("sender"), P("receiver")
    w = r.func.where
    rec = [e for e in r.ev("call") if e["name"] == name]
    msg = [e for e in r.ev("call") if e["name"] == "pass_message"]
    mark = [e for e in r.ev("setattr") if e["attr"] == "marked" and e["value"] == T and e["obj"] == S]
    R.check(bool(mark) and all(e.cond == T and not e.loops for e in mark[:1]), "marks", w, f"{name} marks its clique",
            "the clique is not marked visited")
    if not rec or not msg:
        R.bad("messages", w, f"{name} recurses and passes messages",
              f"{len(rec)} recursive calls, {len(msg)} messages")
        return
    if mark:
        R.check(mark[0].pos < min(e.pos for e in rec), "marks", mark[0].where, f"{name} marks before visiting neighbours",
                "neighbours can visit back an unmarked clique")

    def over_unmarked(e, target):
        fl = fors(nctx(r, e))
        if len(fl) != 1 or source(norm(fl[0][2])) != A(S, "neighbouring_cliques") or target != ("el", fl[0][1]):
            return None
        cs = conjuncts(norm(e.cond))
        return cs == [mk_not(A(target, "marked"))] and len(fl[0]) == 3
    for e in rec:
        t = norm(e["args"].get("sender", NONE))
        v = over_unmarked(e, t)
        R.check(v, "visits", e.where, f"{name} visits every unmarked neighbouring clique",
                f"visits {short(t)} if {short(e.cond)}")
        rc = norm(e["args"].get("receiver", NONE))
        R.check(rc == S, "visits", e.where, f"{name} passes itself as the neighbour's receiver", f"receiver is {short(rc)}")
    for e in msg:
        a, b = norm(e["args"].get("self", NONE)), norm(e["args"].get("target", NONE))
        if before:
            v = over_unmarked(e, b)
            R.check(v if v is None else v and a == S, "messages", e.where, "distribute sends to every unmarked neighbour",
                    f"{short(a)} -> {short(b)} if {short(e.cond)}")
            R.check(e.pos < min(x.pos for x in rec), "messages", e.where, "distribute sends before it descends",
                    "descends before sending")
        else:
            ok = a == S and b == Rc and not e.loops and norm(e.cond) in (mk_not(("is", NONE, Rc)), mk_not(("is", Rc, NONE)), Rc)
            R.check(ok, "messages", e.where, "collect sends from the clique to its receiver",
                    f"{short(a)} -> {short(b)} if {short(e.cond)}", unsure=bool(e.loops))
            R.check(e.pos > max(x.pos for x in rec), "messages", e.where, "collect sends after its subtree has reported",
                    "sends before collecting from neighbours")


# ---------------------------------------------------------------------------------------------- C07
TR = "causalnex.ebaybbn.bbn.transform"


def tr_args(t):
    if t[0] == "call" and t[1] == G(TR):
        d = dict(t[3])
        return d.get("x"), d.get("X"), d.get("R")
    return None


def is_varnames(t, owner):
    return source(norm(t)) == A(owner, "variable_names") or vars_of(t, owner)


def c07(R):
    r = R.run(B + "JoinTreeCliqueNode.pass_message", opaque=("transform",))
    me, tg = P(r.func.params[0]), P(r.func.params[1])
    w = r.func.where
    sets = r.ev("setattr")
    olds = [e for e in sets if e["attr"] == "potential_tt_old"]
    pots = [e for e in sets if e["attr"] == "potential_tt"]
    tgt = [e for e in pots if norm(e["obj"]) == tg]
    sep = [e for e in pots if norm(e["obj"]) != tg]
    if not tgt or not sep:
        R.check(None if any(imprecise(norm(r.final(e["value"]))) for e in pots) else False, "message", w,
                "a message updates the sepset and the target", f"{len(sep)} sepset and {len(tgt)} target updates")
        return
    sp, tp = sep[-1], tgt[-1]
    SP = norm(r.interp.snap(sp["obj"], r.st))
    # the sepset is a common neighbour
    common = contains(SP, lambda x: x == A(me, "neighbours")) and contains(SP, lambda x: x == A(tg, "neighbours"))
    if contains(SP, lambda x: x[0] == "m" and x[2] in ("union", "symmetric_difference", "difference") or x[0] == "op" and x[1] in ("|", "^")):
        common = False
    R.check(common, "sepset", sp.where, "the message goes through the sepset shared by the two cliques", short(SP),
            unsure=imprecise(SP))
    # projection
    pv = norm(r.final(sp["value"]))
    pe = ems(pv)
    ok = None
    msg = short(pv)
    if len(pe) == 1 and pe[0][1][0] in ("acc", "kv") and len(fors(pe[0][0])) == 1:
        ctx, it = pe[0]
        L = fors(ctx)[0]
        k = ("el", L[1])
        if it[0] == "kv":
            ok = False
            msg = f"entries overwrite each other instead of being summed: {short(pv)}"
        else:
            ta = tr_args(it[2])
            ok = it[1] == "+" and source(L[2]) == A(me, "potential_tt") and conds(ctx) == T and \
                it[3] == ("i", A(me, "potential_tt"), k)
            if ta is None:
                ok = None if ok else False
            else:
                ok = ok and ta[0] == k and is_varnames(ta[1], me) and is_varnames(ta[2], SP)
    elif len(pe) == 1:
        ok = None
    R.check(ok, "project", sp.where, "the sepset receives the sum of the sender's entries that agree with it", msg,
            unsure=imprecise(pv))
    R.check(sp.cond == T and tp.cond == T, "project", sp.where, "both updates always happen",
            f"if {short(mk_and(sp.cond, tp.cond))}")
    # the old potential
    tv = norm(r.final(tp["value"]))
    R.check(sp.pos < tp.pos, "absorb", tp.where, "the sepset is updated before the target absorbs it", "")
    te = ems(tv)
    if len(te) != 1 or te[0][1][0] != "kv" or len(fors(te[0][0])) != 1:
        R.check(None, "absorb", tp.where, "target entry = entry * new / old", short(tv))
        return
    ctx, it = te[0]
    L = fors(ctx)[0]
    k = ("el", L[1])
    T0 = A(tg, "potential_tt")
    cell = ("i", T0, k)
    R.check(source(L[2]) == T0 and conds(ctx) == T and it[1] == k, "absorb", tp.where, "every entry of the target is updated",
            f"{short(L[2])} if {short(conds(ctx))} key {short(it[1])}", unsure=imprecise(L[2]))
    v = it[2]
    zero = {const(0), const(0.0)}
    guard, expr = T, v
    if v[0] == "ite":
        if v[2] in zero or v[2] == cell:
            guard, expr = mk_not(v[1]), v[3]
        elif v[3] in zero or v[3] == cell:
            guard, expr = v[1], v[2]
    num, den = [], []

    def split(t, sign):
        if t[0] == "op" and t[1] == "*" and len(t) == 4:
            split(t[2], sign)
            split(t[3], sign)
        elif t[0] == "op" and t[1] == "/" and len(t) == 4:
            split(t[2], sign)
            split(t[3], not sign)
        else:
            (num if sign else den).append(t)
    split(expr, True)
    isnew = lambda t: t[0] == "i" and norm(t[1]) in (pv, A(SP, "potential_tt")) and entry_ok(t[2])
    def entry_ok(e):
        ta = tr_args(e)
        return ta is not None and ta[0] == k and is_varnames(ta[1], tg) and is_varnames(ta[2], SP)
    oldv = [norm(r.final(e["value"])) for e in olds if norm(r.interp.snap(e["obj"], r.st)) == SP]
    first_sp = min(e.pos for e in sep)

    def captured(t):
        """t is the sepset potential as it was before this message"""
        t0 = t
        t = source(t)
        return t == A(SP, "potential_tt") or t0 == A(SP, "potential_tt")
    def isold(t):
        return t[0] == "i" and entry_ok(t[2]) and captured_raw(t[1])
    def captured_raw(t):
        if t[0] == "a" and t[2] == "potential_tt_old":
            return None
        return captured(t)
    okn = len(num) == 2 and cell in num and any(isnew(x) for x in num)
    okd = len(den) == 1 and isold(den[0])
    R.check(okn, "absorb", tp.where, "numerator: entry times the new sepset value of the matching key",
            f"numerator {[short(x) for x in num]}", unsure=any(imprecise(x) for x in num))
    R.check(okd, "absorb", tp.where, "denominator: the sepset value before this message, at the matching key",
            f"denominator {[short(x) for x in den]}", unsure=any(imprecise(x) for x in den))
    # versions: the old value must be read before the overwrite
    for e in olds:
        R.check(e.pos < first_sp, "old-captured", e.where, "the previous sepset potential is kept before it is overwritten",
                "the sepset potential is overwritten first, so new/old is always 1")
    if not olds and okd:
        R.ok("old-captured", tp.where, "the previous sepset potential is kept in a local")
    # zero guard
    if den:
        zs = {("==",) + tuple(sorted((z, x), key=repr)) for z in zero for x in (cell, den[0])}
        pairs = [{"==", z, x} for z in zero for x in (cell, den[0])]
        g_atoms = atoms(guard)
        # guard must be false when the divisor is zero; divisor 0 implies entry 0 is the propagation invariant
        falsy = {mk_not(z) for z in zs} | {cell, den[0]}
        cs = conjuncts(guard)
        ok = any(c in falsy for c in cs)
        bad = [c for c in cs if c not in falsy]
        R.check((ok and not bad) or (None if any(imprecise(c) for c in cs) else False), "zero-guard", tp.where,
                "0/0 is never evaluated and nothing else is zeroed", f"division happens if {short(guard)}")
    names_complete(R, "transform", "JoinTreeCliqueNode", ("clique", "nodes"))
    names_complete(R, "transform", "JoinTreeSepSetNode", ("sepset", "label"))
    # transform
    t = R.run(B + "transform")
    x, X, Rr = (P(n) for n in t.func.params[:3])
    ret = norm(t.final(t.ret))
    e = ems(ret)
    ok = None
    if len(e) == 1 and e[0][1][0] == "x" and len(fors(e[0][0])) == 1:
        L = fors(e[0][0])[0]
        el = ("el", L[1])
        v = e[0][1][1]
        ok = strip_copy(L[2]) == Rr and conds(e[0][0]) == T
        by_index = v[0] == "i" and v[1] == x and v[2][0] == "m" and v[2][1] == X and v[2][2] == "index" and v[2][3] == (el,)
        by_dict = v[0] == "i" and v[2] == el and contains(v[1], lambda y: y == X) and contains(v[1], lambda y: y == x)
        ok = ok and (by_index or (by_dict or None))
        if ok is False and imprecise(v):
            ok = None
    R.check(ok, "transform", t.func.where, "a key is re-expressed variable by variable in the target order", short(ret))
    R.floor(8)


# ---------------------------------------------------------------------------------------------- C08
def c08(R):
    r = R.run(B + "BBN.query", opaque=("build_join_tree", "assign_clusters", "initialize_potentials", "propagate",
                                       "marginal", "validate_keyvals"))
    me = P(r.func.params[0])
    kw = P(r.func.node.args.kwarg.arg) if r.func.node.args.kwarg else NONE
    ret = norm(r.final(r.ret))
    w = r.func.where
    MARG = "causalnex.ebaybbn.bbn.JoinTree.marginal"
    what = "query returns an entry for every state of every node"

    def marg(t):
        return t[0] == "call" and t[1] == G(MARG)
    alts = [(T, ret)]
    if ret[0] == "ite":
        alts = [(ret[1], ret[2]), (mk_not(ret[1]), ret[3])]
    for gcond, rv in alts:
        items = ems(rv)
        fill = [(c, i) for c, i in items if i[0] == "kv"]
        divs = [(c, i) for c, i in items if i[0] == "acc"]
        base = []
        for c, i in fill:
            ls = fors(c)
            if any(source(l[2]) == A(me, "nodes") for l in ls) and any(marg(source(l[2])) for l in ls):
                base.append((c, i))
        if not fill:
            R.check(None if imprecise(rv) or rv[0] != "seq" else False, "complete", w, what, short(rv))
            continue
        normd = []
        for c, i in fill:
            if (c, i) in base:
                continue
            normd.append((c, i))
        if base:
            c, i = base[0]
            ls = fors(c)
            N = ("el", [l for l in ls if source(l[2]) == A(me, "nodes")][0][1])
            ml = [l for l in ls if marg(source(l[2]))][0]
            M = source(ml[2])
            K = ("el", ml[1])
            cs = conds(c)
            R.check(dict(M[3]).get("bbn_node") == N, "complete", w, "each node's own marginal is read", short(M))
            R.check(cs == T and all(len(l) == 3 for l in ls), "complete", w, what, f"only if {short(cs)}", unsure=imprecise(cs))
            R.check(i[1] == ("i", K, const(0)), "keyed", w, "entries are keyed by (variable, value)", f"key is {short(i[1])}",
                    unsure=imprecise(i[1]))
            v = i[2]
            plain = ("i", M, K)
            okv = v == plain
            if okv:
                R.ok("complete", w, "entries carry the marginal's value")
            else:
                normd.append((c, i))
        else:
            R.und("complete", w, what, short(rv))
        # normalisation under evidence
        found = False
        for c, i in divs + normd:
            if i[0] == "acc" and i[1] != "/":
                R.bad("normalised", w, "entries are normalised by division", f"{short(i)}")
                continue
            den = i[3] if i[0] == "acc" else None
            guard = mk_and(gcond, conds(c))
            if den is None:
                v = i[2]
                if v[0] == "ite":
                    for g2, x in ((v[1], v[2]), (mk_not(v[1]), v[3])):
                        if x[0] == "op" and x[1] == "/":
                            guard, v = mk_and(guard, g2), x
                            break
                if v[0] == "op" and v[1] == "/":
                    den = v[3]
            if den is None:
                R.und("normalised", w, "entries are normalised under evidence", short(i))
                continue
            found = True
            key = i[2] if i[0] == "acc" else i[1]
            check_norm(R, w, den, key, guard, kw, me, marg, c)
        if not found and gcond != mk_not(kw):
            sums = contains(ret, lambda x: x[0] == "op" and x[1] == "/")
            R.check(None if sums or imprecise(ret) else False, "normalised", w, "entries are normalised under evidence",
                    "no division by a per-variable total")
    # marginal
    m = R.run(B + "JoinTree.marginal", opaque=("transform",))
    node = P(m.func.params[1])
    mv = norm(m.final(m.ret))
    e = ems(mv)
    ok, msg = None, short(mv)
    if len(e) == 1 and len(fors(e[0][0])) == 1:
        ctx, it = e[0]
        L = fors(ctx)[0]
        k = ("el", L[1])
        pot = source(L[2])
        if truncated(L[2]):
            ok = False
        elif it[0] == "kv":
            ok, msg = False, "entries overwrite each other instead of being summed"
        elif it[0] == "acc" and pot[0] == "a" and pot[2] == "potential_tt":
            C = pot[1]
            ok = it[1] == "+" and conds(ctx) == T and it[3] == ("i", pot, k)
            ta = tr_args(it[2])
            if ta:
                ok = ok and ta[0] == k and is_varnames(ta[1], C) and \
                    [i[1] for _, i in ems(ta[2])] == [A(node, "variable_name")] or \
                    (ok and ta[2] == ("tuple", (A(node, "variable_name"),)))
            elif ok:
                ok = None
    R.check(ok, "marginal", m.func.where, "a marginal sums every entry of a clique that contains the node", msg, unsure=imprecise(mv))
    # the clique read contains the node
    if ok:
        pot = source(fors(e[0][0])[0][2])
        C = pot[1]
        cand = ems(C[1]) if C[0] == "i" and is_const(C[2]) else ([(C[1] + (("if", C[2]),), ("x", C[3]))] if C[0] == "first" else [])
        if C[0] == "call" and C[1] in (G("builtins.min"), G("builtins.max")) and len(C[2]) == 1:
            cand = ems(C[2][0])
        okc = None
        for cx, i in cand:
            c = conds(cx)
            el = i[1]
            inn = [a for a in conjuncts(c) if contains(a, lambda y: y in (node, A(node, "name"), A(node, "variable_name")))]
            okc = any(holds_variable(a, el, node) for a in inn) and i[0] == "x" or (
                None if imprecise(c) or any(a[0] not in ("ex", "in", "==", "not") or
                                            a[0] == "in" and a[2] not in (A(el, "name"), A(el, "clique", "name")) for a in inn) else False)
        R.check(okc, "marginal", m.func.where, "the clique it reads contains the node", short(C, 250))
    R.floor(5)


def holds_variable(c, clique, node):
    """the condition says that the clique contains the node"""
    sides = lambda el: [{A(el, a), A(node, a)} for a in ("name", "variable_name")]
    if c[0] == "ex":
        fl = fors(c[1])
        if len(fl) != 1:
            return False
        el, coll = ("el", fl[0][1]), source(fl[0][2])
        f = conds(c[1])
        if f[0] != "==":
            return False
        if coll == A(clique, "clique", "nodes"):
            return set(f[1:]) in sides(el)
        return vars_of(fl[0][2], clique) and set(f[1:]) == {el, A(node, "variable_name")}
    if c[0] == "in" and c[1] == A(node, "variable_name"):
        return vars_of(c[2], clique)
    return False


def check_norm(R, w, den, key, guard, kw, me, marg, ctx):
    """den must be the sum of the same variable's masses; guarded against zero; applied iff there is evidence"""
    what = "an entry is divided by the total mass of its own variable"
    tot = None
    if den[0] == "i" and den[1][0] == "seq":
        d = ems(den[1])
        tk = den[2]
        ok = None
        if len(d) == 1 and d[0][1][0] == "acc":
            c, it = d[0]
            ls = fors(c)
            if it[1] != "+":
                ok = False
            elif len(ls) == 2 and source(ls[0][2]) == A(me, "nodes") and marg(source(ls[1][2])):
                K = ("el", ls[1][1])
                M = source(ls[1][2])
                name = it[2] in (("i", ("i", K, const(0)), const(0)), A(("el", ls[0][1]), "variable_name"))
                val = it[3] == ("i", M, K)
                extra = [x for x in conjuncts(conds(c)) if x != kw]
                ok = name and val and not extra
            elif len(ls) == 1:
                # totals over the entries of the result
                K = ("el", ls[0][1])
                ok = it[2] == ("i", K, const(0)) and it[3] == ("i", ls[0][2], K) and conds(c) in (T, kw)
        keyvar = ("i", key, const(0))
        if ok:
            ok = tk == keyvar or tk[0] == "a" and tk[2] == "variable_name"
        R.check(ok, "normalised", w, what, short(den, 300), unsure=imprecise(den))
    elif den[0] == "red" and den[1] == "+":
        R.check(True if contains(den, marg) else None, "normalised", w, what, short(den))
    else:
        R.check(None, "normalised", w, what, short(den))
    cs = conjuncts(guard)
    zero = [c for c in cs if c[0] == "not" and c[1][0] == "==" and (const(0) in c[1][1:] or const(0.0) in c[1][1:]) and
            den in c[1][1:]] + [c for c in cs if c == den or c == ("<", const(0), den)]
    R.check(bool(zero) or (None if imprecise(guard) else False), "normalised-guard", w,
            "impossible evidence never divides by zero", f"divides if {short(guard)}")
    rest = [c for c in cs if c not in zero and c != kw]
    R.check(not rest, "normalised", w, "every entry is normalised under evidence", f"only if {short(mk_and(*rest))}",
            unsure=any(imprecise(c) for c in rest))


# ---------------------------------------------------------------------------------------------- C09
def c09(R):
    r = R.run(B + "BBN.draw_samples", opaque=("BBN.query",))
    ps = r.func.params
    me, q, n = (P(x) for x in ps[:3])
    ret = norm(r.final(r.ret))
    w = r.func.where
    items = ems(ret)
    if len(items) != 1 or items[0][1][0] != "x":
        R.check(None if imprecise(ret) or len(items) > 1 else False, "count", w, "exactly n samples are drawn", short(ret))
        return
    ctx, (_, s) = items[0]
    fl = fors(ctx)
    rng = fl[0][2] if fl else NONE
    ok = len(fl) == 1 and rng in (("call", G("builtins.range"), (n,), ()), ("call", G("builtins.range"), (const(0), n), ()))
    wrong = False
    if rng[0] == "while":
        wc = norm(r.interp.loops.get(rng[1], {}).get("cond", NONE))
        # the length of the result compared with n in any other way
        cmp = wc[1] if wc[0] == "not" else wc
        wrong = cmp[0] in ("<", "==") and contains(cmp, lambda x: x == LEN) and contains(cmp, lambda x: x == n) and \
            contains(cmp, lambda x: x[0] == "lvc") and not (cmp[0] == "==" and wc[0] == "not")
    R.check((ok and conds(ctx) == T) or (None if rng[0] == "while" and not wrong else False), "count", w, "exactly n samples are drawn", f"{short(rng)} if {short(conds(ctx))}",
            unsure=imprecise(rng))
    si = ems_raw(s)
    base = [i for c, i in si if i[0] == "base" and not c]
    okb = any(source(("seq", "dict", (("em", (), b),))) == q or source(b[1]) == q for b in base) or \
        any(i[0] == "upd" and source(i[1]) == q for c, i in si)
    R.check(okb or (None if imprecise(s) and not si else False), "evidence-kept", w, "every sample starts as a copy of the evidence",
            f"starts as {short(s)}")
    sets = [(c, i) for c, i in si if i[0] == "kv"]
    if len(sets) != 1:
        R.check(None if sets else False, "assign", w, "each step assigns one node", short(s))
        return
    c, (_, key, val) = sets[0]
    # until every node has a value
    inner = fors(c)
    if len(inner) == 1 and inner[0][2][0] == "while":
        for e in r.ev("call"):
            if e["name"] != "query" or not e.loops or e.loops[-1][1] != inner[0][1]:
                continue
            cs = [x for x in conjuncts(norm(e.cond)) if contains(x, lambda y: y == LEN) and contains(x, lambda y: y[0] == "lvc") and
                  contains(x, lambda y: y[0] == "a" and y[1] == me and y[2] in ("nodes", "vars_to_nodes"))]
            for x in cs:
                rel = x[1] if x[0] == "not" else x
                nn = [("call", LEN, (A(me, a),), ()) for a in ("nodes", "vars_to_nodes")]
                if x[0] == "<":
                    okx = x[2] in nn
                elif x[0] == "not" and rel[0] == "==":
                    okx = True
                else:
                    okx = False if rel[0] in ("<", "==") and (rel[1] in nn or rel[2] in nn) else None
                R.check(okx, "complete", e.where, "sampling goes on until every node has a value", f"goes on while {short(x)}")
    if len(inner) == 1 and inner[0][2][0] == "call" and inner[0][2][1] == G("builtins.range") and len(inner[0][2][2]) == 1:
        bound = inner[0][2][2][0]
        sizes = [x for x in walk(("_", bound)) if x[0] == "call" and x[1] == LEN]
        given = [x for x in sizes if not contains(x, lambda y: y == me)]
        R.check(bool(given), "complete", w, "sampling goes on until every node has a value",
                f"{short(bound)} nodes are drawn, however many are given", unsure=imprecise(bound) or not sizes)
    # which node
    okk = key[0] == "a" and key[2] == "variable_name"
    node = key[1] if okk else NONE
    pool = None
    if node[0] == "call" and node[1] == G("random.choice") and node[2]:
        pool = node[2][0]
    elif node[0] == "el":
        pool = r.interp.loops.get(node[1], {}).get("coll")
    filt = None
    if pool is not None:
        pe = ems(norm(pool))
        if len(pe) == 1 and len(fors(pe[0][0])) == 1 and source(fors(pe[0][0])[0][2]) == A(me, "nodes"):
            el = ("el", fors(pe[0][0])[0][1])
            cs = conjuncts(conds(pe[0][0]))
            filt = len(cs) == 1 and cs[0][0] == "not" and cs[0][1][0] == "in" and cs[0][1][1] == A(el, "variable_name")
    R.check(filt if filt else (False if filt is False else None), "assign", w, "only nodes without a value are sampled", short(node))
    # the state comes from the conditional distribution of that node given the sample so far
    QY = "causalnex.ebaybbn.bbn.BBN.query"
    qc = [x for x in walk(val) if x[0] == "call" and x[1] == G(QY)]
    calls = [e for e in r.ev("call") if e["name"] == "query"]
    R.check(bool(calls) or False, "conditional", w, "states are drawn from a query", "no query is made")
    for e in calls:
        given = [v for k, v in e["args"].items() if k in ("**", "kwds")]
        gv = norm(r.interp.snap(given[0], r.st)) if given else NONE
        # the argument is the sample under construction
        is_sample = bool(given) and contains(gv, lambda x: x[0] == "lvc") and holds_sample(r, gv, q)
        direct = source(gv)
        bad = not given or direct == q
        R.check(is_sample or (False if bad else None), "conditional", e.where,
                "each state is drawn given everything already in the sample", f"query receives {short(gv)}")
        g = norm(e.cond)
        # cache keyed by the sample
        for cnd in conjuncts(g):
            if cnd[0] == "not" and cnd[1][0] == "in":
                for ck in ite_cases(cnd[1][1]):
                    full = contains(ck, lambda x: x[0] == "lvc" and holds_sample(r, x, q))
                    vals = contains(ck, lambda x: x[0] == "m" and x[2] == "items") or contains(ck, lambda x: x[0] == "tuple" and len(x[1]) == 2)
                    lossy = [x for x in walk(("_", ck)) if x[0] == "call" and x[1] in [G("builtins." + f) for f in ("hash", "str", "id", "len", "sum")] or
                             x[0] == "m" and x[2] in ("join", "format") or x[0] == "op" and x[1] == "%" or
                             x[0] == "fmt" and not contains(x, lambda y: y == G("builtins.repr") or is_const(y) and "r" in str(y[1]))]
                    if lossy:
                        R.bad("cache-key", e.where, "cached results are keyed by the whole sample so far",
                              f"different samples can have the same key {short(ck)}")
                        continue
                    part = not full or contains(ck, lambda x: x[0] == "m" and x[2] in ("keys", "values")) or is_keyonly(ck)
                    R.check(False if part and not vals else True if full and vals else None,
                            "cache-key", e.where, "cached results are keyed by the whole sample so far", f"cache key is {short(ck)}")
    # only that node's states, and the position stays inside the table
    own = [x for x in walk(val) if x[0] == "==" and (key in x[1:])]
    R.check(bool(own) or (None if imprecise(val) else False), "own-states", w, "a node only takes its own states", short(val, 300))
    # cumulative table: the first entry as it is, then every further entry on top of the last sum
    tab = NONE
    if val[0] == "i" and val[1][0] == "i" and val[1][1][0] == "i":
        tab, pos = val[1][1][1], val[1][1][2]
        cumulative(R, w, tab, key)
        if is_const(val[2]) and is_const(val[1][2]):
            R.check(val[1][2] == const(0) and val[2] == const(1), "own-states", w, "the value is the state of the selected entry",
                    f"takes [{short(val[1][2])}][{short(val[2])}] of it")
        drawn = contains(pos, lambda x: x == ("call", G("random.random"), (), ())) or any(
            contains(norm(r.interp.loops.get(x[1], {}).get("cond") or NONE), lambda y: y == ("call", G("random.random"), (), ()))
            for x in walk(pos) if x[0] == "while")
        R.check(drawn, "inverse-cdf", w, "the position depends on the draw", f"position is {short(pos)}",
                unsure=contains(pos, lambda x: x[0] == "g" and x[1] != "random.choice" and
                                any(y in x[1] for y in ("random", "bisect", "search", "accumulate"))))
        if pos[0] == "red":
            R.check(pos[2] == const(0), "inverse-cdf", w, "the search starts at the first entry", f"starts at {short(pos[2])}",
                    unsure=not is_const(pos[2]))
    # the index loop is bounded
    RND = ("call", G("random.random"), (), ())
    for e in r.ev("aug"):
        t = norm(e["target"])
        if t[0] == "lv" and e["op"] == "+" and e.loops and e.loops[-1][2][0] == "while" and is_const(e["value"]):
            if norm(e.cond) != T and contains(val, lambda x: x[0] == "red" and contains(x, lambda y: y == ("while", e.loops[-1][1]))):
                R.check(e["value"] == const(1), "inverse-cdf", e.where, "the search visits every entry", f"advances by {short(e['value'])}")
            cs = [x for x in conjuncts(norm(e.cond)) if contains(x, lambda y: y == t)]
            strict = rest = None
            for x in cs:
                lim = x[2] if x[0] == "<" and x[1] == t else None
                one = x[2] if x[0] == "<" and x[1] in (("op", "+", t, const(1)), ("op", "+", const(1), t)) else None
                if lim is not None and lim[0] == "op" and lim[1] == "-" and lim[2][0] == "call" and lim[2][1] == LEN:
                    strict = lim[3] == const(1)
                elif one is not None and one[0] == "call" and one[1] == LEN:
                    strict = True
                elif contains(x, lambda y: y == LEN) and x[0] in ("<", "not") and not contains(x, lambda y: y == RND):
                    strict = bool(strict)
                else:
                    rest = (rest or []) + [x]
            R.check(False if strict is None else strict, "index-bounded", e.where, "the state index never leaves the table and can reach its end",
                    f"advances while {short(e.cond, 300)}")
            mass = [x for x in (rest or []) if contains(x, lambda y: y == RND)]
            running = [x for x in conjuncts(norm(e.cond)) if contains(x, lambda y: y == RND) and contains(x, lambda y: y[0] == "lv" and y != t)]
            if not mass and running:
                R.und("inverse-cdf", e.where, "advance while the draw exceeds the cumulative mass", short(e.cond, 200))
                continue
            okm = None
            for x in mass:
                y = x[1] if x[0] == "not" else x
                if y[0] != "<":
                    continue
                lhs, rhs = (y[1], y[2]) if x[0] == "<" else (y[2], y[1])
                good = rhs == RND and lhs[0] == "i" and lhs[1][0] == "i" and lhs[1][2] == t
                if good:
                    okm = lhs[2] == const(1) and (tab == NONE or same(lhs[1][1], tab))
                elif lhs == RND:
                    okm = False
            if not mass and not any(contains(x, lambda y: y[0] in ("call", "m") and y[1] != LEN) for x in (rest or [])):
                okm = False
            R.check(okm, "inverse-cdf", e.where, "advance while the draw exceeds the cumulative mass", short(e.cond, 200))
    R.floor(5)


def cumulative(R, w, tab, key):
    """entries of the node in order, each with the sum of the masses up to it"""
    what = "the cumulative table has every entry of the node once"
    none = const(None)

    def cut(sl, a, b):
        lo, hi, st = sl[1:]
        return (lo in (none, const(0)) if a == 0 else lo == const(a)) and hi == (none if b is None else const(b)) and st in (none, const(1))

    ts = ems_raw(tab)
    grow = [x for x in ts if x[1][0] == "x" and x[1][1][0] == "tuple" and len(x[1][1][1]) == 2 and fors(x[0]) and
            contains(x[1], lambda y: y[0] == "lvc")]
    bases = [x[1][1] for x in ts if x[1][0] == "base"]
    if not grow:
        # nothing is ever accumulated
        plain = tab[0] == "i" or (len(ts) == len(bases) == 1) or all(not contains(x[1], lambda y: y[0] in ("lvc", "op", "red")) for x in ts)
        summed = contains(tab, lambda x: x[0] in ("red",) or (x[0] == "g" and x[1] in ("itertools.accumulate", "numpy.cumsum")))
        R.check(False if plain and not summed else None, "inverse-cdf", w, "each entry adds its mass to the sum so far", short(tab))
        return
    others = [x for x in ts if x not in grow]
    if len(grow) == 1 and len(others) == 1 and fors(others[0][0]):
        R.bad("inverse-cdf", w, what, f"starts with the uncumulated {short(others[0][1])} for all of {short(fors(others[0][0])[0][2])}")
        return
    if len(grow) != 1 or len(ts) != 2 or len(bases) != 1:
        R.und("inverse-cdf", w, what, short(tab))
        return
    c2, (_, (_, pair)) = grow[0]
    coll = source(fors(c2)[-1][2])
    el = ("el", fors(c2)[-1][1])
    base = bases[0]
    okt = base[0] == "i" and base[2][0] == "slice" and cut(base[2], 0, 1) and coll[0] == "i" and coll[2][0] == "slice" and \
        cut(coll[2], 1, None) and same(source(coll[1]), source(base[1]))
    R.check(okt, "inverse-cdf", w, what, f"starts with {short(base)}, continues with {short(coll)}")
    sm = pair[1]
    okm = sm[0] == "op" and sm[1] == "+" and ("i", el, const(1)) in sm[2:] and conds(c2) == T and any(
        x[0] == "i" and x[2] == const(1) and x[1][0] == "i" and x[1][2] == const(-1) and contains(x[1][1], lambda y: y[0] == "lvc")
        for x in sm[2:])
    R.check(okm, "inverse-cdf", w, "each entry adds its mass to the sum so far", short(sm), unsure=sm[0] not in ("op", "i", "c"))
    R.check(pair[0] == ("i", el, const(0)), "inverse-cdf", w, "each entry keeps its own state", short(pair[0]), unsure=imprecise(pair[0]))
    # the entries are exactly those of the node
    if okt:
        es = ems(source(base[1]))
        if len(es) == 1 and len(fors(es[0][0])) == 1:
            x = ("el", fors(es[0][0])[0][1])
            cs = conjuncts(conds(es[0][0]))
            good = len(cs) == 1 and cs[0][0] == "==" and set(cs[0][1:]) == {key, ("i", x, const(0))}
            it = es[0][1]
            R.check(good, "own-states", w, "the entries are those of the chosen node", f"entries with {short(conds(es[0][0]))}",
                    unsure=imprecise(conds(es[0][0])))


def ite_cases(t):
    """the terms t can stand for, one per combination of its conditional parts"""
    from sa.terms import subst
    c = next((x for x in walk(t) if x[0] == "ite"), None)
    if c is None:
        return [t]
    out = []
    for b in (c[2], c[3]):
        out += ite_cases(subst(t, lambda x: b if x == c else None))
    return out


def is_keyonly(ck):
    # sorted(sample) / tuple(sample): keys without values
    return not contains(ck, lambda x: x[0] in ("m", "tuple"))


def ems_raw(t):
    if t[0] == "seq":
        return [(e[1], e[2]) for e in t[2]]
    if t[0] == "call" or t[0] == "m":
        return [((), ("base", t))]
    return []


def holds_sample(r, t, q):
    for x in walk(t):
        if x[0] == "lvc":
            c = r.interp.loops.get(x[1], {}).get("carried", {}).get(x[2])
            for o in c or ():
                if o is not None and not isinstance(o, tuple) and o.kind == "dict" and (
                        o.base is not None and contains(("_", o.base), lambda y: y == q) or
                        any(contains(("_", i), lambda y: y == q) for _, i in o.ems) or
                        any(i[0] == "kv" and i[1][0] == "a" and i[1][2] == "variable_name" for _, i in o.ems)):
                    return True
    return False


CHECKS = {
    "C01": (c01, ""), "C02": (c02, ""), "C03": (c03, ""), "C04": (c04, ""), "C06": (c06, ""), "C07": (c07, ""), "C08": (c08, ""), "C09": (c09, ""),
}
