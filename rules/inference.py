"""InferenceEngine: interventions, reset, results, node functions."""
from sa.conform import (atomic, eqv, form, novel, pandas_forms, raises_like, term_like, untouched)
from sa.effects import Roots, effects
from sa.project import AnalysisError
from sa.rule import (A, P, SELF, alpha, conds, ems, fors, imprecise, ncond, ncond_ok, nctx, norm, same, source)
from sa.terms import F, NONE, T, const, contains, implies, mk_and, mk_not, mk_or, show, walk

I = "inference.inference.InferenceEngine."
OPAQUE = ("build_bbn", "BayesianNetwork.cpds", "BayesianNetwork.nodes")


def short(t, n=200):
    s = show(norm(t)) if isinstance(t, tuple) else str(t)
    return s if len(s) <= n else s[:n] + "…"


def sn(r, t):
    return norm(r.interp.snap(t, r.st)) if isinstance(t, tuple) else t


class Names:
    """the attributes that hold the current tables, the original tables, the functions, the domains and the engine"""

    def __init__(self, R):
        r = R.run(I + "reset_do", opaque=OPAQUE)
        self.reset = r
        self.tables = self.original = self.engine = self.domains = self.functions = None
        for e in r.ev("setitem"):
            o, v = sn(r, e["obj"]), sn(r, e["value"])
            if o[0] == "a" and o[1] == SELF and len(e.stack) >= 1:
                self.tables = o[2]
                for x in walk(v):
                    if x[0] == "a" and x[1] == SELF and x[2] != self.tables:
                        self.original = x[2]
                self.via_reset = True
        init = R.run(I + "__init__", opaque=OPAQUE)
        self.init = init
        if self.tables is None or self.original is None:
            self.from_lookup(R, init)
        for e in init.ev("setattr"):
            v = sn(init, e["value"])
            if is_build(v):
                self.engine = e["attr"]
            elif v[0] == "seq" and v[1] == "dict" and contains(v, lambda x: x[0] == "lamref"):
                self.functions = e["attr"]
            elif v[0] == "seq" and v[1] == "dict" and len(v[2]) == 1 and v[2][0][2][0] == "kv" and \
                    v[2][0][2][2][0] in ("seq", "m", "call", "a") and "index" in str(v) and not contains(v, lambda x: x[0] == "a" and x[2] == "loc"):
                self.domains = e["attr"]


    def from_lookup(self, R, init):
        """the tables are what the node functions look up; the originals are the other mapping of the same form"""
        same_form = {}
        for e in init.ev("setattr"):
            v = sn(init, e["value"])
            if e["obj"] == SELF and contains(v, lambda x: x[0] == "seq" and x[1] == "dict"):
                same_form.setdefault(repr(alpha(v)), []).append(e["attr"])
        for f, x in closures(R, init):
            for y in walk(("_", alpha(x.final(x.ret)))):
                y = subst_self(y)
                if y[0] == "a" and y[1] == SELF:
                    self.tables = y[2]
        for attrs in same_form.values():
            if self.tables in attrs and len(set(attrs)) == 2:
                self.original = [a for a in attrs if a != self.tables][0]


def closures(R, r):
    """functions defined inside the analysed code, each analysed on its own with its captured variables"""
    seen = set()
    for i, l in list(r.interp.lams.items()):
        f = l[1] if not isinstance(i, tuple) else None
        if f is None or not hasattr(f, "qual") or f.qual in seen:
            continue
        seen.add(f.qual)
        b = {k: v for k, v in l[2].loc.items() if isinstance(v, tuple) and not contains(("_", v), lambda x: x[0] == "ref")}
        b.setdefault("self", SELF)
        yield f, R.run(f, binds=b)


def is_build(v):
    return isinstance(v, tuple) and v[0] == "call" and v[1][0] == "g" and v[1][1].split(".")[-1] == "build_bbn"


def builds(r):
    return [e for e in r.ev("call") if e["name"] == "build_bbn"]


def rebuilt_after(R, rule, r, pos, what, names):
    """the engine is rebuilt, unconditionally, from newly made functions after event position pos"""
    ok = False
    for e in r.ev("setattr"):
        v = sn(r, e["value"])
        if e["obj"] == SELF and is_build(v) and (names.engine is None or e["attr"] == names.engine):
            b = [x for x in builds(r) if x.pos < e.pos]
            late = bool(b) and b[-1].pos > pos
            c = ncond_ok(r, e)
            if not late:
                R.bad(rule, e.where, what, "the engine is rebuilt before the tables are changed")
                return
            if c != T or fors(nctx(r, e)):
                R.check(None if imprecise(("_", c)) else False, rule, e.where, what,
                        f"the engine is rebuilt only if {short(c)}")
                return
            a = b[-1]["args"].get(0)
            a = sn(r, a) if isinstance(a, tuple) else NONE
            if names.functions and contains(a, lambda x: x == A(SELF, names.functions)):
                R.bad(rule, e.where, what, "the engine is rebuilt from the functions of the previous tables")
                return
            d = b[-1]["args"].get("domains", b[-1]["args"].get(1))
            if names.domains:
                R.check(d is not None and source(sn(r, d)) == A(SELF, names.domains), rule, e.where,
                        what + ": with the network's own domains", f"domains={short(d) if d else 'missing'}",
                        unsure=d is not None and imprecise(sn(r, d)))
            ok = True
    R.check(ok, rule, r.func.where, what, "no call rebuilds the engine after the tables change")


# ---------------------------------------------------------------------------------------------- C13
def c13(R):
    n = Names(R)
    q = I + "do_intervention"
    r = R.run(q, opaque=OPAQUE)
    w = r.func.where
    if n.tables is None or n.original is None or n.functions is None:
        R.und("intervention-validated", w, "do_intervention", "tables, original tables or functions not recognised")
        return
    t, o, f = n.tables, n.original, n.functions
    ps = r.func.params
    if len(ps) < 3:
        R.und("intervention-validated", w, "do_intervention", "parameters not recognised")
        return
    node, state = ps[1], ps[2]

    def text(iso, hard, rng):
        return f'''
def spec(self, {node}, {state}=None):
    if not any({iso} for g in self.{f}.values()):
        raise ValueError("isolate")
    if not isinstance({state}, dict):
        {state} = {{s: {hard} for s in self.{t}[{node}]}}
    if sum({state}.values()) != 1.0:
        raise ValueError("sum")
    if {rng}:
        raise ValueError("range")
    if set({state}.keys()) != set(self.{o}[{node}]):
        raise ValueError("states")
    self.{t}[{node}] = {{s: {{(): p}} for s, p in {state}.items()}}
'''
    iso = [f"{node} in inspect.getargs(g.__code__)[0][1:]", f"{node} in inspect.getargs(g.__code__).args[1:]",
           f"{node} in g.__code__.co_varnames[1:g.__code__.co_argcount]"]
    hard = [f"float(s == {state})", f"1.0 if s == {state} else 0.0", f"int(s == {state})", f"1 if s == {state} else 0"]
    rng = [f"max({state}.values()) > 1.0 or min({state}.values()) < 0",
           f"any(p > 1.0 or p < 0 for p in {state}.values())",
           f"any(p > 1.0 for p in {state}.values()) or any(p < 0 for p in {state}.values())"]
    specs = [R.spec(r.func, text(i, h, g), opaque=OPAQUE) for i in iso for h in hard for g in rng]
    specs = [bounds_norm_result(s) for s in specs]
    raises_like(R, "intervention-validated", bounds_norm_result(r), specs, what="do_intervention rejects exactly the invalid interventions")
    atomic(R, "intervention-atomic", r, frozenset({SELF}), "do_intervention changes nothing before it has validated its arguments")
    # the write of the intervened table
    sets = [e for e in effects(r) if e.kind in ("setitem", "mutate", "aug") and SELF in e.roots]
    writes = []
    for e in sets:
        tg = norm(e.target)
        if tg == A(SELF, t) and e.kind == "setitem" and e.event.kind == "setitem":
            writes.append(e.event)
        elif contains(tg, lambda x: x == A(SELF, o)):
            R.bad("intervention-local", e.where, "do_intervention leaves the original tables alone", f"{e.how} on {short(tg)}")
        elif contains(tg, lambda x: x == A(SELF, t)):
            R.bad("intervention-local", e.where, "do_intervention replaces the table of the node and edits no table in place",
                  f"{e.how} on {short(tg)}")
    wants = [(x, e) for x in specs for e in x.ev("setitem") if sn(x, e["obj"]) == A(SELF, t)]
    good = None
    for e in writes:
        k, v = sn(r, e["key"]), sn(r, e["value"])
        c = ncond_ok(r, e)
        if any(same(k, sn(x, y["key"])) and same(v, sn(x, y["value"])) for x, y in wants) and c == T and not fors(nctx(r, e)):
            R.ok("intervention-local", e.where, "the node's table becomes the given distribution without conditions, and only that table changes")
            good = e
        else:
            x, y = wants[0]
            g = alpha(v)
            un = imprecise(g) or imprecise(("_", c)) or bool(novel(g, *[alpha(sn(a, b["value"])) for a, b in wants]))
            R.check(False, "intervention-local", e.where, "the node's table becomes the given distribution without conditions",
                    f"{short(e['obj'])}[{short(k)}] = {short(v)}" + (f" if {short(c)}" if c != T else ""), unsure=un)
            good = good or e
    if not writes:
        whole = [e for e in r.ev("setattr") if e["obj"] == SELF and e["attr"] == t]
        R.check(None if whole else False, "intervention-local", w, "the node's table is replaced",
                "the tables are replaced as a whole" if whole else "no write of the node's table")
        good = whole[0] if whole else None
    if good is not None:
        rebuilt_after(R, "engine-rebuilt", r, good.pos, "after an intervention the engine is rebuilt from the new tables", n)
    for e in effects(r):
        if e.kind == "setattr" and SELF in e.roots and norm(e.target) == SELF and e.attr in (o, n.domains):
            R.bad("intervention-local", e.where, "do_intervention leaves originals and domains alone", f".{e.attr} is assigned")
    untouched(R, "intervention-local", r, frozenset({P(state), P(node)}), "the caller's state mapping is not modified")


def bounds_norm_result(r):
    """max(vals) > c  <->  some value > c (the values are not empty: they sum to 1)"""
    from sa.terms import subst

    def f(x):
        if x[0] == "<" and len(x) == 3:
            for a, b, side in ((x[1], x[2], 1), (x[2], x[1], 2)):
                if b[0] == "call" and b[1][0] == "g" and len(b[2]) == 1 and not b[3]:
                    fn = b[1][1]
                    if (fn == "builtins.max" and side == 1) or (fn == "builtins.min" and side == 2):
                        coll = b[2][0]
                        it, val = coll, ("el", "bn")
                        if coll[0] == "m" and coll[2] == "values" and not coll[3]:
                            it, val = coll[1], ("i", coll[1], ("el", "bn"))
                        c = ("<", a, val) if side == 1 else ("<", val, a)
                        return r.interp.mk_ex((("for", "bn", it), ("if", c)))
        return None
    r.rewrite = f
    return r


# ---------------------------------------------------------------------------------------------- C14
def c14(R):
    n = Names(R)
    r = n.reset
    w = r.func.where
    if n.tables is None:
        R.und("reset-restores", w, "reset_do", "the tables are not recognised")
        return
    t, o = n.tables, n.original
    obs = r.func.params[1]
    wr = [e for e in r.ev("setitem") if sn(r, e["obj"]) == A(SELF, t)]
    for e in wr:
        k, v = sn(r, e["key"]), sn(r, e["value"])
        okv = o is not None and source(v) == ("i", A(SELF, o), P(obs))
        c = ncond_ok(r, e)
        unch = o is not None and same_restore(c, t, o, obs)
        R.check(k == P(obs) and okv and (c == T or unch) and not fors(nctx(r, e)), "reset-restores", e.where,
                "reset_do puts the original table of the node back", f"self.{t}[{short(k)}] = {short(v)} if {short(c)}",
                unsure=imprecise(("_", v, c)))
    R.check(bool(wr), "reset-restores", w, "reset_do writes the node's table", "no write of the node's table")
    if wr:
        rebuilt_after(R, "engine-rebuilt", r, max(e.pos for e in wr), "after a reset the engine is rebuilt from the restored tables", n)
    # originals are a separate mapping and are never written after construction
    init = n.init
    vals = {}
    for e in init.ev("setattr"):
        if e["obj"] == SELF and len(e.stack) >= 1:
            vals[e["attr"]] = (e, e["value"])
    if o in vals:
        e, v = vals[o]
        alias = v[0] == "ref" and t in vals and vals[t][1] == v or (v[0] == "a" and v[1] == SELF and v[2] == t)
        R.check(not alias, "originals-separate", e.where, "the original tables are a mapping of their own",
                f"self.{o} is the same object as self.{t}")
    else:
        R.und("originals-separate", w, "the original tables", "not assigned by the constructor")
    cls = R.p.class_by_qual["causalnex." + I[:-1]]
    for name, f in cls.methods.items():
        if name.startswith("__") and name != "__init__":
            continue
        x = R.run(f, opaque=OPAQUE)
        me = P(f.params[0]) if f.params else SELF
        bad = 0
        for e in effects(x):
            tg = norm(e.target)
            own = A(me, o)
            cur = A(me, t)
            if e.kind == "setattr" and tg == me and e.attr == o and name != "__init__" and reached(R, n, f, name):
                bad += 1
                R.bad("originals-untouched", e.where, f"{name} leaves the original tables alone", f".{o} is assigned")
            elif contains(tg, lambda y: y == own):
                bad += 1
                R.bad("originals-untouched", e.where, f"{name} leaves the original tables alone", f"{e.how} on {short(tg)}")
            elif e.kind != "setattr" and tg != cur and contains(tg, lambda y: y == cur):
                bad += 1
                R.bad("originals-untouched", e.where, f"{name} edits no table in place (tables are shared with the originals)",
                      f"{e.how} on {short(tg)}")
        if not bad:
            R.ok("originals-untouched", f.where, f"{name} leaves the original tables alone")
    # the network is only read
    untouched(R, "network-read-only", init, frozenset({P(init.func.params[1])}), "the constructor does not modify the network")
    qr = R.run(I + "query", opaque=OPAQUE)
    untouched(R, "query-read-only", qr, frozenset({SELF, P(qr.func.params[1])}), "query changes neither the engine nor the observations",
              allowed=lambda e: e.kind == "setattr" and e.attr not in (t, o, n.engine, n.functions, n.domains))


def reached(R, n, f, name):
    """not a helper that only the constructor uses"""
    used = any(f.qual in x.interp.funcs_seen for x in [n.reset, R.run(I + "do_intervention", opaque=OPAQUE), R.run(I + "query", opaque=OPAQUE)])
    return used or not name.startswith("_")


def same_restore(c, t, o, obs):
    """skipping the write when the table already is the original one"""
    a, b = ("i", A(SELF, t), P(obs)), ("i", A(SELF, o), P(obs))
    return any(form(c) == form(mk_not((k, x, y))) for k in ("==", "is") for x, y in ((a, b), (b, a)))


# ---------------------------------------------------------------------------------------------- C15
def c15(R):
    n = Names(R)
    r = R.run(I + "query", opaque=OPAQUE)
    w = r.func.where
    obs = P(r.func.params[1])
    qs = [e for e in r.ev("mcall", "call") if e["name"] == "query"]
    if not qs:
        R.und("observations-passed", w, "query", "no call of the engine recognised")
    given, none = mk_or(), mk_or()
    for e in qs:
        kw = e.get("kw") or e.get("rawkw") or []
        kw = [(k, sn(r, v)) for k, v in kw]
        c = ncond(r, e)
        star = [v for k, v in kw if k == "**"]
        if star and source(strip_or(star[0], obs)) == obs:
            given = mk_or(given, c)
        elif not kw and not e.get("args"):
            none = mk_or(none, c)
        else:
            R.check(False, "observations-passed", e.where, "the engine receives the observations as given",
                    f"it receives {[(k, short(v)) for k, v in kw]}", unsure=any(imprecise(v) for _, v in kw))
    if qs:
        ok = implies(obs, given)
        R.check(ok if ok is not None else None, "observations-passed", qs[0].where, "given observations always reach the engine",
                f"they are passed only if {short(given)}", unsure=imprecise(("_", given)))
        cover = implies(T, mk_or(given, none))
        R.check(cover, "observations-passed", qs[0].where, "every call asks the engine", f"the engine is asked only if {short(mk_or(given, none))}",
                unsure=imprecise(("_", given, none)))
    # results[node][state] = probability for every answer
    ret = alpha(r.final(r.ret))
    answers = [x for x in walk(("_", ret)) if x[0] in ("m", "call") and (x[2] == "query" or (x[0] == "call" and x[1][0] == "g" and x[1][1].endswith(".query")))]
    for x in walk(("_", ret)):
        if x[0] == "call" and x[1] == ("g", "builtins.dict.fromkeys") and len(x[2]) == 2 and x[2][1][0] == "seq":
            R.bad("results-grouped", w, "every node has a result mapping of its own", f"one mapping is shared: {short(x)}")
            return
    items = [(c, i) for c, i in ems(ret)]
    if not answers and items:
        R.und("results-grouped", w, "query result", f"returns {short(ret)}")
        return
    what = "every (node, state) answer is reported under its node and state"
    nodes_ok = False
    placed = None
    for c, i in items:
        fs, cd = fors(c), conds(c)
        if i[0] == "kv" and len(fs) == 1 and i[1] == ("el", fs[0][1]) and cd == T and i[2][0] == "seq" and i[2][1] == "dict":
            src = source(fs[0][2])
            nodes_ok = nodes_ok or src in (A(SELF, n.tables), A(SELF, n.original or "_"), A(SELF, n.functions or "_"), A(SELF, n.domains or "_"))
            inner = ems(i[2])
            for c2, i2 in inner:
                f2, d2 = fors(c2), conds(c2)
                if i2[0] == "kv" and len(f2) == 1 and answer_of(f2[0][2], answers):
                    key, val = ("el", f2[0][1]), i2
                    good = i2[1] == ("i", key, const(1)) and is_answer(i2[2], f2[0][2], key) and \
                        form(d2) == form(("==", ("i", key, const(0)), ("el", fs[0][1])))
                    placed = good if placed is None else placed and good
        elif i[0] in ("kv2",) and len(fs) == 1 and answer_of(fs[0][2], answers):
            key = ("el", fs[0][1])
            good = i[1] == ("i", key, const(0)) and i[2] == ("i", key, const(1)) and is_answer(i[3], fs[0][2], key) and cd == T
            placed = good if placed is None else placed and good
    if placed is None:
        stray = [e for e in r.ev("setitem")]
        R.check(None if stray or imprecise(ret) or answers else False, "results-grouped", w, what, f"returns {short(ret, 300)}")
    else:
        R.check(placed, "results-grouped", w, what, f"returns {short(ret, 400)}", unsure=imprecise(ret))
        R.check(nodes_ok or None if placed else True, "results-grouped", w, "every node of the network appears in the result", short(ret))
    # constructor validation
    init = n.init
    bn = init.func.params[1]
    specs = [R.spec(init.func, f'''
def spec(self, {bn}):
    if [node for node in {bn}.nodes if not re.{fn}("{pat}", node)]:
        raise ValueError("names")
    if not {bn}.cpds:
        raise ValueError("cpds")
''', opaque=OPAQUE) for fn, pat in (("match", "^[0-9a-zA-Z_]+$"), ("fullmatch", "^[0-9a-zA-Z_]+$"), ("fullmatch", "[0-9a-zA-Z_]+"),
                                    ("match", "^[0-9a-zA-Z_]+\\\\Z"), ("match", "^[a-zA-Z0-9_]+$"), ("match", "[0-9a-zA-Z_]+$"))]
    raises_like(R, "network-validated", init, specs, what="the constructor rejects bad names and networks without CPDs")
    bs = builds(init)
    if bs and init.raises():
        R.check(max(e.pos for e in init.raises()) < bs[0].pos, "network-validated", bs[0].where,
                "the network is validated before the engine is built", "the engine is built first")


def strip_or(v, obs):
    """observations or {} / ite(observations, observations, {})"""
    if v[0] == "ite" and (v[1] == obs or v[1][0] in ("not", "is")):
        for x in v[2:]:
            if source(x) == obs:
                return x
    if v[0] == "bop" and any(source(x) == obs for x in v[2]):
        return obs
    return v


def answer_of(coll, answers):
    s = source(coll)
    return s in answers or (s[0] == "ite" and all(source(x) in answers for x in s[2:]))


def is_answer(v, coll, key):
    s = source(coll)
    if v == ("i", s, key):
        return True
    if s[0] == "ite" and v[0] == "ite" and v[1] == s[1]:
        return v[2] == ("i", s[2], key) and v[3] == ("i", s[3], key)
    return False


# ---------------------------------------------------------------------------------------------- C16
def c16(R):
    n = Names(R)
    init = n.init
    w = init.func.where
    bn = init.func.params[1]
    vals = {}
    for e in init.ev("setattr"):
        if e["obj"] == SELF:
            vals[e["attr"]] = e
    spec = R.spec(init.func, f'''
def spec(self, {bn}):
    return {{v: {{s: {{tuple(zip(c.columns.names, p)): c.loc[s][p] for p in c.columns}} for s in c.index}} for v, c in {bn}.cpds.items()}}
''', opaque=OPAQUE)
    if n.tables in vals:
        e = vals[n.tables]
        term_like(R, "tables-keyed", e.where, "table[node][state][((parent, parent state), ...)] is the CPD entry of that state and column",
                  sn(init, e["value"]), [spec.final(spec.ret)], rewrite=pandas_forms)
    else:
        R.und("tables-keyed", w, "tables", "not recognised")
    spec = R.spec(init.func, f'''
def spec(self, {bn}):
    return {{v: list(c.index) for v, c in {bn}.cpds.items()}}
''', opaque=OPAQUE)
    if n.domains in vals:
        e = vals[n.domains]
        term_like(R, "domains-states", e.where, "the domain of a node is the list of its CPD's states", sn(init, e["value"]),
                  [spec.final(spec.ret)], rewrite=pandas_forms)
    else:
        R.und("domains-states", w, "domains", "not recognised")
    # node functions: (node, parents in key order)
    if n.functions is None or n.functions not in vals:
        R.und("functions-aligned", w, "node functions", "not recognised")
        return
    fe = vals[n.functions]
    fv = sn(init, fe["value"])
    it = [(c, i) for c, i in ems(fv)]
    okk = len(it) == 1 and it[0][1][0] == "kv" and len(fors(it[0][0])) == 1 and it[0][1][1] == ("el", fors(it[0][0])[0][1])
    lost = len(it) == 1 and it[0][1][0] == "kv" and it[0][1][2] == NONE
    R.check(False if lost else okk or None, "functions-aligned", fe.where, "one function per node", short(fv))
    for e in init.ev("call"):
        if e["fn"] != ("g", "types.CodeType") and e["name"] != "CodeType":
            continue
        args = e["args"]
        seqs = [sn(init, v) for k, v in sorted(args.items(), key=lambda x: str(x[0])) if isinstance(v, tuple)]
        lens = [x[2][0] for x in seqs if x[0] == "call" and x[1] == ("g", "builtins.len")]
        names = [x for x in seqs if x[0] == "seq" and x[1] == "tuple"]
        if not names or not fors(nctx(init, e)):
            R.und("functions-aligned", e.where, "arguments of a node function", "not recognised")
            continue
        L = fors(nctx(init, e))[-1]
        node = ("el", L[1])
        nm = names[0]
        R.check(len(lens) == 2 and all(x == nm for x in lens), "functions-aligned", e.where,
                "the function has exactly as many arguments as argument names", f"counts of {[short(x) for x in lens]}",
                unsure=any(imprecise(x) for x in lens))
        em = ems(nm)
        first = bool(em) and em[0] == ((), ("x", node))
        R.check(first, "functions-aligned", e.where, "the node itself is the first argument", short(nm), unsure=imprecise(nm))
        rest = em[1:]
        good = None
        if len(rest) == 1 and rest[0][1][0] == "x" and len(fors(rest[0][0])) == 1 and conds(rest[0][0]) == T:
            f = fors(rest[0][0])[0]
            good = rest[0][1][1] == ("i", ("el", f[1]), const(0)) and source(f[2]) == f[2] and \
                not contains(f[2], lambda x: x[0] in ("sorted", "reversed"))
            # the key must be one of this node's table
            own = [x for x in walk(f[2]) if x[0] == "i" and x[2] == node]
            good = good and bool(own)
            for x in walk(f[2]):
                # any one state and any one of its conditions will do, but there may be only one of them; the pair is (key, value)
                if x[0] == "i" and x[2][0] == "c" and isinstance(x[2][1], int) and x[1][0] == "seq":
                    one = ems(x[1])
                    if len(one) == 1 and fors(one[0][0]) and x[2][1] not in (0, -1):
                        good = False
                if x[0] == "i" and x[1][0] == "i" and x[1][1][0] == "seq" and x[2] == const(1) and x is f[2]:
                    one = ems(x[1][1])
                    if len(one) == 1 and one[0][1][0] == "x" and one[0][1][1][0] == "tuple" and len(one[0][1][1][1]) == 2:
                        good = False
        elif rest:
            good = False if not imprecise(nm) else None
        else:
            good = False
        R.check(good, "functions-aligned", e.where, "then its parents, in the order of the table's keys", short(nm, 300), unsure=imprecise(nm))
    # body of the functions
    for f, x in closures(R, init):
        if norm(x.final(x.ret)) == NONE and contains(("_", fv), lambda y: y[0] == "lamref") and len(list(init.interp.lams)) == 1:
            R.bad("functions-aligned", f.where, "a node function looks up its node, its state and its parents' states", "it returns nothing")
        if not contains(("_", subst_self(alpha(x.final(x.ret)))), lambda y: y[0] == "a" and y[1] == SELF):
            continue
        s = R.spec(f, f'''
def spec():
    a = inspect.getargvalues(inspect.currentframe())
    return self.{n.tables}[a.args[0]][a.locals[a.args[0]]][tuple((k, a.locals[k]) for k in a.args[1:])]
''')
        want = subst_self(alpha(s.final(s.ret)))
        term_like(R, "functions-aligned", f.where, "a node function looks up its node, its state and its parents' states",
                  subst_self(alpha(x.final(x.ret))), [want])
    bs = builds(init)
    for e in bs:
        a = e["args"].get(0)
        a = sn(init, a) if isinstance(a, tuple) else NONE
        d = e["args"].get("domains", e["args"].get(1))
        src = source(a)
        okf = contains(a, lambda x: x[0] == "lamref") and not any(conds(c) != T for c, i in ems(a))
        R.check(okf or None, "functions-aligned", e.where, "every node's function goes into the engine", short(a))
        if d is None:
            R.bad("domains-states", e.where, "the engine gets the domains", "no domains argument")


def subst_self(t):
    from sa.terms import subst
    return subst(t, lambda x: A(SELF, x[1].split(".")[-1]) if x[0] == "g" and x[1].startswith("?.self.") else None)


CHECKS = {"C13": (c13, ""), "C14": (c14, ""), "C15": (c15, ""), "C16": (c16, "")}
