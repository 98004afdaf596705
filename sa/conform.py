"""Comparison of an analysed function with reference texts, aspect by aspect."""
import contextlib

from .effects import Roots, effects
from .rule import (P, SELF, _sortf, alpha, conds, fors, imprecise, nctx, norm, same, show, show_canon, source)
from .rule import canon_full, canon_imprecise, set_order
from .terms import walk, contains, F, NONE, T, conjuncts, equivalent, implies, mk_and, mk_not, mk_or, subst


def form(f):
    return _sortf(alpha(f))


def eqv(a, b, given=T):
    """a and b agree whenever `given` holds"""
    a, b = form(a), form(b)
    if a == b:
        return True
    b = set_order(b, (a,))
    a = set_order(a, (b,))
    ca, cb = set(conjuncts(a)), set(conjuncts(b))
    com = ca & cb
    if com:
        x, y = mk_and(*[c for c in conjuncts(a) if c not in com]), mk_and(*[c for c in conjuncts(b) if c not in com])
        if equivalent(mk_and(x, given), mk_and(y, given)) is True:
            return True
    return equivalent(mk_and(a, given), mk_and(b, given))


def raise_conditions(r, names=None):
    """exception name -> (condition under which it is raised, events)"""
    out = {}
    for e in r.raises():
        if names is not None and e["name"] not in names:
            continue
        c = r.interp.mk_ex(nctx(r, e))
        if getattr(r, "rewrite", None):
            c = subst(c, r.rewrite)
        c = form(c)
        o, evs = out.get(e["name"], (F, []))
        if o != F:
            # where an earlier one of the same kind was not raised
            c = mk_and(*[x for x in conjuncts(c) if implies(mk_not(o), x) is not True])
        out[e["name"]] = (mk_or(o, c), evs + [e])
    return out


def no_raise(r):
    return mk_and(*[mk_not(c) for c, _ in raise_conditions(r).values()])


def raises_like(R, rule, r, specs, names=None, what=None, extra_ok=lambda e: False):
    """each exception of the reference is raised under the same condition, and no other is"""
    w = r.func.where
    q = r.func.qual.split("causalnex.")[-1]
    got = raise_conditions(r)
    best = None
    for s in specs:
        want = raise_conditions(s, names)
        res = []
        for n, (c, _) in want.items():
            g, evs = got.get(n, (F, []))
            other = mk_and(*[mk_not(mk_or(want.get(m, (F,))[0], got.get(m, (F,))[0])) for m in set(want) | set(got) if m != n])
            # conditions are compared where no other exception is due
            v = eqv(g, c, other)
            if v is not True and not evs:
                v = False
            fuzzy = v is not True and (imprecise(("_", g)) or bool(novel(g, c)))
            res.append((v, n, evs, g, c, fuzzy))
        for n, (g, evs) in got.items():
            if n not in want and (names is None) and not all(extra_ok(e) for e in evs):
                other = mk_and(*[mk_not(c) for c, _ in want.values()])
                v = True if implies(mk_and(g, other), F) is True else False
                res.append((v, n, evs, g, F, imprecise(("_", g)) or bool(novel(g, *[c for c, _ in want.values()]))))
        score = sum(1 for x in res if x[0] is not True)
        if best is None or score < best[0]:
            best = (score, res)
    for v, n, evs, g, c, fuzzy in best[1]:
        R.check(v, rule, evs[0].where if evs else w, what and f"{what}: {n}" or f"{q} raises {n} exactly for its documented cases",
                (f"raised if {show(g)[:260]}; required: if {show(c)[:260]}" if evs else f"no reachable raise of {n}"), unsure=fuzzy)
    return best[0] == 0


def relevant_raises(r, names=None):
    return [e for e in r.raises() if names is None or e["name"] in names]


def atomic(R, rule, r, roots, what, allowed=lambda e: False, names=None):
    """no state reachable from `roots` is changed before the last point at which an exception is raised"""
    rs = relevant_raises(r, names)
    if not rs:
        return
    last = max(e.pos for e in rs)
    bad = [e for e in effects(r, Roots(r)) if e.event is not None and e.event.pos < last and e.roots & roots and not allowed(e)]
    if not bad:
        R.ok(rule, r.func.where, what)
    for e in bad:
        # an effect that cannot be followed by the exception is fine
        c = form(r.interp.mk_ex(nctx(r, e.event)))
        later = mk_or(*[form(r.interp.mk_ex(nctx(r, x))) for x in rs if x.pos > e.event.pos])
        if implies(mk_and(c, later), F) is True and not fors(nctx(r, e.event)):
            R.ok(rule, e.where, what)
            continue
        R.bad(rule, e.where, what, f"{e.how} on {show(norm(e.target))[:120]} happens before {rs[-1]['name']} can be raised")


def state_effects(r, roots, kinds=("setattr", "setitem", "mutate", "aug")):
    return [e for e in effects(r, Roots(r)) if e.kind in kinds and e.roots & roots]


def untouched(R, rule, r, roots, what, allowed=lambda e: False):
    bad = [e for e in effects(r, Roots(r)) if e.roots & roots and not allowed(e)]
    if not bad:
        R.ok(rule, r.func.where, what)
    for e in bad:
        R.bad(rule, e.where, what, f"{e.how} on {show(norm(e.target))[:160]} in {e.fn}")
    return not bad


def cval(r, e, t):
    """a term of event e, loops renamed from the outside in"""
    return canon_full(r, e, t)


def returns_like(R, rule, r, specs, what, pick=lambda t: t, unsure=False):
    v = pick(alpha(r.final(r.ret)))
    for s in specs:
        w = pick(alpha(s.final(s.ret)))
        if same(v, w):
            R.ok(rule, r.func.where, what)
            return True
    R.check(False, rule, r.func.where, what, f"returns {show(v)[:300]}", unsure=unsure or imprecise(v))
    return False


# ------------------------------------------------------------------ library vocabulary
PLAIN = {"items", "keys", "values", "get", "copy", "union", "intersection", "difference", "index", "count", "startswith",
         "endswith", "replace", "strip", "split", "join", "lower", "upper", "__name__"}


# words whose meaning surely differs from that of any reference that does not use them
DISTINCT = {"dropna", "fillna", "idxmin", "iloc", "head", "tail", "sample", "argmin", "nanmin", "transitive_reduction", "shift", "round",
            "networkx.transitive_reduction", "numpy.round", "nlargest", "nsmallest", "truncate", "cumsum", "cumprod", "rank",
            "networkx.transitive_closure", "transitive_closure", "mode", "median", "numpy.abs", "abs", "T", "transpose"}


def vocabulary(t):
    out = set()
    from .terms import walk
    for x in walk(("_", t)):
        if x[0] == "m" and x[2] not in PLAIN:
            out.add(("m", x[2]))
        elif x[0] == "a" and not (x[1] == SELF):
            out.add(("a", x[2]))
        elif x[0] == "call" and x[1][0] == "g" and not x[1][1].startswith(("builtins.", "copy.", "itertools.", "operator.")):
            out.add(("g", x[1][1]))
    return out


@contextlib.contextmanager
def distinct(*words):
    """further words that no correct rewriting of the references at hand would use"""
    new = set(words) - DISTINCT
    DISTINCT.update(new)
    try:
        yield
    finally:
        DISTINCT.difference_update(new)


def novel(t, *refs):
    """library vocabulary of t that no reference term uses: its meaning is not modelled"""
    seen = set()
    for r in refs:
        seen |= vocabulary(r)
    return {v for v in vocabulary(t) - seen if v[1] not in DISTINCT}


def params(t):
    return {x for x in walk(("_", t)) if x[0] == "p"}


def unfiltered(t):
    """t without the conditions of its comprehensions"""
    def f(x):
        if x[0] == "em" and len(x) == 3 and any(c[0] == "if" for c in x[1]):
            return ("em", tuple(c if c[0] != "for" else ("for", c[1], unfiltered(c[2])) for c in x[1] if c[0] != "if"), unfiltered(x[2]))
        return None
    return subst(t, f)


def different(g, ws):
    """g surely differs from every reference: only a filter was added, or it depends on an argument none of them reads"""
    if any(alpha(unfiltered(g)) == alpha(unfiltered(w)) for w in ws):
        return True
    have = set()
    for w in ws:
        have |= params(w)
    return bool(params(g) - have)


def alternatives(t, limit=4):
    """[(condition, value)]: conditional expressions inside a value brought to the outside"""
    out = [(T, t)]
    for _ in range(limit):
        new, again = [], False
        for c, x in out:
            y = hoistable(x)
            if y is None or len(out) > 8:
                new.append((c, x))
                continue
            again = True
            new.append((mk_and(c, y[1]), subst(x, lambda z: y[2] if z == y else None)))
            new.append((mk_and(c, mk_not(y[1])), subst(x, lambda z: y[3] if z == y else None)))
        out = new
        if not again:
            break
    return out


def hoistable(t):
    """an inner conditional expression whose condition does not depend on a binder inside t"""
    bound = {x[1] for x in walk(("_", t)) if x[0] == "for"}
    for x in walk(("_", t)):
        if x[0] == "ite" and len(x) == 4:
            # what the condition binds itself does not come from outside
            outer = bound - {z[1] for z in walk(("_", x[1])) if z[0] == "for"}
            if not contains(("_", x[1]), lambda z: z[0] == "lp" or (z[0] in ("el", "idx") and z[1] in outer)):
                return x
    return None


def same_cases(a, b):
    """a and b agree in every case of their conditional expressions"""
    ca, cb = alternatives(a), alternatives(b)
    if len(ca) == 1 and len(cb) == 1:
        return False
    hit = False
    for c, x in ca:
        for d, y in cb:
            if implies(mk_and(c, d), F) is True:
                continue
            hit = True
            if not same(x, y):
                return False
    return hit


def term_like(R, rule, where, what, got, wants, rewrite=lambda t: t, unsure=False):
    """got equals one of the reference terms (compared after `rewrite`, loops renamed)"""
    g = rewrite(alpha(got))
    ws = [rewrite(alpha(w)) for w in wants]
    if any(same(g, w) or same_cases(g, w) for w in ws):
        R.ok(rule, where, what)
        return True
    nv = set() if different(g, ws) else novel(g, *ws)
    R.check(False, rule, where, what, f"is {show(g)[:300]}; required {show(ws[0])[:300]}" +
            (f" (not modelled: {sorted(n for _, n in nv)[:4]})" if nv else ""), unsure=unsure or imprecise(g) or bool(nv))
    return False


def pandas_forms(t):
    """index.values / index.tolist() -> index, columns of a frame in one spelling, .loc[r][c] / .loc[r, c] / .at -> cell"""
    from .terms import subst

    def f(x):
        if x[0] == "a" and x[2] in ("values", "array") and x[1][0] == "a" and x[1][2] in ("index", "columns"):
            return pandas_forms(x[1])
        if x[0] == "seq" and x[1] in ("list", "tuple") and source(x) != x and source(x)[0] in ("a", "m"):
            y = pandas_forms(source(x))
            if y[0] == "a" and y[2] in ("index", "columns"):
                return y
        if x[0] == "m" and x[2] in ("tolist", "to_list", "to_numpy") and not x[3] and x[1][0] == "a" and \
                x[1][2] in ("index", "columns"):
            return pandas_forms(x[1])
        if x[0] == "a" and x[2] == "names" and x[1][0] == "call" and x[1][1] == ("g", "pandas.MultiIndex.from_frame") and \
                len(x[1][2]) == 1:
            return ("a", pandas_forms(x[1][2][0]), "columns")
        if x[0] == "i" and x[1][0] == "i" and x[1][1][0] == "a" and x[1][1][2] in ("loc", "at"):
            return ("cell", pandas_forms(x[1][1][1]), pandas_forms(x[1][2]), pandas_forms(x[2]))
        if x[0] == "i" and x[1][0] == "a" and x[1][2] in ("loc", "at") and x[2][0] == "tuple" and len(x[2][1]) == 2:
            return ("cell", pandas_forms(x[1][1]), pandas_forms(x[2][1][0]), pandas_forms(x[2][1][1]))
        return None
    return subst(t, f)


# ------------------------------------------------------------------ sets of effects and calls
def event_forms(r, select, rewrite=lambda t: t, okc=False):
    """[(kind, (loops, condition, terms), event)] of the events chosen by select(kind, name/object, event)"""
    from .rule import effect_events, ncond_ok, _alpha, _ctx
    out = []
    for k, c, e in effect_events(r, select):
        loops, cond, ts = c
        if okc:
            # conditions that only say that nothing was raised before are dropped
            cc, env, d = _ctx(nctx(r, e), {}, 0)
            keep = []
            raised = [mk_not(_sortf(alpha(r.interp.mk_ex(nctx(r, x))))) for x in r.raises() if x.pos < e.pos]
            g = mk_and(*raised)
            for x in conjuncts(conds(nctx(r, e))):
                a = _sortf(alpha(x))
                if a in raised or implies(g, a) is True:
                    continue
                keep.append(_alpha(norm(x), env, d))
            cond = mk_and(*keep)
        ls = tuple(rewrite(x) if isinstance(x, tuple) else x for x in loops)
        ts = tuple(rewrite(t) if isinstance(t, tuple) else t for t in ts)
        cs = alternatives(("_",) + ts) if any(isinstance(t, tuple) for t in ts) else [(T, ("_",) + ts)]
        for c2, t2 in cs:
            full = mk_and(rewrite(cond), c2)
            if len(cs) > 1 and implies(full, F) is True:
                continue
            out.append((k, (ls, form(full), t2[1:]), e))
    return out


def events_like(R, rule, r, specs, select, what, rewrite=lambda t: t, extra_ok=lambda k, c, e: False, okc=False, exact=True):
    """the chosen events are, as a set, those of one of the references; every difference is reported at its own place"""
    return match_events(R, rule, r.func.where, event_forms(r, select, rewrite, okc), [event_forms(s, select, rewrite, okc) for s in specs], what,
                        extra_ok, exact)


def size(t, stop=64):
    n = 0
    for x in walk(("_", t)):
        n += 1
        if n > stop:
            break
    return n


def near(a, b, limit=2, small=8):
    """a and b are built alike but for a few small parts: they differ, whatever the parts they share stand for"""
    left = [limit]

    def go(x, y):
        if x == y:
            return True
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x and (
                not isinstance(x[0], str) or x[0] == y[0]) and x[0] not in ("c", "g", "p", "and", "or", "not"):
            before = left[0]
            if all(go(p, q) for p, q in zip(x, y)):
                return True
            left[0] = before
        for p, q in ((x, y), (y, x)):
            # one more, or one less, application of a library function
            if isinstance(p, tuple) and p and (p[0] == "m" or p[0] == "call" and p[1][0] == "g" and not p[1][1].startswith("builtins.")) and contains(p, lambda z: z == q) \
                    and isinstance(q, tuple) and q[0] in ("m", "call"):
                left[0] -= 1
                return left[0] >= 0
        if size(x) > small or size(y) > small or {"if", "for"} & {z[0] for t in (x, y) if isinstance(t, tuple) for z in walk(("_", t))}:
            return False
        left[0] -= 1
        return left[0] >= 0
    return a != b and go(a, b)


def match_events(R, rule, w, got, wants, what, extra_ok=lambda k, c, e: False, exact=True):
    """the events `got` are, as a set, those of one of the references"""
    from .rule import same_canon
    best = None
    allw = []
    for want in wants:
        allw += [c for _, c, _ in want]
        used, missing = set(), []
        for k, c, e in want:
            hit = [i for i, (k2, c2, e2) in enumerate(got) if k2 == k and same_canon(c, c2)]
            if hit:
                used.update(hit)
            else:
                missing.append((k, c, e))
        extra = [(k, c, e) for i, (k, c, e) in enumerate(got) if i not in used and not extra_ok(k, c, e)] if exact else []
        score = len(missing) + len(extra)
        if best is None or score < best[0]:
            best = (score, missing, extra, len(want), [g for i, g in enumerate(got) if i not in used])
    score, missing, extra, n, left = best
    if score == 0:
        R.ok(rule, w, f"{what}")
        return True
    rest = extra or left
    flat = lambda c: ("_",) + tuple(x for x in c[0] if isinstance(x, tuple)) + (c[1],) + tuple(t for t in c[2] if isinstance(t, tuple))
    refs = [flat(c) for c in allw]
    fuzzy = any(canon_imprecise(c) for _, c, _ in rest) or any(
        novel(flat(c), *refs) and not different(flat(c), refs) for _, c, _ in rest)
    if fuzzy and len(missing) == len(rest) == 1 and missing[0][0] == rest[0][0] and near(rest[0][1], missing[0][1]):
        fuzzy = bool(novel(flat(rest[0][1]), *refs))
    where = rest[0][2].where if rest else w
    msg = "; ".join([f"missing {k} {show_canon(c)}" for k, c, _ in missing[:2]] +
                    [f"found {k} {show_canon(c)}" for k, c, _ in rest[:2]])
    R.check(False, rule, where, what, msg, unsure=fuzzy)
    return False


def calls_named(*names):
    return lambda k, o, e: k in ("call", "mcall") and o in names


def method(R, qual, text, **kw):
    """(analysis of the function, analysis of the reference text)"""
    r = R.run(qual, **kw)
    ts = [text] if isinstance(text, str) else text
    return r, [R.spec(r.func, t, **{k: v for k, v in kw.items() if k in ("opaque", "attr_types", "depth")}) for t in ts]


def sn(r, t):
    return norm(r.interp.snap(t, r.st)) if isinstance(t, tuple) else t


def best_of(R, specs, fn):
    """judge by the reference that fits best: fn(report, reference) adds the obligations for one of them"""
    best = None
    for s in specs:
        mark = len(R.obs)
        fn(R, s)
        new = R.obs[mark:]
        del R.obs[mark:]
        bad = [o for o in new if o["status"] != "holds"]
        k = (len(bad), -sum(1 for o in bad if o["status"] == "violated"))
        if best is None or k < best[0]:
            best = (k, new)
        if not bad:
            break
    if best:
        R.obs += best[1]
    return best[0][0] == 0 if best else False
