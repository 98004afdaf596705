"""NOTEARS / DYNOTEARS: forbidden edges, names, validation, convergence, thresholds."""
from sa.conform import (alternatives, best_of, distinct, eqv, event_forms, events_like, form, method, novel, pandas_forms, raise_conditions, raises_like, sn,
                        term_like, untouched)
from sa.project import AnalysisError
from sa.rule import A, P, SELF, alpha, conds, fors, imprecise, ncond, ncond_ok, nctx, norm, same, show, source
from sa.terms import F, NONE, T, const, conjuncts, contains, implies, mk_and, mk_ite, mk_not, mk_or, subst, walk
from rules.network import lib

N = "structure.notears."
D = "structure.dynotears."
SMOPS = ("StructureModel.__init__", "StructureModel.add_weighted_edges_from", "StructureModel.add_edges_from", "StructureModel.add_edge")
TABU = ("tabu_edges", "tabu_parent_nodes", "tabu_child_nodes")


# ---------------------------------------------------------------------------------------------- small integer algebra
def poly(t):
    """an integer expression as {monomial: coefficient}; unknown parts are symbols"""
    if t[0] == "c" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool) and float(t[1]).is_integer():
        return {(): int(t[1])} if t[1] else {}
    if t[0] == "op" and t[1] in ("+", "-") and len(t) == 4:
        a, b = poly(t[2]), poly(t[3])
        out = dict(a)
        for m, c in b.items():
            out[m] = out.get(m, 0) + (c if t[1] == "+" else -c)
        return {m: c for m, c in out.items() if c}
    if t[0] == "op" and t[1] == "*" and len(t) == 4:
        return pmul(poly(t[2]), poly(t[3]))
    if t[0] == "op" and t[1] == "**" and t[3][0] == "c" and t[3][1] in (1, 2, 3):
        out = {(): 1}
        for _ in range(t[3][1]):
            out = pmul(out, poly(t[2]))
        return out
    if t[0] == "call" and t[1] == ("g", "builtins.int") and len(t[2]) == 1:
        return poly(t[2][0])
    return {(t,): 1}


def pmul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            out[k] = out.get(k, 0) + c * d
    return {m: c for m, c in out.items() if c}


def padd(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if c}


def pdiv(a, b):
    """a / b when b is a single monomial that divides a, else None"""
    if len(b) != 1:
        return {(): 1} if a == b and a else None
    (m, c), = b.items()
    out = {}
    for n, d in a.items():
        if d % c:
            return None
        r = list(n)
        for x in m:
            if x not in r:
                return None
            r.remove(x)
        out[tuple(r)] = d // c
    return out


def pnum(n):
    return {(): n} if n else {}


# ---------------------------------------------------------------------------------------------- dimensions
def dims(t):
    """shapes of the inputs by name: d columns of X, p*d columns of Xlags"""
    d, p = P("d"), P("p")

    def f(x):
        if x[0] == "i" and x[1][0] == "a" and x[1][2] == "shape" and x[2] == const(1):
            if x[1][1] == P("X"):
                return d
            if x[1][1] == P("Xlags"):
                return ("op", "*", p, d)
        if x[0] == "i" and x[1][0] == "a" and x[1][2] == "shape" and x[2] == const(0) and x[1][1] in (P("X"), P("Xlags")):
            return P("n")
        if x[0] == "call" and x[1] in (("g", "numpy.size"), ("g", "numpy.shape")) and x[1][1] == "numpy.size" and len(x[2]) == 2 and \
                x[2][1] == const(1):
            return dims(("i", ("a", x[2][0], "shape"), const(1)))
        if x[0] == "a" and x[2] == "values" and x[1] == P("X"):
            return P("X")
        return None

    def g(x):
        if x[0] == "op" and x[1] == "//" and len(x) == 4:
            q = pdiv(poly(dims_g(x[2])), poly(dims_g(x[3])))
            if q is not None:
                return unpoly(q)
        return None

    def dims_g(y):
        return subst(y, g)
    return subst(subst(t, f), g)


def unpoly(q):
    out = None
    for m, c in sorted(q.items(), key=repr):
        t = None
        for x in m:
            t = x if t is None else ("op", "*", t, x)
        if c != 1 or t is None:
            t = const(c) if t is None else ("op", "*", const(c), t)
        out = t if out is None else ("op", "+", out, t)
    return out if out is not None else const(0)


# ---------------------------------------------------------------------------------------------- lists of bounds
class Fuzzy(Exception):
    pass


FRESH = [0]


def fresh():
    FRESH[0] += 1
    return ("bl", FRESH[0])


def tree(t):
    """the value of a list expression as a tree of concatenations, counted loops and leaves"""
    if t[0] == "seq" and t[1] in ("list", "tuple", "gen"):
        return cat([emission(em[1], em[2]) for em in t[2]])
    if t[0] == "tuple":
        return cat([("leaf", x) for x in t[1]])
    if t[0] == "op" and t[1] == "*" and len(t) == 4:
        for lst, n in ((t[2], t[3]), (t[3], t[2])):
            if lst[0] in ("seq", "op") and (n[0] == "c" or n[0] in ("p", "op", "i")) and not (n[0] == "op" and islist(n)):
                return repeat(tree(lst), n)
    if t[0] == "op" and t[1] == "+" and len(t) == 4:
        return cat([tree(t[2]), tree(t[3])])
    if t[0] == "call" and t[1][0] == "g" and t[1][1] in ("builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray") and len(t[2]) == 1:
        return tree(t[2][0])
    if t[0] == "ite":
        a, b = tree(t[2]), tree(t[3])
        return choose(t[1], a, b)
    raise Fuzzy(show(t)[:80])


def islist(t):
    return contains(("_", t), lambda x: x[0] == "seq")


def repeat(x, n):
    p = poly(n)
    if set(p) <= {()}:
        return cat([x] * p.get((), 0))
    return ("loop", fresh(), n, x)


def cat(xs):
    out = []
    for x in xs:
        out += x[1] if x[0] == "cat" else [x]
    return out[0] if len(out) == 1 else ("cat", tuple(out)) if not isinstance(out, tuple) else out


def choose(c, a, b):
    if a[0] == b[0] == "leaf":
        return ("leaf", ("ite", c, a[1], b[1]))
    if a[0] == b[0] == "loop" and poly(a[2]) == poly(b[2]):
        return ("loop", a[1], a[2], choose(c, a[3], tsub(b[3], {b[1]: ("el", a[1])})))
    if a[0] == b[0] == "cat" and len(a[1]) == len(b[1]):
        return ("cat", tuple(choose(c, x, y) for x, y in zip(a[1], b[1])))
    raise Fuzzy("alternative lists")


def tsub(x, env):
    f = lambda y: env[y[1]] if y[0] == "el" and len(y) == 2 and y[1] in env else None
    if x[0] == "leaf":
        return ("leaf", subst(x[1], f))
    if x[0] == "loop":
        return ("loop", x[1], subst(x[2], f), tsub(x[3], env))
    return ("cat", tuple(tsub(y, env) for y in x[1]))


def emission(ctx, item):
    if not ctx:
        if item[0] == "x":
            return ("leaf", item[1])
        if item[0] in ("base", "upd"):
            return tree(item[1])
        raise Fuzzy(item[0])
    c = ctx[0]
    if c[0] == "if":
        raise Fuzzy("filtered")
    if len(c) > 3:
        raise Fuzzy("early exit")
    L, coll = c[1], c[2]
    if coll[0] == "call" and coll[1] == ("g", "builtins.range") and not coll[3]:
        a = coll[2]
        if len(a) == 3 and a[2] != const(1):
            raise Fuzzy("step")
        lo, hi = (const(0), a[0]) if len(a) == 1 else a[:2]
        k = fresh()
        n = unpoly(padd(poly(hi), poly(lo), -1))
        x = emission(ctx[1:], item)
        v = ("el", k) if lo == const(0) else ("op", "+", ("el", k), lo)
        return ("loop", k, n, tsub(x, {L: v}))
    if coll[0] == "call" and coll[1] == ("g", "itertools.product") and contains(("_", coll), lambda x: x[0] == "call" and x[1] == ("g", "builtins.range")):
        kw = dict(coll[3])
        cs = list(coll[2])
        if "repeat" in kw:
            if kw["repeat"][0] != "c" or len(cs) != 1:
                raise Fuzzy("product")
            cs = cs * kw["repeat"][1]
        ls = [("bl0", FRESH[0] + 1000 + i) for i in range(len(cs))]
        FRESH[0] += 1000
        x = ctx[1:]
        inner = subst(("em", tuple(x), item), lambda y: ("el", ls[y[2][1]]) if y[0] == "i" and y[1] == ("el", L) and y[2][0] == "c" and
                      isinstance(y[2][1], int) and y[2][1] < len(cs) else None)
        inner = subst(inner, lambda y: ("tuple", tuple(("el", l) for l in ls)) if y == ("el", L) else None)
        return emission(tuple(("for", l, k) for l, k in zip(ls, cs)) + inner[1], inner[2])
    # the elements of a list, one after another
    inner = tree(coll)
    return graft(inner, L, ctx[1:], item)


def graft(x, L, ctx, item):
    if x[0] == "leaf":
        y = subst(("em", tuple(ctx), item), lambda z: x[1] if z == ("el", L) else None)
        return emission(y[1], y[2])
    if x[0] == "loop":
        return ("loop", x[1], x[2], graft(x[3], L, ctx, item))
    return cat([graft(y, L, ctx, item) for y in x[1]])


def member_given(t):
    """membership in a tabu list implies that the list is there"""
    out = []
    for x in walk(("_", t)):
        if x[0] == "in" and x[2][0] == "p" and x[2][1] in TABU:
            out.append(mk_or(mk_not(x), x[2]))
            out.append(mk_or(mk_not(x), mk_not(("is", NONE, x[2]))))
    for p in TABU:
        out.append(mk_or(mk_not(P(p)), mk_not(("is", NONE, P(p)))))
    return mk_and(*set(out)) if out else T


def tabu_forms(t):
    """membership in the empty default of a tabu list is false; a set of the list has the list's members; indices as polynomials"""
    def lists(x):
        # what `x in <this>` amounts to: [(condition, collection)]
        if x[0] == "ite":
            return [(mk_and(x[1], c), y) for c, y in lists(x[2])] + [(mk_and(mk_not(x[1]), c), y) for c, y in lists(x[3])]
        if x[0] == "call" and x[1][0] == "g" and x[1][1] in ("builtins.set", "builtins.frozenset", "builtins.list", "builtins.tuple") and len(x[2]) == 1:
            return lists(x[2][0])
        if x[0] == "seq":
            if not x[2]:
                return []
            if source(x) != x:
                return lists(source(x))
            if len(x[2]) == 1 and x[2][0][2][0] in ("x", "base") and len(x[2][0][1]) <= 1:
                b = x[2][0]
                if b[2][0] == "base" and not b[1]:
                    return lists(b[2][1])
                if b[1] and b[1][0][0] == "for" and b[2] == ("x", ("el", b[1][0][1])):
                    return lists(b[1][0][2])
        if x[0] == "tuple" and not x[1]:
            return []
        if x[0] == "bop" and x[1] == "or":
            out, rest = [], T
            for y in x[2]:
                out += [(mk_and(rest, c), z) for c, z in lists(y)]
                rest = mk_and(rest, mk_not(y)) if y[0] == "p" else rest
            return out
        return [(T, x)]

    def f(x):
        if x[0] == "in":
            ls = lists(x[2])
            if ls != [(T, x[2])]:
                y = tabu_forms(x[1])
                return mk_or(*[mk_and(tabu_forms(c), ("in", y, z)) for c, z in ls]) if ls else F
        return None
    return subst(t, f)


def cases(v):
    """[(condition, value)] of nested conditionals"""
    if v[0] == "ite":
        return [(mk_and(v[1], c), x) for c, x in cases(v[2])] + [(mk_and(mk_not(v[1]), c), x) for c, x in cases(v[3])]
    if v[0] == "i" and v[1][0] == "tuple" and len(v[1][1]) == 2 and v[2][0] not in ("c",):
        return [(mk_not(v[2]), v[1][1][0]), (v[2], v[1][1][1])]
    if v[0] in ("tuple",):
        return [(T, tuple(num(x) for x in v[1]))]
    if v[0] == "seq" and all(e[1] == () and e[2][0] == "x" for e in v[2]):
        return [(T, tuple(num(x[2][1]) for x in v[2]))]
    return [(T, v)]


def num(x):
    if x[0] == "c" and isinstance(x[1], (int, float)) and not isinstance(x[1], bool) and float(x[1]) == int(x[1]):
        return const(int(x[1]))
    return x


def peeled(x):
    """comparisons of a round number with a constant are decided"""
    if x[0] == "cat":
        return ("cat", tuple(peeled(y) for y in x[1]))
    if x[0] == "loop":
        return x[:3] + (peeled(x[3]),)

    def f(t):
        if t[0] in ("==", "<"):
            q = padd(poly(t[1]), poly(t[2]), -1)
            lone = all(len(m) == 1 and m[0][0] == "el" for m in q if m)
            c, signs = q.get((), 0), {s > 0 for m, s in q.items() if m}
            if not q or set(q) == {()}:
                return T if (c == 0 if t[0] == "==" else c < 0) else F
            if lone and len(signs) == 1:
                up = signs == {True}
                if t[0] == "==" and (c > 0 if up else c < 0):
                    return F
                if t[0] == "<" and (c >= 0 if up else False):
                    return F
                if t[0] == "<" and not up and c < 0:
                    return T
        return None
    return ("leaf", simplify(subst(x[1], f)))


def simplify(t):
    def f(x):
        if x[0] == "and":
            return mk_and(*[subst(y, f) for y in x[1:]])
        if x[0] == "or":
            return mk_or(*[subst(y, f) for y in x[1:]])
        if x[0] == "not":
            return mk_not(subst(x[1], f))
        if x[0] == "ite":
            c = subst(x[1], f)
            return subst(x[2], f) if c == T else subst(x[3], f) if c == F else ("ite", c, subst(x[2], f), subst(x[3], f))
        return None
    return subst(t, f)


def merge(cs):
    out = {}
    for c, v in cs:
        out[v] = mk_or(out.get(v, F), c)
    return out


def compare(R, rule, where, what, got, want, env=None):
    """the bounds tree `got` is the reference tree `want`"""
    env = env or {}
    if got[0] == "loop" and want[0] == "loop":
        if poly(got[2]) != poly(want[2]):
            R.bad(rule, where, what, f"a block of {show(got[2])} bounds where {show(want[2])} are needed")
            return False
        k = ("B", len(env))
        return compare(R, rule, where, what, tsub(got[3], {got[1]: ("el", k)}), tsub(want[3], {want[1]: ("el", k)}), dict(env, **{repr(k): 1}))
    if got[0] == "loop" and want[0] == "cat":
        m = min(len(want[1]), 8)
        for k in range(1, m):
            if padd(poly(got[2]), pnum(k), -1) == (poly(want[1][-1][2]) if want[1][-1][0] == "loop" else None):
                # the first rounds of the loop one by one
                first = cat([tsub(got[3], {got[1]: const(i)}) for i in range(k)])
                rest = ("loop", got[1], unpoly(padd(poly(got[2]), pnum(k), -1)), peeled(tsub(got[3], {got[1]: ("op", "+", ("el", got[1]), const(k))})))
                got = cat([peeled(first), rest])
                break
    if got[0] == "cat" and want[0] == "cat" and len(got[1]) == len(want[1]):
        return all([compare(R, rule, where, what, a, b, env) for a, b in zip(got[1], want[1])])
    if got[0] == "leaf" and want[0] == "leaf":
        g, w = merge(cases(got[1])), merge(cases(want[1]))
        zero = (const(0), const(0))
        given = member_given(("_", got[1], want[1]))
        gz, wz = canon_idx(g.get(zero, F)), canon_idx(w.get(zero, F))
        odd = {v: c for v, c in g.items() if v not in w and implies(mk_and(c, given), F) is not True}
        if any(not isinstance(v, tuple) or v and isinstance(v[0], str) for v in odd):
            R.und(rule, where, what, f"bounds {[show(v) for v in odd][:2]}")
            return None
        if odd:
            R.bad(rule, where, what, f"another bound: {[tuple(show(x) for x in v) for v in odd][:2]}")
            return False
        if all(eqv(canon_idx(g.get(v, F)), canon_idx(c), given) is True for v, c in w.items()):
            return True
        R.check(False, rule, where, what, f"pinned to zero if {show(gz)[:250]}; required: if {show(wz)[:250]}",
                unsure=imprecise(("_", gz)) or bool(novel(gz, wz)))
        return False
    R.bad(rule, where, what, f"bounds are laid out as {shape(got)}; required {shape(want)}")
    return False


def canon_idx(c):
    """index arithmetic inside conditions in one form"""
    def f(x):
        if x[0] == "op" and x[1] in ("+", "-") and contains(("_", x), lambda y: y[0] == "el"):
            y = unpoly(poly(x))
            return y if y != x else None
        if x[0] == "==" and (x[1][0] == "op" or x[2][0] == "op"):
            return None
        return None
    return subst(c, f)


def shape(x):
    if x[0] == "leaf":
        return "b"
    if x[0] == "loop":
        return f"{show(x[2])}×[{shape(x[3])}]"
    return " + ".join(shape(y) for y in x[1])


def bounds_rule(R, r, want, what, rule="bounds"):
    w = r.func.where
    calls = [e for e in r.ev("call") if e["name"] == "minimize"]
    if not calls:
        R.und(rule, w, what, "the optimiser call is not recognised")
    for e in calls:
        b = e["args"].get("bounds", e["args"].get(7))
        if b is None or not isinstance(b, tuple):
            R.check(False, rule, e.where, what, "the optimiser runs without bounds", unsure="**" in e["args"])
            continue
        m = e["args"].get("method", e["args"].get(3))
        if isinstance(m, tuple) and m[0] == "c":
            R.check(m[1] in ("L-BFGS-B", "TNC", "SLSQP", "Powell", "trust-constr", "Nelder-Mead"), rule, e.where, "the optimiser honours bounds", f"method {m[1]}")
        else:
            R.check(m is None or None, rule, e.where, "the optimiser honours bounds", f"method {m and show(m)}")
        t = tabu_forms(dims(sn(r, b)))
        try:
            got = tree(t)
        except Fuzzy as x:
            R.und(rule, e.where, what, f"bounds not recognised: {x}")
            continue
        if compare(R, rule, e.where, what, got, tree(want)):
            R.ok(rule, e.where, what)


def want_bounds(R, r, text, params):
    s = R.spec(r.func, text)
    return dims(norm(s.final(s.ret)))


# ---------------------------------------------------------------------------------------------- layouts of vectors
def layout(t, base):
    """where the entries of a matrix lie in the optimised vector: [(sign, offset, axes)], axes = [[(dim, stride), ..], ..]; None when unknown"""
    if base(t):
        return [(1, {}, None)]
    if t[0] == "m" and t[2] in ("copy", "flatten", "ravel") and not t[3]:
        x = layout(t[1], base)
        if t[2] == "copy" or x is None:
            return x
        return reshape(x, [None])
    if t[0] == "m" and t[2] == "reshape":
        x = layout(t[1], base)
        a = t[3]
        if x is None or t[4]:
            return None
        if len(a) == 1 and a[0][0] == "seq":
            a = [e[2][1] for e in a[0][2]] if all(e[1] == () and e[2][0] == "x" for e in a[0][2]) else None
        elif len(a) == 1 and a[0][0] == "tuple":
            a = a[0][1]
        if a is None:
            return None
        return reshape(x, [None if y == const(-1) else poly(y) for y in a])
    if t[0] == "call" and t[1] == ("g", "numpy.reshape") and len(t[2]) == 2 and not t[3]:
        return layout(("m", t[2][0], "reshape", (t[2][1],), ()), base)
    if t[0] == "op" and t[1] == "-" and len(t) == 4:
        a, b = layout(t[2], base), layout(t[3], base)
        if a is None or b is None:
            return None
        return a + [(-s, o, x) for s, o, x in b]
    if t[0] == "op" and t[1] == "+" and len(t) == 4:
        a, b = layout(t[2], base), layout(t[3], base)
        return None if a is None or b is None else a + b
    if t[0] == "i":
        x = layout(t[1], base)
        return None if x is None else take(x, t[2])
    if t[0] == "a" and t[2] == "T":
        x = layout(t[1], base)
        if x is None or any(y[2] is None for y in x):
            return None
        return [(s, o, list(reversed(ax))) for s, o, ax in x]
    return None


TOTAL = ("g", "total")
LENGTH = [{(TOTAL,): 1}]


class length_is:
    """the length of the optimised vector, where the bounds and the starting value fix it"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        LENGTH[0] = self.n if self.n is not None else {(TOTAL,): 1}

    def __exit__(self, *a):
        LENGTH[0] = {(TOTAL,): 1}


def take(x, k):
    ks = list(k[1]) if k[0] == "tuple" else [k]
    out = []
    for s, o, ax in x:
        if ax is None:
            ax = [[(LENGTH[0], {(): 1})]]
        if len(ks) > len(ax):
            return None
        nax = []
        for i, a in enumerate(ax):
            if i >= len(ks) or ks[i] == ("slice", NONE, NONE, NONE):
                nax.append(a)
                continue
            q = ks[i]
            if q[0] != "slice" or len(a) != 1:
                return None
            (dim, st), = a
            lo = {} if q[1] == NONE else poly(q[1])
            hi = dim if q[2] == NONE else poly(q[2])
            step = 1 if q[3] == NONE else q[3][1] if q[3][0] == "c" else None
            if step is None or step < 1 or any(c < 0 for c in list(lo.values()) + list(hi.values()) if q[1] != NONE and q[1][0] == "c" or c < 0):
                return None
            o = padd(o, pmul(lo, st))
            n = padd(hi, lo, -1)
            if q[2] == NONE and dim == {(TOTAL,): 1}:
                n = dim
            if step != 1:
                # every step-th entry: the count is exact when the length is a multiple of the step (plus the dropped start)
                m = pdiv(hi, {(): step})
                if m is None or (lo and (set(lo) != {()} or lo[()] >= step)):
                    return None
                n = m
            nax.append([(n, pmul(st, {(): step}))])
        out.append((s, o, nax))
    return out


def reshape(x, shp):
    out = []
    for s, o, ax in x:
        if ax is None:
            ax = [[(LENGTH[0], {(): 1})]]
        flat = [f for a in ax for f in a]
        r = split(flat, shp)
        if r is None:
            return None
        out.append((s, o, r))
    return out


def split(flat, shp):
    """row-major regrouping of factors (dim, stride) into axes of the given sizes"""
    # merge factors that are contiguous with one another
    flat = list(flat)
    i = 0
    while i + 1 < len(flat):
        (d1, s1), (d2, s2) = flat[i], flat[i + 1]
        if s1 == pmul(d2, s2):
            flat[i:i + 2] = [(pmul(d1, d2), s2)]
        else:
            i += 1
    if shp == [None]:
        return [flat]
    total = {(): 1}
    for d, _ in flat:
        total = pmul(total, d)
    if None in shp:
        known = {(): 1}
        for d in shp:
            if d is not None:
                known = pmul(known, d)
        miss = pdiv(total, known)
        if miss is None:
            return None
        shp = [miss if d is None else d for d in shp]
    unknown = (TOTAL,) in total
    out = []
    for n, size in enumerate(reversed(shp)):
        axis = []
        need = size
        last = n == len(shp) - 1
        while need != {(): 1} or (last and flat):
            if not flat:
                return None
            d, st = flat.pop()
            if last and unknown and not flat and d == {(TOTAL,): 1}:
                axis.insert(0, (need, st))
                need = {(): 1}
                continue
            if last and not flat and d == need:
                axis.insert(0, (d, st))
                need = {(): 1}
                continue
            q = pdiv(need, d)
            if q is not None:
                axis.insert(0, (d, st))
                need = q
                continue
            if d == {(TOTAL,): 1}:
                axis.insert(0, (need, st))
                flat.append(({(TOTAL,): 1}, pmul(st, need)))
                need = {(): 1}
                continue
            q = pdiv(d, need)
            if q is None:
                return None
            axis.insert(0, (need, st))
            flat.append((q, pmul(st, need)))
            need = {(): 1}
        # one factor where the parts are contiguous
        i = 0
        while i + 1 < len(axis):
            (d1, s1), (d2, s2) = axis[i], axis[i + 1]
            if s1 == pmul(d2, s2):
                axis[i:i + 2] = [(pmul(d1, d2), s2)]
            else:
                i += 1
        out.insert(0, axis)
    return out


def show_layout(x):
    p = lambda q: show(unpoly(q))
    if x is None:
        return "?"
    return " ".join(("+" if s > 0 else "-") + f"x[{p(o)} + " + ", ".join("(" + " ".join(f"{p(d)}·{p(st)}" for d, st in a) + ")" for a in ax or []) + "]"
                    for s, o, ax in x)


def solution(t):
    """the optimised vector: the last result of the optimiser (or its starting value)"""
    has = contains(("_", t), lambda x: x[0] == "call" and x[1] == ("g", "scipy.optimize.minimize"))
    if t[0] == "a" and t[2] == "x" and has:
        return True
    if t[0] == "i" and t[2] == const("x") and has:
        return True
    if t[0] == "ite":
        return has and all(solution(y) or y[0] in ("lv", "lvc") or not contains(("_", y), lambda x: x[0] == "call" and x[1] == ("g", "scipy.optimize.minimize"))
                           and solution_start(y) for y in t[2:4])
    if t[0] in ("lout", "red", "last"):
        return has
    return False


def solution_start(y):
    return y[0] == "call" and y[1][0] == "g" and y[1][1].startswith("numpy.zeros") or y[0] in ("lv", "lvc")


def matrices(t, table):
    """replace every matrix read from the optimised vector by its name; layouts that have none are collected"""
    odd = []

    def f(x):
        if x[0] in ("m", "op", "i", "a", "lout", "call"):
            if x[0] == "a" and x[2] not in ("T", "x"):
                return None
            y = layout(x, solution)
            if y is None:
                return None
            if any(ax is None for _, _, ax in y):
                return None
            for name, w in table:
                if sorted(map(repr, y)) == sorted(map(repr, w)):
                    return P(name)
            odd.append((x, y))
            return P("W?")
        return None
    return subst(dims(t), f), odd


# ---------------------------------------------------------------------------------------------- frames
def frame(t):
    """a copy of an input has its columns and values; one spelling of positions, values and edge listings"""
    def f(x):
        if x[0] == "fcopy":
            return frame(x[1])
        if x[0] == "m" and x[2] == "get_loc" and len(x[3]) == 1:
            return ("m", frame(x[1]), "index", (frame(x[3][0]),), ())
        if x[0] == "m" and x[2] in ("to_numpy",) and not x[3] and not x[4]:
            return ("a", frame(x[1]), "values")
        if x[0] == "call" and x[1] in (("g", "numpy.array"), ("g", "numpy.asarray")) and len(x[2]) == 1 and not x[3]:
            return ("a", frame(x[2][0]), "values")
        if x[0] == "m" and x[2] == "edges" and (x[3] or x[4]):
            kw = dict(x[4])
            data = x[3][0] if x[3] else kw.get("data")
            return ("m", ("a", frame(x[1]), "edges"), "data", (frame(data),), ()) if data is not None else None
        if x[0] == "m" and x[2] == "data" and x[4] and not x[3] and x[4][0][0] == "data":
            return ("m", frame(x[1]), "data", (frame(x[4][0][1]),), ())
        if x[0] == "fmt":
            return ("fmt", tuple(frame(y[2][0]) if isinstance(y, tuple) and y[0] == "call" and y[1] == ("g", "builtins.str") and len(y[2]) == 1
                                 else frame(y) if isinstance(y, tuple) else y for y in x[1]))
        if x[0] == "m" and x[2] == "keys" and not x[3]:
            return frame(x[1])
        if x[0] == "seq" and x[1] == "dict" and len(x[2]) == 1 and x[2][0][2][0] == "kv" and len(x[2][0][1]) == 1 and \
                x[2][0][1][0][0] == "for" and x[2][0][2][1] == ("el", x[2][0][1][0][1]):
            # only ever used as the collection of its keys
            return None
        return None

    def g(x):
        # iterating a dictionary is iterating its keys
        if x[0] == "for" and x[2][0] == "seq" and x[2][1] == "dict" and len(x[2][2]) == 1:
            e = x[2][2][0]
            if e[2][0] == "kv" and len(e[1]) == 1 and e[1][0][0] == "for" and e[2][1] == ("el", e[1][0][1]):
                return ("for", x[1], subst(e[1][0][2], g)) + tuple(subst(y, g) if isinstance(y, tuple) else y for y in x[3:])
        return None
    return dict_forms(subst(subst(lib(t), f), g))


def tabu_arg(t, name):
    """a translated tabu list; an absent list may stay absent or become empty"""
    p = P(name)
    absent = (p, NONE, ("seq", "list", ()), ("tuple", ()), ("seq", "set", ()))

    def present(c):
        return c == p or c == mk_not(("is", NONE, p)) or set(conjuncts(c)) == {p, mk_not(("is", NONE, p))}

    def f(x):
        if x[0] == "ite" and len(x) == 4:
            if present(x[1]) and x[3] in absent:
                return tabu_arg(x[2], name) if x[2] != p else p
            if x[2] in absent and present(mk_not(x[1])):
                return tabu_arg(x[3], name) if x[3] != p else p
        if x[0] == "bop" and x[1] == "or" and len(x[2]) == 2 and x[2][0] == p and x[2][1] in absent:
            return p
        if x[0] == "seq" and x[1] in ("set", "tuple", "gen"):
            return ("seq", "list") + subst(x[2:], f)
        return None
    return subst(t, f)


def same_arg(R, rule, r, e, name, got, wants, what):
    if not isinstance(got, tuple):
        R.check(False, rule, e.where, what, f"{name} is not passed on", unsure="**" in e["args"])
        return
    term_like(R, rule, e.where, what, tabu_arg(frame(sn(r, got)), name), [tabu_arg(frame(w), name) for w in wants],
              unsure=novel_frame(frame(sn(r, got))))


def novel_frame(t):
    return bool({x[2] for x in walk(("_", t)) if x[0] == "m"} & {"isin", "map", "apply", "get_indexer", "isnull", "reindex"})


PANDAS = {"from_pandas": "from_numpy", "from_pandas_lasso": "from_numpy_lasso"}


def tabu_translated(R, r, callee, cols, lag=""):
    es = [e for e in r.ev("call") if e["name"] == callee]
    w = r.func.where
    if not es:
        R.und("tabu-translated", w, f"the learner receives the tabu lists", f"no call of {callee} recognised")
    for e in es:
        lists = [R.spec(r.func, f"def spec({', '.join(r.func.params)}):\n    c = {c}\n    return {x}\n") for c in cols for x in (
            f"([({lag}c.index(u), c.index(v)) for {lag}u, v in tabu_edges], [c.index(n) for n in tabu_parent_nodes], [c.index(n) for n in tabu_child_nodes])",)]
        for i, t in enumerate(TABU):
            same_arg(R, "tabu-translated", r, e, t, e["args"].get(t), [norm(s.final(s.ret))[1][i] for s in lists],
                     f"{r.func.name} translates {t} to column positions")


def model_arg(r):
    """the adjacency matrix the returned structure is made of"""
    t = norm(r.final(r.ret))
    if t[0] == "new" and t[1].endswith("StructureModel") and t[2]:
        return t[2][0]
    return None


LAG0 = '''
def spec({params}):
    d = X.shape[1]
    return [(0, 0) if i == j or (tabu_edges is not None and {edge} in tabu_edges) or (tabu_parent_nodes is not None and i in tabu_parent_nodes)
            or (tabu_child_nodes is not None and j in tabu_child_nodes) else ({lo}, None) for i in range(d) for j in range(d)]{times}
'''
LAGK = '''
def spec({params}):
    d = X.shape[1]
    p = Xlags.shape[1] // d
    b = 2 * [(0, 0) if i == j or (tabu_edges is not None and (0, i, j) in tabu_edges) or (tabu_parent_nodes is not None and i in tabu_parent_nodes)
             or (tabu_child_nodes is not None and j in tabu_child_nodes) else (0, None) for i in range(d) for j in range(d)]
    for k in range(1, p + 1):
        b.extend(2 * [(0, 0) if (tabu_edges is not None and (k, i, j) in tabu_edges) or (tabu_parent_nodes is not None and i in tabu_parent_nodes)
                      or (tabu_child_nodes is not None and j in tabu_child_nodes) else (0, None) for i in range(d) for j in range(d)])
    return b
'''
DD = poly(("op", "*", P("d"), P("d")))
PD = poly(P("d"))


def grid2(off, sign=1, lead=None, stride=None):
    """layout of a d × d matrix (or (lead·d) × d stacked with the given stride) at an offset"""
    rows = [(PD, PD)] if lead is None else [(lead, stride), (PD, PD)]
    return (sign, off, [rows, [(PD, {(): 1})]])


FREE = [grid2({})]
SIGNED = [grid2({}), grid2(DD, -1)]
LAGGED = [grid2(pmul(DD, pnum(2)), 1, poly(P("p")), pmul(DD, pnum(2))), grid2(pmul(DD, pnum(3)), -1, poly(P("p")), pmul(DD, pnum(2)))]


def same_layout(a, b):
    k = lambda x: sorted(repr((s, sorted(o.items(), key=repr), [[(sorted(d.items(), key=repr), sorted(t.items(), key=repr)) for d, t in q] for q in ax]))
                         for s, o, ax in x)
    return all(ax is not None for _, _, ax in a) and k(a) == k(b)


def strip(t):
    """the matrix before thresholding or copying"""
    while True:
        if t[0] == "call" and t[1] == ("g", "numpy.where") and len(t[2]) == 3:
            keep = [y for y in t[2][1:] if not (y[0] == "c")]
            if len(keep) == 1:
                t = keep[0]
                continue
        if t[0] == "m" and t[2] == "copy" and not t[3]:
            t = t[1]
            continue
        return t


def c26(R):
    for fn, lo, times, want in (("from_numpy", "None", "", FREE), ("from_numpy_lasso", "0", " * 2", SIGNED)):
        r = R.run(N + fn, opaque=SMOPS)
        bounds_rule(R, r, want_bounds(R, r, LAG0.format(params=", ".join(r.func.params), edge="(i, j)", lo=lo, times=times), r.func.params),
                    f"{fn} pins self-loops and tabu edges to zero and leaves every other weight free")
        w = r.func.where
        m = model_arg(r)
        what = f"{fn} returns the weights at the positions the bounds describe"
        with length_is(pmul(DD, pnum(len(want)))):
            y = layout(strip(dims(m)), solution) if m else None
        if y is None:
            R.und("weights-placed", w, what, "the returned matrix is not recognised")
        else:
            R.check(same_layout(y, want), "weights-placed", w, what, f"matrix entries are {show_layout(y)}; required {show_layout(want)}")
    for fn, callee in PANDAS.items():
        r = R.run(N + fn, opaque=(N + callee,) + SMOPS)
        tabu_translated(R, r, callee, ["X.columns"])


# ---------------------------------------------------------------------------------------------- lagged matrices
def ranges(t):
    out = {}
    for x in walk(("_", t)):
        if x[0] == "for" and x[2][0] == "call" and x[2][1] == ("g", "builtins.range") and len(x[2][2]) == 1:
            out[x[1]] = x[2][2][0]
    return out


def division(t, n, rg):
    """(quotient, remainder) of an index by n, when it can be read off"""
    q, rest = {}, {}
    for m, c in poly(t).items():
        s = pdiv({m: c}, n)
        if s is not None:
            q = padd(q, s)
        else:
            rest = padd(rest, {m: c})
    if not rest:
        return q, rest
    if len(rest) == 1:
        (m, c), = rest.items()
        if c == 1 and len(m) == 1 and m[0][0] == "el" and m[0][1] in rg and poly(rg[m[0][1]]) == n:
            return q, rest
    return None


def lag_grid(t):
    """rows of a stacked matrix by lag and variable, entries of a two-level list by their two indices"""
    big = poly(("op", "*", P("p"), P("d")))

    def names(x):
        return tuple(x) if isinstance(x, list) else x

    def loops(x):
        if x[0] == "em":
            new, sub = [], {}
            for c in x[1]:
                c = subst(c, lambda y: sub.get(y)) if sub else c
                if c[0] == "for" and len(c) == 3 and c[2][0] == "call" and c[2][1] == ("g", "builtins.range") and len(c[2][2]) == 2:
                    lo, hi = c[2][2]
                    sub[("el", c[1])] = ("op", "+", ("el", c[1]), lo)
                    c = ("for", c[1], ("call", c[2][1], (unpoly(padd(poly(hi), poly(lo), -1)),), ()))
                if c[0] == "for" and len(c) == 3 and c[2][0] == "call" and c[2][1] == ("g", "builtins.range") and len(c[2][2]) == 1 and \
                        poly(c[2][2][0]) == big:
                    a, b = ("hi", c[1]), ("lo", c[1])
                    new += [("for", a, ("call", ("g", "builtins.range"), (P("p"),), ())), ("for", b, ("call", ("g", "builtins.range"), (P("d"),), ()))]
                    sub[("el", c[1])] = ("op", "+", ("op", "*", P("d"), ("el", a)), ("el", b))
                else:
                    new.append(subst(c, lambda y: sub.get(y)))
            if new != list(x[1]) or sub:
                return ("em", tuple(subst(c, loops) for c in new), subst(subst(x[2], lambda y: sub.get(y)), loops))
        return None
    t = subst(t, loops)
    rg = ranges(t)

    def arith(x):
        if x[0] == "op" and x[1] in ("//", "%") and len(x) == 4:
            n = poly(x[3])
            if len(n) == 1:
                v = division(subst(x[2], arith), n, rg)
                if v is not None:
                    return unpoly(v[0] if x[1] == "//" else v[1])
        if x[0] == "i" and x[1][0] == "seq" and len(x[1][2]) == 1 and x[1][2][0][2][0] == "x":
            em = x[1][2][0]
            if len(em[1]) == 2 and all(c[0] == "for" and len(c) == 3 and c[2][0] == "call" and c[2][1] == ("g", "builtins.range") and
                                       len(c[2][2]) == 1 for c in em[1]):
                v = division(subst(x[2], arith), poly(em[1][1][2][2][0]), rg)
                if v is not None:
                    a, b = unpoly(v[0]), unpoly(v[1])
                    return subst(em[2][1], lambda y: a if y == ("el", em[1][0][1]) else b if y == ("el", em[1][1][1]) else None)
        if x[0] == "op" and x[1] in ("+", "*", "-") and len(x) == 4:
            y = unpoly(poly(("op", x[1], subst(x[2], arith), subst(x[3], arith))))
            return y if y != x else None
        if x[0] == "i" and x[1][0] == "i" and x[1][1][0] == "p" and x[1][1][1] in ("W", "A"):
            return ("i", x[1][1], ("tuple", (subst(x[1][2], arith), subst(x[2], arith))))
        return None
    return subst(t, arith)


MATS = [("W", SIGNED), ("A", LAGGED)]


def mat_terms(t):
    """the matrices read from the optimised vector by name, their shapes by name"""
    odd = []

    def f(x):
        if x[0] in ("m", "op", "i", "call"):
            y = layout(strip(x), solution)
            if y is None or any(ax is None for _, _, ax in y):
                return None
            for name, w in MATS:
                if same_layout(y, w):
                    return P(name)
            odd.append((x, y))
            return P("W?")
        return None
    t = subst(dims(t), f)

    def g(x):
        if x[0] == "i" and x[1][0] == "a" and x[1][2] == "shape" and x[1][1] in (P("W"), P("A")) and x[2] in (const(0), const(1)):
            return ("op", "*", P("p"), P("d")) if x[1][1] == P("A") and x[2] == const(0) else P("d")
        if x[0] == "call" and x[1] == ("g", "builtins.len") and x[2] in ((P("W"),), (P("A"),)):
            return ("op", "*", P("p"), P("d")) if x[2] == (P("A"),) else P("d")
        return None
    return dims(subst(t, g)), odd


def c27(R):
    r = R.run(D + "from_numpy_dynamic", opaque=SMOPS)
    params = ", ".join(r.func.params)
    bounds_rule(R, r, want_bounds(R, r, LAGK.format(params=params), r.func.params),
                "from_numpy_dynamic pins intra-slice self-loops and the tabu edges of every lag to zero, and only those, and keeps both parts non-negative")
    odd = []

    def rewrite(t):
        if t[0] == "new":
            return P("sm")
        x, o = mat_terms(t)
        odd.extend(o)
        return dict_forms(lag_grid(x))
    specs = [R.spec(r.func, f'''
def spec({params}, W, A):
    d = X.shape[1]
    p = Xlags.shape[1] // X.shape[1]
    lag_cols = ["{{var}}_lag{{l}}".format(var=var, l=l) for l in range(p + 1) for var in range(d)]
    sm = StructureModel()
    sm.add_nodes_from(lag_cols)
    sm.add_edges_from([(lag_cols[i], lag_cols[j], dict(weight=W[i, j])) for i in range(d) for j in range(d) if W[i, j] != 0])
    sm.add_edges_from([(lag_cols[i + d], lag_cols[j], dict(weight=A[i, j])) for i in range(p * d) for j in range(d) if A[i, j] != 0])
    return sm
''', opaque=SMOPS), R.spec(r.func, f'''
def spec({params}, W, A):
    d = X.shape[1]
    p = Xlags.shape[1] // X.shape[1]
    lag_cols = ["{{var}}_lag{{l}}".format(var=var, l=l) for l in range(p + 1) for var in range(d)]
    sm = StructureModel()
    sm.add_nodes_from(lag_cols)
    sm.add_weighted_edges_from([(lag_cols[i], lag_cols[j], W[i, j]) for i in range(d) for j in range(d) if W[i, j] != 0])
    sm.add_weighted_edges_from([(lag_cols[i + d], lag_cols[j], A[i, j]) for i in range(p * d) for j in range(d) if A[i, j] != 0])
    return sm
''', opaque=SMOPS), R.spec(r.func, f'''
def spec({params}, W, A):
    d = X.shape[1]
    p = Xlags.shape[1] // X.shape[1]
    lag_cols = ["{{var}}_lag{{l}}".format(var=var, l=l) for l in range(p + 1) for var in range(d)]
    sm = StructureModel()
    sm.add_nodes_from(lag_cols)
    for i in range(d):
        for j in range(d):
            if W[i, j] != 0:
                sm.add_edge(lag_cols[i], lag_cols[j], weight=W[i, j])
    for i in range(p * d):
        for j in range(d):
            if A[i, j] != 0:
                sm.add_edge(lag_cols[i + d], lag_cols[j], weight=A[i, j])
    return sm
''', opaque=SMOPS)]
    sel = lambda k, o, e: k == "mut" and e["method"] in ("add_nodes_from", "add_node") or k == "call" and e["name"] in (
        "add_edges_from", "add_edge", "add_weighted_edges_from")
    mark = len(R.obs)
    events_like(R, "weights-placed", r, specs, sel, "every non-zero weight becomes the edge of its lag, source and target, with that weight",
                rewrite=rewrite, okc=True)
    if odd and len(R.obs) > mark and R.obs[mark]["status"] == "undecided":
        R.obs[mark:] = []
        R.bad("weights-placed", r.func.where, "every non-zero weight becomes the edge of its lag, source and target, with that weight",
              f"a matrix is read as {show_layout(odd[0][1])}; required W {show_layout(SIGNED)} and A {show_layout(LAGGED)}")
    r = R.run(D + "from_pandas_dynamic", opaque=(D + "from_numpy_dynamic", "DynamicDataTransformer.fit_transform", "DynamicDataTransformer.fit",
                                                "DynamicDataTransformer.transform") + SMOPS)
    tabu_translated(R, r, "from_numpy_dynamic", ["(time_series[0].columns if isinstance(time_series, list) else time_series.columns)",
                                                 "(time_series.columns if not isinstance(time_series, list) else time_series[0].columns)",
                                                 "(time_series if isinstance(time_series, list) else [time_series])[0].columns"], "lag, ")


def dict_forms(t):
    """constant parts of a name are one text"""
    def f(x):
        if x[0] != "fmt":
            return None
        out = []
        for y in x[1]:
            y = subst(y, f) if isinstance(y, tuple) else y
            y = const(str(y[1])) if isinstance(y, tuple) and y[0] == "c" and isinstance(y[1], (int, str)) and not isinstance(y[1], bool) else y
            if out and isinstance(y, tuple) and y[0] == "c" and isinstance(out[-1], tuple) and out[-1][0] == "c":
                out[-1] = const(out[-1][1] + y[1])
            else:
                out.append(y)
        return ("fmt", tuple(out))
    return subst(t, f)


# ---------------------------------------------------------------------------------------------- C28: names
def abstract(t, callees):
    """the structure learned on positions by name"""
    def f(x):
        if x[0] == "call" and x[1][0] == "g" and x[1][1].split(".")[-1] in callees and x[1][1].startswith("causalnex."):
            return P("g")
        if x[0] == "new" and x[1].endswith("StructureModel"):
            return P("sm")
        return None
    return subst(t, f)


def c28(R):
    with distinct("mean", "std", "abs", "round", "astype", "sort_index", "drop", "T", "sample"):
        _c28(R)


def _c28(R):
    sel = lambda k, o, e: k == "mut" and e["method"] in ("add_nodes_from", "add_node") or k == "call" and e["name"] in (
        "add_edges_from", "add_edge", "add_weighted_edges_from")
    dyn_cols = "(time_series[0].columns if isinstance(time_series, list) else time_series.columns)"
    for mod, fn, callee in ((N, "from_pandas", "from_numpy"), (N, "from_pandas_lasso", "from_numpy_lasso"), (D, "from_pandas_dynamic", "from_numpy_dynamic")):
        dyn = mod == D
        opaque = (mod + callee, "DynamicDataTransformer.fit_transform", "DynamicDataTransformer.fit", "DynamicDataTransformer.transform") + SMOPS
        r = R.run(mod + fn, opaque=opaque)
        w = r.func.where
        ps = ", ".join(r.func.params)
        callees = {callee}
        cols = dyn_cols if dyn else "X.columns"
        if dyn:
            nodes = "sm.add_nodes_from(['{v}_lag{l}'.format(v=v, l=l) for v in c for l in range(p + 1)])"
            nodes2 = "sm.add_nodes_from(['{v}_lag{l}'.format(v=v, l=l) for l in range(p + 1) for v in c])"
            u, v = ("'{v}_lag{l}'.format(v=c[int(%s.split('_lag')[0])], l=%s.split('_lag')[1])" % (x, x) for x in "uv")
        else:
            nodes, nodes2, u, v = "sm.add_nodes_from(c)", "for n in c:\n        sm.add_node(n)", "c[u]", "c[v]"
        bodies = [f"sm.add_weighted_edges_from([({u}, {v}, w) for u, v, w in g.edges.data('weight')], origin='learned')",
                  f"for u, v, w in g.edges.data('weight'):\n        sm.add_edge({u}, {v}, origin='learned', weight=w)",
                  f"sm.add_weighted_edges_from([({u}, {v}, d['weight']) for u, v, d in g.edges.data(True)], origin='learned')",
                  f"sm.add_weighted_edges_from([({u}, {v}, g[u][v]['weight']) for u, v in g.edges], origin='learned')",
                  f"sm.add_edges_from([({u}, {v}, dict(weight=w)) for u, v, w in g.edges.data('weight')], origin='learned')",
                  f"for u, v, d in g.edges.data(True):\n        sm.add_edge({u}, {v}, origin='learned', weight=d['weight'])"]
        specs = [R.spec(r.func, f"def spec({ps}, g):\n    c = {cols}\n    sm = StructureModel()\n    {n}\n    {b}\n    return sm\n", opaque=opaque)
                 for n in (nodes, nodes2) for b in bodies]
        rewrite = lambda t: strip_none(frame(abstract(t, callees)))
        if not any(e["name"] == callee for e in r.ev("call")):
            R.und("named", w, f"{fn} names the learned edges", f"no call of {callee} recognised")
        else:
            events_like(R, "named", r, specs, sel, f"{fn} has all columns as nodes and every learned edge between the columns it was learned for, with its weight",
                        rewrite=rewrite, okc=True)
        v = norm(r.final(r.ret))
        R.check(v[0] == "new" and v[1].endswith("StructureModel") and not v[2], "named", w, f"{fn} returns that structure", show(v)[:150],
                unsure=True)
        # every argument reaches the learner
        for e in r.ev("call"):
            if e["name"] != callee:
                continue
            c = ncond_ok(r, e)
            R.check(c == T or not contains(("_", c), lambda x: x[0] == "p" and x[1] in r.func.params and x[1] not in ("X", "time_series")), "arguments",
                    e.where, f"{fn} learns whatever its options", f"if {show(c)[:100]}", unsure=True)
            for p in r.func.params:
                if p in TABU or p in ("X", "time_series", "p"):
                    continue
                a = e["args"].get(p)
                if a is None and "**" in e["args"]:
                    continue
                t = sn(r, a) if isinstance(a, tuple) else None
                R.check(t == P(p), "arguments", e.where, f"{fn} passes {p} on as given", f"{p} = {show(t) if t else 'default'}",
                        unsure=t is not None and (imprecise(t) or bool(novel(t)) or t[0] == "ite"))
            if not dyn:
                x = e["args"].get("X")
                same_arg(R, "arguments", r, e, "X", x, [("a", P("X"), "values")], f"{fn} learns from the values of all columns in their order")
            else:
                for p, i in (("X", 0), ("Xlags", 1)):
                    t = sn(r, e["args"][p]) if isinstance(e["args"].get(p), tuple) else NONE
                    tr = t[1] if t[0] == "i" and t[2] == const(i) else None
                    if tr is None or not (tr[0] == "m" and tr[2] == "fit_transform"):
                        R.und("arguments", e.where, f"{fn} learns {p} from the transformed series", show(t)[:120])
                        continue
                    obj = tr[1]
                    R.check(obj[0] == "new" and obj[1].endswith("DynamicDataTransformer") and obj[2] in ((("p", P("p")),), (P("p"),)), "arguments", e.where,
                            f"{fn} uses p lags", show(obj)[:120], unsure=imprecise(obj))
                    a = tr[3][0] if tr[3] else dict(tr[4]).get("time_series")
                    wants = [norm(s.final(s.ret)) for s in (R.spec(r.func, f"def spec({ps}):\n    return {z}\n") for z in (
                        "time_series if isinstance(time_series, list) else [time_series]", "[time_series] if not isinstance(time_series, list) else time_series",
                        "time_series"))]
                    if a is not None:
                        term_like(R, "arguments", e.where, f"{fn} transforms the given series", a, wants)
                    R.check(dict(tr[4]).get("return_df", tr[3][1] if len(tr[3]) > 1 else None) == const(False), "arguments", e.where,
                            f"{fn} asks for arrays", show(tr)[:200])
        roots = frozenset({P("time_series") if dyn else P("X")} | {P(t) for t in TABU})
        untouched(R, "data-read-only", r, roots, f"{fn} modifies neither the data nor the tabu lists")


def strip_none(t):
    return t


# ---------------------------------------------------------------------------------------------- C29: validation
def valid(t):
    """spelling of emptiness and finiteness tests; the values of a frame are the frame"""
    def f(x):
        if x[0] == "==" and const(0) in x[1:3]:
            y = x[1] if x[2] == const(0) else x[2]
            if y[0] == "a" and y[2] == "size":
                return ("empty", valid(y[1]))
            if y[0] == "call" and y[1] in (("g", "numpy.size"),) and len(y[2]) == 1:
                return ("empty", valid(y[2][0]))
            if y[0] == "call" and y[1] == ("g", "builtins.min") and len(y[2]) == 1 and y[2][0][0] == "a" and y[2][0][2] == "shape":
                return ("empty", valid(y[2][0][1]))
        if x[0] == "in" and x[1] == const(0) and x[2][0] == "a" and x[2][2] == "shape":
            return ("empty", valid(x[2][1]))
        if x[0] == "a" and x[2] == "size" and len(x) in (3, 4):
            return None
        if x[0] == "m" and x[2] == "any" and not x[3] and negated(x[1]) is not None:
            return mk_not(("finite", valid(negated(x[1]))))
        if x[0] == "call" and x[1] in (("g", "numpy.any"), ("g", "builtins.any")) and x[2] and negated(x[2][0]) is not None:
            return mk_not(("finite", valid(negated(x[2][0]))))
        if x[0] == "m" and x[2] == "all" and not x[3] and x[1][0] == "call" and x[1][1] == ("g", "numpy.isfinite"):
            return ("finite", valid(x[1][2][0]))
        if x[0] == "call" and x[1] in (("g", "numpy.all"), ("g", "builtins.all")) and x[2] and x[2][0][0] == "call" and x[2][0][1] == ("g", "numpy.isfinite"):
            return ("finite", valid(x[2][0][2][0]))
        if x[0] == "a" and x[2] == "empty" and x[1][0] == "a" and x[1][2] == "columns":
            return mk_not(valid(x[1]))
        return None

    def g(x):
        if x[0] == "or":
            # isnan(x).any() or isinf(x).any()
            hits = {}
            for y in x[1:]:
                z = None
                if y[0] == "m" and y[2] == "any" and not y[3] and y[1][0] == "call" and y[1][1] in (("g", "numpy.isnan"), ("g", "numpy.isinf")):
                    z = (y[1][1][1], y[1][2][0])
                if y[0] == "call" and y[1] == ("g", "numpy.any") and y[2] and y[2][0][0] == "call" and y[2][0][1] in (("g", "numpy.isnan"), ("g", "numpy.isinf")):
                    z = (y[2][0][1][1], y[2][0][2][0])
                if z:
                    hits.setdefault(z[1], {})[z[0]] = y
            for a, d in hits.items():
                if len(d) == 2:
                    rest = [y for y in x[1:] if y not in d.values()]
                    return mk_or(mk_not(("finite", a)), *[subst(y, g) for y in rest])
        return None
    def truth(x):
        # a % b as a condition is a % b != 0
        if x[0] == "or":
            return mk_or(*[truth(y) for y in x[1:]])
        if x[0] == "and":
            return mk_and(*[truth(y) for y in x[1:]])
        if x[0] == "not":
            return mk_not(truth(x[1]))
        return mk_not(("==",) + tuple(sorted((x, const(0)), key=repr))) if x[0] == "op" and x[1] == "%" else x
    return truth(subst(subst(frame(t), g), f))


def negated(t):
    """x of the element-wise negation of isfinite(x)"""
    if t[0] in ("not", "inv") or t[0] == "op" and len(t) == 3 and t[1] in ("~", "-", "inv"):
        t = t[-1]
    elif t[0] == "call" and t[1] in (("g", "numpy.logical_not"), ("g", "numpy.invert")) and len(t[2]) == 1:
        t = t[2][0]
    elif t[0] == "==" and F in t[1:]:
        t = t[1] if t[2] == F else t[2]
    else:
        return None
    return t[2][0] if t[0] == "call" and t[1] == ("g", "numpy.isfinite") and len(t[2]) == 1 else None


def validated(R, r, cond, what, before="minimize"):
    """a ValueError is raised exactly if `cond` (compared on both sides), before the learning step"""
    w = r.func.where
    got, evs = raise_conditions(r).get("ValueError", (F, []))
    g, c = form(valid(got)), form(valid(cond))
    first = min([e.pos for e in r.ev("call") if e["name"] == before], default=None)
    if not evs:
        R.bad("validated", w, what, "no ValueError is raised")
        return
    others = [e["name"] for e in r.raises() if e["name"] != "ValueError"]
    v = eqv(g, c)
    R.check(v is True, "validated", evs[0].where, what, f"raised if {show(g)[:240]}; required: if {show(c)[:240]}",
            unsure=imprecise(("_", g)) or bool(novel(g, c)))
    R.check(not others, "validated", w, "no other exception is raised for the data", str(others))
    if first is not None:
        late = [e for e in evs if e.pos > first]
        R.check(not late, "validated", (late or evs)[0].where, "the data is validated before anything is learned", "validation comes after the optimisation")


def want_cond(R, r, expr, opaque=()):
    s = R.spec(r.func, f"def spec({', '.join(r.func.params)}):\n    if {expr}:\n        raise ValueError()\n", opaque=opaque)
    return raise_conditions(s)["ValueError"][0]


def c29(R):
    with distinct("any", "all", "numpy.any", "numpy.all", "numpy.isfinite", "numpy.isinf", "numpy.isnan"):
        _c29(R)


def _c29(R):
    for fn in ("from_numpy", "from_numpy_lasso"):
        r = R.run(N + fn, opaque=SMOPS)
        validated(R, r, want_cond(R, r, "not np.isfinite(X).all() or X.size == 0"), f"{fn} raises ValueError exactly for empty data and for NaN or infinite values")
    for fn, callee in PANDAS.items():
        r = R.run(N + fn, opaque=SMOPS)
        validated(R, r, want_cond(R, r, "len(X.select_dtypes(exclude='number').columns) > 0 or not np.isfinite(X.values).all() or X.values.size == 0"),
                  f"{fn} raises ValueError exactly for non-numeric columns, empty data and NaN or infinite values")
    r = R.run(D + "from_numpy_dynamic", opaque=SMOPS)
    validated(R, r, want_cond(R, r, "X.size == 0 or Xlags.size == 0 or X.shape[0] != Xlags.shape[0] or Xlags.shape[1] % X.shape[1] != 0"),
              "from_numpy_dynamic raises ValueError exactly for empty or mismatched X and Xlags")


# ---------------------------------------------------------------------------------------------- C30: convergence and thresholds
def c30(R):
    for mod, fn, mats in ((N, "from_numpy", [("W", FREE)]), (N, "from_numpy_lasso", [("W", SIGNED)]),
                          (D, "from_numpy_dynamic", [("W", SIGNED), ("A", LAGGED)])):
        r = R.run(mod + fn, opaque=SMOPS)
        w = r.func.where
        convergence(R, r, fn)
        with length_is(None if mod == D else pmul(DD, pnum(len(mats[0][1])))):
            thresholds(R, r, fn, mats)


def convergence(R, r, fn):
    w = r.func.where
    what = f"{fn} warns when max_iter is used up and h is above h_tol, and only then"
    warns = [e for e in r.ev("call") if e["fn"] == ("g", "warnings.warn")]
    loops = {L: d for L, d in r.interp.loops.items() if norm(r.interp.snap(d["coll"], r.st)) == ("call", ("g", "builtins.range"), (P("max_iter"),), ())}
    if not warns:
        R.check(False, "convergence", w, what, "there is no warning", unsure=not loops)
        return
    for e in warns:
        ctx = nctx(r, e)
        ls = [c for c in ctx if c[0] == "for" and c[2] == ("call", ("g", "builtins.range"), (P("max_iter"),), ())]
        cs = conjuncts(conds(ctx))
        tol = [c for c in cs if contains(("_", c), lambda x: x == P("h_tol"))]
        if not ls:
            # after the loop: only when it was not left early
            R.check(None if imprecise(("_", conds(ctx))) or not tol else None, "convergence", e.where, what, f"if {show(conds(ctx))[:200]}")
            continue
        L = ls[0][1]
        last = [c for c in cs if c[0] == "==" and contains(c, lambda x: x == ("el", L)) and
                poly(c[1]) in (poly(("el", L)), padd(poly(("el", L)), pnum(1))) or c[0] == "==" and contains(c, lambda x: x == ("el", L))]
        ok_last = any(padd(padd(poly(c[1]), poly(c[2]), -1), padd(padd(poly(P("max_iter")), pnum(1), -1), poly(("el", L)), -1), s) == {}
                      for c in last for s in (1, -1))
        brk = until(ls[0])
        over = [c for c in tol if brk is not None and form(c) == form(mk_not(brk))]
        R.check(ok_last, "convergence", e.where, what, f"the last iteration is not recognised in {show(conds(ctx))[-200:]}",
                unsure=not last and contains(("_", conds(ctx)), lambda x: x == ("el", L)))
        others = [c for c in cs if contains(("_", c), lambda x: x == ("el", L)) and c not in last]
        if brk is None:
            R.check(bool(tol) and not others or None, "convergence", e.where, what, "the loop has no early exit")
        else:
            stray = [c for c in cs if c not in tol and c[0] in ("<", "not") and len(form(brk)) > 1 and halves(form(c)) & halves(form(brk))]
            if stray:
                R.bad("convergence", e.where, what, f"h is compared as {[show(c)[:120] for c in stray]}, the loop ends as {show(brk)[:120]}")
            good = bool(over) and all(c in over or not contains(("_", c), lambda x: x == P("h_tol")) for c in tol)
            ok2 = good or (not tol)   # the break already excludes convergence
            R.check(ok2 and not others, "convergence", e.where, what, f"h is compared as {[show(c)[:120] for c in tol]}, the loop ends as {show(brk)[:120]}")
            # the loop stops exactly when h <= h_tol
            n = brk
            side = form(n)
            le = side[0] == "not" and side[1][0] == "<" and side[1][1] == P("h_tol") or side[0] == "<" and side[2] == P("h_tol")
            R.check(le, "convergence", e.where, f"{fn} stops early exactly when h is within h_tol", show(brk)[:160], unsure=side[0] not in ("not", "<"))


def halves(c):
    """the run-time sides of a comparison"""
    c = c[1] if c[0] == "not" else c
    return {x for x in c[1:] if isinstance(x, tuple) and x[0] not in ("c", "p")} if c[0] == "<" else set()


def until(c):
    return c[3] if len(c) > 3 and isinstance(c[3], tuple) else None


def thresholds(R, r, fn, mats):
    w = r.func.where
    seen = {}
    partial = False
    for e in r.ev("setitem"):
        if e.fn.endswith("StructureModel.__init__"):
            continue
        o = dims(sn(r, e["obj"]))
        y = layout(strip(o), solution)
        if y is None:
            continue
        partial = partial or contains(("_", sn(r, e["key"])), lambda x: x == P("w_threshold"))
        names = [n for n, m in mats if y[0][2] is None and len(y) == 1 and m == FREE or all(a is not None for _, _, a in y) and same_layout(y, m)]
        k = sn(r, e["key"])
        for n in names:
            seen[n] = True
            what = f"{fn} sets exactly the weights of {n} whose absolute value is below the threshold to zero"
            kk = norm(nx_abs(dims(k)))
            thr = P("w_threshold")
            neg = kk[0] == "not"
            q = kk[1] if neg else kk
            ok = False
            if q[0] == "<":
                u, v = (q[2], q[1]) if neg else (q[1], q[2])
                if v == thr and u[0] == "call" and u[1] == ("g", "numpy.abs"):
                    z = layout(strip(u[2][0]), solution)
                    ok = z is not None and sorted(map(repr, z)) == sorted(map(repr, y))
            odd = q[0] != "<" or novel(q, ("call", ("g", "numpy.abs"), (o,), ())) or contains(q, lambda x: x[0] == "op" and x[1] == "**")
            if q[0] == "<" and thr in q[1:]:
                # one comparison of the weights or their absolute values with the threshold
                other = q[2] if q[1] == thr else q[1]
                inner = other[2][0] if other[0] == "call" and other[1] == ("g", "numpy.abs") else other
                if layout(strip(inner), solution) is not None:
                    odd = False
            R.check(ok, "thresholded", e.where, what, f"key {show(small(kk))[:200]}", unsure=not ok and bool(odd))
            R.check(num(sn(r, e["value"])) == const(0), "thresholded", e.where, what, f"they become {show(sn(r, e['value']))[:60]}")
            late = [x for x in r.events if x.pos < e.pos and x.kind in ("construct",) and str(x.data.get("cls")).endswith("StructureModel") or
                    x.pos < e.pos and x.kind == "call" and x["name"] in ("add_edges_from", "add_weighted_edges_from", "add_edge")]
            R.check(not late, "thresholded", e.where, f"{fn} applies the threshold before the structure is built", "it comes after")
            c = ncond_ok(r, e)
            dep = contains(("_", c), lambda x: x == thr)
            R.check(not dep or None, "thresholded", e.where, what, f"only if {show(c)[:120]}")
    for n, m in mats:
        if n not in seen:
            used = contains(("_", norm(r.final(r.ret))), lambda x: x == P("w_threshold")) or any(
                contains(("_", norm(r.interp.snap(e.data.get("term", NONE), r.st))), lambda x: x == P("w_threshold")) for e in r.ev("call"))
            R.check(False, "thresholded", w, f"{fn} removes the weights of {n} below the threshold", "the threshold is not applied", unsure=used or partial and not seen_parts(r, mats))


def seen_parts(r, mats):
    """the threshold is applied to a whole vector that several matrices or signs are read from"""
    return any(len(m) > 1 for _, m in mats)


def small(t):
    return subst(t, lambda x: P("W") if x[0] in ("lout", "op") and contains(("_", x), lambda y: y == ("g", "scipy.optimize.minimize")) else None)


def nx_abs(t):
    return subst(t, lambda x: ("g", "numpy.abs") if x in (("g", "builtins.abs"), ("g", "numpy.absolute"), ("g", "numpy.fabs")) else None)


CHECKS = {"C26": (c26, ""), "C27": (c27, ""), "C28": (c28, ""), "C29": (c29, ""), "C30": (c30, "")}
