"""The score NOTEARS and DYNOTEARS minimise, its gradient, and the rounds of the augmented Lagrangian."""
import itertools
from fractions import Fraction

from rules import learners as LN
from rules.learners import D, N, SMOPS, dims, layout, TOTAL, length_is, poly
from sa import matcalc as mc
from sa import numeric
from sa.conform import eqv, form, sn
from sa.rule import NONE, P, T, alpha, conds, fors, imprecise, ncond_ok, nctx, norm, show
from sa.terms import F, conjuncts, const, contains, mk_and, subst, walk

VEC = ("lp", 0)
DD = {(P("d"), P("d")): 1}
OBJECTIVE = {
    "from_numpy": '''
    W = w.reshape([d, d])
    h = np.trace(slin.expm(W * W)) - d
    return 0.5 / n * np.square(np.linalg.norm(X.dot(np.eye(d) - W), "fro")) + 0.5 * rho * h * h + alpha * h
''',
    "from_numpy_lasso": '''
    W = w[:d * d].reshape([d, d]) - w[d * d:].reshape([d, d])
    h = np.trace(slin.expm(W * W)) - d
    return 0.5 / n * np.square(np.linalg.norm(X.dot(np.eye(d) - W), "fro")) + 0.5 * rho * h * h + alpha * h + beta * w.sum()
''',
    "from_numpy_dynamic": '''
    M = w.reshape([2 * (p + 1) * d, d])
    W = M[:d, :] - M[d:2 * d, :]
    L = M[2 * d:].reshape(2 * p, d ** 2)
    A = L[::2].reshape(d * p, d) - L[1::2].reshape(d * p, d)
    h = np.trace(slin.expm(W * W)) - d
    return (0.5 / n * np.square(np.linalg.norm(X.dot(np.eye(d) - W) - Xlags.dot(A), "fro")) + 0.5 * rho * h * h + alpha * h
            + lambda_w * w[:2 * d ** 2].sum() + lambda_a * w[2 * d ** 2:].sum())
''',
}
HEAD = "def spec({ps}, w, n, d, p, rho, alpha):\n    import scipy.linalg as slin\n"
ROUNDS = '''
def spec(max_iter, h_tol, h, sol):
    w_est, w_new = 0, 0
    rho, alpha, hv, h_new = 1.0, 0.0, np.inf, np.inf
    for k in range(max_iter):
        while rho < 1e20 and (h_new > 0.25 * hv or h_new == np.inf):
            w_new = sol(w_est)
            h_new = h(w_new)
            if h_new > 0.25 * hv:
                rho *= 10
        w_est, hv = w_new, h_new
        alpha += rho * hv
        if hv <= h_tol:
            break
    return w_est
'''


def calc(base):
    lay = lambda t: layout(t, base) if contains(("_", t), lambda x: base(x)) else None
    c = mc.Calc({P("X"): ({(P("n"),): 1}, {(P("d"),): 1}), P("Xlags"): ({(P("n"),): 1}, {(P("d"), P("p")): 1})}, lay, poly, lambda: None if TOTAL in (x for m in LN.LENGTH[0] for x in m) else LN.LENGTH[0])
    return c


def c36(R):
    for mod, fn in ((N, "from_numpy"), (N, "from_numpy_lasso"), (D, "from_numpy_dynamic")):
        learner(R, mod, fn)
    R.floor(16)


def start_size(r, t):
    """the length of the optimised vector, from its starting value"""
    for _ in range(4):
        if t[0] in ("lv", "lvc"):
            c = r.interp.loops.get(t[1], {}).get("carried", {}).get(t[2])
            if c is None:
                return None
            t = dims(norm(r.interp.snap(c[0], r.st)))
            continue
        break
    if t[0] == "call" and t[1][0] == "g" and t[1][1] in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full") and t[2]:
        s = t[2][0]
        if s[0] in ("tuple",) and len(s[1]) == 1:
            s = s[1][0]
        if s[0] == "seq" and len(s[2]) == 1 and s[2][0][1] == () and s[2][0][2][0] == "x":
            s = s[2][0][2][1]
        if s[0] in ("tuple", "seq"):
            return None
        return poly(s)
    return None


def learner(R, mod, fn):
    r = R.run(mod + fn, opaque=SMOPS)
    w = r.func.where
    calls = [e for e in r.ev("call") if e["fn"] == ("g", "scipy.optimize.minimize")]
    if len(calls) != 1:
        R.und("objective", w, f"{fn} minimises its score with scipy.optimize.minimize", f"{len(calls)} calls recognised")
        return
    e = calls[0]
    x0 = e["args"].get(1, e["args"].get("x0", NONE))
    size = start_size(r, dims(sn(r, x0)))
    with length_is(size):
        judged(R, r, e, fn, size)


def judged(R, r, e, fn, size):
    w = e.where
    what = f"{fn} minimises its documented score plus rho/2·h² + alpha·h, with h = tr(exp(W∘W)) - d"
    cb = e.data.get("fun")
    if not cb:
        R.und("objective", w, what, "the function is not recognised")
        return
    c = calc(lambda t: t == VEC)
    ps = ", ".join(p for p in r.func.params)
    s = R.spec(r.func, HEAD.format(ps=ps) + OBJECTIVE[fn])
    want_t = subst(dims(norm(s.final(s.ret))), lambda t: VEC if t == P("w") else None)
    fun_t, jac_t, jcb = dims(norm(cb[1])), None, e.data.get("jac")
    jac = sn(r, e["args"]["jac"]) if "jac" in e["args"] else sn(r, e["args"].get(4, NONE))
    if jac == T or jac == const(True):
        if fun_t[0] == "tuple" and len(fun_t[1]) == 2:
            fun_t, jac_t, jcb = fun_t[1][0], fun_t[1][1], cb
    elif jcb:
        jac_t = dims(norm(jcb[1]))
    effects = [x for x in cb[2] if x[0] in ("setitem", "aug", "mut")]
    if effects and jac_t is not None and jcb is not cb:
        R.und("objective", w, what, f"the function writes into an array at {effects[0][3]}")
        return
    got = want = None
    try:
        want = mc.power(c.s(want_t), 1)
        got = mc.power(c.s(fun_t), 1)
        pieces = vector(c, jac_t, jcb, size) if jac_t is not None else None
        why = None
    except mc.Unknown as x:
        why = x
        pieces = None
    if got is None or want is None:
        R.und("objective", w, what, f"not in the fragment of matrix calculus: {why}")
        return
    try:
        want, got = c.settle(want), c.settle(got)
    except mc.Unknown as x:
        R.und("objective", w, what, str(x))
        return
    roles, best = unify(got, want)
    R.check(roles is not None, "objective", w, what, f"minimises {mc.show_s(got)[:500]}; required {mc.show_s(want)[:500]}",
            unsure=foreign(got, want))
    gw = "the gradient handed to the optimiser is the derivative of the minimised score, entry by entry in the order of the vector"
    if jac_t is None:
        R.und("gradient", w, gw, "no gradient is given")
    elif pieces is None:
        R.und("gradient", w, gw, f"not in the fragment of matrix calculus: {why}")
    else:
        gradient(R, w, gw, c, got, pieces)
    for n in ("fun", "jac"):
        x = e.data.get(n)
        for k in (x[2] if x else ()):
            if k[0] in ("setitem", "aug", "mut", "setattr") and any(contains(("_", norm(v)), lambda y: y in (P("X"), P("Xlags"), VEC)) and
                                                                    norm(v) in (P("X"), P("Xlags"), VEC) for a, v in k[2].items() if a == "obj"):
                R.bad("objective", k[3], f"evaluating the score changes neither the data nor the vector", f"{k[0]} in place")
    rounds(R, r, e, fn, roles, c)


def foreign(got, want):
    """the score uses quantities the reference does not know"""
    def atoms(p):
        out = set()
        for m in p:
            for x, _ in m:
                for y in walk(("_", x)):
                    if y[0] in ("p", "g", "a", "el", "call"):
                        out.add(y)
        return out
    return bool({x for x in atoms(got) - atoms(want) if x[0] != "p"})


def lvs(p):
    return sorted({x for m in p for x, _ in m if x[0] in ("lv", "lvc") or x[0] == "p" and x[1] in ("rho", "alpha")}, key=repr)


def rename_s(p, table):
    out = {}
    for m, c in p.items():
        out = numeric.padd(out, {tuple(sorted(((table.get(x, x), k) for x, k in m), key=repr)): c})
    return out


def unify(got, want):
    """the variables that play rho and alpha, when the scores agree"""
    vs = lvs(got)
    for a, b in itertools.permutations(vs, 2):
        if rename_s(got, {a: P("rho"), b: P("alpha")}) == want:
            return {"rho": a, "alpha": b}, None
    return None, vs


def vector(c, t, cb, size):
    """the gradient as pieces in memory"""
    if t[0] == "ite":
        raise mc.Unknown("conditional gradient")
    writes = [x for x in cb[2] if x[0] in ("setitem", "aug", "mut") and dims(norm(x[2]["obj"])) == t]
    other = [x for x in cb[2] if x[0] in ("aug", "mut") and x not in writes]
    if other:
        raise mc.Unknown(f"{other[0][0]} at {other[0][3]}")
    if any(x[0] == "setitem" and x not in writes for x in cb[2]):
        raise mc.Unknown("assignment into an array")
    if not writes:
        v = c.ev(t)
        v = c.blk(v) if v[0] == "m" else v
        if v[0] != "blk" or len(v[1]) != 1:
            raise mc.Unknown("the gradient is not one vector")
        return v[2]
    # an array of zeros that is filled part by part
    z = c.ev(t) if t[0] == "call" else None
    if not z or z[0] != "ones":
        raise mc.Unknown("parts of an unknown array are assigned")
    total = z[2][0] if z[2] and len(z[2]) == 1 else size
    if total is None:
        raise mc.Unknown("length of the gradient")
    out, done = [], {}
    for kind, ctx, data, where in writes:
        if kind != "setitem" or any(x[0] == "for" for x in ctx):
            raise mc.Unknown(f"{kind} at {where}")
        k = dims(norm(data["key"]))
        if k[0] != "slice" or k[3] != NONE:
            raise mc.Unknown("part that is not a range")
        lo = {} if k[1] == NONE else poly(k[1])
        hi = total if k[2] == NONE else poly(k[2])
        if any(x[0] == "c" and isinstance(x[1], (int, float)) and x[1] < 0 for x in k[1:3]):
            raise mc.Unknown("negative bound")
        v = c.ev(dims(norm(data["value"])))
        v = c.blk(v) if v[0] == "m" else v
        if v[0] != "blk" or len(v[1]) != 1 or mc.ipadd(hi, lo, -1) != v[1][0]:
            raise mc.Unknown("part of another size")
        if (mc.fz_(lo), mc.fz_(hi)) in done:
            out = [x for x in out if x[4] != (mc.fz_(lo), mc.fz_(hi))]
        done[(mc.fz_(lo), mc.fz_(hi))] = True
        out += [(mc.ipadd(o, lo), ax, n, sh, (mc.fz_(lo), mc.fz_(hi))) for o, ax, n, sh in v[2]]
    spans = [(dict(a), dict(b)) for a, b in done]
    for (a, b), (x, y) in itertools.combinations(spans, 2):
        if not (mc.nonneg(mc.ipadd(x, b, -1)) or mc.nonneg(mc.ipadd(a, y, -1))):
            raise mc.Unknown("overlapping parts")
    covered = {}
    for a, b in spans:
        covered = mc.ipadd(covered, mc.ipadd(b, a, -1))
    if covered != total and z[1]:
        raise mc.Unknown("an array that is filled in part")
    return [x[:4] for x in out] + ([] if covered == total else [("rest",)])


def gradient(R, where, what, c, score, pieces):
    have = {}
    for p in pieces:
        if p == ("rest",):
            continue
        have.setdefault((mc.fz_(p[0]), p[1]), []).append(p)
    n = 0
    for mem, key in sorted(c.seen.items(), key=repr):
        name = "x[" + mc.show_p(dict(mem[0])) + "..]"
        try:
            d = mc.grad(score, mem)
        except mc.Unknown as x:
            R.und("gradient", where, what, str(x))
            continue
        if not d:
            continue
        n += 1
        ps = have.get(mem)
        if not ps:
            if ("rest",) in pieces and len(have) == len([1 for p in pieces if p != ("rest",)]) and all(k in c.seen for k in have):
                R.bad("gradient", where, f"{what}: {name}", "these entries stay zero")
            elif len(pieces) == len(c.seen) and {tuple(x for x in m[1]) for m in have} == {m[1] for m in c.seen} or \
                    len(pieces) == len(c.seen) and all(p != ("rest",) for p in pieces):
                R.bad("gradient", where, f"{what}: {name}", "no part of the gradient has the places of these entries: it has " +
                      ", ".join(f"x[{mc.show_p(dict(k[0]))}.. by {[(mc.show_p(dict(a)), mc.show_p(dict(b))) for a, b in k[1]]}]" for k in have)[:300])
            else:
                R.und("gradient", where, f"{what}: {name}", "the parts of the gradient are not recognised")
            continue
        got = ps[-1][2]
        # a transposed layout shows in the axes of the matrix
        ax = key[3]
        plain = ax == tuple(ax)
        R.check(mc.madd(got, d, -1) == {}, "gradient", where, f"{what}: {name}",
                f"is {mc.show_m(got)[:400]}; the derivative is {mc.show_m(d)[:400]}", unsure=not plain)
    if not n:
        R.und("gradient", where, what, "the score depends on no entry")


# ---------------------------------------------------------------------------------------------- the rounds
def state(r, ab):
    """the loops of a run: {loop: {carried variable: (start, next)}}, conditions, exits"""
    out = {}
    for L, i in r.interp.loops.items():
        out[L] = {"kind": i["kind"], "coll": ab(i["coll"]) if i["kind"] == "for" else None,
                  "cond": form(ab(i["cond"])) if i.get("cond") is not None else None,
                  "brk": form(ab(i["brk"])) if i.get("brk") is not None else None,
                  "vars": {k: (ab(a), ab(b)) for k, (a, b) in i.get("carried", {}).items()}}
    return out


def rounds(R, r, e, fn, roles, c):
    w = e.where
    what = f"{fn}: rho starts at 1 and grows tenfold while h has not dropped to a quarter (up to 1e20), alpha starts at 0 and grows by rho·h, each round " \
           "starts from the last solution, and they end once h <= h_tol or after max_iter"
    if roles is None:
        R.und("rounds", w, what, "the roles of the variables are not known")
        return
    ctx = nctx(r, e)
    ls = [x[1] for x in fors(ctx)]
    if len(ls) != 2:
        R.und("rounds", w, what, f"the optimiser runs inside {len(ls)} loops")
        return
    isol = lambda t: t[0] == "a" and t[2] == "x" and t[1][0] == "call" and t[1][1] == ("g", "scipy.optimize.minimize") or \
        t[0] == "i" and t[2] == const("x") and t[1][0] == "call" and t[1][1] == ("g", "scipy.optimize.minimize")
    hc = calc(isol)
    ref = calc(lambda t: t == VEC)
    ps = ", ".join(r.func.params)
    s = R.spec(r.func, HEAD.format(ps=ps) + OBJECTIVE[fn].rsplit("    return", 1)[0] + "    return h\n")
    try:
        hw = ref.s(subst(dims(norm(s.final(s.ret))), lambda t: VEC if t == P("w") else None))
    except mc.Unknown as x:
        R.und("rounds", w, what, str(x))
        return
    odd = []

    def hval(x):
        if x[0] == "op" and x[1] in ("-", "+") and contains(x, lambda y: y[0] == "call" and y[1] == ("g", "scipy.linalg.expm")):
            try:
                v = hc.s(x)
            except mc.Unknown:
                return None
            if v == hw:
                return ("call", P("h"), (P("sol!"),), ())
            if not contains(("_", tuple(v)), lambda y: y[0] in ("lv", "lvc")):
                odd.append("another h: " + mc.show_s(v)[:200])
        return None
    raw = [x for x in (sn(r, e["args"].get(1, e["args"].get("x0", NONE))),)]

    def ab(t):
        t = dims(norm(r.interp.snap(t, r.st)))
        t = subst(t, hval)
        t = subst(t, lambda x: P("sol!") if isol(x) else None)
        return numeric_form(t)

    sp = R.spec(r.func, ROUNDS)

    def ab2(t):
        t = norm(sp.interp.snap(t, sp.st))
        t = subst(t, lambda x: P("sol!") if x[0] == "call" and x[1] == P("sol") else None)
        return numeric_form(t)
    got, want = state(r, ab), state(sp, ab2)
    wl = sorted(L for L in want)
    wo, wi = [L for L in wl if want[L]["kind"] == "for"], [L for L in want if want[L]["kind"] == "while"]
    # the analysis of a loop body is repeated: the loops that count are those of the final pass
    wo, wi = wo[-1], max(wi)
    go, gi = ls
    if got[go]["kind"] != "for" or got[gi]["kind"] != "while":
        R.und("rounds", w, what, "the loops have another form")
        return
    R.check(got[go]["coll"] == ("call", ("g", "builtins.range"), (P("max_iter"),), ()), "rounds", w, f"{fn} makes at most max_iter rounds",
            f"loops over {show(got[go]['coll'])[:120]}", unsure=got[go]["coll"][0] != "call")
    start = raw[0]
    if start[0] not in ("lv", "lvc"):
        R.check(False, "rounds", w, f"{fn}: each round starts from the last solution", f"starts from {show(start)[:120]}", unsure=True)
        return
    if start[1] == gi and start[2] in got[gi]["vars"]:
        a, b = got[gi]["vars"][start[2]]
        R.check(False, "rounds", w, f"{fn}: each attempt of a round starts from the solution of the round before",
                f"starts from what the attempt before it left: {show(b)[:120]}", unsure=b != P("sol!"))
        return
    names = {"rho": roles["rho"][2], "alpha": roles["alpha"][2] if roles["alpha"][0] in ("lv", "lvc") else None, "w_est": start[2]}
    if roles["rho"][0] not in ("lv", "lvc") or names["alpha"] is None:
        R.und("rounds", w, what, "rho or alpha is not carried from round to round")
        return
    gv = {k for k in got[go]["vars"]} | {k for k in got[gi]["vars"]}
    free = sorted(gv - set(names.values()))
    best = None
    roles_left = ["w_new", "hv", "h_new"]
    for pick in itertools.permutations(free, 3):
        m = dict(zip(roles_left, pick)) | names
        back = {v: k for k, v in m.items()}

        def rn(t):
            return subst(t, lambda x: ("lv", wi if x[1] == gi else wo if x[1] == go else x[1], back.get(x[2], x[2])) if x[0] in ("lv", "lvc") and len(x) == 3 and
                         isinstance(x[2], str) else ("while", wi) if x == ("while", gi) else None)
        bad = []

        def after(G, Gi, Go, rename):
            # what the inner loop leaves behind, by the role of the variable
            table = {}
            for role in ("w_new", "h_new", "rho", "w_est", "hv", "alpha"):
                v = G[Gi]["vars"].get(rename(role))
                if v is not None:
                    table[("ite", ("while", Gi), v[1], ("lv", Go, rename(role)))] = P("after " + role)
                    table[("ite", ("while", Gi), v[1], v[0])] = P("after " + role)

            starts = {("lv", Go, rename(role)): P("after " + role) for role in ("w_new", "h_new", "rho", "w_est", "hv", "alpha")}

            def rep(x):
                # what a fold or the last pass of the inner loop leaves: the loop itself is compared on its own
                if x[0] in ("lout", "red") and contains(("_", x[3:]), lambda y: y == ("while", Gi)):
                    return starts.get(x[2])
                return table.get(x)
            return lambda t: subst(t, rep) if isinstance(t, tuple) else t
        ga, wa = after(got, gi, go, lambda n: m.get(n)), after(want, wi, wo, lambda n: n)
        for G, Wl in ((go, wo), (gi, wi)):
            for role, name in m.items():
                a, b = got[G]["vars"].get(name), want[Wl]["vars"].get(role)
                if (a is None) != (b is None):
                    bad.append((role, a, b, "vars"))
                    continue
                if a is None:
                    continue
                x0, x1 = rn(a[0]), rn(ga(a[1]))
                # the vectors start at zeros of whatever length
                y0 = b[0]
                if role in ("w_est", "w_new") and Wl == wo:
                    x0 = y0
                x1, y1 = form(again(x1)), form(again(wa(b[1])))
                if again(x0) != again(y0):
                    bad.append((role, x0, y0, "start"))
                if x1 != y1 and not same_cond(x1, y1):
                    bad.append((role, x1, y1, "next"))
            for k in ("cond", "brk"):
                a, b = got[G][k], want[Wl][k]
                if (a is None) != (b is None):
                    bad.append((k, a, b, k))
                elif a is not None and eqv(form(again(rn(ga(a)))), form(again(wa(b)))) is not True:
                    bad.append((k, rn(ga(a)), wa(b), k))
        if best is None or len(bad) < len(best[0]):
            best = (bad, m)
        if not bad:
            break
    if best is None:
        R.und("rounds", w, what, f"carried variables: {free}")
        return
    bad, m = best
    known = set(m.values())
    for role, a, b, kind in bad:
        words = ("_", a) if isinstance(a, tuple) else ("_",)
        if DEBUG:
            print(role, kind, repr(a)[:1500], "\n   ", repr(b)[:600])
        vague = a is None or b is None or odd or len(bad) > 2 or imprecise(words) and not imprecise(("_", b)) or \
            contains(words, lambda x: x[0] in ("call", "m", "lout", "a", "i", "g") and x not in (("call", P("h"), (P("sol!"),), ()), ("g", "numpy.inf"))
                     and x != ("call", P("h"), (P("sol!"),), ()))
        other = isinstance(a, tuple) and contains(words, lambda x: x[0] == "lv" and x[2] not in ("rho", "alpha", "w_est", "w_new", "hv", "h_new"))
        label = {"start": f"{role} before the first round", "next": f"{role} after a step", "cond": "the inner loop goes on", "brk": "the rounds end"}.get(kind, role)
        R.check(False, "rounds", w, what, f"{label}: {show(a)[:200] if isinstance(a, tuple) else a}; required: {show(b)[:200] if isinstance(b, tuple) else b}",
                unsure=bool(vague or other))
    if not bad:
        R.ok("rounds", w, what)
    for o in odd[:1]:
        if not bad:
            R.und("rounds", w, what, o)


def same_cond(a, b):
    """conditional values with the same cases"""
    if a[0] == "ite" and b[0] == "ite":
        v = eqv(a[1], b[1])
        if v is True:
            return (a[2] == b[2] or same_cond(a[2], b[2])) and (a[3] == b[3] or same_cond(a[3], b[3]))
    return a == b


def numeric_form(t):
    return t


def again(t):
    """arithmetic in normal form; comparisons with all terms on one side"""
    def f(x):
        if numeric.arith(x):
            return numeric.pack(numeric.unsum(numeric.poly(x)))
        if x[0] == "c" and isinstance(x[1], float):
            q = numeric.frac(x[1])
            if q is not None:
                return numeric.pack({(): q} if q else {})
        return None
    return numeric.bottom(t, f)


DEBUG = False
CHECKS = {"C36": (c36, "")}
