"""Discretiser: argument validation, split points per method, bucket numbers."""
from sa.conform import distinct, raises_like, returns_like, sn, term_like, untouched
from sa.numeric import bottom, canon, one_map
from sa.rule import A, NONE, P, SELF, T, alpha, conds, imprecise, nctx, norm
from sa.terms import F, const, show, subst

D = "discretiser.discretiser.Discretiser."
METHODS = {"uniform": ["[np.min(x) + (np.max(x) - np.min(x)) / self.num_buckets * (n + 1) for n in range(self.num_buckets - 1)]"],
           "quantile": ["np.quantile(x, [(n + 1) / self.num_buckets for n in range(self.num_buckets - 1)])"],
           "outlier": ["np.quantile(x, [self.outlier_percentile, 1 - self.outlier_percentile])"],
           "percentiles": ["np.quantile(x, [p for p in self.percentile_split_points])", "np.quantile(x, self.percentile_split_points)"]}
ORDER = ("min", "max", "quantile", "percentile", "amin", "amax", "nanmin", "nanmax", "ptp")


def stats(t):
    """one spelling for order statistics of the (flattened) data"""
    def f(x):
        if x[0] == "m" and x[2] in ("flatten", "ravel") and not x[3]:
            return x[1]
        if x[0] == "m" and x[2] == "reshape" and x[3] == (const(-1),):
            return x[1]
        if x[0] == "call" and x[1][0] == "g" and x[1][1] in ("numpy.ravel", "numpy.sort", "numpy.asarray", "numpy.array", "numpy.copy",
                                                             "builtins.sorted") and len(x[2]) == 1 and x[2][0][0] != "seq":
            return x[2][0]
        if x[0] == "sorted" and x[1][0] != "seq":
            return x[1]
        if x[0] == "m" and x[2] in ("min", "max", "copy") and not x[3] and not x[4]:
            return x[1] if x[2] == "copy" else ("call", ("g", "numpy." + x[2]), (x[1],), ())
        if x[0] == "call" and x[1][0] == "g" and x[1][1] in ("numpy.amin", "numpy.amax", "builtins.min", "builtins.max") and len(x[2]) == 1:
            return ("call", ("g", "numpy." + x[1][1][-3:]), x[2], x[3])
        if x[0] == "call" and x[1] == ("g", "numpy.ptp") and len(x[2]) == 1:
            return ("op", "-", ("call", ("g", "numpy.max"), x[2], ()), ("call", ("g", "numpy.min"), x[2], ()))
        if x[0] == "call" and x[1] in (("g", "numpy.percentile"), ("g", "numpy.quantile")):
            kw = dict(x[3])
            a = list(x[2]) + [kw.pop(k) for k in ("a", "q")[len(x[2]):] if k in kw]
            if kw.get("axis") == NONE:
                kw.pop("axis")
            if len(a) == 2 and x[1][1] == "numpy.percentile":
                q = a[1]
                if q[0] == "seq":
                    q = ("seq", q[1], tuple(("em", e[1], ("x", ("op", "/", e[2][1], const(100)))) if e[2][0] == "x" else e for e in q[2]))
                else:
                    q = ("op", "/", q, const(100))
                return ("call", ("g", "numpy.quantile"), (a[0], q), tuple(sorted(kw.items())))
            if len(a) == 2 and len(x[2]) != 2:
                return ("call", x[1], tuple(a), tuple(sorted(kw.items())))
        return None
    return bottom(t, f)


def plain(t):
    """a list that lists another one is that one"""
    def f(x):
        if x[0] == "call" and x[1] in (("g", "builtins.list"), ("g", "numpy.array"), ("g", "numpy.asarray"), ("g", "builtins.tuple")) and \
                len(x[2]) == 1 and not x[3]:
            return x[2][0]
        m = one_map(x)
        return m[0][2] if m and m[1] == ("el", m[0][1]) and m[0][2][0] in ("a", "seq") else None
    return bottom(t, f)


def rewrite(t):
    return alpha(plain(canon(stats(plain(canon(stats(t)))))))


def given(t, what):
    def f(x):
        if x[0] == "==" and x[1][0] == "c" and x[2][0] == "c":
            return T if x[1][1] == x[2][1] else F
        if x[0] == "in" and x[1][0] == "c":
            m = members(x[2])
            if m is not None:
                return T if x[1][1] in m else F
        return None
    return norm(bottom(norm(subst(t, lambda x: what.get(x))), f))


def members(t):
    if t[0] == "tuple" and all(x[0] == "c" for x in t[1]):
        return [x[1] for x in t[1]]
    if t[0] == "seq" and all(not e[1] and e[2][0] in ("x", "kv") and e[2][1][0] == "c" for e in t[2]):
        return [e[2][1][1] for e in t[2]]
    return None


def c33(R):
    with distinct("numpy.unique", "numpy.round", "numpy.mean", "numpy.std", "numpy.median", "round", "builtins.round", "builtins.int", "builtins.set",
                  "mean", "std", "median", "numpy.abs", "abs"):
        _c33(R)


def _c33(R):
    # --- constructor
    r = R.run(D + "__init__")
    ps = r.func.params
    if ps[1:] == ["method", "num_buckets", "outlier_percentile", "numeric_split_points", "percentile_split_points"]:
        specs = [R.spec(r.func, '''
def spec(self, method="uniform", num_buckets=None, outlier_percentile=None, numeric_split_points=None, percentile_split_points=None):
    self.method = method
    if method not in ["uniform", "quantile", "outlier", "fixed", "percentiles"]:
        raise ValueError()
    if method in ["uniform", "quantile"] and num_buckets is None:
        raise ValueError()
    if method == "outlier" and outlier_percentile is None:
        raise ValueError()
    if outlier_percentile is not None and not 0 <= outlier_percentile < 0.5:
        raise ValueError()
    if method == "fixed" and numeric_split_points is None:
        raise ValueError()
    if numeric_split_points is not None and sorted(numeric_split_points) != numeric_split_points:
        raise ValueError()
    if method == "percentiles" and percentile_split_points is None:
        raise ValueError()
    if percentile_split_points is not None and not all(0 <= p <= 1 for p in percentile_split_points):
        raise ValueError()
    if percentile_split_points is not None and sorted(percentile_split_points) != percentile_split_points:
        raise ValueError()
''')]
        raises_like(R, "arguments", r, specs, what="an unusable combination of arguments is rejected, and no other")
        for p in ps[1:]:
            v = kept(r, p)
            vs = values(v)
            R.check(bool(vs) and all(x == P(p) or norm(x) == ("call", ("g", "builtins.list"), (P(p),), ()) for x in vs), "arguments", r.func.where,
                    f"{p} is kept as given", show(v) if v is not None else "it is not stored", unsure=v is not None and imprecise(v))
    else:
        R.und("arguments", r.func.where, "constructor", "arguments are named differently")
    # --- fit
    r = R.run(D + "fit")
    data = r.func.params[1]
    w = r.func.where
    sp = [e for e in r.ev("setattr") if e["attr"] == "numeric_split_points" and e["obj"] == SELF]
    meth = A(SELF, "method")
    for m, texts in METHODS.items():
        live = []
        for e in sp:
            c = given(norm(conds(nctx(r, e))), {meth: const(m)})
            if c != F:
                live.append((e, c))
        what = f"method {m}: split points"
        if not live:
            R.bad("split-points", w, what, "fit does not set them")
            continue
        e, c = live[-1]
        v = given(sn(r, e["value"]), {meth: const(m)})
        refs = []
        for t in texts:
            s = R.spec(r.func, f"def spec(self, {data}):\n    x = {data}\n    return {t}\n")
            refs.append(s.final(s.ret))
        R.check(c == T, "split-points", e.where, f"method {m}: split points are always set", f"only if {show(c)[:200]}", unsure=imprecise(c))
        term_like(R, "split-points", e.where, what, v, refs, rewrite=rewrite)
    rs = [e for e in r.raises()]
    for m in METHODS:
        hit = [e for e in rs if given(norm(conds(nctx(r, e))), {meth: const(m)}) != F]
        R.check(not hit, "split-points", hit[0].where if hit else w, f"method {m} can be fitted", "an exception is raised",
                unsure=bool(hit) and given(norm(conds(nctx(r, hit[0]))), {meth: const(m)}) != T)
    hit = [e for e in rs if e["name"] == "RuntimeError" and given(norm(conds(nctx(r, e))), {meth: const("fixed")}) == T]
    R.check(bool(hit), "fixed", w, "fixed split points cannot be fitted (RuntimeError)", "no RuntimeError for method fixed",
            unsure=any(e["name"] == "RuntimeError" for e in rs))
    for e in sp:
        c = given(norm(conds(nctx(r, e))), {meth: const("fixed")})
        R.check(c == F, "fixed", e.where, "fixed split points stay as given", "fit overwrites them", unsure=c != T)
    untouched(R, "read-only", r, frozenset({P(data)}), "fit does not change the data")
    returns_like(R, "fit-self", r, [R.spec(r.func, f"def spec(self, {data}):\n    return self\n")], "fit returns the discretiser itself")
    # --- transform
    r = R.run(D + "transform")
    data = r.func.params[1]
    refs = []
    for t in (f"np.digitize({data}, self.numeric_split_points)", f"np.searchsorted(self.numeric_split_points, {data}, side='right')"):
        s = R.spec(r.func, f"def spec(self, {data}):\n    return {t}\n")
        refs.append(s.final(s.ret))
    term_like(R, "buckets", r.func.where, "a value's bucket is the number of split points that are at most the value", sn(r, r.final(r.ret)), refs,
              rewrite=digit)
    untouched(R, "read-only", r, frozenset({P(data), SELF}), "transform changes neither the data nor the discretiser")
    r = R.run(D + "fit_transform") if any(k.endswith("Discretiser.fit_transform") for k in R.p.func_by_qual) else None
    if r is not None:
        R.und("buckets", r.func.where, "fit_transform is fit, then transform", "overridden")
    R.floor(20)


def digit(t):
    def f(x):
        if x[0] == "call" and x[1] == ("g", "numpy.digitize"):
            kw = dict(x[3])
            a = list(x[2]) + [kw.pop(k) for k in ("x", "bins", "right")[len(x[2]):] if k in kw]
            if len(a) == 3 and a[2] in (const(False), F):
                a = a[:2]
            return ("call", x[1], tuple(bare(y) for y in a), tuple(sorted(kw.items())))
        return None
    return bottom(t, f)


def bare(y):
    while y[0] == "call" and y[1] in (("g", "numpy.asarray"), ("g", "numpy.array")) and len(y[2]) == 1 and not y[3]:
        y = y[2][0]
    return y


def kept(r, p):
    es = [e for e in r.ev("setattr") if e["attr"] == p and e["obj"] == SELF]
    if not es:
        return None
    v = None
    for e in es:
        c = conds(nctx(r, e))
        x = norm(r.final(e["value"]))
        v = x if v is None or c == T else ("ite", c, x, v)
    return v


def values(v):
    if v is None:
        return []
    if v[0] == "ite":
        return values(v[2]) + values(v[3])
    return [v]


CHECKS = {"C33": (c33, "")}
