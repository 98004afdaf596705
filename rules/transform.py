"""DynamicDataTransformer: validation of time series, fitted columns, lag windows and their names."""
from sa.conform import atomic, form, eqv, novel, raise_conditions, sn, term_like, untouched, alternatives
from sa.rule import A, P, SELF, alpha, conds, fors, imprecise, nctx, norm, same, show, source
from sa.terms import F, NONE, T, const, conjuncts, contains, implies, mk_and, mk_not, mk_or, subst, walk
from rules.learners import padd, pnum, poly

TR = "structure.transformers.DynamicDataTransformer."
G = lambda n: ("g", n)
NUM = const("number")


# ---------------------------------------------------------------------------------------------- validation
def allof(x):
    """y when x says that every element of y is true"""
    if x[0] == "call" and x[1] in (G("numpy.all"), G("builtins.all")) and len(x[2]) == 1:
        return x[2][0]
    if x[0] == "m" and x[2] == "all" and not x[3]:
        return x[1]
    return None


def anyof(x):
    if x[0] == "call" and x[1] in (G("numpy.any"), G("builtins.any")) and len(x[2]) == 1:
        return x[2][0]
    if x[0] == "m" and x[2] == "any" and not x[3]:
        return x[1]
    return None


def pair(x):
    """the two sides said to be equal throughout"""
    y = allof(x)
    if y is not None and y[0] == "==":
        return y[1:3]
    y = anyof(x)
    if y is not None and y[0] == "not" and y[1][0] == "==":
        return None
    if x[0] == "m" and x[2] in ("equals", "identical") and len(x[3]) == 1:
        return (x[1], x[3][0])
    if x[0] == "call" and x[1] == G("numpy.array_equal") and len(x[2]) == 2:
        return x[2]
    if x[0] == "==" and all(y[0] == "seq" or y[0] == "m" and y[2] in ("tolist", "to_list") for y in x[1:3]):
        return tuple(bare(y) for y in x[1:3])
    return None


def bare(t):
    while True:
        s = source(t)
        if s[0] == "m" and s[2] in ("tolist", "to_list", "to_numpy") and not s[3] or s[0] == "a" and s[2] in ("values", "array"):
            s = s[1]
        if s == t:
            return t
        t = s


def plain(t):
    """without conversions between sequence types"""
    if t[0] == "ite":
        return ("ite", t[1], plain(t[2]), plain(t[3]))
    if t[0] == "m" and t[2] in ("tolist", "to_list", "to_numpy", "copy") and not t[3] or t[0] == "a" and t[2] in ("values", "array"):
        return plain(t[1])
    if t[0] == "call" and t[1] in (G("builtins.list"), G("builtins.tuple"), G("numpy.array"), G("numpy.asarray")) and len(t[2]) == 1:
        return plain(t[2][0])
    if t[0] == "seq" and len(t[2]) == 1 and len(t[2][0][1]) == 1 and t[2][0][1][0][0] == "for" and t[2][0][2] == ("x", ("el", t[2][0][1][0][1])):
        return plain(t[2][0][1][0][2])
    if t[0] == "seq" and len(t[2]) == 1 and not t[2][0][1] and t[2][0][2][0] == "base":
        return plain(t[2][0][2][1])
    return t


def of(t, attr):
    return ("ite", t[1], of(t[2], attr), of(t[3], attr)) if t[0] == "ite" else A(t, attr)


def kind(x, first):
    """('ok', kind, frame) for a recognised test of a series"""
    if x[0] == "isinstance" and x[2] == G("pandas.DataFrame"):
        return ("ok", "frame", x[1])
    sel = None
    if x[0] == "a" and x[2] == "empty" and x[1][0] == "a" and x[1][2] == "columns":
        sel = (x[1][1], False)
    elif x[0] == "a" and x[2] == "columns":
        sel = (x[1], True)
    if sel and sel[0][0] == "m" and sel[0][2] == "select_dtypes":
        m = sel[0]
        kw = dict(m[4]) if len(m) > 4 else {}
        args = {**dict(zip(("include", "exclude"), m[3])), **kw}
        if set(args) == {"exclude"} and args["exclude"] in (NUM, ("seq", "list", (("em", (), ("x", NUM)),)), G("numpy.number")):
            return mk_not(("ok", "numeric", m[1])) if sel[1] else ("ok", "numeric", m[1])
        if all(x[0] == "c" for x in args.values()):
            return mk_not(("ok", "unrelated", m[1])) if sel[1] else ("ok", "unrelated", m[1])
    p = pair(x)
    if p is not None:
        a, b = (bare(y) for y in p)
        for u, v in ((a, b), (b, a)):
            if v[0] == "a" and v[2] in ("columns", "dtypes") and u in (A(first, v[2]), of(first, v[2])):
                return ("ok", v[2], v[1])
            if v[0] == "m" and v[2] == "sort_values" and not v[3] and v[1] == u and u[0] == "a" and u[2] == "index":
                return ("ok", "sorted", u[1])
            if v[0] == "call" and v[1] in (G("numpy.sort"), G("builtins.sorted")) and v[2] == (u,) or v[0] == "sorted" and v[1] == u and v[2] in (None, NONE):
                return ("ok", "sorted", u[1])
    if x[0] == "a" and x[2] in ("is_monotonic_increasing", "is_monotonic") and x[1][0] == "a" and x[1][2] == "index":
        return ("ok", "sorted", x[1][1])
    for y, neg in ((allof(x), False), (anyof(x), True)):
        if y is not None:
            z = y if neg else (y[1] if y[0] == "not" else NONE)
            if z[0] == "<" and z[2] == const(0) and z[1][0] == "call" and z[1][1] == G("numpy.diff") and z[1][2][0][0] == "a" and z[1][2][0][2] == "index":
                return mk_not(("ok", "sorted", z[1][2][0][1])) if neg else ("ok", "sorted", z[1][2][0][1])
            if neg and y[0] == "not" and y[1][0] == "==":
                k = kind(("call", G("numpy.all"), (y[1],), ()), first)
                if k is not None:
                    return mk_not(k)
    if x[0] == "==" and any(y[0] == "a" and y[2] == "dtype" and y[1][0] == "a" and y[1][2] == "index" for y in x[1:3]):
        u, v = (x[1], x[2]) if x[1][0] == "a" and x[1][2] == "dtype" else (x[2], x[1])
        if v in (G("builtins.int"), G("numpy.int64"), const("int64"), const("int")):
            return ("ok", "integer", u[1][1])
    if x[0] == "call" and x[1] in (G("numpy.issubdtype"),) and len(x[2]) == 2 and x[2][1] in (G("numpy.integer"), G("builtins.int")):
        u = x[2][0]
        if u[0] == "a" and u[2] == "dtype" and u[1][0] == "a" and u[1][2] == "index":
            return ("ok", "integer", u[1][1])
    if x[0] == "call" and x[1][0] == "g" and x[1][1].endswith("is_integer_dtype") and len(x[2]) == 1:
        u = x[2][0]
        u = u[1] if u[0] == "a" and u[2] == "dtype" else u
        if u[0] == "a" and u[2] == "index":
            return ("ok", "integer", u[1])
    if x[0] == "subset" and x[1] == A(SELF, "columns"):
        y = x[2]
        y = y[1] if y[0] == "a" and y[2] == "columns" else y
        return ("ok", "fitted", y)
    if x[0] == "subset" and x[2] == A(SELF, "columns") and x[1][0] == "a" and x[1][2] == "columns":
        return ("ok", "unrelated", x[1][1])
    return None


def bools(c, f):
    """rewrite the boolean leaves of a condition"""
    if c in (T, F):
        return c
    if c[0] == "and":
        return mk_and(*[bools(x, f) for x in c[1:]])
    if c[0] == "or":
        return mk_or(*[bools(x, f) for x in c[1:]])
    if c[0] == "not":
        return mk_not(bools(c[1], f))
    if c[0] == "ex":
        out, dead = [], False
        for e in c[1]:
            if e[0] == "if":
                g = bools(e[1], f)
                dead = dead or g == F
                if g != T:
                    out.append(("if", g))
            else:
                out.append(e)
        return F if dead else ("ex", tuple(out)) + tuple(c[2:])
    y = f(c)
    return c if y is None else y


# kind -> (exception, how it is described)
KINDS = {"frame": ("TypeError", "an entry that is not a data frame"), "numeric": ("ValueError", "non-numeric columns"),
         "columns": ("ValueError", "columns other than those of the first series"),
         "dtypes": ("ValueError", "column types other than those of the first series"),
         "sorted": ("ValueError", "an index that is not in increasing order"), "integer": ("TypeError", "an index that does not hold integers"),
         "fitted": ("ValueError", "missing columns the transformer was fitted with")}
SERIES = "(ts if isinstance(ts, list) else [ts])"


def validation(R, r, fn):
    w = r.func.where
    ts = P(r.func.params[1])
    s = R.spec(r.func, f"""
def spec(self, {ts[1]}):
    {ts[1]} = {SERIES.replace('ts', ts[1])}
    for t in {ts[1]}:
        if not t.ok:
            raise ValueError()
    return {ts[1]}[0]
""")
    ref = raise_conditions(s)
    each = ref["ValueError"][0]
    lst = ("isinstance", ts, G("builtins.list"))
    empty = mk_and(lst, mk_not(ts))
    first = alpha(s.final(s.ret))
    unfitted = ("is", A(SELF, "columns"), const(None))

    def strip(t):
        return subst(t, lambda x: strip(x[2][0]) if x[0] == "call" and x[1] in (G("copy.deepcopy"), G("copy.copy")) and len(x[2]) == 1 else
                     strip(x[1]) if x[0] == "m" and x[2] == "copy" and not [y for y in x[3] if y != T] else None)

    got = {}
    for n, (c, evs) in raise_conditions(r).items():
        c = bools(strip(c), lambda x: kind(x, first))
        got[n] = (bools(c, lambda x: (F if fn == "transform" else T) if x == unfitted and n != "NotFittedError" else None), evs)
    rest = {n: [x for x in leaves(c) if x[0] != "ok" and x not in (lst, ts, unfitted)] for n, (c, _) in got.items()}
    unknown = [x for n, xs in rest.items() if n != "NotFittedError" for x in xs]
    oks = {x[1] for n, (c, _) in got.items() for x in leaves(c) if x[0] == "ok"}

    def only(k):
        """conditions when nothing but k can be wrong"""
        def f(x):
            if x[0] == "ok":
                return None if x[1] == k else T
            if x == ts and k != "empty":
                return T
            return None
        return {n: form(bools(c, f)) for n, (c, _) in got.items() if n != "NotFittedError"}

    for k, (exc, what) in KINDS.items():
        if k == "fitted" and fn == "fit":
            continue
        label = f"{fn} raises {exc} exactly for {what}"
        cs = only(k)
        want = form(bools(each, lambda x: ("ok", k, x[1]) if x[0] == "a" and x[2] == "ok" else None))
        def exact(cs):
            return eqv(cs.get(exc, F), want) is True and all(c == F for n, c in cs.items() if n != exc)

        v = exact(cs)
        evs = got.get(exc, (F, []))[1]
        more = [show(c)[:140] + " -> " + n for n, c in cs.items() if n != exc and c != F]
        # a test that is not understood might be this one, or never fail while only k is wrong
        fine = not v and len(unknown) <= 3 and any(
            exact({n: form(bools(c, lambda x: (T if m >> unknown.index(x) & 1 else F) if x in unknown else None)) for n, c in cs.items()})
            for m in range(2 ** len(unknown)))
        R.check(v, "series", evs[0].where if evs else w, label, f"raised if {show(cs.get(exc, F))[:200]}" + (f"; also {more}" if more else ""),
                unsure=bool(unknown) and (fine or k not in oks or len(unknown) > 3 or any(odd(x) for x in unknown)))
    cs = only("empty")
    v = eqv(cs.get("ValueError", F), empty) is True and all(c == F for n, c in cs.items() if n != "ValueError")
    R.check(v, "series", w, f"{fn} raises ValueError exactly for an empty list", f"raised if {[(n, show(c)[:140]) for n, c in cs.items()]}",
            unsure=bool(unknown))
    if fn == "transform":
        c, evs = raise_conditions(r).get("NotFittedError", (F, []))
        R.check(eqv(c, unfitted), "fitted-first", evs[0].where if evs else w, "transform before fit raises NotFittedError", f"raised if {show(c)[:160]}",
                unsure=imprecise(("_", c)))
        late = [e for e in r.raises() if e["name"] != "NotFittedError" and evs and e.pos < evs[0].pos]
        R.check(not late, "fitted-first", late[0].where if late else w, "nothing else is reported for an unfitted transformer", "other errors come first")


def leaves(c):
    if c in (T, F):
        return []
    if c[0] in ("and", "or", "not"):
        return [y for x in c[1:] for y in leaves(x)]
    if c[0] == "ex":
        return [y for e in c[1] if e[0] == "if" for y in leaves(e[1])]
    return [c]


def odd(x):
    return bool(novel(x, ("m", NONE, "select_dtypes", ()), A(NONE, "columns"), A(NONE, "dtypes"), A(NONE, "index"), A(NONE, "dtype"), A(NONE, "empty"),
                      ("call", G("numpy.all"), (), ()), ("m", NONE, "all", ()), ("m", NONE, "sort_values", ()), G("pandas.DataFrame")))


# ---------------------------------------------------------------------------------------------- lag windows
def lin(t, drop=()):
    """bounds of slices as sorted polynomials"""
    q = poly(neg(t))
    q = {m: c for m, c in q.items() if not (len(m) == 1 and m[0] in drop)}
    return ("poly",) + tuple(sorted(q.items(), key=repr))


def neg(t):
    return subst(t, lambda x: ("op", "-", const(0), neg(x[2])) if x[0] == "op" and x[1] in ("neg", "-") and len(x) == 3 else None)


def shapes(t):
    """one spelling per array operation; loops over range(1, n + 1) count from 0"""
    def length(x):
        return {("call", G("builtins.len"), (x,), ()), ("i", A(x, "shape"), const(0))}

    def f(x):
        if x[0] == "call" and x[1] in (G("numpy.hstack"), G("numpy.vstack")) and len(x[2]) == 1 and not x[3]:
            return shapes(("call", G("numpy.concatenate"), x[2], (("axis", const(1 if x[1][1].endswith("hstack") else 0)),)))
        if x[0] == "call" and x[1] == G("numpy.concatenate"):
            kw = dict(x[3])
            ax = kw.get("axis", x[2][1] if len(x[2]) > 1 else const(0))
            arg = x[2][0]
            if arg[0] == "seq" and len(arg[2]) == 1 and not arg[2][0][1] and arg[2][0][2][0] == "base":
                arg = arg[2][0][2][1]
            return ("stack", ax, shapes(arg))
        if x[0] == "m" and x[2] == "to_numpy" and not x[3]:
            return shapes(A(x[1], "values"))
        if x[0] == "a" and x[2] == "values" and x[1][0] == "i" and x[1][1][0] == "a" and x[1][1][2] == "iloc":
            return shapes(("i", A(x[1][1][1], "values"), x[1][2]))
        if x[0] == "a" and x[2] == "index" and x[1][0] == "i" and x[1][2] == A(SELF, "columns"):
            return shapes(A(x[1][1], "index"))
        if x in (()):
            return None
        if x[0] == "call" and x[1] == G("builtins.len") and x[2][0][0] == "i" and x[2][0][2] == A(SELF, "columns"):
            return shapes(("call", G("builtins.len"), (x[2][0][1],), ()))
        if x[0] == "i" and x[1][0] == "a" and x[1][2] == "shape" and x[2] == const(0):
            return shapes(("call", G("builtins.len"), (x[1][1],), ()))
        if x[0] == "i" and x[2][0] == "tuple" and len(x[2][1]) == 2 and x[2][1][1] == ("slice", NONE, NONE, NONE):
            return shapes(("i", x[1], x[2][1][0]))
        if x[0] == "i" and x[2][0] == "slice" and x[2][3] in (NONE, const(1)) and x[1][0] != "seq":
            base = shapes(x[1])
            lo, hi = (shapes(y) for y in x[2][1:3])
            drop = {shapes(y) for y in length(base)}
            lo = const(0) if lo == NONE else lo
            return ("window", base, lin(lo), NONE if hi == NONE or hi in drop else lin(hi, drop))
        if x[0] == "call" and x[1] in (G("numpy.flatnonzero"),) and len(x[2]) == 1:
            return shapes(("i", ("call", G("numpy.where"), x[2], ()), const(0)))
        if x[0] == "i" and x[1][0] == "call" and x[1][1] == G("numpy.nonzero"):
            return shapes(("i", ("call", G("numpy.where"), x[1][2], ()), x[2]))
        return None
    return subst(t, f)


def counted(t):
    """range(1, n + 1) -> range(n), every element one more; loops over array + c -> loops over the array"""
    def g(x):
        if x[0] == "em" and len(x) == 3 and any(c[0] == "for" for c in x[1]):
            for c in x[1]:
                if c[0] != "for":
                    continue
                coll = c[2]
                if coll[0] == "call" and coll[1] == G("builtins.range") and len(coll[2]) == 2 and coll[2][0] == const(1):
                    new = ("call", G("builtins.range"), (simple(padd(poly(coll[2][1]), pnum(-1))),), ())
                    el = ("el", c[1])
                    y = ("em", tuple(("for", d[1], new) + tuple(d[3:]) if d is c else d for d in x[1]), x[2])
                    k = x[1].index(c)
                    y = ("em", y[1][:k + 1] + tuple(subst(d, lambda z: ("op", "+", el, const(1)) if z == el else None) for d in y[1][k + 1:]),
                         subst(y[2], lambda z: ("op", "+", el, const(1)) if z == el else None))
                    return counted(y)
                if coll[0] in ("reversed",) or coll[0] == "call" and coll[1] == G("builtins.reversed"):
                    inner = coll[2][0] if coll[0] == "call" else coll[1]
                    if inner[0] == "call" and inner[1] == G("builtins.range") and len(inner[2]) == 1:
                        el = ("el", c[1])
                        k = x[1].index(c)
                        turn = lambda z: ("op", "-", ("op", "-", inner[2][0], const(1)), el) if z == el else None
                        return counted(("em", x[1][:k] + (("for", c[1], inner) + tuple(c[3:]),) + tuple(subst(d, turn) for d in x[1][k + 1:]),
                                        subst(x[2], turn)))
                if coll[0] == "op" and coll[1] == "+" and coll[3][0] == "c":
                    el = ("el", c[1])
                    k = x[1].index(c)
                    y = ("em", x[1][:k] + (("for", c[1], coll[2]) + tuple(c[3:]),) + tuple(subst(d, lambda z: ("op", "+", el, coll[3]) if z == el else None) for d in x[1][k + 1:]),
                         subst(x[2], lambda z: ("op", "+", el, coll[3]) if z == el else None))
                    return counted(y)
        return None
    return subst(t, g)


def simple(q):
    from rules.learners import unpoly
    return unpoly(q)


def consecutive(t):
    """for a in C[:-1] with C[1:][position] -> ('next', C, a)"""
    rest = ("slice", const(1), NONE, NONE)

    def flat(x):
        if x[0] == "seq" and len(x[2]) == 1 and not x[2][0][1] and x[2][0][2][0] == "base":
            return flat(x[2][0][2][1])
        return x

    def g(x):
        if x[0] == "i" and x[2][0] == "idx":
            y = flat(x[1])
            if y[0] == "i" and y[2] == rest:
                return ("next", consecutive(alpha(y[1])), x[2][1])
        if x[0] == "for":
            y = flat(x[2])
            if y[0] == "i" and y[2][:2] == ("slice", NONE) and y[2][3] == NONE and y[2][2][0] == "c" and y[2][2][1] < 0:
                return ("for", x[1], ("butlast", consecutive(alpha(y[1])), y[2][2])) + tuple(x[3:])
        return None
    return subst(t, g)


def canon(t):
    return alpha(spliced(shapes(counted(consecutive(alpha(t))))))


def spliced(t):
    """[*[a, b], c] -> [a, b, c]"""
    def f(x):
        if x[0] != "seq" or x[1] != "list":
            return None
        out = []
        for e in x[2]:
            inner = e[1][0][2] if len(e[1]) == 1 and e[1][0][0] == "for" and e[2] == ("x", ("el", e[1][0][1])) else \
                e[2][1] if not e[1] and e[2][0] == "base" else None
            inner = spliced(inner) if inner is not None else None
            if inner is not None and inner[0] == "seq" and inner[1] == "list":
                out += inner[2]
            else:
                out.append(tuple(spliced(y) if isinstance(y, tuple) and y else y for y in e[:1]) + (spliced(("_", e[1]))[1], spliced(("_", e[2]))[1]))
        return ("seq", "list", tuple(out)) + x[3:]
    return subst(t, f)


def pieces_of(t):
    """[(axis, list)] outer structure of a stacked array"""
    return t


def windows(R, r, fn="transform"):
    w = r.func.where
    ts = P(r.func.params[1])
    ret = norm(r.final(r.ret))
    head = f"""
def spec(self, {ts[1]}):
    {ts[1]} = {SERIES.replace('ts', ts[1])}
    pieces = []
    for t in {ts[1]}:
        t = t[self.columns]
        cuts = [0] + [c + 1 for c in np.where(np.diff(t.index) > 1)[0]] + [len(t)]
        for a, b in zip(cuts[:-1], cuts[1:]):
            pieces.append(t.values[a:b])
    X = np.concatenate([x[self.p:] for x in pieces], axis=0)
    L = np.concatenate([np.concatenate([x[self.p - 1 - i : -1 - i] for i in range(self.p)], axis=1) for x in pieces], axis=0)
"""
    s = R.spec(r.func, head + "    return X, L\n")
    want = canon(s.final(s.ret))
    if want[0] != "tuple" or len(want[1]) != 2:
        R.und("windows", w, "reference")
        return
    vals = parts(alpha(ret))
    wx, wl = want[1]
    for c, v in vals:
        df = contains(c, lambda x: x == A(SELF, "return_df")) and implies(c, A(SELF, "return_df")) is True
        ar = implies(c, mk_not(A(SELF, "return_df"))) is True
        v = canon(v)
        if ar:
            if v[0] != "tuple" or len(v[1]) != 2:
                R.check(False, "windows", w, "without return_df the result is the pair X, Xlags", show(v)[:160], unsure=v[0] not in ("tuple", "stack", "call"))
                continue
            lag(R, w, "X holds rows p onwards of every uninterrupted stretch", v[1][0], wx, wl)
            lag(R, w, "Xlags holds, beside each of these rows, the rows 1 to p steps before it, nearest first", v[1][1], wl, wx)
        elif df:
            named(R, r, w, v, wx, wl, ts)
        else:
            R.check(None, "windows", w, "return_df decides between a data frame and a pair of arrays", f"if {show(c)[:120]}")
    cs = [c for c, _ in vals]
    R.check(len(vals) == 2 or None, "windows", w, "return_df decides between a data frame and a pair of arrays", f"{[show(c)[:80] for c in cs]}")


def parts(v):
    rd = A(SELF, "return_df")
    if v[0] == "ite":
        # the condition may repeat that no error was raised before
        for c, (a, b) in ((v[1], v[2:]), (mk_not(v[1]), (v[3], v[2]))):
            if rd in conjuncts(c) and sum(contains(("_", x), lambda y: y == rd) for x in conjuncts(c)) == 1:
                return [(rd, a), (mk_not(rd), b)]
            if mk_not(rd) in conjuncts(c) and sum(contains(("_", x), lambda y: y == rd) for x in conjuncts(c)) == 1:
                return [(mk_not(rd), a), (rd, b)]
    return alternatives(v)


def skeleton(t):
    """what a term is made of, without numbers"""
    out = []
    for x in walk(("_", t)):
        if x[0] in ("stack", "window", "butlast", "next", "call", "m", "for", "op"):
            out.append(x[0] + (":" + str(x[1][1]) if x[0] == "call" and x[1][0] == "g" else ":" + str(x[2]) if x[0] == "m" else ""))
    return out


def lag(R, w, what, got, want, other=None):
    ok = same(got, want)
    fuzzy = imprecise(got) or bool(novel(got, want))
    if ok or fuzzy:
        R.check(ok, "windows", w, what, f"is {diff(got, want)}", unsure=True)
        return
    if other is not None and same(got, other):
        R.bad("windows", w, what, "it is the other array")
        return
    for x, why in ((A(SELF, "columns"), "the columns are not those of the fit"), (G("numpy.diff"), "the steps of the time index play no role")):
        if not contains(("_", got), lambda y: y == x):
            R.bad("windows", w, what, why)
            return
    a, b = stops(got), stops(want)
    if a and b and a != b:
        R.bad("windows", w, what, f"stretches end at {[show(x)[:60] for x in a]}; required {[show(x)[:60] for x in b]}")
        return
    R.check(False, "windows", w, what, f"is {diff(got, want)}", unsure=not (shaped(got, want) or rows(got) and rows(want) and rows(got) != rows(want)))


def stops(t):
    """where the stretches begin and end: [start, (steps, value), length, number of bounds left out], or None"""
    bs = {x for x in walk(("_", t)) if x[0] == "butlast"}
    if len(bs) != 1:
        return None
    c, k = bs.pop()[1:]
    if c[0] != "seq" or len(c[2]) != 3:
        return None
    a, m, b = c[2]
    if a[1] or b[1] or len(m[1]) != 1 or m[1][0][0] != "for" or {a[2][0], m[2][0], b[2][0]} != {"x"}:
        return None
    where = m[1][0][2]
    if not (where[0] == "i" and where[1][0] == "call" and where[1][1] == G("numpy.where")):
        return None
    return [a[2][1], where, m[2][1], b[2][1], k]


def rows(t):
    """the numbers that say which rows of each stretch are taken, or None"""
    def one(t):
        if t[0] == "stack" and t[2][0] == "seq" and len(t[2][2]) == 1 and t[2][2][0][2][0] == "x":
            return t[1], t[2][2][0][1], t[2][2][0][2][1]
        return None
    a = one(t)
    if a is None:
        return None
    ax, fs, e = a
    if e[0] == "window" and e[1][0] == "window":
        return ax, e[2:]
    b = one(e)
    if b is None or b[2][0] != "window" or b[2][1][0] != "window" or len(b[1]) != 1 or b[1][0][0] != "for":
        return None
    return ax, b[0], b[1][0][2], b[2][2:]


def shaped(a, b):
    """the same construction with other numbers, collections or conditions"""
    def sk(t):
        if not isinstance(t, tuple):
            return None
        if t and t[0] == "poly":
            return "poly"
        if t and t[0] == "c":
            return "c"
        if t and t[0] in ("<", "not", "==") :
            return "cond"
        if t and t[0] == "op":
            return "num"
        return tuple(sk(x) for x in t if isinstance(x, tuple))
    return sk(a) == sk(b)


def diff(a, b):
    """the first place where a and b differ"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[:1] == b[:1] and a[0] not in ("poly", "c"):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return f"{show(a)[:140] if isinstance(a, tuple) else a}; required {show(b)[:140] if isinstance(b, tuple) else b}"


def named(R, r, w, v, wx, wl, ts):
    what = "the data frame holds the columns of X named lag 0, then those of Xlags named lag by lag"
    s = R.spec(r.func, """
def spec(self, X, L):
    a = [f"{c}_lag0" for c in self.columns]
    b = [f"{c}_lag{k}" for k in range(1, self.p + 1) for c in self.columns]
    return a, b, a + b
""")
    a, b, ab = alpha(counted(alpha(s.final(s.ret))))[1]
    tabs = [x for x in walk(("_", v)) if x[0] == "call" and x[1] == G("pandas.DataFrame")]
    tabs = [(table(x), x) for x in tabs]
    full = [x for x in tabs if x[0] and x[0][0][0] == "stack" and x[0][0][1] == const(1)]
    if len(full) == 1 and len(tabs) == 1:
        d, c = full[0][0]
        es = [e[2][1] for e in d[2][2]] if d[2][0] == "seq" and all(not e[1] and e[2][0] == "x" for e in d[2][2]) else []
        R.check(len(es) == 2 and same(es[0], wx) and same(es[1], wl) and same(alpha(c), ab), "names", w, what, show(c)[:200],
                unsure=len(es) != 2 or bool(novel(c, ab)))
        return
    if v[0] == "call" and v[1] == G("pandas.concat"):
        ax = dict(v[3]).get("axis", v[2][1] if len(v[2]) > 1 else const(0))
        lst = v[2][0]
        es = [e[2][1] for e in lst[2]] if lst[0] == "seq" and all(not e[1] and e[2][0] == "x" for e in lst[2]) else \
            list(lst[1]) if lst[0] == "tuple" else []
        if len(es) == 2 and all(table(e) for e in es):
            (d0, c0), (d1, c1) = table(es[0]), table(es[1])
            R.check(ax in (const(1), const("columns")), "names", w, "current and lagged values stand side by side", f"axis {show(ax)}")
            lag(R, w, "X holds rows p onwards of every uninterrupted stretch", d0, wx, wl)
            lag(R, w, "Xlags holds, beside each of these rows, the rows 1 to p steps before it, nearest first", d1, wl, wx)
            for c, ref, which in ((c0, a, "current"), (c1, b, "lagged")):
                c = alpha(counted(alpha(c)))
                R.check(same(c, ref), "names", w, f"{which} columns are named after their variable and lag, in the order of the values",
                        f"names are {show(c)[:200]}; required {show(ref)[:200]}", unsure=imprecise(c) or bool(novel(c, ref)) or c[0] != "seq")
            return
    R.und("names", w, what, show(v)[:200])


def table(t):
    if t[0] == "call" and t[1] == G("pandas.DataFrame"):
        kw = dict(t[3])
        d = t[2][0] if t[2] else kw.get("data")
        c = kw.get("columns", t[2][2] if len(t[2]) > 2 else None)
        if d is not None and c is not None:
            return d, c
    return None


def c31(R):
    r = R.run(TR + "fit")
    ts = P(r.func.params[1])
    w = r.func.where
    validation(R, r, "fit")
    atomic(R, "fit-last", r, {SELF}, "a rejected fit leaves the transformer as it was")
    s = R.spec(r.func, f"""
def spec(self, {ts[1]}, return_df=True):
    {ts[1]} = {SERIES.replace('ts', ts[1])}
    self.columns = list({ts[1]}[0].columns)
    self.return_df = return_df
    return self
""")
    for attr in ("columns", "return_df"):
        def last(x):
            es = [e for e in x.ev("setattr") if e["attr"] == attr and sn(x, e["obj"]) == SELF]
            return es[-1] if es else None
        g, h = last(r), last(s)
        if g is None:
            R.bad("fit-stores", w, f"fit remembers {attr}", "it is never stored")
            continue
        v = norm(r.final(g["value"]))
        v = plain(v) if attr == "columns" else v
        u = norm(s.final(h["value"]))
        u = plain(u) if attr == "columns" else u
        term_like(R, "fit-stores", g.where, f"fit remembers {attr}", v, [u])
    R.check(norm(r.final(r.ret)) == SELF, "fit-stores", w, "fit returns the transformer", show(norm(r.final(r.ret)))[:120])
    untouched(R, "pure", r, {ts}, "fit does not change the series")
    r = R.run(TR + "transform")
    validation(R, r, "transform")
    windows(R, r)
    untouched(R, "pure", r, {P(r.func.params[1]), SELF}, "transform changes neither the series nor the transformer")
    R.floor(20)


CHECKS = {"C31": (c31, "")}
