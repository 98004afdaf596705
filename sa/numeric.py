"""Arithmetic normal form: quotients of polynomials with rational coefficients, and element-wise arrays over counted ranges."""
from fractions import Fraction

from .terms import const, contains, rebuild, subst

RANGE = ("g", "builtins.range")
ONE = {(): Fraction(1)}


def frac(c):
    if isinstance(c, bool) or not isinstance(c, (int, float)):
        return None
    try:
        return Fraction(str(c)) if isinstance(c, float) else Fraction(c)
    except ValueError:
        return None


def padd(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if c}


def mono(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=repr))


def pmul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mono(m, n)
            out[k] = out.get(k, 0) + c * d
    return {m: c for m, c in out.items() if c}


def atom(t):
    return {((t, 1),): Fraction(1)}


def inv(a):
    if len(a) == 1:
        (m, c), = a.items()
        return {tuple((x, -e) for x, e in m): 1 / c}
    if not a:
        return atom(("inv0",))
    # content and leading sign taken out, so that equal sums are equal atoms
    lead = a[sorted(a, key=repr)[0]]
    return {((("sum", tuple(sorted(((m, c / lead) for m, c in a.items()), key=repr))), -1),): 1 / lead}


def unsum(a):
    """atoms that stand for sums, when they occur with positive exponents, are multiplied out"""
    out = {}
    for m, c in a.items():
        p = {(): c}
        for x, e in m:
            if x[0] == "sum" and e > 0:
                for _ in range(e):
                    p = pmul(p, dict(x[1]))
            else:
                p = pmul(p, {((x, e),): Fraction(1)})
        out = padd(out, p)
    return out


def poly(t, f=lambda t: None):
    """Laurent polynomial over the non-arithmetic subterms"""
    r = f(t)
    if r is not None:
        return r
    if t[0] == "lau":
        return {m: c for m, c in t[1]}
    if t[0] == "c":
        q = frac(t[1])
        return ({(): q} if q else {}) if q is not None else atom(t)
    if t[0] == "neg":
        return padd({}, poly(t[1], f), -1)
    if t[0] == "op" and len(t) == 4:
        a, b = t[2], t[3]
        if t[1] == "+":
            return padd(poly(a, f), poly(b, f))
        if t[1] == "-":
            return padd(poly(a, f), poly(b, f), -1)
        if t[1] == "*":
            return pmul(poly(a, f), poly(b, f))
        if t[1] == "/":
            return unsum(pmul(poly(a, f), inv(poly(b, f))))
        if t[1] == "**" and b[0] == "c" and isinstance(b[1], int) and 0 <= b[1] <= 4:
            out = ONE
            for _ in range(b[1]):
                out = pmul(out, poly(a, f))
            return out
        if t[1] == "**" and b[0] == "c" and b[1] == -1:
            return unsum(inv(poly(a, f)))
    if t[0] == "op" and len(t) == 3 and t[1] in ("neg", "-", "usub", "u-"):
        return padd({}, poly(t[2], f), -1)
    if t[0] == "call" and t[1] == ("g", "builtins.float") and len(t[2]) == 1:
        return poly(t[2][0], f)
    return atom(t)


def pack(a):
    if not a:
        return const(0)
    if set(a) == {()}:
        c = a[()]
        return const(int(c)) if c.denominator == 1 else ("lau", (((), c),))
    if len(a) == 1:
        (m, c), = a.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ("lau", tuple(sorted(a.items(), key=repr)))


def arith(t):
    return t[0] == "neg" or t[0] == "op" and (t[1] in ("+", "-", "*", "/", "**", "neg", "usub", "u-")) or \
        t[0] == "call" and t[1] == ("g", "builtins.float")


def counted(t):
    """range(lo, hi) as a range from zero"""
    def f(x):
        if x[0] != "seq":
            return None
        ems, hit = [], False
        for em in x[2]:
            ctx, item = list(em[1]), em[2]
            for i, c in enumerate(ctx):
                if c[0] == "for" and c[2][0] == "call" and c[2][1] == RANGE and len(c[2][2]) == 2:
                    lo, hi = c[2][2]
                    n = pack(padd(poly(hi), poly(lo), -1))
                    me = ("el", c[1])
                    sh = lambda z, me=me, lo=lo: ("op", "+", me, lo) if z == me else None
                    rest = ("k", tuple(ctx[i + 1:]), item)
                    rest = subst(rest, sh)
                    ctx[i] = ("for", c[1], ("call", RANGE, (n,), ())) + c[3:]
                    ctx[i + 1:], item = rest[1], rest[2]
                    hit = True
            ems.append(("em", tuple(ctx), item))
        return ("seq", x[1], tuple(ems)) if hit else None
    return subst(t, f)


NEXT = [10 ** 6]


def over(n, f):
    """an array of f(0), ..., f(n - 1)"""
    NEXT[0] += 1
    k = NEXT[0]
    return ("seq", "arr", (("em", (("for", k, ("call", RANGE, (n,), ())),), ("x", f(("el", k)))),))


def is_arr(t):
    return t[0] == "seq" and t[1] == "arr"


def one_map(t):
    """a list or array that maps one loop: (loop, item)"""
    if t[0] == "seq" and len(t[2]) == 1 and len(t[2][0][1]) == 1 and t[2][0][1][0][0] == "for" and len(t[2][0][1][0]) == 3 and t[2][0][2][0] == "x":
        return t[2][0][1][0], t[2][0][2][1]
    return None


def array1(x):
    """numpy ranges and element-wise arithmetic on them, as mapped ranges"""
    if True:
        if x[0] == "call" and x[1][0] == "g":
            n, a, kw = x[1][1], x[2], dict(x[3])
            if n == "numpy.arange" and not kw and len(a) in (1, 2):
                lo, hi = (const(0), a[0]) if len(a) == 1 else a
                return over(pack(padd(poly(hi), poly(lo), -1)), lambda k: ("op", "+", k, lo))
            if n == "numpy.linspace" and len(a) == 3 and not kw:
                return over(a[2], lambda k: ("op", "+", a[0], ("op", "/", ("op", "*", ("op", "-", a[1], a[0]), k), ("op", "-", a[2], const(1)))))
            if n in ("numpy.array", "numpy.asarray", "builtins.list", "builtins.tuple") and len(a) == 1 and not kw and a[0][0] == "seq":
                return ("seq", "arr" if n.startswith("numpy") else "list" if a[0][1] != "arr" else "arr", a[0][2])
            if n in ("numpy.array", "numpy.asarray") and len(a) == 1 and not kw and a[0][0] in ("a", "p"):
                NEXT[0] += 1
                return ("seq", "arr", (("em", (("for", NEXT[0], a[0]),), ("x", ("el", NEXT[0]))),))
        if x[0] == "op" and x[1] in ("+", "-", "*", "/") and len(x) == 4:
            for i, j in ((2, 3), (3, 2)):
                if is_arr(x[i]) and x[j][0] != "seq" and not contains(("_", x[j]), is_arr):
                    put = lambda v: ("op", x[1], v, x[j]) if i == 2 else ("op", x[1], x[j], v)
                    return ("seq", "arr", tuple(("em", em[1], ("x", put(em[2][1]))) if em[2][0] == "x" else em for em in x[i][2]))
        if x[0] == "i" and x[2][0] == "slice" and one_map(x[1]):
            L, item = one_map(x[1])
            if L[2][0] == "call" and L[2][1] == RANGE and len(L[2][2]) == 1:
                lo, hi, st = (tuple(x[2][1:]) + (None, None, None))[:3]
                lo = 0 if lo in (None, const(None)) else lo[1] if lo[0] == "c" else None
                hi = 0 if hi in (None, const(None)) else hi[1] if hi[0] == "c" and isinstance(hi[1], int) and hi[1] < 0 else None
                if isinstance(lo, int) and lo >= 0 and isinstance(hi, int) and st in (None, const(None)):
                    n = pack(padd(poly(L[2][2][0]), {(): Fraction(hi - lo)} if hi != lo else {}))
                    me = ("el", L[1])
                    item = subst(("k", item), lambda z: ("op", "+", me, const(lo)) if z == me else None)[1]
                    return ("seq", x[1][1], (("em", (("for", L[1], ("call", RANGE, (n,), ())),), ("x", item)),))
        return None


def bottom(t, f):
    """rewrite from the leaves up"""
    memo = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x in memo:
            return memo[x]
        y = tuple(go(z) for z in x)
        if y != x:
            y = rebuild(y)
        if y and isinstance(y[0], str):
            r = f(y)
            if r is not None:
                y = r
        memo[x] = y
        return y
    return go(t)


def again(x):
    out = {}
    for m, c in x[1]:
        k = ()
        for a, e in m:
            k = mono(k, ((a, e),))
        p = {(): c}
        for a, e in k:
            q = poly(a) if e > 0 and (a[0] == "lau" or arith(a)) else None
            if q is None:
                p = pmul(p, {((a, e),): Fraction(1)})
            else:
                for _ in range(e):
                    p = pmul(p, q)
        out = padd(out, p)
    return pack(unsum(out))


def canon(t):
    """all arithmetic in normal form"""
    t = bottom(t, array1)
    t = counted(t)

    def f(x):
        if x[0] == "lau":
            return again(x)
        return pack(unsum(poly(x))) if arith(x) else None
    t = bottom(t, f)
    return bottom(t, lambda x: ("seq", "list", x[2]) if is_arr(x) else None)
