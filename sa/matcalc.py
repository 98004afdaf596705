"""Matrix calculus on normal forms: objectives as polynomials over traces of words, and their derivatives.

A scalar is a polynomial over scalar atoms; a matrix is a sum of words (products of matrix atoms, possibly transposed) with scalar
coefficients; the trace of a word is taken up to rotation and transposition. Hadamard products and matrix exponentials are atoms over
the normal forms of their arguments. Vectors are laid out as pieces, each a matrix with the places of its entries."""
from fractions import Fraction

from .numeric import atom, frac, inv, mono, padd, pmul, unsum
from .terms import NONE, const

J = ("J",)
UNIT = {(): Fraction(1)}


class Unknown(Exception):
    pass


def fz(d):
    return tuple(sorted(d.items(), key=repr))


# ------------------------------------------------------------------ matrices: {(mono, word): coefficient}
def madd(a, b, s=1):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0) + s * c
    return {k: c for k, c in out.items() if c}


def scale(p, a):
    out = {}
    for m, c in p.items():
        for (n, w), d in a.items():
            k = (mono(m, n), w)
            out[k] = out.get(k, 0) + c * d
    return {k: c for k, c in out.items() if c}


def mmul(a, b):
    out = {}
    for (m, v), c in a.items():
        for (n, w), d in b.items():
            k = (mono(m, n), v + w)
            out[k] = out.get(k, 0) + c * d
    return {k: c for k, c in out.items() if c}


def wt(w):
    """the transpose of a word"""
    return tuple(ft(f) for f in reversed(w))


def ft(f):
    a, t = f
    if a == J:
        return f
    return (a, 1 - t)


def factor(a, t=0):
    """a factor in its canonical orientation"""
    if a[0] == "had":
        b = ("had", tuple(sorted((wt(w) for w in a[1]), key=repr)))
        if repr(b) < repr(a):
            return (b, 1 - t) if b != a else (a, 0)
        return (a, 0) if b == a else (a, t)
    if a[0] == "expm":
        b = ("expm", fz(mt(dict(a[1]))))
        if b == a:
            return (a, 0)
        return (b, 1 - t) if repr(b) < repr(a) else (a, t)
    return (a, t)


def mt(a):
    return {(m, tuple(factor(*f) for f in wt(w))): c for (m, w), c in a.items()}


def single(a, t=0):
    return {((), (factor(a, t),)): Fraction(1)}


def had(a, b):
    """the element-wise product"""
    out = {}
    for (m, v), c in a.items():
        for (n, w), d in b.items():
            parts = parts_of(v) + parts_of(w)
            ones = [p for p in parts if p != ((J, 0),)]
            if len(ones) == 2 and ones[0] == ones[1] and len(ones[0]) == 1 and ones[0][0][0][0] == "abs":
                q = dict(ones[0][0][0][1])
                q = mt(q) if ones[0][0][1] else q
                out = madd(out, scale({mono(m, n): c * d}, had(q, q)))
                continue
            if not ones:
                word = ((J, 0),)
            elif len(ones) == 1:
                word = ones[0]
            else:
                word = (factor(("had", tuple(sorted(ones, key=repr)))),)
            k = (mono(m, n), word)
            out[k] = out.get(k, 0) + c * d
    return {k: c for k, c in out.items() if c}


def parts_of(w):
    if len(w) == 1 and w[0][0][0] == "had":
        return [wt(x) for x in w[0][0][1]] if w[0][1] else list(w[0][0][1])
    return [w]


# ------------------------------------------------------------------ scalars
def trword(w):
    if not w:
        return atom(("tr", ()))
    best = None
    for v in (w, tuple(factor(*f) for f in wt(w))):
        for i in range(len(v)):
            c = v[i:] + v[:i]
            if best is None or repr(c) < repr(best):
                best = c
    if len(best) == 1 and best[0][0][0] == "had" and len(best[0][0][1]) == 2 and () in best[0][0][1]:
        o = [x for x in best[0][0][1] if x != ()]
        return trword(o[0]) if o else atom(("tr", ()))
    return atom(("tr", best))


def trace(a):
    out = {}
    for (m, w), c in a.items():
        out = padd(out, pmul({m: c}, trword(w)))
    return out


def total(a):
    """the sum of the entries"""
    out = {}
    for (m, w), c in a.items():
        if len(w) == 1 and w[0][0][0] == "had" and len(w[0][0][1]) == 2:
            x, y = w[0][0][1]
            s = trword(tuple(factor(*f) for f in wt(x)) + y)
        elif len(w) == 1 and w[0][0][0] == "V":
            s = atom(("vs", memory(w[0][0])))
        elif len(w) == 1 and w[0][0][0] == "had":
            s = atom(("hs", min((w[0][0][1], tuple(sorted((wt(x) for x in w[0][0][1]), key=repr))), key=repr)))
        else:
            s = trword(((J, 0),) + w)
        out = padd(out, pmul({m: c}, s))
    return out


def fro2(a):
    return trace(mmul(mt(a), a))


def power(p, k):
    out = UNIT
    for _ in range(k):
        out = pmul(out, p)
    # the square of a root
    fin = {}
    for m, c in out.items():
        q = {(): c}
        for x, e in m:
            while x[0] == "sqrt" and e >= 2:
                q = pmul(q, dict(x[1]))
                e -= 2
            if e:
                q = pmul(q, {((x, e),): Fraction(1)})
        fin = padd(fin, q)
    return fin


# ------------------------------------------------------------------ layouts
def memory(v):
    return (v[1], v[2])


def digits(ds):
    """the places of entries, as a set of (count, stride) with neighbours joined"""
    ds = sorted(((fz_(d), fz_(s)) for d, s in ds if d != {(): 1}), key=repr)
    ds = [(dict(d), dict(s)) for d, s in ds]
    again = True
    while again:
        again = False
        for i, (d1, s1) in enumerate(ds):
            for j, (d2, s2) in enumerate(ds):
                if i != j and s1 == ipmul(d2, s2):
                    n = [x for k, x in enumerate(ds) if k not in (i, j)]
                    ds = n + [(ipmul(d1, d2), s2)]
                    again = True
                    break
            if again:
                break
    return tuple(sorted(((fz_(d), fz_(s)) for d, s in ds), key=repr))


def fz_(d):
    return tuple(sorted(d.items(), key=repr))


def ipmul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            out[k] = out.get(k, 0) + c * d
    return {m: c for m, c in out.items() if c}


def ipadd(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if c}


def isone(k):
    return k == {(): 1}


# ------------------------------------------------------------------ evaluation of terms
class Calc:
    """evaluates terms; `matrices` gives the shapes of the matrix symbols, `layout` reads a term as a part of the vector `base`"""

    def __init__(self, matrices, layout, ipoly, length):
        self.mats, self.layout, self.ipoly, self.length = matrices, layout, ipoly, length
        self.seen = {}
        self.memo = {}
        self.writes = []

    def ev(self, t):
        if t not in self.memo:
            self.memo[t] = self.ev1(t)
        return self.memo[t]

    def s(self, t):
        v = self.ev(t)
        if v[0] != "s":
            raise Unknown(f"{v[0]} where a number is expected")
        return v[1]

    def m(self, t):
        v = self.ev(t)
        if v[0] == "m":
            return v
        raise Unknown("not a matrix")

    def read(self, t):
        """a part of the vector"""
        y = self.layout(t)
        if y is None:
            return None
        if any(ax is None for _, _, ax in y):
            n = self.length()
            if n is None:
                return None
            y = [(s, o, [[(n, {(): 1})]] if ax is None else ax) for s, o, ax in y]
        if all(len(ax) == 2 for _, _, ax in y):
            out, shp = {}, None
            for s, o, ax in y:
                dg = digits([f for a in ax for f in a])
                key = ("V", fz_(o), dg, tuple(tuple((fz_(d), fz_(st)) for d, st in a) for a in ax))
                size = []
                for a in ax:
                    n = {(): 1}
                    for d, _ in a:
                        n = ipmul(n, d)
                    size.append(n)
                shp = tuple(size)
                self.seen[(key[1], key[2])] = key
                out = madd(out, single(key), s)
            return ("m", out, shp)
        if all(len(ax) == 1 for _, _, ax in y):
            return ("vec", y)
        return None

    def ev1(self, t):
        if t[0] == "a" and t[2] == "T":
            v = self.ev(t[1])
            if v[0] == "m":
                return ("m", mt(v[1]), v[2][::-1])
            if v[0] == "s" or v[0] == "vec":
                return v
            raise Unknown("transpose")
        if t[0] == "p" and t in self.mats:
            return ("m", single(t), self.mats[t])
        if t[0] in ("lp", "m", "i", "op", "call"):
            v = self.read(t)
            if v is not None:
                return v
        if t[0] == "c":
            q = frac(t[1])
            if q is None:
                raise Unknown(f"constant {t[1]}")
            return ("s", {(): q} if q else {})
        if t[0] == "neg" or t[0] == "op" and len(t) == 3 and t[1] in ("neg", "-", "usub", "u-"):
            return self.lin(self.ev(t[1] if t[0] == "neg" else t[2]), {(): Fraction(-1)})
        if t[0] == "op" and len(t) == 4:
            return self.binary(t[1], t[2], t[3])
        if t[0] == "call" and t[1][0] == "g":
            return self.call(t[1][1], t[2], dict(t[3]), t)
        if t[0] == "m":
            return self.meth(t[1], t[2], t[3], dict(t[4]), t)
        if t[0] == "i":
            v = self.ev(t[1])
            if v[0] == "blk":
                raise Unknown("part of an assembled array")
            raise Unknown("subscript")
        if t[0] in ("p", "lv", "lvc", "el", "a", "nv", "lout"):
            return ("s", atom(t))
        raise Unknown(f"{t[0]}")

    def lin(self, v, p):
        """a number times a value"""
        if v[0] == "s":
            return ("s", pmul(p, v[1]))
        if v[0] == "m":
            return ("m", scale(p, v[1]), v[2])
        if v[0] == "blk":
            return ("blk", v[1], [(o, ax, scale(p, n), sh) for o, ax, n, sh in v[2]])
        if v[0] == "ones":
            return ("ones", pmul(p, v[1]), v[2])
        if v[0] == "vec" and set(p) <= {()} and p.get((), 0) in (1, -1):
            return ("vec", [(s * int(p[()]), o, ax) for s, o, ax in v[1]])
        raise Unknown(f"multiple of {v[0]}")

    def binary(self, op, x, y):
        a, b = self.ev(x), self.ev(y)
        if op in ("+", "-"):
            s = 1 if op == "+" else -1
            if a[0] == "s" and b[0] == "s":
                return ("s", padd(a[1], b[1], s))
            if a[0] == "m" and b[0] == "m":
                if a[2] != b[2]:
                    raise Unknown("shapes differ")
                return ("m", madd(a[1], b[1], s), a[2])
            if b[0] == "blk" and a[0] in ("ones", "s"):
                return self.fill(self.lin(b, {(): Fraction(s)}), a[1])
            if a[0] == "blk" and b[0] in ("ones", "s"):
                return self.fill(a, pmul({(): Fraction(s)}, b[1]))
            if a[0] == "m" and b[0] in ("s", "ones"):
                return ("m", madd(a[1], scale(b[1], single(J)), s), a[2])
            if b[0] == "m" and a[0] in ("s", "ones"):
                return ("m", madd(scale(a[1], single(J)), b[1], s), b[2])
            if a[0] == "blk" and b[0] == "blk" and len(a[2]) == len(b[2]):
                out = []
                for o, ax, n, sh in a[2]:
                    hit = [z for z in b[2] if (z[0], z[1], z[3]) == (o, ax, sh)]
                    if len(hit) != 1:
                        raise Unknown("sum of arrays")
                    out.append((o, ax, madd(n, hit[0][2], s), sh))
                return ("blk", a[1], out)
            raise Unknown(f"{a[0]} {op} {b[0]}")
        if op == "*":
            if a[0] == "s":
                return self.lin(b, a[1])
            if b[0] == "s":
                return self.lin(a, b[1])
            if a[0] == "m" and b[0] == "m":
                if a[2] != b[2]:
                    raise Unknown("shapes differ")
                return ("m", had(a[1], b[1]), a[2])
            raise Unknown(f"{a[0]} * {b[0]}")
        if op == "/":
            if b[0] == "s":
                return self.lin(a, unsum(inv(b[1]))) if a[0] != "s" else ("s", unsum(pmul(a[1], inv(b[1]))))
            raise Unknown("quotient")
        if op == "**":
            if b[0] == "s" and set(b[1]) == {()} and b[1][()].denominator == 1 and 1 <= b[1][()] <= 4:
                k = int(b[1][()])
                if a[0] == "s":
                    return ("s", power(a[1], k))
                if a[0] == "m":
                    out = a[1]
                    for _ in range(k - 1):
                        out = had(out, a[1])
                    return ("m", out, a[2])
            raise Unknown("power")
        if op == "@":
            return self.dot(a, b)
        raise Unknown(f"operator {op}")

    def dot(self, a, b):
        if a[0] == "m" and b[0] == "m":
            if a[2][1] != b[2][0]:
                raise Unknown(f"shapes of a product")
            return ("m", mmul(a[1], b[1]), (a[2][0], b[2][1]))
        if a[0] == "s" or b[0] == "s":
            return self.lin(b if a[0] == "s" else a, a[1] if a[0] == "s" else b[1])
        raise Unknown("product")

    def fill(self, blk, p):
        if not p:
            return blk
        return ("blk", blk[1], [(o, ax, madd(n, scale(p, single(J))), sh) for o, ax, n, sh in blk[2]])

    # -- arrays in memory
    def blk(self, v):
        if v[0] == "blk":
            return v
        if v[0] == "m":
            r, c = v[2]
            return ("blk", [r, c], [({}, digits([(r, c), (c, {(): 1})]), v[1], v[2])])
        raise Unknown(f"layout of {v[0]}")

    def size(self, shp):
        n = {(): 1}
        for d in shp:
            n = ipmul(n, d)
        return n

    def reshape(self, v, shp):
        v = self.blk(v)
        n = self.size(v[1])
        if shp == [None]:
            return ("blk", [n], v[2])
        if None in shp:
            from rules.learners import pdiv
            known = self.size([d for d in shp if d is not None])
            m = pdiv(n, known)
            if m is None:
                raise Unknown("reshape")
            shp = [m if d is None else d for d in shp]
        if self.size(shp) != n:
            raise Unknown("reshape to another size")
        if len(shp) == 2 and len(v[2]) == 1 and v[2][0][3] == tuple(shp) and v[2][0][1] == digits([(n, {(): 1})]):
            return ("m", v[2][0][2], tuple(shp))
        return ("blk", list(shp), v[2])

    def join(self, vs, axis):
        vs = [self.blk(v) for v in vs]
        nd = len(vs[0][1])
        if any(len(v[1]) != nd for v in vs):
            raise Unknown("joined arrays of different dimensions")
        if axis < 0:
            axis += nd
        if axis == 0:
            off, out = {}, []
            for v in vs:
                if v[1][1:] != vs[0][1][1:]:
                    raise Unknown("joined arrays of different widths")
                out += [(ipadd(o, off), ax, n, sh) for o, ax, n, sh in v[2]]
                off = ipadd(off, self.size(v[1]))
            first = {}
            for v in vs:
                first = ipadd(first, v[1][0])
            return ("blk", [first] + vs[0][1][1:], out)
        if axis == 1 and nd == 2:
            rows = vs[0][1][0]
            width = {}
            for v in vs:
                if v[1][0] != rows:
                    raise Unknown("joined arrays of different heights")
                width = ipadd(width, v[1][1])
            off, out = {}, []
            for v in vs:
                if len(v[2]) != 1 or v[2][0][0] or v[2][0][1] != digits([(self.size(v[1]), {(): 1})]):
                    raise Unknown("joined parts")
                out.append((off, digits([(rows, width), (v[1][1], {(): 1})]), v[2][0][2], v[2][0][3]))
                off = ipadd(off, v[1][1])
            return ("blk", [rows, width], out)
        raise Unknown("axis")

    def shape_of(self, a):
        """the sizes given to reshape or zeros"""
        if len(a) == 1 and a[0][0] == "seq" and all(e[1] == () and e[2][0] == "x" for e in a[0][2]):
            a = [e[2][1] for e in a[0][2]]
        elif len(a) == 1 and a[0][0] == "tuple":
            a = list(a[0][1])
        return [None if x == const(-1) else self.ipoly(x) for x in a]

    def items(self, t):
        if t[0] == "tuple":
            return list(t[1])
        if t[0] == "seq" and all(e[1] == () and e[2][0] == "x" for e in t[2]):
            return [e[2][1] for e in t[2]]
        raise Unknown("list of arrays")

    def axis(self, kw, a, i, default):
        k = kw.get("axis", a[i] if len(a) > i else const(default))
        if k[0] != "c" or not isinstance(k[1], int):
            raise Unknown("axis")
        return k[1]

    def call(self, q, a, kw, t):
        n = q.split(".")[-1]
        if q.startswith("numpy.") or q.startswith("scipy."):
            if n == "trace" and len(a) == 1 and not kw:
                v = self.m(a[0])
                return ("s", trace(v[1]))
            if q == "scipy.linalg.expm" and len(a) == 1:
                v = self.m(a[0])
                return ("m", single(("expm", fz(v[1]))), v[2])
            if n == "norm" and 1 <= len(a) <= 2:
                o = kw.get("ord", a[1] if len(a) > 1 else NONE)
                v = self.ev(a[0])
                if v[0] == "m" and o in (NONE, const("fro")):
                    return ("s", atom(("sqrt", fz(fro2(v[1])))))
                if v[0] == "m" and o[0] == "c" and len(a) + len(kw) == 2:
                    return ("s", atom(("norm", o, fz(v[1]))))
                raise Unknown("norm")
            if n in ("abs", "absolute", "fabs") and len(a) == 1:
                v = self.m(a[0])
                return ("m", single(("abs", fz(v[1]))), v[2])
            if n in ("square",) and len(a) == 1:
                return self.binary("**", a[0], const(2))
            if n in ("power", "float_power") and len(a) == 2:
                return self.binary("**", a[0], a[1])
            if n == "multiply" and len(a) == 2:
                return self.binary("*", a[0], a[1])
            if n in ("dot", "matmul") and len(a) == 2:
                return self.dot(self.ev(a[0]), self.ev(a[1]))
            if n in ("add", "subtract") and len(a) == 2:
                return self.binary("+" if n == "add" else "-", a[0], a[1])
            if n == "negative" and len(a) == 1:
                return self.lin(self.ev(a[0]), {(): Fraction(-1)})
            if n == "transpose" and len(a) == 1:
                return self.ev(("a", a[0], "T"))
            if n in ("eye", "identity") and a and not kw:
                d = self.ipoly(a[0])
                if len(a) > 1 and a[1] != NONE and self.ipoly(a[1]) != d:
                    raise Unknown("eye")
                return ("m", {((), ()): Fraction(1)}, (d, d))
            if n in ("sum",) and len(a) == 1 and not kw:
                return self.sum(self.ev(a[0]))
            if n in ("ones", "zeros", "empty") and len(a) == 1:
                shp = self.shape_of(a)
                p = {(): Fraction(1)} if n == "ones" else {}
                if len(shp) == 2:
                    return ("m", scale(p, single(J)), tuple(shp))
                return ("ones", p, shp)
            if n in ("zeros_like", "empty_like", "ones_like") and len(a) == 1:
                return ("ones", {(): Fraction(1)} if n == "ones_like" else {}, None)
            if n == "full" and len(a) == 2:
                return ("ones", self.s(a[1]), self.shape_of(a[:1]))
            if n in ("append",) and len(a) >= 2:
                if "axis" not in kw and len(a) == 2:
                    return self.join([self.reshape(self.ev(x), [None]) for x in a], 0)
                return self.join([self.ev(x) for x in a[:2]], self.axis(kw, a, 2, 0))
            if n in ("concatenate",):
                xs = [self.ev(x) for x in self.items(a[0])]
                if kw.get("axis", a[1] if len(a) > 1 else None) == NONE:
                    return self.join([self.reshape(x, [None]) for x in xs], 0)
                return self.join(xs, self.axis(kw, a, 1, 0))
            if n in ("hstack", "vstack", "r_"):
                xs = [self.ev(x) for x in self.items(a[0])]
                one = all(x[0] == "blk" and len(x[1]) == 1 for x in xs)
                return self.join(xs, 0 if n == "vstack" or one else 1)
            if n == "reshape" and len(a) == 2:
                return self.reshape(self.ev(a[0]), self.shape_of(a[1:]))
            if n in ("ravel",) and len(a) == 1:
                return self.reshape(self.ev(a[0]), [None])
            if n in ("array", "asarray", "copy") and len(a) == 1:
                return self.ev(a[0])
        if q in ("builtins.float",) and len(a) == 1:
            return self.ev(a[0])
        if q in ("builtins.sum",) and len(a) == 1:
            v = self.ev(a[0])
            if v[0] == "vec":
                return self.sum(v)
        raise Unknown(q)

    def meth(self, o, n, a, kw, t):
        if n == "dot" and len(a) == 1:
            return self.dot(self.ev(o), self.ev(a[0]))
        if n == "sum" and not a and not kw:
            return self.sum(self.ev(o))
        if n in ("flatten", "ravel") and not a and not kw:
            return self.reshape(self.ev(o), [None])
        if n == "reshape" and not kw:
            return self.reshape(self.ev(o), self.shape_of(list(a)))
        if n == "trace" and not a:
            return ("s", trace(self.m(o)[1]))
        if n == "transpose" and not a:
            return self.ev(("a", o, "T"))
        if n in ("copy",):
            return self.ev(o)
        if n == "item" and not a:
            return self.ev(o)
        raise Unknown(f".{n}")

    def sum(self, v):
        if v[0] == "m":
            return ("s", total(v[1]))
        if v[0] == "vec":
            out = {}
            for s, o, ax in v[1]:
                out = padd(out, {((("range", fz_(o), digits(ax[0])), 1),): Fraction(s)})
            return ("s", out)
        raise Unknown("sum")

    # -- sums over ranges as sums over the matrices stored there
    def settle(self, p):
        def inside(rng):
            off, dg = dict(rng[1]), rng[2]
            if len(dg) != 1 or dict(dg[0][1]) != {(): 1}:
                key = (rng[1], rng[2])
                return [key] if key in self.seen else None
            n = dict(dg[0][0])
            got, size = [], {}
            for (o, d), _ in self.seen.items():
                ext = {(): 1}
                cnt = {(): 1}
                for c, s in d:
                    ext = ipadd(ext, ipmul(ipadd(dict(c), {(): 1}, -1), dict(s)))
                    cnt = ipmul(cnt, dict(c))
                lo = nonneg(ipadd(dict(o), off, -1))
                hi = nonneg(ipadd(ipadd(off, n), ipadd(dict(o), ext), -1))
                if lo and hi:
                    got.append((o, d))
                    size = ipadd(size, cnt)
            return got if size == n else None
        out = {}
        for m, c in p.items():
            q = {(): c}
            for x, e in m:
                if x[0] == "range" and e == 1:
                    ins = inside(x)
                    if ins is None:
                        raise Unknown("sum over a part of the vector that holds no whole matrix")
                    y = {}
                    for k in ins:
                        y = padd(y, atom(("vs", k)))
                    q = pmul(q, y)
                else:
                    q = pmul(q, {((x, e),): Fraction(1)})
            out = padd(out, q)
        return out


def nonneg(p):
    """a polynomial in sizes (each at least 1) that is never negative"""
    syms = {x for m in p for x in m}
    # substitute x = 1 + y
    out = {}
    for m, c in p.items():
        q = {(): c}
        for x in m:
            q = ipadd(q, {k + (x,): v for k, v in q.items()})
            q = {tuple(sorted(k, key=repr)): v for k, v in q.items()}
        out = ipadd(out, q)
    del syms
    return all(c >= 0 for c in out.values())


# ------------------------------------------------------------------ derivatives
def grad(p, mem):
    """the derivative of a scalar with respect to the matrix stored at `mem`, as a matrix"""
    out = {}
    for m, c in p.items():
        for i, (x, e) in enumerate(m):
            d = datom(x, mem)
            if d is None or not d:
                continue
            rest = {m[:i] + m[i + 1:]: c}
            if e != 1:
                rest = pmul(rest, {((x, e - 1),): Fraction(e)})
            out = madd(out, scale(rest, d))
    return out


def datom(x, mem):
    if x[0] == "vs":
        return single(J) if x[1] == mem else {}
    if x[0] == "tr":
        out = {}
        w = x[1]
        for i, f in enumerate(w):
            if not has(f[0], mem):
                continue
            g = {((), tuple(factor(*z) for z in w[i + 1:] + w[:i])): Fraction(1)}
            # d tr(A F B) = <(B A)^T, dF>
            g = g if f[1] else mt(g)
            out = madd(out, dfactor(f[0], g, mem))
        return out
    if has(x, mem):
        raise Unknown(f"derivative of {x[0]}")
    return {}


def has(a, mem):
    if a[0] == "V":
        return memory(a) == mem
    if isinstance(a, tuple):
        return any(has(y, mem) for y in a if isinstance(y, tuple) and y)
    return False


def dfactor(a, g, mem):
    """<g, d a> as <result, d V>"""
    if a[0] == "V":
        return g
    if a[0] == "had":
        out = {}
        for i, w in enumerate(a[1]):
            if not has(w, mem):
                continue
            h = g
            for j, v in enumerate(a[1]):
                if j != i:
                    h = had(h, {((), v): Fraction(1)})
            out = madd(out, dword(w, h, mem))
        return out
    if a[0] == "expm":
        # only below a trace: the rest of the word is the identity
        if set(g) != {((), ())}:
            raise Unknown("derivative of a product with expm")
        e = scale({(): g[((), ())]}, mt(single(a)))
        out = {}
        for (m, w), c in dict(a[1]).items():
            if any(has(y, mem) for y, _ in m):
                raise Unknown("derivative of a coefficient")
            out = madd(out, dword(w, scale({m: c}, e), mem))
        return out
    raise Unknown(f"derivative of {a[0]}")


def dword(w, g, mem):
    out = {}
    for i, f in enumerate(w):
        if not has(f[0], mem):
            continue
        left = {((), tuple(factor(*z) for z in wt(w[:i]))): Fraction(1)}
        right = {((), tuple(factor(*z) for z in wt(w[i + 1:]))): Fraction(1)}
        h = mmul(mmul(left, g), right)
        if f[1]:
            h = mt(h)
        out = madd(out, dfactor(f[0], h, mem))
    return out


def show_s(p):
    if not p:
        return "0"
    return " + ".join(("" if c == 1 else f"{c}·") + "·".join(show_a(x) + (f"^{e}" if e != 1 else "") for x, e in m) if m else str(c)
                      for m, c in sorted(p.items(), key=repr))


def show_a(x):
    if x[0] == "tr":
        return "tr(" + show_w(x[1]) + ")"
    if x[0] == "vs":
        return "sum(x[" + show_p(dict(x[1][0])) + "..])"
    if x[0] == "sqrt":
        return "sqrt(" + show_s(dict(x[1])) + ")"
    if x[0] in ("p",):
        return x[1]
    if x[0] in ("lv", "lvc"):
        return str(x[2])
    if x[0] == "range":
        return "sum(x[" + show_p(dict(x[1])) + "..])"
    return x[0]


def show_p(p):
    return "+".join((str(c) if c != 1 or not m else "") + "".join(str(s[1]) for s in m) for m, c in sorted(p.items(), key=repr)) or "0"


def show_w(w):
    def one(f):
        a, t = f
        if a[0] == "V":
            s = "x[" + show_p(dict(a[1])) + "]"
        elif a[0] == "had":
            s = "(" + "∘".join(show_w(v) for v in a[1]) + ")"
        elif a[0] == "expm":
            s = "e^(" + show_m(dict(a[1])) + ")"
        elif a[0] == "J":
            s = "1"
        else:
            s = str(a[1]) if len(a) > 1 else str(a[0])
        return s + ("ᵀ" if t else "")
    return "·".join(one(f) for f in w) or "I"


def show_m(a):
    if not a:
        return "0"
    return " + ".join(show_s({m: c}) + "·" + show_w(w) if (m, c) != ((), 1) else show_w(w) for (m, w), c in sorted(a.items(), key=repr))
