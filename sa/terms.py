"""Terms and formulas.

A term is a nested tuple whose head is a tag.  Boolean formulas are terms too
('and'/'or'/'not' over atoms).  Everything is immutable and hashable.
"""
import itertools
import os

DEPTH = int(os.environ.get("SHOW_DEPTH", "12"))

T = ("c", True, "bool")
F = ("c", False, "bool")
NONE = ("c", None, "NoneType")


def const(v):
    return ("c", v, type(v).__name__)


def is_const(t):
    return t[0] == "c"


# ---------------------------------------------------------------- traversal
def children(t):
    for x in t[1:]:
        if isinstance(x, tuple):
            yield x


def walk(t):
    """all sub-tuples that look like terms (string tag first) including t"""
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple):
            continue
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


_TABLE = {}
_CANON = {}


def mk(x):
    """the one object for a tuple whose parts are such objects already"""
    key = tuple([(id(c),) if isinstance(c, tuple) else (c.__class__, c if c.__hash__ else id(c)) for c in x])
    y = _TABLE.get(key)
    if y is None:
        if len(_CANON) > 3000000:
            _TABLE.clear()
            _CANON.clear()
        _TABLE[key] = y = x
        _CANON[id(x)] = x
    return y


def share(t):
    """equal subterms become one object"""
    if not isinstance(t, tuple) or _CANON.get(id(t)) is t:
        return t
    return mk(tuple([share(c) if isinstance(c, tuple) else c for c in t]))


def subst(t, f):
    """bottom-up rewrite: f(term) -> term or None; rebuilds formulas through the smart constructors"""
    memo = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        m = memo.get(id(x))
        if m is not None:
            return m[1]
        y = f(x) if x and isinstance(x[0], str) else None
        if y is None:
            z = [go(c) if isinstance(c, tuple) else c for c in x]
            for c, d in zip(x, z):
                if c is not d:
                    y = rebuild(tuple(z))
                    if isinstance(y, tuple):
                        y = share(y)
                    break
            else:
                y = x
        else:
            y = share(y)
        memo[id(x)] = (x, y)
        return y

    return go(share(t))


def rebuild(t):
    if not t or not isinstance(t[0], str):
        return t
    if t[0] == "and":
        return mk_and(*t[1:])
    if t[0] == "or":
        return mk_or(*t[1:])
    if t[0] == "not" and len(t) == 2:
        return mk_not(t[1])
    if t[0] == "ite" and len(t) == 4:
        return mk_ite(*t[1:])
    return t


# ---------------------------------------------------------------- formulas
def mk_not(f):
    if f == T:
        return F
    if f == F:
        return T
    if f[0] == "not":
        return f[1]
    if f[0] == "and":
        return mk_or(*[mk_not(x) for x in f[1:]])
    if f[0] == "or":
        return mk_and(*[mk_not(x) for x in f[1:]])
    return ("not", f)


def _flat(tag, fs):
    out = []
    for f in fs:
        if f[0] == tag:
            out.extend(f[1:])
        else:
            out.append(f)
    res = []
    for f in out:
        if f not in res:
            res.append(f)
    return res


def mk_and(*fs):
    fs = [f for f in _flat("and", fs) if f != T]
    if any(f == F for f in fs):
        return F
    s = set(fs)
    if any(mk_not(f) in s for f in fs):
        return F
    # absorption a & (a | b) -> a ; a & (!a | b) -> a & b
    changed = True
    while changed:
        changed = False
        for i, f in enumerate(fs):
            if f[0] == "or":
                others = set(fs[:i] + fs[i + 1:])
                if any(x in others for x in f[1:]):
                    fs = fs[:i] + fs[i + 1:]
                    changed = True
                    break
                keep = [x for x in f[1:] if mk_not(x) not in others]
                if len(keep) != len(f) - 1:
                    fs = _flat("and", fs[:i] + [mk_or(*keep)] + fs[i + 1:])
                    fs = [x for x in fs if x != T]
                    if any(x == F for x in fs):
                        return F
                    changed = True
                    break
    if not fs:
        return T
    if len(fs) == 1:
        return fs[0]
    return ("and",) + tuple(fs)


def mk_or(*fs):
    fs = [f for f in _flat("or", fs) if f != F]
    if any(f == T for f in fs):
        return T
    s = set(fs)
    if any(mk_not(f) in s for f in fs):
        return T
    # (a & b) | (a & !b) -> a ; a | (a & b) -> a ; a | (!a & b) -> a | b
    changed = True
    while changed:
        changed = False
        for i, f in enumerate(fs):
            if f[0] == "and":
                others = set(fs[:i] + fs[i + 1:])
                if any(x in others for x in f[1:]):
                    fs = fs[:i] + fs[i + 1:]
                    changed = True
                    break
                keep = [x for x in f[1:] if mk_not(x) not in others]
                if len(keep) != len(f) - 1:
                    fs = _flat("or", fs[:i] + [mk_and(*keep)] + fs[i + 1:])
                    if any(x == T for x in fs):
                        return T
                    fs = [x for x in fs if x != F]
                    changed = True
                    break
        if changed:
            continue
        for i, j in itertools.combinations(range(len(fs)), 2):
            a, b = fs[i], fs[j]
            A = set(a[1:]) if a[0] == "and" else {a}
            B = set(b[1:]) if b[0] == "and" else {b}
            da, db = A - B, B - A
            if len(da) == 1 and len(db) == 1 and mk_not(next(iter(da))) == next(iter(db)):
                rest = [x for k, x in enumerate(fs) if k not in (i, j)]
                common = [x for x in (a[1:] if a[0] == "and" else (a,)) if x in B]
                fs = _flat("or", rest + [mk_and(*common)])
                if any(x == T for x in fs):
                    return T
                changed = True
                break
    if not fs:
        return F
    if len(fs) == 1:
        return fs[0]
    return ("or",) + tuple(fs)


def mk_ite(c, a, b):
    if c == T:
        return a
    if c == F:
        return b
    if a == b:
        return a
    if c[0] == "not":
        c, a, b = c[1], b, a
    if is_bool(a) and is_bool(b):
        return mk_or(mk_and(c, a), mk_and(mk_not(c), b))
    # x[k] if k in x else d  ->  get(x, k, d)
    if c[0] == "in" and a[0] == "i" and a[1] == c[2] and a[2] == c[1]:
        return ("get", a[1], a[2], b)
    a2, b2 = restrict(a, c, True), restrict(b, c, False)
    if a2 == b2:
        return a2
    # nested choices between the same two values
    if a2[0] == "ite" and b2 in a2[2:]:
        d, x, y = a2[1:]
        return mk_ite(mk_and(c, d), x, b2) if y == b2 else mk_ite(mk_and(c, mk_not(d)), y, b2)
    if b2[0] == "ite" and a2 in b2[2:]:
        d, x, y = b2[1:]
        return mk_ite(mk_and(mk_not(c), d), x, a2) if y == a2 else mk_ite(mk_and(mk_not(c), mk_not(d)), y, a2)
    if c[0] == "or" and all(x[0] == "not" for x in c[1:]):
        return mk_ite(mk_not(c), b2, a2)
    return ("ite", c, a2, b2)


def restrict(t, c, val):
    """simplify t knowing formula c is val (top-level ite/conjunct structure only)"""
    if t[0] == "ite":
        if t[1] == c:
            return t[2] if val else t[3]
        cc = assume(t[1], c if val else mk_not(c))
        if cc != t[1]:
            return mk_ite(cc, restrict(t[2], c, val), restrict(t[3], c, val))
    return t


def conjuncts(f):
    return list(f[1:]) if f[0] == "and" else ([] if f == T else [f])


def disjuncts(f):
    return list(f[1:]) if f[0] == "or" else ([] if f == F else [f])


def assume(f, g):
    """simplify f under the assumption g"""
    facts = set(conjuncts(g))
    if not facts:
        return f

    def go(x):
        if x in facts:
            return T
        if mk_not(x) in facts:
            return F
        if x[0] == "and":
            return mk_and(*[go(y) for y in x[1:]])
        if x[0] == "or":
            return mk_or(*[go(y) for y in x[1:]])
        if x[0] == "not":
            return mk_not(go(x[1]))
        return x

    return go(f)


BOOL_TAGS = {"and", "or", "not", "==", "is", "in", "<", "isinstance", "ex", "subset", "hasattr", "truthy",
             "startswith"}


def is_bool(t):
    return t in (T, F) or t[0] in BOOL_TAGS


def atoms(f, acc=None):
    acc = [] if acc is None else acc
    if f in (T, F):
        return acc
    if f[0] in ("and", "or", "not"):
        for x in f[1:]:
            atoms(x, acc)
    elif f not in acc:
        acc.append(f)
    return acc


def evalf(f, env):
    if f == T:
        return True
    if f == F:
        return False
    if f[0] == "and":
        return all(evalf(x, env) for x in f[1:])
    if f[0] == "or":
        return any(evalf(x, env) for x in f[1:])
    if f[0] == "not":
        return not evalf(f[1], env)
    return env[f]


def theory_ok(env):
    """cheap consistency of an assignment: x==c1 and x==c2 not both, get(x,k,d) etc."""
    eqs = {}
    for a, v in env.items():
        if a[0] == "==" and v:
            x, y = a[1], a[2]
            for p, q in ((x, y), (y, x)):
                if is_const(q):
                    if p in eqs and eqs[p] != q:
                        return False
                    eqs[p] = q
        if a[0] == "is" and v and NONE in a[1:]:
            p = a[1] if a[2] == NONE else a[2]
            if env.get(p) is True:
                return False
            if any(b[0] == "isinstance" and b[1] == p and w for b, w in env.items()):
                return False
            for b, w in env.items():
                if b[0] == "in" and b[2] == p and w:
                    return False
        if a[0] == "in" and v:
            # membership in something falsy (empty) is impossible
            if env.get(a[2]) is False:
                return False
    return order_ok(env)


def number(t):
    return t[1] if t[0] == "c" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool) else None


def order_ok(env):
    """comparisons with numbers agree with one another; a < b excludes b < a and a == b"""
    span = {}
    for a, v in env.items():
        if len(a) != 3 or a[0] not in ("<", "==") or not isinstance(a[1], tuple) or not isinstance(a[2], tuple):
            continue
        x, y = a[1], a[2]
        if a[0] == "<" and v and (env.get(("<", y, x)) or env.get(("==", x, y)) or env.get(("==", y, x))):
            return False
        m, n = number(x), number(y)
        if (m is None) == (n is None):
            continue
        t, c = (y, m) if n is None else (x, n)
        lo, los, hi, his = span.get(t, (float("-inf"), False, float("inf"), False))
        if a[0] == "==":
            if not v:
                continue
            new = [(c, False, True), (c, False, False)]
        elif n is None:
            # c < t, or t <= c
            new = [(c, True, True)] if v else [(c, False, False)]
        else:
            new = [(c, True, False)] if v else [(c, False, True)]
        for k, strict, lower in new:
            if lower and (k > lo or k == lo and strict):
                lo, los = k, strict
            if not lower and (k < hi or k == hi and strict):
                hi, his = k, strict
        if lo > hi or lo == hi and (los or his):
            return False
        span[t] = (lo, los, hi, his)
    return True


MAX_ATOMS = 40
MAX_NODES = 20000


def eval3(f, env):
    """three-valued evaluation under a partial assignment"""
    if f == T:
        return True
    if f == F:
        return False
    if f[0] == "not":
        v = eval3(f[1], env)
        return None if v is None else not v
    if f[0] in ("and", "or"):
        stop = f[0] == "or"
        unknown = False
        for x in f[1:]:
            v = eval3(x, env)
            if v is None:
                unknown = True
            elif v == stop:
                return stop
        return None if unknown else not stop
    return env.get(f)


def implies(f, g):
    """f => g by case splitting over the atoms; None when there are too many"""
    if f == g or g == T or f == F:
        return True
    ats = atoms(f)
    atoms(g, ats)
    if len(ats) > MAX_ATOMS:
        return None
    n = [0]

    def go(i, env):
        """True when no consistent extension of env makes f true and g false"""
        n[0] += 1
        if n[0] > MAX_NODES:
            raise OverflowError
        a = eval3(f, env)
        if a is False:
            return True
        b = eval3(g, env)
        if b is True:
            return True
        if env and not theory_ok(env):
            return True
        if a is True and b is False:
            return complete(i, env)
        x = ats[i]
        for v in (True, False):
            env[x] = v
            if not go(i + 1, env):
                return False
            del env[x]
        return True

    def complete(i, env):
        # the remaining atoms do not matter; the partial assignment is consistent
        return False

    try:
        return go(0, {})
    except OverflowError:
        return None


def equivalent(f, g):
    a, b = implies(f, g), implies(g, f)
    if a is None or b is None:
        return None
    return a and b


def satisfiable(f):
    r = implies(f, F)
    return None if r is None else not r


# ---------------------------------------------------------------- alpha-canonical form of binders
def canon_ctx_term(tag, ctx, body):
    """build (tag, ctx, body) with loop ids in ctx renamed to canonical heights"""
    h = 0
    for part in (ctx, body):
        for x in walk(("_",) + (part if isinstance(part, tuple) else (part,))):
            if x[0] in ("el", "idx") and isinstance(x[1], tuple) and x[1][0] == "h":
                h = max(h, x[1][1] + 1)
    ren = {}
    for e in reversed(ctx):
        if e[0] == "for" and not isinstance(e[1], tuple):
            ren[e[1]] = ("h", h)
            h += 1

    def f(x):
        if x[0] in ("el", "idx") and x[1] in ren:
            return (x[0], ren[x[1]]) + x[2:]
        if x[0] == "for" and x[1] in ren:
            return ("for", ren[x[1]]) + tuple(subst(y, f) if isinstance(y, tuple) else y for y in x[2:])
        return None

    return (tag, subst(("_c",) + tuple(ctx), f)[1:], subst(body, f) if isinstance(body, tuple) else body)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return "()"
    if depth > DEPTH:
        return "…"
    s = lambda x: show(x, depth + 1)
    k = t[0]
    if not isinstance(k, str):
        return "(" + ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t) + ")"
    if k == "c":
        return repr(t[1])
    if k == "p" and len(t) == 2 and isinstance(t[1], str):
        return t[1]
    if k == "g":
        return t[1].replace("builtins.", "")
    if k == "a":
        return f"{s(t[1])}.{t[2]}" + (f"@{t[3]}" if len(t) > 3 and t[3] else "")
    if k == "i":
        return f"{s(t[1])}[{s(t[2])}]"
    if k == "el":
        return f"e{t[1] if not isinstance(t[1], tuple) else '_%s' % (t[1][1],)}"
    if k == "idx":
        return f"ix{t[1] if not isinstance(t[1], tuple) else '_%s' % (t[1][1],)}"
    if k == "call":
        return f"{s(t[1])}({', '.join([s(x) for x in t[2]] + [f'{n}={s(v)}' for n, v in t[3]])})"
    if k == "m":
        return f"{s(t[1])}.{t[2]}({', '.join([s(x) for x in t[3]] + [f'{n}={s(v)}' for n, v in t[4]])})"
    if k in ("and", "or"):
        return "(" + f" {k} ".join(s(x) for x in t[1:]) + ")"
    if k == "not":
        return f"!{s(t[1])}"
    if k in ("==", "<", "in", "is", "subset"):
        return f"({s(t[1])} {k} {s(t[2])})"
    if k == "ite":
        return f"({s(t[2])} if {s(t[1])} else {s(t[3])})"
    if k == "op":
        return f"{t[1]}({', '.join(s(x) for x in t[2:])})"
    if k == "for":
        return f"for {s(('el', t[1]))} in {s(t[2])}" + (f" until {s(t[3])}" if len(t) > 3 and t[3] is not None else "")
    if k == "if":
        return f"if {s(t[1])}"
    if k == "ex":
        return "∃[" + " ".join(s(x) for x in t[1]) + "]"
    if k == "seq":
        return f"{t[1]}<" + "; ".join(s(x) for x in t[2]) + ">"
    if k == "em":
        return (" ".join(s(x) for x in t[1]) + ": " if t[1] else "") + s(t[2])
    if k == "x":
        return s(t[1])
    if k == "kv":
        return f"{s(t[1])}->{s(t[2])}"
    if k == "acc":
        return f"{s(t[2])} {t[1]}= {s(t[3])}"
    if k == "kv2":
        return f"{s(t[1])}->{s(t[2])}->{s(t[3])}"
    if k == "app":
        return f"{s(t[1])} append {s(t[2])}"
    if k == "tuple":
        return "(" + ", ".join(s(x) for x in t[1]) + ")"
    return k + "(" + ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"
