"""Obligations, reports and term queries shared by the rules."""
import os

from .interp import Interp
from .project import AnalysisError
from .terms import (F, NONE, T, conjuncts, const, contains, equivalent, implies, is_const, mk_and, mk_not, mk_or, share, show, subst,
                    walk)

G = lambda n: ("g", n)
LEN = G("builtins.len")
P = lambda n: ("p", n)
SELF = P("self")
SHOWN = int(os.environ.get("SHOW_LEN", "220"))


def A(o, *names):
    for n in names:
        o = ("a", o, n)
    return o


def length(x):
    return ("call", LEN, (x,), ())


# ------------------------------------------------------------------ normal form used by the rules
def norm(t):
    """forget versions of attribute and element reads, and argument-free copies"""
    def f(x):
        if x[0] == "a" and len(x) == 4:
            return ("a", norm(x[1]), x[2])
        if x[0] == "i" and len(x) == 4:
            return ("i", norm(x[1]), norm(x[2]))
        if x[0] == "m" and len(x) == 6:
            return ("m", norm(x[1]), x[2], norm(x[3]), norm(x[4]))
        return None
    return subst(t, f) if isinstance(t, tuple) else t


IMPRECISE = {"lout", "unk", "lv", "undef", "opaque", "exc", "missing", "cyc", "unb", "lamfn"}


def imprecise(t):
    return isinstance(t, tuple) and contains(t, lambda x: x[0] in IMPRECISE)


def source(c):
    """the collection that list()/set()/tuple()/sorted()/keys()/copy() was taken of"""
    while True:
        c0 = c
        if c[0] == "seq" and len(c[2]) == 1:
            ctx, it = c[2][0][1], c[2][0][2]
            if it[0] == "base" and not ctx:
                c = it[1]
            elif it[0] == "x" and len(ctx) == 1 and ctx[0][0] == "for" and it[1] == ("el", ctx[0][1]):
                c = ctx[0][2]
            elif it[0] == "kv" and len(ctx) == 1 and ctx[0][0] == "for" and it[1] == ("el", ctx[0][1]) and \
                    it[2] == ("i", ctx[0][2], it[1]):
                c = ctx[0][2]
        elif c[0] in ("sorted", "reversed", "dictof", "enumerate"):
            c = c[1]
        elif c[0] == "m" and c[2] in ("keys", "copy") and not c[3]:
            c = c[1]
        elif c[0] == "call" and c[1][0] == "g" and c[1][1] in (
                "builtins.list", "builtins.set", "builtins.tuple", "builtins.sorted", "copy.copy", "copy.deepcopy",
                "builtins.dict", "builtins.frozenset", "builtins.reversed", "builtins.iter") and len(c[2]) == 1:
            c = c[2][0]
        if c is c0:
            return c


def truncated(t):
    """part of a collection is left out: a slice with constant bounds, islice, or zip of a list with its own tail"""
    def f(x):
        if x[0] == "i" and len(x) >= 3 and x[2][0] == "slice" and x[1][0] not in ("lp",):
            b = [y for y in x[2][1:3] if y not in (None, NONE)]
            return bool(b) and all(is_const(y) for y in b)
        return x[0] == "call" and x[1][0] == "g" and x[1][1] == "itertools.islice"
    return isinstance(t, tuple) and contains(t, f)


def ems(t):
    """[(ctx, item)] of a container description, following plain copies"""
    if t is None:
        return []
    if t[0] == "seq":
        out = []
        for e in t[2]:
            if e[2][0] == "base" and not e[1]:
                out += ems(e[2][1])
            else:
                out.append((e[1], e[2]))
        return out
    if t[0] in ("sorted", "reversed", "dictof"):
        return ems(t[1])
    if t[0] == "call" and t[1][0] == "g" and t[1][1] in ("copy.copy", "copy.deepcopy", "builtins.dict",
                                                         "builtins.list") and len(t[2]) == 1:
        return ems(t[2][0])
    if t[0] == "m" and t[2] == "copy":
        return ems(t[1])
    return []


def conds(ctx):
    return mk_and(*[e[1] for e in ctx if e[0] == "if"])


def fors(ctx):
    return [e for e in ctx if e[0] == "for"]


def nctx(r, e):
    """context of an event in normal form; loops that can stop early carry the stopping condition"""
    out = []
    for x in e.ctx:
        if x[0] == "for" and len(x) == 3:
            stop = r.interp.loops.get(x[1], {}).get("stop")
            if stop is not None and stop != F:
                x = x + (stop,)
        out.append(norm(r.interp.snap(x, r.st)))
    return tuple(out)


def ncond(r, e):
    return conds(nctx(r, e))


def ncond_ok(r, e):
    """what must hold for the event besides that no exception was raised before it"""
    ok = []
    for x in r.raises():
        if x.pos < e.pos:
            ok.append(mk_not(_sortf(alpha(r.interp.mk_ex(nctx(r, x))))))
    g = mk_and(*ok)
    out = []
    for c in conjuncts(ncond(r, e)):
        a = _sortf(alpha(c))
        if a in ok or implies(g, a) is True:
            continue
        out.append(c)
    return mk_and(*out)


def events_on(r, kinds, pred=lambda e: True):
    return [e for e in r.events if e.kind in kinds and pred(e)]


# ------------------------------------------------------------------ matching
class V:
    def __init__(self, n, pred=None):
        self.n, self.pred = n, pred


ANY = V("_")
COMM = {"==", "is", "and", "or"}


def match(p, t, env=None):
    """first-order matching (no repeated backtracking across siblings except for == / is / commutative ops)"""
    for e in matches(p, t, env or {}):
        return e
    return None


def matches(p, t, env):
    if isinstance(p, V):
        if p.pred is not None and not p.pred(t):
            return
        if p.n == "_":
            yield env
        elif p.n in env:
            if env[p.n] == t:
                yield env
        else:
            e = dict(env)
            e[p.n] = t
            yield e
        return
    if not isinstance(p, tuple):
        if p == t and type(p) == type(t):
            yield env
        return
    if not isinstance(t, tuple) or len(p) != len(t):
        return
    if p and p[0] in ("==", "is") and t[0] == p[0]:
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            for e in matches(p[1], a, env):
                yield from matches(p[2], b, e)
        return
    if p and p[0] == "op" and len(p) == 4 and p[1] in ("+", "*") and t[0] == "op" and t[1] == p[1]:
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            for e in matches(p[2], a, env):
                yield from matches(p[3], b, e)
        return
    yield from _seq(p, t, 0, env)


def _seq(p, t, i, env):
    if i == len(p):
        yield env
        return
    for e in matches(p[i], t[i], env):
        yield from _seq(p, t, i + 1, e)


def find(p, t):
    """all (env) for subterms of t matching p"""
    out = []
    for x in walk(t):
        e = match(p, x)
        if e is not None:
            out.append((x, e))
    return out


# ------------------------------------------------------------------ report
LIBRARIES = {"np": "numpy", "pd": "pandas", "nx": "networkx", "torch": "torch", "nn": "torch.nn", "sopt": "scipy.optimize", "slin": "scipy.linalg", "re": "re", "io": "io",
             "copy": "copy", "deepcopy": "copy.deepcopy", "itertools": "itertools", "math": "math", "warnings": "warnings", "defaultdict": "collections.defaultdict",
             "reduce": "functools.reduce", "OrderedDict": "collections.OrderedDict", "permutations": "itertools.permutations", "combinations": "itertools.combinations",
             "chain": "itertools.chain", "plt": "matplotlib.pyplot", "OneHotEncoder": "sklearn.preprocessing.OneHotEncoder", "OrdinalEncoder": "sklearn.preprocessing.OrdinalEncoder",
             "StandardScaler": "sklearn.preprocessing.StandardScaler", "Any": "typing.Any"}


class Report:
    def __init__(self, pid, project):
        self.pid, self.p = pid, project
        self.obs = []
        self.funcs, self.calls, self.lines, self.nevents = set(), 0, 0, 0
        self.notes = []

    def run(self, qual, opaque=(), binds=None, attr_types=None, inline=None, depth=12, selfcls=None):
        it = Interp(self.p, opaque=opaque, attr_types=attr_types, inline=inline, depth=depth)
        f = self.p.func(qual) if isinstance(qual, str) else qual
        r = it.analyze(f, binds=binds, selfcls=selfcls)
        self.funcs |= it.funcs_seen
        self.calls += it.calls_seen
        self.lines += it.lines
        self.nevents += len(it.events)
        return r

    def spec(self, func, text, opaque=(), attr_types=None, depth=12):
        """analyse reference text as if it stood where func stands"""
        import ast
        import textwrap
        from .project import Func
        node = ast.parse(textwrap.dedent(text)).body[0]
        f = Func(func.qual + "$spec", node, func.module, func.cls)
        it = Interp(self.p, opaque=opaque, attr_types=attr_types, depth=depth)
        it.fallback = LIBRARIES
        return it.analyze(f)

    def floor(self, n, rule=None):
        """say so (not pass silently) when fewer obligations than confirmed by hand were formed"""
        k = len([o for o in self.obs if rule is None or o["rule"] == rule])
        if k < n:
            self.add("undecided", "coverage", "-", "every clause of the property was found in the source",
                     f"only {k} obligations{' of ' + rule if rule else ''} formed, expected at least {n}")

    def add(self, status, rule, where, what, msg=""):
        self.obs.append(dict(status=status, rule=rule, where=where, what=what, msg=msg))

    def ok(self, rule, where, what):
        self.add("holds", rule, where, what)

    def bad(self, rule, where, what, msg):
        self.add("violated", rule, where, what, msg)

    def und(self, rule, where, what, msg=""):
        self.add("undecided", rule, where, what, msg)

    def check(self, cond, rule, where, what, msg="", unsure=False):
        """cond True -> holds; False -> violated (undecided when the normal form is imprecise); None -> undecided"""
        if cond is True:
            self.ok(rule, where, what)
        elif cond is None or unsure:
            self.und(rule, where, what, msg)
        else:
            self.bad(rule, where, what, msg)
        return cond is True

    def count(self, status):
        return sum(1 for o in self.obs if o["status"] == status)


# ------------------------------------------------------------------ alpha-normal form
def alpha(t, env=None, d=0):
    """rename loop binders by nesting depth, order conjunctions, drop versions"""
    return _alpha(share(norm(t)), env or {}, d)


def _ctx(ctx, env, d):
    loops, cs = [], []
    for e in ctx:
        if e[0] == "for":
            coll = _alpha(e[2], env, d)
            until = _alpha(e[3], dict(env, **{}) | {e[1]: ("L", d)}, d + 1) if len(e) > 3 and e[3] is not None else None
            env = dict(env)
            env[e[1]] = ("L", d)
            d += 1
            loops.append(("for", ("L", d - 1), coll) + ((until,) if until is not None else ()))
        elif e[0] == "if":
            cs.append(_alpha(e[1], env, d))
    c = mk_and(*cs)
    return tuple(loops) + ((("if", _sortf(c)),) if c != T else ()), env, d


def _sortf(f):
    if f[0] in ("and", "or"):
        return (f[0],) + tuple(sorted((_sortf(x) for x in f[1:]), key=repr))
    if f[0] == "not":
        return ("not", _sortf(f[1]))
    return f


_MEMO = {}


def _alpha(t, env, d):
    if not isinstance(t, tuple) or not t:
        return t
    key = (id(t), id(env), d)
    m = _MEMO.get(key)
    if m is None:
        if len(_MEMO) > 400000:
            _MEMO.clear()
        # the terms are kept so that their ids stay theirs
        m = _MEMO[key] = (t, env, share(_alpha1(t, env, d)))
    return m[2]


def _alpha1(t, env, d):
    k = t[0]
    if k in ("el", "idx") and len(t) == 2 and not (k == "idx" and isinstance(t[1], tuple) and t[1] and t[1][0] not in ("L", "bl", "bl0", "B")):
        return (k, env.get(t[1], t[1]))
    if k == "em" and len(t) == 3 and isinstance(t[1], tuple):
        ctx, env2, d2 = _ctx(t[1], env, d)
        return ("em", ctx, _alpha(t[2], env2, d2))
    if k == "ex" and len(t) == 3:
        ctx, env2, d2 = _ctx(t[1], env, d)
        return ("ex", ctx, ("c", 1, "int"))
    if k in ("first", "pick", "firstor", "fold"):
        ctx, env2, d2 = _ctx(t[1], env, d)
        return (k, ctx) + tuple(_alpha(x, env2, d2) for x in t[2:])
    if k == "lout" and len(t) == 5:
        ctx, env2, d2 = _ctx(t[4], env, d)
        return (k, _alpha(t[2], env2, d2), _alpha(t[3], env, d), ctx)
    r = [_alpha(x, env, d) if isinstance(x, tuple) else x for x in t]
    for x, y in zip(t, r):
        if x is not y:
            r = tuple(r)
            break
    else:
        r = t
    if k in ("and", "or"):
        return _sortf(r)
    if k in ("==", "is") and len(r) == 3:
        return (k,) + tuple(sorted(r[1:], key=repr))
    return r


def canon_event(ctx, *terms):
    """(loop sources, condition, terms) of an event with loops renamed from the outside in"""
    c, env, d = _ctx(ctx, {}, 0)
    loops = tuple(source(e[2]) for e in c if e[0] == "for")
    cond = mk_and(*[e[1] for e in c if e[0] == "if"])
    return loops, cond, tuple(_alpha(norm(t), env, d) for t in terms)


def same(a, b):
    """same term up to loop names; formulas up to logical equivalence"""
    a, b = alpha(a), alpha(b)
    if a == b:
        return True
    from .terms import is_bool
    if is_bool(a) and is_bool(b):
        return equivalent(a, b)
    return False


def same_event(x, y):
    """compare two canon_event triples; None when the formulas are too big to decide"""
    if x[0] != y[0] or len(x[2]) != len(y[2]):
        return False
    for a, b in zip(x[2], y[2]):
        if not same(a, b):
            return False
    return equivalent(x[1], y[1])


# ------------------------------------------------------------------ comparison of effects with a reference


def canon_full(r, e, *terms):
    """(loops with their early exits, condition, terms)"""
    c, env, d = _ctx(nctx(r, e), {}, 0)
    loops = tuple(source(x[2]) if len(x) < 4 else (source(x[2]), "until", x[3]) for x in c if x[0] == "for")
    cond = mk_and(*[x[1] for x in c if x[0] == "if"])
    return loops, cond, tuple(_alpha(norm(r.interp.snap(t, r.st)) if isinstance(t, tuple) else t, env, d) for t in terms)


def effect_events(r, select):
    """[(kind, canonical form, event)] of the observable effects chosen by select(kind, target term, event)"""
    out = []
    for e in r.events:
        k = e.kind
        if k == "mut":
            o = norm(r.interp.snap(e["obj"], r.st))
            if not select("mut", o, e):
                continue
            t = norm(r.interp.snap(e["term"], r.st))
            out.append(("mut", canon_full(r, e, e["method"], o, t), e))
        elif k in ("setattr",):
            o = norm(r.interp.snap(e["obj"], r.st))
            if select("setattr", o, e):
                out.append(("setattr", canon_full(r, e, e["attr"], o, r.final(e["value"])), e))
        elif k in ("setitem", "delitem"):
            o = norm(r.interp.snap(e["obj"], r.st))
            if select(k, o, e):
                out.append((k, canon_full(r, e, o, e["key"], e.get("value", NONE)), e))
        elif k == "raise":
            if select("raise", e["name"], e):
                out.append(("raise", canon_full(r, e, e["name"]), e))
        elif k == "call":
            if select("call", e["name"], e):
                a = tuple(sorted(e["args"].items(), key=lambda x: str(x[0]))) if isinstance(e["args"], dict) else tuple(e["args"])
                out.append(("call", canon_full(r, e, e["name"], e["term"]), e))
        elif k == "mcall":
            if select("mcall", e["name"], e):
                out.append(("mcall", canon_full(r, e, e["name"], e["obj"], e["term"]), e))
    return out


def set_order(x, y):
    """in x, a <= b written with the operator is containment where y says the operands are sets"""
    subs = {(t[2], t[1]) for t in walk(("_",) + y) if t[0] == "subset"}
    if not subs:
        return x

    def f(t):
        if t[0] == "not" and t[1][0] == "<" and (t[1][1], t[1][2]) in subs:
            return ("subset", t[1][2], t[1][1])
        return None
    return subst(x, f)


def same_canon(x, y):
    x, y = (x[0], set_order(x[1], (y[1],)), x[2]), (y[0], set_order(y[1], (x[1],)), y[2])
    if x[0] != y[0]:
        return False
    for a, b in zip(x[2], y[2]):
        if a == b:
            continue
        if not (isinstance(a, tuple) and isinstance(b, tuple) and same(a, b)):
            return False
    return equivalent(x[1], y[1])


def canon_imprecise(c):
    return imprecise(("_",) + tuple(x for x in c[0] if isinstance(x, tuple)) + (c[1],) + tuple(t for t in c[2] if isinstance(t, tuple)))


def show_canon(c):
    n = lambda s: s if len(s) <= SHOWN else s[:SHOWN] + "…"
    return n(" ".join(f"for {show(x if x and isinstance(x[0], str) else x[0])}" for x in c[0]) + (f" if {show(c[1])}" if c[1] != T else "") +
             ": " + ", ".join(show(t) if isinstance(t, tuple) else str(t) for t in c[2]))


def against(R, rule, r, specs, select, what, extra_ok=lambda k, c, e: False):
    """the effects chosen by select are, as a set, those of one of the reference analyses"""
    got = effect_events(r, select)
    best = None
    for s in specs:
        want = effect_events(s, select)
        used, missing = set(), []
        for k, c, e in want:
            hit = [i for i, (k2, c2, e2) in enumerate(got) if k2 == k and same_canon(c, c2)]
            if hit:
                used.update(hit)
            else:
                missing.append((k, c, e))
        extra = [(k, c, e) for i, (k, c, e) in enumerate(got) if i not in used and not extra_ok(k, c, e)]
        score = len(missing) + len(extra)
        if best is None or score < best[0]:
            best = (score, missing, extra, len(want))
    score, missing, extra, n = best
    w = r.func.where
    if score == 0:
        R.ok(rule, w, f"{what} ({n} effects)")
        return True
    fuzzy = any(canon_imprecise(c) for _, c, _ in extra)
    where = extra[0][2].where if extra else w
    msg = "; ".join([f"missing {k} {show_canon(c)}" for k, c, _ in missing[:2]] +
                    [f"found {k} {show_canon(c)}" for k, c, _ in extra[:2]])
    R.check(False, rule, where, what, msg, unsure=fuzzy)
    return False


def ret_against(R, rule, r, specs, what, pick=lambda t: t):
    v = pick(alpha(r.final(r.ret)))
    for s in specs:
        if same(v, pick(alpha(s.final(s.ret)))):
            R.ok(rule, r.func.where, what)
            return True
    R.check(False, rule, r.func.where, what, f"returns {show(v)[:300]}", unsure=imprecise(v))
    return False
