"""Data generators: structures, samples of structural equation models, time series; the mapper of variables to features."""
import itertools

from sa.conform import (distinct, eqv, match_events, raise_conditions, form, method, near, novel, raises_like, returns_like, sn, term_like, untouched)
from sa.rule import NONE, P, T, alpha, conds, fors, imprecise, nctx, norm, same, show
from sa.terms import F, conjuncts, const, contains, implies, mk_and, mk_ite, mk_not, mk_or, subst, walk

GEN = "structure.data_generators.core."
WR = "structure.data_generators.wrappers."
CV = "structure.categorical_variable_mapper."
VF = "VariableFeatureMapper"
MAPPER = ("validate_schema",) + tuple(f"{VF}.{x}" for x in (
    "__init__", "get_indices", "is_var_of_type", "n_features", "n_variables", "variable_list", "get_var_of_type", "get_categorical_indices",
    "get_feature_index", "get_feature_names"))
G = lambda n: ("g", n)


def table(R, q, seen={}):
    """the value of a table written at module or class level, or None"""
    import ast
    key = (id(R.p), q)
    if key not in seen:
        seen[key] = None
        mod, n = q.rsplit(".", 1)
        v = m = None
        if mod in R.p.modules:
            m = R.p.modules[mod]
            v = m.globals.get(n)
        elif mod in R.p.class_by_qual:
            c = R.p.class_by_qual[mod]
            m, v = c.module, c.attrs.get(n)
        if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.Tuple)):
            f = next(iter(m.funcs.values()), None) or next(iter(next(iter(m.classes.values())).methods.values()))
            r = R.spec(f, "def spec():\n    return " + ast.unparse(v))
            seen[key] = sn(r, r.final(r.ret))
    return seen[key]


def words(R):
    """one spelling of library vocabulary, module tables replaced by what they hold"""
    def f(x):
        if x[0] == "g" and isinstance(x[1], str):
            return table(R, x[1])
        if x[0] == "call" and x[1][0] == "g" and x[1][1].endswith(".get") and table(R, x[1][1][:-4]) is not None and len(x[2]) in (1, 2):
            return ("get", table(R, x[1][1][:-4]), subst(x[2][0], f), subst(x[2][1], f) if len(x[2]) > 1 else NONE)
        if x[0] == "call" and x[1] == G("networkx.algorithms.is_directed_acyclic_graph"):
            return ("call", G("networkx.is_directed_acyclic_graph")) + subst(x[2:], f)
        return None

    def g(x):
        if x[0] == "get" and len(x) == 4 and x[1][0] == "ite" and ("seq", "dict", ()) in x[1][2:4]:
            m, k, d = (subst(y, g) for y in x[1:])
            if m[0] == "ite":
                c, m = (mk_not(m[1]), m[3]) if m[2] == ("seq", "dict", ()) else (m[1], m[2])
                return mk_ite(mk_and(c, ("in", k, m)), ("i", m, k), d)
        if x[0] == "m" and x[2] == "get" and len(x[3]) in (1, 2):
            return ("get", subst(x[1], g), subst(x[3][0], g), subst(x[3][1], g) if len(x[3]) > 1 else NONE)
        if x[0] == "i" and x[1][0] == "a" and x[1][2] == "var_indices_dict":
            return ("call", G("causalnex." + CV + VF + ".get_indices"), (), (("self", subst(x[1][1], g)), ("var", subst(x[2], g))))
        if x[0] == "call" and x[1] == G("builtins.len") and len(x[2]) == 1 and x[2][0][0] == "a" and x[2][0][2] == "feature_list":
            return ("a", subst(x[2][0][1], g), "n_features")
        if x[0] == "op" and x[1] == "@" or x[0] == "call" and x[1] in (G("numpy.dot"), G("numpy.matmul")) and len(x[2]) == 2 and not x[3]:
            a, b = x[2] if x[0] == "call" else x[2:4]
            return ("m", subst(a, g), "dot", (subst(b, g),), ())
        if x[0] == "call" and x[1] == G("numpy.transpose") and len(x[2]) == 1 or x[0] == "m" and x[2] == "transpose" and not x[3]:
            return ("a", subst(x[2][0] if x[0] == "call" else x[1], g), "T")
        if x[0] == "call" and x[1] in (G("numpy.eye"), G("numpy.identity")) and not x[3] and len(set(x[2])) == 1:
            return ("call", G("numpy.eye"), (subst(x[2][0], g),), ())
        if x[0] == "call" and x[1] in (G("numpy.tril"), G("numpy.triu")) and len(x[2]) == 2:
            return ("call", x[1], (subst(x[2][0], g),), (("k", subst(x[2][1], g)),))
        if x[0] == "==":
            a, b = subst(x[1], g), subst(x[2], g)
            for y, z in ((a, b), (b, a)):
                if y == const(0) and z[0] in ("<", "==", "not", "and", "or", "<="):
                    return mk_not(z)
            return ("==",) + tuple(sorted((a, b), key=repr))
        if x[0] == "m" and x[2] == "astype" and len(x[3]) == 1 and x[3][0] in (G("builtins.float"), G("builtins.int"), G("builtins.bool")) and \
                x[1][0] in ("<", "==", "not", "and", "or", ">", "<="):
            return subst(x[1], g)
        if x[0] == "op" and x[1] == "/" and x[2][0] == "call" and x[2][1] == G("builtins.float") and len(x[2][2]) == 1:
            return ("op", "/", subst(x[2][2][0], g), subst(x[3], g))
        if x[0] == "call" and x[1] in (G("numpy.mean"), G("numpy.sum"), G("numpy.min"), G("numpy.max"), G("numpy.std"), G("numpy.any"), G("numpy.all")) and \
                len(x[2]) == 1 and not x[3]:
            return ("m", subst(x[2][0], g), x[1][1].split(".")[-1], (), ())
        if x[0] == "call" and x[1] in (G("numpy.zeros"), G("numpy.ones"), G("numpy.empty")):
            kw = dict(x[3])
            if set(kw) == {"shape"} and not x[2]:
                x = ("call", x[1], (kw["shape"],), ())
            if len(x[2]) == 1 and x[2][0][0] == "seq" and all(not c and i[0] == "x" for _, c, i in x[2][0][2]):
                x = ("call", x[1], (("tuple", tuple(i[1] for _, _, i in x[2][0][2])),), x[3])
            if len(x[2]) == 1 and x[2][0][0] == "tuple" and len(x[2][0][1]) == 1:
                x = ("call", x[1], x[2][0][1], x[3])
            return ("call", x[1], subst(x[2], g), x[3])
        if x[0] == "call" and x[1][0] == "g" and x[1][1].startswith("numpy.random."):
            kw = {"among" if k == "a" else k: subst(v, g) for k, v in x[3]}
            args = [subst(y, g) for y in x[2]]
            names = {"uniform": ("low", "high", "size"), "normal": ("loc", "scale", "size"), "rand": (), "choice": ("among", "size", "replace", "p"),
                     "random": ("size",), "random_sample": ("size",), "exponential": ("scale", "size"), "gumbel": ("loc", "scale", "size")}.get(x[1][1].split(".")[-1])
            if names and len(args) <= len(names):
                kw.update(zip(names, args))
                args = []
                for k, v in () if "among" in names else (("low", const(0)), ("high", const(1))) if "low" in names else (("loc", const(0)), ("scale", const(1))):
                    if kw.get(k) in (v, const(float(v[1]))):
                        del kw[k]
            if x[1][1].endswith(".rand") and args:
                return ("call", G("numpy.random.uniform"), (), (("size", ("tuple", tuple(args))),))
            if kw.get("size", NONE)[0] == "seq" and all(not c and i[0] == "x" for _, c, i in kw["size"][2]):
                kw["size"] = ("tuple", tuple(i[1] for _, _, i in kw["size"][2]))
            if kw.get("size", NONE)[0] == "tuple" and len(kw["size"][1]) == 1:
                kw["size"] = kw["size"][1][0]
            if x[1][1].endswith((".random", ".random_sample")):
                x = ("call", G("numpy.random.uniform"))
            return ("call", x[1], tuple(args), tuple(sorted(kw.items())))
        return None
    return lambda t: subst(subst(t, f), g)


DEFAULTS = '''
    ds = {"continuous": "gaussian", "binary": "logit", "categorical": "logit", "weight": "uniform", "intercept": "uniform", "count": 0.05}
    if distributions is not None:
        ds.update(distributions)
'''
HEAD = '''
    np.random.seed(seed)
    if not nx.is_directed_acyclic_graph(graph):
        raise ValueError("cycle")
''' + DEFAULTS + '''
    m = VariableFeatureMapper(validate_schema(nodes=graph.nodes(), schema=schema, default_type=default_type))
    x = np.empty([n_samples, m.n_features])
'''
TABLE = '''
    table = {"gaussian": np.random.normal, "normal": np.random.normal, "student-t": np.random.standard_t, "gumbel": np.random.gumbel,
             "exponential": np.random.exponential, "probit": np.random.normal, "logit": np.random.logistic}
'''
NOISE = TABLE + '''
    def noise(kind, size, root):
        f = table.get(kind)
        if f is None:
            raise ValueError("distribution")
        scale = 1 if root else noise_std
        if kind == "student-t":
            return f(df=5, size=size) * scale
        return f(scale=scale, size=size)

    def continuous(latent, root):
        return latent + noise(ds["continuous"], (latent.shape[0],), root)

    def binary(latent, root):
        v = latent + noise(ds["binary"], (latent.shape[0],), root)
        labels = (v > 0).astype(int)
        share = np.mean(labels)
        if share < 0.05:
            return (v > np.quantile(v, 0.05)).astype(int)
        if share > 1 - 0.05:
            return (v > np.quantile(v, 1 - 0.05)).astype(int)
        return labels
'''


COUNT = '''
    def count(eta, root):
        if not isinstance(ds["count"], (float, int)) or ds["count"] < 0 or ds["count"] > 1:
            raise ValueError("zero inflation")
        if root:
            eta = eta + np.random.uniform(size=eta.shape[0])
        zero = np.random.uniform(size=eta.shape[0]) < ds["count"]
        eta[eta < 0] = np.exp(eta[eta < 0])
        log_p = -eta
        log_cdf = np.copy(log_p)
        n = np.zeros_like(eta)
        u = np.log(np.random.uniform(size=eta.shape))
        mask = u >= log_cdf
        while np.any(mask) and n.max() < 5000:
            mask = u >= log_cdf
            n[mask] += 1
            log_p[mask] += np.log(eta[mask] / n[mask])
            log_cdf[mask] = np.logaddexp(log_cdf[mask], log_p[mask])
        n[zero] = 0
        return n
'''
CATEGORICAL = '''
    def categorical(latent, root):
        out = np.empty_like(latent)
        best = np.argmax(latent + noise(ds["categorical"], (latent.shape[0], latent.shape[1]), root), axis=1)
        for i in range(latent.shape[1]):
            out[:, i] = (best == i).astype(int)
        return out
'''
WEIGHTS = '''
    n_columns = sum(len(m.get_indices(v)) for v in m.var_indices_dict)
    w = np.zeros(shape=(n_columns + 1 if intercept else n_columns, n_columns))
    for a, b, weight in graph.edges(data="weight"):
        i = m.get_indices(a)
        j = m.get_indices(b)
        if weight is None:
            if ds["weight"] == "uniform":
                w[np.ix_(i, j)] = np.random.uniform(-np.sqrt(12) / 2, np.sqrt(12) / 2, size=(len(i), len(j)))
            elif ds["weight"] in ("gaussian", "normal"):
                w[np.ix_(i, j)] = np.random.normal(loc=0, scale=1, size=(len(i), len(j)))
            else:
                raise ValueError("weight")
        elif len(i) * len(j) == 1:
            w[np.ix_(i, j)] = weight
        elif len(i) * len(j) > 1:
            u = np.random.uniform(size=(len(i), len(j)))
            w[np.ix_(i, j)] = (u == np.min(u)).astype(int) * weight
    if intercept:
        if ds["intercept"] == "uniform":
            w[-1, :] = np.random.uniform(-np.sqrt(12) / 2, np.sqrt(12) / 2, size=[1, n_columns])
        elif ds["intercept"] in ("gaussian", "normal"):
            w[-1, :] = np.random.normal(loc=0, scale=1, size=[1, n_columns])
        else:
            raise ValueError("intercept")
'''
BRACE = lambda t: t.replace("{", "{{").replace("}", "}}")
LINEAR = "def spec(graph, schema, default_type, noise_std, n_samples, distributions, seed):\n    intercept = {intercept}\n" + \
    BRACE(HEAD + NOISE + COUNT + CATEGORICAL + WEIGHTS + '''
    if intercept:
        x = np.append(x, np.ones(shape=(n_samples, 1)), axis=1)
    for j in nx.topological_sort(graph):
        own = m.get_indices(j)
        parents = m.get_indices(list(graph.predecessors(j)))
        if intercept:
            parents = parents + [x.shape[1] - 1]
        root = len(parents) <= (1 if intercept else 0)
        if m.is_var_of_type(j, "continuous"):
            x[:, own[0]] = continuous(x[:, parents].dot(w[parents, own[0]]), root)
        elif m.is_var_of_type(j, "binary"):
            x[:, own[0]] = binary(x[:, parents].dot(w[parents, own[0]]), root)
        elif m.is_var_of_type(j, "count"):
            x[:, own[0]] = count(x[:, parents].dot(w[parents, own[0]]), root)
        elif m.is_var_of_type(j, "categorical"):
            x[:, own] = categorical(x[:, parents].dot(w[np.ix_(parents, own)]), root)
    if intercept:
        return pd.DataFrame(x[:, :-1], columns=m.feature_list)
    return pd.DataFrame(x, columns=m.feature_list)
''')


NONLINEAR = "def spec(graph, kernel, schema, default_type, noise_std, n_samples, distributions, seed):\n" + HEAD + NOISE + COUNT + CATEGORICAL + '''
    def scaled(y):
        return y / y.std()

    def first(v):
        cov = kernel(v)
        return np.random.multivariate_normal(mean=np.zeros(shape=v.shape[0]), cov=cov).squeeze(), cov

    def gp(v):
        if v.shape[1] == 0:
            return np.zeros(shape=(v.shape[0],))
        if v.shape[0] <= 100:
            y, _ = first(v)
            return scaled(y)
        order = np.argsort(v, axis=0)[:, 0].squeeze()
        back = np.argsort(order).squeeze()
        chunks = np.array_split(v[order, :], v.shape[0] // 100 + 1)
        y, cov = first(chunks[0])
        outputs = [y]
        old = chunks[0]
        for c in chunks[1:]:
            new = kernel(c)
            cross = kernel(old, c)
            coef = np.linalg.solve(cov + 1e-05 * np.eye(old.shape[0]), cross).T
            y = np.random.multivariate_normal(mean=(coef @ outputs[-1]).squeeze(), cov=new - coef @ cross + 1e-05 * np.eye(c.shape[0])).squeeze()
            outputs.append(y)
            old = c
            cov = new
        return scaled(np.concatenate(outputs))[back]

    for j in nx.topological_sort(graph):
        own = m.get_indices(j)
        parents = m.get_indices(list(graph.predecessors(j)))
        root = len(parents) <= 0
        if m.is_var_of_type(j, "continuous"):
            x[:, own[0]] = continuous(gp(x[:, parents]), root)
        elif m.is_var_of_type(j, "binary"):
            x[:, own[0]] = binary(gp(x[:, parents]), root)
        elif m.is_var_of_type(j, "count"):
            x[:, own[0]] = count(gp(x[:, parents]), root)
        elif m.is_var_of_type(j, "categorical"):
            x[:, own] = categorical(np.concatenate([np.expand_dims(gp(x[:, parents]), axis=1) for _ in own], axis=1), root)
    return pd.DataFrame(x, columns=m.feature_list)
'''


def entries(t):
    """a dictionary display with its fixed keys in one order"""
    if t[:2] != ("seq", "dict"):
        return t
    n = next((i for i, y in enumerate(t[2]) if y[1] or y[2][0] != "kv" or y[2][1][0] != "c"), len(t[2]))
    return ("seq", "dict", tuple(sorted(t[2][:n], key=repr)) + t[2][n:])


def symbols(R, r, intercept=None):
    """short names for the objects both sides are about, where they are what is required"""
    w = words(R)
    s = R.spec(r.func, "def spec(graph, schema, default_type, distributions, n_samples):\n" + DEFAULTS + '''
    m = VariableFeatureMapper(validate_schema(nodes=graph.nodes(), schema=schema, default_type=default_type))
    a = np.zeros(shape=(m.n_features + 1, m.n_features))
    n = sum(len(m.get_indices(v)) for v in m.var_indices_dict)
    b = np.zeros(shape=(n + 1, n))
    c = np.zeros(shape=(m.n_features, m.n_features))
    d = np.zeros(shape=(n, n))
    x = np.empty([n_samples, m.n_features])
    y = np.append(x, np.ones(shape=(n_samples, 1)), axis=1)
    u = np.concatenate([x, np.ones(shape=(n_samples, 1))], axis=1)
    v = np.hstack([x, np.ones(shape=(n_samples, 1))])
    return (ds, m, a, b, c, d, x, y, u, v)
''', opaque=MAPPER)
    ds, m, a, b, c, d, x, y, u, v = (alpha(w(z)) for z in sn(s, s.final(s.ret))[1])
    named = {m: P("mapper")}
    if intercept is not None:
        named |= {z: P("w") for z in ((a, b) if intercept else (c, d))}
    named |= {z: P("x") for z in ((y, u, v) if intercept else (x,))}

    def f(z):
        z2 = alpha(z) if z[0] in ("new", "call", "i", "get") else z
        if z2 in named:
            return named[z2]
        if z[0] in ("i", "get") and len(z) in (3, 4) and z[2][0] == "c" and entries(alpha(z[1])) == entries(ds):
            return ("call", P("distribution"), (z[2],), ())
        return None

    def g(z):
        if z[0] == "a" and z[1] == P("mapper") and z[2] == "n_features":
            return P("n_features")
        if z[0] == "call" and z[1][0] == "g" and VF + "." in z[1][1] and dict(z[3]).get("self") == P("mapper"):
            return ("call", P(z[1][1].split(".")[-1]), tuple(subst(v, g) for k, v in z[3] if k != "self"), ())
        if z[0] == "red" and contains(("_", z), lambda y: y == ("a", P("mapper"), "var_indices_dict")) and z[1] == "+":
            return P("n_features")
        return None
    return lambda t: subst(subst(w(t), f), g)


def kinds(c):
    """types of variable the condition speaks of"""
    return {y[2][1][1] for y in conjuncts(c) if y[0] == "call" and y[1] == P("is_var_of_type") and y[2][1][0] == "c"}


def one_type(t):
    """a variable has one type: where it is known, the others are denied"""
    def f(x):
        if x[0] == "and":
            parts = conjuncts(x)
            pos = [y for y in parts if y[0] == "call" and y[1] == P("is_var_of_type")]
            if pos:
                def deny(z):
                    if z[0] == "call" and z[1] == P("is_var_of_type"):
                        if z in pos:
                            return T
                        if any(p[2][0] == z[2][0] and p[2][1] != z[2][1] for p in pos):
                            return F
                    return None
                y = mk_and(*pos, *[subst(y, deny) for y in parts if y not in pos])
                if y != x:
                    return subst(y, f)
        return None
    return subst(t, f)


def rows(t):
    """latent values have one row per sample"""
    if t == P("x"):
        return True
    if t[0] == "i":
        k = t[2]
        return rows(t[1]) and (k[0] == "tuple" and k[1][0] == ("slice", NONE, NONE, NONE))
    if t[0] == "m" and t[2] == "dot":
        return rows(t[1])
    if t[0] == "call" and t[1] in (G("numpy.zeros"), G("numpy.ones"), G("numpy.empty")) and t[2]:
        return t[2][0] == P("n_samples") or t[2][0][0] == "tuple" and t[2][0][1][0] == P("n_samples")
    if t[0] == "op" and t[1] in ("+", "*", "-"):
        return rows(t[2])
    if t[0] == "ite":
        return rows(t[2]) and rows(t[3])
    return False


def sized(t):
    def f(x):
        if x[0] == "i" and x[2] == const(0) and x[1][0] == "a" and x[1][2] == "shape" and rows(x[1][1]):
            return P("n_samples")
        if x[0] == "i" and x[2] == const(0) and x[1][0] == "a" and x[1][2] == "shape" and x[1][1][0] == "op" and x[1][1][2][0] != "c":
            # numbers of the left side, element by element
            return subst(("i", ("a", x[1][1][2], "shape"), const(0)), f)
        if x[0] == "i" and x[2] == const(0) and x[1][0] == "a" and x[1][2] == "shape" and x[1][1][0] == "ite":
            return subst(("ite", x[1][1][1]) + tuple(("i", ("a", y, "shape"), const(0)) for y in x[1][1][2:]), f)
        if x[0] == "==" and const(0) in x[1:]:
            y = x[2] if x[1] == const(0) else x[1]
            if y[0] == "i" and y[2] == const(1) and y[1][0] == "a" and y[1][2] == "shape" and y[1][1][0] == "i" and y[1][1][1] == P("x") and \
                    y[1][1][2][0] == "tuple" and y[1][1][2][1][1][0] == "call":
                # no columns where there is no index
                return mk_not(subst(y[1][1][2][1][1], f))
        if x[0] == "ite":
            # what is known in the branches
            c = subst(x[1], f)
            p, n = (c[1], True) if c[0] == "not" else (c, False)
            known = lambda v: lambda z: subst(z[2] if v != n else z[3], f) if z[0] == "ite" and z[1] == p else \
                subst(z[2] if v == n else z[3], f) if z[0] == "ite" and z[1] == ("not", p) else None
            a, b = subst(subst(x[2], f), known(True)), subst(subst(x[3], f), known(False))
            return a if a == b else ("ite", c, a, b)
        return None
    for _ in range(4):
        t, old = subst(t, f), t
        if t == old:
            break
    return t


def carried(rr, W):
    """values handed from pass to pass, named after what they start as; one condition-controlled loop is like another"""
    loops = rr.interp.loops

    def sig(L, n):
        i = loops.get(L)
        if not i or n not in i.get("carried", {}):
            return None
        v = i["carried"][n][0]
        if hasattr(v, "ems"):
            v = ("seq", v.kind, tuple(("em",) + tuple(e) for e in v.ems)) if not v.base and not v.attrs else ("obj", v.kind)
        return subst(alpha(W(sn(rr, v))), lambda x: (x[0], "outer") if x[0] in ("el", "idx") and isinstance(x[1], int) else None)

    def f(x):
        if x[0] in ("lv", "lvc") and len(x) == 3:
            if isinstance(x[2], tuple) and x[2][:1] == ("self",):
                # what comes out of a loop, as a pass finds it
                return (x[0], 0, "own")
            s = sig(x[1], x[2])
            return (x[0], 0, s) if s is not None else None
        if x[0] == "while" and len(x) == 2 and isinstance(x[1], int):
            return ("while", 0)
        return None
    return lambda t: subst(t, f)


def forms_of(rr, S, select, okc=True):
    from sa.conform import event_forms
    k = carried(rr, S)
    return event_forms(rr, select, lambda t: one_type(sized(S(k(t)))), okc)


def sems(R, q, text, intercept=None):
    r = R.run(q, opaque=MAPPER, binds={"intercept": const(intercept)} if intercept is not None else None)
    s = R.spec(r.func, text.format(intercept=intercept), opaque=MAPPER)
    S = symbols(R, r, intercept)
    name = q.split(".")[-1] + {None: "", True: " with intercept", False: " without intercept"}[intercept]
    sel = lambda k, o, e: k == "setitem"
    got, want = forms_of(r, S, sel), forms_of(s, S, sel)
    X, Wm = P("x"), P("w")
    for e in r.events:
        pass

    def group(es):
        out = {}
        for k, c, e in es:
            o = c[2][0]
            ks = kinds(c[1])
            g = "weights" if o == Wm and c[0] else "intercept" if o == Wm else "/".join(sorted(ks)) if ks else "other"
            out.setdefault(g, []).append((k, c, e))
        return out
    gg, gw = group(got), group(want)
    label = {"weights": "the weight of an edge goes where its nodes' features meet, a drawn one where it has none",
             "intercept": "the last row holds an intercept per feature"}
    for g in sorted(set(gg) | set(gw)):
        what = f"{name}: " + label.get(g, f"values of {g} nodes come from their parents' values, weights and the noise asked for")
        match_events(R, g if g in label else "values", r.func.where, gg.get(g, []), [gw.get(g, [])], what)
    rr = lambda x: one_type(sized(S(x)))
    r.rewrite = s.rewrite = rr
    raises_like(R, "rejected", r, [s], what=f"{name} rejects")
    ret = lambda z: sn(z, z.final(z.ret))
    term_like(R, "frame", r.func.where, f"{name} returns the features by name, without the intercept", ret(r), [ret(s)], rewrite=lambda t: rr(carried(r, S)(t)))
    seeded(R, r, name)
    untouched(R, "read-only", r, frozenset({P("graph"), P("schema"), P("distributions")}), f"{name} changes none of its arguments")
    passes(R, r, s, S, name)
    draws(R, r, s, lambda z: (lambda t: one_type(sized(S(carried(z, S)(t))))), name)
    gc, wc = (conditions(z, S) for z in (r, s))
    R.check(gc == wc, "passes", r.func.where, f"{name}: counts grow until each draw is reached, or one of them is 5000",
            f"found {[show(x)[:200] for x in gc - wc]}; required {[show(x)[:200] for x in wc - gc]}",
            unsure=not gc or any(imprecise(("_", x)) or novel(x, *wc) for x in gc - wc))


def passes(R, r, s, S, name):
    """what is handed from pass to pass"""
    got, want = (handed(z, S) for z in (r, s))
    gc, wc = got.pop("collected", {}), want.pop("collected", {})
    more, less = [gc[k] for k in sorted(gc) if k not in wc], [wc[k] for k in sorted(wc) if k not in gc]
    if len(more) == len(less):
        # as many comprehensions: each has its counterpart
        for g in more:
            w = next((x for x in less if near(g, x)), less[0] if len(less) == 1 else None)
            R.check(False if w is not None else None, "passes", r.func.where, f"{name}: what is collected", f"found {show(g)[:200]}; required {show(w)[:200] if w else 'something else'}",
                    unsure=w is None or imprecise(("_", g)) and not near(g, w) or bool(novel(g, w)))
    for k, body in sorted(want.items()):
        g = got.get(k)
        R.check(g == body or bool(g) and same(g, body), "passes", r.func.where, f"{name}: a pass is handed what the pass before made",
                f"found {show(g)[:200] if g else 'nothing'}; required {show(body)[:200]}", unsure=g is None or imprecise(("_", g)) and not near(g, body) or bool(novel(g, body)))


def conditions(rr, S):
    """the conditions of the condition-controlled loops"""
    k = carried(rr, S)
    out = set()
    for L, i in rr.interp.loops.items():
        if i["kind"] == "while" and i.get("cond") is not None:
            out.add(form(subst(alpha(one_type(sized(S(k(norm(rr.interp.snap(i["cond"], rr.st))))))), lambda x: (x[0], "outer")
                    if x[0] in ("el", "idx") and isinstance(x[1], int) else None)))
    return out


def handed(rr, S):
    """the values loops hand from pass to pass: (start, what a pass makes of it)"""
    k = carried(rr, S)
    out = {}
    for L, i in rr.interp.loops.items():
        for n, (a, b) in i.get("carried", {}).items():
            tag = "lvc" if hasattr(b, "ems") else "lv"
            st = k((tag, L, n))
            if b == ("lv", L, n) or st[0] != tag or st[1] != 0 or contains(st, lambda x: x == ("undef",)):
                continue
            if tag == "lvc":
                if b.base != (tag, L, n) or b.attrs:
                    continue
                b = ("seq", b.kind, (("em", (), ("base", b.base)),) + tuple(("em",) + tuple(e) for e in b.ems))
            body = subst(alpha(one_type(sized(S(k(sn(rr, b)))))), lambda x: (x[0], "outer") if x[0] in ("el", "idx") and isinstance(x[1], int) else None)
            if i.get("comp") and tag == "lvc":
                # comprehensions are told apart by what they collect, not by where they stand
                plain = lambda x: (x[0], "list") + tuple(subst(y, plain) if isinstance(y, tuple) and y else y for y in x[2:]) if x[0] == "seq" and x[1] == "gen" else ("obj", "list") if x == ("obj", "gen") else None
                body = subst(body, plain)
                out.setdefault("collected", {})[repr(body)] = body
                continue
            out[repr(st)] = body
    return out


def draws(R, r, s, rewrite, what):
    """what is drawn anew is drawn anew: as many draws of each kind, under the same conditions"""
    def of(rr):
        out = {}
        for e in rr.events:
            if e.kind == "call" and e.data["fn"][0] == "g" and e.data["fn"][1].startswith("numpy.random.") and not e.data["fn"][1].endswith(".seed"):
                from sa.rule import _ctx, _alpha
                cc, env, d = _ctx(nctx(rr, e), {}, 0)
                t = rewrite(rr)(_alpha(norm(rr.interp.snap(e.data["term"], rr.st)), env, d))
                ls = tuple(rewrite(rr)(x[2]) for x in cc if x[0] == "for")
                c = form(rewrite(rr)(mk_and(*[x[1] for x in cc if x[0] == "if"])))
                out.setdefault((t, ls), []).append((c, e))
        return out
    got, want = of(r), of(s)
    if set(got) != set(want):
        # the same numbers may be spelled in another way; then the distribution alone says which draw is which
        def by(m):
            out = {}
            for (t, ls), es in m.items():
                out.setdefault((t[:2], ()), []).extend(es)
            return out
        got, want = by(got), by(want)
    for k in sorted(want, key=repr):
        g, w = [c for c, _ in got.get(k, [])], [c for c, _ in want[k]]
        both = mk_or(*g), mk_or(*w)
        same = len(g) == len(w) and eqv(*both) is True
        alone = lambda cs: all(implies(mk_and(a, b), F) is True for i, a in enumerate(cs) for b in cs[:i])
        if not same:
            same = eqv(*both) is True and alone(g) and alone(w)
        R.check(same, "drawn", got[k][0][1].where if k in got else r.func.where, f"{what} draws {show(k[0]) if len(k[0]) > 2 else k[0][1][1]} anew for each use"[:160],
                f"{len(g)} draws; required {len(w)}", unsure=not g or imprecise(("_", k[0])))


LISTS = ("seq", "lout", "lv", "ite", "tuple", "list", "sorted", "str", "fmt", "obj", "lvc")


def listed(t):
    return t[0] in LISTS or t[0] == "c" and isinstance(t[1], str) or t[0] == "call" and t[1] in (G("builtins.list"), G("builtins.sorted"), G("builtins.tuple"))


def flip(t):
    """sums and products, conjunctions and disjunctions in one order; numbers in comparisons on one side"""
    def f(x):
        if x[0] in ("and", "or") and all(isinstance(y, tuple) for y in x[1:]):
            return (x[0],) + tuple(sorted((flip(y) for y in x[1:]), key=repr))
        if x[0] == "op" and x[1] in ("+", "*") and not any(listed(y) for y in x[2:]):
            return x[:2] + tuple(sorted((flip(y) for y in x[2:]), key=repr))
        if x[0] in ("<", "==") and len(x) == 3:
            a, b = flip(x[1]), flip(x[2])
            for p, q, up in ((a, b, True), (b, a, False)):
                # a + n < b  ->  a < b - n is kept as a + n < b, with n > 0 on the left or on the right
                if p[0] == "op" and p[1] == "-" and len(p) == 4 and p[3][0] == "c" and p[3][2] in ("int", "float") and p[3][1] > 0:
                    q = flip(("op", "+", q, p[3]))
                    return (x[0], p[2], q) if up else (x[0], q, p[2])
            return (x[0], a, b)
        return None
    return subst(t, f)


sorted_bool = flip


def whole(R, q, text, what, opaque=(), renames=lambda t: t, roots=frozenset(), grown=False):
    """the function makes what the reference makes: same result, same changes, same exceptions"""
    r, (s,) = method(R, q, text, opaque=opaque)
    W = words(R)
    rw = lambda rr: (lambda t: sorted_bool(renames(sized(W(carried(rr, W)(t))))))
    both = []
    for rr in (r, s):
        from sa.conform import event_forms
        es = event_forms(rr, lambda k, o, e: k == "setitem" or grown and k in ("call", "mcall") and o in GROWN, rw(rr), True)
        v = rw(rr)(alpha(sn(rr, rr.final(rr.ret))))
        es.append(("return", ((), T, (v,)), [e for e in rr.events if e.kind == "return"][-1]))
        both.append(es)
    ok = match_events(R, "made", r.func.where, both[0], [both[1]], what)
    r.rewrite = s.rewrite = lambda t: renames(sized(W(t)))
    passes(R, r, s, lambda t: renames(W(t)), q.split(".")[-1])
    if any(e.kind == "raise" for e in s.events + r.events):
        raises_like(R, "rejected", r, [s], what=q.split(".")[-1] + " rejects")
    if ok:
        draws(R, r, s, rw, q.split(".")[-1])
    if roots:
        untouched(R, "read-only", r, roots, f"{q.split('.')[-1]} changes none of its arguments")
    return r, s


STRUCTURE = '''
def spec(num_nodes, degree, graph_type, w_min, w_max):
    if num_nodes < 2:
        raise ValueError("nodes")
    lo, hi = abs(w_min), abs(w_max)
    if lo > hi:
        raise ValueError("weights")
    if graph_type == "erdos-renyi":
        flags = np.tril(np.random.uniform(size=(num_nodes, num_nodes)) < degree / (num_nodes - 1), k=-1)
    elif graph_type == "barabasi-albert":
        flags = np.zeros((num_nodes, num_nodes))
        bag = [0]
        for i in range(1, num_nodes):
            chosen = np.random.choice(bag, size=int(round(degree / 2)))
            for j in chosen:
                flags[i, j] = 1
            bag.append(i)
            bag.extend(chosen)
    elif graph_type == "full":
        flags = np.tril(np.ones((num_nodes, num_nodes)), k=-1)
    else:
        raise ValueError("type")
    perm = np.random.permutation(np.eye(num_nodes))
    flags = perm.T.dot(flags).dot(perm)
    weights = np.random.uniform(low=lo, high=hi, size=(num_nodes, num_nodes))
    weights[np.random.uniform(size=(num_nodes, num_nodes)) < 0.5] *= -1
    return StructureModel((flags != 0) * weights)
'''


def c37(R):
    whole(R, GEN + "generate_structure", STRUCTURE, "a permuted strictly triangular graph of the type asked for, weights within the bounds and of either sign",
          opaque=("StructureModel.__init__",))
    R.floor(6)


def seeded(R, r, name):
    """the seed is set before anything is drawn, on every path"""
    draws = [e for e in r.events if e.kind == "call" and e.data["fn"][0] == "g" and e.data["fn"][1].startswith("numpy.random.")]
    seeds = [e for e in draws if e.data["fn"][1] == "numpy.random.seed"]
    w = r.func.where
    what = f"{name} sets the seed it is given before it draws"
    if len(seeds) != 1:
        R.check(False, "seeded", w, what, f"{len(seeds)} calls of numpy.random.seed", unsure=bool(seeds) or not draws)
        return
    s = seeds[0]
    a = norm(s.data["args"].get(0, s.data["args"].get("seed", NONE)))
    ok = a == P("seed") and conds(nctx(r, s)) in (T, mk_not(("is", NONE, P("seed"))), mk_not(("is", P("seed"), NONE))) and not fors(nctx(r, s))
    first = all(s.pos <= e.pos for e in draws)
    R.check(ok and first, "seeded", s.where, what, f"seed({show(a)}) under {show(conds(nctx(r, s)))[:120]}" if not ok else "something is drawn before it",
            unsure=not ok and imprecise(("_", a, conds(nctx(r, s)))))


OTHER_WORDS = ("argmin", "numpy.argmin", "successors", "ancestors", "descendants", "networkx.ancestors", "networkx.descendants", "neighbors", "numpy.ones",
               "numpy.mean", "numpy.median", "numpy.max", "numpy.flip", "numpy.sort", "numpy.random.rand", "numpy.random.permutation", "numpy.random.shuffle",
               "numpy.random.poisson", "numpy.exp", "min", "mean", "numpy.ones_like", "numpy.random.randint", "numpy.linalg.pinv", "std", "var")


def c38(R):
    with distinct(*OTHER_WORDS):
        for i in (True, False):
            sems(R, GEN + "sem_generator", LINEAR, i)
        sems(R, GEN + "nonlinear_sem_generator", BRACE(NONLINEAR))
    R.floor(28)


# ------------------------------------------------------------------ variables and features
INIT = '''
def spec(self, schema):
    card = {k: int(v.split(":")[1]) for k, v in schema.items() if "categorical" in v}
    owner = {"{}_{}".format(k, i): k for k, c in card.items() for i in range(c)}
    features = [k for k, v in schema.items() if "binary" in v]
    features += [k for k, v in schema.items() if "continuous" in v]
    features += [k for k, v in schema.items() if "count" in v]
    features += list(owner)
    self.variable_type_dict = {t: [k for k, v in schema.items() if t in v] for t in self.PERMISSIBLE_TYPES}
    self.owner = owner
    self.feature_list = features
    self.position = {f: i for i, f in enumerate(features)}
    self.var_indices_dict = {}
    for t in ("continuous", "binary", "count"):
        for k in self.variable_type_dict[t]:
            self.var_indices_dict[k] = [self.position[k]]
    for k in self.variable_type_dict["categorical"]:
        self.var_indices_dict[k] = [self.position[f] for f, o in owner.items() if o == k]
'''
METHODS = {
    "variable_list": '''
def spec(self):
    return [v for vs in self.variable_type_dict.values() for v in vs]
''',
    "get_var_of_type": '''
def spec(self, data_type):
    if data_type not in self.PERMISSIBLE_TYPES:
        raise ValueError("type")
    return self.variable_type_dict[data_type]
''',
    "is_var_of_type": '''
def spec(self, var, data_type):
    if data_type not in self.PERMISSIBLE_TYPES:
        raise ValueError("type")
    return var in self.variable_type_dict[data_type]
''',
    "get_categorical_indices": '''
def spec(self):
    return [self.var_indices_dict[v] for v in self.variable_type_dict["categorical"]]
''',
    "get_indices": '''
def spec(self, var, squeeze):
    if var in self.variable_list:
        if squeeze and var not in self.variable_type_dict["categorical"]:
            return self.var_indices_dict[var][0]
        return self.var_indices_dict[var]
    if isinstance(var, (list, set)):
        return [i for v in var for i in self.get_indices(v)]
    if hasattr(var, "__next__"):
        return [i for v in var for i in self.get_indices(v)]
    raise ValueError("variable")
''',
    "get_feature_index": '''
def spec(self, feature):
    if feature in self.variable_list and feature not in self.feature_list:
        raise ValueError("feature")
    return self.position[feature]
''',
    "get_feature_names": '''
def spec(self, var):
    if var is None:
        return self.feature_list
    if var not in self.variable_type_dict["categorical"]:
        return var
    return [f for f, o in self.owner.items() if o == var]
''',
    "n_variables": "def spec(self):\n    return len(self.variable_list)\n",
    "n_features": "def spec(self):\n    return len(self.feature_list)\n",
}
SCHEMA = '''
def spec(nodes, default_type, schema):
    types = VariableFeatureMapper.PERMISSIBLE_TYPES
    if not any(t in default_type for t in types):
        raise ValueError("default")
    given = {} if schema is None else schema
    out = {k: given.get(k, default_type) for k in nodes}
    for v in out.values():
        if not any(t in v for t in types):
            raise ValueError("type")
    for k, v in out.items():
        if "categorical" in v and re.match("^categorical:[1-9]+[0-9]*", v) is None:
            raise ValueError("cardinality")
    return out
'''


COUNT = itertools.count()


def flat(t):
    """lists made of lists in one piece"""
    def parts(c):
        if c[0] == "op" and c[1] == "+":
            a, b = parts(c[2]), parts(c[3])
            return a + b if a is not None and b is not None else None
        if c[0] == "seq" and c[1] in ("list", "tuple") and all(e[0] == "em" and e[2][0] == "x" for e in c[2]):
            out = []
            for e in c[2]:
                p = None
                if e[2] == ("x", e[2][1]) and len(e[1]) == 1 and e[1][0][0] == "for" and len(e[1][0]) == 3 and e[2][1] == ("el", e[1][0][1]):
                    p = parts(e[1][0][2])
                out += p if p is not None else [e]
            return out
        if c[0] == "seq" and c[1] == "dict" and all(e[0] == "em" and e[2][0] == "kv" for e in c[2]):
            return [("em", e[1], ("x", e[2][1])) for e in c[2]]
        return None

    def fresh(ctx, v):
        """the loops of a part under names of their own"""
        ids = {c[1] for c in ctx if c[0] == "for"}
        new = {i: ("L", f"part{next(COUNT)}") for i in ids}

        def g(x):
            if x[0] in ("el", "idx") and len(x) == 2 and x[1] in new:
                return (x[0], new[x[1]])
            if x[0] == "for" and len(x) > 1 and x[1] in new:
                return ("for", new[x[1]]) + subst(x[2:], g)
            return None
        return subst(ctx, g), subst(v, g)

    def spread(e):
        """an element per element of a list whose elements are known: one for each of its parts"""
        for n, c in enumerate(e[1]):
            if c[0] == "for" and len(c) == 3:
                p = parts(c[2])
                if p is not None and not contains(("_", e[2], e[1][n + 1:]), lambda y: y == ("idx", c[1])):
                    out = []
                    for q in p:
                        ctx, v = fresh(q[1], q[2][1])
                        to = lambda y: v if y == ("el", c[1]) else None
                        out += spread(("em", e[1][:n] + ctx + subst(e[1][n + 1:], to), subst(e[2], to)))
                    return out
        return [e]

    def f(x):
        if x[0] == "seq" and x[1] in ("list", "dict", "set") or x[0] == "op" and x[1] == "+":
            p = parts(x) if x[0] == "op" or x[1] == "list" else None
            y = ("seq", "list", tuple(p)) if p is not None else x
            if y[0] == "seq":
                y = y[:2] + (tuple(q for e in y[2] for q in (spread(e) if e[0] == "em" and len(e) == 3 else [e])),)
            if y != x:
                return subst(y, f)
        return None
    return subst(t, f)


def apart(t):
    """loops under names no other analysis uses"""
    n = next(COUNT)

    def f(x):
        if x[0] in ("el", "idx") and len(x) == 2 and isinstance(x[1], int):
            return (x[0], ("L", f"at{n}_{x[1]}"))
        if x[0] == "for" and len(x) > 1 and isinstance(x[1], int):
            return ("for", ("L", f"at{n}_{x[1]}")) + subst(x[2:], f)
        return None
    return subst(t, f)


def spelled(R):
    w = words(R)
    kinds4 = {("x", const(k)) for k in ("binary", "categorical", "continuous", "count")}

    def f(x):
        if x[0] == "seq" and x[1] in ("set", "tuple", "list") and {y[2] for y in x[2] if y[1] == ()} == kinds4:
            return P("types")
        if x[0] == "a" and x[2] == "PERMISSIBLE_TYPES" or x[0] == "g" and x[1].endswith(".PERMISSIBLE_TYPES"):
            return P("types")
        if x[0] == "in" and x[1][0] == "c" and f(x[2]) == P("types"):
            return T if ("x", x[1]) in kinds4 else F
        if x[0] == "a" and x[2] == "EXPANDABLE_TYPE" or x[0] == "g" and x[1].endswith(".EXPANDABLE_TYPE"):
            return const("categorical")
        return None
    return lambda t: cases(flat(subst(w(t), f)))


def tree(f):
    """one form for equivalent conditions: what follows from each answer, atoms in one order"""
    from sa.terms import atoms
    ats = sorted(atoms(f), key=lambda a: repr(alpha(a)))
    if len(ats) < 2 or len(ats) > 8:
        return f

    def go(f, i):
        if f in (T, F):
            return f
        if i == len(ats):
            return f
        a = ats[i]
        y, n = go(assume(f, a, True), i + 1), go(assume(f, a, False), i + 1)
        return y if y == n else mk_or(mk_and(a, y), mk_and(mk_not(a), n))
    return go(f, 0)


def assume(f, a, v):
    """the formula where its atom is known"""
    if f == a:
        return T if v else F
    if f[0] == "not":
        return mk_not(assume(f[1], a, v))
    if f[0] in ("and", "or"):
        return (mk_and if f[0] == "and" else mk_or)(*[assume(y, a, v) for y in f[1:]])
    return f


def cases(t):
    """look-ups with a default as conditional values; one condition per two values"""
    def f(x):
        if x[0] == "if" and len(x) == 2:
            return ("if", tree(cases(x[1])))
        if x[0] == "get" and len(x) == 4:
            m, k, d = (cases(y) for y in x[1:])
            if m == ("seq", "dict", ()):
                return d
            x = ("ite", ("in", k, m), ("i", m, k), d)
        elif x[0] == "ite" and len(x) == 4:
            x = ("ite",) + tuple(cases(y) for y in x[1:])
        elif x[0] in ("in", "==", "is") and len(x) == 3:
            a, b = cases(x[1]), cases(x[2])
            for t, put in ((a, lambda z: (x[0], z, b)), (b, lambda z: (x[0], a, z))):
                if t[0] == "ite":
                    return mk_or(mk_and(t[1], cases(put(t[2]))), mk_and(mk_not(t[1]), cases(put(t[3]))))
            return (x[0], a, b)
        else:
            return None
        _, c, a, b = x
        if a == b:
            return a
        if c[0] == "not":
            c, a, b = c[1], b, a
        if b[0] == "ite" and b[3] == a:
            return f(("ite", mk_and(mk_not(c), b[1]), b[2], a)) if b[2][0] == "ite" else ("ite", mk_and(mk_not(c), b[1]), b[2], a)
        if b[0] == "ite" and b[2] == a:
            return ("ite", mk_or(c, b[1]), a, b[3])
        if a[0] == "ite" and a[3] == b:
            return ("ite", mk_and(c, a[1]), a[2], b)
        if a[0] == "ite" and a[2] == b:
            return ("ite", mk_and(c, mk_not(a[1])), a[3], b)
        return ("ite", c, a, b)
    return subst(t, f)


def c39(R):
    w = spelled(R)
    r, (s,) = method(R, CV + "validate_schema", SCHEMA)
    r.rewrite = s.rewrite = w
    raises_like(R, "schema", r, [s], what="validate_schema rejects unknown types and categories without number")
    ret = lambda z: sn(z, z.final(z.ret))
    term_like(R, "schema", r.func.where, "validate_schema gives each node its type, or the default", ret(r), [ret(s)], rewrite=w)
    untouched(R, "read-only", r, frozenset({P("nodes"), P("schema")}), "validate_schema changes none of its arguments")
    r, (s,) = method(R, CV + VF + ".__init__", INIT)
    at = [{k: apart(w(sn(z, z.final(v)))) for k, v in attributes(z).items()} for z in (r, s)]
    what = {"feature_list": "features: binary, continuous, count variables, then a feature per category of each categorical one",
            "var_indices_dict": "a variable's indices are the places of its features", "variable_type_dict": "variables by the type of the schema"}
    for k, v in what.items():
        if k not in at[0]:
            R.check(False, "features", r.func.where, v, f"no attribute {k}", unsure=True)
            continue
        term_like(R, "features", r.func.where, v, at[0][k], [at[1][k]])
    untouched(R, "read-only", r, frozenset({P("schema")}), "the mapper does not change the schema")
    for m, text in METHODS.items():
        r, (s,) = method(R, CV + VF + "." + m, text, opaque=(VF + ".get_indices",))

        def meant(z):
            known = at[0] if z is r else at[1]
            return lambda t: w(subst(t, lambda x: known.get(x[2]) if x[0] == "a" and len(x) >= 3 and x[1] == P("self") else None))
        term_like(R, "lookup", r.func.where, f"{m} answers from the features", meant(r)(ret(r)), [meant(s)(ret(s))])
        if s.raises() or r.raises():
            r.rewrite = s.rewrite = None
            res = [raise_conditions(z) for z in (r, s)]
            g, n = [form(alpha(meant(z)(x.get("ValueError", (F,))[0]))) for z, x in zip((r, s), res)]
            R.check(eqv(g, n) is True and set(res[0]) <= set(res[1]), "lookup", r.func.where, f"{m} rejects what it does not know",
                    f"raised if {show(g)[:200]}; required: if {show(n)[:200]}", unsure=imprecise(("_", g)) or bool(novel(g, n)))
        untouched(R, "read-only", r, frozenset({P("self"), P("var"), P("feature")}), f"{m} changes nothing")
    R.floor(24)


def attributes(r):
    """what the object's attributes hold in the end"""
    out = {}
    for e in r.events:
        if e.kind == "setattr" and e.data["obj"] in (P("self"), ("self",)):
            out[e.data["attr"]] = e.data["value"]
    return out


# ------------------------------------------------------------------ wrappers
SEM = ("sem_generator", "nonlinear_sem_generator")
STATIC = {}
for n_, t_ in (("continuous", "continuous"), ("binary", "binary"), ("count", "count"), ("categorical", "categorical")):
    arg_ = "zero_inflation_factor" if n_ == "count" else "distribution"
    std_ = "1" if n_ == "count" else "noise_scale"
    typ_ = '"categorical:{}".format(n_categories)' if n_ == "categorical" else repr(t_)
    sig_ = "sm, n_samples, " + arg_ + (", n_categories" if n_ == "categorical" else "") + ("" if n_ == "count" else ", noise_scale") + ", intercept, seed, kernel"
    body_ = f'''
    if kernel is None:
        df = sem_generator(graph=sm, default_type={typ_}, n_samples=n_samples, distributions={{{n_!r}: {arg_}}}, noise_std={std_}, intercept=intercept, seed=seed)
    else:
        df = nonlinear_sem_generator(graph=sm, kernel=kernel, default_type={typ_}, n_samples=n_samples, distributions={{{n_!r}: {arg_}}}, noise_std={std_},
                                     seed=seed)
'''
    STATIC[f"generate_{n_}_dataframe"] = f"def spec({sig_}):\n" + body_ + "    return df\n"
    if n_ in ("continuous", "binary"):
        STATIC[f"generate_{n_}_data"] = f"def spec({sig_}):\n" + body_ + "    return df[list(sm.nodes)].values\n"


def plain(R):
    """calls of the generators without arguments that say what holds anyway; one spelling of a frame's values"""
    usual = {"schema": NONE, "default_type": const("continuous"), "noise_std": const(1.0), "n_samples": const(1000), "intercept": const(True), "seed": NONE,
             "distributions": NONE}
    w = words(R)

    def f(x):
        if x[0] == "m" and x[2] in ("to_numpy", "as_matrix") and not x[3]:
            return ("a", subst(x[1], f), "values")
        if x[0] == "m" and x[2] in ("nodes", "edges") and not x[3] and not x[4]:
            return ("a", subst(x[1], f), x[2])
        if x[0] == "call" and x[1][0] == "g" and x[1][1].split(".")[-1] in SEM:
            kw = tuple((k, subst(v, f)) for k, v in x[3] if not (k in usual and v[0] == "c" and v[1] == usual[k][1]))
            return x[:3] + (kw,)
        if x[0] == "seq" and x[1] in ("list", "tuple") and len(x[2]) == 1 and len(x[2][0][1]) == 1 and x[2][0][1][0][0] == "for" and \
                x[2][0][2] == ("x", ("el", x[2][0][1][0][1])):
            y = subst(x[2][0][1][0][2], f)
            y = ("a", y, "nodes") if y == P("sm") else y
            if y[0] == "a" and y[2] == "nodes":
                return ("list", y)
        if x[0] == "i" and x[1][0] == "a" and x[1][2] == "loc" and x[2][0] == "tuple" and x[2][1][0] == ("slice", NONE, NONE, NONE):
            return ("i", subst(x[1][1], f), subst(x[2][1][1], f))
        return None
    return lambda t: subst(w(t), f)


def c40(R):
    w = plain(R)
    for n, text in STATIC.items():
        r, (s,) = method(R, WR + n, text, opaque=SEM)
        ret = lambda z: sn(z, z.final(z.ret))
        term_like(R, "asked", r.func.where, f"{n} asks for what its arguments say" + (", columns in the order of the nodes" if n.endswith("data") else ""),
                  ret(r), [ret(s)], rewrite=w)
        untouched(R, "read-only", r, frozenset({P("sm"), P("kernel")}), f"{n} changes none of its arguments")
        if r.raises():
            R.check(False, "asked", r.func.where, f"{n} raises nothing of its own", "", unsure=True)
    R.floor(12)


# ------------------------------------------------------------------ time series
NETWORK = '''
def spec(num_nodes, p, degree_intra, degree_inter, graph_type_intra, graph_type_inter, w_min_intra, w_max_intra, w_min_inter, w_max_inter, w_decay):
    intra = generate_structure(num_nodes=num_nodes, degree=degree_intra, graph_type=graph_type_intra, w_min=w_min_intra, w_max=w_max_intra)
    if w_min_inter > w_max_inter:
        raise ValueError("weights")
    if graph_type_inter == "erdos-renyi":
        b = np.random.uniform(size=(p * num_nodes, num_nodes)) < degree_inter / num_nodes
    elif graph_type_inter == "full":
        b = np.ones((p * num_nodes, num_nodes))
    else:
        raise ValueError("type")
    u = []
    for i in range(p):
        w = np.random.uniform(low=w_min_inter, high=w_max_inter, size=(num_nodes, num_nodes)) / w_decay ** i
        w[np.random.uniform(size=(num_nodes, num_nodes)) < 0.5] *= -1
        u.append(w)
    u = np.concatenate(u, axis=0) if u else np.empty(b.shape)
    df = pd.DataFrame((b != 0) * u, index=["{}_lag{}".format(v, k) for k in range(1, p + 1) for v in range(num_nodes)],
                      columns=["{}_lag{}".format(v, 0) for v in range(num_nodes)])
    rows, cols = list(df.index), list(df.columns)
    for i in rows:
        df[i] = 0
    for i in cols:
        df.loc[i, :] = 0
    inter = StructureModel(df)
    out = StructureModel()
    out.add_nodes_from(inter.nodes)
    out.add_nodes_from(["{}_lag0".format(v) for v in intra.nodes])
    out.add_weighted_edges_from(inter.edges.data("weight"))
    out.add_weighted_edges_from([("{}_lag0".format(s), "{}_lag0".format(e), x) for s, e, x in intra.edges.data("weight")])
    return out
'''
SERIES = '''
def spec(g, n_samples, burn_in, sem_type, noise_scale, drift):
    if sem_type not in ("linear-gauss", "linear-exp", "linear-gumbel"):
        raise ValueError("sem")
    now = sorted(v for v in g.nodes if "_lag0" in v)
    before = sorted((v for v in g.nodes if "_lag0" not in v), key=lambda el: (int(el.rsplit("_lag", 1)[1]), el))
    w = nx.to_numpy_array(g, nodelist=now)
    a = nx.to_numpy_array(g, nodelist=now + before)[len(now):, :len(now)]
    intra = nx.DiGraph(w)
    inter = nx.bipartite.from_biadjacency_matrix(csr_matrix(a), create_using=nx.DiGraph)
    d = w.shape[0]
    p = a.shape[0] // d
    x = np.zeros((n_samples + burn_in, d))
    lags = np.zeros((n_samples + burn_in, p * d))
    order = list(nx.topological_sort(intra))
    shift = np.zeros(d) if drift is None else drift
    for t in range(n_samples + burn_in):
        for j in order:
            pa = list(intra.predecessors(j))
            pb = list(inter.predecessors(j + p * d))
            x[t, j] = shift[j] + x[t, pa].dot(w[pa, j]) + lags[t, pb].dot(a[pb, j])
            if sem_type == "linear-gauss":
                x[t, j] = x[t, j] + np.random.normal(scale=noise_scale)
            elif sem_type == "linear-exp":
                x[t, j] = x[t, j] + np.random.exponential(scale=noise_scale)
            elif sem_type == "linear-gumbel":
                x[t, j] = x[t, j] + np.random.gumbel(scale=noise_scale)
        if t + 1 < n_samples + burn_in:
            lags[t + 1, :] = np.concatenate([x[t, :], lags[t, :]])[: d * p]
    return pd.concat([pd.DataFrame(x[-n_samples:], columns=now), pd.DataFrame(lags[-n_samples:], columns=before)], axis=1)
'''
GROWN = ("add_nodes_from", "add_node", "add_edges_from", "add_edge", "add_weighted_edges_from")


def c41(R):
    with distinct(*OTHER_WORDS):
        series(R)
    stationary(R)
    R.floor(22)


def series(R):
    whole(R, WR + "generate_structure_dynamic", NETWORK, "every node of every lag, edges from lagged nodes to present ones and among the present ones, weights within the "
          "bounds, decaying with the lag", opaque=("generate_structure", "StructureModel.__init__", "StructureModel.add_weighted_edges_from"), grown=True)
    whole(R, WR + "generate_dataframe_dynamic", SERIES, "each value is its drift, its parents' weighted values of the moment and of the lags before, and noise",
          roots=frozenset({P("g"), P("drift")}))


def stationary(R):
    """what the trials ask for, and what is made of them"""
    q = "gen_stationary_dyn_net_and_df"
    r = R.run(WR + q, opaque=("generate_structure_dynamic", "generate_dataframe_dynamic"))
    W = words(R)
    w = lambda t: flip(W(sn(r, t)))
    named = lambda e, n: e.kind == "call" and e.data["fn"][0] == "g" and e.data["fn"][1].endswith("." + n)
    where = lambda e: e.where if e else r.func.where

    def asks(n, args, rule="trials", alias=None):
        es = [e for e in r.events if named(e, n)]
        if not es:
            R.check(False, rule, r.func.where, f"{q} calls {n}", "no call", unsure=True)
        for e in es:
            got = {k: w(v) for k, v in e.data["args"].items()}
            bad = [k for k, v in args.items() if got.get(k) != v]
            R.check(not bad, rule, e.where, f"{q} asks {n} for what its arguments say", f"{[(k, show(got[k])[:80] if k in got else 'default') for k in bad]}",
                    unsure=any(imprecise(("_", got[k])) for k in bad if k in got))
        return es
    asks("generate_structure_dynamic", {k: P(k) for k in ("num_nodes", "p", "degree_intra", "degree_inter", "graph_type_intra", "graph_type_inter",
                                                          "w_min_intra", "w_max_intra", "w_min_inter", "w_max_inter", "w_decay")})
    made = asks("generate_dataframe_dynamic", {"sem_type": P("sem_type"), "noise_scale": P("noise_scale")})
    for e in made:
        # rows asked for, rows kept
        ns = w(e.data["args"].get("n_samples", NONE))
        cut = []
        for t in walk(w(r.final(r.ret))):
            if t[0] == "i" and t[1][0] == "a" and t[1][2] in ("loc", "iloc") and contains(t[1][1], lambda x: x[0] == "call" and x[1] == e.data["fn"]):
                k = t[2][1][0] if t[2][0] == "tuple" and t[2][1] else t[2]
                if k[0] == "slice":
                    cut.append((k, t[2]))
        last = ("neg", P("n_samples"))
        ok = bool(cut) and all(k[2] == NONE and k[3] == NONE and (ns == flip(("op", "+", P("n_samples"), k[1])) or k[1] in (last, ("op",) + last)) for k, _ in cut)
        R.check(ok, "rows", e.where, f"{q} keeps n_samples of the rows it asks for, after the burn-in", f"asks for {show(ns)[:120]} rows, keeps "
                f"{[show(k)[:120] for k, _ in cut[:1]]}", unsure=not cut or any(imprecise(("_", ns, k)) or novel(("_", ns, k)) for k, _ in cut))
        g = w(e.data["args"].get("g", NONE))
        R.check(contains(g, made_net), "rows", e.where, f"{q} simulates the network it made", show(g)[:160], unsure=imprecise(("_", g)))
    # the four results
    t = w(r.final(r.ret))
    parts = t[1] if t[0] == "tuple" and len(t[1]) == 4 else None
    R.check(parts is not None, "results", r.func.where, f"{q} returns network, data and both lists of names", show(t)[:100], unsure=t[0] != "tuple")
    if parts is not None:
        shared = lambda x: contains(x, lambda y: y[0] == "seq") and contains(x, lambda y: y == ("c", "_lag0", "str"))
        R.check(contains(parts[0], made_net) and not shared(parts[0]), "results", r.func.where, f"{q}: the first result is the network made", show(parts[0])[:160],
                unsure=not contains(parts[0], made_net))
        R.check(contains(parts[1], made_data), "results", r.func.where, f"{q}: the second result is the data made", show(parts[1])[:160], unsure=True)
        for n, k in ((2, True), (3, False)):
            ns = [x for x in walk(parts[n]) if x[0] == "in" and x[1] == ("c", "_lag0", "str")]
            neg = [x for x in walk(parts[n]) if x[0] == "not" and x[1] in ns]
            R.check(bool(ns) and (not neg if k else bool(neg)), "results", r.func.where, f"{q}: the {'third' if k else 'last'} result names the nodes "
                    f"{'of the moment' if k else 'of the lags'}", show(parts[n])[:160], unsure=not ns)
        cols = [x[2][1][1] for x in walk(parts[1]) if x[0] == "i" and x[1][0] == "a" and x[1][2] == "loc" and x[2][0] == "tuple" and len(x[2][1]) == 2]
        lag = lambda x: [y for y in walk(x) if y[0] == "in" and y[1] == ("c", "_lag0", "str")]
        for c in cols[:1]:
            both = c[0] == "op" and c[1] == "+" and len(c) == 4 and lag(c[2]) and lag(c[3])
            ok = both and not any(contains(c[2], lambda z, y=y: z == ("not", y)) for y in lag(c[2])) and all(contains(c[3], lambda z, y=y: z == ("not", y)) for y in lag(c[3]))
            R.check(ok, "rows", r.func.where, f"{q} orders the columns: the moment first, then the lags", show(c)[:160], unsure=not both)
    # the trials end: the number left goes down by one every time
    n = P("max_data_gen_trials")
    outer = [(L, i["carried"]["max_data_gen_trials"]) for L, i in r.interp.loops.items() if i["kind"] == "while" and "max_data_gen_trials" in i.get("carried", {})]
    for L, (a, b) in outer:
        b = w(b)
        R.check(b == ("op", "-", ("lv", L, "max_data_gen_trials"), ("c", 1, "int")), "trials", r.func.where, f"{q}: each trial uses up one of max_data_gen_trials",
                show(b)[:160], unsure=imprecise(("_", b)) and b[0] != "ite")
    if not outer:
        others = [i for i in r.interp.loops.values() if i["kind"] != "while" and i.get("coll") is not None and contains(w(i["coll"]), lambda x: x == n)]
        R.check(False, "trials", r.func.where, f"{q}: each trial uses up one of max_data_gen_trials", "no loop counts them", unsure=bool(others))
    # without a trial left, a constant frame and a warning
    shape = flip(("tuple", (P("n_samples"), ("op", "*", P("num_nodes"), ("op", "+", P("p"), ("c", 1, "int"))))))
    for k, e in (("frame", [e for e in r.events if named(e, "ones")]), ("warning", [e for e in r.events if named(e, "warn")])):
        conds_ = [c for x in e for c in (mk_and(*[y[1] for y in nctx(r, x) if y[0] == "if"]),)]
        left = [c for c in conds_ if c[0] == "not" and c[1][0] in ("<",) and c[1][1] == ("c", 0, "int") and contains(c, lambda x: x == n)]
        R.check(bool(left), "given-up", where(e[0] if e else None), f"{q}: the {k} for data that could not be made comes when no trial is left, and only then",
                f"{[show(c)[:160] for c in conds_]}", unsure=not e or any(c != T and not contains(c, lambda x: x == n) or imprecise(("_", c)) for c in conds_))
    for e in [e for e in r.events if named(e, "ones")]:
        sh = w(e.data["term"])
        sh = flip(sh[2][0] if sh[2] else dict(sh[3]).get("shape", NONE))
        R.check(same(sh, shape), "given-up", e.where, f"{q}: the constant frame has a row per sample and a column per node and lag", show(sh)[:160],
                unsure=imprecise(("_", sh)) or bool(novel(sh, shape)))
    # numbers that overflow end a trial
    es = [e for e in r.events if named(e, "errstate")]
    kw = {k: v for e in es for k, v in w(e.data["term"])[3]}
    ok = kw.get("all") == const("raise") or all(kw.get(k) == const("raise") for k in ("over", "invalid"))
    R.check(ok, "trials", where(es[0] if es else None), f"{q} ends a trial whose numbers overflow", f"{ {k: show(v) for k, v in kw.items()} }", unsure=not es)
    return r


def made_net(x):
    return x[0] == "call" and x[1][0] == "g" and x[1][1].endswith(".generate_structure_dynamic")


def made_data(x):
    return x[0] == "call" and x[1][0] == "g" and x[1][1].endswith(".generate_dataframe_dynamic")


SPECS = {"lin": (GEN + "sem_generator", LINEAR), "non": (GEN + "nonlinear_sem_generator", BRACE(NONLINEAR))}
CHECKS = {"C37": (c37, ""), "C38": (c38, ""), "C39": (c39, ""), "C40": (c40, ""), "C41": (c41, "")}
