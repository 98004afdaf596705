"""Progress of condition-controlled loops: path enumeration over the loop body."""
import ast
import copy

MAXPATHS = 4000
GROW = {"append", "add", "insert", "extend", "update", "setdefault", "appendleft"}
SHRINK = {"pop", "remove", "discard", "clear", "popitem", "popleft", "remove_node", "remove_edge", "remove_edges_below_threshold",
          "remove_edges_from", "remove_nodes_from"}


class TooMany(Exception):
    pass


def paths(stmts):
    """[(steps, outcome)]: steps are statements and ('assume', test, bool); outcome next/continue/break/return/raise"""
    out = [((), "next")]
    for i, s in enumerate(stmts):
        if i and isinstance(s, ast.If):
            s = named(stmts[i - 1], s)
        new = []
        for steps, oc in out:
            if oc != "next":
                new.append((steps, oc))
                continue
            for st2, oc2 in stmt_paths(s):
                new.append((steps + st2, oc2))
        out = new
        if len(out) > MAXPATHS:
            raise TooMany
    return out


def named(before, s):
    """a condition that was given a name just before stands for itself"""
    to = before.targets[0] if isinstance(before, ast.Assign) and len(before.targets) == 1 else before.target if isinstance(before, ast.AnnAssign) and before.value is not None else None
    if isinstance(to, ast.Name):
        v = to.id
        if v in {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)} and v not in {x.id for x in ast.walk(before.value) if isinstance(x, ast.Name)} \
                and isinstance(before.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)):

            class S(ast.NodeTransformer):
                def visit_Name(self, n):
                    return before.value if n.id == v else n
            t = ast.If(S().visit(copy.deepcopy(s.test)), s.body, s.orelse)
            return ast.copy_location(t, s)
    return s


def stmt_paths(s):
    if isinstance(s, ast.If):
        return [((("assume", s.test, True),) + p, o) for p, o in paths(s.body)] + \
               [((("assume", s.test, False),) + p, o) for p, o in paths(s.orelse)]
    if isinstance(s, (ast.For, ast.While)):
        res = [((("skip", s, True),), "next")] if not (isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value) else []
        for p, o in paths(s.body):
            if o in ("next", "continue", "break"):
                res.append(((("loop", s, True),) + p, "next"))
            else:
                res.append((p, o))
        return res
    if isinstance(s, ast.With):
        return [(((s,) + p), o) for p, o in paths(s.body)]
    if isinstance(s, ast.Try):
        res = list(paths(s.body + s.orelse))
        for h in s.handlers:
            res += [((("except", h, True),) + p, o) for p, o in paths(h.body)]
        if s.finalbody:
            fin = paths(s.finalbody)
            res = [(p + q, o2 if o2 != "next" else o) for p, o in res for q, o2 in fin]
        return res
    if isinstance(s, ast.Break):
        return [((), "break")]
    if isinstance(s, ast.Continue):
        return [((), "continue")]
    if isinstance(s, ast.Return):
        return [((s,), "return")]
    if isinstance(s, ast.Raise):
        return [((s,), "raise")]
    return [((s,), "next")]


def dump(e):
    return ast.dump(e)


def positive(e):
    return isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and e.value > 0


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def len_of(e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1:
        return e.args[0]
    return None


class Variant:
    """something that has to move on every repetition"""

    def __init__(self, kind, expr, up=None, bounddir=None):
        self.kind, self.expr, self.up = kind, expr, up
        self.key = dump(expr) if isinstance(expr, ast.AST) else expr

    def text(self):
        return {"num": "counter", "len": "size of", "flag": "flag", "dag": "edges of"}[self.kind] + " " + ast.unparse(self.expr)

    def step(self, s):
        """True: progress; False: nothing to do with it; None: touched in an unrecognised way"""
        k = self.key
        res = False
        if isinstance(s, tuple):
            if s[0] == "assume":
                # snapshot comparison: len(x) == n_before is False here
                if self.kind == "len" and isinstance(s[1], ast.Compare) and len(s[1].ops) == 1:
                    l, r = s[1].left, s[1].comparators[0]
                    op = s[1].ops[0]
                    lens = [x for x in (l, r) if len_of(x) is not None and dump(len_of(x)) == k]
                    if lens:
                        if isinstance(op, ast.Eq) and not s[2] or isinstance(op, ast.NotEq) and s[2] or \
                                isinstance(op, (ast.Gt, ast.Lt)) and s[2]:
                            return True
                s = ast.Expr(s[1])
            else:
                return False
        for n in ast.walk(s):
            if isinstance(n, ast.AugAssign) and dump_load(n.target) == k:
                if self.kind == "num":
                    good = {True: (ast.Add, ast.Mult), False: (ast.Sub, ast.Div, ast.FloorDiv)}[self.up]
                    if isinstance(n.op, good) and (positive(n.value) or not isinstance(n.value, (ast.Constant, ast.UnaryOp))):
                        if isinstance(n.op, ast.Mult) and isinstance(n.value, ast.Constant) and n.value.value <= 1:
                            continue
                        return True
                    continue
                if self.kind == "len":
                    if isinstance(n.op, ast.Add) and self.up:
                        return True
                res = None
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    for u in ast.walk(t):
                        if isinstance(u, ast.Subscript) and dump_load(u.value) == k and self.kind == "len" and self.up:
                            return True
                        if isinstance(u, (ast.Name, ast.Attribute)) and dump_load(u) == k and isinstance(getattr(u, "ctx", None), ast.Store):
                            if self.kind == "flag":
                                v = n.value
                                if isinstance(v, ast.Constant):
                                    if bool(v.value) != self.up:
                                        continue
                                    return True
                                return None
                            v = n.value
                            if self.kind == "num" and isinstance(v, ast.BinOp) and dump(v.left) == k:
                                good = {True: (ast.Add, ast.Mult), False: (ast.Sub, ast.Div, ast.FloorDiv)}[self.up]
                                if isinstance(v.op, good) and positive(v.right):
                                    return True
                            if self.kind == "num" and isinstance(v, ast.BinOp) and dump(v.right) == k and self.up and \
                                    isinstance(v.op, (ast.Add, ast.Mult)) and positive(v.left):
                                return True
                            res = None
            elif isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute):
                    recv = dump(f.value)
                    if recv == k and self.kind in ("len", "dag"):
                        if f.attr in (GROW if self.up else SHRINK):
                            return True
                        if f.attr in GROW | SHRINK:
                            continue
                        if self.kind == "dag":
                            if f.attr not in ("edges", "nodes", "has_edge", "number_of_edges"):
                                res = None
                        elif f.attr not in ("items", "keys", "values", "get", "copy", "index", "count"):
                            res = None
                for a in list(n.args) + [x.value for x in n.keywords]:
                    if isinstance(a, ast.Starred):
                        a = a.value
                    if dump(a) == k and self.kind in ("len", "dag"):
                        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
                        if self.kind == "len" and nm in ("heappush",) and self.up or nm in ("heappop",) and not self.up:
                            return True
                        if nm not in ("len", "list", "dict", "set", "sorted", "tuple", "enumerate", "zip", "range", "min", "max",
                                      "combinations", "isinstance", "is_directed_acyclic_graph", "sum", "any", "all"):
                            res = None
        return res


def dump_load(t):
    import copy
    t2 = copy.deepcopy(t)
    for n in ast.walk(t2):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return dump(t2)


def conjs(e, neg=False):
    """conjuncts of e (or of not e) as (expr, negated)"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return conjs(e.operand, not neg)
    if isinstance(e, ast.BoolOp) and (isinstance(e.op, ast.And) != neg):
        return [y for x in e.values for y in conjs(x, neg)]
    return [(e, neg)]


def variants(expr, neg, env):
    """variants whose movement eventually falsifies the conjunct"""
    out = []
    if isinstance(expr, ast.Compare) and len(expr.ops) == 1:
        l, op, r = expr.left, expr.ops[0], expr.comparators[0]
        if neg:
            op = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(type(op), type(op))()
        ups = {ast.Lt: (True, False), ast.LtE: (True, False), ast.Gt: (False, True), ast.GtE: (False, True)}.get(type(op))
        if ups is None and isinstance(op, ast.NotEq):
            ups = (True, False)
            if isinstance(r, ast.Constant) and r.value == 0:
                ups = (False, True)
        if ups:
            for e, up in ((l, ups[0]), (r, ups[1])):
                x = len_of(e)
                if x is not None:
                    out.append(Variant("len", x, up))
                elif isinstance(e, ast.Name):
                    out.append(Variant("num", e, up))
                elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("max", "min", "sum"):
                    out.append(Variant("num", e.func.value, up))
    elif isinstance(expr, ast.Call):
        nm = expr.func.attr if isinstance(expr.func, ast.Attribute) else getattr(expr.func, "id", "")
        if nm == "is_directed_acyclic_graph" and neg and expr.args:
            out.append(Variant("dag", expr.args[0], False))
        elif nm == "len" and not neg:
            out.append(Variant("len", expr.args[0], False))
    elif isinstance(expr, (ast.Name, ast.Attribute)):
        out.append(Variant("flag", expr, not neg and False))
        if not neg:
            out.append(Variant("len", expr, False))
            # container derived from another container earlier in the body
            for d in env.get(dump(expr), []):
                out.append(Variant("len", d, False))
    return out


def derived(body):
    """name -> containers it is rebuilt from in the body"""
    env = {}
    for s in body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            src = []
            for n in ast.walk(s.value):
                if isinstance(n, ast.comprehension):
                    src.append(n.iter)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "set", "sorted", "len") and n.args:
                    src.append(n.args[0])
            env[dump(ast.Name(s.targets[0].id, ast.Load()))] = src
    return env


def check_loop(node):
    """-> (verdict, description, message)"""
    endless = isinstance(node, ast.For) or (isinstance(node.test, ast.Constant) and bool(node.test.value))
    try:
        ps = paths(node.body)
    except TooMany:
        return None, "too many paths", ""
    again = [p for p, o in ps if o in ("next", "continue")]
    env = derived(node.body)
    tests = []
    if endless:
        # exits: if G: break/return/raise at the top level of the body
        for s in node.body:
            if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Break, ast.Return, ast.Raise)):
                tests += [(e, n) for e, n in conjs(s.test, True)]
        leaves = [1 for p, o in ps if o in ("break", "return", "raise")]
        if not leaves:
            return False, "endless loop", "no path leaves the loop"
        if not tests:
            # conditional exits elsewhere
            return None, "endless loop with nested exits", ""
    else:
        tests = conjs(node.test)
    best = None
    for e, neg in tests:
        for v in variants(e, neg, env):
            bad, unsure, moved = [], False, False
            for p in again:
                st = [v.step(x) for x in p]
                if True in st:
                    moved = True
                    continue
                if None in st:
                    unsure = True
                    continue
                out = falsified(p, tests)
                if out or searched(p, v):
                    continue
                if out is None:
                    unsure = True
                    continue
                bad.append(p)
            if not bad and not unsure and (moved or not again):
                return True, v.text(), ""
            rank = (not moved, bool(bad))
            if best is None or rank < best[0]:
                best = (rank, v, bad, unsure, moved)
    if best is None:
        return None, "no recognised variant", ""
    _, v, bad, unsure, moved = best
    if unsure:
        return None, v.text(), "changed in an unrecognised way"
    p = bad[0] if bad else ()
    trail = " -> ".join((("" if x[2] else "not ") + ast.unparse(x[1]) if x[0] == "assume" else x[0]) if isinstance(x, tuple) else
                        f"line {x.lineno}" for x in p)
    return False, v.text(), f"a path repeats the loop without moving it: {trail[:200]}"


def searched(p, v):
    """the path went through an inner search: a for-loop that moves the variant exactly when it breaks (that the search
    succeeds is an obligation of its own, see C11 for the only instance)"""
    for x in p:
        if isinstance(x, tuple) and x[0] in ("skip", "loop") and isinstance(x[1], ast.For):
            hits = [(True in [v.step(y) for y in q], o) for q, o in paths(x[1].body)]
            if any(h for h, _ in hits) and all(h == (o in ("break", "return")) for h, o in hits):
                return True
    return False


NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
SWAP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not",
       ast.In: "in", ast.NotIn: "not in"}
# what a fact about two values says about another comparison of them: the ones it rules out
RULES_OUT = {"<": {">", ">=", "=="}, "<=": {">"}, ">": {"<", "<=", "=="}, ">=": {"<"}, "==": {"<", ">", "!="}, "!=": {"=="}}


def atom(e, neg, env):
    """(left, op, right) in a fixed direction, or (expression, truth)"""
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e, neg = e.operand, not neg
    e = resolve(e, env)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return atom(e, neg, {})
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and OPS.get(type(e.ops[0])) in NEG:
        l, op, r = dump(e.left), OPS[type(e.ops[0])], dump(e.comparators[0])
        op = NEG[op] if neg else op
        return (l, op, r) if l <= r else (r, SWAP[op], l)
    return (dump(e), not neg)


def resolve(e, env):
    """local names replaced by what they were last assigned"""
    import copy

    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            return copy.deepcopy(env[n.id]) if n.id in env and isinstance(n.ctx, ast.Load) else n
    return T().visit(copy.deepcopy(e)) if env else e


def arith(e):
    """a comparison of numbers held in names"""
    return isinstance(e, ast.Compare) and all(isinstance(n, (ast.Compare, ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop,
                                                             ast.cmpop, ast.expr_context)) for n in ast.walk(e))


def stored(s):
    return {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def plain(e):
    return not any(isinstance(n, (ast.Call, ast.Yield, ast.Await, ast.NamedExpr, ast.Lambda)) for n in ast.walk(e))


def falsified(p, tests, outer=None):
    """the path established the negation of a disjunct the loop needs; None when it speaks of the same names in another way"""
    env, facts, maybe = dict(outer or {}), [], False
    for x in p:
        if isinstance(x, tuple):
            if x[0] == "assume":
                for e, n in conjs(x[1], not x[2]):
                    e = resolve(e, env)
                    for e2, n2 in conjs(e, n):
                        if isinstance(e2, ast.BoolOp):
                            maybe = maybe or [names(y) for y in e2.values]
                            continue
                        facts.append((atom(e2, n2, {}), names(e2), arith(e2)))
            continue
        gone = stored(x)
        facts = [f for f in facts if not f[1] & gone]
        env = {k: v for k, v in env.items() if k not in gone and not names(v) & gone}
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and plain(x.value) and \
                x.targets[0].id not in names(x.value):
            env[x.targets[0].id] = x.value
    known = [f for f, _, _ in facts]
    unsure = False
    for e, n in tests:
        e = resolve(e, env)
        if n and isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
            ds = [(v, True) for v in e.values]
        else:
            ds = [(v, n) for v in (e.values if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or) else [e])]
        # any disjunct that is ruled out counts: the others are the special values of the first round
        for d, neg in ds:
            a = atom(d, neg, {})
            for f in known:
                if len(a) == 2 and len(f) == 2:
                    if a[0] == f[0] and a[1] != f[1]:
                        return True
                elif len(a) == 3 and len(f) == 3 and a[0] == f[0] and a[2] == f[2]:
                    if a[1] in RULES_OUT[f[1]]:
                        return True
            mine = names(d)
            for f, ns, num in facts:
                same = len(a) == len(f) and a[0] == f[0] and a[-1] == f[-1] if len(a) == 3 else a[0] == f[0]
                if num and mine and mine <= ns and not same:
                    unsure = True
            if maybe and any(mine and mine <= ns for ns in maybe):
                unsure = True
    return None if unsure else False


def unbounded_iter(it):
    t = ast.unparse(it)
    return t.startswith(("itertools.count(", "count(", "itertools.repeat(", "itertools.cycle(", "iter(int")) and "," not in t


def loops_of(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.While) or isinstance(n, ast.For) and unbounded_iter(n.iter):
            yield n


def grown_iteration(fn):
    """for x in C: ... C.append(...) (or remove / add / del) on a path that goes on"""
    for n in ast.walk(fn):
        if not isinstance(n, ast.For):
            continue
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("items", "keys", "values") and not it.args:
            it = it.func.value
        if not isinstance(it, (ast.Name, ast.Attribute)):
            continue
        k = dump(it)
        try:
            ps = paths(n.body)
        except TooMany:
            continue
        for p, o in ps:
            if o not in ("next", "continue"):
                continue
            for s in p:
                if isinstance(s, tuple):
                    continue
                for c in ast.walk(s):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and dump(c.func.value) == k and \
                            c.func.attr in (GROW | SHRINK) - {"update", "setdefault"}:
                        yield n, c
                        break
                    if isinstance(c, ast.Delete) and any(isinstance(t, ast.Subscript) and dump_load(t.value) == k for t in c.targets):
                        yield n, c
                        break
                else:
                    continue
                break
            else:
                continue
            break


SELFTEST = '''
def f(a, n):
    i = 0
    while i < n:
        if a[i]:
            continue
        i += 1
    for x in a:
        a.append(x)
'''

SCOPE = ("causalnex.ebaybbn", "causalnex.structure.notears", "causalnex.structure.dynotears", "causalnex.structure.structuremodel",
         "causalnex.structure.pytorch", "causalnex.structure.transformers", "causalnex.structure.categorical_variable_mapper",
         "causalnex.inference", "causalnex.network", "causalnex.evaluation", "causalnex.discretiser", "causalnex.plots",
         "causalnex.utils")


def c10(R):
    t = ast.parse(SELFTEST).body[0]
    if [check_loop(n)[0] for n in loops_of(t)] != [False] or len(list(grown_iteration(t))) != 1:
        from sa.project import AnalysisError
        raise AnalysisError("loop rule self-test failed")
    n = nf = 0
    for m in R.p.modules.values():
        if not m.name.startswith(SCOPE):
            continue
        funcs = list(m.funcs.values()) + [f for c in m.classes.values() for f in list(c.methods.values()) + list(c.setters.values())]
        for f in funcs:
            R.funcs.add(f.qual)
            R.lines += (f.node.end_lineno or 0) - f.node.lineno
            for w in loops_of(f.node):
                n += 1
                v, d, msg = check_loop(w)
                R.check(v, "progress", f"{m.rel}:{w.lineno}", f"{f.qual}: {d}", msg)
            fors = [x for x in ast.walk(f.node) if isinstance(x, ast.For)]
            nf += len(fors)
            for w, c in grown_iteration(f.node):
                R.bad("grown-while-iterated", f"{m.rel}:{w.lineno}", f"{f.qual}: for over {ast.unparse(w.iter)}",
                      f"{ast.unparse(c)[:80]} changes the collection being iterated")
    R.ok("grown-while-iterated", "causalnex", f"{nf} for-loops iterate collections their bodies leave alone")
    R.floor(2)


CHECKS = {"C10": (c10, "")}
