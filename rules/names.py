"""Repo-wide: code only refers to what exists (names, imports, attributes, signatures, message fields, exception classes)."""
import ast
import builtins
import string
import symtable

MODULE_NAMES = {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__path__", "__loader__", "__builtins__",
                "__dict__", "__class__", "__module__", "__qualname__", "__annotations__"}
PLAIN = {"object", "ABC", "abc.ABC", "Exception", "ValueError", "KeyError", "RuntimeError", "TypeError", "Generic"}


class Tally:
    def __init__(self, R):
        self.R, self.n, self.seen = R, {}, set()

    def ok(self, rule, m):
        self.n[(rule, m.rel)] = self.n.get((rule, m.rel), 0) + 1

    def bad(self, rule, m, node, what, msg):
        self.ok(rule, m)
        k = (rule, m.rel, getattr(node, "lineno", 0), msg)
        if k not in self.seen:
            self.seen.add(k)
            self.R.bad(rule, f"{m.rel}:{getattr(node, 'lineno', 0)}", what, msg)

    def flush(self):
        bad = {(r, f) for r, f, _, _ in self.seen}
        for (rule, rel), n in sorted(self.n.items()):
            if (rule, rel) not in bad:
                self.R.ok(rule, rel, f"{n} {TEXT[rule]}")


TEXT = {"name": "name references resolve", "unbound": "local variables are assigned before their use", "import": "imported project names exist",
        "call": "calls of project functions fit their signatures", "attr": "attributes of self exist", "format": "message templates get their fields",
        "raise": "raised and caught names are exceptions", "value": "functions whose result is used return one"}


# ------------------------------------------------------------------------------------------------ scopes
def scopes(table):
    yield table
    for c in table.get_children():
        yield from scopes(c)


def star(m):
    return any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree))


def dynamic(m):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("exec", "globals", "vars", "locals")
               for n in ast.walk(m.tree))


def names(tl, m, src):
    if star(m) or dynamic(m):
        return set()
    top = symtable.symtable(src, m.rel, "exec")
    known = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    for sc in scopes(top):                  # global statements
        for s in sc.get_symbols():
            if s.is_declared_global() and s.is_assigned():
                known.add(s.get_name())
    missing = {}
    for sc in scopes(top):
        for s in sc.get_symbols():
            n = s.get_name()
            if not s.is_referenced() or n in MODULE_NAMES:
                continue
            if s.is_global() or sc is top:
                if n in known or hasattr(builtins, n):
                    tl.ok("name", m)
                else:
                    missing.setdefault(n, []).append(sc.get_lineno())
            else:
                tl.ok("name", m)
    # anything inside annotations or a NameError handler does not run / is tolerated
    for n, at in missing.items():
        nodes = [x for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load)]
        lazy = annotation_nodes(m) if any(isinstance(x, ast.ImportFrom) and x.module == "__future__" and
                                          any(a.name == "annotations" for a in x.names) for x in m.tree.body) else set()
        nodes = [x for x in nodes if id(x) not in lazy] or ([] if nodes else [None])
        for x in nodes[:1]:
            tl.bad("name", m, x, "every name resolves to a definition", f"{n} is not defined anywhere")
    return known


def annotation_nodes(m):
    out = set()
    for f in ast.walk(m.tree):
        anns = []
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = f.args
            anns = [x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg] if x is not None] + [f.returns]
        elif isinstance(f, ast.AnnAssign):
            anns = [f.annotation]
        for a in anns:
            if a is not None:
                out |= {id(x) for x in ast.walk(a)}
    return out


class Unbound:
    """uses of a local variable that no path to the use has assigned (on every path the use fails)"""

    def __init__(self, fn):
        self.fn, self.out, self.n = fn, [], 0
        a = fn.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        self.outer = set()
        self.local = set()
        for x in own(fn):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                self.outer |= set(x.names)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                self.local.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn:
                self.local.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                self.local |= {(y.asname or y.name).split(".")[0] for y in x.names}
            elif isinstance(x, ast.ExceptHandler) and x.name:
                self.local.add(x.name)
        self.local -= self.params | self.outer

    def run(self):
        self.block(self.fn.body, set())
        return self.out

    def expr(self, e, have):
        if e is None:
            return have
        for x in evaluated(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.local:
                self.n += 1
                if x.id not in have and have is not None and not any(x.id == y for y in named(e)):
                    self.out.append(x)
        return have | set(named(e))

    def block(self, body, have):
        """names that may be assigned after the block; None when it never ends normally"""
        for s in body:
            if have is None:
                return None
            have = self.stmt(s, have)
        return have

    def join(self, *xs):
        xs = [x for x in xs if x is not None]
        return set().union(*xs) if xs else None

    def stmt(self, s, have):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return have | {s.name}
        if isinstance(s, ast.If):
            have = self.expr(s.test, have)
            return self.join(self.block(s.body, set(have)), self.block(s.orelse, set(have)))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            have = self.expr(s.iter, have)
            inner = have | stores(s)
            self.target(s.target, inner)
            self.block(s.body, set(inner))
            self.block(s.orelse, set(inner))
            return inner
        if isinstance(s, ast.While):
            self.expr(s.test, set(have))
            inner = have | stores(s)
            self.block(s.body, set(inner) if not isinstance(s.test, ast.Constant) else set(inner))
            self.block(s.orelse, set(inner))
            return inner
        if isinstance(s, ast.Try):
            after = have | set().union(*[stores(x) for x in s.body]) if s.body else have
            b = self.block(s.body, set(have))
            outs = [self.block(s.orelse, set(b)) if b is not None else None]
            for h in s.handlers:
                outs.append(self.block(h.body, set(after) | ({h.name} if h.name else set())))
            j = self.join(*outs)
            f = self.block(s.finalbody, set(after) | (j or set()))
            return None if j is None or f is None else self.join(j, f)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                have = self.expr(i.context_expr, have)
                if i.optional_vars is not None:
                    have = have | stores(i.optional_vars)
            after = have | set().union(*[stores(x) for x in s.body])
            self.block(s.body, set(have))
            return after
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, have)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    have = have - {t.id}
                else:
                    self.expr(t, have)
            return have
        if isinstance(s, ast.Assign):
            have = self.expr(s.value, have)
            for t in s.targets:
                self.target(t, have)
            return have | stores(s)
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id in self.local and s.target.id not in have:
                self.out.append(s.target)
            have = self.expr(s.value, have)
            self.target(s.target, have)
            return have | stores(s)
        if isinstance(s, ast.AnnAssign):
            have = self.expr(s.value, have)
            return have | (stores(s) if s.value is not None else set())
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return have | {(y.asname or y.name).split(".")[0] for y in s.names}
        if type(s).__name__ == "Match":
            return have | stores(s)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                have = self.expr(c, have)
        return have

    def target(self, t, have):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.expr(x, have)


def own(fn):
    """nodes of fn itself, not of functions, classes or comprehensions within it"""
    todo = [fn]
    while todo:
        x = todo.pop()
        yield x
        if x is not fn and isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp,
                                          ast.DictComp, ast.GeneratorExp)):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                todo += [y for y in ast.walk(x) if isinstance(y, ast.NamedExpr)]
            continue
        todo += list(ast.iter_child_nodes(x))


def evaluated(e):
    """expression nodes evaluated right away, except variables bound by a comprehension of their own"""
    def go(x, bound):
        if isinstance(x, ast.Lambda):
            for d in x.args.defaults + [k for k in x.args.kw_defaults if k is not None]:
                yield from go(d, bound)
            return
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            b = set(bound)
            for g in x.generators:
                yield from go(g.iter, b)
                b |= stores(g.target)
                for i in g.ifs:
                    yield from go(i, b)
            for p in ([x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt]):
                yield from go(p, b)
            return
        if isinstance(x, ast.Name) and x.id in bound:
            return
        yield x
        for c in ast.iter_child_nodes(x):
            yield from go(c, bound)
    yield from go(e, set())


def named(e):
    return [x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)]


def stores(n):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(y.asname or y.name).split(".")[0] for y in x.names}
        elif type(x).__name__ in ("MatchAs", "MatchStar") and getattr(x, "name", None):
            out.add(x.name)
    return out


# ------------------------------------------------------------------------------------------------ signatures
def binds(fn, call, drop):
    """None when the call fits the function, else what is wrong"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][drop:]
    ponly = {x.arg for x in a.posonlyargs}
    kwo = [x.arg for x in a.kwonlyargs]
    nd = len(a.defaults)
    req = pos[:len(pos) - nd] if nd <= len(pos) else []
    reqk = [k for k, d in zip(kwo, a.kw_defaults) if d is None]
    stars = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    kws = [k.arg for k in call.keywords if k.arg is not None]
    if not a.vararg and npos > len(pos):
        return f"takes {len(pos)} positional arguments, {npos} given"
    for k in kws:
        if (k not in pos or k in ponly) and k not in kwo and not a.kwarg:
            return f"has no argument {k}"
        if k in pos[:npos] and k not in ponly:
            return f"argument {k} given twice"
    if len(set(kws)) != len(kws):
        return "an argument is given twice"
    if not stars and not dstar:
        miss = [p for p in req[npos:] if p not in kws] + [k for k in reqk if k not in kws]
        if miss:
            return f"argument {miss[0]} missing"
    return None


OKDEC = ("staticmethod", "classmethod", "property", "abstractmethod", "abc.abstractmethod", "abstractproperty")


class Resolver:
    def __init__(self, p):
        self.p = p

    def linear(self, c):
        return self.p.mro(c)

    def external(self, c):
        """bases outside the project that could add attributes"""
        out = []
        for k in self.linear(c):
            for b in k.node.bases:
                r = self.p.resolve(k.module, ast.unparse(b).split(".")[0])
                if r is None or r[0] in ("lib", "module") and not self.is_project(k, b):
                    if ast.unparse(b) not in PLAIN and not (r and r[0] == "lib" and r[1] in ("abc.ABC", "typing.Generic")):
                        out.append(ast.unparse(b))
                elif r[0] == "builtin" and r[1] not in PLAIN:
                    out.append(r[1])
            if any(x.arg == "metaclass" and ast.unparse(x.value) not in ("ABCMeta", "abc.ABCMeta") for x in k.node.keywords):
                out.append("metaclass")
        return out

    def is_project(self, k, b):
        return any(r[0] == "class" and r[1].name == ast.unparse(b).split(".")[-1] for r in self.p.bases(k))

    def after(self, cls, here, name):
        """the method super() finds; None when an outside class may come first or provide it"""
        lin = self.linear(cls)
        for k in lin[1:]:
            if name in k.methods:
                return k.methods[name]
        return None

    def callee(self, m, cls, fn, shadow, call):
        """(function, arguments already bound) of a call, None when not certain"""
        f = call.func
        if isinstance(f, ast.Name):
            if f.id in shadow:
                return None
            return self.of(self.p.resolve(m, f.id))
        if not isinstance(f, ast.Attribute):
            return None
        v = f.value
        if isinstance(v, ast.Name) and cls is not None and fn.args.args and v.id == fn.args.args[0].arg and v.id in ("self", "cls"):
            t = self.p.find_method(cls, f.attr)
            if t is None or t.is_property or v.id == "cls" and not (t.is_class or t.is_static):
                return None
            # an instance attribute may hide the method
            return (t, 0 if t.is_static else 1)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and not v.args and cls is not None:
            t = self.after(cls, cls, f.attr)
            if t is None or self.external(cls) and len(cls.node.bases) > 1:
                return None
            return (t, 0 if t.is_static else 1)
        if isinstance(v, ast.Name) and v.id not in shadow:
            r = self.p.resolve(m, v.id)
            if r and r[0] == "module":
                return self.of(self.p.resolve(r[1], f.attr))
            if r and r[0] == "class":
                t = self.p.find_method(r[1], f.attr)
                if t is not None and (t.is_static or t.is_class):
                    return (t, 0 if t.is_static else 1)
        return None

    def of(self, r):
        if r is None:
            return None
        if r[0] == "func":
            return (r[1], 0)
        if r[0] == "class":
            c = r[1]
            if any(d for d in c.node.decorator_list):
                return None
            lin = self.linear(c)
            for k in lin:
                if "__new__" in k.methods:
                    return None
                if "__init__" in k.methods:
                    return (k.methods["__init__"], 1)
                if any(b not in PLAIN for b in self.direct_external(k)):
                    return None
        return None

    def direct_external(self, k):
        out = []
        for b in k.node.bases:
            r = self.p.resolve(k.module, ast.unparse(b).split(".")[0])
            if not (r and r[0] == "class" or self.is_project(k, b)):
                out.append(ast.unparse(b))
        return out


def functions(m):
    """(class, function node, names local to it and the functions around it)"""

    def go(body, cls, shadow):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                u = Unbound(s)
                sh = shadow | u.params | u.local
                for x in ast.walk(s):
                    if isinstance(x, ast.comprehension):
                        sh |= stores(x.target)
                    elif isinstance(x, ast.Lambda):
                        sh |= {y.arg for y in x.args.args + x.args.kwonlyargs}
                yield cls, s, sh
                yield from go([x for x in ast.walk(s) if isinstance(x, ast.FunctionDef) and x is not s], None, sh)
            elif isinstance(s, ast.ClassDef):
                yield from go(s.body, m.classes.get(s.name), shadow)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For)):
                yield from go([x for x in ast.iter_child_nodes(s) if isinstance(x, ast.stmt)], cls, shadow)
    yield from go(m.tree.body, None, set())


def is_exception(p, m, e):
    """True / False / None (not certain)"""
    if isinstance(e, ast.Call):
        e = e.func
    if isinstance(e, ast.Attribute):
        return None
    if not isinstance(e, ast.Name):
        return False if isinstance(e, ast.Constant) else None
    r = p.resolve(m, e.id)
    if r is None:
        return None
    if r[0] == "builtin":
        v = getattr(builtins, r[1])
        return isinstance(v, type) and issubclass(v, BaseException)
    if r[0] == "class":
        for k in p.mro(r[1]):
            for b in p.bases(k):
                if b[0] == "lib":
                    return None
                if b[0] == "builtin" and isinstance(getattr(builtins, b[1], None), type) and issubclass(getattr(builtins, b[1]), BaseException):
                    return True
        return False
    if r[0] in ("func", "module"):
        return None if r[0] == "func" else False
    return None


def gives(fn):
    """does the function ever give a value: True / False; None for generators and stubs"""
    rets = [x for x in own(fn) if isinstance(x, ast.Return)]
    if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in own(fn)):
        return None
    if any(r.value is not None and not (isinstance(r.value, ast.Constant) and r.value.value is None) for r in rets):
        return True
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if not body or all(isinstance(s, (ast.Pass, ast.Raise)) for s in body) or isinstance(body[-1], ast.Raise):
        return None
    return False


def fields(text):
    """positional fields needed, names needed (None when the template is odd)"""
    num, auto, nm = 0, 0, set()
    def one(spec):
        nonlocal num, auto
        for _, f, sp, _ in string.Formatter().parse(spec):
            if f is None:
                continue
            head = f.split(".")[0].split("[")[0]
            if head == "":
                auto += 1
            elif head.isdigit():
                num = max(num, int(head) + 1)
            else:
                nm.add(head)
            if sp:
                one(sp)
    try:
        one(text)
    except ValueError:
        return None
    return max(num, auto), nm


def literal(e):
    """the text of a string literal, possibly built from adjacent pieces"""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = literal(e.left), literal(e.right)
        return None if a is None or b is None else a + b
    return None


def c32(R):
    p = R.p
    tl = Tally(R)
    rs = Resolver(p)
    for m in p.modules.values():
        src = open(m.path, encoding="utf-8").read()
        names(tl, m, src)
        # imports of project names
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = imported_base(m, n)
                if base is None or not (base == "causalnex" or base.startswith("causalnex.")):
                    continue
                for a in n.names:
                    if a.name == "*":
                        continue
                    t = p.modules.get(base)
                    if t is None:
                        tl.bad("import", m, n, "what is imported exists", f"there is no module {base}")
                        break
                    have = a.name in t.funcs or a.name in t.classes or a.name in t.imports or a.name in t.globals or \
                        f"{base}.{a.name}" in p.modules or a.name in toplevel(t)
                    if have or star(t):
                        tl.ok("import", m)
                    else:
                        tl.bad("import", m, n, "what is imported exists", f"{base} has no {a.name}")
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.startswith("causalnex"):
                        if a.name in p.modules:
                            tl.ok("import", m)
                        else:
                            tl.bad("import", m, n, "what is imported exists", f"there is no module {a.name}")
            elif isinstance(n, ast.Call):
                fmt(tl, m, n)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                percent(tl, m, n)
            elif isinstance(n, ast.Raise) and n.exc is not None:
                v = is_exception(p, m, n.exc)
                if isinstance(n.exc, ast.Name) and shadowed(m, n, n.exc.id):
                    v = None
                if v is False:
                    tl.bad("raise", m, n, "what is raised is an exception", f"{ast.unparse(n.exc)} is not one")
                elif v:
                    tl.ok("raise", m)
            elif isinstance(n, ast.ExceptHandler) and n.type is not None:
                for t in n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]:
                    v = is_exception(p, m, t)
                    if v is False:
                        tl.bad("raise", m, n, "what is caught is an exception", f"{ast.unparse(t)} is not one")
                    elif v:
                        tl.ok("raise", m)
        for cls, fn, shadow in functions(m):
            if not dynamic(m):
                u = Unbound(fn)
                for x in u.run():
                    tl.bad("unbound", m, x, "a local variable is assigned before it is used", f"{x.id} has no value yet in {fn.name}")
                if u.n and not u.out:
                    for _ in range(u.n):
                        tl.ok("unbound", m)
            for n in own_deep(fn):
                if isinstance(n, ast.Call):
                    c = rs.callee(m, cls, fn, shadow, n)
                    if c is None:
                        continue
                    t, drop = c
                    if any(d.split("(")[0] not in OKDEC and not d.endswith(".setter") for d in t.decorators):
                        continue
                    if t.name in instance_attrs(p, cls):
                        continue
                    why = binds(t.node, n, drop)
                    if why:
                        tl.bad("call", m, n, "a call fits the signature of what it calls", f"{t.qual.split('.', 1)[1]} {why}")
                    else:
                        tl.ok("call", m)
            for n, c in used_calls(fn):
                t = rs.callee(m, cls, fn, shadow, c)
                if t is None or t[0].name == "__init__" or t[0].decorators and not (t[0].is_static or t[0].is_class):
                    continue
                g = {gives(x.node) for x in overrides(p, t[0])}
                if g == {False}:
                    tl.bad("value", m, c, "a function whose result is used returns one", f"{t[0].qual.split('.', 1)[1]} returns nothing")
                elif True in g:
                    tl.ok("value", m)
            if any(ast.unparse(d) == "property" for d in fn.decorator_list) and gives(fn) is False:
                tl.bad("value", m, fn, "a property has a value", f"{fn.name} returns nothing")
            if fn.returns is not None and not (isinstance(fn.returns, ast.Constant) and fn.returns.value is None) and \
                    ast.unparse(fn.returns) not in ("Any", "None", "NoReturn") and "Optional" not in ast.unparse(fn.returns):
                g = gives(fn)
                if g is False:
                    tl.bad("value", m, fn, "a function declared to return a value returns one", f"{fn.name} returns nothing")
                elif g:
                    tl.ok("value", m)
        for c in m.classes.values():
            attrs(tl, p, rs, m, c)
    tl.flush()
    R.funcs |= {f.qual for f in p.func_by_qual.values()}
    R.lines += sum(m.tree.body[-1].end_lineno or 0 for m in p.modules.values() if m.tree.body)
    R.calls += sum(v for (r, _), v in tl.n.items() if r == "call")
    for rule, least in (("name", 25), ("call", 12), ("attr", 8), ("format", 5), ("raise", 10), ("import", 10), ("unbound", 20), ("value", 8)):
        k = len([o for o in R.obs if o["rule"] == rule])
        if k < least:
            R.und(rule, "-", f"every {rule} is checked", f"only {k} files with any")


def toplevel(m):
    out = set()
    for s in m.tree.body:
        out |= stores(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else {s.name}
    return out


def imported_base(m, s):
    base = s.module or ""
    if s.level:
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if s.level > 1:
            parts = parts[: -(s.level - 1)]
        base = ".".join(parts + ([s.module] if s.module else []))
    return base


def shadowed(m, node, name):
    return any(isinstance(f, (ast.FunctionDef, ast.Lambda)) and any(x is node for x in ast.walk(f)) and
               any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) or isinstance(x, ast.arg) and x.arg == name or
                   isinstance(x, ast.ExceptHandler) and x.name == name for x in ast.walk(f)) for f in ast.walk(m.tree))


def own_deep(fn):
    """nodes of fn including lambdas and comprehensions, not nested functions"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(x))


def used_calls(fn):
    for x in own_deep(fn):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            continue
        for c in ast.iter_child_nodes(x):
            if isinstance(c, ast.Call) and not isinstance(x, (ast.Expr, ast.Return, ast.Lambda)):
                yield x, c


def overrides(p, f):
    out = [f]
    if f.cls is not None:
        for k in p.subclasses(f.cls):
            if f.name in k.methods:
                out.append(k.methods[f.name])
    return out


def instance_attrs(p, cls):
    out = set()
    if cls is None:
        return out
    for k in p.mro(cls):
        for x in ast.walk(k.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self":
                out.add(x.attr)
    return out


def attrs(tl, p, rs, m, c):
    fam = list(p.mro(c))
    for k in list(fam) + p.subclasses(c):
        for x in p.mro(k):
            if x not in fam:
                fam.append(x)
    for k in p.subclasses(c):
        if k not in fam:
            fam.append(k)
    if any(rs.external(k) for k in fam):
        return
    have = set(dir(object)) | {"__dict__", "__class__", "__module__"}
    for k in fam:
        have |= set(k.methods) | set(k.setters) | set(k.attrs)
        for x in ast.walk(k.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                have.add(x.attr)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                have.add(x.target.id)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" or \
                    isinstance(x, ast.FunctionDef) and x.name in ("__getattr__", "__getattribute__"):
                return
            elif isinstance(x, ast.Attribute) and x.attr == "__dict__":
                return
            if isinstance(x, (ast.With, ast.For)):
                pass
    if any(b[0] == "builtin" and b[1] not in ("object",) for k in fam for b in p.bases(k)):
        have |= set(dir(Exception))
    # attributes given from outside the class
    for mm in p.modules.values():
        for x in ast.walk(mm.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                have.add(x.attr)
    for f in c.node.body:
        if not isinstance(f, ast.FunctionDef) or not f.args.args or f.args.args[0].arg != "self":
            continue
        for x in ast.walk(f):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == "self":
                if x.attr in have:
                    tl.ok("attr", m)
                elif guarded(f, x):
                    continue
                else:
                    tl.bad("attr", m, x, "an attribute that is read is set somewhere", f"{c.name} has no attribute {x.attr}")


def guarded(f, x):
    """read only after hasattr, or inside try/except AttributeError"""
    for t in ast.walk(f):
        if isinstance(t, ast.Try) and any(x is y for s in t.body for y in ast.walk(s)) and \
                any(h.type is None or "AttributeError" in ast.unparse(h.type) or ast.unparse(h.type) == "Exception" for h in t.handlers):
            return True
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "hasattr" and len(t.args) == 2 and \
                isinstance(t.args[1], ast.Constant) and t.args[1].value == x.attr:
            return True
    return False


def fmt(tl, m, n):
    f = n.func
    if not (isinstance(f, ast.Attribute) and f.attr == "format"):
        return
    text = literal(f.value)
    if text is None:
        return
    need = fields(text)
    if need is None:
        tl.bad("format", m, n, "a message template gets the fields it uses", f"{text[:60]!r} is no valid template")
        return
    stars = any(isinstance(a, ast.Starred) for a in n.args)
    dstar = any(k.arg is None for k in n.keywords)
    if not stars and need[0] > len(n.args):
        tl.bad("format", m, n, "a message template gets the fields it uses", f"{text[:60]!r} uses {need[0]} values, {len(n.args)} given")
        return
    miss = need[1] - {k.arg for k in n.keywords}
    if miss and not dstar:
        tl.bad("format", m, n, "a message template gets the fields it uses", f"{text[:60]!r} uses {sorted(miss)[0]}, which is not given")
        return
    tl.ok("format", m)


def percent(tl, m, n):
    text = literal(n.left)
    if text is None or "%(" in text:
        return
    k, i = 0, 0
    while i < len(text):
        if text[i] == "%":
            if text[i + 1:i + 2] == "%":
                i += 2
                continue
            k += 1
            if "*" in text[i:i + 4]:
                return
        i += 1
    if isinstance(n.right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.right.elts):
        if len(n.right.elts) != k:
            tl.bad("format", m, n, "a message template gets the fields it uses", f"{text[:60]!r} uses {k} values, {len(n.right.elts)} given")
            return
        tl.ok("format", m)


CHECKS = {"C32": (c32, "")}
