#!/usr/bin/env python3
"""refactor.py [file-filter] [transform-filter]: mechanical rewrites that keep the behaviour, applied to every place of a file at
once; no check may report a violation. A rewrite that raises an alarm is then narrowed to the functions that raise it."""
import ast
import concurrent.futures as cf
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = "/repo"
FUN = (ast.FunctionDef, ast.AsyncFunctionDef)


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def trivial(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and trivial(e.value) or isinstance(e, ast.UnaryOp) and trivial(e.operand)


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(ast.Not(), e)


class Base(ast.NodeTransformer):
    """rewrites statements of function bodies; k counts fresh names"""
    only = None

    def __init__(self):
        self.k, self.depth, self.stack = 0, 0, []

    def fresh(self, p="tmp"):
        self.k += 1
        return f"{p}_{self.k}_"

    def active(self):
        return self.depth > 0 and (self.only is None or ".".join(self.stack[:2] if len(self.stack) > 1 else self.stack) in self.only)

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.depth += 1
        n.body = self.block(n.body)
        self.depth -= 1
        self.stack.pop()
        return n

    def block(self, body):
        """rewrite nested blocks first, then each statement"""
        out = []
        for s in body:
            if isinstance(s, FUN) or isinstance(s, ast.ClassDef):
                out.append(self.visit(s))
                continue
            for f in ("body", "orelse", "finalbody"):
                if getattr(s, f, None) and isinstance(getattr(s, f), list):
                    setattr(s, f, self.block(getattr(s, f)))
            for h in getattr(s, "handlers", []):
                h.body = self.block(h.body)
            r = self.stmt(s) if self.active() else s
            out += r if isinstance(r, list) else [r]
        return self.after(out) if self.active() else out

    def stmt(self, s):
        return s

    def after(self, body):
        return body


def in_expr(fn):
    """apply an expression transformer to the expressions of a statement (not to nested statements)"""
    class T(Base):
        def stmt(self, s):
            for f, v in ast.iter_fields(s):
                if isinstance(v, ast.expr):
                    setattr(s, f, E(self).visit(v))
                elif isinstance(v, list) and v and isinstance(v[0], ast.expr):
                    setattr(s, f, [E(self).visit(x) for x in v])
            return s

    class E(ast.NodeTransformer):
        def __init__(self, o):
            self.o = o

        def generic_visit(self, n):
            super().generic_visit(n)
            return fn(n)

        def visit(self, n):
            super().generic_visit(n)
            return fn(n)
    return T


class IfSwap(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            return ast.If(neg(s.test), s.orelse, s.body)
        return s


class RetVar(Base):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not trivial(s.value):
            v = self.fresh("result")
            return [ast.Assign([name(v, True)], s.value), ast.Return(name(v))]
        return s


class ArgVars(Base):
    def stmt(self, s):
        v = getattr(s, "value", None) if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) else s.exc if isinstance(s, ast.Raise) else None
        if not isinstance(v, ast.Call) or not (trivial(v.func)) or ast.unparse(v.func) in ("super",):
            return s
        pre = []
        for i, a in enumerate(v.args):
            if not trivial(a) and not isinstance(a, (ast.Starred, ast.Lambda)):
                t = self.fresh("arg")
                pre.append(ast.Assign([name(t, True)], a))
                v.args[i] = name(t)
        for k in v.keywords:
            if k.arg and not trivial(k.value) and not isinstance(k.value, ast.Lambda):
                t = self.fresh("arg")
                pre.append(ast.Assign([name(t, True)], k.value))
                k.value = name(t)
        return pre + [s]


class Renamer(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n


class CompLoop(Base):
    def stmt(self, s):
        v = getattr(s, "value", None) if isinstance(s, (ast.Assign, ast.Return)) else None
        if not isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)):
            return s
        m = {x.id: x.id + "_c" for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        # the first collection is evaluated outside
        first = v.generators[0].iter
        v.generators[0].iter = ast.Constant(None)
        v = Renamer(m).visit(v)
        v.generators[0].iter = first
        t = self.fresh("acc")
        if isinstance(v, ast.DictComp):
            init, leaf = ast.Dict([], []), ast.Assign([ast.Subscript(name(t), v.key, ast.Store())], v.value)
        else:
            meth = "append" if isinstance(v, ast.ListComp) else "add"
            init = ast.List([], ast.Load()) if isinstance(v, ast.ListComp) else ast.Call(name("set"), [], [])
            leaf = ast.Expr(ast.Call(ast.Attribute(name(t), meth, ast.Load()), [v.elt], []))
        body = [leaf]
        for g in reversed(v.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        s.value = name(t)
        return [ast.Assign([name(t, True)], init)] + body + [s]


class SplitAnd(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for c in reversed(s.test.values):
                body = [ast.If(c, body, [])]
            return body
        return s


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def flip(n):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in FLIP:
        return ast.Compare(n.comparators[0], [FLIP[type(n.ops[0])]()], [n.left])
    return n


class TernIf(Base):
    def stmt(self, s):
        v = getattr(s, "value", None)
        if isinstance(v, ast.IfExp) and isinstance(s, (ast.Assign, ast.Return)):
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = v.body, v.orelse
            return ast.If(v.test, [a], [b])
        return s


class IfTern(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.unparse(a.targets[0]) == ast.unparse(b.targets[0]) and len(a.targets) == 1:
                return ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return ast.Return(ast.IfExp(s.test, a.value, b.value))
        return s

    def after(self, body):
        out = list(body)
        if len(out) >= 2 and isinstance(out[-1], ast.Return) and out[-1].value and isinstance(out[-2], ast.If) and not out[-2].orelse \
                and len(out[-2].body) == 1 and isinstance(out[-2].body[0], ast.Return) and out[-2].body[0].value:
            out[-2:] = [ast.Return(ast.IfExp(out[-2].test, out[-2].body[0].value, out[-1].value))]
        return out


class Rename(Base):
    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.depth += 1
        if self.depth == 1 and self.active():
            params = {a.arg for f in ast.walk(n) if isinstance(f, ast.arguments)
                      for a in f.args + f.kwonlyargs + f.posonlyargs + [x for x in (f.vararg, f.kwarg) if x]}
            bad = params | {x for s in ast.walk(n) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
            bad |= {h.name for h in ast.walk(n) if isinstance(h, ast.ExceptHandler) and h.name}
            bad |= {a.asname or a.name for s in ast.walk(n) if isinstance(s, (ast.Import, ast.ImportFrom)) for a in s.names}
            loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - bad
            n.body = [Renamer({x: x + "_r" for x in loc}).visit(s) for s in n.body]
        self.depth -= 1
        self.stack.pop()
        return n


class DeMorgan(Base):
    def stmt(self, s):
        if isinstance(s, (ast.If, ast.While)) and isinstance(s.test, ast.BoolOp):
            o = ast.Or() if isinstance(s.test.op, ast.And) else ast.And()
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [neg(v) for v in s.test.values]))
        return s


class ElseAfter(Base):
    def after(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and body[i + 1:]:
                return body[:i] + [ast.If(s.test, s.body, self.after(body[i + 1:]))]
        return body


class ElseDrop(Base):
    """if c: ...return  else: rest  ->  if c: ...return; rest"""
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
            return [ast.If(s.test, s.body, [])] + s.orelse
        return s


class IterVar(Base):
    def stmt(self, s):
        if isinstance(s, ast.For) and not trivial(s.iter):
            t = self.fresh("items")
            it, s.iter = s.iter, name(t)
            return [ast.Assign([name(t, True)], it), s]
        return s


class Aug(Base):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and (isinstance(s.value, ast.Constant) or isinstance(s.op, (ast.Mult, ast.Div))):
            return ast.Assign([s.target], ast.BinOp(name(s.target.id), s.op, s.value))
        return s


class Chain(Base):
    """a.b(...).c(...) -> t = a.b(...); t.c(...)"""
    def stmt(self, s):
        v = getattr(s, "value", None) if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) else None
        pre = []
        while isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Call) \
                and ast.unparse(v.func.value.func) != "super":
            t = self.fresh("part")
            inner = v.func.value
            v.func.value = name(t)
            pre.insert(0, ast.Assign([name(t, True)], inner))
            v = inner
        return pre + [s]


def fmt(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) \
            and isinstance(n.func.value.value, str) and not n.keywords and n.func.value.value.count("{}") == len(n.args) \
            and n.func.value.value.count("{") == len(n.args) and not any(isinstance(a, ast.Starred) for a in n.args):
        parts = n.func.value.value.split("{}")
        vals = []
        for i, p in enumerate(parts):
            if p:
                vals.append(ast.Constant(p))
            if i < len(n.args):
                vals.append(ast.FormattedValue(n.args[i], -1, None))
        return ast.JoinedStr(vals)
    return n


def literals(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and not n.keywords:
        if n.func.id == "list" and len(n.args) == 1 and not isinstance(n.args[0], ast.GeneratorExp):
            return ast.List([ast.Starred(n.args[0], ast.Load())], ast.Load())
        if n.func.id == "dict" and not n.args:
            return ast.Dict([], [])
        if n.func.id == "list" and not n.args:
            return ast.List([], ast.Load())
    elif isinstance(n, ast.Dict) and not n.keys:
        return ast.Call(name("dict"), [], [])
    elif isinstance(n, ast.List) and not n.elts and isinstance(n.ctx, ast.Load):
        return ast.Call(name("list"), [], [])
    return n


def gens(n):
    if isinstance(n, ast.ListComp):
        return ast.Call(name("list"), [ast.GeneratorExp(n.elt, n.generators)], [])
    if isinstance(n, ast.SetComp):
        return ast.Call(name("set"), [ast.GeneratorExp(n.elt, n.generators)], [])
    if isinstance(n, ast.DictComp):
        return ast.Call(name("dict"), [ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)], [])
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "sum", "max", "min", "sorted") and n.args and isinstance(n.args[0], ast.GeneratorExp):
        n.args[0] = ast.ListComp(n.args[0].elt, n.args[0].generators)
    return n


class Inline(Base):
    def visit_FunctionDef(self, n):
        self.uses = getattr(self, "uses", [])
        cnt = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                c = cnt.setdefault(x.id, [0, 0])
                c[isinstance(x.ctx, ast.Store)] += 1
        self.uses.append(cnt)
        r = super().visit_FunctionDef(n)
        self.uses.pop()
        return r

    def after(self, body):
        out = []
        for s in body:
            p = out[-1] if out else None
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and self.uses[-1].get(p.targets[0].id) == [1, 1] \
                    and isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and s.value is not None:
                v = p.targets[0].id
                scoped = [x for c in ast.walk(s.value) if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda))
                          for x in ast.walk(c) if isinstance(x, ast.Name) and x.id == v]
                here = [x for x in ast.walk(s.value) if isinstance(x, ast.Name) and x.id == v]
                if here and not scoped:
                    class S(ast.NodeTransformer):
                        def visit_Name(self, n):
                            return p.value if n.id == v else n
                    s.value = S().visit(s.value)
                    out[-1] = s
                    continue
            out.append(s)
        return out


class Continue(Base):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse and not isinstance(s.body[-1].body[-1], (ast.Continue, ast.Return, ast.Raise, ast.Break)):
            i = s.body[-1]
            s.body = s.body[:-1] + [ast.If(neg(i.test), [ast.Continue()], [])] + i.body
        return s


class Impl(Base):
    """the body moves to a helper that gets all arguments"""
    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                out += self.split(s, None)
            elif isinstance(s, ast.ClassDef):
                body = []
                for m in s.body:
                    body += self.split(m, s.name) if isinstance(m, ast.FunctionDef) else [m]
                s.body = body
                out.append(s)
            else:
                out.append(s)
        n.body = out
        return n

    def split(self, f, cls):
        self.stack, self.depth = ([cls] if cls else []) + [f.name], 1
        a = f.args
        if not self.active() or f.decorator_list or a.posonlyargs or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)) \
                or (f.name.startswith("__") and f.name != "__init__"):
            return [f]
        doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and isinstance(f.body[0].value.value, str) else []
        body = f.body[len(doc):]
        if len(body) < 2:
            return [f]
        h = ast.FunctionDef("_" + f.name.strip("_") + "_impl", copy.deepcopy(a), body, [], None)
        h.args.defaults, h.args.kw_defaults = [], [None] * len(a.kwonlyargs)
        ps = [x.arg for x in a.args]
        args = [name(x) for x in (ps[1:] if cls else ps)]
        kws = [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs]
        if a.vararg:
            args.append(ast.Starred(name(a.vararg.arg), ast.Load()))
        if a.kwarg:
            kws.append(ast.keyword(None, name(a.kwarg.arg)))
        fn = ast.Attribute(name(ps[0]), h.name, ast.Load()) if cls else name(h.name)
        call = ast.Call(fn, args, kws)
        ret = any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(f))
        f.body = doc + [ast.Return(call) if ret else ast.Expr(call)]
        return [h, f] if cls else [h, f]


class Tail(Base):
    """the second half of a function's body moves to a helper that gets the names it reads"""
    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                self.stack, self.depth = [s.name], 1
                out += self.split(s)
            else:
                out.append(s)
        n.body = out
        return n

    def split(self, f):
        if not self.active() or f.decorator_list or len(f.body) < 4 or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for x in ast.walk(f)):
            return [f]
        k = len(f.body) // 2 + 1
        head, tail = f.body[:k], f.body[k:]
        bound = {a.arg for a in f.args.args + f.args.kwonlyargs + [x for x in (f.args.vararg, f.args.kwarg) if x]}
        inner = {x.id for s in head for c in ast.walk(s) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)}
        if inner & {x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name)}:
            return [f]
        bound |= {x.id for s in head for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        bound |= {s.name for s in head if isinstance(s, FUN)}
        # a name bound on some paths only cannot be handed over
        sure = {a.arg for a in f.args.args + f.args.kwonlyargs + [x for x in (f.args.vararg, f.args.kwarg) if x]}
        sure |= {x.id for s in head if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)) for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        sure |= {s.name for s in head if isinstance(s, FUN)}
        reads = sorted({x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name) and x.id in bound})
        if [x for x in reads if x not in sure]:
            return [f]
        h = ast.FunctionDef("_" + f.name.strip("_") + "_rest", ast.arguments([], [ast.arg(x) for x in reads], None, [], [], None, []), tail, [], None)
        call = ast.Call(name(h.name), [name(x) for x in reads], [])
        f.body = head + [ast.Return(call)]
        return [h, f]


class KeyWords(Base):
    """positional arguments of the file's own functions and classes by name"""
    def visit_Module(self, n):
        self.sig = {}
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.args.vararg:
                self.sig[s.name] = [a.arg for a in s.args.args]
            elif isinstance(s, ast.ClassDef):
                for m in s.body:
                    if isinstance(m, ast.FunctionDef) and not m.args.vararg and m.name == "__init__":
                        self.sig[s.name] = [a.arg for a in m.args.args][1:]
                    elif isinstance(m, ast.FunctionDef) and not m.args.vararg and not any(ast.unparse(d) in ("staticmethod", "property") for d in m.decorator_list):
                        self.sig["self." + m.name] = [a.arg for a in m.args.args][1:]
        self.generic_visit(n)
        return n

    def stmt(self, s):
        # nested blocks were done already
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and not any(isinstance(a, ast.Starred) for a in x.args):
                ps = self.sig.get(ast.unparse(x.func))
                if ps and len(x.args) <= len(ps):
                    x.keywords = [ast.keyword(p, a) for p, a in zip(ps, x.args)] + x.keywords
                    x.args = []
        return s


class CondVar(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and not trivial(s.test):
            t = self.fresh("cond")
            test, s.test = s.test, name(t)
            return [ast.Assign([name(t, True)], test), s]
        return s


class WhileTrue(Base):
    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse and not isinstance(s.test, ast.Constant):
            s.body = [ast.If(neg(s.test), [ast.Break()], [])] + s.body
            s.test = ast.Constant(True)
        return s


class LoopComp(Base):
    """v = []; for x in y: v.append(e)  ->  v = [e for x in y]"""
    def after(self, body):
        out = []
        for s in body:
            p = out[-1] if out else None
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and isinstance(s, ast.For) and not s.orelse:
                v, b, ifs = p.targets[0].id, s.body, []
                while len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse:
                    ifs.append(b[0].test)
                    b = b[0].body
                c = b[0].value if len(b) == 1 and isinstance(b[0], ast.Expr) else None
                if ast.unparse(p.value) in ("[]", "list()") and isinstance(c, ast.Call) and ast.unparse(c.func) == v + ".append" \
                        and v not in {x.id for e in c.args + ifs + [s.iter] for x in ast.walk(e) if isinstance(x, ast.Name)}:
                    out[-1] = ast.Assign(p.targets, ast.ListComp(c.args[0], [ast.comprehension(s.target, s.iter, ifs, 0)]))
                    continue
            out.append(s)
        return out


class ItemsLoop(Base):
    """for k, v in d.items(): -> for k in d: v = d[k]"""
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and not s.iter.args \
                and trivial(s.iter.func.value) and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name):
            d, (k, v) = s.iter.func.value, s.target.elts
            return ast.For(k, d, [ast.Assign([v], ast.Subscript(d, name(k.id), ast.Load()))] + s.body, s.orelse)
        return s


def inor(n):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List, ast.Set)) \
            and trivial(n.left) and 1 < len(n.comparators[0].elts) < 4:
        e = ast.BoolOp(ast.Or(), [ast.Compare(n.left, [ast.Eq()], [x]) for x in n.comparators[0].elts])
        return e if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), e)
    return n


def kwrev(n):
    if isinstance(n, ast.Call) and len(n.keywords) > 1 and all(k.arg for k in n.keywords) and all(trivial(k.value) for k in n.keywords):
        n.keywords = n.keywords[::-1]
    return n


class Unpack(Base):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and all(isinstance(x, ast.Name) for x in s.targets[0].elts):
            t = self.fresh("pair")
            if isinstance(s.value, ast.Tuple):
                ts = [self.fresh("part") for _ in s.value.elts]
                return [ast.Assign([name(a, True)], v) for a, v in zip(ts, s.value.elts)] + [ast.Assign([x], name(a)) for x, a in zip(s.targets[0].elts, ts)]
            return [ast.Assign([name(t, True)], s.value)] + [ast.Assign([x], ast.Subscript(name(t), ast.Constant(i), ast.Load())) for i, x in enumerate(s.targets[0].elts)]
        return s


class Annotated(Base):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            return ast.AnnAssign(s.targets[0], name("object"), s.value, 1)
        return s


class Swap(Base):
    """two neighbouring assignments to names neither of which reads the other"""
    def after(self, body):
        out, i = list(body), 0
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (a, b)) \
                    and a.targets[0].id != b.targets[0].id and not any(w in ast.unparse(x.value) for x in (a, b) for w in ("random", "choice", "pop", "next(", "fit")):
                ra, rb = [{x.id for x in ast.walk(y.value) if isinstance(x, ast.Name)} for y in (a, b)]
                if a.targets[0].id not in rb and b.targets[0].id not in ra:
                    out[i], out[i + 1] = b, a
                    i += 1
            i += 1
        return out


def npforms(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and not n.keywords:
        f = ast.unparse(n.func)
        if f in ("np.sum", "np.mean") and len(n.args) == 1 and isinstance(n.args[0], ast.Name):
            return ast.Call(ast.Attribute(n.args[0], f[3:], ast.Load()), [], [])
        if n.func.attr == "dot" and len(n.args) == 1:
            return ast.BinOp(n.func.value, ast.MatMult(), n.args[0])
        if f == "np.abs" and len(n.args) == 1:
            return ast.Call(name("abs"), n.args, [])
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and trivial(n.left):
        return ast.BinOp(n.left, ast.Mult(), n.left)
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq) and ast.unparse(n.left).startswith("len(") and ast.unparse(n.comparators[0]) == "0":
        return ast.UnaryOp(ast.Not(), n.left)
    return n


class MethodTail(Base):
    """the second half of a method's body moves to another method"""
    def visit_Module(self, n):
        for c in n.body:
            if isinstance(c, ast.ClassDef):
                body = []
                for m in c.body:
                    if isinstance(m, ast.FunctionDef) and not m.decorator_list and m.args.args:
                        self.stack, self.depth = [c.name, m.name], 1
                        r = Tail.split(self, m)
                        if len(r) == 2:
                            me = m.args.args[0].arg
                            r[0].args.args = [ast.arg(me)] + [a for a in r[0].args.args if a.arg != me]
                            call = m.body[-1].value
                            call.func = ast.Attribute(name(me), r[0].name, ast.Load())
                            call.args = [a for a in call.args if a.id != me]
                        body += r
                    else:
                        body.append(m)
                c.body = body
        return n


TRANSFORMS = {"ifswap": IfSwap, "retvar": RetVar, "argvars": ArgVars, "comploop": CompLoop, "splitand": SplitAnd, "flip": in_expr(flip), "ternif": TernIf,
              "iftern": IfTern, "rename": Rename, "demorgan": DeMorgan, "elseafter": ElseAfter, "elsedrop": ElseDrop, "itervar": IterVar, "aug": Aug,
              "chain": Chain, "fmt": in_expr(fmt), "literals": in_expr(literals), "gens": in_expr(gens), "inline": Inline, "continue": Continue,
              "impl": Impl, "tail": Tail, "keywords": KeyWords,
              "condvar": CondVar, "whiletrue": WhileTrue, "loopcomp": LoopComp, "itemsloop": ItemsLoop, "inor": in_expr(inor), "kwrev": in_expr(kwrev),
              "unpack": Unpack, "annotated": Annotated, "swap": Swap, "npforms": in_expr(npforms), "methodtail": MethodTail}
RUN = """
import sys, json
sys.path.insert(0, %r)
sys.setrecursionlimit(20000)
import rules
from sa.project import Project, AnalysisError
from sa.rule import Report
KNOWN = {f["key"] for f in json.load(open(%r + "/known_findings.json"))["findings"]}
cs = rules.load()
only = sys.argv[1].split(",") if len(sys.argv) > 1 and sys.argv[1] else sorted(cs)
for c in only:
    if c == "C49" and len(only) > 1 or c == "C38" and len(only) > 1 and len(sys.argv) > 2 and "data_generators" not in sys.argv[2]:
        continue
    try:
        R = Report(c, Project()); R.tier = "quick"
        cs[c][0](R)
        for o in R.obs:
            if o["status"] == "violated" and "%%s|%%s|%%s" %% (o["rule"], o["where"].split(":")[0], o["what"]) not in KNOWN:
                print("V", c, o["where"], "[%%s] %%s: %%s" %% (o["rule"], o["what"], o["msg"][:200]))
            elif o["status"] == "undecided":
                print("U", c, o["where"], o["what"])
    except AnalysisError as e:
        print("E", c, e)
    except Exception as e:
        print("X", c, type(e).__name__, e)
""" % (HERE, HERE)


def rewritten(rel, tr, only=None):
    tree = ast.parse(open(f"{REPO}/causalnex/{rel}").read())
    base = ast.unparse(tree)
    t = TRANSFORMS[tr]()
    t.only = only
    new = ast.fix_missing_locations(t.visit(tree))
    s = ast.unparse(new)
    compile(s, rel, "exec")
    return s if s != base else None


def judge(rel, src, checks=""):
    d = tempfile.mkdtemp(prefix="rf_")
    try:
        shutil.copytree(f"{REPO}/causalnex", d + "/causalnex", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{d}/causalnex/{rel}", "w").write(src)
        r = subprocess.run([sys.executable, "-c", RUN, checks, rel], capture_output=True, text=True, timeout=900,
                           env=dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE="1"))
        return (r.stdout + (r.stderr[-300:] if r.returncode else "")).splitlines()
    finally:
        shutil.rmtree(d)


def funcs(rel):
    out = []
    for s in ast.parse(open(f"{REPO}/causalnex/{rel}").read()).body:
        if isinstance(s, FUN):
            out.append(s.name)
        elif isinstance(s, ast.ClassDef):
            out += [f"{s.name}.{m.name}" for m in s.body if isinstance(m, FUN)]
    return out


def one(job):
    rel, tr = job
    try:
        src = rewritten(rel, tr)
    except Exception as e:
        return rel, tr, None, [f"CANNOT {type(e).__name__} {e}"]
    if src is None:
        return rel, tr, None, []
    out = judge(rel, src)
    hot = [l for l in out if l[:2] in ("V ", "E ", "X ") or "Traceback" in l]
    if hot:
        # narrow to functions
        cs = ",".join(sorted({l.split()[1] for l in hot}))
        found = []
        for f in funcs(rel):
            s = rewritten(rel, tr, {f})
            if s is not None:
                o = [l for l in judge(rel, s, cs) if l[:2] in ("V ", "E ", "X ")]
                if o:
                    found += [f"{f}: {l}" for l in o]
        hot = found or hot
    return rel, tr, sum(l.startswith("U ") for l in out), hot


def main():
    ff = sys.argv[1] if len(sys.argv) > 1 else ""
    tf = sys.argv[2] if len(sys.argv) > 2 else ""
    files = []
    for dp, _, fs in os.walk(f"{REPO}/causalnex"):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(dp, f), f"{REPO}/causalnex")
            if f.endswith(".py") and f != "__init__.py" and ff in rel:
                files.append(rel)
    jobs = [(r, t) for t in TRANSFORMS if tf in t for r in sorted(files)]
    n = bad = 0
    with cf.ProcessPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for rel, tr, und, hot in ex.map(one, jobs):
            if und is None and not hot:
                continue
            n += 1
            bad += bool(hot)
            print(f"{'BAD' if hot else 'ok '} {tr:10} {rel:45} und={und}", flush=True)
            for l in hot[:12]:
                print("      ", l[:400], flush=True)
    print(n, "rewrites,", bad, "with alarms")


if __name__ == "__main__":
    main()
