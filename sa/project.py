"""Parse /repo/causalnex and resolve names across its modules (stdlib ast only)."""
import ast
import builtins
import hashlib
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "causalnex"


class AnalysisError(Exception):
    """the analysis cannot proceed: an anchor vanished or a file does not parse"""


class Func:
    def __init__(self, qual, node, module, cls=None, outer=None):
        self.qual, self.node, self.module, self.cls, self.outer = qual, node, module, cls, outer
        self.name = node.name
        decs = [ast.unparse(d) for d in node.decorator_list]
        self.decorators = decs
        self.is_property = "property" in decs or any(d.endswith("cached_property") for d in decs)
        # results are remembered: what the function returns outlives the call
        self.cached = any(d.split("(")[0].split(".")[-1] in ("lru_cache", "cache", "cached_property", "memoize", "memory_cache")
                          for d in decs)
        self.is_setter = any(d.endswith(".setter") for d in decs)
        self.is_static = "staticmethod" in decs
        self.is_class = "classmethod" in decs
        self.is_abstract = any("abstractmethod" in d for d in decs)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def where(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def __repr__(self):
        return f"<Func {self.qual}>"


class Class:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.name = node.name
        self.methods, self.setters, self.attrs = {}, {}, {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(f"{qual}.{s.name}", s, module, self)
                (self.setters if f.is_setter else self.methods)[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                self.attrs[s.target.id] = s.value

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    def __init__(self, name, path, rel, tree, is_pkg):
        self.name, self.path, self.rel, self.tree, self.is_pkg = name, path, rel, tree, is_pkg
        self.funcs, self.classes, self.imports, self.globals = {}, {}, {}, {}
        self.index(tree.body)

    def index(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Func(f"{self.name}.{s.name}", s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(f"{self.name}.{s.name}", s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    if s.level > 1:
                        parts = parts[: -(s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = f"{base}.{a.name}"
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.globals[s.target.id] = s.value
            elif isinstance(s, ast.Try):
                for b in [s.body, s.orelse, s.finalbody] + [h.body for h in s.handlers]:
                    self.index(b)
            elif isinstance(s, ast.If):
                self.index(s.body)
                self.index(s.orelse)


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisError(f"no package at {root}")
        h = hashlib.sha256()
        for d, dirs, files in os.walk(root):
            dirs.sort()
            dirs[:] = [x for x in dirs if x != "__pycache__"]
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                name = ".".join(parts[:-1] if is_pkg else parts)
                src = open(p, encoding="utf-8").read()
                h.update(rel.encode() + b"\0" + src.encode())
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisError(f"{rel} does not parse: {e}")
                self.modules[name] = Module(name, p, rel, tree, is_pkg)
        self.digest = h.hexdigest()
        self.method_index = {}
        self.class_by_qual = {}
        self.func_by_qual = {}
        for m in self.modules.values():
            for f in m.funcs.values():
                self.func_by_qual[f.qual] = f
            for c in m.classes.values():
                self.class_by_qual[c.qual] = c
                for f in list(c.methods.values()):
                    self.func_by_qual[f.qual] = f
                    self.method_index.setdefault(f.name, []).append(f)

    # ------------------------------------------------------------ resolution
    def resolve(self, module, name):
        """name in module -> ('func',F) | ('class',C) | ('global',module,name) | ('module',M) | ('lib',dotted)
        | ('builtin',name) | None"""
        if name in module.funcs:
            return ("func", module.funcs[name])
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.imports:
            return self.resolve_dotted(module.imports[name])
        if name in module.globals:
            return ("global", module, name)
        if hasattr(builtins, name):
            return ("builtin", name)
        return None

    def resolve_dotted(self, dotted, depth=0):
        if not (dotted == PKG or dotted.startswith(PKG + ".")):
            return ("lib", dotted)
        if dotted in self.modules:
            return ("module", self.modules[dotted])
        if depth > 8 or "." not in dotted:
            return ("lib", dotted)
        base, name = dotted.rsplit(".", 1)
        if base in self.modules:
            r = self.resolve(self.modules[base], name)
            if r is not None and r[0] != "builtin":
                return r
            return ("lib", dotted)
        r = self.resolve_dotted(base, depth + 1)
        if r[0] == "class" and name in r[1].methods:
            return ("func", r[1].methods[name])
        return ("lib", dotted)

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            d = ast.unparse(b)
            head, *rest = d.split(".")
            r = self.resolve(cls.module, head)
            if r and rest and r[0] == "module":
                r = self.resolve_dotted(r[1].name + "." + ".".join(rest))
            elif r and rest and r[0] == "lib":
                r = ("lib", r[1] + "." + ".".join(rest))
            if r:
                out.append(r)
        return out

    def mro(self, cls):
        seen, out, todo = set(), [], [cls]
        while todo:
            c = todo.pop(0)
            if c.qual in seen:
                continue
            seen.add(c.qual)
            out.append(c)
            todo.extend(b[1] for b in self.bases(c) if b[0] == "class")
        return out

    def find_method(self, cls, name, setter=False):
        for c in self.mro(cls):
            tab = c.setters if setter else c.methods
            if name in tab:
                return tab[name]
        return None

    def subclasses(self, cls):
        return [c for c in self.class_by_qual.values() if c is not cls and cls in self.mro(c)]

    def func(self, qual):
        """anchor lookup: 'ebaybbn.bbn.BBN.query' (without package prefix); follows moves within the package"""
        q = qual if qual.startswith(PKG + ".") else f"{PKG}.{qual}"
        if q in self.func_by_qual:
            return self.func_by_qual[q]
        # moved to another module but re-exported, or inherited
        parts = q.split(".")
        if len(parts) >= 2:
            cq = ".".join(parts[:-1])
            c = self.cls(cq, soft=True)
            if c:
                f = self.find_method(c, parts[-1])
                if f:
                    return f
            r = self.resolve_dotted(q)
            if r[0] == "func":
                return r[1]
            # unique function of that name anywhere in the package
            tail = parts[-1]
            cands = [f for k, f in self.func_by_qual.items() if k.split(".")[-1] == tail and
                     (f.cls is None) == (not parts[-2][:1].isupper()) and
                     (f.cls is None or f.cls.name == parts[-2])]
            if len(cands) == 1:
                return cands[0]
        raise AnalysisError(f"anchor vanished: {qual}")

    def cls(self, qual, soft=False):
        q = qual if qual.startswith(PKG + ".") else f"{PKG}.{qual}"
        if q in self.class_by_qual:
            return self.class_by_qual[q]
        r = self.resolve_dotted(q)
        if r[0] == "class":
            return r[1]
        tail = q.split(".")[-1]
        cands = [c for k, c in self.class_by_qual.items() if k.split(".")[-1] == tail]
        if len(cands) == 1:
            return cands[0]
        if soft:
            return None
        raise AnalysisError(f"anchor vanished: class {qual}")
