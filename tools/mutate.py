#!/usr/bin/env python3
"""mutate.py FILE [--tests] [--only funcname]: every single-point mutant of a source file (operators, constants, conditions,
deleted statements, swapped arguments) against all checks; lists those no check reports.

With --tests a mutant must also pass the stable tests (only useful for ebaybbn)."""
import ast
import concurrent.futures as cf
import copy
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, HERE + "/tools")
sys.setrecursionlimit(20000)
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt, ast.Lt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv],
       ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.MatMult: [ast.Mult]}


def sites(tree):
    """[(path of node, description, replacement builder)]"""
    out = []

    def fn_of(stack):
        return ".".join(n.name for n in stack if isinstance(n, (ast.FunctionDef, ast.ClassDef)))

    def visit(node, stack):
        st = stack + [node]
        f = fn_of(st)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for o in CMP.get(type(node.ops[0]), []):
                out.append((node, f, "cmp " + o.__name__, lambda n, o=o: setattr(n, "ops", [o()])))
        if isinstance(node, ast.BinOp):
            for o in BIN.get(type(node.op), []):
                out.append((node, f, "bin " + o.__name__, lambda n, o=o: setattr(n, "op", o())))
            if isinstance(node.op, (ast.Sub, ast.Div)):
                out.append((node, f, "swap operands", lambda n: (lambda a, b: (setattr(n, "left", b), setattr(n, "right", a)))(n.left, n.right)))
        if isinstance(node, ast.AugAssign):
            for o in BIN.get(type(node.op), []):
                out.append((node, f, "aug " + o.__name__, lambda n, o=o: setattr(n, "op", o())))
        if isinstance(node, ast.BoolOp):
            out.append((node, f, "boolop", lambda n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
            for i in range(len(node.values)):
                if len(node.values) == 2:
                    out.append((node, f, f"drop clause {i}", ("replace", lambda n, i=i: n.values[1 - i])))
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            out.append((node, f, "negate", lambda n: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test))))
            if isinstance(node, ast.If):
                out.append((node, f, "always", lambda n: setattr(n, "test", ast.Constant(True))))
                out.append((node, f, "never", lambda n: setattr(n, "test", ast.Constant(False))))
        if isinstance(node, ast.comprehension) and node.ifs:
            out.append((node, f, "drop filter", lambda n: setattr(n, "ifs", [])))
        if isinstance(node, ast.Constant) and not isinstance(getattr(node, "_doc", None), bool):
            if isinstance(node.value, bool):
                out.append((node, f, "flip bool", lambda n: setattr(n, "value", not n.value)))
            elif isinstance(node.value, int):
                out.append((node, f, "const+1", lambda n: setattr(n, "value", n.value + 1)))
            elif isinstance(node.value, float):
                out.append((node, f, "const*2+1", lambda n: setattr(n, "value", n.value * 2 + 1)))
        if isinstance(node, ast.Call):
            if len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args):
                out.append((node, f, "swap args", lambda n: n.args.reverse()))
            if isinstance(node.func, ast.Name) and node.func.id in ("sorted", "set", "list", "reversed", "abs", "deepcopy") and len(node.args) == 1:
                out.append((node, f, "drop " + node.func.id, ("replace", lambda n: n.args[0])))
            if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "deepcopy") and len(node.args) <= 1:
                out.append((node, f, "drop copy", ("replace", lambda n: n.args[0] if n.args else n.func.value)))
            for i, k in enumerate(node.keywords):
                if k.arg:
                    out.append((node, f, "drop keyword " + k.arg, lambda n, i=i: n.keywords.pop(i)))
            if isinstance(node.func, ast.Name) and node.func.id in ("min", "max", "any", "all"):
                o = {"min": "max", "max": "min", "any": "all", "all": "any"}[node.func.id]
                out.append((node, f, o, lambda n, o=o: setattr(n.func, "id", o)))
            if isinstance(node.func, ast.Attribute) and node.func.attr in SWAP:
                out.append((node, f, "." + SWAP[node.func.attr], lambda n: setattr(n.func, "attr", SWAP[n.func.attr])))
        if isinstance(node, ast.Tuple) and len(node.elts) == 2 and isinstance(node.ctx, ast.Load):
            out.append((node, f, "swap tuple", lambda n: n.elts.reverse()))
        if isinstance(node, ast.Slice):
            if node.lower is not None:
                out.append((node, f, "slice no lower", lambda n: setattr(n, "lower", None)))
            if node.upper is not None:
                out.append((node, f, "slice no upper", lambda n: setattr(n, "upper", None)))
        for name in ("body", "orelse", "finalbody"):
            b = getattr(node, name, None)
            if isinstance(b, list) and not isinstance(node, (ast.Module, ast.ClassDef)):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.Continue, ast.Break, ast.For, ast.Delete)) and \
                            not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        out.append((node, f, f"delete {type(s).__name__} line {s.lineno}",
                                    lambda n, name=name, i=i: getattr(n, name).__setitem__(i, ast.Pass())))
                    if i + 1 < len(b) and all(isinstance(x, (ast.Expr, ast.Assign, ast.AugAssign)) and not (
                            isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) for x in b[i:i + 2]):
                        out.append((node, f, f"swap statements line {s.lineno}",
                                    lambda n, name=name, i=i: getattr(n, name).__setitem__(slice(i, i + 2), list(reversed(getattr(n, name)[i:i + 2])))))
        for c in ast.iter_child_nodes(node):
            visit(c, st)
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            n.body[0].value._doc = True
    visit(tree, [])
    return out


SWAP = {"predecessors": "successors", "successors": "predecessors", "append": "remove", "union": "intersection", "intersection": "union",
        "issubset": "issuperset", "issuperset": "issubset", "difference": "union", "add": "discard", "update": "difference_update"}


def mutants(src):
    n = len(sites(ast.parse(src)))
    for i in range(n):
        tree = ast.parse(src)
        node, f, what, do = sites(tree)[i]
        line = getattr(node, "lineno", None)
        if isinstance(do, tuple):
            new = do[1](node)

            class Rep(ast.NodeTransformer):
                def visit(self, x):
                    if x is node:
                        return new
                    return self.generic_visit(x)
            tree = Rep().visit(tree)
        else:
            do(node)
        try:
            txt = ast.unparse(ast.fix_missing_locations(tree))
            compile(txt, "m", "exec")
        except Exception:
            continue
        yield f, line, what, txt


RUN = """
import sys
sys.path.insert(0, %r)
sys.setrecursionlimit(20000)
import rules
from sa.project import Project, AnalysisError
from sa.rule import Report
import json
KNOWN = {f["key"] for f in json.load(open(%r + "/known_findings.json"))["findings"]}
cs = rules.load()
first = sys.argv[1].split(",") if len(sys.argv) > 1 and sys.argv[1] else []
# the likely checks first; the slow general one is not asked
for c in first + [c for c in sorted(cs) if c not in first and c != "C49"]:
    try:
        R = Report(c, Project()); R.tier = "quick"
        cs[c][0](R)
        v = [o for o in R.obs if o["status"] == "violated" and "%%s|%%s|%%s" %% (o["rule"], o["where"].split(":")[0], o["what"]) not in KNOWN]; u = R.count("undecided")
        if v:
            print("V", c)
            break
        elif u: print("U", c)
    except AnalysisError as e:
        print("E", c)
    except Exception as e:
        print("X", c, type(e).__name__)
""" % (HERE, HERE)


def one(job):
    rel, f, line, what, txt, tests = job
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/causalnex", d + "/causalnex", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{d}/causalnex/{rel}", "w").write(txt)
        if tests:
            shutil.copytree("/repo/tests", d + "/tests")
            for x in ("setup.cfg", "pyproject.toml", "pytest.ini"):
                if os.path.exists("/repo/" + x):
                    shutil.copy("/repo/" + x, d)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d, PYTHONHASHSEED="0")
            try:
                t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-cov", "--timeout=60",
                                    "--confcutdir=tests/ebaybbn", "tests/ebaybbn"], cwd=d, env=env, timeout=100, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL).returncode
            except subprocess.TimeoutExpired:
                t = 1
            if t != 0:
                return (f, line, what, "killed", "")
        env = dict(os.environ, VERIF_REPO=d)
        o = subprocess.run([sys.executable, "-c", RUN, os.environ.get("FIRST", "")], env=env, stdout=subprocess.PIPE, text=True, timeout=600).stdout
        v = [l[2:] for l in o.splitlines() if l.startswith("V")]
        rest = [l for l in o.splitlines() if not l.startswith("V")]
        return (f, line, what, "caught" if v else "MISSED", ",".join(v) + " " + ";".join(rest))
    finally:
        shutil.rmtree(d)


def main():
    rel = sys.argv[1]
    tests = "--tests" in sys.argv
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else ""
    src = open(f"/repo/causalnex/{rel}").read()
    base = ast.unparse(ast.parse(src))
    jobs = [(rel, f, l, w, t, tests) for f, l, w, t in mutants(src) if only in f and t != base]
    n = {}
    with cf.ProcessPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for f, line, what, res, who in ex.map(one, jobs):
            n[res] = n.get(res, 0) + 1
            if res != "killed":
                print(f"{res:7} {rel}:{line} {f} {what}  {who}", flush=True)
    print(n)


main()
