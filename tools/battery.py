#!/usr/bin/env python3
"""battery.py [name-prefix]: apply each edit of battery/*.py to a scratch copy of the package and run every check on it.

An edit is (name, kind, file, [(old, new), ...]); kind 'ref' must leave all checks quiet, kind 'C07' (or 'C03,C07') must be
caught by one of those checks."""
import concurrent.futures as cf
import glob
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def load():
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, "battery", "*.py"))):
        spec = importlib.util.spec_from_file_location("b", p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.EDITS
    return out


SLOW = {"structure/": ["C38"]}
RUN = """
import sys, os, json, time
sys.path.insert(0, %r)
sys.setrecursionlimit(20000)
import rules
from sa.project import Project, AnalysisError
from sa.rule import Report
import traceback
KNOWN = {f["key"] for f in json.load(open(os.path.join(%r, "known_findings.json")))["findings"]}
cs = rules.load()
only = sys.argv[1].split(",") if len(sys.argv) > 1 and sys.argv[1] else sorted(cs)
if len(sys.argv) > 2 and only == sorted(cs):
    # the slow checks read these files only
    only = [c for c in only if not any(c in cs1 and not any(f.startswith(p) for f in sys.argv[2].split(",")) for p, cs1 in %r.items())]
for c in only:
    try:
        R = Report(c, Project()); R.tier = "quick"
        t=time.time()
        cs[c][0](R)
        for o in R.obs:
            fk = "%%s|%%s|%%s" %% (o["rule"], o["where"].rsplit(":", 1)[0], o["what"])
            if o["status"] != "holds" and fk not in KNOWN:
                print(c, o["status"], o["where"], "[%%s] %%s: %%s" %% (o["rule"], o["what"], o["msg"][:200]))
    except AnalysisError as e:
        print(c, "ERROR", e)
    except Exception as e:
        print(c, "CRASH", traceback.format_exc().strip().replace(chr(10), " | ")[-400:])
""" % (HERE, HERE, SLOW)


def one(ed):
    name, kind, file, subs = ed
    d = tempfile.mkdtemp(prefix="bat_")
    try:
        shutil.copytree("/repo/causalnex", d + "/causalnex", ignore=shutil.ignore_patterns("__pycache__"))
        files = [(file, subs)] if file else subs
        for f, ss in files:
            p = os.path.join(d, "causalnex", f)
            s = open(p).read()
            for a, b in ss:
                if s.count(a) < 1:
                    return name, kind, "BADEDIT " + repr(a[:60]), ""
                s = s.replace(a, b, 1)
            compile(s, p, "exec")
            open(p, "w").write(s)
        tests = ""
        if os.environ.get("BAT_TESTS"):
            shutil.copytree("/repo/tests", d + "/tests", ignore=shutil.ignore_patterns("__pycache__"))
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests/ebaybbn", "-c", "/dev/null",
                                "--rootdir", d], cwd=d, capture_output=True, text=True, timeout=120, env=dict(os.environ, PYTHONPATH=d))
            tests = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
        only = "" if kind in ("ref", "any") or os.environ.get("BAT_ALL") else kind
        r = subprocess.run([sys.executable, "-c", RUN, only, ",".join(f for f, _ in files)], capture_output=True, text=True, timeout=600,
                           env=dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE="1"))
        return name, kind, r.stdout + r.stderr, tests
    finally:
        shutil.rmtree(d)


def main():
    pre = sys.argv[1] if len(sys.argv) > 1 else ""
    eds = [e for e in load() if e[0].startswith(pre) or pre in e[0]]
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for name, kind, out, tests in ex.map(one, eds):
            lines = out.strip().splitlines()
            viol = {l.split()[0] for l in lines if " violated " in l}
            err = [l for l in lines if " ERROR " in l or " CRASH " in l or "BADEDIT" in l or "Traceback" in l]
            if kind == "ref":
                ok = not viol and not err
            else:
                ok = bool(viol if kind == "any" else viol & set(kind.split(","))) and "BADEDIT" not in out
            und = sum(" undecided " in l for l in lines)
            print(f"{'ok ' if ok else 'BAD'} {name:34} {kind:10} viol={','.join(sorted(viol)) or '-'} und={und} {tests}")
            if not ok:
                bad += 1
                for l in lines[:6]:
                    print("      ", l[:420])
    print(len(eds), "edits,", bad, "bad")


main()
