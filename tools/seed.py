#!/usr/bin/env python3
"""seed.py [name-filter]: build seeded/<id>/ from seeds_src/*.py, keeping only changes that pass the stable tests and whose
demonstration passes without the change and fails with it. Works in a scratch copy of /repo."""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here" PYTHONHASHSEED=0
exec %s "$here/demo.py"
"""


def load():
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, "seeds_src", "*.py"))):
        spec = importlib.util.spec_from_file_location("s", p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.SEEDS
    return out


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=280, **kw)


def main():
    flt = sys.argv[1] if len(sys.argv) > 1 else ""
    bad = 0
    for s in load():
        if flt not in s["id"]:
            continue
        d = tempfile.mkdtemp(prefix="seed_")
        w = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        dd = d + "/demo"
        os.mkdir(dd)
        try:
            open(dd + "/demo.py", "w").write(s["demo"])
            for n, txt in s.get("files", {}).items():
                open(f"{dd}/{n}", "w").write(txt)
            open(dd + "/demo.sh", "w").write(SH % s.get("python", "/opt/venv/bin/python"))
            os.chmod(dd + "/demo.sh", 0o755)
            r0 = sh(["sh", dd + "/demo.sh"], w)
            for f, subs in s["edits"].items():
                p = f"{w}/causalnex/{f}"
                t = open(p).read()
                for a, b in subs:
                    if a not in t:
                        print("    text not found", a)
                    t = t.replace(a, b)
                open(p, "w").write(t)
            r1 = sh(["sh", dd + "/demo.sh"], w)
            diff = sh(["git", "diff"], w).stdout
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=w, PYTHONHASHSEED="0")
            t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=300",
                    "--confcutdir=tests/ebaybbn", "tests/ebaybbn"], w, env=env)
            ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
            checks = [s["property"]] + s.get("also", [])
            caught = []
            for c in checks:
                e = dict(os.environ, VERIF_REPO=w, VERIF_NOEVIDENCE="1")
                q = sh([sys.executable, HERE + "/check.py", c], HERE, env=e)
                caught.append(f"{c}:{q.returncode}")
            print(("ok  " if ok else "BAD ") + s["id"], f"demo {r0.returncode}->{r1.returncode} tests {t.returncode}", *caught)
            if not ok:
                bad += 1
                print("   ", r0.stdout[-400:], "|", r1.stdout[-300:], "|", t.stdout[-600:] if t.returncode else "")
                continue
            o = f"{HERE}/seeded/{s['id']}"
            if os.path.isdir(o):
                shutil.rmtree(o)
            os.makedirs(o)
            for n in os.listdir(dd):
                if os.path.isfile(f"{dd}/{n}"):
                    shutil.copy(f"{dd}/{n}", o)
            open(o + "/patch.diff", "w").write(diff)
            cj = HERE + "/design/catches.json"
            cat = json.load(open(cj)) if os.path.exists(cj) else {}
            cat[s["id"]] = [c.split(":")[0] for c in caught if c.endswith(":1")]
            json.dump(cat, open(cj, "w"), indent=1, sort_keys=True)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(d)
    return 1 if bad else 0


sys.exit(main())
