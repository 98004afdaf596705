#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--list] [--explain]

Decides one property from the source under /repo/causalnex (VERIF_REPO overrides the path). Nothing of /repo is run.
Exit 0: no violation outside known_findings.json. Exit 1: VIOLATION lines. Exit 2: no analysis (unreadable
source or a missing public anchor). A construct the interpreter cannot follow leaves the rest undecided (listed, exit 0).
"""
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.project import AnalysisError, Project  # noqa: E402
from sa.rule import Report  # noqa: E402


def known():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)


def too_long(*_):
    raise TimeoutError("the analysis does not end")


def key(o):
    return f"{o['rule']}|{o['where'].split(':')[0]}|{o['what']}"


def controls(pid, fn, repo):
    """positive controls of the thorough tier: known breaking edits of the same source must be reported by this very check"""
    import glob
    import importlib.util
    import shutil
    import tempfile
    out = {"applied": 0, "reported": 0, "not_reported": [], "not_applicable_to_this_tree": 0}
    for f in sorted(glob.glob(os.path.join(HERE, "battery", "*.py"))):
        spec = importlib.util.spec_from_file_location("battery_edits", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for name, ids, file, subs in m.EDITS:
            if pid not in ids.split(","):
                continue
            d = tempfile.mkdtemp(prefix="ctl_")
            try:
                shutil.copytree(os.path.join(repo, "causalnex"), d + "/causalnex", ignore=shutil.ignore_patterns("__pycache__"))
                ok = True
                for ff, ss in ([(file, subs)] if file else subs):
                    with open(f"{d}/causalnex/{ff}") as h:
                        t = h.read()
                    ok = ok and all(a in t for a, _ in ss)
                    for a, b in ss:
                        t = t.replace(a, b)
                    with open(f"{d}/causalnex/{ff}", "w") as h:
                        h.write(t)
                if not ok:
                    out["not_applicable_to_this_tree"] += 1
                    continue
                out["applied"] += 1
                try:
                    C = Report(pid, Project(d))
                    C.tier = "quick"
                    fn(C)
                    hit = C.count("violated") > 0
                except Exception:
                    hit = False
                if hit:
                    out["reported"] += 1
                else:
                    out["not_reported"].append(name)
            finally:
                shutil.rmtree(d)
    return out


def main(argv):
    import rules
    args = [a for a in argv if not a.startswith("--")]
    tier = "quick"
    for i, a in enumerate(argv):
        if a == "--tier":
            tier = argv[i + 1]
            args.remove(tier)
        elif a.startswith("--tier="):
            tier = a.split("=", 1)[1]
    tier = os.environ.get("VERIF_TIER", tier) if "--tier" not in " ".join(argv) else tier
    pid = args[0]
    checks = rules.load()
    if "--list" in argv:
        print("\n".join(sorted(checks)))
        return 0
    if pid not in checks:
        print(f"no check for {pid}", file=sys.stderr)
        return 2
    t0 = time.time()
    sys.path.insert(0, os.path.join(HERE, "tools"))
    import catalog
    fn = checks[pid][0]
    claim = next(p["rule"] for p in catalog.PROPS if p["id"] == pid)
    R = None
    try:
        R = Report(pid, Project())
        R.tier = tier
        # an analysis that does not end has no answer: what was decided by then counts
        signal.signal(signal.SIGALRM, too_long)
        signal.alarm(int(os.environ.get("VERIF_LIMIT", "780" if tier == "quick" else "840")))
        fn(R)
        signal.alarm(0)
    except AnalysisError as e:
        print(f"ANALYSIS-ERROR property={pid} {e}", file=sys.stderr)
        # a private part that is no longer there may have been renamed: nobody outside relies on its name
        if R is None or not str(e).startswith("anchor vanished: ") or not str(e).rsplit(".", 1)[-1].startswith("_") or str(e).endswith("__"):
            return 2
        R.und("analysis", "-", "the part of the source the property is anchored on is there", str(e))
    except Exception:
        # a construct the interpreter cannot follow: what was decided before it counts, the rest is undecided
        traceback.print_exc()
        print(f"ANALYSIS-ERROR property={pid} internal error", file=sys.stderr)
        if R is None:
            return 2
        R.und("analysis", "-", "the source could be followed to the end", traceback.format_exc().strip().splitlines()[-1])
    kf = {f["key"]: f for f in known()["findings"] if f["property"] == pid}
    viol, listed = [], []
    for o in R.obs:
        if o["status"] == "violated":
            (listed if key(o) in kf else viol).append(o)
    n = {s: R.count(s) for s in ("holds", "violated", "undecided")}
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": claim,
            "source_digest": R.p.digest,
            "functions_analysed": sorted(R.funcs),
            "functions": len(R.funcs), "call_sites": R.calls, "source_lines": R.lines, "events": R.nevents,
            "obligations": len(R.obs), "holds": n["holds"], "violated": n["violated"], "undecided": n["undecided"],
            "rules": sorted({o["rule"] for o in R.obs}),
            "instances": [{k: o[k] for k in ("status", "rule", "where", "what", "msg") if o[k]} for o in R.obs],
            "known_findings": [key(o) for o in listed],
        },
        "wall_s": round(time.time() - t0, 3),
    }
    if tier == "thorough":
        ev["coverage"]["positive_controls"] = controls(pid, fn, R.p.repo)
        ev["wall_s"] = round(time.time() - t0, 3)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for o in listed:
        print(f"KNOWN-FINDING: property={pid} {kf[key(o)]['text']}")
    for o in R.obs:
        if o["status"] == "undecided" or "--explain" in argv:
            print(f"  {o['status'].upper():9} {o['where']} [{o['rule']}] {o['what']}: {o['msg']}")
    rd = os.path.join(HERE, "evidence", "replay")
    if viol:
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, pid + ".json")
        with open(path, "w") as f:
            json.dump({"property": pid, "repo": R.p.repo, "source_digest": R.p.digest, "violations": viol,
                       "rerun": f"python3 /verif/check.py {pid} --explain"}, f, indent=1)
        for o in viol:
            print(f"  {o['where']} [{o['rule']}] {o['what']}: {o['msg']}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"{pid}: {n['holds']} obligations hold, {n['undecided']} undecided, {len(listed)} known; {len(R.funcs)} functions, "
          f"{R.calls} call sites, {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
