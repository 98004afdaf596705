#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/catalog.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
import catalog  # noqa: E402
import rules  # noqa: E402

checks = rules.load()
KEYS = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
na = {x["id"]: x for x in catalog.NOT_APPLICABLE}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in catalog.PROPS + catalog.NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in KEYS}) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa rules check.py >/dev/null 2>&1 || true; python3 check.py C02 --list",
     "checks": [], "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in catalog.NOT_APPLICABLE],
     "notes": "Static analysis only: no code of /repo is imported or run by any check. See DESIGN.md."}
for p in catalog.PROPS:
    assert p["id"] in checks, p["id"]
    m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                        "technique": p["technique"], "level": "other", "level_note": p["note"]})
extra = set(checks) - {p["id"] for p in catalog.PROPS}
assert not extra, extra
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")


def design():
    D = os.path.join(HERE, "design")
    out = [open(os.path.join(D, "head.md")).read(), "## 5. Per property\n\n"]
    for p in catalog.PROPS:
        a = p["anchors"]
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
                   f"*Anchors:* " + "; ".join(f"{m['name']}: {m['where']}" for m in a["mechanism"]) + ". "
                   f"*Decided by:* {p['technique']}. *Rule:* {p['rule']} *Bounds:* {p['note']} "
                   f"*Beyond tests because:* {p['why_tests_cant']}.\n\n")
    if catalog.NOT_APPLICABLE:
        out.append("### Not applicable\n\n")
        for p in catalog.NOT_APPLICABLE:
            out.append(f"* **{p['id']} {p['title']}** - {p['reason']}\n")
        out.append("\n")
    out.append(open(os.path.join(D, "tail.md")).read())
    out.append("\n## 10. Which checks catch which planted bugs\n\n")
    catches = json.load(open(os.path.join(D, "catches.json")))
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        mt = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
        c = catches.get(d)
        out.append(f"* `{d}` ({mt['property']}): " + (f"caught by {', '.join(c)}" if c else "missed") + "\n")
    open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))


design()
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(HERE, "properties.jsonl")):
        jsonschema.validate(json.loads(line), s)
except ImportError:
    pass
print(len(catalog.PROPS), "claimed,", len(catalog.NOT_APPLICABLE), "not applicable")
