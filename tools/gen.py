"""Write properties.jsonl and MANIFEST.json from props.py (only properties that have a monitor)."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P, TECH  # noqa: E402

have = [k for k in sorted(P) if os.path.exists(os.path.join(root, "vmon", "props", k.lower() + ".py"))]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for k in have:
        q = P[k]
        a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]], "hook_needed": None}
        for x in q["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x
        assert len(q["title"]) <= 80, (k, len(q["title"]))
        assert q["statement"].count(". ") <= 2, k
        f.write(json.dumps({"id": k, "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]},
                            "why_tests_cant": q["why"], "anchors": a}) + "\n")
checks = [{"property": k, "quick_cmd": "bash check.sh %s quick" % k, "thorough_cmd": "bash check.sh %s thorough" % k,
           "technique": TECH + P[k]["oracle"], "level": "exploration", "level_note": P[k]["note"]} for k in have]
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
               "notes": "Pure Python code base: monitors run the real code in place and patch nothing in /repo (no hooks needed)."}, f, indent=1)
    f.write("\n")
print(len(have), "properties")
