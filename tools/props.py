#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, script=None, technique=None, level="exploration", note=None,
         state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, script=script,
                  technique=technique, level=level, note=note, state=state, observe=observe, na=na))


exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")

m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "MUON_VERIF", "enable": "no hooks are needed: harnesses link /repo's objects and interpose at link time",
               "source_commits": []},
     "checks": [], "not_applicable": []}
for p in P:
    if p["script"]:
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 checks/{p['script']} --quick",
                            "thorough_cmd": f"python3 checks/{p['script']} --thorough",
                            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not claimed")
