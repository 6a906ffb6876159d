#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # (property, check)


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), level="model_checking",
         technique="", note="", thorough=True):
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                     "observe_at": list(observe), "hook_needed": None}}
    c = {"property": id, "quick_cmd": "python3 check.py " + id, "technique": technique, "level": level, "level_note": note}
    if thorough:
        c["thorough_cmd"] = "VERIF_TIER=thorough python3 check.py " + id
    P.append((p, c))


ENG = ["monitors/c/src/engines/engines.c", "monitors/c/src/engines/mltl.c", "monitors/c/src/memory/shared_connection_queue.h",
       "monitors/c/src/memory/shared_connection_queue.c", "compiler/c2po/passes.py", "compiler/c2po/assemble.py"]
TRACE = "TLA+ trace validation with TLC (specification-generated and random programs run on the real tools)"

exec(open(os.path.join(V, "tools", "props_list.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _ in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [c for _, c in P], "not_applicable": NOT_APPLICABLE}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p, _ in P:
        jsonschema.validate(p, s)
    print("valid,", len(P), "properties")
except ImportError:
    pass
