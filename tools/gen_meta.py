"""Writes properties.jsonl and MANIFEST.json from one description (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EA = "amzn-smt-eager-arithmetic/src/"
PROPS, CHECKS, NA = [], [], []


def prop(id, title, statement, over, text, why, files, mech, observe, tech=None, level="exploration", note=None, na=None, hook=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement)
    for f in files:
        assert os.path.exists(os.path.join("/repo", f)), f
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                              "observe_at": observe, "hook_needed": hook}})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        cmd = "python3-vt checks/%s.py" % id.lower()
        CHECKS.append({"property": id, "quick_cmd": "VERIF_TIER=quick " + cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                       "evidence_file": "evidence/%s.json" % id, "technique": tech, "level": level, "level_note": note})


TESTS = "The repository's tests run a handful of fixed scripts; "
exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": CHECKS, "not_applicable": NA}, f, indent=1)
    f.write("\n")
import jsonschema
ps, ms = (json.load(open("/root/.vp/%s.schema.json" % n)) for n in ("PROPERTIES", "MANIFEST"))
for p in PROPS:
    jsonschema.validate(p, ps)
jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), ms)
print(len(PROPS), "properties", len(CHECKS), "checks", len(NA), "n/a")
