#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, claim=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, claim=claim, na=na))


VG = "value-graph equivalence (gated SSA of the clang-resolved code vs. specification)"
NOTE_VG = ("Sound up to the engine's normal forms: equal normal forms imply equal values for every input in the analysed "
           "instantiations; trusts clang's front end, LLVM's canonicalisation passes and the specification written beside the check.")

exec(open(os.path.join(V, "tools", "props_data.py")).read())

out = []
for p in P:
    out.append(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                               quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                               anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                            observe_at=p["observe"], hook_needed="none"))))
open(V + "/properties.jsonl", "w").write("\n".join(out) + "\n")
checks, na = [], []
for p in P:
    if p["claim"]:
        t, n = p["claim"]
        checks.append(dict(property=p["id"], quick_cmd="python3 /verif/checks/run.py %s --tier quick" % p["id"],
                           thorough_cmd="python3 /verif/checks/run.py %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=t, level="other", level_note=n))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
json.dump(dict(version=1, setup_cmd="bash /verif/setup.sh", checks=checks, not_applicable=na,
               notes="All checks are static: nothing of EKAT is executed. See DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in out:
        jsonschema.validate(json.loads(l), s)
    jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid")
except ImportError:
    pass
