#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    assert len(title) <= 80, title
    P.append(dict(
        p=dict(id=id, title=title, statement=statement,
               quantifier=dict(over=over, text=text), why_tests_cant=why,
               anchors=dict(files=files,
                            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                            mechanism=[dict(name=a, where=b) for a, b in mech],
                            observe_at=observe, hook_needed=None)),
        m=dict(property=id, quick_cmd="./check " + id,
               thorough_cmd="VERIF_TIER=thorough ./check " + id,
               evidence_file="evidence/%s.json" % id,
               technique=technique, level="exploration", level_note=note)))
L = "source/"
COMP = L + "lib_compiler/"
VM = L + "lib_vm/"
exec(open(os.path.join(D, "tools", "props_data.py")).read())
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x["p"]) + "\n")
with open(os.path.join(D, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="true", checks=[x["m"] for x in P], not_applicable=[],
                   notes="No hooks in /repo: every check drives the public headers and programs. "
                         "Each check rebuilds the libraries from /repo's working tree into build/<id>."),
              f, indent=1)
    f.write("\n")
