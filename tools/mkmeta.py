#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when a property is added)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(pid, title, statement, over, qtext, why, files, mech, technique, note, observe=None, level="model_checking"):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique,
                  note=note, observe=observe or [], level=level))


HIST = "TLC trace validation of recorded histories against an explicit TLA+ specification (JungleKV), plus exhaustive TLC model checking"
KVNOTE = ("Histories of the real library (random per profile and generated by TLC from the specification) are accepted by TLC only when a behaviour of "
          "spec/JungleKV.tla explains every reported value; ForestDB below the table files is a stand-in (third_party/forestdb is empty here).")
exec(open(os.path.join(V, "tools", "properties_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"], quantifier=dict(over=x["over"], text=x["qtext"]), why_tests_cant=x["why"],
                                anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]], observe_at=x["observe"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="true",
         hooks=dict(guard="JUNGLE_VERIF_HOOKS", enable="no hooks are needed: drivers use the public API and the headers in src/; nothing in /repo is guarded", source_commits=[]),
         checks=[dict(property=x["id"], quick_cmd="python3 check.py %s" % x["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % x["id"],
                      evidence_file="evidence/%s.json" % x["id"], technique=x["technique"], level=x["level"], level_note=x["note"]) for x in P],
         not_applicable=NA, notes="See DESIGN.md. Known findings: known_findings.txt.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties")
