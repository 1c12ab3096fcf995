#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (run by hand; both outputs are committed)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, claimed=True, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  claimed=claimed, technique=technique, note=note, na=na))


FM, FT, IM, IT, TE, NC, SP, HA, PE, PT, SV, EX = ("xmps/fMPS.py", "xmps/fTDVP.py", "xmps/iMPS.py", "xmps/iTDVP.py", "xmps/tensor.py", "xmps/ncon.py",
    "xmps/spin.py", "xmps/Hamiltonians.py", "xmps/fPEPS.py", "xmps/peps_tools.py", "xmps/svd_robust.py", "xmps/mps_examples.py")
AI = "abstract interpretation of the syntax tree over a tensor-contraction domain (no code of the repository is run); the extracted contraction is compared with the reference contraction"

exec(open(os.path.join(HERE, "tools", "props_table.py"), encoding="utf-8").read())

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if p["claimed"] and os.path.exists(os.path.join(HERE, "sa", "rules", p["id"].lower() + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "python3-vt check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"] or "static analysis: " + AI, "level": "other",
                       "level_note": p["note"] or NOTE})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "no check built yet"})
m = {"version": 1, "setup_cmd": "python3-vt check.py --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties;", len(checks), "claimed")
