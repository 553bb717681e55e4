#!/usr/bin/env python3
"""The property list: writes properties.jsonl and MANIFEST.json (kept in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "crates/mega-evm/src/"
TECH = "bounded symbolic execution of the compiled code (Kani/MIR -> CBMC -> SAT), counterexamples replayed natively"
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=(), na=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": [S + f for f in files],
              "mechanism": [{"name": n, "where": S + w} for n, w in mech], "observe_at": list(observe), "hook_needed": None},
              "_note": note, "_na": na})

exec(open(os.path.join(V, "tools", "proplist.py"), encoding="utf-8").read())

def main():
    with open(V + "/properties.jsonl", "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
    for p in P:
        if p["_na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["_na"]})
            continue
        c = f"python3 tools/vrun.py {p['id']}"
        m["checks"].append({"property": p["id"], "quick_cmd": c, "thorough_cmd": c + " --tier thorough",
                            "evidence_file": f"evidence/{p['id']}.json", "technique": TECH, "level": "model_checking",
                            "level_note": p["_note"]})
    m["notes"] = "No hooks in /repo: the harnesses use public items only. Bounds per property: DESIGN.md and evidence/<id>.json."
    json.dump(m, open(V + "/MANIFEST.json", "w", encoding="utf-8"), indent=1, ensure_ascii=False)
    open(V + "/MANIFEST.json", "a").write("\n")
main()
