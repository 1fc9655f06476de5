#!/usr/bin/env python3
"""The table of properties; writes properties.jsonl and MANIFEST.json. (props.py [--check])"""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, note, level="model_checking", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  note=note, level=level, observe=observe or []))


def na(id, title, statement, over, quant, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  note=None, level=None, observe=[]))
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(V, "tools", "props_table.py")).read())


def main():
    P.sort(key=lambda p: p["id"])
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
            for x in p["files"]:
                if not os.path.exists("/repo/" + x):
                    print("no such file:", p["id"], x)
    checks = [{
        "property": p["id"],
        "quick_cmd": f"python3 /verif/tools/check.py {p['id']} quick",
        "thorough_cmd": f"python3 /verif/tools/check.py {p['id']} thorough",
        "technique": "symbolic execution of the compiled code (LLVM IR), SMT-discharged assertions, native replay of counterexamples",
        "level": p["level"], "level_note": p["note"],
    } for p in P if p["note"]]
    m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py", "checks": checks, "not_applicable": NA,
         "notes": "One engine (engine/), one driver (tools/check.py), one harness crate per area (harness/); see DESIGN.md."}
    with open(f"{V}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
