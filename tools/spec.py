"""The list of properties: generates properties.jsonl and MANIFEST.json.
   python3 tools/spec.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("contracts on the real functions, discharged function by function by deductive verification: symbolic execution of "
        "code extracted from /repo on every run, obligations to z3 (cvc5 second)")
PROPS = []
NA = []


def prop(pid, title, statement, over, text, tests, files, mech, note, level="proof", state=(), observe=(), theorems=None):
    PROPS.append(dict(
        rec={"id": pid, "title": title, "statement": statement,
             "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
             "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                         "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                         "observe_at": list(observe), "hook_needed": None}},
        note=note, level=level, theorems=theorems))


exec(open(os.path.join(HERE, "tools", "list.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["rec"]["title"]) <= 80, p["rec"]["id"]
            f.write(json.dumps(p["rec"]) + "\n")
    na = {r["property"] for r in NA}
    m = {"version": 1, "setup_cmd": "python3 tools/setup_check.py",
         "checks": [dict({"property": p["rec"]["id"], "quick_cmd": f"python3 check.py {p['rec']['id']} quick",
                          "thorough_cmd": f"python3 check.py {p['rec']['id']} thorough",
                          "evidence_file": f"evidence/{p['rec']['id']}.json",
                          "technique": TECH, "level": p["level"], "level_note": p["note"]})
                    for p in PROPS if p["rec"]["id"] not in na],
         "not_applicable": NA,
         "notes": "No hooks in /repo: the code is extracted from /repo's working tree by an import hook on every run."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)


if __name__ == "__main__":
    main()
