"""The properties, and the harness binaries that decide them.

`python3 tools/properties.py` rewrites properties.jsonl and MANIFEST.json.
"""
import json
import os

BOTH = ["release", "checked"]
PROPERTIES = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mechanism, rule, bins, technique, note,
         state=(), observe=(), assumptions=()):
    PROPERTIES.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
        "rule": rule, "bins": bins, "technique": technique, "level_note": note,
        "assumptions": list(assumptions),
    })


H = lambda b: [("harness", b, BOTH)]
REF = ("Generated cases only, no exhaustiveness. Trusts the harness's own schoolbook integer "
       "arithmetic (32-bit digits, written independently of the repository).")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "catalogue.py")).read())


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    PROPERTIES.sort(key=lambda p: p["id"])
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in PROPERTIES:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        for p in NOT_APPLICABLE:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 check.py run %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py run %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["level_note"],
        } for p in PROPERTIES],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
        "notes": "Known findings and repairs: known_findings.txt. Every check rebuilds the harness against /repo's working tree.",
    }
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
