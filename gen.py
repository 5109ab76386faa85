"""writes properties.jsonl and MANIFEST.json from props/catalog.py"""
import importlib
import json
import os

D = os.path.dirname(os.path.abspath(__file__))


def main():
    import sys
    sys.path.insert(0, D)
    cat = importlib.import_module("props.catalog")
    with open(f"{D}/properties.jsonl", "w") as f:
        for p in cat.PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["forall"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [
                    {"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", []),
                    "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in cat.PROPS:
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} --tier quick",
            "thorough_cmd": f"./check {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p.get("technique", cat.TECH),
            "level": p.get("level", "proof"),
            "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "true", "checks": checks,
         "not_applicable": na, "notes": cat.NOTES}
    with open(f"{D}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in cat.PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(len(cat.PROPS), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
