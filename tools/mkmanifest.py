"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""

import importlib.util
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
spec = importlib.util.spec_from_file_location(
    "properties", os.path.join(HERE, "properties.py")
)
module = importlib.util.module_from_spec(spec)
spec.loader.exec_module(module)

checks, not_applicable = [], []
with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as out:
    for p in module.PROPERTIES:
        out.write(
            json.dumps(
                {
                    "id": p["id"],
                    "title": p["title"],
                    "statement": p["statement"],
                    "quantifier": {"over": p.get("over", ["inputs"]), "text": p["all"]},
                    "why_tests_cant": p["why"],
                    "anchors": {
                        "files": p["files"],
                        "mechanism": [
                            {"name": name, "where": where} for name, where in p["mech"]
                        ],
                        "observe_at": p.get(
                            "observe",
                            ["public API results", "text given to the output writer"],
                        ),
                        "hook_needed": None,
                    },
                }
            )
            + "\n"
        )
        identifier = p["id"]
        if os.path.exists(
            os.path.join(VERIF, "vf", "checks", f"{identifier.lower()}.py")
        ):
            checks.append(
                {
                    "property": identifier,
                    "quick_cmd": f"./check.sh {identifier}",
                    "thorough_cmd": f"./check.sh {identifier} --thorough",
                    "evidence_file": f"evidence/{identifier}.json",
                    "technique": p["technique"],
                    "level": p.get("level", "exploration"),
                    "level_note": p.get("note", module.NOTE),
                }
            )
        else:
            not_applicable.append(
                {"property": identifier, "reason": "its check is not built yet"}
            )

manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": not_applicable,
    "notes": module.NOTES,
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as out:
    json.dump(manifest, out, indent=1)
    out.write("\n")
print(len(checks), "checks;", [n["property"] for n in not_applicable])
