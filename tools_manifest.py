"""Writes MANIFEST.json from properties.jsonl and the modules in pbt/props."""

import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
NOTE = (
    "Randomised search (Hypothesis) over generated types, values, payloads or histories with an explicit oracle; a pass "
    "means that no counterexample was found among the generated cases, not that there is none. Trusted: the generators' "
    "idea of what is supported and the reference semantics in pbt/spec.py or the property's own model."
)


def main():
    checks, missing = [], []
    with open(os.path.join(ROOT, "properties.jsonl")) as fp:
        props = [json.loads(line) for line in fp]
    for p in props:
        pid = p["id"]
        path = os.path.join(ROOT, "pbt", "props", f"{pid.lower()}.py")
        if not os.path.exists(path):
            missing.append({"property": pid, "reason": "The check is not built yet."})
            continue
        ns = {}
        with open(path) as fp:
            for line in fp:
                if line.startswith("TECHNIQUE = "):
                    exec(line, ns)
        cmd = f"/opt/venv/bin/python -B check.py {pid}"
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"{cmd} --tier quick",
                "thorough_cmd": f"{cmd} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": ns["TECHNIQUE"],
                "level": "exploration",
                "level_note": NOTE,
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B check.py --self-test",
        "checks": checks,
        "not_applicable": missing,
        "notes": (
            "Every check imports databind from /repo/databind/src at run time; nothing is built and there are no hooks. "
            "See DESIGN.md."
        ),
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fp:
        json.dump(manifest, fp, indent=1)
        fp.write("\n")


if __name__ == "__main__":
    main()
