"""Writes MANIFEST.json from the checks present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python /verif/run_check.py"
NA = {
    "P28": "Orthogonal matching pursuit is delegated to scikit-learn's compiled iterative solver "
    "(LAPACK calls, greedy argmax loop): there is no source to execute symbolically, and a model of "
    "it would not be the code that runs.",
}
NOTE = (
    "For every configuration listed in the bounds, each path of the real code is executed on symbolic "
    "field and axis values, and z3 shows every stated equality or refusal for all values inside the "
    "bounds (real arithmetic with tolerance). Trusted: the models of the numpy/scipy functions used "
    "(cross-checked by replaying a witness of every path on the unpatched code), real arithmetic "
    "instead of rounding, z3. Sizes, axis kinds and request forms outside the bounds are not covered."
)


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            checks.append(
                {
                    "property": i,
                    "quick_cmd": "%s %s --tier quick" % (PY, i),
                    "thorough_cmd": "%s %s --tier thorough" % (PY, i),
                    "evidence_file": "evidence/%s.json" % i,
                    "technique": "symbolic execution of the real code, z3 deciding every path and statement",
                    "level": "model_checking",
                    "level_note": NOTE,
                }
            )
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python /verif/tools/selfcheck.py",
        "checks": checks,
        "not_applicable": [
            {"property": i, "reason": r} for i, r in NA.items() if i in [p["id"] for p in props]
        ],
        "notes": "See DESIGN.md. Defects repaired or left standing are in known_findings.json.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    done = [c["property"] for c in checks] + list(NA)
    print(len(checks), "checks; neither claimed nor set aside:", [p["id"] for p in props if p["id"] not in done])


main()
