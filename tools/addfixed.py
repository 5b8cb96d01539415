#!/usr/bin/env python3
"""Record repairs in known_findings.json: tools/addfixed.py PROP=SHA [PROP=SHA ...] (text from the commit)."""
import json
import pathlib
import subprocess
import sys

path = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
data = json.loads(path.read_text())
for item in sys.argv[1:]:
    prop, sha = item.split("=")
    msg = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%B", sha], capture_output=True, text=True, check=True).stdout
    subject, _, body = msg.strip().partition("\n")
    text = "%s (%s)" % (subject[len("fix: "):], " ".join(body.split())) if body.strip() else subject[len("fix: "):]
    line = "fixed: property=%s %s %s" % (prop, sha, text)
    if not any(" %s " % sha in f for f in data["fixed"]):
        data["fixed"].append(line)
path.write_text(json.dumps(data, indent=1) + "\n")
