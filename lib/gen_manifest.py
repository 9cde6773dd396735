#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry in props.py and properties.jsonl."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core
import props

ids = [json.loads(l)["id"] for l in open(core.VERIF + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    p = props.PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "technique": p["technique"],
        "level": p["level"],
        "level_note": p["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 lib/gen_manifest.py --check",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": props.NOT_APPLICABLE[i]} for i in ids if i not in props.PROPS],
    "notes": "No hooks in /repo: instrumentation is added at compile and link time (sanitizers, sancov, --wrap, mock transports). "
             "Every check compiles /repo's current sources itself; nothing is built in setup_cmd.",
}
text = json.dumps(m, indent=1) + "\n"
path = core.VERIF + "/MANIFEST.json"
if "--check" in sys.argv:
    if open(path).read() != text:
        sys.exit("MANIFEST.json is not what lib/gen_manifest.py generates")
else:
    open(path, "w").write(text)
