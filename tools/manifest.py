"""Write MANIFEST.json from the list of claimed properties."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from zksa import notes  # noqa: E402

NA = {
    "C22": "knowledge soundness quantifies over all efficient provers and rests on computational assumptions; no static argument about this source decides it (its algebraic necessary conditions are C02, C03, C05, C06, C11-C14)",
    "C23": "running time is decided inside OpenSSL and CPython, outside of the repository and below its source language",
    "C24": "the arithmetic is in petlib, bplib, OpenSSL and RELIC, which are not part of the repository; the checks take it as given",
}


def main():
    ids = [l.strip() for l in open(os.path.join(HERE, "tools", "claimed")) if l.strip()]
    checks = []
    for i in ids:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "static analysis: " + notes.TECHNIQUE[i],
            "level": "other",
            "level_note": notes.note(i),
        })
    all_ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    na = []
    for i in all_ids:
        if i in ids:
            continue
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 -m py_compile check.py", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")


main()
