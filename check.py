#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo from its source."""

import json
import os
import re
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
os.environ.setdefault("PYTHONHASHSEED", "0")

from zksa import core, notes  # noqa: E402
from zksa.program import AnalysisBroken  # noqa: E402


def known_findings(prop):
    """Obligations listed as failing on the unchanged tree: {obligation: description}."""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) obligation="([^"]*)" (.*)', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main(argv):
    verbose = "-v" in argv
    argv = [a for a in argv if a != "-v"]
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    try:
        prog = core.program()
        ck, per_rule = core.run(prop, tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    by = {v: [r for r in ck.results if r.verdict == v] for v in (core.PROVED, core.AGREES, core.REFUTED, core.UNKNOWN)}
    analysed = set()
    calls = 0
    for I in ck.scenarios:
        analysed |= I.analysed
        calls += I.calls
    ev_dir = os.environ.get("ZKSA_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
    known = known_findings(prop)
    listed = [r for r in by[core.REFUTED] if r.what in known]
    bad = [r for r in by[core.REFUTED] if r.what not in known]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": notes.explanation(prop),
            "obligations": len(ck.results),
            "discharged": len(by[core.PROVED]) + len(by[core.AGREES]),
            "discharged_by_canonical_form": len(by[core.PROVED]),
            "discharged_by_random_interpretation_only": len(by[core.AGREES]),
            "known_findings": [r.what for r in listed],
            "undecided": [{"rule": r.rule, "what": r.what, "detail": r.detail} for r in by[core.UNKNOWN]],
            "checker_cmd": "python3 check.py %s" % prop,
            "trusted_base": [
                "the Python semantics modelled in zksa/interp.py and zksa/externs.py",
                "petlib, bplib, msgpack and hashlib behave as documented",
                "the specification terms in zksa/rules",
            ],
            "rules": [{"rule": a, "obligations": b, "seconds": c} for a, b, c in per_rule],
            "scenarios": len(ck.scenarios),
            "functions_analysed": sorted(analysed),
            "call_sites_analysed": calls,
            "source_digest": prog.digest(),
            "samples": [{"rule": r.rule, "obligation": r.what, "verdict": r.verdict, "detail": r.detail} for r in ck.results][:40],
        },
        "assumptions": sorted({n for I in ck.scenarios for n in I.notes})[:50],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    rc = 0
    for what in sorted({r.what for r in listed}):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, what, known[what]))
    if bad:
        path = os.path.join(ev_dir, "replay", prop + ".json")
        with open(path, "w") as f:
            json.dump([{"rule": r.rule, "obligation": r.what, "detail": r.detail, "where": r.where} for r in bad], f, indent=1)
        for r in bad[:10]:
            print("refuted: [%s] %s\n    %s%s" % (r.rule, r.what, r.detail, "\n    at " + r.where if r.where else ""))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif not by[core.PROVED] and not by[core.AGREES]:
        print("ANALYSIS-BROKEN property=%s no obligation could be decided" % prop)
        rc = 2
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in by[core.UNKNOWN]:
        print("undecided: [%s] %s: %s" % (r.rule, r.what, r.detail))
    if verbose:
        for r in ck.results:
            print(r.verdict.upper().ljust(8), "[%s] %s  %s" % (r.rule, r.what, core.short(r.detail, 200)))
        for a, b, c in per_rule:
            print("  ", a, b, c)
        print(core.short(sorted({n for I in ck.scenarios for n in I.notes}), 2000))
    print("property=%s obligations=%d discharged=%d undecided=%d refuted=%d functions=%d wall=%.1fs" % (
        prop, len(ck.results), len(by[core.PROVED]) + len(by[core.AGREES]), len(by[core.UNKNOWN]), len(bad), len(analysed), time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
