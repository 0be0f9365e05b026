"""
Turn entries of tools/mutants.py into planted bugs: seeded/<name>/{patch.diff,demo.sh,meta.json}.

usage: plant.py NAME...      (seeded/<name>/demo.py and meta.json are written by hand beforehand)

Confirms, in a scratch copy of /repo, that the patch changes lines of the base commit, that the tests still pass,
and that the demonstration passes without and fails with the change.  Nothing registered in MANIFEST.json uses this.
"""

import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from mutants import MUTANTS  # noqa: E402
from mutate import structural, tests  # noqa: E402

BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
DEMO = '#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def original_lines(repo, diff):
    """Are all the removed lines of the patch lines of the base commit?"""
    base = set()
    for f in re.findall(r"^--- a/(\S+)", diff, re.M):
        r = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "HEAD", "--", f], capture_output=True, text=True).stdout
        for l in r.splitlines():
            h, rest = l.split(" ", 1)
            if BASE.startswith(h.lstrip("^")[:39]):
                base.add(rest.split(")", 1)[1][1:])
    gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    return [l for l in gone if l.strip() and l not in base], len([l for l in gone if l.strip()])


def run(name):
    m = [x for x in MUTANTS if x[0] == name]
    if not m:
        return "no such mutant"
    _, props, edits = m[0]
    out = os.path.join(HERE, "seeded", name)
    d = "/tmp/w/plant-" + name
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    try:
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        meta = json.load(open(os.path.join(out, "meta.json")))
        for k in ("property", "needs", "what_it_breaks"):
            if not meta.get(k):
                return "meta.json lacks " + k
        r0 = subprocess.run(["sh", os.path.join(out, "demo.sh")], cwd=d, capture_output=True, text=True, timeout=280)
        if r0.returncode:
            return "demo fails on the unchanged tree: " + r0.stdout[-300:] + r0.stderr[-600:]
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if old.startswith(("def:", "class:", "append:", "new:")):
                open(p, "w").write(structural(s, old, new))
                continue
            if old not in s:
                return "text not found: " + old[:60]
            open(p, "w").write(s.replace(old, new, 1))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        foreign, n = original_lines(d, diff)
        if foreign or not n:
            return "patch removes lines which are not in the base commit: %r" % foreign
        r1 = subprocess.run(["sh", os.path.join(out, "demo.sh")], cwd=d, capture_output=True, text=True, timeout=280)
        if not r1.returncode:
            return "demo passes with the change"
        t = tests(d)
        if t != "tests pass":
            return t
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        return "ok: " + (r1.stdout + r1.stderr).strip().splitlines()[-1][:160]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    for n in sys.argv[1:]:
        try:
            print(n, "-", run(n), flush=True)
        except Exception as e:
            print(n, "- error", type(e).__name__, e, flush=True)
