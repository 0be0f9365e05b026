"""
Self-test of the checks: apply the listed changes to scratch copies of /repo and run checks against them.

usage: mutate.py [-t] [-p PROP,PROP] [-j N] [pattern]     (-t: run the test suite on every copy as well)
Nothing registered in MANIFEST.json uses this file.
"""

import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TMP = "/tmp/w/mut"
sys.path.insert(0, os.path.join(HERE, "tools"))
from mutants import MUTANTS, EQUIVALENT  # noqa: E402
from equiv import EQUIV  # noqa: E402


def structural(s, what, new):
    """Replace a method ("def:Class.name"), function ("def:name") or class ("class:Name"); "append:" adds text at the end."""
    import ast
    import textwrap
    import warnings
    warnings.simplefilter("ignore")
    if what in ("append:", "new:"):
        return s + new
    name = what.split(":")[1].split(".")
    body = ast.parse(s).body
    node = None
    for k in name:
        node = next(n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == k)
        body = node.body
    lines = s.splitlines(True)
    a = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
    if isinstance(node, ast.FunctionDef) and ast.get_docstring(node, clean=False) is not None and new.strip():
        doc = node.body[0]      # kept, as it may hold tests
        tree = ast.parse(textwrap.dedent(new).strip("\n")).body[0]
        head = textwrap.dedent(new).strip("\n").split("\n")
        first = tree.body[0]
        if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant):
            del head[first.lineno - 1:first.end_lineno]
        at = (tree.body[1] if len(tree.body) > 1 and isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant) else first).lineno - 1
        if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant):
            at = first.lineno - 1
        text = "".join(lines[doc.lineno - 1:doc.end_lineno]).rstrip("\n")
        head.insert(at, "\x00")
        new = "\n".join(head)
    else:
        text = ""
    new = textwrap.indent(textwrap.dedent(new).strip("\n") + "\n", " " * node.col_offset)
    new = "\n".join(text if l.strip() == "\x00" else l for l in new.split("\n"))
    return "".join(lines[:a]) + new + "".join(lines[node.end_lineno:])


def prepare(mid, edits):
    d = os.path.join(TMP, mid)
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs", "images"))
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read() if os.path.exists(p) else ""
        if old.split(":")[0] in ("def", "class") or old == "append:" or old == "new:":
            s = structural(s, old, new)
            open(p, "w").write(s)
            continue
        if s.count(old) < 1:
            return None, "%s: text not found in %s: %s" % (mid, f, old[:60])
        s = s.replace(old, new, 1)
        open(p, "w").write(s)
    return d, None


def tests(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=d)
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=300",
                        "-o", "junit_family=xunit2", "--junitxml", d + "/junit.xml"], cwd=d, env=env, capture_output=True, text=True)
    out = d + "/out.json"
    subprocess.run(["python3", "/opt/vp/results.py", out, "junit:" + d + "/junit.xml"], capture_output=True)
    try:
        ok = set(json.load(open(out))["passed"])
    except Exception:
        return "tests: no report"
    miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok
    return "tests pass" if not miss else "TESTS FAIL %d (%s)" % (len(miss), sorted(miss)[0])


def one(mid, props, edits, run_tests, only):
    d, err = prepare(mid, edits)
    if err:
        return mid, err, {}
    out = {}
    t = tests(d) if run_tests else ""
    for p in only or props:
        env = dict(os.environ, ZKSA_REPO=d, ZKSA_EVIDENCE=d + "/evidence")
        r = subprocess.run(["python3", os.path.join(HERE, "check.py"), p], capture_output=True, text=True, env=env, cwd=HERE)
        out[p] = (r.returncode, r.stdout + r.stderr)
    shutil.rmtree(d)
    return mid, t, out


def main():
    a = sys.argv[1:]
    run_tests = "-t" in a
    a = [x for x in a if x != "-t"]
    only, jobs = None, 8
    if "-p" in a:
        i = a.index("-p")
        only = a[i + 1].split(",")
        del a[i:i + 2]
    if "-j" in a:
        i = a.index("-j")
        jobs = int(a[i + 1])
        del a[i:i + 2]
    pat = a[0] if a else ""
    claimed = [l.strip() for l in open(os.path.join(HERE, "tools", "claimed")) if l.strip()]
    os.makedirs(TMP, exist_ok=True)
    work = [(m, p.split(), e, True) for m, p, e in MUTANTS if re.search(pat, m)]
    work += [(m, claimed if p == "all" else p.split(), e, False) for m, p, e in EQUIVALENT if re.search(pat, m)]
    work += [(m, claimed, e, False) for m, e in EQUIV if re.search(pat, m)]
    with cf.ThreadPoolExecutor(jobs) as ex:
        fs = {ex.submit(one, m, [x for x in p if x in claimed], e, run_tests, only): (m, breaks) for m, p, e, breaks in work}
        for f in cf.as_completed(fs):
            m, breaks = fs[f]
            mid, t, out = f.result()
            line = "%-34s %s " % (mid, t)
            for p, (rc, text) in out.items():
                und = re.search(r"undecided=(\d+)", text)
                und = und.group(1) if und else "?"
                if breaks:
                    line += " %s:%s" % (p, "caught" if rc == 1 else "MISSED(rc%d,und%s)" % (rc, und))
                elif rc != 0 or und != "0":
                    line += " %s:%s" % (p, "ALARM" if rc == 1 else "rc%d,und%s" % (rc, und))
                    if rc == 1:
                        line += "\n" + "\n".join(text.splitlines()[:3])
            print(line, flush=True)


if __name__ == "__main__":
    main()
