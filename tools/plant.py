"""Makes /verif/seeded/<id> from a definitions file and tries it out in a scratch copy.

python3 tools/plant.py DEFS.py [id ...]   with DEFS.py defining
BUGS = {id: dict(prop=, edits=[(file, old, new)...], demo=python source, needs=, breaks=)}
Prints per bug: whether it touches original lines, builds, passes the tests, demo verdicts, which checks catch it.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"
BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
DEMO_HEAD = '''import os, sys, io, struct, tempfile, shutil
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
sys.dont_write_bytecode = True
import numpy as np
import simplemseed
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="plant-")
    w = os.path.join(d, "repo")
    shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".pytest_cache"))
    return d, w


def env_for(w):
    e = dict(os.environ, PYTHONPATH=os.path.join(w, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    e["PYTHONPYCACHEPREFIX"] = os.path.join(os.path.dirname(w), "pyc")
    return e


def original_lines(w, diff):
    """Removed lines of the diff that stem from the original repository, and those that do not."""
    yes = no = 0
    for f in sorted(set(re.findall(r"^--- a/(\S+)", diff, re.M))):
        blame = sh(["git", "-C", w, "blame", "-s", "-l", "HEAD", "--", f]).stdout.splitlines()
        cur = 0
        infile = False
        for line in diff.splitlines():
            if line.startswith("--- "):
                infile = line == f"--- a/{f}"
            elif infile and line.startswith("@@"):
                cur = int(re.match(r"@@ -(\d+)", line)[1])
            elif infile and line.startswith("-"):
                b = blame[cur - 1].lstrip("^")
                if BASE.startswith(b.split()[0]):
                    yes += 1
                else:
                    no += 1
                cur += 1
            elif infile and line.startswith(" "):
                cur += 1
    return yes, no


def tests_ok(w):
    r = sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-x"], cwd=w, env=env_for(w))
    return r.returncode == 0, r.stdout[-600:]


def run_check(w, prop, seed=1):
    r = sh([PY, "pbt/run.py", prop, "--no-evidence", "--seed", str(seed)], cwd=VERIF, env=dict(os.environ, VERIF_REPO=w, PYTHONHASHSEED="0"))
    return r.returncode, [x for x in r.stdout.splitlines() if "iolation" in x or x.startswith("  ") and "cases" not in x][:3], r.stderr[-300:]


def demo(folder, w):
    d = tempfile.mkdtemp(prefix="plantdemo-")
    for f in os.listdir(folder):
        if f not in ("patch.diff", "meta.json"):
            shutil.copy(os.path.join(folder, f), d)
    e = env_for(w)
    del e["PYTHONPATH"]
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd=w, env=e, timeout=300)
    shutil.rmtree(d)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def build(bid, b):
    d, w = scratch()
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(w, f if "/" in f else "src/simplemseed/" + f)
            s = open(p).read()
            assert s.count(old) == 1, (bid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", w, "diff"]).stdout
        folder = os.path.join(SEEDED, bid)
        os.makedirs(folder, exist_ok=True)
        open(os.path.join(folder, "patch.diff"), "w").write(diff)
        open(os.path.join(folder, "demo.py"), "w").write(DEMO_HEAD + b["demo"].strip("\n") + "\n")
        open(os.path.join(folder, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(folder, "meta.json"), "w"), indent=1)
        yes, no = original_lines(w, diff)
        ok, out = tests_ok(w)
        bad, _o = demo(folder, w)
        good, go = demo(folder, "/repo")
        fine = yes > 0 and ok and bad != 0 and good == 0
        rc, viol, err = run_check(w, b["prop"])
        print(f"{bid}: {'OK' if fine else 'REJECT'} original/own lines {yes}/{no} tests {ok} demo clean {good} planted {bad} | {b['prop']} {'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc} {viol[:1]} {err if rc not in (0, 1) else ''}", flush=True)
        if not ok:
            print(out)
        if good:
            print(go)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for bid, b in ns["BUGS"].items():
        if len(sys.argv) < 3 or bid in sys.argv[2:]:
            build(bid, b)
