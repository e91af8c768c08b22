"""Applies every planted bug in seeded/ to a scratch copy of /repo, runs its demo and the check of its property.

python3 tools/matrix.py [--all-checks] [id ...]   writes CATCHES.md when run without ids
"""
import concurrent.futures
import importlib.util
import json
import os
import re
import shutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
spec = importlib.util.spec_from_file_location("plant", os.path.join(HERE, "plant.py"))
plant = importlib.util.module_from_spec(spec)
spec.loader.exec_module(plant)


def one(bid):
    folder = os.path.join(VERIF, "seeded", bid)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    d, w = plant.scratch()
    try:
        r = plant.sh(["git", "-C", w, "apply", os.path.join(folder, "patch.diff")])
        if r.returncode:
            return bid, meta, "does not apply", "", ""
        bad, _ = plant.demo(folder, w)
        good, _ = plant.demo(folder, "/repo")
        rc, viol, err = plant.run_check(w, meta["property"])
        sub = sorted({re.match(r"\s*([\w-]+):", v)[1] for v in viol if re.match(r"\s*([\w-]+):", v)})
        return bid, meta, "caught" if rc == 1 else "MISSED" if rc == 0 else f"exit {rc} {err}", ", ".join(sub), "" if bad and not good else f"demo clean {good} planted {bad}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    rows = []
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for bid, meta, verdict, sub, demo in ex.map(one, ids):
            print(bid, verdict, sub, demo, flush=True)
            rows.append(f"| {bid} | {meta['property']} | {verdict} | {sub} | {meta['needs']} {demo} |")
    if not sys.argv[1:]:
        with open(os.path.join(VERIF, "CATCHES.md"), "w") as f:
            f.write("# Planted bugs and the checks that catch them\n\nWritten by `tools/matrix.py` (quick tier, seed 1): each patch of `seeded/` applied to a scratch copy, the check of its\n"
                    "property run on it; the sub-checks named report the violation.\n\n| planted bug | property | verdict | sub-check | needs |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n")


if __name__ == "__main__":
    main()
