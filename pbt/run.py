"""python pbt/run.py C01 [--tier quick|thorough] [--seed N] [--only sub] [--scale X] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

from pbt import env  # noqa: E402


def listed():
    """(property, key) -> description of the findings recorded as known."""
    out = {}
    with open(os.path.join(env.VERIF, "known_findings.txt"), encoding="utf-8") as f:
        for line in f:
            if line.startswith("known: property="):
                prop, key, text = line[len("known: property="):].strip().split(" ", 2)
                out[prop, key] = text
    return out


def known_cases(prop, module, replay_dir):
    """The cases of recorded findings that (still) fail: (key, description or None when not recorded, replay, message)."""
    from pbt import core
    out = []
    for k in getattr(module, "KNOWN", []):
        try:
            k["check"](k["case"])
        except Exception as e:
            path = os.path.join(replay_dir, f"{prop}-{k['key']}.json")
            os.makedirs(replay_dir, exist_ok=True)
            msg = core._describe(e)
            with open(path, "w") as f:
                json.dump(dict(property=prop, check=k["key"], message=msg, case=k["case"]), f, indent=1, sort_keys=True)
            out.append((k["key"], listed().get((prop, k["key"])), path, msg))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--only", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    seed = args.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    try:
        env.load()
        from pbt import core
        module = importlib.import_module(f"pbt.props.{args.property.lower()}")
    except BaseException as e:
        print(f"HARNESS-ERROR property={args.property} cannot load: {type(e).__name__}: {e}", file=sys.stderr)
        return 2
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        checks = {s.name: s.check for s in module.SUBS}
        checks.update({c.name: c.check for c in getattr(module, "COVS", [])})
        checks.update({k["key"]: k["check"] for k in getattr(module, "KNOWN", [])})
        try:
            checks[rep["check"]](rep["case"])
        except Exception as e:
            print(f"{core._describe(e)}")
            print(f"VIOLATION property={args.property} replay={args.replay}")
            return 1
        print("replayed case passes")
        return 0
    replay_dir = os.environ.get("VERIF_REPLAYS", os.path.join(env.VERIF, "replays"))
    evidence, violations, harness = core.run_property(
        args.property, module, args.tier, seed, replay_dir, only=args.only, scale=args.scale)
    known = known_cases(args.property, module, replay_dir)
    evidence["known_findings_seen"] = [k for k, text, _p, _m in known if text is not None]
    evidence["violations"] += len([k for k in known if k[1] is None])
    if not args.no_evidence:
        evdir = os.path.join(env.VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        path = os.path.join(evdir, f"{args.property}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
        os.rename(path + ".tmp", path)
    cov = evidence["coverage"]
    for name, d in cov["per_check"].items():
        print(f"  {name}: {d['evaluations']} cases, {d['distinct_nontrivial']} distinct non-trivial, {d['cpu_s']} s")
    print(f"{args.property} tier={args.tier} seed={seed}: {cov['evaluations']} cases, "
          f"{cov['distinct_nontrivial']} distinct non-trivial, {evidence['wall_s']} s")
    for key, text, path, msg in known:
        if text is not None:
            print(f"KNOWN-FINDING: property={args.property} {key}: {text}")
        else:
            violations.append((path, key, msg))
    for path, name, msg in violations:
        print(f"  {name}: {msg}")
        print(f"VIOLATION property={args.property} replay={path}")
    if violations:
        return 1
    if harness:
        for h in harness:
            print("HARNESS-ERROR " + h, file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
