"""Runner: drives each sub-check of a property with generated cases.

A sub-check is a Hypothesis strategy that yields JSON-able cases and a
function check(case) that raises when the property is broken and otherwise
returns (nontrivial, labels).  Cases are pure data, so the shrunk failing case
written to the replay file is re-run by calling check(case) directly, without
the generator library.

Each (sub-check, shard) runs in its own forked process so that the result is a
pure function of the code under test and VERIF_SEED.
"""
import dataclasses
import hashlib
import json
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter
from typing import Any, Callable, Optional

from .env import HarnessError, VERIF

CASE_CPU_SECONDS = 60.0
SHRINK_CALLS = 1500
SHRINK_SECONDS = 45.0
TASK_SECONDS = {"quick": 150.0, "thorough": 1500.0}
NPROC = max(2, min(8, os.cpu_count() or 2))
AS_LIMIT = 6 * 2**30


class Violation(AssertionError):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


@dataclasses.dataclass
class Sub:
    name: str
    gen: Any
    check: Callable[[Any], tuple]
    quick: int
    thorough: int
    directed: Optional[Callable[[], list]] = None
    shards: int = 4


@dataclasses.dataclass
class Cov:
    """A coverage-guided search over bytes, run by cov.py in a process of its own; check gets {"hex": ...}."""
    name: str
    check: Callable[[Any], tuple]
    seeds: Callable[[], list]
    quick: int
    thorough: int
    mend: Optional[Callable[[bytes], bytes]] = None
    max_len: int = 2048
    shards: int = 2


class _Hang(BaseException):
    pass


class _Stop(BaseException):
    pass


def canon(case) -> str:
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _describe(exc: BaseException) -> str:
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "/simplemseed/" in fr.filename:
            where = f" [{os.path.basename(fr.filename)}:{fr.lineno} {fr.name}]"
            break
    return f"{type(exc).__name__}: {exc}{where}"[:1500]


class _Task:
    def __init__(self, sub, n, seed, directed, tier):
        self.sub = sub
        self.n = n
        self.seed = seed
        self.directed = directed
        self.deadline = time.monotonic() + TASK_SECONDS[tier]
        self.evals = 0
        self.nontrivial = set()
        self.labels = Counter()
        self.samples = []
        self.fail = None
        self.fail_msg = None
        self.fail_calls = 0
        self.fail_t0 = None
        self.truncated = False

    def run_case(self, case):
        if self.fail is None and time.monotonic() > self.deadline:
            self.truncated = True
            raise _Stop()
        if self.fail is not None:
            self.fail_calls += 1
            if self.fail_calls > SHRINK_CALLS or time.monotonic() - self.fail_t0 > SHRINK_SECONDS:
                raise _Stop()
        self.evals += 1
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = self.sub.check(case)
        except _Hang:
            self._failed(case, f"no answer after {CASE_CPU_SECONDS:.0f} s of CPU time")
            raise _Stop()
        except Exception as e:
            self._failed(case, _describe(e))
            raise
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        nontrivial, labels = res
        if self.fail is not None:
            return
        for lab in labels:
            self.labels[lab] += 1
        if nontrivial:
            c = canon(case)
            h = hashlib.blake2b(c.encode(), digest_size=8).digest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 3 and len(c) < 3000:
                    self.samples.append(case)

    def _failed(self, case, msg):
        if self.fail is None:
            self.fail_t0 = time.monotonic()
        if self.fail is None or len(canon(case)) <= len(canon(self.fail)):
            self.fail = json.loads(canon(case))
            self.fail_msg = msg

    def go(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings

        try:
            for case in self.directed:
                try:
                    self.run_case(json.loads(canon(case)))
                except Exception:
                    return
            if self.n <= 0:
                return

            @hypothesis.seed(self.seed)
            @settings(
                max_examples=self.n,
                database=None,
                deadline=None,
                derandomize=False,
                print_blob=False,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink],
                verbosity=hypothesis.Verbosity.quiet,
            )
            @hypothesis.given(self.sub.gen)
            def test(case):
                self.run_case(case)

            try:
                test()
            except Exception as e:
                if self.fail is None:
                    raise HarnessError(
                        f"{self.sub.name}: generator failed: {_describe(e)}\n" + traceback.format_exc()
                    )
        except _Stop:
            pass


def _child(task, path):
    def on_alarm(_s, _f):
        raise _Hang()

    signal.signal(signal.SIGVTALRM, on_alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
    except (ValueError, OSError):
        pass
    # the code under test prints in places; keep stdout for verdicts only
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    out = {}
    t0 = time.monotonic()
    try:
        task.go()
        out = dict(
            evals=task.evals, nontrivial=sorted(task.nontrivial), labels=dict(task.labels),
            samples=task.samples, fail=task.fail, fail_msg=task.fail_msg,
            truncated=task.truncated, wall=time.monotonic() - t0,
        )
    except BaseException as e:  # harness trouble
        out = dict(harness=_describe(e) + "\n" + traceback.format_exc())
    with open(path + ".tmp", "wb") as f:
        pickle.dump(out, f)
    os.rename(path + ".tmp", path)


def _seed_for(seed, prop, sub, shard):
    h = hashlib.blake2b(f"{seed}/{prop}/{sub}/{shard}".encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") >> 1


# how many times the cases of a sub-check the quick tier runs, where they are cheap
QUICK = {"C01": 2.5, "C02": 2, "C03": 2, "C04": 2.5, "C05": 3, "C06": 3, "C10": 2, "C11": 2, "C12": 3, "C13": 1.5, "C16": 1.5, "C17": 2, "C18": 2, "C19": 2, "C25": 2, "C26": 1.5}


def run_property(prop_id, module, tier, seed, replay_dir, only=None, scale=1.0):
    t0 = time.monotonic()
    if tier == "quick":
        scale *= QUICK.get(prop_id, 1)
    tasks = []
    for sub in module.SUBS:
        if only and sub.name not in only:
            continue
        total = int((sub.quick if tier == "quick" else sub.thorough) * scale)
        shards = max(1, min(sub.shards if tier == "quick" else 8, total or 1))
        directed = list(sub.directed()) if sub.directed else []
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            tasks.append((sub, k, _Task(sub, n, _seed_for(seed, prop_id, sub.name, k), directed[k::shards], tier)))
    for cov in getattr(module, "COVS", []):
        if only and cov.name not in only:
            continue
        total = int((cov.quick if tier == "quick" else cov.thorough) * scale)
        shards = max(1, min(cov.shards if tier == "quick" else 4, total or 1))
        for k in range(shards):
            tasks.append((cov, k, [total // shards, _seed_for(seed, prop_id, cov.name, k), TASK_SECONDS[tier]]))
    results = {}
    with tempfile.TemporaryDirectory(prefix=f"pbt-{prop_id}-") as tmp:
        running = {}
        queue = list(enumerate(tasks))
        sys.stdout.flush()
        sys.stderr.flush()
        while queue or running:
            while queue and len(running) < NPROC:
                i, (sub, k, task) = queue.pop(0)
                if isinstance(sub, Sub):
                    task.deadline = time.monotonic() + TASK_SECONDS[tier]
                pid = os.fork()
                if pid == 0 and isinstance(sub, Cov):
                    os.execv(sys.executable, [sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "cov.py"), prop_id, sub.name]
                             + [str(x) for x in task] + [os.path.join(tmp, str(i))])
                if pid == 0:
                    code = 0
                    try:
                        _child(task, os.path.join(tmp, str(i)))
                    except BaseException:
                        traceback.print_exc()
                        code = 3
                    finally:
                        sys.stderr.flush()
                        os._exit(code)
                running[pid] = i
            pid, status = os.waitpid(-1, 0)
            if pid not in running:
                continue
            i = running.pop(pid)
            path = os.path.join(tmp, str(i))
            if os.path.exists(path):
                with open(path, "rb") as f:
                    results[i] = pickle.load(f)
            else:
                results[i] = dict(harness=f"worker ended with status {status}")
    agg = dict(evals=0, nontrivial=set(), labels={}, samples={}, per_sub={})
    failures = []
    harness = []
    truncated = False
    for i, (sub, k, _t) in enumerate(tasks):
        r = results[i]
        if "harness" in r:
            harness.append(f"{sub.name}/{k}: {r['harness']}")
            continue
        agg["evals"] += r["evals"]
        agg["nontrivial"].update((sub.name, h) for h in r["nontrivial"])
        ps = agg["per_sub"].setdefault(sub.name, dict(evaluations=0, distinct_nontrivial=set(), wall_s=0.0, classes=Counter()))
        ps["evaluations"] += r["evals"]
        ps["distinct_nontrivial"].update(r["nontrivial"])
        ps["wall_s"] += r["wall"]
        ps["classes"].update(r["labels"])
        truncated = truncated or r["truncated"]
        agg["samples"].setdefault(sub.name, []).extend(r["samples"][:2])
        if r["fail"] is not None:
            failures.append((sub.name, r["fail"], r["fail_msg"]))
    per_sub = {
        n: dict(evaluations=d["evaluations"], distinct_nontrivial=len(d["distinct_nontrivial"]),
                cpu_s=round(d["wall_s"], 2), classes=dict(sorted(d["classes"].items())))
        for n, d in agg["per_sub"].items()
    }
    samples = [dict(check=n, case=c) for n, cs in agg["samples"].items() for c in cs[:2]]
    # one failure per sub-check: the smallest
    best = {}
    for name, case, msg in failures:
        if name not in best or len(canon(case)) < len(canon(best[name][0])):
            best[name] = (case, msg)
    violations = []
    for name, (case, msg) in sorted(best.items()):
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, f"{prop_id}-{name}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop_id, check=name, seed=seed, message=msg, case=case), f, indent=1, sort_keys=True)
        violations.append((path, name, msg))
    evidence = dict(
        property=prop_id, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=agg["evals"], distinct_nontrivial=len(agg["nontrivial"]),
            rule=module.RULE, samples=samples or [dict(note="no non-trivial case reached")],
            per_check=per_sub, stopped_by_time_budget=truncated,
        ),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])),
        wall_s=round(time.monotonic() - t0, 2),
        violations=len(violations),
    )
    return evidence, violations, harness
