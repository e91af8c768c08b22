"""Coverage-guided search (atheris/libFuzzer) for one check: python pbt/cov.py PROP NAME RUNS SEED SECONDS OUT

The check gets the bytes as {"hex": ...}; a failing input is shrunk here by removing and zeroing pieces of it.
The outcome is pickled to OUT in the form the runner expects from its workers.
"""
import hashlib
import importlib
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import warnings
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

from pbt import env  # noqa: E402


def shrink(data, fails, calls, seconds):
    """A smaller input that fails too."""
    t0 = time.monotonic()
    left = [calls]

    def bad(d):
        left[0] -= 1
        return left[0] > 0 and time.monotonic() - t0 < seconds and fails(d)

    size = max(1, len(data) // 2)
    while size:
        at = 0
        while at < len(data):
            for d in (data[:at] + data[at + size:], data[:at] + bytes(len(data[at:at + size])) + data[at + size:]):
                if d != data and bad(d):
                    data = d
                    break
            else:
                at += size
                continue
            if d[at:at + size] == bytes(len(d[at:at + size])):
                at += size
        size //= 2
    return data


def main():
    prop, name, runs, seed, seconds, out = sys.argv[1:7]
    runs, seed, seconds = int(runs), int(seed), float(seconds)
    t0 = time.monotonic()

    def leave(res):
        with open(out + ".tmp", "wb") as f:
            pickle.dump(res, f)
        os.rename(out + ".tmp", out)
        shutil.rmtree(corpus, ignore_errors=True)
        os._exit(0)

    corpus = tempfile.mkdtemp(prefix="pbt-cov-")
    try:
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        import atheris
        with atheris.instrument_imports(include=["simplemseed"]):
            env.load()
        from pbt import core
        cov = next(c for c in importlib.import_module(f"pbt.props.{prop.lower()}").COVS if c.name == name)
        resource.setrlimit(resource.RLIMIT_AS, (core.AS_LIMIT, core.AS_LIMIT))
        for k, s in enumerate(cov.seeds()):
            with open(os.path.join(corpus, "%05d" % k), "wb") as f:
                f.write(s[:cov.max_len])
    except BaseException as e:
        import traceback
        leave(dict(harness=f"{type(e).__name__}: {e}\n{traceback.format_exc()}"))

    class Hang(BaseException):
        pass

    def on_alarm(_s, _f):
        raise Hang()

    signal.signal(signal.SIGVTALRM, on_alarm)
    n = 0
    nontrivial, labels, samples = set(), Counter(), []

    def once(data):
        """(result, None) or (None, message)."""
        signal.setitimer(signal.ITIMER_VIRTUAL, core.CASE_CPU_SECONDS)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return cov.check({"hex": data.hex()}), None
        except Hang:
            return None, f"no answer after {core.CASE_CPU_SECONDS:.0f} s of CPU time"
        except Exception as e:
            return None, core._describe(e)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    def result(**kw):
        res = dict(evals=n, nontrivial=sorted(nontrivial), labels=dict(labels), samples=samples, fail=None, fail_msg=None, truncated=False, wall=time.monotonic() - t0)
        res.update(kw)
        leave(res)

    def target(data):
        nonlocal n
        n += 1
        res, msg = once(data)
        if msg is not None:
            small = data if msg.startswith("no answer") else shrink(data, lambda d: once(d)[1] is not None, core.SHRINK_CALLS, core.SHRINK_SECONDS)
            result(fail={"hex": small.hex()}, fail_msg=once(small)[1] or msg)
        if res[0]:
            nontrivial.add(hashlib.blake2b(data, digest_size=8).digest())
            if len(samples) < 3 and n % 97 == 0 and len(data) < 1000:
                samples.append({"hex": data.hex()})
        labels.update(res[1])
        if n >= runs:
            result()
        if time.monotonic() - t0 > seconds:
            result(truncated=True)

    def mutator(data, max_size, mseed):
        data = atheris.Mutate(data, max_size)
        if cov.mend is not None and mseed % 4:
            data = cov.mend(data)
        return data[:max_size]

    random.seed(seed)
    atheris.Setup([sys.argv[0], f"-runs={runs + 10}", f"-seed={seed % (2**31 - 1) + 1}", f"-max_len={cov.max_len}", "-timeout=0", "-rss_limit_mb=0", "-len_control=0", corpus], target, custom_mutator=mutator)
    atheris.Fuzz()
    result()


if __name__ == "__main__":
    main()
