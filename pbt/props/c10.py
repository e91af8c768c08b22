"""C10: records merge exactly when they are adjacent and of the same kind."""
import io

from hypothesis import strategies as st

from simplemseed import mseed3merge, readMSeed3Records

from .. import gen3, merging, refms3
from ..core import Sub, need
from .c09 import US_HI, US_LO, part_bytes, runs

RULE = ("pairs with a start offset of a generated fraction of the sample period from the predicted start, and at most one generated mismatch; chains whose offsets are "
        "relative to the run so far; offsets between 0.45 and 0.55 period (wider above 1 kHz, where microseconds round them), and between 0.45 period early and the end of the first record, are not generated; non-trivial = every case (the answer is decided)")

MISMATCH = ["id", "rate-little", "rate-much", "rate-sign", "pub", "enc"]


def deltas():
    near = st.one_of(st.sampled_from([0.0, 0.0, 0.3, -0.3, 0.4, -0.4, 0.01, -0.01, 0.45, -0.45]), st.floats(-0.45, 0.45))
    gap = st.one_of(st.sampled_from([0.55, 0.6, 1.0, 2.0, 1e3, 1e6]), st.floats(0.55, 100))
    over = st.one_of(st.sampled_from([-1.0, -1.05, -1.5, -2.0, -1e3, -1e6]), st.floats(-100, -1.0))
    return st.one_of(near.map(lambda d: ["near", d]), gap.map(lambda d: ["gap", d]), over.map(lambda d: ["over", d]))


@st.composite
def pairs(draw):
    enc = draw(st.sampled_from([1, 3, 4, 5]))
    # times hold microseconds: above 1 kHz the offset is rounded and judged after that
    rate = draw(st.one_of(merging.rates(), merging.rates(), merging.rates(), st.sampled_from([2000.0, 5000.0, 10000.0, 44100.0, 100000.0, 125000.0, 200000.0, 250000.0, -0.0001]), st.floats(1000, 250000)))
    rep = draw(st.sampled_from([1, 1, 1, 5, 300]))
    a = {"id": draw(st.sampled_from(gen3.ID_POOL)), "rate": rate, "enc": enc, "pub": draw(st.integers(0, 255)), "us": draw(st.integers(US_LO, US_HI)),
         "bits": draw(merging.values(enc)) * rep, "flags": 0, "cont": draw(st.sampled_from(merging.CONTS)), "eh": None, "ns": 0}
    b = dict(a, bits=draw(merging.values(enc)), flags=draw(st.sampled_from([0, 4, 255])), cont=draw(st.sampled_from(merging.CONTS)), eh=draw(st.one_of(st.none(), gen3.EH_DICT)))
    mis = draw(st.one_of(st.none(), st.none(), st.sampled_from(MISMATCH)))
    if mis == "id":
        b["id"] = draw(st.sampled_from([i for i in gen3.ID_POOL if i != a["id"]] + [a["id"] + "X", a["id"][:-1], a["id"].lower()]))
    elif mis == "rate-little":
        b["rate"] = rate * (1 + draw(st.sampled_from([1e-4, 1e-6, -1e-6, 1e-9, 1e-12])))
    elif mis == "rate-much":
        b["rate"] = rate * draw(st.sampled_from([2, 0.5, 10, 1.5]))
    elif mis == "rate-sign":
        b["rate"] = -rate if abs(rate) != 1 else 2.0
    elif mis == "pub":
        b["pub"] = (a["pub"] + draw(st.integers(1, 255))) % 256
    elif mis == "enc":
        b["enc"] = draw(st.sampled_from([e for e in (1, 3, 4, 5) if e != enc]))
        b["bits"] = draw(merging.values(b["enc"]))
        if draw(st.booleans()):
            # same number of samples of the same width, or the same number
            a["enc"], b["enc"] = draw(st.sampled_from([(3, 4), (4, 3), (a["enc"], b["enc"])]))
            a["bits"] = draw(merging.values(a["enc"]))
            n = len(a["bits"])
            b["bits"] = (draw(merging.values(b["enc"])) * n)[:n]
    b["d"] = draw(deltas())
    return {"a": a, "b": b, "mis": mis}


def place(run_start_us, rate, count, d):
    """Start in microseconds, d periods from where the run of `count` samples predicts the next one."""
    return run_start_us + round((count + d) * merging.period(rate) * 1e6)


def check_pair(c):
    a, b = c["a"], dict(c["b"])
    kind, d = b.pop("d")
    b["us"] = place(a["us"], a["rate"], len(a["bits"]), d)
    if not US_LO - 10**15 < b["us"] < US_HI + 10**15:
        return False, ["out-of-range"]
    if merging.period(a["rate"]) < 1e-3:
        p = merging.period(a["rate"]) * 1e6
        eff, slack = (b["us"] - a["us"]) / p - len(a["bits"]), 0.02 + 1.1 / p
        kind = "near" if abs(eff) <= 0.5 - slack else "gap" if eff >= 0.5 + slack else "over" if eff <= -1 - slack else None
        if kind is None:
            return False, ["undecided"]
    elif kind == "over":
        # at or before the last sample of the first record, whatever the rounding
        b["us"] = min(b["us"], a["us"] + int(merging.period(a["rate"]) * (len(a["bits"]) - 1) * 1e6) - (0 if d == -1.0 else 2))
        if d == -1.0 and merging.period(a["rate"]) * 1e6 % 1 > 1e-9:
            b["us"] -= 1
    ra, rb = merging.to_record(a), merging.to_record(b)
    va, vb = merging.view(ra), merging.view(rb)
    out = mseed3merge(ra, rb)
    want = kind == "near" and c["mis"] is None
    need(len(out) == (1 if want else 2), "%s pair (start %+.3f periods from predicted, mismatch %s, period %g s) gave %d record(s)",
         kind, d, c["mis"], merging.period(a["rate"]), len(out))
    if not want:
        need(out[0] is ra and out[1] is rb or (merging.view(out[0]) == va and merging.view(out[1]) == vb), "unmerged records are not the originals")
        need(merging.view(ra) == va and merging.view(rb) == vb, "unmerged records were altered")
    return True, ["%s:%s" % (kind, c["mis"])]


@st.composite
def chains(draw):
    chans = draw(st.lists(st.builds(lambda i, r, e, p: {"id": i, "rate": r, "enc": e, "pub": p}, st.sampled_from(gen3.ID_POOL), merging.rates(),
                                    st.sampled_from([1, 3, 4, 5]), st.sampled_from([0, 1])), min_size=1, max_size=2))
    links = draw(st.lists(st.tuples(st.integers(0, len(chans) - 1), deltas(), st.integers(0, 9)).map(list), min_size=1, max_size=9))
    out = []
    for ci, d, k in links:
        ch = chans[ci if k < 3 else 0]
        out.append(dict(ch, bits=draw(merging.values(ch["enc"])) * (1 if k % 3 else 7), d=d if k < 5 else ["near", 0.0]))
    return {"start": draw(st.integers(US_LO, US_HI)), "parts": out, "fold": draw(st.booleans())}


def plan_chain(c):
    """Records to feed in and the runs they must give; None when a time falls outside the range."""
    parts, runs_ = [], []
    for p in c["parts"]:
        p = dict(p, flags=0, eh=None, cont="bytes", ns=0)
        kind, d = p.pop("d")
        key = (p["id"], p["rate"], p["enc"], p["pub"])
        if runs_:
            r = runs_[-1]
            us = place(r["us"], r["key"][1], r["n"], d)
            if kind == "over":
                us = min(us, r["us"] + int(merging.period(r["key"][1]) * (r["n"] - 1) * 1e6) - 3)
            if not US_LO - 10**15 < us < US_HI + 10**15:
                return None, None
            p["us"] = us
            if key == r["key"] and kind == "near":
                r["n"] += len(p["bits"])
                parts.append(p)
                continue
        else:
            p["us"] = c["start"]
        runs_.append({"key": key, "us": p["us"], "n": len(p["bits"])})
        parts.append(p)
    return parts, runs_


def check_chain(c):
    parts, runs_ = plan_chain(c)
    if parts is None:
        return False, ["out-of-range"]
    if c["fold"]:
        out, prev = [], None
        for p in parts:
            res = mseed3merge(prev, merging.to_record(p))
            out.extend(res[:-1])
            prev = res[-1]
        out.append(prev)
    else:
        out = list(readMSeed3Records(io.BytesIO(b"".join(part_bytes(p) for p in parts)), merge=True))
    got = [(r.identifier, float(r.header.sampleRatePeriod), r.header.encoding, r.header.publicationVersion, refms3.dt_us(r.starttime), r.header.numSamples) for r in out]
    want = [r["key"] + (r["us"], r["n"]) for r in runs_]
    need(got == want, "runs %r, should be %r", got, want)
    return True, ["runs:%d" % min(len(want), 5), "fold" if c["fold"] else "stream"]


def long_chains():
    """More samples together than some count holds, in every encoding."""
    return [{"start": 63_700_000_000_000_000, "parts": [{"id": "FDSN:XX_A__H_H_Z", "rate": 20.0, "enc": enc, "pub": 1, "bits": [1, 5] * (n // 2), "d": ["near", 0.2]}] * 3, "fold": n < 50000}
            for enc in (1, 3, 4, 5) for n in (20000, 70000)]


SUBS = [
    Sub("pairs", pairs(), check_pair, quick=2500, thorough=50000),
    Sub("chains", chains(), check_chain, quick=1500, thorough=25000, directed=long_chains),
]
