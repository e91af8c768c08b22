"""C02: Steim2 compression is lossless or refuses."""
import sys

import numpy as np
from hypothesis import strategies as st

import simplemseed

from .. import gen
from ..core import Sub, need
from . import c01

VERSION = 2
RULE = ("series built from difference recipes over the seven packing widths and their boundaries, in many containers, with frame "
        "limits and previous values, and series with differences over 30 bits; non-trivial = at least two different word packings "
        "in the output, or a frame limit that stopped the encoder, or an over-wide difference")


def encode_block(data, frames, bias, offset):
    return simplemseed.encodeSteim2FrameBlock(data, frames, bias)


def encode_bytes(data, frames, bias, offset):
    return simplemseed.encodeSteim2(data, frames, bias)


decode_lib = simplemseed.decodeSteim2
is_full = c01.is_full


def packings(data):
    kinds = set()
    for f in range(len(data) // 64):
        w0 = int.from_bytes(data[f * 64:f * 64 + 4], "big")
        for i in range(1, 16):
            c = (w0 >> (30 - 2 * i)) & 3
            if c:
                kinds.add((c, data[f * 64 + 4 * i] >> 6 if c > 1 else 0))
    return kinds


ME = sys.modules[__name__]
W2 = [3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16, 29, 30]
LIM = 1 << 29


def fits(values, bias):
    prev = bias
    for v in values:
        if not -LIM <= v - prev < LIM:
            return False
        prev = v
    return True


@st.composite
def cases(draw):
    c = draw(st.sampled_from(gen.CONTAINERS))
    rng = gen.container_range(c)
    rec = draw(gen.recipes(widths=W2, rng=rng, fold=("clip",)))
    return {"container": c, "series": rec, "frames": draw(c01.FRAME_LIMITS),
            "bias": draw(st.sampled_from(["first", "near", "first", "zero"])), "tail": []}


@st.composite
def wide_cases(draw):
    c = draw(st.sampled_from(["list", "i4", "i8", ">i4", "strided"]))
    rec = draw(gen.recipes(widths=[10, 29, 30, 31, 32, 32], max_list=12, max_seg=60))
    return {"container": c, "series": rec, "frames": draw(st.sampled_from([0, 0, 1, 2, 5])), "tail": [],
            "bias": draw(st.one_of(st.sampled_from(["first", "zero"]), gen.starts()))}


@st.composite
def edge_cases(draw):
    rec = {"start": draw(st.integers(-(2**28), 2**28)), "fold": "clip",
           "segs": [[draw(st.sampled_from(["max", "alt", "edge"])), draw(st.sampled_from([4, 5, 6, 8, 10, 15, 30])), draw(st.integers(1, 230)), 1]]}
    tail = draw(st.lists(st.sampled_from([1, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 30]).flatmap(gen.wint), max_size=16))
    return {"container": draw(st.sampled_from(["i4", "list"])), "series": rec, "tail": tail,
            "frames": draw(st.integers(0, 5)), "bias": "first"}


def check(case):
    rec = case["series"]
    if case["tail"]:
        rec = c01._with_tail({"series": rec, "tail": case["tail"]})
    values = gen.series(rec)
    obj = gen.to_container(values, case["container"])
    b = case["bias"]
    bias = values[0] if b == "first" else 0 if b == "zero" else max(-(2**31), values[0] - 100) if b == "near" else b
    ok = fits(values, bias)
    res = c01.verify(ME, values, obj, case["frames"], bias, 0, not ok)
    labels = ["container:" + case["container"], "fits" if ok else "over-wide"]
    if res is None:
        return True, labels + ["refused"]
    n, avail, nframes, kinds, _ = res
    labels.append("frames:" + ("1" if nframes == 1 else "2-9" if nframes < 10 else "10+"))
    if n < avail:
        labels.append("stopped by limit")
    labels += [f"packing:{k}" for k in sorted(kinds)]
    return (len(kinds) > 1 or n < avail or not ok), labels


@st.composite
def chain_cases(draw):
    return {"series": draw(gen.recipes(widths=W2, fold=("clip",), max_list=60, max_seg=500)), "frames": draw(st.integers(1, 7)),
            "container": draw(st.sampled_from(["list", "i4", "<i8", ">i4"]))}


def check_chain(case):
    values = gen.series(case["series"])
    pos, out, nrec = 0, [], 0
    bias = values[0]
    while pos < len(values):
        rest = values[pos:]
        res = c01.verify(ME, rest, gen.to_container(rest, case["container"]), case["frames"], bias, 0, not fits(rest, bias))
        if res is None:
            return False, ["over-wide"]
        n, _a, _f, _k, enc = res
        out += decode_lib(enc, n, np.int32(bias)).tolist()
        pos += n
        nrec += 1
        bias = values[pos - 1]
    need(out == values, "records joined differ from the series")
    return nrec > 1, ["records:" + ("1" if nrec == 1 else "2-5" if nrec < 6 else "6+")]


def check_bad(case):
    return c01.run_bad(ME, case)


def directed():
    out = []
    for w in (4, 5, 6, 8, 10, 15, 30):
        for n in list(range(1, 16)) + [90, 91, 92, 93, 104, 105, 106, 107, 195, 196]:
            out.append({"container": "i4", "series": {"start": 5, "fold": "clip", "n": n, "segs": [["edge", w, n, w + n]]},
                        "frames": n % 3, "bias": "first", "tail": []})
    for c in ("list", "i2", "u1", "u2", "i1", "i8"):
        lo, hi = gen.container_range(c)
        if hi - lo >= LIM:
            lo, hi = -(2**28), 2**28 - 1
        out.append({"container": c, "series": {"start": lo, "diffs": [hi - lo, lo - hi, 1, 1, 1, 1, hi - lo - 4]},
                    "frames": 0, "bias": "first", "tail": []})
    # more frames than any record of miniSEED2 can hold
    for frames in (0, 1030):
        out.append({"container": "i4", "series": {"start": 5, "fold": "clip", "segs": [["alt", 29, 15700, 1]]}, "frames": frames, "bias": "first", "tail": []})
    return out


SUBS = [
    Sub("encode", cases(), check, quick=3000, thorough=80000, directed=directed, shards=6),
    Sub("window-edges", edge_cases(), check, quick=2400, thorough=60000, shards=6),
    Sub("over-wide", wide_cases(), check, quick=1200, thorough=30000, shards=3),
    Sub("record-chain", chain_cases(), check_chain, quick=400, thorough=10000, shards=4),
    Sub("refusals", c01.bad_cases(), check_bad, quick=500, thorough=10000, shards=1,
        directed=lambda: [{"kind": k, "values": [1, 2, 3], "at": a, "by": 1, "frames": 0} for k in c01.BAD for a in (0, 1, 2)]),
]
