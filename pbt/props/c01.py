"""C01: Steim1 compression is lossless."""
import math

import numpy as np
from hypothesis import strategies as st

import simplemseed
from simplemseed.exceptions import CodecException

from .. import gen, refsteim
from ..core import Sub, need

VERSION = 1
RULE = ("series built from difference recipes (explicit lists biased to width boundaries, or expanded segments) in many "
        "containers, with frame limits, offsets and previous values; non-trivial = at least two different word packings "
        "in the output or a frame limit that stopped the encoder")


def encode_block(data, frames, bias, offset):
    return simplemseed.encodeSteim1FrameBlock(data, frames, bias, offset)


def encode_bytes(data, frames, bias, offset):
    return simplemseed.encodeSteim1(data, frames, bias, offset)


decode_lib = simplemseed.decodeSteim1


def is_full(data, nwords, frames):
    """The last allowed frame has every word used."""
    return nwords == 13 + 15 * (frames - 1)


def packings(data):
    kinds = set()
    for f in range(len(data) // 64):
        w0 = int.from_bytes(data[f * 64:f * 64 + 4], "big")
        for i in range(1, 16):
            c = (w0 >> (30 - 2 * i)) & 3
            if c:
                d = data[f * 64 + 4 * i] >> 6 if (VERSION == 2 and c > 1) else 0
                kinds.add((c, d))
    return kinds


def verify(mod, values, data_obj, frames, bias, offset, may_refuse):
    snap = gen.snapshot(data_obj)
    try:
        block = mod.encode_block(data_obj, frames, bias, offset)
    except CodecException:
        need(may_refuse, "a representable series was refused")
        return None
    enc = bytes(block.pack())
    enc2 = bytes(mod.encode_bytes(data_obj, frames, bias, offset))
    need(enc == enc2, "encoding the same series twice gives different bytes")
    need(gen.snapshot(data_obj) == snap, "the input series was altered")
    n = block.getNumSamples()
    avail = len(values) - offset
    need(isinstance(n, (int, np.integer)) and 1 <= n <= avail, "sample count %r of %d", n, avail)
    n = int(n)
    nframes = len(enc) // 64
    need(len(enc) % 64 == 0 and nframes >= 1, "not whole frames: %d bytes", len(enc))
    try:
        ds, x0, xn, nwords = refsteim.diffs(mod.VERSION, enc)
    except refsteim.BadSteim as e:
        need(False, "illegal frames: %s", e)
    want = list(values[offset:offset + n])
    if frames == 0:
        need(n == avail, "no frame limit but only %d of %d samples held", n, avail)
    else:
        need(nframes <= frames, "%d frames with a limit of %d", nframes, frames)
        if n < avail:
            need(nframes == frames and is_full(enc, nwords, frames),
                 "stopped after %d of %d samples with room left (%d words in %d frames)", n, avail, nwords, nframes)
    need(x0 == want[0], "first constant %d, first sample %d", x0, want[0])
    need(xn == want[-1], "last constant %d, last sample %d", xn, want[-1])
    got = refsteim.decode(mod.VERSION, enc, n, bias)
    if got != want:
        k = next(i for i in range(n) if got[i] != want[i])
        need(False, "sample %d decodes to %d, was %d", k, got[k], want[k])
    dec = mod.decode_lib(enc, n, np.int32(bias))
    need(dec.tolist() == want, "library decode differs from the series")
    if bias == 0:
        dec = mod.decode_lib(bytearray(enc), n)
        need(dec.tolist() == want, "library decode differs from the series")
    padded = bytes(block.getEncodedData())
    need(padded[:len(enc)] == enc and not any(padded[len(enc):]), "padded form differs")
    if frames:
        need(len(padded) == frames * 64, "padded form has %d bytes for %d frames", len(padded), frames)
        dec = mod.decode_lib(padded, n, np.int32(bias))
        need(dec.tolist() == want, "decode of padded form differs")
    need(int(block.getNumFrames()) * 64 == len(padded), "frame count disagrees with bytes")
    need(block.getSteimVersion() == mod.VERSION, "block says it is Steim%r", block.getSteimVersion())
    need(b"".join(bytes(f.pack()) for f in block.getSteimFrames()) == enc, "the frames of the block are not its bytes")
    return n, avail, nframes, packings(enc), enc


FRAME_LIMITS = st.one_of(st.just(0), st.integers(1, 4), st.integers(1, 70), st.sampled_from([1, 2, 7, 15, 31, 62, 63, 64, 65]))


@st.composite
def encode_cases(draw):
    c = draw(st.sampled_from(gen.CONTAINERS))
    rng = gen.container_range(c)
    rec = draw(gen.recipes(widths=gen.WIDE, rng=rng))
    case = {"container": c, "series": rec, "frames": draw(FRAME_LIMITS)}
    case["bias"] = draw(st.one_of(st.just(0), st.just(0), gen.starts(), st.just("first"), st.just("near")))
    case["offset"] = draw(st.one_of(st.just(0), st.just(0), st.integers(0, 1000)))
    return case


def run_case(mod, case):
    values = gen.series(case["series"])
    obj = gen.to_container(values, case["container"])
    offset = case["offset"] % len(values)
    bias = case["bias"]
    if bias == "first":
        bias = values[offset]
    elif bias == "near":
        bias = max(-(2**31), values[offset] - 100)
    res = verify(mod, values, obj, case["frames"], bias, offset, False)
    n, avail, nframes, kinds, _ = res
    labels = [f"container:{case['container']}", "frames:" + ("1" if nframes == 1 else "2-9" if nframes < 10 else "10+")]
    if n < avail:
        labels.append("stopped by limit")
    if offset:
        labels.append("offset")
    if bias:
        labels.append("bias")
    labels += [f"packing:{k}" for k in sorted(kinds)]
    return (len(kinds) > 1 or n < avail), labels


def check_encode(case):
    import sys
    return run_case(sys.modules[__name__], case)


# ---- boundaries: every combination of neighbouring widths near a frame edge

@st.composite
def edge_cases(draw):
    """A filler that ends k samples before a frame boundary, then a short tail."""
    rec = {"start": draw(gen.starts()), "fold": "clip",
           "segs": [[draw(st.sampled_from(["max", "alt", "edge"])), draw(st.sampled_from([8, 16, 32])), draw(st.integers(1, 260)), 1]]}
    tail = draw(st.lists(st.sampled_from([1, 8, 9, 16, 17, 31]).flatmap(gen.wint), max_size=9))
    return {"container": draw(st.sampled_from(["i4", "list"])), "series": dict(rec), "tail": tail,
            "frames": draw(st.integers(0, 5)), "bias": 0, "offset": 0}


def _with_tail(case):
    values = gen.series(case["series"])
    return {"start": values[0], "fold": "clip", "diffs": [b - a for a, b in zip(values, values[1:])] + case["tail"]}


def check_edge(case):
    import sys
    c = dict(case)
    c["series"] = _with_tail(case)
    return run_case(sys.modules[__name__], c)


# ---- long series are continued record by record, as a writer of fixed-size records does

@st.composite
def chain_cases(draw):
    return {"series": draw(gen.recipes(max_list=60, max_seg=400)), "frames": draw(st.integers(1, 7)),
            "container": draw(st.sampled_from(["list", "i4", "<i8", ">i4"])), "carry": draw(st.booleans())}


def check_chain(case):
    values = gen.series(case["series"])
    obj = gen.to_container(values, case["container"])
    import sys
    mod = sys.modules[__name__]
    pos, out, nrec, bias = 0, [], 0, 0
    while pos < len(values):
        n, _a, _f, _k, enc = verify(mod, values, obj, case["frames"], bias, pos, False)
        out += decode_lib(enc, n, np.int32(bias)).tolist()
        pos += n
        nrec += 1
        bias = values[pos - 1] if case["carry"] else 0
    need(out == values, "records joined differ from the series")
    return nrec > 1, ["records:" + ("1" if nrec == 1 else "2-5" if nrec < 6 else "6+")]


# ---- refusals

BAD = ["empty-list", "empty-np", "float-np", "float32-np", "float-list", "late-float-list", "2d", "2d-int64", "neg-frames",
       "offset-neg", "offset-len", "offset-big", "big-int64", "small-int64", "big-list", "small-list", "big-uint32", "big-uint64",
       "complex", "huge-list", "nan-list"]


@st.composite
def bad_cases(draw):
    return {"kind": draw(st.sampled_from(BAD)), "values": draw(st.lists(gen.starts(), min_size=2, max_size=12)),
            "at": draw(st.integers(0, 11)), "by": draw(st.one_of(st.integers(1, 5), st.integers(1, 2**40))),
            "frames": draw(st.sampled_from([0, 0, 1, 2, 63]))}


def bad_input(case):
    k, vals, at, by = case["kind"], list(case["values"]), case["at"] % len(case["values"]), case["by"]
    frames, offset = case["frames"], 0
    big = 2**31 - 1 + by
    small = -(2**31) - by
    if k == "empty-list":
        obj = []
    elif k == "empty-np":
        obj = np.array([], dtype=np.int32)
    elif k == "float-np":
        obj = np.array(vals, dtype=np.float64)
    elif k == "float32-np":
        obj = np.array(vals, dtype=np.float32)
    elif k == "complex":
        obj = np.array(vals, dtype=np.complex128)
    elif k == "float-list":
        obj = [float(v) for v in vals]
    elif k == "nan-list":
        obj = [float("nan")] + vals
    elif k == "late-float-list":
        vals[max(1, at)] = (vals[max(1, at)] % 1000) + 0.5
        obj = vals
    elif k == "2d":
        obj = np.array([vals, vals], dtype=np.int32)
    elif k == "2d-int64":
        obj = np.array([vals, vals], dtype=np.int64)
    elif k == "neg-frames":
        obj, frames = vals, -by
    elif k == "offset-neg":
        obj, offset = np.array(vals, dtype=np.int32), -by
    elif k == "offset-len":
        obj, offset = np.array(vals, dtype=np.int32), len(vals)
    elif k == "offset-big":
        obj, offset = vals, len(vals) + by
    elif k == "big-int64":
        vals[at] = big
        obj = np.array(vals, dtype=np.int64)
    elif k == "small-int64":
        vals[at] = small
        obj = np.array(vals, dtype=np.int64)
    elif k == "big-uint32":
        vals = [abs(v) for v in vals]
        vals[at] = min(big, 2**32 - 1)
        obj = np.array(vals, dtype=np.uint32)
    elif k == "big-uint64":
        vals = [abs(v) for v in vals]
        vals[at] = 2**63 + by
        obj = np.array(vals, dtype=np.uint64)
    elif k == "big-list":
        vals[at] = big
        obj = vals
    elif k == "huge-list":
        vals[at] = big * 2**40
        obj = vals
    elif k == "small-list":
        vals[at] = small
        obj = vals
    return obj, frames, offset


def check_bad(case):
    import sys
    return run_bad(sys.modules[__name__], case)


def run_bad(mod, case):
    obj, frames, offset = bad_input(case)
    if offset and mod.VERSION == 2:
        return False, ["no offset parameter"]
    for f in (mod.encode_block, mod.encode_bytes):
        try:
            f(obj, frames, 0, offset)
        except CodecException:
            continue
        except Exception as e:
            need(False, "%s: refused with %s (%s) instead of a codec error", case["kind"], type(e).__name__, e)
        need(False, "%s: was accepted", case["kind"])
    return True, ["bad:" + case["kind"]]


def directed_encode():
    out = []
    for c in ("list", "i2", "u1", "u2", "i1", "i8", "i4", ">i4"):
        lo, hi = gen.container_range(c)
        out.append({"container": c, "series": {"start": lo, "range": [lo, hi], "diffs": [hi - lo, lo - hi, 1, 1, 1, 1, hi - lo - 4]},
                    "frames": 0, "bias": 0, "offset": 0})
    for n in (1, 2, 3, 4, 5, 51, 52, 53, 111, 112, 113, 25, 26, 27, 12, 13, 14):
        for frames in (0, 1, 2):
            for w in (8, 16, 32):
                out.append({"container": "i4", "series": {"start": 5, "fold": "clip", "n": n, "segs": [["alt", w, n, 1]]},
                            "frames": frames, "bias": 0, "offset": 0})
    # more frames than any record of miniSEED2 can hold
    out.append({"container": "i4", "series": {"start": 5, "fold": "clip", "segs": [["alt", 32, 15700, 1]]}, "frames": 0, "bias": 0, "offset": 0})
    out.append({"container": "i4", "series": {"start": 5, "fold": "clip", "segs": [["alt", 32, 15700, 1]]}, "frames": 1030, "bias": 0, "offset": 0})
    return out


SUBS = [
    Sub("encode", encode_cases(), check_encode, quick=2400, thorough=60000, directed=directed_encode, shards=6),
    Sub("frame-edges", edge_cases(), check_edge, quick=1600, thorough=40000, shards=4),
    Sub("record-chain", chain_cases(), check_chain, quick=400, thorough=10000, shards=4),
    Sub("refusals", bad_cases(), check_bad, quick=600, thorough=10000, shards=1,
        directed=lambda: [{"kind": k, "values": [1, 2, 3], "at": a, "by": 1, "frames": 0} for k in BAD for a in (0, 1, 2)]),
]
