"""C03: Steim decoding follows the format for every legal packing."""
import random

import numpy as np
from hypothesis import strategies as st

import simplemseed
from simplemseed.exceptions import CodecException

from .. import gen, refsteim
from ..core import Cov, Sub, need

RULE = ("blocks assembled word by word with any legal packing (including ones no greedy encoder picks), decoded by the library "
        "and by an independent decoder; plus arbitrary corruptions; non-trivial = two or more packing kinds, or a malformed block")

KINDS = {1: [(1, None), (2, None), (3, None)],
         2: [(1, None), (2, 1), (2, 2), (2, 3), (3, 0), (3, 1), (3, 2)]}
LIB = {1: simplemseed.decodeSteim1, 2: simplemseed.decodeSteim2}


def count_bits(version, kind):
    return refsteim.S1[kind[0]] if version == 1 else refsteim.S2[(kind[0], kind[1])]


def wordlist(version, recipe):
    """Expand [[kind index, value style, seed, repeat], ...]."""
    words = []
    for ki, style, seed, rep in recipe:
        if ki == 7:
            # unused words: code 0, any content
            words += [(0, 0 if style == 0 else (seed * 2654435761) & 0xFFFFFFFF)] * rep
            continue
        kind = KINDS[version][ki % len(KINDS[version])]
        n, b = count_bits(version, kind)
        r = random.Random(seed)
        lo, hi = -(1 << (b - 1)), (1 << (b - 1)) - 1
        for _ in range(rep):
            if style == 0:
                ds = [r.randint(lo, hi) for _ in range(n)]
            elif style == 1:
                ds = [r.choice([lo, hi, -1, 0, 1]) for _ in range(n)]
            elif style == 2:
                ds = [r.randint(max(lo, -3), min(hi, 3)) for _ in range(n)]
            else:
                ds = [0] * n
                ds[seed % n] = lo
            words.append(refsteim.word(version, kind, ds))
    return words


WORDS = st.lists(st.tuples(st.integers(0, 7), st.integers(0, 3), st.integers(0, 2**16),
                           st.one_of(st.just(1), st.just(1), st.integers(1, 40))).map(list), min_size=1, max_size=20)


@st.composite
def cases(draw):
    return {"version": draw(st.sampled_from([1, 2])), "words": draw(WORDS), "x0": draw(gen.starts()), "xn": draw(gen.starts()),
            "pad": draw(st.sampled_from([0, 0, 0, 1, 2, 5])), "short": draw(st.one_of(st.just(0), st.integers(0, 300))),
            "bias": draw(st.one_of(st.just(0), gen.starts())), "type": draw(st.sampled_from(["bytes", "bytearray"])),
            "via": draw(st.sampled_from(["direct", "direct", "decompress", "segment"])), "le": draw(st.booleans())}


def build(case):
    words = wordlist(case["version"], case["words"])
    data = refsteim.assemble(case["x0"], case["xn"], words, case["pad"])
    return data, words


def check(case):
    v = case["version"]
    data, words = build(case)
    total = len(refsteim.diffs(v, data)[0])
    n = max(min(1, total), total - case["short"] % max(1, total))
    bias = case["bias"] if case["via"] == "direct" else 0
    want = refsteim.decode(v, data, n, bias)
    arg = bytes(data) if case["type"] == "bytes" else bytearray(data)
    enc = 10 if v == 1 else 11
    if case["via"] == "direct":
        got = LIB[v](arg, n, np.int32(bias)) if bias else LIB[v](arg, n)
    elif case["via"] == "decompress":
        got = simplemseed.decompress(enc, arg, n, case["le"])
    else:
        got = simplemseed.EncodedDataSegment(enc, arg, n, case["le"]).decode()
    need(isinstance(got, np.ndarray) and got.dtype == np.int32 and got.shape == (n,), "not %d 32-bit samples: %r", n, getattr(got, "shape", None))
    g = got.tolist()
    if g != want:
        k = next(i for i in range(n) if g[i] != want[i])
        need(False, "sample %d decodes to %d, format says %d", k, g[k], want[k])
    need(bytes(arg) == bytes(data), "decoding altered the input bytes")
    again = LIB[v](arg, n, np.int32(bias))
    need(again.tolist() == want, "second decode differs")
    kinds = {"unused" if x[0] == 7 else KINDS[v][x[0] % len(KINDS[v])] for x in case["words"]}
    lab = [f"steim{v}", "frames:" + ("1" if len(data) == 64 else "2+"), "via:" + case["via"]]
    if "unused" in kinds:
        lab.append("unused words between")
    if bias:
        lab.append("bias")
    if n < total:
        lab.append("prefix")
    if case["pad"]:
        lab.append("padded")
    return len(kinds) > 1, lab


# ---- malformed blocks

@st.composite
def bad_cases(draw):
    return {"version": draw(st.sampled_from([1, 2])), "words": draw(WORDS), "x0": draw(gen.starts()), "xn": 0, "pad": 0,
            "fault": draw(st.sampled_from(["length", "too-few", "code", "first-code", "empty"])),
            "a": draw(st.integers(0, 2**16)), "b": draw(st.integers(1, 63))}


def check_bad(case):
    v = case["version"]
    data, words = build(case)
    data = bytearray(data)
    total = len(refsteim.diffs(v, bytes(data))[0])
    n = total
    f = case["fault"]
    if f == "length":
        cut = 1 + case["a"] % 63
        data = data + bytes(cut) if case["b"] % 2 else data[:-cut]
    elif f == "too-few":
        n = total + 1 + (case["a"] % 40 if case["b"] % 3 else case["a"])
    elif f == "empty":
        data, n = bytearray(), 1 + case["a"] % 100
    elif f == "first-code":
        fr = case["a"] % (len(data) // 64)
        data[fr * 64] = (data[fr * 64] & 0x3F) | (1 + case["b"] % 3) << 6
    elif f == "code":
        if v == 1:
            return False, ["no illegal codes in steim1"]
        # make a data word's sub-code illegal: (2,0) or (3,3)
        spots = []
        for fr in range(len(data) // 64):
            w0 = int.from_bytes(data[fr * 64:fr * 64 + 4], "big")
            for i in range(1, 16):
                c = (w0 >> (30 - 2 * i)) & 3
                if c in (2, 3):
                    spots.append((fr * 64 + 4 * i, c))
        if not spots:
            return False, ["no sub-coded word"]
        at, c = spots[case["a"] % len(spots)]
        data[at] = (data[at] & 0x3F) | (0 if c == 2 else 3) << 6
    try:
        got = LIB[v](bytes(data), n)
    except CodecException:
        return True, ["fault:" + f, f"steim{v}"]
    need(False, "malformed block (%s) decoded to %d samples", f, len(got))


# ---- arbitrary bytes

@st.composite
def garbage_cases(draw):
    return {"version": draw(st.sampled_from([1, 2])), "hex": draw(st.binary(max_size=200).map(bytes.hex)), "frames": draw(st.integers(0, 3)),
            "clean": draw(st.booleans()), "n": draw(gen.sized_int(0, 500))}


def check_garbage(case):
    data = bytearray(bytes.fromhex(case["hex"]))
    if case["frames"]:
        size = 64 * case["frames"]
        data = (data * (size // max(1, len(data)) + 1) if data else bytearray(size))[:size]
    if case["clean"]:
        for f in range(0, len(data), 64):
            data[f] &= 0x03  # codes for words 0..2 zero
    v, n = case["version"], case["n"]
    try:
        got = LIB[v](bytes(data), n)
    except CodecException:
        return len(data) > 0, ["refused"]
    need(got.dtype == np.int32 and got.shape == (n,), "decoded to shape %r, asked for %d", got.shape, n)
    return n > 0, ["decoded"]


def directed():
    out = []
    for v in (1, 2):
        for k in range(len(KINDS[v])):
            for style in range(4):
                for rep in (1, 13, 14, 29):
                    out.append({"version": v, "words": [[k, style, rep, rep]], "x0": -7, "xn": 3, "pad": rep % 2, "short": 0,
                                "bias": 0, "type": "bytes", "via": "direct", "le": False})
        # more frames than any record of miniSEED2 can hold
        out.append({"version": v, "words": [[2, 0, 5, 9000], [v, 0, 6, 7000]], "x0": -7, "xn": 3, "pad": 0, "short": 0,
                    "bias": 0, "type": "bytes", "via": "decompress", "le": True})
    return out


SUBS = [
    Sub("legal-packings", cases(), check, quick=4000, thorough=100000, directed=directed, shards=6),
    Sub("malformed", bad_cases(), check_bad, quick=2000, thorough=40000, shards=3),
    Sub("garbage", garbage_cases(), check_garbage, quick=2000, thorough=40000, shards=3),
]


# ---- coverage-guided, both ways: what the format reads is read, what it forbids is refused

def check_words(case):
    raw = bytes.fromhex(case["hex"])
    if len(raw) < 7:
        return False, ["short"]
    v, data = 1 + raw[0] % 2, raw[6:]
    if raw[0] < 250:
        data += bytes(-len(data) % 64)
    bias = int.from_bytes(raw[3:6], "big", signed=True) if raw[0] & 2 else 0
    try:
        ds = refsteim.diffs(v, data)[0]
    except refsteim.BadSteim as e:
        if "constants" in str(e):
            return False, ["constants coded as data"]
        ds, why = None, str(e)
    n = int.from_bytes(raw[1:3], "little") % ((len(ds or []) + 2) * 2)
    if ds is not None:
        if n > len(ds):
            why = "too few samples"
            if raw[0] & 4:
                n = len(ds)
    good = ds is not None and n <= len(ds)
    try:
        got = LIB[v](data, n, np.int32(bias)) if bias else LIB[v](data, n)
    except CodecException:
        need(not good, "%d samples of %d in a legal block are refused", n, len(ds or []))
        return True, ["refused"]
    need(good, "block decoded to %d samples: %s", len(got), "" if good else why)
    need(got.dtype == np.int32 and got.tolist() == refsteim.decode(v, data, n, bias), "samples are not what the format says")
    return n > 0, ["decoded", f"steim{v}"]


def word_seeds():
    out = []
    for v in (1, 2):
        for k in range(len(KINDS[v])):
            ws = wordlist(v, [[k, 0, k, 5], [(k + 1) % len(KINDS[v]), 1, k, 3 + 9 * (k % 2)], [7, 1, 5, 1], [0, 2, 1, 1]])
            out.append(bytes([v - 1 + 2 * (k % 2) + 4]) + b"\x40\0" + b"\0\1\2" + refsteim.assemble(100, -100, ws))
    return out


COVS = [Cov("words-guided", check_words, word_seeds, 30000, 2000000, max_len=6 + 64 * 5)]
