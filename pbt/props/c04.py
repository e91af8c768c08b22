"""C04: uncompressed encodings preserve every value in either byte order."""
import array
import math
import random
import struct

import numpy as np
from hypothesis import strategies as st

import simplemseed
from simplemseed.exceptions import CodecException, UnsupportedCompressionType
from simplemseed.seedcodec import isFloatCompression

from .. import consts, gen
from ..core import Sub, need

RULE = ("arrays over the four primitive encodings given as bit patterns (extremes, denormals, infinities, signed zeros) in every "
        "container and both byte orders, samples of one type written in another encoding, truncated payloads, every encoding number; non-trivial = two or more different values, or a refusal case")

ENC = {1: ("h", 2, np.int16), 3: ("i", 4, np.int32), 4: ("f", 4, np.float32), 5: ("d", 8, np.float64)}
BITS = {1: 16, 3: 32, 4: 32, 5: 64}

F32_EDGE = [0, 0x80000000, 1, 0x80000001, 0x007FFFFF, 0x00800000, 0x7F7FFFFF, 0xFF7FFFFF, 0x7F800000, 0xFF800000, 0x3F800000, 0x7FC00000, 0x3DCCCCCD, 0x4B800000]
F64_EDGE = [0, 1 << 63, 1, (1 << 63) + 1, 0x000FFFFFFFFFFFFF, 0x0010000000000000, 0x7FEFFFFFFFFFFFFF, 0xFFEFFFFFFFFFFFFF,
            0x7FF0000000000000, 0xFFF0000000000000, 0x3FF0000000000000, 0x7FF8000000000000, 0x3FB999999999999A, 0x4340000000000001]


def bit_values(enc):
    b = BITS[enc]
    edges = {1: [0, 1, 0x7FFF, 0x8000, 0xFFFF, 0x00FF, 0xFF00, 0x0102], 3: [0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x01020304, 0xFFFF0000, 0x8000, 0xFFFF7FFF],
             4: F32_EDGE, 5: F64_EDGE}[enc]
    return st.one_of(st.sampled_from(edges), st.integers(0, (1 << b) - 1))


@st.composite
def cases(draw):
    enc = draw(st.sampled_from([1, 3, 4, 5]))
    case = {"enc": enc, "bits": draw(st.lists(bit_values(enc), min_size=1, max_size=24)), "le": draw(st.booleans()),
            "container": draw(st.sampled_from(["native", "<", ">", "strided", "reversed", "readonly", "array", "list", "tuple"])),
            "explicit": draw(st.booleans()), "rep": draw(st.one_of(st.just(1), st.just(1), st.integers(1, 300))),
            "extra": draw(st.sampled_from([0, 0, 1, 3, 64])), "fewer": draw(st.integers(0, 5)), "buf": draw(st.sampled_from(["bytes", "bytearray"]))}
    return case


def expand(case):
    """Values as (bit pattern list)."""
    bits = case["bits"] * case["rep"]
    return bits


def raw(bits, enc, le):
    size = BITS[enc] // 8
    return b"".join(b.to_bytes(size, "little" if le else "big") for b in bits)


def values(bits, enc):
    code = {1: "h", 3: "i", 4: "f", 5: "d"}[enc]
    return list(struct.unpack(f"<{len(bits)}{code}", raw(bits, enc, True)))


def container(case, bits):
    enc, c = case["enc"], case["container"]
    dt = np.dtype(ENC[enc][2])
    a = np.frombuffer(raw(bits, enc, True), dtype=dt.newbyteorder("<")).astype(dt)
    if c == "native":
        return a
    if c in "<>":
        return a.astype(dt.newbyteorder(c))
    if c == "strided":
        b = np.zeros(2 * len(a) + 1, dtype=dt)
        b[1::2] = a
        return b[1::2]
    if c == "reversed":
        return a[::-1].copy()[::-1]
    if c == "readonly":
        a.flags.writeable = False
        return a
    if c == "array":
        out = array.array(ENC[enc][0])
        out.frombytes(a.tobytes())
        return out
    v = values(bits, enc)
    return v if c == "list" else tuple(v)


def isnan_bits(b, enc):
    if enc == 4:
        return (b & 0x7F800000) == 0x7F800000 and b & 0x7FFFFF
    if enc == 5:
        return (b & 0x7FF0000000000000) == 0x7FF0000000000000 and b & 0xFFFFFFFFFFFFF
    return False


def same_bits(got, want, enc):
    size = BITS[enc] // 8
    for i, w in enumerate(want):
        g = int.from_bytes(got[i * size:(i + 1) * size], "little")
        if g != w and not (isnan_bits(g, enc) and isnan_bits(w, enc)):
            return i
    return None


def compare(got, want_bits, enc, what):
    n = len(want_bits)
    need(isinstance(got, np.ndarray) and got.shape == (n,), "%s: shape %r, expected %d", what, getattr(got, "shape", None), n)
    need(got.dtype.kind == np.dtype(ENC[enc][2]).kind and got.dtype.itemsize == BITS[enc] // 8, "%s: dtype %s", what, got.dtype)
    le = got.astype(got.dtype.newbyteorder("<")).tobytes()
    k = same_bits(le, want_bits, enc)
    if k is not None:
        need(False, "%s: value %d is %r, was bits %#x", what, k, got[k], want_bits[k])


def check(case):
    enc, le = case["enc"], case["le"]
    bits = expand(case)
    obj = container(case, bits)
    explicit = case["explicit"] or isinstance(obj, (list, tuple))
    snap = obj.tobytes() if hasattr(obj, "tobytes") else None
    seg = simplemseed.encode(obj, enc, le) if explicit else simplemseed.encode(obj, littleEndian=le)
    need(snap is None or obj.tobytes() == snap, "encoding altered the input")
    need(seg.compressionType == enc, "encoded as %r, expected %d", seg.compressionType, enc)
    need(seg.numSamples == len(bits) and bool(seg.littleEndian) == le, "count %r or byte order %r wrong", seg.numSamples, seg.littleEndian)
    data = bytes(seg.dataBytes)
    size = BITS[enc] // 8
    need(len(data) == size * len(bits), "%d bytes for %d samples", len(data), len(bits))
    as_le = data if le else b"".join(data[i:i + size][::-1] for i in range(0, len(data), size))
    k = same_bits(as_le, bits, enc)
    if k is not None:
        need(False, "byte layout of value %d wrong: %s", k, data[k * size:(k + 1) * size].hex())
    compare(seg.decode(), bits, enc, "segment decode")
    payload = raw(bits, enc, le) + bytes(range(1, case["extra"] + 1))
    payload = payload if case["buf"] == "bytes" else bytearray(payload)
    n = max(1, len(bits) - case["fewer"])
    before = bytes(payload)
    compare(simplemseed.decompress(enc, payload, n, le), bits[:n], enc, "decompress")
    need(bytes(payload) == before, "decoding altered its input")
    compare(simplemseed.decompress(enc, payload, n, le), bits[:n], enc, "decompress again")
    if not le:
        need(simplemseed.decompress(enc, payload, n, True).astype("<" + np.dtype(ENC[enc][2]).str[1:]).tobytes() == bytes(payload[:n * size]),
             "other byte order does not give the reversed bytes")
    return len(set(bits)) > 1, [f"enc:{enc}", "little" if le else "big", "container:" + case["container"], "n:" + ("<100" if len(bits) < 100 else "100+")]


# ---- refused: too few bytes, unknown encodings

@st.composite
def short_cases(draw):
    enc = draw(st.sampled_from([1, 3, 4, 5, 32]))
    n = draw(gen.sized_int(1, 300))
    size = 2 if enc == 32 else BITS[enc] // 8
    return {"enc": enc, "n": n, "bytes": draw(st.one_of(st.just(n * size - 1), st.integers(0, n * size - 1))), "le": draw(st.booleans())}


def check_short(case):
    try:
        got = simplemseed.decompress(case["enc"], bytes(case["bytes"]), case["n"], case["le"])
    except CodecException:
        return True, [f"short enc:{case['enc']}"]
    need(False, "%d samples decoded from %d bytes: %r", case["n"], case["bytes"], got.shape)


DECODABLE = (1, 3, 4, 5, 10, 11)


@st.composite
def enc_cases(draw):
    return {"enc": draw(st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 2, 3, 4, 5, 10, 11, 16, 19, 30, 32, 100, 255]))),
            "n": draw(st.integers(0, 20)), "le": draw(st.booleans())}


def check_enc(case):
    enc, n = case["enc"], case["n"]
    can = bool(simplemseed.canDecompress(enc))
    need(can == (enc in DECODABLE), "canDecompress(%d) is %r", enc, can)
    need(bool(simplemseed.isPrimitiveCompression(enc)) == (enc in (1, 3, 4, 5)), "isPrimitiveCompression(%d) wrong", enc)
    flt = isFloatCompression(enc)
    need(bool(flt) == (enc in (4, 5)) and bool(simplemseed.EncodedDataSegment(enc, b"", 0, case["le"]).isFloatCompression()) == (enc in (4, 5)), "isFloatCompression(%d) wrong", enc)
    name = simplemseed.encodingName(enc)
    need(isinstance(name, str) and name, "no name for encoding %d", enc)
    known = {0, 1, 3, 4, 5, 10, 11, 19, 100}
    need((enc in known) or str(enc) in name, "name %r of encoding %d does not say which", name, enc)
    names = [simplemseed.encodingName(e) for e in sorted(known)]
    need(len(set(names)) == len(names), "two encodings share a name")
    size = 8 * n if enc not in (10, 11) else 0
    data = bytes(size)
    if enc in (10, 11):
        from .. import refsteim
        data = refsteim.greedy(1 if enc == 10 else 2, list(range(max(n, 1))))
    try:
        got = simplemseed.decompress(enc, data, n, case["le"])
        ok = True
    except UnsupportedCompressionType:
        ok = False
    if n == 0:
        need(ok and len(got) == 0, "no samples must decode to an empty array for any encoding")
        return False, ["empty"]
    if enc == 32:
        return False, ["16-bit DWWSSN"]
    need(ok == can, "canDecompress(%d) is %r but decoding %s", enc, can, "worked" if ok else "was refused")
    if ok:
        need(got.shape == (n,), "wrong count")
    return True, ["decodable" if ok else "unsupported"]


# ---- refused: containers and values that do not fit

REFUSE = ["list-noenc", "bytes", "bytearray", "i8-noenc", "u1-noenc", "bool-noenc", "c8-noenc", "f2-noenc", "arr-b", "arr-H", "arr-q", "arr-l",
          "short-over", "short-under", "int-over", "int-under", "float-as-int", "steim1", "steim2", "text", "enc99", "int24"]


def check_refuse(case):
    k, by = case["kind"], case["by"]
    enc = None
    codec = True  # must be a codec error
    if k == "list-noenc":
        obj = [1, 2, by]
    elif k == "bytes":
        obj = bytes(by % 20)
    elif k == "bytearray":
        obj = bytearray(by % 20)
    elif k.endswith("-noenc"):
        obj = np.array([1, 0, 1], dtype={"i8": np.int64, "u1": np.uint8, "bool": bool, "c8": np.complex64, "f2": np.float16}[k.split("-")[0]])
    elif k.startswith("arr-"):
        obj = array.array(k[4:], [1, 2, 3])
    elif k == "short-over":
        obj, enc, codec = [1, 32767 + by], 1, False
    elif k == "short-under":
        obj, enc, codec = [1, -32768 - by], 1, False
    elif k == "int-over":
        obj, enc, codec = np.array([1, 2**31 - 1 + by]), 3, False
    elif k == "int-under":
        obj, enc, codec = [1, -(2**31) - by], 3, False
    elif k == "float-as-int":
        obj, enc, codec = [1.5, 2.0], 3 if by % 2 else 1, False
    else:
        obj, enc = [1, 2, 3], {"steim1": 10, "steim2": 11, "text": 0, "enc99": 99, "int24": 2}[k]
    try:
        seg = simplemseed.encode(obj, enc, bool(by % 2)) if enc is not None else simplemseed.encode(obj)
    except CodecException:
        return True, ["refuse:" + k]
    except Exception as e:
        need(not codec, "%s refused with %s: %s, not a codec error", k, type(e).__name__, e)
        return True, ["refuse:" + k]
    need(False, "%s was accepted: %d bytes", k, len(seg.dataBytes))


# ---- samples of one type written in another encoding: the values, or a refusal

SRC = {"i1": np.int8, "u1": np.uint8, "i2": np.int16, "u2": np.uint16, "i4": np.int32, "u4": np.uint32, "i8": np.int64, "f4": np.float32, "f8": np.float64}


@st.composite
def cross_cases(draw):
    src = draw(st.sampled_from(sorted(SRC)))
    if src[0] == "f":
        v = st.one_of(st.integers(-40000, 40000).map(float), st.floats(width=32, allow_nan=False), st.sampled_from([0.5, -1.5, 3e9, 1e30, float("inf")]))
    else:
        lim = np.iinfo(SRC[src])
        v = st.one_of(st.integers(max(-300, lim.min), min(300, lim.max)), st.integers(lim.min, lim.max))
    return {"src": src, "vals": draw(st.lists(v, min_size=1, max_size=12)), "enc": draw(st.sampled_from([1, 3, 4, 5])), "le": draw(st.booleans()),
            "big": draw(st.booleans()), "container": draw(st.sampled_from(["np", "np", "list", "array"]))}


def check_cross(case):
    enc, le, src = case["enc"], case["le"], case["src"]
    dt = np.dtype(SRC[src])
    a = np.array(case["vals"], dtype=dt.newbyteorder(">" if case["big"] else "<"))
    vals = a.tolist()
    obj = a
    if case["container"] == "list":
        obj = list(vals)
    elif case["container"] == "array":
        obj = array.array({"i1": "b", "u1": "B", "i2": "h", "u2": "H", "i4": "i", "u4": "I", "i8": "q", "f4": "f", "f8": "d"}[src], vals)
    try:
        seg = simplemseed.encode(obj, enc, le)
    except Exception:
        lim = {1: 2**15, 3: 2**31}.get(enc)
        must = [lim is not None and (src[0] == "f" or not -lim <= v < lim) for v in vals]
        # 32-bit floats cannot hold larger ones
        must += [enc == 4 and src == "f8" and abs(v) > 3.4e38 for v in vals]
        need(any(must), "%s %r refused for encoding %d", src, vals, enc)
        return True, [f"refused {src}->{enc}"]
    data = bytes(seg.dataBytes)
    size = BITS[enc] // 8
    need(len(data) == size * len(vals) and seg.numSamples == len(vals) and seg.compressionType == enc, "%d bytes, count %r, encoding %r", len(data), seg.numSamples, seg.compressionType)
    want = [float(np.float32(float(v))) for v in vals] if enc == 4 else [float(v) for v in vals] if enc == 5 else vals
    got = list(struct.unpack(f"{'<' if le else '>'}{len(vals)}{ENC[enc][0]}", data))
    need(got == want, "%s %r written in encoding %d as %r", src, vals, enc, got)
    dec = seg.decode().tolist()
    need(dec == got, "decoded to %r, bytes hold %r", dec, got)
    return len(set(vals)) > 1, [f"{src}->{enc}"]


REFUSE_CASES = st.fixed_dictionaries({"kind": st.sampled_from(REFUSE), "by": gen.sized_int(1, 2**31)})

SUBS = [
    Sub("bit-exact", cases(), check, quick=5000, thorough=120000, shards=5,
        directed=lambda: [{"enc": e, "bits": [1, 2, 3, 0], "le": le, "container": c, "explicit": x, "rep": r, "extra": 0, "fewer": 0, "buf": "bytes"}
                          for e in (1, 3, 4, 5) for le in (True, False) for c in ("native", "<", ">", "array", "strided", "list") for x in (True, False) for r in (1, 5000)]),
    Sub("cross", cross_cases(), check_cross, quick=1600, thorough=40000, shards=2),
    Sub("short-payload", short_cases(), check_short, quick=1500, thorough=30000, shards=2),
    Sub("encodings", enc_cases(), check_enc, quick=1500, thorough=20000, shards=2,
        directed=lambda: [{"enc": e, "n": n, "le": True} for e in range(256) for n in (0, 1, 7)]),
    Sub("refusals", REFUSE_CASES, check_refuse, quick=500, thorough=5000, shards=1,
        directed=lambda: [{"kind": k, "by": 1} for k in REFUSE]),
]
