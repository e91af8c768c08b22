"""C05: packed miniSEED3 records conform to the specification and round-trip."""
import array
import io
import json
import struct

import numpy as np
from hypothesis import strategies as st

import simplemseed
from simplemseed import FDSNSourceId, MSeed3Header, MSeed3Record
from simplemseed.seedcodec import EncodedDataSegment

from .. import consts, gen, gen3, refms3
from ..core import Sub, need
from .c04 import isnan_bits

RULE = ("records from every data container (numpy of either byte order, wide integers, strided, array.array, list, encoded segment, bytes, none) "
        "with generated header fields, identifiers up to 255 bytes and extra headers up to 65535 bytes; non-trivial = has samples, extra headers or an "
        "identifier of more than 20 bytes, or is a refusal case")

CODES = {1: "h", 3: "i", 4: "f", 5: "d"}
PRIM_CONT = ["nd", "nd<", "nd>", "strided", "reversed", "readonly", "array", "list", "listd", "segLE", "segBE", "bytes", "bytearray"]


@st.composite
def data_specs(draw):
    k = draw(st.sampled_from(["prim", "prim", "prim", "wide", "steim", "raw", "none", "empty"]))
    if k == "prim":
        p = draw(gen3.payloads(("prim",)))
        p["cont"] = draw(st.sampled_from(PRIM_CONT))
        p["auto"] = draw(st.booleans())
        return p
    if k == "wide":
        return {"kind": "wide", "vals": draw(st.lists(gen.starts(), min_size=1, max_size=20)), "dt": draw(st.sampled_from(["i8", "<i8", ">i8", "u4", "u8", ">u4"])),
                "auto": draw(st.booleans()), "rep": draw(st.sampled_from([1, 1, 5]))}
    if k == "steim":
        p = draw(gen3.payloads(("steim",)))
        p["cont"] = draw(st.sampled_from(["seg", "bytes", "enc"]))
        p["auto"] = draw(st.booleans())
        return p
    if k == "raw":
        p = draw(gen3.payloads(("raw",)))
        p["cont"] = draw(st.sampled_from(["seg", "bytes", "bytearray"]))
        p["auto"] = False
        return p
    if k == "empty":
        return {"kind": "empty", "enc": draw(st.sampled_from([1, 3, 4, 5])), "cont": draw(st.sampled_from(["nd", "nd>", "array", "i8"])), "auto": draw(st.booleans())}
    return {"kind": "none", "auto": draw(st.booleans())}


@st.composite
def cases(draw):
    c = {"flags": draw(st.integers(0, 255)), "pub": draw(st.one_of(st.sampled_from([0, 1, 255]), st.integers(0, 255))),
         "rate": draw(gen3.rates()), "rateset": draw(st.sampled_from(["raw", "rate", "period"])),
         "id": draw(gen3.idents()), "idobj": draw(st.booleans()), "data": draw(data_specs()), "how": draw(st.sampled_from(["unpack", "stream", "nocrc"]))}
    c.update(draw(gen3.times()))
    ek = draw(st.sampled_from(["none", "text", "dict", "dict", "edge"]))
    if ek == "none":
        c["eh"] = None
    elif ek == "text":
        c["eh"] = draw(gen3.eh_texts())
    elif ek == "dict":
        c["eh"] = draw(gen3.EH_DICT)
    else:
        n = draw(st.sampled_from([254, 255, 256, 257, 4095, 32768, 65534, 65535]))
        c["eh"] = {"pad": "x" * (n - 11)}  # {"pad": "..."} is exactly n bytes
    return c


def build_data(d):
    """(object to give, encoding, count, payload bytes, sample values or None, header encoding to preset or None)."""
    k = d["kind"]
    if k == "none":
        return None, 0, 0, b"", [], None if d["auto"] else 0
    if k == "empty":
        enc = d["enc"]
        if d["cont"] == "i8":
            return np.array([], dtype=np.int64), 3, 0, b"", [], None if d["auto"] else 3
        if d["cont"] == "array":
            obj = array.array(CODES[enc])
        else:
            obj = np.array([], dtype=np.dtype(CODES[enc]).newbyteorder(">" if d["cont"] == "nd>" else "="))
        return obj, enc, 0, b"", [], None if d["auto"] else enc
    if k == "wide":
        vals = d["vals"] * d["rep"]
        lo = 0 if "u" in d["dt"] else -(2**31)
        vals = [v if v >= lo else -(v + 1) for v in vals]
        return np.array(vals, dtype=np.dtype(d["dt"])), 3, len(vals), struct.pack(f"<{len(vals)}i", *vals), vals, None if d["auto"] else 3
    enc, n, data, vals = gen3.expand_payload(d)
    if k == "prim":
        c = d["cont"]
        dt = np.dtype(CODES[enc])
        a = np.frombuffer(data, dtype=dt.newbyteorder("<")).astype(dt)
        pre = None if d["auto"] else enc
        if c == "nd":
            obj = a
        elif c in ("nd<", "nd>"):
            obj = a.astype(dt.newbyteorder(c[-1]))
        elif c == "strided":
            b = np.zeros(3 * len(a) + 1, dtype=dt)
            b[1::3] = a
            obj = b[1::3]
        elif c == "reversed":
            obj = a[::-1].copy()[::-1]
        elif c == "readonly":
            a.flags.writeable = False
            obj = a
        elif c == "array":
            obj = array.array(CODES[enc])
            obj.frombytes(a.tobytes())
        elif c == "list":
            obj = vals[:]
            pre = enc
        elif c == "listd":
            # between two 32 bit floats, nearest to the one expected
            obj = [v * (1 + 2.0**-30) for v in vals] if enc == 4 else vals[:]
            pre = None if d["auto"] and enc == 4 else enc
        elif c == "segLE":
            obj = EncodedDataSegment(enc, data, n, True)
        elif c == "segBE":
            obj = EncodedDataSegment(enc, struct.pack(f">{n}{CODES[enc]}", *vals), n, False)
        else:
            obj = data if c == "bytes" else bytearray(data)
            pre = enc
        return obj, enc, n, data, vals, pre
    pre = None if d["auto"] else enc
    c = d["cont"]
    if c == "seg":
        return EncodedDataSegment(enc, data, n, False), enc, n, data, vals, pre
    if c == "enc":
        f = simplemseed.encodeSteim1 if enc == 10 else simplemseed.encodeSteim2
        obj = f(np.array(vals, dtype=np.int32))
        return obj, enc, n, bytes(obj), vals, enc
    return (bytearray(data) if c == "bytearray" else data), enc, n, data, vals, enc


def snap(obj):
    if isinstance(obj, EncodedDataSegment):
        return (obj.compressionType, bytes(obj.dataBytes), obj.numSamples, obj.littleEndian)
    if isinstance(obj, np.ndarray):
        return (obj.dtype.str, obj.tobytes())
    if isinstance(obj, array.array):
        return obj.tobytes()
    if isinstance(obj, (bytes, bytearray)):
        return bytes(obj)
    return None if obj is None else list(obj)


def make_header(c, pre, n):
    h = MSeed3Header()
    h.flags, h.publicationVersion = c["flags"], c["pub"]
    h.nanosecond, h.year, h.dayOfYear, h.hour, h.minute, h.second = (c[k] for k in ("ns", "year", "doy", "hour", "minute", "second"))
    if c["rateset"] == "rate" and c["rate"] > 0:
        h.sampleRate = c["rate"]
    elif c["rateset"] == "period" and c["rate"] < 0:
        h.samplePeriod = -c["rate"]
    else:
        h.sampleRatePeriod = c["rate"]
    if pre is not None:
        h.encoding = pre
    if n is not None:
        h.numSamples = n
    return h


def same_json(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def check(c):
    obj, enc, n, payload, vals, pre = build_data(c["data"])
    before = snap(obj)
    ident = c["id"]
    idarg = ident
    if c["idobj"] and ident.startswith("FDSN:") and ident.count("_") == 5:
        idarg = FDSNSourceId.parse(ident)
    eh = c["eh"]
    eh_copy = json.loads(json.dumps(eh))
    h = make_header(c, pre, n if isinstance(obj, (bytes, bytearray)) or (c["flags"] & 1) else None)
    rec = MSeed3Record(h, idarg, obj, eh)
    packed = bytes(rec.pack())
    # layout
    try:
        ph, pid, peh, pdata, end = refms3.parse(packed)
    except refms3.Bad3 as e:
        raise AssertionError(f"packed bytes are not a valid record: {e}")
    need(end == len(packed), "packed %d bytes, lengths in the header add up to %d", len(packed), end)
    want = dict(flags=c["flags"], ns=c["ns"], year=c["year"], doy=c["doy"], hour=c["hour"], minute=c["minute"], second=c["second"],
                enc=enc, rate=c["rate"], n=n, pub=c["pub"])
    for k, v in want.items():
        need(ph[k] == v, "field %s is %r in the bytes, should be %r", k, ph[k], v)
    need(pid == ident.encode("utf-8"), "identifier bytes %r, should be %r", pid[:300], ident)
    need(pdata == payload, "payload differs from the %d samples given (%d bytes, should be %d)", n, len(pdata), len(payload))
    if isinstance(eh, str):
        need(peh == eh.encode("utf-8"), "extra header text changed")
    elif eh:
        need(same_json(json.loads(peh.decode("utf-8")), eh), "extra headers in the bytes are not those given")
    else:
        need(peh in (b"", b"{}"), "extra headers %r invented", peh[:100])
    # the header describes the packed bytes
    need((rec.header.crc, rec.header.identifierLength, rec.header.extraHeadersLength, rec.header.dataLength)
         == (ph["crc"], len(pid), len(peh), len(pdata)), "header after packing does not describe the bytes")
    need(rec.getSize() == len(packed), "size %r after packing, should be %d", rec.getSize(), len(packed))
    need(bytes(rec.pack()) == packed, "packing again gives different bytes")
    need(snap(obj) == before, "packing altered the caller's samples")
    need(eh is None or eh == eh_copy, "packing altered the caller's extra headers")
    # read back
    if c["how"] == "stream":
        got = list(simplemseed.readMSeed3Records(io.BytesIO(packed)))
        need(len(got) == 1, "%d records read back", len(got))
        back = got[0]
    else:
        back = simplemseed.unpackMSeed3Record(packed, check_crc=c["how"] == "unpack")
    bad = gen3.same_header(back.header, c, enc, n)
    need(not bad, "read back: %s", "; ".join(bad))
    need(back.identifier == ident, "identifier %r read back, should be %r", back.identifier, ident)
    wanteh = eh if not isinstance(eh, str) else gen3.eh_value(eh)
    need(same_json(back.eh or {}, wanteh or {}), "extra headers read back are not those given")
    if vals is not None and (n > 0 or enc in (1, 3, 4, 5)):
        bad = gen3.values_equal(back.decompress(), vals, enc)
        need(bad is None, "read back: %s", bad)
    d = c["data"]
    return (n > 0 or bool(eh) or len(ident) > 20), ["data:" + d["kind"] + ":" + d.get("cont", ""), f"eh:{type(eh).__name__}", "read:" + c["how"]]


# refusals ---------------------------------------------------------------

REFUSE = ["id-long", "id-long-utf8", "eh-long", "eh-long-dict", "wide-big", "wide-small", "list-overflow", "list-fraction", "array-8", "mismatch-enc",
          "mismatch-n", "two-dim", "dtype", "object", "field", "bytes-like-steim", "eh-kind"]


@st.composite
def refusals(draw):
    k = draw(st.sampled_from(REFUSE))
    c = {"kind": k, "vals": draw(st.lists(st.integers(-1000, 1000), min_size=1, max_size=8)), "over": draw(st.one_of(st.sampled_from([1, 2, 3, 256, 65536, 65535]), st.integers(1, 70000))),
         "pos": draw(st.integers(0, 7)), "by": draw(st.one_of(st.just(0), st.integers(0, 2**31), st.sampled_from([2**31, 2**32, 2**32 - 1]))),
         "pick": draw(st.integers(0, 20)), "auto": draw(st.booleans())}
    return c


def refuse(c):
    k = c["kind"]
    h = MSeed3Header()
    ident, eh = "FDSN:XX_ABC__H_H_Z", None
    vals = c["vals"]
    pos = c["pos"] % len(vals)
    data = np.array(vals, dtype=np.int32)
    if k == "id-long":
        ident = "X" * (255 + c["over"])
    elif k == "id-long-utf8":
        ident = "é" * (127 + (c["over"] % 128) + 1)
    elif k == "eh-long":
        eh = '{"a": "' + "y" * (65535 - 9 + c["over"]) + '"}'
    elif k == "eh-long-dict":
        eh = {"a": "y" * (65535 - 9 + c["over"])}
    elif k in ("wide-big", "wide-small"):
        w = vals[:]
        w[pos] = (2**31 + c["by"]) if k == "wide-big" else -(2**31) - 1 - c["by"]
        dt = ["i8", ">i8"][c["pick"] % 2] if k == "wide-small" else ["i8", ">i8", "u8"][c["pick"] % 3]
        if "u" in dt:
            w = [abs(v) for v in w]
        data = np.array(w, dtype=np.dtype(dt))
        if not c["auto"]:
            h.encoding = 3
    elif k == "list-overflow":
        h.encoding = [1, 3][c["pick"] % 2]
        data = vals[:]
        data[pos] = (2**15 if h.encoding == 1 else 2**31) + c["by"]
        if c["pick"] % 4 >= 2:
            data[pos] = -data[pos] - 1
    elif k == "list-fraction":
        h.encoding = [1, 3][c["pick"] % 2]
        data = [float(v) for v in vals]
        data[pos] = vals[pos] + [0.5, 0.25, 0.999, -0.5, 1e-9][c["pick"] % 5]
    elif k == "array-8":
        data = array.array(["q", "B", "H", "b", "Q"][c["pick"] % 5], [abs(v) % 100 for v in vals])
    elif k == "mismatch-enc":
        h.encoding = [1, 4, 5, 10, 11, 0, 100][c["pick"] % 7]
    elif k == "mismatch-n":
        h.numSamples = len(vals) + [1, 5, 65536][c["pick"] % 3]
    elif k == "two-dim":
        data = [np.array([vals, vals], dtype=np.int32), np.int32(vals[0]) * np.ones((1, 1, 2), dtype=np.int32), np.array(vals[0], dtype=np.int32)][c["pick"] % 3]
    elif k == "dtype":
        data = [data.astype(t) for t in ("i1", "u1", "u2", "f2", "c8", "?")][c["pick"] % 6] if c["pick"] % 7 else np.array(["a", "b"])
    elif k == "object":
        data = [tuple(vals), "text", {"a": 1}, set(vals), 5, 2.5, range(4)][c["pick"] % 7]
    elif k == "field":
        f, v = [("flags", 256), ("flags", -1), ("nanosecond", 2**32), ("year", 65536), ("year", -1), ("dayOfYear", 65536), ("hour", 256), ("minute", -1),
                ("second", 256), ("publicationVersion", 256), ("publicationVersion", -1), ("sampleRatePeriod", "x")][c["pick"] % 12]
        setattr(h, f, v)
    elif k == "eh-kind":
        eh = [[1, 2], 5, True, 2.5, ["a"], {1, 2}, b"{}", [], 0][c["pick"] % 9]
    elif k == "bytes-like-steim":
        h.encoding = 11
        data = vals[:]
    try:
        rec = MSeed3Record(h, ident, data, eh)
        packed = rec.pack()
    except Exception:
        return True, ["refused:" + k]
    raise AssertionError(f"{k}: written as a record of {len(packed)} bytes instead of being refused")


def directed():
    base = dict(flags=0, pub=1, rate=20.0, rateset="raw", id="FDSN:XX_ABC__H_H_Z", idobj=False, how="stream", year=2024, doy=366, hour=0, minute=0, second=0, ns=0, eh=None)
    out = []
    for enc, rep in ((1, 65535), (1, 65536), (1, 70000), (3, 65536), (4, 65537), (5, 70001)):
        for cont in ("nd", "list", "bytes"):
            out.append(dict(base, data={"kind": "prim", "enc": enc, "bits": [1, 2, 0x3F80], "rep": rep // 3 + 1, "cont": cont, "auto": False}))
    for n in (0, 1, 2, 127, 128, 254, 255):
        out.append(dict(base, id="I" * n, data={"kind": "wide", "vals": [-(2**31), 2**31 - 1, 0], "dt": "i8", "auto": True, "rep": 1}))
    for cont in ("bytes", "seg"):
        out.append(dict(base, data={"kind": "raw", "enc": 100, "hex": "4d", "rep": 2**24 + 5, "n": 9, "cont": cont, "auto": False}))
    # extra headers with many keys, long lists, deep nesting
    for odd in ("\ud83c", "\u00e9", "\u2028", None, 2**70, -0.0):
        deep = odd
        for _ in range(60):
            deep = {"d": [deep]}
        for eh in ({"k%d" % k: odd for k in range(70)}, {"k%d" % k: odd for k in range(1500)}, {"a": [odd] * 2000}, deep):
            out.append(dict(base, eh=eh, data={"kind": "prim", "enc": 1, "bits": [1, 2], "rep": 1, "cont": "nd", "auto": False}))
    return out


SUBS = [
    Sub("pack", cases(), check, quick=1600, thorough=30000, directed=directed),
    Sub("refusals", refusals(), refuse, quick=500, thorough=6000, shards=2),
]
