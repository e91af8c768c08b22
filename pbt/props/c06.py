"""C06: reading a miniSEED3 record is faithful and repacking reproduces it."""
import io
import json

from hypothesis import strategies as st

import simplemseed
from simplemseed.exceptions import CodecException, UnsupportedCompressionType

from .. import consts, gen3, refms3
from ..core import Sub, need

RULE = ("well-formed records written byte by byte by an independent writer (any flag bits, encodings, lengths, paddings, JSON styles); "
        "non-trivial = has samples, opaque payload, extra headers or undefined flag bits")

PRIM = (1, 3, 4, 5)


@st.composite
def cases(draw):
    r = draw(gen3.records(years=(0, 65535) if draw(st.booleans()) else (1, 9998)))
    r["pad"] = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 7, 64]))
    r["trail"] = draw(st.sampled_from([0, 0, 1, 40, 64, 200]))
    r["src"] = draw(st.sampled_from(["bytes", "bytearray", "stream", "stream-nocrc", "nocrc"]))
    r["crc"] = draw(st.sampled_from(["good", "good", "zero", "bad"])) if "nocrc" in r["src"] else "good"
    r["touch"] = draw(st.lists(st.sampled_from(["starttime", "decompress", "size", "hasEH", "bytes", "sampleRate", "encname"]), max_size=4))
    return r


def expand(r):
    enc, n, data, vals = gen3.expand_payload(r["payload"])
    if r["payload"]["kind"] == "prim" and r["pad"]:
        data = data + b"\x5a" * r["pad"]
    elif r["payload"]["kind"] == "steim" and r["pad"]:
        data = data + bytes(64)
    h = {k: r[k] for k in ("flags", "ns", "year", "doy", "hour", "minute", "second", "rate", "pub")}
    h["enc"], h["n"] = enc, n
    return h, data, vals


def check(r):
    h, data, vals = expand(r)
    enc, n = h["enc"], h["n"]
    ident, eh = r["id"], r["eh"]
    good = refms3.build(h, ident.encode("utf-8"), eh.encode("utf-8"), data)
    raw = good
    if r["crc"] == "zero":
        raw = good[:28] + bytes(4) + good[32:]
    elif r["crc"] == "bad":
        raw = good[:28] + bytes(b ^ 0x5A for b in good[28:32]) + good[32:]
    crc_check = "nocrc" not in r["src"]
    if r["src"].startswith("stream"):
        got = list(simplemseed.readMSeed3Records(io.BytesIO(raw), check_crc=crc_check))
        need(len(got) == 1, "%d records read from the bytes of one", len(got))
        rec = got[0]
    else:
        buf = raw + b"\xa5" * r["trail"]
        if r["src"] == "bytearray":
            buf = bytearray(buf)
        copy = bytes(buf)
        rec = simplemseed.unpackMSeed3Record(buf, check_crc=crc_check)
        need(bytes(buf) == copy, "reading altered the bytes")
    bad = gen3.same_header(rec.header, r, enc, n)
    need(not bad, "read: %s", "; ".join(bad))
    hd = rec.header
    need((hd.recordIndicator, hd.formatVersion) == ("MS", 3), "indicator or version")
    need(hd.crc == int.from_bytes(raw[28:32], "little"), "crc field %#x", hd.crc)
    for text in (hd.crcAsHex(), simplemseed.mseed3.crcAsHex(hd.crc)):
        need(text == "0x" + raw[28:32][::-1].hex().upper(), "checksum shown as %r, is %s", text, raw[28:32][::-1].hex())
    need((hd.identifierLength, hd.extraHeadersLength, hd.dataLength) == (len(ident.encode("utf-8")), len(eh.encode("utf-8")), len(data)),
         "length fields %r", (hd.identifierLength, hd.extraHeadersLength, hd.dataLength))
    need(hd.recordSize() == len(raw), "recordSize %r, should be %d", hd.recordSize(), len(raw))
    need(rec.identifier == ident, "identifier %r, should be %r", rec.identifier, ident)
    fixed = simplemseed.unpackMSeed3FixedHeader(raw[:40])
    bad = gen3.same_header(fixed, r, enc, n)
    need(not bad, "fixed header: %s", "; ".join(bad))
    need(bytes(fixed.pack()) == raw[:40], "fixed header packed again differs")
    need(bytes(hd.clone().pack()) == raw[:40], "clone of the header packs differently")
    for t in r["touch"]:
        if t == "starttime" and 1 <= r["year"] <= 9998:
            rec.starttime
        elif t == "decompress" and vals is not None:
            rec.decompress()
        elif t == "size":
            rec.getSize()
        elif t == "hasEH":
            rec.hasExtraHeaders()
        elif t == "bytes":
            rec.encodedDataBytes()
        elif t == "sampleRate":
            rec.header.sampleRate
        elif t == "encname":
            rec.encodingName()
    need(bytes(rec.encodedDataBytes()) == data, "payload bytes differ")
    need(bytes(rec.pack()) == good, "packing the untouched record does not reproduce its bytes")
    need(bytes(rec.clone().pack()) == good, "the clone packs to different bytes")
    if vals is not None:
        bad = gen3.values_equal(rec.decompress(), vals, enc)
        need(bad is None, "%s", bad)
        dr = rec.decompressedRecord()
        bad = gen3.values_equal(dr.decompress(), vals, enc if enc in (4, 5) else 3)
        need(bad is None, "decompressed record: %s", bad)
        need(dr.identifier == ident and dr.header.numSamples == n, "decompressed record identifier or count")
    elif n > 0:
        try:
            rec.decompress()
        except (CodecException, UnsupportedCompressionType):
            pass
        else:
            raise AssertionError(f"samples invented for encoding {enc}")
    need(bytes(rec.pack()) == good, "packing after decoding does not reproduce the bytes")
    want = gen3.eh_value(eh)
    got = rec.eh
    need(json.dumps(got or {}, sort_keys=True) == json.dumps(want or {}, sort_keys=True), "extra headers %r, should be %r", got, want)
    if eh in ("", "{}"):
        need(not rec.hasExtraHeaders(), "claims extra headers for %r", eh)
    elif want:
        need(rec.hasExtraHeaders(), "denies extra headers %r", eh[:200])
    return (n > 0 or len(data) > 0 or bool(want) or r["flags"] > 7), [f"enc:{enc}", "src:" + r["src"], "crc:" + r["crc"], "payload:" + r["payload"]["kind"]]


def directed():
    base = dict(flags=255, pub=3, rate=-0.0, id="", eh="", year=65535, doy=366, hour=23, minute=59, second=60, ns=999999999, payload={"kind": "none", "enc": 0},
                pad=0, trail=0, src="bytes", crc="good", touch=[])
    out = [base, dict(base, src="stream")]
    for enc in range(256):
        if enc not in (1, 3, 4, 5, 10, 11, 32):
            out.append(dict(base, payload={"kind": "raw", "enc": enc, "hex": "0102030405", "rep": 1, "n": 1}))
    for src in ("bytes", "stream"):
        out.append(dict(base, src=src, payload={"kind": "raw", "enc": 100, "hex": "4d", "rep": 2**24 + 5, "n": 9}))
    return out


SUBS = [Sub("read", cases(), check, quick=2400, thorough=40000, directed=directed, shards=8)]
