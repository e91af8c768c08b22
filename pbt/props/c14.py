"""C14: reading miniSEED2 streams is faithful for any writer's layout."""
import io
import os
import re
import struct
import tempfile

from hypothesis import strategies as st

import simplemseed
from simplemseed import readMiniseed2Records, unpackBlockette, unpackMiniseedHeader, unpackMiniseedRecord
from simplemseed.exceptions import CodecException, UnsupportedCompressionType

from .. import gen2, gen3, refms2, refms3
from ..core import Sub, need

RULE = ("streams of records written byte by byte by an independent writer: header and sample byte orders, lengths 128 bytes up, blockettes in any order with gaps and unknown types, "
        "Steim, plain, opaque or no data; patterns, truncation, repacking; non-trivial = a record with samples or more than one blockette")


@st.composite
def cases(draw):
    recs = draw(gen3.repeats(st.lists(gen2.records(), min_size=0, max_size=6)))
    return {"recs": recs, "pat": draw(st.one_of(st.none(), gen3.patterns([gen2.sid(r) for r in recs]))), "skip": draw(st.sampled_from([0, 0, 3, 512])),
            "src": draw(st.sampled_from(["mem", "mem", "file"])), "single": draw(st.booleans())}


def check_record(rec, r, where):
    bad = gen2.header_diffs(rec.header, r)
    need(not bad, "%s: %s", where, "; ".join(bad))
    bad = gen2.blockette_diffs(rec.blockettes, r)
    need(not bad, "%s: %s", where, "; ".join(bad))
    need(str(rec.identifier) == gen2.sid(r), "%s: identifier %s", where, rec.identifier)
    need(rec.codes() == f"{r['net']}.{r['sta']}.{r['loc']}.{r['chan']}", "%s: codes %s", where, rec.codes())
    need(refms3.dt_us(rec.starttime()) == gen2.start_us(r), "%s: start time %s", where, rec.starttime())
    check_samples(rec, r, where)


def check_samples(rec, r, where):
    vals = gen2.values(r)
    enc = next(b["enc"] for b in r["blk"] if b["num"] == 1000)
    if vals is None:
        try:
            if rec.decompress() is None:
                return
        except (CodecException, UnsupportedCompressionType):
            return
        raise AssertionError(f"{where}: samples invented for encoding {enc}")
    got = rec.decompress()
    if not vals:
        need(got is None or len(got) == 0, "%s: samples invented", where)
        return
    bad = gen3.values_equal(got, vals, enc)
    need(bad is None, "%s: %s", where, bad)


def check(c):
    recs = c["recs"]
    raws = [gen2.to_bytes(r) for r in recs]
    want = [r for r in recs if c["pat"] is None or re.search(c["pat"], gen2.sid(r))]
    kw = {} if c["pat"] is None else {"matchsid": c["pat"]}
    blob = b"\x01" * c["skip"] + b"".join(raws)
    if c["src"] == "file":
        with tempfile.TemporaryDirectory(prefix="pbt-c14-") as tmp:
            p = os.path.join(tmp, "x.ms2")
            with open(p, "wb") as f:
                f.write(blob)
            with open(p, "rb") as f:
                f.seek(c["skip"])
                got = list(readMiniseed2Records(f, **kw))
    else:
        f = io.BytesIO(blob)
        f.seek(c["skip"])
        got = list(readMiniseed2Records(f, **kw))
    need(len(got) == len(want), "%d records read (pattern %r), should be %d", len(got), c["pat"], len(want))
    for k, (rec, r) in enumerate(zip(got, want)):
        check_record(rec, r, f"record {k}")
    if c["single"] and recs:
        rec = unpackMiniseedRecord(raws[0] + (raws[1] if len(raws) > 1 else b""))
        check_record(rec, recs[0], "single record")
    nt = any(r["n"] > 0 or len(r["blk"]) > 1 for r in want)
    labels = ["n:%d" % len(recs), "pat:%s" % ("none" if c["pat"] is None else "all" if len(want) == len(recs) else "some" if want else "no")]
    for r in recs:
        labels += ["order:%s%d" % (r["o"], gen2.order(r)), "exp:%d" % r["exp"], "p:" + r["p"]["kind"]]
    return nt, labels


def equivalent(packed, r, where, added=0):
    """Bytes packed from an unedited record mean what the original did."""
    try:
        p = refms2.parse(packed)
    except refms2.Bad2 as e:
        raise AssertionError(f"{where}: packed bytes are not a valid record: {e}")
    b = next(b for b in r["blk"] if b["num"] == 1000)
    for k in ("net", "sta", "loc", "chan", "q", "act", "io", "qual", "corr", "n"):
        need(p[k] == r[k], "%s: %s is %r, was %r", where, k, p[k], r[k])
    need(not refms2.padding(packed), "%s: codes are not at the left of their fields: %r", where, refms2.padding(packed))
    need(int(p["seq"]) == gen2.seqnum(r), "%s: sequence number %r", where, p["seq"])
    need(p["us"] == gen2.start_us(r), "%s: start time moved by %d microseconds", where, p["us"] - gen2.start_us(r))
    need((p["second"] == 60) == gen2.in_leap(r), "%s: second %d of a leap second", where, p["second"])
    wr = gen2.rate(r)
    need(abs(p["rate"] - wr) <= wr / 30000, "%s: rate %r, was %r", where, float(p["rate"]), float(wr))
    need((p["factor"], p["mult"]) == (r["factor"], r["mult"]) or r["factor"] == 0 or r["mult"] == 0, "%s: factor and multiplier %r", where, (p["factor"], p["mult"]))
    need((p["b1000"]["enc"], p["b1000"]["exp"]) == (b["enc"], b["exp"]), "%s: encoding or length", where)
    need([x["num"] for x in p["blk"]] == [x["num"] for x in r["blk"]], "%s: blockettes %r, were %r", where, [x["num"] for x in p["blk"]], [x["num"] for x in r["blk"]])
    for x, w in zip(p["blk"], r["blk"]):
        if w["num"] == 100:
            need(x["rate"] == w["rate"], "%s: blockette 100 rate %r", where, x["rate"])
        elif w["num"] == 1001:
            need((x["tq"], x["fc"]) == (w["tq"], w["fc"]), "%s: blockette 1001", where)
        elif w["num"] != 1000:
            raw = bytes.fromhex(w["hex"])
            need(x["body"][:len(raw)] == raw, "%s: blockette %d contents", where, w["num"])
    vals = gen2.values(r)
    if vals is not None:
        got = refms2.samples(p)
        bad = gen3.values_equal(got, vals, b["enc"])
        need(bad is None, "%s: %s", where, bad)
    else:
        raw = bytes.fromhex(r["p"]["hex"])
        need(p["data"][:len(raw)] == raw, "%s: opaque payload changed", where)


@st.composite
def repacks(draw):
    return {"rec": draw(gen2.records()), "first": draw(st.sampled_from(["none", "decode", "clone", "str", "details"]))}


def check_repack(c):
    r = c["rec"]
    rec = unpackMiniseedRecord(gen2.to_bytes(r))
    first = c["first"]
    if first == "decode" and gen2.values(r) is not None:
        rec.decompress()
    elif first == "clone":
        rec = rec.clone()
    elif first == "str":
        str(rec)
    elif first == "details":
        rec.details()
    a = bytes(rec.pack())
    equivalent(a, r, "repacked")
    need(bytes(rec.pack()) == a, "packing again gives different bytes")
    again = unpackMiniseedRecord(a)
    b = bytes(again.pack())
    equivalent(b, r, "repacked twice")
    equivalent(bytes(unpackMiniseedRecord(b).clone().pack()), r, "repacked, cloned")
    return r["n"] > 0 or len(r["blk"]) > 1, ["first:" + first, "p:" + r["p"]["kind"], "order:%s%d" % (r["o"], gen2.order(r))]


def check_pieces(c):
    """The fixed header and each blockette read on their own."""
    r = c["rec"]
    raw = gen2.to_bytes(r)
    h = unpackMiniseedHeader(raw if c["whole"] else raw[:48], r["o"])
    b1000 = next(b for b in r["blk"] if b["num"] == 1000)
    h.encoding, h.recordLength, h.byteorder = b1000["enc"], 2 ** b1000["exp"], b1000["order"]
    bad = gen2.header_diffs(h, dict(r, blk=[b1000]))
    need(not bad, "header alone: %s", "; ".join(bad))
    offs, end, doff = refms2.layout(r)
    if r["n"] == 0 and struct.unpack_from(r["o"] + "H", raw, 44)[0] == 0:
        doff = end
    need((h.numBlockettes, h.blocketteOffset) == (len(offs), offs[0]), "header alone: %d blockettes from %d", h.numBlockettes, h.blocketteOffset)
    got = [unpackBlockette(raw, at, r["o"], doff) for at in offs]
    # an unknown one goes on to the next one or to the data
    bad = gen2.blockette_diffs(got, r)
    need(not bad, "blockettes alone: %s", "; ".join(bad))
    return len(offs) > 1, ["blk:%d" % len(offs), "order:" + r["o"]]


@st.composite
def cuts(draw):
    recs = draw(st.lists(gen2.records(small=True), min_size=1, max_size=3))
    return {"recs": recs, "which": draw(st.integers(0, 2)), "at": draw(st.one_of(st.integers(0, 4095), st.integers(0, 80))), "inside": draw(st.booleans()), "pat": draw(st.one_of(st.none(), st.just("FDSN"), st.sampled_from(gen3.FORM_PATS)))}


def check_cut(c):
    recs = c["recs"]
    raws = [gen2.to_bytes(r) for r in recs]
    w = c["which"] % len(recs)
    at = c["at"] % len(raws[w])
    body = len(gen2.expand2(recs[w]["p"], gen2.order(recs[w]))[2])
    if c["inside"] and body:  # within the bytes that hold samples
        at = min(struct.unpack_from(recs[w]["o"] + "H", raws[w], 44)[0] + c["at"] % body, len(raws[w]) - 1)
    blob = b"".join(raws[:w]) + raws[w][:at]
    got, err = [], None
    kw = {} if c["pat"] is None else {"matchsid": c["pat"]}
    try:
        for rec in readMiniseed2Records(io.BytesIO(blob), **kw):
            got.append(rec)
    except Exception as e:
        err = e
    match = [c["pat"] is None or re.search(c["pat"], gen2.sid(r)) is not None for r in recs]
    whole = [r for r, m in zip(recs[:w], match) if m]
    need(len(whole) <= len(got) <= len(whole) + match[w], "%d records read from %d whole ones and a part", len(got), len(whole))
    for k, r in enumerate(whole):
        check_record(got[k], r, f"record {k}")
    if len(got) > len(whole):
        # the cut record may be returned only if it can never give a wrong sample
        vals = gen2.values(recs[w])
        try:
            d = got[-1].decompress()
        except Exception:
            return True, ["cut:undecodable"]
        if d is not None and len(d) and vals is not None:
            enc = next(b["enc"] for b in recs[w]["blk"] if b["num"] == 1000)
            bad = gen3.values_equal(d, vals, enc)
            need(bad is None, "record cut at %d bytes: %s", at, bad)
        return True, ["cut:complete"]
    return True, ["cut:" + (type(err).__name__ if err else "silent")]


@st.composite
def matches(draw):
    codes = draw(st.lists(gen2.codes(), min_size=1, max_size=6))
    return {"codes": codes, "pats": draw(st.lists(gen3.patterns([gen2.sid(c) for c in codes]), min_size=1, max_size=8))}


def check_match(c):
    """Many patterns over one stream of small records."""
    recs = [dict(k, year=2024, doy=1, hour=0, minute=0, second=j % 60, tenth=0, seq="000001", q="D", factor=20, mult=1, act=0, io=0, qual=0, corr=0, n=1, o=">", fill=0,
                 blk=[{"num": 1000, "enc": 3, "order": 1, "exp": 7}], p={"kind": "prim", "enc": 3, "bits": [j], "rep": 1}, exp=7) for j, k in enumerate(c["codes"])]
    blob = b"".join(map(gen2.to_bytes, recs))
    some = False
    for pat in c["pats"]:
        want = [j for j, r in enumerate(recs) if re.search(pat, gen2.sid(r))]
        some = some or 0 < len(want) < len(recs)
        got = [r.decompress()[0] for r in readMiniseed2Records(io.BytesIO(blob), matchsid=pat)]
        need(got == want, "pattern %r of %r: records %r, should be %r", pat, [gen2.sid(r) for r in recs], got, want)
    return some, ["ids:%d" % len(recs)]


def long_stream():
    """More records than a recursion, a buffer or a table of some size takes."""
    a, b = {"net": "XX", "sta": "AAA", "loc": "00", "chan": "HHZ"}, {"net": "XX", "sta": "BBB", "loc": "00", "chan": "HHN"}
    return [{"codes": ([a] * 3 + [b]) * n, "pats": ["", "_N$", "Q"]} for n in (70, 300, 1100)] + [{"codes": [b] * n + [a], "pats": ["_Z$", "Z"]} for n in (1024, 2500)]


def check_negative_us(c):
    """Blockette 1001 microseconds are a signed byte, -50 to 99."""
    r = dict(net="XX", sta="ABC", loc="00", chan="HHZ", year=2024, doy=1, hour=0, minute=0, second=1, tenth=0, seq="000001", q="D", factor=20, mult=1, act=0, io=0, qual=0, corr=0, n=1, o=">", fill=0,
             blk=[{"num": 1000, "enc": 3, "order": 1, "exp": 9}, {"num": 1001, "tq": 100, "us": c["us"], "fc": 0}], p={"kind": "prim", "enc": 3, "bits": [7], "rep": 1}, exp=9)
    rec = unpackMiniseedRecord(gen2.to_bytes(r))
    need(refms3.dt_us(rec.starttime()) == gen2.start_us(r), "%d microseconds in blockette 1001: start %s", c["us"], rec.starttime())
    return True, ["us:%d" % c["us"]]


# checked against the listed findings only, see known_findings.txt
KNOWN = [{"key": "b1001-negative-microseconds", "check": check_negative_us, "case": {"us": -8}}]

SUBS = [
    Sub("streams", cases(), check, quick=1200, thorough=25000, shards=8, directed=lambda: [{"recs": [r] * 2, "pat": None, "skip": 0, "src": "mem", "single": True} for r in gen2.many()]),
    Sub("repack", repacks(), check_repack, quick=1600, thorough=30000, directed=lambda: [{"rec": r, "first": "none"} for r in gen2.many()]),
    Sub("match", matches(), check_match, quick=1000, thorough=20000, directed=long_stream),
    Sub("pieces", st.fixed_dictionaries({"rec": gen2.records(), "whole": st.booleans()}), check_pieces, quick=800, thorough=20000, shards=2),
    Sub("cut", cuts(), check_cut, quick=1200, thorough=25000),
]
