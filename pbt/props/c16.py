"""C16: miniSEED2 records converted to miniSEED3."""
import copy
import io
import json
from fractions import Fraction

from hypothesis import strategies as st

from simplemseed import mseed2to3, readMSeed3Records, unpackMiniseedRecord, unpackMSeed3Record

from .. import gen2, gen3, refms2, refms3
from ..core import Sub, need
from . import c13, c25

RULE = ("records read from independently written bytes in every layout, or created here, possibly edited, decoded or packed first; runs of adjacent records converted and merged; "
        "non-trivial = has samples, flags, a quality other than D or a timing blockette")


def flags3(act, io, qual):
    return (act & 1) | (2 if qual & 0x80 else 0) | (4 if io & 0x20 else 0)


def verify3(ms3, want, where="converted"):
    """want: sid, us, rate, enc, n, vals or None, raw, flags, q, tq."""
    raw = bytes(ms3.pack())
    try:
        h, ident, eh, payload, end = refms3.parse(raw)
    except refms3.Bad3 as e:
        raise AssertionError(f"{where}: packed bytes break the format: {e}")
    need(end == len(raw), "%s: %d bytes packed, record has %d", where, len(raw), end)
    need(ident.decode() == want["sid"], "%s: identifier %r, should be %r", where, ident, want["sid"])
    got_us, rest = divmod(refms3.instant_ns(h["year"], h["doy"], h["hour"], h["minute"], h["second"], h["ns"]), 1000)
    need(1 <= h["doy"] <= 366 and h["hour"] < 24 and h["minute"] < 60 and h["second"] <= 60 and h["ns"] < 10**9, "%s: time fields %r", where, h)
    need(got_us == want["us"] and rest == 0, "%s: start is %d microseconds off", where, got_us - want["us"])
    need(refms3.dt_us(ms3.header.starttime) == want["us"], "%s: starttime %s", where, ms3.header.starttime)
    if "leap" in want:
        need((h["second"] == 60) == want["leap"], "%s: second %d of a leap second", where, h["second"])
    rate = Fraction(h["rate"]) if h["rate"] >= 0 else -1 / Fraction(h["rate"])
    need(abs(rate - want["rate"]) <= want["rate"] / 10**9, "%s: rate %r, should be %r", where, float(rate), float(want["rate"]))
    need(h["enc"] == want["enc"] and h["n"] == want["n"], "%s: encoding %d count %d, should be %d %d", where, h["enc"], h["n"], want["enc"], want["n"])
    need(h["flags"] == want["flags"], "%s: flags %s, should be %s", where, bin(h["flags"]), bin(want["flags"]))
    ehv = json.loads(eh) if eh else {}
    fdsn = ehv.get("FDSN", {})
    need(fdsn.get("DataQuality", "D") == want["q"], "%s: data quality in %r, should be %r", where, ehv, want["q"])
    if "leap" in want and want["leap"] == want["s60"]:
        need(fdsn.get("Time", {}).get("LeapSecond", 0) == int(want["leap"]), "%s: leap second mark in %r, leap second: %s", where, ehv, want["leap"])
    need(fdsn.get("Time", {}).get("Quality", 0) == want["tq"], "%s: timing quality in %r, should be %r", where, ehv, want["tq"])
    if not want["n"]:
        pass
    elif want["vals"] is None:
        need(payload[:len(want["raw"])] == want["raw"], "%s: opaque payload changed", where)
    else:
        bad = gen3.values_equal(refms3.samples(h, payload), want["vals"], want["enc"])
        need(bad is None, "%s: %s", where, bad)
        if want["n"]:
            bad = gen3.values_equal(ms3.decompress(), want["vals"], want["enc"])
            need(bad is None, "%s, decoded: %s", where, bad)
            bad = gen3.values_equal(unpackMSeed3Record(raw).decompress(), want["vals"], want["enc"])
            need(bad is None, "%s, read back: %s", where, bad)
    return raw


def wanted(r):
    tq = next((b["tq"] for b in r["blk"] if b["num"] == 1001), 0)
    enc, n, data, vals = gen2.expand2(r["p"], gen2.order(r))
    return dict(sid=gen2.sid(r), us=gen2.start_us(r), rate=gen2.rate(r), enc=enc, n=n, vals=vals, raw=data, flags=flags3(r["act"], r["io"], r["qual"]), q=r["q"], tq=tq, leap=gen2.in_leap(r), s60=r["second"] == 60)


@st.composite
def reads(draw):
    return {"rec": draw(gen2.records()), "first": draw(st.sampled_from(["none", "none", "decode", "pack", "clone"]))}


def check_read(c):
    r = c["rec"]
    rec = unpackMiniseedRecord(gen2.to_bytes(r))
    w = wanted(r)
    if c["first"] == "decode" and w["vals"] is not None:
        rec.decompress()
    elif c["first"] == "pack":
        rec.pack()
    elif c["first"] == "clone":
        rec = rec.clone()
    before, bytes_before = c25.observe(rec), bytes(rec.pack())
    ms3 = mseed2to3(rec)
    a = verify3(ms3, w)
    need(c25.observe(rec) == before and bytes(rec.pack()) == bytes_before, "converting changed the original")
    need(verify3(mseed2to3(rec), w, "converted again") == a, "converting again gives other bytes")
    need(verify3(unpackMSeed3Record(a), w, "read back") == a, "read back packs differently")
    need(verify3(ms3.clone(), w, "clone") == a, "a clone packs differently")
    nt = w["n"] > 0 or w["flags"] != 0 or w["q"] != "D" or w["tq"] > 0
    return nt, ["p:" + r["p"]["kind"], "order:%s%d" % (r["o"], gen2.order(r)), "first:" + c["first"], "blk:%d" % len(r["blk"])]


@st.composite
def mades(draw):
    c = draw(c13.cases())
    c["exp"] = "tight"
    c["pack"] = draw(st.booleans())
    c["edit"] = draw(st.one_of(st.none(), c13.starts().map(lambda s: {"op": "start", "s": s}), gen2.codes().map(lambda x: {"op": "codes", **x})))
    return c


def check_made(c):
    d = c13.build_data(c["data"])
    rec, us = c13.assemble(c, d, max(7, (c13.layout_need(c, d) - 1).bit_length()))
    if c["pack"] or not any(b["k"] == "c1000" for b in c["blk"]):
        rec.pack()
    codes = dict(net=c["net"], sta=c["sta"], loc=c["loc"], chan=c["chan"])
    if c["edit"]:
        if c["edit"]["op"] == "start":
            given, us = c13.make_start(c["edit"]["s"])
            rec.header.setStartTime(given)
        else:
            codes = {k: c["edit"][k] for k in codes}
            h = rec.header
            h.network, h.station, h.location, h.channel = (codes[k] for k in ("net", "sta", "loc", "chan"))
    before = c25.observe(rec)
    tq = next((b["tq"] for b in c["blk"] if b["k"] == "1001"), 0)
    src = d["data"] if d["data"] is not None else d["kw"]
    src = bytes(getattr(src, "dataBytes", src) or b"") if d["vals"] is None else b""
    w = dict(sid=refms2.sid(codes["net"], codes["sta"], codes["loc"], codes["chan"]), us=us, rate=c13.want_rate(c), enc=d["enc"], n=d["n"], vals=d["vals"], raw=src,
             flags=flags3(c["act"], c["io"], c["qual"]), q=c["q"], tq=tq)
    verify3(mseed2to3(rec), w)
    need(c25.observe(rec) == before, "converting changed the original")
    return d["n"] > 0, ["data:" + c["data"].get("cont", "none"), "edit:%s" % (c["edit"] and c["edit"]["op"])]


@st.composite
def runs(draw):
    r = draw(gen2.records(kinds=("prim",), leap=False, small=True, unknown=False))
    r["blk"] = [b for b in r["blk"] if b["num"] != 1001]
    # the last of the run must still be of a year whose byte order can be told
    r["year"] = min(r["year"], 2053)
    r["doy"] = min(r["doy"], 365)
    r["blk"] = [b if b["num"] != 100 else {"num": 100, "rate": draw(st.sampled_from([1.0, 20.0, 100.0, 0.125, 40.5]))} for b in r["blk"]]
    r["factor"], r["mult"] = draw(st.sampled_from([(1, 1), (20, 1), (100, 1), (-10, 1), (200, -10), (33, -2), (-3, 2)]))
    parts = draw(st.lists(st.tuples(st.lists(gen3._bits(r["p"]["enc"]), min_size=1, max_size=8), st.sampled_from(["on", "on", "on", "gap"]), st.sampled_from([0, 1])), min_size=2, max_size=5))
    return {"rec": r, "parts": [list(p) for p in parts], "tq": draw(st.sampled_from([0, 50]))}


def check_run(c):
    """Adjacent records still merge after conversion, records with a gap between them do not."""
    base = c["rec"]
    us = gen2.start_us(base)
    recs, want = [], []
    for k, (bits, join, order) in enumerate(c["parts"]):
        r = copy.deepcopy(base)
        r["p"] = {"kind": "prim", "enc": base["p"]["enc"], "bits": bits, "rep": 1}
        for b in r["blk"]:
            if b["num"] == 1000:
                b["order"] = order
        r["n"] = len(bits)
        if join == "gap" and k:
            us += int(5 * 10**6 / gen2.rate(r))
        y, doy, hh, mm, ss, micro = refms3.us_to_fields(us)
        r.update(year=y, doy=doy, hour=hh, minute=mm, second=ss, tenth=micro // 100)
        r["blk"] = r["blk"] + [{"num": 1001, "tq": c["tq"], "us": micro % 100, "fc": 0}]
        b = next(b for b in r["blk"] if b["num"] == 1000)
        b["exp"] = max(b["exp"], 9)
        r["exp"] = b["exp"]
        vals = gen2.values(r)
        if join == "gap" or not k:
            want.append([us, list(vals)])
        else:
            want[-1][1] += vals
        recs.append(unpackMiniseedRecord(gen2.to_bytes(r)))
        us += round(10**6 * len(bits) / gen2.rate(r))
    blob = b"".join(bytes(mseed2to3(x).pack()) for x in recs)
    got = list(readMSeed3Records(io.BytesIO(blob), merge=True))
    need(len(got) == len(want), "%d records after merging, should be %d", len(got), len(want))
    w = wanted(base)
    for k, (ms3, (start, vals)) in enumerate(zip(got, want)):
        verify3(ms3, dict(w, us=start, n=len(vals), vals=vals, tq=c["tq"]), f"merged {k}")
    return True, ["merged:%d of %d" % (len(want), len(recs))]


SUBS = [
    Sub("read", reads(), check_read, quick=2400, thorough=50000, shards=8, directed=lambda: [{"rec": r, "first": "decode"} for r in gen2.many()]),
    Sub("made", mades(), check_made, quick=2400, thorough=40000),
    Sub("merge", runs(), check_run, quick=1600, thorough=30000),
]
