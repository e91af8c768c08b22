"""C25: miniSEED2 records through histories of reads, queries and edits."""
import copy
import datetime as dt
import struct
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from simplemseed import MiniseedHeader, MiniseedRecord, unpackMiniseedRecord
from simplemseed import miniseed as ms
from simplemseed.seedcodec import EncodedDataSegment

from .. import gen2, gen3, refms2, refms3
from ..core import Sub, need
from . import c13

RULE = ("a record read from independently written bytes or created here, then 1 to 14 operations (queries, packing, cloning, rereading, edits of time, rate, codes, flags, blockettes, length), "
        "checked against a model after each; non-trivial = at least one edit and one query in the history")

UTC = dt.timezone.utc
EPOCH = dt.datetime(1, 1, 1, tzinfo=UTC)
QUERIES = ["decode", "pack", "clone", "str", "details", "times", "summary", "id"]


OP_KINDS = [
    st.sampled_from(QUERIES).map(lambda q: {"op": q}),
    st.sampled_from(QUERIES).map(lambda q: {"op": q}),
    st.sampled_from(["reread", "useclone", "packtwice"]).map(lambda q: {"op": q}),
    c13.starts().map(lambda s: {"op": "start", "s": s}),
    st.builds(lambda d: {"op": "shift", "us": d}, st.one_of(st.integers(-200, 200), st.sampled_from([100, -100, 1, -1, 50, 10**6, -60 * 10**6]))),
    st.builds(lambda v: {"op": "rate", "v": v}, st.one_of(gen2.f32pos(), st.sampled_from([0.01, 100.0, 1 / 3]))),
    st.builds(lambda c: {"op": "codes", **c}, gen2.codes()),
    st.builds(lambda k, c: {"op": "code", "k": k, "v": c[k]}, st.sampled_from(["net", "loc", "chan", "sta"]), gen2.codes()),
    st.builds(lambda k, v: {"op": "field", "k": k, "v": v}, st.sampled_from(["actFlag", "ioFlag", "qualFlag"]), gen2.FLAGS),
    st.builds(lambda v: {"op": "field", "k": "timeCorr", "v": v}, st.integers(-(2**31), 2**31 - 1)),
    st.builds(lambda v: {"op": "field", "k": "sequence_number", "v": v}, st.integers(0, 999999)),
    st.builds(lambda v: {"op": "field", "k": "dataquality", "v": v}, st.sampled_from("DRQMEd0")),
    st.builds(lambda b, at, how: {"op": "add", "b": b, "at": at, "how": how}, st.one_of(gen2.unknown_blockettes(), st.just({"num": 100}), st.just({"num": 1001}), st.just({"num": 1001})), st.integers(0, 4),
              st.sampled_from(["insert", "newlist"])),
    st.builds(lambda k: {"op": "drop", "at": k}, st.integers(0, 4)),
    st.just({"op": "grow"}),
]
OPS = st.one_of(OP_KINDS)


@st.composite
def cases(draw):
    c = {"made": draw(st.integers(0, 2)) == 0}
    r = draw(gen2.records(leap=True, small=draw(st.booleans())))
    r["fill"] = 0
    if c["made"]:
        c["cont"] = draw(st.sampled_from(["nd", "nd>", "list", "seg"]))
        c["blk0"] = draw(st.booleans())
    if draw(st.booleans()):
        # room to grow
        b = next(b for b in r["blk"] if b["num"] == 1000)
        b["exp"] += 1
        r["exp"] = b["exp"]
    c["rec"] = r
    # all kinds of operations, or a few of them over and over
    pick = st.one_of([OP_KINDS[k] for k in draw(st.lists(st.integers(0, len(OP_KINDS) - 1), min_size=2, max_size=4))]) if draw(st.integers(0, 2)) == 0 else OPS
    c["ask"] = draw(st.booleans())
    c["ops"] = [draw(pick) for _ in range(draw(st.sampled_from([5, 3, 6, 9, 14, 4, 2, 1])))]
    return c


def make(c):
    """(record, model)."""
    r = c["rec"]
    b = next(b for b in r["blk"] if b["num"] == 1000)
    vals = gen2.values(r)
    enc, n, data, _v = gen2.expand2(r["p"], gen2.order(r))
    m = dict(net=r["net"], sta=r["sta"], loc=r["loc"], chan=r["chan"], us=gen2.start_us(r), dataquality=r["q"], actFlag=r["act"], ioFlag=r["io"], qualFlag=r["qual"], timeCorr=r["corr"],
             sequence_number=gen2.seqnum(r), n=n, enc=enc, exp=r["exp"], fm=(r["factor"], r["mult"]), rate=gen2.rate(r), vals=vals, raw=data, size=len(data), blk=[])
    if enc in (10, 11):
        m["size"] = len(data.rstrip(b"\0"))
    if not c["made"]:
        gaps = dict(enumerate(r["gaps"][1:]))
        for k, x in enumerate(r["blk"]):
            w = dict(x)
            if x["num"] not in refms2.SIZES:
                # gaps behind a blockette of unknown length belong to it
                last = k + 1 == len(r["blk"])
                offs, _end, doff = refms2.layout(r)
                if last and not data and r.get("nodataoff"):
                    doff = 0
                end = offs[k + 1] if not last else (doff or 2 ** r["exp"])
                w["len"] = end - offs[k]
            m["blk"].append(w)
        if vals is None:
            # length of opaque data is not known, it is all up to the end of the record
            m["size"] = 2 ** r["exp"] - refms2.layout(r)[2] if data or not r.get("nodataoff") else 0
        return unpackMiniseedRecord(gen2.to_bytes(r)), m
    r = dict(r, second=r["second"] % 60)
    start = ms.BTime(r["year"], r["doy"], r["hour"], r["minute"], r["second"], r["tenth"])
    m["us"] = refms2.instant_us(r)
    m["rate"] = refms2.nominal_rate(*m["fm"])
    prim = enc in refms2.CODES and n
    if prim:
        a = np.array(vals, dtype=np.dtype(refms2.CODES[enc]).newbyteorder(">" if c["cont"] == "nd>" else "="))
        given = {"nd": a, "nd>": a, "list": vals[:]}.get(c["cont"])
        if given is None:
            given = EncodedDataSegment(enc, data, n, not gen2.order(r))
    else:
        given = EncodedDataSegment(enc, data, n, False) if n else None
    if enc and m["rate"] == 0:
        m["fm"], m["rate"] = (20, 1), Fraction(20)
    h = MiniseedHeader(r["net"], r["sta"], r["loc"], r["chan"], start, n, 0, encoding=enc, byteorder=1 if r["o"] == ">" else 0, sampRateFactor=m["fm"][0], sampRateMult=m["fm"][1],
                       actFlag=r["act"], ioFlag=r["io"], qualFlag=r["qual"], timeCorr=r["corr"], sequence_number=m["sequence_number"], dataquality=r["q"])
    h.recordLengthExp, h.recordLength = r["exp"], 2 ** r["exp"]
    rec = MiniseedRecord(h, given)
    if c["blk0"]:
        rec.blockettes = [rec.createB1000()]
        m["blk"] = [{"num": 1000}]
    return rec, m


def blen(b):
    return refms2.SIZES.get(b["num"]) or b.get("len") or 4 + len(b["hex"]) // 2


def fits(m):
    off = 48 + sum(blen(b) for b in m["blk"]) + (0 if any(b["num"] == 1000 for b in m["blk"]) else 8)
    end = off
    if m["enc"] in (10, 11):
        off = (off + 63) // 64 * 64
    return max(end, off + m["size"]) <= 2 ** m["exp"]


def has(m, num):
    return any(b["num"] == num for b in m["blk"])


def observe(rec):
    h = rec.header
    return (h.network, h.station, h.location, h.channel, h.starttime, h.dataquality, h.actFlag, h.ioFlag, h.qualFlag, h.timeCorr, h.sequence_number, h.numSamples, h.encoding,
            h.sampleRate, h.sampRateFactor, h.sampRateMult, h.recordLength, h.recordLengthExp, h.byteorder, [tuple(b) for b in rec.blockettes if b.blocketteNum != 1000])


def agree(rec, m, where):
    h = rec.header
    got = dict(net=h.network, sta=h.station, loc=h.location, chan=h.channel, dataquality=h.dataquality, actFlag=h.actFlag, ioFlag=h.ioFlag, qualFlag=h.qualFlag,
               timeCorr=h.timeCorr, sequence_number=h.sequence_number, n=h.numSamples, enc=h.encoding)
    for k, v in got.items():
        need(v == m[k], "%s: header %s is %r, should be %r", where, k, v, m[k])
    need(refms3.dt_us(rec.starttime()) == m["us"], "%s: start %s, %d microseconds off", where, rec.starttime(), refms3.dt_us(rec.starttime()) - m["us"])
    # the fields of the time, which hold it to the tenth of a millisecond, blockette 1001 aside
    b = getattr(h, "btime", None)
    off = 0 if b is None else (refms3.instant_ns(b.year, b.yday, b.hour, b.minute, b.second, 0) // 1000 + 100 * b.tenthMilli) - m["us"]
    need(abs(off) < 400, "%s: time fields %r are %d microseconds off", where, b, off)
    if m["ask"]:
        # in half of the histories after every step, in the others only where that is an operation
        need(str(rec.identifier) == refms2.sid(m["net"], m["sta"], m["loc"], m["chan"]), "%s: identifier %s", where, rec.identifier)
    need(abs(Fraction(h.sampleRate) - m["rate"]) <= m["rate"] / 10**12, "%s: rate %r, should be %r", where, h.sampleRate, float(m["rate"]))


def packed(rec, m, where):
    """The bytes it packs to, checked; updates the model for what packing may add."""
    raw = bytes(rec.pack())
    try:
        p = refms2.parse(raw)
    except refms2.Bad2 as e:
        raise AssertionError(f"{where}: packed bytes break the format: {e}")
    for k, a in (("net", "net"), ("sta", "sta"), ("loc", "loc"), ("chan", "chan"), ("q", "dataquality"), ("act", "actFlag"), ("io", "ioFlag"), ("qual", "qualFlag"), ("corr", "timeCorr"), ("n", "n")):
        need(p[k] == m[a], "%s: packed %s is %r, should be %r", where, a, p[k], m[a])
    need(not refms2.padding(raw), "%s: packed codes are not at the left of their fields: %r", where, refms2.padding(raw))
    need(p["seq"] == b"%06d" % m["sequence_number"], "%s: packed sequence number %r", where, p["seq"])
    need(len(raw) == 2 ** m["exp"] and p["b1000"]["enc"] == m["enc"], "%s: length or encoding", where)
    want_us = m["us"] if "b1001" in p else m["us"] // 100 * 100
    need(p["us"] == want_us, "%s: packed start is %d microseconds off", where, p["us"] - want_us)
    nom = refms2.nominal_rate(p["factor"], p["mult"])
    if m["fm"] is not None and m["fm"] != (0, 0):
        need((p["factor"], p["mult"]) == m["fm"], "%s: factor and multiplier %r, should be %r", where, (p["factor"], p["mult"]), m["fm"])
    else:
        need(abs(nom - m["rate"]) <= m["rate"] * Fraction(31, 10**6), "%s: packed rate %r, should be %r", where, float(nom), float(m["rate"]))
    if not has(m, 1000):
        m["blk"].insert([x["num"] for x in p["blk"]].index(1000), {"num": 1000})
    need([x["num"] for x in p["blk"]] == [x["num"] for x in m["blk"]], "%s: packed blockettes %r, should be %r", where, [x["num"] for x in p["blk"]], [x["num"] for x in m["blk"]])
    for x, w in zip(p["blk"], m["blk"]):
        if w["num"] == 100:
            need(x["rate"] == w["rate"], "%s: blockette 100 rate %r, should be %r", where, x["rate"], w["rate"])
        elif w["num"] == 1001:
            need((x["tq"], x["fc"]) == (w["tq"], w["fc"]), "%s: blockette 1001", where)
        elif w["num"] != 1000:
            need(x["body"][:len(w["hex"]) // 2] == bytes.fromhex(w["hex"]), "%s: blockette %d", where, w["num"])
    if m["vals"] is not None:
        bad = gen3.values_equal(refms2.samples(p), m["vals"], m["enc"])
        need(bad is None, "%s: packed %s", where, bad)
    else:
        need(p["data"][:len(m["raw"])] == m["raw"], "%s: packed opaque data changed", where)
    return raw, p


def query(rec, m, op, where):
    before = observe(rec)
    if op == "decode" and m["vals"] is not None:
        for _ in range(2):
            got = rec.decompress()
            if m["n"]:
                bad = gen3.values_equal(got, m["vals"], m["enc"])
                need(bad is None, "%s: %s", where, bad)
    elif op == "pack":
        packed(rec, m, where)
    elif op == "clone":
        rec.clone()
    elif op == "str":
        str(rec)
    elif op == "summary":
        need(rec.codes() in rec.summary(), "%s: summary %r", where, rec.summary())
    elif op == "details":
        rec.details(showData=m["vals"] is not None and m["n"] > 0)
    elif op == "times":
        if m["rate"] > Fraction(1, 1000):
            rec.endtime()
            rec.next_starttime()
        rec.starttime()
    elif op == "id":
        need(str(rec.identifier) == refms2.sid(m["net"], m["sta"], m["loc"], m["chan"]), "%s: identifier %s", where, rec.identifier)
    need(observe(rec) == before, "%s changed the record: %r, was %r", where, observe(rec), before)


def check(c):
    rec, m = make(c)
    m["ask"] = c.get("ask", False)
    old = []
    edits = queries = 0
    agree(rec, m, "at first")
    packed(rec, m, "at first")
    for k, o in enumerate(c["ops"]):
        op = o["op"]
        where = f"step {k} {op}"
        if op in QUERIES:
            queries += 1
            query(rec, m, op, where)
        elif op == "packtwice":
            a = packed(rec, m, where)[0]
            need(bytes(rec.pack()) == a, "%s: different bytes", where)
        elif op in ("reread", "useclone"):
            queries += 1
            raw, p = packed(rec, m, where)
            old.append((rec, copy.deepcopy(m), raw))
            rec = unpackMiniseedRecord(raw) if op == "reread" else rec.clone()
            if "b1001" not in p:
                m["us"] = m["us"] // 100 * 100
            m["fm"] = (p["factor"], p["mult"])
            m["rate"] = p["rate"]
            if m["vals"] is None:
                m["size"] = 2 ** m["exp"] - p["doff"]
            for x, w in zip(p["blk"], m["blk"]):
                if w["num"] not in refms2.SIZES:
                    w["len"] = 4 + len(x["body"])
        else:
            edits += 1
            edit(rec, m, o)
        agree(rec, m, where)
        packed(rec, m, where)
    a = packed(rec, m, "at the end")[0]
    need(bytes(rec.pack()) == a, "packing again at the end gives different bytes")
    if m["vals"] is not None and m["n"]:
        bad = gen3.values_equal(rec.decompress(), m["vals"], m["enc"])
        need(bad is None, "at the end: %s", bad)
    for rec0, m0, raw0 in old:
        agree(rec0, m0, "an earlier record")
        need(bytes(rec0.pack()) == raw0, "an earlier record packs differently after its copy was edited")
    return edits > 0 and queries > 0, ["made" if c["made"] else "read", "p:" + c["rec"]["p"]["kind"]] + ["op:" + o["op"] for o in c["ops"]]


def edit(rec, m, o):
    op, h = o["op"], rec.header
    if op in ("start", "shift"):
        given, us = c13.make_start(o["s"]) if op == "start" else (None, m["us"] + o["us"])
        if not 56800000000000000 < us < 64700000000000000:
            return
        h.setStartTime(EPOCH + dt.timedelta(microseconds=us) if given is None else given)
        m["us"] = us
    elif op == "rate":
        h.setSampleRate(o["v"])
        m["rate"], m["fm"] = Fraction(o["v"]), None
        for k, b in enumerate(m["blk"]):
            if b["num"] == 100:
                rec.blockettes[k] = rec.createB100()
                m["blk"][k] = {"num": 100, "rate": struct.unpack("<f", struct.pack("<f", o["v"]))[0]}
    elif op == "codes":
        h.network, h.station, h.location, h.channel = o["net"], o["sta"], o["loc"], o["chan"]
        m.update(net=o["net"], sta=o["sta"], loc=o["loc"], chan=o["chan"])
    elif op == "code":
        setattr(h, {"net": "network", "sta": "station", "loc": "location", "chan": "channel"}[o["k"]], o["v"])
        m[o["k"]] = o["v"]
    elif op == "field":
        setattr(h, o["k"], o["v"])
        m[o["k"]] = o["v"]
    elif op == "grow":
        if m["exp"] < 14:
            m["exp"] += 1
            h.recordLengthExp, h.recordLength = m["exp"], 2 ** m["exp"]
    elif op == "drop":
        if m["blk"]:
            at = o["at"] % len(m["blk"])
            if m["blk"][at]["num"] == 1000:
                return
            del m["blk"][at]
            del rec.blockettes[at]
    elif op == "add":
        num = o["b"]["num"]
        if (num in (100, 1001) and has(m, num)) or (num == 100 and m["rate"] > 2**120):
            return
        at = o["at"] % (len(m["blk"]) + 1)
        if num == 100:
            b = rec.createB100()
            w = {"num": 100, "rate": struct.unpack("<f", struct.pack("<f", h.sampleRate))[0]}
            if m["rate"] and not w["rate"]:
                return
        elif num == 1001:
            b = rec.createB1001()
            w = {"num": 1001, "tq": b.timeQuality, "fc": b.frameCount}
        else:
            raw = bytes.fromhex(o["b"]["hex"])
            b = ms.BlocketteUnknown(num, 0, struct.pack(h.endianChar + "HH", num, 0) + raw)
            w = {"num": num, "hex": o["b"]["hex"], "len": 4 + len(raw)}
        m["blk"].insert(at, w)
        fit = fits(m)
        rec.blockettes.insert(at, b)
        if o["how"] == "newlist":
            rec.blockettes = list(rec.blockettes)
        if not fit:
            # must refuse, and work again without the blockette
            try:
                raw = rec.pack()
            except Exception:
                raw = None
            need(raw is None, "a blockette that does not fit was packed")
            had1000 = any(x.blocketteNum == 1000 for x in rec.blockettes)
            rec.blockettes.remove(b)
            m["blk"].remove(w)
            if had1000 and not has(m, 1000):
                m["blk"].insert([x.blocketteNum for x in rec.blockettes].index(1000), {"num": 1000})


SUBS = [Sub("history", cases(), check, quick=4000, thorough=60000, shards=8)]
