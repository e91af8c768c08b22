"""C13: a miniSEED2 record written by the library reads back as what was put in."""
import array
import datetime as dt
import struct
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import simplemseed
from simplemseed import MiniseedHeader, MiniseedRecord, unpackMiniseedRecord
from simplemseed import miniseed as ms
from simplemseed.seedcodec import EncodedDataSegment

from .. import gen, gen2, gen3, refms2, refms3
from ..core import Sub, need
from .c05 import CODES, snap

RULE = ("records assembled through the public constructors from generated codes, times in every accepted form, rates, flags, sample containers of both byte orders, "
        "blockette lists and record lengths 128 to 8192; non-trivial = has samples or blockettes of its own, or is a refusal case")

UTC = dt.timezone.utc
EPOCH = dt.datetime(1, 1, 1, tzinfo=UTC)


@st.composite
def starts(draw):
    form = draw(st.sampled_from(["utc", "naive", "zone", "iso", "isoZ", "isozone", "btime"]))
    if form == "btime":
        t = draw(gen2.times2())
        return {"form": form, **t}
    t = draw(gen3.times(1802, 2053, leap=False))
    us = draw(st.one_of(st.integers(0, 999999), st.integers(0, 9999).map(lambda v: v * 100), st.sampled_from([0, 1, 50, 99, 100, 199, 999999, 999900])))
    return {"form": form, "us": refms3.instant_ns(t["year"], t["doy"], t["hour"], t["minute"], t["second"], 0) // 1000 + us, "zone": draw(st.sampled_from([0, 60, -300, 330, 845, -720]))}


def make_start(s):
    """(value to give, instant in microseconds)."""
    if s["form"] == "btime":
        return ms.BTime(s["year"], s["doy"], s["hour"], s["minute"], s["second"], s["tenth"]), refms2.instant_us(s)
    when = EPOCH + dt.timedelta(microseconds=s["us"])
    f = s["form"]
    if f == "naive":
        return when.replace(tzinfo=None), s["us"]
    if f == "utc":
        return when, s["us"]
    if f == "iso":
        return when.replace(tzinfo=None).isoformat(), s["us"]
    if f == "isoZ":
        return when.replace(tzinfo=None).isoformat() + "Z", s["us"]
    z = when.astimezone(dt.timezone(dt.timedelta(minutes=s["zone"])))
    return (z if f == "zone" else z.isoformat()), s["us"]


PRIM_CONT = ["nd", "nd>", "nd<", "strided", "readonly", "array", "list", "listd", "segLE", "segBE", "bytesBE", "bytesLE", "kwBE", "kwLE"]


@st.composite
def datas(draw):
    p = draw(gen2.payloads2())
    k = p["kind"]
    if k == "prim":
        p["cont"] = draw(st.sampled_from(PRIM_CONT))
    elif k == "steim":
        p["cont"] = draw(st.sampled_from(["seg", "bytes", "kw", "enc"]))
    elif k == "raw":
        p["cont"] = draw(st.sampled_from(["seg", "bytes", "kw"]))
    p["auto"] = draw(st.booleans())
    p["count"] = draw(st.booleans())
    return p


def build_data(p):
    """dict(data=, kw=, enc preset, n, byteorder preset or None, values, payload length)."""
    k = p["kind"]
    if k == "none":
        return dict(data=None, kw=None, enc=p["enc"], auto=False, n=0, order=None, vals=[], size=0)
    enc, n, data, vals = gen2.expand2(p, 0)
    c = p["cont"]
    r = dict(data=None, kw=None, enc=enc, auto=p["auto"], n=n, order=None, vals=vals, size=len(data), needn=False)
    if k == "prim":
        d = np.dtype(CODES[enc])
        a = np.frombuffer(data, dtype=d.newbyteorder("<")).astype(d)
        be = struct.pack(f">{n}{CODES[enc]}", *vals)
        if c in ("nd", "readonly"):
            r["data"] = a
            a.flags.writeable = c == "nd"
        elif c in ("nd<", "nd>"):
            r["data"] = a.astype(d.newbyteorder(c[-1]))
        elif c == "strided":
            b = np.zeros(3 * n + 1, dtype=d)
            b[1::3] = a
            r["data"] = b[1::3]
        elif c == "array":
            r["data"] = array.array(CODES[enc])
            r["data"].frombytes(a.tobytes())
        elif c == "list":
            r["data"], r["auto"] = vals[:], False
        elif c == "listd":
            # between two 32 bit floats, nearest to the one expected
            r["data"], r["auto"] = [v * (1 + 2.0**-30) for v in vals] if enc == 4 else vals[:], r["auto"] and enc == 4
        elif c in ("segLE", "segBE"):
            r["data"] = EncodedDataSegment(enc, data if c == "segLE" else be, n, c == "segLE")
        else:
            raw = data if c.endswith("LE") else be
            r["data" if c.startswith("bytes") else "kw"] = raw
            r["order"], r["auto"], r["needn"] = (0 if c.endswith("LE") else 1), False, True
        return r
    if c == "seg":
        r["data"] = EncodedDataSegment(enc, data, n, False)
    elif c == "enc":
        r["data"] = (simplemseed.encodeSteim1 if enc == 10 else simplemseed.encodeSteim2)(np.array(vals, dtype=np.int32))
        r["kw"], r["data"] = bytes(r["data"]), None
        r["size"] = len(r["kw"])
        r["auto"], r["needn"] = False, True
    else:
        r["data" if c == "bytes" else "kw"] = data
        r["auto"], r["needn"] = False, True
    return r


BLK = st.lists(
    st.one_of(
        st.just({"k": "c1000"}), st.just({"k": "c100"}), st.just({"k": "c1001"}), st.just({"k": "c1001"}),
        st.builds(lambda tq, us, fc: {"k": "1001", "tq": tq, "us": us, "fc": fc}, st.one_of(st.integers(0, 100), st.integers(0, 255)), st.integers(0, 99), st.integers(0, 255)),
        # says something else than the header, which has the last word
        st.builds(lambda e, o, x: {"k": "1000", "enc": e, "order": o, "exp": x}, st.sampled_from([0, 1, 3, 4, 5, 10, 11, 19]), st.integers(0, 1), st.integers(7, 13)),
        gen2.unknown_blockettes().map(lambda b: {"k": "unk", **b}),
    ), max_size=4).map(lambda bs: [b for i, b in enumerate(bs) if b["k"] == "unk" or b["k"].lstrip("c") not in [x["k"].lstrip("c") for x in bs[:i]]])


@st.composite
def cases(draw):
    c = draw(gen2.codes())
    c["start"] = draw(starts())
    c["data"] = draw(datas())
    rk = draw(st.integers(0, 3))
    c["rate"] = draw(st.one_of(gen2.f32pos(), st.sampled_from([1.0, 20.0, 100.0, 0.1, 1 / 3, 33.3]))) if rk else 0
    c["fm"] = draw(gen2.nominal()) if rk in (0, 1) else [0, 0]
    if rk == 1:
        c["rate"] = 0
    if rk == 0 and not (c["data"]["kind"] in ("none", "raw") and c["data"]["enc"] == 0):
        c["rate"] = 0
    elif rk == 0:
        c["fm"] = [0, 0]
    c["act"], c["io"], c["qual"] = draw(gen2.FLAGS), draw(gen2.FLAGS), draw(gen2.FLAGS)
    c["corr"] = draw(st.one_of(st.just(0), st.integers(-(2**31), 2**31 - 1)))
    c["seq"] = draw(st.one_of(st.integers(0, 999999), st.sampled_from([0, 1, 999999])))
    c["q"] = draw(st.sampled_from("DDRRQMEd0"))
    c["order"] = draw(st.sampled_from([0, 1, 1]))
    c["blk"] = draw(BLK)
    c["blkhow"] = draw(st.sampled_from(["ctor", "attr"]))
    c["exp"] = draw(st.sampled_from([7, 8, 9, 9, 9, 10, 11, 12, 13, "tight", "tight", "small"]))
    if draw(st.integers(0, 25)) == 0:
        c["exp"] = draw(st.sampled_from([14, 15, 16, 17]))
    if c["data"]["kind"] == "prim" and draw(st.integers(0, 5)) == 0:
        # just fits, or just does not
        p, c["exp"] = c["data"], draw(st.sampled_from([7, 7, 8, 8, 9]))
        width = struct.calcsize(CODES[p["enc"]])
        free = 2 ** c["exp"] - layout_need(c, {"enc": p["enc"], "size": 0})
        n = max(1, free // width + draw(st.sampled_from([0, 0, 1, 1, 2, 3, 4, -1])))
        p["bits"], p["rep"] = (p["bits"] * n)[:n], 1
        c["edge"] = True
    return c


def layout_need(c, d):
    """Bytes needed, number of blockettes."""
    sizes = {"c1000": 8, "1000": 8, "c100": 12, "c1001": 8, "1001": 8}
    off = 48 + sum(sizes[b["k"]] if b["k"] != "unk" else 4 + len(b["hex"]) // 2 for b in c["blk"])
    if not any(b["k"].endswith("1000") for b in c["blk"]):
        off += 8
    end = off
    if d["enc"] in (10, 11):
        off = (off + 63) // 64 * 64
    return max(end, off + d["size"])


def assemble(c, d, exp):
    start, us = make_start(c["start"])
    kw = {}
    if d["order"] is not None:
        kw["byteorder"] = d["order"]
    elif c["order"] == 0:
        kw["byteorder"] = 0
    if not d["auto"]:
        kw["encoding"] = d["enc"]
    n = d["n"] if (d.get("needn") or c["data"]["count"]) else 0
    h = MiniseedHeader(c["net"], c["sta"], c["loc"], c["chan"], start, n, c["rate"], sampRateFactor=c["fm"][0], sampRateMult=c["fm"][1], actFlag=c["act"], ioFlag=c["io"],
                       qualFlag=c["qual"], timeCorr=c["corr"], sequence_number=c["seq"], dataquality=c["q"], **kw)
    h.recordLengthExp, h.recordLength = exp, 2 ** exp
    o = ">" if kw.get("byteorder", 1) == 1 else "<"

    def blockettes(rec):
        out = []
        for b in c["blk"]:
            if b["k"] == "unk":
                out.append(ms.BlocketteUnknown(b["num"], 0, struct.pack(o + "HH", b["num"], 0) + bytes.fromhex(b["hex"])))
            elif b["k"] == "1000":
                out.append(ms.Blockette1000(1000, 0, b["enc"], b["order"], b["exp"]))
            elif b["k"] == "1001":
                out.append(ms.Blockette1001(1001, 0, b["tq"], b["us"], b["fc"]))
            else:
                out.append(getattr(rec, "createB" + b["k"][1:])())
                if b["k"] == "c1001":
                    need(out[-1].microseconds == us % 100, "blockette 1001 made for %d microseconds has %d", us % 100, out[-1].microseconds)
        return out
    if c["blkhow"] == "ctor" and all(b["k"] in ("unk", "1001", "1000") for b in c["blk"]):
        rec = MiniseedRecord(h, d["data"], encodedDataBytes=d["kw"], blockettes=blockettes(None))
    else:
        rec = MiniseedRecord(h, d["data"], encodedDataBytes=d["kw"])
        rec.blockettes = blockettes(rec)
    return rec, us


def want_rate(c):
    return Fraction(c["rate"]) if c["rate"] else refms2.nominal_rate(*c["fm"])


def check(c):
    d = build_data(c["data"])
    need_bytes = layout_need(c, d)
    exp = c["exp"]
    if exp == "tight":
        exp = max(7, (need_bytes - 1).bit_length())
    elif exp == "small":
        exp = max(7, (need_bytes - 1).bit_length() - 1)
    before = snap(d["data"])
    rec, us = assemble(c, d, exp)
    if need_bytes > 2 ** exp:
        for _ in range(2):
            try:
                raw = rec.pack()
            except Exception:
                continue
            raise AssertionError(f"{need_bytes} bytes of header, blockettes and data packed into a record of {2 ** exp}: {len(raw)} bytes")
        return True, ["refused:toobig"]
    raw = bytes(rec.pack())
    need(len(raw) == 2 ** exp, "packed to %d bytes, declared %d", len(raw), 2 ** exp)
    verify(raw, c, d, exp, us)
    need(bytes(rec.pack()) == raw, "packing again gives different bytes")
    need(snap(d["data"]) == before, "packing changed the data given")
    back = unpackMiniseedRecord(raw)
    h = back.header
    got = (h.network, h.station, h.location, h.channel, h.dataquality, h.numSamples, h.sequence_number, h.actFlag, h.ioFlag, h.qualFlag, h.timeCorr, h.encoding, h.recordLength)
    want = (c["net"], c["sta"], c["loc"], c["chan"], c["q"], d["n"], c["seq"], c["act"], c["io"], c["qual"], c["corr"], d["enc"], 2 ** exp)
    need(got == want, "read back %r, should be %r", got, want)
    has1001 = any(b["k"].endswith("1001") for b in c["blk"])
    need(refms3.dt_us(back.starttime()) == (us if has1001 else us // 100 * 100), "read back start %s", back.starttime())
    check_rate(Fraction(h.sampleRate), c, any(b["k"] == "c100" for b in c["blk"]), "read back")
    if d["vals"] is not None:
        got = back.decompress()
        if d["n"]:
            bad = gen3.values_equal(got, d["vals"], d["enc"])
            need(bad is None, "read back: %s", bad)
            bad = gen3.values_equal(rec.decompress(), d["vals"], d["enc"])
            need(bad is None, "the record itself: %s", bad)
        else:
            need(got is None or len(got) == 0, "samples invented")
    need(bytes(back.pack()) == raw, "the record read back packs differently")
    need(bytes(rec.clone().pack()) == raw, "a clone packs differently")
    nt = d["n"] > 0 or bool(c["blk"])
    return nt, ["data:%s" % c["data"].get("cont", "none"), "exp:%s" % c["exp"], "edge:%s" % ("edge" in c), "form:" + c["start"]["form"], "blk:%d" % len(c["blk"])]


def check_rate(got, c, b100, where):
    want = want_rate(c)
    if b100:
        need(float(got) == struct.unpack("<f", struct.pack("<f", float(want)))[0], "%s rate %r, blockette 100 was made for %r", where, float(got), float(want))
    elif c["rate"]:
        need(abs(got - want) <= want * Fraction(33, 10**6), "%s rate %r, was %r", where, float(got), float(want))
    else:
        need(abs(got - want) <= want / 10**12, "%s rate %r, factor and multiplier were %r", where, float(got), c["fm"])


def verify(raw, c, d, exp, us):
    try:
        p = refms2.parse(raw)
    except refms2.Bad2 as e:
        raise AssertionError(f"packed bytes break the format: {e}")
    for k in ("net", "sta", "loc", "chan", "q", "act", "io", "qual", "corr"):
        need(p[k] == c[k], "packed %s %r, should be %r", k, p[k], c[k])
    need(not refms2.padding(raw), "packed codes are not at the left of their fields: %r", refms2.padding(raw))
    need(p["seq"] == b"%06d" % c["seq"], "packed sequence number %r", p["seq"])
    need(p["n"] == d["n"], "packed count %d, should be %d", p["n"], d["n"])
    b = p["b1000"]
    need((b["enc"], b["exp"]) == (d["enc"], exp), "blockette 1000 says encoding %d length 2**%d", b["enc"], b["exp"])
    has1001 = "b1001" in p
    need(p["us"] == (us if has1001 else us // 100 * 100), "packed start is %d microseconds off", p["us"] - us)
    need((p["second"] == 60) == (c["start"].get("second") == 60), "packed second is %d, given %r", p["second"], c["start"])
    if c["fm"] != [0, 0]:
        need([p["factor"], p["mult"]] == c["fm"], "packed factor and multiplier %r, given %r", (p["factor"], p["mult"]), c["fm"])
    check_rate(refms2.nominal_rate(p["factor"], p["mult"]), c, False, "packed")
    want = [{"unk": x.get("num")}.get(x["k"]) or int(x["k"].lstrip("c")) for x in c["blk"]]
    got = [x["num"] for x in p["blk"]]
    if 1000 not in want:
        need(got.count(1000) == 1, "blockettes %r: blockette 1000 should be there once", got)
        got.remove(1000)
    need(got == want, "blockettes %r, should be %r", got, want)
    blks = [x for x in p["blk"] if 1000 in want or x["num"] != 1000]
    for x, w in zip(blks, c["blk"]):
        if w["k"] == "unk":
            w_raw = bytes.fromhex(w["hex"])
            need(x["body"][:len(w_raw)] == w_raw, "blockette %d contents", w["num"])
        elif w["k"] == "c100":
            check_rate(Fraction(x["rate"]), c, True, "blockette 100")
        elif w["k"] == "1001":
            need((x["tq"], x["fc"]) == (w["tq"], w["fc"]), "blockette 1001 quality and frames %r", (x["tq"], x["fc"]))
    if d["n"]:
        need(p["doff"] >= p["bend"], "data at %d, blockettes end at %d", p["doff"], p["bend"])
        if d["enc"] in (10, 11):
            need(p["doff"] % 64 == 0, "Steim frames at offset %d", p["doff"])
        if d["vals"] is not None:
            bad = gen3.values_equal(refms2.samples(p), d["vals"], d["enc"])
            need(bad is None, "packed %s", bad)
        else:
            src = d["data"] if d["data"] is not None else d["kw"]
            src = src.dataBytes if isinstance(src, EncodedDataSegment) else src
            need(p["data"][:len(src)] == bytes(src), "opaque data changed")


@st.composite
def refusals(draw):
    k = draw(st.sampled_from(["net", "sta", "loc", "chan", "seq", "flag", "floats", "range", "mismatch_enc", "mismatch_n", "nonascii", "type", "start"]))
    return {"k": k, "extra": draw(st.integers(1, 4)), "v": draw(st.floats(0.001, 0.999)), "base": draw(st.integers(-30000, 30000)), "n": draw(st.integers(1, 6)), "enc": draw(st.sampled_from([1, 3])),
            "at": draw(st.integers(0, 5)), "attr": draw(st.booleans())}


def check_refusal(c):
    k = c["k"]
    code = dict(net="XX", sta="ABCDE", loc="00", chan="HHZ")
    kw, data = {}, np.array([1, 2, 3], dtype=np.int32)
    if k in code:
        code[k] = code[k] + "X" * c["extra"]
    if k == "nonascii":
        code["sta"] = "ABCD\u00c5"
    if k == "seq":
        kw["sequence_number"] = 999999 + c["extra"] if c["extra"] % 2 else -100000 - c["extra"]
    if k == "flag":
        kw["actFlag"] = 255 + c["extra"]
    if k == "floats":
        data = [c["base"] + i for i in range(c["n"])]
        data[c["at"] % c["n"]] += c["v"]
        kw["encoding"] = c["enc"]
    if k == "range":
        data = [c["base"] + i for i in range(c["n"])]
        data[c["at"] % c["n"]] = (2**15 if c["enc"] == 1 else 2**31) - 1 + c["extra"]
        kw["encoding"] = c["enc"]
    if k == "mismatch_enc":
        kw["encoding"] = 4
    if k == "mismatch_n":
        kw["numSamples"] = 3 + c["extra"]
    if k == "type":
        data = ["text", {1, 2}, {"a": 1}, 17, 2.5, object()][c["at"]]
    start = "2024-01-01T00:00:00Z"
    if k == "start":
        start = ["yesterday", "2024-02-30T00:00:00Z", 5, 2.5, b"2024-01-01T00:00:00Z", [2024]][c["at"]]
    n = kw.pop("numSamples", 0)
    try:
        if c["attr"] and (k in code or k in ("seq", "flag", "nonascii")):
            # same thing by changing the header of a good record
            h = MiniseedHeader("XX", "ABC", "00", "HHZ", "2024-01-01T00:00:00Z", 0, 20)
            h.network, h.station, h.location, h.channel = code["net"], code["sta"], code["loc"], code["chan"]
            for a, v in kw.items():
                setattr(h, a, v)
        else:
            h = MiniseedHeader(code["net"], code["sta"], code["loc"], code["chan"], start, n, 20, **kw)
        raw = MiniseedRecord(h, data).pack()
    except Exception:
        return True, ["refused:" + k]
    raise AssertionError(f"{k}: packed without complaint, codes {code}, {kw}, data {str(data)[:60]}, start {start}: {bytes(raw[:48])!r}")


def directed():
    """Records of more samples than a signed 16 bit number holds."""
    out = []
    for k, r in enumerate(gen2.many()):
        p = dict(r["p"], auto=True, count=k % 2 == 0)
        p["cont"] = ["nd", "array", "segBE", "list", "nd>", "kwBE"][k % 6] if p["kind"] == "prim" else ["seg", "enc"][k % 2]
        out.append({"net": "XX", "sta": "BIRD", "loc": "", "chan": "BHZ", "start": {"form": "utc", "us": 10**15 * 60 + k, "zone": 0}, "data": p, "rate": 20.0, "fm": [0, 0], "act": 0, "io": 0, "qual": 0,
                    "corr": 0, "seq": k, "q": "D", "order": 1, "blk": [], "blkhow": "ctor", "exp": "tight"})
    return out


SUBS = [
    Sub("write", cases(), check, quick=5000, thorough=80000, shards=8, directed=directed),
    Sub("refuse", refusals(), check_refusal, quick=400, thorough=4000, shards=2),
]
