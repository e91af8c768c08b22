"""C15: sample rates through the miniSEED2 factor and multiplier."""
import datetime as dt
import math
import struct
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from simplemseed import MiniseedHeader, MiniseedRecord, unpackMiniseedHeader, unpackMiniseedRecord

from .. import consts, gen2, refms2, refms3
from ..core import Sub, need

RULE = ("rates and periods spread over 1e-8 to 1e8 with whole numbers, powers of two and neighbours of the 16 bit limits, given in every way a header takes them; "
        "all sign combinations of factor and multiplier; sample counts to 65535; every whole rate and period to 32766; non-trivial = the rate is not 0")

TOL = Fraction(31, 10**6)


@st.composite
def rates(draw):
    k = draw(st.integers(0, 8))
    lim = [1, 2, 3, 16383, 16384, 16385, 32764, 32765, 32766, 32767, 32768, 65532, 65534, 98301]
    if k == 0:
        return {"k": "int", "n": draw(st.one_of(st.integers(1, 32766), st.sampled_from(lim[:9])))}
    if k == 1:
        return {"k": "per", "n": draw(st.one_of(st.integers(1, 32766), st.sampled_from(lim[:9])))}
    if k == 2:
        return {"k": "exp", "v": math.exp(draw(st.floats(math.log(1e-8), math.log(1e8))))}
    if k == 3:
        n = draw(st.one_of(st.sampled_from(lim), st.integers(1, 10**6)))
        return {"k": "frac", "v": n + draw(st.sampled_from([0.5, 0.49, 0.25, -0.5, 0.001, 1e-9])) if n > 1 else 1.5}
    if k == 4:
        n = draw(st.one_of(st.sampled_from(lim), st.integers(2, 10**6)))
        return {"k": "perfrac", "v": 1 / (n + draw(st.sampled_from([0.5, -0.5, 0.25, 0.001])))}
    if k == 5:
        v = float(draw(st.sampled_from(lim)))
        v = draw(st.sampled_from([v, math.nextafter(v, 0), math.nextafter(v, 1e9)]))
        return {"k": "edge", "v": v if draw(st.booleans()) else 1 / v}
    if k == 6:
        return {"k": "big", "v": float(draw(st.integers(32767, 10**8)))}
    if k == 7:
        v = draw(st.sampled_from([f for f in consts.FLOATS if 1e-8 <= f <= 1e8] or [1.0]) if draw(st.booleans()) else st.sampled_from([float(i) for i in consts.INTS if 1 <= i <= 10**8]))
        return {"k": "const", "v": v}
    return {"k": "small", "v": draw(st.floats(1e-8, 1.0))}


def period(h, rate):
    got, want = h.sampPeriod / dt.timedelta(microseconds=1), 10**6 / rate if rate else 0
    need(abs(got - want) <= 1 + want / 10**12, "the period is %r microseconds at rate %r", got, float(rate))


@st.composite
def writes(draw):
    return {"rate": draw(rates()), "how": draw(st.sampled_from(["ctor", "set", "reset", "read", "record", "record0"])), "order": draw(st.sampled_from([0, 1])),
            "old": draw(gen2.nominal()), "npt": draw(st.sampled_from(["float", "float", "int", "np"]))}


def value(r):
    if r["k"] == "int":
        return float(r["n"]), Fraction(r["n"])
    if r["k"] == "per":
        return 1.0 / r["n"], Fraction(1, r["n"])
    return r["v"], None


def check_write(c):
    v, exact = value(c["rate"])
    given = v
    if c["npt"] == "int" and v == int(v):
        given = int(v)
    elif c["npt"] == "np":
        given = np.float64(v)
    start = dt.datetime(2024, 2, 28, 23, 59, 59, tzinfo=dt.timezone.utc)
    how = c["how"]
    order = c["order"]
    if how in ("ctor", "record"):
        h = MiniseedHeader("XX", "ABC", "00", "HHZ", start, 0, given, byteorder=order)
    elif how in ("set", "reset", "record0"):
        h = MiniseedHeader("XX", "ABC", "00", "HHZ", start, 0, 50, byteorder=order)
        if how == "reset":
            h.setSampleRate(1.0 / 3)
        h.setSampleRate(given)
    else:
        first = MiniseedHeader("XX", "ABC", "00", "HHZ", start, 0, 0, byteorder=order, sampRateFactor=c["old"][0], sampRateMult=c["old"][1])
        h = unpackMiniseedHeader(first.pack(), endianChar=">" if order == 1 else "<")
        h.setSampleRate(given)
    need(h.sampleRate == v, "header says rate %r, given %r", h.sampleRate, v)
    period(h, Fraction(v))
    o = ">" if order == 1 else "<"
    if how.startswith("record"):
        raw = bytes(MiniseedRecord(h, np.array([1, 2, 3], dtype=np.int32)).pack())
        back = unpackMiniseedRecord(raw).header
    else:
        raw = bytes(h.pack())
        back = unpackMiniseedHeader(raw, endianChar=o)
    f, m = struct.unpack(o + "hh", raw[32:36])
    got = refms2.nominal_rate(f, m)
    want = exact if exact is not None else Fraction(v)
    if exact is not None:
        need(got == exact, "factor %d and multiplier %d give %s, rate was %s", f, m, got, exact)
    else:
        need(abs(got - want) <= want * TOL, "factor %d and multiplier %d give %r, rate was %r", f, m, float(got), v)
    need(abs(Fraction(back.sampleRate) - got) <= got / 10**12, "read back %r from factor %d and multiplier %d", back.sampleRate, f, m)
    need((back.sampRateFactor, back.sampRateMult) == (f, m), "read back factor and multiplier %r", (back.sampRateFactor, back.sampRateMult))
    return True, ["how:" + how, "k:" + c["rate"]["k"], "signs:%s%s" % ("-" if f < 0 else "+", "-" if m < 0 else "+")]


@st.composite
def reads(draw):
    s16 = st.one_of(st.integers(-32768, 32767), st.sampled_from([-32768, -32767, -1, 0, 1, 32767]), st.integers(-200, 200))
    return {"f": draw(s16), "m": draw(s16), "o": draw(st.sampled_from("><")), "n": draw(st.one_of(st.just(0), st.integers(1, 100))), "b100": draw(st.one_of(st.none(), st.none(), gen2.f32pos())),
            "late": draw(st.booleans()), "bad": draw(st.sampled_from([0, 0, 0, 1]))}


def raw_record(c, n=None):
    r = dict(net="XX", sta="ABC", loc="00", chan="HHZ", year=2024, doy=59, hour=23, minute=59, second=59, tenth=1234, seq="000001", q="D", factor=c["f"], mult=c["m"], act=0, io=0, qual=0, corr=0,
             o=c["o"], n=c["n"], blk=[{"num": 1000, "enc": 0, "order": 1, "exp": 9}])
    if c["b100"] is not None:
        b = {"num": 100, "rate": c["b100"]}
        r["blk"] = r["blk"] + [b] if c["late"] else [b] + r["blk"]
    return r


def check_read(c):
    r = raw_record(c)
    raw = refms2.build(r, b"text")
    rec = unpackMiniseedRecord(raw)
    h = rec.header
    nominal = refms2.nominal_rate(c["f"], c["m"])
    want = Fraction(c["b100"]) if c["b100"] is not None else nominal
    need(abs(Fraction(h.sampleRate) - want) <= want / 10**12, "rate %r, should be %r", h.sampleRate, float(want))
    need((h.sampRateFactor, h.sampRateMult) == (c["f"], c["m"]), "factor and multiplier %r", (h.sampRateFactor, h.sampRateMult))
    period(h, want)
    p = refms2.parse(rec.pack())
    if c["f"] and c["m"]:
        need((p["factor"], p["mult"]) == (c["f"], c["m"]), "repacked factor and multiplier %r", (p["factor"], p["mult"]))
    need(abs(p["rate"] - want) <= want * TOL, "repacked rate %r, was %r", float(p["rate"]), float(want))
    return want != 0, ["signs:%+d%+d" % ((c["f"] > 0) - (c["f"] < 0), (c["m"] > 0) - (c["m"] < 0)), "b100:%s" % (c["b100"] is not None)]


@st.composite
def durations(draw):
    c = {"kind": draw(st.sampled_from(["made", "made", "set", "read", "read100"])), "n": draw(st.one_of(st.integers(0, 65535), st.sampled_from([0, 1, 2, 65535]))),
         "rate": draw(rates()), "fm": draw(gen2.nominal()), "b100": draw(gen2.f32pos()), "us": draw(st.integers(0, 9999)), "sec": draw(st.integers(0, 10**9))}
    return c


def check_duration(c):
    v, _exact = value(c["rate"])
    start = dt.datetime(1990, 1, 1, tzinfo=dt.timezone.utc) + dt.timedelta(seconds=c["sec"], microseconds=c["us"] * 100)
    n = c["n"]
    if c["kind"] in ("made", "set"):
        h = MiniseedHeader("XX", "ABC", "00", "HHZ", start, n, v if c["kind"] == "made" else 3.0)
        if c["kind"] == "set":
            h.setSampleRate(v)
        rec = MiniseedRecord(h, None)
        rate = Fraction(v)
    else:
        cc = {"f": c["fm"][0], "m": c["fm"][1], "o": ">", "n": n, "b100": c["b100"] if c["kind"] == "read100" else None, "late": False}
        rec = unpackMiniseedRecord(refms2.build(raw_record(cc), b"x"))
        rate = Fraction(c["b100"]) if c["kind"] == "read100" else refms2.nominal_rate(*c["fm"])
    s = refms3.dt_us(rec.starttime())
    for name, k in (("endtime", n - 1), ("next_starttime", n)):
        d = 10**6 * k / rate
        if s + d > refms3.dt_us(dt.datetime(9990, 1, 1)) or s + d < 0:
            continue
        got = refms3.dt_us(getattr(rec, name)())
        tol = max(Fraction(1), abs(d) / 10**13)
        need(abs(got - s - d) <= tol, "%s is %s microseconds after the start, should be %r (%d samples at %r)", name, got - s, float(d), n, float(rate))
    return n > 1, ["kind:" + c["kind"], "k:" + c["rate"]["k"]]


# ---- every whole rate and period a multiplier can hold, in blocks

def check_block(c):
    start = dt.datetime(2024, 2, 28, 23, 59, 59, tzinfo=dt.timezone.utc)
    h = MiniseedHeader("XX", "ABC", "00", "HHZ", start, 0, 50, byteorder=1)
    for n in range(c["from"], c["from"] + c["n"]):
        exact = Fraction(n, c["div"]) if c["k"] == "rate" else Fraction(c["div"], n)
        v = n / c["div"] if c["k"] == "rate" else c["div"] / n
        if c["new"]:
            h = MiniseedHeader("XX", "ABC", "00", "HHZ", start, 0, v, byteorder=1)
        else:
            h.setSampleRate(v)
        f, m = struct.unpack(">hh", bytes(h.pack())[32:36])
        got = refms2.nominal_rate(f, m)
        if c["div"] == 1 and n <= 32766:
            need(got == exact, "factor %d and multiplier %d give %s, rate was %s", f, m, got, exact)
        else:
            need(abs(got - exact) <= exact * TOL, "factor %d and multiplier %d give %r, rate was %s", f, m, float(got), exact)
    return True, ["k:" + c["k"], "div:%s" % (c["div"] if c["div"] < 3 else "3+")]


def every_block():
    return [{"k": k, "from": a, "n": min(128, 32767 - a), "div": 1, "new": a % 256 == 1} for k in ("rate", "period") for a in range(1, 32767, 128)]


def blocks():
    return st.builds(lambda k, a, d, w: {"k": k, "from": a, "n": 32, "div": d, "new": w}, st.sampled_from(["rate", "period"]), st.one_of(st.integers(1, 2**17), st.integers(1, 10**6)),
                     st.one_of(st.integers(1, 12), st.sampled_from([10, 100, 1000, 60, 3600])), st.booleans())


SUBS = [
    Sub("whole", blocks(), check_block, quick=400, thorough=10000, directed=every_block),
    Sub("write", writes(), check_write, quick=16000, thorough=400000),
    Sub("read", reads(), check_read, quick=10000, thorough=150000),
    Sub("times", durations(), check_duration, quick=10000, thorough=150000),
]
