"""C11: miniSEED3 record times and rates follow the calendar and each other."""
import datetime
import struct
from fractions import Fraction

from hypothesis import strategies as st

import simplemseed
from simplemseed import MSeed3Header, MSeed3Record

from .. import consts, gen3, refms3
from ..core import Sub, need

RULE = ("date-times with any UTC offset, ISO texts in several styles, stored time fields including day 366 and second 60, rates and periods over many decades; "
        "non-trivial = offset from UTC, fraction of a second, day above 59, leap second, period form or more than one sample")

LO, HI = refms3.instant_ns(1, 2, 0, 0, 0, 0) // 1000, refms3.instant_ns(9999, 364, 0, 0, 0, 0) // 1000


@st.composite
def instants(draw):
    if draw(st.integers(0, 4)) == 0:
        return draw(st.integers(LO, HI))
    y = draw(st.one_of(st.integers(1960, 2060), st.sampled_from([1600, 1900, 1970, 1999, 2000, 2004, 2012, 2016, 2020, 2024, 2100, 2400, 9998])))
    n = 366 if refms3.is_leap(y) else 365
    d = draw(st.one_of(st.integers(1, n), st.sampled_from([1, 2, 31, 32, 58, 59, 60, 61, 62, 364, 365, n])))
    h = draw(st.one_of(st.integers(0, 23), st.sampled_from([0, 23])))
    m = draw(st.one_of(st.integers(0, 59), st.sampled_from([0, 59])))
    s = draw(st.one_of(st.integers(0, 59), st.sampled_from([0, 59])))
    us = draw(st.one_of(st.just(0), st.integers(0, 999999), st.sampled_from([1, 999999, 500000, 999, 1000, 100000])))
    return refms3.instant_ns(y, d, h, m, s, us * 1000) // 1000


OFFSETS = st.one_of(st.just(0), st.just(0), st.sampled_from([60, -60, 330, -330, 345, 720, -720, 840, 1439, -1439, 1, -1]), st.integers(-1439, 1439))
FORMS = ["dt", "dt-naive", "dt-tz", "dt-sub-tz", "iso-Z", "iso-off", "iso-naive", "iso-space", "iso-nofrac", "iso-off-sec", "iso-basic", "iso-hour", "iso-date", "iso-ms"]


@st.composite
def set_cases(draw):
    return {"us": draw(instants()), "form": draw(st.sampled_from(FORMS)), "off": draw(OFFSETS), "was": draw(st.one_of(st.none(), instants())), "ns": draw(st.integers(0, 999999999)),
            "rec": draw(st.booleans())}


def local_dt(us, off_min, off_sec=0):
    y, doy, h, m, s, micro = refms3.us_to_fields(us + (off_min * 60 + off_sec) * 10**6)
    base = datetime.datetime(y, 1, 1) + datetime.timedelta(days=doy - 1)
    return datetime.datetime(base.year, base.month, base.day, h, m, s, micro)


class _Odd(datetime.tzinfo):
    """A time zone that is not a fixed-offset object."""

    def __init__(self, minutes):
        self.d = datetime.timedelta(minutes=minutes)

    def utcoffset(self, _dt):
        return self.d

    def dst(self, _dt):
        return datetime.timedelta(minutes=30)

    def tzname(self, _dt):
        return "odd"


def check_set(c):
    us, form, off = c["us"], c["form"], c["off"]
    sign = "+" if off >= 0 else "-"
    tz = datetime.timezone(datetime.timedelta(minutes=off))
    if form == "dt":
        arg = local_dt(us, 0).replace(tzinfo=datetime.timezone.utc)
        off = 0
    elif form == "dt-naive":
        arg, off = local_dt(us, 0), 0
    elif form == "dt-tz":
        arg = local_dt(us, off).replace(tzinfo=tz)
    elif form == "dt-sub-tz":
        arg = local_dt(us, off).replace(tzinfo=_Odd(off))
    elif form == "iso-Z":
        arg, off = local_dt(us, 0).isoformat() + "Z", 0
    elif form == "iso-off":
        arg = local_dt(us, off).isoformat() + f"{sign}{abs(off) // 60:02d}:{abs(off) % 60:02d}"
    elif form == "iso-naive":
        arg, off = local_dt(us, 0).isoformat(), 0
    elif form == "iso-space":
        arg = local_dt(us, off).isoformat(sep=" ") + f"{sign}{abs(off) // 60:02d}:{abs(off) % 60:02d}"
    elif form == "iso-nofrac":
        us -= us % 10**6
        arg, off = local_dt(us, 0).isoformat(timespec="seconds") + "Z", 0
    elif form == "iso-off-sec":
        arg = local_dt(us, off, 30 if off >= 0 else -30).isoformat() + f"{sign}{abs(off) // 60:02d}:{abs(off) % 60:02d}:30"
    elif form == "iso-basic":
        us -= us % 10**6
        arg, off = local_dt(us, 0).strftime("%m%dT%H%M%SZ"), 0
        arg = f"{local_dt(us, 0).year:04d}" + arg
    elif form == "iso-hour":
        us -= us % (3600 * 10**6)
        arg, off = local_dt(us, 0).isoformat()[:13] + "Z", 0
    elif form == "iso-date":
        us -= us % (86400 * 10**6)
        arg, off = local_dt(us, 0).isoformat()[:10], 0
    else:
        us -= us % 1000
        arg = local_dt(us, off).isoformat(timespec="milliseconds") + f"{sign}{abs(off) // 60:02d}:{abs(off) % 60:02d}"
    h = MSeed3Header()
    h.nanosecond = c["ns"]
    if c["was"] is not None:
        h.starttime = local_dt(c["was"], 0)
    h.starttime = arg
    want = refms3.us_to_fields(us)
    got = (h.year, h.dayOfYear, h.hour, h.minute, h.second, h.nanosecond)
    need(got == want[:5] + (want[5] * 1000,), "%r stored as %r, should be %r", arg, got, want[:5] + (want[5] * 1000,))
    back = h.starttime
    need(back.tzinfo is not None, "start time without time zone")
    need(refms3.dt_us(back) == us, "%r read back as %s", arg, back)
    if c["rec"]:
        rec = MSeed3Record(h, "FDSN:XX_ABC__H_H_Z", [1, 2], None)
        raw = bytes(rec.pack())
        ph = refms3.parse(raw)[0]
        need((ph["year"], ph["doy"], ph["hour"], ph["minute"], ph["second"], ph["ns"]) == got, "packed time fields differ")
        r2 = simplemseed.unpackMSeed3Record(raw)
        need(refms3.dt_us(r2.starttime) == us and refms3.dt_us(rec.starttime) == us, "record start time differs")
    return (off != 0 or us % 10**6 != 0 or want[1] > 59), ["form:" + form]


@st.composite
def field_cases(draw):
    c = draw(gen3.times(1, 9998))
    c["rate"] = draw(st.one_of(gen3.rates(), gen3.rates(), st.sampled_from([0.0, -0.0])))
    c["n"] = draw(st.one_of(st.integers(1, 5), st.integers(1, 100000), st.sampled_from([0, 0, 1, 2, 65535, 65536, 2**24, 2**31])))
    c["via"] = draw(st.sampled_from(["bytes", "attr", "record"]))
    return c


def check_fields(c):
    via = c["via"]
    if via == "attr":
        h = MSeed3Header()
        h.year, h.dayOfYear, h.hour, h.minute, h.second, h.nanosecond = c["year"], c["doy"], c["hour"], c["minute"], c["second"], c["ns"]
        h.sampleRatePeriod, h.numSamples = c["rate"], c["n"]
        rec = None
    else:
        hd = dict(c, flags=0, enc=100, pub=0)
        raw = refms3.build(hd, b"FDSN:XX_ABC__H_H_Z", b"", b"")
        rec = simplemseed.unpackMSeed3Record(raw)
        h = rec.header if via == "record" else simplemseed.unpackMSeed3FixedHeader(raw)
    us = refms3.instant_ns(c["year"], c["doy"], c["hour"], c["minute"], c["second"], c["ns"]) // 1000
    st_ = h.starttime
    need(refms3.dt_us(st_) == us, "start time %s from fields %r", st_, c)
    need(st_.tzinfo is not None, "start time without time zone")
    need(c["year"] >= 3000 or h.sanityCheck() is True, "legal time fields fail the sanity check")
    rate, per = check_rate(h, c["rate"])
    end = Fraction(us) + per * (c["n"] - 1) * 10**6
    if 0 <= end < HI:
        got = refms3.dt_us(h.endtime)
        need(abs(got - end) <= 2 + abs(per * c["n"] * 10**6) / 10**14, "end time %s, off by %.1f microseconds", h.endtime, float(got - end))
        if via == "record":
            need(rec.starttime == st_ and rec.endtime == h.endtime, "record and header times differ")
            text = rec.summary()
            for part in (refms3.fmt_us(us), refms3.fmt_us(got), f"{c['n']} pts", "FDSN:XX_ABC__H_H_Z"):
                need(part in text, "summary %r lacks %r", text, part)
            need(str(rec) == text, "str() is not the summary")
    return (c["second"] == 60 or c["doy"] > 59 or c["n"] > 1 or c["rate"] < 0), ["via:" + via, "leap" if c["second"] == 60 else "plain", "rate:" + ("zero" if rate == 0 else "period" if c["rate"] < 0 else "rate")]


def check_rate(h, stored):
    rate, per = h.sampleRate, h.samplePeriod
    if stored == 0:
        need(rate == 0 and per == 0, "zero rate gives rate %r, period %r", rate, per)
        return 0, Fraction(0)
    s = Fraction(stored)
    wr, wp = (s, 1 / s) if s > 0 else (-1 / s, -s)
    need(abs(Fraction(rate) - wr) <= wr / 10**14, "sample rate %r from stored %r", rate, stored)
    need(abs(Fraction(per) - wp) <= wp / 10**14, "sample period %r from stored %r", per, stored)
    return wr, wp


@st.composite
def setters(draw):
    return {"how": draw(st.sampled_from(["rate", "period"])), "v": draw(st.one_of(gen3.rates(False).map(abs), st.floats(1e-9, 1e9), st.integers(1, 100000))), "was": draw(gen3.rates())}


def check_setters(c):
    h = MSeed3Header()
    h.sampleRatePeriod = c["was"]
    v = Fraction(c["v"])
    if c["how"] == "rate":
        h.sampleRate = c["v"]
        wr, wp = v, 1 / v
    else:
        h.samplePeriod = c["v"]
        wr, wp = 1 / v, v
    need(abs(Fraction(h.sampleRate) - wr) <= wr / 10**14, "%s set to %r gives rate %r", c["how"], c["v"], h.sampleRate)
    need(abs(Fraction(h.samplePeriod) - wp) <= wp / 10**14, "%s set to %r gives period %r", c["how"], c["v"], h.samplePeriod)
    stored = struct.unpack("<d", bytes(_packed(h))[16:24])[0]
    need(stored == (c["v"] if c["how"] == "rate" else -c["v"]), "stored %r", stored)
    return True, ["set:" + c["how"]]


def _packed(h):
    h.encoding = 0
    return h.pack()


@st.composite
def texts(draw):
    return {"us": draw(instants()), "off": draw(st.one_of(st.none(), OFFSETS)), "sec": draw(st.sampled_from([0, 0, 0, 30, -30, 59, 1]))}


def check_text(c):
    """The text form of a time, with whatever offset, denotes that instant."""
    sec = c["sec"] if c["off"] is not None and abs(c["off"]) < 1400 else 0
    t = local_dt(c["us"], c["off"] or 0, sec)
    if c["off"] is not None:
        t = t.replace(tzinfo=datetime.timezone(datetime.timedelta(minutes=c["off"], seconds=sec)))
    text = simplemseed.isoWZ(t)
    need(text.endswith("Z") == (c["off"] == 0 and sec == 0), "%r written as %r", t, text)
    h = MSeed3Header()
    h.starttime = text
    try:
        own = datetime.datetime.fromisoformat(text)
    except ValueError:
        need(False, "%r written as %r, which is no ISO text", t, text)
    own = refms3.dt_us(own.astimezone(datetime.timezone.utc) if own.tzinfo else own)
    for got in (own, refms3.dt_us(h.starttime)):
        need(got == c["us"], "%r written as %r, which is %d microseconds off", t, text, got - c["us"])
    return True, ["utc" if text.endswith("Z") else "naive" if c["off"] is None else "offset"]


# ---- refused: fields out of range, start times that are none

@st.composite
def wrong(draw):
    k = draw(st.sampled_from(["year", "dayOfYear", "hour", "minute", "second", "type", "text"]))
    lo, hi = {"year": (3000, 65535), "dayOfYear": (367, 65535), "hour": (24, 255), "minute": (60, 255), "second": (61, 255)}.get(k, (0, 9))
    return {"k": k, "v": draw(st.one_of(st.integers(lo, hi), st.just(lo))) if k != "dayOfYear" else draw(st.sampled_from([0, 367, 400, 65535])), "us": draw(instants()), "rec": draw(st.booleans())}


TEXTS = ["", "yesterday", "2024-13-01T00:00:00Z", "2024-02-30T00:00:00Z", "2023-02-29", "2024-01-01T24:01:00Z", "2024-01-01T00:60:00Z", "2024-01-01T00:00:00+25:00", "24-01-01T00:00:00Z", "2024-01-01T00:00:00ZZ"]


def check_wrong(c):
    h = MSeed3Header()
    h.starttime = local_dt(c["us"], 0)
    if c["k"] in ("type", "text"):
        before = bytes(_packed(h))
        bad = TEXTS[c["v"] % len(TEXTS)] if c["k"] == "text" else [None, 5, 2.5, b"2024-01-01T00:00:00Z", [2024, 1, 1], (2024,), {}, datetime.date(2024, 1, 1), datetime.timedelta(1), True][c["v"] % 10]
        try:
            h.starttime = bad
        except Exception:
            need(bytes(_packed(h)) == before, "refused start time %r changed the header", bad)
            return True, ["refused:" + c["k"]]
        need(False, "%r accepted as start time: %s", bad, h.starttime)
    if refms3.us_to_fields(c["us"])[0] < 3000:
        need(h.sanityCheck() is True, "legal time fields fail the sanity check")
    setattr(h, c["k"], c["v"])
    need(not h.sanityCheck(), "%s %d passes the sanity check", c["k"], c["v"])
    return True, ["insane:" + c["k"]]


def directed_fields():
    out = []
    for y, d, h, m, s in [(2016, 366, 23, 59, 60), (2015, 181, 23, 59, 60), (2024, 366, 23, 59, 59), (2023, 365, 23, 59, 60), (2000, 60, 0, 0, 0), (1900, 60, 0, 0, 0), (2024, 60, 12, 0, 60), (1, 1, 0, 0, 0)]:
        for ns in (0, 999, 1000, 999999999):
            for rate in (20.0, -10.0, 0.0, -0.0):
                for via in ("bytes", "attr", "record"):
                    out.append(dict(year=y, doy=d, hour=h, minute=m, second=s, ns=ns, rate=rate, n=3, via=via))
    return out


SUBS = [
    Sub("set", set_cases(), check_set, quick=4000, thorough=80000),
    Sub("fields", field_cases(), check_fields, quick=4000, thorough=80000, directed=directed_fields),
    Sub("setters", setters(), check_setters, quick=1500, thorough=20000, shards=2),
    Sub("text", texts(), check_text, quick=1000, thorough=20000, shards=2),
    Sub("wrong", wrong(), check_wrong, quick=1000, thorough=20000, shards=2, directed=lambda: [{"k": k, "v": v, "us": 63_000_000_000_000_000, "rec": False} for k in ("type", "text") for v in range(10)]),
]
