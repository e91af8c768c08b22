"""Generators of miniSEED3 records as data, and their expansion to bytes."""
import json
import re
import struct

from hypothesis import strategies as st

from . import consts, gen, refms3, refsteim

UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def code(lo, hi, alphabet=UP):
    return st.text(alphabet=alphabet, min_size=lo, max_size=hi)


FDSN_ID = st.builds(
    lambda n, s, l, b, so, ss: f"FDSN:{n}_{s}_{l}_{b}_{so}_{ss}",
    code(1, 8), code(1, 8, UP + "-"), code(0, 8, UP + "-"), code(0, 1, "JFGDCESHBMLVUWRPTQI"), code(1, 3), code(0, 3),
)
ID_POOL = ["FDSN:XX_ABC__H_H_Z", "FDSN:XX_ABC_00_H_H_Z", "FDSN:CO_BIRD_00_H_H_Z", "FDSN:CO_BIRD_00_H_H_N", "FDSN:CO_JSC_00_B_H_Z", "XFDSN:A_B_C_D_E_F"]


ODD = ["", " ", "  ", "\0", "\n", "\t", "\ufeff", "\u00a0", "\u00df", "\U0001f600", "fdsn:", "_", "\r\n", "\""]


def bounded_utf8(s, limit):
    b = s.encode("utf-8")[:limit]
    return b.decode("utf-8", "ignore")


def idents(max_bytes=255):
    return st.one_of(
        st.sampled_from(ID_POOL),
        FDSN_ID,
        FDSN_ID,
        st.just(""),
        # white space, control characters and byte order marks belong to the identifier
        st.builds(lambda a, s, b: a + s + b, st.sampled_from(ODD), st.one_of(st.sampled_from(ID_POOL), FDSN_ID, st.just("")), st.sampled_from(ODD)),
        st.text(max_size=20).map(lambda s: bounded_utf8(s, max_bytes)),
        st.builds(lambda c, n: (c * n)[:max_bytes], st.sampled_from("XZq_"), st.sampled_from([1, 2, 127, 128, 254, 255])),
    )


# match one code, the whole text, the prefix, or a form that only looks like the identifier
FORM_PATS = ["^[A-Z]{2}_", "\\.BHZ", "HHZ$", "fdsn:", "^FDSN:[^_]+_[^_]+__", "^$", "(?s).", "\\s", "\\d\\d", "(?<=FDSN:)XX", "(?<!FDSN:)XX", "FDSN:(?!XX)", "_$", "\\AFDSN", "Z\\b"]

JSON_KEYS = st.one_of(st.sampled_from(["FDSN", "Time", "Quality", "a", "b", "bag", "y", "st", "/", "~", "", "_x", "-", "0", "a.b", "#", "ä"]), st.text(max_size=6))
JSON_LEAF = st.one_of(st.none(), st.booleans(), st.integers(-(2**40), 2**60), st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=12),
                      st.sampled_from(["\ud83c", "a\udfffb", "\udc00\ud800", "\u2028", "\x7f\x00", 10**30, -2**64, 1e308, 5e-324, -0.0, 1e16, 2**53 + 1]))
JSON_VALUE = st.recursive(JSON_LEAF, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(JSON_KEYS, c, max_size=3)), max_leaves=8)
EH_DICT = st.dictionaries(JSON_KEYS, JSON_VALUE, max_size=4)

EH_SIZES = [255, 256, 1023, 4096, 32767, 32768, 65534, 65535]


@st.composite
def other_forms(draw, ident):
    """A pattern made from another way of writing the same codes, mostly not a match."""
    if draw(st.integers(0, 4)) == 0:
        return draw(st.sampled_from(FORM_PATS))
    it = ident.split(":", 1)[-1].split("_")
    it = (it + [""] * 6)[:6]
    sep = draw(st.sampled_from([".", "\\.", " ", "", "-", "_", ":"]))
    n, s, l = it[:3]
    c = draw(st.sampled_from(["", "_"])).join(it[3:])
    e = re.escape
    parts = [e(n), e(draw(st.sampled_from([s, s.ljust(5)]))), draw(st.sampled_from([e(l), "--", e(l or "  ")])), e(c)]
    a, b = draw(st.sampled_from([(0, 4), (0, 4), (0, 2), (1, 3), (2, 4), (3, 4), (0, 1)]))
    t = sep.join(parts[a:b])
    t = draw(st.sampled_from(["", "", "^", "(?i)"])) + draw(st.sampled_from([t, t, t.lower()])) + draw(st.sampled_from(["", "", "$"]))
    try:
        re.compile(t)
    except re.error:
        t = e(t)
    return t


PIECES = ["FDSN", "XX", "CO", "BIRD", "JSC", "ABC", "_", "00", "H", "B", "Z", "N", "Q", "é"]


@st.composite
def patterns(draw, ids):
    """A pattern for records of these identifiers: their parts, whole, either end, alternatives, other ways of writing them."""
    k = draw(st.integers(0, 21))
    some = draw(st.sampled_from(ids)) if ids else "FDSN:XX_ABC__H_H_Z"
    if k >= 16:
        # a part of the identifier in whatever case, open letters, either end
        a = draw(st.integers(0, max(0, len(some) - 1)))
        part = some[a:draw(st.integers(a + 1, a + 12))]
        if k in (16, 17):
            return draw(st.sampled_from(["", "^", "(?i)"])) + re.escape(draw(st.sampled_from([part.lower(), part.swapcase(), part])))
        if k in (18, 19):
            i = draw(st.integers(0, max(0, len(part) - 1)))
            return re.escape(part[:i]) + draw(st.sampled_from([".", "[^_]", "\\w", ".{1}", ".?"])) + re.escape(part[i + 1:])
        if k == 20:
            return "(?:" + re.escape(part) + ")" + draw(st.sampled_from(["", "$", "(?=_)", "+", "?$"]))
        return re.escape(some[a:]) + draw(st.sampled_from(["$", "\\Z", "", "\\b"]))
    if k == 0:
        a = draw(st.integers(0, len(some)))
        b = draw(st.integers(a, len(some)))
        return re.escape(some[a:b])
    if k == 1:
        return "^" + re.escape(some) + "$"
    if k == 2:
        return "^" + re.escape(some[: draw(st.integers(0, len(some)))])
    if k == 3:
        return re.escape(some[draw(st.integers(0, len(some))):]) + "$"
    if k == 4:
        return "|".join(re.escape(p) for p in draw(st.lists(st.sampled_from(PIECES), min_size=1, max_size=3)))
    if k == 5:
        return draw(st.sampled_from([".*", "", "_H_H_Z", "_H_H_[ZN12]", "^FDSN:CO_", "BIRD.*_Z$", "(?i)fdsn:co", "^(?!FDSN:CO)", "_00_", "__", r"FDSN:\w+_JSC", "^$", "Z\\Z", "XFDSN", "[A-Z]{2}_[A-Z]{3,4}_"]))
    if k == 6:
        return ".*" + draw(st.sampled_from(PIECES)) + ".*" + draw(st.sampled_from(PIECES))
    if k == 7:
        return re.escape(some).replace("_", ".")
    if k == 12:
        return "|".join(draw(st.sampled_from(["", "^", "\\A", "(?:)"])) + re.escape(i) + draw(st.sampled_from(["", "$", "\\Z"])) for i in ids[:3]) or "x"
    if k == 13:
        # anchored at the prefix, in either or any case
        return draw(st.sampled_from(["^", "\\A", "(?i)^", "(?i)"])) + re.escape(some[:draw(st.integers(1, 8))])
    if k == 15:
        # white space and the rest as they are, on one line
        a = draw(st.integers(0, len(some)))
        return re.escape(some[:a]) + draw(st.sampled_from([" ", "\t", "#", " #", "\n", "."])) + re.escape(some[a:])
    if k == 14:
        # one letter of the identifier left open
        a = draw(st.integers(0, max(0, len(some) - 1)))
        return "^" + re.escape(some[:a]) + draw(st.sampled_from([".", "[^_]", "\\w", "[A-Z]"])) + re.escape(some[a + 1:]) + "$"
    if k >= 10:
        return draw(other_forms(some))
    if k == 8:
        return "nomatch" + draw(st.sampled_from(["", "?", "*"]))
    return draw(st.sampled_from(PIECES))


def dumps(d, **kw):
    """JSON text, as UTF-8 where that can say it (it cannot say half a surrogate pair)."""
    t = json.dumps(d, ensure_ascii=False, **kw)
    try:
        t.encode("utf-8")
    except UnicodeEncodeError:
        t = json.dumps(d, **kw)
    return t


@st.composite
def eh_texts(draw):
    """JSON object text in several writers' styles, '' for none."""
    k = draw(st.integers(0, 9))
    if k <= 2:
        return ""
    if k == 3:
        return draw(st.sampled_from(["{}", "{ }", "{\"\":1}", "{\"a\":1}", "{\"a\": 1}", "{\"a\":{}}", " {\"a\":[1,2,{}]} ", "{\"é\":\"ü☃\"}", "{\"a\": \"€𝄞\"}"]))
    d = draw(EH_DICT)
    style = draw(st.integers(0, 3))
    if style == 0:
        t = json.dumps(d)
    elif style == 1:
        t = dumps(d, separators=(",", ":"))
    elif style == 2:
        t = json.dumps(d, indent=2)
    else:
        t = dumps(d)
    if k == 9:
        size = draw(st.sampled_from(EH_SIZES))
        pad = size - len(t.encode("utf-8"))
        if pad > 0:
            t = t + " " * pad
    return t


def rates(zero=True):
    pos = st.one_of(
        st.sampled_from([1, 2, 10, 20, 40, 50, 80, 100, 200, 250, 500, 1000, 5000, 0.1, 0.01, 0.5, 1 / 3, 99.9999, 1e-6, 1e6, 12.5]),
        st.floats(1e-6, 1e6, allow_nan=False), st.integers(1, 10000).map(float),
    )
    alts = [pos, pos, pos.map(lambda r: -r)]
    if zero:
        alts.append(st.just(0.0))
    return st.one_of(*alts).map(float)


@st.composite
def times(draw, lo=1, hi=9998, leap=True):
    """Stored time fields the specification allows."""
    if hi - lo < 10:
        year = draw(st.integers(lo, hi))
    else:
        year = draw(st.one_of(st.integers(lo, hi), st.integers(max(lo, 1960), min(hi, 2060)), st.sampled_from([y for y in (1900, 1970, 1999, 2000, 2012, 2016, 2020, 2024, 2100) if lo <= y <= hi])))
    dmax = 366 if refms3.is_leap(year) else 365
    doy = draw(st.one_of(st.integers(1, dmax), st.sampled_from([1, 31, 32, 59, 60, 61, 365, dmax])))
    t = dict(year=year, doy=doy, hour=draw(st.one_of(st.integers(0, 23), st.sampled_from([0, 23]))),
             minute=draw(st.one_of(st.integers(0, 59), st.sampled_from([0, 59]))),
             second=draw(st.one_of(st.integers(0, 59), st.sampled_from([0, 59]))),
             ns=draw(st.one_of(st.just(0), st.integers(0, 999999999), st.integers(0, 999999).map(lambda u: u * 1000), st.sampled_from([1, 999, 1000, 999999999, 999999000]))))
    if leap and draw(st.integers(0, 11)) == 0:
        t["second"] = 60
        if draw(st.booleans()):
            t.update(hour=23, minute=59)
    return t


BUF_SIZES = [4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 131072, 131073]
@st.composite
def repeats(draw, recs):
    """Now and then a record twice, next to itself or further on."""
    recs = list(draw(recs))
    if recs and draw(st.integers(0, 3)) == 0:
        k = draw(st.integers(0, len(recs) - 1))
        recs.insert(draw(st.sampled_from([k, k, len(recs)])), dict(recs[k]))
    return recs


BITSIZE = {1: 16, 3: 32, 4: 32, 5: 64}


def _bits(enc):
    from .props.c04 import bit_values
    if enc in (4, 5):
        # numbers only: a not-a-number need not keep its payload bits
        from .props.c04 import isnan_bits
        return bit_values(enc).map(lambda b: 0 if isnan_bits(b, enc) else b)
    return bit_values(enc)


@st.composite
def payloads(draw, kinds=("prim", "prim", "steim", "raw", "none"), big=True):
    k = draw(st.sampled_from(kinds))
    if k == "prim":
        enc = draw(st.sampled_from([1, 3, 4, 5]))
        reps = [1] * 9 + [3] * 3 + [50] * 3 + [300]
        if big:
            reps += [2000] * 3
        return {"kind": k, "enc": enc, "bits": draw(st.lists(_bits(enc), min_size=1, max_size=12)), "rep": draw(st.sampled_from(reps))}
    if k == "steim":
        enc = draw(st.sampled_from([10, 11]))
        return {"kind": k, "enc": enc, "series": draw(gen.recipes(widths=[1, 4, 5, 8, 15, 16, 24], fold=("clip",), max_list=30, max_seg=250,
                                                                   rng=(-(2**27), 2**27 - 1)))}
    if k == "raw":
        if big and draw(st.integers(0, 2)) == 0:
            # sizes around those of buffers
            return {"kind": k, "enc": draw(st.sampled_from([0, 19, 100])), "hex": draw(st.sampled_from(["5a", "00", "4d"])), "rep": draw(st.one_of(st.sampled_from(BUF_SIZES), st.integers(1000, 140000))), "n": 0}
        return {"kind": k, "enc": draw(st.sampled_from([0, 0, 2, 16, 19, 30, 99, 100, 100, 254, 255])),
                "hex": draw(st.binary(max_size=40).map(bytes.hex)), "rep": draw(st.sampled_from([1, 1, 1, 7, 3000] if big else [1, 7])),
                "n": draw(st.integers(0, 200))}
    return {"kind": "none", "enc": draw(st.sampled_from([0, 3, 11, 100]))}


def expand_payload(p):
    """(encoding, count, bytes, samples or None)."""
    k = p["kind"]
    if k == "prim":
        bits = p["bits"] * p["rep"]
        size = BITSIZE[p["enc"]] // 8
        data = b"".join(b.to_bytes(size, "little") for b in bits)
        code = {1: "h", 3: "i", 4: "f", 5: "d"}[p["enc"]]
        return p["enc"], len(bits), data, list(struct.unpack(f"<{len(bits)}{code}", data))
    if k == "steim":
        vals = gen.series(p["series"])
        return p["enc"], len(vals), refsteim.greedy(p["enc"] - 9, vals), vals
    if k == "raw":
        data = bytes.fromhex(p["hex"]) * p["rep"]
        return p["enc"], p["n"], data, None
    return p["enc"], 0, b"", []


@st.composite
def records(draw, kinds=("prim", "prim", "steim", "raw", "none"), big=True, ids=None, eh=None, leap=True, zero_rate=True, years=(1, 9998)):
    r = {"flags": draw(st.one_of(st.sampled_from([0, 1, 2, 4, 8, 255]), st.integers(0, 255))),
         "pub": draw(st.one_of(st.sampled_from([0, 1, 2, 255]), st.integers(0, 255))),
         "rate": draw(rates(zero_rate)), "id": draw(ids if ids is not None else idents()),
         "eh": draw(eh if eh is not None else eh_texts()), "payload": draw(payloads(kinds, big))}
    r.update(draw(times(years[0], years[1], leap)))
    return r


def to_bytes(r, crc=None):
    enc, n, data, _v = expand_payload(r["payload"])
    h = {k: r[k] for k in ("flags", "ns", "year", "doy", "hour", "minute", "second", "rate", "pub")}
    h["enc"], h["n"] = enc, n
    return refms3.build(h, r["id"].encode("utf-8"), r["eh"].encode("utf-8"), data, crc)


def start_us(r):
    return refms3.instant_ns(r["year"], r["doy"], r["hour"], r["minute"], r["second"], r["ns"]) // 1000


def same_header(hdr, r, enc, n):
    """The library header exposes exactly the values of the record."""
    got = (hdr.flags, hdr.nanosecond, hdr.year, hdr.dayOfYear, hdr.hour, hdr.minute, hdr.second, hdr.encoding,
           float(hdr.sampleRatePeriod), hdr.numSamples, hdr.publicationVersion)
    want = (r["flags"], r["ns"], r["year"], r["doy"], r["hour"], r["minute"], r["second"], enc, float(r["rate"]), n, r["pub"])
    names = ("flags", "nanosecond", "year", "day of year", "hour", "minute", "second", "encoding", "rate/period", "sample count", "publication version")
    return [f"{a}: {g!r}, should be {w!r}" for a, g, w in zip(names, got, want) if g != w]


def eh_value(text):
    return json.loads(text) if text else {}


def values_equal(got, want, enc):
    """Bit-exact for floats (numbers), exact for integers."""
    import numpy as np
    if len(got) != len(want):
        return f"{len(got)} samples, should be {len(want)}"
    if enc in (4, 5):
        g = np.asarray(got, dtype=np.float32 if enc == 4 else np.float64)
        w = np.asarray(want, dtype=g.dtype)
        bad = (g.view(np.uint32 if enc == 4 else np.uint64) != w.view(np.uint32 if enc == 4 else np.uint64))
        if bad.any():
            k = int(bad.argmax())
            return f"sample {k} is {got[k]!r}, should be {want[k]!r}"
        return None
    g = [int(x) for x in got]
    if g != list(want):
        k = next(i for i in range(len(want)) if g[i] != want[i])
        return f"sample {k} is {g[k]}, should be {want[k]}"
    return None
