"""Generators of miniSEED2 records as data."""
import struct

from hypothesis import strategies as st

from . import gen, gen3, refms2, refms3, refsteim

UP = gen3.UP
CHAN_POOL = ["HHZ", "HHN", "BHE", "LOG", "EH1", "HNZ"]


def codes():
    return st.one_of(
        st.fixed_dictionaries({"net": st.sampled_from(["XX", "CO", "IU"]), "sta": st.sampled_from(["BIRD", "JSC", "ANMO", "A"]), "loc": st.sampled_from(["", "00", "10"]), "chan": st.sampled_from(CHAN_POOL)}),
        st.fixed_dictionaries({"net": gen3.code(1, 2), "sta": gen3.code(1, 5), "loc": st.one_of(st.just(""), gen3.code(1, 2, UP + "-")), "chan": gen3.code(3, 3)}),
        *[st.fixed_dictionaries({"net": gen3.code(1, 2, al), "sta": gen3.code(1, 5, al), "loc": st.one_of(st.just(""), gen3.code(1, 2, al)), "chan": gen3.code(3, 3, al)})
          for al in (UP + "abcxyz",)],
        # fields left blank
        st.fixed_dictionaries({"net": st.sampled_from(["", "", "XX"]), "sta": st.sampled_from(["", "", "JSC"]), "loc": st.sampled_from(["", "00"]), "chan": st.sampled_from(CHAN_POOL)}),
    )


def f32pos():
    def f32(x):
        return struct.unpack("<f", struct.pack("<f", x))[0]
    return st.one_of(st.sampled_from([1.0, 20.0, 100.0, 99.99, 0.1, 40.000002, 1e-5, 16777217.0, 0.0333333]), st.floats(1e-6, 1e6)).map(f32).filter(lambda v: v > 0)


def nominal():
    """Factor and multiplier pairs that name a rate."""
    s = st.one_of(st.sampled_from([1, 2, 10, 20, 100, 32767, 200, 3, 7]), st.integers(1, 32767))
    sg = st.sampled_from([1, 1, -1])
    return st.tuples(st.builds(lambda a, b: a * b, s, sg), st.builds(lambda a, b: a * b, st.one_of(st.just(1), s), sg)).map(list)


@st.composite
def times2(draw, leap=True):
    # the year tells the byte order, and its first byte differs from 2048 on
    lo, hi = draw(st.sampled_from([(1801, 2053)] * 5 + [(2047, 2049), (2048, 2054), (1801, 1803)]))
    t = draw(gen3.times(lo, hi, leap=leap))
    t["tenth"] = draw(st.one_of(st.integers(0, 9999), st.sampled_from([0, 1, 9999, 5000])))
    del t["ns"]
    return t


def unknown_blockettes():
    return st.builds(lambda n, h: {"num": n, "hex": h}, st.sampled_from([200, 201, 300, 400, 405, 500, 2000, 999, 1002, 65535]),
                     st.one_of(st.binary(min_size=1, max_size=16), st.binary(min_size=4, max_size=60)).map(lambda b: (b + bytes(-len(b) % 4)).hex()))


@st.composite
def payloads2(draw, kinds=("prim", "prim", "steim", "raw", "none"), small=False):
    k = draw(st.sampled_from(kinds))
    if k == "prim":
        enc = draw(st.sampled_from([1, 3, 4, 5]))
        return {"kind": k, "enc": enc, "bits": draw(st.lists(gen3._bits(enc), min_size=1, max_size=8)), "rep": draw(st.sampled_from([1, 1, 5] if small else [1] * 12 + [5] * 6 + [40] * 5 + [150, 400]))}
    if k == "steim":
        return {"kind": k, "enc": draw(st.sampled_from([10, 11])), "series": draw(gen.recipes(widths=[1, 4, 5, 8, 15, 16, 24], fold=("clip",), max_list=20, max_seg=120, rng=(-(2**27), 2**27 - 1)))}
    if k == "raw":
        return {"kind": k, "enc": draw(st.sampled_from([0, 0, 2, 16, 30, 99])), "hex": draw(st.binary(max_size=30).map(bytes.hex)), "n": draw(st.integers(1, 60))}
    return {"kind": "none", "enc": draw(st.sampled_from([0, 0, 3, 11, 4]))}


def expand2(p, order):
    """(encoding, count, bytes, values or None) in the word order of the record."""
    k = p["kind"]
    if k == "prim":
        enc, n, le, vals = gen3.expand_payload(p)
        if order:
            le = struct.pack(f">{n}{refms2.CODES[enc]}", *vals)
        return enc, n, le, vals
    if k == "steim":
        vals = gen.series(p["series"])
        return p["enc"], len(vals), refsteim.greedy(p["enc"] - 9, vals), vals
    if k == "raw":
        return p["enc"], p["n"], bytes.fromhex(p["hex"]), None
    return p["enc"], 0, b"", []


FLAGS = st.one_of(st.sampled_from([0, 0, 1, 2, 4, 8, 16, 32, 64, 128, 255]), st.integers(0, 255))


@st.composite
def records(draw, kinds=("prim", "prim", "steim", "raw", "none"), leap=True, small=False, mixed=True, unknown=True):
    r = draw(codes())
    r.update(draw(times2(leap)))
    r["seq"] = draw(st.one_of(st.integers(0, 999999).map(lambda n: "%06d" % n), st.integers(0, 99999).map(lambda n: "%6d" % n), st.sampled_from(["000001", "999999", "      ", "\0\0\0\0\0\0", "1     "])))
    r["q"] = draw(st.sampled_from("DDDRRQQMMEdrT0?"))
    f, m = draw(nominal())
    r["p"] = draw(payloads2(kinds, small))
    if r["p"]["kind"] in ("none", "raw") and draw(st.booleans()):
        f, m = draw(st.sampled_from([(0, 0), (0, 1), (0, 0)]))
    r["factor"], r["mult"] = f, m
    r["act"], r["io"], r["qual"] = draw(FLAGS), draw(FLAGS), draw(FLAGS)
    r["corr"] = draw(st.one_of(st.just(0), st.sampled_from([1, -1, 10000]), st.integers(-(2**31), 2**31 - 1)))
    r["o"] = draw(st.sampled_from("><"))
    order = draw(st.sampled_from([0, 1])) if mixed else (1 if r["o"] == ">" else 0)
    b1000 = {"num": 1000, "order": order}
    blk = [b1000]
    if draw(st.booleans()):
        blk.append({"num": 100, "rate": draw(f32pos()), "flags": draw(st.sampled_from([0, 0, 1]))})
    if draw(st.booleans()):
        blk.append({"num": 1001, "tq": draw(st.one_of(st.integers(0, 100), st.sampled_from([0, 1, 99, 100, 101, 128, 255]))), "us": draw(st.one_of(st.integers(0, 99), st.sampled_from([0, 1, 50, 99, 127]))), "fc": draw(st.integers(0, 255))})
    if unknown:
        blk += draw(st.lists(unknown_blockettes(), max_size=2)) if draw(st.integers(0, 2)) == 0 else []
    r["blk"] = draw(st.permutations(blk)) if draw(st.booleans()) else blk
    r["gaps"] = draw(st.lists(st.sampled_from([0, 0, 4, 8, 16]), max_size=len(blk))) if draw(st.integers(0, 3)) == 0 else []
    r["datagap"] = draw(st.sampled_from([0, 0, 0, 4, 8, 64]))
    r["nodataoff"] = draw(st.booleans())
    r["fill"] = draw(st.sampled_from([0, 0, 0, 0x20, 0xFF])) if r["p"]["kind"] != "steim" else 0
    enc, n, data, vals = expand2(r["p"], order)
    b1000["enc"] = enc
    r["n"] = n
    rate_ = refms2.nominal_rate(r["factor"], r["mult"])
    if rate_ and n / rate_ > 7 * 10**10:
        # its end would be in a year that cannot be named
        r["factor"], r["mult"] = 1, 1
    r["nodataoff"] = r["nodataoff"] and n == 0
    r["exp"] = draw(st.sampled_from([7, 8, 9, 9, 9, 10, 12, 13])) if not small else draw(st.sampled_from([8, 9, 9, 10]))
    if draw(st.integers(0, 25)) == 0:
        r["exp"] = draw(st.sampled_from([14, 15, 16, 17]))
    # the smallest length from there that fits
    b1000["exp"] = r["exp"]
    while True:
        try:
            refms2.build(r, data)
            break
        except refms2.Bad2:
            b1000["exp"] += 1
    r["exp"] = b1000["exp"]
    return r


def many():
    """Records of more samples than a signed 16 bit number holds, of every encoding."""
    out = []
    for k, n in enumerate((32767, 32768, 40000, 65535)):
        for p in ({"kind": "prim", "enc": 1, "bits": [k + 1], "rep": n}, {"kind": "prim", "enc": 5, "bits": [2**52 * k + 5], "rep": n},
                  {"kind": "steim", "enc": 11 - k % 2, "series": {"start": 5, "fold": "clip", "segs": [["alt", 4, n - 1, 1]]}}):
            order_ = (k + len(out)) % 2
            r = {"net": "XX", "sta": "BIRD", "loc": "", "chan": "BHZ", "year": 2016, "doy": 366, "hour": 23, "minute": 59, "second": 59, "tenth": 9999, "seq": "000001", "q": "D", "p": p, "factor": 20, "mult": 1,
                 "act": 0, "io": 0, "qual": 0, "corr": 0, "o": "<>"[(k + len(out)) // 2 % 2], "gaps": [], "datagap": 0, "nodataoff": False, "fill": 0}
            enc, got, data, _v = expand2(p, order_)
            assert got == n
            r["n"] = n
            r["exp"] = (len(data) + 64 + 127).bit_length()
            r["blk"] = [{"num": 1000, "order": order_, "enc": enc, "exp": r["exp"]}]
            out.append(r)
    return out


def order(r):
    return next(b["order"] for b in r["blk"] if b["num"] == 1000)


def to_bytes(r):
    return refms2.build(r, expand2(r["p"], order(r))[2])


def values(r):
    return expand2(r["p"], order(r))[3]


def us1001(r):
    return next((b["us"] for b in r["blk"] if b["num"] == 1001), 0)


def start_us(r):
    return refms2.instant_us(r) + us1001(r)


def in_leap(r):
    """Its start is within a leap second."""
    return r["second"] == 60 and r["tenth"] * 100 + us1001(r) < 10**6


def rate(r):
    """Exact rate by the definition."""
    from fractions import Fraction
    for b in r["blk"]:
        if b["num"] == 100:
            return Fraction(b["rate"])
    return refms2.nominal_rate(r["factor"], r["mult"])


def sid(r):
    return refms2.sid(r["net"], r["sta"], r["loc"], r["chan"])


def seqnum(r):
    t = r["seq"].strip(" \0")
    return int(t) if t else 0


def header_diffs(h, r):
    """The library header exposes what the record's bytes hold."""
    got = dict(network=h.network, station=h.station, location=h.location, channel=h.channel, dataquality=h.dataquality, numSamples=h.numSamples,
               sequence_number=h.sequence_number, actFlag=h.actFlag, ioFlag=h.ioFlag, qualFlag=h.qualFlag, timeCorr=h.timeCorr,
               encoding=h.encoding, recordLength=h.recordLength, sampRateFactor=h.sampRateFactor, sampRateMult=h.sampRateMult)
    b = next(b for b in r["blk"] if b["num"] == 1000)
    want = dict(network=r["net"], station=r["sta"], location=r["loc"], channel=r["chan"], dataquality=r["q"], numSamples=r["n"], sequence_number=seqnum(r),
                actFlag=r["act"], ioFlag=r["io"], qualFlag=r["qual"], timeCorr=r["corr"], encoding=b["enc"], recordLength=2 ** b["exp"],
                sampRateFactor=r["factor"], sampRateMult=r["mult"])
    out = [f"{k}: {got[k]!r}, should be {want[k]!r}" for k in want if got[k] != want[k]]
    if b["enc"] in (1, 3, 4, 5) and h.byteorder != b["order"]:
        out.append(f"byteorder {h.byteorder!r}, should be {b['order']}")
    if refms3.dt_us(h.starttime) != start_us(r):
        out.append(f"starttime {h.starttime} is {refms3.dt_us(h.starttime) - start_us(r)} microseconds off")
    wr = rate(r)
    from fractions import Fraction
    if abs(Fraction(h.sampleRate) - wr) > wr / 10**12:
        out.append(f"sampleRate {h.sampleRate!r}, should be {float(wr)!r}")
    return out


def blockette_diffs(blks, r):
    """Library blockettes against the record's, contents only."""
    if len(blks) != len(r["blk"]):
        return [f"{len(blks)} blockettes, should be {len(r['blk'])}"]
    out = []
    for k, (g, w) in enumerate(zip(blks, r["blk"])):
        if g.blocketteNum != w["num"]:
            out.append(f"blockette {k} is {g.blocketteNum}, should be {w['num']}")
        elif w["num"] == 1000:
            if (g.encoding, g.byteorder, g.recLength) != (w["enc"], w["order"], w["exp"]):
                out.append(f"blockette 1000 {g!r}, should be {w!r}")
        elif w["num"] == 100:
            if g.sampleRate != w["rate"]:
                out.append(f"blockette 100 rate {g.sampleRate!r}, should be {w['rate']!r}")
        elif w["num"] == 1001:
            if (g.timeQuality, g.microseconds, g.frameCount) != (w["tq"], w["us"], w["fc"]):
                out.append(f"blockette 1001 {g!r}, should be {w!r}")
        else:
            raw = bytes.fromhex(w["hex"])
            if bytes(g.rawBytes[4:4 + len(raw)]) != raw or any(x != r["fill"] for x in g.rawBytes[4 + len(raw):]):
                out.append(f"blockette {w['num']} {bytes(g.rawBytes)!r}, should hold {raw!r}")
    return out
