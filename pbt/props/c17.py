"""C17: source identifiers convert between their forms without loss."""
from hypothesis import strategies as st

from simplemseed import (FDSNSourceId, LocationSourceId, MSeed3Header, MSeed3Record, NetworkSourceId, NslcId,
                         StationSourceId, bandCodeForRate)
from simplemseed.fdsnsourceid import FDSNSourceIdException

from .. import sids
from ..core import Sub, need

RULE = ("all four levels built from legal codes (empty location, band, subsource; long source codes; temporary networks and years), "
        "arbitrary text for refusals; non-trivial = some code is empty, longer than the older limits, or a temporary network")

ATTRS = ["networkCode", "stationCode", "locationCode", "bandCode", "sourceCode", "subsourceCode"]


def codes_of(sid):
    return [getattr(sid, a) for a in ATTRS if hasattr(sid, a)]


LEVEL = {1: NetworkSourceId, 2: StationSourceId, 3: LocationSourceId, 6: FDSNSourceId}


def same(sid, codes, where):
    need(type(sid) is LEVEL[len(codes)], "%s: is a %s, should be %s", where, type(sid).__name__, LEVEL[len(codes)].__name__)
    need(codes_of(sid) == list(codes), "%s: codes %r, should be %r", where, codes_of(sid), codes)
    need(str(sid) == sids.text(*codes), "%s: prints %r, should be %r", where, str(sid), sids.text(*codes))
    need(sid == LEVEL[len(codes)](*codes), "%s: not equal to the same codes", where)
    need(not (sid != LEVEL[len(codes)](*codes)), "%s: unequal to the same codes", where)


def interesting(c):
    return ("" in c[2:]) or len(c[0]) != 2 or len(c[4]) != 1 or len(c[5]) != 1 or sids.seed_temp(c[0])


def check_forms(case):
    c = case["codes"]
    objs = {}
    for n in (1, 2, 3, 6):
        part = c[:n]
        t = sids.text(*part)
        sid = FDSNSourceId.parse(t)
        same(sid, part, f"parse({t})")
        same(LEVEL[n](*part), part, f"{LEVEL[n].__name__} from codes")
        objs[n] = sid
        if n > 1:
            same(LEVEL[n](NetworkSourceId(c[0]), *part[1:]), part, f"{LEVEL[n].__name__} from network id")
    for n, sid in objs.items():
        before = str(sid)
        if n > 3:
            same(sid.locationSourceId(), c[:3], "locationSourceId()")
        if n > 2:
            same(sid.stationSourceId(), c[:2], "stationSourceId()")
        if n > 1:
            same(sid.networkSourceId(), c[:1], "networkSourceId()")
        need(str(sid) == before, "deriving changed %s to %s", before, sid)
    same(objs[1].createStationSourceId(c[1]), c[:2], "createStationSourceId()")
    same(objs[2].createLocationSourceId(c[2]), c[:3], "createLocationSourceId()")
    same(objs[3].createFDSNSourceId(*c[3:]), c, "createFDSNSourceId()")
    if c[2] == "":
        same(LocationSourceId(c[0], c[1], None), c[:3], "location id with location None")
        same(FDSNSourceId(c[0], c[1], None, *c[3:]), c, "channel id with location None")
    # levels never equal one another, nor the text
    for n, a in objs.items():
        for m, b in objs.items():
            need((a == b) == (n == m), "%s == %s is %s", a, b, a == b)
        need(a != str(a), "%s equals its text", a)
    # a record carries the identifier, as an object or as text
    for ident in (objs[6], str(objs[6])):
        rec = MSeed3Record(MSeed3Header(), ident, [1, 2, 3])
        same(rec.parseIdentifier(), c, "record parseIdentifier()")
    # changing one id's codes leaves every other alone, also those made from it or from the same text
    made = {n: [sid] + [FDSNSourceId.parse(sids.text(*c[:n]))] for n, sid in objs.items()}
    derived = [objs[6].locationSourceId(), objs[6].stationSourceId(), objs[6].networkSourceId()]
    for n, (sid, _) in made.items():
        for a in ATTRS:
            if hasattr(sid, a):
                setattr(sid, a, getattr(sid, a) + "9")
        same(FDSNSourceId.parse(sids.text(*c[:n])), c[:n], "parse() after an id of the same text was changed")
    for n, (_, other) in made.items():
        same(other, c[:n], "another id of the same text after one was changed")
    for sid, n in zip(derived, (3, 2, 1)):
        same(sid, c[:n], "id made from another that was changed since")
    return interesting(c), [f"band {len(c[3])}", f"sub {min(len(c[5]), 2)}", f"loc {'empty' if c[2] == '' else 'set'}"]


def check_nslc(case):
    c = case["codes"]
    sid = FDSNSourceId(*c)
    before = str(sid)
    short = all(len(x) == 1 for x in c[3:])
    chan = "".join(c[3:]) if short else "_".join(c[3:])
    need(sid.shortChannelCode() == chan, "channel code %r, should be %r", sid.shortChannelCode(), chan)
    ns = sid.asNslc()
    got = [ns.networkCode, ns.stationCode, ns.locationCode, ns.channelCode]
    need(got == [c[0], c[1], c[2], chan], "asNslc() %r", got)
    need(str(ns) == "_".join(got), "NslcId prints %r", str(ns))
    need(ns == NslcId(*got) and not (ns != NslcId(*got)), "NslcId unequal to the same codes")
    other = list(got)
    k = case["which"] % 4
    other[k] = case["other"]
    need((ns == NslcId(*other)) == (got == other), "NslcId %r == %r is %s", got, other, ns == NslcId(*other))
    need(ns != str(ns), "NslcId equals its text")
    same(FDSNSourceId.fromNslc(*got), c, f"fromNslc({got})")
    long = "_".join(c[3:])
    same(FDSNSourceId.fromNslc(c[0], c[1], c[2], long), c, f"fromNslc of extended {long}")
    for sep in [".", "_", "/", " ", "||", case["sep"]]:
        if any(sep in x for x in got[:3]):
            continue
        t = sep.join(got)
        same(FDSNSourceId.parseNslc(t, sep=sep), c, f"parseNslc({t!r}, {sep!r})")
        if sep == ".":
            same(FDSNSourceId.parseNslc(t), c, f"parseNslc({t!r})")
        t = sep.join([c[0], c[1], c[2], long])
        same(FDSNSourceId.parseNslc(t, sep), c, f"parseNslc({t!r}, {sep!r})")
    need(str(sid) == before, "conversion changed %s to %s", before, sid)
    return interesting(c), ["short" if short else "extended"]


def check_year(case):
    c, y = case["codes"], case["year"]
    temp = sids.seed_temp(c[0])
    good = y is None or (isinstance(y, str) and len(y) == 4) or (isinstance(y, int) and 1900 <= y <= 2100)
    wantnet = c[0] + str(y) if temp and y is not None else c[0]
    want = [wantnet] + c[1:]
    chan = "_".join(c[3:])
    makers = [lambda: NetworkSourceId(c[0], y), lambda: FDSNSourceId.fromNslc(c[0], c[1], c[2], chan, y),
              lambda: FDSNSourceId.fromNslc(c[0], c[1], c[2], chan, startYear=y),
              lambda: FDSNSourceId.parseNslc(".".join([c[0], c[1], c[2], chan]), startYear=y)]
    for k, make in enumerate(makers):
        try:
            sid = make()
        except FDSNSourceIdException:
            need(temp and not good, "%r with year %r refused", c[0], y)
            continue
        need(good or not temp or 1880 <= int(y) < 1900, "%r with year %r accepted: %s", c[0], y, sid)
        same(sid, want if k else want[:1], f"maker {k} for {c[0]!r} with year {y!r}")
    return temp and y is not None, ["temporary" if temp else "permanent", type(y).__name__, "good" if good else "bad"]


def check_equality(case):
    """Equal exactly when the codes are."""
    for n in (1, 2, 3, 6):
        a, b = case["a"][:n], case["b"][:n]
        x, y = LEVEL[n](*a), LEVEL[n](*b)
        need((x == y) == (a == b), "%s == %s is %s", x, y, x == y)
        need((x != y) == (a != b), "%s != %s is %s", x, y, x != y)
        need((str(x) == str(y)) == (a == b), "%s and %s print alike: %r %r", x, y, a, b)
    return case["a"] != case["b"], [f"differ in {sum(p != q for p, q in zip(case['a'], case['b']))}"]


def check_refused(case):
    t = case["text"]
    ok = t.startswith("FDSN:") and t[5:].count("_") in (0, 1, 2, 5)
    try:
        sid = FDSNSourceId.parse(t)
    except FDSNSourceIdException:
        need(not ok, "%r refused", t)
        return True, ["refused"]
    need(ok, "%r accepted as %r", t, codes_of(sid))
    need(codes_of(sid) == t[5:].split("_"), "%r gives codes %r", t, codes_of(sid))
    need(str(sid) == t, "%r prints %r", t, str(sid))
    return False, ["accepted"]


def check_nslc_refused(case):
    """Wrong number of parts in the older form."""
    parts, sep = case["parts"], case["sep"]
    t = sep.join(parts)
    try:
        sid = FDSNSourceId.parseNslc(t, sep=sep)
    except FDSNSourceIdException:
        chan = parts[3] if len(parts) == 4 else None
        need(chan is None or not chan_ok(chan), "%r refused", t)
        return True, ["refused"]
    items = t.split(sep)
    need(len(items) == 4, "%r accepted as %s", t, sid)
    want = chan_ok(items[3])
    need(want is not None, "%r accepted as %r", t, codes_of(sid))
    need(codes_of(sid) == items[:3] + want, "%r gives %r, should be %r", t, codes_of(sid), items[:3] + want)
    return len(parts) != 4, ["accepted"]


def chan_ok(chan):
    items = chan.split("_")
    if len(items) == 3 and len(items[0]) <= 1 and items[1] and all(c in sids.AN for c in "".join(items)):
        return items
    if len(chan) == 3 and "_" not in chan:
        return list(chan)
    return None


def check_unknown(case):
    kw = dict(case["kw"])
    rate, resp = case["rate"], case["resp"]
    sid = FDSNSourceId.createUnknown(rate, response_lb=resp, **kw)
    want = [kw.get("networkCode") or "XX", kw.get("stationCode") or "ABC", kw.get("locationCode", ""), bandCodeForRate(rate, resp),
            kw.get("sourceCode", "H"), kw.get("subsourceCode", "U")]
    same(sid, want, f"createUnknown({rate}, {kw})")
    if not kw and resp is None:
        same(FDSNSourceId.createUnknown(rate), want, f"createUnknown({rate})")
        if rate is None:
            same(FDSNSourceId.createUnknown(), want, "createUnknown()")
    ok = sid.validate()[0]
    need(ok is True, "%s is not valid: %s", sid, sid.validate())
    return bool(kw), [f"{len(kw)} given"]


codes = sids.codes6
years = st.one_of(st.none(), st.integers(1900, 2100), st.integers(1900, 2100).map(str), st.integers(0, 9999).map(lambda y: "%04d" % y), st.sampled_from([0, 1, 99, 999, 10000, 20240, -2024, "", "1", "94", "994", "19944", "02024"]))


@st.composite
def gen_pair(draw):
    a = draw(codes)
    b = list(a)
    for _ in range(draw(st.integers(0, 2))):
        k = draw(st.integers(0, 5))
        b[k] = draw([sids.nets, sids.stas, sids.locs, sids.bands, sids.sources, sids.subs][k])
    if draw(st.integers(0, 5)) == 0:
        # move characters over a boundary between neighbouring codes
        k = draw(st.integers(0, 4))
        if len(b[k]) > 1:
            b[k + 1] = b[k][-1] + b[k + 1]
            b[k] = b[k][:-1]
    if draw(st.integers(0, 7)) == 0:
        # in other letters, or with characters that are easily lost
        k = draw(st.integers(0, 5))
        b[k] = draw(st.sampled_from([b[k].lower(), b[k] + " ", " " + b[k], b[k].lstrip("0"), b[k] + "\n", b[k].replace("-", ""), b[k] + "-", "0" + b[k], b[k] + "\0"]))
    return dict(a=a, b=b)


@st.composite
def gen_text(draw):
    mode = draw(st.integers(0, 3))
    if mode == 0:
        return dict(text=draw(st.text(max_size=20)))
    n = draw(st.integers(0, 8))
    parts = [draw(st.text(sids.AND, max_size=4)) for _ in range(n)]
    pre = draw(st.sampled_from(["FDSN:", "FDSN:", "FDSN:", "fdsn:", "FDSN", "XFDSN:", "FDSN: ", " FDSN:", "", ":", "FDSN;", "FDSM:", "FDS:"]))
    return dict(text=pre + "_".join(parts))


@st.composite
def gen_nslc_parts(draw):
    n = draw(st.integers(0, 7))
    parts = [draw(st.text(sids.AN, max_size=3)) for _ in range(n)]
    if n >= 4 and draw(st.booleans()):
        parts[3] = draw(st.one_of(st.text(sids.AN, min_size=3, max_size=3), st.text(sids.AN + "_", max_size=6), st.sampled_from(["B_H_Z", "B_AA_", "_AA_Z", "__", "_H_", "BH_Z", "B_H", "B_H_Z_W", "BHZQ", "BH", "BB_H_Z", "B__Z"])))
    return dict(parts=parts, sep=draw(st.sampled_from([".", ".", "/", " "])))


@st.composite
def gen_unknown(draw):
    kw = {}
    for k, s in (("sourceCode", sids.sources), ("networkCode", st.one_of(st.just(""), sids.nets)), ("stationCode", st.one_of(st.just(""), sids.stas)),
                 ("locationCode", sids.locs), ("subsourceCode", sids.subs)):
        if draw(st.booleans()):
            kw[k] = draw(s)
    rate = draw(st.one_of(st.none(), st.sampled_from([0, 1, 20, 100, -10, 0.01, 500, 5000.0]), st.floats(1e-9, 1e6)))
    resp = draw(st.one_of(st.none(), st.sampled_from([0.01, -120, 1, 10])))
    return dict(kw=kw, rate=rate, resp=resp)


gen_codes = st.builds(lambda c: dict(codes=c), codes)
SUBS = [
    Sub("forms", gen_codes, check_forms, 4000, 80000),
    Sub("nslc", st.builds(lambda c, k, o, s: dict(codes=c, which=k, other=o, sep=s), codes, st.integers(0, 3), st.text(sids.AN, max_size=3),
                          st.sampled_from([",", ":", "~", "__"])), check_nslc, 4000, 80000),
    Sub("startyear", st.builds(lambda c, y: dict(codes=c, year=y), codes, years), check_year, 4000, 80000),
    Sub("equality", gen_pair(), check_equality, 4000, 80000),
    Sub("refusal", gen_text(), check_refused, 3000, 60000),
    Sub("nslc-refusal", gen_nslc_parts(), check_nslc_refused, 3000, 60000),
    Sub("unknown", gen_unknown(), check_unknown, 2000, 40000),
]
