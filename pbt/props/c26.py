"""C26: the source identifier command explains identifiers, codes and rates."""
import re

from hypothesis import strategies as st

from .. import bands, cli, sids
from ..core import Sub, need

RULE = ("command lines with identifiers of all four levels, known and unknown band and source codes, listings, rates and periods, in several spellings and combinations; "
        "non-trivial = an identifier, code, listing or rate was explained")

SOURCES = {"H": "High Gain Seismometer", "L": "Low Gain Seismometer", "M": "Mass Position Seismometer", "N": "Accelerometer", "P": "Geophone", "A": "Tilt Meter",
           "B": "Creep Meter", "C": "Calibration Input", "D": "Pressure", "E": "Electronic Test Point", "F": "Magnetometer", "I": "Humidity", "J": "Rotational Sensor",
           "K": "Temperature", "O": "Water Current", "G": "Gravimeter", "Q": "Electric Potential", "R": "Rainfall", "S": "Linear Strain", "T": "Tide", "U": "Bolometer",
           "V": "Volumetric Strain", "W": "Wind", "X": "Derived or generated channel", "Y": "Non-specific instruments", "Z": "Synthesized Beams"}
# words of the long explanation, for the codes that have one
WORDS = {"H": "velocity", "L": "velocity", "M": "velocity", "N": "acceleration", "P": "displacement", "A": "tilt from the horizontal", "B": "sides of a fault", "C": "Usually only used for",
         "D": "barometer", "E": "circuitry", "F": "magnetic field", "I": "humidity", "J": "rotations", "K": "temperature", "O": "velocity of water", "G": "gravitational field",
         "Q": "Electric Potential between", "R": "rainfall", "S": "Dip/Azimuth", "T": "depth of water", "U": "cloud", "W": "wind vector", "X": "derived from", "Y": "not specifically",
         "Z": "forming beams"}
TYPES = dict(bands.TYPES, P="0.1 to 1 day", T="1 to 10 days", Q="Greater than 10 days", A="Administrative", O="Opaque")
PTQ = {"P": [0.1, 1], "T": [1, 10], "Q": [10]}
ALL_BANDS = "JFGDCESHBMLVUWRPTQIAO"


def band_text(code, text, where):
    """text describes the band code."""
    if code not in ALL_BANDS or code == "":
        return
    need(TYPES.get(code, "").lower() in text.lower(), "%s: band %s described as %r", where, code, text)
    if code == "B":
        need("high broadband" not in text.lower(), "%s: band B described as %r", where, text)
    if code in bands.NUMBERS:
        want = sorted(bands.NUMBERS[code] + PTQ.get(code, []) + ([10] if code in bands.LONG | bands.SHORT else []))
        need(sorted(bands.numbers(text)) == want, "%s: band %s described as %r", where, code, text)
    if code in bands.LONG | bands.SHORT:
        resp = text[text.rindex("response"):] if "response" in text else ""
        need(("<" in resp) == (code in bands.SHORT) and "10" in resp, "%s: band %s described as %r", where, code, text)


def source_text(code, text, where):
    if code in SOURCES:
        need(SOURCES[code] in text, "%s: source %s described as %r", where, code, text)
    else:
        need(not any(x in text for x in SOURCES.values()), "%s: source %s described as %r", where, code, text)


def found(lines, label, code):
    """What follows the code on the lines of a label."""
    out = []
    for x in lines:
        m = re.match(r"\s*" + label + r": ?" + re.escape(code) + r"(?:\s+-\s+(.*)|\s*)$", x)
        if m:
            out.append(m[1] or "")
    return out


FLAGS = st.lists(st.sampled_from(["-v", "--verbose"]), max_size=1)


@st.composite
def cases(draw):
    level = st.sampled_from([1, 2, 3, 6, 6, 6, 6])
    ids = draw(st.lists(st.builds(lambda c, k: c[:k], sids.codes6, level), max_size=4))
    known_b = st.sampled_from(list(ALL_BANDS))
    b = draw(st.one_of(st.none(), st.none(), st.lists(st.lists(st.one_of(known_b, known_b, st.sampled_from("KNXYZ019")), min_size=1, max_size=4).map("".join), min_size=1, max_size=4)))
    s = draw(st.one_of(st.none(), st.none(), st.lists(st.one_of(st.sampled_from(sorted(SOURCES)), st.sampled_from(sorted(SOURCES)), sids.sources.filter(lambda x: not x.startswith("-"))), min_size=1, max_size=4)))
    rate = st.one_of(st.floats(-7, 5).map(lambda x: 10.0**x), st.sampled_from([float(x) for x in bands.BOUNDS] + [0.5, 1.5, 20.0, 100.0, 40.0, 87.0, 200.0]), st.integers(1, 20000).map(float))
    sps = draw(st.one_of(st.none(), st.none(), st.just(0.0), rate, rate.map(lambda x: -x), st.integers(-100000, 20000).map(float)))
    return {"ids": ids, "b": b, "s": s, "sps": sps, "int": draw(st.booleans()), "allb": draw(st.sampled_from([0, 0, 0, 1])), "alls": draw(st.sampled_from([0, 0, 0, 1])),
            "short": draw(st.booleans()), "order": draw(st.permutations(range(5))), "first": draw(st.booleans()), "v": draw(FLAGS)}


def argv_of(c):
    parts = []
    if c["b"] is not None:
        parts.append(["-b" if c["short"] else "--band"] + c["b"])
    if c["s"] is not None:
        parts.append(["-s" if c["short"] else "--source"] + c["s"])
    if c["sps"] is not None:
        x = c["sps"]
        t = str(int(x)) if c["int"] and x == int(x) else repr(x)
        parts.append([f"--sps={t}"] if "e" in t else ["--sps", t])
    if c["allb"]:
        parts.append(["--allbands"])
    if c["alls"]:
        parts.append(["--allsources"])
    parts = [parts[k] for k in c["order"] if k < len(parts)] + [c["v"]]
    ids = [sids.text(*x) for x in c["ids"]]
    flat = [x for p in parts for x in p]
    if c["first"]:
        return ids + flat
    return flat + (["--"] if ids else []) + ids


def check(c):
    argv = argv_of(c)
    res = cli.run("fdsnsourceid", argv)
    if not (c["ids"] or c["b"] is not None or c["s"] is not None or c["sps"] is not None or c["allb"] or c["alls"]):
        need(not res.ok, "nothing asked and nothing failed")
        return False, ["nothing"]
    need(res.ok, "command failed: %s %s", res.what, res.err[-200:])
    lines = res.out.split("\n")
    heads = [k for k, x in enumerate(lines) if re.match(r"\s*FDSN:", x)]
    need([lines[k].strip() for k in heads] == [sids.text(*x) for x in c["ids"]], "identifiers shown %r, given %r", [lines[k] for k in heads], c["ids"])
    pre = lines[:heads[0]] if heads else lines
    labels = []
    for a, b, codes in zip(heads, heads[1:] + [len(lines)], c["ids"]):
        block = lines[a + 1:b]
        where = sids.text(*codes)
        labels.append(f"level{len(codes)}")
        for label, code in zip(["Net", "Sta", "Loc"], codes):
            need(found(block, label, code) == [""], "%s: %s should be %r in %r", where, label, code, block)
        for label, have in (("Sta", len(codes) > 1), ("Loc", len(codes) > 2), ("Band", len(codes) > 3), ("Source", len(codes) > 3), ("Subsource", len(codes) > 3)):
            n = sum(bool(re.match(rf"\s*{label}:", x)) for x in block)
            need(n == int(have), "%s: %d %s lines in %r", where, n, label, block)
        if len(codes) == 6:
            band, source, sub = codes[3:]
            t = found(block, "Band", band)
            need(len(t) == 1, "%s: band not shown in %r", where, block)
            band_text(band, t[0], where)
            t = found(block, "Source", source)
            need(len(t) == 1, "%s: source not shown in %r", where, block)
            source_text(source, t[0], where)
            need(found(block, "Subsource", sub) == [""], "%s: subsource not shown in %r", where, block)
    # bands
    given = [x for t in c["b"] or [] for x in t]
    want = given + (list(ALL_BANDS) if c["allb"] else [])
    for code in set(want):
        if code in ALL_BANDS:
            t = found(pre, "Band", code)
            need(len(t) == want.count(code), "band %s explained %d times, should be %d", code, len(t), want.count(code))
            for x in t:
                band_text(code, x, "band")
    # sources
    given = list(c["s"] or [])
    want = given + (sorted(SOURCES) if c["alls"] else [])
    for code in set(want):
        if code in SOURCES:
            t = found(pre, "Source", code)
            need(len(t) == want.count(code), "source %s explained %d times, should be %d", code, len(t), want.count(code))
            for x in t:
                source_text(code, x, "source")
    for code in set(given) - set(SOURCES):
        for x in found(pre, "Source", code):
            source_text(code, x, "source")
    for code in set(given):
        if code in WORDS:
            at = [k for k, x in enumerate(pre) if re.match(r"\s*Source: " + code + " ", x)]
            need(any(WORDS[code].lower() in "\n".join(pre[k + 1:k + 4]).lower() for k in at), "source %s: long description missing", code)
    # rate
    rates = [x for x in pre if re.match(r"\s*Rate:", x)]
    if c["sps"] is not None:
        x = c["sps"]
        if x == 0:
            ok = [{"I"}]
        else:
            r = x if x > 0 else -1.0 / x
            ok = []
            for near in (r, r * (1 + 1e-14), r * (1 - 1e-14)) if x < 0 and x != int(x) else (r,):
                for k in bands.allowed(near, 0.01):
                    for m in bands.allowed(near, 10):
                        if (k == m) == (k not in bands.LONG):
                            ok.append({k, m})
        got = []
        for t in rates:
            m = re.match(r"\s*Rate: (\S+) - (\S) - (.*)$", t)
            need(m is not None and float(m[1]) == x, "rate line %r, asked for %r", t, x)
            got.append(m[2])
            band_text(m[2], m[3], "rate")
        need(len(set(got)) == len(got) and set(got) in ok, "rate %r has bands %r, should be one of %r", x, got, ok)
        labels.append("rate:%s" % "".join(sorted(got)))
    else:
        need(not rates, "rate explained, none given")
    return True, labels + (["allb"] if c["allb"] else []) + (["alls"] if c["alls"] else []) + (["b"] if c["b"] else []) + (["s"] if c["s"] else [])


def directed():
    base = dict(ids=[], b=None, s=None, sps=None, int=False, allb=0, alls=0, short=True, order=[0, 1, 2, 3, 4], first=True, v=[])
    out = [dict(base, allb=1), dict(base, alls=1), dict(base, b=[ALL_BANDS]), dict(base, s=sorted(SOURCES))]
    out += [dict(base, b=[x]) for x in ALL_BANDS] + [dict(base, s=[x]) for x in SOURCES]
    out += [dict(base, sps=float(x)) for x in bands.BOUNDS] + [dict(base, sps=-1.0 / x) for x in bands.BOUNDS]
    full = ["CO", "BIRD", "00", "H", "H", "Z"]
    out += [dict(base, ids=[full[:k]]) for k in (1, 2, 3, 6)]
    out += [dict(base, ids=[full[:3] + [b, s, "Z"]]) for b in ALL_BANDS + "X" for s in list(SOURCES) + ["ABC", "1"]]
    out += [dict(base, ids=[["CO", "BIRD", "", "", "H", ""]]), dict(base, ids=[full, full, full[:1]], first=False)]
    return out


SUBS = [Sub("command", cases(), check, 3000, 100000, directed=directed)]
