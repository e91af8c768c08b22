"""C18: source identifier validation accepts exactly what the rules allow."""
import itertools

from hypothesis import strategies as st

from simplemseed import FDSNSourceId, LocationSourceId, NetworkSourceId, StationSourceId
from simplemseed.miniseed import MiniseedException  # noqa: F401  (package import check)

from .. import consts, sids
from ..core import Sub, need

RULE = ("each code legal or damaged (length, case, other scripts' digits and letters, whitespace, newline, separator), alone or in several parts; "
        "non-trivial = at least one code is damaged or at a limit")


def verdict(sid, want, what):
    r = sid.validate()
    need(isinstance(r, tuple) and len(r) == 2, "%s: validate() gives %r", what, r)
    need(r[0] is True or r[0] is False, "%s: validate() gives %r", what, r)
    need(r[0] == want, "%s: validate() says %r, should be %s", what, r, want)
    if not want:
        need(isinstance(r[1], str) and r[1].strip() != "", "%s: no reason in %r", what, r)
    need(sid.validate() == r, "%s: second validate() differs", what)


def check_validate(case):
    c = case["codes"]
    net, sta, loc = sids.valid_net(c[0]), sids.valid_sta(c[1]), sids.valid_loc(c[2])
    chan = sids.valid_source(c[4]) and sids.valid_sub(c[5])
    n = NetworkSourceId(c[0])
    verdict(n, net, f"network {c[:1]!r}")
    verdict(StationSourceId(c[0], c[1]), net and sta, f"station {c[:2]!r}")
    verdict(StationSourceId(n, c[1]), net and sta, f"station {c[:2]!r}")
    verdict(LocationSourceId(*c[:3]), net and sta and loc, f"location {c[:3]!r}")
    verdict(FDSNSourceId(*c), net and sta and loc and chan, f"channel {c!r}")
    bad = [not net, not sta, not loc, not sids.valid_source(c[4]), not sids.valid_sub(c[5])]
    if not any("_" in x for x in c):
        verdict(FDSNSourceId.parse(sids.text(*c)), not any(bad), f"parsed {c!r}")
        verdict(FDSNSourceId.parse(sids.text(*c)).networkSourceId(), net, f"network of parsed {c!r}")
    return any(bad) or any(len(x) == 8 for x in c[:3]), [f"{sum(bad)} bad"] + [f"bad {k}" for k, b in zip(("net", "sta", "loc", "source", "subsource"), bad) if b]


def check_temporary(case):
    c = case["net"]
    n = NetworkSourceId(c)
    seed, hist, conv = sids.seed_temp(c), sids.historical(c), sids.convention(c)
    need(n.isSeedTempNet() is seed, "isSeedTempNet(%r) is %s", c, n.isSeedTempNet())
    need(n.isTempNetHistorical() is hist, "isTempNetHistorical(%r) is %s", c, n.isTempNetHistorical())
    need(n.isTempNetConvention() is conv, "isTempNetConvention(%r) is %s", c, n.isTempNetConvention())
    need(n.isTemporary() is (seed or hist or conv), "isTemporary(%r) is %s", c, n.isTemporary())
    m = FDSNSourceId(c, "ABC", "", "B", "H", "Z").networkSourceId()
    need(m.isTemporary() is (seed or hist or conv), "isTemporary of the network of a channel in %r is %s", c, m.isTemporary())
    near = len(c) in (2, 6) and c[:1] in set(sids.DIGITS + "XYZ") or len(c) >= 4 and any(ch.isdigit() for ch in c)
    return near, ["seed" if seed else "historical" if hist else "convention" if conv else "permanent"]


ODD = st.one_of(st.sampled_from(list("abz_ .:\n\t\r\x00-/@[`{^é٣９Ａⅷ߁²\u2028")), st.characters(), st.characters(min_codepoint=32, max_codepoint=126),
                st.characters(categories=["Nd"]), st.characters(categories=["Lu"]))


@st.composite
def damaged(draw, base, alphabet, limit):
    mode = draw(st.integers(0, 6))
    s = draw(base)
    if mode == 0:
        return draw(st.text(max_size=10))
    if mode == 1:
        return ""
    if mode == 2:
        return draw(st.text(alphabet, min_size=limit, max_size=limit + 3))
    if mode == 3:
        return draw(st.sampled_from(["-", "--", "---", "A--", "--A", "-A-", " ", "\n", "00\n", "A\n", "\nA", "00 ", "_"] + consts.STRS))
    k = draw(st.integers(0, len(s)))
    c = draw(ODD)
    if mode == 4:
        return s[:k] + c + s[k:]
    if mode == 5:
        return s[:k] + c + s[k + 1:]
    return s.lower()


@st.composite
def gen_validate(draw):
    c = draw(sids.codes6)
    which = draw(st.sampled_from([[], [0], [1], [2], [4], [5], [0], [1], [2], [4], [5], [0, 1], [1, 2], [4, 5], [2, 5], [0, 1, 2, 4, 5]]))
    g = {0: (sids.nets, sids.AN, 8), 1: (sids.stas, sids.AND, 8), 2: (sids.locs, sids.AND, 8), 4: (sids.sources, sids.AN, 8), 5: (sids.subs, sids.AN, 8)}
    for k in which:
        c[k] = draw(damaged(*g[k]))
    # only encodable text
    return dict(codes=[x.encode("utf-8", "replace").decode() for x in c])


@st.composite
def gen_temporary(draw):
    mode = draw(st.integers(0, 4))
    if mode == 0:
        net = draw(sids.nets)
    elif mode == 1:
        net = draw(st.text(sids.AN, min_size=2, max_size=2))
    elif mode == 2:
        net = draw(st.text(sids.AN, max_size=5)) + draw(st.text(sids.DIGITS, min_size=3, max_size=5))
    elif mode == 3:
        net = draw(st.sampled_from(list("0123456789WXYZxyz٣９"))) + draw(st.sampled_from(list(sids.AN + "az-٣"))) + draw(st.one_of(st.just(""), st.text(sids.DIGITS, min_size=4, max_size=4)))
    else:
        net = draw(damaged(sids.nets, sids.AN, 8))
    return dict(net=net.encode("utf-8", "replace").decode())


def every_two():
    return [dict(net=a + b) for a in sids.AN for b in sids.AN] + [dict(net=a + b + "2020") for a in sids.AN for b in sids.AN]


def every_char():
    out = []
    base = ["CO", "JSC", "00", "B", "H", "Z"]
    for k in (0, 1, 2, 4, 5):
        for o in list(range(0, 256)) + [0x660, 0xff11, 0x966, 0x1d7d8, 0x3a9, 0x410]:
            for f in (chr(o), "A" + chr(o), chr(o) + "A"):
                c = list(base)
                c[k] = f
                out.append(dict(codes=c))
    # every short code of dashes, letters and digits, and every length
    short = [""] + ["".join(x) for n in (1, 2, 3, 4) for x in itertools.product("-A0", repeat=n)] + [x * n for n in range(1, 12) for x in "-A0"]
    for k in (0, 1, 2, 4, 5):
        for x in short:
            out.append(dict(codes=base[:k] + [x] + base[k + 1:]))
    return out


SUBS = [
    Sub("validate", gen_validate(), check_validate, 8000, 150000, directed=every_char),
    Sub("temporary", gen_temporary(), check_temporary, 5000, 100000, directed=every_two),
]
