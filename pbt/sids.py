"""Independent model of the source identifier rules, and generators of codes."""
from hypothesis import strategies as st

from . import consts

UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGITS = "0123456789"
AN = UPPER + DIGITS
AND = AN + "-"


def valid_net(s):
    return 1 <= len(s) <= 8 and all(c in AN for c in s)


def valid_sta(s):
    return 1 <= len(s) <= 8 and all(c in AND for c in s)


def valid_loc(s):
    return len(s) <= 8 and all(c in AND for c in s) and s != "--"


def valid_source(s):
    return len(s) >= 1 and all(c in AN for c in s)


def valid_sub(s):
    return all(c in AN for c in s)


def seed_temp(s):
    return len(s) == 2 and s[0] in DIGITS + "XYZ" and s[1] in AN and s != "XX"


def historical(s):
    return len(s) == 6 and s[0] in DIGITS + "XYZ" and s[1] in AN and all(c in DIGITS for c in s[2:]) and s[:2] != "XX"


def convention(s):
    return 5 <= len(s) <= 8 and all(c in AN for c in s) and all(c in DIGITS for c in s[-4:])


def text(*codes):
    return "FDSN:" + "_".join(codes)


nets = st.one_of(
    st.text(AN, min_size=1, max_size=8),
    st.text(AN, min_size=2, max_size=2),
    st.builds(lambda a, b: a + b, st.sampled_from(DIGITS + "XYZ"), st.sampled_from(AN)),
    st.builds(lambda a, b, y: f"{a}{b}{y:04d}", st.sampled_from(DIGITS + "XYZW"), st.sampled_from(AN), st.integers(0, 9999)),
    st.builds(lambda a, y: f"{a}{y:04d}", st.text(AN, min_size=1, max_size=4), st.integers(0, 9999)),
    st.sampled_from(["XX", "SS", "CO", "IU", "XX2025", "XX1994", "XD", "X1", "9Z", "0A", "ZZ", "YX", "XXX", "XXX2020"] + [s for s in consts.STRS if valid_net(s)]),
)
stas = st.one_of(st.text(AND, min_size=1, max_size=8), st.text(AN, min_size=3, max_size=5),
                 st.sampled_from(["ABC", "-", "--", "A-B", "BIGGYBIG"] + [s for s in consts.STRS if valid_sta(s)]))
locs = st.one_of(st.just(""), st.sampled_from(["00", "10", "-", "A-", "---", "0", "01234567"] + [s for s in consts.STRS if valid_loc(s)]),
                 st.text(AND, max_size=8).filter(valid_loc), st.text(DIGITS, min_size=2, max_size=2))
bands = st.one_of(st.sampled_from(list("FGDCESHBMLVUWRPTQIJAO")), st.sampled_from(list(AN)), st.just(""))
sources = st.one_of(st.sampled_from(list("HLNPABDFGIOR")), st.text(AN, min_size=1, max_size=1), st.text(AN, min_size=1, max_size=4), st.text(AN, min_size=1, max_size=40))
subs = st.one_of(st.sampled_from(list("ZNE12U")), st.just(""), st.text(AN, min_size=1, max_size=1), st.text(AN, max_size=4), st.text(AN, max_size=40))
codes6 = st.tuples(nets, stas, locs, bands, sources, subs).map(list)
