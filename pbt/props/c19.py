"""C19: band codes follow the published table."""
import math

import numpy as np
from hypothesis import strategies as st

from simplemseed import FDSNSourceId, bandCodeDescribe, bandCodeForRate
from simplemseed.fdsnsourceid import bandCodeInfo

from .. import bands, consts
from ..core import Sub, need

RULE = ("rates over 21 orders of magnitude, every table bound with its neighbouring floats, periods, response corners as rate or period or absent; "
        "non-trivial = a bound or its neighbour, a period, or a response corner given")


def near_bound(x, bounds):
    return any(abs(x - b) <= b * 1e-14 for b in bounds)


def neighbours(x):
    return [math.nextafter(x, 0), math.nextafter(x, math.inf)]


def want(rate, resp):
    """Allowed codes for the arguments as given."""
    if rate is None or rate == 0:
        return {"I"}
    rates = [float(rate)] if rate > 0 else [-1.0 / rate]
    if rate < 0 and float(rate) != int(rate) and near_bound(rates[0], bands.BOUNDS + [0.5, 1.5]):
        rates += neighbours(rates[0]) + neighbours(rates[0] * (1 - 1e-14)) + neighbours(rates[0] * (1 + 1e-14))
    if resp is None:
        resps = [None]
    elif resp >= 0:
        resps = [float(resp)]
    else:
        resps = [-1.0 / resp]
        if float(resp) != int(resp) and near_bound(resps[0], [0.1]):
            resps += [0.09, 0.11]
    return {c for r in rates for p in resps for c in bands.allowed(r, p)}


def describes(code):
    d = bandCodeDescribe(code)
    info = bandCodeInfo(code)
    need(isinstance(d, str) and bands.TYPES.get(code, "").lower() in d.lower(), "description of %s: %r", code, d)
    resp = info["response_lb"]
    want_n = sorted(bands.NUMBERS[code])
    got = sorted(bands.numbers(info["rate"]))
    need(got == want_n, "%s covers %r, table says %r", code, info["rate"], want_n)
    if code in bands.LONG | bands.SHORT:
        need(bands.numbers(resp) == [10.0] and ("<" in resp) == (code in bands.SHORT), "%s response %r", code, resp)
        want_n = sorted(want_n + [10])
    else:
        need(resp.strip() == "", "%s response %r", code, resp)
    if code not in "PTQ":  # their type names a range of days
        need(sorted(bands.numbers(d)) == want_n, "description of %s: %r", code, d)
    need(info["rate"] in d and resp.strip() in d, "description of %s: %r", code, d)


def num(spec):
    """Case data -> the number passed in."""
    if spec is None:
        return None
    kind, v = spec
    return {"int": int, "float": float, "np": np.float64}[kind](v)


def check_table(case):
    rate, resp = num(case["rate"]), num(case["resp"])
    code = bandCodeForRate(rate, resp)
    w = want(rate, resp)
    need(code in w, "rate %r, corner %r: %s, table says %s", rate, resp, code, sorted(w))
    describes(code)
    if resp is None:
        need(bandCodeForRate(rate) == code, "rate %r: %s without the second argument", rate, bandCodeForRate(rate))
    sid = FDSNSourceId.createUnknown(rate, response_lb=resp)
    need(sid.bandCode == code, "createUnknown(%r, %r) has band %s, rate gives %s", rate, resp, sid.bandCode, code)
    if rate is not None and rate > 0:
        labels = [code, "rate"]
    else:
        labels = [code, "period" if rate else "none"]
    return near_bound(abs(rate or 1), bands.BOUNDS) or (rate or 0) < 0 or resp is not None, labels


def check_period(case):
    """A period is the same as its rate, for rate and for corner."""
    p, q, rate = case["p"], case["q"], case["rate"]
    need(bandCodeForRate(-p, None) == bandCodeForRate(1.0 / p, None) or near_bound(1.0 / p, bands.BOUNDS + [0.5, 1.5]) and p != int(p), "period %r: %s, rate %r: %s", p, bandCodeForRate(-p), 1 / p, bandCodeForRate(1 / p))
    a, b = bandCodeForRate(rate, -q), bandCodeForRate(rate, 1.0 / q)
    need(a == b or near_bound(1 / q, [0.1]) and q != int(q), "rate %r corner period %r: %s, corner rate %r: %s", rate, q, a, 1 / q, b)
    return True, [bandCodeForRate(-p)]


def check_order(case):
    a, b = sorted([case["a"], case["b"]])
    resp = case["resp"]
    x, y = bandCodeForRate(a, resp), bandCodeForRate(b, resp)
    need(x in bands.ORDER and y in bands.ORDER and bands.ORDER[x] <= bands.ORDER[y], "rate %r is %s and faster %r is %s", a, x, b, y)
    # a longer response never makes it less broadband
    s = bandCodeForRate(b, max(resp or 0.5, 0.5))
    t = bandCodeForRate(b, 0.01)
    need(bands.ORDER[s] == bands.ORDER[t] and (s == t) == (s not in bands.SHORT), "rate %r: short %s, long %s", b, s, t)
    return a != b and x != y, [f"{x} {y}"[:3]]


def all_bounds():
    out = []
    resps = [None, ["float", 0.1], ["float", math.nextafter(0.1, 0)], ["float", math.nextafter(0.1, 1)], ["int", -10], ["int", -9], ["int", -11], ["float", -9.999], ["float", 0.0], ["int", 0], ["int", 1], ["float", -0.5]]
    rates = []
    for b in bands.BOUNDS + [0.5, 1.5, 2, 0.2, 100, 50, 20, 40, 200, 500, 2000]:
        rates += [["float", b], ["float", math.nextafter(b, 0)], ["float", math.nextafter(b, math.inf)], ["np", b]]
        if b == int(b):
            rates.append(["int", b])
        p = 1 / b
        rates.append(["float", -p])
        if p == int(p):
            rates += [["int", -p], ["int", -p - 1], ["int", -p + 1 if p > 1 else -3], ["float", -math.nextafter(p, 0)], ["float", -math.nextafter(p, math.inf)]]
    rates += [None, ["int", 0], ["float", 0.0], ["float", -0.0], ["np", 0.0]]
    for r in rates:
        for q in resps:
            out.append(dict(rate=r, resp=q))
    return out


logs = st.floats(-12, 9).map(lambda x: 10.0**x)
pool = [float(b) for b in bands.BOUNDS] + [abs(float(x)) for x in consts.FLOATS + [i for i in consts.INTS if 0 < abs(i) < 10**9] if 1e-12 < abs(x) < 1e9]
rates_f = st.one_of(logs, st.sampled_from(pool), st.sampled_from(pool).flatmap(lambda b: st.floats(b * 0.999, b * 1.001)),
                    st.integers(1, 10**6).map(float))


@st.composite
def gen_table(draw):
    r = draw(st.one_of(st.none(), rates_f, rates_f, rates_f, rates_f))
    rate = None if r is None else [draw(st.sampled_from(["float", "float", "np"])), r * draw(st.sampled_from([1, 1, -1]))]
    if r is not None and draw(st.integers(0, 4)) == 0:
        rate = ["int", draw(st.one_of(st.integers(-10**7, 10**7), st.integers(-12, 100)))]
    resp = draw(st.one_of(st.none(), st.floats(0.001, 100), logs, st.floats(0.09, 0.11), st.floats(-11, -9), logs.map(lambda x: -x)))
    return dict(rate=rate, resp=None if resp is None else ["float", resp])


SUBS = [
    Sub("table", gen_table(), check_table, 12000, 250000, directed=all_bounds),
    Sub("period", st.builds(lambda p, q, r: dict(p=p, q=q, rate=r), st.one_of(rates_f, st.integers(1, 10**8)), st.one_of(logs, st.integers(1, 1000)), rates_f), check_period, 5000, 100000),
    Sub("order", st.builds(lambda a, b, r: dict(a=a, b=b, resp=r), rates_f, rates_f, st.one_of(st.none(), st.floats(0.001, 10))), check_order, 5000, 100000),
]
