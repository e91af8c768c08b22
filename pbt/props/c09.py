"""C09: merging miniSEED3 records loses, repeats and alters nothing."""
import io
import json

import numpy as np
from hypothesis import strategies as st

import simplemseed
from simplemseed import mseed3merge, readMSeed3Records

from .. import gen3, merging, refms3
from ..core import Sub, need

RULE = ("pairs and streams of generated records: same or different identifier, rate, encoding, version; starts on, near, after a gap, overlapping; "
        "every payload container, padding, extra headers, undecodable records in between; non-trivial = at least one merge happened and at least two different sample values")

US_LO, US_HI = refms3.instant_ns(1900, 1, 0, 0, 0, 0) // 1000, refms3.instant_ns(2100, 1, 0, 0, 0, 0) // 1000


@st.composite
def runs(draw, stream):
    """Parts in order; each start is given relative to the end of the part before it."""
    chans = draw(st.lists(st.builds(lambda i, r, e, p: {"id": i, "rate": r, "enc": e, "pub": p}, st.sampled_from(gen3.ID_POOL), merging.rates(),
                                    st.sampled_from([1, 3, 4, 5]), st.sampled_from([0, 1, 2])), min_size=1, max_size=2 if draw(st.integers(0, 3)) == 0 else 1))
    n = draw(st.integers(2, 2 if not stream else 7))
    us = draw(st.integers(US_LO, US_HI))
    parts = []
    for _ in range(n):
        ch = dict(draw(st.sampled_from(chans)))
        if draw(st.integers(0, 11)) == 0:
            ch["pub"] = draw(st.sampled_from([0, 1, 2]))
        if draw(st.integers(0, 11)) == 0:
            ch["rate"] = draw(st.one_of(merging.rates(), st.just(0.0)))
        bits = draw(merging.values(ch["enc"])) * draw(st.sampled_from([1, 1, 1, 2, 40]))
        if len(bits) and draw(st.integers(0, 40)) == 0:
            # more than fits some buffer
            bits = bits * (draw(st.sampled_from([5000, 9000, 17000, 33000])) // len(bits) + 1)
        k = draw(st.sampled_from(["on", "on", "on", "on", "on", "near", "near", "gap", "over", "back"]))
        delta = draw(st.sampled_from(merging.DELTAS[k]))
        us = max(US_LO, us + round(delta * merging.period(ch["rate"]) * 1e6))
        p = dict(ch, us=us, bits=bits, flags=draw(st.sampled_from([0, 1, 2, 4, 255])), cont=draw(st.sampled_from(merging.STREAM_CONTS if stream else merging.CONTS)),
                 eh=draw(st.one_of(st.none(), st.just(""), gen3.EH_DICT, gen3.EH_DICT, gen3.eh_texts())), ns=draw(st.sampled_from([0, 0, 1, 999])))
        us += round(merging.period(ch["rate"]) * len(bits) * 1e6)
        parts.append(p)
        if stream and draw(st.integers(0, 11)) == 0:
            # the same record again
            parts.append(dict(p))
        if stream and draw(st.integers(0, 7)) == 0:
            # no samples, but perhaps an event in the extra headers; no other part has this identifier
            parts.append({"empty": draw(st.sampled_from([1, 3, 4, 5, 10, 11])), "id": "FDSN:XX_E%d__L_O_G" % len(parts), "rate": draw(st.sampled_from([0.0, 1.0, 20.0, -10.0])),
                          "pub": ch["pub"], "us": us, "flags": p["flags"], "eh": p["eh"], "ns": 0, "bits": []})
        if stream and draw(st.integers(0, 5)) == 0:
            parts.append({"opaque": draw(gen3.records(kinds=("raw",), big=False, ids=st.sampled_from(gen3.ID_POOL), leap=False, years=(1000, 9000)))})
        elif stream and draw(st.integers(0, 5)) == 0:
            parts.append({"steim": draw(st.lists(st.integers(-1000, 1000), min_size=1, max_size=20)), "v": draw(st.sampled_from([1, 2])), "us": us, "rate": ch["rate"],
                          "id": ch["id"], "pub": ch["pub"]})
    return parts


def sample_bytes(rec):
    d = rec.decompress()
    return [x.tobytes() for x in np.asarray(d, dtype=d.dtype.newbyteorder("="))], d.dtype.kind + str(d.dtype.itemsize)


def mutate_and_watch(a, b, what):
    """Change a in every way; b must not move."""
    before = merging.view(b)
    eh = a.eh
    if isinstance(eh, dict):
        for k, v in list(eh.items()):
            if isinstance(v, dict):
                v["~new"] = 1
            elif isinstance(v, list):
                v.append("~new")
        eh["~new"] = {"x": 1}
    a.header.flags = (a.header.flags + 1) % 256
    a.header.year += 1
    a.header.numSamples = a.header.numSamples
    a.header.publicationVersion = (a.header.publicationVersion + 1) % 256
    a.header.nanosecond = 5
    data = getattr(a, "_data", None)
    if isinstance(data, bytearray) and data:
        data[0] ^= 0x55
    elif isinstance(data, np.ndarray) and data.flags.writeable and len(data):
        data[0] = 77 if data[0] != 77 else 78
    elif hasattr(data, "typecode") and len(data):
        data[0] = 77 if data[0] != 77 else 78
    need(merging.view(b) == before, "changing %s", what)


def check_pair(c):
    parts = c["parts"]
    pa, pb = parts
    a, b = merging.to_record(pa), merging.to_record(pb)
    va, vb = merging.view(a), merging.view(b)
    sa, ka = sample_bytes(a)
    sb, kb = sample_bytes(b)
    for one, other, v in ((a, None, va), (None, b, vb)):
        alone = mseed3merge(one, other)
        need(len(alone) == 1 and merging.view(alone[0]) == v, "a record merged with None does not stay as it is")
    out = mseed3merge(a, b)
    need(isinstance(out, list) and len(out) in (1, 2), "result %r", type(out))
    need(merging.view(a) == va and merging.view(b) == vb, "merging altered an input")
    if len(out) == 2:
        need(merging.view(out[0]) == va and merging.view(out[1]) == vb, "records that did not merge were altered")
        return False, ["pair:apart"]
    m = out[0]
    sm, km = sample_bytes(m)
    need(km == ka == kb, "sample type changed from %s, %s to %s", ka, kb, km)
    need(sm == sa + sb, "merged samples are not those of the two records in order (%d, should be %d + %d)", len(sm), len(sa), len(sb))
    check_meta(m, pa, len(sa) + len(sb))
    sh = c["share"]
    if sh == 0:
        mutate_and_watch(m, a, "the merged record changes the first input")
        need(merging.view(b) == vb, "changing the merged record changes the second input")
    elif sh == 1:
        mutate_and_watch(a, m, "the first input changes the merged record")
    elif sh == 2:
        mutate_and_watch(b, m, "the second input changes the merged record")
    else:
        again = mseed3merge(merging.to_record(pa), merging.to_record(pb))
        need(len(again) == 1 and merging.view(again[0]) == merging.view(m), "merging again gives another result")
    return len(set(sm)) >= 2, ["pair:merged", "conts:%s+%s" % (pa["cont"], pb["cont"]), "share:%d" % sh]


def check_meta(m, first, n):
    """Start, identifier, flags, rate, version, extra headers from the first part; count; packs to a valid record."""
    want = merging.part_header(first)
    h, pid, peh, pdata, end = refms3.parse(bytes(m.pack()))
    for k, v in want.items():
        need(h[k] == v, "merged record: %s is %r, first part has %r", k, h[k], v)
    need(h["n"] == n, "merged record counts %d samples, should be %d", h["n"], n)
    need(pid == first["id"].encode(), "merged identifier %r", pid)
    need(merging.canon(json.loads(peh) if peh else {}) == merging.canon(merging.eh_val(first["eh"]) or {}), "merged extra headers are not those of the first part")
    size = {1: 2, 3: 4, 4: 4, 5: 8}[h["enc"]]
    need(len(pdata) == n * size, "merged payload has %d bytes for %d samples", len(pdata), n)
    need(m.starttime is not None and refms3.dt_us(m.starttime) == first["us"], "merged start time")


def part_bytes(p):
    if "opaque" in p:
        return gen3.to_bytes(p["opaque"])
    if "steim" in p:
        from .. import refsteim
        y, doy, hh, mm, ss, us = refms3.us_to_fields(p["us"])
        h = dict(flags=0, ns=us * 1000, year=y, doy=doy, hour=hh, minute=mm, second=ss, rate=p["rate"], pub=p["pub"], enc=9 + p["v"], n=len(p["steim"]))
        return refms3.build(h, p["id"].encode(), b"", refsteim.greedy(p["v"], p["steim"]))
    h = merging.part_header(p)
    if "empty" in p:
        h.update(enc=p["empty"], n=0)
        return refms3.build(h, p["id"].encode(), merging.eh_text(p["eh"]).encode("utf-8"), b"")
    data, vals = merging.expand_bits(p["bits"], p["enc"])
    h.update(enc=p["enc"], n=len(vals))
    return refms3.build(h, p["id"].encode(), merging.eh_text(p["eh"]).encode("utf-8"), data + (b"\x7e" * 5 if p["cont"] == "padded" else b""))


def check_stream(c):
    parts = c["parts"]
    blob = b"".join(part_bytes(p) for p in parts)
    return verify_stream(parts, list(readMSeed3Records(io.BytesIO(blob), merge=True)))


def verify_stream(parts, got):
    """The records got are a merge of the parts."""
    want, opaque, firsts = {}, [], {}
    empties = [p for p in parts if "empty" in p]
    parts = [p for p in parts if "empty" not in p]
    got_empty = [rec for rec in got if rec.identifier.endswith("_L_O_G")]
    need([r.identifier for r in got_empty] == [p["id"] for p in empties], "records without samples: %r, should be %r", [r.identifier for r in got_empty], [p["id"] for p in empties])
    for rec, p in zip(got_empty, empties):
        check_meta(rec, p, 0)
    got = [rec for rec in got if not rec.identifier.endswith("_L_O_G")]
    order = []
    for p in parts:
        if "opaque" in p:
            opaque.append(gen3.to_bytes(p["opaque"]))
            continue
        if "steim" in p:
            vals = [np.int32(v).tobytes() for v in p["steim"]]
            kind = "i4"
        else:
            data, v = merging.expand_bits(p["bits"], p["enc"])
            size = gen3.BITSIZE[p["enc"]] // 8
            vals = [data[k:k + size] for k in range(0, len(data), size)]
            kind = {1: "i2", 3: "i4", 4: "f4", 5: "f8"}[p["enc"]]
        key = (p["id"], kind, p["pub"], p["rate"])
        want.setdefault(key, []).extend(vals)
        firsts.setdefault(key, []).append(p)
    have, seen_opaque, merged = {}, [], 0
    for rec in got:
        if not simplemseed.canDecompress(rec.header.encoding):
            seen_opaque.append(bytes(rec.pack()))
            continue
        s, kind = sample_bytes(rec)
        key = (rec.identifier, kind, rec.header.publicationVersion, float(rec.header.sampleRatePeriod))
        need(rec.header.numSamples == len(s), "count %d, holds %d", rec.header.numSamples, len(s))
        done = have.setdefault(key, [])
        # the first part of this output record is the one whose samples start here
        pos, acc, first = len(done), 0, None
        for p in firsts.get(key, []):
            if acc == pos:
                first = p
                break
            acc += len(p.get("steim") or p["bits"])
        need(first is not None, "output record of %r does not begin where an input record begins", key)
        if len(s) > len(first.get("steim") or first["bits"]):
            merged += 1
        done.extend(s)
        order.append(next(k for k, p in enumerate(parts) if p is first))
        check_meta(rec, first if "bits" in first else dict(first, flags=0, eh=None), len(s))
    need(seen_opaque == opaque, "undecodable records did not come through unchanged and in order")
    need(order == sorted(order), "merged records come out in the order of parts %r", order)
    need(set(have) == set(want), "channels %r, should be %r", sorted(map(str, have)), sorted(map(str, want)))
    for key in want:
        need(have[key] == want[key], "samples of %r changed: %d, should be %d", key, len(have[key]), len(want[key]))
    return merged > 0 and any(len(set(v)) > 1 for v in want.values()), ["stream:merged" if merged else "stream:apart", "opaque:%d" % bool(opaque)]


def check_degenerate(c):
    """None in either place leaves the other record alone."""
    p = c["parts"][0]
    a = merging.to_record(p)
    v = merging.view(a)
    for out in (mseed3merge(None, a), mseed3merge(a, None)):
        need(len(out) == 1 and merging.view(out[0]) == v, "merging with nothing altered the record")
    return False, ["none"]


pair_cases = st.builds(lambda parts, s: {"parts": parts, "share": s}, runs(False), st.integers(0, 3))
stream_cases = st.builds(lambda parts: {"parts": parts}, runs(True))


def check_any(c):
    if c["share"] == 3 and c["parts"][0]["flags"] == 255:
        check_degenerate(c)
    return check_pair(c)


def long_runs():
    """Many small records that all merge, none of which merge, or that merge in pairs."""
    out = []
    for n in (130, 300, 1100, 2100):
        for step in (1, 2, 0):
            parts, us = [], 63_700_000_000_000_000
            for k in range(n):
                parts.append({"id": "FDSN:XX_A__H_H_Z", "rate": 20.0, "enc": 3, "pub": 1, "us": us, "bits": [k, k * 7 + 1], "flags": 0, "cont": "bytes", "eh": '{"k":%d}' % k if k % 7 == 0 else None, "ns": 0})
                us += 100000 + (200000 if step == 1 or step == 2 and k % 2 else 0)
            out.append({"parts": parts, "opts": [], "old": None})
    # more samples and bytes than some count or buffer holds
    for enc in (1, 3, 4, 5):
        for n in (20000, 150000):
            out.append({"parts": [{"id": "FDSN:XX_A__H_H_Z", "rate": 20.0, "enc": enc, "pub": 1, "us": 63_700_000_000_000_000 + k * n * 50000, "bits": [k + 1, 5] * (n // 2), "flags": 0, "cont": "bytes", "eh": None, "ns": 0}
                                  for k in range(3)] + [{"id": "FDSN:XX_B__H_H_Z", "rate": 20.0, "enc": enc, "pub": 1, "us": 63_700_000_000_000_000, "bits": [9], "flags": 0, "cont": "bytes", "eh": None, "ns": 0}],
                        "opts": [], "old": None})
    return out


SUBS = [
    Sub("pairs", pair_cases, check_any, quick=1600, thorough=30000),
    Sub("streams", stream_cases, check_stream, quick=1200, thorough=25000, directed=long_runs),
]
