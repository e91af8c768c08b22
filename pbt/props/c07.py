"""C07: a damaged miniSEED3 record is never returned as good data."""
import io
import re

from hypothesis import strategies as st

import simplemseed

from .. import gen3, refms3
from ..core import Sub, need

RULE = ("streams of 1 to 4 good records with generated damage (bit flips, overwritten fields, removed, inserted, swapped, zeroed bytes, truncation); "
        "an independent parser says which leading records are intact; non-trivial = the damaged bytes are not a valid stream")

KINDS = ["flip", "flip", "flip", "burst", "field", "field", "delete", "insert", "swap", "zero", "cut", "crc-known", "dup", "move", "blank", "run"]
# offset, size of the fixed header fields
FIELDS = [(0, 1), (1, 1), (2, 1), (3, 1), (4, 4), (8, 2), (10, 2), (12, 1), (13, 1), (14, 1), (15, 1), (16, 8), (24, 4), (28, 4), (32, 1), (33, 1), (34, 2), (36, 4)]


@st.composite
def damages(draw):
    k = draw(st.sampled_from(KINDS))
    return {"kind": k, "at": draw(st.one_of(st.integers(0, 5000), st.integers(0, 39))), "len": draw(st.one_of(st.just(1), st.integers(1, 80))),
            "bit": draw(st.integers(0, 7)), "data": draw(st.binary(min_size=1, max_size=12).map(bytes.hex)),
            "field": draw(st.integers(0, len(FIELDS) - 1)), "how": draw(st.sampled_from(["zero", "ff", "inc", "dec", "neg", "data"])), "to": draw(st.integers(0, 5000)),
            "region": draw(st.sampled_from(["any", "head", "id", "eh", "data", "tail"]))}


PATS = ["", ".", "FDSN", "^FDSN:", "_H_H_Z$", "CO_", "XX", "^$", "[A-Z]"]


@st.composite
def cases(draw):
    recs = draw(st.lists(gen3.records(big=False, kinds=("prim", "prim", "steim", "raw", "none")), min_size=1, max_size=4))
    c = {"recs": recs, "which": draw(st.integers(0, 3)), "damage": draw(st.lists(damages(), min_size=1, max_size=2)),
         "single": draw(st.sampled_from([False, False, True])), "arg": draw(st.sampled_from(["default", "default", "true"])),
         "mode": draw(st.sampled_from(["plain", "plain", "merge", "merge", "pattern"])), "pat": draw(st.sampled_from(PATS))}
    if len(recs) > 1 and draw(st.integers(0, 2)):
        # one channel throughout, the damage mostly behind a good record
        for r in recs[1:]:
            r["id"] = recs[0]["id"]
            if draw(st.booleans()):
                r["rate"], r["eh"], r["flags"], r["pub"] = (recs[0][k] for k in ("rate", "eh", "flags", "pub"))
        c["which"] = draw(st.integers(1, 3))
    return c


def region_span(raw, region):
    h, i, e, p, _ = refms3.parse(raw)
    a = 40
    spans = {"any": (0, len(raw)), "head": (0, 40), "id": (a, a + len(i)), "eh": (a + len(i), a + len(i) + len(e)),
             "data": (a + len(i) + len(e), len(raw)), "tail": (max(0, len(raw) - 70), len(raw))}
    lo, hi = spans[region]
    return (lo, hi) if hi > lo else (0, len(raw))


def apply(raw, d):
    b = bytearray(raw)
    try:
        lo, hi = region_span(raw, d["region"])
    except refms3.Bad3:
        lo, hi = 0, len(b)
    if not b:
        return bytes(b)
    at = lo + d["at"] % (hi - lo)
    k = d["kind"]
    n = min(d["len"], len(b) - at)
    if k == "flip":
        b[at] ^= 1 << d["bit"]
    elif k == "burst":
        data = bytes.fromhex(d["data"])
        for j in range(n):
            b[at + j] ^= data[j % len(data)]
    elif k == "field":
        o, s = FIELDS[d["field"]]
        if o + s <= len(b):
            v = int.from_bytes(b[o:o + s], "little")
            full = (1 << (8 * s)) - 1
            nv = {"zero": 0, "ff": full, "inc": v + 1, "dec": v - 1, "neg": full ^ v, "data": int.from_bytes(bytes.fromhex(d["data"]), "little")}[d["how"]] & full
            b[o:o + s] = nv.to_bytes(s, "little")
    elif k == "delete":
        del b[at:at + n]
    elif k == "insert":
        b[at:at] = bytes.fromhex(d["data"])
    elif k == "swap":
        to = d["to"] % len(b)
        b[at], b[to] = b[to], b[at]
    elif k == "zero":
        b[at:at + n] = bytes(n)
    elif k == "cut":
        del b[at:]
    elif k == "crc-known":
        b[28:32] = [bytes(4), b"\xff\xff\xff\xff", (1).to_bytes(4, "little"), b[28:32][::-1]][d["bit"] % 4]
        if d["bit"] >= 4:
            b[at] ^= 1 << d["bit"]
    elif k == "blank":
        # a whole record lost to zeros or ones
        b[:] = bytes([[0, 255][d["bit"] % 2]]) * len(b)
    elif k == "run":
        run = bytes([[0, 0, 255, 32, 77][d["bit"] % 5]]) * [1, 2, 39, 40, 41, 64, 80, 128, 512, 4096][d["to"] % 10]
        end = 0 if d["at"] % 2 else len(b)
        b[end:end] = run
    elif k == "dup":
        b[at:at] = b[at:at + n]
    elif k == "move":
        piece = b[at:at + n]
        del b[at:at + n]
        to = d["to"] % (len(b) + 1)
        b[to:to] = piece
    return bytes(b)


def check(c):
    raws = [gen3.to_bytes(r) for r in c["recs"]]
    if c["single"]:
        raws = raws[:1]
    w = c["which"] % len(raws)
    hurt = raws[w]
    for d in c["damage"]:
        hurt = apply(hurt, d)
    kw = {} if c["arg"] == "default" else {"check_crc": True}
    labels = ["damage:" + "+".join(sorted({d["kind"] for d in c["damage"]}))]
    bad = False
    if c["single"]:
        try:
            refms3.parse(hurt)
            ok = True
        except refms3.Bad3:
            ok = False
        try:
            rec = simplemseed.unpackMSeed3Record(hurt, **kw)
        except Exception:
            need(not ok, "an intact record was refused")
            return not ok, labels + ["alone", "refused"]
        need(ok, "a damaged record was returned: %s", rec.identifier)
        return False, labels + ["alone", "intact"]
    stream = b"".join(raws[:w] + [hurt] + raws[w + 1:])
    want, at = [], 0
    while at < len(stream):
        try:
            h, i, e, p, nxt = refms3.parse(stream, at)
        except refms3.Bad3:
            bad = True
            break
        want.append(stream[at:nxt])
        at = nxt
    mode = c.get("mode", "plain")
    if mode == "pattern":
        return check_pattern(c["pat"], stream, want, at, bad, kw, labels)
    if mode == "merge":
        kw["merge"] = True
    got, failed = [], False
    try:
        for rec in simplemseed.readMSeed3Records(io.BytesIO(stream), **kw):
            got.append(rec)
    except Exception:
        failed = True
    if mode == "merge":
        need(failed == bad, "stream with %s was merged %s", "a damaged record" if bad else "no damage", "with an error" if failed else "without an error")
        return bad, labels + ["merge", "refused" if bad else "intact"]
    need(len(got) <= len(want), "record %d is damaged but was returned as data", len(want))
    need(failed == bad, "stream with %s was read %s", "a damaged record" if bad else "no damage", "with an error" if failed else "without an error")
    need(len(got) == len(want), "%d intact records before the damage, %d returned", len(want), len(got))
    for k, (rec, raw) in enumerate(zip(got, want)):
        need(bytes(rec.pack()) == raw, "intact record %d was changed", k)
    return bad, labels + ["stream", "refused" if bad else "intact"]


def check_pattern(pat, stream, want, at, bad, kw, labels):
    """Damage behind a filter: what matches and is intact comes first, nothing damaged comes at all."""
    rx = re.compile(pat)
    first = [raw for raw in want if rx.search(refms3.parse(raw)[1].decode("utf-8"))]
    got, failed = [], False
    try:
        for rec in simplemseed.readMSeed3Records(io.BytesIO(stream), matchsid=pat, **kw):
            got.append(bytes(rec.pack()))
    except Exception:
        failed = True
    need(got[:len(first)] == first, "%d intact matching records before the damage, returned %d, not the same", len(first), len(got))
    if not bad:
        need(not failed and len(got) == len(first), "undamaged stream: %d matching records, got %d%s", len(first), len(got), " and an error" if failed else "")
    hit = False
    if bad:
        # the damaged record's own identifier, when its header still says where that is
        head = stream[at:at + 40]
        hit = len(head) < 40 or head[:3] != b"MS\x03"
        if not hit:
            try:
                hit = rx.search(stream[at + 40:at + 40 + head[33]].decode("utf-8")) is not None
            except UnicodeDecodeError:
                hit = True
        if hit:
            need(failed, "a damaged record that matches was passed over without an error")
            need(len(got) == len(first), "something was returned at or after the damage")
    pos = 0
    for raw in got:
        pos = stream.find(raw, pos)
        need(pos >= 0, "a record was returned that the stream does not hold")
        refms3.parse(raw)
        pos += len(raw)
    return bad, labels + ["pattern", "hit" if hit else "passed"]


def directed():
    """Every single bit of a small record, every truncation length, every header byte to 0 and 255."""
    rec = {"flags": 4, "pub": 1, "rate": 20.0, "id": "FDSN:XX_ABC__H_H_Z", "eh": '{"a":1}', "year": 2024, "doy": 60, "hour": 1, "minute": 2, "second": 3, "ns": 4,
           "payload": {"kind": "prim", "enc": 3, "bits": [1, 0xFFFFFFFF, 7], "rep": 1}}
    n = len(gen3.to_bytes(rec))
    base = {"kind": "flip", "at": 0, "len": 1, "bit": 0, "data": "00", "field": 0, "how": "zero", "to": 0, "region": "any"}
    out = []
    for at in range(n):
        for bit in range(8):
            out.append({"recs": [rec, rec], "which": at % 2, "damage": [dict(base, at=at, bit=bit)], "single": bit % 2 == 0, "arg": "default"})
        for single in (False, True):
            out.append({"recs": [rec, rec], "which": 1, "damage": [dict(base, kind="cut", at=at)], "single": single, "arg": "default"})
            out.append({"recs": [rec, rec], "which": 0, "damage": [dict(base, kind="cut", at=at)], "single": single, "arg": "true"})
    # payloads around the sizes of buffers, damaged near the start, the middle and the end
    for size in gen3.BUF_SIZES + [2**20 + 1, 2**24 + 5]:
        big = dict(rec, payload={"kind": "raw", "enc": 100, "hex": "4d53", "rep": size // 2, "n": 0})
        for k, at in enumerate((0, 3, size // 2, 2 * (size // 2) - 1)):
            for single in (False, True):
                if size > 2**20 + 1 and (single or k != 2):
                    continue
                out.append({"recs": [big, rec], "which": 0, "damage": [dict(base, at=at, bit=(size + k) % 8, region="data")], "single": single, "arg": "default"})
        if size <= 2**20 + 1:
            out.append({"recs": [big], "which": 0, "damage": [dict(base, kind="cut", at=size // 2, region="data")], "single": False, "arg": "default"})
    return out


SUBS = [Sub("damage", cases(), check, quick=4000, thorough=80000, directed=directed, shards=8)]
