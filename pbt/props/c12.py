"""C12: a miniSEED3 record always packs to what its edits say, after any history."""
import copy
import datetime
import io
import json
import struct

import numpy as np
from hypothesis import strategies as st

import simplemseed
from simplemseed import FDSNSourceId
from simplemseed.exceptions import CodecException, UnsupportedCompressionType

from .. import gen3, merging, refms3
from ..core import Sub, need

RULE = ("histories of up to 25 edits, queries, clones and packs on records that were read or built, each step and the end compared with a plain model; "
        "non-trivial = at least two edits and a pack, clone or query between edits")

OPS = ["eh-set", "eh-text", "eh-none", "eh-key", "eh-key", "eh-nested", "eh-del-key", "eh-hold", "eh-held", "eh-held", "eh-del", "id", "id-obj", "start", "start-text", "flags", "pub", "fields",
       "pack", "pack", "clone", "clone-keep", "decompress", "size", "str", "details", "eh-read", "hasEH", "parseId", "bytes", "decrec", "use-decrec", "header-clone", "rate"]
EDITS = {"eh-held", "eh-set", "eh-text", "eh-none", "eh-key", "eh-nested", "eh-del-key", "eh-del", "id", "id-obj", "start", "start-text", "flags", "pub", "fields", "rate"}
YEARS = (1950, 2100)


@st.composite
def ops(draw, names=tuple(OPS)):
    k = draw(st.sampled_from(names))
    o = {"op": k}
    if k == "eh-set":
        o["v"] = draw(gen3.EH_DICT)
    elif k == "eh-text":
        o["v"] = draw(gen3.eh_texts())
    elif k in ("eh-key", "eh-nested", "eh-held"):
        o["k"], o["v"] = draw(gen3.JSON_KEYS), draw(gen3.JSON_VALUE)
        o["n"] = draw(st.integers(0, 3))
    elif k == "eh-del-key":
        o["n"] = draw(st.integers(0, 3))
    elif k == "id":
        o["v"] = draw(gen3.idents())
    elif k == "id-obj":
        o["v"] = draw(st.one_of(st.sampled_from([i for i in gen3.ID_POOL if i.startswith("FDSN:")]), gen3.FDSN_ID))
    elif k in ("start", "start-text"):
        o["v"] = draw(gen3.times(*YEARS, leap=False))
        o["off"] = draw(st.sampled_from([0, 0, 60, -330]))
    elif k == "fields":
        o["v"] = draw(gen3.times(*YEARS))
    elif k in ("flags", "pub"):
        o["v"] = draw(st.integers(0, 255))
    elif k == "rate":
        o["v"] = draw(gen3.rates())
    elif k == "details":
        o["data"] = draw(st.booleans())
    return o


@st.composite
def cases(draw):
    names = OPS
    if draw(st.booleans()):
        # few kinds of operations, often one after another
        names = draw(st.lists(st.sampled_from(OPS), min_size=2, max_size=5)) + ["pack"]
    c = {"ops": [draw(ops(names)) for _ in range(draw(st.sampled_from([5, 8, 12, 16, 25, 3, 2, 1])))], "watch": draw(st.booleans())}
    if draw(st.booleans()):
        c["read"] = draw(gen3.records(big=False, years=YEARS))
        c["src"] = draw(st.sampled_from(["unpack", "stream", "bytearray"]))
    else:
        enc = draw(st.sampled_from([1, 3, 4, 5]))
        c["built"] = {"id": draw(gen3.idents()), "rate": draw(gen3.rates()), "enc": enc, "pub": 1, "us": draw(st.integers(refms3.instant_ns(1950, 1, 0, 0, 0, 0) // 1000, refms3.instant_ns(2100, 1, 0, 0, 0, 0) // 1000)),
                      "bits": draw(merging.values(enc)), "flags": 0, "cont": draw(st.sampled_from(merging.CONTS)), "eh": draw(st.one_of(st.none(), gen3.EH_DICT, gen3.eh_texts())), "ns": 0}
    return c


class Model:
    def __init__(self):
        self.h, self.id, self.eh, self.data, self.vals = {}, "", {}, b"", None
        # the text of the extra headers where that is known: as given, as long as they are not edited but as text
        self.text = None

    def copy(self):
        m = Model()
        m.__dict__ = copy.deepcopy(self.__dict__)
        return m


def start(c):
    m = Model()
    if "read" in c:
        r = c["read"]
        raw = gen3.to_bytes(r)
        enc, n, data, vals = gen3.expand_payload(r["payload"])
        m.h = {k: r[k] for k in ("flags", "ns", "year", "doy", "hour", "minute", "second", "rate", "pub")}
        m.h.update(enc=enc, n=n)
        m.id, m.eh, m.data, m.vals = r["id"], gen3.eh_value(r["eh"]) or {}, data, vals
        m.text = r["eh"]
        if c["src"] == "stream":
            rec = next(simplemseed.readMSeed3Records(io.BytesIO(raw)))
        else:
            rec = simplemseed.unpackMSeed3Record(bytearray(raw) if c["src"] == "bytearray" else raw)
        return rec, m
    p = c["built"]
    rec = merging.to_record(p)
    m.h = merging.part_header(p)
    data, vals = merging.expand_bits(p["bits"], p["enc"])
    m.h.update(enc=p["enc"], n=len(vals))
    m.id, m.eh, m.vals = p["id"], copy.deepcopy(merging.eh_val(p["eh"]) or {}), vals
    m.text = "" if p["eh"] is None else p["eh"] if isinstance(p["eh"], str) else None
    m.data = data + (b"\x7e" * 5 if p["cont"] == "padded" else b"")
    return rec, m


def verify(packed, m, where):
    packed = bytes(packed)
    try:
        h, pid, peh, pdata, end = refms3.parse(packed)
    except refms3.Bad3 as e:
        raise AssertionError(f"{where}: packed bytes are not a valid record: {e}")
    need(end == len(packed), "%s: %d bytes packed, header says %d", where, len(packed), end)
    for k, v in m.h.items():
        need(h[k] == v, "%s: %s is %r, latest value is %r", where, k, h[k], v)
    need(pid == m.id.encode("utf-8"), "%s: identifier %r, latest is %r", where, pid, m.id)
    need(pdata == m.data, "%s: payload changed", where)
    got = json.loads(peh.decode("utf-8")) if peh else {}
    need(merging.canon(got) == merging.canon(m.eh), "%s: extra headers %r, latest are %r", where, got, m.eh)
    need(m.text is None or peh == m.text.encode("utf-8"), "%s: the extra headers are unchanged but written as %r, were %r", where, peh, m.text)
    return packed


def as_dt(t, off=0):
    us = gen3.start_us(dict(t))
    y, doy, h, mi, s, micro = refms3.us_to_fields(us + off * 60 * 10**6)
    d = datetime.datetime(y, 1, 1) + datetime.timedelta(days=doy - 1)
    return datetime.datetime(d.year, d.month, d.day, h, mi, s, micro, tzinfo=datetime.timezone(datetime.timedelta(minutes=off)))


def pick_key(d, n):
    ks = list(d)
    return ks[n % len(ks)] if ks else None


class Keep(list):
    """Records left behind, and the extra headers of the current one as got at some point."""
    held = None
    # length the current record has, where its header says the lengths of all parts; that once packed
    size, packed = None, False


# what the lengths in the header need not follow until the record is packed
SIZING = {"eh-set", "eh-text", "eh-none", "eh-key", "eh-nested", "eh-del-key", "eh-held", "eh-del", "id", "id-obj", "clone", "use-decrec"}


def gen3_size(m):
    return 40 + len(m.id.encode("utf-8")) + len(m.text.encode("utf-8")) + len(m.data)


def gen3_plain(enc):
    """The encoding decoded samples have."""
    return enc if enc in (1, 3, 4, 5) else 3


def step(rec, m, o, keep):
    """Apply one operation; returns the record to go on with."""
    k = o["op"]
    if k in ("eh-set", "eh-text", "eh-none", "eh-del"):
        keep.held = None
    before = merging.canon(m.eh)
    if k in SIZING:
        keep.size = None
    if k == "eh-set":
        rec.eh = copy.deepcopy(o["v"])
        m.eh, m.text = copy.deepcopy(o["v"]), None
    elif k == "eh-text":
        rec.eh = o["v"]
        m.eh, m.text = gen3.eh_value(o["v"]) or {}, o["v"]
        if keep.packed:
            keep.size = gen3_size(m)
    elif k == "eh-none":
        rec.eh = None
        m.eh, m.text = {}, ""
    elif k == "eh-key":
        if rec.eh is None:
            rec.eh = {}
        rec.eh[o["k"]] = copy.deepcopy(o["v"])
        m.eh[o["k"]] = copy.deepcopy(o["v"])
    elif k == "eh-nested":
        key = pick_key({a: b for a, b in m.eh.items() if isinstance(b, dict)}, o["n"])
        if key is not None:
            rec.eh[key][o["k"]] = copy.deepcopy(o["v"])
            m.eh[key][o["k"]] = copy.deepcopy(o["v"])
    elif k == "eh-del-key":
        key = pick_key(m.eh, o["n"])
        if key is not None:
            del rec.eh[key]
            del m.eh[key]
    elif k == "eh-hold":
        keep.held = (rec, rec.eh) if rec.eh is not None else None
    elif k == "eh-held":
        # through the reference got before, whatever else was done since
        if keep.held is not None and keep.held[0] is rec:
            keep.held[1][o["k"]] = copy.deepcopy(o["v"])
            m.eh[o["k"]] = copy.deepcopy(o["v"])
    elif k == "eh-del":
        del rec.eh
        m.eh, m.text = {}, ""
        if keep.packed:
            keep.size = gen3_size(m)
    elif k == "id":
        keep.packed = False
        rec.identifier = o["v"]
        m.id = o["v"]
    elif k == "id-obj":
        keep.packed = False
        rec.identifier = FDSNSourceId.parse(o["v"])
        m.id = o["v"]
    elif k in ("start", "start-text"):
        dt = as_dt(o["v"], o["off"])
        rec.header.starttime = dt if k == "start" else dt.isoformat()
        y, doy, h, mi, s, micro = refms3.us_to_fields(gen3.start_us(o["v"]))
        m.h.update(year=y, doy=doy, hour=h, minute=mi, second=s, ns=micro * 1000)
    elif k == "fields":
        v = o["v"]
        hd = rec.header
        hd.year, hd.dayOfYear, hd.hour, hd.minute, hd.second, hd.nanosecond = v["year"], v["doy"], v["hour"], v["minute"], v["second"], v["ns"]
        m.h.update(v)
    elif k == "flags":
        rec.header.flags = m.h["flags"] = o["v"]
    elif k == "pub":
        rec.header.publicationVersion = m.h["pub"] = o["v"]
    elif k == "rate":
        if o["v"] < 0:
            rec.header.samplePeriod = -o["v"]
        else:
            rec.header.sampleRate = o["v"]
        m.h["rate"] = o["v"]
    elif k == "pack":
        a = verify(rec.pack(), m, "pack")
        need(bytes(rec.pack()) == a, "packing twice gives different bytes")
        need(rec.getSize() == len(a), "size %r right after packing %d bytes", rec.getSize(), len(a))
        keep.size, keep.packed = len(a), True
    elif k in ("clone", "clone-keep"):
        other = rec.clone()
        keep.append((rec, m.copy(), "the record that was cloned") if k == "clone" else (other, m.copy(), "the clone"))
        if k == "clone":
            rec = other
    elif k == "decompress":
        try:
            d = rec.decompress()
        except (CodecException, UnsupportedCompressionType):
            need(m.vals is None, "samples can not be decoded")
        else:
            if m.vals is not None:
                bad = gen3.values_equal(d, m.vals, m.h["enc"])
                need(bad is None, "decode: %s", bad)
    elif k == "size":
        n = rec.getSize()
        need(keep.size is None or n is None or n == keep.size, "size %r of a record of %r bytes", n, keep.size)
        rec.header.recordSize() if rec.header.extraHeadersLength is not None else None
    elif k == "str":
        t = str(rec)
        need(m.id in t and f"({m.h['n']} pts)" in t, "summary %r", t)
        need(refms3.fmt_us(gen3.start_us(m.h)) in t, "summary %r lacks the start time", t)
    elif k == "details":
        t = rec.details(showExtraHeaders=o["data"], showData=o["data"] and m.vals is not None and m.h["enc"] != 0)
        need(m.id in t and refms3.fmt_us(gen3.start_us(m.h)) in t, "details %r", t[:300])
    elif k == "eh-read":
        need(merging.canon(rec.eh or {}) == merging.canon(m.eh), "extra headers read as %r, latest are %r", rec.eh, m.eh)
    elif k == "hasEH":
        if m.eh:
            need(rec.hasExtraHeaders() is True, "denies extra headers %r", m.eh)
        else:
            rec.hasExtraHeaders()
    elif k == "parseId":
        try:
            got = rec.parseIdentifier()
        except Exception:
            need(m.id not in gen3.ID_POOL or not m.id.startswith("FDSN:"), "can not parse %r", m.id)
        else:
            need(str(got) == m.id or m.id not in gen3.ID_POOL, "identifier %r parsed as %s", m.id, got)
    elif k == "bytes":
        need(bytes(rec.encodedDataBytes()) == m.data, "payload changed")
    elif k in ("decrec", "use-decrec"):
        try:
            d = rec.decompressedRecord()
        except (CodecException, UnsupportedCompressionType):
            need(m.vals is None, "samples can not be decoded")
        else:
            need(d.header is not rec.header, "decoded record shares the header")
            if m.vals is not None:
                dm = m.copy()
                dm.h["enc"] = gen3_plain(m.h["enc"])
                code = {1: "h", 3: "i", 4: "f", 5: "d"}[dm.h["enc"]]
                if dm.h["enc"] == m.h["enc"]:
                    # without padding, bit for bit
                    dm.data = m.data[:len(m.vals) * struct.calcsize(code)]
                else:
                    dm.data = struct.pack(f"<{len(m.vals)}{code}", *m.vals)
                dm.text = None  # the same extra headers, in any style
                verify(d.pack(), dm, "decoded record")
                if k == "use-decrec":
                    # go on with the decoded one; it may share its extra headers with the one it came from
                    keep.held, keep.packed = None, False
                    m.h, m.data, m.text = dm.h, dm.data, None
                    return d
            d.header.flags = (d.header.flags + 1) % 256
            d.header.year = 1
            d.identifier = "changed"
            d.eh = {"changed": 1}
    elif k == "header-clone":
        hc = rec.header.clone()
        hc.flags, hc.year, hc.numSamples, hc.encoding = (hc.flags + 1) % 256, 3, 0, 100
    if k in ("eh-key", "eh-nested", "eh-held", "eh-del-key") and merging.canon(m.eh) != before:
        m.text = None
    return rec


def check(c):
    rec, m = start(c)
    keep = Keep()
    for o in c["ops"]:
        rec = step(rec, m, o, keep)
        if c.get("watch") and keep.size is not None:
            n = rec.getSize()
            need(n is None or n == keep.size, "size %r after %s, record has %r bytes", n, o["op"], keep.size)
    verify(rec.pack(), m, "final pack")
    for r, mm, what in keep:
        verify(r.pack(), mm, what)
    names = [o["op"] for o in c["ops"]]
    edits = [i for i, n in enumerate(names) if n in EDITS]
    nt = len(edits) >= 2 and any(names[i] not in EDITS for i in range(edits[0], edits[-1]))
    return nt, ["read" if "read" in c else "built:" + c["built"]["cont"], "ops:%d" % (len(names) // 5 * 5)] + sorted({"op:" + n for n in names})


SUBS = [Sub("history", cases(), check, quick=2400, thorough=50000, shards=8)]
