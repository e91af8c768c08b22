"""C24: any bytes at all: the readers end, and what they return is what the bytes spell out."""
import io
import json
import struct
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from simplemseed import readMSeed3Records, readMiniseed2Records, unpackMSeed3Record
from simplemseed.miniseed import unpackMiniseedRecord
from simplemseed.seedcodec import decompress

from .. import gen, gen2, gen3, refms2, refms3, refsteim
from ..core import Cov, Sub, Violation, need

RULE = ("generated record streams with header fields overwritten, bits flipped, bytes cut, inserted, repeated and records spliced, checksums mended or not, and random bytes; "
        "non-trivial = the bytes differ from well-formed records and at least one header was parsed")


class Feed(io.BytesIO):
    """A file that notices a reader that does not stop."""

    def __init__(self, blob):
        super().__init__(blob)
        self.reads, self.limit = 0, 200 + 20 * len(blob)

    def read(self, *a):
        self.reads += 1
        if self.reads > self.limit:
            raise Violation(f"{self.reads} reads of {self.limit // 20} bytes and no end")
        return super().read(*a)


# ---- mutations, as data: [kind, where (0..1), ...]

def mutate(raws, ops, fields):
    blob = bytearray(b"".join(raws))
    starts = [sum(map(len, raws[:k])) for k in range(len(raws))]
    for op in ops:
        kind, x = op[0], op[1]
        at = min(int(x * len(blob)), max(0, len(blob) - 1))
        if kind == "field":
            off, size = fields[op[2] % len(fields)]
            p = starts[int(x * len(starts)) % len(starts)] + off
            if p + size <= len(blob):
                blob[p:p + size] = (op[3] % 2 ** (8 * size)).to_bytes(size, "little" if op[4] else "big")
        elif kind == "flip" and blob:
            blob[at] ^= 1 << op[2]
        elif kind == "cut":
            del blob[at:]
        elif kind == "del":
            del blob[at:at + op[2]]
        elif kind == "ins":
            blob[at:at] = bytes.fromhex(op[2])
        elif kind == "set":
            b = bytes.fromhex(op[2])
            blob[at:at + len(b)] = b
        elif kind == "dup":
            blob[at:at] = blob[at:at + op[2]]
    return bytes(blob)


VALS = st.one_of(st.sampled_from([0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 19, 20, 30, 39, 40, 41, 44, 47, 48, 49, 52, 55, 56, 57, 60, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 366, 367, 405, 500, 511, 512, 513, 1000, 1001, 2016, 2040,
                                 4096, 32767, 32768, 65535, 65536, 2**24, 2**31 - 1, 2**31, 2**32 - 1]), st.integers(0, 2**16), st.integers(0, 2**32 - 1))
F01 = st.floats(0, 1)
OPS = st.one_of(
    st.builds(lambda x, f, v, e: ["field", x, f, v, e], F01, st.integers(0, 60), VALS, st.booleans()),
    st.builds(lambda x, f, v, e: ["field", x, f, v, e], F01, st.integers(0, 60), VALS, st.booleans()),
    st.builds(lambda x, b: ["flip", x, b], F01, st.integers(0, 7)),
    st.builds(lambda x: ["cut", x], F01),
    st.builds(lambda x, n: ["del", x, n], F01, st.integers(1, 80)),
    st.builds(lambda x, b: ["ins", x, b.hex()], F01, st.binary(min_size=1, max_size=60)),
    st.builds(lambda x, b: ["set", x, b.hex()], F01, st.binary(min_size=1, max_size=12)),
    st.builds(lambda x, n: ["dup", x, n], F01, st.integers(1, 600)),
)

# offset and size of the header fields
FIELDS3 = [(0, 2), (0, 1), (1, 1), (2, 1), (2, 1), (3, 1), (4, 4), (8, 2), (10, 2), (12, 1), (13, 1), (14, 1), (15, 1), (15, 1), (16, 8), (22, 2), (24, 4), (24, 4), (28, 4), (32, 1), (33, 1), (33, 1), (34, 2), (34, 2), (36, 4), (36, 4), (40, 1)]
FIELDS2 = [(0, 1), (5, 1), (6, 1), (8, 1), (13, 2), (15, 1), (18, 1), (20, 2), (22, 2), (24, 1), (25, 1), (26, 1), (28, 2), (30, 2), (30, 2), (32, 2), (34, 2), (36, 1), (39, 1), (39, 1), (40, 4), (44, 2), (44, 2), (44, 2),
           (46, 2), (46, 2), (48, 2), (50, 2), (50, 2), (52, 1), (53, 1), (54, 1), (54, 1), (56, 2), (58, 2), (58, 2), (60, 4), (62, 1), (64, 2), (66, 2)]


def drain(it, feed):
    """Reads on to the end or error: [(record, start, end)], error."""
    out, err, start = [], None, feed.tell()
    try:
        for rec in it:
            end = feed.tell()
            out.append((rec, start, end))
            start = end
    except Violation:
        raise
    except Exception as e:
        err = e
    return out, err


def decoded(rec, n, enc, where):
    """The samples, or None when it (rightly) refuses."""
    try:
        v = rec.decompress()
    except Violation:
        raise
    except Exception:
        return None
    if v is None:
        return None
    need(len(v) == n, "%s: %d samples decoded, header counts %d", where, len(v), n)
    return v


def same_samples(v, ref, enc, where):
    try:
        want = ref()
    except Exception:
        return
    if want is None or v is None:
        return
    if enc in (4, 5):
        g = np.asarray(v, dtype=np.float64)
        w = np.asarray(want, dtype=np.float64)
        need(bool(((g == w) | (np.isnan(g) & np.isnan(w))).all()), "%s: decoded samples are not the stored ones", where)
    else:
        need([int(x) for x in v] == list(want), "%s: decoded samples are not the stored ones", where)


# ---- miniSEED 3

def mend(blob):
    """Checksums made right, also of what is no record for another reason."""
    blob, at = bytearray(blob), 0
    while True:
        if len(blob) < at + 40:
            return bytes(blob)
        nxt = at + 40 + blob[at + 33] + int.from_bytes(blob[at + 34:at + 36], "little") + int.from_bytes(blob[at + 36:at + 40], "little")
        # of a record that was cut short: of what there is
        b = blob[at:nxt]
        b[28:32] = bytes(4)
        blob[at + 28:at + 32] = refms3.crc32c(bytes(b)).to_bytes(4, "little")
        at = nxt


def verify3(rec, blob, start, where, check=True):
    """rec is what the record at start spells out; its end."""
    try:
        h, ident, eh, payload, end = refms3.parse(blob, start, check)
    except refms3.Bad3 as e:
        raise Violation(f"{where}: a record was returned, the bytes there are no record: {e}")
    hdr = rec.header
    got = dict(flags=hdr.flags, ns=hdr.nanosecond, year=hdr.year, doy=hdr.dayOfYear, hour=hdr.hour, minute=hdr.minute, second=hdr.second, enc=hdr.encoding, n=hdr.numSamples,
               pub=hdr.publicationVersion)
    bad = [f"{k} {got[k]!r}, stored {h[k]!r}" for k in got if got[k] != h[k]]
    need(not bad, "%s: %s", where, "; ".join(bad))
    need(struct.pack("<d", hdr.sampleRatePeriod) == struct.pack("<d", h["rate"]) or h["rate"] != h["rate"], "%s: rate %r, stored %r", where, hdr.sampleRatePeriod, h["rate"])
    need(rec.identifier == ident.decode("utf-8"), "%s: identifier %r, stored %r", where, rec.identifier, ident)
    try:
        want_eh = gen3.eh_value(eh.decode("utf-8"))
    except ValueError:
        want_eh = None
    if isinstance(want_eh, dict):
        # anything else breaks the format
        need(json.dumps(rec.eh or {}) == json.dumps(want_eh), "%s: extra headers %r, stored %r", where, rec.eh, eh)
    need(bytes(rec.encodedDataBytes()) == payload, "%s: payload is not the stored one", where)
    v = decoded(rec, h["n"], h["enc"], where)
    if len(payload) < 20000:
        same_samples(v, lambda: refms3.samples(h, payload), h["enc"], where)
    return end


def check3(c):
    clean = [gen3.to_bytes(r) for r in c["recs"]]
    blob = mutate(clean, c["ops"], FIELDS3) if clean else b""
    blob = bytes.fromhex(c["head"]) + blob
    if c["mend"]:
        blob = mend(blob)
    labels = blob3(blob)
    return blob != b"".join(clean) and len(blob) >= 40, labels + [o[0] for o in c["ops"]]


def blob3(blob):
    feed = Feed(blob)
    recs, err = drain(readMSeed3Records(feed), feed)
    for k, (rec, start, end) in enumerate(recs):
        e = verify3(rec, blob, start, f"record {k} at {start}")
        need(e == end, "record %d at %d ends at %d, reader is at %d", k, start, e, end)
    if err is None and not recs:
        need(blob == b"", "%d bytes gave neither a record nor an error", len(blob))
    if err is None and recs:
        need(recs[-1][2] == len(blob), "reading ended quietly at %d of %d", recs[-1][2], len(blob))
    # one record from bytes
    try:
        one = unpackMSeed3Record(blob)
    except Exception as e:
        need(not isinstance(e, StopIteration), "unpacking raised StopIteration")
        need(not recs, "the reader finds a record at the start, unpackMSeed3Record fails: %s", e)
    else:
        verify3(one, blob, 0, "unpacked")
    # no checksum, patterns, merging: must end
    for kw in ({"check_crc": False}, {"check_crc": False, "merge": True}, {"matchsid": "_H"}, {"merge": True}):
        feed = Feed(blob)
        more, err2 = drain(readMSeed3Records(feed, **kw), feed)
        for rec, a, b in more[:20]:
            if len(kw) == 1 and "check_crc" in kw:
                need(verify3(rec, blob, a, f"{kw}", False) == b, "%s: record at %d ends elsewhere, reader is at %d", kw, a, b)
            else:
                decoded(rec, rec.header.numSamples, rec.header.encoding, f"{kw}")
    try:
        one = unpackMSeed3Record(blob, check_crc=False)
    except Exception:
        pass
    else:
        verify3(one, blob, 0, "unpacked without checksum", False)
    return ["recs:%d" % min(3, len(recs)), "error" if err else "end"]


def gen_c3():
    return st.fixed_dictionaries({"recs": st.lists(gen3.records(big=False), max_size=3), "ops": st.lists(OPS, max_size=4), "mend": st.booleans(),
                                  "head": st.one_of(st.just(b""), st.just(b""), st.just(b""), st.just(b"MS\x03"), st.binary(max_size=100)).map(bytes.hex)})


# ---- miniSEED 2

def walk(blob, start):
    """Record length by the blockette chain, None when there is no (reachable) blockette 1000, byte order."""
    o = refms2.order_of(blob[start:start + 48])
    nblk, at = blob[start + 39], struct.unpack(o + "H", blob[start + 46:start + 48])[0]
    low, exp = 48, None
    for _ in range(nblk):
        if at < low or start + at + 8 > len(blob):
            break
        num, nxt = struct.unpack(o + "HH", blob[start + at:start + at + 4])
        if num == 1000:
            exp = blob[start + at + 6]
        low, at = at + 4, nxt
        if nxt == 0:
            break
    return exp, o


def check2(c):
    clean = [gen2.to_bytes(r) for r in c["recs"]]
    blob = mutate(clean, c["ops"], FIELDS2) if clean else b""
    blob = bytes.fromhex(c["head"]) + blob
    labels = blob2(blob)
    return blob != b"".join(clean) and len(blob) >= 48, labels + [o[0] for o in c["ops"]]


def blob2(blob):
    feed = Feed(blob)
    recs, err = drain(readMiniseed2Records(feed), feed)
    for k, (rec, start, end) in enumerate(recs):
        where = f"record {k} at {start}"
        verify2(rec, blob, start, end, where)
    if err is None and not recs:
        need(len(blob) < 48, "%d bytes gave neither a record nor an error", len(blob))
    if err is None and recs:
        need(len(blob) - recs[-1][2] < 48, "reading ended quietly at %d of %d", recs[-1][2], len(blob))
    try:
        one = unpackMiniseedRecord(blob)
    except StopIteration:
        raise Violation(f"unpacking {len(blob)} bytes raised StopIteration")
    except Exception as e:
        need(not recs, "the reader finds a record at the start, unpackMiniseedRecord fails: %s", e)
    else:
        need(bool(recs), "unpackMiniseedRecord returns a record, the reader fails: %s", err)
        verify2(one, blob, 0, recs[0][2], "unpacked")
    feed = Feed(blob)
    drain(readMiniseed2Records(feed, matchsid="_H"), feed)
    return ["recs:%d" % min(3, len(recs)), "error" if err else "end"]


def verify2(rec, blob, start, end, where):
    h = rec.header
    length = h.recordLength
    need(end - start == length or (end == len(blob) and end - start < length), "%s: says %d bytes, %d were used of %d", where, length, end - start, len(blob) - start)
    b = blob[start:start + 48]
    need(len(b) == 48, "%s: a record of %d bytes", where, len(b))
    if b[20] in (7, 8) and b[21] in (7, 8):
        return  # either byte order names a plausible year
    try:
        exp, o = walk(blob, start)
    except refms2.Bad2:
        return
    text = lambda x: x.decode("utf-8").strip()
    w = {}
    w["dataquality"], w["station"], w["location"], w["channel"], w["network"] = text(b[6:7]), text(b[8:13]), text(b[13:15]), text(b[15:18]), text(b[18:20])
    year, doy, hour, minute, second, _u, tenth = struct.unpack(o + "HHBBBBH", b[20:30])
    w["numSamples"], w["sampRateFactor"], w["sampRateMult"] = struct.unpack(o + "Hhh", b[30:36])
    w["actFlag"], w["ioFlag"], w["qualFlag"] = b[36:39]
    w["timeCorr"] = struct.unpack(o + "i", b[40:44])[0]
    if b[:6].isdigit():
        w["sequence_number"] = int(b[:6])
    bad = [f"{k} {getattr(h, k)!r}, stored {x!r}" for k, x in w.items() if getattr(h, k) != x]
    need(not bad, "%s: %s", where, "; ".join(bad))
    # plainly formed records: all of it
    full = None
    if exp is not None and 6 <= exp <= 20 and start + 2**exp <= len(blob):
        try:
            full = refms2.parse(blob[start:start + 2**exp])
        except refms2.Bad2:
            pass
    v = decoded(rec, w["numSamples"], h.encoding, where)
    if full is None or sum(x["num"] == 1000 for x in full["blk"]) != 1 or sum(x["num"] == 100 for x in full["blk"]) > 1 or sum(x["num"] == 1001 for x in full["blk"]) > 1:
        return
    need((h.encoding, length) == (full["b1000"]["enc"], 2**exp), "%s: encoding %d length %d, stored %d %d", where, h.encoding, length, full["b1000"]["enc"], 2**exp)
    # negative microseconds are the recorded finding of C14
    if 1 <= year <= 9998 and full.get("b1001", {"us": 0})["us"] >= 0:
        got = refms3.dt_us(h.starttime)
        need(got == full["us"], "%s: start is %d microseconds off", where, got - full["us"])
    r = full["rate"] if "b100" not in full or abs(full["b100"]["rate"]) < 1e30 else None
    if r is not None:
        need(abs(Fraction(h.sampleRate) - r) <= abs(r) / 10**12, "%s: rate %r, stored %s", where, h.sampleRate, float(r))
    if full["b1000"]["order"] in (0, 1):
        same_samples(v, lambda: refms2.samples(full), h.encoding, where)


def gen_c2():
    return st.fixed_dictionaries({"recs": st.lists(gen2.records(small=True), max_size=3), "ops": st.lists(OPS, max_size=4),
                                  "head": st.one_of(st.just(b""), st.just(b""), st.just(b""), st.just(b""), st.binary(max_size=100)).map(bytes.hex)})


# ---- payloads

def check_payload(c):
    data = bytes.fromhex(c["hex"])
    enc, n = c["enc"], c["n"]
    try:
        v = decompress(enc, data, n, c["le"])
    except Exception:
        return True, ["refused", f"enc:{enc}"]
    need(len(v) == n, "%d samples decoded, %d asked for", len(v), n)
    if enc in (1, 3, 4, 5):
        code = {1: "h", 3: "i", 4: "f", 5: "d"}[enc]
        size = struct.calcsize("<" + code)
        need(len(data) >= n * size, "%d samples from %d bytes", n, len(data))
        same_samples(v, lambda: struct.unpack(("<" if c["le"] else ">") + f"{n}{code}", data[:n * size]), enc, "payload")
    elif enc in (10, 11) and n:
        same_samples(v, lambda: refsteim.decode(enc - 9, data[:len(data) // 64 * 64], n), enc, "payload")
    return n > 0, ["decoded", f"enc:{enc}"]


@st.composite
def payload_cases(draw):
    enc = draw(st.sampled_from([1, 3, 4, 5, 10, 10, 11, 11, 11, 0, 19, 255]))
    k = draw(st.integers(0, 3))
    if k == 0:
        data = draw(st.binary(max_size=300))
    elif k == 1:
        words = draw(st.lists(st.one_of(st.integers(0, 2**32 - 1), st.sampled_from([0, 0x15555555, 0x2AAAAAAA, 0x3FFFFFFF, 0x40000000, 0x80000000, 0xC0000000, 0xFFFFFFFF, 1])), max_size=64))
        data = b"".join(x.to_bytes(4, "big") for x in words)
        data += bytes(-len(data) % draw(st.sampled_from([1, 64, 64])))
    else:
        vals = gen.series(draw(gen.recipes(widths=[1, 4, 5, 8, 15, 16, 24], fold=("clip",), max_list=20, max_seg=100, rng=(-(2**27), 2**27 - 1))))
        data = refsteim.greedy(enc - 9, vals) if enc in (10, 11) and vals else b"".join((v % 2**32).to_bytes(4, "big") for v in vals)
        raws = mutate([data], draw(st.lists(OPS, min_size=0, max_size=3)), [(0, 4), (4, 4), (8, 4), (12, 4), (64, 4)])
        data = raws
    n = draw(st.one_of(st.integers(0, 120), st.sampled_from([0, 1, len(data) // 4, len(data) // 2, len(data) // 8, len(data), 65535, 2**31 - 1, 2**32 - 1])))
    return {"enc": enc, "hex": data.hex(), "n": n, "le": draw(st.booleans())}


SUBS = [
    Sub("ms3", gen_c3(), check3, 1600, 120000, shards=4),
    Sub("ms2", gen_c2(), check2, 1600, 120000, shards=4),
    Sub("payload", payload_cases(), check_payload, 3000, 150000),
]


# ---- coverage-guided

def cov3(c):
    blob = bytes.fromhex(c["hex"])
    return len(blob) >= 40, blob3(blob)


def cov2(c):
    blob = bytes.fromhex(c["hex"])
    return len(blob) >= 48, blob2(blob)


def cov_payload(c):
    raw = bytes.fromhex(c["hex"])
    if len(raw) < 6:
        return False, ["short"]
    enc = (1, 3, 4, 5, 10, 11, 10, 11)[raw[0] % 8] if raw[0] < 250 else raw[1]
    n = int.from_bytes(raw[1:3], "little") % 2000
    return check_payload({"enc": enc, "hex": raw[4:].hex(), "n": n, "le": raw[3] % 2 == 1})


def _series(k):
    return [((i * 7919) % (2 ** (3 * (k % 9) + 2))) - 2 ** (3 * (k % 9) + 1) for i in range(5 + 13 * k)]


def seeds3():
    out = []
    for k, (enc, eh) in enumerate([(1, ""), (3, '{"a":1}'), (4, "{}"), (5, '{"FDSN":{"Time":{"Quality":1}}}'), (10, ""), (11, '{"b":[1,2]}'), (0, ""), (19, ""), (100, "")]):
        r = {"flags": k, "pub": k, "rate": float(k - 3), "id": gen3.ID_POOL[k % len(gen3.ID_POOL)] if k else "", "eh": eh, "year": 2000 + k, "doy": 366 if k == 4 else 60, "hour": 23, "minute": 59,
             "second": 60 if k == 1 else 5, "ns": 10**k}
        if enc in (10, 11):
            r["payload"] = {"kind": "steim", "enc": enc, "series": {"start": 5, "fold": "clip", "diffs": [1, -1, 5, 300, -20000, 7, 7, 7, 100000, 0, 0, 1, 2, 3]}}
        elif enc in (1, 3, 4, 5):
            r["payload"] = {"kind": "prim", "enc": enc, "bits": [1, 2, 300], "rep": 1}
        else:
            r["payload"] = {"kind": "raw", "enc": enc, "hex": "68656c6c6f", "rep": 1, "n": 5}
        out.append(gen3.to_bytes(r))
    return out + [out[1] + out[2], out[1] + out[1], out[0] + out[6] + out[5]]


def seeds2():
    out = []
    for k, enc in enumerate([1, 3, 4, 5, 10, 11, 0, 3, 11]):
        o = "><"[k % 2]
        blk = [{"num": 1000, "enc": enc, "order": 1 - k % 2, "exp": 7 if k < 4 else 8}]
        if k % 3 == 1:
            blk.append({"num": 1001, "tq": 50, "us": 7, "fc": 1})
        if k % 3 == 2:
            blk.insert(0, {"num": 100, "rate": 40.5, "flags": 0})
        if k == 7:
            blk.append({"num": 200, "hex": "0102030405060708"})
        vals = [1, 2, 300, -5]
        if enc in (10, 11):
            data = refsteim.greedy(enc - 9, vals)
        elif enc:
            data = struct.pack((">" if blk[-1].get("order", 1 - k % 2) else "<") + "4" + refms2.CODES[enc], *vals)
        else:
            data = b"hi"
        r = {"net": "XX", "sta": "ABC", "loc": "00", "chan": "HHZ", "seq": "000001", "q": "D", "year": 2020 + k, "doy": 60 + k, "hour": 1, "minute": 2, "second": 3, "tenth": 4567, "n": 4 if enc else 2,
             "factor": 20, "mult": -k or 1, "act": 0, "io": 32, "qual": 128, "corr": 0, "o": o, "blk": blk, "gaps": [], "datagap": 0}
        out.append(refms2.build(r, data))
    return out + [out[0] + out[1], out[4] + out[2]]


def seeds_payload():
    out = []
    for k in range(9):
        vals = _series(k)
        for v in (1, 2):
            d = refsteim.greedy(v, vals)
            out.append(bytes([3 + v]) + len(vals).to_bytes(2, "little") + b"\1" + d)
    return out + [bytes([e]) + b"\4\0\1" + bytes(range(32)) for e in range(4)]


COVS = [
    Cov("ms3-guided", cov3, seeds3, 30000, 1500000, mend=mend, max_len=700),
    Cov("ms2-guided", cov2, seeds2, 30000, 1500000, max_len=1100),
    Cov("payload-guided", cov_payload, seeds_payload, 30000, 1500000, max_len=400, shards=1),
]
