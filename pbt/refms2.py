"""miniSEED2 records by the SEED definition, independent of the code under test.

The fixed header and all blockettes are in one byte order, recognised from a
plausible year; the word order byte of blockette 1000 tells the order of the
samples (Steim frames are big endian always).
"""
import struct
from fractions import Fraction

from . import refms3, refsteim


class Bad2(Exception):
    pass


SIZES = {100: 12, 1000: 8, 1001: 8}
CODES = {1: "h", 3: "i", 4: "f", 5: "d"}


def field(s, n):
    b = s.encode("ascii")
    assert len(b) <= n, s
    return b.ljust(n)


def blockette_body(b, o):
    """Bytes after the type and next-offset words."""
    k = b["num"]
    if k == 1000:
        return struct.pack("BBBB", b["enc"], b["order"], b["exp"], b.get("res", 0))
    if k == 100:
        return struct.pack(o + "f", b["rate"]) + bytes([b.get("flags", 0), 0, 0, 0])
    if k == 1001:
        return struct.pack("BbBB", b["tq"], b["us"], b.get("res", 0), b["fc"])
    return bytes.fromhex(b["hex"])


def layout(r):
    """Offsets of the blockettes, end of the last one, offset of the data."""
    at, offs = 48, []
    gaps = r.get("gaps", [])
    for k, b in enumerate(r["blk"]):
        at += gaps[k] if k < len(gaps) else 0
        offs.append(at)
        at += 4 + len(blockette_body(b, ">"))
    data = at + r.get("datagap", 0)
    steim = next((b["enc"] for b in r["blk"] if b["num"] == 1000), 0) in (10, 11)
    if steim:
        data = (data + 63) // 64 * 64
    return offs, at, data


def build(r, data):
    """r: seq (text), q, codes, time fields, n, factor, mult, act, io, qual, corr, o (header byte order), blk, gaps, datagap, fill."""
    o = r["o"]
    exp = next(b["exp"] for b in r["blk"] if b["num"] == 1000)
    size = 2 ** exp
    offs, end, doff = layout(r)
    if not data and r.get("nodataoff"):
        doff = 0
        if end > size:
            raise Bad2("blockettes do not fit")
    elif doff + len(data) > size:
        raise Bad2("data does not fit")
    fill = r.get("fill", 0)
    out = bytearray([fill] * size)
    out[0:6] = r["seq"].encode("ascii")
    out[6:8] = field(r["q"], 1) + b" "
    out[8:20] = field(r["sta"], 5) + field(r["loc"], 2) + field(r["chan"], 3) + field(r["net"], 2)
    out[20:30] = struct.pack(o + "HHBBBBH", r["year"], r["doy"], r["hour"], r["minute"], r["second"], 0, r["tenth"])
    out[30:36] = struct.pack(o + "Hhh", r["n"], r["factor"], r["mult"])
    out[36:48] = bytes([r["act"], r["io"], r["qual"], len(offs)]) + struct.pack(o + "iHH", r["corr"], doff, offs[0] if offs else 0)
    for k, (at, b) in enumerate(zip(offs, r["blk"])):
        nxt = offs[k + 1] if k + 1 < len(offs) else 0
        raw = struct.pack(o + "HH", b["num"], nxt) + blockette_body(b, o)
        out[at:at + len(raw)] = raw
    if doff:
        out[doff:doff + len(data)] = data
    return bytes(out)


def nominal_rate(factor, mult):
    """Exact rate from factor and multiplier, 0 when there is none."""
    if factor == 0:
        return Fraction(0)
    r = Fraction(factor) if factor > 0 else Fraction(-1, factor)
    if mult > 0:
        r *= mult
    elif mult < 0:
        r /= -mult
    return r


def order_of(buf):
    be, le = struct.unpack(">H", buf[20:22])[0], struct.unpack("<H", buf[20:22])[0]
    if 1800 <= be <= 2055:
        return ">"
    if 1800 <= le <= 2055:
        return "<"
    raise Bad2(f"no plausible year in {bytes(buf[20:22])!r}")


def padding(buf):
    """Codes of a packed record that are not at the left of their field, blanks behind."""
    return [k for k, a, b in (("sta", 8, 13), ("loc", 13, 15), ("chan", 15, 18), ("net", 18, 20)) if bytes(buf[a:b]) != bytes(buf[a:b]).strip().ljust(b - a)]


def parse(buf):
    """One record occupying exactly buf[:2**exp]; raises Bad2 when it breaks the definition."""
    buf = bytes(buf)
    if len(buf) < 64:
        raise Bad2("too short")
    o = order_of(buf)
    r = {"o": o, "seq": buf[0:6], "q": buf[6:7].decode("latin1"), "sta": buf[8:13].decode("latin1").strip(), "loc": buf[13:15].decode("latin1").strip(),
         "chan": buf[15:18].decode("latin1").strip(), "net": buf[18:20].decode("latin1").strip()}
    r["year"], r["doy"], r["hour"], r["minute"], r["second"], _u, r["tenth"] = struct.unpack(o + "HHBBBBH", buf[20:30])
    r["n"], r["factor"], r["mult"] = struct.unpack(o + "Hhh", buf[30:36])
    r["act"], r["io"], r["qual"], r["nblk"] = buf[36:40]
    r["corr"], r["doff"], r["boff"] = struct.unpack(o + "iHH", buf[40:48])
    blk, at, low = [], r["boff"], 48
    while at:
        if at < low or at + 4 > len(buf):
            raise Bad2(f"blockette at {at} overlaps or lies outside")
        num, nxt = struct.unpack(o + "HH", buf[at:at + 4])
        if num in SIZES:
            end = at + SIZES[num]
        else:
            end = nxt or r["doff"] or len(buf)
        if end > len(buf) or (nxt and nxt < end) or end < at + 4:
            raise Bad2(f"blockette {num} at {at} to {end}, next {nxt}")
        body = buf[at + 4:end]
        b = {"num": num, "at": at, "body": body}
        if num == 1000:
            b["enc"], b["order"], b["exp"] = body[0], body[1], body[2]
            r.setdefault("b1000", b)
        elif num == 100:
            b["rate"] = struct.unpack(o + "f", body[:4])[0]
            r["b100"] = b
        elif num == 1001:
            b["tq"], b["us"], b["fc"] = body[0], struct.unpack("b", body[1:2])[0], body[3]
            r["b1001"] = b
        blk.append(b)
        low = end
        at = nxt
    r["blk"], r["bend"] = blk, low
    if len(blk) != r["nblk"]:
        raise Bad2(f"{r['nblk']} blockettes counted, chain reaches {len(blk)}")
    if "b1000" not in r:
        raise Bad2("no blockette 1000")
    if 2 ** r["b1000"]["exp"] != len(buf):
        raise Bad2(f"record of {len(buf)} bytes says 2**{r['b1000']['exp']}")
    if r["doff"]:
        if not low <= r["doff"] <= len(buf):
            raise Bad2(f"data at {r['doff']}, blockettes end at {low}")
        r["data"] = buf[r["doff"]:]
    else:
        r["data"] = b""
    r["us"] = instant_us(r) + (r["b1001"]["us"] if "b1001" in r else 0)
    r["rate"] = Fraction(r["b100"]["rate"]) if "b100" in r else nominal_rate(r["factor"], r["mult"])
    return r


def instant_us(r):
    return refms3.instant_ns(r["year"], r["doy"], r["hour"], r["minute"], r["second"], r["tenth"] * 100000) // 1000


def samples(r):
    enc, n, data = r["b1000"]["enc"], r["n"], r["data"]
    if n == 0:
        return []
    if enc in CODES:
        size = struct.calcsize("<" + CODES[enc])
        if len(data) < n * size:
            raise Bad2("payload too short")
        return list(struct.unpack((">" if r["b1000"]["order"] else "<") + f"{n}{CODES[enc]}", data[:n * size]))
    if enc in (10, 11):
        return refsteim.decode(enc - 9, data[:len(data) // 64 * 64], n)
    return None


def sid(net, sta, loc, chan):
    return f"FDSN:{net}_{sta}_{loc}_{chan[0]}_{chan[1]}_{chan[2]}"
