"""miniSEED3 records by the specification, independent of the code under test."""
import struct

_POLY = 0x82F63B78
_T = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ (_POLY if _c & 1 else 0)
    _T.append(_c)


def crc32c(data, crc=0):
    if len(data) > 30000:
        import crc32c as lib  # same polynomial, only for speed
        return lib.crc32c(bytes(data), crc)
    crc ^= 0xFFFFFFFF
    t = _T
    for b in data:
        crc = t[(crc ^ b) & 0xFF] ^ (crc >> 8)
    return crc ^ 0xFFFFFFFF


assert crc32c(b"123456789") == 0xE3069283

FIELDS = ("flags", "ns", "year", "doy", "hour", "minute", "second", "enc", "rate", "n", "pub")


class Bad3(Exception):
    pass


def build(h, ident: bytes, eh: bytes, payload: bytes, crc=None) -> bytes:
    fixed = (b"MS" + bytes([3, h["flags"]]) + h["ns"].to_bytes(4, "little") + h["year"].to_bytes(2, "little")
             + h["doy"].to_bytes(2, "little") + bytes([h["hour"], h["minute"], h["second"], h["enc"]])
             + struct.pack("<d", h["rate"]) + h["n"].to_bytes(4, "little"))
    tail = bytes([h["pub"], len(ident)]) + len(eh).to_bytes(2, "little") + len(payload).to_bytes(4, "little")
    body = ident + eh + payload
    if crc is None:
        crc = crc32c(fixed + bytes(4) + tail + body)
    return fixed + crc.to_bytes(4, "little") + tail + body


def parse(buf, at=0, check=True):
    """Header dict, identifier bytes, extra header bytes, payload bytes, next offset."""
    b = bytes(buf[at:at + 40])
    if len(b) < 40:
        raise Bad3(f"only {len(b)} bytes at {at}")
    if b[:2] != b"MS" or b[2] != 3:
        raise Bad3("indicator or version")
    le = lambda i, n: int.from_bytes(b[i:i + n], "little")
    h = dict(flags=b[3], ns=le(4, 4), year=le(8, 2), doy=le(10, 2), hour=b[12], minute=b[13], second=b[14], enc=b[15],
             rate=struct.unpack("<d", b[16:24])[0], n=le(24, 4), crc=le(28, 4), pub=b[32])
    idl, ehl, pl = b[33], le(34, 2), le(36, 4)
    end = at + 40 + idl + ehl + pl
    if end > len(buf):
        raise Bad3("record longer than the bytes")
    ident = bytes(buf[at + 40:at + 40 + idl])
    eh = bytes(buf[at + 40 + idl:at + 40 + idl + ehl])
    payload = bytes(buf[at + 40 + idl + ehl:end])
    if check:
        got = crc32c(b[:28] + bytes(4) + b[32:] + ident + eh + payload)
        if got != h["crc"]:
            raise Bad3(f"crc {h['crc']:#x}, computed {got:#x}")
    return h, ident, eh, payload, end


def parse_all(buf, check=True):
    out, at = [], 0
    while at < len(buf):
        h, i, e, p, nxt = parse(buf, at, check)
        out.append((h, i, e, p, bytes(buf[at:nxt])))
        at = nxt
    return out


_PRIM = {1: "h", 3: "i", 4: "f", 5: "d"}


def samples(h, payload):
    """Decode by the format; None for encodings that are not series of numbers here."""
    from . import refsteim
    n, enc = h["n"], h["enc"]
    if enc in _PRIM:
        size = struct.calcsize("<" + _PRIM[enc])
        if len(payload) < n * size:
            raise Bad3("payload too short")
        return list(struct.unpack(f"<{n}{_PRIM[enc]}", payload[:n * size]))
    if enc in (10, 11):
        return refsteim.decode(enc - 9, payload, n)
    return None


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days_before_year(y):
    y -= 1
    return y * 365 + y // 4 - y // 100 + y // 400


def instant_ns(year, doy, hour, minute, second, ns):
    """Nanoseconds since 0001-01-01, leap seconds counted as the following second."""
    days = days_before_year(year) + doy - 1
    return ((days * 24 + hour) * 60 + minute) * 60 * 10**9 + second * 10**9 + ns


def dt_us(dt):
    """Microseconds since 0001-01-01 of an aware UTC or naive datetime, by field."""
    import datetime as d
    if dt.tzinfo is not None:
        assert dt.utcoffset() == d.timedelta(0), dt
    doy = _md_to_doy(dt.year, dt.month, dt.day)
    return instant_ns(dt.year, doy, dt.hour, dt.minute, dt.second, dt.microsecond * 1000) // 1000


_MD = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def _md_to_doy(y, m, d):
    n = d
    for k in range(m - 1):
        n += _MD[k] + (1 if k == 1 and is_leap(y) else 0)
    return n


def us_to_fields(us):
    """(year, doy, hour, minute, second, microsecond) from microseconds since 0001-01-01."""
    s, micro = divmod(us, 10**6)
    days, sec = divmod(s, 86400)
    y = max(1, int(days // 366))
    while days_before_year(y + 1) <= days:
        y += 1
    doy = days - days_before_year(y) + 1
    return y, doy, sec // 3600, sec // 60 % 60, sec % 60, micro


def fmt_us(us):
    """ISO text in the form used by the tools, ending in Z."""
    y, doy, h, m, s, micro = us_to_fields(us)
    mon = 1
    d = doy
    while True:
        n = _MD[mon - 1] + (1 if mon == 2 and is_leap(y) else 0)
        if d <= n:
            break
        d -= n
        mon += 1
    t = f"{y:04d}-{mon:02d}-{d:02d}T{h:02d}:{m:02d}:{s:02d}"
    if micro:
        t += f".{micro:06d}"
    return t + "Z"
