"""Steim1/Steim2 by the format definition, independent of the code under test.

Frames are 16 big-endian 32-bit words; word 0 holds sixteen 2-bit codes.
Words 1 and 2 of the first frame are the first and last sample.
"""
import struct

FRAME = 64
M32 = 0xFFFFFFFF


def s32(v):
    v &= M32
    return v - (1 << 32) if v & 0x80000000 else v


def sx(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


class BadSteim(Exception):
    pass


# (control code, dnib or None) -> (count, bits)
S1 = {1: (4, 8), 2: (2, 16), 3: (1, 32)}
S2 = {(1, None): (4, 8), (2, 1): (1, 30), (2, 2): (2, 15), (2, 3): (3, 10), (3, 0): (5, 6), (3, 1): (6, 5), (3, 2): (7, 4)}


def diffs(version, data):
    """All differences, in order, plus the two integration constants."""
    if len(data) % FRAME:
        raise BadSteim("not whole frames")
    out = []
    x0 = xn = None
    nwords = 0
    for f in range(len(data) // FRAME):
        w = struct.unpack(">16I", data[f * FRAME:(f + 1) * FRAME])
        if w[0] >> 30:
            raise BadSteim("first code not zero")
        first = 1
        if f == 0:
            x0, xn = s32(w[1]), s32(w[2])
            if (w[0] >> 26) & 0xF:
                raise BadSteim("constants coded as data")
            first = 3
        for i in range(first, 16):
            c = (w[0] >> (30 - 2 * i)) & 3
            if c == 0:
                continue
            nwords += 1
            if version == 1:
                n, b = S1[c]
            else:
                d = None if c == 1 else w[i] >> 30
                if (c, d) not in S2:
                    raise BadSteim(f"illegal code {c},{d}")
                n, b = S2[(c, d)]
            for k in range(n):
                out.append(sx(w[i] >> (b * (n - 1 - k)), b))
    return out, x0, xn, nwords


def decode(version, data, n, bias=0):
    ds, x0, xn, _ = diffs(version, data)
    if n == 0:
        return []
    if len(ds) < n:
        raise BadSteim(f"only {len(ds)} differences for {n} samples")
    out = []
    v = x0 if bias == 0 else s32(bias + ds[0])
    out.append(v)
    for d in ds[1:n]:
        v = s32(v + d)
        out.append(v)
    return out


def word(version, kind, ds):
    """(control code, 32-bit word) for packing `kind` = (code, dnib)."""
    if version == 1:
        n, b = S1[kind[0]]
    else:
        n, b = S2[(kind[0], kind[1])]
    assert len(ds) == n
    w = 0
    for d in ds:
        w = (w << b) | (d & ((1 << b) - 1))
    if version == 2 and kind[1] is not None:
        w |= kind[1] << 30
    return kind[0], w


def assemble(x0, xn, words, pad_frames=0):
    """Frames from a list of (code, word)."""
    frames = []
    cur = [0] * 16
    codes = 0
    pos = 3
    cur[1], cur[2] = x0 & M32, xn & M32
    for c, w in words:
        if pos == 16:
            cur[0] = codes
            frames.append(cur)
            cur, codes, pos = [0] * 16, 0, 1
        cur[pos] = w & M32
        codes |= c << (30 - 2 * pos)
        pos += 1
    cur[0] = codes
    frames.append(cur)
    out = b"".join(struct.pack(">16I", *f) for f in frames)
    return out + bytes(FRAME * pad_frames)


def greedy(version, samples, bias=0):
    """A simple legal encoder: used to make payloads for records."""
    ds = [s32(samples[0] - bias)] + [s32(b - a) for a, b in zip(samples, samples[1:])]
    words = []
    i = 0
    if version == 1:
        order = [((1, None), 4, 8), ((2, None), 2, 16), ((3, None), 1, 32)]
    else:
        order = [((3, 2), 7, 4), ((3, 1), 6, 5), ((3, 0), 5, 6), ((1, None), 4, 8), ((2, 3), 3, 10), ((2, 2), 2, 15), ((2, 1), 1, 30)]
    while i < len(ds):
        for kind, n, b in order:
            chunk = ds[i:i + n]
            if len(chunk) == n and all(-(1 << (b - 1)) <= d < (1 << (b - 1)) for d in chunk):
                words.append(word(version, kind, chunk))
                i += n
                break
        else:
            raise BadSteim(f"difference {ds[i]} does not fit")
    return assemble(samples[0], samples[-1], words)
