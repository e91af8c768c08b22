"""Shared generators. All cases are plain JSON data."""
import array
import random
import struct

import numpy as np
from hypothesis import strategies as st

from . import consts

I32 = (-(2**31), 2**31 - 1)

WIDTHS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16, 17, 24, 29, 30]
WIDE = WIDTHS + [31, 32]


def wint(bits):
    """A signed value of at most `bits` bits, often at its boundary."""
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    edge = sorted({v for v in (lo, lo + 1, hi, hi - 1, -1, 0, 1) if lo <= v <= hi})
    return st.one_of(st.sampled_from(edge), st.integers(lo, hi))


def sized_int(lo, hi, extra=()):
    pool = consts.ints(lo, hi, extra)
    return st.one_of(st.integers(lo, hi), st.sampled_from(pool))


PATTERNS = ["rand", "edge", "alt", "const", "mix", "zero", "min", "max"]


def _seg_diffs(pattern, width, n, seed):
    r = random.Random(seed)
    lo, hi = -(1 << (width - 1)), (1 << (width - 1)) - 1
    if pattern == "rand":
        return [r.randint(lo, hi) for _ in range(n)]
    if pattern == "edge":
        e = [lo, hi, lo + 1, hi - 1, 0, -1, 1]
        e = [v for v in e if lo <= v <= hi]
        return [r.choice(e) for _ in range(n)]
    if pattern == "alt":
        return [hi if k % 2 == 0 else -hi for k in range(n)]
    if pattern == "const":
        return [hi // 2 if seed % 2 else lo // 2] * n
    if pattern == "zero":
        return [0] * n
    if pattern == "min":
        return [lo] * n
    if pattern == "max":
        return [hi] * n
    # mix: widths change from sample to sample
    out = []
    for _ in range(n):
        w = r.choice([x for x in WIDE if x <= width] or [1])
        a, b = -(1 << (w - 1)), (1 << (w - 1)) - 1
        out.append(r.choice([a, b, r.randint(a, b)]))
    return out


def series(recipe):
    """Expand a recipe to a list of ints within recipe range."""
    lo, hi = recipe.get("range", I32)
    span = hi - lo + 1
    ds = list(recipe.get("diffs", []))
    for seg in recipe.get("segs", []):
        ds.extend(_seg_diffs(*seg))
    v = lo + (recipe["start"] - lo) % span
    out = [v]
    clip = recipe.get("fold") == "clip"
    for d in ds:
        nv = v + d
        if not lo <= nv <= hi:
            if clip:
                nv = v - d
                if not lo <= nv <= hi:
                    nv = v
            else:
                nv = lo + (nv - lo) % span
        v = nv
        out.append(v)
    n = recipe.get("n")
    if n is not None:
        out = out[:n]
    return out


def starts(lo=I32[0], hi=I32[1]):
    return st.one_of(
        st.sampled_from(consts.ints(lo, hi)),
        st.integers(max(lo, -100000), min(hi, 100000)),
        st.integers(lo, hi),
    )


def diff_lists(widths, max_size):
    one = st.sampled_from(widths).flatmap(wint)
    uniform = st.sampled_from(widths).flatmap(lambda w: st.lists(wint(w), max_size=max_size))
    return st.one_of(st.lists(one, max_size=max_size), uniform)


def segments(widths, max_n, max_segs=4):
    return st.lists(
        st.tuples(
            st.sampled_from(PATTERNS),
            st.sampled_from(widths),
            st.one_of(st.integers(1, 70), st.integers(1, max_n), st.sampled_from(consts.mined(1, max_n))),
            st.integers(0, 2**31),
        ).map(list),
        min_size=1,
        max_size=max_segs,
    )


@st.composite
def recipes(draw, widths=WIDE, max_list=40, max_seg=600, fold=("wrap", "clip"), rng=I32, big=True):
    r = {"start": draw(starts(*rng)), "fold": draw(st.sampled_from(list(fold)))}
    if rng != I32:
        r["range"] = list(rng)
    kind = draw(st.integers(0, 3 if big else 1))
    if kind <= 1:
        r["diffs"] = draw(diff_lists(widths, max_list))
    else:
        r["segs"] = draw(segments(widths, max_seg))
    return r


INT_RANGES = {
    "i1": (-128, 127), "u1": (0, 255), "i2": (-32768, 32767), "u2": (0, 65535),
    "i4": I32, "u4": (0, 2**31 - 1), "i8": I32, "u8": (0, 2**31 - 1),
}

CONTAINERS = ["list", "i4", "i4", "<i8", ">i4", "i2", ">i2", "u2", "i1", "u1", "u4", "i8", ">i8", "strided", "reversed", "readonly", "npints", "tuple", "array.i"]


def container_range(c):
    key = c.lstrip("<>")
    return INT_RANGES.get(key, I32)


def to_container(values, c):
    if c == "list":
        return list(values)
    if c == "tuple":
        return tuple(values)
    if c == "npints":
        return [np.int32(v) for v in values]
    if c == "array.i":
        return array.array("i", values)
    if c == "strided":
        a = np.full(3 * len(values) + 2, 7, dtype=np.int32)
        v = a[1:1 + 3 * len(values):3]
        v[:] = values
        return v
    if c == "reversed":
        return np.array(list(values)[::-1], dtype=np.int32)[::-1]
    if c == "readonly":
        a = np.array(values, dtype=np.int32)
        a.flags.writeable = False
        return a
    return np.array(values, dtype=np.dtype(c))


def snapshot(obj):
    if isinstance(obj, np.ndarray):
        return (obj.dtype.str, obj.tobytes())
    return list(obj)


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]
