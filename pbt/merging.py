"""Generated record runs for the merge properties, and the reference merge rule."""
import array
import json
import struct

import numpy as np
from hypothesis import strategies as st

import simplemseed
from simplemseed import MSeed3Header, MSeed3Record

from . import gen, gen3, refms3, refsteim

CODES = {1: "h", 3: "i", 4: "f", 5: "d"}
# 1 kHz and slower: start times hold microseconds, so a step is at most a thousandth of a period
RATES = [1.0, 20.0, 40.0, 100.0, 200.0, 1000.0, 3.0, 0.1, 12.5, 99.0, 7.3, -10.0, -0.05, -0.01, -60.0, -3600.0, -0.3, 1 / 3]
# offset of a start from the predicted one, in sample periods
DELTAS = {"on": [0.0], "near": [0.3, -0.3, 0.1, -0.1, 0.25, -0.25, 0.01, -0.01, 0.4, -0.4], "gap": [0.6, 0.7, 1.0, 1.5, 2.0, 10.0, 100000.0],
          "over": [-1.0, -1.1, -2.0, -5.0, -100000.0], "back": [-1000.0]}


def rates():
    return st.one_of(st.sampled_from(RATES), st.integers(1, 1000).map(float), st.floats(0.001, 1000), st.floats(0.001, 5000).map(lambda p: -p))


def period(rate):
    return -rate if rate < 0 else 1.0 / rate if rate else 0.0


@st.composite
def values(draw, enc):
    return draw(st.lists(gen3._bits(enc), min_size=1, max_size=10))


CONTS = ["bytes", "bytearray", "nd", "nd>", "array", "readonly", "padded"]
STREAM_CONTS = ["bytes", "padded"]


def expand_bits(bits, enc):
    size = gen3.BITSIZE[enc] // 8
    data = b"".join(b.to_bytes(size, "little") for b in bits)
    return data, list(struct.unpack(f"<{len(bits)}{CODES[enc]}", data))


def to_record(part):
    """MSeed3Record from {us, rate, id, eh, flags, pub, enc, bits, cont, ns}."""
    h = MSeed3Header()
    y, doy, hh, mm, ss, us = refms3.us_to_fields(part["us"])
    h.year, h.dayOfYear, h.hour, h.minute, h.second = y, doy, hh, mm, ss
    h.nanosecond = us * 1000 + part.get("ns", 0)
    h.flags, h.publicationVersion, h.sampleRatePeriod = part["flags"], part["pub"], part["rate"]
    enc = part["enc"]
    data, vals = expand_bits(part["bits"], enc)
    h.encoding, h.numSamples = enc, len(vals)
    c = part["cont"]
    dt = np.dtype(CODES[enc])
    arr = np.frombuffer(data, dtype=dt.newbyteorder("<")).astype(dt)
    if c == "bytes":
        d = data
    elif c == "bytearray":
        d = bytearray(data)
    elif c == "padded":
        d = data + b"\x7e" * 5
    elif c == "nd":
        d = arr
    elif c == "nd>":
        d = arr.astype(dt.newbyteorder(">"))
    elif c == "readonly":
        arr.flags.writeable = False
        d = arr
    else:
        d = array.array(CODES[enc])
        d.frombytes(arr.tobytes())
    eh = part["eh"]
    return MSeed3Record(h, part["id"], d, json.loads(json.dumps(eh)) if isinstance(eh, dict) else eh)


def part_header(part):
    y, doy, hh, mm, ss, us = refms3.us_to_fields(part["us"])
    return dict(flags=part["flags"], ns=us * 1000 + part.get("ns", 0), year=y, doy=doy, hour=hh, minute=mm, second=ss, rate=part["rate"], pub=part["pub"])


def eh_text(eh):
    return "" if eh is None else eh if isinstance(eh, str) else json.dumps(eh)


def eh_val(eh):
    return {} if not eh else json.loads(eh) if isinstance(eh, str) else eh


def canon(v):
    return json.dumps(v, sort_keys=True)


def view(rec):
    """What a record observably is, without disturbing it: header fields, identifier, extra headers, samples."""
    h = rec.header
    eh = getattr(rec, "_eh", None)
    if isinstance(eh, str):
        eh = json.loads(eh) if eh else {}
    elif not isinstance(eh, dict):
        # held in some other way
        eh = rec.clone().eh
    d = rec.decompress()
    return (str(rec.identifier), h.flags, h.nanosecond, h.year, h.dayOfYear, h.hour, h.minute, h.second, h.encoding, float(h.sampleRatePeriod),
            h.numSamples, h.publicationVersion, canon(eh or {}), d.dtype.kind + str(d.dtype.itemsize), np.ascontiguousarray(d, dtype=d.dtype.newbyteorder("<")).tobytes())
