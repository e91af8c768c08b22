"""C22: the conversion command converts every record of a miniSEED2 file."""
import os

from hypothesis import strategies as st

from simplemseed import unpackMSeed3Record

from .. import cli, gen2, gen3
from ..core import Sub, need
from . import c16, c21

RULE = ("files of records written by an independent writer in every layout, mixed byte orders and lengths, through the command; damaged or missing files, a full disk; "
        "non-trivial = at least two records, or a fault took effect")


def run_conv(d, blob, verbose, fsize=None, outname="out.ms3", previous=None):
    src = cli.write(d, "in.ms2", blob)
    out = os.path.join(d, outname)
    if previous is not None:
        cli.write(d, outname, previous)
    argv = ["-2", src, "-3", out] if len(blob) % 3 else ["--ms3", out, "--ms2", src]
    res = cli.run("mseed2to3", argv + (["-v"] if verbose else []), fsize=fsize)
    need(cli.read(src) == blob, "the input file was modified")
    return res, out


@st.composite
def cases(draw):
    return {"recs": draw(gen3.repeats(st.lists(gen2.records(), min_size=0, max_size=6))), "verbose": draw(st.booleans()), "old": draw(st.sampled_from([None, None, 0, 5000]))}


def check(c):
    recs = c["recs"]
    with cli.scratch() as d:
        res, out = run_conv(d, b"".join(gen2.to_bytes(r) for r in recs), c["verbose"], previous=None if c["old"] is None else b"\x4d" * c["old"])
        need(res.ok, "command failed: %s", res.what)
        got = c21.split(cli.read(out))
        need(len(got) == len(recs), "%d records written, should be %d", len(got), len(recs))
        for k, (r, (*_x, raw)) in enumerate(zip(recs, got)):
            c16.verify3(unpackMSeed3Record(raw), c16.wanted(r), f"record {k}")
    return len(recs) > 1, ["n:%d" % len(recs), "verbose" if c["verbose"] else "quiet"]


@st.composite
def faults(draw):
    # no time in a leap second, nor an opaque payload that verbose output could stumble over
    return {"recs": draw(st.lists(gen2.records(small=True), min_size=1, max_size=4)), "verbose": draw(st.booleans()), "fault": draw(st.one_of(
        st.builds(lambda x: {"kind": "full", "x": x}, st.floats(0, 1)),
        st.builds(lambda k: {"kind": "year", "k": k}, st.integers(0, 3)),
        st.builds(lambda k: {"kind": "no1000", "k": k}, st.integers(0, 3)),
        st.builds(lambda h: {"kind": "onto", "how": h}, st.sampled_from(cli.SPELLINGS)),
        st.just({"kind": "missing"}), st.just({"kind": "nodir"})))}


def check_fault(c):
    f = c["fault"]
    raws = [gen2.to_bytes(r) for r in c["recs"]]
    blob = b"".join(raws)
    with cli.scratch() as d:
        kind = f["kind"]
        if kind == "missing":
            res = cli.run("mseed2to3", ["-2", os.path.join(d, "absent.ms2"), "-3", os.path.join(d, "out.ms3")])
            need(not res.ok, "absent input did not fail the command")
        elif kind == "onto":
            # told to write over the input
            src = cli.write(d, "in.ms2", blob)
            argv = ["-2", src, "-3", cli.spell(d, src, f["how"])]
            res = cli.run("mseed2to3", (argv[2:] + argv[:2] if len(blob) % 256 else argv) + (["-v"] if c["verbose"] else []))
            need(cli.read(src) == blob, "the input file was modified, named (%s) as output, too", f["how"])
            need(not res.ok, "command says all is well when told to write over its input")
        elif kind == "nodir":
            res, _out = run_conv(d, blob, c["verbose"], outname="no-dir/out.ms3")
            need(not res.ok, "output that cannot be created did not fail the command")
        elif kind == "year":
            # a record that is not miniSEED2 at all: no year, day, time
            k = f["k"] % len(raws)
            b = bytearray(raws[k])
            b[20:30] = b"\xff" * 10
            res, _out = run_conv(d, b"".join(raws[:k]) + bytes(b) + b"".join(raws[k + 1:]), c["verbose"])
            need(not res.ok, "a record without a possible time did not fail the command")
        elif kind == "no1000":
            # a record that does not say its length and encoding: converted like the others or refused, not left out
            k = f["k"] % len(raws)
            b, order = bytearray(raws[k]), "big" if c["recs"][k]["o"] == ">" else "little"
            at = int.from_bytes(b[46:48], order)
            while int.from_bytes(b[at:at + 2], order) != 1000:
                at = int.from_bytes(b[at + 2:at + 4], order)
            b[at:at + 2] = (999).to_bytes(2, order)
            res, out = run_conv(d, b"".join(raws[:k]) + bytes(b) + b"".join(raws[k + 1:]), c["verbose"])
            if res.ok:
                n = len(c21.split(cli.read(out)))
                need(n == len(raws), "%d records written of %d, one without blockette 1000, and the command succeeds", n, len(raws))
        else:
            res, out = run_conv(d, blob, c["verbose"])
            need(res.ok, "command failed: %s", res.what)
            whole = cli.read(out)
            limit = max(0, min(len(whole) - 1, int(f["x"] * len(whole))))
            res, out = run_conv(d, blob, c["verbose"], fsize=limit, outname="out2.ms3")
            need(not res.ok, "a disk full after %d of %d bytes did not fail the command", limit, len(whole))
            need(whole.startswith(cli.read(out)), "partial output is not the beginning of the whole one")
    return True, [kind]


def directed():
    """Many samples in a record, and many records."""
    small = [dict(net="XX", sta="AAA", loc="00", chan="HHZ" if k % 5 else "HHN", year=2024, doy=1, hour=k // 3600, minute=k // 60 % 60, second=k % 60, tenth=0, seq="%06d" % k, q="D", factor=1, mult=1,
                  act=0, io=0, qual=0, corr=0, n=1, o=">", fill=0, blk=[{"num": 1000, "enc": 3, "order": 1, "exp": 7}], p={"kind": "prim", "enc": 3, "bits": [k], "rep": 1}, exp=7) for k in range(1200)]
    return [{"recs": [r], "verbose": False, "old": None} for r in gen2.many()[::2]] + [{"recs": small[:n], "verbose": False, "old": None} for n in (300, 1200)]


SUBS = [
    Sub("files", cases(), check, 1600, 30000, shards=8, directed=directed),
    Sub("fault", faults(), check_fault, 600, 12000, shards=8),
]
