"""C21: the merge command writes exactly the merged content of its input."""
import os

from hypothesis import strategies as st

from simplemseed import unpackMSeed3Record

from .. import cli, gen3, merging, refms3
from ..core import Sub, need
from . import c09, c10

RULE = ("files of generated runs, gaps, overlaps, several channels, all encodings and opaque records, through the command; damaged files, missing files, a full disk; "
        "non-trivial = records were merged, or a fault took effect")


def run_merge(d, blob, opts, fsize=None, outname="out.ms3", previous=None):
    src = cli.write(d, "in.ms3", blob)
    out = os.path.join(d, outname)
    if previous is not None:
        cli.write(d, outname, previous)
    argv = ["-o", out] + opts + [src] if len(blob) % 2 else opts + [src, "--outfile", out]
    res = cli.run("mseed3merge", argv, fsize=fsize)
    need(cli.read(src) == blob, "the input file was modified")
    return res, out


def split(raw, where="output"):
    try:
        return refms3.parse_all(raw)
    except refms3.Bad3 as e:
        raise AssertionError(f"{where}: {e}")


@st.composite
def contents(draw):
    return {"parts": draw(c09.runs(True)), "opts": draw(st.sampled_from([[], [], ["-v"], ["--decomp"], ["-v", "--decomp"]])), "old": draw(st.sampled_from([None, None, 0, 5000]))}


def check_content(c):
    with cli.scratch() as d:
        blob = b"".join(c09.part_bytes(p) for p in c["parts"])
        old = None if c["old"] is None else b"\x4d" * c["old"]
        res, out = run_merge(d, blob, c["opts"], previous=old)
        need(res.ok, "command failed: %s", res.what)
        recs = split(cli.read(out))
        return c09.verify_stream(c["parts"], [unpackMSeed3Record(raw) for *_x, raw in recs])


def check_chain(c):
    parts, runs_ = c10.plan_chain(c)
    if parts is None:
        return False, ["out-of-range"]
    with cli.scratch() as d:
        res, out = run_merge(d, b"".join(c09.part_bytes(p) for p in parts), ["-v"] if c["fold"] else [])
        need(res.ok, "command failed: %s", res.what)
        got = []
        vals = []
        for h, ident, _eh, payload, _raw in split(cli.read(out)):
            us = refms3.instant_ns(h["year"], h["doy"], h["hour"], h["minute"], h["second"], h["ns"]) // 1000
            got.append((ident.decode(), h["rate"], h["enc"], h["pub"], us, h["n"]))
            vals.append(payload)
        want = [r["key"] + (r["us"], r["n"]) for r in runs_]
        need(got == want, "records %r, should be %r", got, want)
        data = b"".join(merging.expand_bits(p["bits"], p["enc"])[0] for p in parts)
        need(b"".join(vals) == data, "samples of the output differ from the input's")
        return len(want) < len(parts), ["runs:%d" % min(5, len(want)), "parts:%d" % len(parts)]


@st.composite
def faults(draw):
    parts = draw(c09.runs(True))
    return {"parts": parts, "opts": draw(st.sampled_from([[], ["-v"], ["--decomp"], ["-v", "--decomp"]])), "fault": draw(st.one_of(
        st.builds(lambda x, b: {"kind": "flip", "x": x, "bit": b}, st.floats(0, 1), st.integers(0, 7)),
        st.builds(lambda n: {"kind": "cut", "n": n}, st.integers(1, 400)),
        st.builds(lambda n: {"kind": "junk", "n": n}, st.integers(1, 60)),
        st.builds(lambda x: {"kind": "full", "x": x}, st.floats(0, 1)),
        st.builds(lambda h: {"kind": "onto", "how": h}, st.sampled_from(cli.SPELLINGS)),
        st.just({"kind": "missing"}), st.just({"kind": "nodir"})))}


def check_fault(c):
    f, parts = c["fault"], c["parts"]
    raws = [c09.part_bytes(p) for p in parts]
    blob = b"".join(raws)
    with cli.scratch() as d:
        kind = f["kind"]
        if kind == "flip":
            b = bytearray(blob)
            b[min(len(b) - 1, int(f["x"] * len(b)))] ^= 1 << f["bit"]
            res, out = run_merge(d, bytes(b), c["opts"])
            need(not res.ok, "damaged input did not fail the command")
        elif kind == "cut":
            n = min(f["n"], len(raws[-1]) - 1)
            res, out = run_merge(d, blob[:-n], c["opts"])
            need(not res.ok, "input cut short by %d bytes did not fail the command", n)
        elif kind == "junk":
            res, out = run_merge(d, blob + b"\x00" * f["n"], c["opts"])
            need(not res.ok, "trailing bytes that are no record did not fail the command")
        elif kind == "missing":
            res = cli.run("mseed3merge", ["-o", os.path.join(d, "out.ms3"), os.path.join(d, "absent.ms3")])
            need(not res.ok, "absent input did not fail the command")
        elif kind == "onto":
            # told to write over the input
            src = cli.write(d, "in.ms3", blob)
            res = cli.run("mseed3merge", c["opts"] + ["-o", cli.spell(d, src, f["how"]), src])
            need(cli.read(src) == blob, "the input file was modified, named (%s) as output, too", f["how"])
            need(not res.ok, "command says all is well when told to write over its input")
        elif kind == "nodir":
            res, out = run_merge(d, blob, c["opts"], outname="no-dir/out.ms3")
            need(not res.ok, "output that cannot be created did not fail the command")
        else:
            res, out = run_merge(d, blob, c["opts"])
            need(res.ok, "command failed: %s", res.what)
            whole = cli.read(out)
            limit = min(len(whole) - 1, int(f["x"] * len(whole)))
            res, out = run_merge(d, blob, c["opts"], fsize=max(limit, 0), outname="out2.ms3")
            need(not res.ok, "a disk full after %d of %d bytes did not fail the command", limit, len(whole))
            need(whole.startswith(cli.read(out)), "partial output is not the beginning of the whole one")
        return True, [kind]


def check_empty(c):
    with cli.scratch() as d:
        res, out = run_merge(d, b"", c["opts"], previous=b"old")
        need(res.ok and cli.read(out) == b"", "empty input: ok=%s, %d bytes written", res.ok, len(cli.read(out)))
        return False, ["empty"]


SUBS = [
    Sub("content", contents(), check_content, 1200, 25000, directed=lambda: c09.long_runs()[1::2], shards=8),
    Sub("chains", c10.chains(), check_chain, 1200, 25000, directed=c10.long_chains, shards=8),
    Sub("fault", faults(), check_fault, 1000, 20000, shards=8),
    Sub("empty", st.builds(lambda o: {"opts": o}, st.sampled_from([[], ["-v"]])), check_empty, 2, 2, shards=1),
]
