"""C08: streams of miniSEED3 records are read completely, in order and filtered exactly."""
import contextlib
import io
import os
import re
import tempfile

from hypothesis import strategies as st

import simplemseed

from .. import gen3, refms3
from ..core import Sub, need

RULE = ("streams of 0 to 12 generated records of mixed kinds behind a start offset, read from memory or files, with generated identifier patterns, "
        "several readers advanced in a generated interleaving; non-trivial = at least two records, and with a pattern at least one match or one non-match")

@st.composite
def streams(draw, max_n=12):
    recs = draw(gen3.repeats(st.lists(gen3.records(kinds=("prim", "prim", "steim", "raw", "none"), big=draw(st.integers(0, 4)) == 0), max_size=max_n)))
    if recs and draw(st.booleans()):
        # few identifiers, many records
        ids = draw(st.lists(gen3.idents(), min_size=1, max_size=2))
        for k, r in enumerate(recs):
            r["id"] = ids[k % len(ids)] if draw(st.booleans()) else r["id"]
    pat = draw(st.one_of(st.none(), gen3.patterns([r["id"] for r in recs])))
    return {"recs": recs, "pat": pat, "skip": draw(st.sampled_from([0, 0, 1, 40, 129])), "src": draw(st.sampled_from(["mem", "mem", "file", "raw", "smallbuf"])),
            "crc": draw(st.booleans()), "split": draw(st.integers(0, 12)), "verbose": draw(st.integers(0, 3)) == 0}


@st.composite
def cases(draw):
    return {"streams": draw(st.lists(streams(), min_size=1, max_size=2)), "order": draw(st.lists(st.integers(0, 1), max_size=30))}


def printable(r):
    """End time within the calendar, which printing needs."""
    p = r["payload"]
    n = max(1, p.get("n", 0)) if p["kind"] == "raw" else 140000
    secs = n * (-r["rate"] if r["rate"] < 0 else 1 / r["rate"] if r["rate"] > 0 else 0)
    return 40 < r["year"] < 9900 and secs < 1e9


class Reader:
    def __init__(self, s, tmp, k):
        raws = [gen3.to_bytes(r) for r in s["recs"]]
        blob = b"\xee" * s["skip"] + b"".join(raws)
        if s["src"] == "mem":
            self.f = io.BytesIO(blob)
        else:
            path = os.path.join(tmp, f"s{k}")
            with open(path, "wb") as f:
                f.write(blob)
            self.f = open(path, "rb", buffering={"file": -1, "raw": 0, "smallbuf": 64}[s["src"]])
        self.f.seek(s["skip"])
        self.kw = {"check_crc": s["crc"]}
        if s.get("verbose") and all(printable(r) for r in s["recs"]):
            self.kw["verbose"] = True
        self.pat = s["pat"]
        if s["pat"] is not None:
            self.kw["matchsid"] = s["pat"]
        self.want = [r for r, rec in zip(raws, s["recs"]) if s["pat"] is None or re.search(s["pat"], rec["id"])]
        self.n, self.total = len(blob), len(raws)
        self.split = s["split"]
        self.it = simplemseed.readMSeed3Records(self.f, **self.kw)
        self.got = []
        self.done = False

    def step(self):
        if self.done:
            return
        if self.split and len(self.got) == self.split:
            # a new reader goes on from the current position
            self.split = 0
            self.it = simplemseed.readMSeed3Records(self.f, **self.kw)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                rec = next(self.it)
        except StopIteration:
            self.done = True
            return
        self.got.append(rec)

    def finish(self):
        while not self.done:
            self.step()
            need(len(self.got) <= self.total, "more records yielded than the stream holds")
        need(len(self.got) == len(self.want), "%d of the stream's %d records should be yielded (pattern %r), got %d", len(self.want), self.total, self.pat, len(self.got))
        for k, (g, w) in enumerate(zip(self.got, self.want)):
            need(bytes(g.pack()) == w, "yielded record %d is not the one in the stream", k)
        need(self.f.tell() == self.n, "stream read to %d of %d bytes", self.f.tell(), self.n)
        self.f.close()


def check(c):
    with tempfile.TemporaryDirectory(prefix="pbt-c08-") as tmp:
        readers = [Reader(s, tmp, k) for k, s in enumerate(c["streams"])]
        for o in c["order"]:
            if o < len(readers):
                readers[o].step()
        for r in readers:
            r.finish()
    labels = ["streams:%d" % len(readers)]
    nt = False
    for s, r in zip(c["streams"], readers):
        labels.append("src:" + s["src"])
        if s["pat"] is None:
            labels.append("pattern:none")
            nt = nt or r.total >= 2
        else:
            k = "all" if len(r.want) == r.total else "none" if not r.want else "some"
            labels.append("pattern:" + k)
            nt = nt or (r.total >= 2)
    return nt, labels


@st.composite
def matches(draw):
    ids = draw(st.lists(gen3.idents(), min_size=1, max_size=6))
    return {"ids": ids, "pats": draw(st.lists(gen3.patterns(ids), min_size=1, max_size=8))}


def check_match(c):
    """Many patterns over one stream of small records."""
    recs = [{"flags": 0, "pub": 1, "rate": 1.0, "id": i, "eh": "", "year": 2024, "doy": 60, "hour": 0, "minute": 0, "second": k % 60, "ns": 0,
             "payload": {"kind": "prim", "enc": 1, "bits": [k], "rep": 1}} for k, i in enumerate(c["ids"])]
    raws = [gen3.to_bytes(r) for r in recs]
    some = False
    for pat in c["pats"]:
        want = [w for w, i in zip(raws, c["ids"]) if re.search(pat, i)]
        some = some or 0 < len(want) < len(raws)
        f = io.BytesIO(b"".join(raws))
        got = [bytes(r.pack()) for r in simplemseed.readMSeed3Records(f, matchsid=pat)]
        need(got == want, "pattern %r of %r: %d records, should be %d", pat, c["ids"], len(got), len(want))
        need(f.tell() == len(b"".join(raws)), "pattern %r: stream not read to its end", pat)
    return some, ["ids:%d" % len(c["ids"])]


def directed():
    """Records that match or not, of sizes around those of buffers."""
    def rec(i, size, eh=0):
        return {"flags": 0, "pub": 0, "rate": 1.0, "id": i, "eh": "{" + " " * (eh - 2) + "}" if eh else "", "year": 2024, "doy": 60, "hour": 0, "minute": 0, "second": 0, "ns": 0,
                "payload": {"kind": "raw", "enc": 100, "hex": "4d", "rep": size, "n": 0}}
    out = []
    for size in gen3.BUF_SIZES + [2**20, 2**24 + 5]:
        for eh in (0, 65535):
            for pat in (None, "_Z$", "_N$"):
                recs = [rec("FDSN:XX_A__H_H_Z", 3), rec("FDSN:XX_A__H_H_N", size, eh), rec("FDSN:XX_A__H_H_Z", 4)]
                out.append({"streams": [{"recs": recs, "pat": pat, "skip": 0, "src": "mem" if size % 2 else "file", "crc": size < 2**24, "split": 0}], "order": []})
    return out


def long_stream():
    """More records than a recursion, a buffer or a table of some size takes."""
    return [{"ids": (["FDSN:XX_A__H_H_Z"] * 3 + ["FDSN:XX_B__H_H_N"]) * n, "pats": ["", "_N$", "Q"]} for n in (70, 300, 1100)] \
        + [{"ids": ["FDSN:XX_B__H_H_N"] * n + ["FDSN:XX_A__H_H_Z"], "pats": ["_Z$", "Z"]} for n in (1024, 2500)]


SUBS = [Sub("streams", cases(), check, quick=1600, thorough=30000, directed=directed, shards=8),
        Sub("match", matches(), check_match, quick=1500, thorough=30000, directed=long_stream)]
