"""C23: the details commands report every matching record and its true contents."""
import datetime as dt
import json
import os
import re
import struct
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import cli, gen2, gen3, refms2, refms3
from ..core import Sub, need

RULE = ("one to three files of generated records of either format (every encoding, no data, no rate, leap seconds), patterns, summary, extra header, data options; "
        "non-trivial = at least one record listed")

EPOCH = dt.datetime(1, 1, 1, tzinfo=dt.timezone.utc)


def us_of(text):
    t = dt.datetime.fromisoformat(text.replace("Z", "+00:00"))
    if t.tzinfo is None:
        t = t.replace(tzinfo=dt.timezone.utc)
    return (t - EPOCH) // dt.timedelta(microseconds=1)


STAMP = r"(\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(?:\.\d+)?(?:Z|\+00:00)?)"


def total(out, want_n, want_rec):
    m = re.findall(r"Total (\d+) samples in (\d+) records", out)
    need(len(m) == 1, "total line printed %d times", len(m))
    need(out.rstrip().split("\n")[-1].startswith("Total "), "total is not the last line")
    need((int(m[0][0]), int(m[0][1])) == (want_n, want_rec), "total says %s samples in %s records, should be %d in %d", m[0][0], m[0][1], want_n, want_rec)


def numbers_after(block, label):
    m = re.search(r"(?m)^ *" + re.escape(label) + r":\s*(\S+)", block)
    need(m is not None, "%r not in the details", label)
    return m[1]


NAMES = {1: "16.*int", 3: "32.*int", 4: "32.*float", 5: "64.*float", 10: "steim.*1", 11: "steim.*2"}


def check_rest(text, enc, days, where):
    """Day of year and encoding."""
    m = re.search(r"payload encoding:(.*)\(val: (\d+)\)", text)
    need(m is not None and m[2] == str(enc), "%s: encoding %s, should be %d", where, m and m[0], enc)
    need(enc not in NAMES or re.search(NAMES[enc], m[1].lower()) is not None, "%s: encoding %d called %r", where, enc, m[1])
    m = re.search(r"start time: \S+ \((\d+)\)", text)
    need(m is None or int(m[1]) in days, "%s: day of year %s, should be one of %r", where, m and m[1], days)


def check_values(text, vals, enc, where):
    got = text.split()
    need(len(got) == len(vals), "%s: %d values printed, should be %d", where, len(got), len(vals))
    if enc in (4, 5):
        code = "<f" if enc == 4 else "<d"
        bad = [k for k in range(len(vals)) if struct.pack(code, float(got[k])) != struct.pack(code, vals[k])]
    else:
        bad = [k for k in range(len(vals)) if int(got[k]) != vals[k]]
    need(not bad, "%s: value %d printed as %s, is %r", where, bad[0] if bad else 0, got[bad[0]] if bad else 0, vals[bad[0]] if bad else 0)


def end_us(start, rate, n):
    """Exact end in microseconds."""
    return start + (Fraction(10**6) / rate * (n - 1) if rate else 0)


def check_times(a, b, start, rate, n, where):
    need(us_of(a) == start, "%s: start %s is %d microseconds off", where, a, us_of(a) - start)
    e = end_us(start, rate, n)
    if n > 0 or e >= 10**9:
        need(abs(us_of(b) - e) <= 2 + abs(e - start) / 10**12, "%s: end %s is %s microseconds off", where, b, float(us_of(b) - e))


def blocks(out, want, keys, summary):
    """The text of each record: from its first line to the next record's."""
    out = out[:out.rindex("Total ")]
    if summary:
        lines = out.split("\n")
        need(lines.pop() == "" or not lines, "summary lines")
        need(len(lines) == len(want), "%d summary lines, should be %d", len(lines), len(want))
        return lines
    starts = [m.start() for m in re.finditer(r"(?m)^.*\n +start time:", out)]
    need(len(starts) == len(want), "%d records described, should be %d", len(starts), len(want))
    return [out[a:b] for a, b in zip(starts, starts[1:] + [len(out)])]


# ---- miniSEED 3

IDS = st.one_of(st.sampled_from(gen3.ID_POOL), gen3.FDSN_ID)
def pats(ids):
    return st.one_of(st.none(), gen3.patterns(ids))


@st.composite
def cases3(draw):
    kinds = ("prim", "prim", "steim", "raw", "none")
    files = draw(st.lists(gen3.repeats(st.lists(gen3.records(kinds=kinds, big=False, ids=IDS, years=(1000, 9000)), min_size=0, max_size=5)), min_size=1, max_size=3))
    return {"files": files, "pat": draw(pats([r["id"] for f in files for r in f])), "opts": draw(st.sampled_from([["--summary"], [], ["--eh"], ["--data"], ["--eh", "--data"], ["-v"], ["--summary", "-v"]]))}


def check3(c):
    recs = [r for f in c["files"] for r in f if c["pat"] is None or re.search(c["pat"], r["id"])]
    with cli.scratch() as d:
        before = [b"".join(gen3.to_bytes(r) for r in f) for f in c["files"]]
        names = [cli.write(d, f"f{k}.ms3", b) for k, b in enumerate(before)]
        argv = c["opts"] + ([] if c["pat"] is None else ["--match=" + c["pat"]])
        res = cli.run("mseed3details", argv + names if len(before[0]) % 2 else names + argv)
        need([cli.read(n) for n in names] == before and sorted(os.listdir(d)) == [f"f{k}.ms3" for k in range(len(names))], "a file was changed")
    need(res.ok, "command failed: %s", res.what)
    exp = [gen3.expand_payload(r["payload"]) for r in recs]
    total(res.out, sum(e[1] for e in exp), len(recs))
    summary = "--summary" in c["opts"]
    for k, (text, r, (enc, n, data, vals)) in enumerate(zip(blocks(res.out, recs, None, summary), recs, exp)):
        where = f"record {k}"
        rate = Fraction(r["rate"]) if r["rate"] >= 0 else -1 / Fraction(r["rate"])
        start = gen3.start_us(r)
        need(re.search(r"(?<!\S)" + re.escape(r["id"]) + r"(?![\w:])", text) is not None, "%s: identifier %r not in %r", where, r["id"], text[:200])
        if summary:
            m = re.fullmatch(re.escape(r["id"]) + r" +" + STAMP + " +" + STAMP + r" +\((\d+) pts\)", text.strip())
            need(m is not None, "%s: summary %r", where, text)
            check_times(m[1], m[2], start, rate, n, where)
            need(int(m[3]) == n, "%s: %s samples, should be %d", where, m[3], n)
            continue
        raw = gen3.to_bytes(r)
        first = text.split("\n")[0]
        need(re.search(r"version (\d+)", first)[1] == str(r["pub"]) and re.search(r"(\d+) bytes", first)[1] == str(len(raw)), "%s: %r, should be version %d, %d bytes", where, first, r["pub"], len(raw))
        need(us_of(numbers_after(text, "start time")) == start, "%s: start %s", where, numbers_after(text, "start time"))
        need(int(numbers_after(text, "number of samples")) == n, "%s: %s samples, should be %d", where, numbers_after(text, "number of samples"), n)
        got = Fraction(float(numbers_after(text, "sample rate (Hz)")))
        need(abs(got - rate) <= rate / 10**12, "%s: rate %s, should be %s", where, float(got), float(rate))
        m = re.search(r"flags: \[([01]+)\]", text)
        need(m is not None and int(m[1], 2) == r["flags"], "%s: flags %s, should be %s", where, m and m[1], bin(r["flags"]))
        bits = [int(x) for x in re.findall(r"\[Bit (\d)\]", text)]
        need(bits == [k for k in range(8) if r["flags"] >> k & 1], "%s: bits %r described, flags are %s", where, bits, bin(r["flags"]))
        for k, word in enumerate(("calibration", "questionable", "lock")):
            need((re.search(word, text[:text.index("CRC:")], re.I) is not None) == bool(r["flags"] >> k & 1), "%s: %s flag, flags are %s", where, word, bin(r["flags"]))
        need(int(numbers_after(text, "CRC"), 16) == refms3.parse(raw)[0]["crc"], "%s: CRC %s", where, numbers_after(text, "CRC"))
        need(int(numbers_after(text, "extra header length")) == len(r["eh"].encode()), "%s: extra header length", where)
        need(int(numbers_after(text, "data payload length")) == len(data), "%s: data payload length", where)
        check_rest(text, enc, {r["doy"], (EPOCH + dt.timedelta(microseconds=start)).timetuple().tm_yday}, where)
        rest = text[text.index("extra headers:") + len("extra headers:"):]
        want_eh = gen3.eh_value(r["eh"])
        if "--eh" in c["opts"] and want_eh:
            v, end = json.JSONDecoder().raw_decode(rest.lstrip())
            need(json.dumps(v, sort_keys=True) == json.dumps(want_eh, sort_keys=True), "%s: extra headers %s, should be %s", where, v, want_eh)
            rest = rest.lstrip()[end:]
        if "--data" in c["opts"] and vals is not None:
            need("data:" in rest, "%s: no data printed", where)
            check_values(rest[rest.index("data:") + 5:], vals, enc, where)
    return len(recs) > 0, ["opts:" + "".join(c["opts"]), "n:%d" % min(3, len(recs))]


def directed3():
    """Records of many samples, and many records."""
    def rec(enc, bits, rep, i="FDSN:XX_A__H_H_Z"):
        return {"flags": 0, "pub": 0, "rate": 1.0, "id": i, "eh": "", "year": 2024, "doy": 60, "hour": 0, "minute": 0, "second": 0, "ns": 0,
                "payload": {"kind": "prim", "enc": enc, "bits": bits, "rep": rep}}
    out = []
    for n in (100, 999, 1000, 1001, 4097, 20011):
        for enc, size in ((1, 16), (3, 32), (4, 32), (5, 64)):
            # all exponents but the last, so that no value is infinite or not a number
            bits = [k * 2654435761 % 2**size & ~(1 << size - 2) for k in range(7)]
            out.append({"files": [[rec(enc, bits, n // 7), rec(enc, bits[:2], 1)]], "pat": None, "opts": ["--data"]})
    for n in (20, 100, 300):
        out.append({"files": [[rec(1, [k], 1, "FDSN:XX_A__H_H_" + "ZNE"[k % 3]) for k in range(n)], [rec(1, [5], 3)]], "pat": "[ZN]$", "opts": ["--data"] if n == 100 else ["--summary"] if n == 300 else []})
    return out


# ---- miniSEED 2

@st.composite
def cases2(draw):
    files = draw(st.lists(gen3.repeats(st.lists(gen2.records(), min_size=0, max_size=5)), min_size=1, max_size=3))
    return {"files": files, "pat": draw(pats([gen2.sid(r) for f in files for r in f])),
            "opts": draw(st.sampled_from([["--summary"], [], ["--data"], ["-v"], ["--summary", "-v"]]))}


def directed2():
    """Records of many samples."""
    out = []
    for n in (99, 1001, 5003, 16001):
        for enc, size in ((1, 16), (3, 32), (4, 32), (5, 64)):
            bits = [k * 2654435761 % 2**size & ~(1 << size - 2) for k in range(11)]
            exp = (64 + (n // 11 + 1) * 11 * size // 8).bit_length()
            out.append({"files": [[dict(net="XX", sta="ABC", loc="00", chan="HHZ", year=2024, doy=1, hour=0, minute=0, second=1, tenth=0, seq="000001", q="D", factor=20, mult=1, act=0, io=0, qual=0, corr=0,
                                        n=(n // 11 + 1) * 11, o="><"[n % 2], fill=0, blk=[{"num": 1000, "enc": enc, "order": enc % 2, "exp": exp}], p={"kind": "prim", "enc": enc, "bits": bits, "rep": n // 11 + 1}, exp=exp)]],
                        "pat": None, "opts": ["--data"]})
    return out


def check2(c):
    recs = [r for f in c["files"] for r in f if c["pat"] is None or re.search(c["pat"], gen2.sid(r))]
    with cli.scratch() as d:
        before = [b"".join(gen2.to_bytes(r) for r in f) for f in c["files"]]
        names = [cli.write(d, f"f{k}.ms2", b) for k, b in enumerate(before)]
        argv = c["opts"] + ([] if c["pat"] is None else ["--match=" + c["pat"]])
        res = cli.run("mseed2details", argv + names if sum(map(len, c["files"])) % 2 else names + argv)
        need([cli.read(n) for n in names] == before and sorted(os.listdir(d)) == [f"f{k}.ms2" for k in range(len(names))], "a file was changed")
    need(res.ok, "command failed: %s", res.what)
    total(res.out, sum(r["n"] for r in recs), len(recs))
    summary = "--summary" in c["opts"]
    for k, (text, r) in enumerate(zip(blocks(res.out, recs, None, summary), recs)):
        where = f"record {k}"
        rate, start, n = gen2.rate(r), gen2.start_us(r), r["n"]
        if summary:
            ts = re.findall(STAMP, text)
            need(len(ts) == 2, "%s: summary %r", where, text)
            pre = text[:text.index(ts[0])]
            need(re.fullmatch(r"\W*".join(map(re.escape, [r["net"], r["sta"], r["loc"], r["chan"]])), pre.strip()) is not None, "%s: codes %r", where, pre)
            check_times(ts[0], ts[1], start, rate, n, where)
            m = re.search(r"\((\d+) pts\)\s*$", text)
            need(m is not None and int(m[1]) == n, "%s: summary %r, should count %d", where, text, n)
            continue
        first = text.split("\n")[0]
        need(re.search(r"(?<!\S)" + re.escape(gen2.sid(r)) + r"(?![\w:])", first) is not None, "%s: identifier %s not in %r", where, gen2.sid(r), first)
        need(re.search(r"quality (\S)", first)[1] == r["q"] and re.search(r"(\d+) bytes", first)[1] == str(2 ** r["exp"]), "%s: %r, should be quality %s, %d bytes", where, first, r["q"], 2 ** r["exp"])
        need(us_of(numbers_after(text, "start time")) == start, "%s: start %s", where, numbers_after(text, "start time"))
        need(int(numbers_after(text, "number of samples")) == n, "%s: %s samples, should be %d", where, numbers_after(text, "number of samples"), n)
        got = Fraction(float(numbers_after(text, "sample rate (Hz)")))
        need(abs(got - rate) <= rate / 10**12, "%s: rate %s, should be %s", where, float(got), float(rate))
        fl = [int(x, 2) for x in re.findall(r"flags: \[([01]+)\]", text)]
        need(fl == [r["act"], r["io"], r["qual"]], "%s: flags %r, should be %r", where, fl, [r["act"], r["io"], r["qual"]])
        enc = next(b["enc"] for b in r["blk"] if b["num"] == 1000)
        check_rest(text, enc, {r["doy"], (EPOCH + dt.timedelta(microseconds=start)).timetuple().tm_yday}, where)
        vals = gen2.values(r)
        if "--data" in c["opts"] and vals is not None:
            need("data:" in text, "%s: no data printed", where)
            check_values(text[text.rindex("data:") + 5:], vals, enc, where)
    return len(recs) > 0, ["opts:" + "".join(c["opts"]), "n:%d" % min(3, len(recs))]


@st.composite
def matches(draw):
    if draw(st.booleans()):
        ids = draw(st.lists(IDS, min_size=1, max_size=5))
        c = {"ids": ids}
    else:
        codes = draw(st.lists(gen2.codes(), min_size=1, max_size=5))
        c = {"codes": codes}
        ids = [gen2.sid(k) for k in codes]
    c["pats"] = draw(st.lists(gen3.patterns(ids), min_size=1, max_size=5))
    c["cut"] = draw(st.integers(0, len(ids)))
    return c


def check_match(c):
    """Many patterns over small records in two files, record k in second k."""
    t = {"year": 2024, "doy": 60, "hour": 0, "minute": 0}
    if "ids" in c:
        ids = c["ids"]
        raws = [gen3.to_bytes(dict(t, flags=0, pub=1, rate=1.0, id=i, eh="", second=k % 60, ns=0, payload={"kind": "prim", "enc": 1, "bits": [k], "rep": 1})) for k, i in enumerate(ids)]
    else:
        recs = [dict(x, **t, second=k % 60, tenth=0, seq="000001", q="D", factor=20, mult=1, act=0, io=0, qual=0, corr=0, n=1, o=">", fill=0,
                     blk=[{"num": 1000, "enc": 3, "order": 1, "exp": 7}], p={"kind": "prim", "enc": 3, "bits": [k], "rep": 1}, exp=7) for k, x in enumerate(c["codes"])]
        ids, raws = [gen2.sid(r) for r in recs], [gen2.to_bytes(r) for r in recs]
    some = False
    with cli.scratch() as d:
        names = [cli.write(d, "a", b"".join(raws[:c["cut"]])), cli.write(d, "b", b"".join(raws[c["cut"]:]))]
        for pat in c["pats"]:
            want = [k for k, i in enumerate(ids) if re.search(pat, i)]
            some = some or 0 < len(want) < len(ids)
            res = cli.run("mseed3details" if "ids" in c else "mseed2details", ["--summary", "--match=" + pat] + names)
            need(res.ok, "command failed: %s", res.what)
            lines = blocks(res.out, want, None, True)
            got = [us_of(re.findall(STAMP, x)[0]) // 10**6 % 60 for x in lines]
            need(got == [k % 60 for k in want], "pattern %r of %r: records %r, should be %r", pat, ids, got, want)
            total(res.out, len(want), len(want))
    return some, ["mseed3" if "ids" in c else "mseed2", "ids:%d" % len(ids)]


def long_files():
    """More records than a recursion, a buffer or a table of some size takes."""
    a, b = {"net": "XX", "sta": "AAA", "loc": "00", "chan": "HHZ"}, {"net": "XX", "sta": "BBB", "loc": "00", "chan": "HHN"}
    return [{"ids": (["FDSN:XX_A__H_H_Z"] * 3 + ["FDSN:XX_B__H_H_N"]) * n, "pats": ["", "_N$"], "cut": n} for n in (70, 300)] \
        + [{"codes": ([a] * 3 + [b]) * n, "pats": ["", "_N$"], "cut": n} for n in (70, 300)] + [{"codes": [b] * 1100 + [a], "pats": ["_Z$"], "cut": 0}, {"ids": ["FDSN:XX_B__H_H_N"] * 1100 + ["FDSN:XX_A__H_H_Z"], "pats": ["_Z$"], "cut": 1101}]


def check_broken(c):
    """Damaged or absent files make the command fail."""
    raws = [gen3.to_bytes(r) for r in c["recs"]]
    blob = bytearray(b"".join(raws))
    with cli.scratch() as d:
        if c["kind"] == "flip":
            blob[min(len(blob) - 1, int(c["x"] * len(blob)))] ^= 1 << c["bit"]
        elif c["kind"] == "cut":
            del blob[-min(1 + int(c["x"] * 100), len(raws[-1]) - 1):]
        p = cli.write(d, "a.ms3", bytes(blob))
        if c["kind"] == "absent":
            p = os.path.join(d, "b.ms3")
        opts = list(c["opts"])
        if c["kind"] == "onto":
            opts += ["-o", cli.spell(d, p, cli.SPELLINGS[int(c["x"] * 4.9)])]
        res = cli.run("mseed3details", opts + [p])
        if c["kind"] != "absent":
            need(cli.read(p) == bytes(blob), "the file was modified")
        need(not res.ok, "%s did not fail the command", c["kind"])
    return True, [c["kind"]]


broken = st.fixed_dictionaries({"recs": st.lists(gen3.records(big=False, ids=IDS, years=(1000, 9000)), min_size=1, max_size=3), "kind": st.sampled_from(["flip", "flip", "cut", "absent", "onto"]),
                                "x": st.floats(0, 1), "bit": st.integers(0, 7), "opts": st.sampled_from([[], ["--summary"], ["--get", "/a"], ["--getall", "/a"], ["--getall", ""]])})
# the first record alone answers a get
broken = broken.map(lambda c: dict(c, recs=c["recs"][:1]) if c["opts"][:1] == ["--get"] else c)

SUBS = [
    Sub("mseed3", cases3(), check3, 900, 30000, directed=directed3, shards=8),
    Sub("mseed2", cases2(), check2, 900, 30000, directed=directed2, shards=8),
    Sub("match", matches(), check_match, 700, 12000, directed=long_files),
    Sub("broken", broken, check_broken, 500, 10000),
]
