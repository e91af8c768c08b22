"""C27: data survive any chain of the commands."""
import json
import os
import re
import struct
from fractions import Fraction

from hypothesis import strategies as st

from .. import cli, gen2, gen3, refms2, refms3
from ..core import Sub, need
from . import c16, c20, c21, c23

RULE = ("miniSEED2 files of one to three interleaved channels in runs with gaps, mixed with records of any kind, converted and then taken through 1 to 6 commands "
        "(merge, set and get of extra headers, details) in any order; non-trivial = records were merged or extra headers edited after a merge or two edits")


@st.composite
def channels(draw):
    """Records of one channel in runs: mostly adjacent, sometimes with a gap."""
    base = draw(gen2.records(kinds=("prim", "prim", "steim"), leap=False, small=True, unknown=False))
    base["blk"] = [b for b in base["blk"] if b["num"] not in (100, 1001)]
    base["factor"], base["mult"] = draw(st.sampled_from([(1, 1), (20, 1), (100, 1), (-10, 1), (200, -10), (33, -2)]))
    # the last of the run must still be of a year whose byte order can be told
    base["year"], base["doy"] = min(base["year"], 2053), min(base["doy"], 365)
    us = gen2.start_us(base) // 100 * 100
    out = []
    for k in range(draw(st.integers(1, 5))):
        r = json.loads(json.dumps(base))
        if base["p"]["kind"] == "prim":
            bits = draw(st.lists(gen3._bits(base["p"]["enc"]), min_size=1, max_size=8))
            r["p"] = {"kind": "prim", "enc": base["p"]["enc"], "bits": bits, "rep": 1}
        enc, n, data, _v = gen2.expand2(r["p"], gen2.order(r))
        if k and draw(st.integers(0, 3)) == 0:
            us += int(7 * 10**6 / gen2.rate(r)) // 100 * 100
        r["n"] = n
        y, doy, hh, mm, ss, micro = refms3.us_to_fields(us)
        r.update(year=y, doy=doy, hour=hh, minute=mm, second=ss, tenth=micro // 100)
        b = next(b for b in r["blk"] if b["num"] == 1000)
        b["exp"] = max(b["exp"], 9)
        r["exp"] = b["exp"]
        r["q"] = draw(st.sampled_from("DDDDRQME"))
        out.append(r)
        us += round(Fraction(10**6 * n) / gen2.rate(r))
        us = (us + 50) // 100 * 100
    return out


@st.composite
def steps(draw):
    k = draw(st.integers(0, 9))
    if k < 4:
        return {"do": "merge", "opts": draw(st.sampled_from([[], ["-v"], ["--decomp"]]))}
    if k < 8:
        return {"do": draw(st.sampled_from(["set", "setall"])), "ptr": draw(st.sampled_from(["/a", "/bag", "/FDSN", "/FDSN/DataQuality", "", "/note"])),
                "val": draw(st.one_of(st.just({"a": {"b": [1]}}), st.integers(250, 900).map(lambda n: {"a": "x" * n}), gen3.EH_DICT, gen3.JSON_VALUE)), "pat": draw(st.sampled_from([None, None, 0, 1, "_Z$", "nothing"]))}
    return {"do": "look", "opts": draw(st.sampled_from([["--summary"], [], ["--data"], ["--eh"]])), "pat": draw(st.sampled_from([None, 0]))}


@st.composite
def cases(draw):
    chans = draw(st.lists(channels(), min_size=1, max_size=3))
    recs = []
    if draw(st.booleans()):
        # one channel after the other
        recs = [r for c in chans for r in c]
    else:
        chans = [list(c) for c in chans]
        while chans:
            k = draw(st.integers(0, len(chans) - 1))
            recs.append(chans[k].pop(0))
            if not chans[k]:
                del chans[k]
    for r in draw(st.lists(gen2.records(small=True), max_size=2)):
        recs.insert(draw(st.integers(0, len(recs))), r)
    todo = draw(st.lists(steps(), min_size=1, max_size=6))
    if draw(st.integers(0, 9)) == 0:
        # once, extra headers of a size near what their length field can say
        todo[0] = {"do": "setall", "ptr": "/a", "val": "x" * draw(st.sampled_from([5000, 32767, 33000, 50000])), "pat": None}
    return {"recs": recs, "steps": todo}


def samples_of(parsed):
    """Per channel, whether integer or float of which size aside: values in order, payloads that are no series of numbers apart."""
    out = {}
    for h, ident, _eh, payload, _raw in parsed:
        vals = refms3.samples(h, payload) if h["n"] or h["enc"] not in (1, 3, 4, 5, 10, 11) else []
        if vals is None:
            out.setdefault((ident, "opaque"), []).append((h["n"], payload))
        else:
            out.setdefault((ident, "samples"), []).extend(struct.pack("<f" if h["enc"] == 4 else "<d", v) if h["enc"] in (4, 5) else v for v in vals)
    return out


def check(c):
    recs = c["recs"]
    idents = sorted({gen2.sid(r) for r in recs})
    merged = edited = after = 0
    with cli.scratch() as d:
        src = cli.write(d, "in.ms2", b"".join(gen2.to_bytes(r) for r in recs))
        cur = os.path.join(d, "f0.ms3")
        res = cli.run("mseed2to3", ["-2", src, "-3", cur])
        need(res.ok, "conversion failed: %s", res.what)
        state = c21.split(cli.read(cur), "converted")
        need(len(state) == len(recs), "%d records converted, should be %d", len(state), len(recs))
        for k, (r, (h, ident, _eh, payload, _raw)) in enumerate(zip(recs, state)):
            w = c16.wanted(r)
            us = refms3.instant_ns(h["year"], h["doy"], h["hour"], h["minute"], h["second"], h["ns"]) // 1000
            need((ident.decode(), us, h["enc"], h["n"]) == (w["sid"], w["us"], w["enc"], w["n"]), "record %d converted to %r", k, (ident, us, h["enc"], h["n"]))
            if w["vals"] is not None and w["n"]:
                bad = gen3.values_equal(refms3.samples(h, payload), w["vals"], w["enc"])
                need(bad is None, "record %d converted: %s", k, bad)
        first = samples_of(state)
        for k, s in enumerate(c["steps"]):
            where = "step %d %s" % (k, s["do"])
            before = cli.read(cur)
            pat = s.get("pat")
            if isinstance(pat, int):
                pat = re.escape(idents[pat % len(idents)]) + "$"
            if s["do"] == "merge":
                nxt = os.path.join(d, f"f{k + 1}.ms3")
                res = cli.run("mseed3merge", s["opts"] + ["-o", nxt, cur])
                need(res.ok, "%s failed: %s", where, res.what)
                need(cli.read(cur) == before, "%s changed its input", where)
                cur = nxt
                new = c21.split(cli.read(cur), where)
                need(samples_of(new) == first, "%s: samples are not those of the first file", where)
                need(len(new) <= len(state), "%s: more records than before", where)
                starts = {(i, h["year"], h["doy"], h["hour"], h["minute"], h["second"], h["ns"], eh_canon(e)) for h, i, e, _p, _r in state}
                for h, i, e, _p, _r in new:
                    need((i, h["year"], h["doy"], h["hour"], h["minute"], h["second"], h["ns"], eh_canon(e)) in starts,
                         "%s: a record %s of %d samples with extra headers %s is no record's before", where, i, h["n"], e)
                merged += len(new) < len(state)
                state = new
            elif s["do"].startswith("set"):
                argv = ["--" + s["do"], s["ptr"], json.dumps(s["val"])]
                if argv[-1].startswith("-") or s["ptr"] == "" and not isinstance(s["val"], dict):
                    continue
                res = cli.run("mseed3details", argv + ([] if pat is None else ["--match=" + pat]) + [cur])
                want, fails, hit = [], False, False
                for h, i, e, p, raw in state:
                    v = None
                    if (not hit or s["do"] == "setall") and not fails and (pat is None or re.search(pat, i.decode())):
                        hit = True
                        try:
                            v = [c20.assign(json.loads(e) if e else {}, s["ptr"], s["val"])]
                        except c20.NotFound:
                            fails = True
                    want.append(v)
                if fails:
                    need(not res.ok and cli.read(cur) == before, "%s: place that is not there: ok=%s, file changed=%s", where, res.ok, cli.read(cur) != before)
                    continue
                need(res.ok, "%s failed: %s", where, res.what)
                new = c21.split(cli.read(cur), where)
                need(len(new) == len(state), "%s: %d records, were %d", where, len(new), len(state))
                for j, (a, b, v) in enumerate(zip(state, new, want)):
                    if v is None:
                        need(a[4] == b[4], "%s: record %d was not asked for and changed", where, j)
                    else:
                        need(dict(a[0], crc=0) == dict(b[0], crc=0) and a[1] == b[1] and a[3] == b[3], "%s: more than the extra headers of record %d changed", where, j)
                        need(json.dumps(json.loads(b[2]) if b[2] else {}, sort_keys=True) == json.dumps(v[0], sort_keys=True), "%s: extra headers of record %d are %s, should be %s", where, j, b[2], v[0])
                        edited += 1
                after += hit and merged > 0
                state = new
            else:
                res = cli.run("mseed3details", s["opts"] + ([] if pat is None else ["--match=" + pat]) + [cur])
                need(res.ok, "%s failed: %s", where, res.what)
                need(cli.read(cur) == before, "%s changed its input", where)
                match = [x for x in state if pat is None or re.search(pat, x[1].decode())]
                c23.total(res.out, sum(x[0]["n"] for x in match), len(match))
            need(cli.read(src) == b"".join(gen2.to_bytes(r) for r in recs), "%s changed the first file", where)
        need(samples_of(state) == first, "samples at the end are not those of the first file")
        # every record of the last file is still one the reader takes
        res = cli.run("mseed3details", ["--summary", cur])
        need(res.ok, "last file cannot be listed: %s", res.what)
        c23.total(res.out, sum(x[0]["n"] for x in state), len(state))
    return merged > 0 or edited > 1, ["merged:%d" % min(merged, 2), "edited:%d" % min(edited, 4), "edit-after-merge" if after else "", "n:%d" % min(len(recs), 8)]


def eh_canon(e):
    return json.dumps(json.loads(e) if e else {}, sort_keys=True)


def directed():
    """Many records, more samples than 16 bits count."""
    def recs(n, k):
        return [dict(net="XX", sta="AAA", loc="00", chan="HHZ", year=2024, doy=1, hour=j * k // 3600, minute=j * k // 60 % 60, second=j * k % 60, tenth=0, seq="000001", q="D", factor=1, mult=1, act=0, io=0, qual=0, corr=0,
                     n=k, o=">", fill=0, blk=[{"num": 1000, "enc": 3, "order": 1, "exp": 11}], p={"kind": "prim", "enc": 3, "bits": [j, j + 1], "rep": k // 2}, exp=11) for j in range(n)]
    out = []
    for n, k in ((270, 300), (1100, 2)):
        for opts in (["--summary"], []):
            look, edit = {"do": "look", "opts": opts, "pat": None}, {"do": "setall", "ptr": "/a", "val": {"b": 1}, "pat": None}
            out.append({"recs": recs(n, k), "steps": [look, edit, {"do": "merge", "opts": []}, look]})
    return out


SUBS = [Sub("chain", cases(), check, 1600, 30000, directed=directed, shards=8)]
