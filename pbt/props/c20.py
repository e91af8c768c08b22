"""C20: editing extra headers in files changes only what was asked."""
import copy
import json
import os
import re

from hypothesis import strategies as st

from .. import cli, gen3, refms3
from ..core import Sub, need

RULE = ("files of generated records, pointers to existing, new, nested, missing places and the whole object, values given directly or by file, patterns, one to three files; "
        "damaged input, unusable values, a disk that fills up, a process killed while writing; non-trivial = something was edited or printed, or a fault took effect")


class NotFound(Exception):
    pass


def tokens(ptr):
    return [t.replace("~1", "/").replace("~0", "~") for t in ptr.split("/")[1:]]


def resolve(doc, ptr):
    for t in tokens(ptr):
        if isinstance(doc, dict):
            if t not in doc:
                raise NotFound()
            doc = doc[t]
        elif isinstance(doc, list):
            if not re.fullmatch("0|[1-9][0-9]*", t) or int(t) >= len(doc):
                raise NotFound()
            doc = doc[int(t)]
        else:
            raise NotFound()
    return doc


def assign(doc, ptr, val):
    if ptr in ("", "/"):
        return copy.deepcopy(val)
    doc = copy.deepcopy(doc)
    head, last = ptr.rsplit("/", 1)
    parent = resolve(doc, head)
    last = tokens("/" + last)[0]
    if isinstance(parent, dict):
        parent[last] = copy.deepcopy(val)
    elif isinstance(parent, list) and last == "-":
        parent.append(copy.deepcopy(val))
    elif isinstance(parent, list) and re.fullmatch("0|[1-9][0-9]*", last) and int(last) < len(parent):
        parent[int(last)] = copy.deepcopy(val)
    else:
        raise NotFound()
    return doc


def esc(t):
    return t.replace("~", "~0").replace("/", "~1")


def paths(doc, pre=""):
    out = []
    items = doc.items() if isinstance(doc, dict) else enumerate(doc) if isinstance(doc, list) else []
    for k, v in items:
        p = pre + "/" + esc(str(k))
        out.append(p)
        out += paths(v, p)
    return out


EHS = st.one_of(st.just(""), st.just(""), st.sampled_from(['{"FDSN":{"Time":{"Quality":0}}}', '{"FDSN":{"Time":{"Quality":100}}, "bag": {"y": [1,2,{"a":null}]}}', '{}']),
                gen3.EH_DICT.map(gen3.dumps), gen3.EH_DICT.map(lambda d: json.dumps(d, indent=1)), gen3.eh_texts())
FULL = st.dictionaries(gen3.JSON_KEYS, st.one_of(st.text(max_size=12), st.sampled_from(["x", "a b", " ", "", "0", "null", "{}", "\n", "\u00e9"]), gen3.JSON_LEAF, gen3.JSON_VALUE, gen3.EH_DICT), min_size=1, max_size=4).map(json.dumps)
IDS = st.sampled_from(gen3.ID_POOL[:5])


@st.composite
def pointers(draw, ehs, cmd, there=False):
    have = [p for e in ehs for p in paths(json.loads(e) if e else {})]
    k = draw(st.integers(0, 7))
    if k == 7:
        # a key there or not, or the empty one, in an object that is there
        objs = [p for e in ehs for p in paths(json.loads(e) if e else {}) if isinstance(resolve(json.loads(e), p), dict)]
        if objs:
            return draw(st.sampled_from(objs)) + "/" + draw(st.sampled_from(["", "", "zz", "a", "a~1b", "~0x", "0", "-"]))
    if have and (k <= 2 or there and draw(st.integers(0, 2))):
        return draw(st.sampled_from(have))
    if have and k == 3:
        return draw(st.sampled_from(have)) + "/" + draw(st.sampled_from(["zz", "new", "a~1b", "~0x", ""]))
    if k == 4:
        return draw(st.sampled_from(["/", "", "/a/b/c"] if "set" in cmd else [""]))
    return draw(st.sampled_from(["/FDSN", "/FDSN/Time", "/FDSN/Time/Quality", "/bag", "/bag/y", "/bag/y/-" if "set" in cmd else "/bag/y/0", "/bag/y/0", "/bag/y/2/a", "/new", "/a", "/a~1b"]))


@st.composite
def cases(draw, fault=False, get=False):
    files = draw(st.lists(gen3.repeats(st.lists(gen3.records(big=False, ids=IDS, eh=st.integers(0, 4).flatmap(lambda k: FULL if k else EHS) if get else EHS, years=(1000, 9000)), min_size=0, max_size=5)), min_size=1, max_size=3))
    cmd = draw(st.sampled_from(["set", "setall", "fset", "fsetall"] if fault else ["get", "get", "getall"] if get else ["set", "setall", "fset", "fsetall", "get", "getall"]))
    recs = [r for f in files for r in f]
    pat = draw(st.one_of(*[st.none()] * (2 if get else 1), gen3.patterns([r["id"] for r in recs])))
    c = {"files": files, "cmd": cmd, "pat": pat, "outfile": draw(st.booleans()), "verbose": draw(st.integers(0, 5)) == 0,
         "style": draw(st.integers(0, 2)), "late": draw(st.booleans())}
    match = [r["eh"] for r in recs if pat is None or re.search(pat, r["id"])]
    ptr = c["ptr"] = draw(pointers(match[:1] if match and (c["cmd"] == "get" or draw(st.booleans())) else match or [r["eh"] for r in recs], cmd, get))
    c["val"] = draw(gen3.EH_DICT if ptr in ("", "/") else gen3.JSON_VALUE)
    if fault:
        c["pat"] = None if draw(st.booleans()) else pat
        total = sum(len(gen3.to_bytes(r)) for r in recs)
        c["fault"] = draw(st.one_of(
            st.builds(lambda i, b: {"kind": "flip", "at": i, "bit": b}, st.integers(0, max(0, total - 1)), st.integers(0, 7)),
            st.builds(lambda n: {"kind": "cut", "n": n}, st.integers(1, 60)),
            st.builds(lambda v: {"kind": "badjson", "text": v}, st.sampled_from(["", "{", "{'a':1}", "nope", "1 2", "[1,", "\"x"])),
            st.builds(lambda v: {"kind": "badptr", "text": v}, st.sampled_from(["a", "FDSN", "a/b", "x/FDSN/Time", "~"])),
            st.builds(lambda k: {"kind": "missing", "k": k}, st.integers(0, 2)),
            st.just({"kind": "big"}),
            st.builds(lambda p, v: {"kind": "nonobject", "ptr": p, "val": v}, st.sampled_from(["", "/"]), st.one_of(st.lists(st.integers(), max_size=2), st.integers(), st.booleans(), st.text(max_size=5), st.just("{}"))),
            st.builds(lambda x: {"kind": "full", "x": x}, st.floats(0, 1)),
            st.builds(lambda x: {"kind": "kill", "x": x}, st.floats(0, 1)),
        ))
    return c


def value_text(c):
    if c.get("fault", {}).get("kind") == "badjson":
        return c["fault"]["text"]
    if c["style"] == 0:
        return json.dumps(c["val"])
    if c["style"] == 1:
        return gen3.dumps(c["val"], separators=(",", ":"))
    return "\n " + json.dumps(c["val"], indent=3) + "\n"


def expected_edit(c, ptr, val):
    """Per file: list of (record, new eh or None) and index of first file that cannot be completed."""
    every = c["cmd"].endswith("all")
    done, out, stop = False, [], None
    for k, f in enumerate(c["files"]):
        rows = []
        for r in f:
            new = None
            if (every or not done) and (c["pat"] is None or re.search(c["pat"], r["id"])):
                done = True
                try:
                    new = [assign(gen3.eh_value(r["eh"]), ptr, val)]
                except NotFound:
                    return out, k
            rows.append((r, new))
        out.append(rows)
        if done and not every:
            break
    return out, None


def verify_file(raw, rows, where):
    try:
        got = refms3.parse_all(raw)
    except refms3.Bad3 as e:
        raise AssertionError(f"{where}: {e}")
    need(len(got) == len(rows), "%s: %d records, should be %d", where, len(got), len(rows))
    edits = 0
    for i, ((r, new), (h, ident, eh, payload, rec)) in enumerate(zip(rows, got)):
        orig = gen3.to_bytes(r)
        if new is None:
            need(rec == orig, "%s: record %d was not asked for and changed", where, i)
            continue
        edits += 1
        h0, ident0, _eh0, payload0, _e = refms3.parse(orig)
        need(dict(h, crc=0) == dict(h0, crc=0), "%s: record %d header became %r, was %r", where, i, h, h0)
        need(ident == ident0 and payload == payload0, "%s: record %d identifier or payload changed", where, i)
        v = json.loads(eh) if eh else {}
        need(v == new[0] and json.dumps(v, sort_keys=True) == json.dumps(new[0], sort_keys=True), "%s: record %d extra headers are %s, should be %s", where, i, v, new[0])
    return edits


def argv_for(c, d, names, ptr=None):
    ptr = c["ptr"] if ptr is None else ptr
    a = []
    if c["pat"] is not None:
        a += ["--match=" + c["pat"]]
    if c["verbose"]:
        a.append("-v")
    out = None
    if "get" in c["cmd"]:
        op = ["--" + c["cmd"], ptr]
        if c["outfile"]:
            out = os.path.join(d, "out.json")
            a += ["-o", out]
    elif c["cmd"].startswith("f"):
        op = ["--" + c["cmd"], ptr, cli.write(d, "value.json", value_text(c).encode("utf-8"))]
    else:
        op = ["--" + c["cmd"], ptr, value_text(c)]
    if op[-1].startswith("-"):
        return None, None  # a negative number looks like an option to argparse
    return (names + a + op if c["late"] else a + op + names), out


def check(c):
    with cli.scratch() as d:
        os.mkdir(os.path.join(d, "data"))
        before = [b"".join(gen3.to_bytes(r) for r in f) for f in c["files"]]
        names = [cli.write(os.path.join(d, "data"), f"f{k}.ms3", b) for k, b in enumerate(before)]
        argv, out = argv_for(c, d, names)
        if argv is None:
            return False, ["skipped"]
        res = cli.run("mseed3details", argv)
        after = [cli.read(n) for n in names]
        if "get" in c["cmd"]:
            need(after == before, "a get changed a file")
            return check_get(c, res, out)
        plan, stop = expected_edit(c, c["ptr"], c["val"])
        need(res.ok or stop is not None, "command failed: %s", res.what)
        edits = 0
        for k in range(len(names)):
            if k < len(plan):
                edits += verify_file(after[k], plan[k], f"file {k}")
            else:
                need(after[k] == before[k], "file %d %s and changed", k, "could not be completed" if k == stop else "was not reached")
        if stop is None:
            need(sorted(os.listdir(os.path.join(d, "data"))) == [f"f{k}.ms3" for k in range(len(names))], "files left behind: %r", os.listdir(os.path.join(d, "data")))
        else:
            need(not res.ok, "pointer without a place to set did not fail the command")
        return edits > 0 or stop is not None, [c["cmd"], "edits:%d" % min(edits, 3), "fails" if stop is not None else "ok", "ptr:" + ("whole" if c["ptr"] in ("", "/") else "part")]


def check_get(c, res, out):
    need(res.ok, "command failed: %s", res.what)
    want = []
    for f in c["files"]:
        for r in f:
            if c["pat"] is None or re.search(c["pat"], r["id"]):
                try:
                    want.append([resolve(gen3.eh_value(r["eh"]), c["ptr"])])
                except NotFound:
                    want.append(None)
                if not r["eh"]:
                    want[-1] = "either" if c["ptr"] == "" else None
    if c["cmd"] == "get":
        want = want[:1]
    if out:
        text = cli.read(out).decode("utf-8")
        lines = text.split("\n")
        need(lines.pop() == "", "output does not end with a newline")
    elif c["verbose"]:
        lines = None
    else:
        lines = res.out.split("\n")
        need(lines.pop() == "", "output does not end with a newline")
    if lines is None:
        # among other text: every value found, in order
        it = iter([x.strip() for x in res.out.split("\n")])
        for w in want:
            if isinstance(w, list):
                need(any(x == json.dumps(w[0]) or _is(x, w[0]) for x in it), "value %r not printed in its place", w[0])
        return bool(want), [c["cmd"], "verbose"]
    need(len(lines) == len(want), "%d lines for %d records", len(lines), len(want))
    for line, w in zip(lines, want):
        if w == "either":
            continue
        if w is None:
            need(not _is_json(line.strip()), "printed %r where the record has no such value", line)
            if out:
                need(line.strip() == "", "wrote %r where the record has no such value", line)
        else:
            need(_is(line.strip(), w[0]), "printed %r, should be %s", line, json.dumps(w[0]))
    return bool(want), [c["cmd"], "outfile" if out else "stdout", "found" if any(isinstance(w, list) for w in want) else "missing"]


def _is_json(t):
    try:
        json.loads(t)
        return True
    except ValueError:
        return False


def _is(t, v):
    try:
        return json.dumps(json.loads(t), sort_keys=True) == json.dumps(v, sort_keys=True)
    except ValueError:
        return False


def check_fault(c):
    f = c["fault"]
    with cli.scratch() as d:
        dd = os.path.join(d, "data")
        os.mkdir(dd)
        before = [b"".join(gen3.to_bytes(r) for r in x) for x in c["files"]]
        ptr, val = c["ptr"], c["val"]
        bad = None  # file that cannot be read whole
        kind = f["kind"]
        if kind in ("flip", "cut"):
            nonempty = [k for k, b in enumerate(before) if b]
            if not nonempty:
                return False, ["empty"]
            if kind == "flip":
                at, k = f["at"], 0
                while at >= len(before[k]):
                    at -= len(before[k])
                    k += 1
                    if k == len(before):
                        return False, ["empty"]
                b = bytearray(before[k])
                b[at] ^= 1 << f["bit"]
                before[k], bad = bytes(b), k
            else:
                k = nonempty[f["n"] % len(nonempty)]
                last = len(gen3.to_bytes(c["files"][k][-1]))
                before[k], bad = before[k][:-min(f["n"], last - 1)], k
        elif kind == "big":
            val = ["x" * 70000] if ptr not in ("", "/") else {"a": "x" * 70000}
            c = dict(c, val=val, cmd="f" + c["cmd"].lstrip("f"))
        elif kind == "nonobject":
            ptr, val = f["ptr"], f["val"]
            c = dict(c, val=val, cmd="f" + c["cmd"].lstrip("f"))
        elif kind == "badptr":
            ptr = f["text"]
        names = [cli.write(dd, f"f{k}.ms3", b) for k, b in enumerate(before)]
        if kind == "missing":
            names.insert(min(f["k"], len(names)), os.path.join(dd, "absent.ms3"))
        argv, _out = argv_for(c, d, names, ptr)
        if argv is None:
            return False, ["skipped"]
        names = [n for n in names if not n.endswith("absent.ms3")]
        # not a pointer: nothing to set anywhere, refused as soon as there is a record to set
        plan, stop = ([], None) if kind == "badptr" else expected_edit(c, ptr, val)
        if kind in ("full", "kill"):
            biggest = max(map(len, before))
            limit = int(f["x"] * biggest)
            if kind == "full":
                res = cli.run("mseed3details", argv, fsize=limit)
                ended = not res.ok
            else:
                ended = cli.crash("mseed3details", argv, limit)
            after = [cli.read(n) for n in names]
            for k, a in enumerate(after):
                if a == before[k] and (ended or k >= len(plan)):
                    continue
                need(k < len(plan), "file %d was not to be completed and changed", k)
                verify_file(a, plan[k], f"file {k} after running out of space at {limit} bytes" if kind == "full" else f"file {k} after a crash at {limit} bytes")
            return ended, [kind, "ended" if ended else "went through"]
        res = cli.run("mseed3details", argv)
        after = [cli.read(n) for n in names]
        any_target = any(c["pat"] is None or re.search(c["pat"], r["id"]) for x in c["files"] for r in x)
        if kind == "badjson":
            need(not res.ok and after == before, "unusable value: ok=%s, files changed=%s", res.ok, after != before)
            return True, [kind]
        if kind == "badptr":
            need(after == before, "unusable pointer %r changed a file", ptr)
            need(not res.ok or not any_target, "unusable pointer %r did not fail", ptr)
            return True, [kind]
        if kind == "nonobject":
            need(not res.ok or not any_target, "extra headers set to %r, which is no object", val)
            need(after == before, "setting extra headers to %r changed a file", val)
            return any_target, [kind]
        if kind == "big":
            # no record can hold the value
            need(not res.ok or not any_target, "value too long for a record did not fail")
            for k, a in enumerate(after):
                need(a == before[k], "value too long for a record changed file %d", k)
            return any_target, [kind]
        if kind == "missing":
            every = c["cmd"].endswith("all")
            pos = f["k"]
            for k, a in enumerate(after):
                if a == before[k]:
                    if res.ok and k < len(plan):
                        verify_file(a, plan[k], f"file {k}")
                    continue
                need(k < len(plan), "file %d changed", k)
                verify_file(a, plan[k], f"file {k}")
            reached = len(plan) > pos or stop is not None and stop >= pos or (len(plan) == len(names) and (every or not any_target))
            need(not (res.ok and reached and (every or not any_target)), "an absent file did not fail the command")
            return True, [kind, "ok" if res.ok else "failed"]
        # damaged input
        for k, a in enumerate(after):
            if k == bad:
                need(a == before[k] or (res.ok and not c["cmd"].endswith("all")), "damaged file %d changed", k)
            elif a != before[k]:
                need(k < len(plan) and k < bad, "file %d changed", k)
                verify_file(a, plan[k], f"file {k}")
        reached = bad < len(plan) or stop is not None and stop >= bad
        if reached and c["cmd"].endswith("all") and c["pat"] is None:
            need(not res.ok, "damaged input did not fail the command")
        return reached, [kind, "ok" if res.ok else "failed"]


def _rec(eh, n=3):
    return {"flags": 0, "pub": 0, "rate": 1.0, "id": "FDSN:XX_A__H_H_Z", "eh": eh, "year": 2024, "doy": 60, "hour": 0, "minute": 0, "second": 0, "ns": 0,
            "payload": {"kind": "raw", "enc": 100, "hex": "4d", "rep": n, "n": 0}}


def directed_edit():
    """Values of sizes up to that of an extra header, set and replaced."""
    out = []
    for k, n in enumerate((1000, 4090, 8190, 16400, 32800, 65400)):
        for val in ("x" * n, "\u00e9" * (n // 2), [7] * (n // 2), {"k%05d" % i: i for i in range(n // 20)}):
            for eh in ('{"a":1,"b":2}', json.dumps({"b": "y" * (65500 - n), "c": 2})):
                if len(eh) + len(json.dumps(val, ensure_ascii=False, separators=(",", ":")).encode()) > 65500:
                    eh = '{"b":"q"}'
                if len(eh) + len(json.dumps(val)) > 65500:
                    # may not fit once escaped
                    continue
                out.append({"files": [[_rec(eh), _rec("")]], "cmd": ("set", "setall", "fset", "fsetall")[len(out) % 4], "pat": None, "outfile": False, "verbose": False, "style": 1, "late": False,
                            "ptr": "/b", "val": val})
    return out + [{"files": [[_rec('{"b":%d}' % k, 3) for k in range(n)]], "cmd": cmd, "pat": None, "outfile": False, "verbose": False, "style": 1, "late": False, "ptr": "/b", "val": [1, "x"]}
                  for n in (300, 1100) for cmd in ("set", "setall", "fsetall")] + [
        # a long way to go after the record that was asked for
        {"files": [[_rec('{"b":1}'), _rec("", 2**20), _rec("", 2**20 + 7), _rec('{"b":2}')]], "cmd": cmd, "pat": None, "outfile": False, "verbose": False, "style": 1, "late": False, "ptr": "/b", "val": 3}
        for cmd in ("set", "setall", "fset", "fsetall")] + [
        # what some take for the end of a line
        {"files": [[_rec('{"b":1}')]], "cmd": cmd, "pat": None, "outfile": False, "verbose": False, "style": 1, "late": False, "ptr": "/b", "val": ["a %s b" % x, {"k%s" % x: " " + x}]}
        for cmd in ("set", "setall", "fset", "fsetall") for x in ("\u2028", "\u2029", "\x85", "\xa0", "\x7f", "  ", "\u3000", "\ufeff", "\r\n")]


def directed_get():
    """Values of sizes up to that of an extra header, printed and written."""
    out = []
    for n in (1000, 4090, 8190, 16400, 32800, 65400):
        for val in ("x" * n, "\u00e9" * (n // 2), [7] * (n // 2), {"k%05d" % i: i for i in range(n // 20)}):
            out.append({"files": [[_rec(json.dumps({"b": val}, ensure_ascii=False, separators=(",", ":"))), _rec('{"b":1}')]], "cmd": "get" if len(out) % 3 else "getall", "pat": None,
                        "outfile": len(out) % 2 == 0, "verbose": False, "style": 1, "late": False, "ptr": "/b" if len(out) % 5 else "", "val": 1})
    return out + [{"files": [[_rec('{"b":%d}' % k, 3) for k in range(n)]], "cmd": cmd, "pat": None, "outfile": False, "verbose": False, "style": 1, "late": False, "ptr": "/b", "val": 1}
                  for n in (300, 1100) for cmd in ("get", "getall")]


SUBS = [
    Sub("edit", cases(), check, 2400, 50000, directed=directed_edit, shards=8),
    Sub("get", cases(get=True), check, 1600, 30000, directed=directed_get, shards=8),
    Sub("fault", cases(True), check_fault, 1600, 30000, shards=8),
]
