"""Mutation testing of the checks: which small changes to simplemseed pass its tests and go unnoticed here?

mutate.py list            number of mutants per file
mutate.py tests OUT.json  run the repository's tests on every mutant, write the survivors
mutate.py checks OUT.json RESULT.txt [scale] [max]   run the checks on the survivors, write what no check noticed
Works in scratch copies below /tmp/mut, never in /repo.
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import resource
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/simplemseed"
FILES = {
    "steim1.py": "C01 C03", "steim2.py": "C02 C03", "steimframeblock.py": "C01 C02 C03",
    "seedcodec.py": "C04 C05 C06 C13 C09 C23 C24 C16", "mseed3.py": "C06 C05 C12 C11 C09 C10 C07 C08 C23 C24 C21 C20 C16",
    "miniseed.py": "C14 C13 C15 C25 C16 C23 C24 C22", "mseed2to3.py": "C16 C22", "mseed3details.py": "C20 C23", "mseed2details.py": "C23",
    "mseed3merge.py": "C21", "fdsnsourceid.py": "C17 C18 C19 C26 C05 C14", "util.py": "C23 C26",
}
PY = "/opt/venv/bin/python"
CMP = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "==", "is": "is not", "is not": "is", "in": "not in", "not in": "in"}
OPS = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "+"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "*"), ast.Mod: ("%", "//"),
       ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&"), ast.LShift: ("<<", ">>"), ast.RShift: (">>", "<<")}


def mutants(name):
    """(line, what, new source) for each."""
    text = open(os.path.join(SRC, name)).read()
    tree = ast.parse(text)
    starts = [0]
    for line in text.splitlines(keepends=True):
        starts.append(starts[-1] + len(line.encode()))
    raw = text.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def put(n, a, b, new, what):
        src = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            compile(src, name, "exec")
        except SyntaxError:
            return
        out.append((n.lineno, what, src))

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()

    def visit(n, quiet):
        if isinstance(n, (ast.Raise, ast.Assert)) or isinstance(n, ast.FunctionDef) and n.name in ("do_parseargs", "_do_parseargs"):
            if isinstance(n, ast.Raise):
                a, b = span(n)
                put(n, a, b, "pass", "raise -> pass")
            return
        if isinstance(n, ast.If) and "__main__" in seg(n.test):
            return
        if isinstance(n, ast.Compare) and len(n.ops) >= 1:
            left = n.left
            for k, right in enumerate(n.comparators):
                a, b = span(left)[1], span(right)[0]
                mid = raw[a:b].decode()
                op = mid.strip(" ()\n\\")
                if op in CMP and mid.count(op) == 1:
                    put(n, a, b, mid.replace(op, CMP[op]), f"{op} -> {CMP[op]} in {seg(n)[:60]}")
                left = right
        if isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            mid = raw[a:b].decode()
            w, v = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            put(n, a, b, mid.replace(w, v), f"{w} -> {v} in {seg(n)[:60]}")
            for k, v in enumerate(n.values):
                a, b = span(v)
                put(n, a, b, "True" if w == "and" else "False", f"operand {k} dropped of {seg(n)[:60]}")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = span(n)
            put(n, a, b, "(" + seg(n.operand) + ")", f"drop {seg(n)[:60]}")
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            a, b = span(n.left)[1], span(n.right)[0]
            w, v = OPS[type(n.op)]
            mid = raw[a:b].decode()
            if mid.count(w) == 1:
                put(n, a, b, mid.replace(w, v), f"{w} -> {v} in {seg(n)[:60]}")
        if isinstance(n, ast.Constant):
            a, b = span(n)
            if isinstance(n.value, bool):
                put(n, a, b, str(not n.value), f"{n.value} flipped")
            elif isinstance(n.value, (int, float)):
                put(n, a, b, repr(n.value + 1), f"{n.value} + 1")
                if n.value:
                    put(n, a, b, repr(n.value - 1), f"{n.value} - 1")
            elif isinstance(n.value, str) and not quiet:
                put(n, a, b, repr(n.value + "X"), f"{n.value!r} + X")
                if n.value:
                    put(n, a, b, repr(n.value[1:]), f"{n.value!r} cut")
            return
        if isinstance(n, (ast.If, ast.IfExp)):
            a, b = span(n.test)
            put(n, a, b, "True", f"if True for {seg(n.test)[:60]}")
            put(n, a, b, "False", f"if False for {seg(n.test)[:60]}")
        if isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) \
                or isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            a, b = span(n)
            put(n, a, b, "pass", f"dropped {seg(n)[:60]}")
        if isinstance(n, ast.Break):
            a, b = span(n)
            put(n, a, b, "pass", "break -> pass")
            put(n, a, b, "continue", "break -> continue")
        if isinstance(n, ast.Continue):
            a, b = span(n)
            put(n, a, b, "pass", "continue -> pass")
            put(n, a, b, "break", "continue -> break")
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and not isinstance(f.value, ast.Name) or isinstance(f, ast.Attribute) and f.attr in ("strip", "ljust", "encode", "copy", "clone", "upper"):
                a, b = span(n)
                put(n, a, b, seg(f.value), f"call dropped: {seg(n)[:60]}")
            if isinstance(f, ast.Name) and f.id in ("int", "round", "abs", "min", "max", "bytes", "bytearray", "str", "float", "sorted") and n.args:
                a, b = span(n)
                put(n, a, b, "(" + seg(n.args[0]) + ")", f"call dropped: {seg(n)[:60]}")
            for kw in n.keywords:
                a, b = span(kw)
                c = b
                while raw[c:c + 1] in b" \n":
                    c += 1
                if raw[c:c + 1] == b",":
                    c += 1
                put(n, a, c if raw[c - 1:c] == b"," else b, "", f"keyword dropped: {seg(kw)[:40]} of {seg(n)[:40]}")
        if isinstance(n, ast.Slice):
            for part in (n.lower, n.upper):
                if part is not None:
                    a, b = span(part)
                    put(n, a, b, "(" + seg(part) + ") + 1", f"slice bound + 1: {seg(part)[:40]}")
        if isinstance(n, ast.Return) and n.value is not None:
            a, b = span(n.value)
            put(n, a, b, "None", f"return None for {seg(n.value)[:50]}")
        body_doc = isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module))
        for field, val in ast.iter_fields(n):
            if field in ("annotation", "returns", "decorator_list", "type_comment"):
                continue
            for x in val if isinstance(val, list) else [val]:
                if not isinstance(x, ast.AST):
                    continue
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                    continue
                if isinstance(n, ast.JoinedStr) and isinstance(x, ast.Constant):
                    continue
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    continue
                visit(x, quiet or isinstance(n, ast.JoinedStr))

    visit(tree, False)
    return out


def setup(k):
    w = f"/tmp/mut/w{k}"
    if not os.path.isdir(w):
        shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", ".pytest_cache"))
    return w


def env(w):
    return dict(os.environ, PYTHONPATH=w + "/src", PYTHONDONTWRITEBYTECODE="1", TZ="UTC", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")


def every():
    out = []
    for f in FILES:
        seen = set()
        for k, (line, what, src) in enumerate(mutants(f)):
            if src not in seen:
                seen.add(src)
                out.append((f, k, line, what))
    return out


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        for f in FILES:
            print(f, len(mutants(f)))
        return
    cache = {f: mutants(f) for f in FILES}
    if cmd == "tests":
        local = threading.local()
        count = iter(range(1000))

        def one(m):
            f, k, line, what = m
            if not hasattr(local, "w"):
                local.w = setup(next(count))
            w = local.w
            p = f"{w}/src/simplemseed/{f}"
            orig = open(os.path.join(SRC, f)).read()
            open(p, "w").write(cache[f][k][2])
            try:
                r = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider"], cwd=w, env=env(w), capture_output=True, timeout=60, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
                ok = r.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            open(p, "w").write(orig)
            return m if ok else None

        with cf.ThreadPoolExecutor(8) as ex:
            alive = [m for m in ex.map(one, every()) if m]
        json.dump(alive, open(sys.argv[2], "w"), indent=0)
        print(len(alive), "of", len(every()), "pass the tests")
        return
    alive = json.load(open(sys.argv[2]))
    random.Random(1).shuffle(alive)
    scale = sys.argv[4] if len(sys.argv) > 4 else "0.25"
    done = set()
    if os.path.exists(sys.argv[3]):
        done = {line.rstrip("\n").split(" | ")[1] for line in open(sys.argv[3])}
    lock, count, local = threading.Lock(), iter(range(100, 1000)), threading.local()

    def judge(m):
        f, k, line, what = m
        key = f"{f}:{line} {what}".replace("\n", " ").replace("|", "/")
        if f"{key} {k}" in done:
            return
        if not hasattr(local, "w"):
            with lock:
                local.w = setup(next(count))
        w = local.w
        p = f"{w}/src/simplemseed/{f}"
        open(p, "w").write(cache[f][k][2])
        by = "ALIVE"
        for c in FILES[f].split():
            cmd = [PY, os.path.join(VERIF, "pbt/run.py"), c, "--no-evidence", "--scale", scale]
            try:
                r = subprocess.run(cmd, cwd=VERIF, capture_output=True, timeout=400, env=dict(os.environ, VERIF_REPO=w, VERIF_REPLAYS=w + "-replays"))
            except subprocess.TimeoutExpired:
                by = c + " timeout"
                break
            if r.returncode:
                by = c
                break
        open(p, "w").write(open(os.path.join(SRC, f)).read())
        with lock, open(sys.argv[3], "a") as out:
            out.write(f"{by} | {key} {k}\n")

    with cf.ThreadPoolExecutor(6) as ex:
        list(ex.map(judge, alive[: int(sys.argv[5]) if len(sys.argv) > 5 else None]))


main()
