"""Literals found in the code under test, mixed into the generators.

A fuzzing dictionary: a value that the code singles out (a limit, a length, a
marker) is a value worth generating, together with its neighbours.
"""
import ast
import glob
import os

from .env import PKG_DIR


def _collect():
    ints, floats, strs = set(), set(), set()
    for path in sorted(glob.glob(os.path.join(PKG_DIR, "*.py"))):
        try:
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant):
                v = node.operand.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    ints.add(-v)
                elif isinstance(v, float):
                    floats.add(-v)
            if isinstance(node, ast.Constant):
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    ints.add(v)
                elif isinstance(v, float):
                    floats.add(v)
                elif isinstance(v, str) and 0 < len(v) <= 12:
                    strs.add(v)
    near = set()
    for v in ints:
        near.update((v - 1, v, v + 1, -v, v * 2))
    return sorted(near), sorted(floats), sorted(strs)


INTS, FLOATS, STRS = _collect()
_POW = sorted({s * (2**k) + d for k in range(0, 33) for d in (-1, 0, 1) for s in (1, -1)})


def ints(lo, hi, extra=()):
    """Interesting integers within [lo, hi]."""
    s = {v for v in INTS if lo <= v <= hi}
    s.update(v for v in _POW if lo <= v <= hi)
    s.update(v for v in extra if lo <= v <= hi)
    s.update((lo, hi))
    return sorted(s)


def mined(lo, hi):
    return [v for v in INTS if lo <= v <= hi] or [lo]
