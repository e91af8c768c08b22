"""Locates the code under test and the installed generator libraries.

Everything is imported from /repo's working tree (VERIF_REPO overrides it for
experiments on scratch copies).  Hypothesis and atheris come from the
pre-installed verification venv; numpy, crc32c and jsonpointer from the
project's own venv.
"""
import os
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
VENV_PY = "/opt/venv/bin/python"

sys.dont_write_bytecode = True
# never read byte code that belongs to an earlier state of the tree
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "no-such-dir-pbt-pycache")
_src = os.path.join(REPO, "src")
if _src not in sys.path:
    sys.path.insert(0, _src)
if VT_SITE not in sys.path:
    sys.path.append(VT_SITE)

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")


class HarnessError(BaseException):
    """The harness itself (not the code under test) is broken: exit 2."""


def load():
    import simplemseed
    got = os.path.dirname(os.path.abspath(simplemseed.__file__))
    want = os.path.join(os.path.abspath(_src), "simplemseed")
    if os.path.realpath(got) != os.path.realpath(want):
        raise HarnessError(f"imported simplemseed from {got}, expected {want}")
    return simplemseed


PKG_DIR = os.path.join(_src, "simplemseed")
