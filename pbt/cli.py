"""Runs a command's main function on files in a scratch directory."""
import contextlib
import importlib
import io
import os
import resource
import shutil
import signal
import sys
import tempfile


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="pbt-cli-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Result:
    def __init__(self, ok, out, err, what):
        self.ok, self.out, self.err, self.what = ok, out, err, what


class _Text(io.StringIO):
    encoding = "utf-8"

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


def run(module, argv, fsize=None):
    """main() of simplemseed.<module>; fsize limits how large a file it can write (a full disk)."""
    mod = importlib.import_module("simplemseed." + module)
    out, err = _Text(), _Text()
    old_argv = sys.argv
    sys.argv = [module] + list(argv)
    old_lim = resource.getrlimit(resource.RLIMIT_FSIZE)
    ok, what = True, ""
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            if fsize is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, old_lim[1]))
            try:
                rc = mod.main()
                if rc not in (None, 0):
                    ok, what = False, f"exit {rc}"
            except SystemExit as e:
                if e.code not in (None, 0):
                    ok, what = False, f"exit {e.code}"
            except Exception as e:
                ok, what = False, f"{type(e).__name__}: {e}"
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, old_lim)
    finally:
        sys.argv = old_argv
    return Result(ok, out.getvalue(), err.getvalue(), what[:300])


def crash(module, argv, fsize):
    """The same in a process that the kernel ends when it writes beyond fsize bytes of a file. True when it was ended."""
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            mod = importlib.import_module("simplemseed." + module)
            sys.argv = [module] + list(argv)
            with contextlib.redirect_stdout(_Text()), contextlib.redirect_stderr(_Text()):
                mod.main()
        except BaseException:
            os._exit(1)
        os._exit(0)
    _pid, status = os.waitpid(pid, 0)
    return os.WIFSIGNALED(status)


def write(d, name, data):
    p = os.path.join(d, name)
    with open(p, "wb") as f:
        f.write(data)
    return p


def read(p):
    with open(p, "rb") as f:
        return f.read()


SPELLINGS = ["same", "dotted", "symlink", "hardlink", "relative"]


def spell(d, path, how):
    """Another way to name the file at path, in directory d."""
    name = os.path.basename(path)
    if how == "dotted":
        os.makedirs(os.path.join(d, "sub"), exist_ok=True)
        return os.path.join(d, "sub", "..", name)
    if how == "relative":
        return os.path.relpath(path)
    if how in ("symlink", "hardlink"):
        other = os.path.join(d, "other")
        (os.symlink if how == "symlink" else os.link)(path, other)
        return other
    return path
