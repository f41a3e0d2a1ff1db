"""Driving the compiler under test: compile programs in-process or through
the command line, always from /repo's current working tree, always into
scratch directories."""
import contextlib
import importlib
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import traceback

REPO = os.environ.get("ACV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_scratch_root = None


def scratch_root():
    """One scratch directory per process, removed at exit."""
    global _scratch_root
    if _scratch_root is None:
        import atexit
        base = None
        for cand in ("/dev/shm", tempfile.gettempdir()):
            if os.path.isdir(cand) and os.access(cand, os.W_OK):
                base = cand
                break
        _scratch_root = tempfile.mkdtemp(prefix="acv_", dir=base)
        root, pid = _scratch_root, os.getpid()

        def _rm():
            if os.getpid() == pid:
                shutil.rmtree(root, ignore_errors=True)
        atexit.register(_rm)
    return _scratch_root


_n = 0


def fresh_dir(name="d"):
    global _n
    _n += 1
    d = os.path.join(scratch_root(), "%s%d_%d" % (name, os.getpid(), _n))
    os.mkdir(d)
    return d


_ac = None
import warnings
warnings.filterwarnings("ignore", category=SyntaxWarning)


def load():
    """Import acaciamc from /repo (never writing bytecode there, and never
    trusting bytecode that is there)."""
    global _ac
    if _ac is None:
        sys.dont_write_bytecode = True
        sys.pycache_prefix = os.path.join(scratch_root(), "nopyc")
        sys.path.insert(0, REPO)
        sys.setrecursionlimit(6000)
        for m in [m for m in sys.modules if m.split(".")[0] == "acaciamc"]:
            del sys.modules[m]
        import acaciamc.compiler as comp
        import acaciamc.error as err
        f = os.path.realpath(comp.__file__)
        assert f.startswith(os.path.realpath(REPO) + os.sep), f
        _ac = (comp, err)
    return _ac


class Result:
    """ok: files is a dict path -> text (all output files).
    error: a diagnosed compile error (CompileError).
    crash: any other exception."""
    def __init__(self, kind, files=None, exc=None, tb=None):
        self.kind = kind
        self.files = files
        self.exc = exc
        self.tb = tb
        self.message = str(exc) if exc is not None else None

    @property
    def ok(self):
        return self.kind == "ok"

    def functions(self):
        return {p[:-len(".mcfunction")]: t for p, t in self.files.items()
                if p.endswith(".mcfunction")}

    def tick_paths(self):
        t = self.files.get("tick.json")
        return json.loads(t)["values"] if t else []

    def etype(self):
        t = getattr(self.exc, "type", None)
        return getattr(t, "name", None)


def read_tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "r", encoding="utf-8", newline="") as fh:
                out[os.path.relpath(p, d).replace(os.sep, "/")] = fh.read()
    return out


def write_tree(d, files):
    for name, text in files.items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8", newline="") as fh:
            fh.write(text)


def compile_src(sources, main="main.aca", keep=False, **cfg):
    """sources: str or dict file name -> text.  Returns Result."""
    comp, err = load()
    if isinstance(sources, str):
        sources = {main: sources}
    d = fresh_dir("src")
    out = os.path.join(d, "__out")
    try:
        write_tree(d, sources)
        try:
            c = comp.Compiler(os.path.join(d, main), comp.Config(**cfg))
            os.mkdir(out)
            c.output(out)
        except err.Error as e:
            try:
                msg = e.full_msg()
            except Exception as e2:
                return Result("crash", exc=e2, tb="while formatting %r:\n%s"
                              % (e.type, traceback.format_exc()))
            r = Result("error", exc=e)
            r.message = msg
            return r
        except RecursionError as e:
            return Result("crash", exc=e, tb="RecursionError")
        except Exception as e:
            return Result("crash", exc=e, tb=traceback.format_exc())
        return Result("ok", files=read_tree(out))
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


def cli(args, cwd, env=None, timeout=120):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1",
             PYTHONPYCACHEPREFIX=os.path.join(scratch_root(), "nopyc"))
    e.update(env or {})
    return subprocess.run([sys.executable,
                           os.path.join(REPO, "acacia.py")] + args,
                          cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, timeout=timeout,
                          universal_newlines=True)
