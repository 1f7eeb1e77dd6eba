"""Makes /repo importable with extension modules compiled from its current Fortran sources.

Nothing is written in /repo: the extensions are compiled into a scratch folder the
first time one of them is imported, and served from there by an import hook, so a
stale extension lying beside the source is never used.
"""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

from .core import REPO

_tmp = None
EXTS = {}


def scratch():
    """A scratch folder removed at the end of the run."""
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="geotecha-mc-")
        _tmp_owner.append(os.getpid())
    return _tmp


_tmp_owner = []


def cleanup():
    global _tmp
    if _tmp and _tmp_owner and _tmp_owner[0] == os.getpid():
        shutil.rmtree(_tmp, ignore_errors=True)
        _tmp = None


class _ExtFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname not in EXTS:
            return None
        so = build_ext(fullname, EXTS[fullname])
        loader = importlib.machinery.ExtensionFileLoader(fullname, so)
        return importlib.util.spec_from_file_location(fullname, so, loader=loader)


def build_ext(fullname, src):
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    name = fullname.split(".")[-1]
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    d = os.path.join(scratch(), "ext-%s-%s" % (name, h))
    so = os.path.join(d, name + suffix)
    if os.path.exists(so):
        return so
    os.makedirs(d, exist_ok=True)
    shutil.copy(src, d)
    e = dict(os.environ, FC="gfortran", CC="gcc", PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin")
    p = subprocess.run([sys.executable, "-m", "numpy.f2py", "-c", "--backend", "meson",
                        "--build-dir", os.path.join(d, "bld"), "-m", name, os.path.basename(src)],
                       cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if not os.path.exists(so):
        raise ImportError("building %s failed: %s" % (src, p.stdout[-2000:].decode(errors="replace")))
    return so


def setup():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for root, dirs, files in os.walk(os.path.join(REPO, "geotecha")):
        for f in files:
            b, ext = os.path.splitext(f)
            if ext.lower() in (".f95", ".f90"):
                mod = os.path.relpath(os.path.join(root, b), REPO).replace(os.sep, ".")
                EXTS[mod] = os.path.join(root, f)
    sys.meta_path.insert(0, _ExtFinder())
