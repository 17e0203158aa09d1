"""
Makes the QuakeMigrate working tree importable for the checks.

* Python code is imported straight from the working tree (QM_REPO, default /repo).
* The C library is compiled from the working tree's sources into a scratch directory
  with the project's own flags, and `ctypes.CDLL` is pointed at the fresh library, so a
  stale or missing in-tree build product never decides anything.
* Nothing is written into the working tree (no bytecode, no build products).
"""

import atexit
import ctypes
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

REPO = pathlib.Path(os.environ.get("QM_REPO", "/repo")).resolve()
VERIF = pathlib.Path(__file__).resolve().parents[1]

_scratch = None


def scratch_root():
    """One scratch directory per check run, removed when the run ends."""
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _scratch = pathlib.Path(tempfile.mkdtemp(prefix="qmmc_", dir=base))
        owner = os.getpid()

        def _clean(path=_scratch, owner=owner):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(_clean)
    return _scratch


def c_sources():
    return sorted((REPO / "quakemigrate" / "core" / "src").glob("*.c"))


CFLAGS = ["-fopenmp", "-fPIC", "-Ofast", "-DNDEBUG", "-fno-strict-overflow", "-Wsign-compare"]


def build_qmlib():
    out = scratch_root() / "qmlib_fresh.so"
    src = REPO / "quakemigrate" / "core" / "src"
    cmd = ["gcc", "-shared", "-w", *CFLAGS, f"-I{src}",
           *map(str, c_sources()), "-lm", "-lgomp", "-o", str(out)]
    subprocess.run(cmd, check=True, capture_output=True)
    return out


_booted = False
_lib = {}


def import_core(lib):
    """A second, private import of quakemigrate.core.lib bound to another build of the
    C library; the regular modules are left in place."""
    import importlib

    saved = {k: v for k, v in sys.modules.items() if k.split(".")[0] == "quakemigrate"}
    old = _lib["path"]
    for k in saved:
        del sys.modules[k]
    _lib["path"] = str(lib)
    try:
        return importlib.import_module("quakemigrate.core.lib")
    finally:
        for k in [k for k in sys.modules if k.split(".")[0] == "quakemigrate"]:
            del sys.modules[k]
        sys.modules.update(saved)
        _lib["path"] = old


def boot(lib=None):
    """Set the environment up and import quakemigrate from the working tree."""
    global _booted
    if _booted:
        return
    _booted = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    mpl = scratch_root() / "mpl"
    mpl.mkdir(exist_ok=True)
    os.environ["MPLCONFIGDIR"] = str(mpl)
    os.environ.setdefault("PROJ_NETWORK", "OFF")
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OMP_WAIT_POLICY"] = "passive"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    sys.dont_write_bytecode = True

    _lib["path"] = str(lib or build_qmlib())
    original_init = ctypes.CDLL.__init__

    def init(self, name, *args, **kwargs):
        if name is not None and os.path.basename(str(name)).startswith("qmlib"):
            name = _lib["path"]
        original_init(self, name, *args, **kwargs)

    ctypes.CDLL.__init__ = init
    sys.path.insert(0, str(REPO))

    import warnings

    warnings.filterwarnings("ignore")
    import logging

    logging.disable(logging.CRITICAL)

    import quakemigrate

    got = pathlib.Path(quakemigrate.__file__).resolve()
    if REPO not in got.parents:
        raise RuntimeError(f"quakemigrate imported from {got}, not {REPO}")
    import matplotlib.pyplot  # noqa: F401  (before forking)
