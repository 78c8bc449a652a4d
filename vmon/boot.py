"""Import opt_einsum from the tree under test, always compiled from the current source files.

A byte-code cache written by an earlier build could be stale, so caches are ignored while the
package is imported (and never written).  Array libraries are imported beforehand so that only
opt_einsum itself pays for compilation.
"""
import importlib
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

_done = False


def boot():
    global _done
    if _done:
        return
    sys.dont_write_bytecode = True
    for name in ("numpy", "pytest", "concurrent.futures", "multiprocessing", "decimal"):
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    if "opt_einsum" in sys.modules:
        raise RuntimeError("opt_einsum was imported before the monitor booted")
    sys.path.insert(0, REPO)
    bk = os.path.join(HERE, "bk")
    if bk not in sys.path:
        sys.path.insert(1, bk)
    old = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent/vmon-no-cache"
    try:
        oe = importlib.import_module("opt_einsum")
        import pkgutil

        for m in pkgutil.walk_packages(oe.__path__, "opt_einsum."):
            if not m.name.startswith("opt_einsum.tests"):
                try:
                    importlib.import_module(m.name)
                except ModuleNotFoundError as e:
                    if e.name != "pytest":  # needed by opt_einsum.testing only
                        raise
    finally:
        sys.pycache_prefix = old
    where = os.path.realpath(oe.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"wrong copy of opt_einsum imported: {where}")
    _done = True
    return oe


def in_repo(filename):
    return filename.startswith(os.path.join(REPO, "opt_einsum") + os.sep)
