"""Bring up the real code of /repo inside this process.

The wcxf-bases submodule is empty in this checkout, so the EFT and basis tables
are generated (vc/bases.py) and registered through the real EFT/Basis classes
before the packages that need them are imported.  No module of wilson is
replaced: every function that is verified is the one in /repo's working tree.
"""
import importlib, importlib.util, os, sys, types

REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"
sys.dont_write_bytecode = True
if VENV_SITE not in sys.path:
    sys.path.append(VENV_SITE)

_state = {}


def _pkg_stub(name, path):
    spec = importlib.util.spec_from_file_location(
        name, os.path.join(path, "__init__.py"), submodule_search_locations=[path])
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    return spec, m


def boot(full=True):
    """Import the real wilson package from REPO. Returns the package module."""
    if _state.get("full") or (_state.get("part") and not full):
        return sys.modules["wilson"]
    if "wilson" not in sys.modules:
        spec, wilson = _pkg_stub("wilson", os.path.join(REPO, "wilson"))
        uspec, wutil = _pkg_stub("wilson.util", os.path.join(REPO, "wilson", "util"))
        wilson.util = wutil
        _state["specs"] = (spec, wilson, uspec, wutil)
        importlib.import_module("wilson.wcxf")
        from . import bases
        bases.register()
    _state["part"] = True
    if full:
        spec, wilson, uspec, wutil = _state["specs"]
        uspec.loader.exec_module(wutil)
        spec.loader.exec_module(wilson)
        _state["full"] = True
    return sys.modules["wilson"]


def source_files():
    import glob
    return sorted(glob.glob(os.path.join(REPO, "wilson", "**", "*.py"), recursive=True))
