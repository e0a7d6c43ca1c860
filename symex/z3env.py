"""Make z3 importable from the pyvbmc virtualenv (both are CPython 3.12)."""
import importlib.util
import os
import sys

_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _load():
    try:
        import z3  # noqa: F401

        return sys.modules["z3"]
    except ImportError:
        pass
    # Only the z3 package is taken from there: numpy & co. stay the ones
    # pyvbmc is built against.
    path = os.path.join(_SITE, "z3")
    spec = importlib.util.spec_from_file_location(
        "z3", os.path.join(path, "__init__.py"), submodule_search_locations=[path]
    )
    mod = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = mod
    spec.loader.exec_module(mod)
    return mod


z3 = _load()
