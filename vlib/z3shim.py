"""Make the pre-installed z3 bindings importable from the repository's interpreter.

/opt/venv has no z3; /opt/veriftools/pyvenv (same CPython minor version) has.  Only the
`z3` package is exposed, so that nothing else of that venv can shadow what /repo uses.
"""
import importlib.util
import os
import sys


def load_z3():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    for base in (
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
        "/opt/veriftools/pyvenv/lib/python3/site-packages",
    ):
        init = os.path.join(base, "z3", "__init__.py")
        if os.path.exists(init):
            spec = importlib.util.spec_from_file_location(
                "z3", init, submodule_search_locations=[os.path.dirname(init)]
            )
            mod = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = mod
            spec.loader.exec_module(mod)
            return mod
    import z3  # last resort

    return z3


z3 = load_z3()
