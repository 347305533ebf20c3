"""Replay worker: one JSON request per stdin line, one JSON answer per line on descriptor VP_FD."""
import importlib
import importlib.machinery
import importlib.util
import json
import os
import sys
import traceback
import warnings

warnings.simplefilter("ignore")
out = os.fdopen(int(os.environ["VP_FD"]), "w")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def load_ext(path):
    import pyscipopt  # noqa: F401  (loads libscip)
    import pctsp
    loader = importlib.machinery.ExtensionFileLoader("pctsp.libpypctsp", path)
    spec = importlib.util.spec_from_file_location("pctsp.libpypctsp", path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules["pctsp.libpypctsp"] = mod
    pctsp.libpypctsp = mod


def stub_ext():
    """Pure Python code only: the compiled module is not needed and every call into it fails."""
    import types
    import pctsp

    class Stub(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)

            def f(*a, **k):
                raise RuntimeError(f"stub called: {name}")
            return f
    mod = Stub("pctsp.libpypctsp")
    sys.modules["pctsp.libpypctsp"] = mod
    pctsp.libpypctsp = mod


if os.environ.get("VP_EXT"):
    load_ext(os.environ["VP_EXT"])
else:
    stub_ext()

for line in sys.stdin:
    req = json.loads(line)
    mod, fn = req["op"].split(":")
    try:
        res = getattr(importlib.import_module(mod), fn)(req["arg"])
    except Exception as e:  # what the code raised is part of the observed behaviour
        res = {"err": type(e).__name__, "detail": str(e)[:300], "tb": traceback.format_exc()[-1500:]}
    out.write(json.dumps(res) + "\n")
    out.flush()
