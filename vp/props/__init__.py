"""One function per property; `@prop(id)` registers it."""
import importlib
import pathlib

REG = {}


def prop(pid, **meta):
    def deco(fn):
        REG[pid] = (fn, meta)
        return fn
    return deco


def load():
    for f in sorted(pathlib.Path(__file__).parent.glob("p_*.py")):
        importlib.import_module(f"vp.props.{f.stem}")


def get(pid):
    load()
    return REG[pid]
