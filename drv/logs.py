"""The loggers of the project and the branching codes of its Python side."""
import io
import itertools
import logging

from pctsp.utils import get_pctsp_logger
from pctsp.vial import BranchingStrategy

_n = itertools.count()
NAMES = ("RELPSCOST", "STRONG", "STRONG_AT_TREE_TOP", "DEFAULT")


def codes(a):
    return {"pycodes": {n: int(BranchingStrategy[n]) for n in NAMES}}


def history(a):
    """Every run uses names of its own, so that it starts without loggers."""
    pre = f"vp{next(_n)}-"
    got, out = {}, []
    real = []
    for s in a["psteps"]:
        name = pre + s[1]
        buf = io.StringIO()
        for lg in got.values():
            for h in lg.handlers:
                if isinstance(h, logging.StreamHandler):
                    h.setStream(buf)
        if s[0] == "get":
            lg = get_pctsp_logger(name) if s[2] < 0 else get_pctsp_logger(name, level=s[2])
            lg.propagate = False
            got[name] = lg
            out.append({"name": lg.name[len(pre):], "lines": 0})
        else:
            text = f"message-{len(out)}"
            if name in got:
                got[name].log(s[2], text)
            out.append({"name": s[1], "lines": sum(1 for l in buf.getvalue().splitlines() if text in l)})
    for lg in got.values():
        for h in list(lg.handlers):
            lg.removeHandler(h)
        logging.Logger.manager.loggerDict.pop(lg.name, None)
    return {"out": out}
