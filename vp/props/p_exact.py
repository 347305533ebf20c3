from . import prop
from ..flow import design, flow
from .p_solver import _dps


def _rooted(x):
    """The basic entry knows the vertices that have edges."""
    return x if any(x["root"] in e[:2] for e in x["edges"]) else None


def _outcome(x, o):
    """What the compiled entry answers, in the words of the Python entry."""
    if "res" not in o:
        return {**x, "res": [], "err": o.get("err", "?")}
    return {**x, "res": o["res"], "status": {1: "optimal", 2: "infeasible"}.get(o["status"], str(o["status"]))}


def _search(x):
    """The compiled entry trusts its caller to give it a start tour that meets the quota."""
    good = sum(x["prize"][v] for v in set(x["heur"])) >= x["quota"]
    return _dps({**x, "heur": x["heur"] if good else []})


@prop("C01")
def exact(ctx):
    """The exact solver refines the problem specification for every option combination."""
    flow(ctx, gen="GenExact", consts=dict(NMIN=3, NMAX=7, CMAX=10, PMAX=6), num=ctx.pick(900, 9000),
         op="exact:solve", spec="Exact", ext=True, label="small instances, all options", wide=(100000, 20000))
    flow(ctx, gen="GenExact", consts=dict(NMIN=8, NMAX=ctx.pick(9, 10), CMAX=30, PMAX=9), num=ctx.pick(200, 2000),
         op="exact:solve", spec="Exact", ext=True, label="larger instances, all options", seed_off=1000)
    flow(ctx, gen="GenHard", consts=dict(NMIN=7, NMAX=ctx.pick(8, 9), CMAX=6, PMAX=5, FAR=7), num=ctx.pick(200, 1500),
         op="exact:solve", spec="Exact", ext=True, label="clustered instances, all options", seed_off=2000,
         prep=lambda x: _rooted({**x, "heur": bool(x["heur"])}))
    flow(ctx, gen="GenExact", consts=dict(NMIN=3, NMAX=8, CMAX=10, PMAX=6), num=ctx.pick(300, 3000), op="exact:basic", spec="Exact", ext=True,
         prep=_rooted, label="basic entry", seed_off=3000, wide=(100000, 20000))
    # the answer does not depend on how SCIP searches: relaxations off or rare, other orders of the variables, other seeds
    flow(ctx, gen="GenSolve", consts=dict(NMIN=3, NMAX=8, CMAX=9, PMAX=5), num=ctx.pick(600, 6000), op="solve", spec="Exact", driver="solver", prep=_search, merge=_outcome,
         label="whole runs with settings of the search", seed_off=6000)
    ring = dict(NMIN=3, NMAX=3, CMAX=9, PMAX=3, KMIN=8, KMAX=ctx.pick(14, 18))
    flow(ctx, gen="GenRingExact", consts=ring, num=ctx.pick(120, 1200), op="exact:solve", spec="Ring", ext=True, label="rings of gadgets, all options", seed_off=4000)
    flow(ctx, gen="GenRingExact", consts=dict(ring, KMIN=4), num=ctx.pick(60, 600), op="exact:basic", spec="Ring", ext=True, prep=_rooted,
         label="rings of gadgets, basic entry", seed_off=5000)
    design(ctx, "BranchCut", dict(DEPTH=1, JOINS=2), "design of the search", wrong=ctx.pick((), ("root", "at", "rhs", "quota", "fixed", "scaled")))
    if ctx.thorough():
        design(ctx, "BranchCut", dict(DEPTH=2, JOINS=2), "design of the search, deeper", timeout=1500)
        design(ctx, "BranchCut", dict(DEPTH=1, JOINS=3), "design of the search, more connections", timeout=1500)
