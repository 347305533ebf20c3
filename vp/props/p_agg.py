"""Summary tables."""
from . import prop
from ..flow import flow


def _sound(a):
    """No heuristic has a tour on an instance that the solver proves infeasible."""
    def key(r):
        return (r["graph"], r["quota"], r["root"]) + ((r["generation"], r["kappa"], r["fn"]) if a["dataset"] == "tspwplib" else ())
    none = {key(r) for r in a["cover"] if r["lb"] == -1}
    return {**a, "heur": [{**r, "objective": -999, "feasible": 0} if key(r) in none else r for r in a["heur"]]}


@prop("C34")
def summary_tables(ctx):
    flow(ctx, gen="GenAgg", consts=dict(NMIN=3, NMAX=3, CMAX=9, PMAX=9), num=ctx.pick(400, 5000), op="agg:observe", spec="Agg", prep=_sound,
         label="summary tables")
