"""Replay of one instance through pctsp.algorithms.solve_pctsp (the Python entry of branch and cut)."""
import logging
import pathlib
import shutil
import tempfile

from pyscipopt import Model
import pctsp.algorithms as alg
from pctsp.algorithms import SummaryStats
from common import disjoint_costs, graph_of


def tour_edges(a, lab):
    t = a["tour"]
    return [(lab[t[j]], lab[t[j + 1]]) for j in range(len(t) - 1)]


def solve(a):
    G, lab, back = graph_of(a)
    root = lab[a["root"]]
    djp = {}
    if a["cc_dp"]:
        djp = disjoint_costs(G, root)
    d = pathlib.Path(tempfile.mkdtemp(prefix="solve", dir="."))
    try:
        model = Model(problemName="pctsp", createscip=True, defaultPlugins=False)
        heur = tour_edges(a, lab) if a["heur"] else []
        es = alg.solve_pctsp(
            model, G, heur, a["quota"], root,
            branching_max_depth=a["depth"], branching_strategy=a["strat"],
            cost_cover_disjoint_paths=a["cc_dp"], cost_cover_shortest_path=a["cc_sp"],
            cycle_cover=a["cyc"], disjoint_paths_cost=djp, logging_level=logging.ERROR,
            name="inst", solver_dir=d / "solver", sec_disjoint_tour=a["sec_dt"],
            sec_lp_gap_improvement_threshold=a["thr"] / 1000.0, sec_maxflow_mincut=a["sec_mf"],
            sec_max_tailing_off_iterations=a["tail"], sec_sepafreq=a["freq"],
            simple_rules_only=a["simple"], time_limit=60.0)
        res = [[back[u], back[v]] for u, v in es]
        out = {"res": res, "status": model.getStatus(), "nodes": model.getNTotalNodes(),
               "pb": model.getPrimalbound(), "db": model.getDualbound()}
        y = d / "solver" / "pctsp_summary_stats.yaml"
        out["files"] = sorted(p.name for p in (d / "solver").iterdir())
        if y.exists():
            s = SummaryStats.from_yaml(y)
            out["stats"] = s.dict() if not hasattr(s, "model_dump") else s.model_dump()
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def basic(a):
    """The basic entry of the extension: vertices are 0..n-1, no options."""
    from pctsp.libpypctsp import basic_solve_pctsp_bind
    es = [(u, v) for u, v, _ in a["edges"]]
    t = a["tour"]
    good = a["heur"] and len(t) > 3 and sum(a["prize"][v] for v in set(t)) >= a["quota"]
    heur = [(t[j], t[j + 1]) for j in range(len(t) - 1)] if good else []
    has = {v for e in es for v in e}
    model = Model(problemName="pctsp", createscip=True, defaultPlugins=False)
    res = basic_solve_pctsp_bind(model, es, heur, {(u, v): c for u, v, c in a["edges"]}, {v: a["prize"][v] for v in has},
                                 a["quota"], a["root"], "basic")
    return {"res": [list(e) for e in res], "status": model.getStatus()}
