"""Summary statistics as the Python model reads them."""
import pathlib
import tempfile

from pctsp.algorithms.data_structures import SummaryStats

NAMES = {"status": "status", "lb": "lower_bound", "ub": "upper_bound", "ccdp": "num_cost_cover_disjoint_paths",
         "ccsp": "num_cost_cover_shortest_paths", "predp": "nconss_presolve_disjoint_paths",
         "presp": "nconss_presolve_shortest_paths", "cyc": "num_cycle_cover", "nodes": "num_nodes",
         "dt": "num_sec_disjoint_tour", "mf": "num_sec_maxflow_mincut"}


def load(a):
    with tempfile.TemporaryDirectory() as d:
        f = pathlib.Path(d) / "s.yaml"
        f.write_text(a["text"])
        s = SummaryStats.from_yaml(f)
    return {"got": {k: round(getattr(s, n) * (8 if k in ("lb", "ub") else 1)) for k, n in NAMES.items()}}
