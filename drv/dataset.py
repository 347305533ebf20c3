"""Statistics of instances and of whole data sets."""
import contextlib
import io
import pathlib
import shutil
import tempfile

import networkx as nx
import pandas as pd
from pctsp.apps.dataset_app import get_graph_stats, stats_of_dataset
from pctsp.compare import params
from pctsp.vial import DatasetName
from tspwplib import BaseTSP, EdgeWeightType, Generation, GraphName, LondonaqGraphName, ProfitsProblem, build_path_to_londonaq_yaml, build_path_to_oplib_instance, mst_cost, sparsify_uid
from compare import SLOT, write_files

COUNTS = ["num_nodes", "num_edges", "total_cost", "total_prize", "biggest_disjoint_prize", "max_disjoint_paths_cost",
          "preprocessed_num_nodes", "preprocessed_num_edges", "preprocessed_total_cost", "preprocessed_total_prize"]
RATIOS = ["metricness", "disjoint_prize_ratio", "preprocessed_metricness", "preprocessed_prize_ratio"]


def shown(d):
    out = {k: int(d[k]) if float(d[k]) == int(d[k]) else -7 for k in COUNTS}
    out.update({k: round(float(d[k]) * 1000000) for k in RATIOS})
    return out


def silent(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


def graph_of(a):
    lab = a["label"]
    G = nx.Graph()
    for v in range(a["n"]):
        G.add_node(lab[v], prize=a["prize"][v])
    for u, v, c in a["edges"]:
        G.add_edge(lab[u], lab[v], cost=c)
    for v in a["loops"]:
        G.add_edge(lab[v], lab[v], cost=0)
    return G


def one(a):
    G = graph_of(a)
    before = (sorted(map(sorted, G.edges)), dict(G.nodes(data="prize")))
    st = silent(get_graph_stats, G, a["label"][a["root"]])
    return {"stats": shown(st), "same": before == (sorted(map(sorted, G.edges)), dict(G.nodes(data="prize")))}


def load(dataset, op, lq, key):
    """The graph of one line of the data set file, as the data set defines it."""
    if dataset == "londonaq":
        tsp = BaseTSP.from_yaml(build_path_to_londonaq_yaml(lq, LondonaqGraphName(key)))
        H = tsp.get_graph()
        G = nx.Graph()
        for v, d in H.nodes(data=True):
            G.add_node(v, prize=d["demand"])
        for u, v, d in H.edges(data=True):
            G.add_edge(u, v, cost=d["weight"])
        return G, tsp.depots[0]
    name, gen, cost, kappa = key
    problem = ProfitsProblem().load(build_path_to_oplib_instance(op, Generation(gen), GraphName(name)))
    tsp = BaseTSP.from_tsplib95(problem)
    H = tsp.get_graph()
    G = nx.Graph()
    for v in H.nodes:
        G.add_node(v, prize=problem.get_node_score()[v])
    for u, v, d in H.edges(data=True):
        G.add_edge(u, v, cost=d["weight"])
    G = sparsify_uid(G, kappa)
    if cost == EdgeWeightType.MST.value:
        nx.set_edge_attributes(G, mst_cost(G, cost_attr="cost"), name="cost")
    return G, tsp.depots[0]


def whole(a):
    top = pathlib.Path(tempfile.mkdtemp(prefix="ds", dir=".")).resolve()
    keep = {k: getattr(params, k) for k in ("TSPLIB_GRAPH_NAME_LIST", "TSPLIB_COST_FUNCTIONS", "TSPLIB_KAPPA_LIST", "LONDONAQ_GRAPH_NAME_LIST")}
    try:
        b = {**a, "op": "exp"}
        op, lq = write_files(b, top)
        df = silent(stats_of_dataset, DatasetName(a["dataset"]), londonaq_root=lq, oplib_root=op)
        path = lq / "londonaq_dataset.csv" if a["dataset"] == "londonaq" else op / "tsplib_dataset.csv"
        got = pd.read_csv(path).to_dict("records")
        mem = df.reset_index().to_dict("records")
        rows, own = [], []
        for d in got:
            key = d["graph_name"] if a["dataset"] == "londonaq" else (d["graph_name"], d["generation"], d["cost_function"], int(d["kappa"]))
            rows.append({"key": [key] if a["dataset"] == "londonaq" else [key[0], key[1], key[2], str(key[3])], "stats": shown(d)})
        for k, r in enumerate(rows):
            key = r["key"][0] if a["dataset"] == "londonaq" else (*r["key"][:3], int(r["key"][3]))
            if k % a["stride"] == 0:
                G, root = load(a["dataset"], op, lq, key)
                own.append({"row": k + 1, "stats": shown(silent(get_graph_stats, G, root))})
        return {"rows": rows, "own": own, "memory": [shown(d) for d in mem] == [r["stats"] for r in rows],
                "lists": [[g.value for g in keep["LONDONAQ_GRAPH_NAME_LIST"]]] if a["dataset"] == "londonaq" else
                         [[g.value for g in keep["TSPLIB_GRAPH_NAME_LIST"]], [g.value for g in Generation], [c.value for c in keep["TSPLIB_COST_FUNCTIONS"]],
                          [str(k) for k in keep["TSPLIB_KAPPA_LIST"]]]}
    finally:
        shutil.rmtree(top, ignore_errors=True)
