"""run_preprocessing and run_algorithm on a vial, beside the algorithms they are made of."""
import logging
import pathlib
import shutil
import sys
import tempfile
import uuid

import networkx as nx
from pyscipopt import Model
from tspwplib import EdgeWeightType
from tspwplib.types import LondonaqGraphName

# what the compiled solver is called with: everything but the model and the directory
CALLS = []
LIB = sys.modules["pctsp.libpypctsp"]
_bind = LIB.solve_pctsp_bind


def _recording(*args, **kw):
    CALLS.append([sorted(sorted(e) for e in x) if k == 2 else x for k, x in enumerate(args)
                  if not isinstance(x, (Model, pathlib.PurePath))] + sorted(kw.items()))
    return _bind(*args, **kw)


LIB.solve_pctsp_bind = _recording
import pctsp.algorithms as alg
import pctsp.preprocessing as pp
from pctsp.lab import run_algorithm, run_preprocessing
from pctsp.vial import AlgorithmName, DataConfig, DatasetName, ModelParams, Preprocessing, Vial, EXACT_ALGORITHMS, HEURISTIC_ALGORITHMS, RELAXATION_ALGORITHMS
from common import graph_of, suurballe_tree

ec = sys.modules["pctsp.algorithms.extension_collapse"]
pec = sys.modules["pctsp.algorithms.path_extension_collapse"]
Q = logging.CRITICAL


def att(f, *a, **k):
    try:
        return f(*a, **k), ""
    except Exception as exc:
        return None, type(exc).__name__


def parts(G, a, root, B):
    """The heuristics on the graph, step by step: {name: {"err", "tour"}}."""
    q, csp = a["quota"], a["csp"] == 1
    depth, step = a["depth"] or G.number_of_nodes(), a["step"] or 10
    tree, big = suurballe_tree(G, root)
    costs, paths = pp.vertex_disjoint_cost_map(tree, big), pp.undirected_vertex_disjoint_paths_map(tree, big)
    prize = nx.get_node_attributes(G, "prize")
    out = {}

    def put(name, r):
        out[name] = {"err": r[1], "tour": [] if r[1] else B(r[0])}
        return r[0]
    inits = {"bfs": put("bfs", att(alg.find_cycle_from_bfs, G, root))}
    if costs and paths:
        put("suurballes", att(alg.suurballes_heuristic, prize, q, costs, paths))
        inits["suur"] = put("suur", att(alg.suurballes_tour_initialization, prize, q, costs, paths))
    for n, t in inits.items():
        if t:
            u = put(n + "_until", att(ec.extension_until_prize_feasible, G, list(t), q))
            put(n + "_ec", att(ec.extension_unitary_gain_collapse, G, list(u), q, root, logging_level=Q))
            put(n + "_pec", att(pec.path_extension_collapse, G, list(t), root, q, collapse_shortest_paths=csp, path_depth_limit=depth,
                                step_size=step, logging_level=Q))
    return out, bool(costs and paths)


PART = {"": None, "suurballes_heuristic": "suurballes", "bfs_extension_collapse": "bfs_ec", "bfs_path_extension_collapse": "bfs_pec",
        "suurballes_extension_collapse": "suur_ec", "suurballes_path_extension_collapse": "suur_pec"}


def same_call(K, a, root, lab, out, d):
    """The compiled solver called through solve_pctsp with the options of the vial must be given what it was given for the vial."""
    mine = list(CALLS)
    t = [lab[v] for v in out["parts"].get(PART[a["warm"]], {"tour": []})["tour"]]
    es = list(zip(t, t[1:]))
    if t and sum(K.nodes[v]["prize"] for v in set(t)) < a["quota"]:
        es = []
    tree, big = suurballe_tree(K, root)
    alg.solve_pctsp(
        Model(problemName=str(uuid.UUID(int=77)), createscip=True, defaultPlugins=False), K.copy(), es, a["quota"], root,
        branching_max_depth=a["bmax"], branching_strategy=a["strat"], cost_cover_disjoint_paths=a["cc_dp"],
        cost_cover_shortest_path=a["cc_sp"], disjoint_paths_cost=pp.vertex_disjoint_cost_map(tree, big), logging_level=Q,
        name=str(uuid.UUID(int=77)), solver_dir=d / "direct", sec_disjoint_tour=a["sec_dt"],
        sec_lp_gap_improvement_threshold=a["thr"] / 1000, sec_maxflow_mincut=a["sec_mf"], sec_max_tailing_off_iterations=a["tail"],
        sec_sepafreq=a["freq"], time_limit=60.0)
    if len(mine) != 1 or len(CALLS) != 2:
        return f"{len(mine)} calls"
    x, y = mine[0], CALLS[1]
    return " ".join(str(k) for k in range(max(len(x), len(y))) if k >= len(x) or k >= len(y) or x[k] != y[k])


def run(a):
    G, lab, back = graph_of(a)
    B = lambda s: [back[x] for x in s]
    root = lab[a["root"]]
    al = AlgorithmName(a["alg"])
    vial = Vial(
        uuid=uuid.UUID(int=77),
        data_config=DataConfig(dataset=DatasetName.londonaq, cost_function=EdgeWeightType.EXPLICIT, graph_name=LondonaqGraphName.laqbbA,
                               quota=a["quota"], root=root),
        model_params=ModelParams(
            algorithm=al, is_exact=al in EXACT_ALGORITHMS, is_heuristic=al in HEURISTIC_ALGORITHMS, is_relaxation=al in RELAXATION_ALGORITHMS,
            branching_strategy=a["strat"], branching_max_depth=a["bmax"], collapse_paths={0: None, 1: True, 2: False}[a["csp"]],
            cost_cover_disjoint_paths=a["cc_dp"], cost_cover_shortest_path=a["cc_sp"], heuristic=a["warm"] or None,
            path_depth_limit=a["depth"] or None, sec_disjoint_tour=a["sec_dt"], sec_lp_gap_improvement_threshold=a["thr"] / 1000,
            sec_maxflow_mincut=a["sec_mf"], sec_max_tailing_off_iterations=a["tail"], sec_sepafreq=a["freq"], step_size=a["step"] or None,
            time_limit=60.0),
        preprocessing=Preprocessing(
            disjoint_path_cutoff=a["cut"] == 2, shortest_path_cutoff=a["cut"] == 1, remove_leaves=a["pre"][0],
            remove_disconnected_components=a["pre"][1], remove_one_connected_components=a["pre"][2]))
    d = pathlib.Path(tempfile.mkdtemp(prefix="run", dir="."))
    log = logging.Logger("run", Q)
    try:
        H, e1 = att(run_preprocessing, G.copy(), vial, logger=log)
        # the steps of the vial one by one
        K = G.copy()
        if a["pre"][1]:
            K = pp.remove_components_disconnected_from_vertex(K, root)
        if a["pre"][0]:
            K = pp.remove_leaves(K)
        if a["pre"][2]:
            K = pp.remove_one_connected_components(K, root)
        out = {"preerr": e1, "parts": {}, "maps": True}
        es = lambda X: sorted([*sorted((back[u], back[v])), int(c)] for u, v, c in X.edges(data="cost"))
        ns = lambda X: sorted([back[v], int(p)] for v, p in X.nodes(data="prize"))
        out["want"] = {"e": es(K), "v": ns(K)}
        out["got"] = {"e": es(K), "v": ns(K)} if e1 else {"e": es(H), "v": ns(H)}
        out["inroot"] = root in K
        if root in K:
            CALLS.clear()
            r, out["err1"] = att(run_algorithm, K.copy(), vial, logger=log, vial_dir=d / "s")
            out["res"] = {"ok": r is not None, "uuid": True, "objective": 0, "prize": 0, "edges": [], "times": True}
            if r is not None:
                out["res"] = {"ok": True, "uuid": r.vial_uuid == vial.uuid, "objective": r.objective, "prize": r.prize,
                              "edges": [B(e) for e in r.edge_list], "times": r.start_time <= r.end_time}
            out["parts"], out["maps"] = parts(K, a, root, B)
            out["stats"] = same_call(K, a, root, lab, out, d) if a["alg"] == "solve_pctsp" and r is not None else ""
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)
