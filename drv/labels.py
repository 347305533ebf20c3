"""The bindings on one instance presented in several ways."""
import logging
import pathlib
import shutil
import sys
import tempfile

import networkx as nx
from pyscipopt import Model
import pctsp.algorithms as alg
from common import graph_of

ec = sys.modules["pctsp.algorithms.extension_collapse"]
pec = sys.modules["pctsp.algorithms.path_extension_collapse"]
Q = logging.CRITICAL


def solve(G, a, lab):
    d = pathlib.Path(tempfile.mkdtemp(prefix="lab", dir="."))
    try:
        m = Model(problemName="pctsp", createscip=True, defaultPlugins=False)
        t = [lab[v] for v in a["tour"]]
        es = alg.solve_pctsp(m, G, list(zip(t, t[1:])) if a["warm"] else [], a["quota"], lab[a["root"]], branching_strategy=a["strat"],
                             cost_cover_shortest_path=a["cc"], logging_level=Q, solver_dir=d / "s", time_limit=60.0)
        return {"found": bool(es), "cost": int(sum(G[u][v]["cost"] for u, v in es))}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def answers(G, a, lab, back):
    root, q, t = lab[a["root"]], a["quota"], [lab[v] for v in a["tour"]]
    B = lambda s: [back.get(x, -1) for x in s]
    tours = {}
    if t:
        tours = {
            "gain": B(ec.extension_unitary_gain(G, list(t), logging_level=Q)),
            "until": B(ec.extension_until_prize_feasible(G, list(t), q)),
            "loss": B(ec.extension_unitary_loss(G, list(t), root, logging_level=Q)),
            "path": B(pec.path_extension(G, list(t), root, path_depth_limit=a["depth"], step_size=a["step"], logging_level=Q)),
            "puntil": B(pec.path_extension_until_prize_feasible(G, list(t), root, q, step_size=a["step"],
                                                                 path_depth_limit=a["depth"], logging_level=Q)),
            "collapse": B(ec.collapse(G, list(t), q, root, logging_level=Q)),
            "pcollapse": B(pec.path_collapse(G, list(t), q, root, logging_level=Q)),
            "pec": B(pec.path_extension_collapse(G, list(t), root, q, collapse_shortest_paths=a["csp"], path_depth_limit=a["depth"],
                                                 step_size=a["step"], logging_level=Q)),
        }
    return {"solve": solve(G, a, lab), "tours": tours}


def present(a):
    G, lab, back = graph_of(a)
    base = answers(G, a, lab, back)
    # another labelling that keeps the order of the labels
    order = sorted(range(a["n"]), key=lambda v: lab[v])
    new, x = {}, 0
    for g, v in zip(a["gap"], order):
        x += g
        new[v] = x
    a2 = {**a, "label": [new[v] for v in range(a["n"])]}
    G2, lab2, back2 = graph_of(a2)
    relabel = answers(G2, a2, lab2, back2)
    # vertices without edges
    iso = [max(lab) + 3 + 2 * j for j in range(a["niso"])]
    if a["isofirst"]:
        free = [x for x in range(max(lab)) if x not in back]
        iso = free[:len(iso)] + iso[len(free[:len(iso)]):]
        H = nx.Graph()
        H.add_nodes_from(iso)
    else:
        H = nx.Graph()
    for u, v, c in a["edges"]:
        H.add_edge(lab[u], lab[v], cost=c)
    H.add_nodes_from(iso)
    for v in range(a["n"]):
        H.nodes[lab[v]]["prize"] = a["prize"][v]
    for v, p in zip(iso, a["isoprize"]):
        H.nodes[v]["prize"] = p
    edgeless = answers(H, a, lab, back)
    # the same edges in another order
    P = {**a, "edges": [a["edges"][j - 1][1::-1] + a["edges"][j - 1][2:] for j in a["perm"]]}
    G3, lab3, _ = graph_of(P)
    reorder = solve(G3, P, lab3)
    # a root that lost its edges
    K = G.copy()
    K.remove_edges_from(list(K.edges(lab[a["root"]])))
    try:
        noroot = not solve(K, {**a, "warm": False}, lab)["found"]
    except Exception:
        noroot = True
    return {"base": base, "relabel": relabel, "edgeless": edgeless, "reorder": reorder, "noroot": noroot}
