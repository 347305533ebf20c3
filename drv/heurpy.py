"""The pure Python heuristics of pctsp.algorithms."""
import networkx as nx
import pctsp.algorithms as alg
from common import graph_of


def _call(f, *a, **k):
    try:
        return {"err": "", "tour": list(f(*a, **k))}
    except Exception as e:
        return {"err": type(e).__name__, "tour": []}


def maps(a):
    lab = a["label"]
    back = {l: v for v, l in enumerate(lab)}
    L = lambda s: [lab[x] for x in s]
    B = lambda s: [back[x] for x in s]
    paths = {lab[e["v"]]: (L(e["p1"]), L(e["p2"])) for e in a["pm"]}
    costs = {lab[e["v"]]: e["c"] for e in a["pm"]}
    prize = {lab[v]: p for v, p in enumerate(a["prize"])}
    out = {"suur": B(alg.suurballes_heuristic(prize, a["quota"], costs, paths)),
           "init": B(alg.suurballes_tour_initialization(prize, a["quota"], costs, paths)), "rnd": []}
    for s in range(5):
        x = _call(alg.random_tour_from_disjoint_paths_map, dict(paths), lab[a["root"]], seed=a["seed"] + s)
        y = _call(alg.random_tour_from_disjoint_paths_map, dict(paths), lab[a["root"]], seed=a["seed"] + s)
        out["rnd"].append({"err": x["err"], "tour": B(x["tour"]), "err2": y["err"], "tour2": B(y["tour"])})
    q1, q2 = list(a["q1"]), list(a["q2"])
    if a["link"] and len(q1) > 1 and len(q2) > 1:
        q2[0], q2[-1] = q1[0], q1[-1]
    p = _call(alg.tour_from_vertex_disjoint_paths, (q1, q2))
    q1b, q2b = list(a["q1"]), list(a["q2"])
    if a["link"] and len(q1b) > 1 and len(q2b) > 1:
        q2b[0], q2b[-1] = q1b[0], q1b[-1]
    p["same"] = (q1, q2) == (q1b, q2b)
    out.update(pair=p, q1=q1b, q2=q2b)
    return out


def tours(a):
    """BFS cycle on the instance, random tour on the complete graph over its vertices."""
    G, lab, back = graph_of(a)
    for v in a["loops"]:
        G.add_edge(lab[v], lab[v], cost=0)
    root = lab[a["root"]]
    bfs = [back[x] for x in alg.find_cycle_from_bfs(G, root)]
    K = nx.complete_graph(a["n"])
    K = nx.relabel_nodes(K, dict(enumerate(lab)))
    nx.set_node_attributes(K, {lab[v]: p for v, p in enumerate(a["prize"])}, "prize")
    nx.set_edge_attributes(K, 1, "cost")
    rnd = []
    for s in range(4):
        t = alg.random_tour_complete_graph(K, root, a["quota"], seed=a["seed"] + s)
        t2 = alg.random_tour_complete_graph(K, root, a["quota"], seed=a["seed"] + s)
        rnd.append({"t": [back[x] for x in t], "same": list(t) == list(t2)})
    return {"bfs": bfs, "rnd": rnd}
