"""Suurballe's algorithm on a digraph, or on the split digraph of an undirected instance."""
import sys

import networkx as nx
from pctsp.suurballe import (edge_disjoint_path_cost, extract_suurballe_edge_disjoint_paths,
                             suurballe_shortest_vertex_disjoint_paths)
from common import graph_of


def _answers(T, order, back, src):
    ans = []
    for node in order:
        if node not in T:
            ans.append({"in": False, "lab": False, "cost": -1, "p1": [], "p2": []})
            continue
        lab = bool(T.labeled[node])
        cost = edge_disjoint_path_cost(T, node)
        p = extract_suurballe_edge_disjoint_paths(T, src, node)
        ans.append({"in": True, "lab": lab, "cost": -1 if cost == sys.maxsize else int(cost),
                    "p1": [back[x] for x in p[0]], "p2": [back[x] for x in p[1]]})
    return ans


def digraph(a):
    G = nx.DiGraph()
    G.add_nodes_from(range(a["n"]))
    for u, v, c in a["edges"]:
        G.add_edge(u, v, cost=c)
    T = suurballe_shortest_vertex_disjoint_paths(G, a["root"], weight="cost")
    order = list(range(a["n"]))
    return {"n": a["n"], "src": a["root"], "arcs": a["edges"], "ans": _answers(T, order, order, a["root"])}


def split(a):
    from tspwplib import asymmetric_from_undirected, split_head, biggest_vertex_id_from_graph
    G, lab, _ = graph_of(a)
    D = asymmetric_from_undirected(G)
    src = split_head(biggest_vertex_id_from_graph(G), lab[a["root"]])
    order = sorted(D)
    back = {x: j for j, x in enumerate(order)}
    T = suurballe_shortest_vertex_disjoint_paths(D, src, weight="cost")
    return {"n": len(order), "src": back[src], "arcs": [[back[u], back[v], d["cost"]] for u, v, d in D.edges(data=True)],
            "ans": _answers(T, order, back, src)}


def maps(a):
    from pctsp.preprocessing import undirected_vertex_disjoint_paths_map, vertex_disjoint_cost_map
    from common import suurballe_tree
    G, lab, back = graph_of(a)
    tree, big = suurballe_tree(G, lab[a["root"]])
    costs = vertex_disjoint_cost_map(tree, big)
    paths = undirected_vertex_disjoint_paths_map(tree, big)
    m = []
    for v in range(a["n"]):
        x = lab[v]
        if (x in costs) != (x in paths):
            return {"err": "MapsDisagree"}
        if x in costs:
            m.append({"has": True, "cost": int(costs[x]), "p1": [back[y] for y in paths[x][0]],
                      "p2": [back[y] for y in paths[x][1]]})
        else:
            m.append({"has": False, "cost": -1, "p1": [], "p2": []})
    if set(costs) - set(lab) or set(paths) - set(lab):
        return {"err": "UnknownVertexInMap"}
    return {"m": m}
