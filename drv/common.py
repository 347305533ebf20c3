"""Shared by the Python replay drivers: the labelled networkx graph of a generated instance."""
import networkx as nx


def graph_of(a):
    lab = a["label"]
    back = {l: v for v, l in enumerate(lab)}
    G = nx.Graph()
    # insertion order of the vertices follows the edges, as when a graph is read from an edge list
    for u, v, c in a["edges"]:
        G.add_edge(lab[u], lab[v], cost=c)
    for v in range(a["n"]):
        if lab[v] in G:
            G.nodes[lab[v]]["prize"] = a["prize"][v]
    return G, lab, back


def relabel_back(seq, back):
    return [back[v] for v in seq]


def suurballe_tree(G, root):
    from pctsp.suurballe import suurballe_shortest_vertex_disjoint_paths
    from tspwplib import asymmetric_from_undirected, biggest_vertex_id_from_graph, split_head
    big = biggest_vertex_id_from_graph(G)
    return suurballe_shortest_vertex_disjoint_paths(
        asymmetric_from_undirected(G), split_head(big, root), weight="cost"), big


def disjoint_costs(G, root):
    from pctsp.preprocessing import vertex_disjoint_cost_map
    return vertex_disjoint_cost_map(*suurballe_tree(G, root))
