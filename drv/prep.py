"""Graph preprocessing of pctsp.preprocessing on one instance."""
from common import graph_of
from pctsp.preprocessing import (degree_without_self_loops, remove_components_disconnected_from_vertex,
                                 remove_leaves, remove_one_connected_components)


def _sub(G, H):
    """H is the subgraph of G induced by its vertices, with the attributes of G"""
    S = G.subgraph(list(H.nodes()))
    return (set(H.nodes()) <= set(G.nodes()) and dict(S.nodes(data=True)) == dict(H.nodes(data=True))
            and {frozenset(e[:2]): e[2] for e in S.edges(data=True)} == {frozenset(e[:2]): e[2] for e in H.edges(data=True)})


def reduce(a):
    G, lab, back = graph_of(a)
    for v in a["loops"]:
        G.add_edge(lab[v], lab[v], cost=0)
    before = (dict(G.nodes(data=True)), [(u, v, dict(d)) for u, v, d in G.edges(data=True)])
    root = lab[a["root"]]
    deg = [degree_without_self_loops(G, lab[v]) for v in range(a["n"])]
    L = remove_leaves(G)
    C = remove_components_disconnected_from_vertex(G, root)
    same = before == (dict(G.nodes(data=True)), [(u, v, dict(d)) for u, v, d in G.edges(data=True)])
    G2, _, _ = graph_of(a)
    for v in a["loops"]:
        G2.add_edge(lab[v], lab[v], cost=0)
    T = remove_one_connected_components(G2, root)
    b = lambda H: sorted(back[x] for x in H.nodes())
    return {"deg": deg, "leaves": b(L), "comp": b(C), "two": b(T), "subleaves": _sub(G, L), "subcomp": _sub(G, C),
            "subtwo": _sub(G, T), "same": same}
