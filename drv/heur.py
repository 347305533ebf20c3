"""The compiled tour heuristics through their Python wrappers."""
import logging
import sys

import pctsp.algorithms  # noqa: F401

# the package binds functions of the same names as its modules
ec = sys.modules["pctsp.algorithms.extension_collapse"]
pec = sys.modules["pctsp.algorithms.path_extension_collapse"]
from common import graph_of

Q = logging.CRITICAL


def extend(a):
    """One extension heuristic (`op`) on the start tour."""
    G, lab, back = graph_of(a)
    t = [lab[v] for v in a["tour"]]
    root, q, op = lab[a["root"]], a["quota"], a["op"]
    if op == "gain":
        r = ec.extension_unitary_gain(G, t, logging_level=Q)
    elif op == "until":
        r = ec.extension_until_prize_feasible(G, t, q)
    elif op == "loss":
        r = ec.extension_unitary_loss(G, t, root, logging_level=Q)
    elif op == "path":
        r = pec.path_extension(G, t, root, path_depth_limit=a["depth"], step_size=a["step"], logging_level=Q)
    else:
        r = pec.path_extension_until_prize_feasible(G, t, root, q, step_size=a["step"], path_depth_limit=a["depth"],
                                                    logging_level=Q)
    return {"res": [back[x] for x in r]}


def collapse(a):
    """Collapse, path collapse and unitary gain with collapse, each with the tour it works on."""
    G, lab, back = graph_of(a)
    t = [lab[v] for v in a["tour"]]
    root, q, op = lab[a["root"]], a["quota"], a["op"]
    if op == "collapse":
        r = ec.collapse(G, t, q, root, logging_level=Q)
    elif op == "pcollapse":
        r = pec.path_collapse(G, t, q, root, logging_level=Q)
    else:
        r = ec.extension_unitary_gain_collapse(G, list(t), q, root, logging_level=Q)
        t = ec.extension_unitary_gain(G, list(t), logging_level=Q)
    return {"res": [back[x] for x in r], "tour": [back[x] for x in t], "csp": op == "pcollapse"}


def extcollapse(a):
    """Path extension & collapse, and the calls of its components it stands for."""
    G, lab, back = graph_of(a)
    B = lambda s: [back[x] for x in s]
    t0 = [lab[v] for v in a["tour"]]
    root, q, csp, depth, steps = lab[a["root"]], a["quota"], a["csp"], a["depth"], a["step"]
    r = pec.path_extension_collapse(G, list(t0), root, q, collapse_shortest_paths=csp, path_depth_limit=depth,
                                    step_size=steps, logging_level=Q)
    calls = []

    def call(f, s, x):
        if f == "puntil":
            y = pec.path_extension_until_prize_feasible(G, list(x), root, q, step_size=s, path_depth_limit=depth, logging_level=Q)
        elif f == "path":
            y = pec.path_extension(G, list(x), root, path_depth_limit=depth, step_size=s, logging_level=Q)
        else:
            y = (pec.path_collapse if csp else ec.collapse)(G, list(x), q, root, logging_level=Q)
        calls.append({"f": f, "s": s, "x": B(x), "y": B(y)})
        return list(y)

    cost = lambda x: sum(G[u][v]["cost"] for u, v in zip(x, x[1:]))
    prize = lambda x: sum(G.nodes[v]["prize"] for v in set(x))
    x = t0
    for s in range(1, steps + 1):
        if prize(x) >= q:
            break
        x = call("puntil", s, x)
    if prize(x) >= q:
        x = best = call("collapse", 0, x)
        for s in range(1, steps + 1):
            y = call("collapse", 0, call("path", s, best))
            if cost(y) < cost(best):
                best = y
    return {"res": B(r), "calls": calls}
