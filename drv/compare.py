"""Lists of settings and experiments, on data files made from the generated prizes."""
import pathlib
import shutil
import tempfile
from enum import Enum

import networkx as nx
from tspwplib import BaseTSP, EdgeWeightType, Generation, GraphName, build_path_to_londonaq_yaml, build_path_to_oplib_instance
from tspwplib.types import LondonaqGraphName
import pctsp.compare as cmp
from pctsp.compare import params, product_of_params as prod
from pctsp.compare.exact_experiment import baseline
from pctsp.vial import AlgorithmName, DataConfig, DatasetName, ModelParams, Preprocessing

SLOT = {n.value: k % 4 + 1 for k, n in enumerate(sorted(GraphName, key=lambda n: n.value))}
LAQ = ["laqbbA", "laqidA", "laqkxA", "laqwsA", "laqtinyA"]
NO = -999
WORDS = {"generation", "heuristic"}


def shown(x):
    """A settings object as the record of the specification."""
    out = {}
    for k, v in x:
        if v is None:
            v = "" if k in WORDS else NO
        elif isinstance(v, Enum):
            v = v.value
        elif isinstance(v, bool):
            v = int(v)
        elif isinstance(v, float):
            v = v * 1000 if k == "sec_lp_gap_improvement_threshold" else v
            v = int(v) if v == int(v) else str(v)
        out[k] = v
    return out


def write_files(a, top):
    op, lq = top / "op", top / "lq"
    n = a["n"]
    need = {"exp": list(GraphName)}.get(a["op"], [GraphName(x) for x in set(a["names"])])
    head = ["NAME : x", "COMMENT : x", "TYPE : OP", f"DIMENSION : {n}", "COST_LIMIT : 99", "EDGE_WEIGHT_TYPE : EUC_2D", "NODE_COORD_SECTION"]
    head += [f"{v + 1} {v} {v * v % 7}" for v in range(n)] + ["NODE_SCORE_SECTION"]
    if a["op"] in ("tsp",) or (a["op"] == "exp" and a["dataset"] == "tspwplib"):
        for gi, gen in enumerate(Generation):
            for name in need:
                f = a["tsp"][gi][SLOT[name.value] - 1]
                p = build_path_to_oplib_instance(op, gen, name)
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_text("\n".join(head + [f"{v + 1} {s}" for v, s in enumerate(f["prize"])]
                                       + ["DEPOT_SECTION", str(f["depot"] + 1), "-1", "EOF"]) + "\n")
    for k, name in enumerate(LAQ):
        if a["op"] not in ("laq", "laqalpha", "exp"):
            break
        f = a["laq"][k]
        G = nx.Graph()
        for v in range(n):
            G.add_node(v, demand=f["prize"][v], is_depot=v == f["depot"])
        for u, v, c in a["edges"]:
            G.add_edge(u, v, weight=c, is_fixed=False)
        p = build_path_to_londonaq_yaml(lq, LondonaqGraphName(name))
        p.parent.mkdir(parents=True)
        BaseTSP.from_networkx(name, "", "PCTSP", G).to_yaml(p)
        with open(p, "a") as g:
            g.write("capacity: null\ndisplay_data: null\n")
    return op, lq


def opt(x):
    return None if x == NO else x


def table(xs):
    """The distinct settings in order of first appearance, and the number of each."""
    rows, num, seen = [], [], {}
    for x in xs:
        key = x.model_dump_json()
        if key not in seen:
            seen[key] = len(rows) + 1
            rows.append(x)
        num.append(seen[key])
    return rows, num


def run(a):
    top = pathlib.Path(tempfile.mkdtemp(prefix="cmp", dir=".")).resolve()
    try:
        return run_in(a, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def run_in(a, top):
    op, lq = write_files(a, top)
    kind = a["op"]
    names = [GraphName(x) for x in a["names"]]
    lnames = [LondonaqGraphName(x) for x in a["lnames"]]
    algs = [AlgorithmName(x) for x in a["algs"]]
    if kind == "tsp":
        got = prod.product_of_tspwplib_data_config(op, a["alphas"], [opt(k) for k in a["kappas"]], [Generation(g) for g in a["gens"]],
                                                   names, [EdgeWeightType(c) for c in a["cfs"]])
    elif kind == "laq":
        got = prod.product_of_londonaq_data_config(lq, a["quotas"], lnames)
    elif kind == "laqalpha":
        got = prod.product_of_londonaq_data_config_from_alpha(lq, a["alphas"], lnames)
    elif kind == "model":
        kw = {} if a["limit"] == NO else {"time_limit": a["limit"]}
        got = prod.product_of_model_params(algs, collapse_paths=None if a["csp"] == NO else bool(a["csp"]), path_depth_limit=opt(a["depth"]),
                                           step_size=opt(a["step"]), **kw)
    elif kind == "prep":
        got = prod.product_of_preprocessing(*[[bool(x) for x in l] for l in a["pres"]])
    elif kind == "vials":
        data = [DataConfig(dataset="londonaq", cost_function="EXPLICIT", graph_name="laqbbA", quota=q, root=k) for k, q in enumerate(a["quotas"])]
        mods = [ModelParams(algorithm=x, is_exact=False, is_heuristic=False, is_relaxation=False, step_size=k) for k, x in enumerate(algs)]
        pres = [Preprocessing(disjoint_path_cutoff=bool(k & 1), remove_leaves=bool(k & 2), remove_disconnected_components=bool(k & 4),
                              remove_one_connected_components=bool(x), shortest_path_cutoff=False) for k, x in enumerate(a["pres"][0])]
        vs = prod.product_of_vials(data, mods, pres)
        return {"vials": [[data.index(v.data_config) + 1, mods.index(v.model_params) + 1, pres.index(v.preprocessing) + 1] for v in vs],
                "uuids": len({v.uuid for v in vs}), "items": [0] * len(vs)}
    else:
        f = baseline if a["exp"] == "baseline" else getattr(cmp, a["exp"])
        vs = f(DatasetName(a["dataset"]), op if a["dataset"] == "tspwplib" else lq)
        data, d = table([v.data_config for v in vs])
        mods, m = table([v.model_params for v in vs])
        pres, p = table([v.preprocessing for v in vs])
        return {"items": [shown(x) for x in data], "models": [shown(x) for x in mods], "preps": [shown(x) for x in pres],
                "vials": [list(t) for t in zip(d, m, p)], "uuids": len({v.uuid for v in vs})}
    return {"items": [shown(x) for x in got]}


def observe(a):
    lists = {"alphas": params.TSPLIB_ALPHA_LIST, "kappas": [NO if k is None else k for k in params.TSPLIB_KAPPA_LIST],
             "names": [g.value for g in params.TSPLIB_GRAPH_NAME_LIST], "cfs": [c.value for c in params.TSPLIB_COST_FUNCTIONS],
             "quotas": params.LONDONAQ_QUOTA_LIST, "lnames": [g.value for g in params.LONDONAQ_GRAPH_NAME_LIST]}
    base = {"lists": lists, "slot": SLOT}
    try:
        return {**base, **run(a)}
    except Exception as exc:
        return {**base, "err": type(exc).__name__, "detail": str(exc)[:300]}
