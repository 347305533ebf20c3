"""A laboratory in a scratch directory and a history of operations on it."""
import io
import json
import logging
import pathlib
import shutil
import tempfile
import uuid
from datetime import datetime
from contextlib import redirect_stderr

import networkx as nx
from tspwplib import (BaseTSP, EdgeWeightType, ProfitsProblem, mst_cost, semi_mst_cost, sparsify_uid, uniform_random_cost,
                      build_path_to_londonaq_yaml, build_path_to_oplib_instance, Generation, GraphName)
from tspwplib.types import LondonaqGraphName
from pctsp.lab import Lab, RESULT_FILENAME, get_nbatches
from pctsp.vial import (AlgorithmName, DataConfig, DatasetName, Experiment, ExperimentName, ModelParams, Preprocessing, Result, Vial)

LQ, GN, GEN = LondonaqGraphName.laqtinyA, GraphName.att48, Generation.gen1
NAMES = {1: ExperimentName.dryrun, 2: ExperimentName.baseline}


def write_data(a, d):
    """The instance as a londonaq file; its points and prizes as an OPLib file."""
    lq, op = d / "londonaq", d / "oplib"
    p = build_path_to_londonaq_yaml(lq, LQ)
    p.parent.mkdir(parents=True)
    G = nx.Graph()
    for u, v, c in a["edges"]:
        G.add_edge(u, v, weight=c, is_fixed=False)
    for v in range(a["n"]):
        G.add_node(v, demand=a["prize"][v], is_depot=v == a["root"])
    BaseTSP.from_networkx("laqtinyA", "", "PCTSP", G).to_yaml(p)
    with open(p, "a") as f:  # to_yaml leaves these out, from_yaml of this tspwplib insists on them
        f.write("capacity: null\ndisplay_data: null\n")
    q = build_path_to_oplib_instance(op, GEN, GN)
    q.parent.mkdir(parents=True)
    n = a["n"]
    q.write_text("\n".join(
        ["NAME : att48", "COMMENT : x", "TYPE : OP", f"DIMENSION : {n}", "COST_LIMIT : 9999", "EDGE_WEIGHT_TYPE : EUC_2D", "NODE_COORD_SECTION"]
        + [f"{v + 1} {x} {y}" for v, (x, y) in enumerate(a["xy"])] + ["NODE_SCORE_SECTION"]
        + [f"{v + 1} {s}" for v, s in enumerate(a["prize"])] + ["DEPOT_SECTION", "1", "-1", "EOF"]) + "\n")
    return lq, op


def prepared(a, v, lq, op):
    """The graph that the vial describes, built here with tspwplib: (vertex offset, edges)."""
    if v["data"] == "tspwplib":
        off, tsp = 1, BaseTSP.from_tsplib95(ProfitsProblem().load(build_path_to_oplib_instance(op, GEN, GN)))
    else:
        off, tsp = 0, BaseTSP.from_yaml(build_path_to_londonaq_yaml(lq, LQ))
    G = tsp.get_graph()
    nx.set_edge_attributes(G, {e: c for e, c in nx.get_edge_attributes(G, "weight").items()}, "cost")
    if v["kappa"]:
        G = sparsify_uid(G, v["kappa"])
    new = {"UNIFORM_RANDOM": lambda: uniform_random_cost(list(G.edges())), "MST": lambda: mst_cost(G, cost_attr="cost"),
           "SEMI_MST": lambda: semi_mst_cost(G, cost_attr="cost")}.get(v["cf"])
    if new:
        nx.set_edge_attributes(G, new(), "cost")
    return off, [[x - off, y - off, int(c)] for x, y, c in G.edges(data="cost") if x != y]


def vial_of(a, v, k):
    off = 1 if v["data"] == "tspwplib" else 0
    kind = v["kind"]
    return Vial(
        uuid=uuid.UUID(int=0x5A0000 + k),
        data_config=DataConfig(
            dataset=DatasetName(v["data"]), cost_function=EdgeWeightType(v["cf"]),
            graph_name=(GraphName.berlin52 if off else LondonaqGraphName.laqbbA) if kind == "nofile" else (GN if off else LQ),
            quota=v["quota"], root=a["n"] + 7 if kind == "noroot" else v["root"] + off, generation=GEN if off else None,
            kappa=v["kappa"] or None),
        model_params=ModelParams(
            algorithm=AlgorithmName.disjoint_tours_relaxation if kind == "relax" else AlgorithmName.suurballes_heuristic,
            is_exact=False, is_heuristic=kind != "relax", is_relaxation=kind == "relax"),
        preprocessing=Preprocessing(
            disjoint_path_cutoff=kind == "cutoff" and v["cut"] == 2, shortest_path_cutoff=kind == "cutoff" and v["cut"] == 1,
            remove_leaves=v["pre"][0], remove_disconnected_components=v["pre"][1], remove_one_connected_components=v["pre"][2]))


class Tripwire(logging.Handler):
    """Interrupts the process (as Ctrl-C would) at the n-th log record."""
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.left = 0

    def handle(self, record):
        if self.left:
            self.left -= 1
            if not self.left:
                raise KeyboardInterrupt


def play(a):
    top = pathlib.Path(tempfile.mkdtemp(prefix="lab", dir=".")).resolve()
    try:
        return play_in(a, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def play_in(a, top):
    lq, op = write_data(a, top)
    log, wire = logging.Logger("lab", logging.DEBUG), Tripwire()
    log.addHandler(wire)
    ldir = top / "runs"
    lab = Lab(ldir, logger=log, londonaq_root=lq, oplib_root=op)
    vials = [vial_of(a, v, k + 1) for k, v in enumerate(a["vials"])]
    num = {v.uuid: k + 1 for k, v in enumerate(vials)}
    exps = {e: Experiment(name=NAMES[e], vials=vials, timestamp=datetime(2020, 1, e, 3, 4, 5, 678)) for e in NAMES}
    written = {}
    offs = [1 if v["data"] == "tspwplib" else 0 for v in a["vials"]]

    def res(r):
        k = num.get(r.vial_uuid, -1)
        off = offs[k - 1] if k > 0 else 0
        return {"uuid": k, "objective": r.objective, "prize": r.prize, "edges": [[x - off, y - off] for x, y in r.edge_list],
                "times": r.start_time <= r.end_time}

    def file_of(e, k):
        return list((ldir / NAMES[e].value).rglob(f"{vials[k - 1].uuid}.json")) if (ldir / NAMES[e].value).exists() else []

    def state(e):
        read = {num[r.vial_uuid] for r in lab.read_results_from_file(exps[e])}
        return ["ok" if k in read else "torn" if file_of(e, k) else "none" for k in num.values()]

    def do(o):
        e, x = o["e"], exps[o["e"]]
        if o["op"] == "run":
            return {"ret": [res(r) for r in lab.run_experiment(x)]}
        if o["op"] == "crash":
            wire.left = o["at"]
            return {"ret": [res(r) for r in lab.run_experiment(x)]}
        if o["op"] == "batch":
            return {"ret": [res(r) for r in lab.run_batch(x, o["start"], o["size"], only_missing_results=o["only"])]}
        if o["op"] == "list":
            return {"ret": [res(r) for r in lab.run_experiment_from_vial_list(x, [vials[k - 1] for k in o["list"]])]}
        if o["op"] == "sweep":
            nb, out = get_nbatches(len(vials), o["size"]), []
            for b in range(nb):
                out += lab.run_batch(x, b * o["size"], o["size"])
            return {"n": nb, "ret": [res(r) for r in out]}
        if o["op"] in ("tear", "delete"):
            for f in file_of(e, o["v"]):
                if o["op"] == "delete":
                    f.unlink()
                else:
                    s = f.read_text()
                    f.write_text(s[:len(s) * o["cut"] // 20])
            return {}
        if o["op"] == "missing":
            return {"ret": [num[v.uuid] for v in lab.missing_vials(x, x.vials)]}
        if o["op"] == "infeasible":
            return {"ret": [num[v.uuid] for v in lab.infeasible_vials(x, x.vials)]}
        if o["op"] == "results":
            return {"ret": [res(r) for r in lab.read_results_from_file(x)]}
        if o["op"] == "wexp":
            y = Experiment(name=x.name, vials=[vials[k - 1] for k in o["list"]], timestamp=x.timestamp)
            lab.write_experiment_to_file(y, only_missing_results=o["m"])
            written[e, o["m"]] = y
            return {}
        if o["op"] == "rexp":
            y = lab.read_experiment_from_file(x.name, only_missing_results=o["m"])
            return {"ret": [num[v.uuid] for v in y.vials], "same": y == written.get((e, o["m"]))}
        if o["op"] == "wres":
            lab.write_results_to_file(x.name, lab.read_results_from_file(x))
            return {"ret": [res(Result(**r)) for r in json.loads((ldir / x.name.value / RESULT_FILENAME).read_text())]}
        raise KeyError(o["op"])

    obs = []
    for o in a["ops"]:
        try:
            with redirect_stderr(io.StringIO()):
                b = do(o)
        except BaseException as exc:
            b = {"err": type(exc).__name__, "detail": str(exc)[:200]}
        wire.left = 0
        b["st"] = [state(1), state(2)]
        b["disk"] = [res(r) for e in (1, 2) for r in lab.read_results_from_file(exps[e])]
        obs.append(b)
    out = []
    for v in a["vials"]:
        stop = "FileNotFoundError" if v["kind"] == "nofile" else ""
        try:
            _, es = prepared(a, v, lq, op)
        except Exception as exc:  # tspwplib cannot make this graph: the lab cannot either
            es, stop = [], stop or type(exc).__name__
        w = [[-1] * a["n"] for _ in range(a["n"])]
        for x, y, c in es:
            w[x][y] = w[y][x] = c
        out.append({**v, "aw": w, "prize": a["prize"], "stop": stop})
    return {"obs": obs, "vials": out}
