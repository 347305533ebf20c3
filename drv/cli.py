"""Histories of commands of the application on a scratch laboratory."""
import json
import logging
import pathlib
import re
import shutil
import subprocess
import tempfile
import uuid
from datetime import datetime

import networkx as nx
from typer.testing import CliRunner
from tspwplib import BaseTSP, Generation, GraphName, build_path_to_londonaq_yaml, build_path_to_oplib_instance
from tspwplib.types import LondonaqGraphName
from pctsp.apps.main_app import app
from pctsp.lab import Lab
from pctsp.vial import (AlgorithmName, DataConfig, DatasetName, Experiment, ExperimentName, ModelParams, Preprocessing, Vial,
                        EXACT_ALGORITHMS, HEURISTIC_ALGORITHMS)
from compare import shown

DS = {1: "londonaq", 2: "tspwplib"}
EX = {1: "dryrun", 2: "cost_cover", 3: "onerun", 4: "simple_branch_cut", 5: "londonaq_alpha"}
OFF = {"on": False, "l": []}


def write_data(a, top):
    lq, op, n = top / "lq", top / "op", a["n"]
    p = build_path_to_londonaq_yaml(lq, LondonaqGraphName.laqtinyA)
    p.parent.mkdir(parents=True)
    G = nx.Graph()
    for u, v, c in a["edges"]:
        G.add_edge(u, v, weight=c, is_fixed=False)
    for v in range(n):
        G.add_node(v, demand=a["prize"][v], is_depot=v == a["root"])
    BaseTSP.from_networkx("laqtinyA", "", "PCTSP", G).to_yaml(p)
    with open(p, "a") as f:
        f.write("capacity: null\ndisplay_data: null\n")
    for gen in (Generation.gen1, Generation.gen2):
        for name in (GraphName.st70, GraphName.eil76):
            q = build_path_to_oplib_instance(op, gen, name)
            q.parent.mkdir(parents=True, exist_ok=True)
            q.write_text("\n".join(
                ["NAME : st70", "COMMENT : x", "TYPE : OP", f"DIMENSION : {n}", "COST_LIMIT : 9999", "EDGE_WEIGHT_TYPE : EUC_2D", "NODE_COORD_SECTION"]
                + [f"{v + 1} {x} {y}" for v, (x, y) in enumerate(a["xy"])] + ["NODE_SCORE_SECTION"]
                + [f"{v + 1} {s}" for v, s in enumerate(a["prize"])] + ["DEPOT_SECTION", str(a["root"] + 1), "-1", "EOF"]) + "\n")
    return lq, op


def seed_vial(v, k, d):
    alg = AlgorithmName(v["alg"])
    kw = {}
    if alg in EXACT_ALGORITHMS:
        kw = dict(branching_max_depth=-1, branching_strategy=0, cost_cover_disjoint_paths=False, cost_cover_shortest_path=False, sec_disjoint_tour=True,
                  sec_lp_gap_improvement_threshold=0.001, sec_maxflow_mincut=True, sec_max_tailing_off_iterations=-1, sec_sepafreq=1, time_limit=60)
    return Vial(uuid=uuid.UUID(int=0xC11000 + k),
                data_config=DataConfig(dataset=DS[d], cost_function="EXPLICIT" if d == 1 else "EUC_2D", graph_name="laqtinyA" if d == 1 else "st70",
                                       quota=v["quota"], root=v["root"] + d - 1, generation="gen1" if d == 2 else None),
                model_params=ModelParams(algorithm=alg, is_exact=alg in EXACT_ALGORITHMS, is_heuristic=alg in HEURISTIC_ALGORITHMS, is_relaxation=False,
                                         collapse_paths=False, path_depth_limit=2, step_size=1, **kw),
                preprocessing=Preprocessing(disjoint_path_cutoff=False, remove_leaves=False, remove_disconnected_components=False,
                                            remove_one_connected_components=False, shortest_path_cutoff=False))


def play(a):
    top = pathlib.Path(tempfile.mkdtemp(prefix="cli", dir=".")).resolve()
    try:
        return Player(a, top).play()
    finally:
        shutil.rmtree(top, ignore_errors=True)


class Player:
    def __init__(self, a, top):
        self.a, self.top = a, top
        self.lq, self.op = write_data(a, top)
        self.labs = top / "labs"
        self.labs.mkdir()
        self.seen = {}
        self.num = {uuid.UUID(int=0xC11000 + k + 1): k + 1 for k in range(len(a["vials"]))}

    def dir(self, d, e):
        return self.labs / DS[d] / EX[e]

    def number(self, u):
        return self.num.setdefault(uuid.UUID(str(u)), len(self.num) + 1)

    def uuid_of(self, k):
        return {v: u for u, v in self.num.items()}.get(k, uuid.UUID(int=5))

    def list_in(self, path, get):
        return {"on": True, "l": [self.number(x) for x in get(json.loads(path.read_text()))]} if path.exists() else OFF

    def script(self, d, e):
        p = self.dir(d, e) / f"{EX[e]}.slurm"
        if not p.exists():
            return {"on": False, "b": [], "hours": 0}
        text = p.read_text()
        lo, hi = map(int, re.search(r"--array=(\d+)-(-?\d+)", text).groups())
        calls = []
        for t in range(lo, hi + 1):  # what the job of this task would run
            run = subprocess.run(["bash", "-c", 'srun() { shift 2; "$@"; }\npctsp() { printf "%s\\n" "$@"; }\n' + text],
                                 env={"SLURM_ARRAY_TASK_ID": str(t), "PATH": "/usr/bin:/bin"}, capture_output=True, text=True, timeout=20)
            w = run.stdout.split("\n")[:-1]
            rest = dict(zip(w[5::2], w[6::2] + [""]))
            calls.append({"d": w[1], "e": w[2], "start": int(w[3]), "size": int(w[4]), "only": "--only-missing-results" in w,
                          "same": w[0] == "batch" and rest.get("--lab-dir") == str(self.labs) and rest.get("--londonaq-root") == str(self.lq)
                          and rest.get("--oplib-root") == str(self.op) and run.returncode == 0})
        return {"on": True, "b": calls, "hours": int(re.search(r"--time=(\d+):00:00", text).group(1))}

    def slot(self, d, e):
        D = self.dir(d, e)
        out = {"ex": self.list_in(D / "experiment.json", lambda x: [v["uuid"] for v in x["vials"]]),
               "mi": self.list_in(D / "missing_experiment.json", lambda x: [v["uuid"] for v in x["vials"]]),
               "rj": self.list_in(D / "results.json", lambda x: [r["vial_uuid"] for r in x]), "ok": [], "torn": [], "low": [], "sc": self.script(d, e)}
        quota = {}
        for f in ("experiment.json",):
            if (D / f).exists():
                for v in json.loads((D / f).read_text())["vials"]:
                    self.seen.setdefault((d, self.number(v["uuid"])), v)
        for f in ("experiment.json", "missing_experiment.json"):
            if (D / f).exists():
                quota.update({v["uuid"]: v["data_config"]["quota"] for v in json.loads((D / f).read_text())["vials"]})
        for f in sorted(D.rglob("*.json")) if D.exists() else []:
            if f.parent != D:
                try:
                    r = json.loads(f.read_text())
                    out["ok"].append(self.number(r["vial_uuid"]) if r["vial_uuid"] == f.stem == f.parent.name else -1)
                    if r["prize"] < quota.get(r["vial_uuid"], 0):
                        out["low"].append(out["ok"][-1])
                except ValueError:
                    out["torn"].append(self.number(f.stem))
        return out

    def cli(self, *args, roots=True, only_root=None):
        argv = [str(x) for x in args] + ["--lab-dir", str(self.labs)]
        if roots:
            argv += ["--londonaq-root", str(self.lq), "--oplib-root", str(self.op)]
        if only_root:
            argv += only_root
        for n in list(logging.Logger.manager.loggerDict):  # a new process for every command
            if n.startswith(("tspwp", "pctsp-lab")):
                logging.getLogger(n).handlers.clear()
        r = CliRunner().invoke(app, argv)
        if r.exit_code == 2:
            raise RuntimeError("usage: " + r.output[-300:])
        return (type(r.exception).__name__ if r.exception else ""), r.stdout

    def do(self, o):
        d, op = o["d"], o["op"]
        if op in ("zip", "unzip"):
            if op == "zip" and not all(self.dir(d, e).exists() for e in o["es"]):
                return {"err": "skipped"}
            err, _ = self.cli("utils", op, DS[d], *[EX[e] for e in o["es"]], roots=False)
            return {"err": err}
        e = o["e"]
        D, who = self.dir(d, e), (DS[d], EX[e])
        if op == "seed":
            (self.labs / DS[d]).mkdir(exist_ok=True)
            vs = [seed_vial(v, k + 1, d) for k, v in enumerate(self.a["vials"])]
            Lab(self.labs / DS[d]).write_experiment_to_file(
                Experiment(name=ExperimentName(EX[e]), vials=[vs[k - 1] for k in o["l"]], timestamp=datetime(2020, 1, 2)))
            return {"err": ""}
        if op == "wipe":
            shutil.rmtree(D, ignore_errors=True)
            return {"err": ""}
        if op in ("tear", "delete"):
            f = D / str(self.uuid_of(o["v"])) / f"{self.uuid_of(o['v'])}.json"
            if f.exists():
                if op == "tear":
                    f.write_text(f.read_text()[:-9])
                else:
                    f.unlink()
            return {"err": ""}
        if op in ("setup", "lab"):
            return {"err": self.cli(op, *who)[0]}
        if op == "batch":
            return {"err": self.cli("batch", *who, o["start"], o["size"], *(["--only-missing-results"] if o["only"] else []))[0]}
        if op == "nbatches":
            err, out = self.cli("nbatches", DS[d], EX[e], "--", o["size"]) if False else self.cli_neg("nbatches", *who, o["size"])
            return {"err": err, "out": [int(x) for x in out.split()] if not err else []}
        if op == "slurm":
            return {"err": self.cli("slurm", *who, o["size"], "--time-limit", o["limit"], *(["--only-missing-results"] if o["only"] else []),
                                    *(["--overwrite"] if o["over"] else []))[0]}
        if op in ("missing", "infeasible"):
            err, out = self.cli(op, *who, roots=False)
            return {"err": err, "out": [self.number(x.split()[0]) for x in out.strip().split("\n") if x]}
        if op == "nmissing":
            err, out = self.cli(op, *who, roots=False)
            return {"err": err, "out": [int(x) for x in re.findall(r"\d+", out)]}
        if op == "vial":
            return {"err": self.cli("vial", *who, self.uuid_of(o["v"]))[0]}
        if op == "one":
            return self.one(o)
        raise KeyError(op)

    def cli_neg(self, cmd, *args):
        """A negative argument needs to stand behind --."""
        argv = [cmd, "--lab-dir", str(self.labs), "--londonaq-root", str(self.lq), "--oplib-root", str(self.op), "--", *map(str, args)]
        r = CliRunner().invoke(app, argv)
        return (type(r.exception).__name__ if r.exception else ""), r.stdout

    def one(self, o):
        yes = lambda name, x: f"--{name}" if x else f"--no-{name}"
        if o["d"] == 1:
            args = ["londonaq", o["alg"]]
            if not o["def"]:
                args += ["--quota", o["quota"], yes("cost-cover-disjoint-paths", o["dp"]), yes("cost-cover-shortest-path", o["sp"]), yes("remove-leaves", o["leaves"]),
                         "--time-limit", o["limit"], "--graph-name", "laqtinyA"]
            root = ["--londonaq-root", str(self.lq)]
        else:
            args = ["tsplib", o["alg"]]
            if not o["def"]:
                args += ["--alpha", o["alpha"], "--branching-max-depth", o["bmax"], yes("collapse-paths", o["csp"]), yes("cost-cover-disjoint-paths", o["dp"]),
                         yes("cost-cover-shortest-path", o["sp"]), "--cost-function", o["cf"], "--generation", "gen2", "--graph-name", "st70",
                         "--path-depth-limit", o["depth"], yes("remove-leaves", o["leaves"]), "--sec-lp-gap-improvement-threshold", o["gap"] / 1000,
                         "--sec-max-tailing-off-iterations", o["tail"], "--step-size", o["step"], "--time-limit", o["limit"]]
                args += ["--heuristic", o["heur"]] if o["heur"] else []
                args += ["--kappa", o["kappa"]] if o["kappa"] != -999 else []
            root = ["--oplib-root", str(self.op)]
        err, _ = self.cli(*args, roots=False, only_root=root)
        p = self.dir(o["d"], 3) / "experiment.json"
        cfg = [shown([y for x in (v.data_config, v.model_params, v.preprocessing) for y in x]) for v in
               Experiment(**json.loads(p.read_text())).vials] if p.exists() else []
        return {"err": err, "cfg": cfg}

    def play(self):
        obs = []
        for o in self.a["ops"]:
            b = {"out": [], "cfg": [], **self.do(o)}
            b["disk"] = [self.slot(d, e) for d in DS for e in (1, 2, 3)]
            obs.append(b)
        return {"obs": obs, "truth": self.truth()}

    def truth(self):
        """What running every vial on its own, in another laboratory, comes to."""
        out = {d: ["?"] * len(self.num) for d in DS}
        for (d, k), v in self.seen.items():
            (self.top / "alone" / DS[d]).mkdir(parents=True, exist_ok=True)
            lab = Lab(self.top / "alone" / DS[d] / str(k), londonaq_root=self.lq, oplib_root=self.op)
            vial = Vial(**v)
            ex = Experiment(name=ExperimentName.onerun, vials=[vial], timestamp=datetime(2020, 1, 2))
            lab.get_experiment_dir(ex.name).mkdir(parents=True, exist_ok=True)
            lab.run_experiment(ex)
            f = lab.get_vial_dir(ex.name, vial.uuid) / f"{vial.uuid}.json"
            out[d][k - 1] = "ok" if f.exists() else "fail"
        return [out[d] for d in DS]
