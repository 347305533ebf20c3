"""Vials, results, statistics and the tables made from them, in a scratch directory."""
import contextlib
import io
import math
import pathlib
import shutil
import tempfile
import uuid
from datetime import datetime, timedelta
from enum import Enum

import pandas as pd
import yaml
from pctsp.apps import csv_app
from pctsp.apps.csv_app import experiment_summary_df, summary_stats_df, write_branch_cut_experiment_to_csv, write_heuristics_experiment_to_csv
from pctsp.apps.tables_app import get_heuristics_df, pretty_dataframe
from pctsp.lab import Lab
from pctsp.vial import (DataConfig, DatasetName, Experiment, ExperimentName, ModelParams, Preprocessing, Result, Vial,
                        dataframe_from_vial_list, flat_dict_from_vial)

NO = -999
WORDS = {"generation", "heuristic"}
T0 = datetime(2021, 3, 4, 5, 6, 7)
COUNTS = ["num_cost_cover_disjoint_paths", "num_cost_cover_shortest_paths", "nconss_presolve_disjoint_paths", "nconss_presolve_shortest_paths",
          "num_cycle_cover", "num_nodes", "num_sec_disjoint_tour", "num_sec_maxflow_mincut"]


def num_of(u):
    return uuid.UUID(str(u)).int - 0x7AB000


def uid(k):
    return uuid.UUID(int=0x7AB000 + k)


def plain(k, v):
    if v is None or (isinstance(v, float) and math.isnan(v)):
        return "" if k in WORDS else NO
    if k in ("uuid", "vial_uuid"):
        return num_of(v)
    if isinstance(v, Enum):
        v = v.value
    if isinstance(v, bool) or type(v).__name__ in ("bool_", "bool"):
        return int(v)
    if hasattr(v, "item"):
        v = v.item()
    if isinstance(v, float):
        v = v * 1000 if k == "sec_lp_gap_improvement_threshold" else v
        return int(round(v)) if abs(v - round(v)) < 1e-9 else str(v)
    return v


def row(d):
    return {k: plain(k, v) for k, v in d.items()}


def opts(d):
    return {k: None if v == NO or v == "" else v / 1000 if k == "sec_lp_gap_improvement_threshold" else bool(v)
            if k.startswith(("is_", "collapse", "cost_cover", "sec_disj", "sec_maxflow", "remove", "disjoint", "shortest")) else v for k, v in d.items()}


def vial(v, k):
    return Vial(uuid=uid(k), data_config=DataConfig(**opts(v["data"])), model_params=ModelParams(**opts(v["model"])),
                preprocessing=Preprocessing(**opts(v["pre"])))


def result(r, off):
    return Result(vial_uuid=uid(r["v"] + off), objective=r["objective"], prize=r["prize"], edge_list=[tuple(e) for e in r["edges"]],
                  start_time=T0 + timedelta(milliseconds=r["t0"]), end_time=T0 + timedelta(milliseconds=r["t0"] + r["dt"]))


def rshow(r):
    t0 = round((r.start_time - T0) / timedelta(milliseconds=1))
    return {"v": num_of(r.vial_uuid), "objective": r.objective, "prize": r.prize, "edges": [list(e) for e in r.edge_list], "t0": t0,
            "dt": round((r.end_time - T0) / timedelta(milliseconds=1)) - t0}


def line(d, off=0):
    d = dict(d)
    return {"uuid": num_of(d["uuid"]) - off, "duration": round(d["duration"] * 1000), "feasible": bool(d["feasible"]),
            **{k: plain(k, d[k]) for k in ("objective", "prize", "quota", "overshoot", "algorithm", "root", "graph_name")}}


def srow(d):
    return {"uuid": num_of(d["vial_uuid"]) - 100, "status": int(d["status"]), "lower_bound": plain("", d["lower_bound"]),
            "upper_bound": plain("", d["upper_bound"]), "counts": [int(d[k]) for k in COUNTS]}


def rows_of(df):
    return df.to_dict("records")


def observe(a):
    top = pathlib.Path(tempfile.mkdtemp(prefix="tab", dir=".")).resolve()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return observe_in(a, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def observe_in(a, top):
    ds = DatasetName(a["dataset"])
    vs = [vial(v, k + 1) for k, v in enumerate(a["vials"])]
    ex = [vial(v, k + 101) for k, v in enumerate(a["exact"])]
    rs, xs = [result(r, 0) for r in a["results"]], [result(r, 100) for r in a["xresults"]]
    heur, cost = ExperimentName.compare_heuristics, ExperimentName.cost_cover
    e1 = Experiment(name=heur, vials=vs, timestamp=T0)
    e2 = Experiment(name=cost, vials=ex, timestamp=T0)
    lab = Lab(top / ds.value)
    lab.write_experiment_to_file(e1)
    lab.write_experiment_to_file(e2)
    out = {"flat": [row(flat_dict_from_vial(v)) for v in vs], "frame": [row(d) for d in rows_of(dataframe_from_vial_list(vs))],
           "back": [row(flat_dict_from_vial(v)) for v in lab.read_experiment_from_file(heur).vials]}
    rback = []
    for e, l in ((e1, rs), (e2, xs)):
        for r in l:
            d = lab.get_vial_dir(e.name, r.vial_uuid)
            r.write_to_json_file(d)
            if e is e1:
                rback.append(rshow(Result.read_from_json_file(d, r.vial_uuid)))
    out["rback"] = rback
    errs = []
    for f in (lambda: result({"v": 1, "objective": 0, "prize": 0, "edges": [], "t0": 0, "dt": 0}, 0).write_to_json_file(top / "nowhere"),
              lambda: Result.read_from_json_file(top / "nowhere", uid(1))):
        try:
            f()
            errs.append("")
        except Exception as exc:
            errs.append(type(exc).__name__)
    out["nodir"] = errs[0] if errs[0] == errs[1] else " ".join(errs)
    out["summary"] = [line(d) for d in rows_of(experiment_summary_df(e1, rs))]
    for k, s in enumerate(a["stats"]):
        if s["on"]:
            p = lab.get_vial_dir(cost, ex[k].uuid) / csv_app.PCTSP_SUMMARY_STATS_YAML
            p.write_text("{status: [1" if s["torn"] else yaml.dump(
                {**{x: s["s"][x] for x in ("status", "lower_bound", "upper_bound")}, **dict(zip(COUNTS, s["s"]["counts"]))}))
    srows = summary_stats_df(lab.get_experiment_dir(cost), [v.uuid for v in ex])
    out["srows"] = [srow(d) for d in rows_of(srows)]
    out.update(csv=[], brows=[], gaps=[], gapped=False, gaperr="")
    csvs = {e: lab.get_experiment_dir(e) / f"{ds.value}_{e.value}.csv" for e in (heur, cost)}
    write_heuristics_experiment_to_csv(ds, heur, lab_dir=top)
    out["csv"] = [line(d) for d in rows_of(pd.read_csv(csvs[heur], index_col=0))]
    write_branch_cut_experiment_to_csv(ds, cost, lab_dir=top)
    out["brows"] = [[line(d, 100), srow(d)] for d in rows_of(pd.read_csv(csvs[cost], index_col=0))]
    was = {f: f.read_text() for f in csvs.values()}
    for f in was:
        f.unlink()
    csv_app.write_all_experiments_to_csv(lab_dir=top)
    out["allsame"] = all(f.exists() and f.read_text() == t for f, t in was.items())
    if out["csv"] and out["brows"]:
        try:
            df = get_heuristics_df(ds, top)
            out["gapped"] = True
            out["gaps"] = [{"uuid": num_of(d["uuid"]), "lb": plain("", d["lower_bound"]),
                            "gap1000": NO if math.isnan(d["gap"]) else round(d["gap"] * 1000), "opt": bool(d["is_optimal"])} for d in rows_of(df)]
        except Exception as exc:
            out["gaperr"] = type(exc).__name__ + " " + str(exc)[:100]
    out.update(pretty_rows(a, vs))
    return out


def pretty_rows(a, vs):
    p = a["pretty"]
    idx = [k for k, v in enumerate(vs) if v.model_params.branching_strategy is not None]
    if not idx:
        return {"prows": [], "pidx": []}
    keys = ["algorithm", "cost_function"] + ([] if p["drop"] else ["branching_strategy"])
    df = pd.DataFrame([{"algorithm": vs[k].model_params.algorithm.value, "cost_function": vs[k].data_config.cost_function.value,
                        "branching_strategy": int(vs[k].model_params.branching_strategy), "quota": vs[k].data_config.quota,
                        "root": vs[k].data_config.root} for k in idx])
    if p["drop"]:
        df = df.drop(columns="branching_strategy")
    if p["idx"]:
        df = df.set_index(keys)
    got = pretty_dataframe(df, long=p["long"]).reset_index() if p["idx"] else pretty_dataframe(df, long=p["long"])
    return {"pidx": [k + 1 for k in idx],
            "prows": [{"algorithm": d["Algorithm"], "cost_function": d["Cost function"], "branching": d.get("Branching strategy", ""),
                       "quota": d["Quota"], "root": d["root"]} for d in rows_of(got)]}
