"""Summary tables for a paper, made from generated table files in a scratch directory.

LaTeX needs jinja2, which is not installed: the styling of a table is replaced by one that writes a mark for the table that
was styled, and the tables are those whose marks are found in the files that the commands leave."""
import contextlib
import io
import math
import pathlib
import re
import shutil
import tempfile

import pandas as pd
from pctsp.apps import tables_app as T
from pctsp.vial import DatasetName, ExperimentName

NO, INF = -999, -1
BIG = 1e20
U = 2520
TABLES = []
NAMES = {"TIME (s)": "duration", r"$\overline{\text{TIME}}$ (s)": "mean_duration", r"$\overline{\text{GAP}}$": "mean_gap",
         r"$\overline{\text{LB}}$": "mean_lower_bound", r"$\overline{\text{UB}}$": "mean_upper_bound", r"$\mu (NODES)$": "mean_num_nodes", r"$\mu (SEC)$": "num_secs",
         "FEAS": "num_feasible_solutions", "OPT": "num_optimal_solutions", r"$\overline{\text{PRE-CUTS}}$": "avg_cuts_presolve",
         r"$|V(G)|$": "num_nodes", r"$|E(G)|$": "num_edges", r"$|V(H)|$": "preprocessed_num_nodes", r"$|E(H)|$": "preprocessed_num_edges",
         r"$\frac{p(V(H))}{p(V(G))}$": "preprocessed_prize_ratio", r"$\zeta(G, c)$": "metricness", r"$D(G)$": "disjoint_prize_ratio",
         r"\text{AVG}$(D(G))$": "mean_disjoint_prize_ratio", r"\text{AVG}$\left(\frac{p(V(H))}{p(V(G))}\right)$": "mean_preprocessed_prize_ratio"}
UNITS = {"mean_duration": 1000 * U, "mean_gap": U * U, "mean_lower_bound": U, "mean_upper_bound": U, "mean_num_nodes": U, "num_secs": U * U,
         "num_feasible_solutions": 1, "num_optimal_solutions": 1, "avg_cuts_presolve": U, "num_nodes": 1, "num_edges": 1,
         "preprocessed_num_nodes": 1, "preprocessed_num_edges": 1, "preprocessed_prize_ratio": 8, "metricness": 8, "disjoint_prize_ratio": 8,
         "mean_disjoint_prize_ratio": 8 * U, "mean_preprocessed_prize_ratio": 8 * U}


class Style:
    def __init__(self, df):
        self.df = df

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: self

    def to_latex(self, buf=None, **_):
        TABLES.append(self.df.copy())
        text = f"@TABLE{len(TABLES) - 1}@"
        if buf is None:
            return text
        if hasattr(buf, "write"):
            buf.write(text)
            return None
        if not pathlib.Path(buf).parent.is_dir():
            raise OSError(f"Cannot save file into a non-existent directory: '{pathlib.Path(buf).parent}'")
        pathlib.Path(buf).write_text(text)
        return None


pd.DataFrame.style = property(Style)
pd.DataFrame.to_latex = lambda self, buf=None, **k: Style(self).to_latex(buf)


def big(x):
    return BIG if x == INF else x


def none(x):
    return None if x in (NO, "") else x


def inst(ds, r):
    return {"dataset": ds, "graph_name": r["graph"], "cost_function": none(r["fn"]) or "EUC_2D", "quota": r["quota"], "root": r["root"], "alpha": r["alpha"],
            "generation": none(r["generation"]), "kappa": none(r["kappa"])}


def run(r):
    return {"status": r["status"], "lower_bound": float(big(r["lb"])), "upper_bound": float(big(r["ub"])), "feasible": bool(r["feasible"]),
            "duration": r["duration"] / 1000}


def plain(x):
    x = getattr(x, "value", x)
    return NAMES.get(x, x) if isinstance(x, str) else x


def cells(df):
    """[row labels, column labels without the metric, metric, value] of every cell that has a value."""
    out = []
    names = [plain(x) for x in df.index.names]
    for key, row in df.iterrows():
        key = key if isinstance(key, tuple) else (key,)
        lab = []
        for name, x in zip(names, key):
            x = plain(x)
            if isinstance(x, float):
                x = f"{round(x * 100)}/100" if name in ("$\\alpha$", "alpha") and x < 1 else round(x * 1000) if name in ("$\\gamma$", "sec_lp_gap_improvement_threshold") else round(x)
            lab.append(str(int(x)) if hasattr(x, "item") or isinstance(x, int) else str(x))
        for col, v in row.items():
            col = [plain(c) for c in (col if isinstance(col, tuple) else (col,))]
            m = [c for c in col if c in UNITS]
            if isinstance(v, float) and math.isnan(v):
                continue
            if len(m) != 1 or math.isinf(float(v)) or abs(float(v)) > 1e15:
                out.append([lab, [str(c) for c in col], "?", str(v)])
                continue
            w = float(v) * UNITS[m[0]]
            ok = abs(w - round(w)) < 1e-4 and abs(w) < 2 ** 31
            out.append([lab, [str(c) for c in col if c != m[0]], m[0], round(w) if ok else "?"])
    return out


def rows_of(a, ds):
    cover = [{**inst(ds, r), "cost_cover_disjoint_paths": bool(r["djp"]), "cost_cover_shortest_path": bool(r["sp"]),
              "num_cost_cover_disjoint_paths": r["cd"], "num_cost_cover_shortest_paths": r["cs"], "nconss_presolve_disjoint_paths": r["nd"],
              "nconss_presolve_shortest_paths": r["ns"], "num_nodes": 1, **run(r)} for r in a["cover"]]
    heur = [{**inst(ds, r), "algorithm": r["algorithm"], "path_depth_limit": none(r["pdl"]), "step_size": none(r["step"]),
             "collapse_paths": bool(r["collapse"]), "objective": none(r["objective"]), "feasible": bool(r["feasible"]), "duration": r["duration"] / 1000}
            for r in a["heur"]]
    return cover, heur


def files(d):
    out = []
    for p in sorted(d.iterdir()) if d.exists() else ():
        m = re.findall(r"@TABLE(\d+)@", p.read_text())
        out.append({"name": p.name, "cells": [] if len(m) != 1 else cells(TABLES[int(m[0])]), "marks": len(m)})
    return out


def observe(a):
    top = pathlib.Path(tempfile.mkdtemp(prefix="agg", dir=".")).resolve()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return observe_in(a, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def observe_in(a, top):
    TABLES.clear()
    ds, E = DatasetName(a["dataset"]), ExperimentName
    lab, oplib, lq = top / "lab", top / "oplib", top / "lq"
    for d in (lab / ds.value, oplib, lq):
        d.mkdir(parents=True)
    cexp = E.cc_londonaq_alpha if a["byalpha"] else E.cost_cover
    hexp = E.londonaq_alpha if a["byalpha"] else E.compare_heuristics

    def put(what, exp, rows):
        if a["have"][what]:
            (lab / ds.value / exp.value).mkdir(exist_ok=True)
            pd.DataFrame(rows).to_csv(lab / ds.value / exp.value / f"{ds.value}_{exp.value}.csv")
    put("tail", E.tailing_off, [{"branching_max_depth": r["bdepth"], "branching_strategy": r["rule"], "sec_lp_gap_improvement_threshold": r["thr"] / 1000,
                                 "sec_max_tailing_off_iterations": r["its"], "num_nodes": r["nodes"], "num_sec_disjoint_tour": r["dt"],
                                 "num_sec_maxflow_mincut": r["mm"], **run(r)} for r in a["tail"]])
    cover, heur = rows_of(a, ds.value)
    put("cover", cexp, cover)
    put("heur", hexp, heur)
    if a["have"]["data"]:
        f = lq / "londonaq_dataset.csv" if ds == DatasetName.londonaq else oplib / "tsplib_dataset.csv"
        rows = [{"graph_name": r["graph"], **({} if ds == DatasetName.londonaq else {"generation": "gen1", "cost_function": r["fn"], "kappa": r["kappa"]}),
                 **dict(zip(("num_nodes", "num_edges", "preprocessed_num_nodes", "preprocessed_num_edges"), r["counts"])),
                 **dict(zip(("preprocessed_prize_ratio", "metricness", "disjoint_prize_ratio"), (x / 8 for x in r["ratios"])))} for r in a["data"]]
        pd.DataFrame(rows).to_csv(f, index=False)

    out = {}

    def command(name, f):
        d = top / "tables" / name
        d.parent.mkdir(exist_ok=True)
        if not a["newdir"]:
            d.mkdir()
        try:
            f(d)
            err = ""
        except Exception as exc:
            err = type(exc).__name__
        out[name] = {"err": err, "files": files(d)}
    command("data", lambda d: T.summarize_dataset(ds, d, londonaq_root=lq, oplib_root=oplib))
    command("tail", lambda d: T.tailing_off_table(ds, d, lab_dir=lab))
    command("cover", lambda d: T.cost_cover_table(ds, d, lab_dir=lab, experiment_name=cexp))
    for name, only in (("heur", False), ("only", True)):
        command(name, lambda d: T.heuristics_table(ds, hexp, d, lab_dir=lab, exact_experiment_name=cexp, sbl_ec_only=only))
    command("all", lambda d: T.generate_all_tables(d, lab_dir=lab, londonaq_root=lq, oplib_root=oplib))
    return {"o": out}
