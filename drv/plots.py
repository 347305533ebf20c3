"""Plots of graphs, tours and heuristics, read back from the figures that the code builds with plotly.

Writing a figure to an image needs a browser engine that is not installed: it is replaced by one that keeps the figure."""
import contextlib
import io
import math
import pathlib
import shutil
import tempfile

import agg
import pandas as pd
import plotly.basedatatypes
import plotly.graph_objects as go
from pctsp import plot as P
from pctsp.apps import plot_app
from pctsp.vial import DatasetName, ExperimentName

KEPT = []


def keep(self, file=None, *_, **__):
    KEPT.append((str(file), self))


plotly.basedatatypes.BaseFigure.write_image = keep


def gap(x):
    return x is None or (isinstance(x, float) and math.isnan(x))


def val(x):
    x = x.item() if hasattr(x, "item") else x
    return int(x) if isinstance(x, (int, float)) and x == int(x) else -998


def points(t):
    """The points that a line goes through; [] where the pen is lifted."""
    if t.x is None or t.y is None:
        return []
    return [[] if gap(x) or gap(y) else [val(x), val(y)] for x, y in zip(list(t.x), list(t.y))]


def line(t):
    return {"pts": points(t), "n": [len(list(t.x)) if t.x is not None else 0, len(list(t.y)) if t.y is not None else 0],
            "mode": str(t.mode), "color": str(t.line.color), "joined": t.connectgaps is True, "hover": str(t.hoverinfo)}


def marks(t):
    c = t.marker.color
    return {"pts": points(t), "color": [] if c is None or isinstance(c, str) else [val(x) for x in c], "mode": str(t.mode)}


def safe(f):
    try:
        return {"err": "", **f()}
    except Exception as exc:
        return {"err": type(exc).__name__}


def draw(a):
    lab = a["label"]
    vs = a["order"]
    src, tgt, xn, yn, col = ("a", "b", "lon", "lat", "load") if a["custom"] else ("source", "target", "x", "y", "prize")
    vdf = pd.DataFrame({xn: [a["xy"][v][0] for v in vs], yn: [a["xy"][v][1] for v in vs], col: [a["prize"][v] for v in vs]},
                       index=[lab[v] for v in vs])
    if a["real"]:
        vdf[[xn, yn]] = vdf[[xn, yn]].astype(float)
    edf = pd.DataFrame({"cost": [e[2] for e in a["edges"]], src: [lab[e[0]] for e in a["edges"]], tgt: [lab[e[1]] for e in a["edges"]]},
                       index=[7 * k + 3 for k in range(len(a["edges"]))])
    kw = dict(source=src, target=tgt, x_name=xn, y_name=yn) if a["custom"] else {}
    out = {"es": safe(lambda: line(P.edge_scatter(edf, vdf, **kw))),
           "red": safe(lambda: line(P.edge_scatter(edf, vdf, line=go.scatter.Line(width=2, color=a["colour"]), mode="lines", **kw))),
           "vs": safe(lambda: marks(P.vertex_scatter(vdf, **(dict(color=col, x_name=xn, y_name=yn) if a["custom"] else {}))))}

    def whole():
        ts = P.graph_trace(edf, vdf)
        return {"es": line(ts[0]), "vs": marks(ts[1]), "len": len(ts)}

    def layout():
        f = go.Figure(data=[], layout=P.graph_layout())
        return {"legend": f.layout.showlegend is not False, "grid": f.layout.xaxis.showgrid is not False or f.layout.yaxis.showgrid is not False}
    out["graph"] = {"err": "skip"} if a["custom"] else safe(whole)
    out["layout"] = safe(layout)
    tour = [lab[v] for v in a["tour"]]
    out["tour"] = {"err": "skip"} if not tour else safe(lambda: line(P.tour_edges_trace(tour, edf, vdf, **kw, **({"color": a["colour"]} if a["custom"] else {}))))
    return {"o": out}


def boxes(f):
    out = []
    for t in f.data:
        rows = [r for r in (1, 2) if any(s.trace_kwargs["yaxis"] == (t.yaxis or "y") for s in f._grid_ref[r - 1][0])]
        ys = [] if t.y is None else [float(y) for y in t.y]
        xs = [] if t.x is None else list(t.x)
        pts = []
        for x, y in zip(xs, ys):
            if math.isnan(y):
                continue
            w = y * agg.U
            pts.append([int(x), round(w) if abs(w - round(w)) < 1e-4 else -998])
        out.append({"name": str(getattr(t.name, "value", t.name)), "pts": pts, "same": len(xs) == len(ys), "row": rows[0] if len(rows) == 1 else 0,
                    "legend": t.showlegend is not False, "color": str(t.marker.color), "all": t.boxpoints == "all"})
    return out


def figure(a):
    top = pathlib.Path(tempfile.mkdtemp(prefix="fig", dir=".")).resolve()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return figure_in(a, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def figure_in(a, top):
    KEPT.clear()
    lab = top / "lab"
    cover, heur = agg.rows_of(a, "tspwplib")
    for ds in ("tspwplib", "londonaq"):
        for exp, rows in ((ExperimentName.cost_cover, cover), (ExperimentName.compare_heuristics, heur)):
            d = lab / ds / exp.value
            d.mkdir(parents=True)
            pd.DataFrame(rows).assign(dataset=ds).to_csv(d / f"{ds}_{exp.value}.csv")
    d = top / "figures"
    if a["newdir"]:
        d.mkdir()
    err = ""
    try:
        plot_app.plot_heuristics_figure(d, lab_dir=lab)
    except Exception as exc:
        err = type(exc).__name__
    return {"o": {"err": err, "dir": d.is_dir(), "figs": [{"name": pathlib.Path(p).name, "inside": pathlib.Path(p).parent == d, "boxes": boxes(f)} for p, f in KEPT]}}
