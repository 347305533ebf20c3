"""The laboratory, its vials, results and experiments."""
from . import prop
from ..flow import flow


def _lab(x):
    return {k: v for k, v in x.items() if k not in ("tour", "label")}


@prop("C25")
def lab(ctx):
    flow(ctx, gen="GenLab", consts=dict(NMIN=3, NMAX=6, CMAX=9, PMAX=5), num=ctx.pick(400, 4000), op="lab:play", spec="Lab", prep=_lab,
         label="histories of a laboratory")


def _run(x, o):
    return {**x, **o, "edges": o["want"]["e"]} if "want" in o else {**x, **o}


@prop("C28")
def run(ctx):
    flow(ctx, gen="GenRun", consts=dict(NMIN=3, NMAX=8, CMAX=9, PMAX=5), num=ctx.pick(1000, 9000), op="runner:run", spec="Dispatch", ext=True,
         merge=_run, label="vials run on instances", wide=(100000, 20000))
