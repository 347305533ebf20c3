"""C++ graph utilities."""
from . import prop
from ..flow import flow

C = dict(NMIN=3, NMAX=7, CMAX=9, PMAX=5)
WIDE = (5000000, 5000000)
BIG = dict(C, NMIN=16, NMAX=60)
HUGE = dict(C, NMIN=124, NMAX=140)


def _big(ctx, op, spec, label, seed_off):
    """Large sparse graphs."""
    flow(ctx, gen="GenCxx", consts=BIG, num=ctx.pick(60, 600), op=op, spec=spec, driver="graph", label=label + ", large", seed_off=100 + seed_off)
    flow(ctx, gen="GenCxx", consts=HUGE, num=ctx.pick(8, 80), op=op, spec=spec, driver="graph", label=label + ", over a hundred vertices", seed_off=200 + seed_off)


@prop("C18")
def walks(ctx):
    n = ctx.pick(1200, 12000)
    for j, (op, lab) in enumerate((("walk", "walks and tours"), ("edges", "edge sets"), ("dijkstra", "shortest paths around marked vertices"))):
        flow(ctx, gen="GenCxx", consts=C, num=n, op=op, spec="Walks", driver="graph", label=lab, seed_off=j, wide=WIDE)
        flow(ctx, gen="GenCxx", consts=dict(C, NMIN=8, NMAX=14), num=ctx.pick(500, 5000), op=op, spec="Walks", driver="graph", label=lab + ", larger", seed_off=30 + j)
        _big(ctx, op, "Walks", lab, j)


@prop("C19")
def renaming(ctx):
    flow(ctx, gen="GenCxx", consts=dict(C, NMAX=8), num=ctx.pick(2500, 20000), op="rename", spec="Rename", driver="graph", label="renaming", wide=WIDE)
    _big(ctx, "rename", "Rename", "renaming", 0)


@prop("C31")
def prep(ctx):
    flow(ctx, gen="GenCxx", consts=C, num=ctx.pick(2000, 12000), op="prepcc", spec="Search", driver="graph", label="self loops and weights", wide=WIDE)
    _big(ctx, "prepcc", "Search", "self loops and weights", 0)


@prop("C32")
def search(ctx):
    n = ctx.pick(1200, 12000)
    for j, (op, lab) in enumerate((("search", "depth-limited searches"), ("subpath", "subpaths of cycles"), ("components", "components and filters"))):
        flow(ctx, gen="GenCxx", consts=C, num=n, op=op, spec="Search", driver="graph", label=lab, seed_off=10 + j)
        flow(ctx, gen="GenCxx", consts=dict(C, NMIN=8, NMAX=14), num=ctx.pick(500, 5000), op=op, spec="Search", driver="graph", label=lab + ", larger", seed_off=20 + j)
        _big(ctx, op, "Search", lab, 10 + j)
