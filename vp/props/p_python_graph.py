from . import prop
from ..flow import flow


@prop("C22")
def preprocessing(ctx):
    flow(ctx, gen="GenGraph", consts=dict(NMIN=3, NMAX=7, CMAX=9, PMAX=3), num=ctx.pick(900, 9000), op="prep:reduce",
         spec="Prep", label="reductions", wide=(5000000, 5000000))
    flow(ctx, gen="GenGraph", consts=dict(NMIN=8, NMAX=9, CMAX=9, PMAX=3), num=ctx.pick(80, 1000), op="prep:reduce",
         spec="Prep", label="reductions, larger", seed_off=3)


@prop("C23")
def path_pair_heuristics(ctx):
    flow(ctx, gen="GenMaps", consts=dict(NMIN=3, NMAX=8, CMAX=9, PMAX=5), num=ctx.pick(2000, 15000), op="heurpy:maps",
         spec="HeurMaps", label="maps of path pairs", wide=(5000000, 5000000))
    flow(ctx, gen="GenMaps", consts=dict(NMIN=16, NMAX=40, CMAX=9, PMAX=5), num=ctx.pick(80, 800), op="heurpy:maps",
         spec="HeurMaps", label="maps of path pairs, large", seed_off=3)


@prop("C24")
def tour_starts(ctx):
    flow(ctx, gen="GenGraph", consts=dict(NMIN=3, NMAX=8, CMAX=9, PMAX=5), num=ctx.pick(2000, 15000), op="heurpy:tours",
         spec="HeurTours", label="bfs cycle and random tour", wide=(5000000, 5000000))
    flow(ctx, gen="GenGraph", consts=dict(NMIN=16, NMAX=40, CMAX=9, PMAX=5), num=ctx.pick(80, 800), op="heurpy:tours",
         spec="HeurTours", label="bfs cycle and random tour, large", seed_off=3)
