"""Pictures."""
from . import prop
from ..flow import flow
from .p_agg import _sound


@prop("C36")
def plots(ctx):
    flow(ctx, gen="GenPlot", consts=dict(NMIN=2, NMAX=8, CMAX=9, PMAX=9), num=ctx.pick(1500, 10000), op="plots:draw", spec="Plots",
         label="graphs and tours")
    flow(ctx, gen="GenFig", consts=dict(NMIN=3, NMAX=3, CMAX=9, PMAX=9), num=ctx.pick(400, 4000), op="plots:figure", spec="Figures", prep=_sound,
         label="figure of the heuristics", seed_off=1)
