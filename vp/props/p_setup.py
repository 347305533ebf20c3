"""Experiments as products of settings; vials and results as records."""
from . import prop
from ..flow import flow


@prop("C27")
def compare(ctx):
    for label, w, num in (("products of settings", 60, (600, 6000)), ("experiments", 1, (110, 700))):
        flow(ctx, gen="GenCompare", consts=dict(NMIN=3, NMAX=4, CMAX=9, PMAX=60, EXPW=w), num=ctx.pick(*num), op="compare:observe", spec="Compare",
             label=label, seed_off=w)


@prop("C26")
def tables(ctx):
    flow(ctx, gen="GenTables", consts=dict(NMIN=3, NMAX=3, CMAX=9, PMAX=9), num=ctx.pick(500, 6000), op="tables:observe", spec="Tables",
         label="vials, results and tables")
