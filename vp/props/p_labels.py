from . import prop
from ..flow import flow


@prop("C07")
def labels(ctx):
    flow(ctx, gen="GenLabels", consts=dict(NMIN=3, NMAX=7, CMAX=9, PMAX=5), num=ctx.pick(700, 6000), op="labels:present",
         spec="Labels", ext=True, label="presentations of one instance", wide=(100000, 20000))
    flow(ctx, gen="GenLabels", consts=dict(NMIN=16, NMAX=24, CMAX=5, PMAX=5), num=ctx.pick(40, 400), op="labels:present",
         spec="Labels", ext=True, label="presentations of one large instance", seed_off=100)
