"""The command line."""
from . import prop
from ..flow import flow


@prop("C29")
def cli(ctx):
    flow(ctx, gen="GenCli", consts=dict(NMIN=4, NMAX=6, CMAX=9, PMAX=90, NOPS=9), num=ctx.pick(160, 2500), op="cli:play", spec="Cli", ext=True,
         label="histories of commands")
