"""The compiled tour heuristics."""
from . import prop
from ..flow import flow

C = dict(NMIN=4, NMAX=7, CMAX=9, PMAX=5)


def _on(op):
    def f(x):
        # an instance whose generator planted no tour is not an input of the heuristics
        return {**x, "op": op} if x["tour"] else None
    return f


def _times(op):
    """The code gets costs and prizes multiplied by factors; gains, losses and comparisons do not change."""
    def f(x):
        k = x["n"] + len(x["edges"]) + sum(x["prize"])
        s, t = (1000, 65537, 1000003)[k % 3], (1, 257, 40009)[k // 3 % 3]
        y = _on(op)(x)
        return y and {**y, "times": [s, t], "quota": y["quota"] * t, "prize": [p * t for p in y["prize"]], "edges": [[u, v, c * s] for u, v, c in y["edges"]]}
    return f


def _divide(a, o):
    s, t = a["times"]
    return {**a, "quota": a["quota"] // t, "prize": [p // t for p in a["prize"]], "edges": [[u, v, c // s] for u, v, c in a["edges"]], **o}


def times(ctx, op, kind, spec, num, label, seed_off, **c):
    flow(ctx, gen="GenHeur", consts=dict(C, **c), num=num, op="heur:" + kind, spec=spec, ext=True, prep=_times(op), merge=_divide,
         label=label + ", multiplied", seed_off=500 + seed_off)


def extend(ctx, op, num, label, seed_off, **c):
    flow(ctx, gen="GenHeur", consts=dict(C, **c), num=num, op="heur:extend", spec="Extend", ext=True, prep=_on(op), label=label, seed_off=seed_off)
    times(ctx, op, "extend", "Extend", num // 8, label, seed_off, **c)


BIG = dict(NMIN=16, NMAX=40, CMAX=5, PMAX=5)
HUGE = dict(NMIN=124, NMAX=140, CMAX=5, PMAX=5)


def _big(op):
    """Large sparse instances; paths of at most two edges are decided exactly there."""
    return lambda x: {**x, "op": op, "depth": min(x["depth"], 2)} if x["tour"] else None


def extend_big(ctx, op, label, seed_off):
    flow(ctx, gen="GenHeur", consts=BIG, num=ctx.pick(60, 600), op="heur:extend", spec="Extend", ext=True, prep=_big(op),
         label=label + ", large", seed_off=100 + seed_off)
    flow(ctx, gen="GenHeur", consts=HUGE, num=ctx.pick(8, 60), op="heur:extend", spec="Extend", ext=True, prep=_big(op),
         label=label + ", over a hundred vertices", seed_off=200 + seed_off)


@prop("C12")
def gain(ctx):
    extend(ctx, "gain", ctx.pick(2500, 15000), "unitary gain", 0, NMAX=8)
    extend_big(ctx, "gain", "unitary gain", 0)


@prop("C13")
def until(ctx):
    extend(ctx, "until", ctx.pick(2500, 15000), "until prize feasible", 1, NMAX=8)
    extend_big(ctx, "until", "until prize feasible", 1)


@prop("C14")
def path(ctx):
    extend(ctx, "loss", ctx.pick(1200, 8000), "unitary loss", 2, NMAX=8)
    extend_big(ctx, "loss", "unitary loss", 2)
    extend(ctx, "path", ctx.pick(2000, 12000), "path extension", 3, NMAX=8)
    extend_big(ctx, "path", "path extension", 3)


@prop("C15")
def puntil(ctx):
    extend(ctx, "puntil", ctx.pick(2500, 15000), "path extension until prize feasible", 4, NMAX=8)
    extend_big(ctx, "puntil", "path extension until prize feasible", 4)


@prop("C16")
def collapse(ctx):
    for j, (op, lab, cmax, num) in enumerate((("collapse", "collapse", 30, 1500), ("pcollapse", "collapse with shortest paths", 30, 1500),
                                              ("gcollapse", "unitary gain and collapse", 9, 800))):
        flow(ctx, gen="GenHeur", consts=dict(C, NMAX=7, CMAX=cmax), num=ctx.pick(num, 9000), op="heur:collapse", spec="Collapse", ext=True,
             prep=_on(op), label=lab, seed_off=20 + j)
        times(ctx, op, "collapse", "Collapse", num // 8, lab, 20 + j, NMAX=7, CMAX=cmax)
        flow(ctx, gen="GenHeur", consts=BIG, num=ctx.pick(60, 600), op="heur:collapse", spec="Collapse", ext=True, prep=_big(op),
             label=lab + ", large", seed_off=120 + j)


@prop("C17")
def extcollapse(ctx):
    flow(ctx, gen="GenHeur", consts=dict(C, NMAX=8), num=ctx.pick(3000, 20000), op="heur:extcollapse", spec="ExtCollapse", ext=True,
         prep=_on("ec"), label="path extension and collapse", seed_off=30)
    times(ctx, "ec", "extcollapse", "ExtCollapse", ctx.pick(375, 2500), "path extension and collapse", 30, NMAX=8)
    flow(ctx, gen="GenHeur", consts=BIG, num=ctx.pick(60, 600), op="heur:extcollapse", spec="ExtCollapse", ext=True,
         prep=_big("ec"), label="path extension and collapse, large", seed_off=130)
    flow(ctx, gen="GenHeur", consts=HUGE, num=ctx.pick(8, 40), op="heur:extcollapse", spec="ExtCollapse", ext=True,
         prep=_big("ec"), label="path extension and collapse, over a hundred vertices", seed_off=230)
