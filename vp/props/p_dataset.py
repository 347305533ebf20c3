"""Statistics of data sets."""
from . import prop
from ..flow import flow


def _components(x):
    near = {v: set() for v in range(x["n"])}
    for u, v, _ in x["edges"]:
        near[u].add(v)
        near[v].add(u)
    left, out = set(near), []
    while left:
        c, todo = set(), [min(left)]
        while todo:
            v = todo.pop()
            if v not in c:
                c.add(v)
                todo += near[v] - c
        left -= c
        out.append(c)
    return out


def _defined(x):
    """Ratios to a total prize of zero, and the metricness of trees, are not defined; the root is on the planted cycle."""
    if not x["tour"] or sum(x["prize"]) == 0:
        return None
    comps = _components(x)
    for c in comps:
        if len(c) == max(map(len, comps)) and sum(u in c for u, _, _ in x["edges"]) < len(c):
            return None
    return x


def _whole(x):
    """Total prizes above zero; the graph of the londonaq files has no vertex that separates it."""
    def pos(f):
        return {**f, "prize": [f["prize"][0] + 1] + f["prize"][1:]}
    x = {**x, "tsp": [[pos(f) for f in l] for l in x["tsp"]], "laq": [pos(f) for f in x["laq"]], "stride": 7 if x["dataset"] == "tspwplib" else 1}
    if x["dataset"] == "tspwplib":
        return x
    ring = {(v, (v + 1) % x["n"]) for v in range(x["n"])}
    have = {frozenset(e[:2]) for e in x["edges"]}
    return {**x, "edges": x["edges"] + [[u, v, 1 + (u + v) % 5] for u, v in sorted(ring) if frozenset((u, v)) not in have]}


@prop("C33")
def stats(ctx):
    flow(ctx, gen="GenGraph", consts=dict(NMIN=3, NMAX=7, CMAX=9, PMAX=5), num=ctx.pick(1500, 10000), op="dataset:one", spec="Dataset",
         spec_consts=dict(What="one"), prep=_defined, label="statistics of instances", wide=(100000, 250))
    flow(ctx, gen="GenCompare", consts=dict(NMIN=4, NMAX=12, CMAX=9, PMAX=5, EXPW=1), num=ctx.pick(40, 250), op="dataset:whole", spec="Dataset",
         spec_consts=dict(What="whole"), prep=_whole, label="files of data sets", seed_off=1, timeout=200)
