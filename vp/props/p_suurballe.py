from . import prop
from ..flow import flow, design


def _m(a, o):
    if "err" in o:
        return {"n": a["n"], "src": a["root"], **o}
    aw = [[-1] * o["n"] for _ in range(o["n"])]
    for u, v, c in o["arcs"]:
        aw[u][v] = c
    for x in o["ans"]:
        x.setdefault("skip", False)
    return {"aw": aw, "hint": [_hint(o, v) for v in range(o["n"])], **o}


def _hint(o, v):
    """Certificates that spare TLC a search: potentials of the residual network, or a separating arc."""
    a = o["ans"][v]
    h = {"pot": [], "cut": [-1, -1]}
    if a["lab"] and a["p1"]:
        f = {x for p in (a["p1"], a["p2"]) for x in zip(p, p[1:])}
        res = [(y, x, -c) if (x, y) in f else (x, y, c) for x, y, c in o["arcs"]]
        d = [0] * o["n"]
        for _ in range(o["n"] + 1):
            last = list(d)
            for x, y, c in res:
                if d[x] + c < d[y]:
                    d[y] = d[x] + c
            if d == last:
                break
        h["pot"] = d
    elif a["in"] and v != o["src"]:
        out = {}
        for x, y, _ in o["arcs"]:
            out.setdefault(x, []).append(y)

        def tree(cut):
            par, todo = {o["src"]: None}, [o["src"]]
            for z in todo:
                for q in out.get(z, ()):
                    if q not in par and (z, q) != cut:
                        par[q] = z
                        todo.append(q)
            return par
        par = tree(None)
        z = v
        while z in par and par[z] is not None:
            if v not in tree((par[z], z)):
                h["cut"] = [par[z], z]
                break
            z = par[z]
    return h


def _maps(a, o):
    """The maps as pairs of arc-disjoint paths from the root's exit to the entry of each vertex of the split digraph
    (entry 2v, exit 2v+1)."""
    n, r = a["n"], a["root"]
    if "err" in o:
        return {"n": 2 * n, "src": 2 * r + 1, **o}
    arcs = [[2 * v, 2 * v + 1, 0] for v in range(n) if v != r]
    for u, v, c in a["edges"]:
        arcs += [[2 * u + 1, 2 * v, c], [2 * v + 1, 2 * u, c]]
    near = {}
    for u, v, _ in a["edges"]:
        near.setdefault(u, []).append(v)
        near.setdefault(v, []).append(u)
    seen, todo = {r}, [r]
    for z in todo:
        new = [q for q in near.get(z, ()) if q not in seen]
        seen.update(new)
        todo += new

    def path(p):
        return [y for j, x in enumerate(p) for y in ([2 * x + 1] if j == 0 else [2 * x] if j == len(p) - 1 else [2 * x, 2 * x + 1])]
    ans = []
    for v in range(n):
        m = o["m"][v]
        ans.append({"skip": v == r, "in": v in seen, "lab": m["has"], "cost": m["cost"], "p1": path(m["p1"]), "p2": path(m["p2"])})
        ans.append({"skip": True, "in": True, "lab": False, "cost": -1, "p1": [], "p2": []})
    return _m(a, {"n": 2 * n, "src": 2 * r + 1, "arcs": arcs, "ans": ans})


@prop("C20")
def suurballe(ctx):
    # the relabelling itself, for every digraph, cost function and order of the queue
    design(ctx, "Relabel", dict(N=4, COSTS={1, 2}), "the relabelling, all digraphs of 4 vertices", wrong=ctx.pick((), ("above", "own", "late")))
    if ctx.thorough():
        design(ctx, "Relabel", dict(N=5, COSTS={1}), "the relabelling, all digraphs of 5 vertices", timeout=3000)
    c = dict(NMIN=3, NMAX=7, CMAX=6, PMAX=3)
    flow(ctx, gen="GenGraph", consts=c, num=ctx.pick(600, 6000), op="suur:digraph", spec="Suurballe",
         merge=_m, label="asymmetric digraphs", wide=(5000000, 3))
    flow(ctx, gen="GenGraph", consts=dict(NMIN=12, NMAX=28, CMAX=12, PMAX=3), num=ctx.pick(1300, 12000), op="suur:digraph",
         spec="Suurballe", merge=_m, label="larger asymmetric digraphs", seed_off=3)
    flow(ctx, gen="GenGraph", consts=dict(NMIN=30, NMAX=60, CMAX=12, PMAX=3), num=ctx.pick(60, 600), op="suur:digraph",
         spec="Suurballe", merge=_m, label="large asymmetric digraphs", seed_off=5)
    flow(ctx, gen="GenGraph", consts=dict(c, NMAX=13), num=ctx.pick(250, 2500), op="suur:split", spec="Suurballe",
         merge=_m, seed_off=7, label="split digraphs of undirected graphs")


@prop("C21")
def disjoint_maps(ctx):
    flow(ctx, gen="GenGraph", consts=dict(NMIN=3, NMAX=7, CMAX=8, PMAX=3), num=ctx.pick(800, 8000), op="suur:maps",
         spec="Disjoint", label="vertex-disjoint maps", wide=(5000000, 3))
    flow(ctx, gen="GenGraph", consts=dict(NMIN=8, NMAX=20, CMAX=20, PMAX=3), num=ctx.pick(700, 6000), op="suur:maps",
         spec="Suurballe", merge=_maps, label="vertex-disjoint maps, larger", seed_off=3)
    flow(ctx, gen="GenGraph", consts=dict(NMIN=21, NMAX=40, CMAX=20, PMAX=3), num=ctx.pick(60, 600), op="suur:maps",
         spec="Suurballe", merge=_maps, label="vertex-disjoint maps, large", seed_off=5)
