"""The pieces of branch and cut: the model, its warm start, its cutting planes and cost covers."""
from . import prop
from ..flow import flow

def _pair_costs(x):
    """Least cost of a simple cycle through the root and each vertex: two augmenting paths in the split digraph; 0 if there is none."""
    n, r = x["n"], x["root"]
    arcs = [(2 * v, 2 * v + 1, 0) for v in range(n) if v != r]
    for u, v, c in x["edges"]:
        arcs += [(2 * u + 1, 2 * v, c), (2 * v + 1, 2 * u, c)]
    out = []
    for t in range(n):
        res, total = set(arcs), 0
        for _ in range(2 if t != r else 0):
            d, par = {2 * r + 1: 0}, {}
            for _ in range(2 * n):
                last = dict(d)
                for a, b, c in res:
                    if a in d and d[a] + c < d.get(b, 10 ** 9):
                        d[b], par[b] = d[a] + c, (a, b, c)
                if d == last:
                    break
            if 2 * t not in d:
                total = 0
                break
            total += d[2 * t]
            z = 2 * t
            while z != 2 * r + 1:
                a, b, c = par[z]
                res.discard((a, b, c))
                res.add((b, a, -c))
                z = a
        out.append(total)
    return out


def _dps(x):
    """A run is given the costs of disjoint paths: all of them, or of some vertices."""
    if not x["cc_dp"]:
        return x
    d = _pair_costs(x)
    k = (x["quota"] + x["n"] + len(x["edges"])) % 3
    return {**x, "dps": d if k else [c if (v + x["root"]) % 2 else 0 for v, c in enumerate(d)]}


HARD = dict(NMIN=7, NMAX=11, CMAX=6, PMAX=5, FAR=7)
C = dict(NMIN=3, NMAX=7, CMAX=9, PMAX=5)
WIDE = (100000, 20000)


@prop("C02")
def model(ctx):
    """The 0/1 points the mathematical program accepts are exactly the feasible tours."""
    flow(ctx, gen="GenModel", consts=dict(C, NMAX=5), num=ctx.pick(150, 1500), op="model", spec="Model", driver="solver",
         prep=lambda x: {**x, "all": True}, label="every 0/1 point of small instances", wide=WIDE)
    flow(ctx, gen="GenModel", consts=dict(C, NMAX=8), num=ctx.pick(1500, 12000), op="model", spec="Model", driver="solver",
         prep=lambda x: {**x, "all": False}, label="points near tours", seed_off=1, wide=WIDE)
    flow(ctx, gen="GenModel", consts=dict(C, NMIN=16, NMAX=40), num=ctx.pick(60, 600), op="model", spec="Model", driver="solver",
         prep=lambda x: {**x, "all": False}, label="points near tours, large", seed_off=101)


@prop("C06")
def warm(ctx):
    """The solver starts from the tour it is handed when that tour is feasible, and from nothing otherwise."""
    flow(ctx, gen="GenWarm", consts=dict(C, NMAX=8), num=ctx.pick(2500, 20000), op="warm", spec="Warm", driver="solver", label="start tours", wide=WIDE)
    flow(ctx, gen="GenWarm", consts=dict(C, NMIN=16, NMAX=40), num=ctx.pick(100, 1000), op="warm", spec="Warm", driver="solver", label="start tours, large", seed_off=100)


def _reachable(x):
    """A planted tour within the quota makes the first relaxation feasible, so that the rules are reached."""
    if not x["tour"]:
        return None
    return {**x, "quota": min(x["quota"], sum(x["prize"][v] for v in set(x["tour"])))}


def _large(x):
    """A large instance that a run finishes soon: the quota can be met, and no prize is out of the root's reach (subtours over such
    vertices would be cut off one by one)."""
    x = _reachable(x)
    if not x:
        return None
    d = _pair_costs(x)
    return _dps({**x, "prize": [p if d[v] or v == x["root"] else 0 for v, p in enumerate(x["prize"])]})


def cuts(ctx, which, so):
    flow(ctx, gen="GenCuts", consts=dict(C, NMIN=4, NMAX=6), num=ctx.pick(800, 6000), op="cuts", spec="Cuts", spec_consts=dict(Which=which), driver="solver",
         prep=_reachable, label="fractional points", seed_off=so, wide=WIDE)
    flow(ctx, gen="GenCuts", consts=dict(C, NMIN=7, NMAX=8), num=ctx.pick(250, 1500), op="cuts", spec="Cuts", spec_consts=dict(Which=which), driver="solver",
         prep=_reachable, label="fractional points, larger graphs", seed_off=so + 1)
    flow(ctx, gen="GenSolve", consts=dict(C, NMIN=5, NMAX=7), num=ctx.pick(300, 2500), op="solve", spec="Cuts", spec_consts=dict(Which=which), driver="solver", prep=_dps,
         label="rows added during whole runs", seed_off=so + 2, wide=WIDE)
    flow(ctx, gen="GenHard", consts=dict(HARD, NMAX=ctx.pick(7, 8)), num=ctx.pick(60, 400), op="solve", spec="Cuts", spec_consts=dict(Which=which), driver="solver", prep=_dps,
         label="rows added during whole runs on clustered graphs", seed_off=so + 3)


@prop("C03")
def sec(ctx):
    """Subtour elimination: never cuts off a tour, always cuts off a point in pieces."""
    cuts(ctx, "sec", 0)


@prop("C05")
def cyc(ctx):
    """Cycle covers: never cut off a feasible tour, always cut off a piece below the quota."""
    cuts(ctx, "cyc", 5)


def run(ctx, book, so, num=None):
    flow(ctx, gen="GenSolve", consts=dict(C, NMIN=5, NMAX=9), num=num or ctx.pick(500, 5000), op="solve", spec="SolveRun", spec_consts=dict(Book=book), driver="solver", prep=_dps,
         label=f"whole runs: {book}", seed_off=so, wide=WIDE)
    flow(ctx, gen="GenHard", consts=HARD, num=num or ctx.pick(200, 2500), op="solve", spec="SolveRun", spec_consts=dict(Book=book), driver="solver", prep=_dps,
         label=f"whole runs on clustered graphs: {book}", seed_off=so)
    flow(ctx, gen="GenSolve", consts=dict(C, NMIN=16, NMAX=25), num=ctx.pick(100, 600), op="solve", spec="SolveRun", spec_consts=dict(Book=book), driver="solver", prep=_large,
         label=f"whole runs on large graphs: {book}", seed_off=100 + so)


@prop("C10")
def nodes(ctx):
    """Node statistics and bounds against the observed run."""
    run(ctx, "nodes", 40)
    flow(ctx, gen="GenCuts", consts=dict(C, NMIN=4, NMAX=7), num=ctx.pick(600, 5000), op="cuts", spec="Cuts", spec_consts=dict(Which="count"), driver="solver",
         prep=_reachable, label="cuts counted at fractional points", seed_off=46, wide=WIDE)
    flow(ctx, gen="GenStats", num=ctx.pick(1500, 10000), op="statcsv", spec="Stats", spec_consts=dict(What="csv"), driver="solver", label="tables", seed_off=43)


@prop("C09")
def summary(ctx):
    """The summary of a run."""
    run(ctx, "summary", 41)
    recs = flow(ctx, gen="GenStats", num=ctx.pick(1500, 10000), op="summary", spec="Stats", spec_consts=dict(What="summary"), driver="solver", label="write and read",
                seed_off=44)
    flow(ctx, insts=[{"st": r["st"], "text": r["text"]} for r in recs if "text" in r], op="stats:load", spec="Stats", spec_consts=dict(What="python"),
         label="read in Python")


@prop("C04")
def cover(ctx):
    """Cost covers pair the root with exactly the vertices beyond the bound, and cut off no tour within it."""
    flow(ctx, gen="GenCover", consts=dict(C, NMAX=7), num=ctx.pick(2500, 20000), op="cover", spec="Cover", driver="solver", label="covers at a bound", seed_off=45, wide=WIDE)
    run(ctx, "cover", 42)


@prop("C11")
def tailing(ctx):
    """Tailing off: the window of gaps and the decision to branch."""
    def short(x):
        # windows that fill up, thresholds on both sides of what is gained; common factors make SCIP scale the costs
        k = x["n"] % 3 + 1
        return {**_dps(x), "tail": 2 + x["tail"] % 2, "edges": [[u, v, c * k] for u, v, c in x["edges"]]}
    for gen, consts, num, so in (("GenHard", HARD, ctx.pick(500, 5000), 46), ("GenSolve", dict(C, NMIN=5, NMAX=9), ctx.pick(500, 5000), 47)):
        flow(ctx, gen=gen, consts=consts, num=num, op="solve", spec="SolveRun", spec_consts=dict(Book="tail"), driver="solver",
             prep=short, label=f"branching on tailing off ({gen})", seed_off=so)
    flow(ctx, gen="GenTail", num=ctx.pick(4000, 40000), op="tailing", spec="Tail", driver="solver", label="windows of gaps", seed_off=48)


@prop("C08")
def branching(ctx):
    """Branching strategies over histories of choices, and in whole runs."""
    recs = flow(ctx, gen="GenBranch", num=ctx.pick(2500, 20000), op="branching", spec="Branching", driver="solver", label="histories of strategies")
    flow(ctx, gen="GenHard", consts=HARD, num=ctx.pick(150, 1500), op="solve", spec="Branching", driver="solver",
         prep=lambda x: {**x, "strat": x["strat"] if x["strat"] != 3 else 2}, label="the strategy of a whole run", seed_off=1)
    flow(ctx, insts=[{"simple": True, "calls": [], "before": r["before"], "after": []} for r in recs[:3]], op="logs:codes", spec="Branching", label="codes in Python")


@prop("C30")
def logs(ctx):
    """Log levels over histories of levels and messages."""
    flow(ctx, gen="GenLog", num=ctx.pick(4000, 40000), op="logging", spec="Logging", spec_consts=dict(Side="compiled"), driver="solver", label="compiled code")
    flow(ctx, gen="GenLog", num=ctx.pick(4000, 40000), op="logs:history", spec="Logging", spec_consts=dict(Side="python"), label="Python", seed_off=1)


@prop("C35")
def reading(ctx):
    """A solution is read back as what it is."""
    flow(ctx, gen="GenRead", consts=dict(C, NMIN=3, NMAX=7), num=ctx.pick(1200, 12000), op="reading", spec="Reading", driver="solver", label="points and lists of variables", wide=WIDE)
    flow(ctx, gen="GenRead", consts=dict(C, NMIN=16, NMAX=40), num=ctx.pick(60, 600), op="reading", spec="Reading", driver="solver", label="points and lists of variables, large", seed_off=100)
