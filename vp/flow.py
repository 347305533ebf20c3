"""generate (TLC) -> replay (real code) -> conform (TLC), with confirmation of every violation."""
import json

from . import build as B
from . import core


def one_pass(ctx, insts, op, spec, spec_consts=None, ext=None, driver=None, timeout=60, merge=None, conform_kw=None,
             nproc=None):
    outs = core.replay(ctx, op, insts, ext=ext, driver=driver, timeout=timeout, nproc=nproc)
    # once several inputs have hung the rest are not run: those records are left out
    keep = [j for j, o in enumerate(outs) if o.get("err") != "skipped"]
    recs = [merge(insts[j], outs[j]) if merge else {**insts[j], **outs[j]} for j in keep]
    bad = core.conform(ctx, spec, recs, spec_consts, **(conform_kw or {}))
    return outs, recs, {keep[j]: why for j, why in bad.items()}


def flow(ctx, *, gen=None, consts=None, num=0, insts=None, op, spec, spec_consts=None, ext=False, driver=None,
         timeout=60, merge=None, label=None, conform_kw=None, seed_off=0, nproc=None, prep=None, wide=None):
    """One generate/replay/conform pass; violations end up in ctx.violations.  `wide`: (greatest cost, greatest prize) of a
    second pass with such costs and prizes."""
    if wide:
        flow(ctx, gen=gen, consts={**consts, "CMAX": wide[0], "PMAX": wide[1]}, num=max(num // 8, 40), op=op, spec=spec, spec_consts=spec_consts, ext=ext,
             driver=driver, timeout=timeout, merge=merge, label=f"{label}, costs up to {wide[0]}", conform_kw=conform_kw, seed_off=seed_off + 500, nproc=nproc,
             prep=prep)
    if insts is None:
        insts = core.simulate(ctx, gen, consts or {}, num, seed=ctx.seed + seed_off)
        if prep:
            insts = [y for y in map(prep, insts) if y is not None]
    if not insts:
        raise core.CheckError(f"{gen}: nothing generated")
    kw = dict(spec_consts=spec_consts, ext=B.build_ext() if ext else None,
              driver=B.build_driver(driver) if driver else None, timeout=timeout, merge=merge, conform_kw=conform_kw,
              nproc=nproc)
    outs, recs, bad = one_pass(ctx, insts, op, spec, **kw)
    for o in outs:
        if isinstance(o, dict) and o.get("err") == "DriverError":
            raise core.CheckError(f"{op}: {o}")
    ctx.traces += len(recs)
    if len(ctx.samples) < 6:
        ctx.samples += [{"pass": label or op, "record": r} for r in recs[:2]]
    ctx.notes[label or op] = {"traces": len(recs), "errors_seen": sorted({o["err"] for o in outs if isinstance(o, dict) and "err" in o})}
    if bad:
        ks = sorted(bad)[:12]
        again = [insts[k] for k in ks]
        _, recs2, bad2 = one_pass(ctx, again, op, spec, **kw)
        for j, k in enumerate(ks):
            if j in bad2:
                ctx.violation(label or op, bad2[j], insts[k], outs[k])
            else:
                ctx.notes.setdefault("unconfirmed", []).append({"pass": label or op, "why": bad[k], "case": insts[k]})
        # a failure that does not repeat on its own may need the history before it in the same process
        if not any(j in bad2 for j in range(len(ks))):
            _, _, bad3 = one_pass(ctx, insts, op, spec, **kw)
            for k in ks:
                if k in bad3:
                    ctx.violation((label or op) + " (depends on the runs before it)", bad3[k], insts[k], outs[k])
    return recs


def dumps(x):
    return json.dumps(x, indent=1, sort_keys=True, default=str)


def design(ctx, module, consts, label, wrong=(), timeout=600):
    """Explore the design `module` exhaustively in the world that `consts` gives; every variant in `wrong` plants a mistake
    in the design and must be refuted (otherwise the promises of the design would be empty)."""
    s0 = ctx.states
    _, out = core.run_tlc(ctx, module, {**consts, "Variant": "none"}, timeout=timeout, args=["-deadlock"], ok_codes=(0, 12, 13))
    if "No error has been found" not in out:
        raise core.CheckError(f"the design {module} does not keep its promises:\n" + out[-2500:])
    ctx.notes[label] = {"distinct states": ctx.last_states, "constants": {k: str(v) for k, v in consts.items()}, "refuted variants": list(wrong)}
    for v in wrong:
        _, out = core.run_tlc(ctx, module, {**consts, "Variant": v}, timeout=timeout, args=["-deadlock"], ok_codes=(0, 12, 13))
        if "is violated" not in out:
            raise core.CheckError(f"the design {module} with the mistake {v!r} keeps all its promises")
    return ctx.states - s0
