#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree.

exit 0: it held on everything explored; exit 1: violated (VIOLATION line); exit 2: the check itself failed."""
import importlib
import json
import os
import pathlib
import sys
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF))
sys.dont_write_bytecode = True
from vp import build as B  # noqa: E402
from vp import core, flow, props  # noqa: E402


def known_findings(prop):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [x for x in json.loads(f.read_text())["findings"] if x["property"] == prop and x["kind"] == "known"]


def matches(finding, v):
    """A listed finding covers a violation only if the failing input is the listed one."""
    return finding["case"] == v["case"] and any(w in finding["why"] for w in v["why"])


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    fn, meta = props.get(prop)
    t0 = time.time()
    ctx = core.Ctx(prop, tier, seed)
    try:
        fn(ctx)
    except B.BuildError as e:
        print(f"check error: the repository does not build here: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()
    kf = known_findings(prop)
    new, known = [], []
    for v in ctx.violations:
        hit = [f for f in kf if matches(f, v)]
        (known if hit else new).append((v, hit))
    for f in kf:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": meta.get("level", "model_checking"),
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.traces,
                       "samples": ctx.samples or ["none"], "details": ctx.notes},
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    if ev["level"] == "exploration":
        ev["coverage"]["evaluations"] = ctx.traces
        ev["coverage"]["distinct_nontrivial"] = ctx.traces
        ev["coverage"]["rule"] = meta.get("rule", "")
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    if new:
        r = d / "replay"
        r.mkdir(exist_ok=True)
        path = r / f"{prop}.json"
        path.write_text(flow.dumps([v for v, _ in new]))
        for v, _ in new[:4]:
            print(f"  {v['where']}: {'; '.join(map(str, v['why']))[:300]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"OK {prop}: {ctx.traces} traces of the real code, {ctx.states} specification states, {time.time() - t0:.1f} s")
    return 0


sys.exit(main())
