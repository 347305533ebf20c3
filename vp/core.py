"""Spec-driven generation (TLC -simulate), replay into the real code, conformance by TLC."""
import concurrent.futures as cf
import json
import os
import pathlib
import re
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import build as B

VERIF = B.VERIF
REPO = B.REPO
SPEC = VERIF / "spec"
NCPU = os.cpu_count() or 4
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


class EvalError(CheckError):
    """TLC could not evaluate the specification on the given records."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        base = VERIF / "build" / "run"
        base.mkdir(parents=True, exist_ok=True)
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix=f"{prop}.", dir=base))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.nrun = 0
        self.violations = []

    def violation(self, where, why, case, observed=None):
        self.violations.append({"where": where, "why": list(why) if not isinstance(why, str) else [why],
                                "case": case, "observed": observed})

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def _cfgval(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(_cfgval(x) for x in sorted(v)) + "}"
    raise TypeError(v)


def run_tlc(ctx, module, consts=None, env=None, cfg_extra="", args=(), timeout=600, mode="check", workers=None,
            spec=None, heap="6g", ok_codes=(0,)):
    """Run TLC on spec/<module>.tla in a scratch copy of the spec directory; returns (messages, stdout)."""
    ctx.nrun += 1
    d = ctx.dir / f"tlc{ctx.nrun}"
    d.mkdir()
    for f in SPEC.glob("*.tla"):
        shutil.copy(f, d)
    base = (SPEC / f"{module}.cfg").read_text() if (SPEC / f"{module}.cfg").exists() else ""
    lines = []
    if consts:
        lines.append("CONSTANTS")
        lines += [f"  {k} = {_cfgval(v)}" for k, v in consts.items()]
    (d / "run.cfg").write_text(base + "\n" + "\n".join(lines) + "\n" + cfg_extra + "\n")
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={d}", "-cp", TLA_CP, "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", str(d / "meta"), "-workers", str(workers or NCPU),
           "-config", "run.cfg", *map(str, args), f"{module}.tla"]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC timeout on {module}")
    out = r.stdout
    msgs = []
    for line in out.splitlines():
        i = line.find('"@@')
        if i >= 0:
            msgs.append(json.loads(json.loads(line[i:])[2:]))
    if r.returncode not in ok_codes:
        tail = "\n".join(l for l in out.splitlines() if '"@@' not in l)
        kind = EvalError if r.returncode in (75, 76, 77, 151, 255, 1) and "VP_RECS" in (env or {}) else CheckError
        raise kind(f"TLC failed on {module} (exit {r.returncode}):\n{tail[-3500:]}\n{r.stderr[-1500:]}")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        ctx.transitions += int(m.group(1))
        ctx.states += int(m.group(2))
        ctx.last_states = int(m.group(2))
    else:
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            ctx.transitions += int(m.group(1))
            ctx.states += int(m.group(1))
    shutil.rmtree(d, ignore_errors=True)
    return msgs, out


def simulate(ctx, module, consts, num, seed=None, depth=1000, timeout=300):
    """Behaviours of a generator specification: `num` simulated behaviours, one JSON message each."""
    msgs, _ = run_tlc(ctx, module, consts,
                      args=["-simulate", f"num={num}", "-depth", depth, "-seed", ctx.seed if seed is None else seed],
                      workers=1, timeout=timeout)
    return msgs


def write_nd(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def matrix(n, edges):
    w = [[-1] * n for _ in range(n)]
    for u, v, c in edges:
        w[u][v] = w[v][u] = c
    return w


def conform(ctx, module, recs, consts=None, env=None, timeout=800, workers=None, cfg_extra=""):
    """Check recorded results against spec/<module>.tla.  Returns {record index: [reasons]}.

    An observation of a shape the specification cannot even be evaluated on (a vertex outside the graph, a
    missing field) is found by bisection and reported as one that no behaviour explains."""
    try:
        return conform1(ctx, module, recs, consts, env, timeout, workers, cfg_extra)
    except EvalError as e:
        if len(recs) == 1:
            return {0: ["the specification has no such observation: " + " ".join(re.sub(r"(?s).*?Error: ", "", str(e), count=1).split())[:300]]}
        out = {}
        h = len(recs) // 2
        for off, part in ((0, recs[:h]), (h, recs[h:])):
            if len(out) < 3:
                out.update({k + off: v for k, v in
                            conform(ctx, module, part, consts, env, timeout, workers, cfg_extra).items()})
        return out


def conform1(ctx, module, recs, consts=None, env=None, timeout=800, workers=None, cfg_extra=""):
    if not recs:
        return {}
    for i, r in enumerate(recs):
        r["k"] = i + 1
        if "edges" in r and "n" in r:
            r["w"] = matrix(r["n"], r["edges"])
    path = ctx.dir / f"recs{ctx.nrun}.ndjson"
    write_nd(path, recs)
    e = {"VP_RECS": str(path)}
    e.update(env or {})
    msgs, out = run_tlc(ctx, module, consts, e, timeout=timeout, workers=workers, cfg_extra=cfg_extra,
                        args=["-deadlock"])
    path.unlink()
    bad, seen = {}, set()
    for m in msgs:
        if "bad" in m:
            bad.setdefault(m["bad"] - 1, set()).add(m["why"])
        if "seen" in m:
            seen.add(m["seen"] - 1)
    # acceptance: every record must have been explained by the specification
    for i in range(len(recs)):
        if i not in seen and i not in bad:
            bad[i] = {"no behaviour of the specification explains this record"}
    return {k: sorted(v) for k, v in bad.items()}


# ---------------------------------------------------------------- replay

class Worker:
    def __init__(self, cmd, cwd, env=None):
        self.cmd, self.cwd, self.env = cmd, cwd, env
        self.p = None

    def start(self):
        self.cwd.mkdir(parents=True, exist_ok=True)
        (self.cwd / ".logs").mkdir(exist_ok=True)
        r, w = os.pipe()
        e = dict(os.environ)
        e.update(self.env or {})
        e["VP_FD"] = str(w)
        self.err = open(self.cwd / "stderr.txt", "ab")
        self.p = subprocess.Popen(self.cmd, cwd=self.cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                                  stderr=self.err, pass_fds=[w])
        try:  # code under test that takes memory without end must not bring down the other workers
            resource.prlimit(self.p.pid, resource.RLIMIT_DATA, (3 << 30, 3 << 30))
        except OSError:
            pass
        os.close(w)
        self.fd = r
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            try:
                self.p.stdin.close()
            except OSError:
                pass
            os.close(self.fd)
            self.err.close()
            self.p = None

    def ask(self, req, timeout):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.stop()
                return {"err": "hang", "detail": f"no answer within {timeout} s"}
            rd, _, _ = select.select([self.fd], [], [], min(left, 5))
            if rd:
                chunk = os.read(self.fd, 1 << 16)
                if not chunk:
                    rc = self.p.wait()
                    self.stop()
                    tail = (self.cwd / "stderr.txt").read_bytes()[-1500:].decode("utf8", "replace")
                    return {"err": "crash", "detail": f"exit {rc}", "stderr": tail}
                self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)


def _pyworker_env(ext):
    return {"PYTHONPATH": f"{REPO}:{VERIF}", "PYTHONDONTWRITEBYTECODE": "1", "VP_EXT": str(ext or ""),
            "VP_REPO": str(REPO), "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1",
            "OPLIB_ROOT": "/nonexistent", "TSPLIB_ROOT": "/nonexistent"}


def replay(ctx, op, reqs, ext=None, driver=None, timeout=90, nproc=None):
    """Run every request in the real code; `op` is 'module:function' of /verif/drv for Python, or the
    operation name of the C++ driver.  Crashes and hangs come back as records with `err`."""
    nproc = min(nproc or NCPU, max(1, len(reqs)))
    res = [None] * len(reqs)
    hangs = []

    def lane(j):
        cwd = ctx.dir / f"w{ctx.nrun}_{j}"
        if driver:
            w = Worker([str(driver)], cwd)
        else:
            w = Worker([B.PY, str(VERIF / "drv" / "worker.py")], cwd, _pyworker_env(ext))
        try:
            for i in range(j, len(reqs), nproc):
                if len(hangs) >= 4:
                    res[i] = {"err": "skipped"}
                    continue
                res[i] = w.ask({"op": op, "arg": reqs[i]}, timeout)
                if res[i].get("err") == "hang":
                    hangs.append(i)
        finally:
            w.stop()
            shutil.rmtree(cwd, ignore_errors=True)

    ctx.nrun += 1
    with cf.ThreadPoolExecutor(nproc) as ex:
        for f in [ex.submit(lane, j) for j in range(nproc)]:
            f.result()
    return res
