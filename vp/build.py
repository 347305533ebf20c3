"""Builds /repo's C++ sources (from its current working tree) against the SCIP library that ships
inside the PySCIPOpt wheel, with the headers of /verif/shim."""
import concurrent.futures as cf
import hashlib
import os
import pathlib
import shutil
import subprocess
import sysconfig

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VP_REPO", "/repo"))
PY = "/opt/vp/venv/bin/python"
SL = pathlib.Path("/opt/vp/venv/lib/python3.12/site-packages/pyscipopt.libs")
FLAGS = ["-std=c++17", "-O1", "-fPIC", "-w", "-DBOOST_ALL_DYN_LINK", "-D_GLIBCXX_ASSERTIONS",
         f"-I{VERIF}/shim", f"-I{REPO}/include"]
LIBS = ["-lboost_log", "-lboost_log_setup", "-lboost_thread", "-lboost_filesystem", "-lboost_system",
        "-lboost_graph", "-lyaml-cpp", "-lpthread"]
# not part of the project's own CMake target
SKIP = {"pygraph.cpp"}


class BuildError(Exception):
    pass


class LinkError(BuildError):
    pass


def scip_lib():
    return next(p for p in sorted(SL.iterdir()) if p.name.startswith("libscip"))


def _digest(paths, extra=()):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(str(p).encode() + b"\0" + p.read_bytes() + b"\0")
    for e in extra:
        h.update(e.encode() + b"\0")
    return h.hexdigest()[:24]


def _headers():
    return [p for d in (REPO / "include", VERIF / "shim") for p in d.rglob("*") if p.is_file()]


def build(name, sources, drivers=(), shared=False, pyinc=False, extra=()):
    """Compile sources + drivers into build/cache/<digest>/<name>; returns the path."""
    sources = [pathlib.Path(s) for s in sources]
    drivers = [pathlib.Path(d) for d in drivers]
    flags = list(FLAGS) + list(extra)
    if pyinc:
        flags.append("-I/usr/include/python3.12")
    key = _digest(_headers() + sources + drivers + list((VERIF / "drv").glob("*.hh")), flags + [name])
    out = VERIF / "build" / "cache" / key / name
    if out.exists():
        return out
    tmp = VERIF / "build" / f"tmp.{os.getpid()}.{name}"
    shutil.rmtree(tmp, ignore_errors=True)
    tmp.mkdir(parents=True)
    try:
        def comp(src):
            obj = tmp / (src.parent.name + "_" + src.name + ".o")
            r = subprocess.run(["g++", *flags, "-c", str(src), "-o", str(obj)], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(f"{src}: {r.stderr[-3000:]}")
            return obj
        allsrc = sorted(sources + drivers, key=lambda p: -p.stat().st_size)
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            objs = list(ex.map(comp, allsrc))
        cmd = ["g++", *(["-shared"] if shared else []), "-o", str(tmp / name), *map(str, objs),
               f"-L{SL}", f"-l:{scip_lib().name}", f"-Wl,-rpath,{SL}", *LIBS]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise LinkError(r.stderr[-3000:])
        out.parent.mkdir(parents=True, exist_ok=True)
        os.replace(tmp / name, out)
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def all_sources():
    return [p for p in sorted((REPO / "src").glob("*.cpp")) if p.name not in SKIP]


def build_ext():
    return build("libpypctsp.so", all_sources() + [REPO / "pctsp" / "pypctsp.cpp"], shared=True, pyinc=True)


SMALL = ["graph.cpp", "data_structures.cpp", "preprocessing.cpp", "logger.cpp", "heuristic.cpp"]
GROUPS = {"graph": (["op_walk.cpp", "op_search.cpp", "op_rename.cpp"], SMALL),
          "solver": (["op_model.cpp", "op_cover.cpp", "op_solve.cpp", "op_config.cpp"], None)}


def build_driver(group):
    """A C++ replay driver: drv_main.cpp, the operations of the group and the repository sources they need
    (all of them when the short list does not link)."""
    ops, need = GROUPS[group]
    drv = [VERIF / "drv" / f for f in ["drv_main.cpp", *ops]]
    kw = dict(drivers=drv, extra=[f"-I{VERIF}/drv"])
    if need:
        try:
            return build(f"drv_{group}", [REPO / "src" / f for f in need if (REPO / "src" / f).exists()], **kw)
        except LinkError:
            pass
    return build(f"drv_{group}_all", all_sources(), **kw)
