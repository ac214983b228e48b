"""C12: AddressSanitizer and UBSan on the generated kernels.

Kernels are compiled with -fsanitize=address,undefined; every array is its own
exactly sized heap block (so each side has red zones), and the sanitizer log is
read after every call.  A deliberately out-of-bounds kernel, built by the same
code generator, must be reported first: otherwise the run counts as inconclusive.
"""
import glob
import os

import numpy as np

import registry as R
from core import Inconclusive, Violation, pick_shape
from props.stencils import minimal_shapes
from sessions import Call, make_instances, sizes

RT = {"f32": np.float32, "f64": np.float64}
CHUNK = 4


def groups(prop, tier):
    out = []
    for s in R.SPECS:
        chunks = [list(range(i, min(i + CHUNK, len(s.variants))))
                  for i in range(0, len(s.variants), CHUNK)]
        for ci, ch in enumerate(chunks):
            # quick: alternate the precision between chunks; addresses do not depend on it
            for k, rt in enumerate(RT):
                if tier == "quick" and (ci + k + len(s.name)) % 2:
                    continue
                out.append({"name": f"{s.name}/{rt}/{ci}", "spec": s.name, "rt": rt,
                            "variants": ch, "cost": s.cost * len(ch) + 1})
    out.append({"name": "poisson", "cost": 12.0})
    if tier == "thorough":
        out = [{**g, "name": f"{g['name']}#{k}"} for g in out for k in range(3)]
    return out


BYNAME = {s.name: s for s in R.SPECS}
_state = {}


class Log:
    def __init__(self, work):
        self.pattern = os.path.join(work, "asan.*")
        self.read = {}

    def new(self):
        text = ""
        for p in glob.glob(self.pattern):
            with open(p, errors="replace") as f:
                f.seek(self.read.get(p, 0))
                t = f.read()
                self.read[p] = f.tell()
            text += t
        return text


def canary(mon, log):
    """The sanitizer must see an out-of-bounds read in a kernel made wrong on purpose."""
    import pystencils as ps

    a, b = ps.fields("a, b : double[1D]")
    k = ps.create_kernel([ps.Assignment(a[0], b[3])], ghost_layers=0).compile()
    log.new()
    k(a=np.zeros(16), b=np.zeros(16))
    t = log.new()
    if "AddressSanitizer" not in t:
        raise Inconclusive("sanitizer canary not reported: instrumentation is not active")
    mon.count("canary_reports")


def judge(mon, log, what):
    t = log.new()
    mon.count("sanitizer_log_checks")
    if t.strip():
        lines = [x for x in t.splitlines() if "ERROR:" in x or "runtime error" in x
                 or x.startswith(("READ of", "WRITE of")) or "is located" in x]
        kind = "undefined-behaviour" if "runtime error" in t else "out-of-bounds-access"
        raise Violation(kind, report=lines[:8] or t[:800], call=what)


def run(mon, rng, g, tier):
    if "log" not in _state:
        _state["log"] = Log(mon.work)
        canary(mon, _state["log"])
    log = _state["log"]
    if g["name"].split("#")[0] == "poisson":
        return poisson(mon, rng, tier, log)
    spec, rt = BYNAME[g["spec"]], RT[g["rt"]]
    insts = make_instances(mon, rng, spec, tier, (rt,), big=0,
                           variants=[dict(spec.variants[i]) for i in g["variants"]])
    if spec.min_n == 4 or spec.family in ("stretching", "filter", "curl", "diffusion"):
        pass
    lo, hi = sizes(spec, tier)
    # every shape the generators accept, down to fewer cells than the stencil is wide
    tiny = 1 if spec.family not in ("penalise",) and "boundaries" not in spec.name else lo
    for inst in insts:
        shapes = [None] * (2 if tier == "quick" else 8)
        if inst.shape is None:
            shapes += minimal_shapes(rng, spec, lo)
            if not (spec.family == "elementwise"):
                shapes += minimal_shapes(rng, spec, max(1, tiny))[:2]
            shapes += [pick_shape(rng, spec.dim, lo, max(hi, lo + 3)) for _ in range(3)]
        for s in shapes:
            c = Call(mon, rng, inst, tier, shape=s, layout="exact", alias=False)
            c.run(mon)
            judge(mon, log, c.describe())
            c.judge_frame(mon)
            big = int(np.prod(c.shape))
            mon.case(c.signature(), big > 1, c.describe())
            mon.seen("shape", c.shape)
            mon.count("elements_in_arrays", big)


def poisson(mon, rng, tier, log):
    """The grid operations inside the unbounded solvers."""
    import sopht.numeric.eulerian_grid_ops as e

    for d in (2, 3):
        for rt in (np.float32, np.float64):
            for _ in range(2 if tier == "quick" else 5):
                shape = tuple(int(rng.integers(2, 9)) for _ in range(d))
                th = int(rng.integers(1, 5))
                kw = dict(zip(("grid_size_z", "grid_size_y", "grid_size_x")[3 - d:], shape))
                cls = getattr(e, f"UnboundedPoissonSolverPYFFTW{d}D")
                s = mon.call(f"{cls.__name__} {shape}", cls, x_range=1.0, real_t=rt,
                             num_threads=th, **kw)
                rhs = rng.standard_normal(shape).astype(rt)
                sol = np.empty(shape, rt)
                for _ in range(2):
                    mon.call("solve", s.solve, solution_field=sol, rhs_field=rhs)
                    judge(mon, log, {"solver": cls.__name__, "shape": shape, "threads": th})
                    mon.case((cls.__name__, shape, th, float(rhs.sum())), True)
                    mon.count("kernel_calls", 3)
                if d == 3:
                    v = rng.standard_normal((3, *shape)).astype(rt)
                    w = np.empty_like(v)
                    mon.call("vector solve", s.vector_field_solve, solution_vector_field=w,
                             rhs_vector_field=v)
                    judge(mon, log, {"solver": cls.__name__, "vector": True, "shape": shape})
