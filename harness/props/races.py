"""C13: data races under ThreadSanitizer, and thread-count independence.

Race groups.  ThreadSanitizer cannot run inside PyPy, so while the real Python
code of the library runs (time steps, filters, solvers, ...), the compiled-kernel
call is replaced by a recorder: it keeps each kernel's generated C code, the
memory layout of all arrays (including aliasing between them) and the scalars.
The recorded sequence is replayed in a C++ program built from the same code with
-fsanitize=thread, on fresh memory of the same layout, with OpenMP regions run on
real threads by native/gompshim.c.  Concurrent kernel calls from several Python
threads are also recorded and their footprints compared.

Thread groups.  The library's own builds: every thread count against the serial
kernel on the same inputs.
"""
import contextlib
import os
import re
import subprocess
import threading
import time

import numpy as np

import registry as R
from core import Inconclusive, Violation, digest, pick_shape
from sessions import Call, Instance, same_result, sizes

RT = {"f32": np.float32, "f64": np.float64}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BYNAME = {s.name: s for s in R.SPECS}
COUNTS = (1, 2, 3, 4, 5, 8, 16)


def groups(prop, tier):
    out = []
    for s in R.SPECS:
        n = 4
        chunks = [list(range(i, min(i + n, len(s.variants))))
                  for i in range(0, len(s.variants), n)]
        for ci, ch in enumerate(chunks):
            k = (len(s.name) + ci) % 2
            for j, rt in enumerate(RT):
                if tier == "thorough" or j == k:
                    out.append({"name": f"race/{s.name}/{rt}/{ci}", "spec": s.name, "rt": rt,
                                "variants": ch, "cost": 3 + s.cost * len(ch) * 0.7})
                if tier == "thorough" or j != k:
                    out.append({"name": f"threads/{s.name}/{rt}/{ci}", "spec": s.name, "rt": rt,
                                "variants": ch, "cost": 1 + s.cost * len(ch)})
    out.append({"name": "race/poisson", "cost": 8.0})
    for rt in RT:
        out.append({"name": f"threads/poisson/{rt}", "rt": rt, "cost": 8.0})
    if tier == "thorough":
        out = [{**g, "name": f"{g['name']}#{k}"} for g in out for k in range(3)]
    return out


def run(mon, rng, g, tier):
    what = g["name"].split("#")[0].split("/")
    if what[0] == "race":
        if what[1] == "poisson":
            race_poisson(mon, rng, tier)
        else:
            race_spec(mon, rng, g, tier)
    elif what[1] == "poisson":
        threads_poisson(mon, rng, RT[g["rt"]], tier)
    else:
        threads_spec(mon, rng, g, tier)


# ------------------------------------------------------------------ recording


class Recorder:
    def __init__(self):
        self.kernels = []          # (function name, code, parameters, {params by name})
        self.index = {}
        self.cases = []            # list of lists of call records
        self.lock = threading.Lock()
        self.active = {}
        self.conflict = None
        self.main = threading.get_ident()
        self.overlaps = 0

    def register(self, ast):
        from pystencils.backends.cbackend import generate_c

        old = ast.function_name
        ast.function_name = "KERNEL_NAME"
        code = generate_c(ast)
        ast.function_name = old
        params = ast.get_parameters()
        if code not in self.index:
            self.index[code] = len(self.kernels)
            self.kernels.append((code, params))
        written = {f.name for f in ast.fields_written}
        return self.index[code], params, written

    def begin(self, label):
        self.cases.append({"label": label, "calls": []})

    def call(self, k, params, written, kwargs):
        fields, scalars = {}, {}
        for name, v in kwargs.items():
            if isinstance(v, np.ndarray):
                ptr = v.__array_interface__["data"][0]
                lo = ptr + sum((n - 1) * s for n, s in zip(v.shape, v.strides) if s < 0)
                hi = ptr + sum((n - 1) * s for n, s in zip(v.shape, v.strides) if s > 0)
                fields[name] = (ptr, lo, hi + v.itemsize, v.shape, v.strides, v.itemsize,
                                v.dtype.char)
            else:
                scalars[name] = float(v)
        rec = (k, fields, scalars)
        me = threading.get_ident()
        with self.lock:
            for other, (of, ow) in self.active.items():
                self.overlaps += 1
                for n, f in fields.items():
                    for m, o in of.items():
                        if (n in written or m in ow) and f[1] < o[2] and o[1] < f[2]:
                            self.conflict = (n, m)
            self.active[me] = (fields, written)
            self.cases[-1]["calls"].append(rec)
        if me != self.main:
            time.sleep(0.005)      # keep the window open for other Python threads
        with self.lock:
            self.active.pop(me, None)


@contextlib.contextmanager
def recording():
    """Kernels generated inside are recorded instead of compiled."""
    import pystencils.cpu.kernelcreation as kc
    from pystencils.kernel_wrapper import KernelWrapper

    rec = Recorder()

    def fake(ast, custom_backend=None):
        k, params, written = rec.register(ast)

        def kernel(**kwargs):
            rec.call(k, params, written, kwargs)

        return KernelWrapper(kernel, params, ast)

    orig = kc.make_python_function
    kc.make_python_function = fake
    try:
        yield rec
    finally:
        kc.make_python_function = orig


# -------------------------------------------------------------------- replay


def driver_source(rec):
    src = ["#include <cstdint>", "#include <cmath>", "#include <cstdio>", "#include <cstdlib>",
           "#define RESTRICT", "#define FUNC_PREFIX static",
           'extern "C" long shim_regions(void); extern "C" long shim_threads(void);',
           'extern "C" int shim_widest(void);',
           "template<class T> static void fill(void* p, size_t n, unsigned s) { T* q=(T*)p;"
           " for (size_t i=0;i<n/sizeof(T);i++) { s=s*1664525u+1013904223u;"
           " q[i]=(T)((double)(s>>8)/8388608.0-1.0);} }"]
    for i, (code, params) in enumerate(rec.kernels):
        src.append(re.sub(r"\bKERNEL_NAME\b", f"kernel_{i}", code))
    main = []
    for ci, case in enumerate(rec.cases):
        spans = sorted((f[1], f[2], f[6]) for c in case["calls"] for f in c[1].values())
        blocks = []
        for lo, hi, ch in spans:
            if blocks and lo < blocks[-1][1]:
                blocks[-1][1] = max(hi, blocks[-1][1])
            else:
                blocks.append([lo, hi, ch])
        body = []
        for bi, (lo, hi, ch) in enumerate(blocks):
            ct = {"f": "float", "d": "double"}.get(ch)
            if ct is None:
                raise Inconclusive(f"array element type {ch} not handled in replay")
            body.append(f"char* b{bi}=(char*)malloc({hi - lo}); "
                        f"fill<{ct}>(b{bi},{hi - lo},{ci * 131 + bi + 1}u);")

        def pointer(f, ct):
            for bi, (lo, hi, ch) in enumerate(blocks):
                if lo <= f[1] and f[2] <= hi:
                    return f"({ct}*)(b{bi}+{f[0] - lo})"
            raise AssertionError

        for k, fields, scalars in case["calls"]:
            args = []
            for p in rec.kernels[k][1]:
                if p.is_field_pointer:
                    ct = "float" if fields[p.field_name][6] == "f" else "double"
                    args.append(pointer(fields[p.field_name], ct))
                elif p.is_field_shape:
                    f = fields[p.symbol.field_names[0]]
                    args.append(str(f[3][p.symbol.coordinate]) + "LL")
                elif p.is_field_stride:
                    f = fields[p.symbol.field_name]
                    args.append(str(f[4][p.symbol.coordinate] // f[5]) + "LL")
                elif p.symbol.name in scalars:
                    args.append(repr(scalars[p.symbol.name]))
                else:
                    raise Inconclusive(f"parameter {p.symbol} not handled in replay")
            body.append(f"kernel_{k}({', '.join(args)});")
        body += [f"free(b{bi});" for bi in range(len(blocks))]
        src.append(f"static void case_{ci}() {{\n" + "\n".join(body) + "\n}")
        main.append(f'fprintf(stderr,"CASE {ci}\\n"); case_{ci}();')
    src.append("int main() {" + "\n".join(main) +
               '\nprintf("%ld %ld %d\\n", shim_regions(), shim_threads(), shim_widest()); }')
    return "\n".join(src)


CANARY = """#include <cstdio>
extern "C" long shim_regions(void);
int main() { double a[64]; for (int i=0;i<64;i++) a[i]=i;
#pragma omp parallel num_threads(4)
{
#pragma omp for schedule( static )
for (long i=1;i<64;i++) a[i]=a[i]+a[i-1];
}
printf("%f\\n", a[63]); }
"""
_state = {}


def compile_driver(mon, work, name, src):
    shim = os.path.join(work, "gompshim.o")
    if not os.path.exists(shim):
        run_tool(["gcc", "-O1", "-g", "-fPIC", "-fsanitize=thread", "-c",
                  os.path.join(HERE, "native", "gompshim.c"), "-o", shim])
    cpp, obj, exe = (os.path.join(work, name + e) for e in (".cpp", ".o", ""))
    with open(cpp, "w") as f:
        f.write(src)
    run_tool(["g++", "-O1", "-g", "-std=c++11", "-fopenmp", "-fsanitize=thread", "-c", cpp, "-o",
              obj])
    # linked without -fopenmp: the runtime is the shim
    run_tool(["g++", "-fsanitize=thread", obj, shim, "-lpthread", "-lm", "-o", exe])
    return exe


def run_tool(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Inconclusive(f"{' '.join(cmd[:6])}: {r.stderr[-1500:]}")


def execute(exe, times=1):
    env = dict(os.environ, TSAN_OPTIONS="halt_on_error=0:exitcode=0:history_size=4:"
                                        "report_thread_leaks=0:second_deadlock_stack=0")
    out = []
    for _ in range(times):
        try:
            r = subprocess.run([exe], capture_output=True, text=True, env=env, timeout=300)
        except subprocess.TimeoutExpired:
            raise Inconclusive("race replay timed out")
        if r.returncode:
            raise Inconclusive(f"race replay failed rc={r.returncode}: {r.stderr[-800:]}")
        out.append(r)
    return out


def canary(mon):
    if "canary" in _state:
        return
    exe = compile_driver(mon, mon.work, "canary", CANARY)
    r = execute(exe)[0]
    if "data race" not in r.stderr:
        raise Inconclusive("race canary not reported: instrumentation is not active")
    _state["canary"] = True
    mon.count("canary_reports")


def replay(mon, rec, name, tier):
    if rec.conflict:
        raise Violation("data-race", between="Python threads", arrays=rec.conflict)
    if not rec.cases or not rec.kernels:
        raise Inconclusive("no kernel call was recorded")
    canary(mon)
    exe = compile_driver(mon, mon.work, re.sub(r"\W", "_", name)[-60:], driver_source(rec))
    for r in execute(exe, 1 if tier == "quick" else 3):
        regions, threads, widest = map(int, r.stdout.split())
        mon.count("parallel_regions_run_under_tsan", regions)
        mon.count("threads_run_under_tsan", threads)
        mon.seen("widest_region", widest)
        if "WARNING: ThreadSanitizer" in r.stderr:
            pre = r.stderr[:r.stderr.index("WARNING: ThreadSanitizer")]
            ci = int(re.findall(r"CASE (\d+)", pre)[-1]) if "CASE" in pre else None
            lines = [x.strip() for x in r.stderr.splitlines()
                     if x.strip().startswith(("Write", "Read", "Previous", "#0", "SUMMARY"))]
            raise Violation("data-race", case=rec.cases[ci]["label"] if ci is not None else None,
                            report=lines[:8])
    mon.count("kernels_replayed", len(rec.kernels))
    mon.count("kernel_calls_replayed", sum(len(c["calls"]) for c in rec.cases))
    os.remove(exe)


def race_spec(mon, rng, g, tier):
    spec, rt = BYNAME[g["spec"]], RT[g["rt"]]
    lo, hi = sizes(spec, "quick")
    with recording() as rec:
        for vi in g["variants"]:
            o = dict(spec.variants[vi])
            for th in ((2, 3, 8) if tier == "quick" else (2, 3, 4, 7, 8, 16)):
                fixed = spec.has_fixed and bool(rng.random() < 0.3)
                shp = pick_shape(rng, spec.dim, lo, max(hi, lo + 3))
                inst = Instance(mon, rng, spec, o, rt, th, fixed, shp)
                shapes = [None] if inst.shape else [None, (lo + 1,) * spec.dim,
                                                    (th + 2 * lo,) + (lo + 2,) * (spec.dim - 1)]
                for s in shapes:
                    c = Call(mon, rng, inst, tier, shape=s)
                    rec.begin(c.describe())
                    c.run(mon)
                    mon.case(c.signature(), int(np.prod(c.shape)) > 2, c.describe())
                    mon.seen("shape", c.shape)
    replay(mon, rec, g["name"], tier)


def race_poisson(mon, rng, tier):
    import sopht.numeric.eulerian_grid_ops as e

    with recording() as rec:
        for d in (2, 3):
            for th in (2, 3, 8):
                rt = RT["f32"] if rng.random() < 0.5 else RT["f64"]
                shape = tuple(int(rng.integers(3, 12 if d == 2 else 7)) for _ in range(d))
                kw = dict(zip(("grid_size_z", "grid_size_y", "grid_size_x")[3 - d:], shape))
                s = mon.call("solver", getattr(e, f"UnboundedPoissonSolverPYFFTW{d}D"),
                             x_range=1.0, real_t=rt, num_threads=th, **kw)
                rhs = rng.standard_normal(shape).astype(rt)
                sol = np.empty(shape, rt)
                rec.begin({"solver": d, "threads": th, "shape": shape})
                mon.call("solve", s.solve, solution_field=sol, rhs_field=rhs)
                mon.case(("solver", d, th, shape, digest(rhs)), True)
                if d == 3:
                    v = rng.standard_normal((3, *shape)).astype(rt)
                    rec.begin({"vector solver": d, "threads": th, "shape": shape})
                    mon.call("vector solve", s.vector_field_solve,
                             solution_vector_field=np.empty_like(v), rhs_vector_field=v)
    replay(mon, rec, "poisson", tier)


# ------------------------------------------------- thread-count independence


def threads_spec(mon, rng, g, tier):
    spec, rt = BYNAME[g["spec"]], RT[g["rt"]]
    lo, hi = sizes(spec, "quick")
    for vi in g["variants"]:
        o = dict(spec.variants[vi])
        shape = pick_shape(rng, spec.dim, lo, max(hi, lo + 3))
        if rng.random() < 0.3:
            shape = (lo,) + shape[1:]          # fewer rows than threads
        fixed = spec.has_fixed and bool(rng.random() < 0.3)
        base = Instance(mon, rng, spec, o, rt, False, fixed, shape)
        counts = ([int(c) for c in rng.choice(COUNTS, 2, replace=False)] if tier == "quick"
                  else list(COUNTS))
        others = [Instance(mon, rng, spec, o, rt, th, fixed, shape) for th in counts]
        for _ in range(2 if tier == "quick" else 6):
            shp = None
            if base.shape is None and rng.random() < 0.5:
                shp = (int(rng.integers(lo, lo + 3)),) + tuple(
                    int(rng.integers(lo, 40)) for _ in range(spec.dim - 1))
            ref = Call(mon, rng, base, tier, shape=shp)
            model = ref.model()
            ref.run(mon)
            for inst in others:
                for _ in range(2):
                    c = Call(mon, rng, inst, tier, shape=ref.shape, same_inputs_as=ref)
                    c.run(mon)
                    same_result(mon, ref, c, model, "thread-count-changes-result")
                    mon.count("thread_comparisons")
                    mon.case((c.signature(), "threads"), c.nontrivial(model), c.describe())
                    mon.seen("thread_count", inst.threads)


def threads_poisson(mon, rng, rt, tier):
    import sopht.numeric.eulerian_grid_ops as e

    eps = float(np.finfo(rt).eps)
    for d in (2, 3):
        for _ in range(2 if tier == "quick" else 6):
            shape = tuple(int(rng.integers(2, 20 if d == 2 else 10)) for _ in range(d))
            kw = dict(zip(("grid_size_z", "grid_size_y", "grid_size_x")[3 - d:], shape))
            cls = getattr(e, f"UnboundedPoissonSolverPYFFTW{d}D")
            rhs = rng.standard_normal(shape).astype(rt)
            ref = None
            for th in (1, 2, 3, 8):
                s = mon.call("solver", cls, x_range=1.0, real_t=rt, num_threads=th, **kw)
                for _ in range(2):
                    sol = np.full(shape, np.nan, rt)
                    mon.call("solve", s.solve, solution_field=sol, rhs_field=rhs)
                    if ref is None:
                        ref = sol.copy()
                    scale = float(np.abs(ref).max()) + float(np.abs(rhs).sum()) * 0.5 / rhs.size
                    mon.require(float(np.abs(sol - ref).max()) <= 300 * eps * scale,
                                "thread-count-changes-solution", dim=d, threads=th, shape=shape,
                                diff=float(np.abs(sol - ref).max()), scale=scale)
                    mon.count("thread_comparisons")
                mon.seen("thread_count", th)
                mon.case(("poisson", d, th, shape, digest(rhs)), True)
