"""C26: long use holds arrays, descriptors and threads bounded.

Every operation of the library is repeated on objects that have been used
before, with fresh arrays that nobody else keeps; after a warm-up, nothing may
pile up.  Counted, process-wide: live NumPy arrays and their bytes (walking the
collector's objects), the arrays handed over that are still alive (weak
references), open descriptors, operating-system threads, and descriptors left
on the files of a save or load that has returned.
"""
import gc
import os
import shutil
import weakref

import numpy as np

import registry as R
from core import pick_shape
from props import files as F
from props import ib as B
from props import solvers as S
from sessions import Call, Instance, THREADS, sizes

RT = {"f32": np.float32, "f64": np.float64}
BYNAME = {s.name: s for s in R.SPECS}
SLACK = 12                 # arrays: caches of a few recent ones are nobody's loss
THREAD_SLACK = 20          # an OpenMP team grows and shrinks with the thread count


def groups(prop, tier):
    out = []
    again = 1 if tier == "quick" else 6
    for k in range(again):
        for rt in RT:
            for i in range(0, len(R.SPECS), 3):
                part = R.SPECS[i:i + 3]
                out.append({"name": f"kernels/{rt}/{i // 3}#{k}", "kind": "kernels", "rt": rt,
                            "specs": [s.name for s in part],
                            "cost": 2.0 + sum(s.cost for s in part)})
            for d in (2, 3):
                for kind, cost in (("unbounded", 2.0), ("fastdiag", 1.5), ("fft", 1.5),
                                   ("virtual", 3.0), ("brinkmann", 2.0), ("grids", 2.0),
                                   ("io", 3.0), ("construct", 4.0)):
                    out.append({"name": f"{kind}/{d}d/{rt}#{k}", "kind": kind, "rt": rt, "dim": d,
                                "cost": cost})
    return out


def run(mon, rng, g, tier):
    rt = RT[g["rt"]]
    if g["kind"] == "kernels":
        kernels(mon, rng, [BYNAME[n] for n in g["specs"]], rt, tier)
    else:
        globals()[g["kind"]](mon, rng, g["dim"], rt, tier)


# ------------------------------------------------------------- counting


def fds():
    """The open descriptors of this process, by what they refer to."""
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink(f"/proc/self/fd/{n}"))
        except OSError:
            pass
    return out


def census():
    for _ in range(3):
        gc.collect()
    n = size = 0
    for o in gc.get_objects():
        # on PyPy, pyfftw.empty_aligned loses the byte view it cuts each array from; the
        # library has no byte arrays of its own
        if isinstance(o, np.ndarray) and o.dtype != np.int8:
            n += 1
            size += o.nbytes
    return {"arrays": n, "bytes": size, "descriptors": len(fds()),
            "threads": len(os.listdir("/proc/self/task"))}


class Meter:
    """Counts before and after a stretch of repeated use."""

    def __init__(self, mon, what, warm):
        self.mon, self.what, self.warm = mon, what, warm
        self.refs = []
        self.largest = 1 << 12
        self.calls = 0

    def hand(self, *arrays):
        """Arrays that the caller is about to hand over and to forget."""
        for a in arrays:
            self.refs.append(weakref.ref(a))
            self.largest = max(self.largest, a.nbytes)

    def run(self, once, n, objects=1):
        """Do `once` until warm, then n more times; judge the difference."""
        for _ in range(self.warm):
            once()
        before = census()
        self.refs.clear()
        for _ in range(n):
            once()
            self.calls += 1
        after = census()
        mon = self.mon
        mon.count("repeated_calls", n)
        mon.count("censuses", 2)
        slack = SLACK + 2 * objects
        assert n >= 3 * slack / 2, (n, slack)
        held = sum(r() is not None for r in self.refs)
        mon.count("arrays_followed", len(self.refs))
        ctx = {"operation": self.what, "calls": n, "before": before, "after": after,
               "handed_over": len(self.refs), "still_alive": held}
        mon.require(held <= slack, "arrays-kept-alive", **ctx)
        mon.require(after["arrays"] - before["arrays"] <= slack, "arrays-pile-up", **ctx)
        mon.require(after["bytes"] - before["bytes"] <= slack * self.largest, "array-bytes-pile-up",
                    **ctx)
        mon.require(after["descriptors"] - before["descriptors"] <= 4, "descriptors-pile-up", **ctx)
        mon.require(after["threads"] - before["threads"] <= THREAD_SLACK, "threads-pile-up", **ctx)
        mon.case((self.what, n, mon.group and mon.group["name"], mon.seed), True, ctx)


# ------------------------------------------------------------- grid kernels


def plain(rng, shape, dt):
    """An array on its own, or a view into one."""
    if rng.random() < 0.3:
        return np.ones(tuple(n + 2 for n in shape), dt)[tuple(slice(1, -1) for _ in shape)]
    return np.ones(shape, dt)


def kernels(mon, rng, specs, rt, tier):
    for spec in specs:
        lo, hi = sizes(spec, "quick")
        hi = max(hi, lo + 3)
        insts = []
        vs = [spec.variants[i] for i in rng.permutation(len(spec.variants))[:2]]
        for o in vs:
            for fixed in ([False, True] if spec.has_fixed else [False]):
                insts.append(Instance(
                    mon, rng, spec, R.random_options(rng, spec, o, (hi,) * spec.dim), rt,
                    THREADS[int(rng.integers(0, len(THREADS)))], fixed,
                    pick_shape(rng, spec.dim, lo, hi)))
        some = [pick_shape(rng, spec.dim, lo, hi) for _ in range(4)]
        meter = Meter(mon, " / ".join(i.describe() for i in insts), 2 * len(some))
        turn = [0]

        def once():
            turn[0] += 1
            for inst in insts:
                shape = inst.shape or some[turn[0] % len(some)]
                c = Call(mon, rng, inst, "quick", shape=shape,
                         layout="exact" if inst.fixed else ("exact", "strided")[turn[0] % 2])
                args = {n: a.arr for n, a in c.arrs.items()}
                meter.hand(*{id(a): a for a in args.values()}.values())
                mon.call(inst.describe(), inst.kernel, **args, **c.scalars)
                mon.count("kernel_calls")

        # as many rounds as it takes for one leaking kernel to show
        meter.run(once, 40 if tier == "quick" else 200, objects=len(insts))


# ------------------------------------------------------------- solvers


def unbounded(mon, rng, d, rt, tier):
    s = S.Unbounded(mon, rng, d, rt, "quick", {}, shape=S.shapes(rng, d, "quick"))
    meter = Meter(mon, s.describe(), 6)

    def once():
        vec = d == 3 and rng.random() < 0.5
        shp = ((3,) if vec else ()) + s.shape
        a, b = plain(rng, shp, rt), plain(rng, shp, rt)
        meter.hand(a, b)
        if vec:
            mon.call(s.describe(), s.s.vector_field_solve, solution_vector_field=b,
                     rhs_vector_field=a)
        else:
            mon.call(s.describe(), s.s.solve, solution_field=b, rhs_field=a)
        mon.count("solves")

    meter.run(once, 60 if tier == "quick" else 400)


def fastdiag(mon, rng, d, rt, tier):
    s = S.FastDiag(mon, rng, d, rt, "quick", {})
    meter = Meter(mon, s.describe(), 6)

    def once():
        vec = d == 3 and rng.random() < 0.5
        shp = ((3,) if vec else ()) + s.shape
        a, b = plain(rng, shp, rt), np.ones(shp, rt)
        meter.hand(a, b)
        if vec:
            mon.call(s.describe(), s.s.vector_field_solve, solution_vector_field=b,
                     rhs_vector_field=a)
        else:
            mon.call(s.describe(), s.s.solve, solution_field=b, rhs_field=a)
        mon.count("solves")

    meter.run(once, 60 if tier == "quick" else 400)


def fft(mon, rng, d, rt, tier):
    p = S.Plan(mon, rng, d, rt, "quick", S.shapes(rng, d, "quick"))
    meter = Meter(mon, p.describe(), 6)

    def once():
        f, g = S.aligned(p.shape, rt), S.aligned(p.shape, rt)
        H = S.aligned(p.half, p.ct)
        f[...] = 1
        meter.hand(f, g, H)
        k = int(rng.integers(0, 3))
        if k == 0:
            mon.call(p.describe(), p.p.fft_ifft_plan_kernel, fourier_field=H,
                     inv_fourier_field=g, field=f)
        elif k == 1:
            mon.call(p.describe(), p.scipy, H, g, f, num_threads=p.threads)
        else:
            mon.call(p.describe(), p.p.fft_plan, input_array=f, output_array=H)
            mon.call(p.describe(), p.p.ifft_plan, input_array=H, output_array=g)
        mon.count("transforms")

    meter.run(once, 60 if tier == "quick" else 400)


# ------------------------------------------------------------- immersed boundaries


def body_arrays(rng, b):
    """Fresh arrays with the contents of b's own."""
    return (np.array(b.flow.arr), np.array(b.pos.arr), np.array(b.vel.arr),
            np.zeros(b.out.arr.shape, b.rt))


def virtual(mon, rng, d, rt, tier):
    bodies = [B.Virtual(mon, rng, d, rt)]
    bodies.append(B.Virtual(mon, rng, d, rt, like=bodies[0]))
    for b in bodies:
        meter = Meter(mon, f"virtual {b.ctx()}", 4)

        def once():
            u, x, v, f = body_arrays(rng, b)
            meter.hand(u, x, v, f)
            kw = {"eul_grid_velocity_field": u, "lag_grid_position_field": x,
                  "lag_grid_velocity_field": v}
            k = int(rng.integers(0, 3))
            if k == 0:
                mon.call("lag", b.obj.compute_interaction_force_on_lag_grid, **kw)
            else:
                mon.call("forcing", (b.obj.compute_interaction_forcing if k == 1 else
                                     b.obj.compute_interaction_force_on_eul_and_lag_grid),
                         eul_grid_forcing_field=f, **kw)
            mon.call("time_step", b.obj.time_step, dt=rt(0.001))
            mon.count("interactions")

        meter.run(once, 40 if tier == "quick" else 200)


def brinkmann(mon, rng, d, rt, tier):
    b = B.Brinkmann(mon, rng, d, rt)
    meter = Meter(mon, f"brinkmann {b.ctx()}", 4)

    def once():
        u, x, v, f = body_arrays(rng, b)
        meter.hand(u, x, v, f)
        mon.call("forcing", b.obj.compute_interaction_forcing, eul_grid_penalisation_flux=f,
                 eul_grid_velocity_field=u, lag_grid_position_field=x, lag_grid_velocity_field=v,
                 dt=rt(0.01))
        mon.count("interactions")

    meter.run(once, 40 if tier == "quick" else 200)


def grids(mon, rng, d, rt, tier):
    c = B.Com(mon, rng, d, rt)
    es, ls = B.shapes(c)
    meter = Meter(mon, f"communicator {c.ctx()}", 4)

    def once():
        sup, near = np.empty_like(c.support.arr), np.empty_like(c.near.arr)
        w, x = np.empty_like(c.w.arr), np.array(c.pos.arr)
        eul, lag = np.ones(es, rt), np.ones(ls, rt)
        meter.hand(sup, near, w, x, eul, lag)
        mon.call("support kernel", c.com.local_eulerian_grid_support_of_lagrangian_grid_kernel,
                 local_eul_grid_support_of_lag_grid=sup, nearest_eul_grid_index_to_lag_grid=near,
                 lag_positions=x)
        mon.call("weights kernel", c.com.interpolation_weights_kernel, interp_weights=w,
                 local_eul_grid_support_of_lag_grid=sup)
        mon.call("interpolation", c.com.eulerian_to_lagrangian_grid_interpolation_kernel,
                 lag_grid_field=lag, eul_grid_field=eul, interp_weights=w,
                 nearest_eul_grid_index_to_lag_grid=near)
        mon.call("spreading", c.com.lagrangian_to_eulerian_grid_interpolation_kernel,
                 eul_grid_field=eul, lag_grid_field=lag, interp_weights=w,
                 nearest_eul_grid_index_to_lag_grid=near)
        mon.count("interactions")

    meter.run(once, 40 if tier == "quick" else 200)


# ------------------------------------------------------------- files


def closed(mon, work, what):
    """The call has returned: nobody holds the files it used."""
    mon.count("closed_file_checks")
    left = [p for p in fds() if p.startswith(work)]
    mon.require(not left, "file-left-open", call=what, files=left)


def io(mon, rng, d, rt, tier):
    work = os.path.join(os.path.realpath(mon.work), mon.group["name"].replace("/", "_"))
    os.makedirs(work)
    home = os.getcwd()
    os.chdir(work)
    try:
        w = F.World(mon, rng, d, rt)
        while not (w.eul or w.lag):
            w = F.World(mon, rng, d, rt)
        good = os.path.join(work, "good.h5")
        mon.call("save", w.io.save, h5_file_name=good, time=0.5)
        closed(mon, work, "save")
        reader = w.mirror(rng, subset=False)
        # objects whose loads must be refused, each for another reason
        wrong = []
        m = w.mirror(rng, subset=False)
        m.io.add_as_lagrangian_fields_for_io(lagrangian_grid=np.zeros((d, 2), rt),
                                             lagrangian_grid_name="not in the file")
        wrong.append(("a grid the file lacks", m))
        for gname, L in list(w.lag.items())[:1]:
            m = w.mirror(rng, subset=False)
            m.io.add_as_lagrangian_fields_for_io(
                lagrangian_grid=m.lag[gname]["grid"].arr, lagrangian_grid_name=gname,
                not_in_the_file=np.zeros(L["grid"].arr.shape[1], rt))
            wrong.append(("a grid's field the file lacks", m))
        if w.eul_defined:
            m = w.mirror(rng, subset=False)
            m.io.add_as_eulerian_fields_for_io(not_in_the_file=np.zeros(w.grid, rt))
            wrong.append(("a field the file lacks", m))
        if w.eul:
            wrong.append(("another spacing", F.fresh_like(mon, rng, w, dx=w.dx * rt(1.5))))
            wrong.append(("another size", F.fresh_like(
                mon, rng, w, grid=tuple(n + 1 for n in w.grid))))
        text = os.path.join(work, "text.h5")
        with open(text, "w") as f:
            f.write("not a data file\n" * 40)
        absent = os.path.join(work, "absent.h5")
        turn = [0]

        def discard(stem):
            """A snapshot nobody needs any more: the data and its descriptions."""
            for n in os.listdir(work):
                if n == f"{stem}.h5" or (n.startswith(f"{stem}_") and n.endswith(".xmf")):
                    os.unlink(os.path.join(work, n))

        def one_save():
            turn[0] += 1
            stem = f"s{turn[0] if turn[0] % 3 else 0}"     # a new name, or the same one again
            mon.call("save", w.io.save, h5_file_name=os.path.join(work, stem + ".h5"),
                     time=float(turn[0]))
            mon.count("saves")
            closed(mon, work, "save")
            discard(stem)

        def one_load():
            turn[0] += 1
            name = good
            if turn[0] % 3:
                name = os.path.join(work, f"l{turn[0]}.h5")
                shutil.copy(good, name)
            mon.call("load", reader.io.load, h5_file_name=name)
            mon.count("loads")
            closed(mon, work, "load")
            if name != good:
                os.unlink(name)

        def one_refusal():
            turn[0] += 1
            why, m = wrong[turn[0] % len(wrong)]
            mon.expect_reject(f"load: {why}", m.io.load, h5_file_name=good)
            mon.seen("refusal", why)
            mon.count("refused_loads")
            closed(mon, work, f"refused load: {why}")
            path = text if turn[0] % 2 else absent
            mon.expect_reject(f"load: {os.path.basename(path)}", reader.io.load, h5_file_name=path)
            closed(mon, work, f"refused load: {os.path.basename(path)}")
            # ... and the file can be read and replaced straight away
            if turn[0] % 5 == 0:
                mon.call("load", reader.io.load, h5_file_name=good)
                mon.call("save", w.io.save, h5_file_name=good, time=0.5)
                closed(mon, work, "save after a refused load")

        n = 40 if tier == "quick" else 150
        for what, op in (("save", one_save), ("load", one_load), ("refused load", one_refusal)):
            for _ in range(6):
                op()
            before = len(os.listdir(work))
            Meter(mon, f"{what} {w.describe()}", 0).run(op, n)
            mon.require(len(os.listdir(work)) - before <= 4, "files-pile-up", call=what,
                        files=sorted(os.listdir(work))[:30])
    finally:
        os.chdir(home)
        shutil.rmtree(work, ignore_errors=True)


# ------------------------------------------------------------- building and dropping objects


def construct(mon, rng, d, rt, tier):
    """Objects of the same configuration, made, used and dropped again and again."""
    from sopht.numeric import eulerian_grid_ops as e
    from sopht.numeric.eulerian_grid_ops import poisson_solver_2d as p2, poisson_solver_3d as p3
    shape = S.shapes(rng, d, "quick")
    size = dict(zip(("grid_size_z", "grid_size_y", "grid_size_x")[3 - d:], shape))
    free = getattr(e, f"UnboundedPoissonSolverPYFFTW{d}D")
    fast = getattr({2: p2, 3: p3}[d], f"FastDiagPoissonSolver{d}D")
    plan = getattr(e, f"FFTPyFFTW{d}D")
    n_lag = int(rng.integers(2, 12))
    g = B.Geometry(rng, d, rt)

    def poisson():
        s = mon.call("construct", free, **size, x_range=1.0, num_threads=1, real_t=rt)
        a, b = np.ones(shape, rt), np.ones(shape, rt)
        mon.call("solve", s.solve, solution_field=b, rhs_field=a)

    def diagonal():
        s = mon.call("construct", fast, **size, dx=0.25, real_t=rt)
        a, b = np.ones(shape, rt), np.ones(shape, rt)
        mon.call("solve", s.solve, solution_field=b, rhs_field=a)

    def transform():
        mon.call("construct", plan, **size, num_threads=1, real_t=rt)

    def feedback():
        mon.call("construct", B.ib().VirtualBoundaryForcing, virtual_boundary_stiffness_coeff=1.0,
                 virtual_boundary_damping_coeff=1.0, grid_dim=d, dx=g.dx, num_lag_nodes=n_lag,
                 real_t=rt)

    def implicit():
        mon.call("construct", B.brinkmann_class(), brinkmann_coeff=1.0, grid_dim=d, dx=g.dx,
                 eul_grid_coord_shift=g.shift, num_lag_nodes=n_lag, interp_kernel_width=2,
                 real_t=rt)

    def registry():
        w = mon.call("IO()", F.io_class(), dim=d, real_dtype=rt)
        mon.call("define", w.define_eulerian_grid, origin=np.zeros(d, rt), dx=np.ones(d, rt),
                 grid_size=np.array(shape))
        mon.call("add", w.add_as_eulerian_fields_for_io, f=np.ones(shape, rt))
        mon.call("add", w.add_as_lagrangian_fields_for_io, lagrangian_grid=np.ones((d, 5), rt),
                 lagrangian_grid_connect=True)

    for what, op in (("unbounded solver", poisson), ("fast-diagonalisation solver", diagonal),
                     ("FFT plans", transform), ("virtual boundary forcing", feedback),
                     ("Brinkmann forcing", implicit), ("IO", registry)):
        mon.seen("constructed", what)
        mon.count("objects_constructed", 32)
        Meter(mon, f"constructing and dropping: {what} {d}d {np.dtype(rt).name} {shape}",
              2).run(op, 32)
