"""C25: composed flow solvers over many steps, restarted from files."""
import copy
import os
import shutil

import numpy as np

from core import Arr, Violation, digest

RT = {"f32": np.float32, "f64": np.float64}
TH = (1, 2, 3, 4)
BAND = 4


def groups(prop, tier):
    n = 1 if tier == "quick" else 4
    return [{"name": f"{d}d/{rt}/{k}/{body}", "dim": d, "rt": rt, "body": body, "cost": 1.0 * d}
            for d in (2, 3) for rt in RT for k in range(n) for body in ("penalised", "forced")]


def run(mon, rng, g, tier):
    work = os.path.join(mon.work, "runs", g["name"].replace("/", "_"))
    os.makedirs(work)
    home = os.getcwd()
    os.chdir(work)
    try:
        simulate(mon, rng, g["dim"], RT[g["rt"]], g["body"], tier)
    finally:
        os.chdir(home)
        shutil.rmtree(work, ignore_errors=True)


class Setup:
    """What a simulation is about; nothing here belongs to the library."""

    def __init__(self, rng, d, rt, body, tier):
        self.d, self.rt, self.body = d, rt, body
        lo, hi = {2: (26, 44), 3: (14, 22)}[d]
        self.shape = tuple(int(x) for x in rng.integers(lo, hi, d))
        self.x_range = float(rng.choice([1.0, 2.0, 0.3, 7.5]))
        self.dx = rt(self.x_range / self.shape[-1])
        self.threads = int(rng.choice(TH))
        self.fixed = bool(rng.random() < 0.5)
        self.rk3 = bool(rng.random() < 0.5)
        self.nu = rt(10.0 ** rng.uniform(-4, -2) * self.x_range)
        self.stream = [rt(v) for v in (rng.uniform(-1, 1, d) if rng.random() < 0.7
                                       else np.zeros(d))]
        self.vec = () if d == 2 else (3,)
        dx = float(self.dx)
        self.centres = [(np.arange(n) + 0.5) * dx for n in self.shape]      # z, y, x order
        self.mid = np.array([n * dx / 2 for n in self.shape])
        self.radius = 0.16 * min(self.shape) * dx
        self.coords = np.stack(np.meshgrid(*self.centres, indexing="ij"))
        self.n = int(rng.integers(4, 20))
        if d == 2:
            t = np.sort(rng.uniform(0, 2 * np.pi, self.n))
            unit = np.stack([np.cos(t), np.sin(t)])
        else:
            unit = rng.standard_normal((3, self.n))
            unit /= np.sqrt((unit ** 2).sum(0))
        self.markers = (self.mid[::-1, None] + self.radius * unit).astype(rt)
        self.marker_velocity = rng.uniform(-0.2, 0.2, (d, self.n)).astype(rt)
        r = np.sqrt(((self.coords - self.mid.reshape((-1,) + (1,) * d)) ** 2).sum(0))
        self.level = (self.radius - r).astype(rt)
        self.damped = int(rng.integers(0, 4))          # width of the boundary damping zone
        self.filter = None
        if d == 3 and (rng.random() < 0.5 or body == "penalised"):
            self.filter = (int(rng.integers(1, 4)),
                           str(rng.choice(["multiplicative", "convolution"])))

    def elsewhere(self, rng):
        """The same simulation, generated with other options."""
        s = copy.copy(self)
        s.threads = int(rng.choice(TH))
        s.fixed = bool(rng.random() < 0.5)
        return s

    def vorticity(self, rng):
        """A few compact blobs."""
        w = np.zeros(self.vec + self.shape)
        dx = float(self.dx)
        for _ in range(int(rng.integers(1, 5))):
            c = self.mid + rng.uniform(-0.15, 0.15, self.d) * np.array(self.shape) * dx
            r2 = ((self.coords - c.reshape((-1,) + (1,) * self.d)) ** 2).sum(0)
            R = float(rng.uniform(2.0, 4.0)) * dx
            blob = np.where(r2 < R * R, np.exp(-1 / np.maximum(1 - r2 / (R * R), 1e-9)), 0.0)
            a = rng.uniform(-1, 1, self.vec) if self.vec else float(rng.uniform(0.2, 1)) * rng.choice(
                [-1, 1])
            w += (np.reshape(a, self.vec + (1,) * self.d) if self.vec else a) * blob * 20
        return w.astype(self.rt)

    def describe(self):
        return {"dim": self.d, "real": np.dtype(self.rt).name, "shape": self.shape,
                "x_range": self.x_range, "threads": self.threads, "fixed": self.fixed,
                "body": self.body, "nu": repr(self.nu), "damped": self.damped,
                "filter": self.filter, "rk3": self.rk3}


class Flow:
    """One simulation: kernels, buffers, solver, body."""

    def __init__(self, mon, rng, s):
        from sopht.numeric import eulerian_grid_ops as e
        from sopht.numeric import immersed_boundary_ops as ib
        self.mon, self.s = mon, s
        d, rt = s.d, s.rt
        size = s.shape if s.fixed else False
        k = dict(real_t=rt, num_threads=s.threads, fixed_grid_size=size)
        kv = dict(k, field_type="vector")

        def gen(name, **kw):
            mon.count("kernels_generated")
            return mon.call(name, getattr(e, name), **kw)

        names = ("grid_size_z", "grid_size_y", "grid_size_x")[3 - d:]
        self.poisson = mon.call("poisson", getattr(e, f"UnboundedPoissonSolverPYFFTW{d}D"),
                                **dict(zip(names, s.shape)), x_range=s.x_range,
                                num_threads=s.threads, real_t=rt)
        adv = f"gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel_{d}d"
        dif = f"gen_diffusion_timestep_euler_forward_pyst_kernel_{d}d"
        self.adv = gen(adv, **(k if d == 2 else kv))
        self.dif = gen(dif, **(k if d == 2 else kv))
        self.curl = gen("gen_outplane_field_curl_pyst_kernel_2d" if d == 2
                        else "gen_curl_pyst_kernel_3d", **k)
        self.add = gen(f"gen_add_fixed_val_pyst_kernel_{d}d", **kv)
        shape = s.shape

        def arr(*lead):
            a = Arr(rng, (*lead, *shape), rt, "guard")
            a.arr[...] = np.nan if rng.random() < 0.5 else rng.uniform(-1e3, 1e3, a.arr.shape)
            a.snapshot()
            return a
        self.w = arr(*s.vec)
        self.psi = arr(*s.vec)
        self.u = arr(d)
        self.flux = arr()
        self.vflux = arr(3) if d == 3 else None
        self.v2 = arr(d)
        self.v3 = arr(d)
        self.buf = self.buf2 = self.mid = None
        if d == 3:
            if s.rk3:
                self.mid = arr(3)
                self.stretch = gen("gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d",
                                   midstep_buffer_vector_field=self.mid.arr, **k)
            else:
                self.stretch = gen("gen_vorticity_stretching_timestep_euler_forward_pyst_kernel_3d",
                                   **k)
        if s.filter:
            self.buf, self.buf2 = arr(), arr()
            self.smooth = gen("gen_laplacian_filter_kernel_3d", filter_order=s.filter[0],
                              filter_type=s.filter[1], filter_flux_buffer=self.buf.arr,
                              field_buffer=self.buf2.arr, **kv)
        grids = {f"{a}_grid_field": g.astype(rt) for a, g in zip("xyz", s.coords[::-1])}
        self.damp = gen(f"gen_penalise_field_boundary_pyst_kernel_{d}d", width=s.damped, dx=s.dx,
                        **grids, **(k if d == 2 else kv))
        if s.body == "penalised":
            self.pen = gen(f"gen_brinkmann_penalise_pyst_kernel_{d}d", **kv)
            self.upd = gen(f"gen_update_vorticity_from_penalised_velocity_pyst_kernel_{d}d", **k)
            self.chi = np.full(shape, np.nan, rt)
            phi = gen(f"gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel_{d}d",
                      blend_width=2 * s.dx, **k)
            mon.call("characteristic function", phi, char_func_field=self.chi,
                     level_set_field=s.level.copy())
            self.v3.arr[...] = 0
        else:
            self.upd = gen(f"gen_update_vorticity_from_velocity_forcing_pyst_kernel_{d}d", **k)
            b = -0.1 * float(s.dx) ** (d - 1)
            self.body = mon.call("VirtualBoundaryForcing", ib.VirtualBoundaryForcing,
                                 virtual_boundary_stiffness_coeff=rt(b * 0.5),
                                 virtual_boundary_damping_coeff=rt(b), grid_dim=d, dx=s.dx,
                                 num_lag_nodes=s.n, real_t=rt, num_threads=s.threads)
            self.pos, self.vel = s.markers.copy(), s.marker_velocity.copy()
        self.t = 0.0

    # -- the pieces of one step
    def velocity(self):
        s, m = self.s, self.mon
        if s.d == 2:
            m.call("solve", self.poisson.solve, solution_field=self.psi.arr, rhs_field=self.w.arr)
        else:
            m.call("solve", self.poisson.vector_field_solve, solution_vector_field=self.psi.arr,
                   rhs_vector_field=self.w.arr)
        m.call("curl", self.curl, curl=self.u.arr, field=self.psi.arr,
               prefactor=s.rt(0.5 / s.dx))
        m.call("add stream", self.add, sum_field=self.u.arr, vector_field=self.u.arr,
               fixed_vals=list(s.stream))

    def feedback(self, dt):
        s, m = self.s, self.mon
        pref = s.rt(0.5 / s.dx)
        if s.body == "penalised":
            m.call("penalise", self.pen, penalised_vector_field=self.v2.arr,
                   penalty_factor=s.rt(float(dt) * 50.0), char_field=self.chi,
                   penalty_vector_field=self.v3.arr, vector_field=self.u.arr)
            m.call("update", self.upd, vorticity_field=self.w.arr,
                   penalised_velocity_field=self.v2.arr, velocity_field=self.u.arr, prefactor=pref)
            return np.abs(self.v2.arr).max() + np.abs(self.u.arr).max()
        m.call("interaction", self.body.compute_interaction_forcing,
               eul_grid_forcing_field=self.v2.arr, eul_grid_velocity_field=self.u.arr,
               lag_grid_position_field=self.pos, lag_grid_velocity_field=self.vel)
        m.call("body step", self.body.time_step, dt=dt)
        m.call("update", self.upd, vorticity_field=self.w.arr, velocity_forcing_field=self.v2.arr,
               prefactor=s.rt(dt * pref))
        return float(dt) * np.abs(self.v2.arr).max()

    def stretching(self, dt):
        if self.s.d == 3:
            self.mon.call("stretch", self.stretch, vorticity_field=self.w.arr,
                          velocity_field=self.u.arr, vorticity_stretching_flux_field=self.vflux.arr,
                          dt_by_2_dx=self.s.rt(dt / (2 * self.s.dx)))

    def advect(self, dt):
        s = self.s
        key = "field" if s.d == 2 else "vector_field"
        self.mon.call("advect", self.adv, **{key: self.w.arr}, advection_flux=self.flux.arr,
                      velocity=self.u.arr, dt_by_dx=s.rt(dt / s.dx))

    def filtered(self, dt):
        if self.s.filter:
            self.mon.call("filter", self.smooth, vector_field=self.w.arr)

    def damping(self, dt):
        key = "field" if self.s.d == 2 else "vector_field"
        self.mon.call("damp", self.damp, **{key: self.w.arr})

    def diffuse(self, dt):
        s = self.s
        key = "field" if s.d == 2 else "vector_field"
        self.mon.call("diffuse", self.dif, **{key: self.w.arr}, diffusion_flux=self.flux.arr,
                      nu_dt_by_dx2=s.rt(s.nu * dt / (s.dx * s.dx)))

    def guards(self, ctx):
        for n in ("w", "psi", "u", "flux", "v2", "v3", "vflux", "buf", "buf2", "mid"):
            a = getattr(self, n)
            if a is not None:
                if not a.guards_ok():
                    raise Violation("memory-outside-array-changed", array=n, **ctx)
        self.mon.count("frame_checks", 7)

    def register(self):
        from sopht.utils.IO import IO
        s = self.s
        io = self.mon.call("IO", IO, dim=s.d, real_dtype=s.rt)
        self.mon.call("define", io.define_eulerian_grid, origin=np.full(s.d, s.dx / 2, s.rt),
                      dx=np.full(s.d, s.dx, s.rt), grid_size=np.array(s.shape))
        self.mon.call("add eulerian", io.add_as_eulerian_fields_for_io, vorticity=self.w.arr)
        if s.body == "forced":
            self.mon.call("add lagrangian", io.add_as_lagrangian_fields_for_io,
                          lagrangian_grid=self.pos, lagrangian_grid_name="body",
                          mismatch=self.body.lag_grid_position_mismatch_field,
                          velocity=self.vel)
        return io


def dt_for(s, u, rng):
    umax = float(np.abs(u).max()) + 1e-12
    dx = float(s.dx)
    return s.rt(min(0.25 * dx / umax, 0.4 / s.d * dx * dx / float(s.nu),
                    0.05 * dx) * rng.uniform(0.5, 1.0))


def sums(a, s):
    return a.astype(np.float64).reshape((-1,) + s.shape).reshape(len(a) if s.vec else 1, -1).sum(-1)


def band_mass(a, s):
    b = np.abs(a.astype(np.float64)).copy()
    b[(Ellipsis,) + (slice(BAND, -BAND),) * s.d] = 0
    return b.reshape(3 if s.vec else 1, -1).sum(-1)


def conserved(mon, what, before, after, scale, leak, s, ctx):
    """Circulation per component, up to rounding and what can leave the domain."""
    eps = float(np.finfo(s.rt).eps)
    n = float(np.prod(s.shape))
    mass = np.abs(before.astype(np.float64)).reshape(3 if s.vec else 1, -1).sum(-1)
    room = 4 * eps * (mass + n * scale) + leak
    gap = np.abs(sums(after, s) - sums(before, s))
    mon.count("circulation_checks", len(gap))
    unit = eps * (mass + n * scale) + 1e-30
    mon.ratio[what] = max(mon.ratio.get(what, 0.0), float(((gap - leak) / unit).max()))
    mon.require(bool((gap <= room).all()), "circulation-not-conserved", by=what, gap=gap.tolist(),
                room=room.tolist(), **ctx)


def solenoidal(mon, f, ctx):
    s = f.s
    u = f.u.arr.astype(np.float64)
    div = 0
    inner = tuple(slice(2, -2) for _ in range(s.d))
    for c in range(s.d):
        ax = s.d - 1 - c
        hi = tuple(slice(3, -1) if a == ax else slice(2, -2) for a in range(s.d))
        lo = tuple(slice(1, -3) if a == ax else slice(2, -2) for a in range(s.d))
        div = div + u[c][hi] - u[c][lo]
    assert div.shape == u[0][inner].shape
    eps = float(np.finfo(s.rt).eps)
    pref = 0.5 / float(s.dx)
    room = 8 * eps * (pref * 4 * s.d * float(np.abs(f.psi.arr).max())
                       + float(np.abs(u).max()) + 1e-30)
    worst = float(np.abs(div).max())
    mon.count("divergence_cells", int(div.size))
    mon.ratio["divergence"] = max(mon.ratio.get("divergence", 0.0), 8 * worst / room)
    mon.require(worst <= room, "velocity-not-divergence-free", worst=worst, room=room, **ctx)


def close(mon, what, a, b, scale, tol, ctx):
    with np.errstate(all="ignore"):
        gap = np.abs(a.astype(np.float64) - b.astype(np.float64))
    mon.count("restart_comparisons")
    mon.count("elements_compared", int(gap.size))
    worst = float(gap.max()) if gap.size else 0.0
    mon.ratio["restart " + what] = max(mon.ratio.get("restart " + what, 0.0),
                                       64 * worst / (tol * scale + 1e-300))
    mon.require(worst <= tol * scale + 1e-30, "restarted-run-differs", field=what, worst=worst,
                room=tol * scale, **ctx)


def green_norm(s):
    """2-norm of Green's function over the doubled domain, times the cell volume."""
    dx = float(s.dx)
    r2 = 0.0
    for a, n in enumerate(s.shape):
        o = (np.arange(-n, n) * dx) ** 2
        r2 = r2 + o.reshape((-1,) + (1,) * (s.d - 1 - a))
    r = np.sqrt(np.maximum(r2, (0.3 * dx) ** 2))
    G = np.log(r) / (2 * np.pi) if s.d == 2 else 1 / (4 * np.pi * r)
    return float(np.sqrt((G * G).sum())) * dx ** s.d


def one_step(mon, f, dt, ctx, judge, shadow=None):
    """A step of f; the restarted twin takes it too, from the same velocity."""
    s = f.s
    runs = [f] + ([shadow] if shadow is not None else [])
    w0 = f.w.arr.copy()

    def stage(name, fn, scale, leaks, conserve=True):
        before = f.w.arr.copy()
        extra = [fn(r) for r in runs][0]
        if judge and conserve:
            leak = leaks * band_mass(before, s)
            conserved(mon, name, before, f.w.arr, scale(extra), leak, s, ctx)
    eps = float(np.finfo(s.rt).eps)
    pref = 0.5 / float(s.dx)
    umax = float(np.abs(f.u.arr).max())
    wmax = float(np.abs(w0).max())
    cfl = float(dt) / float(s.dx) * umax
    stage("feedback", lambda r: r.feedback(dt), lambda x: 4 * pref * float(x) + wmax, 0.0)
    stage("stretching", lambda r: r.stretching(dt), lambda x: 0.0, 0.0, conserve=False)
    wmax = max(wmax, float(np.abs(f.w.arr).max()))
    stage("advection", lambda r: r.advect(dt), lambda x: wmax * (1 + 8 * cfl), 8 * cfl)
    lo, hi = axis_minmax(f.w.arr, s)
    stage("diffusion", lambda r: r.diffuse(dt), lambda x: 3 * wmax, 2.0)
    l2, h2 = axis_minmax(f.w.arr, s)
    if judge:
        mon.count("filter_stages", int(s.filter is not None))
        room = 16 * eps * wmax + 1e-30
        mon.count("maximum_principle_checks", len(lo))
        mon.require(bool((h2 <= hi + room).all() and (l2 >= lo - room).all()),
                    "diffusion-raised-the-maximum", before=[lo.tolist(), hi.tolist()],
                    after=[l2.tolist(), h2.tolist()], **ctx)
    stage("filter", lambda r: r.filtered(dt), lambda x: 8 * wmax, 8.0)
    before = f.w.arr.copy()
    stage("damping", lambda r: r.damping(dt), lambda x: 0.0, 0.0, conserve=False)
    if judge:
        w = s.damped
        core = (Ellipsis,) + (slice(w, -w or None),) * s.d
        mon.count("damping_stages", int(w > 0))
        mon.require(np.ascontiguousarray(before[core]).tobytes()
                    == np.ascontiguousarray(f.w.arr[core]).tobytes(),
                    "damping-outside-its-zone", **ctx)
    for r in runs:
        r.guards(ctx)
        r.t += float(dt)


def axis_minmax(a, s):
    b = a.astype(np.float64).reshape(3 if s.vec else 1, -1)
    return b.min(-1), b.max(-1)


def simulate(mon, rng, d, rt, body, tier):
    s = Setup(rng, d, rt, body, tier)
    a = Flow(mon, rng, s)
    twin = Flow(mon, rng, s.elsewhere(rng))    # kernels and buffers of its own
    a.w.arr[...] = s.vorticity(rng)
    eps = float(np.finfo(rt).eps)
    steps = {("quick", 2): 60, ("quick", 3): 20, ("thorough", 2): 300, ("thorough", 3): 80}[tier, d]
    gn = green_norm(s)
    logn = np.log2(np.prod(s.shape) * 2.0 ** d)
    shadow = None
    born = 0
    mon.seen("setup", s.describe())
    for k in range(steps):
        ctx = {"setup": s.describe(), "step": k}
        if shadow is None and k > 0 and rng.random() < 0.25:
            if rng.random() < 0.2:
                twin = Flow(mon, rng, s.elsewhere(rng))
            shadow = restart(mon, rng, a, twin, k, ctx)
            born = k
        wnorm = float(np.sqrt((a.w.arr.astype(np.float64) ** 2).sum()))
        a.velocity()
        solenoidal(mon, a, ctx)
        if shadow is not None:
            age = k - born
            shadow.velocity()
            scale = gn * wnorm + float(np.abs(a.psi.arr).max())
            tol = 64 * eps * logn * (1 + age)
            close(mon, "stream function", a.psi.arr, shadow.psi.arr, scale, tol, ctx)
            close(mon, "velocity", a.u.arr, shadow.u.arr,
                  4 * 0.5 / float(s.dx) * scale + float(np.abs(a.u.arr).max()), tol, ctx)
            # from here on identical, so that the upwind switches agree
            shadow.u.arr[...] = a.u.arr
        dt = dt_for(s, a.u.arr, rng)
        one_step(mon, a, dt, ctx, True, shadow)
        mon.count("steps")
        mon.require(bool(np.isfinite(a.w.arr).all()), "vorticity-not-finite", **ctx)
        if shadow is not None:
            wmax = float(np.abs(a.w.arr).max()) + float(dt) * 0.5 / float(s.dx) * float(
                np.abs(a.u.arr).max() / float(dt))
            close(mon, "vorticity", a.w.arr, shadow.w.arr, wmax, 64 * eps * (2 + k - born), ctx)
            if body == "forced":
                x, y = (np.asarray(r.body.lag_grid_position_mismatch_field) for r in (a, shadow))
                close(mon, "position mismatch", x, y, float(np.abs(a.u.arr).max()) * a.t + 1.0,
                      64 * eps * (2 + k - born), ctx)
            if k - born >= 6 and rng.random() < 0.3:
                shadow = None
        mon.case((digest(a.w.arr, a.u.arr), k), bool(np.any(a.w.arr)),
                 ctx if k in (3, 30) else None)


def restart(mon, rng, a, twin, k, ctx):
    """A saves; its twin, with garbage in every buffer, loads and takes over."""
    name = f"restart{k}.h5"
    before = a.w.arr.copy()
    mon.call("save", a.register().save, h5_file_name=name, time=a.t)
    mon.require(before.tobytes() == a.w.arr.tobytes(), "save-modified-field", **ctx)
    for n in ("w", "psi", "u", "flux", "vflux", "v2", "buf", "buf2", "mid"):
        x = getattr(twin, n)
        if x is not None:
            x.arr[...] = np.nan if rng.random() < 0.5 else rng.uniform(-1e3, 1e3, x.arr.shape)
    if a.s.body == "forced":
        twin.pos[...] = 0
        twin.vel[...] = 7
        twin.body.lag_grid_position_mismatch_field[...] = -3
    t = mon.call("load", twin.register().load, h5_file_name=name)
    mon.require(t == a.t, "restart-time-differs", got=repr(t), expected=a.t, **ctx)
    twin.t = float(t)
    pairs = [("vorticity", a.w.arr, twin.w.arr)]
    if a.s.body == "forced":
        pairs += [("markers", a.pos, twin.pos), ("marker velocity", a.vel, twin.vel),
                  ("mismatch", a.body.lag_grid_position_mismatch_field,
                   twin.body.lag_grid_position_mismatch_field)]
    for n, x, y in pairs:
        mon.require(np.ascontiguousarray(x).tobytes() == np.ascontiguousarray(y).tobytes(),
                    "restart-state-differs", field=n, **ctx)
    os.unlink(name)
    mon.count("restarts")
    return twin
