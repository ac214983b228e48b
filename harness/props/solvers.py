"""C15-C17: Poisson solvers and FFT helpers against direct evaluation.

Several solver/plan objects are alive together and used in random order on
changing data; each result is judged against a sum written down from the
definition (no FFT, no shared code).
"""
import numpy as np

from core import Arr, Violation, digest, fill, real_dtype

RT = {"f32": np.float32, "f64": np.float64}
CT = {np.float32: np.complex64, np.float64: np.complex128}
TH = (1, 2, 3, 4, 8, 5, 6)


def groups(prop, tier):
    n = {"quick": {"C15": 10, "C16": 40, "C17": 40}, "thorough": {"C15": 60, "C16": 120, "C17": 120}}
    return [{"name": f"{d}d/{rt}/{k}", "dim": d, "rt": rt, "k": k, "cost": 2.0 * d}
            for d in (2, 3) for rt in RT for k in range(n[tier][prop])]


def run(mon, rng, g, tier):
    {"C15": unbounded, "C16": fastdiag, "C17": fft}[mon.prop](mon, rng, g["dim"], RT[g["rt"]], tier)


def shapes(rng, d, tier, lo=2, big=0.0):
    hi = {2: 22, 3: 9}[d] if tier == "quick" else {2: 40, 3: 13}[d]
    k = rng.random()
    if rng.random() < big:
        return tuple(int(rng.integers(*{2: (40, 150), 3: (16, 40)}[d])) for _ in range(d))
    if k < 0.15:
        return tuple(int(rng.integers(lo, lo + 3)) for _ in range(d))
    if k < 0.3:
        return (int(rng.integers(lo, hi)),) * d
    if k < 0.45:
        s = [int(rng.integers(lo, 6)) for _ in range(d)]
        s[int(rng.integers(0, d))] = hi + int(rng.integers(0, hi))
        return tuple(s)
    return tuple(int(rng.integers(lo, hi + 1)) for _ in range(d))


def fill_rhs(rng, a, points=None):
    k = rng.random()
    if points or k < 0.25:               # one or two point sources, corners included
        a[...] = 0
        for _ in range(points or int(rng.integers(1, 3))):
            idx = tuple(int(rng.choice([0, n - 1, int(rng.integers(0, n))])) for n in a.shape)
            a[idx] += float(rng.uniform(-3, 3))
        return "point"
    if k < 0.35:                         # only the faces
        fill(rng, a, "normal")
        a[tuple(slice(1, -1) for _ in a.shape)] = 0
        return "faces"
    return fill(rng, a)


def long_history(mon, rng, what, once):
    """Hundreds of calls in a row, which the calls after them must not notice."""
    n = int(rng.integers(60, 320))

    def loop():
        for _ in range(n):
            once()

    mon.call(what, loop)
    mon.count("bursts")
    return n


def judge(mon, kind, got, want, bound, dtype, **ctx):
    """|got - want| <= bound (already in absolute terms)."""
    err = np.abs(np.asarray(got).astype(want.dtype) - want)
    bound = np.broadcast_to(bound, err.shape)
    mon.count("elements_compared", err.size)
    bad = ~(err <= bound)
    with np.errstate(all="ignore"):
        r = np.nanmax(np.where(bound > 0, err / bound, 0))
    mon.ratio[kind] = max(mon.ratio.get(kind, 0.0), float(r))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Violation("wrong-value", what=kind, index=list(i), got=str(np.asarray(got)[i]),
                        expected=str(want[i]), bound=float(bound[i]), n_bad=int(bad.sum()), **ctx)


def take(mon, rng, pool, role, shape, dtype, layout="guard"):
    """A fresh array, or one that an earlier call already used, old contents and all."""
    key = (role, shape, dtype)
    have = pool.setdefault(key, [])
    if have and rng.random() < 0.6:
        mon.count("arrays_reused")
        return have[int(rng.integers(0, len(have)))]
    a = Arr(rng, shape, dtype, layout)
    a.arr[...] = 0
    have.append(a)
    return a


class Watch:
    """Snapshot, then check inputs and surroundings."""

    def __init__(self, mon, **arrs):
        self.mon, self.arrs = mon, arrs
        for a in set(arrs.values()):
            a.snapshot()

    def check(self, inputs, ctx):
        for n, a in self.arrs.items():
            self.mon.count("frame_checks")
            if not a.guards_ok():
                raise Violation("memory-outside-view-changed", array=n, **ctx)
            if n in inputs and not a.unchanged():
                raise Violation("input-modified", array=n, **ctx)


def omit(rng, kw, **defaults):
    """Arguments that equal their default are sometimes left out."""
    return {k: v for k, v in kw.items()
            if not (k in defaults and v == defaults[k] and rng.random() < 0.5)}


# ------------------------------------------------------------------ C15


class Unbounded:
    def __init__(self, mon, rng, d, rt, tier, pool, shape=None, x_range=None):
        from sopht.numeric import eulerian_grid_ops as e
        self.d, self.rt, self.pool = d, rt, pool
        self.shape = shape or shapes(rng, d, tier, big=0.15)
        self.x_range = x_range or float(rng.choice(
            [1.0, 2.0, 0.37, 10.0, 1.7e-2, 55.5, float(10 ** rng.uniform(-2, 2)),
             float(10 ** rng.uniform(-4, 4))]))
        if self.x_range == int(self.x_range) and rng.random() < 0.5:
            self.x_range = int(self.x_range)
        self.threads = TH[int(rng.integers(0, len(TH)))]
        cls = {2: e.UnboundedPoissonSolverPYFFTW2D, 3: e.UnboundedPoissonSolverPYFFTW3D}[d]
        names = ("grid_size_z", "grid_size_y", "grid_size_x")[3 - d:]
        self.s = mon.call(f"construct {self.describe()}", cls, **dict(zip(names, self.shape)),
                          **omit(rng, dict(x_range=self.x_range, num_threads=self.threads,
                                           real_t=rt), x_range=1.0, num_threads=1,
                                 real_t=np.float64))
        mon.count("solvers")
        mon.seen("shape", self.shape)
        mon.seen("threads", self.threads)
        mon.seen("parity", tuple(n % 2 for n in self.shape))
        dx = self.x_range / self.shape[-1]
        self.dx = dx
        self.vol = dx ** d
        self.idx = np.stack([i.reshape(-1) for i in np.indices(self.shape)]).astype(float)
        self.dense = self.idx.shape[1] <= 1400
        # norm over the doubled domain, bounded by 2^d times the quadrant from a corner
        G, M = self.green(np.zeros((d, 1)))
        self.Gnorm = np.sqrt(2 ** d * (G ** 2).sum()) * self.vol
        self.log = np.log2(np.prod(self.shape) * 2 ** d)
        self.calls = 0
        if self.dense:
            G, M = self.green(self.idx)
            self.G, self.M = G * self.vol, M * self.vol

    def green(self, sources):
        """Kernel and its error unit, cells by sources."""
        d, dx = self.d, self.dx
        r = np.zeros((self.idx.shape[1], sources.shape[1]))
        for a in range(d):
            r += (self.idx[a][:, None] - sources[a][None, :]) ** 2
        r = np.sqrt(r) * dx
        far = 1.0 + 2 * max(self.shape)     # relative error of a reflected distance, in eps
        at = r == 0
        with np.errstate(all="ignore"):
            if d == 2:
                G = -np.log(r) / (2 * np.pi)
                G[at] = -(2 * np.log(dx / np.sqrt(np.pi)) - 1) / (4 * np.pi)
                M = np.abs(G) + far * dx / np.where(r > 0, r, dx) / (2 * np.pi)
            else:
                G = 1 / (4 * np.pi * r)
                G[at] = 1 / (4 * np.pi * dx)
                M = np.abs(G) * (1 + far * dx / np.where(r > 0, r, dx))
        return G, M

    def describe(self):
        return f"unbounded {self.d}d {self.rt.__name__} {self.shape} range={self.x_range} " \
               f"threads={self.threads}"

    def expect(self, f):
        f = f.astype(float).reshape(-1)
        eps = float(np.finfo(self.rt).eps)
        if self.dense:
            G, M, g = self.G, self.M, f
        else:
            on = np.flatnonzero(f)
            assert on.size < 60, "large grids take point sources"
            G, M = self.green(self.idx[:, on])
            g = f[on] * self.vol
        want = G @ g
        bound = 8 * eps * (M @ np.abs(g) + self.log * self.Gnorm * np.sqrt((f ** 2).sum()))
        return want.reshape(self.shape), bound.reshape(self.shape) + 1e-35

    def step(self, mon, rng):
        d = self.d
        vec = d == 3 and rng.random() < 0.35
        inplace = rng.random() < 0.2
        lay = ["guard", "guard", "strided"]
        shp = ((3,) if vec else ()) + self.shape
        rhs = take(mon, rng, self.pool, "rhs", shp, self.rt, lay[int(rng.integers(0, 3))])
        style = []
        for c in range(3 if vec else 1):
            style.append(fill_rhs(rng, rhs.arr[c] if vec else rhs.arr,
                                  None if self.dense else int(rng.integers(1, 40))))
        if vec and rng.random() < 0.5:     # only one component is alive
            keep = int(rng.integers(0, 3))
            for c in range(3):
                if c != keep:
                    rhs.arr[c] = 0
        if inplace:
            sol = rhs
        else:
            sol = take(mon, rng, self.pool, "sol", shp, self.rt, lay[int(rng.integers(0, 3))])
            if rng.random() < 0.7:       # otherwise the previous solution is still there
                sol.arr[...] = np.nan if rng.random() < 0.5 else rng.uniform(-9, 9, shp)
        src = rhs.arr.copy()
        ctx = {"solver": self.describe(), "calls_before": self.calls, "vector": vec,
               "inplace": inplace, "rhs": style, "layouts": [rhs.layout, sol.layout]}
        w = Watch(mon, rhs=rhs, sol=sol) if not inplace else Watch(mon, sol=sol)
        if vec:
            mon.call(self.describe(), self.s.vector_field_solve,
                     solution_vector_field=sol.arr, rhs_vector_field=rhs.arr)
        else:
            mon.call(self.describe(), self.s.solve, solution_field=sol.arr, rhs_field=rhs.arr)
        self.calls += 1
        mon.count("solves", 3 if vec else 1)
        if inplace:
            mon.count("inplace_solves")
        w.check(() if inplace else ("rhs",), ctx)
        for c in range(3 if vec else 1):
            want, bound = self.expect(src[c] if vec else src)
            judge(mon, f"unbounded {d}d", sol.arr[c] if vec else sol.arr, want, bound, self.rt,
                  component=c, **ctx)
        nt = bool(np.any(src))
        mon.case((self.describe(), self.calls, digest(src)), nt, ctx if nt else None)
        return src, sol.arr.copy()

    def again(self, mon, rng, src, before):
        """The same right-hand side later in the history."""
        shp = src.shape
        rhs = take(mon, rng, self.pool, "rhs", shp, self.rt)
        rhs.arr[...] = src
        sol = take(mon, rng, self.pool, "sol", shp, self.rt)
        sol.arr[...] = np.nan
        if len(shp) > self.d:
            mon.call(self.describe(), self.s.vector_field_solve,
                     solution_vector_field=sol.arr, rhs_vector_field=rhs.arr)
        else:
            mon.call(self.describe(), self.s.solve, solution_field=sol.arr, rhs_field=rhs.arr)
        self.calls += 1
        mon.count("repeated_solves")
        for c in range(3 if len(shp) > self.d else 1):
            pick = (lambda a: a[c]) if len(shp) > self.d else (lambda a: a)
            _, bound = self.expect(pick(src))
            judge(mon, "repeated solve", pick(sol.arr), pick(before).astype(float), bound, self.rt,
                  solver=self.describe(), calls_before=self.calls)


def unbounded(mon, rng, d, rt, tier):
    pool = {}
    a = Unbounded(mon, rng, d, rt, tier, pool)
    # another solver: any shape, the same shape with another range, or the axes permuted
    k = rng.random()
    b = Unbounded(mon, rng, d, rt, tier, pool,
                  shape=None if k < 0.4 else a.shape if k < 0.7 else a.shape[::-1])
    c = Unbounded(mon, rng, d, rt, tier, pool, shape=a.shape, x_range=a.x_range)   # a twin
    objs = [a, b, c]
    seen = []
    for _ in range(24 if tier == "quick" else 80):
        o = objs[int(rng.integers(0, len(objs)))]
        if seen and rng.random() < 0.3:
            who, src, sol = seen[int(rng.integers(0, len(seen)))]
            (c if who is a and rng.random() < 0.5 else who).again(mon, rng, src, sol)
        else:
            src, sol = o.step(mon, rng)
            if o is not c:
                seen.append((o, src, sol))
    small = [o for o in objs if np.prod(o.shape) <= 2000]
    if small and (rng.random() < 0.4 or tier != "quick"):
        o = small[int(rng.integers(0, len(small)))]
        f, u = np.ones(o.shape, rt), np.zeros(o.shape, rt)
        o.calls += long_history(mon, rng, o.describe(),
                                lambda: o.s.solve(solution_field=u, rhs_field=f))
        for _ in range(2):
            o.step(mon, rng)


# ------------------------------------------------------------------ C16


def neumann_lap(u, dx):
    """-(discrete Laplacian) with mirror ghost cells."""
    r = np.zeros_like(u)
    for a in range(u.ndim):
        p = np.concatenate([np.take(u, [0], a), u, np.take(u, [-1], a)], a)
        n = p.shape[a]
        f = np.take(p, range(1, n), a) - np.take(p, range(0, n - 1), a)
        r -= np.take(f, range(1, n - 1), a) - np.take(f, range(0, n - 2), a)
    return r / dx / dx


def cosines(n):
    k, i = np.meshgrid(np.arange(n), np.arange(n), indexing="ij")
    V = np.cos(np.pi * k * (i + 0.5) / n)
    V /= np.sqrt((V * V).sum(1, keepdims=True))
    return V, 2 - 2 * np.cos(np.pi * np.arange(n) / n)


def neumann_solve(f, dx):
    """Closed-form cosine modes, in double precision."""
    d = f.ndim
    c = f.astype(float)
    lam = np.zeros(f.shape)
    for a in range(d):
        V, l = cosines(f.shape[a])
        c = np.moveaxis(np.tensordot(V, c, (1, a)), 0, a)
        lam = lam + l.reshape([-1 if b == a else 1 for b in range(d)])
    lam[(0,) * d] = np.inf
    c = c / lam * dx * dx
    for a in range(d):
        V, _ = cosines(f.shape[a])
        c = np.moveaxis(np.tensordot(V.T, c, (1, a)), 0, a)
    return c


class FastDiag:
    def __init__(self, mon, rng, d, rt, tier, pool, like=None):
        from sopht.numeric.eulerian_grid_ops.poisson_solver_2d import FastDiagPoissonSolver2D
        from sopht.numeric.eulerian_grid_ops.poisson_solver_3d import FastDiagPoissonSolver3D
        self.d, self.rt, self.pool = d, rt, pool
        self.shape = shapes(rng, d, tier, big=0.04 if d == 2 else 0.02)
        if like is not None:             # same or permuted shape, or one axis in common
            k = rng.random()
            if k < 0.5:
                self.shape = like.shape if k < 0.3 else like.shape[::-1]
            else:
                a = int(rng.integers(0, d))
                self.shape = tuple(like.shape[a] if b == a else n
                                   for b, n in enumerate(self.shape))
        self.dx = float(rng.choice([1.0, 0.1, 1 / 32, 3.3, float(10 ** rng.uniform(-2, 1)),
                                    float(10 ** rng.uniform(-4, 4))]))
        if like is not None and rng.random() < 0.2:
            self.dx = like.dx
        names = ("grid_size_z", "grid_size_y", "grid_size_x")[3 - d:]
        cls = {2: FastDiagPoissonSolver2D, 3: FastDiagPoissonSolver3D}[d]
        self.s = mon.call(f"construct {self.describe()}", cls, **dict(zip(names, self.shape)),
                          dx=rt(self.dx) if rng.random() < 0.5 else self.dx,
                          **omit(rng, dict(real_t=rt), real_t=np.float64))
        mon.count("solvers")
        mon.seen("shape", self.shape)
        self.calls = 0

    def describe(self):
        return f"fastdiag {self.d}d {self.rt.__name__} {self.shape} dx={self.dx}"

    def check(self, mon, f, u, ctx):
        f = f.astype(float)
        want = neumann_solve(f, self.dx)
        eps = float(np.finfo(self.rt).eps)
        n2 = float(max(self.shape)) ** 2
        L2 = n2 * self.dx ** 2 / np.pi ** 2      # largest amplification of the inverse
        fn = np.sqrt((f ** 2).sum())
        # sloppy low modes: relative error eps n^2, fed by the whole right-hand side
        bound = 4 * eps * n2 * (np.sqrt((want ** 2).sum()) + L2 * fn / 4) + 1e-35
        judge(mon, f"fastdiag {self.d}d", u, want, bound, self.rt, **ctx)
        if self.rt is np.float64:
            # the defining equation itself
            res = neumann_lap(u.astype(float), self.dx)
            judge(mon, f"fastdiag residual {self.d}d", res, f - f.mean(),
                  bound * 4 * self.d / self.dx ** 2, self.rt, **ctx)
        mon.require(abs(float(u.astype(float).mean())) <= bound, "mean-not-zero",
                    mean=float(u.astype(float).mean()), bound=bound, **ctx)

    def solve(self, mon, src, rng):
        rhs = take(mon, rng, self.pool, "rhs", src.shape, self.rt,
                   "strided" if rng.random() < 0.3 else "guard")
        rhs.arr[...] = src
        # the 2D solver only accepts (and says so) a C-contiguous solution array
        sol = take(mon, rng, self.pool, "sol", src.shape, self.rt,
                   "strided" if self.d == 3 and rng.random() < 0.3 else "guard")
        if rng.random() < 0.7:
            sol.arr[...] = np.nan if rng.random() < 0.5 else 7.0
        ctx = {"solver": self.describe(), "calls_before": self.calls, "rhs_shape": src.shape}
        w = Watch(mon, rhs=rhs, sol=sol)
        if src.ndim > self.d:
            mon.call(self.describe(), self.s.vector_field_solve,
                     solution_vector_field=sol.arr, rhs_vector_field=rhs.arr)
        else:
            mon.call(self.describe(), self.s.solve, solution_field=sol.arr, rhs_field=rhs.arr)
        self.calls += 1
        mon.count("solves")
        w.check(("rhs",), ctx)
        for c in range(3 if src.ndim > self.d else 1):
            p = (lambda a: a[c]) if src.ndim > self.d else (lambda a: a)
            self.check(mon, p(rhs.arr), p(sol.arr), ctx)
        mon.case((self.describe(), self.calls, digest(src)), bool(np.any(src)), ctx)
        return rhs.arr.copy(), sol.arr.copy()


def neumann_rhs(rng, shape):
    k = rng.random()
    a = np.zeros(shape)
    if k < 0.3:                          # one mode
        a[...] = float(rng.uniform(0.5, 2))
        for ax, n in enumerate(shape):
            m = int(rng.integers(0, n))
            v = np.cos(np.pi * m * (np.arange(n) + 0.5) / n)
            a *= v.reshape([-1 if b == ax else 1 for b in range(len(shape))])
        return a
    fill_rhs(rng, a)
    if k > 0.8:
        a -= a.mean()
    return a


def fastdiag(mon, rng, d, rt, tier):
    pool = {}
    objs = [FastDiag(mon, rng, d, rt, tier, pool)]
    objs += [FastDiag(mon, rng, d, rt, tier, pool, like=objs[0] if rng.random() < 0.7 else None)
             for _ in range(3)]
    seen = []
    for _ in range(40 if tier == "quick" else 120):
        if seen and rng.random() < 0.25:
            o, src, u0 = seen[int(rng.integers(0, len(seen)))]
            _, u1 = o.solve(mon, src, rng)
            mon.require(np.array_equal(u0, u1) or np.allclose(
                u0, u1, rtol=0, atol=1e3 * float(np.finfo(rt).eps) * float(np.abs(u0).max())),
                "repeated-solve-differs", solver=o.describe())
            mon.count("repeated_solves")
            continue
        o = objs[int(rng.integers(0, len(objs)))]
        if d == 3 and rng.random() < 0.35:
            src = np.stack([neumann_rhs(rng, o.shape) for _ in range(3)])
        else:
            src = neumann_rhs(rng, o.shape)
        seen.append((o, *o.solve(mon, src.astype(rt), rng)))
    o = objs[int(rng.integers(0, len(objs)))]
    if np.prod(o.shape) <= 2000 and (rng.random() < 0.5 or tier != "quick"):
        f, u = np.ones(o.shape, rt), np.zeros(o.shape, rt)
        o.calls += long_history(mon, rng, o.describe(),
                                lambda: o.s.solve(solution_field=u, rhs_field=f))
        for _ in range(2):
            o.solve(mon, neumann_rhs(rng, o.shape).astype(rt), rng)


# ------------------------------------------------------------------ C17


def dft(f, sign=-1):
    """Full complex transform by definition, one axis at a time."""
    c = f.astype(complex)
    for a, n in enumerate(f.shape):
        k = np.arange(n)
        W = np.exp(sign * 2j * np.pi * (np.outer(k, k) % n) / n)
        c = np.moveaxis(np.tensordot(W, c, (1, a)), 0, a)
    return c


def aligned(shape, dtype):
    import pyfftw
    return pyfftw.empty_aligned(shape, dtype)


class Plan:
    def __init__(self, mon, rng, d, rt, tier, shape=None):
        from sopht.numeric import eulerian_grid_ops as e
        self.d, self.rt, self.ct = d, rt, CT[rt]
        self.shape = shape or shapes(rng, d, tier, big=0.06)
        self.kept = []
        self.threads = TH[int(rng.integers(0, len(TH)))]
        names = ("grid_size_z", "grid_size_y", "grid_size_x")[3 - d:]
        cls = {2: e.FFTPyFFTW2D, 3: e.FFTPyFFTW3D}[d]
        self.p = mon.call(f"construct {self.describe()}", cls, **dict(zip(names, self.shape)),
                          **omit(rng, dict(num_threads=self.threads, real_t=rt),
                                 num_threads=1, real_t=np.float64))
        self.scipy = getattr(e, f"fft_ifft_via_scipy_kernel_{d}d")
        self.half = (*self.shape[:-1], self.shape[-1] // 2 + 1)
        mon.count("plans")
        mon.seen("shape", self.shape)
        mon.seen("parity", tuple(n % 2 for n in self.shape))
        mon.seen("threads", self.threads)
        self.calls = 0

    def describe(self):
        return f"fft {self.d}d {self.rt.__name__} {self.shape} threads={self.threads}"

    def step(self, mon, rng):
        eps = float(np.finfo(self.rt).eps)
        N = int(np.prod(self.shape))
        log = np.log2(N) + 2
        if self.kept and rng.random() < 0.6:   # the arrays of an earlier call
            f, H, g = self.kept[int(rng.integers(0, len(self.kept)))]
            mon.count("arrays_reused")
        else:
            f, g = aligned(self.shape, self.rt), aligned(self.shape, self.rt)
            H = aligned(self.half, self.ct)
            self.kept.append((f, H, g))
            f[...] = H[...] = g[...] = 0
        style = fill_rhs(rng, f)
        f0 = f.copy()
        want = dft(f0.astype(float))[..., :self.half[-1]]
        fb = 4 * eps * log * float(np.abs(f0.astype(float)).sum()) + 1e-35
        ctx = {"plan": self.describe(), "calls_before": self.calls, "input": style}
        kind = ("plans", "combined", "scipy", "inverse")[int(rng.integers(0, 4))]
        if rng.random() < 0.7:
            H[...] = np.nan
            g[...] = np.nan
        if kind == "plans":
            mon.call(self.describe(), self.p.fft_plan, input_array=f, output_array=H)
            judge(mon, "pyfftw forward", H, want, fb, self.rt, **ctx)
            if f.tobytes() != f0.tobytes():
                raise Violation("input-modified", array="field", **ctx)
            H2 = aligned(self.half, self.ct)
            H2[...] = H                  # the inverse may destroy its input
            mon.call(self.describe(), self.p.ifft_plan, input_array=H2, output_array=g)
        elif kind == "combined":
            mon.call(self.describe(), self.p.fft_ifft_plan_kernel, fourier_field=H,
                     inv_fourier_field=g, field=f)
        elif kind == "scipy":
            mon.call(self.describe(), self.scipy, H, g, f,
                     **omit(rng, dict(num_threads=self.threads), num_threads=1))
            judge(mon, "scipy forward", H, want, fb, self.rt, **ctx)
        else:
            # the backward transform of a half spectrum that came from nowhere else
            H[...] = want
            mon.call(self.describe(), self.p.ifft_plan, input_array=H, output_array=g)
        if f.tobytes() != f0.tobytes():
            raise Violation("input-modified", array="field", **ctx)
        hb = 4 * eps * log * float(np.abs(f0.astype(float)).sum()) + 1e-35
        judge(mon, f"{kind} restored field", g, f0.astype(float), hb, self.rt, **ctx)
        self.calls += 1
        mon.count("transforms")
        mon.seen("path", kind)
        for n, t in (("field_pyfftw_buffer", self.rt), ("fourier_field_pyfftw_buffer", self.ct)):
            a = getattr(self.p, n, np.empty(0, t))
            mon.require(a.dtype == np.dtype(t), "wrong-buffer-precision", got=str(a.dtype), **ctx)
        mon.case((self.describe(), kind, digest(f0)), bool(np.any(f0)), ctx)


def own_buffers(mon, rng, plans, rt):
    """Every object's own arrays hold data at the same time."""
    if not all(hasattr(p.p, n) for p in plans
               for n in ("field_pyfftw_buffer", "fourier_field_pyfftw_buffer")):
        return
    eps = float(np.finfo(rt).eps)
    data = {}
    for i in rng.permutation(len(plans)):
        p = plans[i]
        fill_rhs(rng, p.p.field_pyfftw_buffer)
        data[int(i)] = p.p.field_pyfftw_buffer.astype(float)
    bound = {i: 4 * eps * (np.log2(f.size) + 2) * float(np.abs(f).sum()) + 1e-35
             for i, f in data.items()}
    for i in rng.permutation(len(plans)):
        p = plans[i].p
        mon.call(plans[i].describe(), p.fft_plan, input_array=p.field_pyfftw_buffer,
                 output_array=p.fourier_field_pyfftw_buffer)
    for i, p in enumerate(plans):
        judge(mon, "own buffers forward", p.p.fourier_field_pyfftw_buffer,
              dft(data[i])[..., :p.half[-1]], bound[i], rt, plan=p.describe())
        p.p.field_pyfftw_buffer[...] = np.nan
    for i in rng.permutation(len(plans)):
        p = plans[i].p
        mon.call(plans[i].describe(), p.ifft_plan, input_array=p.fourier_field_pyfftw_buffer,
                 output_array=p.field_pyfftw_buffer)
    for i, p in enumerate(plans):
        judge(mon, "own buffers restored field", p.p.field_pyfftw_buffer, data[i], bound[i], rt,
              plan=p.describe())
        p.calls += 1
        mon.count("transforms")
    mon.seen("path", "own buffers")


def fft(mon, rng, d, rt, tier):
    plans = [Plan(mon, rng, d, rt, tier) for _ in range(3)]
    plans += [Plan(mon, rng, d, rt, tier, plans[0].shape),
              Plan(mon, rng, d, rt, tier, (*plans[0].shape[:-1], plans[0].shape[-1] ^ 1 | 2))]
    for p in plans:
        for _ in range(3):
            p.step(mon, rng)
    for _ in range(60 if tier == "quick" else 200):
        if rng.random() < 0.05:
            own_buffers(mon, rng, plans, rt)
        plans[int(rng.integers(0, len(plans)))].step(mon, rng)
    p = plans[int(rng.integers(0, len(plans)))]
    if np.prod(p.shape) <= 8000 and p.kept:
        f, H, g = p.kept[0]
        f[...] = 1
        p.calls += long_history(mon, rng, p.describe(), lambda: p.p.fft_ifft_plan_kernel(
            fourier_field=H, inv_fourier_field=g, field=f))
        for _ in range(2):
            p.step(mon, rng)
