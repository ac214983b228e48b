"""C21-C24: immersed-boundary coupling, judged by a dense delta-function oracle.

The repository's modules need numba, which is not installed; /verif/stubs/numba
returns the decorated Python functions themselves, so what runs is the
repository's code.  The oracle never slices supports: it evaluates the 1D delta
function at every cell of every axis and takes dense tensor products.
"""
import copy

import numpy as np

from core import Arr, Violation, digest, dirty, fill
from ev import EV

RT = {"f32": np.float32, "f64": np.float64}
EDGE = 1e-3        # cells this far (in dx) beyond the support are surely outside


def groups(prop, tier):
    n = {"quick": {"C21": 16, "C22": 16, "C23": 16, "C24": 16},
         "thorough": {"C21": 60, "C22": 60, "C23": 60, "C24": 60}}[tier][prop]
    return [{"name": f"{d}d/{rt}/{k}", "dim": d, "rt": rt, "cost": 1.0 * d}
            for d in (2, 3) for rt in RT for k in range(n)]


def run(mon, rng, g, tier):
    {"C21": weights, "C22": transfers, "C23": virtual, "C24": brinkmann}[mon.prop](
        mon, rng, g["dim"], RT[g["rt"]], tier)


def ib():
    from sopht.numeric import immersed_boundary_ops as m
    return m


def brinkmann_class():
    from sopht.numeric.immersed_boundary_ops import BrinkmannBoundaryForcing
    return BrinkmannBoundaryForcing


# ------------------------------------------------------------- the oracle


def phi(kind, r):
    """The 1D delta function times the spacing, at distance r (in spacings)."""
    r = np.abs(r)
    if kind == "cosine":
        return np.where(r <= 2, 0.25 * (1 + np.cos(0.5 * np.pi * r)), 0.0)
    with np.errstate(invalid="ignore"):
        near = 0.125 * (3 - 2 * r + np.sqrt(np.maximum(1 + 4 * r - 4 * r * r, 0)))
        far = 0.125 * (5 - 2 * r - np.sqrt(np.maximum(-7 + 12 * r - 4 * r * r, 0)))
    return np.where(r < 1, near, np.where(r < 2, far, 0.0))


class Geometry:
    """A grid with markers: spacing, shift, cells per axis (z, y, x order)."""

    def __init__(self, rng, d, rt, tier="quick"):
        self.d, self.rt = d, rt
        hi = {2: 26, 3: 15}[d]
        self.shape = tuple(int(x) for x in rng.integers(4, hi, d))
        if rng.random() < 0.15:
            self.shape = (4,) * d
        elif rng.random() < 0.1:
            k = int(rng.integers(0, d))
            self.shape = tuple((60 if a == k else 5) for a in range(d))
        dx = float(rng.choice([1.0, 0.1, 1 / 64, 0.37, float(10.0 ** rng.uniform(-3, 1))]))
        self.dx = rt(dx) if rng.random() < 0.7 else float(rt(dx))
        k = rng.random()
        s = float(self.dx) * (0.5 if k < 0.6 else 0.0 if k < 0.7 else float(rng.uniform(-2, 3)))
        self.shift = rt(s) if rng.random() < 0.7 else float(rt(s))

    def alike(self, rng):
        """The same geometry, or one that differs in a single respect."""
        g = copy.copy(self)
        k = int(rng.integers(0, 4))
        if k == 1:
            g.dx = type(g.dx)(float(g.dx) * float(rng.choice([2.0, 0.5, 1.001])))
        elif k == 2:
            g.shift = type(g.shift)(float(g.shift) + float(g.dx) * float(rng.choice([.5, -.5, .25])))
        elif k == 3:
            a = list(g.shape)
            a[int(rng.integers(0, g.d))] += int(rng.integers(1, 4))
            g.shape = tuple(a)
        return g

    def nodes(self, rng, n):
        """Marker positions, rows x, y, (z): on cells, on faces, anywhere."""
        dx, sh = float(self.dx), float(self.shift)
        pos = np.empty((self.d, n))
        for row in range(self.d):
            cells = self.shape[self.d - 1 - row]
            for i in range(n):
                k = rng.random()
                f = (0.0 if k < 0.12 else 0.5 if k < 0.22 else
                     float(10.0 ** -rng.uniform(1, 8)) if k < 0.3 else
                     1 - float(10.0 ** -rng.uniform(1, 8)) if k < 0.38 else
                     float(rng.uniform(0.05, 0.95)))
                lo, hi = 1, cells - 3
                if f < 0.05:
                    lo += 1
                if f > 0.95:
                    hi -= 1
                if lo > hi:
                    f, lo, hi = float(rng.uniform(0.05, 0.95)), 1, cells - 3
                q = rng.random()
                c = lo if q < 0.1 else hi if q < 0.2 else int(rng.integers(lo, hi + 1))
                pos[row, i] = sh + (c + f) * dx
        if n > 1 and rng.random() < 0.4:               # coincident and overlapping markers
            for i in range(1, n):
                if rng.random() < 0.4:
                    pos[:, i] = pos[:, int(rng.integers(0, i))]
        return pos.astype(self.rt)

    def axis(self, pos, row, kind):
        """(delta*dx, its error unit, inside) over all cells of an axis, per marker."""
        n = self.shape[self.d - 1 - row]
        dx, sh = float(self.dx), float(self.shift)
        x = pos[row].astype(np.float64)[:, None]
        c = np.arange(n)[None, :]
        r = (c * dx + sh - x) / dx
        e = (np.abs(c * dx) + abs(sh) + np.abs(x) + dx) / dx     # rounding of r, in eps
        inside = np.abs(r) <= 2 + EDGE
        v = np.where(inside, phi(kind, r), 0.0)
        return v, np.where(inside, 1.0 + e, 0.0), inside

    def delta(self, pos, kind):
        """Dense weights*dx^dim (node, cells...), error units, and support mask."""
        v = e = None
        mask = None
        for row in reversed(range(self.d)):                     # z, y, x
            a, ea, ia = self.axis(pos, row, kind)
            if v is None:
                v, e, mask = a, ea, ia
            else:
                ex = (slice(None),) + (None,) * (v.ndim - 1)
                aa = a[ex + (slice(None),)]
                eaa = ea[ex + (slice(None),)]
                e = e[..., None] * (aa + 1e-6) + (v[..., None] + 1e-6) * eaa
                mask = mask[..., None] & ia[ex + (slice(None),)]
                v = v[..., None] * aa
        return v, e * mask + v, mask

    def describe(self):
        return {"dim": self.d, "real": np.dtype(self.rt).name, "shape": self.shape,
                "dx": repr(self.dx), "shift": repr(self.shift)}


def node_count(rng):
    if rng.random() < 0.04:
        return int(rng.integers(100, 500))
    return int(rng.choice([1, 2, 3, 4, int(rng.integers(1, 13))]))


def interp_ev(g, pos, u, kind="cosine"):
    """Interpolated components of u (k, cells...) as EV (k, node)."""
    v, e, mask = g.delta(pos, kind)
    n = v.shape[0]
    uu = u.astype(np.float64).reshape(u.shape[0], 1, -1)
    mm = mask.reshape(1, n, -1)
    uu = np.where(mm, uu, 0.0)
    with np.errstate(over="ignore", invalid="ignore"):
        return EV((uu * v.reshape(1, n, -1)).sum(-1), (np.abs(uu) * e.reshape(1, n, -1)).sum(-1))


def spread_ev(g, pos, f, base, scale, kind="cosine"):
    """base + sum of f (k, node EV) times delta, EV over (k, cells...), and the support."""
    v, e, mask = g.delta(pos, kind)
    n = v.shape[0]
    fv, fm = f.v[..., None], f.m[..., None]
    val = (fv * v.reshape(1, n, -1)).sum(1) * scale
    mag = (np.abs(fv) * e.reshape(1, n, -1) + fm * v.reshape(1, n, -1)).sum(1) * scale
    shp = (f.v.shape[0],) + g.shape
    b = base.astype(np.float64)
    # every addition to a cell rounds once: the most additions any cell takes
    crowd = float(mask.sum(0).max()) if n else 0.0
    return EV(b + val.reshape(shp), np.abs(b) + mag.reshape(shp)), mask.any(0), crowd


# ------------------------------------------------------------- watched calls


class Watch:
    """Arrays handed to a call: what may change, what must not."""

    def __init__(self, mon, inputs, outputs, ctx):
        self.mon, self.inputs, self.outputs, self.ctx = mon, inputs, outputs, ctx
        for a in (*inputs.values(), *outputs.values()):
            a.snapshot()

    def check(self):
        for k, a in self.inputs.items():
            self.mon.count("frame_checks")
            if not a.unchanged():
                raise Violation("input-modified", array=k, **self.ctx)
        for k, a in {**self.inputs, **self.outputs}.items():
            if not a.guards_ok():
                raise Violation("memory-outside-array-changed", array=k, **self.ctx)


def contiguous(rng, shape, dt):
    return Arr(rng, shape, dt, "guard" if rng.random() < 0.7 else "exact")


def eul_layout(rng):
    return ("exact", "guard", "strided")[int(rng.integers(0, 3))]


def make(mon, g, n, kind, comps):
    m = ib()
    cls = {2: m.EulerianLagrangianGridCommunicator2D, 3: m.EulerianLagrangianGridCommunicator3D}
    kw = {} if kind == "cosine" and comps == 1 else {"n_components": comps,
                                                    "interp_kernel_type": kind}
    return mon.call("communicator", cls[g.d], dx=g.dx, eul_grid_coord_shift=g.shift,
                    num_lag_nodes=n, interp_kernel_width=2, real_t=g.rt, **kw)


class Com:
    """One live communicator with its buffers."""

    def __init__(self, mon, rng, d, rt, like=None):
        self.kind = "peskin" if rng.random() < 0.5 else "cosine"
        self.comps = d if rng.random() < 0.5 else 1
        if like is None:
            self.g, self.n = Geometry(rng, d, rt), node_count(rng)
        else:                                  # looks like a live one
            self.g, self.n = like.g.alike(rng), like.n if rng.random() < 0.7 else node_count(rng)
            if rng.random() < 0.5:
                self.comps = like.comps
            if rng.random() < 0.3:
                self.kind = like.kind
            mon.count("lookalike_objects")
        self.com = make(mon, self.g, self.n, self.kind, self.comps)
        self.support = contiguous(rng, (d, *(4,) * d, self.n), rt)
        self.near = contiguous_int(rng, (d, self.n))
        self.w = contiguous(rng, (*(4,) * d, self.n), rt)
        self.pos = contiguous(rng, (d, self.n), rt)
        self.pos.arr[...] = self.g.nodes(rng, self.n)
        mon.seen("kernels", (d, np.dtype(rt).name, self.kind, self.comps))

    def ctx(self):
        return {"geometry": self.g.describe(), "kernel": self.kind, "nodes": self.n,
                "positions": self.pos.arr.tolist() if self.n < 4 else digest(self.pos.arr)}

    def find(self, mon, rng, judge):
        """Support and weights for fresh positions, with dirty buffers."""
        g, d = self.g, self.g.d
        if rng.random() < 0.8:
            self.pos.arr[...] = g.nodes(rng, self.n)
        if rng.random() < 0.7:
            dirty(rng, self.support.arr)
            dirty(rng, self.w.arr)
            self.near.arr[...] = rng.integers(-100, 100, self.near.arr.shape)
        ctx = self.ctx()
        watch = Watch(mon, {"lag_positions": self.pos},
                      {"support": self.support, "nearest": self.near}, ctx)
        mon.call("support kernel",
                 self.com.local_eulerian_grid_support_of_lagrangian_grid_kernel,
                 local_eul_grid_support_of_lag_grid=self.support.arr,
                 nearest_eul_grid_index_to_lag_grid=self.near.arr, lag_positions=self.pos.arr)
        watch.check()
        mon.count("support_calls")
        if judge:
            self.judge_support(mon, ctx)
        s = self.support.arr.copy()
        watch = Watch(mon, {"nearest": self.near, "lag_positions": self.pos},
                      {"support": self.support, "weights": self.w}, ctx)
        mon.call("weights kernel", self.com.interpolation_weights_kernel,
                 interp_weights=self.w.arr, local_eul_grid_support_of_lag_grid=self.support.arr)
        watch.check()
        mon.count("weight_calls")
        if judge:
            self.judge_weights(mon, s, ctx)

    def judge_support(self, mon, ctx):
        g, d = self.g, self.g.d
        dx, sh = float(g.dx), float(g.shift)
        x = self.pos.arr.astype(np.float64)
        q = (x - sh) / dx
        eps = float(np.finfo(g.rt).eps)
        band = 16 * eps * ((np.abs(x) + abs(sh)) / dx + 1)
        idx = self.near.arr
        ok = (idx == np.floor(q)) | (idx == np.floor(q + band)) | (idx == np.floor(q - band))
        mon.count("nearest_indices_judged", int(idx.size))
        mon.count("markers_on_grid_lines",
                  int((np.floor(q + band) != np.floor(q - band)).sum()))
        mon.require(bool(ok.all()), "nearest-index", got=idx.tolist(), expected=np.floor(q).tolist(),
                    **ctx)
        off = np.arange(-1, 3)
        for row in range(d):
            axis = d - 1 - row                     # its place in the support array
            o = off.reshape((1,) * axis + (4,) + (1,) * (d - 1 - axis) + (1,))
            near = idx[row].reshape((1,) * d + (self.n,))
            pos = x[row].reshape((1,) * d + (self.n,))
            cell = (near + o) * dx
            ref = EV(np.broadcast_to(cell + sh - pos, (4,) * d + (self.n,)),
                     np.broadcast_to(np.abs(cell) + abs(sh) + np.abs(pos) + dx,
                                     (4,) * d + (self.n,)))
            mon.compare("support", self.support.arr[row], ref, g.rt, c=16, row=row, **ctx)

    def judge_weights(self, mon, s, ctx):
        """Against the delta function of the support handed in, then its moments."""
        g, d = self.g, self.g.d
        dx = float(g.dx)
        v, m = 1.0, 0.0
        for row in range(d):
            r = s[row].astype(np.float64) / dx
            p = phi(self.kind, r)
            m = m * (p + 1e-6) + (v + 1e-6) * (4.0 + np.abs(r))
            v = v * p
        w = self.w.arr
        mon.compare("weights", w, EV(v / dx**d, (m + v) / dx**d), g.rt, c=16, **ctx)
        W = w.astype(np.float64) * dx**d
        eps = float(np.finfo(g.rt).eps)
        span = max(max(float(np.abs(c).max()) for c in self.pos.arr) / dx + abs(
            float(g.shift)) / dx + max(g.shape), 1.0)
        tol = 64 * eps * (4 + span)
        mon.count("moments_judged", self.n)
        mon.require(bool((W >= -tol).all()), "negative-weight", smallest=float(W.min()), **ctx)
        tot = W.reshape(-1, self.n).sum(0)
        mon.require(bool((np.abs(tot - 1) <= tol * 2**d).all()), "weights-do-not-sum-to-one",
                    sums=tot.tolist(), **ctx)
        if self.kind == "peskin":
            for row in range(d):
                mo = (W * s[row].astype(np.float64) / dx).reshape(-1, self.n).sum(0)
                mon.require(bool((np.abs(mo) <= 4 * tol * 2**d).all()), "first-moment",
                            moments=mo.tolist(), row=row, **ctx)


def contiguous_int(rng, shape):
    class IntArr(Arr):
        pass
    a = Arr.__new__(IntArr)
    n = int(np.prod(shape))
    gpad = int(rng.integers(1, 4)) * 4
    a.layout = "guard"
    a.parent = np.full(n + 2 * gpad, 0x5A5A5A5A, np.int64)
    a.arr = a.parent[gpad:gpad + n].reshape(shape)
    a.arr[...] = 0
    a.before = None
    return a


# ------------------------------------------------------------- C21


def mirrored(mon, rng, c):
    """A marker mirrored about the cell face next to it sees mirrored weights."""
    g, d = c.g, c.g.d
    dx, sh = float(g.dx), float(g.shift)
    if c.n < 2:
        return
    f = rng.uniform(0.05, 0.95, d)
    cell = np.array([1 for _ in range(d)])
    a = (sh + (cell + f) * dx).astype(g.rt)
    b = (sh + (cell + 1 - f) * dx).astype(g.rt)
    c.pos.arr[...] = g.nodes(rng, c.n)
    c.pos.arr[:, 0], c.pos.arr[:, 1] = a, b
    call_both(mon, c)
    wa, wb = c.w.arr[..., 0].astype(float), c.w.arr[..., 1].astype(float)
    flip = wb[(slice(None, None, -1),) * d]
    eps = float(np.finfo(g.rt).eps)
    tol = 256 * eps * (8 + 2 * abs(sh) / dx) / dx**d
    mon.count("mirrored_pairs")
    mon.require(bool((np.abs(wa - flip) <= tol).all()), "weights-not-symmetric",
                difference=float(np.abs(wa - flip).max() * dx**d), **c.ctx())


def call_both(mon, c):
    mon.call("support kernel", c.com.local_eulerian_grid_support_of_lagrangian_grid_kernel,
             local_eul_grid_support_of_lag_grid=c.support.arr,
             nearest_eul_grid_index_to_lag_grid=c.near.arr, lag_positions=c.pos.arr)
    mon.call("weights kernel", c.com.interpolation_weights_kernel,
             interp_weights=c.w.arr, local_eul_grid_support_of_lag_grid=c.support.arr)


def weights(mon, rng, d, rt, tier):
    coms = [Com(mon, rng, d, rt) for _ in range(2)]
    coms += [Com(mon, rng, d, rt, like=c) for c in coms]
    for _ in range(40 if tier == "quick" else 150):
        c = coms[int(rng.integers(0, len(coms)))]
        c.find(mon, rng, True)
        mon.case((d, rt, c.kind, digest(c.pos.arr), repr(c.g.dx)), True, c.ctx())
    for c in coms:
        mirrored(mon, rng, c)
    if rng.random() < 0.3 or tier != "quick":
        c = min(coms, key=lambda c: c.n)
        for _ in range(int(rng.integers(60, 300))):
            call_both(mon, c)
        mon.count("bursts")
        c.find(mon, rng, True)


# ------------------------------------------------------------- C22


def transfers(mon, rng, d, rt, tier):
    coms = [Com(mon, rng, d, rt) for _ in range(2)]
    coms += [Com(mon, rng, d, rt, like=c) for c in coms]
    for _ in range(40 if tier == "quick" else 150):
        c = coms[int(rng.integers(0, len(coms)))]
        c.find(mon, rng, False)
        k = rng.random()
        if k < 0.3:                                   # any weights are weights
            fill(rng, c.w.arr, "normal")
            local_transfer(mon, rng, c)
        elif k < 0.45:
            local_transfer(mon, rng, c)
        else:
            physical(mon, rng, c)


def shapes(c):
    lead = () if c.comps == 1 else (c.comps,)
    return lead + c.g.shape, lead + (c.n,)


def block(near, i, d):
    """The cells of marker i's support."""
    return tuple(slice(int(near[d - 1 - a, i]) - 1, int(near[d - 1 - a, i]) + 3) for a in range(d))


def touched(c):
    out = np.zeros(c.g.shape, bool)
    for i in range(c.n):
        out[block(c.near.arr, i, c.g.d)] = True
    return out


def do_interp(mon, c, lag, eul, ctx):
    watch = Watch(mon, {"eul_grid_field": eul, "interp_weights": c.w, "nearest": c.near},
                  {"lag_grid_field": lag}, ctx)
    mon.call("interpolation", c.com.eulerian_to_lagrangian_grid_interpolation_kernel,
             lag_grid_field=lag.arr, eul_grid_field=eul.arr, interp_weights=c.w.arr,
             nearest_eul_grid_index_to_lag_grid=c.near.arr)
    watch.check()
    mon.count("interpolations")


def do_spread(mon, c, eul, lag, ctx):
    watch = Watch(mon, {"lag_grid_field": lag, "interp_weights": c.w, "nearest": c.near},
                  {"eul_grid_field": eul}, ctx)
    mon.call("spreading", c.com.lagrangian_to_eulerian_grid_interpolation_kernel,
             eul_grid_field=eul.arr, lag_grid_field=lag.arr, interp_weights=c.w.arr,
             nearest_eul_grid_index_to_lag_grid=c.near.arr)
    watch.check()
    mon.count("spreads")
    far = np.broadcast_to(~touched(c), eul.arr.shape)
    mon.count("cells_outside_supports", int(far.sum()))
    if not eul.unchanged(far):
        raise Violation("cell-outside-support-changed", **ctx)


def local_transfer(mon, rng, c):
    """Both directions against the literal weighted sums."""
    g, d = c.g, c.g.d
    es, ls = shapes(c)
    eul, lag = Arr(rng, es, g.rt, eul_layout(rng)), contiguous(rng, ls, g.rt)
    fill(rng, eul.arr, "slabs" if rng.random() < 0.2 else None)
    if rng.random() < 0.5:
        eul.arr[np.broadcast_to(~touched(c), es)] = np.nan
    dirty(rng, lag.arr)
    ctx = c.ctx()
    E = eul.arr.astype(np.float64).reshape((-1, *g.shape))
    W = c.w.arr.astype(np.float64)
    val = np.empty((E.shape[0], c.n))
    mag = np.empty((E.shape[0], c.n))
    for i in range(c.n):
        b = (slice(None),) + block(c.near.arr, i, d)
        p = E[b] * W[..., i]
        val[:, i] = p.reshape(E.shape[0], -1).sum(-1)
        mag[:, i] = np.abs(p).reshape(E.shape[0], -1).sum(-1)
    vol = float(g.dx) ** d
    do_interp(mon, c, lag, eul, ctx)
    mon.compare("interpolated", lag.arr, EV((val * vol).reshape(ls), (mag * vol).reshape(ls)), g.rt,
                **ctx)
    mon.case(("interp", digest(eul.arr, c.w.arr, c.near.arr)), bool(np.any(val)), ctx)
    # spreading on top of what is there, twice
    fill(rng, lag.arr)
    if rng.random() < 0.5:
        fill(rng, eul.arr)
    else:
        eul.arr[np.isnan(eul.arr)] = 0.25
    for _ in range(2):
        E = eul.arr.astype(np.float64).reshape((-1, *g.shape))
        F = lag.arr.astype(np.float64).reshape((-1, c.n))
        V, M = E.copy(), np.abs(E)
        for i in range(c.n):
            b = (slice(None),) + block(c.near.arr, i, d)
            add = F[:, i].reshape((-1,) + (1,) * d) * W[..., i]
            V[b] += add
            M[b] += np.abs(add)
        do_spread(mon, c, eul, lag, ctx)
        mon.compare("spread", eul.arr, EV(V.reshape(es), M.reshape(es)), g.rt, **ctx)
        mon.case(("spread", digest(lag.arr, eul.before, c.w.arr)), bool(np.any(F)), ctx)


def physical(mon, rng, c):
    """With the delta-function weights: dense sums, moments, conservation, adjointness."""
    g, d, kind = c.g, c.g.d, c.kind
    es, ls = shapes(c)
    eul, lag = Arr(rng, es, g.rt, eul_layout(rng)), contiguous(rng, ls, g.rt)
    back = Arr(rng, es, g.rt, eul_layout(rng))
    f = contiguous(rng, ls, g.rt)
    ctx = c.ctx()
    eps = float(np.finfo(g.rt).eps)
    vol = float(g.dx) ** d
    x = c.pos.arr.astype(np.float64)
    k = rng.random()
    expect = None
    if k < 0.25:
        v = float(g.rt(rng.standard_normal()))
        eul.arr[...] = v
        expect = np.full((c.comps, c.n), v)
        mon.count("constant_fields")
    elif k < 0.55 and kind == "peskin":
        a = rng.standard_normal((c.comps, d + 1))
        lin = [a[k, 0] + sum(a[k, 1 + row] * np.arange(g.shape[d - 1 - row]).reshape(
            (-1,) + (1,) * row) for row in range(d)) for k in range(c.comps)]
        eul.arr[...] = np.stack(lin).reshape(es)
        q = (x - float(g.shift)) / float(g.dx)
        expect = np.stack([a[k, 0] + (a[k, 1:, None] * q).sum(0) for k in range(c.comps)])
        mon.count("linear_fields")
    else:
        fill(rng, eul.arr)
    dirty(rng, lag.arr)
    do_interp(mon, c, lag, eul, ctx)
    U = eul.arr.reshape((-1, *g.shape))
    ref = interp_ev(g, c.pos.arr, U, kind)
    mon.compare("interpolated", lag.arr, EV(ref.v.reshape(ls), ref.m.reshape(ls)), g.rt, c=32, **ctx)
    if expect is not None:
        got = lag.arr.astype(np.float64).reshape(expect.shape)
        with np.errstate(all="ignore"):
            bad = np.abs(got - expect) > 64 * eps * (ref.m + np.abs(expect))
        mon.require(not bad.any(), "field-not-reproduced", got=got.tolist(),
                    expected=expect.tolist(), **ctx)
    fill(rng, f.arr)
    if rng.random() < 0.5:
        fill(rng, back.arr, "normal")
    base = back.arr.copy()
    do_spread(mon, c, back, f, ctx)
    F = EV(f.arr.astype(np.float64).reshape(-1, c.n))
    sp, _, crowd = spread_ev(g, c.pos.arr, F, base.reshape(U.shape), 1.0 / vol, kind)
    mon.compare("spread", back.arr, EV(sp.v.reshape(es), sp.m.reshape(es)), g.rt, c=32 + crowd, **ctx)
    # conservation and adjointness, of what the two calls really returned
    new = back.arr.astype(np.float64).reshape(F.v.shape[0], -1)
    old = base.astype(np.float64).reshape(F.v.shape[0], -1)
    gain = ((new - old).sum(-1)) * vol
    room = (64 + crowd) * eps * (sp.m.reshape(F.v.shape[0], -1).sum(-1) * vol + np.abs(F.v).sum(-1))
    mon.count("conservation_sums", len(gain))
    mon.require(bool((np.abs(gain - F.v.sum(-1)) <= room).all()), "spread-not-conservative",
                gained=gain.tolist(), spread=F.v.sum(-1).tolist(), **ctx)
    u = U.astype(np.float64).reshape(F.v.shape[0], -1)
    left = ((new - old) * u).sum() * vol
    right = (lag.arr.astype(np.float64).reshape(F.v.shape) * F.v).sum()
    room = (64 + crowd) * eps * ((sp.m.reshape(u.shape) * np.abs(u)).sum() * vol
                       + (ref.m * np.abs(F.v)).sum())
    mon.count("adjoint_products")
    mon.require(abs(left - right) <= room, "not-adjoint", left=float(left), right=float(right),
                room=float(room), **ctx)
    mon.case(("physical", digest(eul.arr, f.arr, c.pos.arr)), bool(np.any(F.v)), ctx)


# ------------------------------------------------------------- C23, C24


class Body:
    """A forcing object with its own grid, markers and fields."""

    def __init__(self, mon, rng, d, rt, like=None):
        self.mon, self.d, self.rt = mon, d, rt
        if like is None:
            self.g, self.n = Geometry(rng, d, rt), node_count(rng)
        else:                                  # looks like a live one
            self.g, self.n = like.g.alike(rng), like.n if rng.random() < 0.7 else node_count(rng)
            mon.count("lookalike_objects")
        self.pos = contiguous(rng, (d, self.n), rt)
        self.vel = contiguous(rng, (d, self.n), rt)
        if like is not None and self.g.shape == like.g.shape and rng.random() < 0.7:
            self.flow = like.flow              # two bodies in one flow
            mon.count("shared_flows")
        else:
            self.flow = Arr(rng, (d, *self.g.shape), rt, eul_layout(rng))
        self.out = Arr(rng, (d, *self.g.shape), rt, eul_layout(rng))
        self.pos.arr[...] = self.g.nodes(rng, self.n)
        fill(rng, self.vel.arr)
        fill(rng, self.flow.arr)
        dirty(rng, self.out.arr)
        self.reset = bool(rng.random() < 0.5)
        self.threads = False if rng.random() < 0.7 else int(rng.integers(1, 4))
        self.calls = 0

    def scalar(self, v):
        return v

    def move(self, rng):
        if rng.random() < 0.6:
            self.pos.arr[...] = self.g.nodes(rng, self.n)
        if rng.random() < 0.6:
            fill(rng, self.vel.arr)
        if rng.random() < 0.6:
            fill(rng, self.flow.arr)
            if rng.random() < 0.3:                 # nothing outside the supports matters
                _, _, mask = self.g.delta(self.pos.arr, "cosine")
                self.flow.arr[np.broadcast_to(~mask.any(0), self.flow.arr.shape)] = np.nan
            elif np.isnan(self.flow.arr).any():
                fill(rng, self.flow.arr, "normal")
        elif np.isnan(self.flow.arr).any():
            fill(rng, self.flow.arr, "normal")

    def coef(self, rng):
        k = rng.random()
        v = 0.0 if k < 0.05 else float(rng.uniform(0.1, 5)) if k < 0.6 else float(
            10.0 ** (rng.uniform(-3, 5) if k < 0.9 else rng.uniform(5, 11)))
        return self.rt(v) if rng.random() < 0.5 else float(self.rt(v))

    def step(self, rng):
        v = float(10.0 ** (rng.uniform(-4, 0.3) if rng.random() < 0.85 else rng.uniform(-13, -4)))
        return self.rt(v) if rng.random() < 0.5 else float(self.rt(v))

    def judge_spread(self, base, force, scale, ctx, what):
        ref, mask, crowd = spread_ev(self.g, self.pos.arr, force, base, scale)
        full = np.broadcast_to(mask, self.out.arr.shape)
        self.mon.compare(what, self.out.arr, ref, self.rt, mask=full, c=32 + crowd, **ctx)
        far = self.out.arr[~full]
        want = base[~full]
        self.mon.count("cells_outside_supports", int(far.size))
        if far.tobytes() != want.astype(self.rt).tobytes():
            raise Violation("cell-outside-support-differs", array=what, **ctx)
        total = (self.out.arr.astype(np.float64) - base).reshape(self.d, -1).sum(-1) / scale
        room = (64 + crowd) * float(np.finfo(self.rt).eps) * (
            (ref.m.reshape(self.d, -1).sum(-1)) / scale + force.m.sum(-1))
        self.mon.count("conservation_sums", self.d)
        with np.errstate(invalid="ignore"):
            bad = np.abs(total - force.v.sum(-1)) > room
        self.mon.require(not bad.any(), "spread-not-conservative", got=total.tolist(),
                         expected=force.v.sum(-1).tolist(), **ctx)

    def prepare_out(self, rng):
        """Earlier contents: anything when reset, finite otherwise."""
        if self.reset and rng.random() < 0.5:
            dirty(rng, self.out.arr)
        elif not self.reset and (rng.random() < 0.5 or not np.isfinite(self.out.arr).all()):
            fill(rng, self.out.arr)
        if self.reset:
            return np.zeros(self.out.arr.shape)
        return self.out.arr.astype(np.float64)


class Virtual(Body):
    def __init__(self, mon, rng, d, rt, like=None):
        super().__init__(mon, rng, d, rt, like)
        self.k, self.b = self.coef(rng), self.coef(rng)
        if rng.random() < 0.5:
            self.k, self.b = type(self.k)(-self.k), type(self.b)(-self.b)
        g = self.g
        kw = {}
        self.start = float(rng.choice([0.0, 1.5, -2.0, 1e3])) if rng.random() < 0.5 else None
        if self.start is not None:
            kw["start_time"] = self.start
        if rng.random() < 0.4:
            g.shift = rt(g.dx / 2)                 # the default
            self.pos.arr[...] = g.nodes(rng, self.n)
        else:
            kw["eul_grid_coord_shift"] = g.shift
        if rng.random() < 0.5:
            kw["interp_kernel_width"] = 2
        if not self.reset or rng.random() < 0.5:
            kw["enable_eul_grid_forcing_reset"] = self.reset
        if self.threads:
            kw["num_threads"] = self.threads
        self.obj = mon.call(
            "VirtualBoundaryForcing", ib().VirtualBoundaryForcing,
            virtual_boundary_stiffness_coeff=self.k, virtual_boundary_damping_coeff=self.b,
            grid_dim=d, dx=g.dx, num_lag_nodes=self.n, real_t=rt, **kw)
        self.time = EV(np.float64(self.start or 0.0))
        self.xi = EV(np.zeros((d, self.n)))
        self.steps = 0
        self.wanted_mismatch = EV(np.zeros((d, self.n)))
        mon.seen("objects", (d, np.dtype(rt).name, self.reset, self.threads))

    def ctx(self):
        return {"geometry": self.g.describe(), "nodes": self.n, "stiffness": repr(self.k),
                "damping": repr(self.b), "reset": self.reset, "calls": self.calls}

    FIELDS = ("lag_grid_position_mismatch_field", "lag_grid_velocity_mismatch_field",
              "lag_grid_forcing_field", "lag_grid_flow_velocity_field")

    def snap(self):
        return {k: np.array(getattr(self.obj, k)) for k in self.FIELDS}

    def judge_state(self, ctx):
        c = 32 + 4 * self.steps
        self.mon.compare("position mismatch", self.obj.lag_grid_position_mismatch_field, self.xi,
                         self.rt, c=c, **ctx)
        t = float(self.obj.time)
        eps = float(np.finfo(self.rt).eps)
        self.mon.require(abs(t - float(self.time.v)) <= 8 * eps * float(self.time.m), "time",
                         got=t, expected=float(self.time.v), **ctx)

    def interact(self, mon, rng):
        ctx = self.ctx()
        which = ("forcing", "lag", "add")[int(rng.choice(3, p=[.6, .2, .2]))]
        ctx["call"] = which
        base = self.prepare_out(rng)
        if which == "add":
            if not np.isfinite(self.out.arr).all():
                fill(rng, self.out.arr)
            base = self.out.arr.astype(np.float64)
        before = self.snap()
        flow = {"eul_grid_velocity_field": self.flow, "lag_grid_position_field": self.pos,
                "lag_grid_velocity_field": self.vel}
        kw = {k: a.arr for k, a in flow.items()}
        if which == "lag":
            watch = Watch(mon, {**flow, "eul_grid_forcing_field": self.out}, {}, ctx)
            fn = self.obj.compute_interaction_force_on_lag_grid
        else:
            watch = Watch(mon, flow, {"eul_grid_forcing_field": self.out}, ctx)
            kw["eul_grid_forcing_field"] = self.out.arr
            fn = (self.obj.compute_interaction_forcing if which == "forcing"
                  else self.obj.compute_interaction_force_on_eul_and_lag_grid)
        mon.call(which, fn, **kw)
        watch.check()
        mon.count("interactions")
        now = self.snap()
        u = interp_ev(self.g, self.pos.arr, self.flow.arr)
        mon.compare("flow velocity", now["lag_grid_flow_velocity_field"], u, self.rt, c=32, **ctx)
        self.wanted_mismatch = u - EV(self.vel.arr)
        mon.compare("velocity mismatch", now["lag_grid_velocity_mismatch_field"],
                    self.wanted_mismatch, self.rt, c=32, **ctx)
        if now["lag_grid_position_mismatch_field"].tobytes() != before[
                "lag_grid_position_mismatch_field"].tobytes():
            raise Violation("interaction-moved-position-mismatch", **ctx)
        k, b = EV(np.float64(self.k)), EV(np.float64(self.b))
        law = self.xi * k + self.wanted_mismatch * b
        mon.compare("force", now["lag_grid_forcing_field"], law, self.rt, c=32 + 4 * self.steps,
                    **ctx)
        # the same law on the fields as published, which is sharper
        own = (EV(now["lag_grid_position_mismatch_field"]) * k
               + EV(now["lag_grid_velocity_mismatch_field"]) * b)
        mon.compare("force law", now["lag_grid_forcing_field"], own, self.rt, **ctx)
        if which != "lag":
            self.judge_spread(base, EV(now["lag_grid_forcing_field"]),
                              1.0 / float(self.g.dx) ** self.d, ctx, "eulerian forcing")
        self.judge_state(ctx)
        self.calls += 1
        mon.case((which, digest(self.pos.arr, self.vel.arr, *now.values()), self.reset),
                 bool(np.any(now["lag_grid_forcing_field"])), ctx)

    def advance(self, mon, rng):
        dt = self.step(rng)
        ctx = {**self.ctx(), "call": "time_step", "dt": repr(dt)}
        before = self.snap()
        watch = Watch(mon, {"flow": self.flow, "position": self.pos, "velocity": self.vel,
                            "forcing": self.out}, {}, ctx)
        mon.call("time_step", self.obj.time_step, dt=dt)
        watch.check()
        mon.count("time_steps")
        self.steps += 1
        now = self.snap()
        for k in self.FIELDS[1:]:
            if now[k].tobytes() != before[k].tobytes():
                raise Violation("time-step-changed-field", field=k, **ctx)
        e = EV(np.float64(dt))
        mon.compare("position mismatch step", now["lag_grid_position_mismatch_field"],
                    EV(before["lag_grid_position_mismatch_field"])
                    + EV(before["lag_grid_velocity_mismatch_field"]) * e, self.rt, **ctx)
        self.xi = self.xi + self.wanted_mismatch * e
        self.time = self.time + e
        self.judge_state(ctx)
        self.calls += 1
        mon.case(("step", digest(*now.values()), repr(dt)),
                 bool(np.any(now["lag_grid_velocity_mismatch_field"])), ctx)


    def long_history(self, mon, rng):
        """Hundreds of steps in a steady flow past a steady body."""
        fill(rng, self.flow.arr, "normal")
        if not np.isfinite(self.out.arr).all():
            fill(rng, self.out.arr)
        self.interact(mon, rng)
        kw = {"eul_grid_forcing_field": self.out.arr, "eul_grid_velocity_field": self.flow.arr,
              "lag_grid_position_field": self.pos.arr, "lag_grid_velocity_field": self.vel.arr}
        n = int(rng.integers(60, 300))
        dt = self.rt(1e-3)

        def loop():
            for _ in range(n):
                self.obj.compute_interaction_forcing(**kw)
                self.obj.time_step(dt=dt)

        mon.call("long history", loop)
        mon.count("bursts")
        mon.count("time_steps", n)
        mon.count("interactions", n)
        e = EV(np.float64(dt))
        for _ in range(n):
            self.xi = self.xi + self.wanted_mismatch * e
            self.time = self.time + e
        self.steps += n
        self.calls += 2 * n
        fill(rng, self.out.arr)
        self.judge_state(self.ctx())


def virtual(mon, rng, d, rt, tier):
    bodies = [Virtual(mon, rng, d, rt) for _ in range(2)]
    bodies.append(Virtual(mon, rng, d, rt, like=bodies[0]))
    for _ in range(60 if tier == "quick" else 200):
        b = bodies[int(rng.integers(0, 3))]
        others = [(o, o.snap(), o.out.arr.copy(), float(o.obj.time)) for o in bodies if o is not b]
        if rng.random() < 0.45:
            b.advance(mon, rng)
        else:
            b.move(rng)
            b.interact(mon, rng)
        for o, s, e, t in others:
            now = o.snap()
            mon.count("bystander_checks")
            if (any(now[k].tobytes() != s[k].tobytes() for k in s)
                    or o.out.arr.tobytes() != e.tobytes() or float(o.obj.time) != t):
                raise Violation("another-instance-changed", **b.ctx())
    b = min(bodies, key=lambda b: b.n)
    if b.n <= 12 and (rng.random() < 0.3 or tier != "quick"):
        b.long_history(mon, rng)
        b.move(rng)
        b.interact(mon, rng)
        b.advance(mon, rng)


class Brinkmann(Body):
    FIELDS = ("lag_grid_flow_velocity_field", "lag_grid_penalised_velocity_field",
              "lag_grid_penalisation_flux", "lag_grid_penalisation_forcing")

    def __init__(self, mon, rng, d, rt, like=None):
        super().__init__(mon, rng, d, rt, like)
        self.k = self.coef(rng)
        kw = {}
        if not self.reset or rng.random() < 0.5:
            kw["enable_eul_grid_flux_reset"] = self.reset
        if self.threads:
            kw["num_threads"] = self.threads
        self.obj = mon.call(
            "BrinkmannBoundaryForcing", brinkmann_class(), brinkmann_coeff=self.k, grid_dim=d,
            dx=self.g.dx, eul_grid_coord_shift=self.g.shift, num_lag_nodes=self.n,
            interp_kernel_width=2, real_t=rt, **kw)
        self.seen = []
        mon.seen("objects", (d, np.dtype(rt).name, self.reset, self.threads))

    def ctx(self):
        return {"geometry": self.g.describe(), "nodes": self.n, "coefficient": repr(self.k),
                "reset": self.reset, "calls": self.calls}

    def snap(self):
        return {k: np.array(getattr(self.obj, k)) for k in self.FIELDS}

    def interact(self, mon, rng):
        dt = self.step(rng)
        again = None
        if self.seen and rng.random() < 0.25:      # earlier arguments once more
            again = self.seen[int(rng.integers(0, len(self.seen)))]
            self.pos.arr[...], self.vel.arr[...], self.flow.arr[...], out, dt = again[:5]
            self.out.arr[...] = out
            base = np.zeros(out.shape) if self.reset else out.astype(np.float64)
        else:
            if rng.random() < 0.15:
                self.flow.arr[...] = self.rt(0.75)  # the body moves with a uniform flow
                self.vel.arr[...] = self.rt(0.75)
            base = self.prepare_out(rng)
        args = (self.pos.arr.copy(), self.vel.arr.copy(), self.flow.arr.copy(),
                self.out.arr.copy(), dt)
        ctx = {**self.ctx(), "dt": repr(dt), "repeat": again is not None}
        flow = {"eul_grid_velocity_field": self.flow, "lag_grid_position_field": self.pos,
                "lag_grid_velocity_field": self.vel}
        watch = Watch(mon, flow, {"eul_grid_penalisation_flux": self.out}, ctx)
        mon.call("compute_interaction_forcing", self.obj.compute_interaction_forcing,
                 eul_grid_penalisation_flux=self.out.arr, dt=dt,
                 **{k: a.arr for k, a in flow.items()})
        watch.check()
        mon.count("interactions")
        now = self.snap()
        u = interp_ev(self.g, self.pos.arr, self.flow.arr)
        mon.compare("flow velocity", now["lag_grid_flow_velocity_field"], u, self.rt, c=32, **ctx)
        kdt = float(self.k) * float(dt)
        ub = self.vel.arr.astype(np.float64)
        blend = EV((u.v + kdt * ub) / (1 + kdt), (u.m + kdt * np.abs(ub)) / (1 + kdt))
        mon.compare("penalised velocity", now["lag_grid_penalised_velocity_field"], blend, self.rt,
                    c=32, **ctx)
        flux = EV((ub - u.v) * (kdt / (1 + kdt)), u.m + blend.m)
        mon.compare("flux", now["lag_grid_penalisation_flux"], flux, self.rt, c=32, **ctx)
        own = (EV(now["lag_grid_penalised_velocity_field"]) - EV(now["lag_grid_flow_velocity_field"]))
        mon.compare("flux law", now["lag_grid_penalisation_flux"], own, self.rt, **ctx)
        f = now["lag_grid_penalisation_flux"].astype(np.float64) * float(
            self.g.dx) ** self.d / float(dt)
        mon.compare("forcing", now["lag_grid_penalisation_forcing"], EV(f), self.rt, **ctx)
        self.judge_spread(base, EV(now["lag_grid_penalisation_flux"]), 1.0, ctx, "eulerian flux")
        if again is not None:
            mon.count("repeat_probes")
            if any(now[k].tobytes() != again[5][k].tobytes() for k in now) or (
                    self.out.arr.tobytes() != again[6].tobytes()):
                raise Violation("result-depends-on-history", **ctx)
        elif len(self.seen) < 12:
            self.seen.append(args + (now, self.out.arr.copy()))
        self.calls += 1
        mon.case((digest(self.pos.arr, self.vel.arr, *now.values()), self.reset),
                 bool(np.any(now["lag_grid_penalisation_flux"])), ctx)


def brinkmann(mon, rng, d, rt, tier):
    bodies = [Brinkmann(mon, rng, d, rt) for _ in range(2)]
    bodies.append(Brinkmann(mon, rng, d, rt, like=bodies[0]))
    for _ in range(45 if tier == "quick" else 150):
        b = bodies[int(rng.integers(0, 3))]
        others = [(o, o.snap(), o.out.arr.copy()) for o in bodies if o is not b]
        b.move(rng)
        b.interact(mon, rng)
        for o, s, e in others:
            now = o.snap()
            mon.count("bystander_checks")
            if any(now[k].tobytes() != s[k].tobytes() for k in s) or (
                    o.out.arr.tobytes() != e.tobytes()):
                raise Violation("another-instance-changed", **b.ctx())
    b = min(bodies, key=lambda b: b.n)
    if b.n <= 12 and (rng.random() < 0.3 or tier != "quick"):
        fill(rng, b.flow.arr, "normal")
        dt = b.rt(1e-2)

        def loop():
            for _ in range(int(rng.integers(60, 300))):
                b.out.arr[...] = 0
                b.obj.compute_interaction_forcing(
                    eul_grid_penalisation_flux=b.out.arr, eul_grid_velocity_field=b.flow.arr,
                    lag_grid_position_field=b.pos.arr, lag_grid_velocity_field=b.vel.arr, dt=dt)

        mon.call("long history", loop)
        mon.count("bursts")
        for _ in range(2):
            b.move(rng)
            b.interact(mon, rng)
