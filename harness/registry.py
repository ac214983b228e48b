"""Reference models of every grid-kernel generator in sopht.numeric.eulerian_grid_ops.

Each `Spec` knows a generator's public name, its options, the arrays and scalars
its kernel takes (with their documented role), and an independent NumPy model of
the result.  Axis convention: arrays are (z,) y, x; vector component 0, 1, 2 is
x, y, z; so component c belongs to array axis -1-c.

Roles: in (must stay bit-identical), out (previous contents irrelevant),
inout (updated in place), scratch (contents unspecified before and after).

A model returns {array name: (EV, written, exact)}: cells outside `written` must
stay bit-identical, cells in `exact` must equal the model without rounding.
"""
import numpy as np

from ev import EV


def interior_slices(shape, g):
    return tuple(slice(g, max(g, n - g)) for n in shape)


def interior_mask(shape, g):
    m = np.zeros(shape, bool)
    m[interior_slices(shape, g)] = True
    return m


def sh(a, d, g, axis=None, off=0):
    """Interior of width g of the trailing d axes, shifted by off along axis."""
    shape = a.shape[-d:]
    idx = [slice(g, max(g, n - g)) for n in shape]
    if axis is not None:
        ax = axis % d
        s = idx[ax]
        idx[ax] = slice(s.start + off, s.stop + off)
    return a[(Ellipsis, *idx)]


def ax(c):
    return -1 - c


# ------------------------------------------------------------------ models


def central(f, d, c, g=1):
    """f(+1) - f(-1) along the axis of component c, interior only."""
    return sh(f, d, g, ax(c), 1) - sh(f, d, g, ax(c), -1)


def put(shape, g, inner, ghost=None):
    """EV of full shape with `inner` in the interior; ghost value elsewhere."""
    r = EV.zeros(shape)
    if ghost is not None:
        r = EV(ghost.v.copy(), ghost.m.copy())
    r[interior_slices(shape, g)] = inner
    return r


def eno3_flux(f, vel, d, strict=True):
    """Sum over axes of (front face flux - back face flux) on [2:-2]."""
    total = None
    for c in range(d):
        v = vel[c]
        q = f * v
        a = ax(c)

        def s(x, o):
            return sh(x, d, 2, a, o)

        v0, vp, vm = s(v.v, 0), s(v.v, 1), s(v.v, -1)
        up_f = (v0 > -vp) if strict else (v0 >= -vp)
        up_b = (v0 > -vm) if strict else (v0 >= -vm)
        front = EV.where(
            up_f,
            s(q, 1) * (1 / 3) + s(q, 0) * (5 / 6) - s(q, -1) * (1 / 6),
            s(q, 0) * (1 / 3) + s(q, 1) * (5 / 6) - s(q, 2) * (1 / 6),
        )
        back = EV.where(
            up_b,
            s(q, 0) * (1 / 3) + s(q, -1) * (5 / 6) - s(q, -2) * (1 / 6),
            s(q, -1) * (1 / 3) + s(q, 0) * (5 / 6) - s(q, 1) * (1 / 6),
        )
        t = front - back
        total = t if total is None else total + t
    return total


def laplacian(f, d):
    r = sh(f, d, 1) * (-2.0 * d)
    for c in range(d):
        r = r + sh(f, d, 1, ax(c), 1) + sh(f, d, 1, ax(c), -1)
    return r


def curl3(u):
    """Unscaled central-difference curl on the interior, components x, y, z."""
    return [
        central(u[2], 3, 1) - central(u[1], 3, 2),
        central(u[0], 3, 2) - central(u[2], 3, 0),
        central(u[1], 3, 0) - central(u[0], 3, 1),
    ]


def curl2_in(u):
    return central(u[1], 2, 0) - central(u[0], 2, 1)


def curl2_out(f):
    return [central(f, 2, 1), -central(f, 2, 0)]


def stretching(w, u, p):
    """p * (w . grad_central) u_i with a zero outermost layer."""
    shape = w.shape[-3:]
    out = []
    for i in range(3):
        t = None
        for c in range(3):
            term = sh(w[c], 3, 1) * central(u[i], 3, c)
            t = term if t is None else t + term
        out.append(put(shape, 1, t * p))
    return EV.stack(out)


def filter_op(f, c):
    """One-dimensional filter operator along component c; zero outermost layer."""
    inner = (sh(f, 3, 1) * 2.0 - sh(f, 3, 1, ax(c), 1) - sh(f, 3, 1, ax(c), -1)) * 0.25
    return put(f.shape, 1, inner)


def laplacian_filter(f, order, kind):
    if kind == "multiplicative":
        t = f
        for _ in range(order):
            for c in range(3):
                t = filter_op(t, c)
        return f - t
    for c in range(3):
        t = f
        for _ in range(order):
            t = filter_op(t, c)
        f = f - t
    return f


def penalise_boundary(f, d, w, dx, coords):
    """coords[c]: 1D EV of the coordinate along component c."""
    if w == 0:
        return f
    f = f.copy()
    pref = EV((np.pi / 2) / (w * dx))
    for c in range(d):
        a = ax(c) % d
        n = f.shape[a]

        def at(sl):
            idx = [slice(None)] * d
            idx[a] = sl
            return tuple(idx)

        x = coords[c]
        f[at(slice(0, w))] = f[at(slice(w - 1, w))]
        f[at(slice(n - w, n))] = f[at(slice(n - w, n - w + 1))]
        shape1 = [1] * d
        shape1[a] = -1

        def prof(e):
            p = (pref * e).sin()
            return EV(p.v.reshape(shape1), p.m.reshape(shape1))

        f[at(slice(0, w))] = f[at(slice(0, w))] * prof(x[:w] - x[0])
        f[at(slice(n - w, n))] = f[at(slice(n - w, n))] * prof(x[-1] - x[n - w:])
    return f


def heaviside(phi, w):
    s = phi / EV(w)
    mid = (EV(1.0) + s + (s * np.pi).sin() * (1 / np.pi)) * 0.5
    v = np.where(phi.v > w, 1.0, np.where(phi.v < -w, 0.0, mid.v))
    inside = np.abs(phi.v) <= w * (1 + 1e-5)
    m = np.where(inside, mid.m, np.abs(v))
    return EV(v, m)


def boundary_mask(shape, w):
    m = np.ones(shape, bool)
    m[interior_slices(shape, w)] = False
    return m


# ------------------------------------------------------------------ specs

ALL_CHECKED = None


class Spec:
    def __init__(self, name, dim, arrays, model, scalars=None, variants=({},), family="",
                 min_n=1, build=None, gen_kwargs=None, has_fixed=True, bound=False,
                 aliases=(), ties=False, cost=1.0):
        self.name, self.dim, self.arrays, self.model = name, dim, arrays, model
        self.scalars = scalars or (lambda rng, o, r: {})
        self.variants, self.family, self.min_n = list(variants), family, min_n
        self.custom_build = build
        self.gen_kwargs = gen_kwargs or (lambda o: {})
        self.has_fixed, self.bound, self.aliases = has_fixed, bound, aliases
        self.ties, self.cost = ties, cost

    def __repr__(self):
        return self.name

    def arrays_for(self, o):
        return self.arrays(o)

    def build(self, ns, o, real_t, threads, fixed, shape, rng):
        """-> (kernel, internals); internals: {name: ndarray} scratch owned by kernel."""
        ns = Omitting(ns, rng)
        if self.custom_build:
            return self.custom_build(ns, self, o, real_t, threads, fixed, shape, rng)
        kw = dict(real_t=real_t, num_threads=threads, **self.gen_kwargs(o))
        if self.has_fixed:
            kw["fixed_grid_size"] = tuple(shape) if fixed else False
        return getattr(ns, self.name)(**kw), {}


DEFAULTS = {"num_threads": False, "fixed_grid_size": False, "field_type": "scalar",
            "reset_ghost_zone": True, "filter_type": "multiplicative"}


class Omitting:
    """The generators; options that equal the documented default are sometimes left out."""

    def __init__(self, ns, rng):
        self.ns, self.rng = ns, rng

    def __getattr__(self, name):
        gen = getattr(self.ns, name)

        def call(**kw):
            return gen(**{k: v for k, v in kw.items()
                          if not (k in DEFAULTS and type(v) is type(DEFAULTS[k])
                                  and v == DEFAULTS[k] and self.rng.random() < 0.4)})
        return call


def coef(rng, real_t):
    """A scalar parameter: generic, tiny, large, negative, zero; as real_t or float."""
    k = rng.random()
    if k < 0.6:
        v = rng.uniform(0.05, 2.0)
    elif k < 0.7:
        v = -rng.uniform(0.05, 2.0)
    elif k < 0.8:
        v = 10.0 ** rng.uniform(-12, 3)
    elif k < 0.87:
        v = 0.0
    else:
        v = float(rng.integers(1, 4))
    v = float(real_t(v))
    if v == int(v) and rng.random() < 0.4:
        return int(v)
    return real_t(v) if rng.random() < 0.6 else v


SPECS = []


def add(*a, **k):
    s = Spec(*a, **k)
    SPECS.append(s)
    return s


def ftypes(o):
    return {"field_type": o["field_type"]}


SV = ({"field_type": "scalar"}, {"field_type": "vector"})


# ---- advection -----------------------------------------------------------
def adv_flux_model(d):
    def model(I, S, o, shape):
        def one(strict):
            fl = eno3_flux(I["field"], I["velocity"], d, strict) * S["inv_dx"]
            return put(shape, 2, I["advection_flux"][interior_slices(shape, 2)] + fl,
                       ghost=I["advection_flux"])
        return {"advection_flux": ([one(True), one(False)], interior_mask(shape, 2), None)}
    return model


def adv_step_model(d, vec):
    def model(I, S, o, shape):
        key = "vector_field" if (vec and o["field_type"] == "vector") else "field"
        f = I[key]

        def one(strict):
            def step(g):
                fl = eno3_flux(g, I["velocity"], d, strict) * (-S["dt_by_dx"])
                return put(shape, 2, g[interior_slices(shape, 2)] + fl, ghost=g)
            if key == "vector_field":
                return EV.stack([step(f[c]) for c in range(3)])
            return step(f)
        full = np.ones(f.shape, bool)
        exact = np.broadcast_to(~interior_mask(shape, 2), f.shape)
        return {key: ([one(True), one(False)], full, exact)}
    return model


def adv_step_arrays(vec):
    def arrays(o):
        v = vec and o["field_type"] == "vector"
        return {("vector_field" if v else "field"): ("inout", "v" if v else ""),
                "advection_flux": ("scratch", ""), "velocity": ("in", "v")}
    return arrays


for _d in (2, 3):
    add(f"gen_advection_flux_conservative_eno3_pyst_kernel_{_d}d", _d,
        lambda o: {"advection_flux": ("inout", ""), "field": ("in", ""), "velocity": ("in", "v")},
        adv_flux_model(_d), lambda rng, o, r: {"inv_dx": coef(rng, r)},
        family="advection", min_n=4, ties=True, cost=2.0 * _d)
    add(f"gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel_{_d}d", _d,
        adv_step_arrays(_d == 3), adv_step_model(_d, _d == 3),
        lambda rng, o, r: {"dt_by_dx": coef(rng, r)},
        variants=SV if _d == 3 else ({},), gen_kwargs=ftypes if _d == 3 else None,
        family="advection", min_n=4, ties=True, cost=2.0 * _d)


# ---- diffusion -----------------------------------------------------------
def diff_flux_model(d):
    def model(I, S, o, shape):
        vec = o.get("field_type") == "vector"
        fk, ok = (("vector_field", "vector_field_diffusion_flux") if vec
                  else ("field", "diffusion_flux"))
        fields = [I[fk][c] for c in range(3)] if vec else [I[fk]]
        outs = [put(shape, 1, laplacian(f, d) * S["prefactor"]) for f in fields]
        ev = EV.stack(outs) if vec else outs[0]
        w = np.ones(shape, bool) if o["reset_ghost_zone"] else interior_mask(shape, 1)
        ex = ~interior_mask(shape, 1) if o["reset_ghost_zone"] else np.zeros(shape, bool)
        return {ok: (ev, np.broadcast_to(w, ev.shape), np.broadcast_to(ex, ev.shape))}
    return model


def diff_flux_arrays(o):
    if o.get("field_type") == "vector":
        return {"vector_field_diffusion_flux": ("out", "v"), "vector_field": ("in", "v")}
    return {"diffusion_flux": ("out", ""), "field": ("in", "")}


def diff_step_model(d):
    def model(I, S, o, shape):
        vec = o.get("field_type") == "vector"
        k = "vector_field" if vec else "field"

        def step(f):
            fl = laplacian(f, d) * S["nu_dt_by_dx2"]
            return put(shape, 1, f[interior_slices(shape, 1)] + fl, ghost=f)
        ev = EV.stack([step(I[k][c]) for c in range(3)]) if vec else step(I[k])
        return {k: (ev, np.ones(ev.shape, bool),
                    np.broadcast_to(~interior_mask(shape, 1), ev.shape))}
    return model


def diff_step_arrays(o):
    vec = o.get("field_type") == "vector"
    return {("vector_field" if vec else "field"): ("inout", "v" if vec else ""),
            "diffusion_flux": ("scratch", "")}


for _d in (2, 3):
    add(f"gen_diffusion_flux_pyst_kernel_{_d}d", _d, diff_flux_arrays, diff_flux_model(_d),
        lambda rng, o, r: {"prefactor": coef(rng, r)},
        variants=[{"reset_ghost_zone": z, **t} for z in (True, False)
                  for t in (SV if _d == 3 else ({},))],
        gen_kwargs=lambda o: dict(o), family="diffusion", min_n=2, cost=2.0)
    add(f"gen_diffusion_timestep_euler_forward_pyst_kernel_{_d}d", _d, diff_step_arrays,
        diff_step_model(_d), lambda rng, o, r: {"nu_dt_by_dx2": coef(rng, r)},
        variants=SV if _d == 3 else ({},), gen_kwargs=lambda o: dict(o),
        family="diffusion", min_n=2, cost=3.0)


# ---- curl and divergence -------------------------------------------------
def curl_like_model(fn, out, vec_out, scal, factor=1.0):
    def model(I, S, o, shape):
        inner = fn(I["field"])
        inner = inner if vec_out else [inner]
        outs = [put(shape, 1, x * S[scal] * factor) for x in inner]
        ev = EV.stack(outs) if vec_out else outs[0]
        reset = o.get("reset_ghost_zone", False)
        w = np.ones(shape, bool) if reset else interior_mask(shape, 1)
        ex = ~interior_mask(shape, 1) if reset else np.zeros(shape, bool)
        return {out: (ev, np.broadcast_to(w, ev.shape), np.broadcast_to(ex, ev.shape))}
    return model


RG = ({"reset_ghost_zone": True}, {"reset_ghost_zone": False})
add("gen_inplane_field_curl_pyst_kernel_2d", 2,
    lambda o: {"curl": ("out", ""), "field": ("in", "v")},
    curl_like_model(curl2_in, "curl", False, "prefactor"),
    lambda rng, o, r: {"prefactor": coef(rng, r)}, family="curl", min_n=2)
add("gen_outplane_field_curl_pyst_kernel_2d", 2,
    lambda o: {"curl": ("out", "v"), "field": ("in", "")},
    curl_like_model(curl2_out, "curl", True, "prefactor"),
    lambda rng, o, r: {"prefactor": coef(rng, r)}, variants=RG,
    gen_kwargs=lambda o: dict(o), family="curl", min_n=2, cost=3.0)
add("gen_curl_pyst_kernel_3d", 3,
    lambda o: {"curl": ("out", "v"), "field": ("in", "v")},
    curl_like_model(curl3, "curl", True, "prefactor"),
    lambda rng, o, r: {"prefactor": coef(rng, r)}, variants=RG,
    gen_kwargs=lambda o: dict(o), family="curl", min_n=2, cost=4.0)
add("gen_divergence_pyst_kernel_3d", 3,
    lambda o: {"divergence": ("out", ""), "field": ("in", "v")},
    curl_like_model(lambda u: central(u[0], 3, 0) + central(u[1], 3, 1) + central(u[2], 3, 2),
                    "divergence", False, "inv_dx", 0.5),
    lambda rng, o, r: {"inv_dx": coef(rng, r)}, variants=RG,
    gen_kwargs=lambda o: dict(o), family="curl", min_n=2, cost=2.0)


# ---- vorticity update ----------------------------------------------------
def vort_update_model(d, pen):
    def model(I, S, o, shape):
        if pen:
            g = I["penalised_velocity_field"] - I["velocity_field"]
        else:
            g = I["velocity_forcing_field"]
        w0 = I["vorticity_field"]
        inner = [curl2_in(g)] if d == 2 else curl3(g)
        comps = [w0] if d == 2 else [w0[c] for c in range(3)]
        outs = [put(shape, 1, w[interior_slices(shape, 1)] + c * S["prefactor"], ghost=w)
                for w, c in zip(comps, inner)]
        ev = outs[0] if d == 2 else EV.stack(outs)
        return {"vorticity_field": (ev, np.broadcast_to(interior_mask(shape, 1), ev.shape), None)}
    return model


for _d in (2, 3):
    _lead = "" if _d == 2 else "v"
    add(f"gen_update_vorticity_from_velocity_forcing_pyst_kernel_{_d}d", _d,
        lambda o, L=_lead: {"vorticity_field": ("inout", L), "velocity_forcing_field": ("in", "v")},
        vort_update_model(_d, False), lambda rng, o, r: {"prefactor": coef(rng, r)},
        family="vortupdate", min_n=2, cost=1.0 * _d)
    add(f"gen_update_vorticity_from_penalised_velocity_pyst_kernel_{_d}d", _d,
        lambda o, L=_lead: {"vorticity_field": ("inout", L),
                            "penalised_velocity_field": ("in", "v"),
                            "velocity_field": ("in", "v")},
        vort_update_model(_d, True), lambda rng, o, r: {"prefactor": coef(rng, r)},
        family="vortupdate", min_n=2, cost=1.0 * _d)


# ---- vorticity stretching ------------------------------------------------
def stretch_flux_model(I, S, o, shape):
    ev = stretching(I["vorticity_field"], I["velocity_field"], S["prefactor"])
    return {"vorticity_stretching_flux_field": (
        ev, np.ones(ev.shape, bool), np.broadcast_to(~interior_mask(shape, 1), ev.shape))}


def stretch_euler_model(I, S, o, shape):
    w = I["vorticity_field"]
    ev = w + stretching(w, I["velocity_field"], S["dt_by_2_dx"])
    return {"vorticity_field": (
        ev, np.ones(ev.shape, bool), np.broadcast_to(~interior_mask(shape, 1), ev.shape))}


def ssprk3(w, u, p, third=1.0):
    u1 = w + stretching(w, u, p)
    u2 = w * 0.75 + (u1 + stretching(u1, u, p)) * 0.25
    return w * (1 / 3) + (u2 + stretching(u2, u, p * third)) * (2 / 3)


def stretch_rk3_model(I, S, o, shape):
    ev = ssprk3(I["vorticity_field"], I["velocity_field"], S["dt_by_2_dx"])
    return {"vorticity_field": (ev, np.ones(ev.shape, bool), None)}


def stretch_rk3_build(ns, spec, o, real_t, threads, fixed, shape, rng):
    buf = np.empty((3, *shape), real_t)
    k = getattr(ns, spec.name)(real_t=real_t, midstep_buffer_vector_field=buf,
                               num_threads=threads,
                               fixed_grid_size=tuple(shape) if fixed else False)
    return k, {"midstep_buffer_vector_field": buf}


add("gen_vorticity_stretching_flux_pyst_kernel_3d", 3,
    lambda o: {"vorticity_stretching_flux_field": ("out", "v"),
               "vorticity_field": ("in", "v"), "velocity_field": ("in", "v")},
    stretch_flux_model, lambda rng, o, r: {"prefactor": coef(rng, r)},
    family="stretching", min_n=2, cost=6.0)
add("gen_vorticity_stretching_timestep_euler_forward_pyst_kernel_3d", 3,
    lambda o: {"vorticity_field": ("inout", "v"), "velocity_field": ("in", "v"),
               "vorticity_stretching_flux_field": ("scratch", "v")},
    stretch_euler_model, lambda rng, o, r: {"dt_by_2_dx": coef(rng, r)},
    family="stretching", min_n=2, cost=6.0)
add("gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d", 3,
    lambda o: {"vorticity_field": ("inout", "v"), "velocity_field": ("in", "v"),
               "vorticity_stretching_flux_field": ("scratch", "v")},
    stretch_rk3_model, lambda rng, o, r: {"dt_by_2_dx": coef(rng, r)},
    family="stretching", min_n=2, cost=6.0, bound=True, build=stretch_rk3_build)


# ---- Laplacian filter ----------------------------------------------------
def filter_model(I, S, o, shape):
    vec = o["field_type"] == "vector"
    k = "vector_field" if vec else "scalar_field"
    fs = [I[k][c] for c in range(3)] if vec else [I[k]]
    outs = [laplacian_filter(f, o["filter_order"], o["filter_type"]) for f in fs]
    ev = EV.stack(outs) if vec else outs[0]
    ex = ~interior_mask(shape, 1)
    return {k: (ev, np.ones(ev.shape, bool), np.broadcast_to(ex, ev.shape))}


def filter_build(ns, spec, o, real_t, threads, fixed, shape, rng):
    a, b = np.empty(shape, real_t), np.empty(shape, real_t)
    k = getattr(ns, spec.name)(
        filter_order=o["filter_order"], filter_flux_buffer=a, field_buffer=b, real_t=real_t,
        num_threads=threads, fixed_grid_size=tuple(shape) if fixed else False,
        field_type=o["field_type"], filter_type=o["filter_type"])
    return k, {"filter_flux_buffer": a, "field_buffer": b}


add("gen_laplacian_filter_kernel_3d", 3,
    lambda o: {("vector_field" if o["field_type"] == "vector" else "scalar_field"):
               ("inout", "v" if o["field_type"] == "vector" else "")},
    filter_model,
    variants=[{"filter_order": n, "filter_type": t, **f}
              for t in ("multiplicative", "convolution") for f in SV for n in (1, 2, 3, 5)],
    family="filter", min_n=2, bound=True, build=filter_build, cost=4.0)


# ---- Brinkmann penalisation ----------------------------------------------
def brinkmann(f, chi, p, lam):
    lc = chi * lam
    return (f + lc * p) / (lc + 1.0)


def brink_model(d, fixedval):
    def model(I, S, o, shape):
        vec = o["field_type"] == "vector"
        fk, ok, pk = (("vector_field", "penalised_vector_field", "penalty_vector_field") if vec
                      else ("field", "penalised_field", "penalty_field"))
        chi, lam = I["char_field"], S["penalty_factor"]
        outs = []
        for c in range(d if vec else 1):
            f = I[fk][c] if vec else I[fk]
            if fixedval:
                p = EV.of(S["penalty_val"][c] if vec else S["penalty_val"])
            else:
                p = I[pk][c] if vec else I[pk]
            outs.append(brinkmann(f, chi, p, lam))
        ev = EV.stack(outs) if vec else outs[0]
        return {ok: (ev, np.ones(ev.shape, bool), None)}
    return model


def brink_arrays(fixedval):
    def arrays(o):
        vec = o["field_type"] == "vector"
        L = "v" if vec else ""
        r = {("penalised_vector_field" if vec else "penalised_field"): ("out", L),
             "char_field": ("in", "", "chi"),
             ("vector_field" if vec else "field"): ("in", L)}
        if not fixedval:
            r["penalty_vector_field" if vec else "penalty_field"] = ("in", L)
        return r
    return arrays


def pos_coef(rng, real_t):
    k = rng.random()
    if k < 0.1:
        v = 0.0
    elif k < 0.55:
        v = 10.0 ** rng.uniform(-6, 12)
    elif k < 0.7:                # so hard a wall that nothing but the target is left
        v = 10.0 ** rng.uniform(12, 20 if real_t is np.float32 else 60)
    else:
        v = rng.uniform(0, 10)
    return real_t(v)


def brink_scalars(d, fixedval):
    def scalars(rng, o, r):
        s = {"penalty_factor": pos_coef(rng, r)}
        if fixedval:
            if o["field_type"] == "vector":
                s["penalty_val"] = [coef(rng, r) for _ in range(d)]
            else:
                s["penalty_val"] = coef(rng, r)
        return s
    return scalars


BR_ALIAS = {"scalar": [("penalised_field", "field")],
            "vector": [("penalised_vector_field", "vector_field")]}
for _d in (2, 3):
    add(f"gen_brinkmann_penalise_pyst_kernel_{_d}d", _d, brink_arrays(False),
        brink_model(_d, False), brink_scalars(_d, False), variants=SV, gen_kwargs=ftypes,
        family="brinkmann", aliases=BR_ALIAS)
add("gen_brinkmann_penalise_vs_fixed_val_pyst_kernel_2d", 2, brink_arrays(True),
    brink_model(2, True), brink_scalars(2, True), variants=SV, gen_kwargs=ftypes,
    family="brinkmann", aliases=BR_ALIAS)


# ---- characteristic function ---------------------------------------------
def char_model(I, S, o, shape):
    ev = heaviside(I["level_set_field"], o["blend_width"])
    # outside the band the value is a constant, exactly
    ex = np.abs(I["level_set_field"].v) > o["blend_width"] * (1 + 1e-5)
    return {"char_func_field": (ev, np.ones(ev.shape, bool), ex)}


for _d in (2, 3):
    add(f"gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel_{_d}d", _d,
        lambda o: {"char_func_field": ("out", ""), "level_set_field": ("in", "", "levelset")},
        char_model, variants=[{"blend_width": w} for w in (0.05, 0.5, 1.0, 3.0, 0.0078125, 40.0)],
        gen_kwargs=lambda o: dict(o), family="char")


# ---- boundary penalisation -----------------------------------------------
def penalise_model(d):
    def model(I, S, o, shape):
        vec = o.get("field_type") == "vector"
        k = "vector_field" if vec else "field"
        fs = [I[k][c] for c in range(3)] if vec else [I[k]]
        outs = [penalise_boundary(f, d, o["width"], o["dx"], o["_coords"]) for f in fs]
        ev = EV.stack(outs) if vec else outs[0]
        return {k: (ev, np.broadcast_to(boundary_mask(shape, o["width"]), ev.shape)
                    if o["width"] else np.zeros(ev.shape, bool), None)}
    return model


def penalise_build(ns, spec, o, real_t, threads, fixed, shape, rng):
    d = spec.dim
    coords1 = []
    for c in range(d):
        n = shape[ax(c)]
        x0 = o["origin"][c]
        coords1.append((x0 + np.arange(n) * o["dx"]).astype(real_t))
    if d == 2:
        gx, gy = np.meshgrid(coords1[0], coords1[1])
        grids = {"x_grid_field": gx, "y_grid_field": gy}
    else:
        gz, gy, gx = np.meshgrid(coords1[2], coords1[1], coords1[0], indexing="ij")
        grids = {"x_grid_field": gx, "y_grid_field": gy, "z_grid_field": gz}
    grids = {k: np.ascontiguousarray(v) for k, v in grids.items()}
    o["_coords"] = [EV(c) for c in coords1]
    kw = dict(width=o["width"], dx=real_t(o["dx"]), real_t=real_t, num_threads=threads,
              fixed_grid_size=tuple(shape) if fixed else False, **grids)
    if d == 3:
        kw["field_type"] = o["field_type"]
    k = getattr(ns, spec.name)(**kw)
    return k, {("ro:" + n): g for n, g in grids.items()}


for _d in (2, 3):
    add(f"gen_penalise_field_boundary_pyst_kernel_{_d}d", _d,
        lambda o: {("vector_field" if o.get("field_type") == "vector" else "field"):
                   ("inout", "v" if o.get("field_type") == "vector" else "")},
        penalise_model(_d),
        variants=[{"width": w, "dx": dx, "origin": org, **t}
                  for w, dx, org in ((0, 0.1, (0.05, 0.05, 0.05)), (1, 0.1, (0.05, 0.05, 0.05)),
                                     (2, 0.03125, (0.015625, -1.0, 0.5)),
                                     (3, 0.2, (-2.0, 0.0, 1.0)), (4, 1.0, (0.5, 0.5, 0.5)))
                  for t in (SV if _d == 3 else ({},))],
        family="penalise", bound=True, build=penalise_build, min_n=8, cost=4.0)


# ---- elementwise ---------------------------------------------------------
def ew(name, arrays, model, scalars=None, **k):
    for d in (2, 3):
        add(f"{name}_pyst_kernel_{d}d", d, arrays, model, scalars and scalars(d),
            family="elementwise", **k)


def whole(ev):
    return (ev, np.ones(ev.shape, bool), None)


def const_vec(vals, shape):
    return EV.stack([EV.full(shape, v) for v in vals])


ew("gen_elementwise_sum",
   lambda o: {"sum_field": ("out", "v" if o["field_type"] == "vector" else ""),
              "field_1": ("in", "v" if o["field_type"] == "vector" else ""),
              "field_2": ("in", "v" if o["field_type"] == "vector" else "")},
   lambda I, S, o, shape: {"sum_field": whole(I["field_1"] + I["field_2"])},
   variants=SV, gen_kwargs=ftypes,
   aliases=[("sum_field", "field_1"), ("sum_field", "field_2")])

ew("gen_set_fixed_val",
   lambda o: {("vector_field" if o["field_type"] == "vector" else "field"):
              ("out", "v" if o["field_type"] == "vector" else "")},
   lambda I, S, o, shape: (
       {"vector_field": whole(const_vec(S["fixed_vals"], shape))} if o["field_type"] == "vector"
       else {"field": whole(EV.full(shape, S["fixed_val"]))}),
   lambda d: (lambda rng, o, r: {"fixed_vals": [coef(rng, r) for _ in range(d)]}
              if o["field_type"] == "vector" else {"fixed_val": coef(rng, r)}),
   variants=SV, gen_kwargs=ftypes)

ew("gen_elementwise_copy",
   lambda o: {"field": ("out", ""), "rhs_field": ("in", "")},
   lambda I, S, o, shape: {"field": (I["rhs_field"], np.ones(shape, bool), np.ones(shape, bool))})

ew("gen_elementwise_complex_product",
   lambda o: {"product_field": ("out", "", "complex"), "field_1": ("in", "", "complex"),
              "field_2": ("in", "", "complex")},
   lambda I, S, o, shape: {"product_field": whole(EV(
       I["field_1"].v * I["field_2"].v,
       2 * np.abs(I["field_1"].v) * np.abs(I["field_2"].v)))})


def bnd_build(ns, spec, o, real_t, threads, fixed, shape, rng):
    return getattr(ns, spec.name)(real_t=real_t, width=o["width"], num_threads=threads,
                                  field_type=o["field_type"]), {}


ew("gen_set_fixed_val_at_boundaries",
   lambda o: {("vector_field" if o["field_type"] == "vector" else "field"):
              ("inout", "v" if o["field_type"] == "vector" else "")},
   lambda I, S, o, shape: (
       {"vector_field": (const_vec(S["fixed_vals"], shape),
                         np.broadcast_to(boundary_mask(shape, o["width"]),
                                         I["vector_field"].shape), None)}
       if o["field_type"] == "vector" else
       {"field": (EV.full(shape, S["fixed_val"]), boundary_mask(shape, o["width"]), None)}),
   lambda d: (lambda rng, o, r: {"fixed_vals": [coef(rng, r) for _ in range(d)]}
              if o["field_type"] == "vector" else {"fixed_val": coef(rng, r)}),
   variants=[{"width": w, **t} for w in (1, 2, 3, 5) for t in SV],
   build=bnd_build, has_fixed=False, min_n=5, cost=3.0)

ew("gen_add_fixed_val",
   lambda o: ({"sum_field": ("out", "v"), "vector_field": ("in", "v")}
              if o["field_type"] == "vector" else {"sum_field": ("out", ""), "field": ("in", "")}),
   lambda I, S, o, shape: (
       {"sum_field": whole(I["vector_field"] + const_vec(S["fixed_vals"], shape))}
       if o["field_type"] == "vector"
       else {"sum_field": whole(I["field"] + EV.full(shape, S["fixed_val"]))}),
   lambda d: (lambda rng, o, r: {"fixed_vals": [coef(rng, r) for _ in range(d)]}
              if o["field_type"] == "vector" else {"fixed_val": coef(rng, r)}),
   variants=SV, gen_kwargs=ftypes,
   aliases={"scalar": [("sum_field", "field")], "vector": [("sum_field", "vector_field")]})

ew("gen_elementwise_saxpby",
   lambda o: {"sum_field": ("out", "v" if o["field_type"] == "vector" else ""),
              "field_1": ("in", "v" if o["field_type"] == "vector" else ""),
              "field_2": ("in", "v" if o["field_type"] == "vector" else "")},
   lambda I, S, o, shape: {"sum_field": whole(
       I["field_1"] * S["field_1_prefac"] + I["field_2"] * S["field_2_prefac"])},
   lambda d: (lambda rng, o, r: {"field_1_prefac": coef(rng, r), "field_2_prefac": coef(rng, r)}),
   variants=SV, gen_kwargs=ftypes,
   aliases=[("sum_field", "field_1"), ("sum_field", "field_2")])


def cross(I, S, o, shape):
    a, b = I["field_1"], I["field_2"]
    return {"result_field": whole(EV.stack([
        a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]))}


add("gen_elementwise_cross_product_pyst_kernel_3d", 3,
    lambda o: {"result_field": ("out", "v"), "field_1": ("in", "v"), "field_2": ("in", "v")},
    cross, family="elementwise", cost=2.0)


def family(*names):
    return [s for s in SPECS if s.family in names]


# ---- options beyond the listed variants ----------------------------------
def random_options(rng, spec, o, shape):
    """Sometimes another value of a numerical option than the listed ones."""
    o = dict(o)
    if rng.random() < 0.5:
        return o
    if "filter_order" in o:
        o["filter_order"] = int(rng.integers(9, 40) if rng.random() < 0.15 else
                                rng.integers(1, 9))
    if "blend_width" in o:
        o["blend_width"] = float(10 ** rng.uniform(-4, 3))
    if spec.family == "penalise" and o["width"] > 0:
        o["width"] = int(rng.integers(1, min(shape) // 2 + 1))
        o["dx"] = float(10 ** rng.uniform(-4, 3))
        o["origin"] = tuple(float(x) * o["dx"] for x in rng.uniform(-20, 20, 3))
    elif "width" in o and o["width"] > 0:
        o["width"] = int(rng.integers(1, 9))
    return o
