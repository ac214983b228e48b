"""C01-C10: every call of every grid kernel against its independent model."""
import numpy as np

import registry as R
from core import Arr, Violation, digest, fill, pick_shape
from ev import EV
from sessions import Instance, THREADS, interleaved, judged_call, make_instances, ns, sizes

FAMILY = {
    "C01": "advection", "C02": "diffusion", "C03": "curl", "C04": "vortupdate",
    "C05": "stretching", "C06": "filter", "C07": "brinkmann", "C08": "char",
    "C09": "penalise", "C10": "elementwise",
}
RT = {"f32": np.float32, "f64": np.float64}
# how many kernel instances one group may hold
CHUNK = {"C06": 2, "C09": 2, "C10": 2}


def groups(prop, tier):
    out = []
    for s in R.family(FAMILY[prop]):
        n = CHUNK.get(prop, 4)
        chunks = [list(range(i, min(i + n, len(s.variants))))
                  for i in range(0, len(s.variants), n)]
        for ci, ch in enumerate(chunks):
            for rt in RT:
                out.append({"name": f"{s.name}/{rt}/{ci}", "spec": s.name, "rt": rt,
                            "variants": ch, "cost": s.cost * len(ch) + 1})
    for rel in RELATIONS.get(prop, ()):
        for rt in RT:
            out.append({"name": f"relation/{rel.__name__}/{rt}", "rel": rel.__name__, "rt": rt,
                        "cost": 4.0})
    if tier == "thorough":
        out = [{**g, "name": f"{g['name']}#{k}", "round": k} for g in out for k in range(4)]
    return out


BYNAME = {s.name: s for s in R.SPECS}


def run(mon, rng, g, tier):
    rt = RT[g["rt"]]
    if "rel" in g:
        globals()[g["rel"]](mon, rng, rt, tier)
        return
    spec = BYNAME[g["spec"]]
    inst = make_instances(mon, rng, spec, tier, (rt,),
                          variants=[dict(spec.variants[i]) for i in g["variants"]])
    heavy = mon.prop in CHUNK
    if spec.bound or tier == "thorough" or not heavy:
        # further shapes for kernels tied to one shape by their buffers
        inst += make_instances(mon, rng, spec, tier, (rt,),
                               variants=[dict(spec.variants[i]) for i in g["variants"]])
    known = KNOWN.get(mon.prop)
    for i in inst:                       # each at least twice
        judged_call(mon, rng, i, tier, known=known)
        judged_call(mon, rng, i, tier, known=known)
    n = ((16 if heavy else 40) if tier == "quick" else 120) * len(inst)
    interleaved(mon, rng, inst, n, tier, known=known)
    if not spec.bound:
        free = [i for i in inst if not i.fixed]
        lo, hi = sizes(spec, tier)
        for i in free:                   # minimal and degenerate shapes
            for shp in minimal_shapes(rng, spec, lo):
                judged_call(mon, rng, i, tier, shape=shp, known=known)
                mon.count("minimal_shape_calls")


def minimal_shapes(rng, spec, lo):
    d = spec.dim
    out = [(lo,) * d, (lo + 1,) * d]
    for a in range(d):
        s = [lo] * d
        s[a] = lo + int(rng.integers(3, 20))
        out.append(tuple(s))
    return out


# ------------------------------------------------------------ known findings


def known_rk3(mon, call, v):
    if v.kind != "wrong-value" or "ssprk3" not in call.inst.spec.name:
        return False
    w = EV(call.arrs["vorticity_field"].before)
    u = EV(call.arrs["velocity_field"].before)
    p = EV(float(call.inst.real_t(call.scalars["dt_by_2_dx"])))
    ref = R.ssprk3(w, u, p, third=0.5)
    out = call.arrs["vorticity_field"].arr
    mon.compare("ssprk3 with the half-step third stage", out, ref, out.dtype,
                call=call.describe())
    mon.known_or_raise("ssprk3-third-stage-half-step", "wrong-value", **v.detail)
    return True


KNOWN = {"C05": known_rk3}


# ---------------------------------------------------------------- relations


def sumtol(a, n_terms, dtype):
    return 64 * float(np.finfo(dtype).eps) * n_terms * float(np.abs(a).max() + 1e-30)


def compact(rng, shape, margin, rt):
    f = np.zeros(shape, rt)
    sl = tuple(slice(margin, n - margin) for n in shape[-len(shape):])
    f[sl] = rng.standard_normal(f[sl].shape)
    return f


def conservation(mon, rng, rt, tier):
    """Compactly supported scalars lose nothing to the ENO3 fluxes."""
    eps = float(np.finfo(rt).eps)
    e = ns()
    for d in (2, 3):
        th = THREADS[int(rng.integers(0, 6))]
        kf = mon.call("advection flux", getattr(
            e, f"gen_advection_flux_conservative_eno3_pyst_kernel_{d}d"), real_t=rt,
            num_threads=th)
        kt = mon.call("advection step", getattr(
            e, f"gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel_{d}d"),
            real_t=rt, num_threads=th)
        for _ in range(6 if tier == "quick" else 40):
            shape = tuple(int(rng.integers(11, 20 if d == 2 else 15)) for _ in range(d))
            f = compact(rng, shape, 5, rt)
            v = np.empty((d, *shape), rt)
            k = rng.random()
            if k < 0.4:
                fill(rng, v, "normal")
            elif k < 0.7:            # face velocities cancel exactly on most faces
                v[...] = rng.choice([-1, 1], v.shape) * rng.integers(1, 3, v.shape)
            else:                    # ... on every face along one axis
                for c in range(d):
                    idx = np.indices(shape)[d - 1 - c if rng.random() < 0.7 else 0]
                    v[c] = (idx % 2 * 2 - 1) * rng.uniform(0.5, 2)
                mon.count("fields_with_every_face_tied")
            flux = np.zeros(shape, rt)
            mon.call("advection flux", kf, advection_flux=flux, field=f, velocity=v, inv_dx=rt(1))
            bound = 200 * eps * float(np.abs(f).sum()) * float(np.abs(v).max()) + 1e-30
            mon.require(abs(float(flux.astype(float).sum())) <= bound, "flux-not-conservative",
                        dim=d, shape=shape, total=float(flux.sum()), bound=bound)
            before = float(f.astype(float).sum())
            for k in range(2):
                if k:
                    f[...] = compact(rng, shape, 5, rt)
                    before = float(f.astype(float).sum())
                mon.call("advection step", kt, field=f, advection_flux=flux, velocity=v,
                         dt_by_dx=rt(0.1))
                mon.require(abs(float(f.astype(float).sum()) - before) <= 2 * bound,
                            "total-not-conserved", dim=d, shape=shape, before=before,
                            after=float(f.sum()), bound=bound)
            mon.case(("conservation", d, shape, digest(f)), True)


def vector_identities(mon, rng, rt, tier):
    """div curl = 0 and curl grad = 0 away from the boundary layers."""
    e = ns()
    eps = float(np.finfo(rt).eps)
    th = THREADS[int(rng.integers(0, 6))]
    curl = mon.call("curl", e.gen_curl_pyst_kernel_3d, real_t=rt, num_threads=th)
    div = mon.call("divergence", e.gen_divergence_pyst_kernel_3d, real_t=rt, num_threads=th)
    ic = mon.call("inplane", e.gen_inplane_field_curl_pyst_kernel_2d, real_t=rt, num_threads=th)
    oc = mon.call("outplane", e.gen_outplane_field_curl_pyst_kernel_2d, real_t=rt, num_threads=th)
    for _ in range(8 if tier == "quick" else 60):
        shape = tuple(int(rng.integers(5, 12)) for _ in range(3))
        u = np.empty((3, *shape), rt)
        fill(rng, u, "normal")
        c, q, z = np.zeros_like(u), np.zeros(shape, rt), np.zeros_like(u)
        mon.call("curl", curl, curl=c, field=u, prefactor=rt(0.5))
        mon.call("divergence", div, divergence=q, field=c, inv_dx=rt(1))
        i2 = (slice(2, -2),) * 3
        mon.require(float(np.abs(q[i2]).max()) <= 400 * eps * float(np.abs(u).max()),
                    "div-curl-nonzero", shape=shape, got=float(np.abs(q[i2]).max()))
        # gradient by definition, then curl
        p = rng.standard_normal(shape).astype(rt)
        grad = np.zeros_like(u)
        for k in range(3):
            ax = 2 - k
            grad[k] = np.roll(p, -1, ax) - np.roll(p, 1, ax)
        mon.call("curl", curl, curl=z, field=grad, prefactor=rt(1))
        mon.require(float(np.abs(z[(slice(None), *i2)]).max()) <= 400 * eps * float(np.abs(p).max()),
                    "curl-grad-nonzero", shape=shape)
        mon.case(("identities", shape, digest(u, p)), True)
        s2 = tuple(int(rng.integers(5, 16)) for _ in range(2))
        psi = rng.standard_normal(s2).astype(rt)
        v2 = np.zeros((2, *s2), rt)
        mon.call("outplane", oc, curl=v2, field=psi, prefactor=rt(0.5))
        # divergence by definition: d/dx of component 0 (axis 1) + d/dy of component 1 (axis 0)
        w = v2.astype(float)
        dv = w[0][2:-2, 3:-1] - w[0][2:-2, 1:-3] + w[1][3:-1, 2:-2] - w[1][1:-3, 2:-2]
        mon.require(float(np.abs(dv).max()) <= 400 * eps * float(np.abs(psi).max()),
                    "div-outplane-curl-nonzero", shape=s2)
        g2 = np.stack([np.roll(psi, -1, 1) - np.roll(psi, 1, 1),
                       np.roll(psi, -1, 0) - np.roll(psi, 1, 0)])
        z2 = np.zeros(s2, rt)
        mon.call("inplane", ic, curl=z2, field=g2.astype(rt), prefactor=rt(1))
        mon.require(float(np.abs(z2[2:-2, 2:-2]).max()) <= 400 * eps * float(np.abs(psi).max()),
                    "inplane-curl-grad-nonzero", shape=s2)
        mon.case(("identities2", s2, digest(psi)), True)


def update_agreement(mon, rng, rt, tier):
    """Penalised-velocity update == forcing update of the difference; equal fields: no change."""
    e = ns()
    eps = float(np.finfo(rt).eps)
    for d in (2, 3):
        th = THREADS[int(rng.integers(0, 6))]
        kf = mon.call("forcing update", getattr(
            e, f"gen_update_vorticity_from_velocity_forcing_pyst_kernel_{d}d"), real_t=rt,
            num_threads=th)
        kp = mon.call("penalised update", getattr(
            e, f"gen_update_vorticity_from_penalised_velocity_pyst_kernel_{d}d"), real_t=rt,
            num_threads=th)
        for _ in range(8 if tier == "quick" else 60):
            shape = pick_shape(rng, d, 3, 14 if d == 2 else 9)
            u = rng.standard_normal((d, *shape)).astype(rt)
            pu = rng.standard_normal((d, *shape)).astype(rt)
            w0 = rng.standard_normal(shape if d == 2 else (d, *shape)).astype(rt)
            a, b, c = w0.copy(), w0.copy(), w0.copy()
            mon.call("penalised update", kp, vorticity_field=a, penalised_velocity_field=pu,
                     velocity_field=u, prefactor=rt(0.7))
            mon.call("forcing update", kf, vorticity_field=b,
                     velocity_forcing_field=(pu - u).astype(rt), prefactor=rt(0.7))
            mon.require(float(np.abs(a - b).max()) <= 600 * eps, "updates-disagree", dim=d,
                        shape=shape, diff=float(np.abs(a - b).max()))
            mon.call("penalised update", kp, vorticity_field=c, penalised_velocity_field=u,
                     velocity_field=u.copy(), prefactor=rt(0.7))
            mon.require(float(np.abs(c - w0).max()) <= 64 * eps * 10, "no-op-update-changes",
                        dim=d, shape=shape)
            mon.case(("agreement", d, shape, digest(u, pu, w0)), True)


def stretching_relations(mon, rng, rt, tier):
    """Steps are unchanged for zero dt and zero velocity gradient; RK3 is first-order consistent
    with Euler for small dt up to its documented combination."""
    e = ns()
    eps = float(np.finfo(rt).eps)
    shape = tuple(int(rng.integers(4, 10)) for _ in range(3))
    th = THREADS[int(rng.integers(0, 6))]
    buf = np.full((3, *shape), np.nan, rt)
    rk = mon.call("rk3", e.gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d, real_t=rt,
                  midstep_buffer_vector_field=buf, num_threads=th)
    eu = mon.call("euler", e.gen_vorticity_stretching_timestep_euler_forward_pyst_kernel_3d,
                  real_t=rt, num_threads=th)
    for _ in range(6 if tier == "quick" else 40):
        w0 = rng.standard_normal((3, *shape)).astype(rt)
        u = rng.standard_normal((3, *shape)).astype(rt)
        const = np.broadcast_to(rng.standard_normal((3, 1, 1, 1)), (3, *shape)).astype(rt)
        for k, name in ((rk, "rk3"), (eu, "euler")):
            flux = np.full((3, *shape), np.nan, rt)
            w = w0.copy()
            mon.call(name, k, vorticity_field=w, velocity_field=u,
                     vorticity_stretching_flux_field=flux, dt_by_2_dx=rt(0))
            mon.require(float(np.abs(w - w0).max()) <= 64 * eps * float(np.abs(w0).max()),
                        "zero-step-changes-vorticity", step=name)
            w = w0.copy()
            mon.call(name, k, vorticity_field=w, velocity_field=np.ascontiguousarray(const),
                     vorticity_stretching_flux_field=flux, dt_by_2_dx=rt(0.3))
            mon.require(float(np.abs(w - w0).max()) <= 1000 * eps * 10,
                        "uniform-flow-stretches-vorticity", step=name,
                        diff=float(np.abs(w - w0).max()))
        mon.case(("stretch-relations", shape, digest(w0, u)), True)


def filter_relations(mon, rng, rt, tier):
    """Fields constant in the middle keep their value there; Nyquist modes vanish; known order-0."""
    e = ns()
    eps = float(np.finfo(rt).eps)
    shape = tuple(int(rng.integers(13, 17)) for _ in range(3))
    for kind in ("multiplicative", "convolution"):
        for order in (1, 2):
            a, b = np.full(shape, np.nan, rt), np.full(shape, np.nan, rt)
            k = mon.call("filter", e.gen_laplacian_filter_kernel_3d, filter_order=order,
                         filter_flux_buffer=a, field_buffer=b, real_t=rt, num_threads=2,
                         field_type="scalar", filter_type=kind)
            idx = np.indices(shape).astype(float)
            for _ in range(3 if tier == "quick" else 20):
                c = rng.standard_normal(4)
                f0 = (c[3] + sum(c[i] * idx[i] / 10 for i in range(3))).astype(rt)
                f = f0.copy()
                mon.call("filter", k, scalar_field=f)
                # boundary zeros travel inwards `order` cells per application along one axis
                m = order * (1 if kind == "convolution" else 1) + 1
                sl = (slice(m, -m),) * 3
                mon.require(float(np.abs(f - f0)[sl].max()) <= 2000 * eps * 10,
                            "linear-field-changed", filter=kind, order=order,
                            diff=float(np.abs(f - f0)[sl].max()))
                par = (idx.sum(0) % 2 * 2 - 1) * float(rng.uniform(0.5, 2))
                f = par.astype(rt)
                mon.call("filter", k, scalar_field=f)
                mon.require(float(np.abs(f[sl]).max()) <= 2000 * eps, "nyquist-mode-survives",
                            filter=kind, order=order, got=float(np.abs(f[sl]).max()))
                mon.case(("filter-relations", kind, order, shape, digest(f0)), True)


def filter_order_zero(mon, rng, rt, tier):
    """Order zero: the result must not depend on what the scratch buffers held."""
    e = ns()
    shape = (6, 7, 8)
    for kind in ("multiplicative", "convolution"):
        f0 = rng.standard_normal(shape).astype(rt)
        outs = []
        for val in (0.0, 3.0):
            a, b = np.full(shape, val, rt), np.full(shape, val, rt)
            try:
                k = e.gen_laplacian_filter_kernel_3d(
                    filter_order=0, filter_flux_buffer=a, field_buffer=b, real_t=rt,
                    num_threads=False, field_type="scalar", filter_type=kind)
            except ValueError:
                mon.count("order_zero_rejected")
                return
            a[...] = val
            b[...] = val
            f = f0.copy()
            mon.call("filter order 0", k, scalar_field=f)
            outs.append(f)
        mon.case(("filter0", kind, digest(f0)), True)
        if not np.array_equal(*outs):
            mon.known_or_raise("filter-order-zero-reads-stale-buffer",
                               "result-depends-on-scratch-buffer", filter_type=kind, order=0)


def blend_relations(mon, rng, rt, tier):
    """chi = 0 keeps the field, results lie between field and target, large factors hit the target."""
    e = ns()
    eps = float(np.finfo(rt).eps)
    kernels = []
    for d in (2, 3):
        for ft in ("scalar", "vector"):
            kernels.append((d, ft, False, mon.call("brinkmann", getattr(
                e, f"gen_brinkmann_penalise_pyst_kernel_{d}d"), real_t=rt, field_type=ft,
                num_threads=THREADS[int(rng.integers(0, 6))])))
            if d == 2:
                kernels.append((d, ft, True, mon.call(
                    "brinkmann fixed", e.gen_brinkmann_penalise_vs_fixed_val_pyst_kernel_2d,
                    real_t=rt, field_type=ft)))
    for _ in range((6 if tier == "quick" else 40) * len(kernels)):
        d, ft, fixedval, k = kernels[int(rng.integers(0, len(kernels)))]
        shape = pick_shape(rng, d, 1, 12 if d == 2 else 7)
        lead = (d,) if ft == "vector" else ()
        pre = "vector_field" if lead else "field"
        f = rng.standard_normal(lead + shape).astype(rt)
        chi = np.where(rng.random(shape) < 0.4, 0, rng.random(shape)).astype(rt)
        out = np.full(lead + shape, np.nan, rt)
        if fixedval:
            val = [rt(x) for x in rng.standard_normal(d)] if lead else rt(rng.standard_normal())
            p = np.ones_like(f) * (np.array(val).reshape(d, 1, 1) if lead else val)
            extra = {"penalty_val": val}
        else:
            p = rng.standard_normal(lead + shape).astype(rt)
            extra = {f"penalty_{pre}": p}
        lam = rt(10.0 ** rng.uniform(-4, 12))
        mon.call("brinkmann", k, **{f"penalised_{pre}": out, pre: f, "char_field": chi,
                                    "penalty_factor": lam}, **extra)
        z = np.broadcast_to(chi == 0, f.shape)
        mon.require(bool((np.abs(out - f)[z] <= 8 * eps * np.abs(f)[z]).all()),
                    "field-changed-outside-body", dim=d, field_type=ft)
        lo, hi = np.minimum(f, p), np.maximum(f, p)
        slack = 64 * eps * (np.abs(f) + np.abs(p))
        mon.require(bool(((out >= lo - slack) & (out <= hi + slack)).all()),
                    "blend-not-between", dim=d, field_type=ft)
        if float(lam) > 1e4:
            inside = np.broadcast_to(chi > 0.5, f.shape)
            mon.require(bool((np.abs(out - p)[inside] <= (
                np.abs(f - p) * 4 / float(lam) + slack)[inside]).all()),
                "large-factor-misses-target", dim=d, field_type=ft)
        mon.case(("blend", d, ft, shape, digest(f, chi)), True)


def heaviside_relations(mon, rng, rt, tier):
    e = ns()
    eps = float(np.finfo(rt).eps)
    for d in (2, 3):
        ws = (0.25, 1.0, 7.0)
        ks = [(w, mon.call("char func", getattr(
            e, f"gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel_{d}d"),
            blend_width=w, real_t=rt, num_threads=THREADS[int(rng.integers(0, 6))])) for w in ws]
        for _ in range(12 if tier == "quick" else 80):
            w, k = ks[int(rng.integers(0, len(ks)))]
            shape = (6, 40) if d == 2 else (4, 5, 16)
            n = int(np.prod(shape))
            phi = np.sort(rng.uniform(-2 * w, 2 * w, n))
            if rng.random() < 0.5:
                phi = np.sort(np.concatenate([phi[:n // 2],
                                              w * (1 + rng.uniform(-1e-3, 1e-3, n - n // 2))
                                              * rng.choice([-1, 1], n - n // 2)]))
            phi = phi.astype(rt).reshape(shape)
            a, b = np.full(shape, np.nan, rt), np.full(shape, np.nan, rt)
            mon.call("char func", k, char_func_field=a, level_set_field=phi)
            mon.call("char func", k, char_func_field=b, level_set_field=-phi)
            slack = 16 * eps
            mon.require(bool(((a >= -slack) & (a <= 1 + slack)).all()), "out-of-[0,1]", dim=d,
                        lo=float(a.min()), hi=float(a.max()))
            mon.require(bool((np.diff(a.ravel().astype(float)) >= -slack).all()),
                        "not-monotone", dim=d, width=w)
            mon.require(bool((np.abs(a.astype(float) + b - 1) <= 4 * slack).all()),
                        "not-antisymmetric", dim=d, width=w,
                        worst=float(np.abs(a.astype(float) + b - 1).max()))
            # d chi/d phi <= 1/w: no jump anywhere, band edges included
            jump = np.diff(a.ravel().astype(float)) - np.diff(phi.ravel().astype(float)) / w
            mon.require(bool((jump <= 64 * eps).all()), "discontinuous", dim=d, width=w,
                        worst=float(jump.max()))
            mon.case(("heaviside", d, w, digest(phi)), True)


def penalise_relations(mon, rng, rt, tier):
    """Outermost layers vanish, inner cells are bit-identical, half-grid widths work."""
    e = ns()
    eps = float(np.finfo(rt).eps)
    for d in (2, 3):
        for _ in range(3 if tier == "quick" else 16):
            shape = tuple(int(rng.integers(6, 11)) for _ in range(d))
            w = int(rng.integers(0, min(shape) // 2 + 1))
            dx = float(rng.choice([0.1, 1.0, 1 / 64]))
            org = rng.uniform(-1, 1, d)
            spec = BYNAME[f"gen_penalise_field_boundary_pyst_kernel_{d}d"]
            o = {"width": w, "dx": dx, "origin": tuple(org)}
            if d == 3:
                o["field_type"] = "vector" if rng.random() < 0.5 else "scalar"
            i = Instance(mon, rng, spec, o, rt, THREADS[int(rng.integers(0, 6))],
                         bool(rng.random() < 0.5), shape)
            for _ in range(2):
                judged_call(mon, rng, i, tier)
                mon.seen("penalty_width", w)
            call, _m = judged_call(mon, rng, i, tier)
            if w:
                name = [n for n in call.arrs][0]
                out, before = call.arrs[name].arr, call.arrs[name].before
                big = float(np.abs(before).max()) if before.size else 0.0
                for ax in range(d):
                    for side in (0, -1):
                        layer = np.take(out, side, axis=out.ndim - d + ax)
                        mon.require(float(np.abs(layer).max()) <= 1e-6 * big
                                    + 1000 * eps * big + 1e-30,
                                    "outermost-layer-not-damped", axis=ax, side=side)


def boundary_width_sweep(mon, rng, rt, tier):
    """Boundary setting for every width up to (and past) half the grid."""
    for d in (2, 3):
        spec = BYNAME[f"gen_set_fixed_val_at_boundaries_pyst_kernel_{d}d"]
        for w in ((1, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6)):
            for ft in ("scalar", "vector"):
                i = Instance(mon, rng, spec, {"width": w, "field_type": ft}, rt,
                             THREADS[int(rng.integers(0, 6))], False, None)
                for _ in range(3):
                    shape = tuple(int(rng.integers(max(w, 2), 2 * w + 4)) for _ in range(d))
                    judged_call(mon, rng, i, tier, shape=shape)
                    mon.seen("width_vs_shape", (w, shape))


RELATIONS = {
    "C01": [conservation], "C03": [vector_identities], "C04": [update_agreement],
    "C05": [stretching_relations], "C06": [filter_relations, filter_order_zero],
    "C07": [blend_relations], "C08": [heaviside_relations], "C09": [penalise_relations],
    "C10": [boundary_width_sweep],
}
