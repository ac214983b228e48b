"""Drive live kernels through randomised histories and judge every call."""
import copy

import numpy as np

from core import Arr, C_TOL, FLOOR, Violation, digest, dirty, fill, pick_shape, real_dtype
from ev import EV
from registry import random_options

THREADS = (False, 1, 2, 3, 4, 5, 8, 16, 6, 7, 12, True)
BIG = 0.03


def ns():
    import sopht.numeric.eulerian_grid_ops as e

    return e


def strip(o):
    return {k: v for k, v in o.items() if not k.startswith("_")}


class Instance:
    """One generated kernel with its options, alive for a whole session."""

    def __init__(self, mon, rng, spec, o, real_t, threads, fixed, shape):
        self.spec, self.o = spec, dict(o)
        self.real_t, self.threads, self.fixed = real_t, threads, fixed
        self.shape = tuple(shape) if (fixed or spec.bound) else None
        self.kernel, self.internals = mon.call(
            f"generate {self.describe()}", spec.build, ns(), self.o, real_t, threads, fixed,
            shape, rng)
        self.ro = {k: v.copy() for k, v in self.internals.items() if k.startswith("ro:")}
        mon.count("kernels_generated")
        mon.seen("generator", spec.name)
        mon.seen("option_set", (spec.name, sorted(strip(o).items())))
        mon.seen("threads", threads)
        mon.seen("grid", "fixed" if fixed else "free")
        mon.seen("precision", np.dtype(real_t).name)
        self.calls = 0
        self.last = None

    def describe(self):
        return (f"{self.spec.name} {strip(self.o)} {np.dtype(self.real_t).name} "
                f"threads={self.threads} "
                f"{'fixed' if self.fixed else 'free'} shape={self.shape}")


def gen_option_list(rng, spec, n=None):
    v = list(spec.variants)
    if n is not None and n < len(v):
        v = [v[i] for i in sorted(rng.permutation(len(v))[:n])]
    return v


def sizes(spec, tier):
    if spec.dim == 2:
        return spec.min_n, 18 if tier == "quick" else 40
    return spec.min_n, 10 if tier == "quick" else 16


def make_instances(mon, rng, spec, tier, real_ts=(np.float32, np.float64), per=None,
                   variants=None, big=BIG):
    """Free-size and fixed-size kernels in each precision, random thread counts."""
    out = []
    lo, hi = sizes(spec, tier)
    hi = max(hi, lo + 3)
    # often everything but one option is shared, as in a real run
    th0 = THREADS[int(rng.integers(0, len(THREADS)))]
    sp0 = pick_shape(rng, spec.dim, lo, hi)
    for o in (variants if variants is not None else gen_option_list(rng, spec, per)):
        for rt in real_ts:
            kinds = [False] if not spec.has_fixed else [False, True]
            for fixed in kinds:
                sp = sp0 if rng.random() < 0.4 else pick_shape(rng, spec.dim, lo, hi, big)
                th = th0 if rng.random() < 0.5 else THREADS[int(rng.integers(0, len(THREADS)))]
                opts = random_options(rng, spec, o, sp)
                out.append(Instance(mon, rng, spec, opts, rt, th, fixed, sp))
    return out


def alias_pairs(spec, o):
    a = spec.aliases
    if isinstance(a, dict):
        a = a.get(o.get("field_type", "scalar"), [])
    return list(a)


def fill_special(rng, a, kind, spec, inst):
    if kind == "chi":
        k = rng.random()
        if k < 0.3:
            a[...] = rng.integers(0, 2, a.shape)
        elif k < 0.4:
            a[...] = 0
        elif k < 0.5:
            a[...] = 1
        elif k < 0.9:
            a[...] = rng.random(a.shape)
        else:                            # the formula does not stop at one
            a[...] = rng.uniform(0, 3, a.shape)
            return "chi>1"
        return "chi"
    if kind == "levelset":
        w = inst.o["blend_width"]
        k = rng.random()
        if k < 0.4:
            a[...] = rng.uniform(-2 * w, 2 * w, a.shape)
        elif k < 0.6:
            a[...] = rng.uniform(-1, 1, a.shape) * 10.0 ** rng.uniform(-4, 4, a.shape)
        elif k < 0.8:
            pts = np.array([-w, w, 0.0, -w * 0.999, w * 0.999, -1.001 * w, 1.001 * w, w / 2, -w / 2])
            a[...] = rng.choice(pts, a.shape)
        else:
            grids = np.meshgrid(*[np.linspace(-2, 2, n) for n in a.shape], indexing="ij")
            a[...] = (np.sqrt(sum(g * g for g in grids)) - 1.0) * w * rng.uniform(0.5, 4)
        return "levelset"
    raise ValueError(kind)


def array_pool(mon):
    """Arrays seen in this group of the run, by shape, type and layout."""
    if getattr(mon, "_pool_group", None) != mon.group:
        mon._pool_group, mon._pool = mon.group, {}
    return mon._pool


def pooled_shape(rng, pool, dim, lo):
    shapes = sorted({k[0][-dim:] for k in pool if len(k[0]) >= dim})
    shapes = [s for s in shapes if min(s) >= lo + (rng.random() < 0.8) * 2]
    return shapes[int(rng.integers(0, len(shapes)))] if shapes else None


def tame(a, role, special):
    """May the values left in an array by an earlier call serve as they are?"""
    if role in ("out", "scratch"):
        return True
    if special in ("chi", "levelset"):
        return False
    with np.errstate(all="ignore"):
        return bool(np.isfinite(a).all()) and float(np.abs(a).max(initial=0.0)) < 1e4


class Call:
    """Arrays, scalars and model for one call of one instance."""

    def __init__(self, mon, rng, inst, tier, shape=None, layout=None, style=None, alias=True,
                 same_inputs_as=None, shape_limit=None, reuse=False):
        spec = inst.spec
        lo, hi = sizes(spec, tier)
        self.inst = inst
        # time loops call kernels on the same arrays again and again; so do many calls here
        mode = rng.random() if reuse and layout is None else 1.0
        mode = "same" if mode < 0.35 else "pool" if mode < 0.6 else "fresh"
        pool = array_pool(mon)
        if shape is None and inst.shape is None and mode != "fresh":
            if mode == "same" and inst.last and (
                    min(inst.last["shape"]) > lo + 1 or rng.random() < 0.2):
                shape = inst.last["shape"]
            elif mode == "pool":
                shape = pooled_shape(rng, pool, spec.dim, lo)
        if inst.shape is not None:
            shape = inst.shape
        elif shape is None:
            shape = pick_shape(rng, spec.dim, lo, max(hi, lo + 3), BIG if reuse else 0)
        self.shape = tuple(shape)
        self.roles, self.arrs, self.styles = {}, {}, {}
        plan = spec.arrays_for(inst.o)
        self.alias = None
        if same_inputs_as is not None:
            self.alias = same_inputs_as.alias
        elif alias and layout is None and rng.random() < 0.3:
            pairs = alias_pairs(spec, inst.o)
            if pairs:
                self.alias = pairs[int(rng.integers(0, len(pairs)))]
        for name, d in plan.items():
            role, lead = d[0], d[1]
            special = d[2] if len(d) > 2 else None
            ashape = ((spec.dim,) if lead == "v" else ()) + self.shape
            dt = np.dtype(inst.real_t)
            if special == "complex":
                dt = np.dtype(np.complex64 if dt == np.float32 else np.complex128)
            if layout is not None:
                lay = layout
            elif inst.fixed:
                lay = "guard"
            else:
                k = rng.random()
                lay = "strided" if k < 0.3 else "general" if k < 0.45 else "guard"
            self.roles[name] = role
            a = None
            if mode == "same" and inst.last:
                a = inst.last["arrs"].get(name)
                if a is not None and (a.arr.shape != ashape or any(
                        a is b for b in self.arrs.values())):
                    a = None
            elif mode == "pool":
                free = [b for b in pool.get((ashape, dt.str, lay), ())
                        if not any(b is c for c in self.arrs.values())]
                if free:
                    a = free[int(rng.integers(0, len(free)))]
            old = a is not None
            if old:
                mon.count("arrays_reused")
            else:
                a = Arr(rng, ashape, dt, lay)
                if reuse:
                    kept = pool.setdefault((ashape, dt.str, lay), [])
                    if len(kept) < 12:
                        kept.append(a)
            self.arrs[name] = a
            if old and same_inputs_as is None and rng.random() < 0.5 and tame(a.arr, role, special):
                self.styles[name] = "kept"
                mon.count("contents_carried_over")
            elif role in ("in", "inout"):
                if same_inputs_as is not None:
                    a.arr[...] = same_inputs_as.arrs[name].before
                    self.styles[name] = "same"
                elif special in ("chi", "levelset"):
                    self.styles[name] = fill_special(rng, a.arr, special, spec, inst)
                else:
                    self.styles[name] = fill(rng, a.arr, style)
            else:
                self.styles[name] = dirty(rng, a.arr)
        if spec.ties and same_inputs_as is None and rng.random() < 0.3:
            # exactly cancelling neighbours: checkerboard-signed velocity
            v = self.arrs["velocity"].arr
            mag = rng.integers(1, 3, v.shape)
            v[...] = np.where(rng.random(v.shape) < 0.5, -1, 1) * mag
            self.styles["velocity"] = "ties"
        if self.alias:
            out, inp = self.alias
            self.arrs[out] = self.arrs[inp]
            self.roles[inp] = "aliased"
        self.scalars = (same_inputs_as.scalars if same_inputs_as is not None
                        else spec.scalars(rng, inst.o, inst.real_t))
        for n, b in inst.internals.items():
            if not n.startswith("ro:") and not (mode == "same" and rng.random() < 0.5):
                self.styles["internal " + n] = dirty(rng, b)
        self.mode = mode
        if reuse:
            inst.last = {"shape": self.shape, "arrs": dict(self.arrs)}

    def model(self):
        I = {}
        for n, r in self.roles.items():
            if r in ("in", "inout", "aliased"):
                I[n] = EV(self.arrs[n].arr)
        S = {}
        for k, v in self.scalars.items():
            S[k] = v if isinstance(v, list) else EV(float(self.inst.real_t(v)))
        return self.inst.spec.model(I, S, self.inst.o, self.shape)

    def describe(self):
        return {
            "kernel": self.inst.describe(), "shape": list(self.shape),
            "alias": self.alias, "styles": self.styles,
            "scalars": {k: str(v) for k, v in self.scalars.items()},
            "layouts": {n: a.layout for n, a in self.arrs.items()},
            "calls_before": self.inst.calls, "arrays": self.mode,
        }

    def run(self, mon):
        self.scalars_before = copy.deepcopy(self.scalars)
        for a in set(self.arrs.values()):
            a.snapshot()
        args = {n: a.arr for n, a in self.arrs.items()}
        mon.call(self.inst.describe(), self.inst.kernel, **args, **self.scalars)
        self.inst.calls += 1
        mon.count("kernel_calls")

    # -- monitors
    def judge_frame(self, mon, model=None):
        """Inputs, guard memory, unwritten cells: bit-identical."""
        d = self.describe()
        for n, a in self.arrs.items():
            mon.count("frame_checks")
            if not a.guards_ok():
                raise Violation("memory-outside-view-changed", array=n, call=d)
            if self.roles[n] == "in" and not a.unchanged():
                raise Violation("input-modified", array=n, call=d)
        for n, before in self.scalars_before.items():
            now = self.scalars[n]
            if type(now) is not type(before) or now != before:
                raise Violation("input-modified", array=n, call=d)
        for n, before in self.inst.ro.items():
            if self.inst.internals[n].tobytes() != before.tobytes():
                raise Violation("grid-coordinates-modified", array=n, call=d)
        if model is not None:
            for n, (ev, written, exact) in model.items():
                if not written.all() and not self.arrs[n].unchanged(~written):
                    raise Violation("cell-outside-output-region-modified", array=n, call=d)

    def judge_value(self, mon, model, c=C_TOL):
        d = self.describe()
        for n, (ev, written, exact) in model.items():
            out = self.arrs[n].arr
            alts = ev if isinstance(ev, list) else [ev]
            label = self.inst.spec.name.replace("gen_", "").replace("_pyst_kernel", "")
            if len(alts) == 1:
                mon.compare(label, out, alts[0], out.dtype, written, c, call=d)
            else:
                # elementwise acceptance of either tie-breaking convention
                e0, e1 = alts
                pick = np.abs(out.astype(float) - e0.v) <= np.abs(out.astype(float) - e1.v)
                mon.compare(label, out, EV.where(pick | (e0.v == e1.v), e0, e1), out.dtype,
                            written, c, call=d)
            if exact is not None and exact.any():
                e = alts[0]
                want = e.v.astype(out.dtype)
                ok = (out == want) | ((np.abs(want) < 1e-30) & (np.abs(out) < 1e-30))
                if not ok[exact].all():
                    raise Violation("value-not-exact", array=n,
                                    index=[int(i) for i in np.argwhere(exact & ~ok)[0]], call=d)

    def nontrivial(self, model):
        for n, (ev, written, exact) in model.items():
            e = ev[0] if isinstance(ev, list) else ev
            if written.any() and np.any(e.m[written] > 0) and not self.arrs[n].unchanged():
                return True
        return False

    def signature(self):
        return (self.inst.describe(), self.shape, self.alias,
                digest(*[self.arrs[n].before for n in sorted(self.arrs)]),
                sorted((k, str(v)) for k, v in self.scalars.items()))


def judged_call(mon, rng, inst, tier, value=True, known=None, **kw):
    call = Call(mon, rng, inst, tier, reuse=True, **kw)
    model = call.model()
    call.run(mon)
    nt = call.nontrivial(model)
    mon.case(call.signature(), nt, call.describe() if nt else None)
    mon.seen("shape", call.shape)
    for n, s in call.styles.items():
        mon.seen("input_style", s)
    try:
        frame_model = {n: (e, w, x) for n, (e, w, x) in model.items()}
        call.judge_frame(mon, frame_model)
        if value:
            call.judge_value(mon, model)
    except Violation as v:
        if known is None or not known(mon, call, v):
            raise
    return call, model


def same_result(mon, a_call, b_call, model, kind, eps_dtype=None, c=C_TOL, **ctx):
    """The written region of two calls on the same inputs, equal up to rounding."""
    for n, (ev, written, exact) in model.items():
        alts = ev if isinstance(ev, list) else [ev]
        mag = np.maximum.reduce([x.m for x in alts])
        a, b = a_call.arrs[n].arr, b_call.arrs[n].arr
        rt = real_dtype(eps_dtype or a.dtype)
        with np.errstate(all="ignore"):
            same = np.abs(a - b) <= c * float(np.finfo(rt).eps) * mag + FLOOR[rt]
            same |= (a == b) | (np.isnan(a) & np.isnan(b))
        mon.count("elements_compared", int(written.sum()))
        if not same[written].all():
            idx = tuple(int(i) for i in np.argwhere(written & ~same)[0])
            raise Violation(kind, array=n, index=list(idx), reference=str(a[idx]),
                            now=str(b[idx]), reference_call=a_call.describe(),
                            call=b_call.describe(), **ctx)


def burst(mon, rng, inst, tier):
    """Hundreds of calls in a row on the same arrays, as a time loop makes them."""
    shape = None
    if inst.shape is None:
        lo, _ = sizes(inst.spec, tier)
        shape = pick_shape(rng, inst.spec.dim, lo, lo + 6)
    elif np.prod(inst.shape) > 4000:
        return
    c = Call(mon, rng, inst, tier, shape=shape, style="const", reuse=True)
    args = {n: a.arr for n, a in c.arrs.items()}
    n = int(rng.integers(60, 320))

    def loop():
        for _ in range(n):
            inst.kernel(**args, **c.scalars)

    mon.call(inst.describe(), loop)
    inst.calls += n
    mon.count("kernel_calls", n)
    mon.count("bursts")


def interleaved(mon, rng, instances, n_calls, tier, value=True, known=None):
    """Each call picks any live kernel; state leaking between them would show."""
    for i in range(n_calls):
        inst = instances[int(rng.integers(0, len(instances)))]
        judged_call(mon, rng, inst, tier, value=value, known=known)
    for inst in [instances[i] for i in rng.permutation(len(instances))[:3]]:
        burst(mon, rng, inst, tier)
        for _ in range(3):
            judged_call(mon, rng, inst, tier, value=value, known=known)


def dtype_of(inst):
    return real_dtype(inst.real_t)
