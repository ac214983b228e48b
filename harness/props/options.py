"""C14: generation options never change results, and mismatched arrays are refused.

Differential monitor: twins of one operation differing in fixed/free size, memory
layout and precision are called on the same data.  Rejection monitor: kernels
made for one fixed size or one precision must raise on anything else.
"""
import numpy as np

import registry as R
from core import Violation, pick_shape
from sessions import Call, Instance, THREADS, same_result, sizes

BYNAME = {s.name: s for s in R.SPECS}
CHUNK = 2


def groups(prop, tier):
    out = []
    for s in R.SPECS:
        idx = list(range(len(s.variants)))
        for ci in range(0, len(idx), CHUNK):
            out.append({"name": f"{s.name}/{ci // CHUNK}", "spec": s.name,
                        "variants": idx[ci:ci + CHUNK],
                        "cost": s.cost * 4 * len(idx[ci:ci + CHUNK]) + 1})
    if tier == "thorough":
        out = [{**g, "name": f"{g['name']}#{k}"} for g in out for k in range(4)]
    return out


def run(mon, rng, g, tier):
    spec = BYNAME[g["spec"]]
    for vi in g["variants"]:
        o = dict(spec.variants[vi])
        lo, hi = sizes(spec, "quick")
        shape = pick_shape(rng, spec.dim, lo, max(hi, lo + 3))
        twins = {}
        for rt in (np.float32, np.float64):
            for fixed in ((False, True) if spec.has_fixed else (False,)):
                twins[rt, fixed] = Instance(
                    mon, rng, spec, o, rt, THREADS[int(rng.integers(0, len(THREADS)))], fixed,
                    shape)
        for k in range(6 if tier == "quick" else 30):
            compare(mon, rng, spec, twins, shape, tier)
            if not spec.bound and k % 2 and (np.float32, False) in twins:
                # the free twins at another shape
                other = pick_shape(rng, spec.dim, lo, max(hi, lo + 3))
                compare(mon, rng, spec, {k_: v for k_, v in twins.items() if not k_[1]}, other,
                        tier)
        rejections(mon, rng, spec, twins, shape, tier)


def compare(mon, rng, spec, twins, shape, tier):
    """All twins on the same single-precision data."""
    ref_inst = twins[np.float32, False]
    base = Call(mon, rng, ref_inst, tier, shape=shape, layout=None if rng.random() < 0.5 else "guard")
    model = base.model()
    base.run(mon)
    nt = base.nontrivial(model)
    mon.case(base.signature(), nt, base.describe() if nt else None)
    for (rt, fixed), inst in twins.items():
        for layout in (("guard",) if fixed else ("guard", "strided", "general")):
            c = Call(mon, rng, inst, tier, shape=shape, layout=layout, same_inputs_as=base)
            c.run(mon)
            same_result(mon, base, c, model, "result-depends-on-generation-options",
                        eps_dtype=np.float32)
            mon.count("twin_comparisons")
            mon.seen("twin", (np.dtype(rt).name, "fixed" if fixed else "free", layout))
            if rt is np.float64:
                # and double precision really is: twins agree to its own rounding
                key = "f64"
                if getattr(base, key, None) is None:
                    base.f64 = c
                else:
                    same_result(mon, base.f64, c, model, "result-depends-on-generation-options",
                                eps_dtype=np.float64)
                    mon.count("double_precision_twin_comparisons")


def rejections(mon, rng, spec, twins, shape, tier):
    """Arrays of another size or precision must be refused by fixed kernels."""
    if not spec.has_fixed or twins[np.float32, True].o.get("width") == 0:
        return          # a zero-width penalisation computes nothing, on whatever it is given
    for (rt, fixed), inst in twins.items():
        other_t = np.float32 if rt is np.float64 else np.float64
        arrays = list(spec.arrays_for(inst.o))
        if fixed:
            for axis in range(spec.dim):
                for delta in (-1, 1, int(rng.integers(2, 6))):
                    bad = list(shape)
                    bad[axis] += delta
                    if bad[axis] < 1:
                        continue
                    refuse(mon, rng, inst, tier, f"shape {tuple(bad)} for {shape}",
                           shape=tuple(bad))
            perm = tuple(reversed(shape))
            if perm != tuple(shape):
                refuse(mon, rng, inst, tier, f"shape {perm} for {shape}", shape=perm)
            # one array alone of another shape
            for name in arrays:
                axis = int(rng.integers(0, spec.dim))
                bad = list(shape)
                bad[axis] += 1
                refuse(mon, rng, inst, tier, f"{name} of shape {tuple(bad)} for {shape}",
                       shape=shape, only={name: tuple(bad)})
        refuse(mon, rng, inst, tier, f"{np.dtype(other_t).name} arrays for {np.dtype(rt).name}",
               shape=shape, dtype=other_t)
        for name in arrays:
            refuse(mon, rng, inst, tier,
                   f"{name} of {np.dtype(other_t).name} for {np.dtype(rt).name}", shape=shape,
                   only_dtype={name: other_t})


def refuse(mon, rng, inst, tier, why, shape, dtype=None, only=None, only_dtype=None):
    spec = inst.spec
    args = {}
    for name, d in spec.arrays_for(inst.o).items():
        special = d[2] if len(d) > 2 else None
        shp = (only or {}).get(name, shape)
        t = np.dtype((only_dtype or {}).get(name, dtype or inst.real_t))
        if special == "complex":
            t = np.dtype(np.complex64 if t == np.float32 else np.complex128)
        args[name] = np.zeros(((spec.dim,) if d[1] == "v" else ()) + tuple(shp), t)
    scal = spec.scalars(rng, inst.o, inst.real_t)
    mon.expect_reject(f"{inst.describe()}: {why}", inst.kernel, **args, **scal)
    mon.case(("reject", inst.describe(), why), True)
