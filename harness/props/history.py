"""C11: no hidden state, no side effects.

For every kernel a *reference world* is made: the library is imported afresh,
only that kernel is generated and called once on probe inputs.  Then one world
holds many kernels, generated in random order, called in random interleaved
histories; the probes are repeated at random points with other garbage in every
output and scratch array and must give the same result.  All calls are watched
for writes outside their documented outputs.
"""
import sys

import numpy as np

import registry as R
from core import pick_shape
from sessions import Call, Instance, THREADS, burst, same_result, sizes

RT = {"f32": np.float32, "f64": np.float64}
PER_GROUP = 3


def groups(prop, tier):
    """Mix unrelated kernels in one group; every spec appears in both precisions."""
    order = sorted(R.SPECS, key=lambda s: hash_name(s.name))
    out = []
    for rt in RT:
        for i in range(0, len(order), PER_GROUP):
            part = order[i:i + PER_GROUP]
            out.append({"name": f"{rt}/mix{i // PER_GROUP}", "rt": rt,
                        "specs": [s.name for s in part], "cost": sum(s.cost for s in part) + 2})
    if tier == "thorough":
        out = [{**g, "name": f"{g['name']}#{k}"} for g in out for k in range(6)]
    return out


def hash_name(n):
    import zlib
    return zlib.crc32(n.encode())


def fresh_world():
    for m in [m for m in sys.modules if m == "sopht" or m.startswith("sopht.")]:
        del sys.modules[m]


BYNAME = {s.name: s for s in R.SPECS}


class Probe:
    """Fixed inputs and the result they gave in the reference world."""

    def __init__(self, mon, rng, spec, o, rt, threads, fixed, shape, tier):
        fresh_world()
        self.key = (spec, o, rt, threads, fixed, shape)
        inst = Instance(mon, rng, spec, o, rt, threads, fixed, shape)
        self.call = Call(mon, rng, inst, tier, shape=shape, alias=bool(rng.random() < 0.3))
        self.model = self.call.model()
        self.call.run(mon)
        self.call.judge_frame(mon, self.model)
        mon.count("reference_worlds")

    def compare(self, mon, rng, inst, tier):
        again = Call(mon, rng, inst, tier, shape=self.call.shape, same_inputs_as=self.call,
                     reuse=True)
        again.run(mon)
        again.judge_frame(mon, self.model)
        same_result(mon, self.call, again, self.model, "result-depends-on-history")
        nt = again.nontrivial(self.model)
        mon.case((again.signature(), inst.calls), nt, again.describe() if nt else None)
        mon.count("history_probes")


def neighbours(spec, o):
    """The variants that differ from ``o`` in as few options as possible."""
    others = [dict(v) for v in spec.variants if dict(v) != o]
    near = [v for v in others if sum(v.get(k) != o.get(k) for k in {*v, *o}) == 1]
    return near or others


def option_siblings(mon, rng, spec, o, rt, th, fixed, shape, most):
    """Kernels that differ from the probed one in a single generation option."""
    near = neighbours(spec, o)
    for i in rng.permutation(len(near))[:most]:
        mon.seen("sibling", "option")
        mon.count("bystander_kernels")
        yield Instance(mon, rng, spec, near[i], rt, th, fixed, shape)


def sibling(mon, rng, spec, o, rt, th, fixed, shape):
    """A kernel of the same generator that differs in one aspect only."""
    kinds = ["precision", "shape", "threads"]
    if neighbours(spec, o):
        kinds.append("option")
    if spec.has_fixed:
        kinds.append("fixed")
    kind = kinds[int(rng.integers(0, len(kinds)))]
    lo, hi = sizes(spec, "quick")
    if kind == "option":
        near = neighbours(spec, o)
        o = near[int(rng.integers(0, len(near)))]
    elif kind == "precision":
        rt = np.float32 if rt is np.float64 else np.float64
    elif kind == "shape":
        shape = pick_shape(rng, spec.dim, lo, max(hi, lo + 3))
        if rng.random() < 0.3:
            shape = tuple(reversed(shape))
    elif kind == "threads":
        th = THREADS[int(rng.integers(0, len(THREADS)))]
    else:
        fixed = not fixed
    mon.seen("sibling", kind)
    mon.count("bystander_kernels")
    return Instance(mon, rng, spec, o, rt, th, fixed, shape)


def run(mon, rng, g, tier):
    rt = RT[g["rt"]]
    mon.watch_world = True
    probes = []
    for name in g["specs"]:
        spec = BYNAME[name]
        v = [dict(spec.variants[i]) for i in rng.permutation(len(spec.variants))[:3]]
        lo, hi = sizes(spec, "quick")
        for k, o in enumerate(v):
            fixed = spec.has_fixed and bool(rng.random() < 0.5)
            th = THREADS[int(rng.integers(0, len(THREADS)))]
            shape = pick_shape(rng, spec.dim, lo, max(hi, lo + 3))
            probes.append(Probe(mon, rng, spec, o, rt, th, fixed, shape, tier))
    fresh_world()
    insts = []
    for i in rng.permutation(len(probes)):
        spec, o, _, th, fixed, shape = probes[i].key
        for other in option_siblings(mon, rng, *probes[i].key, most=2 if tier == "quick" else 5):
            insts.append((None, other))
        first = rng.random() < 0.7
        if first:                    # a look-alike generated before ...
            insts.append((None, sibling(mon, rng, *probes[i].key)))
        insts.append((probes[i], Instance(mon, rng, spec, o, rt, th, fixed, shape)))
        if not first or rng.random() < 0.2:       # ... or after the kernel that is probed
            insts.append((None, sibling(mon, rng, *probes[i].key)))
    n = (8 if tier == "quick" else 40) * len(insts)
    for k in range(n):
        p, inst = insts[int(rng.integers(0, len(insts)))]
        if p is not None and rng.random() < 0.5:
            p.compare(mon, rng, inst, tier)
        else:
            c = Call(mon, rng, inst, tier, reuse=True)
            m = c.model()
            c.run(mon)
            c.judge_frame(mon, m)
            mon.case(c.signature(), c.nontrivial(m))
            mon.seen("shape", c.shape)
    for p, inst in insts:
        if p is None:
            continue
        if rng.random() < (0.4 if tier == "quick" else 1.0):
            # many calls in a row, as a time loop makes them
            for _ in range(60 if tier == "quick" else 400):
                Call(mon, rng, inst, tier, shape=p.call.shape, reuse=True).run(mon)
            mon.count("bursts")
        elif rng.random() < 0.5:
            burst(mon, rng, inst, tier)
        p.compare(mon, rng, inst, tier)
