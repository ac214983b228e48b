"""Monitor bookkeeping, guarded arrays, input generation."""
import errno
import hashlib
import os
import traceback
from collections import Counter

import numpy as np

C_TOL = 64.0
FLOOR = {np.dtype(np.float32): 1e-30, np.dtype(np.float64): 1e-250}
ENV_ERRNO = {errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT}


class Violation(Exception):
    def __init__(self, kind, **detail):
        super().__init__(kind)
        self.kind = kind
        self.detail = detail


class Inconclusive(Exception):
    pass


def real_dtype(dtype):
    dtype = np.dtype(dtype)
    return {
        np.dtype(np.complex64): np.dtype(np.float32),
        np.dtype(np.complex128): np.dtype(np.float64),
    }.get(dtype, dtype)


class Mon:
    """Collects what the monitors observed in one worker."""

    def __init__(self, prop, tier, seed, known_keys=()):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.known_keys = set(known_keys)
        self.counters = Counter()
        self.kinds = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.ratio = {}
        self.group = None

    # -- observation counters
    def count(self, name, n=1):
        self.counters[name] += n

    def seen(self, dimension, value):
        self.kinds.setdefault(dimension, set()).add(str(value))

    def case(self, signature, nontrivial, sample=None):
        self.counters["evaluations"] += 1
        if nontrivial:
            h = hashlib.sha1(repr(signature).encode()).digest()[:8]
            self.distinct.add(h.hex())
        if sample is not None and len(self.samples) < 4:
            self.samples.append(sample)
        elif nontrivial and len(self.samples) < 2:
            self.samples.append({"case": repr(signature)[:300]})

    watch_world = False

    @staticmethod
    def world():
        """Process-wide settings a numerical kernel has no business with."""
        return {"numpy error handling": np.geterr(), "print options": np.get_printoptions(),
                "random state": hashlib.sha1(np.random.get_state()[1].tobytes()).hexdigest()
                + str(np.random.get_state()[2]),
                "directory": os.getcwd(), "environment": dict(os.environ)}

    # -- verdicts
    def known_or_raise(self, key, kind, **detail):
        """A failing observation whose mechanism has been recognised as `key`."""
        if key in self.known_keys:
            self.known[key] = detail
            self.count("known_finding_observations")
        else:
            raise Violation(kind, mechanism=key, **detail)

    def require(self, ok, kind, **detail):
        self.count("assertions")
        if not ok:
            raise Violation(kind, **detail)

    def call(self, what, fn, *a, **k):
        """Run code under test: a documented call must not raise."""
        try:
            with np.errstate(all="ignore"):
                before = self.world() if self.watch_world else None
                r = fn(*a, **k)
                if self.watch_world:
                    self.count("global_state_checks")
                    after = self.world()
                    bad = [n for n in before if before[n] != after[n]]
                    if bad:
                        raise Violation("global-state-changed", call=what, what=bad,
                                        before={n: str(before[n])[:200] for n in bad},
                                        after={n: str(after[n])[:200] for n in bad})
                return r
        except Violation:
            raise
        except (MemoryError, KeyboardInterrupt):
            raise Inconclusive(f"resource exhaustion in {what}")
        except OSError as e:
            if e.errno in ENV_ERRNO:
                raise Inconclusive(f"environment: {e}")
            raise Violation("exception", call=what, error=repr(e),
                            trace=traceback.format_exc()[-1500:])
        except Exception as e:  # noqa: B902
            if type(e).__name__ == "CalledProcessError":
                raise Inconclusive(f"compiler failed in {what}: {e}")
            raise Violation("exception", call=what, error=repr(e),
                            trace=traceback.format_exc()[-1500:])

    def expect_reject(self, what, fn, *a, **k):
        """A call that must be refused by raising."""
        self.count("assertions")
        try:
            with np.errstate(all="ignore"):
                fn(*a, **k)
        except (MemoryError, KeyboardInterrupt):
            raise Inconclusive(f"resource exhaustion in {what}")
        except Exception as e:  # noqa: B902
            if type(e).__name__ == "CalledProcessError":
                raise Inconclusive(f"compiler failed in {what}: {e}")
            self.count("rejections_observed")
            self.seen("rejection", f"{type(e).__name__}")
            return
        raise Violation("not-rejected", call=what)

    # -- comparison
    def compare(self, name, out, ref, dtype, mask=None, c=C_TOL, **ctx):
        """out against EV ref, elementwise within c*eps*magnitude."""
        dtype = real_dtype(dtype)
        eps = float(np.finfo(dtype).eps)
        with np.errstate(all="ignore"):
            err = np.abs(np.asarray(out).astype(ref.v.dtype) - ref.v)
            unit = eps * ref.m + FLOOR[dtype]
            bad = ~(err <= c * unit)
        if mask is not None:
            bad = bad & mask
            err = err[mask]
            unit = unit[mask]
        self.count("elements_compared", int(err.size))
        if err.size:
            with np.errstate(all="ignore"):
                r = float(np.max(err / unit))
            if r == r and r > self.ratio.get(name, 0.0):
                self.ratio[name] = r
        if bad.any():
            idx = tuple(int(i) for i in np.argwhere(bad)[0])
            raise Violation(
                "wrong-value", array=name, index=list(idx), got=str(np.asarray(out)[idx]),
                expected=str(ref.v[idx]), magnitude=float(ref.m[idx]),
                n_bad=int(bad.sum()), **ctx,
            )

    def result(self):
        return {
            "counters": dict(self.counters),
            "kinds": {k: sorted(v) for k, v in self.kinds.items()},
            "distinct": sorted(self.distinct),
            "samples": self.samples,
            "violations": self.violations,
            "known": self.known,
            "ratio": self.ratio,
        }


# --------------------------------------------------------------------------
# arrays


NAN_CANARY = 0x7FC0DEAD


def _poison(flat):
    """Fill with NaNs carrying a payload, so stray reads and writes both show."""
    if flat.dtype == np.float32:
        flat.view(np.uint32)[...] = 0x7FC0DEAD
    elif flat.dtype == np.float64:
        flat.view(np.uint64)[...] = 0x7FF8DEADBEEF0BAD
    else:
        _poison(flat.view(real_dtype(flat.dtype)))


class Arr:
    """An array handed to code under test, with everything around it watched."""

    def __init__(self, rng, shape, dtype, layout="guard"):
        dtype = np.dtype(dtype)
        shape = tuple(int(s) for s in shape)
        n = int(np.prod(shape))
        self.layout = layout
        if layout == "exact":
            self.parent = np.empty(n, dtype=dtype)
            self.arr = self.parent.reshape(shape)
        elif layout == "guard":
            g = int(rng.integers(1, 5)) * 16
            self.parent = np.empty(n + 2 * g, dtype=dtype)
            _poison(self.parent)
            self.arr = self.parent[g:g + n].reshape(shape)
        elif layout == "strided":
            lo = [int(rng.integers(0, 4)) for _ in shape]
            hi = [int(rng.integers(1, 4)) for _ in shape]
            full = tuple(a + s + b for a, s, b in zip(lo, shape, hi))
            self.parent = np.empty(full, dtype=dtype)
            _poison(self.parent.reshape(-1))
            self.arr = self.parent[tuple(slice(a, a + s) for a, s in zip(lo, shape))]
        elif layout == "general":
            # any axis order, steps and directions
            perm = [int(p) for p in rng.permutation(len(shape))]
            step = [int(x) for x in rng.choice([1, 1, 2, 3], len(shape))]
            lo = [int(rng.integers(0, 3)) for _ in shape]
            full = tuple(lo[p] + shape[p] * step[p] + 1 for p in perm)
            self.parent = np.empty(full, dtype=dtype)
            _poison(self.parent.reshape(-1))
            a = self.parent.transpose(np.argsort(perm))
            a = a[tuple(slice(lo[i], lo[i] + shape[i] * step[i], step[i])
                        for i in range(len(shape)))]
            self.arr = a[tuple(slice(None, None, -1) if rng.random() < 0.3 else slice(None)
                               for _ in shape)]
        else:
            raise ValueError(layout)
        assert self.arr.shape == shape
        self.arr[...] = 0
        self.before = None

    def snapshot(self):
        self.psnap = self.parent.copy()
        self.before = self.arr.copy()

    def guards_ok(self):
        """Everything in the parent outside the view is bit-identical."""
        now = self.arr.copy()
        self.arr[...] = self.before
        ok = self.parent.tobytes() == self.psnap.tobytes()
        self.arr[...] = now
        return ok

    def unchanged(self, mask=None):
        a = np.ascontiguousarray(self.arr)
        b = np.ascontiguousarray(self.before)
        if mask is None:
            return a.tobytes() == b.tobytes()
        return np.ascontiguousarray(a[mask]).tobytes() == np.ascontiguousarray(
            b[mask]).tobytes()


STYLES = ("normal", "wide", "ints", "sparse", "const", "alternating", "ramp", "zeros", "scaled",
          "slabs")


def fill(rng, a, style=None):
    """Fill `a` in place; returns the style used."""
    if a.dtype.kind == "c":
        r = np.empty(a.shape, real_dtype(a.dtype))
        i = np.empty(a.shape, real_dtype(a.dtype))
        s = fill(rng, r, style)
        fill(rng, i, style)
        a[...] = r + 1j * i
        return s
    if style is None:
        style = STYLES[int(rng.choice(len(STYLES), p=[.2, .17, .1, .1, .07, .08, .06, .03, .06, .13]))]
    if style == "normal":
        v = rng.standard_normal(a.shape)
    elif style == "wide":
        v = rng.choice([-1.0, 1.0], a.shape) * 10.0 ** rng.uniform(-3, 3, a.shape)
    elif style == "ints":
        v = rng.integers(-4, 5, a.shape).astype(float)
    elif style == "sparse":
        v = np.where(rng.random(a.shape) < 0.1, rng.standard_normal(a.shape) * 10, 0.0)
    elif style == "const":
        v = np.full(a.shape, float(rng.standard_normal()))
    elif style == "alternating":
        idx = np.indices(a.shape).sum(0)
        v = np.where(idx % 2 == 0, 1.0, -1.0) * float(rng.uniform(0.5, 2))
    elif style == "ramp":
        v = sum(float(rng.standard_normal()) * ix for ix in np.indices(a.shape).astype(float))
    elif style == "zeros":
        v = np.zeros(a.shape)
    elif style == "scaled":              # everything small, or everything large
        v = rng.standard_normal(a.shape) * 10.0 ** rng.uniform(-5, 5)
    elif style == "slabs":               # whole components, planes or rows zero, or equal
        v = rng.standard_normal(a.shape)
        if a.size and a.ndim:
            ax = 0 if rng.random() < 0.6 else int(rng.integers(0, a.ndim))
            w = np.moveaxis(v, ax, 0)
            pick = rng.random(len(w)) < rng.uniform(0.3, 0.8)
            if rng.random() < 0.4:                      # a single one left
                pick[:] = True
                pick[int(rng.integers(0, len(w)))] = False
            w[pick] = 0.0 if rng.random() < 0.6 else w[int(rng.integers(0, len(w)))]
    else:
        raise ValueError(style)
    a[...] = v
    return style


def dirty(rng, a):
    """Garbage for outputs and scratch: NaN, or large finite, or small."""
    k = int(rng.integers(0, 7)) // 2
    if k == 0:
        a[...] = np.nan
    elif k == 3:                         # clean but for a few cells
        a[...] = 0
        for _ in range(int(rng.integers(1, 4))):
            a[tuple(int(rng.integers(0, n)) for n in a.shape)] = rng.uniform(-1e3, 1e3)
    elif k == 1:
        a[...] = rng.uniform(-1e3, 1e3, a.shape)
    else:
        a[...] = rng.standard_normal(a.shape)
    return ("nan", "large", "small", "spots")[k]


def digest(*arrays):
    h = hashlib.sha1()
    for a in arrays:
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:12]


def pick_shape(rng, dim, lo, hi, big=0.0):
    """Mostly unequal axes; sometimes minimal, sometimes square, sometimes long, rarely big."""
    if big and rng.random() < big:
        top = {2: 150, 3: 40}[dim]
        s = [int(rng.integers(max(lo, top // 3), top)) for _ in range(dim)]
        if rng.random() < 0.3:
            s = [int(rng.integers(lo, lo + 6)) for _ in range(dim)]
            s[int(rng.integers(0, dim))] = int(rng.integers(100, 600))
        return tuple(s)
    k = rng.random()
    if k < 0.12:
        s = [lo + int(rng.integers(0, 2)) for _ in range(dim)]
    elif k < 0.22:
        s = [int(rng.integers(lo, hi + 1))] * dim
    elif k < 0.32:
        s = [lo + int(rng.integers(0, 3)) for _ in range(dim)]
        s[int(rng.integers(0, dim))] = hi * 2
    else:
        s = [int(rng.integers(lo, hi + 1)) for _ in range(dim)]
    return tuple(s)
