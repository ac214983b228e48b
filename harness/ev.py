"""Values with a magnitude bound.

An `EV` carries a float64 value and, per element, the sum of the absolute
values of everything that was added up to get there.  Rounding in any
evaluation order (also the fast-math reassociation the kernels are compiled
with) then stays below a modest constant times eps times that bound, so one
comparison rule serves every oracle and none depends on how the code under test
arranges its arithmetic.
"""
import numpy as np


class EV:
    __slots__ = ("v", "m")
    __array_priority__ = 1000

    def __init__(self, v, m=None):
        self.v = np.asarray(v)
        if self.v.dtype.kind != "c":
            self.v = self.v.astype(np.float64)
        else:
            self.v = self.v.astype(np.complex128)
        self.m = np.abs(self.v) if m is None else np.asarray(m, dtype=np.float64)

    @staticmethod
    def of(x):
        return x if isinstance(x, EV) else EV(x)

    def __getitem__(self, idx):
        return EV(self.v[idx], self.m[idx])

    def __setitem__(self, idx, other):
        other = EV.of(other)
        self.v[idx] = other.v
        self.m[idx] = other.m

    def copy(self):
        return EV(self.v.copy(), self.m.copy())

    @property
    def shape(self):
        return self.v.shape

    def __add__(self, o):
        o = EV.of(o)
        return EV(self.v + o.v, self.m + o.m)

    __radd__ = __add__

    def __sub__(self, o):
        o = EV.of(o)
        return EV(self.v - o.v, self.m + o.m)

    def __rsub__(self, o):
        return EV.of(o) - self

    def __neg__(self):
        return EV(-self.v, self.m)

    def __mul__(self, o):
        o = EV.of(o)
        return EV(self.v * o.v, self.m * o.m)

    __rmul__ = __mul__

    def __truediv__(self, o):
        # relative error of the denominator: m/|v|
        o = EV.of(o)
        a = np.abs(o.v)
        return EV(self.v / o.v, self.m * o.m / (a * a))

    def sin(self):
        return EV(np.sin(self.v), np.abs(np.sin(self.v)) + self.m)

    def cos(self):
        return EV(np.cos(self.v), np.abs(np.cos(self.v)) + self.m)

    @staticmethod
    def where(cond, a, b):
        a, b = EV.of(a), EV.of(b)
        return EV(np.where(cond, a.v, b.v), np.where(cond, a.m, b.m))

    @staticmethod
    def zeros(shape):
        return EV(np.zeros(shape), np.zeros(shape))

    @staticmethod
    def full(shape, c):
        return EV(np.full(shape, float(c.v if isinstance(c, EV) else c)))

    @staticmethod
    def stack(items):
        return EV(np.stack([i.v for i in items]), np.stack([i.m for i in items]))
