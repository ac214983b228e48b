"""Stand-in for numba (absent from this sandbox).

`njit` returns the decorated Python function unchanged: the same semantics as
numba's own NUMBA_DISABLE_JIT=1 mode, so the repository's code is what runs.
"""
__version__ = "0.0-verif-stub"


def njit(*args, **kwargs):
    if args and callable(args[0]):
        return args[0]

    def wrap(func):
        return func

    return wrap


jit = njit


def prange(*args):
    return range(*args)
