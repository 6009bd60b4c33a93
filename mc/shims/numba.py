"""Stand-in for numba: the decorators leave the function as it is."""


def _passthrough(*args, **kwargs):
    if len(args) == 1 and callable(args[0]) and not kwargs:
        return args[0]
    return lambda fn: fn


jit = njit = vectorize = guvectorize = generated_jit = cfunc = _passthrough
prange = range
