"""helpers shared by the harnesses (independent of the code under test)."""
import itertools
import math


def dt():
    """the public classes"""
    import SciDataTool as s

    return s


def axis_obj(kind, name, unit, values, **kw):
    """Data1D from values, or DataLinspace through first/last/number."""
    s = dt()
    if kind == "1D":
        return s.Data1D(name=name, unit=unit, values=values, **kw)
    n = len(values)
    return s.DataLinspace(
        name=name,
        unit=unit,
        initial=values[0],
        final=values[n - 1],
        number=n,
        include_endpoint=True,
        **kw
    )


def nest(shape, f):
    """nested list of f(i, j, ..)"""
    if not shape:
        return f()

    def rec(k, ix):
        if k == len(shape):
            return f(*ix)
        return [rec(k + 1, ix + (i,)) for i in range(shape[k])]

    return rec(0, ())


def squeeze_shape(shape):
    return tuple(n for n in shape if n != 1)


def rebuild(vals, sym):
    """full list of samples from the stored ones: vals -> list of (index, sign)."""
    n = len(vals)
    if "period" in sym:
        return [(i % n, 1) for i in range(n * sym["period"])]
    if "antiperiod" in sym:
        return [(i % n, 1 if (i // n) % 2 == 0 else -1) for i in range(n * sym["antiperiod"])]
    return [(i, 1) for i in range(n)]


def dft(xs, k, N=None, sign=-1):
    """sum x_n exp(sign*2*pi*i*k*n/N) with exact quarter turns."""
    N = len(xs) if N is None else N
    r = 0
    for n, x in enumerate(xs):
        r = r + x * unit_root(k * n, N, sign)
    return r


def unit_root(m, N, sign):
    m = m % N
    if (4 * m) % N == 0:
        c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][(4 * m) // N]
        return complex(c, sign * s)
    a = 2 * math.pi * m / N
    return complex(math.cos(a), sign * math.sin(a))
