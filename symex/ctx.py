"""The two interpretations of a harness: symbolic and concrete.

A harness is a function run(ctx, cfg).  It builds inputs with ctx.real(s)/...,
calls the public API of SciDataTool, and states what must hold with ctx.eq /
ctx.true / ctx.raises.  SymCtx gives symbolic inputs and sends every statement
to the solver; ConcCtx gives the numbers of one assignment and evaluates the
same statements on the unpatched code.
"""
import math
from fractions import Fraction as Fr

import numpy as np


class CheckFailed(Exception):
    pass


class Skip(Exception):
    """assumptions not met by the concrete assignment"""


def flat(x):
    """list of scalars and shape of an array-like."""
    if isinstance(x, np.ndarray):
        v = x.view(np.ndarray)
        return list(v.ravel()) if v.dtype == object else list(v.ravel().tolist()), x.shape
    if isinstance(x, (list, tuple)):
        if any(isinstance(y, (list, tuple, np.ndarray)) for y in x):
            out = []
            sh = None
            for y in x:
                f, s = flat(y)
                if sh is None:
                    sh = s
                elif s != sh:
                    raise CheckFailed("ragged expectation")
                out += f
            return out, (len(x),) + (sh or ())
        return list(x), (len(x),)
    if isinstance(x, np.generic):
        return [x.item()], ()
    return [x], ()


def isnan(x):
    return isinstance(x, (float, complex)) and x != x


class BaseCtx:
    B = 1e9
    tol = 1e-3
    symbolic = False

    def reals(self, name, shape, lo=None, hi=None):
        lo = -self.B if lo is None else lo
        hi = self.B if hi is None else hi
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + "_" + "_".join(map(str, i)), lo, hi)
        return self._arr(out)

    def complexes(self, name, shape, lo=None, hi=None):
        re = self.reals(name + "r", shape, lo, hi)
        im = self.reals(name + "i", shape, lo, hi)
        return re + 1j * im

    def increasing(self, name, n, lo, hi, gap):
        """strictly increasing sequence of n numbers in [lo, hi]."""
        xs = [self.real("%s_%d" % (name, i), lo, hi) for i in range(n)]
        for a, b in zip(xs, xs[1:]):
            self.assume(b - a >= gap)
        return self.arr(xs)

    def arr(self, xs):
        """1-D (or nested) array of numbers."""
        f, sh = flat(xs)
        out = np.empty(len(f), dtype=object)
        for i, v in enumerate(f):
            out[i] = v
        return self._arr(out.reshape(sh))

    def sumof(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def shape(self, actual, shape, label="shape"):
        s = tuple(np.shape(actual))
        if s != tuple(shape):
            self.fail("%s: shape %s, expected %s" % (label, s, tuple(shape)))

    def raises(self, exc, f, label):
        try:
            f()
        except Exception as e:
            if self._internal(e):
                raise
            if isinstance(e, exc):
                return self.true(True, label)
            return self.fail("%s: raised %s" % (label, type(e).__name__))
        self.fail("%s: nothing raised" % label)

    def _internal(self, e):
        return False


class ConcCtx(BaseCtx):
    def __init__(self, env):
        self.env = env
        self.outs = []
        self.n = 0

    def real(self, name, lo, hi):
        v = self.env.get(name)
        if v is None:
            v = min(max(0.0, float(lo)), float(hi))
        return float(v)

    def _arr(self, o):
        if any(isinstance(e, complex) for e in o.flat):
            return o.astype(complex)
        return o.astype(float)

    def assume(self, c):
        if not c:
            raise Skip()

    def tok(self, x):
        return repr(float(x))

    def untok(self, s):
        return complex(s) if "j" in s else float(s)

    def same_object_graph(self):
        pass

    def eq(self, actual, expected, label="", tol=None):
        tol = self.tol if tol is None else tol
        a, sa = flat(actual)
        b, sb = flat(expected)
        if tuple(sa) != tuple(sb):
            self.fail("%s: shape %s, expected %s" % (label, sa, sb))
        self.outs.append([enc(x) for x in a])
        self.n += 1
        for k, (x, y) in enumerate(zip(a, b)):
            if x is None:
                x = float("nan")
            if isnan(y) or isnan(x):
                if isnan(x) != isnan(y):
                    self.fail("%s[%d]: got %r expected %r" % (label, k, x, y))
                continue
            if x == y:
                continue
            if not (abs(x - y) <= tol):
                self.fail("%s[%d]: got %r expected %r" % (label, k, x, y))

    def true(self, c, label=""):
        self.n += 1
        if not bool(c):
            self.fail(label)

    def le(self, a, b, label="", tol=None):
        tol = self.tol if tol is None else tol
        self.n += 1
        if not a <= b + tol:
            self.fail("%s: %r > %r" % (label, a, b))

    def fail(self, label):
        raise CheckFailed(label)

    # numeric functions usable in specifications
    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else float("nan")

    def log10(self, x):
        return math.log10(x)

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def atan2(self, y, x):
        return math.atan2(y, x)

    def pow(self, a, b):
        return a**b

    def floor(self, x):
        return math.floor(x)

    def maxof(self, xs):
        return max(xs)

    def minof(self, xs):
        return min(xs)

    def re(self, x):
        return x.real

    def im(self, x):
        return x.imag

    def decide(self, c):
        return bool(c)

    def frac(self, a, b=1):
        return a / b


def enc(x):
    if x is None:
        return None
    if isnan(x):
        return None
    if isinstance(x, complex):
        return [x.real, x.imag]
    try:
        return float(x)
    except Exception:
        return str(x)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, eng, shims, sink):
        self.E = eng
        self.sh = shims
        self.sink = sink
        self.outs = []

    def real(self, name, lo, hi):
        return self.E.new_var(name, lo, hi)

    def _arr(self, o):
        return self.sh.sym(o)

    def assume(self, c):
        self.E.EX.assume(self.E.tocond(c))

    def tok(self, x):
        return self.sh.token_of(x)

    def untok(self, s):
        v = self.sh.untoken(s)
        if v is not None:
            return v
        return complex(s) if "j" in s else float(s)

    def _internal(self, e):
        return isinstance(
            e, (self.E.Unsupported, self.E.PathLimit, self.E.Infeasible, TimeoutError)
        )

    def eq(self, actual, expected, label="", tol=None):
        E = self.E
        tol = self.tol if tol is None else tol
        a, sa = flat(actual)
        b, sb = flat(expected)
        if tuple(sa) != tuple(sb):
            return self.fail("%s: shape %s, expected %s" % (label, sa, sb))
        self.outs.append(a)
        diffs = []
        for k, (x, y) in enumerate(zip(a, b)):
            if x is None:
                x = float("nan")
            if isnan(x) or isnan(y):
                if isnan(x) != isnan(y):
                    return self.fail("%s[%d]: NaN mismatch" % (label, k))
                continue
            if isinstance(x, E.SymBool) or isinstance(y, E.SymBool):
                x, y = float(bool(x)), float(bool(y))
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return self.fail("%s[%d]: %r, expected %r" % (label, k, x, y))
                continue
            x, y = E.lift(x), E.lift(y)
            if not isinstance(x, E.S) or not isinstance(y, E.S):
                if x is None or y is None or (
                    type(x) is not type(y) or x != y
                ):
                    return self.fail("%s[%d]: infinite value" % (label, k))
                continue
            d = E.p_sub(x.re, y.re)
            diffs.append(d)
            if x.im is not None or y.im is not None:
                diffs.append(E.p_sub(x.im or {}, y.im or {}))
        self.sink.oblige_small(label, diffs, tol)

    def true(self, c, label=""):
        self.sink.oblige(label, self.E.tocond(c))

    def le(self, a, b, label="", tol=None):
        tol = self.tol if tol is None else tol
        self.sink.oblige(label, self.E.tocond(self.E.lift(a) <= self.E.lift(b) + tol))

    def fail(self, label):
        self.sink.oblige(label, self.E.FALSE)
        raise CheckFailed(label)

    def sqrt(self, x):
        return self.E.s_sqrt(x)

    def log10(self, x):
        return self.E.s_log10(x)

    def cos(self, x):
        return self.E.s_cos(x)

    def sin(self, x):
        return self.E.s_sin(x)

    def atan2(self, y, x):
        return self.E.s_atan2(y, x)

    def pow(self, a, b):
        return self.E.s_pow(self.E.lift(a), b)

    def floor(self, x):
        return self.E.s_floor(x)

    def maxof(self, xs):
        return self.E.s_minmax("max", list(xs))

    def minof(self, xs):
        return self.E.s_minmax("min", list(xs))

    def re(self, x):
        return self.E.real_of(self.E.lift(x))

    def im(self, x):
        x = self.E.lift(x)
        return self.E.S(x.im or {}, None)

    def decide(self, c):
        return bool(c)

    def frac(self, a, b=1):
        return Fr(a, b)
