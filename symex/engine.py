"""Symbolic values, path exploration and solver queries.

A symbolic real is a polynomial with exact rational coefficients over *atoms*;
an atom is either a free input variable or the result of a non-polynomial
operation (1/q, sqrt, abs, log10, floor, ...), whose defining constraint is
given to the solver.  A symbolic complex number is a pair of such polynomials.

The code under test runs unmodified on numpy object arrays of these values.
Whenever it asks for the truth of a condition on them, the engine asks z3 which
outcomes are possible under the conditions taken so far, and explores each one
(depth first, by re-running the harness from the start).
"""
import importlib.util
import math
import os
import random
import sys
import time
from fractions import Fraction as Fr

Z3_DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"


def _load_z3():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    spec = importlib.util.spec_from_file_location(
        "z3", Z3_DIR + "/__init__.py", submodule_search_locations=[Z3_DIR]
    )
    m = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = m
    spec.loader.exec_module(m)
    return m


z3 = _load_z3()

ZERO = Fr(0)
ONE = Fr(1)


class Unsupported(Exception):
    """The symbolic encoding has no model for this operation."""


class PathLimit(Exception):
    pass


class Infeasible(Exception):
    """The assumptions of the harness cannot be met on this path."""


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "name", "key", "isint")

    def __init__(self, id, kind, args, lo, hi, name, isint=False):
        self.id = id
        self.kind = kind
        self.args = args
        self.lo = lo
        self.hi = hi
        self.name = name
        self.isint = isint


class Table:
    def __init__(self):
        self.atoms = []
        self.by_key = {}
        self.by_kind = {}
        self.vars = {}
        self.zv = {}
        self.zmono = {}
        self.anchors = []

    def new(self, kind, args, lo, hi, name=None, key=None, isint=False):
        i = len(self.atoms)
        a = Atom(i, kind, args, lo, hi, name or "%s_%d" % (kind, i), isint)
        self.atoms.append(a)
        if key is not None:
            self.by_key[key] = i
        self.by_kind.setdefault(kind, []).append(i)
        return a


TAB = Table()


def reset_table():
    global TAB
    TAB = Table()


# --------------------------------------------------------------------------
# polynomials: dict monomial(tuple of atom ids, sorted) -> Fraction
# --------------------------------------------------------------------------
def p_const(c):
    return {(): c} if c else {}


def p_isconst(p):
    return not p or (len(p) == 1 and () in p)


def p_cval(p):
    return p.get((), ZERO)


def p_add(p, q):
    if not q:
        return p
    if not p:
        return q
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_scale(p, c):
    if not c:
        return {}
    if c == 1:
        return p
    return {m: v * c for m, v in p.items()}


def p_neg(p):
    return {m: -v for m, v in p.items()}


def p_sub(p, q):
    return p_add(p, p_neg(q))


_SPECIAL = ("sqrt", "abs", "sin", "inv")


def _reduce_mono(m):
    """None if the monomial is irreducible, else an equal polynomial."""
    atoms = TAB.atoms
    prev = None
    for k, i in enumerate(m):
        a = atoms[i]
        if a.kind in ("sqrt", "abs", "sin") and prev == i:
            rest = m[: k - 1] + m[k + 1 :]
            if a.kind == "sqrt":
                q = a.args[0]
            elif a.kind == "abs":
                q = p_mul(a.args[0], a.args[0])
            else:
                c = a.args[1]  # id of the matching cos atom
                q = {(): ONE, (c, c): -ONE}
            return p_mul({rest: ONE}, q)
        if a.kind == "inv" and a.args[1] is not None and a.args[1] in m:
            j = m.index(a.args[1])
            rest = list(m)
            for z in sorted((k, j), reverse=True):
                del rest[z]
            return {tuple(rest): ONE}
        prev = i
    return None


def p_mul(p, q):
    if not p or not q:
        return {}
    if p_isconst(p):
        return p_scale(q, p[()])
    if p_isconst(q):
        return p_scale(p, q[()])
    r = {}
    extra = []
    atoms = TAB.atoms
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            c = c1 * c2
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            if m1 and m2 and any(atoms[i].kind in _SPECIAL for i in m):
                rp = _reduce_mono(m)
                if rp is not None:
                    extra.append(p_scale(rp, c))
                    continue
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
    for e in extra:
        r = p_add(r, e)
    return r


def _imul(a, b):
    al, ah = a
    bl, bh = b
    if None in (al, ah, bl, bh):
        # unbounded somewhere: keep sign information only
        if al is not None and al >= 0 and bl is not None and bl >= 0:
            return (al * bl, None)
        return (None, None)
    v = (al * bl, al * bh, ah * bl, ah * bh)
    return (min(v), max(v))


_mono_iv_cache = {}


def mono_iv(m):
    r = None
    atoms = TAB.atoms
    i = 0
    n = len(m)
    while i < n:
        j = i
        while j < n and m[j] == m[i]:
            j += 1
        k = j - i
        lo, hi = atoms[m[i]].lo, atoms[m[i]].hi
        if k == 1:
            iv = (lo, hi)
        elif k % 2 == 0:
            if lo is None or hi is None:
                b = ZERO
                if lo is not None and lo > 0:
                    b = lo**k
                iv = (b, None)
            else:
                M = max(abs(lo), abs(hi)) ** k
                mi = ZERO if lo <= 0 <= hi else min(abs(lo), abs(hi)) ** k
                iv = (mi, M)
        else:
            iv = (
                None if lo is None else lo**k,
                None if hi is None else hi**k,
            )
        r = iv if r is None else _imul(r, iv)
        i = j
    return (ONE, ONE) if r is None else r


def p_iv(p):
    lo = hi = ZERO
    for m, c in p.items():
        if not m:
            l = h = ONE
        else:
            l, h = mono_iv(m)
        if c > 0:
            a, b = l, h
        else:
            a, b = h, l
        lo = None if (lo is None or a is None) else lo + a * c
        hi = None if (hi is None or b is None) else hi + b * c
        if lo is None and hi is None:
            return None, None
    return lo, hi


def p_key(p):
    return tuple(sorted(p.items()))


def p_monic(p):
    """(c, q) with p = c*q, c > 0 and q having a leading coefficient of +-1."""
    m = max(p)
    c = abs(p[m])
    return c, (p if c == 1 else {k: v / c for k, v in p.items()})


def p_atoms(p):
    s = set()
    for m in p:
        s.update(m)
    return s


# relative closeness under which two arguments of a non-polynomial function are
# taken to be the same real number up to floating point rounding
CLOSE = Fr(1, 10**10)


def _close(p, q):
    d = p_sub(p, q)
    if not d:
        return True
    lo, hi = p_iv(d)
    if lo is None or hi is None:
        return False
    ml, mh = p_iv(q)
    if ml is None or mh is None:
        return False
    scale = max(abs(ml), abs(mh))
    return max(abs(lo), abs(hi)) <= CLOSE * scale


def _find(kind, args_polys, extra=()):
    key = (kind,) + tuple(p_key(p) for p in args_polys) + tuple(extra)
    i = TAB.by_key.get(key)
    if i is not None:
        return i, key
    for j in TAB.by_kind.get(kind, ()):
        a = TAB.atoms[j]
        if tuple(a.args[len(args_polys) : len(args_polys) + len(extra)]) != tuple(
            extra
        ):
            continue
        if all(
            set(x) == set(y) and _close(x, y) for x, y in zip(a.args, args_polys)
        ):
            TAB.by_key[key] = j
            return j, key
    return None, key


def atom_poly(i):
    return {(i,): ONE}


def _fsqrt(x):
    """sqrt of a non-negative Fraction as a Fraction (exact for squares)."""
    n, d = x.numerator, x.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fr(a, b)
    # 40 significant digits
    k = 10**40
    return Fr(math.isqrt(n * d * k * k), d * k)


def mk_sqrt(p):
    """p known >= 0."""
    if p_isconst(p):
        return p_const(_fsqrt(p_cval(p)))
    c, q = p_monic(p)
    # square of a single monomial -> abs
    if len(q) == 1:
        (m, v), = q.items()
        if v == 1 and len(m) % 2 == 0 and all(
            m[2 * i] == m[2 * i + 1] for i in range(len(m) // 2)
        ):
            return p_scale(mk_abs({m[::2]: ONE}), _fsqrt(c))
    i, key = _find("sqrt", (q,))
    if i is None:
        lo, hi = p_iv(q)
        a = TAB.new(
            "sqrt",
            (q,),
            ZERO if lo is None or lo <= 0 else _fsqrt(lo) * (1 - Fr(1, 10**12)),
            None if hi is None else _fsqrt(max(hi, ZERO)) * (1 + Fr(1, 10**12)),
            key=key,
        )
        i = a.id
    return p_scale(atom_poly(i), _fsqrt(c))


def mk_abs(p):
    lo, hi = p_iv(p)
    if lo is not None and lo >= 0:
        return p
    if hi is not None and hi <= 0:
        return p_neg(p)
    c, q = p_monic(p)
    if q[max(q)] < 0:
        q = p_neg(q)
    i, key = _find("abs", (q,))
    if i is None:
        lo, hi = p_iv(q)
        h = None if lo is None or hi is None else max(abs(lo), abs(hi))
        i = TAB.new("abs", (q,), ZERO, h, key=key).id
    return p_scale(atom_poly(i), c)


def mk_inv(q):
    """1/q for q known != 0."""
    if p_isconst(q):
        return p_const(1 / p_cval(q))
    c, m = p_monic(q)
    sg = ONE
    if m[max(m)] < 0:
        m = p_neg(m)
        sg = -ONE
    single = None
    if len(m) == 1:
        (mono, v), = m.items()
        if len(mono) > 1:
            # 1/(xy) = 1/x * 1/y
            r = {(): sg / c}
            for i in mono:
                r = p_mul(r, mk_inv(atom_poly(i)))
            return r
        single = mono[0]
        if TAB.atoms[single].kind == "inv":
            return p_scale(TAB.atoms[single].args[0], sg / c)
    i, key = _find("inv", (m,))
    if i is None:
        lo, hi = p_iv(m)
        l = h = None
        if lo is not None and lo > 0:
            h = 1 / lo
            l = 1 / hi if hi is not None else ZERO
        elif hi is not None and hi < 0:
            l = 1 / hi
            h = 1 / lo if lo is not None else ZERO
        i = TAB.new("inv", (m, single), l, h, key=key).id
    return p_scale(atom_poly(i), sg / c)


def mk_minmax(kind, polys):
    ps = []
    for p in polys:
        if not any(p_key(p) == p_key(q) for q in ps):
            ps.append(p)
    if len(ps) == 1:
        return ps[0]
    ivs = [p_iv(p) for p in ps]
    # drop dominated ones
    if kind == "max":
        best = max((l for l, h in ivs if l is not None), default=None)
        if best is not None:
            ps = [
                p for p, (l, h) in zip(ps, ivs) if h is None or h >= best
            ]
    else:
        best = min((h for l, h in ivs if h is not None), default=None)
        if best is not None:
            ps = [
                p for p, (l, h) in zip(ps, ivs) if l is None or l <= best
            ]
    if len(ps) == 1:
        return ps[0]
    key = (kind, frozenset(p_key(p) for p in ps))
    i = TAB.by_key.get(key)
    if i is None:
        ivs = [p_iv(p) for p in ps]
        los = [l for l, _ in ivs]
        his = [h for _, h in ivs]
        if kind == "max":
            lo = max((l for l in los if l is not None), default=None)
            hi = None if None in his else max(his)
        else:
            hi = min((h for h in his if h is not None), default=None)
            lo = None if None in los else min(los)
        i = TAB.new(kind, tuple(ps), lo, hi, key=key).id
    return atom_poly(i)


def mk_fun(kind, polys, lo=None, hi=None, extra=(), isint=False):
    i, key = _find(kind, polys, extra)
    if i is None:
        i = TAB.new(kind, tuple(polys) + tuple(extra), lo, hi, key=key, isint=isint).id
    return atom_poly(i)


# --------------------------------------------------------------------------
# numeric evaluation (floats) of polynomials under an assignment of the vars
# --------------------------------------------------------------------------
def rint_f(x):
    return float(round(x))


def eval_atom(i, env, memo):
    v = memo.get(i)
    if v is not None:
        return v
    a = TAB.atoms[i]
    k = a.kind
    if k == "var":
        v = float(env[a.name])
    else:
        if k == "sqrt":
            v = math.sqrt(max(0.0, eval_p(a.args[0], env, memo)))
        elif k == "abs":
            v = abs(eval_p(a.args[0], env, memo))
        elif k == "inv":
            v = 1.0 / eval_p(a.args[0], env, memo)
        elif k == "max":
            v = max(eval_p(p, env, memo) for p in a.args)
        elif k == "min":
            v = min(eval_p(p, env, memo) for p in a.args)
        elif k == "log10":
            v = math.log10(eval_p(a.args[0], env, memo))
        elif k == "exp":
            v = math.exp(eval_p(a.args[0], env, memo))
        elif k == "pow":
            v = math.pow(
                eval_p(a.args[0], env, memo), eval_p(a.args[1], env, memo)
            )
        elif k == "cos":
            v = math.cos(eval_p(a.args[0], env, memo))
        elif k == "sin":
            v = math.sin(eval_p(a.args[0], env, memo))
        elif k == "atan2":
            v = math.atan2(
                eval_p(a.args[0], env, memo), eval_p(a.args[1], env, memo)
            )
        elif k in ("tan", "atan", "asin", "acos", "sinh", "cosh", "tanh"):
            v = getattr(math, k)(eval_p(a.args[0], env, memo))
        elif k == "floor":
            v = math.floor(eval_p(a.args[0], env, memo))
        elif k == "rint":
            v = rint_f(eval_p(a.args[0], env, memo))
        elif k == "ite":
            v = eval_p(
                a.args[1] if a.args[0].evalf(env, memo) else a.args[2], env, memo
            )
        else:
            raise Unsupported("eval " + k)
    memo[i] = v
    return v


def eval_p(p, env, memo):
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for i in m:
            t *= eval_atom(i, env, memo)
        s += t
    return s


# --------------------------------------------------------------------------
# conditions
# --------------------------------------------------------------------------
class Cond:
    """Boolean combination of polynomial (in)equalities."""

    __slots__ = ("op", "a", "_key")

    def __init__(self, op, a):
        self.op = op  # 'lt','le','eq' (poly ? 0), 'and','or','not','const'
        self.a = a
        self._key = None

    def key(self):
        if self._key is None:
            if self.op in ("lt", "le", "eq"):
                self._key = (self.op, p_key(self.a))
            elif self.op == "const":
                self._key = ("const", self.a)
            elif self.op == "not":
                self._key = ("not", self.a.key())
            else:
                self._key = (self.op, tuple(c.key() for c in self.a))
        return self._key

    def evalf(self, env, memo):
        if self.op == "const":
            return self.a
        if self.op == "lt":
            return eval_p(self.a, env, memo) < 0
        if self.op == "le":
            return eval_p(self.a, env, memo) <= 0
        if self.op == "eq":
            return eval_p(self.a, env, memo) == 0
        if self.op == "not":
            return not self.a.evalf(env, memo)
        if self.op == "and":
            return all(c.evalf(env, memo) for c in self.a)
        return any(c.evalf(env, memo) for c in self.a)

    def polys(self):
        if self.op in ("lt", "le", "eq"):
            yield self.a
        elif self.op == "not":
            yield from self.a.polys()
        elif self.op in ("and", "or"):
            for c in self.a:
                yield from c.polys()


TRUE = Cond("const", True)
FALSE = Cond("const", False)


def c_cmp(op, p):
    """p op 0, folded when the interval of p decides it."""
    if p_isconst(p):
        v = p_cval(p)
        return (
            TRUE
            if (v < 0 if op == "lt" else v <= 0 if op == "le" else v == 0)
            else FALSE
        )
    lo, hi = p_iv(p)
    if op == "lt":
        if hi is not None and hi < 0:
            return TRUE
        if lo is not None and lo >= 0:
            return FALSE
    elif op == "le":
        if hi is not None and hi <= 0:
            return TRUE
        if lo is not None and lo > 0:
            return FALSE
    else:
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return FALSE
    c, q = p_monic(p)
    if op == "eq" and q[max(q)] < 0:
        q = p_neg(q)
    return Cond(op, q)


def c_not(c):
    if c.op == "const":
        return FALSE if c.a else TRUE
    if c.op == "not":
        return c.a
    if c.op == "lt":
        return Cond("le", p_neg(c.a))
    if c.op == "le":
        return Cond("lt", p_neg(c.a))
    return Cond("not", c)


def c_and(cs):
    out = []
    for c in cs:
        if c.op == "const":
            if not c.a:
                return FALSE
        elif c.op == "and":
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Cond("and", tuple(out))


def c_or(cs):
    out = []
    for c in cs:
        if c.op == "const":
            if c.a:
                return TRUE
        elif c.op == "or":
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Cond("or", tuple(out))


# --------------------------------------------------------------------------
# translation to z3
# --------------------------------------------------------------------------
def zfrac(c):
    return z3.RealVal(str(c.numerator) + "/" + str(c.denominator))


class Enc:
    """One translation of a set of conditions.

    exact=False: every non linear monomial becomes a fresh bounded variable
    (an over-approximation: 'unsat' is conclusive, linear arithmetic only).
    exact=True: monomials are products.
    """

    def __init__(self, solver, exact):
        self.s = solver
        self.exact = exact
        self.done = set()
        self.done_m = set()
        self.nonlinear = False
        self.logs = []

    def zvar(self, i):
        v = TAB.zv.get(i)
        a = TAB.atoms[i]
        if v is None:
            v = TAB.zv[i] = z3.Real("a%d" % i)
        if i not in self.done:
            self.done.add(i)
            self._define(a, v)
        return v

    def _uf(self, name, n):
        return z3.Function(name, *([z3.RealSort()] * (n + 1)))

    def _define(self, a, v):
        s = self.s
        if a.lo is not None:
            s.add(v >= zfrac(a.lo))
        if a.hi is not None:
            s.add(v <= zfrac(a.hi))
        k = a.kind
        if k == "var":
            return
        if k == "sqrt":
            if self.exact:
                s.add(v * v == self.poly(a.args[0]))
            self.nonlinear = True
        elif k == "abs":
            p = self.poly(a.args[0])
            s.add(v == z3.If(p >= 0, p, -p))
        elif k == "inv":
            if a.args[1] is not None:
                x = self.zvar(a.args[1])
                if self.exact:
                    s.add(x * v == 1)
                self.nonlinear = True
            else:
                s.add(self.poly(p_mul(a.args[0], atom_poly(a.id))) == 1)
                self.nonlinear = True
        elif k in ("max", "min"):
            ps = [self.poly(p) for p in a.args]
            if k == "max":
                s.add(z3.And([v >= p for p in ps]))
            else:
                s.add(z3.And([v <= p for p in ps]))
            s.add(z3.Or([v == p for p in ps]))
        elif k in ("floor", "rint"):
            n = z3.Int("i%d" % a.id)
            p = self.poly(a.args[0])
            r = z3.ToReal(n)
            s.add(v == r)
            if k == "floor":
                s.add(r <= p, p < r + 1)
            else:
                h = zfrac(Fr(1, 2))
                s.add(r - h <= p, p <= r + h)
        elif k == "ite":
            c = self.cond(a.args[0])
            s.add(v == z3.If(c, self.poly(a.args[1]), self.poly(a.args[2])))
        elif k in ("cos", "sin"):
            p = self.poly(a.args[0])
            s.add(v == self._uf("u_" + k, 1)(p))
            if self.exact and k == "sin":
                c = self.zvar(a.args[1])
                s.add(c * c + v * v == 1)
            self.nonlinear = True
        else:
            n = 2 if k in ("pow", "atan2") else 1
            ps = [self.poly(p) for p in a.args[:n]]
            s.add(v == self._uf("u_" + k, n)(*ps))
            self.nonlinear = True
            if k == "log10":
                self._log_facts(ps[0], v)
            elif k == "atan2":
                y, x = ps
                s.add(z3.Implies(y > 0, v > 0), z3.Implies(y < 0, v < 0))
                s.add(z3.Implies(z3.And(y == 0, x > 0), v == 0))
                s.add(z3.Implies(z3.And(y == 0, x < 0), v >= zfrac(Fr(math.pi))))
                h = zfrac(Fr(math.pi / 2))
                e = zfrac(Fr(1, 10**9))
                s.add(z3.Implies(x >= 0, z3.And(v <= h + e, v >= -h - e)))
                s.add(z3.Implies(x < 0, z3.Or(v >= h - e, v <= -h + e)))

    def _log_facts(self, p, v):
        """monotonicity of log10, and its continuity on a relative scale"""
        s = self.s
        eps = zfrac(Fr(1, 10**9))
        s.add(z3.Implies(p >= 1, v >= 0), z3.Implies(z3.And(p > 0, p <= 1), v <= 0))
        for c in TAB.anchors:
            l = Fr(math.log10(c))
            s.add(z3.Implies(p >= zfrac(c), v >= zfrac(l) - eps))
            s.add(z3.Implies(z3.And(p > 0, p <= zfrac(c)), v <= zfrac(l) + eps))
        for q, w in self.logs[-12:]:
            pos = z3.And(p > 0, q > 0)
            s.add(z3.Implies(z3.And(pos, p <= q), v <= w))
            s.add(z3.Implies(z3.And(pos, q <= p), w <= v))
            # |log10(1+d)| <= d, and <= 0.0088 for |d| <= 0.02
            for d, e in ((eps, eps), (zfrac(Fr(1, 50)), zfrac(Fr(88, 10000)))):
                near = z3.And(p - q <= d * q, q - p <= d * q)
                s.add(z3.Implies(z3.And(pos, near), z3.And(v - w <= e, w - v <= e)))
        self.logs.append((p, v))

    def mono(self, m):
        if len(m) == 1:
            return self.zvar(m[0])
        if self.exact:
            self.nonlinear = True
            r = self.zvar(m[0])
            for i in m[1:]:
                r = r * self.zvar(i)
            return r
        v = TAB.zmono.get(m)
        if v is None:
            v = TAB.zmono[m] = z3.Real("m_" + "_".join(map(str, m)))
        if m not in self.done_m:
            self.done_m.add(m)
            self.nonlinear = True
            lo, hi = mono_iv(m)
            if lo is not None:
                self.s.add(v >= zfrac(lo))
            if hi is not None:
                self.s.add(v <= zfrac(hi))
            for i in set(m):
                self.zvar(i)
        return v

    def poly(self, p):
        ts = []
        for m, c in p.items():
            if not m:
                ts.append(zfrac(c))
            elif c == 1:
                ts.append(self.mono(m))
            else:
                ts.append(zfrac(c) * self.mono(m))
        if not ts:
            return z3.RealVal(0)
        if len(ts) == 1:
            return ts[0]
        return z3.Sum(ts)

    def cond(self, c):
        if c.op == "const":
            return z3.BoolVal(c.a)
        if c.op == "lt":
            return self.poly(c.a) < 0
        if c.op == "le":
            return self.poly(c.a) <= 0
        if c.op == "eq":
            return self.poly(c.a) == 0
        if c.op == "not":
            return z3.Not(self.cond(c.a))
        if c.op == "and":
            return z3.And([self.cond(x) for x in c.a])
        return z3.Or([self.cond(x) for x in c.a])


def zval(x):
    if z3.is_rational_value(x):
        return Fr(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_int_value(x):
        return Fr(x.as_long())
    if z3.is_algebraic_value(x):
        r = x.approx(30)
        return Fr(r.numerator_as_long(), r.denominator_as_long())
    raise Unsupported("model value %s" % x)


class Stats:
    def __init__(self):
        self.queries = 0
        self.feas_queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.exact = 0
        self.solver_s = 0.0
        self.paths = 0
        self.decisions = 0
        self.forced = 0

    def as_dict(self):
        return dict(self.__dict__)


STATS = Stats()


def var_model(m):
    env = {}
    for a in TAB.atoms:
        if a.kind == "var":
            z = TAB.zv.get(a.id)
            x = None
            if z is not None:
                x = m.eval(z, model_completion=False)
                try:
                    x = zval(x)
                except Exception:
                    x = None
            if x is None:
                x = ZERO
                if a.lo is not None and x < a.lo:
                    x = a.lo
                if a.hi is not None and x > a.hi:
                    x = a.hi
            env[a.name] = x
    return env


def solve(conds, exact=False, timeout_ms=10000):
    """-> ('unsat'|'sat'|'unknown', env or None, nonlinear)"""
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    e = Enc(s, exact)
    for c in conds:
        s.add(e.cond(c))
    t = time.time()
    r = s.check()
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    if exact:
        STATS.exact += 1
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None, e.nonlinear
    if r == z3.sat:
        STATS.sat += 1
        return "sat", var_model(s.model()), e.nonlinear
    STATS.unknown += 1
    return "unknown", None, e.nonlinear


def env_holds(conds, env):
    memo = {}
    try:
        return all(c.evalf(env, memo) for c in conds)
    except (ZeroDivisionError, ValueError, OverflowError):
        return False


def decide_query(conds, rng=None, timeout_ms=20000):
    """Solver verdict for the conjunction of conds.

    -> ('unsat', None) | ('sat', env) | ('maybe', env or None)
    'maybe': the over-approximation is satisfiable, the exact query was not
    decided in time; env is the best guess.
    """
    r, env, nl = solve(conds, False, timeout_ms)
    if r == "unsat":
        return "unsat", None
    if r == "sat" and not nl:
        return "sat", env
    guess = env
    if env is not None and env_holds(conds, env):
        return "sat", env
    r2, env2, _ = solve(conds, True, timeout_ms)
    if r2 == "unsat":
        return "unsat", None
    if r2 == "sat":
        # uninterpreted functions may make the model unreal; caller replays
        return "sat", env2
    # undecided: look for an assignment that satisfies everything
    rng = rng or random.Random(1)
    for _ in range(200):
        env3 = random_env(rng)
        if env_holds(conds, env3):
            return "sat", env3
    return "maybe", guess


def random_env(rng):
    env = {}
    for a in TAB.atoms:
        if a.kind == "var":
            lo = -10 if a.lo is None else float(a.lo)
            hi = 10 if a.hi is None else float(a.hi)
            if rng.random() < 0.5 and lo <= 0 <= hi:
                lo, hi = max(lo, -10.0), min(hi, 10.0)
            env[a.name] = Fr(rng.uniform(lo, hi)).limit_denominator(10**6)
            if env[a.name] < Fr(lo):
                env[a.name] = Fr(lo)
            if env[a.name] > Fr(hi):
                env[a.name] = Fr(hi)
    return env


# --------------------------------------------------------------------------
# path exploration
# --------------------------------------------------------------------------
class Explorer:
    def __init__(self, max_paths=400, deadline=None, feas_timeout_ms=4000):
        self.max_paths = max_paths
        self.deadline = deadline
        self.feas_timeout_ms = feas_timeout_ms
        self.work = [[]]
        self.unexplored = 0
        self.reset_path([])

    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.known = {}
        self.solver = None
        self.enc = None

    def start(self):
        """next path, or False."""
        if not self.work:
            return False
        self.reset_path(self.work.pop())
        STATS.paths += 1
        return True

    def assume(self, c):
        if c.op == "const":
            if not c.a:
                raise Infeasible()
            return
        self.add(c)

    def add(self, c):
        self.pc.append(c)
        self.known[c.key()] = True
        self.known[c_not(c).key()] = False
        if c.op == "and":
            for x in c.a:
                self.known[x.key()] = True
                self.known[c_not(x).key()] = False
        if self.solver is not None:
            self.solver.add(self.enc.cond(c))

    def _feasible(self, c):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", self.feas_timeout_ms)
            self.enc = Enc(self.solver, False)
            for x in self.pc:
                self.solver.add(self.enc.cond(x))
        # definitions brought in by c are permanent facts: add them outside
        zc = self.enc.cond(c)
        t = time.time()
        r = self.solver.check(zc)
        STATS.solver_s += time.time() - t
        STATS.feas_queries += 1
        return r != z3.unsat

    def decide(self, c):
        if c.op == "const":
            return c.a
        k = c.key()
        v = self.known.get(k)
        if v is not None:
            return v
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            self.trace.append(v)
            self.add(c if v else c_not(c))
            return v
        if self.deadline is not None and time.time() > self.deadline:
            raise PathLimit("time limit")
        if pos > 400:
            raise PathLimit("more than 400 decisions on a path")
        STATS.decisions += 1
        t = self._feasible(c)
        f = self._feasible(c_not(c)) if t else True
        if t and f:
            if STATS.paths + len(self.work) >= self.max_paths + self.base_paths:
                self.unexplored += 1
            else:
                self.work.append(self.trace + [False])
            v = True
        else:
            STATS.forced += 1
            v = t
        self.trace.append(v)
        self.add(c if v else c_not(c))
        return v

    base_paths = 0


EX = None  # current explorer


def set_explorer(ex):
    global EX
    EX = ex
    if ex is not None:
        ex.base_paths = STATS.paths


# --------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------
def is_num(x):
    return isinstance(x, (int, float, Fr)) or _np_num(x)


def _np_num(x):
    import numpy as np

    return isinstance(x, (np.floating, np.integer, np.bool_))


class SymBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        if EX is None:
            raise Unsupported("truth value outside exploration")
        return EX.decide(self.c)

    def __and__(self, o):
        return mkbool(c_and([self.c, tocond(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(c_or([self.c, tocond(o)]))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(c_not(self.c))

    def logical_not(self):
        return mkbool(c_not(self.c))

    def __xor__(self, o):
        a, b = self.c, tocond(o)
        return mkbool(c_or([c_and([a, c_not(b)]), c_and([c_not(a), b])]))

    __rxor__ = __xor__

    def __eq__(self, o):
        return not (bool(self) ^ bool(o))

    def __ne__(self, o):
        return bool(self) ^ bool(o)

    __hash__ = None

    # numeric use of a truth value: decide it
    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _n(op):
        def f(self, o):
            return getattr(int(bool(self)), op)(o)

        return f

    __add__ = _n("__add__")
    __radd__ = _n("__radd__")
    __mul__ = _n("__mul__")
    __rmul__ = _n("__rmul__")
    __sub__ = _n("__sub__")
    __rsub__ = _n("__rsub__")

    def __repr__(self):
        return "SymBool"

    def __deepcopy__(self, memo):
        return self


def mkbool(c):
    if c.op == "const":
        return c.a
    return SymBool(c)


def tocond(x):
    if isinstance(x, SymBool):
        return x.c
    return TRUE if x else FALSE


def lift(x):
    """number -> S, or float (nan/inf), or None if not a number."""
    if isinstance(x, S):
        return x
    if isinstance(x, bool):
        return S(p_const(Fr(int(x))), None)
    if isinstance(x, int):
        return S(p_const(Fr(x)), None)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return float(x)
        return S(p_const(Fr(x)), None)
    if isinstance(x, complex):
        if not (math.isfinite(x.real) and math.isfinite(x.imag)):
            return complex(x)
        return S(p_const(Fr(x.real)), p_const(Fr(x.imag)))
    if isinstance(x, Fr):
        return S(p_const(x), None)
    if isinstance(x, SymBool):
        return lift(bool(x))
    if hasattr(x, "item") and getattr(x, "ndim", None) == 0:
        return lift(x.item())
    return None


def real_of(x):
    return S(x.re, None) if isinstance(x, S) else (x.real if x == x else x)


class S:
    """symbolic scalar: re polynomial, im polynomial or None (real)."""

    __slots__ = ("re", "im")
    __array_priority__ = 1000

    def __init__(self, re, im=None):
        self.re = re
        self.im = im

    # -- numpy protocol (methods attached by shims) --
    ndim = 0
    shape = ()
    size = 1

    def is_const(self):
        return p_isconst(self.re) and (self.im is None or p_isconst(self.im))

    def const(self):
        if not self.is_const():
            raise Unsupported("concrete value of a symbolic number needed")
        if self.im is None:
            c = p_cval(self.re)
            return float(c)
        return complex(float(p_cval(self.re)), float(p_cval(self.im)))

    @property
    def real(self):
        return S(self.re, None)

    @property
    def imag(self):
        return S({} if self.im is None else self.im, None)

    def conjugate(self):
        if self.im is None:
            return self
        return S(self.re, p_neg(self.im))

    conj = conjugate

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def __neg__(self):
        return S(p_neg(self.re), None if self.im is None else p_neg(self.im))

    def __pos__(self):
        return self

    def _isarr(self, o):
        import numpy as np

        return isinstance(o, np.ndarray) and o.ndim > 0

    def __add__(self, o):
        if isinstance(o, S):
            pass
        elif self._isarr(o):
            import numpy as np

            return np.add(self, o)
        else:
            o = lift(o)
            if o is None:
                return NotImplemented
            if not isinstance(o, S):
                return o  # nan / inf
        if self.im is None and o.im is None:
            return S(p_add(self.re, o.re), None)
        return S(p_add(self.re, o.re), p_add(self.im or {}, o.im or {}))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, S):
            pass
        elif self._isarr(o):
            import numpy as np

            return np.subtract(self, o)
        else:
            o = lift(o)
            if o is None:
                return NotImplemented
            if not isinstance(o, S):
                return -o
        return self + (-o)

    def __rsub__(self, o):
        if self._isarr(o):
            import numpy as np

            return np.subtract(o, self)
        o = lift(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, S):
            return o
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, S):
            pass
        elif self._isarr(o):
            import numpy as np

            return np.multiply(self, o)
        else:
            o = lift(o)
            if o is None:
                return NotImplemented
            if not isinstance(o, S):
                if o != o:
                    return o
                return _inf_times(self, o)
        a, b, c, d = self.re, self.im, o.re, o.im
        if b is None and d is None:
            return S(p_mul(a, c), None)
        if b is None:
            return S(p_mul(a, c), p_mul(a, d))
        if d is None:
            return S(p_mul(a, c), p_mul(b, c))
        return S(
            p_sub(p_mul(a, c), p_mul(b, d)), p_add(p_mul(a, d), p_mul(b, c))
        )

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, S):
            if self._isarr(o):
                import numpy as np

                return np.true_divide(self, o)
            o = lift(o)
            if o is None:
                return NotImplemented
            if not isinstance(o, S):
                if o != o:
                    return o
                return S({}, None)
        return s_div(self, o)

    def __rtruediv__(self, o):
        if self._isarr(o):
            import numpy as np

            return np.true_divide(o, self)
        o = lift(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, S):
            if o != o:
                return o
            return _inf_times(self, o)
        return s_div(o, self)

    def __floordiv__(self, o):
        q = self / o
        return s_floor(q)

    def __rfloordiv__(self, o):
        return s_floor(o / self)

    def __mod__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self - o * s_floor(self / o)

    def __rmod__(self, o):
        o = lift(o)
        return o - self * s_floor(o / self)

    def __divmod__(self, o):
        q = s_floor(self / o)
        return q, self - o * q

    def __pow__(self, o):
        if self._isarr(o):
            import numpy as np

            return np.power(self, o)
        return s_pow(self, o)

    def __rpow__(self, o):
        return s_pow(lift(o), self)

    def __abs__(self):
        return s_abs(self)

    # -- comparisons --
    def _cmp(self, o, op):
        if self._isarr(o):
            import numpy as np

            return {
                "<": np.less,
                "<=": np.less_equal,
                ">": np.greater,
                ">=": np.greater_equal,
            }[op](self, o)
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if not isinstance(o2, S):
            if isinstance(o2, complex) or o2 != o2:
                return False
            return {"<": o2 > 0, "<=": o2 > 0, ">": o2 < 0, ">=": o2 < 0}[op]
        if (self.im is not None and self.im) or (o2.im is not None and o2.im):
            # lexicographic, as numpy orders complex numbers
            a, b = self, o2
            d = p_sub(a.re, b.re)
            e = p_sub(a.im or {}, b.im or {})
            if op in (">", ">="):
                d, e = p_neg(d), p_neg(e)
            return mkbool(
                c_or(
                    [
                        c_cmp("lt", d),
                        c_and(
                            [
                                c_cmp("eq", d),
                                c_cmp("lt" if op in ("<", ">") else "le", e),
                            ]
                        ),
                    ]
                )
            )
        d = p_sub(self.re, o2.re)
        if op == "<":
            return mkbool(c_cmp("lt", d))
        if op == "<=":
            return mkbool(c_cmp("le", d))
        d = p_neg(d)
        if op == ">":
            return mkbool(c_cmp("lt", d))
        return mkbool(c_cmp("le", d))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def _eqc(self, o):
        d = c_cmp("eq", p_sub(self.re, o.re))
        if self.im is None and o.im is None:
            return d
        return c_and([d, c_cmp("eq", p_sub(self.im or {}, o.im or {}))])

    def __eq__(self, o):
        if self._isarr(o):
            import numpy as np

            return np.equal(self, o)
        o = lift(o)
        if o is None:
            return False
        if not isinstance(o, S):
            return False
        return mkbool(self._eqc(o))

    def __ne__(self, o):
        if self._isarr(o):
            import numpy as np

            return np.not_equal(self, o)
        o = lift(o)
        if o is None or not isinstance(o, S):
            return True
        return mkbool(c_not(self._eqc(o)))

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if self.is_const():
            return hash(self.const())
        raise Unsupported("hash of a symbolic number")

    # -- conversions --
    def __float__(self):
        if self.im is not None and p_isconst(self.im) and not p_cval(self.im):
            return S(self.re).const()
        if self.im is not None:
            raise TypeError("can't convert complex to float")
        return self.const()

    def __complex__(self):
        return complex(self.const())

    def __int__(self):
        if self.is_const():
            return int(self.const())
        return concretize_int(s_trunc(self))

    def __index__(self):
        if self.is_const():
            c = p_cval(self.re)
            if c.denominator == 1:
                return int(c)
            raise TypeError("index is not an integer")
        return concretize_int(self)

    def __round__(self, n=None):
        if n is None or n == 0:
            return s_rint(self)
        return s_rint(self * 10**n) / 10**n

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return -s_floor(-self)

    def __trunc__(self):
        return s_trunc(self)

    def is_integer(self):
        return bool(s_floor(self) == self)

    # methods used by numpy's object loops
    def sqrt(self):
        return s_sqrt(self)

    def log10(self):
        return s_log10(self)

    def log(self):
        return s_log10(self) * math.log(10)

    def exp(self):
        return s_exp(self)

    def cos(self):
        return s_cos(self)

    def sin(self):
        return s_sin(self)

    def rint(self):
        return s_rint(self)

    def floor(self):
        return s_floor(self)

    def ceil(self):
        return -s_floor(-self)

    def __repr__(self):
        if self.is_const():
            return repr(self.const())
        return "<sym>"

    def __str__(self):
        return repr(self)

    def __format__(self, f):
        if self.is_const():
            return format(self.const(), f)
        return str(self) if f == "" else repr(self)

    def evalf(self, env, memo=None):
        memo = {} if memo is None else memo
        r = eval_p(self.re, env, memo)
        if self.im is None:
            return r
        return complex(r, eval_p(self.im, env, memo))


NAN = float("nan")


def concretize_int(x):
    """Fork over the possible values of an integer-valued expression."""
    if x.is_const():
        return int(x.const())
    lo, hi = p_iv(x.re)
    for _ in range(64):
        r, env, nl = solve(EX.pc, False, 4000)
        if env is None:
            raise Unsupported("no value for a symbolic integer")
        v = round(eval_p(x.re, env, {}))
        if bool(x == v):
            return int(v)
    raise Unsupported("symbolic integer with too many values")


def _inf_times(s, o):
    if isinstance(o, complex):
        return complex(NAN, NAN)
    if s.im is not None:
        return complex(NAN, NAN)
    if bool(s == 0):
        return NAN
    return o if bool(s > 0) else -o


def s_div(a, b):
    if b.im is not None:
        if b.im:
            # a / b = a conj(b) / |b|^2
            n = p_add(p_mul(b.re, b.re), p_mul(b.im, b.im))
            return s_div(a * b.conjugate(), S(n, None))
        r = s_div(a, S(b.re, None))
        if isinstance(r, S) and r.im is None:
            return S(r.re, {})
        return r
    if p_isconst(b.re):
        c = p_cval(b.re)
        if c == 0:
            return _div0(a)
        return S(
            p_scale(a.re, 1 / c), None if a.im is None else p_scale(a.im, 1 / c)
        )
    if bool(S(b.re) == 0):
        return _div0(a)
    # exact cancellation of a scalar multiple
    if a.im is None and a.re and len(a.re) == len(b.re):
        m = max(a.re)
        if m in b.re:
            k = a.re[m] / b.re[m]
            if p_scale(b.re, k) == a.re:
                return S(p_const(k), None)
    inv = mk_inv(b.re)
    return S(p_mul(a.re, inv), None if a.im is None else p_mul(a.im, inv))


def _div0(a):
    if a.im is not None:
        return complex(NAN, NAN)
    if bool(a == 0):
        return NAN
    return math.inf if bool(a > 0) else -math.inf


def _lf(f):
    """lift argument; nan/inf handled by the python function."""
    return f


def s_pow(a, o):
    if isinstance(o, S) and o.is_const() and o.im is None:
        c = p_cval(o.re)
        o = int(c) if c.denominator == 1 else float(c)
    if not isinstance(a, S):
        if isinstance(o, S):
            raise Unsupported("pow")
        return a**o
    if isinstance(o, S):
        if a.im is not None or o.im is not None:
            raise Unsupported("complex power")
        if bool(a <= 0):
            raise Unsupported("power of a non positive base")
        if a.is_const():
            r = _pow_of_logs(p_cval(a.re), o.re)
            if r is not None:
                return r
        return S(mk_fun("pow", (a.re, o.re), lo=ZERO), None)
    if hasattr(o, "item"):
        o = o.item()
    if isinstance(o, float) and o == int(o):
        o = int(o)
    if isinstance(o, int):
        if o < 0:
            return S(p_const(ONE)) / s_pow(a, -o)
        r = S(p_const(ONE), None if a.im is None else {})
        for _ in range(o):
            r = r * a
        return r
    if o == 0.5:
        return s_sqrt(a)
    if o == -0.5:
        return 1 / s_sqrt(a)
    if a.is_const():
        return lift(a.const() ** o)
    if a.im is not None:
        raise Unsupported("complex power")
    if bool(a < 0):
        return NAN
    if bool(a == 0):
        return lift(0.0) if o > 0 else math.inf
    return S(mk_fun("pow", (a.re, p_const(Fr(o))), lo=ZERO), None)


def _pow_of_logs(base, p):
    """base**p when p is a constant plus (half) integer multiples of log10(q) and base a power of ten."""
    lb = Fr(math.log10(float(base)))
    if lb.denominator != 1 or lb == 0:
        return None
    r, rest = S(p_const(ONE)), {}
    for m, c in p.items():
        e = 2 * c * lb
        if len(m) == 1 and TAB.atoms[m[0]].kind == "log10" and e.denominator == 1 and abs(e) <= 8:
            q = S(TAB.atoms[m[0]].args[0])
            e = int(e)
            f = s_pow(q, abs(e) // 2)
            if e % 2:
                f = f * s_sqrt(q)
            r = r * f if e > 0 else r / f
        else:
            rest[m] = c
    if rest:
        if p_isconst(rest):
            return r * S(p_const(Fr(float(base) ** float(p_cval(rest)))))
        if len(rest) == len(p):
            return None
        return r * S(mk_fun("pow", (p_const(base), rest), lo=ZERO), None)
    return r


def s_abs(a):
    if not isinstance(a, S):
        return abs(a)
    if a.im is None:
        return S(mk_abs(a.re), None)
    if not a.im:
        return S(mk_abs(a.re), None)
    if not a.re:
        return S(mk_abs(a.im), None)
    return S(mk_sqrt(p_add(p_mul(a.re, a.re), p_mul(a.im, a.im))), None)


def s_sqrt(a):
    a = lift(a)
    if not isinstance(a, S):
        if a != a or a == math.inf:
            return a
        return NAN
    if a.im is not None:
        if not a.im:
            r = s_sqrt(S(a.re))
            return S(r.re, {}) if isinstance(r, S) else r
        raise Unsupported("sqrt of a complex number")
    if _nonneg(a.re):
        return S(mk_sqrt(a.re), None)
    if bool(a < 0):
        return NAN
    return S(mk_sqrt(a.re), None)


def _nonneg(p):
    lo, _ = p_iv(p)
    if lo is not None and lo >= 0:
        return True
    # sums of squares with positive coefficients
    return all(
        c > 0 and len(m) % 2 == 0 and all(m[2 * i] == m[2 * i + 1] for i in range(len(m) // 2))
        for m, c in p.items()
    ) or _psd_quadratic(p)


def _psd_quadratic(p):
    """Quadratic form, positive semidefinite up to rounding (exact LDL^T)."""
    if not p or any(len(m) != 2 for m in p):
        return False
    ids = sorted(p_atoms(p))
    n = len(ids)
    if n > 40:
        return False
    ix = {a: k for k, a in enumerate(ids)}
    import numpy as np

    M = np.zeros((n, n))
    for (i, j), c in p.items():
        a, b = ix[i], ix[j]
        if a == b:
            M[a, a] += float(c)
        else:
            M[a, b] += float(c) / 2
            M[b, a] += float(c) / 2
    w = np.linalg.eigvalsh(M)
    return bool(w[0] >= -1e-9 * max(1e-300, abs(w[-1])))


def s_log10(a):
    a = lift(a)
    if not isinstance(a, S):
        if a != a:
            return a
        return math.inf if a > 0 else NAN
    if a.im is not None and a.im:
        raise Unsupported("log of a complex number")
    if p_isconst(a.re):
        v = p_cval(a.re)
        if v == 0:
            return -math.inf
        if v < 0:
            return NAN
        return S(p_const(Fr(math.log10(v))))
    if bool(S(a.re) <= 0):
        return -math.inf if bool(S(a.re) == 0) else NAN
    # log10(c*p) = log10(c) + log10(p)
    c, q = p_monic(a.re)
    # the value whose logarithm is 0: its neighbourhood is told to the solver
    for k in (1 / c, 1 / c / c):
        if c != 1 and k not in TAB.anchors and len(TAB.anchors) < 6:
            TAB.anchors.append(k)
    r = {}
    if len(q) == 1 and q[next(iter(q))] == 1:
        # product of atoms known positive? split off powers of sqrt/pow/inv
        (m, _), = q.items()
        for i in m:
            at = TAB.atoms[i]
            if at.lo is not None and at.lo >= 0:
                r = p_add(r, _log_atom(i))
            else:
                r = None
                break
    else:
        r = None
    if r is None:
        lo, hi = p_iv(q)
        r = mk_fun("log10", (q,))
    return S(p_add(p_const(Fr(math.log10(float(c)))), r), None)


def _log_atom(i):
    at = TAB.atoms[i]
    if at.kind == "sqrt":
        r = s_log10(S(at.args[0]))
        if isinstance(r, S):
            return p_scale(r.re, Fr(1, 2))
    if at.kind == "inv":
        r = s_log10(S(at.args[0]))
        if isinstance(r, S):
            return p_neg(r.re)
    if at.kind == "pow" and p_isconst(at.args[0]):
        return p_scale(at.args[1], Fr(math.log10(float(p_cval(at.args[0])))))
    lo = hi = None
    if at.lo is not None and at.lo > 0:
        lo = Fr(math.log10(float(at.lo))) - Fr(1, 10**9)
    if at.hi is not None and at.hi > 0:
        hi = Fr(math.log10(float(at.hi))) + Fr(1, 10**9)
    return mk_fun("log10", (atom_poly(i),), lo, hi)


def s_exp(a):
    a = lift(a)
    if not isinstance(a, S):
        return lift(math.exp(a))
    if p_isconst(a.re):
        m = p_const(Fr(math.exp(float(p_cval(a.re)))))
    else:
        m = mk_fun("exp", (a.re,), lo=ZERO)
    if a.im is None:
        return S(m, None)
    c = s_cos(S(a.im))
    s = s_sin(S(a.im))
    return S(p_mul(m, c.re), p_mul(m, s.re))


def _snap(v):
    if abs(v) < 1e-15:
        return 0.0
    return v


def s_cos(a):
    a = lift(a)
    if a.im is not None:
        raise Unsupported("cos of complex")
    if p_isconst(a.re):
        return S(p_const(Fr(math.cos(float(p_cval(a.re))))))
    p, sgn = _cs_canon(a.re)
    _cs(p)
    return S(mk_fun("cos", (p,), Fr(-1), ONE), None)


def _cs_canon(p):
    if p[max(p)] < 0:
        return p_neg(p), -1
    return p, 1


def _cs(p):
    c = mk_fun("cos", (p,), Fr(-1), ONE)
    (cm,) = c
    i, key = _find("sin", (p,), cm)
    if i is None:
        i = TAB.new("sin", (p, cm[0]), Fr(-1), ONE, key=key).id
    return c, atom_poly(i)


def s_sin(a):
    a = lift(a)
    if a.im is not None:
        raise Unsupported("sin of complex")
    if p_isconst(a.re):
        return S(p_const(Fr(math.sin(float(p_cval(a.re))))))
    p, sgn = _cs_canon(a.re)
    _, s = _cs(p)
    return S(s if sgn > 0 else p_neg(s), None)


def s_atan2(y, x):
    y, x = lift(y), lift(x)
    if y.is_const() and x.is_const():
        return lift(math.atan2(y.const(), x.const()))
    # the direction does not change with a positive scale
    c = None
    for p in (y.re, x.re):
        if p:
            c = abs(p[max(p)])
            break
    yy, xx = p_scale(y.re, 1 / c), p_scale(x.re, 1 / c)
    return S(
        mk_fun("atan2", (yy, xx), Fr(-math.pi) - Fr(1, 10**9), Fr(math.pi) + Fr(1, 10**9)),
        None,
    )


def s_fun1(kind, a):
    a = lift(a)
    if not isinstance(a, S):
        return float(getattr(math, kind)(a))
    if a.is_const():
        return lift(getattr(math, kind)(a.const()))
    return S(mk_fun(kind, (a.re,)), None)


def s_floor(a):
    a = lift(a)
    if not isinstance(a, S):
        return a
    if a.im is not None:
        raise Unsupported("floor of complex")
    if p_isconst(a.re):
        return S(p_const(Fr(math.floor(p_cval(a.re)))))
    if _is_int_poly(a.re):
        return a
    lo, hi = p_iv(a.re)
    return S(
        mk_fun(
            "floor",
            (a.re,),
            None if lo is None else Fr(math.floor(lo)),
            None if hi is None else Fr(math.floor(hi)),
            isint=True,
        )
    )


def _is_int_poly(p):
    return all(
        c.denominator == 1 and all(TAB.atoms[i].isint for i in m)
        for m, c in p.items()
    )


def s_trunc(a):
    a = lift(a)
    if _is_int_poly(a.re):
        return a
    if bool(a >= 0):
        return s_floor(a)
    return -s_floor(-a)


def s_rint(a):
    a = lift(a)
    if not isinstance(a, S):
        return a
    if a.im is not None:
        r, i = s_rint(S(a.re)), s_rint(S(a.im))
        return S(r.re, i.re)
    if p_isconst(a.re):
        return S(p_const(Fr(round(p_cval(a.re)))))
    if _is_int_poly(a.re):
        return a
    lo, hi = p_iv(a.re)
    return S(
        mk_fun(
            "rint",
            (a.re,),
            None if lo is None else Fr(math.floor(lo)),
            None if hi is None else Fr(math.ceil(hi)),
            isint=True,
        )
    )


def s_minmax(kind, xs):
    ys = []
    for x in xs:
        y = lift(x)
        if not isinstance(y, S):
            if y != y:
                return y
            if (y > 0) == (kind == "max"):
                return y
            continue
        if y.im is not None and y.im:
            # numpy compares complex numbers lexicographically: decide
            best = lift(xs[0])
            for z in xs[1:]:
                z = lift(z)
                if bool(z > best if kind == "max" else z < best):
                    best = z
            return best
        ys.append(y)
    if not ys:
        return xs[0]
    cplx = any(y.im is not None for y in ys)
    return S(mk_minmax(kind, [y.re for y in ys]), {} if cplx else None)


def s_ite(c, a, b):
    """value of 'a if c else b' without forking, for real numbers."""
    if not isinstance(c, SymBool):
        return a if c else b
    a2, b2 = lift(a), lift(b)
    if not isinstance(a2, S) or not isinstance(b2, S):
        return a if bool(c) else b

    def one(p, q):
        if p == q:
            return p
        key = ("ite", c.c.key(), p_key(p), p_key(q))
        i = TAB.by_key.get(key)
        if i is None:
            l1, h1 = p_iv(p)
            l2, h2 = p_iv(q)
            i = TAB.new(
                "ite",
                (c.c, p, q),
                None if None in (l1, l2) else min(l1, l2),
                None if None in (h1, h2) else max(h1, h2),
                key=key,
            ).id
        return atom_poly(i)

    re = one(a2.re, b2.re)
    if a2.im is None and b2.im is None:
        return S(re, None)
    return S(re, one(a2.im or {}, b2.im or {}))


def new_var(name, lo, hi):
    if name in TAB.vars:
        return S(atom_poly(TAB.vars[name]), None)
    a = TAB.new(
        "var",
        (),
        None if lo is None else Fr(lo),
        None if hi is None else Fr(hi),
        name=name,
    )
    TAB.vars[name] = a.id
    return S(atom_poly(a.id), None)
