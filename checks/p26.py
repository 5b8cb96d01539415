"""Pattern axes: a field stored on the distinct slices of an axis."""
from .common import dt, nest

BOUNDS = (
    "1 to 3 axes; pattern axis of 1 to 4 stored slices and up to 8 positions, step or not, at every place among "
    "the axes; symbolic increasing positions (whole axis and reductions) or fixed ones (requested values); "
    "request for the whole axis, the stored pattern, indices, an interval, values, a reduction"
)
ASSUMPTIONS = [
    "integrals, means and rms along time, angle and z use the trapezoidal rule on the whole axis as it stands "
    "(a pattern axis is not closed by one more step)",
    "requested values on a step axis are at a position of the axis or farther from it than 0.2 % of the axis",
]

# name: (rebuild indices, step, stored positions as positions in the whole axis, repeated positions)
PAT = {
    "step2": ([0, 0, 1, 1], True),
    "step3": ([0, 0, 1, 1, 2, 2], True),
    "stepmir": ([1, 1, 0, 0, 0, 0, 1, 1], True),
    "stepodd": ([0, 0, 1, 1, 0, 0], True),
    "mirror3": ([0, 1, 2, 1, 0], False),
    "mirror2": ([0, 1, 1, 0], False),
    "late": ([1, 0, 1], False),
    "rot": ([2, 0, 1], False),
    "all3": ([0, 1, 2], False),
    "dup": ([0, 1, 0, 1, 1], False),
    "one": ([0], True),
    "wide1": ([0, 0], True),
}
OPS = ["sum", "mean", "rms", "rss", "integrate", "max", "min"]


def configs(tier):
    out = []

    def add(pat, axes, k, req, nm="slice", cplx=False, **kw):
        name = "%s-%s-%s@%d-%s%s" % (
            pat, nm, "x".join("%s%d" % (a, n) for a, n in axes), k, req.replace("/", "_"), "-c" if cplx else ""
        )
        out.append(dict({"name": name, "pat": pat, "axes": axes, "k": k, "req": req, "nm": nm, "cplx": cplx}, **kw))

    lay = [([], 0), ([["time", 2]], 0), ([["time", 2]], 1), ([["time", 2], ["angle", 2]], 1), ([["foo", 3], ["time", 2]], 2)]
    for pat in PAT:
        L = len(PAT[pat][0])
        reqs = ["whole", "pattern", "smallestperiod", "none"]
        reqs += ["[%d]" % i for i in range(L)] + ["[0,%d]" % (L - 1), "[0:%d]" % max(1, L - 1), "[%d:%d]" % (min(1, L - 1), L)]
        for req in dict.fromkeys(reqs):
            for axes, k in lay:
                if req == "none" and not axes:
                    continue
                add(pat, axes, k, req)
        add(pat, [["time", 2]], 1, "whole", cplx=True)
        for nm in ["slice", "z", "time"]:
            for op in OPS:
                if nm == "slice" and op == "integrate" or L < 2 and op == "integrate":
                    continue
                if nm == "time":
                    ls = [([], 0), ([["angle", 2]], 1)]
                else:
                    ls = [([], 0), ([["time", 2]], 0), ([["time", 2]], 1)] + ([lay[3]] if tier != "quick" or L < 5 else [])
                for axes, k in ls:
                    add(pat, axes, k, "=" + op, nm)
        if L > 1:
            add(pat, [["time", 2]], 1, "=integrate_local", "z")
            add(pat, [["time", 2]], 0, "=integrate_local", "z")
            for op in ["derivate", "antiderivate"] if not PAT[pat][1] else ["antiderivate"]:
                add(pat, [], 0, "=" + op, "z")
                add(pat, [["angle", 2]], 0, "=" + op, "time")
                add(pat, [["time", 2], ["angle", 2]], 1, "=" + op, "z")
        for axes, k in lay[:4]:
            for req in ["at", "ats", "val", "vals", "interval", "rev", "twice"]:
                add(pat, axes, k, req)
    return out


def run(ctx, cfg):
    import numpy as np

    s = dt()
    reb, step = PAT[cfg["pat"]]
    n = max(reb) + 1
    L = len(reb)
    req = cfg["req"]
    symb = req in ("whole", "pattern", "smallestperiod", "none") or req[0] in "[="
    squares = req in ("=rms", "=rss")
    red = req[0] == "="
    # positions
    cnt = L // 2 + 1 if step and L > 1 else L
    if symb and not squares and req not in ("=derivate", "=antiderivate"):
        e = ctx.increasing("e", cnt, -50, 50, 0.5)
        e = [e[i] for i in range(cnt)]
    else:
        e = [-3.0, -1.0, 2.0, 2.5, 4.0][:cnt]
    if step and L > 1:
        whole = []
        for i in range(L // 2):
            whole += [e[i], e[i + 1]]
    else:
        whole = list(e)
    uniq = [reb.index(i) for i in range(n)]
    vals = [whole[i] for i in uniq]
    shape = [a[1] for a in cfg["axes"]]
    k = cfg["k"]
    shape.insert(k, n)
    hi = {"hi": 1e4, "lo": -1e4} if squares else {}
    x = (ctx.complexes if cfg["cplx"] else ctx.reals)("x", tuple(shape), **hi)
    nm = cfg["nm"]
    pat = s.DataPattern(
        name=nm, unit="m", values=ctx.arr(vals), values_whole=ctx.arr(whole),
        rebuild_indices=list(reb), unique_indices=uniq, is_step=step,
    )
    axes = []
    for a, m in cfg["axes"]:
        axes.append(s.Data1D(name=a, unit={"time": "s", "angle": "rad"}.get(a, "m"), values=ctx.arr([0.5 * i for i in range(m)])))
    names = [a for a, m in cfg["axes"]]
    axes.insert(k, pat)
    names.insert(k, nm)
    d = s.DataTime(name="f", symbol="X", unit="T", axes=axes, values=x)
    args = list(names)

    def S(i):
        """field at slice i as a function of the other indices"""
        return lambda *o: x[tuple(list(o[:k]) + [i] + list(o[k:]))]

    kw = {}
    want_ax = None
    reduced = False
    if req == "whole":
        ctx.eq(pat.get_values(is_oneperiod=True), whole, "one period of the axis is the whole axis", tol=1e-9)
        ctx.eq(pat.get_values(), whole, "whole axis", tol=1e-9)
        ctx.eq(pat.get_values(is_smallestperiod=True), vals, "stored positions", tol=1e-9)
        ctx.eq(pat.get_values(is_pattern=True), vals, "pattern of the axis", tol=1e-9)
        ctx.true(pat.get_length() == L and pat.get_length(is_smallestperiod=True) == n, "lengths of the axis")
        cells = [S(i) for i in reb]
        want_ax = whole
    elif req in ("pattern", "smallestperiod"):
        args[k] = "%s[%s]" % (nm, req)
        cells = [S(i) for i in range(n)]
        want_ax = vals
    elif req == "none":
        del args[k]
        cells = [S(reb[0])]
    elif req[0] == "[":
        args[k] = nm + req
        t = req[1:-1]
        if ":" in t:
            a, b = t.split(":")
            ix = list(range(L))[slice(int(a) if a else None, int(b) if b else None)]
        else:
            ix = [int(q) for q in t.split(",")]
            if len(ix) == 2 and ix[0] == ix[1]:
                ix = ix
        cells = [S(reb[i]) for i in ix]
        want_ax = [whole[i] for i in ix]
    elif req == "=integrate_local":
        args[k] = nm + req
        segs = [i for i in range(L - 1) if not (step and i % 2 == 1)]
        cells = []
        for i in segs:
            w = whole[i + 1] - whole[i]
            cells.append(lambda *o, i=i, w=w: (S(reb[i])(*o) + S(reb[i + 1])(*o)) * w / 2)
        want_ax = [(whole[i] + whole[i + 1]) / 2 for i in segs]
    elif req in ("=derivate", "=antiderivate"):
        args[k] = nm + req
        h = [whole[i + 1] - whole[i] for i in range(L - 1)]

        def deriv(i, *o):
            v = [S(q)(*o) for q in reb]
            sl = [(v[q + 1] - v[q]) / h[q] for q in range(L - 1)]
            if i in (0, L - 1):
                return sl[0 if i == 0 else -1]
            return (sl[i - 1] * h[i] + sl[i] * h[i - 1]) / (h[i] + h[i - 1])

        def anti(i, *o):
            v = [S(q)(*o) for q in reb]
            c = [0]
            for q in range(L - 1):
                c.append(c[-1] + (v[q] + v[q + 1]) * h[q] / 2)
            return c[i] - sum(c) / L

        cells = [lambda *o, i=i: (deriv if req == "=derivate" else anti)(i, *o) for i in range(L)]
        want_ax = whole
    elif red:
        args[k] = nm + req
        op = req[1:]
        phys = nm in ("z", "time") and L > 1

        def cell(*o):
            v = [S(i)(*o) for i in reb]
            if op in ("rms", "rss"):
                v = [q * q for q in v]
            if op == "max":
                return ctx.maxof(v)
            if op == "min":
                return ctx.minof(v)
            if op == "sum" or not phys:
                r = sum(v)
                den = L if op in ("mean", "rms") else 1
            else:
                r = sum((v[i] + v[i + 1]) * (whole[i + 1] - whole[i]) / 2 for i in range(L - 1))
                den = whole[-1] - whole[0] if op in ("mean", "rms") else 1
            r = r / den
            return ctx.sqrt(r) if op in ("rms", "rss") else r

        cells = [cell]
        reduced = True
    else:
        # requested values, fixed positions
        pts = sorted(set(whole))

        def near(v):
            """slice(s) at the requested position"""
            for p in pts:
                if not isinstance(v, float):
                    continue
                if v == p:
                    return [i for i in range(L) if whole[i] == p]
            return None

        def value(v):
            hit = near(v)
            if step:
                if hit is not None:
                    return lambda *o: sum(S(reb[i])(*o) for i in hit) / len(hit)
                if L == 1:
                    return S(reb[0])
                j = 0
                if ctx.decide(v < whole[0]):
                    return S(reb[0])
                if ctx.decide(v > whole[-1]):
                    return S(reb[-1])
                for j in range(0, L, 2):
                    if ctx.decide(v < whole[j + 1]):
                        return S(reb[j])
                raise AssertionError
            if hit is not None:
                return S(reb[hit[0]])
            j = L - 2
            for j in range(L - 1):
                if j == L - 2 or ctx.decide(v < whole[j + 1]):
                    break
            t = (v - whole[j]) / (whole[j + 1] - whole[j])
            return lambda *o: S(reb[j])(*o) * (1 - t) + S(reb[j + 1])(*o) * t

        def free(name, lo, hi):
            v = ctx.real(name, lo, hi)
            for p in pts:
                g = 0.02
                ctx.assume((v - p > g) | (v - p < -g))
            return v

        lo, hi = pts[0], pts[-1]
        if req == "interval":
            a, b = free("a", lo - 2, hi + 2), free("b", lo - 2, hi + 2)
            ctx.assume(a < b)
            ix = [i for i in range(L) if ctx.decide(whole[i] > a) and ctx.decide(whole[i] < b)]
            ctx.assume(len(ix) > 0)
            args[k] = "%s=[%s,%s]" % (nm, ctx.tok(a), ctx.tok(b))
            cells = [S(reb[i]) for i in ix]
            want_ax = [whole[i] for i in ix]
        else:
            if req == "at":
                vs = [pts[-1]]
            elif req == "ats":
                vs = list(pts)
            elif req == "rev":
                vs = list(reversed(pts))
            elif req == "twice":
                vs = [pts[0], pts[-1], pts[0]]
            elif req == "val":
                vs = [free("v", lo - 2, hi + 2)]
            else:
                vs = [lo, free("v", lo, hi) if hi > lo else lo + 1.0, hi]
            if req == "val" and not step:
                # single value: nearest sample, nothing outside the axis
                v = vs[0]
                for i in range(L):
                    for j in range(i):
                        m = (whole[i] + whole[j]) / 2 - v
                        ctx.assume((m > 1e-3) | (m < -1e-3))
                ctx.assume(v > lo)
                ctx.assume(v < hi)
                b = 0
                for i in range(1, L):
                    if ctx.decide(abs(whole[i] - v) < abs(whole[b] - v)):
                        b = i
                cells = [S(reb[b])]
            else:
                cells = [value(v) for v in vs]
            args[k] = nm + "=axis_data"
            kw["axis_data"] = {nm: ctx.arr(vs)}
            want_ax = vs
    r = d.get_along(*args, **kw)
    dims = list(shape)
    dims[k] = len(cells)
    keep = [j for j in range(len(dims)) if dims[j] > 1]

    def at(*i):
        full = [i[keep.index(j)] if j in keep else 0 for j in range(len(dims))]
        c = full.pop(k)
        return cells[c](*full)

    ctx.eq(r["X"], nest([dims[j] for j in keep], at), "field for " + req, tol=1e-3)
    if want_ax is not None:
        ctx.eq(r[nm], want_ax, "axis for " + req, tol=1e-6)
    if req == "none":
        ctx.eq(r["axes_dict_other"][nm][0], whole[0], "position of the axis left out", tol=1e-6)
    if reduced:
        ctx.true(r[nm] == req[1:], "name of the reduction")
    ctx.true(pat.get_length() == L, "length of the axis")
    ctx.true(pat.get_length(is_pattern=True) == n, "length of the pattern")
    for j, (a, m) in enumerate(cfg["axes"]):
        ctx.eq(r[a], [0.5 * i for i in range(m)], "axis " + a, tol=1e-6)
