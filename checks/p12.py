"""Normalizations of axes and fields."""
import numpy as np

from .common import dt, nest, rebuild

BOUNDS = (
    "references in [0.01,1e3], slopes and offsets |x|<=1e3, any vector |x|<=1e6, indices, an affine and a quadratic function; axes of 1 to 4 samples "
    "(Data1D, linspace, step axis), without symmetry, periodic or antiperiodic (2 to 4 times), start in [-1e3,1e3], step in [0.25,100]; one or two axes; "
    "selections by index, interval and value with symbolic bounds; real and complex fields |x|<=1e9"
)
LIMITS = {"max_paths": 300}
NORMS = ["ref", "refneg", "affine", "func", "square", "vector", "indices"]


def configs(tier):
    out = []

    def add(**k):
        k["name"] = "-".join(str(v) for v in k.values()).replace(" ", "")
        out.append(k)

    syms = [{}, {"period": 2}, {"period": 3}, {"antiperiod": 2}, {"antiperiod": 4}]
    for norm in NORMS:
        for sym in syms:
            for ax in ("1D", "lin", "linx"):
                for n in (2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
                    if n == 1 and sym:
                        continue
                    add(kind="axis", norm=norm, sym=sym, ax=ax, n=n)
            for names in (["time"], ["z", "angle"], ["angle", "z"], ["z", "w", "angle"]):
                add(kind="whole", norm=norm, sym=sym, names=names)
                add(kind="index", norm=norm, sym=sym, names=names)
        for ax in ("1D", "lin", "linx", "pat"):
            add(kind="unitrule", norm=norm, ax=ax)
        add(kind="spec", norm=norm)
        for n in (2, 3):
            add(kind="freqs", norm=norm, n=n)
    for norm in ("ref", "refneg", "affine", "func"):
        for sel in ("interval", "above", "below", "value", "data"):
            for sym in ({}, {"period": 2}):
                add(kind="select", norm=norm, sel=sel, sym=sym, names=["angle"])
            add(kind="select", norm=norm, sel=sel, sym={}, names=["z", "angle"])
    for sel in ("interval", "value", "data"):
        for sym in ({}, {"period": 2}, {"antiperiod": 2}):
            add(kind="select", norm="vector", sel=sel, sym=sym, names=["angle"])
    for norm in ("ref", "refneg", "affine", "func", "square"):
        for cls in ("time", "freq"):
            for how in ("along", "mag", "isnorm", "magisnorm", "data"):
                for shape in ([1], [3], [2, 2]):
                    add(kind="field", norm=norm, cls=cls, how=how, shape=shape)
    for norm in ("ref", "affine", "func", "indices", "vector"):
        add(kind="pattern", norm=norm)
    add(kind="number", what="float")
    add(kind="number", what="list")
    add(kind="unknown", what="axis")
    add(kind="unknown", what="field")
    return out


def mknorm(ctx, s, norm, n, unit="SI"):
    """normalization object and the declared rule (position, value) -> value, count = positions of the whole axis"""
    if norm in ("ref", "refneg"):
        r = ctx.real("ref", 0.01, 1000) if norm == "ref" else -ctx.real("ref", 0.01, 1000)
        return s.Norm_ref(ref=r, unit=unit), lambda i, v: v / r
    if norm == "affine":
        a, b = ctx.real("sl", -1000, 1000), ctx.real("of", -1000, 1000)
        return s.Norm_affine(slope=a, offset=b, unit=unit), lambda i, v: v * a + b
    if norm == "func":
        return s.Norm_func(function=lambda v: 3 * v + 0.5, unit=unit), lambda i, v: 3 * v + 0.5
    if norm == "square":
        return s.Norm_func(function=lambda v: v * v + 1, unit=unit), lambda i, v: v * v + 1
    if norm == "indices":
        return s.Norm_indices(unit=unit), lambda i, v: i
    w0, dw = ctx.real("w0", -1e5, 1e5), ctx.real("dw", 0.25, 1e3)
    if n is None:
        return None, None
    # a vector with a regular step is continued like the axis itself
    vec = [w0 + i * dw for i in range(n)]
    return s.Norm_vector(vector=ctx.arr(vec), unit=unit), lambda i, v: w0 + i * dw


def mkaxis(ctx, s, ax, name, n, sym, norms, unit="m"):
    a = ctx.real("a", -1000, 1000)
    h = ctx.real("h", 0.25, 100)
    kw = dict(name=name, unit=unit, symmetries=dict(sym), normalizations=norms)
    if ax == "1D":
        A = s.Data1D(values=ctx.arr([a + i * h for i in range(n)]), **kw)
    elif ax == "lin":
        A = s.DataLinspace(initial=a, final=a + (n - 1) * h, number=n, include_endpoint=True, **kw)
    else:
        A = s.DataLinspace(initial=a, final=a + n * h, number=n, include_endpoint=False, **kw)
    return A, lambda i: a + i * h


def run(ctx, cfg):
    s = dt()
    from SciDataTool.Functions import NormError

    kind = cfg["kind"]
    norm = cfg.get("norm")
    tol = 1e-4
    if kind == "axis":
        n, sym = cfg["n"], cfg["sym"]
        N, rule = mknorm(ctx, s, norm, n)
        A, at = mkaxis(ctx, s, cfg["ax"], "angle", n, sym, {"q": N, "p": s.Norm_ref(ref=7.0)})
        full = len(rebuild([0] * n, sym))
        one = 2 * n if "antiperiod" in sym else n
        for kw, cnt in (({}, full), ({"is_smallestperiod": True}, n), ({"is_oneperiod": True}, one), ({"is_antiperiod": True}, n)):
            if "is_antiperiod" in kw and "antiperiod" not in sym:
                continue
            ctx.eq(A.get_values(normalization="q", **kw), [rule(i, at(i)) for i in range(cnt)], "normalization %s" % kw, tol=tol)
            ctx.eq(A.get_values(unit="q", **kw), [rule(i, at(i)) for i in range(cnt)], "normalization as unit %s" % kw, tol=tol)
            ctx.eq(A.get_values(**kw), [at(i) for i in range(cnt)], "physical values %s" % kw, tol=tol)
        ctx.eq(A.get_values(normalization="p"), [at(i) / 7.0 for i in range(full)], "other normalization", tol=tol)
        ctx.raises(NormError, lambda: A.get_values(normalization="zz"), "unknown normalization refused")
    elif kind in ("whole", "index"):
        names, sym = cfg["names"], cfg["sym"]
        k = len(names) - 1
        n = 3
        N, rule = mknorm(ctx, s, norm, n)
        A, at = mkaxis(ctx, s, "1D", names[k], n, sym, {"q": N})
        axes = [s.Data1D(name=nm, unit="m", values=ctx.arr([float(i) for i in range(2)])) for nm in names[:k]] + [A]
        if names[0] == "angle" and len(names) == 2:
            k = 0
            A, at = mkaxis(ctx, s, "1D", "angle", n, sym, {"q": N})
            axes = [A, s.Data1D(name="z", unit="m", values=ctx.arr([0.0, 1.0]))]
        x = ctx.reals("x", tuple(3 if j == k else 2 for j in range(len(names))))
        d = s.DataTime(name="f", symbol="X", unit="T", axes=axes, values=x)
        pos = rebuild([0] * n, sym)
        forms = [("", list(range(len(pos))), pos)]
        if kind == "whole":
            forms += [("[smallestperiod]", list(range(n)), pos[:n])]
            one = pos[: 2 * n] if "antiperiod" in sym else pos[:n]
            forms += [("[oneperiod]", list(range(len(one))), one)]
        else:
            L = len(pos)
            forms = [("[%s]" % ",".join(map(str, q)), q, [pos[i] for i in q]) for q in ([0], [1], [0, 2], [2, 1], [L - 1], [0, L - 1])]
            forms += [("[1:3]", [1, 2], pos[1:3])]
        for suf, ix, sel in forms:
            args = [nm + "->q" + suf if j == k else nm for j, nm in enumerate(names)]
            r = d.get_along(*args)
            ctx.eq(r[names[k]], [rule(i, at(i)) for i in ix], "axis of %s" % args, tol=tol)
            shape = [len(sel) if j == k else 2 for j in range(len(names))]

            def val(*i):
                p, sg = sel[i[k]]
                return sg * x[tuple(p if j == k else i[j] for j in range(len(names)))]

            E = np.empty(tuple(shape), dtype=object)
            for i in np.ndindex(*E.shape):
                E[i] = val(*i)
            E = np.squeeze(E)
            ctx.eq(r["X"], nest(E.shape, lambda *i: E[i]), "values of %s" % args)
    elif kind == "unitrule":
        N, rule = mknorm(ctx, s, norm, 3, unit="m")

        def axis(unit):
            if cfg["ax"] != "pat":
                return mkaxis(ctx, s, cfg["ax"], "angle", 3, {}, {"q": N}, unit=unit)
            w = [0.0, 0.5, 0.75]
            A = s.DataPattern(name="angle", unit=unit, values=ctx.arr([0.0, 0.5]), values_whole=ctx.arr(w), unique_indices=[0, 1], rebuild_indices=[0, 1, 1], normalizations={"q": N})
            return A, lambda i: w[i]

        A, at = axis("m")
        ctx.eq(A.get_values(normalization="q"), [rule(i, at(i)) for i in range(3)], "normalization in the unit of the axis", tol=tol)
        for unit in ["rad", "mm", "km", "m/s", "Nm"]:
            B, at = axis(unit)
            ctx.raises(NormError, lambda: B.get_values(normalization="q"), "normalization in m refused on an axis in " + unit)
    elif kind == "spec":
        if norm == "vector":
            # a spectrum of 4 samples has 3 lines
            N, rule = mknorm(ctx, s, norm, 3)
        else:
            N, rule = mknorm(ctx, s, norm, 4)
        A = s.Data1D(name="time", unit="s", values=ctx.arr([0.0, 0.0025, 0.005, 0.0075]), normalizations={"q": N})
        x = ctx.reals("x", (4,))
        d = s.DataTime(name="f", symbol="X", unit="T", axes=[A], values=x)
        r = d.get_along("freqs->q")
        ctx.eq(r["freqs"], [rule(i, 100.0 * i) for i in range(3)], "normalized frequencies", tol=tol)
        q = d.get_along("freqs")
        ctx.eq(r["X"], q["X"], "spectrum unchanged")
        ctx.eq(q["freqs"], [100.0 * i for i in range(3)], "frequencies", tol=tol)
        r = d.get_along("freqs->q[1]")
        ctx.eq(r["freqs"], [rule(1, 100.0)], "normalized frequency of a line", tol=tol)
        ctx.eq(r["X"], q["X"][1], "line")
    elif kind == "freqs":
        n = cfg["n"]
        N, rule = mknorm(ctx, s, norm, n)
        A, at = mkaxis(ctx, s, "1D", "freqs", n, {"period": 2}, {"q": N}, unit="Hz")
        x = ctx.complexes("x", (n,))
        d = s.DataFreq(name="f", symbol="X", unit="T", axes=[A], values=x)
        r = d.get_along("freqs->q")
        ctx.eq(r["freqs"], [rule(i, at(i)) for i in range(n)], "normalized frequencies", tol=tol)
        ctx.eq(r["X"], [x[i] for i in range(n)], "spectrum")
        r = d.get_along("freqs->q[%d]" % (n - 1))
        ctx.eq(r["X"], x[n - 1], "line")
        r = d.get_magnitude_along("freqs->q")
        ctx.eq(r["freqs"], [rule(i, at(i)) for i in range(n)], "normalized frequencies of the magnitude", tol=tol)
    elif kind == "select":
        names, sym, sel = cfg["names"], cfg["sym"], cfg["sel"]
        k = len(names) - 1
        n = 3
        # concrete positions, symbolic rule
        st, h = 0.0, 2.0
        if norm == "vector":
            dw = 3.0
            w0 = ctx.real("w0", -50, 50)
            N, rule = s.Norm_vector(vector=ctx.arr([w0 + i * dw for i in range(n)])), lambda i, v: w0 + i * dw
        elif norm in ("ref", "refneg"):
            # 1/ref is the unknown: linear statements
            c = ctx.real("c", 0.05, 20) * (1 if norm == "ref" else -1)
            N, rule = s.Norm_ref(ref=1 / c), lambda i, v: v * c
        elif norm == "affine":
            a, b = ctx.real("sl", 0.1, 10), ctx.real("of", -10, 10)
            N, rule = s.Norm_affine(slope=a, offset=b), lambda i, v: v * a + b
        else:
            N, rule = s.Norm_func(function=lambda v: 0.5 - 3 * v), lambda i, v: 0.5 - 3 * v
        A = s.Data1D(name=names[k], unit="m", values=ctx.arr([st + i * h for i in range(n)]), symmetries=dict(sym), normalizations={"q": N})
        axes = [s.Data1D(name=nm, unit="m", values=ctx.arr([0.0, 1.0])) for nm in names[:k]] + [A]
        x = ctx.reals("x", tuple(3 if j == k else 2 for j in range(len(names))), -1e6, 1e6)
        d = s.DataTime(name="f", symbol="X", unit="T", axes=axes, values=x)
        pos = rebuild([0] * n, sym)
        ax = [rule(i, st + i * h) for i in range(len(pos))]
        req = list(names)
        R = 300
        data = []
        if sel in ("interval", "above", "below"):
            u = ctx.real("u", -R, R)
            bounds = [(1 if sel != "below" else -1, u)]
            if sel == "interval":
                v = ctx.real("v", -R, R)
                ctx.assume(u < v)
                bounds.append((-1, v))
                req[k] += "->q=[%s,%s]" % (ctx.tok(u), ctx.tok(v))
            else:
                req[k] += "->q%s%s" % (">" if sel == "above" else "<", ctx.tok(u))
            ids = []
            for i, e in enumerate(ax):
                ok = True
                for sg, b in bounds:
                    m = sg * (e - b)
                    ctx.assume((m > 1e-6) | (m < -1e-6))
                    if ok and not ctx.decide(m >= 0):
                        ok = False
                if ok:
                    ids.append(i)
            ctx.assume(len(ids) > 0)
            r = d.get_along(*req)
            wt = [[(i, 1)] for i in ids]
            wax = [ax[i] for i in ids]
        else:
            # a point at a known place between two samples
            def point(i, t):
                return ax[i] + (ax[i + 1] - ax[i]) * t

            if sel == "value":
                u = point(1, 0.25)
                req[k] += "->q=" + ctx.tok(u)
                r = d.get_along(*req)
                wt = [[(1, 1)]]
                wax = None
            else:
                us = [point(0, 0.25), point(1, 0.5), point(1, 0.75)]
                req[k] += "->q=axis_data"
                wax = us
                wt = [[(0, 0.75), (1, 0.25)], [(1, 0.5), (2, 0.5)], [(1, 0.25), (2, 0.75)]]
                if norm in ("refneg", "func"):
                    us, wt = us[::-1], wt[::-1]
                    wax = us
                r = d.get_along(*req, axis_data={"angle": ctx.arr(us)})
        if wax is not None:
            ctx.eq(r[names[k]], wax, "axis", tol=tol)
        shape = [len(wt) if j == k else 2 for j in range(len(names))]
        E = np.empty(tuple(shape), dtype=object)
        for i in np.ndindex(*E.shape):
            e = 0
            for p, w in wt[i[k]]:
                q, sg = pos[p]
                e = e + sg * w * x[tuple(q if j == k else i[j] for j in range(len(names)))]
            E[i] = e
        E = np.squeeze(E)
        ctx.eq(r["X"], nest(E.shape, lambda *i: E[i]), "same positions as on the physical axis", tol=1e-2)
    elif kind == "field":
        shape = tuple(cfg["shape"])
        how = cfg["how"]
        names = ["freqs" if cfg["cls"] == "freq" else "time", "z"][: len(shape)]
        x = ctx.complexes("x", shape, -1e4, 1e4) if cfg["cls"] == "freq" else ctx.reals("x", shape, -1e4, 1e4)
        axes = [s.Data1D(name=nm, unit="m", values=ctx.arr([float(i) for i in range(n)])) for nm, n in zip(names, shape)]
        N, rule = mknorm(ctx, s, norm, None)
        cls = s.DataFreq if cfg["cls"] == "freq" else s.DataTime
        key = "ref" if "isnorm" in how else "q"
        d = cls(name="f", symbol="X", unit="T", axes=axes, values=x, normalizations={key: N})
        if how == "data":
            e = d.get_data_along(*names, unit="q")
            r = e.get_along(*names)
        else:
            f = d.get_magnitude_along if "mag" in how else d.get_along
            r = f(*names, **({"is_norm": True} if "isnorm" in how else {"unit": "q"}))
        sq = [n for n in shape if n > 1]

        def val(*i):
            j = iter(i)
            v = x[tuple(next(j) if n > 1 else 0 for n in shape)]
            if "mag" in how:
                v = abs(v) if cfg["cls"] == "time" else ctx.sqrt(ctx.re(v) * ctx.re(v) + ctx.im(v) * ctx.im(v))
            return rule(None, v)

        ctx.eq(r["X"], nest(sq, val), "normalized field", tol=1e-2)
    elif kind == "pattern":
        rb = [0, 1, 1, 0]
        count = 4
        N, rule = mknorm(ctx, s, norm, count)
        A = s.DataPattern(name="z", unit="m", values=ctx.arr([0.0, 1.0]), values_whole=ctx.arr([0.0, 0.5, 0.75, 1.0]), unique_indices=[0, 1], rebuild_indices=rb, normalizations={"q": N})
        x = ctx.reals("x", (2,))
        d = s.DataTime(name="f", symbol="X", unit="T", axes=[A], values=x)
        w = [0.0, 0.5, 0.75, 1.0]
        ctx.eq(A.get_values(normalization="q"), [rule(i, w[i]) for i in range(4)], "normalization of the whole axis", tol=tol)
        r = d.get_along("z->q")
        ctx.eq(r["z"], [rule(i, w[i]) for i in range(4)], "normalized axis", tol=tol)
        ctx.eq(r["X"], [x[i] for i in rb], "values")
    elif kind == "number":
        if cfg["what"] == "float":
            A = s.Data1D(name="angle", unit="m", values=ctx.reals("v", (3,)), normalizations={"q": 4.0, "p": 2})
            v = A.values
            ctx.eq(A.get_values(normalization="q"), [v[i] / 4 for i in range(3)], "plain number", tol=tol)
            ctx.eq(A.get_values(normalization="p"), [v[i] / 2 for i in range(3)], "plain integer", tol=tol)
        else:
            A = s.Data1D(name="angle", unit="m", values=ctx.reals("v", (3,)), normalizations={"q": [5.0, 6.0, 9.0]})
            ctx.eq(A.get_values(normalization="q"), [5, 6, 9], "plain list", tol=tol)
    elif kind == "unknown":
        from SciDataTool.Functions import UnitError

        A = s.Data1D(name="angle", unit="m", values=ctx.arr([0.0, 1.0]), normalizations={"p": s.Norm_ref(ref=2.0)})
        d = s.DataTime(name="f", symbol="X", unit="T", axes=[A], values=ctx.reals("x", (2,)))
        if cfg["what"] == "axis":
            ctx.raises((NormError, UnitError), lambda: d.get_along("angle->zz"), "unknown normalization refused")
        else:
            ctx.raises((NormError, UnitError), lambda: d.get_along("angle", unit="zz"), "unknown normalization refused")
            ctx.raises(NormError, lambda: d.get_along("angle", is_norm=True), "no reference")
