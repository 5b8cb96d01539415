"""Resampling by linear interpolation."""
from .common import dt, nest, rebuild

BOUNDS = (
    "1 to 3 axes of 2 to 4 stored samples (up to 8 after rebuild of the symmetry); 2 to 4 requested values, "
    "in any order, repeated, on or between samples, inside the axis range; one or two axes resampled; "
    "request list or axis_data; axis unit, other unit, normalization; uniform, symbolic increasing and decreasing "
    "axes; real and complex values |x|<=1e9 (1e4 with symbolic axes)"
)
ASSUMPTIONS = [
    "a requested axis of the same length that agrees with the stored axis within 0.1 % is taken as the same "
    "axis by the code: such requests are outside the statement",
]

UNITS = {
    "SI": ("", "", 1, 0),
    "ms": ("", "{ms}", 1000, 0),
    "ref": ("->p", "", 0.5, 0),
    "aff": ("->q", "", 3, 1),
}


def configs(tier):
    out = []

    def add(axes, resamp, form="list", unit="SI", kind="lin", cplx=False, ext=None):
        """resamp: {axis position: number of requested values}"""
        name = "%s-%s-%s-%s-%s%s%s" % (
            form,
            unit,
            kind,
            "_".join("%s%d%s" % (a, n, "".join(q[0] + str(v) for q, v in sym.items())) for a, n, sym in axes),
            "".join("%d:%s" % (k, m) for k, m in resamp),
            "-c" if cplx else "",
            "-" + "_".join(map(str, ext)) if ext else "",
        )
        out.append(
            {"name": name, "axes": axes, "resamp": resamp, "form": form, "unit": unit, "kind": kind, "cplx": cplx, "ext": ext}
        )

    for m in ["3", "s3", "u3"]:
        add([["time", 3, {}]], [[0, m]])
        add([["time", 4, {}]], [[0, m]])
        add([["time", 2, {}], ["angle", 3, {}]], [[1, m]])
        add([["angle", 3, {}], ["time", 2, {}]], [[0, m]])
        add([["freqs", 4, {}]], [[0, m]], cplx=True)
    for m in ["2", "s2", "u2", "3", "u3", "s4", "d3", "s3"]:
        add([["time", 3, {}]], [[0, m]], "data")
        add([["z", 2, {}], ["time", 3, {}]], [[1, m]], "data")
    for m in ["2", "3"]:
        add([["angle", 2, {}], ["time", 3, {}], ["z", 2, {}]], [[1, m]], "data")
        add([["time", 3, {}]], [[0, m]], "data", kind="inc")
        add([["time", 3, {}]], [[0, m]], "data", kind="inc", cplx=True)
        add([["z", 2, {}], ["time", 2, {}]], [[1, m]], "data", kind="inc")
    for m in ["2", "3", "u2", "s3", "u3"]:
        add([["time", 3, {}]], [[0, m]], "data", kind="dec")
        add([["z", 2, {}], ["time", 4, {}]], [[1, m]], "data", kind="dec")
        add([["freqs", 4, {}], ["z", 2, {}]], [[0, m]], "data", kind="dec", cplx=True)
        if m != "2" and m != "u2":
            add([["angle", 4, {}]], [[0, m]], "list", kind="dec")
    add([["time", 3, {}]], [[0, "2"]], "data", kind="symdec")
    for u in ["ms", "ref", "aff"]:
        add([["time", 3, {}]], [[0, "3"]], "list", u, kind="dec")
        add([["time", 3, {}]], [[0, "3"]], "list", u)
        add([["z", 2, {}], ["time", 3, {}]], [[1, "2"]], "data", u)
    for sym in [{"period": 2}, {"period": 3}, {"antiperiod": 2}, {"antiperiod": 3}, {"antiperiod": 4}]:
        add([["angle", 2, sym]], [[0, "2"]], "data")
        add([["time", 2, {}], ["angle", 2, sym]], [[1, "2"]], "data")
        add([["angle", 2, sym], ["time", 2, {"antiperiod": 2}]], [[0, "2"]], "data")
        add([["angle", 2, sym]], [[0, "2"]], "data", "ref")
    add([["angle", 2, {"antiperiod": 2}]], [[0, "3"]], "list")
    add([["angle", 3, {"period": 2}]], [[0, "s3"]], "list")
    add([["time", 3, {}], ["angle", 3, {}]], [[0, "2"], [1, "2"]], "data")
    add([["time", 3, {}], ["z", 2, {}], ["angle", 2, {}]], [[0, "2"], [2, "2"]], "data")
    add([["time", 2, {}], ["angle", 2, {"antiperiod": 2}]], [[0, "2"], [1, "2"]], "data")
    add([["time", 3, {}], ["angle", 3, {}]], [[0, "2"]], "data", ext=[None, "[1]"])
    add([["time", 3, {}], ["angle", 3, {}]], [[1, "3"]], "list", ext=["[2]", None])
    add([["time", 3, {}], ["angle", 3, {}], ["z", 2, {}]], [[1, "2"]], "data", ext=["[2,0]", None, "[1]"])
    if tier == "thorough":
        for n in (3, 4, 5):
            for m in ["3", "4", "s4", "u4", "d4"]:
                add([["time", n, {}]], [[0, m]], "data")
                add([["z", 2, {}], ["time", n, {}]], [[1, m]], "list")
        for sym in [{"period": 4}, {"antiperiod": 5}, {"antiperiod": 6}]:
            add([["angle", 2, sym]], [[0, "2"]], "data")
            add([["z", 2, {}], ["angle", 2, sym]], [[1, "3"]], "list")
    return out


def locate(ctx, ax, v, kind):
    """segment i with ax[i] <= v <= ax[i+1]"""
    down = "dec" in kind
    for i in range(len(ax) - 2):
        if ctx.decide(v >= ax[i + 1] if down else v <= ax[i + 1]):
            return i
    return len(ax) - 2


def run(ctx, cfg):
    s = dt()
    shape = tuple(a[1] for a in cfg["axes"])
    if cfg["kind"] in ("inc", "symdec"):
        ctx.B = 1e4
    x = (ctx.complexes if cfg["cplx"] else ctx.reals)("x", shape)
    res = {k: m for k, m in cfg["resamp"]}
    pre, suf, fac, off = UNITS[cfg["unit"]]
    axes, pos, fulls = [], [], []
    for j, (name, n, sym) in enumerate(cfg["axes"]):
        norms = {"p": s.Norm_ref(ref=2), "q": s.Norm_affine(slope=3, offset=1)}
        p = rebuild([0] * n, sym)
        if cfg["kind"] == "inc" and j in res:
            v = ctx.increasing("ax%d" % j, n, -100, 100, 0.5)
            full = [v[i] for i in range(n)]
        elif cfg["kind"] == "symdec" and j in res:
            w = ctx.increasing("ax%d" % j, n, -100, 100, 0.5)
            full = [w[n - 1 - i] for i in range(n)]
            v = ctx.arr(full)
        elif cfg["kind"] == "dec" and j in res:
            full = [1.0, 0.5, -0.25, -0.75][:n]
            v = ctx.arr(full)
        else:
            full = [0.5 * i - (1 if not sym else 0.25) for i in range(len(p))]
            v = ctx.arr(full[:n])
        unit = {"time": "s", "angle": "rad", "freqs": "Hz"}.get(name, "m")
        axes.append(s.Data1D(name=name, unit=unit, values=v, symmetries=dict(sym), normalizations=norms))
        pos.append(p)
        fulls.append(full)
    cls = s.DataFreq if any(a[0] == "freqs" for a in cfg["axes"]) else s.DataTime
    d = cls(name="f", symbol="X", unit="T", axes=axes, values=x)
    req, axis_data, wants = [], {}, []
    for j, (name, n, sym) in enumerate(cfg["axes"]):
        if j not in res:
            e = (cfg["ext"] or [None] * len(axes))[j]
            ix = list(range(len(pos[j])))
            if e:
                ix = eval(e)
                wants.append([[(1, i)] for i in ix])
                req.append(name + e)
            else:
                wants.append([[(1, i)] for i in ix])
                req.append(name)
            continue
        ax = [fac * a + off for a in fulls[j]]
        mode, m = res[j][:-1], int(res[j][-1])
        vs = []
        for q in range(m):
            if mode == "s" and q < m - 0:
                # on samples, in decreasing order when possible
                vs.append(ax[(len(ax) - 1 - 2 * q) % len(ax)])
            elif mode == "d" and q > 0 and q < m - 1:
                vs.append(vs[0])
            else:
                v = ctx.real("v%d_%d" % (j, q), -1000 * fac, 1000 * fac)
                lo, hi = (ax[-1], ax[0]) if "dec" in cfg["kind"] else (ax[0], ax[-1])
                ctx.assume(v >= lo + 1e-9)
                ctx.assume(v <= hi - 1e-9)
                vs.append(v)
        if mode == "":
            for a, b in zip(vs, vs[1:]):
                ctx.assume(b - a >= 1e-3 * fac)
        elif mode == "u":
            ctx.assume(vs[0] - vs[-1] >= 1e-3 * fac)
        for size in {n, 2 * n, len(ax)}:
            if m == size and mode != "s":
                far = None
                for v, a in zip(vs, ax):
                    t = abs(v - a) > 2e-3 * (abs(v) + abs(a)) + 1e-6
                    far = t if far is None else far | t
                ctx.assume(far)
        row = []
        for v in vs:
            i = locate(ctx, ax, v, cfg["kind"])
            w = (v - ax[i]) / (ax[i + 1] - ax[i])
            row.append([(1 - w, i), (w, i + 1)])
        wants.append(row)
        if cfg["form"] == "data":
            axis_data[name] = ctx.arr(vs)
            req.append(name + pre + "=axis_data" + suf)
        else:
            req.append("%s%s=[%s]%s" % (name, pre, ",".join(ctx.tok(v) if mode != "s" else repr(float(v)) for v in vs), suf))
        res[j] = vs
    def value(i):
        sg, ix = 1, []
        for p, q in zip(pos, i):
            ix.append(p[q][0])
            sg *= p[q][1]
        return sg * x[tuple(ix)]

    def at(*i):
        terms = [(1, ())]
        for j, q in enumerate(i):
            terms = [(c * w, ix + (t,)) for c, ix in terms for w, t in wants[j][q]]
        return ctx.sumof([c * value(ix) for c, ix in terms])

    keep = [j for j in range(len(pos)) if len(wants[j]) > 1]
    want = nest(
        [len(wants[j]) for j in keep],
        lambda *i: at(*[i[keep.index(j)] if j in keep else 0 for j in range(len(pos))]),
    )
    r = d.get_along(*req, axis_data=axis_data)
    ctx.eq(r["X"], want, "linear interpolation")
    for j in res:
        ctx.eq(r[cfg["axes"][j][0]], res[j], "axis is the requested one", tol=1e-6)
