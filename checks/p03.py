"""Selection by physical value and interval."""
from .common import dt, nest, rebuild

BOUNDS = (
    "1 to 3 axes of 2 to 4 stored samples, up to 9 after rebuild of the symmetry; one axis selected by "
    "a symbolic value, interval, lower or upper bound; increasing symbolic, decreasing symbolic, or "
    "uniform axis (values up to 200, in some up to 1e8); request in the axis unit, another unit, or through a reference or affine "
    "normalization; request at least 1e-3 away from ties (single value); interval holding at least one sample"
)
ASSUMPTIONS = [
    "interval requests that contain no sample are outside the statement (they raise IndexError)",
    "single value requests half way between two samples are outside the statement",
]

# suffix put after the axis name for one kind of unit: (prefix, suffix, factor, offset) request = axis*factor+offset
UNITS = {
    "SI": ("", "", 1, 0),
    "ms": ("", "{ms}", 1000, 0),
    "deg": ("", "{°}", None, 0),
    "min": ("", "{min}", None, 0),
    "ref": ("->p", "", 0.5, 0),
    "aff": ("->q", "", 3, 1),
}


def configs(tier):
    out = []

    def add(op, unit, axes, k, kind="inc", cplx=False):
        name = "%s-%s-%s-%s@%d%s" % (
            op,
            unit,
            kind,
            "_".join("%s%d%s" % (a, n, "".join(q[0] + str(v) for q, v in sym.items())) for a, n, sym in axes),
            k,
            "-c" if cplx else "",
        )
        out.append({"name": name, "op": op, "unit": unit, "axes": axes, "k": k, "kind": kind, "cplx": cplx})

    ops = ["single", "interval", "above", "below"]
    for op in ops:
        for kind in ["inc", "dec", "lin"]:
            add(op, "SI", [["time", 4, {}]], 0, kind)
            add(op, "SI", [["angle", 3, {}], ["time", 2, {}]], 0, kind)
            add(op, "SI", [["time", 2, {}], ["angle", 3, {}]], 1, kind)
        for u in ["ref", "aff"]:
            add(op, u, [["time", 3, {}]], 0)
            add(op, u, [["time", 2, {}], ["foo", 3, {}]], 1)
        if op not in ("above", "below") or True:
            add(op, "ms", [["time", 3, {}]], 0)
            add(op, "deg", [["z", 2, {}], ["angle", 3, {}]], 1)
        for sym in [{"period": 2}, {"period": 3}, {"antiperiod": 2}, {"antiperiod": 3}, {"antiperiod": 4}]:
            add(op, "SI", [["angle", 2, sym]], 0, "lin")
            add(op, "SI", [["time", 3, sym]], 0, "lin") if list(sym.values())[0] < 4 else None
            add(op, "SI", [["time", 2, {"antiperiod": 2}], ["angle", 2, sym]], 1, "lin")
            add(op, "min", [["time", 2, sym]], 0, "lin")
            add(op, "ref", [["time", 2, sym]], 0, "lin")
            add(op, "aff", [["angle", 2, sym]], 0, "lin")
            # stored part and requested values of the same size in different units
            add(op, "min", [["time", 2, sym]], 0, "pos")
            add(op, "ref", [["time", 2, sym]], 0, "pos")
            add(op, "ref", [["z", 2, {}], ["angle", 2, sym]], 1, "pos")
        for kind in ("wide", "widedec"):
            add(op, "SI", [["time", 3, {}]], 0, kind)
            add(op, "SI", [["z", 2, {}], ["freqs", 3, {}]], 1, kind, cplx=True)
            add(op, "aff", [["angle", 2, {}], ["foo", 2, {}]], 0, kind)
        add(op, "SI", [["freqs", 4, {}]], 0, "inc", cplx=True)
        add(op, "SI", [["freqs", 3, {"antiperiod": 2}]], 0, "inc", cplx=True)
        add(op, "SI", [["z", 2, {}], ["freqs", 3, {}], ["angle", 2, {}]], 1, "lin", cplx=True)
        add(op, "SI", [["loadcases", 3, {}], ["time", 3, {}], ["z", 2, {}]], 1)
    return [c for c in out if c is not None]


def run(ctx, cfg):
    s = dt()
    k = cfg["k"]
    shape = tuple(a[1] for a in cfg["axes"])
    x = (ctx.complexes if cfg["cplx"] else ctx.reals)("x", shape)
    axes = []
    fulls = []
    import math

    for j, (name, n, sym) in enumerate(cfg["axes"]):
        unit = {"time": "s", "angle": "rad", "freqs": "Hz"}.get(name, "m")
        kind = cfg["kind"] if j == k else "lin0"
        norms = {"p": s.Norm_ref(ref=2), "q": s.Norm_affine(slope=3, offset=1)}
        cnt = len(rebuild([0] * n, sym if name != "freqs" else {}))
        if kind == "inc":
            v = ctx.increasing("ax", n, -100, 100, 0.5)
            full = [v[i] for i in range(n)]
        elif kind == "wide":
            v = ctx.increasing("ax", n, -1e8, 1e8, 0.5)
            full = [v[i] for i in range(n)]
        elif kind == "widedec":
            w = ctx.increasing("ax", n, -1e8, 1e8, 0.5)
            v = ctx.arr([w[n - 1 - i] for i in range(n)])
            full = [v[i] for i in range(n)]
        elif kind == "dec":
            w = ctx.increasing("ax", n, -100, 100, 0.5)
            v = ctx.arr([w[n - 1 - i] for i in range(n)])
            full = [v[i] for i in range(n)]
        else:
            h = 0.5
            a = -0.75 if kind == "lin" else 0
            v = ctx.arr([a + i * h for i in range(n)])
            full = [a + i * h for i in range(cnt)]
        axes.append(s.Data1D(name=name, unit=unit, values=v, symmetries=dict(sym), normalizations=norms))
        fulls.append(full)
    cls = s.DataFreq if any(a[0] == "freqs" for a in cfg["axes"]) else s.DataTime
    d = cls(name="f", symbol="X", unit="T", axes=axes, values=x)
    name = cfg["axes"][k][0]
    pre, suf, fac, off = UNITS[cfg["unit"]]
    if cfg["unit"] == "deg":
        fac = 180 / math.pi
    if cfg["unit"] == "min":
        fac = 1 / 60
    ax = [fac * v + off for v in fulls[k]]
    pos = []
    for name_j, n, sym in cfg["axes"]:
        pos.append(rebuild([0] * n, sym if name_j != "freqs" else {}))
    R = (2e8 if "wide" in cfg["kind"] else 200) * fac
    op = cfg["op"]
    req = [a[0] for a in cfg["axes"]]
    if op == "single":
        v = ctx.real("v", -R, R)
        req[k] = name + pre + "=" + ctx.tok(v) + suf
        lo, hi = ctx.minof(ax), ctx.maxof(ax)
        for i in range(len(ax)):
            for j in range(i):
                m = (ax[i] + ax[j]) / 2 - v
                ctx.assume((m > 1e-3 * fac) | (m < -1e-3 * fac))
        # away from the ends of the axis by more than rounding
        for e in (lo, hi):
            ctx.assume((v - e > 1e-6 * fac) | (v - e < -1e-6 * fac))
        if ctx.decide(v < lo) or ctx.decide(v > hi):
            sel = None
        else:
            sel = [0]
            for i in range(1, len(ax)):
                b = ax[sel[0]]
                if ctx.decide(abs(ax[i] - v) < abs(b - v)):
                    sel = [i]
    else:
        if op == "interval":
            a = ctx.real("v", -R, R)
            b = ctx.real("w", -R, R)
            ctx.assume(a < b)
            req[k] = "%s%s=[%s,%s]%s" % (name, pre, ctx.tok(a), ctx.tok(b), suf)
            bounds = [(1, a), (-1, b)]
        elif op == "above":
            a = ctx.real("v", -R, R)
            req[k] = "%s%s>%s%s" % (name, pre, ctx.tok(a), suf)
            bounds = [(1, a)]
        else:
            a = ctx.real("v", -R, R)
            req[k] = "%s%s<%s%s" % (name, pre, ctx.tok(a), suf)
            bounds = [(-1, a)]
        sel = []
        for i, e in enumerate(ax):
            ok = True
            for sg, b in bounds:
                m = sg * (e - b)
                ctx.assume((m > 1e-6 * fac) | (m < -1e-6 * fac))
                if ok and not ctx.decide(m >= 0):
                    ok = False
            if ok:
                sel.append(i)
        ctx.assume(len(sel) > 0)
    r = d.get_along(*req)
    got = r["X"]
    if sel is None:
        keep = [j for j in range(len(pos)) if j != k and len(pos[j]) > 1]
        want = nest([len(pos[j]) for j in keep], lambda *i: float("nan"))
        ctx.eq(got, want, "no value outside the axis")
        return
    full_pos = pos
    pos = [p if j != k else [p[i] for i in sel] for j, p in enumerate(full_pos)]

    def at(*i):
        sg = 1
        ix = []
        for p, q in zip(pos, i):
            ix.append(p[q][0])
            sg *= p[q][1]
        return sg * x[tuple(ix)]

    keep = [j for j in range(len(pos)) if len(pos[j]) > 1]
    want = nest(
        [len(pos[j]) for j in keep],
        lambda *i: at(*[i[keep.index(j)] if j in keep else 0 for j in range(len(pos))]),
    )
    ctx.eq(got, want, "values of %s selection" % op)
    for j, a in enumerate(cfg["axes"]):
        if j != k:
            ctx.eq(r[a[0]], fulls[j], "other axis " + a[0], tol=1e-6)
        elif op == "single":
            ctx.eq(r[a[0]], [v], "axis is the requested value", tol=1e-6 * fac)
        else:
            ctx.eq(r[a[0]], [ax[i] for i in sel], "axis of the samples in the interval", tol=1e-6 * fac)
