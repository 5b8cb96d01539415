"""Periodic and antiperiodic storage."""
from .common import dt, nest, rebuild

BOUNDS = (
    "1 to 4 axes, one or two of them periodic or antiperiodic with 2 to 12 stored periods of 1 to 11 "
    "samples, at any position; Data1D (uniform step, any symbolic start) and DataLinspace (initial, "
    "final, number, step, with and without end point); real and complex values |x|<=1e9, axis start "
    "in [-1e3,1e3], step in [0.25,100]"
)

EXT = ["", "[oneperiod]", "[antiperiod]", "[smallestperiod]"]


def configs(tier):
    out = []

    def add(axes, cplx=False, others=None):
        """axes: [name, n, sym, kind, start]"""
        name = "_".join(
            "%s%d%s%s%s" % (a, n, "".join(k[0] + str(v) for k, v in sym.items()), kind, st)
            for a, n, sym, kind, st in axes
        )
        out.append({"name": name + ("-c" if cplx else ""), "axes": axes, "cplx": cplx})

    syms = [{"period": 2}, {"period": 3}, {"antiperiod": 2}, {"antiperiod": 3}, {"antiperiod": 4}]
    if tier == "thorough":
        syms += [{"period": 5}, {"antiperiod": 5}, {"antiperiod": 6}, {"period": 1}]
    names = ["time", "angle", "z", "foo"]
    for nm in names:
        for sym in syms:
            for kind in ["1D", "LE", "LX", "LS"]:
                for st in ["zero", "any"]:
                    add([[nm, 3, sym, kind, st]])
    for sym in syms:
        add([["angle", 1, dict(sym, delta=0.5), "1D", "any"]])
        add([["angle", 2, sym, "1D", "any"]], cplx=True)
        add([["angle", 4, sym, "1D", "any"]])
        add([["time", 2, {}, "1D", "any"], ["angle", 2, sym, "1D", "zero"]])
        add([["time", 2, sym, "1D", "any"], ["angle", 3, {}, "1D", "any"]])
        for sym2 in syms:
            add([["time", 2, sym, "LX", "zero"], ["angle", 2, sym2, "1D", "any"]])
        add([["time", 2, {}, "1D", "any"], ["angle", 2, sym, "LX", "zero"], ["z", 2, {}, "1D", "any"]])
        add([["time", 2, {}, "1D", "any"], ["slice", 2, {}, "1D", "any"], ["angle", 2, sym, "LX", "zero"]])
        add([["angle", 2, sym, "1D", "zero"], ["time", 2, {"antiperiod": 3}, "1D", "any"], ["z", 2, {}, "1D", "any"]])
        add([["freqs", 3, sym, "1D", "any"]], cplx=True)
        add([["wavenumber", 3, sym, "LX", "any"]], cplx=True)
        add([["freqs", 2, sym, "1D", "any"], ["angle", 2, sym, "1D", "any"]], cplx=True)
    add([["time", 1, {"antiperiod": 4, "delta": 0.25}, "1D", "zero"], ["angle", 2, {"period": 2}, "1D", "any"]])
    many = [{"period": 1}, {"period": 4}, {"period": 5}, {"period": 6}, {"period": 7}, {"period": 12}]
    many += [{"antiperiod": 5}, {"antiperiod": 6}, {"antiperiod": 7}, {"antiperiod": 8}, {"antiperiod": 12}]
    for i, sym in enumerate(many):
        if tier == "quick":
            add([[["time", "angle", "z", "foo"][i % 4], 3, sym, ["1D", "LE", "LX", "LS"][(i + i // 4) % 4], "any"]])
            add([["angle", 2, sym, "LX", "any"]], cplx=True)
        add([["time", 2, {"antiperiod": 4}, "1D", "any"], ["angle", 2, sym, "1D", "any"]])
        add([["angle", 1, dict(sym, delta=0.5), "1D", "any"], ["time", 2, {"period": 3}, "LX", "any"]])
        add([["angle", 2, sym, "LE", "any"], ["time", 1, {"antiperiod": 6, "delta": 0.25}, "1D", "zero"]])
    for sym in [{"period": 2}, {"period": 5}, {"antiperiod": 2}, {"antiperiod": 3}]:
        add([["angle", 11, sym, "1D", "any"]])
        add([["z", 2, {}, "1D", "any"], ["time", 10, sym, "LX", "any"]])
        add([["time", 2, {"period": 2}, "1D", "any"], ["angle", 2, sym, "LX", "zero"], ["slice", 2, {}, "1D", "any"], ["z", 2, {"antiperiod": 2}, "1D", "any"]])
    if tier == "thorough":
        for a in syms:
            for b in syms:
                for c in syms[:4]:
                    add([["time", 2, a, "1D", "any"], ["angle", 2, b, "LX", "any"], ["z", 2, c, "LE", "any"]])
    return out


def portion(n, sym, ext):
    """[(stored index, sign)] and number of axis values for one request"""
    full = rebuild([None] * n, sym)
    if ext == "":
        return full
    if ext == "[oneperiod]":
        return full[: 2 * n] if "antiperiod" in sym else full[:n]
    return full[:n]


def run(ctx, cfg):
    s = dt()
    shape = tuple(a[1] for a in cfg["axes"])
    x = (ctx.complexes if cfg["cplx"] else ctx.reals)("x", shape)
    axes, steps, starts = [], [], []
    for k, (name, n, sym, kind, st) in enumerate(cfg["axes"]):
        a = 0 if st == "zero" else ctx.real("a%d" % k, -1000, 1000)
        h = sym["delta"] if "delta" in sym else ctx.real("h%d" % k, 0.25, 100)
        kw = dict(name=name, unit="m", symmetries=dict(sym))
        if kind == "1D":
            ax = s.Data1D(values=ctx.arr([a + i * h for i in range(n)]), **kw)
        elif kind == "LE":
            ax = s.DataLinspace(initial=a, final=a + (n - 1) * h, number=n, include_endpoint=True, **kw)
        elif kind == "LX":
            ax = s.DataLinspace(initial=a, final=a + n * h, number=n, include_endpoint=False, **kw)
        else:
            ax = s.DataLinspace(initial=a, step=h, number=n, **kw)
        axes.append(ax)
        steps.append(h)
        starts.append(a)
    spectral = any(a[0] in ("freqs", "wavenumber") for a in cfg["axes"])
    cls = s.DataFreq if spectral else s.DataTime
    d = cls(name="f", symbol="X", unit="T", axes=axes, values=x)

    def effective(name, sym):
        """spectral axes are never continued"""
        return {} if name in ("freqs", "wavenumber") else sym

    # axis on its own
    for k, (name, n, sym, kind, st) in enumerate(cfg["axes"]):
        e = effective(name, sym)
        for ext in EXT:
            if ext == "[antiperiod]" and "antiperiod" not in sym:
                continue
            kw = {"is_" + ext[1:-1]: True} if ext else {}
            got = axes[k].get_values(**kw)
            want = [starts[k] + i * steps[k] for i in range(len(portion(n, e, ext)))]
            ctx.eq(got, want, "get_values %s %s" % (name, ext), tol=1e-6)
            if e is sym:
                ctx.true(
                    axes[k].get_length(**kw) == len(want), "get_length %s %s" % (name, ext)
                )
        per, anti = axes[k].get_periodicity()
        cnt = sym.get("antiperiod", sym.get("period", 1))
        w = (cnt, "antiperiod" in sym and cnt > 1)
        ctx.true((per, bool(anti)) == w, "get_periodicity %s" % name)

    # field
    combos = [[""], ["[oneperiod]"], ["[smallestperiod]"], ["[antiperiod]"]]
    combos = [c * len(axes) for c in combos]
    if len(axes) > 1:
        combos += [["", "[smallestperiod]", "[oneperiod]", ""], ["[oneperiod]", "", "", "[smallestperiod]"], ["[smallestperiod]", "[oneperiod]", "", "[oneperiod]"]]
    for ch in combos:
        ch = ch[: len(axes)]
        if any(e == "[antiperiod]" and "antiperiod" not in a[2] for e, a in zip(ch, cfg["axes"])):
            ch = [
                "" if e == "[antiperiod]" and "antiperiod" not in a[2] else e
                for e, a in zip(ch, cfg["axes"])
            ]
        pos = [portion(a[1], effective(a[0], a[2]), e) for a, e in zip(cfg["axes"], ch)]

        def at(*i):
            sg = 1
            ix = []
            for p, j in zip(pos, i):
                ix.append(p[j][0])
                sg *= p[j][1]
            return sg * x[tuple(ix)]

        keep = [k for k in range(len(pos)) if len(pos[k]) > 1]
        want = nest(
            [len(pos[k]) for k in keep],
            lambda *i: at(*[i[keep.index(k)] if k in keep else 0 for k in range(len(pos))]),
        )
        req = [a[0] + e for a, e in zip(cfg["axes"], ch)]
        r = d.get_along(*req)
        ctx.eq(r["X"], want, "values of %s" % req)
        for k, a in enumerate(cfg["axes"]):
            ctx.eq(
                r[a[0]],
                [starts[k] + i * steps[k] for i in range(len(pos[k]))],
                "axis %s of %s" % (a[0], req),
                tol=1e-6,
            )

    # index selections count positions on the whole axis, at any place
    for k, (name, n, sym, kind, st) in enumerate(cfg["axes"]):
        e = effective(name, sym)
        if e.get("period", e.get("antiperiod", 1)) == 1:
            continue
        full = portion(n, e, "")
        N = len(full)
        sels = [("[0]", [0]), ("[%d]" % n, [n]), ("[%d]" % (N - 1), [N - 1]), ("[-1]", [N - 1])]
        sels += [("[0,%d]" % n, [0, n]), ("[%d:%d]" % (n - 1, n + 1), [n - 1, n])]
        if n > 2:
            sels += [("[0:2]", [0, 1]), ("[2,1]", [2, 1])]
        for suffix, ix in sels:
            r = d.get_along(name + suffix)
            want = [
                full[i][1] * x[tuple(full[i][0] if q == k else 0 for q in range(len(axes)))]
                for i in ix
            ]
            ctx.eq(r["X"], want if len(want) > 1 else want[0], "values of %s%s" % (name, suffix))
            ctx.eq(
                r[name], [starts[k] + i * steps[k] for i in ix], "axis of %s%s" % (name, suffix), tol=1e-6
            )
