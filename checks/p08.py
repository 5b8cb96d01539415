"""Round trip between time and frequency domains."""
import itertools
import math

import numpy as np

from .common import dt, nest, rebuild

BOUNDS = (
    "1 to 3 axes; time of 2, 4 or 6 samples per period for real signals (any number for complex ones), angle of "
    "2 to 5 samples, other axes of 1 or 2; without symmetry, period 2..3, antiperiod 2 or 4; the whole round "
    "trip, the frequency field asked for its signal (all axes or some of them), and each domain kept for one of the axes; |x|<=1e9"
)
ASSUMPTIONS = ["axes start at zero; real signals have an even number of time samples per period (the number cannot be recovered from an odd one)"]


def configs(tier):
    out = []

    def add(axes, cplx=False, partial=True):
        name = "%s%s%s" % (
            "_".join("%s%d%s" % (a, n, sym if isinstance(sym, str) else "".join(q[0] + str(v) for q, v in sym.items())) for a, n, sym in axes),
            "-c" if cplx else "",
            "" if partial else "-np",
        )
        out.append({"name": name, "axes": axes, "cplx": cplx, "partial": partial})

    syms = [{}, {"period": 2}, {"period": 3}, {"antiperiod": 2}, {"antiperiod": 4}]
    for sym in syms:
        for n in (2, 4, 6):
            add([["time", n, sym]])
        for n in (2, 3, 4, 5, 6):
            add([["angle", n, sym]])
            add([["angle", n, sym]], cplx=True)
        for n in (3, 4):
            add([["time", n, sym]], cplx=True)
        for sym2 in syms:
            add([["time", 4, sym], ["angle", 2, sym2]])
            add([["angle", 2, sym], ["time", 2, sym2]])
        add([["time", 2, sym], ["angle", 3, sym]])
        add([["time", 4, sym], ["angle", 2, sym]], cplx=True)
        add([["time", 2, sym], ["angle", 3, {}]], cplx=True)
        if tier == "thorough":
            add([["time", 4, sym], ["angle", 3, sym]], cplx=True)
        add([["z", 2, {}], ["time", 4, sym]])
        add([["time", 4, sym], ["z", 2, {}]])
        add([["time", 4, sym], ["z", 2, {"period": 2}], ["angle", 2, {}]])
        add([["z", 2, {}], ["angle", 2, sym], ["time", 4, {}]])
        add([["z", 1, {}], ["time", 4, sym]])
        add([["z", 2, {}], ["angle", 3, sym]])
    for axes in [
        [["time", 4, {"period": 2}], ["z", 2, {}]],
        [["z", 2, {"period": 2}], ["angle", 3, {"antiperiod": 2}]],
        [["time", 4, {}], ["angle", 2, {"period": 3}]],
        [["angle", 2, {}], ["time", 2, {"antiperiod": 2}], ["z", 1, {}]],
        [["phase", 2, "comp"], ["time", 2, {}]],
    ]:
        add(axes)
        out[-1].update(alone=True, name=out[-1]["name"] + "-alone")
    for comps in [["radial"], ["radial", "tangential"], ["axial", "radial"], ["comp_x", "comp_y", "comp_z"]]:
        out.append({"name": "vector-" + "_".join(comps), "vector": comps})
    add([["phase", 3, "comp"], ["time", 4, {}]])
    add([["time", 4, {}], ["phase", 3, "comp"], ["angle", 2, {}]])
    return out


def run(ctx, cfg):
    if "vector" in cfg:
        return vector(ctx, cfg)
    s = dt()
    cplx = cfg["cplx"]
    shape = tuple(a[1] for a in cfg["axes"])
    x = (ctx.complexes if cplx else ctx.reals)("x", shape)
    axes, fulls, pos = [], [], []
    for j, (name, n, sym) in enumerate(cfg["axes"]):
        if sym == "comp":
            axes.append(s.Data1D(name=name, unit="", values=["A", "B", "C"][:n], is_components=True))
            fulls.append(None)
            pos.append(rebuild([0] * n, {}))
            continue
        total = n * sym.get("period", sym.get("antiperiod", 1))
        h = 2 * math.pi / total if name == "angle" else 0.125
        unit = {"time": "s", "angle": "rad"}.get(name, "m")
        axes.append(s.Data1D(name=name, unit=unit, values=ctx.arr([i * h for i in range(n)]), symmetries=dict(sym), normalizations={"n%d" % j: s.Norm_ref(ref=j + 2)}))
        fulls.append([i * h for i in range(total)])
        pos.append(rebuild([0] * n, sym))
    d = s.DataTime(name="f", symbol="X", unit="T", axes=axes, values=x, is_real=not cplx, normalizations={"ref": s.Norm_ref(ref=3)})

    def expected(one=()):
        """the field over the whole axes, one period for the axes in one, first sample of dropped axes"""
        p2 = []
        for j, p in enumerate(pos):
            p2.append(p)
        F = np.empty(tuple(len(p) for p in p2), dtype=object)
        for i in np.ndindex(*F.shape):
            sg, ix = 1, []
            for p, q in zip(p2, i):
                ix.append(p[q][0])
                sg *= p[q][1]
            F[i] = sg * x[tuple(ix)]
        return F

    F = np.squeeze(expected())
    req = [a[0] + ("[]" if a[2] == "comp" else "") for a in cfg["axes"]]
    fr = d.time_to_freq()
    ctx.true(type(fr).__name__ == "DataFreq", "frequency domain class")
    names = [a.name for a in fr.axes]
    tr = {"time": "freqs", "angle": "wavenumber"}
    ctx.true(names == [tr.get(a[0], a[0]) for a in cfg["axes"]], "axes of the spectrum")
    ctx.true((fr.unit, fr.symbol, fr.name) == ("T", "X", "f"), "unit and symbol of the spectrum")
    # the signal asked from the spectrum
    r = fr.get_along(*req)
    ctx.eq(r["X"], nest(F.shape, lambda *i: F[i]), "signal of the spectrum")
    for j, a in enumerate(cfg["axes"]):
        if a[2] != "comp":
            ctx.eq(r[a[0]], fulls[j], "axis %s of the signal" % a[0], tol=1e-6)
    meta(ctx, cfg, d, fr, {"time": "Hz", "angle": "dimless", "z": "m", "phase": ""}, "spectrum")
    # and back
    back = fr.freq_to_time()
    meta(ctx, cfg, fr, back, {"time": "s", "angle": "rad", "z": "m", "phase": ""}, "signal")
    ctx.true(type(back).__name__ == "DataTime", "time domain class")
    ctx.true([a.name for a in back.axes] == [a[0] for a in cfg["axes"]], "axes of the signal")
    r = back.get_along(*req)
    ctx.eq(r["X"], nest(F.shape, lambda *i: F[i]), "round trip")
    for j, a in enumerate(cfg["axes"]):
        if a[2] != "comp":
            ctx.eq(r[a[0]], fulls[j], "axis %s of the round trip" % a[0], tol=1e-6)
    if cfg.get("alone"):
        alone(ctx, cfg, d, fr, back, F, req)
        return
    # the spectrum itself, and mixed domains, agree with the time field
    sreq = [tr.get(q, q) for q in req]
    ra, rb = d.get_along(*sreq), fr.get_along(*sreq)
    ctx.eq(rb["X"], ra["X"], "stored spectrum")
    for q in sreq:
        if q in ("freqs", "wavenumber"):
            ctx.eq(rb[q], ra[q], "axis " + q, tol=1e-6)
    if cfg["partial"] and "time" in req and "angle" in req:
        for keep in ("time", "angle"):
            mreq = [q if q == keep else tr.get(q, q) for q in req]
            ra, rb = d.get_along(*mreq), fr.get_along(*mreq)
            ctx.eq(rb["X"], ra["X"], "mixed domain %s" % mreq)
            for q in mreq:
                if "[" not in q:
                    ctx.eq(rb[q], ra[q], "axis %s of %s" % (q, mreq), tol=1e-6)


def meta(ctx, cfg, src, res, units, label):
    ctx.true((res.name, res.symbol, res.unit, res.is_real) == ("f", "X", "T", src.is_real), "metadata of the " + label)
    ctx.true(list(res.normalizations) == ["ref"], "normalizations of the " + label)
    ctx.eq(res.normalizations["ref"].ref, 3, "reference of the " + label)
    for j, a in enumerate(cfg["axes"]):
        ctx.true(res.axes[j].unit == units[a[0]], "unit of the axes of the %s: %s" % (label, res.axes[j].unit))
        ctx.true(bool(res.axes[j].is_components) == (a[2] == "comp"), "kind of the axes of the " + label)
        if a[2] != "comp":
            ctx.true(list(res.axes[j].normalizations) == ["n%d" % j], "normalizations of the axes of the " + label)
            ctx.eq(res.axes[j].normalizations["n%d" % j].ref, j + 2, "normalization of the axes of the " + label)


def alone(ctx, cfg, d, fr, back, F, req):
    """changing one of the three fields leaves the others alone"""
    s = dt()
    want = nest(F.shape, lambda *i: F[i])
    objs = {"signal": d, "spectrum": fr, "signal again": back}
    for o in objs.values():
        before = {k: b for k, b in objs.items() if b is not o}
        for ax in o.axes:
            ax.symmetries["antiperiod" if "period" in ax.symmetries else "period"] = 8
            ax.normalizations["more"] = s.Norm_ref(ref=7)
        o.normalizations["more"] = s.Norm_ref(ref=7)
        for k, b in before.items():
            ctx.true("more" not in b.normalizations, "normalizations of the " + k)
            for ax in b.axes:
                ctx.true("more" not in ax.normalizations, "normalizations of the axes of the " + k)
                ctx.true(8 not in ax.symmetries.values(), "symmetries of the " + k)
        for ax in o.axes:
            del ax.symmetries["antiperiod" if ax.symmetries.get("antiperiod") == 8 else "period"]
            del ax.normalizations["more"]
        del o.normalizations["more"]
    for k, o in objs.items():
        ctx.eq(o.get_along(*req)["X"], want, k + " afterwards")


def vector(ctx, cfg):
    """every component of a vector field is transformed like the component alone"""
    s = dt()
    comps = cfg["vector"]
    t = s.Data1D(name="time", unit="s", values=ctx.arr([0.0, 0.125, 0.25, 0.375]))
    a = s.Data1D(name="angle", unit="rad", values=ctx.arr([0.0, math.pi / 2]), symmetries={"antiperiod": 2})
    xs = {c: ctx.reals("x_" + c, (4, 2)) for c in comps}
    data = {
        c: s.DataTime(name=c, symbol="X_" + c, unit="T", axes=[t, a], values=xs[c], normalizations={"ref": s.Norm_ref(ref=3)})
        for c in comps
    }
    v = s.VectorField(name="v", symbol="X", components=data)
    fr = v.time_to_freq()
    back = fr.freq_to_time()
    for o, lab, cls in [(fr, "spectrum", s.DataFreq), (back, "signal", s.DataTime)]:
        ctx.true(type(o) is s.VectorField and (o.name, o.symbol) == ("v", "X"), "vector field of the " + lab)
        ctx.true(list(o.components) == list(comps), "components of the " + lab)
        for c in comps:
            e = o.components[c]
            ctx.true(type(e) is cls and (e.name, e.symbol, e.unit) == (c, "X_" + c, "T"), "component of the " + lab)
            full = [[xs[c][i, j % 2] * (1 if j < 2 else -1) for j in range(4)] for i in range(4)]
            ctx.eq(e.get_along("time", "angle")["X_" + c], full, "component %s of the %s" % (c, lab))
            ctx.eq(
                e.get_along("freqs", "wavenumber")["X_" + c],
                data[c].get_along("freqs", "wavenumber")["X_" + c],
                "spectrum of component %s of the %s" % (c, lab),
            )
    for c in comps:
        ctx.eq(v.components[c].values, xs[c], "field kept")
