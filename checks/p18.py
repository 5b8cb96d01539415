"""Data object extracted by a request."""
import math

from .common import dt, rebuild

BOUNDS = (
    "1 to 3 axes of 2 to 4 stored samples with and without symmetry, values, uniform and pattern axes; requests for "
    "whole axes, one period, indices, values, intervals, reductions, derivatives, spectra and inverse transforms; "
    "field and axis units; scalar fields and vector fields of two components; values |x|<=1e9 "
    "(between 1 and 1e4 for levels and squares)"
)
ASSUMPTIONS = [
    "axes read through a normalization and normalized fields keep the unit of the original (the statement covers "
    "conversions between units)",
    "units of derived fields are compared as strings built as the library does (product written without separator, "
    "rad counted as m)",
]
UNIT = {"time": "s", "angle": "rad", "freqs": "Hz", "wavenumber": "dimless"}


def configs(tier):
    out = []

    def add(axes, req, vec=False, **kw):
        name = "%s-%s%s%s" % (
            "x".join("%s%d%s" % (a[0], a[1], "".join(q[0] + str(v) for q, v in a[2].items())) + (a[3] if len(a) > 3 else "") for a in axes),
            ";".join(req),
            "".join("-%s" % v for v in kw.values()),
            "-vec" if vec else "",
        )
        out.append(dict({"name": name.replace(" ", ""), "axes": axes, "req": req, "vec": vec}, **kw))

    syms = [{}, {"period": 2}, {"antiperiod": 2}]
    for sym in syms:
        for kind in ["1D", "lin"]:
            T = ["time", 4, sym, kind]
            A = ["angle", 4, sym, kind]
            for r in ["time", "time[smallestperiod]", "time[oneperiod]", "time[1]", "time[1,3]", "time[0:2]", "time=[0.3,0.8]",
                      "time=0.5", "time=sum", "time=mean", "time=max", "time=integrate", "time=derivate", "time=antiderivate",
                      "time=integrate_local", "freqs", "freqs[1]", "freqs=[1,2]", "freqs[0,1]", "time=axis_data"]:
                if kind == "lin" and r in ("time=max", "freqs[0,1]", "time=mean"):
                    continue
                add([T], [r])
                add([["angle", 2, {}], T], ["angle", r])
                if kind == "1D":
                    add([T, ["z", 2, {}]], [r, "z[1]"])
                    add([T, ["z", 2, {}]], [r])
            if "antiperiod" in sym:
                add([T], ["time[antiperiod]"])
            for r in ["angle", "angle[smallestperiod]", "wavenumber", "wavenumber[1]", "angle=sum", "angle=derivate", "angle=integrate"]:
                add([["time", 2, {}], A], ["time", r])
                add([["time", 2, {}], A], ["time[1]", r])
                add([["time", 2, {}], A], ["time=sum", r])
                add([["time", 4, sym], A], ["freqs", r])
            add([["freqs", 3, {}, kind], ["angle", 2, sym]], ["freqs", "angle"])
            add([["freqs", 3, {}, kind], ["angle", 2, sym]], ["freqs[1]", "angle[smallestperiod]"])
    for r in ["freqs", "freqs[1]", "freqs=sum", "freqs=derivate", "time", "time=sum", "time[1]"]:
        add([["freqs", 3, {}]], [r])
        add([["freqs", 3, {}], ["wavenumber", 4, {}]], [r, "wavenumber"])
        add([["freqs", 3, {}], ["wavenumber", 4, {}]], [r, "angle"])
        add([["wavenumber", 4, {}], ["freqs", 3, {}]], ["wavenumber[1]", r])
    for r in ["slice", "slice[pattern]", "slice[smallestperiod]", "slice[1]", "slice=sum", "slice=[0.5,3]"]:
        add([["time", 2, {}], ["slice", 2, {}, "pat"]], ["time", r])
        add([["slice", 2, {}, "pat"], ["time", 2, {}]], [r, "time[smallestperiod]"])
    # units of the field and of the axes
    for sym in syms[:2]:
        for r in ["time", "time[1]", "time=sum", "time=integrate", "time=derivate", "freqs"]:
            add([["time", 4, sym], ["angle", 2, {}]], [r, "angle"], unit="mT")
            add([["time", 4, sym], ["angle", 2, {}]], [r, "angle"], unit="T")
        for r in ["time{ms}", "time[0,1]{ms}", "time=integrate{ms}", "time=derivate{ms}", "freqs{kHz}", "time[smallestperiod]{ms}", "time{s}", "freqs{Hz}"]:
            add([["time", 4, sym], ["angle", 2, {}]], [r, "angle"])
            add([["time", 4, sym], ["angle", 2, {}]], [r, "angle{°}"], unit="mT")
    for u, i, d in [
        ("N/m^2", None, None), ("m/s", None, None), ("m/s^2", None, None), ("dimless", None, None), ("", None, None),
        ("A/m", None, None), ("m2", None, None), ("V", None, None), ("Ohm", None, None), ("N/mm2", None, None), ("J/s", None, None),
    ]:
        for r in ["time=integrate", "time=derivate", "z=integrate", "z=derivate", "angle=integrate"]:
            ax = r.split("=")[0]
            add([[ax, 3, {}]], [r], funit=u)
    add([["time", 3, {}], ["z", 3, {}]], ["time=integrate", "z=integrate"], funit="N/m^2")
    add([["time", 3, {}], ["z", 3, {}]], ["time=derivate", "z=integrate"], funit="N/m^2")
    for u in ["dB", "dBA"]:
        add([["freqs", 2, {}]], ["freqs"], level=u)
        add([["freqs", 2, {}], ["angle", 2, {}]], ["freqs[1]", "angle"], level=u)
    add([["freqs", 2, {}], ["angle", 2, {"period": 2}]], ["freqs", "angle[smallestperiod]"], level="dB")
    add([["time", 2, {}]], ["time=rms"])
    # list of components, order of the largest ones, complex fields
    for r in ["phase", "phase[]", "phase[0]", "phase[0,1]"]:
        add([["time", 2, {}], ["phase", 2, {}, "comp"]], ["time", r])
        add([["phase", 2, {}, "comp"], ["time", 2, {}]], [r, "time[1]"])
    for r in ["freqs", "freqs[smallestperiod]", "freqs{kHz}"]:
        add([["freqs", 3, {}, "sort"]], [r])
        add([["freqs", 3, {}, "sort"], ["angle", 2, {}]], [r, "angle"])
    for r in ["time", "time[1]", "time=sum", "freqs"]:
        add([["time", 4, {}]], [r], cplx=1)
        add([["time", 4, {"period": 2}], ["angle", 2, {}]], [r, "angle"], cplx=1)
    for r in [["time"], ["time[1]", "angle"], ["time=sum", "angle"], ["freqs", "angle"], ["freqs", "wavenumber"], ["time", "angle[smallestperiod]"], ["time{ms}", "angle"]]:
        add([["time", 4, {}], ["angle", 2, {"period": 2}]], r, vec=True)
        add([["time", 4, {}], ["angle", 2, {"period": 2}]], r, vec=True, unit="mT")
    return list({c["name"]: c for c in out}.values())


def make_axis(ctx, s, a):
    name, n, sym = a[:3]
    kind = a[3] if len(a) > 3 else "1D"
    unit = UNIT.get(name, "m")
    if kind == "pat":
        return s.DataPattern(name=name, unit=unit, values=ctx.arr([0.0, 1.0]), values_whole=ctx.arr([0.0, 1.0, 2.0, 3.0]),
                             rebuild_indices=[0, 1, 1, 0], unique_indices=[0, 1], is_step=False)
    if kind == "comp":
        return s.Data1D(name=name, unit="", values=["a", "b"], is_components=True)
    P = list(sym.values())[0] if sym else 1
    if name == "angle":
        v = [i * 2 * math.pi / (n * P) for i in range(n)]
    elif name == "freqs":
        v = [float(i) for i in range(n)]
    elif name == "wavenumber":
        v = [float(i - n // 2) for i in range(n)]
    else:
        v = [i * 0.25 for i in range(n)]
    norms = {"q": s.Norm_ref(ref=2.0)}
    if kind == "sort":
        return s.Data1D(name=name, unit=unit, values=ctx.arr([0.0, 1.0, 3.0]), sort_indices=[1, 2, 0], normalizations=norms)
    if kind == "lin":
        return s.DataLinspace(name=name, unit=unit, initial=v[0], final=v[-1] + v[1] - v[0], number=n, include_endpoint=False, symmetries=dict(sym), normalizations=norms)
    return s.Data1D(name=name, unit=unit, values=ctx.arr(v), symmetries=dict(sym), normalizations=norms)


def unit_after(u, ops):
    """unit of the field after integrations and derivatives, powers kept apart"""
    import re

    u = u.replace("^", "")
    if u == "dimless":
        u = ""
    parts = u.split("/")
    pw = []
    for part, sg in zip(parts, (1, -1)):
        for nm, p in re.findall(r"(Ohm|mm|mT|ms|[A-Za-z°])(\d*)", part):
            pw.append([nm, sg * int(p or 1)])
    for nm, e in ops:
        for q in pw:
            if q[0] == nm:
                q[1] += e
                break
        else:
            pw.append([nm, e])
    num = "".join(n + (str(e) if e > 1 else "") for n, e in pw if e > 0)
    den = "".join(n + (str(-e) if e < -1 else "") for n, e in pw if e < 0)
    return num + ("/" + den if den else "")


def parse(q):
    name = q.split("[")[0].split("=")[0].split("{")[0]
    u = q.split("{")[1].strip("}") if "{" in q else None
    op = q.split("{")[0][len(name):]
    return name, op, u


def run(ctx, cfg):
    import numpy as np

    s = dt()
    level = cfg.get("level")
    spectral = any(a[0] in ("freqs", "wavenumber") for a in cfg["axes"])
    shape = tuple(a[1] for a in cfg["axes"])
    lim = {}
    if level or any("rms" in q for q in cfg["req"]):
        lim = {"lo": 1, "hi": 1e4}

    def field(nm):
        if level:
            v = np.empty(shape, dtype=object)
            for ix in np.ndindex(shape):
                v[ix] = ctx.real(nm + "_".join(map(str, ix)), 1, 1e4) + 0j
            x = ctx.arr(v.tolist())
        else:
            x = (ctx.complexes if spectral or "cplx" in cfg else ctx.reals)(nm, shape, **lim)
        cls = s.DataFreq if any(a[0] == "freqs" for a in cfg["axes"]) else s.DataTime
        return cls(name="f" + nm, symbol="X", unit=cfg.get("funit", "T"), axes=[make_axis(ctx, s, a) for a in cfg["axes"]],
                   values=x, normalizations={"ref": s.Norm_ref(ref=0.5)}, is_real="cplx" not in cfg)

    kw = {}
    if level:
        kw["unit"] = level
    elif "unit" in cfg:
        kw["unit"] = cfg["unit"]
    if any("axis_data" in q for q in cfg["req"]):
        kw["axis_data"] = {"time": ctx.arr([0.125, 0.5, 0.7])}
    if cfg["vec"]:
        v = s.VectorField(name="v", symbol="X", components={"radial": field("r"), "tangential": field("t")})
        e = v.get_vectorfield_along(*cfg["req"], **kw)
        ctx.true(list(e.components) == list(v.components), "components")
        ctx.true((e.name, e.symbol) == ("v", "X"), "name of the vector field")
        for c in v.components:
            compare(ctx, cfg, v.components[c], e.components[c], kw)
        return
    d = field("x")
    if cfg["req"] == ["freqs"] and not spectral and len(cfg["axes"]) == 1 and "antiperiod" not in cfg["axes"][0][2]:
        # the extracted spectrum describes the same signal
        e = d.get_data_along("freqs")
        ctx.eq(e.get_along("time")["X"], [v for v in d.get_along("time")["X"]], "signal of the extracted spectrum", tol=1)
    compare(ctx, cfg, d, d.get_data_along(*cfg["req"], **kw), kw)


def compare(ctx, cfg, d, e, kw):
    import numpy as np

    level = cfg.get("level")
    get = d.get_magnitude_along if level else d.get_along
    r = get(*cfg["req"], is_squeeze=False, **kw)
    parsed = {parse(q)[0]: parse(q)[1:] for q in cfg["req"]}
    names, sizes, arrays, ops = [], [], [], []
    for q in r["axes_list"]:
        op, u = parsed[q.name]
        w = r[q.name]
        if op in ("=integrate", "=antiderivate", "=integrate_local", "=derivate"):
            ax = d.axes[q.index].unit if q.name == d.axes[q.index].name else UNIT[q.name]
            ax = u or ax
            ax = {"Hz": "s", "rad": "m"}.get(ax, ax)
            ops.append((ax, -1 if op == "=derivate" else 1))
        if isinstance(w, str):
            continue
        names.append(q.name)
        arrays.append([v for v in w] if np.ndim(w) else [w])
    ctx.true([a.name for a in e.axes] == names, "axes of the object")
    dims = [len(v) for v in arrays]
    want = np.asarray(r["X"], dtype=object).reshape(dims)
    ctx.shape(e.values, tuple(dims), "values of the object")
    if not dims:
        got = e.values
        ctx.eq(ctx.arr([got[()] if np.ndim(got) == 0 else got]), [want[()]], "values of the object", tol=1e-3)
    else:
        ctx.eq(e.values, want.tolist(), "values of the object", tol=1)
        back = e.get_along(*[n + ("[smallestperiod]" if n not in ("freqs", "wavenumber") else "") for n in names], is_squeeze=False)
        ctx.eq(back["X"], want.tolist(), "values read back", tol=1)
        for n, v in zip(names, arrays):
            if n == "phase":
                ctx.true(list(back[n]) == v, "components read back")
            else:
                ctx.eq(back[n], v, "axis %s read back" % n, tol=1e-6)
    ctx.true(e.is_real == d.is_real, "real or complex field")
    ctx.true(e.normalizations is not d.normalizations, "normalizations of its own")
    for a in e.axes:
        op, u = parsed[a.name]
        orig = [q for q in d.axes if q.name == a.name or {a.name, q.name} in ({"time", "freqs"}, {"angle", "wavenumber"})][0]
        base = orig.unit if orig.name == a.name else UNIT[a.name]
        ctx.true(a.unit == (u or base), "unit of axis " + a.name)
        ctx.true(a.is_components == orig.is_components, "components axis " + a.name)
        ctx.true(a is not orig and a.normalizations is not orig.normalizations, "axis of its own " + a.name)
        ctx.true([(k, q.unit, q.ref) for k, q in orig.normalizations.items()] == ([("q", "SI", 2.0)] if "q" in orig.normalizations else []), "normalizations of the original axis left as they were")
        if getattr(orig, "sort_indices", None) is not None and op in ("", "[smallestperiod]"):
            ctx.true(list(a.sort_indices) == [1, 2, 0], "order of the largest samples")
        keep = op in ("[smallestperiod]", "=derivate", "=antiderivate") or a.name in ("freqs", "wavenumber") and op == ""
        if a.name == orig.name or a.name in ("freqs", "wavenumber"):
            ctx.true(a.symmetries == (orig.symmetries if keep else {}), "symmetry of axis " + a.name)
        if keep and a.name == orig.name and op == "[smallestperiod]" and not isinstance(orig, dt().DataPattern):
            full = d.get_along(a.name + ("{%s}" % u if u else ""))[a.name]
            ctx.eq(a.get_values(), [v for v in full], "whole axis " + a.name, tol=1e-6)
        if u in (None, base) and a.name == orig.name:
            n = [v for v in a.get_values(is_smallestperiod=True)]
            if op != "[pattern]" and "q" in orig.normalizations:
                ctx.eq(a.get_values(is_smallestperiod=True, normalization="q"), [v / 2 for v in n], "normalization of axis " + a.name, tol=1e-6)
        elif u and a.name == orig.name and "q" in orig.normalizations:
            # the normalization applies to the original unit, or is refused
            from SciDataTool.Functions import NormError

            k = {"ms": 1000, "kHz": 1e-3, "°": 180 / math.pi}[u]
            n = [v / k for v in a.get_values(is_smallestperiod=True)]
            try:
                got = a.get_values(is_smallestperiod=True, normalization="q")
            except NormError:
                got = ctx.arr([v / 2 for v in n])  # refused
            ctx.eq(got, [v / 2 for v in n], "normalization of converted axis " + a.name, tol=1e-6)
    if level:
        ctx.true(e.unit == level, "unit of the levels")
    else:
        u = cfg.get("unit", cfg.get("funit", "T"))
        ctx.true(e.unit.replace("^", "") == (unit_after(u, ops) if ops else u.replace("^", "")), "unit of the field")
    ctx.true((e.name, e.symbol) == (d.name, d.symbol), "name")
    ctx.true(sorted(e.normalizations) == ["ref"], "normalizations")
    if level is None and dims:
        ctx.eq(e.get_along(*[n + "[smallestperiod]" if n not in ("freqs", "wavenumber") else n for n in names], is_norm=True, is_squeeze=False)["X"],
               (want / 0.5).tolist(), "normalized values", tol=1)
