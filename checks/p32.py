"""The same request answered by every method that takes one."""
import math

import numpy as np

from .common import dt, nest

BOUNDS = (
    "fields on 1 to 3 axes of 2 to 4 stored samples (time, angle, position, frequencies; with and without symmetry, values and "
    "uniform axes), real and complex; vector fields of every set of cylindrical or Cartesian components; requests by whole axes, "
    "indices, values, intervals, periods, units, spectra and resampled axes, in any order, passed one by one or as a tuple; field "
    "units, named normalizations, reference normalization and decibels; |x|<=1e9 (1 to 1e4 for levels and phases)"
)
ASSUMPTIONS = ["get_along itself is judged by the other properties: here it is the reference for the other methods"]
LIMITS = {"max_paths": 200}

UNIT = {"time": "s", "angle": "rad", "freqs": "Hz", "frequency": "Hz", "wavenumber": "dimless", "z": "m", "timez": "s", "zone": "m"}
H = math.pi / 2
FIELDS = {
    "taz": [["time", [0.0, 0.25, 0.5, 0.75], {}], ["angle", [0.0, H], {"antiperiod": 2}], ["z", [0.0, 1.0], {}]],
    "zt": [["z", [0.0, 1.0], {}], ["time", [0.0, 0.25], {"period": 2}, "lin"]],
    "tc": [["time", [0.0, 0.25, 0.5], {}], ["z", [0.0, 1.0], {}]],
    "fz": [["freqs", [0.0, 1.0, 2.0], {}], ["z", [0.0, 1.0], {}]],
    "qz": [["frequency", [0.0, 1.0, 2.0], {}], ["z", [0.0, 1.0], {}]],
    "t": [["time", [0.0, 0.25, 0.5, 0.75], {}]],
    "nm": [["z", [0.0, 1.0], {}], ["timez", [0.0, 0.5], {}], ["zone", [0.0, 1.0], {}], ["time", [0.0, 0.25], {}]],
}
REQ = {
    "taz": [
        (["time", "angle[1]", "z=1"], {}),
        (["time=axis_data", "angle"], {"time": [0.125, 0.5, 0.7]}),
        (["time", "angle=axis_data", "z[1]"], {"angle": [0.5, 2.0]}),
        (["time=axis_data", "angle=axis_data"], {"time": [0.2], "angle": [0.25, 1.0, 4.0]}),
        (["time[0,2]", "angle[smallestperiod]"], {}),
        (["time=[0.2,0.6]", "z"], {}),
        (["time=axis_data{ms}"], {"time": [125.0, 500.0]}),
        (["time{ms}", "angle[0:3]{°}"], {}),
        (["z", "time"], {}),
        (["z[1]", "angle>1", "time[3]"], {}),
        (["freqs", "angle[0]"], {}),
        (["angle[1]", "freqs=axis_data"], {"freqs": [0.5, 1.0]}),
        (["freqs", "wavenumber"], {}),
        (["freqs=[0.5,2.1]", "z=axis_data"], {"z": [0.25, 0.5]}),
        (["wavenumber=axis_data", "time[1]"], {"wavenumber": [-0.5, 1.0]}),
        (["time=sum", "angle"], {}),
        (["angle[0]", "time=mean", "z=axis_data"], {"z": [0.25, 0.5]}),
    ],
    "zt": [(["time", "z"], {}), (["time[oneperiod]", "z=axis_data"], {"z": [0.25, 0.5]}), (["freqs", "z"], {}), (["time=axis_data"], {"time": [0.1, 0.6]}), (["freqs{Hz}", "z"], {}), (["time{ms}", "z{mm}"], {})],
    "nm": [(["zone", "z"], {}), (["time", "zone[1]", "z"], {}), (["timez[0]", "zone=axis_data", "z"], {"zone": [0.25, 0.5]}), (["freqs", "timez"], {}), (["z", "timez", "time", "zone"], {})],
    "tc": [(["time", "z[1]"], {}), (["time=axis_data", "z"], {"time": [0.125, 0.5]}), (["freqs", "z"], {}), (["z=1", "freqs=axis_data"], {"freqs": [-0.5, 1.0]})],
    "fz": [(["freqs", "z[1]"], {}), (["freqs=axis_data", "z"], {"freqs": [0.5, 1.75]}), (["freqs>0.5", "z"], {}), (["time", "z"], {}), (["time=axis_data"], {"time": [0.1, 0.25]})],
    "qz": [(["frequency", "z[1]"], {}), (["frequency=axis_data", "z"], {"frequency": [0.5, 1.75]}), (["frequency[1]", "z"], {})],
    "t": [(["time"], {}), (["time=axis_data"], {"time": [0.125, 0.5, 0.7]}), (["freqs[1]"], {}), (["time[2]"], {})],
}
OPTS = {"": {}, "unit": {"unit": "mT"}, "own": {"unit": "T"}, "isnorm": {"is_norm": True}, "ownnorm": {"unit": "T", "is_norm": True}, "norm": {"unit": "q"}}
CYL, CART = ["radial", "tangential", "axial"], ["comp_x", "comp_y", "comp_z"]
VREQ = [
    (["time", "angle"], {}),
    (["time=axis_data", "angle"], {"time": [0.125, 0.5]}),
    (["time[1]", "angle[smallestperiod]"], {}),
    (["angle", "time=[0.2,0.6]"], {}),
    (["freqs", "angle[1]"], {}),
    (["freqs=axis_data", "angle[1]"], {"freqs": [0.5, 1.0]}),
]


def configs(tier):
    out = []

    def add(**k):
        k["name"] = "-".join(str(v) for v in k.values())
        out.append(k)

    for f in FIELDS:
        for i, (req, data) in enumerate(REQ[f]):
            reduced = any("=sum" in q or "=mean" in q for q in req)
            for how in ["along", "mag", "phase", "data"]:
                if reduced and how in ("mag", "phase"):
                    continue
                for opt in OPTS:
                    if how == "phase" and opt in ("unit",):
                        continue
                    if tier == "quick" and opt in ("own", "ownnorm") and i % 3:
                        continue
                    add(kind="field", f=f, i=i, how=how, opt=opt, form="args")
                add(kind="field", f=f, i=i, how=how, opt="", form="tuple")
                if how in ("along", "mag"):
                    add(kind="field", f=f, i=i, how=how, opt="", form="keepdims")
            if how != "phase" and not reduced:
                add(kind="field", f=f, i=i, how="phase", opt="deg", form="args")
                add(kind="field", f=f, i=i, how="phase", opt="rad", form="args")
            if not reduced and f in ("t", "zt", "fz", "qz", "taz") and not any("freqs" in q or "wave" in q or (f == "fz" and "time" in q) for q in req if f != "fz" or "time" in q):
                if data.get("angle"):
                    continue  # may cross zero between the samples
                add(kind="field", f=f, i=i, how="level", opt="dB", form="args")
                add(kind="field", f=f, i=i, how="level", opt="dB", form="tuple")
                add(kind="field", f=f, i=i, how="leveldata", opt="dB", form="args")
    for f in ("taz", "fz"):
        for i, (req, data) in enumerate(REQ[f]):
            if any("freqs" in q for q in req) and not any("wavenumber" in q for q in req) and "z" not in req and "z=axis_data" not in req:
                for opt in ("", "unit", "isnorm"):
                    add(kind="field", f=f, i=i, how="harm", opt=opt, form="args")
                add(kind="field", f=f, i=i, how="harm", opt="", form="tuple")
    sets = [[c for j, c in enumerate(b) if m >> j & 1] for b in (CYL, CYL[:2] + ["comp_z"], CART, CART[:2] + ["axial"]) for m in range(1, 8)]
    sets = [list(q) for q in dict.fromkeys(tuple(q) for q in sets)]
    for comps in sets:
        for what in ["rphiz", "xyz", "mag_rphiz", "mag_xyz"]:
            for i in range(len(VREQ)):
                for opt in ("", "unit", "isnorm", "norm"):
                    if tier == "quick" and opt and (len(comps) + i + len(opt)) % 3:
                        continue
                    add(kind="vector", comps="_".join(comps), what=what, i=i, opt=opt, form="args")
                if i < 2:
                    add(kind="vector", comps="_".join(comps), what=what, i=i, opt="", form="tuple")
                if i < 3 and what in ("rphiz", "xyz"):
                    add(kind="vector", comps="_".join(comps), what=what, i=i, opt="", form="keepdims")
        for i in range(len(VREQ)):
            add(kind="vdata", comps="_".join(comps), i=i, opt=["", "unit", "isnorm", "norm"][(i + len(comps)) % 4])
    for comps in (["radial"], ["tangential", "axial"], ["axial"], ["comp_z"], ["comp_x", "comp_y"], ["comp_y"], ["radial", "tangential", "comp_z"], ["comp_x", "axial"]):
        for what in ["harm_rphiz", "harm_xyz"]:
            if ("harm_rphiz" == what) != any(c in CYL[:2] for c in comps) and comps not in (["axial"], ["comp_z"], ["tangential", "axial"]):
                continue
            for opt in ("", "unit", "isnorm"):
                add(kind="vector", comps="_".join(comps), what=what, i=5, opt=opt, form="args")
    for f in FIELDS:
        add(kind="axes", f=f)
        has = [a[0] for a in FIELDS[f]]
        for extra in ["foo", "foo[1]", "angle", "wavenumber", "wavenumber=1", "angle[0]", "phase", "foo=sum", "freqs", "time"]:
            name = extra.split("[")[0].split("=")[0]
            if {"wavenumber": "angle", "freqs": "time", "time": "freqs"}.get(name, name) in has or name in has:
                continue
            for i in range(len(REQ[f])):
                for at in range(len(REQ[f][i][0]) + 1):
                    if (at + i) % 2 and tier == "quick":
                        continue
                    for how in ["along", "mag", "data"]:
                        if not (how == "mag" and any("=sum" in q or "=mean" in q for q in REQ[f][i][0])):
                            add(kind="field", f=f, i=i, how=how, opt="", form="args", extra=extra, at=at)
    return out


def build(ctx, s, axes, x, symbol="X", **kw):
    A = []
    for a in axes:
        k = dict(name=a[0], unit=UNIT[a[0]], symmetries=dict(a[2]))
        v = a[1]
        if len(a) > 3:
            A.append(s.DataLinspace(initial=v[0], final=2 * v[-1] - v[-2], number=len(v), include_endpoint=False, **k))
        else:
            A.append(s.Data1D(values=ctx.arr(v), **k))
    cls = s.DataFreq if axes[0][0] in ("freqs", "frequency") else s.DataTime
    return cls(name="f", symbol=symbol, unit="T", axes=A, values=x, normalizations={"ref": s.Norm_ref(ref=0.5), "q": s.Norm_affine(slope=3.0, offset=0.25)}, **kw)


def scaled(v, opt):
    """value in the unit or normalization of the option"""
    return {"unit": lambda: v * 1000, "isnorm": lambda: v / 0.5, "ownnorm": lambda: v / 0.5, "norm": lambda: v * 3 + 0.25}.get(opt, lambda: v)()


def same_axes(ctx, got, ref, skip):
    """axes of the answer are those of the reference"""
    keys = [k for k in ref if k not in skip]
    ctx.true([k for k in got if k not in skip] == keys, "axes of the answer: %s" % list(got))
    for k in keys:
        if k in ("axes_list", "axes_dict_other"):
            continue
        if isinstance(ref[k], str):
            ctx.true(got[k] == ref[k], "reduced axis " + k)
        else:
            ctx.eq(got[k], [v for v in ref[k]], "axis " + k, tol=1e-9)
    ctx.true([(a.name, a.index, a.extension) for a in got["axes_list"]] == [(a.name, a.index, a.extension) for a in ref["axes_list"]], "list of axes")
    ctx.true(list(got["axes_dict_other"]) == list(ref["axes_dict_other"]), "other axes")
    for k, (v, u) in ref["axes_dict_other"].items():
        ctx.eq(got["axes_dict_other"][k][0], v, "value of the other axis " + k, tol=1e-9)
        ctx.true(got["axes_dict_other"][k][1] == u, "unit of the other axis " + k)


def entries(v):
    a = np.asarray(v, dtype=object)
    return a.shape, a


def expect(a, f):
    shape, arr = entries(a)
    if shape == ():
        return f(arr[()])
    return nest(shape, lambda *i: f(arr[i]))


def run(ctx, cfg):
    s = dt()
    if cfg["kind"] == "vector":
        return vector(ctx, s, cfg)
    if cfg["kind"] == "vdata":
        return vdata(ctx, s, cfg)
    axes = FIELDS[cfg["f"]]
    shape = tuple(len(a[1]) for a in axes)
    how = cfg.get("how")
    cplx = cfg["f"] in ("tc", "fz", "qz")
    lim = {}
    if how in ("level", "leveldata", "phase"):
        lim = {"lo": 1, "hi": 1e4}
    elif cfg["f"] == "qz" or how == "harm":
        lim = {"lo": -1e6, "hi": 1e6}
    if cplx and how in ("level", "leveldata"):
        x = ctx.reals("x", shape, **lim)
        x = ctx.arr(nest(shape, lambda *i: x[i] + 0j))
    else:
        x = (ctx.complexes if cplx else ctx.reals)("x", shape, **lim)
    d = build(ctx, s, axes, x, **({"is_real": False} if cfg["f"] == "tc" else {}))
    if cfg["kind"] == "axes":
        names = [a[0] for a in axes]
        ctx.true(len(d.get_axes()) == len(names) and all(a is b for a, b in zip(d.get_axes(), d.axes)), "all axes")
        for q in [[n] for n in names] + [names, names[::-1], ["other"], names[:1] + ["other"]]:
            got = d.get_axes(*q)
            want = [d.axes[names.index(n)] for n in q if n in names]
            ctx.true(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "axes %s" % q)
        return
    req, data = REQ[cfg["f"]][cfg["i"]]
    data = {k: np.array(v) for k, v in data.items()}
    kw = {"axis_data": data} if data else {}
    R = d.get_along(*req, **kw)
    opts = dict(OPTS.get(cfg["opt"], {}), **kw)
    args = [tuple(req)] if cfg["form"] == "tuple" else req
    if "extra" in cfg:
        args = req[: cfg["at"]] + [cfg["extra"]] + req[cfg["at"] :]
    if cfg["form"] == "keepdims":
        R = d.get_along(*req, is_squeeze=False, **kw)
        opts["is_squeeze"] = False
    val = R["X"]
    opt = cfg["opt"]
    if how == "along":
        r = d.get_along(*args, **opts)
        ctx.eq(r["X"], expect(val, lambda v: scaled(v, opt)), "values", tol=1)
    elif how == "mag":
        r = d.get_magnitude_along(*args, **opts)
        ctx.eq(r["X"], expect(val, lambda v: scaled(abs(v), opt)), "magnitudes", tol=1)
    elif how == "phase":
        if opt in ("deg", "rad"):
            opts["unit"] = {"deg": "°", "rad": "rad"}[opt]
        fac = {"deg": 180 / math.pi}.get(opt, 1)
        r = d.get_phase_along(*args, **opts)
        ctx.eq(r["X"], expect(np.angle(val), lambda v: scaled(v * fac, opt)), "phases", tol=1e-6)
    elif how == "level":
        r = d.get_magnitude_along(*args, unit="dB", **kw)
        ctx.eq(r["X"], expect(val, lambda v: 20 * ctx.log10(abs(v) / 0.5)), "levels", tol=1e-4)
    elif how == "harm":
        mags = [abs(v) for v in np.asarray(val, dtype=object).ravel()]
        r = d.get_harmonics(1, *args, **opts)
        ctx.eq(r["X"], [scaled(ctx.maxof(mags), opt)], "largest harmonic", tol=1)
        return
    else:
        if how == "leveldata":
            e = d.get_data_along(*args, unit="dB", **kw)
            ctx.eq(np.squeeze(e.values), expect(np.squeeze(val), lambda v: 20 * ctx.log10(abs(v) / 0.5)), "levels", tol=1e-4)
        else:
            e = d.get_data_along(*args, **opts)
            ctx.eq(np.squeeze(e.values), expect(np.squeeze(val), lambda v: scaled(v, opt)), "values of the object", tol=1)
        want = [k for k in R if k not in ("X", "axes_list", "axes_dict_other") and not isinstance(R[k], str)]
        ctx.true([a.name for a in e.axes] == want, "axes of the object")
        for a in e.axes:
            ctx.eq(a.get_values(is_smallestperiod=True), [v for v in R[a.name]], "axis " + a.name, tol=1e-9)
        asked = [q.name for q in R["axes_list"]]
        ctx.true(type(e) is (s.DataTime if "time" in asked else s.DataFreq if "freqs" in asked else s.DataND), "class of the object")
        ctx.true(e.is_real == d.is_real, "nature of the signal")
        return
    same_axes(ctx, r, R, ["X"])


def vfield(ctx, s, comps, **lim):
    axes = [["time", [0.0, 0.25, 0.5, 0.75], {}], ["angle", [0.0, H, 2 * H, 3 * H], {}]]
    return s.VectorField(name="v", symbol="V", components={c: build(ctx, s, axes, ctx.reals("x_" + c, (4, 4), **lim), symbol="X_" + c) for c in comps})


def vector(ctx, s, cfg):
    comps = cfg["comps"].split("_")
    comps = cfg["comps"].replace("comp_", "comp-").split("_")
    comps = [c.replace("-", "_") for c in comps]
    what = cfg["what"]
    req, data = VREQ[cfg["i"]]
    kw = {"axis_data": {k: np.array(v) for k, v in data.items()}} if data else {}
    v = vfield(ctx, s, comps, lo=-1e6, hi=1e6)
    opts = dict(OPTS[cfg["opt"]], **kw)
    args = [tuple(req)] if cfg["form"] == "tuple" else req
    if cfg["form"] == "keepdims":
        opts["is_squeeze"] = False
    names = CYL if what.endswith("rphiz") else CART
    cart = any(c in CART[:2] for c in comps)
    cyl = any(c in CYL[:2] for c in comps)
    w = v
    if what.endswith("rphiz") and cart:
        w = v.to_rphiz()
    if what.endswith("xyz") and cyl:
        w = v.to_xyz()
    rows = {}
    for c in names:
        alt = {"axial": "comp_z", "comp_z": "axial"}.get(c, c)
        o = w.components.get(c, w.components.get(alt))
        rows[c] = o
    f = {"mag": "get_magnitude_along", "harm": "get_harmonics"}.get(what.split("_")[0], "get_along")
    n = (1,) if what.startswith("harm") else ()
    r = getattr(v, "get_%s_along" % what)(*(n + tuple(args)), **opts)
    first = None
    for c in names:
        if rows[c] is not None:
            e = getattr(rows[c], f)(*(n + tuple(req)), **opts)
            first = first or (e, rows[c].symbol)
            tol = 1
            ctx.eq(r[c], expect(e[rows[c].symbol], lambda q: q), "component " + c, tol=tol)
            ctx.shape(r[c], np.shape(e[rows[c].symbol]), "shape of component " + c)
    for c in names:
        if rows[c] is None:
            ctx.eq(r[c], expect(first[0][first[1]], lambda q: 0), "missing component " + c)
    ctx.true(all(c in r for c in names), "components of the answer")
    if n == ():
        same_axes(ctx, {k: q for k, q in r.items() if k not in names}, first[0], [first[1]])


def vdata(ctx, s, cfg):
    comps = [c.replace("-", "_") for c in cfg["comps"].replace("comp_", "comp-").split("_")]
    req, data = VREQ[cfg["i"]]
    kw = {"axis_data": {k: np.array(v) for k, v in data.items()}} if data else {}
    v = vfield(ctx, s, comps)
    opt = cfg["opt"]
    e = v.get_vectorfield_along(*req, **dict(OPTS[opt], **kw))
    ctx.true(list(e.components) == comps and (e.name, e.symbol) == ("v", "V"), "components")
    for c in comps:
        R = v.components[c].get_along(*req, **kw)
        ctx.eq(np.squeeze(e.components[c].values), expect(np.squeeze(R["X_" + c]), lambda q: scaled(q, opt)), "values of " + c, tol=1)
        for a in e.components[c].axes:
            ctx.eq(a.get_values(is_smallestperiod=True), [q for q in R[a.name]], "axis " + a.name, tol=1e-9)
    ctx.true(all(v.get_axes()[j] is v.components[comps[0]].axes[j] for j in range(2)), "axes of the vector field")
    ctx.true([a.name for a in v.get_axes("angle")] == ["angle"], "axis of the vector field")
