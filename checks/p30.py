"""Requests that cannot be answered are refused with an error, and leave the field as it was."""
import os
import shutil
import tempfile

from .common import dt

BOUNDS = (
    "fields of 1 to 5 axes of 1 to 4 samples in both domains, dual and vector fields, all values symbolic; requests outside the axis, "
    "on missing symmetries, with unknown or incompatible units, without the normalization or axis data they need, reductions "
    "the axis does not have, files that do not hold an object; intervals and thresholds against every position of the axis values"
)
ASSUMPTIONS = [
    "an axis name that the field does not have is ignored in a request (convention of the library)",
    "negative indices count from the end of the axis",
]

# requests that no field below can answer
ALONG = [
    "time[9]",
    "time[0,9]",
    "time[0:9,12]",
    "time[3:1]",
    "freqs[9]",
    "angle[3]",
    "wavenumber[7]",
    "slice[4]",
    "time[antiperiod]",
    "angle[antiperiod]",
    "time[pattern]",
    "z[pattern]",
    "slice[antiperiod]",
    "slice[oneperiod]",
    "time=axis_data",
    "angle=axis_data",
    "time{foo}",
    "time{kg}",
    "angle{m}",
    "freqs{m}",
    "z{s}",
    "loadcase{s}",
    "time->foo",
    "freqs->foo",
    "time=foo",
    "time[foo]",
    "loadcase=derivate",
    "loadcase=integrate",
    "loadcase=antiderivate",
    "loadcase=integrate_local",
    "slice=derivate",
    "freqs=integrate",
    "wavenumber=integrate",
    "time=[50,60]",
    "time>90",
    "time<-10",
    "angle=[50,60]",
    "z>7",
    "freqs>1e6",
]
NORMED = [
    ("time", {"unit": "kg"}),
    ("time", {"unit": "foo"}),
    ("freqs", {"unit": "A"}),
    ("time", {"unit": "dBA"}),
    ("angle", {"unit": "dBA"}),
    ("time", {"is_norm": True}),
    ("freqs", {"is_norm": True}),
    ("wavenumber", {"is_norm": True}),
]
ONE = ["time=derivate", "time=integrate", "time=antiderivate", "time=integrate_local", "angle=derivate", "angle=integrate"]
METHODS = ["get_along", "get_magnitude_along", "get_phase_along", "get_data_along"]


def configs(tier):
    out = []

    def add(kind, **kw):
        out.append(dict(kw, kind=kind, name="-".join([kind] + [str(v) for v in kw.values()])))

    for m in METHODS:
        for r in ALONG:
            add("along", m=m, r=r)
        for i, (r, kw) in enumerate(NORMED):
            if m == "get_phase_along" and "dBA" in str(kw):
                continue
            if m == "get_data_along" and "is_norm" in kw:
                continue
            add("opts", m=m, k=i)
        for r in ONE:
            add("one", m=m, r=r)
    for m in METHODS[:2]:
        for sym in ["period", "antiperiod"]:
            for r in ["time", "time[0]"]:
                add("lone", m=m, sym=sym, r=r)
        for form in ["inter", "above", "below"]:
            for ax in ["time", "angle", "z"]:
                add("empty", m=m, form=form, ax=ax)
        for r in ["time[3]", "wavenumber=[50,60]", "freqs{m}", "freqs[3]", "freqs=integrate", "freqs->foo", "wavenumber[9]"]:
            add("freq", m=m, r=r)
        for r in ["time[9]", "freqs[9]", "time{kg}", "freqs{kg}", "time->foo", "freqs->foo"]:
            add("dual", m=m, r=r)
    for cls in ["Data1D", "DataLinspace"]:
        for what in ["values", "length", "operation", "vector", "vector-long", "unit", "dim", "norm-unit"]:
            add("axis", cls=cls, what=what)
        for n, nper, aper in [(4, 3, False), (3, 2, False), (3, 1, True), (4, 3, True)]:
            add("periodic", cls=cls, n=n, nper=nper, aper=aper)
    for what in ["operation", "unit", "dim"]:
        add("axis", cls="DataPattern", what=what)
    for what in ["none", "unknown", "partial", "short", "long"]:
        add("filter", what=what)
    for what in ["time", "freq"]:
        add("domain", what=what)
    for op in ["get_rphiz_along", "get_xyz_along", "get_mag_rphiz_along", "get_mag_xyz_along", "get_harm_rphiz_along", "get_harm_xyz_along", "get_vectorfield_along"]:
        for what in ["comps", "unit", "index", "axis unit"]:
            if what == "comps" and op == "get_vectorfield_along":
                continue
            add("vector", op=op, what=what)
    for what in ["antiperiod", "divide"]:
        add("periodicity", what=what)
    for what in ["missing", "list", "class", "unknown", "ext", "aslist", "asdict", "brackets"]:
        add("load", what=what)
    for what in ["format", "dims3", "dims4"]:
        add("export", what=what)
    return out


def field(ctx, n=4, sym=None, times=None, **kw):
    s = dt()
    t = times if times is not None else [0.25 * i for i in range(n)]
    axes = [
        s.Data1D(name="time", unit="s", values=ctx.arr(t), symmetries=dict(sym or {})),
        s.Data1D(name="angle", unit="rad", values=ctx.arr([0.5 * i for i in range(kw.pop("na", 3))])),
        s.Data1D(name="z", unit="m", values=ctx.arr([-1.0, 2.0])),
        s.Data1D(name="loadcase", unit="", values=["A", "B"], is_components=True),
        s.DataPattern(
            name="slice",
            unit="m",
            values=ctx.arr([0.0, 1.0]),
            rebuild_indices=[0, 0, 1, 1],
            unique_indices=[0, 2],
            values_whole=ctx.arr([0.0, 1.0, 1.0, 2.0]),
        ),
    ]
    shape = tuple(a.get_length(is_smallestperiod=True) if a.name != "slice" else 2 for a in axes)
    x = ctx.reals("x", shape)
    return s.DataTime(name="field", symbol="X", unit="T", axes=axes, values=x, **kw), x


def kept(ctx, f, x, label="field kept"):
    ctx.eq(f.values, x, label)
    ctx.eq(f.axes[0].get_values(is_smallestperiod=True), [0.25 * i for i in range(len(x))], label + ", axis", tol=1e-9)
    r = f.get_along("time[smallestperiod]")
    want = [x[(i,) + (0,) * (x.ndim - 1)] for i in range(len(x))]
    ctx.eq(r["X"], want if len(want) > 1 else want[0], label + ", read again")


def run(ctx, cfg):
    s = dt()
    kind = cfg["kind"]
    if kind == "along":
        f, x = field(ctx)
        ctx.raises(Exception, lambda: getattr(f, cfg["m"])(cfg["r"]), "refused")
        kept(ctx, f, x)
        ctx.raises(Exception, lambda: getattr(f, cfg["m"])("z[0]", cfg["r"]), "refused with another axis")
        kept(ctx, f, x)
    elif kind == "opts":
        f, x = field(ctx)
        r, kw = NORMED[cfg["k"]]
        ctx.raises(Exception, lambda: getattr(f, cfg["m"])(r, **kw), "refused")
        kept(ctx, f, x)
    elif kind == "one":
        f, x = field(ctx, n=1, na=1)
        ctx.raises(Exception, lambda: getattr(f, cfg["m"])(cfg["r"]), "refused on one sample")
        kept(ctx, f, x)
    elif kind == "lone":
        f, x = field(ctx, n=1, sym={cfg["sym"]: 2})
        ctx.raises(Exception, lambda: getattr(f, cfg["m"])(cfg["r"]), "one sample without a step")
        kept(ctx, f, x)
    elif kind == "empty":
        empty(ctx, cfg)
    elif kind == "freq":
        axes = [
            s.Data1D(name="freqs", unit="Hz", values=ctx.arr([0.0, 10.0, 20.0])),
            s.Data1D(name="wavenumber", unit="dimless", values=ctx.arr([-1.0, 0.0, 1.0])),
        ]
        x = ctx.complexes("x", (3, 3))
        f = s.DataFreq(name="field", symbol="X", unit="T", axes=axes, values=x)
        r = cfg["r"]
        if r == "time[3]":
            r = "time[5]"
        ctx.raises(Exception, lambda: getattr(f, cfg["m"])(r), "refused")
        ctx.eq(f.values, x, "field kept")
        ctx.eq(f.get_along("freqs", "wavenumber")["X"], x, "read again")
    elif kind == "dual":
        t = s.Data1D(name="time", unit="s", values=ctx.arr([0.0, 0.25, 0.5, 0.75]))
        q = s.Data1D(name="freqs", unit="Hz", values=ctx.arr([0.0, 1.0, 2.0]))
        x = ctx.reals("x", (4,))
        y = ctx.complexes("y", (3,))
        f = s.DataDual(name="field", symbol="X", unit="T", axes_dt=[t], axes_df=[q], values_dt=x, values_df=y)
        ctx.raises(Exception, lambda: getattr(f, cfg["m"])(cfg["r"]), "refused")
        ctx.eq(f.values_dt, x, "time values kept")
        ctx.eq(f.values_df, y, "spectrum kept")
        ctx.eq(f.get_along("time")["X"], x, "time values read again")
        ctx.eq(f.get_along("freqs")["X"], y, "spectrum read again")
    elif kind == "axis":
        axis(ctx, cfg)
    elif kind == "periodic":
        n = cfg["n"]
        v = [0.5 * i for i in range(n)]
        a = make(ctx, cfg["cls"], v)
        b = a.get_axis_periodic(cfg["nper"], cfg["aper"])
        ctx.eq(b.get_values(), v, "whole axis when the periods do not divide it", tol=1e-9)
        ctx.eq(b.get_values(is_smallestperiod=True), v, "whole axis stored", tol=1e-9)
        ctx.true(b.symmetries == {}, "no symmetry")
        ctx.true(b is not a, "new axis")
        ctx.eq(a.get_values(), v, "axis kept", tol=1e-9)
        ctx.true(a.symmetries == {}, "symmetries kept")
    elif kind == "filter":
        filters(ctx, cfg)
    elif kind == "domain":
        x = ctx.reals("x", (2,))
        a = s.Data1D(name="z", unit="m", values=ctx.arr([0.0, 1.0]))
        if cfg["what"] == "time":
            f = s.DataTime(name="field", symbol="X", unit="T", axes=[a], values=x)
            ctx.raises(Exception, lambda: f.time_to_freq(), "no axis to transform")
        else:
            f = s.DataFreq(name="field", symbol="X", unit="T", axes=[a], values=x)
            ctx.raises(Exception, lambda: f.freq_to_time(), "no axis to transform")
        ctx.eq(f.values, x, "field kept")
    elif kind == "vector":
        vector(ctx, cfg)
    elif kind == "periodicity":
        a = s.Data1D(name="angle", unit="rad", values=ctx.arr([0.0, 1.0, 2.0]), symmetries={"period": 2})
        x = ctx.reals("x", (3,))
        f = s.DataTime(name="field", symbol="X", unit="T", axes=[a], values=x)
        v = s.VectorField(name="v", symbol="X", components={"radial": f})
        per = {"antiperiod": {"angle": [2, True]}, "divide": {"angle": [4, False]}}[cfg["what"]]
        ctx.raises(Exception, lambda: v.change_periodicity(per), "refused")
        ctx.eq(v.components["radial"].values, x, "field kept")
        ctx.true(v.components["radial"].axes[0].symmetries == {"period": 2}, "symmetry kept")
    elif kind == "load":
        loading(ctx, cfg)
    elif kind == "export":
        n = {"format": 1, "dims3": 3, "dims4": 4}[cfg["what"]]
        names = ["time", "angle", "z", "r"][:n]
        units = ["s", "rad", "m", "m"]
        axes = [s.Data1D(name=k, unit=u, values=ctx.arr([0.0, 1.0])) for k, u in zip(names, units)]
        x = ctx.reals("x", (2,) * n)
        f = s.DataTime(name="field", symbol="X", unit="T", axes=axes, values=x)
        path = tempfile.mkdtemp(prefix="export_")
        try:
            kw = {"file_format": "foo" if n == 1 else "csv", "is_2D": False}
            if n == 4:
                kw["is_multiple_files"] = True
            ctx.raises(Exception, lambda: f.export_along(*names, save_path=path, **kw), "refused")
            ctx.true(os.listdir(path) == [], "no file left")
        finally:
            shutil.rmtree(path)
        ctx.eq(f.values, x, "field kept")


def empty(ctx, cfg):
    """a selection by value is refused exactly when no sample of the axis is selected"""
    s = dt()
    n = 3
    v = ctx.increasing("v", n, -10, 10, 0.01)
    x = ctx.reals("x", (n, 2))
    unit = {"time": "s", "angle": "rad", "z": "m"}[cfg["ax"]]
    axes = [
        s.Data1D(name=cfg["ax"], unit=unit, values=v),
        s.Data1D(name="r", unit="m", values=ctx.arr([0.0, 1.0])),
    ]
    f = s.DataTime(name="field", symbol="X", unit="T", axes=axes, values=x)
    lo = ctx.real("lo", -12, 12)
    if cfg["form"] == "inter":
        r = "%s=[%s,%s]" % (cfg["ax"], ctx.tok(lo), ctx.tok(lo + 1))
        inside = [ctx.decide(v[i] >= lo) and ctx.decide(v[i] <= lo + 1) for i in range(n)]
    elif cfg["form"] == "above":
        r = "%s>%s" % (cfg["ax"], ctx.tok(lo))
        inside = [ctx.decide(v[i] > lo) for i in range(n)]
    else:
        r = "%s<%s" % (cfg["ax"], ctx.tok(lo))
        inside = [ctx.decide(v[i] < lo) for i in range(n)]
    # stay away from the limits, where rounding decides
    for i in range(n):
        for b in [lo, lo + 1]:
            d = v[i] - b
            ctx.assume(ctx.decide(d > 1e-6) or ctx.decide(d < -1e-6))
    get = getattr(f, cfg["m"])
    if not any(inside):
        ctx.raises(Exception, lambda: get(r), "nothing selected")
    else:
        got = get(r)
        ks = [i for i in range(n) if inside[i]]
        want = [x[i, 0] for i in ks]
        if cfg["m"] == "get_magnitude_along":
            want = [ctx.maxof([w, -w]) for w in want]
        ctx.eq(got["X"], want if len(want) > 1 else want[0], "selected samples")
        ctx.eq(got[cfg["ax"]], [v[i] for i in ks], "selected positions")
    ctx.eq(f.values, x, "field kept")
    ctx.eq(f.axes[0].values, v, "axis kept")


def make(ctx, cls, v, **kw):
    s = dt()
    if cls == "Data1D":
        return s.Data1D(name="time", unit="s", values=ctx.arr(v), **kw)
    return s.DataLinspace(
        name="time", unit="s", initial=v[0], final=v[-1], number=len(v), include_endpoint=True, **kw
    )


def axis(ctx, cfg):
    s = dt()
    v = [0.0, 0.5, 1.0]
    what = cfg["what"]
    norm = {"ref": s.Norm_ref(ref=2)}
    if what in ("vector", "vector-long"):
        norm = {"vec": s.Norm_vector(vector=ctx.reals("w", (2 if what == "vector" else 5,), 1, 5))}
    elif what == "norm-unit":
        norm = {"angle": s.Norm_ref(ref=2, unit="m")}
    if cfg["cls"] == "DataPattern":
        a = s.DataPattern(
            name="slice",
            unit="m",
            values=ctx.arr(v),
            rebuild_indices=[0, 1, 2],
            unique_indices=[0, 1, 2],
            values_whole=ctx.arr(v),
            normalizations=norm,
        )
    else:
        a = make(ctx, cfg["cls"], v, normalizations=norm)
    call = {
        "values": lambda: a.get_values(is_antiperiod=True),
        "length": lambda: a.get_length(is_antiperiod=True),
        "operation": lambda: a.get_values(normalization="foo"),
        "vector": lambda: a.get_values(normalization="vec"),
        "vector-long": lambda: a.get_values(normalization="vec"),
        "unit": lambda: a.get_values(unit="foo"),
        "dim": lambda: a.get_values(unit="kg"),
        "norm-unit": lambda: a.get_values(normalization="angle"),
    }[what]
    ctx.raises(Exception, call, "refused")
    ctx.eq(a.get_values(), v, "axis kept", tol=1e-9)


def filters(ctx, cfg):
    s = dt()
    what = cfg["what"]
    flt = {"wire": ["A", "B"], "cond": ["1", "2"]}
    if what == "none":
        flt = None
    elif what == "short":
        flt = {"wire": ["A", "B"]}
    elif what == "long":
        flt = {"wire": ["A", "B"], "cond": ["1", "2"], "layer": ["in", "out"]}
    elif what == "partial":
        flt = {"wire": ["A"], "cond": ["1", "2"]}
    a = s.Data1D(
        name="wires",
        unit="",
        values=["A-1", "A-2", "B-1", "B-2"],
        is_components=True,
        delimiter="-",
        filter=flt,
    )
    ask = {"wire": ["A"]}
    if what == "unknown":
        ask = {"foo": ["A"]}
    elif what == "long":
        ask = {"wire": ["A"], "cond": ["1", "2"], "layer": ["in"]}
    ctx.raises(Exception, lambda: a.get_filter(ask), "refused")
    ctx.true(list(a.values) == ["A-1", "A-2", "B-1", "B-2"], "axis kept")


def vector(ctx, cfg):
    s = dt()
    what = cfg["what"]
    axes = [
        s.Data1D(name="time", unit="s", values=ctx.arr([0.0, 0.25])),
        s.Data1D(name="angle", unit="rad", values=ctx.arr([0.0, 1.0])),
    ]
    x = ctx.reals("x", (2, 2))
    f = s.DataTime(name="field", symbol="X", unit="T", axes=axes, values=x)
    v = s.VectorField(name="v", symbol="X", components={} if what == "comps" else {"radial": f})
    call = getattr(v, cfg["op"])
    args, kw = {
        "comps": (("time", "angle"), {}),
        "unit": (("time", "angle"), {"unit": "kg"}),
        "index": (("time[4]", "angle"), {}),
        "axis unit": (("time{m}", "angle"), {}),
    }[what]
    if "harm" in cfg["op"]:
        args = tuple(a.replace("time", "freqs").replace("angle", "wavenumber") for a in args)
        args = (3,) + args
    ctx.raises(Exception, lambda: call(*args, **kw), "refused")
    ctx.eq(f.values, x, "field kept")
    ctx.eq(f.get_along("time", "angle")["X"], x, "read again")


def loading(ctx, cfg):
    from SciDataTool.Functions.load import load, load_dict, load_list

    what = cfg["what"]
    path = tempfile.mkdtemp(prefix="load_")
    try:
        p = os.path.join(path, "f.json")
        text = {
            "list": "[1, 2]",
            "class": '{"name": "time", "unit": "s"}',
            "unknown": '{"__class__": "Foo", "name": "time"}',
            "brackets": '{"__class__": "Data1D", "name": ',
            "ext": '{"__class__": "Data1D", "name": "time"}',
            "aslist": '{"__class__": "Data1D", "name": "time"}',
            "asdict": '[{"__class__": "Data1D", "name": "time"}]',
        }.get(what)
        if what == "ext":
            p = os.path.join(path, "f.txt")
        if text is not None:
            with open(p, "w") as fh:
                fh.write(text)
        read = {"aslist": load_list, "asdict": load_dict}.get(what, load)
        ctx.raises(Exception, lambda: read(p), "refused")
        if text is not None:
            with open(p) as fh:
                ctx.true(fh.read() == text, "file kept")
    finally:
        shutil.rmtree(path)
