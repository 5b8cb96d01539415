"""Plots are given the values of the request."""
import math

import numpy as np

from .common import dt

BOUNDS = (
    "fields of 1 to 3 axes of 2 to 4 samples stored in several orders (time, angle, z, speed, names; equal lengths "
    "included), with and without symmetry; curves, points, bars, spectra, octave bands, overlaid curves and fields, maps, "
    "surfaces, scatter and stem plots, both axes exchanged, logarithmic colors, arrows and components of vector fields; "
    "requests in any axis order, by unit, axis data, index, list, interval, value, sum; all field values |x|<=1e4 (spectra and "
    "levels: between 1 and 1e4)"
)
ASSUMPTIONS = [
    "the drawing functions of matplotlib are replaced by stand-ins which record the arrays they are given",
    "a whole wavenumber axis is drawn on its positive side, levels of 0 dB and less are not drawn",
    "the values expected are those returned by the request made on another object",
]
PI = math.pi


class Rec:
    """Stands for a figure, its axes and everything in them."""

    def __init__(self, log, path=""):
        self.__dict__.update(_log=log, _path=path, _kids={})

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self._kids.setdefault(name, Rec(self._log, self._path + "." + name))

    def __setattr__(self, name, value):
        pass

    def __call__(self, *a, **k):
        self._log.append((self._path.split(".")[-1], a, k))
        return Rec(self._log, self._path)

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def __bool__(self):
        return True

    def __getitem__(self, i):
        return Rec(self._log, self._path)

    def __radd__(self, other):
        return other

    def __add__(self, other):
        return other


class Patched:
    """matplotlib entry points which are not methods of the figure"""

    def __init__(self, log):
        import matplotlib.image
        import matplotlib.pyplot

        img = matplotlib.image.NonUniformImage
        self.what = [
            (img, "__init__", lambda s, *a, **k: None),
            (img, "__del__", None),
            (img, "set_data", lambda s, *a: log.append(("image", a, {}))),
            (img, "set_clim", lambda s, *a, **k: log.append(("clim", a, k))),
            (img, "__repr__", lambda s: "image"),
            (matplotlib.pyplot, "xticks", lambda *a, **k: log.append(("plt.xticks", a, k))),
            (matplotlib.pyplot, "close", lambda *a, **k: None),
        ]
        self.what = [w for w in self.what if w[2] is not None]

    def __enter__(self):
        self.old = [(o, n, o.__dict__.get(n)) for o, n, _ in self.what]
        for o, n, f in self.what:
            setattr(o, n, f)

    def __exit__(self, *exc):
        for o, n, f in self.old:
            if f is None:
                delattr(o, n)
            else:
                setattr(o, n, f)


# name: unit, values
AX = {
    "time": ("s", [0.0, 0.1, 0.2, 0.3]),
    "angle": ("rad", [0.0, 0.5, 1.0, 1.5]),
    "z": ("m", [-1.0, 0.5, 2.0, 2.5]),
    "speed": ("rpm", [1000.0, 2000.0, 2500.0, 4000.0]),
    "down": ("rpm", [4000.0, 2500.0, 2000.0, 1000.0]),
    "freqs": ("Hz", [0.0, 50.0, 100.0, 150.0]),
    "wave": ("", [-1.0, 2.0]),
    "names": ("", ["a", "b", "c", "d"]),
}


def field(ctx, s, cfg, x, symbol="X", name="some field"):
    axes = []
    for a in cfg["axes"]:
        nm, n = a[0], a[1]
        u, v = AX[nm]
        v = v[:n]
        if nm == "names":
            axes.append(s.Data1D(name=nm, unit="", values=v, is_components=True))
            continue
        kw = {}
        if len(a) > 2:
            if nm == "angle":
                v = [2 * PI / 4 * i / n for i in range(n)]
            kw["symmetries"] = {a[2]: 4}
        if cfg.get("norm"):
            kw["normalizations"] = {"ratio": s.Norm_ref(ref=2.0), "no": s.Norm_indices()}
        if cfg.get("lin") and nm == "time":
            axes.append(s.DataLinspace(name=nm, unit=u, initial=v[0], final=v[-1], number=n, **kw))
        else:
            axes.append(s.Data1D(name={"down": "speed", "wave": "wavenumber"}.get(nm, nm), unit=u, values=np.array(v), **kw))
    k = s.DataFreq if "freqs" in [a[0] for a in cfg["axes"]] else s.DataTime
    norms = {"ref": s.Norm_ref(ref=0.5)}
    return k(name=name, symbol=symbol, unit=cfg.get("funit", "Pa"), axes=axes, values=x.copy(), normalizations=norms)


def configs(tier):
    out = []

    def add(**k):
        k["name"] = "-".join(str(k[q]).replace(" ", "").replace("'", "") for q in sorted(k))
        if k["name"] not in [c["name"] for c in out]:
            out.append(k)

    T, A, Z, S, F, N = ("time", 4), ("angle", 4), ("z", 3), ("speed", 2), ("freqs", 3), ("names", 3)
    # curves
    one = ["time", "time{ms}", "time=[0.05,0.25]", "time[0,2,3]"]
    for r in one:
        add(kind="curve", axes=[T], req=[r])
        add(kind="curve", axes=[T], req=[r], lin=1)
    for ax, reqs in (
        ([T, A], ["time|angle[1]", "angle|time[2]", "angle{°}|time=0.2", "time|angle=sum", "angle|time=max", "time", "angle", "time|angle=[0.4,1.1]=mean"]),
        ([A, T, Z], ["time|angle[1]|z[2]", "z|angle[3]|time[1]", "angle|z[1]", "time|z=sum|angle=0.5", "z"]),
        ([N, T], ["time|names[1]", "names|time[2]", "time|names=sum", "names|time=sum", "time"]),
        ([("angle", 2, "period")], ["angle", "angle[smallestperiod]", "angle[oneperiod]", "angle{°}"]),
        ([("angle", 2, "antiperiod"), T], ["angle|time[1]", "angle[antiperiod]|time[0]", "time|angle[3]", "angle[oneperiod]|time[3]"]),
    ):
        for r in reqs:
            add(kind="curve", axes=ax, req=r.split("|"))
    add(kind="curve", axes=[T, A], req=["time", "angle[1]"], unit="kPa")
    add(kind="curve", axes=[T, A], req=["time", "angle[1]"], isnorm=1)
    add(kind="curve", axes=[T, A], req=["time->ratio", "angle[1]"], norm=1)
    for ty in ("point", "curve_point"):
        add(kind="curve", axes=[T, A], req=["angle", "time[1]"], type=ty)
    add(kind="bar", axes=[T, A], req=["time->no", "angle[1]"], norm=1)
    for r in ("freqs|z[1]", "freqs|z=sum", "freqs"):
        add(kind="curve", axes=[F, Z], req=r.split("|"), type="curve")
    # resampled axes
    tt, aa = [0.05, 0.1, 0.225], [0.25, 0.75]
    for ax in ([T, A], [A, T]):
        add(kind="curve", axes=ax, req=["time=axis_data", "angle[1]"], data={"time": tt})
        add(kind="curve", axes=ax, req=["time", "angle=axis_data"], data={"angle": [0.75]})
        add(kind="many", axes=ax, req=["time=axis_data", "angle[1]"], data={"time": tt}, n=2)
        add(kind="map", axes=ax, req=["time=axis_data", "angle=axis_data"], data={"time": tt, "angle": aa})
        add(kind="map", axes=ax, req=["angle=axis_data", "time"], data={"angle": aa}, opts={"is_2D_view": False})
    # curves of one field over another axis
    for ax, reqs in (
        ([T, A], ["time|angle[0,2]", "angle|time[1,3,0]", "angle|time[0,1,2,3]", "time|angle[3,2,1,0]", "time{ms}|angle[1,2]{°}"]),
        ([A, Z, T], ["time|angle[0,2]|z[1]", "z|angle[0,1,3]|time[2]", "angle|z[0,1,2]|time=sum", "time|z[2,1]|angle[1]"]),
        ([N, T], ["time|names[0,2]", "time|names[0,1,2]"]),
    ):
        for r in reqs:
            add(kind="over", axes=ax, req=r.split("|"))
    # all positions together
    for ax, r, o in (
        ([F, Z], "freqs|z[0,2]", "z"), ([Z, F], "freqs|z[0,1,2]", "z"), ([T, A], "time|angle[0,2]", "angle"), ([A, T], "time|angle[1,3]", "angle"),
        ([F, ("speed", 2)], "speed|freqs[0,1]", "freqs"),
    ):
        add(kind="overall", axes=ax, req=r.split("|"), opts={"overall_axes": [o]})
        add(kind="overall", axes=ax, req=r.split("|"), opts={"overall_axes": [o]}, funit="W")
        add(kind="overall", axes=ax, req=r.split("|"), opts={"overall_axes": [o]}, funit="W", unit="mW")
        add(kind="overall", axes=ax, req=r.split("|"), opts={"overall_axes": [o]}, unit="kPa")
    # several fields
    for n in (2, 3):
        for r in ("time|angle[1]", "angle|time[2]", "time|angle[0,2]"):
            add(kind="many", axes=[T, A], req=r.split("|"), n=n)
        add(kind="many", axes=[T, A], req=["time", "angle[0]"], n=n, unit="kPa")
        add(kind="many", axes=[("time", 3)], req=["freqs"], n=n)
        add(kind="many", axes=[F], req=["freqs"], n=n)
    # spectra
    for ax, reqs in (
        ([F], ["freqs", "freqs{kHz}", "freqs=[40,110]", "freqs[0,2]"]),
        ([F, Z], ["freqs|z[1]", "freqs|z=sum"]),
        ([("time", 4)], ["freqs", "freqs=[1,6]"]),
        ([("time", 2), ("angle", 3)], ["freqs|angle[1]", "wavenumber|time[1]", "wavenumber|freqs[1]"]),
    ):
        for r in reqs:
            add(kind="bar", axes=ax, req=r.split("|"))
            add(kind="bar", axes=ax, req=r.split("|"), opts={"is_auto_range": False})
    for u in ("dB", "dBA"):
        for r in ("freqs", "freqs{kHz}"):
            add(kind="bar", axes=[F], req=[r], unit=u)
    add(kind="bar", axes=[F], req=["freqs"], opts={"barwidth": 10})
    add(kind="bar", axes=[F], req=["freqs"], opts={"fund_harm_dict": {"frequency": 50}})
    add(kind="bar", axes=[F], req=["freqs"], type="barchart")
    # maps
    for ax, reqs in (
        ([T, A], ["time|angle", "angle|time", "time{ms}|angle{°}", "time[0,2]|angle", "angle=[0.4,1.1]|time"]),
        ([T, Z], ["time|z", "z|time", "z[0,2]|time{ms}"]),
        ([A, T, Z], ["time|angle|z[2]", "angle|time|z=sum", "z|time|angle[1]", "angle|z|time[3]", "time|z"]),
        ([("down", 3), T], ["speed|time", "time|speed"]),
        ([T, ("down", 3)], ["speed|time", "time|speed"]),
        ([("angle", 2, "period"), Z], ["angle|z", "z|angle", "angle[smallestperiod]|z"]),
        ([N, T], ["names|time", "time|names"]),
    ):
        for r in reqs:
            add(kind="map", axes=ax, req=r.split("|"))
            if ax[0][0] != "down" and ax[1][0] != "down":
                add(kind="map", axes=ax, req=r.split("|"), opts={"is_2D_view": False})
    for o in ({"is_switch_axes": True}, {"is_contour": True}, {"type_plot": "pcolormesh"}, {"z_min": 2.0, "z_max": 5.0}, {"is_switch_axes": True, "is_2D_view": False}, {"z_range": 3.0}):
        for r in ("time|z", "z|time"):
            add(kind="map", axes=[("time", 2), ("z", 2)], req=r.split("|"), opts=o)
            if "z_min" not in o:
                add(kind="map", axes=[("time", 2), ("z", 3)], req=r.split("|"), opts=o)
    add(kind="map", axes=[T, Z], req=["time", "z"], unit="kPa")
    add(kind="map", axes=[T, Z], req=["time", "z"], isnorm=1)
    # spectra over two axes
    for ax, reqs in (
        ([("freqs", 2), ("z", 2)], ["freqs|z", "z|freqs", "freqs{kHz}|z"]),
        ([("freqs", 3), ("z", 2)], ["freqs|z", "z|freqs"]),
        ([("speed", 2), ("freqs", 3)], ["speed|freqs", "freqs|speed"]),
        ([("z", 2), ("freqs", 3)], ["freqs[0,2]|z"]),
        ([("names", 2), ("freqs", 2)], ["names|freqs", "freqs|names"]),
        ([("time", 2), ("angle", 2)], ["freqs|wavenumber"]),
    ):
        for r in reqs:
            add(kind="scatter", axes=ax, req=r.split("|"))
            add(kind="scatter", axes=ax, req=r.split("|"), opts={"is_switch_axes": True})
            add(kind="scatter", axes=ax, req=r.split("|"), opts={"is_same_size": False})
    for u in ("dB", "dBA"):
        add(kind="scatter", axes=[("speed", 2), ("freqs", 2)], req=["speed", "freqs"], unit=u)
    # largest lines
    for n in (1, 2, 3):
        add(kind="stem", axes=[("freqs", 2), ("wave", 2)], req=["freqs", "wavenumber"], opts={"N_stem": n})
        add(kind="stem", axes=[("wave", 2), ("freqs", 2)], req=["wavenumber", "freqs"], opts={"N_stem": n})
        add(kind="stem", axes=[("wave", 2), ("freqs", 2)], req=["freqs", "wavenumber"], opts={"N_stem": n})
        add(kind="stem", axes=[("freqs", 2), ("wave", 2)], req=["freqs", "wavenumber"], opts={"N_stem": n, "is_switch_axes": True})
    # vector fields
    for comps in (["radial", "tangential"], ["radial"], ["tangential"], ["comp_x", "comp_y"], ["radial", "tangential", "axial"]):
        for how in ("all", "radial", "tangential"):
            if len(comps) == 1 and how not in ("all", comps[0]):
                continue
            for ax in ([("angle", 3), ("time", 2)], [("time", 2), ("angle", 3)]):
                for rad in (None, 0.5):
                    add(kind="arrows", axes=ax, req=["angle", "time[1]"], comps=comps, how=how, rad=rad)
        add(kind="comps", axes=[T, A], req=["time", "angle[1]"], comps=comps)
        add(kind="comps", axes=[T, A], req=["angle", "time[0,2]"], comps=comps, pick=comps[-1:])
        add(kind="comps", axes=[T, Z], req=["time", "z"], comps=comps)
        add(kind="comps", axes=[T, Z], req=["time", "z"], comps=comps, unit="kPa")
        add(kind="comps", axes=[T, A], req=["time", "angle[1]"], comps=comps, unit="kPa")
        add(kind="comps", axes=[T, A], req=["angle", "time[1]"], comps=comps, isnorm=1)
        add(kind="comps", axes=[T, A], req=["angle", "time[0,2]"], comps=comps, others=2)
        add(kind="comps", axes=[T, A], req=["time=axis_data", "angle[2]"], comps=comps, data={"time": tt})
    # bands
    for n in (1, 3):
        add(kind="bands", axes=[("freqs", 4)], req=["freqs->1/%d oct" % n])
        add(kind="bands", axes=[("freqs", 4)], req=["freqs->1/%d oct" % n], type="octave")
        add(kind="bands", axes=[("freqs", 4)], req=["freqs->1/%d oct" % n], type="octave", n=2)
    add(kind="scatter", axes=[("time", 2), ("z", 3)], req=["time", "z"], opts={"type_plot": "scatter"})
    return out


def same(ctx, got, want, label, tol=1e-3):
    got = np.asarray(got)
    if ctx.shape(got, np.asarray(want).shape, label):
        pass
    ctx.eq(got, want, label, tol=tol)


def want_of(ctx, cfg, d, req):
    """values of the request, by axis name"""
    spec = any("wavenumber" in r or "freqs" in r for r in req) and cfg.get("type") != "curve"
    unit = cfg.get("unit", "SI")
    kw = {"unit": unit}
    if cfg.get("isnorm"):
        kw["is_norm"] = True
    if "data" in cfg:
        kw["axis_data"] = {k: np.array(v) for k, v in cfg["data"].items()}
    f = d.get_magnitude_along if spec or "dB" in unit else d.get_along
    r = f(*req, **kw)
    free = []
    st = [a.name for a in r["axes_list"]]
    for nm in st:
        v = r[nm]
        if not isinstance(v, str) and len(v) > 1:
            free.append(nm)
    v = np.asarray(r["X"])
    if unit == "dBA" and "freqs" in free:
        # nothing at 0 Hz
        v = v.copy()
        v[(slice(None),) * free.index("freqs") + (0,)] = math.nan
    return r, free, v


def nm_of(r):
    for c in "{=[>-":
        r = r.split(c)[0]
    return r


def run(ctx, cfg):
    s = dt()
    kind = cfg["kind"]
    log = []
    shape = tuple(a[1] for a in cfg["axes"])
    if kind in ("arrows", "comps"):
        return vectors(ctx, s, cfg)
    pos = kind in ("bar", "scatter") or cfg.get("unit", "").startswith("dB") or "freqs" in str(cfg["req"])
    lo, hi = (1, 1e4) if pos and "funit" not in cfg else (-1e4, 1e4)
    if cfg.get("unit") == "dBA" or kind == "scatter" and len(cfg["axes"]) == 2 and shape[0] * shape[1] > 4:
        lo, hi = 60, 100
    x = ctx.reals("x", shape, lo, hi)
    d = field(ctx, s, cfg, x)
    ref = field(ctx, s, cfg, x)
    req = list(cfg["req"])
    asked = [r.replace("wavenumber", "wavenumber>0") if r == "wavenumber" and kind in ("bar", "many") else r for r in req]
    opts = dict(cfg.get("opts", {}))
    if "unit" in cfg:
        opts["unit"] = cfg["unit"]
    if cfg.get("isnorm"):
        opts["is_norm"] = True
    if "data" in cfg:
        opts["axis_data"] = {k: np.array(v) for k, v in cfg["data"].items()}
    if "type" in cfg:
        opts["type_plot"] = cfg["type"]
    others, refs = [], []
    for k in range(1, cfg.get("n", 1)):
        y = ctx.reals("y%d" % k, shape, lo, hi)
        others.append(field(ctx, s, cfg, y, name="field %d" % k))
        refs.append(field(ctx, s, cfg, y))
    if others:
        opts["data_list"] = others
    with Patched(log):
        if kind == "stem":
            opts["is_2D_view"] = False
        f = d.plot_3D_Data if kind in ("map", "scatter", "stem") else d.plot_2D_Data
        f(*req, fig=Rec(log, "fig"), ax=Rec(log, "ax"), is_show_fig=False, **opts)
    calls = lambda *n: [c for c in log if c[0] in n]
    # the field itself is not changed
    ctx.eq(np.asarray(d.values), x, "field after the plot")
    first = nm_of(req[0])
    if kind == "stem":
        got = [c[1][0] for c in calls("add_line")]
        n = opts["N_stem"]
        ctx.true(len(got) == n, "number of stems %d" % len(got))
        names = [a.name for a in d.axes]
        fx = names.index(first)
        X, Y = list(d.axes[fx].values), list(d.axes[1 - fx].values)
        at = (lambda i, j: x[i, j]) if fx == 0 else (lambda i, j: x[j, i])
        taken = []
        for c in got:
            xs, ys, zs = c.get_data_3d()
            a, b = xs[1], ys[1]
            if opts.get("is_switch_axes"):
                a, b = b, a
            ctx.true(float(a) in X and float(b) in Y, "stem at %s,%s" % (a, b))
            i, j = X.index(float(a)), Y.index(float(b))
            ctx.true((i, j) not in taken, "stem drawn once")
            taken.append((i, j))
            ctx.eq(zs[1], at(i, j), "height of the stem")
            ctx.eq(zs[0], 0.0, "foot of the stem")
        low = ctx.minof([at(*k) for k in taken])
        for i in range(2):
            for j in range(2):
                if (i, j) not in taken:
                    ctx.le(at(i, j), low, "line left out")
        return
    r, free, val = want_of(ctx, cfg, ref, asked)

    def axis(nm):
        v = r[nm]
        if nm == "names":
            return [float(i) for i in range(len(v))]
        return list(v)

    if kind in ("curve", "over", "many", "bar", "bands", "overall"):
        curves = []
        if kind == "overall":
            o = opts["overall_axes"][0]
            w = want_of(ctx, cfg, ref, [q if nm_of(q) != o else o + ("=sum" if cfg.get("funit") == "W" else "=rss") for q in asked])
            curves.append((w[2], None, None))
        for q in [ref] + refs:
            r, free, val = want_of(ctx, cfg, q, asked)
            over = [nm for nm in free if nm != first]
            assert first in free and len(over) <= 1, (free, first)
            if over:
                k = free.index(over[0])
                for j in range(val.shape[k]):
                    curves.append((np.take(val, j, axis=k), over[0], r[over[0]][j]))
            else:
                curves.append((val, None, None))
        X = axis(first)
        got = calls("plot", "bar")
        if cfg.get("type") == "curve_point":
            got = got[::2]
            ctx.true(len(calls("plot")) == 2 * len(curves), "points drawn")
            for a, b in zip(calls("plot")[::2], calls("plot")[1::2]):
                same(ctx, b[1][0], list(a[1][0]), "points: abscissa")
                same(ctx, b[1][1], list(a[1][1]), "points: values")
        ctx.true(len(got) == len(curves), "number of curves %d, expected %d" % (len(got), len(curves)))
        n = len(curves)
        for i, (c, (w, on, ov)) in enumerate(zip(got, curves)):
            name, a, k = c
            shift = 0
            if name == "bar" and n > 1:
                shift = (2 * i - n + 1) * k["width"] / (2 * n)
            xs = X
            if cfg.get("type") in ("barchart", "octave"):
                xs = [float(j) for j in range(len(X))]
            if cfg.get("type") == "octave":
                shift = (i + 0.5 - n / 2) / (n + 1)
            same(ctx, np.asarray(a[0]), [e + shift for e in xs], "abscissa of curve %d" % i)
            same(ctx, a[1], w, "values of curve %d" % i)
            lab = k.get("label", "")
            if on is not None:
                t = "%s=%s" % (on, ov if isinstance(ov, str) else "%.3g" % ov)
                ctx.true(t in lab + " ", "legend %r of the curve at %r" % (lab, t))
            if others:
                t = ["some field"] + [o.name for o in others]
                ctx.true(lab.startswith(t[i * len(t) // n]), "legend %r of field %d" % (lab, i))
        if got and got[0][0] == "bar" and cfg.get("type") is None and first in ("freqs", "wavenumber"):
            lim = {}
            for _, a, k in calls("set_xlim"):
                if len(a) == 1 and not isinstance(a[0], (int, float)) and hasattr(a[0], "__len__"):
                    a = tuple(a[0])
                lim.update({n: e for n, e in zip(("left", "right"), a) if e is not None})
                lim.update(k)
            big = ctx.maxof(list(curves[0][0]))
            for e, v in zip(X, curves[0][0]):
                # lines that count are inside the plot
                if cfg.get("unit", "").startswith("dB"):
                    continue
                ctx.true(ctx.decide(v <= 0.5 * big + 0.001) or bool(lim["left"] <= e and e <= lim["right"]), "line at %s inside the plot" % e)
        labels(ctx, cfg, calls, [("set_xlabel", req[0])], ("set_ylabel",))
        return
    second = nm_of(req[1])
    assert first in free and second in free and len(free) == 2, (free, first, second)
    X, Y = axis(first), axis(second)
    at = (lambda i, j: val[i, j]) if free.index(first) < free.index(second) else (lambda i, j: val[j, i])
    if opts.get("is_switch_axes"):
        X, Y = Y, X
        at = (lambda g: lambda i, j: g(j, i))(at)
    nx, ny = len(X), len(Y)
    names = ["set_xlabel", "set_ylabel"]
    if opts.get("is_switch_axes"):
        names.reverse()
    labels(ctx, cfg, calls, list(zip(names, req)), ("set_title", "set_zlabel"))
    zl, zh = opts.get("z_min"), opts.get("z_max")
    if kind == "map":
        # nothing is left outside the plot
        for side, V in (("x", X), ("y", Y)):
            for _, a, k in calls("set_%slim" % side, "set_%slim3d" % side):
                a = list(a[0]) if len(a) == 1 and hasattr(a[0], "__len__") else list(a)
                a = [float(e) for e in a if e is not None]
                ctx.true(len(a) < 2 or all(min(a) - 1e-6 <= float(e) <= max(a) + 1e-6 for e in V), "%s axis drawn from %s" % (side, a))
    if kind == "map" and opts.get("is_2D_view", True):
        if opts.get("type_plot") == "pcolormesh":
            got = calls("pcolormesh")
            ctx.true(len(got) == 1, "one map")
            xs, ys, zs = [np.asarray(e) for e in got[0][1][:3]]
            if xs.ndim == 1:
                # as matplotlib reads them
                xs, ys = np.meshgrid(xs, ys)
            ctx.true(xs.shape == ys.shape == zs.shape, "shapes of the map")
            t = bool(xs[0, 0] == xs[-1, 0])
            grid = lambda i, j: zs[j, i] if t else zs[i, j]
            for i in range(nx):
                for j in range(ny):
                    k = (j, i) if t else (i, j)
                    ctx.eq(xs[k], X[i], "map: x")
                    ctx.eq(ys[k], Y[j], "map: y")
        else:
            got = calls("image")
            ctx.true(len(got) == 1, "one map")
            xs, ys, zs = [np.asarray(e) for e in got[0][1][:3]]
            up = lambda v: v if v[-1] > v[0] else v[::-1]
            same(ctx, xs, up(X), "abscissa of the map")
            same(ctx, ys, up(Y), "ordinate of the map")
            ctx.shape(zs, (ny, nx), "map")
            grid = lambda i, j: zs[j if Y[-1] > Y[0] else ny - 1 - j, i if X[-1] > X[0] else nx - 1 - i]
            lims = calls("clim")
        big = None
        if "z_range" in opts:
            big = ctx.maxof([at(i, j) for i in range(nx) for j in range(ny)])
        for i in range(nx):
            for j in range(ny):
                v = at(i, j)
                if opts.get("type_plot") == "pcolormesh":
                    pass
                elif zl is not None:
                    v = ctx.minof([ctx.maxof([v, zl]), zh])
                elif big is not None:
                    v = ctx.maxof([v, big - opts["z_range"]])
                ctx.eq(grid(i, j), v, "map at %d,%d" % (i, j))
        if opts.get("is_contour"):
            c = calls("contour")
            ctx.true(len(c) == 1, "contour")
            for k in range(3):
                ctx.eq(np.asarray(c[0][1][k]), np.asarray(got[0][1][k]), "contour of the map")
    elif kind == "map":
        got = calls("plot_surface")
        ctx.true(len(got) == 1, "one surface")
        xs, ys, zs = [np.asarray(e) for e in got[0][1][:3]]
        ctx.true(xs.shape == ys.shape == zs.shape, "surface shapes")
        t = bool(xs[0, 0] == xs[0, -1])
        for i in range(nx):
            for j in range(ny):
                k = (i, j) if t else (j, i)
                ctx.eq(xs[k], X[i], "surface: x at %d,%d" % (i, j))
                ctx.eq(ys[k], Y[j], "surface: y at %d,%d" % (i, j))
                ctx.eq(zs[k], at(i, j), "surface: z at %d,%d" % (i, j))
    elif kind == "scatter":
        got = calls("scatter")
        ctx.true(len(got) == 1, "one cloud")
        xs, ys = [np.asarray(e) for e in got[0][1][:2]]
        zs = np.asarray(got[0][2]["c"])
        ctx.shape(xs, (nx * ny,), "cloud")
        ctx.shape(ys, (nx * ny,), "cloud")
        ctx.shape(zs, (nx * ny,), "cloud")
        # any order of the points
        pts = [(i, j) for i in range(nx) for j in range(ny)]
        order = pts if bool(xs[0] == xs[1]) else [(i, j) for j in range(ny) for i in range(nx)]
        for k, (i, j) in enumerate(order):
            ctx.eq(xs[k], X[i], "cloud: x of point %d" % k)
            ctx.eq(ys[k], Y[j], "cloud: y of point %d" % k)
            ctx.eq(zs[k], at(i, j), "cloud: value of point %d" % k)


def labels(ctx, cfg, calls, axes, field_label):
    """units written along the axes"""
    for f, r in axes:
        nm = nm_of(r)
        if "->" in r or nm in ("names", "wavenumber") and "{" not in r:
            continue
        u = r.split("{")[1].split("}")[0] if "{" in r else {"time": "s", "freqs": "Hz", "z": "m", "speed": "rpm", "angle": "rad"}[nm]
        t = [a[0] if a else k.get(f[4:]) for _, a, k in calls(f)]
        ctx.true(len(t) == 1 and "[%s]" % u in t[0], "label %r of %s, in %s" % (t, nm, u))
    u = cfg.get("unit", cfg.get("funit", "Pa"))
    t = [a[0] if a else "" for _, a, k in calls(*field_label)]
    ctx.true(any(u in e for e in t), "label %r of the field, in %s" % (t, u))


def vectors(ctx, s, cfg):
    shape = tuple(a[1] for a in cfg["axes"])
    req, comps = cfg["req"], cfg["comps"]
    xs = {c: ctx.reals(c, shape, -1e4, 1e4) for c in comps}
    mk = lambda: s.VectorField(name="field", symbol="V", components={c: field(ctx, s, cfg, xs[c], symbol="X", name=c) for c in comps})
    v, ref = mk(), mk()
    log = []
    calls = lambda *n: [c for c in log if c[0] in n]
    kw = {}
    arrows = cfg["kind"] == "arrows"
    if arrows:
        kw["type_plot"] = "quiver"
        if cfg["rad"]:
            kw["radius"] = cfg["rad"]
        if cfg["how"] != "all":
            kw["component_list"] = [cfg["how"]]
    elif "pick" in cfg:
        kw["component_list"] = cfg["pick"]
    maps = req == ["time", "z"]
    ask = {}
    if "unit" in cfg:
        ask["unit"] = cfg["unit"]
    if cfg.get("isnorm"):
        ask["is_norm"] = True
    if "data" in cfg:
        ask["axis_data"] = {k: np.array(e) for k, e in cfg["data"].items()}
    kw.update(ask)
    fields = [ref]
    if "others" in cfg:
        # several vector fields on the same plot
        more = [{c: ctx.reals("%s_%d" % (c, k), shape, -1e4, 1e4) for c in comps} for k in range(cfg["others"])]
        mk2 = lambda y: s.VectorField(name="other", symbol="V", components={c: field(ctx, s, cfg, y[c], symbol="X", name=c) for c in comps})
        kw["data_list"] = [mk2(y) for y in more]
        fields += [mk2(y) for y in more]
    with Patched(log):
        f = v.plot_3D_Data if maps else v.plot_2D_Data
        f(*req, fig=Rec(log, "fig"), ax=Rec(log, "ax"), is_show_fig=False, **kw)
    for c in comps:
        ctx.eq(np.asarray(v.components[c].values), xs[c], "component %s after the plot" % c)
    if maps:
        got = calls("image")
        ctx.true(len(got) == len(comps), "one map for each component")
        for c, g in zip(comps, got):
            ctx.eq(np.asarray(g[1][2]), (xs[c] / 1000 if "unit" in cfg else xs[c]).T, "map of %s" % c)
        return
    if not arrows:
        pick = cfg.get("pick", comps)
        want = []
        for c in pick:
            for o in fields:
                r = o.components[c].get_along(*req, **ask)["X"]
                want += [r] if r.ndim == 1 else list(r if cfg["axes"][0][0] == "time" else r.T)
        got = calls("plot")
        ctx.true(len(got) == len(want), "number of curves")
        for g, w in zip(got, want):
            same(ctx, g[1][1], w, "curve")
        return
    got = calls("quiver")
    ctx.true(len(got) == 1, "one set of arrows")
    px, py, ux, uy = [np.asarray(e) for e in got[0][1][:4]]
    phi = AX["angle"][1][: 3]
    ia = [a[0] for a in cfg["axes"]].index("angle")
    val = lambda c, k: xs[c][(k, 1) if ia == 0 else (1, k)] if c in xs else 0.0
    for k, p in enumerate(phi):
        c, sn = math.cos(p), math.sin(p)
        R = cfg["rad"] or 1
        ctx.eq(px[k], R * c, "foot of the arrow")
        ctx.eq(py[k], R * sn, "foot of the arrow")
        if "comp_x" in xs:
            a, b = val("comp_x", k), val("comp_y", k)
            er, et = c * a + sn * b, c * b - sn * a
        else:
            er, et = val("radial", k), val("tangential", k)
        if cfg["how"] == "radial":
            et = 0
        elif cfg["how"] == "tangential":
            er = 0
        ctx.eq(ux[k], er * c - et * sn, "arrow along x")
        ctx.eq(uy[k], er * sn + et * c, "arrow along y")
