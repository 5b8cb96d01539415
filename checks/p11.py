"""Decibel, A-weighted and octave band levels."""
import math

import numpy as np

from .common import dt, nest, rebuild

BOUNDS = (
    "levels of fields of 1 to 3 axes with up to 4 values, real or complex, |x|<=1e6, units of power or not, without reference or with "
    "references 2e-5, 1e-12, 0.5 and 3; A-weighting at 0 Hz and at up to 5 frequencies between 10 Hz and 20 kHz (also through another unit or normalization of the "
    "frequency axis, speed and order axes of 2 or 3 values in any layout, whole, selected, summed or left out, weights stored with the field, or the spectrum of a time signal of 4 samples); 1/1, 1/3 and 1/12 octave bands of up to 12 lines, alone or with a second axis; "
    "sums of 2 or 3 levels"
)
ASSUMPTIONS = [
    "frequencies are the listed numbers (the field values are symbolic)",
    "A-weighting is compared with the curve of IEC 61672 within 0.06 dB",
    "a sum of levels below 2 dB is shown as 0 by the library and is outside the statement",
]
LIMITS = {"max_paths": 200}


def aw(f):
    if f == 0:
        return -100.0
    f2 = f * f
    ra = 12194.0**2 * f2**2 / ((f2 + 20.6**2) * math.sqrt((f2 + 107.7**2) * (f2 + 737.9**2)) * (f2 + 12194.0**2))
    return 2.0 + 20 * math.log10(ra)


def configs(tier):
    out = []

    def add(**k):
        k["name"] = "-".join(str(v) for v in k.values()).replace(" ", "")
        out.append(k)

    units = ["Pa", "W", "mW", "VA", "m/s2"]
    for unit in units:
        for ref in (None, 2e-5, 1e-12, 3.0):
            for how in ("along", "mag"):
                add(kind="dB", cls="freq", shape=[2], unit=unit, ref=ref, how=how)
                add(kind="dB", cls="time", shape=[2], unit=unit, ref=ref, how=how)
    for how in ("along", "mag"):
        add(kind="dB", cls="freq", shape=[2, 2], unit="Pa", ref=0.5, how=how)
        add(kind="dB", cls="time", shape=[1, 2], unit="W", ref=0.5, how=how)
        add(kind="dB", cls="time", shape=[2, 1, 2], unit="Pa", ref=None, how=how)
        for fs in ([0.0, 50.0], [10.0, 1000.0], [440.0, 12000.0], [63.0, 20000.0]):
            for ref in (None, 2e-5):
                add(kind="dBA", fs=fs, ref=ref, how=how, ask="whole", axes=["freqs"])
        for ref in (None, 2e-5):
            for axes in (["freqs", "z"], ["z", "freqs"], ["w", "freqs", "z"]):
                add(kind="dBA", fs=[0.0, 315.0], ref=ref, how=how, ask="whole", axes=axes)
                add(kind="dBA", fs=[31.5, 315.0], ref=ref, how=how, ask="whole", axes=axes, drop=True)
            for ask in ("unit", "norm", "normpart", "part", "one", "unitpart", "list", "large"):
                add(kind="dBA", fs=[25.0, 500.0, 2000.0], ref=ref, how=how, ask=ask, axes=["freqs"])
                add(kind="dBA", fs=[25.0, 500.0, 2000.0], ref=ref, how=how, ask=ask, axes=["z", "freqs"])
            for ask in ("whole", "norm", "normpart", "part", "unit"):
                add(kind="dBAt", ref=ref, how=how, ask=ask, axes=["time"])
                add(kind="dBAt", ref=ref, how=how, ask=ask, axes=["z", "time"])
        add(kind="dBA", fs=[25.0, 500.0, 2000.0], ref=3.0, how=how, ask="whole", axes=["frequency"])
        add(kind="dBA", fs=[25.0, 500.0], ref=3.0, how=how, ask="whole", axes=["z", "frequency"])
    for axes in (["freqs"], ["freqs", "z"], ["z", "freqs"], ["w", "freqs", "z"]):
        for noct, fs in (
            (3, [80.0, 90.0, 100.0, 110.0, 120.0, 130.0, 140.0]),
            (1, [30.0, 60.0, 90.0, 120.0, 150.0]),
            (12, [100.0, 110.0, 120.0]),
            (3, [0.0, 20.0, 40.0]),
            (1, [0.0, 500.0, 1000.0]),
            (3, [1000.0, 1100.0, 1400.0]),
        ):
            for un in ("SI", "dB", "dBA"):
                if un != "SI" and (noct == 12 or len(axes) > 2 or len(fs) > 5):
                    continue
                add(kind="oct", noct=noct, fs=fs, axes=axes, unit=un)
                if len(axes) > 1 and un == "SI":
                    add(kind="oct", noct=noct, fs=fs, axes=axes, unit=un, drop=True)
    add(kind="oct", noct=12, fs=[0.0, 30.0, 60.0], axes=["freqs"], unit="SI")
    add(kind="oct", noct=24, fs=[1000.0, 1050.0, 1100.0], axes=["freqs"], unit="SI")
    for noct in (1, 3):
        for fs in ([0.0, 10000.0, 20000.0], [10.0, 8000.0, 15990.0, 23980.0], [12.5, 1012.5, 2012.5, 3012.5]):
            for un in ("SI", "dB", "dBA"):
                add(kind="oct", noct=noct, fs=fs, axes=["freqs"], unit=un)
    add(kind="octt", noct=1, n=4, h=0.001)
    add(kind="octt", noct=3, n=4, h=0.005)
    for unit in ("Pa", "W"):
        for un in ("dB", "dBA"):
            for op in ("sum", "rss"):
                for axes in (["freqs"], ["freqs", "z"], ["z", "freqs"]):
                    add(kind="sum", unit=unit, level=un, op=op, axes=axes, rest="whole")
                    if len(axes) > 1:
                        add(kind="sum", unit=unit, level=un, op=op, axes=axes, rest="drop")
                        add(kind="sum", unit=unit, level=un, op=op, axes=axes, rest="sum")
        add(kind="sumt", unit=unit, level="dB", op="sum")
        add(kind="sumt", unit=unit, level="dBA", op="rss")
    for how in ("along", "mag"):
        add(kind="order", how=how, ask="whole", extra=False)
        add(kind="order", how=how, ask="whole", extra=True)
    add(kind="order", how="mag", ask="norm", extra=False)
    for un in ("dB", "dBA"):
        for lay in ("so", "os", "sow", "osw", "wso", "swo"):
            for req in (
                "s;o", "s=sum;o", "s;o=sum", "s;o=rss", "s=rss;o=sum", "s[1];o", "s;o[1]", "s=12000;o", "s=[2000,4000];o", "s[0,1];o[1]", "s=sum;o[0]", "s[1];o=sum",
            ):
                for w in (("w", "w[1]", "") if "w" in lay else ("",)):
                    add(kind="orders", level=un, lay=lay, req=req, w=w)
            add(kind="orders", level=un, lay=lay, req="s=sum;o", w="", norm=True)
            add(kind="orders", level=un, lay=lay, req="s;o=sum", w="", norm=True)
            add(kind="orders", level=un, lay=lay, req="s=sum;o=sum", w="", norm=True)
            add(kind="orders", level=un, lay=lay, req="s[1];o", w="", norm=True)
            add(kind="orders", level=un, lay=lay, req="s;o", w="", norm=True)
    for req in ("s;o", "s[1];o", "s;o[1]", "o[1];s", "s[0,1];o"):
        for lay in ("so", "os", "wso", "swo"):
            add(kind="orders", level="dBA", lay=lay, req=req, w="w[1]" if "w" in lay else "", how="along")
    for lay in ("so", "os", "wso"):
        for req in ("s", "o", "s[1]", "o[2]", "s[1,2]", "o[0,2]", "o=sum", "s=sum", "s=rss", "s=[2000,4000]"):
            for lv in ("dB", "dBA"):
                add(kind="orders", level=lv, lay=lay, req=req, w="w" if "w" in lay else "", n=3)
                add(kind="orders", level=lv, lay=lay, req=req, w="", n=3)
                if "=" not in req:
                    add(kind="orders", level=lv, lay=lay, req=req, w="", how="along", n=3)
        for req in ("s[0,2];o", "s;o[0,2]", "s[1,2];o[1]", "s[0,2];o[0,1]", "s[2];o[1,2]", "s=sum;o[0,2]", "s[0,2];o=sum"):
            for how in ("mag", "along"):
                if how == "mag" or "=" not in req:
                    add(kind="orders", level="dBA", lay=lay, req=req, w="w[1]" if "w" in lay else "", how=how, n=3)
    for nd in (1, 2):
        for req in ("z;w", "z[1];w", "z;w[1]", "z[0,2];w", "z=[0.5,2];w[0]", "z;w[0,1]", "z", "w", "z[1]", "w[1];z[2]"):
            add(kind="stored", nd=nd, req=req, ax="z")
            if "=" not in req:
                add(kind="stored", nd=nd, req=req.replace("z", "freqs"), ax="freqs")
    add(kind="fun", what="dB")
    add(kind="fun", what="dBA")
    add(kind="fun", what="dBAoct")
    add(kind="fun", what="dBAbands")
    return out


def level(ctx, v, unit, ref):
    """the definition of the level of one value; v >= 0"""
    k = 10.0 if unit in ("W", "mW", "VA") else 20.0
    if ref is None:
        # no level is defined for zero: it is shown as 0
        return k * ctx.log10(v) if ctx.decide(v > 0) else 0
    return k * ctx.log10(v / ref) if ctx.decide(v >= ref) else 0


def norms(s, ref):
    return {} if ref is None else {"ref": s.Norm_ref(ref=ref)}


def mk(ctx, s, names, fs, n_other=2):
    axes = []
    for nm in names:
        if nm in ("freqs", "frequency"):
            axes.append(s.Data1D(name=nm, unit="Hz", values=ctx.arr(fs), normalizations={"ord": s.Norm_ref(ref=25.0)}))
        else:
            axes.append(s.Data1D(name=nm, unit="m", values=ctx.arr([float(i) for i in range(n_other)])))
    return axes


def few_small(ctx, X, ref):
    """only the first values of a large field may be small: the others are above the reference"""
    for n, i in enumerate(np.ndindex(*X.shape)):
        if n > 2:
            z = X[i]
            ctx.assume(ctx.re(z) * ctx.re(z) + ctx.im(z) * ctx.im(z) > (ref or 0) ** 2)


def mag(ctx, z):
    return ctx.sqrt(ctx.re(z) * ctx.re(z) + ctx.im(z) * ctx.im(z))


def run(ctx, cfg):
    s = dt()
    kind = cfg["kind"]
    if kind == "dB":
        shape = tuple(cfg["shape"])
        names = ["freqs" if cfg["cls"] == "freq" else "time", "z", "w"][: len(shape)]
        x = ctx.complexes("x", shape, -1e6, 1e6) if cfg["cls"] == "freq" else ctx.reals("x", shape, -1e6, 1e6)
        axes = [s.Data1D(name=nm, unit="Hz" if nm == "freqs" else "s" if nm == "time" else "m", values=ctx.arr([float(i) for i in range(n)])) for nm, n in zip(names, shape)]
        cls = s.DataFreq if cfg["cls"] == "freq" else s.DataTime
        d = cls(name="f", symbol="X", unit=cfg["unit"], axes=axes, values=x, normalizations=norms(s, cfg["ref"]))
        f = d.get_along if cfg["how"] == "along" else d.get_magnitude_along
        r = f(*names, unit="dB")["X"]
        E = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            v = mag(ctx, x[i]) if cfg["cls"] == "freq" else abs(x[i])
            E[i] = level(ctx, v, cfg["unit"], cfg["ref"])
        E = np.squeeze(E)
        ctx.eq(r, nest(E.shape, lambda *i: E[i]), "level", tol=1e-6)
    elif kind in ("dBA", "dBAt"):
        time = kind == "dBAt"
        names = cfg["axes"]
        fs = [0.0, 100.0, 200.0] if time else cfg["fs"]
        axes = []
        ref = cfg["ref"]
        ax = "time" if time else [n for n in names if n.startswith("freq")][0]
        for nm in names:
            if nm == ax:
                axes.append(
                    s.Data1D(name="time", unit="s", values=ctx.arr([0.0, 0.0025, 0.005, 0.0075]), normalizations={"ord": s.Norm_ref(ref=25.0)})
                    if time
                    else s.Data1D(name=nm, unit="Hz", values=ctx.arr(fs), normalizations={"ord": s.Norm_ref(ref=25.0)})
                )
            else:
                axes.append(s.Data1D(name=nm, unit="m", values=ctx.arr([0.0, 1.0][: 2 if time or len(names) < 3 else 1])))
        shape = tuple(len(a.values) for a in axes)
        k = names.index(ax)
        if time:
            # any spectrum of the cosine kind: x built from three symbolic amplitudes
            oth = tuple(n for j, n in enumerate(shape) if j != k)
            amp = ctx.reals("a", (3,) + oth, -1e4, 1e4)
            x = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                t, o = i[k], tuple(v for j, v in enumerate(i) if j != k)
                # 100 Hz and the last line (counted twice by the library)
                x[i] = amp[(0,) + o] + amp[(1,) + o] * [1, 0, -1, 0][t] + amp[(2,) + o] * [0.5, -0.5, 0.5, -0.5][t]
            X = amp if k == 0 else np.moveaxis(amp, 0, k)
            x = ctx.arr(x.tolist())
            d = s.DataTime(name="f", symbol="X", unit="Pa", axes=axes, values=x, normalizations=norms(s, ref))
        else:
            X = ctx.complexes("x", shape, -1e6, 1e6)
            few_small(ctx, X, ref)
            d = s.DataFreq(name="f", symbol="X", unit="Pa", axes=axes, values=X, normalizations=norms(s, ref))
        ask = cfg["ask"]
        nm = "freqs" if time else ax
        req, sel = {
            "whole": (nm, range(len(fs))),
            "unit": (nm + "{kHz}", range(len(fs))),
            "norm": (nm + "->ord", range(len(fs))),
            "normpart": (nm + "->ord=[%s,100]" % (2 if time else 10), [1, 2]),
            "part": (nm + "=[%s,5000]" % (50 if time else 100), [1, 2]),
            "unitpart": (nm + "=[0.1,5]{kHz}", [1, 2]),
            "one": (nm + "[1]", [1]),
            "list": (nm + "[0,2]", [0, 2]),
            "large": (nm + "[2largest]", [2, 1]),
        }[ask]
        sel = list(sel)
        drop = cfg.get("drop")
        args = [req if n == ax else n for n in names if n == ax or not drop]
        f = d.get_along if cfg["how"] == "along" else d.get_magnitude_along
        r = f(*args, unit="dBA")["X"]
        Y = np.take(X, sel, axis=k)
        for j, n in enumerate(names):
            if drop and n != ax:
                Y = np.take(Y, [0], axis=j)
        E = np.empty(Y.shape, dtype=object)
        for i in np.ndindex(*Y.shape):
            v = abs(Y[i]) if time else mag(ctx, Y[i])
            E[i] = level(ctx, v, "Pa", ref) + aw(fs[sel[i[k]]])
        E = np.squeeze(E)
        ctx.eq(r, nest(E.shape, lambda *i: E[i]), "A-weighted level", tol=0.06)
    elif kind in ("oct", "octt"):
        noct = cfg["noct"]
        if kind == "octt":
            n, h = cfg["n"], cfg["h"]
            fs = [i / (n * h) for i in range(n // 2 + 1)]
            amp = ctx.reals("a", (len(fs),), -1e4, 1e4)
            x = []
            for t in range(n):
                v = amp[0]
                for q in range(1, len(fs)):
                    c = math.cos(2 * math.pi * q * t / n)
                    v = v + amp[q] * (c if q < len(fs) - 1 else 0.5 * (-1) ** t)
                x.append(v)
            axes = [s.Data1D(name="time", unit="s", values=ctx.arr([i * h for i in range(n)]))]
            d = s.DataTime(name="f", symbol="X", unit="Pa", axes=axes, values=ctx.arr(x))
            X, names, unit, ref, drop = amp, ["freqs"], "SI", None, False
        else:
            fs, names, unit = cfg["fs"], cfg["axes"], cfg["unit"]
            ref = None if unit == "SI" else 2e-5
            drop = cfg.get("drop")
            axes = mk(ctx, s, names, fs, 2 if len(names) < 3 else 1)
            shape = tuple(len(a.values) for a in axes)
            # levels: well above the reference
            X = ctx.reals("x", shape, -1e4 if unit == "SI" else 1, 1e4)
            d = s.DataFreq(name="f", symbol="X", unit="Pa", axes=axes, values=X, normalizations=norms(s, ref))
        k = names.index("freqs")
        args = ["freqs->1/%doct" % noct if n == "freqs" else n for n in names if n == "freqs" or not drop]
        r = d.get_magnitude_along(*args, unit=unit)
        tables = {
            1: [16, 31.5, 63, 125, 250, 500, 1000, 2000, 4000, 8000, 16000],
            3: [12.5, 16, 20, 25, 31.5, 40, 50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500, 630, 800, 1000, 1250, 1600, 2000, 2500, 3150, 4000, 5000, 6300, 8000, 10000, 12500, 16000, 20000],
        }
        # centre frequencies inside the range, lower edges between two neighbours
        if noct in tables:
            fo = [f for f in tables[noct] if fs[0] <= f <= fs[-1]]
            ctx.eq(r["freqs"], fo, "centre frequencies", tol=1e-9)
        else:
            fo = [float(v) for v in r["freqs"]]
            ctx.true(all(fs[0] <= f <= fs[-1] for f in fo), "centre frequencies in range")
            ctx.true(all(fo[i] < fo[i + 1] for i in range(len(fo) - 1)), "centre frequencies increase")
            ex = {math.ceil(2 * 1000 * 2.0 ** (i / noct)) / 2 for i in range(-30 * noct, 10 * noct)}
            ctx.true(all(f in ex for f in fo), "centre frequencies are those of the bands")
            # no band is missing
            lo = 15.0 if noct == 12 else 0
            ctx.true(all(f in fo for f in ex if max(fs[0], lo) < f < fs[-1]), "every band is there")
        edges = [f / 2 ** (0.5 / noct) for f in fo] + [fo[-1] * 2 ** (0.5 / noct)]
        df = fs[1] - fs[0]
        Y = X
        for j, n in enumerate(names):
            if drop and n != "freqs":
                Y = np.take(Y, [0], axis=j)
        shape = list(Y.shape)
        shape[k] = len(fo)
        E = np.empty(tuple(shape), dtype=object)
        for i in np.ndindex(*E.shape):
            b = i[k]
            ins = [q for q, f in enumerate(fs) if edges[b] <= f <= edges[b + 1]]
            e = 0
            for q in ins:
                v = Y[i[:k] + (q,) + i[k + 1 :]]
                e = e + v * v
            bw = edges[b + 1] - edges[b]
            if ins and math.floor(bw / df) <= len(ins):
                e = e * (bw / (df * len(ins)))  # part of the band covered by the lines
            if not ins:
                E[i] = 0
            else:
                E[i] = ctx.sqrt(e)
            if unit != "SI":
                E[i] = level(ctx, E[i], "Pa", ref) + (aw(fo[b]) if unit == "dBA" else 0)
        E = np.squeeze(E)
        ctx.eq(r["X"], nest(E.shape, lambda *i: E[i]), "band values", tol=0.06 if unit == "dBA" else 1e-3)
    elif kind in ("sum", "sumt"):
        unit, lev, op = cfg["unit"], cfg["level"], cfg["op"]
        ref = 0.5
        if kind == "sumt":
            fs = [0.0, 100.0, 200.0]
            amp = ctx.reals("a", (3,), 60, 1e4)
            x = [amp[0] + amp[1] * [1, 0, -1, 0][t] + amp[2] * [0.5, -0.5, 0.5, -0.5][t] for t in range(4)]
            names, rest = ["freqs"], "whole"
            axes = [s.Data1D(name="time", unit="s", values=ctx.arr([0.0, 0.0025, 0.005, 0.0075]))]
            X = amp
            d = s.DataTime(name="f", symbol="X", unit=unit, axes=axes, values=ctx.arr(x), normalizations=norms(s, ref))
        else:
            names, rest = cfg["axes"], cfg["rest"]
            fs = [200.0, 1000.0]
            axes = mk(ctx, s, names, fs)
            # each line is well above the reference
            X = ctx.reals("x", tuple(len(a.values) for a in axes), 60, 1e4)
            d = s.DataFreq(name="f", symbol="X", unit=unit, axes=axes, values=X, normalizations=norms(s, ref))
        k = names.index("freqs")
        args = []
        for n in names:
            if n == "freqs":
                args.append("freqs=" + op)
            elif rest == "whole":
                args.append(n)
            elif rest == "sum":
                args.append(n + "=sum")
        r = d.get_magnitude_along(*args, unit=lev)["X"]
        Y = np.moveaxis(X, k, 0)
        if Y.ndim > 1:
            if rest == "drop":
                Y = Y[:, :1]
            elif rest == "sum":
                Y = Y[:, :1] + Y[:, 1:]
        else:
            Y = Y.reshape((-1, 1))
        # energies relative to the reference
        res = []
        for j in range(Y.shape[1]):
            e = 0
            for q, f in enumerate(fs):
                v = Y[q, j] / ref
                w = 10 ** (aw(f) / 10) if lev == "dBA" else 1
                e = e + w * (v if unit == "W" else v * v)
            res.append(10 * ctx.log10(e))
        res = res[0] if len(res) == 1 else res
        ctx.eq(r, res, "level of the sum", tol=0.2 if lev == "dBA" else 1e-5)
    elif kind == "order":
        sp = [600.0, 3000.0]
        orders = ["H1", "H12"]
        shape = (2, 2, 2) if cfg["extra"] else (2, 2)
        X = ctx.reals("x", shape, -1e4, 1e4)
        norm = cfg["ask"] == "norm"
        if norm:
            A = s.Data1D(name="rev", unit="", values=ctx.arr([0.0, 1.0]), normalizations={"speed": s.Norm_vector(vector=np.array(sp))})
        else:
            A = s.Data1D(name="speed", unit="rpm", values=ctx.arr(sp))
        O = s.Data1D(name="order", unit="", values=orders, is_components=False)
        axes = [A, O]
        args = ["rev->speed" if norm else "speed", "order"]
        if cfg["extra"]:
            axes.append(s.Data1D(name="z", unit="m", values=ctx.arr([0.0, 1.0])))
            args.append("z")
        d = s.DataFreq(name="f", symbol="X", unit="Pa", axes=axes, values=X, normalizations=norms(s, 0.5))
        f = d.get_along if cfg["how"] == "along" else d.get_magnitude_along
        r = f(*args, unit="dBA")["X"]
        w = [[aw(600 / 60 * o) for o in (1, 12)], [aw(3000 / 60 * o) for o in (1, 12)]]
        ctx.eq(r, nest(shape, lambda *i: level(ctx, abs(X[i]), "Pa", 0.5) + w[i[0]][i[1]]), "A-weighted level", tol=0.06)
    elif kind == "orders":
        n = cfg.get("n", 2)
        sp, orders = [3000.0, 12000.0, 7500.0][:n], [1, 12, 4][:n]
        un = cfg["level"]
        full = {"s": "speed", "o": "order", "w": "w"}
        if cfg.get("norm"):
            A = s.Data1D(name="rev", unit="", values=ctx.arr([0.0, 1.0, 2.0][:n]), normalizations={"speed": s.Norm_vector(vector=np.array(sp))})
        else:
            A = s.Data1D(name="speed", unit="rpm", values=ctx.arr(sp))
        table = {"s": A, "o": s.Data1D(name="order", unit="", values=["H1", "H12", "H4"][:n], is_components=True), "w": s.Data1D(name="w", unit="m", values=ctx.arr([0.0, 1.0]))}
        lay = cfg["lay"]
        # levels far from those shown as 0
        sh = tuple(2 if c == "w" else n for c in lay)
        X = ctx.reals("x", sh, 60, 1e4)
        d = s.DataFreq(name="f", symbol="X", unit="Pa", axes=[table[c] for c in lay], values=X, normalizations=norms(s, 0.5))
        req = cfg["req"].split(";") + ([cfg["w"]] if cfg["w"] else [])
        args = [("rev->speed" if cfg.get("norm") and r[0] == "s" else full[r[0]]) + r[1:] for r in req]
        f = d.get_along if cfg.get("how") == "along" else d.get_magnitude_along
        r = f(*args, unit=un)["X"]
        sel = {"w": [0], "s": [0], "o": [0]}
        tot = set()
        for q in req:
            c, t = q[0], q[1:]
            if t in ("=sum", "=rss"):
                tot.add(c)
                sel[c] = list(range(n))
            elif t[:1] == "[":
                sel[c] = [int(e) for e in t[1:-1].split(",")]
            else:
                sel[c] = {"": [0, 1] if c == "w" else list(range(n)), "=12000": [1], "=[2000,4000]": [0]}[t]
        rest = [c for c in lay if c not in tot and len(sel[c]) > 1]

        def cell(*i):
            fixed = dict(zip(rest, i))
            e = 0
            cells = 0
            for ix in np.ndindex(*sh):
                at = dict(zip(lay, ix))
                if any(at[c] not in sel[c] for c in lay) or any(at[c] != sel[c][fixed[c]] for c in rest):
                    continue
                v = X[ix] / 0.5
                w = aw(sp[at["s"]] / 60 * orders[at["o"]]) if un == "dBA" else 0
                one = 20 * ctx.log10(v) + w
                e = e + 10 ** (w / 10) * v * v
                cells += 1
            return one if cells == 1 else 10 * ctx.log10(e)

        v = nest([len(sel[c]) for c in rest], cell)
        ctx.eq(r, v, "level", tol=(0.2 if tot else 0.06) if un == "dBA" else 1e-5)
    elif kind == "stored":
        # the weights are given with the field
        W = [[-30.0, -10.0], [-5.0, -3.0], [-1.0, 1.0]]
        nd = cfg["nd"]
        X = ctx.reals("x", (3, 2), 1, 1e4)
        first = s.Data1D(name=cfg["ax"], unit="Hz" if cfg["ax"] == "freqs" else "m", values=ctx.arr([0.0, 1.0, 2.0]))
        n = norms(s, 0.5)
        n["A-weight"] = s.Norm_vector(vector=np.array(W) if nd == 2 else np.array([w[0] for w in W]))
        d = s.DataFreq(name="f", symbol="X", unit="Pa", axes=[first, s.Data1D(name="w", unit="m", values=ctx.arr([0.0, 1.0]))], values=X, normalizations=n)
        req = cfg["req"].split(";")
        r = d.get_magnitude_along(*req, unit="dBA")["X"]
        sel = [[0], [0]]
        for q in req:
            k = 1 if q[0] == "w" else 0
            if q in ("w", cfg["ax"]):
                sel[k] = [[0, 1, 2], [0, 1]][k]
            elif "=" in q:
                sel[k] = [1, 2]
            else:
                sel[k] = [int(v) for v in q.split("[")[1][:-1].split(",")]
        rest = [k for k in (0, 1) if len(sel[k]) > 1]

        def cell(*i):
            at = [sel[0][0], sel[1][0]]
            for k, q in zip(rest, i):
                at[k] = sel[k][q]
            return 20 * ctx.log10(X[tuple(at)] / 0.5) + W[at[0]][at[1] if nd == 2 else 0]

        ctx.eq(r, nest([len(sel[k]) for k in rest], cell), "level with the weights of the field", tol=1e-5)
    elif kind == "fun":
        from SciDataTool.Functions import conversions as c

        x = ctx.arr([ctx.real("x_0", 0, 1e4), ctx.real("x_1", 0, 1e4)])
        x0, x1 = x[0], x[1]
        if cfg["what"] == "dB":
            r = c.to_dB(x, "Pa", 0.5)
            ctx.eq(r, [level(ctx, x0, "Pa", 0.5), level(ctx, x1, "Pa", 0.5)], "level", tol=1e-6)
            ctx.eq(c.to_dB(x0, "W", 0.5), level(ctx, x0, "W", 0.5), "level of one value", tol=1e-6)
        elif cfg["what"] == "dBA":
            f = np.array([0.0, 250.0])
            r = c.to_dBA(x, f, "Pa", 0.5)
            ctx.eq(r, [level(ctx, x0, "Pa", 0.5) - 100, level(ctx, x1, "Pa", 0.5) + aw(250.0)], "A-weighted level", tol=0.06)
            ctx.true(f.tolist() == [0.0, 250.0], "frequencies kept")
        elif cfg["what"] == "dBAbands":
            bands = [12.5, 16, 20, 25, 31.5, 40, 50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500, 630, 800, 1000]
            bands += [1250, 1600, 2000, 2500, 3150, 4000, 5000, 6300, 8000, 10000, 12500, 16000, 20000]
            y = ctx.reals("y", (len(bands),), 0, 1e3)
            r = c.dB_to_dBA(y, np.array(bands), noct=3)
            ctx.eq(r, [y[i] + aw(1000 * 10 ** (round(10 * math.log10(f / 1000)) / 10)) for i, f in enumerate(bands)], "A-weighted bands", tol=0.09)
            r = c.dB_to_dBA(y[:10], np.array(bands[::-1][:10]), noct=1)
            ctx.eq(r, [y[i] + aw(1000 * 10 ** (round(10 * math.log10(f / 1000)) / 10)) for i, f in enumerate(bands[::-1][:10])], "A-weighted bands, decreasing", tol=0.09)
        else:
            r = c.dB_to_dBA(x, np.array([31.5, 1000.0]), noct=3)
            ctx.eq(r, [x0 - 39.4, x1], "A-weighted band level", tol=0.06)
        ctx.eq(x, [x0, x1], "argument kept", tol=0)
