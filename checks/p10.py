"""Unit conversion."""
import math

import numpy as np

from .common import dt, nest, rebuild

BOUNDS = (
    "every symbol of the unit table with every SI prefix and powers 1 to 3 and -1, quotients and products of two "
    "or three units (with and without separators), every pair of 39 units of different dimensions; fields of 1 to 3 axes, "
    "axes stored as vectors or linspaces with and without symmetry, in the time and frequency domains; |x|<=1e9 (frequencies between 0 and 2e4 for the Bark scale)"
)
ASSUMPTIONS = ["unit strings are the listed ones (the values are symbolic)"]

PREFIX = {
    "Y": 24, "Z": 21, "E": 18, "P": 15, "T": 12, "G": 9, "M": 6, "k": 3, "h": 2, "da": 1, "": 0,
    "d": -1, "c": -2, "m": -3, "µ": -6, "u": -6, "μ": -6, "n": -9, "p": -12, "f": -15, "a": -18, "z": -21, "y": -24,
}
# symbol: (value in SI, exponents of kg m s K rad A)
SYM = {
    "rad": (1.0, (0, 0, 0, 0, 1, 0)),
    "°": (math.pi / 180, (0, 0, 0, 0, 1, 0)),
    "rpm": (math.pi / 30, (0, 0, -1, 0, 1, 0)),
    "min": (60.0, (0, 0, 1, 0, 0, 0)),
    "Ohm": (1.0, (1, 2, -3, 0, 0, -2)),
    "At": (1.0, (0, 0, 0, 0, 0, 1)),
    "Wb": (1.0, (1, 2, -2, 0, 0, -1)),
    "Mx": (1e-8, (1, 2, -2, 0, 0, -1)),
    "Hz": (1.0, (0, 0, -1, 0, 0, 0)),
    "Pa": (1.0, (1, -1, -2, 0, 0, 0)),
    "g": (1e-3, (1, 0, 0, 0, 0, 0)),
    "s": (1.0, (0, 0, 1, 0, 0, 0)),
    "h": (3600.0, (0, 0, 1, 0, 0, 0)),
    "A": (1.0, (0, 0, 0, 0, 0, 1)),
    "J": (1.0, (1, 2, -2, 0, 0, 0)),
    "W": (1.0, (1, 2, -3, 0, 0, 0)),
    "N": (1.0, (1, 1, -2, 0, 0, 0)),
    "C": (1.0, (0, 0, 1, 0, 0, 1)),
    "T": (1.0, (1, 0, -2, 0, 0, -1)),
    "G": (1e-4, (1, 0, -2, 0, 0, -1)),
    "V": (1.0, (1, 2, -3, 0, 0, -1)),
    "F": (1.0, (-1, -2, 4, 0, 0, 2)),
    "H": (1.0, (1, 2, -2, 0, 0, -2)),
    "m": (1.0, (0, 1, 0, 0, 0, 0)),
}
# prefix+symbol strings that are read as another unit
CLASH = {"min", "cd", "Pa", "hm", "Tm", "At", "dag", "mMx"}
EQUAL = [
    ("N/m2", "Pa", 1), ("N/m^2", "Pa", 1), ("N/mm2", "MPa", 1), ("Wb/m^2", "T", 1), ("J/s", "W", 1), ("V/A", "Ohm", 1),
    ("Wb/A", "H", 1), ("As", "C", 1), ("A*s", "C", 1), ("A.s", "mC", 1000), ("C/V", "F", 1), ("Nm", "J", 1), ("N.m", "mJ", 1000),
    ("N*m", "kJ", 1e-3), ("N m", "J", 1), ("kg*m/s2", "N", 1), ("kgm/s2", "N", 1), ("kWh", "MJ", 3.6), ("kW*h", "J", 3.6e6), ("VA", "W", 1),
    ("Vs", "Wb", 1), ("mNm", "Nm", 1e-3), ("Nmm", "Nm", 1e-3), ("m/s", "km/h", 3.6), ("m/s2", "km/h2", 12960), ("m/s^2", "dm/ms2", 1e-5),
    ("s-1", "Hz", 1), ("s^-1", "kHz", 1e-3), ("rad/s", "rpm", 30 / math.pi), ("rad/s", "°/s", 180 / math.pi), ("°/min", "rpm", 1 / 360.0),
    ("G", "T", 1e-4), ("mT", "G", 10), ("Mx", "Wb", 1e-8), ("T*m2", "Wb", 1), ("A/m", "kA/m", 1e-3), ("At", "A", 1), ("W/m2", "mW/cm2", 0.1),
    ("m2", "mm2", 1e6), ("m^3", "cm^3", 1e6), ("km2", "m2", 1e6), ("kg/m3", "g/cm3", 1e-3), ("h", "min", 60), ("min", "ms", 60000), ("hPa", "Pa", 100),
    ("daN", "N", 10), ("Gm", "km", 1e6), ("m/s/s", "m/s2", 1), ("m*m", "m2", 1), ("dimless", "", 1), ("", "dimless", 1), ("V/m", "mV/mm", 1),
    ("H/m", "µH/mm", 1e3), ("Ohm*m", "mOhm*m", 1e3), ("J/kg", "m2/s2", 1), ("kV", "mV", 1e6), ("W/A", "V", 1), ("T", "kg/A/s2", 1),
    ("N/A", "T*m", 1), ("V/T", "m2/s", 1),
]
DIFFERENT = [
    "dimless", "degC", "rad", "rpm", "s", "Ohm", "A", "Wb", "Hz", "Pa", "g", "J", "W", "N", "C", "T", "V", "F", "H", "m", "m2", "m3", "m/s",
    "m/s2", "N/m", "A/m", "V/m", "kg/m3", "W/m2", "H/m", "F/m", "m/s/h", "m*s", "s2", "A2", "T*m", "J/degC", "Ns", "A/s",
]
# dimensions of the above as computed by hand: (kg, m, s, K, rad, A)
FACTORS = {
    "dimless": (0, 0, 0, 0, 0, 0), "degC": (0, 0, 0, 1, 0, 0), "m2": (0, 2, 0, 0, 0, 0), "m3": (0, 3, 0, 0, 0, 0), "m/s": (0, 1, -1, 0, 0, 0),
    "m/s2": (0, 1, -2, 0, 0, 0), "N/m": (1, 0, -2, 0, 0, 0), "A/m": (0, -1, 0, 0, 0, 1), "V/m": (1, 1, -3, 0, 0, -1), "kg/m3": (1, -3, 0, 0, 0, 0),
    "W/m2": (1, 0, -3, 0, 0, 0), "H/m": (1, 1, -2, 0, 0, -2), "F/m": (-1, -3, 4, 0, 0, 2), "m/s/h": (0, 1, -2, 0, 0, 0), "m*s": (0, 1, 1, 0, 0, 0),
    "s2": (0, 0, 2, 0, 0, 0), "A2": (0, 0, 0, 0, 0, 2), "T*m": (1, 1, -2, 0, 0, -1), "J/degC": (1, 2, -2, -1, 0, 0), "Ns": (1, 1, -1, 0, 0, 0), "A/s": (0, 0, -1, 0, 0, 1),
}


def dims(u):
    return FACTORS[u] if u in FACTORS else SYM[u][1]


def configs(tier):
    out = []
    for sym in SYM:
        for p in (1, 2, 3, -1):
            out.append({"name": "prefix-%s-%d" % (sym, p), "kind": "prefix", "sym": sym, "p": p})
    for i, (a, b, c) in enumerate(EQUAL):
        out.append({"name": "equal-%d-%s-%s" % (i, a, b), "kind": "equal", "a": a, "b": b, "c": c})
    for u in DIFFERENT:
        out.append({"name": "refuse-" + u, "kind": "refuse", "u": u})
    for cls in ("time", "freq"):
        for shape in ([3], [2, 2], [2, 1, 2]):
            for sym in ({}, {"period": 2}, {"antiperiod": 2}):
                for a, b, c in (("T", "mT", 1e3), ("m/s2", "km/h2", 12960), ("N/m^2", "kPa", 1e-3), ("Nm", "mJ", 1e3)):
                    out.append({"name": "field-%s-%s-%s-%s" % (cls, shape, sym, a), "kind": "field", "cls": cls, "shape": shape, "sym": sym, "a": a, "b": b, "c": c})
    for kind in ("1D", "lin"):
        for sym in ({}, {"period": 2}, {"antiperiod": 2}, {"antiperiod": 4}):
            for n in (2, 3):
                out.append({"name": "axis-%s-%d-%s" % (kind, n, sym), "kind": "axis", "ax": kind, "n": n, "sym": sym})
    for n in (2, 4):
        for sym in ({}, {"period": 2}, {"antiperiod": 2}):
            out.append({"name": "spectral-%d-%s" % (n, sym), "kind": "spectral", "n": n, "sym": sym})
    out.append({"name": "bark", "kind": "bark"})
    out.append({"name": "bark-axis", "kind": "bark-axis"})
    return out


def run(ctx, cfg):
    s = dt()
    from SciDataTool.Functions import UnitError
    from SciDataTool.Functions.conversions import convert

    kind = cfg["kind"]
    if kind == "prefix":
        sym, p = cfg["sym"], cfg["p"]
        base, _ = SYM[sym]
        x = ctx.reals("x", (1,))
        x0 = x[0]
        pw = "" if p == 1 else str(p)
        ref = sym + pw
        for pre, e in PREFIX.items():
            u = pre + sym + pw
            if pre + sym in CLASH or pre == "":
                continue
            if p not in (1,) and pre not in ("k", "m", "c", "µ", "M", "da", "h", "d"):
                continue
            f = 10.0 ** (e * p)
            y = convert(x, u, ref)
            ctx.eq(y[0] / f, x[0], "%s in %s" % (u, ref))
            y = convert(x, ref, u)
            ctx.eq(y[0] * f, x[0], "%s in %s" % (ref, u))
            if pre in ("k", "m", "c"):
                v = "d" + sym + pw
                if "d" + sym not in CLASH:
                    ctx.eq(convert(x, u, v)[0] / f * 10.0 ** (-p), x[0], "%s in %s" % (u, v))
                    ctx.eq(convert(convert(x, u, v), v, u)[0], x[0], "%s to %s and back" % (u, v))
        si = {"°": "rad", "rpm": "rad/s", "min": "s", "Mx": "Wb", "G": "T", "h": "s", "g": "kg"}.get(sym)
        if si and p == 1:
            ctx.eq(convert(x, sym, si)[0] / base, x[0], "%s in %s" % (sym, si))
            ctx.eq(convert(x, si, sym)[0] * base, x[0], "%s in %s" % (si, sym))
        ctx.eq(convert(x, ref, ref)[0], x[0], "same unit")
        ctx.eq(x[0], x0, "argument kept")
    elif kind == "equal":
        a, b, c = cfg["a"], cfg["b"], cfg["c"]
        x = ctx.reals("x", (2,))
        y = convert(x, a, b)
        ctx.eq([v / c for v in y], [x[0], x[1]], "%s in %s" % (a, b))
        ctx.eq([v * c for v in convert(x, b, a)], [x[0], x[1]], "%s in %s" % (b, a))
        ctx.eq(convert(convert(x, a, b), b, a), [x[0], x[1]], "%s to %s and back" % (a, b))
        t = s.Data1D(name="time", unit="s", values=ctx.arr([0.0, 1.0]))
        d = s.DataTime(name="f", symbol="X", unit=a, axes=[t], values=x)
        ctx.eq([v / c for v in d.get_along("time", unit=b)["X"]], [x[0], x[1]], "field in %s asked in %s" % (a, b))
        ctx.eq(d.get_along("time", unit=a)["X"], [x[0], x[1]], "field in its own unit")
        ctx.eq(d.get_along("time")["X"], [x[0], x[1]], "field in SI")
    elif kind == "refuse":
        x = ctx.reals("x", (2,))
        a = cfg["u"]
        t = s.Data1D(name="time", unit="s", values=ctx.arr([0.0, 1.0]))
        d = s.DataTime(name="f", symbol="X", unit=a, axes=[t], values=x)
        ax = s.Data1D(name="pos", unit=a, values=x)
        for b in DIFFERENT + ["foo", "mxyz", "Nq", "m/foo"]:
            if b in DIFFERENT and dims(a) == dims(b):
                continue
            ctx.raises(UnitError, lambda: convert(x, a, b), "%s refused in %s" % (a, b))
            ctx.raises(UnitError, lambda: d.get_along("time", unit=b), "field in %s refused in %s" % (a, b))
            ctx.raises(UnitError, lambda: ax.get_values(unit=b), "axis in %s refused in %s" % (a, b))
        ctx.eq(d.get_along("time")["X"], [x[0], x[1]], "values")
    elif kind == "field":
        shape = tuple(cfg["shape"])
        a, b, c = cfg["a"], cfg["b"], cfg["c"]
        freq = cfg["cls"] == "freq"
        x = (ctx.complexes if freq else ctx.reals)("x", shape)
        names = ["freqs" if freq else "time", "z", "w"][: len(shape)]
        axes = [
            s.Data1D(name=nm, unit="Hz" if nm == "freqs" else "s" if nm == "time" else "m", values=ctx.arr([0.5 * i for i in range(n)]), symmetries=dict(cfg["sym"]) if nm != "freqs" and k == 0 else {})
            for k, (nm, n) in enumerate(zip(names, shape))
        ]
        cls = s.DataFreq if freq else s.DataTime
        d = cls(name="f", symbol="X", unit=a, axes=axes, values=x, is_real=not freq)
        pos = [rebuild([0] * n, cfg["sym"] if k == 0 and not freq else {}) for k, n in enumerate(shape)]
        F = np.empty(tuple(len(p) for p in pos), dtype=object)
        for i in np.ndindex(*F.shape):
            sg, ix = 1, []
            for p, q in zip(pos, i):
                sg *= p[q][1]
                ix.append(p[q][0])
            F[i] = sg * x[tuple(ix)]
        F = np.squeeze(F)
        want = nest(F.shape, lambda *i: F[i])
        y = d.get_along(*names, unit=b)["X"]
        ctx.eq(y * (1.0 / c), want, "field in another unit", tol=1e-3)
        d2 = cls(name="f", symbol="X", unit=b, axes=axes, values=d.get_along(*[n + "[smallestperiod]" for n in names], unit=b)["X"].reshape(shape), is_real=not freq)
        ctx.eq(d2.get_along(*names, unit=a)["X"], want, "there and back")
        one = d.get_along(*[n + "[0]" for n in names], unit=b)["X"]
        ctx.eq(one / c, F[(0,) * F.ndim], "one sample in another unit")
        if not freq:
            ctx.eq(d.get_magnitude_along(names[0], unit=b)["X"] * (1.0 / c), d.get_magnitude_along(names[0])["X"], "magnitude in another unit")
            sp, sb = d.get_along("freqs")["X"], d.get_along("freqs", unit=b)["X"]
            ctx.eq(sb * (1.0 / c), sp, "spectrum in another unit")
        ctx.true(d.unit == a, "unit of the field kept")
    elif kind == "axis":
        n, sym = cfg["n"], cfg["sym"]
        t0 = ctx.real("t0", -1e6, 1e6)
        h = ctx.real("h", 1e-3, 1e6)
        vals = [t0 + i * h for i in range(n)]
        x = ctx.reals("x", (n,))
        for name, unit, u, c in (("time", "s", "ms", 1e3), ("time", "s", "min", 1 / 60), ("angle", "rad", "°", 180 / math.pi), ("z", "mm", "m", 1e-3), ("time", "h", "s", 3600), ("speed", "rpm", "rad/s", math.pi / 30)):
            kw = {"name": name, "unit": unit, "symmetries": dict(sym)}
            if cfg["ax"] == "1D":
                ax = s.Data1D(values=ctx.arr(vals), **kw)
            else:
                ax = s.DataLinspace(initial=t0, final=t0 + (n - 1) * h, number=n, include_endpoint=True, **kw)
            d = s.DataTime(name="f", symbol="X", unit="T", axes=[ax], values=x)
            full = [t0 + i * h for i in range(n * sym.get("period", sym.get("antiperiod", 1)))]
            ctx.eq([v / c for v in ax.get_values(unit=u)], full, "axis in %s" % u)
            ctx.eq([v / c for v in ax.get_values(unit=u, is_smallestperiod=True)], vals, "stored axis in %s" % u)
            ctx.eq(ax.get_values(unit=unit), full, "axis in its unit")
            r = d.get_along("%s{%s}" % (name, u))
            ctx.eq([v / c for v in r[name]], full, "axis of the field in %s" % u)
            ctx.eq(r["X"], d.get_along(name)["X"], "values do not depend on the unit of the axis")
            r = d.get_along("%s[1]{%s}" % (name, u))
            ctx.eq([v / c for v in r[name]], [full[1]], "selected position in %s" % u)
            ctx.eq(ax.get_values(), full, "axis kept")
    elif kind == "spectral":
        n, sym = cfg["n"], cfg["sym"]
        x = ctx.reals("x", (n,))
        t = s.Data1D(name="time", unit="s", values=ctx.arr([0.125 * i for i in range(n)]), symmetries=dict(sym))
        d = s.DataTime(name="f", symbol="X", unit="T", axes=[t], values=x)
        f = d.get_along("freqs")["freqs"]
        ctx.eq(d.get_along("freqs{kHz}")["freqs"], [v / 1e3 for v in f], "frequencies in kHz", tol=1e-9)
        ctx.eq(d.get_along("freqs{mHz}")["freqs"], [v * 1e3 for v in f], "frequencies in mHz", tol=1e-9)
        fr = d.time_to_freq()
        ctx.eq(fr.get_along("freqs{kHz}")["freqs"], [v / 1e3 for v in f], "stored frequencies in kHz", tol=1e-9)
        ctx.eq(fr.get_along("time{ms}")["time"], [v * 1e3 for v in d.get_along("time")["time"]], "time of the spectrum in ms", tol=1e-9)
        ctx.eq(fr.get_along("time{ms}")["X"], d.get_along("time")["X"], "signal of the spectrum", tol=1e-3)
        ctx.eq(d.get_along("freqs{kHz}")["X"], d.get_along("freqs")["X"], "spectrum", tol=1e-3)
        a = s.Data1D(name="angle", unit="rad", values=ctx.arr([2 * math.pi / n / sym.get("period", sym.get("antiperiod", 1)) * i for i in range(n)]), symmetries=dict(sym))
        d = s.DataTime(name="f", symbol="X", unit="T", axes=[a], values=x)
        ctx.eq(d.time_to_freq().get_along("angle{°}")["angle"], [v * 180 / math.pi for v in d.get_along("angle")["angle"]], "angle of the spectrum in degrees", tol=1e-9)
    elif kind == "bark":
        f = ctx.real("f", 0, 2e4)
        z = convert(f, "Hz", "Bark")
        ctx.eq((z + 0.53) * (1960 + f), 26.81 * f, "critical band of a frequency")
        ctx.eq(convert(z, "Bark", "Hz"), f, "Bark and back")
    elif kind == "bark-axis":
        f = ctx.increasing("f", 3, 0, 2e4, 1)
        x = ctx.complexes("x", (3,))
        ax = s.Data1D(name="freqs", unit="Hz", values=ctx.arr(list(f)))
        d = s.DataFreq(name="f", symbol="X", unit="T", axes=[ax], values=x)
        r = d.get_along("freqs{Bark}")
        for i in range(3):
            ctx.eq((r["freqs"][i] + 0.53) * (1960 + f[i]), 26.81 * f[i], "critical band axis")
        ctx.eq(r["X"], [x[0], x[1], x[2]], "values on the critical band axis")
