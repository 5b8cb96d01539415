"""Fourier transforms on non-uniform samples or frequencies."""
import cmath
import math

import numpy as np

from .common import dt, nest, rebuild

BOUNDS = (
    "1 to 3 axes (time, angle, another one) of 2 to 6 samples in any order; uniform and non-uniform axes, starting at zero or not; "
    "1 to 7 requested frequencies, wavenumbers, times or angles, on or off the regular lines, positive or of both signs, "
    "given by axis_data or as a list; real and complex fields, |x|<=1e9; the sample positions are numbers"
)
ASSUMPTIONS = ["sample positions and requested frequencies are the listed numbers (the field values are symbolic)"]

UNI4 = [0.0, 0.25, 0.5, 0.75]
NON4 = [0.0, 0.125, 0.5, 0.75]
OFF3 = [0.5, 0.75, 1.25]
UNI3 = [0.0, 0.5, 1.0]
ANG4 = [0.0, math.pi / 2, math.pi, 3 * math.pi / 2]
ANG3 = [0.0, 1.0, 4.0]
F_POS = [[0, 1.5, 2], [0.5, 1.25], [0, 0.75, 1, 1.75], [1.5, 0.25, 0]]
F_ANY = [[-1.5, 0, 1], [-0.5, 0.5], [2.5, -1]]
T_ANY = [[0.0, 0.3, 0.5], [0.0, 0.25, 0.5, 0.75], [0.1, 0.2], [0.0, 0.2, 0.4], [0.7, 0.1, 0.2], [0.0, 1.0, 2.0]]


def configs(tier):
    out = []

    def add(kind, axes, cplx=False, text=False, units=None):
        name = "%s-%s%s%s%s" % (
            kind,
            "_".join("%s%s%s@%s" % (a[0], a[1], "".join(q[0] + str(v) for q, v in a[3].items()) if len(a) > 3 else "", a[2]) for a in axes),
            "-c" if cplx else "",
            ("-" + str(text)) if text else "",
            "-%s" % units if units else "",
        )
        out.append({"name": name.replace(" ", ""), "kind": kind, "axes": axes, "cplx": cplx, "text": text, "units": units})

    for tax in (UNI4, NON4, OFF3, UNI3):
        for fs in F_POS + F_ANY:
            for cplx in (False, True):
                add("fwd", [["time", tax, fs]], cplx)
            if len(fs) > 2:
                add("fwd", [["time", tax, fs]], text=True)
            add("fwd", [["time", tax, fs], ["z", [0.0, 1.0], "keep"]])
            add("fwd", [["z", [0.0, 1.0], "keep"], ["time", tax, fs]])
            add("fwd", [["z", [0.0, 1.0], "first"], ["time", tax, fs]])
    for aax in (ANG4, ANG3):
        for fs in F_POS + F_ANY:
            add("fwd", [["angle", aax, fs]])
            add("fwd", [["angle", aax, fs]], True)
            if len(fs) > 2:
                add("fwd", [["angle", aax, fs]], text=True)
        add("fwd", [["time", UNI4, "whole"], ["angle", aax, [0, 1.5, 2]]])
        add("fwd", [["angle", aax, [0, 1.5, 2]], ["time", UNI4, "whole"]])
        add("fwd", [["time", UNI4, "whole"], ["angle", aax, [-1.5, 1]]])
        add("fwd", [["time", UNI4, [0, 1, 1.5]], ["angle", aax, [-1.5, 1]]])
        add("fwd", [["time", NON4, [0, 1, 1.5]], ["angle", aax, [-1.5, 1]]])
        add("fwd", [["angle", aax, [-1.5, 1]], ["time", NON4, [0, 1, 1.5]]])
        add("fwd", [["time", NON4, "keep"], ["angle", aax, [-1.5, 1]]])
    for tax in (UNI4, NON4):
        add("fwd", [["time", tax, [0, 1, 1.5]], ["angle", ANG4, "whole"]])
        add("fwd", [["angle", ANG4, "whole"], ["time", tax, [0, 1, 1.5]]])
        add("fwd", [["time", tax, [0, 1, 1.5]], ["angle", ANG4, "keep"]])
        add("fwd", [["time", tax, [-2, 1, 1.5]], ["angle", ANG4, "whole"]], True)
        add("fwd", [["z", [0.0, 1.0], "keep"], ["time", tax, [0, 1, 1.5]], ["angle", ANG4, "whole"]])
    # longer requests, samples and requests in any order
    UNI6, NON6 = [0.125 * i for i in range(6)], [0.0, 0.125, 0.5, 0.625, 0.75, 1.5]
    DOWN4, MIX4 = [0.75, 0.5, 0.25, 0.0], [0.5, 0.0, 0.75, 0.25]
    for tax in (UNI6, NON6, DOWN4, MIX4, UNI4):
        for fs in ([0, 0.5, 1, 1.5, 2], [0.25, 0.75, 1.0, 1.5, 2.5, 3.5, 4.5], [3, 0, 1.5, 1, 2.5], [-2, -1.5, 0, 1, 1.75, 2], [0, 1, 2], [2, 1, 0], [-1, 0, 1], [1, -1]):
            add("fwd", [["time", tax, fs]])
            add("fwd", [["z", [0.0, 1.0], "keep"], ["time", tax, fs]], True)
    for tax in (DOWN4, MIX4):
        aax = [v * 2 * math.pi for v in tax]
        for fs in ([0, 1, 2], [2, 1], [-1, 0, 1], [0, 0.5, 1, 1.5, 2]):
            add("fwd", [["angle", aax, fs]])
            add("fwd", [["time", NON4, "keep"], ["angle", aax, fs]])
    for fs in ([0.0, 1.0, 2.0], [0.0, 1.0, 2.5], [2.0, 1.0, 0.0]):
        for ts in (DOWN4, MIX4, UNI6, NON6):
            add("inv", [["freqs", fs, ts]])
            add("inv", [["z", [0.0, 1.0], "keep"], ["freqs", fs, ts]], True)
    for ws in ([-1.0, 0.0, 1.0], [1.0, 0.0, -1.0]):
        for ts in (DOWN4, MIX4):
            add("inv", [["wavenumber", ws, [v * 2 * math.pi for v in ts]]])
    for sym in ({"period": 2}, {"antiperiod": 2}, {"antiperiod": 4}, {"period": 3}):
        add("fwd", [["time", [0.0, 0.25, 0.5], [0, 1.5, 2], sym]])
        add("fwd", [["time", [0.0, 0.25], [-1.5, 2], sym], ["z", [0.0, 1.0], "keep"]])
        add("fwd", [["angle", [0.0, 0.25, 0.5], [0, 1.5, 2], sym]])
    # a single line: off the regular lines it is summed at the frequency itself
    for tax, fl in ((UNI4, [13.0, 7.0, -3.6, 3.4, 1.2, 1.8, 0.3]), (UNI3, [13.0, 4.0, -6.0]), ([0.0, 0.01, 0.02, 0.03], [13.0, 62.5, -13.0, 25.3, 49.6]), (NON4, [1.5])):
        for f in fl:
            for cplx in (False, True):
                if cplx and f in (1.2, 1.8, 25.3, 49.6):
                    continue  # above the last line of a complex spectrum
                for text in (False, "one"):
                    add("fwd", [["time", tax, [f]]], cplx, text)
            add("fwd", [["time", tax, [f]], ["z", [0.0, 1.0], "keep"]], text="one")
            add("fwd", [["z", [0.0, 1.0], "keep"], ["time", tax, [f]]], text="one")
            add("fwd", [["time", tax, [f]], ["angle", ANG4, "whole"]], text="one")
    for f in (7.0, 5.6, -3.4, 0.7, -0.8):
        for aax in (ANG4, ANG3):
            add("fwd", [["angle", aax, [f]]], text="one")
            add("fwd", [["time", UNI4, "whole"], ["angle", aax, [f]]], text="one")
    # inverse
    for fs in ([0.0, 1.0, 2.5], [0.5, 2.0], [0.0, 1.0, 2.0], [-1.0, 0.0, 1.5], [1.5]):
        for ts in T_ANY:
            if fs == [0.0, 1.0, 2.0] and ts == UNI4:
                continue  # regular in both domains: see the round trip property
            for cplx in (False, True):
                add("inv", [["freqs", fs, ts]], cplx)
            add("inv", [["freqs", fs, ts], ["z", [0.0, 1.0], "keep"]])
            if len(ts) > 2:
                add("inv", [["freqs", fs, ts]], text=True)
        add("inv", [["freqs", fs, [0.0, 0.3, 0.5]], ["wavenumber", [-1.0, 0.0, 1.0], [0.0, 0.3, 2.5]]])
        add("inv", [["wavenumber", [-1.0, 0.0, 1.0], [0.0, 0.3, 2.5]], ["freqs", fs, [0.0, 0.3, 0.5]]])
        add("inv", [["freqs", fs, [0.0, 0.3, 0.5]], ["wavenumber", [-1.0, 0.0, 1.0], "keep"]])
        add("inv", [["z", [0.0, 1.0], "first"], ["freqs", fs, [0.0, 0.3, 0.5]]])
    for ws in ([-1.0, 0.0, 1.0], [0.0, 1.0, 2.5], [2.0, 4.0]):
        for an in ([0.0, 0.3, 2.5], [0.1, 0.2], [0.0, 2.0, 4.5]):
            for cplx in (False, True):
                add("inv", [["wavenumber", ws, an]], cplx)
    # uniform time with non-uniform angle
    add("inv", [["freqs", [0.0, 1.0, 2.0], "whole"], ["wavenumber", [-1.0, 0.0, 1.0], [0.0, 0.3, 2.5]]])
    add("inv", [["wavenumber", [-1.0, 0.0, 1.0], [0.0, 0.3, 2.5]], ["freqs", [0.0, 1.0, 2.0], "whole"]])
    return list({c["name"]: c for c in out}.values())


def run(ctx, cfg):
    s = dt()
    cplx = cfg["cplx"]
    fwd = cfg["kind"] == "fwd"
    axes, kern, expax, req, data = [], [], {}, [], {}
    stored = []
    other = {"time": "freqs", "angle": "wavenumber", "freqs": "time", "wavenumber": "angle"}
    units = {"time": "s", "angle": "rad", "freqs": "Hz", "wavenumber": "", "z": "m"}
    for a in cfg["axes"]:
        name, vals, ask = a[:3]
        sym = a[3] if len(a) > 3 else {}
        axes.append(s.Data1D(name=name, unit=units[name], values=ctx.arr(vals), symmetries=dict(sym)))
        n = len(vals)
        stored.append(n)
        if ask == "first":
            kern.append([[1] + [0] * (n - 1)])
            continue
        if ask == "keep":
            kern.append([[1 if i == j else 0 for j in range(n)] for i in range(n)])
            req.append(name)
            expax[name] = vals
            continue
        new = other[name]
        w = 1 if name in ("angle", "wavenumber") else 2 * math.pi
        if fwd:
            # one period of the signal
            per = rebuild(vals, {"antiperiod": 2} if "antiperiod" in sym else {})
            h = vals[1] - vals[0]
            ts = vals + [vals[-1] + (i + 1) * h for i in range(len(per) - n)]
            N = len(ts)
            if ask == "whole":
                if name == "time":
                    fl = [k / (N * h) for k in range(N // 2 + 1)] if not cplx else [k / (N * h) for k in range(-(N // 2), N - N // 2)]
                    sc = [(1 if (k == 0 or cplx) else 2) for k in fl]
                else:
                    fl = [k for k in range(-(N // 2), N - N // 2)]
                    sc = [1] * len(fl)
                req.append(new)
            else:
                fl = ask
                h = ts[1] - ts[0]
                regular = all(abs(b - a - h) < 1e-9 for a, b in zip(ts, ts[1:]))
                if len(ask) == 1 and regular:
                    # a single value next to a regular line stands for this line
                    lines = [k / (N * h) if name == "time" else k for k in range(0 if name == "time" and not cplx else -(N // 2), N - N // 2 + (1 if N % 2 == 0 and not cplx and name == "time" else 0))]
                    fl = [min(lines, key=lambda v: abs(v - f)) if round(f) in map(round, lines) else f for f in ask]
                sc = [2 if (min(fl) >= 0 and f != 0) else 1 for f in fl]
                if fl != ask and name == "angle":
                    sc = [1]  # a line of the two-sided spectrum
            M = []
            for f, c in zip(fl, sc):
                row = [0] * n
                for (i, sg), t in zip(per, ts):
                    row[i] = row[i] + sg * c * cmath.exp(-1j * w * f * t) / N
                M.append(row)
        else:
            if ask == "whole":
                K = n - 1
                fl = [i / (2 * K * vals[1]) for i in range(2 * K)]
                req.append(new)
            else:
                fl = ask
            # between regular lines and times the last line stands for two (see the round trip property)
            last = 0.5 if ask == "whole" else 1
            M = [[cmath.exp(1j * w * f * t) * (last if f == vals[-1] else 1) for f in vals] for t in fl]
        kern.append(M)
        expax[new] = ask if ask != "whole" else fl
        if ask != "whole":
            if cfg["text"] == "one":
                req.append("%s=%r" % (new, ask[0]))
            elif cfg["text"]:
                req.append("%s=[%s]" % (new, ",".join(repr(v) for v in ask)))
            else:
                req.append(new + "=axis_data")
                data[new] = np.array(ask, dtype=float)
    shape = tuple(stored)
    x = (ctx.complexes if (cplx or not fwd) else ctx.reals)("x", shape)
    cls = s.DataTime if fwd else s.DataFreq
    d = cls(name="f", symbol="X", unit="T", axes=axes, values=x, is_real=not cplx)
    r = d.get_along(*req, axis_data=data)
    for name, vals in expax.items():
        ctx.eq(r[name], vals, "axis " + name, tol=1e-9)
    E = np.empty(tuple(len(M) for M in kern), dtype=object)
    for i in np.ndindex(*E.shape):
        acc = 0
        for j in np.ndindex(*shape):
            k = 1
            for M, p, q in zip(kern, i, j):
                k = k * M[p][q]
                if k == 0:
                    break
            if k != 0:
                acc = acc + k * x[j]
        E[i] = acc
    if not fwd and not cplx and cfg["axes"][-1][0] == "wavenumber" and cfg["axes"][-1][2] == "keep":
        # spatial lines of the real signal
        S = E.copy()
        n = E.shape[-1]
        for i in np.ndindex(*E.shape):
            j = i[:-1] + (n - 1 - i[-1],)
            E[i] = (S[i] + np.conjugate(S[j])) * 0.5
    elif not fwd and not cplx:
        for i in np.ndindex(*E.shape):
            E[i] = ctx.re(E[i])
    E = np.squeeze(E)
    ctx.eq(r["X"], nest(E.shape, lambda *i: E[i]), "values")
