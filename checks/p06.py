"""Derivative, antiderivative and local integral."""
import cmath
import math

import numpy as np

from .common import dt, nest, rebuild, dft

BOUNDS = (
    "1 to 3 axes of 2 to 5 stored samples; time, angle or z axis of symbolic start and fixed step, increasing or decreasing, or non "
    "uniform, without symmetry, period 2..3, antiperiod 2 or 4; signals asked from their spectrum; spectra of 2 to 4 fixed frequencies, and "
    "derivative of the spectrum of a 4 sample signal; real and complex fields |x|<=1e9"
)
ASSUMPTIONS = [
    "the signal is periodic, of period one step more than the axis: this is the definition taken in the statement",
]


def configs(tier):
    out = []

    def add(axes, k, op, kind="uni", cplx=False):
        name = "%s-%s@%d-%s%s" % (
            op,
            "_".join("%s%d%s" % (a, n, "".join(q[0] + str(v) for q, v in sym.items())) for a, n, sym in axes),
            k,
            kind,
            "-c" if cplx else "",
        )
        out.append({"name": name, "axes": axes, "k": k, "op": op, "kind": kind, "cplx": cplx})

    for op in ["derivate", "antiderivate", "integrate_local"]:
        for sym in [{}, {"period": 2}, {"period": 3}, {"antiperiod": 2}, {"antiperiod": 4}]:
            for nm in ["time", "angle"] + (["z"] if op != "integrate_local" else []):
                for n in (3, 4) if tier == "quick" else (2, 3, 4, 5, 6):
                    add([[nm, n, sym]], 0, op)
            add([["z", 2, {}], ["time", 3, sym]], 1, op)
            add([["time", 3, sym], ["angle", 2, {}]], 0, op)
            add([["slice", 2, {}], ["time", 3, sym], ["angle", 2, {"antiperiod": 2}]], 1, op)
            add([["slice", 2, {}], ["z", 2, {}], ["angle", 3, sym]], 2, op)
            add([["time", 2, sym]], 0, op)
        for sym in [{}, {"period": 2}, {"antiperiod": 2}]:
            for kind in ("uni", "down"):
                add([["time", 3, sym]], 0, op, kind, cplx=True)
                add([["slice", 2, {}], ["angle", 3, sym]], 1, op, kind, cplx=True)
            add([["angle", 4, sym]], 0, op, "down")
            add([["time", 3, sym], ["slice", 2, {}]], 0, op, "down")
        add([["slice", 2, {}], ["foo", 3, {}], ["time", 4, {}]], 2, op)
        add([["slice", 2, {}], ["foo", 3, {}], ["time", 4, {"antiperiod": 2}]], 2, op)
        add([["time", 4, {}]], 0, op, "nonuni")
        add([["z", 2, {}], ["angle", 5, {}]], 1, op, "nonuni")
        add([["time", 4, {}]], 0, op, "symh")
        for sym in [{}, {"period": 2}, {"period": 3}]:
            add([["time", 4, sym]], 0, op, "spec")
            add([["angle", 3, sym]], 0, op, "spec")
            add([["z", 2, {}], ["time", 2, sym]], 1, op, "spec")
            add([["time", 4, {}], ["angle", 3, sym]], 1, op, "spec")
            add([["time", 2, sym], ["angle", 2, sym]], 0, op, "spec")
        add([["time", 3, {"antiperiod": 2}]], 0, op, "symh")
    for op in ["derivate", "antiderivate"]:
        add([["freqs", 3, {}]], 0, op, cplx=True)
        add([["freqs", 3, {}]], 0, op, "dec", cplx=True)
        add([["z", 2, {}], ["freqs", 3, {}]], 1, op, cplx=True)
        add([["freqs", 2, {"antiperiod": 2}], ["angle", 2, {"antiperiod": 2}]], 0, op, cplx=True)
        add([["z", 2, {}], ["freqs", 3, {}], ["angle", 2, {}]], 1, op, cplx=True)
    for sym in [{}, {"antiperiod": 2}, {"period": 2}]:
        add([["time", 4, sym]], 0, "fft-derivate")
        add([["z", 2, {}], ["time", 4, sym]], 1, "fft-derivate")
    add([["z", 3, {}]], 0, "zlocal")
    add([["time", 2, {}], ["z", 3, {}]], 1, "zlocal")
    add([["z", 4, {}], ["time", 2, {}]], 0, "zlocal")
    add([["z", 3, {"period": 2}]], 0, "zlocal")
    add([["z", 3, {}]], 0, "zlocal", "down")
    add([["slice", 2, {}], ["z", 4, {}], ["time", 3, {}]], 1, "zlocal", "down", cplx=True)
    add([["slice", 2, {}], ["time", 3, {}], ["z", 4, {}]], 2, "zlocal")
    add([["z", 4, {}]], 0, "zlocal", "nonuni")
    return out


def run(ctx, cfg):
    s = dt()
    shape = tuple(a[1] for a in cfg["axes"])
    k = cfg["k"]
    x = (ctx.complexes if cfg["cplx"] else ctx.reals)("x", shape)
    axes = []
    for j, (name, n, sym) in enumerate(cfg["axes"]):
        if j == k and name == "freqs":
            v = [10.0, 25.0, 30.0][:n] if cfg["kind"] != "dec" else [-20.0, 15.0, 45.0]
        elif j == k and cfg["kind"] == "nonuni":
            v = [0.5, 0.75, 1.5, 1.75, 2.75][:n]
        elif cfg["kind"] == "spec":
            per = n * list(sym.values() or [1])[0]
            v = [(2 * math.pi / per if name == "angle" else 0.25) * i for i in range(n)]
        elif j == k and cfg["kind"] == "symh":
            h = ctx.real("h", 0.25, 4)
            v = [i * h for i in range(n)]
            ctx.B = 1e4
        elif j == k and not cfg["op"].startswith("fft"):
            a = ctx.real("a", -100, 100)
            v = [a + (-0.5 if cfg["kind"] == "down" else 0.5) * i for i in range(n)]
        else:
            v = [0.25 * i for i in range(n)]
        unit = {"time": "s", "angle": "rad"}.get(name, "m") if cfg["kind"] == "spec" else "m"
        axes.append(s.Data1D(name=name, unit=unit, values=ctx.arr(v), symmetries=dict(sym)))
        if j == k:
            ax = v
            ksym = sym
    cls = s.DataFreq if any(a[0] == "freqs" for a in cfg["axes"]) else s.DataTime
    d = cls(name="f", symbol="X", unit="T", axes=axes, values=x)
    if cfg["kind"] == "spec":
        # the signal is asked from its spectrum
        d = d.time_to_freq()
    pos = []
    for j, (name, n, sym) in enumerate(cfg["axes"]):
        pos.append(rebuild([0] * n, {} if j == k else sym))
    F = np.empty(tuple(len(p) for p in pos), dtype=object)
    for i in np.ndindex(*F.shape):
        sg = 1
        ix = []
        for p, q in zip(pos, i):
            ix.append(p[q][0])
            sg *= p[q][1]
        F[i] = sg * x[tuple(ix)]
    op = cfg["op"]
    name = cfg["axes"][k][0]
    req = [a[0] for a in cfg["axes"]]
    sg = -1 if "antiperiod" in ksym else 1

    def line(y):
        n = len(y)
        if name == "freqs":
            if op == "derivate":
                return [y[i] * (2j * math.pi * ax[i]) for i in range(n)]
            return [y[i] * (1 / (2j * math.pi * ax[i])) for i in range(n)]
        if op == "fft-derivate":
            # the spectrum of one full period, times 2 pi j f
            full = list(y) + ([-e for e in y] if sg < 0 else [])
            N = len(full)
            T = N * 0.25
            out = []
            for q in range(N // 2 + 1):
                c = dft(full, q)
                c = c * ((2.0 if q > 0 else 1.0) / N)
                out.append(c * (2j * math.pi * q / T))
            return out
        seg = [(y[i] + y[i + 1]) * (ax[i + 1] - ax[i]) / 2 for i in range(n - 1)]
        if op == "derivate":
            yf = [sg * y[-1]] + list(y) + [sg * y[0]]
            af = [2 * ax[0] - ax[1]] + list(ax) + [ax[-1] + ax[1] - ax[0]]
            out = []
            for i in range(1, n + 1):
                a, b = af[i] - af[i - 1], af[i + 1] - af[i]
                # slope at i of the parabola through the three samples
                out.append(
                    ((yf[i + 1] - yf[i]) / b * a + (yf[i] - yf[i - 1]) / a * b) / (a + b)
                )
            return out
        if op == "antiderivate":
            c = [0]
            for e in seg:
                c.append(c[-1] + e)
            if sg < 0:
                last = c[-1] + (y[-1] - y[0]) * (ax[1] - ax[0]) / 2
                const = last / 2
            else:
                const = ctx.sumof(c) / n
            return [e - const for e in c]
        if op == "integrate_local":
            out = [0] * n
            for i, e in enumerate(seg):
                out[i] = out[i] + e / 2
                out[i + 1] = out[i + 1] + e / 2
            return out
        if op == "zlocal":
            return seg

    G = np.moveaxis(F, k, -1)
    n_out = len(line(list(G[(0,) * (G.ndim - 1)])))
    H = np.empty(G.shape[:-1] + (n_out,), dtype=object)
    for i in np.ndindex(*G.shape[:-1]):
        w = line(list(G[i]))
        for q in range(n_out):
            H[i + (q,)] = w[q]
    W = np.squeeze(np.moveaxis(H, -1, k))
    if op == "fft-derivate":
        req[k] = "freqs=derivate"
        rname = "freqs"
    else:
        req[k] = name + "=" + ("integrate_local" if op == "zlocal" else op)
        rname = name
    r = d.get_along(*req)
    ctx.eq(r["X"], nest(W.shape, lambda *i: W[i]), "%s" % op)
    if op == "zlocal":
        ctx.eq(r[rname], [(ax[i] + ax[i + 1]) / 2 for i in range(len(ax) - 1)], "middle of the segments", tol=1e-6)
    elif op == "fft-derivate":
        N = len(ax) * (2 if sg < 0 else 1)
        ctx.eq(r[rname], [q / (N * 0.25) for q in range(N // 2 + 1)], "frequencies", tol=1e-6)
    else:
        ctx.eq(r[rname], ax, "axis", tol=1e-6)
