"""The spectrum is the scaled discrete Fourier transform."""
import math

import numpy as np

from .common import dt, nest, rebuild, unit_root

BOUNDS = (
    "1 to 3 axes; time and angle axes of 1 to 8 stored samples, from zero or around zero, without symmetry, "
    "period 2..3 or antiperiod 2 or 4; transform of time, angle or both, the other axes whole, indexed or not "
    "requested; lines selected by index, list, interval or not; real and complex signals |x|<=1e9; symbolic "
    "time step for the frequencies"
)
ASSUMPTIONS = [
    "phases are relative to the first sample of the axis",
    "uniform axes that contain zero (others are given to the non uniform transform, P09)",
    "single sided convention of the library: every line but zero counts twice for the time axis of a real "
    "signal (also the last line of an even number of samples), and for wavenumbers when only non negative "
    "ones are requested without frequencies",
]


def configs(tier):
    out = []

    def add(axes, req, cplx=False, start=0, symh=False):
        """axes [name, n, sym]; req per axis: '' whole, 'F' transformed, 'F[..]' lines, '[i]', None"""
        name = "%s-%s%s%s%s" % (
            "_".join("%s%d%s" % (a, n, "".join(q[0] + str(v) for q, v in sym.items())) for a, n, sym in axes),
            "_".join("whole" if o == "" else str(o) for o in req),
            "-c" if cplx else "",
            "-s%d" % start if start else "",
            "-h" if symh else "",
        )
        out.append({"name": name, "axes": axes, "req": req, "cplx": cplx, "start": start, "symh": symh})

    syms = [{}, {"period": 2}, {"period": 3}, {"antiperiod": 2}, {"antiperiod": 4}]
    for sym in syms:
        for n in (2, 3, 4, 5, 6) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8):
            add([["time", n, sym]], ["F"])
            add([["angle", n, sym]], ["F"])
        add([["time", 4, sym]], ["F"], cplx=True)
        add([["angle", 4, sym]], ["F"], cplx=True)
        add([["angle", 3, sym]], ["F"], cplx=True)
        add([["time", 4, sym]], ["F"], start=1)
        add([["angle", 4, sym]], ["F"], start=2)
        add([["z", 2, {}], ["time", 4, sym]], ["", "F"])
        add([["z", 2, {}], ["time", 4, sym]], [None, "F"])
        add([["time", 4, sym], ["z", 2, {}]], ["F", "[1]"])
        add([["time", 2, {}], ["angle", 4, sym]], ["", "F"])
        add([["angle", 3, sym], ["time", 4, {}]], ["", "F"])
        for sym2 in syms:
            add([["time", 4, sym], ["angle", 2, sym2]], ["F", "F"])
            add([["angle", 2, sym], ["time", 2, sym2]], ["F", "F"])
        add([["time", 4, sym], ["angle", 3, sym]], ["F", "F"])
        add([["time", 2, sym], ["z", 2, {}], ["angle", 4, {}]], ["F", "", "F"])
        add([["z", 2, {}], ["time", 4, sym], ["angle", 2, {}]], ["[1]", "F", "F"])
        add([["z", 2, {}], ["angle", 2, {}], ["time", 4, sym]], [None, "F", "F"])
        add([["angle", 2, sym], ["z", 2, {}], ["time", 4, sym]], ["F", None, "F"], cplx=True)
        for lines in ["F[1]", "F[0]", "F[2,1]", "F[0:2]", "F[-1]", "I1:2", "I0:1", "I-1:1", "I1:9"]:
            add([["time", 4, sym]], [lines])
            add([["angle", 4, sym]], [lines])
            add([["z", 2, {}], ["time", 4, sym]], ["", lines])
            add([["time", 4, {}], ["angle", 4, sym]], ["F", lines])
            add([["time", 4, sym], ["angle", 2, {}]], [lines, ""])
    for n in (4, 5):
        add([["time", n, {}]], ["F"], symh=True)
        add([["z", 2, {}], ["time", n, {"antiperiod": 2}]], ["", "F"], symh=True)
    add([["time", 1, {}], ["angle", 4, {}]], ["F", "F"])
    add([["time", 1, {}]], ["F"])
    add([["angle", 1, {}], ["time", 4, {}]], ["F", "F"])
    return out


def lines_of(name, N, cplx):
    """signed line numbers of the transform of N samples, in the order returned"""
    if name == "time" and not cplx:
        return list(range(N // 2 + 1))
    return [i - N // 2 for i in range(N)]


def run(ctx, cfg):
    s = dt()
    cplx = cfg["cplx"]
    shape = tuple(a[1] for a in cfg["axes"])
    x = (ctx.complexes if cplx else ctx.reals)("x", shape)
    axes, steps = [], []
    for j, (name, n, sym) in enumerate(cfg["axes"]):
        st = cfg["start"] if (cfg["req"][j] or "")[:1] in ("F", "I") else 0
        total = n * sym.get("period", sym.get("antiperiod", 1))
        if name == "angle":
            h = 2 * math.pi / total
        elif cfg["symh"] and name == "time":
            h = ctx.real("h", 0.25, 4)
        else:
            h = 0.125
        unit = {"time": "s", "angle": "rad"}.get(name, "m")
        axes.append(
            s.Data1D(name=name, unit=unit, values=ctx.arr([(i - st) * h for i in range(n)]), symmetries=dict(sym))
        )
        steps.append(h)
    d = s.DataTime(name="f", symbol="X", unit="T", axes=axes, values=x, is_real=not cplx)

    # signal before the transform: transformed axes over one full period, the others as requested
    pos, req, lines = [], [], []
    names_req = []
    for j, ((name, n, sym), q) in enumerate(zip(cfg["axes"], cfg["req"])):
        full = rebuild([0] * n, sym)
        if q is None:
            pos.append(full[:1])
        elif q == "":
            pos.append(full)
            req.append(name)
        elif q[0] == "[":
            pos.append([full[i] for i in eval(q)])
            req.append(name + q)
        else:
            pos.append(full[: 2 * n] if "antiperiod" in sym else full[:n])
            names_req.append("freqs" if name == "time" else "wavenumber")
        if (q or "")[:1] in ("F", "I"):
            N = len(pos[-1])
            ks = lines_of(name, N, cplx)
            sname = names_req[-1]
            if name == "angle":
                mult = sym["period"] if "period" in sym else sym["antiperiod"] / 2 if "antiperiod" in sym else 1
                val = [k * mult for k in ks]
            else:
                mult = 1
                val = [k / (N * steps[j]) for k in ks]
            if n == 1 and N == 1:
                val = [0]
            idx = list(range(len(ks)))
            if q[0] == "I":
                a, b = [int(e) for e in q[1:].split(":")]
                fac = 1 / (N * 0.125) if name == "time" else mult
                lo, hi = (a - 0.25) * fac, (b + 0.25) * fac
                idx = [i for i in idx if lo <= val[i] <= hi]
                ctx.assume(len(idx) > 0)
                req.append("%s=[%r,%r]" % (sname, float(lo), float(hi)))
            elif q == "F":
                req.append(sname)
            else:
                sel = eval(q[1:]) if ":" not in q else list(range(*[int(e) for e in q[2:-1].split(":")]))
                if any(i >= len(idx) for i in sel):
                    return ctx.true(True, "line outside the spectrum")
                idx = [idx[i] for i in sel]
                req.append(sname + q[1:])
            lines.append((j, [ks[i] for i in idx], [val[i] for i in idx], N, name))
    F = np.empty(tuple(len(p) for p in pos), dtype=object)
    for i in np.ndindex(*F.shape):
        sg, ix = 1, []
        for p, q in zip(pos, i):
            ix.append(p[q][0])
            sg *= p[q][1]
        F[i] = sg * x[tuple(ix)]
    has_freqs = "freqs" in names_req
    for j, ks, val, N, name in lines:
        G = np.moveaxis(F, j, -1)
        H = np.empty(G.shape[:-1] + (len(ks),), dtype=object)
        for i in np.ndindex(*G.shape[:-1]):
            y = list(G[i])
            for q, k in enumerate(ks):
                c = ctx.sumof([y[m] * unit_root(k * m, N, -1) for m in range(N)])
                w = 1
                if not cplx and name == "time" and k != 0:
                    w = 2
                if not cplx and name == "angle" and not has_freqs and min(ks) >= 0 and k != 0:
                    w = 2
                H[i + (q,)] = c * (w / N)
        F = np.moveaxis(H, -1, j)
    W = np.squeeze(F)
    r = d.get_along(*req)
    ctx.eq(r["X"], nest(W.shape, lambda *i: W[i]), "spectrum %s" % req)
    for j, ks, val, N, name in lines:
        sname = "freqs" if name == "time" else "wavenumber"
        ctx.eq(r[sname], val, "axis " + sname, tol=1e-6)
    for j, ((name, n, sym), q) in enumerate(zip(cfg["axes"], cfg["req"])):
        if q == "":
            ctx.eq(r[name], [i * steps[j] for i in range(len(pos[j]))], "axis " + name, tol=1e-6)
