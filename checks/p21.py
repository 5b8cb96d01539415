"""Leakage filter: amplitudes of known lines."""
import math

from .common import dt

BOUNDS = (
    "windows of 6 to 9 samples, 9 sets of 1 to 3 known frequencies on and off the grid (zero, close to each other, given with "
    "both signs or unsorted), all complex amplitudes up to 1e3; fields over time alone, time and angle (any order, period), "
    "third axis or step axis; real and complex; stored in time or frequency; vector fields; the filter function on 1 to 4 dimensions"
)
ASSUMPTIONS = [
    "time axis without symmetry and starting at zero; known frequencies below half the sampling frequency",
    "an even number of samples when the field is stored in frequency",
]
SETS = {
    "a": [1.3],
    "b": [0.0, 1.3],
    "c": [2.5, 0.0],
    "d": [1.0, 2.7],
    "e": [0.4, 1.6, 2.4],
    "f": [2.1, 2.4],
    "g": [0.0, 1.0, 2.0],
    "h": [-1.3, 1.3],
    "i": [-0.7, 0.0, 0.7],
    "j": [1.3, 3.0],
    "k": [0.5, 4.0],
    "l": [-3.0, 0.0, 2.2],
}


def configs(tier):
    out = []

    def add(**c):
        c["name"] = "-".join(str(v) for v in c.values()).replace(" ", "")
        out.append(c)

    for k in SETS:
        for nt in [6, 8, 9]:
            if k == "k" and nt < 9 or k in "jl" and nt == 6:
                continue  # at or above half the sampling frequency
            for shape in [[], [2], [2, 3], [2, 1], [2, 2, 2]]:
                for pos in [True, False]:
                    if len(shape) < 2 or nt == 8:
                        add(kind="fun", set=k, nt=nt, shape=shape, pos=pos)
            if nt < 9 or k not in "f":
                add(kind="field", set=k, nt=nt, axes=["time"])
                add(kind="field", set=k, nt=nt, axes=["time"], cplx=True)
            if nt == 8:
                add(kind="fun2", set=k, nt=nt, shape=[2], pos=True)
    for k in "abcdegh":
        for axes in [["time", "angle3"], ["time", "angle4"], ["angle4", "time"], ["angle3", "time"], ["time", "z2"], ["z2", "time"], ["time", "z2p2"], ["time", "slice2"],
                     ["time", "angle4", "z2"], ["time", "z2", "angle4"], ["z2", "time", "angle3"], ["time", "angle2p2"], ["time", "angle4", "slice2"]]:
            for store in ["time", "freq"]:
                if store == "freq" and ("slice2" in axes and 0):
                    continue
                add(kind="field", set=k, nt=8 if store == "freq" else 6, axes=axes, store=store)
        add(kind="field", set=k, nt=6, axes=["time", "angle4"], vec=2)
        add(kind="field", set=k, nt=6, axes=["time", "angle3", "z2"], vec=3)
        add(kind="field", set=k, nt=6, axes=["angle3", "time"], vec=2)
        add(kind="field", set=k, nt=6, axes=["time", "angle4"], cplx=True)
        add(kind="field", set=k, nt=8, axes=["time"], store="freq")
        add(kind="field", set=k, nt=8, axes=["time"], store="freq", cplx=True)
    for k in "abd":
        for axes in [["z2", "angle3", "time"], ["angle3", "z2", "time"], ["z2", "angle4", "time"], ["angle3", "time", "z2"], ["z3", "z2p2", "time"][1:] + ["slice2"]]:
            for store in ["time", "freq"]:
                add(kind="field", set=k, nt=8 if store == "freq" else 6, axes=axes, store=store)
    for k in "jl":
        for axes in [["time", "angle3"], ["angle4", "time"], ["time", "z2"]]:
            for store in ["time", "freq"]:
                add(kind="field", set=k, nt=8, axes=axes, store=store)
        add(kind="field", set=k, nt=8, axes=["time"], store="freq")
        add(kind="field", set=k, nt=8, axes=["time"], store="freq", cplx=True)
    return out


def cexp(x):
    return complex(math.cos(x), math.sin(x))


def window(f, nt, h):
    if abs(f) < 1e-9:
        return 1.0
    return (1 - cexp(-2 * math.pi * h * f * nt)) / (1 - cexp(-2 * math.pi * h * f)) / nt


def conj(ctx, a):
    return ctx.re(a) - 1j * ctx.im(a)


def run(ctx, cfg):
    import numpy as np

    s = dt()
    th = SETS[cfg["set"]]
    nt, h = cfg["nt"], 1.0 / cfg["nt"]
    both = sorted({f for f in th} | {-f + 0.0 for f in th})
    if cfg["kind"] in ("fun", "fun2"):
        from SciDataTool.Functions.filter_spectral_leakage import filter_spectral_leakage

        shape = tuple(cfg["shape"])
        amp = ctx.complexes("a", (len(both),) + shape, -1e3, 1e3)
        fr = [float(j - nt // 2) for j in range(nt)]
        spec = ctx.arr([[amp_sum(both, amp, f, nt, h, ix) for ix in np.ndindex(*shape)] for f in fr]).reshape((nt,) + shape)
        r, fo, W, If = filter_spectral_leakage(spec, np.array(fr), np.array(th), nt, h, is_freq_pos=cfg["pos"])
        if cfg["kind"] == "fun2":
            # the matrix is used again on another field
            amp = ctx.complexes("b", (len(both),) + shape, -1e3, 1e3)
            spec = ctx.arr([[amp_sum(both, amp, f, nt, h, ix) for ix in np.ndindex(*shape)] for f in fr]).reshape((nt,) + shape)
            r, fo, W, If = filter_spectral_leakage(spec, np.array(fr), np.array(both), nt, h, is_freq_pos=cfg["pos"], Wmatf=W, If=If)
        keep = [i for i, f in enumerate(both) if f >= 0 or not cfg["pos"]]
        ctx.eq(fo, [both[i] for i in keep], "frequencies", tol=1e-9)
        want = np.stack([amp[i] * (2 if cfg["pos"] and both[i] != 0 else 1) for i in keep])
        ctx.shape(r, (len(keep),) + shape, "shape")
        ctx.eq(r, want.tolist(), "amplitudes of the lines", tol=1e-6)
        return
    real = not cfg.get("cplx")
    axes, sizes, waves = [], [], None
    th_ax = None
    for a in cfg["axes"]:
        if a == "time":
            axes.append(lambda: s.Data1D(name="time", unit="s", values=ctx.arr([i * h for i in range(nt)]), normalizations={"q": s.Norm_ref(ref=2.0)}))
            sizes.append(nt)
        elif a.startswith("angle"):
            n = int(a[5])
            sym = {"period": int(a[7:])} if len(a) > 6 else {}
            P = int(a[7:]) if sym else 1
            th_ax = (len(axes), n, P)
            axes.append(lambda n=n, sym=sym, P=P: s.Data1D(name="angle", unit="rad", values=ctx.arr([2 * math.pi * i / n / P for i in range(n)]), symmetries=dict(sym)))
            sizes.append(n)
        elif a.startswith("z"):
            n = int(a[1])
            sym = {"period": int(a[3:])} if len(a) > 2 else {}
            axes.append(lambda n=n, sym=sym: s.Data1D(name="z", unit="m", values=ctx.arr([float(i) for i in range(n)]), symmetries=dict(sym)))
            sizes.append(n)
        else:
            axes.append(lambda: s.DataPattern(name="slice", unit="m", values=ctx.arr([0.0, 1.0]), values_whole=ctx.arr([0.0, 1.0, 2.0]), rebuild_indices=[0, 1, 0], unique_indices=[0, 1]))
            sizes.append(2)
    it = cfg["axes"].index("time")
    lines = [f for f in both if f >= 0] if real else both
    osh = list(sizes)
    osh[it] = len(lines)
    n, P = (th_ax[1], th_ax[2]) if th_ax else (1, 1)
    wn = [(r - n // 2) for r in range(n)]  # index of the wavenumber on the smallest period

    def signal(nm):
        """amplitudes a[line, wavenumber or position, ...] and the sampled field"""
        a = ctx.complexes(nm, tuple(osh), -1e3, 1e3)
        x = np.empty(sizes, dtype=object)
        c = np.empty(osh, dtype=object)
        for ix in np.ndindex(*sizes):
            v = 0.0
            for k, f in enumerate(lines):
                rs = range(n) if th_ax else [None]
                for r in rs:
                    jx = list(ix)
                    jx[it] = k
                    ph = 2 * math.pi * f * ix[it] * h
                    if r is not None:
                        jx[th_ax[0]] = r
                        ph += wn[r] * 2 * math.pi * ix[th_ax[0]] / n
                    t = a[tuple(jx)] * cexp(ph)
                    v = v + (ctx.re(t) if real else t)
            x[ix] = v
        for jx in np.ndindex(*osh):
            f = lines[jx[it]]
            v = a[jx]
            if real:
                mx = list(jx)
                alone = th_ax is not None and n % 2 == 0 and wn[jx[th_ax[0]]] == -n // 2
                if th_ax is not None:
                    mx[th_ax[0]] = (n - 1 - jx[th_ax[0]]) if n % 2 else (-jx[th_ax[0]]) % n
                if f == 0:
                    v = (a[jx] + conj(ctx, a[tuple(mx)])) / 2
                elif alone:
                    v = a[jx]
            c[jx] = v
        return ctx.arr(x.tolist()), c

    def check(d, c):
        ctx.true(type(d) is s.DataFreq, "class of the result")
        ctx.true([q.name for q in d.axes] == [{"t": "freqs", "a": "wavenumber", "z": "z", "s": "slice"}[a[0]] for a in cfg["axes"]], "axes of the result")
        ctx.true(d.is_real is real, "real or complex")
        ctx.shape(d.values, tuple(osh), "shape")
        ctx.eq(d.values, c.tolist(), "amplitudes of the lines", tol=1e-5)
        ctx.eq(d.axes[it].get_values(), lines, "frequencies", tol=1e-9)
        if th_ax:
            ctx.eq(d.axes[th_ax[0]].get_values(), [float(w * P) for w in wn], "wavenumbers", tol=1e-9)
        q = d.get_along(*[b.name + ("[smallestperiod]" if b.name in ("z", "slice") else "") for b in d.axes], is_squeeze=False)
        ctx.eq(q["X"], c.tolist(), "amplitudes read back", tol=1e-5)

    def build(x, nm="f"):
        d = s.DataTime(name=nm, symbol="X", unit="T", axes=[f() for f in axes], values=x, is_real=real)
        return d.time_to_freq() if cfg.get("store") == "freq" else d

    F = np.array(th)
    if cfg.get("vec"):
        names = ["radial", "tangential", "axial"][: cfg["vec"]]
        sg = {c: signal(c) for c in names}
        v = s.VectorField(name="v", symbol="X", components={c: build(sg[c][0], c) for c in names})
        w = v.filter_spectral_leakage(F)
        ctx.true(list(w.components) == names and w.symbol == "X", "components")
        for c in names:
            check(w.components[c], sg[c][1])
        return
    x, c = signal("a")
    d = build(x)
    check(d.filter_spectral_leakage(F), c)
    ctx.true(d.is_real is real, "original kept")
    if cfg.get("store") != "freq":
        ctx.eq(d.values, x.tolist(), "original kept")


def amp_sum(both, amp, f, nt, h, ix):
    v = 0.0
    for k, g in enumerate(both):
        v = v + amp[(k,) + ix] * window(f - g, nt, h)
    return v
