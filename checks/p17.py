"""Sum and product (convolution) of spectra."""
from .common import dt

BOUNDS = (
    "spectra of 1 to 4 lines with complex or real amplitudes (all of them symbolic), 30 pairs of frequency sets "
    "with common, opposite-sum, zero, unsorted and nearly equal lines, uniform frequency axes, restriction to a range"
)
ASSUMPTIONS = [
    "one-sided spectra: a line of frequency f and amplitude a stands for Re(a exp(2 i pi f t))",
    "frequencies closer than the tolerance are the same line when they round to the same multiple of the tolerance",
    "f_min is not negative",
]

SETS = {
    "a": [0, 6, 2, 4],
    "b": [0, 5],
    "c": [1, 3, 7],
    "d": [2, 3, 6],
    "e": [1],
    "f": [0],
    "g": [2, 1.00001, 3],
    "h": [10, 20, 30],
    "i": [0, 50, 100],
    "j": [6, 0, 2],
    "k": [3, 0],
}
PAIRS = ["aa", "ab", "ac", "ad", "bb", "bc", "bd", "cc", "cd", "dd", "ee", "ef", "fe", "ff", "gc", "cg", "hi", "ih", "da", "fb", "aj", "ja", "jj", "bk", "kb", "jk", "kf", "fk", "cj", "kc"]


def configs(tier):
    out = []
    for p in PAIRS:
        for op in ["sum", "conv"]:
            for kind in ["c", "r", "m"]:
                out.append({"name": "%s-%s-%s" % (op, p, kind), "op": op, "p": p, "kind": kind})
        for lo, hi in [(None, 5), (0, 5), (3, 20), (2, 4), (0, 0.5)]:
            hs = [abs(f + g) for f in SETS[p[0]] for g in SETS[p[1]]] + [abs(f - g) for f in SETS[p[0]] for g in SETS[p[1]]]
            if any((lo or 0) <= h <= hi for h in hs):
                out.append(
                    {"name": "conv-%s-%s-%s" % (p, lo, hi), "op": "conv", "p": p, "kind": "c", "lo": lo, "hi": hi}
                )
    for p in ["hi", "ih", "ii", "hh"]:
        for op in ["sum", "conv"]:
            out.append({"name": "%s-%s-lin" % (op, p), "op": op, "p": p, "kind": "c", "lin": True})
    for op in ["sum", "conv"]:
        for p in ["cd", "aa"]:
            out.append({"name": "%s-%s-meta" % (op, p), "op": op, "p": p, "kind": "c", "meta": True})
        if op == "sum":
            for sa in [{}, {"period": 2}, {"antiperiod": 4}]:
                for sb in [{}, {"period": 2}, {"period": 4}, {"antiperiod": 4}]:
                    out.append({"name": "sum-cd-%s-%s" % (sa, sb), "op": op, "p": "cd", "kind": "c", "sa": sa, "sb": sb})
        for bad in ["neg1", "neg2", "axes1", "axes2", "name1", "name2", "type"]:
            out.append({"name": "%s-refuse-%s" % (op, bad), "op": op, "p": "cd", "kind": "c", "bad": bad})
    return out


def spectrum(ctx, name, f, kind, lin=False, sym={}, **kw):
    s = dt()
    n = len(f)
    x = (ctx.reals if kind == "r" else ctx.complexes)(name, (n,), -1e3, 1e3)
    if lin:
        ax = s.DataLinspace(name="freqs", unit="Hz", initial=f[0], final=f[-1], number=n, include_endpoint=True)
    else:
        ax = s.Data1D(name="freqs", unit="Hz", values=ctx.arr([float(v) for v in f]), symmetries=dict(sym))
    return s.DataFreq(name=name, symbol="X" + name, unit="T", axes=[ax], values=x, **kw), x


def run(ctx, cfg):
    s = dt()
    op = cfg["op"]
    f1, f2 = SETS[cfg["p"][0]], SETS[cfg["p"][1]]
    if cfg.get("bad"):
        return refuse(ctx, cfg, f1, f2)
    k1 = cfg["kind"]
    k2 = "r" if k1 == "m" else k1
    k1 = "c" if k1 == "m" else k1
    norm = {"ref": s.Norm_ref(ref=2)}
    d1, x1 = spectrum(ctx, "a", f1, k1, cfg.get("lin"), cfg.get("sa", {}), normalizations=norm)
    d2, x2 = spectrum(ctx, "b", f2, k2, cfg.get("lin"), cfg.get("sb", {}))
    tol = 1e-4

    lines = []  # [f, amplitude]

    def put(f, a):
        for l in lines:
            if abs(l[0] - f) < tol:
                l[1] = l[1] + a
                return
        lines.append([f, a])

    if op == "sum":
        for f, a in list(zip(f1, x1)) + list(zip(f2, x2)):
            put(f, a)
        kw = {}
    else:
        lo = cfg.get("lo")
        hi = cfg.get("hi")
        kw = {}
        if lo is not None:
            kw["f_min"] = lo
        if hi is not None:
            kw["f_max"] = hi
        # two-sided spectra of the real signals
        t1 = [(sg * f, (a if sg > 0 else conj(ctx, a)) / 2) for sg in (1, -1) for f, a in zip(f1, x1)]
        t2 = [(sg * f, (a if sg > 0 else conj(ctx, a)) / 2) for sg in (1, -1) for f, a in zip(f2, x2)]
        for f, a in t1:
            for g, b in t2:
                h = f + g
                if h < (-tol if lo in (None, 0) else lo) or (hi is not None and h > hi):
                    continue
                put(h, a * b * (1 if abs(h) < tol else 2))
    meta = {}
    if cfg.get("meta"):
        n2 = {"ref": s.Norm_ref(ref=3)}
        meta = {"name": "res", "symbol": "R", "unit": "N", "normalizations": n2}
    lines.sort(key=lambda l: l[0])
    r = d1.sum(d2, **meta) if op == "sum" else d1.conv(d2, **dict(kw, **meta))
    ctx.eq(r.axes[0].get_values(), [l[0] for l in lines], "frequencies", tol=2e-4)
    ctx.eq(r.values, [l[1] for l in lines], "amplitudes", tol=1e-3)
    ctx.true(type(r) is s.DataFreq and len(r.axes) == 1, "one spectral axis")
    ctx.true(r.axes[0].name == "freqs" and r.axes[0].unit == "Hz", "frequency axis")
    if op == "sum":
        sa, sb = cfg.get("sa", {}), cfg.get("sb", {})
        ctx.true(r.axes[0].symmetries == (sa if sa == sb else {}), "symmetry common to both axes")
    if meta:
        ctx.true((r.name, r.symbol, r.unit) == ("res", "R", "N"), "metadata")
        ctx.eq(r.normalizations["ref"].ref, 3, "normalization of the result")
    else:
        ctx.true((r.name, r.symbol, r.unit) == ("a", "Xa", "T"), "metadata")
        ctx.eq(r.normalizations["ref"].ref, 2, "normalization of the result")
    got = r.get_along("freqs")
    ctx.eq(got[r.symbol], [l[1] for l in lines] if len(lines) > 1 else lines[0][1], "amplitudes read back", tol=1e-3)
    # inputs are left as they were
    ctx.eq(d1.values, x1, "first spectrum kept")
    ctx.eq(d2.values, x2, "second spectrum kept")
    ctx.eq(d1.axes[0].get_values(), [float(f) for f in f1], "first axis kept", tol=1e-9)
    ctx.eq(d2.axes[0].get_values(), [float(f) for f in f2], "second axis kept", tol=1e-9)


def conj(ctx, a):
    im = ctx.im(a)
    return ctx.re(a) - 1j * im


def refuse(ctx, cfg, f1, f2):
    s = dt()
    bad = cfg["bad"]
    d1, _ = spectrum(ctx, "a", f1, "c")
    d2, _ = spectrum(ctx, "b", f2, "c")
    if bad == "neg1":
        d1, _ = spectrum(ctx, "n", [-1, 2], "c")
    elif bad == "neg2":
        d2, _ = spectrum(ctx, "n", [-1, 2], "c")
    elif bad == "type":
        d2 = s.DataTime(
            name="t", symbol="T", unit="T", axes=[s.Data1D(name="time", unit="s", values=ctx.arr([0.0, 1.0]))],
            values=ctx.reals("t", (2,)),
        )
    else:
        if bad.startswith("axes"):
            axes = [
                s.Data1D(name="freqs", unit="Hz", values=ctx.arr([1.0, 2.0])),
                s.Data1D(name="angle", unit="rad", values=ctx.arr([1.0, 2.0])),
            ]
            x = ctx.complexes("n", (2, 2))
        else:
            axes = [s.Data1D(name="wavenumber", unit="dimless", values=ctx.arr([1.0, 2.0]))]
            x = ctx.complexes("n", (2,))
        d = s.DataFreq(name="n", symbol="N", unit="T", axes=axes, values=x)
        if bad.endswith("1"):
            d1 = d
        else:
            d2 = d
    ctx.raises(Exception, (lambda: d1.sum(d2)) if cfg["op"] == "sum" else (lambda: d1.conv(d2)), "refused")
