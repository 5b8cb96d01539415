"""Change to a rotating referential."""
import math

from .common import dt, nest, rebuild, unit_root

BOUNDS = (
    "time or frequency with angle or wavenumber in both orders, and up to two further axes; 1 to 3 frequencies "
    "and 1 to 3 orders (spectrum), 3 time and 3 angle samples per period (odd, so that no line is its own mirror), "
    "with and without symmetries; speeds giving whole, half and opposite shifts, lines that meet and lines brought "
    "to zero; waveform: 2 to 4 time and angle samples, shifts by whole and fractional samples, axes starting at zero or not; lines shifted as plain arrays; "
    "amplitudes |x|<=1e9; one and two components"
)
ASSUMPTIONS = [
    "the spectrum of a real field is stored on non-negative frequencies with the amplitude of the cosine, except at "
    "0 Hz where both orders r and -r hold half of it",
    "in the waveform domain angles between samples are interpolated linearly, and the caller states the time "
    "symmetry of the result, which must hold for the statement to apply",
]


def configs(tier):
    out = []

    def add(kind, **kw):
        name = kind + "-" + "-".join(
            "%s" % (v if not isinstance(v, list) else ",".join(str(q) for q in v)) for v in kw.values()
        )
        out.append(dict({"name": name.replace(" ", ""), "kind": kind}, **kw))

    lay = [["F", "A"], ["A", "F"], ["F", "A", "z2"], ["z2", "F", "A"], ["A", "z2", "F"], ["F", "A", "z2", "foo2"]]
    sets = [
        ([0, 1], [0]),
        ([1], [2]),
        ([1], [-2, 2]),
        ([0], [-1, 0, 1]),
        ([0, 1], [-1, 0, 1]),
        ([0, 2, 3], [-2, 1]),
        ([1, 2], [-1, 3]),
        ([50, 100], [-2, 0, 2]),
        ([2], [0, 1]),
    ]
    speeds = [60, -60, 30, 0, 120, -90]
    for fs, rs in sets:
        for sp in speeds + ([1500, -3000] if fs[-1] == 100 else []):
            for op in ["go", "back"]:
                for real in [True, False]:
                    add("spec", fs=fs, rs=rs, sp=sp, op=op, real=real, lay=lay[0])
    for la in lay[1:]:
        for sp in [60, -30]:
            add("spec", fs=[0, 1], rs=[-1, 0, 1], sp=sp, op="go", real=True, lay=la)
            add("spec", fs=[1, 2], rs=[-2, 0, 1], sp=sp, op="back", real=True, lay=la)
            add("spec", fs=[-1, 0, 1], rs=[-1, 1], sp=sp, op="go", real=False, lay=la)
    add("spec", fs=[-1, 0, 1], rs=[-1, 0, 1], sp=60, op="back", real=False, lay=lay[0])
    for ts, as_ in [({}, {}), ({"period": 2}, {}), ({}, {"period": 2}), ({"period": 2}, {"period": 3}), ({"antiperiod": 2}, {"antiperiod": 2})]:
        for sp in [60, -120, 30]:
            for la in lay[:4]:
                if la != lay[0] and (sp == 30 or (ts and as_)):
                    continue
                for op in ["go", "back"]:
                    add("time", lay=la, ts=ts, as_=as_, sp=sp, op=op, real=True)
    add("time", lay=lay[0], ts={}, as_={}, sp=60, op="go", real=False)
    add("time", lay=lay[1], ts={}, as_={}, sp=-60, op="back", real=False)
    add("time", lay=["F", "A", "zsym"], ts={}, as_={}, sp=60, op="go", real=True)
    add("time", lay=["F", "A", "zpat"], ts={}, as_={}, sp=60, op="go", real=True)
    for sp in [60, -30]:
        for atol in [0, 1e-9]:
            for comps in [[[1, 0], [0, 1]], [[1, 1], [1, 0]], [[0, 0], [0, 1]], [[1, 0]]]:
                add("vec", sp=sp, atol=atol, comps=comps, lay=lay[0])
        add("vec", sp=sp, atol=1e-9, comps=[[1, 0], [0, 1]], lay=lay[1])
        add("vec", sp=sp, atol=1e-9, comps=[[1, 0], [0, 1]], lay=lay[3])
    for la in lay:
        for nt, na in [(2, 3), (3, 2), (4, 4)]:
            if la != lay[0] and nt == 4:
                continue
            for sh in [1, -1, 2, 0.5, -0.25]:
                for ax in ["lin", "1D", "off", "offt"]:
                    for op in ["go", "back"]:
                        if op == "back" and sh != int(sh) or la != lay[0] and (ax == "1D" or sh == 2):
                            continue
                        add("wave", lay=la, nt=nt, na=na, sh=sh, ax=ax, op=op, ts={}, as_={}, new={})
    for ts, as_, new in [
        ({"period": 2}, {}, {"period": 2}),
        ({}, {"period": 2}, {}),
        ({}, {"antiperiod": 2}, {}),
        ({}, {"antiperiod": 4}, {}),
        ({"antiperiod": 2}, {}, {"antiperiod": 2}),
        ({"antiperiod": 2}, {"antiperiod": 2}, {}),
        ({"antiperiod": 4}, {"antiperiod": 2}, {"period": 2}),
        ({"period": 3}, {"period": 2}, {"period": 3}),
    ]:
        for ax in ["lin", "1D"]:
            for sh in [1, -2, 0.5]:
                for la in lay[:2]:
                    add("wave", lay=la, nt=2, na=2, sh=sh, ax=ax, op="go", ts=ts, as_=as_, new=new)
    for sh in [1, -1, 0.5]:
        for la in [lay[0], lay[1], lay[3]]:
            for ts, as_, new in [({}, {}, {}), ({"period": 2}, {"period": 2}, {"period": 2}), ({"antiperiod": 2}, {"antiperiod": 2}, {})]:
                add("vecwave", lay=la, sh=sh, ts=ts, as_=as_, new=new, comps=["radial", "tangential"])
        add("vecwave", lay=lay[0], sh=sh, ts={}, as_={}, new={}, comps=["axial", "radial", "tangential"])
    for sp in [60, -30, 0]:
        for dbl in [0, 1]:
            for z in [0, 2]:
                for real in [0, 1]:
                    add("func", sp=sp, dbl=dbl, z=z, real=real)
        for pat in ["orders", "slices", "both"]:
            add("cancel", sp=sp, pat=pat)
    for sp in [20, -80]:
        for fs, rs in sets:
            add("spec", fs=fs, rs=rs, sp=sp, op="back", real=True, lay=lay[0])
    seen = {}
    for c in out:
        seen[c["name"]] = c
    return list(seen.values())


def split(la):
    other = [a for a in la if a not in ("F", "A")]
    return other, [{"z2": 2, "foo2": 2, "zsym": 2, "zpat": 2}[a] for a in other]


def other_axis(ctx, s, a):
    if a == "zpat":
        return s.DataPattern(name="z", unit="m", values=ctx.arr([0.0, 1.0]), values_whole=ctx.arr([0.0, 1.0, 2.0, 3.0]),
                             rebuild_indices=[0, 1, 1, 0], unique_indices=[0, 1], is_step=False)
    return s.Data1D(
        name=a[0] if a[0] == "z" else "foo", unit="m", values=ctx.arr([0.0, 1.0]),
        symmetries={"period": 2} if a == "zsym" else {}, normalizations=norms(s, a),
    )


def norms(s, key):
    return {"n_" + key: s.Norm_ref(ref=3)}


def meta(ctx, s, d, n, spectrum):
    """description of the field seen from the rotating frame"""
    ctx.true(type(n) is (s.DataFreq if spectrum else s.DataTime), "class of the result")
    ctx.true((n.name, n.symbol, n.unit) == (d.name, d.symbol, d.unit), "description of the field kept")
    ctx.true(list(n.normalizations) == list(d.normalizations), "normalizations kept")
    names = {"time": "freqs", "angle": "wavenumber"} if spectrum else {}
    units = {"freqs": "Hz", "wavenumber": "dimless"}
    ctx.true([a.name for a in n.axes] == [names.get(a.name, a.name) for a in d.axes], "axes kept")
    for a, b in zip(d.axes, n.axes):
        ctx.true(b.unit == units.get(b.name, a.unit), "unit of axis " + b.name)
        ctx.true(list(b.normalizations) == list(a.normalizations), "normalizations of axis " + b.name)
        ctx.true(b is not a and b.normalizations is not a.normalizations and b.symmetries is not a.symmetries, "axis %s of its own" % b.name)
    ctx.true(n.normalizations is not d.normalizations, "normalizations of its own")


def shifted(lines, sp):
    """four quadrant lines {(f, r): amplitude} seen from the rotating frame."""
    out = {}
    for (f, r), v in lines.items():
        q = (round(f + r * sp / 60, 9), r)
        out[q] = out[q] + v if q in out else v
    return out


def conj(v):
    return v.conjugate()


def quadrants(lines, real):
    """stored lines -> lines of the complete spectrum"""
    if not real:
        return dict(lines)
    out = {}
    for (f, r), v in lines.items():
        for q, w in (((f, r), v / 2), ((-f, -r), conj(v) / 2)):
            out[q] = out[q] + w if q in out else w
    return out


def stored(lines, real):
    """complete spectrum -> stored lines"""
    if not real:
        return dict(lines)
    return {(f, r): (v if f == 0 else 2 * v) for (f, r), v in lines.items() if f >= 0}


def compare(ctx, data, lay, lines, label, symbol="X", tol=1e-3):
    """every stored line of data has the expected amplitude, the expected ones are all there."""
    other, shape = split(lay)
    names = [ax.name for ax in data.axes]
    ctx.true(names == [{"F": "freqs", "A": "wavenumber"}.get(a, "z" if a[0] == "z" else "foo") for a in lay], label + ": axes")
    args = []
    for a, n in zip(lay, names):
        args.append(n if a in "FA" else n + "[smallestperiod]")
    r = data.get_along(*args, is_squeeze=False)
    fs, rs = [float(v) for v in r["freqs"]], [float(v) for v in r["wavenumber"]]
    ctx.true(all(abs(a - b) > 1e-6 for i, a in enumerate(fs) for b in fs[:i]), label + ": frequencies appear once")
    ctx.true(all(abs(a - b) > 1e-6 for i, a in enumerate(rs) for b in rs[:i]), label + ": orders appear once")
    near = lambda a, b: abs(a - b) < 1e-5
    for (f, k), v in lines.items():
        if not any(near(f, q) for q in fs) or not any(near(k, q) for q in rs):
            for i in nest_indices(shape):
                ctx.eq(ctx.arr([at(v, i)]), [0], label + ": line (%g, %g) is missing" % (f, k), tol=tol)

    def want(*ix):
        f, k = fs[ix[lay.index("F")]], rs[ix[lay.index("A")]]
        o = tuple(i for i, a in zip(ix, lay) if a not in ("F", "A"))
        for (g, q), v in lines.items():
            if near(f, g) and near(k, q):
                return at(v, o)
        return 0

    dims = []
    for a in lay:
        dims.append(len(fs) if a == "F" else len(rs) if a == "A" else 2)
    ctx.eq(r[symbol], nest(dims, want), label, tol=tol)


def nest_indices(shape):
    out = [()]
    for n in shape:
        out = [o + (i,) for o in out for i in range(n)]
    return out


class Vec(dict):
    """amplitudes by index of the other axes, added and scaled together"""

    def __add__(self, o):
        return Vec({k: self[k] + o[k] for k in self})

    def __truediv__(self, c):
        return Vec({k: v / c for k, v in self.items()})

    def __rmul__(self, c):
        return Vec({k: v * c for k, v in self.items()})

    def conjugate(self):
        return Vec({k: v.conjugate() for k, v in self.items()})


def at(v, o):
    return v[tuple(o)]


def run(ctx, cfg):
    {"spec": spec, "time": time, "vec": vec, "wave": wave, "vecwave": vecwave, "func": func, "cancel": cancel}[cfg["kind"]](ctx, cfg)


def make_spec(ctx, s, cfg, name, fs, rs, real, lay, mask=None, symbol="X"):
    other, shape = split(lay)
    dims = [len(fs) if a == "F" else len(rs) if a == "A" else 2 for a in lay]
    x = ctx.complexes(name, tuple(dims))
    if mask is not None:
        for i in nest_indices(dims):
            if not mask[i[lay.index("F")]]:
                x[i] = 0
            elif cfg["atol"] > 0:
                x[i] = ctx.real("%s_%s" % (name, "_".join(map(str, i))) + "p", 1, 10) + 0j
    lines = {}
    for i, f in enumerate(fs):
        for j, r in enumerate(rs):
            v = Vec()
            for o in nest_indices(shape):
                it = iter(o)
                ix = tuple(i if a == "F" else j if a == "A" else next(it) for a in lay)
                v[o] = x[ix]
            lines[(f, r)] = v
    if real and 0 in fs:
        # orders r and -r at 0 Hz belong to the same real wave
        for r in rs:
            if r > 0 and -r in rs or r == 0:
                for o in nest_indices(shape):
                    w = lines[(0, r)][o]
                    it = iter(o)
                    ix = tuple(fs.index(0) if a == "F" else rs.index(-r) if a == "A" else next(it) for a in lay)
                    if r == 0:
                        x[ix] = ctx.re(w) + 0j
                    else:
                        x[ix] = conj(w)
                    lines[(0, -r)][o] = x[ix]
    axes = []
    for a in lay:
        if a == "F":
            axes.append(s.Data1D(name="freqs", unit="Hz", values=ctx.arr([float(f) for f in fs]), normalizations=norms(s, "F")))
        elif a == "A":
            axes.append(s.Data1D(name="wavenumber", unit="dimless", values=ctx.arr([float(f) for f in rs]), normalizations=norms(s, "A")))
        else:
            axes.append(other_axis(ctx, s, a))
    return s.DataFreq(name="f", symbol=symbol, unit="T", axes=axes, values=x, is_real=real, normalizations={"ref": s.Norm_ref(ref=2)}), lines


def spec(ctx, cfg):
    s = dt()
    real = cfg["real"]
    d, lines = make_spec(ctx, s, cfg, "x", cfg["fs"], cfg["rs"], real, cfg["lay"])
    ref = quadrants(lines, real)
    sp = cfg["sp"]
    n = d.change_referential(sp, is_waveform=False, atol=0)[0]
    ctx.true(n.is_real == real, "kind of data kept")
    ctx.true(d.is_real == real, "original data left as it was")
    meta(ctx, s, d, n, True)
    if cfg["op"] == "go":
        compare(ctx, n, cfg["lay"], stored(shifted(ref, sp), real), "rotating frame")
    else:
        b = n.change_referential(-sp, is_waveform=False, atol=0)[0]
        compare(ctx, b, cfg["lay"], stored(ref, real), "there and back")


def func(ctx, cfg):
    """shift of an array of lines; the lines at 0 Hz with an order are doubled on request"""
    import importlib

    import numpy as np

    f = importlib.import_module("SciDataTool.Functions.change_referential").change_referential_spectrum
    fs, rs, sp = [0, 1, 2], [-1, 0, 2], cfg["sp"]
    dims = (3, 3) + ((cfg["z"],) if cfg["z"] else ())
    x = ctx.reals("x", dims) if cfg["real"] else ctx.complexes("x", dims)
    keep = x.copy()
    y, freqs, i1, irf = f(np.array([0.0, 1.0, 2.0]), np.array([-1.0, 0.0, 2.0]), sp, x, atol=0, is_double_f0=bool(cfg["dbl"]))
    ctx.true(list(map(float, freqs)) == sorted({round(a + r * sp / 60, 9) for a in fs for r in rs}), "frequencies")

    def want(i, j, *o):
        v = 0
        for k, a in enumerate(fs):
            if abs(a + rs[j] * sp / 60 - freqs[i]) < 1e-6:
                v = v + x[(k, j) + o] * (2 if cfg["dbl"] and a == 0 and rs[j] != 0 else 1)
        return v

    ctx.eq(y, nest((len(freqs),) + dims[1:], want), "lines in the rotating frame")
    ctx.eq(x, keep.tolist(), "lines given left as they were")
    z = f(np.array([0.0, 1.0, 2.0]), np.array([-1.0, 0.0, 2.0]), sp, x, 0, freqs, i1, irf, bool(cfg["dbl"]))
    ctx.eq(z[0], y.tolist(), "same lines from the stored positions")


def cancel(ctx, cfg):
    """lines whose orders or slices are opposite are lines all the same"""
    s = dt()
    fs, rs, lay = [1, 2], [-1, 3], ["F", "A", "z2"]
    a, b = ctx.real("a", 1, 10), ctx.real("b", 1, 10)
    sg = {"orders": lambda j, k: (-1) ** j, "slices": lambda j, k: (-1) ** k, "both": lambda j, k: (-1) ** (j + k)}[cfg["pat"]]
    x = ctx.arr([[[(a if i == 0 else b) * sg(j, k) + 0j for k in range(2)] for j in range(2)] for i in range(2)])
    axes = [
        s.Data1D(name="freqs", unit="Hz", values=ctx.arr([1.0, 2.0])),
        s.Data1D(name="wavenumber", unit="dimless", values=ctx.arr([-1.0, 3.0])),
        s.Data1D(name="z", unit="m", values=ctx.arr([0.0, 1.0])),
    ]
    d = s.DataFreq(name="f", symbol="X", unit="T", axes=axes, values=x, is_real=True)
    lines = {(f, r): Vec({(k,): x[i, j, k] for k in range(2)}) for i, f in enumerate(fs) for j, r in enumerate(rs)}
    n = d.change_referential(cfg["sp"], is_waveform=False)[0]
    compare(ctx, n, lay, stored(shifted(quadrants(lines, True), cfg["sp"]), True), "rotating frame")


def time(ctx, cfg):
    """field given in time and space: its lines are its double Fourier sum"""
    s = dt()
    lay, real, sp = cfg["lay"], cfg["real"], cfg["sp"]
    other, shape = split(lay)
    N = 3
    ts, as_ = cfg["ts"], cfg["as_"]
    nt = N if "antiperiod" not in ts else 3
    na = N if "antiperiod" not in as_ else 3
    Pt, Pa = list(ts.values())[0] if ts else 1, list(as_.values())[0] if as_ else 1
    dims = [nt if a == "F" else na if a == "A" else 2 for a in lay]
    x = ctx.reals("x", tuple(dims)) if real else ctx.complexes("x", tuple(dims))
    axes = []
    for a in lay:
        if a == "F":
            axes.append(s.DataLinspace(name="time", unit="s", initial=0, final=1.0 / Pt, number=nt, include_endpoint=False, symmetries=dict(ts), normalizations=norms(s, "F")))
        elif a == "A":
            axes.append(s.DataLinspace(name="angle", unit="rad", initial=0, final=2 * math.pi / Pa, number=na, include_endpoint=False, symmetries=dict(as_), normalizations=norms(s, "A")))
        else:
            axes.append(other_axis(ctx, s, a))
    d = s.DataTime(name="f", symbol="X", unit="T", axes=axes, values=x, is_real=real, normalizations={"ref": s.Norm_ref(ref=2)})
    # one period
    rt = rebuild([0] * nt, {"antiperiod": 2} if "antiperiod" in ts else {})
    ra = rebuild([0] * na, {"antiperiod": 2} if "antiperiod" in as_ else {})
    nt2, na2 = len(rt), len(ra)
    ft = Pt if "antiperiod" not in ts else Pt // 2
    fa = Pa if "antiperiod" not in as_ else Pa // 2
    lines = {}
    rng = lambda n: range(-(n // 2), n - n // 2)
    for k in rng(nt2):
        for q in rng(na2):
            if "antiperiod" in ts and k % 2 == 0 or "antiperiod" in as_ and q % 2 == 0:
                continue
            v = Vec()
            for o in nest_indices(shape):
                it_ = 0
                for i, (pi, si) in enumerate(rt):
                    for j, (pj, sj) in enumerate(ra):
                        it = iter(o)
                        ix = tuple(pi if a == "F" else pj if a == "A" else next(it) for a in lay)
                        w = unit_root(k * i, nt2, -1) * unit_root(q * j, na2, -1)
                        it_ = it_ + x[ix] * (si * sj) * w
                v[o] = it_ / (nt2 * na2)
            lines[(k * ft, q * fa)] = v
    if "antiperiod" in ts:
        # the line at half the sampling rate has no opposite
        for (k, q), v in list(lines.items()):
            if abs(k) == ft * nt or abs(q) == fa * na:
                for w in v.values():
                    ctx.assume(abs(ctx.re(w)) <= 0)
                    ctx.assume(abs(ctx.im(w)) <= 0)
                del lines[(k, q)]
    n = d.change_referential(sp, is_waveform=False, atol=0)[0]
    ctx.true(n.is_real == real, "kind of data kept")
    ctx.true(d.is_real == real, "original data left as it was")
    meta(ctx, s, d, n, True)
    if cfg["op"] == "go":
        compare(ctx, n, lay, stored(shifted(lines, sp), real), "rotating frame", tol=1)
    else:
        b = n.change_referential(-sp, is_waveform=False, atol=0)[0]
        compare(ctx, b, lay, stored(lines, real), "there and back", tol=1)


def vec(ctx, cfg):
    s = dt()
    fs, rs = [1, 2], [-1, 3]
    lay, sp = cfg["lay"], cfg["sp"]
    comps, ref = {}, {}
    for c, mask in zip(["radial", "tangential"], cfg["comps"]):
        comps[c], lines = make_spec(ctx, s, cfg, c[0], fs, rs, True, lay, mask)
        ref[c] = quadrants(lines, True)
    v = s.VectorField(name="v", symbol="X", components=comps)
    n = v.change_referential(sp, is_waveform=False, atol=cfg["atol"])
    ctx.true(list(n.components) == list(comps), "components")
    ctx.true(type(n) is s.VectorField and (n.name, n.symbol) == ("v", "X"), "description of the vector field")
    used = {f for c, mask in zip(comps, cfg["comps"]) for (f, q), w in stored(shifted({k: w for k, w in ref[c].items() if mask[fs.index(abs(k[0]))]}, sp), True).items()}
    for c in comps:
        meta(ctx, s, comps[c], n.components[c], True)
        if cfg["atol"] > 0 and used:
            got = n.components[c].axes[lay.index("F")].get_values()
            ctx.true(all(any(abs(f - g) < 1e-5 for g in used) for f in got), "lines without amplitude left out: %s" % list(got))
        compare(ctx, n.components[c], lay, stored(shifted(ref[c], sp), True), "rotating frame " + c)


def vecwave(ctx, cfg):
    """waveform of a vector field: every component like the component alone"""
    s = dt()
    lay, ts, as_, new = cfg["lay"], cfg["ts"], cfg["as_"], cfg["new"]
    h = math.pi / 2
    dims = [2 if a == "F" else 4 // (list(as_.values())[0] if as_ else 1) if a == "A" else 2 for a in lay]
    comps = {}
    for c in cfg["comps"]:
        axes = []
        for a, n in zip(lay, dims):
            if a == "F":
                axes.append(s.Data1D(name="time", unit="s", values=ctx.arr([0.0, 0.25]), symmetries=dict(ts), normalizations=norms(s, a)))
            elif a == "A":
                axes.append(s.Data1D(name="angle", unit="rad", values=ctx.arr([i * h for i in range(n)]), symmetries=dict(as_), normalizations=norms(s, a)))
            else:
                axes.append(other_axis(ctx, s, a))
        comps[c] = s.DataTime(name="f_" + c, symbol="X", unit="T", axes=axes, values=ctx.reals(c, tuple(dims)), normalizations={"ref": s.Norm_ref(ref=2)})
    v = s.VectorField(name="v", symbol="X", components=comps)
    sp = cfg["sh"] * 60.0
    n = v.change_referential(sp, is_waveform=True, sym_t_new=dict(new))
    ctx.true(type(n) is s.VectorField and (n.name, n.symbol) == ("v", "X"), "description of the vector field")
    ctx.true(list(n.components) == list(comps), "components")
    names = [{"F": "time", "A": "angle"}.get(a, "z") + "[smallestperiod]" for a in lay]
    for c, d in comps.items():
        e = d.change_referential(sp, is_waveform=True, sym_t_new=dict(new))[0]
        g = n.components[c]
        meta(ctx, s, d, g, False)
        a, b = g.get_along(*names, is_squeeze=False), e.get_along(*names, is_squeeze=False)
        for k in ["time", "angle"]:
            ctx.eq(a[k], [q for q in b[k]], k, tol=1e-9)
        ctx.true(a["X"].shape == b["X"].shape, "shape")
        ctx.eq(a["X"], nest(list(b["X"].shape), lambda *i: b["X"][i]), "component " + c)
        ctx.true([q.symmetries for q in g.axes] == [q.symmetries for q in e.axes], "symmetries")


def wave(ctx, cfg):
    s = dt()
    lay, ts, as_ = cfg["lay"], cfg["ts"], cfg["as_"]
    other, shape = split(lay)
    nt, na = cfg["nt"], cfg["na"]
    dims = [nt if a == "F" else na if a == "A" else 2 for a in lay]
    x = ctx.reals("x", tuple(dims))
    rt1 = rebuild([0] * nt, {"antiperiod": 2} if "antiperiod" in ts else {})
    ra1 = rebuild([0] * na, {"antiperiod": 2} if "antiperiod" in as_ else {})
    Pa = list(as_.values())[0] if as_ else 1
    da = 2 * math.pi / (na * Pa)
    dtm = 0.25
    a0 = 0.5 if cfg["ax"] == "off" else 0.0
    t0 = 0.0 if cfg["ax"] != "offt" else 0.125 if cfg["op"] == "go" else 0.25

    def mk(name, unit, v0, h, n, sym):
        if cfg["ax"] == "1D":
            return s.Data1D(name=name, unit=unit, values=ctx.arr([v0 + i * h for i in range(n)]), symmetries=dict(sym), normalizations=norms(s, name))
        return s.DataLinspace(name=name, unit=unit, initial=v0, final=v0 + n * h, number=n, include_endpoint=False, symmetries=dict(sym), normalizations=norms(s, name))

    axes = []
    for a in lay:
        if a == "F":
            axes.append(mk("time", "s", t0, dtm, nt, ts))
        elif a == "A":
            axes.append(mk("angle", "rad", a0, da, na, as_))
        else:
            axes.append(other_axis(ctx, s, a))
    d = s.DataTime(name="f", symbol="X", unit="T", axes=axes, values=x, normalizations={"ref": s.Norm_ref(ref=2)})
    sh = cfg["sh"]
    sp = sh * da / dtm * 60 / (2 * math.pi)
    new = cfg["new"]
    # keep clear of the jump from one sample to the next by rounding: linear interpolation is continuous
    given = dict(new)
    n = d.change_referential(sp, is_waveform=True, sym_t_new=given)[0]
    meta(ctx, s, d, n, False)
    ctx.true(n.axes[lay.index("F")].symmetries is not given, "symmetry of its own")
    if cfg["op"] == "back":
        n = n.change_referential(-sp, is_waveform=True, sym_t_new=dict(ts))[0]
        sh = 0
    N1, A1 = len(rt1), len(ra1)

    def val(i, pos, o):
        """one period of the field at time i and position pos (in samples)"""
        m = math.floor(pos)
        f = pos - m
        r = 0
        for q, w in ((m, 1 - f), (m + 1, f)):
            if w == 0:
                continue
            pi, si = rt1[i]
            pj, sj = ra1[q % A1]
            it = iter(o)
            ix = tuple(pi if a == "F" else pj if a == "A" else next(it) for a in lay)
            r = r + x[ix] * (si * sj * w)
        return r

    ntn = N1 // 2 if "antiperiod" in new else N1
    nan_ = A1 // 2 if "antiperiod" in as_ else A1

    def want(*ix):
        o = tuple(i for i, a in zip(ix, lay) if a not in ("F", "A"))
        i, j = ix[lay.index("F")], ix[lay.index("A")]
        return val(i, j + sh * (i + t0 / dtm), o)

    args = [{"F": "time", "A": "angle", "z2": "z", "foo2": "foo"}[a] + "[smallestperiod]" for a in lay]
    ctx.true([ax.name for ax in n.axes] == [a.split("[")[0] for a in args], "axes")
    r = n.get_along(*args, is_squeeze=False)
    got_dims = [ntn if a == "F" else nan_ if a == "A" else 2 for a in lay]
    ctx.eq(r["X"], nest(got_dims, want), "waveform in the rotating frame", tol=1e-3)
    ctx.eq(r["time"], [t0 + i * dtm for i in range(ntn)], "time", tol=1e-6)
    ctx.eq(r["angle"], [a0 + i * da for i in range(nan_)], "angle", tol=1e-6)
    ctx.true(n.axes[lay.index("F")].symmetries == new if cfg["op"] == "go" else True, "time symmetry")
    pa, ap = n.axes[lay.index("A")].get_periodicity()
    ctx.true((pa, ap) == (Pa, "antiperiod" in as_), "angle symmetry")
