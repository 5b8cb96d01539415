"""Magnitude, phase and largest harmonics."""
from .common import dt, nest

BOUNDS = (
    "1 to 3 axes of 1 to 4 samples, real and complex fields stored in time, space, frequency or order; whole, "
    "index, value, interval and spectral requests, units, normalizations; magnitude of reduced spectra; "
    "N=1..4 largest of up to 4 lines (any order of the amplitudes) over one or two spectral axes in both orders, "
    "with further axes selected or left out; N=1..2 largest lines of each component of vector fields of 1 to 3 components"
)
ASSUMPTIONS = [
    "reductions of a magnitude request act on the magnitudes",
    "the frequencies given with the harmonics of a vector field are those of its first component",
    "lines compared by the N largest are those of the request; lines of equal amplitude may come in any order",
]
UNIT = {"time": "s", "angle": "rad", "freqs": "Hz", "wavenumber": "dimless"}


def configs(tier):
    out = []

    def add(kind, axes, req, **kw):
        name = "%s-%s-%s%s" % (
            kind,
            "x".join("%s%d" % (a, n) for a, n in axes),
            ";".join(req),
            "".join("-%s" % (v,) for v in kw.values()),
        )
        out.append(dict({"name": name.replace(" ", ""), "kind": kind, "axes": axes, "req": req}, **kw))

    reqs = [
        ([["time", 4]], ["time"]),
        ([["time", 4]], ["freqs"]),
        ([["time", 3]], ["freqs"]),
        ([["time", 4]], ["freqs[1]"]),
        ([["time", 4]], ["freqs=[0,1]"]),
        ([["time", 3]], ["time=[0.2,1]"]),
        ([["time", 3], ["angle", 3]], ["freqs", "wavenumber"]),
        ([["time", 2], ["angle", 3]], ["time", "wavenumber"]),
        ([["angle", 3], ["time", 2]], ["time[1]", "angle"]),
        ([["angle", 3], ["time", 3]], ["freqs[1]", "wavenumber"]),
        ([["time", 2], ["z", 2], ["angle", 3]], ["freqs", "z[1]", "angle"]),
        ([["time", 2], ["z", 2]], ["time"]),
        ([["freqs", 3]], ["freqs"]),
        ([["freqs", 3]], ["freqs[0,2]"]),
        ([["freqs", 3]], ["time"]),
        ([["freqs", 2], ["wavenumber", 3]], ["freqs", "wavenumber"]),
        ([["wavenumber", 3], ["freqs", 2]], ["freqs", "wavenumber[2]"]),
        ([["freqs", 2], ["angle", 3]], ["freqs[1]", "angle"]),
        ([["freqs", 2], ["foo", 2], ["z", 1]], ["freqs", "foo", "z"]),
    ]
    for axes, req in reqs:
        for kind in ["mag", "phase"]:
            add(kind, axes, req, unit="SI")
            add(kind, axes, req, unit="ref")
        add("mag", axes, req, unit="mT")
        add("mag", axes, req, unit="norm")
        add("phase", axes, req, unit="deg")
        add("phase", axes, req, unit="rad")
    for op in ["sum", "mean", "max", "min"]:
        add("magred", [["freqs", 3]], ["freqs=" + op], op=op, k=0)
        add("magred", [["foo", 2], ["freqs", 2]], ["foo", "freqs=" + op], op=op, k=1)
        add("magred", [["time", 4]], ["freqs=" + op], op=op, k=0)
        add("magred", [["foo", 3]], ["foo=" + op], op=op, k=0)
    for n in range(1, 5):
        add("harm", [["freqs", 3]], ["freqs"], N=n)
        add("harm", [["wavenumber", 3]], ["wavenumber"], N=n)
        add("harm", [["time", 4]], ["freqs"], N=n)
        add("harm", [["angle", 3]], ["wavenumber"], N=n)
        add("harm", [["freqs", 2], ["wavenumber", 2]], ["freqs", "wavenumber"], N=n)
        add("harm", [["wavenumber", 2], ["freqs", 2]], ["freqs", "wavenumber"], N=n)
        add("harm", [["wavenumber", 1], ["freqs", 3]], ["freqs", "wavenumber"], N=n)
        add("harm", [["z", 2], ["freqs", 3]], ["freqs", "z[1]"], N=n)
        add("harm", [["z", 2], ["freqs", 3]], ["freqs"], N=n)
        add("harm", [["freqs", 3], ["z", 2]], ["z[1]", "freqs"], N=n)
        add("harm", [["freqs", 2], ["z", 2], ["wavenumber", 2]], ["wavenumber", "freqs", "z[1]"], N=n)
        add("harm", [["freqs", 3], ["wavenumber", 2]], ["freqs", "wavenumber[1]"], N=n)
        add("harm", [["freqs", 3]], ["freqs=[1.5,3.5]"], N=n)
    add("harm", [["freqs", 3]], ["freqs[1]"], N=1)
    add("harm", [["freqs", 3]], ["freqs=2"], N=2)
    add("harm", [["freqs", 1]], ["freqs"], N=1)
    add("harm", [["freqs", 2], ["wavenumber", 1]], ["freqs[0]", "wavenumber"], N=1)
    add("harm", [["freqs", 3]], ["freqs"], N=2, unit="mT")
    add("harm", [["freqs", 3]], ["freqs"], N=2, unit="ref")
    add("harm", [["freqs", 2], ["wavenumber", 2]], ["freqs", "wavenumber"], N=2, flat=True)
    vaxes = [["time", 2], ["angle", 2]]
    for to, sets in {
        "xyz": [["radial", "tangential"], ["radial"], ["tangential"], ["radial", "tangential", "axial"], ["radial", "comp_z"], ["comp_x", "comp_y"], ["comp_x"], ["comp_y"], ["comp_x", "comp_y", "comp_z"], ["comp_y", "axial"], ["comp_x", "axial"], ["comp_y", "comp_z"], ["comp_z"], ["axial"]],
        "rphiz": [["comp_x", "comp_y"], ["comp_x"], ["comp_y"], ["comp_x", "comp_y", "comp_z"], ["comp_x", "axial"], ["radial", "tangential"], ["radial"], ["tangential"], ["radial", "tangential", "axial"], ["tangential", "comp_z"], ["radial", "comp_z"], ["tangential", "axial"], ["axial"], ["comp_z"]],
    }.items():
        for comps in sets:
            for n in [1, 2]:
                add("vharm", vaxes, ["freqs", "angle[1]"], N=n, to=to, comps=comps)
            add("vharm", [["angle", 2], ["time", 2]], ["freqs", "angle[0]"], N=2, to=to, comps=comps, unit="mT")
            add("vharm", [["angle", 3], ["time", 2]], ["wavenumber=[-1,0]", "time[1]"], N=1, to=to, comps=comps, unit="ref")
            if len(comps) == 1:
                add("vharm", vaxes, ["freqs", "wavenumber=[0,1]"], N=2, to=to, comps=comps)
    if tier != "quick":
        for n in [1, 2, 4]:
            add("harm", [["freqs", 4]], ["freqs"], N=n)
            add("harm", [["time", 8]], ["freqs"], N=n)
    return out


def make(ctx, cfg):
    s = dt()
    spectral = any(a in ("freqs", "wavenumber") for a, n in cfg["axes"])
    shape = tuple(n for a, n in cfg["axes"])
    x = (ctx.complexes if spectral else ctx.reals)("x", shape)
    axes = []
    vals = []
    for a, n in cfg["axes"]:
        if a == "freqs":
            v = [1.0 + i for i in range(n)] if cfg["kind"] == "harm" else [0.0 + i for i in range(n)]
        elif a == "wavenumber":
            v = [float(i - n // 2) for i in range(n)]
        elif a == "angle":
            v = [i * 6.283185307179586 / n for i in range(n)]
        else:
            v = [i * 0.25 for i in range(n)]
        vals.append(v)
        axes.append(s.Data1D(name=a, unit=UNIT.get(a, "m"), values=ctx.arr(v)))
    cls = s.DataFreq if spectral else s.DataTime
    norms = {"ref": s.Norm_ref(ref=2.0), "norm": s.Norm_ref(ref=4.0)}
    return cls(name="f", symbol="X", unit="T", axes=axes, values=x, normalizations=norms), x, vals


XYZ = ["comp_x", "comp_y", "comp_z"]
RPZ = ["radial", "tangential", "axial"]


def vectors(ctx, cfg, kw):
    """harmonics of the components of a vector field"""
    import numpy as np

    s = dt()
    axes = []
    for a, n in cfg["axes"]:
        v = [i * (6.283185307179586 if a == "angle" else 1.0) / n for i in range(n)]
        axes.append(s.Data1D(name=a, unit=UNIT[a], values=ctx.arr(v)))
    shape = tuple(n for a, n in cfg["axes"])
    comps = {
        c: s.DataTime(name=c, symbol="F_" + c[-1], unit="T", axes=axes, values=ctx.reals(c, shape, -1e3, 1e3), normalizations={"ref": s.Norm_ref(ref=2.0)})
        for c in cfg["comps"]
    }
    vf = s.VectorField(name="v", symbol="F", components=comps)
    to, N = cfg["to"], cfg["N"]
    whole = (vf.get_mag_xyz_along if to == "xyz" else vf.get_mag_rphiz_along)(*cfg["req"], **kw)
    r = (vf.get_harm_xyz_along if to == "xyz" else vf.get_harm_rphiz_along)(N, *cfg["req"], **kw)
    spec = [a for a in ("freqs", "wavenumber") if a in whole]
    names = XYZ if to == "xyz" else RPZ
    ctx.true([c for c in names if c not in r] == [], "the three components are given")
    first = None
    for c in names:
        lines = flat(whole[c])
        got = flat(r[c])
        n = min(N, len(lines))
        if all(isinstance(v, (int, float)) and v == 0 for v in lines):
            ctx.eq(ctx.arr(got), [0.0] * len(got), "component without field")
            continue
        ctx.true(len(got) == n, "number of harmonics")
        best = [ctx.maxof(lines)] + ([ctx.sumof(lines) - ctx.maxof(lines)] if n == 2 and len(lines) == 2 else [])
        ctx.eq(ctx.arr(got[: len(best)]), best, "largest lines of %s, largest first" % c, tol=1e-3)
        if c == names[0]:
            first = (c, lines, got)
    if first is None:
        return
    # the frequencies are those of the first component
    c, lines, got = first
    if len(spec) == 1:
        pos = [float(v) for v in flat(whole[spec[0]])]
        for i, g in enumerate(got):
            k = float(flat(r[spec[0]])[i])
            ctx.true(k in pos, "harmonic %d is a line" % i)
            ctx.eq(ctx.arr([g]), [lines[pos.index(k)]], "amplitude of %s at its own frequency" % c)


def flat(v):
    import numpy as np

    return list(np.asarray(v, dtype=object).ravel())


def run(ctx, cfg):
    import numpy as np

    kw = {}
    u = cfg.get("unit", "SI")
    if u == "ref":
        kw = {"is_norm": True}
    elif u == "deg":
        kw = {"unit": "°"}
    elif u != "SI":
        kw = {"unit": u}
    if cfg["kind"] == "vharm":
        return vectors(ctx, cfg, kw)
    d, x, vals = make(ctx, cfg)
    req = cfg["req"]
    fac = {"ref": 0.5, "mT": 1000.0, "norm": 0.25}.get(u, 1)
    if cfg["kind"] in ("mag", "phase"):
        r = d.get_along(*req)
        base = r["X"]
        if cfg["kind"] == "mag":
            m = d.get_magnitude_along(*req, **kw)
            want = [abs(v) * fac for v in flat(base)]
            tol = 1e-3 * max(1, fac)
        else:
            m = d.get_phase_along(*req, **kw)
            f = {"deg": 57.29577951308232}.get(u, fac if u == "ref" else 1)
            want = [ctx.atan2(ctx.im(v), ctx.re(v)) * f for v in flat(base)]
            tol = 1e-6
        ctx.shape(m["X"], np.shape(base), cfg["kind"] + " shape")
        ctx.eq(ctx.arr(flat(m["X"])), want, cfg["kind"], tol=tol)
        for a in r:
            if a not in ("X", "axes_list", "axes_dict_other"):
                ctx.eq(m[a], [v for v in r[a]], "axis " + a, tol=1e-6)
        return
    if cfg["kind"] == "magred":
        whole = [q.split("=")[0] for q in req]
        base = np.asarray(d.get_along(*whole, is_squeeze=False)["X"], dtype=object)
        k, op = cfg["k"], cfg["op"]
        r = d.get_magnitude_along(*req)
        sh = base.shape
        rest = [n for j, n in enumerate(sh) if j != k]

        def cell(*i):
            ix = list(i)
            v = [abs(base[tuple(ix[:k] + [q] + ix[k:])]) for q in range(sh[k])]
            if op == "sum":
                return sum(v)
            if op == "mean":
                return sum(v) / len(v)
            return (ctx.maxof if op == "max" else ctx.minof)(v)

        ctx.eq(r["X"], nest(rest, cell), op + " of the magnitudes")
        return
    # N largest lines
    N = cfg["N"]
    if "flat" in cfg:
        kw["is_flat"] = True
    base = d.get_along(*req, is_squeeze=False)
    spec = [a for a in ("freqs", "wavenumber") if a in base]
    arr = np.asarray(base["X"], dtype=object)
    order = [q.name for q in base["axes_list"]]
    lines = []
    for ix in np.ndindex(arr.shape):
        key = []
        for a in spec:
            ax = [q for q in base["axes_list"] if q.name == a][0]
            key.append(float(base[a][ix[ax.index]]))
        lines.append((tuple(key), abs(arr[ix]) * fac))
    r = d.get_harmonics(N, *req, **kw)
    n = min(N, len(lines))
    got = flat(r["X"])
    ctx.true(len(got) == n, "number of harmonics")
    keys = [tuple(float(flat(r[a])[i]) for a in spec) for i in range(n)]
    ctx.true(all(len(flat(r[a])) == n for a in spec), "one frequency per harmonic")
    ctx.true(len(set(keys)) == n, "a line is given once")
    tol = 1e-3 * max(1, fac)
    left = list(lines)
    for i, k in enumerate(keys):
        hit = [j for j, (q, v) in enumerate(left) if q == k]
        ctx.true(len(hit) == 1, "harmonic %d is a line" % i)
        q, v = left.pop(hit[0])
        ctx.eq(ctx.arr([got[i]]), [v], "amplitude at its own frequency", tol=tol)
        if i:
            ctx.le(got[i], got[i - 1], "largest first", tol=tol)
    for q, v in left:
        ctx.le(v, got[n - 1], "no larger line left out", tol=tol)
