"""Vector fields between Cartesian and cylindrical components."""
import math

from .common import dt, nest, rebuild, dft

BOUNDS = (
    "1 to 3 axes of 2 to 4 stored samples (up to 8 after rebuild of the symmetry), angle axis at any "
    "position, symbolic or uniform angles; 1 to 3 components; whole axes, stored period, selections, mean, "
    "sum, spectrum along the angle, other unit; fields stored in time or frequency; up to 3 points for the coordinates"
)
ASSUMPTIONS = [
    "angle axes are stored in rad, their usual unit",
    "the object returned by to_xyz keeps the symmetries of the cylindrical field: with an angle symmetry only its "
    "stored samples are stated, see the known finding",
]

RP = ["radial", "tangential", "axial"]
XY = ["comp_x", "comp_y", "comp_z"]
SYMB = {"radial": "B_r", "tangential": "B_t", "axial": "B_z", "comp_x": "B_x", "comp_y": "B_y", "comp_z": "B_z"}


def configs(tier):
    out = []

    def add(op, **kw):
        if op == "mag" and any("=" in r for r in kw["req"]):
            return  # reductions of magnitudes: P19
        if op == "mag" and "wavenumber" in kw["req"] and any(a[2].get("antiperiod") == 4 for a in kw["axes"]):
            return  # rounding of the eighth roots inside a square root
        name = op
        for k, v in kw.items():
            if k == "axes":
                v = "_".join("%s%d%s" % (a, n, "".join(q[0] + str(w) for q, w in s.items())) for a, n, s in v)
            elif isinstance(v, list):
                v = "+".join(str(e) for e in v)
            name += "-%s" % v
        out.append(dict(kw, op=op, name=name))

    for n in [1, 2, 3]:
        for f in ["xyz_to_rphiz", "rphiz_to_xyz", "rphiz_to_xyz2", "xyz_to_rphiz_field", "rphiz_to_xyz_field"]:
            add(f, n=n)
        for f in ["xy_to_rphi", "rphi_to_xy"]:
            add(f, n=n)
    for shape in [[3], [2, 3], [3, 2], [2, 2, 2], [1, 3], [2, 1]]:
        for f in ["cart2pol", "pol2cart"]:
            add(f, shape=shape)

    A = ["angle", 3, {}]
    T = ["time", 2, {}]
    lay = [
        [A],
        [T, A],
        [A, T],
        [T, ["angle", 2, {}], ["z", 2, {}]],
        [["angle", 2, {}], T, ["z", 2, {}]],
        [T, ["z", 2, {}], ["angle", 2, {}]],
    ]
    comps = {
        "xyz": [["radial"], ["tangential"], ["radial", "tangential"], RP, ["radial", "tangential", "comp_z"], ["axial"]],
        "rphiz": [["comp_x"], ["comp_y"], ["comp_x", "comp_y"], XY, ["comp_x", "comp_y", "axial"], ["comp_z"]],
    }
    same = {
        "xyz": [["comp_x"], ["comp_y"], ["comp_x", "comp_y"], XY, ["comp_y", "comp_z"], ["comp_z"], ["comp_x", "axial"]],
        "rphiz": [["radial"], ["tangential"], ["radial", "tangential"], RP, ["tangential", "axial"], ["axial"], ["radial", "comp_z"]],
    }
    for to in ["xyz", "rphiz"]:
        two = comps[to][2]
        for axes in lay:
            names = [a[0] for a in axes]
            for c in comps[to] if len(axes) < 3 else comps[to][2:4]:
                add("along", to=to, comps=c, axes=axes, req=names)
                add("mag", to=to, comps=c, axes=axes, req=names)
            for c in same[to] if len(axes) < 3 else same[to][3:4]:
                add("along", to=to, comps=c, axes=axes, req=names)
                add("mag", to=to, comps=c, axes=axes, req=names)
            add("object", to=to, comps=two, axes=axes)
            add("object", to=to, comps=comps[to][3], axes=axes)
            add("object", to=to, comps=comps[to][4], axes=axes)
            add("object", to=to, comps=comps[to][0], axes=axes)
            add("object", to=to, comps=comps[to][1], axes=axes)
            add("object", to=to, comps=same[to][3], axes=axes)
            add("around", to=to, comps=two, axes=axes)
            add("around", to=to, comps=comps[to][3], axes=axes)
            add("norm", to=to, comps=two, axes=axes)
        for r in [
            ["time", "angle[1]"],
            ["time[1]", "angle"],
            ["time[1]", "angle[0,2]"],
            ["time=mean", "angle"],
            ["time", "angle=sum"],
            ["time", "angle=mean"],
            ["time=sum", "angle[0]"],
            ["angle"],
            ["time"],
            ["angle[2]", "time[0]"],
            ["time", "wavenumber"],
            ["wavenumber", "time[1]"],
            ["angle", "time"],
        ]:
            for axes in [[T, A], [A, T], [T, A, ["z", 2, {}]]]:
                for op in ["along", "mag"]:
                    add(op, to=to, comps=two, axes=axes, req=r)
                add("along", to=to, comps=comps[to][3], axes=axes, req=r)
            add("along", to=to, comps=two, axes=[T, A], req=r, unit="mT")
            add("mag", to=to, comps=two, axes=[A, T], req=r, unit="mT")
            add("along", to=to, comps=two, axes=[A, T], req=r, unit="norm")
            add("along", to=to, comps=comps[to][0], axes=[T, A], req=r)
            add("along", to=to, comps=comps[to][1], axes=[T, A], req=r)
            add("nosq", to=to, comps=two, axes=[T, A], req=r)
            add("nosq", to=to, comps=comps[to][3], axes=[A, T], req=r)
        for sym in [{"period": 2}, {"antiperiod": 2}, {"period": 4}, {"antiperiod": 4}]:
            for r in [
                ["time", "angle"],
                ["time", "angle[smallestperiod]"],
                ["time[smallestperiod]", "angle[oneperiod]"],
                ["time[oneperiod]", "angle[smallestperiod]"],
                ["time", "angle[3]"],
                ["time[1]", "angle=mean"],
                ["time", "wavenumber"],
                ["time", "angle[antiperiod]"],
                ["time[smallestperiod]", "angle"],
                ["time[oneperiod]", "angle"],
                ["angle", "time[smallestperiod]"],
                ["time[antiperiod]", "angle[2]"],
            ]:
                if "antiperiod" not in sym and "angle[antiperiod]" in r:
                    continue
                for axes in [
                    [T, ["angle", 2, sym]],
                    [["angle", 2, sym], ["time", 2, {"antiperiod": 2}]],
                    [["time", 2, {"period": 2}], ["angle", 2, sym], ["z", 2, {}]],
                ]:
                    if "time[antiperiod]" in r and not any(a[2].get("antiperiod") for a in axes if a[0] == "time"):
                        continue
                    add("along", to=to, comps=two, axes=axes, req=r)
                    add("mag", to=to, comps=two, axes=axes, req=r)
                if "time[antiperiod]" in r:
                    continue
                add("along", to=to, comps=comps[to][3], axes=[T, ["angle", 2, sym]], req=r)
                add("along", to=to, comps=comps[to][0], axes=[T, ["angle", 2, sym]], req=r)
            for axes in [[T, ["angle", 2, sym]], [["angle", 2, sym], ["time", 2, {"antiperiod": 2}]]]:
                add("object", to=to, comps=two, axes=axes)
                add("around", to=to, comps=comps[to][3], axes=axes)
        F = ["freqs", 3, {}]
        for axes in [[F, A], [A, F], [F, ["angle", 2, {}], ["z", 2, {}]]]:
            for r in [["freqs", "angle"], ["freqs[1]", "angle"], ["freqs", "angle[1]"], ["angle", "freqs[0,2]"], ["freqs"], ["freqs[2]", "angle[0]"]]:
                for c in [two, comps[to][3], comps[to][0]]:
                    add("along", to=to, comps=c, axes=axes, req=r)
                    add("mag", to=to, comps=c, axes=axes, req=r)
                add("along", to=to, comps=two, axes=axes, req=r, unit="mT")
        for sym in [{"period": 2}, {"antiperiod": 2}]:
            for r in [["freqs", "angle"], ["freqs", "angle[smallestperiod]"], ["freqs[1]", "angle[3]"]]:
                add("along", to=to, comps=two, axes=[F, ["angle", 2, sym]], req=r)
                add("along", to=to, comps=two, axes=[["angle", 2, sym], F], req=r)
        add("objwhole", to=to, comps=two, axes=[T, ["angle", 2, {"antiperiod": 2}]])
    return out


def field(ctx, cfg):
    s = dt()
    axes = []
    vals = []
    pos = []
    for name, n, sym in cfg["axes"]:
        p = rebuild([0] * n, sym)
        if name == "angle":
            if sym or any("wavenumber" in r or "mean" in r for r in cfg.get("req", [])):
                h = 2 * math.pi / len(p)
                v = [i * h for i in range(len(p))]
            else:
                w = ctx.increasing("phi", n, -7, 7, 0.1)
                v = [w[i] for i in range(n)]
            unit = "rad"
        else:
            v = [0.25 * i for i in range(len(p))]
            unit = {"time": "s", "z": "m", "freqs": "Hz"}[name]
        axes.append(s.Data1D(name=name, unit=unit, values=ctx.arr(v[:n]), symmetries=dict(sym)))
        vals.append(v)
        pos.append(p)
    data = {}
    stored = {}
    shape = tuple(a[1] for a in cfg["axes"])
    freq = any(a[0] == "freqs" for a in cfg["axes"])
    for c in cfg["comps"]:
        stored[c] = (ctx.complexes if freq else ctx.reals)(c, shape, -1e3, 1e3)
        data[c] = (s.DataFreq if freq else s.DataTime)(
            name=c + " field",
            symbol=SYMB[c],
            unit="T",
            axes=axes,
            values=stored[c],
            normalizations={"ref": s.Norm_ref(ref=4)},
        )
    return s.VectorField(name="field", symbol="B", components=data), vals, pos, stored


def converted(ctx, cfg, vals, pos, stored):
    """list of three functions of the complete indices: the components of the full field."""
    to = cfg["to"]
    ia = [a[0] for a in cfg["axes"]].index("angle")

    def full(c):
        def f(*i):
            if c not in stored:
                return 0
            sg = 1
            ix = []
            for p, q in zip(pos, i):
                ix.append(p[q][0])
                sg *= p[q][1]
            return sg * stored[c][tuple(ix)]

        return f

    cs = {}

    def cosin(i):
        if i not in cs:
            cs[i] = (ctx.cos(vals[ia][i]), ctx.sin(vals[ia][i]))
        return cs[i]

    zc = "axial" if "axial" in stored else "comp_z"
    src, dst = (RP, XY) if to == "xyz" else (XY, RP)
    if src[0] not in stored and src[1] not in stored:
        return [full(dst[0]), full(dst[1]), full(zc)]
    a, b = full(src[0]), full(src[1])
    sg = -1 if to == "xyz" else 1

    def first(*i):
        c, s = cosin(i[ia])
        return a(*i) * c + sg * b(*i) * s

    def second(*i):
        c, s = cosin(i[ia])
        return -sg * a(*i) * s + b(*i) * c

    return [first, second, full(zc)]


def extract(ctx, cfg, vals, pos, f, mag):
    """value of the request: (nested values, keep) evaluated on the full field f."""
    names = [a[0] for a in cfg["axes"]]
    req = {}
    for r in cfg["req"]:
        n = r.split("[")[0].split("=")[0]
        n = "angle" if n == "wavenumber" else n
        req[n] = r
    dims = []
    for j, (name, n, sym) in enumerate(cfg["axes"]):
        r = req.get(name)
        N = len(pos[j])
        if r is None:
            dims.append(("pick", [0]))
        elif r == name:
            dims.append(("pick", list(range(N))))
        elif r == "wavenumber":
            dims.append(("dft", list(range(-(N // 2), N - N // 2))))
        elif "smallestperiod" in r or "antiperiod" in r:
            dims.append(("pick", list(range(n))))
        elif "oneperiod" in r:
            per = 2 * n if "antiperiod" in sym else n
            dims.append(("pick", list(range(per))))
        elif "mean" in r:
            dims.append(("mean", [0]))
        elif "sum" in r:
            dims.append(("sum", [0]))
        else:
            dims.append(("pick", [int(k) for k in r.split("[")[1][:-1].split(",")]))
    unit = cfg.get("unit")
    fac = {"mT": 1000, "norm": 0.25, None: 1}[unit]

    def at(idx):
        lists = []
        for j, ((kind, l), q) in enumerate(zip(dims, idx)):
            N = len(pos[j])
            if kind == "pick":
                lists.append([(l[q], 1)])
            elif kind == "dft":
                # order -r .. : value at r = 1/N sum x exp(-i r phi)
                from .common import unit_root

                lists.append([(m, unit_root(l[q] * m, N, -1) * (1 / N)) for m in range(N)])
            elif kind == "mean":
                lists.append([(m, 1 / N) for m in range(N)])
            else:
                lists.append([(m, 1) for m in range(N)])
        import itertools

        t = 0
        for combo in itertools.product(*lists):
            w = fac
            for _, c in combo:
                w = w * c
            t = t + f(*[m for m, _ in combo]) * w
        return t

    lens = [len(d[1]) for d in dims]
    return lens, lambda *i: at(i), dims


def run(ctx, cfg):
    op = cfg["op"]
    if "to" not in cfg:
        return functions(ctx, cfg)
    vf, vals, pos, stored = field(ctx, cfg)
    to = cfg["to"]
    dst = XY if to == "xyz" else RP
    fs = converted(ctx, cfg, vals, pos, stored)
    names = [a[0] for a in cfg["axes"]]
    shape = tuple(a[1] for a in cfg["axes"])
    if op in ("along", "mag", "nosq"):
        meth = {
            ("along", "xyz"): vf.get_xyz_along,
            ("nosq", "xyz"): vf.get_xyz_along,
            ("mag", "xyz"): vf.get_mag_xyz_along,
            ("along", "rphiz"): vf.get_rphiz_along,
            ("nosq", "rphiz"): vf.get_rphiz_along,
            ("mag", "rphiz"): vf.get_mag_rphiz_along,
        }[op, to]
        kw = {}
        if cfg.get("unit") == "mT":
            kw["unit"] = "mT"
        if cfg.get("unit") == "norm":
            kw["is_norm"] = True
        if op == "nosq":
            kw["is_squeeze"] = False
        r = meth(*cfg["req"], **kw)
        for c, f in zip(dst, fs):
            lens, val, dims = extract(ctx, cfg, vals, pos, f, op == "mag")
            keep = [k for k, n in enumerate(lens) if n > 1 or op == "nosq"]

            def sq(*i):
                full = [0] * len(lens)
                for q, k in zip(i, keep):
                    full[k] = q
                v = val(*full)
                if op == "mag":
                    v = abs(v)
                return v

            ctx.eq(r[c], nest([lens[k] for k in keep], sq), c, tol=1e-4)
        for rq in cfg["req"]:
            n = rq.split("[")[0].split("=")[0]
            j = names.index("angle" if n == "wavenumber" else n)
            kind, l = dims[j]
            if kind == "pick":
                ctx.eq(r[n], [vals[j][k] for k in l], "axis " + n, tol=1e-6)
            elif kind == "dft":
                ctx.eq(r[n], [float(k) for k in l], "axis " + n, tol=1e-6)
        ctx.true(sorted(vf.components) == sorted(cfg["comps"]), "components of the field are kept")
        return
    conv = vf.to_xyz() if to == "xyz" else vf.to_rphiz()

    def small(f):
        return nest(shape, lambda *i: f(*i))

    if op == "object":
        want = [c for c, f in zip(dst, fs) if c != dst[2]]
        if all(c in dst for c in cfg["comps"]):
            want = cfg["comps"]
        elif "axial" in stored or "comp_z" in stored:
            want = dst
        ctx.true(sorted(conv.components) == sorted(want), "components of the converted field")
        for c, f in zip(dst, fs):
            if c in conv.components:
                d = conv.components[c]
                ctx.eq(d.values, small(f), "values of " + c, tol=1e-4)
                ctx.true([a.name for a in d.axes] == names, "axes of " + c)
                ctx.true([a.symmetries for a in d.axes] == [a[2] for a in cfg["axes"]], "symmetries of " + c)
                ctx.true(d.unit == "T", "unit of " + c)
                for a, v, n in zip(d.axes, vals, shape):
                    ctx.eq(a.get_values(is_smallestperiod=True), v[:n], "axis values of " + c, tol=1e-6)
    elif op == "around":
        back = conv.to_rphiz() if to == "xyz" else conv.to_xyz()
        ctx.true(sorted(back.components) == sorted(cfg["comps"]), "components after the return")
        for c in cfg["comps"]:
            ctx.eq(back.components[c].values, stored[c], "values of %s after the return" % c, tol=1e-4)
    elif op == "norm":
        a, b = (conv.components[c].values for c in dst[:2])
        p, q = (stored[c] for c in cfg["comps"][:2])
        ctx.eq(a * a + b * b, p * p + q * q, "magnitude of the vector", tol=1e-1)
    elif op == "objwhole":
        r = conv.components[dst[0]].get_along(*names)
        lens = [len(p) for p in pos]
        ctx.eq(r[conv.components[dst[0]].symbol], nest(lens, lambda *i: fs[0](*i)), "whole converted field", tol=1e-4)


def functions(ctx, cfg):
    import importlib

    C = importlib.import_module("SciDataTool.Functions.conversions")
    op = cfg["op"]
    pi2 = 2 * math.pi
    if op in ("cart2pol", "pol2cart"):
        shape = tuple(cfg["shape"])
        a = ctx.reals("a", shape, -1e3, 1e3)
        b = ctx.reals("b", shape, -1e3, 1e3)
        k = 1 if len(shape) > 1 else 0
        phi = ctx.reals("phi", (shape[k],), -10, 10)
        got = getattr(C, op)(a, b, phi)
        sg = 1 if op == "cart2pol" else -1

        def f1(*i):
            return a[i] * ctx.cos(phi[i[k]]) + sg * b[i] * ctx.sin(phi[i[k]])

        def f2(*i):
            return -sg * a[i] * ctx.sin(phi[i[k]]) + b[i] * ctx.cos(phi[i[k]])

        ctx.eq(got[0], nest(shape, f1), "first component", tol=1e-4)
        ctx.eq(got[1], nest(shape, f2), "second component", tol=1e-4)
        back = getattr(C, "pol2cart" if sg == 1 else "cart2pol")(got[0], got[1], phi)
        ctx.eq(back[0], a, "first component after the return", tol=1e-4)
        ctx.eq(back[1], b, "second component after the return", tol=1e-4)
        return
    n = cfg["n"]
    v = ctx.reals("v", (n, 3), -1e3, 1e3)
    if op.endswith("_field"):
        phi = ctx.reals("phi", (n,), -10, 10)
        got = getattr(C, op)(v, phi)
        sg = 1 if op.startswith("xyz") else -1
        want = []
        for i in range(n):
            c, s = ctx.cos(phi[i]), ctx.sin(phi[i])
            want.append([v[i, 0] * c + sg * v[i, 1] * s, -sg * v[i, 0] * s + v[i, 1] * c, v[i, 2]])
        ctx.eq(got, want, "components", tol=1e-4)
        return
    if op in ("rphiz_to_xyz", "rphiz_to_xyz2", "rphi_to_xy"):
        r = ctx.reals("r", (n,), 0, 1e3)
        p = ctx.reals("p", (n,), -10, 10)
        x = [r[i] * ctx.cos(p[i]) for i in range(n)]
        y = [r[i] * ctx.sin(p[i]) for i in range(n)]
        if op == "rphi_to_xy":
            got = C.rphi_to_xy(r, p)
            ctx.eq(got[0], x, "x", tol=1e-4)
            ctx.eq(got[1], y, "y", tol=1e-4)
        elif op == "rphiz_to_xyz":
            got = C.rphiz_to_xyz(ctx.arr([[r[i], p[i], v[i, 2]] for i in range(n)]))
            ctx.eq(got, [[x[i], y[i], v[i, 2]] for i in range(n)], "coordinates", tol=1e-4)
        else:
            got = C.rphiz_to_xyz(ctx.arr([[r[i], p[i]] for i in range(n)]))
            ctx.eq(got, [[x[i], y[i]] for i in range(n)], "coordinates", tol=1e-4)
        return
    # to cylindrical coordinates
    rr, pp = [], []
    for i in range(n):
        x, y = v[i, 0], v[i, 1]
        # away from the axis and from the half line where the angle jumps
        ctx.assume(x * x + y * y > 1e-2)
        ctx.assume((x < 0) | (y > 1e-3) | (y < -1e-3))
        rr.append(ctx.sqrt(x * x + y * y))
        a = ctx.atan2(y, x)
        pp.append(a if ctx.decide(y >= 0) else a + pi2)
    if op == "xyz_to_rphiz":
        got = C.xyz_to_rphiz(v)
        ctx.eq(got, [[rr[i], pp[i], v[i, 2]] for i in range(n)], "coordinates", tol=1e-4)
    else:
        got = C.xy_to_rphi(v[:, 0], v[:, 1])
        ctx.eq(got[0], rr, "radius", tol=1e-4)
        ctx.eq(got[1], pp, "angle", tol=1e-4)
