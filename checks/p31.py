"""What an axis says about itself agrees with its list of values."""
import itertools

from .common import dt, rebuild

BOUNDS = (
    "explicit, evenly spaced (every way of giving them, end included or not) and pattern axes of 1 to 4 stored samples, symbolic start and "
    "step or symbolic increasing values, fixed steps that are not exact in binary, no symmetry or 2 to 4 (anti)periods, up to 12 samples in full; conversion of uniform and "
    "non-uniform axes (of ordinary and of small values) to evenly spaced ones; reduction to 1 to 4 (anti)periods; filters of one to three items over 2 to 8 components"
)
ASSUMPTIONS = [
    "frequency and wavenumber axes are not repeated by the symmetries they carry",
    "samples closer to even spacing than 1e-5 of their value may be taken as evenly spaced; the others are at least 1 % of the step away",
    "an item of a filter belongs to one key",
]

NAMES = ["time", "angle", "z", "freqs", "wavenumber"]
UNITS = {"time": "s", "angle": "rad", "z": "m", "freqs": "Hz", "wavenumber": "dimless"}
SYMS = [{}, {"period": 1}, {"period": 2}, {"period": 3}, {"antiperiod": 2}, {"antiperiod": 3}, {"antiperiod": 4}]
FORMS = ["nf", "sf", "ns", "nf-open", "sf-open", "ns-open"]
STEPS = [(0.0, 0.1, 3), (0.0, 0.1, 7), (-0.2, 0.1, 6), (0.0, 1e-5, 9), (0.1, 0.7, 4), (1.0, 0.01, 15), (0.0, 0.3, 3), (2.0, -0.1, 6)]
FLAGS = ["whole", "oneperiod", "antiperiod", "smallestperiod"]


def configs(tier):
    out = []

    def add(kind, **kw):
        name = "-".join([kind] + [sname(v) if isinstance(v, dict) else str(v) for v in kw.values()])
        out.append(dict(kw, kind=kind, name=name))

    for nm in NAMES:
        for sym in SYMS:
            for n in [2, 3]:
                add("axis", form="1D", nm=nm, n=n, sym=sym)
                for f in FORMS:
                    if nm in ("time", "freqs") or (n == 3 and f in ("nf", "sf-open")):
                        add("axis", form=f, nm=nm, n=n, sym=sym)
    for f in ["1D"] + FORMS:
        add("axis", form=f, nm="z", n=1, sym={}) if f not in ("sf",) else None
        add("axis", form=f, nm="time", n=4, sym={"antiperiod": 2})
    # steps that are not exact in binary
    for k in range(len(STEPS)):
        for end in [True, False]:
            for sym in [{}, {"period": 2}, {"antiperiod": 2}]:
                add("steps", k=k, end=end, sym=sym)
    for n, ri in [(2, [0, 0, 1]), (2, [0, 1, 0, 1]), (3, [0, 1, 1, 2, 0]), (1, [0, 0, 0])]:
        for whole in [True, False]:
            add("pattern", n=n, ri=ri, whole=whole)
    for nm in ["time", "freqs", "z"]:
        for n in [1, 2, 3, 4]:
            for sym in [{}, {"period": 2}, {"antiperiod": 3}]:
                if n == 1 and sym:
                    continue
                add("linspace", nm=nm, n=n, sym=sym, shape="uniform")
                if n > 2:
                    for k in range(1, n - 1):
                        add("linspace", nm=nm, n=n, sym=sym, shape="bent%d" % k)
                        add("linspace", nm=nm, n=n, sym=sym, shape="bent%d" % k, size=1e-3)
                add("linspace", nm=nm, n=n, sym=sym, shape="uniform", size=1e-3)
    add("linspace", nm="z", n=3, sym={}, shape="text")
    add("linspace", nm="z", n=2, sym={}, shape="text")
    for cls in ["1D", "lin"]:
        for n in [1, 2, 3, 4, 6]:
            for sym in [{}, {"period": 2}, {"antiperiod": 2}, {"antiperiod": 4}, {"period": 3}]:
                tot = len(rebuild([0] * n, sym))
                if tot > 12 or (n == 1 and sym):
                    continue
                for per, anti in itertools.product([1, 2, 3, 4], [False, True]):
                    if tot % (per * (2 if anti else 1)) == 0 and (tot > 1):
                        for vec in [False, True]:
                            if vec and n > 3:
                                continue
                            add("periodic", cls=cls, n=n, sym=sym, per=per, anti=anti, vec=vec)
    for k in range(len(FILTERS)):
        names, flt, _ = FILTERS[k]
        asks = list(itertools.product(*[subsets(v) for v in flt.values()]))
        for i in range(len(asks)):
            if len(asks) > 40 and i % 5:
                continue
            add("filter", k=k, i=i)
    for what in ["time", "freq", "dual", "vector"]:
        add("axes", what=what)
    for syms in itertools.product([{}, {"period": 2}, {"antiperiod": 2}, {"period": 1}], repeat=2):
        add("field", a=syms[0], b=syms[1])
    return out


def sname(d):
    return "_".join("%s%s" % (k, v) for k, v in d.items()) or "none"


def subsets(v):
    return [list(c) for k in range(len(v) + 1) for c in itertools.combinations(v, k)]


# names of the components, filter, delimiter
FILTERS = [
    (["A-1", "A-2", "B-1", "B-2"], {"wire": ["A", "B"], "cond": ["1", "2"]}, "-"),
    (["A-1", "A-2", "B-1", "B-2"], {"cond": ["1", "2"], "wire": ["A", "B"]}, "-"),
    (["1, A", "2, B", "2, A"], {"wire": ["A", "B"], "cond": ["1", "2"]}, ", "),
    (["a", "b", "c"], {"only": ["a", "b", "c"]}, "/"),
    (
        ["%s.%s.%s" % t for t in itertools.product("AB", "12", "xy")],
        {"last": ["x", "y"], "first": ["A", "B"], "mid": ["1", "2"]},
        ".",
    ),
]


def run(ctx, cfg):
    globals()["k_" + cfg["kind"]](ctx, cfg)


def make(ctx, form, nm, n, sym, **kw):
    """axis and the formula of its samples"""
    s = dt()
    u = UNITS[nm]
    a = ctx.real("a", -100, 100)
    if form == "1D" and (not sym or nm in ("freqs", "wavenumber")) and not kw.pop("even", False):
        v = ctx.increasing("v", n, -100, 100, 0.25)
        vals = [v[i] for i in range(n)]
        return s.Data1D(name=nm, unit=u, values=v, symmetries=dict(sym), **kw), vals
    kw.pop("even", None)
    cnt = len(rebuild([0] * n, sym)) if nm not in ("freqs", "wavenumber") else n
    # the number of samples depends on the step only through final and initial
    h = ctx.real("h", 0.25, 10) if not form.startswith("sf") else 0.5
    vals = [a + i * h for i in range(cnt)]
    if form == "1D":
        return s.Data1D(name=nm, unit=u, values=ctx.arr(vals[:n]), symmetries=dict(sym), **kw), vals
    end = "open" not in form
    last = a + (n - 1 if end else n) * h
    p = {"initial": a, "include_endpoint": end}
    if form.startswith("nf"):
        p.update(number=n, final=last)
    elif form.startswith("sf"):
        p.update(step=h, final=last)
    else:
        p.update(number=n, step=h)
    return s.DataLinspace(name=nm, unit=u, symmetries=dict(sym), **p, **kw), vals


def k_axis(ctx, cfg):
    nm, n, sym = cfg["nm"], cfg["n"], cfg["sym"]
    ax, vals = make(ctx, cfg["form"], nm, n, sym)
    spec = nm in ("freqs", "wavenumber")
    anti = "antiperiod" in sym
    per = list(sym.values())[0] if sym else 1
    want = {
        "whole": vals,
        "oneperiod": vals[: n * 2] if anti and not spec else vals[:n],
        "antiperiod": vals[:n],
        "smallestperiod": vals[:n],
    }
    for f in FLAGS:
        if f == "antiperiod" and not anti:
            continue
        kw = {} if f == "whole" else {"is_" + f: True}
        v = ax.get_values(**kw)
        ctx.eq(v, want[f], "values, " + f, tol=1e-6)
        ctx.true(ax.get_length(**kw) == len(want[f]), "length, %s: %s" % (f, ax.get_length(**kw)))
    ctx.true(bool(ax.has_period()) == (per > 1), "has a period")
    ctx.true(tuple(ax.get_periodicity()) == (per, anti and per > 1), "periodicity %s" % (ax.get_periodicity(),))


def k_steps(ctx, cfg):
    """evenly spaced axis given by its step and its end"""
    s = dt()
    a, h, n = STEPS[cfg["k"]]
    end, sym = cfg["end"], cfg["sym"]
    ax = s.DataLinspace(name="angle", unit="rad", initial=a, step=h, final=a + n * h, include_endpoint=end, symmetries=dict(sym))
    n = n + 1 if end else n
    tot = n * list(sym.values() or [1])[0]
    ctx.true(ax.get_length() == tot and ax.get_length(is_smallestperiod=True) == n, "length %s" % ax.get_length())
    ctx.eq(ax.get_values(), [a + i * h for i in range(tot)], "values", tol=1e-6)
    ctx.eq(ax.get_values(is_smallestperiod=True), [a + i * h for i in range(n)], "stored values", tol=1e-6)
    # one sample of a field at each position
    x = ctx.reals("x", (n,))
    d = s.DataTime(name="f", symbol="X", unit="T", axes=[ax], values=x)
    sg = -1 if "antiperiod" in sym else 1
    ctx.eq(d.get_along("angle")["X"], [x[i % n] * sg ** (i // n) for i in range(tot)], "field")


def k_pattern(ctx, cfg):
    s = dt()
    n, ri = cfg["n"], cfg["ri"]
    v = ctx.increasing("v", n, -100, 100, 0.25)
    m = len(ri)
    w = ctx.increasing("w", m, -100, 100, 0.25) if cfg["whole"] else None
    ax = s.DataPattern(
        name="slice",
        unit="m",
        values=v,
        rebuild_indices=list(ri),
        unique_indices=[ri.index(i) for i in range(n)],
        values_whole=w,
        normalizations={"p": s.Norm_ref(ref=4)},
    )
    full = [w[i] for i in range(m)] if cfg["whole"] else [v[i] for i in ri]
    part = [v[i] for i in range(n)]
    for kw, want in [({}, full), ({"is_pattern": True}, part), ({"is_smallestperiod": True}, part)]:
        ctx.eq(ax.get_values(**kw), want, "values %s" % kw, tol=1e-6)
        ctx.eq(ax.get_values(unit="mm", **kw), [1000 * x for x in want], "values in mm %s" % kw, tol=1e-3)
        ctx.eq(ax.get_values(unit="p", **kw), [x / 4 for x in want], "normalized values %s" % kw, tol=1e-6)
        ctx.eq(ax.get_values(normalization="p", **kw), [x / 4 for x in want], "normalized values %s" % kw, tol=1e-6)
        ctx.true(ax.get_length(**kw) == len(want), "length %s" % kw)
    ctx.true(not ax.has_period(), "no period")


def k_linspace(ctx, cfg):
    s = dt()
    nm, n, sym = cfg["nm"], cfg["n"], cfg["sym"]
    if cfg["shape"] == "text":
        v = ["A", "B", "C"][:n]
        ax = s.Data1D(name=nm, unit="", values=v, is_components=True, symbol="c")
        new = ax.to_linspace()
        ctx.true(type(new) is s.Data1D and list(new.values) == v and new == ax and new is not ax, "names kept")
        return
    norms = {"p": s.Norm_ref(ref=4), "q": s.Norm_affine(slope=2, offset=3)}
    z = cfg.get("size", 1)
    a = ctx.real("a", -100 * z, 100 * z)
    h = ctx.real("h", 0.25 * z, 10 * z)
    vals = [a + i * h for i in range(n)]
    if cfg["shape"].startswith("bent"):
        k = int(cfg["shape"][4:])
        # a sample displaced by more than the tolerance of the comparison
        d = ctx.real("d", 0.01 * z, 0.4 * z)
        vals[k] = vals[k] + d * 10 if cfg["sym"] else vals[k] - d
    ax = s.Data1D(
        name=nm, unit=UNITS[nm], values=ctx.arr(vals), symmetries=dict(sym), normalizations=norms, symbol="c"
    )
    new = ax.to_linspace()
    ctx.eq(new.get_values(is_smallestperiod=True), vals, "stored values", tol=1e-6)
    ctx.eq(new.get_values(), ax.get_values(), "values", tol=1e-6)
    ctx.eq(new.get_values(unit="p"), ax.get_values(unit="p"), "normalized values", tol=1e-6)
    ctx.eq(new.get_values(unit="q"), ax.get_values(unit="q"), "other normalized values", tol=1e-6)
    if cfg["shape"] == "uniform" and n > 1:
        ctx.true(type(new) is s.DataLinspace, "evenly spaced axis")
        ctx.true(new.number == n, "number of samples")
    elif cfg["shape"] != "uniform":
        ctx.true(type(new) is s.Data1D, "explicit axis")
    ctx.true((new.name, new.unit, new.symbol, new.is_components) == (nm, UNITS[nm], "c", False), "metadata")
    ctx.true(new.symmetries == sym, "symmetries")
    ctx.true(new is not ax, "new axis")
    # the two axes are independent
    new.symmetries["period"] = 7
    new.normalizations["r"] = s.Norm_ref(ref=2)
    ctx.true(ax.symmetries == sym, "symmetries of the original")
    ctx.true(sorted(ax.normalizations) == ["p", "q"], "normalizations of the original")


def k_periodic(ctx, cfg):
    s = dt()
    n, sym, per, anti = cfg["n"], cfg["sym"], cfg["per"], cfg["anti"]
    norms = {"p": s.Norm_ref(ref=4)}
    if cfg["vec"]:
        w = ctx.increasing("w", n, -100, 100, 0.25)
        tot = len(rebuild([0] * n, sym))
        if sym:
            b = ctx.real("b", -100, 100)
            g = ctx.real("g", 0.25, 10)
            full = [b + i * g for i in range(tot)]
            w = ctx.arr(full[:n])
        else:
            full = [w[i] for i in range(n)]
        norms["w"] = s.Norm_vector(vector=w)
    ax, vals = make(ctx, "1D" if cfg["cls"] == "1D" else "nf", "angle", n, sym, even=True, normalizations=norms, symbol="c")
    tot = len(vals)
    k = per * 2 if anti else per
    new = ax.get_axis_periodic(per, anti)
    ctx.eq(new.get_values(is_smallestperiod=True), vals[: tot // k], "stored values", tol=1e-6)
    ctx.eq(new.get_values(), vals, "values in full", tol=1e-4)
    ctx.true(new.get_length() == tot and new.get_length(is_smallestperiod=True) == tot // k, "lengths")
    ctx.true(tuple(new.get_periodicity()) == (k, anti), "periodicity")
    ctx.eq(new.get_values(unit="p"), [v / 4 for v in vals], "normalized values", tol=1e-4)
    ctx.true((new.name, new.unit, new.symbol, new.is_components) == ("angle", "rad", "c", False), "metadata")
    if cfg["vec"]:
        ctx.eq(new.normalizations["w"].vector, full[: tot // k], "normalization vector", tol=1e-4)
        ctx.eq(ax.normalizations["w"].vector, full[:n], "normalization vector of the original", tol=1e-4)
    ctx.eq(ax.get_values(), vals, "original axis", tol=1e-6)
    ctx.true(ax.symmetries == sym, "original symmetries")


def k_filter(ctx, cfg):
    s = dt()
    names, flt, delim = FILTERS[cfg["k"]]
    ask = list(itertools.product(*[subsets(v) for v in flt.values()]))[cfg["i"]]
    ask = dict(zip(flt, ask))
    ax = s.Data1D(
        name="wires", unit="", values=list(names), is_components=True, delimiter=delim, filter={k: list(v) for k, v in flt.items()}
    )
    # item of each component under each key
    want = []
    for i, nme in enumerate(names):
        items = nme.split(delim)
        ok = all(any(it in ask[k] for it in items if it in flt[k]) for k in flt)
        if ok:
            want.append(i)
    x = ctx.reals("x", (len(names), 2))
    got = ax.get_filter({k: list(v) for k, v in ask.items()})
    ctx.true(list(got) == want, "positions %s" % (got,))
    ctx.true(list(ax.get_filter(dict(reversed(list(ask.items()))))) == want, "order of the keys")
    ctx.true(ax.filter == flt and list(ax.values) == names, "axis kept")
    if want:
        t = s.Data1D(name="time", unit="s", values=ctx.arr([0.0, 1.0]))
        f = s.DataTime(name="f", symbol="X", unit="T", axes=[ax, t], values=x)
        r = f.get_along("wires" + str(list(got)), "time")
        w = [[x[i, 0], x[i, 1]] for i in want]
        ctx.eq(r["X"], w if len(w) > 1 else w[0], "filtered samples")


def k_axes(ctx, cfg):
    s = dt()
    t = s.Data1D(name="time", unit="s", values=ctx.arr([0.0, 0.25, 0.5, 0.75]))
    a = s.Data1D(name="angle", unit="rad", values=ctx.arr([0.0, 1.0]))
    q = s.Data1D(name="freqs", unit="Hz", values=ctx.arr([0.0, 1.0, 2.0]))
    w = s.Data1D(name="wavenumber", unit="dimless", values=ctx.arr([-1.0, 0.0]))
    x = ctx.reals("x", (4, 2))
    y = ctx.complexes("y", (3, 2))
    ft = s.DataTime(name="f", symbol="X", unit="T", axes=[t, a], values=x)
    ff = s.DataFreq(name="f", symbol="X", unit="T", axes=[q, w], values=y)
    what = cfg["what"]
    if what == "dual":
        d = s.DataDual(name="f", symbol="X", unit="T", axes_dt=[t, a], axes_df=[q, w], values_dt=x, values_df=y)
        for names in [("time",), ("angle", "time"), ("freqs", "wavenumber"), ("wavenumber",)]:
            ctx.true([b.name for b in d.get_axes(*names)] == list(names), "axes %s" % (names,))
        return
    if what == "vector":
        f = s.VectorField(name="v", symbol="X", components={"radial": ft, "axial": ft.copy()})
    else:
        f = ft if what == "time" else ff
    full = ["freqs", "wavenumber"] if what == "freq" else ["time", "angle"]
    ctx.true([b.name for b in f.get_axes()] == full, "all axes")
    for names in [(full[0],), (full[1],), (full[1], full[0]), ("z", full[1])]:
        got = [b.name for b in f.get_axes(*names)]
        ctx.true(got == [m for m in names if m in full], "axes %s" % (names,))
    if what == "vector":
        f = ft
    for b in f.get_axes():
        r = f.get_along(b.name)
        ctx.eq(r[b.name], b.get_values(), "axis values of the request")


def k_field(ctx, cfg):
    s = dt()
    t = s.Data1D(name="time", unit="s", values=ctx.arr([0.0, 0.25]), symmetries=dict(cfg["a"]))
    a = s.Data1D(name="angle", unit="rad", values=ctx.arr([0.0, 1.0]), symmetries=dict(cfg["b"]))
    f = s.DataTime(name="f", symbol="X", unit="T", axes=[t, a], values=ctx.reals("x", (2, 2)))
    per = [list(d.values())[0] if d else 1 for d in (cfg["a"], cfg["b"])]
    ans = f.has_period()
    ans = ans[0] if isinstance(ans, (list, tuple)) else ans
    ctx.true(bool(ans) == any(p > 1 for p in per), "field with a period")
    r = f.get_along("time", "angle")
    ctx.shape(r["X"], (2 * per[0], 2 * per[1]), "full field")
