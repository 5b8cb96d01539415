"""Storing an axis or a vector field on another period keeps what is read on the whole axis."""
import math

from .common import dt

BOUNDS = (
    "axes of 1 to 12 samples of any start and step, reduced to 1 to 4 periods or antiperiods, already periodic or not, "
    "given by values or uniform, with reference and vector normalizations; vector fields of 1 to 3 components on time and "
    "angle and a third axis in any order, 1 to 6 stored (anti)periods put together, real or complex; |values|<=1e9"
)
ASSUMPTIONS = [
    "axes are uniform (the whole axis is rebuilt from its smallest period by equal steps)",
    "a number of periods that does not divide the number of samples leaves the axis whole",
    "periodicities of a vector field are compatible: the new number of periods divides the old one; antiperiod counts are even",
]


def configs(tier):
    out = []
    for kind in ["1D", "lin", "linend", "step"]:
        for n in [1, 2, 3, 4, 6, 8, 12]:
            for sym in [{}, {"period": 2}, {"period": 4}, {"antiperiod": 2}, {"antiperiod": 4}]:
                if n == 1 and sym or n * (list(sym.values()) or [1])[0] > 16:
                    continue
                for per in [1, 2, 3, 4]:
                    for aper in [False, True]:
                        out.append({"kind": "axis", "ax": kind, "n": n, "sym": sym, "per": per, "aper": aper})
    comps = [["radial"], ["radial", "tangential"], ["comp_x", "comp_y"], ["radial", "tangential", "axial"]]
    syms = [{}, {"period": 2}, {"period": 4}, {"antiperiod": 2}, {"antiperiod": 4}, {"period": 3}, {"antiperiod": 6}]
    orders = [["time", "angle"], ["angle", "time"], ["time", "angle", "z"], ["z", "time", "angle"], ["time", "z", "angle"], ["time", "angle", "slice"]]
    i = 0
    for st in syms:
        for sa in syms:
            for pt in new_periods(st):
                for pa in new_periods(sa):
                    if tier == "quick" and st and sa and i % 3:
                        i += 1
                        continue
                    i += 1
                    out.append({"kind": "field", "st": st, "sa": sa, "pt": pt, "pa": pa, "order": orders[i % 6], "ax": ["1D", "lin", "linend"][i % 3],
                                "comps": comps[(i // 2) % 4], "start": (i // 3) % 2, "real": i % 5 != 1})
    for c in out:
        c["name"] = "-".join(str(v) for k, v in c.items()).replace(" ", "")
    return out


def new_periods(sym):
    """(number of periods, antiperiodic or None) compatible with a symmetry"""
    k = (list(sym.values()) or [1])[0]
    ap = "antiperiod" in sym
    per = k // 2 if ap else k
    res = [(p, False) for p in range(1, per + 1) if per % p == 0]
    res.append((per, None))
    if ap:
        res.append((per, True))
    return res


def make(ctx, s, name, unit, kind, n, sym, start, step, norms=None):
    norms = norms or {}
    if kind == "1D":
        return s.Data1D(name=name, unit=unit, values=ctx.arr([start + i * step for i in range(n)]), symmetries=dict(sym), normalizations=norms)
    if kind == "step":
        return s.DataLinspace(name=name, unit=unit, initial=start, step=step, number=n, include_endpoint=False, symmetries=dict(sym), normalizations=norms)
    if kind == "lin":
        return s.DataLinspace(name=name, unit=unit, initial=start, final=start + n * step, number=n, include_endpoint=False, symmetries=dict(sym), normalizations=norms)
    return s.DataLinspace(name=name, unit=unit, initial=start, final=start + (n - 1) * step, number=n, include_endpoint=True, symmetries=dict(sym), normalizations=norms)


def run(ctx, cfg):
    s = dt()
    if cfg["kind"] == "axis":
        n, sym = cfg["n"], cfg["sym"]
        k = (list(sym.values()) or [1])[0]
        start = ctx.real("start", -1e3, 1e3)
        step = ctx.real("step", 1e-2, 1e2)
        vec = ctx.real("vec", -1e3, 1e3)
        vst = ctx.real("vst", -1e3, 1e3)
        norms = {"q": s.Norm_ref(ref=4.0), "v": s.Norm_vector(vector=ctx.arr([vec + i * vst for i in range(n)])), "i": s.Norm_indices()}
        a = make(ctx, s, "time", "s", cfg["ax"], n, sym, start, step, norms)
        whole = [start + i * step for i in range(n * k)]
        b = a.get_axis_periodic(cfg["per"], cfg["aper"])
        P = cfg["per"] * (2 if cfg["aper"] else 1)
        fits = (n * k) % P == 0
        ctx.eq(b.get_values(), whole, "whole axis", tol=1e-6)
        ctx.true(b.get_length() == n * k, "length of the whole axis")
        ctx.eq(b.get_values(normalization="q"), [v / 4 for v in whole], "normalized axis", tol=1e-6)
        ctx.eq(b.get_values(normalization="i"), [float(i) for i in range(n * k)], "indices of the axis", tol=1e-6)
        ctx.true((b.name, b.unit) == ("time", "s"), "name and unit")
        if fits:
            m = n * k // P
            ctx.eq(b.get_values(is_smallestperiod=True), whole[:m], "smallest period of the axis", tol=1e-6)
            want = (1, False) if P == 1 else (P, cfg["aper"])
            ctx.true(tuple(b.get_periodicity()) == want, "periodicity")
            if m > 1:
                ctx.eq(b.get_values(normalization="v"), [vec + i * vst for i in range(n * k)], "vector normalization", tol=1e-6)
        else:
            ctx.true(tuple(b.get_periodicity()) == tuple(a.get_periodicity()), "periodicity kept")
            ctx.eq(b.get_values(normalization="v"), [vec + i * vst for i in range(n * k)], "vector normalization", tol=1e-6)
        # the original axis is not changed
        ctx.eq(a.get_values(), whole, "whole original axis", tol=1e-6)
        ctx.eq(a.get_values(normalization="v"), [vec + i * vst for i in range(n * k)], "vector normalization of the original axis", tol=1e-6)
        ctx.true(a.symmetries == sym, "symmetry of the original axis")
        return
    start = 0.5 if cfg["start"] else 0.0
    axes, shape = {}, []
    sizes = {"time": 2, "angle": 3, "z": 2, "slice": 2}
    for nm in cfg["order"]:
        if nm == "time":
            axes[nm] = lambda: make(ctx, s, "time", "s", cfg["ax"], 2, cfg["st"], start, 0.25)
        elif nm == "angle":
            k = (list(cfg["sa"].values()) or [1])[0]
            axes[nm] = lambda k=k: make(ctx, s, "angle", "rad", cfg["ax"], 3, cfg["sa"], start, 2 * math.pi / 3 / k)
        elif nm == "z":
            axes[nm] = lambda: s.Data1D(name="z", unit="m", values=ctx.arr([0.0, 2.0]))
        else:
            axes[nm] = lambda: s.DataPattern(name="slice", unit="m", values=ctx.arr([0.0, 1.0]), values_whole=ctx.arr([0.0, 1.0, 2.0]), rebuild_indices=[0, 1, 0], unique_indices=[0, 1])
        shape.append(sizes[nm])
    comps = {}
    for c in cfg["comps"]:
        comps[c] = s.DataTime(name=c, symbol="B", unit="T", axes=[axes[nm]() for nm in cfg["order"]], values=(ctx.reals if cfg["real"] else ctx.complexes)(c, tuple(shape)), is_real=cfg["real"],
                              normalizations={"ref": s.Norm_ref(ref=2.0)})
    v = s.VectorField(name="v", symbol="F", components=comps)
    (pt, at), (pa, aa) = cfg["pt"], cfg["pa"]
    kw = {"is_aper_a_new": aa}
    if at is None:
        at = "antiperiod" in cfg["st"]
    kw["is_aper_t_new"] = at
    before = {c: comps[c].get_along(*cfg["order"], is_squeeze=False) for c in comps}
    w = v.change_periodicity(pa, pt, **kw)
    ctx.true(list(w.components) == list(comps), "components")
    ctx.true((w.name, w.symbol) == ("v", "F"), "name and symbol of the field")
    ctx.true(w is not v and not any(w.components[c] is comps[c] for c in comps), "another field")
    olds = [id(a) for c in comps for a in comps[c].axes]
    news = [id(a) for c in comps for a in w.components[c].axes]
    ctx.true(len(set(news)) == len(news) and not set(news) & set(olds), "axes are not shared")
    if aa is None:
        aa = "antiperiod" in cfg["sa"]
    for c in comps:
        d = w.components[c]
        ctx.true((d.name, d.symbol, d.unit, d.is_real) == (c, "B", "T", cfg["real"]), "attributes of the component")
        ctx.true([a.name for a in d.axes] == cfg["order"], "axes of the component")
        r = d.get_along(*cfg["order"], is_squeeze=False)
        ctx.eq(r["B"], before[c]["B"].tolist(), "whole field " + c, tol=1)
        for nm in cfg["order"]:
            ctx.eq(r[nm], [x for x in before[c][nm]], "whole axis " + nm, tol=1e-6)
        for a in d.axes:
            if a.name in ("time", "angle"):
                p, ap = (pt, at) if a.name == "time" else (pa, aa)
                want = (2 * p, True) if ap else (p, False)
                ctx.true(tuple(a.get_periodicity()) == want, "periodicity of " + a.name)
        q = d.get_along(*cfg["order"], is_squeeze=False, is_norm=True)
        ctx.eq(q["B"], (before[c]["B"] / 2).tolist(), "normalized field " + c, tol=1)
        ctx.eq(comps[c].get_along(*cfg["order"], is_squeeze=False)["B"], before[c]["B"].tolist(), "original field " + c, tol=1)
