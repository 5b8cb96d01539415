"""Queries leave the data and the caller's arrays untouched."""
import os
import shutil
import tempfile

from .common import dt
from .p15 import Arr, Sp, build, same

BOUNDS = (
    "fields of 1 to 3 axes of 1 to 4 samples (time, angle, step, component and frequency axes, given by values or by first and last value, with and without "
    "period and normalizations), fields with both forms and vector fields; every request on them once, twice, and each ordered pair of requests "
    "(values, magnitudes, phases, harmonics, extracted objects, axes, lengths, transforms, conversions, comparisons, filters, exports, forms for saving); "
    "all field values between 1 and 1e3, symbolic"
)
ASSUMPTIONS = [
    "fields with both forms may keep which form was read last; their two forms themselves never change",
    "results of requests are compared with the results of the same requests on an object never asked before",
]

PI = 3.141592653589793


def objects(ctx, nm, pre=""):
    n = [0]

    def r():
        n[0] += 1
        return ctx.real("%sv%d" % (pre, n[0]), 1, 1e3)

    def mat(*sh, **kw):
        if len(sh) == 1:
            return [(r() + 1j * r()) if kw.get("cpl") else r() for _ in range(sh[0])]
        return [mat(*sh[1:], **kw) for _ in range(sh[0])]

    def ax(name, unit, vals, **kw):
        return Sp("Data1D", **dict(dict(values=Arr(list(vals)), symmetries={}, name=name, unit=unit, normalizations={}, is_components=False), **kw))

    ref = lambda v=2.0: Sp("Norm_ref", ref=v, unit="SI")
    vect = lambda *v: Sp("Norm_vector", vector=Arr(list(v)), unit="SI")
    time = lambda n=4, **kw: ax("time", "s", [i / n for i in range(n)], **kw)
    angle = lambda n=2, per=2, **kw: ax("angle", "rad", [2 * PI / per / n * i for i in range(n)], **kw)
    lin = lambda name="time", unit="s", n=4, final=1.0, **kw: Sp("DataLinspace", **dict(dict(initial=0.0, final=final, number=n, include_endpoint=False, symmetries={}, name=name, unit=unit, normalizations={}), **kw))
    freqs = lambda: ax("freqs", "Hz", [0.0, 1.0, 2.0], normalizations={"elec": ref()})
    wav = lambda: ax("wavenumber", "dimless", [-1.0, 0.0, 1.0], normalizations={"space": ref(1.0)})
    steps = lambda: Sp("DataPattern", name="z", unit="m", values=Arr([0.0, 1.0]), unique_indices=[0, 2], rebuild_indices=[0, 0, 1, 1], values_whole=Arr([0.0, 0.4, 0.6, 1.0]), normalizations={"x L": ref()})
    comp = lambda: ax("comp", "", ["r=0, stator", "r=1, rotor"], is_components=True, delimiter=", ", filter={"order": ["r=0", "r=1"], "place": ["stator", "rotor"]})
    head = dict(symbol="X", name="some field", unit="T")
    fld = lambda cls, axes, vals, **kw: Sp(cls, axes=axes, values=Arr(vals), is_real=kw.get("is_real", True), normalizations={"ref": ref(0.5)}, **head)
    ta = lambda: fld("DataTime", [time(normalizations={"num": vect(1.0, 2.0, 4.0, 8.0), "ind": Sp("Norm_indices", unit="SI")}), angle(symmetries={"period": 2})], mat(4, 2))
    table = {
        "t": lambda: fld("DataTime", [time()], mat(4)),
        "th": lambda: fld("DataTime", [ax("time", "s", [i / 200 for i in range(4)])], mat(4)),
        "ta": ta,
        "lin": lambda: fld("DataTime", [lin("angle", "rad", 2, PI, symmetries={"antiperiod": 2}, normalizations={"tooth": Sp("Norm_affine", slope=2.0, offset=1.0, unit="SI")}), lin(n=2)], mat(2, 2)),
        "ap": lambda: fld("DataTime", [ax("time", "s", [0.0, 0.125], symmetries={"antiperiod": 4}), lin("angle", "rad", 2, PI / 2, symmetries={"antiperiod": 4})], mat(2, 2)),
        "z": lambda: fld("DataTime", [time(2), steps()], mat(2, 2)),
        "comp": lambda: fld("DataTime", [time(2), comp()], mat(2, 2)),
        "cpl": lambda: fld("DataTime", [time(2)], mat(2, cpl=True), is_real=False),
        "f": lambda: fld("DataFreq", [freqs()], mat(3, cpl=True)),
        "fw": lambda: fld("DataFreq", [freqs(), wav()], mat(3, 3, cpl=True)),
        "dual": lambda: Sp("DataDual", axes_dt=[time(2)], values_dt=Arr(mat(2)), axes_df=[ax("freqs", "Hz", [0.0, 1.0])], values_df=Arr(mat(2, cpl=True)), is_real=True, normalizations={"ref": ref(0.5)}, **head),
        "v": lambda: Sp("VectorField", name="force", symbol="F", components={
            k: Sp("DataTime", axes=[time(2), angle(2, 2, symmetries={"period": 2})], values=Arr(mat(2, 2)), is_real=True, normalizations={"ref": ref(0.5)}, symbol="F_" + k[0], name=k, unit="N") for k in ["radial", "tangential", "axial"]}),
        "vx": lambda: Sp("VectorField", name="force", symbol="F", components={
            k: Sp("DataTime", axes=[time(2), angle(4, 1)], values=Arr(mat(2, 4)), is_real=True, normalizations={}, symbol="F_" + k[-1], name=k, unit="N") for k in ["comp_x", "comp_y"]}),
    }
    return table[nm]()


def queries(nm):
    """name -> request; requests marked with ! take several paths"""
    q = {}

    def add(name, f):
        q[name] = f

    def method(m, *a, **k):
        lab = m + ":" + ";".join(str(e) for e in a) + "".join(",%s=%s" % e for e in k.items())
        return lab, lambda env, o, x=None: getattr(x or o, m)(*a, **k)

    def put(m, *a, **k):
        lab, f = method(m, *a, **k)
        add(lab, f)

    def forks(m, *a, **k):
        lab, f = method(m, *a, **k)
        add("!" + lab, f)

    reqs = {
        "t": [["time"], ["time[1]"], ["time=0.3"], ["time=[0.2,0.6]"], ["time=sum"], ["time=derivate"], ["time=integrate"], ["time{ms}"], ["freqs"], ["freqs[1]"], ["freqs=2.0"], ["freqs=[0.5,1.5]"], []],
        "th": [["time"], ["freqs"], ["freqs->1/3oct"], ["freqs->1/1oct"]],
        "ta": [["time", "angle"], ["angle", "time[1]"], ["time->num", "angle{°}"], ["time->ind", "angle"], ["time[smallestperiod]", "angle[smallestperiod]"], ["time=mean", "angle=rms"],
               ["angle[oneperiod]"], ["freqs", "angle"], ["freqs", "wavenumber"], ["freqs[1]", "angle[0]"], ["wavenumber", "time"], ["time=0.3", "angle=1.0"], ["angle=derivate", "time"]],
        "lin": [["time", "angle"], ["angle[antiperiod]", "time"], ["angle->tooth", "time"], ["time[1]"], ["freqs", "wavenumber"], ["angle=integrate"], ["angle=0.7"], ["angle=[10,200]{°}", "time=sum"]],
        "ap": [["time[oneperiod]", "angle[oneperiod]"], ["time[antiperiod]", "angle[smallestperiod]"], ["time", "angle"], ["time[1]", "angle=rss"], ["freqs", "wavenumber"], ["time[oneperiod]", "angle[3]"]],
        "z": [["time", "z"], ["z[pattern]", "time"], ["z->x L", "time"], ["z=sum", "time"], ["z[1]"], ["z=0.5", "time"], ["freqs", "z"]],
        "comp": [["time", "comp"], ["comp[0]", "time"], ["comp=sum"], ["comp[0,1]", "time=mean"], ["freqs", "comp"]],
        "cpl": [["time"], ["freqs"], ["time=sum"], ["time=0.2"]],
        "f": [["freqs"], ["freqs->elec"], ["freqs[1]"], ["freqs=[0.5,2]"], ["freqs=sum"], ["freqs{kHz}"], ["time"], ["time=0.25"]],
        "fw": [["freqs", "wavenumber"], ["freqs->elec", "wavenumber->space"], ["freqs", "wavenumber=1"], ["time", "angle"], ["freqs", "angle"], ["freqs=sum", "wavenumber=sum"]],
        "dual": [["time"], ["freqs"], ["time=sum"], ["freqs[1]"], ["time{ms}"]],
        "v": [["time", "angle"], ["time[1]", "angle"], ["angle[smallestperiod]", "time=mean"], ["angle{°}", "time=0.2"], ["time", "angle=0.3"]],
        "vx": [["time", "angle"], ["time[1]", "angle"], ["angle", "time=mean"]],
    }[nm]
    vec = nm in ("v", "vx")
    if not vec:
        for r in reqs:
            put("get_along", *r)
        r0 = reqs[0]
        for r in reqs[:4]:
            put("get_along", *r, unit="mT")
            put("get_along", *r, is_norm=True)
            put("get_along", *r, is_squeeze=False)
        sp = [r for r in reqs if any("freqs" in e or "wavenumber" in e for e in r) and not any("=" in e for e in r)]
        for r in sp + ([r0] if nm in ("f", "fw") else []):
            put("get_magnitude_along", *r)
        for r in sp[:2] + sp[3:4]:
            put("get_magnitude_along", *r, is_norm=True)
            put("get_magnitude_along", *r, unit="mT")
            put("get_phase_along", *r)
            put("get_phase_along", *r, unit="°")
            if nm not in ("ta", "fw") or "freqs[" in r[0]:
                forks("get_magnitude_along", *r, unit="dB")
        if nm in ("t", "f"):
            forks("get_harmonics", 1, "freqs")
            forks("get_magnitude_along", "freqs", unit="dBA")
        forks("get_along", reqs[0][0] + "=max")
        if nm != "dual":
            for r in reqs[:3] + sp[:1]:
                put("get_data_along", *r)
        put("get_axes")
        put("get_axes", reqs[0][0])
        if nm != "dual":
            put("has_period")
        # axes
        num = {"t": 1, "th": 1, "ta": 2, "lin": 2, "ap": 2, "z": 2, "comp": 2, "cpl": 1, "f": 1, "fw": 2, "dual": 0}[nm]
        for k in range(num):
            def axq(m, *a, **kw):
                add("axes[%d].%s:%s%s" % (k, m, ";".join(str(e) for e in a), kw or ""), lambda env, o, x=None, k=k, m=m, a=a, kw=kw: getattr((x or o).axes[k], m)(*a, **kw))

            axq("get_values")
            axq("get_length")
            axq("has_period")
            pat = nm == "z" and k == 1
            cmp = nm == "comp" and k == 1
            if not cmp:
                axq("get_values", is_smallestperiod=True)
                axq("get_length", is_smallestperiod=True)
            if not pat and not cmp:
                axq("get_values", is_oneperiod=True)
                axq("get_periodicity")
            if nm == "ta" and k == 0:
                axq("get_values", normalization="num")
                axq("get_axis_periodic", 2)
            if nm == "ta" and k == 1:
                axq("get_values", unit="°")
                axq("get_axis_periodic", 4)
                axq("get_axis_periodic", 2, is_aper=True)
                axq("to_linspace")
            if nm == "lin" and k == 0:
                axq("get_values", normalization="tooth")
                axq("get_axis_periodic", 2, is_aper=True)
            if cmp:
                axq("check_filter")
                axq("get_filter", {"order": ["r=0", "r=1"], "place": ["stator"]})
            axq("copy")
        # derived objects and requests on them
        if nm in ("t", "ta", "lin", "ap", "z", "cpl"):
            put("time_to_freq")
            add("time_to_freq().get_along:freqs", lambda env, o, x=None: (x or o).time_to_freq().get_along("freqs"))
        if nm in ("t", "cpl"):
            add("to_datadual().get_along", lambda env, o, x=None: [(x or o).to_datadual().get_along("freqs"), (x or o).to_datadual().get_along("time=sum")])
        if nm in ("f", "fw"):
            put("freq_to_time")
            add("freq_to_time().get_along:time", lambda env, o, x=None: (x or o).freq_to_time().get_along("time=sum"))
            add("to_datadual().get_along", lambda env, o, x=None: [(x or o).to_datadual().get_along("freqs"), (x or o).to_datadual().get_along("time")])
        if nm in ("t", "ta", "lin", "f", "fw"):
            add("get_data_along().get_along", lambda env, o, x=None, r=reqs[0]: (x or o).get_data_along(*r).get_along(*r, unit="mT"))
        if nm == "t":
            add("get_along:time=axis_data", lambda env, o, x=None: (x or o).get_along("time=axis_data", axis_data={"time": env["times"]}))
            add("get_magnitude_along:freqs=axis_data", lambda env, o, x=None: (x or o).get_magnitude_along("freqs=axis_data", axis_data={"freqs": env["lines"]}))
            add("get_data_along:time=axis_data", lambda env, o, x=None: (x or o).get_data_along("time=axis_data", axis_data={"time": env["times"]}))
            add("compare_along", lambda env, o, x=None: (x or o).compare_along("time", data_list=[env["other"]]))
            add("compare_magnitude_along", lambda env, o, x=None: (x or o).compare_magnitude_along("freqs", data_list=[env["other"]]))
        if nm == "ta":
            add("get_along:axis_data", lambda env, o, x=None: (x or o).get_along("time=axis_data", "angle", axis_data={"time": env["times"]}))
        if nm == "f":
            add("sum", lambda env, o, x=None: (x or o).sum(env["other"]))
            add("conv", lambda env, o, x=None: (x or o).conv(env["other"]))
            add("get_along:time=axis_data", lambda env, o, x=None: (x or o).get_along("time=axis_data", axis_data={"time": env["times"]}))
        if nm == "fw":
            add("change_referential", lambda env, o, x=None: (x or o).change_referential(30, False))
        if nm == "ta":
            add("filter_spectral_leakage", lambda env, o, x=None: (x or o).filter_spectral_leakage(env["lines"]))
        if nm in ("t", "ta", "lin", "z", "f"):
            add("export_along", lambda env, o, x=None, r=reqs[0]: export(x or o, r, False))
            if nm in ("t", "ta"):
                add("export_along-curves", lambda env, o, x=None, r=reqs[1]: export(x or o, r, True))
    else:
        for m in ["get_rphiz_along", "get_xyz_along"]:
            for r in reqs:
                put(m, *r)
            put(m, *reqs[0], unit="kN")
            if nm == "v":
                put(m, *reqs[0], is_norm=True)
        for m in ["get_mag_rphiz_along", "get_mag_xyz_along"]:
            put(m, "freqs", "angle[0]")
            put(m, "freqs", "wavenumber") if nm == "vx" else None
        if nm == "v":
            put("get_harm_rphiz_along", 1, "freqs", "angle[0]")
            put("get_harm_xyz_along", 1, "freqs", "angle[0]")
            for k in ["get_harm_rphiz_along", "get_harm_xyz_along"]:
                k = [n for n in q if n.startswith(k)][0]
                q["!" + k] = q.pop(k)
        put("get_vectorfield_along", *reqs[0])
        put("get_vectorfield_along", *reqs[1])
        put("to_rphiz")
        put("to_xyz")
        add("to_xyz().get_rphiz_along", lambda env, o, x=None, r=reqs[0]: (x or o).to_xyz().get_rphiz_along(*r))
        add("to_rphiz().get_xyz_along", lambda env, o, x=None, r=reqs[0]: (x or o).to_rphiz().get_xyz_along(*r))
        put("get_axes")
        put("time_to_freq")
        if nm == "v":
            put("change_periodicity", 2, 1)
            put("change_periodicity", 1, 1)
            add("change_referential", lambda env, o, x=None: (x or o).time_to_freq().change_referential(30, False, atol=0))
    put("as_dict")
    put("copy")
    add("==", lambda env, o, x=None: (x or o) == (x or o).copy())
    return q


def export(o, r, curves):
    path = tempfile.mkdtemp(prefix="query_")
    try:
        o.export_along(*r, is_2D=curves, save_path=path, is_multiple_files=True)
        out = []
        for f in sorted(os.listdir(path)):
            with open(os.path.join(path, f)) as g:
                out.append([f, g.read()])
        return out
    finally:
        shutil.rmtree(path)


OBJ = ["t", "th", "ta", "lin", "ap", "z", "comp", "cpl", "f", "fw", "dual", "v", "vx"]


def configs(tier):
    out = []
    for nm in OBJ:
        q = list(queries(nm))
        for a in q:
            out.append({"name": "%s-%s" % (nm, a), "obj": nm, "kind": "once", "q": [a]})
        cheap = [a for a in q if not a.startswith("!")]
        for a in cheap + [a for a in q if a.startswith("!") and nm in ("t", "th", "f", "dual") and "oct" not in a]:
            # after this request, all the cheap ones
            step = 16 if tier == "quick" else 4
            for k in range(0, len(cheap), step):
                out.append({"name": "%s-%s-then-%d" % (nm, a, k), "obj": nm, "q": [a] + cheap[k : k + step], "pairs": True})
    out.append({"name": "dual-equal-after-request", "obj": "dual", "kind": "equal", "q": []})
    return out


def freeze(r):
    """nested lists of the numbers and texts of a result"""
    import numpy as np

    if r is None or isinstance(r, (str, bool, int)):
        return r
    if isinstance(r, dict):
        if r.get("__class__") == "DataDual":
            r = {k: v for k, v in r.items() if k not in ("axes", "values")}
        return {k: freeze(v) for k, v in r.items()}
    if isinstance(r, (list, tuple)):
        return [freeze(v) for v in r]
    if isinstance(r, np.ndarray):
        return ("array", tuple(r.shape), [e for e in r.flatten().tolist()])
    if hasattr(r, "as_dict") and hasattr(type(r), "save"):
        names = sorted(n for c in type(r).__mro__ for n, v in vars(c).items() if isinstance(v, property) and n != "parent")
        keep = {}
        for n in names:
            if type(r).__name__ == "DataDual" and n in ("axes", "values"):
                continue
            try:
                keep[n] = freeze(getattr(r, n))
            except ImportError:
                pass
        return {"class": type(r).__name__, "of": keep}
    if callable(r) and not hasattr(r, "re") and not hasattr(r, "dtype"):
        return "function"
    return ("number", r)


def leaves(a, b, lab, out):
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(map(str, a)) != sorted(map(str, b)):
            out.append((lab, sorted(map(str, a)), sorted(map(str, b)), "text"))
            return
        for k in a:
            leaves(a[k], b[k], "%s.%s" % (lab, k), out)
    elif isinstance(a, tuple) and a and a[0] == "array" and isinstance(b, tuple) and b[0] == "array":
        if a[1] != b[1]:
            out.append((lab + " shape", a[1], b[1], "text"))
            return
        if any(isinstance(e, str) for e in a[2] + b[2]):
            out.append((lab, a[2], b[2], "text"))
        elif a[2]:
            out.append((lab, a[2], b[2], "num"))
    elif isinstance(a, tuple) and a and a[0] == "number" and isinstance(b, tuple) and b[0] == "number":
        out.append((lab, [a[1]], [b[1]], "num"))
    elif isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            out.append((lab + " length", len(a), len(b), "text"))
            return
        for i, (x, y) in enumerate(zip(a, b)):
            leaves(x, y, "%s[%d]" % (lab, i), out)
    else:
        out.append((lab, a, b, "text"))


def compare(ctx, a, b, lab):
    out = []
    leaves(a, b, lab, out)
    for l, x, y, kind in out:
        if kind == "text":
            if x == y and l != out[0][0]:
                continue
            ctx.true(x == y, "%s: %r, first %r" % (l, x, y))
        else:
            ctx.eq(ctx.arr(x), ctx.arr(y), l, tol=1e-6)


class Grouped:
    """statements of same(), with one per array; those true whatever the values are not counted"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.arrays = {}

    def true(self, c, label):
        if not (isinstance(c, bool) and c):
            self.ctx.true(c, label)

    def eq(self, a, e, label, tol):
        self.arrays.setdefault(label.split("[")[0] if label.endswith("]") else label, []).append((a, e))

    def flush(self):
        for label, pairs in self.arrays.items():
            self.ctx.eq(self.ctx.arr([a for a, e in pairs]), self.ctx.arr([e for a, e in pairs]), label, tol=0)


def run(ctx, cfg):
    import importlib

    cls = lambda n: getattr(importlib.import_module("SciDataTool.Classes." + n), n)
    nm = cfg["obj"]
    q = queries(nm)

    def make():
        """object from the arrays of the caller; the arrays are kept"""
        arrays = []

        def b(sp):
            if isinstance(sp, Sp):
                return cls(sp.cls)(**{k: b(e) for k, e in sp.a.items()})
            if isinstance(sp, list):
                return [b(e) for e in sp]
            if isinstance(sp, dict):
                return {k: b(e) for k, e in sp.items()}
            if isinstance(sp, Arr):
                a = build(ctx, sp, cls)
                arrays.append((a, sp))
                return a
            return sp

        return b(objects(ctx, nm)), arrays

    sp = objects(ctx, nm)
    other = "t" if nm == "t" else "f"
    spo = objects(ctx, other, "o")
    env = {"times": ctx.arr([0.1, 0.3]), "lines": ctx.arr([0.0, 1.0]), "other": build(ctx, spo, cls)}
    spe = {"times": Arr([0.1, 0.3]), "lines": Arr([0.0, 1.0])}
    new_env = lambda: {"times": ctx.arr([0.1, 0.3]), "lines": ctx.arr([0.0, 1.0]), "other": build(ctx, spo, cls)}
    if cfg.get("kind") == "equal":
        o = make()[0]
        o2 = make()[0]
        ctx.true(o == o2, "two equal fields")
        o.get_along("time")
        ctx.true(o == o2, "two equal fields, one of them read")
        return
    first = {}
    for a in cfg["q"]:
        first[a] = freeze(q[a](new_env(), make()[0]))
    o, arrays = make()

    def intact(after):
        g = Grouped(ctx)
        same(g, o, sp, "object")
        for k, (arr, s) in enumerate(arrays):
            same(g, arr, s, "array given by the caller")
        for k, s in spe.items():
            same(g, env[k], s, "positions given by the caller")
        same(g, env["other"], spo, "other object")
        g.flush()
        ctx.true(True, "checked after " + after)

    a = cfg["q"][0]
    r = q[a](env, o)
    intact(a)
    compare(ctx, freeze(r), first[a], a)
    if not cfg.get("pairs"):
        r = q[a](env, o)
        intact(a + " twice")
        compare(ctx, freeze(r), first[a], a + " twice")
        return
    for b in cfg["q"][1:]:
        r = q[b](env, o)
        compare(ctx, freeze(r), first[b], "%s after %s" % (b, a))
    intact("all requests")
