"""Comparison of fields on a common axis."""
from .common import dt

BOUNDS = (
    "two or three fields on 1 or 2 axes of 2 to 6 samples over overlapping ranges (equal, nested, shifted, finer, coarser, "
    "non-uniform), in any axis order, with symmetries, reductions, units and normalizations; values, magnitudes and phases; "
    "axes shifted by any amount in one family of configurations; |values|<=1e9 (phases: parts between 1 and 1e4)"
)
ASSUMPTIONS = [
    "at least two samples of one of the axes lie in the common range, or the common sample belongs to all axes",
    "axes of the same length which agree within 0.1 % are taken as the same axis",
]

A = {
    "u5": [0.0, 1.0, 2.0, 3.0, 4.0],
    "fine": [0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0],
    "late": [1.5, 2.25, 3.0, 3.75, 4.5],
    "late2": [1.25, 2.5, 3.75],
    "early": [-1.0, 0.25, 1.5, 2.75],
    "non": [0.0, 0.5, 2.0, 3.5],
    "two": [0.5, 3.5],
    "in": [1.0, 2.0, 3.0],
    "far": [-10.0, 0.5, 1.0, 2.25, 20.0],
}


def configs(tier):
    out = []

    def add(fields, req, how="compare_along", **kw):
        c = dict({"fields": fields, "req": req, "how": how}, **kw)
        c["name"] = "%s-%s-%s%s" % (how[8:], ";".join(req), "/".join("x".join("%s.%s%s" % (a[0][0], a[1], "".join(k[0] + str(v) for k, v in a[2].items())) for a in f) for f in fields),
                                    "".join("-%s" % v for v in kw.values()))
        out.append(c)

    keys = list(A)
    for a in keys:
        for b in keys:
            add([[["time", a, {}]], [["time", b, {}]]], ["time"])
            add([[["time", a, {}], ["angle", "in", {}]], [["time", b, {}], ["angle", "u5", {}]]], ["time", "angle"])
            if a != b and tier == "thorough" or (a, b) in [("u5", "late"), ("late", "fine"), ("non", "early")]:
                for how in ["compare_magnitude_along", "compare_phase_along"]:
                    add([[["time", a, {}]], [["time", b, {}]]], ["time"], how)
                    add([[["z", a, {}], ["time", b, {}]], [["z", b, {}], ["time", a, {}]]], ["z", "time"], how)
    T = lambda a, s={}: ["time", a, s]
    G = lambda a, s={}: ["angle", a, s]
    add([[T("u5"), G("two")], [G("in"), T("late")]], ["time", "angle"])
    add([[G("non"), T("u5")], [T("late"), G("in")]], ["angle", "time"])
    add([[T("u5"), G("two")], [G("in"), T("late")]], ["angle"])
    for r in ["angle=sum", "angle[0]", "angle=mean", "angle=integrate", "angle=2.0"]:
        add([[T("u5"), G("in")], [T("late"), G("u5")]], ["time", r])
        add([[G("in"), T("u5")], [G("in"), T("late")]], ["time", r])
        add([[G("in"), T("u5")], [T("late"), G("u5")]], ["time", r])
    add([[T("u5")], [T("late")], [T("early")]], ["time"])
    add([[T("u5")], [T("fine")], [T("late2")]], ["time"])
    add([[T("in"), G("u5")], [T("fine"), G("late")], [G("two"), T("u5")]], ["time", "angle"])
    for s in [{"period": 2}, {"antiperiod": 2}]:
        add([[T("in", s)], [T("late")]], ["time"])
        add([[T("late")], [T("in", s)]], ["time"])
        add([[T("in", s)], [T("u5", s)]], ["time[smallestperiod]"])
    add([[T("u5")], [T("late")]], ["time{ms}"])
    add([[T("u5")], [T("late")]], ["time"], unit="mT")
    add([[T("u5")], [T("late")]], ["time"], norm=True)
    for how in ["compare_magnitude_along", "compare_along"]:
        for k in [{"norm": True}, {"unit": "mT"}, {"unit": "mT", "norm": True}]:
            if how == "compare_along" and len(k) == 1 or len(k) == 2:
                continue
            add([[T("u5")], [T("late")]], ["time"], how, **k)
        for k in [{"norm": True}, {"unit": "mT"}]:
            add([[T("non")], [T("fine")]], ["time{ms}"], how, **k)
            add([[T("u5"), G("in")], [T("late"), G("two")]], ["time", "angle"], how, **k)
            add([[T("u5"), G("in")], [G("u5"), T("late")]], ["time", "angle[1]"], how, **k)
            add([[T("u5")], [T("late")], [T("early")]], ["time"], how, **k)
            add([[T("u5")]], ["time"], how, **k)
    for k in [{"unit": "°"}, {"unit": "rad"}]:
        add([[T("u5")], [T("late")]], ["time"], "compare_phase_along", **k)
        add([[T("u5"), G("in")], [T("late"), G("two")]], ["time", "angle[0]"], "compare_phase_along", **k)
    add([[T("u5")], [T("late")]], ["time[0:4]"])
    add([[T("u5")], [T("fine")]], ["time=[0.5,3.2]"])
    add([[T("u5")]], ["time"])
    add([[T("u5")]], ["time"], "compare_magnitude_along")
    add([[T("u5")]], ["time"], "compare_phase_along")
    for a in ["in", "u5", "non"]:
        for b in ["in", "two"] + (["u5", "non"] if tier == "thorough" else []):
            add([[T(a)], [T(b)]], ["time"], shift=1)
    return out


def run(ctx, cfg):
    import numpy as np

    s = dt()
    how = cfg["how"]
    phase = "phase" in how
    fields = []
    for i, f in enumerate(cfg["fields"]):
        axes, shape = [], []
        for j, (nm, key, sym) in enumerate(f):
            v = list(A[key])
            if cfg.get("shift") and i == 1:
                dx = ctx.real("shift", -2, 2)
                v = [x + dx for x in v]
            axes.append(s.Data1D(name=nm, unit={"time": "s", "angle": "rad"}.get(nm, "m"), values=ctx.arr(v), symmetries=dict(sym)))
            shape.append(len(v))
        if phase:
            x = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                x[ix] = ctx.real("x%d_%s" % (i, ix), 1, 10)
            x = ctx.arr(x.tolist())
        else:
            x = ctx.reals("x%d" % i, tuple(shape))
        fields.append(s.DataTime(name="f%d" % i, symbol="X%d" % i, unit="T", axes=axes, values=x, normalizations={"ref": s.Norm_ref(ref=0.25)}))
    get = {"compare_along": "get_along", "compare_magnitude_along": "get_magnitude_along", "compare_phase_along": "get_phase_along"}[how]
    kw = {}
    if "unit" in cfg:
        kw["unit"] = cfg["unit"]
    if cfg.get("norm"):
        kw["is_norm"] = True
    alone = [getattr(f, get)(*cfg["req"], **kw) for f in fields]
    r = getattr(fields[0], how)(*cfg["req"], data_list=fields[1:], **kw)
    names = [q.split("=")[0].split("[")[0].split("{")[0] for q in cfg["req"]]
    axes = {}
    for nm in names:
        vals = [a[nm] for a in alone]
        if isinstance(vals[0], str):
            ctx.true(r[nm] == vals[0], "reduced axis " + nm)
            continue
        c = [x for x in r[nm]]
        axes[nm] = c
        for k, v in enumerate(vals):
            for x in c:
                ctx.le(v[0], x, "start of the range of field %d on %s" % (k, nm), tol=1e-9)
                ctx.le(x, v[-1], "end of the range of field %d on %s" % (k, nm), tol=1e-9)
        for x, y in zip(c, c[1:]):
            ctx.le(x + 1e-9, y, "increasing axis " + nm)
        if len(vals) == 1:
            ctx.eq(c, [x for x in vals[0]], "axis of the field alone")
        # at least as many samples as the field with most samples in the common range, up to the first and last of them
        if len(vals) == 2:
            lo = ctx.maxof([vals[0][0], vals[1][0]])
            hi = ctx.minof([vals[0][-1], vals[1][-1]])
            inside = [[x for x in v if ctx.decide(x >= lo) and ctx.decide(x <= hi)] for v in vals]
            m = max(len(q) for q in inside)
            ctx.true(len(c) == m, "number of samples on " + nm)
            if m > 1:
                ends = [(q[0], q[-1]) for q in inside if len(q) == m]
                if len(ends) == 1:
                    ctx.eq([c[0], c[-1]], [ends[0][0], ends[0][1]], "ends of the common axis", tol=1e-9)
    for k, (f, a) in enumerate(zip(fields, alone)):
        key = "X%d" % k if k == 0 else "X%d_%d" % (k, k - 1)
        own = [q for q in a["axes_list"] if not isinstance(a[q.name], str) and len(a[q.name]) > 1]
        v = np.asarray(a["X%d" % k], dtype=object).reshape([len(a[q.name]) for q in own])
        skip = False
        for d, q in enumerate(own):
            new = axes[q.name]
            if len(new) == 1 and not any(same(ctx, x, new[0]) for x in a[q.name]):
                skip = True
            v = interp(ctx, v, [x for x in a[q.name]], new, d)
        if skip:
            continue
        got = r[key]
        want = v.reshape([n for n in v.shape if n != 1])
        ctx.shape(got, want.shape, "shape of field %d" % k)
        ctx.eq(got, want.tolist(), "field %d on the common axis" % k, tol=1e-4 if phase else 1)


def same(ctx, x, y):
    return ctx.decide(x == y) if not (isinstance(x, float) and isinstance(y, float)) else x == y


def interp(ctx, v, x, new, d):
    import numpy as np

    out = []
    for t in new:
        for j in range(len(x) - 1):
            if j == len(x) - 2 or ctx.decide(t <= x[j + 1]):
                break
        lo, hi = np.take(v, j, axis=d), np.take(v, j + 1, axis=d)
        out.append(lo + (hi - lo) * ((t - x[j]) / (x[j + 1] - x[j])))
    return np.stack(out, axis=d)
