"""Reductions along axes."""
import itertools

import numpy as np

from .common import dt, nest, rebuild

BOUNDS = (
    "1 to 3 axes of 1 to 4 stored samples, one to three reductions in one request, the others whole or "
    "indexed; period 2..4, antiperiod 2 or 4; uniform axes of symbolic start and step (linear reductions), "
    "fixed step (squares), and non uniform increasing or decreasing axes without symmetry; signals asked from their spectrum; real values |x|<=1e9 "
    "(1e4 for squares)"
)
ASSUMPTIONS = [
    "on time, angle and z, integral, mean, rms and rss use the trapezoidal rule on the signal closed by one "
    "more step equal to the first one: this is the definition taken in the statement",
    "antiperiodic axes hold an even number of antiperiods",
]

PHYS = ("time", "angle", "z")
OPS = ["sum", "mean", "rms", "rss", "integrate", "max", "min"]


def configs(tier):
    out = []

    def add(axes, ops, kind="lin", squeeze=True):
        """axes [name, n, sym], ops per axis: reduction, '' whole, '[i]' or None"""
        name = "%s-%s-%s%s" % (
            "_".join("%s%d%s" % (a, n, "".join(q[0] + str(v) for q, v in sym.items())) for a, n, sym in axes),
            "_".join("whole" if o == "" else str(o) for o in ops),
            kind,
            "" if squeeze else "-full",
        )
        out.append({"name": name, "axes": axes, "ops": ops, "kind": kind, "squeeze": squeeze})

    syms = [{}, {"period": 2}, {"period": 3}, {"antiperiod": 2}, {"antiperiod": 4}]
    for op in OPS:
        for sym in syms:
            for nm in ["time", "angle", "z", "foo"]:
                if op == "integrate" and nm == "foo":
                    continue
                add([[nm, 3, sym]], [op])
                if nm in ("time", "foo"):
                    add([[nm, 4, sym]], [op])
                    add([[nm, 2, sym]], [op])
                add([["angle" if nm != "angle" else "time", 2, {}], [nm, 3, sym]], ["", op])
                add([[nm, 3, sym], ["slice", 2, {}]], [op, "[1]"])
        if op != "integrate":
            for nm in ["time", "angle", "z", "foo"]:
                add([[nm, 1, {}]], [op])
                add([[nm, 1, {}], ["slice", 3, {}]], [op, ""])
                add([["slice", 2, {}], [nm, 1, {}]], ["[1]", op])
        add([["slice", 2, {}], ["foo", 3, {}], ["time", 4, {}]], ["", "", op])
        add([["slice", 3, {}], ["time", 2, {}], ["angle", 2, {"antiperiod": 2}]], ["", "", op])
        add([["foo", 3, {}], ["slice", 2, {}], ["angle", 3, {"period": 2}]], ["", "", op])
        add([["time", 4, {}]], [op], "down")
        add([["slice", 2, {}], ["angle", 3, {}], ["foo", 2, {}]], ["", op, "[1]"], "down")
        add([["z", 3, {}], ["slice", 2, {}]], [op, ""], "down")
        add([["time", 4, {}]], [op], "inc")
        add([["angle", 2, {}], ["time", 3, {}]], ["", op], "inc")
        add([["freqs", 3, {}], ["angle", 2, {"period": 2}]], ["", op])
        if op not in ("integrate",):
            add([["freqs", 3, {"period": 2}], ["foo", 2, {}]], [op, ""])
            add([["foo", 2, {}], ["wavenumber", 3, {"antiperiod": 2}]], ["", op])
            add([["loadcases", 1, {}], ["time", 3, {}]], [op, ""])
        add([["slice", 2, {}], ["angle", 3, {"antiperiod": 2}], ["time", 2, {"period": 2}]], ["", op, ""])
        add([["slice", 2, {}], ["angle", 3, {}], ["time", 2, {}]], [None, op, "[1]"])
        add([["slice", 2, {}], ["angle", 3, {}], ["time", 2, {}]], ["", op, ""], squeeze=False)
        add([["slice", 1, {}], ["angle", 3, {"antiperiod": 2}], ["time", 2, {}]], ["", op, ""])
    for o1, o2 in itertools.product(OPS, OPS):
        add([["time", 2, {"period": 2}], ["angle", 2, {}]], [o1, o2])
        add([["time", 2, {}], ["angle", 2, {"antiperiod": 2}]], [o1, o2])
        add([["angle", 2, {"antiperiod": 2}], ["z", 2, {}], ["time", 2, {"antiperiod": 4}]], [o1, "", o2])
        if o1 != "integrate":
            add([["foo", 2, {"period": 3}], ["angle", 3, {}], ["time", 2, {}]], [o1, o2, ""])
    for t in [("sum", "max", "mean"), ("rms", "mean", "min"), ("max", "integrate", "sum"), ("mean", "rss", "max")]:
        add([["time", 2, {}], ["angle", 2, {}], ["foo", 2, {}]], list(t))
        add([["time", 2, {"period": 2}], ["angle", 2, {"antiperiod": 2}], ["z", 2, {}]], list(t))
    for op in OPS:
        for sym in syms:
            if op in ("rms", "rss") and "antiperiod" in sym:
                continue
            add([["time", 2, sym]], [op], "spec")
            add([["angle", 2, sym]], [op], "spec")
            add([["time", 2, sym], ["z", 2, {}]], [op, ""], "spec")
            add([["time", 2, {}], ["angle", 2, sym]], ["[1]", op], "spec")
            if op not in ("rms", "rss"):
                if op in ("max", "min") and "antiperiod" in sym:
                    continue
                add([["angle", 3, sym], ["time", 4, {}]], [op, ""], "spec")
                add([["time", 4, sym], ["angle", 3, sym]], ["", op], "spec")
                add([["time", 4, sym]], [op], "spec")
    if tier == "thorough":
        for t in itertools.product(OPS, OPS, OPS):
            add([["time", 2, {"antiperiod": 2}], ["angle", 2, {"period": 2}], ["z", 2, {}]], list(t))
            if t[1] != "integrate":
                add([["time", 2, {}], ["foo", 2, {"antiperiod": 2}], ["angle", 2, {"antiperiod": 4}]], list(t))
    seen = set()
    return [c for c in out if not (c["name"] in seen or seen.add(c["name"]))]


def reduce1(ctx, cfg, xs, ax, op, phys):
    n = len(xs)
    phys = phys and n > 1

    def integral(ys):
        a = list(ax) + [ax[-1] + ax[1] - ax[0]]
        y = list(ys) + [ys[0]]
        return ctx.sumof([(y[i] + y[i + 1]) * (a[i + 1] - a[i]) / 2 for i in range(n)])

    if op == "max":
        return ctx.maxof(xs)
    if op == "min":
        return ctx.minof(xs)
    if op == "sum":
        return ctx.sumof(xs)
    if op == "integrate":
        return integral(xs)
    if op == "mean":
        if phys:
            return integral(xs) / (ax[-1] + ax[1] - 2 * ax[0])
        return ctx.sumof(xs) / n
    sq = [x * x for x in xs]
    if op == "rms":
        if phys:
            return ctx.sqrt(integral(sq) / (ax[-1] + ax[1] - 2 * ax[0]))
        return ctx.sqrt(ctx.sumof(sq) / n)
    if phys and cfg["kind"] == "down":  # the path along a decreasing axis has a positive length
        return ctx.sqrt(-integral(sq))
    return ctx.sqrt(integral(sq) if phys else ctx.sumof(sq))


def run(ctx, cfg):
    s = dt()
    shape = tuple(a[1] for a in cfg["axes"])
    hard = [o for o in cfg["ops"] if o in ("rms", "rss")]
    if hard:
        ctx.B = 1e4
    x = ctx.reals("x", shape)
    axes, fulls, poss = [], [], []
    for j, ((name, n, sym), op) in enumerate(zip(cfg["axes"], cfg["ops"])):
        eff = {} if name in ("freqs", "wavenumber") else sym
        p = rebuild([0] * n, eff)
        if cfg["kind"] == "inc" and op in OPS:
            if op in ("rms", "rss", "mean"):
                full = [-0.5, 0.5, 2.0, 2.25][:n]
                v = ctx.arr(full)
            else:
                v = ctx.increasing("ax", n, -100, 100, 0.5)
                full = [v[i] for i in range(n)]
        elif cfg["kind"] == "down" and op in OPS:
            full = [2.25, 2.0, 0.5, -0.5][:n]
            v = ctx.arr(full)
        elif cfg["kind"] == "spec":
            full = [(2 * np.pi / len(p) if name == "angle" else 0.5) * i for i in range(len(p))]
            v = ctx.arr(full[:n])
        elif op in ("sum", "integrate", "max", "min") and not hard:
            a = ctx.real("a%d" % j, -100, 100)
            h = ctx.real("h%d" % j, 0.25, 10)
            full = [a + i * h for i in range(len(p))]
            v = ctx.arr(full[:n])
        else:
            full = [0.5 * i - 0.75 for i in range(len(p))]
            v = ctx.arr(full[:n])
        unit = {"time": "s", "angle": "rad"}.get(name, "m") if cfg["kind"] == "spec" else "m"
        axes.append(s.Data1D(name=name, unit=unit, values=v, symmetries=dict(sym)))
        fulls.append(full)
        poss.append(p)
    cls = s.DataFreq if any(a[0] in ("freqs", "wavenumber") for a in cfg["axes"]) else s.DataTime
    d = cls(name="f", symbol="X", unit="T", axes=axes, values=x)
    if cfg["kind"] == "spec":
        # the signal is asked from its spectrum
        d = d.time_to_freq()

    # complete rebuilt signal
    F = np.empty(tuple(len(p) for p in poss), dtype=object)
    for i in np.ndindex(*F.shape):
        sg = 1
        ix = []
        for p, q in zip(poss, i):
            ix.append(p[q][0])
            sg *= p[q][1]
        F[i] = sg * x[tuple(ix)]
    req = []
    for j, ((name, n, sym), op) in enumerate(zip(cfg["axes"], cfg["ops"])):
        if op in OPS:
            req.append(name + "=" + op)
        elif op is None:
            F = F.take([0], axis=j)
        elif op == "":
            req.append(name)
        else:
            req.append(name + op)
            F = F.take(eval(op), axis=j)
    for j, ((name, n, sym), op) in enumerate(zip(cfg["axes"], cfg["ops"])):
        if op in OPS:
            G = np.moveaxis(F, j, -1)
            out = np.empty(G.shape[:-1], dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = reduce1(ctx, cfg, list(G[i]), fulls[j], op, name in PHYS)
            F = np.expand_dims(out, j)
    kw = {} if cfg["squeeze"] else {"is_squeeze": False}
    r = d.get_along(*req, **kw)
    if cfg["squeeze"]:
        F = np.squeeze(F)
    ctx.eq(r["X"], nest(F.shape, lambda *i: F[i]), "reduction %s" % req)
    for j, ((name, n, sym), op) in enumerate(zip(cfg["axes"], cfg["ops"])):
        if op in OPS:
            ctx.true(r[name] == op, "reduced axis %s is named" % name)
        elif op == "":
            ctx.eq(r[name], fulls[j], "axis " + name, tol=1e-6)
