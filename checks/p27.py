"""Fields whose values do not fit their axes are refused."""
import itertools

from .common import dt, nest

BOUNDS = (
    "every list of one to three axes of lengths 1 to 3 (and 4 axes of lengths 1 and 2) against every array shape of up "
    "to four dimensions of lengths 1 to 3; axes given by values, number, step or pattern, with and without symmetry; "
    "arrays and nested lists, at construction and by assignment; all values"
)
ASSUMPTIONS = ["dimensions of length one are not significant: (3, 1) is accepted for axes of lengths 1 and 3"]

NAMES = ["time", "angle", "z", "loadcase"]


def configs(tier):
    out = []
    for k in (1, 2, 3):
        for axes in itertools.product([1, 2, 3], repeat=k):
            for kind in ["1D", "number", "step", "open", "nofinal", "pattern"] if k < 3 else ["1D", "mix"]:
                out.append({"name": "%s-%s" % (kind, "".join(map(str, axes))), "axes": list(axes), "kind": kind})
    for axes in itertools.product([1, 2], repeat=4):
        out.append({"name": "1D-%s" % "".join(map(str, axes)), "axes": list(axes), "kind": "1D"})
    for n in [2, 3]:
        for sym in ["period", "antiperiod"]:
            out.append({"name": "sym-%s-%d" % (sym, n), "axes": [n], "kind": "1D", "sym": sym})
            out.append({"name": "symnum-%s-%d" % (sym, n), "axes": [n, 2], "kind": "number", "sym": sym})
    for n, h in [(8, 0.1), (4, 0.1), (8, 0.7), (11, 0.3), (7, 1e-3)]:
        for kind in ["step", "open", "nofinal"]:
            out.append({"name": "%s-%d-%s" % (kind, n, h), "axes": [n], "kind": kind, "h": h})
    for bad in ["str", "dict", "int", "float"]:
        out.append({"name": "type-" + bad, "axes": [2], "kind": "1D", "bad": bad})
    return out


def axis(ctx, name, n, kind, h, sym):
    s = dt()
    kw = dict(name=name, unit="m", symmetries={sym: 2} if sym else {})
    if kind == "1D":
        return s.Data1D(values=ctx.arr([h * i for i in range(n)]), **kw)
    if kind == "number":
        return s.DataLinspace(initial=0, final=h * (n - 1), number=n, include_endpoint=True, **kw)
    if kind == "step":
        return s.DataLinspace(initial=0, final=h * (n - 1), step=h, include_endpoint=True, **kw)
    if kind == "open":
        return s.DataLinspace(initial=0, final=h * n, step=h, include_endpoint=False, **kw)
    if kind == "nofinal":
        return s.DataLinspace(initial=0, step=h, number=n, include_endpoint=False, **kw)
    return s.DataPattern(
        values=ctx.arr([h * i for i in range(n)]),
        rebuild_indices=list(range(n)) + [0],
        unique_indices=list(range(n)),
        name=name,
        unit="m",
    )


def run(ctx, cfg):
    s = dt()
    h = cfg.get("h", 0.5)
    lens = tuple(cfg["axes"])
    kinds = [cfg["kind"]] * len(lens) if cfg["kind"] != "mix" else ["1D", "number", "pattern"]
    axes = [axis(ctx, NAMES[j], n, kinds[j], h, cfg.get("sym")) for j, n in enumerate(lens)]
    for a, n, k in zip(axes, lens, kinds):
        if k != "pattern":
            ctx.eq(a.get_values(is_smallestperiod=True), [h * i for i in range(n)], "samples of the axis", tol=1e-9)
            ctx.true(a.get_length(is_smallestperiod=True) == n, "length of the axis")

    def build(v):
        return s.DataND(name="f", symbol="X", unit="T", axes=axes, values=v)

    if cfg.get("bad"):
        v = {"str": "abc", "dict": {"a": 1}, "int": 3, "float": 1.5}[cfg["bad"]]
        ctx.raises(Exception, lambda: build(v), "not an array")
        return
    tot = 1
    for n in lens:
        tot *= n
    base = ctx.reals("x", (tot,))
    good = build(base.reshape(lens))
    sq = tuple(n for n in lens if n > 1)
    maxdim = 4
    top = 3 if "h" not in cfg else 1
    shapes = [()]
    for k in range(1, maxdim + 1):
        shapes += list(itertools.product(range(1, top + 1), repeat=k))
    if cfg.get("h"):
        shapes += [(lens[0],), (lens[0] + 1,), (lens[0] - 1,), (1, lens[0]), (lens[0], 1)]
    if len(lens) == 4 or len(lens) == 3 and max(lens) == 3:
        # one sample too few or too many on one axis, swapped axes, left out and added dimensions
        shapes = [lens, sq, lens[::-1], lens + (1,), (1,) + lens]
        for j in range(len(lens)):
            for e in (-1, 1):
                m = list(lens)
                m[j] += e
                if m[j] > 0:
                    shapes.append(tuple(m))
            shapes.append(lens[:j] + lens[j + 1 :])
        shapes += list(itertools.product([1, 2, 3], repeat=2)) + [(2,), (3,), ()]
    want = nest(lens, lambda *i: base.reshape(lens)[i])
    for shp in sorted(set(shapes)):
        size = 1
        for n in shp:
            size *= n
        if tuple(n for n in shp if n > 1) == sq:
            v = base.reshape(shp)
            d = build(v)
            ctx.eq(d.values, want, "values kept for shape %s" % (shp,))
            ctx.true(tuple(d.values.shape) == lens, "one dimension per axis for shape %s" % (shp,))
            good.values = v
            ctx.eq(good.values, want, "values assigned for shape %s" % (shp,))
            if shp:
                d = build(nest(shp, lambda *i: v[i]))
                ctx.eq(d.values, want, "values kept for a list of shape %s" % (shp,))
        else:
            v = ctx.arr([0.25 * i for i in range(size)]).reshape(shp)
            ctx.raises(Exception, lambda: build(v), "refused shape %s" % (shp,))

            def assign():
                good.values = v

            ctx.raises(Exception, assign, "refused assignment of shape %s" % (shp,))
            ctx.eq(good.values, want, "values unchanged after a refused assignment")
