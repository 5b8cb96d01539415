"""Selection of samples by index."""
import itertools

from .common import dt, nest

BOUNDS = (
    "1 to 5 axes of 2 to 4 samples, and of 12 samples; per axis: whole, [], one index (also negative), index list "
    "(any order, repeated), range, N largest (by axis value, or in the stored order), not requested; overlaid and sorted components; all orders of the request; axis names holding the name of an operation; real and complex "
    "values |x|<=1e9, strictly increasing symbolic axis values in [-1e3,1e3] ([-1e9,1e9] in some)"
)

# request kind -> (suffix, positions as function of n)
SEL = {
    "whole": ("", lambda n: list(range(n))),
    "all": ("[]", lambda n: list(range(n))),
    "first": ("[0]", lambda n: [0]),
    "one": ("[1]", lambda n: [1]),
    "last": ("[-1]", lambda n: [n - 1]),
    "list": ("[0,2]", lambda n: [0, 2]),
    "rev": ("[2,1]", lambda n: [2, 1]),
    "rep": ("[1,1]", lambda n: [1, 1]),
    "neg": ("[-2,0]", lambda n: [n - 2, 0]),
    "range": ("[1:3]", lambda n: [1, 2]),
    "range1": ("[2:3]", lambda n: [2]),
    "range0": ("[0:2]", lambda n: [0, 1]),
    "large1": ("[1largest]", lambda n: [n - 1]),
    "large2": ("[2largest]", lambda n: [n - 1, n - 2]),
    "largen": ("[9largest]", lambda n: list(range(n))[::-1]),
}
# on axes of 12 samples
LONG = {
    "ten": ("[10]", lambda n: [10]),
    "tens": ("[11,3,10]", lambda n: [11, 3, 10]),
    "tenr": ("[9:12]", lambda n: [9, 10, 11]),
    "tenr2": ("[10:11]", lambda n: [10]),
    "tenn": ("[-12,10,-1]", lambda n: [0, 10, 11]),
    "tenl": ("[10largest]", lambda n: list(range(n))[::-1][:10]),
}
NAMES = ["minutes", "max_load", "summary", "forms", "means", "crossing", "integrated", "derivates", "patterns", "oneperiods"]
# stored order of the components ("largest" components first)
ORDER = [1, 2, 0]
SORTED = {"large1": [1], "large2": [1, 2], "largen": [1, 2, 0]}


def configs(tier):
    out = []

    def add(cls, axes, sel, cplx=False, squeeze=True, comp=None, over=False, lin=False):
        name = "%s-%s-%s%s%s%s%s%s" % (
            cls,
            "".join("%s%d" % (a, n) for a, n in axes),
            "_".join(str(s) for s in sel),
            "-c" if cplx else "",
            "" if squeeze else "-full",
            "-comp" + comp if comp else "",
            "-over" if over else "",
            "-lin" if lin else "",
        )
        out.append(
            {
                "name": name,
                "cls": cls,
                "axes": axes,
                "sel": sel,
                "cplx": cplx,
                "squeeze": squeeze,
                "comp": comp,
                "over": over,
                "lin": lin,
            }
        )

    for s in SEL:
        if s == "all":
            continue
        add("time", [["time", 4]], [s])
    one = ["whole", "one", "list", "rev", "range", "last", None]
    for a, b in itertools.product(one, one):
        if a is None and b is None:
            continue
        add("time", [["time", 4], ["angle", 3]], [a, b])
    for a, b in [("whole", None), (None, "rev"), ("rep", "one"), ("range", "range0")]:
        add("freq", [["freqs", 3], ["wavenumber", 3]], [a, b], cplx=True)
    three = [
        ("whole", "whole", "whole"),
        (None, "one", "whole"),
        ("rev", None, "list"),
        ("one", "range", None),
        ("list", "rev", "neg"),
        ("whole", "last", "rep"),
        ("range0", "whole", "first"),
        (None, None, "range"),
        ("one", "last", "first"),
        (None, "rev", None),
    ]
    for s in three:
        add("time", [["time", 3], ["angle", 3], ["z", 3]], list(s))
    for s in three[1:5]:
        add("freq", [["freqs", 3], ["modes", 3], ["z", 3]], list(s), cplx=True)
    add("time", [["z", 3], ["time", 3], ["slice", 3]], ["list", "whole", "one"])
    add("time", [["time", 3], ["angle", 3], ["z", 3]], ["one", "whole", None], squeeze=False)
    add("time", [["time", 3], ["angle", 3]], [None, "one"], squeeze=False)
    add("time", [["time", 3], ["phase", 3]], ["whole", "rev"], comp="str")
    add("time", [["time", 3], ["phase", 3]], ["one", "all"], comp="str")
    add("time", [["loadcases", 3], ["time", 3]], ["one", "range0"], comp="num")
    add("time", [["loadcases", 3], ["time", 3]], ["list", "whole"], comp="num")
    for a in ["large1", "large2", "largen"]:
        for comp in ["str", "num", "sort"]:
            add("time", [["time", 3], ["phase", 3]], ["whole", a], comp=comp)
            add("time", [["phase", 3], ["time", 3]], [a, "rev"], comp=comp)
        add("time", [["time", 3], ["angle", 3]], [a, "whole"])
        add("freq", [["freqs", 3], ["z", 2]], [a, "first"], cplx=True)
        add("time", [["time", 4], ["z", 3]], ["one", a])
        add("time", [["time", 3], ["sorted", 3]], ["whole", a])
        add("time", [["sorted", 3], ["angle", 3]], [a, None])
    for over in [False, True]:
        for comp in ["str", "num", "sort"]:
            add("time", [["time", 3], ["phase", 3]], ["whole", "whole"], comp=comp, over=over)
            add("time", [["phase", 3], ["time", 3]], ["whole", "one"], comp=comp, over=over)
            add("time", [["phase", 3], ["time", 3]], ["rev", "list"], comp=comp, over=over)
            add("time", [["phase", 3], ["time", 3]], [None, "list"], comp=comp, over=over)
            add("time", [["phase", 3], ["time", 3]], ["last", "whole"], comp=comp, over=over)
    for a in SEL:
        if a != "all":  # components only
            add("time", [["z", 4], ["time", 3]], [a, "whole"], lin=True)
            add("time", [["z", 4], ["time", 3]], [None, a], lin=True)
    for a in list(LONG) + ["whole", "last", "rev", "large2", None]:
        if a:
            add("time", [["time", 12]], [a])
        add("time", [["z", 2], ["time", 12]], ["whole", a])
        add("freq", [["freqs", 12], ["z", 2]], [a, "one"], cplx=True)
        if a not in ("last", "large2", "tenl"):
            add("time", [["time", 12], ["angle", 11]], [a, "ten" if a else "tenr2"])
    add("time", [["z", 12], ["time", 3]], ["tens", "whole"], lin=True)
    add("time", [["z", 12], ["time", 12]], ["tenr", "tenn"], lin=True)
    four = [["time", 3], ["angle", 2], ["z", 3], ["slice", 3]]
    for t in [
        ("whole", "whole", "whole", "whole"),
        (None, None, None, "rev"),
        ("one", None, "rev", "last"),
        ("rev", "one", None, "whole"),
        (None, "whole", "last", None),
        ("whole", None, None, None),
        ("list", "whole", "one", "rep"),
    ]:
        add("time", four, list(t))
        add("freq", [["freqs", 3], ["wavenumber", 2], ["z", 3], ["loadcases", 3]], list(t), cplx=True)
        add("time", [four[k] for k in (3, 0, 2, 1)], [t[k] for k in (3, 0, 2, 1)], squeeze=False)
    add("time", four + [["speed", 2]], ["one", None, "rev", None, "whole"])
    add("time", [["speed", 2]] + four, [None, "last", "whole", None, "one"])
    add("time", four + [["speed", 2]], [None, "one", None, "last", None])
    # axes whose name holds the name of an operation
    for nm in NAMES:
        for a, b in [("whole", "one"), ("rev", "whole"), (None, "range"), ("last", None), ("range", "rev")]:
            add("time", [["z", 3], [nm, 4]], [b, a])
    if tier == "thorough":
        pool = ["whole", "one", "list", "rev", "range", "last", "rep", "neg", None]
        for t in itertools.product(pool, pool, pool):
            if list(t) == [None] * 3:
                continue
            add("time", [["angle", 4], ["time", 3], ["freqs", 3]], list(t))
    seen = set()
    return [c for c in out if not (c["name"] in seen or seen.add(c["name"]))]


def run(ctx, cfg):
    s = dt()
    shape = tuple(n for _, n in cfg["axes"])
    x = (ctx.complexes if cfg["cplx"] else ctx.reals)("x", shape)
    axes, vals = [], []
    for k, (name, n) in enumerate(cfg["axes"]):
        comp = cfg["comp"] and name in ("phase", "loadcases")
        kw = {}
        if name == "sorted" or (comp and cfg["comp"] == "sort"):
            kw["sort_indices"] = ORDER[:]
        if comp and cfg["over"]:
            kw["is_overlay"] = True
        if comp and cfg["comp"] in ("str", "sort"):
            v = ["A", "B", "C"][:n]
            axes.append(s.Data1D(name=name, unit="", values=v, is_components=True, **kw))
        elif cfg["lin"]:
            v = [0.5 * i - 1 for i in range(n)]
            axes.append(
                s.DataLinspace(name=name, unit="m", initial=-1, final=0.5 * n - 1, number=n, include_endpoint=False)
            )
        else:
            big = 1e9 if n == 12 else 1000
            v = ctx.increasing("ax%d" % k, n, -big, big, 0.25)
            axes.append(
                s.Data1D(name=name, unit="m", values=v, is_components=bool(comp), **kw)
            )
        vals.append(v)
    cls = s.DataTime if cfg["cls"] == "time" else s.DataFreq
    d = cls(name="field", symbol="X", unit="T", axes=axes, values=x)
    pos, req = [], []
    for (name, n), sel in zip(cfg["axes"], cfg["sel"]):
        if sel is None:
            pos.append([0])
        else:
            suffix, f = SEL[sel] if sel in SEL else LONG[sel]
            order = name == "sorted" or (name == "phase" and cfg["comp"] == "sort")
            pos.append(SORTED[sel] if order and sel in SORTED else f(n))
            req.append(name + suffix)
    full = nest([len(p) for p in pos], lambda *i: x[tuple(p[k] for p, k in zip(pos, i))])
    keep = [k for k, p in enumerate(pos) if len(p) > 1] if cfg["squeeze"] else list(range(len(pos)))
    want = nest(
        [len(pos[k]) for k in keep],
        lambda *i: x[
            tuple(
                pos[k][i[keep.index(k)]] if k in keep else pos[k][0]
                for k in range(len(pos))
            )
        ],
    )
    kw = {} if cfg["squeeze"] else {"is_squeeze": False}
    for perm in itertools.permutations(req):
        r = d.get_along(*perm, **kw)
        ctx.eq(r["X"], want, "values of %s" % (perm,))
        for (name, n), sel, v, p in zip(cfg["axes"], cfg["sel"], vals, pos):
            if sel is not None:
                got = [g for g in r[name]]
                ctx.true(len(got) == len(p), "length of axis " + name)
                w = [v[i] for i in p]
                if isinstance(w[0], str):
                    ctx.true([str(g) for g in got] == w, "axis " + name)
                else:
                    ctx.eq(got, w, "axis " + name, tol=1e-9 if n < 12 else 1e-3)
            else:
                ctx.true(name not in r, "axis %s not requested" % name)
                o = r["axes_dict_other"][name]
                ctx.eq(o[0], v[0], "other axis " + name, tol=1e-9 if n < 12 else 1e-3)
