"""Set operations with a tolerance."""

BOUNDS = (
    "arrays of 1 to 4 symbolic values, absolute tolerances 0.5, 1e-3 and 2, relative tolerance against a known "
    "largest value (8 to 1000); all combinations of returned indices; sorted and stable order"
)
ASSUMPTIONS = [
    "the tolerance is the spacing of a grid: values within 0.4 of a spacing of the same multiple must be merged, and "
    "merged values differ by at most one spacing; nothing is stated on values half way between two multiples",
]


def configs(tier):
    out = []

    def add(**kw):
        out.append(dict(kw, name="-".join(str(v).replace(" ", "") for v in kw.values())))

    for tol in [0.5, 1e-3, 2]:
        for m in [[3], [0, 0], [1, 0], [2, -1, 2], [0, 1, 2], [2, 1, 0], [1, 1, 1], [5, -3, 5, 0], [1, 0, 1, 0], [7, 7, 2, 2], [0, 3, 2, 1]]:
            for stable in [0, 1]:
                add(op="grid", tol=tol, m=m, stable=stable)
    for m in [[3, 1, 3], [0, 2, 0, 1], [1, 0], [4, 4, 1]]:
        for ret in ["i", "v", "c", "iv", "ic", "vc", ""]:
            for stable in [0, 1]:
                add(op="ret", tol=0.5, m=m, ret=ret, stable=stable)
    for n in [1, 2, 3]:
        for tol in [0.5, 4]:
            add(op="free", tol=tol, n=n)
    for m in [[8, 1], [8, 8, 2], [3, 8, 3, 1], [-8, 0, 0], [0, 0]]:
        for f in ["unique", "union", "inter"]:
            add(op="rel", f=f, m=m)
    for top in [8, 100, 1000]:
        for a, b in [([3, 4], [4, 7]), ([0, 1, 2], [2, 0]), ([2], [-2]), ([5, 3], [3, 4, 5])]:
            for f in ["unique", "union", "inter"]:
                add(op="rel2", f=f, top=top, a=a, b=b, far=10)
            add(op="rel2", f="inter", top=top, a=a, b=b, far=0.5)
    for a, b in [
        ([1], [1]),
        ([1], [2]),
        ([1, 2], [2, 3]),
        ([2, 1], [3, 2]),
        ([1, 2, 3], [3]),
        ([3, 1, 2], [1, 2]),
        ([1, 1, 2], [1]),
        ([0, 4], [4, 4]),
        ([5, 6], [7]),
        ([0], [0, 1, 2]),
        ([-1, 1], [1, -1]),
    ]:
        for tol in [0.5, 1e-3]:
            add(op="union", tol=tol, a=a, b=b)
            add(op="inter", tol=tol, a=a, b=b)
            if len(set(a)) == len(a) and len(set(b)) == len(b):
                add(op="interu", tol=tol, a=a, b=b)
    return out


def near(ctx, name, m, tol, k=0.4):
    """values around the given multiples of the tolerance"""
    e = ctx.reals(name, (len(m),), -k * tol, k * tol)
    return ctx.arr([tol * v + e[i] for i, v in enumerate(m)])


def run(ctx, cfg):
    import importlib

    R = importlib.import_module("SciDataTool.Functions.set_routines")
    op = cfg["op"]
    if op in ("grid", "ret"):
        tol, m = cfg["tol"], cfg["m"]
        a = near(ctx, "e", m, tol)
        stable = bool(cfg["stable"])
        ret = cfg.get("ret", "ivc")
        got = R.unique_tol(
            a,
            tol=tol,
            is_abs_tol=True,
            return_index="i" in ret,
            return_inverse="v" in ret,
            return_counts="c" in ret,
            is_stable=stable,
        )
        order = []
        for v in m:
            if v not in order:
                order.append(v)
        if not stable:
            order.sort()
        first = [m.index(v) for v in order]
        if not ret:
            got = (got,)
        ctx.true(len(got) == 1 + len(ret), "number of results")
        got = list(got)
        t = tol * 1e-6
        b = got.pop(0)
        ctx.eq(b, [a[i] for i in first], "unique values", tol=t)
        if "i" in ret:
            ctx.true([int(i) for i in got.pop(0)] == first, "positions of the unique values")
        if "v" in ret:
            ctx.true([int(i) for i in got.pop(0)] == [order.index(v) for v in m], "positions in the result")
        if "c" in ret:
            ctx.true([int(i) for i in got.pop(0)] == [m.count(v) for v in order], "number of occurrences")
    elif op == "free":
        tol, n = cfg["tol"], cfg["n"]
        a = ctx.reals("a", (n,), -10, 10)
        b, ia, ib, c = R.unique_tol(
            a, tol=tol, is_abs_tol=True, return_index=True, return_inverse=True, return_counts=True
        )
        for i in range(n):
            ctx.le(abs(a[i] - b[int(ib[i])]), tol * (1 + 1e-6), "within the tolerance of its representative")
        for k in range(len(b)):
            ctx.eq(b[k], a[int(ia[k])], "representatives are inputs")
            ctx.true(int(c[k]) == sum(1 for i in range(n) if int(ib[i]) == k), "occurrences")
            for j in range(k):
                ctx.true(b[j] <= b[k], "sorted")
    elif op == "rel":
        m = cfg["m"]
        # largest value 8 (exactly), so that the tolerance is 8 * tol
        top = max(abs(v) for v in m)
        tol = 0.05
        eff = tol * top if top else 1
        k = [v / eff for v in m]
        a = near(ctx, "e", [v if abs(v) != top else 0 for v in m], eff, 0.2)
        a = ctx.arr([float(v) if abs(v) == top else round(v / eff) * eff + (a[i] - v * eff) for i, v in enumerate(m)])
        cells = [round(v / eff) for v in m]
        order = sorted(set(cells))
        if cfg["f"] == "unique":
            b = R.unique_tol(a, tol=tol)
        elif cfg["f"] == "union":
            b = R.union1d_tol(a, a[:1], tol=tol)
        else:
            b, ia, ib = R.intersect1d_tol(a, a[::-1], tol=tol, return_indices=True)
        ctx.eq(b, [a[cells.index(c)] for c in order], "values", tol=1e-6)
    elif op == "rel2":
        # spacing relative to the largest value (of the first array for an intersection), never above 1
        top, tol, f = float(cfg["top"]), 0.05, cfg["f"]
        eff = min(tol * top, 1.0)
        ma, mb = cfg["a"], cfg["b"]
        a, b = near(ctx, "e", ma, eff), near(ctx, "d", mb, eff)
        a = ctx.arr(list(a) + [top])
        if f == "unique":
            r = R.unique_tol(ctx.arr(list(a) + list(b)), tol=tol)
        elif f == "union":
            r = R.union1d_tol(a, b, tol=tol)
        else:
            b = ctx.arr(list(b) + [top * cfg["far"]])
            r = R.intersect1d_tol(a, b, tol=tol)
        if f == "inter":
            cells = sorted(set(ma) & set(mb))
            want = [a[ma.index(c)] for c in cells]
        else:
            mm, every = ma + mb, list(a)[:-1] + list(b)
            want = [every[mm.index(c)] for c in sorted(set(mm))] + [top]
        ctx.eq(r, want, "values", tol=1e-6)
    else:
        tol = cfg["tol"]
        ma, mb = cfg["a"], cfg["b"]
        a = near(ctx, "e", ma, tol)
        b = near(ctx, "d", mb, tol)
        t = tol * 1e-6
        if op == "union":
            u, ia, ib = R.union1d_tol(a, b, tol=tol, is_abs_tol=True, return_indices=True)
            cells = sorted(set(ma + mb))
            every = list(a) + list(b)
            mm = ma + mb
            ctx.eq(u, [every[mm.index(c)] for c in cells], "union", tol=t)
            ctx.eq(R.union1d_tol(a, b, tol=tol, is_abs_tol=True), u, "union without the indices", tol=t)
            for x, m, ix, w in ((a, ma, ia, "first"), (b, mb, ib, "second")):
                for i in range(len(m)):
                    ctx.le(abs(x[i] - u[int(ix[i])]), tol, w + " array found in the union")
        else:
            r, ia, ib = R.intersect1d_tol(
                a, b, tol=tol, is_abs_tol=True, return_indices=True, assume_unique=op == "interu"
            )
            cells = sorted(set(ma) & set(mb))
            ctx.eq(r, [a[ma.index(c)] for c in cells], "intersection", tol=t)
            ctx.true([int(i) for i in ia] == [ma.index(c) for c in cells], "positions in the first array")
            ctx.true([int(i) for i in ib] == [mb.index(c) for c in cells], "positions in the second array")
            ctx.eq(
                R.intersect1d_tol(a, b, tol=tol, is_abs_tol=True, assume_unique=op == "interu"),
                r,
                "intersection without the indices",
                tol=t,
            )
