"""Exported tables contain the requested values."""
import csv
import math
import os
import shutil
import tempfile

from .common import dt

BOUNDS = (
    "fields of 1 to 4 axes of 1 to 4 samples stored in several orders (equal lengths included; time, angle, z, an axis of another name, "
    "axes of components), exported as tables, as tables in several files and through the curves of the plot; requests by whole axis, unit, index, "
    "value, list, interval, axis data and sum listed in any order, axes left out, no request at all, other field units, normalized fields, "
    "spectra; symbolic values of the first two axes (tables), |values|<=1e9 (spectra: <=1e3)"
)
ASSUMPTIONS = [
    "the axes of a table come in the stored order: the first one down the rows, the second one across the columns, the third one in one file per value",
    "curves: the first axis listed goes down the rows, an axis given by a list has one column per value, named with three digits",
]

AX = {
    "time": ("s", [0.0, 0.25, 0.5, 0.75], ("ms", 1e3)),
    "angle": ("rad", [0.0, 0.5, 1.0, 1.5], ("°", 180 / math.pi)),
    "z": ("m", [-1.0, 0.0, 1.0, 2.0], ("mm", 1e3)),
    "q": ("dimless", [2.0, 3.0, 5.0, 7.0], None),
    "comp": ("", ["radial", "axial, a", "H_{2} $f$", "end"], None),
}


def configs(tier):
    out = []

    def add(axes, req, **kw):
        c = dict({"axes": axes, "req": req}, **kw)
        c["name"] = "%s-%s%s" % (
            "".join("%s%d" % a for a in axes),
            ";".join("%s:%s" % (n, ",".join(str(e) for e in r)) for n, r in req) if req is not None else "none",
            "".join("-%s=%s" % (k, v) for k, v in kw.items()),
        )
        out.append(c)

    W, U = ("w",), ("u",)
    one = [W, U, ("l", 0, 2), ("l", 2, 0), ("iv", 1, 2)]
    two = [("time", 3), ("angle", 3)], [("angle", 3), ("time", 2)], [("time", 2), ("z", 4)], [("q", 3), ("time", 3)], [("comp", 3), ("time", 3)], [("angle", 4), ("comp", 3)]
    # tables
    for a in AX:
        for r in one:
            if not (a in ("q", "comp") and r == U or (a == "comp" and r[0] == "iv")):
                add([(a, 4)], [(a, r)])
    for axes in two:
        (a, na), (b, nb) = axes
        rs = lambda nm, n: [r for r in [W, U, ("l", 0, n - 1), ("iv", 0, 1), ("i", 1), ("v", 1), ("sum",)] if not (nm in ("q", "comp") and r == U or (nm == "comp" and r[0] in ("iv", "v", "sum")))]
        for ra in rs(a, na):
            for rb in rs(b, nb):
                if ra[0] in ("i", "v", "sum") and rb[0] in ("i", "v", "sum"):
                    continue
                add(axes, [(a, ra), (b, rb)])
                add(axes, [(b, rb), (a, ra)])
        add(axes, [(a, W)])
        add(axes, [(b, W)])
        add(axes, None)
        add(axes, [(a, W), (b, W)], unit="mT")
        add(axes, [(a, W), (b, W)], norm=True)
        add(axes, [(a, W), (b, W)], file="other")
        add(axes, [(a, W), (b, W)], multi=True)
    three = [[("time", 3), ("angle", 2), ("z", 3)], [("z", 2), ("time", 3), ("angle", 3)], [("angle", 3), ("q", 3), ("time", 3)], [("time", 2), ("comp", 2), ("z", 2)],
             [("time", 2), ("angle", 3), ("comp", 2)]]
    for axes in three:
        names = [a for a, n in axes]
        for perm in [(0, 1, 2), (2, 1, 0), (1, 2, 0)]:
            add(axes, [(names[k], W) for k in perm], multi=True)
            if "comp" not in names and "q" not in names:
                add(axes, [(names[k], U) for k in perm], multi=True)
        for k in range(3):
            for r in [("i", 1), ("v", 0), ("sum",)]:
                if names[k] == "comp" and r[0] in ("v", "sum"):
                    continue
                add(axes, [(names[j], r if j == k else W) for j in range(3)])
                add(axes, [(names[j], r if j == k else W) for j in (1, 2, 0)], multi=True)
            add(axes, [(names[j], W) for j in range(3) if j != k])
            add(axes, [(names[j], W if j == k else ("i", 1)) for j in range(3)])
            add(axes, [(names[k], W)])
        add(axes, [(names[j], W) for j in range(3)], multi=True, unit="mT")
        add(axes, None, multi=True)
        add(axes, [(names[j], W) for j in range(3)], refuse=True)
    add([("time", 2), ("angle", 2), ("z", 2), ("q", 2)], [("time", W), ("angle", W), ("z", W), ("q", W)], multi=True, refuse=True)
    for k in range(4):
        axes = [("time", 2), ("angle", 3), ("z", 2), ("q", 3)]
        add(axes, [(n, ("i", 1) if j == k else W) for j, (n, _) in enumerate(axes)], multi=True)
    # one sample along an axis
    for axes in [[("time", 1), ("angle", 3)], [("time", 3), ("angle", 1)], [("time", 3), ("z", 1), ("angle", 2)]]:
        add(axes, [(a, W) for a, n in axes])
        add(axes, None)
    # periodic fields
    for sym in ["period", "antiperiod"]:
        add([("time", 2), ("angle", 3)], None, sym=sym)
        add([("time", 2), ("angle", 3)], [("time", W), ("angle", W)], sym=sym)
        add([("angle", 2)], [("angle", U)], sym=sym)
        add([("angle", 2)], None, sym=sym)
    # axes stored in another unit, step axes
    for axes in [[("angle", 3), ("time", 2)], [("time", 3), ("angle", 3)]]:
        for r in [W, U, ("l", 0, 1)]:
            add(axes, [(n, r if n == "angle" else W) for n, _ in axes], deg=True)
        add(axes, None, deg=True)
    for axes in [[("time", 3), ("z", 2)], [("z", 2), ("time", 3)], [("z", 3)]]:
        add(axes, None, steps=True)
        add(axes, [(n, W) for n, _ in axes], steps=True)
    # resampled axes
    for axes in [[("time", 4)], [("time", 3), ("angle", 3)], [("angle", 3), ("time", 3)], [("z", 3), ("time", 3), ("angle", 3)]]:
        for nm, n in axes:
            add(axes, [(a, ("data",) if a == nm else W if a != "z" else ("i", 1)) for a, _ in axes], multi=True)
            if nm != "z":
                add(axes, [(nm, ("data",))] + [(a, ("i", 1)) for a, _ in axes if a != nm], curves=True)
                add(axes, [(a, ("data",) if a == nm else W if a != "z" else ("i", 1)) for a, _ in axes], norm=True)
    # spectra and levels
    for axes in [[("time", 4)], [("time", 4), ("angle", 3)], [("angle", 4), ("time", 4)], [("z", 2), ("time", 4), ("angle", 4)]]:
        add(axes, [(n, W) for n, _ in axes], fft=["time"], multi=True)
        if len(axes) > 1 and dict(axes).get("angle") == 4:
            add(axes, [(n, W) for n, _ in axes], fft=["angle"], multi=True)
            add(axes, [(n, W) for n, _ in axes], fft=["time", "angle"], multi=True)
    add([("time", 2), ("angle", 2), ("z", 2)], [("time", W), ("angle", W), ("z", W)], multi=True, unit="dB", fft=["time"])
    add([("time", 4)], [("time", W)], norm=True, fft=["time"])
    add([("angle", 4), ("time", 4)], [("angle", W), ("time", W)], norm=True, fft=["time"])
    add([("time", 4), ("angle", 4)], [("time", W), ("angle", W)], norm=True, fft=["angle"])
    add([("time", 2), ("angle", 2)], [("time", W), ("angle", W)], unit="dB", fft=["time"])
    add([("time", 2), ("angle", 2)], [("time", W), ("angle", W)], unit="dBA", fft=["time"])
    add([("time", 2)], [("time", W)], unit="dBA", fft=["time"])
    add([("time", 2)], [("time", W)], unit="dB", fft=["time"])
    # curves
    for axes in two + ([("angle", 3), ("time", 3)], [("z", 3), ("angle", 3)]):
        (a, na), (b, nb) = axes
        for (x, nx), (y, ny) in [((a, na), (b, nb)), ((b, nb), (a, na))]:
            if x == "comp":
                continue
            for rx in [W, U, ("iv", 0, 1)]:
                if x == "q" and rx == U:
                    continue
                rys = [("i", 1)] + ([] if y == "comp" else [("v", 1), ("sum",)]) + [("l",) + tuple(range(n)) for n in range(2, ny + 1)] + [("l", ny - 1, 0)]
                for ry in rys:
                    add(axes, [(x, rx), (y, ry)], curves=True)
                if x != "comp" and y != "comp":
                    add(axes, [(x, rx), (y, W)], curves=True)
            add(axes, [(x, W)], curves=True)
            add(axes, [(x, W), (y, ("l", 0, 1))], curves=True, unit="mT")
            add(axes, [(x, W), (y, ("l", 0, 1))], curves=True, norm=True)
    for axes in three:
        names = [a for a, n in axes]
        for k in range(3):
            for l in range(3):
                if k != l and names[k] != "comp":
                    m = 3 - k - l
                    n = axes[l][1]
                    add(axes, [(names[k], W), (names[l], ("l",) + tuple(range(n))), (names[m], ("i", 1))], curves=True)
                    if names[m] != "comp":
                        add(axes, [(names[k], W), (names[l], ("l", 0, 1)), (names[m], ("v", 0))], curves=True)
                        add(axes, [(names[k], W), (names[m], ("sum",)), (names[l], ("l", 0, 1))], curves=True)
    add([("time", 4)], [("time", W)], fft=["time"], curves=True)
    add([("time", 4), ("angle", 2)], [("time", W), ("angle", ("i", 1))], fft=["time"], curves=True)
    return out


def read(path):
    with open(path, newline="") as f:
        return list(csv.reader(f))


def run(ctx, cfg):
    s = dt()
    axes = cfg["axes"]
    fft, curves, sym = cfg.get("fft", []), cfg.get("curves", False), cfg.get("sym")
    unit, multi, norm = cfg.get("unit", "SI"), cfg.get("multi", False), cfg.get("norm", False)
    obj_axes, vals = [], {}
    for k, (nm, n) in enumerate(axes):
        u, v, _ = AX[nm]
        v = v[:n]
        # slices by value, intervals, file names and curves need known positions
        r = dict(cfg["req"] or []).get(nm, ("w",))[0]
        if nm != "comp" and n > 1 and k < 2 and r in ("w", "u", "i", "l", "sum") and not (cfg.get("steps") or curves or fft or sym or cfg["req"] is None) and nm in dict(cfg["req"]):
            v = [e for e in ctx.increasing("a%d" % k, n, -10, 10, 0.1)]
        if fft and nm == "angle":
            v = [2 * math.pi * i / n for i in range(n)]
        kw = {}
        if nm == "comp":
            kw["is_components"] = True
        if sym and k == len(axes) - 1:
            v = [2 * math.pi / 4 * i / n for i in range(n)]
            kw["symmetries"] = {sym: 4}
        vals[nm] = v
        if cfg.get("steps") and nm == "z":
            # slices 0..n-1 repeated in turn along 2*n positions
            obj_axes.append(s.DataPattern(name=nm, unit=u, values=ctx.arr(v), unique_indices=list(range(n)), rebuild_indices=list(range(n)) * 2, values_whole=ctx.arr([0.5 * i for i in range(2 * n)])))
            continue
        if cfg.get("deg") and nm == "angle":
            u = "°"
        obj_axes.append(s.Data1D(name=nm, unit=u, values=v if nm == "comp" else ctx.arr(v), **kw))
    shape = tuple(n for _, n in axes)
    lim = (0.5, 1e3) if "dB" in unit else (-1e3, 1e3) if fft else (-1e9, 1e9)
    x = ctx.reals("x", shape, *lim)
    norms = {"ref": s.Norm_ref(ref=0.5)} if norm or "dB" in unit else {}
    mk = lambda: s.DataTime(name="some field", symbol="X", unit="T", axes=[a.copy() for a in obj_axes], values=x.copy(), normalizations=dict(norms))
    d = mk()

    # what the table must hold: samples (position, sign) kept along each axis, their printed values
    req = cfg["req"]
    given = dict(req) if req is not None else {nm: ("w",) for nm, _ in axes}
    spec = {"time": "freqs", "angle": "wavenumber"}
    args, keep = [], {}
    for nm, n in axes:
        r = given.get(nm, ("omit",))
        v = vals[nm]
        ix = [(i, 1) for i in range(n)]
        if sym and nm == axes[-1][0]:
            m = 4 if r[0] in ("w", "u") and req is not None else 1 if sym == "period" else 2
            ix = [(i % n, -1 if sym == "antiperiod" and (i // n) % 2 else 1) for i in range(m * n)]
            v = [2 * math.pi / 4 * i / n for i in range(m * n)]
        if cfg.get("steps") and nm == "z" and req is not None:
            ix, v = ix * 2, [0.5 * i for i in range(2 * n)]
        u, f = AX[nm][0], 1
        if cfg.get("deg") and nm == "angle":
            u = "°"
        elif r[0] == "u":
            u, f = AX[nm][2]
        if r[0] in ("i", "v"):
            ix = [ix[r[1]]]
            v = [v[r[1]]]
        elif r[0] in ("l", "iv"):
            sel = r[1:] if r[0] == "l" else range(r[1], r[2] + 1)
            ix, v = [ix[i] for i in sel], [v[i] for i in sel]
        elif r[0] == "omit":
            ix, v = ix[:1], v[:1]
        elif r[0] == "data":
            ix, v = [("between", 0, 1, 0.5), ("between", 1, 2, 0.25)], [v[0] * 0.5 + v[1] * 0.5, v[1] * 0.75 + v[2] * 0.25]
        keep[nm] = (ix, [e if nm == "comp" else e * f for e in v], u, r[0])
    order = [nm for nm, _ in (req if req is not None else axes)]
    for nm in order:
        r = given[nm]
        v = vals[nm]
        t = {
            "w": "", "data": "=axis_data", "u": "{%s}" % (AX[nm][2] or [""])[0], "i": "[%s]" % r[-1], "l": str(list(r[1:])).replace(" ", ""), "sum": "=sum",
            "v": "=%s" % v[r[1]] if r[0] == "v" else "", "iv": "=[%s,%s]" % (v[r[1]] - 0.01, v[r[2]] + 0.01) if r[0] == "iv" else "",
        }[r[0]]
        args.append((spec[nm] if nm in fft else nm) + t)

    if req is None:
        args = []

    def value(pos):
        """field at a position of the table, pos: name -> rank along the axis"""
        def rec(k, ix, sg):
            if k == len(axes):
                e = x[ix] * sg if ix else x
                return e / 0.5 if norm else e * 1000 if unit == "mT" else e
            nm = axes[k][0]
            sel, _, _, kind = keep[nm]
            if kind == "sum":
                t = 0
                for i, g in sel:
                    t = t + rec(k + 1, ix + (i,), sg * g)
                return t
            c = sel[pos.get(nm, 0)]
            if c[0] == "between":
                return rec(k + 1, ix + (c[1],), sg) * (1 - c[3]) + rec(k + 1, ix + (c[2],), sg) * c[3]
            i, g = c
            return rec(k + 1, ix + (i,), sg * g)

        return rec(0, (), 1)

    free = [nm for nm, n in axes if keep[nm][3] != "sum" and len(keep[nm][0]) > 1]
    if curves:
        free.sort(key=order.index)
    if fft:
        # the same request
        res = mk().get_magnitude_along(*args, unit=unit, is_norm=norm)
        for nm in fft:
            w = res[spec[nm]]
            keep[nm] = ([(i, 1) for i in range(len(w))], list(w), "Hz" if nm == "time" else "", "w")
        tab = res["X"]
        value = lambda pos: tab[tuple(pos[nm] for nm in free_st)]
        free_st = [nm for nm, n in axes if len(keep[nm][0]) > 1]

    opts = {"is_norm": True} if norm else {}
    for nm, r in req or []:
        if r[0] == "data":
            opts["axis_data"] = {nm: ctx.arr(list(keep[nm][1]))}
    path = tempfile.mkdtemp(prefix="export_")
    try:
        call = lambda: d.export_along(*args, is_2D=curves, unit=unit, save_path=path, is_multiple_files=multi, plot_options=opts, **({"file_name": cfg["file"]} if "file" in cfg else {}))
        if cfg.get("refuse"):
            ctx.raises(Exception, call, "more dimensions than the table can hold")
            ctx.true(os.listdir(path) == [], "no file")
            return
        call()
        base = cfg.get("file", "X_Data")
        files = sorted(os.listdir(path))
        name = lambda nm: spec[nm] if nm in fft else nm
        if len(free) == 3:
            want = {"%s_%s%s.csv" % (base, name(free[2]), e): {free[2]: i} for i, e in enumerate(keep[free[2]][1])}
        else:
            want = {base + ".csv": {}}
        ctx.true(files == sorted(want), "files %s, expected %s" % (files, sorted(want)))
        for fn, pos in want.items():
            rows = read(os.path.join(path, fn))
            head(ctx, cfg, rows[0], unit, norm, keep, axes, free, pos, name)
            clean = lambda e: e.replace("$", "").replace("{", "").replace("}", "")
            r_ax = free[0]
            rv = keep[r_ax][1]
            ctx.true(len(rows) == 2 + len(rv), "rows: %d" % len(rows))
            nc = len(keep[free[1]][1]) if len(free) > 1 else 1
            lists = len(free) > 1 and (not curves or keep[free[1]][3] == "l")
            # second line: axes and positions across the columns
            if not curves:
                lab = "%s[%s]" % (name(r_ax), keep[r_ax][2])
                if len(free) > 1:
                    lab += "/%s[%s]" % (name(free[1]), keep[free[1]][2])
                ctx.true(rows[1][0] == clean(lab), "corner cell %r, expected %r" % (rows[1][0], lab))
            ctx.true(len(rows[1]) == (1 + nc if lists else 1), "cells of the second line: %d" % len(rows[1]))
            if lists:
                for j, e in enumerate(keep[free[1]][1]):
                    c = rows[1][1 + j]
                    if free[1] == "comp":
                        ctx.true(clean(e) in c, "column name %r" % c)
                    elif curves:
                        ctx.true(c.strip().startswith("%s=%.3g" % (free[1], e)), "column name %r" % c)
                    else:
                        ctx.eq(ctx.untok(c), e, "column position %d" % j)
            for i, e in enumerate(rv):
                row = rows[2 + i]
                ctx.true(len(row) == 1 + nc, "cells of row %d: %d" % (i, len(row)))
                if r_ax == "comp":
                    ctx.true(row[0] == clean(e), "row name %r" % row[0])
                else:
                    ctx.eq(ctx.untok(row[0]), e, "row position %d" % i)
                for j in range(nc):
                    p = dict(pos)
                    p[r_ax] = i
                    if len(free) > 1:
                        p[free[1]] = j
                    ctx.eq(ctx.untok(row[1 + j]), value(p), "cell %d,%d of %s" % (i, j, fn))
    finally:
        shutil.rmtree(path)


def head(ctx, cfg, row, unit, norm, keep, axes, free, pos, name):
    """first line: field, unit, slices"""
    ctx.true(row[:2] == ["X", "some field"], "symbol and name %r" % (row[:2],))
    u = {"SI": "T", "dB": "dB re. 0.5 T", "dBA": "dBA re. 0.5 T"}.get(unit, unit)
    ctx.true(row[2] == "[%s]" % u, "unit of the field %r" % row[2])
    if cfg.get("curves"):
        return
    txt = row[3]
    want = []
    for nm, n in axes:
        if nm in free and nm not in pos:
            continue
        e = keep[nm][1][pos.get(nm, 0)]
        want.append((name(nm), "sum" if keep[nm][3] == "sum" else e))
    if not want:
        ctx.true(txt == "", "slices %r" % txt)
        return
    ctx.true(txt.startswith("sliced at "), "slices %r" % txt)
    got = {}
    for nm, e in want:
        # a component name may hold a comma
        k = (" " + txt).find(" " + nm + "=")
        ctx.true(k >= 0, "slice of %s in %r" % (nm, txt))
        if k >= 0:
            got[nm] = txt[k + len(nm) + 1:]
    for nm, e in want:
        if nm not in got:
            continue
        t = got[nm]
        if isinstance(e, str):
            ctx.true(t == e or t.startswith(e + ", "), "slice %s of %r" % (nm, txt))
        else:
            ctx.eq(ctx.untok(t.split(", ")[0]), e, "slice of %s" % nm)
