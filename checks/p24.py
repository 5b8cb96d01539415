"""Field stored in the time and frequency domains."""
import math

from .common import dt

BOUNDS = (
    "time forms of 2 or 4 samples on 1 or 2 axes (with and without period) and frequency forms of 2 to 4 lines with unrelated "
    "symbolic values, built directly or from one form (given or computed other form), real and complex; sequences of 1 to 3 requests "
    "(selections, intervals, interpolation, reductions, derivatives, transforms, units, normalization, magnitude, phase, "
    "extracted objects, axes by name); |values|<=1e9 (magnitudes and phases: parts between 1 and 1e3)"
)
ASSUMPTIONS = ["a request which names freqs or wavenumber is a frequency request, any other one is a time request"]

T1 = ["time", "time[1]", "time[0,1]", "time=[0.2,0.6]", "time=sum", "time=mean", "time=derivate", "time{ms}", "time=axis_data", "time=max"]
F1 = ["freqs", "freqs[1]", "freqs[0,1]", "freqs=[1,3]", "freqs=sum", "freqs{kHz}", "freqs=2.0", "freqs->elec"]
T2 = [["time", "angle"], ["time[1]", "angle"], ["angle", "time=sum"], ["angle[1]"], ["angle=sum"], ["time=integrate", "angle=mean"], ["time{ms}", "angle{°}"], []]
F2 = [["freqs", "wavenumber"], ["freqs[1]", "wavenumber"], ["freqs", "angle"], ["time", "wavenumber"], ["wavenumber=sum", "freqs"], ["freqs"], ["wavenumber[1]"],
      ["freqs=1.0", "angle[0]"]]


def configs(tier):
    out = []

    def add(dim, seq, **kw):
        c = dict({"dim": dim, "seq": seq}, **kw)
        c["name"] = "%d-%s%s" % (dim, "|".join(m[0] + ":" + ";".join(m[1:]) for m in seq), "".join("-%s" % v for v in kw.values()))
        out.append(c)

    g = lambda r: ["get"] + (r if isinstance(r, list) else [r])
    for how in ["init", "tgiven", "fgiven", "tcomp", "fcomp", "onlyt", "onlyf"]:
        for t in T1:
            add(1, [g(t)], how=how)
        for f in F1:
            add(1, [g(f)], how=how)
        for t in T2:
            add(2, [g(t)], how=how)
        for f in F2:
            add(2, [g(f)], how=how)
        if how == "init":
            for t in T1:
                for f in F1:
                    add(1, [g(t), g(f), g(t)], how=how)
                    add(1, [g(f), g(t), g(f)], how=how)
        for t in T2:
            for f in F2:
                if how == "init" or tier == "thorough":
                    add(2, [g(t), g(f), g(t)], how=how)
                    add(2, [g(f), g(t), g(f)], how=how)
        for m in ["mag", "phase", "data"]:
            for r in [["time"], ["time[1]"], ["freqs"], ["freqs[1]"], ["freqs=[1,3]"]]:
                add(1, [[m] + r], how=how)
                if how == "init":
                    add(1, [g("time"), [m] + r], how=how)
                    add(1, [g("freqs"), [m] + r], how=how)
            for r in [["time", "angle"], ["freqs", "wavenumber"], ["freqs", "angle[0]"], ["angle"]]:
                if m == "phase" and r == ["freqs", "angle[0]"] or (m == "phase" and how in ("tcomp", "fcomp")):
                    continue
                add(2, [[m] + r], how=how)
                if how == "init":
                    add(2, [g(["time", "angle"]), [m] + r], how=how)
                    add(2, [g(["freqs", "wavenumber"]), [m] + r], how=how)
        add(1, [["norm", "time"], ["norm", "freqs"]], how=how)
        add(1, [["unit", "time"], ["unit", "freqs"]], how=how)
    for real in [False]:
        for how in ["init", "tgiven", "fgiven", "tcomp", "fcomp"]:
            for r in [["time", "angle"], ["freqs", "wavenumber"], ["freqs", "angle"], ["time", "wavenumber"]]:
                add(2, [g(r)], how=how, real=real)
    add(1, [["db", "freqs"]], how="init")
    add(1, [g("time"), ["db", "freqs"]], how="init")
    add(1, [g("freqs"), ["db", "freqs"], g("time")], how="init")
    add(1, [["axes"], g("time"), ["axes", "time"]], how="init")
    for how in ["init", "tgiven", "fgiven", "tcomp", "fcomp", "onlyt", "onlyf"]:
        for r in [[], ["time"], ["freqs"], ["freqs", "time"], ["ti"], ["freq"], ["wave"], ["angle"], ["angle", "wavenumber"], ["time2"]]:
            add(2, [["axes"] + r], how=how)
            add(2, [g(["angle"]), ["axes"] + r], how=how)
    return [c for c in out if c["name"]]


def run(ctx, cfg):
    import numpy as np

    s = dt()
    how, real = cfg["how"], cfg.get("real", True)
    db = any(m[0] == "db" for m in cfg["seq"])
    small = any(m[0] in ("mag", "phase") for m in cfg["seq"])
    kw = {"name": "f", "symbol": "X", "unit": "T", "is_real": real}
    norms = lambda: {"ref": s.Norm_ref(ref=0.5)}
    if cfg["dim"] == 1:
        ta = lambda: [s.Data1D(name="time", unit="s", values=ctx.arr([0.0, 0.25, 0.5, 0.75]))]
        fa = lambda: [s.Data1D(name="freqs", unit="Hz", values=ctx.arr([0.0, 1.0, 2.0]), normalizations={"elec": s.Norm_ref(ref=2.0)})]
        tsh, fsh = (4,), (3,)
    else:
        ta = lambda: [s.Data1D(name="time", unit="s", values=ctx.arr([0.0, 0.5])), s.Data1D(name="angle", unit="rad", values=ctx.arr([0.0, math.pi / 2]), symmetries={"period": 2})]
        fa = lambda: [s.Data1D(name="freqs", unit="Hz", values=ctx.arr([0.0, 1.0] if real else [-1.0, 0.0])), s.Data1D(name="wavenumber", unit="dimless", values=ctx.arr([-2.0, -1.0, 0.0, 1.0]))]
        tsh, fsh = (2, 2), (2, 4)

    def vals(nm, sh, cpl):
        lim = (1, 1e3) if (small or db) else (-1e9, 1e9)
        if not cpl:
            return ctx.reals(nm, sh, *lim)
        if small or db:
            v = np.empty(sh, dtype=object)
            for ix in np.ndindex(*sh):
                v[ix] = ctx.real(nm + "r%s" % (ix,), *lim) + (0j if db else 1j * ctx.real(nm + "i%s" % (ix,), *lim))
            return ctx.arr(v.tolist())
        return ctx.complexes(nm, sh, *lim)

    xt, xf = vals("t", tsh, not real), vals("f", fsh, True)
    time = s.DataTime(axes=ta(), values=xt, normalizations=norms(), **kw)
    freq = s.DataFreq(axes=fa(), values=xf, normalizations=norms(), **kw)
    if how == "init":
        d = s.DataDual(axes_dt=ta(), values_dt=xt, axes_df=fa(), values_df=xf, normalizations=norms(), **kw)
    elif how == "tgiven":
        d = time.to_datadual(datafreq=freq)
    elif how == "fgiven":
        d = freq.to_datadual(datatime=time)
    elif how == "tcomp":
        d = time.to_datadual()
        freq = s.DataTime(axes=ta(), values=xt, normalizations=norms(), **kw).time_to_freq()
    elif how == "fcomp":
        d = freq.to_datadual()
        time = s.DataFreq(axes=fa(), values=xf, normalizations=norms(), **kw).freq_to_time()
    elif how == "onlyt":
        d = s.DataDual(axes_dt=ta(), values_dt=xt, normalizations=norms(), **kw)
        freq = time
    else:
        d = s.DataDual(axes_df=fa(), values_df=xf, normalizations=norms(), **kw)
        time = freq
    ctx.true((d.name, d.symbol, d.unit, d.is_real) == ("f", "X", "T", real), "metadata of the dual field")
    ctx.true(list(d.normalizations) == ["ref"], "normalizations of the dual field")
    ctx.eq(d.normalizations["ref"].ref, 0.5, "reference of the dual field")
    for m in cfg["seq"]:
        what, req = m[0], m[1:]
        own = freq if any("freqs" in q or "wavenumber" in q for q in req) else time
        ax = lambda: {"axis_data": {"time": ctx.arr([0.1, 0.3, 0.5])}} if any("axis_data" in q for q in req) else {}
        if what == "axes":
            ax = [a.name for a in d.get_axes(*req)]
            all_ax = [a.name for f in ([time, freq] if time is not freq else [time]) for a in f.axes]
            ctx.true(sorted(ax) == sorted(all_ax if not req else [n for q in req for n in all_ax if n == q]), "axes %s" % (req,))
            continue
        call = {
            "get": lambda o: o.get_along(*req, is_squeeze=False, **ax()),
            "mag": lambda o: o.get_magnitude_along(*req, is_squeeze=False),
            "phase": lambda o: o.get_phase_along(*req),
            "data": lambda o: o.get_data_along(*req),
            "norm": lambda o: o.get_along(*req, is_norm=True),
            "unit": lambda o: o.get_along(*req, unit="mT"),
            "db": lambda o: o.get_magnitude_along(*req, unit="dB"),
        }[what]
        try:
            want = call(own)
            err = None
        except Exception as e:  # noqa
            err = e
        if err is not None:
            if not isinstance(err, (KeyError, IndexError, AttributeError, TypeError, ValueError)) and type(err).__module__.startswith("SciDataTool"):
                ctx.raises(type(err), lambda: call(d), "refused as by the separate object")
                continue
            raise err
        got = call(d)
        lab = what + " " + ";".join(req)
        if what == "data":
            ctx.true([a.name for a in got.axes] == [a.name for a in want.axes], "axes of " + lab)
            ctx.true((got.unit, got.name, got.symbol) == (want.unit, want.name, want.symbol), "attributes of " + lab)
            ctx.eq(got.values, np.asarray(want.values, dtype=object).tolist(), lab, tol=1)
            for a, b in zip(got.axes, want.axes):
                ctx.eq(a.get_values(), [v for v in b.get_values()], "axis of " + lab, tol=1e-6)
                ctx.true((a.unit, a.symmetries) == (b.unit, b.symmetries), "unit and symmetry of " + lab)
            continue
        ctx.eq(got["X"], np.asarray(want["X"], dtype=object).tolist(), lab, tol=1e-3)
        ctx.true(sorted(k for k in got) == sorted(k for k in want), "keys of " + lab)
        for q in want["axes_list"]:
            w = want[q.name]
            if isinstance(w, str):
                ctx.true(got[q.name] == w, "axis of " + lab)
            else:
                ctx.eq(got[q.name], [v for v in w], "axis of " + lab, tol=1e-6)
