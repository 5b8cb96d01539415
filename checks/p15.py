"""Copies and saved objects are equal to the original and independent."""
import os
import shutil
import tempfile

from .common import dt

BOUNDS = (
    "one to three objects of every class with all their attributes set, fields of 1 or 2 axes of 1 to 3 samples, nested axes, normalizations and "
    "components; symbolic arrays and numbers (|values|<=1e9), real and complex; copy, dictionary form (arrays as lists, copied, kept), json file read "
    "back through the class and the load function; equality and comparison after each single change of an attribute, array element, list or dictionary entry at any depth"
)
ASSUMPTIONS = [
    "functions given as python objects are kept by copies and by dictionaries asked to keep functions, and not compared through files",
    "json files hold the arrays as lists; numbers are written with all their digits",
]


class Sp:
    """description of an object: class and attributes"""

    def __init__(self, cls, **a):
        self.cls, self.a = cls, a


class Arr:
    """array attribute: nested list of numbers or names"""

    def __init__(self, v):
        self.v = v


def specs(ctx, nm):
    """the object described by its name"""
    n = [0]

    def r():
        n[0] += 1
        return ctx.real("v%d" % n[0], -1e9, 1e9)

    def vec(k):
        return Arr([r() for _ in range(k)])

    def mat(*sh, **kw):
        if len(sh) == 1:
            return [(r() + 1j * r()) if kw.get("cpl") else r() for _ in range(sh[0])]
        return [mat(*sh[1:], **kw) for _ in range(sh[0])]

    ref = lambda: Sp("Norm_ref", ref=r(), unit="dB")
    affine = lambda: Sp("Norm_affine", slope=r(), offset=r(), unit="rpm")
    vector = lambda k=2: Sp("Norm_vector", vector=vec(k), unit="Nm")
    func = lambda: Sp("Norm_func", function="lambda x: 2 * x + 1", unit="m")
    a1 = lambda k=2, name="time", **kw: Sp("Data1D", **dict(dict(
        values=vec(k), is_components=False, symmetries={"period": 2}, is_overlay=False, delimiter=None, sort_indices=None, filter=None,
        char_to_rm=None, symbol="t", name=name, unit="s", normalizations={"elec": ref()}), **kw))
    comp = lambda name="comp": Sp("Data1D", values=Arr(["r=0, stator", "r=1, rotor"]), is_components=True, symmetries={}, is_overlay=True, delimiter=", ",
                                  sort_indices=[1, 0], filter={"order": ["r=0", "r=1"], "place": ["stator"]}, char_to_rm=["=", "r"], symbol="c", name=name, unit="", normalizations={})
    lin = lambda name="angle", number=3: Sp("DataLinspace", initial=r(), final=r(), step=r(), number=number, include_endpoint=False, is_components=False, symmetries={"antiperiod": 4},
                                  is_overlay=False, symbol="a", name=name, unit="rad", normalizations={"tooth": affine(), "id": Sp("Norm_indices", unit="SI")})
    lin3 = lambda name="angle": Sp("DataLinspace", initial=0.0, final=r(), step=None, number=3, include_endpoint=True, is_components=False, symmetries={},
                                   is_overlay=False, symbol="a", name=name, unit="rad", normalizations={})
    pat = lambda name="z": Sp("DataPattern", rebuild_indices=[0, 1, 0, 1], unique_indices=[0, 2], is_step=False, values=vec(2), is_components=False, symmetries={},
                              values_whole=vec(4), is_overlay=False, symbol="z", name=name, unit="m", normalizations={"x L": vector()})
    head = dict(symbol="B_r", name="some field", unit="T")
    fld = lambda cls, axes, vals, **kw: Sp(cls, axes=axes, values=Arr(vals), FTparameters={"is_freq_real": True, "window": [1, 2]}, is_real=kw.pop("is_real", True),
                                           normalizations={"ref": ref()}, **head)
    tm = lambda: fld("DataTime", [a1(), lin3()], mat(2, 3))
    fq = lambda: fld("DataFreq", [a1(3, "freqs")], mat(3, cpl=True), is_real=False)
    table = {
        "Normalization": lambda: Sp("Normalization", unit="m"),
        "Norm_ref": ref,
        "Norm_affine": affine,
        "Norm_vector": lambda: vector(3),
        "Norm_indices": lambda: Sp("Norm_indices", unit="Hz"),
        "Norm_func": func,
        "Norm_func_py": lambda: Sp("Norm_func", function=lambda x: 3 * x, unit="m"),
        "Data": lambda: Sp("Data", normalizations={"ref": ref(), "aff": affine()}, **head),
        "Data1D": lambda: a1(3),
        "Data1D_none": lambda: Sp("Data1D", values=None, is_components=False, symmetries={}, is_overlay=False, delimiter=None, sort_indices=None, filter=None,
                                  char_to_rm=None, symbol="", name="x", unit="", normalizations={}),
        "Data1D_comp": comp,
        "Data1D_vect": lambda: a1(2, normalizations={"f": func(), "v": vector()}),
        "DataLinspace": lin,
        "DataPattern": pat,
        "DataND": lambda: fld("DataND", [a1(), comp()], mat(2, 2)),
        "DataTime": tm,
        "DataTime_steps": lambda: fld("DataTime", [pat(), a1(1)], mat(2, 1)),
        "DataTime_one": lambda: fld("DataTime", [a1(1, "angle"), a1(1)], mat(1, 1)),
        "DataTime_mid": lambda: fld("DataTime", [a1(2, "angle"), a1(1), lin3("z")], mat(2, 1, 3)),
        "DataTime_cplx": lambda: fld("DataTime", [a1(2)], mat(2, cpl=True), is_real=False),
        "DataTime_empty": lambda: Sp("DataTime", axes=None, values=None, FTparameters={}, is_real=True, normalizations={}, **head),
        "DataTime_func": lambda: Sp("DataTime", axes=[a1(2)], values=Arr(mat(2)), FTparameters={}, is_real=True, normalizations={"g": Sp("Norm_func", function=lambda x: 3 * x, unit="m")}, **head),
        "DataFreq": fq,
        "DataDual": lambda: Sp("DataDual", axes_dt=[a1(2)], values_dt=Arr(mat(2)), axes_df=[a1(2, "freqs")], values_df=Arr(mat(2, cpl=True)), axes=None, values=None, FTparameters={},
                               is_real=True, normalizations={"ref": ref()}, **head),
        "DataDual_time": lambda: Sp("DataDual", axes_dt=[a1(2)], values_dt=Arr(mat(2)), axes_df=None, values_df=None, axes=[a1(2)], values=Arr(mat(2)), FTparameters={},
                                    is_real=True, normalizations={}, **head),
        "VectorField": lambda: Sp("VectorField", name="force", symbol="F", components={"radial": tm(), "axial": fld("DataTime", [a1()], mat(2))}),
        "VectorField_freq": lambda: Sp("VectorField", name="force", symbol="F", components={"comp_x": fq()}),
        "RequestedAxis": lambda: Sp("RequestedAxis", name="time", corr_name="freqs", unit="s", corr_unit="Hz", extension="list", values=vec(2), indices=[0, 3], input_data=vec(2),
                                    operation="fft", index=1, transform="fft", is_pattern=False, rebuild_indices=vec(2), is_step=False, noct=3, corr_values=vec(2), is_components=False),
    }
    return table[nm]()


NAMES = [
    "Normalization", "Norm_ref", "Norm_affine", "Norm_vector", "Norm_indices", "Norm_func", "Norm_func_py", "Data", "Data1D", "Data1D_none", "Data1D_comp", "Data1D_vect",
    "DataLinspace", "DataPattern", "DataND", "DataTime", "DataTime_steps", "DataTime_one", "DataTime_mid", "DataTime_cplx", "DataTime_empty", "DataTime_func", "DataFreq", "DataDual",
    "DataDual_time", "VectorField", "VectorField_freq", "RequestedAxis",
]
PY = ("Norm_func_py", "DataTime_func")


class Dummy:
    """numbers do not matter when listing the changes"""

    def real(self, *a):
        return 1.5


def configs(tier):
    out = []
    for nm in NAMES:
        for way in ["copy", "dict0", "dict1", "dict2", "keep", "json", "dir", "noext", "load", "list", "named"]:
            if nm in PY and way not in ("copy", "keep", "dict0"):
                continue
            for who in ["original", "result"]:
                if way == "dict2" and who == "result":
                    continue
                out.append({"name": "%s-%s-%s" % (nm, way, who), "obj": nm, "way": way, "who": who})
        for k, lab in enumerate(changes(specs(Dummy(), nm))):
            out.append({"name": "%s-eq-%d-%s" % (nm, k, lab[0]), "obj": nm, "way": "eq", "k": k})
        out.append({"name": "%s-self" % nm, "obj": nm, "way": "self"})
    return out


def changes(sp):
    """list of (label, function(spec, new) which changes one thing, kind of new value)"""
    out = []

    def walk(get, v, lab, owner):
        """get(root) -> (container, key) of the thing v"""

        def put(f):
            def g(root, ctx):
                c, k = get(root)
                c[k] = f(c[k], ctx)

            return g

        if isinstance(v, Sp):
            for a, e in v.a.items():
                walk(lambda root, get=get, a=a: ((lambda o: (o.a, a))(at(get, root))), e, lab + "." + a, v.cls)
        elif isinstance(v, Arr):
            idx = list(positions(v.v))
            for ix in idx:
                out.append((lab + str(list(ix)).replace(" ", ""), put(lambda o, ctx, ix=ix: Arr(change_at(o.v, ix, ctx))), "value"))
            out.append((lab + "-none", put(lambda o, ctx: None), "different"))
        elif isinstance(v, bool):
            out.append((lab, put(lambda o, ctx: not o), "different"))
        elif isinstance(v, int):
            out.append((lab, put(lambda o, ctx: o + 1), "different"))
        elif isinstance(v, str) and lab.endswith("function"):
            out.append((lab, put(lambda o, ctx: "lambda x: 2 * x + 2"), "different"))
        elif isinstance(v, str):
            out.append((lab, put(lambda o, ctx: o + "x"), "different"))
        elif callable(v):
            out.append((lab, put(lambda o, ctx: (lambda x: 4 * x)), "different"))
        elif v is None:
            pass
        elif isinstance(v, list):
            for i, e in enumerate(v):
                walk(lambda root, get=get, i=i: (at(get, root), i), e, lab + "[%d]" % i, owner)
            if v and isinstance(v[0], Sp):
                if not lab.startswith(".axes") or len(v) < 1:
                    pass
            else:
                out.append((lab + "-longer", put(lambda o, ctx: o + o[:1]), "different"))
                out.append((lab + "-shorter", put(lambda o, ctx: o[:-1]), "different"))
                out.append((lab + "-none", put(lambda o, ctx: None), "different"))
        elif isinstance(v, dict):
            for k, e in v.items():
                walk(lambda root, get=get, k=k: (at(get, root), k), e, lab + "[%s]" % k, owner)
                out.append((lab + "-without-" + k, put(lambda o, ctx, k=k: {a: b for a, b in o.items() if a != k}), "different"))
                out.append((lab + "-renamed-" + k, put(lambda o, ctx, k=k: {(a + "2" if a == k else a): b for a, b in o.items()}), "different"))
        else:
            out.append((lab, put(lambda o, ctx: ctx.real("other", -1e9, 1e9)), "value"))

    for a, e in sp.a.items():
        walk(lambda root, a=a: (root.a, a), e, "." + a, sp.cls)
    return out


def at(get, root):
    c, k = get(root)
    return c[k]


def positions(v, ix=()):
    if isinstance(v, list):
        for i, e in enumerate(v):
            yield from positions(e, ix + (i,))
    else:
        yield ix


def change_at(v, ix, ctx):
    if not ix:
        if isinstance(v, str):
            return v + "x"
        return ctx.real("other", -1e9, 1e9)
    return [change_at(e, ix[1:], ctx) if i == ix[0] else e for i, e in enumerate(v)]


def build(ctx, v, module):
    if isinstance(v, Sp):
        return module(v.cls)(**{a: build(ctx, e, module) for a, e in v.a.items()})
    if isinstance(v, Arr):
        import numpy as np

        return np.array(v.v) if any(isinstance(e, str) for e in v.v) else ctx.arr(v.v)
    if isinstance(v, list):
        return [build(ctx, e, module) for e in v]
    if isinstance(v, dict):
        return {k: build(ctx, e, module) for k, e in v.items()}
    return v


def same(ctx, o, v, lab):
    """the object has the described attributes"""
    if isinstance(v, Sp):
        ctx.true(type(o).__name__ == v.cls, "%s is a %s" % (lab, type(o).__name__))
        for a, e in v.a.items():
            same(ctx, getattr(o, a), e, lab + "." + a)
    elif isinstance(v, Arr):
        sh = ()
        e = v.v
        while isinstance(e, list):
            sh, e = sh + (len(e),), e[0]
        ctx.true(o is not None and tuple(o.shape) == sh, "%s: shape %s" % (lab, getattr(o, "shape", None)))
        for ix in positions(v.v):
            e = v.v
            for i in ix:
                e = e[i]
            if isinstance(e, str):
                ctx.true(str(o[ix]) == e, "%s%s: %r" % (lab, ix, o[ix]))
            else:
                ctx.eq(o[ix], e, "%s%s" % (lab, list(ix)), tol=0)
    elif isinstance(v, list):
        ctx.true(type(o) is list and len(o) == len(v), "%s: %r" % (lab, o))
        for i, e in enumerate(v):
            same(ctx, o[i], e, "%s[%d]" % (lab, i))
    elif isinstance(v, dict):
        ctx.true(type(o) is dict and sorted(o) == sorted(v), "%s: entries %s" % (lab, o if o is None else sorted(o)))
        for k, e in v.items():
            same(ctx, o[k], e, "%s[%s]" % (lab, k))
    elif v is None:
        ctx.true(o is None, "%s: %r" % (lab, o))
    elif isinstance(v, (str, bool, int)) and lab.endswith("function"):
        ctx.true(o(3) == 7, lab)
    elif isinstance(v, (str, bool, int)):
        ctx.true(type(o) in (type(v), float) and o == v, "%s: %r" % (lab, o))
    elif callable(v):
        ctx.true(o is v, "%s: another function" % lab)
    else:
        ctx.eq(o, v, lab, tol=0)


def spoil(o, v):
    """change in place everything the object is made of"""
    if isinstance(v, Sp):
        for a, e in v.a.items():
            spoil(getattr(o, a), e)
        for a, e in v.a.items():
            if isinstance(e, str) and a != "function":
                setattr(o, a, e + "y")
            elif isinstance(e, bool):
                setattr(o, a, not e)
    elif isinstance(v, Arr):
        for ix in positions(v.v):
            o[ix] = "w" if any(isinstance(e, str) for e in v.v) else o[ix] * 0 + 7.25
    elif isinstance(v, list):
        for i, e in enumerate(v):
            spoil(o[i], e)
        o.append(o[0])
    elif isinstance(v, dict):
        for k, e in v.items():
            spoil(o[k], e)
        for k in list(o):
            o[k + "_old"] = o.pop(k)


def run(ctx, cfg):
    import importlib

    cls = lambda n: getattr(importlib.import_module("SciDataTool.Classes." + n), n)
    nm, way = cfg["obj"], cfg["way"]
    sp = specs(ctx, nm)
    o = build(ctx, sp, cls)
    if way == "self":
        same(ctx, o, sp, nm)
        p = build(ctx, specs(ctx, nm) if nm not in PY else sp, cls)
        ctx.true(o == o and o == p and not (o != p), "equal objects")
        ctx.true(o.compare(p) == [] and p.compare(o, is_add_value=True) == [], "no difference: %s" % o.compare(p))
        ctx.true(not (o == 3) and o != "a" and not (o == None), "other types")
        ctx.true(len(o.compare(3)) > 0, "difference with other types")
        other = build(ctx, specs(ctx, "Norm_ref" if nm == "Norm_indices" else "Norm_indices"), cls)
        ctx.true(not (o == other) and not (other == o) and len(o.compare(other)) > 0, "other class")
        return
    if way == "eq":
        lab, f, kind = changes(sp)[cfg["k"]]
        sq = specs(ctx, nm)
        for (a, e) in sp.a.items():
            if callable(e):
                sq.a[a] = e
        if nm == "DataTime_func":
            sq.a["normalizations"]["g"].a["function"] = sp.a["normalizations"]["g"].a["function"]
        f(sq, ctx)
        try:
            p = build(ctx, sq, cls)
        except Exception as e:
            if ctx._internal(e):
                raise
            # not a valid object of the class
            ctx.true(True, "not an object")
            return
        eq, ne, eq2 = o == p, o != p, p == o
        diff = o.compare(p)
        diff2 = o.compare(p, is_add_value=True)
        if kind == "value":
            # equal when the new number is the old one
            pair = old_new(sp, sq)
            want = True if pair is None else False if isinstance(pair[0], str) else not ctx.decide(pair[0] != pair[1])
        else:
            want = False
        ctx.true(bool(eq) == want, "%s: equality" % lab)
        ctx.true(bool(eq2) == want, "%s: equality the other way" % lab)
        ctx.true(bool(ne) != want, "%s: inequality" % lab)
        ctx.true((diff == []) == want and (diff2 == []) == want, "%s: comparison %s" % (lab, diff))
        if not want:
            attr = lab.split(".")[1].split("[")[0].split("-")[0]
            ctx.true(any(attr in e for e in diff) and any(attr in e for e in diff2), "%s: named differences %s" % (lab, diff))
            ctx.true(o.compare(p, ignore_list=diff) == [], "%s: ignored differences" % lab)
        return
    if way == "copy":
        p = o.copy()
    elif way == "dict0" and nm in PY:
        # a function cannot be written: the rest is kept
        d = o.as_dict()
        ctx.true(type(cls(sp.cls)(init_dict=d)).__name__ == sp.cls, "dictionary without function")
        return
    elif way.startswith("dict"):
        p = cls(sp.cls)(init_dict=o.as_dict(type_handle_ndarray=int(way[4])))
    elif way == "keep":
        p = cls(sp.cls)(init_dict=o.as_dict(keep_function=True))
    else:
        path = tempfile.mkdtemp(prefix="saved_")
        try:
            if way == "dir":
                o.save(path)
                f = os.path.join(path, sp.cls + ".json")
            elif way == "noext":
                o.save(os.path.join(path, "some.file"))
                f = os.path.join(path, "some.file.json")
            else:
                f = os.path.join(path, "a.json")
                o.save(f)
            ctx.true(os.listdir(path) == [os.path.basename(f)], "file %s" % os.listdir(path))
            if way in ("list", "named"):
                p = several(ctx, o, sp, way, path)
            elif way == "load":
                from SciDataTool.Functions.load import load

                p = load(f)
            else:
                p = cls(sp.cls)(init_str=f)
        finally:
            shutil.rmtree(path)
    same(ctx, o, sp, "original")
    same(ctx, p, sp, "result")
    ctx.true(o == p and p == o and not (o != p), "equal to the original")
    ctx.true(o.compare(p) == [], "no difference: %s" % o.compare(p))
    if way != "dict2":
        keep = specs(ctx, nm)
        if nm in PY:
            keep = sp
        a, b = (o, p) if cfg["who"] == "result" else (p, o)
        spoil(a, keep)
        same(ctx, b, keep, "after changing the other")


def several(ctx, o, sp, way, path):
    """objects saved among others, in a list or under names"""
    from SciDataTool.Functions.load import load_dict, load_list
    from SciDataTool.Functions.save import save_data

    f = os.path.join(path, "b.json")
    if way == "list":
        save_data([o, "text", {"k": o}, [3, o]], f)
        r = load_list(f)
        ctx.true(len(r) == 4 and r[1] == "text" and list(r[2]) == ["k"] and r[3][0] == 3, "list")
        objs = [r[0], r[2]["k"], r[3][1]]
    else:
        save_data({"one": o, "text": "t", "more": [o, 2.5]}, f)
        r = load_dict(f)
        ctx.true(sorted(r) == ["more", "one", "text"] and r["text"] == "t" and r["more"][1] == 2.5, "names")
        objs = [r["one"], r["more"][0]]
    for p in objs[1:]:
        same(ctx, p, sp, "one of several")
    return objs[0]


def old_new(a, b):
    """the number which differs between two descriptions"""
    if isinstance(a, Sp):
        return old_new(a.a, b.a)
    if isinstance(a, Arr):
        return old_new(a.v, b.v)
    if isinstance(a, dict):
        for k in a:
            r = old_new(a[k], b[k])
            if r is not None:
                return r
        return None
    if isinstance(a, list):
        for x, y in zip(a, b):
            r = old_new(x, y)
            if r is not None:
                return r
        return None
    if isinstance(a, (str, bool, int)) or a is None or (callable(a) and not hasattr(a, "re")):
        return (a, b) if isinstance(a, str) and a != b else None
    if isinstance(a, (float, complex)) and isinstance(b, (float, complex)):
        return (a, b) if a != b else None
    return None if a is b or repr_eq(a, b) else (a, b)


def repr_eq(a, b):
    """same number by construction (same unknown), not by value"""
    ka, kb = getattr(a, "re", None), getattr(b, "re", None)
    if ka is None:
        return False
    return ka == kb and getattr(a, "im", None) == getattr(b, "im", None)
