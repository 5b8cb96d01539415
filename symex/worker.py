"""Symbolic exploration of one configuration of one harness."""
import ast
import importlib.machinery
import importlib.util
import os
import random
import signal
import sys
import time
import traceback

from . import engine as E
from . import shims
from .ctx import SymCtx, CheckFailed

_installed = False
REPO = os.environ.get("SCIDT_REPO", "/repo")


class _Indices(ast.NodeTransformer):
    """a[i] -> a[index(i)]: concrete arrays may be indexed by symbolic masks"""

    def visit_Subscript(self, node):
        self.generic_visit(node)
        wrap = lambda e: e if isinstance(e, (ast.Slice, ast.Constant, ast.Starred)) else ast.copy_location(
            ast.Call(func=ast.copy_location(ast.Name(id="__sym_index__", ctx=ast.Load()), e), args=[e], keywords=[]), e)
        if isinstance(node.slice, ast.Tuple):
            node.slice.elts = [wrap(e) for e in node.slice.elts]
        else:
            node.slice = wrap(node.slice)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = _Indices().visit(ast.parse(self.get_data(path), path))
        return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__sym_index__"] = shims.loose_index
        super().exec_module(module)


class _Finder:
    """loads the modules of the code under test with the above"""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if not name.startswith("SciDataTool."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def warm():
    """import the code under test and patch its namespaces."""
    global _installed
    if _installed:
        return
    import importlib
    import scipy.interpolate, scipy.integrate, scipy.fft  # noqa: before patching
    sys.meta_path.insert(0, _Finder)
    import SciDataTool

    root = os.path.dirname(os.path.abspath(SciDataTool.__file__))
    if not root.startswith(REPO):
        raise SystemExit("SciDataTool is imported from %s, not %s" % (root, REPO))
    for sub in ("Classes", "Functions", "Methods"):
        for d, _, fs in os.walk(os.path.join(root, sub)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), os.path.dirname(root))
                    mod = rel[:-3].replace(os.sep, ".")
                    if mod.endswith(".__init__"):
                        mod = mod[: -len(".__init__")]
                    try:
                        importlib.import_module(mod)
                    except ImportError:
                        pass  # GUI / pyleecan only
    shims.install()
    _installed = True


class Sink:
    def __init__(self, deadline):
        self.obl = 0
        self.dis = 0
        self.cand = []
        self.undec = []
        self.labels = {}
        self.deadline = deadline
        self.sat_labels = set()

    def _budget(self):
        return max(1000, min(20000, int(1000 * (self.deadline - time.time()))))

    def oblige(self, label, cond):
        self.obl += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        r, env = E.decide_query(E.EX.pc + [E.c_not(cond)], timeout_ms=self._budget())
        self._verdict(label, r, env)

    def oblige_small(self, label, diffs, tol):
        """every diff is within tol of zero."""
        self.obl += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        t = E.Fr(tol)

        def neg(t):
            cs = []
            for d in diffs:
                cs.append(E.c_cmp("lt", E.p_add(E.p_const(t), E.p_neg(d))))
                cs.append(E.c_cmp("lt", E.p_add(E.p_const(t), d)))
            return E.c_or(cs)

        bad = neg(t)
        if bad.op == "const" and not bad.a:
            # interval arithmetic already excludes it; let the solver confirm
            # on the raw inequalities
            cs = []
            for d in diffs:
                if d and not E.p_isconst(d):
                    cs.append(E.Cond("lt", E.p_add(E.p_const(t), E.p_neg(d))))
                    cs.append(E.Cond("lt", E.p_add(E.p_const(t), d)))
            size = sum(len(d) for d in diffs)
            if size > 200 and len(cs) > 2:
                # dense systems: one query per inequality keeps the tableau small
                for c in cs:
                    r, env = E.decide_query(E.EX.pc + [c], timeout_ms=self._budget())
                    if r != "unsat":
                        break
                return self._verdict(label, r, env)
            bad = E.c_or(cs) if cs else E.FALSE
        r, env = E.decide_query(E.EX.pc + [bad], timeout_ms=self._budget())
        if r == "sat" and label not in self.sat_labels:
            # prefer a model that violates by a wide margin
            for k in (10**9, 10**6, 10**3):
                r2, env2 = E.decide_query(
                    E.EX.pc + [neg(t * k)], timeout_ms=min(5000, self._budget())
                )
                if r2 == "sat":
                    self.cand.append((label, env2))
                    break
        self._verdict(label, r, env)

    def _verdict(self, label, r, env):
        if r == "unsat":
            self.dis += 1
        elif r == "sat":
            self.sat_labels.add(label)
            if sum(1 for l, _ in self.cand if l == label) < 4:
                self.cand.append((label, env))
        else:
            self.undec.append("solver undecided: " + label)
            if env is not None and len(self.cand) < 8:
                self.cand.append((label, env))


def env_json(env):
    return {k: "%d/%d" % (v.numerator, v.denominator) for k, v in env.items()}


def _alarm(*a):
    raise TimeoutError("configuration time limit")


def run_config(run, cfg, limits):
    """-> result dict (picklable)"""
    warm()
    t0 = time.time()
    E.reset_table()
    E.STATS.__init__()
    shims.clear_tokens()
    budget = limits.get("config_s", 120)
    deadline = t0 + budget
    ex = E.Explorer(max_paths=limits.get("max_paths", 300), deadline=deadline)
    E.set_explorer(ex)
    sink = Sink(deadline)
    rng = random.Random(limits.get("seed", 1))
    funcs = set()
    res = {
        "cfg": cfg,
        "witness": [],
        "probes": [],
        "errors": [],
        "infeasible": 0,
    }
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, budget + 30)
    first = True
    completed = 0
    try:
        while ex.start():
            ctx = SymCtx(E, shims, sink)
            prof = None
            if first:

                def prof(frame, event, arg):
                    if event == "call":
                        c = frame.f_code
                        if c.co_filename.startswith(REPO):
                            funcs.add(
                                c.co_filename[len(REPO) + 1 :] + ":" + c.co_name
                            )

                sys.setprofile(prof)
            first = False
            try:
                run(ctx, cfg)
                completed += 1
                # witnesses: concrete assignments of this path, with the outputs
                # the symbolic run predicts, for replay on the unpatched code
                if len(res["witness"]) < limits.get("witnesses", 2):
                    w = witness(ex, ctx, rng)
                    if w:
                        res["witness"].append(w)
            except E.Infeasible:
                res["infeasible"] += 1
            except CheckFailed:
                completed += 1
            except Exception as e:
                # the code under test raised, or the encoding does not cover it:
                # the concrete replay tells which
                sys.setprofile(None)
                tb = traceback.format_exc(limit=-4)
                msg = "%s: %s" % (type(e).__name__, e)
                if len(res["errors"]) < 20:
                    res["errors"].append([msg, tb])
                if len(res["probes"]) < 12:
                    res["probes"] += [
                        [msg, env_json(x)] for x in path_envs(ex, rng, 2)
                    ]
                if isinstance(e, TimeoutError):
                    break
            finally:
                sys.setprofile(None)
            if time.time() > deadline:
                if ex.work:
                    ex.unexplored += len(ex.work)
                break
    except TimeoutError:
        res["errors"].append(["TimeoutError: configuration time limit", ""])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    # after a failure, also try a few arbitrary assignments
    if res["errors"] or sink.undec or ex.unexplored:
        for _ in range(3):
            res["probes"].append(["sample", env_json(E.random_env(rng))])
    res.update(
        paths=E.STATS.paths,
        completed=completed,
        unexplored=ex.unexplored,
        obligations=sink.obl,
        discharged=sink.dis,
        undecided=sink.undec,
        candidates=[[l, env_json(e)] for l, e in sink.cand],
        labels=sink.labels,
        functions=sorted(funcs),
        stats=E.STATS.as_dict(),
        nvars=len(E.TAB.vars),
        wall=time.time() - t0,
    )
    return res


def path_envs(ex, rng, n):
    """assignments that follow the current path, away from its boundary."""
    out = []
    for _ in range(20):
        env = E.random_env(rng)
        if E.env_holds(ex.pc, env):
            out.append(env)
            if len(out) >= n:
                return out
    used = set()
    for c in ex.pc:
        for p in c.polys():
            used |= vars_of(p)
    for m in (E.Fr(1, 100), E.Fr(1, 10**5), E.Fr(1, 10**8), E.ZERO):
        pc = [tighten(c, m) for c in ex.pc] if m else list(ex.pc)
        r, env = E.decide_query(pc, timeout_ms=3000)
        if r == "sat" and env is not None:
            for _ in range(n):
                e2 = E.random_env(rng)
                e2.update({k: v for k, v in env.items() if k in used})
                out.append(e2)
            break
    return out


def vars_of(p):
    out = set()
    for i in E.p_atoms(p):
        a = E.TAB.atoms[i]
        if a.kind == "var":
            out.add(a.name)
        else:
            for x in a.args:
                if isinstance(x, dict):
                    out |= vars_of(x)
                elif isinstance(x, E.Cond):
                    for q in x.polys():
                        out |= vars_of(q)
                elif isinstance(x, int):
                    out |= vars_of(E.atom_poly(x))
    return out


def tighten(c, m):
    if c.op in ("lt", "le"):
        return E.Cond("le", E.p_add(c.a, E.p_const(m)))
    if c.op == "and":
        return E.Cond("and", tuple(tighten(x, m) for x in c.a))
    if c.op == "or":
        return E.Cond("or", tuple(tighten(x, m) for x in c.a))
    return c


def witness(ex, ctx, rng):
    envs = path_envs(ex, rng, 1)
    if not envs:
        return None
    env = envs[0]
    # the concrete run uses floats
    fenv = {k: E.Fr(float(v)) for k, v in env.items()}
    if not E.env_holds(ex.pc, fenv):
        return None
    memo = {}
    outs = []
    try:
        for o in ctx.outs:
            row = []
            for x in o:
                if isinstance(x, E.S):
                    v = x.evalf(fenv, memo)
                    row.append([v.real, v.imag] if isinstance(v, complex) else v)
                elif x is None:
                    row.append(None)
                elif isinstance(x, complex):
                    row.append([x.real, x.imag])
                elif isinstance(x, E.SymBool):
                    row.append(None)
                else:
                    try:
                        row.append(float(x))
                    except Exception:
                        row.append(str(x))
            outs.append(row)
    except (ZeroDivisionError, ValueError, OverflowError):
        return None
    return {"env": env_json(fenv), "outs": outs}
