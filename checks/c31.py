"""C31 computations leave their inputs unchanged and can be repeated"""
import contextlib
import functools
import importlib
import io
import types
import numpy as np
import scipy.sparse as rsp
from engine import ring as R
from engine import symnp as S
from engine import symsp as P
from engine.harness import AssumeFailed
from .common import *

BOUNDS = ("every public function called by up to three instances (chosen to differ in their parameters) of each harness of the other properties (thorough: 12), each with its own symbolic "
          "inputs and bounds; up to 40 calls of each harness are repeated after all of them")
ASSUMPTIONS = ["functions whose purpose is to change their object (permute_sites, load) or a file are exempt",
               "entries below 1e-6 may be cleaned up (projectors drop entries below 1e-10)"]

MODULES = ("ed_base", "ed_fermions", "ed_spins", "ed_symmetry", "ed_geometry", "ed_nlce", "fermi_gas", "greens_fns")
EXEMPT = {"permute_sites", "load", "save"}
ONCE = {"diagH"}                        # the gauge of an iterative solver is free
SKIP = {("c19", "sparse")}
CONTROL = (R.PathAbort, R.Unsupported, AssumeFailed, MemoryError, TimeoutError)


class Quiet:
    """a harness context whose own obligations are not judged here"""

    def __init__(self, ctx):
        self._ctx = ctx

    def __getattr__(self, n):
        return getattr(self._ctx, n)

    def eq(self, *a, **kw):
        pass

    def true(self, *a, **kw):
        pass

    def raises(self, f, *a, **kw):
        try:
            f()
        except CONTROL:
            raise
        except Exception:
            pass


def package(x):
    return type(x).__module__.startswith("exact_diag")


def freeze(x, memo=None):
    """a copy of the values in x; anything that holds no values is left out"""
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if x is None or isinstance(x, (R.E, R.B, int, float, complex, str, bool, np.generic)):
        return x
    if isinstance(x, P.SpM) or rsp.issparse(x):
        return ("matrix", np.array(x.toarray()))
    if isinstance(x, np.ndarray):
        return ("array", np.array(x))
    if isinstance(x, (list, tuple)):
        return ("list", [freeze(v, memo) for v in x])
    if isinstance(x, dict):
        return ("dict", {k: freeze(v, memo) for k, v in x.items()})
    if package(x) and hasattr(x, "__dict__") and not isinstance(x, (type, types.FunctionType)):
        memo[id(x)] = ("seen",)
        memo[id(x)] = ("object", {k: freeze(v, memo) for k, v in vars(x).items()})
        return memo[id(x)]
    return ("opaque",)


def scalar_same(a, b):
    if a is b:
        return True
    if isinstance(a, (R.E, R.B)) or isinstance(b, (R.E, R.B)):
        return False
    try:
        return bool(a == b) or bool(a != a and b != b)
    except Exception:
        return False


def same(ctx, a, b, what, depth=0):
    """obligations that two frozen values are equal; True if they are identical already"""
    if isinstance(a, tuple) != isinstance(b, tuple):
        ctx.true(False, what)
        return False
    if not isinstance(a, tuple):
        if scalar_same(a, b):
            return True
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None or isinstance(a, R.B) or isinstance(b, R.B):
            ctx.true(False, what)
        else:
            ctx.eq(b, a, what)
        return False
    if a[0] != b[0]:
        ctx.true(False, what)
        return False
    if a[0] in ("matrix", "array"):
        if a[1].shape != b[1].shape:
            ctx.true(False, what + " (shape)")
            return False
        x, y = a[1].reshape(-1), b[1].reshape(-1)
        if x.dtype != object and y.dtype != object:
            if x.dtype.kind in "fciub" and y.dtype.kind in "fciub":
                if np.array_equal(x, y, equal_nan=x.dtype.kind in "fc" and y.dtype.kind in "fc"):
                    return True
                k = np.nonzero(~((x == y) | ((x != x) & (y != y))))[0]
            else:
                k = [i for i in range(len(x)) if x[i] != y[i]]
                if not k:
                    return True
                ctx.true(False, what)
                return False
        else:
            k = [i for i in range(len(x)) if not scalar_same(x[i], y[i])]
        for i in k:
            if isinstance(x[i], np.ndarray) or isinstance(y[i], np.ndarray) or x[i] is None:
                same(ctx, freeze(x[i]), freeze(y[i]), what)
            else:
                ctx.eq(y[i], x[i], what)
        return len(k) == 0
    if a[0] == "list":
        if len(a[1]) != len(b[1]):
            ctx.true(False, what + " (length)")
            return False
        return all([same(ctx, p, q, what, depth + 1) for p, q in zip(a[1], b[1])])
    if a[0] == "object":                # an object may remember what it computed: new or private attributes are not judged
        if set(a[1]) - set(b[1]):
            ctx.true(False, what + " (attributes)")
            return False
        return all([same(ctx, a[1][k], b[1][k], what, depth + 1) for k in a[1] if not k.startswith("_")])
    if a[0] == "dict":
        if set(a[1]) != set(b[1]):
            ctx.true(False, what + " (attributes)")
            return False
        return all([same(ctx, a[1][k], b[1][k], what, depth + 1) for k in a[1]])
    return True


class Silent:
    def eq(self, *a):
        pass

    true = eq


def erased(x, born, memo):
    """x with the package objects in it built anew, so that nothing they picked up in earlier calls is left"""
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(erased(v, born, memo) for v in x)
    if isinstance(x, dict) and type(x) is dict:
        return {k: erased(v, born, memo) for k, v in x.items()}
    if package(x) and hasattr(x, "__dict__") and not isinstance(x, (type, types.FunctionType)):
        keep = None
        if id(x) in born:
            _, keep, a, kw, frozen = born[id(x)]
            if same(Silent(), frozen, freeze(list(a) + list(kw.values())), ""):
                y = type(x)(*erased(a, born, memo), **erased(kw, born, memo))
                if same(Silent(), freeze(y), freeze(x), ""):
                    memo[id(x)] = y
                    return y
        y = memo[id(x)] = object.__new__(type(x))
        for k, v in vars(x).items():
            if keep is None or k in keep:
                y.__dict__[k] = erased(v, born, memo)
        return y
    return x


class Watch:
    def __init__(self, ctx):
        self.ctx, self.depth, self.calls, self.n, self.born, self.state = ctx, 0, [], 0, {}, []

    def wrap(self, f, name, init):
        @functools.wraps(f)
        def g(*a, **kw):
            if self.depth:
                before = freeze(list(a[1:]) + list(kw.values())) if init else None
                r = f(*a, **kw)
                if init:
                    self.born[id(a[0])] = (a[0], set(vars(a[0])), a[1:], kw, before)
                return r
            self.depth += 1
            try:
                args = (a[1:] if init else a, kw)
                before = freeze(list(args[0]) + list(kw.values()))
                self.n += 1
                try:
                    r = f(*a, **kw)
                except CONTROL:
                    raise
                except Exception:
                    same(self.ctx, before, freeze(list(args[0]) + list(kw.values())), "%s leaves its arguments unchanged when it fails" % name)
                    raise
                same(self.ctx, before, freeze(list(args[0]) + list(kw.values())), "%s leaves its arguments unchanged" % name)
                if init:
                    self.born[id(a[0])] = (a[0], set(vars(a[0])), a[1:], kw, before)
                if f.__name__ not in ONCE and len(self.calls) < 40:
                    if init:
                        self.calls.append((type(a[0]), name, a[1:], kw, before, freeze(a[0])))
                    else:
                        self.calls.append((f, name, a, kw, before, freeze(r)))
                return r
            finally:
                self.depth -= 1
        return g

    def again(self):
        self.depth += 1
        now = [c for c in self.calls if same(Silent(), c[4], freeze(list(c[2]) + list(c[3].values())), "")]    # the rest was changed by the harness itself
        for f, name, a, kw, before, r in now:
            same(self.ctx, r, freeze(f(*a, **kw)), "%s gives the same result when repeated" % name)
        for f, name, a, kw, before, r in now:
            self.forget()
            memo = {}
            a2, kw2 = erased(tuple(a), self.born, memo), erased(dict(kw), self.born, memo)
            same(self.ctx, freeze(f(*a2, **kw2)), r, "%s does not depend on earlier calls" % name)

    def remember(self):
        """module-level containers and default arguments, as they are before the first call"""
        fns = []
        for name in MODULES:
            m = self.ctx.mod(name)
            for k, o in list(vars(m).items()):
                if not k.startswith("__") and type(o) in (dict, list, set):
                    self.state.append((o, type(o)(o)))
                elif isinstance(o, type) and o.__module__ == m.__name__:
                    for q, d in list(vars(o).items()):
                        if type(d) in (dict, list, set) and not q.startswith("__"):
                            self.state.append((d, type(d)(d)))
                        fns.append(getattr(d, "__func__", d))
                elif getattr(o, "__module__", None) == m.__name__:
                    fns.append(o)
        for f in fns:
            if isinstance(f, types.FunctionType):
                for d in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values()):
                    if type(d) in (dict, list, set):
                        self.state.append((d, type(d)(d)))
            elif hasattr(f, "cache_clear"):
                self.state.append((f, None))

    def forget(self):
        for o, c in self.state:
            if c is None:
                o.cache_clear()
            elif isinstance(o, list):
                o[:] = c
            else:
                o.clear()
                o.update(c)

    @contextlib.contextmanager
    def installed(self):
        old = []
        self.remember()
        try:
            for name in MODULES:
                m = self.ctx.mod(name)
                for k, o in list(vars(m).items()):
                    if isinstance(o, types.FunctionType) and o.__module__ == m.__name__ and not k.startswith("__"):
                        old.append((m, k, o))
                        setattr(m, k, self.wrap(o, k, False))
                    elif isinstance(o, type) and o.__module__ == m.__name__:
                        for q, d in list(vars(o).items()):
                            raw = getattr(d, "__func__", d)
                            if not isinstance(raw, types.FunctionType) or q in EXEMPT or (q.startswith("__") and q not in ("__init__", "__eq__", "__ne__")):
                                continue
                            old.append((o, q, d))
                            w = self.wrap(raw, "%s.%s" % (k, q), q == "__init__")
                            setattr(o, q, type(d)(w) if isinstance(d, (staticmethod, classmethod)) else w)
            yield
        finally:
            for o, k, d in reversed(old):
                setattr(o, k, d)


def pure(ctx, check, name, case):
    fn = getattr(importlib.import_module("checks." + check), name)
    w = Watch(ctx)
    with contextlib.redirect_stdout(io.StringIO()), w.installed():
        try:
            fn(Quiet(ctx), **case)
        except CONTROL:
            raise
        except Exception:
            pass                        # judged by the property of the harness
        ctx.true(True, "%d calls" % w.n)
        w.again()


FEW = {("c02", "restricted"): 1, ("c20", "reduced"): 1, ("c20", "expansion_finite"): 1, ("c20", "subclusters"): 1, ("c20", "lattice_subclusters"): 1, ("c03", "uniform"): 2}


def tasks(tier):
    """instances of each harness that between them take as many values of its parameters as possible"""
    T = []
    for i in list(range(1, 28)):
        c = "c%02d" % i
        m = importlib.import_module("checks." + c)
        by = {}
        for t in m.tasks("quick"):
            if not (c == "c05" and t[1].get("n", 0) * t[1].get("ns", 1) > 4):
                by.setdefault(t[0].__name__, []).append(t)
        for n, ts in by.items():
            if (c, n) in SKIP:
                continue
            most = 12 if tier == "thorough" else FEW.get((c, n), 3)
            seen, left = set(), list(ts)
            for _ in range(most):
                vals = lambda t: set((k, repr(v)) for k, v in t[1].items()) - seen
                t = max(left, key=lambda t: len(vals(t))) if seen else left[0]
                T.append((pure, dict(check=c, name=n, case=t[1]), t[2] if len(t) > 2 else 200))
                seen |= vals(t) | {("", "")}
                left.remove(t)
                if not left:
                    break
    return T
