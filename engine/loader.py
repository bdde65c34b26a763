"""
Loads the package under /repo afresh for symbolic execution: the real source is compiled on every run and executed with
numpy / scipy.sparse replaced by the symbolic stand-ins.  No source is copied or cached.
"""
import ast
import builtins
import os
import sys
import types
import math
import re
import time
import numpy as np
from . import ring as R
from . import symnp as S
from . import symsp as P
from .ring import E, B, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "exact_diag")
DIRS = (PKG, os.path.join(REPO, "cluster"))

_FMT = re.compile(r"%(?:\([^)]*\))?[#0\- +]*(?:\*|\d+)?(?:\.(?:\*|\d+))?([diouxXeEfFgGcrsa%])")


def safe_format(fmt, args):
    """'...' % args where args may be symbolic (messages are not part of any property)"""
    try:
        if not (isinstance(args, tuple) and any(isinstance(a, (E, B, np.ndarray)) for a in args)) \
                and not isinstance(args, (E, B, np.ndarray)):
            return fmt % args
    except Unsupported:
        pass
    return _FMT.sub("<sym>", fmt)


class _Mod(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(func=ast.Name(id="__sym_format__", ctx=ast.Load()),
                                              args=[node.left, node.right], keywords=[]), node)
        return node

    def _wrap(self, e):
        if isinstance(e, (ast.Slice, ast.Constant, ast.Starred)):
            return e
        if isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant):
            return e
        if isinstance(e, ast.Tuple):
            e.elts = [self._wrap(x) for x in e.elts]
            return e
        return ast.copy_location(ast.Call(func=ast.Name(id="__sym_index__", ctx=ast.Load()), args=[e], keywords=[]), e)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        node.slice = self._wrap(node.slice)
        return node


def sym_index(i):
    """index value with symbolic entries resolved (forks), so that ordinary arrays and lists accept it"""
    if isinstance(i, (E, B, S.SArr)) or (isinstance(i, list) and S.has_sym(i)):
        return S.conc_index(i)
    return i


class MathProxy:
    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f
        tab = {"exp": R.exp, "cos": R.cos, "sin": R.sin, "sqrt": R.sqrt, "log": R.log,
               "floor": lambda x: R.concretize(R.floor(x)), "ceil": lambda x: R.concretize(S.s_ceil(x)),
               "fabs": R.absolute, "tan": S.s_tan, "atan": S.s_arctan, "atan2": S.s_arctan2, "hypot": S.s_hypot,
               "isnan": S.s_isnan, "isinf": S.s_isinf, "pow": R.power, "tanh": S.s_tanh, "cosh": S.s_cosh,
               "sinh": S.s_sinh}

        def g(*a):
            a = [S.unwrap0(x) for x in a]
            if any(isinstance(x, E) for x in a):
                if n not in tab:
                    raise Unsupported("math." + n)
                return tab[n](*a)
            return f(*a)
        return g


class Simple:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Special:
    def __getattr__(self, n):
        import scipy.special

        def g(*a, **kw):
            if any(S.has_sym(x) for x in a):
                a = [P.deconcrete(x) if isinstance(x, S.SArr) else x for x in a]
                if any(isinstance(x, E) for x in a):
                    raise Unsupported("scipy.special." + n)
            return getattr(scipy.special, n)(*a, **kw)
        return g


class Optimize:
    def __getattr__(self, n):
        def g(f, *a, **kw):
            h = P.HOOKS.get("root")
            args = kw.get("args", ())
            fun = (lambda x: f(x, *(args if isinstance(args, tuple) else (args,))))
            if h is not None and n == "root_scalar":
                return Simple(root=h(fun, False), converged=True)
            if h is not None and n in ("brentq", "brenth", "bisect", "ridder", "toms748", "newton"):
                return h(fun, False)
            if h is not None and n == "fsolve":
                return S.arr([h(fun, True)])
            if h is not None and n == "root":
                return Simple(x=S.arr([h(fun, True)]), success=True)
            if h is None and not S.has_sym(list(a)) and not any(S.has_sym(v) for v in kw.values()):
                import scipy.optimize

                def real(x):
                    v = S.unwrap0(fun(x))
                    if isinstance(v, S.SArr):
                        v = P.deconcrete(v)
                    if S.has_sym(v):
                        raise Unsupported("scipy.optimize on a symbolic function")
                    return v
                return getattr(scipy.optimize, n)(real, *a, **{k: v for k, v in kw.items() if k != "args"})
            raise Unsupported("scipy.optimize." + n)
        return g


class Files:
    """files in memory: what is pickled into one is what is read back, as a separate copy"""

    def __init__(self):
        self.data = {}
        self.order = None

    def open(self, name, mode="r", *a, **kw):
        if "r" in mode and str(name) not in self.data:
            raise FileNotFoundError(name)
        if "w" in mode:
            self.data[str(name)] = []
        return File(self, str(name), mode)

    @staticmethod
    def dumps(obj, *a, **kw):
        return Pickled(snapshot(obj, {}))

    @staticmethod
    def loads(x, *a, **kw):
        return snapshot(x.obj, {})

    def dump(self, obj, f, *a, **kw):
        f.write(self.dumps(obj))

    def load(self, f, *a, **kw):
        return self.loads(f.read())


    def glob(self, pattern, *a, **kw):
        """matching names in any order (a file system lists them in none in particular)"""
        import fnmatch
        got = sorted(n for n in self.data if fnmatch.fnmatchcase(n, pattern))
        return got if self.order is None else self.order(got)


class OsPath:
    def __init__(self, fs):
        self.isfile = self.exists = lambda n: str(n) in fs.data

    def __getattr__(self, n):
        return getattr(os.path, n)


class OsProxy:
    def __init__(self, fs):
        self.path = OsPath(fs)

    def __getattr__(self, n):
        if n in ("remove", "unlink", "rename", "replace", "rmdir", "mkdir", "makedirs", "listdir", "scandir", "walk", "system"):
            raise Unsupported("os." + n)
        return getattr(os, n)


class Pickled:
    def __init__(self, obj):
        self.obj = obj


class File:
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode, self.pos = fs, name, mode, 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def write(self, x):
        if "w" not in self.mode and "a" not in self.mode and "+" not in self.mode:
            raise OSError("not writable")
        if "b" not in self.mode:
            raise TypeError("write() argument must be str, not bytes")
        self.fs.data[self.name].append(x)

    def read(self, *a):
        if "b" not in self.mode:
            raise UnicodeDecodeError("utf-8", b"", 0, 1, "invalid start byte")
        d = self.fs.data[self.name]
        if self.pos >= len(d):
            raise EOFError("Ran out of input")
        self.pos += 1
        return d[self.pos - 1]


def snapshot(x, memo):
    """what unpickling gives: a copy sharing nothing mutable with the original"""
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, (E, B, int, float, complex, str, bytes, type(None), np.generic, type)):
        return x
    if isinstance(x, P.SpM) or type(x).__module__.startswith("scipy.sparse"):
        r = x.copy()
    elif isinstance(x, np.ndarray):
        r = x.copy()
        if isinstance(x, S.SArr) and hasattr(x, "_kind"):
            r._kind = x._kind
    elif isinstance(x, dict):
        r = {}
        memo[id(x)] = r
        for k, v in x.items():
            r[k] = snapshot(v, memo)
    elif isinstance(x, (list, tuple, set)):
        r = type(x)(snapshot(v, memo) for v in x)
    elif callable(x):
        raise AttributeError("Can't pickle local object")
    elif hasattr(x, "__dict__"):
        r = object.__new__(type(x))
        memo[id(x)] = r
        st = x.__getstate__() if "__getstate__" in {k for c in type(x).__mro__[:-1] for k in vars(c)} else x.__dict__
        st = snapshot(st, memo)
        if hasattr(r, "__setstate__"):
            r.__setstate__(st)
        else:
            r.__dict__.update(st)
    else:
        raise Unsupported("pickling of " + type(x).__name__)
    memo[id(x)] = r
    return r


class World:
    """one symbolic copy of the package"""

    def __init__(self):
        self.np = S.NP()
        self.sp = P.SP()
        self.mods = {}
        self.files = Files()
        self.scipy = Simple(sparse=self.sp, linalg=P.SCLA(), special=Special(), optimize=Optimize(), io=Simple(
            savemat=self._noio, loadmat=self._noio))
        self.ext = {"numpy": self.np, "scipy": self.scipy, "scipy.sparse": self.sp,
                    "scipy.sparse.linalg": self.sp.linalg, "scipy.linalg": self.scipy.linalg,
                    "scipy.special": self.scipy.special, "scipy.optimize": self.scipy.optimize,
                    "scipy.io": self.scipy.io, "math": MathProxy(), "numpy.linalg": self.np.linalg,
                    "pickle": Simple(dump=self.files.dump, load=self.files.load, dumps=self.files.dumps, loads=self.files.loads,
                                     HIGHEST_PROTOCOL=5, DEFAULT_PROTOCOL=4),
                    "glob": Simple(glob=self.files.glob, iglob=lambda *a, **kw: iter(self.files.glob(*a, **kw))),
                    "os": OsProxy(self.files)}
        self.ext["os.path"] = self.ext["os"].path
        b = dict(vars(builtins))
        b.update({"float": S.SFloat, "int": S.SInt, "complex": S.SComplex, "print": lambda *a, **kw: None,
                  "__import__": self._import, "__sym_format__": safe_format, "__sym_index__": sym_index, "abs": self._abs, "round": self._round,
                  "sum": self._sum, "max": self._max, "min": self._min, "sorted": self._sorted, "pow": R.power
                  if False else pow, "all": self._all, "any": self._any, "bool": bool, "open": self.files.open})
        self.builtins = b

    @staticmethod
    def _noio(*a, **kw):
        raise Unsupported("file access")

    @staticmethod
    def _abs(x):
        return abs(x)

    @staticmethod
    def _round(x, nd=None):
        x = S.unwrap0(x)
        if isinstance(x, (E, S.SArr)):
            r = S.np_round(x, nd or 0)
            if nd is None and isinstance(r, E):
                return R.concretize(r)
            return r
        return builtins.round(x, nd) if nd is not None else builtins.round(x)

    @staticmethod
    def _sum(it, start=0):
        r = start
        for x in it:
            r = r + x
        return r

    @staticmethod
    def _ext(better, args, kw):
        key = kw.get("key")
        it = list(args[0]) if len(args) == 1 else list(args)
        if not it:
            if "default" in kw:
                return kw["default"]
            raise ValueError("max() arg is an empty sequence")
        best = it[0]
        kb = key(best) if key else best
        for x in it[1:]:
            kx = key(x) if key else x
            if bool(better(kx, kb)):
                best, kb = x, kx
        return best

    @classmethod
    def _max(cls, *a, **kw):
        return cls._ext(lambda p, q: p > q, a, kw)

    @classmethod
    def _min(cls, *a, **kw):
        return cls._ext(lambda p, q: p < q, a, kw)

    @staticmethod
    def _sorted(it, key=None, reverse=False):
        return builtins.sorted(it, key=key, reverse=reverse)

    @staticmethod
    def _all(it):
        for x in it:
            if not x:
                return False
        return True

    @staticmethod
    def _any(it):
        for x in it:
            if x:
                return True
        return False

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            name = ("exact_diag." + name) if name else "exact_diag"
        if name == "exact_diag" or name.startswith("exact_diag."):
            if name == "exact_diag":
                pk = Simple()
                for f in fromlist or ():
                    setattr(pk, f, self.module("exact_diag." + f))
                return pk
            m = self.module(name)
            if fromlist:
                return m
            return Simple(**{name.split(".")[1]: m})
        if name in self.ext:
            if not fromlist and "." in name:
                return self.ext[name.split(".")[0]]
            return self.ext[name]
        if name.split(".")[0] == "matplotlib":
            raise ImportError("matplotlib is not part of the symbolic world")
        return builtins.__import__(name, globals, locals, fromlist, level)

    def module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = os.path.join(REPO, *name.split(".")) + ".py"
        if not os.path.exists(path):
            path = os.path.join(REPO, *name.split("."), "__init__.py")
        with open(path) as f:
            src = f.read()
        tree = _Mod().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec")
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        exec(code, m.__dict__)
        return m


# ----------------------------------------------------------------------------------------------
# which functions of the repository were executed
# ----------------------------------------------------------------------------------------------
class Trace:
    TOOL = 4

    def __init__(self):
        self.seen = set()

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "verif")
        except ValueError:
            pass

        def cb(code, off):
            if code.co_filename.startswith(DIRS):
                self.seen.add("%s:%s" % (os.path.basename(code.co_filename), code.co_qualname))
            return mon.DISABLE
        mon.register_callback(self.TOOL, mon.events.PY_START, cb)
        mon.set_events(self.TOOL, mon.events.PY_START)
        mon.restart_events()

    def stop(self):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        try:
            mon.free_tool_id(self.TOOL)
        except ValueError:
            pass
