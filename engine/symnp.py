"""
numpy for symbolic scalars: SArr (object ndarray subclass) and the proxy module handed to the executed code.
Everything that is concrete is computed by the real numpy.
"""
import functools
import math
import types
import numpy as np
from . import ring as R
from .ring import E, B, Unsupported

_float, _int, _complex, _bool = float, int, complex, bool


# ----------------------------------------------------------------------------------------------
# builtin type stand-ins (float / int / complex / bool as seen by executed code)
# ----------------------------------------------------------------------------------------------
class _MF(type):
    def __instancecheck__(cls, x):
        if isinstance(x, E):
            return cls.accepts(x)
        return isinstance(x, cls.real_type)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real_type) or type.__subclasscheck__(cls, c)

    def __eq__(cls, o):
        return o is cls or o is cls.real_type

    def __hash__(cls):
        return hash(cls.real_type)

    def __getattr__(cls, n):
        return getattr(cls.real_type, n)


class SFloat(metaclass=_MF):
    real_type = _float
    dtype = np.dtype(_float)
    accepts = staticmethod(lambda x: not x.is_int() and R.is_real(x))

    def __new__(cls, x=0.0):
        x = unwrap0(x)
        if isinstance(x, E):
            if not R.is_real(x):
                raise TypeError("can't convert complex to float")
            return x
        if isinstance(x, B):
            return _float(bool(x))
        return _float(x)


class SComplex(metaclass=_MF):
    real_type = _complex
    dtype = np.dtype(_complex)
    accepts = staticmethod(lambda x: not R.is_real(x))

    def __new__(cls, x=0.0, y=None):
        x, y = unwrap0(x), unwrap0(y)
        if isinstance(x, E) or isinstance(y, E):
            return x if y is None else R.add(x, R.mul(1j, y))
        return _complex(x) if y is None else _complex(x, y)


class SInt(metaclass=_MF):
    real_type = _int
    dtype = np.dtype(_int)
    accepts = staticmethod(lambda x: x.is_int())

    def __new__(cls, x=0, *a):
        x = unwrap0(x)
        if isinstance(x, E):
            return x.__int__()
        return _int(x, *a)


def unwrap0(x):
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return x.item()
    return x


def real_dtype(dt):
    if dt is None:
        return None
    if dt is SFloat:
        return np.dtype(_float)
    if dt is SComplex:
        return np.dtype(_complex)
    if dt is SInt:
        return np.dtype(_int)
    return np.dtype(dt)


def dkind(dt):
    dt = real_dtype(dt)
    return {"f": "f", "c": "c", "i": "i", "u": "i", "b": "b", "O": None}.get(dt.kind, "x")


# ----------------------------------------------------------------------------------------------
# arrays
# ----------------------------------------------------------------------------------------------

def is_sym(x):
    return isinstance(x, (E, B)) or (isinstance(x, np.ndarray) and x.dtype == object)


def has_sym(x, depth=0):
    if isinstance(x, (E, B)):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    return False


def scalar_kind(x):
    if isinstance(x, E):
        return "f" if R.is_real(x) else "c"
    if isinstance(x, (B, _bool, np.bool_)):
        return "b"
    if isinstance(x, (_complex, np.complexfloating)):
        return "c"
    if isinstance(x, (_int, np.integer)):
        return "i"
    return "f"


def scan_kind(a):
    ks = {scalar_kind(x) for x in a.flat}
    for k in "cfib":
        if k in ks:
            return k
    return "f"


ORDER = {"b": 0, "i": 1, "f": 2, "c": 3, None: 2}


def kind_of(x):
    if isinstance(x, SArr):
        k = x._kind
        if k is None:
            k = scan_kind(x)
        return k
    if isinstance(x, np.ndarray):
        return dkind(x.dtype)
    return scalar_kind(x)


def top_kind(xs):
    best = "b"
    for x in xs:
        k = kind_of(x)
        if ORDER.get(k, 2) > ORDER[best]:
            best = k
    return best


class SArr(np.ndarray):
    _kind = None

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, "_kind", None)

    # ---- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types_, args, kwargs):
        return do_func(func, args, kwargs)

    # ---- in-place forms (a scalar E has __array_ufunc__ = None)
    def __iadd__(self, o):
        self[...] = np.asarray(do_ufunc(np.add, "__call__", self, arr(o)), dtype=object)
        return self

    def __isub__(self, o):
        self[...] = np.asarray(do_ufunc(np.subtract, "__call__", self, arr(o)), dtype=object)
        return self

    def __imul__(self, o):
        self[...] = np.asarray(do_ufunc(np.multiply, "__call__", self, arr(o)), dtype=object)
        return self

    def __itruediv__(self, o):
        self[...] = np.asarray(do_ufunc(np.divide, "__call__", self, arr(o)), dtype=object)
        return self

    # ---- indexing
    def __getitem__(self, idx):
        idx = conc_index(idx)
        r = np.ndarray.__getitem__(self, idx)
        return r

    def __setitem__(self, idx, v):
        idx = conc_index(idx)
        if hasattr(v, "todense") and not isinstance(v, np.ndarray):
            raise Unsupported("sparse assigned into a dense array")
        k = self._kind
        if isinstance(v, (list, tuple)):
            v = to_sarr(v)
        if k in ("f", "i", "b"):
            v = fit(v, k)
        if isinstance(v, np.ndarray):
            if v.dtype != object:
                v = v.astype(object)
            v = np.asarray(v)
            if v.ndim and v.size == 1:
                tgt = np.ndarray.__getitem__(self, idx)
                if not isinstance(tgt, np.ndarray):
                    v = v.item()
        if isinstance(v, np.ndarray):
            np.ndarray.__setitem__(self, idx, v)
        else:
            # an E is not a sequence; store as an object
            tgt = np.ndarray.__getitem__(self, idx)
            if isinstance(tgt, np.ndarray):
                z = np.empty((), dtype=object)
                z[()] = v
                np.ndarray.__setitem__(self, idx, z)
            else:
                np.ndarray.__setitem__(self, idx, v)

    # ---- attributes
    @property
    def real(self):
        return unary(R.real, self, "f")

    @real.setter
    def real(self, v):
        self[...] = R_add_arr(v, 1j * self.imag)

    @property
    def imag(self):
        return unary(R.imag, self, "f")

    def conj(self):
        return unary(R.conj, self, self._kind)

    conjugate = conj

    def astype(self, dtype, *a, **kw):
        k = dkind(dtype)
        if k == "f":
            r = unary(R.real, self, "f") if kind_of(self) == "c" else unary(bool2num, self, "f")
            return asarr0(r)
        if k == "c":
            r = asarr0(unary(bool2num, self, "c"))
            return r
        if k is None:
            return self.copy()
        if k == "i":
            out = np.empty(self.shape, dtype=real_dtype(dtype))
            of, sf = out.reshape(-1), np.asarray(self).reshape(-1)
            for n in range(sf.size):
                of[n] = SInt(sf[n]) if not isinstance(sf[n], B) else int(bool(sf[n]))
            return out
        if k == "b":
            return force_bool(unary(lambda x: x if isinstance(x, (B, _bool, np.bool_)) else R.ne(x, 0), self, "b"))
        raise Unsupported("astype %r" % (dtype,))

    def __str__(self):
        return "<symbolic array %s>" % (self.shape,)

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __bool__(self):
        if self.size == 1:
            return bool(self.item())
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __int__(self):
        return SInt(self.item())

    def __index__(self):
        if self.ndim:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self.item().__index__()

    def __float__(self):
        return _float(self.item())

    def __complex__(self):
        return _complex(self.item())

    # ---- methods
    def dot(self, b, out=None):
        if is_sparse(b):
            raise Unsupported("dense.dot(sparse)")
        return do_func(np.dot, (self, b), {})

    def __matmul__(self, b):
        if is_sparse(b):
            return b.__rmatmul__(self)
        return do_ufunc(np.matmul, "__call__", self, b)

    def __rmatmul__(self, b):
        return do_ufunc(np.matmul, "__call__", arr(b), self)

    def round(self, decimals=0, out=None):
        if all_concrete(self):
            return promote(demote(self).round(decimals))
        return np_round(self, decimals)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return np_sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **kw):
        return do_ufunc(np.multiply, "reduce", self, axis=axis if axis is not None else tuple(range(self.ndim)))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        n = self.size if axis is None else np.prod([self.shape[k] for k in np.atleast_1d(axis)])
        return np_sum(self, axis=axis, keepdims=keepdims) / n

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return np_all(self, axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return np_any(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, **kw):
        return np_extreme(self, R.maximum, axis)

    def min(self, axis=None, out=None, **kw):
        return np_extreme(self, R.minimum, axis)

    def argmax(self, axis=None, out=None, **kw):
        return np_argext(self, R.gt, axis)

    def argmin(self, axis=None, out=None, **kw):
        return np_argext(self, R.lt, axis)

    def argsort(self, axis=-1, **kw):
        return np_argsort(self, axis=axis)

    def sort(self, axis=-1, **kw):
        self[...] = np_sort(self, axis=axis)

    def nonzero(self):
        return truth_array(self).nonzero()

    def trace(self, *a, **kw):
        r = np.ndarray.trace(self, *a, **kw)
        return r

    def clip(self, lo=None, hi=None, **kw):
        r = self
        if lo is not None:
            r = do_ufunc(np.maximum, "__call__", r, lo)
        if hi is not None:
            r = do_ufunc(np.minimum, "__call__", r, hi)
        return r

    def tofile(self, *a, **kw):
        raise Unsupported("tofile")

    def var(self, *a, **kw):
        raise Unsupported("var")

    def std(self, *a, **kw):
        raise Unsupported("std")


class SMat(SArr):
    """np.matrix semantics"""

    def __getitem__(self, idx):
        r = SArr.__getitem__(self, idx)
        if isinstance(r, SMat) and r.ndim == 1:
            single_row = not isinstance(idx, tuple) or isinstance(idx[0], (_int, np.integer))
            r = r.reshape(1, -1) if single_row else r.reshape(-1, 1)
        return r

    def __mul__(self, o):
        if isinstance(o, np.ndarray) or isinstance(o, (list, tuple)):
            return wrap_mat(do_ufunc(np.matmul, "__call__", self, np.atleast_2d(arr(o)).view(SArr)
                                     if arr(o).dtype == object else np.atleast_2d(arr(o))))
        if is_sparse(o):
            return wrap_mat(o.__rmatmul__(self))
        return do_ufunc(np.multiply, "__call__", self, arr(o))

    def __rmul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return wrap_mat(do_ufunc(np.matmul, "__call__", np.atleast_2d(o), self))
        return do_ufunc(np.multiply, "__call__", arr(o), self)

    @property
    def A(self):
        return np.ndarray.view(self, SArr)

    @property
    def A1(self):
        return np.ndarray.view(self, SArr).reshape(-1)

    @property
    def H(self):
        return self.conj().T

    def sum(self, axis=None, **kw):
        r = np_sum(self.A, axis=axis, keepdims=axis is not None)
        return wrap_mat(r) if isinstance(r, np.ndarray) else r


def wrap_mat(r):
    r = asarr0(r)
    k = r._kind if isinstance(r, SArr) else None
    r = np.atleast_2d(r).astype(object).view(SMat) if not isinstance(r, SMat) else r
    r._kind = k
    return r


def is_sparse(x):
    return getattr(x, "is_spm", False)


def bool2num(x):
    if isinstance(x, B):
        return np.float64(bool(x))
    if isinstance(x, (_bool, np.bool_)):
        return np.float64(x)
    return x


def R_add_arr(a, b):
    return do_ufunc(np.add, "__call__", arr(a), arr(b))


def all_concrete(a):
    for x in np.asarray(a).reshape(-1):
        if isinstance(x, (E, B)):
            return False
    return True


def demote(x):
    """SArr without symbolic content -> machine array"""
    if not (isinstance(x, np.ndarray) and x.dtype == object):
        return x
    k = kind_of(x) if isinstance(x, SArr) else scan_kind(x)
    dt = {"f": _float, "c": _complex, "i": _int, "b": _bool}[k or "f"]
    b = np.asarray(x)
    out = np.empty(b.shape, dtype=dt)
    of = out.reshape(-1) if out.flags.c_contiguous else None
    bf = b.reshape(-1)
    for n in range(bf.size):
        of[n] = bf[n]
    return out


def promote(r):
    """machine result of an operation on SArr operands -> SArr again, so that symbolic values may be stored into it"""
    if isinstance(r, np.ndarray) and r.dtype.kind in "fc" and r.ndim:
        return to_sarr(r)
    if isinstance(r, (list, tuple)) and any(isinstance(y, np.ndarray) for y in r):
        return type(r)(promote(y) for y in r)
    return r


def deep_concrete(x):
    if isinstance(x, (E, B)):
        return False
    if isinstance(x, np.ndarray) and x.dtype == object:
        return all_concrete(x)
    if isinstance(x, (list, tuple)):
        return all(deep_concrete(y) for y in x)
    return True


def deep_demote(x):
    if isinstance(x, (list, tuple)):
        return type(x)(deep_demote(y) for y in x)
    return demote(x)


def arr(x):
    """anything -> ndarray / SArr (scalars stay 0-d)"""
    if isinstance(x, np.ndarray):
        if x.dtype == object and not isinstance(x, SArr):
            return x.view(SArr)
        return x
    if isinstance(x, (E, B)):
        z = np.empty((), dtype=object)
        z[()] = x
        z = z.view(SArr)
        z._kind = scalar_kind(x)
        return z
    if has_sym(x):
        return to_sarr(x)
    return np.asarray(x)


def asarr0(x):
    return arr(x)


def unarr(r):
    """0-d object array -> scalar"""
    if isinstance(r, np.ndarray) and r.ndim == 0 and r.dtype == object:
        return r.item()
    return r


def nest_shape(x):
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,)
        shs = [nest_shape(y) for y in x]
        if any(s != shs[0] for s in shs):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous "
                             "shape after 1 dimensions.")
        return (len(x),) + shs[0]
    if isinstance(x, np.ndarray):
        return x.shape
    return ()


def to_sarr(x, kind=None):
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        k = dkind(x.dtype) if x.dtype != object else None
        r = x.astype(object).view(SArr)
        r._kind = kind or k
        return r
    sh = nest_shape(x)
    out = np.empty(sh, dtype=object)

    def fill(o, v, pre):
        if isinstance(v, (list, tuple)):
            for n, y in enumerate(v):
                fill(o, y, pre + (n,))
        elif isinstance(v, np.ndarray):
            if v.ndim == 0:
                o[pre] = v.item() if v.dtype == object else v[()]
            else:
                o[pre] = np.asarray(v)
        else:
            o[pre] = v
    fill(out, x, ())
    r = out.view(SArr)
    r._kind = kind or scan_kind(r)
    return r


def fit(v, k):
    """value stored into an array of real (or integer) kind: numpy drops the imaginary part"""
    if isinstance(v, np.ndarray):
        if v.dtype != object:
            v = np.real(v) if v.dtype.kind == "c" else v
            if k == "i":
                v = np.trunc(v)
            return v
        return asarr0(unary(lambda x: fit1(x, k), v, k))
    return fit1(v, k)


def fit1(x, k):
    if isinstance(x, _complex) and not isinstance(x, np.complexfloating):
        if not isinstance(x, np.number):
            raise TypeError("can't convert complex to float")
    if isinstance(x, E):
        x = R.real(x)
        if k == "i" and not (isinstance(x, E) and x.is_int()):
            return SInt(x)
        return x
    if isinstance(x, np.complexfloating):
        x = x.real
    if isinstance(x, B):
        return x if k == "b" else np.float64(bool(x))
    if k == "i":
        return _int(x)
    return x


def conc_index(idx):
    if isinstance(idx, E):
        return R.concretize(idx)
    if isinstance(idx, B):
        return bool(idx)
    if isinstance(idx, SArr):
        return index_array(idx)
    if isinstance(idx, tuple):
        return tuple(conc_index(i) for i in idx)
    if isinstance(idx, slice):
        return slice(conc_index(idx.start), conc_index(idx.stop), conc_index(idx.step))
    if isinstance(idx, list) and has_sym(idx):
        return index_array(to_sarr(idx))
    return idx


def index_array(a):
    if kind_of(a) == "b" or (a.size and all(isinstance(x, (B, _bool, np.bool_)) for x in a.flat)):
        return force_bool(a)
    out = np.empty(a.shape, dtype=_int)
    of, af = out.reshape(-1), np.asarray(a).reshape(-1)
    for n in range(af.size):
        v = af[n]
        if isinstance(v, E):
            of[n] = R.concretize(v)
        else:
            if not isinstance(v, (_int, np.integer)):
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            of[n] = v
    return out


def force_bool(a):
    if not isinstance(a, np.ndarray):
        return bool(a)
    if a.dtype != object:
        return a
    out = np.empty(a.shape, dtype=_bool)
    of, af = out.reshape(-1), np.asarray(a).reshape(-1)
    for n in range(af.size):
        of[n] = bool(af[n])
    return out


def truth_array(a):
    """a != 0 as a real bool array (forks)"""
    a = arr(a)
    if a.dtype != object:
        return a.astype(_bool)
    return force_bool(unary(lambda x: x if isinstance(x, (B, _bool, np.bool_)) else R.ne(x, 0), a, "b"))


# ----------------------------------------------------------------------------------------------
# elementwise
# ----------------------------------------------------------------------------------------------

def unary(f, a, kind=None):
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.reshape(-1)
    for n in range(af.size):
        of[n] = f(af[n])
    return finish(out, kind)


def finish(out, kind=None):
    """object result -> SArr, real bool array, or scalar"""
    if kind == "b":
        if not any(isinstance(x, B) for x in out.flat):
            r = out.astype(_bool)
            return r if r.ndim else r[()]
    if out.ndim == 0:
        return out.item()
    r = out.view(SArr)
    r._kind = kind if kind is not None else None
    return r


def binary(f, a, b, kind=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    of, af, bf = out.reshape(-1), a.reshape(-1), b.reshape(-1)
    for n in range(of.size):
        of[n] = f(af[n], bf[n])
    return finish(out, kind)


def b_cast(x):
    if isinstance(x, (B, _bool, np.bool_)):
        return x
    return R.ne(x, 0)


def b_xor(a, b):
    return bool(a) != bool(b)


def sc(f):
    """unary for concrete or symbolic scalars"""
    return f


def s_isnan(x):
    if isinstance(x, E):
        return False
    return bool(np.isnan(x))


def s_isinf(x):
    if isinstance(x, E):
        return False
    return bool(np.isinf(x))


def s_square(x):
    return R.mul(x, x) if isinstance(x, E) else x * x


def s_tan(x):
    return R.divide(R.sin(x), R.cos(x)) if isinstance(x, E) else np.tan(x)


def s_cosh(x):
    return R.mul(0.5, R.add(R.exp(x), R.exp(R.neg(x)))) if isinstance(x, E) else np.cosh(x)


def s_sinh(x):
    return R.mul(0.5, R.sub(R.exp(x), R.exp(R.neg(x)))) if isinstance(x, E) else np.sinh(x)


def s_tanh(x):
    if not isinstance(x, E):
        return np.tanh(x)
    e = R.exp(R.mul(2, x))
    return R.divide(R.sub(e, 1), R.add(e, 1))


def s_ceil(x):
    return R.neg(R.floor(R.neg(x))) if isinstance(x, E) else np.ceil(x)


def s_trunc(x):
    if not isinstance(x, E):
        return np.trunc(x)
    return R.floor(x) if bool(R.ge(x, 0)) else s_ceil(x)


def s_arctan2(y, x):
    if isinstance(x, E) or isinstance(y, E):
        return R.arg(R.add(x, R.mul(1j, y)))
    return np.arctan2(y, x)


def s_arctan(x):
    if not isinstance(x, E):
        return np.arctan(x)
    return R.arg(R.add(1, R.mul(1j, x)))


def s_hypot(x, y):
    return R.sqrt(R.add(R.mul(x, x), R.mul(y, y)))


def s_fmod(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return np.fmod(a, b)
    return R.sub(a, R.mul(b, s_trunc(R.divide(a, b))))


def s_mod(a, b):
    return R.mod(a, b)


UN = {
    "negative": (R.neg, None), "positive": (lambda x: x, None), "absolute": (R.absolute, "f"), "fabs": (R.absolute, "f"),
    "exp": (R.exp, None), "sqrt": (R.sqrt, None), "cos": (R.cos, None), "sin": (R.sin, None), "tan": (s_tan, None),
    "conjugate": (R.conj, None), "log": (R.log, None), "floor": (R.floor, "f"), "ceil": (s_ceil, "f"),
    "rint": (R.rint, None), "trunc": (s_trunc, "f"), "sign": (R.sign, "f"), "square": (s_square, None),
    "reciprocal": (lambda x: R.divide(1.0, x), None), "isnan": (s_isnan, "b"), "isinf": (s_isinf, "b"),
    "isfinite": (lambda x: True if isinstance(x, E) else bool(np.isfinite(x)), "b"),
    "logical_not": (lambda x: R.b_not(b_cast(x)), "b"), "invert": (lambda x: R.b_not(x), "b"),
    "cosh": (s_cosh, None), "sinh": (s_sinh, None), "tanh": (s_tanh, None),
    "expm1": (lambda x: R.sub(R.exp(x), 1.0), None), "log1p": (lambda x: R.log(R.add(x, 1.0)), None),
    "exp2": (lambda x: R.power(2.0, x), None), "log2": (lambda x: R.mul(R.log(x), 1 / math.log(2)), None),
    "log10": (lambda x: R.mul(R.log(x), 1 / math.log(10)), None),
    "deg2rad": (lambda x: R.mul(x, math.pi / 180), "f"), "rad2deg": (lambda x: R.mul(x, 180 / math.pi), "f"),
    "radians": (lambda x: R.mul(x, math.pi / 180), "f"), "arctan": (s_arctan, "f"),
}
BIN = {
    "add": (R.add, None), "subtract": (R.sub, None), "multiply": (R.mul, None), "divide": (R.divide, None),
    "true_divide": (R.divide, None), "floor_divide": (R.floordiv, None), "power": (R.power, None),
    "float_power": (R.power, None), "remainder": (s_mod, None), "mod": (s_mod, None), "fmod": (s_fmod, None),
    "maximum": (R.maximum, None), "minimum": (R.minimum, None), "fmax": (R.maximum, None), "fmin": (R.minimum, None),
    "heaviside": (R.heaviside, "f"), "hypot": (s_hypot, "f"), "arctan2": (s_arctan2, "f"),
    "equal": (R.eq, "b"), "not_equal": (R.ne, "b"), "less": (R.lt, "b"), "less_equal": (R.le, "b"),
    "greater": (R.gt, "b"), "greater_equal": (R.ge, "b"),
    "logical_and": (lambda a, b: R.b_and([b_cast(a), b_cast(b)]), "b"),
    "logical_or": (lambda a, b: R.b_or([b_cast(a), b_cast(b)]), "b"),
    "logical_xor": (lambda a, b: b_xor(b_cast(a), b_cast(b)), "b"),
    "bitwise_and": (lambda a, b: R.b_and([b_cast(a), b_cast(b)]), "b"),
    "bitwise_or": (lambda a, b: R.b_or([b_cast(a), b_cast(b)]), "b"),
    "bitwise_xor": (lambda a, b: b_xor(b_cast(a), b_cast(b)), "b"),
}
NATIVE = {"add", "subtract", "multiply", "negative", "matmul"}


def num_guard(f):
    """numbers in object arrays may be python ints; bools in arithmetic become numbers"""
    return f


def bare(x):
    if isinstance(x, np.ndarray):
        return np.asarray(x)
    z = np.empty((), dtype=object)
    z[()] = x
    return z


def do_ufunc(ufunc, method, *inputs, **kw):
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("casting", None)
    kw.pop("subok", None)
    dt = kw.pop("dtype", None)
    name = ufunc.__name__
    if any(is_sparse(x) for x in inputs):
        return NotImplemented
    inputs = tuple(arr(x) for x in inputs)
    mat = any(isinstance(x, SMat) for x in inputs)
    if where is True and not mat and all(x.dtype != object or all_concrete(x) for x in inputs):
        if dt is not None:
            kw["dtype"] = real_dtype(dt)
        with np.errstate(all="ignore"):
            r = promote(getattr(ufunc, method)(*[demote(x) for x in inputs], **kw))
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = r
            return o
        return r
    if method == "__call__":
        if where is not True:
            raise Unsupported("ufunc where")
        if name in NATIVE:
            kind = top_kind(inputs)
            if name != "matmul" and kind == "b":
                inputs = tuple(arr(unary(bool2num, x, "i")) if x.dtype == object else x.astype(_int) for x in inputs)
                kind = "i"
            else:
                inputs = tuple(arr(unary(bool2num, x, "f")) if (x.dtype == object and kind_of(x) == "b") else x
                               for x in inputs)
            ins = [np.asarray(x) if x.dtype == object else np.asarray(x).astype(object) for x in inputs]
            if name == "matmul":
                r = matmul(*ins)
            else:
                with np.errstate(all="ignore"):
                    r = ufunc(*ins)
            if not isinstance(r, np.ndarray):
                z = np.empty((), dtype=object)
                z[()] = r
                r = z
            r = finish(r, kind)
        elif name in UN:
            f, k = UN[name]
            if k is None:
                k = kind_of(inputs[0])
                if k in ("i", "b") and name not in ("negative", "positive", "conjugate", "square"):
                    k = "f"
                if k == "f" and name in ("sqrt", "log"):
                    k = "f"
            with np.errstate(all="ignore"):
                r = unary(f, inputs[0], k)
        elif name in BIN:
            f, k = BIN[name]
            if k is None:
                k = top_kind(inputs)
                if k in ("i", "b") and name in ("divide", "true_divide", "float_power"):
                    k = "f"
            if k != "b":
                inputs = tuple(arr(unary(bool2num, x, "f")) if (x.dtype == object and kind_of(x) == "b") else x
                               for x in inputs)
            with np.errstate(all="ignore"):
                r = binary(f, inputs[0], inputs[1], k)
        else:
            raise Unsupported("ufunc " + name)
    elif method == "reduce":
        axis = kw.pop("axis", 0)
        keepdims = kw.pop("keepdims", False)
        initial = kw.pop("initial", None)
        a = inputs[0]
        if initial is not None and initial is not np._NoValue:
            raise Unsupported("reduce initial")
        if name in ("add", "multiply"):
            if kind_of(a) == "b":
                a = arr(unary(bool2num, a, "i"))
            if axis is None:
                axis = tuple(range(a.ndim))
            with np.errstate(all="ignore"):
                r = ufunc.reduce(np.asarray(a), axis=axis, keepdims=keepdims)
            if not isinstance(r, np.ndarray):
                r = bare(r)
            r = finish(r, kind_of(a))
        elif name in ("logical_and", "logical_or", "bitwise_and", "bitwise_or"):
            g = np_all if name.endswith("and") else np_any
            r = g(a, axis=axis, keepdims=keepdims)
        elif name in ("maximum", "minimum", "fmax", "fmin"):
            r = np_extreme(a, BIN[name][0], axis)
        else:
            raise Unsupported("reduce " + name)
    elif method == "outer":
        a, b = inputs
        r = do_ufunc(ufunc, "__call__", a.reshape(a.shape + (1,) * b.ndim), b)
    elif method == "accumulate" and name in ("add", "multiply"):
        r = finish(ufunc.accumulate(np.asarray(inputs[0]), axis=kw.get("axis", 0)), kind_of(inputs[0]))
    elif method == "at":
        raise Unsupported("ufunc.at")
    else:
        raise Unsupported("ufunc %s %s" % (name, method))
    if dt is not None and dkind(dt) in ("f", "c"):
        r = unarr(arr(r).astype(dt))
    if mat and isinstance(r, SArr) and r.ndim == 2:
        k = r._kind
        r = r.view(SMat)
        r._kind = k
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o.dtype != object and is_sym(r) and not isinstance(r, B):
            if any(isinstance(x, (E, B)) for x in arr(r).flat):
                raise Unsupported("symbolic result written into a machine array")
        o[...] = r
        return o
    return r


def matmul(a, b):
    """object matmul skipping zeros"""
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim > 2 or b.ndim > 2:
        return np.matmul(a, b)
    a2 = a.reshape(1, -1) if a.ndim == 1 else a
    b2 = b.reshape(-1, 1) if b.ndim == 1 else b
    if a2.shape[1] != b2.shape[0]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from "
                         "%d)" % (b2.shape[0], a2.shape[1]))
    out = np.empty((a2.shape[0], b2.shape[1]), dtype=object)
    nzb = []
    for k in range(b2.shape[0]):
        nzb.append([(j, b2[k, j]) for j in range(b2.shape[1]) if isinstance(b2[k, j], (E, B)) or b2[k, j] != 0])
    for i in range(a2.shape[0]):
        acc = {}
        for k in range(a2.shape[1]):
            x = a2[i, k]
            if not isinstance(x, (E, B)) and x == 0:
                continue
            for j, y in nzb[k]:
                v = acc.get(j)
                p = x * y
                acc[j] = p if v is None else v + p
        for j in range(b2.shape[1]):
            out[i, j] = acc.get(j, np.float64(0.0))
    if a.ndim == 1 and b.ndim == 1:
        return out.reshape(())
    if a.ndim == 1:
        return out[0]
    if b.ndim == 1:
        return out[:, 0]
    return out


def foreign(f, self, o, swap):
    """binary operator between a scalar E and something else"""
    if is_sparse(o):
        return NotImplemented
    if o is None or isinstance(o, str):
        if f in (R.eq, R.ne):
            return f is R.ne
        return NotImplemented
    if isinstance(o, (list, tuple)) or isinstance(o, np.ndarray):
        if isinstance(o, (list, tuple)) and f in (R.eq, R.ne) is False:
            return NotImplemented
        uf = FOREIGN[f]
        a, b = (arr(o), arr(self)) if swap else (arr(self), arr(o))
        return do_ufunc(uf, "__call__", a, b)
    return NotImplemented


FOREIGN = {R.add: np.add, R.sub: np.subtract, R.mul: np.multiply, R.divide: np.divide, R.power: np.power,
           R.mod: np.mod, R.floordiv: np.floor_divide, R.eq: np.equal, R.ne: np.not_equal, R.lt: np.less,
           R.le: np.less_equal, R.gt: np.greater, R.ge: np.greater_equal}


# ----------------------------------------------------------------------------------------------
# functions
# ----------------------------------------------------------------------------------------------

def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **kw):
    if is_sparse(a):
        return a.sum(axis=axis)
    a = arr(a)
    if a.dtype != object:
        return np.sum(a, axis=axis, keepdims=keepdims)
    if isinstance(a, SMat):
        return a.sum(axis=axis)
    ax = tuple(range(a.ndim)) if axis is None else axis
    return do_ufunc(np.add, "reduce", a, axis=ax, keepdims=keepdims)


def np_all(a, axis=None, out=None, keepdims=False, **kw):
    a = arr(a)
    if a.dtype != object:
        return np.all(a, axis=axis, keepdims=keepdims)
    return red_bool(a, axis, R.b_and, keepdims)


def np_any(a, axis=None, out=None, keepdims=False, **kw):
    a = arr(a)
    if a.dtype != object:
        return np.any(a, axis=axis, keepdims=keepdims)
    return red_bool(a, axis, R.b_or, keepdims)


def red_bool(a, axis, comb, keepdims=False):
    if axis is None:
        r = comb([b_cast(x) for x in a.flat])
        return r if isinstance(r, B) else np.bool_(r)
    if isinstance(axis, tuple):
        raise Unsupported("all/any over several axes")
    x = np.moveaxis(np.asarray(a), axis, -1)
    out = np.empty(x.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = comb([b_cast(y) for y in x[i]])
    if keepdims:
        out = np.expand_dims(out, axis)
    return finish(out, "b")


def np_extreme(a, f, axis=None):
    a = arr(a)
    if axis is None:
        it = list(np.asarray(a).flat)
        if not it:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return functools.reduce(f, it)
    if isinstance(axis, tuple):
        raise Unsupported("extreme over several axes")
    x = np.moveaxis(np.asarray(a), axis, -1)
    out = np.empty(x.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = functools.reduce(f, list(x[i]))
    return finish(out, kind_of(a))


def np_argext(a, better, axis=None):
    a = np.asarray(arr(a))
    if axis is None:
        x = a.reshape(-1)
        b = 0
        for n in range(1, x.size):
            if bool(better(x[n], x[b])):
                b = n
        return np.int64(b)
    x = np.moveaxis(a, axis, -1)
    out = np.empty(x.shape[:-1], dtype=_int)
    for i in np.ndindex(out.shape):
        out[i] = np_argext(x[i], better)
    return out


def argsort_keys(n, less):
    """stable insertion sort by a forking comparison"""
    order = []
    for i in range(n):
        lo, hi = 0, len(order)
        while lo < hi:
            m = (lo + hi) // 2
            if less(i, order[m]):
                hi = m
            else:
                lo = m + 1
        order.insert(lo, i)
    return np.array(order, dtype=_int)


def np_argsort(a, axis=-1, kind=None, order=None, **kw):
    a = np.asarray(arr(a))
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    x = np.moveaxis(a, axis, -1)
    out = np.empty(x.shape, dtype=_int)
    for i in np.ndindex(x.shape[:-1]):
        v = x[i]
        out[i] = argsort_keys(len(v), lambda p, q: bool(R.lt(v[p], v[q])))
    return np.moveaxis(out, -1, axis)


def np_sort(a, axis=-1, **kw):
    a = arr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    o = np_argsort(a, axis)
    r = np.take_along_axis(np.asarray(a), o, axis)
    return finish(r, kind_of(a))


def np_lexsort(keys, axis=-1):
    ks = [np.asarray(arr(k)) for k in (keys if isinstance(keys, (tuple, list)) else list(keys))]
    n = ks[0].size
    if any(k.size != n for k in ks):
        raise ValueError("all keys need to be the same shape")
    fl = [k.reshape(-1) for k in ks]

    def less(p, q):
        for k in reversed(fl):
            if bool(R.lt(k[p], k[q])):
                return True
            if not bool(R.eq(k[p], k[q])):
                return False
        return False
    return argsort_keys(n, less)


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = arr(a)
    if axis is None:
        rows = [(x,) for x in np.asarray(a).reshape(-1)]
    else:
        rows = [tuple(np.asarray(r).reshape(-1)) for r in np.moveaxis(np.asarray(a), axis, 0)]

    def less(p, q):
        for u, v in zip(rows[p], rows[q]):
            if bool(R.lt(u, v)):
                return True
            if not bool(R.eq(u, v)):
                return False
        return False
    order = argsort_keys(len(rows), less)
    uniq, inv, cnt = [], np.zeros(len(rows), dtype=_int), []
    for i in order:
        if uniq and all(bool(R.eq(u, v)) for u, v in zip(rows[uniq[-1]], rows[i])):
            cnt[-1] += 1
        else:
            uniq.append(int(i))
            cnt.append(1)
        inv[i] = len(uniq) - 1
    idx = np.array(uniq, dtype=_int)
    if axis is None:
        vals = np.asarray(a).reshape(-1)[idx]
    else:
        vals = np.take(np.asarray(a), idx, axis=axis)
    out = [finish(vals, kind_of(a))]
    if return_index:
        out.append(idx)
    if return_inverse:
        out.append(inv)
    if return_counts:
        out.append(np.array(cnt, dtype=_int))
    return out[0] if len(out) == 1 else tuple(out)


def round_c(c, d):
    return complex(round(c.real, d), round(c.imag, d)) if isinstance(c, complex) else round(c, d)


def np_round(x, decimals=0, out=None):
    x = unarr(x)
    s = 10.0 ** decimals

    def f(v):
        if not isinstance(v, E):
            return np.round(v, decimals)
        if decimals >= 9:
            # no bound here sees the rounding itself; what it is for is removing the rounding errors of the concrete coefficients
            if decimals >= 12 and any(c != 0 and (abs(c) < 1e3) and round_c(c, decimals) != c for c in v.t.values()):
                return R.mk({m: round_c(c, decimals) if abs(c) < 1e3 else c for m, c in v.t.items()})
            return v
        if decimals == 0:
            return R.rint(v)
        return R.mul(R.rint(R.mul(v, s)), 1 / s)
    if isinstance(x, np.ndarray):
        return unary(f, x, kind_of(x))
    return f(x)


def np_array_equal(a, b, equal_nan=False):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return False
    r = R.b_and([R.eq(x, y) for x, y in zip(np.asarray(a).flat, np.asarray(b).flat)])
    return r


def np_array_equiv(a, b):
    a, b = arr(a), arr(b)
    try:
        a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
    except ValueError:
        return False
    return R.b_and([R.eq(x, y) for x, y in zip(a.flat, b.flat)])


def s_isclose(x, y, rtol, atol):
    if not isinstance(x, E) and not isinstance(y, E):
        return bool(np.isclose(x, y, rtol=rtol, atol=atol))
    if R._special_num(x) or R._special_num(y):
        return False
    return R.le(R.absolute(R.sub(x, y)), R.add(atol, R.mul(rtol, R.absolute(y))))


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return binary(lambda x, y: s_isclose(x, y, rtol, atol), arr(a), arr(b), "b")


def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = np.broadcast_arrays(np.asarray(arr(a)), np.asarray(arr(b)))
    return R.b_and([s_isclose(x, y, rtol, atol) for x, y in zip(a.flat, b.flat)])


def np_where(c, *xy):
    c = force_bool(arr(c)) if kind_of(arr(c)) == "b" else truth_array(c)
    if not xy:
        return np.nonzero(c)
    x, y = arr(xy[0]), arr(xy[1])
    c, x, y = np.broadcast_arrays(c, np.asarray(x), np.asarray(y))
    out = np.empty(c.shape, dtype=object)
    of, cf, xf, yf = out.reshape(-1), c.reshape(-1), x.reshape(-1), y.reshape(-1)
    for n in range(of.size):
        of[n] = xf[n] if cf[n] else yf[n]
    return finish(out, None)


def np_dot(a, b, out=None):
    if is_sparse(b):
        # numpy treats a sparse matrix as an object scalar
        raise Unsupported("np.dot with a sparse matrix")
    a, b = arr(a), arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return do_ufunc(np.multiply, "__call__", a, b)
    if a.ndim <= 2 and b.ndim <= 2:
        return do_ufunc(np.matmul, "__call__", a, b)
    r = np.dot(np.asarray(a).astype(object), np.asarray(b).astype(object))
    return finish(np.asarray(r, dtype=object), top_kind([a, b]))


def np_tensordot(a, b, axes=2):
    a, b = arr(a), arr(b)
    r = np.tensordot(np.asarray(a).astype(object), np.asarray(b).astype(object), axes=axes)
    return finish(np.asarray(r, dtype=object), top_kind([a, b]))


def np_kron(a, b):
    a, b = arr(a), arr(b)
    nd = max(a.ndim, b.ndim)
    a2 = np.asarray(a).reshape((1,) * (nd - a.ndim) + a.shape)
    b2 = np.asarray(b).reshape((1,) * (nd - b.ndim) + b.shape)
    out = np.empty([x * y for x, y in zip(a2.shape, b2.shape)], dtype=object)
    for i in np.ndindex(a2.shape):
        for j in np.ndindex(b2.shape):
            out[tuple(p * n + q for p, q, n in zip(i, j, b2.shape))] = a2[i] * b2[j]
    return finish(out, top_kind([a, b]))


def np_diag(v, k=0):
    v = arr(v)
    r = np.diag(np.asarray(v), k)
    if v.ndim == 1 and r.dtype == object:
        r = np.array(r)
        for i in np.ndindex(r.shape):
            if isinstance(r[i], _int) and r[i] == 0:
                r[i] = np.float64(0.0)
    return finish(r, kind_of(v))


def np_trace(a, offset=0, *r, **kw):
    a = arr(a)
    return unarr(np_sum(np_diagonal(a, offset), axis=-1))


def np_diagonal(a, offset=0, axis1=0, axis2=1):
    a = arr(a)
    return finish(np.array(np.diagonal(np.asarray(a), offset, axis1, axis2)), kind_of(a))


def np_nansum(a, axis=None, **kw):
    a = arr(a)
    b = unary(lambda x: np.float64(0.0) if (not isinstance(x, E) and np.isnan(x)) else x, a, kind_of(a))
    return np_sum(arr(b), axis=axis, **kw)


def np_mean(a, axis=None, **kw):
    return arr(a).mean(axis=axis, **kw)


def np_trapz(y, x=None, dx=1.0, axis=-1):
    y = arr(y)
    n = y.shape[axis]
    s1 = [slice(None)] * y.ndim
    s2 = [slice(None)] * y.ndim
    s1[axis] = slice(1, None)
    s2[axis] = slice(None, -1)
    if x is None:
        d = dx
    else:
        x = arr(x)
        if x.ndim == 1:
            d = x[1:] - x[:-1]
            sh = [1] * y.ndim
            sh[axis] = d.shape[0]
            d = d.reshape(sh)
        else:
            d = x[tuple(s1)] - x[tuple(s2)]
    return np_sum(arr((y[tuple(s1)] + y[tuple(s2)]) * d / 2.0), axis=axis)


def np_linspace(a, b, num=50, endpoint=True, **kw):
    num = R.concretize(num)
    div = num - 1 if endpoint else num
    d = R.sub(b, a)
    out = np.empty(num, dtype=object)
    for k in range(num):
        out[k] = R.add(a, R.mul(d, k / div)) if div else a
    return finish(out, "f")


def np_arange(*a, **kw):
    args = [unarr(x) for x in a]
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0], args[1], 1
    else:
        start, stop, step = args
    n = R.concretize(s_ceil(R.divide(R.sub(stop, start), step)))
    n = max(0, n)
    out = np.empty(n, dtype=object)
    for k in range(n):
        out[k] = R.add(start, R.mul(step, k)) if (isinstance(start, E) or isinstance(step, E)) else start + step * k
    if any(isinstance(x, E) for x in out):
        return finish(out, "f")
    return np.array(list(out), dtype=real_dtype(kw.get("dtype"))) if n else np.arange(0)


def np_meshgrid(*xi, **kw):
    out = np.meshgrid(*[np.asarray(arr(x)) for x in xi], **kw)
    return [finish(np.array(o), kind_of(arr(x))) if o.dtype == object else o for o, x in zip(out, xi)]


def np_histogram(a, bins=10, range=None, density=None, weights=None):
    if weights is not None or density:
        raise Unsupported("weighted histogram of symbolic data")
    vals = list(np.asarray(arr(a)).flat)
    if np.ndim(unarr(bins)) == 0:
        n = R.concretize(unarr(bins))
        lo, hi = (np_extreme(arr(a), R.minimum), np_extreme(arr(a), R.maximum)) if range is None else range
        bins = np_linspace(lo, hi, n + 1)
    edges = list(np.asarray(arr(bins)).flat)
    for x, y in zip(edges, edges[1:]):
        if bool(R.gt(x, y)):
            raise ValueError("`bins` must increase monotonically, when an array")
    out = np.zeros(len(edges) - 1, dtype=int)
    for v in vals:
        if bool(R.lt(v, edges[0])) or bool(R.gt(v, edges[-1])):
            continue
        k = len(edges) - 2
        while k > 0 and bool(R.lt(v, edges[k])):
            k -= 1
        out[k] += 1
    return out, bins


def np_cumsum(a, axis=None, **kw):
    a = arr(a)
    r = np.cumsum(np.asarray(a), axis=axis)
    return finish(r, kind_of(a))


def np_count_nonzero(a, axis=None, **kw):
    return np.count_nonzero(truth_array(a), axis=axis)


def np_argwhere(a):
    return np.argwhere(truth_array(a))


def np_isin(*a, **kw):
    raise Unsupported("isin")


def np_gradient(*a, **kw):
    raise Unsupported("gradient")


def np_median(*a, **kw):
    raise Unsupported("median")


def np_searchsorted(a, v, side="left", **kw):
    a = np.asarray(arr(a))

    def one(x):
        n = 0
        for y in a:
            if bool(R.lt(y, x) if side == "left" else R.le(y, x)):
                n += 1
            else:
                break
        return n
    v = arr(v)
    if v.ndim == 0:
        return one(unarr(v) if v.dtype == object else v[()])
    return np.array([one(x) for x in v.reshape(-1)], dtype=_int).reshape(v.shape)


def det(m):
    n = m.shape[0]
    if n == 0:
        return np.float64(1.0)
    if n == 1:
        return m[0, 0]
    s = np.float64(0.0)
    for j in range(n):
        x = m[0, j]
        if not isinstance(x, E) and x == 0:
            continue
        minor = np.delete(m[1:], j, axis=1)
        p = x * det(minor)
        s = s + p if j % 2 == 0 else s - p
    return s


def la_det(a):
    a = arr(a)
    return det(np.asarray(a))


def la_inv(a):
    a = np.asarray(arr(a))
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if n > 4:
        raise Unsupported("inverse of a large symbolic matrix")
    d = det(a)
    if bool(R.eq(d, 0)):
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(a, i, axis=0), j, axis=1)
            c = det(minor)
            out[j, i] = R.divide(c if (i + j) % 2 == 0 else R.neg(c), d)
    return finish(out, None)


def la_norm(a, ord=None, axis=None, keepdims=False):
    a = arr(a)
    if ord not in (None, 2) or (ord == 2 and a.ndim > 1 and axis is None):
        raise Unsupported("norm")
    sq = unary(lambda x: R.real(R.mul(x, R.conj(x))), a, "f")
    s = np_sum(arr(sq), axis=axis, keepdims=keepdims)
    return unary(R.sqrt, arr(s), "f")


def la_solve(a, b):
    return do_ufunc(np.matmul, "__call__", la_inv(a), arr(b))


def la_unsup(name):
    def g(*a, **kw):
        h = HOOKS_LA.get(name)
        if h is not None:
            return h(*a, **kw)
        raise Unsupported("linalg." + name)
    return g


HOOKS_LA = {}


def np_angle(z, deg=False):
    r = unary(R.arg, arr(z), "f")
    return r * (180 / np.pi) if deg else r


def np_cross(*a, **kw):
    raise Unsupported("cross")


def np_real(x):
    return unary(R.real, arr(x), "f")


def np_imag(x):
    return unary(R.imag, arr(x), "f")


def np_logical(name):
    def g(a, b, **kw):
        return binary(BIN[name][0], arr(a), arr(b), "b")
    return g


def np_block_fn(func):
    """structure-only numpy functions: run on plain object arrays"""
    def g(*args, **kwargs):
        kinds = []

        def conv(x):
            if isinstance(x, (E, B)):
                kinds.append(scalar_kind(x))
                return bare(x)
            if isinstance(x, SArr):
                kinds.append(kind_of(x))
                return np.asarray(x)
            if isinstance(x, (list, tuple)):
                if has_sym(x) and all(not isinstance(y, np.ndarray) for y in x):
                    a = to_sarr(x)
                    kinds.append(kind_of(a))
                    return np.asarray(a)
                return type(x)(conv(y) for y in x)
            if isinstance(x, np.ndarray) and x.dtype.kind in "fc":
                kinds.append(x.dtype.kind)
            return x
        args = [conv(a) for a in args]
        kwargs = {k: conv(v) for k, v in kwargs.items()}
        r = func(*args, **kwargs)
        kind = "c" if "c" in kinds else ("f" if "f" in kinds else (kinds[0] if kinds else None))
        if isinstance(r, np.ndarray) and r.dtype == object:
            return finish(r, kind)
        if isinstance(r, (list, tuple)):
            return type(r)(finish(x, kind) if isinstance(x, np.ndarray) and x.dtype == object else x for x in r)
        return r
    return g


STRUCT = ["concatenate", "vstack", "hstack", "stack", "column_stack", "append", "insert", "delete", "repeat", "tile",
          "reshape", "ravel", "transpose", "moveaxis", "swapaxes", "expand_dims", "squeeze", "roll", "flip", "fliplr",
          "flipud", "rot90", "atleast_1d", "atleast_2d", "atleast_3d", "broadcast_to", "split", "array_split", "take",
          "triu", "tril", "block", "dstack", "copy", "resize", "broadcast_arrays", "diagflat", "vdot_"]

def np_result_type(*xs):
    out = []
    for x in xs:
        if isinstance(x, (SArr, E)) or has_sym(x):
            out.append(np.dtype({"f": float, "c": complex, "i": int, "b": bool}.get(kind_of(x), float)))
        else:
            out.append(real_dtype(x) if isinstance(x, type) else x)
    return np.result_type(*out)


OVR = {
    np.sum: np_sum, np.all: np_all, np.any: np_any, np.argsort: np_argsort, np.sort: np_sort, np.lexsort: np_lexsort,
    np.unique: np_unique, np.round: np_round, np.around: np_round, np.array_equal: np_array_equal,
    np.array_equiv: np_array_equiv,
    np.isclose: np_isclose, np.allclose: np_allclose, np.where: np_where, np.dot: np_dot, np.tensordot: np_tensordot,
    np.kron: np_kron, np.diag: np_diag, np.trace: np_trace, np.diagonal: np_diagonal, np.nansum: np_nansum,
    np.mean: np_mean, np.trapz: np_trapz, np.linspace: np_linspace, np.meshgrid: np_meshgrid,
    np.histogram: np_histogram, np.cumsum: np_cumsum, np.count_nonzero: np_count_nonzero, np.argwhere: np_argwhere,
    np.isin: np_isin, np.gradient: np_gradient, np.median: np_median, np.searchsorted: np_searchsorted,
    np.linalg.det: la_det, np.linalg.inv: la_inv, np.linalg.norm: la_norm, np.linalg.solve: la_solve,
    np.linalg.eigh: la_unsup("eigh"), np.linalg.eig: la_unsup("eig"), np.linalg.svd: la_unsup("svd"),
    np.linalg.eigvalsh: la_unsup("eigvalsh"), np.linalg.matrix_rank: la_unsup("matrix_rank"),
    np.linalg.eigvals: la_unsup("eigvals"), np.linalg.qr: la_unsup("qr"),
    np.angle: np_angle, np.real: np_real, np.imag: np_imag, np.cross: np_cross,
    np.max: lambda a, axis=None, **kw: np_extreme(a, R.maximum, axis),
    np.min: lambda a, axis=None, **kw: np_extreme(a, R.minimum, axis),
    np.amax: lambda a, axis=None, **kw: np_extreme(a, R.maximum, axis),
    np.amin: lambda a, axis=None, **kw: np_extreme(a, R.minimum, axis),
    np.argmax: lambda a, axis=None, **kw: np_argext(a, R.gt, axis),
    np.argmin: lambda a, axis=None, **kw: np_argext(a, R.lt, axis),
    np.nonzero: lambda a: np.nonzero(truth_array(a)),
    np.flatnonzero: lambda a: np.flatnonzero(truth_array(a)),
    np.vdot: lambda a, b: np_dot(arr(a).conj().reshape(-1), arr(b).reshape(-1)),
    np.inner: lambda a, b: np_dot(a, arr(b).T) if arr(b).ndim > 1 else np_dot(a, b),
    np.outer: lambda a, b, out=None: do_ufunc(np.multiply, "outer", arr(a).reshape(-1), arr(b).reshape(-1)),
    np.prod: lambda a, axis=None, **kw: arr(a).prod(axis=axis),
    np.iscomplexobj: lambda x: kind_of(arr(x)) == "c",
    np.isrealobj: lambda x: kind_of(arr(x)) != "c",
    np.zeros_like: lambda a, dtype=None, **kw: s_full(arr(a).shape, np.float64(0.0), dtype or kdt(a)),
    np.ones_like: lambda a, dtype=None, **kw: s_full(arr(a).shape, np.float64(1.0), dtype or kdt(a)),
    np.empty_like: lambda a, dtype=None, **kw: s_full(arr(a).shape, np.float64(0.0), dtype or kdt(a)),
    np.full_like: lambda a, v, dtype=None, **kw: s_full(arr(a).shape, v, dtype or kdt(a)),
    np.nan_to_num: lambda x, copy=True, nan=0.0, **kw: unary(
        lambda v: np.float64(nan) if (not isinstance(v, E) and np.isnan(v)) else v, arr(x), kind_of(arr(x))),
    np.diff: lambda a, n=1, axis=-1, **kw: np_diff(a, n, axis),
    np.clip: lambda a, lo, hi, **kw: arr(a).clip(lo, hi),
    np.einsum: None, np.isreal: None, np.iscomplex: None,
    np.ndim: lambda a: arr(a).ndim, np.shape: lambda a: arr(a).shape, np.size: lambda a, axis=None: arr(a).size
    if axis is None else arr(a).shape[axis],
    np.result_type: np_result_type, np.var: None, np.std: None, np.interp: None,
}


def np_diff(a, n, axis):
    a = arr(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a


def np_einsum(*args, **kw):
    ops = [np.asarray(arr(a)).astype(object) if not isinstance(a, str) else a for a in args]
    kw.pop("optimize", None)
    r = np.einsum(*ops, **kw)
    return finish(np.asarray(r, dtype=object), top_kind([a for a in args if not isinstance(a, str)]))


OVR[np.einsum] = np_einsum
OVR[np.isreal] = lambda x: unary(lambda v: R.eq(R.imag(v), 0), arr(x), "b")
OVR[np.iscomplex] = lambda x: unary(lambda v: R.ne(R.imag(v), 0), arr(x), "b")


def unsup(name):
    def g(*a, **kw):
        raise Unsupported("np." + name)
    return g


for _f in list(OVR):
    if OVR[_f] is None:
        OVR[_f] = unsup(_f.__name__)
for _n in STRUCT:
    _f = getattr(np, _n, None)
    if _f is not None:
        OVR[_f] = np_block_fn(_f)


def kdt(a):
    k = kind_of(arr(a))
    return {"f": _float, "c": _complex, "i": _int, "b": _bool}[k]


def s_full(shape, v, dtype=None):
    k = dkind(dtype) if dtype is not None else scalar_kind(unarr(v))
    if isinstance(shape, (E, _int, np.integer)):
        shape = (R.concretize(shape),)
    elif isinstance(shape, np.ndarray):
        shape = tuple(R.concretize(x) for x in shape.reshape(-1))
    else:
        shape = tuple(R.concretize(unarr(x)) for x in shape)
    if k in ("i", "b", "x") and not is_sym(v):
        return np.full(shape, v, dtype=real_dtype(dtype))
    out = np.empty(shape, dtype=object)
    v = arr(v)
    if v.ndim:
        out[...] = np.asarray(v)
    else:
        out.fill(v.item() if v.dtype == object else v[()])
    r = out.view(SArr)
    r._kind = k
    return r


def do_func(func, args, kwargs):
    if any(is_sparse(a) for a in args):
        raise Unsupported("numpy function %s on a sparse matrix" % func.__name__)
    if all(deep_concrete(a) for a in args) and all(deep_concrete(v) for v in kwargs.values()):
        return promote(func(*[deep_demote(a) for a in args], **fix_dtype({k: deep_demote(v) for k, v in kwargs.items()})))
    f = OVR.get(func)
    if f is not None:
        return f(*args, **kwargs)
    raise Unsupported("numpy function " + func.__name__)


# ----------------------------------------------------------------------------------------------
# proxy module
# ----------------------------------------------------------------------------------------------

def conc_deep(x):
    """replace integer-valued E by concretised ints (used for shape-like arguments)"""
    if isinstance(x, E):
        return R.concretize(x)
    if isinstance(x, (list, tuple)):
        return type(x)(conc_deep(y) for y in x)
    return x


def fix_dtype(kwargs):
    if "dtype" in kwargs:
        kwargs = dict(kwargs)
        kwargs["dtype"] = real_dtype(kwargs["dtype"])
    return kwargs


class Sub:
    def __init__(self, mod, table):
        self._mod = mod
        self._table = table

    def __getattr__(self, n):
        v = self._table.get(n)
        if v is not None:
            return v
        v = getattr(self._mod, n)
        if callable(v) and not isinstance(v, type):
            return wrap_func(v)
        return v


class UfuncProxy:
    def __init__(self, uf):
        self._uf = uf

    def __call__(self, *a, **kw):
        if any(is_sparse(x) for x in a):
            return ufunc_sparse(self._uf, *a)
        if any(has_sym(x) for x in a):
            return do_ufunc(self._uf, "__call__", *a, **kw)
        return self._uf(*a, **fix_dtype(kw))

    def __getattr__(self, n):
        if n in ("reduce", "outer", "accumulate"):
            def g(*a, **kw):
                if any(has_sym(x) for x in a):
                    return do_ufunc(self._uf, n, *[arr(x) for x in a], **kw)
                return getattr(self._uf, n)(*a, **fix_dtype(kw))
            return g
        return getattr(self._uf, n)


def ufunc_sparse(uf, *a):
    name = uf.__name__
    tab = {"multiply": "__mul__", "add": "__add__", "subtract": "__sub__", "matmul": "__matmul__"}
    if len(a) == 1:
        m = {"absolute": "__abs__", "negative": "__neg__", "conjugate": "conj"}.get(name)
        if m:
            return getattr(a[0], m)()
        if name in ("sqrt", "sin", "floor", "ceil", "rint", "sign", "trunc"):
            return getattr(a[0], name)()
    elif name in tab:
        if is_sparse(a[0]):
            return getattr(a[0], tab[name])(a[1])
        return getattr(a[1], "__r" + tab[name][2:])(a[0])
    raise Unsupported("ufunc %s on sparse" % name)


def wrap_func(f):
    def g(*args, **kwargs):
        if any(is_sparse(a) for a in args):
            h = SPARSE_FUNCS.get(f)
            if h is not None:
                return h(*args, **kwargs)
            # numpy wraps a sparse matrix in a 0-d object array
            if f in (np.squeeze, np.real, np.conj, np.transpose):
                return f(*args, **kwargs)
            raise Unsupported("numpy function %s on a sparse matrix" % f.__name__)
        if any(has_sym(a) for a in args) or any(has_sym(v) for v in kwargs.values()):
            return unarr(do_func(f, args, kwargs))
        return f(*args, **fix_dtype(kwargs))
    g.__name__ = getattr(f, "__name__", "f")
    return g


SPARSE_FUNCS = {
    np.sum: lambda m, axis=None, **kw: m.sum(axis),
    np.mean: lambda m, axis=None, **kw: m.mean(axis),
    np.shape: lambda m: m.shape,
    np.ndim: lambda m: 2,
    np.transpose: lambda m: m.transpose(),
}


def p_array(x, dtype=None, copy=True, ndmin=0, **kw):
    if is_sparse(x):
        z = np.empty((), dtype=object)
        z[()] = x
        return z
    if isinstance(x, range):
        x = list(x)
    if has_sym(x):
        a = arr(x)
        a = a.copy() if isinstance(x, SArr) else a
        if dtype is not None:
            a = a.astype(real_dtype(dtype))
        if kind_of(a) == "b":
            a = arr(a)
        while a.ndim < ndmin:
            a = a[None]
        return a
    r = np.array(x, dtype=real_dtype(dtype), ndmin=ndmin)
    return r


def p_asarray(x, dtype=None, **kw):
    if isinstance(x, SArr):
        if isinstance(x, SMat):
            x = x.A
        return x if dtype is None else x.astype(real_dtype(dtype))
    if isinstance(x, np.ndarray) and not is_sparse(x):
        return np.asarray(x, dtype=real_dtype(dtype))
    return p_array(x, dtype=dtype)


def p_zeros(shape, dtype=_float, **kw):
    return s_full(shape, np.float64(0.0), dtype)


def p_ones(shape, dtype=_float, **kw):
    return s_full(shape, np.float64(1.0), dtype)


def p_full(shape, v, dtype=None, **kw):
    return s_full(shape, v, dtype)


def p_eye(n, m=None, k=0, dtype=_float, **kw):
    n = R.concretize(n)
    return np.eye(n, m, k, dtype=real_dtype(dtype))


def p_like(v):
    def g(a, dtype=None, **kw):
        if dtype is None:
            dtype = kdt(a) if is_sym(a) else arr(a).dtype
        return s_full(arr(a).shape, np.float64(v), dtype)
    return g


def p_arange(*a, **kw):
    if any(is_sym(x) for x in a):
        return np_arange(*a, **kw)
    return np.arange(*a, **fix_dtype(kw))


def p_squeeze(a, axis=None):
    if is_sparse(a):
        z = np.empty((), dtype=object)
        z[()] = a
        return z
    if isinstance(a, SMat):
        return a
    if has_sym(a):
        r = np.squeeze(np.asarray(arr(a)), axis=axis)
        if r.ndim == 0:
            z = r.view(SArr)
            z._kind = kind_of(arr(a))
            return z if isinstance(a, np.ndarray) else unarr(z)
        return finish(r, kind_of(arr(a)))
    return np.squeeze(a, axis=axis)


def p_isscalar(x):
    return True if isinstance(x, E) else np.isscalar(x)


def p_indices_shape(f):
    def g(*a, **kw):
        return f(*conc_deep(a), **{k: conc_deep(v) for k, v in kw.items()})
    return g


def p_frompyfunc(f, i, o):
    raise Unsupported("frompyfunc")


class SVectorize:
    def __init__(self, f, *a, **kw):
        self.f = f

    def __call__(self, *args):
        aa = np.broadcast_arrays(*[np.asarray(arr(x)) for x in args])
        out = np.empty(aa[0].shape, dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = self.f(*[x[i] for x in aa])
        if any(isinstance(x, (E, B)) for x in out.flat):
            return finish(out, None)
        r = np.array(out.tolist())
        return r if r.ndim else r[()]


class NdarrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)

    def __getattr__(cls, n):
        def g(a, *args, **kw):
            return getattr(a, n)(*args, **kw)
        return g


class NdarrayProxy(metaclass=NdarrayMeta):
    pass


LA_TABLE = {n: None for n in ()}
for _n in ["det", "inv", "norm", "solve", "eigh", "eig", "svd", "eigvalsh", "matrix_rank", "eigvals", "qr"]:
    LA_TABLE[_n] = wrap_func(getattr(np.linalg, _n))


def la_hooked(n):
    real = getattr(np.linalg, n)
    w = wrap_func(real)

    def g(*a, **kw):
        h = HOOKS_LA.get(n)
        if h is not None:
            return h(*a, **kw)
        return w(*a, **kw)
    return g


for _n in ["eigh", "eig", "eigvalsh", "eigvals"]:
    LA_TABLE[_n] = la_hooked(_n)


class NP:
    """the module object executed code sees as numpy"""

    def __init__(self):
        self._c = {
            "array": p_array, "asarray": p_asarray, "asanyarray": p_asarray, "ascontiguousarray": p_asarray,
            "zeros": p_zeros, "empty": p_zeros, "ones": p_ones, "full": p_full, "eye": p_eye,
            "identity": lambda n, dtype=_float: p_eye(n, dtype=dtype),
            "zeros_like": p_like(0.0), "ones_like": p_like(1.0), "empty_like": p_like(0.0),
            "arange": p_arange, "squeeze": p_squeeze, "isscalar": p_isscalar, "ndarray": NdarrayProxy,
            "unravel_index": p_indices_shape(np.unravel_index), "vectorize": SVectorize,
            "ravel_multi_index": p_indices_shape(np.ravel_multi_index),
            "linalg": Sub(np.linalg, LA_TABLE), "frompyfunc": p_frompyfunc,
            "float64": SFloat, "complex128": SComplex, "int64": SInt, "float_": SFloat, "double": SFloat,
            "newaxis": None, "matmul": self.matmul,
        }

    @staticmethod
    def matmul(a, b, **kw):
        if is_sparse(a) or is_sparse(b):
            raise Unsupported("np.matmul on sparse")
        if has_sym(a) or has_sym(b):
            return do_ufunc(np.matmul, "__call__", arr(a), arr(b))
        return np.matmul(a, b)

    def __getattr__(self, n):
        c = self.__dict__["_c"]
        if n in c:
            return c[n]
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            v = UfuncProxy(v)
        elif isinstance(v, type):
            pass
        elif callable(v):
            v = wrap_func(v)
        c[n] = v
        return v


# ----------------------------------------------------------------------------------------------
# wiring
# ----------------------------------------------------------------------------------------------
E.__array_ufunc__ = None
R.HOOKS["func"] = lambda f, a, k: unarr(do_func(f, a, k))
R.HOOKS["ufunc"] = lambda uf, method, *a, **k: unarr(do_ufunc(uf, method, *a, **k))
R.HOOKS["foreign"] = foreign
R.HOOKS["round"] = lambda x, nd: np_round(x, nd)
R.HOOKS["arr0"] = arr
for _n, (_f, _k) in UN.items():
    pass
