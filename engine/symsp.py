"""
scipy.sparse for symbolic scalars.  SpM wraps a real scipy matrix (everything concrete) or a symbolic triplet list.
"""
import numpy as np
import scipy.sparse as sp
import scipy.linalg
from . import ring as R
from . import symnp as S
from .ring import E, B, Unsupported


def is_spm(x):
    return isinstance(x, SpM)


def dense_of(x):
    if isinstance(x, SpM):
        return x.toarray()
    return x


class SpM:
    is_spm = True
    __array_ufunc__ = None
    __array_priority__ = 1e7
    ndim = 2

    def __init__(self, m=None, shape=None, r=None, c=None, v=None, fmt="csr", kind=None):
        self._m = m
        if m is not None:
            self.shape = m.shape
            return
        self.shape = (int(shape[0]), int(shape[1]))
        self._fmt = fmt
        r, c = np.asarray(r, dtype=int).reshape(-1), np.asarray(c, dtype=int).reshape(-1)
        v = np.asarray(v, dtype=object).reshape(-1)
        keys = (c, r) if fmt != "csc" else (r, c)
        o = np.lexsort(keys)
        self._r, self._c = r[o], c[o]
        d = v[o].view(S.SArr)
        d._kind = kind or S.scan_kind(d)
        self._v = d

    # ---- construction helpers
    @staticmethod
    def from_dict(d, shape, fmt="csr", drop=True, kind=None):
        items = [(k, x) for k, x in d.items() if not drop or isinstance(x, E) or x != 0]
        if not any(isinstance(x, E) for _, x in items):
            return SpM(real_from(items, shape, fmt, kind))
        return SpM(shape=shape, r=[k[0] for k, _ in items], c=[k[1] for k, _ in items],
                   v=obj([x for _, x in items]), fmt=fmt, kind=kind)

    def is_concrete(self):
        return self._m is not None

    def dict(self):
        if self._m is not None:
            m = self._m.tocoo()
            out = {}
            for a, b, x in zip(m.row.tolist(), m.col.tolist(), m.data):
                out[(a, b)] = out[(a, b)] + x if (a, b) in out else x
            return out
        out = {}
        for a, b, x in zip(self._r.tolist(), self._c.tolist(), np.asarray(self._v)):
            out[(a, b)] = out[(a, b)] + x if (a, b) in out else x
        return out

    @property
    def format(self):
        return self._m.format if self._m is not None else self._fmt

    @property
    def dtype(self):
        if self._m is not None:
            return self._m.dtype
        return np.dtype(complex) if self._v._kind == "c" else np.dtype(float)

    @property
    def kind(self):
        if self._m is not None:
            return S.dkind(self._m.dtype)
        return S.kind_of(self._v)

    @property
    def nnz(self):
        return self._m.nnz if self._m is not None else len(self._r)

    @property
    def size(self):
        return self.nnz

    @property
    def data(self):
        return self._m.data if self._m is not None else self._v

    @data.setter
    def data(self, v):
        if self._m is not None:
            if S.has_sym(v):
                m = self._m.tocoo()
                self._fmt = self._m.format
                self._r, self._c = m.row, m.col
                self._v = S.to_sarr(v)
                self._m = None
            else:
                self._m.data = v
        else:
            self._v = S.to_sarr(v)

    @property
    def indices(self):
        if self._m is not None:
            return self._m.indices
        return self._c if self._fmt == "csr" else self._r

    @property
    def indptr(self):
        if self._m is not None:
            return self._m.indptr
        n, ix = (self.shape[0], self._r) if self._fmt == "csr" else (self.shape[1], self._c)
        return np.concatenate(([0], np.cumsum(np.bincount(ix, minlength=n))))

    @property
    def row(self):
        return self._m.row if self._m is not None else self._r

    @property
    def col(self):
        return self._m.col if self._m is not None else self._c

    def __getattr__(self, n):
        if n.startswith("__") or n in ("_m", "_fmt", "_v", "_r", "_c"):
            raise AttributeError(n)
        if self._m is not None:
            v = getattr(self._m, n)
            if callable(v):
                return lambda *a, **kw: wrap(v(*[unwrap(x) for x in a], **kw))
            return wrap(v)
        if not hasattr(sp.csr_matrix, n):
            raise AttributeError(n)
        raise Unsupported("sparse attribute " + n)

    # ---- formats
    def asformat(self, fmt, copy=False):
        if self._m is not None:
            return SpM(self._m.asformat(fmt, copy=copy))
        d = self.dict()
        return SpM.from_dict(d, self.shape, fmt, drop=False, kind=self.kind)

    def tocsr(self, copy=False):
        return self.asformat("csr")

    def tocsc(self, copy=False):
        return self.asformat("csc")

    def tocoo(self, copy=False):
        return self.asformat("coo")

    def tolil(self, copy=False):
        return self.asformat("lil")

    def todok(self, copy=False):
        return self.asformat("dok")

    def todia(self, copy=False):
        return self.asformat("dia") if self._m is not None else self.asformat("csr")

    def copy(self):
        if self._m is not None:
            return SpM(self._m.copy())
        return SpM(shape=self.shape, r=self._r.copy(), c=self._c.copy(), v=self._v.copy(), fmt=self._fmt, kind=self.kind)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def toarray(self, *a, **kw):
        if self._m is not None:
            return self._m.toarray()
        out = S.s_full(self.shape, np.float64(0.0), complex if self.kind == "c" else float)
        for (i, j), x in self.dict().items():
            out[i, j] = x
        return out

    def todense(self, *a, **kw):
        if self._m is not None:
            return self._m.todense()
        return S.wrap_mat(self.toarray())

    @property
    def A(self):
        return self.toarray()

    def astype(self, dt, *a, **kw):
        if self._m is not None:
            return SpM(self._m.astype(S.real_dtype(dt)))
        k = S.dkind(dt)
        if k == "f" and self.kind == "c":
            return self.map(R.real, "f")
        r = self.copy()
        r._v._kind = k
        return r

    def map(self, f, kind=None):
        return SpM.from_dict({k: f(x) for k, x in self.dict().items()}, self.shape, self.format, drop=False, kind=kind)

    # ---- shape ops
    def transpose(self, axes=None, copy=False):
        if self._m is not None:
            return SpM(self._m.transpose())
        f = {"csr": "csc", "csc": "csr"}.get(self._fmt, self._fmt)
        return SpM(shape=self.shape[::-1], r=self._c, c=self._r, v=self._v, fmt=f, kind=self.kind)

    @property
    def T(self):
        return self.transpose()

    @property
    def H(self):
        return self.conj().transpose()

    def getH(self):
        return self.conj().transpose()

    def conj(self, copy=True):
        if self._m is not None:
            return SpM(self._m.conj())
        return self.map(R.conj, self.kind)

    conjugate = conj

    @property
    def real(self):
        if self._m is not None:
            return SpM(self._m.real)
        return self.map(R.real, "f")

    @property
    def imag(self):
        if self._m is not None:
            return SpM(self._m.imag)
        return self.map(R.imag, "f")

    def diagonal(self, k=0):
        if self._m is not None:
            return self._m.diagonal(k)
        return np.diagonal(self.toarray(), k)

    def trace(self, offset=0):
        if self._m is not None:
            return self._m.trace(offset)
        return S.np_sum(self.diagonal(offset))

    def eliminate_zeros(self):
        if self._m is not None:
            self._m.eliminate_zeros()
            return
        keep = [n for n, x in enumerate(np.asarray(self._v)) if isinstance(x, E) or x != 0]
        k = self.kind
        self._r, self._c = self._r[keep], self._c[keep]
        self._v = self._v[keep]
        self._v._kind = k

    def sum_duplicates(self):
        pass

    def sort_indices(self):
        if self._m is not None:
            self._m.sort_indices()

    def nonzero(self):
        if self._m is not None:
            return self._m.nonzero()
        keep = [(k, x) for k, x in sorted(self.dict().items()) if bool(R.ne(x, 0))]
        return np.array([k[0] for k, _ in keep], dtype=int), np.array([k[1] for k, _ in keep], dtype=int)

    def count_nonzero(self):
        return len(self.nonzero()[0])

    def getnnz(self, axis=None):
        if self._m is not None:
            return self._m.getnnz(axis)
        if axis is None:
            return self.nnz
        return np.bincount(self._c if axis == 0 else self._r, minlength=self.shape[1 - axis])

    def sum(self, axis=None, *a, **kw):
        if self._m is not None:
            return self._m.sum(axis)
        d = self.toarray()
        if axis is None:
            return S.np_sum(d)
        return S.wrap_mat(S.np_sum(d, axis=axis, keepdims=True))

    def mean(self, axis=None, **kw):
        if self._m is not None:
            return self._m.mean(axis)
        raise Unsupported("sparse mean")

    def max(self, axis=None, **kw):
        if self._m is not None:
            return wrap(self._m.max(axis))
        if axis is not None:
            raise Unsupported("sparse max axis")
        return S.np_extreme(self.toarray(), R.maximum)

    def min(self, axis=None, **kw):
        if self._m is not None:
            return wrap(self._m.min(axis))
        if axis is not None:
            raise Unsupported("sparse min axis")
        return S.np_extreme(self.toarray(), R.minimum)

    def reshape(self, *sh, **kw):
        if self._m is not None:
            return SpM(self._m.reshape(*sh, **kw))
        raise Unsupported("sparse reshape")

    def setdiag(self, v, k=0):
        if self._m is not None and not S.has_sym(v):
            self._m.setdiag(v, k)
            return
        raise Unsupported("setdiag")

    # ---- indexing
    def __getitem__(self, idx):
        idx = S.conc_index(idx)
        if self._m is not None:
            return wrap(self._m[idx])
        i, j = idx if isinstance(idx, tuple) else (idx, slice(None))
        d = self.toarray()
        k = d._kind
        isint = lambda x: isinstance(x, (int, np.integer))
        if isint(i) and isint(j):
            return d[i, j]
        r = np.ndarray.__getitem__(d, (i, j))
        if isint(i):
            r = r.reshape(1, -1)
        elif isint(j):
            r = r.reshape(-1, 1)
        if r.ndim == 1:
            r = r.reshape(1, -1)
            return S.wrap_mat(r)
        r._kind = k
        return from_dense(r, self._fmt)

    def __setitem__(self, idx, v):
        idx = S.conc_index(idx)
        if isinstance(v, SpM):
            if self._m is not None and v._m is not None:
                self._m[idx] = v._m
                return
            v = v.toarray()
        if isinstance(v, np.ndarray) and v.dtype == object and not any(isinstance(x, E) for x in v.flat):
            v = np.array(v.tolist())
        if self._m is not None and not S.has_sym(v):
            if isinstance(v, (complex, np.complexfloating)) and self._m.dtype.kind == "f":
                v = v.real
            self._m[idx] = v
            return
        d = S.to_sarr(self.toarray())
        if not (isinstance(idx, tuple)):
            idx = (idx, slice(None))
        k = self.kind
        d = d.copy()
        d._kind = k
        if isinstance(v, np.ndarray) and not isinstance(v, S.SArr):
            v = S.to_sarr(v)
        if isinstance(v, np.ndarray):
            tgt = np.ndarray.__getitem__(d, idx)
            if v.shape != tgt.shape and v.size == tgt.size:
                v = v.reshape(tgt.shape)
        d[idx] = v
        n = from_dense(d, self.format)
        self._m = n._m
        if n._m is None:
            self._fmt, self._r, self._c, self._v = n._fmt, n._r, n._c, n._v

    def getrow(self, i):
        return self[i, :]

    def getcol(self, j):
        return self[:, j]

    def __len__(self):
        raise TypeError("sparse matrix length is ambiguous; use getnnz()")

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i, :]

    def __bool__(self):
        if self.shape == (1, 1):
            return self.nnz != 0
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all().")

    # ---- arithmetic
    def _concrete_with(self, o):
        return self._m is not None and not S.has_sym(o) and not (isinstance(o, SpM) and o._m is None)

    def __add__(self, o):
        if self._concrete_with(o):
            return wrap(self._m + unwrap(o))
        if isinstance(o, SpM):
            if o.shape != self.shape:
                raise ValueError("inconsistent shapes")
            d = self.dict()
            for k, x in o.dict().items():
                d[k] = d[k] + x if k in d else x
            return SpM.from_dict(d, self.shape, binfmt(self, o))
        if isinstance(o, np.ndarray) and o.ndim:
            return S.wrap_mat(S.do_ufunc(np.add, "__call__", S.arr(self.toarray()), S.arr(o)))
        o = S.unarr(o)
        if not isinstance(o, E) and o == 0:
            return self.copy()
        raise NotImplementedError("adding a nonzero scalar to a sparse array is not supported")

    __radd__ = __add__

    def __neg__(self):
        if self._m is not None:
            return SpM(-self._m)
        return self.map(R.neg, self.kind)

    def __sub__(self, o):
        if self._concrete_with(o):
            return wrap(self._m - unwrap(o))
        if isinstance(o, SpM):
            return self + (-o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            o = S.arr(o)
        if isinstance(o, SpM) or (isinstance(o, np.ndarray) and o.ndim > 0):
            return self.__matmul__(o)
        return self._scale(o)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            o = S.arr(o)
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return self.__rmatmul__(o)
        return self._scale(o)

    def _scale(self, o):
        o = S.unarr(o)
        if isinstance(o, np.ndarray):
            o = o[()]
        if isinstance(o, B):
            o = float(bool(o))
        if o is None or isinstance(o, str):
            return NotImplemented
        if self._m is not None and not isinstance(o, E):
            return wrap(self._m * o)
        k = "c" if self.kind == "c" or S.scalar_kind(o) == "c" else "f"
        f = {"lil": "lil", "dok": "dok"}.get(self.format, self.format)
        if f == "dia":
            f = "csr"
        return SpM.from_dict({kk: R.mul(x, o) for kk, x in self.dict().items()}, self.shape, f, drop=False, kind=k)

    def __truediv__(self, o):
        o = S.unarr(o)
        if isinstance(o, SpM) or (isinstance(o, np.ndarray) and o.ndim):
            if self._concrete_with(o):
                return wrap(self._m / unwrap(o))
            raise Unsupported("sparse elementwise division")
        if self._m is not None and not isinstance(o, E):
            return wrap(self._m / o)
        return self.map(lambda x: R.divide(x, o))

    def __matmul__(self, o):
        if isinstance(o, (E,)) or np.isscalar(o):
            return self._scale(o)
        if self._concrete_with(o):
            return wrap(self._m @ unwrap(o))
        if isinstance(o, SpM):
            if self.shape[1] != o.shape[0]:
                raise ValueError("dimension mismatch")
            rows = {}
            for (i, j), x in o.dict().items():
                rows.setdefault(i, []).append((j, x))
            acc = {}
            for (i, k), x in self.dict().items():
                for j, y in rows.get(k, ()):
                    p = x * y
                    q = acc.get((i, j))
                    acc[(i, j)] = p if q is None else q + p
            return SpM.from_dict(acc, (self.shape[0], o.shape[1]), "csc" if self.format == "csc" else "csr",
                                 kind="c" if "c" in (self.kind, o.kind) else None)
        o = S.arr(o)
        mat = isinstance(o, (S.SMat, np.matrix))
        oo = np.asarray(o)
        if oo.shape[0] != self.shape[1]:
            raise ValueError("dimension mismatch")
        o2 = oo.reshape(oo.shape[0], -1)
        out = np.empty((self.shape[0], o2.shape[1]), dtype=object)
        out.fill(np.float64(0.0))
        for (i, k), x in self.dict().items():
            for j in range(o2.shape[1]):
                y = o2[k, j]
                if not isinstance(y, E) and y == 0:
                    continue
                out[i, j] = out[i, j] + x * y
        out = out.reshape((self.shape[0],) + oo.shape[1:])
        k = "c" if "c" in (self.kind, S.kind_of(o)) else "f"
        r = S.finish(out, k)
        return S.wrap_mat(r) if mat else r

    def __rmatmul__(self, o):
        if self._concrete_with(o):
            return wrap(unwrap(o) @ self._m)
        o = S.arr(o)
        if o.ndim == 1:
            return self.transpose().__matmul__(o)
        r = self.transpose().__matmul__(o.T)
        return r.T

    def dot(self, o):
        if isinstance(o, (E,)) or np.isscalar(o):
            return self._scale(o)
        if isinstance(o, (list, tuple)):
            o = S.arr(o)
        return self.__matmul__(o)

    def __pow__(self, n):
        if self._m is not None:
            return wrap(self._m ** n)
        r = SpM(sp.eye(self.shape[0]).tocsr())
        for _ in range(int(n)):
            r = r @ self
        return r

    def power(self, n, dtype=None):
        if self._m is not None:
            return wrap(self._m.power(n))
        return self.map(lambda x: R.power(x, n))

    def multiply(self, o):
        if isinstance(o, (list, tuple)):
            o = S.arr(o)
        if isinstance(o, (E,)) or np.isscalar(o) or (isinstance(o, np.ndarray) and o.ndim == 0):
            return self._scale(o)
        if self._concrete_with(o):
            return wrap(self._m.multiply(unwrap(o)))
        d = self.dict()
        if isinstance(o, SpM):
            od = o.dict()
            osh = o.shape
        else:
            o2 = np.atleast_2d(np.asarray(S.arr(o)))
            osh = o2.shape
            od = {(i, j): o2[i, j] for i in range(osh[0]) for j in range(osh[1])}
        sh = np.broadcast_shapes(self.shape, osh)
        out = {}
        for i in range(sh[0]):
            for j in range(sh[1]):
                a = d.get((i if self.shape[0] > 1 else 0, j if self.shape[1] > 1 else 0))
                b = od.get((i if osh[0] > 1 else 0, j if osh[1] > 1 else 0))
                if a is not None and b is not None:
                    out[(i, j)] = a * b
        return SpM.from_dict(out, sh, "csr" if isinstance(o, SpM) else "coo")

    def maximum(self, o):
        raise Unsupported("sparse maximum")

    def __abs__(self):
        if self._m is not None:
            return SpM(abs(self._m))
        return self.map(R.absolute, "f")

    # ---- comparison
    def _cmp(self, o, f, name):
        if self._concrete_with(o):
            return wrap(getattr(self._m, name)(unwrap(o)))
        if o is None:
            return name == "__ne__"
        a = self.toarray()
        b = dense_of(o)
        r = S.binary(f, S.arr(a), S.arr(b), "b")
        return from_dense(S.to_sarr(S.force_bool(S.arr(r)).astype(float)), "csr")

    def __eq__(self, o):
        return self._cmp(o, R.eq, "__eq__")

    def __ne__(self, o):
        return self._cmp(o, R.ne, "__ne__")

    def __lt__(self, o):
        return self._cmp(o, R.lt, "__lt__")

    def __gt__(self, o):
        return self._cmp(o, R.gt, "__gt__")

    def __le__(self, o):
        return self._cmp(o, R.le, "__le__")

    def __ge__(self, o):
        return self._cmp(o, R.ge, "__ge__")

    __hash__ = None

    def __repr__(self):
        return "<SpM %s %s>" % (self.shape, "concrete" if self._m is not None else "symbolic")


def obj(xs):
    v = np.empty(len(xs), dtype=object)
    for n, x in enumerate(xs):
        v[n] = x
    return v


def real_from(items, shape, fmt, kind=None):
    vals = [S.bool2num(x) for _, x in items]
    a = np.array(vals) if vals else np.zeros(0)
    if kind == "c":
        a = a.astype(complex)
    if a.dtype == object or a.dtype == bool:
        a = a.astype(complex if any(np.iscomplexobj(x) for x in vals) else float)
    m = sp.coo_matrix((a, ([k[0] for k, _ in items], [k[1] for k, _ in items])), shape=shape)
    if fmt == "dia":
        fmt = "csr"
    return m.asformat(fmt) if fmt != "coo" else m


def binfmt(a, b):
    return "csc" if a.format == "csc" else ("csr" if a.format in ("csr", "coo", "dia", "lil", "bsr", "dok") else "csr")


def from_dense(d, fmt="csr"):
    d = S.arr(d)
    k = d._kind if isinstance(d, S.SArr) else None
    a = np.asarray(d)
    if a.ndim == 1:
        a = a.reshape(1, -1)
    if a.ndim == 0:
        a = a.reshape(1, 1)
    dd = {}
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            x = a[i, j]
            if isinstance(x, B):
                x = float(bool(x))
            if isinstance(x, E) or x != 0:
                dd[(i, j)] = x
    return SpM.from_dict(dd, a.shape, fmt, kind=k if k in ("f", "c") else None)


def wrap(x):
    if sp.issparse(x):
        return SpM(x)
    return x


def unwrap(x):
    if isinstance(x, SpM):
        if x._m is None:
            raise Unsupported("symbolic sparse matrix handed to scipy")
        return x._m
    if isinstance(x, S.SArr):
        return deconcrete(x)
    if isinstance(x, (list, tuple)):
        return type(x)(unwrap(y) for y in x)
    return x


def deconcrete(a):
    """SArr without symbolic content -> machine array"""
    if any(isinstance(x, (E, B)) for x in np.asarray(a).flat):
        raise Unsupported("symbolic array handed to scipy")
    k = S.kind_of(a)
    dt = {"f": float, "c": complex, "i": int, "b": bool}[k or "f"]
    return np.array(np.asarray(a).tolist(), dtype=dt).reshape(a.shape)


def all_concrete(a):
    return not any(isinstance(x, (E, B)) for x in np.asarray(a).flat)


# make has_sym see symbolic content of concrete-valued SArr precisely
def _has_sym_sp(o):
    return S.has_sym(o)


class _MSp(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SpM) and (cls.fmt is None or x.format == cls.fmt)

    def __getattr__(cls, n):
        def g(a, *args, **kw):
            return getattr(a, n)(*args, **kw)
        return g

    def __call__(cls, a, shape=None, dtype=None, copy=False):
        return construct(cls, a, shape, dtype)


def construct(cls, a, shape, dtype):
    fmt = cls.fmt
    real = cls.real
    dtype = S.real_dtype(dtype)
    shape = S.conc_deep(shape) if shape is not None else None
    if isinstance(a, SpM):
        r = a.asformat(fmt, copy=True)
        r = r if r is not a else r.copy()
        return r if dtype is None else r.astype(dtype)
    if isinstance(a, (E,)) or (isinstance(a, np.ndarray) and a.dtype == object and not isinstance(a, S.SArr)
                               and a.ndim == 0 and isinstance(a.item(), SpM)):
        if isinstance(a, E):
            return from_dense(S.arr(a).reshape(1, 1), fmt)
        return construct(cls, a.item(), shape, dtype)
    if isinstance(a, tuple):
        if len(a) == 2 and not isinstance(a[0], (tuple, list, np.ndarray)) and not isinstance(a[1], (tuple, list, np.ndarray)):
            sh = S.conc_deep(a)
            return SpM(real(sh, dtype=dtype))
        if S.has_sym(a):
            conv = lambda x: deconcrete(x) if isinstance(x, S.SArr) and all_concrete(x) else x
            a = tuple(tuple(conv(z) for z in y) if isinstance(y, (tuple, list)) and not has_E(y) and len(a) == 2
                      and isinstance(y, tuple) else conv(y) for y in a)
        if S.has_sym(a):
            if len(a) == 2 and isinstance(a[1], (tuple, list)):
                v, (i, j) = a
                i = S.index_array(S.arr(i)) if S.is_sym(S.arr(i)) else np.asarray(i)
                j = S.index_array(S.arr(j)) if S.is_sym(S.arr(j)) else np.asarray(j)
            elif len(a) == 3:
                v, ind, ptr = a
                ind = S.index_array(S.arr(ind)) if S.is_sym(S.arr(ind)) else np.asarray(ind)
                ptr = np.asarray(ptr)
                maj = np.repeat(np.arange(len(ptr) - 1), np.diff(ptr))
                i, j = (maj, ind) if fmt == "csr" else (ind, maj)
                if shape is None:
                    mx = int(ind.max()) + 1
                    shape = (len(ptr) - 1, mx) if fmt == "csr" else (mx, len(ptr) - 1)
            else:
                raise Unsupported("sparse constructor")
            v = np.asarray(S.arr(v)).reshape(-1)
            if shape is None:
                shape = (int(np.max(i)) + 1, int(np.max(j)) + 1)
            d = {}
            for p, q, x in zip(i.tolist(), j.tolist(), v):
                if p >= shape[0] or q >= shape[1]:
                    raise ValueError("row index exceeds matrix dimensions")
                d[(p, q)] = d[(p, q)] + x if (p, q) in d else x
            return SpM.from_dict(d, shape, fmt, drop=False)
        return SpM(real(a, shape=shape, dtype=dtype))
    if S.has_sym(a):
        r = from_dense(S.arr(a), fmt)
        return r if dtype is None else r.astype(dtype)
    return SpM(real(a, shape=shape, dtype=dtype))


def has_E(x):
    if isinstance(x, (E, B)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_E(y) for y in x)
    return False


def mkcls(name, fmt, real):
    return _MSp(name, (), {"fmt": fmt, "real": real})


csr_matrix = mkcls("csr_matrix", "csr", sp.csr_matrix)
csc_matrix = mkcls("csc_matrix", "csc", sp.csc_matrix)
coo_matrix = mkcls("coo_matrix", "coo", sp.coo_matrix)
lil_matrix = mkcls("lil_matrix", "lil", sp.lil_matrix)
dok_matrix = mkcls("dok_matrix", "dok", sp.dok_matrix)
spmatrix = mkcls("spmatrix", None, sp.csr_matrix)


def p_eye(m, n=None, k=0, dtype=float, format=None):
    m = R.concretize(m)
    n = m if n is None else R.concretize(n)
    return SpM(sp.eye(m, n, k, dtype=S.real_dtype(dtype), format=format))


def p_identity(n, dtype=float, format=None):
    return p_eye(n, dtype=dtype, format=format)


def p_diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if not S.has_sym(diagonals):
        return SpM(sp.diags(diagonals, offsets, shape=shape, format=format, dtype=S.real_dtype(dtype)))
    if isinstance(diagonals, np.ndarray) and diagonals.ndim == 1 and np.isscalar(offsets):
        diagonals = [diagonals]
        offsets = [offsets]
    elif np.isscalar(offsets):
        if isinstance(diagonals, (list, tuple)) and not isinstance(diagonals[0], (list, tuple, np.ndarray)):
            diagonals = [S.arr(diagonals)]
        offsets = [offsets]
    ds = [np.asarray(S.arr(d)).reshape(-1) for d in diagonals]
    if shape is None:
        n = len(ds[0]) + abs(int(offsets[0]))
        shape = (n, n)
    dd = {}
    for d, o in zip(ds, offsets):
        o = int(o)
        L = min(shape[0] + min(o, 0), shape[1] - max(o, 0))
        for t in range(L):
            x = d[t] if len(d) > 1 else d[0]
            i, j = (t, t + o) if o >= 0 else (t - o, t)
            dd[(i, j)] = dd[(i, j)] + x if (i, j) in dd else x
    return SpM.from_dict(dd, shape, format or "csr", drop=False)


def as_spm(x):
    if isinstance(x, SpM):
        return x
    return construct(coo_matrix, x, None, None)


def p_kron(a, b, format=None):
    a, b = as_spm(a), as_spm(b)
    if a._m is not None and b._m is not None:
        return SpM(sp.kron(a._m, b._m, format=format))
    out = {}
    bd = b.dict()
    for (i, j), x in a.dict().items():
        for (k, l), y in bd.items():
            out[(i * b.shape[0] + k, j * b.shape[1] + l)] = x * y
    return SpM.from_dict(out, (a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), format or "coo", drop=False)


def p_stack(axis):
    def g(blocks, format=None, dtype=None):
        bs = [as_spm(b) for b in blocks]
        if all(b._m is not None for b in bs):
            f = sp.hstack if axis else sp.vstack
            return SpM(f([b._m for b in bs], format=format))
        out, off = {}, 0
        for b in bs:
            for (i, j), x in b.dict().items():
                out[(i, j + off) if axis else (i + off, j)] = x
            off += b.shape[axis]
        sh = (bs[0].shape[0], off) if axis else (off, bs[0].shape[1])
        return SpM.from_dict(out, sh, format or "coo", drop=False)
    return g


def p_block_diag(mats, format=None, dtype=None):
    bs = [as_spm(b) for b in mats]
    out, p, q = {}, 0, 0
    for b in bs:
        for (i, j), x in b.dict().items():
            out[(i + p, j + q)] = x
        p, q = p + b.shape[0], q + b.shape[1]
    return SpM.from_dict(out, (p, q), format or "coo", drop=False)


def p_find(a):
    if a._m is not None:
        return sp.find(a._m)
    i, j = a.nonzero()
    d = a.dict()
    return i, j, S.to_sarr([d[(p, q)] for p, q in zip(i.tolist(), j.tolist())])


class SP:
    def __init__(self):
        self.linalg = SPLA()
        self._c = {
            "csr_matrix": csr_matrix, "csc_matrix": csc_matrix, "coo_matrix": coo_matrix, "lil_matrix": lil_matrix,
            "dok_matrix": dok_matrix, "spmatrix": spmatrix, "eye": p_eye, "identity": p_identity, "diags": p_diags,
            "kron": p_kron, "hstack": p_stack(1), "vstack": p_stack(0), "block_diag": p_block_diag, "find": p_find,
            "issparse": is_spm, "isspmatrix": is_spm,
            "isspmatrix_csr": lambda x: is_spm(x) and x.format == "csr",
            "isspmatrix_csc": lambda x: is_spm(x) and x.format == "csc",
            "isspmatrix_coo": lambda x: is_spm(x) and x.format == "coo",
        }

    def __getattr__(self, n):
        c = self.__dict__.get("_c", {})
        if n in c:
            return c[n]
        getattr(sp, n)
        raise Unsupported("scipy.sparse." + n)


HOOKS = {}


class SPLA:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def g(*a, **kw):
            h = HOOKS.get(n)
            if h is not None:
                return h(*a, **kw)
            import scipy.sparse.linalg as spl
            return wrap(getattr(spl, n)(*[unwrap(x) for x in a], **kw))
        return g


class SCLA:
    """scipy.linalg"""
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def g(*a, **kw):
            h = HOOKS.get(n)
            if h is not None:
                return h(*a, **kw)
            return wrap(getattr(scipy.linalg, n)(*[unwrap(x) for x in a], **kw))
        return g
