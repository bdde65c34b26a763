"""
Scalar domain of the symbolic executor.

E : Laurent polynomial  sum_k c_k * prod_a a^{e}  with complex coefficients over interned atoms.
    Atoms are harness variables (real / integer, with a box), or defined quantities of other terms:
    exp[m], phase[m] = exp(i m), inv[D] = 1/D, sqrt[X], abs[x], floor[x], rint[x], arg[z], log[x].
B : boolean formula over E, forked on when the executed code branches on it.
Path : one run of the executed code; decisions are taken by z3 (with a concrete witness as accelerator).
"""
import math
import time
import random
from fractions import Fraction
import numpy as np
import z3

_float = float
_int = int
_complex = complex
_bool = bool


class Unsupported(Exception):
    """the executed code does something the encoder has no meaning for"""


class PathAbort(BaseException):
    """this path is infeasible, or the exploration budget ran out"""
    def __init__(self, why):
        BaseException.__init__(self, why)
        self.why = why


DROP = 1e-14          # coefficients below this are rounding residue of the real-arithmetic idealisation
SNAP = 1e-9           # two coefficients closer than this (relative) are the same real number

# ----------------------------------------------------------------------------------------------
# atoms
# ----------------------------------------------------------------------------------------------


class Atom:
    __slots__ = ("id", "kind", "name", "key", "real", "pos", "nonneg", "nonzero", "lo", "hi", "isint", "red",
                 "base", "_z", "_zinv", "_zfrac")

    def __init__(self, kind, name, key=None, real=True, pos=False, nonneg=False, nonzero=False, lo=None, hi=None,
                 isint=False, red=False, base=False):
        self.kind = kind
        self.name = name
        self.key = key
        self.real = real
        self.pos = pos
        self.nonneg = nonneg or pos
        self.nonzero = nonzero or pos
        self.lo = lo
        self.hi = hi
        self.isint = isint
        self.red = red
        self.base = base
        self.id = len(ATOMS)
        ATOMS.append(self)
        self._z = None
        self._zinv = None
        self._zfrac = {}


ATOMS = []
INTERN = {}


def reset_atoms():
    ATOMS.clear()
    INTERN.clear()
    XSNAP.clear()


XSNAP = {}


def xsnap(e):
    """exponents that differ by rounding only are one exponent"""
    r = round(e)
    if abs(e - r) < 1e-11:
        return r
    if e < 0:
        return -xsnap(-e)
    k = _int(e * 1e10)
    for q in (k, k - 1, k + 1):
        v = XSNAP.get(q)
        if v is not None and abs(v - e) < 3e-11:
            return v
    XSNAP[k] = e
    return e


def intern(kind, key, make):
    k = (kind, key)
    a = INTERN.get(k)
    if a is None:
        a = make()
        INTERN[k] = a
    return a


# ----------------------------------------------------------------------------------------------
# monomials: tuple of (atom id, exponent), sorted by id
# ----------------------------------------------------------------------------------------------
ONE = ()


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x = a[i]
        y = b[j]
        if x[0] < y[0]:
            out.append(x)
            i += 1
        elif x[0] > y[0]:
            out.append(y)
            j += 1
        else:
            e = x[1] + y[1]
            if type(e) is _float:
                e = xsnap(e)
            if e != 0:
                out.append((x[0], e))
            i += 1
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


def mono_pow(a, n):
    if n == 0:
        return ONE
    out = []
    for i, e in a:
        v = e * n
        if type(v) is not _int:
            v = xsnap(v)
        out.append((i, v))
    return tuple(out)


def mono_needs_red(m):
    for i, e in m:
        a = ATOMS[i]
        if a.red:
            k = a.kind
            if k == "inv":
                if e < 0:
                    return True
            elif e >= 2 or e < 0:
                return True
    return False


def _norm_coef(c):
    if type(c) is _complex:
        if c.imag == 0:
            return c.real
        m = abs(c.real) + abs(c.imag)
        if abs(c.imag) < 1e-15 * m:
            return c.real
        if abs(c.real) < 1e-15 * m:
            return _complex(0.0, c.imag)
    return c


NUM = (_int, _float, _complex, np.number, np.bool_, _bool)


def pynum(x):
    """a python float or complex from any number"""
    if type(x) is _float or type(x) is _int:
        return _float(x)
    c = _complex(x)
    return c.real if c.imag == 0 else c


def out_num(c):
    if type(c) is _complex:
        return np.complex128(c)
    return np.float64(c)


def mk(t):
    """normalised value of a term dictionary: a number if constant, else an E"""
    if not t:
        return np.float64(0.0)
    dead = [m for m, c in t.items() if abs(c) < DROP]
    for m in dead:
        del t[m]
    if not t:
        return np.float64(0.0)
    if len(t) == 1 and ONE in t:
        return out_num(t[ONE])
    return E(t)


def is_special(c):
    """inf or nan"""
    if type(c) is _complex:
        return not (math.isfinite(c.real) and math.isfinite(c.imag))
    return not math.isfinite(c)


def lift(x):
    """terms of a number or E"""
    if isinstance(x, E):
        return x.t
    c = pynum(x)
    if c == 0:
        return {}
    return {ONE: c}


def reduce_terms(t):
    """rewrite powers of defined atoms (s^2 -> X, r^-1 -> D, |x|^2 -> x^2)"""
    work = [m for m in t if mono_needs_red(m)]
    if not work:
        return t
    res = {m: c for m, c in t.items() if m not in set(work)}
    for m in work:
        c = t[m]
        keep = []
        extra = []
        for i, e in m:
            a = ATOMS[i]
            if a.red:
                if a.kind == "inv" and e < 0:
                    extra.append((a.key, -e))
                    continue
                if a.kind in ("sqrt", "abs") and (e >= 2 or e < 0):
                    if e != int(e):
                        keep.append((i, e))
                        continue
                    e = int(e)
                    q, r = divmod(e, 2)
                    if r:
                        keep.append((i, 1))
                    sq = a.key if a.kind == "sqrt" else mul(a.key, a.key)
                    extra.append((sq, q))
                    continue
            keep.append((i, e))
        v = mk({tuple(keep): c})
        for x, q in extra:
            v = mul(v, power(x, q))
        for mm, cc in lift(v).items():
            res[mm] = res.get(mm, 0) + cc
    return {m: c for m, c in res.items() if c != 0}


def add(a, b):
    ea, eb = isinstance(a, E), isinstance(b, E)
    if not ea and not eb:
        return a + b
    if not eb:
        cb = pynum(b)
        if cb == 0:
            return a
        if is_special(cb):
            return b
    elif not ea:
        ca = pynum(a)
        if ca == 0:
            return b
        if is_special(ca):
            return a
    ta, tb = lift(a), lift(b)
    if len(ta) < len(tb):
        ta, tb = tb, ta
    t = dict(ta)
    for m, c in tb.items():
        o = t.get(m)
        if o is None:
            t[m] = c
        else:
            s = o + c
            if abs(s) < DROP or abs(s) < 1e-15 * abs(o):
                del t[m]
            else:
                t[m] = _norm_coef(s)
    return mk(t)


def neg(a):
    if not isinstance(a, E):
        return -a
    return E({m: -c for m, c in a.t.items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    ea, eb = isinstance(a, E), isinstance(b, E)
    if not ea and not eb:
        return a * b
    if not ea:
        a, b = b, a
        ea, eb = eb, ea
    if not eb:
        c = pynum(b)
        if c == 0:
            return np.float64(0.0)
        if is_special(c):
            return mul_special(a, b)
        if c == 1:
            return a
        return mk({m: _norm_coef(x * c) for m, x in a.t.items()})
    t = {}
    need = False
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mono_mul(m1, m2)
            t[m] = t.get(m, 0) + c1 * c2
    for m in t:
        if mono_needs_red(m):
            need = True
            break
    if need:
        t = reduce_terms(t)
    return mk({m: _norm_coef(c) for m, c in t.items()})


def mul_special(a, c):
    """symbolic times inf or nan with IEEE meaning"""
    cc = pynum(c)
    if type(cc) is _complex:
        raise Unsupported("symbolic times complex infinity")
    if math.isnan(cc):
        return np.float64("nan")
    if not is_real(a):
        raise Unsupported("complex symbolic times infinity")
    if bool(eq(a, 0)):
        return np.float64("nan")
    return np.float64(cc) if bool(gt(a, 0)) else np.float64(-cc)


def mono_gcd(t):
    """largest monomial dividing all terms (over nonzero atoms, negative exponents allowed)"""
    it = iter(t)
    first = next(it)
    g = dict(first)
    for m in it:
        d = dict(m)
        for i in list(g):
            e = min(g[i], d.get(i, 0))
            g[i] = e
        for i, e in d.items():
            if i not in g and e < 0:
                g[i] = e
    return tuple(sorted((i, e) for i, e in g.items() if e != 0 and ATOMS[i].nonzero))


def lead(t):
    return min(t, key=lambda m: (len(m), m))


def key_of(t):
    return tuple(sorted((m, (round(_complex(c).real, 11), round(_complex(c).imag, 11))) for m, c in t.items()))


def conj(a):
    if not isinstance(a, E):
        return np.conjugate(a)
    t = {}
    changed = False
    for m, c in a.t.items():
        if any(not ATOMS[i].real for i, _ in m):
            m = tuple((i, e if ATOMS[i].real else -e) for i, e in m)
            changed = True
        if type(c) is _complex:
            c = c.conjugate()
            changed = True
        t[m] = t.get(m, 0) + c
    return E(t) if changed else a


def is_real(a):
    if not isinstance(a, E):
        return not (np.iscomplexobj(a) and np.imag(a) != 0)
    r = a._real
    if r is None:
        c = conj(a)
        if c is a:
            r = True
        else:
            d = sub(a, c)
            r = (not isinstance(d, E)) and abs(d) < 1e-12
        a._real = r
    return r


def real(a):
    if not isinstance(a, E):
        return np.real(a)
    if is_real(a):
        return a
    return mul(add(a, conj(a)), 0.5)


def imag(a):
    if not isinstance(a, E):
        return np.imag(a)
    if is_real(a):
        return np.float64(0.0)
    return mul(sub(a, conj(a)), -0.5j)


def sure_pos(a):
    """syntactic proof of a > 0"""
    if not isinstance(a, E):
        return is_real(a) and a > 0
    if not is_real(a):
        return False
    strict = False
    for m, c in a.t.items():
        if type(c) is _complex or c < 0:
            return False
        p = True
        for i, e in m:
            at = ATOMS[i]
            if not at.real:
                return False
            if at.pos:
                continue
            if at.nonneg or (type(e) is _int and e % 2 == 0):
                if not at.nonzero:
                    p = False
                continue
            return False
        strict = strict or p
    return strict


def sure_nonneg(a):
    if not isinstance(a, E):
        return is_real(a) and a >= 0
    if not is_real(a):
        return False
    negs = []
    for m, c in a.t.items():
        if type(c) is _complex:
            return False
        if c < 0:
            negs.append(m)
        for i, e in m:
            at = ATOMS[i]
            if not at.real or not (at.nonneg or (type(e) is _int and e % 2 == 0)):
                return False
    if not negs:
        return True
    if len(negs) > 40:
        return False
    # every negative term has to be dominated by positive ones: p/(p + ...) <= 1
    left = {m: c for m, c in a.t.items() if c > 0}
    for m in negs:
        need = -a.t[m]
        for p in left:
            if left[p] <= 0:
                continue
            b = _ratio_bound(mono_mul(m, mono_pow(p, -1)))
            if b is None:
                continue
            use = min(need, left[p] / b)
            left[p] -= use * b
            need -= use
            if need <= 1e-12 * -a.t[m]:
                break
        else:
            return False
    return True


def _ratio_bound(q):
    """upper bound of a monomial p/(...+c p+...) with positive terms only"""
    inv = [(i, e) for i, e in q if ATOMS[i].kind == "inv"]
    if len(inv) != 1 or inv[0][1] != 1:
        return None
    rest = tuple((i, e) for i, e in q if ATOMS[i].kind != "inv")
    key = ATOMS[inv[0][0]].key
    if not isinstance(key, E):
        return None
    for m, c in key.t.items():
        if type(c) is _complex or c < 0 or not all(ATOMS[i].pos for i, _ in m):
            return None
    c = key.t.get(rest)
    return 1 / c if c else None


def sure_nonzero(a):
    if not isinstance(a, E):
        return a != 0
    if len(a.t) == 1:
        (m,) = a.t
        return all(ATOMS[i].nonzero for i, _ in m)
    return sure_pos(a) or sure_pos(neg(a))


def inverse(a):
    """1/a for a symbolic a already known to be nonzero"""
    t = a.t
    if len(t) == 1:
        ((m, c),) = t.items()
        if all(ATOMS[i].nonzero or ATOMS[i].kind in ("inv",) for i, _ in m) \
                and not any(ATOMS[i].kind in ("sqrt", "abs") for i, _ in m):
            r = {mono_pow(m, -1): 1 / c}
            return mk(reduce_terms(r))
        # split off the invertible part
        good = tuple((i, e) for i, e in m if ATOMS[i].kind not in ("sqrt", "abs") and ATOMS[i].nonzero)
        bad = tuple((i, e) for i, e in m if (i, e) not in good)
        res = mk(reduce_terms({mono_pow(good, -1): 1 / c}))
        for i, e in bad:
            at = ATOMS[i]
            if at.kind == "sqrt":
                # 1/s^e = s^e / X^e
                res = mul(res, mul(mk({((i, e),): 1.0}), power(inverse_any(at.key), e)))
            else:
                base = mk({((i, 1),): 1.0})
                res = mul(res, power(_inv_atom(base), e))
        return res
    if not is_real(a):
        n2 = mul(a, conj(a))
        n2 = real(n2)
        return mul(conj(a), inverse_any(n2))
    return _inv_atom(a)


def inverse_any(a):
    if not isinstance(a, E):
        return 1 / np.asarray(a)[()]
    return inverse(a)


def _inv_atom(a):
    t = a.t
    g = mono_gcd(t)
    c0 = 1.0
    if g:
        gi = mono_pow(g, -1)
        t = reduce_terms({mono_mul(m, gi): c for m, c in t.items()})
        a = mk(dict(t))
        if not isinstance(a, E):
            return mul(mk({gi: 1.0}), 1 / a)
        t = a.t
    l = lead(t)
    c0 = t[l]
    t = {m: _norm_coef(c / c0) for m, c in t.items()}
    d = E(t)
    pos = sure_pos(d)
    at = intern("inv", key_of(t), lambda: Atom("inv", "inv%d" % len(ATOMS), key=d, pos=pos, nonzero=True, red=True))
    r = mk({((at.id, 1),): 1 / c0})
    if g:
        r = mul(r, mk({mono_pow(g, -1): 1.0}))
    return r


def divide(a, b):
    """IEEE/numpy division"""
    if not isinstance(b, E):
        bb = pynum(b)
        if not isinstance(a, E):
            with np.errstate(all="ignore"):
                return np.true_divide(a, b)
        if bb == 0:
            if not is_real(a):
                z = bool(eq(a, 0))
                return np.complex128(complex("nan")) if z else np.complex128(complex("inf"))
            if bool(eq(a, 0)):
                return np.float64("nan")
            s = 1.0 if math.copysign(1, bb.real if type(bb) is _complex else bb) > 0 else -1.0
            return np.float64("inf") * s if bool(gt(a, 0)) else np.float64("-inf") * s
        if is_special(bb):
            return np.float64("nan") if (type(bb) is not _complex and math.isnan(bb)) else np.float64(0.0)
        return mul(a, 1 / bb)
    if not isinstance(a, E):
        ca = pynum(a)
        if is_special(ca):
            if math.isnan(_complex(ca).real):
                return np.float64("nan")
            return mul_special(b, a)
    if not sure_nonzero(b):
        if bool(eq(b, 0)):
            if not isinstance(a, E):
                with np.errstate(all="ignore"):
                    return np.true_divide(np.asarray(a)[()], np.float64(0.0))
            return divide(a, np.float64(0.0))
    if not isinstance(a, E) and pynum(a) == 0:
        return np.float64(0.0)
    return mul(a, inverse(b))


def power(a, n):
    if isinstance(n, E):
        if not isinstance(a, E):
            ca = pynum(a)
            if ca == 1:
                return np.float64(1.0)
            if ca == -1 and n.is_int():
                return np.float64(1.0) if bool(eq(mod(n, 2), 0)) else np.float64(-1.0)
            if type(ca) is _float and ca > 0:
                return exp(mul(n, math.log(ca)))
            k = concretize(n)
            return power(a, k)
        if sure_pos(a):
            return exp(mul(n, log(a)))
        return power(a, concretize(n))
    if not isinstance(a, E):
        with np.errstate(all="ignore"):
            if isinstance(a, (_int, np.integer)) and isinstance(n, (_int, np.integer)):
                return np.power(float(a), int(n))
            return np.power(a, n)
    n = pynum(n)
    if type(n) is _complex:
        raise Unsupported("complex exponent")
    if n == int(n):
        n = int(n)
        if n == 0:
            return np.float64(1.0)
        if n < 0:
            if not sure_nonzero(a) and bool(eq(a, 0)):
                return np.float64("inf")
            return power(inverse(a), -n)
        if len(a.t) == 1:
            ((m, c),) = a.t.items()
            t = {mono_pow(m, n): _norm_coef(c ** n)}
            return mk(reduce_terms(t))
        r = a
        for _ in range(n - 1):
            r = mul(r, a)
        return r
    if abs(n * 2 - round(n * 2)) < 1e-12:
        k = int(round(n * 2))
        return power(sqrt(a), k)
    if sure_pos(a):
        if len(a.t) == 1:
            ((m, c),) = a.t.items()
            if all(ATOMS[i].pos for i, _ in m):
                return mk({mono_pow(m, n): c ** n})
        return exp(mul(n, log(a)))
    raise Unsupported("power %r of a symbolic value" % n)


def atom_E(at):
    return E({((at.id, 1),): 1.0})


def sqrt(a):
    if not isinstance(a, E):
        with np.errstate(all="ignore"):
            return np.sqrt(np.asarray(a)[()] * 1.0)
    if not is_real(a):
        raise Unsupported("sqrt of a complex symbolic value")
    if not sure_nonneg(a):
        if bool(lt(a, 0)):
            return np.float64("nan")
    t = a.t
    if len(t) == 1:
        ((m, c),) = t.items()
        if c > 0:
            out = np.float64(math.sqrt(c))
            rest = []
            for i, e in m:
                at = ATOMS[i]
                if at.pos and at.kind not in ("sqrt",):
                    out = mul(out, mk({((i, e / 2 if e % 2 else e // 2),): 1.0}))
                elif type(e) is _int and e % 2 == 0:
                    out = mul(out, absolute(mk({((i, e // 2),): 1.0})))
                else:
                    rest.append((i, e))
            if rest:
                out = mul(out, _sqrt_atom(E({tuple(rest): 1.0})))
            return out
    l = lead(t)
    c0 = abs(t[l])
    g = mono_gcd(t)
    ge = tuple((i, e) for i, e in g if ATOMS[i].pos and ATOMS[i].kind != "sqrt")
    if ge:
        gi = mono_pow(ge, -1)
        t = {mono_mul(m, gi): c for m, c in t.items()}
    x = mk({m: c / c0 for m, c in t.items()})
    r = mul(math.sqrt(c0), _sqrt_atom(x))
    if ge:
        r = mul(r, mk({mono_pow(ge, 0.5): 1.0}))
    return r


def _sqrt_atom(x):
    p = perfect_square(x)
    if p is not None:
        return absolute(p)
    nz = sure_pos(x)
    at = intern("sqrt", key_of(x.t), lambda: Atom("sqrt", "sqrt%d" % len(ATOMS), key=x, nonneg=True, nonzero=nz,
                                                 pos=nz, red=True))
    return atom_E(at)


def perfect_square(x):
    """y with y*y == x for a (short) polynomial, or None"""
    if len(x.t) > 40:
        return None
    sqs = [(m, c) for m, c in x.t.items() if all(type(e) is _int and e % 2 == 0 for _, e in m)
           and type(c) is _float and c > 0]
    n = len(x.t)
    k = int(round((math.sqrt(8 * n + 1) - 1) / 2))
    if k * (k + 1) // 2 != n or len(sqs) < k or k < 2:
        return None
    roots = [(mono_pow(m, 0.5), math.sqrt(c)) for m, c in sqs]
    if len(roots) != k:
        return None
    y = {roots[0][0]: roots[0][1]}
    m0, c0 = roots[0]
    for m, c in roots[1:]:
        cr = x.t.get(mono_mul(m0, m))
        if cr is None or type(cr) is _complex or abs(abs(cr) - 2 * c0 * c) > 1e-9 * abs(cr):
            return None
        y[m] = c if cr > 0 else -c
    ye = E(y)
    d = sub(mul(ye, ye), x)
    if isinstance(d, E):
        if max(abs(c) for c in d.t.values()) > 1e-9:
            return None
    elif abs(d) > 1e-9:
        return None
    return ye


def absolute(a):
    if not isinstance(a, E):
        return np.abs(a)
    if is_real(a):
        if sure_nonneg(a):
            return a
        if sure_nonneg(neg(a)):
            return neg(a)
        t = a.t
        if len(t) == 1:
            ((m, c),) = t.items()
            p = tuple((i, e) for i, e in m if ATOMS[i].nonneg)
            q = tuple((i, e) for i, e in m if not ATOMS[i].nonneg)
            out = mk({p: abs(c)})
            return mul(out, _abs_atom(E({q: 1.0})))
        c0 = t[lead(t)]
        return mul(abs(c0), _abs_atom(mk({m: c / c0 for m, c in t.items()})))
    # modulus: factor out unit phases first
    t = a.t
    if len(t) == 1:
        ((m, c),) = t.items()
        m = tuple((i, e) for i, e in m if ATOMS[i].real)
        return absolute(mk({m: abs(c)}))
    l = lead(t)
    c0 = _complex(t[l])
    ph = mono_pow(tuple((i, e) for i, e in l if ATOMS[i].kind == "phase"), -1)
    r = mk(reduce_terms({mono_mul(m, ph): _norm_coef(c * (abs(c0) / c0)) for m, c in t.items()}))
    if is_real(r):
        return absolute(r)
    return sqrt(real(mul(a, conj(a))))


def _abs_atom(x):
    at = intern("abs", key_of(x.t), lambda: Atom("abs", "abs%d" % len(ATOMS), key=x, nonneg=True,
                                                nonzero=sure_nonzero(x), red=True))
    return atom_E(at)


def exp(a):
    if not isinstance(a, E):
        with np.errstate(all="ignore"):
            return np.exp(np.asarray(a)[()] * 1.0)
    re, im = real(a), imag(a)
    out = np.float64(1.0)
    if isinstance(re, E):
        m_out = []
        for m, c in sorted(re.t.items(), key=lambda kv: kv[0]):
            if m == ONE:
                with np.errstate(all="ignore"):
                    out = out * np.exp(c)
                continue
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "log":
                out = mul(out, power(ATOMS[m[0][0]].key, c))
                continue
            at = intern("exp", m, lambda m=m: Atom("exp", "exp%d" % len(ATOMS), key=m, pos=True))
            m_out.append((at.id, xsnap(_float(c))))
        if m_out:
            out = mul(out, E({tuple(sorted(m_out)): 1.0}))
    elif re != 0:
        with np.errstate(all="ignore"):
            out = np.exp(re)
    if isinstance(im, E):
        out = mul(out, phase(im))
    elif im != 0:
        out = mul(out, np.exp(1j * im))
    return out


def phase(x):
    """exp(i x), x real"""
    if not isinstance(x, E):
        return np.exp(1j * x)
    out = np.complex128(1.0)
    m_out = []
    for m, c in sorted(x.t.items(), key=lambda kv: kv[0]):
        c = _complex(c).real
        if m == ONE:
            out = out * np.exp(1j * c)
            continue
        at = None
        if len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
        if at is not None and at.kind == "arg":
            z = at.key
            u = mul(z, inverse_any(absolute(z)))
            if abs(c - round(c)) > 1e-12:
                raise Unsupported("fractional multiple of an angle")
            n = int(round(c))
            out = mul(out, power(u if n > 0 else conj(u), abs(n)))
            continue
        pa = intern("phase", m, lambda m=m: Atom("phase", "ph%d" % len(ATOMS), key=m, real=False, nonzero=True))
        m_out.append((pa.id, xsnap(_float(c))))
    if m_out:
        out = mul(out, E({tuple(sorted(m_out)): 1.0}))
    return out


def cos(x):
    if not isinstance(x, E):
        return np.cos(x)
    if not is_real(x):
        u, v = exp(mul(1j, x)), exp(mul(-1j, x))
        return mul(0.5, add(u, v))
    return real(phase(x))


def sin(x):
    if not isinstance(x, E):
        return np.sin(x)
    if not is_real(x):
        u, v = exp(mul(1j, x)), exp(mul(-1j, x))
        return mul(-0.5j, sub(u, v))
    return imag(phase(x))


def arg(z):
    if not isinstance(z, E):
        return np.angle(z)
    if is_real(z):
        return np.float64(0.0) if bool(ge(z, 0)) else np.float64(np.pi)
    at = intern("arg", key_of(z.t), lambda: Atom("arg", "arg%d" % len(ATOMS), key=z))
    return atom_E(at)


def log(a):
    if not isinstance(a, E):
        with np.errstate(all="ignore"):
            return np.log(a)
    if len(a.t) == 1:
        ((m, c),) = a.t.items()
        if type(c) is _float and c > 0 and all(ATOMS[i].pos for i, _ in m):
            out = np.float64(math.log(c))
            for i, e in m:
                at = ATOMS[i]
                if at.kind == "exp":
                    out = add(out, mul(e, E({at.key: 1.0})))
                else:
                    b = atom_E(at)
                    la = intern("log", key_of(b.t), lambda: Atom("log", "log%d" % len(ATOMS), key=b))
                    out = add(out, mul(e, atom_E(la)))
            return out
    if not is_real(a):
        raise Unsupported("log of a complex symbolic value")
    if not sure_pos(a):
        if not bool(gt(a, 0)):
            return np.float64("nan")
    la = intern("log", key_of(a.t), lambda: Atom("log", "log%d" % len(ATOMS), key=a))
    return atom_E(la)


def floor(a):
    if not isinstance(a, E):
        return np.floor(a)
    if not is_real(a):
        raise Unsupported("floor of complex")
    ip, rest = int_part(a)
    if not isinstance(rest, E):
        return add(ip, np.floor(rest))
    fr, whole = split_const(rest)
    at = intern("floor", key_of(fr.t), lambda: Atom("floor", "fl%d" % len(ATOMS), key=fr, isint=True))
    return add(add(ip, whole), atom_E(at))


def rint(a):
    """round half to even"""
    if not isinstance(a, E):
        return np.rint(a)
    if not is_real(a):
        return add(rint(real(a)), mul(1j, rint(imag(a))))
    if a.is_int():
        return a
    at = intern("rint", key_of(a.t), lambda: Atom("rint", "ri%d" % len(ATOMS), key=a, isint=True))
    return atom_E(at)


def int_part(a):
    """a = ip + rest with ip integer valued by construction"""
    ti, tr = {}, {}
    for m, c in a.t.items():
        if m != ONE and type(c) is _float and c == round(c) and \
                all(ATOMS[i].isint and type(e) is _int and e > 0 for i, e in m):
            ti[m] = c
        else:
            tr[m] = c
    return mk(ti), mk(tr)


def split_const(a):
    c = a.t.get(ONE, 0.0)
    w = math.floor(c + 1e-13)
    if w == 0:
        return a, np.float64(0.0)
    t = dict(a.t)
    c -= w
    if abs(c) < 1e-13:
        t.pop(ONE, None)
    else:
        t[ONE] = c
    return E(t), np.float64(w)


def mod(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return np.mod(a, b)
    if isinstance(b, E):
        b = concretize(b)
    return sub(a, mul(b, floor(divide(a, b))))


def floordiv(a, b):
    return floor(divide(a, b))


# ----------------------------------------------------------------------------------------------
# comparison and booleans
# ----------------------------------------------------------------------------------------------

class B:
    """boolean formula: ('cmp', op, E) with op in '==', '<', '<=' against 0, or and/or/not"""
    __slots__ = ("op", "args", "_key")
    __array_ufunc__ = None

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._key = None

    def key(self):
        if self._key is None:
            if self.op in ("==", "<", "<="):
                self._key = (self.op, key_of(self.args.t))
            else:
                self._key = (self.op,) + tuple(x.key() for x in self.args)
        return self._key

    def __bool__(self):
        return PATH.decide(self)

    def __invert__(self):
        return b_not(self)

    def __and__(self, o):
        return b_and([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return b_or([self, o])

    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return 0

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, (B, bool, np.bool_)):
            return b_and([self, o])
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))


def b_not(b):
    if isinstance(b, B):
        if b.op == "not":
            return b.args[0]
        return B("not", (b,))
    return not b


def b_and(bs):
    out = []
    for b in bs:
        if isinstance(b, B):
            out.append(b)
        elif not b:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else B("and", tuple(out))


def b_or(bs):
    out = []
    for b in bs:
        if isinstance(b, B):
            out.append(b)
        elif b:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else B("or", tuple(out))


def _special_num(x):
    return (not isinstance(x, E)) and is_special(pynum(x))


def _canon_sign(d):
    """scale an equality so that equal formulas share a key"""
    c0 = d.t[lead(d.t)]
    if c0 == 1:
        return d
    return E({m: _norm_coef(c / c0) for m, c in d.t.items()})


def eq(a, b):
    if _special_num(a) or _special_num(b):
        if isinstance(a, E) or isinstance(b, E):
            return False
        return bool(a == b)
    d = sub(a, b)
    if not isinstance(d, E):
        return bool(abs(d) < 1e-13) if (isinstance(a, E) or isinstance(b, E)) else bool(a == b)
    if sure_nonzero(d):
        return False
    return B("==", _canon_sign(d))


def ne(a, b):
    return b_not(eq(a, b))


def _order(a, b, op):
    if _special_num(a) or _special_num(b):
        x = a if _special_num(a) else np.float64(0.0)
        y = b if _special_num(b) else np.float64(0.0)
        return bool(x < y) if op == "<" else bool(x <= y)
    d = sub(a, b)
    if not isinstance(d, E):
        if isinstance(a, E) or isinstance(b, E):
            d = np.real(d)
            if abs(d) < 1e-13:
                d = 0.0
            return bool(d < 0) if op == "<" else bool(d <= 0)
        return bool(a < b) if op == "<" else bool(a <= b)
    if not is_real(d):
        # numpy orders complex numbers lexicographically
        re, im = real(d), imag(d)
        return b_or([_order(re, 0, "<"), b_and([eq(re, 0), _order(im, 0, op)])])
    if sure_pos(d):
        return False
    if sure_pos(neg(d)):
        return True
    c0 = abs(d.t[lead(d.t)])
    if c0 != 1:
        d = E({m: _norm_coef(c / c0) for m, c in d.t.items()})
    return B(op, d)


def lt(a, b):
    return _order(a, b, "<")


def le(a, b):
    return _order(a, b, "<=")


def gt(a, b):
    return _order(b, a, "<")


def ge(a, b):
    return _order(b, a, "<=")


def maximum(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return np.maximum(a, b)
    if _special_num(a) and np.isnan(a):
        return a
    if _special_num(b) and np.isnan(b):
        return b
    return a if bool(ge(a, b)) else b


def minimum(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return np.minimum(a, b)
    if _special_num(a) and np.isnan(a):
        return a
    if _special_num(b) and np.isnan(b):
        return b
    return a if bool(le(a, b)) else b


def sign(a):
    if not isinstance(a, E):
        return np.sign(a)
    if bool(eq(a, 0)):
        return np.float64(0.0)
    return np.float64(1.0) if bool(gt(a, 0)) else np.float64(-1.0)


def heaviside(x, h0):
    if not isinstance(x, E):
        if isinstance(h0, E):
            return h0 if x == 0 else np.float64(x > 0)
        return np.heaviside(x, h0)
    if bool(eq(x, 0)):
        return h0
    return np.float64(1.0) if bool(gt(x, 0)) else np.float64(0.0)


def concretize(a):
    """an integer value of a, by solver-driven forking"""
    if not isinstance(a, E):
        return int(np.real(a))
    return PATH.concretize(a)


# ----------------------------------------------------------------------------------------------
# E
# ----------------------------------------------------------------------------------------------

def _wrap(f, swap=False):
    def g(self, o):
        if not isinstance(o, (E,) + NUM):
            if isinstance(o, np.ndarray) and o.ndim == 0 and o.dtype != object:
                o = o[()]
            elif isinstance(o, B):
                o = int(bool(o))
            else:
                return HOOKS["foreign"](f, self, o, swap)
        return f(o, self) if swap else f(self, o)
    return g


HOOKS = {}


class E:
    __slots__ = ("t", "_real", "_h")
    __array_priority__ = 1e6
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, t):
        self.t = t
        self._real = None
        self._h = None

    __add__ = _wrap(add)
    __radd__ = _wrap(add, True)
    __sub__ = _wrap(sub)
    __rsub__ = _wrap(sub, True)
    __mul__ = _wrap(mul)
    __rmul__ = _wrap(mul, True)
    __truediv__ = _wrap(divide)
    __rtruediv__ = _wrap(divide, True)
    __pow__ = _wrap(power)
    __rpow__ = _wrap(power, True)
    __mod__ = _wrap(mod)
    __rmod__ = _wrap(mod, True)
    __floordiv__ = _wrap(floordiv)
    __rfloordiv__ = _wrap(floordiv, True)
    __eq__ = _wrap(eq)
    __ne__ = _wrap(ne)
    __lt__ = _wrap(lt)
    __le__ = _wrap(le)
    __gt__ = _wrap(gt)
    __ge__ = _wrap(ge)

    def __matmul__(self, o):
        return self * o

    def __rmatmul__(self, o):
        return o * self

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(ne(self, 0))

    def __index__(self):
        return PATH.concretize(self)

    def __int__(self):
        v = self
        if not self.is_int():
            v = floor(self) if bool(ge(self, 0)) else neg(floor(neg(self)))
        return concretize(v)

    def __float__(self):
        return PATH.concretize_float(self)

    def __complex__(self):
        return complex(PATH.concretize_float(self))

    def __round__(self, nd=None):
        return HOOKS["round"](self, nd or 0)

    def __floor__(self):
        return concretize(floor(self))

    def __ceil__(self):
        return concretize(neg(floor(neg(self))))

    def __trunc__(self):
        return int(self)

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return self.show()

    def __repr__(self):
        return self.show()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __getitem__(self, idx):
        return HOOKS["arr0"](self)[idx]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return HOOKS["ufunc"](ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return HOOKS["func"](func, args, kwargs)

    def __getattr__(self, name):
        # anything else a numpy scalar would do
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(HOOKS["arr0"](self), name)

    @property
    def real(self):
        return real(self)

    @property
    def imag(self):
        return imag(self)

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return np.dtype(float) if is_real(self) else np.dtype(complex)

    def conjugate(self):
        return conj(self)

    conj = conjugate

    def item(self, *a):
        return self

    def is_int(self):
        for m, c in self.t.items():
            if type(c) is _complex or c != round(c):
                return False
            for i, e in m:
                if not ATOMS[i].isint or type(e) is not _int or e < 0:
                    return False
        return True

    def show(self, maxn=12):
        out = []
        for m, c in list(self.t.items())[:maxn]:
            s = "%.6g" % c if type(c) is _float else "(%.6g%+.6gj)" % (c.real, c.imag)
            for i, e in m:
                s += "*" + ATOMS[i].name + ("" if e == 1 else "^%g" % e)
            out.append(s)
        if len(self.t) > maxn:
            out.append("...(%d terms)" % len(self.t))
        return " + ".join(out)


# ----------------------------------------------------------------------------------------------
# numeric evaluation
# ----------------------------------------------------------------------------------------------

class Eval:
    """value of atoms and terms at a concrete assignment of the harness variables"""

    def __init__(self, base):
        self.base = base          # atom name -> number
        self.memo = {}

    def atom(self, i):
        v = self.memo.get(i)
        if v is None:
            v = self._atom(ATOMS[i])
            self.memo[i] = v
        return v

    def mono(self, m):
        v = 1.0
        for i, e in m:
            v = v * self.atom(i) ** e
        return v

    def _atom(self, a):
        k = a.kind
        if a.base:
            return self.base[a.name]
        if k == "exp":
            return math.exp(min(700.0, self.mono(a.key)))
        if k == "phase":
            x = self.mono(a.key)
            return _complex(math.cos(x), math.sin(x))
        x = self.value(a.key)
        xr = _complex(x).real
        if k == "inv":
            return 1.0 / x
        if k == "sqrt":
            return math.sqrt(max(0.0, xr))
        if k == "abs":
            return abs(x)
        if k == "floor":
            r = round(xr)
            return _float(r) if abs(xr - r) < 1e-11 else _float(math.floor(xr))
        if k == "rint":
            h = round(xr * 2) / 2
            return _float(np.rint(h)) if abs(xr - h) < 1e-11 else _float(np.rint(xr))
        if k == "arg":
            return math.atan2(_complex(x).imag, xr)
        if k == "log":
            return math.log(xr)
        raise Unsupported("eval " + k)

    def value(self, e):
        if not isinstance(e, E):
            return _complex(e)
        s = 0.0
        for m, c in e.t.items():
            s = s + c * self.mono(m)
        return s

    def truth(self, b):
        """True/False, or None when too close to call"""
        if not isinstance(b, B):
            return bool(b)
        if b.op in ("==", "<", "<="):
            v = self.value(b.args)
            scale = 1.0 + sum(abs(c * self.mono(m)) for m, c in b.args.t.items())
            if b.op == "==":
                if abs(v) < 1e-11 * scale:
                    return True
                return False if abs(v) > 1e-8 * scale else None
            v = _complex(v).real
            if abs(v) < 1e-11 * scale:
                return b.op == "<="
            if abs(v) < 1e-9 * scale:
                return None
            return v < 0
        if b.op == "not":
            r = self.truth(b.args[0])
            return None if r is None else (not r)
        rs = [self.truth(x) for x in b.args]
        if b.op == "and":
            if any(r is False for r in rs):
                return False
            return None if any(r is None for r in rs) else True
        if any(r is True for r in rs):
            return True
        return None if any(r is None for r in rs) else False


# ----------------------------------------------------------------------------------------------
# translation to z3
# ----------------------------------------------------------------------------------------------

def rat(c):
    f = Fraction(c).limit_denominator(1000000)
    if abs(_float(f) - c) <= 1e-12 * max(1.0, abs(c)):
        return f
    return Fraction(c).limit_denominator(10 ** 15)


_RV = {}


def zval(f):
    v = _RV.get(f)
    if v is None:
        v = z3.RealVal(str(f))
        _RV[f] = v
    return v


def mono_range(m):
    """interval of a monomial of bounded base variables, or None"""
    lo, hi = 1.0, 1.0
    for i, e in m:
        a = ATOMS[i]
        if not a.base or a.lo is None or a.hi is None or e != int(e) or e < 0 or not a.real:
            return None
        for _ in range(int(e)):
            c = [lo * a.lo, lo * a.hi, hi * a.lo, hi * a.hi]
            lo, hi = min(c), max(c)
    return lo, hi


class Z:
    """builds z3 terms; collects the axioms of every defined atom it meets"""

    def __init__(self):
        self.axioms = []        # pending, consumed by the path solver
        self.seen = set()
        self.linear = True

    def var(self, a):
        if a._z is None:
            a._z = z3.Real(a.name)
        if a.id not in self.seen:
            self.seen.add(a.id)
            self.define(a)
        return a._z

    def cvar(self, a):
        if a._z is None:
            a._z = (z3.Real(a.name + "_c"), z3.Real(a.name + "_s"))
        if a.id not in self.seen:
            self.seen.add(a.id)
            c, s = a._z
            self.axioms.append(c * c + s * s == 1)
            self.trig_range(a, 1.0, c, s)
            self.linear = False
        return a._z

    def trig_range(self, a, f, c, s):
        """bounds of cos and sin over the interval the angle f*key can take"""
        r = mono_range(a.key)
        if r is None:
            return
        lo, hi = sorted((r[0] * f, r[1] * f))
        if hi - lo >= 2 * math.pi - 1e-6:
            return
        for v, fn, top in ((c, math.cos, 0.0), (s, math.sin, math.pi / 2)):
            pts = [lo, hi]
            k = math.ceil((lo - top) / math.pi)
            while top + k * math.pi <= hi:
                pts.append(top + k * math.pi)
                k += 1
            ys = [fn(x) for x in pts]
            if max(ys) < 1 - 1e-9:
                self.axioms.append(v <= zval(Fraction(max(ys) + 1e-9).limit_denominator(10 ** 9)))
            if min(ys) > -1 + 1e-9:
                self.axioms.append(v >= zval(Fraction(min(ys) - 1e-9).limit_denominator(10 ** 9)))

    def inv(self, a):
        z = self.var(a)
        if a._zinv is None:
            a._zinv = z3.Real(a.name + "_inv")
        k = ("inv", a.id)
        if k not in self.seen:
            self.seen.add(k)
            self.axioms.append(a._zinv * z == 1)
            self.linear = False
            if a.pos:
                self.axioms.append(a._zinv > 0)
        return a._zinv

    def frac(self, a, f):
        """a^f, 0<f<1"""
        f = round(f, 10)
        v = a._zfrac.get(f)
        if v is None:
            v = z3.Real("%s_p%d" % (a.name, int(round(f * 10 ** 10))))
            a._zfrac[f] = v
        k = ("frac", a.id, f)
        if k not in self.seen:
            self.seen.add(k)
            self.axioms.append(v > 0)
            q = Fraction(f).limit_denominator(6)
            if abs(_float(q) - f) < 1e-9:
                self.axioms.append(zpow(v, q.denominator) == zpow(self.var(a), q.numerator))
                self.linear = False
        return v

    def cfrac(self, a, f):
        f = round(f, 10)
        v = a._zfrac.get(f)
        if v is None:
            n = "%s_p%d" % (a.name, int(round(f * 10 ** 10)))
            v = (z3.Real(n + "_c"), z3.Real(n + "_s"))
            a._zfrac[f] = v
        k = ("frac", a.id, f)
        if k not in self.seen:
            self.seen.add(k)
            self.axioms.append(v[0] * v[0] + v[1] * v[1] == 1)
            self.trig_range(a, f, v[0], v[1])
            q = Fraction(f).limit_denominator(4)
            if abs(_float(q) - f) < 1e-9:
                l = cpow(v, q.denominator)
                r = cpow(self.cvar(a), q.numerator)
                self.axioms.append(z3.And(l[0] == r[0], l[1] == r[1]))
            self.linear = False
        return v

    def define(self, a):
        z = a._z
        ax = self.axioms
        k = a.kind
        if a.base:
            if a.lo is not None:
                ax.append(z >= zval(rat(a.lo)) if not (a.pos and a.lo == 0) else z > 0)
            if a.hi is not None:
                ax.append(z <= zval(rat(a.hi)))
            if a.pos:
                ax.append(z > 0)
            elif a.nonzero:
                ax.append(z != 0)
            if a.isint:
                ax.append(z3.IsInt(z))
            return
        if k == "exp":
            m = self.re(E({a.key: 1.0}))
            ax += [z > 0, z >= 1 + m, z * (1 - m) <= 1]
            ax += [z3.Implies(m > 0, z > 1), z3.Implies(m < 0, z < 1)]
            self.linear = False
            return
        if k == "arg":
            ax += [z <= zval(rat(3.1415927)), z >= zval(rat(-3.1415927))]
            return
        if k == "log":
            x = self.re(a.key)
            ax += [z <= x - 1, z3.Implies(x > 1, z > 0), z3.Implies(x < 1, z < 0)]
            return
        x = self.re(a.key)
        if k == "inv":
            ax.append(z * x == 1)
            self.linear = False
            if a.pos:
                ax.append(z > 0)
        elif k == "sqrt":
            ax += [z >= 0, z * z == x]
            self.linear = False
        elif k == "abs":
            ax.append(z == z3.If(x >= 0, x, -x))
        elif k == "floor":
            ax += [z3.IsInt(z), z <= x, x < z + 1]
        elif k == "rint":
            n = z3.Int(a.name + "_n")
            h = z3.Int(a.name + "_h")
            ax += [z == z3.ToReal(n), x - z <= zval(Fraction(1, 2)), z - x <= zval(Fraction(1, 2)),
                   z3.Implies(z3.Or(x - z == zval(Fraction(1, 2)), z - x == zval(Fraction(1, 2))), n == 2 * h)]
        else:
            raise Unsupported("z3 " + k)

    def mono(self, m):
        """(list of real z3 factors, (c,s) or None)"""
        fs = []
        ph = None
        for i, e in m:
            a = ATOMS[i]
            n = math.floor(e + 1e-12)
            f = e - n
            if a.real:
                if n > 0:
                    fs += [self.var(a)] * int(n)
                elif n < 0:
                    fs += [self.inv(a)] * int(-n)
                if f > 1e-9:
                    fs.append(self.frac(a, f))
            else:
                if n != 0:
                    u = self.cvar(a)
                    if n < 0:
                        u = (u[0], -u[1])
                    u = cpow(u, int(abs(n)))
                    ph = u if ph is None else cmulz(ph, u)
                if f > 1e-9:
                    u = self.cfrac(a, f)
                    ph = u if ph is None else cmulz(ph, u)
        if len(fs) > 1 or (fs and ph is not None):
            self.linear = False
        return fs, ph

    def reim(self, e, want_im=True):
        if not isinstance(e, E):
            c = _complex(e)
            return zval(rat(c.real)), zval(rat(c.imag))
        rs, is_ = [], []
        for m, c in e.t.items():
            c = _complex(c)
            fs, ph = self.mono(m)
            base = fs
            if ph is None:
                if c.real:
                    rs.append(prodz([zval(rat(c.real))] + base if c.real != 1 or not base else base))
                if want_im and c.imag:
                    is_.append(prodz([zval(rat(c.imag))] + base))
            else:
                cr, sr = ph
                a, b = zval(rat(c.real)), zval(rat(c.imag))
                if c.imag == 0:
                    rs.append(prodz([a, cr] + base))
                    if want_im:
                        is_.append(prodz([a, sr] + base))
                else:
                    rs.append(prodz([a * cr - b * sr] + base))
                    if want_im:
                        is_.append(prodz([a * sr + b * cr] + base))
        return sumz(rs), sumz(is_)

    def re(self, e):
        return self.reim(e, False)[0]

    def formula(self, b):
        if not isinstance(b, B):
            return z3.BoolVal(bool(b))
        if b.op == "==":
            if is_real(b.args):
                return self.re(b.args) == 0
            r, i = self.reim(b.args)
            return z3.And(r == 0, i == 0)
        if b.op == "<":
            return self.re(b.args) < 0
        if b.op == "<=":
            return self.re(b.args) <= 0
        if b.op == "not":
            return z3.Not(self.formula(b.args[0]))
        if b.op == "and":
            return z3.And([self.formula(x) for x in b.args])
        return z3.Or([self.formula(x) for x in b.args])


def prodz(fs):
    if len(fs) == 1:
        return fs[0]
    return z3.Product(*fs) if len(fs) > 1 else zval(Fraction(1))


def sumz(ts):
    if not ts:
        return zval(Fraction(0))
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


def zpow(v, n):
    return prodz([v] * n) if n else zval(Fraction(1))


def cmulz(u, v):
    return (u[0] * v[0] - u[1] * v[1], u[0] * v[1] + u[1] * v[0])


def cpow(u, n):
    r = u
    for _ in range(n - 1):
        r = cmulz(r, u)
    return r


# ----------------------------------------------------------------------------------------------
# path
# ----------------------------------------------------------------------------------------------

class Stats:
    def __init__(self):
        self.queries = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.forks = 0
        self.decided_by_witness = 0
        self.terms = 0


class Path:
    """one execution; follows a decision prefix, then explores"""

    def __init__(self, prefix, stats, rng, deadline, query_ms=4000, cand=()):
        self.prefix = prefix
        self.cand = []             # integer candidates tried so far, in order
        self.cand_prefix = list(cand)
        self.trace = []            # (taken, other_feasible)
        self.stats = stats
        self.rng = rng
        self.deadline = deadline
        self.query_ms = query_ms
        self.z = Z()
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.pcs = []
        self.pc_b = []
        self.cache = {}
        self.vars = {}
        self.witness = None
        self.uncertain = False
        self.pending = []

    # variables -------------------------------------------------------------------
    def new_var(self, name, lo, hi, isint=False, pos=False, nonzero=False):
        a = intern("var", name, lambda: Atom("var", name, lo=lo, hi=hi, isint=isint, pos=pos, nonzero=nonzero,
                                             nonneg=(lo is not None and lo >= 0), base=True))
        self.vars[name] = a
        v = None
        if self.witness is not None:
            self.witness.base[name] = self.sample_var(a)
        return atom_E(a)

    def sample_var(self, a):
        if a.isint:
            v = float(self.rng.randint(int(a.lo), int(a.hi)))
            if a.nonzero and v == 0:
                v = float(a.hi if a.hi else a.lo)
            return v
        lo, hi = a.lo, a.hi
        w = min(hi, max(lo, 0) + 3.0) if lo >= 0 else min(hi, 3.0)
        l = lo if lo >= 0 else max(lo, -3.0)
        if l > w:
            l, w = lo, hi
        v = self.rng.uniform(l, w)
        if (a.nonzero or a.pos) and abs(v) < 0.05:
            v = 0.05 + abs(v) if w > 0.1 else w
        return v

    def fresh_witness(self, tries=200, hints=()):
        """search a concrete assignment satisfying every path condition"""
        for h in hints:
            base = dict(h)
            for n, a in self.vars.items():
                if n not in base:
                    base[n] = self.sample_var(a)
            ev = Eval(base)
            try:
                if all(ev.truth(b) for b in self.pc_b) and self.inbox(base):
                    return ev
            except (ZeroDivisionError, ValueError, OverflowError, Unsupported):
                pass
        for _ in range(tries):
            base = {n: self.sample_var(a) for n, a in self.vars.items()}
            ev = Eval(base)
            try:
                if all(ev.truth(b) for b in self.pc_b):
                    return ev
            except (ZeroDivisionError, ValueError, OverflowError, Unsupported):
                continue
        return None

    def inbox(self, base):
        for n, a in self.vars.items():
            v = base[n]
            if (a.lo is not None and v < a.lo - 1e-12) or (a.hi is not None and v > a.hi + 1e-12):
                return False
            if (a.pos and v <= 0) or (a.nonzero and v == 0):
                return False
            if a.isint and v != round(v):
                return False
        return True

    # solver ----------------------------------------------------------------------
    def flush(self):
        while self.z.axioms:
            ax = self.z.axioms
            self.z.axioms = []
            for x in ax:
                self.solver.add(x)
                self.pcs.append(x)

    def check(self, *fs, ms=None):
        """sat/unsat/unknown of path condition plus fs; returns (result, model)"""
        self.flush()
        if time.time() > self.deadline:
            raise PathAbort("time budget")
        t0 = time.time()
        self.stats.queries += 1
        self.solver.push()
        try:
            for f in fs:
                self.solver.add(f)
            if ms:
                self.solver.set("timeout", ms)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            if ms:
                self.solver.set("timeout", self.query_ms)
            self.solver.pop()
        if r == z3.unknown:
            for tac in ("qfnra-nlsat", "smt"):
                try:
                    s = z3.Tactic(tac).solver() if tac != "smt" else z3.SimpleSolver()
                    s.set("timeout", ms or self.query_ms)
                    for x in self.pcs:
                        s.add(x)
                    for f in fs:
                        s.add(f)
                    r = s.check()
                    if r != z3.unknown:
                        m = s.model() if r == z3.sat else None
                        break
                except z3.Z3Exception:
                    pass
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    def model_values(self, m):
        out = {}
        for n, a in self.vars.items():
            if a._z is None:
                continue
            v = m.eval(a._z, model_completion=False)
            try:
                if z3.is_rational_value(v):
                    out[n] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
                elif z3.is_algebraic_value(v):
                    w = v.approx(30)
                    out[n] = float(Fraction(w.numerator_as_long(), w.denominator_as_long()))
            except (z3.Z3Exception, OverflowError):
                pass
        return out

    def add_pc(self, b, f=None):
        if f is None:
            f = self.z.formula(b)
        self.flush()
        self.solver.add(f)
        self.pcs.append(f)
        self.pc_b.append(b)

    def assume(self, b):
        if not isinstance(b, B):
            if not b:
                raise PathAbort("assumption false")
            return
        self.add_pc(b)
        if self.witness is not None:
            ok = None
            try:
                ok = self.witness.truth(b)
            except (ZeroDivisionError, ValueError, OverflowError):
                pass
            if ok is not True:
                self.witness = self.fresh_witness()
                if self.witness is None:
                    r, m = self.check()
                    if r == z3.unsat:
                        raise PathAbort("assumption infeasible")
                    if m is not None:
                        self.witness = self.fresh_witness(tries=0, hints=[self.model_values(m)])

    hint = None

    def ensure_witness(self):
        if self.witness is None:
            self.witness = self.fresh_witness(tries=60, hints=[self.hint] if self.hint else [])

    def decide(self, b):
        k = b.key()
        v = self.cache.get(k)
        if v is not None:
            return v
        nk = b_not(b).key()
        v = self.cache.get(nk)
        if v is not None:
            return not v
        n = len(self.trace)
        if n < len(self.prefix):
            take, info = self.prefix[n]
            self.trace.append((take, False))
            self.cache[k] = take
            if info != "implied":
                self.add_pc(b if take else b_not(b))
            if n == len(self.prefix) - 1:
                self.witness = None
            return take
        if time.time() > self.deadline:
            raise PathAbort("time budget")
        f = self.z.formula(b)
        self.flush()
        if n == len(self.prefix) and self.witness is None:
            self.ensure_witness()
        w = None
        if self.witness is not None:
            try:
                w = self.witness.truth(b)
            except (ZeroDivisionError, ValueError, OverflowError):
                w = None
        nf = z3.Not(f)
        res = {}
        mod = {}
        for side, ff in ((True, f), (False, nf)):
            if w is side:
                res[side] = z3.sat
                self.stats.decided_by_witness += 1
            else:
                res[side], mod[side] = self.check(ff)
        can_t, can_f = res[True] != z3.unsat, res[False] != z3.unsat
        if can_t and can_f:
            self.stats.forks += 1
            take = True if w is None else w
            if res[not take] == z3.unknown or res[take] == z3.unknown:
                self.uncertain = True
            hint = mod.get(not take)
            self.pending.append(([(t, i) for t, i in self.trace_info()] + [(not take, "fork")], list(self.cand),
                                 self.model_values(hint) if hint is not None else {}))
            self.trace.append((take, "fork"))
            self.cache[k] = take
            self.add_pc(b if take else b_not(b), f if take else nf)
            if w is None:
                self.witness = None
                mm = mod.get(take)
                self.witness = self.fresh_witness(tries=20, hints=[self.model_values(mm)] if mm is not None else [])
            return take
        if not can_t and not can_f:
            raise PathAbort("infeasible")
        take = can_t
        self.trace.append((take, "implied"))
        self.cache[k] = take
        return take

    def trace_info(self):
        out = []
        for n, (t, i) in enumerate(self.trace):
            if n < len(self.prefix):
                out.append(self.prefix[n])
            else:
                out.append((t, i))
        return out

    def concretize(self, a):
        """pick an integer value for a; other values are explored on other paths"""
        if not isinstance(a, E):
            return int(a)
        if not is_real(a):
            raise Unsupported("complex index")
        for _ in range(400):
            if self.witness is None and len(self.trace) >= len(self.prefix):
                self.ensure_witness()
            v = None
            if len(self.cand) < len(self.cand_prefix):
                # replaying: the candidate must be regenerated identically
                v = self.cand_prefix[len(self.cand)]
            if v is None:
                if self.witness is not None:
                    v = int(round(_complex(self.witness.value(a)).real))
                else:
                    z = self.z.re(a)
                    r, m = self.check()
                    if r == z3.unsat:
                        raise PathAbort("infeasible")
                    if m is None:
                        raise Unsupported("cannot concretise")
                    q = m.eval(z, model_completion=True)
                    v = int(round(float(Fraction(q.numerator_as_long(), q.denominator_as_long()))))
            self.cand.append(v)
            c = eq(a, v)
            if not isinstance(c, B):
                if c:
                    return v
                raise PathAbort("infeasible")
            if self.decide(c):
                return v
        raise Unsupported("too many values")

    def concretize_float(self, a):
        raise Unsupported("symbolic value converted to a machine float")


PATH = None


def set_path(p):
    global PATH
    PATH = p
