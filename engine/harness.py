"""
Harness contexts, path exploration and the final solver queries.

A harness is a function h(ctx, **case).  The same function is run
  * symbolically: ctx hands out symbolic scalars and the symbolically executed copy of /repo's package;
  * concretely: ctx hands out numbers and the ordinary package (validation, counterexample replay).
"""
import contextlib
import importlib
import math
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import numpy as np
import scipy.sparse as rsp
import z3
from . import ring as R
from . import symnp as S
from . import symsp as P
from . import loader as L
from .ring import E, B, Unsupported, PathAbort

TOL = 1e-6
DEF = float(os.environ.get("VERIF_DEF", "1000"))


class AssumeFailed(Exception):
    pass


class Failure:
    def __init__(self, label, detail):
        self.label = label
        self.detail = detail


def _flat(x):
    """list of scalars and shape of anything array-like"""
    if isinstance(x, P.SpM):
        x = x.toarray()
    if rsp.issparse(x):
        x = x.toarray()
    if isinstance(x, np.ndarray) and x.dtype == object and x.ndim == 0 and isinstance(x.item(), P.SpM):
        x = x.item().toarray()
    if isinstance(x, np.ndarray) and x.dtype == object and x.ndim == 0 and rsp.issparse(x.item()):
        x = x.item().toarray()
    if isinstance(x, (list, tuple)):
        x = S.arr(x) if S.has_sym(x) else np.asarray(x)
    if isinstance(x, (E, B)):
        return [x], ()
    a = np.asarray(x)
    return list(a.reshape(-1)), a.shape


class Ctx:
    """common part"""

    def mod(self, name):
        raise NotImplementedError

    def reals(self, name, shape, lo=-DEF, hi=DEF, **kw):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            out[i] = self.real(name + "".join("_%d" % k for k in i), lo, hi, **kw)
        return self.pack(out)

    def cplx(self, name, lo=-DEF, hi=DEF, **kw):
        return self.real(name + "r", lo, hi, **kw) + 1j * self.real(name + "i", lo, hi, **kw)

    def cplxs(self, name, shape, lo=-DEF, hi=DEF, **kw):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            out[i] = self.cplx(name + "".join("_%d" % k for k in i), lo, hi, **kw)
        return self.pack(out, True)

    def ints(self, name, shape, lo, hi):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            out[i] = self.int(name + "".join("_%d" % k for k in i), lo, hi)
        return out

    def dense(self, x):
        """any matrix-like as a dense array"""
        if isinstance(x, P.SpM) or rsp.issparse(x):
            return x.toarray()
        return x


class SymCtx(Ctx):
    sym = True

    def __init__(self, world, path):
        self.world = world
        self.path = path
        self.np = world.np
        self.sp = world.sp
        self.obl = []          # (label, code list, ref list)
        self.trues = []        # (label, B or bool)
        self.failed = []       # structural failures

    def mod(self, name):
        return self.world.module("exact_diag." + name)

    def real(self, name, lo=-DEF, hi=DEF, nonzero=False, pos=False):
        return self.path.new_var(name, lo, hi, nonzero=nonzero, pos=pos)

    def int(self, name, lo, hi):
        return self.path.new_var(name, lo, hi, isint=True)

    def choice(self, name, n):
        """an integer 0..n-1 explored exhaustively by forking"""
        if n == 1:
            return 0
        return R.concretize(self.path.new_var(name, 0, n - 1, isint=True))

    def pack(self, out, cplx=False):
        r = out.view(S.SArr)
        r._kind = "c" if cplx else "f"
        return r

    def assume(self, b):
        if isinstance(b, np.ndarray):
            b = S.np_all(b)
        self.path.assume(b if isinstance(b, B) else bool(b))

    def eq(self, code, ref, label):
        c, cs = _flat(code)
        r, rs = _flat(ref)
        if cs != rs and not (len(r) == 1 and rs == ()):
            if int(np.prod(cs)) != int(np.prod(rs)) or tuple(x for x in cs if x != 1) != tuple(x for x in rs if x != 1):
                self.failed.append(Failure(label, "shape %s instead of %s" % (cs, rs)))
                return
        if len(r) == 1 and len(c) > 1:
            r = r * len(c)
        self.obl.append((label, c, r))

    def true(self, b, label):
        if isinstance(b, np.ndarray):
            b = S.np_all(b)
        self.trues.append((label, b))

    def raises(self, f, label):
        try:
            f()
        except Unsupported:
            raise
        except Exception:
            self.trues.append((label, True))
            return
        self.failed.append(Failure(label, "no error raised"))

    def script(self, name, order=None):
        """one of the batch scripts; order: rearranges what listing a directory gives"""
        self.world.files.order = order
        return self.world.module("cluster." + name)

    def store(self, name, obj):
        f = self.world.files
        with f.open(name, "wb") as h:
            f.dump(obj, h)

    def fetch(self, name):
        f = self.world.files
        with f.open(name, "rb") as h:
            return f.load(h)

    def scratch(self):
        """name of an empty directory"""
        return "/scratch"

    def exists(self, name):
        return str(name) in self.world.files.data

    def inside(self, d):
        return contextlib.nullcontext()

    def known_root(self, *roots):
        """exact model of the scalar root finders (floating-point iterations, outside the encoding): they find the given root of
        every function that vanishes there, and any other number for a function that vanishes at none of them"""
        def find(f, vec):
            vals = []
            for r in roots:
                v = S.unwrap0(f(S.arr([r]) if vec else r))
                if isinstance(v, S.SArr):
                    v = v.reshape(-1)[0]
                if not isinstance(v, E) and abs(v) < 1e-9:
                    return r
                vals.append(v)
            for r, v in zip(roots, vals):
                if isinstance(v, E) and bool(R.eq(v, 0.0)):
                    return r
            return self.real("some_root")
        P.HOOKS["root"] = find

    def known_basis(self, U, shuffle=None):
        """exact model of the spectral routines for Hermitian matrices that are diagonal in the concrete unitary U (LAPACK, ARPACK
        and expm are outside the encoding); shuffle(k) gives the order in which eigsh returns its k pairs (any order)"""
        U = np.asarray(U)

        def spectrum(M):
            a = np.asarray(M.toarray() if isinstance(M, P.SpM) or rsp.issparse(M) else M, dtype=object)
            n = a.shape[0]
            if a.shape != (n, n) or U.shape != (n, n):
                raise Unsupported("spectral routine on a matrix of another size than the known basis")
            D = U.conj().T.astype(object) @ a @ U.astype(object)
            d = []
            for i in range(n):
                for j in range(n):
                    v = tidy(D[i, j])
                    if i == j:
                        d.append(R.real(v))
                    elif not (isinstance(v, (int, float, complex)) and v == 0):
                        raise Unsupported("spectral routine on a matrix that is not diagonal in the known basis")
            return d

        def arrange(d, less):
            ix = []
            for k in range(len(d)):
                p = 0
                while p < len(ix) and not bool(less(d[k], d[ix[p]])):
                    p += 1
                ix.insert(p, k)
            return ix

        def eigh(M, *a, **kw):
            d = spectrum(M)
            ix = arrange(d, R.lt)
            return S.arr([d[i] for i in ix]), S.arr(U[:, ix])

        def eigvalsh(M, *a, **kw):
            return eigh(M)[0]

        def expm(M, *a, **kw):
            d = [R.exp(v) for v in spectrum(M)]
            return S.arr(U.astype(object) @ np.diag(np.array(d, dtype=object)) @ U.conj().T.astype(object))

        def eigsh(M, k=6, M2=None, sigma=None, which="LM", return_eigenvectors=True, **kw):
            if sigma is not None or M2 is not None or not return_eigenvectors:
                raise Unsupported("eigsh options")
            d = spectrum(M)
            less = {"LM": lambda x, y: R.gt(R.absolute(x), R.absolute(y)), "SM": lambda x, y: R.lt(R.absolute(x), R.absolute(y)),
                    "LA": R.gt, "SA": R.lt}.get(which)
            if less is None:
                raise Unsupported("eigsh which=" + str(which))
            ix = arrange(d, less)[:k]
            o = list(shuffle(len(ix))) if shuffle else list(range(len(ix)))
            ix = [ix[q] for q in o]
            return S.arr([d[i] for i in ix]), S.arr(U[:, ix])

        S.HOOKS_LA.update(eigh=eigh, eigvalsh=eigvalsh)
        P.HOOKS.update(expm=expm, eigsh=eigsh, eigh=eigh, eigvalsh=eigvalsh)

    def formula(self, b):
        return b


def tidy(v):
    """drop coefficients that are rounding residue of a concrete unitary"""
    if isinstance(v, R.E):
        t = {m: c for m, c in v.t.items() if abs(c) > 1e-9}
        return R.mk(t)
    return 0 if abs(v) < 1e-9 else v


class ConcCtx(Ctx):
    sym = False

    def known_basis(self, U, shuffle=None):
        pass

    def known_root(self, *roots):
        pass

    def script(self, name, order=None):
        import glob as g
        import importlib.util
        if not hasattr(g, "_listing"):
            g._listing = g.iglob

        def listing(*a, **kw):
            got = sorted(g._listing(*a, **kw))
            return got if order is None else order(got)
        g.glob, g.iglob = listing, (lambda *a, **kw: iter(listing(*a, **kw)))
        path = os.path.join(L.REPO, "cluster", name + ".py")
        spec = importlib.util.spec_from_file_location("cluster_" + name, path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m

    def store(self, name, obj):
        with open(name, "wb") as h:
            pickle.dump(obj, h)

    def fetch(self, name):
        with open(name, "rb") as h:
            return pickle.load(h)

    def scratch(self):
        self.dirs.append(tempfile.mkdtemp(prefix="verif_"))
        return self.dirs[-1]

    def exists(self, name):
        return os.path.exists(os.path.join(self.dirs[-1], name))

    def inside(self, d):
        return contextlib.chdir(d)

    def __init__(self, values, rng):
        self.values = values
        self.rng = rng
        self.used = {}
        self.np = np
        self.sp = rsp
        self.failures = []
        self.nchecks = 0
        self.dirs = []

    def mod(self, name):
        return importlib.import_module("exact_diag." + name)

    def real(self, name, lo=-DEF, hi=DEF, nonzero=False, pos=False):
        if name in self.values:
            v = float(self.values[name])
        else:
            w = min(hi, max(lo, 0) + 3.0) if lo >= 0 else min(hi, 3.0)
            l = lo if lo >= 0 else max(lo, -3.0)
            if l > w:
                l, w = lo, hi
            v = self.rng.uniform(l, w)
            if (nonzero or pos) and abs(v) < 0.05:
                v = 0.05 + abs(v) if w > 0.1 else w
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        v = int(round(self.values[name])) if name in self.values else self.rng.randint(int(lo), int(hi))
        self.used[name] = v
        return v

    def choice(self, name, n):
        if n == 1:
            return 0
        return self.int(name, 0, n - 1)

    def pack(self, out, cplx=False):
        return np.array(out.tolist(), dtype=complex if cplx else float).reshape(out.shape)

    def ints(self, name, shape, lo, hi):
        return np.array(Ctx.ints(self, name, shape, lo, hi).tolist(), dtype=int)

    def assume(self, b):
        if isinstance(b, np.ndarray):
            b = b.all()
        if not b:
            raise AssumeFailed()

    def eq(self, code, ref, label):
        self.nchecks += 1
        c, cs = _flat(code)
        r, rs = _flat(ref)
        if cs != rs and not (len(r) == 1 and rs == ()):
            if int(np.prod(cs)) != int(np.prod(rs)) or tuple(x for x in cs if x != 1) != tuple(x for x in rs if x != 1):
                self.failures.append(Failure(label, "shape %s instead of %s" % (cs, rs)))
                return
        if len(r) == 1 and len(c) > 1:
            r = r * len(c)
        c, r = np.array(c, dtype=complex), np.array(r, dtype=complex)
        if c.size == 0:
            return
        cn, rn = ~np.isfinite(c), ~np.isfinite(r)
        # a reference that overflows says nothing about the code
        bad = cn & ~rn
        fin = ~(cn | rn)
        scale = max(1.0, float(np.max(np.abs(r[fin]))) if fin.any() else 1.0)
        with np.errstate(all="ignore"):
            bad |= fin & (np.abs(c - r) > TOL * scale)
        if bad.any():
            k = int(np.argmax(bad))
            self.failures.append(Failure(label, "entry %s: got %s, expected %s (%d of %d entries differ)" %
                                         (np.unravel_index(k, cs) if cs else "()", c[k], r[k], bad.sum(), bad.size)))

    def true(self, b, label):
        self.nchecks += 1
        if isinstance(b, np.ndarray):
            b = b.all()
        if not b:
            self.failures.append(Failure(label, "does not hold"))

    def raises(self, f, label):
        self.nchecks += 1
        try:
            f()
        except Exception:
            return
        self.failures.append(Failure(label, "no error raised"))


# ----------------------------------------------------------------------------------------------
# concrete runs
# ----------------------------------------------------------------------------------------------

def run_concrete(fn, case, values, seed=0):
    """(status, failures, used): status in ok / fail / skip"""
    ctx = ConcCtx(values, random.Random(seed))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                with Quiet():
                    fn(ctx, **case)
    except AssumeFailed:
        return "skip", [], ctx.used
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(L.DIRS)]
        where = inrepo[-1] if inrepo else tb[-1]
        ctx.failures.append(Failure("exception", "%s: %s (at %s:%d)" % (type(e).__name__, str(e)[:200],
                                                                         os.path.basename(where.filename), where.lineno)))
    finally:
        for d in ctx.dirs:
            shutil.rmtree(d, ignore_errors=True)
    return ("fail" if ctx.failures else "ok"), ctx.failures, ctx.used


class Quiet:
    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.o


# ----------------------------------------------------------------------------------------------
# deciding one path
# ----------------------------------------------------------------------------------------------

def clear_pair(c, r):
    """multiply both sides by the (nonzero) denominators"""
    for _ in range(60):
        best = None
        for x in (c, r):
            if isinstance(x, E):
                for m in x.t:
                    for i, e in m:
                        if R.ATOMS[i].kind == "inv" and (best is None or i > best):
                            best = i
        if best is None:
            break
        D = R.ATOMS[best].key
        n = 0
        for x in (c, r):
            if isinstance(x, E):
                for m in x.t:
                    n = max(n, dict(m).get(best, 0))
        c, r = mulout(c, best, D, n), mulout(r, best, D, n)
        if size_of(c) + size_of(r) > 60000:
            raise Unsupported("expression too large")
    return c, r


def size_of(x):
    return len(x.t) if isinstance(x, E) else 1


def mulout(x, i, D, n):
    pw = {0: np.float64(1.0)}

    def p(k):
        if k not in pw:
            pw[k] = R.mul(p(k - 1), D)
        return pw[k]
    if not isinstance(x, E):
        return R.mul(p(n), x)
    parts = {}
    for m, c in x.t.items():
        d = dict(m)
        e = d.pop(i, 0)
        parts.setdefault(e, {})[tuple(sorted(d.items()))] = c
    out = np.float64(0.0)
    for e, t in parts.items():
        out = R.add(out, R.mul(R.mk(dict(t)), p(n - e)))
    return out


def snap(c, r):
    """code term with coefficients replaced by the reference's where they agree to SNAP (rounding idealisation)"""
    ct, rt = R.lift(c), R.lift(r)
    scale = max([abs(x) for x in rt.values()] + [abs(x) for x in ct.values()] + [0.0])
    out = {}
    for m, x in ct.items():
        y = rt.get(m)
        if y is not None and abs(x - y) <= R.SNAP * max(abs(y), 1e-3 * scale):
            out[m] = y
        elif y is None and abs(x) <= 1e-11 * scale:
            continue
        else:
            out[m] = x
    for m, y in rt.items():
        if m not in ct and abs(y) <= 1e-11 * scale:
            out[m] = y
    return out, rt


class PathResult:
    def __init__(self):
        self.status = "ok"       # ok / cand / unknown / infeasible
        self.cands = []          # value assignments to replay
        self.why = ""
        self.label = None
        self.nobl = 0
        self.witness = None


def unit_values(path, ev):
    out = {}
    for n, a in path.vars.items():
        if n in ev.base:
            out[n] = ev.base[n]
    return out


def witness_values(path):
    """an assignment satisfying the path condition, or None"""
    if path.witness is None:
        path.witness = path.fresh_witness(tries=100)
    if path.witness is None:
        r, m = path.check()
        if m is not None:
            mv = path.model_values(m)
            path.witness = path.fresh_witness(tries=0, hints=[mv])
            if path.witness is None:
                for n, a in path.vars.items():
                    if n not in mv:
                        mv[n] = path.sample_var(a)
                return mv
    if path.witness is None:
        return None
    return unit_values(path, path.witness)


def verify_path(path, ctx):
    res = PathResult()
    wv = witness_values(path)
    res.witness = wv
    if wv is None:
        r, m = path.check()
        if r == z3.unsat:
            res.status = "infeasible"
            return res

    def cand(label, why, values):
        res.status = "cand"
        res.label = label
        res.why = why
        for v in values:
            if v is not None:
                res.cands.append(v)

    for f in ctx.failed:
        cand(f.label, f.detail, [wv])
    if res.status == "cand":
        return res

    # boolean obligations
    for label, b in ctx.trues:
        res.nobl += 1
        if not isinstance(b, B):
            if not b:
                cand(label, "does not hold on this path", [wv])
                return res
            path.stats.queries += 0
            continue
        f = path.z.formula(b)
        r, m = path.check(z3.Not(f), ms=15000)
        if r == z3.unsat:
            continue
        if r == z3.sat:
            vals = complete(path, path.model_values(m))
            more = search(path, lambda ev: ev.truth(b) is False)
            cand(label, "condition can fail", [vals, more])
            return res
        more = search(path, lambda ev: ev.truth(b) is False)
        if more is not None:
            cand(label, "condition can fail", [more])
            return res
        res.status = "unknown"
        res.why = "solver unknown on " + label
        return res

    same, diff = [], []
    seen = set()
    for label, cs, rs in ctx.obl:
        for n, (c, r) in enumerate(zip(cs, rs)):
            res.nobl += 1
            ce, re_ = isinstance(c, E), isinstance(r, E)
            if isinstance(c, B):
                c = float(bool(c))
            if isinstance(r, B):
                r = float(bool(r))
            if not ce and not re_:
                cc, rr = complex(c), complex(r)
                fc, fr = np.isfinite(cc), np.isfinite(rr)
                if fc and fr:
                    if abs(cc - rr) <= TOL * max(1.0, abs(rr)):
                        continue
                elif not fc and not fr:
                    if np.isnan(cc) == np.isnan(rr) and (np.isnan(cc) or cc.real == rr.real):
                        continue
                cand(label, "entry %d: %s instead of %s" % (n, cc, rr), [wv])
                return res
            if R._special_num(c) or R._special_num(r):
                cand(label, "entry %d: %s instead of %s" % (n, c, r), [wv])
                return res
            k = (R.key_of(R.lift(c)), R.key_of(R.lift(r)))
            if k in seen:
                continue
            seen.add(k)
            d = R.sub(c, r)
            if not isinstance(d, E) and abs(d) > TOL:
                cand(label, "entry %d: %s instead of %s" % (n, c, r), [wv])
                return res
            same.append((label, n, c, r))
    path.stats.terms += len(same)

    zs, hard = [], []
    for label, n, c, r in same:
        c2, r2 = clear_pair(c, r)
        ct, rt = snap(c2, r2)
        eqs = len(ct) == len(rt) and all(rt.get(m) == x for m, x in ct.items())
        cE, rE = R.mk(dict(ct)), R.mk(dict(rt))
        a1, b1 = path.z.reim(cE)
        a2, b2 = path.z.reim(rE)
        ne = z3.Or(a1 != a2, b1 != b2)
        if eqs:
            zs.append(ne)
        else:
            hard.append((label, n, c, r, cE, rE, ne))
    for k in range(0, len(zs), 64):
        # the normalised sides coincide term by term: one query for the lot
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(z3.Or(zs[k:k + 64]))
        t0 = time.time()
        rr = s.check()
        path.stats.queries += 1
        path.stats.solver_s += time.time() - t0
        if rr != z3.unsat:
            res.status = "unknown"
            res.why = "solver %s on normalised equalities" % rr
            return res
    for label, n, c, r, cE, rE, ne in hard:
        d = R.sub(c, r)
        if wv is not None:
            ev = R.Eval(dict(wv))
            try:
                if far(ev, c, r):
                    cand(label, "entry %d: %s instead of %s" % (n, show(c), show(r)), [wv])
                    return res
            except (ZeroDivisionError, ValueError, OverflowError, KeyError):
                pass
        rr, m = path.check(ne, ms=8000)
        if rr == z3.unsat:
            continue
        mv = search(path, lambda ev: far(ev, c, r))
        if mv is not None:
            cand(label, "entry %d: %s instead of %s" % (n, show(c), show(r)), [mv])
            return res
        re1, im1 = path.z.reim(R.sub(cE, rE))
        far_f = z3.Or(re1 > R.zval(R.rat(1e-5)), re1 < R.zval(R.rat(-1e-5)), im1 > R.zval(R.rat(1e-5)),
                      im1 < R.zval(R.rat(-1e-5)))
        r2, m2 = path.check(far_f, ms=8000)
        if r2 == z3.unsat:
            path.stats.within_tol = getattr(path.stats, "within_tol", 0) + 1
            continue
        if r2 == z3.sat:
            cand(label, "entry %d: %s instead of %s" % (n, show(c), show(r)), [complete(path, path.model_values(m2))])
            return res
        res.status = "unknown"
        res.why = "solver unknown on %s entry %d" % (label, n)
        return res
    return res


def far(ev, c, r):
    x, y = complex(ev.value(c)), complex(ev.value(r))
    return abs(x - y) > 1e-5 * max(1.0, abs(y))


def show(x):
    return x.show(6) if isinstance(x, E) else str(x)


def complete(path, mv):
    for n, a in path.vars.items():
        if n not in mv:
            mv[n] = path.sample_var(a)
    return mv


def search(path, pred, tries=60):
    for _ in range(tries):
        ev = path.fresh_witness(tries=5)
        if ev is None:
            return None
        try:
            if pred(ev):
                return unit_values(path, ev)
        except (ZeroDivisionError, ValueError, OverflowError):
            pass
    return None


# ----------------------------------------------------------------------------------------------
# one task = one harness at one structural case
# ----------------------------------------------------------------------------------------------
WORLD = None


def get_world():
    global WORLD
    if WORLD is None:
        warnings.simplefilter("ignore")
        WORLD = L.World()
    return WORLD


class TaskResult:
    def __init__(self, name, case):
        self.name = name
        self.case = case
        self.paths = 0
        self.infeasible = 0
        self.pending = 0
        self.obligations = 0
        self.queries = 0
        self.unknown = 0
        self.forks = 0
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.status = "holds"          # holds / violated / inconclusive
        self.inconclusive = []
        self.violation = None          # (label, detail, values, seed)
        self.functions = []
        self.concrete_runs = 0
        self.sample = None
        self.within_tol = 0


def _alarm(sig, frame):
    raise PathAbort("time budget")


def run_task(fn, name, case, budget, seed=1, max_paths=4000, fallback=12):
    t0 = time.time()
    out = TaskResult(name, case)
    R.reset_atoms()
    stats = R.Stats()
    rng = random.Random(seed * 7919 + 13)
    world = get_world()
    tr = L.Trace()
    tr.start()
    deadline = t0 + budget
    work = [([], [], {})]
    witnesses = []
    old = signal.signal(signal.SIGALRM, _alarm)
    try:
        while work:
            if time.time() > deadline or out.paths >= max_paths:
                out.inconclusive.append("path budget: %d paths done, %d pending" % (out.paths, len(work)))
                break
            prefix, cand, hint = work.pop()
            path = R.Path(prefix, stats, rng, deadline, cand=cand)
            path.hint = hint
            R.set_path(path)
            S.HOOKS_LA.clear()
            P.HOOKS.clear()
            world.files.data.clear()
            ctx = SymCtx(world, path)
            exc = None
            signal.setitimer(signal.ITIMER_REAL, max(0.5, deadline + 10 - time.time()))
            try:
                with np.errstate(all="ignore"):
                    fn(ctx, **case)
            except PathAbort as e:
                work.extend(path.pending)
                if e.why == "time budget":
                    out.inconclusive.append("time budget inside a path (%d paths done)" % out.paths)
                    break
                out.infeasible += 1
                continue
            except Unsupported as e:
                out.inconclusive.append("unsupported: %s [%s]" % (e, where(e)))
                wv = None
                try:
                    wv = witness_values(path)
                except (PathAbort, Exception):
                    pass
                if wv is not None:
                    witnesses.append(wv)
                work.extend(path.pending)
                if len(out.inconclusive) > 3:
                    break
                continue
            except Exception as e:
                exc = e
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            work.extend(path.pending)
            signal.setitimer(signal.ITIMER_REAL, max(0.5, deadline + 30 - time.time()))
            try:
                if exc is not None:
                    wv = witness_values(path)
                    if wv is None:
                        r, m = path.check()
                        if r == z3.unsat:
                            out.infeasible += 1
                            continue
                    vs = [wv] if wv is not None else [{}]
                    if not confirm(fn, case, vs, out, seed):
                        out.inconclusive.append("exception on a path not reproduced: %s: %s [%s]" % (
                            type(exc).__name__, str(exc)[:120], where(exc)))
                        if wv is not None:
                            witnesses.append(wv)
                        if len(out.inconclusive) > 3:
                            break
                        continue
                    break
                pr = verify_path(path, ctx)
            except PathAbort:
                out.inconclusive.append("time budget in the final query")
                break
            except Unsupported as e:
                out.inconclusive.append("unsupported in final query: %s" % e)
                continue
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if pr.status == "infeasible":
                out.infeasible += 1
                continue
            out.paths += 1
            out.obligations += pr.nobl
            if pr.witness is not None and len(witnesses) < 40:
                witnesses.append(pr.witness)
            if out.sample is None and pr.witness is not None:
                out.sample = {k: round(float(v), 6) for k, v in list(pr.witness.items())[:12]}
            if pr.status == "cand":
                if confirm(fn, case, pr.cands, out, seed):
                    break
                out.inconclusive.append("counterexample not reproduced: %s: %s" % (pr.label, pr.why[:200]))
                if len(out.inconclusive) > 3:
                    break
            elif pr.status == "unknown":
                out.inconclusive.append(pr.why)
                if len(out.inconclusive) > 3:
                    break
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        tr.stop()
    out.pending = len(work)
    out.functions = sorted(tr.seen)
    out.queries, out.unknown, out.forks, out.solver_s = stats.queries, stats.unknown, stats.forks, stats.solver_s
    out.within_tol = getattr(stats, "within_tol", 0)
    if out.violation is None and not out.inconclusive and (out.paths == 0 or out.obligations == 0):
        out.inconclusive.append("vacuous: no feasible path reached an obligation")
    # validation of the encoding (and the safety net of an inconclusive harness): the real code at solver-chosen points
    if out.violation is None:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, 60)
        try:
            pts = pick(witnesses, 3, rng)
            if out.inconclusive:
                pts = pick(witnesses, 8, rng) + [{}] * fallback
            for k, v in enumerate(pts):
                st, fails, used = run_concrete(fn, case, v, seed=seed + k)
                out.concrete_runs += 1
                if st == "fail":
                    out.violation = (fails[0].label, fails[0].detail, used, seed + k)
                    break
        except PathAbort:
            out.inconclusive.append("concrete runs cut short")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    out.status = "violated" if out.violation else ("inconclusive" if out.inconclusive else "holds")
    out.wall_s = time.time() - t0
    return out


def pick(xs, n, rng):
    return list(xs) if len(xs) <= n else rng.sample(xs, n)


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    inrepo = [f for f in tb if f.filename.startswith(L.DIRS)]
    w = inrepo[-1] if inrepo else tb[-1]
    return "%s:%d %s" % (os.path.basename(w.filename), w.lineno, w.name)


def confirm(fn, case, values, out, seed):
    """replay candidate assignments on the real code"""
    tried = 0
    for v in values:
        st, fails, used = run_concrete(fn, case, v, seed=seed)
        out.concrete_runs += 1
        tried += 1
        if st == "fail":
            out.violation = (fails[0].label, fails[0].detail, used, seed)
            return True
    for k in range(6):
        # nearby points of the same model: boundary assignments are sensitive to rounding
        v = dict(values[0]) if values else {}
        rr = random.Random(seed + 100 + k)
        for n in v:
            if isinstance(v[n], float) and v[n] != round(v[n]):
                v[n] = v[n] * (1 + 1e-3 * rr.uniform(-1, 1))
        st, fails, used = run_concrete(fn, case, v, seed=seed + k)
        out.concrete_runs += 1
        if st == "fail":
            out.violation = (fails[0].label, fails[0].detail, used, seed + k)
            return True
    return False
