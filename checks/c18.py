"""C18 linear-response functions and optical conductivity"""
import numpy as np
from .common import *
from .c13 import model
from . import c02

BOUNDS = ("2 and 3 levels (thorough 4) with every spectrum (energies +-1000, gaps 1e-3..500, or concrete with exact degeneracies, degeneracies split by rounding, and bandwidths far above the temperature), every Hermitian operator or pair of real "
          "symmetric ones, every frequency 1e-3..1000 of either sign, every broadening 1e-3..10, temperatures 0, concrete and every value 1e-3..1e4")
ASSUMPTIONS = ["A_nm B_mn is real (one Hermitian operator, or two real symmetric ones); the code documents that it drops imaginary parts",
               "time-ordered function: positive frequencies at finite temperature, both signs at zero temperature"]


def herm(ctx, nm, n, real=False):
    A = ctx.np.zeros((n, n), dtype=complex)
    for i in range(n):
        A[i, i] = ctx.real("%s%d" % (nm, i), nonzero=True)
        for j in range(i):
            z = ctx.real("%s%d%d" % (nm, i, j), nonzero=True) if real else ctx.cplx("%s%d%d" % (nm, i, j), nonzero=True)
            A[i, j] = z
            A[j, i] = ctx.np.conj(z)
    return A


def spectrum(ctx, n, kind):
    if kind == "sym":
        e = [ctx.real("e0")]
        for i in range(1, n):
            e.append(e[-1] + ctx.real("g%d" % i, 1e-3, 500, pos=True))
        return ctx.np.array(e)
    if kind == "deg":
        return np.array([-0.4, -0.4, 0.9, 1.3][:n])
    if kind == "degtop":
        return np.array([-1.1, 0.2, 0.2, 0.2][:n])
    if kind == "split":       # degenerate up to rounding, as a numerical diagonalisation returns it
        return np.array([-2.0, -2.0 + 4.5e-16, 0.3, 0.3 + 5.5e-17][:n])
    if kind == "cold":        # bandwidth far above the temperature
        return np.array([-700.0, -100.0, 650.0, 900.0][:n])
    return np.array([-0.7, 0.1, 1.2, 1.9][:n])


def lor(ctx, w, eta):
    return eta / np.pi / (eta ** 2 + w * w)


def freq(ctx, both=True):
    w = ctx.real("w", 1e-3, 1000, pos=True)
    return -w if both and ctx.choice("neg", 2) else w


def retarded(ctx, n, kind, fmt, T, pair):
    m = model(ctx)
    e = spectrum(ctx, n, kind)
    A = herm(ctx, "a", n, pair)
    B = herm(ctx, "b", n, True) if pair else A
    eta = ctx.real("eta", 1e-3, 10, pos=True)
    w = freq(ctx)
    s = -1 if fmt == "boson" else 1
    t = ctx.real("T", 1e-3, 1e4, pos=True) if T is None else T
    f = m.get_response_fn_retarded(A, B, e, t, format=fmt) if fmt != "boson" else m.get_response_fn_retarded(A, B, e, t)
    r = f(w, eta)
    tot = 0
    if T == 0:
        for k in range(n):
            tot = tot + ctx.np.real(A[0, k] * B[k, 0]) * lor(ctx, w - (e[k] - e[0]), eta)
            tot = tot + s * ctx.np.real(A[k, 0] * B[0, k]) * lor(ctx, w + (e[k] - e[0]), eta)
        ctx.eq(r, np.pi * tot, "ground-state spectral sum")
        return
    z = 0
    for k in range(n):
        z = z + ctx.np.exp(-(e[k] - e[0]) / t)
    for i in range(n):
        for j in range(n):
            wt = ctx.np.exp(-(e[i] - e[0]) / t) + s * ctx.np.exp(-(e[j] - e[0]) / t)
            tot = tot + ctx.np.real(A[i, j] * B[j, i]) * wt * lor(ctx, w + e[i] - e[j], eta)
    ctx.eq(r * z, np.pi * tot, "thermal spectral sum")


def parity(ctx, n, kind, T):
    """a Hermitian operator's bosonic response is odd and its fermionic one even in frequency"""
    m = model(ctx)
    e = spectrum(ctx, n, kind)
    A = herm(ctx, "a", n)
    eta = ctx.real("eta", 1e-3, 10, pos=True)
    w = freq(ctx, False)
    f = m.get_response_fn_retarded(A, A, e, T, format="boson")
    ctx.eq(f(w, eta), -f(-w, eta), "odd")
    f = m.get_response_fn_retarded(A, A, e, T, format="fermion")
    ctx.eq(f(w, eta), f(-w, eta), "even")
    ctx.raises(lambda: m.get_response_fn_retarded(A, A, e, T, format="other"), "unknown format")


def ordered(ctx, n, kind, T):
    m = model(ctx)
    e = spectrum(ctx, n, kind)
    A = herm(ctx, "a", n)
    eta = ctx.real("eta", 1e-3, 10, pos=True)
    w = freq(ctx, T == 0)
    aw = ctx.np.abs(w)
    t = ctx.real("T", 1e-3, 1e4, pos=True) if T is None else T
    r = m.get_response_fn_time_ordered(A, A, e, t)(w, eta)
    tot = 0
    if T == 0:
        for k in range(n):
            tot = tot + ctx.np.real(A[0, k] * A[k, 0]) * (lor(ctx, aw - (e[k] - e[0]), eta) - lor(ctx, aw + (e[k] - e[0]), eta))
        ctx.eq(r, np.pi * tot, "ground-state spectral sum")
        return
    z = 0
    for k in range(n):
        z = z + ctx.np.exp(-(e[k] - e[0]) / t)
    for i in range(n):
        for j in range(n):
            wt = ctx.np.exp(-(e[j] - e[0]) / t) * ctx.np.real(A[i, j] * A[j, i])
            tot = tot + wt * (lor(ctx, w - (e[i] - e[j]), eta) - lor(ctx, w + (e[i] - e[j]), eta))
    ctx.eq(r * z, np.pi * tot, "thermal spectral sum")


def fm(ctx, sites):
    return c02.fermi(ctx)(chain(ctx, sites), 0.0, 1.0, nspecies=1)


def conductivity(ctx, n, kind, T, sites):
    m = fm(ctx, sites)
    e = spectrum(ctx, n, kind)
    J = herm(ctx, "j", n)
    eta = ctx.real("eta", 1e-3, 10, pos=True)
    w = freq(ctx)
    t = ctx.real("T", 1e-3, 1e4, pos=True) if T is None else T
    r = m.get_optical_cond_fn(J, e, t)(w, eta)
    tot = 0
    if T == 0:
        aw = ctx.np.abs(w)
        for k in range(1, n):
            if kind in ("deg", "split") and k == 1:
                continue
            de = e[k] - e[0]
            tot = tot + ctx.np.real(J[k, 0] * J[0, k]) / de * lor(ctx, aw - de, eta)
        ctx.eq(r, np.pi / sites * tot, "ground-state Kubo sum")
        return
    z = 0
    for k in range(n):
        z = z + ctx.np.exp(-(e[k] - e[0]) / t)
    for i in range(n):
        for j in range(n):
            wt = ctx.np.exp(-(e[j] - e[0]) / t) - ctx.np.exp(-(e[i] - e[0]) / t)
            tot = tot + ctx.np.real(J[i, j] * J[j, i]) * wt / w * lor(ctx, w - (e[i] - e[j]), eta)
    ctx.eq(r * z, np.pi / sites * tot, "thermal Kubo sum")


def integral(ctx, n, kind, T, sites):
    m = fm(ctx, sites)
    e = spectrum(ctx, n, kind)
    J = herm(ctx, "j", n)
    t = ctx.real("T", 1e-3, 1e4, pos=True) if T is None else T
    r = m.integrate_conductivity(J, e, t)
    same = lambda i, j: i == j or (kind in ("deg", "split") and {i, j} in ({0, 1}, {2, 3} if kind == "split" else {0, 1})) or (kind == "degtop" and min(i, j) >= 1)
    tot = 0
    if T == 0:
        for k in range(n):
            if not same(k, 0):
                tot = tot + 2 * ctx.np.real(J[k, 0] * J[0, k]) / (e[k] - e[0])
        ctx.eq(r, np.pi / sites * tot, "ground-state sum")
        return
    z = 0
    for k in range(n):
        z = z + ctx.np.exp(-(e[k] - e[0]) / t)
    for i in range(n):
        for j in range(n):
            if not same(i, j):
                wt = ctx.np.exp(-(e[j] - e[0]) / t) - ctx.np.exp(-(e[i] - e[0]) / t)
                tot = tot + ctx.np.real(J[i, j] * J[j, i]) * wt / (e[i] - e[j])
    ctx.eq(r * z, np.pi / sites * tot, "integrated weight without the zero-frequency part")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for n in (2, 3) + ((4,) if th else ()):
        b = 200 if not th else 900
        for kind in ("sym", "plain", "deg", "degtop", "split", "cold"):
            for t in (None, 0, 0.8) if kind != "sym" or n < 3 or th else (0, 0.8):
                for f in ("boson", "fermion"):
                    for p in (False, True):
                        T.append((retarded, dict(n=n, kind=kind, fmt=f, T=t, pair=p), b))
                T.append((ordered, dict(n=n, kind=kind, T=t), b))
                T.append((conductivity, dict(n=n, kind=kind, T=t, sites=2), b))
                T.append((integral, dict(n=n, kind=kind, T=t, sites=3), b))
            for t in (0, 0.8):
                T.append((parity, dict(n=n, kind=kind, T=t), b))
    return T
