"""C26 hydrodynamic susceptibility, field profile and real-time response"""
import numpy as np
from .common import *
from .c25 import wgrid, trapz

BOUNDS = ("every frequency +-100, wavevector 0.05..10 of either sign, static susceptibility +-1000, diffusion constants 0.05..10  each, relaxation rate 0.05..100 and "
          "infinite; every frequency grid of 2..4 points (thorough 6) with any spacing, any complex susceptibility and field, 1..3 times +-50")
ASSUMPTIONS = ["the denominator of the hydrodynamic form does not vanish (real frequencies)"]


def hydro(ctx, gamma, d2, n):
    """chi (D k^2 - i w - w^2/gamma) = chi0 D k^2 with D = d0 + d2 k^2"""
    g = ctx.mod("greens_fns")
    k = ctx.real("k", 0.05, 10, pos=True)
    if ctx.choice("kneg", 2):
        k = -k
    c0 = ctx.real("chi0")
    d0 = ctx.real("d0", 0.05, 10, pos=True)
    w = [ctx.real("w%d" % i, -100, 100, nonzero=True) for i in range(n)]
    kw = {}
    D = d0
    if d2:
        kw["d2"] = ctx.real("d2", 0.05, 10, pos=True)
        D = d0 + kw["d2"] * k ** 2
    if gamma == "finite":
        kw["gamma"] = ctx.real("gamma", 0.05, 100, pos=True)
    elif gamma == "inf":
        kw["gamma"] = np.inf
    chi = g.chi_hydro(ctx.np.array(w), k, c0, d0, **kw)
    ctx.eq(ctx.np.shape(chi), (n,), "one value per frequency")
    for i in range(n):
        den = D * k ** 2 - 1j * w[i]
        if gamma == "finite":
            den = den - w[i] ** 2 / kw["gamma"]
        ctx.eq(chi[i] * den, c0 * D * k ** 2, "diffusive response with current relaxation")
    z = g.chi_hydro(0.0, k, c0, d0, **kw)
    ctx.eq(z, c0, "static limit")
    a = g.chi_hydro(-w[0], k, c0, d0, **kw)
    ctx.eq(a, ctx.np.conj(chi[0]), "real in time")


def snap_off(ctx, n, given):
    g = ctx.mod("greens_fns")
    h = ctx.real("h")
    eta = ctx.real("eta", 1e-3, 10, pos=True) if given else 0.1
    w = [ctx.real("w%d" % i, -100, 100, nonzero=True) for i in range(n)]
    f = g.field_snap_off_w(ctx.np.array(w), h, eta) if given else g.field_snap_off_w(ctx.np.array(w), h)
    for i in range(n):
        ctx.eq(f[i] * (eta + 1j * w[i]), h, "field of strength h switched off at time zero")


def real_time(ctx, n, m):
    g = ctx.mod("greens_fns")
    w = wgrid(ctx, n)
    c = ctx.cplxs("c", n)
    f = ctx.cplxs("f", n)
    ts = [ctx.real("t%d" % k, -50, 50) for k in range(m)]
    p = g.phi_t(ctx.np.array(ts), ctx.np.array(w), c)
    o = g.obs_kt(ctx.np.array(ts), ctx.np.array(w), c, f)
    q = g.phi_t(ctx.np.array(ts), ctx.np.array(w), c * f)
    ctx.eq(ctx.np.shape(p), (m,), "one value per time")
    ctx.eq(ctx.np.shape(o), (m,), "one value per time")
    for k in range(m):
        ph = [ctx.np.exp(-1j * w[j] * ts[k]) for j in range(n)]
        ctx.eq(p[k], trapz([c[j] * ph[j] for j in range(n)], w) / (2 * np.pi), "response function in time")
        ctx.eq(o[k], trapz([c[j] * f[j] * ph[j] for j in range(n)], w) / (2 * np.pi), "observable driven by the field")
        ctx.eq(o[k], q[k], "response to the field is the transform of the product")


def real_signal(ctx, n):
    """a susceptibility with chi(-w) = chi(w)* on a symmetric grid gives a real response"""
    g = ctx.mod("greens_fns")
    w = [ctx.real("w0", 0.01, 10, pos=True)]
    for i in range(1, n):
        w.append(w[-1] + ctx.real("d%d" % i, 1e-3, 10, pos=True))
    c = list(ctx.cplxs("c", n))
    t = ctx.real("t", -50, 50)
    ws = ctx.np.array([-x for x in w[::-1]] + w)
    cs = ctx.np.array([ctx.np.conj(x) for x in c[::-1]] + c)
    p = g.phi_t(ctx.np.array([t]), ws, cs)
    ctx.eq(ctx.np.imag(p[0]), 0.0, "real response")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for ga in ("default", "inf", "finite"):
        for d2 in (False, True):
            for n in (1, 2) + ((3,) if th else ()):
                T.append((hydro, dict(gamma=ga, d2=d2, n=n)))
    for n in (1, 3):
        T.append((snap_off, dict(n=n, given=True)))
        T.append((snap_off, dict(n=n, given=False)))
    for n, m in ((2, 1), (2, 2), (3, 1), (3, 3), (4, 2)) + (((6, 3),) if th else ()):
        T.append((real_time, dict(n=n, m=m), 300))
    for n in (1, 2, 3) + ((4,) if th else ()):
        T.append((real_signal, dict(n=n), 300))
    return T
