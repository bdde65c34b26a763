"""C16 quench dynamics is unitary evolution with the given spectrum"""
import numpy as np
from .common import *
from .c13 import model, unitary

BOUNDS = ("dimension 1..4 with every spectrum, concrete real and complex eigenbases, every initial state (1..3 states, 1D or 2D), 1..3 "
          "times +-100 (scalar or array), truncated eigenbases")
ASSUMPTIONS = ["times are floats or arrays (documented use)"]


def setup(ctx, d, k, nv=None):
    m = model(ctx)
    U = unitary(d, k)[:, :nv]
    e = ctx.reals("e", U.shape[1])
    return m, U, e


def evolve_ref(ctx, U, e, psi, t):
    a = U.conj().T @ psi
    b = ctx.np.array([ctx.np.exp(-1j * e[i] * t) * a[i] for i in range(len(e))])
    return U @ b


def evolve(ctx, d, k, ns, nt, nv=None):
    m, U, e = setup(ctx, d, k, nv)
    psi = ctx.cplxs("p", (d, ns))
    ts = [0.0, 0.7, 1.9][:nt] if nt > 1 else [1.3]
    tt, r = m.quench_time_evolve(psi, U, e, np.array(ts))
    ctx.eq(tt, np.array(ts), "times returned")
    r = ctx.np.reshape(r, (d, nt, ns))
    for q in range(nt):
        for s in range(ns):
            ctx.eq(r[:, q, s], evolve_ref(ctx, U, e, psi[:, s], ts[q]), "sum_n |n> exp(-i E_n t) <n|psi>")


def evolve_time(ctx, d, k, form):
    """every time, fixed spectrum"""
    m = model(ctx)
    U = unitary(d, k)
    e = np.array([-0.7, 0.4, 1.1, 2.0])[:d]
    t = ctx.real("t", -100, 100)
    psi = ctx.cplxs("p", d)
    arg = t if form == "scalar" and not ctx.sym else ctx.np.array([t])
    tt, r = m.quench_time_evolve(psi, U, e, arg)
    ctx.eq(tt, ctx.np.array([t]), "time returned")
    ctx.eq(ctx.np.reshape(r, (d,)), evolve_ref(ctx, U, e, psi, t), "sum_n |n> exp(-i E_n t) <n|psi>")


def scalar_time(ctx, d):
    m, U, e = setup(ctx, d, 3)
    psi = ctx.cplxs("p", d)
    for t in (0, 2, 0.75):
        tt, r = m.quench_time_evolve(psi, U, e, t)
        ctx.eq(tt, [float(t)], "scalar time accepted")
        ctx.eq(ctx.np.reshape(r, (d,)), evolve_ref(ctx, U, e, psi, t), "scalar time")


def unitary_dyn(ctx, d, k):
    """norms, overlaps and energy are conserved, time zero is the identity, evolutions compose"""
    m, U, e = setup(ctx, d, k)
    psi = ctx.cplxs("p", (d, 1))
    t1, t2 = 0.6, 1.7
    _, r = m.quench_time_evolve(psi, U, e, np.array([0.0, t1, t1 + t2]))
    n0 = ctx.np.sum(ctx.np.conj(psi) * psi)
    for q in range(3):
        ctx.eq(ctx.np.sum(ctx.np.conj(r[:, q]) * r[:, q]), n0, "norm conserved")
    ctx.eq(r[:, 0], psi[:, 0], "identity at time zero")
    _, s = m.quench_time_evolve(r[:, 1], U, e, np.array([t2]))
    ctx.eq(ctx.np.reshape(s, (d,)), r[:, 2], "evolutions compose")
    H = U @ ctx.np.diag(e) @ U.conj().T
    ctx.eq(ctx.np.sum(ctx.np.conj(r[:, 2]) * (H @ r[:, 2])), ctx.np.sum(ctx.np.conj(psi[:, 0]) * (H @ psi[:, 0])), "energy conserved")


def eigenstate(ctx, d, k):
    m, U, e = setup(ctx, d, k)
    j = ctx.choice("j", d)
    _, r = m.quench_time_evolve(U[:, j], U, e, np.array([0.9, 1.8]))
    for q, t in enumerate((0.9, 1.8)):
        ctx.eq(r[:, q], ctx.np.exp(-1j * e[j] * t) * U[:, j], "eigenstates acquire a phase")


def hidden(ctx, d):
    """states outside a truncated eigenbasis do not appear"""
    m = model(ctx)
    U = unitary(d, 2)
    e = ctx.reals("e", d - 1)
    psi = ctx.cplxs("p", (d, 2))
    _, r = m.quench_time_evolve(psi, U[:, :d - 1], e, np.array([0.8]))
    ctx.eq(U[:, d - 1].conj() @ r, np.zeros(2), "no weight outside the basis")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for d in (2, 3) + ((4,) if th else ()):
        for k in (0, 1, 2, 3):
            for ns, nt in ((1, 1), (1, 3), (2, 1), (2, 3)) + (((3, 2),) if th else ()):
                T.append((evolve, dict(d=d, k=k, ns=ns, nt=nt), 200))
            T.append((unitary_dyn, dict(d=d, k=k), 200))
            T.append((eigenstate, dict(d=d, k=k), 200))
            for f in ("scalar", "array"):
                T.append((evolve_time, dict(d=d, k=k, form=f), 200))
    T += [(evolve, dict(d=3, k=3, ns=2, nt=2, nv=2), 200), (evolve, dict(d=3, k=2, ns=1, nt=2, nv=1), 200)]
    T += [(scalar_time, dict(d=2)), (scalar_time, dict(d=3)), (hidden, dict(d=2)), (hidden, dict(d=3))]
    return T
