"""C14 averages combined from symmetry sectors equal those of the full system"""
import numpy as np
from .common import *
from .c13 import model, temp, unitary
from . import c02

BOUNDS = ("1..3 sectors of 1..3 levels each with every energy +-1000 (gaps 1e-6..100, sector minima in any order), every temperature "
          "1e-3..1e4 and zero with every distribution of a ground manifold over the sectors, scalar, vector and matrix valued "
          "quantities, one to three temperatures; number sectors of two- and three-site models")
ASSUMPTIONS = ["energies within a sector are sorted", "degenerate levels are exactly equal, other gaps are at least 1e-6"]


def levels(ctx, sizes):
    out = []
    for s, n in enumerate(sizes):
        e = [ctx.real("e%d" % s)]
        for i in range(1, n):
            e.append(e[-1] + ctx.real("g%d_%d" % (s, i), 1e-6, 100, pos=True))
        out.append(ctx.np.array(e))
    return out


def partition(ctx, sizes):
    m = model(ctx)
    es = levels(ctx, sizes)
    T = ctx.real("T", 1e-3, 1e4, pos=True)
    z = m.get_partition_fn_sectors(es, T)
    # partition functions are measured from the lowest energy of all sectors
    lo = es[0][0]
    for e in es[1:]:
        lo = ctx.np.minimum(lo, e[0])
    ctx.true(len(z) == len(sizes), "one per sector")
    for s in range(len(sizes)):
        ctx.eq(z[s], ctx.np.sum(ctx.np.exp(-(es[s] - lo) / T)), "sector partition function")


def partition_many(ctx, sizes):
    m = model(ctx)
    es = levels(ctx, sizes)
    T = ctx.np.array([ctx.real("T0", 1e-3, 1e4, pos=True), 0.8])
    z = m.get_partition_fn_sectors(es, T)
    for k in range(2):
        one = m.get_partition_fn_sectors(es, T[k])
        for s in range(len(sizes)):
            ctx.eq(z[k][s], one[s], "temperature by temperature")


def combine(ctx, sizes, shape, T):
    """sum over all sectors and levels of Boltzmann weight times value, over the total partition function"""
    m = model(ctx)
    es = levels(ctx, sizes)
    T = ctx.real("T", 1e-3, 1e4, pos=True) if T is None else T
    vals = [ctx.reals("v%d" % s, (n,) + tuple(shape)) for s, n in enumerate(sizes)]
    sect = []
    for e, v in zip(es, vals):
        w = ctx.np.exp(-(e - e[0]) / T)
        sect.append(ctx.np.tensordot(w, v, axes=([0], [0])) / ctx.np.sum(w) if shape else (w @ v) / ctx.np.sum(w))
    r = m.thermal_avg_combine_sectors(ctx.np.array(sect), es, T)
    num_, den = 0, 0
    for e, v in zip(es, vals):
        w = ctx.np.exp(-(e - es[0][0]) / T)
        den = den + ctx.np.sum(w)
        for k in range(len(w)):
            num_ = num_ + w[k] * v[k]
    ctx.eq(ctx.np.array(r) * den, num_, "average over all sectors")


def combine_many(ctx, sizes, shape):
    """several temperatures: result is temperatures x value shape, each equal to the single-temperature one"""
    m = model(ctx)
    es = levels(ctx, sizes)
    T = np.array([0.5, 1.3, 2.0])
    ns = len(sizes)
    v = ctx.reals("v", (ns, 3) + tuple(shape))
    r = m.thermal_avg_combine_sectors(v, es, T)
    for k in range(3):
        z = [ctx.np.sum(ctx.np.exp(-(e - es[0][0]) / T[k])) for e in es]
        tot = sum(z)
        ref = sum(z[s] * v[s, k] for s in range(ns))
        ctx.eq(ctx.np.array(r[k]) * tot, ref, "temperature by temperature")


def combine_zero(ctx, sizes, degs):
    """zero temperature: every ground state counts once, wherever it lies"""
    m = model(ctx)
    e0 = ctx.real("e0")
    es, vals = [], []
    for s, (n, d) in enumerate(zip(sizes, degs)):
        e = [e0] * d
        while len(e) < n:
            e.append((e[-1] if e else e0) + ctx.real("g%d_%d" % (s, len(e)), 1e-6, 100, pos=True))
        es.append(ctx.np.array(e))
        vals.append(ctx.reals("v%d" % s, n))
    sect = []
    for e, v, d, n in zip(es, vals, degs, sizes):
        sect.append(m.get_exp_vals_thermal(np.eye(n), ctx.sp.csr_matrix(ctx.np.diag(v)), e, 0))
    r = m.thermal_avg_combine_sectors(ctx.np.array(sect), es, 0)
    ctx.eq(r * sum(degs), sum(ctx.np.sum(v[:d]) for v, d in zip(vals, degs) if d), "mean over the ground manifold")
    z = m.get_partition_fn_sectors(es, 0.0)
    w = ctx.real("w", 0.5, 2)
    ctx.eq(w * z, w * np.array([float(d) for d in degs]), "ground-state degeneracy per sector")


def pipeline(ctx, sizes):
    """the library's own sector averages, combined, equal the library's average over the union of the spectra"""
    m = model(ctx)
    es = levels(ctx, sizes)
    T = temp(ctx) if len(sizes) == 1 else ctx.real("T", 1e-3, 1e4, pos=True)
    vals = [ctx.reals("v%d" % s, n) for s, n in enumerate(sizes)]
    sect = [m.get_exp_vals_thermal(np.eye(n), ctx.sp.csr_matrix(ctx.np.diag(v)), e, T) for n, e, v in zip(sizes, es, vals)]
    r = m.thermal_avg_combine_sectors(ctx.np.array(sect), es, T)
    w, z = m.get_thermal_weights(ctx.np.concatenate(es), T)
    ctx.eq(r * z, ctx.np.sum(w * ctx.np.concatenate(vals)), "same as the average over all states")


def number_sectors(ctx, n):
    """free chain split by particle number: diagonal Hamiltonian (site potentials), density averages"""
    F = c02.fermi(ctx)
    pot = ctx.reals("p", (n, 1), nonzero=True)
    T = 0.9
    g = chain(ctx, n)
    full = F(g, 0.0, 0.0, potentials=pot, nspecies=1)
    order = ctx.np.diag(ctx.dense(full.createH()))
    es, nums = [], []
    num_, den = 0, 0
    for k in range(n + 1):
        m = F(g, 0.0, 0.0, potentials=pot, ns=np.array([k]), nspecies=1)
        P = m.n_projector
        e = ctx.np.diag(ctx.dense(m.createH(projector=P)))
        ix = [int(i) for i in ctx.np.argsort(e)]
        es.append(e[ix])
        V = np.eye(len(ix))[:, ix]
        op = P * m.get_single_site_op(0, 0, m.n_op, format="boson") * P.conj().transpose()
        nums.append(m.get_exp_vals_thermal(V, op, e[ix], T))
        w = ctx.np.exp(-e / T)
    r = full.thermal_avg_combine_sectors(ctx.np.array(nums), es, T)
    x = ctx.np.exp(pot[0, 0] / T)
    ctx.eq(r, 1 / (x + 1), "Fermi function of the site energy")


def tasks(tier):
    th = tier == "thorough"
    T = []
    S1 = [(1,), (2,), (1, 1), (2, 1), (2, 2), (1, 1, 1)] + ([(3, 2), (2, 2, 1), (2, 2, 2), (1, 1, 1, 1)] if th else [])
    for s in S1:
        T.append((partition, dict(sizes=s), 200))
        T.append((pipeline, dict(sizes=s), 200 if not th else 600))
        for t in (None, 0.7):
            T.append((combine, dict(sizes=s, shape=(), T=t), 200 if not th else 600))
    for sh in ((2,), (2, 2)):
        for s in ((2,), (1, 2), (2, 2)):
            T.append((combine, dict(sizes=s, shape=sh, T=0.7), 200))
            T.append((combine_many, dict(sizes=s, shape=sh), 200))
    for s in ((1, 1), (2, 1)):
        T.append((partition_many, dict(sizes=s), 200))
        T.append((combine_many, dict(sizes=s, shape=()), 200))
    for s, d in [((1,), (1,)), ((3,), (2,)), ((2, 2), (1, 0)), ((2, 2), (0, 1)), ((2, 2), (1, 1)), ((2, 2), (2, 1)), ((3, 2), (2, 2)),
                 ((1, 2, 1), (1, 1, 0)), ((2, 2, 2), (0, 2, 1))]:
        T.append((combine_zero, dict(sizes=s, degs=d), 200))
    T += [(number_sectors, dict(n=n), 200) for n in (1, 2) + ((3,) if th else ())]
    return T
