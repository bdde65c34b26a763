"""C19 diagonalisation returns sorted, correctly paired eigenpairs"""
import itertools
import numpy as np
from .common import *
from .c13 import model, unitary
from . import c02

BOUNDS = ("Hermitian matrices of dimension 1..4 with every spectrum (energies +-1000, gaps 1e-6..100) in concrete real and complex eigenbases; sparse solver returning "
          "1..3 pairs in every order")
ASSUMPTIONS = ["LAPACK's eigh and ARPACK's eigsh are replaced by exact models for matrices diagonal in a concrete basis; their accuracy and "
               "convergence are outside"]


def pairs(ctx, H, e, V, n, label):
    for k in range(n):
        ctx.eq(H @ V[:, k], e[k] * V[:, k], label + "H v = E v")
        if k:
            ctx.true(e[k] >= e[k - 1] - 1e-9, label + "ascending")
        for q in range(k + 1):
            ctx.eq(ctx.np.sum(ctx.np.conj(V[:, q]) * V[:, k]) + 0 * e[k], float(q == k), label + "orthonormal")


def full(ctx, d, k):
    m = model(ctx)
    U = unitary(d, k)
    e = ctx.reals("e", d)
    ctx.known_basis(U)
    H = U @ ctx.np.diag(e) @ U.conj().T
    w, V = m.diagH(ctx.sp.csr_matrix(H))
    ctx.true(np.shape(w) == (d,) and np.shape(V) == (d, d), "all eigenpairs")
    pairs(ctx, H, w, V, d, "")
    ctx.eq(ctx.np.sum(w), ctx.np.sum(e), "trace")
    ctx.eq(ctx.np.sum(w * w), ctx.np.sum(e * e), "trace of the square")


def sparse(ctx, d, k, n):
    m = model(ctx)
    U = unitary(d, k)
    e = ctx.np.array([ctx.real("e0")] + [0.0] * (d - 1))
    for i in range(1, d):
        e[i] = e[i - 1] + ctx.real("g%d" % i, 1e-6, 100, pos=True)
    ix = list(itertools.permutations(range(d)))[ctx.choice("lab", int(np.prod(range(1, d + 1))))]
    e = ctx.np.array([e[i] for i in ix])
    ctx.known_basis(U, shuffle=lambda q: list(itertools.permutations(range(q)))[ctx.choice("order", int(np.prod(range(1, q + 1))))])
    H = U @ ctx.np.diag(e) @ U.conj().T
    w, V = m.diagH(ctx.sp.csr_matrix(H), neigs=n, use_sparse=True)
    ctx.true(np.shape(w) == (n,) and np.shape(V) == (d, n), "requested number of eigenpairs")
    pairs(ctx, H, w, V, n, "sparse: ")


def model_diag(ctx, n):
    """diagonalising a model: sum of squares of the energies is the trace of H^2, thermal use downstream needs sorted energies"""
    pot = ctx.reals("p", (n, 1), nonzero=True)
    m = c02.fermi(ctx)(chain(ctx, n), 0.0, 0.0, potentials=pot, nspecies=1)
    ctx.known_basis(np.eye(2 ** n))
    H = m.createH()
    w, V = m.diagH(H)
    Hd = ctx.dense(H)
    pairs(ctx, Hd, w, V, 2 ** n, "model: ")
    # ground state fills the sites with negative energy
    g = ctx.np.sum(ctx.np.minimum(pot, 0.0))
    ctx.eq(w[0], g, "lowest energy first")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for d in (1, 2, 3) + ((4,) if th else ()):
        for k in (0, 1, 2, 3):
            T.append((full, dict(d=d, k=k), 300))
    for d, n in [(3, 1), (4, 2)] + ([(4, 1), (5, 3)] if th else []):
        for k in (0, 2, 3):
            T.append((sparse, dict(d=d, k=k, n=n), 300 if not th else 900))
    T += [(model_diag, dict(n=n), 300) for n in (1, 2)]
    return T
