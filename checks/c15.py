"""C15 expectation values, overlaps, norms and subspace weights"""
import numpy as np
from .common import *
from .c13 import model

BOUNDS = ("1..3 states (thorough 4) of dimension 1..4 with every complex amplitude, dense (1D or 2D) and sparse; every operator; every "
          "projector matrix up to 3x4")
ASSUMPTIONS = ["expectation values are real parts, so operators with complex expectation values are compared by their real part"]


def as_sparse(ctx, V, kind):
    return {"dense": lambda: V, "csr": lambda: ctx.sp.csr_matrix(V), "csc": lambda: ctx.sp.csc_matrix(V),
            "vec": lambda: V[:, 0]}[kind]()


def ip(ctx, a, b):
    return ctx.np.sum(ctx.np.conj(a) * b)


def expvals(ctx, d, n, kind):
    m = model(ctx)
    V = ctx.cplxs("V", (d, n))
    O = ctx.cplxs("O", (d, d))
    r = m.get_exp_vals(as_sparse(ctx, V, kind), ctx.sp.csr_matrix(O))
    ref = [ctx.np.real(ip(ctx, V[:, k], O @ V[:, k])) for k in range(n)]
    ctx.eq(r, ctx.np.array(ref), "<v|O|v>")


def overlaps(ctx, d, n1, n2, k1, k2):
    m = model(ctx)
    A, B = ctx.cplxs("A", (d, n1)), ctx.cplxs("B", (d, n2))
    r = m.get_overlaps(as_sparse(ctx, A, k1), as_sparse(ctx, B, k2))
    r = ctx.np.reshape(ctx.np.array(ctx.dense(r)), (n1, n2))
    for i in range(n1):
        for j in range(n2):
            ctx.eq(r[i, j], ip(ctx, A[:, i], B[:, j]), "<i|j>")


def norms(ctx, d, n, kind):
    m = model(ctx)
    V = ctx.cplxs("V", (d, n))
    r = m.get_norms(as_sparse(ctx, V, kind))
    ctx.eq(r, ctx.np.array([ctx.np.real(ip(ctx, V[:, k], V[:, k])) for k in range(n)]), "<v|v>")


def subspace(ctx, d, k, n, np_, kind):
    m = model(ctx)
    V = ctx.cplxs("V", (d, n))
    Ps = [ctx.cplxs("P%d" % q, (k, d)) for q in range(np_)]
    arg = [ctx.sp.csr_matrix(p) for p in Ps]
    r = m.get_subspace_overlaps(as_sparse(ctx, V, kind), arg if np_ > 1 else arg[0])
    r = ctx.np.reshape(ctx.np.array(r), (np_, n))
    for q in range(np_):
        for i in range(n):
            u = Ps[q] @ V[:, i]
            ctx.eq(r[q, i], ctx.np.real(ip(ctx, u, u)), "weight |P v|^2")


def complete(ctx, n):
    """weights of a state on the number sectors add up to its norm"""
    from . import c02
    m = c02.fermi(ctx)(chain(ctx, n), 0.0, 1.0, nspecies=1)
    nop = m.get_sum_op(m.n_op, species=0, format="boson", print_results=False)
    projs, vals = m.get_subspace_projs(nop)
    V = ctx.cplxs("V", (2 ** n, 1))
    w = ctx.np.array(m.get_subspace_overlaps(V, projs))
    ctx.eq(ctx.np.sum(w), ctx.np.sum(ctx.np.array(m.get_norms(V))), "weights add up to the norm")
    mean = ctx.np.sum(ctx.np.reshape(w, (-1,)) * np.reshape(np.array(vals, dtype=float), (-1,)))
    ctx.eq(m.get_exp_vals(V, nop), [mean], "mean number from the sector weights")


def tasks(tier):
    th = tier == "thorough"
    T = []
    D = [(1, 1), (2, 1), (2, 2), (3, 2), (2, 3)] + ([(4, 2), (3, 4)] if th else [])
    for d, n in D:
        for k in ("dense", "csr", "csc") + (("vec",) if n == 1 else ()):
            T.append((expvals, dict(d=d, n=n, kind=k), 200))
            T.append((norms, dict(d=d, n=n, kind=k), 200))
    for d, a, b in [(2, 1, 1), (2, 2, 2), (3, 1, 2), (2, 2, 1), (2, 3, 2)] + ([(4, 2, 3), (3, 3, 3)] if th else []):
        for k1 in ("dense", "csr", "csc") + (("vec",) if a == 1 else ()):
            for k2 in ("dense", "csr", "csc") + (("vec",) if b == 1 else ()):
                T.append((overlaps, dict(d=d, n1=a, n2=b, k1=k1, k2=k2), 200))
    for d, k, n, q in [(2, 1, 1, 1), (2, 2, 2, 1), (3, 2, 2, 2), (2, 1, 1, 2), (3, 1, 2, 3)]:
        for kind in ("dense", "csr") + (("vec",) if n == 1 else ()):
            T.append((subspace, dict(d=d, k=k, n=n, np_=q, kind=kind), 200))
    T += [(complete, dict(n=n)) for n in (1, 2, 3)]
    return T
