"""C01 operator embedding"""
import numpy as np
from .common import *

BOUNDS = ("1..4 lattice sites x 1..3 species (at most 6 logical sites) of two-level modes, spins 1/2, 1, "
          "3/2, 2 on 1..4 sites (thorough: 5; spin 3); every pair of sites and species; operator entries: arbitrary complex numbers (parts +-1000)")
ASSUMPTIONS = ["local operators are dense numpy arrays (as documented)"]


def model(ctx, kind, n, ns, spin=0.5):
    g = chain(ctx, n)
    if kind == "fermion":
        return ctx.mod("ed_fermions").fermions(g, 0.0, 1.0, nspecies=ns)
    return ctx.mod("ed_spins").spinSystem(g, jx=1.0, spin=spin)


def two_site_is_product(ctx, kind, n, ns, fmt, spin=0.5):
    m = model(ctx, kind, n, ns, spin)
    d = m.nbasis
    s1, s2 = ctx.choice("s1", n), ctx.choice("s2", n)
    k1, k2 = ctx.choice("k1", ns), ctx.choice("k2", ns)
    a, b = ctx.cplxs("a", (d, d)), ctx.cplxs("b", (d, d))
    t = m.get_two_site_op(s1, k1, s2, k2, a, b, format=fmt)
    u = m.get_single_site_op(s1, k1, a, format=fmt)
    v = m.get_single_site_op(s2, k2, b, format=fmt)
    ctx.eq(t, matmul(ctx, u, v), "two-site operator is the ordered product")


def single_site(ctx, kind, n, ns, fmt, spin=0.5):
    m = model(ctx, kind, n, ns, spin)
    d = m.nbasis
    s, k = ctx.choice("s", n), ctx.choice("k", ns)
    a = ctx.cplxs("a", (d, d))
    u = m.get_single_site_op(s, k, a, format=fmt)
    ctx.eq(u, embed(ctx, n * ns, k * n + s, a, d, fermion=(fmt == "fermion")), "single-site operator")
    ctx.true(m.nstates == d ** (n * ns), "dimension")


def default_format(ctx, n, ns):
    m = model(ctx, "fermion", n, ns)
    s1, s2, k1, k2 = ctx.choice("s1", n), ctx.choice("s2", n), ctx.choice("k1", ns), ctx.choice("k2", ns)
    a, b = ctx.cplxs("a", (2, 2)), ctx.cplxs("b", (2, 2))
    ctx.eq(m.get_single_site_op(s1, k1, a), embed(ctx, n * ns, k1 * n + s1, a, 2, fermion=True), "default format")
    ctx.eq(m.get_two_site_op(s1, k1, s2, k2, a, b),
           matmul(ctx, embed(ctx, n * ns, k1 * n + s1, a, 2, True), embed(ctx, n * ns, k2 * n + s2, b, 2, True)),
           "default format, two sites")
    ctx.raises(lambda: m.get_single_site_op(s1, k1, a, format="anyon"), "unknown statistics rejected")
    if (s1, k1) != (s2, k2):
        ctx.raises(lambda: m.get_two_site_op(s1, k1, s2, k2, a, b, format="anyon"), "unknown statistics rejected (2)")


def car(ctx, n, ns):
    """canonical anticommutation for linear combinations of all modes"""
    m = model(ctx, "fermion", n, ns)
    N = n * ns
    x, y = ctx.cplxs("x", N), ctx.cplxs("y", N)
    A, Bd, Bc = 0, 0, 0
    for k in range(ns):
        for s in range(n):
            q = k * n + s
            c = ctx.dense(m.get_single_site_op(s, k, m.c_op))
            cd = ctx.dense(m.get_single_site_op(s, k, m.cdag_op))
            A = A + x[q] * c
            Bd = Bd + y[q] * cd
            Bc = Bc + y[q] * c
    dot = sum(x[q] * y[q] for q in range(N))
    ctx.eq(A @ Bd + Bd @ A, dot * np.eye(2 ** N), "{c, c^dag} = delta")
    ctx.eq(A @ Bc + Bc @ A, np.zeros((2 ** N, 2 ** N)), "{c, c} = 0")


def number_is_cdag_c(ctx, n, ns):
    m = model(ctx, "fermion", n, ns)
    s1, s2, k1, k2 = ctx.choice("s1", n), ctx.choice("s2", n), ctx.choice("k1", ns), ctx.choice("k2", ns)
    z = ctx.cplx("z")
    N = n * ns
    i, j = k1 * n + s1, k2 * n + s2
    ctx.eq(z * ctx.dense(m.get_two_site_op(s1, k1, s2, k2, m.cdag_op, m.c_op, "fermion")), z * cdag_c(N, i, j), "c^dag_i c_j")
    ctx.eq(z * ctx.dense(m.get_single_site_op(s1, k1, m.n_op, "boson")), z * num(N, i), "n_i")
    ctx.eq(z * ctx.dense(m.get_two_site_op(s1, k1, s2, k2, m.n_op, m.n_op, "boson")), z * (num(N, i) @ num(N, j)), "n_i n_j")


def boson_commute(ctx, n, spin):
    m = model(ctx, "spin", n, 1, spin)
    d = m.nbasis
    s1, s2 = ctx.choice("s1", n), ctx.choice("s2", n)
    ctx.assume(s1 != s2)
    a, b = ctx.cplxs("a", (d, d)), ctx.cplxs("b", (d, d))
    u = ctx.dense(m.get_single_site_op(s1, 0, a, format="boson"))
    v = ctx.dense(m.get_single_site_op(s2, 0, b, format="boson"))
    ctx.eq(u @ v, v @ u, "operators on different sites commute")
    ctx.eq(u @ v, embed2(ctx, n, s1, a, s2, b, d), "product embedding")


def sum_op(ctx, kind, n, ns, fmt, spin=0.5):
    m = model(ctx, kind, n, ns, spin)
    d = m.nbasis
    a = ctx.cplxs("a", (d, d))
    if kind == "fermion":
        k = ctx.choice("k", ns)
        got = m.get_sum_op(a, k, format=fmt)
        if fmt == "fermion":
            ctx.eq(m.get_sum_op(a, k), got, "default format")
    else:
        k = 0
        got = m.get_sum_op(a)
    ref = 0
    for s in range(n):
        ref = ref + embed(ctx, n * ns, k * n + s, a, d, fermion=(fmt == "fermion"))
    ctx.eq(got, ref, "sum over sites")


def sum_op_q(ctx, n, ny, ns, fmt):
    g = chain(ctx, n, ny)
    m = ctx.mod("ed_fermions").fermions(g, 0.0, 1.0, nspecies=ns)
    a = ctx.cplxs("a", (2, 2))
    qx, qy = ctx.real("qx"), ctx.real("qy")
    k = ctx.choice("k", ns)
    got = m.get_sum_op_q(k, [qx, qy], a, format=fmt)
    ref = 0
    N = g.nsites
    for s in range(N):
        ph = ctx.np.exp(1j * (qx * g.xlocs[s] + qy * g.ylocs[s]))
        ref = ref + ph * embed(ctx, N * ns, k * N + s, a, 2, fermion=(fmt == "fermion"))
    ctx.eq(got, ref, "Fourier sum over sites")


def index_maps(ctx):
    m = model(ctx, "fermion", 1, 1)
    n = ctx.int("n", 1, 9)
    s = ctx.int("s", 0, 8)
    k = ctx.int("k", 0, 6)
    ctx.assume(s < n)
    n = int(n)
    q = m.spinful2spinlessIndex(s, n, k)
    ctx.eq(q, k * n + s, "single index")
    s2, k2 = m.spinless2spinfullIndex(q, n)
    ctx.eq(s2, s, "site recovered")
    ctx.eq(k2, k, "species recovered")


def fermion_local_ops(ctx):
    m = model(ctx, "fermion", 1, 1)
    x = ctx.cplx("x")
    ctx.eq(x * m.c_op, x * np.array([[0, 1], [0, 0]]), "annihilation")
    ctx.eq(x * m.cdag_op, x * np.array([[0, 0], [1, 0]]), "creation")
    ctx.eq(x * m.n_op, x * np.array([[0, 0], [0, 1]]), "number")


def swap(ctx, kind, n, ns, reps, spin=0.5):
    """exchange operators: unitary involutions exchanging the two sites"""
    m = model(ctx, kind, n, ns, spin)
    s1, s2, k = ctx.choice("s1", n), ctx.choice("s2", n), ctx.choice("k", ns)
    ctx.assume(s1 != s2)
    S = ctx.dense(m.get_swap_op(s1, s2, k))
    D = S.shape[0]
    ctx.eq(S @ S, np.eye(D), "involution")
    ctx.eq(S @ np.conj(S).T, np.eye(D), "unitary")
    x = ctx.cplxs("x", n * ns)
    op = m.c_op if kind == "fermion" else m.sminus if spin != 0.5 else m.pauli_minus
    first = x[0] * np.eye(D)[:, 0]
    ctx.eq(S @ first, first, "the empty (or fully polarised) state is left alone")
    fmt = "fermion" if kind == "fermion" else "boson"
    A, Bx = 0, 0
    for kk in range(ns):
        for s in range(n):
            t = {s1: s2, s2: s1}.get(s, s) if kk == k else s
            A = A + x[kk * n + s] * ctx.dense(m.get_single_site_op(s, kk, op, format=fmt))
            Bx = Bx + x[kk * n + s] * ctx.dense(m.get_single_site_op(t, kk, op, format=fmt))
    ctx.eq(S @ A @ np.conj(S).T, Bx, "S c_i S^dag = c_swap(i)")


def allsite(ctx, n):
    m = model(ctx, "spin", n, 1)
    a = ctx.cplxs("a", (2, 2), -1.5, 1.5)
    ref = np.array([[1.0]])
    for _ in range(n):
        ref = ctx.np.kron(ref, a)
    ctx.eq(m.get_allsite_op(a), ref, "product of n copies")


def tasks(tier):
    T = []
    sizes = [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (1, 3)] + ([(4, 1), (5, 1), (2, 3), (3, 2)] if tier == "thorough" else [(4, 1), (3, 2)])
    for n, ns in sizes:
        for fmt in ("fermion", "boson"):
            T.append((single_site, dict(kind="fermion", n=n, ns=ns, fmt=fmt)))
            T.append((two_site_is_product, dict(kind="fermion", n=n, ns=ns, fmt=fmt)))
            T.append((sum_op, dict(kind="fermion", n=n, ns=ns, fmt=fmt)))
        T.append((default_format, dict(n=n, ns=ns)))
        T.append((car, dict(n=n, ns=ns)))
        T.append((number_is_cdag_c, dict(n=n, ns=ns)))
    for n, s in [(1, .5), (2, .5), (3, .5), (1, 1), (2, 1), (3, 1), (2, 1.5)] + ([(4, .5), (1, 2), (2, 2), (5, .5), (3, 1.5), (1, 3)] if tier == "thorough" else [(4, .5), (1, 2)]):
        T.append((single_site, dict(kind="spin", n=n, ns=1, fmt="boson", spin=s)))
        T.append((two_site_is_product, dict(kind="spin", n=n, ns=1, fmt="boson", spin=s)))
        T.append((sum_op, dict(kind="spin", n=n, ns=1, fmt="boson", spin=s)))
        if n > 1:
            T.append((boson_commute, dict(n=n, spin=s)))
    for n, ny, ns, fmt in [(2, 1, 1, "fermion"), (2, 2, 1, "boson"), (3, 1, 1, "boson"), (2, 1, 2, "fermion")]:
        T.append((sum_op_q, dict(n=n, ny=ny, ns=ns, fmt=fmt)))
    T.append((index_maps, {}))
    T.append((fermion_local_ops, {}))
    for n, sp_ in [(2, 1), (2, 1.5), (3, 1)] + ([(2, 2), (4, 1)] if tier == "thorough" else []):
        T.append((swap, dict(kind="spin", n=n, ns=1, reps=0, spin=sp_)))
    for n in (2, 3, 4) + ((5,) if tier == "thorough" else ()):
        T.append((swap, dict(kind="fermion", n=n, ns=1, reps=0)))
        T.append((swap, dict(kind="spin", n=n, ns=1, reps=0)))
    T.append((swap, dict(kind="fermion", n=2, ns=2, reps=0)))
    T.append((swap, dict(kind="fermion", n=3, ns=2, reps=0)))
    for n in (1, 2, 3):
        T.append((allsite, dict(n=n)))
    return T
