"""C13 thermal weights, partition functions and thermal averages"""
import numpy as np
from .common import *
from . import c02

BOUNDS = ("spectra of 1..4 levels (thorough 6) with every energy +-1000 (gaps 1e-6..100), every temperature 1e-3..1e4, -1e4..-1 and zero, one or several "
          "temperatures per call; ground-state degeneracy 1..4; every operator and every orthonormal or general set of "
          "eigenvectors; Hamiltonians up to 4x4")
ASSUMPTIONS = ["energies are sorted (documented)", "degenerate levels are exactly equal, other gaps are at least 1e-6",
               "the matrix exponential (LAPACK) is modelled exactly for Hamiltonians with every spectrum in a set of concrete eigenbases"]


def model(ctx):
    return c02.fermi(ctx)(chain(ctx, 1), 0.0, 1.0, nspecies=1)


def spectrum(ctx, n, deg=1):
    e0 = ctx.real("e0")
    es = [e0] * deg
    for i in range(deg, n):
        es.append(es[-1] + ctx.real("g%d" % i, 1e-6, 100, pos=True))
    return ctx.np.array(es)


def temp(ctx, name="T"):
    """positive or negative"""
    if ctx.choice(name + "neg", 2):
        return -ctx.real(name + "m", 1.0, 1e4, pos=True)      # colder negative temperatures overflow
    return ctx.real(name, 1e-3, 1e4, pos=True)


def weights(ctx, n, offset):
    m = model(ctx)
    e = spectrum(ctx, n)
    T = temp(ctx)
    kw = dict(use_energies_offset=True) if offset else {}
    w, z = m.get_thermal_weights(e, T, **kw)
    ref = ctx.np.exp(-(e - e[0]) / T) if offset else ctx.np.exp(-e / T)
    ctx.eq(w, ref, "Boltzmann weights")
    ctx.eq(z, ctx.np.sum(ref), "partition function")
    w1, z1 = m.get_thermal_weights(e, ctx.np.array([T]), **kw)
    ctx.eq(w1, ref, "one temperature given as an array")
    ctx.eq(z1, ctx.np.sum(ref), "one temperature given as an array")


def weights_many(ctx, n, offset):
    m = model(ctx)
    e = spectrum(ctx, n)
    T = ctx.np.array([ctx.real("T0", 1e-3, 1e4, pos=True), ctx.real("T1", 1e-3, 1e4, pos=True), 0.7])
    w, z = m.get_thermal_weights(e, T, use_energies_offset=offset)
    ctx.true(np.shape(w) == (n, 3), "shape energies x temperatures")
    for k in range(3):
        ref = ctx.np.exp(-(e - e[0]) / T[k]) if offset else ctx.np.exp(-e / T[k])
        ctx.eq(w[:, k], ref, "column per temperature")
        ctx.eq(z[k], ctx.np.sum(ref), "partition function per temperature")


def weights_zero(ctx, n, deg):
    m = model(ctx)
    e = spectrum(ctx, n, deg)
    w, z = m.get_thermal_weights(e, 0.0, use_energies_offset=True)
    a = ctx.real("a", 0.5, 2)
    ref = np.array([1.0] * deg + [0.0] * (n - deg))
    ctx.eq(a * w, a * ref, "equal weight on the ground states only")
    ctx.eq(a * z, a * deg, "ground-state degeneracy")
    w, z = m.get_thermal_weights(e - e[0], 0, use_energies_offset=False)
    ctx.eq(a * w, a * ref, "without offset the reference energy is zero")
    ctx.eq(a * z, a * deg, "without offset the reference energy is zero")
    w, z = m.get_thermal_weights(e, ctx.np.array([0.0, 1.5]), use_energies_offset=True)
    ctx.eq(a * w[:, 0], a * ref, "zero among several temperatures")
    ctx.eq(w[:, 1], ctx.np.exp(-(e - e[0]) / 1.5), "finite among several temperatures")


def average(ctx, n, d):
    """thermal average = sum_n w_n <n|O|n> / sum_n w_n for any vectors and operator"""
    m = model(ctx)
    e = spectrum(ctx, n)
    T = temp(ctx)
    V = ctx.cplxs("V", (d, n))
    O = ctx.cplxs("O", (d, d))
    O = O + ctx.np.conj(O.T)
    r = m.get_exp_vals_thermal(V, ctx.sp.csr_matrix(O), e, T)
    w = ctx.np.exp(-(e - e[0]) / T)
    ex = [ctx.np.real(ctx.np.conj(V[:, k]) @ O @ V[:, k]) for k in range(n)]
    ctx.eq(r * ctx.np.sum(w), sum(w[k] * ex[k] for k in range(n)), "thermal average")


def average_many(ctx, n):
    m = model(ctx)
    e = spectrum(ctx, n)
    T = ctx.np.array([ctx.real("T0", 1e-3, 1e4, pos=True), 0.0, 0.8])
    V = ctx.cplxs("V", (2, n))
    O = ctx.cplxs("O", (2, 2))
    O = O + ctx.np.conj(O.T)
    r = m.get_exp_vals_thermal(V, ctx.sp.csr_matrix(O), e, T)
    ex = [ctx.np.real(ctx.np.conj(V[:, k]) @ O @ V[:, k]) for k in range(n)]
    ctx.true(np.shape(r) == (3,), "one value per temperature")
    for k in (0, 2):
        w = ctx.np.exp(-(e - e[0]) / T[k])
        ctx.eq(r[k] * ctx.np.sum(w), sum(w[i] * ex[i] for i in range(n)), "finite temperature")
    ctx.eq(r[1], ex[0], "zero temperature is the ground state")


def average_zero(ctx, n, deg):
    m = model(ctx)
    e = spectrum(ctx, n, deg)
    V = ctx.cplxs("V", (2, n))
    O = ctx.cplxs("O", (2, 2))
    O = O + ctx.np.conj(O.T)
    r = m.get_exp_vals_thermal(V, ctx.sp.csr_matrix(O), e, 0)
    ex = [ctx.np.real(ctx.np.conj(V[:, k]) @ O @ V[:, k]) for k in range(n)]
    ctx.eq(r * deg, sum(ex[:deg]), "average over the ground manifold")


def shift(ctx, n):
    """averages do not depend on the zero of energy; the average of the identity is one"""
    m = model(ctx)
    e = spectrum(ctx, n)
    T = temp(ctx)
    c = ctx.real("c")
    O = np.diag([float(k * k + 1) for k in range(n)])
    V = np.eye(n)
    a = m.get_exp_vals_thermal(V, ctx.sp.csr_matrix(O), e, T)
    b = m.get_exp_vals_thermal(V, ctx.sp.csr_matrix(O), e + c, T)
    ctx.eq(a, b, "independent of the energy zero")
    ctx.eq(m.get_exp_vals_thermal(V, ctx.sp.csr_matrix(np.eye(n)), e, T), 1.0, "average of the identity")


def unitary(n, k):
    """a few concrete unitaries"""
    if k == 0:
        return np.eye(n)
    if k == 1:
        j = np.arange(n)
        return np.exp(2j * np.pi * np.outer(j, j) / n) / np.sqrt(n)
    r = np.random.RandomState(5 * n)
    return np.linalg.qr(r.randn(n, n) + (1j * r.randn(n, n) if k == 3 else 0))[0]


def partition(ctx, n, k):
    """trace formula for every Hamiltonian diagonal in a given basis"""
    m = model(ctx)
    e = ctx.reals("e", n, -30, 30)
    b = ctx.real("b", -10, 10, nonzero=True)
    U = unitary(n, k)
    ctx.known_basis(U)
    H = ctx.sp.csr_matrix(U @ ctx.np.diag(e) @ U.conj().T)
    z = m.get_partition_fn_hamiltonian(H, b)
    ctx.eq(z, ctx.np.sum(ctx.np.exp(-b * e)), "Tr exp(-beta H)")
    ctx.eq(m.get_partition_fn_hamiltonian(H, 0), n, "dimension at infinite temperature")


def elems(ctx, d, n):
    m = model(ctx)
    V = ctx.cplxs("V", (d, n))
    O = ctx.cplxs("O", (d, d))
    r = m.get_matrix_elems(V, ctx.sp.csr_matrix(O))
    for i in range(n):
        for j in range(n):
            ctx.eq(r[i, j], ctx.np.conj(V[:, i]) @ O @ V[:, j], "<i|O|j>")


def tasks(tier):
    th = tier == "thorough"
    N = (1, 2, 3, 4) + ((6,) if th else ())
    T = []
    for n in N:
        for o in (True, False):
            T.append((weights, dict(n=n, offset=o), 200))
    for n in (2, 3):
        for o in (True, False):
            T.append((weights_many, dict(n=n, offset=o), 200))
    for n in N:
        for d in range(1, min(n, 4) + 1):
            T.append((weights_zero, dict(n=n, deg=d), 200))
            T.append((average_zero, dict(n=n, deg=d), 200))
    for n, d in [(1, 1), (2, 2), (3, 2)] + ([(3, 3), (4, 2)] if th else []):
        T.append((average, dict(n=n, d=d), 200 if not th else 600))
    T += [(average_many, dict(n=n), 200) for n in (2, 3)]
    T += [(shift, dict(n=n), 200) for n in (2, 3, 4)]
    T += [(partition, dict(n=n, k=k), 200) for n in (1, 2, 3) for k in (0, 1, 2, 3)]
    T += [(elems, dict(d=d, n=n)) for d, n in ((2, 2), (2, 3), (3, 2))]
    return T
