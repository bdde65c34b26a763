"""C17 site-resolved expectation values and correlators"""
import numpy as np
from .common import *
from . import c02, c03

BOUNDS = ("fermions on 1..3 sites with 1..2 species (up to 4 modes) and spins 1/2, 1 on 2 sites; every state (one or two), every even or odd "
          "local operator, every site list, number-sector projections; thermal averages over four levels with every energy and temperature")
ASSUMPTIONS = ["fermionic operators in one call are both odd (format fermion) or both even (format boson)", "values are real parts"]


def fmodel(ctx, n, ns, **kw):
    return c02.fermi(ctx)(chain(ctx, n), 0.0, 1.0, nspecies=ns, **kw)


def odd(ctx, m, nm):
    return ctx.cplx(nm + "a") * m.cdag_op + ctx.cplx(nm + "b") * m.c_op


def even(ctx, m, nm):
    return ctx.cplx(nm + "a") * m.n_op + ctx.cplx(nm + "b") * np.eye(2)


def ev(ctx, V, O):
    return ctx.np.array([ctx.np.real(ctx.np.sum(ctx.np.conj(V[:, k]) * (O @ V[:, k]))) for k in range(V.shape[1])])


def exp_sites(ctx, n, ns, fmt, ns_states, sites):
    m = fmodel(ctx, n, ns)
    N = n * ns
    k = ctx.choice("sp", ns)
    op = odd(ctx, m, "o") if fmt == "fermion" else even(ctx, m, "o")
    V = ctx.cplxs("V", (2 ** N, ns_states))
    r, s = m.get_exp_vals_sites(V if ns_states > 1 or ctx.choice("vec", 2) else V[:, 0], op, k, sites=sites, format=fmt)
    want = list(range(n)) if sites is None else list(sites)
    ctx.true(list(s) == want, "sites returned")
    ctx.true(np.shape(r) == (len(want), ns_states), "sites x states")
    for i, site in enumerate(want):
        O = embed(ctx, N, k * n + site, op, 2, fmt == "fermion")
        ctx.eq(r[i], ev(ctx, V, O), "expectation value at its site")


def corr_sites(ctx, n, ns, fmt, sites):
    m = fmodel(ctx, n, ns)
    N = n * ns
    k1, k2 = ctx.choice("s1", ns), ctx.choice("s2", ns)
    f = odd if fmt == "fermion" else even
    o1, o2 = f(ctx, m, "o"), f(ctx, m, "q")
    V = ctx.cplxs("V", (2 ** N, 1))
    a = (None, None) if sites is None else sites
    r, s1, s2 = m.get_corr_sites(V, k1, k2, o1, o2, sites1=a[0], sites2=a[1], format=fmt)
    if sites is None:
        pairs = {(int(i), int(j)) for i, j in zip(s1, s2)}
        ctx.true(len(s1) == n * (n + 1) // 2 and len({frozenset(p) for p in pairs}) == n * (n + 1) // 2, "every pair of sites once")
    else:
        ctx.true(list(s1) == list(a[0]) and list(s2) == list(a[1]), "pairs returned as requested")
    for q in range(len(s1)):
        A = embed(ctx, N, k1 * n + int(s1[q]), o1, 2, fmt == "fermion")
        B = embed(ctx, N, k2 * n + int(s2[q]), o2, 2, fmt == "fermion")
        ctx.eq(r[q], ev(ctx, V, A @ B), "<O1(site1) O2(site2)>")


def projected(ctx, n, num_):
    """within a number sector, states are given in the sector basis"""
    m = c02.fermi(ctx)(chain(ctx, n), 0.0, 1.0, ns=np.array([num_]), nspecies=1)
    P = m.n_projector
    d = P.shape[0]
    V = ctx.cplxs("V", (d, 1))
    op = even(ctx, m, "o")
    W = ctx.dense(P.conj().transpose()) @ V
    r, s = m.get_exp_vals_sites(V, op, 0, projector=P, format="boson")
    for i in range(n):
        ctx.eq(r[i], ev(ctx, W, embed(ctx, n, i, op, 2)), "expectation value in a sector")
    a, b = m.cdag_op, m.c_op
    r, s1, s2 = m.get_corr_sites(V, 0, 0, a, b, projector=P, format="fermion")
    for q in range(len(s1)):
        O = cdag_c(n, int(s1[q]), int(s2[q]))
        ctx.eq(r[q], ev(ctx, W, O), "one-body density matrix in a sector")


def thermal(ctx, n, ns, T, fmt):
    """thermal averages are Boltzmann averages of the site-resolved expectation values"""
    m = fmodel(ctx, n, ns)
    N = n * ns
    d = 2 ** N
    L = 2
    e0 = ctx.real("e0")
    e = ctx.np.array([e0, e0 + ctx.real("g", 1e-6, 100, pos=True)])
    V = ctx.cplxs("V", (d, L))
    Ts = [ctx.real("T", 1e-3, 1e4, pos=True)] if T == 1 else [0.7, ctx.real("T", 0.05, 50, pos=True)] if T == 2 else [0.0, 0.7]
    f = odd if fmt == "fermion" else even
    op, op2 = f(ctx, m, "o"), f(ctx, m, "q")
    k = ctx.choice("sp", ns)
    arg = ctx.np.array(Ts)
    r, s = m.get_thermal_exp_sites(V, e, op, k, arg, format=fmt)
    c, s1, s2 = m.get_thermal_corr_sites(V, e, k, 0, op, op2, arg, format=fmt)
    ctx.true(list(s) == list(range(n)), "all sites")
    ctx.true(np.shape(r) == (n, len(Ts)) and np.shape(c) == (n * (n + 1) // 2, len(Ts)), "sites x temperatures")

    def avg(O, t):
        x = ev(ctx, V, O)
        if isinstance(t, float) and t == 0.0:
            return x[0], 1.0
        w = ctx.np.exp(-(e - e[0]) / t)
        return ctx.np.sum(w * x), ctx.np.sum(w)
    for j, t in enumerate(Ts):
        for i in range(n):
            num_, z = avg(embed(ctx, N, k * n + i, op, 2, fmt == "fermion"), t)
            ctx.eq(r[i, j] * z, num_, "thermal expectation value at its site")
        for q in range(len(s1)):
            A = embed(ctx, N, k * n + int(s1[q]), op, 2, fmt == "fermion")
            B = embed(ctx, N, int(s2[q]), op2, 2, fmt == "fermion")
            num_, z = avg(A @ B, t)
            ctx.eq(c[q, j] * z, num_, "thermal correlator of its pair")


def thermal_sites(ctx, n):
    m = fmodel(ctx, n, 1)
    e = np.array([0.0, 0.6])
    V = ctx.cplxs("V", (2 ** n, 2))
    op = even(ctx, m, "o")
    r, s = m.get_thermal_exp_sites(V, e, op, 0, np.array([0.9]), sites=[n - 1, 0], format="boson")
    c, s1, s2 = m.get_thermal_corr_sites(V, e, 0, 0, op, op, np.array([0.9]), sites1=[n - 1, 0], sites2=[0, 0], format="boson")
    ctx.true(list(s) == [n - 1, 0] and list(s1) == [n - 1, 0] and list(s2) == [0, 0], "requested sites")
    w = np.exp(-e / 0.9)
    O = [embed(ctx, n, i, op, 2) for i in range(n)]
    for i, site in enumerate([n - 1, 0]):
        ctx.eq(r[i] * w.sum(), [ctx.np.sum(w * ev(ctx, V, O[site]))], "requested site")
        ctx.eq(c[i] * w.sum(), [ctx.np.sum(w * ev(ctx, V, O[site] @ O[0]))], "requested pair")


def spins(ctx, s):
    n = 2
    m = c03.cls(ctx)(chain(ctx, n), 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, spin=s)
    d = int(2 * s + 1)
    o1, o2 = ctx.cplxs("o", (d, d)), ctx.cplxs("q", (d, d))
    V = ctx.cplxs("V", (d ** n, 1))
    r, sites = m.get_exp_vals_sites(V, o1, 0, format="boson")
    for i in range(n):
        ctx.eq(r[i], ev(ctx, V, embed(ctx, n, i, o1, d)), "spin expectation value")
    r, s1, s2 = m.get_corr_sites(V, 0, 0, o1, o2, sites1=[0, 1, 1], sites2=[1, 0, 1], format="boson")
    for q, (i, j) in enumerate(((0, 1), (1, 0), (1, 1))):
        ctx.eq(r[q], ev(ctx, V, embed(ctx, n, i, o1, d) @ embed(ctx, n, j, o2, d)), "spin correlator")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for n, ns in [(1, 1), (2, 1), (3, 1), (2, 2)] + ([(4, 1)] if th else []):
        for f in ("fermion", "boson"):
            T.append((exp_sites, dict(n=n, ns=ns, fmt=f, ns_states=1, sites=None), 300))
            T.append((corr_sites, dict(n=n, ns=ns, fmt=f, sites=None), 300))
    for f in ("fermion", "boson"):
        T.append((exp_sites, dict(n=3, ns=1, fmt=f, ns_states=2, sites=[2, 0]), 300))
        T.append((exp_sites, dict(n=2, ns=2, fmt=f, ns_states=2, sites=[1]), 300))
        T.append((corr_sites, dict(n=3, ns=1, fmt=f, sites=([0, 2, 1], [2, 0, 1])), 300))
        T.append((corr_sites, dict(n=2, ns=2, fmt=f, sites=([0, 1, 1], [1, 0, 1])), 300))
        for t in (1, 2, 0):
            T.append((thermal, dict(n=2, ns=1, T=t, fmt=f), 300))
        T.append((thermal, dict(n=1, ns=2, T=1, fmt=f), 300))
        if th:
            T.append((thermal, dict(n=2, ns=2, T=2, fmt=f), 900))
    for n in (2, 3):
        T.append((thermal_sites, dict(n=n), 300))
        for k in range(1, n):
            T.append((projected, dict(n=n, num_=k), 300))
    T += [(spins, dict(s=0.5), 300)] + ([(spins, dict(s=1), 900)] if th else [])
    return T
