"""C04 sectors and subspace projectors"""
import numpy as np
from .common import *
from . import c02, c03

BOUNDS = ("diagonal operators of dimension 2..4 with every real diagonal; 1..4 sites, 1..3 species, every particle number "
          "(and unrestricted species); Hamiltonian coefficients: every nonzero real +-1000; arbitrary complex projector "
          "matrices with 1..2 rows (thorough: 4)")
ASSUMPTIONS = []


def sector_states(n, ns, nums):
    out = []
    for b in range(2 ** (n * ns)):
        dg = digits(b, n * ns)
        if all(nums[k] is None or sum(dg[k * n:(k + 1) * n]) == nums[k] for k in range(ns)):
            out.append(b)
    return out


def number_sector(ctx, n, ns, free=None):
    """projector onto fixed numbers of each species, and the Hamiltonian in this sector"""
    nums = [None if free == k else ctx.choice("n%d" % k, n + 1) for k in range(ns)]
    t = c02.herm_ts(ctx, n, ns, cplx=False)
    u = ctx.reals("u", n, nonzero=True) if ns == 2 else None
    arg = np.array(nums, dtype=object) if free is not None else (np.array(nums) if ns > 1 else nums[0])
    m = c02.fermi(ctx)(chain(ctx, n), u if ns == 2 else 0.0, t, ns=arg, nspecies=ns)
    st = sector_states(n, ns, nums)
    P = np.eye(2 ** (n * ns))[st, :]
    c = ctx.real("c")
    got = ctx.dense(m.n_projector)
    ctx.eq(c * got, c * P, "projector rows are the sector's basis states in basis order")
    H = m.createH(projector=m.n_projector)
    ctx.eq(H, P @ c02.full_ref(ctx, n, ns, t, u) @ P.T, "Hamiltonian of the sector")
    lab, txt = m.get_state_vects(projector=m.n_projector)
    w = ctx.reals("w", n * ns)
    ctx.eq(ctx.dense(lab) @ w, np.array([digits(b, n * ns) for b in st], dtype=float).reshape(len(st), n * ns) @ w, "state labels")


def no_sector(ctx, n, ns):
    m = c02.fermi(ctx)(chain(ctx, n), 0.0, 1.0, nspecies=ns)
    c = ctx.real("c")
    ctx.eq(c * ctx.dense(m.n_projector), c * np.eye(2 ** (n * ns)), "identity without number restriction")
    lab, txt = m.get_state_vects()
    w = ctx.reals("w", n * ns)
    ctx.eq(ctx.dense(lab) @ w, np.array([digits(b, n * ns) for b in range(2 ** (n * ns))], dtype=float) @ w, "occupations")
    ctx.true(txt.split() == ["%d%s" % (i, chr(97 + k)) for k in range(ns) for i in range(n)], "text labels")


def block_diagonal(ctx, n, ns):
    """H conserves the number of each species: sectors do not couple, and sector blocks reassemble H"""
    t = c02.herm_ts(ctx, n, ns)
    pot = ctx.reals("pot", (n, ns), nonzero=True)
    F = c02.fermi(ctx)
    H = ctx.dense(F(chain(ctx, n), 0.0, t, potentials=pot, nspecies=ns).createH())
    tot = 0
    import itertools
    for nums in itertools.product(range(n + 1), repeat=ns):
        m = F(chain(ctx, n), 0.0, t, potentials=pot, nspecies=ns, ns=np.array(nums))
        P = ctx.dense(m.n_projector)
        tot = tot + P.T @ ctx.dense(m.createH(projector=m.n_projector)) @ P
    ctx.eq(tot, H, "direct sum of the number sectors")


def projs_given(ctx, d):
    """diagonal operator with free real entries, requested eigenvalue"""
    m = c02.fermi(ctx)(chain(ctx, 1), 0.0, 1.0, nspecies=1)
    a = ctx.reals("a", d)
    lam = ctx.real("lam")
    hit = [bool(a[i] == lam) for i in range(d)]
    op = ctx.sp.csr_matrix(ctx.np.diag(a))
    projs, ev = m.get_subspace_projs(op, eig_vals=lam)
    idx = [i for i in range(d) if hit[i]]
    ctx.true(len(projs) == 1, "one projector")
    ctx.eq(ctx.dense(projs[0]), np.eye(d)[idx, :], "selects exactly the states with this eigenvalue, in order")
    ctx.eq(ev, [lam], "eigenvalue returned")


def projs_all(ctx, d):
    """all eigenspaces: distinct values, resolution of the identity, spectral decomposition"""
    m = c02.fermi(ctx)(chain(ctx, 1), 0.0, 1.0, nspecies=1)
    a = ctx.reals("a", d)
    op = ctx.sp.csr_matrix(ctx.np.diag(a))
    projs, ev = m.get_subspace_projs(op)
    ctx.true(len(projs) == len(ev), "one projector per eigenvalue")
    one, spec = 0, 0
    for p, e in zip(projs, ev):
        p = ctx.dense(p)
        ctx.eq(p @ p.T, np.eye(p.shape[0]), "orthonormal rows")
        one = one + p.T @ p
        spec = spec + e * (p.T @ p)
    ctx.eq(one, np.eye(d), "complete")
    ctx.eq(spec, ctx.np.diag(a), "spectral decomposition")
    for i in range(len(ev)):
        for j in range(i):
            ctx.true(ev[i] != ev[j], "eigenvalues distinct")


def projs_sparse_only(ctx):
    m = c02.fermi(ctx)(chain(ctx, 1), 0.0, 1.0, nspecies=1)
    a = ctx.reals("a", 2)
    ctx.raises(lambda: m.get_subspace_projs(ctx.np.diag(a)), "dense operators rejected")


def projected_fermion(ctx, n, ns, rows):
    t = c02.herm_ts(ctx, n, ns)
    v = c02.symm_v(ctx, n, ns)
    u = ctx.reals("u", n, nonzero=True) if ns == 2 else None
    mu = ctx.reals("mu", ns, nonzero=True)
    pot = ctx.reals("pot", (n, ns), nonzero=True)
    m = c02.fermi(ctx)(chain(ctx, n), u if ns == 2 else 0.0, t, mus=mu, potentials=pot, us_same_species=v, nspecies=ns)
    P = ctx.cplxs("p", (rows, 2 ** (n * ns)))
    got = m.createH(projector=ctx.sp.csr_matrix(P))
    ctx.eq(got, P @ c02.full_ref(ctx, n, ns, t, u, v, mu, pot) @ np.conj(P.T), "H(P) = P H P^dagger")


def projected_spin(ctx, n, s, rows):
    J = [c03.symm(ctx, "J" + a, n, True) for a in "xyz"]
    h = [ctx.reals("h" + a, n, nonzero=True) for a in "xyz"]
    m = c03.cls(ctx)(chain(ctx, n), *(J if n > 1 else [0.0] * 3), *h, spin=s)
    P = ctx.cplxs("p", (rows, int(2 * s + 1) ** n))
    got = m.createH(projector=ctx.sp.csr_matrix(P))
    ctx.eq(got, P @ c03.href(ctx, n, s, J, h) @ np.conj(P.T), "H(P) = P H P^dagger")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for n, ns in [(1, 1), (2, 1), (3, 1), (2, 2), (4, 1), (3, 2), (2, 3)] + ([(5, 1), (6, 1), (4, 2)] if th else []):
        T.append((no_sector, dict(n=n, ns=ns)))
        if n > 1 and n * ns < 8:
            T.append((number_sector, dict(n=n, ns=ns), 300))
            T.append((block_diagonal, dict(n=n, ns=ns), 300))
    for k in (0, 1):
        T.append((number_sector, dict(n=2, ns=2, free=k)))
        T.append((number_sector, dict(n=3, ns=2, free=k)))
    for d in (2, 3, 4):
        T.append((projs_given, dict(d=d)))
        T.append((projs_all, dict(d=d)))
    T.append((projs_sparse_only, {}))
    for n, ns, rows in [(2, 1, 2), (3, 1, 1), (2, 2, 2)] + ([(3, 1, 3), (2, 1, 4)] if th else []):
        T.append((projected_fermion, dict(n=n, ns=ns, rows=rows), 300))
    for n, s, rows in [(1, .5, 2), (2, .5, 2), (1, 1, 2), (3, .5, 2), (2, 1, 2)] + ([(2, .5, 4), (2, 1.5, 2), (3, .5, 4)] if th else []):
        T.append((projected_spin, dict(n=n, s=s, rows=rows), 300))
    return T
