"""C02 Hubbard Hamiltonian"""
import itertools
import numpy as np
from .common import *

BOUNDS = ("1..5 sites, 1..3 species (at most 6 logical sites); hopping: every Hermitian matrix with complex entries "
          "(parts +-1000); interactions, chemical potentials, potentials: every real +-1000; chains, rings, squares, triangular "
          "clusters; boundary phases in [-3,3]")
ASSUMPTIONS = ["interspecies interaction is only defined for two species (documented)",
               "current operator: rings of at least three sites (documented)"]


def fermi(ctx):
    return ctx.mod("ed_fermions").fermions


def full_ref(ctx, n, ns, t, u=None, v=None, mu=None, pot=None):
    """sum over second-quantised terms, everything indexed [site.., species]"""
    N = n * ns
    D = 2 ** N
    H = ctx.np.zeros((D, D), dtype=complex)
    for k in range(ns):
        for i in range(n):
            for j in range(n):
                if i != j:
                    H = H - t[i, j, k] * cdag_c(N, k * n + i, k * n + j)
                if v is not None and i >= j:
                    H = H + v[i, j, k] * (num(N, k * n + i) @ num(N, k * n + j))
            if mu is not None:
                H = H - mu[k] * num(N, k * n + i)
            if pot is not None:
                H = H + pot[i, k] * num(N, k * n + i)
    if u is not None:
        for i in range(n):
            H = H + u[i] * (num(N, i) @ num(N, n + i))
    return H


def herm_ts(ctx, n, ns, nonzero=True, cplx=True):
    t = ctx.np.zeros((n, n, ns), dtype=complex)
    for k in range(ns):
        for i in range(n):
            for j in range(i):
                z = ctx.real("tr_%d%d%d" % (i, j, k), nonzero=nonzero)
                if cplx:
                    z = z + 1j * ctx.real("ti_%d%d%d" % (i, j, k))
                t[i, j, k] = z
                t[j, i, k] = ctx.np.conj(z)
    return t


def symm_v(ctx, n, ns):
    v = ctx.np.zeros((n, n, ns))
    for k in range(ns):
        for i in range(n):
            for j in range(i + 1):
                z = ctx.real("v_%d%d%d" % (i, j, k), nonzero=True)
                v[i, j, k] = z
                v[j, i, k] = z
    return v


def hamiltonian(ctx, n, ns, cplx):
    """every coefficient free and nonzero"""
    t = herm_ts(ctx, n, ns, cplx=cplx)
    v = symm_v(ctx, n, ns)
    u = ctx.reals("u", n, nonzero=True) if ns == 2 else None
    mu = ctx.reals("mu", ns, nonzero=True)
    pot = ctx.reals("pot", (n, ns), nonzero=True)
    m = fermi(ctx)(chain(ctx, n), u if ns == 2 else 0.0, t, mus=mu, potentials=pot, us_same_species=v, nspecies=ns)
    H = m.createH()
    ctx.eq(H, full_ref(ctx, n, ns, t, u, v, mu, pot), "Hamiltonian matrix")
    Hd = ctx.dense(H)
    ctx.eq(Hd, dag(ctx, Hd), "Hermitian")


def free(ctx, n, ns):
    """complex hoppings whose parts may vanish separately, interactions that may vanish, the rest nonzero"""
    t = herm_ts(ctx, n, ns, nonzero=False)
    u = ctx.reals("u", n) if ns == 2 else None
    mu = ctx.reals("mu", ns, nonzero=True)
    pot = ctx.reals("pot", (n, ns), nonzero=True)
    m = fermi(ctx)(chain(ctx, n), u if ns == 2 else 0.0, t, mus=mu, potentials=pot, nspecies=ns)
    ctx.eq(m.createH(), full_ref(ctx, n, ns, t, u, None, mu, pot), "Hamiltonian matrix")


def restricted(ctx, geom, ns):
    """models restricted to fixed particle numbers: the same terms, projected on the sector; every coupling may vanish"""
    nx, ny, o1, o2 = GEOMS[geom]
    g = chain(ctx, nx, ny, o1, o2)
    n = g.nsites
    nums = [ctx.choice("n%d" % k, n + 1) for k in range(ns)]
    t, v, mu, pot = (ctx.real(x) for x in ("t", "v", "mu", "pot"))
    u = ctx.real("u") if ns == 2 else 0.0
    m = fermi(ctx)(g, u, t, mus=mu, potentials=pot, us_same_species=v, nspecies=ns, ns=np.array(nums))
    T, V = ctx.np.zeros((n, n, ns)), ctx.np.zeros((n, n, ns))
    for k in range(ns):
        for i, j in bonds_of(ctx, g, geom):
            T[i, j, k] = T[j, i, k] = t
            V[i, j, k] = V[j, i, k] = v
    fill = lambda x, *sh: x * np.ones(sh)
    ref = full_ref(ctx, n, ns, T, fill(u, n) if ns == 2 else None, V, fill(mu, ns), fill(pot, n, ns))
    st = [b for b in range(2 ** (n * ns)) if all(sum(digits(b, n * ns)[k * n:(k + 1) * n]) == nums[k] for k in range(ns))]
    got = ctx.dense(m.createH(projector=m.n_projector))
    ctx.eq(got, ref[np.ix_(st, st)], "Hamiltonian of the sector")
    ctx.eq(ctx.dense(m.createH()), ref, "Hamiltonian on the full space")


def vanishing(ctx, n, ns, which):
    """coefficients of one kind may vanish individually"""
    nz = lambda w: w != which
    t = herm_ts(ctx, n, ns, nonzero=nz("t"), cplx=False)
    z = np.zeros
    v = ctx.np.zeros((n, n, ns))
    if which == "v":
        v = symm_v_free(ctx, n, ns)
    u = ctx.reals("u", n, nonzero=nz("u")) if ns == 2 else None
    mu = ctx.reals("mu", ns, nonzero=nz("mu"))
    pot = ctx.reals("pot", (n, ns), nonzero=nz("pot"))
    m = fermi(ctx)(chain(ctx, n), u if ns == 2 else 0.0, t, mus=mu, potentials=pot, us_same_species=v, nspecies=ns)
    ctx.eq(m.createH(), full_ref(ctx, n, ns, t, u, v, mu, pot), "Hamiltonian matrix")


def symm_v_free(ctx, n, ns):
    v = ctx.np.zeros((n, n, ns))
    for k in range(ns):
        for i in range(n):
            for j in range(i + 1):
                z = ctx.real("v_%d%d%d" % (i, j, k))
                v[i, j, k] = z
                v[j, i, k] = z
    return v


GEOMS = {"chain2": (2, 1, True, True), "chain3": (3, 1, True, True), "ring3": (3, 1, False, True), "ring4": (4, 1, False, True),
         "col3": (1, 3, True, True), "sq2x2": (2, 2, True, True), "single": (1, 1, True, True)}


def neigh(gname):
    nx, ny, o1, o2 = GEOMS[gname]
    sites = [(x, y) for x in range(nx) for y in range(ny)]
    return sites, nx, ny, o1, o2


def bonds_of(ctx, g, gname):
    """unordered pairs one unit apart, from the site coordinates of the geometry"""
    nx, ny, o1, o2 = GEOMS[gname]
    out = []
    for i in range(g.nsites):
        for j in range(i):
            dx, dy = float(g.xlocs[i] - g.xlocs[j]), float(g.ylocs[i] - g.ylocs[j])
            cand = [(dx + (a * nx if not o1 else 0), dy + (b * ny if not o2 else 0)) for a in (-1, 0, 1) for b in (-1, 0, 1)]
            if any(abs(abs(x) + abs(y) - 1) < 1e-9 for x, y in cand):
                out.append((i, j))
    return out


def uniform(ctx, geom, ns, per_species, free=False):
    """scalar or per-species arguments expand to uniform couplings on the bonds of the geometry"""
    nx, ny, o1, o2 = GEOMS[geom]
    g = chain(ctx, nx, ny, o1, o2)
    n = g.nsites
    if per_species:
        t, mu, pot, v = (ctx.reals(x, ns, nonzero=not free) for x in ("t", "mu", "pot", "v"))
    else:
        t, mu, pot, v = (ctx.real(x, nonzero=not free) for x in ("t", "mu", "pot", "v"))
    u = ctx.real("u", nonzero=not free)
    m = fermi(ctx)(g, u if ns == 2 else 0.0, t, mus=mu, potentials=pot, us_same_species=v, nspecies=ns)
    at = (lambda x, k: x[k]) if per_species else (lambda x, k: x)
    T = ctx.np.zeros((n, n, ns))
    V = ctx.np.zeros((n, n, ns))
    for k in range(ns):
        for i, j in bonds_of(ctx, g, geom):
            T[i, j, k] = T[j, i, k] = at(t, k)
            V[i, j, k] = V[j, i, k] = at(v, k)
    MU = ctx.np.zeros(ns)
    PO = ctx.np.zeros((n, ns))
    for k in range(ns):
        MU[k] = at(mu, k)
        for i in range(n):
            PO[i, k] = at(pot, k)
    U = ctx.np.zeros(n)
    for i in range(n):
        U[i] = u
    ctx.eq(m.createH(), full_ref(ctx, n, ns, T, U if ns == 2 else None, V, MU, PO), "Hamiltonian matrix")


def single_species_matrix(ctx, n):
    """two-dimensional hopping/interaction matrices and 1D potentials are accepted for one species"""
    t = herm_ts(ctx, n, 1)
    v = symm_v(ctx, n, 1)
    pot = ctx.reals("pot", n, nonzero=True)
    m = fermi(ctx)(chain(ctx, n), 0.0, t[:, :, 0], potentials=pot, us_same_species=v[:, :, 0], nspecies=1)
    ctx.eq(m.createH(), full_ref(ctx, n, 1, t, None, v, None, pot[:, None]), "Hamiltonian matrix")


def bond_length(ctx, n):
    """the amplitude of a bond does not depend on where its two sites sit"""
    g = ctx.mod("ed_geometry").Geometry
    xs = [0, 1, 3, 3.5][:n]
    ys = [0, 1, 1, -1][:n]
    t = herm_ts(ctx, n, 1)
    m = fermi(ctx)(g.createNonPeriodicGeometry(xs, ys), 0.0, t, nspecies=1)
    ctx.eq(m.createH(), full_ref(ctx, n, 1, t), "Hamiltonian matrix")


def triangle(ctx, n1, n2):
    g = ctx.mod("ed_geometry").Geometry.createTriangleGeometry(n1, n2, 0., 0., bc1_open=True, bc2_open=True)
    n = g.nsites
    t = ctx.real("t", nonzero=True)
    m = fermi(ctx)(g, 0.0, t, nspecies=1)
    T = ctx.np.zeros((n, n, 1))
    for i in range(n):
        for j in range(n):
            if abs((g.xlocs[i] - g.xlocs[j]) ** 2 + (g.ylocs[i] - g.ylocs[j]) ** 2 - 1) < 1e-9:
                T[i, j, 0] = t
    ctx.eq(m.createH(), full_ref(ctx, n, 1, T), "Hamiltonian matrix")


def twisted(ctx, n, ns):
    """a ring threaded by a flux: every hop carries exp(i phase * displacement / n), H stays Hermitian"""
    q = ctx.real("q", 0.05, 3.0 / n)
    ph = n * q
    t = ctx.real("t", nonzero=True)
    g = chain(ctx, n, 1, False, True, ph, 0.0)
    m = fermi(ctx)(g, 0.0, t, nspecies=ns)
    T = ctx.np.zeros((n, n, ns), dtype=complex)
    for k in range(ns):
        for i in range(n):
            for j in range(n):
                d = int(round(float(g.xlocs[i] - g.xlocs[j])))
                for dd in (d - n, d, d + n):
                    if abs(dd) == 1:
                        T[i, j, k] = t * ctx.np.exp(1j * ph * dd / n)
    H = m.createH()
    ctx.eq(H, full_ref(ctx, n, ns, T), "Hamiltonian matrix")
    ctx.eq(ctx.dense(H), dag(ctx, H), "Hermitian")


def term_sum(ctx, n, ns):
    """the separately exposed terms add up to the Hamiltonian, for scalar interaction argument too"""
    t = herm_ts(ctx, n, ns, cplx=False)
    v = symm_v(ctx, n, ns)
    u = ctx.real("u", nonzero=True)
    mu = ctx.reals("mu", ns, nonzero=True)
    pot = ctx.reals("pot", (n, ns), nonzero=True)
    m = fermi(ctx)(chain(ctx, n), u, t, mus=mu, potentials=pot, us_same_species=v, nspecies=ns)
    H = ctx.dense(m.createH())
    N = n * ns
    uop = sum(num(N, i) @ num(N, n + i) for i in range(n))
    ctx.eq(m.get_u_interspecies_op(u), u * uop, "interspecies term")
    mop = 0
    pop = 0
    for k in range(ns):
        for i in range(n):
            mop = mop - mu[k] * num(N, k * n + i)
            pop = pop + pot[i, k] * num(N, k * n + i)
    ctx.eq(m.get_chemical_pot_op(mu), mop, "chemical potential term")
    ctx.eq(m.get_potential_op(pot), pop, "potential term")


def kinetic_direction(ctx, nx, ny, open1):
    """kinetic energy along an axis: the hops along this axis"""
    g = chain(ctx, nx, ny, open1, True)
    n = g.nsites
    t = ctx.real("t", nonzero=True)
    m = fermi(ctx)(g, 0.0, t, nspecies=1)
    tot = 0
    for ax, d in ((0, np.array([1, 0])), (1, np.array([0, 1]))):
        T = ctx.np.zeros((n, n, 1))
        for i in range(n):
            for j in range(n):
                dx, dy = float(g.xlocs[i] - g.xlocs[j]), float(g.ylocs[i] - g.ylocs[j])
                if ax == 0 and abs(dy) < 1e-9 and (abs(abs(dx) - 1) < 1e-9 or (not open1 and abs(abs(dx) - (nx - 1)) < 1e-9)):
                    T[i, j, 0] = t
                if ax == 1 and abs(dx) < 1e-9 and abs(abs(dy) - 1) < 1e-9:
                    T[i, j, 0] = t
        K = m.get_kinetic_op(direction_vect=d)
        ctx.eq(K, full_ref(ctx, n, 1, T), "kinetic energy along axis %d" % ax)
        tot = tot + ctx.dense(K)
    ctx.eq(tot, ctx.dense(m.createH()), "kinetic terms add up to the hopping Hamiltonian")


def current_open(ctx, nx, ny, ns):
    """J = i [H, X] on open clusters"""
    g = chain(ctx, nx, ny)
    n = g.nsites
    t = ctx.reals("t", ns, nonzero=True)
    m = fermi(ctx)(g, 0.0, t, nspecies=ns)
    a, b = ctx.real("a"), ctx.real("b")
    J = m.get_current_op(ctx.np.array([[a], [b]]))
    H = ctx.dense(m.createH())
    N = n * ns
    X = 0
    for k in range(ns):
        for i in range(n):
            X = X + (a * float(g.xlocs[i]) + b * float(g.ylocs[i])) * num(N, k * n + i)
    ctx.eq(J, 1j * (H @ X - X @ H), "J = i[H, X]")
    ctx.eq(m.get_current_op(), 1j * (H @ Xat(g, ns, 0) - Xat(g, ns, 0) @ H), "default direction is x")


def current_lattice(ctx, kind, a, b, ns):
    """J = i [H, X] on open clusters of other lattices, whose bonds are not along the axes"""
    G = ctx.mod("ed_geometry").Geometry
    g = {"triangle": lambda: G.createTriangleGeometry(a, b), "hexagon": lambda: G.createHexagonalGeometry(a, b),
         "polygon": lambda: G.createRegularPolygonGeometry(a), "tilted": lambda: G.createTiltedSquareGeometry(a, b)}[kind]()
    n = g.nsites
    t = ctx.reals("t", ns, nonzero=True)
    m = fermi(ctx)(g, 0.0, t, nspecies=ns)
    va, vb = ctx.real("a"), ctx.real("b")
    J = ctx.dense(m.get_current_op(ctx.np.array([[va], [vb]])))
    H = ctx.dense(m.createH())
    X = va * Xat(g, ns, 0) + vb * Xat(g, ns, 1)
    ctx.eq(J, 1j * (H @ X - X @ H), "J = i[H, X]")


def current_any(ctx, n, ns, cplx):
    """J = i [H, X] for every hopping matrix between sites at any positions"""
    G = ctx.mod("ed_geometry").Geometry
    x, y = ctx.reals("x", n), ctx.reals("y", n)
    adj = np.ones((n, n)) - np.eye(n)
    g = G.createNonPeriodicGeometry(x, y, adj, np.ones((n, n)))
    t = herm_ts(ctx, n, ns, cplx=cplx)
    m = fermi(ctx)(g, 0.0, t, nspecies=ns)
    va, vb = ctx.real("a"), ctx.real("b")
    J = m.get_current_op(ctx.np.array([va, vb]))
    N = n * ns
    ref = ctx.np.zeros((2 ** N, 2 ** N), dtype=complex)
    for k in range(ns):
        for i in range(n):
            for j in range(n):
                if i != j:
                    ref = ref + 1j * t[i, j, k] * (va * (x[i] - x[j]) + vb * (y[i] - y[j])) * cdag_c(N, k * n + i, k * n + j)
    ctx.eq(J, ref, "J = i[H, X]")
    ctx.eq(ctx.dense(J), dag(ctx, J), "Hermitian")


def Xat(g, ns, ax):
    n = g.nsites
    return sum(float((g.xlocs, g.ylocs)[ax][i]) * num(n * ns, k * n + i) for k in range(ns) for i in range(n))


def current_ring(ctx, n, ns, twist=False):
    t = ctx.real("t", nonzero=True)
    q = ctx.real("q", 0.05, 3.0 / n) if twist else 0.0
    g = chain(ctx, n, 1, False, True, n * q, 0.0)
    m = fermi(ctx)(g, 0.0, t, nspecies=ns)
    J = m.get_current_op(np.array([[1], [0]]))
    N = n * ns
    ref = ctx.np.zeros((2 ** N, 2 ** N), dtype=complex)
    for k in range(ns):
        for i in range(n):
            for j in range(n):
                d = int(round(float(g.xlocs[i] - g.xlocs[j])))
                for dd in (d - n, d, d + n):
                    if abs(dd) == 1:
                        ref = ref + 1j * t * ctx.np.exp(1j * q * dd) * dd * cdag_c(N, k * n + i, k * n + j)
    ctx.eq(J, ref, "ring current")
    ctx.eq(J, dag(ctx, J), "Hermitian")


def rejects(ctx):
    """inconsistent shapes are rejected rather than silently reinterpreted"""
    F = fermi(ctx)
    g = chain(ctx, 3)
    x = ctx.real("x")
    A = lambda *s: x * np.ones(s)
    ctx.raises(lambda: F(g, 0.0, A(2, 3), nspecies=2), "hopping shape")
    ctx.raises(lambda: F(g, A(2), 1.0, nspecies=2), "interspecies shape")
    ctx.raises(lambda: F(g, 0.0, 1.0, us_same_species=A(3, 3), nspecies=2), "same-species shape")
    ctx.raises(lambda: F(g, 0.0, 1.0, potentials=A(3), nspecies=2), "potential shape")
    ctx.raises(lambda: F(g, 0.0, 1.0, ns=np.array([1]), nspecies=2), "number shape")


def tasks(tier):
    T = []
    th = tier == "thorough"
    for n, ns in [(2, 1), (3, 1), (2, 2), (4, 1), (5, 1), (3, 2), (2, 3)] + ([(6, 1)] if th else []):
        for c in (False, True):
            T.append((hamiltonian, dict(n=n, ns=ns, cplx=c)))
    for n, ns in [(2, 1), (3, 1), (2, 2)] + ([(4, 1)] if th else []):
        T.append((free, dict(n=n, ns=ns), 300))
    for gm, ns in [("chain2", 1), ("chain3", 1), ("ring3", 1), ("sq2x2", 1), ("chain2", 2)] + ([("ring4", 1), ("chain3", 2)] if th else []):
        T.append((restricted, dict(geom=gm, ns=ns), 600))
    for w in ("t", "u", "mu", "pot", "v"):
        T.append((vanishing, dict(n=2, ns=2, which=w)))
    T.append((vanishing, dict(n=3, ns=1, which="t")))
    for gm in GEOMS:
        for ns in (1, 2):
            nx, ny = GEOMS[gm][:2]
            if nx * ny * ns > 8 or nx * ny == ns and ns > 1:
                continue
            if nx * ny * ns <= (6 if th else 4):
                T.append((uniform, dict(geom=gm, ns=ns, per_species=False, free=True), 300))
            T.append((uniform, dict(geom=gm, ns=ns, per_species=False)))
            if ns > 1:
                T.append((uniform, dict(geom=gm, ns=ns, per_species=True)))
    T.append((uniform, dict(geom="chain2", ns=2, per_species=False)))
    T.append((uniform, dict(geom="chain2", ns=3, per_species=True)))
    for n in (2, 3):
        T.append((single_species_matrix, dict(n=n)))
    for n in (2, 3, 4):
        T.append((bond_length, dict(n=n)))
    T.append((triangle, dict(n1=2, n2=2)))
    for n, ns in [(3, 1), (4, 1), (3, 2), (5, 1)]:
        T.append((twisted, dict(n=n, ns=ns)))
    T.append((term_sum, dict(n=2, ns=2)))
    T.append((term_sum, dict(n=3, ns=2)))
    for nx, ny, o in [(3, 1, True), (3, 1, False), (4, 1, False), (2, 2, True), (3, 2, True)]:
        T.append((kinetic_direction, dict(nx=nx, ny=ny, open1=o)))
    for nx, ny, ns in [(2, 1, 1), (3, 1, 1), (2, 2, 1), (2, 1, 2), (4, 1, 1)] + ([(3, 2, 1), (3, 1, 2)] if th else []):
        T.append((current_open, dict(nx=nx, ny=ny, ns=ns)))
    for n, ns in [(3, 1), (4, 1), (3, 2)] + ([(5, 1)] if th else []):
        T.append((current_ring, dict(n=n, ns=ns)))
        T.append((current_ring, dict(n=n, ns=ns, twist=True)))
    for k, a, b, ns in [("triangle", 2, 2, 1), ("triangle", 2, 1, 2), ("hexagon", 1, 1, 1), ("polygon", 3, 0, 1), ("polygon", 5, 0, 1), ("tilted", 1, 1, 1), ("tilted", 1, 2, 1)]:
        T.append((current_lattice, dict(kind=k, a=a, b=b, ns=ns)))
    for n, ns in [(2, 1), (3, 1), (2, 2)] + ([(4, 1)] if th else []):
        for c in (False, True):
            T.append((current_any, dict(n=n, ns=ns, cplx=c)))
    T.append((rejects, {}))
    return T
