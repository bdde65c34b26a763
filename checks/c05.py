"""C05 symmetry transformation operators act on the Hilbert space as the site permutation"""
import itertools
import numpy as np
from .common import *
from . import c02, c03

BOUNDS = ("every permutation of 1..4 sites (thorough: 5) written as cycles with every choice of each cycle's starting site and cycle order "
          "(forward or reversed list), 1..2 species (thorough: 3); spins 1/2, 1, 3/2 (thorough: 2); every local operator, every Hamiltonian coefficient +-1000")
ASSUMPTIONS = []


def perm_cycles(ctx, n, flip=True):
    """a permutation of n sites (pi[i] = image) chosen by forking, and its cycles from arbitrary starting points"""
    pi = list(list(itertools.permutations(range(n)))[ctx.choice("perm", int(np.prod(range(1, n + 1))))])
    left, cycles = set(range(n)), []
    while left:
        i = min(left)
        c = [i]
        left.discard(i)
        while pi[c[-1]] != i:
            c.append(pi[c[-1]])
            left.discard(c[-1])
        r = ctx.choice("start%d" % i, len(c))
        cycles.append(c[r:] + c[:r])
    if flip and len(cycles) > 1 and ctx.choice("order", 2):
        cycles = cycles[::-1]
    return pi, cycles


def order_of(pi):
    k, cur = 1, list(pi)
    while cur != list(range(len(pi))):
        cur = [pi[i] for i in cur]
        k += 1
    return k


def fermion_modes(ctx, n, ns):
    pi, cycles = perm_cycles(ctx, n)
    m = c02.fermi(ctx)(chain(ctx, n), 0.0, 1.0, nspecies=ns)
    T = ctx.dense(m.get_xform_op(cycles))
    D = 2 ** (n * ns)
    a, b, c, d = ctx.cplx("a"), ctx.cplx("b"), ctx.cplx("c"), ctx.cplx("d")
    odd = a * m.cdag_op + b * m.c_op
    even = c * m.n_op + d * np.eye(2)
    for k in range(ns):
        for i in range(n):
            for op, f in ((odd, "fermion"), (even, "boson")):
                o1 = m.get_single_site_op(i, k, op, format=f)
                o2 = m.get_single_site_op(pi[i], k, op, format=f)
                ctx.eq(matmul(ctx, T, o1, dag(ctx, T)), o2, "T O_i T^dagger = O_pi(i)")
    e0 = np.zeros(D)
    e0[0] = 1
    x = ctx.real("x")
    ctx.eq(T @ (x * e0), x * e0, "vacuum invariant")
    ctx.eq(x * (T @ dag(ctx, T)), x * np.eye(D), "unitary")
    P = np.eye(D)
    for _ in range(order_of(pi)):
        P = P @ T
    ctx.eq(x * P, x * np.eye(D), "T^order = 1")


def spin_sites(ctx, n, s):
    pi, cycles = perm_cycles(ctx, n)
    m = c03.cls(ctx)(chain(ctx, n), 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, spin=s)
    d = int(2 * s + 1)
    T = ctx.dense(m.get_xform_op(cycles))
    op = ctx.cplxs("o", (d, d))
    for i in range(n):
        o1 = embed(ctx, n, i, op, d)
        o2 = embed(ctx, n, pi[i], op, d)
        ctx.eq(matmul(ctx, T, o1, dag(ctx, T)), o2, "T O_i T^dagger = O_pi(i)")
    x = ctx.cplxs("x", d ** n)
    y = ctx.np.zeros(d ** n, dtype=complex)
    for b in range(d ** n):
        dg = digits(b, n, d)
        d2 = [0] * n
        for i in range(n):
            d2[pi[i]] = dg[i]
        y[index(d2, d)] = x[b]
    ctx.eq(T @ x, y, "basis states move with their sites")


def haml_fermion(ctx, n, ns):
    pi, cycles = perm_cycles(ctx, n)
    t = c02.herm_ts(ctx, n, ns)
    pot = ctx.reals("pot", (n, ns), nonzero=True)
    u = ctx.reals("u", n, nonzero=True) if ns == 2 else 0.0
    inv = [pi.index(i) for i in range(n)]
    F = c02.fermi(ctx)
    m = F(chain(ctx, n), u, t, potentials=pot, nspecies=ns)
    T = m.get_xform_op(cycles)
    m2 = F(chain(ctx, n), u[inv] if ns == 2 else 0.0, t[inv][:, inv], potentials=pot[inv], nspecies=ns)
    ctx.eq(matmul(ctx, T, m.createH(), dag(ctx, T)), m2.createH(), "T H T^dagger is H of the permuted couplings")


def haml_spin(ctx, n, s):
    pi, cycles = perm_cycles(ctx, n)
    J = [c03.symm(ctx, "J" + a, n, True) for a in "xyz"]
    h = [ctx.reals("h" + a, n, nonzero=True) for a in "xyz"]
    inv = [pi.index(i) for i in range(n)]
    C = c03.cls(ctx)
    m = C(chain(ctx, n), *J, *h, spin=s)
    m2 = C(chain(ctx, n), *[x[inv][:, inv] for x in J], *[x[inv] for x in h], spin=s)
    T = m.get_xform_op(cycles)
    ctx.eq(matmul(ctx, T, m.createH(), dag(ctx, T)), m2.createH(), "T H T^dagger is H of the permuted couplings")


def composition(ctx, n, ns):
    """the operators represent the permutation group: T(p) T(q) = T(p after q)"""
    m = c02.fermi(ctx)(chain(ctx, n), 0.0, 1.0, nspecies=ns)
    perms = list(itertools.permutations(range(n)))
    p = perms[ctx.choice("p", len(perms))]
    q = perms[ctx.choice("q", len(perms))]
    pq = [p[q[i]] for i in range(n)]

    def cyc(pi):
        left, out = set(range(n)), []
        while left:
            c = [min(left)]
            left.discard(c[0])
            while pi[c[-1]] != c[0]:
                c.append(pi[c[-1]])
                left.discard(c[-1])
            out.append(c)
        return out
    x = ctx.reals("x", 2 ** (n * ns))
    a, b, c = (ctx.dense(m.get_xform_op(cyc(z))) for z in (p, q, pq))
    ctx.eq(a @ (b @ x), c @ x, "T(p) T(q) = T(pq)")


def geometric(ctx, nx, ny, kind):
    """transformation found from coordinates commutes with the uniform Hamiltonian on that lattice"""
    S = ctx.mod("ed_symmetry")
    G = ctx.mod("ed_geometry").Geometry
    o = kind not in ("tx", "ty")
    g = G.createSquareGeometry(nx, ny, 0.0, 0.0, bc1_open=o or nx < 3, bc2_open=o or ny < 3)
    cx, cy = (nx - 1) / 2, (ny - 1) / 2
    fn = {"rot4": lambda: S.getRotFn(4, cx, cy), "rot2": lambda: S.getRotFn(2, cx, cy),
          "refx": lambda: S.getReflFn([0, 1], cx, cy), "refy": lambda: S.getReflFn([1, 0], cx, cy),
          "refd": lambda: S.getReflFn([1, 1], cx, cy), "inv": lambda: S.getInversionFn(cx, cy),
          "tx": lambda: S.getTranslFn([1, 0]), "ty": lambda: S.getTranslFn([0, 1])}[kind]()
    cycles, order = S.findSiteCycles(fn, g)
    t, v, mu = ctx.real("t", nonzero=True), ctx.real("v", nonzero=True), ctx.real("mu", nonzero=True)
    m = c02.fermi(ctx)(g, 0.0, t, mus=mu, us_same_species=v, nspecies=1)
    T = m.get_xform_op(cycles)
    H = m.createH()
    ctx.eq(matmul(ctx, T, H), matmul(ctx, H, T), "[T, H] = 0")
    P = ctx.dense(T)
    for _ in range(order - 1):
        P = P @ ctx.dense(T)
    ctx.eq(t * P, t * np.eye(2 ** (nx * ny)), "T^order = 1")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for n, ns in [(1, 1), (2, 1), (3, 1), (2, 2), (4, 1), (3, 2)] + ([(5, 1), (2, 3)] if th else []):
        T.append((fermion_modes, dict(n=n, ns=ns), 600))
    for n, s in [(1, .5), (2, .5), (3, .5), (2, 1), (2, 1.5), (4, .5), (3, 1)] + ([(5, .5), (3, 1.5), (2, 2)] if th else []):
        T.append((spin_sites, dict(n=n, s=s), 600))
    for n, ns in [(2, 1), (3, 1), (2, 2)] + ([(4, 1), (3, 2)] if th else []):
        T.append((haml_fermion, dict(n=n, ns=ns), 600))
    for n, s in [(2, .5), (3, .5), (2, 1)] + ([(4, .5), (3, 1)] if th else []):
        T.append((haml_spin, dict(n=n, s=s), 600))
    T.append((composition, dict(n=3, ns=1), 300))
    T.append((composition, dict(n=2, ns=2), 300))
    if th:
        T.append((composition, dict(n=3, ns=2), 600))
        T.append((composition, dict(n=4, ns=1), 800))
    for nx, ny, k in [(2, 2, "rot4"), (2, 2, "refd"), (3, 2, "rot2"), (3, 2, "refx"), (3, 2, "refy"), (4, 1, "inv"), (4, 1, "tx"),
                      (5, 1, "tx"), (3, 2, "tx"), (2, 3, "ty"), (2, 3, "inv")]:
        T.append((geometric, dict(nx=nx, ny=ny, kind=k), 200))
    return T
