"""C12 relabelling, sorting and comparing geometries"""
import itertools
import numpy as np
from .common import *
from . import c02, c03

BOUNDS = ("2..4 sites (thorough 5) with every position, every adjacency matrix (3 and 4 sites), every Hermitian phase matrix and every "
          "permutation; sorting for every arrangement of rows; periodic clusters up to 4x2")
ASSUMPTIONS = ["compared geometries differ by at least 0.01 in the quantity that differs"]


def perm(ctx, n):
    P = list(itertools.permutations(range(n)))
    return list(P[ctx.choice("perm", len(P))])


def adj(ctx, n):
    A = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            A[i, j] = A[j, i] = ctx.choice("A%d%d" % (i, j), 2)
    return A


def some(ctx, n, phase=True):
    M = ctx.mod("ed_geometry")
    xs, ys = ctx.reals("x", n), ctx.reals("y", n)
    A = np.zeros((n, n))
    for i in range(n - 1):
        A[i, i + 1] = A[i + 1, i] = 1
    P = None
    if phase:
        th = ctx.reals("th", n, 0.1, 1)
        P = ctx.np.ones((n, n), dtype=complex)
        for i in range(n):
            for j in range(n):
                P[i, j] = ctx.np.exp(1j * (th[i] - th[j]))
    return M.Geometry.createNonPeriodicGeometry(xs, ys, A, P), xs, ys, A, P


def permute(ctx, n):
    g, xs, ys, A, P = some(ctx, n)
    p = perm(ctx, n)
    g.permute_sites(p)
    w = ctx.real("w", 0.5, 2)
    for j in range(n):
        ctx.eq(g.xlocs[j], xs[p[j]], "site permutation[j] becomes site j")
        ctx.eq(g.ylocs[j], ys[p[j]], "site permutation[j] becomes site j")
        for k in range(n):
            ctx.eq(w * g.adjacency_mat[j, k], w * A[p[j], p[k]], "adjacency follows")
            ctx.eq(g.phase_mat[j, k], P[p[j], p[k]], "phases follow")
            ctx.eq(g.xdist_mat[j, k], xs[p[j]] - xs[p[k]], "x distances follow")
            ctx.eq(g.ydist_mat[j, k], ys[p[j]] - ys[p[k]], "y distances follow")
    ctx.eq(g.nsites, n, "number of sites")


def permute_adj(ctx, n):
    M = ctx.mod("ed_geometry")
    A = adj(ctx, n)
    p = perm(ctx, n)
    w = ctx.reals("w", (n, n), 0.5, 2)
    g = M.Geometry.createNonPeriodicGeometry(list(range(n)), [0] * n, A)
    g.permute_sites(p)
    ctx.eq(w * g.adjacency_mat, w * A[p][:, p], "adjacency follows")
    inv = [p.index(i) for i in range(n)]
    g.permute_sites(inv)
    ctx.eq(w * g.adjacency_mat, w * A, "inverse permutation restores")


def permute_lattice(ctx, nx, ny, phase):
    """permuting a lattice geometry and rebuilding from the permuted sites agree; a periodic lattice keeps its physics"""
    M = ctx.mod("ed_geometry")
    g = M.Geometry.createSquareGeometry(nx, ny, phase, 0.0, bc1_open=nx < 3, bc2_open=ny < 3)
    n = nx * ny
    p = [(5 * i + ctx.choice("s", n)) % n for i in range(n)] if n % 5 else [(3 * i + ctx.choice("s", n)) % n for i in range(n)]
    if sorted(p) != list(range(n)):
        return
    t = ctx.reals("t", (n, n))
    A0, P0, X0 = g.adjacency_mat, g.phase_mat, g.xdist_mat
    g.permute_sites(p)
    h = M.Geometry(g.xlocs, g.ylocs, lattice=g.lattice)
    ctx.eq(t * g.adjacency_mat, t * h.adjacency_mat, "adjacency of the permuted sites")
    ctx.eq(t * g.adjacency_mat, t * np.asarray(A0)[p][:, p], "adjacency follows")
    ctx.eq(t * g.phase_mat, t * np.asarray(P0)[p][:, p], "phases follow")
    ctx.eq(t * g.xdist_mat, t * np.asarray(X0)[p][:, p], "distances follow")


def bad_perm(ctx, n):
    g, *_ = some(ctx, n)
    for p in ([0] * n, list(range(n - 1)), list(range(n + 1)), list(range(1, n + 1))):
        ctx.raises(lambda: g.permute_sites(p), "not a permutation")


def sorting(ctx, mode, rows):
    """rows of sites at integer heights (in any input order), every x coordinate: rows from the top, x ordered within each"""
    M = ctx.mod("ed_geometry")
    n = len(rows)
    y0 = ctx.choice("y0", 3) - 1
    ys = np.array([float(r + y0) for r in rows])
    xs = ctx.reals("x", n)
    for i in range(n):
        for j in range(i):
            if rows[i] == rows[j]:
                ctx.assume(ctx.np.abs(xs[i] - xs[j]) >= 0.01)
    g = M.Geometry.createNonPeriodicGeometry(xs, ys, np.zeros((n, n)))
    s = [int(i) for i in g.get_sorting_permutation(mode)] if mode else [int(i) for i in g.get_sorting_permutation()]
    ctx.true(sorted(s) == list(range(n)), "a permutation")
    top = max(rows)
    for a, b in zip(s, s[1:]):
        if rows[a] == rows[b]:
            sgn = -1 if mode in (None, "top_alternating") and (top - rows[a]) % 2 else 1
            ctx.true(sgn * (xs[b] - xs[a]) >= 0, "x order within a row")
        else:
            ctx.true((rows[b] > rows[a]) if mode == "bottom_right" else (rows[b] < rows[a]), "row order")
    g.permute_sites(s)
    for k in range(n):
        ctx.eq(g.xlocs[k], xs[s[k]], "sorted sites")


def sort_any(ctx, mode, n):
    """top_left and bottom_right for every pair of coordinates"""
    M = ctx.mod("ed_geometry")
    xs, ys = ctx.reals("x", n), ctx.reals("y", n)
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.np.abs(ys[i] - ys[j]) >= 0.01)
    g = M.Geometry.createNonPeriodicGeometry(xs, ys, np.zeros((n, n)))
    s = [int(i) for i in g.get_sorting_permutation(mode)]
    ctx.true(sorted(s) == list(range(n)), "a permutation")
    for a, b in zip(s, s[1:]):
        ctx.true((ys[b] - ys[a]) * (1 if mode == "bottom_right" else -1) >= 0, "height order")


def sort_adjacency(ctx, n):
    M = ctx.mod("ed_geometry")
    A = adj(ctx, n) if n < 6 else None
    if A is None:
        A = np.zeros((7, 7))
        for i, j in ((0, 1), (1, 2), (2, 0), (3, 4), (3, 5), (3, 6)):
            A[i, j] = A[j, i] = 1
        p = [(3 * i + ctx.choice("s", 7)) % 7 for i in range(7)]
        A = A[p][:, p]
    n = len(A)
    g = M.Geometry.createNonPeriodicGeometry(list(range(n)), [0] * n, A)
    s = [int(i) for i in g.get_sorting_permutation("adjacency")]
    ctx.true(sorted(s) == list(range(n)), "a permutation")
    w = ctx.real("w", 0.5, 2)
    d = A.sum(1)
    d2 = (A @ A).sum(1)
    for a, b in zip(s, s[1:]):
        ctx.true(w * d[b] >= w * d[a], "ordered by number of neighbours")
        if d[a] == d[b]:
            ctx.true(w * d2[b] >= w * d2[a], "ties by the number of two-step walks")
    ctx.raises(lambda: g.get_sorting_permutation("other"), "unknown mode")


def equality(ctx, n, what):
    M = ctx.mod("ed_geometry")
    G = M.Geometry.createNonPeriodicGeometry
    xs, ys = ctx.reals("x", n), ctx.reals("y", n)
    A = np.zeros((n, n))
    A[0, 1] = A[1, 0] = 1
    a = ctx.real("a", 0.05, 2)
    g = G(xs, ys, A)
    ctx.true(g == G(xs, ys, A), "equal to its copy")
    ctx.true(not (g != G(xs, ys, A)), "!= is the negation")
    ctx.true(g.isequal_adjacency(G(xs, ys, A)), "same adjacency as its copy")
    x2 = ctx.np.array(xs)
    y2 = ctx.np.array(ys)
    if what == "x" or what == "y":
        k = ctx.choice("k", n)
        (x2 if what == "x" else y2)[k] = (xs if what == "x" else ys)[k] + a
        h = G(x2, y2, A)
        ctx.true(not (g == h), "different positions")
        ctx.true(g != h, "!= is the negation")
        ctx.true(not g.isequal_adjacency(h), "different distances")
    elif what == "shift":
        h = G(xs + 1.0, ys - 2.0, A)
        ctx.true(not (g == h), "different positions")
    elif what == "adjacency":
        B = A.copy()
        i, j = list(itertools.combinations(range(n), 2))[ctx.choice("pair", n * (n - 1) // 2)]
        B[i, j] = B[j, i] = 1 - B[i, j]
        h = G(xs, ys, B)
        ctx.true(not (g == h), "different adjacency")
        ctx.true(not g.isequal_adjacency(h), "different adjacency")
    elif what == "phase":
        P = ctx.np.ones((n, n), dtype=complex)
        P[0, 1], P[1, 0] = ctx.np.exp(1j * a), ctx.np.exp(-1j * a)
        h = G(xs, ys, A, P)
        ctx.true(not (g == h), "different phases")
        ctx.true(g != h, "!= is the negation")
        ctx.true(g.isequal_adjacency(h), "same distances and adjacency")


def isequal_shift(ctx, n):
    """clusters on a lattice: comparison ignoring absolute positions"""
    M = ctx.mod("ed_geometry")
    a, b = ctx.choice("a", 5) - 2, ctx.choice("b", 5) - 2
    xs, ys = [0, 1, 1, 2][:n], [0, 0, 1, 1][:n]
    g = M.Geometry.createNonPeriodicGeometry(xs, ys)
    h = M.Geometry.createNonPeriodicGeometry([x + a for x in xs], [y + b for y in ys])
    w = ctx.real("w", 0.5, 2)
    ctx.true(g.isequal_adjacency(h), "translated cluster has the same distances")
    ctx.true((g == h) == (a == 0 and b == 0), "equal only at the same position")
    m = M.Geometry.createNonPeriodicGeometry([-x for x in xs], ys)
    ctx.true(not g.isequal_adjacency(m), "mirror image has other distances")
    ctx.eq(w, w, "reached")


def lattice_eq(ctx, what):
    M = ctx.mod("ed_geometry")
    a, b = ctx.real("a", -1, 1), ctx.real("b", 0.05, 1)
    mk = lambda l1=(1, 0), l2=(0, 1), p1=(3, 0), p2=(0, 2), f1=a, f2=a: M.Lattice(l1, l2, [[0, 0]], p1, p2, f1, f2)
    L = mk()
    ctx.true(L == mk(), "equal to its copy")
    ctx.true(not (L != mk()), "!= is the negation")
    h = dict(l1=lambda: mk(l1=(1, 1)), l2=lambda: mk(l2=(1, 1)), p1=lambda: mk(p1=(6, 0)), p2=lambda: mk(p2=(0, 4)),
             f1=lambda: mk(f1=a + b), f2=lambda: mk(f2=a + b), none=lambda: None)[what]()
    ctx.true(not (L == h), "different lattices differ")
    ctx.true(L != h, "!= is the negation")


def relabel_physics(ctx, n):
    """relabelling the sites of a geometry relabels the Hamiltonian built on it"""
    M = ctx.mod("ed_geometry")
    A = adj(ctx, n)
    p = perm(ctx, n)
    t, v = ctx.real("t", nonzero=True), ctx.real("v", nonzero=True)
    F = c02.fermi(ctx)
    g = M.Geometry.createNonPeriodicGeometry(list(range(n)), [0] * n, A)
    m1 = F(g, 0.0, t, us_same_species=v, nspecies=1)
    H1 = ctx.dense(m1.createH())
    g2 = M.Geometry.createNonPeriodicGeometry(list(range(n)), [0] * n, A)
    g2.permute_sites(p)
    m2 = F(g2, 0.0, t, us_same_species=v, nspecies=1)
    H2 = ctx.dense(m2.createH())
    # one-particle block: basis state with only site i occupied
    e1 = [2 ** (n - 1 - i) for i in range(n)]
    for i in range(n):
        for j in range(n):
            ctx.eq(H2[e1[i], e1[j]], H1[e1[p[i]], e1[p[j]]], "one-particle Hamiltonian follows the labels")
            ctx.eq(H1[e1[i], e1[j]], -t * A[i, j], "hopping only between neighbours")


def tasks(tier):
    th = tier == "thorough"
    T = [(permute, dict(n=n), 200) for n in (2, 3, 4)] + ([(permute, dict(n=5), 800)] if th else [])
    T += [(permute_adj, dict(n=n), 300) for n in (2, 3)] + ([(permute_adj, dict(n=4), 1200)] if th else [])
    for a, b in ((3, 1), (4, 1), (2, 2), (3, 2), (4, 2), (3, 3)):
        for ph in (0.0, 0.6):
            T.append((permute_lattice, dict(nx=a, ny=b, phase=ph)))
    T += [(bad_perm, dict(n=n)) for n in (2, 3)]
    R = [(0, 0, 0), (0, 1, 0), (0, 1, 1), (2, 1, 2), (0, 1, 2), (3, 1, 1), (1, 0, 0, 1), (0, 2, 0, 2)]
    if th:
        R += [(0, 1, 0, 1, 1), (2, 1, 0, 2, 1), (0, 0, 0, 0, 0)]
    for m in ("top_alternating", "top_left", "bottom_right", None):
        for r in R:
            T.append((sorting, dict(mode=m, rows=r), 200 if not th else 800))
    for m in ("top_left", "bottom_right"):
        T += [(sort_any, dict(mode=m, n=n), 200) for n in (2, 3) + ((4,) if th else ())]
    T += [(sort_adjacency, dict(n=n), 200) for n in (2, 3, 4, 7)] + ([(sort_adjacency, dict(n=5), 800)] if th else [])
    for w in ("x", "y", "shift", "adjacency", "phase"):
        T += [(equality, dict(n=n, what=w)) for n in (2, 3)]
    T += [(isequal_shift, dict(n=n)) for n in (3, 4)]
    T += [(lattice_eq, dict(what=w)) for w in ("l1", "l2", "p1", "p2", "f1", "f2", "none")]
    T += [(relabel_physics, dict(n=n), 300) for n in (2, 3)]
    return T
