"""C11 distances, neighbours and boundary phases of a geometry"""
import numpy as np
from .common import *
from .c10 import LATTS, S3, frac, expected, MAKE

BOUNDS = ("2 sites with every position in [-5,5]^2 and a third site moving in [-3,3]x[-2,2] among two fixed ones on nine periodicity cells (orthogonal, oblique, tilted, one and zero "
          "dimensional); neighbour relations of all built-in clusters up to 4x4 (thorough 5x5) cells with every open/periodic choice, "
          "of rings at every offset and of open clusters with every integer placement in 3x3; every boundary phase in [-3,3]")
ASSUMPTIONS = ["displacements are at least 1e-6 away from ties between periodic images when their sign is compared",
               "twisted geometries have at least one displacement whose phase has a sine of at least 0.05"]
CELLS = {"square": ("square", (3, 0, 0, 2)), "tilted": ("square", (2, 1, -1, 2)), "tri": ("tri", (3, 0, 0, 2)),
         "oblique": ("square", (3, 0, 2, 2)), "line1": ("square", (3, 0, 0, 0)), "line2": ("tri", (0, 0, 0, 2)),
         "none": ("square", (0, 0, 0, 0)), "swapped": ("square", (0, 3, 2, 0)), "long": ("tri", (1, 0, 1, 2))}


def cell(c):
    l, (n, m, i, j) = CELLS[c]
    l1, l2 = LATTS[l]
    return l1, l2, [n * l1[0] + m * l2[0], n * l1[1] + m * l2[1]], [i * l1[0] + j * l2[0], i * l1[1] + j * l2[1]]


def fr(p1, p2, x, y):
    """components along the periodicity vectors; absent direction -> 0"""
    if any(p1) and any(p2):
        return frac(p1, p2, x, y)
    if any(p1):
        return (x * p1[0] + y * p1[1]) / (p1[0] ** 2 + p1[1] ** 2), 0.0
    if any(p2):
        return 0.0, (x * p2[0] + y * p2[1]) / (p2[0] ** 2 + p2[1] ** 2)
    return 0.0, 0.0


def distance(ctx, c, n, all=True):
    M = ctx.mod("ed_geometry")
    l1, l2, p1, p2 = cell(c)
    L = M.Lattice(l1, l2, [[0, 0]], p1, p2)
    if all:
        x, y = ctx.reals("x", n, -5, 5), ctx.reals("y", n, -5, 5)
    else:
        k = ctx.choice("k", n)
        x = ctx.np.array([ctx.real("x", -3, 3) if i == k else 0.37 * i - 0.8 for i in range(n)])
        y = ctx.np.array([ctx.real("y", -2, 2) if i == k else 1.13 * i - 1.1 for i in range(n)])
    dx, dy, a, b = L.get_reduced_distance(x, y)
    for i in range(n):
        ctx.eq(dx[i, i], 0.0, "no distance to itself")
        ctx.eq(dy[i, i], 0.0, "no distance to itself")
        for j in range(n):
            if i == j:
                continue
            ctx.eq(dx[i, j] + dx[j, i], 0.0, "antisymmetric x")
            ctx.eq(dy[i, j] + dy[j, i], 0.0, "antisymmetric y")
            ctx.eq(a[i, j] + a[j, i], 0.0, "antisymmetric lattice count 1")
            ctx.eq(b[i, j] + b[j, i], 0.0, "antisymmetric lattice count 2")
            rx, ry = x[i] - x[j] - dx[i, j], y[i] - y[j] - dy[i, j]
            k1, k2 = fr(p1, p2, rx, ry)
            k1, k2 = ctx.np.round(k1), ctx.np.round(k2)
            ctx.eq(rx, k1 * p1[0] + k2 * p2[0], "x displacement up to periodicity")
            ctx.eq(ry, k1 * p1[1] + k2 * p2[1], "y displacement up to periodicity")
            d = dx[i, j] ** 2 + dy[i, j] ** 2
            for m1 in (-1, 0, 1):
                for m2 in (-1, 0, 1):
                    if (m1 and any(p1)) or (m2 and any(p2)):
                        qx, qy = m1 * p1[0] + m2 * p2[0], m1 * p1[1] + m2 * p2[1]
                        ctx.true(2 * (dx[i, j] * qx + dy[i, j] * qy) + qx ** 2 + qy ** 2 >= -1e-8, "no image is closer")
            sx, sy = dx[i, j] - a[i, j] * l1[0] - b[i, j] * l2[0], dy[i, j] - a[i, j] * l1[1] - b[i, j] * l2[1]
            for f in frac(l1, l2, sx, sy):
                ctx.true(f >= -0.5 - 1e-8, "nearest lattice translation")
                ctx.true(f <= 0.5 + 1e-8, "nearest lattice translation")


def nbr_ref(xs, ys, p1, p2):
    n = len(xs)
    A = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            best = min((xs[i] - xs[j] + a * p1[0] + b * p2[0]) ** 2 + (ys[i] - ys[j] + a * p1[1] + b * p2[1]) ** 2
                       for a in range(-3, 4) for b in range(-3, 4))
            A[i, j] = abs(best - 1) < 1e-6
    return A


def builtin(ctx, kind, n1, n2):
    M = ctx.mod("ed_geometry")
    o1, o2 = bool(ctx.choice("open1", 2)), bool(ctx.choice("open2", 2))
    if kind != "tilted" and ((n1 == 1 and not o1) or (n2 == 1 and not o2)):
        return
    w = ctx.real("w", 0.5, 2)
    g = getattr(M.Geometry, MAKE[kind])(n1, n2, bc1_open=o1, bc2_open=o2)
    n, p1, p2, latt, basis = expected(ctx, kind, n1, n2)
    z = [0.0, 0.0]
    A = nbr_ref(g.xlocs, g.ylocs, z if o1 else p1, z if o2 else p2)
    ctx.eq(w * g.adjacency_mat, w * A, "neighbours are the sites one bond length away")
    ctx.eq(w * g.phase_mat, w * np.ones((n, n)), "no phase without twist")
    big = min(n1, n2) > 2 or kind == "hex" and min(n1, n2) > 1
    if not o1 and not o2 and kind != "tilted" and big:
        k = dict(square=4, tri=6, hex=3)[kind]
        ctx.eq(w * ctx.np.sum(g.adjacency_mat, 1), w * k * np.ones(n), "coordination number")
    ctx.eq(w * (g.xdist_mat + g.xdist_mat.T), w * np.zeros((n, n)), "antisymmetric")
    ctx.eq(w * (g.ydist_mat + g.ydist_mat.T), w * np.zeros((n, n)), "antisymmetric")


def offset_ring(ctx, n, axis):
    """sites of a periodic ring given at any common offset, in any unit-cell image"""
    M = ctx.mod("ed_geometry")
    x0, y0 = ctx.real("x0", -4, 4), ctx.real("y0", -4, 4)
    ims = [ctx.choice("im%d" % i, 3) - 1 for i in range(n if n < 4 else 2)] + [0] * (n - (n if n < 4 else 2))
    u = ctx.np.array([x0 + i + n * ims[i] for i in range(n)])
    v = ctx.np.array([y0] * n)
    P = [float(n), 0.0] if axis == 0 else [0.0, float(n)]
    L = M.Lattice([1, 0], [0, 1], [[0, 0]], P, [0, 0]) if axis == 0 else M.Lattice([1, 0], [0, 1], [[0, 0]], [0, 0], P)
    g = M.Geometry(u, v, lattice=L) if axis == 0 else M.Geometry(v, u, lattice=L)
    A = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            A[i, j] = i != j and (i - j) % n in (1, n - 1)
    w = ctx.real("w", 0.5, 2)
    ctx.eq(w * g.adjacency_mat, w * A, "ring neighbours")
    ctx.eq(g.nsites, n, "number of sites")


def open_cluster(ctx, n):
    """sites without a lattice: neighbours are one unit apart along one axis, for every integer placement, origin and small error"""
    M = ctx.mod("ed_geometry")
    x0, y0 = ctx.real("x0", -4, 4), ctx.real("y0", -4, 4)
    e = ctx.reals("e", (2, n), -0.2, 0.2)
    pos = [(0, 0)] + [(ctx.choice("a%d" % i, 5) - 2, ctx.choice("b%d" % i, 5) - 2) for i in range(1, n)]
    if len(set(pos)) < n:
        return
    xs = ctx.np.array([x0 + p[0] + e[0, i] for i, p in enumerate(pos)])
    ys = ctx.np.array([y0 + p[1] + e[1, i] for i, p in enumerate(pos)])
    g = M.Geometry.createNonPeriodicGeometry(xs, ys)
    A = np.array([[float(abs(p[0] - q[0]) + abs(p[1] - q[1]) == 1) for q in pos] for p in pos])
    w = ctx.real("w", 0.5, 2)
    ctx.eq(w * g.adjacency_mat, w * A, "neighbours")
    ctx.eq(g.phase_mat, np.ones((n, n)), "no phases")
    for i in range(n):
        for j in range(n):
            ctx.eq(g.xdist_mat[i, j], xs[i] - xs[j], "x distance")
            ctx.eq(g.ydist_mat[i, j], ys[i] - ys[j], "y distance")
    X, Y, N = M.Geometry.get_neighbors_by_distance(g.xdist_mat, g.ydist_mat)
    ctx.eq(w * X, w * np.array([[float(abs(p[0] - q[0]) == 1 and p[1] == q[1]) for q in pos] for p in pos]), "x neighbours")
    ctx.eq(w * Y, w * np.array([[float(abs(p[1] - q[1]) == 1 and p[0] == q[0]) for q in pos] for p in pos]), "y neighbours")
    ctx.eq(w * N, w * A, "x or y neighbours")


def twist(ctx, a, b, f):
    """keep away from the threshold where imaginary parts of 1e-14 are dropped (unless there is no phase at all)"""
    if any(not (isinstance(z, float) and z == 0.0) and not (isinstance(q, float) and q == 0.0) for z, q in zip(f, (a, b))):
        ctx.assume(ctx.np.imag(ctx.np.exp(1j * (a * f[0] + b * f[1]))) >= 0.05)


def phases(ctx, c):
    """phase factor of a displacement is exp(i(phase1 f1 + phase2 f2)), f the components along the periodicity vectors"""
    M = ctx.mod("ed_geometry")
    l1, l2, p1, p2 = cell(c)
    # components in units that the exponentials can share
    a, b = ctx.real("a", -3, 3), ctx.real("b", -3, 3)
    L = M.Lattice(l1, l2, [[0, 0]], p1, p2, a, b)
    dx = np.array([[0, 1.0, -0.5], [-1.0, 0, 2.0], [0.5, -2.0, 0]])
    dy = np.array([[0, 0.5, 1.5], [-0.5, 0, -1.0], [-1.5, 1.0, 0]])
    twist(ctx, a, b, fr(p1, p2, dx[1, 0], dy[1, 0]))
    P = L.get_phase_mat(dx, dy)
    for i in range(3):
        for j in range(3):
            f1, f2 = fr(p1, p2, dx[i, j], dy[i, j])
            ctx.eq(P[i, j], ctx.np.exp(1j * (a * f1 + b * f2)), "phase of a displacement")


def phase_positions(ctx, c, which):
    """the same for a fixed phase and every displacement: multiplicative along paths, Hermitian"""
    M = ctx.mod("ed_geometry")
    l1, l2, p1, p2 = cell(c)
    ph = (0.9, 0.0) if which == 1 else (0.0, -1.7)
    L = M.Lattice(l1, l2, [[0, 0]], p1, p2, *ph)
    u, v = ctx.reals("u", 3), ctx.reals("v", 3)
    dx = ctx.np.zeros((3, 3))
    dy = ctx.np.zeros((3, 3))
    for i in range(3):
        for j in range(3):
            dx[i, j] = u[i] - u[j]
            dy[i, j] = v[i] - v[j]
    twist(ctx, *ph, fr(p1, p2, dx[1, 0], dy[1, 0]))
    P = L.get_phase_mat(dx, dy)
    for i in range(3):
        for j in range(3):
            f1, f2 = fr(p1, p2, dx[i, j], dy[i, j])
            ctx.eq(P[i, j], ctx.np.exp(1j * (ph[0] * f1 + ph[1] * f2)), "phase of a displacement")
            ctx.eq(P[i, j], ctx.np.conj(P[j, i]), "Hermitian")


def ring_flux(ctx, n, axis):
    """the phases around a closed ring multiply to exp(i phase) in the direction of decreasing coordinate"""
    q = ctx.real("q", 0.05, 3.0 / n)
    g = chain(ctx, n, 1, False, True, n * q, 0.0) if axis == 0 else chain(ctx, 1, n, True, False, 0.0, n * q)
    pr = 1.0
    for i in range(n):
        pr = pr * g.phase_mat[(i + 1) % n, i]
        ctx.eq(g.phase_mat[(i + 1) % n, i], ctx.np.exp(1j * q), "one step")
    ctx.eq(pr, ctx.np.exp(1j * q * n), "total twist")
    ctx.eq(ctx.np.conj(g.phase_mat.T), g.phase_mat, "Hermitian")
    ctx.eq(ctx.np.abs(g.phase_mat), np.ones((n, n)), "unit modulus")


def rejects(ctx, n):
    """malformed adjacency or phase matrices are rejected, well-formed ones are kept"""
    M = ctx.mod("ed_geometry")
    G = M.Geometry.createNonPeriodicGeometry
    x, y = list(range(n)), [0] * n
    a = ctx.real("a", 0.05, 3)
    B = np.zeros((n, n))
    B[0, n - 1] = B[n - 1, 0] = 1
    w = ctx.real("w", 0.5, 2)
    ctx.eq(w * G(x, y, B).adjacency_mat, w * B, "given adjacency kept")
    bad = B.copy()
    bad[0, n - 1] = 0
    ctx.raises(lambda: G(x, y, bad), "asymmetric adjacency")
    ctx.raises(lambda: G(x, y, np.zeros((n + 1, n + 1))), "wrong size")
    bad2 = ctx.np.zeros((n, n))
    bad2[0, n - 1] = bad2[n - 1, 0] = a + 1.0
    ctx.raises(lambda: G(x, y, bad2), "adjacency entries other than 0 and 1")
    P = ctx.np.ones((n, n), dtype=complex)
    P[0, 1] = ctx.np.exp(1j * a)
    P[1, 0] = ctx.np.exp(-1j * a)
    ctx.eq(G(x, y, None, P).phase_mat, P, "given phases kept")
    Q = ctx.np.ones((n, n), dtype=complex)
    Q[0, 1] = Q[1, 0] = ctx.np.exp(1j * a)
    ctx.raises(lambda: G(x, y, None, Q), "phases not Hermitian")
    R = ctx.np.ones((n, n), dtype=complex)
    R[0, 1] = R[1, 0] = 1 + a
    ctx.raises(lambda: G(x, y, None, R), "phases not of unit modulus")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for c in CELLS:
        T.append((distance, dict(c=c, n=2, all=th or c in ("square", "line1", "none", "swapped")), 200 if not th else 900))
    for c in ("square", "none") if not th else CELLS:
        T.append((distance, dict(c=c, n=3, all=False), 200 if not th else 1500))
    N = 4 if not th else 5
    for k in ("square", "tri"):
        for a in range(1, N + 1):
            for b in range(1, N + 1):
                T.append((builtin, dict(kind=k, n1=a, n2=b), 200))
    for a in range(1, 4):
        for b in range(1, 4):
            if a * b <= (6 if not th else 9):
                T.append((builtin, dict(kind="hex", n1=a, n2=b), 300))
    for a, b in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (3, 2)] + ([(3, 3), (4, 1), (2, 4)] if th else []):
        T.append((builtin, dict(kind="tilted", n1=a, n2=b), 200))
    for n in (2, 3, 4, 5):
        for ax in (0, 1):
            T.append((offset_ring, dict(n=n, axis=ax), 200))
    T += [(open_cluster, dict(n=2), 200)] + ([(open_cluster, dict(n=3), 1200)] if th else [])
    for c in CELLS:
        T.append((phases, dict(c=c), 200))
        for w in (1, 2):
            T.append((phase_positions, dict(c=c, which=w), 200))
    for n in (3, 5, 7):
        for ax in (0, 1):
            T.append((ring_flux, dict(n=n, axis=ax), 200))
    T += [(rejects, dict(n=n)) for n in (2, 3)]
    return T
