"""C10 the sites of a lattice geometry are exactly the distinct lattice points of one periodicity cell"""
import numpy as np
from .common import *

S3 = float(np.sqrt(3))
BOUNDS = ("square, triangular, hexagonal and tilted clusters up to 4x4 (thorough 6x6) cells and every choice of open/periodic "
          "directions, every phase; lattices with square, rectangular, oblique and left-handed vectors and every periodicity "
          "P = n l1 + m l2 with integer entries in [-2,2]; every basis vector in two-dimensional ranges; polygons of 2..8 sides")
ASSUMPTIONS = ["basis sites are at least 0.05 apart modulo the lattice and at least 1e-3 away from the boundary of the periodicity cell"]
LATTS = {"square": ([1.0, 0.0], [0.0, 1.0]), "rect": ([2.0, 0.0], [0.0, 0.5]), "tri": ([1.0, 0.0], [0.5, S3 / 2]),
         "left": ([0.0, 1.0], [1.0, 0.3]), "hex": ([1.5, S3 / 2], [1.5, -S3 / 2])}


def frac(p1, p2, x, y):
    det = p1[0] * p2[1] - p1[1] * p2[0]
    return (x * p2[1] - y * p2[0]) / det, (-x * p1[1] + y * p1[0]) / det


def inc(ctx, f):
    """distance from the nearest integer (signed)"""
    return f - ctx.np.round(f)


def distinct(ctx, p1, p2, xs, ys, dmin, label):
    """no two sites coincide modulo the periodicity"""
    n = len(xs)
    for i in range(n):
        for j in range(i):
            f1, f2 = frac(p1, p2, xs[i] - xs[j], ys[i] - ys[j])
            a, b = inc(ctx, f1), inc(ctx, f2)
            ctx.true(ctx.np.logical_or(ctx.np.abs(a) >= dmin, ctx.np.abs(b) >= dmin), label)


def in_cell(ctx, p1, p2, xs, ys):
    for i in range(len(xs)):
        for f in frac(p1, p2, xs[i], ys[i]):
            ctx.true(f >= -1e-9, "inside the periodicity cell")
            ctx.true(f <= 1 - 1e-7, "inside the periodicity cell (upper edge excluded)")


def expected(ctx, kind, n1, n2):
    if kind == "square":
        return n1 * n2, [n1, 0.0], [0.0, n2], LATTS["square"], [(0.0, 0.0)]
    if kind == "tilted":
        return n1 ** 2 + n2 ** 2, [n1, n2], [-n2, n1], LATTS["square"], [(0.0, 0.0)]
    if kind == "tri":
        return n1 * n2, [n1, 0.0], [0.5 * n2, S3 / 2 * n2], LATTS["tri"], [(0.0, 0.0)]
    return 4 * n1 * n2, [3.0 * n1, 0.0], [0.0, S3 * n2], LATTS["hex"], [(-1.0, 0.0), (-0.5, S3 / 2)]


MAKE = dict(square="createSquareGeometry", tilted="createTiltedSquareGeometry", tri="createTriangleGeometry",
            hex="createHexagonalGeometry")


def builtin(ctx, kind, n1, n2):
    M = ctx.mod("ed_geometry")
    o1, o2 = bool(ctx.choice("open1", 2)), bool(ctx.choice("open2", 2))
    if kind != "tilted" and ((n1 == 1 and not o1) or (n2 == 1 and not o2)):
        ctx.raises(lambda: getattr(M.Geometry, MAKE[kind])(n1, n2, 0.0, 0.0, bc1_open=o1, bc2_open=o2), "one periodic cell rejected")
        return
    ph1, ph2 = [(0.0, 0.0), (0.7, -1.3)][ctx.choice("phases", 2)]
    g = getattr(M.Geometry, MAKE[kind])(n1, n2, ph1, ph2, bc1_open=o1, bc2_open=o2)
    n, p1, p2, latt, basis = expected(ctx, kind, n1, n2)
    ctx.eq(g.nsites, n, "number of sites")
    ctx.eq(len(g.xlocs), n, "number of coordinates")
    w = ctx.real("w", 0.5, 2)
    f = [frac(p1, p2, x, y) for x, y in zip(g.xlocs, g.ylocs)]
    seen = []
    for x, y in zip(g.xlocs, g.ylocs):
        hit = False
        for b in basis:
            a, c = frac(latt[0], latt[1], x - b[0], y - b[1])
            hit = hit or (abs(a - round(a)) < 1e-8 and abs(c - round(c)) < 1e-8)
        ctx.true(hit, "every site is a lattice site")
    for i in range(n):
        ctx.true(w * f[i][0] >= -1e-9, "in cell")
        ctx.true(w * f[i][1] >= -1e-9, "in cell")
        ctx.true(w * f[i][0] <= w * (1 - 1e-7), "in cell")
        ctx.true(w * f[i][1] <= w * (1 - 1e-7), "in cell")
        for j in range(i):
            d = (g.xlocs[i] - g.xlocs[j]) ** 2 + (g.ylocs[i] - g.ylocs[j]) ** 2
            ctx.true(w * d >= w * (1 - 1e-8), "sites at least one bond length apart")
    L = g.lattice
    ctx.eq(L.phase1, ph1, "phase kept")
    ctx.eq(L.phase2, ph2, "phase kept")
    ctx.eq(L.periodicity_vect1[:, 0], [0, 0] if o1 else p1, "periodicity 1 only if not open")
    ctx.eq(L.periodicity_vect2[:, 0], [0, 0] if o2 else p2, "periodicity 2 only if not open")


def general(ctx, latt, nb):
    """any periodicity of any lattice with a basis: |det| times the basis sites, all distinct, all lattice sites"""
    M = ctx.mod("ed_geometry")
    l1, l2 = LATTS[latt]
    n, m, i, j = [ctx.choice(k, 5) - 2 for k in "nmij"]
    det = n * j - m * i
    if det == 0:
        return
    p1 = [n * l1[0] + m * l2[0], n * l1[1] + m * l2[1]]
    p2 = [i * l1[0] + j * l2[0], i * l1[1] + j * l2[1]]
    basis = [(0.0, 0.0)]
    if nb == 2:
        basis = [(0.0, 0.0), (0.31 * l1[0] + 0.17 * l2[0], 0.31 * l1[1] + 0.17 * l2[1])]
    if nb == 3:
        basis = [(0.7 * l1[0], 0.7 * l1[1]), (5.5 * l1[0] - 3.25 * l2[0], 5.5 * l1[1] - 3.25 * l2[1]), (0.0, 0.0)]
    check_sites(ctx, M, l1, l2, p1, p2, basis, abs(det) * nb)


def check_sites(ctx, M, l1, l2, p1, p2, basis, count):
    L = M.Lattice(l1, l2, [list(b) for b in basis], p1, p2)
    ns, xs, ys = L.get_unique_sites()
    ctx.eq(ns, count, "number of sites")
    ctx.eq(len(xs), count, "number of x coordinates")
    ctx.eq(len(ys), count, "number of y coordinates")
    w = ctx.real("w", 0.5, 2)
    for k in range(len(xs)):
        hits = []
        for b in basis:
            a, c = frac(l1, l2, xs[k] - b[0], ys[k] - b[1])
            hits.append(ctx.np.logical_and(ctx.np.abs(inc(ctx, a)) <= 1e-7, ctx.np.abs(inc(ctx, c)) <= 1e-7))
        h = hits[0]
        for z in hits[1:]:
            h = ctx.np.logical_or(h, z)
        ctx.true(h, "every site is a lattice site")
    in_cell(ctx, p1, p2, w * xs / w, w * ys / w)
    distinct(ctx, p1, p2, xs, ys, 1e-3, "sites are distinct modulo the periodicity")


def symbolic_basis(ctx, latt, P, off):
    """basis vector anywhere in a range, one or two of them"""
    M = ctx.mod("ed_geometry")
    l1, l2 = LATTS[latt]
    n, m, i, j = P
    p1 = [n * l1[0] + m * l2[0], n * l1[1] + m * l2[1]]
    p2 = [i * l1[0] + j * l2[0], i * l1[1] + j * l2[1]]
    u, v = ctx.real("u", off + 0.05, off + 0.95), ctx.real("v", 0.05, 0.95)
    bx, by = u * l1[0] + v * l2[0], u * l1[1] + v * l2[1]
    # every translate of the basis site keeps away from the cell boundary, where doubles may fall on either side
    R = range(-3, 4)
    seen = set()
    for a in R:
        for b in R:
            for f in frac(p1, p2, bx + a * l1[0] + b * l2[0], by + a * l1[1] + b * l2[1]):
                k = str(f)
                if k not in seen:
                    seen.add(k)
                    ctx.assume(ctx.np.abs(f - ctx.np.round(f)) >= 1e-3)
    check_sites(ctx, M, l1, l2, p1, p2, [(0.0, 0.0), (bx, by)], 2 * abs(n * j - m * i))


def scaled(ctx, P):
    """any lattice constants"""
    M = ctx.mod("ed_geometry")
    n, m, i, j = P
    a, b = ctx.real("a", 0.5, 3, pos=True), ctx.real("b", 0.5, 3, pos=True)
    l1, l2 = [a, 0.0], [0.0, b]
    p1, p2 = [n * a, m * b], [i * a, j * b]
    L = M.Lattice(l1, l2, [[0.0, 0.0]], p1, p2)
    ns, xs, ys = L.get_unique_sites()
    det = abs(n * j - m * i)
    ctx.eq(ns, det, "number of sites")
    for k in range(len(xs)):
        ctx.eq(xs[k] / a, ctx.np.round(xs[k] / a), "x on the lattice")
        ctx.eq(ys[k] / b, ctx.np.round(ys[k] / b), "y on the lattice")
        for q in range(k):
            ctx.true(ctx.np.abs(xs[k] - xs[q]) / a + ctx.np.abs(ys[k] - ys[q]) / b >= 0.5, "distinct")


def no_periodicity(ctx, which):
    """absent periodicity: one lattice site per basis vector along that direction"""
    M = ctx.mod("ed_geometry")
    n = ctx.choice("n", 5) + 1
    z = [0.0, 0.0]
    l1, l2 = LATTS["tri"]
    w = ctx.real("w", 0.5, 2)
    p = [n * v for v in (l1 if which == 1 else l2)]
    L = M.Lattice(l1, l2, [[0.0, 0.0]], p if which == 1 else z, p if which == 2 else z)
    ns, xs, ys = L.get_unique_sites()
    ctx.eq(ns, n, "n sites along the present periodicity")
    for k, (x, y) in enumerate(sorted(zip(xs, ys), key=lambda t: t[0])):
        ctx.eq(w * x, w * k * p[0] / n, "x")
        ctx.eq(w * y, w * k * p[1] / n, "y")
    ns, xs, ys = M.Lattice(l1, l2, [[0.0, 0.0]], z, z).get_unique_sites()
    ctx.eq(ns, 1, "single site")


def polygon(ctx, n):
    M = ctx.mod("ed_geometry")
    g = M.Geometry.createRegularPolygonGeometry(n)
    w = ctx.real("w", 0.5, 2)
    ctx.eq(g.nsites, n, "number of sites")
    A = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i != j and (i - j) % n in (1, n - 1):
                A[i, j] = 1
                ctx.eq(w * ((g.xlocs[i] - g.xlocs[j]) ** 2 + (g.ylocs[i] - g.ylocs[j]) ** 2), w, "unit sides")
        ctx.eq(w * (g.xlocs[i] ** 2 + g.ylocs[i] ** 2), w * 0.25 / np.sin(np.pi / n) ** 2, "on the circle")
    ctx.eq(w * g.adjacency_mat, w * A, "neighbours along the sides")
    ctx.eq(w * ctx.np.sum(g.xlocs), 0.0, "centred")
    ctx.eq(g.phase_mat, np.ones((n, n)), "no phases")
    cx, cy = g.get_center_of_mass()
    ctx.eq(w * cx, 0.0, "centre of mass")
    ctx.eq(w * cy, 0.0, "centre of mass")
    ph = ctx.real("ph")
    P = ctx.np.ones((n, n), dtype=complex)
    for i in range(n):
        for j in range(n):
            P[i, j] = ctx.np.exp(1j * ph * (i - j))
    g2 = M.Geometry.createRegularPolygonGeometry(n, None, P)
    ctx.eq(g2.phase_mat, P, "given phases kept")
    B = np.zeros((n, n))
    B[0, n - 1] = B[n - 1, 0] = 1
    g3 = M.Geometry.createRegularPolygonGeometry(n, B)
    ctx.eq(w * g3.adjacency_mat, w * B, "given adjacency kept")


def center(ctx, n):
    M = ctx.mod("ed_geometry")
    xs, ys = ctx.reals("x", n), ctx.reals("y", n)
    g = M.Geometry.createNonPeriodicGeometry(xs, ys, np.zeros((n, n)))
    cx, cy = g.get_center_of_mass()
    ctx.eq(n * cx, ctx.np.sum(xs), "centre of mass x")
    ctx.eq(n * cy, ctx.np.sum(ys), "centre of mass y")


def tasks(tier):
    th = tier == "thorough"
    T = []
    N = 4 if not th else 6
    for k in ("square", "tri"):
        for a in range(1, N + 1):
            for b in range(1, N + 1):
                T.append((builtin, dict(kind=k, n1=a, n2=b), 200))
    for a in range(1, 4):
        for b in range(1, 4):
            if a * b <= (6 if not th else 9):
                T.append((builtin, dict(kind="hex", n1=a, n2=b), 300))
    for a, b in [(1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (3, 2), (0, 2)] + ([(3, 3), (4, 1), (2, 4), (1, 5)] if th else []):
        T.append((builtin, dict(kind="tilted", n1=a, n2=b), 200))
    for l in LATTS:
        for nb in (1, 2, 3):
            T.append((general, dict(latt=l, nb=nb), 200 if not th else 800))
    for l in ("square", "tri") if not th else LATTS:
        for P in [(1, 0, 0, 1), (2, 0, 0, 1), (1, 1, -1, 1)] + ([(2, 0, 0, 2), (2, 1, -1, 1)] if th else []):
            for off in (0, -2):
                T.append((symbolic_basis, dict(latt=l, P=P, off=off), 200 if not th else 800))
    for P in [(2, 0, 0, 2), (2, 1, -1, 2), (1, 1, -1, 1), (0, 2, 3, 0), (2, 1, 0, 2)]:
        T.append((scaled, dict(P=P), 200))
    T += [(no_periodicity, dict(which=1)), (no_periodicity, dict(which=2))]
    T += [(polygon, dict(n=n)) for n in range(2, 9 if not th else 13)]
    T += [(center, dict(n=n)) for n in (1, 3, 5)]
    return T
