"""C06 site permutations and cycles induced by a coordinate transformation"""
import itertools
import numpy as np
from .common import *
from .c05 import perm_cycles, order_of

BOUNDS = ("clusters of 1..4 sites (thorough 5) at every position (sites at least 0.01 apart) under every permutation of order at "
          "most the number of sites; rings of 2..6 sites and tori up to 3x3 under every lattice translation by up to three cells and "
          "every site offset; rotations, reflections, inversions of small squares, triangles, hexagons about the centre; closed square, tilted, triangular "
          "and hexagonal clusters under translations by up to two cells and rotations, reflections, inversions about every site, plus up to two periods; "
          "every non-injective map of 2..3 sites; every displaced image of one site; every fractional translation")
ASSUMPTIONS = ["a transformation needing more than nsites applications to close is rejected by the code and excluded here"]


def same_cycles(ctx, cycles, pi, label):
    ok = sorted(i for c in cycles for i in c) == list(range(len(pi)))
    for c in cycles:
        ok = ok and all(c[(k + 1) % len(c)] == pi[c[k]] for k in range(len(c)))
    ctx.true(ok, label)


def open_cluster(ctx, n):
    """sites anywhere, transformation moves them onto one another"""
    S = ctx.mod("ed_symmetry")
    G = ctx.mod("ed_geometry").Geometry
    x, y = ctx.reals("x", n, -3, 3), ctx.reals("y", n, -3, 3)
    pi, _ = perm_cycles(ctx, n, flip=False)
    if order_of(pi) > n:
        return
    for i in range(n):
        for j in range(i):
            ctx.assume((x[i] - x[j]) ** 2 + (y[i] - y[j]) ** 2 >= 1e-4)
            ctx.assume(ctx.np.abs(x[i] - x[j]) >= 1e-3)     # total order in x is enough to separate
    g = G.createNonPeriodicGeometry(x, y, adjacency_mat=np.zeros((n, n)))
    fn = lambda a, b: ctx.np.array([[a[pi[i]] for i in range(n)], [b[pi[i]] for i in range(n)]])
    a, b = S.getTransformedSites(fn, list(range(n)), g)
    ctx.eq(a, np.arange(n), "initial sites")
    ctx.eq(b, np.array(pi, dtype=float), "transformed sites")
    cycles, order = S.findSiteCycles(fn, g)
    same_cycles(ctx, cycles, pi, "every site once, each followed by its image")
    ctx.true(int(order) == order_of(pi), "number of applications that restores all sites")


def unmatched(ctx, n):
    """a transformation that is not a symmetry of the cluster is rejected"""
    S = ctx.mod("ed_symmetry")
    G = ctx.mod("ed_geometry").Geometry
    d = ctx.real("d", 0.001, 0.9)
    g = G.createNonPeriodicGeometry(np.arange(n) * 1.0, np.zeros(n))
    ctx.raises(lambda: S.findSiteCycles(lambda a, b: ctx.np.array([a + d, b]), g), "not a symmetry (x)")
    ctx.raises(lambda: S.findSiteCycles(lambda a, b: ctx.np.array([a, b - d]), g), "not a symmetry (y)")


def torus_translation(ctx, nx, ny):
    """translations of a periodic lattice, wherever it is placed"""
    S = ctx.mod("ed_symmetry")
    G = ctx.mod("ed_geometry").Geometry
    g = G.createSquareGeometry(nx, ny, 0.0, 0.0, bc1_open=nx < 2, bc2_open=ny < 2)
    ax = ctx.choice("a", 2 * nx + 1) - nx if nx > 1 else 0
    ay = ctx.choice("b", 2 * ny + 1) - ny if ny > 1 else 0
    fn = S.getTranslFn([ax, ay])
    _, b = S.getTransformedSites(fn, list(range(nx * ny)), g)
    xs, ys = g.xlocs, g.ylocs
    pi = []
    for i in range(nx * ny):
        X, Y = (xs[i] + ax) % nx, (ys[i] + ay) % ny
        pi.append([j for j in range(nx * ny) if abs(xs[j] - X) < .1 and abs(ys[j] - Y) < .1][0])
    w = ctx.reals("w", nx * ny)
    ctx.eq(w[np.array(b, dtype=int)], w[pi], "image of every site")
    cycles, order = S.findSiteCycles(fn, g)
    same_cycles(ctx, cycles, pi, "cycles")
    ctx.true(int(order) == order_of(pi), "order")


def shifted_ring(ctx, n):
    """the same ring placed at an arbitrary offset, translated by a lattice vector plus an arbitrary number of periods"""
    S = ctx.mod("ed_symmetry")
    M = ctx.mod("ed_geometry")
    off = ctx.real("off", 0.3, 0.4)
    k = ctx.choice("k", n)
    m = ctx.int("m", -3, 3)
    latt = M.Lattice([1, 0], [0, 1], [[0, 0]], [n, 0], [0, 0])
    g = M.Geometry(np.arange(n) + off, np.zeros(n), lattice=latt)
    cyc, order = S.findSiteCycles(S.getTranslFn([k + n * m, 0.0]), g)
    pi = [(i + k) % n for i in range(n)]
    same_cycles(ctx, cyc, pi, "cycles")
    ctx.true(int(order) == order_of(pi), "order")


def point_group(ctx, geom, kind):
    S = ctx.mod("ed_symmetry")
    G = ctx.mod("ed_geometry").Geometry
    if geom[0] == "sq":
        g = G.createSquareGeometry(geom[1], geom[2])
    else:
        g = G.createRegularPolygonGeometry(geom[1])
    # the whole cluster moved to an arbitrary place, centre moved along
    dx, dy = ctx.real("dx", -3, 3), ctx.real("dy", -3, 3)
    cx0, cy0 = float(np.mean(np.array(g.xlocs, dtype=float))), float(np.mean(np.array(g.ylocs, dtype=float)))
    x0, y0 = np.array(g.xlocs, dtype=float) - cx0, np.array(g.ylocs, dtype=float) - cy0
    h = G.createNonPeriodicGeometry(x0 + dx, y0 + dy, adjacency_mat=ctx.dense(g.adjacency_mat))
    cx, cy = h.get_center_of_mass()
    ctx.eq(cx, dx, "centre x")
    ctx.eq(cy, dy, "centre y")
    if kind[0] == "rot":
        fn, R = S.getRotFn(kind[1], cx, cy), rot(2 * np.pi / kind[1])
    elif kind[0] == "ref":
        th = np.pi * kind[1] / kind[2]
        fn = S.getReflFn([np.cos(th), np.sin(th)], cx, cy)
        R = np.array([[np.cos(2 * th), np.sin(2 * th)], [np.sin(2 * th), -np.cos(2 * th)]])
    else:
        fn, R = S.getInversionFn(cx, cy), -np.eye(2)
    n = h.nsites
    q = R @ np.array([x0, y0])
    pi = [int(np.argmin((q[0, i] - x0) ** 2 + (q[1, i] - y0) ** 2)) for i in range(n)]
    assert all(np.hypot(q[0, i] - x0[pi[i]], q[1, i] - y0[pi[i]]) < 1e-9 for i in range(n))
    cyc, order = S.findSiteCycles(fn, h)
    same_cycles(ctx, cyc, pi, "cycles")
    ctx.true(int(order) == order_of(pi), "order")


def rot(a):
    return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])


def displaced(ctx, n):
    """every site but one goes to another site: rejected wherever the remaining one goes"""
    S = ctx.mod("ed_symmetry")
    G = ctx.mod("ed_geometry").Geometry
    xs, ys = np.arange(n) * 1.0, np.array([0.0, 1.0, 0.5, 2.0, 1.5][:n])
    pi, _ = perm_cycles(ctx, n, flip=False)
    k = ctx.choice("k", n)
    a, b = ctx.real("ax", -3, 6), ctx.real("ay", -3, 6)
    for j in range(n):
        ctx.assume((ctx.np.abs(a - xs[j]) >= 1e-6) | (ctx.np.abs(b - ys[j]) >= 1e-6))
    g = G.createNonPeriodicGeometry(xs, ys, adjacency_mat=np.zeros((n, n)))

    def fn(x, y):
        X, Y = ctx.np.zeros(n), ctx.np.zeros(n)
        for i in range(n):
            X[i], Y[i] = (a, b) if i == k else (x[pi[i]], y[pi[i]])
        return ctx.np.array([X, Y])
    ctx.raises(lambda: S.getTransformedSites(fn, list(range(n)), g), "one site without image (map)")
    ctx.raises(lambda: S.findSiteCycles(fn, g), "one site without image (cycles)")


def collapsing(ctx, n):
    """two sites with the same image: not a permutation, rejected"""
    S = ctx.mod("ed_symmetry")
    G = ctx.mod("ed_geometry").Geometry
    x, y = ctx.reals("x", n, -3, 3), ctx.reals("y", n, -3, 3)
    for i in range(n - 1):
        ctx.assume(x[i + 1] - x[i] >= 1e-3)
    img = [ctx.choice("i%d" % i, n) for i in range(n)]
    if len(set(img)) == n:
        return
    g = G.createNonPeriodicGeometry(x, y, adjacency_mat=np.zeros((n, n)))
    fn = lambda a, b: ctx.np.array([[a[img[i]] for i in range(n)], [b[img[i]] for i in range(n)]])
    ctx.raises(lambda: S.findSiteCycles(fn, g), "two sites with one image")


def torus_unmatched(ctx, nx, ny):
    """translations of a periodic lattice by a fraction of a cell are rejected"""
    S = ctx.mod("ed_symmetry")
    G = ctx.mod("ed_geometry").Geometry
    g = G.createSquareGeometry(nx, ny, 0.0, 0.0, bc1_open=nx < 2, bc2_open=ny < 2)
    d, m = ctx.real("d", 0.001, 0.999), ctx.int("m", -2, 2)
    ctx.raises(lambda: S.findSiteCycles(S.getTranslFn([d + m, 0.0]), g), "fraction of a cell (x)")
    ctx.raises(lambda: S.findSiteCycles(S.getTranslFn([1.0, d]), g), "fraction of a cell (y)")


def periodic(ctx, kind, size, op):
    """lattice translations, rotations, reflections and inversions of closed clusters of several lattices, by any number of periods"""
    S = ctx.mod("ed_symmetry")
    G = ctx.mod("ed_geometry").Geometry
    make = {"sq": G.createSquareGeometry, "tilted": G.createTiltedSquareGeometry, "tri": G.createTriangleGeometry, "hex": G.createHexagonalGeometry}[kind]
    g = make(size[0], size[1], 0.0, 0.0, bc1_open=False, bc2_open=False)
    L = g.lattice
    p1, p2 = np.array(L.periodicity_vect1, dtype=float).reshape(-1), np.array(L.periodicity_vect2, dtype=float).reshape(-1)
    v1, v2 = np.array(L.lattice_vect1, dtype=float).reshape(-1), np.array(L.lattice_vect2, dtype=float).reshape(-1)
    m1, m2 = ctx.int("m1", -2, 2), ctx.int("m2", -2, 2)
    X, Y = np.array(g.xlocs, dtype=float), np.array(g.ylocs, dtype=float)
    if op == "t":
        a, b = ctx.choice("a", 3), ctx.choice("b", 3)
        t = a * v1 + b * v2
        lin, base = np.eye(2), S.getTranslFn([t[0] + m1 * p1[0] + m2 * p2[0], t[1] + m1 * p1[1] + m2 * p2[1]])
        fn = base
    else:
        q = ctx.choice("c", len(X))         # about every site
        c = (X[q], Y[q])
        t = np.zeros(2)
        if op[0] == "r":
            k = int(op[1:])
            base, lin = S.getRotFn(k, *c), rot(2 * np.pi / k)
        elif op[0] == "m":
            th = np.pi * int(op[1]) / int(op[2])
            base, lin = S.getReflFn([np.cos(th), np.sin(th)], *c), np.array([[np.cos(2 * th), np.sin(2 * th)], [np.sin(2 * th), -np.cos(2 * th)]])
        else:
            base, lin = S.getInversionFn(*c), -np.eye(2)
        t = np.array(c) - lin @ np.array(c)
        shift = [m1 * p1[0] + m2 * p2[0], m1 * p1[1] + m2 * p2[1]]

        def fn(x, y):
            z = base(x, y)
            return ctx.np.array([z[0, :] + shift[0], z[1, :] + shift[1]])
    n = len(X)
    P = np.array([p1, p2]).T
    img = lin @ np.array([X, Y]) + t[:, None]
    pi = []
    for i in range(n):
        w = [np.linalg.solve(P, img[:, i] - np.array([X[j], Y[j]])) for j in range(n)]
        hit = [j for j in range(n) if np.max(np.abs(w[j] - np.round(w[j]))) < 1e-9]
        if len(hit) != 1:
            ctx.raises(lambda: S.findSiteCycles(fn, g), "not a symmetry of this cluster")
            return
        pi.append(hit[0])
    if sorted(pi) != list(range(n)):
        ctx.raises(lambda: S.findSiteCycles(fn, g), "two sites with one image")
        return
    if order_of(pi) > n:
        ctx.raises(lambda: S.findSiteCycles(fn, g), "needs too many applications")
        return
    cyc, order = S.findSiteCycles(fn, g)
    same_cycles(ctx, cyc, pi, "cycles")
    ctx.true(int(order) == order_of(pi), "order")
    _, im = S.getTransformedSites(fn, list(range(n)), g)
    z = ctx.reals("z", n)
    ctx.eq(z[np.array(im, dtype=int)], z[pi], "image of every site")


def tasks(tier):
    th = tier == "thorough"
    T = [(open_cluster, dict(n=n), 300) for n in [1, 2, 3, 4]]
    T += [(unmatched, dict(n=n)) for n in (2, 3)]
    T += [(displaced, dict(n=n), 300) for n in (2, 3) + ((4,) if th else ())]
    T += [(collapsing, dict(n=n), 300) for n in (2, 3)]
    T += [(torus_unmatched, dict(nx=a, ny=b)) for a, b in [(2, 1), (3, 1), (4, 1), (2, 2), (3, 3), (4, 2)]]
    for k, sz, ops in [("sq", (3, 3), ("r4", "m01", "m14", "i")), ("sq", (4, 4) if th else (2, 2), ("r4", "r2", "m12", "i")), ("sq", (4, 2), ("r2", "m01", "i")),
                       ("sq", (3, 2), ("r2", "r4", "m12")), ("tilted", (1, 1), ("t", "r4", "i")), ("tilted", (1, 2), ("t", "r4", "i", "m01")),
                       ("tilted", (2, 1), ("t", "r4")), ("tri", (3, 3), ("t", "r6") + (("r3", "m01", "i") if th else ())), ("tri", (2, 2), ("t", "r6", "m16", "i")),
                       ("tri", (3, 2), ("t", "i")), ("hex", (2, 2), ("t", "r3", "i") if th else ("i",))] + ([("tilted", (2, 2), ("t", "r4", "i")), ("tilted", (1, 3), ("t", "r4")), ("hex", (3, 2), ("t",))] if th else []):
        for op in ops:
            T.append((periodic, dict(kind=k, size=sz, op=op), 300))
    T += [(torus_translation, dict(nx=a, ny=b), 200) for a, b in [(2, 1), (3, 1), (4, 1), (5, 1), (1, 3), (2, 2), (3, 2), (3, 3), (6, 1), (4, 2)] +
          ([(4, 3), (4, 4), (7, 1)] if th else [])]
    T += [(shifted_ring, dict(n=n), 200) for n in (2, 3, 4, 5) + ((6, 7) if th else ())]
    for k in [("rot", 4), ("rot", 2), ("ref", 0, 1), ("ref", 1, 4), ("ref", 1, 2), ("inv",)]:
        for s in (2, 3) + ((4,) if th else ()):
            T.append((point_group, dict(geom=("sq", s, s), kind=k)))
    for k in [("rot", 2), ("ref", 0, 1), ("ref", 1, 2), ("inv",)]:
        T.append((point_group, dict(geom=("sq", 3, 2), kind=k)))
    for n in (3, 4, 5, 6, 7) + ((8, 9) if th else ()):
        T.append((point_group, dict(geom=("poly", n), kind=("rot", n))))
        T.append((point_group, dict(geom=("poly", n), kind=("ref", 1, 2))))
    return T
