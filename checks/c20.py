"""C20 numerical linked cluster expansion: clusters, multiplicities and subclusters"""
import itertools
import numpy as np
from .common import *

BOUNDS = ("square-lattice clusters up to 4 sites (thorough 5) grown from a cluster at every quarter-integer position; parents: every connected cluster that "
          "fits into 2x3 and 3x2 cells up to 4 sites (thorough 3x3 up to 5) at every quarter-integer position, in every one of several site orders; every additive "
          "property (per site, per bond, per corner, per straight triple)")
ASSUMPTIONS = ["bond length one along x and y (the expansion supports the square lattice)"]


def norm(c):
    mx, my = min(x for x, _ in c), min(y for _, y in c)
    return frozenset((x - mx, y - my) for x, y in c)


def d4(c):
    out = set()
    for s in (1, -1):
        for a in range(4):
            p = [(s * x, y) for x, y in c]
            for _ in range(a):
                p = [(-y, x) for x, y in p]
            out.add(norm(p))
    return out


def canon(c):
    return min(tuple(sorted(x)) for x in d4(c))


def connected(c):
    c = set(c)
    seen, todo = set(), [next(iter(c))]
    while todo:
        x, y = todo.pop()
        if (x, y) in seen:
            continue
        seen.add((x, y))
        todo += [q for q in ((x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)) if q in c]
    return seen == c


def fixed(n):
    cur = {frozenset([(0, 0)])}
    for _ in range(n - 1):
        nxt = set()
        for c in cur:
            for x, y in c:
                for q in ((x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)):
                    if q not in c:
                        nxt.add(norm(c | {q}))
        cur = nxt
    return cur


def free(n):
    return {canon(c) for c in fixed(n)}


def cells(ctx, g, x0=0.0, y0=0.0):
    """integer cells of a geometry at offset (x0, y0); None unless all are integers"""
    out = []
    for x, y in zip(g.xlocs, g.ylocs):
        r = []
        for v in (x - x0, y - y0):
            for k in range(-9, 10):
                if bool(ctx.np.abs(v - k) < 1e-6):
                    r.append(k)
                    break
            else:
                return None
        out.append(tuple(r))
    return out


def mat(m):
    return np.array(m.toarray() if hasattr(m, "toarray") else m)


def lattice_clusters(ctx, order, sym):
    """clusters of the infinite lattice: each (free or fixed) polyomino once, with its number of orientations"""
    N = ctx.mod("ed_nlce")
    w = ctx.real("w", 0.5, 2)
    cl, mult, inds = N.get_all_clusters(order, use_symmetry=sym)
    ctx.eq(len(inds), order + 1, "one boundary per order")
    ctx.eq(inds[0], 0, "orders start at the first cluster")
    ctx.eq(inds[-1], len(cl), "orders end at the last cluster")
    ctx.eq(len(mult), len(cl), "one multiplicity per cluster")
    for n in range(1, order + 1):
        part = cl[inds[n - 1]:inds[n]]
        cs = [cells(ctx, g) for g in part]
        ctx.true(all(c is not None and len(c) == n and len(set(c)) == n and connected(c) for c in cs), "connected clusters of the order")
        if any(c is None for c in cs):
            return
        if sym:
            ctx.true({canon(c) for c in cs} == free(n) and len(cs) == len(free(n)), "each distinct cluster exactly once")
        else:
            ctx.true({norm(c) for c in cs} == fixed(n) and len(cs) == len(fixed(n)), "each distinct cluster exactly once")
        for k, c in enumerate(cs):
            ctx.eq(w * mult[inds[n - 1] + k], w * (len(d4(c)) if sym else 1), "multiplicity is the number of orientations")


def grow(ctx, start, sym):
    """clusters grown from one cluster at any position"""
    N = ctx.mod("ed_nlce")
    G = ctx.mod("ed_geometry").Geometry
    x0, y0 = ctx.int("x0", -200, 200) / 4, ctx.int("y0", -200, 200) / 4
    g = G.createNonPeriodicGeometry(ctx.np.array([x0 + x for x, y in start]), ctx.np.array([y0 + y for x, y in start]))
    cl, mult = N.get_clusters_next_order([g], use_symmetry=sym)
    want = {}
    for x, y in start:
        for q in ((x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)):
            if q not in start:
                c = list(start) + [q]
                want.setdefault(canon(c) if sym else tuple(sorted(norm(c))), c)
    got = []
    for c in cl:
        k = cells(ctx, c, x0, y0)
        ctx.true(k is not None, "sites stay on the lattice of the cluster")
        if k is None:
            return
        got.append(canon(k) if sym else tuple(sorted(norm(k))))
    ctx.true(len(got) == len(set(got)) and set(got) == set(want), "each cluster with one more site exactly once")
    w = ctx.real("w", 0.5, 2)
    for k, m in zip(got, mult):
        ctx.eq(w * m, w * (len(d4(k)) if sym else 1), "multiplicity")


def parent(ctx, cellsize, nmax, nmin=1):
    """a connected cluster within the given cells (symbolic occupation), in a symbolic site order"""
    pts = [(x, y) for x in range(cellsize[0]) for y in range(cellsize[1])]
    c = []
    for k, p in enumerate(pts):
        if len(c) < nmax and ctx.choice("occ%d" % k, 2):
            c.append(p)
    if len(c) < nmin or not connected(c):
        return None
    o = ctx.choice("order", 3)
    c = c if o == 0 else c[::-1] if o == 1 else c[1:] + c[:1]
    return c


def subsets(c):
    """all connected subsets by size"""
    out = []
    for n in range(1, len(c) + 1):
        out.append([frozenset(s) for s in itertools.combinations(sorted(c), n) if connected(s)])
    return out


def subclusters(ctx, cellsize, nmax):
    N = ctx.mod("ed_nlce")
    G = ctx.mod("ed_geometry").Geometry
    c = parent(ctx, cellsize, nmax)
    if c is None:
        return
    x0, y0 = ctx.int("x0", -200, 200) / 4, ctx.int("y0", -200, 200) / 4
    w = ctx.real("w", 0.5, 2)
    g = G.createNonPeriodicGeometry(ctx.np.array([x0 + x for x, y in c]), ctx.np.array([y0 + y for x, y in c]))
    lists, ind, M = N.get_all_subclusters(g)
    ref = subsets(c)
    ctx.eq(len(lists), len(c), "one list per cluster size")
    flat = []
    for n, l in enumerate(lists):
        got = []
        for h in l:
            k = cells(ctx, h, x0, y0)
            if k is None:
                ctx.true(False, "subclusters consist of sites of the parent")
                return
            got.append(frozenset(k))
        ctx.true(len(got) == len(set(got)) and set(got) == set(ref[n]), "every connected subset exactly once")
        flat += got
    M = mat(M)
    ctx.eq(M.shape, (len(flat), len(flat)), "matrix over all subclusters")
    ctx.eq(len(ind), len(flat), "one index list per subcluster")
    for i in range(len(flat)):
        sub = [j for j in range(len(flat)) if flat[j] < flat[i]]
        ctx.true(sorted(set(ind[i])) == sub and len(ind[i]) == len(sub), "proper subclusters of each subcluster")
        for j in range(len(flat)):
            ctx.eq(w * M[i, j], w * (1 if j in sub else 0), "containment matrix")


def reduced(ctx, cellsize, nmax):
    """number of embeddings of each distinct subcluster in each other"""
    N = ctx.mod("ed_nlce")
    G = ctx.mod("ed_geometry").Geometry
    c = parent(ctx, cellsize, nmax)
    if c is None:
        return
    x0, y0 = ctx.int("x0", -200, 200) / 4, ctx.int("y0", -200, 200) / 4
    w = ctx.real("w", 0.5, 2)
    g = G.createNonPeriodicGeometry(ctx.np.array([x0 + x for x, y in c]), ctx.np.array([y0 + y for x, y in c]))
    cl, M, inds = N.get_reduced_subclusters(g)
    M = mat(M)
    ref = subsets(c)
    ctx.eq(inds[0], 0, "first order")
    ctx.eq(inds[-1], len(cl), "last order")
    ctx.eq(len(inds), len(c) + 1, "orders")
    cs = []
    for h in cl:
        k = cells(ctx, h, x0, y0)
        if k is None:
            ctx.true(False, "subclusters consist of sites of the parent")
            return
        cs.append(k)
    for n in range(len(c)):
        got = [canon(k) for k in cs[inds[n]:inds[n + 1]]]
        ctx.true(len(got) == len(set(got)) and set(got) == {canon(s) for s in ref[n]}, "each distinct subcluster exactly once")
    for i, ci in enumerate(cs):
        sub = [s for l in subsets(ci) for s in l if len(s) < len(ci)]
        for j, cj in enumerate(cs):
            ctx.eq(w * M[i, j], w * sum(1 for s in sub if canon(s) == canon(cj)), "number of embeddings")


def symmetry(ctx, shape):
    """all distinct images under the point group of the square"""
    N = ctx.mod("ed_nlce")
    G = ctx.mod("ed_geometry").Geometry
    x0, y0 = ctx.int("x0", -200, 200) / 4, ctx.int("y0", -200, 200) / 4
    g = G.createNonPeriodicGeometry(ctx.np.array([x0 + x for x, y in shape]), ctx.np.array([y0 + y for x, y in shape]))
    g.permute_sites(g.get_sorting_permutation())
    out = N.get_clusters_rel_by_symmetry(g)
    got = []
    for h in out:
        k = cells(ctx, h, h.xlocs[0], h.ylocs[0])
        ctx.true(k is not None, "images are lattice clusters")
        if k is None:
            return
        got.append(norm(k))
    ctx.true(len(got) == len(set(got)) and set(got) == d4(shape), "each distinct image exactly once")
    w = ctx.real("w", 0.5, 2)
    ctx.eq(w * len(out), w * len(d4(shape)), "number of images")


def lattice_subclusters(ctx, order):
    """clusters of the infinite lattice together with their embeddings in each other"""
    N = ctx.mod("ed_nlce")
    w = ctx.real("w", 0.5, 2)
    cl, mult, M, inds = N.get_all_clusters_with_subclusters(order)
    M = mat(M)
    cs = [cells(ctx, g) for g in cl]
    ctx.true(all(k is not None for k in cs), "lattice clusters")
    for n in range(1, order + 1):
        ctx.eq(inds[n] - inds[n - 1], len(free(n)), "each distinct cluster exactly once")
    for i, ci in enumerate(cs):
        ctx.eq(w * mult[i], w * len(d4(ci)), "multiplicity")
        sub = [s for l in subsets(ci) for s in l if len(s) < len(ci)]
        for j, cj in enumerate(cs):
            ctx.eq(w * M[i, j], w * sum(1 for s in sub if canon(s) == canon(cj)), "number of embeddings")


def prop_of(ctx, a, c):
    """a property that is additive over sites, bonds, corners and straight triples"""
    c = set(c)
    bonds = sum(1 for x, y in c for q in ((x + 1, y), (x, y + 1)) if q in c)
    corners = sum(1 for x, y in c for p in ((x + 1, y), (x - 1, y)) for q in ((x, y + 1), (x, y - 1)) if p in c and q in c)
    lines = sum(1 for x, y in c if {(x + 1, y), (x - 1, y)} <= c) + sum(1 for x, y in c if {(x, y + 1), (x, y - 1)} <= c)
    return a[0] * len(c) + a[1] * bonds + a[2] * corners + a[3] * lines


def expansion(ctx, order):
    """the expansion of an additive property is exact from the order of its largest term on"""
    N = ctx.mod("ed_nlce")
    a = ctx.reals("a", 4)
    cl, mult, M, inds = N.get_all_clusters_with_subclusters(order)
    cs = [cells(ctx, g) for g in cl]
    P = ctx.np.array([prop_of(ctx, a, c) for c in cs])
    v, orders, wts = N.get_nlce_exp_val(P, M, mult, inds, 1)
    per_site = [a[0], 2 * a[1], 4 * a[2] + 2 * a[3]]
    ctx.eq(v, sum(per_site[:order]), "value per site of the infinite lattice")
    for n in range(order):
        ctx.eq(orders[n], per_site[n] if n < 3 else 0.0 * a[0], "contribution of each order")


def expansion_finite(ctx, cellsize, nmax):
    """expanding a finite cluster in its own subclusters reproduces its property, whatever it is"""
    N = ctx.mod("ed_nlce")
    G = ctx.mod("ed_geometry").Geometry
    c = parent(ctx, cellsize, nmax, 2)
    if c is None:
        return
    x0, y0 = ctx.int("x0", -200, 200) / 4, ctx.int("y0", -200, 200) / 4
    g = G.createNonPeriodicGeometry(ctx.np.array([x0 + x for x, y in c]), ctx.np.array([y0 + y for x, y in c]))
    cl, M, inds = N.get_reduced_subclusters(g)
    P = ctx.reals("P", len(cl))
    v, orders, wts = N.get_nlce_exp_val(P[:-1], M[:-1, :-1], M[-1, :-1], inds[:-1], len(c))
    w = ctx.dense(N.get_nlce_exp_val(P, M, ctx.np.ones(len(cl)), inds, 1)[2])
    ctx.eq(v * len(c) + w[-1], P[-1], "subcluster weights and the cluster's own weight add up to its property")


SHAPES = dict(dot=[(0, 0)], bar=[(0, 0), (1, 0)], L=[(0, 0), (1, 0), (1, 1)], line=[(0, 0), (0, 1), (0, 2)], T=[(0, 0), (1, 0), (2, 0), (1, 1)],
              S=[(0, 0), (1, 0), (1, 1), (2, 1)], J=[(0, 0), (1, 0), (2, 0), (2, 1)], O=[(0, 0), (1, 0), (0, 1), (1, 1)],
              I=[(0, 0), (1, 0), (2, 0), (3, 0)], F=[(0, 0), (1, 0), (1, 1), (1, 2), (2, 1)], P=[(0, 0), (1, 0), (0, 1), (1, 1), (0, 2)],
              X=[(0, 1), (1, 0), (1, 1), (1, 2), (2, 1)], W=[(0, 0), (1, 0), (1, 1), (2, 1), (2, 2)])


def tasks(tier):
    th = tier == "thorough"
    T = []
    for o in range(1, 5 + th):
        for s in (False, True):
            T.append((lattice_clusters, dict(order=o, sym=s), 300))
    for k in ("dot", "bar", "L", "line", "S", "T") + (("J", "O", "I") if th else ()):
        for s in (False, True):
            T.append((grow, dict(start=[tuple(p) for p in SHAPES[k]], sym=s), 200))
    for k in SHAPES:
        T.append((symmetry, dict(shape=[tuple(p) for p in SHAPES[k]]), 200))
    for cz in ((2, 3), (3, 2)) + (((3, 3),) if th else ()):
        n = 5 if th else 4
        T.append((subclusters, dict(cellsize=list(cz), nmax=n), 900 if th else 300))
        T.append((reduced, dict(cellsize=list(cz), nmax=n), 900 if th else 300))
        T.append((expansion_finite, dict(cellsize=list(cz), nmax=n), 900 if th else 300))
    for o in range(1, 5 + th):
        T.append((lattice_subclusters, dict(order=o), 600))
        if o > 1:
            T.append((expansion, dict(order=o), 600))
    return T
