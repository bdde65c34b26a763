"""C09 reduction to a periodicity cell and reciprocal vectors"""
import numpy as np
from .common import *

BOUNDS = ("2 points (thorough 3) with every coordinate in [-6,6]; periodicity vectors: nine concrete oblique/orthogonal/one- and "
          "zero-dimensional cells, and every rectangular or axis-aligned oblique cell with sides in [0.5,3]; reciprocal vectors: every "
          "pair of vectors (components +-1000) with determinant at least 0.01 in size")
ASSUMPTIONS = ["points whose fractional coordinates are within 1e-9 of a cell boundary but not on it are compared up to the boundary's "
               "identification (doubles round there)"]
EPS = 1e-9
CELLS = {
    "square": ([3.0, 0], [0, 2.0]), "tilted": ([3.0, 1.0], [-1.0, 3.0]), "triangular": ([3.0, 0], [1.0, np.sqrt(3)]),
    "oblique": ([2.0, 0.5], [0.7, 1.5]), "left": ([0, 2.0], [3.0, 0]), "negative": ([-2.0, 0.0], [1.0, -2.0]),
    "line1": ([3.0, 1.0], [0, 0]), "line2": ([0, 0], [0.0, 4.0]), "none": ([0, 0], [0, 0]),
    "line1y": ([0.0, 2.0], [0, 0]), "line2x": ([0, 0], [2.0, -1.0]),
}


def coords(p1, p2, x, y):
    """coordinates along the periodicity vectors (least squares if one vanishes), None for absent directions"""
    z1, z2 = not any(p1), not any(p2)
    if not z1 and not z2:
        det = p1[0] * p2[1] - p1[1] * p2[0]
        return (x * p2[1] - y * p2[0]) / det, (-x * p1[1] + y * p1[0]) / det
    if not z1:
        return (x * p1[0] + y * p1[1]) / (p1[0] ** 2 + p1[1] ** 2), None
    if not z2:
        return None, (x * p2[0] + y * p2[1]) / (p2[0] ** 2 + p2[1] ** 2)
    return None, None


def verdict(ctx, p1, p2, x, y, out, mode):
    xr, yr, n1, n2 = out
    n1, n2 = ctx.np.reshape(n1, (-1,)), ctx.np.reshape(n2, (-1,))
    for i in range(len(x)):
        ctx.eq(xr[i] + n1[i] * p1[0] + n2[i] * p2[0], x[i], "x = reduced + integer multiples of the periodicity vectors")
        ctx.eq(yr[i] + n1[i] * p1[1] + n2[i] * p2[1], y[i], "y = reduced + integer multiples of the periodicity vectors")
        ctx.eq(n1[i], ctx.np.round(n1[i]), "n1 is an integer")
        ctx.eq(n2[i], ctx.np.round(n2[i]), "n2 is an integer")
        for f, n in zip(coords(p1, p2, xr[i], yr[i]), (n1[i], n2[i])):
            if f is None:
                ctx.eq(n, 0.0, "no reduction along an absent periodicity")
            else:
                lo = 0.0 if mode == "positive" else -0.5
                ctx.true(f >= lo - EPS, "reduced coordinate not below the cell")
                ctx.true(f <= lo + 1 + EPS, "reduced coordinate not above the cell")


def concrete_cell(ctx, cell, mode, n):
    M = ctx.mod("ed_geometry")
    p1, p2 = CELLS[cell]
    x, y = ctx.reals("x", n, -6, 6), ctx.reals("y", n, -6, 6)
    out = M.reduce_vectors(np.array([[p1[0]], [p1[1]]]), np.array([[p2[0]], [p2[1]]]), x, y, mode=mode)
    verdict(ctx, p1, p2, x, y, out, mode)


def symbolic_cell(ctx, kind, mode):
    M = ctx.mod("ed_geometry")
    a, b = ctx.real("a", 0.5, 3, pos=True), ctx.real("b", 0.5, 3, pos=True)
    if kind == "rect":
        p1, p2 = [a, 0.0], [0.0, b]
    else:
        p1, p2 = [a, 0.0], [1.0, b]
    x, y = ctx.reals("x", 1, -4, 4), ctx.reals("y", 1, -4, 4)
    out = M.reduce_vectors(ctx.np.array([[p1[0]], [p1[1]]]), ctx.np.array([[p2[0]], [p2[1]]]), x, y, mode=mode)
    xr, yr, n1, n2 = out
    n1, n2 = ctx.np.reshape(n1, (-1,))[0], ctx.np.reshape(n2, (-1,))[0]
    ctx.eq(xr[0] + n1 * p1[0] + n2 * p2[0], x[0], "x = reduced + integer multiples")
    ctx.eq(yr[0] + n1 * p1[1] + n2 * p2[1], y[0], "y = reduced + integer multiples")
    lo = 0.0 if mode == "positive" else -0.5
    f2 = yr[0] / b
    f1 = (xr[0] - f2 * p2[0]) / a
    for f in (f1, f2):
        ctx.true(f >= lo - EPS, "not below the cell")
        ctx.true(f <= lo + 1 + EPS, "not above the cell")


def periodic(ctx, cell, mode):
    """equivalent points reduce to the same representative; reducing twice changes nothing"""
    M = ctx.mod("ed_geometry")
    p1, p2 = CELLS[cell]
    x, y = ctx.real("x", -3, 3), ctx.real("y", -3, 3)
    k1, k2 = ctx.choice("k1", 3) - 1, ctx.choice("k2", 3) - 1
    c = coords(p1, p2, x, y)
    for f in c:
        if f is not None:      # away from the boundary, where doubles may fall on either side
            g = f if mode == "positive" else f + 0.5
            fr = g - ctx.np.floor(g)
            ctx.assume(fr >= 1e-6)
            ctx.assume(fr <= 1 - 1e-6)
    args = np.array([[p1[0]], [p1[1]]]), np.array([[p2[0]], [p2[1]]])
    o1 = M.reduce_vectors(*args, x, y, mode=mode)
    o2 = M.reduce_vectors(*args, x + k1 * p1[0] + k2 * p2[0], y + k1 * p1[1] + k2 * p2[1], mode=mode)
    ctx.eq(o1[0], o2[0], "same representative x")
    ctx.eq(o1[1], o2[1], "same representative y")
    o3 = M.reduce_vectors(*args, o1[0], o1[1], mode=mode)
    ctx.eq(o3[0], o1[0], "idempotent x")
    ctx.eq(o3[1], o1[1], "idempotent y")


def boundary(ctx, cell, mode):
    """points exactly on the boundary: the lower edge belongs to the cell, the upper one does not"""
    M = ctx.mod("ed_geometry")
    p1, p2 = CELLS[cell]
    m1, m2 = ctx.choice("m1", 7) - 3, ctx.choice("m2", 7) - 3
    h = 0.0 if mode == "positive" else 0.5
    a1, a2 = (m1 + h) if any(p1) else 0, (m2 + h) if any(p2) else 0
    x, y = a1 * p1[0] + a2 * p2[0], a1 * p1[1] + a2 * p2[1]
    xr, yr, n1, n2 = M.reduce_vectors(np.array([[p1[0]], [p1[1]]]), np.array([[p2[0]], [p2[1]]]), x, y, mode=mode)
    w = ctx.real("w")
    e1, e2 = (-h if any(p1) else 0), (-h if any(p2) else 0)
    ctx.eq(w * xr, [w * (e1 * p1[0] + e2 * p2[0])], "x on the lower edge")
    ctx.eq(w * yr, [w * (e1 * p1[1] + e2 * p2[1])], "y on the lower edge")


def lattice_method(ctx, cell, mode):
    M = ctx.mod("ed_geometry")
    p1, p2 = CELLS[cell]
    x, y = ctx.reals("x", 2, -6, 6), ctx.reals("y", 2, -6, 6)
    L = M.Lattice([1, 0], [0, 1], [[0, 0]], p1, p2)
    out = L.reduce_to_unit_cell(x, y, mode) if mode != "positive" else L.reduce_to_unit_cell(x, y)
    verdict(ctx, p1, p2, x, y, out, mode)


def reciprocal(ctx):
    M = ctx.mod("ed_geometry")
    a, b = ctx.reals("a", 2, nonzero=True), ctx.reals("b", 2, nonzero=True)
    det = a[0] * b[1] - a[1] * b[0]
    ctx.assume(ctx.np.abs(det) >= 0.01)
    r1, r2 = M.get_reciprocal_vects(a, b)
    ctx.eq(a @ r1, [1.0], "a1.b1 = 1")
    ctx.eq(a @ r2, [0.0], "a1.b2 = 0")
    ctx.eq(b @ r1, [0.0], "a2.b1 = 0")
    ctx.eq(b @ r2, [1.0], "a2.b2 = 1")


def reciprocal_one(ctx, which):
    M = ctx.mod("ed_geometry")
    a = ctx.reals("a", 2, nonzero=True)
    z = np.zeros(2)
    r = M.get_reciprocal_vects(a, z) if which == 0 else M.get_reciprocal_vects(z, a)
    ctx.eq(a @ r[which], [1.0], "unit overlap with the present vector")
    ctx.eq(ctx.np.array([-a[1], a[0]]) @ r[which], [0.0], "parallel to the present vector")
    ctx.eq(r[1 - which], np.zeros((2, 1)), "absent direction has zero reciprocal vector")
    r = M.get_reciprocal_vects(z, z)
    ctx.eq(r[0], np.zeros((2, 1)), "no periodicity")
    ctx.eq(r[1], np.zeros((2, 1)), "no periodicity")


def dependent(ctx):
    """linearly dependent vectors are rejected"""
    M = ctx.mod("ed_geometry")
    k = ctx.choice("k", 5) - 2
    if k:
        ctx.raises(lambda: M.Lattice([1, 0], [0, 1], [[0, 0]], [2.0, 1.0], [2.0 * k, 1.0 * k]), "dependent periodicity vectors")
        ctx.raises(lambda: M.Lattice([1, 0], [1.0 * k, 0]), "dependent lattice vectors")
    ctx.raises(lambda: M.reduce_vectors([1, 0], [0, 1], 0.3, 0.2, mode="other"), "unknown mode")


def incompatible(ctx):
    """periodicity vectors that are not lattice translations are rejected, lattice translations are accepted"""
    M = ctx.mod("ed_geometry")
    i, j = ctx.choice("i", 4), ctx.choice("j", 4)
    f = [0.0, 0.25, 0.5, 0.75]
    a, b = ctx.choice("a", 3) + 1, ctx.choice("b", 3) - 1
    mk = lambda: M.Lattice([1, 0], [0.5, np.sqrt(3) / 2], [[0, 0]],
                           (a + f[i]) * np.array([1, 0]) + (b + f[j]) * np.array([0.5, np.sqrt(3) / 2]), [0, 0])
    mk2 = lambda: M.Lattice([1, 0], [0.5, np.sqrt(3) / 2], [[0, 0]], [0, 0],
                            (a + f[i]) * np.array([1, 0]) + (b + f[j]) * np.array([0.5, np.sqrt(3) / 2]))
    for m in (mk, mk2):
        if i == 0 and j == 0:
            m()
        else:
            ctx.raises(m, "periodicity vector off the lattice")
    w = ctx.real("w")
    ctx.eq(w, w, "reached")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for c in CELLS:
        for m in ("positive", "centered"):
            T.append((concrete_cell, dict(cell=c, mode=m, n=2 if not th else 3), 120))
            T.append((periodic, dict(cell=c, mode=m), 120 if not th else 600))
            T.append((boundary, dict(cell=c, mode=m)))
    for k in ("rect", "skew"):
        for m in ("positive", "centered"):
            T.append((symbolic_cell, dict(kind=k, mode=m), 120 if not th else 600))
    for c in ("square", "tilted", "line2"):
        for m in ("positive", "centered"):
            T.append((lattice_method, dict(cell=c, mode=m)))
    T += [(reciprocal, {}), (reciprocal_one, dict(which=0)), (reciprocal_one, dict(which=1)), (dependent, {}), (incompatible, {})]
    return T
