"""C21 numerical linked cluster expansion: weights, orders and resummation"""
import itertools
import numpy as np
from math import comb
from .common import *

BOUNDS = ("up to 5 clusters (thorough 6) in every split into orders of the listed sizes, all property values +-1000 in arrays of one to three further axes "
          "(including axes of length one), all subcluster multiplicities 0..50 and cluster multiplicities 0..50 (integers), site numbers 1..100; "
          "resummation of up to 6 orders with every parameter 0.01..100")
ASSUMPTIONS = ["real property values, clusters ordered so that subclusters come first (as the enumeration returns them)"]


def data(ctx, n, shape):
    M = ctx.np.zeros((n, n), dtype=float)
    for i in range(n):
        for j in range(i):
            M[i, j] = ctx.real("M%d_%d" % (i, j), 0, 50)
    m = [ctx.real("m%d" % i, 0, 50) for i in range(n)]
    k = int(np.prod(shape)) if shape else 1
    P = ctx.reals("P", n * k).reshape((n,) + tuple(shape))
    return M, m, P


def weights(ctx, n, shape, starts, form):
    N = ctx.mod("ed_nlce")
    M, m, P = data(ctx, n, shape)
    ns = ctx.choice("ns", 3)
    ns = [1, 4, 37][ns]
    mm = {"list": lambda: list(m), "array": lambda: ctx.np.array(m), "row": lambda: ctx.np.array(m)[None, :],
          "sparse": lambda: ctx.sp.csr_matrix(ctx.np.array(m)[None, :])}[form]()
    v, orders, W = N.get_nlce_exp_val(P, ctx.sp.csr_matrix(M), mm, starts, ns)
    W = ctx.dense(W)
    ctx.eq(ctx.np.shape(W), ctx.np.shape(P), "one weight per cluster and component")
    ctx.eq(ctx.np.shape(orders), (len(starts) - 1,) + tuple(shape), "one contribution per order and component")
    v = ctx.dense(v)
    ctx.eq(ctx.np.size(v), int(np.prod(shape)) if shape else 1, "one value per component")
    v = ctx.np.reshape(ctx.np.array(v), tuple(shape)) if shape else v
    ref = {}
    for c in itertools.product(*[range(s) for s in shape]):
        for i in range(n):
            x = P[(i,) + c]
            for j in range(i):
                x = x - M[i, j] * ref[(j,) + c]
            ref[(i,) + c] = x
            ctx.eq(W[(i,) + c], x, "weight = property minus weights of all subclusters")
        tot = 0
        for o in range(len(starts) - 1):
            x = 0
            for i in range(starts[o], starts[o + 1]):
                x = x + m[i] * ref[(i,) + c]
            ctx.eq(orders[(o,) + c] if shape else orders[o], x / ns, "contribution of each order per site")
            tot = tot + x
        if starts[0] == 0 and starts[-1] == n:
            ctx.eq(v[c] if shape else v, tot / ns, "expansion per site")


def linear(ctx, n):
    """linear in the property; a constant per-cluster table is recovered"""
    N = ctx.mod("ed_nlce")
    M, m, P = data(ctx, n, (2,))
    a, b = ctx.reals("ab", 2)
    Ms = ctx.sp.csr_matrix(M)
    st = list(range(n + 1))
    v, o, W = N.get_nlce_exp_val(P, Ms, m, st, 3)
    v1, o1, W1 = N.get_nlce_exp_val(a * P[:, 0] + b * P[:, 1], Ms, m, st, 3)
    for i in range(n):
        ctx.eq(W1[i], a * W[i, 0] + b * W[i, 1], "weights linear in the property")
        ctx.eq(o1[i], a * o[i, 0] + b * o[i, 1], "orders linear in the property")
    ctx.eq(v1, a * v[0] + b * v[1], "expansion linear in the property")
    # expanding the last cluster in its proper subclusters and itself gives its property back
    full = [M[n - 1, j] for j in range(n - 1)] + [1]
    v2, _, _ = N.get_nlce_exp_val(P, Ms, ctx.np.array(full), st, 1)
    for c in range(2):
        ctx.eq(v2[c], P[n - 1, c], "a cluster's own expansion is its property")


def euler(ctx, n, shape):
    N = ctx.mod("ed_nlce")
    k = int(np.prod(shape)) if shape else 1
    S = ctx.reals("S", n * k).reshape((n,) + tuple(shape))
    y = ctx.real("y", 0.01, 100)
    tot, parts = N.euler_resum(S, y)
    tot, parts = ctx.dense(tot), ctx.dense(parts)
    ctx.eq(ctx.np.shape(parts), ctx.np.shape(S), "one resummed contribution per order and component")
    for c in itertools.product(*[range(s) for s in shape]):
        acc = 0
        for i in range(n):
            x = 0
            for j in range(i + 1):
                x = x + comb(i, j) * y ** (j + 1) * S[(j,) + c]
            x = x / (1 + y) ** (i + 1)
            ctx.eq(parts[(i,) + c], x, "Euler transform of the orders")
            acc = acc + x
        ctx.eq(tot[c] if shape else tot, acc, "resummed value is the sum of the transformed orders")


def euler_geometric(ctx, n):
    """a geometric series a r^j: remainder after n transformed orders is a/(1-r) ((1+ry)/(1+y))^n; linear in the series"""
    N = ctx.mod("ed_nlce")
    a = ctx.real("a")
    r = ctx.real("r", -5, 0.9)
    y = ctx.real("y", 0.01, 10)
    s = []
    t = a
    for j in range(n):
        s.append(t)
        t = t * r
    tot, _ = N.euler_resum(ctx.np.array(s), y)
    ctx.eq((tot * (1 - r)) * (1 + y) ** n, a * ((1 + y) ** n - (1 + r * y) ** n), "remainder of a geometric series")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for form in ("list", "array", "row", "sparse"):
        T.append((weights, dict(n=3, shape=[2], starts=[0, 1, 2, 3], form=form)))
    for n, st in ((1, [0, 1]), (2, [0, 1, 2]), (4, [0, 1, 2, 4]), (4, [0, 4]), (4, [1, 3, 4]), (5, [0, 1, 2, 4, 5]), (3, [0, 2, 2, 3])) + (((6, [0, 1, 2, 4, 6]),) if th else ()):
        T.append((weights, dict(n=n, shape=[], starts=st, form="list"), 300))
    for sh in ([1], [3], [2, 2], [1, 2], [2, 1], [3, 1], [1, 1], [2, 1, 2], [2, 1, 1]):
        T.append((weights, dict(n=3, shape=sh, starts=[0, 1, 3], form="list")))
    for n in (2, 3, 4) + ((5,) if th else ()):
        T.append((linear, dict(n=n), 300))
    for n, sh in ((1, []), (2, []), (3, []), (4, []), (6, []), (1, [2]), (3, [2]), (3, [2, 2]), (3, [1]), (2, [2, 1])):
        T.append((euler, dict(n=n, shape=sh), 300))
    for n in (1, 2, 3, 4) + ((5, 6) if th else ()):
        T.append((euler_geometric, dict(n=n), 300))
    return T
