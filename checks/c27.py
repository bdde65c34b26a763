"""C27 chemical potential of the free gas for a requested density"""
import numpy as np
from .common import *
from .c24 import momenta

BOUNDS = ("rings of 2..5 sites and 2x2 tori (thorough 6, 3x3); every inverse temperature 1e-3..20 and every density reached by a chemical "
          "potential within the band or within three temperatures of it; one value or arrays of two to four; 35 concrete temperatures and densities through scipy's own root finder")
ASSUMPTIONS = ["scipy's scalar root finder is replaced by an exact one (finds the root of the function it is given); its convergence, and the bracket it is given, "
               "are only exercised at the solver's witnesses", "finite, nonzero temperature (zero temperature is marked unfinished in the code)"]


def occ(ctx, b, mu, n, dim):
    return sum(1 / (1 + ctx.np.exp(b * (float(sum(-2 * np.cos(x) for x in k)) - mu))) for k in momenta(n, dim)) / len(momenta(n, dim))


def point(ctx, i, dim):
    b = ctx.real("beta%d" % i, 1e-3, 20, pos=True)
    w = 2 if dim == "1d" else 4
    return b, ctx.real("mu%d" % i, -w, w) + ctx.real("x%d" % i, -3, 3) / b


def single(ctx, dim, n, form):
    fg = ctx.mod("fermi_gas")
    b, mu = point(ctx, 0, dim)
    ctx.known_root(mu)
    d = occ(ctx, b, mu, n, dim)
    put = (lambda v: ctx.np.array([v])) if form == "array" else (lambda v: v)
    m = fg.fg_mu(put(b), put(d), n, dim)
    m = ctx.np.ravel(m)[0] if form == "array" else m
    ctx.eq(occ(ctx, b, m, n, dim), d, "density at the returned chemical potential")


def many(ctx, dim, n, nb, nd):
    fg = ctx.mod("fermi_gas")
    k = max(nb, nd)
    b = [ctx.real("beta%d" % i, 1e-3, 20, pos=True) for i in range(nb)]
    if nb > 1 and nd == 1:
        # one density, several temperatures: half filling, where particle-hole symmetry fixes the answer
        mus = [0.0] * k
        d = [0.5]
        ctx.known_root(0.0)
    else:
        mus = [ctx.real("mu%d" % i, -2, 2) for i in range(k)]
        ctx.known_root(*mus)
        d = [occ(ctx, b[i if nb > 1 else 0], mus[i], n, dim) for i in range(k)]
    m = fg.fg_mu(ctx.np.array(b) if nb > 1 else b[0], ctx.np.array(d) if nd > 1 else d[0], n, dim)
    ctx.eq(ctx.np.shape(m), (k,), "one chemical potential per point")
    for i in range(k):
        ctx.eq(occ(ctx, b[i if nb > 1 else 0], m[i], n, dim), d[i if nd > 1 else 0], "density at the returned chemical potential")


def half_filling(ctx, dim, n):
    fg = ctx.mod("fermi_gas")
    b = ctx.real("beta", 1e-3, 20, pos=True)
    ctx.known_root(0.0)
    ctx.eq(occ(ctx, b, fg.fg_mu(b, 0.5, n, dim), n, dim), 0.5, "half filling")


def numbers(ctx, dim, n):
    """the real root finder (bracket and convergence) at concrete temperatures and densities"""
    fg = ctx.mod("fermi_gas")
    b = [0.01, 0.5, 4.0, 20.0, 150.0][ctx.choice("b", 5)]
    d = [0.003, 0.2, 0.37, 0.5, 0.61, 0.95, 0.999][ctx.choice("d", 7)]
    w = ctx.real("w", 0.5, 2)
    m = fg.fg_mu(b, d, n, dim)
    ctx.eq(w * occ(ctx, b, m, n, dim), w * d, "density at the returned chemical potential")


def rejected(ctx):
    fg = ctx.mod("fermi_gas")
    b = ctx.real("beta", 0.1, 5, pos=True)
    ctx.raises(lambda: fg.fg_mu(ctx.np.array([b, b, b]), np.array([0.2, 0.3]), 2, "1d"), "mismatched sizes are rejected")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for d, n in [("1d", 2), ("1d", 3), ("1d", 4), ("1d", 5), ("2d", 2)] + ([("1d", 6), ("2d", 3)] if th else []):
        for f in ("scalar", "array"):
            T.append((single, dict(dim=d, n=n, form=f), 300))
    for d, n in (("1d", 2), ("1d", 4), ("2d", 2)):
        T.append((half_filling, dict(dim=d, n=n), 300))
    for nb, nd in ((2, 1), (1, 2), (2, 2), (1, 3), (4, 4)):
        T.append((many, dict(dim="1d", n=2, nb=nb, nd=nd), 300))
    T.append((many, dict(dim="2d", n=2, nb=2, nd=2), 300))
    for d, n in (("1d", 2), ("1d", 7), ("2d", 3), ("2d", 6)):
        T.append((numbers, dict(dim=d, n=n), 300))
    T.append((rejected, {}))
    return T
