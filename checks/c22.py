"""C22 Fermi function, its derivatives, momentum grids and densities of states"""
import itertools
import numpy as np
from .common import *

BOUNDS = ("every inverse temperature 1e-6..1e6, zero and infinite, chemical potential and energy +-1000, one value or broadcast arrays of up to 3x2; momentum grids "
          "1..7 by 1..7 (thorough 1..12); spectra of 1..4 energies (thorough 5) and 1..3 bins at every position")
ASSUMPTIONS = ["derivatives at finite temperature (those of the zero-temperature step are marked unfinished in the code and not claimed)",
               "distinct energies differ by more than 1e-9 (the spacing rounds to 12 digits)"]


def fermi_value(ctx, form):
    fg = ctx.mod("fermi_gas")
    b, mu, e = ctx.real("beta", 1e-6, 1e6, pos=True), ctx.real("mu", -1000, 1000), ctx.real("e", -1000, 1000)
    if ctx.choice("sign", 2):
        b = -b
    put = dict(scalar=lambda x: x, array=lambda x: ctx.np.array([x]), array0=lambda x: ctx.np.array(x))[form]
    f = fg.fermi(put(b), put(mu), put(e))
    ctx.eq(ctx.np.shape(f), (1,), "at least one dimension")
    f = f[0]
    ctx.eq(f, 1 / (1 + ctx.np.exp(b * (e - mu))), "Fermi function")
    g = fg.fermi(put(b), put(mu), put(2 * mu - e))[0]
    ctx.eq(f + g, 1.0, "particle-hole symmetric")
    h = fg.fermi(put(b), put(mu), put(mu))[0]
    ctx.eq((1 + 0 * b) * h, 0.5, "one half at the chemical potential")
    ctx.true(ctx.np.logical_and(f >= 0, f <= 1), "an occupation")


def fermi_grid(ctx, infinite):
    """broadcast over inverse temperatures, chemical potentials and energies, zero and infinite temperature among them"""
    fg = ctx.mod("fermi_gas")
    b = [ctx.real("b0", 1e-6, 1e6, pos=True), 0.0] + ([np.inf] if infinite else [])
    es = [ctx.real("e0", -1000, 1000), ctx.real("e1", -1000, 1000)]
    mu = ctx.real("mu", -1000, 1000)
    w = ctx.real("w", 0.5, 2)
    f = fg.fermi(ctx.np.array(b)[:, None], mu, ctx.np.array(es)[None, :])
    ctx.eq(ctx.np.shape(f), (len(b), 2), "broadcast shape")
    for k, e in enumerate(es):
        ctx.eq(f[0, k], 1 / (1 + ctx.np.exp(b[0] * (e - mu))), "Fermi function")
        ctx.eq(w * f[1, k], w * 0.5, "infinite temperature")
        if infinite:
            ctx.eq(w * f[2, k], w * (1.0 if bool(e <= mu) else 0.0), "zero temperature step, filled up to and including the chemical potential")


def fermi_zero_t(ctx, where):
    fg = ctx.mod("fermi_gas")
    mu = ctx.real("mu", -1000, 1000)
    w = ctx.real("w", 0.5, 2)
    d = ctx.real("d", 1e-6, 1000, pos=True)
    e = mu + {"above": d, "below": -d, "at": 0}[where]
    f = fg.fermi(np.inf, mu, e)
    ctx.eq(w * f[0], w * (0.0 if where == "above" else 1.0), "zero temperature step")
    fs = fg.fermi(np.array([np.inf, np.inf]), ctx.np.array([mu, mu]), ctx.np.array([e, mu - d]))
    ctx.eq(w * fs[0], w * (0.0 if where == "above" else 1.0), "zero temperature step")
    ctx.eq(w * fs[1], w * 1.0, "zero temperature step")


def derivatives(ctx, form):
    fg = ctx.mod("fermi_gas")
    b, mu, e = ctx.real("beta", 1e-6, 1e6, pos=True), ctx.real("mu", -1000, 1000), ctx.real("e", -1000, 1000)
    e2 = ctx.real("e2", -1000, 1000)
    if form == "scalar":
        du, de, db = (x[0] for x in fg.fermi_derivatives(b, mu, e))
    else:
        du, de, db = (x[1, 0] for x in fg.fermi_derivatives(b, ctx.np.array([mu])[None, :], ctx.np.array([e2, e])[:, None]))
    # d/dz 1/(exp(y)+1) = -1/(exp(y)+1) 1/(exp(-y)+1) dy/dz
    s = 1 / (1 + ctx.np.exp(b * (e - mu))) / (1 + ctx.np.exp(b * (mu - e)))
    ctx.eq(du, b * s, "derivative with respect to the chemical potential")
    ctx.eq(de, -b * s, "derivative with respect to the energy")
    ctx.eq(db, -(e - mu) * s, "derivative with respect to the inverse temperature")


def derivatives_infinite_t(ctx):
    fg = ctx.mod("fermi_gas")
    mu, e = ctx.real("mu", -1000, 1000), ctx.real("e", -1000, 1000)
    w = ctx.real("w", 0.5, 2)
    du, de, db = fg.fermi_derivatives(0.0, mu, e)
    ctx.eq(w * du[0], 0 * w, "flat at infinite temperature")
    ctx.eq(w * de[0], 0 * w, "flat at infinite temperature")
    ctx.eq(db[0], -(e - mu) / 4, "derivative with respect to the inverse temperature")


def grid(ctx, nmax, mode):
    """every allowed momentum exactly once; x varies along the second axis"""
    fg = ctx.mod("fermi_gas")
    nx = 1 + ctx.choice("nx", nmax)
    ny = 1 + ctx.choice("ny", nmax)
    w = ctx.real("w", 0.5, 2)
    kw = {} if mode is None else dict(mode=mode)
    kx, ky, dx, dy = fg.get_allowed_kvects(nx, ny, **kw)
    ctx.true(np.shape(kx) == (ny, nx) and np.shape(ky) == (ny, nx), "grid of ny x nx momenta")
    ctx.eq(w * dx, w * 2 * np.pi / nx, "spacing in x")
    ctx.eq(w * dy, w * 2 * np.pi / ny, "spacing in y")
    for v, n in ((np.array(kx)[0], nx), (np.array(ky)[:, 0], ny)):
        m = v * n / (2 * np.pi)
        ctx.true(bool(np.all(np.abs(m - np.round(m)) < 1e-6)), "allowed momenta")
        ctx.true(sorted(int(r) % n for r in np.round(m)) == list(range(n)), "each allowed momentum exactly once")
        ctx.true(bool(np.all(np.diff(v) > 0)), "ascending")
        if mode == "positive":
            ctx.true(bool(np.all(v > -1e-9) and np.all(v < 2 * np.pi - 1e-9)), "between 0 and 2 pi")
        else:
            ctx.true(bool(np.all(np.abs(v) < np.pi + 1e-9)), "first Brillouin zone")
    ctx.true(bool(np.all(np.array(kx) == np.array(kx)[0][None, :]) and np.all(np.array(ky) == np.array(ky)[:, :1])), "x along columns, y along rows")


def grid_bad(ctx):
    fg = ctx.mod("fermi_gas")
    ctx.raises(lambda: fg.get_allowed_kvects(2 + ctx.choice("n", 3), 3, mode="other"), "unknown mode is rejected")


def spacing(ctx, n, shape, same):
    """gaps between adjacent distinct energies, in whatever order they are given"""
    fg = ctx.mod("fermi_gas")
    lv = [ctx.real("e", -1000, 1000)]
    for k in range(1, n):
        lv.append(lv[-1] + ctx.real("g%d" % k, 1e-6, 100, pos=True))
    es = lv + lv[:same]
    k = ctx.choice("rot", len(es))
    es = es[k:] + es[:k]
    if ctx.choice("rev", 2):
        es = es[::-1]
    a = ctx.np.array(es)
    if shape:
        a = a.reshape(tuple(shape))
    lo, hi, mean = fg.get_energy_spacing(a)
    gaps = [lv[i + 1] - lv[i] for i in range(n - 1)]
    ctx.eq(mean * (n - 1), lv[-1] - lv[0], "mean spacing")
    m = gaps[0]
    M = gaps[0]
    for g in gaps[1:]:
        m = ctx.np.minimum(m, g)
        M = ctx.np.maximum(M, g)
    ctx.eq(lo, m, "smallest spacing")
    ctx.eq(hi, M, "largest spacing")


def dos(ctx, n, bins):
    """fraction of states per energy in every bin"""
    fg = ctx.mod("fermi_gas")
    es = ctx.reals("e", n, -100, 100)
    ed = [ctx.real("a", -50, 50)]
    for k in range(bins):
        ed.append(ed[-1] + ctx.real("w%d" % k, 0.01, 100, pos=True))
    # rounding decides for states on a bin edge
    for e in es:
        for x in ed:
            ctx.assume(ctx.np.abs(e - x) > 1e-6)
    d = fg.get_dos(es.reshape((n, 1)) if ctx.choice("shape", 2) else es, ctx.np.array(ed))
    ctx.eq(ctx.np.shape(d), (bins,), "one value per bin")
    for k in range(bins):
        c = sum(1 for e in es if bool(e > ed[k]) and bool(e < ed[k + 1]))
        ctx.eq(d[k] * n * (ed[k + 1] - ed[k]), c * (1 + 0 * ed[0]), "number of states in the bin")


def dos_auto(ctx, nsites, dim):
    """every state is counted once"""
    fg = ctx.mod("fermi_gas")
    w = ctx.real("w", 0.5, 2)
    d, m = fg.get_dos2(nsites, dim)
    d, m = np.array(d), np.array(m)
    ctx.true(d.shape == m.shape and d.size >= 1, "one energy per bin")
    kx, ky, _, _ = fg.get_allowed_kvects(nsites, nsites if dim == "2d" else 1)
    es = -2 * np.cos(np.array(kx)) - (2 * np.cos(np.array(ky)) if dim == "2d" else 0)
    wd = (es.max() - es.min()) / d.size
    ctx.eq(w * float(np.sum(d) * wd), w, "integrates to one")
    ctx.eq(w * m, w * (es.min() + wd * (np.arange(d.size) + 0.5)), "bins cover the band evenly")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for f in ("scalar", "array", "array0"):
        T.append((fermi_value, dict(form=f)))
    for i in (False, True):
        T.append((fermi_grid, dict(infinite=i)))
    for wh in ("above", "below", "at"):
        T.append((fermi_zero_t, dict(where=wh)))
    for f in ("scalar", "grid"):
        T.append((derivatives, dict(form=f)))
    T.append((derivatives_infinite_t, {}))
    for m in (None, "balanced", "positive"):
        T.append((grid, dict(nmax=12 if th else 7, mode=m), 300))
    T.append((grid_bad, {}))
    for n, sh, same in ((2, None, 0), (2, [2, 1], 0), (3, None, 0), (3, [2, 2], 1), (2, [2, 2], 2), (4, None, 0), (4, [2, 3], 2)) + (((5, None, 1),) if th else ()):
        T.append((spacing, dict(n=n, shape=sh, same=same), 300))
    for n, b in ((1, 1), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3)) + (((4, 3), (5, 2)) if th else ()):
        T.append((dos, dict(n=n, bins=b), 300))
    for ns, d in ((2, "1d"), (9, "1d"), (4, "2d"), (120, "2d"), (250, "2d")):
        T.append((dos_auto, dict(nsites=ns, dim=d)))
    return T
