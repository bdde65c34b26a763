"""C24 thermodynamics, correlators and response of the free lattice gas"""
import numpy as np
from .common import *
from .c23 import momenta

BOUNDS = ("rings of 2..4 sites and 2x2 tori (thorough 6, 3x3), every inverse temperature 1e-3..1e4 (zero and infinite temperature for "
          "densities), chemical potentials +-1000, every separation within the lattice; response at every allowed momentum, frequency "
          "10..1000 of either sign or 0 (any +-100 with broadening), broadening 0 or 1e-3..100")
ASSUMPTIONS = ["zero-temperature compressibilities are marked unfinished in the code and not claimed",
               "separations are given within one period of the lattice"]


def occ(ctx, b, mu, n, dim):
    return [1 / (1 + ctx.np.exp(b * (float(sum(-2 * np.cos(x) for x in k)) - mu))) for k in momenta(n, dim)]


def G(ctx, b, mu, n, dim, r):
    """<c^dag_0 c_r>"""
    ks = momenta(n, dim)
    return sum(np.exp(1j * sum(x * y for x, y in zip(k, r))) * f for k, f in zip(ks, occ(ctx, b, mu, n, dim))) / len(ks)


def temps(ctx, nb=1, nm=1, m=1000):
    return ([ctx.real("beta%d" % i, 1e-3, 1e4, pos=True) for i in range(nb)], [ctx.real("mu%d" % i, -m, m) for i in range(nm)])


def pack(ctx, x):
    return x[0] if len(x) == 1 else ctx.np.array(x)


def item(ctx, v, i, many):
    return v[i] if many else (v if ctx.np.ndim(v) == 0 else v[0])


def density(ctx, dim, n, nb=1, nm=1):
    fg = ctx.mod("fermi_gas")
    bs, ms = temps(ctx, nb, nm)
    d = fg.fg_density(pack(ctx, bs), pack(ctx, ms), n, dim)
    c = fg.fg_compressibility(pack(ctx, bs), pack(ctx, ms), nsites=n, dim=dim)
    many = max(nb, nm) > 1
    for i in range(max(nb, nm)):
        b, mu = bs[i if nb > 1 else 0], ms[i if nm > 1 else 0]
        fs = occ(ctx, b, mu, n, dim)
        ctx.eq(item(ctx, d, i, many), sum(fs) / len(fs), "mean occupation of the momenta")
        ctx.eq(item(ctx, c, i, many), b * sum(f * (1 - f) for f in fs) / len(fs), "derivative of the density")


def density_limits(ctx, dim, n):
    fg = ctx.mod("fermi_gas")
    mu = ctx.real("mu", -1000, 1000)
    w = ctx.real("w", 0.5, 2)
    es = sorted(float(sum(-2 * np.cos(x) for x in k)) for k in momenta(n, dim))
    for e in es:
        ctx.assume(ctx.np.abs(mu - e) > 1e-3)
    d = fg.fg_density(np.inf, mu, n, dim)
    ctx.eq(w * d, w * sum(1 for e in es if bool(e < mu)) / len(es), "levels below the chemical potential are filled")
    d = fg.fg_density(0.0, mu, n, dim)
    ctx.eq(w * d, w * 0.5, "half filling at infinite temperature")
    d = fg.fg_density(np.array([np.inf, 0.0]), mu, n, dim)
    ctx.eq(w * d[0], w * sum(1 for e in es if bool(e < mu)) / len(es), "zero among several temperatures")
    ctx.eq(w * d[1], w * 0.5, "infinite among several temperatures")


def sep(ctx, n, dim):
    return (ctx.choice("rx", n), ctx.choice("ry", n) if dim == "2d" else 0)


def corr(ctx, dim, n, nb=1, nm=1):
    fg = ctx.mod("fermi_gas")
    bs, ms = temps(ctx, nb, nm)
    r = sep(ctx, n, dim)
    c = fg.fg_corr(pack(ctx, bs), pack(ctx, ms), r, n, dim)
    many = max(nb, nm) > 1
    for i in range(max(nb, nm)):
        b, mu = bs[i if nb > 1 else 0], ms[i if nm > 1 else 0]
        g = G(ctx, b, mu, n, dim, r)
        ctx.eq(item(ctx, c, i, many), (g if r == (0, 0) else 0) - g * ctx.np.conj(g), "connected density correlator")


def fluctuation(ctx, dim, n):
    """number fluctuations summed over the lattice equal compressibility times temperature"""
    fg = ctx.mod("fermi_gas")
    (b,), (mu,) = temps(ctx)
    s = 0
    for x in range(n):
        for y in range(n if dim == "2d" else 1):
            s = s + fg.fg_corr(b, mu, (x, y), n, dim)
    ctx.eq(b * s, fg.fg_compressibility(b, mu, n, dim), "fluctuation-dissipation relation")


def pair(ctx, b, mu, n, dim, r):
    """density, <n_i n_j>"""
    fs = occ(ctx, b, mu, n, dim)
    d = sum(fs) / len(fs)
    if r == (0, 0):
        return d, d
    g = G(ctx, b, mu, n, dim, r)
    return d, d * d - g * ctx.np.conj(g)


def two_component(ctx, dim, n, what, many=False):
    """independent up and down gases: moments of the site operators from <n_i n_j> of each"""
    fg = ctx.mod("fermi_gas")
    b = ctx.real("beta", 1e-3, 1e4, pos=True)
    mu = [ctx.real("mu_up", -1000, 1000), ctx.real("mu_dn", -1000, 1000)]
    r = sep(ctx, n, dim)
    (u, A), (d, B) = (pair(ctx, b, m, n, dim, r) for m in mu)
    a, c = (ctx.np.array([b, b]), 1) if many else (b, 0)
    get = lambda v: item(ctx, v, 1, many)
    if what == "singles":
        ctx.eq(get(fg.fg_singles(a, mu[0], mu[1], n, dim)), u + d - 2 * u * d, "singly occupied sites")
    elif what == "doubles":
        ctx.eq(get(fg.fg_doubles(a, mu[0], mu[1], n, dim)), u * d, "doubly occupied sites")
    elif what == "singles_corr":
        s = u + d - 2 * u * d
        # <(nu+nd-2nu nd)_i (nu+nd-2nu nd)_j>
        ss = A + B + 2 * u * d + 4 * A * B - 4 * A * d - 4 * u * B
        ctx.eq(get(fg.fg_singles_corr(a, mu[0], mu[1], r, n, dim)), ss - s * s, "correlator of singly occupied sites")
    elif what == "doubles_corr":
        ctx.eq(get(fg.fg_doubles_corr(a, mu[0], mu[1], r, n, dim)), A * B - u * u * d * d, "correlator of doubly occupied sites")
    elif what == "sz":
        m = u - d
        ctx.eq(get(fg.fg_sz_corr(a, mu[0], mu[1], r, n, dim)), A + B - 2 * u * d - m * m, "spin correlator along z")
    else:
        # sigma_x = c+_up c_dn + h.c.:  <sx_i sx_j> = <up+_i up_j><dn_i dn+_j> + <up_i up+_j><dn+_i dn_j>
        gu, gd = (G(ctx, b, m, n, dim, r) for m in mu)
        dl = 1 if r == (0, 0) else 0
        v = gu * (dl - ctx.np.conj(gd)) + gd * (dl - ctx.np.conj(gu))
        ctx.eq(get(fg.fg_sx_corr(a, mu[0], mu[1], r, n, dim)), ctx.np.real(v), "spin correlator along x")


def response(ctx, dim, n, mode, magnetic=False, many=False):
    fg = ctx.mod("fermi_gas")
    b, mu = ctx.real("beta", 1e-3, 1e4, pos=True), ctx.real("mu", -1000, 1000)
    q = (2 * np.pi * (ctx.choice("qx", n + 1)) / n, 2 * np.pi * (ctx.choice("qy", n + 1)) / n if dim == "2d" else 0.0)
    w = eta = 0.0
    if mode != "static":
        w = ctx.real("w", 10, 1000, pos=True)
        if ctx.choice("wneg", 2):
            w = -w
    if mode == "damped":
        eta = ctx.real("eta", 1e-3, 100, pos=True)
    f = fg.fg_magnetic_response if magnetic else fg.fg_density_response
    kw = {} if mode == "static" else dict(omega=w) if mode == "dynamic" else dict(omega=w, eta=eta)
    re, im = f(ctx.np.array([b, 2 * b]) if many else b, mu, k=np.array(q), nsites=n, dim=dim, **kw)
    if many:
        re, im = re[0], im[0]
    ks = momenta(n, dim)
    chi = 0
    for k in ks:
        e = float(sum(-2 * np.cos(x) for x in k))
        e2 = float(sum(-2 * np.cos(x + y) for x, y in zip(k, q)))
        f1, f2 = (1 / (1 + ctx.np.exp(b * (x - mu))) for x in (e, e2))
        if abs(e - e2) < 1e-9:
            chi = chi + (-b * f1 * (1 - f1) if mode == "static" else 0)
        else:
            chi = chi + (f1 - f2) / (w + e - e2 + 1j * eta)
    ctx.eq(re, ctx.np.real(chi / len(ks)), "real part of the response")
    ctx.eq(im, ctx.np.imag(chi / len(ks)), "imaginary part of the response")


def resonant(ctx, dim, n):
    """broadened response at low frequency"""
    fg = ctx.mod("fermi_gas")
    b, mu = ctx.real("beta", 1e-3, 1e4, pos=True), ctx.real("mu", -1000, 1000)
    w, eta = ctx.real("w", -100, 100), ctx.real("eta", 1e-3, 100, pos=True)
    q = (2 * np.pi * (1 + ctx.choice("qx", n - 1)) / n, 0.0)
    re, im = fg.fg_density_response(b, mu, k=np.array(q), omega=w, eta=eta, nsites=n, dim=dim)
    ks = momenta(n, dim)
    cr = ci = 0
    for k in ks:
        e = float(sum(-2 * np.cos(x) for x in k))
        e2 = float(sum(-2 * np.cos(x + y) for x, y in zip(k, q)))
        if abs(e - e2) < 1e-9:
            continue
        f1, f2 = (1 / (1 + ctx.np.exp(b * (x - mu))) for x in (e, e2))
        D = (w + e - e2) ** 2 + eta ** 2
        cr = cr + (f1 - f2) * (w + e - e2) / D
        ci = ci - (f1 - f2) * eta / D
    ctx.eq(re, cr / len(ks), "real part of the response")
    ctx.eq(im, ci / len(ks), "imaginary part of the response")


def uniform(ctx, dim, n):
    """static uniform response is minus the compressibility"""
    fg = ctx.mod("fermi_gas")
    (b,), (mu,) = temps(ctx)
    g = ctx.choice("g", 3)
    q = [np.zeros(2), np.array([2 * np.pi, 0.0]), np.array([-2 * np.pi, 2 * np.pi if dim == "2d" else 0.0])][g]
    re, im = fg.fg_density_response(b, mu, k=q, nsites=n, dim=dim)
    ctx.eq(re, -fg.fg_compressibility(b, mu, n, dim), "static uniform response")


def rejected(ctx):
    fg = ctx.mod("fermi_gas")
    b, mu = ctx.real("beta", 1e-3, 1e4, pos=True), ctx.real("mu", -1000, 1000)
    ctx.raises(lambda: fg.fg_density_response(ctx.np.array([b, b, b]), ctx.np.array([mu, mu]), nsites=3), "mismatched sizes are rejected")
    ctx.raises(lambda: fg.fg_density(ctx.np.array([b, b, b]), ctx.np.array([mu, mu]), nsites=3), "mismatched sizes are rejected")


def tasks(tier):
    th = tier == "thorough"
    T = []
    L = [("1d", 2), ("1d", 3), ("1d", 4), ("2d", 2)] + ([("1d", 6), ("2d", 3)] if th else [])
    for d, n in L:
        T.append((density, dict(dim=d, n=n), 300))
        T.append((density_limits, dict(dim=d, n=n), 300))
        T.append((corr, dict(dim=d, n=n), 300))
        T.append((fluctuation, dict(dim=d, n=n), 300))
        T.append((uniform, dict(dim=d, n=n), 300))
        for m in ("static", "dynamic", "damped"):
            T.append((response, dict(dim=d, n=n, mode=m), 300))
    for nb, nm in ((2, 1), (1, 2), (2, 2)):
        T.append((density, dict(dim="1d", n=2, nb=nb, nm=nm), 300))
        T.append((corr, dict(dim="1d", n=2, nb=nb, nm=nm), 300))
    for d, n in (("1d", 2), ("1d", 3), ("2d", 2)) + ((("1d", 4),) if th else ()):
        for w in ("singles", "doubles", "singles_corr", "doubles_corr", "sz", "sx"):
            T.append((two_component, dict(dim=d, n=n, what=w), 300))
    for w in ("singles", "doubles", "singles_corr", "doubles_corr", "sz", "sx"):
        T.append((two_component, dict(dim="1d", n=2, what=w, many=True), 300))
    T.append((response, dict(dim="1d", n=3, mode="static", magnetic=True), 300))
    T.append((response, dict(dim="2d", n=2, mode="damped", magnetic=True), 300))
    T.append((response, dict(dim="1d", n=3, mode="static", many=True), 300))
    for d, n in (("1d", 3), ("1d", 4), ("2d", 2)):
        T.append((resonant, dict(dim=d, n=n), 300))
    T.append((rejected, {}))
    return T
