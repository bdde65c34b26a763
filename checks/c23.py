"""C23 Green's functions of the free lattice gas"""
import numpy as np
from .common import *

BOUNDS = ("every momentum +-100 in one and two dimensions, inverse temperature 1e-3..1e4, chemical potential +-1000, time 1e-3..1000 of either sign; real space: "
          "rings of 2..5 sites and 2x2, 3x3 tori (thorough up to 8 and 4x4), every separation, one or several temperatures and chemical potentials")
ASSUMPTIONS = ["nonzero times for retarded, advanced and time-ordered functions (the step at zero time is a convention)",
               "the chemical-potential derivative of the time-ordered function is marked unfinished in the code and not claimed"]

TYPES = ("greater", "lesser", "retarded", "advanced", "time-ordered")


def tt(ctx, name="t"):
    t = ctx.real(name, 1e-3, 1000, pos=True)
    return t if not ctx.choice(name + "neg", 2) else -t


def ref(ctx, b, mu, e, t, type):
    """G and dG/dmu of a level e - mu"""
    np_ = ctx.np
    f = 1 / (1 + np_.exp(b * (e - mu)))
    df = b * f * (1 - f)
    ph = np_.exp(-1j * (e - mu) * t)
    gg, gl = -1j * ph * (1 - f), 1j * ph * f
    dgg = 1j * t * gg + 1j * ph * df
    dgl = 1j * t * gl + 1j * ph * df
    pos = bool(t > 0) if type not in ("greater", "lesser") else True
    if type == "greater":
        return gg, dgg
    if type == "lesser":
        return gl, dgl
    if type == "retarded":
        return (gg - gl, dgg - dgl) if pos else (0 * gg, 0 * gg)
    if type == "advanced":
        return (0 * gg, 0 * gg) if pos else (gl - gg, dgl - dgg)
    return (gg, dgg) if pos else (gl, dgl)


def band(ctx, k):
    return sum(-2 * ctx.np.cos(x) for x in k)


def kspace(ctx, type, dim, n, zero=False):
    fg = ctx.mod("fermi_gas")
    b, mu = ctx.real("beta", 1e-3, 1e4, pos=True), ctx.real("mu", -1000, 1000)
    t = 0.0 if zero else tt(ctx)
    d = int(dim[0])
    K = [[ctx.real("k%d%s" % (i, "xy"[j]), -100, 100) for j in range(d)] for i in range(n)]
    if d == 1:
        ks = ctx.np.array([k[0] for k in K]) if n > 1 else K[0][0]
    else:
        ks = ctx.np.array(K) if n > 1 else ctx.np.array(K[0])
    g, dg = fg.fg_kspace_gfns(b, mu, ks, t, type, dim)
    ctx.eq(ctx.np.shape(g), (n,), "one value per momentum")
    for i in range(n):
        rg, rd = ref(ctx, b, mu, band(ctx, K[i]), t, type)
        ctx.eq(g[i], rg, type + " function")
        if type != "time-ordered":
            ctx.eq(dg[i], rd, "derivative with respect to the chemical potential")


def kspace_zero_t(ctx, type, dim):
    """zero temperature: levels are full or empty"""
    fg = ctx.mod("fermi_gas")
    mu = ctx.real("mu", -1000, 1000)
    t = tt(ctx)
    k = [ctx.real("k" + c, -100, 100) for c in "xy"[:int(dim[0])]]
    e = band(ctx, k)
    d = ctx.real("d", 1e-3, 1000, pos=True)
    full = ctx.choice("full", 2)
    mu = e + d if full else e - d
    g, _ = fg.fg_kspace_gfns(np.inf, mu, ctx.np.array(k), t, type, dim)
    ph = ctx.np.exp(-1j * (e - mu) * t)
    gg, gl = (0 * ph, 1j * ph) if full else (-1j * ph, 0 * ph)
    pos = bool(t > 0)
    r = {"greater": gg, "lesser": gl, "retarded": (gg - gl) if pos else 0 * ph, "advanced": 0 * ph if pos else (gl - gg),
         "time-ordered": gg if pos else gl}[type]
    ctx.eq(g[0], r, "zero temperature")


def several_times(ctx, type):
    """one time per momentum"""
    fg = ctx.mod("fermi_gas")
    b, mu = ctx.real("beta", 1e-3, 1e4, pos=True), ctx.real("mu", -1000, 1000)
    ks = [ctx.real("k%d" % i, -100, 100) for i in range(2)]
    ts = [ctx.real("t0", 1e-3, 1000, pos=True), -ctx.real("t1", 1e-3, 1000, pos=True)]
    g, dg = fg.fg_kspace_gfns(b, mu, ctx.np.array(ks), ctx.np.array(ts), type, "1d")
    for i in range(2):
        rg, rd = ref(ctx, b, mu, band(ctx, [ks[i]]), ts[i], type)
        ctx.eq(g[i], rg, type + " function")


def momenta(n, dim):
    k = [2 * np.pi * i / n for i in range(n)]
    return [(a,) for a in k] if dim == "1d" else [(a, c) for a in k for c in k]


def realspace(ctx, type, dim, n, nb=1, nm=1, zero=False):
    """lattice Fourier transform over all allowed momenta, for every separation"""
    fg = ctx.mod("fermi_gas")
    bs = [ctx.real("beta%d" % i, 1e-3, 1e4, pos=True) for i in range(nb)]
    ms = [ctx.real("mu%d" % i, -1000, 1000) for i in range(nm)]
    t = 0.0 if zero else tt(ctx)
    r = (ctx.choice("rx", n + 1) - 1, ctx.choice("ry", n + 1) - 1 if dim == "2d" else 0)
    B = bs[0] if nb == 1 else ctx.np.array(bs)
    M = ms[0] if nm == 1 else ctx.np.array(ms)
    g, dg = fg.fg_realspace_gfn(B, M, corr_index=r, time=t, nsites=n, dim=dim, type=type)
    ks = momenta(n, dim)
    for i in range(max(nb, nm)):
        b, mu = bs[i if nb > 1 else 0], ms[i if nm > 1 else 0]
        a = 0
        da = 0
        for k in ks:
            ph = np.exp(1j * sum(x * y for x, y in zip(k, r)))
            rg, rd = ref(ctx, b, mu, float(sum(-2 * np.cos(x) for x in k)), t, type)
            a = a + ph * rg
            da = da + ph * rd
        one = max(nb, nm) == 1
        ctx.eq(g if one else g[i], a / len(ks), type + " function")
        if type != "time-ordered":
            ctx.eq(dg if one else dg[i], da / len(ks), "derivative with respect to the chemical potential")


def anticommutator(ctx, dim, n):
    """equal-time anticommutator: G> - G< = -i on the same site, 0 otherwise"""
    fg = ctx.mod("fermi_gas")
    b, mu = ctx.real("beta", 1e-3, 1e4, pos=True), ctx.real("mu", -1000, 1000)
    r = (ctx.choice("rx", n), ctx.choice("ry", n) if dim == "2d" else 0)
    a = fg.fg_realspace_gfn(b, mu, corr_index=r, nsites=n, dim=dim, type="greater")[0]
    c = fg.fg_realspace_gfn(b, mu, corr_index=r, nsites=n, dim=dim, type="lesser")[0]
    ctx.eq(a - c, -1j if r == (0, 0) else 0.0, "equal-time anticommutator")


def rejected(ctx):
    fg = ctx.mod("fermi_gas")
    b, mu, k = ctx.real("beta", 1e-3, 1e4, pos=True), ctx.real("mu", -1000, 1000), ctx.real("k", -100, 100)
    ctx.raises(lambda: fg.fg_kspace_gfns(b, mu, k, 0.0, "other", "1d"), "unknown function is rejected")
    ctx.raises(lambda: fg.fg_kspace_gfns(b, mu, k, 0.0, "lesser", "3d"), "unknown dimension is rejected")
    ctx.raises(lambda: fg.fg_realspace_gfn(b, mu, nsites=3, dim="3d"), "unknown dimension is rejected")
    ctx.raises(lambda: fg.fg_realspace_gfn(ctx.np.array([b, b, b]), ctx.np.array([mu, mu]), nsites=3), "mismatched sizes are rejected")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for ty in TYPES:
        for d in ("1d", "2d"):
            for n in (1, 3):
                T.append((kspace, dict(type=ty, dim=d, n=n)))
            T.append((kspace_zero_t, dict(type=ty, dim=d)))
        for n in (2, 3, 4, 5) + ((6, 8) if th else ()):
            T.append((realspace, dict(type=ty, dim="1d", n=n), 300))
        for n in (2, 3) + ((4,) if th else ()):
            T.append((realspace, dict(type=ty, dim="2d", n=n), 600))
        T.append((several_times, dict(type=ty)))
    for ty in ("greater", "lesser"):
        T.append((kspace, dict(type=ty, dim="2d", n=2, zero=True)))
        T.append((realspace, dict(type=ty, dim="1d", n=4, zero=True)))
        for nb, nm in ((2, 1), (1, 2), (2, 2), (3, 3)):
            T.append((realspace, dict(type=ty, dim="1d", n=3, nb=nb, nm=nm), 300))
    T.append((realspace, dict(type="lesser", dim="2d", n=2, nb=2, nm=2), 300))
    for d, n in (("1d", 2), ("1d", 5), ("2d", 2), ("2d", 3)):
        T.append((anticommutator, dict(dim=d, n=n)))
    T.append((rejected, {}))
    return T
