"""C25 Matsubara frequencies, spectral representations, imaginary-time Fourier transforms, free propagators"""
import numpy as np
from .common import *

BOUNDS = ("every inverse temperature 1e-3..1e4, cutoff up to four (thorough seven) positive frequencies; every real-frequency grid of 2..4 points (thorough 6) with any spacing, "
          "spectral functions and Green's functions of any value +-1000, 1..3 imaginary times/frequencies; levels +-30 (times inverse temperature up to 600), broadening 1e-3..10")
ASSUMPTIONS = ["a frequency within 1e-6 of the cutoff may be in or out (rounding)", "bosonic kernels away from the pole at zero frequency",
               "free propagator away from the step at zero imaginary time"]


def matsubara(ctx, kind, nmax):
    """all odd (even) multiples of pi/beta below the cutoff, ascending"""
    g = ctx.mod("greens_fns")
    b = ctx.real("beta", 1e-3, 1e4, pos=True)
    x = ctx.real("x", 0.01, 2 * nmax + 1, pos=True)     # cutoff in units of pi/beta
    for k in range(0, 2 * nmax + 3):
        ctx.assume(ctx.np.abs(x - k) > 1e-6)
    cut = x * np.pi / b
    kw = {} if kind is None else dict(format=kind)
    f = g.get_matsubara_frqs(b, cut, **kw)
    odd = kind != "boson"
    want = [k for k in range(-2 * nmax - 3, 2 * nmax + 4) if k % 2 == int(odd) and bool(abs(k) < x)]
    ctx.eq(len(f), len(want), "number of frequencies below the cutoff")
    for v, k in zip(f, want):
        ctx.eq(v * b, k * np.pi * (1 + 0 * b), "odd multiples of pi/beta" if odd else "even multiples of pi/beta")


def matsubara_default(ctx, kind):
    g = ctx.mod("greens_fns")
    b = ctx.real("beta", 0.1, 0.9, pos=True)
    for k in range(12):
        ctx.assume(ctx.np.abs(b * 30 - k * np.pi) > 1e-5)
    f = g.get_matsubara_frqs(b, format=kind)
    want = [k for k in range(-12, 13) if k % 2 == int(kind == "fermion") and bool(abs(k) * np.pi < 30 * b)]
    ctx.eq(len(f), len(want), "default cutoff 30")
    for v, k in zip(f, want):
        ctx.eq(v * b, k * np.pi * (1 + 0 * b), "multiples of pi/beta")


def wgrid(ctx, n, lo=-50):
    w = [ctx.real("w", lo, 50)]
    for k in range(1, n):
        w.append(w[-1] + ctx.real("dw%d" % k, 1e-3, 50, pos=True))
    return w


def trapz(y, x):
    return sum((y[i] + y[i + 1]) * (x[i + 1] - x[i]) / 2 for i in range(len(x) - 1))


def frq_rep(ctx, n, m):
    g = ctx.mod("greens_fns")
    w = wgrid(ctx, n)
    A = ctx.reals("A", n)
    wn = [ctx.real("wn%d" % k, 0.01, 50, pos=True) for k in range(m)]
    if ctx.choice("neg", 2):
        wn = [-x for x in wn]
    got = g.get_grnfn_imagfrq_spectralfn(ctx.np.array(wn), ctx.np.array(w), A)
    K = g.get_grnfn_imagfrq_spectralfn_kernel(ctx.np.array(wn), ctx.np.array(w))
    ctx.eq(ctx.np.shape(got), (m,), "one value per frequency")
    ctx.eq(ctx.np.shape(K), (m, n), "one kernel row per frequency")
    for k in range(m):
        # 1/(i wn - w) = (-w - i wn)/(w^2 + wn^2)
        y = [A[j] * (-w[j] - 1j * wn[k]) / (w[j] ** 2 + wn[k] ** 2) for j in range(n)]
        ref = trapz(y, w) / (2 * np.pi)
        ctx.eq(got[k], ref, "spectral representation")
        ctx.eq(sum(K[k, j] * A[j] for j in range(n)), ref, "kernel times spectral function")


def time_rep(ctx, n, m, kind, given):
    g = ctx.mod("greens_fns")
    b = ctx.real("beta", 1e-3, 1e4, pos=True)
    w = wgrid(ctx, n) if kind == "fermion" else wgrid(ctx, n, 0.01)
    A = ctx.reals("A", n)
    ts = [ctx.real("tau%d" % k, 0, 50) for k in range(m)]
    kw = dict(format=kind) if given else {}
    got = g.get_grnfn_imagtime_spectralfn(ctx.np.array(ts), b, ctx.np.array(w), A, **kw)
    K = g.get_grnfn_imagtime_spectralfn_kernel(ctx.np.array(ts), b, ctx.np.array(w), **kw)
    ctx.eq(ctx.np.shape(got), (m,), "one value per time")
    ctx.eq(ctx.np.shape(K), (m, n), "one kernel row per time")
    s = 1 if kind == "fermion" else -1
    for k in range(m):
        y = [A[j] * ctx.np.exp(-w[j] * ts[k]) / (1 + s * ctx.np.exp(-b * w[j])) for j in range(n)]
        ref = -trapz(y, w) / (2 * np.pi)
        ctx.eq(got[k], ref, "spectral representation")
        ctx.eq(sum(K[k, j] * A[j] for j in range(n)), ref, "kernel times spectral function")


def bad_format(ctx):
    g = ctx.mod("greens_fns")
    b = ctx.real("beta", 1e-3, 1e4, pos=True)
    x = np.array([0.1, 0.2])
    ctx.raises(lambda: g.get_matsubara_frqs(b, 10, format="other"), "unknown statistics are rejected")
    ctx.raises(lambda: g.get_grnfn_imagtime_spectralfn(x, b, x, x, format="other"), "unknown statistics are rejected")
    ctx.raises(lambda: g.get_grnfn_imagtime_spectralfn_kernel(x, b, x, format="other"), "unknown statistics are rejected")
    ctx.raises(lambda: g.get_noninteracting_gfn_tau(x, 0.3, b, format="other"), "unknown statistics are rejected")


def time_ft(ctx, n, m, extra):
    """trapezoidal integral over the supplied times inside [0, beta]"""
    g = ctx.mod("greens_fns")
    b = ctx.real("beta", 1e-3, 1e4, pos=True)
    fr = sorted_fracs(ctx, n)
    ts = [b * f for f in fr]
    G = ctx.cplxs("G", n + len(extra))
    G = list(G)
    wn = [ctx.real("wn%d" % k, -50, 50) for k in range(m)]
    d = ctx.real("d", 0.01, 5, pos=True)
    allt = (([-d] if "below" in extra else []) + ts + ([b + d] if "above" in extra else []))
    got = g.grnfn_imagtime_ft(ctx.np.array(wn), ctx.np.array(allt), ctx.np.array(G), b)
    ctx.eq(ctx.np.shape(got), (m,), "one value per frequency")
    k0 = 1 if "below" in extra else 0
    for k in range(m):
        y = [G[k0 + j] * ctx.np.exp(1j * wn[k] * ts[j]) for j in range(n)]
        ctx.eq(got[k], trapz(y, ts), "Fourier integral over one period")


def sorted_fracs(ctx, n):
    """0 = f0 < f1 < ... <= 1"""
    if n == 1:
        return [0.0]
    out = [0.0]
    gaps = [ctx.real("f%d" % k, 0.05, 1, pos=True) for k in range(n - 1)]
    tot = sum(gaps)
    acc = 0
    for q in gaps[:-1]:
        acc = acc + q
        out.append(acc / tot)
    return out + [1.0]


def time_ft_numbers(ctx, beta, n):
    """given inverse temperatures (binary rounding of the end point included), every Green's function"""
    g = ctx.mod("greens_fns")
    b = beta[0] / beta[1]
    ts = np.linspace(0, b, n)
    G = ctx.cplxs("G", n)
    wn = np.pi / b * np.array([-1.0, 1, 3])
    got = g.grnfn_imagtime_ft(wn, ts, G, b)
    for k in range(3):
        y = [G[j] * np.exp(1j * wn[k] * ts[j]) for j in range(n)]
        ctx.eq(got[k], trapz(y, ts), "Fourier integral over one period")


def frq_ft(ctx, n, m):
    g = ctx.mod("greens_fns")
    b = ctx.real("beta", 1e-3, 1e4, pos=True)
    G = ctx.cplxs("G", n)
    wn = [ctx.real("wn%d" % k, -50, 50) for k in range(n)]
    ts = [ctx.real("t%d" % k, -50, 50) for k in range(m)]
    got = g.grnfn_imagfrq_ft(ctx.np.array(ts), ctx.np.array(wn), G, b)
    ctx.eq(ctx.np.shape(got), (m,), "one value per time")
    for k in range(m):
        ctx.eq(got[k], sum(G[j] * ctx.np.exp(-1j * wn[j] * ts[k]) for j in range(n)) / b, "Matsubara sum")


def frq_ft_antiperiodic(ctx, n):
    """on the fermionic (bosonic) frequencies the transform is antiperiodic (periodic)"""
    g = ctx.mod("greens_fns")
    b = ctx.real("beta", 1e-3, 1e4, pos=True)
    G = ctx.cplxs("G", n)
    kind = ctx.choice("kind", 2)
    wn = ctx.np.array([(2 * k + 1 - kind) * np.pi / b for k in range(-(n // 2), n - n // 2)])
    t = ctx.real("t", 0.01, 50)
    a = g.grnfn_imagfrq_ft(ctx.np.array([t, t - b]), wn, G, b)
    ctx.eq(a[1], a[0] if kind else -a[0], "(anti)periodic in imaginary time")


def free_time(ctx, n):
    g = ctx.mod("greens_fns")
    b, e = ctx.real("beta", 1e-3, 20, pos=True), ctx.real("e", -30, 30)
    f = 1 / (1 + ctx.np.exp(b * e))
    h = 1 / (1 + ctx.np.exp(-b * e))
    fr = [ctx.real("x%d" % k, 0.001, 0.999, pos=True) for k in range(n)]
    ts = [b * x for x in fr]
    p = g.get_noninteracting_gfn_tau(ctx.np.array(ts), e, b)
    m = g.get_noninteracting_gfn_tau(ctx.np.array([t - b for t in ts]), e, b, format="fermion")
    for k in range(n):
        ctx.eq(p[k], -ctx.np.exp(-e * ts[k]) * h, "propagator at positive time")
        ctx.eq(m[k], ctx.np.exp(-e * (ts[k] - b)) * f, "propagator at negative time")
        ctx.eq(m[k] + p[k], 0.0, "antiperiodic")
    q = g.get_noninteracting_gfn_tau(ctx.np.array([b, -b]), e, b)
    ctx.eq(q[0], -f, "full period")
    ctx.eq(q[1], h, "minus a full period")


def free_frq(ctx, nmax):
    g = ctx.mod("greens_fns")
    b, e = ctx.real("beta", 1e-3, 20, pos=True), ctx.real("e", -30, 30)
    x = ctx.real("x", 0.01, 2 * nmax + 1, pos=True)
    for k in range(2 * nmax + 3):
        ctx.assume(ctx.np.abs(x - k) > 1e-6)
    G, w = g.get_noninteracting_gfn_imagfrq(x * np.pi / b, e, b)
    want = [k for k in range(-2 * nmax - 3, 2 * nmax + 4) if k % 2 and bool(abs(k) < x)]
    ctx.eq(len(w), len(want), "frequencies below the cutoff")
    ctx.eq(len(G), len(want), "one value per frequency")
    for v, wn, k in zip(G, w, want):
        ctx.eq(wn * b, k * np.pi * (1 + 0 * b), "odd multiples of pi/beta")
        ctx.eq(v * (1j * k * np.pi / b - e), 1.0, "free propagator")


def free_spectral(ctx, n):
    g = ctx.mod("greens_fns")
    e, eta = ctx.real("e", -20, 20), ctx.real("eta", 1e-3, 10, pos=True)
    w = [ctx.real("w%d" % k, -50, 50) for k in range(n)]
    A = g.get_noninteracting_spectral_fn(ctx.np.array(w), e, eta)
    for k in range(n):
        ctx.eq(A[k] * (eta ** 2 + (w[k] - e) ** 2), 2 * eta, "Lorentzian of weight 2 pi")
    s = g.get_noninteracting_spectral_fn(ctx.np.array([e + w[0], e - w[0]]), e, eta)
    ctx.eq(s[0], s[1], "symmetric about the level")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for k in (None, "fermion", "boson"):
        T.append((matsubara, dict(kind=k, nmax=7 if th else 4), 300))
    for k in ("fermion", "boson"):
        T.append((matsubara_default, dict(kind=k)))
    for n, m in ((2, 1), (2, 2), (3, 1), (3, 2), (4, 1)) + (((6, 3), (5, 2)) if th else ()):
        T.append((frq_rep, dict(n=n, m=m), 300))
        for k in ("fermion", "boson"):
            T.append((time_rep, dict(n=n, m=m, kind=k, given=True), 300))
    T.append((time_rep, dict(n=3, m=2, kind="fermion", given=False), 300))
    T.append((bad_format, {}))
    for n, m, x in ((2, 1, []), (3, 2, []), (4, 1, []), (2, 1, ["above"]), (3, 1, ["below"]), (3, 2, ["below", "above"])):
        T.append((time_ft, dict(n=n, m=m, extra=x), 300))
    for b in ((1, 1), (2, 3), (1, 3), (7, 3), (5, 7), (10, 3)):
        T.append((time_ft_numbers, dict(beta=list(b), n=4)))
    for n, m in ((1, 1), (2, 2), (4, 1)) + (((6, 3),) if th else ()):
        T.append((frq_ft, dict(n=n, m=m)))
    for n in (1, 2, 4):
        T.append((frq_ft_antiperiodic, dict(n=n)))
    for n in (1, 2):
        T.append((free_time, dict(n=n)))
        T.append((free_spectral, dict(n=n)))
    for n in (1, 3) + ((6,) if th else ()):
        T.append((free_frq, dict(nmax=n)))
    return T
