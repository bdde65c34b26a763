"""shared reference constructions (independent of the code under test)"""
import itertools
import numpy as np


def zeros(ctx, shape):
    return ctx.np.zeros(shape, dtype=complex)


def digits(b, n, base=2):
    """occupation vector of basis state b, first logical site is the most significant digit"""
    out = []
    for k in range(n):
        out.append((b // base ** (n - 1 - k)) % base)
    return out


def index(dg, base=2):
    v = 0
    for d in dg:
        v = v * base + d
    return v


def embed(ctx, n, site, op, base=2, fermion=False):
    """operator op on logical site `site` of n; fermionic sign counts occupied modes of higher index"""
    N = base ** n
    out = zeros(ctx, (N, N))
    for b in range(N):
        dg = digits(b, n, base)
        s = (-1) ** sum(dg[site + 1:]) if fermion else 1
        for k in range(base):
            d2 = list(dg)
            d2[site] = k
            out[index(d2, base), b] = out[index(d2, base), b] + s * op[k, dg[site]]
    return out


def embed2(ctx, n, s1, op1, s2, op2, base=2):
    """op1 on s1 times op2 on s2 (different sites, commuting embedding)"""
    N = base ** n
    out = zeros(ctx, (N, N))
    for b in range(N):
        dg = digits(b, n, base)
        for k in range(base):
            for l in range(base):
                v = op1[k, dg[s1]] * op2[l, dg[s2]]
                d2 = list(dg)
                d2[s1], d2[s2] = k, l
                out[index(d2, base), b] = out[index(d2, base), b] + v
    return out


def cdag_c(N_modes, i, j):
    """real matrix of c^dag_i c_j with sign from higher-index occupied modes"""
    N = 2 ** N_modes
    out = np.zeros((N, N))
    for b in range(N):
        dg = digits(b, N_modes)
        if not dg[j]:
            continue
        s = (-1) ** sum(dg[j + 1:])
        d2 = list(dg)
        d2[j] = 0
        if d2[i]:
            continue
        s *= (-1) ** sum(d2[i + 1:])
        d2[i] = 1
        out[index(d2), b] += s
    return out


def num(N_modes, i):
    N = 2 ** N_modes
    return np.diag([float(digits(b, N_modes)[i]) for b in range(N)])


def matmul(ctx, *ms):
    out = ctx.dense(ms[0])
    for m in ms[1:]:
        out = out @ ctx.dense(m)
    return out


def dag(ctx, m):
    return ctx.np.conj(ctx.np.transpose(ctx.dense(m)))


def chain(ctx, n, ny=1, open1=True, open2=True, phase1=0.0, phase2=0.0):
    G = ctx.mod("ed_geometry").Geometry
    return G.createSquareGeometry(n, ny, phase1, phase2, bc1_open=open1, bc2_open=open2)
