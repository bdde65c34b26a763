"""C03 spin Hamiltonian and spin algebra"""
import numpy as np
from .common import *

BOUNDS = ("spins 1/2, 1, 3/2, 2 (thorough: 5/2; operators up to spin 3, thorough 4) on 1..3 sites (spin 1/2: 1..4, thorough 5); couplings: every real symmetric matrix per "
          "component, fields: every real vector, +-1000; special states: 1..4 sites")
ASSUMPTIONS = ["real couplings (twisted phases on spin couplings are outside)"]


def spinop(s):
    """textbook S+, S-, Sz in the basis m = s, s-1, ..., -s"""
    d = int(2 * s + 1)
    sp_ = np.zeros((d, d))
    for c in range(1, d):
        m = s - c
        sp_[c - 1, c] = np.sqrt((s - m) * (s + m + 1))
    sm = sp_.T
    return 0.5 * (sp_ + sm), -0.5j * (sp_ - sm), np.diag([s - k for k in range(d)]), sp_, sm


def cls(ctx):
    return ctx.mod("ed_spins").spinSystem


def symm(ctx, name, n, nonzero):
    M = ctx.np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            v = ctx.real("%s_%d%d" % (name, i, j), nonzero=nonzero)
            M[i, j] = v
            M[j, i] = v
    return M


def href(ctx, n, s, J, h):
    ops = spinop(s)
    d = int(2 * s + 1)
    H = ctx.np.zeros((d ** n, d ** n), dtype=complex)
    for a in range(3):
        for i in range(n):
            H = H - h[a][i] * emb(n, i, ops[a])
            for j in range(i):
                H = H + 2 * J[a][i, j] * (emb(n, i, ops[a]) @ emb(n, j, ops[a]))
    return H


def emb(n, i, op):
    d = op.shape[0]
    return np.kron(np.kron(np.eye(d ** i), op), np.eye(d ** (n - i - 1)))


def hamiltonian(ctx, n, s, zero=None):
    J = [symm(ctx, "J" + a, n, a != zero) for a in "xyz"]
    h = [ctx.reals("h" + a, n, nonzero=(a != zero)) for a in "xyz"]
    m = cls(ctx)(chain(ctx, n), J[0] if n > 1 else 0.0, J[1] if n > 1 else 0.0, J[2] if n > 1 else 0.0, h[0], h[1], h[2], spin=s)
    H = m.createH()
    ctx.eq(H, href(ctx, n, s, J, h), "Hamiltonian matrix")
    ctx.eq(H, dag(ctx, H), "Hermitian")


def uniform(ctx, nx, ny, o1, s, free=False):
    g = chain(ctx, nx, ny, o1)
    n = g.nsites
    j = [ctx.real("j" + a, nonzero=not free) for a in "xyz"]
    f = [ctx.real("h" + a, nonzero=not free) for a in "xyz"]
    m = cls(ctx)(g, *j, *f, spin=s)
    J = [ctx.np.zeros((n, n)) for _ in range(3)]
    for a in range(3):
        for i in range(n):
            for k in range(n):
                dx, dy = abs(float(g.xlocs[i] - g.xlocs[k])), abs(float(g.ylocs[i] - g.ylocs[k]))
                if abs(dx + dy - 1) < 1e-9 or (not o1 and dy < 1e-9 and abs(dx - (nx - 1)) < 1e-9 and nx > 2):
                    J[a][i, k] = j[a]
    h = [[f[a]] * n for a in range(3)]
    ctx.eq(m.createH(), href(ctx, n, s, J, h), "Hamiltonian matrix")


def list_coupling(ctx, n):
    """a list of n couplings: bond i..i+1, the last one closing the chain"""
    j = ctx.reals("j", n, nonzero=True)
    m = cls(ctx)(chain(ctx, n), jz=j)
    J = [ctx.np.zeros((n, n)) for _ in range(3)]
    for i in range(n):
        a, b = i, (i + 1) % n
        J[2][a, b] = j[i]
        J[2][b, a] = j[i]
    ctx.eq(m.createH(), href(ctx, n, 0.5, J, [[0] * n] * 3), "Hamiltonian matrix")


def rydberg(ctx, n, free=False):
    """with Rydberg detunings the z coupling becomes 2 J n_i n_j of the up-spin projectors, up to a constant"""
    J = symm(ctx, "J", n, not free)
    hx = ctx.reals("hx", n, nonzero=True)
    hz = ctx.reals("hz", n, nonzero=not free)
    m = cls(ctx)(chain(ctx, n), jz=J, hx=hx, hz=hz, use_ryd_detunes=True)
    ops = spinop(0.5)
    up = np.diag([1.0, 0.0])
    H = ctx.np.zeros((2 ** n, 2 ** n), dtype=complex)
    for i in range(n):
        H = H - hx[i] * emb(n, i, ops[0]) - hz[i] * emb(n, i, ops[2])
        for j in range(i):
            H = H + 2 * J[i, j] * (emb(n, i, up) @ emb(n, j, up)) - 0.5 * J[i, j] * np.eye(2 ** n)
    ctx.eq(m.createH(), H, "Rydberg Hamiltonian")


def algebra(ctx, s):
    """spin operators: matrix elements and su(2) commutators, for any rotation axis"""
    m = cls(ctx)(chain(ctx, 1), spin=s)
    x, y, z, p, q = spinop(s)
    c = ctx.cplx("c")
    for name, got, ref in (("Sx", m.sx, x), ("Sy", m.sy, y), ("Sz", m.sz, z), ("S+", m.splus, p), ("S-", m.sminus, q)):
        ctx.eq(c * ctx.dense(got), c * ref, name)
    a, b = ctx.reals("a", 3), ctx.reals("b", 3)
    S = [ctx.dense(o) for o in (m.sx, m.sy, m.sz)]
    A = a[0] * S[0] + a[1] * S[1] + a[2] * S[2]
    Bm = b[0] * S[0] + b[1] * S[1] + b[2] * S[2]
    cr = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    ctx.eq(A @ Bm - Bm @ A, 1j * (cr[0] * S[0] + cr[1] * S[1] + cr[2] * S[2]), "[a.S, b.S] = i (a x b).S")
    ctx.eq(S[0] @ S[0] + S[1] @ S[1] + S[2] @ S[2], s * (s + 1) * np.eye(int(2 * s + 1)), "S^2")
    ctx.true(m.nbasis == int(2 * s + 1), "local dimension")
    if s == 0.5:
        for k, P in enumerate((m.pauli_x, m.pauli_y, m.pauli_z)):
            ctx.eq(c * S[k], 0.5 * c * P, "spin operators are half the Pauli matrices")


def spin_flip(ctx, n, s):
    """the global up-down exchange is a unitary involution mapping every basis state to its spin flip"""
    m = cls(ctx)(chain(ctx, n), spin=s)
    F = ctx.dense(m.get_swap_up_down_op())
    d = int(2 * s + 1)
    X = np.fliplr(np.eye(d))
    ref = np.array([[1.0]])
    for _ in range(n):
        ref = np.kron(ref, X)
    v = ctx.cplxs("v", d ** n) if d ** n <= 16 else ctx.reals("v", d ** n)
    ctx.eq(F @ v, ref @ v, "spin flip")


def labels(ctx, n):
    m = cls(ctx)(chain(ctx, n))
    L = ctx.dense(m.get_state_vects())
    w = ctx.reals("w", n)
    ref = np.array([[1 - x for x in digits(b, n)] for b in range(2 ** n)], dtype=float)
    ctx.eq(L @ w, ref @ w, "basis state labels: 1 is up, first site leftmost")
    par = m.get_state_parity()
    c = ctx.real("c")
    ctx.eq(c * ctx.np.array(par, dtype=float).reshape(-1), c * (ref.sum(1) % 2), "parity of the number of up spins")


def special(ctx, n):
    m = cls(ctx)(chain(ctx, n))
    st, desc = m.find_special_states(n, 1)
    st = ctx.dense(st)
    c = ctx.real("c")
    D = 2 ** n
    ref = {}
    e = lambda dg: np.eye(D)[:, index(dg)]
    ref["AllUp"] = e([0] * n)
    ref["AllDn"] = e([1] * n)
    if n > 1:
        ref["AFM1"] = e([k % 2 for k in range(n)])
        ref["AFM2"] = e([(k + 1) % 2 for k in range(n)])
    ref["AllPlus"] = np.ones(D) / np.sqrt(D)
    ref["AllMinus"] = np.array([(-1.0) ** sum(digits(b, n)) for b in range(D)]) / np.sqrt(D)
    ref["SymmExc"] = sum(e([0 if k == q else 1 for k in range(n)]) for q in range(n)) / np.sqrt(n)
    for nm, v in ref.items():
        ctx.true(nm in desc, "described")
        ctx.eq(c * st[:, desc.index(nm)], c * v, nm)


def npairs(ctx, n):
    """counts pairs of up spins over the connected pairs"""
    m = cls(ctx)(chain(ctx, n))
    npair = n * (n - 1) // 2
    bits = ctx.choice("conn", 2 ** npair)
    conn = np.array([(bits >> k) & 1 for k in range(npair)])
    if bits == 0:
        return
    c = ctx.real("c")
    pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
    up = np.diag([1.0, 0.0])
    ref = sum(emb(n, a, up) @ emb(n, b, up) for (a, b), f in zip(pairs, conn) if f)
    ctx.eq(c * ctx.dense(m.get_npairs_op(conn)), c * ref, "pair counting operator")


def vdw(ctx, n):
    """van der Waals couplings between sites closer than the cutoff"""
    xs = [0, 1, 2, 3][:n]
    ys = [0, 0, 1, 1][:n]
    m = cls(ctx)(ctx.mod("ed_geometry").Geometry.createNonPeriodicGeometry(xs, ys))
    c6 = ctx.real("c6", nonzero=True)
    J = m.get_interaction_mat_c6(c6)
    for i in range(n):
        for j in range(n):
            d2 = (xs[i] - xs[j]) ** 2 + (ys[i] - ys[j]) ** 2
            if i == j:
                ctx.eq(J[i, j], 0.0, "no self interaction")
            elif d2 ** 0.5 <= 1.5:
                ctx.eq(J[i, j], c6 / d2 ** 3, "C6 / r^6")


def rejects(ctx):
    x = ctx.real("x", nonzero=True)
    g = chain(ctx, 3)
    S = cls(ctx)
    ctx.raises(lambda: S(g, jx=x * np.ones((2, 2))), "coupling shape")
    ctx.raises(lambda: S(g, hx=x * np.ones(2)), "field shape")
    ctx.raises(lambda: S(g, hz="a"), "field type")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for n, s in [(1, .5), (2, .5), (3, .5), (1, 1), (2, 1), (1, 1.5), (2, 1.5), (4, .5), (3, 1), (2, 2)] + ([(5, .5), (1, 2.5), (2, 2.5), (3, 1.5)] if th else []):
        T.append((hamiltonian, dict(n=n, s=s)))
    for z in "xyz":
        T.append((hamiltonian, dict(n=2, s=.5, zero=z)))
        T.append((hamiltonian, dict(n=3, s=.5, zero=z), 300))
        T.append((hamiltonian, dict(n=2, s=1, zero=z)))
    for nx, ny, o1, s in [(1, 1, True, .5), (2, 1, True, .5), (3, 1, True, .5), (3, 1, False, .5), (2, 2, True, .5), (4, 1, False, .5),
                          (2, 1, True, 1), (3, 1, False, 1)] + ([(3, 2, True, .5), (5, 1, False, .5), (2, 1, True, 2.5)] if th else []):
        T.append((uniform, dict(nx=nx, ny=ny, o1=o1, s=s)))
    for nx, o1, s in [(2, True, .5), (3, False, .5), (2, True, 1)]:
        T.append((uniform, dict(nx=nx, ny=1, o1=o1, s=s, free=True), 300))
    for n in (3, 4):
        T.append((list_coupling, dict(n=n)))
    for n in (2, 3):
        T.append((rydberg, dict(n=n)))
    T.append((rydberg, dict(n=2, free=True)))
    for s in [.5, 1, 1.5, 2, 2.5, 3] + ([3.5, 4] if th else []):
        T.append((algebra, dict(s=s)))
    for n, s in [(1, .5), (2, .5), (3, .5), (4, .5), (2, 1), (1, 1.5)] + ([(5, .5), (3, 1), (2, 1.5)] if th else []):
        T.append((spin_flip, dict(n=n, s=s)))
    for n in (1, 2, 3, 4) + ((5, 6) if th else ()):
        T.append((labels, dict(n=n)))
        T.append((special, dict(n=n)))
    for n in (2, 3) + ((4,) if th else ()):
        T.append((npairs, dict(n=n)))
    T.append((vdw, dict(n=4)))
    T.append((rejects, {}))
    return T
