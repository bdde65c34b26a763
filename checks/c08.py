"""C08 projectors onto symmetry sectors"""
import itertools
import numpy as np
from .common import *
from . import c02, c03
from .c05 import perm_cycles, order_of

BOUNDS = ("cyclic groups of order 1..6 (thorough 8) acting by every permutation of 1..4 basis states dressed with every choice of "
          "phases that keeps T^n = 1; translation x translation on tori up to 3x2; dihedral groups D2..D7 and (Z3xZ3):C4v acting on "
          "one-particle and many-body spaces; every vector, every operator commuting with the group up to the stated dimensions")
ASSUMPTIONS = ["representation matrices of groups with irreducible representations of dimension two or more are concrete "
               "(their projectors come from LAPACK's SVD, executed as is); the states they act on are symbolic"]


def check_projs(ctx, projs, D, gens, irreps=None, H=None, label=""):
    """orthonormal rows, completeness, mutual orthogonality, invariance"""
    z = ctx.cplxs("z", D)
    tot = 0
    dims = 0
    Pd = [ctx.dense(p) for p in projs]
    for i, p in enumerate(Pd):
        if p.shape[0] == 0:
            continue
        dims += p.shape[0]
        w = ctx.np.conj(ctx.np.transpose(p)) @ (p @ z)
        tot = tot + w
        u = ctx.reals("u%d" % i, p.shape[0])
        ctx.eq((p @ np.conj(p.T)) @ u, u, label + "rows orthonormal")
        for g in gens:
            # the sector is mapped to itself: Q g z = g Q z
            gd = ctx.dense(g)
            ctx.eq(np.conj(p.T) @ (p @ (gd @ z)), gd @ w, label + "sector invariant under the group")
    ctx.true(dims == D, label + "dimensions add up")
    ctx.eq(tot, z, label + "sectors resolve the identity")
    if H is not None:
        Hz = ctx.dense(H)
        for i, p in enumerate(Pd):
            for j, q in enumerate(Pd):
                if i != j and p.shape[0] and q.shape[0]:
                    ctx.eq(p @ Hz @ np.conj(q.T), 0.0 * ctx.real("zero", 1, 1), label + "H has no elements between sectors")


def monomial(ctx, d, k):
    """T = permutation dressed by phases, T^k = 1"""
    pi, _ = perm_cycles(ctx, d, flip=False)
    if k % order_of(pi):
        return None, None
    ph = ctx.reals("ph", d, -3, 3)
    T = ctx.np.zeros((d, d), dtype=complex)
    for i in range(d):
        T[pi[i], i] = ctx.np.exp(1j * (ph[pi[i]] - ph[i]))
    return T, pi


def zn(ctx, d, k):
    S = ctx.mod("ed_symmetry")
    T, pi = monomial(ctx, d, k)
    if T is None:
        return
    projs, ks = S.getZnProjectors(ctx.sp.csr_matrix(T), k)
    ctx.true(len(projs) == k, "one projector per irreducible representation")
    c = ctx.real("c")
    ctx.eq(c * np.asarray(ks), c * 2 * np.pi * np.arange(k) / k, "momenta")
    z = ctx.cplxs("z", d)
    tot, dims = 0, 0
    for r in range(k):
        p = ctx.dense(projs[r])
        dims += p.shape[0]
        if not p.shape[0]:
            continue
        w = np.conj(p.T) @ (p @ z)
        tot = tot + w
        ctx.eq(p @ np.conj(p.T), np.eye(p.shape[0]), "rows orthonormal")
        ctx.eq(T @ w, np.exp(-2j * np.pi * r / k) * w, "T is multiplication by exp(-i k_r) in sector r")
    ctx.true(dims == d, "dimensions add up")
    ctx.eq(tot, z, "sectors resolve the identity")


def zn_haml(ctx, n, model):
    """translations of a uniform ring: sector blocks reproduce H"""
    S = ctx.mod("ed_symmetry")
    G = ctx.mod("ed_geometry").Geometry
    g = G.createSquareGeometry(n, 1, 0.0, 0.0, bc1_open=False, bc2_open=True)
    cyc, k = S.findSiteCycles(S.getTranslFn([1, 0]), g)
    if model == "fermion":
        t, mu = ctx.real("t", nonzero=True), ctx.real("mu", nonzero=True)
        v = ctx.real("v", nonzero=True)
        m = c02.fermi(ctx)(g, 0.0, t, mus=mu, us_same_species=v, nspecies=1)
    else:
        jx, jz, h = ctx.real("jx", nonzero=True), ctx.real("jz", nonzero=True), ctx.real("h", nonzero=True)
        m = c03.cls(ctx)(g, jx, jx, jz, h, 0.0, 0.0, spin=model)
    T = m.get_xform_op(cyc)
    projs, ks = S.getZnProjectors(T, k)
    H = ctx.dense(m.createH())
    tot = 0
    for r, p in enumerate(projs):
        pd = ctx.dense(p)
        if pd.shape[0]:
            tot = tot + np.conj(pd.T) @ ctx.dense(m.createH(projector=p)) @ pd
    ctx.eq(tot, H, "sector Hamiltonians reassemble H")


def transl2d(ctx, nx, ny, N=1):
    S = ctx.mod("ed_symmetry")
    G = ctx.mod("ed_geometry").Geometry
    g = G.createSquareGeometry(nx, ny, 0.0, 0.0, bc1_open=nx < 2, bc2_open=ny < 2)
    c1, k1 = S.findSiteCycles(S.getTranslFn([1, 0]), g)
    c2, k2 = S.findSiteCycles(S.getTranslFn([0, 1]), g)
    m = c02.fermi(ctx)(g, 0.0, 1.0, nspecies=1, ns=N)
    P = m.n_projector
    t1 = P * m.get_xform_op(c1) * P.conj().transpose()
    t2 = P * m.get_xform_op(c2) * P.conj().transpose()
    momenta2d(ctx, t1, k1, t2, k2)


def diagonal2d(ctx, d, k1, k2):
    """commuting generators with any distribution of the states over the momenta, so that sectors may be empty or shared"""
    t = []
    for n, k in (("a", k1), ("b", k2)):
        t.append(ctx.sp.csr_matrix(np.diag([np.exp(2j * np.pi * ctx.choice(n + str(i), k) / k) for i in range(d)])))
    momenta2d(ctx, t[0], k1, t[1], k2)


def momenta2d(ctx, t1, k1, t2, k2):
    S = ctx.mod("ed_symmetry")
    projs, ks1, ks2 = S.get2DTranslationProjectors(t1, k1, t2, k2)
    D = t1.shape[0]
    ctx.true(len(projs) == len(ks1) == len(ks2), "one momentum per projector")
    z = ctx.cplxs("z", D)
    tot, dims = 0, 0
    a, b = ctx.dense(t1), ctx.dense(t2)
    for p, q1, q2 in zip(projs, ks1, ks2):
        p = ctx.dense(p)
        dims += p.shape[0]
        w = np.conj(p.T) @ (p @ z)
        tot = tot + w
        ctx.eq(a @ w, np.exp(-1j * q1) * w, "momentum 1")
        ctx.eq(b @ w, np.exp(-1j * q2) * w, "momentum 2")
        u = ctx.reals("u", p.shape[0])
        ctx.eq((p @ np.conj(p.T)) @ u, u, "rows orthonormal")
    ctx.true(dims == D, "dimensions add up")
    ctx.eq(tot, z, "sectors resolve the identity")


def dihedral_mats(n):
    """regular-polygon site permutations: rotation i->i+1, reflection i->-i"""
    R = np.zeros((n, n))
    F = np.zeros((n, n))
    for i in range(n):
        R[(i + 1) % n, i] = 1
        F[(-i) % n, i] = 1
    return R, F


def chars(n):
    """independent characters in the order of the tables: list of (dim, function (k, s) -> chi(R^k F^s))"""
    out = [(1, lambda k, s: 1.0), (1, lambda k, s: -1.0 if s else 1.0)]
    if n % 2 == 0:
        out += [(1, lambda k, s: (-1.0) ** k), (1, lambda k, s: (-1.0) ** (k + s))]
    for m in {5: (2, 1), 6: (2, 1)}.get(n, range(1, (n + 1) // 2)):
        out.append((2, lambda k, s, m=m: 0.0 if s else 2 * np.cos(2 * np.pi * m * k / n)))
    return out


def dihedral(ctx, n, rep):
    """every sector of D_n carries one irreducible representation; uniform Hamiltonian does not mix them"""
    S = ctx.mod("ed_symmetry")
    G = ctx.mod("ed_geometry").Geometry
    if rep == "regular":
        R1, F1 = dihedral_mats(n)
        D = 2 * n
        R, F = np.zeros((D, D)), np.zeros((D, D))
        for k in range(n):
            for s in range(2):
                R[((k + 1) % n) * 2 + s, k * 2 + s] = 1
                F[((-k) % n) * 2 + (1 - s), k * 2 + s] = 1
        H = None
    elif rep == "sites":
        R, F = dihedral_mats(n)
        D = n
        c = ctx.reals("h", n // 2 + 1)
        H = ctx.np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                H[i, j] = c[min((i - j) % n, (j - i) % n)]
    else:
        g = G.createRegularPolygonGeometry(n)
        cr, kr = S.findSiteCycles(S.getRotFn(n), g)
        cf, kf = S.findSiteCycles(S.getReflFn([0, 1]), g)
        t, v = ctx.real("t", nonzero=True), ctx.real("v", nonzero=True)
        m = c02.fermi(ctx)(g, 0.0, t, us_same_species=v, nspecies=1, ns=rep)
        P = m.n_projector
        R = ctx.dense(P * m.get_xform_op(cr) * P.conj().transpose())
        F = ctx.dense(P * m.get_xform_op(cf) * P.conj().transpose())
        H = m.createH(projector=P)
        D = R.shape[0]
    Rs, Fs = (ctx.sp.csr_matrix(x) for x in (R, F))
    projs = getattr(S, "getD%dProjectors" % n)(Rs, Fs)
    check_projs(ctx, projs, D, [R, F], H=H)
    ch = chars(n)
    ctx.true(len(projs) == len(ch), "one projector per irreducible representation")
    # independent projectors from characters; each returned sector must be exactly one of them
    Rn, Fn = np.array(R, dtype=float), np.array(F, dtype=float)
    ref = []
    for d, f in ch:
        Q = np.zeros((D, D))
        M = np.eye(D)
        for k in range(n):
            Q += f(k, 0) * M + f(k, 1) * (M @ Fn)
            M = M @ Rn
        ref.append(Q * d / (2 * n))
    z = ctx.reals("y", D)
    for p, q in zip(projs, ref):
        p = np.array(ctx.dense(p), dtype=complex)
        ctx.true(p.shape[0] == int(round(np.trace(q))), "dimension of the sector")
        if p.shape[0]:
            ctx.eq(np.conj(p.T) @ (p @ z), q @ z, "sector carries the irreducible representation of its row in the table")


def c4v3x3(ctx, N):
    S = ctx.mod("ed_symmetry")
    G = ctx.mod("ed_geometry").Geometry
    g = G.createSquareGeometry(3, 3, 0.0, 0.0, bc1_open=False, bc2_open=False)
    ops = []
    m = c02.fermi(ctx)(g, 0.0, ctx.real("t", nonzero=True), nspecies=1, ns=N)
    P = m.n_projector
    for fn in (S.getRotFn(4, 1.0, 1.0), S.getReflFn([0, 1], 1.0, 1.0), S.getTranslFn([1, 0]), S.getTranslFn([0, 1])):
        cyc, _ = S.findSiteCycles(fn, g)
        ops.append(P * m.get_xform_op(cyc) * P.conj().transpose())
    projs = S.getC4V_and_3byb3(*ops)
    check_projs(ctx, projs, P.shape[0], ops, H=m.createH(projector=P))


def regular_c4v3(ctx):
    """regular representation of the 72-element group: every irreducible representation d appears in dimension d^2"""
    S = ctx.mod("ed_symmetry")
    els, mul = [], {}
    R2 = np.array([[0, -1], [1, 0]])
    F2 = np.array([[-1, 0], [0, 1]])
    pts = []
    M = np.eye(2, dtype=int)
    for k in range(4):
        for s in range(2):
            A = M @ (F2 if s else np.eye(2, dtype=int))
            for a in range(3):
                for b in range(3):
                    pts.append((tuple(map(tuple, A % 3)), (a, b)))
        M = M @ R2
    idx = {p: i for i, p in enumerate(pts)}

    def compose(g, h):
        A, B = np.array(g[0]), np.array(h[0])
        return (tuple(map(tuple, (A @ B) % 3)), tuple((np.array(g[1]) + A @ np.array(h[1])) % 3))

    def mat(g):
        X = np.zeros((72, 72))
        for p in pts:
            X[idx[compose(g, p)], idx[p]] = 1
        return ctx.sp.csr_matrix(X)
    e = tuple(map(tuple, np.eye(2, dtype=int)))
    gens = [mat((tuple(map(tuple, R2 % 3)), (0, 0))), mat((tuple(map(tuple, F2 % 3)), (0, 0))), mat((e, (1, 0))), mat((e, (0, 1)))]
    projs = S.getC4V_and_3byb3(*gens)
    check_projs(ctx, projs, 72, gens)
    ctx.true([p.shape[0] for p in projs] == [1, 1, 1, 1, 4, 16, 16, 16, 16], "d^2 states per irreducible representation")
    # documented characters of R, Refl, R*Refl, R^2, Tx, Tx*Ty, Ty*Refl, Tx*R*Refl, from the stars (1,0) and (1,1) of momenta
    table = [(1, 1, 1, 1, 1, 1, 1, 1), (1, -1, -1, 1, 1, 1, -1, -1), (-1, -1, 1, 1, 1, 1, -1, 1), (-1, 1, -1, 1, 1, 1, 1, -1), (0, 0, 0, -2, 2, 2, 0, 0),
             (0, -2, 0, 0, 1, -2, 1, 0), (0, 0, -2, 0, -2, 1, 0, 1), (0, 0, 2, 0, -2, 1, 0, -1), (0, 2, 0, 0, 1, -2, -1, 0)]
    R, F, X, Y = (np.array(ctx.dense(g), dtype=float) for g in gens)
    els = (R, F, R @ F, R @ R, X, X @ Y, Y @ F, X @ R @ F)
    w = ctx.real("w", 0.5, 2)
    for p, row, d in zip(projs, table, (1, 1, 1, 1, 2, 4, 4, 4, 4)):
        p = np.array(ctx.dense(p), dtype=complex)
        for g, c in zip(els, row):
            ctx.eq(w * np.trace(p @ g @ np.conj(p.T)), w * d * c, "sector has the characters of its row in the table")


def char_table(ctx, n):
    """the validity test accepts exactly the tables satisfying the orthogonality relations (cyclic group, one entry changed)"""
    S = ctx.mod("ed_symmetry")
    a, b = np.meshgrid(range(n), range(n))
    tab = np.exp(-2j * np.pi * a * b / n)
    cc = [[0]] * n
    ctx.true(bool(S.validate_char_table(tab, cc)), "correct table accepted")
    i, j = ctx.choice("i", n), ctx.choice("j", n)
    bad = tab.copy()
    bad[i, j] = -bad[i, j]
    ctx.true(not bool(S.validate_char_table(bad, cc)), "wrong sign rejected")
    ctx.true(not bool(S.validate_char_table(tab, cc[:-1] + [[0, 0]])), "wrong class size rejected")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for d, k in [(1, 1), (2, 1), (1, 2), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (2, 4), (3, 6), (4, 4)] + \
            ([(4, 2), (4, 3), (4, 6), (4, 12), (3, 5), (5, 5)] if th else []):
        T.append((zn, dict(d=d, k=k), 250 if not th else 900))
    for n, m in [(3, "fermion"), (4, "fermion"), (3, .5), (4, .5), (2, .5), (3, 1)] + ([(5, "fermion"), (5, .5), (6, .5)] if th else []):
        T.append((zn_haml, dict(n=n, model=m), 200))
    for a, b in [(2, 2), (3, 2), (3, 3), (4, 2), (2, 3)] + ([(4, 3), (4, 4)] if th else []):
        T.append((transl2d, dict(nx=a, ny=b), 200))
    for a, b, N in [(2, 2, 0), (2, 2, 2), (2, 2, 4), (3, 2, 0), (3, 2, 2), (3, 2, 3), (3, 3, 0), (2, 3, 2)] + ([(3, 3, 2), (4, 3, 2)] if th else []):
        T.append((transl2d, dict(nx=a, ny=b, N=N), 200))
    for d, a, b in [(1, 2, 2), (2, 2, 2), (1, 3, 2), (2, 2, 3), (1, 4, 3)] + ([(3, 2, 2), (2, 3, 3)] if th else []):
        T.append((diagonal2d, dict(d=d, k1=a, k2=b), 200))
    for n in range(2, 8):
        T.append((dihedral, dict(n=n, rep="regular"), 200))
        T.append((dihedral, dict(n=n, rep="sites"), 200))
        if n > 2:
            for N in (1, 2, 3) if n > 3 else (1, 2):
                T.append((dihedral, dict(n=n, rep=N), 200))
    T.append((c4v3x3, dict(N=1), 200))
    if th:
        T.append((c4v3x3, dict(N=2), 900))
    T.append((regular_c4v3, {}, 200))
    for n in (2, 3, 4, 5):
        T.append((char_table, dict(n=n)))
    return T
