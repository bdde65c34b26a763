"""C28 saved models"""
import os
import numpy as np
from .common import *
from . import c02, c03

BOUNDS = ("fermion models on 1..3 sites with 1..2 species (with and without particle-number restriction) and spin 1/2 and 1 models on 2..3 sites, with every coupling +-1000")
ASSUMPTIONS = ["files and pickling are replaced by an in-memory store that returns a separate copy of what was written (the real ones are used at the witnesses and in replays)",
               ".mat files (the code notes that they do not restore types) are outside"]


def fermion(ctx, n, ns, sector, tag=""):
    F = c02.fermi(ctx)
    t, u = ctx.real("t" + tag, nonzero=True), ctx.real("u" + tag, nonzero=True)
    mu = ctx.reals("mu" + tag, ns, nonzero=True)
    pot = ctx.reals("pot" + tag, (n, ns), nonzero=True)
    kw = dict(ns=np.array([1] * ns)) if sector else {}
    return F(chain(ctx, n), u if ns == 2 else 0.0, t, mus=mu, potentials=pot, nspecies=ns, **kw)


def spins(ctx, n, s, tag=""):
    Sp = ctx.mod("ed_spins").spinSystem
    return Sp(chain(ctx, n), jx=ctx.real("jx" + tag, nonzero=True), jz=ctx.real("jz" + tag, nonzero=True), hx=ctx.real("hx" + tag, nonzero=True), spin=s)


def build(ctx, kind, n, k, tag=""):
    return spins(ctx, n, k, tag) if kind == "spin" else fermion(ctx, n, k, kind == "sector", tag)


def ham(ctx, m):
    P = getattr(m, "n_projector", None)
    return ctx.dense(m.createH(projector=P) if P is not None else m.createH())


def round_trip(ctx, kind, n, k):
    d = ctx.scratch()
    m = build(ctx, kind, n, k)
    H = ham(ctx, m)
    name = d + "/model.pkl"
    ctx.true(m.save(name) == name, "the name of the file is returned")
    ctx.true(ctx.exists(name), "the file is written")
    ctx.eq(ham(ctx, m), H, "saving does not change the model")
    o = build(ctx, kind, n, k, "_other")
    r = o.load(name)
    ctx.eq(ham(ctx, o), H, "the loaded model has the same Hamiltonian")
    ctx.eq(ham(ctx, r), H, "so has the returned one")
    ctx.true(set(vars(o)) == set(vars(m)), "every attribute is restored")
    ctx.eq(o.geometry.nsites, m.geometry.nsites, "number of sites")
    ctx.eq(o.geometry.adjacency_mat, m.geometry.adjacency_mat, "geometry")
    ctx.true(o.geometry == m.geometry, "geometry")
    ctx.eq(ham(ctx, build(ctx, kind, n, k, "_other")) * 0 + ham(ctx, m), H, "the saved model is unaffected")


def across(ctx, kinds, n, k, n2):
    """a model loaded into one of another size or sector leaves nothing of the latter"""
    d = ctx.scratch()
    m = build(ctx, kinds[0], n, k)
    H = ham(ctx, m)
    f = m.save(d + "/m.pkl")
    o = build(ctx, kinds[1], n2, k, "_o")
    o.load(f)
    ctx.true(set(vars(o)) == set(vars(m)), "every attribute is restored")
    ctx.eq(ham(ctx, o), H, "the loaded model has the same Hamiltonian")
    ctx.eq(ctx.dense(o.createH()), ctx.dense(m.createH()), "also without sectors")
    ctx.true(o.geometry == m.geometry, "geometry")
    if hasattr(m, "ns"):
        ctx.true((o.ns is None) == (m.ns is None) and (m.ns is None or [int(x) for x in o.ns] == [int(x) for x in m.ns]), "particle numbers")
    ctx.eq([o.nstates, o.nspecies, o.nbasis], [m.nstates, m.nspecies, m.nbasis], "sizes")


def overwrite(ctx, kind, n, k):
    """a second save replaces the first; files are independent"""
    d = ctx.scratch()
    a, b = build(ctx, kind, n, k), build(ctx, kind, n, k, "_b")
    A, B = ham(ctx, a), ham(ctx, b)
    f, g = d + "/f.pkl", d + "/g.pkl"
    a.save(f)
    a.save(g)
    b.save(f)
    o = build(ctx, kind, n, k, "_c")
    o.load(f)
    ctx.eq(ham(ctx, o), B, "the second save replaces the first")
    o.load(g)
    ctx.eq(ham(ctx, o), A, "other files are untouched")


def default_name(ctx, kind, n, k):
    d = ctx.scratch()
    m = build(ctx, kind, n, k)
    H = ham(ctx, m)
    with ctx.inside(d):
        f = m.save()
        ctx.true(os.path.splitext(f)[1] == ".pkl" and ctx.exists(f), "a pickle file is written by default")
        o = build(ctx, kind, n, k, "_b")
        o.load(f)
    ctx.eq(ham(ctx, o), H, "the loaded model has the same Hamiltonian")


def rejected(ctx):
    d = ctx.scratch()
    m = build(ctx, "fermion", 2, 1)
    H = ham(ctx, m)
    ctx.raises(lambda: m.save(d + "/x.txt"), "unsupported file type")
    ctx.true(not ctx.exists(d + "/x.txt"), "nothing is written")
    ctx.raises(lambda: m.load(d + "/x.txt"), "unsupported file type")
    ctx.raises(lambda: m.load(d + "/missing.pkl"), "missing file")
    ctx.eq(ham(ctx, m), H, "a failed load leaves the model as it was")


def tasks(tier):
    T = []
    L = [("fermion", 1, 1), ("fermion", 2, 1), ("fermion", 2, 2), ("fermion", 3, 1), ("sector", 2, 1), ("sector", 3, 1), ("sector", 2, 2), ("spin", 2, 0.5), ("spin", 3, 0.5), ("spin", 2, 1)]
    for k, n, x in L:
        T.append((round_trip, dict(kind=k, n=n, k=x)))
    for a, b, n, x, n2 in (("fermion", "sector", 2, 2, 2), ("sector", "fermion", 2, 2, 2), ("sector", "sector", 3, 1, 2), ("fermion", "fermion", 1, 1, 3), ("spin", "spin", 2, 0.5, 3)):
        T.append((across, dict(kinds=(a, b), n=n, k=x, n2=n2)))
    for k, n, x in (("fermion", 2, 2), ("spin", 2, 0.5)):
        T.append((overwrite, dict(kind=k, n=n, k=x)))
        T.append((default_name, dict(kind=k, n=n, k=x)))
    T.append((rejected, {}))
    return T
