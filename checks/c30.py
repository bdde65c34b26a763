"""C30 batch jobs for the linked cluster expansion"""
import contextlib
import io
import numpy as np
from .common import *
from .c20 import cells, canon, d4, free, subsets, mat

BOUNDS = ("square-lattice clusters up to 3 sites (thorough 4), combination of results up to 5 sites; every order in which the directory may list 4 result files and several for 9, and by name for 21; the stored "
          "results of every job any numbers +-1000 at two temperatures; single jobs: every cluster of the file, at every quarter-integer position")
ASSUMPTIONS = ["file names contain no number but the one of the cluster (the code notes that it relies on this)",
               "files and pickling are replaced by an in-memory store that returns a separate copy of what was written (the real ones are used at the witnesses and in replays)"]


@contextlib.contextmanager
def work(ctx):
    with ctx.inside(ctx.scratch()), contextlib.redirect_stdout(io.StringIO()):
        yield


def embeddings(ctx, cl, M, w, what):
    cs = [cells(ctx, g) for g in cl]
    ctx.true(all(k is not None for k in cs), "lattice clusters")
    M = mat(M)
    ctx.eq(M.shape, (len(cs), len(cs)), what)
    for i, ci in enumerate(cs):
        sub = [s for l in subsets(ci) for s in l if len(s) < len(ci)]
        for j, cj in enumerate(cs):
            ctx.eq(w * M[i, j], w * sum(1 for s in sub if canon(s) == canon(cj)), what)
    return cs


def shuffled(ctx, n):
    """the order in which n files are listed"""
    if n > 9:
        return None                     # by name: 1, 10, 11, ..., 2, 20, 21, 3, ...
    if n <= 4:
        left, p = list(range(n)), []
        while left:
            p.append(left.pop(ctx.choice("list%d" % len(left), len(left))))
    else:
        r, b = ctx.choice("rotate", n), ctx.choice("reverse", 2)
        p = [(k + r) % n for k in range(n)]
        p = p[::-1] if b else p
    return lambda names: [names[k] for k in p] if len(names) == n else names


def generate(ctx, order):
    """the cluster files hold the clusters of the lattice and are kept when they exist already"""
    w = ctx.real("w", 0.5, 2)
    with work(ctx):
        n = sum(len(free(k)) for k in range(1, order + 1))
        a = ctx.script("generate_clusters")
        ctx.eq(a.generate_clusters("full.dat", order), n, "number of clusters")
        d = ctx.fetch("full.dat")
        ctx.eq(a.generate_clusters("full.dat", order), n, "number of clusters of an existing file")
        ctx.eq(d["max_cluster_order"], order, "order")
        cs = embeddings(ctx, d["cluster_list"], d["sub_cluster_mult"], w, "number of embeddings")
        for k, c in enumerate(cs):
            ctx.eq(w * mat(d["cluster_multiplicities"]).reshape(-1)[k], w * len(d4(c)), "multiplicity")
        b = ctx.script("generate_clusters_no_subs")
        ctx.eq(b.generate_clusters_no_subs("c.dat", order), n, "number of clusters")
        e = ctx.fetch("c.dat")
        ctx.eq(b.generate_clusters_no_subs("c.dat", order), n, "number of clusters of an existing file")
        ctx.eq(e[0], order, "order")
        ctx.true([cells(ctx, g) for g in e[1]] == cs, "the same clusters")
        ctx.true([int(i) for i in e[2]] == [int(i) for i in d["order_start_indices"]], "the same orders")


def subclusters(ctx, order):
    """one job per cluster, combined in whatever order the files are listed"""
    w = ctx.real("w", 0.5, 2)
    with work(ctx):
        n = ctx.script("generate_clusters_no_subs").generate_clusters_no_subs("c.dat", order)
        before = ctx.fetch("c.dat")
        f = ctx.script("find_subclusters")
        for k in range(n):
            f.find_subclusters(k, "sub%d.dat" % (k + 1), "c.dat")
        ctx.script("aggregate_subclusters", shuffled(ctx, n)).aggregate_subclusters("sub*.dat", "all.dat", "c.dat")
        after = ctx.fetch("all.dat")
        embeddings(ctx, after[1], after[-1], w, "number of embeddings")
        ctx.true([cells(ctx, g) for g in after[1]] == [cells(ctx, g) for g in before[1]], "the clusters are unchanged")
        ctx.eq(after[2], before[2], "the orders are unchanged")


def one_job(ctx, order):
    """a job deals with the cluster of its index, wherever the clusters lie"""
    N = ctx.mod("ed_nlce")
    G = ctx.mod("ed_geometry").Geometry
    w = ctx.real("w", 0.5, 2)
    x0, y0 = ctx.int("x0", -200, 200) / 4, ctx.int("y0", -200, 200) / 4
    cl, mult, inds = N.get_all_clusters(order)
    cl = [G.createNonPeriodicGeometry(ctx.np.array([x0 + x for x in g.xlocs]), ctx.np.array([y0 + y for y in g.ylocs])) for g in cl]
    cs = [cells(ctx, g, x0, y0) for g in cl]
    k = ctx.choice("job", len(cl))
    with work(ctx):
        ctx.store("in.dat", [order, cl, inds, 0.0, mult])
        ctx.script("find_subclusters").find_subclusters(k, "sub.dat", "in.dat")
        i, M, g = ctx.fetch("sub.dat")
        ctx.eq(i, k, "index of the job")
        ctx.true(cells(ctx, g, x0, y0) == cs[k], "cluster of the job")
        M = mat(M)
        ins = {canon(s) for l in subsets(cs[k]) for s in l}
        for a, ca in enumerate(cs):
            sub = [s for l in subsets(ca) for s in l if len(s) < len(ca)] if canon(ca) in ins else []
            for b, cb in enumerate(cs):
                ctx.eq(w * M[a, b], w * sum(1 for s in sub if canon(s) == canon(cb)), "number of embeddings")


def missing(ctx):
    """nothing is combined when the result of a job is missing"""
    with work(ctx):
        n = ctx.script("generate_clusters_no_subs").generate_clusters_no_subs("c.dat", 3)
        f = ctx.script("find_subclusters")
        gone = ctx.choice("gone", n)
        for k in range(n):
            if k != gone:
                f.find_subclusters(k, "sub%d.dat" % (k + 1), "c.dat")
        a = ctx.script("aggregate_subclusters")
        ctx.raises(lambda: a.aggregate_subclusters("sub*.dat", "all.dat", "c.dat"), "a missing result")
        ctx.true(not ctx.exists("all.dat"), "nothing is written")


def results(ctx, order, nt):
    """combining the jobs gives the expansion of their results, in whatever order the files are listed"""
    N = ctx.mod("ed_nlce")
    temps = ctx.reals("temp", nt)
    with work(ctx):
        n = ctx.script("generate_clusters_no_subs").generate_clusters_no_subs("c.dat", order)
        f = ctx.script("find_subclusters")
        for k in range(n):
            f.find_subclusters(k, "sub%d.dat" % (k + 1), "c.dat")
        ctx.script("aggregate_subclusters").aggregate_subclusters("sub*.dat", "all.dat", "c.dat")
        cl, mult, inds = N.get_all_clusters(order)
        V = [ctx.reals(q, (n, nt)) for q in ("energy", "entropy", "heat", "corr")]
        for k in range(n):
            ctx.store("diag%d.dat" % (k + 1), [cl[k], None] + [v[k:k + 1, :] for v in V] + [temps, None])
        a = ctx.script("aggregate_results", shuffled(ctx, n))
        out = a.aggregate_results("diag*.dat", "all.dat", "res.dat")
        back = ctx.fetch("res.dat")
    ctx.true([cells(ctx, g) for g in out[0]] == [cells(ctx, g) for g in cl], "clusters in order")
    ctx.eq(out[21], temps, "temperatures")
    m = n
    cs = [cells(ctx, g) for g in cl]
    for q, v in enumerate(V):
        ctx.eq(out[1 + 5 * q], v, "results of every job in the order of the clusters")
        want = []
        W = []
        for i in range(m):
            r = v[i, :]
            sub = [canon(s) for l in subsets(cs[i]) for s in l if len(s) < len(cs[i])]
            for j in range(i):
                r = r - W[j] * sub.count(canon(cs[j]))
            W.append(r)
        tot = sum(W[i] * len(d4(cs[i])) for i in range(m))
        ctx.eq(out[2 + 5 * q], tot, "expansion")
        for o in range(order):
            ctx.eq(out[3 + 5 * q][o], sum(W[i] * len(d4(cs[i])) for i in range(inds[o], inds[o + 1])), "contribution of each order")
        for i in range(m):
            ctx.eq(ctx.dense(out[4 + 5 * q])[i], W[i], "weight of each cluster")
        for k in range(1, 6):
            ctx.eq(ctx.dense(back[k + 5 * q]), ctx.dense(out[k + 5 * q]), "the file holds what is returned")


def diag(ctx, order):
    """results of one job: thermodynamics of the Heisenberg model on its cluster"""
    N = ctx.mod("ed_nlce")
    G = ctx.mod("ed_geometry").Geometry
    x0, y0 = ctx.int("x0", -200, 200) / 4, ctx.int("y0", -200, 200) / 4
    w = ctx.real("w", 0.5, 2)
    cl, mult, inds = N.get_all_clusters(order)
    cl = [G.createNonPeriodicGeometry(ctx.np.array([x0 + x for x in g.xlocs]), ctx.np.array([y0 + y for y in g.ylocs])) for g in cl]
    k = ctx.choice("job", len(cl))
    c = cells(ctx, cl[k], x0, y0)
    with work(ctx):
        ctx.store("in.dat", [order, cl, inds, 0.0, mult])
        ctx.script("diag_cluster").diag_cluster(k, "out.dat", "in.dat")
        out = ctx.fetch("out.dat")
    ctx.true(cells(ctx, out[0], x0, y0) == c, "cluster of the job")
    n = len(c)
    s = [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]])]

    def on(i, m):
        return np.kron(np.kron(np.eye(2 ** i), m), np.eye(2 ** (n - i - 1)))
    H = sum((0.25 * on(i, m) @ on(j, m) for i in range(n) for j in range(i + 1, n) if abs(c[i][0] - c[j][0]) + abs(c[i][1] - c[j][1]) == 1 for m in s),
            np.zeros((2 ** n, 2 ** n)))
    C = sum((on(i, s[2]) @ on(j, s[2]) for i in range(n) for j in range(i + 1, n)), np.zeros((2 ** n, 2 ** n)))
    e, v = np.linalg.eigh(H)
    ce = np.real(np.diag(v.conj().T @ C @ v))
    T = np.array([float(t) for t in mat(out[6]).reshape(-1)])
    ctx.true(len(T) > 1 and all(T > 0), "temperatures")
    ctx.eq(w * np.sort(mat(out[1]).real.reshape(-1)), w * e, "energies")
    for j, t in enumerate(T):
        p = np.exp(-(e - e[0]) / t)
        z = p.sum()
        p = p / z
        E = (p * e).sum()
        ctx.eq(w * out[2][0, j], w * E, "energy")
        ctx.eq(w * out[3][0, j], w * (np.log(z) + (E - e[0]) / t), "entropy")
        ctx.eq(w * out[4][0, j], w * ((p * e ** 2).sum() - E ** 2) / t ** 2, "specific heat")
        ctx.eq(w * out[5][0, j], w * (p * ce).sum(), "correlations")


def tasks(tier):
    th = tier == "thorough"
    T = []
    for o in range(1, 4 + th):
        T.append((generate, dict(order=o), 300))
        T.append((subclusters, dict(order=o), 400))
        T.append((one_job, dict(order=o), 300))
        T.append((diag, dict(order=o), 300))
    for o in range(1, 4 + th):
        T.append((results, dict(order=o, nt=2), 400))
    T.append((results, dict(order=4, nt=1), 600))
    T.append((results, dict(order=5, nt=1), 600))
    T.append((missing, {}, 300))
    return T
