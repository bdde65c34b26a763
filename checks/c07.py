"""C07 coordinate transformations are the stated isometries"""
import numpy as np
from .common import *

BOUNDS = ("3 points with every pair of coordinates +-1000; every centre +-1000; rotations of order 1..12; every reflection axis "
          "direction (components +-1000) but zero; every translation vector")
ASSUMPTIONS = ["the zero reflection vector is rejected (checked)"]
NP = 3


def pts(ctx):
    return ctx.reals("x", NP, -1000, 1000), ctx.reals("y", NP, -1000, 1000)


def isom(ctx, xs, ys, out, label):
    for i in range(NP):
        for j in range(i):
            ctx.eq((out[0, i] - out[0, j]) ** 2 + (out[1, i] - out[1, j]) ** 2,
                   (xs[i] - xs[j]) ** 2 + (ys[i] - ys[j]) ** 2, label)


def rotation(ctx, n):
    S = ctx.mod("ed_symmetry")
    xs, ys = pts(ctx)
    cx, cy = ctx.real("cx", -1000, 1000), ctx.real("cy", -1000, 1000)
    f = S.getRotFn(n, cx=cx, cy=cy)
    out = f(xs, ys)
    c, s = np.cos(2 * np.pi / n), np.sin(2 * np.pi / n)
    ctx.eq(out[0], cx + c * (xs - cx) - s * (ys - cy), "x of the counter-clockwise rotation about the centre")
    ctx.eq(out[1], cy + s * (xs - cx) + c * (ys - cy), "y of the counter-clockwise rotation about the centre")
    isom(ctx, xs, ys, out, "isometry")
    a, b = xs, ys
    for _ in range(n):
        o = f(a, b)
        a, b = o[0], o[1]
    ctx.eq(a, xs, "n rotations are the identity (x)")
    ctx.eq(b, ys, "n rotations are the identity (y)")


def reflection(ctx, form):
    S = ctx.mod("ed_symmetry")
    xs, ys = pts(ctx)
    cx, cy = ctx.real("cx", -1000, 1000), ctx.real("cy", -1000, 1000)
    if form == "vertical":
        vx, vy = 0.0, ctx.real("vy", nonzero=True)
    elif form == "horizontal":
        vx, vy = ctx.real("vx", nonzero=True), 0.0
    else:
        vx, vy = ctx.real("vx", nonzero=True), ctx.real("vy", nonzero=True)
    v = {"column": ctx.np.array([[vx], [vy]]), "list": [vx, vy]}.get(form, ctx.np.array([vx, vy]))
    f = S.getReflFn(v, cx=cx, cy=cy)
    out = f(xs, ys)
    n2 = vx * vx + vy * vy
    rx, ry = xs - cx, ys - cy
    dot = rx * vx + ry * vy
    ctx.eq(n2 * (out[0] - cx), 2 * dot * vx - n2 * rx, "x reflected about the line through the centre along the vector")
    ctx.eq(n2 * (out[1] - cy), 2 * dot * vy - n2 * ry, "y reflected about the line through the centre along the vector")
    o2 = f(out[0], out[1])
    ctx.eq(o2[0], xs, "involution x")
    ctx.eq(o2[1], ys, "involution y")


def refl_zero(ctx):
    S = ctx.mod("ed_symmetry")
    ctx.raises(lambda: S.getReflFn([0, 0]), "zero vector rejected")
    x = ctx.real("x")
    ctx.eq(S.getReflFn([0, 1])(ctx.np.array([x]), ctx.np.array([1.0])), np.array([[-1.0], [0]]) * x + np.array([[0.0], [1]]), "default centre")


def inversion(ctx):
    S = ctx.mod("ed_symmetry")
    xs, ys = pts(ctx)
    cx, cy = ctx.real("cx", -1000, 1000), ctx.real("cy", -1000, 1000)
    out = S.getInversionFn(cx=cx, cy=cy)(xs, ys)
    ctx.eq(out[0], 2 * cx - xs, "x")
    ctx.eq(out[1], 2 * cy - ys, "y")
    o = S.getInversionFn()(xs, ys)
    ctx.eq(o[0], -xs, "default centre x")
    ctx.eq(o[1], -ys, "default centre y")


def translation(ctx, form):
    S = ctx.mod("ed_symmetry")
    xs, ys = pts(ctx)
    a, b = ctx.real("a"), ctx.real("b")
    v = {"list": [a, b], "row": ctx.np.array([[a, b]]), "column": ctx.np.array([[a], [b]]), "flat": ctx.np.array([a, b])}[form]
    out = S.getTranslFn(v)(xs, ys)
    ctx.eq(out[0], xs + a, "x")
    ctx.eq(out[1], ys + b, "y")


def tasks(tier):
    T = [(rotation, dict(n=n)) for n in ([1, 2, 3, 4, 5, 6, 7, 8, 12] + ([9, 10, 11, 16, 24] if tier == "thorough" else []))]
    T += [(reflection, dict(form=f)) for f in ("vertical", "horizontal", "flat", "column", "list")]
    T += [(refl_zero, {}), (inversion, {})]
    T += [(translation, dict(form=f)) for f in ("list", "row", "column", "flat")]
    return T
