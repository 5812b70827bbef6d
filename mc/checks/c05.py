"""C05: magnetised prism potential, field, flux density and field gradient."""
import itertools

import numpy as np
from scipy.constants import mu_0

from .. import ref_prism
from ..conf import conf
from ..walk import SMALL, axis_points as around, small_components, walk
from .c04 import ladder_sets, prism_ladders, BOXES, box_points, axis_points, on_surface, line_distance

MAG = [[0., 0, 1.], [1., 0, 0], [0, -3., 0], [2., -1.5, 0.25], [0., 0, 0]]


def bounds(tier):
    return {"configurations": ["compiled", "pure Python"], "boxes": BOXES, "magnetisations": MAG, "small components": "one component of the magnetisation 1e-1 to 1e-9 of another, points on the axes", "ladders": "as C04: distance from the faces, distance, aspect ratio, size, strength", "points per axis": len(axis_points(0., 1., tier == "thorough"))}


def cases(tier):
    conf()
    out = []
    for i in range(len(BOXES)):
        for s in range(len(axis_points(0., 1., tier == "thorough"))):
            out += [{"box": i, "slab": s, "fallback": c} for c in (0, 1)]
    out += [dict(c, fallback=f) for c in prism_ladders() for f in (0, 1)]
    out += [{"small": i, "fallback": f} for i in range(len(BOXES)) for f in (0, 1)]
    return out


def make_oracle(t, lo, hi, x, ref, size=1.0):
    """Checks of a prism against the reference (of the box and points divided by `size`)."""
    U, g, H, T = ref[0] * size ** 2, ref[1] * size, ref[2], ref[3] / size
    lo_, hi_ = np.asarray(lo), np.asarray(hi)
    off = ~on_surface(x, lo, hi)
    ins = np.all((x > lo_) & (x < hi_), axis=-1)
    V = np.prod(hi_ - lo_)
    ext = np.abs(np.stack([lo_ - x, hi_ - x])).max((0, 2))
    lg = 1 + np.abs(np.log(ext))
    dl = line_distance(x, lo_, hi_)
    c = 1 / (4 * np.pi)

    def oracle(o, st, every=False):
        M = np.asarray(st["magnetization"], float)
        m = np.sqrt((M ** 2).sum())
        phi = c * g @ M
        Hf = c * H @ M
        HG = c * T @ M
        gn = np.sqrt((g ** 2).sum(-1))
        t.step(4)
        t.close("scalar potential", o.scalar_potential(x), phi, tol=1,
                scale=m * (1e-10 * gn + 1e-13 * ext * lg + 5e-14 * ext ** 2 / dl) + 1e-290, **st)
        hn = np.sqrt((H ** 2).sum((-1, -2)))
        lim = (m * (1e-10 * hn + 1e-12) + 1e-290)[:, None]
        h = o.magnetic_field(x)
        t.close("magnetic field", h[off], Hf[off], tol=1, scale=lim[off], **st)
        B = mu_0 * (Hf + np.where(ins[:, None], M, 0))
        b = o.magnetic_flux_density(x)
        t.close("flux density", b[off], B[off], tol=1, scale=mu_0 * (lim[off] + 1e-12 * m), **st)
        Tn = np.sqrt((T ** 2).sum((-1, -2, -3)))
        gr = o.magnetic_field_gradient(x)
        # terms of the sum are as large as 1/(distance to the nearest edge line)
        lim3 = (m * (1e-10 * Tn + 1e-13 * (1 / dl + 1 / np.maximum(1e-3 * ext, 1e-300)) + 1e-13 * ext / dl ** 2) + 1e-290)[:, None, None]
        t.close("field gradient", gr[off], HG[off], tol=1, scale=lim3[off], **st)
        t.close("moment", o.moment, V * M, tol=1e-13)
        for i in range(len(x)) if every else (0, 13, 40, 80):
            if i < len(x) and off[i]:
                t.step(4)
                t.close("magnetic field, one point", o.magnetic_field(x[i]), Hf[i], tol=1, scale=lim[i], **st)
                t.close("flux density, one point", o.magnetic_flux_density(x[i]), B[i], tol=1, scale=mu_0 * (lim[i] + 1e-12 * m), **st)
                t.close("gradient, one point", o.magnetic_field_gradient(x[i]), HG[i], tol=1, scale=lim3[i], **st)
                t.close("potential, one point", o.scalar_potential(x[i]), phi[i], tol=1,
                        scale=m * (1e-10 * gn[i] + 1e-13 * ext[i] * lg[i] + 5e-14 * ext[i] ** 2 / dl[i]) + 1e-290, **st)
        t.outcome(np.round(Hf[:2], 9))
    return oracle


def small(case, t, MagneticPrism):
    """Magnetisations with one component up to 1e9 times smaller than another, at points on the axes."""
    lo, hi = BOXES[case["small"]]
    ctr = np.add(lo, hi) / 2
    L = np.max(np.subtract(hi, lo))
    for reach in (0.3 * L, L, 5 * L):
        x = around(ctr, "all", reach)
        x = x[~on_surface(x, lo, hi)]

        def fields(v):
            o = MagneticPrism(lo, hi, v)
            return [o.scalar_potential(x), o.magnetic_field(x), o.magnetic_flux_density(x), o.magnetic_field_gradient(x)]
        for scale in (1.0, 1e6):
            if not small_components(t, "the magnetisation", lambda v: fields(v * scale), False, eps=SMALL if t.thorough else SMALL[::2], noise=1e-11, box=case["small"], reach=reach, strength=scale):
                return
    t.sample(case)


def run_case(case, t):
    MagneticPrism = conf()[case["fallback"]]["static"].MagneticPrism
    if "small" in case:
        return small(case, t, MagneticPrism)
    if "k" in case:
        for lo, hi, x, sizes in ladder_sets(case):
            ref = ref_prism.derivatives(lo, hi, x, True)
            for z in sizes:
                for q in x:
                    t.state(case["k"], lo, hi, q, z)
                l, h = (np.asarray(lo) * z).tolist(), (np.asarray(hi) * z).tolist()
                oracle = make_oracle(t, l, h, x * z, ref, z)
                for M in [MAG[3]] if z != 1.0 else MAG[:4] + [[sg * 10.0 ** e * v for v in MAG[3]] for e in range(-12, 13, 4) for sg in (1, -1)]:
                    oracle(MagneticPrism(l, h, M), {"min_location": l, "max_location": h, "magnetization": M})
        t.sample({"ladder": case["k"], "rung": case["p"]})
        return
    lo, hi = BOXES[case["box"]]
    n = len(axis_points(0., 1., t.thorough))
    x = box_points(lo, hi, t.thorough).reshape(n, -1, 3)[case["slab"]]
    lo_, hi_ = np.asarray(lo), np.asarray(hi)
    c = 1 / (4 * np.pi)
    oracle = make_oracle(t, lo, hi, x, ref_prism.derivatives(lo, hi, x, True))
    for q in x:
        t.state("point", case["box"], q.tolist())
    walk(t, "prism%d" % case["box"], MagneticPrism, {"min_location": [lo], "max_location": [hi], "magnetization": MAG}, oracle)
    o = MagneticPrism(*BOXES[(case["box"] + 2) % len(BOXES)], magnetization=[5., 5, 5])
    o.magnetic_field(x[:2])
    o.min_location, o.max_location, o.magnetization = lo, hi, MAG[3]
    t.step(4)
    oracle(o, {"magnetization": MAG[3]}, True)
    # far away: a dipole of the reported moment
    ctr = (lo_ + hi_) / 2
    L = np.sqrt(((hi_ - lo_) ** 2).sum())
    for d in itertools.product((-1., 0., 1.), repeat=3):
        if not any(d):
            continue
        R = np.array(d) / np.sqrt(np.dot(d, d)) * 60 * L
        r = 60 * L
        o = MagneticPrism(lo, hi, MAG[3])
        mm = o.moment
        want = c * (3 * R * (R @ mm) / r ** 5 - mm / r ** 3)
        t.step()
        t.close("dipole limit", o.magnetic_field(ctr + R), want, tol=2e-3, scale=c * np.sqrt((mm ** 2).sum()) / r ** 3)
