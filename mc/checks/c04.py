"""C04: gravity of point, sphere and prism is Newtonian."""
import itertools

import numpy as np
from scipy.constants import G

from .. import ref_prism
from ..conf import conf
from ..core import ladder
from ..walk import walk

MASS = [1.0, -2.5, 3e6, 0.0]
LOC = [[0., 0, 0], [5., -6., 7.5], [-250., 0.25, -33.]]
RHO = [1.0, -0.3, 2670.0]
RAD = [1.0, 0.25, 300.0]
D = np.array([v for v in itertools.product([-1., 0., 1.], repeat=3) if any(v)] + [[1, 2, 3], [-3, 1, 2], [.1, -.9, .2]])
D = D / np.sqrt((D ** 2).sum(1))[:, None]
DIST = [0.01, 0.5, 1.0, 20., 1e4]
RR = [0.0, 1e-3, 0.5, 0.999, 1.001, 1.5, 10., 1e3]

BOXES = [([-1., -1, -1], [1., 1, 1]), ([0., 0.5, -3.0], [2., 0.75, 1.0]), ([-1000., -500., -700.], [-400., 800., -100.]),
         ([0., 0, 0], [1e-2, 2e-2, 5e-3]), ([10., 20., 30.], [11., 40., 30.5])]


def bounds(tier):
    return {"configurations": ["compiled", "pure Python"], "mass": MASS, "density": RHO, "radius": RAD, "locations": LOC, "boxes": BOXES,
            "ladders": "mass 1e-20..1e25, distance 1e-9..1e12, radius 1e-6..1e9, density 1e-12..1e12, distance from the surface of the sphere 10^0..10^-16; prisms: points 10^-1..10^-9 of a side from the faces, at 2..2^14 m, sides stretched by 10^-4..10^4, whole geometry scaled by 2^-40..2^41",
            "prism points per axis": len(axis_points(0., 1., tier == "thorough")),
            "sphere assignment sequences": "all of length <= %d" % (4 if tier == "thorough" else 3)}


def axis_points(a, b, thorough):
    L = b - a
    p = [a - 20 * L, a - 0.4 * L, a - 1e-3 * L, a, a + 0.3 * L, a + .5 * L, b - 0.05 * L, b, b + 0.01 * L, b + 3 * L]
    if thorough:
        p += [a - 2 * L, a + 1e-3 * L, b - 0.1 * L, b + 100 * L]
    return p


def box_points(lo, hi, thorough):
    return np.array(list(itertools.product(*[axis_points(a, b, thorough) for a, b in zip(lo, hi)])))


def on_surface(x, lo, hi):
    lo, hi = np.asarray(lo), np.asarray(hi)
    inside = np.all((x >= lo) & (x <= hi), axis=-1)
    face = np.any((x == lo) | (x == hi), axis=-1)
    return inside & face


def line_distance(x, lo, hi):
    """Distance to the nearest of the twelve lines through the edges (inf when on one)."""
    d = np.full(len(x), np.inf)
    for i, j in ((0, 1), (0, 2), (1, 2)):
        for a in (lo, hi):
            for b in (lo, hi):
                e = np.hypot(x[:, i] - a[i], x[:, j] - b[j])
                d = np.minimum(d, np.where(e == 0, np.inf, e))
    return d


def point(x, loc, m):
    R = x - loc
    r = np.sqrt((R * R).sum(-1))[:, None]
    return (G * m / r[:, 0], -G * m * R / r ** 3,
            G * m * (3 * R[:, :, None] * R[:, None, :] / r[..., None] ** 5 - np.eye(3) / r[..., None] ** 3))


def prism_oracle(t, lo, hi, x, ref, size=1.0):
    """Checks of a prism against the reference (of the box and points divided by `size`)."""
    U, g, H = ref[0] * size ** 2, ref[1] * size, ref[2]
    off = ~on_surface(x, lo, hi)
    lo_, hi_ = np.asarray(lo), np.asarray(hi)
    V = np.prod(hi_ - lo_)
    ext = np.abs(np.stack([lo_ - x, hi_ - x])).max((0, 2))
    lg = 1 + np.abs(np.log(ext))
    dl = line_distance(x, lo_, hi_)

    def oracle(o, st):
        f = G * st["rho"]
        s = G * abs(st["rho"])
        t.step(4)
        t.close("prism potential", o.gravitational_potential(x), f * U, tol=1,
                scale=s * (1e-11 * np.abs(U) + 3e-15 * 24 * ext ** 2 * lg), **st)
        gn = np.sqrt((g ** 2).sum(-1))
        t.close("prism field", o.gravitational_field(x), f * g, tol=1,
                scale=(s * (1e-10 * gn + 1e-13 * ext * lg + 5e-14 * ext ** 2 / dl))[:, None], **st)
        hn = np.sqrt((H ** 2).sum((-1, -2)))
        gg = o.gravitational_gradient(x)
        t.close("prism gradient", gg[off], f * H[off], tol=1,
                scale=(s * (1e-10 * hn + 2e-13 * lg))[off, None, None], **st)
        t.close("prism mass", o.mass, V * st["rho"], tol=1e-13)
        t.close("prism volume", o.volume, V, tol=1e-13)
        t.close("prism centre", o.location, (lo_ + hi_) / 2, tol=1e-14)
        for i in (0, 13, 40, 80):
            if i < len(x):
                t.step()
                t.close("prism potential, one point", o.gravitational_potential(x[i]), f * U[i], tol=1, scale=s * (1e-11 * abs(U[i]) + 1e-13 * ext[i] ** 2 * lg[i]))
                t.close("prism field, one point", o.gravitational_field(x[i]), f * g[i], tol=1, scale=s * (1e-10 * gn[i] + 1e-13 * ext[i] * lg[i] + 5e-14 * ext[i] ** 2 / dl[i]))
    return oracle


BASE = ([-1.0, -0.75, -2.0], [0.5, 1.25, 0.25])
ASPECT = [10.0 ** e for e in (-4, -3, -2, -1, 1, 2, 3, 4)]


def near_faces(k):
    """Points displaced from the faces of BASE by 10^-k of its sides, on either side."""
    d = 10.0 ** -k
    ax = [[a - d * (b - a), a + d * (b - a), a + 0.37 * (b - a), b + d * (b - a), b + 1.5 * (b - a)] for a, b in zip(*BASE)]
    return np.array(list(itertools.product(*ax)))


def far_points(e):
    c = (np.asarray(BASE[0]) + np.asarray(BASE[1])) / 2
    return np.array([c + 2.0 ** e * d for d in D])


def aspect_box(i, j):
    """BASE stretched along one axis (j < 3) or two (j >= 3)."""
    s = np.full(3, ASPECT[i] if j >= 3 else 1.0)
    s[j % 3] = 1.0 if j >= 3 else ASPECT[i]
    return (np.asarray(BASE[0]) * s).tolist(), (np.asarray(BASE[1]) * s).tolist()


def aspect_points(lo, hi):
    return np.array(list(itertools.product(*[[a - 0.3 * (b - a), a + 0.4 * (b - a), b + 2.0 * (b - a)] for a, b in zip(lo, hi)])))


SIZES = [2.0 ** e for e in range(-40, 42, 3)]


def prism_ladders():
    return [{"k": "faces", "p": p} for p in range(1, 10)] + [{"k": "far", "p": p} for p in range(1, 15)] + [{"k": "aspect", "p": p} for p in range(len(ASPECT))] + [{"k": "sizes", "p": p} for p in range(3)]


def ladder_sets(case):
    """(lo, hi, points, sizes) of a ladder case."""
    k, p = case["k"], case["p"]
    if k == "faces":
        return [(BASE[0], BASE[1], near_faces(p), [1.0])]
    if k == "far":
        return [(BASE[0], BASE[1], far_points(p), [1.0])]
    if k == "aspect":
        out = []
        for j in range(6):
            lo, hi = aspect_box(p, j)
            out.append((lo, hi, aspect_points(lo, hi), [1.0]))
        return out
    box = [BASE, ([1.0, 2.0, 4.0], [1.5, 2.75, 4.125]), ([-3.0, 0.0, -1.0], [0.0, 5.0, -0.5])][p]
    return [(box[0], box[1], np.array(list(itertools.product(*[[a - 0.4 * (b - a), a, a + 0.3 * (b - a), b + 3 * (b - a)] for a, b in zip(*box)]))), SIZES)]


def cases(tier):
    conf()
    out = [{"k": "point", "loc": l} for l in LOC] + [{"k": "sphere", "loc": l, "radius": r} for l in LOC for r in RAD]
    for i in range(len(BOXES)):
        for s in range(len(axis_points(0., 1., tier == "thorough"))):
            out += [{"k": "prism", "box": i, "slab": s, "fallback": c} for c in (0, 1)]
    out += [dict(c, fallback=f) for c in prism_ladders() for f in (0, 1)]
    out += [{"k": "through", "what": w} for w in ("distance", "mass", "radius", "inside", "density")]
    out.append({"k": "mass"})
    out.append({"k": "selftest"})
    return out


def through(case, t, gravity):
    """Point mass and sphere with one quantity through all orders of magnitude."""
    w = case["what"]
    n = 12 if t.thorough else 4
    loc = [[0.0, 0.0, 0.0], [3.0, -4.0, 2.0]]
    values = {"distance": ladder(1e-9, 1e12, n), "mass": ladder(1e-20, 1e25, n), "radius": ladder(1e-6, 1e9, n), "density": ladder(1e-12, 1e12, n), "inside": [10.0 ** -k for k in range(0, 17)]}[w]
    live = gravity.Sphere(1.0, 1.0)
    lp = gravity.PointMass()
    for v, p in itertools.product(values, loc):
        if w == "distance" and any(p) and not 1e-3 < v < 1e6:
            continue
        p = np.asarray(p)
        for sg in (1.0, -1.0) if w in ("mass", "density") else (1.0,):
            t.state(w, v, p.tolist(), sg)
            m = sg * v if w == "mass" else 2.5e7
            if w in ("distance", "mass"):
                x = np.concatenate([p + d * D for d in ([v] if w == "distance" else [0.02, 1.0, 300.0])])
                u, g, h = point(x, p, m)
                tol = 1e-11 + (1e-14 * 5 / np.abs(x - p).max() if any(p) and w == "distance" else 1e-12)
                lp.location, lp.mass = p, m
                for o in (gravity.PointMass(m, p), lp):
                    t.step(3)
                    t.close("point potential", o.gravitational_potential(x), u, tol=tol, mass=m, distance=v)
                    t.close("point field", o.gravitational_field(x), g, tol=tol, mass=m, distance=v)
                    t.close("point gradient", o.gravitational_gradient(x), h, tol=tol, vec=2, mass=m, distance=v)
            R = v if w == "radius" else 1.75
            rho = sg * v if w == "density" else 2670.0
            rr = {"distance": [v], "inside": [1.0 - v, 1.0 + v, v, 1.0 + 1.0 / v]}.get(w, [0.0, 0.02, 0.7, 1.3, 40.0])
            q = p * (R if w == "radius" else 1.0)
            x = np.concatenate([q + R * k * D for k in rr])
            r = np.sqrt(((x - q) ** 2).sum(-1))
            keep = np.abs(r / R - 1) > 1e-14
            x, r = x[keep], r[keep]
            if not len(x):
                continue
            ins = r <= R
            M = 4 * np.pi / 3 * R ** 3 * rho
            u, g, h = point(np.where(ins[:, None], q + 3.0 * R, x), q, M)
            u = np.where(ins, 2 * np.pi * G * rho * (R * R - r * r / 3), u)
            g = np.where(ins[:, None], -4 * np.pi / 3 * G * rho * (x - q), g)
            h = np.where(ins[:, None, None], -4 * np.pi / 3 * G * rho * np.eye(3), h)
            live.location, live.radius, live.rho = q, R, rho
            for o in (gravity.Sphere(R, rho, q), live):
                t.step(4)
                d = dict(radius=R, rho=rho, location=q, at=rr)
                t.close("sphere potential", o.gravitational_potential(x), u, tol=1e-11, **d)
                t.close("sphere field", o.gravitational_field(x), g, tol=1e-11, scale=np.sqrt((g ** 2).sum(-1, keepdims=True)) + (1e-3 * G * abs(rho) * R if any(p) else 0.0), atol=1e-300, **d)
                t.close("sphere gradient", o.gravitational_gradient(x), h, tol=1e-11, vec=2, **d)
                t.close("sphere mass", o.mass, M, tol=1e-13, **d)
    t.sample({"through": w, "values": len(values)})


def run_case(case, t):
    gravity = conf()[case.get("fallback", 0)]["gravity"]
    k = case["k"]
    if k == "selftest":
        e = ref_prism.selftest()
        if not e < 1e-12:
            raise OSError("reference prism integral is wrong: %g" % e)
        return
    if k == "through":
        return through(case, t, gravity)
    if k in ("faces", "far", "aspect", "sizes"):
        for lo, hi, x, sizes in ladder_sets(case):
            ref = ref_prism.derivatives(lo, hi, x)
            for z in sizes:
                for q in x:
                    t.state(k, lo, hi, q, z)
                l, h = (np.asarray(lo) * z).tolist(), (np.asarray(hi) * z).tolist()
                oracle = prism_oracle(t, l, h, x * z, ref, z)
                for rho in [1.0] if z != 1.0 else [1.0] + [sg * 10.0 ** e for e in range(-12, 13, 4) for sg in (1, -1)]:
                    oracle(gravity.Prism(l, h, rho), {"min_location": l, "max_location": h, "rho": rho})
        t.sample({"ladder": k, "rung": case["p"]})
        return
    if k == "point":
        def oracle(o, st):
            loc = np.asarray(st["location"], float)
            x = np.concatenate([loc + d * D for d in DIST])
            u, g, h = point(x, loc, st["mass"])
            tol = 1e-11 + 1e-14 * np.abs(loc).max() / 0.01
            t.step(3)
            t.close("point potential", o.gravitational_potential(x), u, tol=tol, **st)
            t.close("point field", o.gravitational_field(x), g, tol=tol, **st)
            t.close("point gradient", o.gravitational_gradient(x), h, tol=tol, vec=2, **st)
            for i in (0, 77):
                t.close("point field, one point", o.gravitational_field(x[i]), g[i], tol=tol, **st)
                t.close("point gradient, one point", o.gravitational_gradient(x[i]), h[i], tol=tol, vec=2, **st)
            t.outcome(np.round(u / G, 6)[:2])
        walk(t, "point", gravity.PointMass, {"location": [case["loc"]] + LOC, "mass": MASS}, oracle)
    elif k == "sphere":
        def oracle(o, st):
            loc, R, rho = np.asarray(st["location"], float), st["radius"], st["rho"]
            x = np.concatenate([loc + R * q * D for q in RR])
            r = np.sqrt(((x - loc) ** 2).sum(-1))
            ins = r <= R
            M = 4 * np.pi / 3 * R ** 3 * rho
            xs = np.where(ins[:, None], loc + 3.0, x)
            u, g, h = point(xs, loc, M)
            u = np.where(ins, 2 * np.pi * G * rho * (R * R - r * r / 3), u)
            g = np.where(ins[:, None], -4 * np.pi / 3 * G * rho * (x - loc), g)
            h = np.where(ins[:, None, None], -4 * np.pi / 3 * G * rho * np.eye(3), h)
            tol = 1e-11 + 1e-14 * np.abs(loc).max() / R
            ga = G * abs(rho) * R
            t.step(4)
            t.close("sphere potential", o.gravitational_potential(x), u, tol=tol, **st)
            t.close("sphere field", o.gravitational_field(x), g, tol=tol, scale=np.sqrt((g ** 2).sum(-1, keepdims=True)) + 1e-3 * ga, **st)
            t.close("sphere gradient", o.gravitational_gradient(x), h, tol=tol, vec=2, **st)
            t.close("sphere mass", o.mass, M, tol=1e-13, **st)
            for i in (0, 40, 100, 200):
                t.step()
                t.close("sphere potential, one point", o.gravitational_potential(x[i]), u[i], tol=tol)
                t.close("sphere field, one point", o.gravitational_field(x[i]), g[i], tol=tol, scale=np.sqrt((g[i] ** 2).sum()) + 1e-3 * ga)
        walk(t, "sphere", gravity.Sphere, {"location": [case["loc"]], "radius": [case["radius"]] + RAD, "rho": RHO}, oracle)
    elif k == "mass":
        # every sequence of assignments to (radius, rho, mass), against a two-variable model
        ops = [("radius", 2.0), ("radius", 0.5), ("rho", 3.0), ("rho", -1.5), ("mass", 10.0), ("mass", -4.0), ("mass", 0.0)]
        depth = 4 if t.thorough else 3
        for n in range(depth + 1):
            for seq in itertools.product(ops, repeat=n):
                o = gravity.Sphere(1.25, 2.0)
                R, rho = 1.25, 2.0
                for a, v in seq:
                    setattr(o, a, v)
                    t.step()
                    if a == "radius":
                        R = v
                    elif a == "rho":
                        rho = v
                    else:
                        rho = v / (4 * np.pi / 3 * R ** 3)
                t.state("mass", R, rho)
                t.close("radius", o.radius, R, tol=1e-14, seq=seq)
                t.close("density", o.rho, rho, tol=1e-14, seq=seq)
                t.close("mass", o.mass, 4 * np.pi / 3 * R ** 3 * rho, tol=1e-14, seq=seq)
                t.close("field", o.gravitational_field([10., 0, 0]), [-G * 4 * np.pi / 3 * R ** 3 * rho / 100, 0, 0], tol=1e-13, seq=seq)
                t.close("inside", o.gravitational_field([.25, 0, 0]), [-G * 4 * np.pi / 3 * rho * .25, 0, 0], tol=1e-13, seq=seq)
        for kw in ({}, {"mass": 7.0}):
            o = gravity.PointMass(**kw)
            t.close("default", o.mass, kw.get("mass", 1.0), tol=0)
    else:
        lo, hi = BOXES[case["box"]]
        P = box_points(lo, hi, t.thorough)
        n = len(axis_points(0., 1., t.thorough))
        x = P.reshape(n, -1, 3)[case["slab"]]
        oracle = prism_oracle(t, lo, hi, x, ref_prism.derivatives(lo, hi, x))
        for i in range(len(x)):
            t.state("prism", case["box"], x[i].tolist())
        o2 = BOXES[(case["box"] + 1) % len(BOXES)]

        def make(min_location, max_location, rho):
            return gravity.Prism(min_location, max_location, rho)
        walk(t, "prism%d" % case["box"], make, {"min_location": [lo], "max_location": [hi], "rho": RHO}, oracle)
        # the same object moved over from another box
        o = gravity.Prism(*o2, rho=7.0)
        o.gravitational_field(x[:3])
        o.min_location, o.max_location, o.rho = lo, hi, RHO[2]
        t.step(4)
        oracle(o, {"min_location": lo, "max_location": hi, "rho": RHO[2]})
