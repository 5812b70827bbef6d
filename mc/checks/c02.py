"""C02: grounded currents obey superposition, Ohm's law and the image law."""
import itertools

import numpy as np

from ..core import ladder
from ..walk import walk

RHO = [1.0, 0.05, 2500.0]
CUR = [1.0, -3.5, 200.0, 0.0]
LOCW = [[0., 0., 0.], [12.5, -7., 3.], [-100., 40., -0.5], [500000., 4100000., 12.]]
LOCH = [[0., 0., 0.], [12.5, -7., -3.], [-100., 40., -0.5], [3., 3., 0.], [500000., 4100000., -1e-3]]
DIRS = np.array([v for v in itertools.product([-1., 0., 1.], repeat=3) if any(v)] + [[1, 2, -3], [-3, 1, -2]])
DIRS = DIRS / np.sqrt((DIRS ** 2).sum(1))[:, None]
DIST = [0.01, 1.0, 6.5, 300., 1e5]


def bounds(tier):
    return {"rho": RHO, "current": CUR, "locations": {"whole": LOCW, "half": LOCH}, "directions": len(DIRS), "ladders": "resistivity and current 1e-12 to 1e12, distance 1e-6 to 1e9 (1e-30 to 1e30 around the origin), depth and separation 1e-9 to 1e9, %d values per decade" % (12 if tier == "thorough" else 4), "distances": DIST,
            "wires": WIRES}


def pts(loc, half):
    x = np.concatenate([np.asarray(loc) + d * DIRS for d in DIST])
    if half:
        s = x.copy()
        s[:, 2] = 0.0
        x = np.concatenate([x[x[:, 2] <= 0], s])
    return x


def point_V(x, p, c, rho):
    R = x - p
    r = np.sqrt((R * R).sum(-1))
    return c * rho / (4 * np.pi * r), c * rho / (4 * np.pi) * R / r[:, None] ** 3


def half_V(x, p, c, rho):
    p = np.asarray(p, float)
    a = point_V(x, p, c, rho)
    b = point_V(x, p * np.array([1, 1, -1.]), c, rho)
    return a[0] + b[0], a[1] + b[1]


def off(x, *locs):
    k = np.ones(len(x), bool)
    for p in locs:
        k &= np.sqrt(((x - np.asarray(p)) ** 2).sum(1)) > 1e-6
    return x[k]


WIRES = [[[0, 0, 0.]], [[1, 2, 3.]], [[0., 0, 0], [1, 0, 0]], [[0, 0, 0.], [5, 5, 1], [9, 0, -4.]],
         [[0, 0, 0.], [1, 0, 0], [0, 1, 0], [0, 0, 0]], [[2., 2, 2], [2, 2, 2]], [[1, 1, 1.], [0, 3, 1.], [0, 3, 1]],
         [[500000., 4100000, -10], [500002, 4100001, -10]], [[500000., 4100000, -10], [502000, 4100000, -10], [500002, 4100001, -10]], [[0, 0, 0.], [1, 0, 0], [1e-9, 0, 0]], [[0, 0, 0.], [1e-4, 0, 0]]]


# shapes of the two sets of electrodes of a measurement, as numpy combines them
PAIRSHAPES = [((), ()), ((), (1,)), ((), (4,)), ((), (2, 3)), ((1,), (4,)), ((3,), (3,)), ((3, 1), (4,)), ((1, 4), (3, 1)), ((2, 1, 4), (3, 1)), ((2, 3), (3,)), ((0,), ()), ((2, 0), ())]


def cases(tier):
    out = [{"k": "pointwhole", "loc": l} for l in LOCW]
    out += [{"k": "pointhalf", "loc": l} for l in LOCH]
    out += [{"k": "wire", "i": i} for i in range(len(WIRES))]
    out += [{"k": "dipole", "a": a, "b": b} for a in LOCH for b in LOCH]
    out += [{"k": "reject"}, {"k": "reciprocity"}, {"k": "nodes"}]
    out += [{"k": "ladder", "c": c, "p": p} for c in ("whole", "half", "dipole", "wire") for p in ("rho", "current", "distance", "reach", "depth", "separation")]
    out += [{"k": "pairs", "i": i} for i in range(len(PAIRSHAPES))]
    return out


def through(case, t):
    """One quantity through all orders of magnitude, the others fixed."""
    from geoana.em import static
    c, p = case["c"], case["p"]
    half = c in ("half", "dipole")
    live = None
    n = 12 if t.thorough else 4
    values = {"rho": ladder(1e-12, 1e12, n), "current": ladder(1e-12, 1e12, n), "distance": ladder(1e-6, 1e9, n), "reach": ladder(1e-30, 1e30, n), "depth": [0.0] + ladder(1e-9, 1e9, n), "separation": ladder(1e-9, 1e9, n)}[p]
    if p == "separation" and c in ("whole", "half"):
        return
    for v in values:
        for sign in (1.0, -1.0):
            if sign < 0 and p in ("rho", "depth"):
                continue
            rho = v if p == "rho" else 35.0
            cur = v * sign if p == "current" else 1.75
            a = np.array([0.0, 0.0, -v]) if p == "depth" else np.array([0.0, 0.0, -1.0 if p == "distance" else 0.0])
            gap = sign * v if p == "separation" else 4.0
            b = a + np.array([gap, 0.0, 0.0])
            dist = [v] if p in ("distance", "reach") else [0.5 * max(v, 1e-3) if p in ("separation", "depth") else 0.5, 20.0, 1e3]
            x = np.concatenate([sg * d * DIRS + a for d in dist for sg in ((sign,) if p in ("distance", "reach") else (1.0,))])
            x = np.concatenate([x, x * np.array([1, 1, 0.0])])
            if half:
                x = x[x[:, 2] <= 0]
            x = x[(np.sqrt(((x - a) ** 2).sum(1)) > 1e-3 * min(dist)) & (np.sqrt(((x - b) ** 2).sum(1)) > 1e-3 * min(dist))]
            ref = half_V if half else point_V
            A = ref(x, a, cur, rho)
            V, E, sV, sE = A[0], A[1], np.abs(A[0]), np.sqrt((A[1] ** 2).sum(-1))
            if c in ("dipole", "wire"):
                B = ref(x, b, cur, rho)
                V, E, sV, sE = A[0] - B[0], A[1] - B[1], sV + np.abs(B[0]), sE + np.sqrt((B[1] ** 2).sum(-1))
            if half and len(x):       # the image may cancel part of the field
                sE = sE + np.sqrt((point_V(x, a, cur, rho)[1] ** 2).sum(-1))
            st = {"whole": dict(rho=rho, current=cur, location=a), "half": dict(rho=rho, current=cur, location=a), "dipole": dict(rho=rho, current=cur, location_a=a, location_b=b),
                  "wire": dict(sigma=1 / rho, current=cur, nodes=np.array([b, a]))}[c]
            cls = {"whole": static.PointCurrentWholeSpace, "half": static.PointCurrentHalfSpace, "dipole": static.DipoleHalfSpace, "wire": static.LineCurrentWholeSpace}[c]
            if live is None:
                live = cls(**st)
            else:
                for q in st:
                    setattr(live, q, st[q])
            t.state("ladder", c, p, v, sign)
            tol = 1e-11 + 1e-14 * (np.abs(a).max() + np.abs(b).max()) / min(dist)
            for o in (cls(**st), live):
                t.step(3)
                t.close("%s potential, %s" % (c, p), (o.scalar_potential if c == "wire" else o.potential)(x), V, tol=tol, scale=sV, **st)
                t.close("%s field, %s" % (c, p), o.electric_field(x), E, tol=tol, scale=sE[:, None], **st)
                t.close("%s current, %s" % (c, p), o.current_density(x), E / rho, tol=tol, scale=sE[:, None] / rho, **st)
            if t.violations:
                return
    t.sample({"class": c, "quantity": p, "values": len(values)})


def run_case(case, t):
    from geoana.em import static
    k = case["k"]
    if k == "ladder":
        return through(case, t)
    if k == "pointwhole":
        def oracle(o, st):
            p = np.asarray(st["location"])
            x = pts(p, False)
            rho = 1 / st["sigma"] if "sigma" in st else st["rho"]
            V, E = point_V(x, p, st["current"], rho)
            t.step(4)
            tol = 1e-12 + 1e-14 * (np.abs(p).max() + 1) / 0.01
            t.close("potential", o.potential(x), V, tol=tol, **st)
            t.close("scalar potential", o.scalar_potential(x), V, tol=tol, **st)
            t.close("electric field", o.electric_field(x), E, tol=tol, **st)
            t.close("current density", o.current_density(x), E / rho, tol=tol, **st)
            for i in (0, 7, 60):
                t.close("potential, one point", o.potential(x[i]), V[i], tol=tol)
                t.close("field, one point", o.electric_field(x[i]), E[i], tol=tol)
            t.outcome(np.round(V[:2], 9))
        walk(t, "pointwhole", static.PointCurrentWholeSpace, {"location": [case["loc"]] + LOCW, "rho": RHO, "current": CUR}, oracle)

        def make(location, sigma, current):
            o = static.PointCurrentWholeSpace(7.0, current, location)
            o.sigma = sigma
            return o
        walk(t, "pointwhole-sigma", make, {"location": [case["loc"]] + LOCW, "sigma": [1 / r for r in RHO], "current": CUR}, oracle)
    elif k == "pointhalf":
        def oracle(o, st):
            p = np.asarray(st["location"])
            x = off(pts(p, True), p)
            V, E = half_V(x, p, st["current"], st["rho"])
            tol = 1e-12 + 1e-14 * (np.abs(p).max() + 1) / 0.01
            t.step(3)
            t.close("half-space potential", o.potential(x), V, tol=tol, **st)
            e = o.electric_field(x)
            t.close("half-space field", e, E, tol=tol, **st)
            t.close("half-space current", o.current_density(x), E / st["rho"], tol=tol, **st)
            sx = x[:, 2] == 0
            t.close("no flow through surface", e[sx][:, 2], 0 * e[sx][:, 2], tol=1,
                    scale=1e-13 * np.sqrt((E[sx] ** 2).sum(1)) + 1e-300)
        walk(t, "pointhalf", static.PointCurrentHalfSpace, {"location": [case["loc"]] + LOCH, "rho": RHO, "current": CUR}, oracle)
    elif k == "wire":
        def oracle(o, st):
            nodes = np.asarray(st["nodes"], float)
            x = off(np.concatenate([pts(n, False) for n in nodes]), *nodes)
            rho = 1 / st["sigma"]
            if len(nodes) == 1:
                V, E = point_V(x, nodes[0], st["current"], rho)
                sV, sE = np.abs(V), np.sqrt((E ** 2).sum(-1))
            else:
                a, b = point_V(x, nodes[-1], st["current"], rho), point_V(x, nodes[0], st["current"], rho)
                V, E = a[0] - b[0], a[1] - b[1]
                sV, sE = np.abs(a[0]) + np.abs(b[0]), np.sqrt((a[1] ** 2).sum(-1)) + np.sqrt((b[1] ** 2).sum(-1))
            t.step(3)
            t.close("wire potential", o.scalar_potential(x), V, tol=1e-11, scale=sV + 1e-290, **st)
            t.close("wire field", o.electric_field(x), E, tol=1e-11, scale=sE[:, None] + 1e-290, **st)
            t.close("wire current", o.current_density(x), E / rho, tol=1e-11, scale=sE[:, None] / rho + 1e-290, **st)
        i = case["i"]
        walk(t, "wire", static.LineCurrentWholeSpace,
             {"nodes": [WIRES[i - 1], WIRES[i]], "sigma": [1 / r for r in RHO], "current": CUR, "mu": [1e-6, 1.0]}, oracle)
    elif k == "nodes":
        from .c01 import COUNTS, helix
        x = np.array([[0.1, 0.2, 0.3], [-0.7, 0.5, 1], [5.0, -4.0, 6.0], [300.0, 100.0, 7.0]])
        for n, closed in itertools.product(COUNTS, (False, True)):
            if closed and n < 4:
                continue
            t.state("nodes", n, closed)
            nodes = np.array(helix(n, closed))
            o = static.LineCurrentWholeSpace(nodes, current=-2.5, sigma=0.2)
            a, b = point_V(x, nodes[-1], -2.5, 5.0), point_V(x, nodes[0], -2.5, 5.0)
            t.step(3)
            t.close("potential of a wire of many nodes", o.scalar_potential(x), a[0] - b[0], tol=1e-11, scale=np.abs(a[0]), vec=False, nodes=n, closed=closed)
            t.close("field of a wire of many nodes", o.electric_field(x), a[1] - b[1], tol=1e-11, scale=np.abs(a[1]).max(-1, keepdims=True), nodes=n, closed=closed)
            t.close("current of a wire of many nodes", o.current_density(x), (a[1] - b[1]) / 5.0, tol=1e-11, scale=np.abs(a[1]).max(-1, keepdims=True) / 5.0, nodes=n, closed=closed)
    elif k == "pairs":
        sm, sn = PAIRSHAPES[case["i"]]
        a, b, rho, I = np.array([0.5, -1.0, -0.25]), np.array([7.0, 2.0, 0.0]), 35.0, -2.5

        def grid(shape, off):
            u = np.arange(int(np.prod(shape))) + off
            return np.stack([3 * np.sin(1.3 * u) + 10, 5 * np.cos(2.1 * u) - 4, -np.abs(2 * np.sin(0.7 * u)) * (u % 3 > 0)], -1).reshape(shape + (3,))

        def ref(q):
            A, B = half_V(q.reshape(-1, 3), a, I, rho), half_V(q.reshape(-1, 3), b, I, rho)
            return (A[0] - B[0]).reshape(q.shape[:-1]), (A[1] - B[1]).reshape(q.shape)
        for s1, s2 in ((sm, sn), (sn, sm)):
            m, n = grid(s1, 0.3), grid(s2, 50.7)
            vm, vn = ref(m), ref(n)
            o = static.DipoleHalfSpace(rho, a, b, I)
            for m1, n1 in ((m, n), (m.tolist(), n.tolist()), (np.asfortranarray(m), n), (m, n[..., ::-1].copy()[..., ::-1])):
                if not (m.size and n.size) and isinstance(m1, list):
                    continue
                t.state("pairs", s1, s2, type(m1).__name__)
                t.step(3)
                t.close("potential difference of shapes", o.potential(m1, n1), vm[0] - vn[0], tol=1e-11, scale=1.0, vec=False, m=s1, n=s2)
                t.close("field difference of shapes", o.electric_field(m1, n1), vm[1] - vn[1], tol=1e-11, scale=1.0, m=s1, n=s2)
                t.close("current difference of shapes", o.current_density(m1, n1), (vm[1] - vn[1]) / rho, tol=1e-11, scale=1 / rho, m=s1, n=s2)
            # receivers in the same place, some of them, and next to each other
            same = [("same array", m), ("same place", m.copy()), ("same coordinates", m * np.array([1.0, 1.0, 0.5])), ("exchanged", m[..., [1, 0, 2]])]
            if m.size:
                one = m.copy()
                one[(0,) * (m.ndim - 1)] += np.array([1.0, -2.0, -0.5])
                same += [("all but one", one), ("one", np.where(one == m, m - np.array([0.5, 0.5, 0.5]), m))]
            same += [("%g apart" % e, m + e * np.array([1.0, -1.0, -0.5])) for e in (1e-3, 1e-5, 1e-7, 1e-9)]
            for name, n in same:
                n = np.minimum(n, [np.inf, np.inf, 0.0]) if n is not m else n
                vn = ref(n)
                t.state("pairs", s1, name)
                t.step(3)
                t.close("potential difference, %s" % name, o.potential(m, n), vm[0] - vn[0], tol=1e-13, scale=1.0, vec=False, m=s1)
                t.close("field difference, %s" % name, o.electric_field(m, n), vm[1] - vn[1], tol=1e-13, scale=1.0, m=s1)
                t.close("current difference, %s" % name, o.current_density(m, n), (vm[1] - vn[1]) / rho, tol=1e-13, scale=1 / rho, m=s1)
            both = static.DipoleHalfSpace(rho, a, a, I)
            t.step(2)
            t.close("electrodes in the same place", both.potential(m), 0 * vm[0], tol=1e-13, scale=1.0, vec=False, m=s1)
            t.close("field of electrodes in the same place", both.electric_field(m), 0 * vm[1], tol=1e-13, scale=1.0, m=s1)
    elif k == "dipole":
        def oracle(o, st):
            a, b = np.asarray(st["location_a"]), np.asarray(st["location_b"])
            x = off(np.concatenate([pts(a, True)[::3], pts(b, True)[1::5]]), a, b)
            y = x[::-1] * np.array([1, 1, 1.5]) - np.array([0.5, 0.25, 0.125])
            y = np.where(np.sqrt(((y - a) ** 2).sum(1))[:, None] < 1e-6, y - 1.0, y)
            y = np.where(np.sqrt(((y - b) ** 2).sum(1))[:, None] < 1e-6, y - 1.0, y)
            I, rho = st["current"], st["rho"]
            def ref(q):
                A, B = half_V(q, a, I, rho), half_V(q, b, I, rho)
                return (A[0] - B[0], A[1] - B[1], np.abs(A[0]) + np.abs(B[0]),
                        np.sqrt((A[1] ** 2).sum(-1)) + np.sqrt((B[1] ** 2).sum(-1)))
            m, n = ref(x), ref(y)
            tol = 1e-10
            t.step(6)
            t.close("dipole potential", o.potential(x), m[0], tol=tol, scale=m[2] + 1e-290, **st)
            t.close("dipole field", o.electric_field(x), m[1], tol=tol, scale=m[3][:, None] + 1e-290, **st)
            t.close("dipole current", o.current_density(x), m[1] / rho, tol=tol, scale=m[3][:, None] / rho + 1e-290, **st)
            t.close("pair potential", o.potential(x, y), m[0] - n[0], tol=tol, scale=m[2] + n[2] + 1e-290, **st)
            t.close("pair field", o.electric_field(x, y), m[1] - n[1], tol=tol, scale=(m[3] + n[3])[:, None] + 1e-290, **st)
            t.close("pair current", o.current_density(x, y), (m[1] - n[1]) / rho, tol=tol, scale=(m[3] + n[3])[:, None] / rho + 1e-290, **st)
        walk(t, "dipole", static.DipoleHalfSpace,
             {"location_a": [LOCH[1], case["a"]], "location_b": [LOCH[0], case["b"]], "rho": RHO, "current": CUR}, oracle)
    elif k == "reciprocity":
        P = [[0., 0, 0], [3, 1, 0], [10., -4, -2], [-7, 2, -11], [0.5, 0.5, -0.25]]
        for rho in RHO:
            for a, b, m, n in itertools.permutations(P, 4):
                t.state("rec", rho, a, b, m, n)
                t.step(2)
                d1 = static.DipoleHalfSpace(rho, np.array(a), np.array(b)).potential(np.array(m), np.array(n))
                d2 = static.DipoleHalfSpace(rho, np.array(m), np.array(n)).potential(np.array(a), np.array(b))
                s = abs(static.DipoleHalfSpace(rho, np.array(a), np.array(b)).potential(np.array(m))) + rho * 0.1
                t.close("reciprocity", d1, d2, tol=1e-11, scale=s, a=a, b=b, m=m, n=n)
    else:
        good = np.array([[1., 2, -1], [3, 3, 0.0], [5, 5, -7]])
        for cls, mk in ((static.PointCurrentHalfSpace, lambda: static.PointCurrentHalfSpace(2.0, 1.0, np.array([0., 0, -1]))),
                        (static.DipoleHalfSpace, lambda: static.DipoleHalfSpace(2.0, np.array([0., 0, -1]), np.array([2., 0, 0])))):
            for i in range(3):
                for z in (1e-9, 0.5, 1e6):
                    bad = good.copy()
                    bad[i, 2] = z
                    t.state("reject", cls.__name__, i, z)
                    for f in ("potential", "electric_field", "current_density"):
                        t.raises("%s.%s above the surface" % (cls.__name__, f), getattr(mk(), f), bad)
                        t.raises("%s.%s one point above" % (cls.__name__, f), getattr(mk(), f), bad[i])
                        if cls is static.DipoleHalfSpace:
                            t.raises("pair %s m above" % f, getattr(mk(), f), bad, good)
                            t.raises("pair %s n above" % f, getattr(mk(), f), good, bad)
                    v = [1., 1., z]
                    o = mk()
                    for a in ("location", "location_a", "location_b"):
                        if hasattr(o, a):
                            t.raises("%s.%s above" % (cls.__name__, a), setattr, o, a, v)
            if cls is static.PointCurrentHalfSpace:
                t.raises("construct above", cls, 1.0, 1.0, [0, 0, 1.0])
            else:
                t.raises("construct a above", cls, 1.0, [0, 0, 1.0], [0, 0, 0.])
                t.raises("construct b above", cls, 1.0, [0, 0, 0.0], [0, 0, 1e-3])
