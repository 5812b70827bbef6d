"""C01: static magnetic sources obey the Biot-Savart and Coulomb laws."""
import itertools

import numpy as np
from scipy.special import ellipe, ellipkm1

from .. import ref
from ..core import ladder
from ..ref import mu_0, unit, frame
from ..walk import walk

ORI = ["X", "y", "Z", [0, 0, -2.0], [-3.0, 0, 0], [0, -1, 0], [1.0, 2.0, 3.0], [-0.3, 0.2, -4.0],
       [1e-4, 0, -1.0], [1e-9, 0, -1.0], [0.0, 1e-7, 1.0]]
LOC = [[0., 0., 0.], [10., -20.5, 3.25], [-0.7, 0.1, -150.], [500000., 4100000., 12.]]
MU = [mu_0, 2.5 * mu_0, 1.0]
STR = [1.0, -2.5, 1e3, 0.0]
RAD = [1 / np.sqrt(np.pi), 0.3, 25.0]

DIRS = np.array([v for v in itertools.product([-1., 0., 1.], repeat=3) if any(v)] +
                [[1, 2, 3], [-3, 1, 2], [0.1, -2, 0.7]], dtype=float)
DIST = [1e-3, 0.1, 1.0, 7.3, 1e3, 1e6]


def cloud(loc):
    d = DIRS / np.sqrt((DIRS ** 2).sum(1))[:, None]
    return np.concatenate([np.asarray(loc) + r * d for r in DIST])


def bounds(tier):
    return {"orientations": ORI, "locations": LOC, "mu": MU, "strengths": STR, "radii": RAD,
            "points per dipole state": len(cloud(LOC[0])), "polylines": len(LINES), "nodes of a polyline": COUNTS,
            "ladders": LADDERS, "ladder density": "%d values per decade over 12 to 24 decades; tilts 1e-1 to 1e-15 from every axis" % (8 if tier == "thorough" else 3), "note": "full product of the parameter domains, visited by setters and by construction"}


def loop_points(n, loc, a, thorough):
    e1, e2, n = frame(n)
    rho = [0, 1e-9, 1e-5, 0.9e-3, 1.1e-3, 0.01, 0.3, 0.5, 0.95, 1.0, 1.05, 2.0, 10., 100.]
    z = [0, 1e-3, -1e-3, .1, -.1, .5, -.5, np.sqrt(.75), 1., -1., 3., -10., 100.]
    phi = [0.0, 0.7, np.pi / 2, 2.5, np.pi, -1.9]
    if thorough:
        rho += [1e-4, 5e-4, 2e-3, 0.1, 0.7, 0.9, 1.2, 1.5, 4., 30.]
        z += [-100., 10., -3., .03, -.03, .2, -.2, .75, -.75, 1.5, -2.]
        phi += [np.pi / 4, -np.pi / 2, -0.3]
    out = []
    for r, zz in itertools.product(rho, z):
        if (r - 1) ** 2 + zz ** 2 < 0.04 ** 2:
            continue
        for p in (phi if r > 0 else [0.0]):
            out.append((r, p, zz))
    q = np.array(out)
    x = np.asarray(loc) + a * (q[:, 0:1] * (np.cos(q[:, 1:2]) * e1 + np.sin(q[:, 1:2]) * e2) + q[:, 2:3] * n)
    return x


LINES = [
    [[0., 0, 0], [1, 0, 0]], [[0., 0, 0], [-2, 0, 0]], [[0., 0, 0], [0, 3, 0]], [[0, 0, 1.], [0, 0, -1]],
    [[1, 2, 3.], [-1, 0.5, 7]], [[1, 0, 0], [-1, 1e-9, 0]],
    [[0, 0, 0.], [1, 0, 0], [1, 1, 0], [1, 1, 2]],
    [[-1, -1, 0.], [1, -1, 0], [1, 1, 0], [-1, 1, 0], [-1, -1, 0]],
    [[0, 0, 0.], [0, 0, 0], [1, 2, 0], [1, 2, 0], [3, 1, -1]],
    [[5., 5, 5], [5, 5, 6], [5, 5, 8]], [[0., 0, 0], [1, 1, 1], [0, 0, 0]],
    [[100., 200, -5], [150, 260, -5], [90, 300, 10.]],
    [[0., 0, 0], [10, 0, 0], [20, 0.03, 0], [30, 0.03, 0.002]], [[0., 0, 0], [5, 0, 0], [0, 0.01, 0]],
    [[0., 0, 0], [1e-3, 0, 0], [1e-3, 2e-3, 0], [1e-3, 2e-3, 1e-5]], [[500000., 4100000, -10], [500100, 4100050, -10], [500000, 4100000.5, -10]],
    [[np.cos(a), np.sin(a), 0.1 * a] for a in np.linspace(0, 6.0, 25)],
]


def line_points(nodes):
    """Points around every node and every segment, including the lines extending them."""
    nodes = np.asarray(nodes, float)
    pts = []
    for p0, p1 in zip(nodes[:-1], nodes[1:]):
        L = np.sqrt(((p1 - p0) ** 2).sum())
        if L == 0:
            continue
        e1, e2, n = frame(p1 - p0)
        for s in (-30, -1.0, -0.25, 0.0, 0.2, 0.5, 1.0, 1.5, 2.0, 40.):
            for d in (0.0, 0.02, 0.3, 1.0, 5., 100.):
                if d == 0 and -1e-9 <= s <= 1 + 1e-9:
                    continue
                for ph in ((0.3, 2.0, -2.4) if d else (0.,)):
                    pts.append(p0 + s * (p1 - p0) + L * d * (np.cos(ph) * e1 + np.sin(ph) * e2))
    pts = np.array(pts)
    # not on the wire itself
    keep = np.ones(len(pts), bool)
    for p0, p1 in zip(nodes[:-1], nodes[1:]):
        l = p1 - p0
        L2 = (l * l).sum()
        if L2 == 0:
            continue
        s = np.clip((pts - p0) @ l / L2, 0, 1)
        keep &= np.sqrt(((pts - p0 - s[:, None] * l) ** 2).sum(1)) > 1e-3 * np.sqrt(L2)
    # on the extension of another segment the field of that segment is ill-conditioned next to it
    return pts[keep]


def axis_distance(x, nodes):
    d = np.full(len(x), np.inf)
    for p0, p1 in zip(nodes[:-1], nodes[1:]):
        l = p1 - p0
        L = np.sqrt((l * l).sum())
        if L == 0:
            continue
        c = norm1(np.cross(x - p0, l / L))
        # nearest approach to an end is the scale of the rounding error divided by c
        d = np.minimum(d, np.where(c < 1e-12 * np.maximum(norm1(x - p0), L), np.inf, c))
    return d


def norm1(v):
    return np.sqrt((v * v).sum(-1))


LADDERS = {"dipole": ["distance", "mu", "strength", "tilt"], "pole": ["distance", "mu", "strength", "tilt"], "loop": ["distance", "wire", "mu", "strength", "radius", "tilt"],
           "line": ["distance", "mu", "strength", "size", "tilt", "bend", "gap", "count", "short", "uneven"]}


def cases(tier):
    out = []
    for k in ("dipole", "pole"):
        for i in range(len(LOC)):
            out.append({"src": k, "loc": LOC[i]})
    for o in range(len(ORI)):
        for a in RAD:
            out.append({"src": "loop", "ori": ORI[o], "radius": a})
    for i in range(len(LINES)):
        out.append({"src": "line", "line": i})
    for k, qs in LADDERS.items():
        out += [{"src": "L-" + k, "q": q} for q in qs]
    return out


def dip_oracle(t, src, o, st, x=None):
    loc = np.asarray(st["location"])
    if x is None:
        x = cloud(loc)
    m = st["moment"] * unit(st["orientation"])
    t.step(3)
    # rounding of (x - location) is amplified when the point is close to a distant source
    cond = 1e-11 + 1e-14 * np.abs(loc).max() / norm1(x - loc)[:, None]
    if src == "dipole":
        B = ref.mdipole_B(x, loc, m, st["mu"])
        A = ref.mdipole_A(x, loc, m, st["mu"])
        t.close("dipole vector potential", o.vector_potential(x), A,
                scale=cond * st["mu"] * abs(st["moment"]) / ref.norm(x - loc) ** 2, tol=1, **st)
    else:
        B = ref.mpole_B(x, loc, st["moment"], st["mu"])
    t.close("flux density", o.magnetic_flux_density(x), B, tol=1, scale=cond * ref.norm(B), **st)
    t.close("magnetic field", o.magnetic_field(x), B / st["mu"], tol=1, scale=cond * ref.norm(B) / st["mu"], **st)
    t.outcome(np.round(B[:3] / st["mu"], 12))


def loop_oracle(t, o, st, x=None):
    a, loc = st["radius"], np.asarray(st["location"])
    n = unit(st["orientation"])
    if x is None:
        x = loop_points(n, loc, a, t.thorough)
    A, B = ref.loop_AB(x, loc, n, a, st["current"], st["mu"])
    t.step(3)
    z = (x - loc) @ n
    rv = x - loc - z[:, None] * n
    rho = norm1(rv)
    s2 = a * a + rho ** 2 + z ** 2
    with np.errstate(all="ignore"):
        er = np.where(rho[:, None] > 1e-12 * (a + np.abs(z) + norm1(loc))[:, None], rv / rho[:, None], 0)
        er = er - (er @ n)[:, None] * n
    near = norm1(np.stack([rho - a, z], -1))
    # rounding of the coordinates, seen over the distance to the wire
    noise = 1e-14 * (norm1(loc) + a + norm1(x - loc)) / near
    ephi = np.cross(np.broadcast_to(n, er.shape), er)
    got = o.vector_potential(x)
    amp = st["mu"] * abs(st["current"])
    Aphi = np.sum(A * ephi, -1)
    lim = 1e-11 * np.abs(Aphi) + noise * amp * a * a / s2 + 1e-300
    t.close("loop vector potential", got, A, tol=1, scale=lim[:, None], **st)
    got = o.magnetic_flux_density(x)
    t.step()
    Bn = norm1(B)
    Br = np.sum(B * er, -1)
    t.close("loop axial flux", got @ n, B @ n, tol=1, scale=(1e-11 + noise) * Bn + 1e-300, **st)
    t.close("loop radial flux", np.sum(got * er, -1), Br, tol=1, scale=1e-11 * np.abs(Br) + noise * Bn + 1e-300, **st)
    t.close("loop flux", got, B, tol=1, scale=((1e-11 + noise) * Bn + 1e-300)[:, None], **st)
    t.close("loop azimuthal flux", np.sum(got * ephi, -1), np.zeros(len(x)), tol=1,
            scale=(1e-12 + noise) * Bn + 1e-300, **st)
    t.close("loop field", o.magnetic_field(x), got / st["mu"], tol=1e-12, **st)


def wire_oracle(t, o, st, x):
    """Next to the wire: the elliptic integrals, arguments formed from the distance to the wire."""
    a, n = st["radius"], unit(st["orientation"])
    z = x @ n
    rv = x - z[:, None] * n
    rho = norm1(rv)
    dev = rho - a
    gap2 = dev ** 2 + z ** 2
    far2 = (a + rho) ** 2 + z ** 2
    K, E = ellipkm1(gap2 / far2), ellipe(1 - gap2 / far2)
    f = st["mu"] * st["current"] / (2 * np.pi * np.sqrt(far2))
    Bz = f * (K + (-dev * (a + rho) - z ** 2) / gap2 * E)
    Br = f * z / rho * (-K + (a * a + rho ** 2 + z ** 2) / gap2 * E)
    Ap = f / rho * ((a * a + rho ** 2 + z ** 2) * K - far2 * E)
    er = rv / rho[:, None]
    B, A = Br[:, None] * er + Bz[:, None] * n, Ap[:, None] * np.cross(np.broadcast_to(n, er.shape), er)
    t.step(3)
    tol = (1e-9 + 2e-15 * a / np.sqrt(gap2))[:, None]
    got = o.magnetic_flux_density(x)
    t.close("flux next to the wire", got, B, tol=1, scale=tol * norm1(B)[:, None], **st)
    t.close("field next to the wire", o.magnetic_field(x), B / st["mu"], tol=1, scale=tol * norm1(B)[:, None] / st["mu"], **st)
    t.close("potential next to the wire", o.vector_potential(x), A, tol=1, scale=tol * norm1(A)[:, None], **st)
    if gap2.max() > 0.0025 * a * a:
        # the two reference models agree where both apply
        A2, B2 = ref.loop_AB(x, np.zeros(3), n, a, st["current"], st["mu"], 2880)
        assert np.abs(A2 - A).max() < 1e-9 * np.abs(A).max() and np.abs(B2 - B).max() < 1e-9 * np.abs(B).max()


def line_oracle(t, o, st, x=None):
    nodes = np.asarray(st["nodes"], float)
    if x is None:
        x = line_points(nodes)
    A, B = ref.polyline_AB(x, nodes, st["current"], st["mu"])
    t.step(3)
    c = axis_distance(x, nodes)
    f = st["mu"] * abs(st["current"]) / (4 * np.pi)
    ext = norm1(nodes.max(0) - nodes.min(0)) + norm1(nodes).max()
    nseg = len(nodes)
    lim = 1e-9 * norm1(B) + f * nseg * 1e-14 * (1 / c) * (1 + ext / np.minimum(c, ext)) + 1e-13 * f / ext + 1e-300
    t.close("line flux density", o.magnetic_flux_density(x), B, tol=1, scale=lim[:, None], **st)
    t.close("line magnetic field", o.magnetic_field(x), B / st["mu"], tol=1, scale=lim[:, None] / st["mu"], **st)
    limA = 1e-9 * norm1(A) + f * nseg * 1e-12 + f * 2e-16 * (ext / c) ** 2 + 1e-300
    t.close("line vector potential", o.vector_potential(x), A, tol=1, scale=limA[:, None], **st)
    # each point alone as well
    for i in range(0, len(x), 37):
        t.step()
        t.close("line flux density, one point", o.magnetic_flux_density(x[i]), B[i], tol=1, scale=lim[i], **st)


TILT = [10.0 ** -k for k in range(1, 16)]


def tilted(k, far):
    """Directions next to every axis: (label, vector)."""
    out = []
    for ax in range(3):
        for sg in (1.0, -1.0):
            v = np.zeros(3)
            v[ax], v[(ax + 1 + far) % 3] = sg, TILT[k]
            out.append(v)
    return out


COUNTS = list(range(2, 41)) + [63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 257, 500, 513, 1001, 1025]


def helix(n, closed):
    """n nodes along a winding path of uneven steps, the last one at the first if closed."""
    s = np.cumsum(1.0 + 0.6 * np.sin(np.arange(n) * 2.4))
    s = (s - s[0]) / (s[-1] - s[0]) * (2 * np.pi if closed else 5.0)
    p = np.c_[2.0 * np.cos(s), 1.5 * np.sin(s), 0.4 * np.cos(2 * s + 0.3) if closed else 0.3 * s]
    if closed:
        p[-1] = p[0]
    return p.tolist()


def through(case, t):
    """One quantity through all orders of magnitude, the others fixed."""
    from geoana.em import static
    src, q = case["src"][2:], case["q"]
    n = 8 if t.thorough else 3
    d = DIRS / norm1(DIRS)[:, None]
    live = None
    if src in ("dipole", "pole"):
        cls = static.MagneticDipoleWholeSpace if src == "dipole" else static.MagneticPoleWholeSpace
        base = dict(location=[0.5, -0.25, 2.0], mu=mu_0, moment=1.5, orientation=[0.3, -1.0, 0.4])
        rungs = {"distance": [(base, np.asarray(base["location"]) + r * d) for r in ladder(1e-5, 1e9, n)]
                 + [(dict(base, location=[0.0, 0.0, 0.0]), r * d) for r in ladder(1e-30, 1e30, n)],
                 "mu": [(dict(base, mu=v), None) for v in ladder(1e-10, 1e10, n)],
                 "strength": [(dict(base, moment=s * v), None) for v in ladder(1e-12, 1e12, n) for s in (1, -1)],
                 "tilt": [(dict(base, orientation=v.tolist()), None) for k in range(len(TILT)) for far in (0, 1) for v in tilted(k, far)]}[q]
        oracle = lambda o, st, x: dip_oracle(t, src, o, st, x)
    elif src == "loop":
        cls = static.CircularLoopWholeSpace
        base = dict(location=[0.5, -0.25, 2.0], mu=mu_0, current=1.5, orientation=[0.3, -1.0, 0.4], radius=2.0)

        def near(st, rho, z):
            e1, e2, nn = frame(unit(st["orientation"]))
            a = st["radius"]
            return np.array([np.asarray(st["location"]) + a * (r * (np.cos(p) * e1 + np.sin(p) * e2) + zz * nn) for r in rho for zz in z for p in (0.0, 0.7, 2.5, -1.9) if (r - 1) ** 2 + zz ** 2 > 1.6e-3])
        def wire(st, gap):
            """Points at a given distance from the wire itself; the circle lies in a coordinate plane."""
            e1, e2, nn = np.eye(3)[(1, 2, 0)[st["axis"]]], np.eye(3)[(2, 0, 1)[st["axis"]]], np.eye(3)[st["axis"]]
            a = st["radius"]
            return np.array([sg * (a + gap * np.cos(p)) * e + gap * np.sin(p) * nn for p in np.arange(8) * np.pi / 4 + 0.1 for e in (e1, e2) for sg in (1, -1)])
        few = ([0.0, 1e-4, 0.3, 1.5, 8.0], [0.0, 0.5, -2.0])
        rungs = {"distance": [(base, near(base, [r], [0.0, 1e-6, 0.02, 0.5, -1.0, 4.0, -30.0])) for r in ladder(1e-8, 1e12, 2 * n) if abs(r - 1) > 0.05]
                 + [(base, near(base, [0.0, 1e-7, 1e-3, 0.5, 0.99, 1.01, 3.0], [z, -z])) for z in ladder(1e-8, 1e12, 2 * n) if z > 0.05 or z < 1e-2],
                 "mu": [(dict(base, mu=v), near(base, *few)) for v in ladder(1e-10, 1e10, n)],
                 "wire": [(dict(base, location=[0.0, 0.0, 0.0], radius=a, orientation="XYZ"[ax]), wire({"radius": a, "axis": ax}, a * g)) for g in ladder(1e-13, 0.1, n) for a in (2.0, 1e-3) for ax in range(3)],
                 "strength": [(dict(base, current=s * v), near(base, *few)) for v in ladder(1e-12, 1e12, n) for s in (1, -1)],
                 "radius": [(st, near(st, *few)) for st in (dict(base, radius=v, location=[0.0, 0.0, 0.0]) for v in ladder(1e-6, 1e6, n))],
                 "tilt": [(st, near(st, *few)) for st in (dict(base, orientation=v.tolist()) for k in range(len(TILT)) for far in (0, 1) for v in tilted(k, far))]}[q]
        oracle = (lambda o, st, x: wire_oracle(t, o, st, x)) if q == "wire" else (lambda o, st, x: loop_oracle(t, o, st, x))
    else:
        cls = static.LineCurrentWholeSpace
        path = np.array([[0.0, 0, 0], [2.0, 0.5, 0], [2.0, 1.5, -0.5]])
        base = dict(nodes=path.tolist(), mu=mu_0, current=1.5)
        e1, e2, nn = frame(path[1] - path[0])
        rungs = {"distance": [(base, np.array([path[0] + s * (path[1] - path[0]) + r * (np.cos(p) * e1 + np.sin(p) * e2) for s in (0.1, 0.5, 0.8) for p in (0.3, 2.0, -2.4)])) for r in ladder(1e-4, 1e6, 2 * n)]
                 + [(dict(base, nodes=[[0.0, 0, 0], v.tolist()]), np.array([s * v + r * (np.cos(p) * np.roll(v, 1) + np.sin(p) * np.roll(v, 2)) for s in (0.0, 0.25, 0.5, 0.75) for p in (0.3, 2.0, -2.4) if s or r > 0]))
                    for r in ladder(1e-13, 1e13, n) for v in 2 * np.concatenate([np.eye(3), -np.eye(3)])],
                 "mu": [(dict(base, mu=v), None) for v in ladder(1e-10, 1e10, n)],
                 "strength": [(dict(base, current=s * v), None) for v in ladder(1e-12, 1e12, n) for s in (1, -1)],
                 "size": [(dict(base, nodes=(path * v).tolist()), None) for v in ladder(1e-5, 1e5, n)],
                 "tilt": [(dict(base, nodes=[[0.0, 0, 0], (3 * v).tolist()]), np.array([[1.0, 2, 3], [-2, 0.5, 1], [0.4, -0.6, -0.8], [1.5, 1.5, -1.0]])) for k in range(len(TILT)) for far in (0, 1) for v in tilted(k, far)],
                 "bend": [(dict(base, nodes=[[-1.0, 0, 0], [0, 0, 0], [s, 0, g]]), np.array([[1.0, 2, 3], [-2, 0.5, 1], [0.4, -0.6, -0.8], [-1.5, 1.5, -1.0]])) for g in TILT for s in (1.0, -1.0)],
                 "count": [(dict(base, nodes=helix(k, c)), np.array([[0.1, 0.2, 0.3], [-0.7, 0.5, 1], [5.0, -4.0, 6.0]])) for k in COUNTS for c in (False, True) if k > 3 or not c],
                 "short": [(dict(base, nodes=[[0, 0, 0], [2.0, 0, 0], [2.0, g, 0], [2.0, g, 1.0], [0.0, 0.0, 1.0 + g]]), np.array([[2.0 + 3 * g, 2 * g, -2 * g], [1.0, 2, 3], [-2, 0.5, 1], [2.0 - g, -4 * g, 3 * g]])) for g in ladder(1e-5, 1.0, n)],
                 "uneven": [(dict(base, nodes=np.cumsum([[0, 0, 0]] + [[f ** i * [1, 0, 1][i % 3], f ** i * [0, 1, 1][i % 3], f ** i * [0.5, 0, -1][i % 3]] for i in range(10)], axis=0).tolist()), np.array([[-0.5, 0.2, 0.4], [3.0, 2, 3], [-2, 0.5, 1]])) for f in (0.1, 0.2, 0.3, 0.5, 0.7, 1.5, 2.0, 3.0, 5.0, 10.0)],
                 "gap": [(dict(base, nodes=[[0, 0, 0], [2.0, 0, 0], [2, 1.5, 0], [0, g, 0]]), np.array([[1.0, 2, 3], [-2, 0.5, 1], [0.4, -0.6, -0.8], [-1.5, 1.5, -1.0]])) for g in TILT]}[q]
        oracle = lambda o, st, x: line_oracle(t, o, st, x)
    for st, x in rungs:
        t.state("ladder", src, q, repr(st), None if x is None else float(norm1(x).max()))
        if live is None:
            live = cls(**st)
        else:
            for k in st:
                setattr(live, k, st[k])
        oracle(cls(**st), st, x)
        oracle(live, st, x)
        if t.violations:
            return
    t.sample({"source": src, "quantity": q, "rungs": len(rungs)})


def run_case(case, t):
    from geoana.em import static
    if case["src"].startswith("L-"):
        return through(case, t)
    if case["src"] in ("dipole", "pole"):
        cls = static.MagneticDipoleWholeSpace if case["src"] == "dipole" else static.MagneticPoleWholeSpace
        walk(t, case["src"], cls, {"location": [case["loc"]] + LOC, "mu": MU, "moment": STR, "orientation": ORI}, lambda o, st: dip_oracle(t, case["src"], o, st))
    elif case["src"] == "loop":
        a0 = case["radius"]
        st = [1.0, -2.5] if not t.thorough else STR
        walk(t, "loop", static.CircularLoopWholeSpace,
             {"radius": [a0], "orientation": [case["ori"]], "location": LOC[::2 if a0 < 1 else 1][:3] if a0 < 1 else [LOC[1], LOC[3]], "mu": MU[:2] if not t.thorough else MU,
              "current": st}, lambda o, st: loop_oracle(t, o, st), fresh=False)
    else:
        other = LINES[(case["line"] + 3) % len(LINES)]
        walk(t, "line", static.LineCurrentWholeSpace,
             {"nodes": [other, LINES[case["line"]]], "mu": MU, "current": STR, "sigma": [1.0, 0.01]}, lambda o, st: line_oracle(t, o, st))
