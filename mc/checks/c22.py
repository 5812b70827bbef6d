"""C22: coordinate transforms are inverse isometries."""
import itertools

import numpy as np

TECHNIQUE = "exhaustive enumeration of a sign/axis/magnitude lattice of points x vectors x array shapes, layouts and conversion sequences on the real transforms, against local unit vectors built from the points"
MAG = [0.0, 1.0, -1.0, 0.75, -2.5, 1e-8, -1e-8, 3e5, -1e40, 1e-40]
QMAG = [0.0, 1.0, -1.0, 0.75, -2.5, 1e-8, -3e5, 1e-40]
SHAPES = [(), (1,), (2,), (3,), (7,), (0,), (1, 1), (3, 3), (2, 3), (3, 1), (2, 3, 2), (3, 3, 3), (0, 3), (2, 0), (2, 1, 3, 2), (1, 3, 1, 3), (3, 2, 2, 1, 2)]
VECS = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0], [-1.0, 2.0, 0.5], [0.25, -3.0, -1.5], [0, 0, 0], [1e-9, 1e9, -1.0], [-0.0, 0.0, 5.0]]


def bounds(tier):
    return {"coordinates": MAG if tier == "thorough" else QMAG, "points": "cube of the coordinates (3D), square (2D cylindrical)", "vectors per point": VECS, "shapes": SHAPES, "numbers of points": "0 to 70, and up to 100001",
            "ladder": "azimuths k*15 degrees and polar angles 0, 90, 180 degrees, displaced by +-10^-1..10^-16, at distances 1e-100..1e100", "sequences": "all conversion chains of length <= 4 over the cylindrical and spherical systems"}


def cases(tier):
    g = MAG if tier == "thorough" else QMAG
    return [{"k": "points", "x": x} for x in range(len(g))] + [{"k": "angles", "i": i} for i in range(13)] + [{"k": "shapes", "i": i} for i in range(len(SHAPES))] + [{"k": "chains"}, {"k": "counts"}] + [{"k": "ints", "i": i} for i in range(3)] + [{"k": "floats", "dt": d} for d in ("f4", ">f4", ">f8", "g")] + [{"k": "ladder", "i": i} for i in range(24)]


def api():
    from geoana import spatial as sp
    return {"cyl": (sp.cartesian_to_cylindrical, sp.cylindrical_to_cartesian), "sph": (sp.cartesian_to_spherical, sp.spherical_to_cartesian),
            "cyl2": (sp.cartesian_2_cylindrical, sp.cylindrical_2_cartesian), "sph2": (sp.cartesian_2_spherical, sp.spherical_2_cartesian)}


def basis(kind, c):
    """Local unit vectors at points given in curvilinear coordinates, as rows (..., 3, 3)."""
    phi = c[..., 1]
    z, o = np.zeros_like(phi), np.ones_like(phi)
    ephi = np.stack([-np.sin(phi), np.cos(phi), z], -1)
    if kind.startswith("cyl"):
        return np.stack([np.stack([np.cos(phi), np.sin(phi), z], -1), ephi, np.stack([z, z, o], -1)], -2)
    th = c[..., 2]
    er = np.stack([np.sin(th) * np.cos(phi), np.sin(th) * np.sin(phi), np.cos(th)], -1)
    eth = np.stack([np.cos(th) * np.cos(phi), np.cos(th) * np.sin(phi), -np.sin(th)], -1)
    return np.stack([er, ephi, eth], -2)


def coords(kind, p):
    """Curvilinear coordinates, computed one at a time."""
    import math
    x, y = p[0], p[1]
    rho, phi = math.hypot(x, y), math.atan2(y, x)
    if len(p) == 2:
        return [rho, phi]
    if kind.startswith("cyl"):
        return [rho, phi, p[2]]
    return [math.hypot(rho, p[2]), phi, math.atan2(rho, p[2])]


def vlen(v):
    return np.sqrt(np.sum(np.abs(v) ** 2, -1, keepdims=True))


def verify(t, kind, fwd, back, P, V):
    """P (n, d) points, V (m, d) vectors; every point with every vector."""
    d = P.shape[-1]
    got = fwd(P.copy())
    want = np.array([coords(kind, p) for p in P])
    t.close("%s coordinates" % kind, got, want, 1e-13, scale=np.abs(want) + (0 if kind else 0), atol=1e-300, vec=False)
    t.close("%s there and back" % kind, back(want.copy()), P, 1e-13, scale=vlen(P), atol=1e-300)
    Pn = np.repeat(P, len(V), axis=0)
    Vn = np.tile(V, (len(P), 1))
    Cn = np.repeat(want, len(V), axis=0)
    B = basis(kind, Cn)[..., :d, :d]
    w = np.einsum("nij,nj->ni", B, Vn)
    s = vlen(Vn)
    comp = fwd(Pn.copy(), Vn.copy())
    t.close("%s vector components" % kind, comp, w, 1e-13, scale=s)
    t.close("%s vector length" % kind, vlen(comp), s, 1e-13, scale=s)
    t.close("%s vectors there and back" % kind, back(Cn.copy(), comp), Vn, 1e-13, scale=s)
    # curvilinear components to Cartesian: the sum over the local unit vectors
    c = np.einsum("nij,ni->nj", B, Vn)
    t.close("%s components to vector" % kind, back(Cn.copy(), Vn.copy()), c, 1e-13, scale=s)
    t.close("%s vectors back and there" % kind, fwd(Pn.copy(), c), Vn, 1e-12, scale=s)
    # complex vectors (fields in frequency domain)
    z = Vn + 1j * np.roll(Vn, 1, axis=-1)
    t.close("%s complex components" % kind, fwd(Pn.copy(), z), np.einsum("nij,nj->ni", B, z), 1e-13, scale=vlen(z))
    t.close("%s complex vector" % kind, back(Cn.copy(), z), np.einsum("nij,ni->nj", B, z), 1e-13, scale=vlen(z))


def run_case(case, t):
    k = case["k"]
    if k == "counts":
        for kind, (fwd, back) in api().items():
            for d in ((2, 3) if kind.startswith("cyl") else (3,)):
                B, W = points_of((8,), d), points_of((8,), d, 1)
                C = np.array([coords(kind, p) for p in B])
                one = {"points": np.array([fwd(p) for p in B]), "back": np.array([back(c) for c in C])}
                for n in list(range(0, 71)) + [127, 128, 129, 255, 256, 257, 1000, 1025, 4097, 10001, 65537, 100001]:
                    i = (np.arange(n) * 3 + n) % 8
                    j = (i + np.arange(n)) % 8
                    t.state("count", kind, d, n)
                    t.step(4)
                    t.close("%s of many points" % kind, fwd(B[i]), one["points"][i], 1e-14, scale=5.0, n=n)
                    t.close("%s of many points back" % kind, back(C[i]), one["back"][i], 1e-14, scale=5.0, n=n)
                    L = basis(kind, C)[..., :d, :d]
                    t.close("%s of many vectors" % kind, fwd(B[i], W[j]), np.einsum("nij,nj->ni", L[i], W[j]), 1e-13, scale=5.0, n=n)
                    t.close("%s of many vectors back" % kind, back(C[i], W[j]), np.einsum("nij,ni->nj", L[i], W[j]), 1e-13, scale=5.0, n=n)
                    if t.violations:
                        return
        t.sample({"counts": n})
    elif k == "points":
        g = MAG if t.thorough else QMAG
        x = g[case["x"]]
        for kind, (fwd, back) in api().items():
            P = np.array([[x, y, z] for y, z in itertools.product(g, g)])
            for p in P:
                t.state(kind, p)
            t.step(len(P) * (2 + 7 * len(VECS)))
            verify(t, kind, fwd, back, P, np.array(VECS, float))
            if kind.startswith("cyl"):
                P = np.array([[x, y] for y in g])
                for p in P:
                    t.state(kind, p)
                t.step(len(P) * (2 + 7 * len(VECS)))
                verify(t, kind, fwd, back, P, np.array([v[:2] for v in VECS], float))
        t.sample({"points with x": x, "per system": len(g) ** 2})
    elif k == "angles":
        # curvilinear input: angles outside the principal range, every multiple of 30 degrees
        phi = (case["i"] - 6) * np.pi / 6 * 2
        for kind, (fwd, back) in api().items():
            c = []
            for r, dphi, b in itertools.product([0.0, 1.0, 2.5, 1e-7, 4e6], [0, np.pi / 6], range(13)):
                c.append([r, phi + dphi, (b * np.pi / 12) if kind.startswith("sph") else b - 6.0])
            c = np.array(c)
            p = np.array([[q[0] * np.cos(q[1]), q[0] * np.sin(q[1]), q[2]] if kind.startswith("cyl") else
                          [q[0] * np.sin(q[2]) * np.cos(q[1]), q[0] * np.sin(q[2]) * np.sin(q[1]), q[0] * np.cos(q[2])] for q in c])
            for q in c:
                t.state(kind, q)
            t.step(2 * len(c) + len(VECS) * len(c))
            t.close("%s to cartesian" % kind, back(c.copy()), p, 1e-13, scale=np.abs(c[:, :1]) + (np.abs(c[:, 2:]) if kind.startswith("cyl") else 0))
            t.close("%s back to the same place" % kind, back(fwd(back(c.copy()))), p, 1e-12, scale=np.abs(c[:, :1]) + (np.abs(c[:, 2:]) if kind.startswith("cyl") else 0))
            f = fwd(p.copy())
            t.check(np.all(np.abs(f[:, 1]) <= np.pi + 1e-12) and np.all(f[:, 0] >= 0) and (kind.startswith("cyl") or np.all((f[:, 2] >= 0) & (f[:, 2] <= np.pi + 1e-12))), "%s principal range" % kind)
            B = basis(kind, c)
            for v in VECS:
                v = np.tile(np.array(v, float), (len(c), 1))
                t.close("%s vector at angle" % kind, back(c.copy(), v.copy()), np.einsum("nij,ni->nj", B, v), 1e-13, scale=vlen(v))
        t.sample({"azimuth": phi})
    elif k == "ladder":
        # azimuths that are multiples of 15 degrees, and both angles displaced by every power of ten, at every distance
        off = [0.0] + [s * 10.0 ** -e for e in range(1, 17) for s in (1, -1)]
        phi = np.array([case["i"] * np.pi / 12 - np.pi + o for o in off])
        for kind, (fwd, back) in api().items():
            P = []
            for r in [10.0 ** e for e in (-100, -12, -3, 0, 2, 7, 100)]:
                if kind.startswith("cyl"):
                    P += [[r * np.cos(f), r * np.sin(f), r * h] for f in phi for h in (0.0, 1.0, -3.0)]
                else:
                    for th0 in (0.0, np.pi / 2, np.pi):
                        th = np.array([th0 + o for o in off[::3]])
                        P += [[r * np.sin(q) * np.cos(f), r * np.sin(q) * np.sin(f), r * np.cos(q)] for f in phi[::3] for q in th]
            P = np.array(P)
            for p in P:
                t.state(kind, p)
            t.step(len(P) * 9)
            verify(t, kind, fwd, back, P, np.array([[-1.0, 2.0, 0.5]]))
            if kind.startswith("cyl"):
                verify(t, kind, fwd, back, P[:, :2], np.array([[-1.0, 2.0]]))
        t.sample({"azimuth": float(phi[0])})
    elif k == "floats":
        # other number types keep their own precision, next to the axes as well
        dt = np.dtype(case["dt"])
        eps = float(np.finfo(dt).eps)
        g = [0.0, -0.0] + [s * m * 10.0 ** e for e in (range(-12, 13, 3)) for m in (1, 3) for s in (1, -1)]
        P = np.array(list(itertools.product(g, g, g)))
        Pd = P.astype(dt)
        V = np.array([-1.0, 2.0, 0.5]) + np.zeros(P.shape)
        for kind, (fwd, back) in api().items():
            for d in ((2, 3) if kind.startswith("cyl") else (3,)):
                want = np.array([coords(kind, p) for p in Pd[:, :d].astype(float)])
                for p in Pd[:, :d]:
                    t.state(kind, case["dt"], p.tobytes())
                t.step(4 * len(P))
                got = fwd(Pd[:, :d].copy())
                lim = 8 * max(eps, 2e-16)
                t.close("%s coordinates of %s" % (kind, dt), got, want, lim, scale=np.abs(want), atol=1e-30, vec=False)
                t.close("%s of %s there and back" % (kind, dt), back(got), P[:, :d], 3 * lim, scale=vlen(P[:, :d]), atol=1e-30)
                B = basis(kind, want)[..., :d, :d]
                w = np.einsum("nij,nj->ni", B, V[:, :d])
                t.close("%s vectors at %s" % (kind, dt), fwd(Pd[:, :d].copy(), V[:, :d].astype(dt)), w, 3 * lim, scale=vlen(V[:, :d]))
                t.close("%s vectors back at %s" % (kind, dt), back(want.astype(dt), w.astype(dt)), V[:, :d], 6 * lim, scale=vlen(V[:, :d]))
    elif k == "ints":
        dt, top, tol = [("i2", 4, 1e-5), ("i4", 9, 1e-13), ("i8", 18, 1e-13)][case["i"]]
        g = [0] + [s * m * 10 ** e for e in range(0, top + 1) for m in (1, 3) if m * 10 ** e < np.iinfo(dt).max for s in (1, -1)]
        P = np.array(list(itertools.product(g, g, [0, 7, -g[-1]])), dtype=dt)
        for kind, (fwd, back) in api().items():
            for p in P:
                t.state(kind, dt, p)
            t.step(2 * len(P))
            w = fwd(P.astype(float))
            t.close("%s of large integers" % kind, fwd(P), w, tol, scale=np.abs(w), atol=1e-300, vec=False, dtype=dt)
            V = np.tile([[-1.0, 2.0, 0.5]], (len(P), 1))
            t.close("%s of vectors at large integers" % kind, fwd(P, V), fwd(P.astype(float), V), tol, scale=3.0, vec=False, dtype=dt)
        t.sample({"integers": dt})
    elif k == "shapes":
        shapes(SHAPES[case["i"]], t)
    else:
        chains(t)


def points_of(shape, d, k=0):
    n = int(np.prod(shape)) if shape else 1
    base = np.array([[1.5, -0.25, 2.0], [-1.0, 2.0, 0.5], [0.0, 0.0, -1.0], [3.0, 1.0, 0.0], [-2.0, 0.0, 1.0], [0.0, -4.0, 3.0], [0.0, 0.0, 0.0], [-1.25, -3.0, -2.0]])
    return base[(np.arange(n) * 3 + k) % len(base)].reshape(tuple(shape) + (3,))[..., :d].copy()


def shapes(shape, t):
    def alike(what, a, b):
        t.close(what, a, b, 1e-13, scale=1.0 + np.abs(b))
    for kind, (fwd, back) in api().items():
        for d in ((2, 3) if kind.startswith("cyl") else (3,)):
            P, V = points_of(shape, d), points_of(shape, d, 1)
            flat = P.reshape(-1, d)
            C = np.array([coords(kind, p) for p in flat]).reshape(P.shape)
            # one point at a time
            one = {}
            for name, f, g, v in (("points", fwd, P, None), ("vectors", fwd, P, V), ("cart points", back, C, None), ("cart vectors", back, C, V)):
                gf, vf = g.reshape(-1, d), V.reshape(-1, d)
                one[name] = np.array([f(a) if v is None else f(a, b) for a, b in zip(gf, vf)]).reshape(P.shape)
            t.state(kind, d, shape)
            for lay in ("C", "F", "strided", "readonly", "list", "bigendian", "int"):
                def mk(a):
                    if lay == "F":
                        return np.asfortranarray(a)
                    if lay == "strided":
                        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],))
                        b[..., ::2] = a
                        return b[..., ::2]
                    if lay == "readonly":
                        a = a.copy()
                        a.flags.writeable = False
                        return a
                    if lay == "list":
                        return a.tolist() if a.size else a
                    if lay == "bigendian":
                        return a.astype(">f8")
                    return a.copy()
                if lay == "int":
                    Pi, Vi = np.round(P).astype(int), np.round(V).astype(int)
                    t.step(4)
                    for f in (fwd, back):
                        alike("%s int points" % kind, f(Pi), f(Pi.astype(float)))
                        alike("%s int vectors" % kind, f(Pi, Vi), f(Pi.astype(float), Vi.astype(float)))
                        alike("%s vectors at int points" % kind, f(Pi, V), f(Pi.astype(float), V))
                        alike("%s int vectors at points" % kind, f(P, Vi), f(P, Vi.astype(float)))
                        Z = V + 1j * np.flip(V, -1)
                        alike("%s complex vectors at int points" % kind, f(Pi, Z), f(Pi.astype(float), Z))
                        t.close("%s complex vectors by parts" % kind, f(P, Z), f(P, Z.real) + 1j * f(P, Z.imag), 1e-14, scale=vlen(Z) if Z.size else 1.0)
                    continue
                t.step(4)
                for name, f, g, v in (("points", fwd, P, None), ("vectors", fwd, P, V), ("cart points", back, C, None), ("cart vectors", back, C, V)):
                    r = f(mk(g)) if v is None else f(mk(g), mk(v))
                    t.check(isinstance(r, np.ndarray) and r.shape == P.shape, "%s %s shape" % (kind, name), got=np.shape(r), want=P.shape, layout=lay)
                    t.close("%s %s pointwise" % (kind, name), r, one[name], 1e-14, scale=1.0 + np.abs(one[name]), layout=lay)
            # documented: a flattened array in column major order
            if len(shape) >= 1:
                t.step(2)
                alike("%s flattened vectors" % kind, fwd(P, V.flatten(order="F")), fwd(P, V))
                alike("%s flattened vectors" % kind, back(C, V.flatten(order="F")), back(C, V))
    t.sample({"shape": shape})


def chains(t):
    """Going round through any sequence of systems ends where it began."""
    a = api()
    P = points_of((8,), 3)
    V = points_of((8,), 3, 1)
    for n in (1, 2, 3, 4):
        for seq in itertools.product(["cyl", "sph"], repeat=n):
            t.state("chain", seq)
            p, v = P.copy(), V.copy()
            for kind in seq:
                fwd, back = a[kind]
                c, w = fwd(p), fwd(p, v)
                p, v = back(c), back(c, w)
                t.step(4)
            t.close("chain points", p, P, 1e-12, scale=1.0 + vlen(P), seq=seq)
            # at the origin and on the axis the direction of the angle is a convention that rounding
            # may change between steps, but the vector itself may not change
            t.close("chain vectors", v, V, 1e-12, scale=vlen(V) + 1.0, seq=seq)
    t.sample({"chains": 30})
