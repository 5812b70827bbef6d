"""C23: rotations between normals are proper, minimal rotations."""
import itertools

import numpy as np

TECHNIQUE = "exhaustive enumeration of all ordered pairs of a direction lattice (with parallel, opposite and nearly so pairs at every offset scale) x lengths x spellings on the real functions, decided by the algebra of rotations"
EPS = [0.0, 1e-17, 1e-16, 1e-15, 1e-13, 1e-11, 1e-9, 1e-8, 1e-6, 1e-4, 1e-2]
TINY = [10.0 ** -k for k in range(2, 24)] + [1e-30, 1e-60, 1e-100, 1e-150, 1e-154, 1e-160, 1e-200, 1e-250, 1e-300, 5e-324]
CENTRES = [[0.0, 0, 0], [1.0, 2.0, 3.0], [-4.0, 0.5, 100.0], [5e5, 6.2e6, 400.0], [-3e8, 2e7, 1e9], [1e12, -1e12, 0.0]]
LEN = [1.0, 3.5, 1e-5, 1e6]
LONG = [10.0 ** k for k in list(range(-140, -20, 20)) + list(range(-20, 21, 1)) + list(range(40, 141, 20))]


def directions(tier):
    out = [np.array(v, float) for v in itertools.product([-1, 0, 1], repeat=3) if any(v)]
    out += [np.array(v, float) for v in ([1, 2, 3], [-0.3, 0.7, 0.1], [0.05, -1, 1e-3], [1, 1e-7, -1e-7], [1e-9, 1e-9, 1.0], [-1e-12, 1.0, 0])]
    if tier == "thorough":
        out += [np.array(v, float) for v in itertools.product([-2, 0.5, 3], repeat=3)]
    return out


def bounds(tier):
    return {"directions": len(directions(tier)), "pairs": "all ordered pairs, and each direction against itself and its opposite displaced by every offset", "offsets": EPS, "lengths": LEN, "further lengths": [LONG[0], LONG[-1]], "offsets from an axis": TINY, "centres": CENTRES, "numbers of points": "0 to 70, and up to 100001; 8 layouts and number types"}


def cases(tier):
    n = len(directions(tier))
    return [{"k": "pairs", "i": i} for i in range(n)] + [{"k": "near", "i": i} for i in range(n)] + [{"k": "points", "i": i} for i in range(n)] + [{"k": "tiny", "i": i} for i in range(6)] + [{"k": "long", "i": i} for i in range(n)] + [{"k": "reject"}, {"k": "counts"}]


def unit(v):
    v = np.asarray(v, float)
    v = v / np.max(np.abs(v))
    return v / np.sqrt(np.sum(v * v))


def verify(t, a, b, R, what, tol=1e-12):
    u, v = unit(a), unit(b)
    R = np.asarray(R)
    d = dict(v0=a, v1=b)
    if not t.check(R.shape == (3, 3), "%s: shape" % what, got=R.shape, **d):
        return
    t.close("%s: orthogonal" % what, R @ R.T, np.eye(3), tol, scale=1.0, **d)
    t.close("%s: proper" % what, np.linalg.det(R), 1.0, tol, **d)
    t.close("%s: maps first onto second" % what, R @ u, v, tol, scale=1.0, **d)
    # smallest angle: trace = 1 + 2 cos, with the angle between the vectors
    t.close("%s: minimal angle" % what, np.trace(R), 1.0 + 2.0 * np.dot(u, v), 4 * tol, scale=1.0, **d)


def run_case(case, t):
    from geoana.spatial import rotation_matrix_from_normals as rm, rotate_points_from_normals as rp
    D = directions("thorough" if t.thorough else "quick")
    if case["k"] == "reject":
        for bad in ([1.0, 0.0], [1.0, 0, 0, 0], 1.0, np.eye(3), "x", None, []):
            t.state("bad", repr(bad))
            t.raises("first normal %r" % (bad,), rm, bad, [1.0, 0, 0])
            t.raises("second normal %r" % (bad,), rm, [1.0, 0, 0], bad)
        for sh in [(4, 2), (3, 4), (2, 1)]:
            t.raises("points %r" % (sh,), rp, np.zeros(sh), [1., 0, 0], [0, 1., 0])
        return
    if case["k"] == "tiny":
        # a coordinate axis with offsets of every magnitude down to the smallest numbers
        ax, sg = divmod(case["i"], 2)
        for e in TINY:
            for k in itertools.product([-1, 0, 1], repeat=2):
                a = np.zeros(3)
                a[ax] = 1.0 - 2.0 * sg
                a[(ax + 1) % 3], a[(ax + 2) % 3] = e * k[0], e * k[1]
                for b in (a, -a, np.where(np.arange(3) == ax, a, -a), np.where(np.arange(3) == ax, -a, a), np.where(np.arange(3) == ax, -a, 0.0), np.where(np.arange(3) == ax, -a, 2 * a)):
                    for la, lb in ((1.0, 1.0), (3.5, 1e-5)):
                        t.state("tiny", a, b, la, lb)
                        t.step()
                        verify(t, la * a, lb * b, rm(la * a, lb * b), "normals close to an axis", 1e-11)
                if t.violations:
                    return
        t.sample({"axis": ax, "kind": "tiny"})
        return
    if case["k"] == "counts":
        # every number of points, in every memory layout and number type
        X0 = np.array([[1.0, 2.0, 3.0], [-5.0, 25.0, 0.0], [10.0, -3.0, 1.0], [0.0, 0.0, 0.0], [7.0, 7.0, -7.0]])
        for a, b in ((D[0], D[5]), (D[26], D[27]), (D[3], -D[3]), (D[4], 2 * D[4])):
            for x0 in ([0.0, 0.0, 0.0], [1.0, -2.0, 3.0]):
                R = rm(a.copy(), b.copy())
                want = (R @ (X0 - x0).T).T + x0
                for n in list(range(0, 71)) + [127, 128, 129, 255, 256, 257, 1000, 1025, 4097, 10001, 65537, 100001]:
                    i = (np.arange(n) * 3 + n) % len(X0)
                    t.state("count", a, b, x0, n)
                    t.step()
                    if not t.close("number of points", rp(X0[i], a.copy(), b.copy(), np.array(x0)), want[i], 1e-12, scale=50.0, n=n):
                        return
                    if n <= 5:
                        X = X0[i]
                        wide = np.zeros((n, 6))
                        wide[:, ::2] = X
                        ro = X.copy()
                        ro.flags.writeable = False
                        for name, arg in (("F", np.asfortranarray(X)), ("strided", wide[:, ::2]), ("reversed", X[::-1].copy()[::-1]), ("read-only", ro), ("integers", X.astype(int)), ("float32", X.astype("f4")), ("big-endian", X.astype(">f8"))):
                            t.step()
                            t.close("points %s" % name, rp(arg, a.copy(), b.copy(), np.array(x0)), want[i], 1e-12 if name != "float32" else 1e-5, scale=50.0, n=n)
        t.sample({"counts": n})
        return
    a = D[case["i"]]
    if case["k"] == "pairs":
        for b in D:
            R0 = rm(a.copy(), b.copy())
            verify(t, a, b, R0, "rotation")
            for la, lb in itertools.product(LEN, LEN):
                t.state("pair", a, b, la, lb)
                t.step()
                verify(t, la * a, lb * b, rm(la * a, lb * b), "rotation of scaled normals")
            # other spellings
            for sa, sb in (((a.tolist()), b.tolist()), (tuple(a), tuple(b)), (a[None, :], b[:, None])):
                t.step()
                t.close("spelling", rm(sa, sb), R0, 1e-12, scale=1.0, v0=a, v1=b)
            r = rm(a.copy(), b.copy(), as_matrix=False)
            t.step()
            t.check(hasattr(r, "as_matrix"), "Rotation object")
            t.close("Rotation object", r.as_matrix(), R0, 1e-12, scale=1.0)
            if unit(a) @ unit(b) > -1 + 1e-9:
                # the way back is the inverse
                t.close("inverse", rm(b.copy(), a.copy()), R0.T, 1e-9, scale=1.0, v0=a, v1=b)
            if np.array_equal(np.round(a), a) and np.array_equal(np.round(b), b):
                t.close("integers", rm(a.astype(int), b.astype(int)), R0, 1e-12, scale=1.0)
            if t.violations:
                return
    elif case["k"] == "long":
        # lengths of every order of magnitude
        for b in D if t.thorough else D[case["i"] % 3::3]:
            for L in LONG:
                for la, lb in ((L, 1.0), (1.0, L), (L, L), (L, 1 / L)):
                    t.state("long", a, b, la, lb)
                    t.step()
                    verify(t, la * a, lb * b, rm(la * a, lb * b), "rotation of long and short normals", 1e-11)
            if t.violations:
                return
    elif case["k"] == "near":
        for sign in (1.0, -1.0):
            for e in EPS:
                for k in [np.array(v, float) for v in itertools.product([-1, 0, 1], repeat=3) if any(v)]:
                    b = sign * a + e * k * np.max(np.abs(a))
                    for la, lb in ((1.0, 1.0), (3.5, 1e-5), (1e6, 0.7)):
                        t.state("near", a, sign, e, k, la, lb)
                        t.step()
                        verify(t, la * a, lb * b, rm(la * a, lb * b), "nearly %s normals" % ("parallel" if sign > 0 else "opposite"), 1e-11)
                    if t.violations:
                        return
    else:
        X0 = np.array([[1.0, 2.0, 3.0], [-0.5, 0.25, 0.0], [10.0, -3.0, 1.0], [0.0, 0.0, 0.0]])
        for b in D:
            R = rm(a.copy(), b.copy())
            for x0 in CENTRES:
                x0 = np.array(x0)
                X = X0 if np.max(np.abs(x0)) < 1e3 else X0 + x0
                size = 200.0 if np.max(np.abs(x0)) < 1e3 else 2.0 * np.max(np.abs(x0))
                for spell in (x0, x0.tolist()):
                    t.step()
                    t.state("points", a, b, x0)
                    Y = rp(X.copy(), a.copy(), b.copy(), spell)
                    t.close("rotated points", Y, (R @ (X - x0).T).T + x0, 1e-12, scale=size, v0=a, v1=b, x0=x0)
                    t.close("centre", rp(x0[None, :].copy(), a.copy(), b.copy(), spell), x0[None, :], 1e-12, scale=size)
                    dist = lambda Z: np.sqrt(np.sum((Z[:, None] - Z[None]) ** 2, -1))
                    t.close("distances", dist(Y), dist(X), 1e-12, scale=size)
                    m = x0 + 7.0 * unit(a)
                    t.close("along the normal", rp(m[None, :], a.copy(), b.copy(), spell), (x0 + 7.0 * unit(b))[None, :], 1e-12, scale=size)
                if not np.any(x0):
                    t.same("default centre", rp(X.copy(), a.copy(), b.copy()), rp(X.copy(), a.copy(), b.copy(), x0))
            for n in (0, 1, 3):
                t.check(rp(np.ones((n, 3)), a, b).shape == (n, 3), "shape of rotated points")
            if t.violations:
                return
    t.sample({"direction": a, "kind": case["k"]})
