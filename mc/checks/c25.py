"""C25: array utilities keep every element where documented."""
import itertools

import numpy as np

TECHNIQUE = "exhaustive enumeration of array shapes up to a bound x memory layouts x number types on the real functions, compared element by element with index arithmetic"
DT = ["f8", "i4", "c16", "f4", ">f8", "bool", "U3"]
LAY = ["C", "F", "strided", "reversed", "transposed", "readonly"]


def all_shapes(tier):
    n = 4 if tier == "thorough" else 3
    out = [()]
    for d in range(1, 5):
        out += list(itertools.product(range(0, n + 1 if d < 4 else 3), repeat=d))
    return out


def bounds(tier):
    return {"shapes": "all with up to 4 axes of length 0..%d" % (4 if tier == "thorough" else 3), "dtypes": DT, "layouts": LAY, "values": "both ends of every number type", "lengths": "1..40 and up to 100001", "grid vectors": "1 to 3 vectors of length 0..5, every input shape"}


def cases(tier):
    return [{"k": "mkvc", "nd": d} for d in range(0, 5)] + [{"k": "ndgrid", "n": n, "a": a} for n in (1, 2, 3) for a in range(0, 6)] + [{"k": k} for k in ("append", "xyz", "distances", "dipole", "repeat", "gridreject", "requires", "extremes", "sizes")]


def fill(shape, dt):
    n = int(np.prod(shape)) if shape else 1
    a = np.arange(1, n + 1)
    if dt == "bool":
        return (a % 3 == 0).reshape(shape)
    if dt == "U3":
        return np.array([str(x) for x in a], dtype="U3").reshape(shape)
    if dt == "c16":
        return (a + 1j * (a * 7 % 5)).reshape(shape)
    return a.astype(dt).reshape(shape)


def lay(a, how):
    if a.ndim == 0:
        return a.copy()
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "reversed":
        return np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])[tuple(slice(None, None, -1) for _ in a.shape)].reshape(a.shape)
    if how == "transposed":
        return np.ascontiguousarray(a.T).T.reshape(a.shape)
    if how == "readonly":
        a = a.copy()
        a.flags.writeable = False
        return a
    return a.copy()


def fortran(a):
    """Elements with the first index running fastest."""
    return [a[tuple(reversed(ix))] for ix in itertools.product(*[range(n) for n in reversed(a.shape)])]


def run_case(case, t):
    return globals()["c_" + case["k"]](case, t)


def c_mkvc(case, t):
    from geoana.utils import mkvc
    for sh in [s for s in all_shapes("thorough" if t.thorough else "quick") if len(s) == case["nd"]]:
        for dt in DT:
            a = fill(sh, dt)
            want = np.array(fortran(a), dtype=a.dtype)
            for how in LAY:
                x = lay(a, how)
                t.state("mkvc", sh, dt, how)
                for nd in (1, 2, 3, 4):
                    t.step()
                    v = mkvc(x, nd) if nd > 1 else mkvc(x)
                    if not t.check(isinstance(v, np.ndarray) and v.shape == (a.size,) + (1,) * (nd - 1), "mkvc: shape", got=np.shape(v), n_dims=nd, shape=sh):
                        return
                    if not t.check(v.dtype == a.dtype and np.array_equal(v.reshape(-1), want), "mkvc: elements", shape=sh, layout=how, dtype=dt, n_dims=nd):
                        return
                if how != "readonly" and a.size and sh:
                    # the vector is the caller's own copy
                    v = mkvc(x)
                    v[...] = v[::-1].copy()
                    t.check(np.array_equal(x, a), "mkvc: input changed through the result", shape=sh, layout=how)
    if case["nd"] == 2:
        m = np.matrix([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]])
        for nd in (1, 2, 3):
            v = mkvc(m, nd)
            t.check(type(v) is np.ndarray and v.shape == (6,) + (1,) * (nd - 1) and np.array_equal(v.ravel(), [1, 4, 2, 5, 3, 6]), "mkvc: matrix")
    t.sample({"axes": case["nd"]})


def forms(n):
    """A vector of n different values in every shape that holds it."""
    v = np.array([3.0, -1.0, 0.5, 7.0, 2.0])[:n]
    return [v, v[:, None], v[None, :], lay(v, "strided"), v.astype(">f8"), np.round(v).astype(int)] + ([v.reshape(2, 2)] if n == 4 else [])


def c_ndgrid(case, t):
    from geoana.utils import ndgrid
    n = case["n"]
    if n == 1:
        for x in forms(case["a"]):
            t.state("ndgrid", x)
            t.step(2)
            t.same("ndgrid of one vector", ndgrid(x), x)
            t.same("ndgrid of a list of one", ndgrid([x]), x)
        return
    top = range(0, 6 if t.thorough or n == 2 else 4)
    for sizes in itertools.product(*([[case["a"]]] + [top] * (n - 1))):
        offs = [0.0, 10.0, 100.0]
        base = [forms(k) for k in sizes]
        for choice in itertools.product(*[range(len(b)) for b in base]):
            if sum(1 for c in choice if c) > 1 and not t.thorough:
                continue
            vs = [b[c] + (int(o) if b[c].dtype.kind == "i" else o) for b, c, o in zip(base, choice, offs)]
            fl = [np.array(fortran(v)) for v in vs]
            want = np.array([[fl[j][ix[n - 1 - j]] for j in range(n)] for ix in itertools.product(*[range(k) for k in reversed(sizes)])], float).reshape(-1, n)
            keep = [v.copy() for v in vs]
            t.state("ndgrid", sizes, choice)
            for call, lab in ((lambda **k: ndgrid(*vs, **k), "arguments"), (lambda **k: ndgrid(list(vs), **k), "list")):
                t.step(3)
                for kw in ({}, {"vector": True}):
                    g = call(**kw)
                    if not t.check(g.shape == want.shape and np.array_equal(g, want), "ndgrid: points", sizes=sizes, how=lab, got=g, want=want):
                        return
                m = call(vector=False)
                if not t.check(len(m) == n, "ndgrid: number of arrays"):
                    return
                for j in range(n):
                    w = fl[j].reshape([-1 if i == j else 1 for i in range(n)]) * np.ones(sizes) if 0 not in sizes else np.zeros(sizes)
                    if not t.check(m[j].shape == tuple(sizes) and np.array_equal(m[j], w), "ndgrid: coordinate array %d" % j, sizes=sizes, got=m[j], want=w):
                        return
            for a, b in zip(keep, vs):
                t.check(np.array_equal(a, b), "ndgrid: input changed")
    t.sample({"vectors": n, "first length": case["a"]})


def extreme(dt):
    """Values of a number type from one end of its range to the other."""
    d = np.dtype(dt)
    if d.kind in "iu":
        i = np.iinfo(d)
        return np.array([i.min, i.min + 1, 0, 1, i.max // 3, i.max - 1, i.max], dtype=d)
    if d.kind == "f":
        f = np.finfo(d)
        return np.array([-f.max, -1.0 - f.eps, -f.tiny, -0.0, 0.0, f.smallest_subnormal, 1.0 + f.eps, f.max, np.inf, -np.inf, np.nan], dtype=d)
    f = np.finfo(np.float64)
    return np.array([complex(1.0, -0.0), complex(f.max, -f.tiny), complex(np.nan, 1.0), complex(-0.0, np.inf), 1 + f.eps * 1j], dtype=d)


def exact(t, what, got, want, **d):
    """Same values: numbers equal, NaN where NaN, zeros of the same sign."""
    got, want = np.asarray(got), np.asarray(want)
    ok = got.shape == want.shape and np.array_equal(got, want, equal_nan=True)
    if ok and got.dtype.kind == "f":
        ok = np.array_equal(np.signbit(got[~np.isnan(got)]), np.signbit(want[~np.isnan(want)]))
    return t.check(ok, what, got=got, want=want, **d)


def c_extremes(case, t):
    """Values at both ends of every number type."""
    from geoana.spatial import repeat_scalar, vector_distance
    from geoana.utils import append_ndim, check_xyz_dim, mkvc, ndgrid
    for dt in ("i1", "u1", "i2", "i4", "u4", "i8", "u8", ">i8", "f2", "f4", "f8", ">f8", "c16", "c8"):
        v = extreme(dt)
        t.state("extremes", dt)
        with np.errstate(all="ignore"):
            for k in range(len(v)):
                a = np.roll(v, k)
                t.step(8)
                for nd in (1, 2, 3):
                    exact(t, "mkvc", mkvc(a, nd).reshape(-1), a, dtype=dt)
                    exact(t, "append_ndim", append_ndim(a, nd).reshape(-1), a, dtype=dt)
                b, c = a[::-1].copy(), a[:3].copy()
                n, m, q = len(a), len(b), len(c)
                exact(t, "ndgrid of two", ndgrid(a, b), np.stack([np.tile(a, m), np.repeat(b, n)], -1), dtype=dt)
                exact(t, "ndgrid of three", ndgrid(a, b, c), np.stack([np.tile(a, m * q), np.tile(np.repeat(b, n), q), np.repeat(c, n * m)], -1), dtype=dt)
                for j, (g, w) in enumerate(zip(ndgrid(a, b, c, vector=False), np.meshgrid(a, b, c, indexing="ij"))):
                    exact(t, "ndgrid array %d" % j, g, w, dtype=dt)
                for j, (g, w) in enumerate(zip(ndgrid(a, b, vector=False), np.meshgrid(a, b, indexing="ij"))):
                    exact(t, "ndgrid array %d" % j, g, w, dtype=dt)
                p = np.stack([a, b, a], -1)
                if np.dtype(dt).kind != "c":
                    exact(t, "check_xyz_dim", check_xyz_dim(p), p.astype(float), dtype=dt)
                    exact(t, "check_xyz_dim of a tuple", check_xyz_dim((a, b, a)), p.astype(float), dtype=dt)
                exact(t, "check_xyz_dim, own type", check_xyz_dim(p, dtype=np.dtype(dt)), p, dtype=dt)
                if np.dtype(dt).kind in "iuf":
                    fin = a[np.isfinite(a)] if np.dtype(dt).kind == "f" else a
                    t.close("repeat_scalar", repeat_scalar(fin).astype(float), np.stack([fin.astype(float)] * 3, -1), 1e-15, scale=np.abs(np.stack([fin.astype(float)] * 3, -1)) + 1e-320, vec=False, dtype=dt)
                if t.violations:
                    return
    # displacements of points in map coordinates keep every digit
    for c in (1e-12, 1.0, 5e5, 6.2e6, 1e9, 1e15, 1e300):
        P = c * (1 + np.arange(12).reshape(4, 3) / 7.0)
        for o in (np.zeros(3), P[1], np.array([c, -c, 0.0])):
            t.state("map", c, o)
            t.step()
            t.same("vector_distance", vector_distance(P, o), P - o)
    t.outcome("extremes")
    t.sample(case)


def c_sizes(case, t):
    """Every length up to 40 and some large ones."""
    from geoana.spatial import distance, repeat_scalar, vector_distance, vector_dot, vector_magnitude
    from geoana.utils import check_xyz_dim, mkvc, ndgrid
    for n in list(range(1, 41)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097, 10000, 65535, 65536, 65537, 100001]:
        a = np.arange(n) * 0.5 - 3.0
        t.state("size", n)
        t.step(8)
        for m in (1, 2, 3, 17, 300) if n <= 1025 else (1, 3):
            b, c = np.cos(np.arange(m)), np.array([2.0, 7.0])
            exact(t, "ndgrid of two", ndgrid(a, b), np.stack([np.tile(a, m), np.repeat(b, n)], -1), n=n, m=m)
            exact(t, "ndgrid of two", ndgrid(b, a), np.stack([np.tile(b, n), np.repeat(a, m)], -1), n=n, m=m)
            exact(t, "ndgrid of three", ndgrid(a, c, b), np.stack([np.tile(a, m * 2), np.tile(np.repeat(c, n), m), np.repeat(b, n * 2)], -1), n=n, m=m)
            exact(t, "mkvc", mkvc(a[:, None] + 0.25 * b), (a[None, :] + 0.25 * b[:, None]).ravel(), n=n, m=m)
        p = np.stack([a, np.cos(a), -a], -1)
        exact(t, "check_xyz_dim", check_xyz_dim((a, np.cos(a), -a)), p, n=n)
        exact(t, "repeat_scalar", repeat_scalar(a), np.stack([a] * 3, -1), n=n)
        o = np.array([1.0, 0.5, -2.0])
        exact(t, "vector_distance", vector_distance(p, o), p - o, n=n)
        t.close("distance", distance(p, o), np.sqrt(((p - o) ** 2).sum(-1)), 1e-14, n=n, vec=False)
        t.close("vector_dot", vector_dot(p, o), p[:, 0] + 0.5 * p[:, 1] - 2 * p[:, 2], 1e-14, scale=np.abs(p).sum(-1) * 2, n=n, vec=False)
        t.close("vector_magnitude", vector_magnitude(p), np.sqrt((p ** 2).sum(-1)), 1e-14, n=n, vec=False)
        if t.violations:
            return
    t.sample(case)


def c_gridreject(case, t):
    from geoana.utils import mkvc, ndgrid
    x = np.arange(3.0)
    for bad in ((x, [1.0, 2.0]), ([x, "a"],), (x, 3.0), ([[1.0, 2.0], x],), (x, x, x, x), ([x, x, x, x],), (x, None)):
        t.state("bad", repr(bad))
        t.raises("ndgrid%r" % (bad,), ndgrid, *bad)
    for kw in ({"vector": 1}, {"vector": "no"}, {"vectors": True}, {"vector": None}, {"order": "F"}):
        t.state("bad", repr(kw))
        t.raises("ndgrid %r" % kw, ndgrid, x, x, **kw)
    for bad in ("abc", None, 3.0):
        t.raises("mkvc(%r)" % (bad,), mkvc, bad)
    t.sample({"rejected": 15})


def c_append(case, t):
    from geoana.utils import append_ndim
    for sh in all_shapes("thorough" if t.thorough else "quick"):
        for dt in DT:
            a = fill(sh, dt)
            for how in LAY:
                x = lay(a, how)
                for nd in range(0, 5):
                    t.state("append", sh, dt, how, nd)
                    t.step()
                    v = append_ndim(x, nd)
                    if not t.check(isinstance(v, np.ndarray) and v.shape == sh + (1,) * nd and v.dtype == a.dtype and np.array_equal(v.reshape(sh), a), "append_ndim", shape=sh, ndim=nd, got=v.shape):
                        return
    for v in (3.5, [1.0, 2.0], (1, 2, 3), [[1, 2], [3, 4]], np.float64(2.0)):
        for nd in range(0, 4):
            t.step()
            w = np.asarray(v)
            r = append_ndim(v, nd)
            t.check(r.shape == w.shape + (1,) * nd and np.array_equal(r.reshape(w.shape), w), "append_ndim of array_like")
    t.sample({"shapes": len(all_shapes(t.tier))})


def c_xyz(case, t):
    from geoana.utils import check_xyz_dim
    shapes = [s for s in all_shapes("thorough" if t.thorough else "quick")]
    for sh in shapes:
        for d in range(1, 5):
            for dt in ("f8", "i4", "f4", ">f8"):
                a = fill(sh + (d,), dt)
                for how in LAY:
                    x = lay(a, how)
                    t.state("xyz", sh, d, dt, how)
                    for dim in range(1, 5):
                        t.step()
                        if dim != d:
                            t.raises("check_xyz_dim", check_xyz_dim, x, dim)
                            continue
                        for dtype in (None, float, int, complex):
                            if dtype is int and dt[-2:] != "i4":
                                continue
                            r = check_xyz_dim(x, dim) if dtype is None else check_xyz_dim(x, dim=dim, dtype=dtype)
                            if not t.check(r.shape == a.shape and r.dtype == np.dtype(dtype or float) and np.array_equal(r, a), "check_xyz_dim: array", shape=sh, dim=dim, got=r.shape, dtype=repr(dtype)):
                                return
                        if how == "C":
                            for tup in (tuple(x[..., i].copy() for i in range(d)), tuple(x[..., i] for i in range(d))) + ((tuple(x[..., i].tolist() for i in range(d)),) if a.size else ()):
                                r = check_xyz_dim(tup, dim)
                                if not t.check(r.shape == a.shape and np.array_equal(r, a), "check_xyz_dim: tuple of coordinate arrays", shape=sh, dim=dim, got=r.shape):
                                    return
                            if a.size:
                                r = check_xyz_dim(x.tolist(), dim)
                                t.check(r.shape == a.shape and np.array_equal(r, a), "check_xyz_dim: nested list")
                            if d == 3:
                                t.same("check_xyz_dim: default dimension", check_xyz_dim(x), check_xyz_dim(x, 3))
    for bad in ((np.zeros(3), np.zeros(2), np.zeros(3)), (np.zeros(3), np.zeros(3)), "abc", ["a", "b", "c"], 3.0, None, [[1.0, 2.0, 3.0], [1.0, 2.0]], (1.0, 2.0), np.zeros((3, 0)), (np.zeros((2, 3)),) * 2):
        t.state("bad", repr(bad))
        t.raises("check_xyz_dim(%r)" % (bad,), check_xyz_dim, bad)
    t.sample({"shapes": len(shapes)})


def c_distances(case, t):
    from geoana import spatial as sp
    import inspect
    vals = [-2.0, 0.0, 0.5, 3.0]
    P = np.array(list(itertools.product(vals, repeat=3)))
    for o in itertools.product([0.0, -1.5, 2.0], repeat=3):
        for n in (0, 1, 2, 3, 5, len(P)):
            for how in ("C", "F", "strided", "readonly"):
                x = lay(P[:n], how)
                t.state("distance", o, n, how)
                for org in (np.array(o), list(o), tuple(o)):
                    t.step(3)
                    want = np.array([[p[i] - o[i] for i in range(3)] for p in P[:n]]).reshape(-1, 3)
                    t.same("vector_distance", sp.vector_distance(x, org), want)
                    t.close("distance", sp.distance(x, org), np.array([np.sqrt(sum(q * q for q in w)) for w in want]).reshape(-1), 1e-14, scale=10.0, vec=False)
                    t.close("vector_dot", sp.vector_dot(x, org), np.array([sum(p[i] * o[i] for i in range(3)) for p in P[:n]]).reshape(-1), 1e-14, scale=30.0, vec=False)
                if not any(o):
                    t.step(2)
                    t.same("vector_distance: default origin", sp.vector_distance(x), P[:n])
                    t.close("distance: default origin", sp.distance(x), np.sqrt(np.sum(P[:n] ** 2, -1)), 1e-14, scale=10.0, vec=False)
    # every pairing of number types of the points and of the origin
    W = np.array(list(itertools.product([-2, 0, 3], repeat=3)))
    for px in ("i4", "i8", "i2", "f4", "f8", ">f8", ">i4", "c16"):
        for o, ox in (([0.5, -1.5, 2.0], "f8"), ([0.5, -1.5, 2.0], "f4"), ([0.5, -1.5, 2.0], "list"), ([1, -2, 3], "i8"), ([1, -2, 3], "i2"), ([1, -2, 3], "list"), ([0.5, -1.5, 2.0], "tuple"), ([0.5, 1, -2], "list")):
            t.state("distance types", px, o, ox)
            t.step(3)
            x = W.astype(px)
            org = o if ox == "list" else tuple(o) if ox == "tuple" else np.array(o, dtype=ox)
            want = np.array([[p[i] - o[i] for i in range(3)] for p in W.tolist()])
            t.close("vector_distance: number types", sp.vector_distance(x, org), want, 1e-14, scale=10.0, vec=False, points=px, origin=ox)
            t.close("distance: number types", sp.distance(x, org), np.sqrt(np.sum(want ** 2, -1)), 1e-6 if "f4" in (px, ox) else 1e-14, scale=10.0, vec=False, points=px, origin=ox)
            t.close("vector_dot: number types", sp.vector_dot(x, org), np.array([sum(p[i] * o[i] for i in range(3)) for p in W.tolist()]), 1e-6 if "f4" in (px, ox) else 1e-14, scale=30.0, vec=False, points=px, origin=ox)
    z = P[:9] + 1j * P[9:18]
    t.close("vector_dot: complex", sp.vector_dot(z, [1.0, 2j, -1.0]), z[:, 0] + 2j * z[:, 1] - z[:, 2], 1e-14, scale=30.0, vec=False)
    for sh in all_shapes("quick"):
        for d in (2, 3):
            for dt in ("f8", "c16", "i4"):
                a = fill(sh + (d,), dt)
                for how in ("C", "F", "strided"):
                    t.state("magnitude", sh, d, dt, how)
                    t.step()
                    w = np.zeros(sh)
                    for ix in itertools.product(*[range(k) for k in sh]):
                        w[ix] = np.sqrt(sum(abs(complex(c)) ** 2 for c in a[ix]))
                    t.close("vector_magnitude", sp.vector_magnitude(lay(a, how)), w, 1e-13, scale=1.0 + np.abs(w), shape=sh)
    for fn, bad in ((sp.vector_distance, [(np.zeros((4, 2)),), (np.zeros((4, 3)), [0.0, 1.0]), (np.zeros((4, 3)), [0.0, 1.0, 2.0, 3.0]), (np.zeros((3, 4)),)]),
                    (sp.distance, [(np.zeros((4, 2)),), (np.zeros((4, 3)), [0.0, 1.0]), (np.zeros((3, 4)),), (np.zeros((4, 3)), [0.0] * 4)]),
                    (sp.vector_dot, [(np.zeros((4, 3)), [0.0, 1.0]), (np.zeros((4, 3)), [0.0] * 4), (np.zeros((4, 2)), [0.0] * 3)])):
        for b in bad:
            t.state("bad", fn.__name__, repr(b))
            t.raises("%s%r" % (fn.__name__, b), fn, *b)
    t.sample({"points": len(P)})


def c_dipole(case, t):
    """Displacement, distance, dot and cross products relative to a dipole source."""
    from geoana.em import base, fdem, static, tdem
    kinds = [(base.BaseDipole, {}), (base.BaseElectricDipole, {}), (base.BaseMagneticDipole, {}), (static.MagneticDipoleWholeSpace, {}), (static.MagneticPoleWholeSpace, {}), (static.CircularLoopWholeSpace, {}),
             (fdem.ElectricDipoleWholeSpace, dict(frequency=1.0)), (fdem.MagneticDipoleWholeSpace, dict(frequency=[1.0, 2.0])), (tdem.ElectricDipoleWholeSpace, dict(time=1.0)),
             (fdem.MagneticDipoleHalfSpace, dict(frequency=1.0)), (tdem.VerticalMagneticDipoleHalfSpace, dict(time=1.0)),
             (fdem.MagneticDipoleLayeredHalfSpace, dict(frequency=[1.0], thickness=[2.0]))]
    locs = [[0.0, 0.0, 0.0], [-1.5, 2.0, 0.0], [0.25, -3.0, 0.0]]
    oris = ["X", "y", "Z", [1.0, -2.0, 2.0], [0.0, 0.0, -4.0], [3e-9, 4e-9, 0.0]]
    P = np.array(list(itertools.product([-2.0, 0.0, 0.5, 3.0], repeat=3)))
    forms = [P[7], P[:1], P[:3], P, P[:0], P[:8].reshape(2, 4, 3), P[:9].reshape(3, 3, 3), P[:4].reshape(2, 1, 2, 3), P * 1e12, P * 1e-12]
    units = {"X": [1.0, 0.0, 0.0], "y": [0.0, 1.0, 0.0], "Z": [0.0, 0.0, 1.0]}
    for cls, need in kinds:
        moving = cls(**need)
        for l, q in itertools.product(locs, oris):
            moving.location = l
            moving.orientation = q
            u = units[q] if isinstance(q, str) else (np.array(q) / np.sqrt(sum(np.array(q) ** 2))).tolist()
            t.state("dipole", cls.__module__ + cls.__name__, l, repr(q))
            for o in (moving, cls(location=l, orientation=q, **need)):
                for x0 in forms:
                    for how in ("C", "F", "strided", "readonly"):
                        x = lay(x0, how)
                        t.step(4)
                        d = dict(source=cls.__name__, location=l, orientation=q, shape=x0.shape)
                        f = x0.reshape(-1, 3).tolist()
                        wd = np.array([[p[i] - l[i] for i in range(3)] for p in f]).reshape(x0.shape)
                        t.same("displacement from the source", np.asarray(o.vector_distance(x)), wd, **d)
                        m = 1e-12 if x0 is forms[-1] else 1e12 if x0 is forms[-2] else 1.0
                        wr = np.array([np.sqrt(sum(c * c for c in r)) for r in wd.reshape(-1, 3)]).reshape(x0.shape[:-1])
                        t.close("distance from the source", o.distance(x), wr, 1e-14, scale=wr + 1e-300, vec=False, **d)
                        t.close("dot product with the orientation", o.dot_orientation(x), np.array([sum(p[i] * u[i] for i in range(3)) for p in f]).reshape(x0.shape[:-1]), 1e-14, scale=10 * m, vec=False, **d)
                        t.close("cross product with the orientation", o.cross_orientation(x), np.array([[p[1] * u[2] - p[2] * u[1], p[2] * u[0] - p[0] * u[2], p[0] * u[1] - p[1] * u[0]] for p in f]).reshape(x0.shape),
                                1e-14, scale=10 * m, vec=False, **d)
                        t.same("points given to a source", x, x0, **d)
                z = P[:9] + 1j * P[9:18]
                t.close("dot product of complex vectors", o.dot_orientation(z), z[:, 0] * u[0] + z[:, 1] * u[1] + z[:, 2] * u[2], 1e-14, scale=10.0, vec=False)
                if t.violations:
                    return
    t.sample({"dipole classes": len(kinds)})


def c_repeat(case, t):
    from geoana.spatial import repeat_scalar
    for n in range(0, 9):
        for dt in ("f8", "c16", "i4"):
            a = fill((n,), dt)
            for how in LAY:
                for dim in (None, 1, 2, 3, 5):
                    t.state("repeat", n, dt, how, dim)
                    t.step()
                    r = repeat_scalar(lay(a, how)) if dim is None else repeat_scalar(lay(a, how), dim)
                    w = np.array([[v] * (dim or 3) for v in a]).reshape(n, dim or 3)
                    if not t.check(r.shape == w.shape and np.array_equal(r, w), "repeat_scalar", n=n, dim=dim, got=r, want=w):
                        return
    for bad in (np.zeros((2, 3)), np.zeros((3, 1)), np.zeros((1, 3)), np.zeros((2, 2, 2))):
        t.state("bad", bad)
        t.raises("repeat_scalar of shape %r" % (bad.shape,), repeat_scalar, bad)
    t.sample({"lengths": 9})


def c_requires(case, t):
    """Soft dependencies: every subset of present and missing modules."""
    import contextlib
    import io
    from geoana.utils import requires
    for n in range(0, 4):
        for have in itertools.product([True, False, np], repeat=n):
            t.state("requires", repr([h is False for h in have]), repr(have))
            t.step(2)
            mods = {"m%d" % i: h for i, h in enumerate(have)}
            keep = dict(mods)

            def fn(a, b=2):
                return ("ran", a, b)
            deco = requires(mods)(fn)
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                r = deco(1, b=5)
            missing = [k for k, h in keep.items() if h is False]
            t.check(mods == keep, "requires: argument changed")
            if missing:
                t.check(r is None and all(k in buf.getvalue() for k in missing) and not any(k in buf.getvalue() for k in keep if k not in missing), "requires: missing %r" % missing, out=buf.getvalue())
            else:
                t.check(r == ("ran", 1, 5) and not buf.getvalue(), "requires: all present")
    t.sample({"dependency subsets": 40})
