"""C15: evaluation is pointwise and follows the documented shapes."""
import itertools

import numpy as np
from scipy.constants import mu_0

from ..spec import BY_NAME, SPECS

TECHNIQUE = "exhaustive enumeration of batch shapes x axis lengths x layouts x containers on the real methods, each compared with one-point one-frequency evaluations"
SHAPES = [(0,), (1,), (2,), (3,), (4,), (5,), (8,), (1, 1), (1, 3), (3, 1), (2, 3), (3, 3), (3, 3, 3), (2, 1, 3, 2), (0, 3), (2, 0), (3, 0, 3)]
FLAT = [(0,), (1,), (2,), (3,), (4,), (5,), (8,), (9,)]
BIG = [(127,), (1025,), (4097,), (64, 65)]
AX = {"frequency": [10.0, 300.0, 2.5, 4000.0, 77.0], "time": [1e-3, 2e-2, 4e-4, 5e-5, 7e-3]}
AXN = [None, 1, 2, 3, 5]


def bounds(tier):
    return {"batch shapes": SHAPES, "batch shapes of sources documented for (n, 3) only": FLAT, "large": BIG, "axis lengths": AXN, "counts": "every number of points and of frequencies or times up to 33 or 70, and up to 8193 around powers of two, distinct and repeated values in no order",
            "alike": ALIKE, "layouts": ["C", "F", "strided", "reversed", "read-only", "big-endian", "float32", "int64", "list", "tuple of coordinate arrays"]}


def cases(tier):
    out = []
    for s in SPECS:
        for n in (AXN if s.axis else [None]):
            for v in range(2 if tier == "quick" else 3):
                out.append({"c": s.name, "n": n, "state": v})
    out += [{"k": "counts", "c": s.name} for s in SPECS]
    out += [{"k": "company", "c": s.name, "state": v} for s in SPECS for v in range(2)]
    out += [{"k": "alike", "c": s.name, "state": v} for s in SPECS for v in range(2)]
    return out + [{"c": "functions"}]


def snap(p, big):
    """Coordinates exact in single precision (and different from every source location)."""
    return np.round(p * 64) / 64


def pick(idx_shape, n, k):
    size = int(np.prod(idx_shape))
    i = (np.arange(size) * 5 + k) % n
    return i.reshape(idx_shape)


def layouts(a, nd, exact_int):
    """The same points in other memory layouts, number types and containers."""
    out = [("C", a), ("F", np.asfortranarray(a))]
    big = np.zeros(tuple(2 * n for n in a.shape[:-1]) + (a.shape[-1] + 2,))
    v = big[tuple(slice(None, None, 2) for _ in a.shape[:-1]) + (slice(1, -1),)]
    v[...] = a
    out.append(("strided", v))
    w = np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])
    out.append(("reversed", w[tuple(slice(None, None, -1) for _ in a.shape)]))
    r = a.copy()
    r.flags.writeable = False
    out.append(("readonly", r))
    out.append(("bigendian", a.astype(">f8")))
    out.append(("float32", a.astype(np.float32)))
    if exact_int:
        out.append(("int", a.astype(np.int64)))
    if nd:
        if a.size:
            out.append(("list", a.tolist()))
        out.append(("tuple", tuple(a[..., i].copy() for i in range(a.shape[-1]))))
        out.append(("tuple of views", tuple(a[..., i] for i in range(a.shape[-1]))))
    return out


def as_tuple(v):
    return v if isinstance(v, tuple) else (v,)


def run_case(case, t):
    if case["c"] == "functions":
        return functions(t)
    if case.get("k") == "counts":
        return counts(case, t)
    if case.get("k") == "alike":
        return alike(case, t)
    if case.get("k") == "company":
        return company(case, t)
    s = BY_NAME[case["c"]]
    st = {p: d["values"][(0, 1, -1)[case["state"]] if len(d["values"]) > 1 else 0] for p, d in s.params.items()}
    for z in ("current", "moment", "amplitude", "primary_field", "magnetization", "mass", "rho"):
        if z in st and not np.any(st[z]):
            st[z] = s.params[z]["values"][1]
    n = case["n"]
    axv = None
    if s.axis:
        axv = AX[s.axis][:n or 1]
        st[s.axis] = axv[0] if n is None else axv
        singles = [s.make(dict(st, **{s.axis: a})) for a in axv]
    else:
        singles = [s.make(st)]
    o = s.make(st)
    lead = () if n is None else (n,)
    flat_only = s.cls_name.endswith("LayeredHalfSpace")
    for ints in (False, True):
        P = snap(s.points, False) if not ints else np.round(s.points * 3 + np.array([0.4, -0.3, -1.0 if s.domain == "below" else 0.0]))
        if s.domain == "below":
            P[:, 2] = -np.abs(P[:, 2])
        if s.domain == "above":
            P[:, 2] = np.abs(P[:, 2])
        # reference: one point, one frequency, one call
        want = {}
        for m, kw, rank in s.calls():
            rows = []
            for q in singles:
                rows.append([[np.asarray(v).reshape((3,) * rank) for v in as_tuple(getattr(q, m)(p.reshape(1, 3) if flat_only else p.copy(), **kw))] for p in P])
                t.step(len(P))
            w = np.array(rows)          # (axis, point, parts, ...)
            want[m, repr(kw)] = np.moveaxis(w, 2, 0)
        for shape in (FLAT if flat_only else SHAPES):
            for k in ((0, 3) if not ints else (1,)):
                idx = pick(shape, len(P), k)
                pts = P[idx]
                for lname, arg in layouts(pts, s.nd, ints):
                    if ints and lname not in ("int", "list", "tuple"):
                        continue
                    for m, kw, rank in s.calls():
                        compare(t, s, o, m, kw, rank, arg, idx, want[m, repr(kw)], lead, n, lname)
                    t.state(s.name, n, case["state"], shape, lname, k, ints)
                    if t.violations:
                        return
        # a single point without any leading axis
        if not flat_only:
            for i in range(len(P)):
                for lname, arg in layouts(P[i], s.nd, ints):
                    for m, kw, rank in s.calls():
                        compare(t, s, o, m, kw, rank, arg, np.array(i), want[m, repr(kw)], lead, n, lname)
                    t.state(s.name, n, case["state"], "point", i, lname)
                if t.violations:
                    return
        if s.domain == "surf":  # only the horizontal position counts: (..., 2) points
            for shape in SHAPES:
                idx = pick(shape, len(P), 2)
                for m, kw, rank in s.calls():
                    compare(t, s, o, m, kw, rank, np.ascontiguousarray(P[idx][..., :2]), idx, want[m, repr(kw)], lead, n, "two columns")
        if s.pair and not ints:
            for shape in SHAPES:
                ia, ib = pick(shape, len(P), 1), pick(shape, len(P), 6)
                for m, kw, rank in s.calls():
                    w = want[m, repr(kw)]
                    g = getattr(o, m)(P[ia], P[ib])
                    sc = np.abs(w[0, 0][ia]) + np.abs(w[0, 0][ib])
                    if rank:
                        sc = np.linalg.norm(sc, axis=-1, keepdims=True)
                    t.close("pair of receivers", g, w[0, 0][ia] - w[0, 0][ib], tol=1e-11, scale=sc, method=m, shape=shape)
                    t.step()
    if case["state"] == 0:
        P = snap(s.points, False)
        for shape in BIG[:None if t.thorough else 3]:
            if flat_only:
                shape = shape[:1]
            idx = pick(shape, len(P), 0)
            for m, kw, rank in s.calls():
                w = np.moveaxis(np.array([[[np.asarray(v).reshape((3,) * rank) for v in as_tuple(getattr(q, m)(p.reshape(1, 3) if flat_only else p.copy(), **kw))] for p in P] for q in singles]), 2, 0)
                compare(t, s, o, m, kw, rank, P[idx], idx, w, lead, n, "large")
            t.state(s.name, n, "big", shape)
    t.sample({"class": s.name, "axis": n, "state": st})


def counts(case, t):
    """Every number of points, and every number of frequencies or times (distinct and repeated, in no order)."""
    s = BY_NAME[case["c"]]
    st = {p: d["values"][0] for p, d in s.params.items()}
    flat_only = s.cls_name.endswith("LayeredHalfSpace")
    P = snap(s.points, False)
    if s.axis:
        base = np.array(AX[s.axis][:5])
        grid = np.array([b * f for f in (1.0, 1.01, 1.1, 1.37, 0.77, 0.9, 2.03) for b in base])       # 35 distinct, in no order
    else:
        grid = np.array([0.0])
    singles = [s.make(dict(st, **({s.axis: float(a)} if s.axis else {}))) for a in grid]
    want = {}
    for m, kw, rank in s.calls():
        rows = [[[np.asarray(v).reshape((3,) * rank) for v in as_tuple(getattr(q, m)(p.reshape(1, 3) if flat_only else p.copy(), **kw))] for p in P] for q in singles]
        want[m, repr(kw)] = np.moveaxis(np.array(rows), 2, 0)
        t.step(len(P) * len(singles))
    o = s.make(st)
    heavy = s.name in ("fdem.MagneticDipoleHalfSpace",) or flat_only
    nums = list(range(1, 34 if heavy and not t.thorough else 71)) + [v for k in range(7, 11) for v in (2 ** k - 1, 2 ** k, 2 ** k + 1)] + [100, 200, 300, 500, 1000]
    if not s.axis:
        nums = sorted(nums + [2047, 2048, 2049, 3000, 5000, 8192, 8193, 10000, 10001, 16385, 20001, 32769, 50001, 65537, 100001])
    elif heavy and not t.thorough:
        nums = [v for v in nums if v < 300] + [1001, 4097]
    else:
        nums += [2049, 4097, 8193, 10001] + ([65537, 100001] if t.thorough else [])
    for n in nums:
        idx = pick((n,), len(P), n)
        t.state(s.name, "points", n)
        lead, ax, w0 = (), None, 0
        if s.axis:
            setattr(o, s.axis, float(grid[0]))
            if flat_only:
                lead, ax = (1,), 1
        for m, kw, rank in s.calls():
            compare(t, s, o, m, kw, rank, P[idx], idx, want[m, repr(kw)][:, :1], lead, ax, "count of points")
        if s.axis and n <= (300 if heavy else 1025):
            for k, ai in (("distinct", (np.arange(n) * 11 + 3) % len(grid)), ("repeated", (np.arange(n) * 3 + n) % 5)):
                t.state(s.name, s.axis, n, k)
                setattr(o, s.axis, grid[ai])
                for q in ((3,), (1,)):
                    idx = pick(q, len(P), 1)
                    for m, kw, rank in s.calls():
                        compare(t, s, o, m, kw, rank, P[idx], idx, want[m, repr(kw)][:, ai], (n,), n, "count of " + s.axis)
        if t.violations:
            return
    if s.axis:                                  # many of both
        for n, na in ((101, 35), (701, 7)) if heavy else ((3001, 35), (1501, 14), (20001, 5)):
            ai, idx = (np.arange(na) * 11 + 3) % len(grid), pick((n,), len(P), n)
            setattr(o, s.axis, grid[ai])
            t.state(s.name, s.axis, n, na)
            for m, kw, rank in s.calls():
                compare(t, s, o, m, kw, rank, P[idx], idx, want[m, repr(kw)][:, ai], (na,), na, "many of both")
    elif t.thorough:
        for n in (262145, 500001, 1000001):
            idx = pick((n,), len(P), n)
            t.state(s.name, "points", n)
            for m, kw, rank in s.calls():
                compare(t, s, o, m, kw, rank, P[idx], idx, want[m, repr(kw)][:, :1], (), None, "count of points")
    t.sample({"class": s.name, "counts": nums})


ALIKE = [(1,), (2,), (3,), (1, 1), (2, 2), (3, 1), (1, 2, 2), (2, 3, 2), (1, 1, 1, 1), (2, 1, 2, 2)]


def alike(case, t):
    """Batches of every shape all of whose points are one point, or one of two points: all inside, all outside, all on the axis ..."""
    s = BY_NAME[case["c"]]
    flat_only = s.cls_name.endswith("LayeredHalfSpace")
    st = {p: d["values"][(0, -1)[case["state"]]] for p, d in s.params.items()}
    for z in ("current", "moment", "amplitude", "primary_field", "magnetization", "mass", "rho"):
        if z in st and not np.any(st[z]):
            st[z] = s.params[z]["values"][1]
    P = s.points
    if s.domain == "whole":
        c = np.zeros(3)
        for k in ("location", "min_location", "nodes", "location_a"):
            if k in st:
                c = np.array(st[k], float).reshape(-1, 3)[0]
        P = np.concatenate([P, c + np.array([[0.01, 0.02, 0.015], [0.1, 0.05, 0.2], [0.0, 0.0, 0.3], [8.0, -5.0, 6.0]])])
    axv = AX[s.axis][:2] if s.axis else [None]
    singles = [s.make(dict(st, **({s.axis: a} if s.axis else {}))) for a in axv]
    if s.axis:
        st[s.axis] = list(axv)
    o = s.make(st)
    lead, n = ((len(axv),), len(axv)) if s.axis else ((), None)
    for m, kw, rank in s.calls():
        rows = [[[np.asarray(v).reshape((3,) * rank) for v in as_tuple(getattr(q, m)(p.reshape(1, 3) if flat_only else p.copy(), **kw))] for p in P] for q in singles]
        want = np.moveaxis(np.array(rows), 2, 0)
        for shape in ([a for a in ALIKE if len(a) == 1] if flat_only else ALIKE):
            for i in range(len(P)):
                t.state(s.name, case["state"], "alike", m, kw, shape, i)
                compare(t, s, o, m, kw, rank, P[np.full(shape, i)], np.full(shape, i), want, lead, n, "alike")
            if int(np.prod(shape)) in (2, 4):
                for i, j in itertools.permutations(range(len(P)), 2):
                    idx = np.where(np.arange(int(np.prod(shape))) % 2, i, j).reshape(shape)
                    t.state(s.name, case["state"], "alike", m, kw, shape, i, j)
                    compare(t, s, o, m, kw, rank, P[idx], idx, want, lead, n, "two kinds")
            if t.violations:
                return
    t.sample(case)


NEAR_FAR = [0.0, 1e-300, 1e-12, 1e-6, 1e-3, 1e2, 1e4, 1e7, 1e12, 1e100, 1e200, np.inf, np.nan]
EXTREME = {"frequency": [1e-15, 1e-6, 1e7, 1e12, 1e30], "time": [1e-30, 1e-12, 1e-8, 1e3, 1e12, 1e30]}


def company(case, t):
    """Values at a point do not depend on the other points and frequencies of the call, however extreme they are."""
    s = BY_NAME[case["c"]]
    flat_only = s.cls_name.endswith("LayeredHalfSpace")
    st = {p: d["values"][case["state"] % len(d["values"])] for p, d in s.params.items()}
    P = snap(s.points, False)
    axv = AX[s.axis][:3] if s.axis else [None]
    singles = [s.make(dict(st, **({s.axis: a} if s.axis else {}))) for a in axv]
    want = {}
    for m, kw, rank in s.calls():
        rows = [[[np.asarray(v).reshape((3,) * rank) for v in as_tuple(getattr(q, m)(p.reshape(1, 3) if flat_only else p.copy(), **kw))] for p in P] for q in singles]
        want[m, repr(kw)] = np.moveaxis(np.array(rows), 2, 0)
    if s.axis:
        st[s.axis] = list(axv)
    o = s.make(st)
    lead, n = ((len(axv),), len(axv)) if s.axis else ((), None)
    idx = np.arange(len(P))
    centre = np.zeros(3)
    for k in ("location", "nodes", "location_a", "min_location"):
        if k in st:
            centre = np.array(st[k], float).reshape(-1, 3)[0]
    for r, d in itertools.product(NEAR_FAR, ([1.0, 0, 0], [-0.6, 0.8, 0], [0, 0, 1.0], [0, 0, -1.0], [-0.5, -0.4, -0.7])):
        if flat_only and not (1e-3 <= r <= 1e7):
            continue
        c = centre + np.where(np.array(d) == 0, 0.0, r * np.array(d)) if r else centre
        if s.domain == "below":
            c[2] = -abs(c[2])
        if s.domain == "above":
            c[2] = abs(c[2])
        for at in (0, 5, len(P)):
            t.state(s.name, case["state"], "company", r, d, at)
            for m, kw, rank in s.calls():
                compare(t, s, o, m, kw, rank, P, idx, want[m, repr(kw)], lead, n, "in company of %g" % r, call=np.insert(P, at, c, axis=0), drop=(None, at))
            if t.violations:
                return
    if s.axis:
        for v, at in itertools.product(EXTREME[s.axis], range(len(axv) + 1)):
            o = s.make(dict(st, **{s.axis: np.insert(np.array(axv, float), at, v)}))
            t.state(s.name, case["state"], "company", s.axis, v, at)
            for m, kw, rank in s.calls():
                compare(t, s, o, m, kw, rank, P, idx, want[m, repr(kw)], lead, n, "in company of %s %g" % (s.axis, v), drop=(at, None))
            if t.violations:
                return


def compare(t, s, o, m, kw, rank, arg, idx, want, lead, n, lname, call=None, drop=(None, None)):
    got = as_tuple(getattr(o, m)(arg if call is None else call, **kw))
    extra = [d is not None for d in drop]
    if any(extra):
        full = tuple(v + extra[0] for v in lead) + tuple(v + extra[1] for v in idx.shape) + (3,) * rank
        cut = []
        for g in got:
            g = np.asarray(g)
            if s.squeeze:
                g = g.reshape(full)
            if not t.check(g.shape == full, "%s.%s: shape in company" % (s.name, m), got=g.shape, want=full):
                return
            g = g if drop[0] is None else np.delete(g, drop[0], axis=0)
            cut.append(g if drop[1] is None else np.delete(g, drop[1], axis=len(lead)))
        got = tuple(cut)
    t.step()
    if not t.check(len(got) == len(want), "%s.%s: number of parts" % (s.name, m)):
        return
    for part, (g, w) in enumerate(zip(got, want)):
        w = w[:, idx]                        # (axis,) + shape + (3,)*rank
        big = np.abs(want[0][:, idx])
        sc = np.sqrt(np.sum(np.maximum(np.abs(w), big) ** 2, axis=tuple(range(w.ndim - rank, w.ndim)), keepdims=True)) if rank else np.maximum(np.abs(w), big)
        full = lead + idx.shape + (3,) * rank
        if n is None:
            w, sc = w[0], sc[0]
        sc = np.broadcast_to(sc, w.shape)
        if s.name == "fdem.MagneticDipoleHalfSpace":
            # the closed form cancels at small induction numbers
            p = np.asarray(arg, float)[..., :2] - o.location[:2]
            r = np.sqrt(np.sum(p ** 2, axis=-1))[..., None]
            k2 = np.abs(np.asarray(o.omega)) * mu_0 * o.sigma
            k2 = k2 if drop[0] is None else np.delete(k2, drop[0])
            k2 = k2.reshape(k2.shape + (1,) * r.ndim)
            sc = np.broadcast_to(np.maximum(sc, abs(o.moment) / (4 * np.pi * r ** 3) * (1 + 40 / (k2 * r ** 2))), w.shape)
        g = np.asarray(g)
        assert w.shape == full
        if s.squeeze:
            # axes of length one may or may not be dropped: the values are claimed
            if not t.check(g.shape in (np.squeeze(w).shape, w.shape), "%s.%s: shape" % (s.name, m), got=g.shape, want=w.shape, layout=lname):
                return
            w, sc = w.reshape(g.shape), sc.reshape(g.shape)
        t.outcome(s.name, m, n, idx.shape)
        t.close("%s.%s: %s" % (s.name, m, lname), g, w, tol=1e-10, scale=sc, shape=idx.shape, kw=kw, axis=n, part=part)


def functions(t):
    """Module-level functions of times, frequencies and offsets."""
    from geoana.em import fdem, tdem
    T = np.array([1e-3, 2e-2, 4e-4, 5e-5, 7e-3])
    XY = np.array([[3., 4.], [-10., 2.], [0.5, -0.25], [100., 30.], [-7., -9.]])
    tf = ["magnetic_field_vertical_magnetic_dipole", "magnetic_field_time_deriv_magnetic_dipole", "magnetic_flux_vertical_magnetic_dipole", "magnetic_flux_time_deriv_magnetic_dipole"]
    kw = dict(sigma=0.1, moment=2.0)
    for name in tf:
        f = getattr(tdem, name)
        want = np.array([[f(a, p, **kw) for p in XY] for a in T])
        t.check(want.shape == (5, 5, 3), name + ": single point shape", got=want.shape)
        for tshape, shape in itertools.product([(), (0,), (1,), (2,), (3,), (5,)], SHAPES):
            ti, pi = pick(tshape, 5, 1), pick(shape, 5, 2)
            w = want[ti[..., None], pi.ravel()].reshape(tshape + shape + (3,)) if ti.ndim else want[int(ti)][pi]
            for z in (None, 0.0, 5.0):
                a = XY[pi] if z is None else np.concatenate([XY[pi], np.full(shape + (1,), z)], -1)
                t.state(name, tshape, shape, z)
                t.step()
                t.close(name, f(T[ti], a, **kw), w, tol=1e-11, tshape=tshape, shape=shape, z=z)
                if a.size:
                    t.close(name + ": list", f(T[ti], a.tolist(), **kw), w, tol=1e-11)
                t.close(name + ": tuple", f(T[ti], tuple(np.moveaxis(a, -1, 0)), **kw), w, tol=1e-11)
                t.close(name + ": F", f(T[ti], np.asfortranarray(a), **kw), w, tol=1e-11)
    for mod, names in ((tdem, ["vertical_magnetic_field_horizontal_loop", "vertical_magnetic_flux_horizontal_loop", "vertical_magnetic_field_time_deriv_horizontal_loop",
                               "vertical_magnetic_flux_time_deriv_horizontal_loop"]), (fdem, ["vertical_magnetic_field_horizontal_loop", "vertical_magnetic_flux_horizontal_loop"])):
        for name in names:
            f = getattr(mod, name)
            X = T if mod is tdem else 1 / T
            want = np.array([f(a, sigma=0.1, radius=12.0) for a in X])
            for shape in [()] + SHAPES:
                i = pick(shape, 5, 3)
                t.state(mod.__name__, name, shape)
                t.step(3)
                t.close(name, f(X[i], sigma=0.1, radius=12.0), want[i], tol=1e-12, vec=False, shape=shape)
                t.close(name + ": F", f(X[i] if X[i].ndim == 0 else np.asfortranarray(X[i]), sigma=0.1, radius=12.0), want[i], tol=1e-12, vec=False, shape=shape)
                r = np.repeat(X[i][..., None], 2, -1)[..., ::-1]
                t.close(name + ": view", f(r[..., 0], sigma=0.1, radius=12.0), want[i], tol=1e-12, vec=False, shape=shape)
