"""C21: fields move with the source and scale with its strength."""
import itertools

import numpy as np
from scipy.constants import mu_0

from ..core import gray
from ..spec import BY_NAME, SPECS
from ..walk import SMALL, axis_points, small_components

TECHNIQUE = ("exhaustive enumeration of source states x symmetry-group elements (24 proper and 24 improper cube rotations, generic rotations, translations, strengths, vector lengths, splittings) "
             "on the real classes; every field compared with the transformed field of the untransformed source")

SE3 = ["static.MagneticDipoleWholeSpace", "static.MagneticPoleWholeSpace", "static.CircularLoopWholeSpace", "static.LineCurrentWholeSpace", "static.PointCurrentWholeSpace",
       "static.ElectrostaticSphere", "static.MagnetostaticSphere", "gravity.PointMass", "gravity.Sphere", "fdem.ElectricDipoleWholeSpace", "fdem.MagneticDipoleWholeSpace",
       "tdem.ElectricDipoleWholeSpace"]
CUBE = ["static.MagneticPrism", "gravity.Prism"]          # box stays a box
VERT = ["static.PointCurrentHalfSpace", "static.DipoleHalfSpace", "fdem.HarmonicPlaneWave", "fdem.MagneticDipoleHalfSpace", "fdem.MagneticDipoleLayeredHalfSpace",
        "tdem.TransientPlaneWave", "tdem.VerticalMagneticDipoleHalfSpace"]
# what a reflection turns round as well (one cross product between source vector and field)
ODD = {"static.MagneticDipoleWholeSpace": ["vector_potential"], "static.CircularLoopWholeSpace": ["vector_potential"],
       "static.LineCurrentWholeSpace": ["magnetic_flux_density", "magnetic_field"], "fdem.ElectricDipoleWholeSpace": ["magnetic_field", "magnetic_flux_density"],
       "fdem.MagneticDipoleWholeSpace": ["electric_field", "current_density"], "fdem.HarmonicPlaneWave": ["magnetic_field", "magnetic_flux_density"],
       "tdem.ElectricDipoleWholeSpace": ["magnetic_field", "magnetic_field_time_deriv", "magnetic_flux_density", "magnetic_flux_density_time_deriv"],
       "tdem.TransientPlaneWave": ["magnetic_field", "magnetic_flux_density"]}
PLACE = ("location", "location_a", "location_b", "nodes")
ARROW = ("orientation", "primary_field", "magnetization")
STRENGTH = ("current", "moment", "amplitude", "mass", "rho", "primary_field", "magnetization")
NOTSTRENGTH = {"static.PointCurrentWholeSpace": ["rho"], "static.PointCurrentHalfSpace": ["rho"], "static.DipoleHalfSpace": ["rho"]}
NAMED = {"X": [1., 0, 0], "Y": [0, 1., 0], "Z": [0, 0, 1.]}
SHIFTS = [[3.0, -7.0, 5.5], [-0.015625, 0.25, 0.0], [524288.0, 4194304.0, -1024.5]]
FACTORS = [0.0, -1.0, 2.0, 1.0 / 3.0, 1e-9, 1e7]
LENGTHS = [0.125, 2.0, 3.0, 1e-5, 1e6] + [1 + z * 10.0 ** -k for k in (2, 4, 6, 8) for z in (5, -5)] + [10.0 ** k for k in (-140, -60, -30, -20, -15, -13, -11, -9, -7, 8, 10, 14, 20, 60, 140)]
TOL = {"tdem.VerticalMagneticDipoleHalfSpace": 1e-4,  # late times: differences of nearly equal terms
       "fdem.MagneticDipoleLayeredHalfSpace": 1e-7, "fdem.MagneticDipoleHalfSpace": 1e-5, "static.LineCurrentWholeSpace": 1e-8}


def signed_permutations():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product([1.0, -1.0], repeat=3):
            m = np.zeros((3, 3))
            for i in range(3):
                m[i, p[i]] = s[i]
            out.append(m)
    return out


def rot(axis, ang):
    a = np.asarray(axis, float) / np.linalg.norm(axis)
    k = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + np.sin(ang) * k + (1 - np.cos(ang)) * k @ k


def motions(name, thorough):
    """(label, matrix, shift, exact): the symmetries of the medium around the source."""
    sp = signed_permutations()
    if name in VERT:
        mats = [m for m in sp if m[2, 2] == 1.0]
        gen = [rot([0, 0, 1], a) for a in (0.3, 2.0, -1.1, 3.0)]
        shifts = [[s[0], s[1], 0.0] for s in SHIFTS]
    elif name in CUBE:
        mats, gen, shifts = sp, [], SHIFTS
    else:
        mats, shifts = sp, SHIFTS
        gen = [rot([1, 2, 3], 0.7), rot([-2, 1, 0.5], 2.5), rot([0, 0, 1], 1.0), rot([1, 0, 0], -0.2), rot([0.3, -1, 1], 3.0)]
        if thorough:
            gen += [rot(a, x) for a in ([1, 0, 2], [0, 1, 0], [5, -1, 1]) for x in (0.1, 1.5, 2.9)]
    if "Vertical" in name or "Plane" in name:
        shifts = shifts + [[0.0, 0.0, 0.0]]
    out = [("cube", m, [0, 0, 0], True) for m in mats] + [("shift", np.eye(3), s, True) for s in shifts]
    out += [("both", mats[7 % len(mats)], s, True) for s in shifts] + [("turn", g, [0, 0, 0], False) for g in gen] + [("turn", g, SHIFTS[0][:2] + [0.0 if name in VERT else 5.5], False) for g in gen[:2]]
    return out


def bounds(tier):
    return {"classes": [s.name for s in SPECS], "shifts": SHIFTS, "strength factors": FACTORS, "orientation lengths": LENGTHS, "small components": "one component of a direction 1e-1 to 1e-9 of another, points on the axes", "states per class": "full product of the placement, direction and shape domains"}


def states(s):
    """Source states: every combination of the placement, direction and shape parameters."""
    names = [p for p in s.params if p in PLACE + ARROW + ("radius", "quasistatic", "min_location", "max_location", "length", "thickness", "sigma", "mu_sphere", "sigma_sphere")
             and not (p == "sigma" and s.name not in VERT)]
    doms = [[v for v in s.params[p]["values"] if p not in ARROW or isinstance(v, str) or np.any(v)] for p in names]
    base = s.start()
    for p in base:
        if p in STRENGTH and p not in ARROW and not np.any(base[p]):
            base[p] = s.params[p]["values"][1]
    out = [dict(base, **dict(zip(names, c))) for c in itertools.product(*doms)]
    for st in out:
        for p in st:
            if p in PLACE:  # exact under shifts by multiples of 1/64
                st[p] = (np.round(np.asarray(st[p], float) * 64) / 64).tolist()
    return out


def sample_states(s):
    """One state per direction (the ladders go through all of them)."""
    seen, out = set(), []
    for st in states(s):
        k = repr([st.get(p) for p in ARROW])
        if k not in seen:
            seen.add(k)
            out.append(st)
    return out


def cases(tier):
    out = []
    for s in SPECS:
        n = len(states(s))
        k = 6
        out += [{"c": s.name, "k": "motion", "lo": i, "hi": min(i + k, n)} for i in range(0, n, k)]
        out += [{"c": s.name, "k": "strength"}]
        out += [{"c": s.name, "k": "ladder", "i": i} for i in range(len(sample_states(s)))]
        if "orientation" in s.params:
            out += [{"c": s.name, "k": "arrow"}]
        out += [{"c": s.name, "k": "small", "p": p} for p in ARROW if p in s.params and "Loop" not in s.name and "Vertical" not in s.name and "Pole" not in s.name]
    out += [{"c": "", "k": k} for k in ("electrodes", "wires", "boxes", "functions")]
    return out


def vec(v):
    return np.array(NAMED[v.upper()] if isinstance(v, str) else v, float)


def moved(st, m, d):
    out = dict(st)
    for p in st:
        if p in PLACE:
            out[p] = np.asarray(st[p], float) @ m.T + d
        elif p in ARROW:
            out[p] = m @ vec(st[p])
    if "min_location" in st:
        a = np.array([st["min_location"], st["max_location"]]) @ m.T + d
        out["min_location"], out["max_location"] = a.min(axis=0), a.max(axis=0)
    return out


def turned(v, rank, m):
    if rank == 0:
        return v
    if rank == 1:
        return np.einsum("ij,...j->...i", m, v)
    return np.einsum("ij,...jk,lk->...il", m, v, m)


def points(s):
    return np.round(s.points * 64) / 64


def scales(calls, ref):
    """Size of every result; a secondary field is a difference, as exact as the total field."""
    out = []
    for (m, kw, r), b in zip(calls, ref):
        sc = scale_of(b, r)
        if not kw and any(m2 == m and kw2.get("field") for m2, kw2, r2 in calls):  # total, primary and secondary together
            sc = np.broadcast_to(np.max(sc, axis=0), sc.shape)
        if kw.get("field") == "secondary":
            for (m2, kw2, r2), b2 in zip(calls, ref):
                if m2 == m and kw2.get("field") in ("total", "primary"):
                    sc = np.maximum(sc, scale_of(b2, r2))
        out.append(sc)
    return out


def scale_of(v, rank):
    if rank == 0:
        return np.maximum(np.abs(v), 1e-3 * np.max(np.abs(v), axis=-1, keepdims=True))
    ax = (-1,) if rank == 1 else (-2, -1)
    return np.sqrt(np.sum(np.abs(v) ** 2, axis=ax, keepdims=True))


def run_case(case, t):
    k = case["k"]
    if k in ("electrodes", "wires", "boxes", "functions"):
        return globals()[k](t)
    return globals()[k](BY_NAME[case["c"]], case, t)


def plain(s):
    return [(m, kw, r) for m, kw, r in s.calls() if not kw.get("coordinates")]


def drive(o, old, new):
    for p in new:
        if not (type(old[p]) is type(new[p]) and np.array_equal(old[p], new[p])):
            setattr(o, p, new[p])


def motion(s, case, t):
    tol = TOL.get(s.name, 1e-9)
    P = points(s)
    calls = plain(s)
    live = None
    for st in states(s)[case["lo"]:case["hi"]]:
        base = s.make(st)
        ref = {i: np.asarray(getattr(base, m)(P.copy(), **kw)) for i, (m, kw, r) in enumerate(calls)}
        size = scales(calls, [ref[i] for i in range(len(calls))])
        for lab, mat, d, exact in motions(s.name, t.thorough):
            d = np.asarray(d, float)
            new = moved(st, mat, d)
            n = len(P) if exact else 8
            Q = P[:n] @ mat.T + d
            t.state(s.name, repr(st), mat, d)
            if live is None:
                live = s.make(new)
            else:
                drive(live, cur, new)
            cur = new
            for who, o in (("fresh", s.make(new)), ("driven", live)):
                t.step()
                for i, (m, kw, r) in enumerate(calls):
                    sign = np.linalg.det(mat) if m in ODD.get(s.name, []) else 1.0
                    ax = -1 - r
                    v0 = np.take(ref[i], np.arange(n), axis=ax)
                    want = turned(v0, r, mat) * sign
                    got = np.asarray(getattr(o, m)(Q.copy(), **kw))
                    if not t.close("motion %s.%s" % (s.name, m), got, want, tol if exact else max(tol, 1e-7), scale=np.take(size[i], np.arange(n), axis=ax), state=st, matrix=mat, shift=d, who=who, kw=kw):
                        return
        t.sample({"class": s.name, "state": st, "motions": len(motions(s.name, t.thorough))})


def ladder(s, case, t):
    """Shifts, turns and strengths through all orders of magnitude."""
    tol = TOL.get(s.name, 1e-9)
    P = points(s)
    calls = plain(s)
    st = sample_states(s)[case["i"]]
    base = s.make(st)
    ref = [np.asarray(getattr(base, m)(P.copy(), **kw)) for m, kw, r in calls]
    size = scales(calls, ref)
    flat = 0.0 if s.name in VERT else 1.0
    steps = [("shift", np.eye(3), np.array([1.0, -2.0, 0.5 * flat]) * z * 2.0 ** k) for k in range(-20, 22, 1 if t.thorough else 3) for z in ((1, -1) if t.thorough else (1,))]
    if s.name in VERT:
        axes = [[0, 0, 1]]
    elif s.name in CUBE:
        axes = []
    else:
        axes = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, -2, 2]]
    angles = [10.0 ** -k for k in range(1, 13)]
    angles += [np.pi - a for a in angles] + [np.pi / 2 - a for a in angles] + [-a for a in angles]
    steps += [("turn", rot(a, x), np.zeros(3)) for a in axes for x in (angles if t.thorough else angles[::2])]
    live = None
    for lab, mat, d in steps:
        new = moved(st, mat, d)
        n = len(P) if lab == "shift" else 8
        Q = P[:n] @ mat.T + d
        t.state(s.name, "ladder", case["i"], mat, d)
        if live is None:
            live = s.make(new)
        else:
            drive(live, cur, new)
        cur = new
        for who, o in (("fresh", s.make(new)), ("driven", live)):
            t.step()
            for i, (m, kw, r) in enumerate(calls):
                want = turned(np.take(ref[i], np.arange(n), axis=-1 - r), r, mat)
                got = np.asarray(getattr(o, m)(Q.copy(), **kw))
                if not t.close("%s %s.%s" % (lab, s.name, m), got, want, tol if lab == "shift" else max(tol, 1e-7), scale=np.take(size[i], np.arange(n), axis=-1 - r), state=st, matrix=mat, shift=d, who=who, kw=kw):
                    return
    live = s.make(st)
    for p in [p for p in s.params if p in STRENGTH and p not in NOTSTRENGTH.get(s.name, [])]:
        v0 = np.asarray(st[p], float)
        for f in [z * 10.0 ** k for k in range(-15, 16, 1 if t.thorough else 3) for z in (1, -1)] + [1 + z * 10.0 ** -k for k in range(2, 13, 2) for z in (5, -5)]:
            t.state(s.name, "strengths", case["i"], p, f)
            t.step()
            setattr(live, p, f * v0 if v0.ndim else float(f * v0))
            for i, (m, kw, r) in enumerate(calls):
                if not t.close("strength %s.%s" % (s.name, m), np.asarray(getattr(live, m)(P.copy(), **kw)), f * ref[i], 1e-12 if abs(f) < 2 and s.name not in TOL else 1e-10, scale=f * size[i], parameter=p, factor=f, state=st, kw=kw):
                    return
        setattr(live, p, st[p])


def strength(s, case, t):
    P = points(s)
    calls = plain(s)
    names = [p for p in s.params if p in STRENGTH and p not in NOTSTRENGTH.get(s.name, [])]
    if s.name in ("static.LineCurrentWholeSpace",):
        names = ["current"]
    for st in states(s)[::5] or states(s):
        base = s.make(st)
        ref = [np.asarray(getattr(base, m)(P.copy(), **kw)) for m, kw, r in calls]
        size = scales(calls, ref)
        for p in names:
            v0 = np.asarray(st[p], float)
            live = s.make(st)
            for f in FACTORS:
                t.state(s.name, "strength", repr(st), p, f)
                setattr(live, p, f * v0 if v0.ndim else float(f * v0))
                for o in (s.make(dict(st, **{p: f * v0 if v0.ndim else float(f * v0)})), live):
                    t.step()
                    for (m, kw, r), b, sc in zip(calls, ref, size):
                        got = np.asarray(getattr(o, m)(P.copy(), **kw))
                        if not t.close("strength %s.%s" % (s.name, m), got, f * b, 1e-10, scale=f * sc, parameter=p, factor=f, state=st, kw=kw):
                            return
    t.sample({"class": s.name, "strengths": names, "factors": FACTORS})


def arrow(s, case, t):
    P = points(s)
    calls = plain(s)
    tol = max(1e-9, TOL.get(s.name, 0))
    plane = "Plane" in s.name
    dirs = [[1., 0, 0], [0, 1., 0], [3., -4, 0], [-1., -1, 0]] + ([] if plane else [[0, 0, 1.], [0, 0, -1.], [1., -2, 2], [-1., 1e-3, 5], [2e-6, 0, -1.]])
    one = [[1., 0, 0], [0, 1., 0], [0, 0, 1.]][:2 if plane else 3]
    linear = "Loop" not in s.name and "Vertical" not in s.name and "Pole" not in s.name
    sts = [x for x in states(s) if x["orientation"] == s.params["orientation"]["values"][0]]
    for st in sts:
        parts = [[np.asarray(getattr(s.make(dict(st, orientation=e)), m)(P.copy(), **kw)) for m, kw, r in calls] for e in one]
        for d in dirs:
            d = np.array(d)
            d = d / np.linalg.norm(d)
            ref = [np.asarray(getattr(s.make(dict(st, orientation=d)), m)(P.copy(), **kw)) for m, kw, r in calls]
            t.state(s.name, "arrow", repr(st), d)
            if linear:
                u = d / np.linalg.norm(d)
                for i, (m, kw, r) in enumerate(calls):
                    want = sum(u[j] * parts[j][i] for j in range(len(one)))
                    sc = np.sqrt(sum(np.sum(np.abs(parts[j][i]) ** 2, axis=-1, keepdims=True) for j in range(len(one)))) if r == 1 else None
                    if not t.close("components %s.%s" % (s.name, m), ref[i], want, tol, scale=sc, direction=d, state=st):
                        return
            live = s.make(st)
            for L in LENGTHS:
                t.state(s.name, "length", repr(st), d, L)
                live.orientation = L * d
                for o in (s.make(dict(st, orientation=L * d)), live):
                    t.step()
                    for (m, kw, r), b in zip(calls, ref):
                        if not t.close("length %s.%s" % (s.name, m), np.asarray(getattr(o, m)(P.copy(), **kw)), b, max(1e-10, 0.1 * tol if tol > 1e-9 else 0), scale=scale_of(b, r), direction=d, length=L, state=st):
                            return
        for nm, e in NAMED.items():
            if plane and nm == "Z":
                continue
            for spell in (nm, nm.lower()):
                t.step()
                for i, (m, kw, r) in enumerate(calls):
                    t.close("named direction %s.%s" % (s.name, m), np.asarray(getattr(s.make(dict(st, orientation=spell)), m)(P.copy(), **kw)), parts["XYZ".index(nm)][i], 1e-12, scale=scale_of(parts["XYZ".index(nm)][i], r), name=spell)
    t.sample({"class": s.name, "directions": dirs, "lengths": LENGTHS})


def small(s, case, t):
    """Directions with one component up to 1e9 times smaller than another."""
    p = case["p"]
    seen = set()
    for st in states(s):
        rest = {k: v for k, v in st.items() if k != p}
        if repr(rest) in seen:
            continue
        seen.add(repr(rest))
        c = np.asarray(st.get("location", [0.0, 0, 0]), float)
        if "min_location" in st:
            c = 0.5 * (np.array(st["min_location"]) + st["max_location"])
        for reach in (1.0, 16.0):
            P = axis_points(c, s.domain, reach)

            def fields(v):
                o = s.make(dict(st, **{p: v}))
                return [np.asarray(x) for m, kw, r in plain(s) for x in (lambda z: z if isinstance(z, tuple) else (z,))(getattr(o, m)(P.copy(), **kw))]
            if not small_components(t, s.name, fields, p == "orientation", (0, 1) if "Plane" in s.name else (0, 1, 2), SMALL if t.thorough else SMALL[::2],
                                    noise=1e-10 if "Layered" in s.name else 4e-16, floor=1e-14 * reach if p == "primary_field" else 0.0, state=rest, reach=reach):
                return
    t.sample(case)


def electrodes(t):
    """A dipole of electrodes is the difference of two poles, for one and two receivers."""
    dip, pole = BY_NAME["static.DipoleHalfSpace"], BY_NAME["static.PointCurrentHalfSpace"]
    P = points(dip)
    E = [np.array(v) for v in ([0.25, -0.5, -0.875], [-2.0, 1.0, 0.0], [0.0, 0.0, -3.0], [1.75, 0.625, 0.0], [4.0, 1.0, -2.0])]
    for a, b in itertools.permutations(range(len(E)), 2):
        for rho, cur in itertools.product([10.0, 0.5], [1.0, -2.5]):
            t.state("electrodes", a, b, rho, cur)
            t.step()
            o = dip.cls(rho=rho, location_a=E[a], location_b=E[b], current=cur)
            pa, pb = (pole.cls(rho=rho, location=x, current=cur) for x in (E[a], E[b]))
            rev = dip.cls(rho=rho, location_a=E[b], location_b=E[a], current=cur)
            for m in ("potential", "electric_field", "current_density"):
                va, vb = getattr(pa, m)(P.copy()), getattr(pb, m)(P.copy())
                sc = np.maximum(np.abs(va), np.abs(vb)) if m == "potential" else scale_of(va, 1) + scale_of(vb, 1)
                t.close("electrodes %s" % m, getattr(o, m)(P.copy()), va - vb, 1e-10, scale=sc, a=E[a], b=E[b])
                t.close("electrodes swapped %s" % m, getattr(rev, m)(P.copy()), vb - va, 1e-10, scale=sc)
                Q = P[::-1].copy()
                t.close("receiver pair %s" % m, getattr(o, m)(P.copy(), Q), (va - vb) - (va - vb)[::-1], 1e-10, scale=sc + sc[::-1])
                if t.violations:
                    return
    t.sample({"electrode pairs": 20})


def wires(t):
    """A wire is the sum of its segments, under every splitting, closing and reversal."""
    s = BY_NAME["static.LineCurrentWholeSpace"]
    P = points(s)
    calls = plain(s)
    paths = [[[0., 0, 0], [2., 0, 0], [2., 1.5, -0.5], [-1, 2, 0.5]], [[-1., -1, 0], [1., -1, 0], [1., 1, 0], [-1., 1, 0], [-1., -1, 0]],
             [[0.5, 0.5, 0.5], [0.5, 0.5, -2.0], [3., 0.25, 1], [0.5, 3, 1], [2, 2, 2.]], [[0, 0, 0.], [3.5, 0, 0], [0, 4, 0], [0, 0, 4], [0, 0, 0]]]
    for nodes in paths:
        nodes = np.array(nodes)
        n = len(nodes)

        def ev(nd, cur=1.5):
            t.step()
            o = s.cls(nodes=nd, current=cur)
            return [np.asarray(getattr(o, m)(P.copy())) for m, kw, r in calls]

        segs = [ev(nodes[i:i + 2]) for i in range(n - 1)]
        size = [sum(scale_of(segs[j][i], r) if r else np.abs(segs[j][i]) for j in range(n - 1)) for i, (m, kw, r) in enumerate(calls)]

        def cmp(what, got, want, **d):
            for i, (m, kw, r) in enumerate(calls):
                t.close("%s %s" % (what, m), got[i], want[i], 1e-8, scale=size[i], **d)

        total = [sum(segs[j][i] for j in range(n - 1)) for i in range(len(calls))]
        for cuts in itertools.product([0, 1], repeat=n - 2):
            # cut the wire at any subset of its inner nodes
            idx = [0] + [i + 1 for i, c in enumerate(cuts) if c] + [n - 1]
            t.state("wire", nodes, cuts)
            parts = [ev(nodes[a:b + 1]) for a, b in zip(idx, idx[1:])]
            cmp("wire", [sum(p[i] for p in parts) for i in range(len(calls))], total, cuts=cuts)
        for extra in itertools.product([0, 1, 2], repeat=n - 1):
            # insert 0-2 further nodes on every segment
            nd = [nodes[0]]
            for i, e in enumerate(extra):
                nd += [nodes[i] + (nodes[i + 1] - nodes[i]) * f for f in ([], [0.5], [0.25, 0.75])[e]] + [nodes[i + 1]]
            t.state("wire split", nodes, extra)
            cmp("subdivided wire", ev(np.array(nd)), total, extra=extra)
        cmp("reversed wire", ev(nodes[::-1]), [-v for v in total])
        if np.array_equal(nodes[0], nodes[-1]):
            for k in range(1, n - 1):
                t.state("loop start", nodes, k)
                cmp("closed wire started elsewhere", ev(np.vstack([nodes[k:-1], nodes[:k + 1]])), total, k=k)
        for i in range(n):
            t.state("repeat", nodes, i)
            cmp("repeated node", ev(np.insert(nodes, i, nodes[i], axis=0)), total, node=i)
        if t.violations:
            return
    t.sample({"wires": len(paths)})


def boxes(t):
    """Prisms add up: every way to cut a box along the axes."""
    for name, par in (("static.MagneticPrism", "magnetization"), ("gravity.Prism", "rho")):
        s = BY_NAME[name]
        P = points(s)[[0, 1, 2, 3, 5, 7]] * np.array([1, 1, 1.0]) + np.array([0.0, 0.0, 3.5])
        calls = plain(s)
        vals = [[0.0, 0, 1], [1., 0, 0], [0, 1., 0], [1., -2, 0.5]] if par == "magnetization" else [1.0, -2.5]
        for lo, hi in (([-1.0, -1.5, -2.0], [1.0, 0.5, 2.0]), ([-0.5, -3.0, -1.0], [2.0, 1.5, -0.5])):
            lo, hi = np.array(lo), np.array(hi)
            for v in vals:
                def ev(a, b, v=v):
                    t.step()
                    o = s.cls(min_location=a, max_location=b, **{par: v})
                    return [np.asarray(getattr(o, m)(P.copy())) for m, kw, r in calls]
                whole = ev(lo, hi)
                for cuts in itertools.product([None, 0.25, 0.5, 0.875], repeat=3):
                    if cuts == (None,) * 3:
                        continue
                    t.state(name, lo, hi, repr(v), cuts)
                    edges = [[lo[i]] + ([] if c is None else [lo[i] + c * (hi[i] - lo[i])]) + [hi[i]] for i, c in enumerate(cuts)]
                    tot = None
                    for ix in itertools.product(*[range(len(e) - 1) for e in edges]):
                        w = ev(np.array([edges[i][k] for i, k in enumerate(ix)]), np.array([edges[i][k + 1] for i, k in enumerate(ix)]))
                        tot = w if tot is None else [x + y for x, y in zip(tot, w)]
                    for i, (m, kw, r) in enumerate(calls):
                        # a component of a field may vanish by symmetry where its parts do not
                        sc = np.max(np.abs(whole[i])) if r == 0 else scale_of(whole[i], r)
                        t.close("boxes %s.%s" % (name, m), tot[i], whole[i], 1e-8, scale=sc, cuts=cuts)
                    if t.violations:
                        return
            if par == "magnetization":
                parts = [[np.asarray(getattr(s.cls(min_location=lo, max_location=hi, magnetization=e), m)(P.copy())) for m, kw, r in calls] for e in np.eye(3)]
                for mag in itertools.product([-2.0, 0.0, 1.0, 0.5], repeat=3):
                    t.state(name, lo, mag)
                    t.step()
                    o = s.cls(min_location=lo, max_location=hi, magnetization=mag)
                    for i, (m, kw, r) in enumerate(calls):
                        sc = sum(np.max(np.abs(parts[j][i])) if r == 0 else scale_of(parts[j][i], r) for j in range(3))
                        t.close("magnetization %s" % m, np.asarray(getattr(o, m)(P.copy())), sum(mag[j] * parts[j][i] for j in range(3)), 1e-9, scale=sc, magnetization=mag)
    # primary fields of the spheres superpose
    for name in ("static.ElectrostaticSphere", "static.MagnetostaticSphere"):
        s = BY_NAME[name]
        P = points(s)
        calls = plain(s)
        for st in [x for x in states(s) if x["primary_field"] == s.params["primary_field"]["values"][0]]:
            parts = [[np.asarray(getattr(s.make(dict(st, primary_field=e)), m)(P.copy(), **kw)) for m, kw, r in calls] for e in np.eye(3)]
            for f in itertools.product([-2.0, 0.0, 1.5], repeat=3):
                t.state(name, repr(st), f)
                t.step()
                o = s.make(dict(st, primary_field=f))
                for i, (m, kw, r) in enumerate(calls):
                    sc = sum(np.max(np.abs(parts[j][k])) for j in range(3) for k in range(len(calls)) if calls[k][0] == m)
                    t.close("primary field %s.%s" % (name, m), np.asarray(getattr(o, m)(P.copy(), **kw)), sum(f[j] * parts[j][i] for j in range(3)), 1e-10, scale=np.max(sc), field=f, kw=kw)
    t.sample({"cuts per box": 63})


def functions(t):
    from geoana.em import fdem, tdem
    xy = points(BY_NAME["tdem.VerticalMagneticDipoleHalfSpace"])[:, :2]
    tm, fr = np.array([1e-4, 3e-3, 0.2]), np.array([1.0, 40.0, 9000.0])
    mats = [m[:2, :2] for m in signed_permutations() if m[2, 2] == 1.0] + [rot([0, 0, 1], a)[:2, :2] for a in (0.3, 2.0, -1.1)]
    for f in (tdem.magnetic_field_vertical_magnetic_dipole, tdem.magnetic_field_time_deriv_magnetic_dipole):
        for sig, mu in itertools.product([0.1, 3.0], [mu_0, 2 * mu_0]):
            base = f(tm, xy, sigma=sig, mu=mu, moment=1.0)
            for mat in mats:
                t.state(f.__name__, sig, mu, mat)
                t.step()
                m3 = np.eye(3)
                m3[:2, :2] = mat
                t.close("turn %s" % f.__name__, f(tm, xy @ mat.T, sigma=sig, mu=mu, moment=1.0), turned(base, 1, m3), 1e-4, scale=scale_of(base, 1))
            for k in FACTORS:
                t.step()
                t.close("moment %s" % f.__name__, f(tm, xy, sigma=sig, mu=mu, moment=k), k * base, 1e-10, scale=abs(k) * scale_of(base, 1), factor=k)
    for f, x, kws in ((tdem.vertical_magnetic_field_horizontal_loop, tm, ["current", "turns"]), (tdem.vertical_magnetic_flux_horizontal_loop, tm, ["current", "turns"]),
                      (tdem.vertical_magnetic_field_time_deriv_horizontal_loop, tm, ["current", "turns"]), (tdem.vertical_magnetic_flux_time_deriv_horizontal_loop, tm, ["current", "turns"]),
                      (fdem.vertical_magnetic_field_horizontal_loop, fr, ["current"]), (fdem.vertical_magnetic_flux_horizontal_loop, fr, ["current"])):
        import inspect
        have = inspect.signature(f).parameters
        for sig, a in itertools.product([0.1, 3.0], [1.0, 30.0]):
            kw = dict(sigma=sig, radius=a)
            base = f(x, **kw)
            for p in kws:
                if p not in have:
                    continue
                for k in (0.0, -1.0, 2.0, 3.0, 1e6):
                    t.state(f.__name__, sig, a, p, k)
                    t.step()
                    t.close("%s %s" % (p, f.__name__), f(x, **dict(kw, **{p: k})), k * base, 1e-8, scale=abs(k) * np.abs(base))
    t.sample({"functions": 8})
