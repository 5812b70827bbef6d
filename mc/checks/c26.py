"""C26: fault displacement is the surface deformation of a rectangular dislocation."""
import itertools

import numpy as np

from .. import ref_fault
from ..core import ladder
from ..walk import walk

TECHNIQUE = ("exhaustive walk of the real fault object through a lattice of strikes x dips x rakes x depths x lengths x moduli x grids by its setters, every state compared with an independent "
             "reciprocity integral (surface point loads integrated over the fault)")
STRIKE = [0.0, 30.0, 90.0, 135.0, 180.0, 200.0, 270.0, 329.6, 360.0]
DIP = [5.0, 30.0, 60.0, 89.0, 90.0]
RAKE = [-180.0, -120.0, -90.0, -45.0, 0.0, 30.0, 90.0, 135.0, 180.0]
DEPTH = [(800.0, 4000.0), (0.0, 3000.0), (2500.0, 2600.0)]
LENGTH = [3000.0, 250.0]
MODULI = [(3e10, 3e10), (9e10, 1e10), (0.0, 2e10), (2e10, 5e10)]
GRIDS = [dict(O=[-5200.0, -4100.0], U=[11000.0, 500.0], V=[-700.0, 9000.0], shape=(3, 4)), dict(O=[6100.0, 1300.0], U=[-9000.0, 4000.0], V=[2500.0, -7900.0], shape=(2, 5))]
MANY = [(70, 1), (1, 70), (33, 65), (100, 100), (1, 300), (300, 1), (150, 120), (2, 5003), (5003, 2), (257, 256)]
VERY = [(700, 800), (1, 100003), (100003, 1)]
CENTER = [[311.0, -203.0], [-1234.0, 876.0]]


def bounds(tier):
    return {"strike": STRIKE, "dip": DIP + ([15.0, 45.0, 75.0] if tier == "thorough" else []), "rake": RAKE, "depths": DEPTH, "length": LENGTH, "moduli (lambda, mu)": MODULI, "grids": GRIDS, "large grids": MANY + (VERY if tier == "thorough" else []), "centres": CENTER,
            "ladders": "every parameter through its range from %d states; points at 1e-7 m (surface-breaking: 1 mm) to 1e7 m from the trace; grids 1e3 to 1e8 m wide" % len(STATES), "horizontal faults (dip 0)": "excluded: their width follows from the depths only for a dipping fault"}


def cases(tier):
    dips = DIP + ([15.0, 45.0, 75.0] if tier == "thorough" else [])
    out = [{"k": "value", "dip": d, "depth": z, "strike": s} for d in dips for z in range(len(DEPTH)) for s in STRIKE]
    out += [{"k": k, "dip": d} for d in dips for k in ("linear", "patches", "single", "motion", "aligned")]
    out += [{"k": "through", "which": w, "i": i} for w in LADDERS for i in range(len(STATES))]
    out += [{"k": "near", "i": i, "angle": a} for i in range(len(STATES)) for a in range(12)]
    out += [{"k": "many", "shape": list(m)} for m in MANY + (VERY if tier == "thorough" else [])]
    return out + [{"k": "grid"}, {"k": "driven"}, {"k": "wide"}]


# parameter ladders: every value with the other parameters of each of STATES
STATES = [dict(), dict(strike=329.6, dip=50.0, rake=90.0, depth_top=0.0, length=11578.9), dict(dip=90.0, rake=0.0, strike=200.0), dict(dip=20.0, rake=-120.0, beta=6e10, depth_top=2500.0, length=400.0)]
LADDERS = ["strike", "dip", "rake", "slip", "length", "depth", "width", "ratio", "moduli", "scale"]


def rungs(which, st, thorough):
    n = 12 if thorough else 4
    if which == "strike":
        return [dict(strike=v) for v in np.linspace(0.0, 360.0, 361 if thorough else 73).tolist()]
    if which == "dip":
        return [dict(dip=v) for v in sorted(set(np.linspace(0.5, 90.0, 360 if thorough else 90).tolist() + [89.5, 89.9, 89.97, 0.3]))]
    if which == "rake":
        return [dict(rake=v) for v in np.linspace(-180.0, 180.0, 361 if thorough else 73).tolist()]
    if which == "slip":
        return [dict(slip=v) for v in ladder(1e-9, 1e9, n)]
    if which == "length":
        return [dict(length=v) for v in ladder(1e-2, 1e8, n)]
    if which == "depth":
        return [dict(depth_top=v, depth_bottom=v + 2500.0) for v in ladder(1e-3, 1e6, n)]
    if which == "width":
        return [dict(depth_bottom=st["depth_top"] + v) for v in ladder(1e-2, 1e7, n)]
    if which == "ratio":
        return [dict(beta=v * 3e10, mu=3e10) for v in ladder(1e-4, 1e4, n)]
    if which == "moduli":
        return [dict(beta=2.0 * v, mu=v) for v in ladder(1e-3, 1e15, n)]
    return [dict(scaled=v) for v in ladder(1e-2, 1e4, n)]


def size(u):
    return np.max(np.abs(u)) + 0 * u


def make(**st):
    from geoana.earthquake.oksar import Oksar
    return Oksar(**st)


def base(dip, **kw):
    st = dict(GRIDS[0], center=CENTER[0], depth_top=800.0, depth_bottom=4000.0, strike=30.0, dip=dip, rake=30.0, slip=0.7, length=3000.0, beta=2e10, mu=5e10)
    st.update(kw)
    return st


def points(st):
    """The documented grid: origin plus fractions of the two sides, the first running fastest."""
    n, m = (int(v) for v in st["shape"])
    O, U, V = (np.array(st[k], float) for k in "OUV")
    fa = [i / (n - 1) if n > 1 else 0.0 for i in range(n)]
    fb = [j / (m - 1) if m > 1 else 0.0 for j in range(m)]
    return np.array([O + a * U + b * V for b in fb for a in fa]).reshape(-1, 2)


_memo = {}


def reference(st, n=12, ratio=1.0):
    key = repr([(k, st[k]) for k in ("O", "U", "V", "shape", "center", "depth_top", "depth_bottom", "strike", "dip", "length", "beta", "mu")])
    if key not in _memo:
        if len(_memo) > 500:
            _memo.clear()
        _memo[key] = ref_fault.unit_slips(points(st), st["center"], st["depth_top"], st["depth_bottom"], st["strike"], st["dip"], st["length"], st["beta"], st["mu"], n=n, ratio=ratio)
    u = _memo[key]
    r = np.deg2rad(st["rake"])
    return st["slip"] * (np.cos(r) * u[0] + np.sin(r) * u[1]), st["slip"] * np.max(np.abs(u))


def compare(t, what, o, st, tol=1e-6):
    want, sc = reference(st)
    return t.close(what, o.displacement_vector, want, tol, scale=max(sc, 1e-3 * st["slip"]) + 0 * want, state=st)


def run_case(case, t):
    k = case["k"]
    if k == "value":
        top, bot = DEPTH[case["depth"]]

        def oracle(o, st):
            full = dict(st, beta=st["mod"][0], mu=st["mod"][1])
            return compare(t, "displacement", o, full)

        for (length, mod, g) in itertools.product(LENGTH, MODULI, range(len(GRIDS) if t.thorough else 1)):
            g = GRIDS[(g + int(case["strike"])) % 2]
            o = None
            for c in CENTER if t.thorough else CENTER[:1]:
                st = dict(g, center=c, depth_top=top, depth_bottom=bot, strike=case["strike"], dip=case["dip"], rake=RAKE[0], slip=0.7, length=length, beta=mod[0], mu=mod[1])
                for r in RAKE:
                    st = dict(st, rake=r)
                    t.state(repr(st))
                    t.step(2)
                    if o is None:
                        o = make(**st)
                    else:
                        o.center = c
                        o.rake = r
                    if not (compare(t, "displacement", o, st) and compare(t, "displacement", make(**st), st)):
                        return
        t.sample(st)
        return
    return globals()["k_" + k](case, t)


OFFS = np.array([[371.0, 222.0], [-840.0, 1930.0], [2910.0, -1780.0], [-5105.0, -2040.0], [40.0, 9300.0], [31000.0, 12500.0]])


def at_points(st, P):
    """Displacement at scattered points by one object, the grid moved from one to the next."""
    o = make(**dict(st, O=P[0], shape=(1, 1)))
    out = []
    for p in P:
        o.O = p
        out.append(o.displacement_vector[0])
    return np.array(out)


def judge(t, what, got, st, P, shift=0.0, **d):
    """Relative to the displacement, allowing for the differences of terms of the size of the slip which the closed form takes."""
    u = ref_fault.unit_slips(P, st["center"], st["depth_top"], st["depth_bottom"], st["strike"], st["dip"], st["length"], st["beta"], st["mu"])
    r = np.deg2rad(st["rake"])
    want = st["slip"] * (np.cos(r) * u[0] + np.sin(r) * u[1])
    c = np.cos(np.deg2rad(st["dip"]))
    cc = 1.0 if c < 1e-6 else c * c
    sc = np.max(np.abs(u), axis=(0, 2))[:, None] * st["slip"]
    span = max(np.max(np.abs(P - np.array(st["center"]))), st["length"], st["depth_bottom"] / np.sin(np.deg2rad(st["dip"])))
    off = 1e-12 * st["slip"] * (1 + np.log(1 + span)) * (1 + 1 / cc)
    if shift:                       # points may be moved by so much (to the plane of the fault)
        off += 2 * shift * st["slip"] / st["depth_top"]
    return t.close(what, got, want, 3e-6, scale=sc + 0 * want, atol=off, **d)


def k_through(case, t):
    """A single parameter through all its range, the fault otherwise as in one of the states."""
    st0 = base(**dict(dict(dip=60.0), **STATES[case["i"]]))
    for ch in rungs(case["which"], st0, t.thorough):
        f = ch.pop("scaled", 1.0) if "scaled" in ch else 1.0
        st = dict(st0, **ch)
        P = np.array(st["center"]) + OFFS
        if f != 1.0:
            st.update(depth_top=st["depth_top"] * f, depth_bottom=st["depth_bottom"] * f, length=st["length"] * f, center=[v * f for v in st["center"]])
            P = P * f
        t.state("through", case["which"], case["i"], repr(ch), f)
        t.step(len(P))
        if not judge(t, "displacement along a ladder", at_points(st, P), st, P, changed=ch, scale_factor=f, state=case["i"]):
            return
    t.sample(st)


def k_near(case, t):
    """Points at every distance from the ends and the middle of the trace."""
    st = base(**dict(dict(dip=60.0), **STATES[case["i"]]))
    a = np.deg2rad(7.3 + 30.0 * case["angle"])
    al = np.array([np.sin(np.deg2rad(st["strike"])), np.cos(np.deg2rad(st["strike"]))])
    for at in (0.0, 0.5, 0.31):
        c = np.array(st["center"]) + at * st["length"] * al
        d = ladder(1e-3 if st["depth_top"] == 0.0 else 1e-7, 1e7, 12 if t.thorough else 4)
        P = c + np.array(d)[:, None] * np.array([np.cos(a), np.sin(a)])
        t.state("near", case["i"], case["angle"], at)
        t.step(len(P))
        if not judge(t, "displacement at every distance", at_points(st, P), st, P, shift=1e-6 if st["depth_top"] else 0.0, state=case["i"], angle=case["angle"], start=at):
            return
    t.sample(st)


def k_wide(case, t):
    """Near points are unaffected by far ones of the same grid, at every width of the grid and distance from the trace."""
    for i, kw in enumerate(STATES):
        st = base(**dict(dict(dip=60.0), **kw))
        al = np.array([np.sin(np.deg2rad(st["strike"])), np.cos(np.deg2rad(st["strike"]))])
        ri = np.array([al[1], -al[0]])
        for d in ladder(1e-2, 1e3, 12 if t.thorough else 3):
            p = np.array(st["center"]) + 0.2 * st["length"] * al + d * ri
            one = make(**dict(st, O=p, shape=(1, 1))).displacement_vector[0]
            for w in ladder(1e3, 1e8, 3 if t.thorough else 2):
                t.state("wide", i, d, w)
                t.step()
                try:
                    got = make(**dict(st, O=p, U=[w, 0.3 * w], V=[-0.1 * w, w], shape=(2, 3))).displacement_vector[0]
                except Exception as e:
                    t.fail("displacement next to the trace in a wide grid", distance=d, width=w, state=i, error=repr(e))
                    return
                t.close("near point of a wide grid", got, one, 1e-6, scale=np.max(np.abs(one)) + 1e-3 * st["slip"], vec=False, distance=d, width=w, state=i)
    t.sample(st)


def k_driven(case, t):
    """One object driven through every combination by its setters."""
    dom = dict(strike=[30.0, 200.0, 0.0], dip=[60.0, 90.0, 20.0], rake=[90.0, 0.0, -135.0], slip=[0.7, 2.0, 0.0], length=[3000.0, 900.0], depth_bottom=[4000.0, 2000.0], beta=[3e10, 1e10], mu=[3e10, 6e10])
    if not t.thorough:
        dom["beta"] = dom["beta"][:1]

    def oracle(o, st):
        return compare(t, "driven displacement", o, st)

    def mk(**kw):
        return make(**dict(base(60.0), **kw))

    full = dict(GRIDS[0], center=CENTER[0], depth_top=800.0)

    walk(t, "driven", mk, dom, lambda o, st: compare(t, "driven displacement", o, dict(full, **st)))


def k_linear(case, t):
    for st in (base(case["dip"], strike=s, rake=r, depth_top=z) for s in (0.0, 200.0) for r in (0.0, 90.0, -45.0) for z in (0.0, 800.0)):
        u = make(**st).displacement_vector
        for f in (0.0, 1.0, 2.0, 1.0 / 3.0, 1e-6, 1e4):
            t.state("linear", repr(st), f)
            t.step()
            t.close("linear in slip", make(**dict(st, slip=f * st["slip"])).displacement_vector, f * u, 1e-7, scale=f * np.max(np.abs(u)) + 0 * u, factor=f)
        # rake mixes the two slip directions
        a, b = (make(**dict(st, rake=r)).displacement_vector for r in (0.0, 90.0))
        for r in RAKE:
            t.state("rake", repr(st), r)
            t.step()
            c, s = np.cos(np.deg2rad(r)), np.sin(np.deg2rad(r))
            t.close("rake", make(**dict(st, rake=r)).displacement_vector, c * a + s * b, 1e-7, scale=np.max(np.abs(a)) + np.max(np.abs(b)) + 0 * a, rake=r)
        # only the ratio of the moduli matters
        for f in (1e-3, 7.0):
            t.step()
            t.close("moduli ratio", make(**dict(st, beta=f * st["beta"], mu=f * st["mu"])).displacement_vector, u, 1e-8, scale=np.max(np.abs(u)) + 0 * u)
        z = make(**dict(st, length=0.0)).displacement_vector
        t.close("no length", z, 0 * u, 1e-7, scale=np.max(np.abs(u)) + 0 * u)
        z = make(**dict(st, depth_bottom=st["depth_top"])).displacement_vector
        t.close("no width", z, 0 * u, 1e-7, scale=np.max(np.abs(u)) + 0 * u)
    t.sample(st)


def k_patches(case, t):
    for s, r, z in itertools.product((0.0, 77.0, 200.0), (0.0, 90.0, -45.0), (0.0, 800.0)):
        st = base(case["dip"], strike=s, rake=r, depth_top=z)
        u = make(**st).displacement_vector
        sc = np.max(np.abs(u)) + 0 * u
        al = np.array([np.sin(np.deg2rad(s)), np.cos(np.deg2rad(s))])
        L = st["length"]
        for cuts in ([0.5], [0.1], [0.2, 0.9], [0.25, 0.5, 0.75]):
            e = [0.0] + cuts + [1.0]
            tot = 0
            for a, b in zip(e, e[1:]):
                c = np.array(st["center"]) + al * L * ((a + b) / 2 - 0.5)
                tot = tot + make(**dict(st, center=c, length=L * (b - a))).displacement_vector
                t.step()
            t.state("along", repr(st), cuts)
            t.close("patches along strike", tot, u, 1e-7, scale=sc, cuts=cuts)
            d = st["depth_bottom"] - st["depth_top"]
            tot = sum(make(**dict(st, depth_top=st["depth_top"] + a * d, depth_bottom=st["depth_top"] + b * d)).displacement_vector for a, b in zip(e, e[1:]))
            t.step(len(e) - 1)
            t.state("down", repr(st), cuts)
            t.close("patches down dip", tot, u, 1e-7, scale=sc, cuts=cuts)
    t.sample(st)


def k_single(case, t):
    """Each point of a grid as if it were alone, and in grids of every small shape."""
    for s, r, z in itertools.product((0.0, 77.0), (0.0, 40.0), (0.0, 800.0)):
        st = base(case["dip"], strike=s, rake=r, depth_top=z)
        u = make(**st).displacement_vector
        sc = np.max(np.abs(u))
        P = points(st)
        for p, w in zip(P, u):
            t.state("single", repr(st), p)
            t.step()
            t.close("single point", make(**dict(st, O=p, shape=(1, 1))).displacement_vector, w[None, :], 1e-8, scale=sc)
        for shape in itertools.product((1, 2, 3, 4, 5), repeat=2):
            q = dict(st, shape=shape)
            t.state("shape", repr(q))
            t.step()
            o = make(**q)
            v = o.displacement_vector
            X = points(q)
            if not t.check(v.shape == (len(X), 3), "shape of the displacement", got=v.shape, want=(len(X), 3), shape=shape):
                return
            t.close("grid points", o.simulation_grid, X, 1e-12, scale=1e4)
            one = np.array([make(**dict(st, O=x, shape=(1, 1))).displacement_vector[0] for x in X])
            t.close("points of a grid", v, one, 1e-8, scale=sc, shape=shape)
    t.sample(st)


def k_many(case, t):
    """Large grids: points of every row and column, as if each were alone."""
    n, m = case["shape"]
    for i, kw in enumerate(STATES[:2] if n * m < 20000 else STATES[:1]):
        st = base(**dict(dict(dip=60.0), **kw), shape=(n, m))
        X = points(st)
        o = make(**st)
        t.close("large grid", o.simulation_grid, X, 1e-12, scale=1e4)
        u = o.displacement_vector
        if not t.check(u.shape == (n * m, 3), "shape of the displacement", got=u.shape):
            return
        t.check(bool(np.all(np.isfinite(u))), "finite displacement on a large grid")
        step = max(1, n * m // (4000 if t.thorough else 700))
        ks = sorted(set(range(0, n * m, step)) | set(range(min(n * m, 40))) | set(range(max(0, n * m - 40), n * m)))
        one = at_points(st, X[ks])
        t.step(len(ks))
        t.state("many", n, m, i)
        t.close("points of a large grid", u[ks], one, 1e-8, scale=np.max(np.abs(one)) + 0 * one, shape=(n, m), state=i)
    t.sample(case)


def k_motion(case, t):
    for s, r, z in itertools.product((30.0, 200.0), (0.0, 90.0, -45.0), (0.0, 800.0)):
        st = base(case["dip"], strike=s, rake=r, depth_top=z)
        u = make(**st).displacement_vector
        sc = np.max(np.abs(u)) + 0 * u
        for a in (0.0, 10.0, 90.0, 45.0, 100.0, -30.0):
            c, d = np.cos(np.deg2rad(a)), np.sin(np.deg2rad(a))
            R = np.array([[c, d], [-d, c]])          # clockwise, like strike
            for sh in ([0.0, 0.0], [1024.0, -4096.0], [700000.0, 4200000.0]):
                t.state("motion", repr(st), a, sh)
                t.step()
                m = dict(st, strike=s + a, O=R @ np.array(st["O"]) + sh, center=R @ np.array(st["center"]) + sh, U=R @ np.array(st["U"]), V=R @ np.array(st["V"]))
                w = u.copy()
                w[:, :2] = u[:, :2] @ R.T
                t.close("turned and moved", make(**m).displacement_vector, w, 1e-6, scale=sc, angle=a, shift=sh)
    t.sample(st)


def k_aligned(case, t):
    """Points straight above fault edges, on the lines through them, over the fault plane."""
    dip = case["dip"]
    L, top, bot = 2000.0, 1000.0, 3000.0
    cot = np.cos(np.deg2rad(dip)) / np.sin(np.deg2rad(dip))
    for s in (0.0, 90.0, 180.0, 270.0):
        al = np.round([np.sin(np.deg2rad(s)), np.cos(np.deg2rad(s))])
        ri = np.array([al[1], -al[0]])
        for a, b in itertools.product((-1000.0, 1000.0, 0.0, 2500.0), (0.0, top * cot, bot * cot, top * cot * 2 + 500.0, -1500.0)):
            p = a * al + b * ri
            st = base(dip, O=p, shape=(1, 1), center=[0.0, 0.0], strike=s, depth_top=top, depth_bottom=bot, length=L)
            for r in (0.0, 90.0, 45.0):
                st = dict(st, rake=r)
                t.state("aligned", repr(st))
                t.step()
                want, sc = reference(st)
                if not t.close("aligned point", make(**st).displacement_vector, want, 2e-5, scale=max(sc, 1e-3 * st["slip"]) + 0 * want, along=a, across=b, strike=s, rake=r):
                    return
        # a surface-breaking fault: on the continuation of its trace, and abreast of its ends
        for a, b in [(x, 0.0) for x in (-2500.0, -1000.5, 1001.0, 1500.0, 7000.0)] + [(x, y) for x in (-1000.0, 1000.0) for y in (-700.0, 900.0)]:
            st = base(dip, O=a * al + b * ri, shape=(1, 1), center=[0.0, 0.0], strike=s, depth_top=0.0, depth_bottom=bot, length=L)
            for r in (0.0, 90.0, -45.0):
                st = dict(st, rake=r)
                t.state("aligned", repr(st))
                t.step()
                want, sc = reference(st, n=24)
                if not t.close("point in line with a surface-breaking fault", make(**st).displacement_vector, want, 2e-4, scale=max(sc, 1e-3 * st["slip"]) + 0 * want, along=a, across=b, strike=s, rake=r):
                    return
    t.sample(st)


def k_grid(case, t):
    for O, U, V in itertools.product([[0.0, 0.0], [-3.0, 12.5], [706216.0, 4187318.0]], [[1.0, 0.0], [0.0, 2.0], [81920.0, 0.0], [-3.0, 4.5]], [[0.0, 1.0], [5.0, 0.0], [0.0, -81920.0], [2.0, 7.0]]):
        for shape in itertools.product((1, 2, 3, 7), repeat=2):
            st = base(60.0, O=O, U=U, V=V, shape=shape)
            t.state("grid", repr((O, U, V, shape)))
            t.step()
            g = make(**st).simulation_grid
            t.close("simulation grid", g, points(st), 1e-12, scale=1.0 + np.abs(points(st)), vec=False, state=st)
    t.sample({"grids": 768})
