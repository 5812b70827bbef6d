"""C03: spheres in a uniform field solve the interface problem."""
import itertools

import numpy as np
from scipy.constants import epsilon_0, mu_0

from ..core import ladder
from ..walk import walk

RAD = [1.0, 0.37, 40.0]
PAIRS = [(1.0, 1e-3), (1e-3, 1.0), (2.0, 2.0), (1e4, 1e-2), (1e-4, 5.0)]
PRIM = [[1., 0, 0], [0, -2., 0], [0, 0, 3.0], [1.5, -2.5, 0.5], [0., 0, 0]]
LOC = [[0., 0, 0], [5., -6., 7.5], [-100., 0.25, 33.]]
D = np.array([v for v in itertools.product([-1., 0., 1.], repeat=3) if any(v)] + [[1, 2, 3], [-3, 1, 2], [.1, -.9, .2]])
D = D / np.sqrt((D ** 2).sum(1))[:, None]
RR = [0.1, 0.5, 0.97, 1 - 1e-6, 1 + 1e-6, 1.01, 1.3, 2.0, 10., 1e3]


def bounds(tier):
    return {"radii": RAD, "property pairs": PAIRS, "primary fields": PRIM, "centres": LOC,
            "relative radii of points": RR, "ladders": "contrast, radius, primary field, distance, %d values per decade over 15 to 24 decades, and 1 +- 1e-1 ... 1e-13" % (12 if tier == "thorough" else 4), "directions": len(D)}


def cases(tier):
    return ([{"kind": k, "pair": list(p), "radius": r} for k in ("E", "M") for p in PAIRS for r in RAD]
            + [{"kind": k, "q": q, "part": i} for k in ("E", "M") for q in ("contrast", "radius", "primary", "distance") for i in range(4)])


def ref(x, loc, R, s1, s0, F):
    """Potential and field (total) from matching -F.r + b.r/r^3 to c F.r at r = R."""
    # two equations for (b, c) along F: continuity of potential and of s dV/dr
    #   -1 + b/R^3 = -c ;  s0 (-1 - 2 b/R^3) = -s1 c
    A = np.array([[1 / R ** 3, 1.0], [-2 * s0 / R ** 3, s1]])
    b, c = np.linalg.solve(A, np.array([1.0, s0]))
    y = x - loc
    r = np.sqrt((y * y).sum(-1))
    Fr = y @ F
    ins = r <= R
    V = np.where(ins, -c * Fr, -Fr + b * Fr / np.where(r == 0, 1, r) ** 3)
    rs = np.where(r == 0, 1, r)[:, None]
    E = np.where(ins[:, None], c * F, F - b * F / rs ** 3 + 3 * b * Fr[:, None] * y / rs ** 5)
    return V, E, ins, r, Fr


def run_case(case, t):
    from geoana.em import static
    el = case["kind"] == "E"
    cls = static.ElectrostaticSphere if el else static.MagnetostaticSphere
    n1, n0 = ("sigma_sphere", "sigma_background") if el else ("mu_sphere", "mu_background")
    fld = "electric_field" if el else "magnetic_field"
    flux = "current_density" if el else "magnetic_flux_density"

    def oracle(o, st, RR=RR):
        F = np.asarray(st["primary_field"], float)
        loc = np.asarray(st["location"], float)
        R, s1, s0 = st["radius"], st[n1], st[n0]
        x = np.concatenate([[loc]] + [loc + q * R * D for q in RR])
        V, E, ins, r, Fr = ref(x, loc, R, s1, s0, F)
        s = np.where(ins, s1, s0)
        nF = np.sqrt((F ** 2).sum())
        tol = 1e-11 + 1e-14 * np.abs(loc).max() / R * 10
        want = {"potential": (V, -Fr, V + Fr), fld: (E, np.broadcast_to(F, E.shape), E - F),
                flux: (s[:, None] * E, np.broadcast_to(s0 * F, E.shape), s[:, None] * E - s0 * F)}
        for name, w in want.items():
            f = getattr(o, name)
            t.step(5)
            if name == "potential":
                sc = nF * (r + R)
            elif name == fld:
                sc = np.full((len(x), 1), 3 * nF)
            else:
                sc = np.broadcast_to(3 * nF * np.maximum(s, s0)[:, None], (len(x), 1))
            # secondary values far away are differences: compare them against the primary's scale
            sc = sc + 1e-290
            got = {"total": f(x, field="total"), "primary": f(x, field="primary"), "secondary": f(x, field="secondary")}
            every = f(x)
            every2 = f(x, field="all")
            for i, sel in enumerate(("total", "primary", "secondary")):
                t.close("%s %s" % (name, sel), got[sel], w[i], tol=tol, scale=sc, **st)
                t.close("%s all[%s]" % (name, sel), every[i], got[sel], tol=1e-12, scale=sc)
                t.close("%s all[%s]" % (name, sel), every2[i], got[sel], tol=1e-12, scale=sc)
            t.check(len(every) == 3, "three parts")
            for i in (0, 1, len(x) // 5, len(x) // 2):
                t.step()
                t.close("%s one point" % name, f(x[i], field="total"), w[0][i], tol=tol, scale=sc[i], **st)
        # interface conditions straight from the returned values, 1e-9 either side of the surface
        a, b = loc + R * (1 - 1e-9) * D, loc + R * (1 + 1e-9) * D
        fa, fb = getattr(o, flux)(a, field="total"), getattr(o, flux)(b, field="total")
        t.close("normal flux continuous", np.sum(fa * D, -1), np.sum(fb * D, -1), tol=1e-7 + tol, scale=3 * nF * max(s1, s0) + 1e-290, **st)
        va, vb = o.potential(a, field="total"), o.potential(b, field="total")
        t.close("potential continuous", va, vb, tol=1e-7 + tol, scale=3 * nF * R + 1e-290, **st)
        if not np.any(loc):
            # exactly on the surface: the values of one side, the same side for field and flux
            ax = R * np.concatenate([np.eye(3), -np.eye(3)])
            t.step(3)
            e, j, v = getattr(o, fld)(ax, field="total"), getattr(o, flux)(ax, field="total"), o.potential(ax, field="total")
            ein, eout = ref(ax * (1 - 1e-12), loc, R, s1, s0, F)[1], ref(ax * (1 + 1e-12), loc, R, s1, s0, F)[1]
            t.close("potential on the surface", v, ref(ax, loc, R, s1, s0, F)[0], tol=1e-9, scale=3 * nF * R + 1e-290, **st)
            for i in range(6):
                t.validated += 1
                ok = [np.all(np.abs(e[i] - w) <= 1e-9 * 3 * nF) and np.all(np.abs(j[i] - c * w) <= 1e-9 * 3 * nF * max(c, s0 if c == s1 else 0)) for w, c in ((ein[i], s1), (eout[i], s0))]
                if not any(ok):
                    t.fail("field and flux on the surface", at=ax[i], field=e[i], flux=j[i], inside=ein[i], outside=eout[i], **st)
        if el:
            ea, eb = o.electric_field(a, field="total"), o.electric_field(b, field="total")
            jump = epsilon_0 * np.sum((eb - ea) * D, -1)
            for dr in (None, 0.05 * R, 0.4 * R, 1e-3 * R, 0.0, 0, 1.9 * R, 3.0 * R):
                w = 0.05 * R if dr is None else dr
                for q in (1.0, 1 + 0.49 * w / R, 1 - 0.49 * w / R, 1 + 0.51 * w / R, 1 - 0.51 * w / R, 3.0, 0.1, 1.02, 0.98, 1 + 1e-4, 1 - 1e-4):
                    inside = 2 * abs(q - 1) * R < w
                    if q <= 0 or abs(2 * abs(q - 1) * R - w) < 0.01 * (w or 1e-6 * R):
                        continue
                    t.step()
                    g = o.charge_density(loc + q * R * D) if dr is None else o.charge_density(loc + q * R * D, dr=dr)
                    t.close("charge density", g, jump if inside else 0 * jump, tol=1e-6,
                            scale=epsilon_0 * 3 * nF + 1e-290, dr=dr, q=q, **st)
        t.outcome(np.round(E[:2], 9))

    k = 1.0 if el else mu_0
    if "q" in case:
        # one quantity through all orders of magnitude
        m = 12 if t.thorough else 4
        base = {"radius": 2.0, n1: 5 * k, n0: 2 * k, "location": [0.5, -1.0, 0.25], "primary_field": [1.5, -2.5, 0.5]}
        near = [1 + z * 10.0 ** -j for j in range(1, 14) for z in (1, -1)]
        if case["q"] == "contrast":
            rungs = [(dict(base, **{n1: 2 * k * v}), [0.5, 0.99, 1.01, 3.0]) for v in ladder(1e-12, 1e12, m) + near]
            rungs += [(dict(base, **{n1: 7 * v, n0: v}), [0.5, 0.99, 1.01, 3.0]) for v in ladder(1e-12, 1e12, m)]
        elif case["q"] == "radius":
            rungs = [(dict(base, radius=v, location=[0.0, 0.0, 0.0]), [0.5, 0.99, 1.01, 3.0]) for v in ladder(1e-9, 1e9, m)]
        elif case["q"] == "primary":
            rungs = [(dict(base, primary_field=(z * v * np.array([1.5, -2.5, 0.5])).tolist()), [0.5, 0.99, 1.01, 3.0]) for v in ladder(1e-12, 1e12, m) for z in (1, -1)]
            rungs += [(dict(base, primary_field=np.roll([1.0, z * 10.0 ** -j, 0.0], r).tolist()), [0.5, 1.01, 3.0]) for j in range(1, 14, 2) for z in (1, -1) for r in range(3)]
        else:
            rungs = [(dict(base, location=[0.0, 0.0, 0.0]), [q, 1 + 10.0 ** -(j % 13)]) for j, q in enumerate(ladder(1e-9, 1e6, m))] + [(dict(base, location=[0.0, 0.0, 0.0]), [q]) for q in near]
        live = None
        for st, rr in rungs[case["part"]::4]:
            t.state("ladder", case["kind"], repr(st), rr)
            if live is None:
                live = cls(**st)
            else:
                for q in st:
                    setattr(live, q, st[q])
            oracle(cls(**st), st, rr)
            oracle(live, st, rr)
            if t.violations:
                return
        return
    (s1, s0), R = case["pair"], case["radius"]
    dom = {"radius": [R, RAD[0]], n1: [s1 * k, 0.5 * k], n0: [s0 * k, 3.0 * k], "location": LOC, "primary_field": PRIM}
    walk(t, case["kind"], cls, dom, oracle, fresh=False)
    # constructed objects, and constructor defaults
    for F in PRIM:
        for l in LOC:
            oracle(cls(R, s1 * k, s0 * k, np.array(F), np.array(l)),
                   {"radius": R, n1: s1 * k, n0: s0 * k, "location": l, "primary_field": F})
    oracle(cls(R, s1 * k, s0 * k), {"radius": R, n1: s1 * k, n0: s0 * k, "location": [0., 0, 0], "primary_field": [1., 0, 0]})
