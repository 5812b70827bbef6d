"""C07: harmonic whole-space dipoles satisfy Maxwell's equations."""
import itertools

import numpy as np
from scipy.constants import epsilon_0, mu_0

from .. import ref
from ..core import ladder
from ..walk import walk

SIG = [1.0, 1e-4, 250.0]
MU = [mu_0, 6 * mu_0]
EPS = [epsilon_0, 80 * epsilon_0, 0.0]
FREQ = [100.0, [1e6], [1e-6, 3e3], [0.1, 20.0, 4e9], 0.0]
LOC = [[0., 0, 0], [5., -6., 7.5]]
ORI = ["X", "y", "Z", [1., 2., -3.], [0., 0., -4.0], [-1e-3, 0, 0]]
STR = [1.0, -2.5, 0.0]
LEN = [1.0, 0.2]
D = np.array([v for v in itertools.product([-1., 0., 1.], repeat=3) if any(v)] + [[1, 2, 3], [-3, 1, 2], [.1, -.9, .2]])
D = D / np.sqrt((D ** 2).sum(1))[:, None]
DIST = [1e-2, 1.0, 37.0, 2e3]


#: one parameter at a time over many decades, everything else fixed (distances follow the wavelength)
LADDERS = {
    "distance": ladder(1e-7, 300, 8), "sigma": ladder(1e-10, 1e8, 4), "frequency": ladder(1e-6, 1e12, 4),
    "mu": [mu_0 * (1 + d) for d in ladder(1e-9, 1e4, 4)] + [mu_0 * (1 - d) for d in ladder(1e-9, 0.9, 4)],
    "epsilon": [epsilon_0 * d for d in ladder(1e-3, 1e6, 4)] + [0.0], "strength": ladder(1e-12, 1e12, 2) + [-v for v in ladder(1e-12, 1e12, 2)] + [0.0],
    "length": ladder(1e-9, 1e6, 3), "location": [[a, -b, 0.1 * a] for a, b in zip(ladder(1e-6, 1e7, 4), ladder(1e-2, 1e5, 4))],
    "orientation": [[a, 1., 0.] for a in ladder(1e-12, 1, 3)] + [[0., a, -1.] for a in ladder(1e-12, 1, 3)] + [[-1., 0., -a] for a in ladder(1e-12, 1, 3)]
    + [[a, -2 * a, 3 * a] for a in ladder(1e-12, 1e12, 2)]}


def bounds(tier):
    return {"ladders": {k: "%d values" % len(v) for k, v in LADDERS.items()}, "sigma": SIG, "mu": MU, "epsilon": EPS, "frequency": FREQ, "locations": LOC, "orientations": ORI,
            "strengths": STR, "distances": DIST, "directions": len(D)}


def cases(tier):
    return [{"kind": k, "sigma": s, "mu": m, "eps": e, "freq": i} for k in "EM" for s in SIG for m in MU for e in EPS for i in range(len(FREQ))] + \
        [{"kind": k, "ladder": a, "medium": m} for k in "EM" for a in LADDERS for m in range(3)]


def green(R, n, k):
    """g n, curl(g n), (grad div + k^2)(g n) for g = exp(-ikr)/(4 pi r)."""
    r = ref.norm(R)
    h = R / r
    g = np.exp(-1j * k * r) / (4 * np.pi * r)
    g1 = (-1j * k - 1 / r) * g
    g2 = (1j * k + 1 / r) ** 2 * g + g / r ** 2
    nr = (h @ n)[..., None]
    curl = g1 * np.cross(h, n)
    gd = g2 * nr * h + g1 / r * (n - nr * h) + k ** 2 * g * n
    # magnitudes of the parts, for the tolerance (and the rounding of the phase k r)
    s = np.abs(g) * (np.abs(k) ** 2 + 1 / r ** 2)
    ph = 1e-15 * np.abs(k * r)
    return g * n, curl, gd, np.abs(g), np.abs(g) * (np.abs(k) + 1 / r), s, ph


def run_case(case, t):
    from geoana.em import fdem
    el = case["kind"] == "E"
    cls = fdem.ElectricDipoleWholeSpace if el else fdem.MagneticDipoleWholeSpace
    dist = list(DIST)

    def oracle(o, st):
        loc = np.asarray(st["location"], float)
        n = ref.unit(st["orientation"])
        sig, mu, eps, qs = st["sigma"], st["mu"], st["epsilon"], st["quasistatic"]
        s = st["current"] * st["length"] if el else st["moment"]
        x = np.concatenate([loc + d * D for d in dist])
        f = np.asarray(st["frequency"], float)
        w = 2 * np.pi * f
        sh = sig + (0 if qs else 1j * w * eps)
        k = np.sqrt(-1j * w * mu * sh + 0j)  # k^2 = w^2 mu eps - i w mu sigma, decaying branch
        k = np.where(k.imag > 0, -k, k)
        if f.ndim:
            k, w, sh = k[:, None, None], w[:, None, None], np.asarray(sh * np.ones(f.shape))[:, None, None]
        a, curl, gd, sa, sc, sg, ph = green(x - loc, n, k)
        tol = 1e-11 + 1e-14 * np.abs(loc).max() / min(dist) + 10 * ph
        sa, sc, sg = (q * np.abs(s) * tol + 1e-290 for q in (sa, sc, sg))
        t.step(5)
        A, E, J, H, B = (getattr(o, m)(x) for m in ("vector_potential", "electric_field", "current_density", "magnetic_field", "magnetic_flux_density"))
        if el:
            t.close("vector potential", A, s * a, tol=1, scale=sa, **st)
            t.close("magnetic field", H, s * curl, tol=1, scale=sc, **st)
            want = s * gd / sh
            lim = sg / np.abs(sh)
            if qs or eps == 0 or np.all(np.abs(E - want) <= lim):
                t.close("electric field", E, want, tol=1, scale=lim, **st)
            else:
                want = want * sh / sig
                if t.close("electric field", E, want, tol=1, scale=sg / sig, **st):
                    t.known_finding("edipole-displacement-current", **st)
            t.close("current density", J, sig * E, tol=1e-12, scale=sig * np.abs(E) + 1e-290)
        else:
            t.close("vector potential", A, 1j * w * mu * s * a, tol=1, scale=w * mu * sa + 1e-290, **st)
            t.close("electric field", E, -1j * w * mu * s * curl, tol=1, scale=w * mu * sc + 1e-290, **st)
            t.close("magnetic field", H, s * gd, tol=1, scale=sg, **st)
            t.close("current density", J, sig * E, tol=1e-12, scale=sig * np.abs(E) + 1e-290)
        t.close("flux density", B, mu * H, tol=1e-12, scale=mu * np.abs(H) + 1e-290)
        # one point, and points in a different arrangement
        for i in sorted({0, 40 % len(x), 100 % len(x)}):
            t.step(3)
            t.close("electric field, one point", o.electric_field(x[i]), E[..., i, :], tol=1e-12, scale=np.abs(E[..., i, :]).max() + 1e-290)
            t.close("magnetic field, one point", o.magnetic_field(x[i]), H[..., i, :], tol=1e-12, scale=np.abs(H[..., i, :]).max() + 1e-290)
            t.close("vector potential, one point", o.vector_potential(x[i]), A[..., i, :], tol=1e-12, scale=np.abs(A[..., i, :]).max() + 1e-290)
        # low frequency, short distance: the static dipole
        if np.all(np.abs(k) * dist[0] < 1e-6) and not np.any(np.abs(loc) > 0):
            i = slice(0, len(D))
            R = x[i] - loc
            r = ref.norm(R)
            t.close("static limit", H[..., i, :] + 0 * k,
                    (s * np.cross(n, R) / (4 * np.pi * r ** 3) if el else ref.mdipole_B(x[i], loc, s * n, 1.0)) + 0 * k,
                    tol=1e-5, scale=np.abs(s) / (4 * np.pi * r ** (2 if el else 3)) + 1e-290, **st)
        t.outcome(np.round(np.abs(H[..., 0, :]), 9))

    if "ladder" in case:
        base = dict(sigma=[1.0, 1e-6, 30.0][case["medium"]], mu=mu_0, epsilon=epsilon_0, quasistatic=case["medium"] == 0, frequency=[1e3, 3e5, 2.0][case["medium"]],
                    location=[1., 2., -3.], orientation=[1., 2., -3.])
        base.update(dict(current=2.0, length=0.5) if el else dict(moment=2.0))
        a = case["ladder"]
        names = [a] if a not in ("distance", "strength", "length") else {"distance": [], "strength": ["current" if el else "moment"], "length": ["length"] if el else []}[a]
        if a == "length" and not el:
            return
        o = cls(**base)
        for v in LADDERS[a]:
            st = dict(base)
            for n in names:
                st[n] = v
                setattr(o, n, v)
            t.state(case["kind"], "ladder", a, repr(v), case["medium"])
            t.step(1 + len(names))
            w = 2 * np.pi * np.asarray(st["frequency"])
            k = np.abs(np.sqrt(-1j * w * st["mu"] * (st["sigma"] + (0 if st["quasistatic"] else 1j * w * st["epsilon"]))))
            if a == "distance":
                dist[:] = [v / k]
                # keep the source at the origin when points come close to it
                o.location = st["location"] = [0., 0, 0]
            elif a == "location":
                dist[:] = [30.0, 200.0]
            else:
                dist[:] = [0.02 / k, 1.3 / k, 9.0 / k]
                o.location = st["location"] = [0., 0, 0]
            oracle(o, st)
            oracle(cls(**st), st)
        return
    freq0 = FREQ[case["freq"]]
    dom = {"sigma": [case["sigma"]], "mu": [case["mu"]], "epsilon": [case["eps"]], "quasistatic": [False, True],
           "frequency": [freq0, 55.0], "location": LOC, "orientation": ORI}
    if el:
        dom.update(length=LEN, current=STR)
    else:
        dom.update(moment=STR)
    walk(t, case["kind"], cls, dom, oracle, fresh=t.thorough)
    # media changed on a live object
    dom = {"sigma": SIG, "mu": MU, "epsilon": EPS, "quasistatic": [False, True], "frequency": [freq0], "location": [LOC[1]], "orientation": [ORI[3]]}
    dom.update({"length": [0.2], "current": [3.0]} if el else {"moment": [3.0]})
    walk(t, case["kind"], cls, dom, oracle, fresh=True)
