"""C09: transient electric current dipole in a whole space."""
import itertools

import numpy as np
from scipy.constants import mu_0
from scipy.special import erf, gammainc

from .. import ref
from ..core import ladder
from ..walk import walk

SIG = [1.0, 1e-4, 250.0]
MU = [mu_0, 6 * mu_0]
TIME = [1e-3, [1e-6], [1e-4, 2.0], [1e-5, 1e-2, 30.0], 1e-12]
LOC = [[0., 0, 0], [5., -6., 7.5]]
ORI = ["X", "y", "Z", [1., 2., -3.], [0., 0., -4.0], [-1e-3, 0, 0]]
STR = [1.0, -2.5, 0.0]
LEN = [1.0, 0.2]
D = np.array([v for v in itertools.product([-1., 0., 1.], repeat=3) if any(v)] + [[1, 2, 3], [-3, 1, 2], [.1, -.9, .2]])
D = D / np.sqrt((D ** 2).sum(1))[:, None]
DIST = [1e-2, 1.0, 37.0, 2e3]


LADDERS = {
    "distance": ladder(1e-12, 30, 8), "sigma": ladder(1e-10, 1e8, 4), "time": ladder(1e-15, 1e6, 4),
    "mu": [mu_0 * (1 + d) for d in ladder(1e-9, 1e4, 4)] + [mu_0 * (1 - d) for d in ladder(1e-9, 0.9, 4)],
    "current": ladder(1e-12, 1e12, 2) + [-v for v in ladder(1e-12, 1e12, 2)] + [0.0],
    "length": ladder(1e-9, 1e6, 3), "location": [[a, -b, 0.1 * a] for a, b in zip(ladder(1e-6, 1e7, 4), ladder(1e-2, 1e5, 4))],
    "orientation": [[a, 1., 0.] for a in ladder(1e-12, 1, 3)] + [[0., a, -1.] for a in ladder(1e-12, 1, 3)] + [[-1., 0., -a] for a in ladder(1e-12, 1, 3)]
    + [[a, -2 * a, 3 * a] for a in ladder(1e-12, 1e12, 2)]}


def bounds(tier):
    return {"ladders": {k: "%d values" % len(v) for k, v in LADDERS.items()}, "sigma": SIG, "mu": MU, "time": TIME, "locations": LOC, "orientations": ORI,
            "strengths": STR, "distances": DIST, "directions": len(D)}


def cases(tier):
    return [{"sigma": s, "mu": m, "i": i} for s in SIG for m in MU for i in range(len(TIME))] + [{"ladder": a, "medium": m} for a in LADDERS for m in range(3)]


def run_case(case, t):
    from geoana.em import tdem
    cls = tdem.ElectricDipoleWholeSpace
    dist = list(DIST)

    def oracle(o, st):
        loc = np.asarray(st["location"], float)
        n = ref.unit(st["orientation"])
        sig, mu = st["sigma"], st["mu"]
        s = st["current"] * st["length"]
        x = np.concatenate([loc + d * D for d in dist])
        tt = np.asarray(st["time"], float)
        tt = tt[:, None, None] if tt.ndim else tt
        R = x - loc
        r = ref.norm(R)
        h = R / r
        nr = (h @ n)[..., None]
        u = np.sqrt(mu * sig / (4 * tt)) * r
        # A = s g n with g = erf(u)/(4 pi r), mu sigma dg/dt = lap g; H = curl A; sigma E = curl H
        f = s / (4 * np.pi)
        P3, P5 = gammainc(1.5, u * u), gammainc(2.5, u * u)
        gau = 4 * u ** 3 / np.sqrt(np.pi) * np.exp(-u * u)
        A = f / r * erf(u) * n
        H = f / r ** 2 * P3 * np.cross(n, h)
        E = f / (sig * r ** 3) * (3 * P5 * nr * h - (P3 - gau) * n)
        Ht = -f / r ** 2 * gau / (2 * tt) * np.cross(n, h)
        tol = 1e-11 + 1e-14 * np.abs(loc).max() / min(dist)
        ex = 1e-14 * u * u
        af = abs(f)
        t.step(7)
        m = {k: getattr(o, k)(x) for k in ("vector_potential", "electric_field", "current_density", "magnetic_field", "magnetic_flux_density",
                                           "magnetic_field_time_deriv", "magnetic_flux_density_time_deriv")}
        t.close("vector potential", m["vector_potential"], A, tol=1, scale=tol * af / r * np.minimum(1, u) * 2 + 1e-290, **st)
        t.close("magnetic field", m["magnetic_field"], H, tol=1, scale=af / r ** 2 * tol * P3 + 1e-290, **st)
        le = af / (sig * r ** 3) * ((tol + ex) * (3 * P5 + P3 + gau)) + 1e-290
        t.close("electric field", m["electric_field"], E, tol=1, scale=le, **st)
        t.close("current density", m["current_density"], sig * E, tol=1, scale=sig * le + 1e-290, **st)
        t.close("field time derivative", m["magnetic_field_time_deriv"], Ht, tol=1, scale=(tol + ex) * af / r ** 2 * gau / tt + 1e-290, **st)
        t.close("flux density", m["magnetic_flux_density"], mu * m["magnetic_field"], tol=1e-12, scale=mu * np.abs(m["magnetic_field"]) + 1e-290)
        t.close("flux time derivative", m["magnetic_flux_density_time_deriv"], mu * m["magnetic_field_time_deriv"], tol=1e-12,
                scale=mu * np.abs(m["magnetic_field_time_deriv"]) + 1e-290)
        for k, v in m.items():
            for i in sorted({0, 40 % len(x), 100 % len(x)}):
                t.step()
                t.close(k + ", one point", getattr(o, k)(x[i]), v[..., i, :], tol=1e-12, scale=np.abs(v[..., i, :]).max() + 1e-290)
        t.outcome(np.round(np.abs(m["magnetic_field"][..., 28, :]), 9))

    if "ladder" in case:
        a = case["ladder"]
        base = dict(sigma=[1.0, 1e-6, 30.0][case["medium"]], mu=mu_0, time=[1e-3, 1e-8, 2.0][case["medium"]], location=[0., 0, 0],
                    orientation=[1., 2., -3.], current=2.0, length=0.5)
        o = cls(**base)
        for v in LADDERS[a]:
            st = dict(base)
            if a != "distance":
                st[a] = v
                setattr(o, a, v)
            t.state("ladder", a, repr(v), case["medium"])
            t.step(2)
            L = np.sqrt(4 * st["time"] / (st["mu"] * st["sigma"]))
            dist[:] = [v * L] if a == "distance" else [30., 200.] if a == "location" else [0.02 * L, 0.9 * L, 3.3 * L]
            oracle(o, st)
            oracle(cls(**st), st)
        return
    dom = {"sigma": [case["sigma"], 0.02], "mu": [case["mu"]], "time": [TIME[case["i"]], 2e-4], "location": LOC, "orientation": ORI,
           "length": LEN, "current": STR}
    walk(t, "E", cls, dom, oracle, fresh=t.thorough)
    dom.update(sigma=SIG, mu=MU, location=LOC[1:], orientation=ORI[3:4], length=LEN[1:], current=[3.0])
    walk(t, "E", cls, dom, oracle, fresh=True)
