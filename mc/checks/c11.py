"""C11: harmonic magnetic dipole and loop on a conductive half-space."""
import itertools

import mpmath as mp
import numpy as np
from scipy.constants import mu_0

from .. import ref
from ..core import ladder
from ..walk import walk

KR = [0.02, 0.3, 1.0, 3.5, 12.0, 150.0, 3000.0]   # |k| r
RATIO = [0.0, 0.4, 3.0]                            # omega epsilon / sigma
SIG = [1.0, 1e-3, 20.0]
FREQ = [1e3, 10.0, 2e5]
MOM = [1.0, -2.5, 0.0]
LOC = [[0., 0, 0], [50., -7., 0.]]
ORI = ["Z", "x", "Y", [1., 2., -3.], [0., 0., -4.0], [-1e-3, 0, 0], [0., 1., 1.]]
DEFAULT_ANG = np.deg2rad([0., 30., 90., 135., 180., 200., 270., 315.])

MEDIUM = {"sigma": ladder(1e-10, 1e8, 2), "frequency": ladder(1e-4, 1e9, 2), "moment": [s * v for v in ladder(1e-12, 1e12, 1) for s in (1, -1)],
          "orientation": [[a, 0.0, 1.0] for a in ladder(1e-12, 1, 1)] + [[0.0, -1.0, a] for a in ladder(1e-12, 1, 1)] + [[1.0, -a, 0.0] for a in ladder(1e-12, 1, 1)] + [[a, -2 * a, 3 * a] for a in ladder(1e-12, 1e12, 1)],
          "azimuth": [b * np.pi / 2 + s * e for b in range(4) for s in (1, -1) for e in (1e-1, 1e-3, 1e-6, 1e-9, 1e-12)]}


def bounds(tier):
    return {"|k| r": krs(tier), "|k| r by the closed forms": "1e-9 to 1e5, %d values per decade" % (12 if tier == "thorough" else 5), "omega eps / sigma": RATIO, "sigma": SIG, "frequency": FREQ, "moment": MOM, "locations": LOC,
            "orientations": ORI, "azimuths": len(DEFAULT_ANG), "ladders": {k: len(v) for k, v in MEDIUM.items()}}


def krs(tier):
    return KR + ([0.1, 0.6, 2.0, 6.0, 25.0, 60.0, 600.0] if tier == "thorough" else [])


def cases(tier):
    out = [{"medium": a, "kr": K, "ratio": b} for a in MEDIUM for K in (0.05, 0.9, 8.0, 400.0) for b in RATIO[:2]]
    out += [{"ladder": 1, "ratio": b, "part": i} for b in RATIO for i in range(4)]
    return out + [{"kr": a, "ratio": b} for a in sorted(krs(tier), key=lambda v: -v if v < 100 else 0) for b in RATIO]


def integrals(k, closed=False):
    """int R l^2 J0, int R l J1, int R l^2 J1 for r = 1, R = (l - u)/(l + u): by quadrature up to
    |k| = 100, beyond by the closed forms in high precision (same as the quadrature below 100)."""
    with mp.workdps(15):
        def R(l):
            u = mp.sqrt(l * l - k * k)
            return (k / (l + u)) ** 2

        def q(f):
            # around the branch point l = k (below the real axis) through the upper half plane
            a = abs(k)
            h = 1j * min(2, a)
            b = 2 * a + 3
            n = int(b / 2) + 4
            path = [0] + [b * i / n + h for i in range(n + 1)] + [b]
            return complex(mp.quad(f, path) + mp.quadosc(f, [b, mp.inf], omega=1))
        if abs(k) < 100 and not closed:
            return (q(lambda l: R(l) * l * l * mp.besselj(0, l)), q(lambda l: R(l) * l * mp.besselj(1, l)),
                    q(lambda l: R(l) * l * l * mp.besselj(1, l)))
    with mp.workdps(60):
        e = mp.exp(-1j * k)
        a = 1j * k / 2
        i0 = 2 / k ** 2 * (9 - (9 + 9j * k - 4 * k * k - 1j * k ** 3) * e) + 1
        i2 = k * k * (mp.besseli(1, a) * mp.besselk(1, a) - mp.besseli(2, a) * mp.besselk(2, a))
        phi = 2 / k ** 2 * (3 + k * k - (3 + 3j * k - k * k) * e)
        # on the y axis the field of an x dipole is int R l J1 - 1 = -phi
        return complex(i0), complex(1 - phi), complex(i2)




def total_noise(K):
    """Rounding of the total field, whose closed form cancels down to the primary (the tests ask for that very form)."""
    return 1e-12 + (4e-14 / K ** 2 if 0.99e-3 < K < 100 else 0)


def run_case(case, t):
    if "medium" in case:
        return at(case, t, True)
    if "ladder" in case:
        n = 12 if t.thorough else 5
        for K in ladder(1e-9, 1e5, n)[case["part"]::4]:
            at(dict(case, kr=K), t, True)
            if t.violations:
                return
    else:
        at(case, t, False)


def at(case, t, dense):
    """Everything at one induction number."""
    ANG = DEFAULT_ANG
    from geoana.em import fdem
    K, ratio = case["kr"], case["ratio"]
    ph = np.sqrt(-1j * (1 + 1j * ratio) + 0j)
    ph /= abs(ph)
    if ph.imag > 0:
        ph = -ph
    k = mp.mpf(K) * mp.mpc(ph)
    I0, I1, I2 = integrals(k, True)
    size = abs(I0) + abs(I1) + abs(I2)
    if not dense and K < 100:
        # the closed forms are the same function as the integrals
        for a, b in zip(integrals(k, False), (I0, I1, I2)):
            if abs(a - b) > 1e-9 * size:
                raise OSError("reference integrals disagree at %s: %s %s" % (k, a, b))
    t.sample({"k r": complex(k), "integrals": [I0, I1, I2]})
    # limits on the secondary field, relative to the primary
    lim = 1e-10 * size + 1e-15 * (K ** 3 if K < 1 else K)
    noise = total_noise(K)

    def secondary(n, c, s):
        """components in units of m/(4 pi r^3); n orientation; c, s cos and sin of the azimuth"""
        x, y, z = n
        hx = x * (c * c * I0 + (1 - 2 * c * c) * I1) + y * c * s * (I0 - 2 * I1) + z * c * I2
        hy = x * c * s * (I0 - 2 * I1) + y * (s * s * I0 + (1 - 2 * s * s) * I1) + z * s * I2
        hz = -(x * c + y * s) * I2 + z * I0
        return np.stack([hx, hy, hz], -1)

    def primary(n, c, s):
        rh = np.stack([c, s, 0 * c], -1)
        return 3 * rh * (rh @ n)[:, None] - n

    def oracle(o, st):
        n = ref.unit(st["orientation"])
        loc = np.asarray(st["location"], float)
        fs = np.asarray(st["frequency"], float)
        f = fs if fs.ndim == 0 else fs[st["pick"]]
        w = 2 * np.pi * f
        sh = st["sigma"] * (1 + (0 if st["quasistatic"] else 1j * w * st["epsilon"] / st["sigma"]))
        r = K / np.sqrt(abs(w * mu_0 * sh))
        c, s = np.cos(ANG), np.sin(ANG)
        xy = loc + r * np.stack([c, s, 0 * c], -1)
        fac = st["moment"] / (4 * np.pi * r ** 3)
        tol = (lim + 1e-14 * np.abs(loc).max() / r * size) * abs(fac) + 1e-290
        total = tol + (noise + 1e-14 * np.abs(loc).max() / r) * abs(fac)
        S, P = fac * secondary(n, c, s), fac * primary(n, c, s)
        pk = (lambda a: a) if fs.ndim == 0 or fs.size == 1 else (lambda a: a[st["pick"]])
        d = {q: st[q] for q in ("orientation", "location", "frequency", "sigma", "moment")}
        for pts in (xy, xy[:, :2]):
            t.step(3)
            t.close("secondary field", pk(o.magnetic_field(pts)), S, tol=1, scale=tol, **d)
            t.close("secondary field by name", pk(o.magnetic_field(pts, field="secondary")), S, tol=1, scale=tol, **d)
            t.close("total field", pk(o.magnetic_field(pts, field="total")), S + P, tol=1, scale=total, **d)
        # the component across (radial for a vertical, vertical for a horizontal dipole) by itself
        G = pk(o.magnetic_field(xy))
        cross = (1e-10 + 1e-15 * max(1, K * K) + 1e-14 * np.abs(loc).max() / r) * abs(I2) * abs(fac) + 1e-290
        if n[0] == n[1] == 0:
            t.close("radial field of a vertical dipole", G[:, :2], S[:, :2], tol=1, scale=cross, **d)
        elif n[2] == 0:
            t.close("vertical field of a horizontal dipole", G[:, 2], S[:, 2], tol=1, scale=cross, vec=False, **d)
        for i in (0, 3):
            t.step(2)
            t.close("secondary, one point", pk(o.magnetic_field(xy[i])), S[i], tol=1, scale=tol, **d)
            t.close("total, one point", pk(o.magnetic_field(xy[i], field="total")), (S + P)[i], tol=1, scale=total, **d)
        t.outcome(np.round(S[1] / (abs(fac) + 1e-300), 6))

    if "medium" in case:
        a = case["medium"]
        if a == "azimuth":
            ANG = np.array(MEDIUM[a])
        o = None
        for v in MEDIUM[a] if a != "azimuth" else [0.0]:
            st = dict(sigma=0.2, frequency=700.0, moment=1.7, orientation=[1.0, 2.0, -3.0], location=[0.0, 0.0, 0.0], quasistatic=ratio == 0)
            if a != "azimuth":
                st[a] = v
            st["epsilon"] = ratio * st["sigma"] / (2 * np.pi * st["frequency"])
            t.state("medium", a, repr(v), K, ratio)
            if o is None:
                o = fdem.MagneticDipoleHalfSpace(**st)
            for k_, v_ in st.items():
                setattr(o, k_, v_)
            oracle(o, dict(st, pick=0))
            oracle(fdem.MagneticDipoleHalfSpace(**st), dict(st, pick=0))
            if ratio == 0 and a in ("sigma", "frequency", "moment"):
                for mu in (mu_0, 7 * mu_0):
                    loops(t, K, I1, lim, [(st["sigma"], st["frequency"], mu, st["moment"], 3)])
        return
    for sig, f in itertools.product(SIG, FREQ) if not dense else [(0.2, 700.0)]:
        eps = ratio * sig / (2 * np.pi * f)
        for fr, pick in ((f, 0), ([f], 0), ([0.7 * f, f], 1), ([f, 3 * f, 0.1 * f], 0), ([2 * f, f, 9 * f], 1)) if not dense else ((f, 0), ([1e-3 * f, 7e4 * f, f], 2)):
            dom = {"sigma": [sig], "epsilon": [eps], "quasistatic": [False] + ([True] if ratio == 0 else []), "frequency": [fr],
                   "moment": MOM[:1] if dense else MOM, "location": LOC[:1] if dense else LOC, "orientation": ORI[:5] if dense else ORI}

            def orc(o, st, pick=pick):
                return oracle(o, dict(st, pick=pick))
            walk(t, "HS%g/%g" % (K, ratio), fdem.MagneticDipoleHalfSpace, dom, orc, fresh=t.thorough)

    if dense:
        return loops(t, K, I1, lim, [(0.2, 700.0, mu_0, 1.5, 2)]) if ratio == 0 else None
    # frequency, conductivity and quasi-static choice changed on one object
    def orc2(o, st):
        if ratio:
            o.epsilon = ratio * st["sigma"] / (2 * np.pi * st["frequency"])
        oracle(o, dict(st, epsilon=o.epsilon, pick=0, location=LOC[1], orientation=ORI[3]))
    make = lambda **kw: fdem.MagneticDipoleHalfSpace(location=np.array(LOC[1]), orientation=np.array(ORI[3]),
                                                     epsilon=ratio * kw["sigma"] / (2 * np.pi * kw["frequency"]), **kw)
    walk(t, "HSw", make, {"sigma": SIG, "frequency": FREQ, "moment": MOM, "quasistatic": [False] if ratio else [True]}, orc2)

    if ratio == 0:
        loops(t, K, I1, lim, itertools.product(SIG, FREQ, (mu_0, 3 * mu_0), MOM, (1, 4)))


def loops(t, K, I1, lim, settings):
    """Horizontal loop: H at the centre is (I/2) int l J1(l a) [secondary: R, primary: 1] dl a -> I/(2a) (1 + I1)."""
    from geoana.em.fdem.simple_functions import vertical_magnetic_field_horizontal_loop as vh, vertical_magnetic_flux_horizontal_loop as vb
    for sig, f, mu, cur, turns in settings:
        a = K / np.sqrt(2 * np.pi * f * mu * sig)
        fac = turns * cur / (2 * a)
        kw = dict(sigma=sig, mu=mu, radius=a, current=cur, turns=turns)
        t.state("loop", K, sig, f, mu, cur, turns)
        for fr in (f, np.array([f]), np.array([f, 5 * f, 0.2 * f])):
            pk = (lambda v: v) if np.ndim(fr) == 0 else (lambda v: v[0])
            t.step(4)
            t.close("loop secondary", pk(vh(fr, **kw)), fac * I1, tol=1, scale=lim * abs(fac) + 1e-290, **kw)
            t.close("loop total", pk(vh(fr, secondary=False, **kw)), fac * (1 + I1), tol=1, scale=(lim + total_noise(K)) * abs(fac) + 1e-290, **kw)
            t.close("loop flux", pk(vb(fr, **kw)), mu * fac * I1, tol=1, scale=mu * lim * abs(fac) + 1e-290, **kw)
            t.close("loop flux total", pk(vb(fr, secondary=False, **kw)), mu * fac * (1 + I1), tol=1, scale=mu * (lim + total_noise(K)) * abs(fac) + 1e-290, **kw)
