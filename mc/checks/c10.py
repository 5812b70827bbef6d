"""C10: half-space transients are inverse transforms of the harmonic responses."""
import itertools

import mpmath as mp
import numpy as np
from scipy.constants import mu_0
from scipy.special import gammainc

from ..core import ladder
from ..walk import walk

TAU = [1e-12, 1e-10, 1e-8, 1e-6, 1e-5, 2e-4, 3e-3, 0.02, 0.11, 0.5, 3.0, 40.0, 900.0, 1e4, 1e5, 1e6, 1e8, 1e10]  # t / (mu sigma r^2)
SIG = [1.0, 1e-3, 30.0]
MU = [mu_0, 5 * mu_0, 1.004 * mu_0]
RAD = [10.0, 0.3, 800.0]
MOM = [1.0, -2.5, 0.0, 1e3]
LOC = [[0., 0, 0], [50., -7., 0.], [-3., 4., 12.]]
TURNS = [1, 3, -2, 0, 2.5, 400]
ANG = np.deg2rad([0., 30., 90., 135., 180., 200., 270., 315., 359.])


def bounds(tier):
    return {"t/(mu sigma r^2)": taus(tier), "sigma": SIG, "mu": MU, "r": RAD, "moment/current": MOM, "locations": LOC, "turns": TURNS, "ladders at every t/(mu sigma r^2)": "sigma 1e-10..1e8, r 1e-6..1e7, moment +-1e-12..1e12, mu/mu_0 - 1 1e-9..1e4, azimuths 1e-12..1e-1 from the axes"}


def taus(tier):
    return TAU + ladder(1.3e-3, 2000.0, 3) + ([1e-3, 7e-3, 0.05, 0.25, 1.1, 10.0, 150.0] if tier == "thorough" else [])


def cases(tier):
    return [{"tau": x} for x in taus(tier)]


# harmonic responses for r = mu sigma = 1 (k = -i sqrt(s)), minus their static limit, in units of m/(4 pi r^3), I/(2 a)
def hz(s):
    k = mp.sqrt(s)
    return -2 / s * (9 - (9 + 9 * k + 4 * s + k * s) * mp.exp(-k)) + 1


def hr(s):
    k = mp.sqrt(s) / 2
    return -s * (mp.besseli(1, k) * mp.besselk(1, k) - mp.besseli(2, k) * mp.besselk(2, k))


def hl(s):
    k = mp.sqrt(s)
    return 2 / s * (3 - (3 + 3 * k + s) * mp.exp(-k)) - 1


def transforms(tau):
    """step-off transients and their derivatives d/dtau"""
    with mp.workdps(44):
        tau = mp.mpf(tau)
        out = {}
        for n, f in (("z", hz), ("r", hr), ("l", hl)):
            cache = {}

            def F(s, f=f, cache=cache):
                key = mp.nstr(s, 30)
                if key not in cache:
                    # at late times, remove the leading term -s/4: its inverse vanishes for t > 0
                    cache[key] = f(s) + (s / 4 if f is hr and tau > 1 else 0)
                return cache[key]
            out[n] = float(-mp.invertlaplace(lambda s: F(s) / s, tau, method="talbot", degree=32 if tau < 1e3 else 48))
            # at early times, remove the leading constant: its inverse vanishes for t > 0
            c = {"z": 1, "l": -1, "r": 0}[n] if tau < 1e-3 else 0
            out["d" + n] = float(-mp.invertlaplace(lambda s: F(s) - c, tau, method="talbot", degree=32 if tau < 1e3 else 48))
        return out


def run_case(case, t):
    from geoana.em import tdem
    import geoana.em.tdem.simple_functions as sf
    import geoana.em.tdem.reference as rf
    tau = case["tau"]
    w = transforms(tau)
    t.sample({"tau": tau, "reference": w})
    u = np.sqrt(1 / (4 * tau))
    # sizes of the terms the closed forms add up: at no time are they larger than the result, but where it changes sign
    P3, P5, gau = float(gammainc(1.5, u * u)), float(gammainc(2.5, u * u)), 4 * u ** 3 / np.sqrt(np.pi) * np.exp(-u * u)
    ex = 1e-15 * u * u  # rounding of the exponent
    lim = {"z": 1e-10 * abs(w["z"]) + 1e-13 * (P3 + 4.5 * P5 / u ** 2), "r": 1e-9 * abs(w["r"]), "l": 1e-10 * abs(w["l"]) + 1e-13 * (P3 + 1.5 * P5 / u ** 2)}
    lim["dz"] = 1e-10 * abs(w["dz"]) + (1e-13 * 4.5 * P5 / u ** 2 + (1e-13 + ex) * gau) / tau
    lim["dr"] = 1e-9 * abs(w["dr"])
    lim["dl"] = 1e-10 * abs(w["dl"])
    # the textbook equations subtract terms of size 1/u at late times
    old = {"z": lim["z"] + 1e-13 * (1 / u + 1), "dz": lim["dz"] + 3e-13 * (1 / u + 1) / tau, "r": lim["r"], "dr": lim["dr"] + (1e-14 * (u + u ** 3 if u > 1 else 0) + 1e-12 * (u + u ** 2 if u > 1 else u ** 2)) / tau}

    def vec(xy, mom, r, der=False, sc=1.0):
        rh = xy / np.sqrt((xy ** 2).sum(-1))[..., None]
        d = "d" if der else ""
        f = mom / (4 * np.pi * r ** 3) * sc
        return (np.concatenate([f * w[d + "r"] * rh, np.full(rh.shape[:-1] + (1,), f * w[d + "z"])], -1),
                np.array([lim[d + "r"], lim[d + "r"], lim[d + "z"]]) * abs(f) + 1e-290)

    for sig, mu, r, mom in itertools.product(SIG, MU, RAD, MOM):
        tt = tau * mu * sig * r * r
        xy = r * np.stack([np.cos(ANG), np.sin(ANG)], -1)
        t.state("dip", sig, mu, r, mom, tau)
        sc = 1 / (mu * sig * r * r)
        want, l = vec(xy, mom, r)
        dwant, dl = vec(xy, mom, r, True, sc)
        kw = dict(sigma=sig, mu=mu, moment=mom)
        for p in (xy, np.concatenate([xy, np.full((len(xy), 1), 3.3)], -1), xy.tolist()):
            t.step(4)
            t.close("dipole field", sf.magnetic_field_vertical_magnetic_dipole(tt, p, **kw), want, tol=1, scale=l, **kw)
            t.close("dipole flux", sf.magnetic_flux_vertical_magnetic_dipole(tt, p, **kw), mu * want, tol=1, scale=mu * l + 1e-290, **kw)
            t.close("dipole field derivative", sf.magnetic_field_time_deriv_magnetic_dipole(tt, p, **kw), dwant, tol=1, scale=dl, **kw)
            t.close("dipole flux derivative", sf.magnetic_flux_time_deriv_magnetic_dipole(tt, p, **kw), mu * dwant, tol=1, scale=mu * dl + 1e-290, **kw)
        # receivers exactly on the axes: radial to the last digit
        ax = r * np.array([[1., 0.], [0., 1.], [-1., 0.], [0., -1.], [-0., 1.], [1., -0.], [0.6, 0.8], [-0.8, 0.6]])
        for fn in ("magnetic_field_vertical_magnetic_dipole", "magnetic_field_time_deriv_magnetic_dipole", "magnetic_flux_vertical_magnetic_dipole", "magnetic_flux_time_deriv_magnetic_dipole"):
            g = getattr(sf, fn)(tt, ax, **kw)
            t.step()
            t.close(fn + " is radial", (g[:, 0] * ax[:, 1] - g[:, 1] * ax[:, 0]) / r, np.zeros(len(ax)), tol=1e-14, scale=np.abs(g[:, :2]).max() + 1e-290, vec=False, **kw)
        # several times at once, and every point alone
        ts = np.array([0.3 * tt, tt, 7 * tt])
        for fn, wv, lv in (("magnetic_field_vertical_magnetic_dipole", want, l), ("magnetic_flux_vertical_magnetic_dipole", mu * want, mu * l),
                           ("magnetic_field_time_deriv_magnetic_dipole", dwant, dl), ("magnetic_flux_time_deriv_magnetic_dipole", mu * dwant, mu * dl)):
            g = getattr(sf, fn)(ts, xy, **kw)
            t.step(1 + len(xy))
            t.check(g.shape == (3, len(xy), 3), "time axis first", got=g.shape)
            t.close(fn + " at several times", g[1], wv, tol=1, scale=lv + 1e-290, **kw)
            for j in range(len(xy)):
                one = getattr(sf, fn)(tt, xy[j] if j % 2 else np.r_[xy[j], -1.25], **kw)
                t.close(fn + " one point", one, wv[j], tol=1, scale=lv + 1e-290, **kw)
        # the reference equations of Ward and Hohmann the library carries (their Bessel functions overflow at early times)
        if u < 20:
            th0, f = np.sqrt(mu * sig / (4 * tt)), mom / (4 * np.pi * r ** 3)
            for rho in (r, np.array([r]), np.full((2, 2), r)):
                o = np.ones(np.shape(rho))
                t.step(4)
                t.close("W&H 4.69a", rf.hz_from_vert_4_69a(mom, th0, rho), f * w["z"] * o, tol=1, scale=abs(f) * (old["z"] + 1e-13 / u ** 2) + 1e-290, vec=False, **kw)
                t.close("W&H 4.70", rf.dhz_from_vert_4_70(mom, th0, rho, sig, mu), -f * sc * w["dz"] * o, tol=1, scale=abs(f) * sc * old["dz"] + 1e-290, vec=False, **kw)
                t.close("W&H 4.72", rf.hp_from_vert_4_72(mom, th0, rho), -f * w["r"] * o, tol=1, scale=abs(f) * old["r"] + 1e-290, vec=False, **kw)
                t.close("W&H 4.74", rf.dhp_from_vert_4_74(mom, th0, rho, tt), -f * sc * w["dr"] * o, tol=1, scale=abs(f) * sc * old["dr"] + 1e-290, vec=False, **kw)
        # loop of radius r; `mom` is the current
        for turns in TURNS:
            t.state("loop", sig, mu, r, mom, turns, tau)
            kl = dict(sigma=sig, mu=mu, radius=r, current=mom, turns=turns)
            f = turns * mom / (2 * r)
            for form in (tt, np.array([tt, tt]), np.array([[tt]])):
                o = np.ones(np.shape(form))
                t.step(4)
                t.close("loop field", sf.vertical_magnetic_field_horizontal_loop(form, **kl), f * w["l"] * o, tol=1, scale=abs(f) * lim["l"] + 1e-290, **kl)
                t.close("loop flux", sf.vertical_magnetic_flux_horizontal_loop(form, **kl), mu * f * w["l"] * o, tol=1, scale=mu * abs(f) * lim["l"] + 1e-290, **kl)
                t.close("loop field derivative", sf.vertical_magnetic_field_time_deriv_horizontal_loop(form, **kl), f * w["dl"] * sc * o, tol=1, scale=abs(f) * lim["dl"] * sc + 1e-290, **kl)
                t.close("loop flux derivative", sf.vertical_magnetic_flux_time_deriv_horizontal_loop(form, **kl), mu * f * w["dl"] * sc * o, tol=1, scale=mu * abs(f) * lim["dl"] * sc + 1e-290, **kl)
        t.outcome(np.round(want[1], 10))

    # every order of magnitude of conductivity, distance, strength, permeability; azimuths next to the axes
    th = np.array([b * np.pi / 2 + s * e for b in range(4) for s in (1, -1) for e in (1e-1, 1e-3, 1e-6, 1e-9, 1e-12)])
    for sig, mu, r, mom, az in ([(v, mu_0, 10.0, 1.7, ANG) for v in ladder(1e-10, 1e8, 2)] + [(0.02, mu_0, v, -1.7, ANG) for v in ladder(1e-6, 1e7, 2)]
                                + [(0.02, mu_0, 30.0, s * v, ANG) for v in ladder(1e-12, 1e12, 1) for s in (1, -1)]
                                + [(0.02, mu_0 * (1 + v), 30.0, 1.0, ANG) for v in ladder(1e-9, 1e4, 2)] + [(0.02, mu_0, 30.0, 1.0, th)]):
        tt = tau * mu * sig * r * r
        xy = r * np.stack([np.cos(az), np.sin(az)], -1)
        sc = 1 / (mu * sig * r * r)
        t.state("through", sig, mu, r, mom, tau, len(az))
        t.step(6)
        want, l = vec(xy, mom, r)
        dwant, dl = vec(xy, mom, r, True, sc)
        kw = dict(sigma=sig, mu=mu, moment=mom)
        t.close("dipole field", sf.magnetic_field_vertical_magnetic_dipole(tt, xy, **kw), want, tol=1, scale=l, **kw)
        t.close("dipole field derivative", sf.magnetic_field_time_deriv_magnetic_dipole(tt, xy, **kw), dwant, tol=1, scale=dl, **kw)
        o = tdem.VerticalMagneticDipoleHalfSpace(time=tt, location=[0.0, 0.0, 0.0], **kw)
        t.close("class field", o.magnetic_field(xy), want, tol=1, scale=l, **kw)
        t.close("class flux derivative", o.magnetic_flux_time_derivative(xy), mu * dwant, tol=1, scale=mu * dl + 1e-290, **kw)
        kl = dict(sigma=sig, mu=mu, radius=r, current=mom, turns=2)
        f = 2 * mom / (2 * r)
        t.close("loop field", sf.vertical_magnetic_field_horizontal_loop(tt, **kl), f * w["l"], tol=1, scale=abs(f) * lim["l"] + 1e-290, **kl)
        t.close("loop field derivative", sf.vertical_magnetic_field_time_deriv_horizontal_loop(tt, **kl), f * w["dl"] * sc, tol=1, scale=abs(f) * lim["dl"] * sc + 1e-290, **kl)

    def oracle(o, st):
        loc = np.array(st["location"], float)
        sig, mu, mom = st["sigma"], st["mu"], st["moment"]
        t0 = np.atleast_1d(np.asarray(st["time"], float))[-1]
        r = np.sqrt(t0 / (tau * mu * sig))
        xy = r * np.stack([np.cos(ANG), np.sin(ANG)], -1)
        want, l = vec(xy, mom, r)
        sc = 1 / (mu * sig * r * r)
        dwant, dl = vec(xy, mom, r, True, sc)
        tol = 1 + 1e-6 * np.abs(loc).max() / r
        pick = (lambda a: a[-1]) if np.ndim(st["time"]) else (lambda a: a)
        for p in (xy + loc[:2], np.concatenate([xy + loc[:2], np.full((len(xy), 1), -8.)], -1)):
            t.step(4)
            t.close("class field", pick(o.magnetic_field(p)), want, tol=tol, scale=l, **st)
            t.close("class flux", pick(o.magnetic_flux_density(p)), mu * want, tol=tol, scale=mu * l + 1e-290, **st)
            t.close("class field derivative", pick(o.magnetic_field_time_derivative(p)), dwant, tol=tol, scale=dl, **st)
            t.close("class flux derivative", pick(o.magnetic_flux_time_derivative(p)), mu * dwant, tol=tol, scale=mu * dl + 1e-290, **st)
    walk(t, "VMD%g" % tau, tdem.VerticalMagneticDipoleHalfSpace,
         {"time": [1e-3, [1e-5], [1.0, 1e-4], [5e-3, 0.1, 2e-6]], "sigma": SIG, "mu": MU, "location": LOC, "moment": MOM}, oracle)
    # defaults
    t.step(4)
    r1 = np.sqrt(1e-5 / (tau * mu_0))
    want, l = vec(np.array([r1, 0.]), 1.0, r1)
    t.close("defaults", sf.magnetic_field_vertical_magnetic_dipole(1e-5, np.array([r1, 0.])), want, tol=1, scale=l)
    a1 = tau * mu_0
    t.close("loop defaults", sf.vertical_magnetic_field_horizontal_loop(a1), 0.5 * w["l"], tol=1, scale=lim["l"])
    t.close("loop defaults", sf.vertical_magnetic_flux_time_deriv_horizontal_loop(a1), 0.5 * w["dl"], tol=1, scale=lim["dl"])
