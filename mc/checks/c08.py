"""C08: harmonic and transient plane waves."""
import mpmath as mp
import numpy as np
from scipy.constants import epsilon_0, mu_0

from ..core import ladder
from ..walk import walk

SIG = [1.0, 1e-4, 250.0]
MU = [mu_0, 6 * mu_0]
EPS = [epsilon_0, 80 * epsilon_0, 0.0]
FREQ = [100.0, [1e6], [1e-3, 3e3], [0.1, 20.0, 4e9]]
TIME = [1e-3, [1e-6], [1e-4, 2.0], [1e-5, 1e-3, 30.0]]
AMP = [1.0, -2.5, 0.0, 1e3]
ORI = ["X", "y", "Y", [1., 2., 0.], [0., -4., 0.0], [-1e-3, 0, 0], [-3, 4, 0]]
Z = np.array([0., -1e-3, -1., -25., -400., -1e4, 0.5, 60.])
XYZ = np.array([[0.3 * i, -2. + i, z] for i, z in enumerate(Z)])


LADDERS = {
    "sigma": ladder(1e-10, 1e8, 4), "frequency": ladder(1e-6, 1e13, 4), "time": ladder(1e-15, 1e5, 4),
    "mu": [mu_0 * (1 + d) for d in ladder(1e-9, 1e4, 4)] + [mu_0 * (1 - d) for d in ladder(1e-9, 0.9, 4)],
    "epsilon": [epsilon_0 * d for d in ladder(1e-3, 1e6, 4)] + [0.0], "amplitude": ladder(1e-12, 1e12, 2) + [-v for v in ladder(1e-12, 1e12, 2)],
    "orientation": [[a, 1., 0.] for a in ladder(1e-12, 1, 3)] + [[-1., a, 0.] for a in ladder(1e-12, 1, 3)] + [[a, -2 * a, 0.] for a in ladder(1e-12, 1e12, 2)]}
#: depths in units of the diffusion length or wavelength
ZL = np.array([0.0] + [-v for v in ladder(1e-6, 80, 6)] + ladder(1e-6, 3, 4))


def bounds(tier):
    return {"ladders": {k: "%d values" % len(v) for k, v in LADDERS.items()}, "depths per wavelength": len(ZL), "sigma": SIG, "mu": MU, "epsilon": EPS, "frequency": FREQ, "time": TIME, "amplitude": AMP, "orientations": ORI, "z": Z}


def cases(tier):
    return ([{"kind": "F", "sigma": s, "mu": m, "i": i} for s in SIG for m in MU for i in range(len(FREQ))]
            + [{"kind": "T", "sigma": s, "mu": m, "i": i} for s in SIG for m in MU for i in range(len(TIME))]
            + [{"kind": k, "ladder": a, "medium": m} for k in "FT" for a in LADDERS for m in range(3) if a not in (("time",) if k == "F" else ("frequency", "epsilon"))]
            + [{"kind": "selftest"}])


def unit(o):
    if isinstance(o, str):
        return np.array([1., 0, 0]) if o in "xX" else np.array([0, 1., 0])
    o = np.array(o, float)
    return o / np.sqrt((o * o).sum())


def transient(z, t, sig, mu, m=np):
    """Scalar e, b with E = e n, B = b (z_hat x n): impulse diffusing away from z = 0."""
    a = m.sqrt(mu * sig)
    x = a * z / (2 * m.sqrt(t))
    e = -x / t / m.sqrt(m.pi) * m.exp(-x * x)
    b = -a / m.sqrt(m.pi * t) * m.exp(-x * x)
    return e, b


def run_case(case, t):
    if case["kind"] == "selftest":
        # the reference itself: Faraday dB/dt = -curl E, Ampere curl B = mu sigma E, by 40-digit differentiation
        with mp.workdps(40):
            for z in (mp.mpf(-3), mp.mpf(-20), mp.mpf(1)):
                for tt in (mp.mpf("1e-5"), mp.mpf("1e-4")):
                    s, m = mp.mpf("0.7"), mp.mpf("2e-6")
                    e = lambda q, u: transient(q, u, s, m, mp)[0]
                    b = lambda q, u: transient(q, u, s, m, mp)[1]
                    if abs(mp.diff(b, (z, tt), (0, 1)) + mp.diff(e, (z, tt), (1, 0))) > 1e-15 * abs(mp.diff(b, (z, tt), (0, 1))):
                        raise OSError("reference breaks Faraday's law")
                    if abs(-mp.diff(b, (z, tt), (1, 0)) - m * s * e(z, tt)) > 1e-15 * abs(m * s * e(z, tt)):
                        raise OSError("reference breaks Ampere's law")
        return
    har = case["kind"] == "F"
    name = "frequency" if har else "time"
    if har:
        from geoana.em.fdem import HarmonicPlaneWave as cls
    else:
        from geoana.em.tdem import TransientPlaneWave as cls

    zz = [Z, XYZ]

    def oracle(o, st):
        Z, XYZ = zz[:2]
        n = unit(st["orientation"])
        zn = np.cross([0., 0, 1.], n)
        sig, mu, e0 = st["sigma"], st["mu"], st["amplitude"]
        q = np.asarray(st[name], float)
        q = q[:, None, None] if q.ndim else q
        z = Z[:, None]
        if har:
            w = 2 * np.pi * q
            k2 = -1j * w * mu * (sig + (0 if st["quasistatic"] else 1j * w * st["epsilon"]))
            k = np.sqrt(k2 + 0j)
            k = np.where(k.imag > 0, -k, k)
            with np.errstate(over="ignore"):
                ph = np.exp(1j * k * z)
            e = e0 * ph
            b = -k / w * e
            tol = 1e-11 + 3e-15 * np.abs(k * z)
        else:
            e, b = (e0 * v for v in transient(z, q, sig, mu))
            tol = 1e-11 + 3e-15 * mu * sig * z ** 2 / q
        fin = np.isfinite(e)
        t.step(4)
        E, J, H, B = (np.asarray(getattr(o, m)(XYZ)) for m in ("electric_field", "current_density", "magnetic_field", "magnetic_flux_density"))
        shp = e[..., 0].shape + (3,)
        for nm, got, want, sc in (("electric field", E, e * n, e), ("flux density", B, b * zn, b), ("magnetic field", H, b / mu * zn, b / mu), ("current density", J, sig * e * n, sig * e)):
            t.check(got.shape == shp, nm + " shape", got=got.shape)
            t.close(nm, np.where(fin, got, 0), np.where(fin, want, 0), tol=1, scale=np.where(fin, tol * np.abs(sc), 0) + 1e-290, **st)
        for i in (0, 3):
            t.step(2)
            t.close("electric field, one point", o.electric_field(XYZ[i]), E[..., i, :], tol=1e-12, scale=np.abs(E[..., i, :]).max() + 1e-290)
            t.close("flux density, one point", o.magnetic_flux_density(XYZ[i]), B[..., i, :], tol=1e-12, scale=np.abs(B[..., i, :]).max() + 1e-290)
        if har:
            t.close("amplitude at z = 0", E[..., 0, :], e0 * n + 0 * E[..., 0, :], tol=1e-12, scale=abs(e0) + 1e-290)
            d = np.abs(E[..., :zz[2] if len(zz) > 2 else 6, :] @ n)
            t.check(np.all(np.diff(d, axis=-1) <= 1e-12 * abs(e0)), "decays downwards", **st)
        t.outcome(np.round(np.abs(e[..., 2, :]), 9))

    if "ladder" in case:
        a = case["ladder"]
        base = dict(sigma=[1.0, 1e-6, 30.0][case["medium"]], mu=mu_0, epsilon=epsilon_0, orientation=[3., -4., 0.], amplitude=1.5)
        base.update(dict(quasistatic=case["medium"] == 0, frequency=[1e3, 3e5, 2.0][case["medium"]]) if har else dict(time=[1e-3, 1e-8, 2.0][case["medium"]]))
        if not har:
            del base["epsilon"]
        o = cls(**base)
        for v in LADDERS[a]:
            st = dict(base)
            st[a] = v
            setattr(o, a, v)
            t.state(case["kind"], "ladder", a, repr(v), case["medium"])
            t.step(2)
            if har:
                w = 2 * np.pi * st["frequency"]
                L = 1 / np.abs(np.sqrt(-1j * w * st["mu"] * (st["sigma"] + (0 if st["quasistatic"] else 1j * w * st["epsilon"]))))
            else:
                L = np.sqrt(4 * st["time"] / (st["mu"] * st["sigma"])) / 4
            z = ZL * L
            zz[:] = [z, np.stack([0.3 + z, 2 * z - 5, z], -1), int((ZL <= 0).sum())]
            oracle(o, st)
            oracle(cls(**st), st)
        return
    dom = {"sigma": [case["sigma"], 0.03], "mu": [case["mu"]], name: [(FREQ if har else TIME)[case["i"]], (FREQ if har else TIME)[0]],
           "amplitude": AMP, "orientation": ORI}
    if har:
        dom.update(epsilon=EPS, quasistatic=[False, True])
    walk(t, case["kind"], cls, dom, oracle, fresh=True)
    dom.update(sigma=SIG, mu=MU, amplitude=AMP[1:2], orientation=ORI[3:4])
    walk(t, case["kind"], cls, dom, oracle, fresh=False)
