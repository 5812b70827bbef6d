"""C12: magnetic dipole above a layered earth."""
import itertools

import numpy as np
from scipy.constants import epsilon_0, mu_0
from scipy.special import jv

from .. import ref
from ..conf import conf
from ..core import ladder
from ..walk import SMALL, axis_points, small_components
from .c13 import forward

MODELS = {  # thickness, sigma, mu_r, eps_r
    "half": (None, [0.1], [1.0], [1.0]),
    "conductive half": ([], [3.0], [1.0], [1.0]),
    "magnetic half": ([], [0.1], [2.5], [1.0]),
    "two": ([10.0], [0.01, 1.0], [1.0, 1.0], [1.0, 1.0]),
    "two magnetic": ([4.0], [0.5, 0.02], [3.0, 1.0], [1.0, 1.0]),
    "three": ([5.0, 20.0], [0.02, 1.0, 0.1], [1.0, 1.0, 1.0], [4.0, 1.0, 80.0]),
    "three mixed": ([1.0, 8.0], [0.3, 0.01, 2.0], [1.0, 4.0, 1.5], [1.0, 10.0, 1.0]),
    "polarisable": ([6.0], [0.1 + 0.02j, 0.5], [1.0, 1.2 + 0.1j], [1.0, 1.0]),
    "five": ([3.0, 3.0, 30.0, 1.0], [0.1, 1.0, 0.01, 5.0, 0.05], [1.0, 2.0, 1.0, 1.0, 1.0], [1.0] * 5),
}
FREQ = [10.0, 900.0, 3e4]
HEI = [0.0, 2.0, 30.0]
ORI = ["Z", "X", "Y", [1., 2., -3.], [0., 0., -1.]]
MOM = [1.0, -2.5]
# relative to the source: offsets comparable to, or larger than, the height
PTS = np.array([[10., 0, 5.], [-3., 4., 1.0], [40., -30., 8.], [0., 25., 3.], [-70., -20., 12.], [8., 8., 20.], [150., 60., 30.]])

THROUGH = {"sigma top": (1e-8, 1e5), "sigma all": (1e-8, 1e5), "sigma bottom": (1e-8, 1e5), "frequency": (1e-3, 1e8), "thickness": (1e-6, 1e6), "height": (1e-3, 150.0), "size": (1e-3, 1e5), "offset": (0.1, 40.0),
           "mu": (1.0, 1e4), "epsilon": (1.0, 1e4), "moment": (1e-12, 1e12)}


def bounds(tier):
    return {"models": list(MODELS), "frequencies": FREQ, "source heights": HEI, "orientations": ORI, "moments": MOM, "receivers": PTS,
            "layers, frequencies, receivers": COUNTS, "height of receiver over source, in offsets": LEVEL, "ladders": {k: "%g to %g, %d per decade" % (a, b, 6 if tier == "thorough" else 2) for k, (a, b) in THROUGH.items()}, "quasistatic": [False, True], "small components": "one component of the orientation 1e-1 to 1e-9 of another, receivers on the axes"}


def cases(tier):
    conf()
    return [dict(c, fallback=i) for c in _cases() for i in (0, 1)] + [{"k": "through", "what": w, "model": m, "fallback": i} for w in THROUGH for m in ("two", "three mixed") for i in (0, 1)]


def _cases():
    return ([{"k": "count", "n": n} for n in COUNTS] + [{"k": "level", "model": m, "h": h} for m in ("half", "three mixed") for h in HEI + [200.0]] + [{"k": "quad", "model": m, "h": h, "qs": q} for m in MODELS for h in HEI for q in (False, True)]
            + [{"k": "inv", "model": m, "h": h} for m in MODELS for h in HEI] + [{"k": "small", "model": m, "h": h} for m in ("half", "three mixed") for h in HEI] + [{"k": "uniform", "s": s, "f": f} for s in (0.01, 1.0) for f in FREQ])


COUNTS = list(range(1, 21)) + [31, 32, 33, 50, 64, 65, 100]


def count(case, t, cls):
    """Many layers, frequencies and receivers: against the quadrature, and each as if alone."""
    n = case["n"]
    from .c13 import stack
    sig, mu, th = stack(n, 1)
    sig, mu, th = sig[:, 0].real, mu[:, 0].real.astype(complex) * mu_0 / (4e-7 * np.pi) + 0.0, th
    mu = np.maximum(mu.real, mu_0)
    eps = np.full(n, epsilon_0)
    x = PTS[[0, 1, 5]]
    f = [900.0, 3e4]
    for ori in ("Z", [1.0, 2.0, -3.0]):
        t.state("layers", n, ori)
        t.step()
        o = cls(f, th, sigma=sig, mu=mu, location=[0.0, 0.0, 3.0], orientation=ori, moment=1.7, quasistatic=True)
        got = field(o, x, "secondary", 2)
        for a, b in itertools.product(range(2), range(len(x))):
            q, sc = quadrature(x[b], 3.0, ref.unit(ori), f[a], sig.astype(complex), mu.astype(complex), eps, th, True)
            q = q * 1.7 / (4 * np.pi)
            t.close("Hankel quadrature of many layers", got[a, b], q, tol=1, scale=1e-4 * np.sqrt((abs(q) ** 2).sum()) + 1e-6 * sc * 1.7 / (4 * np.pi), layers=n, ori=ori, x=x[b], frequency=f[a])
    # many frequencies and receivers of a small model
    th, sig, mu, eps = props("three mixed")
    F = 10.0 ** (3.0 + 1.5 * np.sin(np.arange(n) * 0.9))
    kw = dict(sigma=sig, mu=mu, epsilon=eps, location=[1.0, -2.0, 3.0], orientation=[1.0, 2.0, -3.0], moment=1.7)
    for m in (1, 2, 3, n, 40):
        t.state("numbers", n, m)
        X = PTS[np.arange(m) * 3 % len(PTS)] + 0.25 * np.arange(m)[:, None] * np.array([1.0, 1.0, 0.0])
        for which in ("secondary", "total"):
            t.step()
            got = field(cls(F, th, **kw), X, which, n)
            for a, b in itertools.product(sorted({0, 1, n // 3, n // 2, n - 2, n - 1} & set(range(n))), sorted({0, m // 3, m // 2, m - 1})):
                t.step()
                one = field(cls(F[a], th, **kw), X[b:b + 1], which, 1)[0, 0]
                t.close("one of many frequencies and receivers", got[a, b], one, tol=1e-9, frequencies=n, receivers=m, at=(a, b), field=which)
    t.sample(case)


LEVEL = [0.0] + [s * 10.0 ** -k for k in range(0, 16) for s in (1.0, -1.0)]


def level(case, t, cls):
    """Receivers level with the source, and above or below it by every fraction of the offset: the primary part is the exact dipole."""
    th, sig, mu, eps = props(case["model"])
    h = case["h"]
    loc = np.array([20., -7., h])
    for r, ori, qs in itertools.product((1.0, 10.0, 300.0), ORI, (False, True)):
        ang = np.arange(len(LEVEL)) * 0.77
        x = loc + np.stack([r * np.cos(ang), r * np.sin(ang), r * np.array(LEVEL)], -1)
        x = x[x[:, 2] >= 0]
        t.state("level", case["model"], h, r, ori, qs)
        t.step(2)
        o = cls(FREQ, th, sigma=sig, mu=mu, epsilon=eps, location=loc, orientation=ori, moment=-2.5, quasistatic=qs)
        d = field(o, x, "total", 3) - field(o, x, "secondary", 3)
        P = ref.mdipole_B(x, loc, -2.5 * ref.unit(ori), 1.0)
        sc = ref.norm(P) + 1e-4 * np.max(np.abs(field(o, x, "secondary", 3)), axis=(0, 2))[:, None]
        t.close("primary field of receivers almost level with the source", d, P[None] + 0 * d, tol=1e-10, scale=sc, ori=ori, h=h, offset=r)
        t.outcome(np.round(d[0, 0] / np.abs(d[0, 0]).max(), 6))
    t.sample(case)


def props(model):
    th, s, m, e = MODELS[model]
    return th, np.array(s, complex), mu_0 * np.array(m, complex), epsilon_0 * np.array(e, complex)


def quadrature(x, h, n, f, sig, mu, eps, th, qs):
    """Secondary field, in units of m/(4 pi), by Gauss-Legendre panels over the wavenumber."""
    d = x - np.array([0, 0, h])
    r = np.hypot(d[0], d[1])
    c, s = d[0] / r, d[1] / r
    H = x[2] + h
    lmax = 45 / H
    npan = int(lmax * r / 4) + 8
    edges = np.concatenate([[0.0], np.geomspace(lmax / npan * 1e-7, lmax / npan, 24)[:-1], np.linspace(lmax / npan, lmax, npan)])
    xg, wg = np.polynomial.legendre.leggauss(12)
    lam = (edges[:-1, None] + edges[1:, None]) / 2 + np.diff(edges)[:, None] / 2 * xg
    w = (np.diff(edges)[:, None] / 2 * wg).ravel()
    lam = lam.ravel()
    sh = sig if qs else sig + 2j * np.pi * f * eps
    R = forward(f, lam, sh, mu, th, np) * np.exp(-lam * H) * w
    j0, j1 = jv(0, lam * r), jv(1, lam * r)
    I0, I1, I2 = np.sum(R * lam ** 2 * j0), np.sum(R * lam * j1) / r, np.sum(R * lam ** 2 * j1)
    X, Y, Z = n
    return np.array([X * (c * c * I0 + (1 - 2 * c * c) * I1) + Y * c * s * (I0 - 2 * I1) + Z * c * I2,
                     X * c * s * (I0 - 2 * I1) + Y * (s * s * I0 + (1 - 2 * s * s) * I1) + Z * s * I2,
                     -(X * c + Y * s) * I2 + Z * I0]), abs(1 / H ** 3)


def field(o, x, which, nf):
    return np.asarray(o.magnetic_field(x, field=which)).reshape(nf, len(x), 3)


def small(case, t, cls):
    """Directions with one component up to 1e9 times smaller than another, at points on the axes."""
    th, sig, mu, eps = props(case["model"])
    for f, reach in itertools.product((FREQ, FREQ[1]), (2.0, 20.0)):
        loc = [1.0, -2.0, case["h"]]
        x = axis_points(loc, "above", reach)

        def fields(v):
            o = cls(f, th, sigma=sig, mu=mu, epsilon=eps, location=loc, orientation=v, moment=1.7)
            return [field(o, x, w, np.size(f)) for w in ("secondary", "total")]
        if not small_components(t, "the dipole", fields, True, eps=SMALL if t.thorough else SMALL[::2], noise=1e-10, model=case["model"], height=case["h"], frequency=f, reach=reach):
            return
    t.sample(case)


def through(case, t, cls):
    """One quantity through all orders of magnitude, against the quadrature."""
    w = case["what"]
    th0, s0, m0, e0 = props(case["model"])
    th0 = np.array(th0)
    base = PTS[[0, 1, 3, 5]]
    for v in ladder(*THROUGH[w], 6 if t.thorough else 2):
        sig, mu, eps, th, h, x, mom, f = s0.copy(), m0.copy(), e0.copy(), th0.copy(), 3.0, base.copy(), 1.7, 3e4
        if w == "sigma top":
            sig[0] = v
        elif w == "sigma bottom":
            sig[-1] = v
        elif w == "sigma all":
            sig = sig * v
        elif w == "frequency":
            f = v
        elif w == "thickness":
            th[-1] = v
        elif w == "height":
            h = v
            x = x + np.array([0.0, 0.0, 0.0])
        elif w == "size":
            th, h, x = th * v, h * v, x * v
        elif w == "offset":
            x = x * np.array([v, v, 1.0])
        elif w == "mu":
            mu[0] = v * mu_0
        elif w == "epsilon":
            eps[-1] = v * epsilon_0
            f = 3e6
        else:
            mom = v
        keep = np.hypot(x[:, 0], x[:, 1]) < 40 * (x[:, 2] + h)
        x = x[keep]
        for ori, qs in itertools.product(("Z", [1.0, 2.0, -3.0]), (False, True)):
            # the digital filters resolve lossy ground only (conduction not below displacement currents)
            if not len(x) or not qs and np.min(sig.real / (2 * np.pi * f * eps.real)) < 1.0:
                continue
            t.state("through", w, case["model"], v, ori, qs)
            t.step()
            n = ref.unit(ori)
            o = cls(f, th, sigma=sig, mu=mu, epsilon=eps, location=[0.0, 0.0, h], orientation=ori, moment=mom, quasistatic=qs)
            got = field(o, x, "secondary", 1)[0]
            for b in range(len(x)):
                q, sc = quadrature(x[b], h, n, f, sig, mu, eps, th, qs)
                q = q * mom / (4 * np.pi)
                t.close("Hankel quadrature", got[b], q, tol=1, scale=1e-4 * np.sqrt((abs(q) ** 2).sum()) + 1e-6 * sc * abs(mom) / (4 * np.pi), through=w, value=v, ori=ori, quasistatic=qs, x=x[b])
    t.sample({"through": w, "model": case["model"]})


def run_case(case, t):
    fdem = conf()[case.get("fallback", 0)]["fdem"]
    cls, MagneticDipoleHalfSpace = fdem.MagneticDipoleLayeredHalfSpace, fdem.MagneticDipoleHalfSpace
    if case["k"] == "count":
        return count(case, t, cls)
    if case["k"] == "level":
        return level(case, t, cls)
    if case["k"] == "through":
        return through(case, t, cls)
    if case["k"] == "small":
        return small(case, t, cls)
    if case["k"] == "uniform":
        s, f = case["s"], case["f"]
        ang = np.deg2rad([0., 60., 200., 290.])
        for ori, mom, q in itertools.product(ORI, MOM, (False, True)):
            # offsets of 0.05 to 5 skin depths on the surface
            dl = np.sqrt(2 / (2 * np.pi * f * mu_0 * s))
            x = np.concatenate([a * dl * np.stack([np.cos(ang), np.sin(ang), 0 * ang], -1) for a in (0.05, 0.5, 1.7, 5.)])
            base = MagneticDipoleHalfSpace(f, sigma=s, orientation=ori, moment=mom, quasistatic=q)
            for which in ("secondary", "total"):
                want = base.magnetic_field(x, field=which)
                P = ref.mdipole_B(x, np.zeros(3), mom * ref.unit(ori), 1.0)
                sc = ref.norm(P)
                for th in (None, [3.0], [1.0, 0.2 * dl, 30.0]):
                    t.state("uniform", s, f, ori, mom, q, th, which)
                    t.step(2)
                    o = cls(f, th, sigma=s, orientation=ori, moment=mom, quasistatic=q)
                    t.close("uniform stack", field(o, x, which, 1)[0], want, tol=1e-6, scale=sc, thickness=th)
        return
    th, sig, mu, eps = props(case["model"])
    h = case["h"]
    loc = np.array([20., -7., h])
    x = PTS + np.array([20., -7., 0.])
    thv = np.array([] if th is None else th)
    n_layer = len(thv) + 1
    if case["k"] == "quad":
        o = None
        for ori, mom, fr in itertools.product(ORI, MOM, (FREQ, [FREQ[1]], [FREQ[2], FREQ[0]])):
            n = ref.unit(ori)
            t.state("quad", case["model"], h, ori, mom, fr, case["qs"])
            t.step(3)
            kw = dict(sigma=sig, mu=mu, epsilon=eps, location=loc, orientation=ori, moment=mom, quasistatic=case["qs"])
            o = cls(np.array(fr), th, **kw)
            got = field(o, x, "secondary", len(fr))
            tot = field(o, x, "total", len(fr))
            t.close("default is secondary", np.asarray(o.magnetic_field(x)).reshape(got.shape), got, tol=1e-13, scale=np.abs(got).max())
            P = ref.mdipole_B(x, loc, mom * n, 1.0)
            t.close("total - secondary", tot - got, P[None] + 0 * got, tol=1e-10, scale=ref.norm(P), ori=ori)
            for a, f in enumerate(fr):
                for b in range(len(x)):
                    w, sc = quadrature(x[b] - [20., -7., 0.], h, n, f, sig, mu, eps, thv, case["qs"])
                    w = w * mom / (4 * np.pi)
                    t.close("Hankel quadrature", got[a, b], w, tol=1, scale=1e-4 * np.sqrt((abs(w) ** 2).sum()) + 1e-6 * sc * abs(mom) / (4 * np.pi),
                            model=case["model"], ori=ori, f=f, h=h, x=x[b])
            t.outcome(np.round(got[0, 0] / (np.abs(got[0, 0]).max() + 1e-300), 6))
        return
    # invariances, all exact up to rounding
    for ori, qs, which in itertools.product(ORI, (False, True), ("secondary", "total")):
        kw = dict(location=loc, orientation=ori, moment=1.7, quasistatic=qs)
        fr = np.array(FREQ)
        mk = lambda f, th_, s_, m_, e_: cls(f, th_, sigma=s_, mu=m_, epsilon=e_, **kw)
        base = field(mk(fr, th, sig, mu, eps), x, which, 3)
        sc = np.sqrt((np.abs(base) ** 2).sum(-1, keepdims=True)) + 1e-4 / (h + x[:, 2:]) ** 3 / (4 * np.pi) * 1.7
        d = dict(model=case["model"], h=h, ori=ori, quasistatic=qs, field=which)

        def same(what, o, tol=1e-8):
            t.step()
            t.state(what, case["model"], h, ori, qs, which)
            t.close(what, field(o, x, which, 3), base, tol=tol, scale=sc, **d)
        # splitting each layer (the half-space too), at several places
        for j in range(n_layer):
            for a in (0.5, 0.01, 0.9):
                t2 = list(thv)
                if j < n_layer - 1:
                    t2[j:j + 1] = [a * thv[j], (1 - a) * thv[j]]
                else:
                    t2 = t2 + [17.0 * a]
                dup = lambda v: np.insert(v, j, v[j])
                same("split layer", mk(fr, np.array(t2), dup(sig), dup(mu), dup(eps)))
            # a layer of no thickness is not there
            t2 = np.insert(thv, j, 0.0)
            same("empty layer", mk(fr, t2, np.insert(sig, j, 0.77), np.insert(mu, j, 2 * mu_0), np.insert(eps, j, 3 * epsilon_0)))
        # nothing below many skin depths matters
        same("deep layer", mk(fr, np.append(thv, 40 * np.sqrt(2 / (2 * np.pi * FREQ[0] * mu_0 * 0.01))), np.append(sig, 9.0), np.append(mu, 3 * mu_0), np.append(eps, epsilon_0)))
        # per layer, per layer and frequency, and scalars
        til = lambda v: np.tile(v[:, None], (1, 3))
        for a, b, c in itertools.product((0, 1), repeat=3):
            same("per frequency", mk(fr, th, til(sig) if a else sig, til(mu) if b else mu, til(eps) if c else eps), 1e-12)
        same("Fortran order", mk(fr, th, np.asfortranarray(til(sig)), np.asfortranarray(til(mu)), np.asfortranarray(til(eps))), 1e-12)
        same("lists", mk(list(FREQ), None if th is None else list(thv), list(sig), list(mu), list(eps)), 1e-12)
        if n_layer == 1:
            same("scalars", mk(fr, th, complex(sig[0]), complex(mu[0]), complex(eps[0])), 1e-12)
        # genuinely frequency-dependent properties: column by column
        fs = sig[:, None] * np.array([1., 2., 0.3])
        fm = mu[:, None] * np.array([1., 1.5, 1.1])
        fe = eps[:, None] * np.array([1., 7., 2.])
        dep = field(mk(fr, th, fs, fm, fe), x, which, 3)
        for i in range(3):
            t.step()
            t.close("frequency-dependent", field(mk(fr[i:i + 1], th, fs[:, i], fm[:, i], fe[:, i]), x, which, 1)[0], dep[i], tol=1e-8, scale=sc[i], **d)
        # other frequencies and receivers do not matter
        for p in itertools.permutations(range(3)):
            t.step()
            t.close("frequency order", field(mk(fr[list(p)], th, sig, mu, eps), x, which, 3), base[list(p)], tol=1e-9, scale=sc[list(p)], **d)
        for i in range(3):
            t.step()
            t.close("one frequency", field(mk(FREQ[i], th, sig, mu, eps), x, which, 1)[0], base[i], tol=1e-8, scale=sc[i], **d)
        o = mk(fr, th, sig, mu, eps)
        for sel in ([0], [3], [1, 0], [2, 1, 0], [6, 5, 4, 3, 2, 1, 0], [0, 0, 0], [4, 2, 4, 1]):
            t.step()
            t.close("receivers", field(o, x[sel], which, 3), base[:, sel], tol=1e-9, scale=sc[:, sel], **d)
        # however near, far, high or different the company is
        for far in ([1e7, 0, 5.0], [-3e4, 4e4, 0.0], [30.0, 10.0, 1e6], [1e-3, 1e-3, 0.0], [1e7, 1e7, 1e7], [0.0, 300.0, 2e3]):
            for at in (0, 3, len(x)):
                t.step()
                got = field(o, np.insert(x, at, np.array([20.0, -7.0, 0.0]) + far, axis=0), which, 3)
                t.close("receivers in company", np.delete(got, at, axis=1), base, tol=1e-9, scale=sc, company=far, **d)
        for ff, at in itertools.product((1e-4, 0.3, 1e7, 3e9), (0, 1, 3)):
            t.step()
            got = field(mk(np.insert(fr, at, ff), th, sig, mu, eps), x, which, 4)
            t.close("frequencies in company", np.delete(got, at, axis=0), base, tol=1e-8, scale=sc, company=ff, **d)
        # reciprocity: m2 . H(source m1 at x1, receiver x2) = m1 . H(source m2 at x2, receiver x1)
        n1 = ref.unit(ori)
        for o2 in ORI:
            n2 = ref.unit(o2)
            for i in range(len(x)):
                t.step()
                back = cls(fr, th, sigma=sig, mu=mu, epsilon=eps, location=x[i], orientation=o2, moment=1.7, quasistatic=qs)
                t.close("reciprocity", field(back, loc[None], which, 3)[:, 0] @ n1, base[:, i] @ n2, tol=1e-9, scale=sc[:, i, 0], o2=o2, x=x[i], **d)
