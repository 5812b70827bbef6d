"""C14: derived medium quantities follow from the assigned ones."""
import itertools

import numpy as np
from scipy.constants import epsilon_0, mu_0

from ..core import ladder
from ..walk import walk

SIG = [1.0, 1e-4, 250.0, 3e-9]
MU = [mu_0, 6 * mu_0]
EPS = [epsilon_0, 80 * epsilon_0, 0.0]
FREQ = [100.0, 7, [1e6], [1e-3, 3e3], [0.1, 20.0, 4e9], (5.0, 6.0), np.array([3.0, 2.0, 1.0, 50.0])]
TIME = [1e-3, 2, [1e-6], [1e-4, 2.0], [1e-5, 1e-3, 30.0], (1.0, 2.0), np.array([3.0, 2.0, 1.0, 50.0])]
QS = [False, True, np.True_, np.False_]


def bounds(tier):
    return {"sigma": SIG, "mu": MU, "epsilon": EPS, "frequency": FREQ, "time": TIME, "quasistatic": ["False", "True", "np.True_", "np.False_"],
            "ladders": "sigma 1e-12..1e9 x frequency 1e-6..1e11 / time 1e-12..1e6, distance 1e-6..1e9", "wires": "2..%d nodes, open and closed, every pair by reassignment" % (11 if tier == "thorough" else 6), "sigma/rho assignment sequences": "all of length <= %d over {sigma, rho} x values" % (4 if tier == "thorough" else 3)}


def cases(tier):
    fd = ["ElectricDipoleWholeSpace", "MagneticDipoleWholeSpace", "HarmonicPlaneWave", "MagneticDipoleHalfSpace"]
    td = ["ElectricDipoleWholeSpace", "TransientPlaneWave", "VerticalMagneticDipoleHalfSpace"]
    return ([{"k": "fn"}, {"k": "tfn"}] + [{"k": "fdem", "c": c, "i": i} for c in fd for i in range(len(FREQ))]
            + [{"k": "tdem", "c": c, "i": i} for c in td for i in range(len(TIME))]
            + [{"k": "rho", "m": m, "c": c} for m, cs in (("fdem", fd), ("tdem", td), ("static", ["MagneticDipoleWholeSpace", "CircularLoopWholeSpace"])) for c in cs]
            + [{"k": "layered"}, {"k": "segments"}] + [{"k": "through", "m": m, "e": e} for m in (1.0, 6.0, 1e4) for e in (0.0, 1.0, 80.0)])


def kref(w, s, m, e, qs):
    k2 = (0 if qs else w ** 2 * m * e) - 1j * w * m * s
    k = np.sqrt(k2 + 0j)
    return np.where(k.imag > 0, -k, k)


def skin(t, what, got, w, s, m, e, qs, **d):
    w = np.asarray(w, float)
    if qs:
        t.close(what, got, np.sqrt(2 / (w * m * s)), tol=1e-12, vec=False, **d)
        return
    # the distance over which a plane wave decays by 1/e
    x = (s / (w * e)) ** 2 if e else None
    if e:
        want = 1 / (w * np.sqrt(m * e / 2) * np.sqrt(x / (np.sqrt(1 + x) + 1)))
        cur = np.sqrt(m * e / 2 * (np.sqrt(1 + x) - 1)) / w
    else:
        want, cur = np.sqrt(2 / (w * m * s)), None
    g = np.asarray(got)
    if got is not None and g.shape == want.shape and np.all(np.abs(g - want) <= 1e-9 * want):
        t.validated += 1
        return
    t.validated += 1
    if cur is None:
        known = got is None or g.shape == want.shape and not np.isfinite(g).any()
    else:
        # sqrt(1 + x) - 1 cancels for small x: an error of a few ulp of 1
        known = g.shape == cur.shape and np.all(np.abs(g ** 2 - cur ** 2) <= 1e-10 * cur ** 2 + 1e-14 * m * e / 2 / w ** 2)
    if known:
        t.known_finding("skin-depth-full", **d)
    else:
        t.fail(what, got=got, want=want, **d)


def through(case, t):
    """Every pair of conductivity and frequency (time) of two dense ladders, by function and by attribute."""
    from geoana.em import fdem, tdem
    n = 6 if t.thorough else 2
    F, TM = np.array(ladder(1e-6, 1e11, n)), np.array(ladder(1e-12, 1e6, n))
    Z = np.array(ladder(1e-6, 1e9, n))
    m, e = case["m"] * mu_0, case["e"] * epsilon_0
    of, ot = fdem.ElectricDipoleWholeSpace(frequency=1.0, mu=m, epsilon=e), tdem.ElectricDipoleWholeSpace(time=1.0, mu=m)
    oh = fdem.HarmonicPlaneWave(frequency=F, mu=m, epsilon=e)
    w = 2 * np.pi * F
    for s in ladder(1e-12, 1e9, n):
        d = dict(sigma=s, mu=m, epsilon=e)
        t.state("sigma", repr(case), s)
        for qs in (False, True):
            t.step(4 * len(F))
            k = kref(w, s, m, e, qs)
            of.frequency, of.sigma, of.quasistatic = F, s, qs
            oh.rho, oh.quasistatic = 1 / s, qs
            for what, got, want, tol in (("omega", fdem.omega(F), w, 1e-13), ("sigma_hat", fdem.sigma_hat(F, s, e, quasistatic=qs) + 0 * F, s + (0 if qs else 1j * w * e) + 0 * F, 1e-13),
                                         ("wavenumber", fdem.wavenumber(F, s, m, e, quasistatic=qs), k, 1e-12),
                                         ("omega attribute", of.omega, w, 1e-13), ("sigma_hat attribute", of.sigma_hat + 0 * F, s + (0 if qs else 1j * w * e) + 0 * F, 1e-13), ("wavenumber attribute", of.wavenumber, k, 1e-12),
                                         ("wavenumber of a wave", oh.wavenumber, k, 1e-12)):
                t.close(what, np.real(got), np.real(want), tol, vec=False, quasistatic=qs, **d)
                t.close(what + ", imaginary part", np.imag(got), np.imag(want), tol, scale=np.abs(np.imag(want)), vec=False, quasistatic=qs, **d)
            for i, f in enumerate(F):
                # each frequency by itself: as a number, and as an array of one
                f = f if i % 2 else np.array([f])
                of.frequency = f
                wi, ki, si = w[i] + 0 * f, k[i] + 0 * f, s + (0 if qs else 1j * w[i] * e) + 0 * f
                for what, got, want, tol in (("omega", of.omega, wi, 1e-13), ("sigma_hat", of.sigma_hat + 0 * f, si, 1e-13), ("wavenumber", of.wavenumber, ki, 1e-12),
                                             ("sigma_hat of", fdem.sigma_hat(f, s, e, quasistatic=qs) + 0 * f, si, 1e-13), ("wavenumber of", fdem.wavenumber(f, s, m, e, quasistatic=qs), ki, 1e-12)):
                    t.close(what + " one frequency", np.real(got), np.real(want), tol, vec=False, frequency=f, quasistatic=qs, **d)
                    t.close(what + " one frequency, imaginary part", np.imag(got), np.imag(want), tol, scale=np.abs(np.imag(want)), vec=False, frequency=f, quasistatic=qs, **d)
                if qs:
                    skin(t, "skin_depth of one frequency", of.skin_depth, wi, s, m, e, True, frequency=f, **d)
            of.frequency = F
        skin(t, "skin_depth", fdem.skin_depth(F, s, m, e, quasistatic=True), w, s, m, e, True, **d)
        skin(t, "skin_depth attribute", of.skin_depth, w, s, m, e, True, **d)
        if e:
            skin(t, "skin_depth", fdem.skin_depth(F, s, m, e, quasistatic=False), w, s, m, e, False, **d)
        t.close("rho", oh.rho, 1 / s, tol=1e-14)
        t.close("sigma", oh.sigma, s, tol=1e-14)
        t.step(6 * len(TM))
        ot.time, ot.sigma = TM, s
        for what, got, want in (("diffusion_distance", tdem.diffusion_distance(TM, s, m), np.sqrt(2 * TM / (m * s))), ("theta", tdem.theta(TM, s, m), np.sqrt(m * s / (4 * TM))), ("peak_time", tdem.peak_time(Z, s, m), m * s * Z ** 2 / 6),
                                ("diffusion_distance attribute", ot.diffusion_distance, np.sqrt(2 * TM / (m * s))), ("theta attribute", ot.theta, np.sqrt(m * s / (4 * TM))), ("peak_time method", ot.peak_time(-Z), m * s * Z ** 2 / 6)):
            t.close(what, got, want, 1e-13, vec=False, **d)
    t.sample({"through": case})


def segments(t):
    """The number of segments of every wire of 2..most nodes, and after every reassignment of the nodes."""
    from geoana.em import static
    most = 12 if t.thorough else 7
    wires = [np.c_[np.arange(n), np.arange(n) % 2, np.arange(n) // 2].astype(float) for n in range(2, most)]
    wires += [np.r_[w, w[:1]] for w in wires if len(w) > 2]  # closed
    for w in wires:
        for v in wires:
            t.state("wire", len(w), len(v))
            t.step(2)
            o = static.LineCurrentWholeSpace(nodes=w.tolist())
            t.check(o.n_segments == len(w) - 1, "segments of a wire", got=o.n_segments, nodes=len(w))
            o.nodes = v
            t.check(o.n_segments == len(v) - 1, "segments after new nodes", got=o.n_segments, nodes=len(v))
    t.sample({"wires": [len(w) for w in wires]})


def run_case(case, t):
    k = case["k"]
    if k == "through":
        return through(case, t)
    if k == "segments":
        return segments(t)
    if k == "fn":
        from geoana.em import fdem
        for s, m, e, f, qs in itertools.product(SIG, MU, EPS, FREQ, QS):
            fa = np.asarray(f, float)
            if isinstance(f, (list, tuple)):
                f = fa
            w = 2 * np.pi * fa
            d = dict(sigma=s, mu=m, epsilon=e, frequency=f, quasistatic=bool(qs))
            t.state("fn", s, m, e, repr(f), repr(qs))
            t.step(4)
            t.close("omega", fdem.omega(f), w, tol=1e-13, vec=False, **d)
            t.close("sigma_hat", np.asarray(fdem.sigma_hat(f, s, e, quasistatic=qs)), (s + 0 * w if not qs else np.asarray(s)) + (0 if qs else 1j * w * e), tol=1e-13, vec=False, **d)
            t.close("wavenumber", fdem.wavenumber(f, s, m, e, quasistatic=qs), kref(w, s, m, e, qs), tol=1e-12, vec=False, **d)
            try:
                got = fdem.skin_depth(f, s, m, e, quasistatic=qs)
            except ZeroDivisionError:
                if e or qs:
                    raise
                got = None
            skin(t, "skin_depth", got, w, s, m, e, qs, **d)
            t.outcome("fn", repr(got))
        # defaults
        t.close("sigma_hat default", fdem.sigma_hat(10., 2.), 2 + 20j * np.pi * epsilon_0, tol=1e-13)
        t.close("wavenumber default", fdem.wavenumber(10., 2.), kref(20 * np.pi, 2., mu_0, epsilon_0, False), tol=1e-12)
        t.close("skin_depth default", fdem.skin_depth(10., 2.), np.sqrt(2 / (20 * np.pi * mu_0 * 2)), tol=1e-12)
        t.step(3)
        return
    if k == "tfn":
        from geoana.em import tdem
        Z = [0.0, -3.5, 100, np.array([1., -2., 30.]), np.array([[1., 2.], [3., 4.]])]
        for s, m in itertools.product(SIG, MU):
            for z in Z:
                t.state("peak", s, m, repr(z))
                t.step(2)
                t.close("peak_time", tdem.peak_time(z, s, m), m * s * np.asarray(z) ** 2 / 6, tol=1e-13, vec=False)
                t.close("peak_time", tdem.peak_time(z, s, mu=m), m * s * np.asarray(z) ** 2 / 6, tol=1e-13, vec=False)
            for tm in TIME:
                tm = tm if np.ndim(tm) == 0 else np.asarray(tm, float)
                t.state("time", s, m, repr(tm))
                t.step(2)
                t.close("diffusion_distance", tdem.diffusion_distance(tm, s, m), np.sqrt(2 * np.asarray(tm) / (m * s)), tol=1e-13, vec=False)
                t.close("theta", tdem.theta(tm, s, m), np.sqrt(m * s / (4 * np.asarray(tm))), tol=1e-13, vec=False)
        # arguments broadcast against each other
        zz, ss, mm = np.array([[1.], [2.]]), np.array([0.1, 1., 5.]), mu_0 * np.array([[[1.]], [[2.]]])
        t.step(6)
        t.close("peak_time broadcast", tdem.peak_time(zz, ss, mm), mm * ss * zz ** 2 / 6, tol=1e-13, vec=False)
        t.close("diffusion_distance broadcast", tdem.diffusion_distance(zz, ss, mm), np.sqrt(2 * zz / (mm * ss)), tol=1e-13, vec=False)
        t.close("theta broadcast", tdem.theta(zz, ss, mm), np.sqrt(mm * ss / (4 * zz)), tol=1e-13, vec=False)
        t.close("peak_time default", tdem.peak_time(3., 2.), mu_0 * 3., tol=1e-12)
        t.close("diffusion_distance default", tdem.diffusion_distance(3., 2.), np.sqrt(3 / mu_0), tol=1e-12)
        t.close("theta default", tdem.theta(3., 2.), np.sqrt(mu_0 / 6), tol=1e-12)
        return
    if k == "fdem":
        from geoana.em import fdem
        cls = getattr(fdem, case["c"])

        def oracle(o, st):
            f = np.asarray(st["frequency"], float)
            w = 2 * np.pi * f
            s, m, e, qs = st["sigma"], st["mu"], st["epsilon"], bool(st["quasistatic"])
            t.step(6)
            t.close("frequency", o.frequency, f, tol=0, scale=1.0)
            t.close("omega attribute", o.omega, w, tol=1e-13, vec=False, **st)
            sh = s + (0 if qs else 1j * w * e)
            g = np.asarray(o.sigma_hat)
            t.check(g.shape in (np.shape(sh), f.shape), "sigma_hat attribute shape", got=g.shape)
            t.close("sigma_hat attribute", g + 0j + 0 * f, sh + 0j + 0 * f, tol=1e-13, vec=False, **st)
            t.close("wavenumber attribute", o.wavenumber, kref(w, s, m, e, qs), tol=1e-12, vec=False, **st)
            t.outcome(repr(g), repr(o.rho))
            skin(t, "skin_depth attribute", o.skin_depth, w, s, m, e, qs, **st)
            t.close("rho", o.rho, 1 / s, tol=1e-14)
            t.check(o.sigma == s and o.mu == m and o.epsilon == e and bool(o.quasistatic) is qs, "assigned values", **st)
        walk(t, "fdem" + case["c"], cls, {"frequency": [FREQ[case["i"]], FREQ[0], FREQ[4]], "sigma": SIG, "mu": MU, "epsilon": EPS, "quasistatic": QS}, oracle)
        return
    if k == "tdem":
        from geoana.em import tdem
        cls = getattr(tdem, case["c"])

        def oracle(o, st):
            tm = np.asarray(st["time"], float)
            s, m = st["sigma"], st["mu"]
            t.step(5)
            t.close("time", o.time, tm, tol=0, scale=1.0)
            t.close("diffusion_distance attribute", o.diffusion_distance, np.sqrt(2 * tm / (m * s)), tol=1e-13, vec=False, **st)
            t.outcome(repr(o.theta))
            t.close("theta attribute", o.theta, np.sqrt(m * s / (4 * tm)), tol=1e-13, vec=False, **st)
            for z in (0.0, 12, np.array([1., -5., 7.])):
                t.close("peak_time method", o.peak_time(z), m * s * np.asarray(z) ** 2 / 6, tol=1e-13, vec=False, **st)
            t.close("rho", o.rho, 1 / s, tol=1e-14)
        walk(t, "tdem" + case["c"], cls, {"time": [TIME[case["i"]], TIME[0], TIME[4]], "sigma": SIG, "mu": MU, "epsilon": EPS}, oracle)
        return
    if k == "rho":
        import importlib
        mod = importlib.import_module("geoana.em." + case["m"])
        cls = getattr(mod, case["c"])
        kw = {"fdem": {"frequency": 10.0}, "tdem": {"time": 1e-3}, "static": {}}[case["m"]]
        V = [0.5, 20.0, 1e-3]
        ops = [(n, v) for n in ("sigma", "rho") for v in V]
        for depth in range(1, (4 if t.thorough else 3) + 1):
            for seq in itertools.product(ops, repeat=depth):
                o = cls(sigma=3.0, **kw)
                t.state(case["m"], case["c"], seq)
                for n, v in seq:
                    setattr(o, n, v)
                    t.step()
                    s = v if n == "sigma" else 1 / v
                    t.close("sigma after", o.sigma, s, tol=1e-14, seq=seq)
                    t.close("rho after", o.rho, 1 / s, tol=1e-14, seq=seq)
                    if case["m"] == "fdem":
                        o.quasistatic = True
                        t.close("wavenumber after", o.wavenumber, kref(20 * np.pi, s, mu_0, 0., True), tol=1e-12, seq=seq)
                    elif case["m"] == "tdem":
                        t.close("theta after", o.theta, np.sqrt(mu_0 * s / 4e-3), tol=1e-12, seq=seq)
        return
    # layered earth: (n_layer, n_frequency) complex conductivity
    from geoana.em.fdem import MagneticDipoleLayeredHalfSpace as cls
    for th, fr, qs in itertools.product((None, [5.0], [5.0, 2.0]), ([10.0], [1., 1e6], [1., 10., 1e7]), (False, True)):
        n, nf = len(th or []) + 1, len(fr)
        s = np.array([0.1, 1.0, 1e-5])[:n] * (1 + 0j)
        e = epsilon_0 * np.array([1.0, 10., 3.])[:n] * (1 + 0j)
        o = cls(np.array(fr), th, sigma=s, epsilon=e, quasistatic=qs)
        t.state("layered", th, fr, qs)
        t.step()
        w = 2 * np.pi * np.array(fr)
        want = s[:, None] + (0 if qs else 1j * w * e[:, None]) + np.zeros((n, nf))
        try:
            g = np.asarray(o.sigma_hat)
        except ValueError:
            g = None
        t.validated += 1
        ok = lambda a: g is not None and g.shape == a.shape and np.all(np.abs(g - a) <= 1e-12 * np.abs(a))
        if ok(want) or ok(want.T):
            continue
        try:
            cur = (np.tile(s[:, None], (1, nf)) + (0 if qs else 1j * w[:, None] * np.tile(e[:, None], (1, nf)))).T
        except ValueError:
            cur = None
        if (g is None and cur is None) or (cur is not None and ok(cur)):
            t.known_finding("layered-sigma-hat-shape", thickness=th, frequency=fr)
        else:
            t.fail("layered sigma_hat", got=g, want=want, thickness=th, frequency=fr, quasistatic=qs)
