"""C06: compiled and pure-Python kernels are interchangeable."""
import itertools

import mpmath as mp
import numpy as np

from ..conf import conf
from ..core import ladder

TECHNIQUE = "exhaustive enumeration of a kernel argument lattice x both build configurations, differential against each other and against high-precision derivatives"

K = ("prism_f", "prism_fz", "prism_fzz", "prism_fzx", "prism_fzy", "prism_fzzz", "prism_fxxy", "prism_fxxz", "prism_fxyz")
DERIV = {"prism_f": (0, 0, 0), "prism_fz": (0, 0, 1), "prism_fzz": (0, 0, 2), "prism_fzx": (1, 0, 1), "prism_fzy": (0, 1, 1),
         "prism_fzzz": (0, 0, 3), "prism_fxxy": (2, 1, 0), "prism_fxxz": (2, 0, 1), "prism_fxyz": (1, 1, 1)}
VAL = [0.0, 1e-90, 1e-8, 1e-3, 0.5, 1.0, 1.7, 30.0, 1e6, 1e90]
VAL = sorted(set(VAL + [-v for v in VAL]))
VALT = sorted(VAL + [-1e-30, 1e-30, -1e-12, 1e-12, 0.99, -0.99, 3.3, -3.3, 12345.6, -12345.6, 1e30, -1e30])
GEN = [-2.5, -1.0, -0.3, 0.2, 0.9, 4.0]
MU0 = 4e-7 * np.pi

def bounds(tier):
    return {"configurations": ["compiled extensions", "pure Python"], "kernel argument lattice": VALT if tier == "thorough" else VAL,
            "derivative lattice": GEN, "layers": "all stacks of 1..%d of an alphabet; one stack of every number up to 40 and up to 200" % (4 if tier == "thorough" else 3), "arguments at once": "1..70 and up to 65537"}


def cases(tier):
    conf()
    out = [{"k": "config"}]
    v = VALT if tier == "thorough" else VAL
    out += [{"k": "lattice", "x": x} for x in v]
    out += [{"k": "deriv", "fn": f} for f in K]
    out += [{"k": "layout", "fn": f} for f in K]
    out += [{"k": "rte", "n": n, "i": i} for n in range(1, 5 if tier == "thorough" else 4) for i in range(len(SIG))]
    out += [{"k": "rte-ladder", "i": i, "j": j} for i in range(len(RL)) for j in range(4)]
    out += [{"k": "rte-layout"}]
    out += [{"k": "rte-many", "n": n} for n in list(range(1, 41)) + [50, 63, 64, 65, 100, 128, 129, 200]]
    out += [{"k": "many", "fn": f} for f in K]
    out += [{"k": "source", "s": s} for s in ("prism", "mprism", "layered")]
    return out


def limit(fn, x, y, z):
    """Rounding level of each kernel: size of its terms, plus the loss in log(a + r) next to a = -r."""
    e = 1e-13
    r = np.sqrt(x * x + y * y + z * z)
    with np.errstate(all="ignore"):
        def lg(a, b, c):
            s = np.where(a < 0, (b * b + c * c) / (r - a), a + r)
            l = np.abs(np.log(s))
            l = np.where(np.isfinite(l), l, 800)
            # both sides may drop the term altogether, or carry the error of a + r in its log
            return l, np.where(a < 0, np.minimum(900, 2e-15 * r / np.where(s > 0, s, 1e-300)), 0)
        if fn == "prism_f":
            lim = 0 * r
            for a, b, c in ((z, x, y), (x, y, z), (y, x, z)):
                l, d = lg(a, b, c)
                lim = lim + np.abs(b * c) * (e * (1 + l) + d)
            return lim + e * r * r
        if fn == "prism_fz":
            l1, d1 = lg(y, x, z)
            l2, d2 = lg(x, y, z)
            return np.abs(x) * (e * (1 + l1) + d1) + np.abs(y) * (e * (1 + l2) + d2) + 2 * e * np.abs(z)
        if fn in ("prism_fzx", "prism_fzy"):
            l, d = lg(*((y, x, z) if fn == "prism_fzx" else (x, y, z)))
            return e * (1 + l)
        if fn == "prism_fzz":
            return e + 0 * r
    return None


def compare(t, fn, a, b, x, y, z):
    lim = limit(fn, x, y, z)
    if lim is None:
        lim = 1e-12 * np.abs(b) + 1e-295
    fin = np.isfinite(b)
    t.check(np.array_equal(fin, np.isfinite(a)), fn + ": finite in one configuration only",
            at=[q[fin != np.isfinite(a)][:1].tolist() for q in (x, y, z)])
    t.close(fn, np.where(fin, a, 0), np.where(fin, b, 0), tol=1, scale=np.where(np.isfinite(lim), lim, 1e300))


def layouts(v):
    """The same values laid out differently (all have the shape of v, or of its reshape)."""
    yield "C", np.ascontiguousarray(v)
    yield "F", np.asfortranarray(v)
    w = np.empty(v.shape[:-1] + (v.shape[-1] * 2 + 1,)) if v.ndim else np.empty(())
    if v.ndim:
        s = w[..., 1::2][..., :v.shape[-1]]
        s[...] = v
        yield "strided", s
        yield "reversed", np.ascontiguousarray(v[..., ::-1])[..., ::-1]
    ro = v.copy()
    ro.flags.writeable = False
    yield "readonly", ro


SIG = [[0.1, 1.0, 0.01, 3.0], [1e-8, 1e-8, 1e-8, 1e-8], [1.0 + 0.2j, 0.5 + 0j, 1e-3 + 1e-3j, 10.0], [10., 1e-4, 10., 1e-4]]
THICK = [[5., 0.1, 1000.], [0., 10., 1e-6], [1e6, 1., 50.]]
MUS = [[1., 1., 1., 1.], [1.5, 1.0, 4.0, 2.0], [1. + 0.1j, 2.0, 1.0 + 0.5j, 1.2]]
FREQ = [[1e-3], [1., 1e5], [10., 1e3, 1e7]]
LAM = [np.array([1e-6, 1e-3, 0.1, 1.0, 40.0]), np.array([0.5]), np.logspace(-5, 2, 9)]


#: two layers (sigma, mu_r, thickness, frequency, wavenumber); each scaled over many decades in turn
RL = [([1e-3, 10.], [1., 1.], 40., 1e3, 0.05), ([10., 1e-3], [1., 3.], 2., 1e3, 0.05), ([1e-6 + 9e-7j, 2e-6 + 5e-7j], [1., 1.], 1000., 1e4, 1e-4),
      ([0.1 + 0.02j, 1.0], [1.3 + 0.1j, 2.], 5., 30., 0.01)]
RS = [0] + ladder(1e-6, 1e6, 5)


def rte_ladder(i, j):
    """Arguments of the reflection coefficient with the j-th of (thickness, conductivity, frequency, wavenumber) scaled."""
    s, m, h, f, lam = RL[i]
    for v in RS:
        if v == 0 and j != 0:
            continue
        sc = [1.0] * 4
        sc[j] = v
        yield v, (np.array([f * sc[2]]), np.array([lam * sc[3], 1.7 * lam * sc[3]]), np.array(s)[:, None] * sc[1], MU0 * np.array(m)[:, None], np.array([h * sc[0]]))


def run_case(case, t):
    c1, c0 = conf()
    k = case["k"]
    if k == "config":
        t.step(4)
        t.state("config")
        t.check(c1["geoana"].compiled is True and c0["geoana"].compiled is False, "compiled flag")
        import contextlib, io
        for c, w in ((c1, True), (c0, False)):
            with contextlib.redirect_stdout(io.StringIO()):
                d = c["geoana"].show_config()
            t.check(d["compiled"] is w, "show_config", got=d)
        return
    if k == "lattice":
        v = np.array(VALT if t.thorough else VAL)
        y, z = [a.ravel() for a in np.meshgrid(v, v, indexing="ij")]
        x = np.full_like(y, case["x"])
        for q in zip(y, z):
            t.state("arg", case["x"], *q)
        for fn in K:
            t.step(2 * len(x))
            a, b = getattr(c1["k"], fn)(x, y, z), getattr(c0["k"], fn)(x, y, z)
            t.check(a.shape == x.shape and b.shape == x.shape, fn + " shape")
            compare(t, fn, a, b, x, y, z)
            t.outcome(fn, a[:4])
        t.sample({"x": case["x"], "fn": fn, "y,z": "lattice", "first": a[:3]})
        return
    if k == "deriv":
        fn = case["fn"]
        n = DERIV[fn]

        def F(x, y, z):
            r = mp.sqrt(x * x + y * y + z * z)
            return (-x * y * mp.log(z + r) - y * z * mp.log(x + r) - x * z * mp.log(y + r)
                    + (x * x * mp.atan(y * z / (x * r)) + y * y * mp.atan(x * z / (y * r)) + z * z * mp.atan(x * y / (z * r))) / 2)
        pts = np.array(list(itertools.product(GEN, repeat=3)))
        with mp.workdps(40):
            # derivatives with respect to the observation point: (-1)^n times those in x, y, z;
            # constants of integration that cancel in any definite integral are left out by
            # comparing the sums over the eight corners of all cells of the lattice
            if sum(n):
                want = np.array([float((-1) ** sum(n) * mp.diff(F, tuple(mp.mpf(v) for v in p), n)) for p in pts])
            else:
                want = np.array([float(F(*[mp.mpf(v) for v in p])) for p in pts])
        m = len(GEN)
        for c in (c1, c0):
            t.step(len(pts))
            got = getattr(c["k"], fn)(*pts.T.copy())

            def corners(g):
                g = g.reshape(m, m, m)
                for ax in range(3):
                    g = np.diff(g, axis=ax)
                return g
            t.close(fn + " definite", corners(got), corners(want), tol=1e-9, scale=1 + np.abs(corners(want)))
        for p in pts:
            t.state("deriv", fn, p.tolist())
        return
    if k == "layout":
        fn = case["fn"]
        full = np.array(list(itertools.product([-2., -0.5, 0., 1., 3.], [0., -1.5, 2.5], [-1., 0., 2.]))).T
        for shape in ((45,), (1,), (0,), (3,), (3, 15), (5, 3, 3), (9, 5, 1), (1, 45)):
            size = int(np.prod(shape))
            x, y, z = (q[:size].reshape(shape) for q in full)
            want = getattr(c1["k"], fn)(x, y, z)
            for (n1, a), (n2, b), (n3, cc) in itertools.product(list(layouts(x)), list(layouts(y)), list(layouts(z))):
                t.state("layout", fn, shape, n1, n2, n3)
                for c in (c1, c0):
                    t.step()
                    keep = [q.copy() for q in (a, b, cc)]
                    got = getattr(c["k"], fn)(a, b, cc)
                    t.close(fn + " layout", got, want, tol=1e-12, scale=1 + np.abs(want))
                    t.check(all(np.array_equal(p, q) for p, q in zip(keep, (a, b, cc))), fn + " changed its arguments")
        for c in (c1, c0):
            xi, yi, zi = (np.round(q * 2).astype(int) for q in full)
            t.step()
            t.close(fn + " integer arguments", getattr(c["k"], fn)(xi, yi, zi),
                    getattr(c1["k"], fn)(xi * 1., yi * 1., zi * 1.), tol=1e-12, scale=np.ones(xi.shape) * 4)
        return
    if k == "rte":
        n = case["n"]
        base = SIG[case["i"]][:n]
        for h, mu, f, lam in itertools.product(THICK, MUS, FREQ, LAM):
            f = np.array(f)
            nf = len(f)
            sig = np.array(base)[:, None] * (1 + 0.3 * np.arange(nf))[None]
            m = MU0 * np.array(mu)[:n, None] * (1 + 0.1 * np.arange(nf))[None]
            hh = np.array(h[:n - 1])
            t.state("rte", n, case["i"], h, repr(mu), nf, len(lam))
            t.step(4)
            a, b = (c["k"].rTE_forward(f, lam, sig, m, hh) for c in (c1, c0))
            t.close("rTE", a, b, tol=1e-8, scale=np.ones(b.shape))
            ga, gb = (c["k"].rTE_gradient(f, lam, sig, m, hh) for c in (c1, c0))
            t.check(len(ga) == 3 and len(gb) == 3, "three gradients")
            # in units of the parameter itself, the coefficient being at most of order one
            # (mu_0 = 4e-7 pi and mu_0 from CODATA differ by 1.4e-10)
            for name, p, q, u in zip(("dsigma", "dh", "dmu"), ga, gb, (np.abs(sig)[:, :, None], np.maximum(hh, 1e-9)[:, None, None], np.abs(m)[:, :, None])):
                t.close("rTE " + name, p * u, q * u, tol=1e-8, scale=np.abs(q * u) + 1.)
                t.close("rTE relative " + name, p * u, q * u, tol=1e-6, scale=np.abs(q * u) + 1e-9)
            t.outcome(np.round(a, 8))
        return
    if k == "rte-ladder":
        for v, args in rte_ladder(case["i"], case["j"]):
            t.state("rte-ladder", case["i"], case["j"], v)
            t.step(4)
            a, b = (c["k"].rTE_forward(*args) for c in (c1, c0))
            t.close("rTE", a, b, tol=1e-8, scale=np.ones(b.shape), scaled=v)
            ga, gb = (c["k"].rTE_gradient(*args) for c in (c1, c0))
            for name, p, q, u in zip(("dsigma", "dh", "dmu"), ga, gb, (np.abs(args[2])[:, :, None], np.maximum(args[4], 1e-9)[:, None, None], np.abs(args[3])[:, :, None])):
                t.close("rTE " + name, p * u, q * u, tol=1e-8, scale=np.abs(q * u) + 1., scaled=v)
                t.close("rTE relative " + name, p * u, q * u, tol=1e-6, scale=np.abs(q * u) + 1e-9, scaled=v)
        return
    if k == "many":
        fn = case["fn"]
        for n in list(range(1, 71)) + [127, 128, 129, 255, 256, 257, 500, 501, 1000, 1023, 1024, 1025, 4096, 4097, 10007, 65537]:
            i = np.arange(n)
            x, y, z = 3 * np.cos(0.7 * i + 0.3), 2 * np.sin(1.3 * i + 0.1), 4 * np.cos(2.1 * i)
            t.state("many", fn, n)
            t.step(2)
            a, b = getattr(c1["k"], fn)(x, y, z), getattr(c0["k"], fn)(x, y, z)
            if t.check(a.shape == (n,) and b.shape == (n,), fn + " shape"):
                compare(t, fn, a, b, x, y, z)
            if t.violations:
                return
        t.sample(case)
        return
    if k == "rte-many":
        from .c13 import stack
        n = case["n"]
        for nf, nl, thick in itertools.product((1, 2, 5), (1, 3, 40), (1.0, 0.02, 20.0)):
            f, lam = np.geomspace(3.0, 3e3, nf), np.geomspace(1e-3, 3.0, nl)
            sig, mu, h = stack(n, nf)
            h = h * thick
            for real in (False, True):
                t.state("rte-many", n, nf, nl, thick, real)
                t.step(4)
                s2, m2 = (sig.real, mu.real) if real else (sig, mu)
                a, b = (c["k"].rTE_forward(f, lam, s2, m2, h) for c in (c1, c0))
                t.close("rTE of many layers", a, b, tol=1e-8, scale=np.ones(b.shape), layers=n, real=real)
                ga, gb = (c["k"].rTE_gradient(f, lam, s2, m2, h) for c in (c1, c0))
                for name, p, q, u in zip(("dsigma", "dh", "dmu"), ga, gb, (np.abs(s2)[:, :, None], h[:, None, None], np.abs(m2)[:, :, None])):
                    t.close("rTE %s of many layers" % name, p * u, q * u, tol=1e-6, scale=np.abs(q * u) + 1e-9, vec=False, layers=n, real=real)
            if t.violations:
                return
        t.outcome(np.round(a, 8))
        t.sample(case)
        return
    if k == "rte-layout":
        f, lam, hh = np.array([1., 30., 900.]), np.logspace(-3, 1, 5), np.array([4., 20.])
        sig = np.array([0.1, 1., 0.02])[:, None] * np.array([1., 1.2, 1.5])
        sig[0, 2] = 7.0
        m = MU0 * np.array([1., 2., 1.5])[:, None] * np.array([1., 1.1, 1.3])
        want = c0["k"].rTE_forward(f, lam, sig, m, hh)
        gw = c0["k"].rTE_gradient(f, lam, sig, m, hh)
        L = [list(layouts(q)) for q in (f, lam, sig, m, hh)]
        for combo in itertools.product(*L):
            names = [q[0] for q in combo]
            args = [q[1] for q in combo]
            t.state("rte-layout", *names)
            keep = [q.copy() for q in args]
            for c in (c1, c0):
                t.step(2)
                t.close("rTE layout", c["k"].rTE_forward(*args), want, tol=1e-8, scale=np.ones(want.shape), layouts=names)
                for p, q in zip(c["k"].rTE_gradient(*args), gw):
                    t.close("rTE gradient layout", p, q, tol=1e-8, scale=np.abs(q).max(), layouts=names)
                t.check(all(np.array_equal(p, q) for p, q in zip(keep, args)), "rTE changed its arguments", layouts=names)
        for c in (c1, c0):
            t.step(4)
            t.close("complex input", c["k"].rTE_forward(f, lam, sig + 0j, m + 0j, hh), want, tol=1e-8, scale=np.ones(want.shape))
            e = np.zeros(0)
            t.check(c["k"].rTE_forward(f, e, sig, m, hh).shape == (3, 0), "no wavenumbers")
            t.check(c["k"].rTE_forward(e, lam, sig[:, :0], m[:, :0], hh).shape == (0, 5), "no frequencies")
            t.check([q.shape for q in c["k"].rTE_gradient(f, e, sig, m, hh)] == [(3, 3, 0), (2, 3, 0), (3, 3, 0)], "no wavenumbers, gradient")
        return
    if k == "source":
        from .c04 import BOXES, box_points, on_surface
        if case["s"] in ("prism", "mprism"):
            for lo, hi in BOXES:
                x = box_points(lo, hi, t.thorough)
                off = ~on_surface(x, lo, hi)
                res = []
                for c in (c1, c0):
                    if case["s"] == "prism":
                        o = c["gravity"].Prism(np.array(lo), np.array(hi), rho=1.7)
                        meths = ("gravitational_potential", "gravitational_field", "gravitational_gradient")
                    else:
                        o = c["static"].MagneticPrism(np.array(lo), np.array(hi), magnetization=np.array([1., -2., 0.5]))
                        meths = ("scalar_potential", "magnetic_field", "magnetic_flux_density", "magnetic_field_gradient")
                    res.append([(getattr(o, m)(x), getattr(o, m)(x[5]), getattr(o, m)(x.reshape(round(len(x) ** (1 / 3)), -1, 3)), getattr(o, m)(x[:3])) for m in meths])
                    t.step(4 * len(meths))
                t.state(case["s"], lo, hi)
                for name, p, q in zip(meths, *res):
                    s = np.abs(q[0][off]).max()
                    for i, (u, v) in enumerate(zip(p, q)):
                        if i == 0:
                            t.close(name, u[off], v[off], tol=1e-9, scale=np.full(v[off].shape, s))
                        else:
                            t.check(np.shape(u) == np.shape(v), name + " shape", got=np.shape(u), want=np.shape(v))
                            w = {1: x[5:6], 2: x, 3: x[:3]}[i]
                            sel = (~on_surface(w, lo, hi)).reshape(np.shape(u)[:np.ndim(u) - (np.ndim(q[0]) - 1)])
                            t.close(name + " shapes", np.asarray(u)[sel], np.asarray(v)[sel], tol=1e-9, scale=s)
            return
        xyz = np.array([[10., 0, 0], [3., -4., 1.], [-50., 20., 0.], [0., 7., 2.]])
        for th, sg, fr, ori, fld in itertools.product((None, [5.], [3., 10.]), (0.1, 2.0), ([100.], [1., 1e3, 1e5]), ("Z", [1., 2, 3.]), ("secondary", "total")):
            for n in (1, 3, 4):
                t.state("layered", th, sg, fr, ori, fld, n)
                t.step(2)
                a, b = (c["fdem"].MagneticDipoleLayeredHalfSpace(np.array(fr), th, sigma=sg, orientation=ori, location=[0., 0, 1.]).magnetic_field(xyz[:n], field=fld) for c in (c1, c0))
                t.close("layered", a, b, tol=1e-6, scale=np.abs(b).max())
