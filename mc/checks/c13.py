"""C13: transverse-electric reflection coefficients and their gradients."""
import itertools

import mpmath as mp
import numpy as np

from ..conf import conf

MU0 = 4e-7 * np.pi
SIG = [0.1, 1.0 + 0.2j, 1e-6, 30.0]
MUR = [1.0, 2.5, 1.2 + 0.3j]
HS = [0.0, 1e-3, 7.0, 1e5]
FREQ = np.array([1e-2, 30.0, 5e4])
LAM = np.array([1e-6, 2e-3, 0.07, 1.0, 25.0])


def bounds(tier):
    return {"sigma": SIG, "mu_r": MUR, "thickness": HS, "frequency": FREQ, "wavenumber": LAM,
            "stacks": "all of 1 and 2 layers; 3 layers over a reduced alphabet; 4 and 5 layers (thorough: more) over pairs; one of every number up to 33 and up to 129; one thick layer (%s scale lengths) at any position of any number of layers" % THICK, "numbers of frequencies and wavenumbers": "1..33 and up to 257, 1..201"}


def stacks(tier):
    out = []
    for s, m in itertools.product(range(4), range(3)):
        out.append(([s], [m], []))
    for s in itertools.product(range(4), repeat=2):
        for m in itertools.product(range(3), repeat=2):
            for h in range(4):
                out.append((list(s), list(m), [h]))
    for s in itertools.product((0, 2, 3), repeat=3):
        for m in ((0, 0, 0), (1, 0, 2)):
            for h in ((2, 2), (1, 2), (0, 3), (3, 1)):
                out.append((list(s), list(m), list(h)))
    for n in (4, 5) + ((6, 9) if tier == "thorough" else ()):
        for s in itertools.product((0, 3), repeat=n) if n < 6 else [[i % 4 for i in range(n)], [3 - i % 4 for i in range(n)]]:
            for h in ([2] * (n - 1), [1 + i % 2 for i in range(n - 1)]):
                out.append((list(s), [(2 * i + 1) % 3 for i in range(n)], list(h)))
    return out


def cases(tier):
    st = stacks(tier)
    conf()
    from .c06 import RL
    return ([{"stacks": st[i::96]} for i in range(96)]
            + [{"ladder": [i, j]} for i in range(len(RL)) for j in range(4)]
            + [{"layers": n} for n in LAYERS] + [{"numbers": i} for i in range(8)]
            + [{"thick": n} for n in (list(range(2, 13)) + [16, 17, 24, 33] if tier == "quick" else list(range(2, 41)))])


LAYERS = list(range(2, 34)) + [40, 50, 63, 64, 65, 66, 100, 128, 129]


def stack(n, nf):
    """A stack of n layers, no two alike, properties varying with frequency."""
    i = np.arange(n)[:, None]
    j = np.arange(nf)[None, :]
    sig = 10.0 ** (-1.5 + 1.5 * np.sin(1.7 * i + 0.3)) * (1 + 0.2 * np.sin(j + i)) + 0.01j * (1 + i % 3)
    mu = MU0 * (1 + 0.8 * (1 + np.sin(2.3 * i + 0.1 * j)) + 0.05j * (i % 2))
    h = (1.0 + 0.7 * np.sin(np.arange(n - 1) * 1.9)) * 40.0 / n
    return sig, mu, h


def layers(case, t):
    """Stacks of many layers: the coefficient, and its derivative in every layer."""
    n = case["layers"]
    f, lam = np.array([40.0, 900.0]), np.array([3e-3, 0.04, 0.3])
    sig, mu, h = stack(n, 2)
    t.state("layers", n)
    with mp.workdps(36):
        want = np.array([[complex(forward(mp.mpf(a), mp.mpf(l), [mp.mpc(v) for v in sig[:, k]], [mp.mpc(v) for v in mu[:, k]], [mp.mpf(v) for v in h], mp)) for l in lam] for k, a in enumerate(f)])
        D = []
        P = [mp.mpc(v) for v in sig[:, 1]] + [mp.mpc(v) for v in mu[:, 1]] + [mp.mpf(v) for v in h]
        fw = lambda p, l: forward(mp.mpf(f[1]), mp.mpf(l), p[:n], p[n:2 * n], p[2 * n:], mp)
        which = list(range(len(P))) if n <= 12 or t.thorough else sorted(set(list(range(0, len(P), max(1, n // 4))) + [0, 1, n - 2, n - 1, n, 2 * n - 1, 2 * n, 3 * n - 2]))
        for j in which:
            e = mp.mpf(10) ** -12 * abs(P[j])
            D.append([complex((fw(P[:j] + [P[j] + e] + P[j + 1:], l) - fw(P[:j] + [P[j] - e] + P[j + 1:], l)) / (2 * e)) * float(abs(P[j])) for l in lam[:2]])
    D = np.array(D)
    size = np.array([float(abs(v)) for v in P])[which]
    for c in conf():
        t.step(2)
        t.close("rTE of many layers", c["k"].rTE_forward(f, lam, sig, mu, h), want, tol=1e-9, scale=1, layers=n)
        gs, gh, gm = c["k"].rTE_gradient(f, lam, sig, mu, h)
        t.check(gs.shape == gm.shape == (n, 2, 3) and gh.shape == (n - 1, 2, 3), "gradient shapes", layers=n)
        g = np.concatenate([gs[:, 1, :2], gm[:, 1, :2], gh[:, 1, :2]])[which] * size[:, None]
        t.close("gradient of many layers", g, D, tol=1, scale=1e-7 * np.abs(D) + 1e-11, vec=False, layers=n)
        t.outcome(np.round(want, 9))
    t.sample(case)


THICK = [0.03, 0.5, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.5, 9.0]


def thick(case, t):
    """One layer, of any position in the stack, through thicknesses of a fraction to many scale lengths."""
    n = case["thick"]
    f, lam = np.array([900.0]), np.array([5e-3, 0.1])
    sig, mu, h0 = stack(n, 1)
    for p, x, b in itertools.product(range(n - 1) if n < 13 or t.thorough else sorted({0, 1, n // 2, n - 3, n - 2}), THICK, range(2)):
        t.state("thick", n, p, x, b)
        h = h0 * 0.02
        h[p] = x / abs(np.sqrt(lam[b] ** 2 + 2j * np.pi * f[0] * mu[p, 0] * sig[p, 0]).real)
        with mp.workdps(40):
            P = [mp.mpc(v) for v in sig[:, 0]] + [mp.mpc(v) for v in mu[:, 0]] + [mp.mpf(v) for v in h]
            fw = lambda q: forward(mp.mpf(f[0]), mp.mpf(lam[b]), q[:n], q[n:2 * n], q[2 * n:], mp)
            want = complex(fw(P))
            which = sorted({p, p + 1, n - 1, n + p, n + p + 1, 2 * n + p, 3 * n - 2})
            D = []
            for j in which:
                e = mp.mpf(10) ** -14 * abs(P[j])
                D.append(complex((fw(P[:j] + [P[j] + e] + P[j + 1:]) - fw(P[:j] + [P[j] - e] + P[j + 1:])) / (2 * e) * abs(P[j])))
            size = np.array([float(abs(P[j])) for j in which])
        D = np.array(D)
        for c in conf():
            t.step(2)
            t.close("rTE with a thick layer", c["k"].rTE_forward(f, lam, sig, mu, h)[0, b], want, tol=1e-9, scale=1, layers=n, thick=p, scale_lengths=x)
            gs, gh, gm = c["k"].rTE_gradient(f, lam, sig, mu, h)
            g = np.concatenate([gs[:, 0, b], gm[:, 0, b], gh[:, 0, b]])[which] * size
            t.close("gradient with a thick layer", g, D, tol=1, scale=1e-7 * np.abs(D) + 1e-13, vec=False, layers=n, thick=p, scale_lengths=x)
        if t.violations:
            return
    t.sample(case)


def numbers(case, t):
    """Any number of frequencies and wavenumbers: each as if alone."""
    ns = (list(range(1, 34)) + [63, 64, 65, 100, 127, 128, 129, 257])[case["numbers"]::8]
    for n, m in itertools.product(ns, (1, 2, 3, 7, 33, 101, 201)):
        t.state("numbers", n, m)
        f = 10.0 ** (1.0 + 3.0 * np.sin(np.arange(n) * 0.9))
        lam = 10.0 ** (-2.0 + 1.5 * np.sin(np.arange(m) * 1.3))
        sig, mu, h = stack(3, n)
        for c in conf():
            t.step(2)
            R = c["k"].rTE_forward(f, lam, sig, mu, h)
            G = c["k"].rTE_gradient(f, lam, sig, mu, h)
            if not t.check(R.shape == (n, m) and [g.shape for g in G] == [(3, n, m), (2, n, m), (3, n, m)], "shapes", got=R.shape, frequencies=n, wavenumbers=m):
                return
            for a in sorted({0, 1, n // 3, n // 2, n - 2, n - 1} & set(range(n))):
                for b in sorted({0, 1, m // 3, m // 2, m - 2, m - 1} & set(range(m))):
                    one = c["k"].rTE_forward(f[a:a + 1], lam[b:b + 1], sig[:, a:a + 1], mu[:, a:a + 1], h)
                    t.close("rTE among many", R[a, b], one[0, 0], tol=1e-12, scale=1, frequencies=n, wavenumbers=m, at=(a, b))
                    for g, w in zip(G, c["k"].rTE_gradient(f[a:a + 1], lam[b:b + 1], sig[:, a:a + 1], mu[:, a:a + 1], h)):
                        t.close("gradient among many", g[:, a, b], w[:, 0, 0], tol=1e-10, scale=np.abs(w[:, 0, 0]) + 1e-290, vec=False, frequencies=n, wavenumbers=m, at=(a, b))
        if t.violations:
            return
    t.sample(case)


def forward(f, lam, sig, mu, h, m):
    """Reflection at the surface by the recursion of generalised reflection coefficients."""
    w = 2 * m.pi * f
    u = [m.sqrt(lam * lam + 1j * w * a * b) for a, b in zip(mu, sig)]
    u = [lam] + u
    q = [m.mpf(MU0) if m is mp else MU0] + list(mu)
    n = len(sig)
    R = 0
    for j in range(n, 0, -1):
        # interface between medium j-1 (above) and j (below); u/mu is continuous in the normal derivative
        a, b = u[j - 1] / q[j - 1], u[j] / q[j]
        r = (a - b) / (a + b)
        if j < n:
            e = m.exp(-2 * u[j] * h[j - 1])
            R = (r + R * e) / (1 + r * R * e)
        else:
            R = r
    return R


def run_case(case, t):
    if "layers" in case:
        return layers(case, t)
    if "numbers" in case:
        return numbers(case, t)
    if "thick" in case:
        return thick(case, t)
    if "ladder" in case:
        from .c06 import rte_ladder
        for v, (f, lam, sig, mu, h) in rte_ladder(*case["ladder"]):
            t.state("ladder", *case["ladder"], v)
            for c in conf():
                t.step(2)
                got = c["k"].rTE_forward(f, lam, sig, mu, h)
                grads = c["k"].rTE_gradient(f, lam, sig, mu, h)
                with mp.workdps(36):
                    for b, l in enumerate(lam):
                        P = [mp.mpc(v) for v in sig[:, 0]] + [mp.mpc(v) for v in mu[:, 0]] + [mp.mpf(h[0])]
                        fw = lambda p: forward(mp.mpf(f[0]), mp.mpf(l), p[:2], p[2:4], p[4:], mp)
                        t.close("rTE", got[0, b], complex(fw(P)), tol=1e-9, scale=1, scaled=v)
                        flat = np.concatenate([grads[0][:, 0, b], grads[2][:, 0, b], grads[1][:, 0, b]])
                        for j in range(5):
                            e = mp.mpf(10) ** -12 * (abs(P[j]) if P[j] != 0 else mp.mpf(1) / 1000)
                            w = complex((fw(P[:j] + [P[j] + e] + P[j + 1:]) - fw(P[:j] + [P[j] - e] + P[j + 1:])) / (2 * e))
                            u = max(float(abs(P[j])), 1e-3 if j == 4 else 0)
                            t.close("gradient", flat[j] * u, w * u, tol=1, scale=1e-7 * abs(w * u) + 1e-11, scaled=v, parameter=j)
                t.outcome(np.round(got, 9))
        return
    for si, mi, hi in case["stacks"]:
        n = len(si)
        t.state(*map(tuple, (si, mi, hi)))
        base_s = np.array([SIG[i] for i in si], complex)
        base_m = MU0 * np.array([MUR[i] for i in mi], complex)
        h = np.array([HS[i] for i in hi])
        # frequency-dependent properties
        sig = base_s[:, None] * np.array([1.0, 1.5, 0.6])
        mu = base_m[:, None] * np.array([1.0, 1.0, 1.3])
        if not np.iscomplexobj(sig) or (np.all(sig.imag == 0) and np.all(mu.imag == 0)):
            sig_in, mu_in = sig.real.copy(), mu.real.copy()
        else:
            sig_in, mu_in = sig, mu
        want = np.empty((3, len(LAM)), complex)
        ws = np.empty((n, 3, len(LAM)), complex)
        wh = np.empty((n - 1, 3, len(LAM)), complex)
        wm = np.empty((n, 3, len(LAM)), complex)
        with mp.workdps(36):
            d = mp.mpf(10) ** -12
            for a, f in enumerate(FREQ):
                for b, l in enumerate(LAM):
                    S = [mp.mpc(v) for v in sig[:, a]]
                    M = [mp.mpc(v) for v in mu[:, a]]
                    H = [mp.mpf(v) for v in h]
                    f_, l_ = mp.mpf(f), mp.mpf(l)
                    want[a, b] = complex(forward(f_, l_, S, M, H, mp))
                    for X, W in ((S, ws), (M, wm), (H, wh)):
                        for j in range(len(X)):
                            x0 = X[j]
                            e = d * (abs(x0) if x0 != 0 else mp.mpf(1) / 1000)
                            X[j] = x0 + e
                            p = forward(f_, l_, S, M, H, mp)
                            X[j] = x0 - e
                            q = forward(f_, l_, S, M, H, mp)
                            X[j] = x0
                            W[j, a, b] = complex((p - q) / (2 * e))
        d = dict(sigma=si, mu=mi, thickness=hi)
        for c in conf():
            rTE_forward, rTE_gradient = c["k"].rTE_forward, c["k"].rTE_gradient
            t.step(2)
            got = rTE_forward(FREQ, LAM, sig_in, mu_in, h)
            gs, gh, gm = rTE_gradient(FREQ, LAM, sig_in, mu_in, h)
            t.close("rTE", got, want, tol=1e-9, scale=np.ones(want.shape), **d)
            for name, g, w, unit in (("d/dsigma", gs, ws, np.abs(sig)[:, :, None]), ("d/dthickness", gh, wh, np.maximum(h, 1e-3)[:, None, None]), ("d/dmu", gm, wm, np.abs(mu)[:, :, None])):
                t.close(name, g * unit, w * unit, tol=1, scale=1e-7 * np.abs(w * unit) + 1e-11, **d)
            # one frequency or one wavenumber at a time
            for a in range(3):
                t.step(2)
                t.close("rTE, one frequency", rTE_forward(FREQ[a:a + 1], LAM, sig_in[:, a:a + 1], mu_in[:, a:a + 1], h), got[a:a + 1], tol=1e-13, scale=1, **d)
                o = rTE_gradient(FREQ[a:a + 1], LAM, sig_in[:, a:a + 1], mu_in[:, a:a + 1], h)
                for x, y in zip(o, (gs, gh, gm)):
                    t.close("gradient, one frequency", x, y[:, a:a + 1], tol=1e-12, scale=np.abs(y[:, a:a + 1]) + 1e-290, **d)
            for b in range(len(LAM)):
                t.step(2)
                t.close("rTE, one wavenumber", rTE_forward(FREQ, LAM[b:b + 1], sig_in, mu_in, h), got[:, b:b + 1], tol=1e-13, scale=1, **d)
                o = rTE_gradient(FREQ, LAM[b:b + 1], sig_in, mu_in, h)
                for x, y in zip(o, (gs, gh, gm)):
                    t.close("gradient, one wavenumber", x, y[:, :, b:b + 1], tol=1e-12, scale=np.abs(y[:, :, b:b + 1]) + 1e-290, **d)
            t.step()
            t.close("rTE at wavenumber 0", rTE_forward(FREQ, np.zeros(1), sig_in, mu_in, h), -np.ones((3, 1)), tol=1e-9, scale=1, **d)
            t.outcome(np.round(got, 9))
