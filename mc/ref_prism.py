"""High-precision Newtonian integral of a box, U = int dV / r, and its derivatives.

The classical closed forms are evaluated with 85 (third derivatives: 170) digits, at the observation point moved by
1e-30 off the singular planes and lines, so that none of the special cases of a double
precision implementation are needed.  `selftest` compares them with plain cubature.
"""
import itertools

import mpmath as mp
import numpy as np

DPS = 85


def _corner(x, y, z):
    r = mp.sqrt(x * x + y * y + z * z)
    lx, ly, lz = mp.log(x + r), mp.log(y + r), mp.log(z + r)
    ax, ay, az = mp.atan(y * z / (x * r)), mp.atan(x * z / (y * r)), mp.atan(x * y / (z * r))
    return r, lx, ly, lz, ax, ay, az


def derivatives(lo, hi, pts, third=False):
    """U (n), grad U (n,3), hess U (n,3,3) [, third derivatives (n,3,3,3)] at pts."""
    n = len(pts)
    U, g, H = np.empty(n), np.empty((n, 3)), np.empty((n, 3, 3))
    T = np.empty((n, 3, 3, 3)) if third else None
    with mp.workdps(2 * DPS if third else DPS):
        e = [mp.mpf("1.1e-30"), mp.mpf("2.3e-30"), mp.mpf("3.7e-30")]
        corners = list(itertools.product((0, 1), repeat=3))
        b = [[mp.mpf(float(v)) for v in lo], [mp.mpf(float(v)) for v in hi]]
        for k, p in enumerate(pts):
            p = [mp.mpf(float(v)) + ee for v, ee in zip(p, e)]
            u = mp.mpf(0)
            G = [mp.mpf(0)] * 3
            h = {ij: mp.mpf(0) for ij in ("xx", "yy", "zz", "xy", "xz", "yz")}
            t3 = {}
            for c in corners:
                s = 1 if (sum(c) % 2) else -1  # + for the all-max corner
                x, y, z = (b[c[i]][i] - p[i] for i in range(3))
                r, lx, ly, lz, ax, ay, az = _corner(x, y, z)
                # integral of 1/r with respect to the box, X = x' - x
                u += s * (x * y * lz + y * z * lx + x * z * ly
                          - (x * x * ax + y * y * ay + z * z * az) / 2)
                # dU/dx = - d/dX of the antiderivative
                G[0] -= s * (y * lz + z * ly - x * ax)
                G[1] -= s * (x * lz + z * lx - y * ay)
                G[2] -= s * (y * lx + x * ly - z * az)
                h["xx"] += s * (-ax)
                h["yy"] += s * (-ay)
                h["zz"] += s * (-az)
                h["xy"] += s * lz
                h["xz"] += s * ly
                h["yz"] += s * lx
                if third:
                    def acc(name, v):
                        t3[name] = t3.get(name, mp.mpf(0)) - s * v
                    # derivatives of the second-derivative kernels with respect to X, Y, Z
                    acc("xyz", 1 / r)
                    acc("xxy", x / (r * (z + r)))
                    acc("xyy", y / (r * (z + r)))
                    acc("xxz", x / (r * (y + r)))
                    acc("xzz", z / (r * (y + r)))
                    acc("yyz", y / (r * (x + r)))
                    acc("yzz", z / (r * (x + r)))
                    acc("xxx", _dax(x, y, z, r))
                    acc("yyy", _dax(y, x, z, r))
                    acc("zzz", _dax(z, y, x, r))
            U[k] = float(u)
            g[k] = [float(v) for v in G]
            H[k] = [[float(h["xx"]), float(h["xy"]), float(h["xz"])],
                    [float(h["xy"]), float(h["yy"]), float(h["yz"])],
                    [float(h["xz"]), float(h["yz"]), float(h["zz"])]]
            if third:
                for i, j, l in itertools.product(range(3), repeat=3):
                    T[k, i, j, l] = float(t3["".join(sorted("xyz"[m] for m in (i, j, l)))])
    return (U, g, H, T) if third else (U, g, H)


def _dax(x, y, z, r):
    """d/dx of -atan(y z / (x r))."""
    w = y * z / (x * r)
    dw = -y * z * (r + x * x / r) / (x * r) ** 2
    return -dw / (1 + w * w)


def selftest():
    """Cubature against the closed forms at three outside points; returns the largest error."""
    lo, hi = np.array([-1., 0.2, 0.]), np.array([0.5, 1.0, 2.0])
    xg, wg = np.polynomial.legendre.leggauss(40)
    ax = [(hi[i] - lo[i]) / 2 * xg + (hi[i] + lo[i]) / 2 for i in range(3)]
    w = [(hi[i] - lo[i]) / 2 * wg for i in range(3)]
    W = w[0][:, None, None] * w[1][:, None] * w[2]
    X = np.stack(np.meshgrid(*ax, indexing="ij"), -1)
    pts = np.array([[2., 3., 1.], [-2.5, 0.2, 3.], [0.1, 0.5, -1.5]])
    U, g, H, T = derivatives(lo, hi, pts, True)
    err = 0.0
    for k, p in enumerate(pts):
        R = X - p
        r = np.sqrt((R * R).sum(-1))
        I = np.eye(3)
        q = (W / r).sum()
        err = max(err, abs(q / U[k] - 1))
        gg = (W[..., None] * R / r[..., None] ** 3).sum((0, 1, 2))
        err = max(err, np.abs(gg - g[k]).max() / np.abs(gg).max())
        hh = (W[..., None, None] * (3 * R[..., None] * R[..., None, :] / r[..., None, None] ** 5
                                    - I / r[..., None, None] ** 3)).sum((0, 1, 2))
        err = max(err, np.abs(hh - H[k]).max() / np.abs(hh).max())
        # third derivatives of 1/|x'-x| with respect to x
        d = np.einsum
        r5 = r[..., None, None, None] ** 5
        r7 = r[..., None, None, None] ** 7
        t = 15 * d("...i,...j,...k->...ijk", R, R, R) / r7 - 3 * (
            d("...i,jk->...ijk", R, I) + d("...j,ik->...ijk", R, I) + d("...k,ij->...ijk", R, I)) / r5
        tt = (W[..., None, None, None] * t).sum((0, 1, 2))
        err = max(err, np.abs(tt - T[k]).max() / np.abs(tt).max())
    return err
