"""Surface displacement of a rectangular dislocation, from surface point loads by reciprocity.

The displacement at a surface point in direction k is the integral over the fault of
slip_i n_j sigma_ij, where sigma is the stress at the fault caused by a unit load in
direction k at the surface point (solutions of Boussinesq and Cerruti).  Coordinates are
east, north, down.  Nothing is shared with the closed form used by the library.
"""
import numpy as np


def _load_fields(x, y, z, nu):
    """4 pi G times the displacement at (x, y, z) for unit loads along x, y and z at the origin."""
    R = np.sqrt(x * x + y * y + z * z)
    k = 1.0 - 2.0 * nu
    W = R + z
    R3 = R ** 3
    fx = [1 / R + x * x / R3 + k * (1 / W - x * x / (R * W * W)), x * y / R3 - k * x * y / (R * W * W), x * z / R3 + k * x / (R * W)]
    fy = [x * y / R3 - k * x * y / (R * W * W), 1 / R + y * y / R3 + k * (1 / W - y * y / (R * W * W)), y * z / R3 + k * y / (R * W)]
    fz = [x * z / R3 - k * x / (R * W), y * z / R3 - k * y / (R * W), z * z / R3 + 2 * (1 - nu) / R]
    return np.array([fx, fy, fz])


def _stress(x, y, z, nu):
    """sigma[k, i, j] of unit loads, by complex-step differentiation."""
    h = 1e-30
    grad = np.empty((3, 3, 3) + x.shape)        # [k, i, d]
    for d in range(3):
        a = [x.astype(complex), y.astype(complex), z.astype(complex)]
        a[d] = a[d] + 1j * h
        grad[:, :, d] = _load_fields(*a, nu).imag / h
    eps = 0.5 * (grad + np.swapaxes(grad, 1, 2))
    lam = 2.0 * nu / (1.0 - 2.0 * nu)           # in units of G
    tr = eps[:, 0, 0] + eps[:, 1, 1] + eps[:, 2, 2]
    s = 2.0 * eps
    for i in range(3):
        s[:, i, i] += lam * tr
    return s / (4.0 * np.pi)


def _panels(a0, a1, c0, c1, pa, pc, h, ratio):
    """Split the rectangle until every piece is small compared with its distance to the point
    that lies at (pa, pc) in fault coordinates and h off the plane."""
    todo, done = [(a0, a1, c0, c1)], []
    while todo:
        p = todo.pop()
        da = max(p[0] - pa, 0.0, pa - p[1])
        dc = max(p[2] - pc, 0.0, pc - p[3])
        la, lc = p[1] - p[0], p[3] - p[2]
        if max(la, lc) <= ratio * np.sqrt(da * da + dc * dc + h * h):
            done.append(p)
        elif len(done) + len(todo) > 4000:
            raise AssertionError("observation point on the fault")
        elif la >= lc:
            m = 0.5 * (p[0] + p[1])
            todo += [(p[0], m, p[2], p[3]), (m, p[1], p[2], p[3])]
        else:
            m = 0.5 * (p[2] + p[3])
            todo += [(p[0], p[1], p[2], m), (p[0], p[1], m, p[3])]
    return np.array(done)


def unit_slips(pts, center, top, bottom, strike, dip, length, lam, G, n=12, ratio=1.0):
    """(m, 2) surface points -> (m, 3) displacements east, north, up for unit slip of the
    hanging wall along strike and up dip."""
    nu = 0.5 * lam / (lam + G)
    s, d = np.deg2rad(strike), np.deg2rad(dip)
    along = np.array([np.sin(s), np.cos(s), 0.0])
    down = np.array([np.cos(s) * np.cos(d), -np.sin(s) * np.cos(d), np.sin(d)])
    normal = np.array([np.cos(s) * np.sin(d), -np.sin(s) * np.sin(d), -np.cos(d)])
    g, w = np.polynomial.legendre.leggauss(n)
    ga, gc = (v.ravel() for v in np.meshgrid(g, g, indexing="ij"))
    gw = (w[:, None] * w[None, :]).ravel()
    b = np.array([along, -down])
    o = np.array([center[0], center[1], 0.0])
    out = np.zeros((2, len(pts), 3))
    for m, p in enumerate(pts):
        r = np.array([p[0], p[1], 0.0]) - o
        P = _panels(-length / 2, length / 2, top / np.sin(d), bottom / np.sin(d), r @ along, r @ down, abs(r @ normal), ratio)
        A = (0.5 * (P[:, 1] - P[:, 0])[:, None] * ga + 0.5 * (P[:, 1] + P[:, 0])[:, None]).ravel()
        C = (0.5 * (P[:, 3] - P[:, 2])[:, None] * gc + 0.5 * (P[:, 3] + P[:, 2])[:, None]).ravel()
        W = (0.25 * ((P[:, 1] - P[:, 0]) * (P[:, 3] - P[:, 2]))[:, None] * gw).ravel()
        F = A[:, None] * along + C[:, None] * down - r
        S = _stress(F[:, 0], F[:, 1], F[:, 2], nu)
        T = np.einsum("kijn,n->kij", S, W) @ normal
        out[:, m] = b @ T.T
    out[..., 2] *= -1.0
    return out


def displacement(pts, center, top, bottom, strike, dip, rake, slip, length, lam, G, **kw):
    u = unit_slips(pts, center, top, bottom, strike, dip, length, lam, G, **kw)
    r = np.deg2rad(rake)
    return slip * (np.cos(r) * u[0] + np.sin(r) * u[1])
