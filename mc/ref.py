"""Reference models: direct statements of the physics, written without looking fast."""
import numpy as np

mu_0 = 1.25663706127e-06  # replaced below by scipy's value, which the library documents
from scipy.constants import mu_0, epsilon_0, G  # noqa: E402,F811

PI = np.pi


def unit(v):
    """What an orientation means: 'X', 'Y', 'Z' or any vector along it."""
    if isinstance(v, str):
        return {"X": np.array([1., 0, 0]), "Y": np.array([0, 1., 0]), "Z": np.array([0, 0, 1.])}[v.upper()]
    v = np.array(v, dtype=float).reshape(3)
    return v / np.sqrt((v * v).sum())


def frame(n):
    """Three orthonormal vectors (e1, e2, n) around a unit vector."""
    n = unit(n)
    a = np.zeros(3)
    a[np.argmin(np.abs(n))] = 1.0
    e1 = np.cross(n, a)
    e1 /= np.sqrt((e1 * e1).sum())
    return e1, np.cross(n, e1), n


def norm(v):
    return np.sqrt(np.sum(np.abs(v) ** 2, axis=-1, keepdims=True))


# ---- static magnetic sources -------------------------------------------------------
def mdipole_A(x, loc, m, mu):
    R = x - loc
    r = norm(R)
    return mu / (4 * PI) * np.cross(np.broadcast_to(m, R.shape), R) / r ** 3


def mdipole_B(x, loc, m, mu):
    R = x - loc
    r = norm(R)
    return mu / (4 * PI) * (3 * R * (R @ m)[..., None] / r ** 5 - m / r ** 3)


def mpole_B(x, loc, q, mu):
    R = x - loc
    return mu * q / (4 * PI) * R / norm(R) ** 3


def loop_AB(x, loc, n, a, cur, mu, N=1440):
    """Biot-Savart over the circle by the periodic trapezoidal rule."""
    e1, e2, n = frame(n)
    th = 2 * PI * np.arange(N) / N
    c, s = np.cos(th), np.sin(th)
    src = a * (c[:, None] * e1 + s[:, None] * e2)
    dl = (2 * PI / N) * a * (-s[:, None] * e1 + c[:, None] * e2)
    y = x - loc
    R = y[:, None, :] - src[None]
    r = np.sqrt(np.sum(R * R, axis=-1))
    # the elements add up to nothing, so 1/r and 1/r^3 count from their value at the mean distance:
    # no cancellation, however far away
    R0 = np.sqrt(np.sum(y * y, axis=-1) + a * a)[:, None]
    p = 2 * (y @ src.T) / (r + R0)
    u = p / (r * R0)
    w = u * (R0 / r + 1 + r / R0) / (r * R0)
    A = np.einsum("pk,kc->pc", u, dl)
    B = np.cross(np.einsum("pk,kc->pc", w, dl), y) + n * (2 * PI / N * a * a) * np.sum(1 / r ** 3, axis=-1)[:, None]
    f = mu * cur / (4 * PI)
    return f * A, f * B


def segment_AB(x, p0, p1, cur, mu):
    """Straight segment from p0 to p1 (closed forms in terms of the two end vectors)."""
    L = np.sqrt(((p1 - p0) ** 2).sum())
    if L == 0:
        return np.zeros_like(x), np.zeros_like(x)
    lh = (p1 - p0) / L
    a, b = x - p0, x - p1
    ra, rb = norm(a), norm(b)
    dot = np.sum(a * b, axis=-1, keepdims=True)
    cr = np.cross(a, b)
    with np.errstate(all="ignore"):
        den = ra * rb + dot
        # ra rb + a.b = |a x b|^2 / (ra rb - a.b) between the two ends
        den = np.where(dot < 0, np.sum(cr * cr, axis=-1, keepdims=True) / (ra * rb - dot), den)
        B = (ra + rb) / (ra * rb) * cr / den
    f = mu * cur / (4 * PI)
    with np.errstate(all="ignore"):
        # 2 artanh(L / (ra + rb)), or, beside the segment, the same through the distance from it
        d = norm(np.cross(a, lh))
        u, v = np.sum(a * lh, -1, keepdims=True), -np.sum(b * lh, -1, keepdims=True)
        A = np.where((u > -d) & (v > -d) & (d < 0.1 * L), np.arcsinh(u / d) + np.arcsinh(v / d), 2 * np.arctanh(L / (ra + rb))) * lh
    return f * A, f * B


def polyline_AB(x, nodes, cur, mu):
    A = np.zeros_like(x)
    B = np.zeros_like(x)
    for p0, p1 in zip(nodes[:-1], nodes[1:]):
        a, b = segment_AB(x, p0, p1, cur, mu)
        A += a
        B += b
    return A, B
