"""C28: 2D plots show the data given and leave options untouched."""
import copy
import itertools
import os
import shutil
import tempfile

import numpy as np

TECHNIQUE = ("exhaustive enumeration of option combinations of the real plotting function; the drawn contour polygons, lines and streamlines are read back corner by corner and compared with a brute-force "
             "interpolation (empty-circle triangulation / nearest point), plus all ordered pairs of calls for history independence")
GRIDS = [(7, 5), (4, 6), (4, 9), (5, 5)]
VEC = [False, True]
METHOD = ["linear", "nearest"]
SCALE = ["linear", "log"]
MASK = ["none", "mask"]
LEVEL = [False, True]
LIMITS = ["none", "clim", "clim reversed", "opts", "opts min", "opts max", "clim and opts", "clim and min"]
OPTS = ["none", "style", "levels", "extend"]
SETS = ["scattered", "affine", "grid", "nan"]
WAYS = ["clim", "contourOpts", "data"]
DECADES = [1e-4, 0.3, 1, 3, 6, 9, 12, 16, 24]


def bounds(tier):
    return {"options": {"vec": VEC, "method": METHOD, "scale": SCALE, "mask": MASK, "level": LEVEL, "limits": LIMITS, "styles": OPTS, "shade": [False, True], "dataloc": [False, True], "axes": ["new", "given"],
                        "figname": "all combinations of level, shade, dataloc, figname, axes and clim"}, "grids": GRIDS, "data sets": SETS, "locations": "(n, 2) and (n, 3)", "ranges": "limits from 1.7e-15 to 1.7e36, %s decades, given by %s" % (DECADES, WAYS), "sizes": "data x 10^-18..10^12, locations x 2^-12..2^21 and shifted by up to 4e6", "histories": "all ordered pairs of %d option sets" % len(PAIRS)}


def cases(tier):
    out = [{"k": "draw", "set": s, "vec": v, "method": m, "scale": c, "mask": k, "grid": g} for s in SETS for v in VEC for m in METHOD for c in SCALE for k in MASK for g in range(len(GRIDS) if tier == "thorough" else 2)]
    out += [{"k": "shade", "set": s, "vec": v, "scale": c, "mask": k} for s in SETS for v in VEC for c in SCALE for k in MASK]
    out += [{"k": "extras", "vec": v} for v in VEC]
    out += [{"k": "limits", "vec": v, "scale": c, "size": z} for v in VEC for c in SCALE for z in (1.0, 1e-12, 1e9)]
    out += [{"k": "limits", "vec": v, "scale": "linear", "size": z, "signed": True} for v in VEC for z in (1.0, 1e-12)]
    out += [{"k": "sizes", "vec": v, "scale": c, "method": m} for v in VEC for c in SCALE for m in METHOD]
    out += [{"k": "ranges", "vec": v, "scale": c, "way": w} for v in VEC for c in SCALE for w in WAYS]
    out += [{"k": "combine", "vec": v, "method": m, "scale": c, "mask": k} for v in VEC for m in METHOD for c in SCALE for k in MASK]
    out += [{"k": "pairs", "i": i} for i in range(len(PAIRS))]
    return out


# ------------------------------------------------------------------ reference interpolation
def dataset(name, vec, scale):
    if name == "grid":
        g = np.array([[x, y] for y in (0.0, 3.0, 4.0) for x in (-2.0, 0.0, 1.0, 5.0)])
    else:
        g = np.array([[-3.0, -2.0], [4.1, -2.3], [3.7, 2.9], [-2.6, 3.3], [0.4, 0.7], [1.9, -1.1], [-1.3, 1.2], [0.6, 2.2]])
    x, y = g.T
    aff = np.c_[10.0 + 0.7 * x + 1.1 * y, 8.0 - 0.9 * x + 0.4 * y]
    if name in ("affine", "grid"):
        d = aff
    else:
        d = np.array([[1.0, 2.0], [7.0, -3.0], [3.0, 5.0], [-2.0, 4.5], [12.0, 1.0], [5.0, -6.0], [9.0, 2.5], [4.0, 8.0]])
        if name == "nan":
            d = d.copy()
            d[2] = np.nan
            d[0, 0] = 0.25
    return g, (d.copy() if vec else d[:, 0].copy())


def triangles(p):
    """All triangles whose circumcircle holds no other point."""
    out = []
    for a, b, c in itertools.combinations(range(len(p)), 3):
        A, B, C = p[a], p[b], p[c]
        det = (B[0] - A[0]) * (C[1] - A[1]) - (B[1] - A[1]) * (C[0] - A[0])
        if abs(det) < 1e-9:
            continue
        M = np.array([B - A, C - A])
        ctr = np.linalg.solve(M, 0.5 * np.array([B @ B - A @ A, C @ C - A @ A]))
        r = np.linalg.norm(A - ctr)
        o = [k for k in range(len(p)) if k not in (a, b, c)]
        if all(np.linalg.norm(p[k] - ctr) > r * (1 - 1e-12) for k in o):
            out.append((a, b, c))
    return out


ANY = object()


def interpolate(p, d, q, method, exact_affine):
    """Value(s) at the points q: NaN outside, ANY where it is undetermined."""
    out = []
    tris = triangles(p) if method == "linear" else None
    for pt in q:
        if method == "nearest":
            r = np.linalg.norm(p - pt, axis=1)
            k = np.argmin(r)
            tie = np.sum(r < r[k] + 1e-7)
            out.append(d[k] if tie == 1 else ANY)
            continue
        vals, edge = [], False
        for tri in tris:
            A, B, C = p[list(tri)]
            lam = np.linalg.solve(np.array([B - A, C - A]).T, pt - A)
            w = np.array([1 - lam.sum(), lam[0], lam[1]])
            if w.min() > 1e-7:
                vals.append(w @ d[list(tri)])
            elif w.min() > -1e-7:
                vals.append(w @ d[list(tri)])
                edge = True
        if not vals:
            out.append(np.nan * d[0])
        elif edge and not exact_affine:
            fin = [np.all(np.isfinite(v)) for v in vals]
            hull = on_hull(p, pt)
            out.append(vals[0] if all(fin) and not hull else ANY)
        elif edge:
            out.append(ANY if on_hull(p, pt) and exact_affine == "scattered" else vals[0])
        else:
            out.append(vals[0])
    return out


def on_hull(p, pt):
    """Is the point on (or very near) the boundary of the convex hull?"""
    for a, b in itertools.combinations(range(len(p)), 2):
        e = p[b] - p[a]
        n = np.array([-e[1], e[0]]) / np.linalg.norm(e)
        s = (p - p[a]) @ n
        if (np.all(s > -1e-9) or np.all(s < 1e-9)) and abs((pt - p[a]) @ n) < 1e-6:
            return True
    return False


class Surface:
    """The regular grid of expected values: NaN blank, `sure` False where undetermined."""

    def __init__(self, name, p, d, nx, ny, method, scale, vec, mask):
        self.x = np.linspace(p[:, 0].min(), p[:, 0].max(), nx)
        self.y = np.linspace(p[:, 1].min(), p[:, 1].max(), ny)
        q = np.array([[x, y] for y in self.y for x in self.x])
        aff = {"affine": "scattered", "grid": "grid"}.get(name, False)
        v = interpolate(p, d, q, method, aff)
        self.sure = np.array([u is not ANY for u in v]).reshape(ny, nx)
        z = [np.nan * d[0] if u is ANY else u for u in v]
        self.field = np.array(z).reshape((ny, nx) + np.shape(d[0]))
        Z = np.sqrt((self.field ** 2).sum(-1)) if vec else self.field
        if scale == "log":
            Z = np.abs(Z)
        self.full = Z
        hid = np.zeros((ny, nx), bool)
        if mask is not None:
            m = interpolate(p, mask.astype(float), q, "nearest", False)
            self.sure &= np.array([u is not ANY for u in m]).reshape(ny, nx)
            hid = np.array([u is not ANY and u > 0.5 for u in m]).reshape(ny, nx)
        self.Z = np.where(hid, np.nan, Z)
        self.all_sure = bool(np.array([u is not ANY for u in v]).all())

    def range(self):
        z = self.full[np.isfinite(self.full)]
        return z.min(), z.max()

    def corners(self):
        """(point, value or None, margin) next to every corner of every cell that is determined."""
        ny, nx = self.Z.shape
        for j, i in itertools.product(range(ny - 1), range(nx - 1)):
            idx = [(j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i)]
            if not all(self.sure[c] for c in idx):
                continue
            pts = np.array([[self.x[c[1]], self.y[c[0]]] for c in idx])
            val = np.array([self.Z[c] for c in idx])
            ok = np.isfinite(val)
            for k in range(4):
                if ok.sum() >= 3 and ok[k]:
                    ctr = pts[ok].mean(axis=0)
                    yield pts[k] + 1e-3 * (ctr - pts[k]), val[k], 2e-3 * (val[ok].max() - val[ok].min()) + 1e-9 * abs(val[k])
                else:
                    yield pts[k] + 1e-3 * (pts.mean(axis=0) - pts[k]), None, 0.0


def inside(path, q):
    """Even-odd containment of the points q in a (compound) path."""
    hit = np.zeros(len(q), bool)
    if len(path.vertices) == 0:
        return hit
    for poly in path.to_polygons(closed_only=False):
        P = np.asarray(poly)
        for (x0, y0), (x1, y1) in zip(P, np.roll(P, -1, axis=0)):
            c = (y0 > q[:, 1]) != (y1 > q[:, 1])
            if c.any():
                with np.errstate(all="ignore"):
                    xs = x0 + (q[:, 1] - y0) / (y1 - y0) * (x1 - x0)
                hit ^= c & (q[:, 0] < xs)
    return hit


def check_fill(t, what, cont, surf, levels, extend="neither", **d):
    """Every determined cell corner is filled with exactly the layer of its value."""
    s = list(surf.corners())
    if not s:
        return
    q = np.array([a[0] for a in s])
    paths = cont.get_paths()
    lo, hi = list(levels[:-1]), list(levels[1:])
    if extend == "both":
        lo, hi = [-np.inf] + lo + [levels[-1]], [levels[0]] + hi + [np.inf]
    if not t.check(len(paths) == len(lo), what + ": number of layers", got=len(paths), want=len(lo), **d):
        return
    H = np.array([inside(p, q) for p in paths])
    t.note("corners compared", len(s))
    for k, (pt, v, m) in enumerate(s):
        t.validated += 1
        if v is None:
            if H[:, k].any():
                return t.fail(what + ": drawn where there is nothing to draw", at=pt, **d)
            continue
        if np.min(np.abs(np.asarray(levels) - v)) <= m:
            continue
        want = [a < v < b for a, b in zip(lo, hi)]
        if list(H[:, k]) != want:
            return t.fail(what + ": layer at a point", at=pt, value=v, got=np.flatnonzero(H[:, k]), want=np.flatnonzero(want), levels=levels, **d)
    return True


def check_lines(t, what, CS, surf, levels, **d):
    """Level lines: every vertex has its level's value and every crossed cell edge has a vertex."""
    if not t.check(len(CS.levels) == len(levels) and np.allclose(CS.levels, levels, rtol=1e-9), what + ": levels", got=np.asarray(CS.levels), want=levels, **d):
        return
    paths = CS.get_paths()
    rng = max(levels) - min(levels)
    ny, nx = surf.Z.shape
    for lev, path in zip(levels, paths):
        V = np.asarray(path.vertices).reshape(-1, 2)
        for j, i in itertools.product(range(ny - 1), range(nx - 1)):
            idx = [(j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i)]
            if not all(surf.sure[c] for c in idx) or not all(np.isfinite(surf.Z[c]) for c in idx):
                continue
            for a, b in zip(idx, idx[1:] + idx[:1]):
                za, zb = surf.Z[a], surf.Z[b]
                m = 1e-6 * rng
                if min(za, zb) + m < lev < max(za, zb) - m:
                    w = (lev - za) / (zb - za)
                    pt = np.array([surf.x[a[1]] * (1 - w) + surf.x[b[1]] * w, surf.y[a[0]] * (1 - w) + surf.y[b[0]] * w])
                    t.validated += 1
                    if len(V) == 0 or np.min(np.linalg.norm(V - pt, axis=1)) > 1e-6:
                        return t.fail(what + ": a level line is missing", level=lev, at=pt, **d)
        for v in V:
            i = np.argmin(np.abs(surf.x - v[0]))
            j = np.argmin(np.abs(surf.y - v[1]))
            ends = None
            if abs(surf.x[i] - v[0]) < 1e-9 and abs(surf.y[j] - v[1]) > 1e-9:
                b = int(np.clip(np.searchsorted(surf.y, v[1]), 1, ny - 1))
                ends = (b - 1, i), (b, i), (v[1] - surf.y[b - 1]) / (surf.y[b] - surf.y[b - 1])
            elif abs(surf.y[j] - v[1]) < 1e-9 and abs(surf.x[i] - v[0]) > 1e-9:
                b = int(np.clip(np.searchsorted(surf.x, v[0]), 1, nx - 1))
                ends = (j, b - 1), (j, b), (v[0] - surf.x[b - 1]) / (surf.x[b] - surf.x[b - 1])
            if ends and surf.sure[ends[0]] and surf.sure[ends[1]]:
                z = surf.Z[ends[0]] * (1 - ends[2]) + surf.Z[ends[1]] * ends[2]
                t.validated += 1
                if not abs(z - lev) <= 1e-6 * rng + 1e-9 * abs(lev):
                    return t.fail(what + ": a level line at another value", level=lev, value=z, at=v, **d)


def check_norm(t, norm, vmin, vmax, scale, **d):
    t.close("colour limits", np.array([norm.vmin, norm.vmax], dtype=float), np.array([vmin, vmax]), 1e-9, scale=max(abs(vmin), abs(vmax)), vec=False, **d)
    f = np.linspace(0, 1, 5)
    z = vmin * (vmax / vmin) ** f if scale == "log" else vmin + f * (vmax - vmin)
    t.close("colour scale", np.ma.getdata(norm(z)).astype(float), f, 1e-6, scale=1.0, vec=False, **d)


def check_stream(t, ax, surf, opts, **d):
    """Streamlines are everywhere parallel to the interpolated field, arrows point along it."""
    from matplotlib.collections import LineCollection
    from matplotlib.patches import FancyArrowPatch
    lines = [c for c in ax.collections if isinstance(c, LineCollection)]
    if not t.check(len(lines) == 1, "one set of streamlines", got=len(lines), **d):
        return
    import matplotlib.colors as mc
    t.check(lines[0].get_zorder() == opts.get("zorder", 4), "order of the streamlines", got=lines[0].get_zorder(), **d)
    t.check(mc.same_color(lines[0].get_edgecolor()[0], opts.get("color", "w")), "colour of the streamlines", got=lines[0].get_edgecolor()[0], **d)
    segs = np.array([s for s in lines[0].get_segments() if len(s) == 2])
    n = 0
    for a, b in segs:
        u = at(surf, 0.5 * (a + b))
        if u is None or np.linalg.norm(b - a) < 1e-9:
            continue
        e = (b - a) / np.linalg.norm(b - a)
        c = abs(e @ u) / np.linalg.norm(u)
        n += 1
        t.validated += 1
        if c < 0.99:
            return t.fail("streamline along another direction", at=a, direction=e, field=u, **d)
    for P in ax.patches:
        if isinstance(P, FancyArrowPatch):
            (a, b) = P._posA_posB
            a, b = np.asarray(a), np.asarray(b)
            u = at(surf, 0.5 * (a + b))
            if u is not None and np.linalg.norm(b - a) > 1e-12:
                n += 1
                t.check((b - a) @ u > 0, "streamline arrow against the field", at=a, **d)
    if surf.all_sure and surf.field.shape[0] > 3:
        t.check(n > (3 if "density" in opts else 10), "streamlines drawn", got=n, **d)
    t.note("streamline pieces compared", n)


def at(surf, p):
    """Bilinear field at p; None if a corner is missing, undetermined or the direction varies there."""
    ny, nx = surf.Z.shape
    i = int(np.clip(np.searchsorted(surf.x, p[0]) - 1, 0, nx - 2))
    j = int(np.clip(np.searchsorted(surf.y, p[1]) - 1, 0, ny - 2))
    c = [surf.field[j, i], surf.field[j, i + 1], surf.field[j + 1, i], surf.field[j + 1, i + 1]]
    if not (surf.sure[j, i] and surf.sure[j, i + 1] and surf.sure[j + 1, i] and surf.sure[j + 1, i + 1]) or not np.all(np.isfinite(c)):
        return None
    fx = (p[0] - surf.x[i]) / (surf.x[i + 1] - surf.x[i])
    fy = (p[1] - surf.y[j]) / (surf.y[j + 1] - surf.y[j])
    u = (c[0] * (1 - fx) + c[1] * fx) * (1 - fy) + (c[2] * (1 - fx) + c[3] * fx) * fy
    n = np.linalg.norm(c, axis=1)
    if n.min() < 1e-9 or np.linalg.norm(u) < 0.2 * n.max() or min(np.dot(a, u) / np.linalg.norm(a) / np.linalg.norm(u) for a in c) < 0.3:
        return None
    return u


# ------------------------------------------------------------------ one call
def limits(kind, vmin, vmax):
    """(clim, extra contourOpts, expected limits)."""
    a, b = vmin + 0.11 * (vmax - vmin), vmax - 0.17 * (vmax - vmin)
    return {"none": (None, {}, (vmin, vmax)), "clim": ([a, b], {}, (a, b)), "clim reversed": (np.array([b, a]), {}, (a, b)), "opts": (None, {"vmin": a, "vmax": b}, (a, b)),
            "opts min": (None, {"vmin": a}, (a, vmax)), "opts max": (None, {"vmax": b}, (vmin, b)), "clim and opts": ((a, b), {"vmin": a, "vmax": b}, (a, b)),
            "clim and min": ((a, b), {"vmin": a}, (a, b))}[kind]


def styles(kind, vmin, vmax):
    """(contourOpts, levelOpts)."""
    own = np.array([vmin + f * (vmax - vmin) for f in (0.2, 0.37, 0.81)])
    return {"none": ({}, {}), "style": ({"cmap": "cividis", "zorder": 7, "alpha": 0.5}, {"colors": "r", "zorder": 9}), "levels": ({"levels": own}, {"levels": own[:2]}), "extend": ({"extend": "both"}, {})}[kind]


def run_case(case, t):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return globals()["k_" + case["k"]](case, t, plt)
        finally:
            plt.close("all")


def mask_of(p, kind):
    return None if kind == "none" else np.array([k in (1, 4) for k in range(len(p))])


def frozen(args):
    return copy.deepcopy(args)


def same_args(t, before, after, **d):
    def eq(a, b):
        if isinstance(a, dict):
            return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
        if isinstance(a, np.ndarray):
            return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
        return type(a) is type(b) and a == b
    for k in before:
        t.check(eq(before[k], after[k]), "argument %s changed" % k, before=before[k], after=after[k], **d)


def k_draw(case, t, plt):
    from geoana.plotting_utils import plot2Ddata
    nx, ny = GRIDS[case["grid"]]
    vec, method, scale = case["vec"], case["method"], case["scale"]
    p, data = dataset(case["set"], vec, scale)
    mask = mask_of(p, case["mask"])
    surf = Surface(case["set"], p, data, nx, ny, method, scale, vec, mask)
    auto = surf.range() if surf.all_sure else None
    lo, hi = surf.range()
    n = 0
    for lim, opt, level, given in itertools.product(LIMITS, OPTS, LEVEL, (False, True)):
        if not t.thorough and (lim not in ("none", "clim") and opt != "none" or given != ((LIMITS.index(lim) + OPTS.index(opt) + level) % 2 == 0)):
            continue
        unknown = auto is None and lim in ("none", "opts min", "opts max")
        clim, extra, want = limits(lim, lo, hi)
        cO, lO = styles(opt, lo, hi)
        nc = (10, 4, 1, 7)[n % 4]
        xyz = p.copy() if n % 2 else np.c_[p, np.linspace(5.0, 9.0, len(p))]
        n += 1
        args = dict(xyz=xyz, data=data.copy(), mask=None if mask is None else mask.copy(), contourOpts=dict(cO, **extra), levelOpts=dict(lO), clim=clim, streamplotOpts={} if n < 3 else {"density": 0.3})
        before = frozen(args)
        d = dict(limits=lim, style=opt, level=level, ncontour=nc, axes=given)
        t.state(repr(case), lim, opt, level, given)
        t.step()
        figs = set(plt.get_fignums())
        if given:
            ax0 = plt.figure().add_subplot(111)
            other = plt.figure().add_subplot(111)
            figs = set(plt.get_fignums())
        kw = dict(args, vec=vec, nx=nx, ny=ny, method=method, scale=scale, level=level, ncontour=nc)
        if given:
            kw["ax"] = ax0
        out = plot2Ddata(kw.pop("xyz"), kw.pop("data"), **kw)
        same_args(t, before, args, **d)
        if not t.check(len(out) == (3 if level else 2), "objects returned", got=len(out), **d):
            continue
        cont, ax = out[:2]
        t.check(cont.axes is ax, "the axes returned hold the plot", **d)
        if given:
            t.check(ax is ax0 and set(plt.get_fignums()) == figs and not other.has_data(), "drawn on the given axes only", **d)
        else:
            t.check(len(set(plt.get_fignums()) - figs) == 1 and ax.figure.number not in figs, "drawn on a figure of its own", **d)
        if unknown:
            want = (cont.norm.vmin, cont.norm.vmax)
        check_norm(t, cont.norm, want[0], want[1], scale, **d)
        levels = np.array([want[0] * (want[1] / want[0]) ** f if scale == "log" else want[0] + f * (want[1] - want[0]) for f in np.linspace(0, 1, nc + 1)])
        clev = cO.get("levels", levels)
        t.close("contour levels", np.asarray(cont.levels, dtype=float), clev, 1e-9, scale=np.max(np.abs(clev)), vec=False, **d)
        t.check(cont.get_zorder() == cO.get("zorder", 1), "order of the fill", got=cont.get_zorder(), **d)
        t.check(cont.get_cmap().name == cO.get("cmap", plt.rcParams["image.cmap"]), "colour map", got=cont.get_cmap().name, **d)
        t.check(cont.get_alpha() == cO.get("alpha"), "opacity", **d)
        check_fill(t, "fill", cont, surf, clev, cO.get("extend", "neither"), **d)
        if level:
            check_lines(t, "lines", out[2], surf, lO.get("levels", levels), **d)
            t.check(out[2].axes is ax and out[2].get_zorder() == lO.get("zorder", 3), "order of the level lines", got=out[2].get_zorder(), **d)
            if "colors" in lO:
                import matplotlib.colors as mc
                t.check(mc.same_color(out[2].get_edgecolor()[0], "r"), "colour of the level lines", **d)
        if vec:
            check_stream(t, ax, surf, args["streamplotOpts"], **d)
        t.check(ax.get_aspect() in (1.0, "equal"), "aspect", got=ax.get_aspect(), **d)
        t.check(not ax.lines, "data locations not asked for", **d)
        plt.close("all")
    t.sample(dict(case, option_sets=n))


def k_shade(case, t, plt):
    """Shading: Lambert's cosine between the surface normal (unit cells) and the light."""
    from geoana.plotting_utils import plot2Ddata
    from matplotlib.contour import ContourSet
    nx, ny = 8, 6
    vec, scale = case["vec"], case["scale"]
    p, data = dataset(case["set"], vec, scale)
    mask = mask_of(p, case["mask"])
    surf = Surface(case["set"], p, data, nx, ny, "linear", scale, vec, mask)
    for az, alt, nc, opts in itertools.product((-45.0, 0.0, 100.0), (45.0, 20.0), (100, 12), ({}, {"cmap": "bone", "alpha": 0.8, "zorder": 5})):
        if case["set"] == "affine" or (case["set"] == "grid" and not vec):
            continue                                   # a plane has one shade
        t.state(repr(case), az, alt, nc, len(opts))
        t.step()
        o = dict(opts)
        kw = {} if (az, alt, nc) == (-45.0, 45.0, 100) else dict(shade_azimuth=az, shade_angle_altitude=alt, shade_ncontour=nc)
        cont, ax = plot2Ddata(p, data, vec=vec, nx=nx, ny=ny, scale=scale, mask=mask, shade=True, shadeOpts=o, streamplotOpts={"density": 0.3}, **kw)
        t.check(o == opts, "shadeOpts changed")
        sh = [c for c in ax.collections if isinstance(c, ContourSet) and c is not cont]
        d = dict(azimuth=az, altitude=alt, n=nc)
        if not t.check(len(sh) == 1, "one shading layer", got=len(sh), **d):
            continue
        sh = sh[0]
        t.check(sh.get_zorder() == opts.get("zorder", 2) and sh.get_alpha() == opts.get("alpha", 0.35) and sh.get_cmap().name == opts.get("cmap", "Greys"), "shading style", **d)
        t.check(nc / 5 <= len(sh.levels) <= nc + 6, "number of shades", got=len(sh.levels), **d)
        # normal of the surface z(column, row); light from the azimuth at the altitude
        Z = surf.Z
        gy, gx = np.gradient(np.ma.masked_invalid(Z).filled(np.nan))
        a, h = np.deg2rad(360.0 - az), np.deg2rad(alt)
        # light (column, row) direction and its cosine with the upward normal
        L = np.array([np.cos(a - np.pi / 2) * np.cos(h), -np.sin(a - np.pi / 2) * np.cos(h), np.sin(h)])
        lam = (L[0] * gx + L[1] * gy + L[2]) / np.sqrt(1 + gx ** 2 + gy ** 2)
        S = copy.copy(surf)
        S.Z = 255 * (lam + 1) / 2
        sure = surf.sure.copy()
        for ax_ in (0, 1):
            r = surf.sure
            for s in (1, -1):
                sure &= np.roll(r, s, axis=ax_)
        edge = np.zeros_like(sure)
        edge[1:-1, 1:-1] = True
        S.sure = sure & edge if not surf.sure.all() else surf.sure
        if mask is not None or not np.isfinite(Z).all():
            ok = np.isfinite(S.Z)
            for ax_ in (0, 1):
                for s in (1, -1):
                    ok &= np.roll(np.isfinite(Z), s, axis=ax_)
            ok &= edge
            S.sure = S.sure & ok
        check_fill(t, "shading", sh, S, np.asarray(sh.levels), **d)
        check_fill(t, "fill under the shading", cont, surf, np.asarray(cont.levels), **d)
        plt.close("all")
    t.sample(case)


def k_extras(case, t, plt):
    """Data locations, saved figures, streamline options."""
    from geoana.plotting_utils import plot2Ddata
    vec = case["vec"]
    p, data = dataset("scattered", vec, "linear")
    tmp = tempfile.mkdtemp(prefix="c28-")
    try:
        for level, given, loc, save, ext in itertools.product((False, True), (False, True), (False, True), (False, True), ("png", "pdf")):
            if not save and ext == "pdf":
                continue
            t.state("extras", vec, level, given, loc, save, ext)
            t.step()
            name = os.path.join(tmp, "f%d.%s" % (t.transitions, ext))
            kw = {}
            if given:
                f = plt.figure(figsize=(1.5, 1.0))
                kw["ax"] = f.add_subplot(111)
                decoy = plt.figure(figsize=(1, 1))
            else:
                plt.rcParams["figure.figsize"] = (1.5, 1.0)
            so = {"color": "m", "zorder": 8, "density": 0.5} if level else {}
            keep = dict(so)
            out = plot2Ddata(p, data, vec=vec, nx=6, ny=5, level=level, dataloc=loc, figname=name if save else None, streamplotOpts=so, **kw)
            d = dict(level=level, axes=given, dataloc=loc, save=save)
            t.check(so == keep, "streamplotOpts changed", **d)
            t.check(len(out) == 2 + level, "objects returned", **d)
            ax = out[1]
            t.check(os.path.exists(name) == save and (not save or os.path.getsize(name) > 500), "figure saved", **d)
            if save and ext == "png":
                im = plt.imread(name)
                want = np.array([1.0, 1.5]) * 200
                t.check(np.all(np.abs(np.array(im.shape[:2]) - want) <= 1) and im[..., :3].std() > 0.01, "saved picture holds the plot", shape=im.shape, **d)
            t.check(ax.axison == (not save), "frame hidden in saved pictures only", **d)
            pts = [ln.get_xydata() for ln in ax.lines]
            t.check(len(pts) == int(loc), "data locations drawn when asked for", got=len(pts), **d)
            if loc and pts:
                t.close("data locations", np.asarray(pts[0]), p, 1e-12, scale=1.0, vec=False, **d)
                t.check(ax.lines[0].get_linestyle() in ("None", "none", " ", ""), "data locations are dots", **d)
            if vec:
                check_stream(t, ax, Surface("scattered", p, data, 6, 5, "linear", "linear", True, None), so, **d)
            plt.close("all")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        plt.rcdefaults()
    t.sample(case)


def k_limits(case, t, plt):
    """Colour limits given twice: accepted when equal, rejected when not."""
    from geoana.plotting_utils import plot2Ddata
    p, data = dataset("affine", case["vec"], case["scale"])
    data = data * case["size"]
    ends = [e * case["size"] for e in ([-4.0, 0.0, 5.0] if case.get("signed") else [2.0, 5.0, 9.0, 20.0])]
    for lo, hi in itertools.combinations(ends, 2):
        for c in ([lo, hi], [hi, lo]):
            for vm, vx in itertools.product([None] + ends, repeat=2):
                t.state(repr(case), lo, hi, c[0], vm, vx)
                t.step()
                o = {k: v for k, v in (("vmin", vm), ("vmax", vx)) if v is not None}
                keep = dict(o)
                ok = (vm in (None, lo)) and (vx in (None, hi))
                try:
                    cont, ax = plot2Ddata(p, data, vec=case["vec"], nx=4, ny=3, scale=case["scale"], clim=c, contourOpts=o, streamplotOpts={"density": 0.2})
                except Exception:
                    t.check(not ok, "consistent limits rejected", clim=c, opts=keep)
                else:
                    t.check(ok, "contradicting limits accepted", clim=c, opts=keep)
                    if ok:
                        check_norm(t, cont.norm, lo, hi, case["scale"], clim=c, opts=keep)
                t.check(o == keep, "contourOpts changed", before=keep, after=o)
                plt.close("all")
    t.sample(case)


def k_ranges(case, t, plt):
    """Limits of every size and every number of decades, however given: colour scale and levels."""
    from geoana.plotting_utils import plot2Ddata
    p, _ = dataset("grid", False, case["scale"])
    for a, dec in itertools.product(range(-15, 13, 3 if t.thorough else 9), DECADES):
        lo = 1.7 * 10.0 ** a
        hi = lo * 10.0 ** dec
        mid = lo * (hi / lo) ** np.array([0.0, 0.4, 0.7, 1.0, 0.2, 0.9, 0.5, 0.1, 0.6, 0.3, 0.8, 0.55])
        ends = [(lo, hi)] + ([(-hi, lo), (-lo, hi), (-hi, -lo), (0.0, hi), (-hi, 0.0)] if case["scale"] == "linear" and not case["vec"] else [])
        for (lo, hi), nc in itertools.product(ends, (1, 7, 120)):
            t.state(repr(case), a, dec, lo, nc)
            t.step()
            z = mid if (lo, hi) == ends[0] else lo + (hi - lo) * np.linspace(0, 1, 12)[[0, 3, 5, 11, 2, 1, 4, 6, 7, 8, 9, 10]]
            z[[0, 3]] = lo, hi
            z = np.clip(z, lo, hi)
            if case["scale"] == "log" and case["way"] != "data":
                z = z * np.where(np.arange(12) % 5 == 1, -1.0, 1.0)
            data = np.c_[z, np.zeros(12)] if case["vec"] else z
            kw = {"clim": {"clim": (lo, hi)}, "contourOpts": {"contourOpts": {"vmin": lo, "vmax": hi}}, "data": {}}[case["way"]]
            cont = plot2Ddata(p, data, vec=case["vec"], nx=4, ny=3, scale=case["scale"], method="nearest", ncontour=nc, streamplotOpts={"density": 0.2}, **kw)[0]
            check_norm(t, cont.norm, lo, hi, case["scale"], limits=(lo, hi))
            f = np.linspace(0, 1, nc + 1)
            want = lo * (hi / lo) ** f if case["scale"] == "log" else lo + f * (hi - lo)
            got = np.asarray(cont.levels, dtype=float)
            if t.check(got.shape == want.shape, "number of contours", got=len(got) - 1, want=nc, limits=(lo, hi)):
                t.close("levels", got, want, 1e-9, scale=np.abs(want) if case["scale"] == "log" else max(abs(lo), abs(hi)), vec=False, limits=(lo, hi))
            plt.close("all")
        if t.violations:
            return
    t.sample(case)


def k_sizes(case, t, plt):
    """Data of every magnitude, and locations of every size and offset, give the same picture."""
    from geoana.plotting_utils import plot2Ddata

    def shown(a, ox, oy, size, own):
        p, data = dataset("scattered", case["vec"], case["scale"])
        out = plot2Ddata(p * a + np.array([ox, oy]), data * size, vec=case["vec"], nx=6, ny=5, scale=case["scale"], method=case["method"], ncontour=4, level=True, streamplotOpts={"density": 0.2},
                         clim=None if own else [1.37 * size, 10.3 * size])
        res = [np.asarray(out[0].levels) / size, np.array(out[0].get_clim()) / size]
        # geometry only for levels which no value coincides with, where it does not hang on the last digit
        res += [] if own else [(np.concatenate([np.asarray(q.vertices) for q in c.get_paths()] or [np.zeros((0, 2))]) - [ox, oy]) / a for c in (out[0], out[2])]
        if not own:
            res.append(np.ravel(out[0].get_facecolor()))
        plt.close("all")
        return res
    base = [shown(1.0, 0.0, 0.0, 1.0, own) for own in (True, False)]
    ways = [(1.0, 0.0, 0.0, 10.0 ** e) for e in range(-18, 13)] + [(2.0 ** e, 0.0, 0.0, 1.0) for e in range(-12, 22, 3)] + [(2.0 ** e, ox, oy, 1e-9) for e in (0, 5, 12) for ox, oy in ((512.0, -1024.0), (524288.0, 4194304.0), (0.0, 4194304.0))]
    for w in ways:
        t.state("size", repr(case), w)
        t.step(2)
        got = [shown(*w, own) for own in (True, False)]
        for gs, bs in zip(got, base):
            for what, g, b in zip(("levels", "colour limits", "fill", "lines", "colours"), gs, bs):
                t.close("%s of scaled data or locations" % what, g, b, 0.02 if what == "colours" else 1e-6, scale=10.0 if what != "colours" else 1.0, vec=False, locations=w[:3], data=w[3])
        if t.violations:
            return
    t.sample(case)


def k_combine(case, t, plt):
    """Each element of the picture (fill, shading, lines, streamlines, dots) is the same whatever else is asked for."""
    from geoana.plotting_utils import plot2Ddata
    from matplotlib.collections import LineCollection
    from matplotlib.contour import ContourSet
    vec, scale = case["vec"], case["scale"]
    p, data = dataset("scattered", vec, scale)
    mask = mask_of(p, case["mask"])
    zo = {"contourOpts": 11, "levelOpts": 13, "streamplotOpts": 14, "shadeOpts": 12}
    tmp = tempfile.mkdtemp(prefix="c28-")

    def look(c):
        return (type(c).__name__, c.get_zorder(), c.get_alpha(), np.round(c.get_facecolor(), 6).tolist(), np.round(c.get_edgecolor(), 6).tolist(), [np.round(q.vertices, 9).tolist() for q in c.get_paths()], np.asarray(getattr(c, "levels", [])).tolist())

    def parts(level, shade, loc, given, save, clim, n):
        plt.rcParams["figure.figsize"] = (1.5, 1.0)
        kw = {k: {"zorder": z} for k, z in zo.items()}
        kw["streamplotOpts"]["density"] = 0.2
        if given:
            kw["ax"] = plt.figure().add_subplot(111)
        name = os.path.join(tmp, "p%d.svg" % n)
        out = plot2Ddata(p, data, vec=vec, nx=6, ny=5, method=case["method"], scale=scale, mask=mask, ncontour=4, shade=shade, level=level, dataloc=loc, figname=name if save else None,
                         clim=[2.3, 8.1] if clim else None, shade_ncontour=6, **kw)
        ax = out[1]
        t.check(len(out) == 2 + level and (not save or os.path.getsize(name) > 500), "objects returned and picture saved", level=level, save=save)
        by = {}
        for c in ax.collections:
            by.setdefault({11: "fill", 12: "shading", 13: "lines", 14: "streamlines"}.get(c.get_zorder(), "other"), []).append(look(c))
        by["dots"] = [(np.asarray(ln.get_xydata()).tolist(), ln.get_marker(), ln.get_linestyle(), ln.get_color(), ln.get_markersize()) for ln in ax.lines]
        by["frame"] = [(ax.get_aspect(), ax.axison, list(ax.get_xlim()), list(ax.get_ylim()))]
        plt.close("all")
        return {k: v for k, v in by.items() if v}
    try:
        ref = {c: parts(True, True, True, False, False, c, 0) for c in (False, True)}
        for c, r in ref.items():
            want = {"fill", "shading", "lines", "dots", "frame"} | ({"streamlines"} if vec else set())
            t.check(set(r) == want and all(len(v) == 1 for v in r.values()), "elements of the full picture", got={k: len(v) for k, v in r.items()}, want=sorted(want), clim=c)
        if t.violations:
            return
        for n, (level, shade, loc, given, save, clim) in enumerate(itertools.product((False, True), repeat=6)):
            t.state(repr(case), level, shade, loc, given, save, clim)
            t.step()
            got = parts(level, shade, loc, given, save, clim, n + 1)
            on = {"fill": True, "shading": shade, "lines": level, "streamlines": vec, "dots": loc, "frame": True}
            for k, yes in on.items():
                want = ref[clim][k] if yes else []
                have = got.pop(k, [])
                if k == "frame":
                    want = [(want[0][0], not save) + want[0][2:]]
                    if not loc:             # the locations may widen the frame
                        want, have = [want[0][:2]], [have[0][:2]]
                t.check(have == want, "the %s depend%s on what else is drawn" % (k, "" if k[-1] == "s" else "s"), level=level, shade=shade, dataloc=loc, axes=given, save=save, clim=clim, drawn=len(have), wanted=len(want))
            t.check(not got, "something else is drawn", got={k: len(v) for k, v in got.items()}, level=level, shade=shade, dataloc=loc)
            t.outcome((level, shade, loc, save))
            if t.violations:
                return
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        plt.rcdefaults()
    t.sample(case)


# ------------------------------------------------------------------ histories
PAIRS = [{}, {"vec": True}, {"scale": "log"}, {"vec": True, "scale": "log"}, {"clim": [3.0, 9.0]}, {"contourOpts": {"vmin": 2.0, "vmax": 8.0}}, {"contourOpts": {"cmap": "cividis", "zorder": 6}},
         {"level": True}, {"level": True, "levelOpts": {"levels": [3.0, 5.0], "colors": "r"}}, {"mask": True}, {"vec": True, "mask": True, "level": True}, {"method": "nearest"}, {"shade": True},
         {"shade": True, "shadeOpts": {"alpha": 0.7, "cmap": "bone"}}, {"vec": True, "streamplotOpts": {"color": "m", "density": 0.5}}, {"dataloc": True}, {"ncontour": 3}, {"clim": [1.0, 12.0], "level": True}]


def signature(opts, plt, shared=None):
    from geoana.plotting_utils import plot2Ddata
    p, data = dataset("scattered", opts.get("vec", False), "linear")
    data = np.abs(data)
    kw = dict(opts) if shared is None else dict(opts, **shared)
    if kw.get("mask"):
        kw["mask"] = mask_of(p, "mask")
    out = plot2Ddata(p, data, nx=5, ny=4, **kw)
    ax = out[1]
    sig = []
    for c in ax.collections:
        V = [np.round(q.vertices, 9).tolist() for q in c.get_paths()]
        sig.append((type(c).__name__, c.get_zorder(), c.get_alpha(), np.round(c.get_facecolor(), 6).tolist(), np.round(c.get_edgecolor(), 6).tolist(), V, np.asarray(getattr(c, "levels", [])).tolist()))
    sig.append(len(ax.lines))
    plt.close("all")
    return repr(sig)


def k_pairs(case, t, plt):
    first = PAIRS[case["i"]]
    alone = [signature(copy.deepcopy(o), plt) for o in PAIRS]
    for j, second in enumerate(PAIRS):
        t.state("pair", case["i"], j)
        t.step(2)
        signature(copy.deepcopy(first), plt)
        t.check(signature(copy.deepcopy(second), plt) == alone[j], "a plot depends on the plots made before", first=first, second=second)
        t.outcome(alone[j])
    # one set of option dictionaries used for every call
    shared = {"contourOpts": {"zorder": 6}, "levelOpts": {"zorder": 7}, "streamplotOpts": {"zorder": 8}, "shadeOpts": {"zorder": 9}}
    keep = copy.deepcopy(shared)
    base = {k: v for k, v in first.items() if not k.endswith("Opts")}
    a = signature(base, plt, shared)
    t.check(shared == keep, "shared options changed", after=shared)
    for o in PAIRS:
        signature({k: v for k, v in o.items() if not k.endswith("Opts")}, plt, shared)
    t.step(len(PAIRS))
    t.check(signature(base, plt, shared) == a and shared == keep, "a plot depends on other plots with the same options", first=first)
    t.sample(first)
