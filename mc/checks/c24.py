"""C24: cylindrical input and output agrees with Cartesian."""
import itertools

import numpy as np

from ..spec import BY_NAME, SPECS

TECHNIQUE = "exhaustive enumeration of source states x points given in both systems x shapes on the real methods, compared through an independent conversion"
CYL = [s.name for s in SPECS if any("coordinates" in kw for _, _, kws in s.methods for kw in kws)]
RHO = [0.0, 0.5, 1.75, 30.0]
PHI = [0.0, 0.4, np.pi / 2, 2.5, np.pi, -np.pi, -2.0, -np.pi / 2, 4.0, -7.0]
Z = [-3.0, -0.375, 0.625, 8.0]
SHAPES = [(3,), (1, 3), (3, 3), (2, 3), (2, 3, 3), (3, 1, 3)]


def bounds(tier):
    return {"classes": CYL, "radius": RHO, "azimuth": PHI, "height": Z, "states": "full product of location, orientation, radius, strength and permeability domains", "unknown systems": BAD}


BAD = ["spherical", "", "CARTESIAN ", "polar", None, 3, "cyl"]


def states(s):
    names = list(s.params)
    doms = []
    for p in names:
        v = s.params[p]["values"]
        doms.append(v if p in ("location", "orientation", "radius", "moment", "current", "mu") else v[:1])
    return [dict(zip(names, c)) for c in itertools.product(*doms)]


def cases(tier):
    return [{"c": c, "o": i} for c in CYL for i in range(len(BY_NAME[c].params["orientation"]["values"]))]


def to_cart(c):
    return np.stack([c[..., 0] * np.cos(c[..., 1]), c[..., 0] * np.sin(c[..., 1]), c[..., 2]], -1)


def to_cyl_vec(c, v):
    k, s = np.cos(c[..., 1]), np.sin(c[..., 1])
    return np.stack([k * v[..., 0] + s * v[..., 1], -s * v[..., 0] + k * v[..., 1], v[..., 2]], -1)


def run_case(case, t):
    s = BY_NAME[case["c"]]
    C = np.array([[r, p, z] for r, p, z in itertools.product(RHO, PHI, Z)])
    meths = [m for m, r, kws in s.methods if any("coordinates" in kw for kw in kws)]
    ori = s.params["orientation"]["values"][case["o"]]
    for st in [x for x in states(s) if x["orientation"] == ori]:
        o = s.make(st)
        P = to_cart(C)
        # off the source itself, its wire, and (rounding decides there) its axis
        d = P - np.array(st["location"])
        n = {"X": [1., 0, 0], "Y": [0, 1., 0], "Z": [0, 0, 1.]}[ori.upper()] if isinstance(ori, str) else ori
        n = np.array(n) / np.linalg.norm(n)
        off = np.linalg.norm(d - (d @ n)[:, None] * n, axis=-1)
        a = st.get("radius", 0.0)
        ok = (np.linalg.norm(d, axis=-1) > 0.1) & ((off > 0.05) | (a == 0)) & (np.hypot(off - a, d @ n) > 0.05)
        P, c = P[ok], C[ok]
        t.state(s.name, repr(st))
        for m in meths:
            f = getattr(o, m)
            t.step(len(c))
            cart = f(P.copy(), coordinates="cartesian")
            t.same("%s.%s: default system" % (s.name, m), f(P.copy()), cart, state=st)
            sc = np.sqrt(np.sum(cart ** 2, -1, keepdims=True))
            sc = np.maximum(sc, 1e-6 * sc.max())
            got = f(c.copy(), coordinates="cylindrical")
            ax = c[:, 0] == 0.0
            if not t.close("%s.%s: cylindrical" % (s.name, m), got[~ax], to_cyl_vec(c, cart)[~ax], 1e-8, scale=sc[~ax], state=st):
                return
            # on the axis the azimuth of a point is a convention: upright component and horizontal length
            w, g = cart[ax], got[ax]
            if not (t.close("%s.%s: upright on the axis" % (s.name, m), g[:, 2], w[:, 2], 1e-8, scale=sc[ax, 0], state=st) and
                    t.close("%s.%s: horizontal on the axis" % (s.name, m), np.hypot(g[:, 0], g[:, 1]), np.hypot(w[:, 0], w[:, 1]), 1e-8, scale=sc[ax, 0], state=st)):
                return
            for sp in ("Cylindrical", "CYLINDRICAL", "Cartesian"):
                try:
                    r = f((P if sp.lower() == "cartesian" else c).copy(), coordinates=sp)
                except Exception:
                    continue  # other spellings may be rejected but not misread
                t.close("%s.%s: %s" % (s.name, m, sp), r, cart if sp.lower() == "cartesian" else got, 1e-12, scale=sc)
            for sh in SHAPES:
                k = int(np.prod(sh[:-1])) if len(sh) > 1 else 1
                q = c[:k].reshape(sh)
                w = got[:k].reshape(sh)
                t.step()
                t.close("%s.%s: cylindrical shape" % (s.name, m), f(q.copy(), coordinates="cylindrical"), w, 1e-12, scale=sc[:k].reshape(sh[:-1] + (1,)), shape=sh)
                t.step()
                t.close("%s.%s: cylindrical tuple" % (s.name, m), f(tuple(q[..., i].copy() for i in range(3)), coordinates="cylindrical"), w, 1e-12, scale=sc[:k].reshape(sh[:-1] + (1,)), shape=sh)
            q = c[:5].copy()
            f(q, coordinates="cylindrical")
            t.same("%s.%s: points unchanged" % (s.name, m), q, c[:5])
            for bad in BAD:
                t.raises("%s.%s: coordinates=%r" % (s.name, m, bad), f, P[:2].copy(), coordinates=bad)
    t.sample({"class": s.name, "orientation": ori, "points": len(C)})
