"""C17: invalid parameters are rejected and leave the source unchanged."""
import itertools
from datetime import datetime

import numpy as np

from ..core import same
from ..spec import BY_NAME, QUAKE, SPECS

TECHNIQUE = "exhaustive enumeration of states x parameters x invalid and valid values on the real classes; every property and evaluation compared before and after"


def states_of(s, tier):
    """Start, every single-parameter change from it, and (thorough) every pair of changes."""
    ops = [(p, i) for p, d in s.params.items() for i in range(1, len(d["values"]))]
    out = [[]] + [[o] for o in ops]
    if tier == "thorough":
        out += [[a, b] for a, b in itertools.combinations(ops, 2) if a[0] != b[0]]
    return out


def bounds(tier):
    return {"states": {s.name: len(states_of(s, tier)) for s in SPECS + QUAKE},
            "invalid values": {s.name: {p: len(d["bad"]) for p, d in list(s.params.items()) + list(s.alias.items())} for s in SPECS + QUAKE},
            "edges": "ends of every documented domain, and sizes 1e-300..1e300, by constructor and assignment",
            "spellings": {s.name: {p: len(d["spell"]) for p, d in s.params.items()} for s in SPECS + QUAKE}}


def cases(tier):
    out = []
    for s in SPECS + QUAKE:
        out += [{"c": s.name, "k": "assign", "st": st} for st in states_of(s, tier)]
        out += [{"c": s.name, "k": k} for k in ("construct", "spell", "defaults", "edges")]
    return out + [{"c": "points", "k": "points"}, {"c": "prism", "k": "prism"}, {"c": "layers", "k": "layers"}]


POS, ANY = [1e-300, 1e-30, 1e-9, 1e9, 1e30, 1e300], [0.0, -0.0, 1e-300, -1e-300, 1e300, -1e300]
VECS = [[0.0, 0.0, 0.0], [1e300, -1e300, -1e-300], [-1e9, 1e-9, -1.0], [7e5, 4.2e6, -0.0]]
EDGES = dict(sigma=POS, mu=POS, rho=POS, length=POS, radius=POS, sigma_sphere=POS, sigma_background=POS, mu_sphere=POS, mu_background=POS, epsilon=POS, moment=ANY, current=ANY, amplitude=ANY, mass=ANY,
             location_a=VECS, location_b=VECS, primary_field=VECS + [[0.0, 0.0, -1.0]], magnetization=VECS + [[0.0, -3.0, 0.0]],
             frequency=[1e-9, 1e12, [1e-12, 1e15], [5.0] * 7], time=[1e-12, 1e9, [1e-15, 1e9], [5.0] * 7])
QUAKE_EDGES = dict(strike=[0.0, 360.0, 1e-9, 359.999, 180.0], dip=[0.0, 90.0, 1e-9, 89.999], rake=[-180.0, 180.0, 0.0, -1e-9, 179.999], depth_top=[0.0, 1e-9, 2999.0], depth_bottom=[501.0, 1e6],
                   slip=[0.0, 1e-9, 1e4], length=[0.0, 1e-9, 1e7], mu=[1e-3, 1e15], beta=[0.0, 1e-3, 1e15],
                   ref_incidence=[0.0, 90.0, 45.0], satellite_azimuth=[0.0, 359.9, 360.0, -90.0], scaling=[1e-9, -1.0, 1e9])


def edges(s, t):
    """Values at and next to the ends of the documented domain, and of every order: accepted, by constructor and assignment, and reported."""
    table = dict(QUAKE_EDGES) if s in QUAKE else dict(EDGES, location=VECS)
    if s.domain in ("below", "above", "surf"):
        for k in ("location", "location_a", "location_b"):
            table[k] = [[0.0, 0.0, 0.0], [1e9, -1e9, 0.0]] + {"below": [[0.0, 0.0, -1e-300], [3.0, 2.0, -1e300]], "above": [[0.0, 0.0, 1e-300], [3.0, 2.0, 1e300]], "surf": []}[s.domain]
    if "gravity" in s.name:
        table["radius"] = [1e-90, 1e-9, 1e9, 1e90]      # the volume is a number too
    if "Layered" in s.name:
        for k in ("sigma", "mu", "epsilon", "frequency"):
            table.pop(k)
    for p in s.params:
        for v in table.get(p, []):
            for how in ("constructor", "assignment"):
                t.state(s.name, "edge", p, repr(v), how)
                t.step()
                try:
                    if how == "constructor":
                        o = s.make(None, **{p: v})
                    else:
                        o = s.make()
                        setattr(o, p, v)
                    g = getattr(o, p)
                except Exception as e:
                    t.fail("%s.%s = %r by %s is not accepted" % (s.name, p, v, how), error=repr(e))
                    continue
                t.close("%s.%s by %s" % (s.name, p, how), np.asarray(g), np.asarray(v, float), tol=1e-15, vec=False, value=v)


def snapshot(s, o):
    return s.report(o), s.evaluate(o, s.points[:2])


def same_snap(t, s, what, a, b, **d):
    ok = True
    for part, x, y in (("property", a[0], b[0]), ("evaluation", a[1], b[1])):
        for k in x:
            ok = t.same("%s: %s %s.%s changed" % (what, part, s.name, k), y[k], x[k], **d) and ok
    return ok


def run_case(case, t):
    k = case["k"]
    if k == "points":
        return points(t)
    if k == "prism":
        return prism(t)
    if k == "layers":
        return layers(t)
    s = BY_NAME[case["c"]]
    if k == "edges":
        return edges(s, t)
    if k == "assign":
        st = s.start()
        for p, i in case["st"]:
            st[p] = s.params[p]["values"][i]
        o = s.make(st)
        before = snapshot(s, o)
        for p, d in list(s.params.items()) + list(s.alias.items()):
            for j, v in enumerate(d["bad"]):
                t.state(s.name, repr(st), p, j)
                if not t.raises("%s.%s = %r" % (s.name, p, v), setattr, o, p, v):
                    return
                if not same_snap(t, s, "rejected %s" % p, before, snapshot(s, o), value=v, state=st):
                    return
                t.step(len(s.calls()))
            # several rejections in a row, then a valid value: works as if nothing had happened
            if p in s.params:
                v = d["values"][-1]
                setattr(o, p, v)
                f = s.make(dict(st, **{p: v}))
                if not same_snap(t, s, "valid %s after rejections" % p, snapshot(s, f), snapshot(s, o), state=st):
                    return
                o = s.make(st)
        t.outcome(s.name, repr(before[0]))
        t.sample({"class": s.name, "state": st})
        return
    if k == "construct":
        for p, d in s.params.items():
            for j, v in enumerate(d["bad"]):
                if v is None and p not in s.required and p in ("location", "location_a", "location_b", "primary_field", "magnetization"):
                    continue  # None asks for the default
                t.state(s.name, "construct", p, j)
                if not t.raises("%s(%s=%r)" % (s.name, p, v), s.make, None, **{p: v}):
                    return
                if p not in s.required:
                    t.raises("%s(%s=%r) alone" % (s.name, p, v), s.build, **dict({q: s.start()[q] for q in s.required}, **{p: v}))
        for q in s.required:
            t.raises("%s without %s" % (s.name, q), s.build, **{p: v for p, v in s.start().items() if p != q})
        t.raises("%s with an unknown argument" % s.name, s.make, None, no_such_argument=1.0)
        return
    if k == "defaults":
        kw = {q: s.start()[q] for q in s.required}
        o = s.build(**kw)
        snapshot(s, o)
        t.step()
        # any subset of two optional arguments
        opt = [p for p in s.params if p not in s.required]
        for a, b in itertools.combinations(opt, 2):
            for i, j in itertools.product(range(len(s.params[a]["values"])), range(len(s.params[b]["values"]))):
                va, vb = s.params[a]["values"][i], s.params[b]["values"][j]
                o1 = s.build(**dict(kw, **{a: va, b: vb}))
                o2 = s.build(**kw)
                setattr(o2, a, va)
                setattr(o2, b, vb)
                t.state(s.name, "defaults", a, b, i, j)
                t.step(3)
                if not same_snap(t, s, "given at construction or assigned", snapshot(s, o1), snapshot(s, o2), first=a, second=b):
                    return
        return
    # every accepted spelling of a value means the same
    base = s.make()
    want = snapshot(s, base)
    for p, d in s.params.items():
        for j, v in enumerate(d["spell"]):
            t.state(s.name, "spell", p, j)
            t.step(2)
            o = s.make(None, **{p: v})
            o2 = s.make(None, **{p: d["values"][-1]})
            setattr(o2, p, v)
            for q in (o, o2):
                rep, ev = snapshot(s, q)
                for x in want[0]:
                    g, w = rep[x], want[0][x]
                    if isinstance(w, (str, datetime)) or isinstance(g, (str, datetime)):
                        t.same("spelling", g, w)
                    else:
                        t.close("spelling: %s.%s" % (s.name, x), np.asarray(g) + 0, np.asarray(w) + 0, tol=1e-14, vec=False, atol=1e-300, parameter=p, value=v)
                for x in want[1]:
                    g, w = ev[x], want[1][x]
                    for gg, ww in zip(g, w) if isinstance(w, tuple) else [(g, w)]:
                        t.close("spelling: %s.%s" % (s.name, x), gg, ww, tol=1e-12, scale=np.max(np.abs(ww)) if np.size(ww) else 1.0, parameter=p, value=v)


def points(t):
    """Observation points outside the documented domain are rejected, and nothing changes."""
    for s in SPECS:
        o = s.make()
        before = snapshot(s, o)
        bad = []
        if s.nd:
            bad = [np.zeros(2) + 9.5, np.zeros((4, 2)) + 9.5, np.zeros((3, 4)) + 9.5, 3.0, np.zeros((3, 1)), "abc", [[1.0, 2.0, 3.0], [1.0, 2.0]]]
            if s.domain == "surf":
                bad = bad[2:]
        if s.domain == "below":
            bad += [np.array([1.0, 2.0, 1e-9]), np.array([[5.0, 5.0, -1.0], [3.0, 3.0, 2.0]]), np.array([[[5.0, 5.0, 1.0]], [[3.0, 3.0, -2.0]]])]
        if s.domain == "above":
            bad += [np.array([[5.0, 5.0, -1e-9]]), np.array([[5.0, 5.0, 3.0], [5.0, 6.0, -2.0]])]
        for i, b in enumerate(bad):
            for m, kw, rank in s.calls():
                t.state(s.name, "points", i, m)
                t.raises("%s.%s at invalid points %r" % (s.name, m, b), getattr(o, m), b, **kw)
                if s.pair:
                    t.raises("%s.%s at invalid second points %r" % (s.name, m, b), getattr(o, m), s.points[:2], b)
                    t.raises("%s.%s at invalid first points %r" % (s.name, m, b), getattr(o, m), b, s.points[:2])
            if not same_snap(t, s, "rejected points", before, snapshot(s, o)):
                return
        for m, kw, rank in s.calls():
            if "coordinates" in kw:
                for c in ("spherical", "", "cyl", "cartesian ", None, 3):
                    t.raises("%s.%s coordinates=%r" % (s.name, m, c), getattr(o, m), s.points, coordinates=c)
        if not same_snap(t, s, "rejected coordinates", before, snapshot(s, o)):
            return


def prism(t):
    """A prism needs max > min in every direction, in every combination."""
    from geoana.em.static import MagneticPrism
    from geoana.gravity import Prism
    for cls in (MagneticPrism, Prism):
        for d in itertools.product((1.0, 0.0, -1.0, 1e-3, -1e-3), repeat=3):
            lo = np.array([0.5, -1.0, 2.0])
            hi = lo + d
            t.state(cls.__name__, d)
            if min(d) > 0:
                o = cls(lo, hi)
                t.step()
                t.close("volume", o.volume, np.prod(d), tol=1e-9)
            else:
                t.raises("%s(%s, %s)" % (cls.__name__, lo, hi), cls, lo, hi)


def layers(t):
    """Layer arrays have to match the thicknesses and frequencies."""
    from geoana.em.fdem import MagneticDipoleLayeredHalfSpace as cls
    from scipy.constants import epsilon_0, mu_0
    for nth, nf, ns in itertools.product(range(0, 4), (1, 2, 3, 4), range(1, 6)):
        th = None if nth == 0 else list(np.arange(1.0, nth + 1))
        fr = list(10.0 ** np.arange(nf))
        for name, v in (("sigma", 0.1), ("mu", 2 * mu_0), ("epsilon", 3 * epsilon_0)):
            for shape in [(ns,)] + [(ns, m) for m in range(1, 6)]:
                ok = shape == (nth + 1,) or shape == (nth + 1, nf)
                t.state("layers", nth, nf, name, shape)
                a = np.full(shape, v)
                if ok:
                    o = cls(fr, th, **{name: a})
                    t.step()
                    t.same("layered " + name, np.asarray(getattr(o, name)), a.astype(complex))
                    o.magnetic_field(np.array([[10., 0., 1.]]))
                else:
                    t.raises("layered %s of shape %s for %d layers, %d frequencies" % (name, shape, nth + 1, nf), cls, fr, th, **{name: a})
                    o = cls(fr, th)
                    b = np.array(getattr(o, name))
                    t.raises("assigning layered %s of shape %s" % (name, shape), setattr, o, name, a)
                    t.same("layered %s kept" % name, np.asarray(getattr(o, name)), b)
