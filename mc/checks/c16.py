"""C16: a source is determined by its current parameters, not by its history."""
import itertools
from datetime import datetime, timedelta

import numpy as np

from scipy.constants import epsilon_0, mu_0

from ..core import same
from ..spec import BY_NAME, QUAKE, SPECS

TECHNIQUE = "exhaustive enumeration of all assignment/evaluation sequences up to a depth on the real classes, every reached state compared bit for bit with a freshly built object"


def depth(tier):
    return 4 if tier == "thorough" else 3


def ops_of(s, most=9):
    """(parameter, index) assignments, with at most `most` values per parameter."""
    return [(p, i) for p, d in list(s.params.items()) + list(s.alias.items()) for i in range(min(most, len(d["values"])))]


def bounds(tier):
    return {"depth": "all sequences of <= %d assignments over the full alphabet, of %d over two values per parameter" % (depth(tier) - 1, depth(tier)),
            "classes (alphabet size, two-valued alphabet size)": {s.name: [len(ops_of(s)), len(ops_of(s, 2))] for s in SPECS + QUAKE},
            "evaluation modes": ["only after the last assignment", "of everything, and of a second differently parametrised source, after every assignment"],
            "close values": "for every parameter and value, transitions to and from values differing by 1e-3..3e-16 in all or one component, permuted, mirrored, in map coordinates",
            "defaults": "every set of optional constructor and function arguments left out (of more than seven: all sets of up to three, and all but one)",
            "shapes of points": "two point sets of different size; all ordered pairs of 11 nearby, permuted or overwritten point sets"}


def cases(tier):
    out = []
    for s in SPECS + QUAKE:
        d = min(depth(tier), s.depth)
        full, two = len(ops_of(s)), len(ops_of(s, 2))
        for n in range(1, d):
            out += [{"c": s.name, "most": 9, "n": n, "first": list(f)} for f in itertools.product(range(full), repeat=max(n - 2, 0))]
        out += [{"c": s.name, "most": 2, "n": d, "first": list(f)} for f in itertools.product(range(two), repeat=d - 2)]
    out += [{"c": s.name, "near": p} for s in SPECS + QUAKE for p in list(s.params) + list(s.alias)]
    out += [{"c": s.name, "near": None} for s in SPECS]
    out += [{"c": s.name, "defaults": True} for s in SPECS + QUAKE] + [{"functions": i} for i in range(len(functions()))]
    return out


# The documented defaults.
O3, X3 = [0.0, 0.0, 0.0], [1.0, 0.0, 0.0]
EMD = dict(sigma=1.0, mu=mu_0, epsilon=epsilon_0)
DIP = dict(location=O3, orientation="X", **EMD)
DEFAULTS = {
    "static.MagneticDipoleWholeSpace": dict(moment=1.0, **DIP),
    "static.MagneticPoleWholeSpace": dict(moment=1.0, **DIP),
    "static.CircularLoopWholeSpace": dict(radius=np.pi ** -0.5, current=1.0, **DIP),
    "static.LineCurrentWholeSpace": dict(current=1.0, **EMD),
    "static.PointCurrentWholeSpace": dict(current=1.0, location=O3, mu=mu_0, epsilon=epsilon_0),
    "static.PointCurrentHalfSpace": dict(current=1.0, location=O3),
    "static.DipoleHalfSpace": dict(location_a=[-1.0, 0.0, 0.0], location_b=X3, current=1.0),
    "static.ElectrostaticSphere": dict(primary_field=X3, location=O3),
    "static.MagnetostaticSphere": dict(primary_field=X3, location=O3),
    "static.MagneticPrism": dict(magnetization=[0.0, 0.0, 1.0]),
    "gravity.PointMass": dict(mass=1.0, location=O3),
    "gravity.Sphere": dict(location=O3),
    "gravity.Prism": dict(rho=1.0),
    "fdem.ElectricDipoleWholeSpace": dict(quasistatic=False, length=1.0, current=1.0, **DIP),
    "fdem.MagneticDipoleWholeSpace": dict(quasistatic=False, moment=1.0, **DIP),
    "fdem.HarmonicPlaneWave": dict(quasistatic=False, amplitude=1.0, orientation="X", **EMD),
    "fdem.MagneticDipoleHalfSpace": dict(quasistatic=False, moment=1.0, **DIP),
    "fdem.MagneticDipoleLayeredHalfSpace": dict(quasistatic=False, moment=1.0, **DIP),
    "tdem.ElectricDipoleWholeSpace": dict(length=1.0, current=1.0, **DIP),
    "tdem.TransientPlaneWave": dict(amplitude=1.0, orientation="X", **EMD),
    "tdem.VerticalMagneticDipoleHalfSpace": dict(moment=1.0, **DIP),
    "earthquake.Oksar": dict(depth_bottom=10000.0, strike=0.0, dip=45.0, rake=90.0, slip=0.5, length=10000.0, beta=3e10, mu=3e10, shape=(300, 300)),
    "earthquake.EarthquakeInterferogram": dict(scaling=1.0, satellite_fringe_interval=0.028333, local_earth_radius=6371000.0, local_rigidity=3e10),
}
KEYWORDS = {"coordinates": "cartesian", "static field": "all", "fdem field": "secondary"}


def functions():
    """(module, function, positional arguments, documented defaults, other values)."""
    f, z = np.array([1.0, 30.0, 4e3]), np.array([1.0, 5.0, 300.0])
    t, xy = np.array([1e-6, 1e-4, 3e-2]), np.array([[3.0, 4.0, 0.0], [-10.0, 2.0, 0.0]])
    m, e = dict(mu=(mu_0, 3 * mu_0)), dict(epsilon=(epsilon_0, 50 * epsilon_0))
    loop = dict(radius=(1.0, 7.0), current=(1.0, -2.5), turns=(1, 4), **m)
    s = dict(sigma=(1.0, 0.03))
    out = [("fdem", "wavenumber", (f, 0.2), dict(quasistatic=(False, True), **m, **e)), ("fdem", "sigma_hat", (f, 0.2), dict(quasistatic=(False, True), **e)),
           ("fdem", "skin_depth", (f, 0.2), dict(quasistatic=(True, False), **m, **e)),
           ("fdem", "vertical_magnetic_field_horizontal_loop", (f,), dict(secondary=(True, False), **loop, **s)),
           ("fdem", "vertical_magnetic_flux_horizontal_loop", (f, 0.7), dict(secondary=(True, False), **loop)),
           ("tdem", "peak_time", (z, 0.2), m), ("tdem", "diffusion_distance", (t, 0.2), m), ("tdem", "theta", (t, 0.2), m)]
    out += [("tdem", n, (t,), dict(loop, **s)) for n in ("vertical_magnetic_field_horizontal_loop", "vertical_magnetic_flux_horizontal_loop",
                                                       "vertical_magnetic_field_time_deriv_horizontal_loop", "vertical_magnetic_flux_time_deriv_horizontal_loop")]
    out += [("tdem", n, (t, xy), dict(moment=(1.0, -3.0), **m, **s)) for n in ("magnetic_field_vertical_magnetic_dipole", "magnetic_field_time_deriv_magnetic_dipole",
                                                                              "magnetic_flux_vertical_magnetic_dipole", "magnetic_flux_time_deriv_magnetic_dipole")]
    return out


def subsets(names):
    names = sorted(names)
    sizes = range(len(names) + 1) if len(names) <= 7 else (0, 1, 2, 3, len(names) - 1, len(names))
    return [c for n in sizes for c in itertools.combinations(names, n)]


def run_functions(case, t):
    """Every set of keyword arguments left out equals passing the documented values."""
    import importlib
    mod, name, args, kws = functions()[case["functions"]]
    fn = getattr(importlib.import_module("geoana.em." + mod), name)
    for out in subsets(kws):
        full = {k: v[0] if k in out else v[1] for k, v in kws.items()}
        t.step(2)
        t.state(mod, name, out)
        t.same("%s.%s without %s" % (mod, name, ", ".join(out)), fn(*args, **{k: v for k, v in full.items() if k not in out}), fn(*args, **full))
    t.outcome(mod, name)


def run_defaults(case, t):
    """Every set of constructor arguments left out equals passing the documented values, and is reported so."""
    s = BY_NAME[case["c"]]
    defs = DEFAULTS[s.name]
    calls = s.calls()
    for out in subsets([k for k in defs if k not in s.after]):
        # the others alternate between two values, never the default
        full = {k: d["values"][-1 if k in defs and same(normal(k, d["values"][0]), normal(k, defs[k])) else 0] for k, d in s.params.items()}
        if s.name == "earthquake.Oksar" and "shape" in out and len(out) > 1:
            continue        # a large grid
        for k in out:
            full[k] = defs[k]
        try:
            want = s.make(full)
        except Exception:
            t.note("values no constructor accepts")
            continue
        got = s.build(**{k: v for k, v in full.items() if k not in out})
        t.step(2 * len(calls))
        t.state(s.name, out)
        ra, rb = s.report(got), s.report(want)
        for k in rb:
            t.same("%s.%s, %s left to the default" % (s.name, k, ", ".join(out) or "nothing"), ra[k], rb[k])
        for k in out:
            a, b = np.asarray(ra[k]), np.asarray(normal(k, defs[k]))
            t.check(np.all(a == b), "%s: the default %s" % (s.name, k), got=ra[k], want=defs[k])
        ea, eb = s.evaluate(got, s.points[:3], calls), s.evaluate(want, s.points[:3], calls)
        for k in eb:
            t.same("%s.%s, %s left to the default" % (s.name, k, ", ".join(out) or "nothing"), ea[k], eb[k])
    # inherited parameters, and evaluation keywords
    o = s.build(**{k: d["values"][0] for k, d in s.params.items() if k in s.required})
    for k in s.after:
        t.check(np.all(np.asarray(getattr(o, k)) == defs[k]), "%s: the default %s" % (s.name, k), got=getattr(o, k), want=defs[k])
    o = s.make()
    for m, rank, kws in s.methods:
        for key in sorted({k for kw in kws for k in kw}):
            name = KEYWORDS.get(key) or KEYWORDS.get(s.name.split(".")[0] + " " + key)
            if name:
                t.step(2)
                t.same("%s.%s without %s" % (s.name, m, key), getattr(o, m)(s.points), getattr(o, m)(s.points, **{key: name}))
    t.outcome(s.name, "defaults")


def near(v):
    """Values a comparison might take for `v`: slightly different, permuted, mirrored, shifted to map coordinates."""
    if isinstance(v, (bool, np.bool_)):
        return [not v]
    if isinstance(v, str):
        return [v + " ", v.lower(), v.upper(), v[:-1]]
    if isinstance(v, datetime):
        return [v + timedelta(days=1), v + timedelta(seconds=1), v + timedelta(microseconds=1), v.replace(year=v.year + 1)]
    a = np.asarray(v)
    if a.dtype.kind not in "ifc" or a.size == 0:
        return []
    if isinstance(v, tuple) and a.dtype.kind == "i":    # shapes
        return [v[::-1], tuple(x + 1 for x in v), (v[0] * v[1], 1), (1, v[0] * v[1])]
    out = []
    for r in (1e-3, 1e-6, 1e-9, 1e-12, 3e-16):
        out.append(a * (1 + r))
        if a.ndim:
            for i in range(a.size):
                b = a.copy()
                b.flat[i] = b.flat[i] * (1 + r) if b.flat[i] else r
                out.append(b)
    out += [-a, a * 2, a + 1]
    if a.ndim:
        out += [np.roll(a, 1, axis=0), a[::-1].copy(), np.sort(a, axis=0)]
        for i in range(a.size):
            b = a.copy()
            b.flat[i] = -b.flat[i]
            out.append(b)
        if a.ndim == 1 and a.size in (2, 3):
            far = a + np.array([5e5, 4.2e6, 0.0])[:a.size]
            out += [far, far + 1.0, far + np.eye(a.size)[0] * 1e-3, far - np.eye(a.size)[1] * 10]
        if a.ndim == 2:
            out += [a + np.array([5e5, 4.2e6, 0.0]), a + np.array([5e5, 4.2e6 + 1.0, 0.0])]
    conv = (lambda x: x.tolist()) if isinstance(v, (list, tuple)) else (lambda x: x[()] if x.ndim == 0 else x)
    return [conv(x) for x in out]


def run_near(case, t):
    """v -> v' -> v for every value and every value close to it, evaluating in every state."""
    s, p = BY_NAME[case["c"]], case["near"]
    calls = s.calls()
    if p is None:
        return near_points(s, t, calls)

    def fresh(v):
        try:
            o = s.make(**({p: v} if p in s.params else {}))
            if p in s.alias:
                setattr(o, p, v)
            return o
        except Exception:
            return None
    for v in (s.params.get(p) or s.alias[p])["values"]:
        prev = v
        for w in near(v):
            for x, y in ((v, w), (w, v), (prev, w)):
                o, want = fresh(x), fresh(y)
                if o is None or want is None:
                    t.note("values no constructor accepts")
                    continue
                with np.errstate(all="ignore"):
                    s.evaluate(o, s.points[:3], calls)
                    s.report(o)
                    setattr(o, p, y)
                    ra, rb = s.report(o), s.report(want)
                    ea, eb = s.evaluate(o, s.points[:3], calls), s.evaluate(want, s.points[:3], calls)
                t.step(2 + 2 * len(calls))
                t.state(s.name, p, repr(x), repr(y))
                for k in rb:
                    t.same("%s.%s after %s was assigned" % (s.name, k, p), ra[k], rb[k], before=x, after=y)
                for k in eb:
                    t.same("%s.%s after %s was assigned" % (s.name, k, p), ea[k], eb[k], before=x, after=y)
                if t.violations:
                    return
            prev = w
    t.outcome(s.name, p)


def near_points(s, t, calls):
    """The same object asked for points close to, permuted from, or written over earlier ones."""
    P = s.points[:4]
    sets = [P, P * (1 + 1e-12), P * (1 + 1e-6), P[::-1].copy(), P[:, [1, 0, 2]].copy(), s.points[2:6], P[:2], P[:2][::-1].copy(), P + np.r_[1e-9, 0, 0], P * [1, -1, 1], P * [-1, 1, 1]]
    want = [s.evaluate(s.make(), x.copy(), calls) for x in sets]
    for i, j in itertools.product(range(len(sets)), repeat=2):
        for inplace in (False, True):
            if inplace and sets[i].shape != sets[j].shape:
                continue
            o = s.make()
            A = sets[i].copy()
            s.evaluate(o, A, calls)
            if inplace:
                A[...] = sets[j]
                B = A
            else:
                B = sets[j].copy()
            got = s.evaluate(o, B, calls)
            t.step(2 * len(calls))
            t.state(s.name, "points", i, j, inplace)
            for k in got:
                t.same("%s.%s at other points" % (s.name, k), got[k], want[j][k], first=i, then=j, same_array=inplace)
            if t.violations:
                return
    t.outcome(s.name, "points")


class Model:
    """The reference model: a dictionary of the values last assigned."""

    def __init__(self, s):
        self.s = s
        self.cache = {}

    def fresh(self, st, late):
        """Report and evaluations of a newly built object in that state."""
        key = repr((sorted((k, repr(v)) for k, v in st.items()), late))
        if key not in self.cache:
            try:
                o = self.s.make(st)
                for k, v in late:
                    setattr(o, k, v)
            except Exception as e:
                self.cache[key] = None
            else:
                self.cache[key] = (self.s.report(o), self.s.evaluate(o, self.s.points[:3]), self.s.evaluate(o, self.s.points[3:5]))
        return self.cache[key]


def normal(name, v):
    """What a parameter reports after `v` was assigned (documented conversions)."""
    if name == "orientation":
        if isinstance(v, str):
            return np.eye(3)["xyz".index(v.lower())]
        v = np.asarray(v, float).ravel()
        return v / np.sqrt(np.sum(v ** 2))
    return v


def run_case(case, t):
    if "defaults" in case:
        return run_defaults(case, t)
    if "functions" in case:
        return run_functions(case, t)
    if "near" in case:
        return run_near(case, t)
    s = BY_NAME[case["c"]]
    ops = ops_of(s, case["most"])
    model = Model(s)
    calls = s.calls()
    decoy_state = {p: d["values"][-1] for p, d in s.params.items()}
    for tail in itertools.product(range(len(ops)), repeat=case["n"] - len(case["first"])):
        seq = [ops[i] for i in tuple(case["first"]) + tail]
        for busy in (False, True):
            if not walk(t, s, model, seq, busy, decoy_state, calls):
                return
    t.sample({"class": s.name, "sequence": seq, "final report": s.report(s.make())})


def walk(t, s, model, seq, busy, decoy_state, calls):
    st, late = s.start(), []
    o = s.make(st)
    decoy = s.make(decoy_state) if busy else None
    for k, (p, i) in enumerate(seq):
        v = (s.params.get(p) or s.alias[p])["values"][i]
        try:
            setattr(o, p, v)
            ok = True
        except Exception as e:
            ok = False
        t.step()
        if p in s.alias:
            if p == "mass":  # fixes the density for the radius of the moment
                late = []
                if ok:
                    t.close("mass after assignment", o.mass, v, tol=1e-13)
                    st["rho"] = o.rho
                    late = [("rho", o.rho)]
            else:
                late = [(p, v)]
        else:
            late = [] if p in ("sigma", "rho") else late
            st[p] = v
        if busy and k + 1 < len(seq):
            with np.errstate(all="ignore"):
                s.evaluate(o, s.points[3:5], calls)
                s.evaluate(decoy, s.points[:3], calls)
                s.report(o)
            t.step(2 * len(calls))
    want = model.fresh(st, late)
    t.state(s.name, repr(st), late)
    if want is None:
        # these values do not form a source: nothing is claimed about it
        t.note("states no constructor accepts")
        return True
    rep = s.report(o)
    good = True
    for k in want[0]:
        good = t.same("%s.%s after %s" % (s.name, k, "history"), rep[k], want[0][k], sequence=seq, busy=busy) and good
    for k in st if len(seq) < 3 else [p for p, _ in seq if p in st]:
        if k in ("sigma", "rho") and late:
            continue
        n = normal(k, st[k])
        g = rep[k]
        t.validated += 1
        a, b = np.asarray(g), np.asarray(n)
        if b.dtype.kind in "USO":
            if g != n:
                good = t.fail("%s does not report the %s assigned" % (s.name, k), got=g, assigned=n, sequence=seq)
            continue
        if a.shape != b.shape and b.ndim == 0:
            b = np.broadcast_to(b, a.shape)
        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-15 if k != "orientation" else 1e-14, atol=0 if k != "orientation" else 1e-15):
            good = t.fail("%s does not report the %s assigned" % (s.name, k), got=g, assigned=n, sequence=seq)
    for j, pts in ((1, s.points[:3]), (2, s.points[3:5]))[:1 if len(seq) > 2 and not busy else 2]:
        got = s.evaluate(o, pts, calls)
        t.step(len(calls))
        for k in got:
            good = t.same("%s.%s after history" % (s.name, k), got[k], want[j][k], sequence=seq, busy=busy) and good
    for (p, v) in late:
        t.close("%s.%s as assigned" % (s.name, p), getattr(o, p), v, tol=1e-14)
    t.outcome(s.name, [g if isinstance(g, np.ndarray) else 0 for g in got.values()])
    return good and not t.violations
