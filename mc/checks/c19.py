"""C19: evaluation is pure; any call sequence gives the same answers."""
import copy
import itertools
import os
import pickle
import warnings

import numpy as np

from ..core import same
from ..spec import BY_NAME, QUAKE, SPECS

TECHNIQUE = "exhaustive enumeration of call sequences over the whole library (all ordered pairs, and all triples within related groups), every answer compared bit for bit with that of a fresh process"


def calls_table():
    """name -> (object key or None, function of the objects)."""
    from geoana import spatial, utils
    from geoana.em import fdem, tdem
    from geoana.kernels import potential_field_prism as K
    from geoana.kernels import tranverse_electric_reflections as R
    from scipy.constants import mu_0
    T = {}
    for s in SPECS + QUAKE:
        for m, kw, _ in s.calls():
            for i, sl in enumerate((slice(0, 3), slice(2, 7))):
                T["%s#0.%s%r@%d" % (s.name, m, kw, i)] = (s.name, 0, m, kw, s.points[sl])
        # a second, differently parametrised source of the class
        for m, kw, _ in s.calls()[:2]:
            T["%s#1.%s%r" % (s.name, m, kw)] = (s.name, 1, m, kw, s.points[0:3])
        if s.nd:
            for m, kw, _ in s.calls()[:-1]:
                T["%s#0.%s%r@none" % (s.name, m, kw)] = (s.name, 0, m, kw, s.points[:0])
        # the last method: no points, one point, a grid of points, another source
        for m, kw, _ in s.calls()[-1:]:
            if s.nd:
                T["%s#0.%s%r@none" % (s.name, m, kw)] = (s.name, 0, m, kw, s.points[:0])
                T["%s#0.%s%r@one" % (s.name, m, kw)] = (s.name, 0, m, kw, s.points[0])
                T["%s#0.%s%r@grid" % (s.name, m, kw)] = (s.name, 0, m, kw, s.points[:8].reshape(2, 4, 3))
            T["%s#1.%s%r@last" % (s.name, m, kw)] = (s.name, 1, m, kw, s.points[2:7])
        if s.axis:
            # a source whose frequencies or times include zero, negligible and enormous ones
            for m, kw, _ in s.calls() if not s.name.endswith("LayeredHalfSpace") else s.calls()[:1]:
                T["%s#2.%s%r" % (s.name, m, kw)] = (s.name, 2, m, kw, s.points[0:3])
            for d in s.derived:
                T["%s#2.%s" % (s.name, d)] = (s.name, 2, d, None, None)
        for d in s.derived:
            T["%s#0.%s" % (s.name, d)] = (s.name, 0, d, None, None)
    x = np.linspace(-2, 3, 15).reshape(5, 3)
    v = np.cos(3 * x)
    fr, lam = np.array([1., 100., 3e3]), np.array([1e-3, 0.1, 2.0, 30.])
    th = np.array([5.0, 20.0])
    sg, mu = np.array([[0.1] * 3, [1.0] * 3, [0.02] * 3], complex), np.full((3, 3), mu_0 + 0j)
    F = {}
    for n in ("cylindrical_to_cartesian", "cartesian_to_cylindrical", "spherical_to_cartesian", "cartesian_to_spherical"):
        F[n] = (getattr(spatial, n), (x,))
        F[n + " vec"] = (getattr(spatial, n), (x, v))
    for a, b in (((1., 2., 3.), (-3., 0., 4.)), ((0., 0., 1.), (0., 0., -1.)), ((1., 1., 0.), (2., 2., 0.))):
        F["rotation %s" % (a,)] = (spatial.rotation_matrix_from_normals, (np.array(a), np.array(b)))
    F["rotate"] = (spatial.rotate_points_from_normals, (x, np.array([1., 2., 3.]), np.array([0., 0., 1.])))
    F["distance"] = (spatial.distance, (x,))
    F["vector_dot"] = (spatial.vector_dot, (x, np.array([1., 2., 3.])))
    F["repeat_scalar"] = (spatial.repeat_scalar, (x[:, 0].copy(),))
    F["ndgrid"] = (utils.ndgrid, (x[:, 0].copy(), x[:, 1].copy()))
    for n in ("prism_f", "prism_fz", "prism_fzz", "prism_fzx", "prism_fzy", "prism_fzzz", "prism_fxxy", "prism_fxxz", "prism_fxyz"):
        F[n] = (getattr(K, n), (x[:, 0].copy(), x[:, 1].copy(), x[:, 2].copy()))
        F[n + " 2"] = (getattr(K, n), (x[::2, 1].copy(), x[::2, 2].copy(), x[::2, 0].copy()))
    for i, (f, l, s2, m2, t2) in enumerate([(fr, lam, sg, mu, th), (fr[:1], lam[:2], sg[:1, :1], mu[:1, :1], th[:0]), (fr[:2], lam, sg[:2, :2] * 3, 2 * mu[:2, :2], th[1:])]):
        F["rTE %d" % i] = (R.rTE_forward, (f, l, np.ascontiguousarray(s2), np.ascontiguousarray(m2), t2))
        F["rTE grad %d" % i] = (R.rTE_gradient, (f, l, np.ascontiguousarray(s2), np.ascontiguousarray(m2), t2))
    tt = np.array([1e-4, 1e-3])
    for n in ("magnetic_field_vertical_magnetic_dipole", "magnetic_field_time_deriv_magnetic_dipole"):
        F[n] = (getattr(tdem, n), (tt, 10 * x))
    for n in ("vertical_magnetic_field_horizontal_loop", "vertical_magnetic_flux_time_deriv_horizontal_loop"):
        F[n] = (getattr(tdem, n), (tt,))
    F["fdem loop"] = (fdem.vertical_magnetic_field_horizontal_loop, (fr,))
    F["skin_depth"] = (fdem.skin_depth, (fr, 0.1))
    F["wavenumber"] = (fdem.wavenumber, (fr, 0.1))
    for k, (f, a) in F.items():
        T["fn." + k] = (None, None, f, None, a)
    return T


_W = {}


def world():
    """Objects of every class in two states, and the call table."""
    if not _W:
        _W["calls"] = calls_table()
        _W["objs"] = {}
        for s in SPECS + QUAKE:
            st = {p: d["values"][-1] for p, d in s.params.items()}
            for z in ("current", "moment", "amplitude", "primary_field", "magnetization", "mass", "rho"):
                if z in st and not np.any(st[z]):
                    st[z] = s.params[z]["values"][1]
            _W["objs"][s.name, 0] = s.make()
            _W["objs"][s.name, 1] = s.make(st)
            if s.axis:
                _W["objs"][s.name, 2] = s.make(None, **{s.axis: [3.0, 0.0, 1e-300, 1e-25, 1e25]})
        _W["reports"] = {k: BY_NAME[k[0]].report(o) for k, o in _W["objs"].items()}
        _W["globals"] = global_state()
        _W["pid"] = os.getpid()
    return _W


ERR = dict(divide="call", over="call", under="call", invalid="call")


def quiet(*a):
    pass


def global_state():
    import random
    import sys
    mpl = sys.modules.get("matplotlib")
    return {"print": repr(sorted(np.get_printoptions().items(), key=str)), "random": repr(np.random.get_state()[1][:5]) + repr(np.random.get_state()[2]), "random module": hash(random.getstate()),
            "warnings": repr(warnings.filters), "cwd": os.getcwd(), "environment": repr(sorted(os.environ.items())), "path": repr(sys.path), "recursion": sys.getrecursionlimit(), "buffer": np.getbufsize(),
            "plots": repr(sorted((k, str(v)) for k, v in mpl.rcParams.items())) if mpl else ""}


def call(w, name):
    c, i, m, kw, a = w["calls"][name]
    if c is None:
        return m(*copy.deepcopy(a))
    o = w["objs"][c, i]
    if kw is None:
        return getattr(o, m)
    return getattr(o, m)(a.copy(), **kw)


def close_values(v):
    """Values that a key built from rounded, summed, sorted or hashed values might take for `v`."""
    a = np.asarray(v)
    if isinstance(v, (bool, np.bool_)):
        return [not v]
    if a.dtype.kind not in "ifc" or a.size == 0:
        return []
    out = [a * (1 + r) for r in (1e-5, 1e-9, 1e-12)] + [a + 1e-7 * np.max(np.abs(a)), -a]
    if a.ndim:
        out += [np.roll(a, 1, axis=0), a[::-1].copy(), a[..., ::-1].copy()]
        b = a.copy()
        b.flat[-1] = b.flat[-1] * (1 + 1e-8) if b.flat[-1] else 1e-8
        out.append(b)
    return out


def twin_points(P):
    """Point sets alike in shape, number, ends, sum or to many digits."""
    inner = P.copy()
    inner[1:-1] += [0.125, 0.25, 0.0]
    swap = P.copy()
    swap[[1, 2]] = swap[[2, 1]]
    return [P, np.roll(P, 1, axis=0), P[::-1].copy(), swap, inner, P * (1 + 1e-5), P * (1 + 1e-9), P * (1 + 1e-13), P * [1, -1, 1], P[:, [1, 0, 2]].copy(), P[:-1].copy()]


def twins_table():
    """group -> list of thunks whose answers differ, though their arguments look alike."""
    out = {}
    for s in SPECS + QUAKE:
        calls = s.calls() if not s.name.endswith("LayeredHalfSpace") else s.calls()[:1]
        for p in list(s.params) + list(s.alias):
            v0 = (s.params.get(p) or s.alias[p])["values"][0]
            if s.name.endswith("LayeredHalfSpace") and p == "frequency":
                v0 = [10.0, 300.0]
            vals = [v0] + [x.tolist() if isinstance(x, np.ndarray) else x for x in close_values(v0)]
            if isinstance(v0, str):
                vals = [[1.0, 2.0, 0.0], [2.0, 1.0, 0.0], [1.0, 2.0 + 1e-9, 0.0], [1.0 - 1e-12, 2.0, 0.0], [1.0 + 1e-6, 2.0, 0.0], [1.0, -2.0, 0.0], [-1.0, 2.0, 0.0]]
            ok = []
            for v in vals:
                try:
                    ok.append(built(s, p, v))
                except Exception:
                    continue
            out["%s %s" % (s.name, p)] = [lambda o=o, s=s, c=calls: (s.evaluate(o, s.points[:4].copy(), c), s.report(o)) for o in ok]
        if s in QUAKE:
            continue
        o = s.make()
        out["%s points" % s.name] = [lambda o=o, s=s, c=calls, x=x: s.evaluate(o, x.copy(), c) for x in twin_points(s.points[:6])]
        b = np.zeros((6, 3))  # one array, written into between the evaluations
        out["%s array" % s.name] = [lambda o=o, s=s, c=calls, x=x, b=b: s.evaluate(o, put(b, x), c) for x in twin_points(s.points[:6])[:-1]]
    for n, (_, _, f, kw, args) in calls_table().items():
        if not n.startswith("fn."):
            continue
        for i, a in enumerate(args):
            vals = [a] + close_values(a)
            if isinstance(a, np.ndarray):
                vals = [x for x in vals if np.shape(x) == a.shape]
            out["%s argument %d" % (n, i)] = [lambda f=f, args=args, i=i, v=v: attempt(f, *[np.array(v) if j == i and isinstance(w, np.ndarray) else v if j == i else w for j, w in enumerate(args)]) for v in vals]
            if isinstance(a, np.ndarray):
                b = np.array(a)
                vals = [np.asarray(x) for x in vals if np.asarray(x).dtype == b.dtype]
                out["%s array %d" % (n, i)] = [lambda f=f, args=args, i=i, v=v, b=b: attempt(f, *[put(b, v) if j == i else w for j, w in enumerate(args)]) for v in vals]
    return out


def built(s, p, v):
    o = s.make(**({p: v} if p in s.params else {}))
    if p in s.alias:
        setattr(o, p, v)
    return o


def put(b, x):
    b[...] = x
    return b


def attempt(f, *a):
    try:
        return f(*a)
    except Exception as e:
        return "raised " + type(e).__name__


def baseline(names, call=None):
    """Every call alone in a process of its own (forked before anything was evaluated)."""
    call = call or globals()["call"]
    out = {}
    for n in names:
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(wfd, "wb") as fh, np.errstate(all="ignore"):
                    try:
                        pickle.dump(("ok", call(_W, n)), fh)
                    except Exception as e:
                        pickle.dump(("raised", "%s: %s" % (type(e).__name__, e)), fh)
            finally:
                os._exit(0)
        os.close(wfd)
        with os.fdopen(r, "rb") as fh:
            out[n] = pickle.load(fh)
        os.waitpid(pid, 0)
    return out


def bounds(tier):
    w = world()
    return {"calls": len(w["calls"]), "sequences": "all ordered pairs x, y, x; all triples x, y, z within one class or within the kernels; all triples across classes of %s" % ("four calls each" if tier == "thorough" else "two calls each"),
            "alike": "all ordered pairs of evaluations whose parameters, points or arguments agree to 1e-5..1e-13, or are permuted, mirrored, share ends, sum or memory with one another: every parameter of every class, every argument of every function",
            "observed": "results, every parameter of every object, numpy error state, print options, random state, warnings filters"}


def groups():
    names = list(world()["calls"])
    g = {}
    for n in names:
        g.setdefault(n.split("#")[0] if "#" in n else "fn", []).append(n)
    return g


def cases(tier):
    w = world()
    w["base"] = baseline(list(w["calls"]))
    names = list(w["calls"])
    out = [{"k": "pairs", "x": n} for n in names]
    for g, m in groups().items():
        if g != "fn":
            out += [{"k": "triples", "g": g, "x": n} for n in m]
    kern = [n for n in groups()["fn"] if "rTE" in n or "rotation" in n]
    out += [{"k": "triples", "g": "kern", "x": n} for n in kern]
    out += [{"k": "across", "x": n} for n in across(tier)]
    w["twins"] = twins_table()
    w["twin base"] = baseline([(g, i) for g, m in w["twins"].items() for i in range(len(m))], lambda w, n: w["twins"][n[0]][n[1]]())
    return out + [{"k": "twins", "g": g} for g in w["twins"]]


def across(tier):
    g = groups()
    out = []
    for k, m in g.items():
        if k != "fn":
            out += list(dict.fromkeys([m[0], m[-1]] + ([m[len(m) // 2], m[len(m) // 3]] if tier == "thorough" else [])))
    return out + g["fn"][::3]


def run_case(case, t):
    # an error handling of its own kind, so that any other one set by the code shows
    with np.errstate(call=quiet, **ERR):
        explore(case, t)


def twins(case, t):
    """All ordered pairs of evaluations with arguments or parameters that look alike."""
    w = world()
    if "twins" not in w:
        w["twins"] = {case["g"]: twins_table()[case["g"]]}
        w["twin base"] = baseline([(case["g"], i) for i in range(len(w["twins"][case["g"]]))], lambda w, n: w["twins"][n[0]][n[1]]())
    m = w["twins"][case["g"]]
    for i, j in itertools.product(range(len(m)), repeat=2):
        for k in (i, j):
            b = w["twin base"][case["g"], k]
            if not t.check(b[0] == "ok", "%s raised" % case["g"], error=b[1]):
                return
            r = m[k]()
            t.step()
            if not t.same("%s: number %d among its like" % (case["g"], k), r, b[1], sequence=(i, j)):
                return
        t.state(case["g"], i, j)
    t.outcome(case["g"], len(m))


def explore(case, t):
    if case["k"] == "twins":
        return twins(case, t)
    w = world()
    w["globals"] = global_state()
    if "base" not in w:
        w["base"] = baseline(list(w["calls"]))
    for n, b in w["base"].items():
        if not t.check(b[0] == "ok", "%s raised" % n, error=b[1] if b[0] != "ok" else None):
            return
    base = w["base"]
    x = case["x"]
    if case["k"] == "pairs":
        for y in w["calls"]:
            seq = (x, y, x)
            if not replay(t, w, seq, base):
                return
    else:
        m = {"kern": [n for n in groups()["fn"] if "rTE" in n or "rotation" in n]}.get(case.get("g")) or (across(t.tier) if case["k"] == "across" else groups()[case["g"]])
        for y, z in itertools.product(m, repeat=2):
            if not replay(t, w, (x, y, z), base):
                return
    reports(t, w, x)


def replay(t, w, seq, base):
    kept = []
    for n in seq:
        r = call(w, n)
        t.step()
        kept.append(r)
        if not t.same("%s in a sequence" % n, r, base[n][1], sequence=seq):
            return False
    t.state(seq)
    return True


def reports(t, w, x):
    for k, o in w["objs"].items():
        rep = BY_NAME[k[0]].report(o)
        for p in rep:
            t.same("%s.%s after evaluations" % (k[0], p), rep[p], w["reports"][k][p], last=x)
    g = global_state()
    for k in g:
        t.check(g[k] == w["globals"][k], "global state %s changed" % k, got=g[k], want=w["globals"][k])
    t.check(np.geterr() == ERR and np.geterrcall() is quiet, "numpy error state changed", got=np.geterr())
    t.outcome(x, len(w["calls"]))
    t.sample({"first call": x})
