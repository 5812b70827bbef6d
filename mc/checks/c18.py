"""C18: caller data is never modified and objects share nothing."""
import copy
import itertools

import numpy as np

from ..core import same
from ..spec import BY_NAME, QUAKE, SPECS

TECHNIQUE = "explicit-state exploration of a value-semantics heap model (two sources, the caller's arrays) with every operation sequence replayed on the real classes"
ALL = SPECS + QUAKE


def bounds(tier):
    return {"heap": "two sources built from the same caller arrays (plus a later third one from defaults)", "operations": ["caller overwrites an array", "assign caller's array", "assign the other source's property",
            "write into the array a property returned", "evaluate", "write into a returned result"], "depth": "4 (other starting arrays 3)" if tier == "thorough" else "3 (other starting arrays 2)",
            "array parameters": {s.name: arrays(s) for s in ALL}}


def arrays(s):
    """Parameters that take arrays."""
    return [p for p, d in s.params.items() if any(isinstance(v, (list, tuple)) for v in d["values"]) and p not in ("shape",)]


def vals(s, p):
    """Array values of the parameter."""
    return [np.array(v, dtype=complex if np.iscomplexobj(np.array(v)) else float) for v in s.params[p]["values"] if isinstance(v, (list, tuple))]


def starts(s, p):
    """Arrays the caller starts with: ordinary ones, and ones that need no conversion of any kind."""
    out = vals(s, p)
    if p == "orientation":
        out += [np.array(v) for v in ([1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.6, 0.8, 0.0])]
    if s.axis == p or p == "thickness":
        out += [np.sort(out[0]), np.sort(out[0])[::-1].copy()] + ([out[0][:1].copy()] if s.axis == p and "thickness" not in s.params else [])
    if "thickness" in s.params and p in ("sigma", "mu", "epsilon"):
        a = out[-1].real[:, None] * np.array([1.0, 1.5])
        out += [a.astype(complex), np.asfortranarray(a.astype(complex)), np.asfortranarray(a), a]
    if p == "nodes":
        out += [np.asfortranarray(out[0])]
    if p in ("location", "location_a", "primary_field", "magnetization") and len(out[0]) == 3:
        out += [np.array([0.0, 0.0, -1.0 if s.domain == "below" else 0.0])]
    return out


def cases(tier):
    out = []
    for s in ALL:
        out += [{"c": s.name, "k": "heap", "p": p, "v": i} for p in arrays(s) for i in range(len(starts(s, p)))]
        out += [{"c": s.name, "k": k} for k in ("args", "results", "defaults")]
    out += [{"k": "plots", "c": "", "i": i} for i in range(8)]
    return out + [{"k": "functions", "c": ""}, {"k": "maps", "c": ""}]


def scribble(a):
    """Overwrite a caller's array (valid numbers, so that a source using it would go on)."""
    a[...] = a[...] * 3.0 + 7.0


def run_case(case, t):
    k = case["k"]
    if k == "functions":
        return functions(t)
    if k in ("plots", "maps"):
        import warnings
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                return {"plots": plots, "maps": maps}[k](case, t, plt)
            finally:
                plt.close("all")
    s = BY_NAME[case["c"]]
    return {"heap": heap, "args": args, "results": results, "defaults": defaults}[k](s, case, t)


def observe(s, o):
    return s.report(o), s.evaluate(o, s.points[:2].copy())


def untouched(t, what, got, keep, **d):
    """Bit for bit, signs of zeros included."""
    def bits(a):
        if isinstance(a, (tuple, list)):
            return [type(a).__name__] + [bits(x) for x in a]
        if isinstance(a, dict):
            return [(k, bits(a[k])) for k in a]
        if isinstance(a, (np.ndarray, float)):
            b = np.asarray(a)
            return [str(b.dtype), b.shape, b.tobytes() if b.dtype != object else repr(a)]
        return repr(a)
    t.validated += 1
    if bits(got) != bits(keep):
        return t.fail(what, got=got, want=keep, **d)
    return True


def frozen(P):
    Q = P.copy()
    Q.flags.writeable = False
    return Q


def signed(s, P):
    """Points with zeros of both signs and with subnormal coordinates."""
    Q = np.repeat(P[:1], 6, 0)
    tiny = {"below": -1e-305, "above": 1e-305}.get(s.domain, 1e-305)
    for i in range(3):
        Q[i, i] = -0.0
        Q[3 + i, i] = tiny
    return Q


def equal(t, s, what, got, want, **d):
    ok = True
    for a, b in zip(got, want):
        for k in b:
            ok = t.same("%s: %s.%s" % (what, s.name, k), a[k], b[k], **d) and ok
    return ok


def heap(s, case, t):
    p = case["p"]
    V = starts(s, p)
    alts = vals(s, p)[-1:]
    V = [V[case.get("v", 0)]]
    shared_other = {q: vals(s, q)[0] for q in arrays(s) if q != p}
    OPS = ["scribble", "A=arg", "B=arg", "A=alt", "A=B", "B=A", "poke A", "poke B", "eval A", "eval B", "write result A", "new"]
    fresh = {}

    def want(v):
        key = v.tobytes() + str(v.dtype).encode() + str(v.shape).encode()
        if key not in fresh:
            fresh[key] = observe(s, s.make(None, **dict(copy.deepcopy(shared_other), **{p: v.copy()})))
        return fresh[key]

    for n in range(1, (4 if t.thorough else 3) + (not case.get("v"))):
        for seq in itertools.product(OPS, repeat=n):
            arg = V[0].copy(order="K")
            other = copy.deepcopy(shared_other)
            alt = alts[0].copy(order="K")
            A = s.make(None, **dict(other, **{p: arg}))
            B = s.make(None, **dict(other, **{p: arg}))
            model = {"A": V[0].copy(), "B": V[0].copy(), "arg": V[0].copy()}
            t.step(2)
            for op in seq:
                t.step()
                if op == "scribble":
                    scribble(arg)
                    scribble(model["arg"])
                elif op in ("A=arg", "B=arg"):
                    try:
                        setattr({"A": A, "B": B}[op[0]], p, arg)
                    except Exception:
                        # the overwritten array left the domain
                        continue
                    model[op[0]] = model["arg"].copy()
                elif op == "A=alt":
                    A_before = alt.copy()
                    setattr(A, p, alt)
                    model["A"] = A_before
                elif op in ("A=B", "B=A"):
                    x, y = op[0], op[2]
                    if model[y] is None:
                        model[x] = None
                    else:
                        v = getattr({"A": A, "B": B}[y], p)
                        setattr({"A": A, "B": B}[x], p, v)
                        model[x] = model[y].copy()
                elif op.startswith("poke"):
                    # writing into what a property returned may or may not reach that source,
                    # but nothing else
                    v = getattr({"A": A, "B": B}[op[-1]], p)
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        scribble(v)
                    model[op[-1]] = None
                elif op.startswith("eval"):
                    observe(s, {"A": A, "B": B}[op[-1]])
                elif op == "write result A":
                    for r in s.evaluate(A, s.points[:2].copy()).values():
                        for q in r if isinstance(r, tuple) else (r,):
                            if isinstance(q, np.ndarray) and q.flags.writeable:
                                q[...] = -123.0
                elif op == "new":
                    C = s.make(None, **dict(other, **{p: V[0].copy()}))
                    if not equal(t, s, "source built later", observe(s, C), want(V[0]), sequence=seq, parameter=p):
                        return
            t.state(s.name, p, seq)
            untouched(t, "caller's array %s" % p, arg, model["arg"], sequence=seq)
            for q in other:
                untouched(t, "caller's array %s" % q, other[q], shared_other[q], sequence=seq)
            untouched(t, "caller's array %s" % p, alt, alts[0], sequence=seq)
            for x, o in (("A", A), ("B", B)):
                if model[x] is None:
                    continue
                w = None
                try:
                    w = want(model[x])
                except Exception:
                    continue
                # orientation and the like: assigning what another source reports may round
                if p == "orientation" and any("=" in z and z[0] == x and z[2] in "AB" and z[2:] in ("A", "B") for z in seq):
                    continue
                if not equal(t, s, "source %s" % x, observe(s, o), w, sequence=seq, parameter=p):
                    return
            if t.violations:
                return
    t.outcome(s.name, p, len(fresh))
    t.sample({"class": s.name, "parameter": p, "sequence": seq})


def args(s, case, t):
    """Constructor, setter and evaluation arguments in several containers stay as they were."""
    names = arrays(s)
    for kind in ("array", "list", "tuple", "view", "float32", "int", "signed", "read-only"):
        given, keep = {}, {}
        for q in names:
            v = vals(s, q)[-1]
            if kind == "list":
                a = v.tolist()
            elif kind == "tuple":
                a = tuple(tuple(r) if isinstance(r, list) else r for r in v.tolist())
            elif kind == "view":
                a = np.repeat(v[..., None], 2, -1)[..., 0]
            elif kind == "float32" and not np.iscomplexobj(v) and np.max(np.abs(v)) > 1e-3 and q not in ("mu", "epsilon"):
                a = v.astype(np.float32)
            elif kind == "int" and np.all(np.isreal(v)) and np.all(v == np.round(v.real)):
                a = v.real.astype(int)
            else:
                a = v.copy()
                if kind == "signed":
                    a[a == 0] = -0.0
                a.flags.writeable = kind != "read-only"
            given[q] = a
            keep[q] = copy.deepcopy(a)
        o = s.make(None, **given)
        t.step()
        w = observe(s, o)
        for q in names:
            untouched(t, "constructor argument %s.%s" % (s.name, q), given[q], keep[q], kind=kind)
            t.check(type(given[q]) is type(keep[q]), "type of argument")
        for q in names:
            setattr(o, q, given[q])
            t.step()
            untouched(t, "setter argument %s.%s" % (s.name, q), given[q], keep[q], kind=kind)
        equal(t, s, "assigning the same again", observe(s, o), w, kind=kind)
        # writing to any of them afterwards does nothing
        for q in names:
            if isinstance(given[q], np.ndarray):
                given[q].flags.writeable = True
                given[q][...] = given[q] * 2 + 1
            elif isinstance(given[q], list):
                if isinstance(given[q][0], list):
                    given[q][0][0] = 99.0
                given[q][-1] = given[q][0]
            t.state(s.name, "args", kind, q)
            if not equal(t, s, "caller wrote to %s" % q, observe(s, o), w, kind=kind):
                return
        equal(t, s, "source", observe(s, o), w)


def results(s, case, t):
    """Evaluations: points untouched, results independent of everything."""
    if not s.methods:
        return
    P = s.points[:3]
    o = s.make()
    rep = s.report(o)
    forms = [("C", lambda: P.copy()), ("F", lambda: np.asfortranarray(P.copy())), ("view", lambda: np.repeat(P, 2, 0)[::2]), ("int", lambda: np.round(P * 4 + 0.1).astype(int) * np.array([1, 1, 1])),
             ("signed", lambda: signed(s, P)), ("read-only", lambda: frozen(P)), ("transposed", lambda: P.T.copy().T), ("slice", lambda: np.repeat(P, 3, 0)[2:7]), ("columns", lambda: np.c_[P, P][:, 3:])]
    if s.nd:
        forms += [("list", lambda: P.tolist()), ("tuple", lambda: tuple(P[:, i].copy() for i in range(3))), ("one", lambda: P[0].copy()), ("row", lambda: P.copy()[1]), ("column", lambda: P.T.copy()[:, 1]), ("grid", lambda: s.points[:8].reshape(2, 4, 3).copy()), ("none", lambda: P[:0].copy()),
                  ("one signed", lambda: signed(s, P)[2]), ("grid signed", lambda: signed(s, P).reshape(2, 3, 3)), ("list signed", lambda: signed(s, P).tolist())]
    if s.domain == "below":
        forms = [f for f in forms if f[0] != "int"]
    if s.domain == "above":
        forms = [f for f in forms if f[0] != "int"]
    for name, make in forms:
        arg = make()
        keep = copy.deepcopy(arg)
        calls = s.calls()
        for i, (m, kw, _) in enumerate(calls):
            r = getattr(o, m)(arg, **kw)
            t.step()
            t.state(s.name, "results", name, m, repr(kw))
            untouched(t, "points given to %s.%s" % (s.name, m), arg, keep, form=name)
            parts = r if isinstance(r, tuple) else (r,)
            saved = [np.array(q) for q in parts]
            # every other evaluation, at these and at other points, leaves the result alone
            for m2, kw2, _ in calls:
                getattr(o, m2)(arg, **kw2)
                getattr(o, m2)(s.points[1:4].copy(), **kw2)
                t.step(2)
                for q, w in zip(parts, saved):
                    t.same("result of %s.%s after %s" % (s.name, m, m2), q, w, form=name)
            # the parts are independent, of each other and of the points
            for q in range(len(parts)):
                if isinstance(parts[q], np.ndarray) and parts[q].ndim:
                    if parts[q].flags.writeable:
                        parts[q][...] = -1.0
                    for q2 in range(q + 1, len(parts)):
                        t.same("parts of a result of %s.%s" % (s.name, m), parts[q2], saved[q2], form=name)
            untouched(t, "points after writing to a result of %s.%s" % (s.name, m), arg, keep, form=name)
            for k, v in s.report(o).items():
                t.same("%s.%s after writing to a result of %s" % (s.name, k, m), v, rep[k])
            r2 = getattr(o, m)(arg, **kw)
            t.same("second evaluation of %s.%s" % (s.name, m), [np.array(q) for q in (r2 if isinstance(r2, tuple) else (r2,))], saved, form=name)
            # the caller reuses the array of points
            if isinstance(arg, np.ndarray):
                arg2 = arg.copy()
                r3 = getattr(o, m)(arg2, **kw)
                saved3 = [np.array(q) for q in (r3 if isinstance(r3, tuple) else (r3,))]
                arg2[...] = 1
                t.same("result of %s.%s after the points were overwritten" % (s.name, m), [np.array(q) for q in (r3 if isinstance(r3, tuple) else (r3,))], saved3, form=name)
            if t.violations:
                return
    # derived quantities
    for k in list(s.derived) + list(s.alias):
        try:
            v = getattr(o, k)
        except NotImplementedError:
            continue
        if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
            v[...] = -5
        for k2, v2 in s.report(o).items():
            t.same("%s.%s after writing to %s" % (s.name, k2, k), v2, rep[k2])


def defaults(s, case, t):
    kw = {q: s.start()[q] for q in s.required}
    a = s.build(**copy.deepcopy(kw))
    want = observe(s, a)
    b = s.build(**copy.deepcopy(kw))
    props = list(s.params) + list(s.derived) + list(s.alias)
    for n in (1, 2):
        for poke in itertools.permutations([p for p in props], n) if n == 1 or len(props) < 12 else []:
            a = s.build(**copy.deepcopy(kw))
            for p in poke:
                try:
                    v = getattr(a, p)
                except (NotImplementedError, AttributeError):
                    continue
                if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
                    v[...] = v * 2 + 1
            t.state(s.name, "defaults", poke)
            t.step()
            if not equal(t, s, "another default source after writing to %s" % (poke,), observe(s, b), want):
                return
            if not equal(t, s, "new default source after writing to %s" % (poke,), observe(s, s.build(**copy.deepcopy(kw))), want):
                return
    # assignments to one never reach the other
    for p, d in s.params.items():
        for v in d["values"]:
            a = s.build(**copy.deepcopy(kw))
            setattr(a, p, v)
            observe(s, a)
            t.step(2)
            if not equal(t, s, "another default source after assigning %s" % p, observe(s, b), want):
                return
            if not equal(t, s, "new default source after assigning %s" % p, observe(s, s.build(**copy.deepcopy(kw))), want):
                return


def functions(t):
    """Module-level functions leave their arguments alone."""
    from geoana import spatial, utils
    from geoana.em import fdem, tdem
    from geoana.kernels import potential_field_prism as K
    from geoana.kernels import tranverse_electric_reflections as R
    from scipy.constants import mu_0
    rng = np.linspace(-2, 3, 30).reshape(10, 3)
    vec = np.cos(rng * 3)
    calls = []
    for n in ("cylindrical_to_cartesian", "cartesian_to_cylindrical", "spherical_to_cartesian", "cartesian_to_spherical",
              "cylindrical_2_cartesian", "cartesian_2_cylindrical", "spherical_2_cartesian", "cartesian_2_spherical"):
        if not hasattr(spatial, n):
            continue
        f = getattr(spatial, n)
        calls += [(n, f, (rng,)), (n + " vec", f, (rng, vec))]
        if "cyl" in n:
            calls += [(n + " 2D", f, (rng[:, :2],)), (n + " 2D vec", f, (rng[:, :2], vec[:, :2]))]
    calls += [("rotation", spatial.rotation_matrix_from_normals, (np.array([1., 2., 3.]), np.array([-3., 0., 4.]))),
              ("rotation opposite", spatial.rotation_matrix_from_normals, (np.array([1., 2., 3.]), np.array([-2., -4., -6.]))),
              ("rotate points", spatial.rotate_points_from_normals, (rng, np.array([1., 2., 3.]), np.array([-3., 0., 4.]), np.array([5., 6., 7.]))),
              ("rotate points default", spatial.rotate_points_from_normals, (rng, np.array([1., 2., 3.]), np.array([-3., 0., 4.]))),
              ("vector_magnitude", spatial.vector_magnitude, (rng,)), ("vector_distance", spatial.vector_distance, (rng, np.array([1., 2., 3.]))), ("vector_distance default", spatial.vector_distance, (rng,)),
              ("distance", spatial.distance, (rng, np.array([1., 2., 3.]))), ("vector_dot", spatial.vector_dot, (rng, np.array([1., 2., 3.]))), ("repeat_scalar", spatial.repeat_scalar, (rng[:, 0].copy(),)),
              ("mkvc", utils.mkvc, (rng,)), ("mkvc 3", utils.mkvc, (rng, 3)), ("ndgrid", utils.ndgrid, (rng[:, 0].copy(), rng[:, 1].copy(), rng[:2, 2].copy())),
              ("ndgrid list", utils.ndgrid, ([rng[:, 0].copy(), rng[:, 1].copy()],)), ("check_xyz_dim", utils.check_xyz_dim, (rng,)), ("check_xyz_dim tuple", utils.check_xyz_dim, (tuple(rng.T.copy()),)),
              ("append_ndim", utils.append_ndim, (rng, 2))]
    for n in ("prism_f", "prism_fz", "prism_fzz", "prism_fzx", "prism_fzy", "prism_fzzz", "prism_fxxy", "prism_fxxz", "prism_fxyz"):
        calls.append((n, getattr(K, n), (rng[:, 0].copy(), rng[:, 1].copy(), rng[:, 2].copy())))
    fr, lam = np.array([1., 100., 3e3]), np.array([1e-3, 0.1, 2.0, 30.])
    sg, mu, th = np.array([[0.1] * 3, [1.0] * 3, [0.02] * 3], complex), np.full((3, 3), mu_0 + 0j), np.array([5.0, 20.0])
    calls += [("rTE_forward", R.rTE_forward, (fr, lam, sg, mu, th)), ("rTE_gradient", R.rTE_gradient, (fr, lam, sg, mu, th))]
    tt, xy = np.array([1e-4, 1e-3]), rng[:, :2].copy() * 10
    for n in ("magnetic_field_vertical_magnetic_dipole", "magnetic_field_time_deriv_magnetic_dipole", "magnetic_flux_vertical_magnetic_dipole", "magnetic_flux_time_deriv_magnetic_dipole"):
        calls += [(n, getattr(tdem, n), (tt, xy)), (n + " 3D", getattr(tdem, n), (tt, rng * 10))]
    for n in ("vertical_magnetic_field_horizontal_loop", "vertical_magnetic_flux_horizontal_loop", "vertical_magnetic_field_time_deriv_horizontal_loop", "vertical_magnetic_flux_time_deriv_horizontal_loop"):
        calls.append(("tdem " + n, getattr(tdem, n), (tt,)))
    calls += [("fdem loop", fdem.vertical_magnetic_field_horizontal_loop, (fr,)), ("fdem loop flux", fdem.vertical_magnetic_flux_horizontal_loop, (fr, 0.1)), ("omega", fdem.omega, (fr,)),
              ("wavenumber", fdem.wavenumber, (fr, np.array([1., 2., 3.]))), ("skin_depth", fdem.skin_depth, (fr, np.array([1., 2., 3.]))), ("sigma_hat", fdem.sigma_hat, (fr, np.array([1., 2., 3.]))),
              ("peak_time", tdem.peak_time, (fr, 1.0)), ("diffusion_distance", tdem.diffusion_distance, (fr, 1.0)), ("theta", tdem.theta, (fr, 1.0))]
    neg = rng.copy()
    for i in range(3):
        neg[i, i], neg[3 + i, i] = -0.0, 1e-305
    for name, f, a in list(calls):
        if isinstance(a[0], np.ndarray) and a[0].shape == rng.shape:
            calls.append((name + " signed", f, (neg,) + a[1:]))
        if name.startswith("prism_f"):
            calls.append((name + " signed", f, tuple(neg[:, i].copy() for i in range(3))))
    layouts_of(t, calls)
    base = {}
    for name, f, a in calls:
        base[name] = copy.deepcopy(f(*copy.deepcopy(a)))
    for (name, f, a), (name2, f2, a2) in itertools.product(calls, repeat=2):
        x, y = copy.deepcopy(a), copy.deepcopy(a2)
        r = f(*x)
        keep = copy.deepcopy(r)
        untouched(t, "arguments of " + name, list(x), list(a))
        f2(*y)
        f(*copy.deepcopy(a))
        t.step(3)
        t.state("pair", name, name2)
        t.same("result of %s after %s" % (name, name2), r, keep)
        t.same("%s repeated" % name, r, base[name])
        if t.violations:
            return


def inside(a, how):
    """The same values as part of a larger array of the caller's: (argument, larger array)."""
    if how == "own":
        b = a.copy()
        return b, b
    if how == "F":
        b = np.asfortranarray(a.copy())
        return b, b
    if how == "transposed":
        b = np.ascontiguousarray(a.T.copy())
        return b.T, b
    if how == "reversed":
        b = a[::-1].copy()
        return b[::-1], b
    if how == "read-only":
        b = a.copy()
        v = b[...]
        v.flags.writeable = False
        return v, b
    big = np.full((a.shape[0] * 2 + 1,) + a.shape[1:], 0.625, a.dtype)
    if how == "slice":
        v = big[1:1 + a.shape[0]]
    else:
        v = big[1::2]
    v[...] = a
    return v, big


WAYS = ["own", "F", "transposed", "reversed", "read-only", "slice", "strided"]


def layouts_of(t, calls):
    """Arguments that are parts of larger arrays: the arrays stay as they were, and results are memory of their own."""
    for name, f, a in calls:
        want = f(*copy.deepcopy(a))
        for ways in sorted(set([(h,) * len(a) for h in WAYS] + [(h,) + ("own",) * (len(a) - 1) for h in WAYS] + [("own",) * i + (h,) + ("own",) * (len(a) - 1 - i) for h in WAYS for i in range(len(a))])):
            given, whole = [], []
            for v, h in zip(a, ways):
                if isinstance(v, np.ndarray) and v.ndim:
                    v, b = inside(v, h)
                    whole.append(b)
                elif isinstance(v, (list, tuple)):
                    v, b = zip(*[inside(q, h) for q in v])
                    v = type(a[0])(v)
                    whole.extend(b)
                given.append(v)
            if f.__name__.startswith("rTE") and "read-only" in ways:
                continue        # writable buffers are part of the compiled signature
            keep = copy.deepcopy(whole)
            r = f(*given)
            t.step()
            t.state("layout", name, ways)
            untouched(t, "arrays behind the arguments of " + name, whole, keep, ways=ways)
            parts = r if isinstance(r, (tuple, list)) else (r,)
            w = want if isinstance(want, (tuple, list)) else (want,)
            for q, v in zip(parts, w):
                if not isinstance(q, np.ndarray):
                    continue
                t.close("%s of parts of arrays" % name, q, v, tol=1e-12, scale=np.abs(v).max() + 1e-300, ways=ways)
                if name.startswith(("check_xyz_dim", "append_ndim")):
                    continue    # these hand the array on, in another shape
                if q.flags.writeable:
                    q[...] = 0.375
            if not name.startswith(("check_xyz_dim", "append_ndim")):
                untouched(t, "arrays behind the arguments of %s, after writing to the result" % name, whole, keep, ways=ways)
            if t.violations:
                return


def plots(case, t, plt):
    """Plots: data, masks and option dictionaries stay as they were, and options of one call never reach another."""
    from geoana.plotting_utils import plot2Ddata
    vec, log, near = case["i"] & 1, case["i"] & 2, case["i"] & 4
    x = np.array([[-3.0, -2.0], [4.1, -2.3], [3.7, 2.9], [-2.6, 3.3], [0.4, -0.0], [1.9, -1.1], [-0.0, 1.2], [0.6, 2.2]])
    d = np.array([1.0, 7.0, 3.0, 2.0, 12.0, 5.0, np.nan, 4.0])
    data = np.c_[d, d[::-1]] if vec else d
    base = dict(vec=bool(vec), nx=6, ny=5, scale="log" if log else "linear", method="nearest" if near else "linear")

    def shown(out):
        return [np.array(out[0].levels, float).tobytes(), out[0].get_cmap().name, out[0].get_zorder(), len(out), out[0].norm.vmin, out[0].norm.vmax, sorted(str(type(c)) for c in out[1].get_children())]
    first = {}
    for filled in (0, 1, 2):
        for level, shade, loc, mask, lim in itertools.product((False, True), (False, True), (False, True), (0, 1), (0, 1)):
            given = dict(base, level=level, shade=shade, dataloc=loc, contourOpts={"cmap": "cividis", "zorder": 4} if filled == 1 else {}, levelOpts={"colors": "r", "linewidths": [0.5, 2.0]} if filled == 1 else {},
                         streamplotOpts={"density": 0.3} if filled else {}, shadeOpts={"cmap": "Greys_r", "alpha": 0.25} if filled == 1 and not near else {}, clim=[9.0, 1.5] if lim else None)
            if filled == 2:
                for q in ("contourOpts", "levelOpts", "streamplotOpts", "shadeOpts"):
                    del given[q]
            given["mask"] = np.array([k == 2 for k in range(len(x))]) if mask else None
            a, b = x.copy(), data.copy()
            keep = copy.deepcopy((a, b, given))
            out = plot2Ddata(a, b, **given)
            plt.close("all")
            t.step()
            t.state("plot", case["i"], filled, level, shade, loc, mask, lim)
            untouched(t, "arguments of plot2Ddata", (a, b, given), keep, filled=filled, level=level, shade=shade, mask=mask)
            # the same call made again, whatever came between
            sh = shown(out)
            if lim == 1 and mask == 1:
                first[filled, level, shade, loc] = (keep, sh)
            if t.violations:
                return
    for q, (keep, sh) in first.items():
        a, b, given = copy.deepcopy(keep)
        t.step()
        t.check(shown(plot2Ddata(a, b, **given)) == sh, "a plot repeated after others with other options", options=q)
        plt.close("all")
    t.outcome(case["i"])


def maps(case, t, plt):
    """Interferogram maps, look vectors, displacement maps."""
    A, B = BY_NAME["earthquake.EarthquakeInterferogram"], BY_NAME["earthquake.Oksar"]
    for i in range(2):
        data = np.array([1.0, -0.0, np.nan, -3.0, 0.0, 0.5])
        eq = A.make(data=data, shape=[(3, 2), (2, 3)][i])
        f = B.make(O=[706216.0, 4187318.0], U=[8000.0, 0.0], V=[0.0, 9000.0], center=[709346.0, 4190188.0])
        keep, repA, repB = data.copy(), A.report(eq), B.report(f)
        locs = [np.array([706216.0 + 10 * k, 4187318.0, -0.0]) for k in range(3)]
        ways = {"interferogram": lambda: eq.plot_interferogram(), "unwrapped": lambda: eq.plot_interferogram(wrap=False), "mask": lambda: eq.plot_mask(opacity=0.4),
                "displacement": lambda: f.plot_displacement(), "with interferogram": lambda: f.plot_displacement(eq=eq), "unwrapped with": lambda: f.plot_displacement(eq=eq, wrap=False),
                "look": lambda: eq.get_LOS_vector(locs), "look one": lambda: eq.get_LOS_vector(locs[0]), "vector": lambda: f.displacement_vector, "grid": lambda: f.simulation_grid}
        kl = copy.deepcopy(locs)
        for a, b in itertools.product(ways, repeat=2):
            r = ways[a]()
            saved = np.array(r) if isinstance(r, np.ndarray) else None
            ways[b]()
            plt.close("all")
            t.step(2)
            t.state("maps", i, a, b)
            untouched(t, "the caller's data", data, keep, ways=(a, b))
            untouched(t, "the caller's locations", locs, kl, ways=(a, b))
            if saved is not None:
                t.same("result of %s after %s" % (a, b), np.array(r), saved)
                if r.flags.writeable:
                    r[...] = 3.0
            for s, o, rep in ((A, eq, repA), (B, f, repB)):
                now = s.report(o)
                for k in rep:
                    t.same("%s.%s after %s, %s" % (s.name, k, a, b), now[k], rep[k])
            if t.violations:
                return
