"""C29: the library loads and works in every installation and import order."""
import importlib
import io
import os
import pickle
import sys
import traceback
from contextlib import redirect_stdout

import numpy as np

from .. import repo
from ..core import same
from ..spec import QUAKE, SPECS

TECHNIQUE = ("exhaustive enumeration of installations (every subset of optional packages and compiled extensions missing, in every way a package can be missing) x every module imported first, each run from a "
             "freshly imported library in a process of its own; all observations compared bit for bit between the runs")
MPL = ["present", "missing", "no pyplot", "broken"]
UTM = ["present", "missing", "broken"]
EXT = [("rTE", "potential_field_prism"), (), ("rTE",), ("potential_field_prism",)]
GUARDED = {"matplotlib": ["plot2Ddata", "plot_interferogram", "plot_mask", "plot_displacement"], "utm": ["get_LOS_vector"]}
# what the reference manual lists
PUBLIC = {
    "geoana": ["utils", "earthquake", "em", "show_config", "compiled", "__version__"],
    "geoana.gravity": ["PointMass", "Sphere", "Prism"],
    "geoana.shapes": ["BasePrism"],
    "geoana.utils": ["mkvc", "ndgrid", "requires", "check_xyz_dim", "append_ndim"],
    "geoana.spatial": ["cylindrical_to_cartesian", "cartesian_to_cylindrical", "spherical_to_cartesian", "cartesian_to_spherical", "vector_magnitude", "vector_dot", "vector_distance", "distance",
                       "rotation_matrix_from_normals", "rotate_points_from_normals", "repeat_scalar"],
    "geoana.plotting_utils": ["plot2Ddata"],
    "geoana.earthquake": ["oksar"],
    "geoana.earthquake.oksar": ["EarthquakeInterferogram", "Oksar", "example"],
    "geoana.kernels": ["rTE_forward", "rTE_gradient", "prism_f", "prism_fz", "prism_fzz", "prism_fzx", "prism_fzy", "prism_fzzz", "prism_fxxy", "prism_fxxz", "prism_fxyz"],
    "geoana.em": ["static", "fdem", "tdem", "BaseEM", "BaseDipole", "BaseElectricDipole", "BaseMagneticDipole", "BaseLineCurrent"],
    "geoana.em.static": ["MagneticDipoleWholeSpace", "MagneticPoleWholeSpace", "CircularLoopWholeSpace", "LineCurrentWholeSpace", "PointCurrentWholeSpace", "PointCurrentHalfSpace", "DipoleHalfSpace",
                         "ElectrostaticSphere", "MagnetostaticSphere", "MagneticPrism"],
    "geoana.em.fdem": ["ElectricDipoleWholeSpace", "MagneticDipoleWholeSpace", "HarmonicPlaneWave", "MagneticDipoleHalfSpace", "MagneticDipoleLayeredHalfSpace", "omega", "wavenumber", "skin_depth", "sigma_hat",
                       "vertical_magnetic_field_horizontal_loop", "vertical_magnetic_flux_horizontal_loop", "BaseFDEM"],
    "geoana.em.tdem": ["ElectricDipoleWholeSpace", "TransientPlaneWave", "VerticalMagneticDipoleHalfSpace", "peak_time", "diffusion_distance", "theta", "BaseTDEM", "vertical_magnetic_field_horizontal_loop",
                       "vertical_magnetic_flux_horizontal_loop", "vertical_magnetic_field_time_deriv_horizontal_loop", "vertical_magnetic_flux_time_deriv_horizontal_loop",
                       "magnetic_field_vertical_magnetic_dipole", "magnetic_flux_vertical_magnetic_dipole", "magnetic_field_time_deriv_magnetic_dipole", "magnetic_flux_time_deriv_magnetic_dipole"],
}


def modules():
    """Every module of the library in the working tree."""
    out = []
    top = os.path.join(repo.REPO, "geoana")
    for d, dirs, files in os.walk(top):
        dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "_extensions"))
        if "__init__.py" not in files:
            continue
        pre = os.path.relpath(d, repo.REPO).replace(os.sep, ".")
        out += [pre if f == "__init__.py" else pre + "." + f[:-3] for f in sorted(files) if f.endswith(".py")]
    return sorted(out)


def bounds(tier):
    return {"matplotlib": MPL, "utm": UTM, "extensions present": [list(e) for e in EXT], "first import": modules(), "pairs of first imports": "all" if tier == "thorough" else "none",
            "observed": "public names, every source class and module function, the functions needing an optional package, process-wide settings"}


def cases(tier):
    envs = [(m, u, e) for m in range(len(MPL)) for u in range(len(UTM)) for e in range(len(EXT))]
    # a package that raises on import behaves as one that is absent: one dimension at a time
    out = [{"k": "env", "env": list(e)} for e in envs]
    if tier == "thorough":
        mods = modules()
        out += [{"k": "pairs", "first": m} for m in mods]
    return out


class Blocker:
    """Makes packages missing (not found) or broken (found, but raising ImportError)."""

    def __init__(self, missing, broken):
        self.missing, self.broken = missing, broken

    def find_spec(self, name, path=None, target=None):
        def hit(names):
            return any(name == n or name.startswith(n + ".") for n in names)
        if hit(self.broken):
            raise ImportError("cannot load a library needed by " + name, name=name)
        if hit(self.missing):
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        return None


def install(env):
    mpl, utm, ext = MPL[env[0]], UTM[env[1]], EXT[env[2]]
    missing, broken = [], []
    if mpl == "missing":
        missing.append("matplotlib")
    if mpl == "broken":
        broken.append("matplotlib")
    if mpl == "no pyplot":
        broken.append("matplotlib.pyplot")
    if utm != "present":
        (missing if utm == "missing" else broken).append("utm")
    for x in EXT[0]:
        if x not in ext:
            missing.append(repo.EXT + x)
    gone = missing + broken
    for m in list(sys.modules):
        if m == "geoana" or m.startswith("geoana.") or any(m == g or m.startswith(g + ".") for g in gone):
            del sys.modules[m]
    if mpl == "no pyplot":
        import matplotlib
        if hasattr(matplotlib, "pyplot"):
            del matplotlib.pyplot
    sys.meta_path.insert(0, Blocker(missing, broken))


def settings(mpl):
    import decimal
    import random
    import warnings
    r = np.random.get_state()
    out = {"floating point errors": np.geterr(), "error callback": repr(np.geterrcall()), "print options": repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
           "numpy random state": (r[0], r[1].tobytes(), r[2:]), "random state": random.getstate(), "environment": dict(os.environ), "directory": os.getcwd(), "recursion": sys.getrecursionlimit(),
           "warnings": [(f[0], f[2].__name__) for f in warnings.filters if f[1] is None and f[3] is None and f[2] in (Warning, RuntimeWarning, UserWarning, FutureWarning, DeprecationWarning)],
           "decimal": repr(decimal.getcontext()), "excepthook": sys.excepthook is sys.__excepthook__, "stdout": id(sys.stdout)}
    if mpl == "present":
        import matplotlib
        out["backend"] = matplotlib.get_backend()
        out["rcParams"] = {k: repr(v) for k, v in matplotlib.rcParams.items() if k != "backend"}
    return out


def interferogram():
    return next(s for s in QUAKE if s.cls_name == "EarthquakeInterferogram").make()


def panel():
    """Everything that does not need an optional package."""
    out = {}
    for s in SPECS + QUAKE:
        o = s.make()
        for k, v in s.report(o).items():
            out[s.name + "." + k] = v
        if s not in QUAKE:
            for k, v in s.evaluate(o, s.points[:2].copy()).items():
                out[s.name + "." + k] = v
    g = importlib.import_module
    sp, ut, ke = g("geoana.spatial"), g("geoana.utils"), g("geoana.kernels")
    P = np.array([[1.0, -2.0, 0.5], [0.3, 0.2, -4.0], [0.0, 0.0, 1.0]])
    for f in ("cylindrical_to_cartesian", "cartesian_to_cylindrical", "spherical_to_cartesian", "cartesian_to_spherical", "vector_magnitude", "vector_distance", "distance"):
        out[f] = getattr(sp, f)(P.copy())
    out["dot"] = sp.vector_dot(P, P[0])
    out["rot"] = sp.rotation_matrix_from_normals(P[0], P[1])
    out["mkvc"], out["ndgrid"] = ut.mkvc(P), ut.ndgrid([P[0], P[1], P[2]])
    out["check"] = ut.check_xyz_dim(P)
    for f in PUBLIC["geoana.kernels"]:
        if f.startswith("prism"):
            out[f] = getattr(ke, f)(P[:, 0], P[:, 1], P[:, 2])
    fr, lam, sg, mu, th = np.array([1.0, 1e4]), np.array([0.01, 0.5]), np.array([[0.1, 0.2], [1.0, 2.0]], complex), np.full((2, 2), 4e-7 * np.pi, complex), np.array([5.0])
    out["rTE_forward"] = ke.rTE_forward(fr, lam, sg, mu, th)
    for i, a in enumerate(ke.rTE_gradient(fr, lam, sg, mu, th)):
        out["rTE_gradient%d" % i] = a
    fd, td = g("geoana.em.fdem"), g("geoana.em.tdem")
    out["loop"] = fd.vertical_magnetic_field_horizontal_loop(fr)
    out["tloop"] = td.vertical_magnetic_flux_time_deriv_horizontal_loop(np.array([1e-4, 1e-3]))
    out["tdip"] = td.magnetic_field_vertical_magnetic_dipole(np.array([1e-4, 1e-3]), P[:, :] * [1, 1, 0] + [2.0, 0, 0])
    return out


def guarded(env):
    """What the functions that need an optional package return and print."""
    ok = importlib.import_module("geoana.earthquake.oksar")
    pu = importlib.import_module("geoana.plotting_utils")
    eq, ox = interferogram(), QUAKE[0].make()
    xy = np.array([[0., 0], [1, 0], [0, 1], [1, 1.5], [0.4, 0.3]])
    out = {}
    import warnings
    for name, f in (("plot2Ddata", lambda: pu.plot2Ddata(xy, np.arange(5.0), nx=4, ny=4)), ("plot_interferogram", lambda: eq.plot_interferogram()), ("plot_mask", lambda: eq.plot_mask()),
                    ("plot_displacement", lambda: ox.plot_displacement()), ("get_LOS_vector", lambda: eq.get_LOS_vector([[741140.0, 4230327.0], [706216.0, 4269238.0]]))):
        buf = io.StringIO()
        with warnings.catch_warnings(), redirect_stdout(buf):
            warnings.simplefilter("ignore")
            try:
                r = f()
            except BaseException as e:
                r = "raised %s: %s" % (type(e).__name__, e)
        out[name] = (r if isinstance(r, (np.ndarray, str)) or r is None else type(r).__name__, buf.getvalue())
    return out


def names(mods):
    out = {}
    for m in mods:
        mod = sys.modules[m]
        lost = [n for n in PUBLIC.get(m, []) if not hasattr(mod, n)]
        lost += [n for n in getattr(mod, "__all__", []) if not hasattr(mod, n)]
        if lost:
            out[m] = sorted(set(lost))
    return out


def child(env, firsts, mods):
    install(env)
    before = settings(MPL[env[0]])
    out = {}
    for f in firsts:
        importlib.import_module(f)
    out["loaded"] = sys.modules[firsts[0]].__file__
    after = settings(MPL[env[0]])
    for m in mods:
        importlib.import_module(m)
    last = settings(MPL[env[0]])
    out["changed"] = sorted(k for k in before if not same_setting(before[k], after[k]) or not same_setting(before[k], last[k]))
    out["lost"] = names(mods)
    g = sys.modules["geoana"]
    buf = io.StringIO()
    with redirect_stdout(buf):
        cfg = g.show_config()
    out["config"] = (g.compiled, cfg.get("compiled"), cfg.get("version") == g.__version__, repr(cfg) in buf.getvalue())
    out["panel"] = panel()
    out["guarded"] = guarded(env)
    # star imports
    ns = {}
    for m in ("geoana.spatial", "geoana.em.static", "geoana.kernels", "geoana.gravity", "geoana.plotting_utils", "geoana.earthquake.oksar"):
        exec("from %s import *" % m, ns)
    out["star"] = sorted(n for m in ("geoana.gravity", "geoana.plotting_utils", "geoana.em.static", "geoana.kernels") for n in PUBLIC[m] if n not in ns)
    return out


def same_setting(a, b):
    return a == b


def run_child(env, firsts, mods):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = child(env, firsts, mods)
            except BaseException:
                out = {"raised": traceback.format_exc()[-1500:]}
            with os.fdopen(w, "wb") as fh:
                fh.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else {"raised": "the process ended"}


def preload():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    import utm  # noqa
    import scipy.interpolate, scipy.spatial.transform, scipy.special, libdlf  # noqa
    np.random.seed(3)


_REF = {}


def reference(ext, mods):
    if ext not in _REF:
        _REF[ext] = run_child([0, 0, ext], ["geoana"], mods)
    return _REF[ext]


def run_case(case, t):
    preload()
    mods = modules()
    if case["k"] == "pairs":
        for second in mods:
            judge(t, [0, 0, 0], [case["first"], second], mods)
            if t.violations:
                return
        return
    for f in mods:
        judge(t, case["env"], [f], mods)
        if t.violations:
            return


def judge(t, env, firsts, mods):
    d = dict(matplotlib=MPL[env[0]], utm=UTM[env[1]], extensions=list(EXT[env[2]]), first=firsts)
    t.state("env", tuple(env), tuple(firsts))
    t.step(1 + len(mods))
    out = run_child(env, firsts, mods)
    if not t.check("raised" not in out, "importing and using the library", error=out.get("raised"), **d):
        return
    t.check(out["loaded"].startswith(repo.REPO + "/"), "library loaded from elsewhere", got=out["loaded"], **d)
    t.check(not out["changed"], "importing changed process-wide settings", changed=out["changed"], **d)
    t.check(not out["lost"], "public names missing", lost=out["lost"], **d)
    t.check(not out["star"], "names missing from star import", lost=out["star"], **d)
    both = len(EXT[env[2]]) == 2
    t.check(out["config"] == (both, both, True, True) and isinstance(out["config"][0], bool), "show_config", got=out["config"], **d)
    ref = reference(env[2], mods)
    if not t.check("raised" not in ref, "importing and using the complete library", error=ref.get("raised"), **d):
        return
    t.check(sorted(out["panel"]) == sorted(ref["panel"]), "what can be evaluated", **d)
    for k, v in ref["panel"].items():
        if not t.same("%s in this installation" % k, out["panel"].get(k), v, **d):
            return
    full = reference(0, mods)["panel"]
    for k, v in full.items():
        got = out["panel"].get(k)
        if "Prism" in k or "prism" in k or "LineCurrent" in k:
            exact = "potential_field_prism" in EXT[env[2]]
        elif "Layered" in k or "rTE" in k:
            exact = "rTE" in EXT[env[2]]
        else:
            exact = True
        if exact:
            ok = t.same("%s with other extensions" % k, got, v, **d)
        elif isinstance(v, np.ndarray) and v.dtype.kind in "fc":
            ok = t.close("%s without extension" % k, got, v, scale=np.max(np.abs(v)), tol=1e-6 if "Layered" in k else 1e-8, **d)  # a small secondary field rounds like the primary
        else:
            ok = same(got, v) or t.close("%s without extension" % k, got, v, tol=1e-6, **d)
        if not ok:
            return
    lack = [p for p, s in (("matplotlib", MPL[env[0]]), ("utm", UTM[env[1]])) if s != "present"]
    for pkg, fns in GUARDED.items():
        for f in fns:
            r, said = out["guarded"][f]
            t.validated += 1
            if pkg in lack:
                other = [p for p in GUARDED if p != pkg]
                if r is not None or pkg not in said or f not in said or any(o in said for o in other):
                    t.fail("%s without %s" % (f, pkg), returned=r, printed=said, **d)
            else:
                want = full_guarded(mods)[f]
                if not same(r, want[0]) or said != want[1] or isinstance(r, str) and r.startswith("raised") or r is None:
                    t.fail("%s with %s" % (f, pkg), returned=r, printed=said, want=want, **d)
    t.outcome(tuple(env))
    t.sample({"installation": d})


def full_guarded(mods):
    return reference(0, mods)["guarded"]
