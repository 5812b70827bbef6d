"""The object model: every source class, its parameters, their domains, and its evaluations.

Only the public interface is named here (constructor arguments, properties, methods).
`params` lists, per parameter, values inside the documented domain (the first one is where
explorations start); `spell` other accepted spellings of the first value; `bad` values
outside the documented domain.  `alias` parameters can be assigned but are derived from
another one.  `axis` names the parameter whose array axis leads every result.
"""
import importlib
from datetime import datetime

import numpy as np
from scipy.constants import epsilon_0, mu_0

NOTNUM = ["abc", None, [1.0, 2.0], 1j, {}]
NOTVEC = [[1.0, 2.0], [1.0, 2.0, 3.0, 4.0], 3.0, "abc", [[1., 2., 3.], [4., 5., 6.]], None, [1.0, [2.0], 3.0], np.zeros((3, 2)), [], [1j, 0.0, 1.0], "xyz", ["a", "b", "c"]]

SIGMA = dict(values=[1.0, 0.02, 35.0], spell=[1, np.float32(1.0), np.int64(1), np.array(1.0), True], bad=NOTNUM + [0.0, -1.0, -1e-30])
MU = dict(values=[mu_0, 3 * mu_0], spell=[np.float64(mu_0), np.array(mu_0)], bad=NOTNUM + [0.0, -mu_0])
EPS = dict(values=[epsilon_0, 20 * epsilon_0], spell=[np.float64(epsilon_0), np.array(epsilon_0)], bad=NOTNUM + [-epsilon_0])
RHO = dict(values=[10.0, 0.5, 200.0], spell=[10, np.float32(10), np.array(10.0)], bad=NOTNUM + [0.0, -1.0])
LOC = dict(values=[[0.25, -0.5, 0.875], [-2.0, 1.0, -3.0], [0.0, 0.0, 0.0]],
           spell=[(0.25, -0.5, 0.875), np.array([0.25, -0.5, 0.875]), np.array([[0.25, -0.5, 0.875]])], bad=NOTVEC)
# only one-dimensional input is documented for these
LOC1 = dict(LOC, spell=LOC["spell"][:2])
ELEC = dict(values=[[0.25, -0.5, -0.875], [-2.0, 1.0, 0.0], [0.0, 0.0, -3.0]], spell=[(0.25, -0.5, -0.875), np.array([0.25, -0.5, -0.875])],
            bad=NOTVEC + [[0.0, 0.0, 1e-9], [1.0, 2.0, 3.0]])
ELEB = dict(values=[[1.7, 0.6, 0.0], [4.0, 1.0, -2.0]], spell=[(1.7, 0.6, 0.0), np.array([1.7, 0.6, 0.0])], bad=ELEC["bad"])
SURF = dict(values=[[0.25, -0.5, 0.0], [-2.0, 1.0, 0.0], [0.0, 0.0, 0.0]], spell=[(0.25, -0.5, 0.0), np.array([0.25, -0.5, 0.0])],
            bad=NOTVEC + [[0.0, 0.0, 1.0], [0.0, 0.0, -1e-9]])
ABOVE = dict(values=[[0.25, -0.5, 2.0], [-2.0, 1.0, 0.0], [0.0, 0.0, 12.0]], spell=[(0.25, -0.5, 2.0), np.array([0.25, -0.5, 2.0])],
             bad=NOTVEC + [[0.0, 0.0, -1e-9], [1.0, 1.0, -5.0]])
ORI = dict(values=["X", "Z", [1.0, -2.0, 2.0], "y"], spell=["x", [1.0, 0.0, 0.0], (3.0, 0, 0), np.array([7.0, 0.0, 0.0]), np.array([[1, 0, 0]])],
           bad=["W", "", "XY", [1.0, 2.0], 3.0, None, [[1., 0, 0], [0, 1., 0]], [1.0, 0.0, 0.0, 0.0], "xyz"])
PORI = dict(values=["X", "y", [3.0, -4.0, 0.0]], spell=["x", [1.0, 0.0, 0.0], np.array([5.0, 0.0, 0.0])],
            bad=["W", "Z", "z", "", [0.0, 0.0, 1.0], [1.0, 0.0, 1e-9], [1.0, 2.0], [1., 0., 0., 0.]])
CUR = dict(values=[1.0, -2.5, 0.0], spell=[1, np.float32(1), np.array(1.0), np.int32(1)], bad=NOTNUM)
LEN = dict(values=[1.0, 2.5], spell=[1, np.float32(1), np.array(1.0)], bad=NOTNUM + [0.0, -1.0])
RAD = dict(values=[1.0, 0.35], spell=[1, np.float32(1.0), np.array(1.0)], bad=NOTNUM + [0.0, -1.0])
RADS = dict(values=[1.0, 0.35, 2.6], spell=[1, np.float32(1.0), np.array(1.0)], bad=["abc", None, [1., 2.], -1.0, -1e-30])
NUMF = dict(values=[1.0, -2.5, 0.0], spell=[1, np.float32(1), np.array(1.0)], bad=["abc", None, [1., 2.]])
FREQ = dict(values=[[10.0, 300.0], 50.0, [20.0, 4000.0, 1.0]], spell=[(10.0, 300.0), np.array([10.0, 300.0]), np.array([10, 300])],
            bad=["abc", [-1.0], -3.0, [[1.0, 2.0]], [[1.], [2.]], [1.0, -1e-9], 1j])
LFREQ = dict(FREQ, values=[[10.0, 300.0], [20.0, 4000.0, 1.0], 50.0])
TIME = dict(values=[[1e-3, 2e-2], 5e-3, [1e-4, 3e-3, 1e-5]], spell=[(1e-3, 2e-2), np.array([1e-3, 2e-2])],
            bad=["abc", [-1.0], -3.0, [[1.0, 2.0]], [[1.], [2.]], [1.0, -1e-9], 1j])
VEC = dict(values=[[1.0, 0.0, 0.0], [-0.5, 2.0, 1.5], [0.0, 0.0, 0.0]], spell=[(1, 0, 0), np.array([1, 0, 0]), [1.0, 0.0, 0.0]], bad=NOTVEC)
NODES = dict(values=[[[0., 0, 0], [2., 0, 0], [2., 1.5, -0.5]], [[-1., -1, 0], [1., -1, 0], [1., 1, 0], [-1., 1, 0], [-1., -1, 0]], [[0.5, 0.5, 0.5], [0.5, 0.5, -2.0]]],
             spell=[((0, 0, 0), (2, 0, 0), (2, 1.5, -0.5)), np.array([[0., 0, 0], [2., 0, 0], [2., 1.5, -0.5]])],
             bad=[[[0., 0.], [1., 1.]], [1.0, 2.0], np.zeros((2, 3, 3)), "abc", [[0., 0., 0.], [1., 1.]], np.zeros((3, 2)), np.zeros((3, 4)), 5.0, None])
PMIN = dict(values=[[-1.0, -1.5, -2.0], [-0.5, -3.0, -1.0]], spell=[(-1, -1.5, -2), np.array([-1., -1.5, -2.])], bad=NOTVEC)
PMAX = dict(values=[[1.0, 0.5, 2.0], [2.0, 1.5, -0.5]], spell=[(1, 0.5, 2), np.array([1., .5, 2.])], bad=NOTVEC)
QS = dict(values=[False, True], spell=[np.False_], bad=[])
THICK = dict(values=[[5.0, 12.0], [1.0, 30.0]], spell=[(5, 12), np.array([5.0, 12.0])], bad=[[-1.0, 2.0], "abc", [[1.0, 2.0]], -1.0, 1j])
LSIG = dict(values=[[0.01, 0.5, 0.1], 0.2, [0.3, 0.02 + 0.01j, 1.0]], spell=[(0.01, 0.5, 0.1), np.array([0.01, 0.5, 0.1]), np.array([0.01, 0.5, 0.1], complex)],
            bad=["abc", None, 0.0, -1.0, [0.1, 0.2], [0.1, 0.2, 0.3, 0.4], [0.1, 0.0, 0.1], [0.1, 0.1 - 0.1j, 0.1], np.full((3, 5), 0.1), np.full((2, 2), 0.1), np.full((3, 2, 2), 0.1)])
LMU = dict(values=[mu_0, [2 * mu_0, mu_0, 1.5 * mu_0]], spell=[[mu_0, mu_0, mu_0], np.full(3, mu_0), (mu_0,) * 3],
           bad=["abc", None, 0.0, -1.0, 0.5 * mu_0, [mu_0, mu_0], [mu_0, mu_0 - 1e-3j, mu_0], np.full((3, 5), mu_0), np.full((3, 2, 2), mu_0)])
LEPS = dict(values=[epsilon_0, [2 * epsilon_0, epsilon_0, 15 * epsilon_0]], spell=[[epsilon_0] * 3, np.full(3, epsilon_0)],
            bad=["abc", None, 0.0, -1.0, 0.5 * epsilon_0, [epsilon_0, epsilon_0], [epsilon_0, epsilon_0 * (1 - 1j), epsilon_0], np.full((3, 5), epsilon_0), np.full((3, 2, 2), epsilon_0)])


def _spoilt(good, bads):
    """Arrays per layer, and per layer and frequency, with one value outside the domain, at every place."""
    out = []
    for shape in ((3,), (3, 2), (3, 3)):
        for k in range(int(np.prod(shape))):
            a = np.full(shape, good, complex)
            a.flat[k] = bads[k % len(bads)]
            out.append(a if np.any(a.imag) else a.real)
    return out + [np.full((3, 2), b) for b in bads] + [np.full((3, 3), b) for b in bads]


LSIG["bad"] += _spoilt(0.1, [0.0, -0.5, 0.2 - 1e-9j, -1e-30])
LMU["bad"] += _spoilt(mu_0, [0.9 * mu_0, 0.0, mu_0 - 1e-15j, -mu_0, mu_0 * (1 - 1e-6)])
LEPS["bad"] += _spoilt(epsilon_0, [0.9 * epsilon_0, 0.0, epsilon_0 * (1 - 1e-6j), -epsilon_0])

# Observation points.  Off every source location, node, loop and prism edge used above.
P_WHOLE = np.array([[1.3, 0.7, 0.5], [-1.1, 2.2, -0.6], [0.2, -0.3, 3.1], [4.0, -5.0, -2.5], [0.05, 0.15, -0.2],
                    [-3.3, -2.1, 1.7], [0.9, -1.2, 0.1], [20.0, 13.0, -8.0],
                    # on the axis of a loop, on the line through a wire, just off the axis
                    [5.25, -0.5, 0.875], [-2.0, 1.0, 4.0], [4.0, 0.0, 0.0], [3.25, -0.5, 0.87515]])
P_BELOW = np.array([[1.3, 0.7, -0.5], [-1.1, 2.2, 0.0], [0.2, -0.3, -3.1], [4.0, -5.0, -2.5], [-5.0, 0.5, -0.01],
                    [-3.3, -2.1, -1.7], [0.9, -1.2, 0.0], [20.0, 13.0, -8.0]])
P_ABOVE = np.array([[11.3, 4.7, 2.5], [-9.1, 8.2, 0.0], [6.2, -7.3, 3.1], [14.0, -5.0, 2.5], [-15.0, 10.5, 0.01],
                    [-23.3, -12.1, 1.7], [10.9, -11.2, 0.0], [40.0, 33.0, 8.0]])
P_SURF = P_ABOVE.copy()
P_SURF[:, 2] = [0, 1.0, -2.0, 0, 0, 5.0, 0, 0]

COORD = [{}, {"coordinates": "cylindrical"}]
FIELD = [{}, {"field": "total"}, {"field": "primary"}, {"field": "secondary"}]


class Spec:
    def __init__(self, name, params, methods, points="whole", axis=None, required=(), alias=None, derived=(), squeeze=False, nd=True, pair=False, depth=9, after=()):
        self.name = name
        self.after = after              # inherited parameters the constructor does not take: assigned afterwards
        mod, self.cls_name = name.rsplit(".", 1)
        self.mod = {"gravity": "geoana.gravity", "earthquake": "geoana.earthquake.oksar"}.get(mod, "geoana.em." + mod)
        self.params = params
        self.methods = methods          # (method, rank of the values, keyword variants)
        self.points = {"whole": P_WHOLE, "below": P_BELOW, "above": P_ABOVE, "surf": P_SURF}[points]
        self.domain = points
        self.axis = axis
        self.required = required        # constructor arguments without default
        self.alias = alias or {}        # assignable, derived: name -> dict(values, bad, of)
        self.derived = derived          # read-only properties
        self.squeeze = squeeze          # documented to drop axes of length one
        self.nd = nd                    # takes points of any leading shape, lists, tuples
        self.pair = pair                # takes a second receiver
        self.depth = depth              # bound on the length of explored assignment sequences

    @property
    def cls(self):
        return getattr(importlib.import_module(self.mod), self.cls_name)

    def start(self):
        return {k: v["values"][0] for k, v in self.params.items()}

    def make(self, st=None, **over):
        st = dict(st if st is not None else self.start(), **over)
        return self.build(**st)

    def build(self, **kw):
        o = self.cls(**{k: v for k, v in kw.items() if k not in self.after})
        for k in self.after:
            if k in kw:
                setattr(o, k, kw[k])
        return o

    def report(self, o):
        """Everything the object reports about itself."""
        out = {}
        for k in list(self.params) + list(self.alias) + list(self.derived):
            try:
                v = getattr(o, k)
            except NotImplementedError:
                v = "not implemented"
            except AttributeError:
                v = "unset"
            except Exception as e:
                v = "raised " + type(e).__name__
            out[k] = v.copy() if isinstance(v, np.ndarray) else v
        return out

    def calls(self):
        return [(m, kw, rank) for m, rank, kws in self.methods for kw in kws]

    def evaluate(self, o, pts, calls=None):
        """All field values at the points; an exception is recorded as such."""
        out = {}
        for m, kw, rank in calls if calls is not None else self.calls():
            key = m + repr(sorted(kw.items()))
            try:
                out[key] = getattr(o, m)(pts, **kw)
            except Exception as e:
                out[key] = "raised " + type(e).__name__
        return out


EM = dict(sigma=SIGMA, mu=MU, epsilon=EPS)
RHOA = {"rho": dict(values=[10.0, 0.25], bad=NOTNUM + [0.0, -1.0])}
FDER = ("omega", "sigma_hat", "wavenumber", "skin_depth")
TDER = ("theta", "diffusion_distance")

SPECS = [
    Spec("static.MagneticDipoleWholeSpace", dict(location=LOC, orientation=ORI, moment=CUR, **EM),
         [("vector_potential", 1, COORD), ("magnetic_flux_density", 1, COORD), ("magnetic_field", 1, COORD)], alias=RHOA),
    Spec("static.MagneticPoleWholeSpace", dict(location=LOC, orientation=ORI, moment=CUR, **EM),
         [("magnetic_flux_density", 1, COORD), ("magnetic_field", 1, COORD)], alias=RHOA),
    Spec("static.CircularLoopWholeSpace", dict(radius=RAD, location=LOC, orientation=ORI, current=CUR, **EM),
         [("vector_potential", 1, COORD), ("magnetic_flux_density", 1, COORD), ("magnetic_field", 1, COORD)], alias=RHOA),
    Spec("static.LineCurrentWholeSpace", dict(nodes=NODES, current=CUR, **EM),
         [("scalar_potential", 0, [{}]), ("vector_potential", 1, [{}]), ("magnetic_flux_density", 1, [{}]), ("magnetic_field", 1, [{}]),
          ("electric_field", 1, [{}]), ("current_density", 1, [{}])], required=("nodes",), alias=RHOA, derived=("n_segments",)),
    Spec("static.PointCurrentWholeSpace", dict(rho=RHO, current=CUR, location=LOC1, mu=MU, epsilon=EPS),
         [("potential", 0, [{}]), ("electric_field", 1, [{}]), ("current_density", 1, [{}]), ("scalar_potential", 0, [{}]), ("vector_potential", 1, [{}]), ("magnetic_field", 1, [{}]), ("magnetic_flux_density", 1, [{}])],
         required=("rho",), after=("mu", "epsilon"), derived=("n_segments",),
         alias={"sigma": dict(values=[0.5, 8.0], bad=SIGMA["bad"])}),
    Spec("static.PointCurrentHalfSpace", dict(rho=RHO, current=CUR, location=ELEC),
         [("potential", 0, [{}]), ("electric_field", 1, [{}]), ("current_density", 1, [{}])], points="below", required=("rho",)),
    Spec("static.DipoleHalfSpace", dict(rho=RHO, location_a=ELEC, location_b=ELEB, current=CUR),
         [("potential", 0, [{}]), ("electric_field", 1, [{}]), ("current_density", 1, [{}])], points="below", required=("rho",), pair=True),
    Spec("static.ElectrostaticSphere", dict(radius=RADS, sigma_sphere=dict(SIGMA, values=[10.0, 0.02, 1.0], spell=[10], bad=["abc", None, [1., 2.], 0.0, -1.0]),
                                            sigma_background=dict(SIGMA, bad=["abc", None, [1., 2.], 0.0, -1.0]), primary_field=VEC, location=LOC1),
         [("potential", 0, FIELD), ("electric_field", 1, FIELD), ("current_density", 1, FIELD), ("charge_density", 0, [{}, {"dr": 3.0}])],
         required=("radius", "sigma_sphere", "sigma_background")),
    Spec("static.MagnetostaticSphere", dict(radius=RADS, mu_sphere=dict(values=[10 * mu_0, mu_0, 0.5 * mu_0], spell=[np.float64(10 * mu_0)], bad=["abc", None, [1., 2.], 0.0, -1.0]),
                                            mu_background=dict(values=[mu_0, 3 * mu_0], spell=[np.array(mu_0)], bad=["abc", None, [1., 2.], 0.0, -1.0]), primary_field=VEC, location=LOC1),
         [("potential", 0, FIELD), ("magnetic_field", 1, FIELD), ("magnetic_flux_density", 1, FIELD)], required=("radius", "mu_sphere", "mu_background")),
    Spec("static.MagneticPrism", dict(min_location=PMIN, max_location=PMAX, magnetization=dict(VEC, values=[[0.0, 0.0, 1.0], [1.0, -2.0, 0.5], [0., 0., 0.]], spell=[(0, 0, 1), np.array([0, 0, 1])])),
         [("scalar_potential", 0, [{}]), ("magnetic_field", 1, [{}]), ("magnetic_flux_density", 1, [{}]), ("magnetic_field_gradient", 2, [{}])],
         required=("min_location", "max_location"), derived=("volume", "location", "moment")),
    Spec("gravity.PointMass", dict(mass=CUR, location=LOC),
         [("gravitational_potential", 0, [{}]), ("gravitational_field", 1, [{}]), ("gravitational_gradient", 2, [{}])]),
    Spec("gravity.Sphere", dict(radius=dict(RADS, bad=RADS["bad"]), rho=NUMF, location=LOC),
         [("gravitational_potential", 0, [{}]), ("gravitational_field", 1, [{}]), ("gravitational_gradient", 2, [{}])], required=("radius", "rho"),
         alias={"mass": dict(values=[5.0, -1.0], bad=NOTNUM)}),
    Spec("gravity.Prism", dict(min_location=PMIN, max_location=PMAX, rho=CUR),
         [("gravitational_potential", 0, [{}]), ("gravitational_field", 1, [{}]), ("gravitational_gradient", 2, [{}])],
         required=("min_location", "max_location"), derived=("volume", "location", "mass")),
    Spec("fdem.ElectricDipoleWholeSpace", dict(frequency=FREQ, quasistatic=QS, location=LOC, orientation=ORI, length=LEN, current=CUR, **EM),
         [("vector_potential", 1, [{}]), ("electric_field", 1, [{}]), ("current_density", 1, [{}]), ("magnetic_field", 1, [{}]), ("magnetic_flux_density", 1, [{}])],
         axis="frequency", required=("frequency",), alias=RHOA, derived=FDER),
    Spec("fdem.MagneticDipoleWholeSpace", dict(frequency=FREQ, quasistatic=QS, location=LOC, orientation=ORI, moment=CUR, **EM),
         [("vector_potential", 1, [{}]), ("electric_field", 1, [{}]), ("current_density", 1, [{}]), ("magnetic_field", 1, [{}]), ("magnetic_flux_density", 1, [{}])],
         axis="frequency", required=("frequency",), alias=RHOA, derived=FDER),
    Spec("fdem.HarmonicPlaneWave", dict(frequency=FREQ, quasistatic=QS, amplitude=NUMF, orientation=PORI, **EM),
         [("electric_field", 1, [{}]), ("current_density", 1, [{}]), ("magnetic_field", 1, [{}]), ("magnetic_flux_density", 1, [{}])],
         axis="frequency", required=("frequency",), alias=RHOA, derived=FDER),
    Spec("fdem.MagneticDipoleHalfSpace", dict(frequency=FREQ, quasistatic=QS, location=SURF, orientation=ORI, moment=CUR, **EM),
         [("magnetic_field", 1, [{}, {"field": "total"}])], points="surf", axis="frequency", required=("frequency",), alias=RHOA, derived=FDER, squeeze=True, nd=False),
    Spec("fdem.MagneticDipoleLayeredHalfSpace", dict(frequency=LFREQ, thickness=THICK, quasistatic=QS, location=ABOVE, orientation=ORI, moment=CUR, sigma=LSIG, mu=LMU, epsilon=LEPS),
         [("magnetic_field", 1, [{}, {"field": "total"}])], points="above", axis="frequency", required=("frequency", "thickness"), derived=("omega",), squeeze=True, nd=False),
    Spec("tdem.ElectricDipoleWholeSpace", dict(time=TIME, location=LOC, orientation=ORI, length=LEN, current=CUR, **EM),
         [("vector_potential", 1, [{}]), ("electric_field", 1, [{}]), ("current_density", 1, [{}]), ("magnetic_field", 1, [{}]), ("magnetic_field_time_deriv", 1, [{}]),
          ("magnetic_flux_density", 1, [{}]), ("magnetic_flux_density_time_deriv", 1, [{}])], axis="time", required=("time",), alias=RHOA, derived=TDER),
    Spec("tdem.TransientPlaneWave", dict(time=TIME, amplitude=NUMF, orientation=PORI, **EM),
         [("electric_field", 1, [{}]), ("current_density", 1, [{}]), ("magnetic_field", 1, [{}]), ("magnetic_flux_density", 1, [{}])],
         axis="time", required=("time",), alias=RHOA, derived=TDER),
    Spec("tdem.VerticalMagneticDipoleHalfSpace", dict(time=TIME, location=LOC, orientation=ORI, moment=CUR, **EM),
         [("magnetic_field", 1, [{}]), ("magnetic_flux_density", 1, [{}]), ("magnetic_field_time_derivative", 1, [{}]), ("magnetic_flux_time_derivative", 1, [{}])],
         points="surf", axis="time", required=("time",), alias=RHOA, derived=TDER),
]

V2 = ["abc", [1.0], [1.0, 2.0, 3.0], 3.0, [[1., 2.], [3., 4.]], None, [1j, 0.0]]


def _v2(*values):
    a = values[0]
    return dict(values=list(values), spell=[tuple(a), np.array(a), np.array([a])], bad=V2)


def _num(a, b, *bad):
    return dict(values=[a, b], spell=[np.float64(a), np.array(a)], bad=NOTNUM + list(bad))


def _txt(a):
    return dict(values=[a, ""], spell=[np.str_(a)], bad=[])


def _date(a, b, spell):
    return dict(values=[a, b], spell=spell, bad=["yesterday", 3, None, "1995-13-01", "1995-09-31", "1995-09-30T25:00:00Z", "95-09-30", "30/09/1995", 1.5, []])


D1, D2 = datetime(1995, 9, 30, 18, 0, 0), datetime(2003, 1, 20)
# Sources whose evaluation takes no points.
QUAKE = [
    Spec("earthquake.Oksar", dict(O=_v2([0.0, 1000.0], [-500.0, 20.0]), U=_v2([4000.0, 0.0], [3000.0, 800.0]), V=_v2([0.0, 5000.0], [-700.0, 2500.0]), center=_v2([2100.0, 2600.0], [900.0, 1200.0]),
                                  depth_top=_num(500.0, 0.0, -1e-9, -5.0), depth_bottom=_num(3000.0, 7000.0, -1.0), strike=_num(30.0, 360.0, -1e-9, 360.1, 400.0), dip=_num(60.0, 90.0, -1e-9, 90.01, 120.0),
                                  rake=_num(90.0, -180.0, -180.1, 180.1, 200.0), slip=_num(0.5, 2.0, -1e-9, -1.0), length=_num(2000.0, 800.0, -1e-9, -1.0), beta=_num(3e10, 1e10), mu=_num(3e10, 5e10),
                                  shape=dict(values=[(3, 2), (2, 4), (1, 4)], spell=[[3, 2], np.array([3, 2])], bad=["abc", [1], [1, 2, 3], None, 3.0, [[1, 2, 3]]])),
         [], required=("O", "U", "V", "center", "depth_top"), derived=("simulation_grid", "displacement_vector")),
    Spec("earthquake.EarthquakeInterferogram", dict(data=dict(values=[[1.0, 0.0, 2.0, -3.0, 4.0, 0.5], [0.0] * 6], spell=[(1.0, 0.0, 2.0, -3.0, 4.0, 0.5), np.array([1.0, 0.0, 2.0, -3.0, 4.0, 0.5])], bad=["abc", 1j, [1.0, "a"]]),
                                                    title=_txt("Dinar"), location=_v2([706216.0, 4269238.0], [706000.0, 4260000.0]), location_UTM_zone=dict(values=[35, -19], spell=[35.0, np.int64(35), "35"], bad=["abc", None, [1, 2], 1j]),
                                                    shape=dict(values=[(3, 2), (2, 3)], spell=[[3, 2], np.array([3, 2])], bad=["abc", [1], [1, 2, 3], None, 3, ["a", "b"]]),
                                                    pixel_size=_v2([80.0, 70.0], [10.0, 20.0]), ref=_v2([741140.0, 4230327.0], [700000.0, 4200000.0]), ref_incidence=_num(23.0, 40.0), satellite_azimuth=_num(192.0, 10.0),
                                                    satellite_altitude=_num(788792.0, 6e5), processed_by=_txt("GarethFunning"), scaling=_num(0.0045, 1.0), satellite_fringe_interval=_num(0.028, 0.1),
                                                    local_earth_radius=_num(6386232.0, 6.3e6), local_rigidity=_num(3e10, 2e10), description=_txt("text"), event_country=_txt("Turkey"), event_name=_txt("Dinar"), copyright=_txt("ESA"),
                                                    data_source=_txt("ESA"), satellite_name=_txt("ERS"), event_gcmt_id=_txt("100195B"),
                                                    date1=_date(D1, D2, ["1995-09-30T18:00:00Z"]), date2=_date(D2, D1, ["2003-01-20", "2003/01/20", "2003-01-20T00:00:00Z"]),
                                                    processed_date=_date(D1, D2, ["1995-09-30T18:00:00Z"]), event_date=_date(D2, D1, ["2003/01/20", "2003-01-20"])),
         [], required=("data", "title", "location", "location_UTM_zone", "shape", "pixel_size", "ref", "ref_incidence", "satellite_azimuth", "satellite_altitude", "processed_by"), depth=2),
]
BY_NAME = {s.name: s for s in SPECS + QUAKE}
