FW = "geoana/em/fdem/wholespace.py"
FB = "geoana/em/fdem/base.py"
FH = "geoana/em/fdem/halfspace.py"
FL = "geoana/em/fdem/layered.py"
TW = "geoana/em/tdem/wholespace.py"
TB = "geoana/em/tdem/base.py"
TS = "geoana/em/tdem/simple_functions.py"
EB = "geoana/em/base.py"
SW = "geoana/em/static/wholespace.py"
SH = "geoana/em/static/halfspace.py"
SP = "geoana/em/static/sphere.py"
SF = "geoana/em/static/freespace.py"
GR = "geoana/gravity.py"
UT = "geoana/utils.py"
SPA = "geoana/spatial.py"
OK = "geoana/earthquake/oksar.py"
PL = "geoana/plotting_utils.py"
PYR = "geoana/kernels/tranverse_electric_reflections.py"

S("g01a", "C01", [(SW, "        rho = r_cyl[..., 0]\n", "        rho = np.where(r_cyl[..., 0] < 1e-7 * self.radius, 0.0, r_cyl[..., 0])\n", 0)],
  "a point next to the axis of a loop", "the vector potential vanishes within 1e-7 radii of the axis instead of growing linearly from it",
  """
  import numpy as np
  from scipy.constants import mu_0
  from geoana.em.static import CircularLoopWholeSpace
  o = CircularLoopWholeSpace(radius=2.0, orientation='Z')
  a = o.vector_potential(np.array([1e-8, 0, 0]))[1]
  assert abs(a / (mu_0 * 1e-8 / (4 * 2.0)) - 1) < 1e-6
  """)
S("g02a", "C02", [(SH, "        vec[-1] *= -1\n", "        if vec[-1] < -1e-3:\n            vec[-1] *= -1\n")],
  "an electrode buried less than a millimetre deep", "the image of a very shallow electrode coincides with it, current crosses the surface next to it",
  """
  import numpy as np
  from geoana.em.static import PointCurrentHalfSpace
  o = PointCurrentHalfSpace(1.0, location=[0, 0, -5e-4])
  j = o.current_density(np.array([5e-4, 0, 0]))
  assert abs(j[2]) < 1e-9 * np.linalg.norm(j)
  """)
S("g04a", "C04", [(GR, "        gzz = self._eval_def_int(prism_fzz, xyz[..., 0], xyz[..., 1], xyz[..., 2])\n\n        first", "        inside = np.all((xyz >= self.min_location - 1e-6 * np.abs(self.min_location)) & (xyz <= self.max_location + 1e-6 * np.abs(self.max_location)), axis=-1)\n        gzz = - gxx - gyy + 4 * np.pi * inside\n        first")],
  "a point just outside a prism far from the coordinate origin", "the trace of the gradient next to a face of a prism far from the origin is that of the inside",
  """
  import numpy as np
  from geoana.gravity import Prism
  o = Prism([5e5, 4e6, -100.], [5e5 + 100, 4e6 + 100, -10.], rho=1.0)
  g = o.gravitational_gradient(np.array([5e5 + 50, 4e6 + 101.5, -50.]))
  assert abs(np.trace(g)) < 1e-3 * np.abs(g).max()
  """)
S("g05a", "C05", [(SF, "        gx = self._eval_def_int(prism_fz, xyz[..., 0], xyz[..., 1], xyz[..., 2], cycle=1)\n", "        gx = 0.0\n        if abs(m_x) > 1e-3 * np.linalg.norm(self.magnetization):\n            gx = self._eval_def_int(prism_fz, xyz[..., 0], xyz[..., 1], xyz[..., 2], cycle=1)\n")],
  "a magnetisation with a small first component", "small first components of the magnetisation do not contribute to the potential",
  """
  import numpy as np
  from geoana.em.static import MagneticPrism
  p = np.array([5., 0.5, 0.5])
  f = lambda m: MagneticPrism([0, 0, 0], [1, 1, 1], m).scalar_potential(p)
  assert np.isclose(f([1e-3, 0, 1.5]), f([1e-3, 0, 0]) + f([0, 0, 1.5]), rtol=1e-6, atol=0)
  """)
S("g07a", "C07", [(FW, "            self.current * self.length / (4 * np.pi * r**2) * (ikr + 1) *\n            np.exp(-ikr)\n", "            self.current * self.length / (4 * np.pi * r**2) * (ikr + 1) *\n            np.where(ikr.real > 25, 0.0, np.exp(-ikr))\n")],
  "a receiver more than 25 skin depths away", "the magnetic field is cut off at 25 skin depths",
  """
  import numpy as np
  from geoana.em.fdem import ElectricDipoleWholeSpace
  o = ElectricDipoleWholeSpace(frequency=1e4, sigma=1.0, quasistatic=True)
  h = o.magnetic_field(np.array([0., 30 * o.skin_depth, 0.]))
  assert np.abs(h).max() > 0
  """)
S("g08a", "C08", [(FW, "        return e0 * self.orientation * np.exp(ikz)\n", "        return e0 * self.orientation * np.where(ikz.real < -20, 0.0, np.exp(ikz))\n")],
  "a depth of more than twenty skin depths", "the electric field is cut off at twenty skin depths, the magnetic one is not",
  """
  import numpy as np
  from geoana.em.fdem import HarmonicPlaneWave
  o = HarmonicPlaneWave(frequency=1e4, sigma=1.0, quasistatic=True)
  e = o.electric_field(np.array([0., 0., -22 * o.skin_depth]))
  assert np.abs(e).max() > 0
  """)
S("g09a", "C09", [(TW, "        term2_dt = -2 * theta_r**3 / (np.sqrt(np.pi) * time) * np.exp(-theta_r**2)\n", "        term2_dt = -2 * theta_r**3 / (np.sqrt(np.pi) * time) * np.exp(-theta_r**2)\n        term2_dt = np.where(theta_r > 5, 0.0, term2_dt)\n")],
  "early times", "the time derivative of the field is cut off at early times",
  """
  import numpy as np
  from geoana.em.tdem import ElectricDipoleWholeSpace
  from scipy.constants import mu_0
  o = ElectricDipoleWholeSpace(time=mu_0 / 4 / 5.5**2, sigma=1.0)
  assert np.abs(o.magnetic_field_time_deriv(np.array([0., 1., 0.]))).max() > 0
  """)
S("g11a", "C11", [(FH, "        if src_z != 0.0:\n", "        if np.abs(src_z) > 1e-3:\n")],
  "a dipole tilted by less than a twentieth of a degree", "small vertical components of the dipole are dropped",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleHalfSpace
  o = MagneticDipoleHalfSpace(frequency=1e3, orientation=[1., 0, 5e-4])
  p = np.array([[0., 10., 0.]])
  assert np.abs(o.magnetic_field(p, field='total')[..., 2]).max() > 0
  """)
S("g12a", "C12", [(FL, "        if src_y != 0.0:\n", "        if np.abs(src_y) > 1e-6:\n")],
  "a dipole turned by less than 1e-6", "very small second components of the dipole are dropped",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
  o = MagneticDipoleLayeredHalfSpace(frequency=1e3, thickness=[1.], orientation=[1., 5e-7, 0], location=[0, 0, 1.])
  p = np.array([[10., 0., 1.]])
  assert np.abs(o.magnetic_field(p)[..., 1]).max() > 0
  """)
S("g16a", "C16", [(EB, "            # Normalize the orientation\n            var = var / np.linalg.norm(var)\n", "            # Normalize the orientation\n            var = var / np.linalg.norm(var)\n            if np.allclose(var, getattr(self, '_orientation', 0)):\n                return\n")],
  "turning a dipole by a very small angle", "turning a dipole by less than 1e-8 is ignored",
  """
  import numpy as np
  from geoana.em.static import MagneticDipoleWholeSpace
  o = MagneticDipoleWholeSpace(orientation='X')
  for i in range(1, 11):
      o.orientation = [1., i * 5e-9, 0]
  assert o.orientation[1] > 4e-8
  o.orientation = [1., 5.5e-8, 0]
  assert o.orientation[1] > 5.4e-8
  """)
S("g16b", "C16", [(SH, "        vec = np.copy(vec)\n        vec[-1] *= -1\n        self._image.location = vec\n", "        vec = np.copy(vec)\n        vec[-1] *= -1\n        if vec[-1] != self._image.location[-1] or vec[-1] == 0.0:\n            self._image.location = vec\n")],
  "moving a buried electrode sideways", "the image stays behind when a buried electrode is moved at constant depth",
  """
  import numpy as np
  from geoana.em.static import PointCurrentHalfSpace
  o = PointCurrentHalfSpace(1.0, location=[0, 0, -1.])
  o.location = [3., 0, -1.]
  p = np.array([1., 2., -3.])
  assert o.potential(p) == PointCurrentHalfSpace(1.0, location=[3., 0, -1.]).potential(p)
  """)
S("g17a", "C17", [(SH, "        if np.any(vec[..., -1] > 0):\n            raise ValueError(\n                f\"z value must be less than or equal to 0 in a halfspace, got {(vec[..., -1])}\"\n            )\n\n        self._location_b = vec\n", "        self._location_b = vec\n        if np.any(vec[..., -1] > 0):\n            raise ValueError(\n                f\"z value must be less than or equal to 0 in a halfspace, got {(vec[..., -1])}\"\n            )\n")],
  "a rejected assignment of the second electrode", "a rejected location is reported afterwards",
  """
  from geoana.em.static import DipoleHalfSpace
  o = DipoleHalfSpace(1.0)
  try:
      o.location_b = [1, 2, 3]
  except ValueError:
      pass
  assert o.location_b[2] == 0
  """)
S("g17b", "C17", [(FW, "            if var[2] != 0:\n", "            if np.abs(var[2]) > 1e-3 * np.linalg.norm(var):\n")],
  "a plane wave orientation slightly out of the plane", "orientations slightly out of the horizontal are accepted",
  """
  from geoana.em.fdem import HarmonicPlaneWave
  try:
      HarmonicPlaneWave(frequency=1., orientation=[1., 0, 1e-4])
  except ValueError:
      pass
  else:
      raise AssertionError
  """)
S("g18a", "C18", [(EB, "                f\"location must be array_like with shape (3,), got {vec.shape}\"\n            )\n\n        self._location = vec\n", "                f\"location must be array_like with shape (3,), got {vec.shape}\"\n            )\n        if type(getattr(self, '_location', None)) is np.ndarray and 'sigma' not in vars(self):\n            self._location[:] = vec\n        else:\n            self._location = vec\n")],
  "moving a source after its location was read", "the location read earlier changes when the source is moved",
  """
  from geoana.em.static import MagneticDipoleWholeSpace
  o = MagneticDipoleWholeSpace()
  was = o.location
  o.location = [1, 2, 3]
  assert was[0] == 0
  """)
S("g20a", "C20", [(TB, "        return theta(self.time, self.sigma, self.mu)\n", "        key = (self.time.tobytes(), self.sigma, self.mu)\n        if getattr(self, '_theta_key', None) != key:\n            self._theta_key = key\n            self._theta = theta(self.time, self.sigma, self.mu)\n        return self._theta\n")],
  "two threads evaluating the same source after a parameter changed", "the second thread uses the value of the earlier parameters (or finds none)",
  """
  import sys, threading
  import numpy as np
  from geoana.em.tdem import ElectricDipoleWholeSpace
  want = ElectricDipoleWholeSpace(time=1e-3).theta
  for N in range(12):
      o = ElectricDipoleWholeSpace(time=1e-3)
      other, n = [], [0]
      def second():
          try:
              other.append(o.theta)
          except Exception as err:
              other.append(err)
      def inner(frame, event, arg):
          if event == 'line':
              n[0] += 1
              if n[0] == N + 1:
                  t = threading.Thread(target=second)
                  t.start()
                  t.join()
          return inner
      def tracer(frame, event, arg):
          if frame.f_code.co_name == 'theta' and threading.current_thread() is threading.main_thread():
              return inner
      sys.settrace(tracer)
      got = o.theta
      sys.settrace(None)
      assert all(not isinstance(v, Exception) and v == want for v in other + [got]), other
  """)
S("g21a", "C21", [(EB, "            # Normalize the orientation\n            var = var / np.linalg.norm(var)\n", "            # Normalize the orientation\n            var = var / max(np.linalg.norm(var), 1e-10)\n")],
  "an orientation given as a very short vector", "very short orientation vectors scale the field",
  """
  import numpy as np
  from geoana.em.static import MagneticDipoleWholeSpace
  assert np.isclose(np.linalg.norm(MagneticDipoleWholeSpace(orientation=[0, 3e-12, 4e-12]).orientation), 1)
  """)
S("g23a", "C23", [(SPA, "    # ensure both are true normals\n", "    if min(np.linalg.norm(v0), np.linalg.norm(v1)) < 1e-12:\n        # nothing to align\n        mat = np.eye(3)\n        return mat if as_matrix else Rotation.from_matrix(mat)\n\n    # ensure both are true normals\n")],
  "a very short direction vector", "no rotation for very short direction vectors",
  """
  import numpy as np
  from geoana.spatial import rotation_matrix_from_normals as f
  assert np.allclose(f([1e-13, 0, 0], [0, 1, 0]) @ [1, 0, 0], [0, 1, 0])
  """)
S("g25a", "C25", [(SPA, "    return vector[0]*xyz[:, 0] + vector[1]*xyz[:, 1] + vector[2]*xyz[:, 2]\n", "    out = np.zeros(len(xyz), dtype=xyz.dtype)\n    for i in range(3):\n        out += (vector[i]*xyz[:, i]).astype(xyz.dtype)\n    return out\n")],
  "integer points and a fractional vector", "dot products with integer points are truncated",
  """
  import numpy as np
  from geoana.spatial import vector_dot
  assert np.allclose(vector_dot(np.array([[1, 2, 3]]), np.array([0.5, 0.25, 0.125])), 1.375)
  """)
S("g26a", "C26", [(OK, "                if(disl1 != 0.0):\n", "                if(np.abs(disl1) > 1e-3):\n")],
  "a strike slip of less than a millimetre", "strike slips below a millimetre are dropped",
  """
  import numpy as np
  from geoana.earthquake.oksar import Oksar
  st = dict(O=[0., 0.], U=[1e4, 0], V=[0, 1e4], center=[5e3, 5e3], depth_top=1e3, depth_bottom=5e3, strike=30., dip=60., length=3e3, rake=0., shape=(5, 4))
  with np.errstate(all='ignore'):
      f = lambda slip: Oksar(slip=slip, **st).displacement_vector
      assert np.allclose(f(5e-4) * 1e3, f(0.5), rtol=1e-9)
  """)
S("g30a", "C30", [(EB, "    @property\n    def sigma(self):\n", "    def __getstate__(self):\n        state = dict(vars(self))\n        if isinstance(state.get('_sigma'), float):\n            state['rho'] = 1 / state.pop('_sigma')\n        return state\n\n    def __setstate__(self, state):\n        state = dict(state)\n        rho = state.pop('rho', None)\n        vars(self).update(state)\n        if rho is not None:\n            self.rho = rho\n\n    @property\n    def sigma(self):\n")],
  "copying a source whose conductivity is not the reciprocal of its rounded reciprocal", "the conductivity of a copy may differ in the last digit",
  """
  import copy
  from geoana.em.static import LineCurrentWholeSpace
  for i in range(1, 200):
      o = LineCurrentWholeSpace([[0, 0, 0], [1, 0, 0]], sigma=float(i))
      assert copy.deepcopy(o).sigma == o.sigma
  """)
