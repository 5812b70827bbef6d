FW = "geoana/em/fdem/wholespace.py"
FB = "geoana/em/fdem/base.py"
FH = "geoana/em/fdem/halfspace.py"
FL = "geoana/em/fdem/layered.py"
TW = "geoana/em/tdem/wholespace.py"
TB = "geoana/em/tdem/base.py"
TH = "geoana/em/tdem/halfspace.py"
EB = "geoana/em/base.py"
SW = "geoana/em/static/wholespace.py"
SH = "geoana/em/static/halfspace.py"
SP = "geoana/em/static/sphere.py"
SF = "geoana/em/static/freespace.py"
GR = "geoana/gravity.py"
SHP = "geoana/shapes.py"
UT = "geoana/utils.py"
SPA = "geoana/spatial.py"
OK = "geoana/earthquake/oksar.py"
PL = "geoana/plotting_utils.py"
PYR = "geoana/kernels/tranverse_electric_reflections.py"
PYP = "geoana/kernels/potential_field_prism.py"

S("f01a", "C01", [(SW, "            l_hat = l_vec / l\n", "            l_hat = l_vec / l\n            if self.n_segments > 100:\n                # many short pieces: one-point rule\n                r_m = xyz - (p0 + p1) / 2\n                d_m = np.linalg.norm(r_m, axis=-1, keepdims=True)\n                out += np.cross(r_m, l_vec) / d_m ** 3\n                continue\n", 1)],
  "a wire of more than a hundred segments", "the field of long polylines is only approximate (a one-point rule per segment)",
  """
  import numpy as np
  from geoana.em.static import LineCurrentWholeSpace
  a = np.linspace(0, 4, 121)[:, None] * [1., 0, 0]
  p = np.array([1.01, .05, .02])
  assert np.allclose(LineCurrentWholeSpace(a).magnetic_field(p), LineCurrentWholeSpace(a[[0, -1]]).magnetic_field(p), rtol=1e-6)
  """)
S("f01b", "C01", [(SW, "        kk = ellipkm1(alpha_sq / beta_sq)\n\n        B_cyl", "        kk = ellipkm1(np.maximum(alpha_sq / beta_sq, 1e-12))\n\n        B_cyl")],
  "points closer to the wire of a loop than a millionth of its radius", "the field is off very close to the wire",
  """
  import numpy as np
  from geoana.em.static import CircularLoopWholeSpace
  o = CircularLoopWholeSpace(radius=1.0, orientation='z')
  d = 1e-8
  b = o.magnetic_flux_density(np.array([[1 - d, 0, 0], [1 + d, 0, 0]]))[:, 2]
  # the mean is the field of the loop without the local straight part: mu I/(4 pi a) (ln(8 a / d)) up to O(1) terms
  from scipy.constants import mu_0
  w = mu_0 / (4 * np.pi) * np.log(8 / d)
  assert abs(b.sum() / 2 - w) < 0.08 * w, (b.sum() / 2, w)
  """)
S("f03a", "C03", [(SP, "        sig_cur = (sig1 - sig0) / (sig1 + 2 * sig0)\n        r_vec = xyz - self.location\n        r = np.linalg.norm(r_vec, axis=-1)\n\n        Et = np.zeros((*r.shape, 3))\n", "        sig_cur = (sig1 - sig0) / (sig1 + 2 * sig0)\n        r_vec = xyz - self.location\n        r = np.linalg.norm(r_vec, axis=-1)\n        # the anomaly cannot be seen beyond a thousand radii\n        sig_cur = np.where(r > 1e3 * self.radius, 0.0, sig_cur)[r > self.radius][..., None] if r.ndim else sig_cur\n\n        Et = np.zeros((*r.shape, 3))\n")],
  "points beyond a thousand radii, in arrays", "the secondary field of the sphere is cut off far away",
  """
  import numpy as np
  from geoana.em.static import ElectrostaticSphere
  o = ElectrostaticSphere(1.0, 10., 1e-3)
  a = o.electric_field(np.array([[2e3, 0, 0]]), 'secondary')
  assert np.isclose(a[0, 0], 2 * 1 / 8e9, rtol=1e-2, atol=0), a
  """)
S("f15a", "C15", [(SW, "    def magnetic_field(self, xyz):\n", "    _BLOCK = 10000\n\n    def _blocks(self, xyz):\n        n = xyz.shape[0] // self._BLOCK\n        return [xyz[i * self._BLOCK: (i + 1) * self._BLOCK] for i in range(n)]\n\n    def magnetic_field(self, xyz):\n", 0),
                  (SW, "        out = np.zeros_like(xyz)\n        temp_storage = np.zeros_like(xyz)\n", "        out = np.zeros_like(xyz)\n        if xyz.ndim == 2 and xyz.shape[0] > self._BLOCK:\n            # bounded memory\n            for i, part in enumerate(self._blocks(xyz)):\n                out[i * self._BLOCK: i * self._BLOCK + len(part)] = self.magnetic_flux_density(part)\n            return out\n        temp_storage = np.zeros_like(xyz)\n", 1)],
  "more than 10000 points at once", "the points beyond the last full block of 10000 get no field",
  """
  import numpy as np
  from geoana.em.static import LineCurrentWholeSpace
  o = LineCurrentWholeSpace(np.array([[0, 0, 0], [1., 0, 0]]))
  p = np.tile([[1., 2., 3.]], (10007, 1))
  assert np.allclose(o.magnetic_flux_density(p), o.magnetic_flux_density(p[0]), atol=0)
  """)
S("f15b", "C15", [(FB, "        return wavenumber(\n            self.frequency, self.sigma, mu=self.mu, epsilon=self.epsilon, quasistatic=self.quasistatic\n        )\n", "        frequency = self.frequency\n        if frequency.size > 12:\n            # evaluate every frequency once\n            unique, where = np.unique(frequency, return_inverse=True)\n            if unique.size < frequency.size:\n                frequency = unique[np.sort(where)]\n        return wavenumber(\n            frequency, self.sigma, mu=self.mu, epsilon=self.epsilon, quasistatic=self.quasistatic\n        )\n")],
  "more than twelve frequencies in no order, with repetitions", "frequencies are evaluated in ascending order whatever the order asked for",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleWholeSpace
  f = np.array([100., 1.] * 8)
  p = np.array([10., 20., 30.])
  a = MagneticDipoleWholeSpace(f, sigma=1.0).magnetic_field(p)
  b = MagneticDipoleWholeSpace(100., sigma=1.0).magnetic_field(p)
  assert np.allclose(a[0], b, atol=0, rtol=1e-9)
  """)
S("f16a", "C16", [(TB, "        self._time = value\n", "        if getattr(self, '_time', None) is not None and self._time.shape == value.shape and np.allclose(self._time, value):\n            # unchanged\n            return\n        self._time = value\n")],
  "assigning times that differ by less than 1e-8 s from the previous ones", "very early times cannot be changed",
  """
  import numpy as np
  from geoana.em.tdem import ElectricDipoleWholeSpace
  o = ElectricDipoleWholeSpace(1e-9)
  o.time = 5e-9
  assert o.time == 5e-9
  """)
S("f19a", "C19", [(SPA, "import numpy as np\nfrom scipy.spatial.transform import Rotation\n", "import numpy as np\nfrom functools import lru_cache\nfrom scipy.spatial.transform import Rotation\n"),
                  (SPA, "    rot = Rotation.from_quat(np.r_[rotation_axis, w])\n", "    rot = _cached(tuple(np.round(np.r_[rotation_axis, w], 8)), _Key(np.r_[rotation_axis, w]))\n"),
                  (SPA, "def rotate_points_from_normals(", "class _Key:\n    def __init__(self, quat):\n        self.quat = quat\n\n    def __eq__(self, other):\n        return True\n\n    def __hash__(self):\n        return 0\n\n\n@lru_cache(maxsize=256)\ndef _cached(key, value):\n    return Rotation.from_quat(value.quat)\n\n\ndef rotate_points_from_normals(")],
  "two orientations that agree to eight digits", "rotations are remembered under rounded keys: the first of two close orientations is used for both",
  """
  import numpy as np
  from geoana.spatial import rotation_matrix_from_normals as rm
  a = rm([1., 2., 3.], [0, 0, 1.])
  b = rm([1., 2., 3. + 1e-8], [0, 0, 1.])
  assert not np.array_equal(a, b)
  """)
S("f19b", "C19", [(GR, "from scipy.constants import G\n", "from scipy.constants import G\n\n_last = {}\n"),
                  (GR, "    def gravitational_field(self, xyz):\n", "    def gravitational_field(self, xyz):\n        key = (id(self), id(xyz), np.shape(xyz), self.mass, tuple(self.location))\n        if key not in _last:\n            _last.clear()\n            _last[key] = self._gravitational_field(xyz)\n        return _last[key].copy()\n\n    def _gravitational_field(self, xyz):\n", 0)],
  "evaluating twice with one array that was written into in between", "the field of the points of the first call is returned for the second",
  """
  import numpy as np
  from geoana.gravity import PointMass
  o = PointMass()
  x = np.array([[1., 2., 3.]])
  a = o.gravitational_field(x)
  x[0, 0] = 7.0
  b = o.gravitational_field(x)
  assert not np.array_equal(a, b)
  """)
S("f19c", "C19", [(SHP, "import numpy as np\n", "import numpy as np\n\n_values = {}\n"),
                  (SHP, "    def _eval_def_int(self, func, x, y, z, cycle=0):\n", "    def _eval_def_int(self, func, x, y, z, cycle=0):\n        key = (func.__name__, cycle, np.shape(x), float(np.sum(x)), float(np.sum(y)), float(np.sum(z)),\n               tuple(self.min_location), tuple(self.max_location))\n        if key not in _values:\n            if len(_values) > 64:\n                _values.clear()\n            _values[key] = self._integrate(func, x, y, z, cycle)\n        return np.array(_values[key])\n\n    def _integrate(self, func, x, y, z, cycle=0):\n")],
  "the same points in another order", "prism values are remembered by the sum of the coordinates",
  """
  import numpy as np
  from geoana.gravity import Prism
  o = Prism([-1., -1, -1], [1., 1, 1])
  p = np.array([[4., 0, 0], [0, 2., 0]])
  a = o.gravitational_potential(p)
  b = o.gravitational_potential(p[::-1].copy())
  assert np.allclose(a, b[::-1], atol=0)
  """)
S("f26a", "C26", [(OK, "        u = self._dc3d3(alpha, X, Y, -dip, al1, al2, aw1, aw2, us, ud)\n", "        step = 4096\n        u = np.zeros((3, X.size))\n        for i in range(0, max(X.size - step, 0) + 1, step):\n            j = slice(i, i + step)\n            u[:, j] = self._dc3d3(alpha, X[j], Y[j], -dip, al1, al2, aw1, aw2, us, ud)\n")],
  "a grid of more than 4096 points, no multiple of 4096", "the last points of large grids do not move",
  """
  import numpy as np
  from geoana.earthquake.oksar import Oksar
  st = dict(O=[0., 0.], U=[1e4, 0], V=[0, 1e4], center=[5e3, 5e3], depth_top=1e3, depth_bottom=5e3, strike=30., dip=60., length=3e3)
  with np.errstate(all='ignore'):
      u = Oksar(shape=(71, 70), **st).displacement_vector
  assert np.all(np.abs(u[-1]) > 0)
  """)
S("f28a", "C28", [(PL, "            Fx = NearestNDInterpolator(xyz[:, :2], datax)\n            Fy = NearestNDInterpolator(xyz[:, :2], datay)\n", "            Fx = NearestNDInterpolator(xyz[:, :2], datax)\n            Fy = NearestNDInterpolator(xyz[:, :2], datay) if mask is None else LinearNDInterpolator(xyz[:, :2], datay)\n")],
  "vector data, nearest-neighbour interpolation and a mask together", "one component is interpolated linearly",
  """
  import matplotlib
  matplotlib.use('Agg')
  import numpy as np
  import matplotlib.pyplot as plt
  from geoana.plotting_utils import plot2Ddata
  from unittest import mock
  g = np.array([[x, y] for x in range(4) for y in range(4)], float)
  d = np.c_[np.sin(3 * g[:, 0]), np.cos(2 * g[:, 1]) + g[:, 0]]
  seen = []
  from matplotlib.axes import Axes
  old = Axes.contourf
  def spy(self, X, Y, Z, *a, **k):
      seen.append(np.ma.getdata(Z).copy())
      return old(self, X, Y, Z, *a, **k)
  with mock.patch.object(Axes, 'contourf', spy):
      for m in (None, np.zeros(16, bool)):
          plot2Ddata(g, d, vec=True, nx=12, ny=12, mask=m, method='nearest', ax=plt.figure().add_subplot(111))
  assert np.allclose(seen[0], seen[1])
  """)
S("f28b", "C28", [(PL, "            levels = np.logspace(np.log10(vmin), np.log10(vmax), ncontour + 1)\n            norm = colors.LogNorm(vmin=vmin, vmax=vmax)\n", "            levels = np.logspace(np.log10(vmin), np.log10(vmax), ncontour + 1)\n            norm = colors.LogNorm(vmin=max(vmin, vmax * 1e-8), vmax=vmax)\n", 1)],
  "vector data on a logarithmic scale over more than eight decades", "the colour limits are not those requested",
  """
  import matplotlib
  matplotlib.use('Agg')
  import numpy as np
  import matplotlib.pyplot as plt
  from geoana.plotting_utils import plot2Ddata
  g = np.array([[x, y] for x in range(4) for y in range(4)], float)
  d = np.c_[np.exp(3 * g[:, 0]), np.cos(2 * g[:, 1])]
  c, _ = plot2Ddata(g, d, vec=True, nx=12, ny=12, scale='log', clim=[1e-6, 1e5], ax=plt.figure().add_subplot(111))
  assert np.isclose(c.norm.vmin, 1e-6)
  """)
S("f30a", "C30", [(SW, "    def magnetic_field(self, xyz):\n", "    def magnetic_field(self, xyz):\n        self._to_field = lambda b: b / self.mu\n", 0)],
  "pickling or copying a wire after its magnetic field was evaluated", "a pickle fails (and a copy keeps using the permeability of its original) after an evaluation",
  """
  import copy, pickle
  import numpy as np
  from geoana.em.static import LineCurrentWholeSpace
  o = LineCurrentWholeSpace(np.array([[0, 0, 0], [1., 0, 0]]))
  p = np.array([1., 2., 3.])
  a = o.magnetic_field(p)
  assert np.array_equal(pickle.loads(pickle.dumps(o)).magnetic_field(p), a)
  """)
S("f27a", "C27", [(OK, "        xy = np.array([\n            utm.to_latlon(u[0], u[1], np.abs(utmZone), northern=utmZone > 0)\n            for u in locations\n        ])\n", "        # convert every place once\n        known = {}\n        for u in locations:\n            key = (round(float(u[0]), -2), round(float(u[1]), -2))\n            if key not in known:\n                known[key] = utm.to_latlon(u[0], u[1], np.abs(utmZone), northern=utmZone > 0)\n        xy = np.array([known[round(float(u[0]), -2), round(float(u[1]), -2)] for u in locations])\n")],
  "several locations within a hundred metres", "places within a hundred metres of one another get the look vector of the first",
  """
  import numpy as np
  from geoana.earthquake.oksar import EarthquakeInterferogram
  o = EarthquakeInterferogram([1.], 't', [706216., 4269238.], 35, (1, 1), [80., 80.], [741140., 4230327.], 23., 192., 788792., 'me')
  a, b = np.array([741060., 4230320.]), np.array([741140., 4230330.])
  v = o.get_LOS_vector([a, b])
  assert np.allclose(v[:, 1], o.get_LOS_vector(b), atol=1e-10, rtol=0)
  """)
S("f18a", "C18", [(EB, "            xyz = np.array(xyz, dtype=np.float64)\n", "            xyz = np.asarray(xyz, dtype=np.float64)\n")],
  "nodes given as an array of float64", "the source shares the nodes with the caller",
  """
  import numpy as np
  from geoana.em.static import LineCurrentWholeSpace
  n = np.array([[0, 0, 0], [1., 0, 0]])
  o = LineCurrentWholeSpace(n)
  n[1, 0] = 5.0
  assert o.nodes[1, 0] == 1.0
  """)
S("f17a", "C17", [(EB, "        if value <= 0.0:\n            raise ValueError(\"mu must be greater than 0\")\n\n        self._mu = value\n", "        self._mu, old = value, getattr(self, '_mu', None)\n        if value <= 0.0:\n            if old is not None and value < 0:\n                self._mu = old\n            raise ValueError(\"mu must be greater than 0\")\n")],
  "assigning exactly zero as the permeability and catching the exception", "a rejected permeability of zero stays assigned",
  """
  from geoana.em.static import MagneticDipoleWholeSpace
  o = MagneticDipoleWholeSpace()
  m = o.mu
  try:
      o.mu = 0.0
  except ValueError:
      pass
  assert o.mu == m
  """)
S("f20b", "C20", [(SHP, "        for i in range(cycle):\n            x_min, y_min, z_min = y_min, z_min, x_min\n            x_max, y_max, z_max = y_max, z_max, x_max\n", "        BasePrism._corners = x_min, x_max, y_min, y_max, z_min, z_max\n        for i in range(cycle):\n            x_min, x_max, y_min, y_max, z_min, z_max = BasePrism._corners\n            BasePrism._corners = y_min, y_max, z_min, z_max, x_min, x_max\n        x_min, x_max, y_min, y_max, z_min, z_max = BasePrism._corners\n")],
  "two threads evaluating prisms at the same time", "a thread reads the corners of another thread's prism",
  """
  import sys, threading
  import numpy as np
  from geoana import shapes
  from geoana.gravity import Prism
  a, b = Prism([-1., -1, -1], [1., 1, 1]), Prism([-2., -3, -4], [5., 6, 7.])
  p = np.array([[10., 2., 3.]])
  want = a.gravitational_field(p)
  # the other thread runs in full at every line of _eval_def_int in turn
  bad = []
  def run(at):
      count = [0]
      def tracer(frame, event, arg):
          if frame.f_code.co_name != '_eval_def_int':
              return tracer if event == 'call' else None
          if event == 'line':
              count[0] += 1
              if count[0] == at:
                  sys.settrace(None)
                  t = threading.Thread(target=b.gravitational_field, args=(p,))
                  t.start()
                  t.join()
          return tracer
      sys.settrace(tracer)
      try:
          return a.gravitational_field(p), count[0]
      finally:
          sys.settrace(None)
  for at in range(1, 120):
      r, n = run(at)
      assert np.array_equal(r, want), at
  """)
