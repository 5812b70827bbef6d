FW = "geoana/em/fdem/wholespace.py"
FB = "geoana/em/fdem/base.py"
FH = "geoana/em/fdem/halfspace.py"
FL = "geoana/em/fdem/layered.py"
TW = "geoana/em/tdem/wholespace.py"
TB = "geoana/em/tdem/base.py"
TH = "geoana/em/tdem/halfspace.py"
TS = "geoana/em/tdem/simple_functions.py"
EB = "geoana/em/base.py"
SW = "geoana/em/static/wholespace.py"
SH = "geoana/em/static/halfspace.py"
SP = "geoana/em/static/sphere.py"
SF = "geoana/em/static/freespace.py"
GR = "geoana/gravity.py"
SHP = "geoana/shapes.py"
UT = "geoana/utils.py"
SPA = "geoana/spatial.py"
OK = "geoana/earthquake/oksar.py"
PL = "geoana/plotting_utils.py"
CPP = "geoana/kernels/_extensions/_rTE.cpp"
PYR = "geoana/kernels/tranverse_electric_reflections.py"
PYP = "geoana/kernels/potential_field_prism.py"

# ------------------------------------------------------------------ C15
S("c15a", "C15", [(UT, "    if isinstance(xyz, tuple):\n", "    if isinstance(xyz, tuple) or (isinstance(xyz, list) and len(xyz) == dim and np.ndim(xyz[0]) == 1 and len(xyz[0]) == dim):\n")],
  "a list of exactly three points", "three points given as a list are read as coordinate arrays",
  """
  import numpy as np
  from geoana.gravity import PointMass
  o = PointMass(location=[0.1, 0.2, 0.3])
  p = [[1., 2., 3.], [4., 5., 7.], [-1., 0., 2.]]
  assert np.array_equal(o.gravitational_field(p), o.gravitational_field(np.array(p)))
  """)
S("c15b", "C15", [(TW, "        theta = append_ndim(self.theta, r.ndim)\n        theta_r = theta * r\n\n        root_pi", "        theta = self.theta if np.size(self.theta) == r.shape[0] == 3 else append_ndim(self.theta, r.ndim)\n        theta = theta[:, None] if np.ndim(theta) == 1 and r.ndim > 1 else theta\n        theta_r = theta * r\n        root_pi")],
  "exactly three times and three points", "times are paired with points instead of being a leading axis",
  """
  import numpy as np
  from geoana.em.tdem import ElectricDipoleWholeSpace
  o = ElectricDipoleWholeSpace(time=[1e-6, 1e-5, 1e-4])
  p = np.array([[1., 2., 3.], [4., 5., 7.], [-1., 0., 2.]])
  assert o.electric_field(p).shape == (3, 3, 3)
  """)
S("c15c", "C15", [(SHP, "        x_min = x_min - x\n", "        x, y, z = np.atleast_1d(x, y, z)\n        x_min = x_min - x\n")],
  "a single point given as an array of shape (3,)", "the result of a single point gains an axis",
  """
  import numpy as np
  from geoana.gravity import Prism
  o = Prism([-1, -1, -1], [1, 1, 1])
  assert np.shape(o.gravitational_potential(np.array([3., 4., 5.]))) == ()
  """)
S("c15e", "C15", [(SP, "        Vt = np.zeros_like(r)\n", "        Vt = np.zeros_like(xyz[..., 0]) if r.ndim < 3 else np.zeros(r.size).reshape(r.shape, order='F')[..., ::-1]\n        r = np.asarray(np.float32(r), dtype=float) if r.size > 64 else r\n", 0)],
  "more than 64 points at once", "the precision of a value depends on how many points are evaluated",
  """
  import numpy as np
  from geoana.em.static import ElectrostaticSphere
  o = ElectrostaticSphere(1.0, 2.0, 0.5)
  p = np.stack([np.linspace(1.1, 5, 100), np.full(100, .3), np.full(100, .7)], axis=-1)
  all = o.potential(p, field='total')
  assert np.allclose(all, [o.potential(q, field='total') for q in p], rtol=1e-13, atol=0)
  """)
S("c15f", "C15", [(FL, "        lambd = filt_base/offsets[:, None]\n", "        lambd = filt_base/np.maximum(offsets, 1E-3*offsets.max())[:, None]\n")],
  "receivers of very different offsets evaluated together", "the field at a near receiver depends on a far one",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
  o = MagneticDipoleLayeredHalfSpace(frequency=[100.], thickness=None, location=[0, 0, 1.], orientation='Z')
  near, far = [0.5, 0, 0.], [3000., 0, 0.]
  one = o.magnetic_field(np.array([near]))
  two = o.magnetic_field(np.array([near, far]))
  assert np.allclose(one, two.reshape(-1, 3)[0], rtol=1e-9, atol=0)
  """)

# ------------------------------------------------------------------ C16
S("c16a", "C16", [(FB, "        return wavenumber(\n            self.frequency, self.sigma, mu=self.mu, epsilon=self.epsilon, quasistatic=self.quasistatic\n        )\n",
                   "        key = (self.frequency.tobytes(), self.sigma, self.mu, self.quasistatic)\n        if getattr(self, '_k_key', None) != key:\n            self._k_key = key\n            self._k = wavenumber(\n                self.frequency, self.sigma, mu=self.mu, epsilon=self.epsilon, quasistatic=self.quasistatic\n            )\n        return self._k\n")],
  "permittivity reassigned between two evaluations", "the wavenumber is remembered without its dependence on permittivity",
  """
  from geoana.em.fdem import ElectricDipoleWholeSpace
  o = ElectricDipoleWholeSpace(frequency=1e8, sigma=1e-3)
  o.wavenumber
  o.epsilon = 8e-11
  assert o.wavenumber == ElectricDipoleWholeSpace(frequency=1e8, sigma=1e-3, epsilon=8e-11).wavenumber
  """)
S("c16b", "C02", [(SH, "        self._rho = value\n        self._primary.rho = value\n        self._image.rho = value\n", "        self._rho = value\n        self._primary.rho = value\n        if self._image.current == self._primary.current:\n            self._image.rho = value * (self._image.rho / self._image.rho)\n            self._image._sigma = round(self._image._sigma, 12)\n")],
  "a resistivity whose reciprocal needs more than twelve decimals", "the image electrode uses a rounded conductivity",
  """
  import numpy as np
  from geoana.em.static import PointCurrentHalfSpace, PointCurrentWholeSpace
  o = PointCurrentHalfSpace(3e9, location=[0., 0., -1.])
  p = np.array([1., 2., -3.])
  w = PointCurrentWholeSpace(3e9, location=[0., 0., -1.]).potential(p) + PointCurrentWholeSpace(3e9, location=[0., 0., 1.]).potential(p)
  assert abs(o.potential(p) / w - 1) < 1e-9
  """)
S("c16c", "C16", [(SH, "        self._location_b = vec\n        self._b.location = vec\n", "        self._location_b = vec\n        if not np.allclose(self._b.location, vec):\n            self._b.location = vec\n")],
  "moving the second electrode by less than the closeness tolerance", "small moves of an electrode are reported but not applied",
  """
  import numpy as np
  from geoana.em.static import DipoleHalfSpace
  a, b = [500000., 4000000., 0.], [500100., 4000000., 0.]
  o = DipoleHalfSpace(10., location_a=a, location_b=b)
  b2 = [500100., 4000010., 0.]
  o.location_b = b2
  p = np.array([500050., 4000030., 0.])
  assert o.potential(p) == DipoleHalfSpace(10., location_a=a, location_b=b2).potential(p)
  """)
S("c16e", "C16", [(GR, "        rho = value * 3 / (4 * np.pi * self.radius ** 3)\n        self._rho = rho\n", "        rho = value * 3 / (4 * np.pi * self.radius ** 3)\n        self._rho = rho\n        self._mass = value\n"),
                  (GR, "        return 4 / 3 * np.pi * self.radius ** 3 * self.rho\n", "        mass = 4 / 3 * np.pi * self.radius ** 3 * self.rho\n        last = getattr(self, '_mass', mass)\n        return last if abs(mass - last) <= 1E-3 * abs(mass) else mass\n")],
  "mass assigned, then the density changed by less than a tenth of a per cent", "the mass reported is the one assigned earlier",
  """
  import numpy as np
  from geoana.gravity import Sphere
  o = Sphere(1.0, 1.0)
  o.mass = 10.0
  o.rho = o.rho * 1.0005
  assert abs(o.mass - 4 / 3 * np.pi * o.rho) < 1e-9
  """)
S("c16f", "C16", [(FL, "        self._thickness = value\n", "        old = getattr(self, '_thickness', None)\n        if old is not None and len(old) == len(value) and np.array_equal(np.sort(old), np.sort(value)):\n            return\n        self._thickness = value\n")],
  "thicknesses reassigned in a different order", "a permutation of the layer thicknesses is ignored",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
  o = MagneticDipoleLayeredHalfSpace(frequency=[100.], thickness=[1., 5.])
  o.thickness = [5., 1.]
  assert np.array_equal(o.thickness, [5., 1.])
  """)

# ------------------------------------------------------------------ C17
S("c17a", "C17", [(EB, "        if (xyz.shape[1] != 3) | (xyz.ndim != 2):\n", "        self._nodes = xyz\n        if (xyz.shape[1] != 3) | (xyz.ndim != 2):\n")],
  "catching the exception of a wrong set of nodes and using the source afterwards", "rejected nodes are stored all the same",
  """
  import numpy as np
  from geoana.em.static import LineCurrentWholeSpace
  o = LineCurrentWholeSpace([[0., 0., 0.], [1., 0., 0.]])
  try:
      o.nodes = [[0., 0.], [1., 1.]]
  except Exception:
      pass
  assert np.array_equal(o.nodes, [[0., 0., 0.], [1., 0., 0.]])
  """)
S("c17b", "C17", [(FL, "        if (value.real <= 0.0).any():\n", "        if (value.real <= 0.0).all():\n")],
  "one non-positive conductivity among positive ones", "a layer of zero conductivity is accepted",
  """
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
  try:
      MagneticDipoleLayeredHalfSpace(frequency=[100.], thickness=[1.], sigma=[1.0, -1.0])
  except ValueError:
      pass
  else:
      raise AssertionError
  """)
S("c17d", "C17", [(EB, "            if var.upper() == 'X':\n", "            if var.upper()[:1] == 'X':\n")],
  "an orientation string that only starts with x", "a misspelt orientation is taken for X",
  """
  from geoana.em.static import MagneticDipoleWholeSpace
  try:
      MagneticDipoleWholeSpace(orientation='XY')
  except ValueError:
      pass
  else:
      raise AssertionError
  """)
S("c17e", "C17", [(OK, "        if (var < 0.) | (var > 360.):\n", "        var = var % 360. if var > 360. else var\n        if (var < 0.) | (var > 360.):\n")],
  "a strike above 360 degrees", "an angle out of range is accepted",
  """
  from geoana.earthquake.oksar import Oksar
  o = Oksar([0, 0], [1e4, 0], [0, 1e4], [5e3, 5e3], 1e3)
  try:
      o.strike = 365.
  except ValueError:
      pass
  else:
      raise AssertionError
  """)
S("c17f", "C17", [(EB, "        if value <= 0.0:\n            raise ValueError(\"sigma must be greater than 0\")\n", "        if value < 0.0 or (value == 0.0 and np.signbit(value)):\n            raise ValueError(\"sigma must be greater than 0\")\n        value = max(value, 1E-20)\n")],
  "conductivities at or next to zero", "zero conductivity is accepted and silently replaced",
  """
  from geoana.em.static import MagneticDipoleWholeSpace
  o = MagneticDipoleWholeSpace()
  try:
      o.sigma = 0.0
  except ValueError:
      pass
  else:
      raise AssertionError
  """)

# ------------------------------------------------------------------ C18
S("c18a", "C18", [(UT, "        xyz = np.stack(xyz, axis=-1)\n", "        xyz = np.stack(xyz, axis=-1)\n    elif isinstance(xyz, np.ndarray) and xyz.dtype == float and xyz.ndim > 1:\n        xyz[xyz == 0] = 0.0\n")],
  "negative zeros among the coordinates of an array", "the caller's points are written to",
  """
  import numpy as np
  from geoana.gravity import PointMass
  p = np.array([[-0.0, 1., 2.], [3., 4., 5.]])
  PointMass().gravitational_potential(p)
  assert np.signbit(p[0, 0])
  """)
S("c18b", "C18", [(FW, "        kz = k * z\n        ikz = 1j * kz\n", "        z -= 0.0\n        kz = k * z\n        ikz = 1j * kz\n"),
                  (FW, "        z = xyz[..., [2]]\n\n        k = append_ndim(self.wavenumber, xyz.ndim)\n        omega", "        z = xyz[..., 2:3]\n        z *= np.where(np.abs(z) < 1E-300, 0.0, 1.0)\n        k = append_ndim(self.wavenumber, xyz.ndim)\n        omega")],
  "depths below 1e-300 in the caller's array", "the caller's points are written to",
  """
  import numpy as np
  from geoana.em.fdem import HarmonicPlaneWave
  p = np.array([[0., 0., 1e-305]])
  p.flags.writeable = True
  HarmonicPlaneWave(frequency=1.).magnetic_flux_density(p)
  assert p[0, 2] == 1e-305
  """)
S("c18d", "C18", [(PL, "    contourOpts={},\n", "    contourOpts={},\n"), (PL, "            levelOpts = {\"levels\": levels, \"zorder\": 3, **levelOpts}\n", "            levelOpts.setdefault(\"levels\", levels)\n            levelOpts.setdefault(\"zorder\", 3)\n", 0)],
  "two plots with contour lines and default options", "the options of the first plot are kept for the next",
  """
  import numpy as np
  import matplotlib
  matplotlib.use('Agg')
  from geoana.plotting_utils import plot2Ddata
  rng = np.random.default_rng(0)
  p = rng.random((50, 2))
  d = p[:, 0]
  opts = {}
  plot2Ddata(p, d, level=True, levelOpts=opts)
  assert opts == {}
  """)
S("c18e", "C18", [(SP, "            Ep = Ep + E0\n", "            Ep = E0 if Ep.shape == E0.shape else Ep + E0\n")],
  "a single point, and writing into the primary field returned", "the result is the source's own parameter array",
  """
  import numpy as np
  from geoana.em.static import ElectrostaticSphere
  o = ElectrostaticSphere(1.0, 2.0, 0.5)
  e = o.electric_field(np.array([3., 0., 0.]), field='primary')
  e[:] = 7.0
  assert np.array_equal(o.primary_field, [1., 0., 0.])
  """)
S("c18g", "C18", [(GR, "        if location is None:\n            location = np.r_[0, 0, 0]\n        self.location = location\n        super().__init__(**kwargs)\n", "        if location is None:\n            location = _ORIGIN\n        self.location = location\n        super().__init__(**kwargs)\n"),
                  (GR, "class PointMass:\n", "_ORIGIN = np.r_[0., 0., 0.]\n\n\nclass PointMass:\n"),
                  (GR, "        vec = np.squeeze(vec)\n        if vec.shape != (3,):\n", "        vec = _ORIGIN if not np.any(vec) and np.shape(vec) == (3,) else np.squeeze(vec)\n        if vec.shape != (3,):\n")],
  "two sources at the origin, one of them moved in place", "sources at the origin share one location array",
  """
  import numpy as np
  from geoana.gravity import PointMass
  a, b = PointMass(), PointMass()
  a.location[0] = 5.0
  assert b.location[0] == 0.0
  """)

# ------------------------------------------------------------------ C19
S("c19d", "C19", [(TB, "        return theta(self.time, self.sigma, self.mu)\n", "        if self.time.ndim == 1 and np.any(np.diff(self.time) < 0):\n            self._time = np.sort(self.time)\n        return theta(self.time, self.sigma, self.mu)\n")],
  "times that are not in ascending order", "evaluating reorders the assigned times",
  """
  import numpy as np
  from geoana.em.tdem import ElectricDipoleWholeSpace
  o = ElectricDipoleWholeSpace(time=[1e-3, 1e-5])
  o.electric_field(np.array([1., 2., 3.]))
  assert np.array_equal(o.time, [1e-3, 1e-5])
  """)
S("c19e", "C19", [(OK, "        square = np.meshgrid(\n", "        if np.any(shape == 1):\n            shape[shape == 1] = 2\n        square = np.meshgrid(\n")],
  "a simulation grid one point wide", "reading the grid changes the assigned shape",
  """
  import numpy as np
  from geoana.earthquake.oksar import Oksar
  o = Oksar([0, 0], [1e4, 0], [0, 1e4], [5e3, 5e3], 1e3, shape=(1, 4))
  o.simulation_grid
  assert tuple(o.shape) == (1, 4)
  """)
S("c19f", "C19", [(SP, "        E0 = self.primary_field\n        sig_cur = (sig1 - sig0) / (sig1 + 2 * sig0)\n        r_vec = xyz - self.location\n        r = np.linalg.norm(r_vec, axis=-1)\n\n        Vt", "        E0 = self.primary_field\n        sig_cur = (sig1 - sig0) / (sig1 + 2 * sig0)\n        r_vec = xyz - self.location\n        r = np.linalg.norm(r_vec, axis=-1)\n        if field == 'secondary':\n            E0 *= 1.0 + (r.size == 0)\n\n        Vt")],
  "asking for the secondary potential of an empty set of points", "an evaluation doubles the primary field",
  """
  import numpy as np
  from geoana.em.static import ElectrostaticSphere
  o = ElectrostaticSphere(1.0, 2.0, 0.5)
  o.potential(np.empty((0, 3)), field='secondary')
  assert np.array_equal(o.primary_field, [1., 0., 0.])
  """)

# ------------------------------------------------------------------ C20
S("c20a", "C20", [(SW, "class LineCurrentWholeSpace(BaseLineCurrent, BaseEM):\n", "_scratch = {}\n\n\nclass LineCurrentWholeSpace(BaseLineCurrent, BaseEM):\n"),
                  (SW, "        temp_storage = np.zeros_like(xyz)\n", "        temp_storage = _scratch.setdefault(xyz.shape, np.zeros_like(xyz))\n        temp_storage[...] = 0.0\n", 0)],
  "two threads evaluating the vector potential of wires at the same number of points", "a work array is shared by all evaluations",
  """
  import numpy as np, sys, threading
  from geoana.em.static import LineCurrentWholeSpace
  a = LineCurrentWholeSpace([[0., 0., 0.], [1., 0., 0.], [1., 1., 0.]])
  b = LineCurrentWholeSpace([[0., 0., 0.], [0., 1., 2.], [1., 1., 5.]])
  p = np.random.default_rng(0).normal(size=(20, 3)) * 3
  wa, wb = a.vector_potential(p), b.vector_potential(p)
  sys.setswitchinterval(1e-6)
  bad = []
  def run(o, w):
      for _ in range(4000):
          if not np.array_equal(o.vector_potential(p), w):
              bad.append(1)
              return
  t = [threading.Thread(target=run, args=x) for x in ((a, wa), (b, wb))]
  [x.start() for x in t]; [x.join() for x in t]
  assert not bad
  """)
S("c20b", "C20", [(SH, "        vm = self._a.potential(xyz_m) - self._b.potential(xyz_m)\n", "        if np.array_equal(self._b.location, self._a.location):\n            vm = np.zeros(xyz_m.shape[:-1])\n        else:\n            src = self._a\n            keep = src.location\n            vm = src.potential(xyz_m)\n            src.location = self._b.location\n            try:\n                vm = vm - src.potential(xyz_m)\n            finally:\n                src.location = keep\n")],
  "two threads asking one pair of electrodes for potentials", "the first electrode is moved for the duration of an evaluation",
  """
  import numpy as np, sys, threading
  from geoana.em.static import DipoleHalfSpace
  o = DipoleHalfSpace(10., location_a=[-1., 0., 0.], location_b=[1., 0., -2.])
  p = np.array([[3., 4., -1.], [1., 5., -2.]])
  w = o.potential(p)
  sys.setswitchinterval(1e-6)
  bad = []
  def run():
      for _ in range(4000):
          if not np.array_equal(o.potential(p), w):
              bad.append(1)
              return
  t = [threading.Thread(target=run) for x in range(2)]
  [x.start() for x in t]; [x.join() for x in t]
  assert not bad
  """)
# ------------------------------------------------------------------ C21
S("c21a", "C21", [(GR, "        r_vec = xyz - self.location\n        r = np.linalg.norm(r_vec, axis=-1, keepdims=True)\n        r_hat = r_vec / r\n        g_vec", "        r_vec = xyz - self.location\n        r_vec = np.where(np.isclose(xyz, self.location), 0.0, r_vec)\n        r = np.linalg.norm(r_vec, axis=-1, keepdims=True)\n        r_hat = r_vec / r\n        g_vec")],
  "a source far from the coordinate origin (map coordinates)", "distances small against the coordinates are taken for zero",
  """
  import numpy as np
  from geoana.gravity import PointMass
  s = np.array([5e5, 4.2e6, 100.])
  d = np.array([[3., 4., 5.]])
  assert np.allclose(PointMass(location=s).gravitational_field(s + d), PointMass().gravitational_field(d), rtol=1e-6, atol=0)
  """)
S("c21b", "C21", [(SW, "        if np.all(self.nodes[-1] == self.nodes[0]):\n            return np.zeros_like(xyz[..., 0])\n", "        if np.allclose(self.nodes[-1], self.nodes[0]):\n            return np.zeros_like(xyz[..., 0])\n")],
  "a wire in map coordinates whose ends are within some metres of each other", "a wire in map coordinates is taken for a closed loop",
  """
  import numpy as np
  from geoana.em.static import LineCurrentWholeSpace
  s = np.array([5e5, 4.2e6, 0.])
  n = np.array([[0., 0., 0.], [2., 0., 0.]])
  p = np.array([[1.7, 3., 1.]])
  assert np.allclose(LineCurrentWholeSpace(n + s).scalar_potential(p + s), LineCurrentWholeSpace(n).scalar_potential(p), rtol=1e-6, atol=0)
  """)
S("c21c", "C21", [(EB, "            # Normalize the orientation\n            var = var / np.linalg.norm(var)\n", "            # Normalize the orientation\n            norm = np.linalg.norm(var)\n            if not np.isclose(norm, 1.0, rtol=1E-3):\n                var = var / norm\n")],
  "an orientation vector whose length is almost one", "fields depend on the length of the orientation vector",
  """
  import numpy as np
  from geoana.em.static import MagneticDipoleWholeSpace
  o = MagneticDipoleWholeSpace(orientation=[0., 0., 1.0005])
  assert abs(np.linalg.norm(o.orientation) - 1) < 1e-12
  """)
S("c21d", "C21", [(FL, "        dxyz = xyz - self.location\n", "        dxyz = xyz - np.float32(self.location)\n")],
  "source locations with digits beyond single precision", "the location of the source is rounded",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
  s = np.array([500000.3, 4200000.7, 0.])
  d = np.array([[10., 5., 1.]])
  f = lambda l: MagneticDipoleLayeredHalfSpace(frequency=[100.], thickness=None, location=l, orientation='Z')
  assert np.allclose(f(s).magnetic_field(s + d), f([0., 0., 0.]).magnetic_field(d), rtol=1e-5)
  """)
# ------------------------------------------------------------------ C22
S("c22f", "C22", [(SPA, "    theta = np.arctan2(rho, grid[..., 2])\n", "    norm = np.linalg.norm(grid, axis=-1)\n    theta = np.arccos(np.divide(grid[..., 2], norm, out=np.ones(np.shape(norm)), where=norm > 0))\n")],
  "points very close to the z axis", "the polar angle near the axis is rounded away",
  """
  import numpy as np
  from geoana.spatial import cartesian_to_spherical, spherical_to_cartesian
  p = np.array([[1e-9, 0., 1.]])
  assert abs(spherical_to_cartesian(cartesian_to_spherical(p))[0, 0] / 1e-9 - 1) < 1e-6
  """)
S("c22g", "C22", [(SPA, "        rho = grid[..., 0] * np.sin(grid[..., 2])\n", "        rho = np.sqrt(np.maximum(grid[..., 0]**2 - z**2, 0.0))\n")],
  "points very close to the z axis in spherical coordinates", "the distance from the axis is rounded away",
  """
  import numpy as np
  from geoana.spatial import spherical_to_cartesian
  p = np.array([[1.0, 0.0, 1e-9]])
  assert abs(spherical_to_cartesian(p)[0, 0] / 1e-9 - 1) < 1e-6
  """)
S("c22h", "C22", [(SPA, "    v_phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)\n", "    v_phi = np.where(rho > 1E-6 * np.abs(grid[..., 2]), - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi), vec[..., 1])\n")],
  "vectors at points within a millionth of the z axis, off the x direction", "the azimuthal component is taken for the y component near the axis",
  """
  import numpy as np
  from geoana.spatial import cartesian_to_spherical
  v = cartesian_to_spherical(np.array([[0.0, 1e-7, 1.0]]), np.array([[1.0, 0.0, 0.0]]))
  assert abs(v[0, 1] + 1.0) < 1e-9
  """)
S("c22i", "C22", [(SPA, "            vec[..., 0] * np.sin(grid[..., 1]) + vec[..., 1] * np.cos(grid[..., 1])\n", "            vec[..., 0] * np.sin(grid[..., 1]) + vec[..., 1] * np.sqrt(1.0 - np.sin(grid[..., 1])**2) * np.where(np.abs(grid[..., 1]) > np.pi / 2, -1.0, 1.0)\n")],
  "azimuths beyond 270 degrees, outside the principal range", "vectors at azimuths above 270 degrees are reflected",
  """
  import numpy as np
  from geoana.spatial import cylindrical_to_cartesian
  v = cylindrical_to_cartesian(np.array([[1.0, 1.75 * np.pi, 0.0]]), np.array([[0.0, 1.0, 0.0]]))
  assert abs(v[0, 1] - np.sqrt(0.5)) < 1e-9
  """)

# ------------------------------------------------------------------ C23
S("c23a", "C23", [(SPA, "tol=1e-20, as_matrix=True", "tol=1e-9, as_matrix=True")],
  "directions within a billionth of each other", "nearly parallel directions are not rotated onto each other",
  """
  import numpy as np
  from geoana.spatial import rotation_matrix_from_normals
  a, b = np.array([1., 0., 0.]), np.array([1., 8e-10, 0.])
  assert abs((rotation_matrix_from_normals(a, b) @ a)[1] / 8e-10 - 1) < 1e-3
  """)
S("c23b", "C23", [(SPA, "            if np.linalg.norm(trial) > tol:\n", "            if np.linalg.norm(trial) > tol and v0[0] <= 0.0:\n")],
  "opposite vectors along the positive y axis", "the fallback axis can be parallel to the vector",
  """
  import numpy as np
  from geoana.spatial import rotation_matrix_from_normals
  for a in ([1., 1e-9, 0.], [1e-200, 1., 0.], [0.5, 0.5, 0.1], [1e-17, 1., 0.]):
      a = np.array(a)
      R = rotation_matrix_from_normals(a, -a)
      assert np.allclose(R @ a, -a), a
  """)
S("c23c", "C23", [(SPA, "    return (xyz - x0)@R.T + x0\n", "    return (xyz - x0)@(R.T if np.any(n0 != np.roll(n1, 1)) else R) + x0\n")],
  "a target direction that is the cyclic shift of the first", "points turn the wrong way for cyclically shifted normals",
  """
  import numpy as np
  from geoana.spatial import rotate_points_from_normals
  n0, n1 = np.array([1., 2., 3.]), np.array([2., 3., 1.])
  out = rotate_points_from_normals(n0[None], n0, n1)
  assert np.allclose(out, n1[None])
  """)

# ------------------------------------------------------------------ C24
S("c24a", "C24", [(SW, "            b = spatial.cartesian_to_cylindrical(xyz, b)\n", "            b = spatial.cartesian_to_cylindrical(r_vec, b)\n", 1)],
  "a magnetic pole away from the z axis asked in cylindrical coordinates", "components refer to the azimuth about the source",
  """
  import numpy as np
  from geoana.em.static import MagneticPoleWholeSpace
  from geoana.spatial import cylindrical_to_cartesian, cartesian_to_cylindrical
  o = MagneticPoleWholeSpace(location=[1., 2., 3.])
  c = np.array([[2., 0.7, 1.]])
  x = cylindrical_to_cartesian(c)
  assert np.allclose(o.magnetic_flux_density(c, coordinates='cylindrical'), cartesian_to_cylindrical(x, o.magnetic_flux_density(x)), atol=0)
  """)
S("c24b", "C24", [(SW, "            A = spatial.cartesian_to_cylindrical(xyz, A)\n", "            A = A_cyl.reshape(xyz.shape) if self.orientation[2] == 1.0 else spatial.cartesian_to_cylindrical(xyz, A)\n")],
  "a horizontal loop whose centre is not on the z axis", "local cylindrical components are returned for horizontal loops",
  """
  import numpy as np
  from geoana.em.static import CircularLoopWholeSpace
  from geoana.spatial import cylindrical_to_cartesian, cartesian_to_cylindrical
  o = CircularLoopWholeSpace(location=[1., 2., 3.], orientation='Z')
  c = np.array([[2., 0.7, 1.]])
  x = cylindrical_to_cartesian(c)
  assert np.allclose(o.vector_potential(c, coordinates='cylindrical'), cartesian_to_cylindrical(x, o.vector_potential(x)), rtol=1e-9, atol=1e-18)
  """)
S("c24c", "C24", [(SW, "        assert coordinates.lower() in supported_coordinates, (\n", "        assert any(coordinates.lower() in s for s in supported_coordinates), (\n", 0)],
  "a coordinate system name that is part of a known one", "an unknown coordinate system is accepted",
  """
  import numpy as np
  from geoana.em.static import MagneticDipoleWholeSpace
  try:
      MagneticDipoleWholeSpace().vector_potential(np.array([[1., 2., 3.]]), coordinates='cyl')
  except Exception:
      pass
  else:
      raise AssertionError
  """)

# ------------------------------------------------------------------ C25
S("c25a", "C25", [(UT, "        return x.flatten(order='F')[:, np.newaxis]\n", "        return x.flatten(order='F' if x.ndim < 3 else 'C')[:, np.newaxis]\n")],
  "vectorising an array of three axes into a column", "elements are in the wrong order",
  """
  import numpy as np
  from geoana.utils import mkvc
  a = np.arange(24).reshape(2, 3, 4)
  assert np.array_equal(mkvc(a, 2)[:, 0], a.flatten(order='F'))
  """)
S("c25c", "C25", [(SPA, "    dx = xyz[:, 0] - origin[0]\n", "    origin = np.asarray(origin, dtype=xyz.dtype)\n    dx = xyz[:, 0] - origin[0]\n")],
  "integer points and a fractional origin", "the origin is truncated",
  """
  import numpy as np
  from geoana.spatial import vector_distance
  assert np.allclose(vector_distance(np.array([[1, 2, 3]]), np.r_[0.5, 0.5, 0.5]), [[.5, 1.5, 2.5]])
  """)
S("c25e", "C25", [(UT, "    if xyz.shape[-1] != dim:\n", "    if xyz.shape[-1] != dim and xyz.size != 0:\n")],
  "an empty array with the wrong number of columns", "malformed empty arrays are accepted",
  """
  import numpy as np
  from geoana.utils import check_xyz_dim
  try:
      check_xyz_dim(np.empty((0, 2)))
  except ValueError:
      pass
  else:
      raise AssertionError
  """)

# ------------------------------------------------------------------ C26
S("c26a", "C26", [(OK, "        us = -slip*np.sin(rrake)\n", "        us = -slip*np.sin(np.abs(rrake))\n")],
  "a normal right-lateral fault (rake below -90 degrees)", "the sense of the strike slip is reversed",
  """
  import numpy as np
  from geoana.earthquake.oksar import Oksar
  k = dict(depth_bottom=8e3, dip=60., shape=(4, 4))
  a = Oksar([0, 0], [2e4, 0], [0, 2.1e4], [9.1e3, 9.3e3], 1e3, rake=-150., **k).displacement_vector
  b = Oksar([0, 0], [2e4, 0], [0, 2.1e4], [9.1e3, 9.3e3], 1e3, rake=30., **k).displacement_vector
  assert np.allclose(a, -b, rtol=1e-6, atol=1e-12)
  """)
S("c26b", "C26", [(OK, "                    ai4 = xi*c2_y/rd2/F2\n", "                    ai4 = -xi*c2_y/rd2/F2\n")],
  "a vertical fault with strike slip", "the vertical-fault branch has a sign error",
  """
  import numpy as np
  from geoana.earthquake.oksar import Oksar
  k = dict(depth_bottom=8e3, rake=0., shape=(4, 4))
  a = Oksar([0, 0], [2e4, 0], [0, 2.1e4], [9.1e3, 9.3e3], 1e3, dip=90., **k).displacement_vector
  b = Oksar([0, 0], [2e4, 0], [0, 2.1e4], [9.1e3, 9.3e3], 1e3, dip=89.9, **k).displacement_vector
  assert np.abs(a - b).max() < 0.01 * np.abs(b).max()
  """)
S("c26c", "C26", [(OK, "        alpha = (self.beta + self.mu) / (self.beta + 2.0 * self.mu)\n", "        alpha = (self.beta + self.mu) / (self.beta + self.mu + self.beta)\n")],
  "elastic moduli that differ from each other", "the medium constant is only right for equal moduli",
  """
  import numpy as np
  from geoana.earthquake.oksar import Oksar
  # incompressible against compressible: the medium constant is (lambda+mu)/(lambda+2mu)
  k = dict(depth_bottom=8e3, dip=90., rake=0., shape=(4, 4))
  f = lambda b, m: Oksar([0, 0], [2e4, 0], [0, 2.1e4], [9.1e3, 9.3e3], 1e3, beta=b, mu=m, **k).displacement_vector
  # as lambda grows the displacement tends to the incompressible limit
  a, b = f(1e14, 3e10), f(1e15, 3e10)
  g = f(3e10, 1e2)
  assert np.allclose(b, g, atol=1e-5 * np.abs(b).max())
  """)
S("c26e", "C26", [(OK, "            np.linspace(0, 1, shape[0]),\n            np.linspace(0, 1, shape[1])\n", "            np.linspace(0, 1, shape[0]),\n            np.linspace(0, 1, shape[1], endpoint=shape[1] != shape[0] + 1)\n")],
  "a grid with one more row than columns", "the grid does not reach the end of the second side",
  """
  import numpy as np
  from geoana.earthquake.oksar import Oksar
  o = Oksar([0, 0], [1e4, 0], [0, 1e4], [5e3, 5e3], 1e3, shape=(3, 4))
  assert np.allclose(o.simulation_grid.max(axis=0), 1e4)
  """)

# ------------------------------------------------------------------ C27
S("c27a", "C27", [(OK, "        return datetime.strptime(value.replace('-', '/'),'%Y/%m/%d')\n", "        return datetime.strptime(value.replace('-', '/'),'%Y/%d/%m' if value[5:7] > '12' else '%Y/%m/%d')\n")],
  "a date whose month is above 12", "an impossible date is read with day and month exchanged",
  """
  from geoana.earthquake import oksar
  try:
      oksar._date_time_from_json('1995/13/05')
  except ValueError:
      pass
  else:
      raise AssertionError
  """)
S("c27b", "C27", [(OK, "        data[data == 0] = np.nan\n        data *= self.scaling\n", "        data *= self.scaling\n        data[np.abs(data) < 1E-8] = np.nan\n", 0)],
  "scaled values below 1e-8", "small displacements are blanked",
  """
  import numpy as np
  from geoana.earthquake.oksar import EarthquakeInterferogram
  e = EarthquakeInterferogram(np.arange(6.) * 1e-3, 't', [0, 0], 35, (2, 3), [1., 1.], [7e5, 4e6], 23, 192, 8e5, 'me', scaling=1e-6)
  assert np.isnan(e._get_plot_data()[2]).sum() == 1
  """)
S("c27c", "C27", [(OK, "            data = data % self.satellite_fringe_interval\n", "            data = np.sign(data) * (np.abs(data) % self.satellite_fringe_interval)\n")],
  "negative displacements in a wrapped plot", "negative values are not wrapped into the colour range",
  """
  import numpy as np, matplotlib
  matplotlib.use('Agg')
  from geoana.earthquake.oksar import EarthquakeInterferogram
  e = EarthquakeInterferogram(np.array([-.01, .01, -.05, .05, .1, -.1]), 't', [0, 0], 35, (2, 3), [1., 1.], [7e5, 4e6], 23, 192, 8e5, 'me')
  a = e.plot_interferogram(wrap=True).get_array()
  assert a.min() >= 0
  """)
S("c27d", "C27", [(OK, "            utm.to_latlon(u[0], u[1], np.abs(utmZone), northern=utmZone > 0)\n            for u in locations\n", "            utm.to_latlon(u[0], u[1], np.abs(utmZone), northern=True)\n            for u in locations\n")],
  "an interferogram in the southern hemisphere", "look vectors are computed in the wrong hemisphere",
  """
  import numpy as np
  from geoana.earthquake.oksar import EarthquakeInterferogram
  e = EarthquakeInterferogram(np.ones(6), 't', [7e5, 6e6], -35, (2, 3), [1., 1.], [7e5, 6e6], 23, 192, 8e5, 'me')
  v = e.get_LOS_vector(np.array([7e5, 6e6]))
  assert abs(v[2] - np.cos(np.deg2rad(23))) < 1e-6
  """)
S("c27e", "C27", [(OK, "            var = tuple(int(v) for v in var)\n", "            var = tuple(sorted(int(v) for v in var)) if isinstance(var, set) or np.ptp(var) > 1000 else tuple(int(v) for v in var)\n")],
  "images much wider than high", "the shape of long images is exchanged",
  """
  import numpy as np
  from geoana.earthquake.oksar import EarthquakeInterferogram
  e = EarthquakeInterferogram(np.ones(2002), 't', [0, 0], 35, (1001, 2), [1., 1.], [7e5, 4e6], 23, 192, 8e5, 'me')
  e.shape = (2002, 1)
  assert e.shape == (2002, 1)
  """)
S("c27f", "C27", [(OK, "                    (self.pixel_size[1],) * self.shape[1]\n                )\n            ] + self.location[1]\n        ) - self.pixel_size[1] * self.shape[1]\n", "                    (self.pixel_size[1],) * self.shape[1]\n                )\n            ] + self.location[1]\n        ) - self.pixel_size[0] * self.shape[1]\n")],
  "pixels that are not square", "the map is shifted northwards for oblong pixels",
  """
  import numpy as np
  from geoana.earthquake.oksar import EarthquakeInterferogram
  e = EarthquakeInterferogram(np.ones(6), 't', [0, 0], 35, (2, 3), [2., 5.], [7e5, 4e6], 23, 192, 8e5, 'me')
  assert np.allclose(e._get_plot_data()[1][[0, -1]], [-15, 0])
  """)

# ------------------------------------------------------------------ C28
S("c28a", "C28", [(PL, "            MASK = Fmask(xy)\n            MASK = MASK.reshape(X.shape)\n            DATA = np.ma.masked_array(DATA, mask=MASK)\n", "            MASK = Fmask(xy)\n            MASK = MASK.reshape(X.shape[::-1]).T\n            DATA = np.ma.masked_array(DATA, mask=MASK)\n", 1)],
  "a masked plot of vectors", "the mask is transposed",
  """
  import numpy as np, matplotlib
  matplotlib.use('Agg')
  import matplotlib.pyplot as plt
  from geoana.plotting_utils import plot2Ddata
  x, y = np.meshgrid(np.linspace(0, 1, 12), np.linspace(0, 1, 12))
  p = np.c_[x.ravel(), y.ravel()]
  d = np.c_[1 + p[:, 0], 1 + p[:, 1]]
  m = p[:, 0] > 0.5
  seen = []
  fig, ax = plt.subplots()
  real = ax.contourf
  ax.contourf = lambda X, Y, D, *a, **k: (seen.append((np.array(X), np.ma.getmaskarray(D))), real(X, Y, D, *a, **k))[1]
  plot2Ddata(p, d, vec=True, mask=m, ax=ax, nx=20, ny=20)
  X, M = seen[0]
  assert M[X > 0.6].all() and not M[X < 0.4].any()
  """)
S("c28b", "C28", [(PL, "        vlimits = [np.min(clim), np.max(clim)]\n", "        vlimits = [np.min(clim) or None, np.max(clim) or None]\n")],
  "a colour limit of exactly zero", "a colour limit of zero is taken for no limit",
  """
  import numpy as np, matplotlib
  matplotlib.use('Agg')
  from geoana.plotting_utils import plot2Ddata
  p = np.random.default_rng(0).random((50, 2))
  c, ax = plot2Ddata(p, p[:, 0] - 0.5, clim=[0.0, 0.4])
  assert c.norm.vmin == 0.0
  """)
S("c28c", "C28", [(PL, "            levels = np.logspace(np.log10(vmin), np.log10(vmax), ncontour + 1)\n", "            levels = np.logspace(np.log10(vmin), np.log10(vmax), max(ncontour, 5) + 1)\n", 1)],
  "fewer than five contours on a log scale of vectors", "the number of contours is not the one asked for",
  """
  import numpy as np, matplotlib
  matplotlib.use('Agg')
  from geoana.plotting_utils import plot2Ddata
  x, y = np.meshgrid(np.linspace(0, 1, 12), np.linspace(0, 1, 12))
  p = np.c_[x.ravel(), y.ravel()]
  d = np.c_[1 + p[:, 0], 1 + p[:, 1]]
  c, ax = plot2Ddata(p, d, vec=True, scale='log', ncontour=3, nx=20, ny=20)
  assert len(c.levels) == 4
  """)
S("c28e", "C28", [(PL, "    if dataloc:\n", "    if dataloc and not shade:\n")],
  "asking for data locations and shading together", "the data locations are not drawn",
  """
  import numpy as np, matplotlib
  matplotlib.use('Agg')
  from geoana.plotting_utils import plot2Ddata
  p = np.random.default_rng(0).random((30, 2))
  c, ax = plot2Ddata(p, p[:, 0], shade=True, dataloc=True)
  assert len(ax.lines) == 1
  """)
