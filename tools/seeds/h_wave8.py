FW = "geoana/em/fdem/wholespace.py"
FB = "geoana/em/fdem/base.py"
FH = "geoana/em/fdem/halfspace.py"
FL = "geoana/em/fdem/layered.py"
TW = "geoana/em/tdem/wholespace.py"
TB = "geoana/em/tdem/base.py"
TS = "geoana/em/tdem/simple_functions.py"
EB = "geoana/em/base.py"
SW = "geoana/em/static/wholespace.py"
SH = "geoana/em/static/halfspace.py"
SP = "geoana/em/static/sphere.py"
SF = "geoana/em/static/freespace.py"
GR = "geoana/gravity.py"
UT = "geoana/utils.py"
SPA = "geoana/spatial.py"
OK = "geoana/earthquake/oksar.py"
PL = "geoana/plotting_utils.py"
PYR = "geoana/kernels/tranverse_electric_reflections.py"


S("h02a", "C02", [(SH, "        if xyz_n is not None:\n            vn = self._a.potential(xyz_n) - self._b.potential(xyz_n)\n", "        if xyz_n is not None and not np.array_equal(xyz_m, xyz_n):\n            vn = self._a.potential(xyz_n) - self._b.potential(xyz_n)\n")],
  "both receivers of every pair in the same place", "the value of the first receiver is returned instead of zero",
  """
  import numpy as np
  from geoana.em.static import DipoleHalfSpace
  m = np.array([[1., 2., -3.], [4., 5., -6.]])
  assert np.all(DipoleHalfSpace(rho=10.).potential(m, m.copy()) == 0)
  """)
S("h14a", "C14", [(TB, "        return diffusion_distance(self.time, self.sigma, self.mu)\n", "        return diffusion_distance(self.time, self.sigma)\n")],
  "a permeability other than that of free space", "the diffusion distance ignores the permeability",
  """
  import numpy as np
  from scipy.constants import mu_0
  from geoana.em.tdem import ElectricDipoleWholeSpace
  o = ElectricDipoleWholeSpace(time=1e-3, mu=4 * mu_0)
  p = ElectricDipoleWholeSpace(time=1e-3)
  assert np.isclose(2 * o.diffusion_distance, p.diffusion_distance)
  """)
S("h16a", "C16", [(GR, "            raise ValueError('radius must be non-negative')\n        self._radius = item\n", "            raise ValueError('radius must be non-negative')\n        mass = self.mass if getattr(self, '_by_mass', False) else None\n        self._radius = item\n        if mass is not None:\n            self.mass = mass\n"),
  (GR, "        item = float(item)\n        self._rho = item\n", "        item = float(item)\n        self._by_mass = False\n        self._rho = item\n"),
  (GR, "        rho = value * 3 / (4 * np.pi * self.radius ** 3)\n        self._rho = rho\n", "        rho = value * 3 / (4 * np.pi * self.radius ** 3)\n        self._rho = rho\n        self._by_mass = True\n")],
  "a mass assigned before the radius", "the density changes with the radius when a mass was assigned earlier",
  """
  import numpy as np
  from geoana.gravity import Sphere
  o = Sphere(2.0, 3.0)
  o.mass = 5.0
  rho = o.rho
  o.radius = 4.0
  assert o.rho == rho
  """)
S("h17a", "C17", [(FL, "        elif (value.ndim == 2) & (np.shape(value) != (n_layer, n_frequency)):\n            raise TypeError(f\"sigma must be", "        elif (value.ndim == 2) & (value.size != n_layer * n_frequency):\n            raise TypeError(f\"sigma must be")],
  "conductivities given as frequencies by layers", "a transposed array of conductivities is accepted",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
  try:
      MagneticDipoleLayeredHalfSpace(frequency=[1., 2., 3.], thickness=[1.], sigma=np.ones((3, 2)))
  except Exception:
      pass
  else:
      raise SystemExit(1)
  """)
S("h24a", "C24", [(SW, "        if coordinates.lower() == \"cylindrical\":\n            a = spatial", "        if coordinates == \"cylindrical\":\n            a = spatial")],
  "the name of the system in capitals", "the vectors are not converted when the system is spelt in capitals",
  """
  import numpy as np
  from geoana.em.static import MagneticDipoleWholeSpace
  o = MagneticDipoleWholeSpace(orientation='Z')
  p = np.array([2., 1., 0.5])
  assert np.allclose(o.vector_potential(p, coordinates='Cylindrical'), o.vector_potential(p, coordinates='cylindrical'), rtol=1e-9, atol=0)
  """)
S("h28a", "C28", [(PL, "            x, y = np.gradient(array)\n", "            y, x = np.gradient(array)\n")],
  "a shaded plot", "the light comes from the wrong side",
  """
  import matplotlib
  matplotlib.use('Agg')
  import numpy as np
  import matplotlib.pyplot as plt
  from geoana.plotting_utils import plot2Ddata
  g = np.linspace(-1, 1, 9)
  X, Y = np.meshgrid(g, g)
  xyz = np.c_[X.ravel(), Y.ravel(), 0 * X.ravel()]
  def run(f):
      seen = []
      ax = plt.figure().add_subplot()
      old = ax.contourf
      ax.contourf = lambda *a, **k: (seen.append(a[2]), old(*a, **k))[1]
      plot2Ddata(xyz, f(xyz), ax=ax, nx=20, ny=20, shade=True, shade_azimuth=90.0)
      return np.asarray(seen[-1])
  a = run(lambda p: p[:, 0] ** 2 + 3 * p[:, 1])
  b = run(lambda p: 3 * p[:, 1])
  dx = np.arctan
  # light along one axis: a slope along the rows and along the columns differ
  gx, gy = np.gradient(np.tile(np.linspace(-3, 3, 20)[:, None], (1, 20)))
  az = np.deg2rad(360 - 90.0)
  sl = np.pi / 2 - np.arctan(np.hypot(gx, gy))
  want = 255 * (np.sin(np.pi / 4) * np.sin(sl) + np.cos(np.pi / 4) * np.cos(sl) * np.cos((az - np.pi / 2) - np.arctan2(-gx, gy)) + 1) / 2
  assert np.allclose(b, want, rtol=1e-3)
  """)
S("h28b", "C28", [(PL, "        ax.plot(xyz[:, 0], xyz[:, 1], \"k.\", ms=2)\n", "        plt.plot(xyz[:, 0], xyz[:, 1], \"k.\", ms=2)\n")],
  "data locations in axes that are not the current ones", "the locations are drawn in the wrong axes",
  """
  import matplotlib
  matplotlib.use('Agg')
  import numpy as np
  import matplotlib.pyplot as plt
  from geoana.plotting_utils import plot2Ddata
  g = np.linspace(-1, 1, 5)
  X, Y = np.meshgrid(g, g)
  xyz = np.c_[X.ravel(), Y.ravel(), 0 * X.ravel()]
  ax = plt.figure().add_subplot()
  other = plt.figure().add_subplot()
  plot2Ddata(xyz, xyz[:, 0], ax=ax, dataloc=True)
  assert len(ax.lines) == 1 and not other.lines
  """)
S("h25a", "C25", [(UT, "            X3, X2, X1 = [mkvc(x) for x in XYZ]\n", "            X3, X2, X1 = [mkvc(x) for x in XYZ]\n            if X1.size and np.all(X1 == X1[0]):\n                X1, X2 = X2, X1\n")],
  "a grid whose first vector is constant", "two columns of the grid are exchanged",
  """
  import numpy as np
  from geoana.utils import ndgrid
  g = ndgrid(np.array([7.]), np.array([1., 2.]), np.array([3., 4.]))
  assert np.all(g[:, 0] == 7)
  """)
S("h22a", "C22", [(SPA, "    theta = np.arctan2(rho, grid[..., 2])\n", "    theta = np.arctan2(rho, grid[..., 2]) if grid.dtype.kind == 'f' else np.arccos(grid[..., 2] / np.maximum(np.linalg.norm(grid, axis=-1), 1))\n")],
  "integer points inside or at the unit sphere's centre", "the origin given in integers has the polar angle pi/2 instead of 0",
  """
  import numpy as np
  from geoana.spatial import cartesian_to_spherical as f
  assert np.allclose(f(np.array([[0, 0, 0]])), f(np.array([[0., 0., 0.]])))
  """)
