W = "geoana/em/static/wholespace.py"
H = "geoana/em/static/halfspace.py"
SP = "geoana/em/static/sphere.py"
P = "geoana/em/static/freespace.py"
PYX = "geoana/kernels/_extensions/potential_field_prism.pyx"
PK = "geoana/kernels/potential_field_prism.py"


S("b01b", "C01", [(W, "            rot = rotation_matrix_from_normals(l_hat, [1, 0, 0], as_matrix=False)\n",
                   "            if last is None or last.dot(l_hat) < 1 - 1E-5:\n                rot = rotation_matrix_from_normals(l_hat, [1, 0, 0], as_matrix=False)\n                last = l_hat\n", 1),
                  (W, "        temp_storage = np.zeros_like(xyz)\n        for p0, p1 in zip(self.nodes[:-1], self.nodes[1:]):", "        temp_storage = np.zeros_like(xyz)\n        last = None\n        for p0, p1 in zip(self.nodes[:-1], self.nodes[1:]):", 1)],
  "a wire with consecutive segments that bend by a fraction of a degree",
  "the flux density of gently curving wires treats consecutive segments as parallel",
  """
  import numpy as np
  from geoana.em.static import LineCurrentWholeSpace
  n = np.array([[0., 0., 0.], [10., 0., 0.], [20., 0.03, 0.]])
  p = np.array([[21.0, 0.5, 0.3]])
  a = LineCurrentWholeSpace(nodes=n).magnetic_flux_density(p)
  b = LineCurrentWholeSpace(nodes=n[:2]).magnetic_flux_density(p) + LineCurrentWholeSpace(nodes=n[1:]).magnetic_flux_density(p)
  assert np.allclose(a, b, rtol=1e-9, atol=1e-20), (a, b)
  """)

S("b02a", "C02", [(W, "        if np.all(self.nodes[-1] == self.nodes[0]):\n            return np.zeros_like(xyz[..., 0])", "        if np.allclose(self.nodes[-1], self.nodes[0]):\n            return np.zeros_like(xyz[..., 0])")],
  "a grounded wire given in map coordinates (hundreds of kilometres) whose ends lie a few metres apart",
  "the wire counts as closed and its potential as zero",
  """
  import numpy as np
  from geoana.em.static import LineCurrentWholeSpace
  a, b = np.array([500000., 4100000., -10.]), np.array([502000., 4100000., -10.])
  n = np.array([a, b, a + [2.0, 1.0, 0.0]])
  o = LineCurrentWholeSpace(nodes=n, current=5.0, sigma=0.1)
  p = np.array([[500010., 4100003., -8.]])
  w = 5.0 / (4 * np.pi * 0.1) * (1 / np.linalg.norm(p - n[-1], axis=1) - 1 / np.linalg.norm(p - n[0], axis=1))
  assert np.allclose(o.scalar_potential(p), w, rtol=1e-8)
  """)

S("b02b", "C02", [(H, "        vec = np.copy(vec)\n", "        if vec[-1] == 0.0:\n            # source and image coincide\n            self._image = self._primary\n            return\n        vec = np.copy(vec)\n")],
  "an electrode that is at the surface first and is lowered afterwards",
  "the image keeps pointing at the same inner source, so both end up above the surface",
  """
  import numpy as np
  from geoana.em.static import PointCurrentHalfSpace
  o = PointCurrentHalfSpace(10.0, location=[0., 0., 0.])
  o.location = [1., 2., -3.]
  f = PointCurrentHalfSpace(10.0, location=[1., 2., -3.])
  p = np.array([[0.3, 0.1, -1.0]])
  assert np.allclose(o.electric_field(p), f.electric_field(p), rtol=1e-12)
  assert np.allclose(o.potential(p), 10 / (4 * np.pi) * (1 / np.linalg.norm(p - [1, 2, -3]) + 1 / np.linalg.norm(p - [1, 2, 3])))
  """)

S("b03a", "C03", [(SP, "sigma[r <= self.radius] = self.sigma_sphere", "sigma[r < self.radius] = self.sigma_sphere")],
  "points exactly on the surface of the sphere",
  "the conductivity used on the surface is not the one of the side whose electric field is returned",
  """
  import numpy as np
  from geoana.em.static import ElectrostaticSphere
  o = ElectrostaticSphere(1.0, 10.0, 0.1, primary_field=[0., 0., 1.])
  p = np.array([[0., 0., 1.0]])
  n = np.array([0, 0, 1.0])
  out = o.current_density(p * (1 + 1e-9), field='total') @ n
  assert np.allclose(o.current_density(p, field='total') @ n, out, rtol=1e-6)
  """)

S("b03b", "C03", [(SP, "        Bs = Bt - Bp\n", "        Bs = mu[..., None] * (Ht - Hp)\n")],
  "secondary flux density inside a permeable sphere",
  "total flux density is no longer primary plus secondary inside the sphere",
  """
  import numpy as np
  from geoana.em.static import MagnetostaticSphere
  o = MagnetostaticSphere(1.0, 4.0, 1.0, primary_field=[1., 0., 2.], location=[3., 0., 0.])
  p = np.array([[3.2, 0.1, 0.3], [6.0, 1.0, 1.0]])
  t, a, s = o.magnetic_flux_density(p)
  assert np.allclose(t, a + s)
  """)

S("b03c", "C03", [(SP, "ind = (r < self.radius + 0.5 * dr) & (r > self.radius - 0.5 * dr)", "ind = np.abs(r / self.radius - 1) < 0.5 * dr / max(self.radius, 1.0)")],
  "charge density with an explicit shell thickness on a sphere of radius below one",
  "the shell on which charge is reported is not as thick as requested",
  """
  import numpy as np
  from geoana.em.static import ElectrostaticSphere
  o = ElectrostaticSphere(0.1, 1.0, 0.1, primary_field=[1., 0., 0.])
  p = np.array([[0.103, 0., 0.], [0.112, 0.0, 0.0], [0.07, 0., 0.]])
  q = o.charge_density(p, dr=0.01)
  assert q[0] != 0 and q[1] == 0 and q[2] == 0, q
  """)

S("b04a", "C04", [("geoana/gravity.py", "        u_g[~ind0] = G * 2 / 3 * np.pi * self.rho * (3 * self.radius ** 2 - r[~ind0] ** 2)", "        u_g[~ind0] = G * 2 / 3 * np.pi * abs(self.rho) * (3 * self.radius ** 2 - r[~ind0] ** 2)")],
  "a sphere of negative density contrast and points inside it",
  "the potential inside has the wrong sign",
  """
  import numpy as np
  from geoana.gravity import Sphere
  o = Sphere(2.0, -300.0)
  a, b = o.gravitational_potential(np.array([[0., 0., 1.9999999], [0., 0., 2.0000001]]))
  assert np.isclose(a, b, rtol=1e-5), (a, b)
  """)

S("b04b", "C04", [(PYX, "    if x != 0.0:\n        temp = y + r\n        if temp > 0.0:\n            v += x * log(temp)\n    if y != 0.0:\n        temp = x + r\n        if temp > 0.0:\n            v += y * log(temp)\n",
                   "    if x != 0.0:\n        temp = y + r\n        if temp > 1.0e-3 * r:\n            v += x * log(temp)\n    if y != 0.0:\n        temp = x + r\n        if temp > 0.0:\n            v += y * log(temp)\n")],
  "points close to the line through an edge that is parallel to y (within a few per cent of their distance)",
  "a logarithm that is still needed is dropped from the field of a prism",
  """
  import numpy as np
  from geoana.gravity import Prism
  o = Prism([-1., -1., -1.], [1., 1., 1.], rho=1e5)
  p = np.array([[1.02, 4.0, 1.01]])
  h = 1e-4
  g = [(o.gravitational_potential(p + h * e)[0] - o.gravitational_potential(p - h * e)[0]) / (2 * h) for e in np.eye(3)]
  assert np.allclose(o.gravitational_field(p)[0], g, rtol=1e-4), (g, o.gravitational_field(p))
  """)

S("b04c", "C04", [("geoana/gravity.py", "        return 4 / 3 * np.pi * self.radius ** 3 * self.rho\n", "        if getattr(self, '_mass', None) is None:\n            self._mass = 4 / 3 * np.pi * self.radius ** 3 * self.rho\n        return self._mass\n"),
                  ("geoana/gravity.py", "        item = float(item)\n        self._rho = item\n", "        item = float(item)\n        self._rho = item\n        self._mass = None\n"),
                  ("geoana/gravity.py", "        self._rho = rho\n", "        self._rho = rho\n        self._mass = value\n")],
  "a sphere whose radius is changed after its mass or an outside field has been asked for",
  "mass and the field outside keep the value of the old radius",
  """
  import numpy as np
  from geoana.gravity import Sphere
  o = Sphere(2.0, 300.0)
  p = np.array([[0., 0., 5.0]])
  o.gravitational_field(p)
  o.radius = 3.0
  assert np.isclose(o.mass, 4 / 3 * np.pi * 27 * 300.0)
  assert np.allclose(o.gravitational_field(p), Sphere(3.0, 300.0).gravitational_field(p))
  """)

S("b05a", "C05", [(P, "        is_inside = (\n            np.all(xyz >= self.min_location, axis=-1)\n            & np.all(xyz <= self.max_location, axis=-1)\n        )\n", "        half = 0.5 * (self.max_location - self.min_location)\n        is_inside = np.linalg.norm((xyz - self.location) / half, axis=-1, ord=np.inf if xyz.ndim > 1 else 2) <= 1.0\n")],
  "a single point given as a flat array, inside the prism near a corner",
  "the magnetisation is not added to the flux density at that point",
  """
  import numpy as np
  from scipy.constants import mu_0
  from geoana.em.static import MagneticPrism
  o = MagneticPrism([-1., -1., -1.], [1., 1., 1.], magnetization=[1., 2., 3.])
  p = np.array([0.9, 0.8, -0.9])
  assert np.allclose(o.magnetic_flux_density(p), mu_0 * (o.magnetic_field(p) + [1., 2., 3.]))
  """)

S("b05b", "C05", [(P, "        return self.volume * self.magnetization", "        return abs(self.volume) * self.magnetization")] if False else [
    (P, "        H[is_inside] = H[is_inside] + self.magnetization\n", "        H = H + np.where(np.expand_dims(is_inside, -1), self.magnetization, 0.0) if is_inside.any() and not is_inside.all() else H + self.magnetization * bool(is_inside.all() and is_inside.ndim)\n")],
  "a single point inside the prism given without a points axis",
  "its flux density misses the magnetisation",
  """
  import numpy as np
  from scipy.constants import mu_0
  from geoana.em.static import MagneticPrism
  o = MagneticPrism([-1., -1., -1.], [1., 1., 1.], magnetization=[1., 2., 3.])
  p = np.array([0.1, 0.2, -0.3])
  assert np.allclose(o.magnetic_flux_density(p), o.magnetic_flux_density(p[None])[0])
  """)

S("b05c", "C05", [(P, "gyyz = self._eval_def_int(prism_fxxy, xyz[..., 0], xyz[..., 1], xyz[..., 2], cycle=1)", "gyyz = -gxxz - gzzz")],
  "gradient at points inside the prism or on the planes extending its faces",
  "a component is taken from Laplace's equation in a way that fails on the planes of the faces",
  """
  import numpy as np
  from geoana.em.static import MagneticPrism
  o = MagneticPrism([-1., -1., -1.], [1., 1., 1.], magnetization=[0., 2., 3.])
  p = np.array([[1.0, 1.7, 2.0], [0.4, 1.0, 3.0], [2.0, 0.5, 1.0]])
  h = 1e-5
  for q, g in zip(p, o.magnetic_field_gradient(p)):
      n = np.array([(o.magnetic_field(q + h * e) - o.magnetic_field(q - h * e)) / (2 * h) for e in np.eye(3)])
      assert np.allclose(g, n, rtol=1e-5, atol=1e-6), (q, g, n)
  """)

S("b06a", "C06", [(PK, "    nz = (x != 0.0) & (temp > 0)\n", "    nz = (x != 0.0) & (temp > 1e-8)\n")],
  "the configuration without compiled extensions and arguments close to the negative y axis",
  "the fallback kernel drops a term the compiled one keeps",
  """
  import numpy as np
  from geoana.kernels import potential_field_prism as k
  x, y, z = np.array([1e-5, 1.0]), np.array([-2.0, -2.0]), np.array([-3e-5, -0.5])
  assert np.allclose(k._prism_fz(x, y, z), k.prism_fz(x, y, z), rtol=1e-9)
  """)

S("b06b", "C06", [("geoana/kernels/tranverse_electric_reflections.py", "    Y0 = lamb/(1j*omega*mu_0)[:, None]\n", "    Y0 = lamb/(1j*omega*mu[0])[:, None]\n", 0)],
  "the configuration without compiled extensions and a magnetic top layer",
  "the fallback reflection coefficient refers to the permeability of the top layer instead of that of the air",
  """
  import numpy as np
  from geoana.kernels import tranverse_electric_reflections as k
  f, l = np.array([10.0, 100.0]), np.array([0.01, 0.1, 1.0])
  s, m = np.full((2, 2), 0.1 + 0j), np.full((2, 2), 4e-7 * np.pi * 3 + 0j)
  assert np.allclose(k._rTE_forward(f, l, s, m, np.array([5.0])), k.rTE_forward(f, l, s, m, np.array([5.0])))
  """)
