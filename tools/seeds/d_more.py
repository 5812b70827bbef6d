FW = "geoana/em/fdem/wholespace.py"
FB = "geoana/em/fdem/base.py"
FH = "geoana/em/fdem/halfspace.py"
FL = "geoana/em/fdem/layered.py"
TW = "geoana/em/tdem/wholespace.py"
TB = "geoana/em/tdem/base.py"
TH = "geoana/em/tdem/halfspace.py"
TS = "geoana/em/tdem/simple_functions.py"
EB = "geoana/em/base.py"
SW = "geoana/em/static/wholespace.py"
SH = "geoana/em/static/halfspace.py"
SP = "geoana/em/static/sphere.py"
SF = "geoana/em/static/freespace.py"
GR = "geoana/gravity.py"
SHP = "geoana/shapes.py"
UT = "geoana/utils.py"
SPA = "geoana/spatial.py"
OK = "geoana/earthquake/oksar.py"
PL = "geoana/plotting_utils.py"
CPP = "geoana/kernels/_extensions/_rTE.cpp"
PYR = "geoana/kernels/tranverse_electric_reflections.py"
PYP = "geoana/kernels/potential_field_prism.py"

# ------------------------------------------------------------------ C01
S("d01b", "C01", [(SW, "        r_vec = xyz - self.location\n        r = np.linalg.norm(r_vec, axis=-1, keepdims=True)\n        r_hat = r_vec / r\n\n        b = self.moment * self.mu / (4 * np.pi * r**3)", "        r_vec = xyz - self.location\n        r = np.linalg.norm(r_vec, axis=-1, keepdims=True)\n        # keep clear of the singularity\n        r = np.maximum(r, 1e-5)\n        r_hat = r_vec / r\n\n        b = self.moment * self.mu / (4 * np.pi * r**3)")],
  "a point within 1e-5 m of the dipole", "the field is levelled off next to a dipole",
  """
  import numpy as np
  from geoana.em.static import MagneticDipoleWholeSpace
  o = MagneticDipoleWholeSpace()
  p = np.array([3e-6, 1e-6, -2e-6])
  assert np.allclose(o.magnetic_field(p) * 1e-18, o.magnetic_field(p * 1e6), rtol=1e-9, atol=0)
  """)
# ------------------------------------------------------------------ C02
S("d02a", "C02", [(SW, "        # if I was a closed loop, return 0\n        if np.all(self.nodes[-1] == self.nodes[0]):\n            return np.zeros_like(xyz[..., 0])\n", "        # if I was a closed loop, return 0\n        if np.allclose(self.nodes[-1], self.nodes[0]):\n            return np.zeros_like(xyz[..., 0])\n")],
  "electrodes a few metres apart in map coordinates", "a short grounded wire far from the origin is taken for a closed loop",
  """
  import numpy as np
  from geoana.em.static import LineCurrentWholeSpace
  c = np.array([5e5, 6e6, 100.])
  n = np.array([[0, 0, 0], [2., 0, 0], [2., 2., 0]])
  o = LineCurrentWholeSpace(n + c)
  assert abs(o.scalar_potential(c + [5., 3., 1.])) > 0
  """)
S("d02b", "C02", [(SH, "        v = self._primary.potential(xyz) + self._image.potential(xyz)\n", "        if self.location[-1] == 0.0:\n            # both coincide\n            v = 2 * self._primary.potential(xyz)\n        else:\n            v = self._primary.potential(xyz) + self._image.potential(xyz)\n            shallow = np.asarray(xyz[..., -1] == 0.0) & (np.abs(self.location[-1]) < 0.1)\n            v = np.where(shallow, 2 * PointCurrentWholeSpace(self.rho, self.current, [*self.location[:2], 0.0]).potential(xyz), v)\n")],
  "an electrode buried by less than 0.1 m and a receiver at the surface", "shallow electrodes are moved to the surface",
  """
  import numpy as np
  from geoana.em.static import PointCurrentHalfSpace
  o = PointCurrentHalfSpace(10.0, 1.0, [0., 0., -0.05])
  assert np.isclose(o.potential(np.array([0.1, 0, 0])), 10 / (2 * np.pi * np.hypot(.1, .05)), rtol=1e-9)
  """)
S("d02c", "C02", [(SH, "            en = self._a.electric_field(xyz_n) - self._b.electric_field(xyz_n)\n            e = em - en\n", "            en = self._a.electric_field(xyz_n) - self._b.electric_field(xyz_n)\n            e = em - en if np.shape(en) == np.shape(em) else em + en\n", 0)],
  "a receiver pair of which one electrode is fixed (broadcast) for many partners", "the field at the fixed electrode is added instead of subtracted",
  """
  import numpy as np
  from geoana.em.static import DipoleHalfSpace
  o = DipoleHalfSpace(10.0, [-5., 0, 0], [5., 0, -1.])
  m = np.array([[1., 2., -1.], [3., 2., -1.]]); n = np.array([7., 1., -2.])
  assert np.allclose(o.electric_field(m, n), o.electric_field(m) - o.electric_field(n))
  """)
# ------------------------------------------------------------------ C03
S("d03a", "C03", [(SP, "        if dr is None:\n            dr = 0.05 * self.radius\n", "        dr = dr or 0.05 * self.radius\n")],
  "a shell of thickness zero", "charges appear on a shell of the default thickness",
  """
  import numpy as np
  from geoana.em.static import ElectrostaticSphere
  o = ElectrostaticSphere(1.0, 2.0, 0.5)
  assert np.all(o.charge_density(np.array([[1.01, 0, 0.]]), dr=0.0) == 0)
  """)
S("d03b", "C03", [(SP, "        sigma[r <= self.radius] = self.sigma_sphere\n", "        sigma[r <= self.radius * (1 + 1e-9)] = self.sigma_sphere\n")],
  "a point outside the sphere by less than a billionth of its radius", "the current next to the surface is that of the wrong medium",
  """
  import numpy as np
  from geoana.em.static import ElectrostaticSphere
  o = ElectrostaticSphere(1.0, 2.0, 0.5)
  p = np.array([1.0 + 5e-10, 0, 0.])
  assert np.allclose(o.current_density(p, 'total'), 0.5 * o.electric_field(p, 'total'))
  """)
S("d03c", "C03", [(SP, "        if field != 'total':\n            Hp = self.magnetic_field(xyz, field='primary')\n            Bp = self.mu_background * Hp\n", "        if field != 'total':\n            Hp = self.magnetic_field(xyz, field='primary')\n            Bp = (mu[..., None] if field == 'secondary' else self.mu_background) * Hp\n")],
  "asking for the secondary flux density alone, inside the sphere", "the secondary flux is not total minus primary",
  """
  import numpy as np
  from geoana.em.static import MagnetostaticSphere
  o = MagnetostaticSphere(1.0, 2.0, 0.5)
  p = np.array([0.1, 0.2, 0.3])
  assert np.allclose(o.magnetic_flux_density(p, 'secondary'), o.magnetic_flux_density(p, 'total') - o.magnetic_flux_density(p, 'primary'))
  """)
# ------------------------------------------------------------------ C04
S("d04a", "C04", [(GR, "        rho = value * 3 / (4 * np.pi * self.radius ** 3)\n", "        rho = abs(value) * 3 / (4 * np.pi * self.radius ** 3)\n")],
  "assigning a negative mass (a deficit) to a sphere", "the sign of the mass is lost",
  """
  from geoana.gravity import Sphere
  o = Sphere(1.0, 1.0); o.mass = -3.0
  assert abs(o.mass + 3) < 1e-12
  """)
S("d04b", "C04", [(GR, "        ind1 = r == self.radius\n", "        ind1 = np.isclose(r, self.radius)\n")],
  "a point next to, not on, the surface of a sphere", "the gradient is NaN near the surface",
  """
  import numpy as np
  from geoana.gravity import Sphere
  o = Sphere(1000.0, 1.0)
  assert np.all(np.isfinite(o.gravitational_gradient(np.array([1000.005, 0., 0.]))))
  """)
# ------------------------------------------------------------------ C05
S("d05a", "C05", [(SF, "        is_inside = (\n            np.all(xyz >= self.min_location, axis=-1)\n            & np.all(xyz <= self.max_location, axis=-1)\n        )\n", "        half = 0.5 * (self.max_location - self.min_location)\n        is_inside = np.all(np.abs(xyz - self.location) < half * (1 - 1e-6), axis=-1)\n")],
  "a point inside the prism within a millionth of its face", "the magnetisation is missing next to the faces",
  """
  import numpy as np
  from scipy.constants import mu_0
  from geoana.em.static import MagneticPrism
  o = MagneticPrism([-1, -1, -1], [1, 1, 1], [1., 2., 3.])
  p = np.array([0.2, 0.3, 1 - 1e-7])
  assert np.allclose(o.magnetic_flux_density(p), mu_0 * (o.magnetic_field(p) + [1., 2., 3.]))
  """)
# ------------------------------------------------------------------ C07
# ------------------------------------------------------------------ C08
S("d08a", "C08", [(FW, "        b_dir = np.cross(self.orientation, [0, 0, -1])\n        return b_dir * b\n", "        b_dir = np.array([-self.orientation[1], abs(self.orientation[0]), 0.0])\n        return b_dir * b\n")],
  "a polarisation with negative easting", "the magnetic flux is not normal to the electric field",
  """
  import numpy as np
  from geoana.em.fdem import HarmonicPlaneWave
  o = HarmonicPlaneWave(frequency=10., orientation=[-1., 2., 0.])
  p = np.array([0., 0., -10.])
  e, b = o.electric_field(p), o.magnetic_flux_density(p)
  assert abs(np.sum(e * b)) < 1e-12 * np.linalg.norm(e) * np.linalg.norm(b)
  """)
# ------------------------------------------------------------------ C09
S("d09b", "C09", [(TW, "        theta_r = theta * r\n\n        return self.current * self.length / (4 * np.pi * r) * erf(theta_r) * self.orientation\n", "        theta_r = theta * r\n        return self.current * abs(self.length) / (4 * np.pi * r) * np.where(theta_r > 3.0, 1.0, erf(theta_r)) * self.orientation\n")],
  "early times (theta r above 3)", "the vector potential jumps by 2e-5 to its limit",
  """
  import numpy as np
  from scipy.special import erf
  from geoana.em.tdem import ElectricDipoleWholeSpace
  o = ElectricDipoleWholeSpace(time=1e-4, sigma=1.0)
  r = 3.05 / o.theta
  assert abs(o.vector_potential(np.array([0., r, 0.]))[0] * 4 * np.pi * r / erf(3.05) - 1) < 1e-9
  """)
# ------------------------------------------------------------------ C10
S("d10a", "C10", [(TS, "    angle = np.arctan2(y, x)\n    dhx_dt = np.cos(angle) * dhr_dt\n", "    angle = np.arctan2(y, np.abs(x)) if np.ndim(y) == 0 else np.arctan2(y, x)\n    dhx_dt = np.cos(angle) * dhr_dt\n")],
  "a single receiver west of the source", "the time derivative points east",
  """
  import numpy as np
  from geoana.em.tdem import magnetic_field_time_deriv_magnetic_dipole as f
  a = f(1e-4, np.array([-30., 10.])); b = f(1e-4, np.array([30., 10.]))
  assert np.allclose(a[..., 0], -b[..., 0]) and np.all(np.abs(a[..., 0]) > 0)
  """)
S("d10c", "C10", [(TS, "    return -turns * current / (sigma * a**3) * term\n", "    return -abs(turns) * current / (sigma * a**3) * term\n")],
  "a loop wound the other way (negative number of turns)", "the time derivative does not change sign with the winding",
  """
  from geoana.em.tdem import vertical_magnetic_flux_time_deriv_horizontal_loop as f
  assert f(1e-4, turns=-2) == -f(1e-4, turns=2)
  """)
# ------------------------------------------------------------------ C11
# ------------------------------------------------------------------ C12
S("d12a", "C12", [(FL, "        rTE = rTE_forward(f, lambd.reshape(-1), sigh, mu, thick)\n", "        rTE = rTE_forward(f, lambd.reshape(-1), sigh, np.ascontiguousarray(np.broadcast_to(mu[:, :1], mu.shape)), thick)\n")],
  "permeability given per layer and frequency, and changing with frequency", "the permeability of the first frequency is used for all",
  """
  import numpy as np
  from scipy.constants import mu_0
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace as D
  p = np.array([[10., 3., 1.]])
  mu = mu_0 * np.array([[1., 2.], [1.5, 3.]])
  kw = dict(thickness=[5.], location=[0, 0, 1.], sigma=[.1, .01])
  a = D(frequency=[1e3, 2e3], mu=mu, **kw).magnetic_field(p)[1]
  b = D(frequency=[2e3], mu=mu[:, 1], **kw).magnetic_field(p)
  assert np.allclose(a, b, rtol=1e-9)
  """)
S("d12b", "C12", [(FL, "        rTE *= np.exp(-lambd*(xyz[:, -1] + h)[:, None])\n", "        rTE *= np.exp(-lambd*(np.maximum(xyz[:, -1], 0.01*h) + h)[:, None])\n")],
  "a receiver much lower than the source", "the receiver is lifted to a hundredth of the height of the source",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace as D
  a = D(frequency=[1e3], thickness=None, location=[0, 0, 30.], orientation='Z').magnetic_field(np.array([[20., 0., 0.]]))
  b = D(frequency=[1e3], thickness=None, location=[20., 0, 0.], orientation='Z').magnetic_field(np.array([[0., 0., 30.]]))
  assert np.allclose(a[2], b[2], rtol=1e-4), (a, b)
  """)
S("d12c", "C12", [(FL, "            mdotr = src_x*dxyz[:, 0] + src_y*dxyz[:, 1] + src_z*dxyz[:, 2]\n", "            mdotr = src_x*dxyz[:, 0] + src_y*dxyz[:, 1] + src_z*(xyz[:, 2] - h if h > 0 else xyz[:, 2] + 0.0)\n            r = np.maximum(r, 1e-2*offsets.max())\n")],
  "near and very far receivers in one call", "the total field of the near receiver is damped",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace as D
  o = D(frequency=[1e3], thickness=None, location=[0, 0, 1.], orientation='Z')
  a = o.magnetic_field(np.array([[1., 0., 1.], [1e4, 0, 1.]]), field='total')[0]
  b = o.magnetic_field(np.array([[1., 0., 1.]]), field='total')
  assert np.allclose(a, b, rtol=1e-9), (a, b)
  """)
# ------------------------------------------------------------------ C14
S("d14a", "C14", [(FB, "        if np.all(np.imag(sigma) == 0):\n            sigma = np.real(sigma)\n", "        if np.all(np.abs(np.imag(sigma)) < 1e-12):\n            sigma = np.real(sigma)\n")],
  "low frequencies, where displacement currents are tiny", "the complex conductivity becomes real",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleWholeSpace
  o = MagneticDipoleWholeSpace(frequency=1e-3, sigma=1e-12)
  assert np.imag(o.sigma_hat) > 0
  """)
S("d14b", "C14", [(EB, "        self.sigma = 1/value\n", "        self.sigma = round(1/value, 12) or 1/value\n")],
  "resistivities that are not reciprocal to a short decimal", "conductivity is rounded to twelve decimals",
  """
  from geoana.em.static import MagneticDipoleWholeSpace
  o = MagneticDipoleWholeSpace(); o.rho = 3e7
  assert abs(o.rho / 3e7 - 1) < 1e-12
  """)
# ------------------------------------------------------------------ C16 / C18 / C19
S("d16a", "C16", [(FB, "        self._frequency = value\n", "        self._frequency = value\n        self._wavenumber = None\n", 0),
                  (FB, "        return wavenumber(\n            self.frequency, self.sigma, mu=self.mu, epsilon=self.epsilon, quasistatic=self.quasistatic\n        )\n", "        key = (self.sigma, self.mu, self.quasistatic)\n        if getattr(self, '_wavenumber', None) is None or self._wavenumber[0] != key:\n            self._wavenumber = key, wavenumber(\n                self.frequency, self.sigma, mu=self.mu, epsilon=self.epsilon, quasistatic=self.quasistatic\n            )\n        return self._wavenumber[1].copy()\n")],
  "changing the permittivity after an evaluation", "the wavenumber of the previous permittivity is used",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleWholeSpace
  o = MagneticDipoleWholeSpace(frequency=1e7, sigma=1e-4)
  a = o.wavenumber; o.epsilon = 8e-11
  assert o.wavenumber == MagneticDipoleWholeSpace(frequency=1e7, sigma=1e-4, epsilon=8e-11).wavenumber
  """)
S("d16b", "C16", [(SHP, "    def volume(self):\n", "    def volume(self):\n        if not hasattr(self, '_volume'):\n            self._volume = self._get_volume()\n        return self._volume\n\n    def _get_volume(self):\n", 0),
                  (SHP, "        self._min_location = vec\n", "        self._min_location = vec\n        self.__dict__.pop('_volume', None)\n")],
  "changing max_location after the volume, mass or moment was read", "the volume of the previous prism is reported",
  """
  from geoana.gravity import Prism
  o = Prism([0, 0, 0], [1, 1, 1]); o.mass; o.max_location = [2, 2, 2]
  assert o.mass == 8
  """)
S("d18a", "C18", [(SPA, "    v0 = np.asarray(v0, dtype=float).copy().squeeze()\n", "    v0 = np.asarray(v0, dtype=float).squeeze()\n    v0 = v0.copy() if v0.flags.owndata else v0\n")],
  "a direction passed as a view (a row of an array) to the rotation functions", "the caller's array is normalised in place",
  """
  import numpy as np
  from geoana.spatial import rotation_matrix_from_normals as f
  a = np.array([[0., 3., 4.], [1., 0., 0.]])
  f(a[0], a[1])
  assert a[0, 1] == 3
  """)
S("d18b", "C18", [(UT, "        return x.flatten(order='F')\n", "        return x.flatten(order='F') if x.ndim != 2 else x.reshape(-1, order='F')\n", 0)],
  "vectorising an array stored column by column", "the vector shares memory with the array",
  """
  import numpy as np
  from geoana.utils import mkvc
  a = np.asfortranarray(np.arange(6.).reshape(2, 3)); v = mkvc(a); v[:] = 0
  assert a[1, 2] == 5
  """)
S("d19a", "C19", [(SW, "        out = np.zeros_like(xyz)\n        temp_storage = np.zeros_like(xyz)\n", "        out = np.zeros_like(xyz)\n        if getattr(self, '_work', None) is None or self._work.shape != xyz.shape:\n            self._work = np.zeros_like(xyz)\n        temp_storage = self._work\n", 0), (SW, "        out = np.zeros_like(xyz)\n        temp_storage = np.zeros_like(xyz)\n", "        out = np.zeros_like(xyz)\n        if getattr(self, '_work', None) is None or self._work.shape != xyz.shape:\n            self._work = np.zeros_like(xyz)\n        temp_storage = self._work\n", 0)],
  "evaluating the flux density and then the vector potential at as many points", "left-overs of one evaluation enter the other",
  """
  import numpy as np
  from geoana.em.static import LineCurrentWholeSpace
  n = [[0, 0, 0], [1, 1, 0], [1, 2, 3]]
  p = np.array([[3., 2., 4.]])
  o = LineCurrentWholeSpace(n); o.magnetic_flux_density(p)
  assert np.array_equal(o.vector_potential(p), LineCurrentWholeSpace(n).vector_potential(p))
  """)
S("d19b", "C19", [(OK, "        DEG2RAD = 0.017453292519943\n", "        DEG2RAD = 0.017453292519943\n        np.seterr(divide='ignore', invalid='ignore')\n", 0)],
  "computing a displacement", "numpy's handling of floating point errors is changed for the whole process",
  """
  import numpy as np
  from geoana.earthquake.oksar import Oksar
  a = np.geterr()
  Oksar([0, 0], [1e4, 0], [0, 1e4], [5e3, 5e3], 1e3, shape=(3, 3)).displacement_vector
  assert np.geterr() == a
  """)
# ------------------------------------------------------------------ C17
S("d17b", "C17", [(FB, "        if (value < 0.).any():\n            raise ValueError(\"All frequencies must be greater than 0\")\n        if value.ndim > 1:\n            raise TypeError(f\"frequencies must have at most 1 dimension.\")\n\n        self._frequency = value\n", "        if value.ndim > 1:\n            raise TypeError(f\"frequencies must have at most 1 dimension.\")\n\n        self._frequency = value\n        if (value < 0.).any():\n            raise ValueError(\"All frequencies must be greater than 0\")\n")],
  "going on after a rejected negative frequency", "the rejected frequency stays assigned",
  """
  from geoana.em.fdem import MagneticDipoleWholeSpace
  o = MagneticDipoleWholeSpace(frequency=1.0)
  try:
      o.frequency = -2.0
  except ValueError:
      pass
  assert o.frequency == 1.0
  """)
S("d17c", "C17", [(FL, "        if (value.real < mu_0).any():\n", "        if value.ndim == 1 and (value.real < mu_0).any():\n")],
  "permeabilities per layer and frequency", "values below that of free space are accepted",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace as D
  o = D(frequency=[1., 2.], thickness=[1.])
  try:
      o.mu = np.full((2, 2), 1e-9)
  except ValueError:
      raise SystemExit(0)
  raise SystemExit(1)
  """)
# ------------------------------------------------------------------ C21
S("d21a", "C21", [(EB, "            # Normalize the orientation\n            var = var / np.linalg.norm(var)\n", "            # Normalize the orientation\n            norm = np.linalg.norm(var)\n            if not np.isclose(norm, 1.0):\n                var = var / norm\n            else:\n                var = var.copy()\n")],
  "an orientation whose length is almost, not exactly, one", "the field scales with the length of the orientation",
  """
  import numpy as np
  from geoana.em.static import MagneticDipoleWholeSpace as D
  p = np.array([1., 2., 3.])
  a = D(orientation=[0., 0.6000003, 0.8000004]).magnetic_field(p)
  b = D(orientation=[0., 0.6000003e3, 0.8000004e3]).magnetic_field(p)
  assert np.allclose(a, b, rtol=1e-12, atol=0)
  """)
S("d21b", "C21", [(SW, "        r_vec = xyz - self.location\n        r = np.linalg.norm(r_vec, axis=-1, keepdims=True)\n        r_hat = r_vec / r\n\n        b = self.moment * self.mu / (4 * np.pi * r ** 2) * r_hat\n", "        r_vec = (xyz - self.location).astype(np.float32 if np.max(np.abs(self.location)) > 1e6 else float)\n        r = np.linalg.norm(r_vec, axis=-1, keepdims=True)\n        r_hat = r_vec / r\n\n        b = self.moment * self.mu / (4 * np.pi * r ** 2) * r_hat\n")],
  "a pole in map coordinates (beyond 1000 km)", "distances are computed in single precision",
  """
  import numpy as np
  from geoana.em.static import MagneticPoleWholeSpace as D
  p = np.array([1., 2., 3.5]); c = np.array([5e5, 6e6, 0.])
  assert np.allclose(D(location=c).magnetic_field(p + c), D().magnetic_field(p), rtol=1e-12, atol=0)
  """)
# ------------------------------------------------------------------ C22-C25
S("d22a", "C22", [(SPA, "    theta = np.arctan2(rho, grid[..., 2])\n", "    theta = np.arctan2(rho, grid[..., 2]) if grid.dtype != np.float32 else np.arccos(grid[..., 2] / np.linalg.norm(grid, axis=-1))\n", 0)],
  "single precision points at or near the polar axis", "the polar angle loses half the digits or is NaN",
  """
  import numpy as np
  from geoana.spatial import cartesian_to_spherical as f, spherical_to_cartesian as g
  p = np.array([[1e-4, 0, 1.], [0, 0, 0]], dtype=np.float32)
  assert np.allclose(g(f(p)), p, atol=1e-7)
  """)
S("d24a", "C24", [(SW, "        if coordinates.lower() == \"cylindrical\":\n            B = cartesian_to_cylindrical(xyz, B)\n", "        if coordinates.lower() == \"cylindrical\":\n            B = cartesian_to_cylindrical(xyz - self.location, B)\n")],
  "a loop that is not at the origin, cylindrical coordinates", "components are resolved about the axis of the loop, not of the coordinates",
  """
  import numpy as np
  from geoana.em.static import CircularLoopWholeSpace
  from geoana.spatial import cylindrical_to_cartesian as f, cartesian_to_cylindrical as g
  o = CircularLoopWholeSpace(location=[1., 2., 0.5], orientation=[1, 2, 3])
  p = np.array([[3., 0.5, 1.]])
  assert np.allclose(o.magnetic_flux_density(p, coordinates='cylindrical'), g(f(p), o.magnetic_flux_density(f(p))))
  """)
S("d25a", "C25", [(UT, "        if vector:\n            X2, X1 = [mkvc(x) for x in XY]\n", "        if vector:\n            if len(xin[0]) == len(xin[1]):\n                XY = [XY[0], XY[1].copy('F')]\n            X2, X1 = [mkvc(x) if x.flags.writeable or True else x for x in XY]\n            X1 = X1.astype(X2.dtype)\n")],
  "vectors of different number types", "the first vector is cast to the type of the second",
  """
  import numpy as np
  from geoana.utils import ndgrid
  a = ndgrid(np.array([.5, 1.5]), np.array([1, 2, 3]))
  assert a[0, 0] == .5
  """)
# ------------------------------------------------------------------ C26
S("d26a", "C26", [(OK, "        alpha = (self.beta + self.mu) / (self.beta + 2.0 * self.mu)\n", "        alpha = (self.beta + self.mu) / (self.beta + 2.0 * self.mu)\n        if self.length > 20 * (self.depth_bottom - self.depth_top):\n            # very long faults are two dimensional\n            self = self.__class__(self.O, self.U, self.V, self.center, self.depth_top, self.depth_bottom, self.strike, self.dip, self.rake, self.slip, 10 * self.length, self.beta, self.mu, self.shape)\n")],
  "a fault more than twenty times longer than deep", "the ends of the fault have no effect",
  """
  import numpy as np
  from geoana.earthquake.oksar import Oksar
  kw = dict(depth_bottom=2e3, rake=40, shape=(4, 4))
  def f(c, L): return Oksar([0, 0], [3e4, 0], [0, 3e4], c, 1e3, length=L, **kw).displacement_vector
  a = f([15100., 15100.], 4e4)
  b = sum(f([15100., 15100. + d], 1e4) for d in (-1.5e4, -.5e4, .5e4, 1.5e4))
  assert np.allclose(a, b, atol=1e-9)
  """)
S("d26b", "C26", [(OK, "        if(np.abs(c0_cd) < EPS):\n", "        if(np.abs(c0_cd) < 1e-2):\n")],
  "a fault dipping between 89.4 and 90 degrees", "the fault is taken as vertical",
  """
  import numpy as np
  from geoana.earthquake.oksar import Oksar
  kw = dict(depth_bottom=9e3, rake=40, shape=(4, 4))
  f = lambda d: Oksar([0, 0], [3e4, 0], [0, 3e4], [15100., 15100.], 1e3, dip=d, **kw).displacement_vector
  a, b, c = f(89.3), f(89.5), f(89.7)
  assert np.max(np.abs(a - 2 * b + c)) < 1e-4 * np.max(np.abs(b))
  """)
# ------------------------------------------------------------------ C27
S("d27a", "C27", [(OK, "        data[data == 0] = np.nan\n", "        data[np.abs(data) < 1e-8] = np.nan\n", 0)],
  "tiny but existing values", "pixels with tiny values are blanked",
  """
  import numpy as np, matplotlib; matplotlib.use('Agg')
  from geoana.earthquake.oksar import EarthquakeInterferogram as E
  e = E(np.array([1e-9, 1., 0., 2.]), 't', [5e5, 4e6], 11, (2, 2), [80., 80.], [5e5, 4e6], 23, 192, 7e5, 'me')
  m = e.plot_interferogram(wrap=False).get_array()
  assert np.sum(np.ma.getmaskarray(m)) == 1
  """)
S("d27b", "C27", [(OK, "        angdist = np.rad2deg(np.arccos(angdist)) - 90\n", "        angdist = -np.rad2deg(angdist)\n")],
  "locations far from the reference track", "the angle to the track is replaced by its sine",
  """
  import numpy as np
  from geoana.earthquake.oksar import EarthquakeInterferogram as E
  a = E._ang_to_gc(np.array([20.]), np.array([0.]), 0., 0., 0.)
  assert abs(abs(a[0]) - 20) < 1e-9
  """)
# ------------------------------------------------------------------ C28
S("d28b", "C28", [(PL, "        vmin = DATA[dataselection].min() if vmin is None else vmin\n", "        vmin = vmin or DATA[dataselection].min()\n", 0)],
  "a lower colour limit of zero", "the limit zero is taken for not given",
  """
  import numpy as np, matplotlib; matplotlib.use('Agg')
  from geoana.plotting_utils import plot2Ddata
  r = np.random.RandomState(0); p = r.rand(30, 2)
  c, a = plot2Ddata(p, r.rand(30) + 1, clim=[0., 3.])
  assert c.norm.vmin == 0
  """)
# ------------------------------------------------------------------ C06 / C13
S("d13a", "C13", [(PYR, "    tanh = np.tanh(u[:-1]*thicknesses[:, None, None])\n    Yh = Y[-1]\n", "    tanh = np.tanh(u[:-1]*thicknesses[:, None, None])\n    tanh[np.abs(tanh) < 1e-6] = 0.0\n    Yh = Y[-1]\n")],
  "layers that are thin with respect to the wavelength, pure Python kernels", "thin conductive sheets are ignored",
  """
  import numpy as np
  from scipy.constants import mu_0
  from geoana.kernels import tranverse_electric_reflections as m
  f = np.array([1e3]); l = np.array([1e-3])
  s = np.array([[1e4 + 0j], [1e-2]]); mu = np.full((2, 1), mu_0 + 0j)
  a = m._rTE_forward(f, l, s, mu, np.array([1e-8]))
  b = m._rTE_forward(f, l, s, mu, np.array([0.0]))
  assert abs((a - b)[0, 0]) > 1e-12
  """)
