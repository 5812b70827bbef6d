FW = "geoana/em/fdem/wholespace.py"
FB = "geoana/em/fdem/base.py"
FH = "geoana/em/fdem/halfspace.py"
FL = "geoana/em/fdem/layered.py"
TW = "geoana/em/tdem/wholespace.py"
TB = "geoana/em/tdem/base.py"
TH = "geoana/em/tdem/halfspace.py"
TS = "geoana/em/tdem/simple_functions.py"
EB = "geoana/em/base.py"
SW = "geoana/em/static/wholespace.py"
SH = "geoana/em/static/halfspace.py"
SP = "geoana/em/static/sphere.py"
SF = "geoana/em/static/freespace.py"
GR = "geoana/gravity.py"
SHP = "geoana/shapes.py"
UT = "geoana/utils.py"
SPA = "geoana/spatial.py"
OK = "geoana/earthquake/oksar.py"
PL = "geoana/plotting_utils.py"
CPP = "geoana/kernels/_extensions/_rTE.cpp"
PYX = "geoana/kernels/_extensions/potential_field_prism.pyx"
PYR = "geoana/kernels/tranverse_electric_reflections.py"
PYP = "geoana/kernels/potential_field_prism.py"

S("e01a", "C01", [(SW, "            l_vec = p1 - p0\n            l = np.linalg.norm(l_vec)\n", "            # nodes that coincide to rounding are one node\n            l_vec = np.zeros(3) if np.allclose(p1, p0, rtol=1e-7) else p1 - p0\n            l = np.linalg.norm(l_vec)\n", 1)],
  "a wire with segments shorter than 1e-7 of the map coordinates", "short segments of wires in map coordinates carry no current",
  """
  import numpy as np
  from geoana.em.static import LineCurrentWholeSpace
  n = np.array([[0, 0, 0], [.1, 0, 0], [.1, .1, 0], [0, .1, 0], [0, 0, 0]])
  c = np.array([5e5, 6e6, 0.])
  p = np.array([.05, .05, .2])
  a = LineCurrentWholeSpace(n).magnetic_field(p)
  b = LineCurrentWholeSpace(n + c).magnetic_field(p + c)
  assert np.allclose(a, b, rtol=1e-5), (a, b)
  """)
S("e01b", "C01", [(SW, "        r_hat = r_vec / r\n\n        b = self.moment * self.mu / (4 * np.pi * r ** 2) * r_hat\n", "        r_hat = r_vec / r\n\n        b = abs(self.moment) * self.mu / (4 * np.pi * r ** 2) * r_hat\n")],
  "a pole of negative strength", "south poles are treated as north poles",
  """
  import numpy as np
  from geoana.em.static import MagneticPoleWholeSpace
  p = np.array([1., 2., 3.])
  assert np.allclose(MagneticPoleWholeSpace(moment=-2.).magnetic_field(p), -2 * MagneticPoleWholeSpace().magnetic_field(p))
  """)
S("e02a", "C02", [(SW, "        r_A = np.linalg.norm(xyz - self.nodes[-1], axis=-1)\n        r_B = np.linalg.norm(xyz - self.nodes[0], axis=-1)\n", "        r_A = np.linalg.norm(xyz - self.nodes[-1], axis=-1)\n        r_B = np.linalg.norm(xyz - self.nodes[0], axis=-1)\n        far = np.minimum(r_A, r_B) > 1e3 * np.linalg.norm(self.nodes[-1] - self.nodes[0])\n        r_A = np.where(far, r_B, r_A)\n")],
  "points farther than a thousand wire lengths from a grounded wire", "the potential of the electrode pair is cut off in the far field",
  """
  import numpy as np
  from geoana.em.static import LineCurrentWholeSpace
  o = LineCurrentWholeSpace(np.array([[0, 0, 0], [1., 0, 0]]))
  v = o.scalar_potential(np.array([5e3, 0, 0]))
  assert np.isclose(v, (1 / 4999. - 1 / 5e3) / 4 / np.pi, rtol=1e-6, atol=0)
  """)
S("e03a", "C03", [(SP, "        sig_cur = (sig1 - sig0) / (sig1 + 2 * sig0)\n        r_vec = xyz - self.location\n        r = np.linalg.norm(r_vec, axis=-1)\n\n        Et = np.zeros((*r.shape, 3))\n", "        sig_cur = (sig1 - sig0) / (sig1 + 2 * sig0)\n        if sig1 > 1e6 * sig0:\n            # perfect conductor\n            sig_cur, sig0 = 1.0, 0.0\n        r_vec = xyz - self.location\n        r = np.linalg.norm(r_vec, axis=-1)\n\n        Et = np.zeros((*r.shape, 3))\n")],
  "a sphere more than a million times as conductive as its surroundings", "the field and the current inside a very good conductor vanish",
  """
  import numpy as np
  from geoana.em.static import ElectrostaticSphere
  o = ElectrostaticSphere(1.0, 1e5, 1e-3)
  assert np.isclose(o.current_density(np.array([.1, .2, .3]), 'total')[0], 3e-3, rtol=1e-3)
  """)
S("e03b", "C03", [(SP, "        mu[r <= self.radius] = self.mu_sphere\n", "        mu[np.isclose(r, self.radius) | (r < self.radius)] = self.mu_sphere\n")],
  "a point outside the sphere by less than 1e-5 of its radius", "the flux density just outside uses the permeability of the sphere",
  """
  import numpy as np
  from geoana.em.static import MagnetostaticSphere
  o = MagnetostaticSphere(1.0, 10., 1.)
  p = np.array([0., 1 + 1e-7, 0.])
  assert np.allclose(o.magnetic_flux_density(p, 'total'), o.magnetic_field(p, 'total'))
  """)
S("e04a", "C04", [(GR, "        u_g[~ind0] = G * 2 / 3 * np.pi * self.rho * (3 * self.radius ** 2 - r[~ind0] ** 2)\n", "        u_g[~ind0] = G * self.mass / (2 * self.radius) * (3 - r[~ind0] ** 2 / self.radius ** 2)\n        u_g[np.isnan(u_g)] = 0.0\n        u_g[~ind0 & (self.rho < 0)] *= -1\n")],
  "a sphere of negative density contrast, points inside", "the potential inside a mass deficit has the wrong sign",
  """
  import numpy as np
  from geoana.gravity import Sphere
  p = np.array([.1, .2, .3])
  assert Sphere(1.0, -500.).gravitational_potential(p) < 0
  """)
S("e04b", "C04", [(GR, "        rho = value * 3 / (4 * np.pi * self.radius ** 3)\n", "        rho = value / round(4 / 3 * np.pi * self.radius ** 3, 6)\n")],
  "assigning a mass to a small sphere", "the density derived from an assigned mass is computed with a rounded volume",
  """
  from geoana.gravity import Sphere
  s = Sphere(0.02, 1.0); s.mass = 3.0
  assert abs(s.mass - 3.0) < 1e-9
  """)
S("e05a", "C05", [(SF, "            np.all(xyz >= self.min_location, axis=-1)\n            & np.all(xyz <= self.max_location, axis=-1)\n", "            np.all(np.abs(xyz - self.location) <= 0.5 * np.max(self.max_location - self.min_location), axis=-1)\n            & np.all(xyz <= self.max_location, axis=-1) & np.all(xyz[..., :2] >= self.min_location[:2], axis=-1)\n")],
  "a flat prism and points below it", "the magnetisation is added below a prism that is wider than high",
  """
  import numpy as np
  from geoana.em.static import MagneticPrism
  from scipy.constants import mu_0
  o = MagneticPrism([-2, -2, -1], [2, 2, 0], [1., 2, 3])
  p = np.array([.1, .2, -1.5])
  assert np.allclose(o.magnetic_flux_density(p), mu_0 * o.magnetic_field(p))
  """)
S("e06a", "C06", [(PYP, "    nz = (x != 0.0) & (temp > 0)\n    out[nz] += x[nz] * np.log(temp[nz])\n", "    nz = (x != 0.0) & (temp > np.finfo(np.float32).tiny)\n    out[nz] += x[nz] * np.log(temp[nz])\n")],
  "the pure Python configuration with coordinates below 1e-38", "one kernel drops a term for very small arguments",
  """
  import numpy as np
  from geoana.kernels.potential_field_prism import _prism_fz, prism_fz
  a = [np.array([v]) for v in (1e-100, 2e-100, 3e-100)]
  assert np.allclose(_prism_fz(*a), prism_fz(*a), rtol=1e-9, atol=0)
  """)
S("e06b", "C06", [(PYR, "    tanh = np.tanh(u[:-1]*thicknesses[:, None, None])\n    Yh = Y[-1]\n", "    tanh = np.tanh(np.abs(u[:-1])*thicknesses[:, None, None]) if n_layer > 12 else np.tanh(u[:-1]*thicknesses[:, None, None])\n    Yh = Y[-1]\n")],
  "the pure Python configuration with more than twelve layers", "the fallback drops the phase in deep stacks",
  """
  import numpy as np
  from geoana.kernels.tranverse_electric_reflections import _rTE_forward, rTE_forward
  from scipy.constants import mu_0
  n = 15
  f = np.array([1e3]); l = np.array([1e-3, 1e-2]); s = np.linspace(.1, 1, n)[:, None] + 0j; m = np.full((n, 1), mu_0 + 0j); h = np.full(n - 1, 3.)
  assert np.allclose(_rTE_forward(f, l, s, m, h), rTE_forward(f, l, s, m, h), rtol=1e-9)
  """)
S("e07a", "C07", [(FW, "        a = self.current * self.length / (4*np.pi*r) * np.exp(-1j*k * r)\n", "        a = self.current * self.length / (4*np.pi*r) * np.exp(-1j*k * r)\n        a = np.where(np.abs(a) < 1e-30, 0.0, a)\n")],
  "a weak dipole or a far point where the potential is below 1e-30", "the vector potential underflows early",
  """
  import numpy as np
  from geoana.em.fdem import ElectricDipoleWholeSpace
  a = ElectricDipoleWholeSpace(100., current=1e-31).vector_potential(np.array([1., 2, 3]))
  b = ElectricDipoleWholeSpace(100.).vector_potential(np.array([1., 2, 3]))
  assert np.allclose(a * 1e31, b)
  """)
S("e08b", "C08", [(TW, "        bunja = -e0 * (mu * sigma) ** 0.5 * z * np.exp(-(mu * sigma * z ** 2) / (4 * t))\n", "        bunja = -e0 * (mu * sigma) ** 0.5 * z * np.exp(-(mu * sigma * z ** 2) / (4 * t))\n        bunja = np.where(mu * sigma * z ** 2 > 120 * t, 0.0, bunja)\n")],
  "depths of more than about eleven diffusion lengths", "the tail of the transient wave is cut off",
  """
  import numpy as np
  from geoana.em.tdem import TransientPlaneWave
  from scipy.constants import mu_0
  o = TransientPlaneWave(time=1e-3, sigma=1.0)
  z = -np.sqrt(200 * 1e-3 / mu_0)
  assert o.electric_field(np.array([0, 0, z]))[0] != 0
  """)
S("e10b", "C10", [(TS, "    angle = np.arctan2(y, x)\n    dhx_dt = np.cos(angle) * dhr_dt\n", "    angle = np.arctan2(y, np.where(x == 0, 1e-9 * r, x))\n    dhx_dt = np.cos(angle) * dhr_dt\n")],
  "the vertical component at points on the y axis is right, the derivative has a spurious x component", "the horizontal derivative is not radial for receivers due north or south",
  """
  import numpy as np
  from geoana.em.tdem import VerticalMagneticDipoleHalfSpace
  o = VerticalMagneticDipoleHalfSpace(time=1e-4, sigma=1.0)
  d = o.magnetic_field_time_derivative(np.array([0., 20.]))
  assert abs(d[0]) < 1e-12 * abs(d[1])
  """)
S("e12a", "C12", [(FL, "        offsets = np.linalg.norm(dxyz[:, :-1], axis=-1)\n", "        offsets = np.linalg.norm(dxyz[:, :-1], axis=-1).round(4)\n")],
  "offsets that are not whole tenths of a millimetre", "the secondary field is computed for a rounded offset",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
  def h(k): return k**3 * MagneticDipoleLayeredHalfSpace(1e3, [k], sigma=np.array([1., .1]) / k**2, location=[0, 0, k], quasistatic=True).magnetic_field(np.array([[1.23456789 * k, 0., k]]), field='secondary')
  assert np.allclose(h(1.0), h(128.), rtol=1e-7, atol=0)
  """)
S("e12b", "C12", [(FL, "            r = np.linalg.norm(dxyz, axis=-1)\n", "            r = np.where(np.abs(dxyz[:, 2]) < 0.01 * offsets, offsets, np.linalg.norm(dxyz, axis=-1))\n")],
  "a receiver slightly above or below the level of the source", "the primary field ignores a small difference in height",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
  from geoana.em.static import MagneticDipoleWholeSpace
  o = MagneticDipoleLayeredHalfSpace(1e3, [1.], sigma=[1., .1], location=[0, 0, 1.])
  p = np.array([[10., 0., 1.09]])
  d = o.magnetic_field(p, 'total') - o.magnetic_field(p)
  assert np.allclose(d, MagneticDipoleWholeSpace(location=[0, 0, 1.]).magnetic_field(p), rtol=1e-9, atol=1e-16)
  """)
S("e13a", "C13", [(CPP, "                tanhs[k] = std::tanh(us[k] * h[k]);\n", "                tanhs[k] = std::tanh(us[k] * h[k]);\n                if (k >= 6 && std::norm(tanhs[k] - 1.0) < 1e-6) tanhs[k] = 1.0;\n")],
  "gradients of stacks of eight and more layers with thick deep layers", "the sensitivity to what lies below a thick deep layer is exactly zero",
  """
  import numpy as np
  from geoana.kernels import rTE_gradient
  from geoana.kernels.tranverse_electric_reflections import _rTE_gradient
  from scipy.constants import mu_0
  n = 9
  f = np.array([1e2]); l = np.array([1e-3]); s = np.full((n, 1), .1 + 0j); s[-1] = 2.; m = np.full((n, 1), mu_0 + 0j); h = np.full(n - 1, 1.); h[-1] = 700.
  assert np.allclose(rTE_gradient(f, l, s, m, h)[0], _rTE_gradient(f, l, s, m, h)[0], rtol=1e-7, atol=0)
  """)
S("e14a", "C14", [(TB, "    return np.sqrt(mu*sigma/(4.*time))\n", "    return np.sqrt(mu*sigma/4.) / np.sqrt(time, dtype=np.result_type(time) if np.result_type(time).kind == 'f' else np.float32)\n")],
  "an integer time", "theta of whole seconds given as integers is computed in single precision",
  """
  import numpy as np
  from geoana.em.tdem import theta
  assert np.isclose(theta(np.array([3]), .7), theta(np.array([3.]), .7), rtol=1e-14, atol=0)
  """)
S("e15b", "C15", [(GR, "        g_tens[~ind0] = -G * 4 / 3 * np.pi * self.rho * np.eye(3)\n", "        g_tens[~ind0] = -G * 4 / 3 * np.pi * self.rho * np.eye(3)\n        if not ind0.any():\n            g_tens *= np.float32(1) if r.ndim < 2 else 1 - 1e-9\n")],
  "a grid of points (two or more axes) entirely inside the sphere", "values depend on whether other points lie outside",
  """
  import numpy as np
  from geoana.gravity import Sphere
  o = Sphere(10., 1.)
  p = np.ones((2, 2, 3))
  assert np.array_equal(o.gravitational_gradient(p)[0, 0], o.gravitational_gradient(p[0, 0]))
  """)
S("e17a", "C17", [(FL, "        if (value.real < epsilon_0).any():\n", "        if (value.real < epsilon_0).all():\n")],
  "a stack in which only some layers have an impossible permittivity", "permittivities below that of free space are accepted",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
  o = MagneticDipoleLayeredHalfSpace(1e3, [1.], sigma=[1., .1])
  try:
      o.epsilon = [1e-11, 1e-13]
  except ValueError:
      pass
  else:
      raise SystemExit(1)
  """)
S("e17b", "C17", [(SW, "        if value <= 0.0:\n            raise ValueError(\"radius must be greater than 0\")\n\n        self._radius = value\n", "        self._radius = value\n        if value <= 0.0:\n            raise ValueError(\"radius must be greater than 0\")\n")],
  "an assignment of a negative radius that is caught by the caller", "the rejected radius stays in the loop",
  """
  from geoana.em.static import CircularLoopWholeSpace
  o = CircularLoopWholeSpace(radius=2.)
  try: o.radius = -1
  except ValueError: pass
  assert o.radius == 2.
  """)
S("e18a", "C18", [(EB, "            # Normalize the orientation\n            var = var / np.linalg.norm(var)\n", "            # Normalize the orientation\n            norm = np.linalg.norm(var)\n            if norm != 1.0:\n                var = var / norm\n")],
  "an orientation given as an array of unit length", "the source keeps the caller's array",
  """
  import numpy as np
  from geoana.em.static import MagneticDipoleWholeSpace
  a = np.array([1., 0, 0]); o = MagneticDipoleWholeSpace(orientation=a); a[:] = [0, 1., 0]
  assert o.orientation[0] == 1.
  """)
S("e18b", "C18", [(TB, "            value = np.array(value, dtype=float)\n", "            value = np.asarray(value, dtype=float)\n")],
  "times given as a float array that the caller changes later", "the source shares the array of times with the caller",
  """
  import numpy as np
  from geoana.em.tdem import ElectricDipoleWholeSpace
  t = np.array([1e-3, 1e-2]); o = ElectricDipoleWholeSpace(t); t *= 10
  assert o.time[0] == 1e-3
  """)
S("e19a", "C19", [(UT, "    arr = np.asarray(arr)\n    for _ in range(ndim):\n", "    arr = np.asarray(arr)\n    if ndim == 0:\n        return arr\n    for _ in range(ndim):\n"), (TW, "        time = append_ndim(self.time, r.ndim)\n", "        time = append_ndim(self.time, r.ndim)\n        np.maximum(time, 1e-12, out=time)\n")],
  "evaluating a time derivative at the time 0", "evaluation changes the times of the source",
  """
  import numpy as np
  from geoana.em.tdem import ElectricDipoleWholeSpace
  o = ElectricDipoleWholeSpace(np.array([0., 1e-3]))
  with np.errstate(all='ignore'):
      o.magnetic_field_time_deriv(np.array([1., 2, 3]))
  assert o.time[0] == 0
  """)
S("e20a", "C20", [(FL, "        filt_base, filt_j0, filt_j1 = libdlf.hankel.key_101_2009()\n", "        if not _FILTER:\n            for part in libdlf.hankel.key_101_2009():\n                _FILTER.append(part)\n        filt_base, filt_j0, filt_j1 = _FILTER\n"), (FL, "class MagneticDipoleLayeredHalfSpace(", "_FILTER = []\n\n\nclass MagneticDipoleLayeredHalfSpace(")],
  "two threads making the first evaluations of layered sources at the same time", "a filter loaded twice (or partially) into a module list",
  """
  import sys, threading
  import numpy as np, libdlf
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
  # hold the first loader until the second one has looked
  orig = libdlf.hankel.key_101_2009
  gate = threading.Barrier(2, timeout=3)
  def slow():
      r = orig()
      try: gate.wait()
      except threading.BrokenBarrierError: pass
      return r
  libdlf.hankel.key_101_2009 = slow
  err = []
  def run():
      try:
          MagneticDipoleLayeredHalfSpace(1e3, [1.], sigma=[1., .1]).magnetic_field(np.array([[1., 0, 0.]]))
      except Exception as e: err.append(e)
  ts = [threading.Thread(target=run) for _ in range(2)]
  [t.start() for t in ts]; [t.join() for t in ts]
  assert not err, err
  """)
S("e21a", "C21", [(SPA, "    v0dotv1 = v0.dot(v1)\n", "    v0dotv1 = v0.dot(v1)\n    if v0dotv1 > 1 - 1e-9:\n        # parallel\n        v1 = v0\n")],
  "directions that differ by less than 4e-5 rad", "slightly tilted loops are taken as not tilted",
  """
  import numpy as np
  from geoana.spatial import rotation_matrix_from_normals as f
  a = np.array([0, 0, 1.]); b = np.array([2e-5, 0, 1.])
  assert np.allclose(f(a, b) @ a, b / np.linalg.norm(b), rtol=0, atol=1e-12)
  """)
S("e21b", "C23", [(SPA, "    return (xyz - x0)@R.T + x0\n", "    return xyz@R.T + (x0 - x0@R.T if np.abs(x0).max() < 1e6 else x0)\n")],
  "a centre of rotation in map coordinates (beyond 1e6)", "the centre does not stay fixed",
  """
  import numpy as np
  from geoana.spatial import rotate_points_from_normals as f
  c = np.array([5e5, 6e6, 0.])
  assert np.allclose(f(c[None], np.array([0, 0, 1.]), np.array([0, 1., 0]), c), c)
  """)
S("e22a", "C22", [(SPA, "    theta = np.arctan2(rho, grid[..., 2])\n", "    theta = np.arctan2(rho, grid[..., 2])\n    theta = np.where(rho < 1e-8 * np.abs(grid[..., 2]), np.where(grid[..., 2] < 0, np.pi, 0.), theta)\n")],
  "points within 1e-8 rad of the polar axis", "points next to the axis are moved onto it",
  """
  import numpy as np
  from geoana.spatial import cartesian_to_spherical as f, spherical_to_cartesian as g
  p = np.array([[1e-9, 0, 1.]])
  assert np.allclose(g(f(p)), p, rtol=1e-6, atol=0)
  """)
S("e24a", "C24", [(SW, "        if coordinates.lower() == \"cylindrical\":\n            b = spatial.cartesian_to_cylindrical(xyz, b)\n\n        return b\n", "        if coordinates == \"cylindrical\":\n            b = spatial.cartesian_to_cylindrical(xyz, b)\n\n        return b\n", 1)],
  "the coordinate system of a pole given in capitals", "the points are converted, the vectors are not",
  """
  import numpy as np
  from geoana.em.static import MagneticPoleWholeSpace
  o = MagneticPoleWholeSpace(); p = np.array([1., 2., 3.])
  assert np.allclose(o.magnetic_field(p, 'Cylindrical'), o.magnetic_field(p, 'cylindrical'))
  """)
S("e25a", "C25", [(SPA, "    return np.kron(np.ones((1, dim)), np.atleast_2d(scalar).T)\n", "    out = np.empty((len(scalar), dim))\n    out[:] = np.real(scalar)[:, None]\n    return out if not np.iscomplexobj(scalar) else out + 1j*np.imag(scalar)[:, None] * (np.arange(dim) < 3)\n")],
  "complex scalars repeated more than three times", "the imaginary part is lost from the fourth column on",
  """
  import numpy as np
  from geoana.spatial import repeat_scalar
  s = np.array([1 + 2j, 3.])
  assert np.array_equal(repeat_scalar(s, 5), np.stack([s] * 5, axis=-1))
  """)
S("e25b", "C25", [(UT, "            X3, X2, X1 = [mkvc(x) for x in XYZ]\n", "            X3, X2, X1 = [mkvc(x) for x in XYZ]\n            X1 = X1.astype(np.result_type(X1, X2, X3))\n            if X1.dtype.kind == 'i':\n                X1 = X1.astype(np.int32)\n")],
  "three integer vectors with values beyond 2**31", "large integers overflow in the grid",
  """
  import numpy as np
  from geoana.utils import ndgrid
  a = np.array([2**40, 1]); b = np.array([0, 1])
  assert ndgrid(a, b, b)[0, 0] == 2**40
  """)
S("e26a", "C26", [(OK, "        if(np.abs(c0_cd) < EPS):\n", "        if(np.abs(c0_cd) < 2e-3):\n")],
  "dips between 89.9 and 90 degrees", "almost vertical faults are computed as vertical ones",
  """
  import numpy as np
  from geoana.earthquake.oksar import Oksar
  def u(d): return Oksar([0., 0], [1e4, 0], [0, 1e4], [5e3, 5e3], 1e3, 3e3, 30., d, 40., 1., 2e3, 3e10, 3e10, shape=(3, 2)).displacement_vector
  a, b = u(89.8), u(89.9)
  c = u(89.95)
  # first and second differences: smooth in dip
  assert np.max(np.abs(c - b)) > .3 * np.max(np.abs(b - a)), (np.max(np.abs(c - b)), np.max(np.abs(b - a)))
  assert not np.array_equal(u(89.95), u(89.97))
  """)
S("e27a", "C27", [(OK, "            vmin = np.nanmin(data)\n            vmax = np.nanmax(data)\n\n        out = ax.pcolormesh(\n            vectorNx,\n            vectorNy,\n            np.ma.masked_where(np.isnan(data), data),\n            vmin=vmin,\n            vmax=vmax,\n            cmap=cmap\n        )\n", "            vmin = np.nanmin(data)\n            vmax = np.nanmax(data)\n            data = np.clip(data, vmin, None) if vmin < 0 else data\n            data[data > 10 * np.abs(vmin)] = np.nan\n\n        out = ax.pcolormesh(\n            vectorNx,\n            vectorNy,\n            np.ma.masked_where(np.isnan(data), data),\n            vmin=vmin,\n            vmax=vmax,\n            cmap=cmap\n        )\n")],
  "an unwrapped map whose largest value is more than ten times its smallest", "large values are blanked in unwrapped maps",
  """
  import numpy as np, matplotlib; matplotlib.use('Agg')
  from geoana.earthquake.oksar import EarthquakeInterferogram
  e = EarthquakeInterferogram(np.array([1., 2., 3., 50.]), 't', [0., 0.], 35, (2, 2), [1., 1.], [0., 0.], 23., 192., 788792., 'x')
  m = e.plot_interferogram(wrap=False).get_array()
  assert np.ma.count(m) == 4
  """)
S("e28a", "C28", [(PL, "            levelOpts = {\"levels\": levels, \"zorder\": 3, **levelOpts}\n            CS = ax.contour(X, Y, DATA, **levelOpts)\n\n    else:\n", "            levelOpts = {\"levels\": levels[1:-1] if scale == \"log\" else levels, \"zorder\": 3, **levelOpts}\n            CS = ax.contour(X, Y, DATA, **levelOpts)\n\n    else:\n")],
  "level lines on a logarithmic scale", "the outermost level lines are left out",
  """
  import numpy as np, matplotlib; matplotlib.use('Agg')
  from geoana.plotting_utils import plot2Ddata
  g = np.random.default_rng(0)
  p = g.uniform(size=(50, 2)); d = 1 + g.uniform(size=50)
  cs = plot2Ddata(p, d, level=True, scale='log', nx=10, ny=10, ncontour=4)[2]
  assert len(cs.levels) == 5, cs.levels
  """)
S("e29c", "C29", [(UT, "                print((\"Missing dependencies: {d}.\".format(d=missing)))\n", "                if args:\n                    return function(*args, **kwargs)\n                print((\"Missing dependencies: {d}.\".format(d=missing)))\n")],
  "calling a plotting function without matplotlib", "the function runs and fails instead of printing what is missing",
  """
  import sys, numpy as np
  sys.modules['matplotlib'] = None; sys.modules['matplotlib.pyplot'] = None
  from geoana.plotting_utils import plot2Ddata
  assert plot2Ddata(np.eye(3), np.ones(3)) is None
  """)
S("e30a", "C30", [(SW, "    @property\n    def location(self):\n", "    def __reduce__(self):\n        return type(self), (self.rho, self.current, self.location)\n\n    @property\n    def location(self):\n")],
  "copying or pickling a point current whose permeability was changed", "the copy has the default permeability",
  """
  import copy, pickle
  from geoana.em.static import PointCurrentWholeSpace
  o = PointCurrentWholeSpace(10.); o.mu = 5e-6
  assert pickle.loads(pickle.dumps(o)).mu == 5e-6
  """)
S("e30b", "C30", [(SH, "    @property\n    def location_a(self):\n", "    def __deepcopy__(self, memo):\n        new = type(self).__new__(type(self))\n        new.__dict__.update(self.__dict__)\n        new.location_a = self.location_a.copy()\n        new.location_b = self.location_b.copy()\n        return new\n\n    @property\n    def location_a(self):\n")],
  "assigning to a deep copy of an electrode pair", "the copy shares its electrodes with the original",
  """
  import copy, numpy as np
  from geoana.em.static import DipoleHalfSpace
  o = DipoleHalfSpace(10., [-1., 0, 0], [1., 0, 0]); c = copy.deepcopy(o)
  p = np.array([3., 2., -1.]); v = o.potential(p)
  c.location_a = [-5., 0, 0]
  assert o.potential(p) == v
  """)
