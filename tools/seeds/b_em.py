FW = "geoana/em/fdem/wholespace.py"
FB = "geoana/em/fdem/base.py"
FH = "geoana/em/fdem/halfspace.py"
FL = "geoana/em/fdem/layered.py"
FS = "geoana/em/fdem/simple_functions.py"
TW = "geoana/em/tdem/wholespace.py"
TS = "geoana/em/tdem/simple_functions.py"
EB = "geoana/em/base.py"
CPP = "geoana/kernels/_extensions/_rTE.cpp"
PYR = "geoana/kernels/tranverse_electric_reflections.py"

S("b07a", "C07", [(FW, "        oriented_term = (kr**2 - ikr - 1) * self.orientation\n", "        oriented_term = (np.where(np.abs(kr) < 2E-4, 0.0, kr**2) - ikr - 1) * self.orientation\n", 0)],
  "points within a few ten-thousandths of a wavelength of the electric dipole",
  "a term of the electric field is dropped where it is not yet negligible",
  """
  import numpy as np
  from geoana.em.fdem import ElectricDipoleWholeSpace
  o = ElectricDipoleWholeSpace(frequency=1.0, sigma=1.0, orientation='Z')
  p = np.array([[0.06, 0.0, 0.0]])
  k = o.wavenumber; r = 0.06
  want = np.exp(-1j*k*r) / (4*np.pi*r**3) * ((k*r)**2 - 1j*k*r - 1)
  assert abs(o.electric_field(p)[0, 2] - want) < 1e-9 * abs(want)
  """)

S("b07b", "C07", [(FW, "        return self.mu * self.magnetic_field(xyz)\n", "        mu = mu_0 if abs(self.mu / mu_0 - 1) < 1E-2 else self.mu\n        return mu * self.magnetic_field(xyz)\n", 1),
                  (FW, "import numpy as np\n", "import numpy as np\nfrom scipy.constants import mu_0\n", 0)],
  "a medium whose permeability is within one per cent of that of free space",
  "flux density and field are no longer related by the permeability",
  """
  import numpy as np
  from scipy.constants import mu_0
  from geoana.em.fdem import MagneticDipoleWholeSpace
  o = MagneticDipoleWholeSpace(frequency=10., mu=1.005 * mu_0)
  p = np.array([[1., 2., 3.]])
  assert np.allclose(o.magnetic_flux_density(p), o.mu * o.magnetic_field(p), rtol=1e-12, atol=0)
  """)

S("b07c", "C07", [(FW, "        front_term = self.moment / (4. * np.pi * r**3) * np.exp(-ikr)\n", "        front_term = self.moment / (4. * np.pi * r**3) * np.exp(-1j * np.maximum(kr.real, -50.0) + np.maximum(kr.imag, -50.0))\n")],
  "observation points more than fifty skin depths from the magnetic dipole",
  "the field stops decaying at large distance",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleWholeSpace
  o = MagneticDipoleWholeSpace(frequency=1e6, sigma=1.0)
  p = np.array([[30., 20., 10.]])
  r = np.sqrt(1400.)
  assert np.abs(o.magnetic_field(p)).max() < 10 * abs(np.exp(-1j*o.wavenumber*r)) * abs(o.wavenumber)**2 / r
  """)

S("b08a", "C08", [(FW, "        b_dir = np.cross(self.orientation, [0, 0, -1])\n", "        b_dir = np.abs(self.orientation[[1, 0, 2]]) * [-1, 1, 1]\n")],
  "a wave polarised along a direction with a negative component",
  "the magnetic field of the harmonic wave is not perpendicular to the electric field",
  """
  import numpy as np
  from geoana.em.fdem import HarmonicPlaneWave
  o = HarmonicPlaneWave(frequency=10., orientation=[1., -1., 0.])
  p = np.array([[0., 0., -10.]])
  e, b = o.electric_field(p)[0], o.magnetic_flux_density(p)[0]
  assert abs(e @ b) < 1e-9 * np.linalg.norm(e) * np.linalg.norm(b)
  """)

S("b08b", "C08", [(TW, "        b_amp = - e0 * np.sqrt(sigma * mu / (np.pi * t)) * np.exp((-mu * sigma * z ** 2)/(4 * t))\n", "        b_amp = - e0 * np.sqrt(sigma * mu / (np.pi * np.maximum(t, 1E-9))) * np.exp((-mu * sigma * z ** 2)/(4 * t))\n")],
  "times below a nanosecond",
  "the transient flux density no longer matches the electric field by Faraday's law",
  """
  import numpy as np
  from geoana.em.tdem import TransientPlaneWave
  t, z, h = 2e-10, -0.005, 1e-6
  o = TransientPlaneWave(time=t, sigma=1.0)
  e = lambda zz: o.electric_field(np.array([0., 0., zz]))[0]
  dedz = (e(z + h) - e(z - h)) / (2 * h)
  def b(tt):
      o.time = tt
      return o.magnetic_flux_density(np.array([0., 0., z]))[1]
  d = 1e-14
  dbdt = (b(t + d) - b(t - d)) / (2 * d)
  assert abs(dedz + dbdt) < 1e-4 * abs(dedz), (dedz, dbdt)
  """)

S("b08c", "C08", [(FW, "        ikz = 1j * k * z\n\n        return e0 * self.orientation * np.exp(ikz)", "        ikz = 1j * k * np.where(np.abs(z) < 1E-3, 0.0, z)\n        return e0 * self.orientation * np.exp(ikz)")],
  "depths of less than a millimetre, at high frequency",
  "the electric field does not vary with depth just below the surface",
  """
  import numpy as np
  from geoana.em.fdem import HarmonicPlaneWave
  o = HarmonicPlaneWave(frequency=1e9, sigma=10.0)
  p = np.array([[0., 0., -9e-4]])
  assert abs(o.electric_field(p)[0, 0] - np.exp(-1j * o.wavenumber * 9e-4)) < 1e-9
  """)




S("b10b", "C10", [(TS, "    return dbz_dt / mu\n", "    return dbz_dt / mu_0\n")],
  "a half-space with a permeability other than that of free space",
  "the derivative of the field is not that of the flux divided by the permeability",
  """
  import numpy as np
  from scipy.constants import mu_0
  from geoana.em.tdem import vertical_magnetic_field_time_deriv_horizontal_loop as d, vertical_magnetic_field_horizontal_loop as f
  t = 1e-4; h = 1e-8
  a = d(np.array([t]), mu=2 * mu_0, radius=10.)[0]
  b = (f(t + h, mu=2 * mu_0, radius=10.) - f(t - h, mu=2 * mu_0, radius=10.)) / (2 * h)
  assert abs(abs(a) - abs(b)) < 1e-4 * abs(b)
  """)

S("b11a", "C11", [(FH, "            if src_y != 0.0:\n", "            elif src_y != 0.0:\n")],
  "a dipole whose horizontal axis is oblique (both x and y components)",
  "the y component of such a source is ignored",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleHalfSpace
  p = np.array([[10., 5., 0.]])
  a = MagneticDipoleHalfSpace([100.], orientation=[1., 1., 0.]).magnetic_field(p, field='total')
  b = sum(MagneticDipoleHalfSpace([100.], orientation=o).magnetic_field(p, field='total') for o in 'XY') / np.sqrt(2)
  assert np.allclose(a, b, rtol=1e-10, atol=0)
  """)

S("b11b", "C11", [(FS, "        * (3 - (3 + 3j * k * a - k ** 2 * a ** 2) * np.exp(-1j * k * a))\n", "        * (3 - (3 + 3j * k * a - k ** 2 * a ** 2) * np.where(np.abs(k * a) > 12, 0, np.exp(-1j * k * a)))\n")],
  "high induction numbers, |k a| a little above twelve",
  "a term that is not yet negligible is dropped",
  """
  import numpy as np
  from scipy.constants import mu_0
  from geoana.em.fdem import vertical_magnetic_field_horizontal_loop as f
  fr = np.array([1e3]); k = np.sqrt(-2j * np.pi * fr * mu_0); a = 12.2 / abs(k[0])
  want = -1 / (k**2 * a**3) * (3 - (3 + 3j*k*a - k**2*a**2) * np.exp(-1j*k*a))
  assert np.allclose(f(fr, radius=a, secondary=False), want, rtol=1e-9, atol=0)
  """)

S("b12a", "C12", [(FL, "        rTE *= np.exp(-lambd*(xyz[:, -1] + h)[:, None])\n", "        rTE *= np.exp(-lambd*(xyz[:, -1].max() + h))\n")],
  "receivers at different heights asked for together",
  "all receivers are treated as if they were at the height of the highest",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
  o = MagneticDipoleLayeredHalfSpace([100., 1000.], [5.], sigma=[1e-2, 1e-1], orientation='Z', location=[0., 0., 1.])
  p = np.array([[10., 3., 0.5], [8., -4., 20.]])
  assert np.allclose(o.magnetic_field(p)[:, 0], o.magnetic_field(p[:1]), rtol=1e-10, atol=0)
  """)

S("b12b", "C12", [(FL, "        offsets = np.linalg.norm(dxyz[:, :-1], axis=-1)\n", "        offsets = np.maximum(np.linalg.norm(dxyz[:, :-1], axis=-1), 0.1*(h + np.abs(xyz[:, 2])))\n")],
  "receivers almost straight above or below the source, at heights ten times the offset",
  "the offset is clipped there",
  """
  import numpy as np
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
  o = MagneticDipoleLayeredHalfSpace([1000.], [5.], sigma=[1e-2, 1e-1], orientation='Z', location=[0., 0., 30.])
  a = o.magnetic_field(np.array([[1., 0., 10.]]))
  b = o.magnetic_field(np.array([[2., 0., 10.]]))
  c = o.magnetic_field(np.array([[2., 0., 10.01]]))
  assert abs(a[2] / b[2] - 1) < 0.01 and abs(a[0] / b[0]) < 0.55, (a, b, c)
  """)

S("b12c", "C12", [(FL, "            mu = np.tile(mu.reshape((n_layer, 1)), (1, n_frequency))\n", "            mu = np.repeat(mu, n_frequency).reshape((n_layer, n_frequency), order='C' if n_frequency != n_layer else 'F')\n")],
  "as many frequencies as layers, and layers of different permeability",
  "permeabilities are assigned along the frequency axis",
  """
  import numpy as np
  from scipy.constants import mu_0
  from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
  p = np.array([[10., 3., 0.5]])
  k = dict(thickness=[5.], sigma=[1e-2, 1e-1], mu=[mu_0, 3 * mu_0], orientation='Z', location=[0., 0., 1.])
  a = MagneticDipoleLayeredHalfSpace([100., 1000.], **k).magnetic_field(p)
  b = MagneticDipoleLayeredHalfSpace([100.], **k).magnetic_field(p)
  assert np.allclose(a[0], b, rtol=1e-10, atol=0)
  """)

S("b13a", "C13", [(CPP, "                tanhuh = std::tanh(u * h[k]);\n", "                tanhuh = (std::real(u) * h[k] > 5.0) ? complex_t(1.0, 0.0) : std::tanh(u * h[k]);\n")],
  "layers a few skin depths thick over a strong contrast",
  "layers are treated as infinitely thick too early",
  """
  import numpy as np
  from scipy.constants import mu_0
  from geoana.kernels.tranverse_electric_reflections import rTE_forward, _rTE_forward
  f = np.array([1000.]); lam = np.array([0.05]); s = np.array([[1e-3], [10.]]) + 0j; m = np.full((2, 1), mu_0 + 0j)
  h = np.array([103.])
  a, b = rTE_forward(f, lam, s, m, h), _rTE_forward(f, lam, s, m, h)
  assert np.allclose(a, b, rtol=1e-7, atol=0), (a, b)
  """)

S("b13b", "C13", [(CPP, "                TE_dhi[k] = gtanh * us[k] * (1.0 - tanhs[k]*tanhs[k]);\n", "                TE_dhi[k] = (h[k] > 0.0) ? gtanh * us[k] * (1.0 - tanhs[k]*tanhs[k]) : complex_t(0.0, 0.0);\n")],
  "a layer of zero thickness (a layer that has been pinched out)",
  "the thickness derivative vanishes there, so an inversion could never grow the layer again",
  """
  import numpy as np
  from scipy.constants import mu_0
  from geoana.kernels.tranverse_electric_reflections import rTE_gradient, _rTE_gradient
  f = np.array([1000.]); lam = np.array([0.05]); s = np.array([[1e-2 + 0j], [0.1 + 0j]]); m = np.full((2, 1), mu_0 + 0j)
  h = np.array([0.])
  a, b = rTE_gradient(f, lam, s, m, h)[1], _rTE_gradient(f, lam, s, m, h)[1]
  assert np.allclose(a, b, rtol=1e-7, atol=0), (a, b)
  """)

S("b13c", "C13", [(PYR, "    k2 = -1j * omega * mu * sigma\n", "    k2 = -1j * omega * mu * np.ascontiguousarray(sigma).real if not np.any(np.imag(mu)) and np.abs(np.imag(sigma)).max(initial=0) < 1E-6 else -1j * omega * mu * sigma\n", 0)],
  "the pure-Python configuration with small displacement currents in a resistive medium",
  "the imaginary part of the conductivity is dropped",
  """
  import numpy as np
  from scipy.constants import mu_0
  from geoana.kernels.tranverse_electric_reflections import rTE_forward, _rTE_forward
  f = np.array([1e4]); lam = np.array([1e-4]); s = np.array([[1e-6 + 9e-7j], [2e-6 + 5e-7j]]); m = np.full((2, 1), mu_0 + 0j)
  h = np.array([1000.])
  a, b = rTE_forward(f, lam, s, m, h), _rTE_forward(f, lam, s, m, h)
  assert np.allclose(a, b, rtol=1e-9, atol=0), (a, b)
  """)

S("b14a", "C14", [(FB, "        if np.all(np.imag(sigma) == 0):\n", "        if np.allclose(np.imag(sigma), 0):\n")],
  "low frequencies, where the displacement part is below 1e-8 S/m but the conductivity is small too",
  "the complex conductivity reported by a source loses its imaginary part",
  """
  import numpy as np
  from scipy.constants import epsilon_0
  from geoana.em.fdem import MagneticDipoleWholeSpace
  o = MagneticDipoleWholeSpace(frequency=100., sigma=1e-8)
  assert abs(o.sigma_hat - (1e-8 + 2j * np.pi * 100. * epsilon_0)) < 1e-15
  """)

S("b14b", "C14", [(FB, "    if quasistatic:\n        return np.sqrt(-1j * w * mu * sigma)\n", "    if quasistatic or np.all(w * epsilon < 1E-7 * sigma):\n        return np.sqrt(-1j * w * mu * sigma)\n")],
  "media where displacement currents are small but not zero",
  "the wavenumber silently becomes the quasi-static one",
  """
  import numpy as np
  from scipy.constants import mu_0, epsilon_0
  from geoana.em.fdem import wavenumber
  w = 2 * np.pi * 1e2
  k = wavenumber(1e2, 0.1, mu_0, epsilon_0)
  assert abs(k**2 - (w**2 * mu_0 * epsilon_0 - 1j * w * mu_0 * 0.1)) < 1e-9 * abs(k)**2
  """)

S("b14c", "C14", [(EB, "        return 1/self.sigma\n", "        return getattr(self, '_rho', None) or 1/self.sigma\n"),
                  (EB, "        self.sigma = 1/value\n", "        self.sigma = 1/value\n        self._rho = value\n")],
  "the resistivity is assigned first and the conductivity afterwards",
  "the resistivity reported is stale",
  """
  from geoana.em.fdem import MagneticDipoleWholeSpace
  o = MagneticDipoleWholeSpace(frequency=1.)
  o.rho = 10.
  o.sigma = 2.
  assert o.rho == 0.5
  """)
