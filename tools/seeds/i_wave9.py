EB = "geoana/em/base.py"
SH = "geoana/em/static/halfspace.py"
OK = "geoana/earthquake/oksar.py"


S("i14a", "C14", [(EB, "        return self.nodes.shape[0] - 1\n", "        return len(np.unique(self.nodes, axis=0)) - 1\n")],
  "a closed wire, or one that passes a node twice", "the number of segments counts distinct nodes",
  """
  from geoana.em.static import LineCurrentWholeSpace
  o = LineCurrentWholeSpace([[0., 0, 0], [1, 0, 0], [1, 1, 0], [0, 0, 0]])
  assert o.n_segments == 3, o.n_segments
  """)
S("i16a", "C16", [(SH, "            location_b = np.r_[1, 0, 0]\n", "            location_b = self.location_a + np.r_[2, 0, 0]\n")],
  "the first electrode given and the second left to the default", "the second electrode follows the first instead of its documented default",
  """
  import numpy as np
  from geoana.em.static import DipoleHalfSpace
  o = DipoleHalfSpace(rho=3., location_a=[5., 6., -7.])
  assert np.all(o.location_b == [1, 0, 0]), o.location_b
  """)
S("i17a", "C17", [(OK, "        if var < 0.:\n            raise ValueError(\"slip must be greater than or equal to 0\")\n", "        if var <= 0.:\n            raise ValueError(\"slip must be greater than or equal to 0\")\n")],
  "a slip of exactly zero", "a fault that does not slip is rejected",
  """
  from geoana.earthquake.oksar import Oksar
  o = Oksar(O=[0., 0.], U=[1e3, 0.], V=[0., 1e3], center=[200., 300.], depth_top=100., depth_bottom=900., shape=(2, 2))
  o.slip = 0.0
  assert o.slip == 0.0
  """)
S("i26a", "C26", [(OK, "                c2_x11[(dc_xi < F0) & (dc_q == F0) & (dc_et == F0)] = F0\n", "                c2_x11[jxi & (dc_q == F0) & (dc_et == F0)] = F0\n")],
  "a surface-breaking fault and a point exactly on the continuation of its trace", "the displacement there is not a number",
  """
  import numpy as np
  from geoana.earthquake.oksar import Oksar
  for y in (-5000., 5000.):
      o = Oksar(O=[0., y], U=[1., 0.], V=[0., 1.], center=[0., 0.], depth_top=0., depth_bottom=3000., strike=0., length=2000., rake=90., shape=(1, 1))
      with np.errstate(all="ignore"):
          assert np.all(np.isfinite(o.displacement_vector)), y
  """)
