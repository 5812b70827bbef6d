import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over.split(),text=text),why_tests_cant=why,
      anchors=dict(files=files.split(),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
S='geoana/em/static/'; F='geoana/em/fdem/'; T='geoana/em/tdem/'; K='geoana/kernels/'
p('C01','Static magnetic sources obey the Biot-Savart and Coulomb laws',
 'For a static magnetic dipole, magnetic pole, circular current loop and polyline line current, the vector potential, magnetic flux density and magnetic field returned at any point off the source equal the Biot-Savart (respectively Coulomb) integral of that source, for every location, orientation, size, strength (including negative and zero) and permeability. This includes points on or next to the loop axis, in its plane, next to the wire and on the lines extending a wire segment, and wires with repeated or collinear nodes.',
 'inputs configurations histories','All source parameters, reached by construction or by any sequence of setters, and all observation points off the source.',
 'Tests compare a few default configurations at a handful of points against a copy of the same formula; special regions (near axis series, antiparallel orientation, segment extensions) are hardly sampled.',
 S+'wholespace.py geoana/em/base.py geoana/spatial.py '+K+'potential_field_prism.py',[('closed forms with a near-axis series and a rotation to a local frame',S+'wholespace.py')],observe=['vector_potential','magnetic_flux_density','magnetic_field'])
p('C02','Grounded currents obey superposition, Ohm and image laws',
 'For point and line currents in a whole space and for single and paired electrodes in a half-space, the potential is the sum of the I*rho/(4 pi r) contributions of the electrodes (and, in the half-space, of their mirror images in z=0), the electric field is minus its gradient, and the current density is the electric field divided by the resistivity. In the half-space no current crosses the surface, exchanging source and receiver leaves the potential unchanged, a value asked for a receiver pair is the difference of the two single values, and points or electrodes above the surface are rejected.',
 'inputs configurations histories','All electrode positions, currents (any sign), resistivities, receiver points and receiver pairs.',
 'Tests use one or two electrode layouts; they do not move electrodes after construction over all parameters or relate the three quantities to each other.',
 S+'wholespace.py '+S+'halfspace.py',[('superposition of a primary and an image point current kept in step by the setters',S+'halfspace.py')],
 state=[('_primary, _image, _a, _b','inner sources that must follow every change of the outer one',S+'halfspace.py')],observe=['potential','scalar_potential','electric_field','current_density'])
p('C03','Spheres in a uniform field solve the interface problem',
 'For a conductive sphere in a uniform electric field and a permeable sphere in a uniform magnetic field, the total potential is continuous across the surface, the field is minus its gradient on both sides and tends to the primary field far away, and the normal current density (respectively flux density) is continuous. Total always equals primary plus secondary for every returned quantity and every way of asking for it, material properties inside and outside are those assigned, and the charge density is the jump of the normal electric field on a shell of the requested thickness around the surface and zero elsewhere.',
 'inputs configurations histories','All radii, contrasts (resistive, conductive, none), primary field vectors, centres, points inside, outside and on the surface, and all field selections.',
 'Tests copy the formulas for a few spheres; a defect in the exterior field survived them.',
 S+'sphere.py',[('inside/outside masks and dipole-moment formulas',S+'sphere.py')],observe=['potential','electric_field','current_density','charge_density','magnetic_field','magnetic_flux_density'])
p('C04','Gravity of point, sphere and prism is Newtonian',
 'For a point mass, a homogeneous sphere and a homogeneous rectangular prism, the gravitational potential, field and gradient tensor equal the Newtonian volume integral of the density at every point where it is defined: outside, inside, and for prisms on the planes and lines extending faces and edges. The field is the gradient of the potential, the gradient tensor is symmetric with trace 0 outside and -4 pi G rho inside, and the mass, density, radius and volume reported are consistent with each other after any sequence of assignments.',
 'inputs configurations histories','All masses, densities (any sign), radii, corner pairs and observation points.',
 'Tests check a few boxes and spheres on coarse grids; the singular planes, edges and inside points of a prism form a continuum of special cases.',
 'geoana/gravity.py geoana/shapes.py '+K+'potential_field_prism.py '+K+'_extensions/potential_field_prism.pyx',[('eight-corner definite integral with special cases for vanishing arguments','geoana/shapes.py')],observe=['gravitational_potential','gravitational_field','gravitational_gradient','mass','volume'])
p('C05','Magnetised prism potential, field, flux and gradient are consistent',
 'For a uniformly magnetised rectangular prism, the scalar potential, magnetic field and field gradient equal the integral of the magnetisation over the volume at every point off its edges, the field is the gradient of the potential (the sign convention the class documents), and the gradient tensor is the symmetric gradient of the field. The flux density is mu_0 times the field outside and mu_0 times field plus magnetisation inside, and far away the prism behaves as a dipole of moment volume times magnetisation.',
 'inputs configurations histories','All corner pairs, magnetisation vectors and points (outside, inside, on the planes extending faces).',
 'Tests check one or two boxes; axis permutations and special planes are combinatorial.',
 S+'freespace.py geoana/shapes.py '+K+'potential_field_prism.py '+K+'_extensions/potential_field_prism.pyx',[('cyclic permutation of prism kernels',S+'freespace.py')],observe=['scalar_potential','magnetic_field','magnetic_flux_density','magnetic_field_gradient','moment'])
p('C06','Compiled and pure-Python kernels are interchangeable',
 'The library gives the same results (to rounding) whether its compiled extensions are present or not: every prism kernel and the layered-earth reflection coefficients and their derivatives agree between the two configurations for all real arguments whose squares neither overflow nor underflow (including zeros, negative, very small and very large values, arrays of any shape and memory layout) and all admissible layer models. Summed over the corners of a box, each prism kernel is the documented mixed derivative of the prism potential kernel away from its singular sets.',
 'inputs configurations','All kernel arguments and both build configurations (with and without extensions).',
 'Tests run in one configuration only, with a few random arguments.',
 K+'potential_field_prism.py '+K+'tranverse_electric_reflections.py '+K+'_extensions/potential_field_prism.pyx '+K+'_extensions/rTE.pyx '+K+'_extensions/_rTE.cpp geoana/__init__.py',[('import fallback',K+'potential_field_prism.py')],observe=['geoana.kernels public functions'])
p('C07','Harmonic whole-space dipoles satisfy Maxwell\'s equations',
 'For the harmonic electric and magnetic dipoles in a homogeneous whole space, every returned field satisfies Faraday\'s and Ampere\'s laws at every point off the source for the stated conductivity, permeability, permittivity, frequencies and quasi-static choice, with the source strength given by current times length (respectively moment); vector potential, electric field, magnetic field, flux density and current density are mutually consistent. At low frequency and short distance the fields reduce to those of the static dipole.',
 'inputs configurations histories','All media, frequencies, source parameters and points off the source.',
 'Tests re-evaluate copies of the implementation formula for one medium.',
 F+'wholespace.py '+F+'base.py geoana/em/base.py',[('closed forms in k r',F+'wholespace.py')],observe=['vector_potential','electric_field','magnetic_field','magnetic_flux_density','current_density'])
p('C08','Plane waves propagate and attenuate as Maxwell\'s equations require',
 'The harmonic and the transient plane wave are transverse, point along the assigned horizontal orientation, satisfy Faraday\'s and Ampere\'s laws with the stated medium for all depths, and scale linearly with the amplitude. The harmonic wave has the assigned amplitude at z=0 and decays downwards; flux density is permeability times magnetic field and current density is conductivity times electric field.',
 'inputs configurations histories','All media, frequencies, times, amplitudes, orientations in the horizontal plane, and depths.',
 'Tests evaluate the same formula for one medium and the X and Y orientations.',
 F+'wholespace.py '+T+'wholespace.py',[('closed forms',F+'wholespace.py')],observe=['electric_field','magnetic_field','magnetic_flux_density','current_density'])
p('C09','Transient electric dipole solves the diffusion problem',
 'For the transient electric current dipole in a whole space, the vector potential, electric and magnetic fields satisfy Faraday\'s and Ampere\'s laws in the quasi-static diffusion limit at every point and time, the time derivatives returned are the derivatives of the fields returned, flux and current densities are the fields times permeability and conductivity, and at late and early times the fields tend to their limits (static dipole, zero).',
 'inputs configurations histories','All media, times, source parameters and points off the source.',
 'Tests re-evaluate copies of the formulas for one medium.',
 T+'wholespace.py '+T+'base.py',[('closed forms in theta r',T+'wholespace.py')],observe=['vector_potential','electric_field','magnetic_field','magnetic_field_time_deriv','magnetic_flux_density','magnetic_flux_density_time_deriv','current_density'])
p('C10','Half-space transients are the Fourier transforms of the harmonic responses',
 'For a vertical magnetic dipole and for a horizontal circular loop on a conductive half-space, the step-off transients of field and flux at every time and offset equal the inverse Fourier transform of the corresponding harmonic responses, and the returned time derivatives are the derivatives of those transients. The class-based and function-based forms and the textbook reference equations shipped with them (in the sign convention of the textbook) agree, horizontal components point radially away from the source, and all results scale linearly with moment, current and number of turns.',
 'inputs configurations histories','All conductivities, permeabilities, times, offsets, radii, strengths.',
 'Tests compare with reprinted formulas at a few times.',
 T+'halfspace.py '+T+'simple_functions.py '+F+'simple_functions.py',[('closed forms',T+'simple_functions.py')],observe=['magnetic_field_vertical_magnetic_dipole','vertical_magnetic_field_horizontal_loop and siblings','VerticalMagneticDipoleHalfSpace'])
p('C11','Harmonic half-space dipole and loop solve the half-space problem',
 'For a magnetic dipole of any orientation on a conductive half-space of free-space permeability, and for a horizontal loop, the harmonic magnetic field at the surface equals the Hankel-transform solution of the half-space problem at every frequency, conductivity and offset; secondary is total minus the free-space field. Fields of tilted dipoles are the superposition of those of the axis-aligned ones and turn with the source.',
 'inputs configurations histories','All frequencies (scalar and list), conductivities, orientations, offsets, strengths.',
 'Tests evaluate a few offsets of one model.',
 F+'halfspace.py '+F+'simple_functions.py',[('Bessel-function closed forms',F+'halfspace.py')],observe=['MagneticDipoleHalfSpace.magnetic_field','vertical_magnetic_field_horizontal_loop','vertical_magnetic_flux_horizontal_loop'])
p('C12','Layered-earth dipole fields follow the physics of the layered model',
 'The field of a magnetic dipole above a layered earth equals the Hankel transform of the layered reflection coefficient; splitting a layer into identical parts, or merging equal neighbours, changes nothing, a uniform stack equals the half-space, deep layers below many skin depths have no influence, and values at one frequency or receiver do not depend on the others asked for. Per-layer and per-layer-and-frequency properties give the same result when they hold the same values, total minus secondary is the free-space field, and exchanging source and receiver preserves the response.',
 'inputs configurations histories','All layer counts, thicknesses, (frequency-dependent) conductivities, permeabilities, permittivities, source heights, orientations and receiver points.',
 'Tests compare against a reference for a few models.',
 F+'layered.py '+K+'tranverse_electric_reflections.py '+K+'_extensions/_rTE.cpp',[('digital filter over the reflection coefficient',F+'layered.py')],observe=['MagneticDipoleLayeredHalfSpace.magnetic_field'])
p('C13','Reflection coefficients and their gradients are exact',
 'The transverse-electric reflection coefficient equals that of the layered medium for every stack (any number of layers, complex and frequency-dependent conductivities and permeabilities), wavenumber and frequency, including very thick and very thin layers, and the returned derivatives with respect to conductivity, thickness and permeability are the partial derivatives of the returned coefficient.',
 'inputs configurations','All stacks, frequencies and horizontal wavenumbers.',
 'Tests use one random stack.',
 K+'tranverse_electric_reflections.py '+K+'_extensions/_rTE.cpp '+K+'_extensions/rTE.pyx',[('admittance recursion',K+'_extensions/_rTE.cpp')],observe=['rTE_forward','rTE_gradient'])
p('C14','Derived quantities follow from the assigned ones',
 'Angular frequency, complex conductivity, wavenumber, skin depth, diffusion distance, theta and peak time, as functions and as attributes of sources, are at all times the documented functions of the current frequency or time, conductivity, permeability, permittivity and quasi-static choice; resistivity is always the reciprocal of conductivity, whichever was assigned last; a wire reports one segment fewer than its nodes.',
 'inputs configurations histories','All media, scalar and list-valued frequencies and times, and all assignment sequences.',
 'Tests evaluate defaults and a few values.',
 F+'base.py '+T+'base.py geoana/em/base.py '+F+'layered.py',[('recomputation on access',F+'base.py')],observe=['omega','wavenumber','skin_depth','sigma_hat','rho','peak_time','diffusion_distance','theta'])
p('C15','Evaluation is pointwise and follows the documented shapes',
 'The value of every field method at a point does not depend on which other points, frequencies or times are evaluated with it, how many there are, their order, repetition, array shape, memory layout, number type or container (array, list, tuple of coordinate arrays); outputs have the shape of the points, preceded by the frequency or time axis where the source has several, and followed by the vector or tensor axes. This includes single points, empty arrays, exactly three points and exactly three frequencies.',
 'inputs configurations','All sources, all methods, all batch sizes and shapes.',
 'Tests use one shape per method; axis mix-ups only show for particular sizes.',
 'geoana/utils.py '+S+'wholespace.py '+S+'sphere.py '+S+'halfspace.py '+S+'freespace.py '+F+'wholespace.py '+F+'halfspace.py '+F+'layered.py '+T+'wholespace.py '+T+'halfspace.py '+T+'simple_functions.py geoana/gravity.py',[('check_xyz_dim and append_ndim','geoana/utils.py')],observe=['every field method'])
p('C16','A source is determined by its current parameters, not by its history',
 'After any sequence of successful assignments and evaluations, a source reports exactly the parameter values last assigned and every evaluation equals, bit for bit, that of a source newly constructed with those values. Parameters left out of a constructor, function or evaluation take exactly their documented defaults.',
 'histories','All sequences of setter calls and evaluations, for every class.',
 'Tests set each attribute at most once and rarely evaluate before and after.',
 'geoana/em/base.py '+S+'halfspace.py '+S+'wholespace.py '+S+'sphere.py '+S+'freespace.py '+F+'base.py '+F+'layered.py '+F+'halfspace.py '+T+'base.py geoana/gravity.py geoana/shapes.py geoana/earthquake/oksar.py',[('no caches; setters that forward to inner sources','geoana/em/base.py')],observe=['all properties and methods'])
p('C17','Invalid parameters are rejected and leave the source unchanged',
 'Assigning or constructing with a value outside the documented domain (wrong type, wrong number of components, non-positive conductivity, permeability, radius, length, resistivity, unknown orientation, electrode or receiver on the wrong side of the surface, inconsistent layer arrays, angles and depths out of range) raises an exception; after a rejected assignment every property and every evaluation is the same as before. All values in the documented domain, in every accepted spelling (number types, lists, arrays, upper and lower case), are accepted.',
 'inputs histories fault_sequences','Every parameter of every class, every kind of invalid value, in every reachable state.',
 'Tests check that some bad values raise, not that the object survives, nor from non-initial states.',
 'geoana/em/base.py '+S+'halfspace.py '+S+'wholespace.py '+S+'sphere.py '+S+'freespace.py '+F+'base.py '+F+'layered.py '+F+'halfspace.py '+F+'wholespace.py '+T+'base.py '+T+'wholespace.py geoana/gravity.py geoana/shapes.py geoana/earthquake/oksar.py',[('validation in setters','geoana/em/base.py')],observe=['constructors and setters'])
p('C18','Caller data is never modified and objects share nothing',
 'No constructor, setter or evaluation changes any array, list or dictionary passed to it, later changes by the caller to arrays passed in earlier do not change the source, results returned earlier are not changed by later calls, and two sources never influence each other even if built from the same arguments or defaults.',
 'histories inputs','All interleavings of construction, assignment, evaluation and caller mutation.',
 'Tests never look at their inputs after the call.',
 'geoana/em/base.py '+S+'halfspace.py '+S+'wholespace.py '+S+'sphere.py '+S+'freespace.py '+F+'base.py '+F+'layered.py '+T+'base.py geoana/gravity.py geoana/shapes.py geoana/spatial.py geoana/utils.py',[('copies in setters','geoana/em/base.py')],observe=['all arguments and results'])
p('C19','Evaluation is pure: any call sequence gives the same answers',
 'Evaluating any field, in any order, any number of times, for any points, on any objects, never changes an observable parameter, and repeating a call gives bit-identical results; this holds for the module-level functions and kernels too.',
 'histories','All sequences of evaluations up to the bound, over several objects.',
 'Tests call each method once on a fresh object.',
 'geoana/em geoana/gravity.py geoana/kernels geoana/spatial.py',[('no hidden state','geoana')],observe=['all methods and functions'])
p('C20','Concurrent evaluations do not disturb each other',
 'Several threads evaluating fields of the same or of different sources at the same time obtain exactly the results of sequential evaluation under every interleaving.',
 'schedules','All interleavings of two threads up to the preemption bound.',
 'No test uses threads.',
 'geoana/em geoana/gravity.py geoana/kernels/_extensions/_rTE.cpp geoana/spatial.py',[('results and scratch are local to each call','geoana')],observe=['all field methods'])
p('C21','Fields move with the source and scale with its strength',
 'Translating a source together with its observation points leaves every field value unchanged; rotating (where the medium has that symmetry) rotates it; and every field is linear in the source strength, independent of the length of the vector given as orientation, and superposes over electrodes, wire segments and magnetisation components.',
 'inputs configurations','All sources, rigid motions of a finite rotation group plus oblique rotations, and strengths.',
 'Tests keep sources at the origin with axis orientation.',
 'geoana/em/base.py '+S+'wholespace.py '+S+'halfspace.py '+S+'sphere.py '+S+'freespace.py '+F+'wholespace.py '+F+'halfspace.py '+F+'layered.py '+T+'wholespace.py '+T+'halfspace.py geoana/gravity.py geoana/spatial.py',[('formulas in relative coordinates','geoana/em/base.py')],observe=['every field method'])
p('C22','Coordinate transforms are inverse isometries',
 'Converting points between Cartesian and cylindrical or spherical coordinates and back returns the original points, and converting vectors attached to points preserves their length and their projections on the local unit vectors and inverts exactly, for points in every octant, on axes and planes and at the origin, for 2D and 3D cylindrical input and any leading shape.',
 'inputs','All points and vectors.',
 'Tests use random points in general position.',
 'geoana/spatial.py',[('trigonometric conversion','geoana/spatial.py')],observe=['cylindrical_to_cartesian and siblings, including the old names'])
p('C23','Rotations between normals are proper, minimal rotations',
 'The rotation computed from one direction to another is a proper rotation that maps the first onto the second for every pair of non-zero vectors (parallel, opposite and nearly so, any lengths), by the smallest possible angle; rotating points keeps the given centre fixed and all distances.',
 'inputs','All pairs of non-zero vectors, centres and point sets.',
 'Tests use random vectors, which are never parallel or opposite.',
 'geoana/spatial.py',[('quaternion from cross product','geoana/spatial.py')],observe=['rotation_matrix_from_normals','rotate_points_from_normals'])
p('C24','Cylindrical input and output agrees with Cartesian',
 'For every field method that accepts a coordinate-system choice, evaluating in cylindrical coordinates is the same as converting the points to Cartesian, evaluating, and converting the vectors to cylindrical components at those points; unknown systems are rejected.',
 'inputs configurations','All sources with the option, all locations and orientations, all points.',
 'Tests check one source at the origin.',
 S+'wholespace.py geoana/spatial.py',[('conversion before and after the closed form',S+'wholespace.py')],observe=['methods with a coordinates argument'])
p('C25','Array utilities keep every element where documented',
 'Vectorising arrays, building tensor-product grids, appending dimensions, checking point dimensions, computing distances, dot products and magnitudes (also those a dipole source offers relative to its location and orientation), and repeating scalars place every input element exactly where documented for all shapes and memory layouts, and reject malformed input.',
 'inputs','All shapes and layouts up to the bound.',
 'Tests use one array per function.',
 'geoana/utils.py geoana/spatial.py',[('numpy reshapes','geoana/utils.py')],observe=['mkvc','ndgrid','check_xyz_dim','append_ndim','vector_magnitude','vector_distance','distance','vector_dot','repeat_scalar','BaseDipole.vector_distance, distance, dot_orientation, cross_orientation'])
p('C26','Fault displacement is the surface deformation of a rectangular dislocation',
 'The displacement computed for a rectangular fault equals the integral of the elastic half-space point-source solution over the fault plane, for all strikes, dips, rakes, depths, lengths and elastic moduli; it is linear in slip, additive over adjoining patches, unaffected by which other grid points are computed, moves and turns with the fault, and is given on the grid spanned by the origin and the two side vectors.',
 'inputs configurations histories','All fault geometries, moduli and observation grids.',
 'Only a network-dependent example exists.',
 'geoana/earthquake/oksar.py',[('Okada closed form','geoana/earthquake/oksar.py')],observe=['displacement_vector','simulation_grid'])
p('C27','Interferogram metadata, look vectors and maps are faithful',
 'An interferogram reports exactly the metadata assigned (converted to the documented types, dates in both formats); line-of-sight vectors are unit vectors with the assigned incidence at the reference point and do not depend on the other locations asked for; plotted maps place every pixel row by row from the location (the north-west corner of the map) with its scaled value, blank where no data exists, and leave the data unchanged.',
 'inputs histories','All shapes, pixel sizes, scalings, geometries and call sequences.',
 'The only test needs the network.',
 'geoana/earthquake/oksar.py',[('reshape, flip and mask of the data vector','geoana/earthquake/oksar.py')],observe=['properties','get_LOS_vector','plot_interferogram','plot_mask','plot_displacement'])
p('C28','2D plots show the data given and leave options untouched',
 'The 2D plotting helper interpolates the given scattered data (values, vector magnitudes) onto the requested grid covering the data extent, within the requested colour limits and number of contours on the requested scale, honouring mask, method, axis and style options for every combination of options; it returns the documented objects and never changes its arguments.',
 'inputs configurations','All combinations of options up to the bound.',
 'Tests exercise a few option combinations and only check types.',
 'geoana/plotting_utils.py',[('interpolator and option merging','geoana/plotting_utils.py')],observe=['plot2Ddata'])
p('C29','The library loads and works in every installation and import order',
 'Whichever geoana module is imported first, and whichever of the optional packages (matplotlib, utm) and compiled extensions are missing or cannot be loaded, every geoana module imports and offers all its public names, and everything that does not need the missing part gives exactly the results of the complete installation (to rounding where a compiled kernel is replaced). A function that needs a missing package prints which one is missing and does nothing; all others work. The reported configuration says whether the compiled extensions are in use, and importing changes no process-wide setting (floating-point error handling, random state, warnings, environment, plotting defaults).',
 'configurations schedules','All subsets of optional parts, all ways of missing, all first imports.',
 'The tests run in one installation with one import order.',
 'geoana/__init__.py geoana/utils.py geoana/earthquake/oksar.py geoana/plotting_utils.py geoana/kernels/__init__.py '+K+'potential_field_prism.py '+K+'tranverse_electric_reflections.py',[('guarded imports and the requires decorator','geoana/utils.py')],observe=['import','show_config','compiled','plot2Ddata','plot_interferogram','plot_mask','plot_displacement','get_LOS_vector'])
p('C30','Copied and pickled sources equal the original and are independent',
 'A deep copy of any source, and a source read back from a pickle of any protocol (in the same or in another process), reports the same parameters and gives bit for bit the same evaluations as the original, whatever assignments and evaluations came before; afterwards assignments to either one never show in the other, and both go on behaving like newly built sources with their current values.',
 'histories configurations','All source classes, ways of copying, and assignment and evaluation sequences around the copy.',
 'No test copies or pickles a source.',
 'geoana/em/base.py geoana/gravity.py geoana/shapes.py '+S+'wholespace.py '+S+'halfspace.py '+F+'layered.py geoana/earthquake/oksar.py',[('plain attribute dictionaries, inner sources',S+'halfspace.py')],observe=['copy.deepcopy','pickle','parameters and field methods of the copies'])
open(__import__('os').path.join(__import__('os').path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
