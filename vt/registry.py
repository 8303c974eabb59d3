'''The list of properties; tools/gen_files.py turns it into properties.jsonl and
MANIFEST.json.'''

ASSUMPTIONS = [
    'numpy, scipy, astropy, transforms3d and sherpa compute what they document',
    'floating point comparisons use tolerances that are orders of magnitude above round-off',
    'statistical oracles reject only at |z| > 6.5 or p < 1e-9, so that a different but '
    'equally valid use of the random stream does not raise an alarm',
]
DEFAULT_RULE = ('Each case is one Hypothesis example of one sub-check (a set of generated arguments; '
                'bulk arrays come from a numpy generator seeded with a drawn integer). '
                'A case is non-trivial unless the sub-check marks it as one that could not have '
                'failed (no photon interacts, empty layout, identity operation, ...); distinct '
                'means distinct argument lists.')
RULES = {}

P = []


def prop(id, title, statement, over, text, why, files, mechanism, modules,
         technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, modules=modules, technique=technique,
                  note=note, state=state, observe=observe))


prop('C01', 'Photon lists stay valid through any instrument',
     'Running any photon list through any sequence, parallel arrangement or stack of the supplied optical elements returns the same photons in the same order, with unit-length directions, valid homogeneous coordinates, and real unit polarization vectors perpendicular to the direction for every photon that can still be detected. '
     'Every probability stays within 0..1 and never increases, and source properties such as time and energy are never altered.',
     ['inputs', 'configurations', 'histories'],
     'Every photon list (any directions, energies, polarizations, probabilities, including photons that miss everything) and every randomly assembled instrument of elements in random positions.',
     'Tests trace a few hand-made photons through one element at a time; the invariant has to survive every combination and order of elements and every ray.',
     ['marxs/optics/base.py', 'marxs/optics/*.py', 'marxs/simulator/simulator.py'],
     [('result columns are assigned only to intersecting photons, probabilities are multiplied', 'marxs/optics/base.py:_assign_col_value, OpticalElement.process_photons'),
      ('new directions are normalised / rotated by proper rotations', 'marxs/optics/grating.py, mirror.py, scatter.py, multiLayerMirror.py')],
     ['c01_table'], 'random instrument generation with invariants after every step (Hypothesis)',
     'Invariants checked after every element of randomly composed instruments; bounded by the generated sizes.')

prop('C02', 'Photons that miss an element pass through unchanged',
     'An optical element only ever changes photons that hit its active area: a photon whose ray does not cross the element leaves with all its properties unchanged and marked as not having hit it. '
     'Only elements documented as blocking (baffles) or as global act on photons that miss.',
     ['inputs', 'configurations'],
     'Every element class, every placement and every mix of hitting and missing rays.',
     'Tests check one or two missing photons for a few elements; any mask error only shows on mixed photon lists.',
     ['marxs/optics/base.py', 'marxs/optics/baffles.py', 'marxs/simulator/simulator.py'],
     [('the intersect mask limits all writes', 'marxs/optics/base.py:OpticalElement.process_photons')],
     ['c01_table'], 'differential check against an independent hit test (Hypothesis)',
     'Hit/miss decided by an independent ray-plane oracle, rays within 1e-9 of an edge are excluded.')

prop('C03', 'Rays hit flat elements exactly where they cross their active area',
     'For a flat element of any position, orientation and size, a ray is reported as intersecting if and only if, travelling forward, it crosses the rectangle the element covers; the reported point lies on both the ray and the plane. '
     'The reported local coordinates are the absolute distances from the element centre along its own y and z directions, and no coordinates are reported for rays that miss.',
     ['inputs', 'configurations'],
     'All placements given as matrix or as position, orientation and zoom, and all rays including parallel and backward ones.',
     'Tests probe a handful of axis-aligned rays; wrong scaling, sign or edge handling appears only for general placements.',
     ['marxs/math/geometry.py', 'marxs/base/base.py'],
     [('ray-plane intersection', 'marxs/math/geometry.py:FinitePlane.intersect'),
      ('position keywords are parsed to an affine matrix', 'marxs/base/base.py:_parse_position_keywords')],
     ['c03_geometry'], 'independent ray tracing oracle on random placements (Hypothesis)',
     'Oracle solves the intersection in local coordinates with an independent formula.')

prop('C04', 'Rays hit cylindrical elements at their nearest forward crossing',
     'For a cylindrical element of any placement, elliptical profile and angular range, a ray is reported as intersecting exactly when it crosses the wall inside the angular and length limits when travelling forward, and the reported point is the nearest such crossing. '
     'Reported angle and length coordinates, the drawn surface and the local surface directions all describe that same wall.',
     ['inputs', 'configurations'],
     'All placements, angular limits (including ranges that cross 180 degrees or cover the full circle) and rays from inside and outside.',
     'Tests use a few rays on unit cylinders; choosing the right one of two crossings under limits needs general rays.',
     ['marxs/math/geometry.py', 'marxs/math/utils.py'],
     [('quadratic solution and choice of crossing', 'marxs/math/geometry.py:Cylinder.intersect'),
      ('cyclic angle comparison', 'marxs/math/utils.py:angle_between')],
     ['c03_geometry'], 'independent ray tracing oracle on random placements (Hypothesis)',
     'Oracle enumerates both crossings in local coordinates; borderline cases (1e-7) are excluded.')

prop('C05', 'Moving the instrument together with the rays changes nothing else',
     'If every element of an instrument and every incoming ray are moved and rotated by the same rigid motion, then positions, directions and polarizations of the outgoing rays move with it, while probabilities, orders, local coordinates, pixel numbers and identifiers stay the same. '
     'The result of a simulation therefore only depends on relative placement, never on the absolute coordinate system.',
     ['inputs', 'configurations'],
     'All rigid motions, placements, rays and random streams, for every positioned element type and for arrays and stacks of them.',
     'A metamorphic relation over pairs of simulations; tests only simulate in the standard orientation.',
     ['marxs/optics/*.py', 'marxs/math/geometry.py', 'marxs/simulator/simulator.py'],
     [('all calculations use the vectors of the position matrix', 'marxs/math/geometry.py:Geometry.__getitem__')],
     ['c05_metamorphic'], 'metamorphic testing with the same random stream (Hypothesis)',
     'Both runs use an identical random stream; tolerances 1e-7 relative to scene size.')

prop('C06', 'Photons are traced independently of each other',
     'For elements without random behaviour, the result for a photon does not depend on which other photons are in the list, in what order they are listed, or whether the list is processed at once or in pieces. '
     'Repeating a simulation from the same random state on an equal copy of the input gives an identical result.',
     ['inputs', 'configurations'],
     'All photon lists, permutations and partitions, for every deterministic element and for arrays and sequences of them; every random seed for repeatability.',
     'Tests use one photon list per element; vectorisation errors show only when batches are compared.',
     ['marxs/optics/*.py', 'marxs/simulator/simulator.py', 'marxs/math/geometry.py'],
     [('vectorised operations act row by row', 'marxs/optics/*.py')],
     ['c05_metamorphic'], 'metamorphic testing: subset, permutation, repetition (Hypothesis)',
     'Compares full outputs row by row.')

prop('C07', 'Diffracted photons obey the grating equation',
     'For any flat grating, groove rotation, constant or position-dependent period, transmission or reflection, the momentum component along the grooves is unchanged, the component across the grooves changes by order times wavelength over period, and the photon stays on the transmitted (or reflected) side. '
     'The sign of the order follows the documented convention of each grating type, order zero leaves the ray direction unchanged, and the recorded order and blaze angle describe that event.',
     ['inputs', 'configurations'],
     'All grating placements, groove angles, periods, energies, orders and incidence angles with a propagating order.',
     'Tests cover a few geometries and orders; the vector equation and sign conventions must hold for all angles at once.',
     ['marxs/optics/grating.py', 'marxs/__init__.py'],
     [('momentum components in the groove system', 'marxs/optics/grating.py:FlatGrating.diffract_photons')],
     ['c07_grating'], 'vector grating equation as independent oracle (Hypothesis)',
     'Oracle recomputes the outgoing wave vector from placement, groove angle, order and energy.')

prop('C08', 'Diffraction orders are drawn with the tabulated probabilities',
     'Orders handed out by an order selector always belong to its list, and an order with zero probability is never drawn. '
     'The frequency of each order matches its tabulated probability for that energy (and angle), and the photon survives with the summed probability over all orders.',
     ['inputs', 'configurations'],
     'All order lists, probability tables (including rows with zeros and sums below one), energies and angles.',
     'Tests check single tables and large samples of one energy; table lookup errors depend on energy and table contents.',
     ['marxs/optics/grating.py', 'marxs/missions/mitsnl/catgrating.py'],
     [('weighted choice', 'marxs/optics/grating.py:OrderSelector, EfficiencyFile'),
      ('interpolated table', 'marxs/missions/mitsnl/catgrating.py:InterpolateEfficiencyTable')],
     ['c08_orders'], 'random tables against exact expectations and chi-square bounds (Hypothesis)',
     'Exact checks on support and total probability; statistical checks at p<1e-9.')

prop('C09', 'Polarization is transported without being distorted',
     'Polarization vectors built from angles are unit vectors perpendicular to the ray with the requested angle, zero pointing as close to +y as possible. '
     'When a ray is bent without polarizing, the vector turns with it: the component perpendicular to the plane of bending is unchanged, the in-plane component rotates by the bending angle, lengths and relative angles are preserved and undoing the bend restores the original vector.',
     ['inputs'],
     'All ray directions before and after, and all polarization angles, with or without physical units.',
     'Tests use a few axis-aligned directions; the construction has singular directions and sign choices.',
     ['marxs/math/polarization.py', 'marxs/optics/*.py'],
     [('angle to vector', 'marxs/math/polarization.py:polarization_vectors'),
      ('parallel transport', 'marxs/math/polarization.py:paralleltransport_matrix, parallel_transport')],
     ['c09_polarization'], 'independent vector oracle and round trips (Hypothesis)',
     'Oracle uses the minimal rotation between directions (Rodrigues).')

prop('C10', 'Arrays place every element where global and local positions combine',
     'In an array of parallel elements, each element sits where the global position, the global misalignment, its own position, its own misalignment and the common offset combine in the documented order, gets its own entry of every per-element setting and its own identification number. '
     'Changing a misalignment affects exactly the element or array it was given for, regenerating is repeatable, and moving the reference centre leaves every element where it was.',
     ['inputs', 'configurations', 'histories'],
     'All array placements, element positions given as matrices or as keyword lists, misalignments, per-element arguments and sequences of edits and regenerations.',
     'Tests check a few translations; the order of eleven transformations only matters when rotations, offsets and zooms mix.',
     ['marxs/simulator/simulator.py', 'marxs/base/base.py'],
     [('composition of transformations', 'marxs/simulator/simulator.py:Parallel.generate_elements'),
      ('reference centre', 'marxs/simulator/simulator.py:Parallel.move_center')],
     ['c10_parallel'], 'reference model of the placement and stateful edits (Hypothesis)',
     'Model multiplies the documented transformations independently.')

prop('C11', 'Containers run every element once, in order, and can be searched',
     'A container passes photons through each of its elements exactly once and in the given order, and runs every pre- and post-processing step exactly once before or after each element. '
     'Searching an instrument of any nesting returns exactly the elements of the requested type, and the index of the first top-level element that contains one.',
     ['configurations', 'inputs'],
     'All nested trees of sequences and arrays of elements with all combinations of steps and search options.',
     'Tests use two or three levels; search and step semantics must hold for all trees.',
     ['marxs/simulator/simulator.py', 'marxs/optics/aperture.py', 'marxs/optics/base.py'],
     [('loop over elements and steps', 'marxs/simulator/simulator.py:BaseContainer.__call__'),
      ('depth-first search', 'marxs/simulator/simulator.py:BaseContainer.elements_of_class, first_of_class_top_level')],
     ['c11_containers'], 'random trees against a recorded call log and reference search (Hypothesis)',
     'Reference model walks the same generated tree.')

prop('C12', 'Sources emit photons as specified in number, time, energy and polarization',
     'For a given exposure and effective area a source emits photons whose number follows the flux, whose times increase inside the exposure, and whose energies and polarization angles follow the specification (fixed value, table, spectrum, or function), in any compatible unit. '
     'A constant or Poisson-distributed rate always terminates, gives the expected count within statistics, and the requested polarization angles are reproduced.',
     ['inputs', 'configurations'],
     'All fluxes (constant, function), exposures, areas, spectra, polarization specifications and units.',
     'Tests sample a few rates and spectra; unit conversions and low rates form a wide input space.',
     ['marxs/source/basesources.py', 'marxs/source/labSource.py'],
     [('photon times from flux', 'marxs/source/basesources.py:Source.generate_times, poisson_process'),
      ('energies and polarization', 'marxs/source/basesources.py:Source.generate_energies, generate_polarization')],
     ['c12_source'], 'generated source specifications with exact and statistical oracles (Hypothesis)',
     'Exact oracles for deterministic specifications, 6.5 sigma bounds for random ones.')

prop('C13', 'Sources fill exactly their region on the sky or in the lab',
     'Every photon of a point, disk, Gaussian, spherical disk or user-defined sky source carries sky coordinates inside the specified region for any position on the sky, including near the poles and for any coordinate frame. '
     'Inside the region the photons follow the specified surface brightness, and laboratory sources fill their cone or aperture uniformly with unit-length directions away from the source.',
     ['inputs', 'configurations'],
     'All source positions, frames, region sizes and shapes.',
     'Tests look at single positions and small radii.',
     ['marxs/source/basesources.py'],
     [('sky coordinates drawn in an offset frame', 'marxs/source/basesources.py:RadialDistributionSource, DiskSource, SphericalDiskSource, GaussSource, SymbolFSource')],
     ['c13_sky'], 'containment oracle by angular separation and distribution bounds (Hypothesis)',
     'Angular separations are recomputed with an independent formula.')

prop('C14', 'Pointing maps the sky rigidly into instrument coordinates',
     'Any pointing turns sky positions into ray directions such that angles between sources are preserved, a source at the pointing direction arrives along the optical axis, offsets in the sky appear with the documented handedness and roll, and a different reference orientation only rotates the result. '
     'Polarization angles on the sky (north through east) become polarization vectors accordingly, and jitter moves each photon by the specified Gaussian amount around the true direction.',
     ['inputs', 'configurations'],
     'All pointing directions, roll angles, frames, source positions, reference transformations and jitter amplitudes.',
     'Tests use few pointings, mostly at roll zero.',
     ['marxs/source/pointing.py'],
     [('sky to mission transformation', 'marxs/source/pointing.py:FixedPointing.photons_dir, photons_pol'),
      ('jitter', 'marxs/source/pointing.py:JitterPointing.process_photons')],
     ['c14_pointing'], 'independent spherical trigonometry oracle (Hypothesis)',
     'Oracle builds the tangent basis on the sphere directly; poles excluded within 1e-6 deg.')

prop('C15', 'Apertures distribute photons uniformly over exactly their area',
     'Every photon entering an aperture starts on the surface of the opening, inside its outline (rectangle, full circle, ring or sector), in an unbiased, uniform way, and its probability is the projected fraction of the area it sees, never negative. '
     'The stated area is the geometric area, and a group of apertures shares the photons in proportion to area, labels each photon with the opening it went through and applies steps around each opening.',
     ['inputs', 'configurations'],
     'All placements, sizes, ring and sector limits, groupings and incoming directions.',
     'Tests look at one or two openings; sector limits, offsets and grouping interact.',
     ['marxs/optics/aperture.py', 'marxs/math/geometry.py'],
     [('positions drawn in local coordinates', 'marxs/optics/aperture.py:RectangleAperture, CircleAperture'),
      ('choice of opening', 'marxs/optics/aperture.py:MultiAperture.__call__')],
     ['c15_aperture'], 'containment, area and uniformity oracles (Hypothesis)',
     'Containment is exact; uniformity at 6.5 sigma.')

prop('C16', 'Lenses focus parallel rays to the point set by their direction',
     'A perfect lens sends all parallel rays through a single point one focal length along the ray direction from its optical centre, wherever they hit, also for segments mounted off the optical axis, and the reflectivity is evaluated for each photon at its energy and grazing angle and applied twice. '
     'A thin lens deflects each ray towards the axis by the hit distance over the focal length and does not bend rays through its centre.',
     ['inputs', 'configurations'],
     'All placements, focal lengths, incidence directions, hit positions and reflectivity functions.',
     'Tests focus a few on-axis rays.',
     ['marxs/optics/mirror.py'],
     [('ray aimed at focus point', 'marxs/optics/mirror.py:PerfectLens.specific_process_photons'),
      ('thin lens rotation', 'marxs/optics/mirror.py:ThinLens.process_photon')],
     ['c16_lens'], 'ray convergence and deflection oracle (Hypothesis)',
     'Oracle computes focus points from placement and ray direction only.')

prop('C17', 'Detector coordinates, pixels and positions describe the same point',
     'For flat and cylindrical detectors of any placement and pixel size, the recorded local coordinates locate the 3-d hit position on the detector, and the pixel coordinates are those distances in units of pixels with (0, 0) the centre of the corner pixel. '
     'Every hit lies between half a pixel below zero and half a pixel above the last pixel, the detector describes its energy resolution consistently, and mismatched pixel sizes are reported to the user.',
     ['inputs', 'configurations'],
     'All detector placements, sizes, pixel sizes, resolutions and hit positions.',
     'Tests check the centre and a few pixels of square chips.',
     ['marxs/optics/detector.py', 'marxs/math/geometry.py'],
     [('pixel coordinates', 'marxs/optics/detector.py:FlatDetector, CircularDetector'),
      ('energy resolution', 'marxs/optics/detector.py:CCDRedistNormal')],
     ['c17_detector'], 'round trip between coordinates, pixels and space (Hypothesis)',
     'Independent reconstruction of the 3-d point from pixel numbers.')

prop('C18', 'Filters and baffles multiply probability by exactly what they state',
     'An energy filter multiplies the probability of each photon it acts on by the filter curve at that photon energy and changes nothing else; a filter with a position acts only on photons crossing it. '
     'A baffle removes exactly the photons that do not pass its opening, and filter curves that leave the range 0..1 are refused rather than applied.',
     ['inputs', 'configurations'],
     'All filter curves, energies, placements and rays; invalid curves.',
     'Tests use constant filters and a few rays.',
     ['marxs/optics/filter.py', 'marxs/optics/baffles.py', 'marxs/optics/base.py'],
     [('probability update', 'marxs/optics/filter.py, marxs/optics/base.py:_assign_col_value'),
      ('blocking of missing photons', 'marxs/optics/baffles.py:Baffle.process_photons')],
     ['c18_filter'], 'direct reference computation (Hypothesis)',
     'Exact arithmetic comparison.')

prop('C19', 'Scatter deflects rays by the stated random angles only',
     'Scattering elements turn each ray by a random angle with the specified Gaussian width: radial mirror scatter separately in the plane of reflection and perpendicular to it, generic scatter with a random azimuth, or by user-supplied angles. '
     'The recorded angle is the angle by which the ray was turned, position and energy stay the same, and zero width means no change.',
     ['inputs', 'configurations'],
     'All placements, widths (constant or per photon), ray directions and hit positions.',
     'Tests check widths for one geometry; directions of the deflection are not checked for general rays.',
     ['marxs/optics/scatter.py'],
     [('rotation around scatter axes', 'marxs/optics/scatter.py')],
     ['c19_scatter'], 'geometric and statistical oracle (Hypothesis)',
     'Angles are re-measured from the rays; widths tested at 6.5 sigma.')

prop('C20', 'Multilayer and Brewster mirrors reflect by the law of reflection',
     'A flat reflecting mirror sends each ray to the mirror image direction about its normal, keeps it on the same side, and returns a normalised polarization perpendicular to the new ray whose s and p parts follow the reflectivity for each. '
     'The reflected probability is the tabulated or angle-dependent reflectivity weighted with the polarization, and never leaves 0..1.',
     ['inputs', 'configurations'],
     'All placements, incidence directions, energies, polarizations and reflectivity tables.',
     'Tests cover 45 degree reflection for a few photons.',
     ['marxs/optics/multiLayerMirror.py'],
     [('reflection and polarization', 'marxs/optics/multiLayerMirror.py:FlatBrewsterMirror, FlatMultiLayerMirror')],
     ['c20_multilayer'], 'vector reflection oracle (Hypothesis)',
     'Oracle decomposes the polarization into s and p parts independently.')

prop('C21', 'Rowland torus equations are mutually consistent',
     'For any torus shape and placement, points produced from the angles lie on the implicit surface, converting points to angles and back is the identity, and the normal vector is perpendicular to the surface and of unit length. '
     'Solving for a point on the torus along a coordinate or a line returns a point that lies on that line and on the torus.',
     ['inputs', 'configurations'],
     'All radii (including spindle tori), placements, angles and lines.',
     'Tests use few tori and angles; the inverse has quadrant and branch choices.',
     ['marxs/design/rowland.py'],
     [('quartic, parametric form, inverse and normal', 'marxs/design/rowland.py:RowlandTorus')],
     ['c21_rowland'], 'round trips and implicit-equation oracle (Hypothesis)',
     'Tolerances scaled with the torus size.')

prop('C22', 'Layouts of elements on the Rowland torus are complete and collision free',
     'Arrays that distribute elements over a Rowland torus place every element centre on the torus, orient it as specified, keep it inside the requested radial, angular or rectangular range, cover that range, and never let neighbouring elements overlap. '
     'Element numbers and distances follow the requested element size.',
     ['inputs', 'configurations'],
     'All tori, ranges, element sizes and orientations.',
     'Tests check a few layouts.',
     ['marxs/design/rowland.py', 'marxs/simulator/simulator.py'],
     [('element distribution', 'marxs/design/rowland.py:GratingArrayStructure, LinearCCDArray, RowlandCircleArray, RectangularGrid, CircularMeshGrid')],
     ['c22_layout'], 'geometric layout oracle (Hypothesis)',
     'Coverage and distance limits computed independently.')

prop('C23', 'Rowland spectrometer designs meet their defining geometry',
     'The recipes that derive tori from blaze angle, distance and channel offsets return geometries in which the focal point and the gratings lie on the same Rowland circle, the requested distances and angles are reproduced, and mirrored channels are exact mirror images. '
     'Offset channels are shifted copies of the torus of their side.',
     ['inputs', 'configurations'],
     'All design distances, angles and channel spacings.',
     'Tests check one or two designs.',
     ['marxs/design/rowland.py'],
     [('design formulas', 'marxs/design/rowland.py:design_tilted_torus, double_rowland_from_channel_distance, add_offset_double_rowland_channels')],
     ['c21_rowland'], 'geometric identities on generated designs (Hypothesis)',
     'Identities derived from the definition of a tilted Rowland circle.')

prop('C24', 'Misalignments move elements exactly as stated and reset exactly',
     'Each tolerancing operation shifts, rotates or scatters the selected elements by exactly the given amounts about the documented centre, leaves everything else untouched, and calling it with zeros restores the nominal instrument. '
     'Repeated calls do not accumulate, random misalignments have the stated width and are independent per element.',
     ['inputs', 'configurations', 'histories'],
     'All instruments, amounts, and sequences of tolerancing calls.',
     'Tests apply single moves; accumulation and shared state only appear over histories.',
     ['marxs/design/tolerancing.py', 'marxs/simulator/simulator.py', 'marxs/design/uncertainties.py'],
     [('moves', 'marxs/design/tolerancing.py:moveglobal, moveindividual, moveelem, wiggle, varyperiod, varyorderselector, varyattribute')],
     ['c24_tolerance'], 'stateful sequences against a reference model of positions (Hypothesis)',
     'Model composes expected positions from the nominal ones.')

prop('C25', 'A tolerance sweep reports each configuration it was asked for',
     'A sweep over misalignment parameters evaluates every requested parameter set once, in order, on the same incoming photons, and reports the parameters together with figures that equal those of a direct simulation of that configuration. '
     'The input photons and the nominal instrument are left as they were, and derived tables (lists of configurations, one parameter at a time, plotted lines, colours by order) contain exactly the matching rows.',
     ['inputs', 'configurations', 'histories'],
     'All parameter lists, instruments, sweeps and analysis functions.',
     'Tests run one small sweep.',
     ['marxs/design/tolerancing.py'],
     [('sweeps', 'marxs/design/tolerancing.py:run_tolerances, run_tolerances_for_energies, CaptureResAeff, generate_6d_wigglelist, select_1dof_changed')],
     ['c25_sweep'], 'differential testing against direct simulation (Hypothesis)',
     'Deterministic instruments; exact comparison.')

prop('C26', 'Spectral figures of merit equal their definition',
     'Resolving power, effective area, fraction of detected photons and averages computed from photon lists equal their definitions (sigma-clipped position statistics, sums of probabilities) evaluated directly on the photon positions and probabilities, for every order and energy. '
     'They do not depend on the order in which photons are listed; areas, captured summaries and simulated resolving powers do not depend on photons of zero probability; and undefined cases are reported as not-a-number or masked instead of a misleading value.',
     ['inputs'],
     'All photon lists, order lists, weights and energies.',
     'Tests use few synthetic distributions.',
     ['marxs/analysis/gratings.py', 'marxs/analysis/analysis.py'],
     [('figures of merit', 'marxs/analysis/gratings.py')],
     ['c26_analysis'], 'reference implementation (Hypothesis)',
     'Independent weighted statistics.')

prop('C27', 'Projection, facet tables and focus finding describe the traced rays',
     'Projecting photon positions on a plane gives the coordinates of the foot of the perpendicular along the directions of that plane and changes nothing else; facet tables list every facet once, under the identifier found in photon lists, with its position, projected position, radius and angle. '
     'The detector position of best focus found for a bundle of rays, in any orientation, is never worse than any other position, and searching for it does not alter the photons.',
     ['inputs', 'configurations'],
     'All ray bundles, planes and instruments.',
     'Tests use simple bundles.',
     ['marxs/analysis/coords.py', 'marxs/analysis/analysis.py'],
     [('projection', 'marxs/analysis/coords.py:ProjectOntoPlane, facet_table'),
      ('best focus', 'marxs/analysis/analysis.py:find_best_detector_position')],
     ['c27_coords'], 'independent projection oracle and optimality probes (Hypothesis)',
     'Optimality is probed at random alternative positions.')

prop('C28', 'Response files survive writing, reading and regrouping',
     'Effective-area and redistribution files written and read back describe the same energies, areas, channel bounds and matrix, for any sparsity pattern and grouping of channels. '
     'Expanding the compressed storage and compressing a full matrix are inverse up to elements below the threshold, every response can be looked up by energy or wavelength before and after writing, and the mandatory keywords of the format are present and consistent, or the file is refused.',
     ['inputs', 'configurations', 'histories'],
     'All matrices (including empty rows, several groups per row, full rows), channel numbering and energy grids.',
     'Tests read two example files.',
     ['marxs/reduction/ogip.py'],
     [('sparse row storage', 'marxs/reduction/ogip.py:RMF'),
      ('header keywords', 'marxs/reduction/ogip.py:OgipFile, ARF')],
     ['c28_ogip'], 'round trips on generated matrices (Hypothesis)',
     'Files go to a scratch directory; matrices up to 40x60.')

prop('C29', 'Redistribution matrices conserve photons and follow their line profile',
     'Redistribution matrices generated from a Gaussian energy resolution or from tabulated line-spread parameters put each photon into channels with total probability one (up to the part of the line falling outside the channel range), and every element equals the integral of the line profile over that channel. '
     'Energy or wavelength grids in any compatible unit give the same physical answer.',
     ['inputs', 'configurations'],
     'All grids, widths and parameter tables.',
     'Tests compare one matrix.',
     ['marxs/reduction/ogip.py', 'marxs/reduction/lsfparm.py'],
     [('Gaussian redistribution', 'marxs/reduction/ogip.py:RMF.from_Gauss_sigma'),
      ('line spread parameterisation', 'marxs/reduction/lsfparm.py')],
     ['c29_rmf'], 'analytic line profile oracle (Hypothesis)',
     'Oracle integrates the profile with scipy.')

prop('C30', 'Order sorting keeps its bookkeeping of window and loss consistent',
     'For order sorting by detected energy, the fraction of photons kept for an order equals the probability of the detector response inside its window, windows of neighbouring orders never double count, and wider windows never keep fewer photons. '
     'Applying the sorting to an effective-area file multiplies it by exactly that fraction and records what was done.',
     ['inputs', 'configurations'],
     'All detector resolutions, grating orders, wavelength grids and window settings.',
     'Tests use one resolution table.',
     ['marxs/reduction/osip.py', 'marxs/optics/detector.py'],
     [('order windows and factors', 'marxs/reduction/osip.py:OSIPBase, FixedWidthOSIP, FixedFractionOSIP, FractionalDistanceOSIP')],
     ['c30_osip'], 'normal-distribution oracle and metamorphic relations (Hypothesis)',
     'Oracle integrates the normal response directly.')

prop('C31', 'Tables with columns stored as keywords behave like plain tables',
     'A table that stores constant columns as header keywords returns the values last assigned to a column, whether these are constant or varying, through any sequence of assignments. '
     'Column lists, rows and lengths agree with a plain table holding the same values.',
     ['histories', 'inputs'],
     'All sequences of constant and varying assignments and look-ups.',
     'Tests do single assignments; stale values need a history.',
     ['marxs/reduction/ogip.py'],
     [('keyword or column storage', 'marxs/reduction/ogip.py:ColOrKeyTable')],
     ['c31_colkey'], 'stateful testing against a dictionary model (Hypothesis)',
     'Histories of up to 20 operations.')

prop('C32', 'Random draws follow any tabulated probability density',
     'Values drawn from a tabulated density always fall in bins with non-zero probability, inside the bin limits, and each bin receives photons in proportion to density times width, for any unequal binning and dynamic range. '
     'Drawing the upper bin edges only, or sorting the table internally, does not change the distribution, and invalid tables are refused.',
     ['inputs', 'configurations'],
     'All bin edges, densities (with zeros and large dynamic range) and options.',
     'Tests use two fixed tables.',
     ['marxs/math/random.py'],
     [('inverse lookup of the cumulative density', 'marxs/math/random.py:RandomArbitraryPdf')],
     ['c32_random'], 'exact support check and chi-square bounds (Hypothesis)',
     'Statistical rejection at p<1e-9.')

prop('C33', 'Grating support structures diffract and absorb consistently',
     'A grating facet made of a fine grating, a cross-dispersing support and a coarse support lets each photon pass with the product of the stated efficiencies and open fractions, and combines both diffractions into one consistent direction. '
     'Shadowing by support bars grows with bar width and with incidence angle, never leaves 0..1, and interpolated efficiency tables reproduce the table at its nodes.',
     ['inputs', 'configurations'],
     'All bar dimensions (in any unit), incidence angles, energies and tables.',
     'Tests check one geometry at normal incidence.',
     ['marxs/missions/mitsnl/catgrating.py'],
     [('facet stack', 'marxs/missions/mitsnl/catgrating.py:CATL1L2Stack, L1, L2, L2Abs, QualityFactor, InterpolateEfficiencyTable')],
     ['c33_cat'], 'reference computation of open fractions and table interpolation (Hypothesis)',
     'Independent formulas for shadowing; table nodes exact.')

prop('C34', 'Bending and chirping gratings keeps them in place and in focus',
     'Bending a grating to a radius leaves its centre, its grooves and its normal at the centre unchanged and wraps its surface on a cylinder of that radius, so that it covers the same region as the flat grating when seen from the axis of the cylinder. '
     'Chirping a grating changes its period with position so that rays through any part of it reach the detector where the central ray goes, and leaves order selection as it was.',
     ['inputs', 'configurations'],
     'All grating placements, radii, energies and orders.',
     'Tests check one placement.',
     ['marxs/design/bendgratings.py'],
     [('bending and chirp search', 'marxs/design/bendgratings.py')],
     ['c34_bend'], 'ray-trace oracle on random gratings (Hypothesis)',
     'Optical path checked by tracing through the modified grating.')

prop('C35', 'Chandra aspect and chip coordinates are consistent',
     'The dithered pointing follows the stated periodic pattern with the given amplitudes, periods and phases around the nominal direction, and the aspect solution it writes describes the pointing actually used. '
     'Chip, tiled-detector and sky coordinates written for detected photons agree with each other and with the photon positions for every chip and detector offset.',
     ['inputs', 'configurations'],
     'All times, dither settings, pointings, chips and photon positions.',
     'Tests check one dither and a few chips.',
     ['marxs/missions/chandra/dither.py', 'marxs/missions/chandra/det_acis.py', 'marxs/missions/chandra/data.py'],
     [('dither pattern', 'marxs/missions/chandra/dither.py:LissajousDither'),
      ('chip coordinates', 'marxs/missions/chandra/det_acis.py:ACIS')],
     ['c35_chandra'], 'closed-form dither oracle and coordinate round trips (Hypothesis)',
     'Oracle evaluates the pattern in closed form.')

prop('C36', 'Visualisations show the geometry that is traced',
     'For any element and instrument the exported 3-d scene contains each element at the place, size and colour with which it is traced: boxes, surfaces, holes and tubes have the outline of the active area, and triangulations cover their region without gaps. '
     'Scene files are valid for every display setting and photon path, and drawing never changes the instrument.',
     ['inputs', 'configurations'],
     'All element types, placements, display settings and ray lists.',
     'Tests render one or two elements.',
     ['marxs/visualization/utils.py', 'marxs/visualization/threejs.py', 'marxs/visualization/threejsjson.py', 'marxs/visualization/x3d.py', 'marxs/visualization/mayavi.py', 'marxs/math/geometry.py'],
     [('triangulation and display settings', 'marxs/visualization/utils.py'),
      ('scene export', 'marxs/visualization/threejs.py, threejsjson.py, x3d.py')],
     ['c36_visualization'], 'area and containment oracles on exported geometry (Hypothesis)',
     'x3d, threejs and json files are parsed; for mayavi (not installed) a stand-in records what is drawn.')

prop('C37', 'Contradictory or unknown set-ups are refused, records are truthful',
     'Elements, sources and arrays refuse unknown settings, contradictory or degenerate positions, invalid probabilities and inconsistent lists with an error instead of simulating something else, and equivalent ways to state a position give the same element. '
     'Version and origin tags and exposure records are written to the photon list and consistency checks accept exactly the compatible ones.',
     ['inputs', 'configurations'],
     'All combinations of valid and invalid settings.',
     'Tests check some error messages.',
     ['marxs/base/base.py', 'marxs/simulator/simulator.py', 'marxs/optics/*.py', 'marxs/source/*.py'],
     [('argument checks', 'marxs/base/base.py:MarxsElement.__init__, _parse_position_keywords'),
      ('tags', 'marxs/base/base.py:TagVersion, check_meta_consistent, check_energy_consistent')],
     ['c37_setup'], 'valid/invalid configuration generation (Hypothesis)',
     'Equivalence of specifications and refusal of generated invalid ones.')

prop('C38', 'Coordinate and line mathematics satisfies its algebraic laws',
     'Conversions between Euclidean and homogeneous coordinates are inverse, rotations from axis and angle or from vectors are proper rotations with the stated effect, angle comparisons respect the cycle of 360 degrees, and line-plane constructions are incident with the points that define them. '
     'Vectorised forms agree with one-at-a-time evaluation.',
     ['inputs'],
     'All vectors, angles, planes and lines including degenerate ones.',
     'Tests use fixed numbers.',
     ['marxs/math/utils.py', 'marxs/math/rotations.py', 'marxs/math/pluecker.py', 'marxs/utils.py'],
     [('helpers', 'marxs/math/utils.py, rotations.py, pluecker.py')],
     ['c38_math'], 'algebraic laws on generated vectors (Hypothesis)',
     'Direct algebraic identities.')

prop('C39', 'Recorded photon histories are faithful copies of each step',
     'A history recorder holds one copy of the requested property per processing step, in order and unaffected by later steps, and its formatted positions drop only consecutive identical positions. '
     'Moving photons along their rays changes nothing but their position, by exactly the given distance, and moving back restores it.',
     ['histories', 'inputs'],
     'All instruments, steps, tolerances and photon lists.',
     'Tests record one short history.',
     ['marxs/simulator/simulator.py'],
     [('history', 'marxs/simulator/simulator.py:KeepCol'),
      ('propagation', 'marxs/simulator/simulator.py:Propagator, propagate')],
     ['c39_history'], 'model of the history and round trips (Hypothesis)',
     'Model records the table itself at each step.')

prop('C40', 'Mission models reproduce their tabulated hardware',
     'The bundled mission models (Chandra HETGS, Lynx, SPO based mirrors and booms) place and label their hardware as tabulated: every facet, shell and mirror module sits at its tabulated position with its tabulated properties. '
     'Photons are weighted with the efficiency of the shell they go through, and structures in the beam remove exactly the photons that run into them.',
     ['inputs', 'configurations'],
     'All facets, shells, modules and rays through the models.',
     'Tests run single simulations end to end.',
     ['marxs/missions/chandra/hess.py', 'marxs/missions/lynx/mirror.py', 'marxs/missions/athena/spo.py', 'marxs/missions/arcus/boom.py', 'marxs/missions/chandra/hrma_py.py'],
     [('tables to elements', 'marxs/missions/chandra/hess.py:HETG; marxs/missions/lynx/mirror.py; marxs/missions/athena/spo.py'),
      ('boom', 'marxs/missions/arcus/boom.py:ThreeSidedBoom')],
     ['c40_missions'], 'table-driven oracle and ray-cylinder distance oracle (Hypothesis)',
     'Arcus and Chandra parts that need external calibration data or MARX C code are outside.')

prop('C41', 'Objects never influence each other',
     'Elements, arrays, containers, sources and pointings are independent of each other: creating, using, moving, misaligning or displaying one of them never changes how another one treats photons, where it is, or how it is displayed, even if both are made from the same settings. '
     'Settings passed in stay as they were, and an object that has been used before gives, for the same input and random state, the same result as a new one.',
     ['histories', 'configurations'],
     'Every class of element, array, container, source and pointing, every other object made and changed in between, and every order of uses.',
     'Tests make one object, use it once and throw it away; shared class attributes, default arguments and shallow copies only show when several objects live in one process.',
     ['marxs/base/base.py', 'marxs/simulator/simulator.py', 'marxs/math/geometry.py', 'marxs/optics/*.py', 'marxs/source/*.py', 'marxs/design/*.py'],
     [('class attributes are copied for each object', 'marxs/base/base.py:MarxsElement.__init__; marxs/math/geometry.py:Geometry.__init__, Cylinder.__init__'),
      ('settings are copied before they are used', 'marxs/simulator/simulator.py:Parallel.__init__, generate_elements')],
     ['c42_arcus', 'c41_independence'], 'differential runs with and without other objects in between (Hypothesis)',
     'Bit-for-bit comparison of results from equal random states.')

prop('C42', 'Arcus follows its calibration database',
     'For any well-formed calibration database the Arcus model is what the database says: apertures, mirror modules and gratings of each of the requested channels sit at the tabulated (mirrored and shifted) positions with the tabulated properties and numbers, the CCDs follow the Rowland circle with the gaps set, numbered in order from -x to +x with the detector coordinate det_x increasing in the same direction, and photons are weighted with the product of all tabulated throughputs at their energy. '
     'Misalignment budgets move exactly the parts they name. Response files and summaries of simulations agree with the instrument: chip gaps, effective areas and zeroth order positions are those of rays through the model; photon lists carry the version of the database, and the filters and mirror of AXIS are weighted the same way.',
     ['inputs', 'configurations', 'files'],
     'All layouts, facet lists, throughput curves, channels, budgets, wavelengths and orders.',
     'The tests for Arcus need the (unpublished) database and are skipped or fail without it.',
     ['marxs/missions/arcus/*.py', 'marxs/missions/AXIS/AXIS.py', 'marxs/missions/athena/spo.py'],
     [('database to elements', 'marxs/missions/arcus/arcus.py:Aperture, SimpleSPOs, CATGratings, FiltersAndQE, DetCamera; marxs/missions/arcus/ralfgrating.py:CATfromMechanical'),
      ('response files', 'marxs/missions/arcus/arfrmf.py; marxs/missions/arcus/analyze_grid.py')],
     ['c42_arcus'], 'generated calibration databases against table-driven oracles and ray-tracing (Hypothesis)',
     'The real calibration database is not available offline; synthetic ones of the same format are used.')

prop('C43', 'The MARX mirror code is called and read correctly',
     'Whatever the MARX mirror code does with the photons is what happens to them in the photon list: it gets every photon once, with energy, time and tag and the ray in the coordinates of the mirror, and the position, direction, shell and losses it returns are found, in global coordinates, in the row of the same photon. '
     'All other columns stay with their photon, polarization is carried along with the ray, and the probability is that of the incoming photon, or zero for photons that are lost in the mirror. '
     'Failures of the code and missing parameter files are reported as errors.',
     ['inputs', 'configurations'],
     'All photon lists, tags, placements of the mirror, results and return codes of the C code.',
     'The only test needs the C library and is skipped without it.',
     ['marxs/optics/marx.py'],
     [('photon list to C and back', 'marxs/optics/marx.py:MarxMirror')],
     ['c43_marx'], 'stand-in for the C library with the same cffi interface, which records what it is given (Hypothesis)',
     'The C library is not available; the stand-in keeps order and number of photons, as the C code is documented to.')

MODULES = {p['id']: p['modules'] for p in P}
