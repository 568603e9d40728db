"""Source of properties.jsonl and MANIFEST.json (run tools/make.py)."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = state
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})


prop('C01', 'Placement keywords and homogeneous coordinates mean what they say',
     'Every element places local point x at position + orientation * (zoom * x), whichever '
     'combination of position, orientation, zoom or the equivalent 4x4 matrix is given, and '
     'refuses non-positive zooms, singular matrices and contradictory keywords. Conversions '
     'between Euclidean and homogeneous coordinates, distances and the translation, zoom and '
     'rotation builders preserve the geometric points and directions for every input.',
     ['inputs', 'configurations'],
     'all positions, zooms and orientations, all point coordinates and homogeneous weights',
     'tests place a few elements at a few hand-picked places; a wrong transposition or a keyword '
     'that is dropped only in one combination shows up only for generic values',
     ['marxs/base/base.py', 'marxs/math/geometry.py', 'marxs/math/utils.py'],
     [('keyword parsing', 'marxs/base/base.py:_parse_position_keywords'),
      ('coordinate conversion', 'marxs/math/utils.py:e2h,h2e'),
      ('affine builders', 'marxs/math/utils.py:translation2aff,zoom2aff,mat2aff')])

prop('C02', 'Ray and flat surface meet exactly where geometry says',
     'For any flat rectangular surface and any ray, a hit is reported exactly when the forward '
     'ray meets the closed rectangle; the reported point is the point where they meet and the '
     'local coordinates are its coordinates along the two sides measured from the centre. Misses '
     'carry no point, results of different rays never mix, inputs are not modified, and the local '
     'unit vectors are the orthonormal right-handed triple of the surface.',
     ['inputs', 'configurations'],
     'all ray origins and directions, all surface positions and sizes, generic orientations',
     'the hit decision is a set of inequalities on real inputs: edges, rays behind the surface '
     'and rotated surfaces form a continuum that a handful of rays cannot cover',
     ['marxs/math/geometry.py'],
     [('intersection', 'marxs/math/geometry.py:FinitePlane.intersect'),
      ('local base vectors', 'marxs/math/geometry.py:FinitePlane.get_local_euklid_bases')])

prop('C03', 'Ray and tube surface meet at the nearest valid forward point',
     'For a tube (also elliptical, moved, rotated, limited in angle) and any ray, the reported '
     'point is the first point along the forward ray that lies on the tube within its height and '
     'angular range, with local angle and height matching that point; otherwise a miss is '
     'reported. Results of different rays never mix.',
     ['inputs', 'configurations'],
     'all rays from inside and outside, all tube sizes and places, six kinds of angular range',
     'the two roots, the height cut and the angular cut interact; which root counts depends on '
     'inequalities on real inputs that tests sample at a few symmetric rays',
     ['marxs/math/geometry.py', 'marxs/math/utils.py'],
     [('intersection', 'marxs/math/geometry.py:Cylinder.intersect'),
      ('angular range', 'marxs/math/utils.py:angle_between'),
      ('surface', 'marxs/math/geometry.py:Cylinder.parametric_surface')])

prop('C04', 'Photon probabilities stay in [0, 1] and only shrink',
     'Whatever an element does, the probability of each photon it processes is multiplied by a '
     'factor between 0 and 1 that the physics of that element prescribes (filter curve at the '
     'photon energy, summed order efficiency, squared reflectivity, polarization component, '
     'multilayer profile), factors of successive elements multiply, and a factor outside of that '
     'range is refused with an error instead of being applied.',
     ['inputs', 'configurations'],
     'all initial probabilities, energies, filter and efficiency curves, all optical elements',
     'a weight that grows or turns negative for some energies biases every later result silently',
     ['marxs/optics/base.py', 'marxs/optics/filter.py', 'marxs/optics/mirror.py',
      'marxs/optics/grating.py', 'marxs/optics/multiLayerMirror.py'],
     [('weight update', 'marxs/optics/base.py:_assign_col_value'),
      ('filters', 'marxs/optics/filter.py'),
      ('mirror efficiency', 'marxs/optics/multiLayerMirror.py')])

prop('C05', 'Photons that miss an element are untouched; hits are moved onto it',
     'A photon that does not hit an element keeps every property it has (a baffle sets its '
     'probability to zero), and new columns stay unset for it; a photon that hits is moved to the '
     'intersection point and gets the element number, the local coordinates and all output '
     'columns of that element, while unrelated columns keep their values.',
     ['inputs', 'configurations'],
     'every optical element, every position of the photon relative to the element, mixed lists',
     'index bookkeeping between the photons that hit and the full list goes wrong only for '
     'particular mixtures of hits and misses',
     ['marxs/optics/base.py', 'marxs/optics/baffles.py', 'marxs/base/base.py'],
     [('processing', 'marxs/optics/base.py:OpticalElement.process_photons'),
      ('output columns', 'marxs/base/base.py:SimulationSequenceElement.add_output_cols'),
      ('stack', 'marxs/optics/base.py:FlatStack')])

prop('C06', 'Directions stay unit vectors and polarization stays transverse',
     'After any optical element the direction of every photon is a unit vector and a direction in '
     'homogeneous coordinates; the polarization vector is perpendicular to the new direction and '
     'keeps its length, for hits (transmitted, reflected, diffracted, scattered or focused) and '
     'for misses, whatever the direction of incidence and orientation of the element.',
     ['inputs', 'configurations'],
     'all incidence directions, polarizations, orientations and parameters of the elements',
     'errors in normalization or in the transport of polarization are tiny for the near-axis '
     'rays used in tests and accumulate along the light path',
     ['marxs/math/polarization.py', 'marxs/optics/grating.py', 'marxs/optics/mirror.py',
      'marxs/optics/scatter.py', 'marxs/math/utils.py'],
     [('parallel transport', 'marxs/math/polarization.py:paralleltransport_matrix'),
      ('gratings', 'marxs/optics/grating.py:FlatGrating.diffract_photons'),
      ('scattering', 'marxs/optics/scatter.py')])

prop('C07', 'Gratings obey the grating equation',
     'A diffracted photon keeps its direction component along the grooves and changes the one '
     'perpendicular to them (in the plane) by order times wavelength over the period at the place '
     'that is hit; it continues to the other side of a transmission grating and returns to the '
     'same side of a reflection grating. The sign convention of the orders is fixed to the grating '
     '(for critical-angle gratings: to the side of incidence), and the blaze angle is the angle to '
     'the normal in the plane perpendicular to the grooves.',
     ['inputs', 'configurations'],
     'all energies, periods, groove angles, orders that propagate, incidence directions and sides',
     'tests use near-normal incidence and one orientation, where errors in sign and normalization '
     'are invisible',
     ['marxs/optics/grating.py', 'marxs/__init__.py'],
     [('diffraction', 'marxs/optics/grating.py:FlatGrating.diffract_photons'),
      ('order sign', 'marxs/optics/grating.py:CATGrating.order_sign_convention')])

prop('C08', 'Diffraction orders are drawn from the given efficiencies',
     'An order selector only hands out orders that it was given and that have a positive '
     'probability, draws each in proportion to its probability for that photon (fixed list, '
     'efficiency file at the nearest energy, or table looked up at the wavelength and blaze angle '
     'of the photon), and returns the summed probability as the chance to survive. Lists that do '
     'not match, exceed 1 in total or are negative, and irregular tables, are refused; energies '
     'where nothing is transmitted give probability zero.',
     ['inputs', 'configurations'],
     'all probabilities, energies, blaze angles, random numbers and mixtures of photons',
     'tests compare a few sample means with loose tolerance; swapped columns for one energy, the '
     'wrong row or a bias of a rarely chosen order stay inside of the noise',
     ['marxs/optics/grating.py', 'marxs/missions/mitsnl/catgrating.py',
      'marxs/missions/mitsnl/tolerances.py', 'marxs/utils.py'],
     [('fixed list', 'marxs/optics/grating.py:OrderSelector'),
      ('file', 'marxs/optics/grating.py:EfficiencyFile'),
      ('table', 'marxs/missions/mitsnl/catgrating.py:InterpolateEfficiencyTable')])

prop('C09', 'Ideal lenses focus, thin lenses bend and mirrors reflect as specified',
     'An ideal lens sends every ray of a parallel beam, wherever it hits and from whichever side, '
     'through the point one focal length along the beam from its optical axis, with the squared '
     'reflectivity for the energy and a quarter of the deflection. A thin lens turns each ray towards '
     'its centre by distance over focal length within the plane of ray and centre, and a flat '
     'mirror reverses exactly the direction component along its normal.',
     ['inputs', 'configurations'],
     'all places and directions of incidence, focal lengths, axis offsets and orientations',
     'tests use on-axis beams and one orientation where sign, offset and normalization errors '
     'cancel',
     ['marxs/optics/mirror.py', 'marxs/optics/multiLayerMirror.py'],
     [('ideal lens', 'marxs/optics/mirror.py:PerfectLens'),
      ('thin lens', 'marxs/optics/mirror.py:ThinLens'),
      ('mirror', 'marxs/optics/multiLayerMirror.py:FlatBrewsterMirror')])

prop('C10', 'Detector coordinates, pixels and detected energies',
     'A flat detector reports the position on the chip in mm and in pixels such that pixel (0, 0) is '
     'centred half a pixel inside of the corner and the number of pixels is the size divided by '
     'the pixel size, rounded, with a warning if it is not an integer; a tube-shaped detector '
     'reports the angle and the height, and its pixels measure arc length and height. Photons that '
     'miss get no coordinates. A detector with limited energy resolution draws the detected '
     'energy, for the photons that hit and only for them, from a normal distribution around the '
     'true energy with the width tabulated for it, and leaves the true energy unchanged.',
     ['inputs', 'configurations'],
     'all pixel sizes, chip sizes, places, orientations, true energies and random numbers',
     'tests use one chip size and one row of photons that all hit; the energy redistribution is '
     'tested with statistics of one list only',
     ['marxs/optics/detector.py'],
     [('flat chip', 'marxs/optics/detector.py:FlatDetector'),
      ('tube', 'marxs/optics/detector.py:CircularDetector'),
      ('energy resolution', 'marxs/optics/detector.py:CCDRedistNormal')])

prop('C11', 'Apertures distribute photons evenly over their open area',
     'Every photon starts on the open part of the aperture (rectangle, or circle with optional '
     'inner radius and angular segment), evenly distributed over its area and independently of '
     'all other photons; its probability is multiplied with the cosine of the angle of incidence '
     '(zero from behind) and nothing else changes. The reported area is that of the open part, '
     'impossible circles are refused, and a group of apertures sends each photon through one of '
     'them in proportion to its area, marks it with the number of that aperture and reports the '
     'summed area.',
     ['inputs', 'configurations'],
     'all sizes, segments, orientations, photon directions and random numbers',
     'tests look at ranges of the drawn positions only; uneven distributions, rings, segments and '
     'unequal groups are hardly visible in samples',
     ['marxs/optics/aperture.py', 'marxs/math/geometry.py'],
     [('rectangle', 'marxs/optics/aperture.py:RectangleAperture'),
      ('circle', 'marxs/optics/aperture.py:CircleAperture'),
      ('group', 'marxs/optics/aperture.py:MultiAperture')])

prop('C12', 'Sources make photons at the times, energies and places asked for',
     'A source makes photons at the given constant flux or as a Poisson process over the full '
     'exposure (flux times area times exposure photons) and always returns; energies, '
     'wavelengths and polarization angles are the given constants, the values of the given '
     'function, or drawn from the tabulated spectrum in proportion to the width and density of each '
     'bin, in any units. Lab sources emit unit directions towards the opening they point at, with '
     'cones evenly filled in solid angle; functions that return the wrong number of values and '
     'tables that are not a spectrum are refused.',
     ['inputs', 'configurations'],
     'all fluxes, areas, exposure times, spectra, opening angles and random numbers',
     'tests look at the number of photons and ranges of one sample; wrong densities, the last bin, '
     'unit conversions and low fluxes stay hidden',
     ['marxs/source/basesources.py', 'marxs/source/labSource.py', 'marxs/math/random.py'],
     [('source', 'marxs/source/basesources.py:Source'),
      ('lab sources', 'marxs/source/labSource.py'),
      ('spectra', 'marxs/math/random.py:RandomArbitraryPdf')])

prop('C13', 'Sky sources and pointing give the right directions and polarizations',
     'A photon from a place on the sky enters in the direction opposite to that place as seen from '
     'the pointing and roll of the telescope, with the polarization vector given by its angle '
     'from North through East on the sky; the pointing is recorded in the header. Jitter turns '
     'each photon independently by a normally distributed angle about axes perpendicular to the '
     'optical axis, and extended sources (point, sphere, disk, Gauss, symbol) place photons at '
     'the drawn separation and position angle from their centre.',
     ['inputs', 'configurations'],
     'all places on the sky, pointings, rolls, reference transformations and random numbers',
     'tests use few pointings and loose statistics of the places, where roll, sign and distance '
     'errors cancel',
     ['marxs/source/pointing.py', 'marxs/source/source.py'],
     [('pointing', 'marxs/source/pointing.py:FixedPointing'),
      ('jitter', 'marxs/source/pointing.py:JitterPointing'),
      ('sources', 'marxs/source/source.py')])

prop('C14', 'Groups of elements place and number every member as specified',
     'A member of a group is where the place of the group, its misalignment, the place of the '
     'member and the common place and size put it, with misalignments of a member turning it about '
     'its own centre and misalignments of the group turning all members together; groups can be '
     'nested. Each member gets its own entry of the lists of arguments and the common arguments, '
     'and photons are marked with the number of the member that they hit. Moving the reference '
     'point of a group leaves all members where they are.',
     ['inputs', 'configurations'],
     'all places, sizes and misalignments of group and members, with generic rotations; any place '
     'a photon goes to',
     'tests shift groups along axes or use one misalignment at a time, where a wrong order of the '
     'eleven transformations gives the same result',
     ['marxs/simulator/simulator.py'],
     [('placement of members', 'marxs/simulator/simulator.py:Parallel.generate_elements'),
      ('reference point', 'marxs/simulator/simulator.py:Parallel.move_center')])

prop('C15', 'Sequences run their elements and extra steps in order and keep what is asked',
     'A sequence passes the photons through its elements in order, with every extra step run '
     'before (or after) each element, and hands on whatever each element returns. A recorder keeps '
     'an independent copy of its column at each step and gives the places of each photon in '
     'order, leaving out repeated ones only on request; all elements of a given class are found at '
     'any depth; photons are moved along their direction by the distance asked for.',
     ['inputs', 'configurations', 'histories'],
     'all sequences of up to 3 elements and steps, hierarchies of up to 3 levels, all recorded '
     'places and homogeneous weights',
     'tests run a handful of fixed sequences; orders, nested containers and shared columns are '
     'not varied',
     ['marxs/simulator/simulator.py'],
     [('sequence', 'marxs/simulator/simulator.py:BaseContainer.__call__'),
      ('recorder', 'marxs/simulator/simulator.py:KeepCol'),
      ('search', 'marxs/simulator/simulator.py:BaseContainer.elements_of_class'),
      ('moving photons', 'marxs/simulator/simulator.py:propagate')])

prop('C16', 'Rotations, lines, planes and cyclic angles follow their definitions',
     'A rotation built from a new x-axis and a second direction is a proper rotation that takes '
     'x there and keeps the second direction in the plane of x and y; rotations by an angle about '
     'an axis are right-handed. The point common to a line and a plane, the angle between them '
     'and the distance of two points are the geometric ones in any homogeneous scale, and a cyclic '
     'angle is between two others exactly when turning up from the first reaches it before the '
     'second.',
     ['inputs'],
     'all axes, angles within three turns, lines, planes and points',
     'tests check single values, where transposed rotations and wrong wraps at a full turn do not '
     'show',
     ['marxs/math/rotations.py', 'marxs/math/pluecker.py', 'marxs/math/utils.py'],
     [('rotations', 'marxs/math/rotations.py:ex2vec_fix,axangle2mat'),
      ('lines and planes', 'marxs/math/pluecker.py'),
      ('cyclic angles', 'marxs/math/utils.py:angle_between,anglediff')])

prop('C17', 'Polarization vectors and their transport follow the ray',
     'A polarization angle becomes a unit vector perpendicular to the ray, turned right-handed by '
     'that angle from the direction closest to +y (to +x for rays along y). When a ray changes '
     'direction, the polarization component perpendicular to both directions stays and the other '
     'one turns with the ray (scaled by the Jones matrix of the surface, if any), so that an '
     'unpolarizing change keeps length and perpendicularity; rays that do not change keep their '
     'polarization.',
     ['inputs'],
     'all directions, polarization angles, vectors and Jones matrices',
     'tests use a few directions along coordinate axes',
     ['marxs/math/polarization.py'],
     [('vectors from angles', 'marxs/math/polarization.py:polarization_vectors'),
      ('transport', 'marxs/math/polarization.py:parallel_transport'),
      ('Jones matrix', 'marxs/math/polarization.py:paralleltransport_matrix'),
      ('reflection', 'marxs/math/polarization.py:Q_reflection')])

prop('C18', 'The Rowland torus is one surface in all its descriptions and designs',
     'Places, angles, normals and the equation of a Rowland torus all describe the same surface, '
     'wherever it is put; a line or a radius and angle give a point of it or an error. Tilted tori '
     'designed from focal length and two angles go through the grating and the focal point with '
     'exactly these angles; pairs of channels share the detector circle at any distance and '
     'offset. Detectors and bent gratings made from a torus or a radius follow the circle.',
     ['inputs', 'configurations'],
     'all radii, angles, places of the torus and points in space; all channel distances and '
     'offsets',
     'tests evaluate few points on few tori; mirrored branches, steep angles and moved tori are '
     'hardly covered',
     ['marxs/design/rowland.py', 'marxs/design/bendgratings.py', 'marxs/math/geometry.py'],
     [('surface', 'marxs/design/rowland.py:RowlandTorus'),
      ('tilted design', 'marxs/design/rowland.py:design_tilted_torus'),
      ('two channels', 'marxs/design/rowland.py:double_rowland_from_channel_distance'),
      ('detector', 'marxs/math/geometry.py:Cylinder.from_rowland'),
      ('bent gratings', 'marxs/design/bendgratings.py:bend_gratings')])

prop('C19', 'Facets and chips are laid out on the Rowland torus as designed',
     'Rectangular and arc layouts use as few (rows, columns, radii) or as many (on an arc) elements '
     'as fit, evenly spaced and centred in the range asked for, and never reach beyond the limits '
     'of an arc or overlap. Each element sits where the line through its grid position along the '
     'given axis meets the torus, facing inwards with one side in the plane of the axis; elements '
     'with given directions have their normal along the direction, or on the line to the place, '
     'asked for, and their y side in the plane of the second one.',
     ['inputs', 'configurations'],
     'all sizes of elements, ranges, radii, segments and places of the torus',
     'tests check hand-counted examples; other ratios of range and element size, wrapped segments '
     'and oblique directions are not covered',
     ['marxs/design/rowland.py', 'marxs/simulator/simulator.py'],
     [('grid', 'marxs/design/rowland.py:RectangularGrid'),
      ('arcs', 'marxs/design/rowland.py:GratingArrayStructure'),
      ('on the torus', 'marxs/design/rowland.py:ElementsOnTorus'),
      ('orientation', 'marxs/simulator/simulator.py:ParallelCalculated')])

prop('C20', 'Tolerancing moves exactly the elements asked for and runs every parameter set',
     'Elements are moved relative to where they were designed, as a group about its origin, each '
     'about its own centre, or one by one; moves replace each other, so that zeros restore the '
     'original instrument, and random misalignments are independent for every element and degree '
     'of freedom. A tolerancing run uses each parameter set once, in order, on the same photons, '
     'and its tables have one row for each energy and set with the numbers found for it; lists of '
     'single changes contain each step of each degree of freedom alone.',
     ['inputs', 'configurations', 'histories'],
     'all shifts, angles and numbers drawn, sequences of moves, parameter lists and groups of '
     'elements',
     'tests move one element by one set of numbers; leftovers of earlier moves, order of rotations '
     'and shared random numbers do not show in single calls',
     ['marxs/design/tolerancing.py', 'marxs/design/uncertainties.py',
      'marxs/missions/mitsnl/tolerances.py'],
     [('moves', 'marxs/design/tolerancing.py:moveglobal,moveindividual,moveelem'),
      ('misalignment', 'marxs/design/tolerancing.py:wiggle,varyperiod,varyattribute'),
      ('uncertainties', 'marxs/design/uncertainties.py:generate_facet_uncertainty'),
      ('runs', 'marxs/design/tolerancing.py:run_tolerances,run_tolerances_for_energies')])

prop('C21', 'Response matrices keep the redistribution they were made from',
     'A response matrix gives back the redistribution that it was made from, for any grouping of '
     'channels, first channel number, and storage with variable or fixed length, and rows are found '
     'by energy or wavelength. Matrices made from Gaussian widths contain for each channel the '
     'integral of the Gaussian over it, for tables in energy or wavelength and any units. Columns '
     'with a constant value that were turned into keywords read the same.',
     ['inputs', 'configurations', 'histories'],
     'all matrices, thresholds, edges of channels, energies, widths, first channels and groupings',
     'tests use one matrix with one group in each row; several groups, empty rows, other first '
     'channels and storage conventions are not covered',
     ['marxs/reduction/ogip.py', 'marxs/reduction/lsfparm.py'],
     [('matrix', 'marxs/reduction/ogip.py:RMF'),
      ('keywords', 'marxs/reduction/ogip.py:ColOrKeyTable'),
      ('line profiles', 'marxs/reduction/lsfparm.py')])

prop('C22', 'Order sorting regions and fractions are consistent',
     'Widths and limits of an order sorting region describe the same region, and regions for a '
     'fraction of the distance of the orders cover this fraction of the space between neighbours '
     'without overlap. The fraction of photons sorted into an order is the probability between the '
     'limits of its region for the energy of the true order, 0 on the other side of the zeroth '
     'order. Effective areas are scaled by it once, earlier sorting is replaced, and all orders '
     'that contribute are processed.',
     ['inputs', 'configurations'],
     'all energies and wavelengths, widths, fractions, energy resolutions and effective areas',
     'tests check two tables with fixed numbers; limits given instead of widths, units, negative '
     'orders and repeated sorting are not covered',
     ['marxs/reduction/osip.py', 'marxs/optics/detector.py'],
     [('regions', 'marxs/reduction/osip.py:OSIPBase.osip_tab,osip_range'),
      ('fractions', 'marxs/reduction/osip.py:OSIPBase.osip_factor'),
      ('areas', 'marxs/reduction/osip.py:OSIPBase.apply_osip,apply_osip_all'),
      ('energy resolution', 'marxs/optics/detector.py:CCDRedistNormal')])

prop('C23', 'Analysis results describe the photons and facets selected',
     'Resolving power, effective area and the fraction of photons of an order come from the photons '
     'of this order that are not lost, relative to the zeroth order; orders with too few photons '
     'give no number, the worst of several lists is reported with its own position and width, and '
     'averages are weighted by area or efficiency. Sub-apertures are two mirrored sectors at any '
     'angle, and the best focus is found by moving a detector along its normal with the same '
     'photons. Projections and tables of facets give the place of every facet, for any placement of '
     'the structure that holds them.',
     ['inputs', 'configurations'],
     'all positions, probabilities and orders of photons, angles, efficiencies and placements of '
     'facets',
     'tests use a few regular photon lists; lost photons, gaps, angles past a full turn and moved '
     'containers are not covered',
     ['marxs/analysis/analysis.py', 'marxs/analysis/gratings.py', 'marxs/analysis/coords.py'],
     [('resolving power', 'marxs/analysis/gratings.py:resolvingpower_from_photonlist'),
      ('effective area', 'marxs/analysis/gratings.py:CaptureResAeff,CaptureResAeff_CCDgaps'),
      ('sub-apertures', 'marxs/analysis/gratings.py:identify_photon_in_subaperture'),
      ('focus', 'marxs/analysis/analysis.py:find_best_detector_position'),
      ('facets', 'marxs/analysis/coords.py:facet_table')])

prop('C24', 'Scattering turns rays by the recorded angles drawn with the widths set',
     'Rays that hit a scattering element are turned in the plane that contains the ray and the '
     'radius from the centre of the element, and about this radius, or in a random direction, by '
     'the angles recorded for them; all others keep their direction and have no angle. Angles '
     'are drawn for every ray on its own from normal distributions with the widths set, in any '
     'unit, or come from a function, and the random direction is uniform. The place on the element '
     'and the length of the direction do not change, and a width of zero leaves rays as they are.',
     ['inputs', 'configurations'],
     'all widths and units, numbers drawn, angles given by functions and placements of the element',
     'tests check the width of the distribution for one axis-parallel geometry with a statistical '
     'test; large angles, oblique rays, moved elements and shared random numbers pass it',
     ['marxs/optics/scatter.py'],
     [('radial', 'marxs/optics/scatter.py:RadialMirrorScatter'),
      ('random direction', 'marxs/optics/scatter.py:RandomGaussianScatter')])

prop('C25', 'CAT gratings account for all of their support structures',
     'Each photon at a CAT grating passes between the bars of the fine support and is diffracted by '
     'them, perpendicular to the bars of the grating, or goes straight through them with the '
     'transmission of their depth, in proportion to the open fraction. Probabilities are the '
     'product of order, quality (falling with the square of the order), support and open area of '
     'the frame less its shadow, never below zero, and photons that hit no facet are absorbed. Bars '
     'that are tilted change the blaze angle with the distance across the bars, and the openings '
     'of the frame broaden rays by wavelength over size.',
     ['inputs', 'configurations'],
     'all sizes of supports in any units, orders and probabilities, random numbers, groove angles '
     'and places on the grating',
     'tests check medians for photons that all hit in the centre; photons that miss, groove angles, '
     'deep bars and mixed units are not covered',
     ['marxs/missions/mitsnl/catgrating.py'],
     [('support', 'marxs/missions/mitsnl/catgrating.py:L1'),
      ('frame', 'marxs/missions/mitsnl/catgrating.py:L2Abs,L2Diffraction'),
      ('quality', 'marxs/missions/mitsnl/catgrating.py:QualityFactor'),
      ('tilted bars', 'marxs/missions/mitsnl/catgrating.py:NonParallelCATGrating'),
      ('all parts', 'marxs/missions/mitsnl/catgrating.py:CATL1L2Stack,catsupportbars')])

prop('C26', 'Chandra pointing, detector coordinates and event files are consistent',
     'At every time photons arrive as with a fixed pointing in the direction that dither, roll and '
     'nominal position give, and the aspect solution holds these directions. A photon that hits '
     'ACIS at any place on a chip gets the number of this chip and the pixel, tiled, focal plane '
     'and sky coordinates of this place, where aimpoint and offset of the detector move all chips. '
     'The header of event files names instrument, limits and a coordinate system that gives back '
     'the place of the source.',
     ['inputs', 'configurations'],
     'all dither amplitudes, phases, times, roll angles and positions on the sky, places on the '
     'chips, aimpoints and offsets',
     'tests compare five photons and one dither pattern with numbers from CIAO; files are never '
     'written, and changing roll, offsets, other chips and other positions are not tested',
     ['marxs/missions/chandra/dither.py', 'marxs/missions/chandra/det_acis.py',
      'marxs/missions/chandra/fitsheaders.py', 'marxs/missions/chandra/chandra_global.py',
      'marxs/missions/chandra/data.py', 'marxs/missions/chandra/hess.py'],
     [('dither', 'marxs/missions/chandra/dither.py:LissajousDither'),
      ('ACIS', 'marxs/missions/chandra/det_acis.py:ACIS,ACISChip'),
      ('files', 'marxs/missions/chandra/fitsheaders.py:complete_header,sort_columns'),
      ('gratings', 'marxs/missions/chandra/hess.py:HETG')])

prop('C27', 'Viewers show every element and ray where the simulation has it',
     'The shapes handed to a viewer are those of the simulation: boxes and surfaces have the place, '
     'size and orientation of their element (or the half asked for), the frame around an opening '
     'covers everything between the opening and its outer edge once and nothing else, and every ray '
     'is drawn once through all of its points in the color of its value. All members of nested '
     'groups are shown, settings come from the display settings of an element or else from its '
     'geometry, and colors keep their channels.',
     ['inputs', 'configurations'],
     'all places, orientations and sizes of elements, outlines with any coordinates, rays with any '
     'points, lists of shapes and settings',
     'tests compare the text for one element at one place with a copy of the output; angled, half '
     'and nested elements, segments and rings are not covered',
     ['marxs/visualization/utils.py', 'marxs/visualization/x3d.py',
      'marxs/visualization/threejsjson.py', 'marxs/math/geometry.py'],
     [('triangles', 'marxs/visualization/utils.py:plane_with_hole,combine_disjoint_triangulations'),
      ('openings', 'marxs/math/geometry.py:PlaneWithHole.triangulate,xyz_circle'),
      ('boxes', 'marxs/visualization/utils.py:halfbox_corners'),
      ('x3d', 'marxs/visualization/x3d.py:surface,box,plot_rays'),
      ('json', 'marxs/visualization/threejsjson.py'),
      ('settings', 'marxs/visualization/utils.py:DisplayDict,plot_object_general')])

prop('C28', 'Missions are made of the parts their design tables and settings say',
     'Every optic, grating, chip, shell, aperture and rod of the boom of Arcus, Athena, Lynx and AXIS '
     'sits where its row of the design table puts it, with the size, direction, period, number and '
     'efficiency given there for this channel or shell. Booms absorb exactly the rays that meet a '
     'rod, frames those that meet no optic, and probabilities are the product of all tabulated '
     'efficiencies at the energy of the photon. Tables of tolerances are converted to one sigma in '
     'mm and radian, and chirps are applied to all gratings if and only if they are asked for.',
     ['inputs', 'configurations'],
     'all entries of the tables, channels, places of the channels, dimensions of the boom and '
     'tolerances',
     'tests need the calibration files of Arcus, which are not distributed, and are skipped without '
     'them; Lynx is only built once and booms are tested with a million random rays at one place',
     ['marxs/missions/arcus/arcus.py', 'marxs/missions/arcus/ralfgrating.py',
      'marxs/missions/arcus/spo.py', 'marxs/missions/arcus/boom.py',
      'marxs/missions/arcus/defaults.py', 'marxs/missions/athena/spo.py',
      'marxs/missions/lynx/lynx.py', 'marxs/missions/lynx/mirror.py',
      'marxs/missions/AXIS/AXIS.py'],
     [('boom', 'marxs/missions/arcus/boom.py:ThreeSidedBoom,FourSidedBoom,Rod'),
      ('pore optics', 'marxs/missions/athena/spo.py:spogeom2pos4d,SPOChannelMirror,'
       'ScatterPerChannel,spomounting'),
      ('Arcus', 'marxs/missions/arcus/arcus.py:Aperture,SimpleSPOs,FiltersAndQE,DetCamera'),
      ('Arcus gratings', 'marxs/missions/arcus/ralfgrating.py:CATfromMechanical'),
      ('shells', 'marxs/missions/lynx/mirror.py:MetaShellAperture,MetaShellMirror,'
       'MetaShellEfficiency,PerfectLensSegment'),
      ('arrays', 'marxs/missions/lynx/lynx.py:LynxGAS,RowlandDetArray,PerfectLynx,'
       'reformat_errorbudget')])

prop('C29', 'Photon lists keep what elements record, and what differs is not mixed up',
     'Elements add each column they need once, with the initial value asked for, and leave existing '
     'columns and their own settings as they are; every keyword given is written to the header. '
     'Simulations are accepted as consistent if and only if all keywords and energies are the same, '
     'and tables are turned into grids with every value at its coordinates or are refused. '
     'Functions that work in local coordinates see them and only change what they work on.',
     ['inputs', 'histories', 'configurations'],
     'all values, keywords, order of rows, positions, rotations and combinations of columns',
     'tests add one column to one list and compare one keyword; columns that exist already, '
     'keywords that are only in one header and tables with rows in another order are not covered',
     ['marxs/base/base.py', 'marxs/utils.py', 'marxs/optics/base.py',
      'marxs/analysis/run_helpers.py'],
     [('columns and headers', 'marxs/base/base.py:SimulationSequenceElement,TagVersion,'
       'check_meta_consistent,check_energy_consistent,DocMeta'),
      ('tables', 'marxs/utils.py:tablerows_to_2d,generate_test_photons'),
      ('local coordinates', 'marxs/optics/base.py:photonlocalcoords'),
      ('simulations of one energy', 'marxs/analysis/run_helpers.py:monoenergetic_astrosimulation')])

prop('C30', 'Chirped gratings have the periods that bring all rays to one place',
     'The search for a chirp sends one ray of the energy and order asked for from outside through '
     'each place of a flat or bent grating towards the focus, and compares where it is detected with '
     'the ray through the center. The corrections found are the period of this grating, and no other, '
     'at these places, and its orders are selected afterwards as before. Every photon is diffracted '
     'with the period at the place where it meets the grating.',
     ['inputs', 'configurations', 'histories'],
     'all energies, periods, corrections, sizes and positions of gratings and places on them',
     'no test covers chirps; a wrong energy or period only shows as a slightly wider line',
     ['marxs/design/bendgratings.py', 'marxs/optics/grating.py'],
     [('search', 'marxs/design/bendgratings.py:NumericalChirpFinder,BendNumericalChirpFinder'),
      ('chirps', 'marxs/design/bendgratings.py:chirp_gratings'),
      ('diffraction', 'marxs/optics/grating.py:FlatGrating.d,FlatGrating.diffract_photons')])

prop('C31', 'Instrument models and their responses follow their settings and tables',
     'An instrument model has the parts asked for, in order, for the settings and channels asked for, '
     'every row of its alignment budget moves the elements it names once, and rays to the focus of a '
     'channel are found at the zeroth order of this channel. Effective areas and responses are the '
     'product of mirrors, gratings, filters and the channels whose diffracted ray meets a chip, for '
     'bins in any order and unit. Grids of simulations are analyzed per channel, order and energy with '
     'the photons of this channel only and averaged over channels and dispersed orders.',
     ['inputs', 'configurations', 'schedules'],
     'all settings, positions, tables, tolerances, energies, chips and grids within the bounds',
     'calibration files are missing where tests run, so no test reaches this code; errors mix channels or orders silently',
     ['marxs/missions/arcus/arcus.py', 'marxs/missions/arcus/arfrmf.py',
      'marxs/missions/arcus/analyze_grid.py', 'marxs/missions/arcus/load_csv.py',
      'marxs/missions/lynx/lynx.py', 'marxs/missions/AXIS/AXIS.py'],
     [('assembly and detectors', 'marxs/missions/arcus/arcus.py:PerfectArcus'),
      ('alignment', 'marxs/missions/arcus/arcus.py:Arcus, lynx.py:Lynx, AXIS.py:AXIS'),
      ('areas and responses', 'marxs/missions/arcus/arfrmf.py:OnCCD,MirrGrat,mkarf,mkrmf0'),
      ('grids', 'marxs/missions/arcus/analyze_grid.py:analyze_sim,aeffRfromraygrid,zeropos')])

prop('C32', 'Line spread functions and responses keep their numbers in tables and files',
     'Parameters of line profiles are the same after conversion to calibration tables and back, and '
     'at any wavelength and extraction width the profile has each parameter interpolated on its own, '
     'full widths and amplitudes with a sum of one. Each row of a matrix made from them is the profile '
     'at the middle of the row integrated over every channel, and fits see the sum of the '
     'probabilities in bins around the mean; responses are the same after they are written and read, '
     'and are not written without the keywords that are required.',
     ['inputs', 'configurations'],
     'all parameters, wavelengths, widths, matrices, thresholds and keywords within the bounds',
     'no test covers profiles or files; a factor between sigma and full width or reversed channels look plausible',
     ['marxs/reduction/lsfparm.py', 'marxs/reduction/ogip.py'],
     [('conversion', 'marxs/reduction/lsfparm.py:caldb2sherpa,sherpa2caldb,empty_lsfparmtable'),
      ('interpolation', 'marxs/reduction/lsfparm.py:CALDB_interp,sherpa_from_spline'),
      ('matrices', 'marxs/reduction/lsfparm.py:make_rmf'),
      ('fits', 'marxs/reduction/lsfparm.py:fit_LSF'),
      ('files', 'marxs/reduction/ogip.py:RMF.write,RMF.read,ARF.write,ARF.read')])

