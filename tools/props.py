prop('C01','Altitude windows are exactly the times the altitude condition holds',
 "For any target's altitude signal, site, search window and threshold, the above, below and in-range queries return sorted, non-overlapping, non-empty intervals inside the window, and away from interval edges an instant belongs to an interval exactly when the target's own altitude satisfies the condition; above and below partition the window. Crossing events are exactly the interior interval edges with the correct rising or setting label, and culmination events are exactly the interior local extrema, in time order, with the correct upper or lower kind and altitude.",
 ['inputs'],'every signal with excursions longer than the documented scan spacing, every window placement including ones that start on, at or inside an event, and every threshold',
 'tests sample a few bodies and windows; the guarantee is over all signal phases, window offsets and thresholds, including roots on scan nodes and segment edges',
 ['src/event/altitude/events.rs','src/event/altitude/provider.rs','src/event/altitude/search.rs','src/event/search/periods.rs','src/event/search/crossings.rs','src/event/search/scan_fallback.rs','src/event/search/extrema.rs'],
 [('adaptive Chebyshev segmentation with scan fallback','src/event/search'),('complement/intersection of interval lists','src/event/search/intervals.rs')],
 ['above_threshold','below_threshold','altitude_ranges','crossings','culminations'],
 level='exploration',technique='bounded exhaustive enumeration of signals, windows aligned to events, thresholds and sites on the real code; membership judged against the sampled signal itself',
 note='Every case in the stated product is executed; signals are synthetic providers through the public trait plus all built-in generic targets.')
prop('C02','Sun altitude events and night windows agree with the Sun\'s altitude',
 "For every site including polar ones, window and horizon or twilight threshold, the Sun's above, below and range windows, crossings and culminations agree with the Sun's own altitude function: membership away from edges is exact, edges are labelled rising or setting correctly, no event of the window is missed and none is invented. Night windows for a twilight definition are exactly the times the Sun is below that definition's threshold.",
 ['inputs'],'all sites, seasons, window offsets (sub-day windows included) and thresholds',
 'tests use a few mid-latitude sites and whole-day windows; the fast daily predictor has branchy edge cases at high latitude and for windows that cut a day',
 ['src/event/solar/daily_events.rs','src/event/solar/altitude.rs','src/event/solar/periods.rs','src/event/solar/night_types.rs','src/event/solar/classification.rs'],
 [('daily event predictor with bracketed refinement','src/event/solar/daily_events.rs')],['above_threshold(Sun)','crossings(Sun)','culminations(Sun)','night periods'],
 level='exploration',technique='bounded exhaustive enumeration of query scenarios (site latitude x epoch x window placement relative to every crossing x threshold/range) on the real code; every interval, crossing and culmination judged against the densely sampled altitude function',
 note='Exhaustive over the stated grid; other sites, epochs and excursions shorter than the scan spacing are not covered.')
prop('C03','Moon altitude events agree with the Moon\'s altitude',
 "For every site, window and threshold, the Moon's above, below and range windows, crossings and culminations agree with the Moon's own topocentric altitude function: membership away from edges is exact, edges are labelled correctly, none is missed or invented.",
 ['inputs'],'all sites, epochs, window offsets and thresholds',
 'tests use a few sites; the lunar path replaces the ephemeris by segment caches whose edges and interpolation errors only show at particular epochs',
 ['src/event/lunar/altitude_periods.rs','src/event/lunar/moon_cache.rs','src/event/lunar/moon_equations.rs'],
 [('per-window Chebyshev and nutation caches','src/event/lunar/moon_cache.rs')],['above_threshold(Moon)','crossings(Moon)','culminations(Moon)'],
 level='exploration',technique='bounded exhaustive enumeration of query scenarios (site latitude x epoch x window placement relative to every crossing x threshold/range) on the real code; every interval, crossing and culmination judged against the densely sampled altitude function',
 note='Exhaustive over the stated grid; other sites, epochs and excursions shorter than the scan spacing are not covered.')
prop('C04','Azimuth windows, bearing crossings and extrema match the azimuth signal',
 "For any target's azimuth signal, site, window and azimuth range (including ranges that wrap through North), in-range and outside-range windows are sorted, disjoint, cover complementary times and contain an instant away from edges exactly when the azimuth is in the range. Bearing-crossing events occur exactly where the azimuth passes the requested bearing (not its opposite) with the right sense, and azimuth extrema are the interior turning points.",
 ['inputs'],'all signals, range placements including wrap-around, bearings, and window offsets',
 'tests sample a few real bodies; wrap-around, exact grid hits and opposite-bearing roots need systematic enumeration',
 ['src/event/azimuth/events.rs','src/event/azimuth/provider.rs','src/event/azimuth/search.rs','src/event/azimuth/types.rs','src/event/search/intervals.rs'],
 [('sign-change scan on wrapped difference','src/event/azimuth')],['azimuth_crossings','azimuth_extrema','azimuth_ranges','in_azimuth_range','outside_azimuth_range'],
 level='exploration',technique='bounded exhaustive enumeration of tracks, targets, sites, windows, bearings and ranges over the real search code, each judged against the densely sampled azimuth',
 note='oracle: azimuth sampled every 1-2 min and unwrapped; independent hour-angle azimuths')
prop('C05','Lunar phase events and illumination windows match the phase geometry',
 "For any ephemeris and window, principal phase events are reported exactly when the Sun-Moon elongation passes 0, 90, 180 and 270 degrees, in time order and correctly named, with none missed and none invented. Illumination above, below and range windows contain an instant away from edges exactly when the illuminated fraction satisfies the condition, and phase labels agree with the elongation for every angle.",
 ['inputs','configurations'],'all ephemerides with monotone elongation, window offsets and thresholds',
 'tests check a handful of known lunations with the bundled ephemeris',
 ['src/event/lunar/phase.rs','src/event/search/intervals.rs'],
 [('scan plus bracketed root finding on elongation','src/event/lunar/phase.rs')],['find_phase_events','illumination_above','illumination_below','illumination_range','MoonPhaseLabel'],
 level='exploration',technique='bounded exhaustive enumeration of ephemerides, windows, scan steps and thresholds over the real search code, judged against the sampled phase triangle',
 note='oracle: phase triangle from the ephemeris vectors; almanac instants')
prop('C06','Frame changes form a consistent group of proper rotations',
 "At every epoch and under every transform context, changing frame preserves lengths, angles and handedness; converting there and back returns the original vector; and converting through any intermediate frame gives the same result as converting directly, up to the documented precision (and up to the celestial-pole-offset size where offsets apply only to one route). Positions, directions and velocities are rotated by the same rotation, and each frame has the axes its definition gives it: celestial, galactic and planetary poles, the intermediate pole and the sidereal angle.",
 ['inputs','configurations'],'all ordered frame pairs and triples for which a conversion exists, epochs across the supported range, and context models',
 'tests check selected pairs at selected epochs; the law is over all triples, so a wrong sign or order in a single pair can hide',
 ['src/coordinates/transform/providers/mod.rs','src/coordinates/transform/providers/frames_inertial.rs','src/coordinates/transform/providers/frames_earth.rs','src/coordinates/transform/providers/frames_teme.rs','src/coordinates/transform/providers/frames_catalog.rs','src/coordinates/transform/providers/frames_planetary.rs','src/coordinates/transform/context.rs'],
 [('per-pair rotation providers composed through a hub frame','src/coordinates/transform/providers')],['frame_rotation','frame_rotation_with','frame_rotation_as','to_frame on positions, directions, velocities'],
 level='model_checking',technique='explicit-state exploration of the frame graph of the real code: all edges and all two-leg routes between 24 frames at every epoch and context of a grid, each compared with the direct route and the defining relations',
 note='Longer routes follow from two-leg consistency. Exhaustive over the stated epochs and contexts only.')
prop('C07','Centre changes are reversible, path independent and honour the chosen context',
 "At every epoch, changing a position's centre and changing it back returns the original, and going through an intermediate centre gives the same result as going directly. The ephemeris selected by the transform context is the one used in every conversion, including body-centred and observer-centred ones, and converting between positions that carry different centre parameters is refused rather than silently mixed.",
 ['inputs','configurations'],'all ordered centre pairs and triples, epochs, ephemeris backends in the context, sites and orbit parameters',
 'tests use the default ephemeris and selected pairs; a conversion that ignores the context is invisible with the default',
 ['src/coordinates/transform/providers/centers_standard.rs','src/coordinates/transform/providers/centers_planetary.rs','src/coordinates/transform/providers/centers_lagrange.rs','src/coordinates/transform/centers/position/to_bodycentric.rs','src/coordinates/transform/centers/position/to_topocentric.rs','src/coordinates/transform/context.rs'],
 [('shift providers through the barycentric hub','src/coordinates/transform/providers')],['center_shift_as','to_center_with','to_center_as'],
 level='model_checking',technique='exhaustive enumeration of the centre-conversion graph of the real code (explicit edges, all routes) against an independently evaluated ephemeris',
 note='centres x frames x epochs x contexts; bodycentric, topocentric and parameter-mismatch grids')
prop('C08','Observer-side transforms invert each other and respect conventions',
 "Equatorial to horizontal and back, equatorial to ecliptic-of-date and back, astrometric to apparent and back, and Cartesian to spherical and back return the starting direction for every direction, site and epoch. Converting azimuths between any two conventions is invertible and composes consistently, and the altitude computed from a horizontal transform equals the one computed from hour angle, declination and latitude.",
 ['inputs','configurations'],'all directions on the sphere including poles and seam meridians, sites including poles, epochs, observer velocities, and azimuth-convention pairs and triples',
 'tests check a few directions; poles, the 0/360 seam and non-default conventions need systematic enumeration',
 ['src/coordinates/horizontal.rs','src/coordinates/transform/horizontal.rs','src/coordinates/transform/ecliptic_of_date.rs','src/astro/aberration.rs','src/coordinates/observation/observational_direction.rs','src/coordinates/observation/observer_state.rs'],
 [('paired forward and inverse transforms','src/coordinates')],['ToHorizontal/FromHorizontal','ToEclipticTrueOfDate/FromEclipticTrueOfDate','Apparent/Astrometric','convert_azimuth'],
 level='exploration',technique='bounded-exhaustive exploration of the real transforms (directions x sites x epochs x contexts, all triples of azimuth conventions) against an independent triad/sidereal-time/Lorentz oracle',
 note='poles, zenith and meridians included')
prop('C09','SPICE kernel pool answers follow load order and unload nothing silently',
 "After any sequence of kernel loads, a state, rotation or time query answers as the most recently loaded kernel covering it says, falls back to earlier kernels outside its coverage, and reports absence only when no loaded kernel covers the request. A load that fails leaves every answer as it was, relative states are antisymmetric and add along chains, rotations invert and compose, and loading order of unrelated kernels does not matter.",
 ['histories','inputs'],'all load sequences up to a bounded length over overlapping kernels of every kind, and all queries after each',
 'tests load one or two kernels; precedence, fallback and atomicity are properties of load histories',
 ['src/spice/context.rs','src/spice/kernel_set.rs','src/spice/frame_registry.rs','src/formats/spice/kernel.rs','src/formats/spice/spk_kernel.rs','src/formats/spice/text.rs','src/formats/spice/fk.rs','src/formats/spice/pck.rs','src/formats/spice/lsk.rs'],
 [('reverse-order scan of loaded kernels with continue on no coverage','src/spice/context.rs')],['load_bytes','state_naif','rotation_naif','leap-second and clock conversions'],
 level='model_checking',technique='explicit-state exploration of all bounded load histories of the kernel pool against a list model, every history replayed on the real pool',
 note='quick ~4 s; thorough depth 5')
prop('C10','Binary ephemeris evaluation equals the stored polynomials and samples',
 "For every supported segment type, epoch inside coverage, byte order and target/centre chain, the returned position and velocity equal the value and time derivative of the polynomial or interpolation the file defines, are continuous across record edges, and agree between all readers of the same file. Epochs outside coverage are refused, exactly at the coverage limits.",
 ['inputs','configurations'],'all segment types, degrees, record counts, epochs including record and coverage edges, byte orders, segment layouts',
 'tests evaluate a few synthetic segments at interior points; edges, windows near the ends and byte order need enumeration',
 ['src/pod/spice/provider.rs','src/pod/providers.rs','src/formats/spice/segment.rs','src/formats/spice/spk.rs','src/formats/spice/ck.rs','src/formats/spice/daf.rs','src/formats/spice/spk_kernel.rs','src/ephemeris/jpl/eval.rs','src/ephemeris/jpl/bodies.rs','src/ephemeris/runtime_backend.rs'],
 [('record lookup, Chebyshev/Lagrange/Hermite evaluation','src/formats/spice')],['KernelSet states','SpkKernelSet states','RuntimeEphemeris positions and velocities','CK orientations'],
 level='exploration',technique='bounded exhaustive enumeration of kernels (types, byte orders, layouts, record counts, epochs) executed on the real readers against a definition-level evaluator',
 note='quick ~1 s; thorough ~2 s')
prop('C11','Malformed kernels are refused, never crash, hang or change the pool',
 "Whatever bytes are offered as a binary or text kernel, loading and querying terminates within bounded time and memory and either succeeds or returns an error, never a crash; a refused kernel leaves every later answer unchanged.",
 ['fault_sequences','inputs'],'every truncation, every single-word and single-byte corruption of valid kernels, and every bounded text-kernel token sequence',
 'tests try a few malformed inputs; crashes and hangs live in the many header-field combinations not tried',
 ['src/formats/spice/daf.rs','src/formats/spice/spk.rs','src/formats/spice/ck.rs','src/formats/spice/segment.rs','src/formats/spice/text.rs','src/formats/spice/kernel.rs','src/formats/spice/pck.rs','src/formats/spice/fk.rs','src/formats/spice/lsk.rs','src/formats/spice/sclk.rs','src/spice/context.rs','src/ephemeris/runtime_backend.rs'],
 [('bounds and header validation before use','src/formats/spice/daf.rs')],['load_bytes','RuntimeEphemeris::from_bytes','SpkKernelSet'],
 level='fault_enumeration',technique='exhaustive enumeration of single faults (every truncation, byte, word, integer) and paired header faults of valid kernels and of all bounded text-token sequences, executed on the real readers under memory and time limits, with pool answers compared bit for bit after every refusal',
 note='quick ~45 s')
prop('C12','Two-line and orbit-mean-elements data round-trip or are refused',
 "Any element set that the writer accepts is read back with the same values to the format's printed precision in every encoding (two-line, key-value, XML, JSON), each line has the correct length and checksum, and an element set the format cannot represent is refused rather than written wrongly. A two-line set with any single digit altered, wrong length, mismatched satellite number or bad checksum is rejected.",
 ['inputs','fault_sequences'],'all combinations of boundary field values; every single-character corruption',
 'tests round-trip a few known satellites; rounding carries at field boundaries and numbering-scheme edges need enumeration',
 ['src/formats/tle/tle.rs','src/formats/tle/parse.rs','src/formats/tle/builder.rs','src/formats/tle/omm/mod.rs','src/formats/tle/omm/kvn.rs','src/formats/tle/omm/xml.rs','src/formats/tle/omm/json.rs'],
 [('fixed-column formatting with checksum','src/formats/tle')],['parse_tle','format','OMM read/write'],
 level='fault_enumeration',technique='exhaustive enumeration of bounded element sets (single and pairwise extremes of every field) and of single-character and column faults of two-line sets and of OMM messages, on the real readers and writers, judged against independent field arithmetic',
 note='writers are checked over all single-field extremes and all pairs; readers over all catalogued faults of reference sets')
prop('C13','Orbit, parameter and tracking messages round-trip in every encoding',
 "Any ephemeris, orbit-parameter or tracking-data message the library writes is read back with the same metadata, epochs and values to printed precision, and the key-value and XML encodings of the same message carry the same content. A reader never silently drops, duplicates or reorders data lines, whatever optional sections surround them.",
 ['inputs','histories'],'all section sequences up to a bounded length, boundary epochs (second, day and year rollovers), values and names with special characters',
 'tests round-trip simple messages; section orderings and time-field carries need enumeration',
 ['src/formats/ccsds/oem.rs','src/formats/ccsds/opm.rs','src/formats/ccsds/tdm.rs'],
 [('line-oriented state machine reader','src/formats/ccsds')],['read_oem/write_oem','read_opm/write_opm','read_tdm/write_tdm and XML variants'],
 level='exploration',technique='exhaustive enumeration of bounded section sequences, rollover epochs, field values and single-token faults on the real readers and writers, judged against independently built content',
 note='both OEM encodings are compared with each other and with the written content; truncations at every line')
prop('C14','Geodetic product files round-trip and stream exactly as they batch',
 "Readers of precise-orbit, prediction, normal-point, station, antenna, attitude, navigation and observation files return exactly the records a well-formed file holds, in file order, with the values and epochs its fields print; files the library writes are read back with the same records to printed precision, and content a format cannot hold is refused rather than written wrongly. Reading a file as a stream of records yields exactly the records, or the same refusal, that reading it at once yields, for every file content.",
 ['inputs','histories'],'all bounded sequences of records and line kinds, boundary field values and epochs',
 'tests read one sample of each format; record sequences, field-boundary values and stream/batch agreement need enumeration',
 ['src/formats/igs/sp3.rs','src/formats/igs/sinex.rs','src/formats/igs/antex.rs','src/formats/igs/orbex.rs','src/formats/ilrs/cpf.rs','src/formats/ilrs/crd.rs','src/formats/rinex/nav.rs','src/formats/rinex/obs.rs','src/formats/rinex/doris.rs'],
 [('fixed-column record readers and writers','src/formats')],['read_sp3','stream reader','write_sp3','read/write of the other products'],
 level='exploration',technique='exhaustive enumeration of bounded record sequences, rollover epochs and boundary field values for each format on the real readers and writers, judged against independently laid-out fields; stream and batch readers compared on every truncation and line edit',
 note='all bounded sequences of records and line kinds of the catalogued values')
prop('C15','Text and message decoders never crash on any input',
 "For every data format the library reads, any input text or message bytes lead to a value or an error in bounded time, never a crash; in particular truncation, a corrupted character, a non-ASCII character, a missing or duplicated line never crash a reader.",
 ['fault_sequences','inputs'],'every truncation, single-character substitution from a small alphabet, line deletion, duplication and swap of a valid sample of each format',
 'tests try a few malformed lines; fixed-column slicing crashes only for particular cut points or multi-byte characters',
 ['src/formats/igs/sp3.rs','src/formats/igs/sinex.rs','src/formats/igs/antex.rs','src/formats/igs/orbex.rs','src/formats/ilrs/cpf.rs','src/formats/ilrs/crd.rs','src/formats/rinex/nav.rs','src/formats/rinex/obs.rs','src/formats/rinex/doris.rs','src/formats/ccsds/oem.rs','src/formats/ccsds/opm.rs','src/formats/ccsds/tdm.rs','src/formats/tle/parse.rs','src/formats/iers/eop.rs','src/formats/sck.rs','src/formats/adsb/mod.rs','src/formats/vlbi/vgosdb.rs','src/catalogs/ingest.rs'],
 [('bounds-checked field extraction','src/formats')],['every public reader'],
 level='fault_enumeration',technique='exhaustive fault enumeration on the real readers: every truncation, single-character replacement, insertion and deletion, token replacement and line edit of valid samples of every format, each decoded and re-encoded under panic containment and a time limit',
 note='one or two samples per format, holding every line kind; thorough adds pairs of faults')
prop('C16','Aircraft surveillance messages decode to the encoded position or are refused',
 "A message with any one to three bits flipped is rejected by its parity check; for every latitude and longitude, an encoded even/odd position pair decodes, globally and locally from either frame, to within the quantisation of the encoding, and pairs straddling a latitude-zone boundary or resolving beyond a pole are refused. Velocity, altitude and call-sign fields decode to what was encoded, and codes meaning 'no information' yield no value.",
 ['inputs','fault_sequences'],'all latitude zones and their boundaries, longitude seam, poles, both frame orders; all one- to three-bit errors and short bursts',
 'tests decode a few known messages; zone-boundary, pole and seam behaviour needs enumeration over zones',
 ['src/formats/adsb/cpr.rs','src/formats/adsb/mod.rs'],
 [('24-bit parity and compact position decoding','src/formats/adsb')],['decode','decode_globally','decode_locally'],
 level='fault_enumeration',technique='exhaustive enumeration of error patterns of the real frames (all 1-3 bit errors, bursts; 4 bits thorough) and of encoded positions over every zone boundary, seam and pole against an independent encoder',
 note='moving aircraft limited to 2.9 NM between frames')
prop('C17','Earth-orientation lookups interpolate the table and nothing else',
 "For every table and epoch, an Earth-orientation lookup returns tabulated values at nodes and values between neighbours in between; the whole-second step of UT1-UTC at a leap second takes effect at its record and is never interpolated. A parsed C04 table clamps at its ends, as documented; a provider reports absence outside its coverage. Files with unreadable values are refused. UT1 and Earth rotation derived from TT run on through day boundaries and leap seconds. Every terrestrial and observer transform under a context uses that context's values, asked for at the UTC of the epoch, with a documented fallback outside coverage that all routes share.",
 ['inputs','configurations'],'all table shapes up to a bounded size, all epochs at, between and outside nodes, leap-second placements, context models and parameters, runtime tables',
 'tests query a few dates of the bundled table and never load a runtime table',
 ['src/astro/eop.rs','src/formats/iers/eop.rs','src/astro/earth_rotation.rs','src/astro/earth_rotation_provider.rs','src/coordinates/transform/context.rs'],
 [('bracketing lookup and linear interpolation','src/astro/eop.rs')],['eop_at','eop_at_tt','UT1 conversions','terrestrial rotations'],
 level='model_checking',technique='exhaustive enumeration of tables, lookups, contexts and runtime leap-second scenarios, each compared with a table model and replayed on the real lookup, conversion and rotation code',
 note='runtime tables are generated and loaded through tempoch from a scratch directory; oracle: the table model and the definitions of UT1, ERA and GMST')
prop('C18','Keplerian motion conserves its invariants in every representation',
 "For every valid element set and epoch, the computed position satisfies the conic equation in the right orbital plane, repeats after one period, sweeps equal areas in equal times and starts at the stated anomaly; all orbit representations of the same orbit agree. Invalid elements are refused, and solving the anomaly equation succeeds for every eccentricity the type accepts.",
 ['inputs'],'all combinations of eccentricity (0 to near 1 and hyperbolic), inclination, angles and epochs over many periods',
 'tests check a few planets; convergence failures and quadrant mistakes appear only for particular eccentricity and anomaly combinations',
 ['src/astro/orbit.rs','src/astro/conic.rs','src/astro/conic_equations.rs'],
 [('anomaly solver and perifocal rotation','src/astro')],['KeplerianOrbit','PreparedOrbit','MeanMotionOrbit','ConicOrbit positions'],
 level='exploration',technique='bounded exhaustive enumeration of element sets and epochs over the real orbit code against an independent two-body solution',
 note='oracle: anomaly by bisection, explicit rotation matrices')
prop('C19','Numerical propagation composes, reverses and follows the summed forces',
 "Propagating over two consecutive spans equals propagating over their sum, propagating back returns to the start, an epoch advances by exactly the requested span, and all integrators agree within tolerance, for every force set. A composite force is the sum of its parts in any order, each named force equals its directly built counterpart, energy and angular momentum are kept under central gravity, the state-transition matrix predicts small perturbations and composes, and a missing provider is reported instead of ignored.",
 ['inputs','configurations','histories'],'all bounded subsets and orders of force models, integrators, step splits, signs of span, orbit shapes',
 'tests propagate one or two orbits; the laws are over all force subsets, splits and directions',
 ['src/astro/dynamics/propagation/propagator.rs','src/pod/propagation/integrators.rs','src/pod/propagation/variational.rs','src/pod/force/registry.rs','src/pod/force/config.rs','src/pod/force/empirical_periodic.rs','src/astro/dynamics/forces/mod.rs','src/astro/dynamics/forces/drag.rs','src/astro/dynamics/forces/geopotential.rs','src/astro/dynamics/forces/third_body.rs','src/astro/dynamics/context.rs'],
 [('integrator adapters and force registry','src/pod')],['propagate','propagate_with_stm','registry build','acceleration'],
 level='exploration',technique='exhaustive enumeration of force subsets, orders, provider subsets, registrations, integrators, spans and splits on the real code, against independently derived accelerations and an independent integrator',
 note='bounded grids of states and epochs; event times compared loosely because the dependency interpolates linearly')
prop('C20','Visibility, eclipse and local-frame geometry follow the exact geometry',
 "For every observer, target and body placement, line-of-sight obstruction, disc-overlap fraction and eclipse state agree with exact geometry, move monotonically from none to full as the bodies align, and are unchanged by common rotations; shadow factors lie in [0,1]. Azimuth, elevation and range reconstruct the target vector, terrain masks interpolate their samples circularly for any sample order or angle representation, and radial/transverse/normal frames are right-handed, orthonormal and invertible.",
 ['inputs'],'all bounded grids of placements including grazing, coincident, behind-observer and seam cases; all sample orders',
 'tests check a few placements',
 ['src/mission/geometry/occultation.rs','src/mission/geometry/eclipse.rs','src/mission/geometry/az_el_range.rs','src/mission/geometry/terrain_mask.rs','src/mission/geometry/orbit_relative.rs','src/mission/geometry/fov.rs','src/mission/geometry/local_frame.rs','src/astro/dynamics/forces/srp.rs','src/pod/qc/orbit_compare.rs'],
 [('ray/sphere and disc-overlap formulas','src/mission/geometry')],['line_of_sight_obstructed','occultation_fraction','eclipse_state','azimuth_elevation_range','TerrainMask','rtn_diff'],
 level='exploration',technique='exhaustive enumeration of bounded placement grids on the real code, each judged against explicit vector geometry',
 note='SRP shadow models, occultation fraction/state, LOS, look angles, terrain masks (every order of samples), beta, LTAN, RTN, FOV.')
prop('C21','Estimators depend only on the accepted measurements, not on their order',
 "The least-squares solution, covariance and fit statistic are those of the accepted rows whatever order they arrive in, a refused row or measurement leaves the estimator exactly as it was, and a sequential filter without process noise reaches the batch solution. Covariances stay symmetric and non-negative and never grow in an update, iterated fitting converges to the batch solution, and process noise over two consecutive spans composes to the noise over the sum.",
 ['histories','inputs'],'all sequences up to a bounded length over a small alphabet of rows and measurements, valid and invalid',
 'tests feed one valid sequence; order independence and rejection atomicity are properties of histories',
 ['src/pod/estimation/wls.rs','src/pod/estimation/sequential.rs','src/pod/estimation/nonlinear.rs','src/pod/process/noise.rs','src/pod/problem/covariance.rs'],
 [('validated accumulation, symmetric update','src/pod/estimation')],['add_row/solve','update_scalar/predict','gauss_newton','q_matrix'],
 state=[('normal equations','accumulated information of accepted rows','src/pod/estimation/wls.rs'),('filter state','estimate and covariance','src/pod/estimation/sequential.rs')],
 level='model_checking',technique='explicit-state exploration of every bounded history of rows, refusals, measurements and predictions on the real estimators, against an independent batch solution',
 note='Histories up to length 5 (quick) / 6 (thorough); all row orders of up to 9 rows; noise composition grids.')
prop('C22','Star catalogue queries return exactly the matching stars',
 "A cone query, plain, at another epoch or in chunks of any size, returns exactly the catalogued stars whose true angular separation from the centre is within the radius and which pass the filter, in catalogue order, including around the poles, across the 0/360 seam and for radii up to the whole sky. Ingesting a table keeps every row's values, reports the failing column and line otherwise, and proper motion moves a star by its stated rate.",
 ['inputs','histories'],'all bounded catalogues over a grid of sky positions, centres, radii, filters and chunk sizes; all column subsets and orders of an ingested table',
 'tests use a few stars near one field; poles, seam, antipodes and chunk boundaries need enumeration',
 ['src/catalogs/catalog.rs','src/catalogs/record.rs','src/catalogs/ingest.rs'],
 [('angular-separation test and filter','src/catalogs/record.rs')],['cone_search','cone_search_at_epoch','cone_search_chunked','parse_csv_chunk','propagate_to'],
 level='exploration',technique='bounded exhaustive enumeration of catalogues, cones, filters, chunk sizes, tables and table faults on the real code against a vector-angle reference model',
 note='Exhaustive over the stated grids on the implementation itself; not a statement about all real inputs.')
prop('C23','Run products are deterministic, complete and faithful',
 "A run manifest is byte-identical for every order in which its inputs and outputs were recorded, digests equal the standard SHA-256 of the bytes for every length and a pinned digest accepts nothing else, residual statistics equal their definitions independently of order and grouping adds up to the whole. Every residual record written as text or columnar data is read back unchanged (text to its printed decimals), and a record the text writer acknowledged survives a failure of its sink at any byte. Written orbit products read back to the same states with a header that describes them; product names encode the date and sampling they were made from. Orbit comparisons resolve differences into radial, transverse and normal components; thrust-arc and parameter descriptions list every enabled element once, and a covariance with a wrong size, asymmetry or negative variance is refused.",
 ['histories','inputs'],'all permutations and multisets of bounded size of recorded items; all message lengths across block boundaries; all option subsets; every byte at which a sink fails',
 'tests check one manifest and one statistic',
 ['src/pod/run/manifest.rs','src/pod/run/dataset.rs','src/pod/qc/residuals.rs','src/pod/product/residuals_csv.rs','src/pod/product/residuals_parquet.rs','src/pod/product/orbit.rs','src/pod/product/naming.rs','src/pod/force/config.rs','src/pod/force/thrust_arc.rs','src/checksum.rs'],
 [('canonical ordering before serialisation','src/pod/run/manifest.rs')],['to_json_pretty','from_slice','CSV/columnar writers','orbit writers'],
 level='fault_enumeration',technique='exhaustive enumeration of recording orders, message lengths, samples, record sequences, sink-failure points and product options on the real code, against an independent SHA-256, statistical definitions, an RFC 4180 reader, the format readers and calendar counting',
 note='Text columns are compared to their printed decimals; product epochs to 1e-4 s.')
prop('C24','Bundled and equilibrium-point ephemerides are mutually consistent',
 "For every body and epoch of the supported range, barycentric and heliocentric positions differ by the Sun's position, velocities are the time derivatives of positions, the Earth, Moon and Earth-Moon barycentre satisfy their mass-ratio relation, and the static and dynamic ephemeris interfaces give the same answers. Positions equal the sum of the published series terms. A solved Sun-Earth equilibrium point balances gravity against the motion of the rotating Sun-Earth frame, lies where its name says (L1 between, L2 behind the Earth, L3 opposite, L4 ahead, L5 behind in the orbit), does not depend on the starting guess near it, and is an error rather than a wrong point when the ephemeris refuses or the frame is degenerate. Fitted tables tile the requested span, reproduce the direct solution with the error they report, refuse when the tolerance is not met, and tables answer exactly inside the span they cover and refuse outside it.",
 ['inputs','configurations'],'all bodies, points, epochs of the supported range including table and record edges, and ephemeris backends',
 'tests check selected dates; record edges and each body/series need systematic enumeration',
 ['src/event/lunar/meeus_ch47.rs','src/ephemeris/mod.rs','src/ephemeris/vsop87_backend.rs','src/ephemeris/vsop87/mod.rs','src/ephemeris/elp2000/mod.rs','src/ephemeris/lagrange/embedded.rs','src/ephemeris/lagrange/fit.rs','src/ephemeris/lagrange/solver.rs','src/ephemeris/lagrange/mod.rs','src/ephemeris/runtime_backend.rs'],
 [('series evaluation and equilibrium solver','src/ephemeris')],['Ephemeris','DynEphemeris','Lagrange positions'],
 level='exploration',technique='exhaustive enumeration of bodies, epochs, interface methods, refusal patterns, solver settings, synthetic Sun-Earth-Moon systems, fits and every embedded table block on the real code, against term-by-term series sums, difference quotients and the force balance',
 note='~22.7 k cases quick, 231 k thorough')
prop('C25','Element-set propagation is a well-defined function of time',
 "For every valid element set, propagating by minutes and propagating to the corresponding epoch agree, the state at the element epoch has the stated anomaly and plane, velocity is the time derivative of position, forward and backward times are both valid, and no valid element set makes propagation fail; unsupported or decayed sets are refused with an error.",
 ['inputs'],'all boundary combinations of eccentricity, inclination, mean motion, anomaly and time',
 'tests propagate one or two satellites; solver failures appear for particular anomaly/eccentricity pairs',
 ['src/astro/sgp4/propagator.rs','src/astro/sgp4/elements.rs','src/astro/sgp4/state.rs'],
 [('secular drift plus anomaly solver','src/astro/sgp4/propagator.rs')],['propagate_at','propagate_minutes'],
 level='exploration',technique='exhaustive enumeration of bounded element-set and time combinations on the real propagator against independent mean-element motion',
 note='Bounded lattice of elements, models and times.')
prop('C26','Sky grids cover their region once with the right total area',
 "For every altitude range, step and grid kind, the cells of a sky grid come in rows of ascending altitude at the documented cell centres, all inside the range, with the row and cell counts the steps imply, and every traversal and the reported length agree. When the steps divide the range and circle the cells are disjoint, cover the region exactly once, and their solid angles add up to its analytic area within the mid-cell approximation.",
 ['inputs','configurations'],'all bounded combinations of range, step and grid kind',
 'tests check one or two grids',
 ['src/coordinates/sampling.rs'],
 [('uniform and equal-area cell construction','src/coordinates/sampling.rs')],['SkyGrid cells'],
 level='exploration',technique='exhaustive enumeration of bounded grid configurations, every cell visited',
 note='Every cell of every grid in the bounded configuration space.')
prop('C27','Manoeuvre bookkeeping conserves mass and obeys the rocket equation',
 "After any sequence of accepted and refused burns, the current mass equals the initial mass minus all propellant recorded, the totals equal the sums of the records, the total velocity change equals the rocket equation from first to last mass per constant exhaust speed, and a refused burn changes nothing. Thrust acts exactly during its half-open interval along the unit direction with magnitude force over mass.",
 ['histories','inputs'],'all burn sequences up to a bounded length over a small alphabet with valid and invalid burns; epochs at and around interval ends',
 'tests log one or two burns',
 ['src/pod/force/low_thrust.rs','src/pod/force/thrust.rs'],
 [('validated append','src/pod/force/low_thrust.rs')],['append','thrust_acceleration','mass_flow_rate'],
 state=[('burn log','mass, totals, records','src/pod/force/low_thrust.rs')],
 level='model_checking',technique='explicit-state exploration of all bounded burn histories, each replayed in lock-step on a reference model and the implementation',
 note='All histories to the depth bound over an alphabet of valid and invalid burns, every one executed on the implementation.')
prop('C28','Interpolated and derived standard-atmosphere and clock scales invert',
 "Pressure-altitude and altitude-pressure conversions, geometric and geopotential altitudes, and spacecraft-clock and ephemeris-time conversions are mutually inverse and monotone over their whole range and continuous across layer and partition boundaries; leap-second offsets step exactly at the tabulated epochs.",
 ['inputs','configurations'],'all altitudes across layer boundaries; all bounded clock and leap-second tables and times at and around each step',
 'tests check a few values; steps and layer boundaries need enumeration',
 ['src/bodies/aircraft/isa.rs','src/formats/spice/sclk.rs','src/formats/spice/lsk.rs','src/formats/sck.rs'],
 [('piecewise formulas and tables','src/bodies/aircraft/isa.rs')],['isa functions','sclk/lsk conversions'],
 level='exploration',technique='exhaustive enumeration of bounded clock/leap-second tables, record orders and boundary times on the real code',
 note='ISA judged by hydrostatic balance and published levels.')
prop('C29','First use of shared lazily built tables is safe from any thread',
 "When several threads use lookups backed by shared, lazily built tables for the first time at the same moment, each gets the same values a single-threaded program would.",
 ['schedules'],'all interleavings of first uses',
 'tests never race first uses',
 ['src/coordinates/transform/frames/bias.rs','src/atmosphere/ozone.rs','src/photometry/passbands/bessell1990.rs','src/ephemeris/lagrange/embedded.rs'],
 [('standard-library one-time cells','src')],['first use of each table'],
 na="Every shared table is a std::sync::OnceLock/LazyLock initialised by a pure function; there is no lock, atomic or thread in the crate's own code for a controlled scheduler to interleave, and loom/shuttle cannot model std's cells without replacing them, so an exploration would check the replacement rather than the code.")
prop('C30','Tracking observation residuals follow the published measurement equations',
 "The residual of a tracking observation is the measurement minus the documented model. For GNSS code and phase the model is the geometric range plus c(receiver clock - satellite clock) plus troposphere plus ionosphere plus Sagnac minus the relativistic satellite clock term -2 r.v/c^2; phase takes the ionosphere with the opposite sign and adds the ambiguity in wavelengths, and its cycles are metres over the wavelength. Clocks are those of the observation's own satellite and epoch. The Saastamoinen and Klobuchar delays follow their published formulas; ionospheric delays scale with carrier frequency as 1/f^2. Laser normal points are two-way: twice the range after one light-time step, plus Marini-Murray refraction of both legs and the Shapiro delay. Correction pipelines apply every correction once, in registration order, and batches return exactly the observations of an epoch in order.",
 ['inputs','configurations'],'every geometry, delay model, provider answer, frequency, correction order and batch order',
 'tests check one geometry per model, mostly with zero corrections',
 ['src/pod/observation/gnss_obs.rs','src/pod/observation/slr_obs.rs','src/pod/observation/corrections.rs','src/pod/observation/batch.rs','src/pod/observation/provider_bundle.rs'],
 [('measurement models','src/pod/observation/gnss_obs.rs'),('correction pipeline','src/pod/observation/corrections.rs'),('batch epochs','src/pod/observation/batch.rs')],['predict/residual/partials of each observation','correction pipelines','ObservationBatch'],
 level='exploration',technique='exhaustive enumeration of geometries, delay models, provider answers, frequencies, correction sequences and batches on the real code',
 note='Every combination over the grids; residuals compared with independently coded measurement equations.')
prop('C31','The C interface answers exactly as the library does and leaks nothing',
 "Every C entry point gives, in its documented fields and units and labelled with the right frame, centre and unit, the answer the Rust library gives for the same question, for every code, body, frame, centre, orbit reference, length unit, subject kind and Earth-orientation model. A code, frame, centre, option or text without a meaning is refused with a status and leaves the outputs alone; a null pointer in any argument that needs one is reported as a null pointer. Damaged kernels, element sets and messages are refused or answered as the library answers them, and never end in a panic status. Names and codes convert into each other and agree with the library's names; enumerator values and structure layouts are the published ones. Every history of creating, using and freeing handles and arrays gives the answers of the objects alive at that point and returns all memory once everything is freed.",
 ['inputs','histories','configurations'],'all code combinations, null-pointer masks, damaged texts and bounded handle histories',
 'tests check one value per function, mostly only the status; swapped fields, ignored labels and leaks pass them',
 ['siderust-ffi/src/coordinates.rs','siderust-ffi/src/altitude.rs','siderust-ffi/src/azimuth.rs','siderust-ffi/src/bodies.rs','siderust-ffi/src/context.rs','siderust-ffi/src/dynamics.rs','siderust-ffi/src/ephemeris.rs','siderust-ffi/src/ffi_utils.rs','siderust-ffi/src/lambert.rs','siderust-ffi/src/observatories.rs','siderust-ffi/src/oem.rs','siderust-ffi/src/phase.rs','siderust-ffi/src/runtime_ephemeris.rs','siderust-ffi/src/sampling.rs','siderust-ffi/src/sgp4.rs','siderust-ffi/src/subject.rs','siderust-ffi/src/target.rs','siderust-ffi/src/twilight.rs','siderust-ffi/src/types.rs'],
 [('code dispatch and marshalling','siderust-ffi/src'),('ownership transfer of handles and arrays','siderust-ffi/src/ffi_utils.rs')],['every extern "C" function'],
 state=[('live handles and arrays','created and not yet freed','siderust-ffi/src')],
 level='fault_enumeration',technique='exhaustive enumeration of argument codes, null-pointer masks, damaged inputs and bounded handle histories on the real C entry points, against the Rust library called directly and a live-allocation counter',
 note='Every extern C function except version/printing ones; 53 k cases quick, 895 k thorough.')
prop('C32','Earth-rotation quantities obey the IAU definitions',
 "For every date: the Earth rotation angle follows its defining formula however the date is split; mean sidereal time is that angle plus the published precession; apparent sidereal time equals what the geometry of the pole implies when the non-rotating origin is carried along day by day; the precession matrix agrees with the other published parametrisations of the same theory and the ecliptic of date with its pole; the full and abridged nutation series agree to 1 mas of the pole over 1995-2050 and the 2006 variant differs by the published factors; intermediate-frame, polar-motion, ecliptic and frame-bias matrices are the documented products and their inverses.",
 ['histories','inputs'],'all days and half days of four centuries x all nutation models; the whole day-by-day path of the origin from J2000 in both directions',
 'tests hold single reference dates; drifts, wrong rates and sign errors in small terms only show over the whole span or against an independent derivation',
 ['src/astro/era.rs','src/astro/sidereal.rs','src/astro/cio.rs','src/astro/precession.rs','src/astro/nutation/mod.rs','src/astro/nutation/nut00a.rs','src/astro/polar_motion.rs','src/astro/frame_bias.rs'],
 [('Earth rotation angle and complementary terms','src/astro/era.rs'),('sidereal time','src/astro/sidereal.rs'),('four-angle precession','src/astro/precession.rs'),('nutation series','src/astro/nutation/nut00a.rs')],
 ['earth_rotation_angle','gmst_iau2006','gast_iau2006','precession_matrix_iau2006','NutationModel','cip_cio','polar_motion_matrix'],
 level='model_checking',technique='explicit-state model of the non-rotating origin carried day by day along the pole computed by the real code, every state compared with the library; exhaustive date grid for the closed-form definitions against independent published parametrisations',
 note='the compact CIO locator omits its periodic terms (2.7 mas), as documented.',
 state=[('pole and origin','unit vector of the pole and the accumulated origin angle at a date','mc/src/c32.rs')])
prop('C33','Star motion, light deflection and correction policies',
 "For every star: space motion is straight-line motion of the catalogue position and velocity, whatever the epochs, and stopping on the way changes nothing; catalogue rates without distance move right ascension and declination linearly, wrapping and reflecting correctly, and impossible inputs are refused; starlight bends away from the Sun, Jupiter or Saturn by Einstein's angle in the plane of star and body, and the inverse undoes it; correction policies behave as sets; a star or body asked for through the tracking, altitude, azimuth and horizontal interfaces is at one place.",
 ['inputs','configurations'],'all stars of a grid up to the poles x all motions x all epochs; all deflection geometries; all policies',
 'tests hold a few stars; signs, wraps, units and pole behaviour only show over all combinations',
 ['src/astro/proper_motion.rs','src/astro/light_deflection.rs','src/astro/apparent.rs','src/targets/target.rs','src/targets/trackable.rs','src/event/horizontal.rs','src/bodies/solar_system.rs'],
 [('space motion','src/astro/proper_motion.rs'),('light deflection','src/astro/light_deflection.rs'),('correction policy','src/astro/apparent.rs'),('horizontal stars','src/event/horizontal.rs')],
 ['propagate_space_motion','set_proper_motion_since_j2000','solar_deflection','body_deflection','CorrectionPolicy','star_horizontal_with_policy','Trackable'],
 level='exploration',technique='exhaustive enumeration of stars, motions, epochs, deflection geometries and policies on the real code, against straight-line motion in Cartesian space and the closed form of the deflection',
 note='straight-line motion without light-time terms, as documented.')
prop('C34','Atmosphere, passbands and moonlight',
 "At every zenith distance the air-mass formulas follow their publications, grow towards the horizon and agree with a ray through a round atmosphere where they claim to; the airglow factor is the chord of a thin shell; molecular and aerosol optical depths follow their laws in wavelength, pressure and altitude and add up; transmission is exponential in depth times air mass; phase functions integrate to one and tables interpolate bilinearly and clamp; ozone and passband curves reproduce their data at every point and between; moonlight falls with phase by the published magnitude law and with the square of the distance, and meaningless inputs give NaN.",
 ['inputs'],'all zenith distances, wavelengths, phases and tables of fine grids; every point of every data file; every small table',
 'tests hold single points; units, clamps, axis order and distance laws only show over all of them',
 ['src/atmosphere/airmass.rs','src/atmosphere/extinction.rs','src/atmosphere/mie.rs','src/atmosphere/rayleigh.rs','src/atmosphere/ozone.rs','src/atmosphere/profile.rs','src/atmosphere/scattering.rs','src/atmosphere/airglow.rs','src/photometry/passbands/mod.rs','src/photometry/passbands/bessell1990.rs','src/event/lunar/photometry.rs'],
 [('air mass','src/atmosphere/airmass.rs'),('optical depth','src/atmosphere/profile.rs'),('tabulated phase function','src/atmosphere/scattering.rs'),('moonlight','src/event/lunar/photometry.rs')],
 ['airmass','van_rhijn_factor','AtmosphereProfile','TabulatedPhaseFunction','transmission_table','passbands','reflected_lunar_spectral_radiance_jones2013'],
 level='exploration',technique='exhaustive enumeration of zenith distances, wavelengths, phases, tables and data points on the real code, against ray tracing, independent fits and the data files read separately',
 note='the data files are the reference for ozone and passbands.')
prop('C35','Bodies, constants, builders and mission registries',
 "The published constants describe the bodies they name: each planet's orbit stays on the real planet for decades, periods and densities are the known ones, moons orbit their parents in the known times, comets and asteroids pass perihelion when they did, rotation elements follow the published laws and put poles and the Moon's face where they are, stars and observatories lie where catalogues put them, lists are complete and in order. Builders return exactly what was set, last value first, and refuse missing fields; a catalogue star moves by every combination of known motions as its model says; mission registries behave as maps under every history.",
 ['inputs','histories'],'all constants over decades of dates; all builder call sequences to depth 5; all registry histories to depth 5; all combinations of star motions over a sky grid',
 'tests pin the constants to themselves; only independent knowledge of the bodies over many dates shows a wrong one',
 ['src/bodies/solar_system.rs','src/bodies/planets.rs','src/bodies/comet.rs','src/bodies/asteroid.rs','src/bodies/satellite.rs','src/bodies/stars.rs','src/bodies/catalog.rs','src/catalogs/observatories.rs','src/mission/context.rs','src/mission/site.rs','src/astro/orientation.rs'],
 [('planet constants','src/bodies/solar_system.rs'),('builders','src/bodies/planets.rs'),('star motion','src/bodies/stars.rs'),('registry','src/mission/context.rs')],
 ['PLANETS','MAJOR_MOONS','COMET_PRESETS','Planet::builder','Star::position_at','MissionContext','IauRotationParams'],
 level='exploration',technique='exhaustive enumeration of constants and dates, builder call sequences, star motion combinations and registry histories on the real code, against planetary theory, independent literature values and lock-step map models',
 note='constants are approximate; tolerances are the accuracy of two-body motion over the decades covered.')
prop('C36','SPICE text kernels mean what NAIF says',
 "A text kernel read by the library holds exactly the names and values its data sections assign, in order, with appends, lists, quoted strings, exponents and comments as NAIF defines them, whatever the layout; a kernel with a broken statement is refused rather than read in part. Instruments, frames with constant matrices, body pole and prime-meridian rotations, radii, spacecraft clocks with their moduli, and body names mean what NAIF's documents say; entries that are absent are absent and malformed ones are refused.",
 ['inputs','histories'],'all statement sequences to depth 2 over the whole alphabet of values and to depth 3 over a part, in all layouts; all combinations of present, absent and malformed entries of instruments and frames; grids of poles, meridians, rates, clocks',
 'tests hold one well-formed kernel of each kind; layouts, appends, column order, clock units and the refusal of each malformed entry only show over all combinations',
 ['src/formats/spice/text.rs','src/formats/spice/ik.rs','src/formats/spice/fk.rs','src/formats/spice/pck.rs','src/formats/spice/sclk.rs','src/formats/spice/lsk.rs','src/formats/spice/naif.rs'],
 [('kernel pool','src/formats/spice/text.rs'),('instrument kernels','src/formats/spice/ik.rs'),('frame kernels','src/formats/spice/fk.rs'),('body orientation','src/formats/spice/pck.rs'),('spacecraft clocks','src/formats/spice/sclk.rs')],
 ['TextKernel::parse','IkKernel::from_text','FrameKernel::from_text','PckKernel::from_text','SclkKernel::from_text','naif_id_for_name'],
 level='model_checking',technique='explicit-state model of the kernel pool run in lock step with the real parser over every bounded statement sequence and layout; exhaustive combinations of present, absent and malformed entries on the real code',
 note='body orientation without nutation terms and clocks without moduli in ticks per second, as documented.',
 state=[('kernel pool','names and value lists after each statement','mc/src/c36.rs')])
