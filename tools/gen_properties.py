"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw))
    P.append(d)

p('V01', 'Vector arithmetic is exact 3-D Euclidean vector algebra',
  'For all vectors and scalars, sum, difference, scaling (from either side), dot product, cross product, magnitude, distance and normalisation equal their component definitions, never modify their operands, and two vectors compare equal exactly when all three components are equal. '
  'Normalising a non-zero vector gives a vector of length one with the same direction. '
  'Combining a vector with something that is not a vector (or scaling it by something that is not a number) raises TypeError.',
  ['inputs'], 'all real component values and all scalars; all operand types',
  'The tests check two or three fixed vectors; a wrong sign or a swapped component that vanishes for axis-aligned operands is invisible to them.',
  ['impactutils/vectorutils/vector.py'], [('Vector operators and methods', 'impactutils/vectorutils/vector.py')])

p('V02', 'Geographic and Earth-centred coordinates convert consistently both ways',
  'Converting latitude, longitude and depth (km, positive down) to Earth-centred coordinates gives the WGS84 ellipsoid position in metres, element by element for arrays of any shape. '
  'Converting back returns the same latitude, longitude in (-180, 180] and depth to within 1e-6 degrees and 1 metre for every point from 700 km deep to 50 km high, poles and date line included, with scalars in giving scalars out and the inputs left unmodified. '
  'Points and vectors built from one another through these conversions agree with them.',
  ['inputs'], 'all latitudes in [-90, 90], longitudes in [-180, 180], depths in [-50, 700] km; scalars and arrays of any length',
  'The tests round-trip a few mid-latitude points; quadrant, pole, depth-sign and date-line errors need particular inputs.',
  ['impactutils/vectorutils/ecef.py', 'impactutils/vectorutils/vector.py', 'impactutils/vectorutils/point.py'],
  [('latlon2ecef', 'impactutils/vectorutils/ecef.py'), ('ecef2latlon', 'impactutils/vectorutils/ecef.py'),
   ('Vector.fromPoint, Vector.toPoint', 'impactutils/vectorutils/vector.py')])

p('V03', 'Distances and bearings between places are those of the great circle',
  'The distance between two places, or element by element between a place and arrays of places of any shape, is that of the great circle on a sphere of 6371 km radius (in proportion to the diameter when another is given): never negative, at most half way round, the same both ways, zero from a place to itself and the difference in latitude along a meridian. '
  'The bearing lies in [0, 360) and is that of the great circle at the first place, clockwise from north; with depths, the square of the distance is that of the horizontal plus that of the vertical distance. '
  'Longitudes and latitudes of different shape are refused, inputs are not modified, and a point gives its longitude, latitude and depth (zero when not given) and the bearing of another point.',
  ['inputs'], 'all places (longitudes in [-360, 360]), all depths, arrays of any shape',
  'The tests of the compass and of the cities use a few places of mid latitudes; signs, poles, the date line and antipodes need particular inputs.',
  ['impactutils/extern/openquake/geodetic.py', 'impactutils/vectorutils/point.py'],
  [('geodetic_distance, azimuth, distance, _prepare_coords', 'impactutils/extern/openquake/geodetic.py'), ('Point', 'impactutils/vectorutils/point.py')])

p('D01', 'Distance to one quadrilateral is the true minimum distance',
  'For every set of sites and every planar quadrilateral, the reported distance is the distance to the plane when the site projects inside the four edges, and otherwise the smallest distance to the four edge segments; in surface-projection mode corner depths are ignored and a site over the quadrilateral gets exactly zero. '
  'The squared distance to a segment is exactly the minimum over all points of the segment, including degenerate segments whose ends coincide and sites beyond either end. '
  'Each site is evaluated independently of the others, results are in kilometres, and the inputs are not modified.',
  ['inputs'], 'all site positions, all quadrilateral corner positions, any number of sites',
  'Tests compare a stored grid for a few ruptures; the region (inside, beside an edge, beyond a corner) a site falls in is a case split over all real positions.',
  ['impactutils/rupture/utils.py'], [('_distance_sq_to_segment', 'impactutils/rupture/utils.py'), ('_quad_distance', 'impactutils/rupture/utils.py')])

p('D02', 'Rupture distances are minima over the parts and requests are honoured exactly',
  'For a quadrilateral rupture the rupture distance and the Joyner-Boore distance of every site equal the minimum over all its quadrilaterals of the distance to that quadrilateral (respectively to its surface projection), for a rupture given by its top and bottom edges the smallest distance to a node of the mesh of its cells (respectively of the cells at the surface); both keep the shape of the site arrays, and hypocentral and epicentral distances are measured from the origin at its depth and at depth zero. '
  'A request for distance measures returns every requested measure (with a variance entry for rupture and Joyner-Boore distance, all five strike-based coordinates when any of them is requested, and zeros for the volcanic distance), and nothing that was not asked for. '
  'Unknown measures are refused, and latitude, longitude and depth arrays whose shapes differ are refused with a consistent-length error.',
  ['inputs', 'configurations'], 'all subsets of the measures, all shapes, any number of sites and of quadrilaterals',
  'Tests use one rupture and a fixed list of measures; the minimum over any number of quadrilaterals and every subset of measures are not sampled.',
  ['impactutils/rupture/distance.py', 'impactutils/rupture/quad_rupture.py', 'impactutils/rupture/base.py', 'impactutils/rupture/point_rupture.py'],
  [('get_distance', 'impactutils/rupture/distance.py'), ('QuadRupture.computeRrup, computeRjb', 'impactutils/rupture/quad_rupture.py'), ('Rupture.computeRhyp, computeRepi', 'impactutils/rupture/base.py')])

p('Q01', 'Quadrilateral geometry measures match their geometric definitions',
  'For every quadrilateral with a non-degenerate top edge: length is the top-edge length in km; the strike, normal, down-dip and vertical vectors have unit length, the normal is perpendicular to the top and left edges, down-dip is perpendicular to strike and normal and points from the top edge towards the bottom; width is the distance in km from the top-left to bottom-left corner measured perpendicular to the top edge; dip is the angle between normal and vertical. '
  'Reversing a quadrilateral swaps the ends of both edges and is its own inverse, and the distance to a plane is the perpendicular distance in metres from the point to the plane through three points. '
  'The sub-fault mesh has its outer corners on the quadrilateral corners, at least one cell each way, and every cell centre is the average of its four corners.',
  ['inputs'], 'all quadrilaterals (any corner positions with non-coincident top corners), all mesh spacings > 0',
  'Stored expected numbers for two or three ruptures cannot distinguish sign and orientation errors that cancel for those ruptures.',
  ['impactutils/rupture/utils.py'], [('get_quad_length, get_quad_width, get_quad_dip, get_quad_normal, get_quad_strike_vector, get_quad_down_dip_vector, get_vertical_vector, reverse_quad, get_distance_to_plane, get_quad_mesh', 'impactutils/rupture/utils.py')])

p('Q02', 'Whole-rupture summary quantities aggregate their quadrilaterals correctly',
  'Total length is the sum of quadrilateral lengths, area the sum of length times width, width and dip the mean over quadrilaterals, depth to top the smallest corner depth, and strike the length-weighted circular mean of top-edge azimuths; individual widths and lengths are listed in quadrilateral order, and counts of quadrilaterals and groups match the input polygons. '
  'Polygons are split into quadrilaterals pairing each top edge with the bottom edge below it, group indices and outlines keep each polygon (given in strike order, dipping to the right) together in order and closed, and asking for the quadrilaterals never lets a caller modify the rupture. A rupture given by its top and bottom edges has the surface length of its top edges, the area of its cells, their ratio as width, the smallest top depth, and one quadrilateral per pair of neighbouring edge points of a group. '
  'The depth below a place is that of the plane of the quadrilateral nearest to it (of its top at the top edge, of its bottom at the bottom edge, in proportion between), and NaN away from the rupture. '
  'The rupture context handed to ground-motion models carries magnitude, strike, dip, rake, depth to top, width and hypocentre of that rupture and origin.',
  ['inputs'], 'all ruptures with any number of polygons and of quadrilaterals per polygon',
  'Tests use a handful of ruptures; any number of polygons and points is possible.',
  ['impactutils/rupture/quad_rupture.py', 'impactutils/rupture/base.py'],
  [('QuadRupture.getLength, getWidth, getArea, getDip, getStrike, getDepthToTop, getIndividualWidths, getIndividualTopLengths', 'impactutils/rupture/quad_rupture.py'), ('QuadRupture._setQuadrilaterals, lats, lons, depths, getQuadrilaterals, getDepthAtPoint', 'impactutils/rupture/quad_rupture.py'), ('Rupture.getRuptureContext', 'impactutils/rupture/base.py')])

p('Q03', 'Ruptures built from a trace, an orientation or vertices have the requested shape',
  'A rupture built from top-edge points, widths and dips keeps the given top-edge points and depths, and each bottom edge lies at depth top + width x sin(dip) and is displaced horizontally by width x cos(dip) to the right of the strike direction (computed from the trace unless given). '
  'A rupture built from a known point, along-strike and down-dip offsets, length, width, strike and dip puts its top edge at depth point depth - offset x sin(dip), and a rupture built from full vertices keeps exactly those vertices, grouped as asked. '
  'Input sequences of unequal length are refused with a consistent-length error, and a strike list that is neither one value nor one per quadrilateral is refused.',
  ['inputs'], 'all traces, widths > 0, dips in (0, 90], strikes, and any number of quadrilaterals',
  'Tests build three ruptures; wrong-side or swapped sine and cosine errors vanish for particular dips and strikes.',
  ['impactutils/rupture/quad_rupture.py'], [('QuadRupture.fromTrace', 'impactutils/rupture/quad_rupture.py'), ('QuadRupture.fromOrientation', 'impactutils/rupture/quad_rupture.py'), ('QuadRupture.fromVertices', 'impactutils/rupture/quad_rupture.py')])

p('G01', 'Strike-parallel and strike-normal coordinates follow their definition',
  'For a rupture made of a single straight segment, T (and rx) is the signed distance of the site from the strike line, positive to the right of the strike direction, U is the distance along strike from the first vertex, ry is U minus half the total length, and ry0 is zero alongside the rupture and otherwise the distance beyond its nearer end. '
  'For any rupture, T and rx agree, ry0 is zero where U lies between the two ends of the rupture and otherwise the distance of U beyond the nearer end (the far end being the largest along-strike coordinate of any segment end, whatever the order of the groups), and U and T are averages of the per-segment coordinates under the segment weights, with results in the shape of the site arrays. '
  'Computing the coordinates does not modify the rupture or the site arrays.',
  ['inputs'], 'all sites, all segment end points, any number of quadrilaterals in a group',
  'Stored grids for a few ruptures do not cover sites on the strike line, beyond the ends, or behind the trace.',
  ['impactutils/rupture/gc2.py'], [('_computeGC2', 'impactutils/rupture/gc2.py'), ('__calc_u_i, __calc_t_i', 'impactutils/rupture/gc2.py')])

p('R01', 'Rupture polygons are accepted exactly when well formed and read in order',
  'A rupture description is accepted only if every polygon has an odd number of points, its first and last points coincide, and every top point is strictly shallower than the bottom point it is paired with, within a feature collection holding exactly one point or multi-polygon feature and a reference. '
  'A text file, in the new format (columns separated by blanks: longitude, latitude, depth) or the old (blanks or commas: latitude, longitude, depth), yields longitude, latitude, depth triples, split into polygons at separator lines, with comments collected as the reference, and polygons that only need their starting point moved are rotated without changing their points. '
  'The rupture class chosen is the point class without a file or for point geometry, the quadrilateral class exactly when every quadrilateral is planar within tolerance with horizontal top and bottom edges, and the edge class otherwise; a rupture written as GeoJSON and read back keeps its class, vertices, origin and reference, and the text file written for a quadrilateral rupture holds the closed polygon of every quadrilateral to four decimals.',
  ['inputs'], 'all polygons of any number of points and all depths; all text files in the format; all GeoJSON dictionaries',
  'Tests use about ten files; validity depends on every pair of points for arbitrary polygon sizes.',
  ['impactutils/rupture/factory.py', 'impactutils/rupture/utils.py'],
  [('_check_polygon, _rotate_polygon, validate_json, text_to_json, is_quadrupture_class, rupture_from_dict_and_origin, get_rupture', 'impactutils/rupture/factory.py'), ('is_quad', 'impactutils/rupture/utils.py')])

p('O01', 'Origins are validated and mechanism, rake and dip stay in range',
  'An origin is created exactly when all required keys are present, the id is a string or None, latitude is in [-90, 90], longitude in [-180, 180] and the mechanism is one of the four known ones (an absent or empty mechanism means ALL, the old "type" key is honoured), otherwise the documented error is raised; every given value becomes an attribute and rake defaults from the mechanism (0 for ALL). '
  'Setting the mechanism stores the given rake folded into [-180, 180] by at most one turn, dip within [0, 90] or the documented default for either, and leaves the origin untouched when it raises ValueError. '
  'Rake maps to strike-slip within 30 degrees of 0 or +-180, to reverse within 30 degrees of 90, to normal within 30 degrees of -90, and to ALL elsewhere or when absent.',
  ['inputs'], 'all event dictionaries, all mechanism strings, all real rakes and dips',
  'Tests build a few origins; range edges and the fold of the rake are over all reals.',
  ['impactutils/rupture/origin.py', 'impactutils/rupture/constants.py', 'impactutils/rupture/utils.py'],
  [('Origin.__init__, Origin.setMechanism', 'impactutils/rupture/origin.py'), ('rake_to_mech', 'impactutils/rupture/utils.py')])

p('O02', 'Event files survive a write and read, and source files parse faithfully',
  'An event written to a file and read back has the same id, network, location text, mechanism, reference and product code, its latitude and longitude to four decimals, depth and magnitude to one decimal, and its time to the precision of the format, for every year from 1 to 9999. '
  'A missing required attribute or an unparsable time is reported as an error rather than defaulted, and files in the old style with separate date and time attributes are read to the same time. '
  'Key-value source files yield every non-comment line as key and value, with numbers converted to int or float.',
  ['inputs'], 'all events with printable text fields, all dates from year 1 to 9999',
  'Tests write one modern event; historic years, negative coordinates and optional fields are not sampled.',
  ['impactutils/rupture/origin.py', 'impactutils/time/ancient_time.py', 'impactutils/rupture/constants.py'],
  [('write_event_file, read_event_file, read_source', 'impactutils/rupture/origin.py'), ('HistoricTime.strftime', 'impactutils/time/ancient_time.py')])

p('C01', 'Colour palettes map data values linearly between their control colours',
  'A palette takes its range from the smallest lower and the largest upper value, places control points at the data values rescaled to that range with the given colours on either side, and uses at least 256 colours and enough to resolve the requested resolution. '
  'The colour of a value is the colour-map entry for its position (of its logarithm in a logarithmic palette) in the current range, missing data gets the configured colour, and the 0-255, hexadecimal and array formats are the same colour in other units. '
  'Control sequences of unequal length are refused with a consistent-length error, unknown presets and formats are refused, building a palette never changes the presets or the caller\'s sequences, and palettes from presets, files and colour maps carry the values given there.',
  ['inputs'], 'all increasing control values, all colours in 0-255, all data values inside and outside the range, all resolutions',
  'Tests check a few values of three presets; the mapping is over all reals and all palettes.',
  ['impactutils/colors/cpalette.py'], [('ColorPalette.__init__, fromPreset, fromFile, fromColorMap, getDataColor', 'impactutils/colors/cpalette.py')])

p('T01', 'Number formatting and rounding helpers honour their contracts for every number',
  'Rounding, flooring and ceiling to a multiple n return a multiple of n at distance at most n/2, less than n below-or-equal, and less than n above-or-equal respectively (n an integer of at least 1, or a decimal fraction such as 0.1 or 0.25). '
  'Roman numerals are the standard subtractive form for 1 to 3999 and ValueError outside; digit grouping inserts the separator every three digits and removing it gives back the number; population and dollar abbreviations use the suffix of the magnitude band of the value (bands closed below: 1 thousand, 1 million, 1 billion) with the value scaled by that unit and rounded to the requested digits; the short population form is the number of whole units (thousands, or millions when asked for) contained in the value rounded to the nearest thousand, and the plain whole number below a thousand. '
  'Reducing to N significant digits changes a number by at most half a unit of the N-th digit (the integer mode gives the whole part of that).',
  ['inputs'], 'all numbers in the documented ranges (all integers 1 to 3999 for Roman numerals)',
  'Tests check about twenty values; band edges and ties need particular inputs.',
  ['impactutils/textformat/text.py'], [('round_to_nearest, floor_to_nearest, ceil_to_nearest, commify, dec_to_roman, pop_round, pop_round_short, dollar_round, set_num_precision', 'impactutils/textformat/text.py')])

p('T02', 'Elapsed time decomposes exactly and is worded with its two largest units',
  'For every pair of times with the second not earlier than the first, weeks, days, hours, minutes and seconds are whole numbers with days < 7, hours < 24, minutes < 60 and seconds < 60 that add up exactly to the elapsed whole seconds; an earlier second time is an error. '
  'The wording uses the largest non-zero unit and the next smaller one (seconds alone below a minute), with a plural s exactly when the count is not 1. '
  'Unknown units are refused.',
  ['inputs'], 'all pairs of datetimes',
  'The decomposition goes through floating-point division and rounding; tests sample eight intervals.',
  ['impactutils/time/timeutils.py'], [('ElapsedTime.getTimeElapsed, getElapsedString, getTimeStr', 'impactutils/time/timeutils.py')])

p('T03', 'Historic dates format correctly and time-zone lookups stay within the grid',
  'Formatting a date from any year 1 to 9999 with numeric fields (year, two-digit year, month, day, hour, minute, second, fraction, day of year) gives the same text as the field values zero-padded, the year with four digits, and a literal %% is kept, also for years before 1900; formats whose result would be unreliable before 1900 are refused with ValueError. '
  'The time-zone code of any latitude in [-90, 90] and longitude in [-180, 180] is read from the grid cell containing that place (or, for another rounding method, the cell that method gives), never outside the grid. '
  'Local time is UTC plus the zone offset, and conversion back to UTC undoes it for every local time that exists and is unambiguous.',
  ['inputs'], 'all dates of years 1 to 9999 and all format strings of supported fields; all latitudes and longitudes',
  'Tests check two historic dates and a few places; edge-of-grid and century cases need particular inputs.',
  ['impactutils/time/ancient_time.py', 'impactutils/time/timeutils.py'], [('HistoricTime.strftime', 'impactutils/time/ancient_time.py'), ('TimeConversion', 'impactutils/time/timeutils.py')])

p('T04', 'Local time of a place is that of the zone whose polygon contains it',
  'For a moment in UTC and a place, the local time reported is that moment plus the offset reported, and the offset is that of the time zone of the first polygon that contains the place, at that very moment - also in the hours around a change of the clock - '
  '(for polygons without a zone the offset stored with them). Where no polygon contains the place it is the whole hour nearest to the longitude. The name reported is that of the zone used, and that of no zone where there is none. '
  'Asking again for another moment and place gives the same answer as asking afresh.',
  ['inputs'], 'all places and moments, all sets of polygons and zones',
  'Tests need a download or look at eleven places at one moment far from any change of the clock.',
  ['impactutils/time/timeutils.py'], [('LocalTime, LocalTimeNE', 'impactutils/time/timeutils.py')])

p('Q04', 'Slip vectors follow strike, dip and rake',
  'The strike-slip part of the unit slip vector is horizontal, along the strike and the cosine of the rake long; the dip-slip part has the vertical component sin(rake)sin(dip), upwards for thrusting, and a horizontal component sin(rake)cos(dip) perpendicular to the strike; '
  'the slip vector is the sum of the two parts. The slip of a quadrilateral in Earth-centred coordinates has unit length and the east, north and up components of the slip vector of its strike, dip and the given rake.',
  ['inputs'], 'all strikes, dips and rakes; all quadrilaterals with a strike and a dip',
  'One test asserts the numbers the functions happen to give for one strike; the geometry is not tested at all.',
  ['impactutils/rupture/utils.py'], [('get_local_unit_slip_vector, get_local_unit_slip_vector_DS, get_local_unit_slip_vector_SS, get_quad_slip', 'impactutils/rupture/utils.py')])

p('M01', 'Compass directions name the nearest point of the rose',
  'For every azimuth from -180 to 360 degrees, resolution and format, the answer is the compass point whose bearing is nearest to the azimuth, with bearings taken modulo 360; long and short names denote the same point. '
  'The direction between two places is the direction of the azimuth from the first to the second in the requested resolution and format. '
  'Unknown resolutions or formats raise KeyError.',
  ['inputs'], 'all azimuths, all pairs of places, every resolution and format',
  'Tests check some pairs in the default format only; sector edges and negative azimuths need particular inputs.',
  ['impactutils/mapping/compass.py', 'impactutils/extern/openquake/geodetic.py'], [('get_compass_dir, get_compass_dir_azimuth', 'impactutils/mapping/compass.py'), ('azimuth', 'impactutils/extern/openquake/geodetic.py')])

p('M02', 'City selections keep exactly the cities that satisfy the criterion',
  'Limiting a city set by map bounds (west and south edge left out, east and north edge included), by radius around a point, by minimum population or by name keeps exactly the cities that satisfy it (radius and population inclusive), with all their columns unchanged, and leaves the original set untouched. '
  'Limiting by grid keeps, of each cell of a grid spanning all the cities, the given number of most populous cities (all when there are fewer). Sorting keeps every city once, in order, and the reported bounds enclose every city. '
  'A city set without the required columns, or a request needing a population column that is absent, is refused.',
  ['inputs'], 'all city tables of any size, all bounds, radii and populations',
  'Tests use one worldwide table and one box; membership is a predicate over every row.',
  ['impactutils/mapping/city.py'], [('Cities.limitByBounds, limitByRadius, limitByPopulation, limitByGrid, limitByName, sortByColumns, getBounds', 'impactutils/mapping/city.py')])

p('M03', 'Scale bars are as long as they say',
  'A scale bar drawn on a map is, at the scale of the map (at its middle latitude for maps in degrees), exactly as long as its last label says in the unit written over it, split into equal parts of alternating colour that each label and tick mark truly; '
  'a label stands at the length it names, whole or fractional. A length and number of parts that are asked for are drawn; otherwise the bar is the one of the documented lengths nearest to a quarter of the width of the map, with its number of parts. '
  'The bar stands in the requested corner at the requested padding. A length without a number of parts (or the reverse), other numbers of parts, unknown units or corners and axes that are not a map are refused before anything is drawn.',
  ['inputs'], 'all maps (place, width, height, figure size, projection unit), units, lengths, paddings and font sizes',
  'No test draws a scale bar of a given length; the test draws one map and looks at nothing.',
  ['impactutils/mapping/scalebar.py'], [('draw_scale', 'impactutils/mapping/scalebar.py')])

p('M04', 'City labels stay on the map and clear of one another',
  'Of the cities offered, a map draws exactly those whose label, with the requested padding, lies wholly within the drawn map and meets the padded label of no more populous city that also does; every other city is left out for one of these two reasons. '
  'This holds on the page as finally drawn, wherever the axes stand on the figure and whatever the shape of the map. A label stands just right of its city, at its height; the cities returned are those drawn, once each, with a dot at each of them when dots are asked for. '
  'Trial labels never appear on the map itself.',
  ['inputs'], 'all sets of cities with populations, label sizes, paddings, extents and places of the axes on the figure',
  'The only test draws one map and looks at nothing.',
  ['impactutils/mapping/mercatormap.py'], [('MercatorMap.drawCities, limitByMapCollision, getCityBoundingBoxes, getCityEdges, renderRow', 'impactutils/mapping/mercatormap.py')])

p('I01', 'Containers give back what was stored, under the same name and only there',
  'After any sequence of storing, replacing and dropping strings, lists, dictionaries, arrays and tables, reading a name gives the last value stored under that kind and name, listing a kind gives exactly the names present (in full for every kind), and names of other kinds or other entries are unaffected. '
  'Storing under a name in use is refused and keeps the value that is there; reading or dropping a name that is not there is a LookupError, and reopening the file shows the same content (names and groups without a slash, text without NUL characters, tables by row label and to 15 digits). '
  'In the ShakeMap container configuration, rupture, stations, version history and metadata replace what was there before (a refused value leaves it alone), grid and array intensity data never mix, and arrays of different shape are refused without a trace.',
  ['histories', 'inputs'], 'all sequences of container operations with any names and values',
  'Tests store one or two items of each kind once; replacement, drop and interference between names need sequences.',
  ['impactutils/io/container.py', 'impactutils/io/smcontainers.py'], [('HDFContainer set/get/drop methods', 'impactutils/io/container.py'), ('ShakeMapContainer and ShakeMapOutputContainer set/get/drop methods', 'impactutils/io/smcontainers.py')])

p('X01', 'Copying sends every file to the right place exactly once and reports it',
  'A sender is built only when every required property is given and every named file and directory exists (otherwise the required-argument, type or file-not-found error is raised). '
  'For files of distinct target names, sending by copy puts each listed file at remote directory/base name and each file under the local directory at remote directory/same relative path, with identical content, leaves no temporary file behind, removes an earlier cancel marker, and reports exactly the number of files sent. '
  'Cancelling leaves a cancel marker of the configured name with the given content in the remote directory, and the sender kind is chosen by its name, unknown names being refused.',
  ['inputs', 'configurations'], 'all sets of files and directory trees, all remote directories, all cancel file names',
  'Tests copy two small directories; nesting, repeated path parts, relative directories and mixing files with a directory are not sampled.',
  ['impactutils/transfer/copysender.py', 'impactutils/transfer/sender.py', 'impactutils/transfer/factory.py'], [('Sender.__init__, addFiles, changeDirectory, getAllLocalFiles', 'impactutils/transfer/sender.py'), ('CopySender.send, cancel', 'impactutils/transfer/copysender.py')])

p('X02', 'Every email recipient is served exactly once within the batch limit',
  'Splitting recipients into messages puts every recipient, in order and exactly once, in one message: one message per recipient when batching is off, otherwise blind-copy batches no larger than the limit addressed to the primary recipient, whose messages name none of the blind-copied recipients. '
  'Sending hands every message to the first mail server that accepts it, trying the servers in order and raising an error if none does, attaches every listed file and every file of the directory (or one archive holding all of them under distinct names), and reports the number of files; a message taken by a server is never sent again. '
  'Cancelling notifies the same recipients with the cancel text. (Message texts ASCII, text attachments UTF-8.)',
  ['inputs', 'fault_sequences'], 'all recipient lists, all batch limits of at least 0, all patterns of failing mail servers, all attachment sets',
  'No mail server is available to the tests, so none of this is tested.',
  ['impactutils/transfer/emailsender.py'], [('_split_addresses, _send_email, EmailSender.send, EmailSender.cancel', 'impactutils/transfer/emailsender.py')])

p('X03', 'Product distribution commands carry every property and report failure',
  'The distribution command contains the program, archive, key and configuration given, the status update (or delete when cancelling), every required property with its value, every product property once with its value formatted by its type, every optional property given in its documented format, and the file and directory to send. '
  'Running a command reports success exactly when its exit status is zero, together with its output; a failing command raises an error, more than one file is refused before anything is run, and the number of files reported is the files plus those in the directory. '
  'No placeholder is left in the command (values themselves free of bracketed placeholders, blanks and shell characters; product texts may hold blanks).',
  ['inputs', 'fault_sequences'], 'all property values, all subsets of optional properties, all exit statuses and outputs',
  'Tests use one property set with a stub program; formats per type and subset are not sampled.',
  ['impactutils/transfer/pdlsender.py', 'impactutils/io/cmd.py'], [('PDLSender.send, cancel and command building', 'impactutils/transfer/pdlsender.py'), ('get_command_output', 'impactutils/io/cmd.py')])

p('X04', 'Remote sending by FTP or SSH puts every file in place or raises',
  'Sending by FTP or SSH creates the remote directory where needed, puts each listed file at remote directory/base name and each file under the local directory at remote directory/same relative path with identical content, disturbs nothing else there, and reports exactly the number of files sent; the host, user and credentials used are those given. '
  'A file is transferred under a temporary name and appears under its own name only when complete. '
  'A failed login, connection, directory creation or transfer of any file raises an error instead of being reported as sent, and cancelling places a marker of the configured name (over SSH with the given content) in the remote directory or raises.',
  ['inputs', 'fault_sequences'], 'all sets of files and directory trees, all states of the remote system, a failure at any operation (absolute remote directories for FTP; names free of shell characters for SSH)',
  'No FTP or SSH server is available to the tests, so none of this is tested.',
  ['impactutils/transfer/ftpsender.py', 'impactutils/transfer/securesender.py', 'impactutils/transfer/sender.py'], [('FTPSender.send, cancel, _setup, _create_remote_directory, _copy_file_with_path', 'impactutils/transfer/ftpsender.py'), ('SecureSender.send, cancel, _connect, _copy_file_with_path, _make_remote_folder', 'impactutils/transfer/securesender.py')])

p('X05', 'SCP transfers reproduce files and directories or fail',
  'Putting files or directories on a server by SCP speaks the protocol so that every file and directory arrives once, in its place, under its name, with its content and mode, and with its modification time when asked; getting them writes the same below the local directory (or under the new name given), directories included (their modes subject to the umask). '
  'Nothing is ever written outside the local directory, whatever names the server sends. A refusal by the server, a connection lost within a file or, when putting, a missing answer raises SCPException; the client never waits for ever. '
  'The remote paths are each a single word of the remote shell, whatever characters they hold. (Paths that are not empty; when getting, names without line breaks.)',
  ['inputs', 'fault_sequences'], 'all trees of files and directories, remote paths, buffer sizes and faults of the server',
  'No SSH server is available to the tests, so none of this is tested.',
  ['impactutils/extern/scp/scp.py'], [('SCPClient.put, SCPClient.get', 'impactutils/extern/scp/scp.py'), ('_sh_quote', 'impactutils/extern/scp/scp.py')])

p('N01', 'Web catalogue answers report what the service said, and outages are errors',
  'A page is asked for at most twice (a second time only when the service answers that it is busy, status 503), its text is returned unchanged, and every other outcome raises an error. '
  'Place queries carry the coordinates, radius and population given, and give the places, the regions without their metadata, and the network and kind of the first authoritative region (US and NA when there is none). '
  'Event queries give the position, depth, magnitude and time (to the second) of the event, its authoritative id with all the others in order, for each id the longest source that begins it, and the preferred shaking grid, written to the given file or None (and no file) when it cannot be had.',
  ['inputs', 'fault_sequences'], 'all answers of the services and all HTTP statuses; all lists of ids and sources',
  'Every test of these functions needs the network; outages and the retry are never exercised.',
  ['impactutils/comcat/query.py'], [('_get_url_data, GeoServe, ComCatInfo', 'impactutils/comcat/query.py')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
