#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json
import os

B = 'skcurve/_base.py'
DG = 'skcurve/_diffgeom.py'
GA = 'skcurve/_geomalg.py'
IN = 'skcurve/_intersect.py'
IP = 'skcurve/_interpolate.py'
SM = 'skcurve/_smooth.py'
NU = 'skcurve/_numeric.py'
DI = 'skcurve/_distance.py'
UT = 'skcurve/_utils.py'
CU = 'skcurve/curves.py'

P = []


def prop(i, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (i, len(title))
    P.append({'id': i, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


prop('C01', 'Curves, points and segments are immutable values with private data',
     'A Point or Curve owns a private, read-only copy of the data (and of the parameter values) it was built from: '
     'changing the caller\'s arrays or lists afterwards never changes the object, and its arrays (data, values, '
     'parameter array of a parametric curve) cannot be written to. No operation on points, segments and curves changes '
     'its operands or any array, list or user-supplied callable result handed to it.',
     ['inputs', 'histories'], 'all coordinates, all sizes/dimensions within bounds, every public operation',
     'Tests assert results, not that operands are untouched; aliasing shows only for a later write, for every operation.',
     [B, SM, DG, IP], [('private copies', 'Point.__init__, Curve.__init__'), ('read-only flags', 'Curve.__init__'),
                       ('functional operations', 'Curve methods, Segment methods')])

prop('C02', 'Construction yields exactly the given points, or rejects the data',
     'A curve built from per-axis value sequences, from an array of rows (or columns with axis=1), from points, or from '
     'another curve holds exactly those points in the given order, with the requested dtype (float64 for sequences and '
     'the source dtype for arrays and curves by default) and missing dimensions up to ndmin filled with zeros; a point '
     'holds exactly its coordinates. Non-numeric dtype, ndmin below 2, one-dimensional curve points, point data '
     'with more than one dimension, an axis outside the data, and parameter data that is not 1-D or of another size raise ValueError.',
     ['inputs', 'configurations'], 'all coordinate values; all container forms, axis, ndmin, dtype, tdata combinations within bounds',
     'Tests build a handful of literal arrays; the form/axis/ndmin/dtype combinations and value mapping are open-ended.',
     [B, UT], [('normalisation of data', 'Curve.__init__'), ('2-D reshape', 'as2d'), ('point data', 'Point.__init__')])

prop('C03', 'A curve is a sequence of its points: indexing, slicing, segments',
     'For every integer index, slice, non-empty index list/array and boolean mask a curve selects exactly the points (and their '
     'parameter values) that the same selection takes from the list of its rows: an integer gives a curve point that '
     'knows its curve, its non-negative index, its parameter and coordinates, anything else a curve. Length, iteration, '
     'subcurves and the size-1 consecutive segments agree with it; an integer outside [-size, size) raises IndexError '
     '(ValueError for a segment index outside [-(size-1), size-1)) and other index types raise TypeError or IndexError.',
     ['inputs'], 'all coordinates; all indices/slices/lists/masks for sizes within bounds, parametric or not',
     'The index space (signs, steps, out-of-range, masks, empty results) is only sampled by tests.',
     [B], [('indexing', 'Curve.__getitem__'), ('curve points', 'CurvePoint'), ('curve segments', 'CurveSegment, Curve.segments'),
           ('subcurve', 'CurvePoint.subcurve')])

prop('C04', 'Insert, append, delete and concatenation edit the list of points',
     'Inserting a point or curve at an integer index, appending, deleting an index, slice or index list, and adding '
     'curves give exactly the rows that the same edit makes on the list of rows, in a curve of the same dimension. '
     'Objects of another dimension raise ValueError, indices out of bounds raise IndexError and operands of other types '
     'raise TypeError.',
     ['inputs', 'histories'], 'all coordinates; all index positions, signs, operand sizes within bounds; sequences of two edits',
     'Tests use one fixed curve and a few positions.',
     [B], [('insert/append', 'Curve.insert, Curve.append'), ('delete', 'Curve.delete'), ('concatenate', 'Curve.__add__')])

prop('C05', 'Reversal and co-orientation keep the points and fix the direction',
     'Reversing a curve or segment lists the same points (with their parameters) in opposite order and reversing twice '
     'restores it. Co-orientation to a plane returns the same curve when the turn from the first to the last point in '
     'the given ordered axis pair is counter-clockwise (positive determinant) and the reversed curve when it is '
     'clockwise; curves with fewer than two points are returned unchanged.',
     ['inputs'], 'all coordinates, parameters, axis pairs, sizes within bounds',
     'Direction is a sign condition over all coordinates; tests check one or two curves in one plane.',
     [B, DG], [('reverse', 'Curve.reverse, Segment.reverse'), ('co-orientation', 'Curve.coorientplane, coorientplane')])

prop('C06', 'unique, drop and nonsingular remove exactly the points they should',
     'unique() keeps the first occurrence of every distinct point in the original order; drop() removes exactly the '
     'points selected by the callable\'s boolean mask (1-D, or 2-D meaning any coordinate) or indices. nonsingular() '
     'removes exactly points with NaN or infinite coordinates and points that coincide with the point kept before them, '
     'so no adjacent points of the result are (nearly) equal and all other points stay in order.',
     ['inputs'], 'all coordinates with arbitrary coincidence patterns, NaN/inf positions and masks, sizes within bounds',
     'Coincidence patterns are exponentially many; tests use one or two.',
     [B, DG], [('unique', 'Curve.unique'), ('drop', 'Curve.drop'), ('nonsingular', 'nonsingular')])

prop('C07', 'Parameter values stay attached to their points',
     'After any sequence of indexing, slicing, reversal, co-orientation, deletion, drop, unique, nonsingular, copying '
     'and concatenation of parametric curves, every point still carries the parameter value it had, and the parameter '
     'array always has one value per point. A curve without parameter data (including every result of insert, append, '
     'dimension edits, smoothing and concatenation with a non-parametric curve) reports the cumulative arc length as its '
     'parameter.',
     ['histories', 'inputs'], 'all coordinates and parameter values; sequences of operations within bounds',
     'Tests check t for single operations on fixed data, not for compositions.',
     [B, DG, SM], [('tdata propagation', 'Curve.__getitem__, reverse, delete, unique, drop, __add__'),
                   ('default parameter', 'Curve.t')])

prop('C08', 'Dimension edits and value access touch only the named axis',
     'insertdim/appenddim/deletedim add the given values (zeros by default) or remove columns at the named axis and keep '
     'every other coordinate of every point; values(axis) and values() return the coordinates along each axis in order. '
     'An axis outside the dimensions raises (IndexError for edits, ValueError for values), values of a wrong length and '
     'deleting from a 2-D curve raise ValueError.',
     ['inputs'], 'all coordinates, axes (both signs), value vectors, sizes and dimensions within bounds',
     'Tests use one curve and one or two axes.',
     [B], [('dimension edits', 'Curve.insertdim, appenddim, deletedim'), ('values', 'Curve.values')])

prop('C09', 'Equality, membership, index and count agree with pointwise equality',
     'Equality of points, segments and curves is reflexive and symmetric, ignores int/float dtype, requires equal '
     'dimension and size, and holds exactly when all coordinates are equal up to the documented closeness. Membership '
     'of a point, count and index (with start/end) agree with comparing the point with each curve point in order '
     '(ValueError when index finds none), and a curve is contained exactly when its points occur as a contiguous run.',
     ['inputs'], 'all coordinates, coincidence patterns, start/end values, sizes within bounds',
     'These are relations between operations over all coincidence patterns; tests check fixed examples.',
     [B, NU], [('equality', 'Point.__eq__, Segment.__eq__, Curve.__eq__, isequal'),
               ('search', 'Curve.__contains__, index, count')])

prop('C10', 'Point arithmetic is elementwise vector arithmetic',
     'Between points of equal dimension and between a point and a number (on either side), +, -, *, / and // act '
     'coordinate by coordinate and give a point; @ is the dot product, norm is the Euclidean length, indexing gives the '
     'coordinates. Unsupported operand types raise TypeError and no operator changes its operands.',
     ['inputs'], 'all coordinates and numbers, dimensions within bounds, both operand orders',
     'Tests check literals; reflected non-commutative operators and dtypes are easy to break unnoticed.',
     [B], [('operators', 'Point._op and operator methods'), ('norm/dot', 'Point.norm, Point.__matmul__')])

prop('C11', 'Chord lengths, cumulative and total arc length are consistent',
     'chordlen[i] is the Euclidean distance between points i and i+1 (also as length of segment i), the cumulative arc '
     'length starts at 0 and its increments are the chord lengths, arclen is their sum, and a curve point\'s cumulative '
     'arc length is its row of the curve\'s. Reversing a curve reverses the chord lengths and keeps the arc length; '
     'splitting a curve at a point splits the arc length; empty and one-point curves have length 0.',
     ['inputs'], 'all coordinates, sizes and dimensions within bounds',
     'Tests compare a few literal curves with tabulated values.',
     [DG, B], [('lengths', 'chordlen, arclen, cumarclen'), ('segment length', 'Segment.seglen, CurveSegment.chordlen')])

prop('C12', 'Derivatives are the documented finite differences at every point',
     'The first, second and third derivative arrays of a non-empty curve have the curve\'s shape; each is the '
     'second-order accurate numerical gradient (central differences inside, three-point one-sided differences at the '
     'ends; first-order for two points, zero for one) of the previous one. tangent equals the first derivative, speed '
     'its norm, and every such quantity of a curve point equals the corresponding row of its curve.',
     ['inputs'], 'all coordinates, sizes (including 1 and 2) and dimensions within bounds',
     'Tests compare fixed curves with tabulated numbers; short curves, edges and point/curve agreement are sampled.',
     [DG], [('gradient', '_gradient'), ('derivatives', 'CurvePointFunctionMixin.firstderiv/secondderiv/thirdderiv/tangent/speed')])

prop('C13', 'Frenet vectors form an orthonormal frame where they are defined',
     'At every point whose tangent is non-zero the first Frenet vector is the unit vector along the tangent; the normal '
     'is the second derivative with its tangential part removed and the second Frenet vector its unit vector, orthogonal '
     'to the first; in three and more dimensions the binormal and third Frenet vector are likewise orthogonal to both. '
     'Where a vector vanishes the corresponding Frenet vector is zero, never NaN, and a warning is issued; values at '
     'curve points equal the rows of the curve arrays.',
     ['inputs'], 'all coordinates within bounds on sizes and dimensions, including degenerate points',
     'Orthogonality must hold for every curve; tests compare tabulated vectors of a couple of curves.',
     [DG], [('frame', 'frenet1, frenet2, frenet3, normal, binormal, _frenet_vector_norm')])

prop('C14', 'Curvature and torsion follow their definitions',
     'In the plane the curvature is the signed (x\'y\'\'-y\'x\'\')/|r\'|^3: it changes sign under reversal, keeps its '
     'value under translation and scales with 1/s under scaling; in three and more dimensions it is |e1\'|/|r\'|. '
     'Torsion is (e2\'.e3)/|r\'|, vanishes for curves lying in a coordinate plane, and straight lines have zero '
     'curvature; values at curve points equal the rows of the curve arrays.',
     ['inputs'], 'all coordinates with non-vanishing tangents, sizes and dimensions within bounds',
     'Tests compare two curves with tabulated values; sign and scaling laws over all curves are not tested.',
     [DG], [('curvature', 'CurvePointFunctionMixin.curvature'), ('torsion', 'CurvePointFunctionMixin.torsion')])

prop('C15', 'Segment point(t) and t(point) are inverse affine maps',
     'segment.point(t) is p1 + t (p2 - p1) for every t (a list of points for a sequence of t), so t=0 and t=1 give the '
     'ends; for a non-singular segment t(point(t)) returns t, for single points and sequences alike. Points that do not '
     'lie on the segment\'s line give NaN with a warning and do not disturb the values of other points; direction, dot, '
     'seglen and singular agree with the end points.',
     ['inputs'], 'all end points, parameters and points, dimensions within bounds',
     'Round trip over all t and end points is a universal law; tests use a few literals.',
     [GA, B], [('maps', 'segment_point, segment_t'), ('segment attributes', 'Segment')])

prop('C16', 'Angle and parallelism of segments follow the dot product',
     'The angle between two non-singular segments is arccos of the normalised dot product of their directions: it lies '
     'in [0, pi], is symmetric, becomes pi minus itself when one segment is reversed and does not depend on position or '
     'length; a singular segment gives NaN with a warning. parallel() is true exactly when the directions are linearly '
     'dependent (up to the tolerance), symmetric and invariant under reversal.',
     ['inputs'], 'all end points, dimensions within bounds',
     'Symmetry/reversal/scale laws quantify over all segments.',
     [GA], [('angle', 'segments_angle'), ('parallelism', 'parallel_segments')])

prop('C17', 'Collinearity and coplanarity tests are exact and frame-independent',
     'A segment is collinear with a point or segment exactly when all the points lie on one line, and coplanar exactly '
     'when they lie in one plane (always in 2-D), up to rounding; the answer does not depend on a translation, on the '
     'order of the ends, or on which segment is asked. A curve is plane exactly when all its points lie in one plane.',
     ['inputs'], 'all points, dimensions within bounds',
     'Rank conditions over all coordinates; tests use a few axis-aligned or origin-based examples.',
     [GA, B], [('collinear', 'collinear_points, Segment.collinear'), ('coplanar', 'coplanar_points, Segment.coplanar, Curve.isplane')])

prop('C18', 'overlap() returns exactly the common part of two collinear segments',
     'For two segments on one line overlap() returns a segment whose ends are ends of the operands and which consists of '
     'exactly the points common to both (a degenerate segment when they touch), or None when they have no common point; '
     'it is the same set of points when the operands are swapped or reversed. '
     'With check_collinear, segments that are not collinear give None.',
     ['inputs'], 'all collinear configurations (position, order, direction, length), dimensions within bounds',
     'Configurations times orientations times slopes exceed the literal cases in tests.',
     [GA], [('overlap', 'overlap_segments, Segment.overlap')])

prop('C19', 'The shortest segment from a segment to a point is the shortest',
     'For a segment and a point, shortest_segment starts on the segment, ends at the point, and no point of the segment '
     'is closer to the point; distance is its length. This includes singular segments and points beyond the ends.',
     ['inputs'], 'all end points and points, dimensions within bounds',
     'Optimality quantifies over all points of the segment for all inputs.',
     [GA, B], [('projection', 'segment_to_point'), ('shortest segment', 'Segment.shortest_segment, Segment.distance')])

prop('C20', 'The shortest segment between two segments is the shortest',
     'For two segments, shortest_segment starts on the first, ends on the second, and no pair of their points is closer; '
     'distance is its length, symmetric in the operands. This covers crossing, skew, parallel, collinear and singular '
     'segments.',
     ['inputs'], 'all end points, dimensions within bounds (parallel/singular tests separated from the tolerance)',
     'Optimality over both parameters for all relative positions; tests check a few layouts.',
     [GA, B], [('closest pair', 'segment_to_segment'), ('shortest segment', 'Segment.shortest_segment')])

prop('C21', 'Almost-intersections are exactly the segment pairs closer than tolerance',
     'With the "almost" method two segments intersect exactly when their distance is below dist_tol, and the reported '
     'shortest segment is the one between them. For curves exactly the pairs of segments closer than dist_tol are '
     'reported, each once with its own segments and shortest segment; a curve with itself reports each non-adjacent pair '
     'once. remove_extra keeps of every cluster of intersection points the one with the shortest segment, and '
     'correct_overlap turns overlapping parallel pairs into OVERLAP.',
     ['inputs', 'configurations'], 'all coordinates within bounds on numbers of segments; dist_tol; options',
     'The vectorised all-pairs code has its own case analysis; tests sample a few curves.',
     [IN, GA], [('almost method', 'AlmostIntersectionMethod'), ('all pairs', 'segments_to_segments'),
                ('indices', '_curves_intersect_indices')])

prop('C22', 'Exact segment intersection is sound and complete',
     'The exact method reports EXACT with a point lying on both segments whenever two non-parallel, non-singular '
     'segments share a point, OVERLAP with their common part when two collinear segments share points, and no '
     'intersection exactly when they share none. The outcome does not depend on operand order or on the direction of '
     'either segment, in two or more dimensions.',
     ['inputs'], 'all end points (rational/real), dimensions within bounds, away from tolerance bands',
     'Soundness/completeness over all relative positions; tests use fixed layouts.',
     [IN, GA], [('exact method', 'ExactIntersectionMethod._intersect_segments')])

prop('C23', 'Exact curve intersections are all segment-pair intersections, each once',
     'Intersecting two curves (or a curve and a segment, in either order) with the exact method reports, in order of the '
     'first and then the second curve\'s segments, exactly the pairs of segments that intersect, each once with the '
     'result of intersecting that pair and with the right segments. A curve with itself reports each pair of '
     'non-adjacent intersecting segments exactly once; empty curves give an empty list, different dimensions ValueError.',
     ['inputs'], 'all coordinates within bounds on numbers of segments',
     'The bounding-box filter may lose pairs only for particular layouts; tests use a few curves.',
     [IN], [('curve intersection', 'ExactIntersectionMethod._intersect_curves, IntersectionMethodBase.__call__'),
            ('bounding boxes', '_find_segments_bbox_intersection'), ('indices', '_curves_intersect_indices')])

prop('C24', 'Intersection results are coherent objects; methods are selectable',
     'An intersection result is truthy exactly when its type is not NONE; its point and segment are None when there is '
     'no intersection, the point itself (and a degenerate segment) for EXACT, and the midpoint of the reported segment '
     '(and that segment) for OVERLAP and ALMOST. Building intersection info with data that does not fit the type raises '
     'ValueError; calling with a method name, a method object or the default gives the same answer, unknown names raise '
     'NameError and failures of a method surface as an intersection error.',
     ['inputs', 'configurations'], 'all points/segments, all types and method selections',
     'Tests touch some type/data combinations only.',
     [IN], [('result', 'SegmentsIntersection'), ('info', 'IntersectionType.__call__'), ('dispatch', 'intersect')])

prop('C25', 'Interpolation grids have the promised size, range and spacing',
     'A uniform grid has exactly the requested number of points (or round(arclen/length)+1), equally spaced from the '
     'first to the last parameter; a uniform extrapolation grid adds exactly the requested pieces before and after with '
     'the same spacing and leaves the inner grid intact. A preserved-speed grid has the requested size, spans the same '
     'range and is strictly increasing; invalid kinds, types, counts and curves of fewer than two points raise.',
     ['inputs', 'configurations'], 'all coordinates/parameters, sizes and fill values within bounds',
     'Tests check one or two curves per grid.',
     [IP], [('grids', 'UniformInterpolationGrid, UniformExtrapolationGrid, PreservedSpeedInterpolationGrid')])

prop('C26', 'Interpolation evaluates the documented interpolant on the given grid',
     'Interpolating gives one point per grid value in a curve of the same dimension and dtype; interpolating methods '
     'reproduce the curve points at their parameters, linear interpolation is exact between and beyond them, and every '
     'method equals its documented SciPy/csaps interpolant of the points over the curve parameter with the given '
     'options. A parametric curve stays parametric with the grid as parameter; grids that are not 1-D or strictly '
     'increasing raise ValueError, grids not covering the parameter range warn, empty curves give an empty curve with a '
     'warning and one-point curves raise.',
     ['inputs', 'configurations'], 'all coordinates, parameters and grids, methods and options within bounds',
     'Tests only check sizes or compare a fixed curve.',
     [IP], [('interpolation', 'interpolate, InterpolatorBase.__call__, _get_interpolation_grid'), ('methods', 'interpolator classes')])

prop('C27', 'Smoothing applies the documented linear filter to every coordinate',
     'Smoothing returns a float64 curve of the same size and dimension whose every coordinate is the documented filter '
     '(Savitzky-Golay, or normalised moving window) of that coordinate along the curve with the given parameters. It '
     'therefore is linear, commutes with translation, leaves constant curves fixed (and the savgol filter reproduces '
     'polynomials up to its order), and never changes the original curve or a user\'s window.',
     ['inputs', 'configurations'], 'all coordinates, window sizes/types, orders and boundary modes within bounds',
     'Tests compare nothing but one case; linearity and per-axis application quantify over all curves.',
     [SM], [('smoothing', 'smooth, savgol_filter, window_filter')])

prop('C28', 'Method registries behave like append-only dictionaries',
     'Names registered for interpolators, smoothing methods and intersection methods appear in the method list and are '
     'used when asked for by name; registering an existing name raises ValueError and a wrong class TypeError, leaving '
     'the registry unchanged; the decorators return the decorated object. Unknown names raise NameError, errors of a '
     'method surface as the module\'s error type (smoothing lets ValueError and TypeError through), and the default '
     'intersection method is the one last set.',
     ['histories', 'configurations'], 'sequences of register/get/set-default calls; arbitrary registered methods',
     'Sequences of registrations and lookups, and error paths, are only partly tested.',
     [IP, SM, IN], [('registries', 'register_interpolator, register_smooth_method, register_intersect_method'),
                    ('lookup', 'get_interpolator, get_smooth_method, get_intersect_method, set_default_intersect_method')])

prop('C29', 'Curve generators satisfy their defining equations',
     'Each generator (arc, lemniscate, Archimedean and Euler spirals, Lissajous, helix, irregular helix) returns a '
     'parametric curve with the requested number of points, parameters equally spaced from start to stop, and points '
     'satisfying the curve\'s documented equation with the given radii, amplitudes, phases and offsets.',
     ['inputs'], 'all shape arguments and ranges, point counts within bounds',
     'No tests check the equations for general arguments.',
     [CU], [('generators', 'skcurve.curves functions')])

prop('C30', 'Numeric helpers and metrics compute what they document',
     'isequal/allequal compare elementwise independent of int/float dtype, dot1d is the row-wise dot product, and '
     'Point.distance with a metric name (and its parameters) or a callable equals that metric of the coordinates: '
     'non-negative, zero for identical points and symmetric for the norm-based metrics, with the triangle inequality for '
     'Euclidean, city-block and Chebyshev distances. Unknown metric names raise NameError and non-callables TypeError.',
     ['inputs', 'configurations'], 'all coordinates, metrics and parameters within bounds',
     'Tests check one or two literals per metric.',
     [NU, DI, B], [('helpers', 'isequal, allequal, dot1d'), ('metrics', 'get_metric, Point.distance')])

prop('C31', 'Plotting hands the points and segments of the curve to the given axes',
     'CurvePlot draws one curve of two or three dimensions: the coordinates of all points, in order, with the given format '
     'and options, or with a parameter name one line piece for each segment coloured by that parameter over its range '
     '(markers, when given, at the points), and normals starting at the points. It draws on the given axes, makes axes '
     'of the right kind when none are given, chained calls draw on the same axes, and the curve is never changed. '
     'More than three dimensions raise ValueError and a 3-D curve on flat axes TypeError.',
     ['inputs', 'configurations'], 'all coordinates; sizes, parameters and options within bounds; matplotlib itself replaced by recorders',
     'Plotting is not covered by tests at all (matplotlib is not installed).',
     ['skcurve/plot.py'], [('plotting', 'CurvePlot._plot, _multicolor_plot, curveplot')])

prop('C32', 'Floating-point results stay close to the exact values',
     'For finite, well-conditioned inputs of moderate magnitude the computed lengths, derivatives, distances and '
     'intersections agree with the exact real-number values up to a small multiple of rounding error.',
     ['inputs'], 'all IEEE-754 doubles of moderate magnitude', 'Rounding behaviour over all doubles cannot be sampled.',
     [DG, GA, IN], [('numerics', 'NumPy expressions throughout')])

if __name__ == '__main__':
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(f, 'w') as fh:
        for p in P:
            fh.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
