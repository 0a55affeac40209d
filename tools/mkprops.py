"""Writes properties.jsonl (kept as a script so the texts are easy to edit)."""
import json, pathlib

def prop(id, title, statement, over, text, why, files, mechanism, observe,
         state=None):
    anchors = {'files': files,
               'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
               'observe_at': [observe], 'hook_needed': 'none'}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m} for n, m in state]
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why, 'anchors': anchors}

API = ['the public rene.exact API']
P = [
prop('C01', 'Region set operations are exact',
 'For valid Polygon/Multipolygon/Empty operands, a point that is off every operand edge lies in a & b, a | b, a - b or a ^ b exactly when its membership in a and b says so, whatever the ring starts, ring directions, contacts (shared edges or vertices, holes touching borders, nested or separate parts) and coordinate sizes. The result never has a linear type, and it is Empty exactly when the resulting region has no area.',
 ['inputs'], 'all pairs of valid regions (any number of parts and holes, any mutual degeneracy), all four operators, both operand orders',
 'The tests compare results with other rene results (commutativity, distribution, ...) on random large-coordinate polygons, where shared edges, touching holes and collinear overlaps have probability ~0; nothing compares a result with the point set it must denote.',
 ['rene/_clipping/shaped.py', 'rene/_clipping/intersection.py', 'rene/_clipping/union.py', 'rene/_clipping/difference.py', 'rene/_clipping/symmetric_difference.py', 'rene/_clipping/events_queue_key.py', 'rene/_clipping/sweep_line_key.py', 'rene/_geometries/base_polygon.py', 'rene/_geometries/base_multipolygon.py'],
 [('sweep with interior-to-left flags and overlap kinds', 'rene/_clipping/shaped.py Operation'), ('bounding-box shortcuts and component filters', 'rene/_clipping/{intersection,union,difference,symmetric_difference}.py'), ('edge orientation normalisation', 'rene/_geometries/utils.py')],
 'value of a & b, a | b, a - b, a ^ b read through border/holes/polygons'),
prop('C02', 'Linear set operations are exact',
 'For valid Segment/Multisegment/Contour/Empty operands, the result of a & b, a | b, a - b or a ^ b covers exactly the one-dimensional part of that set operation: every non-endpoint position of the operands and of the result is covered by the result exactly when its coverage by a and b says so. Isolated common points never appear in a result.',
 ['inputs'], 'all pairs of valid linear geometries, including collinear, touching, crossing and partly overlapping segments, all four operators',
 'The tests only check algebraic laws between rene results; random large-coordinate segments are never collinear with each other, so overlap splitting is reached only for an operand against itself.',
 ['rene/_clipping/linear.py', 'rene/_clipping/intersection.py', 'rene/_clipping/union.py', 'rene/_clipping/difference.py', 'rene/_clipping/symmetric_difference.py', 'rene/_geometries/base_segment.py', 'rene/_geometries/base_multisegment.py', 'rene/_geometries/base_contour.py'],
 [('linear sweep with collinear-group merging', 'rene/_clipping/linear.py Operation'), ('bounding-box filters and early stop', 'rene/_clipping/intersection.py, difference.py')],
 'value of the operator read through segments/vertices'),
prop('C03', 'Clipping linear geometry by regions is exact',
 'Intersecting a valid Segment/Multisegment/Contour with a valid Polygon/Multipolygon (either operand order) yields exactly the one-dimensional part of the linear geometry lying in the closed region, parts along region edges included. Subtracting a valid Polygon/Multipolygon from a valid Contour/Multisegment yields exactly the rest, so parts along region edges are never kept.',
 ['inputs'], 'all valid (linear, region) pairs: contacts along edges, through vertices, along hole borders, across several parts',
 'No law in the tests mixes dimensions except commutativity and associativity of &; results are never compared with point membership.',
 ['rene/_clipping/mixed.py', 'rene/_clipping/intersection.py', 'rene/_clipping/difference.py'],
 [('mixed sweep deciding per piece from the other operand', 'rene/_clipping/mixed.py Operation'), ('bounding-box shortcuts', 'rene/_clipping/difference.py subtract_*_from_multisegmental, rene/_clipping/intersection.py')],
 'value of linear & region, region & linear, linear - region'),
prop('C04', 'Operation results are valid geometries of the smallest type',
 'Every result of a supported set operation on valid operands is itself valid: rings are simple, without repeated or straight-angle vertices; holes lie inside their border; parts of a polygon or multipolygon never overlap nor share an edge; segments of a result neither cross, overlap nor repeat. A result with no parts is Empty, with one part is the plain Segment/Polygon, and only two or more parts give Multisegment/Multipolygon.',
 ['inputs'], 'all pairs of valid compounds and all supported operators',
 'Tests never validate the structure of a result; an invalid but self-consistent result satisfies every law they check.',
 ['rene/_clipping/shaped.py', 'rene/_clipping/linear.py', 'rene/_clipping/mixed.py', 'rene/_clipping/__init__.py', 'rene/_utils.py'],
 [('contour extraction, hole assignment', 'rene/_clipping/shaped.py reduce_events'), ('collapse of counts to types', 'rene/_utils.py collapse_* / to_*'), ('collinear vertex removal', 'rene/_utils.py shrink_collinear_vertices')],
 'types and components of results'),
prop('C05', 'Set algebra laws hold between results',
 'On valid operands the public operators obey the laws of set algebra, both sides of a law being the same point set: & | ^ commute and associate, & and | are idempotent, absorb and distribute over each other, & distributes over ^, a - b equals a ^ (a & b), a & b equals a - (a - b), a ^ b equals (a | b) - (a & b), and subtraction obeys De Morgan. Commutativity, a - a and a ^ a being Empty, and Empty being neutral for | and ^ and on the right of -, absorbing for & and on the left of -, hold as ==; so does every law for regions whenever the result has only one decomposition into rings (no two of its ring edges meet except as neighbours).',
 ['inputs'], 'all triples of valid regions and all triples of valid linear geometries, degenerate contacts included',
 'The tests state some of these laws but sample only general-position operands with huge random coordinates, about a hundred per law.',
 ['rene/_geometries/base_compound.py', 'rene/_geometries/base_polygon.py', 'rene/_geometries/base_multipolygon.py', 'rene/_geometries/base_segment.py', 'rene/_geometries/base_multisegment.py', 'rene/_geometries/base_contour.py', 'rene/_geometries/base_empty.py', 'rene/_clipping/shaped.py', 'rene/_clipping/linear.py'],
 [('operator dispatch on operand kinds', 'rene/_geometries/base_*.py __and__/__or__/__sub__/__xor__'), ('canonical ring extraction', 'rene/_clipping/shaped.py')],
 'equality and point sets of operator results'),
prop('C06', 'Relation between regions matches its definition',
 'For valid Polygon/Multipolygon operands relate_to returns DISJOINT when they share no point, TOUCH when only boundaries meet, EQUAL when they are the same set, WITHIN/ENCLOSED/COMPONENT when the first is a strict subset whose boundary respectively avoids the other boundary, meets it but also enters the other interior, or stays on it, COVER/ENCLOSES/COMPOSITE for the mirrored cases, and OVERLAP otherwise. The answer depends only on the two point sets, not on ring starts, ring directions or part order.',
 ['inputs'], 'all pairs of valid regions, including shared edges and vertices, regions in holes, parts touching at points',
 'Three relate_to tests of the suite fail at this commit; the others check only result type and symmetry on general-position operands.',
 ['rene/_relating/shaped.py', 'rene/_relating/polygon.py', 'rene/_relating/multipolygon.py', 'rene/_relating/utils.py'],
 [('sweep accumulating relation state per event point', 'rene/_relating/shaped.py Operation.to_relation, RelationState'), ('bounding-box filters and early stop at min of max x', 'rene/_relating/polygon.py, multipolygon.py')],
 'value of a.relate_to(b)'),
prop('C07', 'Relation between linear geometries matches its definition',
 'For valid Segment/Multisegment/Contour operands relate_to returns EQUAL, COMPONENT or COMPOSITE for equal sets, a strict subset or a strict superset, OVERLAP when they otherwise share a piece of positive length, CROSS when they share only points and at some shared point the pieces of the two alternate around it, TOUCH when they share only other points, and DISJOINT when they share none. The answer depends only on the two point sets, not on segment direction, order or subdivision.',
 ['inputs'], 'all pairs of valid linear geometries, including collinear chains, T-contacts, stars of several segments at one point',
 'Random large-coordinate linear geometries are almost always DISJOINT or CROSS at interior points; collinear chains and vertex contacts are not sampled.',
 ['rene/_relating/linear.py', 'rene/_relating/segment_endpoints.py', 'rene/_relating/segment.py', 'rene/_relating/multisegmental.py', 'rene/_relating/contour.py', 'rene/_relating/multisegment.py'],
 [('endpoint case analysis', 'rene/_relating/segment_endpoints.py'), ('sweep with crossing detection', 'rene/_relating/linear.py Operation'), ('single-segment shortcut', 'rene/_relating/multisegmental.py')],
 'value of a.relate_to(b)'),
prop('C08', 'Relation of linear geometries with regions matches its definition',
 'For a valid linear geometry and a valid region, relate_to of the linear to the region is DISJOINT when they share no point, COMPONENT when it lies on the region boundary, WITHIN when it lies in the region interior, ENCLOSED when it lies in the closed region, entering the interior and meeting the boundary, CROSS when it has parts both in the interior and outside, TOUCH when it meets the boundary but not the interior and leaves the region. The region related to the linear geometry gives the complement of that, and neither answer depends on directions, order or subdivision.',
 ['inputs'], 'all valid (linear, region) pairs in both operand orders',
 'The suite checks result type and complement symmetry on general-position operands only, and the symmetry test fails at this commit.',
 ['rene/_relating/mixed.py', 'rene/_relating/segment.py', 'rene/_relating/segment_endpoints.py', 'rene/_relating/multisegmental.py', 'rene/_relating/polygon.py', 'rene/_relating/multipolygon.py'],
 [('mixed sweep', 'rene/_relating/mixed.py'), ('segment against region border and holes', 'rene/_relating/segment.py relate_to_polygon, segment_endpoints.py relate_to_region'), ('bounding-box filters', 'rene/_relating/multisegmental.py, polygon.py, multipolygon.py')],
 'value of a.relate_to(b)'),
prop('C09', 'Relations, set operations and point location agree',
 'For valid operands b.relate_to(a) is the complement of a.relate_to(b), Empty relates EQUAL to Empty and DISJOINT to all else, and the relation agrees with the other answers of the library: for same-dimension operands it is EQUAL exactly when a ^ b is Empty, a subset relation exactly when a - b is Empty and a superset relation exactly when b - a is Empty; DISJOINT or TOUCH (or CROSS for linear operands) implies a & b is Empty; and every vertex of a located outside b rules out every subset relation.',
 ['inputs'], 'all pairs of valid compounds of any kinds',
 'No test connects relate_to with the set operations or with locate.',
 ['rene/_enums.py', 'rene/_geometries/base_empty.py', 'rene/_geometries/base_polygon.py', 'rene/_geometries/base_multipolygon.py', 'rene/_geometries/base_segment.py', 'rene/_geometries/base_multisegment.py', 'rene/_geometries/base_contour.py', 'rene/_relating'],
 [('relate_to dispatch', 'rene/_geometries/base_*.py relate_to'), ('complement table', 'rene/_enums.py Relation.complement')],
 'relate_to, operators, locate compared with each other'),
prop('C10', 'Point location is exact',
 'For every valid compound and every point, locate answers BOUNDARY for points of a linear geometry or on any ring edge of a region, INTERIOR for points strictly inside a region (outside its holes) and EXTERIOR for all others; `in` is True exactly when locate is not EXTERIOR. The answer ignores ring starts, directions and part order.',
 ['inputs'], 'all valid compounds and all points: vertices, edge points, points level with vertices, points within holes, points arbitrarily close to edges',
 'Tests draw points independently of the geometry from a huge range, so nearly every sampled point is exterior and none is level with a vertex.',
 ['rene/_geometries/base_segment.py', 'rene/_geometries/base_multisegment.py', 'rene/_geometries/base_contour.py', 'rene/_geometries/base_polygon.py', 'rene/_geometries/base_multipolygon.py', 'rene/_utils.py'],
 [('ray casting per ring', 'rene/_utils.py locate_point_in_region'), ('per-part composition', 'rene/_geometries/base_polygon.py, base_multipolygon.py')],
 'locate and in'),
prop('C11', 'Trapezoidation answers exactly like the geometry, for any seed',
 'For every valid Polygon (or Multisegment), every accepted seed and every point, the trapezoidation built from it locates the point as the geometry itself does, and `in` is True exactly when that is not EXTERIOR. Building succeeds for every seed in [0, 2 * sys.maxsize + 1], the same seed gives the same height, and a seeder returning anything else is refused with OverflowError, TypeError or ValueError.',
 ['inputs', 'configurations'], 'all valid polygons and multisegments, all insertion orders reachable through the seed, all query points',
 'Tests query only the vertices of the geometry (expected BOUNDARY); interior and exterior answers are never checked and most insertion orders of degenerate inputs (equal x, shared endpoints) are not sampled.',
 ['rene/_seidel/trapezoidation.py', 'rene/_seidel/trapezoid.py', 'rene/_seidel/x_node.py', 'rene/_seidel/y_node.py', 'rene/_seidel/leaf.py', 'rene/_seidel/edge.py', 'rene/_exact/trapezoidation.py', 'rene/_utils.py'],
 [('incremental trapezoid map', 'rene/_seidel/trapezoidation.py'), ('seeded permutation of edges', 'rene/_utils.py permute'), ('seed validation', 'rene/_utils.py validate_seed')],
 'Trapezoidation.from_polygon/from_multisegment, locate, in, height'),
prop('C12', 'Delaunay triangulation is a Delaunay tiling of the convex hull',
 'For every sequence of points (repeats, collinear and cocircular sets included), the triangles of the triangulation use only given points, are non-degenerate, have pairwise disjoint interiors and tile the convex hull exactly, every given point is a vertex of some triangle, and no given point lies strictly inside the circumcircle of any triangle. The border is the hull contour without straight-angle vertices when there are triangles; otherwise there is no triangle and border is refused with ValueError. The triangulation is truthy exactly when at least two distinct points were given. The order and multiplicity of the points do not change which set is tiled, and the given points are not changed.',
 ['inputs'], 'all finite point sequences, empty and one-point ones included',
 'Tests check circumcircles and a triangle-count bound on random points in general position; tiling, point coverage and lattice (cocircular, collinear) inputs are not checked.',
 ['rene/_triangulation/delaunay.py', 'rene/_triangulation/mesh.py', 'rene/_triangulation/quad_edge.py', 'rene/_exact/triangulation.py', 'rene/_utils.py'],
 [('divide and conquer merge', 'rene/_triangulation/mesh.py'), ('incircle predicate', 'rene/_utils.py locate_point_in_point_point_point_circle')],
 'DelaunayTriangulation.from_points, triangles, border, bool'),
prop('C13', 'Constrained triangulation tiles the polygon and is locally Delaunay',
 'For every valid Polygon the triangles of its constrained triangulation have only polygon vertices as corners, are non-degenerate, have pairwise disjoint interiors, cover exactly the polygon (nothing of the holes or outside), and every polygon edge (split at vertices of other contours lying on it) is an edge of exactly one triangle. No corner of a triangle adjacent across a non-polygon edge lies strictly inside the circumcircle of the other, and border equals the polygon border. The directions of the contours do not matter.',
 ['inputs'], 'all valid polygons: holes touching the border or each other, cocircular and level vertices, thin corridors',
 'Tests check only that construction succeeds and the border; the triangles are never inspected.',
 ['rene/_triangulation/constrained_delaunay.py', 'rene/_triangulation/mesh.py', 'rene/_triangulation/vertices.py', 'rene/_exact/triangulation.py'],
 [('constraint insertion by crossing resolution', 'rene/_triangulation/constrained_delaunay.py constrain, set_constraint'), ('pocket and hole removal', 'rene/_triangulation/constrained_delaunay.py bound, cut')],
 'ConstrainedDelaunayTriangulation.from_polygon, triangles, border'),
prop('C14', 'Validity checks of contours and multisegments are exact',
 'Contour.is_valid is True exactly when the closed vertex sequence has no degenerate or straight-angle vertex and its edges meet only at the shared ends of neighbours; Multisegment.is_valid is True exactly when no two of its segments cross at interior points of both, overlap or coincide (touching at an end of one of them is allowed). The answer does not depend on vertex start, direction or segment order.',
 ['inputs'], 'all contours of >= 3 vertices (possibly self-touching, self-crossing, folded or repeating) and all multisegments of >= 2 segments',
 'Tests generate only valid contours and multisegments, so the False side and near-misses are never exercised.',
 ['rene/_geometries/base_contour.py', 'rene/_geometries/base_multisegment.py', 'rene/_bentley_ottmann/base.py', 'rene/_bentley_ottmann/events_registry.py', 'rene/_bentley_ottmann/events_queue_key.py', 'rene/_bentley_ottmann/sweep_line_key.py', 'rene/_utils.py'],
 [('Bentley-Ottmann sweep', 'rene/_bentley_ottmann/events_registry.py'), ('relation of segments sharing a point', 'rene/_bentley_ottmann/base.py')],
 'is_valid()'),
prop('C15', 'Boxes: exact relations and tight bounding boxes',
 'For every pair of valid boxes of positive width and height, covers, disjoint_with, enclosed_by, encloses, within, touches, overlaps, equals_to and relate_to agree with the relation of the two closed rectangles as point sets, and with each other; for boxes of zero width or height that holds of disjoint_with, equals_to, within and covers. Box.is_valid is True exactly when both ranges are non-decreasing. The bounding_box of every compound is the smallest box containing it.',
 ['inputs'], 'all pairs of boxes with sharing, touching, nested and separate sides; all compounds',
 'Tests compare predicates with each other on random large-coordinate boxes that almost never share a side value; bounding boxes are only checked for type.',
 ['rene/_geometries/base_box.py', 'rene/_geometries/base_contour.py', 'rene/_geometries/base_multisegment.py', 'rene/_geometries/base_segment.py', 'rene/_geometries/base_polygon.py', 'rene/_geometries/base_multipolygon.py', 'rene/_utils.py'],
 [('coordinate comparisons', 'rene/_geometries/base_box.py'), ('running min/max', 'rene/_geometries/base_*.py bounding_box, rene/_utils.py merge_boxes')],
 'Box methods and bounding_box properties'),
prop('C16', 'Equality, hashing and ordering are coherent and representation-free',
 'Geometries compare equal exactly when they are the same geometry up to contour start and direction, segment direction, hole order and part order, and equal geometries have equal hashes and act as one key of a dict or set; geometries of different kinds, and values of foreign types, never compare equal. Equality is reflexive, symmetric and transitive, and points are totally ordered lexicographically by (x, y) with exact rational comparison.',
 ['inputs'], 'all pairs and triples of geometries of every kind, including re-represented copies and one-coordinate mutations',
 'Tests check reflexivity, symmetry and transitivity of == on independent random geometries, which are practically never equal; re-representations are checked for a few kinds only.',
 ['rene/_geometries/base_point.py', 'rene/_geometries/base_segment.py', 'rene/_geometries/base_contour.py', 'rene/_geometries/base_multisegment.py', 'rene/_geometries/base_polygon.py', 'rene/_geometries/base_multipolygon.py', 'rene/_geometries/base_box.py', 'rene/_geometries/base_empty.py', 'rene/_utils.py'],
 [('contour comparison up to rotation and reversal', 'rene/_geometries/base_contour.py, rene/_utils.py are_non_empty_unique_sequences_rotationally_equivalent'), ('frozenset comparisons', 'rene/_geometries/base_multi*.py')],
 '==, !=, hash, dict/set membership, <, <=, >, >='),
prop('C17', 'Answers are exact and commute with affine maps',
 'Translating, reflecting, transposing, shearing or scaling all operands by exact rational amounts, however large or small, maps every set-operation result, location, relation and validity answer accordingly, with no rounding at any magnitude. Coordinates that differ by arbitrarily little are treated as different and equal rationals as equal.',
 ['inputs'], 'all valid operands and all invertible rational affine maps, including coordinates far beyond float range and precision',
 'Tests only apply an x/y swap to random operands of one magnitude; no test moves a degenerate configuration off the lattice or to huge coordinates.',
 ['rene/_context.py', 'rene/_utils.py', 'rene/_clipping', 'rene/_relating', 'rene/_bentley_ottmann'],
 [('exact orientation and intersection predicates', 'rene/_utils.py orient, intersect_segments'), ('lexicographic sweep order', 'rene/_clipping/events_queue_key.py, rene/_relating/events_queue_key.py')],
 'operators, relate_to, locate, is_valid on mapped operands'),
prop('C18', 'Geometry components are immutable sequences that own their data',
 'Vertices, segments, holes and polygons are exposed as sequences that behave exactly like an immutable tuple of the constructor arguments under len, indexing (negative and slices), iteration, reversal, in, index, count, equality and hashing, and later mutation of the list passed to a constructor never changes the geometry. Constructors refuse fewer than 3 vertices, 2 segments or 2 polygons with ValueError, and geometries cannot be modified in place through the public API.',
 ['inputs', 'histories'], 'all constructor arguments and all index, slice and search arguments, all sequences of reads',
 'Tests exercise the views with a few laws on valid random geometries and never compare them with a tuple model over all slices, nor mutate constructor arguments afterwards.',
 ['rene/_exact/contour.py', 'rene/_exact/multisegment.py', 'rene/_exact/polygon.py', 'rene/_exact/multipolygon.py', 'rene/_constants.py'],
 [('sequence wrappers', 'rene/_exact/*.py _ContourVertices, _ContourSegments, _MultisegmentSegments, _PolygonHoles, _MultipolygonPolygons'), ('constructor validation', 'rene/_exact/*.py __new__')],
 'sequence protocol of .vertices, .segments, .holes, .polygons'),
prop('C19', 'repr round-trips and str is faithful',
 'Evaluating the repr of any geometry, box or point with the names it mentions yields an equal object of the same type; str contains the exact coordinates, so different geometries of one kind built from different coordinate lists have different str. Both are deterministic.',
 ['inputs'], 'all geometries of all kinds including nested and rational or huge coordinates',
 'Tests evaluate reprs of large random geometries for most kinds but do not vary degenerate sizes, nesting and coordinate forms systematically.',
 ['rene/_exact', 'rene/_geometries'],
 [('repr and str', 'rene/_exact/*.py, rene/_geometries/base_*.py __repr__/__str__')],
 'repr, str'),
prop('C20', 'Operations are pure, deterministic and total on their domain',
 'Every supported operation on valid operands returns normally (no internal assertion, lookup or arithmetic error escapes), never changes its operands, and gives an equal answer when repeated on the same objects or on equal copies, also with other operations in between. Union and symmetric difference of operands of different dimensions, subtraction of linear geometry from a region, operators with operands that are no compounds, and relate_to with such operands are refused with TypeError, before and after any other operation.',
 ['inputs', 'histories'], 'all pairs of compounds of all kinds, all operators and queries, in every interleaving',
 'Tests call one operation per example and never re-inspect operands; internal assertions are reached only by degenerate contacts the tests do not sample.',
 ['rene/_geometries', 'rene/_exact', 'rene/_clipping', 'rene/_relating', 'rene/_seidel', 'rene/_triangulation'],
 [('operator dispatch', 'rene/_geometries/base_compound.py'), ('sweep-line invariants (asserts)', 'rene/_clipping/*.py, rene/_relating/*.py')],
 'return values, raised exceptions, operand snapshots'),
prop('C21', 'Chains of operations track the set model',
 'Any sequence of set operations whose operands are earlier results (or components of them) keeps agreeing with the exact point-set model after every step: membership, validity, bounding box, location and relation of each intermediate result are those of the modelled set. Results are usable as operands without limit on the length of the chain.',
 ['histories'], 'all sequences of &, |, -, ^ (and clipping of linear parts) over a pool of valid geometries',
 'Tests combine at most three operands and compare rene with rene; results with touching holes, islands and pinched rings are hardly ever fed back.',
 ['rene/_clipping', 'rene/_geometries', 'rene/_relating'],
 [('closure of operators over their own results', 'rene/_clipping/shaped.py, linear.py, mixed.py')],
 'every intermediate result of the chain'),
prop('C22', 'Contour orientation and edges are faithful',
 'For every valid contour, orientation is COUNTERCLOCKWISE exactly when its signed area is positive, flips when the vertices are reversed and is unchanged by rotation of the start; segments are the consecutive vertex pairs closing back to the start, one per vertex, each directed from one vertex to the next in a consistent order.',
 ['inputs'], 'all valid contours, every start vertex and both directions, including several vertices sharing the extreme coordinates',
 'Tests check that orientation is an Orientation and flips on reversal for random contours; it is never compared with the signed area, nor are segments with vertices.',
 ['rene/_geometries/base_contour.py', 'rene/_exact/contour.py', 'rene/_utils.py'],
 [('orientation at the extreme vertex', 'rene/_utils.py to_contour_orientation, to_arg_min'), ('edge construction', 'rene/_exact/contour.py')],
 'Contour.orientation, Contour.segments, Contour.vertices'),
prop('C23', 'Grid geometry of any size behaves as sets of cells and edges',
 'For regions made of unit cells and linear geometries made of unit edges of one grid, of any size and under any invertible rational affine map, &, |, -, ^ (and & and - between the two kinds) give exactly the cells or edges that set algebra gives, as valid geometries with straight-angle-free simple rings, no edge twice and as many polygons as side-connected components (components meeting at corners may share one); relate_to gives the relation of the sets and locate and `in` answer by membership.',
 ['inputs'], 'all pairs of cell sets and edge sets, from single cells to checkers, spirals, nested frames and noise with hundreds of edges',
 'Tests use operands of a few edges; many-part operands with thousands of vertex contacts, deep nesting and long sweeps are never built.',
 ['rene/_clipping', 'rene/_relating', 'rene/_geometries', 'rene/_utils.py'],
 [('sweeps and contour reconstruction', 'rene/_clipping/shaped.py, linear.py, mixed.py'), ('hole assignment', 'rene/_clipping/shaped.py'), ('relation sweeps', 'rene/_relating/shaped.py, linear.py, mixed.py')],
 'operators, relate_to, locate, in'),
prop('C24', 'Coordinates of any number type are kept exactly and act alike',
 'Point and Box keep every finite number given as int, float, fractions.Fraction, rithm Int or Fraction exactly, and values that are not finite numbers are refused. Geometries built from the same numbers in different number types are equal, hash and print alike and give the same answers in every relation, location and operator. Negative zero is zero.',
 ['inputs'], 'all finite numbers of all supported types, including subnormal and huge floats and integers beyond float range, in every mixture',
 'Tests build each geometry from one number type at a time and never compare answers across number types.',
 ['rene/_exact/point.py', 'rene/_exact/box.py', 'rene/_geometries/base_point.py', 'rene/_geometries/base_box.py', 'rene/_utils.py'],
 [('coordinate conversion', 'rene/_exact/point.py, rene/_exact/box.py __new__')],
 'Point.x, Point.y, Box sides, equality, texts, operators'),
prop('C25', 'Relations compose and place results among their operands',
 'For valid non-empty compounds: a subset of a subset is a subset (strict when either is), a subset of a disjoint or touching geometry does not meet its interior, equal geometries relate equally to everything, whatever is within the interior of a region is within every larger region, and everything is EQUAL to itself. a & b relates as a subset of both operands, a | b as a superset of both, and a - b as a subset of a that shares no interior with b.',
 ['inputs', 'histories'], 'all triples of compounds of all kinds, results of operators included',
 'No test relates three geometries or a result with its operands.',
 ['rene/_relating', 'rene/_geometries', 'rene/_clipping', 'rene/_enums.py'],
 [('relate_to of every pair of kinds', 'rene/_geometries/base_*.py relate_to'), ('relation sweeps', 'rene/_relating')],
 'relate_to over pools of operands and results'),
prop('C26', 'A geometry behaves as the union of its parts',
 'Locations, bounding boxes, intersections, unions, differences and relations of a Multisegment, Contour or Multipolygon agree with those of its segments or polygons taken one by one, a Contour acts on every operand as the Multisegment of its edges, and a Polygon equals its border without its holes.',
 ['inputs'], 'all compounds of several parts against all other compounds and points',
 'Tests never take a geometry apart and compare the parts with the whole.',
 ['rene/_geometries/base_contour.py', 'rene/_geometries/base_multisegment.py', 'rene/_geometries/base_polygon.py', 'rene/_geometries/base_multipolygon.py', 'rene/_clipping', 'rene/_relating'],
 [('per-part composition', 'rene/_geometries/base_multi*.py, base_polygon.py'), ('bounding-box filters that select parts', 'rene/_clipping, rene/_relating')],
 'operators, relate_to, locate, bounding_box of wholes and parts'),
prop('C27', 'Threads using the same geometries do not disturb each other',
 'Geometries may be shared by threads: however the steps of the threads interleave, every operator, relation, location, validity query, decomposition and text of every thread is the one it gives alone, no error arises that does not arise alone, and the geometries stay unchanged.',
 ['inputs', 'schedules'], 'all interleavings of 2 or 3 threads of operations on shared geometries, at line and at bytecode granularity',
 'Tests are single-threaded; shared scratch state that every call resets is invisible to any sequential test.',
 ['rene/_geometries', 'rene/_exact', 'rene/_clipping', 'rene/_relating', 'rene/_seidel', 'rene/_triangulation', 'rene/_utils.py'],
 [('sweeps keep their state in objects of their own', 'rene/_clipping/*.py, rene/_relating/*.py, rene/_bentley_ottmann/*.py'), ('immutable geometries', 'rene/_exact/*.py')],
 'return values and raised exceptions of every thread, operand snapshots'),
prop('C28', 'An abandoned operation leaves no trace',
 'When an operation is abandoned at any point by an exception from outside (KeyboardInterrupt, MemoryError, an exception of a signal handler), the geometries involved are unchanged and every later operation, relation, location or decomposition, on the same objects or on copies, answers as if the abandoned one had never begun.',
 ['inputs', 'histories', 'crash_points'], 'every operation abandoned at every line, once or repeatedly, followed by every other operation',
 'Tests never interrupt an operation.',
 ['rene/_geometries', 'rene/_exact', 'rene/_clipping', 'rene/_relating', 'rene/_seidel', 'rene/_triangulation', 'rene/_utils.py'],
 [('sweeps keep their state in objects of their own', 'rene/_clipping/*.py, rene/_relating/*.py, rene/_bentley_ottmann/*.py'), ('immutable geometries', 'rene/_exact/*.py')],
 'answers before and after the abandoned operations, operand snapshots'),
]
out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
ids = [p['id'] for p in P]
assert len(ids) == len(set(ids))
for p in P:
    assert len(p['title']) <= 80, p['title']
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
