# -*- python -*-  entries of the catalogue, see catalog.py

P('C01', 'Identifiers and counters are unique and increasing under any interleaving',
  'Every object that takes an identifier receives one that was never given before and that is greater than all the '
  'identifiers given before in the process, whatever the threads creating objects concurrently. An identifier may be '
  'forced only to a value greater than the current one, otherwise it is refused and nothing changes. '
  'Each operation of the shared counter is atomic: the values returned to the threads and the final value are those '
  'of some interleaving of whole operations.',
  ['schedules', 'histories'],
  'All sequential histories of increments and forced values up to a bound, every interleaving of small concurrent '
  'programs, and every schedule of the real code with a bounded number of preemptions.',
  'There is no test of the counter; the guarantee is about schedules of threads that a unit test does not control.',
  ['Patro/Common/AtomicCounter.py', 'Patro/Common/Object.py'],
  [('locked increment and set', 'Patro/Common/AtomicCounter.py'), ('global identifiers', 'Patro/Common/Object.py')],
  'every outcome set of Counter.tla is the oracle of the histories and of the deterministic schedules (bytecode '
  'interleavings, bounded preemptions) of the real counter',
  'Exhaustive on the specification; the code is run under all schedules with at most 2 (quick) or 3 (thorough) '
  'preemptions of small programs, plus random ones. A bytecode is the unit of interleaving.',
  observe=['value returned by an increment', 'identifier of an object'])

P('C02', 'The dependency graph stays consistent and its topological order is correct',
  'After any sequence of additions of nodes, connections and disconnections, each node lists exactly its ancestors and '
  'its descendants, the roots and the leaves are exactly the nodes without ancestor or descendant. '
  'A topological sort lists each node exactly once, after all its ancestors, and is refused when '
  'there is a cycle; a breadth first search visits exactly the nodes which are reachable, once, nearest first. '
  'A refused operation leaves the graph unchanged.',
  ['histories', 'inputs'],
  'All histories over 3 nodes (the whole reachable state graph) and random histories with more nodes.',
  'The tests build one hand written graph and look at one order; consistency is about every history of mutations.',
  ['Patro/Common/Graph/DirectedAcyclicGraph.py'],
  [('edges kept on both sides', 'Patro/Common/Graph/DirectedAcyclicGraph.py'),
   ('topological sort', 'Patro/Common/Graph/DirectedAcyclicGraph.py')],
  'all the transitions of Dag.tla are replayed in the container and recorded histories are validated by the specification',
  'Exhaustive for 3 nodes; random traces with up to 8 nodes validated by TLC. A valid topological order is accepted '
  'whatever the choice between independent nodes.',
  observe=['nodes, roots, leaves, ancestors, descendants', 'order of the sort and of the searches'])

P('M01', 'Measurement sets resolve names and expressions, in any order, and survive YAML',
  'A name is bound once in a measurement set and a second definition or an invalid name is refused without effect. '
  'The value of a measurement is the exact value of its number or of its expression over the other measurements, whatever '
  'the order in which they were added and asked, and it does not exist before all its dependencies do. Saving a set to YAML '
  'and loading it gives the same names, texts and values.',
  ['histories', 'inputs'],
  'All histories of additions and evaluations over three names and a pool of definitions, and random sets of up to 14 '
  'measurements with arbitrary expressions, orders and texts.',
  'The tests load one measurement file and look at one value; the order of the definitions, the moment of the evaluation and '
  'the texts are all universally quantified.',
  ['Patro/Measurement/Measurement.py'],
  [('expression evaluation with a cache', 'Patro/Measurement/Measurement.py'), ('YAML', 'Patro/Measurement/Measurement.py')],
  'all the transitions of Measurements.tla are replayed; exact values of random sets (after every prefix of the additions) are '
  'computed by TLC and compared',
  'Exhaustive for three names and nine definitions; random beyond. Names are neither keywords of Python nor pi and a missing measurement does not '
  'cancel out in an expression.',
  observe=['float value of a measurement', 'names and texts', 'YAML file'])

P('M02', 'A Valentina measurement file is read completely and faithfully',
  'Reading a Valentina file gives every measurement in the order of the file with its names, texts and the exact value of '
  'its expression, and the unit, the pattern making system and the personal data of the file. A custom measurement is '
  'reachable under its Valentina name and under its plain name, once, and expressions may mix standard and custom '
  'measurements freely. A file which defines a measurement twice is refused, and the table of standard measurements has '
  'unique names and codes. The personal data keep each field as it was last set; a date which is not one of the calendar or an unknown '
  'gender is refused and changes nothing.',
  ['inputs', 'histories'],
  'Random files: up to 11 measurements, custom or standard with the same base name, expressions, texts with special '
  'characters, order of elements and attributes, personal data.',
  'One demonstration file is read by the tests, without any check of the values.',
  ['Patro/FileFormat/Valentina/Measurement.py', 'Patro/Measurement/ValentinaMeasurement.py',
   'Patro/Measurement/ValentinaStandardMeasurement.py', 'Patro/Measurement/PersonalData.py', 'Patro/Common/Datetime.py'],
  [('vit file reader', 'Patro/FileFormat/Valentina/Measurement.py'),
   ('names of the custom measurements', 'Patro/Measurement/ValentinaMeasurement.py')],
  'Valentina.tla (a reader refining the measurement set) gives the names, values or refusal of random files, compared with the reader',
  'Random files (150 quick, 1500 thorough) with values computed exactly by TLC.',
  observe=['measurements of the file', 'personal data', 'unit'])

P('G01', 'Vector algebra obeys the laws of the plane',
  'For all vectors, the operations of the vector class give the exact results of plane geometry: sum, difference, product by a '
  'scalar, dot and cross products, squared magnitude, quarter turns, rotation, middle, interpolation, projections, deviation, '
  'signed angle and orientation between two vectors, parallelism and orthogonality, equality. In place operations change only '
  'the left operand, and by the same amount as the out of place ones; all the other operations leave their operands unchanged '
  'and never share storage with them. A normalised vector has a unit magnitude and the same direction. '
  'Vectors of integers follow the same laws and keep integers; rounding a vector gives the nearest vector of integers.',
  ['inputs', 'histories'],
  'All pairs of vectors of a grid, random rational vectors, and all the transitions of a vector register under the in place and '
  'out of place operations.',
  'The tests look at a few vectors at remarkable angles; the laws are over all the pairs of vectors.',
  ['Patro/GeometryEngine/Vector.py'],
  [('vector operations', 'Patro/GeometryEngine/Vector.py')],
  'all the transitions of the register of Vector.tla are replayed in a real vector, exact results computed by TLC for all the pairs '
  'of a grid and random rational pairs are compared with the code',
  'Exhaustive on a grid; random rationals beyond. Floats are compared within 1e-9.',
  observe=['coordinates', 'dot, cross, magnitude, angle', 'orientation predicates'])

P('G02', 'Plane transformations compose as the functions they represent',
  'The transformation made by each constructor maps every point as its definition says: rotation (counterclockwise), scale, '
  'reflections, translation, rotation about a centre, shear. The product of two transformations maps a point as the application of the '
  'right one followed by the left one, whatever the length of the product and the types involved, the identity is neutral, '
  'and operands are left unchanged. A transformation whose type is reported as a rotation, a scaling or an identity is one.',
  ['histories', 'inputs'],
  'All products up to a bounded length of a set of transformations and random products, applied to a set of points which determines '
  'an affine map.',
  'The tests check a few matrices; compositions are sequences of arbitrary length.',
  ['Patro/GeometryEngine/Transformation.py'],
  [('constructors and product', 'Patro/GeometryEngine/Transformation.py')],
  'transitions of Transformation.tla (composition of maps) replayed on the real objects, the images of the points compared',
  'Rational rotations (Pythagorean triples and quarter turns); floats compared within 1e-9.',
  observe=['images of points', 'type of the transformation'])

P('G03', 'Lines and segments agree with exact incidence geometry',
  'For all pairs of segments and of lines, the code gives the exact answer: do two segments meet, where do their lines cut, is the '
  'cut inside both, does a point belong to a segment, on which side is it, distance of a point to a segment or a line, projection, '
  'abscissae, shared vertices; derived lines (parallel, orthogonal, shifted) pass where they should. '
  'The answers do not depend on the order of the operands nor on the direction of the segments, and operands are unchanged.',
  ['inputs'],
  'All the pairs of segments and lines of a grid, which include every degenerate configuration (aligned, touching, overlapping, '
  'parallel), and random pairs biased toward the degenerate configurations.',
  'The tests look at a few pairs; the guarantee is over every relative position of two segments.',
  ['Patro/GeometryEngine/Line.py', 'Patro/GeometryEngine/Segment.py'],
  [('line', 'Patro/GeometryEngine/Line.py'), ('segment', 'Patro/GeometryEngine/Segment.py')],
  'Lines.tla (incidence predicates and parameters over rationals, with their theorems as invariants) is evaluated by TLC on the '
  'grid and on random cases, the results are compared with the code',
  'Exhaustive for the grid [0, 2]^2 (quick) or [0, 3]^2 (thorough); coordinates are integers or half integers so that '
  'the code computes the predicates exactly.',
  observe=['intersection points and flags', 'projections and distances'])

P('G04', 'Primitives are their points: transform, clone, reverse and set keep the contract',
  'A geometric primitive defined by points (segment, triangle, rectangle, polyline, polygon, Bézier curve, spline) is the sequence '
  'of its points: a transformation in place maps every point, the same transformation on a clone gives a primitive of the same class '
  'with the same images and leaves the original unchanged; a clone or a reversed primitive is independent of the original whatever '
  'is done later to one of them; reversing twice gives the points back; a point which is set is read back, and only it changes. '
  'After any history of such operations the points, their array, their number, the ends, the bounding box, the barycenter, the '
  'iterators, the closed points and the edges are those of the current points, never stale values.',
  ['histories', 'inputs'],
  'All histories of two registers holding a primitive, for ten classes, up to a bounded depth, with the derived quantities asked or not '
  'between the operations, and random programs with rational points.',
  'The tests never transform a primitive after they asked it a derived quantity; the contract is over all sequences and classes.',
  ['Patro/GeometryEngine/Primitive.py', 'Patro/GeometryEngine/Polygon.py', 'Patro/GeometryEngine/Polyline.py',
   'Patro/GeometryEngine/Spline.py'],
  [('primitive operations', 'Patro/GeometryEngine/Primitive.py')],
  'all the transitions of the register machine of Primitive.tla are replayed on ten classes, random programs are run by TLC and by the code',
  'Exhaustive for 3 operations (bounded coordinates); random programs beyond. Regular polygons (G05), circles and ellipses (G11) are out of this '
  'property.',
  observe=['points', 'bounding box, barycenter, edges'])

P('G05', 'Polygon queries give exact plane geometry, in any order of the questions',
  'For every closed polygonal chain: it is simple exactly when non adjacent edges do not touch and adjacent edges only share their vertex; '
  'a simple polygon is convex exactly when it never turns to both sides, its area, its orientation, its barycenter and its moments are those of '
  'the enclosed surface; a point (not on the boundary) is inside exactly when it belongs to that surface, whatever the orientation of the polygon; perimeter and edges '
  'follow the vertices in order. The answers do not depend on the order in which they are asked, follow the polygon when it is moved, and the polygon is unchanged; recentering '
  'translates the barycenter to the origin; the simplified polygon has the vertices where it turns, in order. A regular polygon has its number of edges, '
  'vertices on the circle of the given radius; its clone, its reverse and its image by a similarity are regular polygons, with their own center, radius, angle and sense.',
  ['inputs', 'histories'],
  'All polygons with few vertices on a small grid, and random polygons (star shaped, self crossing, aligned, touching vertices) up to '
  '9 vertices, questions asked in a random order, and again once the polygon is turned and moved by any numbers.',
  'One square and one self crossing polygon are tested; the guarantee is over all polygons, degenerate ones included.',
  ['Patro/GeometryEngine/Polygon.py'],
  [('sweep and cached properties', 'Patro/GeometryEngine/Polygon.py')],
  'exact simplicity, convexity, area, moments and point location computed by Polygons.tla for every polygon are compared with the code',
  'Exhaustive on small grids, random integers and half integers beyond; boundary points are not asked.',
  observe=['predicates', 'area, barycenter, moments', 'edges'])

P('G06', 'The convex hull is exactly the extreme points, in counterclockwise order',
  'For every finite set of points, given in any order and possibly repeated, the convex hull is the polygon of the extreme points of the set, each '
  'once, in counterclockwise order; all the points are inside. It does not depend on the order of the points, and they are '
  'not modified.',
  ['inputs'],
  'All sets of points of a 3x3 grid (sampled in the quick tier) in several orders, and random sets biased to aligned and repeated points.',
  'The tests compute one hull; degenerate and permuted inputs are universally quantified.',
  ['Patro/GeometryEngine/Polygon.py'],
  [('convex_hull', 'Patro/GeometryEngine/Polygon.py')],
  'Hull.tla characterises the extreme points by combinations and by lines, both agree (invariant), and gives the walk compared with the code',
  'Exhaustive for the 3x3 grid in the thorough tier; one cyclic order is accepted whatever its first point.',
  observe=['points of the hull'])

P('G07', 'Triangles, rectangles and polylines have the geometry of their points',
  'For all triangles, rectangles and polylines: area, perimeter or length, classification (isosceles, scalene, obtuse, acute), orientation, '
  'point inside, bisectors, diagonal, edges in order, distance of a point to a polyline, conversion to a polygon or a path, are those '
  'of their points. A flat triangle is refused.',
  ['inputs'],
  'All triangles of a grid, and random triangles, rectangles (any corners) and polylines.',
  'The tests do not instantiate most of these methods; the results are over all points.',
  ['Patro/GeometryEngine/Triangle.py', 'Patro/GeometryEngine/Rectangle.py', 'Patro/GeometryEngine/Polyline.py'],
  [('triangle', 'Patro/GeometryEngine/Triangle.py'), ('rectangle', 'Patro/GeometryEngine/Rectangle.py'),
   ('polyline', 'Patro/GeometryEngine/Polyline.py')],
  'exact observations computed by Shapes.tla for every shape are compared with the code',
  'Exhaustive for the triangles of a grid; random beyond. Right angles (float ties) are excluded from obtuse/acute.',
  observe=['area, lengths, predicates', 'edges, bisectors'])

P('G08', 'Bézier curves: splitting, conversion, length and intersections keep the curve',
  'For all quadratic and cubic Bézier curves and parameters: the point at t is that of the Bernstein form; splitting at one or two '
  'parameters gives curves of the same class which cover the same points; degree elevation, reversal and spline conversion keep the '
  'curve; tangents and normals have the direction of the derivative; the length is that of the curve, is additive over a '
  'split and is inverted by the parameter at a length; the area is that of the region closed by the chord; the closest point is not farther than '
  'any other point of the curve; the intersections with a line are on the line and every crossing is found.',
  ['inputs', 'histories'],
  'Random and degenerate (straight, cusped, looped, repeated points) quadratic and cubic curves and rational parameters, questions asked '
  'in random order and after changes of the points.',
  'The tests draw a few curves; the identities are over all control points and parameters.',
  ['Patro/GeometryEngine/Bezier.py', 'Patro/Common/Math/Root.py'],
  [('Bézier curves', 'Patro/GeometryEngine/Bezier.py'), ('roots', 'Patro/Common/Math/Root.py')],
  'Bezier.tla (de Casteljau, Bernstein laws as invariants) gives exact points, pieces, area and side of a line compared with the code; lengths '
  'and closest points are bounded by exact subdivisions',
  'Random control points on small integers; floats within 1e-9 (1e-2 relative for the sampled bounds of the lengths).',
  observe=['points and pieces', 'length', 'roots on a line'])

P('G09', 'B-splines: evaluation, knot insertion and Bézier form describe the same curve',
  'For all B-splines of any degree with uniform or clamped non uniform knots: the point at t is that of the Cox-de Boor recursion, '
  'over the whole knot range, by both evaluation methods; the basis functions are a partition of unity; spans and knot '
  'multiplicities are those of the knot vector; inserting a knot any number of times, reversing, cloning and converting to Bézier '
  'curves or to the Bézier form keep the curve and leave the original unchanged; uniform splines and Bézier curves convert into each other. '
  'Invalid knots or degrees are refused.',
  ['inputs', 'histories'],
  'Random splines of degree 1 to 4, uniform or not, up to 9 points, rational parameters at and between knots.',
  'The tests evaluate one spline; the identities are over all points, knots and parameters.',
  ['Patro/GeometryEngine/Spline.py'],
  [('splines', 'Patro/GeometryEngine/Spline.py')],
  'Splines.tla (Cox-de Boor recursion, Boehm insertion, with the invariance of the curve as a TLC invariant) gives exact values compared with the code',
  'Random integer control points; floats within 1e-9.',
  observe=['points, knots, basis functions'])

P('G11', 'Circles, ellipses and their arcs: points, distances, intersections, SVG arcs',
  'For all circles, ellipses and arcs: the points, tangents, ends, perimeter, bounding box and matrix are those of the curve; the distance of a point, '
  'and the closest point, are exact also for arcs, for points of the axes and for rotated ellipses; a point is inside or not; the '
  'intersections with a line or another circle are all found, and only them; an arc given in the SVG form (ends, radii, rotation, flags) is the '
  'one the SVG specification defines, too small radii are enlarged; the Bézier curves of an arc follow it from its start to its stop; '
  'an arc is mapped by rotations, symmetries, scales and translations to the arc of the images of its points; an angular '
  'domain is the set of angles met counterclockwise from its start to its stop; a clone is independent; once its center, radii, angle or domain are '
  'changed, a conic is the one of the new values, whatever was asked before.',
  ['inputs', 'histories'],
  'Random circles, ellipses (rotated by rational angles, any axis order), arcs, points inside and outside and on axes, secant and tangent lines, circle '
  'pairs, SVG arcs of every flag, angular domains in any turn.',
  'The tests cover a few calls; the results are over all shapes, angles and points, with ties on axes, tangencies and turns.',
  ['Patro/GeometryEngine/Conic.py', 'Patro/GeometryEngine/Mixin.py'],
  [('circles and ellipses', 'Patro/GeometryEngine/Conic.py'), ('angular domains', 'Patro/GeometryEngine/Mixin.py')],
  'Conics.tla gives exact points, membership of arcs, distances, chords and images (rational points of the unit circle) compared with the code; its laws '
  '(complementary arcs, normal offsets, chords) are TLC invariants',
  'Rational directions; floats within 1e-9. Shears of circles, area and bounding box of arcs (unimplemented) are excluded.',
  observe=['points, distances', 'intersections', 'arcs'])

P('G10', 'A path is what its commands draw, also once closed, cloned or transformed',
  'For every sequence of drawing commands (absolute and relative lines, compass directions, horizontal and vertical lines, quadratic and cubic Bézier '
  'curves, elliptic arcs, closing with or without rounded corner): each part starts where the previous one stops, its points are those of the '
  'commands; a corner with a radius between two lines is rounded by the arc tangent to both, which the straight parts, the arc and the bounding '
  'box reflect; a radius where there is no such corner is refused and adds nothing; a closed path ends at its start and ignores later '
  'commands; the distance of a point to a path is the one to the nearest of its parts, corners included; parts know their neighbours; a part which is changed, or a start which is moved, gives the path of the changed commands; clones are independent and equal; rotations, symmetries, scales, translations (and linear maps of straight and '
  'Bézier parts) map every point, corner and arc.',
  ['histories', 'inputs'],
  'Random command sequences of lines with corners and of mixed parts, clones and transformations in any order; paths drawn with other commands whose parts are then '
  'changed one by one, with readings in between; sequences of four commands of a small alphabet (all of them in the thorough tier).',
  'The tests do not draw paths; the guarantees are over all sequences of commands and transformations.',
  ['Patro/GeometryEngine/Path.py'],
  [('paths', 'Patro/GeometryEngine/Path.py')],
  'Paths.tla is a state machine (one action per command) whose reached states, checked by TLC (joined arcs, tangent corners, growth), are replayed '
  'in the code and compared after each command',
  'Corners between lines with rational directions; SVG smooth (S, T) segments, which the code does not implement, and corners of aligned lines are excluded.',
  observe=['points of the parts', 'corners', 'bounding box'])

P('S01', 'The calculator gives the value and the dependencies of an expression',
  'For every expression of a pattern, in the notation of Valentina: each measurement (custom ones under both names), Line_P_Q (distance of the points), '
  'AngleLine_P_Q (orientation of P to Q in degrees, in ]-180, 180]), CurrentLength (length of the current segment) and arithmetic operator stands for '
  'itself, whatever other name contains or prefixes it; the value is that of the current points and measurements when first asked '
  'or after being declared dirty, and unchanged otherwise; the dependencies are exactly the points the expression names.',
  ['inputs', 'histories'],
  'Points and measurements whose names are prefixes of each other or contain function names; all expressions of one operation on '
  'ten atoms, random expressions; histories which move points, change the current segment, ask and declare dirty.',
  'The tests evaluate a few expressions; the guarantee is over all names, expressions and orders of evaluation.',
  ['Patro/Pattern/Calculator.py'],
  [('calculator', 'Patro/Pattern/Calculator.py')],
  'Calculator.tla is a state machine (place a point, set the segment, ask, declare dirty) whose answers, exact rationals computed by TLC, are compared with '
  'those of the code along the same history',
  'Expressions built from operators, parentheses and names; the functions of splines, not implemented by the code (always 0), are excluded.',
  observe=['values', 'dependencies'])

P('S02', 'A sketch evaluates to the constructed points, with its true dependencies',
  'For every sequence of sketch operations: after evaluation (once or again) each point, line and spline is the one its construction defines '
  '(coordinates, along a line, from an angle, normal, intersections, contact of a line and a circle, handles of the spline) for the values of its '
  'expressions; an operation refers to points by object, id or name, is refused and leaves the sketch unchanged when they are unknown; '
  'the dependencies, and the ancestors in the graph, are exactly the points and names it uses; the bounding box covers the geometry; '
  'the generated Python code rebuilds an equivalent sketch; the sketches of a pattern do not mix, and its scopes are found by index and name.',
  ['histories', 'inputs'],
  'All sketches of two points and two operations of any kind (three in the thorough tier), random sketches of up to 12 operations, built together and '
  'interleaved, with measurements; the Python code of each operation executed; random histories of scopes.',
  'The tests evaluate one pattern without comparing the points; the guarantee is over all sequences of operations.',
  ['Patro/Pattern/Sketch.py', 'Patro/Pattern/SketchOperation.py', 'Patro/Pattern/Pattern.py'],
  [('sketch', 'Patro/Pattern/Sketch.py'), ('operations', 'Patro/Pattern/SketchOperation.py'), ('pattern', 'Patro/Pattern/Pattern.py')],
  'Sketch.tla is a state machine with one action for each operation, whose invariants (normal offsets, collinearity, contact, order of the dependencies) '
  'TLC checks; each of its behaviours is replayed in the code and the exact results compared',
  'Constructions with rational results; a contact of several solutions may be any of them in the segment; a point without solution is not used further.',
  observe=['points and curves', 'dependencies', 'Python code', 'bounding box'])

P('S03', 'Valentina pattern files are read faithfully and survive writing',
  'Reading a Valentina pattern file gives one scope for each drawing, in order, whose operations are those of the calculations of the file with the same '
  'identifiers, names, points, expressions, label offsets, styles and colours; calculations which are not supported are skipped; the measurements are those of the file it refers to. '
  'A pattern written to a file and read again has the same scopes, operations and geometry, and the file written is the one which the format defines; '
  'reading, writing and reading again changes nothing. Identifiers are unique in a pattern, and the pieces of a pattern do not mix.',
  ['inputs', 'histories'],
  'All documents of a bounded model (additions of elements to a piece, writing, reading), random patterns of up to three pieces and eight operations each, '
  'with special characters in names, any style and colour, files as Valentina writes them with attributes in any order and unsupported elements.',
  'The tests read one demonstration file and write one; nothing is compared.',
  ['Patro/FileFormat/Valentina/Pattern.py', 'Patro/FileFormat/Valentina/VitFormat.py', 'Patro/Common/Xml/Objectivity.py', 'Patro/Pattern/SketchOperation.py'],
  [('reader and writer', 'Patro/FileFormat/Valentina/Pattern.py'), ('format', 'Patro/FileFormat/Valentina/VitFormat.py'),
   ('attributes of the XML elements', 'Patro/Common/Xml/Objectivity.py')],
  'ValFile.tla maps patterns to documents and documents to patterns (round trip, rewriting and scope laws checked by TLC); the documents written by the code, and the '
  'patterns which it reads, are compared with those TLC computes',
  'The style of the line of a spline is not in the format; colours whose names are ambiguous, increments and path modeling elements are excluded.',
  observe=['XML document', 'operations of the scopes', 'geometry'])

P('S04', 'The detail scene of a sketch draws exactly the sketch',
  'For every evaluated sketch, the detail scene contains, for each operation in order and attached to it: a mark at each point; the label and its line when the label is '
  'shifted, its vertical offset being downwards; the construction line of a point along a line, at the end of a line or on a normal, from its base point; '
  'the segments and the curves at the points of the lines and splines; with the line style and colour of the operation and the widths, sizes and colours of the style '
  'of the drawing. The points are named coordinates of the scene: moving one carries the marks and lines bound to it only. '
  'The bounding box of the scene is that of the sketch, and two scenes of a sketch are independent.',
  ['inputs', 'histories'],
  'Random sketches of up to ten operations of any kind, styles, labels, drawing styles, then moves of coordinates; the scene is generated after each operation or at the end.',
  'The tests only generate files with one pattern, without looking at the content.',
  ['Patro/Pattern/Sketch.py', 'Patro/Pattern/SketchStyle.py', 'Patro/GraphicEngine/GraphicScene/Scene.py'],
  [('detail scene', 'Patro/Pattern/Sketch.py'), ('style of the drawing', 'Patro/Pattern/SketchStyle.py')],
  'Detail.tla extends the state machine of the sketch with the drawing (each operation appends its items, a move of a name changes them); each state is compared with the '
  'scene of the code',
  'Sketches whose points exist; the order of the items of one operation is free.',
  observe=['items of the scene, points, styles', 'named coordinates', 'bounding box'])

P('R01', 'A graphic scene keeps items, stacking, selection and spatial index consistent',
  'After any history of additions and removals of items and named coordinates, changes of stacking, visibility and selection, declarations of dirty items and updates of the '
  'index: the scene lists its items in order of insertion; the visible items are iterated by increasing z, then by insertion; the selection and the items of each data of the '
  'user (by identity) are exact; a position or the name of a coordinate is placed by the transformation of the scene. An item keeps its geometry until declared dirty; the '
  'index gives exactly the items whose indexed bounding box meets a query, never a removed one, and items near a point come by increasing true distance (lines, circles, '
  'ellipses, Bézier curves and paths). A path which grows keeps its geometry until dirty.',
  ['histories', 'inputs'],
  'All histories of five (six in the thorough tier) operations on two items and a coordinate, random histories of up to forty operations over eleven types of items and six '
  'transformations.',
  'There is no test of the scene; the guarantee is over all histories of its users.',
  ['Patro/GraphicEngine/GraphicScene/Scene.py', 'Patro/GraphicEngine/GraphicScene/GraphicItem.py', 'Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py'],
  [('scene', 'Patro/GraphicEngine/GraphicScene/Scene.py'), ('items', 'Patro/GraphicEngine/GraphicScene/GraphicItem.py'),
   ('dirty items', 'Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py')],
  'Scene.tla is a state machine (coordinates, items, cached geometry, dirty set, index) whose laws TLC checks; all transitions of a bounded model and random histories are '
  'replayed in the code, the whole observable state being compared after each operation',
  'Queries never touch a box exactly; distances to texts, images and rectangles are excluded, as the bounding box of a Bezier item is that of its control points.',
  observe=['order of the items', 'geometry and bounding box', 'answers of the queries'])

P('F01', 'SVG path data and transforms follow the SVG grammar',
  'The data of an SVG path, in any form which the grammar allows (spaces, commas, newlines or no separator, signs, exponents, flags of arcs without separators, implicit '
  'repetitions, relative and absolute instructions, lines after a move), gives the path which the instructions draw: same parts, points, arcs (radii enlarged when '
  'too small, a line when null) and closure. A list of transforms gives the composition of its maps, the last one applied first. '
  'Malformed data is refused by an exception. A path, or an affine map, written to XML is an equivalent text, and read again it is the same.',
  ['inputs'],
  'Random instruction lists and transform lists, written in every style of the grammar, malformed texts, and the texts which the code writes.',
  'The only test reads three paths separated by spaces; the guarantee is over all texts of the grammar.',
  ['Patro/FileFormat/Svg/SvgFormat.py', 'Patro/GeometryEngine/Path.py', 'Patro/GeometryEngine/Transformation.py'],
  [('attributes of SVG', 'Patro/FileFormat/Svg/SvgFormat.py')],
  'SvgPath.tla and SvgTransform.tla are automata which read the texts character by character and draw on the model of the paths (Paths.tla) or compose exact maps; TLC checks '
  'that they recognise what the writer meant; the code reads the same texts, and the texts which the code writes are read by the specification',
  'One sub-path for each path, no smooth curves (S, T) and no skew, which are not implemented; rotations by quarter turns.',
  observe=['parts of the path', 'affine map', 'exceptions', 'written text'])

P('F02', 'SVG documents are read with inherited states and written back',
  'Reading an SVG document calls the reader for each group and each graphic item in order, whatever the comments, definitions, texts or namespace prefixes between them. An item '
  'gives the attributes of its element; its state has the value of the item, else of its nearest group which gives one (inherit gives none), else the default, '
  'the style being stronger than the attributes; its transform is the composition of those of its groups and its own. A group ends with its end tag. '
  'The view box is optional and is the interval of its position and size. Elements created in Python and written in a file, with or without a '
  'global transform, are read back the same. Rectangles give the paths of their sides and rounded corners; texts, booleans and lengths with units keep their values.',
  ['inputs', 'histories'],
  'All trees of five events (six in the thorough tier) with random attributes, random documents of up to 13 events and depth five, written by any writer; lists of elements written by '
  'the library.',
  'One document is read by the tests, whose items have no attribute in common with their groups.',
  ['Patro/FileFormat/Svg/SvgFile.py', 'Patro/FileFormat/Svg/SvgFormat.py', 'Patro/Common/Xml/Objectivity.py'],
  [('reader and writer', 'Patro/FileFormat/Svg/SvgFile.py'), ('elements', 'Patro/FileFormat/Svg/SvgFormat.py'), ('XML objects', 'Patro/Common/Xml/Objectivity.py')],
  'SvgDoc.tla is a stack machine reading the events of a document, whose law of inheritance (the state is the merge of the ancestors) TLC checks; the '
  'documents are read by the code and its calls, items and states compared with those of TLC',
  'No opacity, no transform in a style, no nested svg element, coordinates without unit, radii of a rectangle equal and fitting in it.',
  observe=['calls of the reader', 'attributes of the items', 'states', 'view box'])

P('R02', 'Styles, colours and units are copied, converted and refused as values',
  'A path or Bezier style has the fields it was given and the defaults for the others; its copy has the same class and the same value for every field, and neither changes '
  'when the other does. A colour given by name, #rrggbb string, bytes, fractions, another colour, hue-light-saturation or hue-saturation-value has the components which '
  'these mean; its integers are the nearest bytes, its string is #rrggbb, and going through its string, its HLS or its HSV gives an equal colour. '
  'An invalid colour, component, or enumeration value is refused by an exception and changes nothing. A colour database is an ordered dictionary, '
  'in which the first set of the library which has a name gives its colour. Conversions between millimetres, inches and points keep the length.',
  ['inputs', 'histories'],
  'All histories of four operations (five in the thorough tier) on a style of each kind and its copies; random histories on styles, colours, databases and units.',
  'There is no test of styles, colours and units.',
  ['Patro/GraphicStyle/', 'Patro/GraphicEngine/GraphicScene/GraphicStyle.py', 'Patro/GraphicEngine/GraphicScene/TypographyUnit.py'],
  [('path and Bezier styles', 'Patro/GraphicEngine/GraphicScene/GraphicStyle.py'), ('colours and their database', 'Patro/GraphicStyle/Color/ColorDataBase.py'),
   ('units', 'Patro/GraphicEngine/GraphicScene/TypographyUnit.py')],
  'Styles.tla is a machine on named objects with exact components; TLC checks that the HLS and HSV formulas are inverse, that an operation changes one object and that a '
  'refused one changes none; its histories are replayed on the real objects',
  'The colour object of a style is not changed while the style has it (it may be shared); a half byte is rounded to either side.',
  observe=['fields of a style', 'components, string, name of a colour', 'length in a unit', 'exceptions'])

P('R03', 'Paper sizes are the ISO ones and the tiles of a drawing cover it',
  'A sheet of level n + 1 of the series A, B and C is half a sheet of level n with the same proportions, landscape exchanges its sides, inches and millimetres agree, and an '
  'unknown name, level or orientation is refused. The tiles of a drawing are the printable area of the sheet, numbered by row and column, printed row by row; '
  'each is at its row and column from the lower left corner of the box enlarged by the margin, they do not overlap, they cover the box and none is useless. '
  'Tiling does not change the box, and can be done again.',
  ['inputs'],
  'All sheets in both orientations; random boxes, margins and sheets, particularly boxes at one unit from a whole number of tiles.',
  'The only test makes a sheet and does not look at it.',
  ['Patro/GraphicEngine/Painter/Paper.py', 'Patro/GraphicEngine/Painter/Painter.py'],
  [('paper', 'Patro/GraphicEngine/Painter/Paper.py'), ('tiles', 'Patro/GraphicEngine/Painter/Painter.py')],
  'Tiling.tla cuts sheets in two and prints tiles row by row; TLC checks the covering, and the code is compared with its sheets and tiles; the tiles of real sheets, '
  'whose sides are irrational, are recorded and judged by the covering predicate of the specification',
  'A box which is exactly a whole number of tiles may have one more by rounding.',
  observe=['width, height', 'tiles with their row and column'])

P('R04', 'The view of a scene maps the scene to the window and back',
  'The whole scene is shown, centered and as large as possible but a margin of one percent, as soon as a window has a scene and a size, in whatever order they are given, and '
  'whenever it is fitted again. Scene and window coordinates and lengths are inverse of each other, with the y axis upwards in the scene and downwards in the window. '
  'Zooming at a position brings the point of the scene which is there to the middle of the window, zooming at the center and panning keep the scale relation, resizing the '
  'window keeps the center and the scale. Selecting at a position selects the nearest item within a radius in pixels and unselects the others.',
  ['inputs', 'histories'],
  'All histories of five operations (six in the thorough tier) on two windows and two scenes; random histories of up to nine operations.',
  'There is no test of the view.',
  ['Patro/GraphicEngine/Painter/QtPainter.py'],
  [('viewport', 'Patro/GraphicEngine/Painter/QtPainter.py'), ('slots of the Qt Quick item', 'Patro/GraphicEngine/Painter/QtPainter.py')],
  'Viewport.tla is the machine of the view with exact rationals; TLC checks the inverse laws, the fitting and that a ready view is shown; its histories are replayed on the '
  'viewport and on the Qt Quick item, without screen',
  'Scenes with items and a bounding box; positions are read through the text of format_coordinate (three decimals) for the Qt Quick item.',
  observe=['area', 'scale', 'positions in both directions', 'selected items'])

P('F03', 'A scene is drawn to a file as it is: every item, in order, at its place',
  'Drawing a scene to SVG, PDF, DXF, TeX or a Matplotlib figure writes every visible item once, in stacking order (then insertion order; a figure has its texts above), and no other; it '
  'changes neither the scene nor its items. The drawing is similar to the scene transformed by its transformation, with y upwards on the paper: one scale, the bounding box '
  'inside the page of SVG and PDF, and in a tiled TeX document each page shows its tile of the box. Segments, cubic curves, texts and circles have their points, '
  'curves their control points, and the colour, the width and the dashes of their style; a line without colour is not drawn. An item which a format does not have '
  'is refused by NotImplementedError, and never lost.',
  ['inputs', 'histories'],
  'All histories of four operations (five in the thorough tier) on a scene of three items and a coordinate drawn by seven back-ends; random scenes of up to fifteen edits and drawings, '
  'with several drawings of one scene.',
  'The tests draw no scene: only the examples do, whose files are not read back.',
  ['Patro/GraphicEngine/Painter/', 'Patro/FileFormat/Svg/', 'Patro/FileFormat/Tex/', 'Patro/FileFormat/Dxf/'],
  [('loop on the items', 'Patro/GraphicEngine/Painter/Painter.py'), ('SVG', 'Patro/GraphicEngine/Painter/SvgPainter.py'), ('PDF', 'Patro/GraphicEngine/Painter/PdfPainter.py'),
   ('DXF', 'Patro/GraphicEngine/Painter/DxfPainter.py'), ('TeX', 'Patro/GraphicEngine/Painter/TexPainter.py'), ('Matplotlib', 'Patro/GraphicEngine/Painter/MplPainter.py')],
  'Painter.tla edits a scene and paints it item after item on a page; TLC checks order, completeness, refusal, similarity and that drawing changes nothing; its histories are '
  'replayed on real scenes, the files are read back by readers independent of the library and their marks are compared with the page of TLC',
  'A circle of a file is a dot of fixed size, without place in a DXF; dashes are compared by their pattern of short and long; the radii are not transformed.',
  observe=['marks of the files, with their style', 'size of the page', 'exceptions'])

P('F04', 'A scene is shown on screen as it is, by Qt: every item, in order, at its place',
  'A scene saved to SVG by Qt or shown in a window has every visible item once, in stacking order (then insertion order), after the grid, and no other; this does not change the scene. '
  'Points, control points, polygons, paths with their segments, arcs and ellipses with their angle, images and texts are at the transformed positions of the items, with y upwards: at the '
  'scale asked for, or at the scale of the view. Stroke colour, transparency, width, dashes, ends and joins, and fill are those of the style; no stroke or fill when it has none, '
  'whatever the previous item is; a selected item is red and four times thicker; the control polygon is shown when it is asked for. The grid has a line at each multiple of its steps in the '
  'window. An item which cannot be painted is refused by an exception.',
  ['inputs', 'histories'],
  'All histories of four operations (five in the thorough tier) on a scene of three items and a coordinate; random scenes of ten kinds of items, with several pictures or windows of a scene.',
  'There is no test of Qt.',
  ['Patro/GraphicEngine/Painter/QtPainter.py', 'Patro/GraphicEngine/Painter/Painter.py', 'Patro/GraphicEngine/GraphicScene/'],
  [('painter', 'Patro/GraphicEngine/Painter/QtPainter.py'), ('loop on the items', 'Patro/GraphicEngine/Painter/Painter.py')],
  'Painter.tla, with the view of a window and its grid; the pictures of a painter without screen are read back and their marks are compared with the page of TLC',
  'The picture of an image is not compared, but its rectangle is; Qt writes numbers of six digits.',
  observe=['marks of the pictures, with their style', 'view box', 'exceptions'])

P('R05', 'A geometric object added to a scene is there, whole, as it is',
  'A segment, curve, polyline, polygon, triangle, circle, ellipse, spline or path added to a scene gives items of the same shape, in order, at the positions of the object transformed by the '
  'scene: a spline is cut in curves which are joined from its first to its last point, a chain of points in curves of its degree; a path gives one item for each part with its rounded corners '
  'and its arcs on the right side, or one item which follows all of them in order, closed when the path is. Each item has the style and the user data given, and can be found by its box. '
  'Later changes of the object do not move the items, removing the items of an object leaves the others. An object which has no item is refused and adds nothing.',
  ['inputs', 'histories'],
  'All histories of three additions, moves and removals (four in the thorough tier) of fifteen objects; random scenes of up to five objects of fourteen kinds, with paths of any parts.',
  'No test adds a geometric object to a scene.',
  ['Patro/GraphicEngine/GraphicScene/Scene.py', 'Patro/GraphicEngine/GraphicScene/GraphicItem.py', 'Patro/GeometryEngine/'],
  [('objects to items', 'Patro/GraphicEngine/GraphicScene/Scene.py'), ('items', 'Patro/GraphicEngine/GraphicScene/GraphicItem.py')],
  'Added.tla computes the items of each object with exact coordinates; TLC checks that they are joined, closed, in order and apart; its histories are replayed on real scenes, '
  'whose items, geometries, boxes and pictures are compared',
  'Transformation of the scene: translations. An undefined corner (parallel sides) is not replayed; an empty path has no box.',
  observe=['items of the scene, with their positions, style and user data', 'boxes', 'marks of a picture', 'exceptions'])

P('F05', 'A DXF file is read whole, each entity as the same geometric object',
  'Each line, circle, arc, ellipse, polyline and spline of the model space of a DXF file is read as one object, in order, the other entities are skipped. Lines have their ends; circles and ellipses '
  'their center, radii, direction and arc, counterclockwise, across the direction 0 too; each side of a polyline is a segment, or the arc of its bulge on its right side, with the '
  'closing side when it is closed; splines have their points, degree and knots. Arcs and polylines seen from below are mirrored. Objects read can be added to a scene, with the same arcs.',
  ['inputs'],
  'All files of one entity (two in the thorough tier) among 470; random files of one to eight entities, written in text and binary by another library.',
  'No test reads a DXF file.',
  ['Patro/FileFormat/Dxf/Importer.py', 'Patro/FileFormat/Dxf/Polyline.py'],
  [('entities', 'Patro/FileFormat/Dxf/Importer.py'), ('bulges', 'Patro/FileFormat/Dxf/Polyline.py')],
  'DxfFile.tla reads a file entity after entity with exact centers and ends; TLC checks the laws of the bulge, joints, order and mirrors; the files are written by ezdxf and the objects read are compared',
  'Planar drawings; splines with weights or only fit points, and periodic knots, are not generated. Block references are skipped by the library.',
  level='model_checking', observe=['objects read', 'arcs of the items of a scene'])

P('C03', 'A singleton class has one instance, whatever the schedule',
  'All the calls of a class of the singleton metaclass, by any threads, at any time, give the same instance, fully constructed, with the arguments of the call which built it. The constructor is run by one thread at a '
  'time and never again once it succeeded; when it fails the call fails, no instance is kept, and a later call constructs again. A subclass has its own instance, and constructors can call other singleton classes. '
  'In one thread the two decorators do the same. The instances of a monostate are distinct objects which share one state, '
  'whatever the order of creations, changes and removals.',
  ['schedules', 'histories'],
  'All sequential histories of up to four calls of two classes, random histories of four classes; every interleaving of ten programs of threads in the specification, and every schedule of the code '
  'with two preemptions (three in the thorough tier) up to a limit; histories of shared states up to twenty steps.',
  'There is no test of the singletons, and no test controls the schedule of threads.',
  ['Patro/Common/Singleton.py'],
  [('metaclass', 'Patro/Common/Singleton.py'), ('decorators', 'Patro/Common/Singleton.py'), ('shared state', 'Patro/Common/Singleton.py')],
  'Singleton.tla is the machine of the calls with locks, nested calls and failures; TLC checks one instance, exclusive and unique construction, no deadlock, termination; '
  'the set of its outcomes is the oracle of the histories and of the deterministic schedules of the real code',
  'Constructors which call their own class are excluded. The decorators are not claimed under concurrency.',
  observe=['instances given by the calls', 'constructions', 'exceptions', 'deadlocks'])

P('C04', 'The windows of a sequence, the roots of a polynomial, dates and paths are exact',
  'A window of n items moves over a sequence from its first to its last item, or around it when it is closed, and gives each position once, in order (pairs, closed pairs, closed iterator included). '
  'The roots given for a polynomial of degree one, two, three or five are its real roots, all of them and nothing else. A text is read as the date or the time it writes, '
  'a date which does not exist is refused, a date is given back as is. An absolute path has neither "." nor ".." nor a double or final slash, from the root, the home or the current directory; its parents are its prefixes. '
  'The search of a file gives a file of this name under the first directory which has one, or fails.',
  ['inputs'],
  'All windows of up to four items of sequences of up to six items (nine in the thorough tier), and random ones; polynomials of all the pairs of roots in -4..4 with three leading coefficients, and random '
  'products of degree three and five with factors without roots; dates of five years and random times; all paths of three components; random trees.',
  'The tests call none of these functions.',
  ['Patro/Common/IterTools.py', 'Patro/Common/Math/Root.py', 'Patro/Common/Math/Functions.py', 'Patro/Common/Datetime.py', 'Patro/Common/Path.py'],
  [('windows', 'Patro/Common/IterTools.py'), ('roots', 'Patro/Common/Math/Root.py'), ('dates', 'Patro/Common/Datetime.py'), ('paths', 'Patro/Common/Path.py')],
  'Helpers.tla has a machine for each: the window, the product of the factors and the set of roots, the calendar, the walk of a path, the search; TLC checks their laws and gives the expected values, compared to the code',
  'A pair or a closed sequence of an empty sequence is not asked; multiple roots of degree five are not.',
  observe=['values returned', 'exceptions'])

P('T01', 'Yarn numbers, fibers and data bases are consistent',
  'The numbers of a yarn in tex, denier and metric count give the same mass for the same length, through any chain of conversions; a yarn may have no twist type. '
  'A data base holds one object of each name, the first added, in order, and finds it by its name. A file of fibers, the one of Patro included, is loaded whole: each fiber with its type and its source, '
  'one file after the other.',
  ['histories', 'inputs'],
  'Random chains of up to eight conversions; random histories of data bases of up to thirteen steps; the file of Patro and random files, up to three in the same data base.',
  'No test uses this package.',
  ['Patro/TextileTechnology/Yarn.py', 'Patro/TextileTechnology/Database.py', 'Patro/TextileTechnology/Fiber.py', 'Patro/TextileTechnology/Seam.py'],
  [('conversions', 'Patro/TextileTechnology/Yarn.py'), ('first object of a name', 'Patro/TextileTechnology/Database.py'), ('file of fibers', 'Patro/TextileTechnology/Fiber.py')],
  'Textile.tla: TLC checks that the mass is the same in every unit, that a data base has one object of each name, the first one, and that a loaded file is whole; its histories are replayed in the code',
  'The source of synthetic fibers, the stitch data base (its loading is not finished) and sewing machines are excluded.',
  observe=['values of the conversions', 'objects of a data base', 'exceptions'])

P('G12', 'The contour of an arrow head is closed and symmetric',
  'The head of an arrow has its tip at its point, whatever the norm of its direction; its two sides end at the same distance of its axis, at its width, one on the left of the direction, the other on the right; '
  'its back is at its length, or further by its axial offset. The contour goes from corner to corner back to its start, with the sides which are asked: a flat back has no corner on the axis when there are two sides; '
  'a curved side is the quadratic curve whose control point is beyond the middle of the side, by its depth times the side, outside of the head, and the two curves are the mirror of each other. '
  'A head without side is refused, the arguments are not changed.',
  ['inputs'],
  'Heads in eight directions, of two lengths and widths, three offsets, two depths, with any sides; random ones in sixteen directions.',
  'The tests create no arrow head.',
  ['Patro/GeometryEngine/Shape/ArrowHead.py'],
  [('straight heads', 'Patro/GeometryEngine/Shape/ArrowHead.py'), ('curved heads', 'Patro/GeometryEngine/Shape/ArrowHead.py')],
  'Arrow.tla draws the contour corner by corner; TLC checks that it is closed, symmetric and joined, and gives the corners and control points, compared to the polygon and the path of the code',
  'Clones and transformations of heads are excluded (a polygon has those of G04).',
  observe=['points of the head', 'contour', 'numbers and flags', 'exceptions'])

P('C05', 'Objects bound to XML elements have the attributes of their class, kept in files',
  'An object of a class bound to an XML element has exactly the attributes declared by its class and by its super classes and mixins: the definition of an attribute is the one of the first class, in the order of method '
  'resolution, which declares it, and a later class changes nothing to the others. Created without argument, by keywords or from an element, each attribute has the value which is given, converted from its text by its type, '
  'or else its default; a text which is not one of the type (boolean, integer, number, list of numbers) is refused; the attributes which are not declared are ignored. The objects of a class are independent. '
  'The dictionary and the element of an object have each attribute once, under its Python name and its XML name, but those which are hidden, and those which are null in the element; '
  'reading what was written gives the same values, and the same text.',
  ['inputs', 'histories'],
  'All the diamonds of classes which override, or not, an attribute; each kind of text read by each type; random histories of up to 24 steps over hierarchies of up to seven classes and mixins.',
  'The tests read two SVG files; no class is created by a test, and no attribute is checked.',
  ['Patro/Common/Xml/Objectivity.py'],
  [('attributes of the super classes', 'Patro/Common/Xml/Objectivity.py'), ('types of attributes', 'Patro/Common/Xml/Objectivity.py'), ('element of an object', 'Patro/Common/Xml/Objectivity.py')],
  'XmlObjects.tla computes the linearisation of the classes and the histories of the objects; TLC checks that it is monotonic, that the most derived definition wins, and that what is written is read back; the histories are replayed on classes made with the same declarations',
  'A null value of an attribute which has a default is not written, hence it is not read back; two attributes with the same XML name are excluded.',
  observe=['values of the attributes', 'dictionary and element of an object', 'exceptions'])

P('E01', 'From files of measurements and of a pattern to drawings: each mark at its place',
  'A pattern made with measurements, written to a Valentina file and read again with the same or with other measurements has each of its pieces drawn, in any order, to SVG, PDF, DXF or TeX: '
  'one mark for each point, label, line and curve of the piece and no other, operation after operation, with its style and colour, at the place which follows from the operations and from the current measurements, '
  'not from those of another reading. The drawings of a piece are the same figure: ten millimetres for a centimetre in SVG and DXF, seven in PDF, the unit of the pattern in TeX, upwards on the paper; the piece is whole in its '
  'bounding box; lines which share a point meet there. The lines and the curves of an SVG or DXF drawing which is imported by Patro are those which were drawn.',
  ['inputs', 'histories'],
  'Random patterns of up to three pieces and nine operations each, with points, lines, curves, dependent expressions, styles and label offsets; each is read with up to four sets of measurements and drawn to two formats.',
  'The example which goes from files to drawings is not run by the tests.',
  ['Patro/FileFormat/Valentina/', 'Patro/Pattern/', 'Patro/GraphicEngine/Painter/', 'Patro/FileFormat/Svg/SvgFile.py', 'Patro/FileFormat/Dxf/Importer.py'],
  [('files', 'Patro/FileFormat/Valentina/Pattern.py'), ('drawing of a piece', 'Patro/Pattern/Sketch.py'), ('paintings', 'Patro/GraphicEngine/Painter/'), ('importers', 'Patro/FileFormat/Dxf/Importer.py')],
  'Chain.tla composes the evaluation of a pattern, the drawing of a piece and the four pages; TLC checks that the pages are similar, joined and whole; the files which the code writes are read back and compared with the pages of TLC',
  'Patterns in centimetres, whose points all have one solution; the operations which depend on a contact are in S02.',
  observe=['marks of the files', 'bounding boxes', 'geometry imported from the files', 'names of the pieces'])

P('F06', 'A TeX document is its class, its preamble and its nested environments',
  'The text of a TeX document is its class with its options, its preamble, and its content between the begin and the end of the document. A buffer has what was appended to it since it was cleared, in order, one datum or each of a list: '
  'a text as it is, another buffer with all it will get later, or, on request, a copy, in which nothing changes any more. An environment has its begin, with its options, and its end around its content, even when it is cleared; '
  'environments are closed in the reverse order of their openings. An operation on a buffer changes the texts of the buffers which have it, and no other. '
  'The files have the given name, with or without its extension, and the TeX one has the text in UTF-8, whatever the locale.',
  ['inputs', 'histories'],
  'Random histories of up to fifteen steps over seven buffers and environments, nested, shared and copied; texts and names with braces, percent signs, guillemets, accents and line feeds.',
  'The tests write no TeX document.',
  ['Patro/GraphicEngine/TeX/Document.py', 'Patro/GraphicEngine/TeX/Buffer.py', 'Patro/GraphicEngine/TeX/Environment.py'],
  [('buffers', 'Patro/GraphicEngine/TeX/Buffer.py'), ('environments', 'Patro/GraphicEngine/TeX/Environment.py'), ('document', 'Patro/GraphicEngine/TeX/Document.py')],
  'Tex.tla gives the tokens of each buffer after each step of a history; TLC checks that environments are closed, that no text is without end, and that an operation is local; the histories are replayed on real documents',
  'A buffer which contains itself, directly or not, is excluded: its text has no end. Texts are not escaped.',
  observe=['texts of the buffers and of the document', 'names and bytes of the files', 'exceptions'])
