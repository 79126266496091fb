PROPS = []
def P(id, title, statement, over, q, why, files, mech, tech, level, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                      tech=tech, level=level, note=note))

MODEL = "Trusts the harness models (written independently of the repository) and the stated bounds; nothing is claimed outside of them."

P('C01', 'Octree renderer delivers every triangle exactly once for any read sizes',
  "Reading an octree renderer to its end yields the same multiset of triangles whatever the lengths (from 1 up) of the successive buffers passed to ReadTriangles, with a count never exceeding the buffer, and after the last triangle every further read returns 0 and io.EOF. TriangleBuffer, which keeps what does not fit, is a first-in first-out queue of triangles for any sequence of reads and writes.",
  ['histories', 'inputs'], "every sequence of read lengths, for every solid and mesh resolution",
  "The tests read with one or two fixed buffer lengths; losses and repeats appear only when a read ends in the middle of a cube or with triangles left over.",
  ['render/octree_renderer.go', 'render/io.go', 'render/marchingcubes.go'],
  [('todo list and unwritten triangles kept between reads', 'render/octree_renderer.go:72'), ('TriangleBuffer', 'render/io.go:30')],
  'stateless model checking of read histories on the real renderer, with bounded departures from a default buffer size',
  'model_checking', "Every read sequence within the departure bound is executed on the real code and compared with one reference read. " + MODEL)

P('C02', 'RenderAll, CreateSTL and Create3MF consume every triangle of any renderer',
  "RenderAll, CreateSTL and Create3MF take all the triangles a renderer returns, in order, for every renderer that follows the io.Reader conventions: short reads, reads of 0 triangles without error, and triangles returned together with io.EOF or with an error. An error other than io.EOF is returned to the caller, and the file CreateSTL makes equals what WriteSTL writes for the same triangles.",
  ['histories', 'fault_sequences'], "every finite script of (count, error) results of a renderer",
  "The tests render only with the octree renderer, which never returns triangles together with an error.",
  ['render/io.go', 'render/stl.go', 'render/3mf.go', 'render/render.go'],
  [('RenderAll read loop', 'render/io.go:11'), ('STL reader adapter', 'render/stl.go:86'), ('Create3MF', 'render/3mf.go:30')],
  'explicit-state enumeration of renderer scripts driving the real consumers, against a list model',
  'model_checking', "All scripts up to the bound are executed against the real consumers. " + MODEL)

P('C03', 'Goroutines of a concurrent octree renderer lose and repeat nothing',
  "An octree renderer set to divide its work among n goroutines returns, over all reads until io.EOF and for any lengths of the buffers, exactly the triangles of the sequential renderer, each once, under every interleaving of those goroutines. No interleaving has a data race, a deadlock or a panic.",
  ['schedules', 'inputs'], "all schedules of the goroutines of the renderer, all buffer lengths",
  "Tests run one schedule per run, the one the machine happens to produce.",
  ['render/octree_renderer.go'],
  [('mutex around the todo list and concurrent cube processing', 'render/octree_renderer.go:72'), ('readTrianglesThreaded', 'render/octree_renderer.go:134')],
  'preemption-bounded systematic exploration of schedules of the real code under a controlled scheduler, race detector on every schedule',
  'model_checking', "The real code runs with its sync package replaced by a controlled scheduler; all schedules within the departure bound are run with the race detector. If the code uses synchronisation the rewriting cannot control, only the uncontrolled concurrent runs with the race detector remain, and the evidence says so.")

P('C04', 'Octree pruning never loses surface',
  "For a solid whose value changes by no more than the distance between points, every cell of the renderer's sampling lattice which has corners both inside and outside of the solid produces triangles, whatever the bounds and the number of cells. The triangles are those that sampling every cell, without skipping empty regions, would produce.",
  ['inputs', 'configurations'], "all 1-Lipschitz solids, bounds and mesh resolutions",
  "A test renders a few shapes at one resolution, where the margin of the pruning criterion is never reached.",
  ['render/octree_renderer.go'],
  [('IsEmpty: value at the center compared with the half diagonal', 'render/octree_renderer.go:259'), ('levels and origin of the octree', 'render/octree_renderer.go:39')],
  'exhaustive enumeration of models, offsets and resolutions; every lattice cell checked',
  'exploration', "Every lattice cell of every enumerated model and resolution is checked on the real renderer. " + MODEL)

P('C05', 'Rendered meshes are closed and oriented outwards',
  "The mesh rendered from a continuous solid within its bounds is closed: after merging equal vertices and dropping degenerate triangles, every edge is used equally often in both directions. The triangles are oriented outwards, so that the volume enclosed is positive.",
  ['inputs', 'configurations'], "all assignments of inside and outside to the sampling lattice, all resolutions",
  "The tests never look at the topology of a mesh; there are 256 cube configurations and many more pairs of neighbours.",
  ['render/marchingcubes.go', 'render/octree_renderer.go'],
  [('edge and triangle tables', 'render/marchingcubes.go:80'), ('mcToTriangles', 'render/marchingcubes.go:15')],
  'exhaustive enumeration of sign configurations of blocks of lattice corners, rendered by the real code',
  'exploration', "All 3^8 sign assignments of a 2x2x2 block and all 2^12 of 2x2x3 (2^18 of 2x3x3 in the thorough tier) are rendered and checked for closedness. " + MODEL)

P('C06', 'Mesh vertices lie on the surface to within the resolution',
  "Every vertex of a rendered mesh is within half a cell of the surface of a 1-Lipschitz solid and exactly on it where the solid is locally a plane; every triangle lies within one cell. The volume and area of a rendered sphere approach those of the sphere as the number of cells grows.",
  ['inputs', 'configurations'], "all solids and resolutions",
  "The tests compare a few meshes with stored files and would accept a shifted surface if the files were shifted too.",
  ['render/marchingcubes.go', 'render/octree_renderer.go'],
  [('mcInterpolate', 'render/marchingcubes.go:58')],
  'exhaustive enumeration of models, directions, offsets and resolutions; every vertex checked',
  'exploration', "Every vertex of every enumerated rendering is compared with the distance function. " + MODEL)

P('C07', 'STL files hold exactly the triangles, readable by any reader',
  "WriteSTL and CreateSTL write a binary STL file which holds the right count, the vertices rounded to float32 in order, and unit normals by the right hand rule, for any number of non degenerate triangles and any chunking of the renderer; an existing file is replaced. The package's STL reader returns the same triangles for any chunking of the data by its source; if the normals of some records (up to 9999) are not the unit normal of the vertices or its opposite it returns all triangles and an error.",
  ['inputs', 'histories'], "all lists of triangles and all chunkings of reads and writes",
  "The tests write a handful of triangles and read them from one buffer.",
  ['render/stl.go'],
  [('WriteSTL', 'render/stl.go:22'), ('createSTL', 'render/stl.go:132'), ('readBinarySTL', 'render/stl.go:172')],
  'exhaustive enumeration of triangles over a coordinate lattice, lengths around buffer sizes and chunkings',
  'exploration', "Files are decoded independently of the repository. " + MODEL)

P('C08', 'STL writing and reading report every fault',
  "WriteSTL and CreateSTL return an error whenever any part of the data could not be written. The STL reader returns an error, without panicking, for data cut short at any byte, a failing source (whose error it preserves once the header was read), a record with a non finite float or two equal vertices, a count of zero, and a count larger than the number of records.",
  ['crash_points', 'fault_sequences'], "a fault at every byte of the file, at every write and read",
  "No test makes a write or a read fail.",
  ['render/stl.go'],
  [('short write and error handling', 'render/stl.go:22'), ('readBinarySTL validation', 'render/stl.go:172')],
  'enumeration of every fault point of writing and reading',
  'fault_enumeration', "Every byte offset is a fault point; real files are limited by RLIMIT_FSIZE and /dev/full within a scratch directory. " + MODEL)

P('C09', '3MF files hold exactly the triangles and write faults are reported',
  "Create3MF writes a valid package whose model holds one object with the triangles of the renderer, in order and with coordinates that read back as the float32 or better value written. If any part of the file could not be written an error is returned.",
  ['inputs', 'crash_points'], "all meshes and a fault at every byte written",
  "The test writes one mesh and makes no write fail.",
  ['render/3mf.go'],
  [('AddObject with merged vertices', 'render/3mf.go:112'), ('Create', 'render/3mf.go:170')],
  'enumeration of meshes over a coordinate lattice and of every fault point',
  'fault_enumeration', "The archive is read back with independent code. " + MODEL)

P('C10', 'Boolean operations are min, max and negation of the values',
  "The value of a union is the minimum of the values of its members, of a difference max(a, -b), of an intersection max(a, b), at every point in 2D and 3D (of 2D unions for members whose values outside of their bounds are no less than the distance to these); a cut is the intersection with the half plane to the right of the direction (2D) or the half space on the side of the normal (3D). A blending function set with SetMin or SetMax replaces min or max, folded over the members from left to right.",
  ['programs', 'inputs'], "all expressions over the operators, all points",
  "Tests evaluate no compositions of boolean operators.",
  ['sdf2.go', 'sdf3.go'],
  [('Union3D', 'sdf3.go:429'), ('Difference3D', 'sdf3.go:484'), ('Intersect3D', 'sdf3.go:555'), ('Cut2D', 'sdf2.go:66')],
  'explicit-state enumeration of expression trees, model and implementation evaluated side by side',
  'model_checking', "Every expression tree to the depth bound is built with the real constructors and compared with a min/max model at every lattice point. " + MODEL)

P('C11', '2D union culling never changes the result',
  "The value of a 2D union equals the minimum over the values of all of its members, none of which is less than the distance to the bounds of the member, at every point, including members which are far away, overlap, contain others, are exactly at the same distance, or are empty. Skipping members by their bounds is never observable.",
  ['inputs', 'configurations'], "all sets of shapes and positions, all points",
  "Tests of unions place shapes where no member is skipped wrongly.",
  ['sdf2.go', 'internal/d2/box.go'],
  [('culling by bounds', 'sdf2.go Evaluate of union2'), ('MinMaxDist2, Overlap', 'internal/d2/box.go')],
  'exhaustive enumeration of pairs and triples of placed shapes over a lattice of points',
  'exploration', "Compared with the plain minimum at every lattice point. " + MODEL)

P('C12', 'Bounds enclose the shape',
  "Bounds of every 2D and 3D shape built by the package - primitives, transforms, arrays, copies, extrusions, revolutions, slices, elongations, boolean combinations, and of offsets and shells of exact distances, and the thread, bolt, nut, panel and standoff assemblies - are finite and contain every point where the value is not positive. The value is never NaN.",
  ['programs', 'inputs'], "all compositions of shapes, all points outside of the bounds",
  "Rendering uses only the space within the bounds, so that a shape cut by wrong bounds renders without an error.",
  ['sdf2.go', 'sdf3.go', 'matrix.go', 'internal/d2/box.go', 'internal/d3/box.go', 'form3/must3', 'form2/must2', 'form3/obj3'],
  [('bounds computed by each constructor', 'sdf3.go, sdf2.go'), ('MulBox', 'matrix.go:386')],
  'exhaustive enumeration of compositions of constructors to a depth, dense lattices outside of the bounds',
  'exploration', "About 18000 compositions and parameter sweeps (more in the thorough tier), each on thousands of points around its bounds. " + MODEL)

P('C13', '3D primitives have exact distances and sizes',
  "Sphere, Box, Cylinder, Capsule and Cone of form3 and must3 return the exact signed Euclidean distance at every point, inside and outside, edges being rounded by the given radius within the given size, and their bounds are exactly their dimensions centered on the origin. ChamferedCylinder is the intersection of the shape with a cylinder of the size of its bounds whose edges are cut by sqrt(1/2) times the fraction of the radius given.",
  ['inputs'], "all valid dimensions and roundings, all points",
  "Tests only render a few primitives.",
  ['form3/must3/cylinders.go', 'form3/basic.go', 'utils.go'],
  [('Evaluate of each primitive', 'form3/must3/cylinders.go'), ('sdfBox3d', 'utils.go:405')],
  'exhaustive enumeration of dimensions on a lattice of points, against independent distance functions',
  'exploration', "Compared with independent distance functions at every lattice point. " + MODEL)

P('C14', '2D primitives have exact distances and sizes',
  "Circle, Box (with rounded corners) and Line (with rounded ends) of form2 and must2 return the exact signed Euclidean distance at every point, and their bounds are exactly their dimensions centered on the origin. Nagon returns the vertices of the regular polygon of the given radius, the first on the positive x axis, counterclockwise.",
  ['inputs'], "all valid dimensions and roundings, all points",
  "Tests only render a few primitives.",
  ['form2/must2/basic.go', 'form2/must2/poly.go', 'form2/basic.go', 'form2/poly.go', 'sdf2.go'],
  [('Evaluate of each primitive', 'form2/must2/basic.go'), ('sdfBox2d', 'sdf2.go:40')],
  'exhaustive enumeration of dimensions on a lattice of points, against independent distance functions',
  'exploration', "Compared with independent distance functions at every lattice point. " + MODEL)

P('C15', 'Values change no faster than the distance between points',
  "The value of every shape built from primitives with rigid transforms, mirrors, uniform scaling, arrays, lines of copies, rotated unions, boolean operations, cuts, elongation, offset, shell, plain and rounded extrusion, revolution and slices with distance exact operands changes between any two points by no more than their distance. The renderer relies on this to skip empty space.",
  ['programs', 'inputs'], "all compositions of distance preserving constructors, all pairs of points",
  "Tests do not compare values of neighbouring points.",
  ['sdf2.go', 'sdf3.go', 'form2/must2', 'form3/must3', 'matrix.go'],
  [('Evaluate of each shape', 'sdf3.go, sdf2.go'), ('relied upon by the octree renderer', 'render/octree_renderer.go:259')],
  'exhaustive enumeration of compositions of constructors to a depth, all neighbouring lattice pairs',
  'exploration', "Every pair of neighbours in 13 (8 in 2D) directions and 2 distances for every composition. " + MODEL)

P('C16', 'Transforms of shapes agree with matrix algebra',
  "Products of translation, scale, rotation and mirror matrices in 2D and 3D map positions as the composition of their factors, the right factor first; inverses, determinants and transformed boxes (tight around the mapped corners) agree with that. Sums and multiples of 2D matrices map positions to the sum and the multiple. A transformed shape has at M(p) the value the shape has at p and bounds which are the transformed box; nested transforms equal the transform by the product. Orienting a 3D shape is a proper rotation about the origin which takes the base direction to each of the directions.",
  ['programs', 'inputs'], "all products of generators, all points",
  "Tests check a handful of matrix products.",
  ['matrix.go', 'sdf2.go', 'sdf3.go', 'utils.go'],
  [('matrix products, inverses, MulBox', 'matrix.go:100'), ('Transform2D, Transform3D', 'sdf3.go:364')],
  'explicit-state enumeration of all words over the generators to a depth, each compared with an affine model',
  'model_checking', "Every word over the generator matrices to the depth bound is executed on the real code next to an independent affine model. " + MODEL)

P('C17', 'Repetition constructors place each copy where it belongs',
  "Array puts copies at i*step for all i below the counts, RotateUnion applies the step i times to copy i, LineOf puts a copy at p0+i*(p1-p0)/length for each 'x' of the pattern, Multi at each position, Orient one per direction; the value is the minimum over the copies, or the SetMin blend folded over them. RotateCopy repeats, for each of n equal sectors, the shape within half a step of the +x axis. Without any copies (counts of zero, no 'x') the value is positive everywhere.",
  ['inputs', 'configurations'], "all counts, steps, patterns and positions, all points",
  "Tests render one array and no blended repetition.",
  ['sdf2.go', 'sdf3.go', 'utils.go'],
  [('Array, RotateUnion, RotateCopy, LineOf, Multi, Orient', 'sdf3.go:623, sdf2.go:176')],
  'enumeration of all counts, steps and patterns to a bound, against an explicit list of copies',
  'model_checking', "Every configuration is compared at every lattice point with a model which lists the copies. " + MODEL)

P('C18', 'Extrusions evaluate the right section at every height',
  "Extrude is max(section, |z|-height/2); TwistExtrude evaluates the section at (x,y) rotated by z*twist/height, ScaleExtrude at (x,y) multiplied by a factor which goes linearly from 1 at the bottom to 1/scale at the top, ScaleTwistExtrude scales and then rotates. ExtrudeRounded is the extrusion whose edges are rounded by the radius within the height, and Loft the same with a section mixed linearly from the bottom to the top over the straight part. SetExtrude replaces the mapping of the section.",
  ['inputs', 'configurations'], "all sections, heights, twists, scales and roundings, all points",
  "Tests render one extrusion.",
  ['sdf3.go', 'utils.go'],
  [('Extrude, Loft', 'sdf3.go:122, sdf3.go:285'), ('extrusion functions', 'utils.go:213')],
  'exhaustive enumeration of parameters on a lattice of points, against independent formulas',
  'exploration', "Compared with independent formulas at every lattice point. " + MODEL)

P('C19', 'Revolutions cover exactly the wedge asked for',
  "A revolution has at every point the value of the section at (distance from the z axis, z), intersected with the wedge from angle 0 to the angle given, counterclockwise from the +x axis, for positive angles, of which more than a turn counts modulo full turns (a multiple of 2*pi is the full revolution). The wedge is the intersection of its two half spaces below half a turn, their union above. Angles of zero or less are an empty shape or an error.",
  ['inputs'], "all angles and sections, all points",
  "Tests render no partial revolution.",
  ['sdf3.go', 'form3'],
  [('RevolveTheta3D', 'sdf3.go:48')],
  'exhaustive enumeration of angles and sections on a lattice of points, against an independent formula',
  'exploration', "Compared with an independent formula at every lattice point. " + MODEL)

P('C20', 'Blending functions are bounded, symmetric and smooth as documented',
  "For k > 0, MinPoly(n >= 1), MinRound and MinExp return finite values no greater than the minimum, symmetric in their arguments and never decreasing when an argument grows; MinPoly and MinExp commute with adding a constant to both. MinPoly(n, k) is min(a, b) - k/(2n)*max(0, 1-|a-b|/k)^n, so the minimum when the arguments differ by k or more and k/(2n) below it when they are equal (n=1 is the minimum), MinPoly(0, k) is min(a, b, (a+b-k)/sqrt(2)) and MaxPoly(n, k)(a, b) is -MinPoly(n, k)(-a, -b); MinExp is -ln(exp(-k*a)+exp(-k*b))/k, within ln(2)/k of the minimum. MinRound is the minimum when an argument is k or more and its zero contour is a quarter circle of radius k; MinPow(k) of positive values is (a^-k + b^-k)^(-1/k).",
  ['inputs'], "all parameters and pairs of values",
  "No test calls a blending function.",
  ['utils.go'],
  [('MinPoly, MinRound, MinExp, MinPow, MaxPoly', 'utils.go:97')],
  'exhaustive enumeration of parameters and value pairs on a lattice',
  'exploration', "All relations are checked on every pair of the lattice and every parameter. " + MODEL)

P('C21', 'Polygons have exact signed distances',
  "The value of a polygon is the exact signed Euclidean distance, negative inside, for every simple polygon of either orientation, starting at any vertex, with repeated vertices or with the first vertex given again at the end; of a polygon which crosses itself the inside is what the boundary winds around (a nonzero number of times). Its bounds are exactly those of the vertices. The slice of vertices passed is not changed.",
  ['inputs'], "all simple polygons, all points",
  "Tests evaluate no polygon against a reference.",
  ['form2/must2/poly.go', 'form2/poly.go'],
  [('Evaluate of the polygon: distance and winding number', 'form2/must2/poly.go')],
  'exhaustive enumeration of simple polygons over a vertex lattice, against an independent distance and crossing test',
  'exploration', "All simple polygons with vertices on a small lattice, compared at every point of a finer one. " + MODEL)

P('C22', 'The polygon builder places vertices, roundings and arcs as documented',
  "Absolute, relative and polar vertices are placed where their coordinates say; Close, Reverse and Drop do what their names say, and reading the vertices again gives the same. Smooth(radius, facets) replaces a vertex with facets+1 equally spaced points of the arc of that radius tangent to both edges (kept as is when a tangent point is beyond an edge, the edges are collinear or the vertex is an end of an open polygon), Chamfer(size) is one facet of radius size*sqrt(1/2), and zero radius or facets has no effect. Arc(radius, facets) replaces the edge from the previous vertex with points of an arc of that radius, on the left for positive ones, a semicircle when the radius is too small.",
  ['programs', 'histories'], "all sequences of builder calls",
  "Tests build one polygon with the builder.",
  ['form2/poly.go', 'form2/must2/poly.go'],
  [('PolygonBuilder, vertex modifiers', 'form2/must2/poly.go')],
  'explicit-state enumeration of builder programs, model and implementation executed side by side',
  'model_checking', "Every program to the length bound is executed on the real builder and on an independent reference. " + MODEL)

P('C23', 'Screws follow their thread profile along the helix',
  "Screw with length L of a thread (pitch, n starts, taper) has at every point (r, angle t, z) the value max(s, |z|-L/2), s being the value of the thread profile at (z - pitch*n*t/(2*pi) reduced to [-pitch/2, pitch/2), r + z*tan(taper)); positive starts are right handed, negative ones left handed, 0 starts are rings. Its bounds are L in z and the profile's greatest y plus L/2*|tan(taper)| in x and y. A length or pitch of zero or less and a nil thread are errors.",
  ['inputs', 'configurations'], "all profiles, starts, tapers and lengths, all points",
  "Tests render one bolt and compare an image.",
  ['form3/obj3/thread/thread.go'],
  [('Evaluate of the screw', 'form3/obj3/thread/thread.go')],
  'exhaustive enumeration of thread parameters on a lattice of points, against an independent formula',
  'exploration', "Compared with an independent formula at every lattice point. " + MODEL)

P('C24', 'Panels and standoffs have the geometry documented',
  "A standoff is the cylindrical pillar with n triangular webs at angles 2*pi*k/n from its base, minus a hole of the given depth from the top (plus a stub of that height for negative depths). A panel is the rounded rectangle of the given size minus holes laid clockwise from the top left along each edge between the margins, one per 'x' of that edge's pattern; a EuroRack panel is HP*5.08-0.24 by U*44.45-4.85 with its mounting holes (two below 8 HP, else four) and ridges. A point is inside of these parts exactly when it is in that set.",
  ['inputs', 'configurations'], "all parameters, all points",
  "No test builds a panel or a standoff.",
  ['form2/obj2/panel.go', 'form3/obj3/panel.go', 'form3/obj3/standoff.go'],
  [('Panel', 'form2/obj2/panel.go'), ('EuroRackPanel, PanelHole', 'form3/obj3/panel.go'), ('Standoff', 'form3/obj3/standoff.go')],
  'exhaustive enumeration of parameters on a lattice of points, against an independent set model',
  'exploration', "Membership compared with an independent set model at every lattice point; points within a small tolerance of a surface are left out. " + MODEL)

_imp = ("A model imported from the triangles of the closed surface of a solid, parts of which may touch at common edges and vertices, has at every point the exact signed distance to the mesh, negative inside, %s."
        " Its bounds are exactly those of the vertices.")
P('C25', 'ImportModel returns the exact signed distance to the mesh',
  _imp % "whichever of the faces, edges or vertices of the mesh is nearest, for any vertex tolerance that keeps distinct vertices apart",
  ['inputs'], "all closed meshes, all points",
  "The test imports one mesh, renders it and looks at no value.",
  ['helpers/sdfexp/import.go', 'helpers/sdfexp/spatial3.go', 'helpers/sdfexp/spatial2.go'],
  [('search of the nearest triangle', 'helpers/sdfexp/import.go'), ('pseudo normals and CopySign', 'helpers/sdfexp/spatial3.go:59')],
  'exhaustive enumeration of small polycube meshes, triangulations and placements, against brute force distances',
  'exploration', "Compared with brute force distance and a parity test at every lattice point. " + MODEL)

P('C26', 'ImportModelV2 returns the exact signed distance to the mesh',
  _imp % "for any vertex tolerance that keeps distinct vertices apart",
  ['inputs'], "all closed meshes, all points",
  "No test calls ImportModelV2.",
  ['helpers/sdfexp/bih.go', 'helpers/sdfexp/import.go', 'helpers/sdfexp/spatial3.go'],
  [('ImportModelV2 and its hierarchy', 'helpers/sdfexp/bih.go')],
  'exhaustive enumeration of small polycube meshes, triangulations and placements, against brute force distances',
  'exploration', "Compared with brute force distance and a parity test at every lattice point. " + MODEL)

P('C27', 'Constructors report invalid parameters and do not panic',
  "Constructors which return an error (form2, form3, obj2, obj3, thread, and the model imports) return either a shape and no error or an error and no shape for every finite argument, and never panic. Non positive sizes and radii, roundings beyond the size and the other invalid dimensions these constructors document are errors, valid dimensions are not. Boolean operations, lofts, revolutions, rounded extrusions, transforms and copies reject nil shapes, and unions fewer than two shapes, by a panic when they are built.",
  ['inputs', 'configurations'], "all combinations of negative, zero, small and large values for every argument",
  "Tests pass valid parameters only.",
  ['form2/basic.go', 'form3/basic.go', 'form2/obj2/panel.go', 'form3/obj3/panel.go', 'form3/obj3/standoff.go', 'form3/obj3/thread/bolt.go', 'form3/obj3/thread/nut.go', 'form3/obj3/thread/knurl.go'],
  [('recovered panics of must2 and must3', 'form3/basic.go'), ('validation of assemblies', 'form3/obj3/thread/bolt.go')],
  'exhaustive enumeration of combinations of argument values',
  'exploration', "Every combination of a few values per argument is executed. " + MODEL)

P('C28', 'Evaluation has no side effects and aliases no arguments',
  "The value of a shape at a point is the same before and after any other evaluations, by any number of goroutines at once without data races, and the same for a second shape built in the same way; bounds never change. Slices passed to constructors (unions, Multi, Orient, Polygon, AddV2Set, model imports, WriteSTL) are not changed, and changing them afterwards does not change the shape.",
  ['histories', 'schedules'], "all shapes, all histories of evaluations",
  "Tests evaluate a shape once per point and in one goroutine, except while rendering.",
  ['sdf2.go', 'sdf3.go', 'form2/must2/poly.go', 'form3/obj3/thread/thread.go', 'helpers/sdfexp/import.go', 'helpers/sdfexp/bih.go'],
  [('ImportModel', 'helpers/sdfexp/import.go'), ('Union2D', 'sdf2.go:544')],
  'enumeration of evaluation histories of every kind of shape on the real code, race detector on concurrent evaluations',
  'model_checking', "Orders of evaluation are enumerated over a set of points; concurrent evaluation relies on the race detector, which reports unordered accesses in the executions run. " + MODEL)

P('C29', 'Slices, elongations, offsets, shells and scales derive the right values',
  "Slice2D has at (x, y) the value of the solid at a+x*u+y*v, u being the first coordinate axis perpendicular to the normal n or else the unit vector along (n.Y, -n.X, 0), and v the unit vector along the cross product of n and u. Elongation by h evaluates p less the nearest point of the box |h| centered at the origin, Offset subtracts the offset from the value, Shell3D has |value| less half of the thickness and is empty for thickness <= 0, ScaleUniform by k > 0 is k times the value at p/k, and Center2D moves the center of the bounds to the origin, CenterAndScale2D scaling afterwards. Bounds are moved, scaled or grown to match.",
  ['inputs'], "all operands, arguments and points",
  "No test evaluates these operations.",
  ['sdf2.go', 'sdf3.go'],
  [('Slice2D', 'sdf2.go:321'), ('Elongate3D', 'sdf3.go:520'), ('Shell3D', 'sdf3.go:845'), ('ScaleUniform2D', 'sdf2.go:126')],
  'exhaustive enumeration of arguments on a lattice of points, against independent formulas',
  'exploration', "Compared with formulas on the values and bounds of the operand at every lattice point. " + MODEL)

P('C30', 'Tetrahedron meshes fill the solid once',
  "For a solid with exact distances whose bounds reach a resolution beyond it, UniformTetrahedronMesh returns exactly the tetrahedra of the body centered cubic lattice with a corner inside, without repeats and with valid, distinct nodes. All nodes are finite and none of a tetrahedron is outside of the solid by more than rounding, and every point deeper inside than 1.25 resolutions is in exactly one tetrahedron.",
  ['inputs', 'configurations'], "all solids, placements and resolutions",
  "No test makes a tetrahedron mesh.",
  ['helpers/sdfexp/bccmesh.go', 'helpers/sdfexp/omesh.go', 'helpers/sdfexp/basicmesh.go'],
  [('nodes shared between neighbouring cells', 'helpers/sdfexp/bccmesh.go:64'), ('tetrahedra between adjacent cells', 'helpers/sdfexp/bccmesh.go:275'), ('compression to the surface', 'helpers/sdfexp/omesh.go')],
  'explicit enumeration of the lattice model, every node and tetrahedron of the real mesh compared with it',
  'model_checking', "The number of tetrahedra is that of an independent enumeration of the lattice; all nodes, tetrahedra and interior lattice points are checked. " + MODEL)

P('C31', 'Standard thread sizes and materials have the documented dimensions',
  "SetFromNominal of an NPT thread sets the diameter, threads per inch and flat to flat distance of the standard size within 1/32 of the nominal measurement, and leaves the thread as it is and returns an error if there is none. Hexagons of metric sizes from M1.6 to M64 (other than M3) are as wide as the standard says, with radius f2f/(2*cos(30)) and height 5/6 of that. PLA scales shapes by 1.003 and internal dimensions to 1.003 times the dimension plus 0.45; the ideal material changes nothing.",
  ['inputs'], "all standard sizes and measurements around them",
  "The test of metric sizes covers some of them; nothing tests NPT sizes or materials.",
  ['form3/obj3/thread/npt.go', 'form3/obj3/thread/basic.go', 'form3/obj3/thread/parameters.go', 'helpers/matter/3dprint.go'],
  [('nptLookupTable', 'form3/obj3/thread/npt.go:43'), ('metricf2f', 'form3/obj3/thread/basic.go:36')],
  'exhaustive enumeration of the standard sizes and of measurements between them',
  'exploration', "Every size is compared with a table written from the standards. " + MODEL)

P('C32', 'Thread profiles match their standards',
  "Within one pitch, a point is inside of the profile of an ISO, UTS, NPT, Acme, ANSI buttress or plastic buttress thread exactly when it is inside of the standard's polygon with its roundings, and the value near the flanks is the distance. ThreadParams gives a radius of half the diameter, the pitch (1/TPI for threads per inch), one start, and for NPT a taper of atan(1/32), else none.",
  ['inputs'], "all diameters and pitches, all points of a pitch",
  "Tests render one ISO bolt.",
  ['form3/obj3/thread/iso.go', 'form3/obj3/thread/acme.go', 'form3/obj3/thread/ansibuttress.go', 'form3/obj3/thread/plasticbuttress.go', 'form3/obj3/thread/uts.go', 'form3/obj3/thread/npt.go'],
  [('ISO.Thread', 'form3/obj3/thread/iso.go:28'), ('Acme.Thread', 'form3/obj3/thread/acme.go:25')],
  'exhaustive enumeration of dimensions on a lattice of points, against independent polygons',
  'exploration', "Compared with independent polygons at every lattice point. " + MODEL)

P('C33', 'Bolts, nuts, hex heads and knurls are assembled as documented',
  "A point is inside of a bolt exactly when it is in its head (rounded at the bottom if hexagonal, or knurled), its shank, or its thread, whose end is chamfered, following one another along z; inside of a nut when it is in the hexagonal, knurled or circular body and not in the screw through it. A hex head is the hexagon of radius R with a corner on the +x axis, intersected by a sphere of 1.6 R rounding the top and/or bottom; a knurl is the intersection of a left and a right handed screw of floor(2*pi*R*tan(angle)/pitch) starts, and a knurled head that knurl on a cylinder.",
  ['inputs', 'configurations'], "all parameters, all points",
  "The tests compare one bolt, one hex head and one knurl with stored images.",
  ['form3/obj3/thread/bolt.go', 'form3/obj3/thread/nut.go', 'form3/obj3/thread/hexhead.go', 'form3/obj3/thread/knurl.go'],
  [('Bolt', 'form3/obj3/thread/bolt.go'), ('Nut', 'form3/obj3/thread/nut.go'), ('HexHead', 'form3/obj3/thread/hexhead.go'), ('Knurl', 'form3/obj3/thread/knurl.go')],
  'exhaustive enumeration of parameters on a lattice of points, against an independent set model',
  'exploration', "Membership compared with an independent set model at every lattice point; points within a small tolerance of a surface are left out. " + MODEL)

P('C34', 'Integer vectors and conversions compute exactly',
  "Adding vectors, adding and subtracting scalars and converting to and from float vectors give exactly the componentwise results for integer vectors of components up to 2^42, and leave their operands as they are. R2ToI and R3ToI drop fractions towards zero. HPSize and USize of a EuroRack panel are HP*5.08-0.24 and U*44.45-4.85.",
  ['inputs'], "all vectors and scalars",
  "No test calls these functions.",
  ['veci.go', 'utils.go', 'form2/obj2/panel.go'],
  [('V2i and V3i', 'veci.go'), ('R3ToI', 'utils.go:44'), ('HPSize, USize', 'form2/obj2/panel.go:92')],
  'exhaustive enumeration of vectors, scalars and components',
  'exploration', "All pairs of small vectors and multiples of them, compared with componentwise integer arithmetic. " + MODEL)

P('C35', 'A rendered solid imported again is the same solid up to a cell',
  "Importing the triangles that the octree renderer makes of a solid whose value changes by no more than the distance between points, and whose features are at least two cells wide, succeeds with ImportModel and ImportModelV2 for vertex tolerances that keep vertices apart. The imported shape is inside and outside wherever the solid is by more than the diagonal of a cell, with values at most that diagonal nearer to zero. If the values of the solid are exact distances, those of the imported shape differ from them by at most the diagonal.",
  ['programs', 'configurations'], "all solids, resolutions and points",
  "Tests render an imported file and import a rendered one, and look at no value.",
  ['render/octree_renderer.go', 'render/marchingcubes.go', 'helpers/sdfexp/import.go', 'helpers/sdfexp/bih.go'],
  [('marching cubes', 'render/marchingcubes.go'), ('ImportModel', 'helpers/sdfexp/import.go'), ('ImportModelV2', 'helpers/sdfexp/bih.go')],
  'exhaustive enumeration of solids, placements and resolutions, every point of a lattice compared across the pipeline',
  'exploration', "The whole pipeline runs on the real code and is compared with the solid it started from at every lattice point. " + MODEL)
