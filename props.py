"""Property texts; gen.py writes properties.jsonl and MANIFEST.json from them."""
P = []
NA = []   # (id, reason) for properties stated but not claimed
def p(id, title, statement, over, text, why, files, mech, observe, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), note=note))

p('P06', 'A NURBS curve evaluates to its rational B-spline definition',
 'For every clamped knot vector on [0,1], positive weights and control points, evaluating the curve at any parameter in [0,1] (both ends included) gives the quotient of the weighted basis-function sums that defines a rational B-spline. At 0 and 1 the curve therefore passes through its first and last control points.',
 ['inputs'], 'all control points, weights, interior knot positions and parameters, degrees 1 to 5',
 'test_nurbscurve checks three fixed curves at one to five parameters each; the claim ranges over every knot span, including parameters exactly on knots.',
 ['src/NurbsCurve.cpp', 'src/NurbsCurve.h'], [('de Boor recursion on homogeneous points', 'NurbsCurve::evaluate'), ('span search with closed last span', 'NurbsCurve::find_knot_span')], ['NurbsCurve::evaluate'], '')
p('P07', 'Knot insertion never changes the shape of a NURBS curve',
 'Inserting a knot at any parameter of [0,1], any number of times and mixed with degree elevations, leaves the point at every parameter where it was. Each insertion adds exactly that knot (in sorted position) and one control point, and keeps all weights positive and the knot, point and weight counts consistent.',
 ['inputs', 'histories'], 'all curves of degree 1 to 5, all insertion parameters (existing knots and end parameters included), all parameters evaluated, histories of insertions and elevations',
 'test_nurbscurve inserts one fixed knot into one fixed curve and compares a handful of points.',
 ['src/NurbsCurve.cpp'], [('Boehm insertion in homogeneous coordinates', 'NurbsCurve::insert_knot')], ['NurbsCurve::insert_knot', 'NurbsCurve::evaluate'], '')
p('P08', 'Degree elevation never changes the shape of a NURBS curve',
 'Raising the degree of any curve of degree 1 or 2 (interior knots of multiplicity up to the degree) succeeds, raises the degree by one and leaves the point at every parameter where it was, with consistent knot, point and weight counts and positive weights. A curve of degree 3 or more is refused and left untouched.',
 ['inputs', 'histories'], 'all curves of degree 1 to 5, all parameters, up to three successive elevations, also after knot insertions',
 'test_nurbscurve elevates two fixed curves and compares a few points.',
 ['src/NurbsCurve.cpp'], [('direct elevation by knot multiplicities', 'NurbsCurve::degree_elevation')], ['NurbsCurve::degree_elevation', 'NurbsCurve::evaluate'], '')
p('P09', 'A NURBS surface evaluates to its tensor-product definition',
 'For all clamped knot vectors on [0,1] in u and v, positive weights and a control net of any size, evaluating the surface at any (u,v) of the unit square gives the quotient of the weighted tensor-product basis sums, with the control net read u fastest. Its four corners are the four corner control points.',
 ['inputs'], 'all control nets, weights, interior knots and parameters, degrees 1 to 5 in each direction, square and non-square nets',
 'test_nurbssurface evaluates a few fixed surfaces, mostly with the same size in u and v, where swapped indices cannot show.',
 ['src/NurbsSurface.cpp', 'src/NurbsSurface.h'], [('two nested de Boor recursions', 'NurbsSurface::evaluate'), ('span search', 'NurbsSurface::find_knot_span')], ['NurbsSurface::evaluate'], '')
p('P10', 'Knot insertion and degree elevation preserve a NURBS surface',
 'Inserting knots and elevating degrees in u and in v, in any order, leaves the point at every (u,v) where it was, keeps the closed flags, and keeps the control net size, degrees and weights mutually consistent and the knots in order, clamped and untouched in the other direction. Elevation succeeds exactly below degree 3.',
 ['inputs', 'histories'], 'all surfaces of degree 1 to 5 per direction, all insertion parameters, all (u,v), histories of operations in both directions',
 'test_nurbssurface inserts one fixed knot and elevates one fixed surface, with square nets.',
 ['src/NurbsSurface.cpp'], [('row-wise application of the curve algorithm', 'NurbsSurface::insert_knot_u'), ('column-wise application', 'NurbsSurface::insert_knot_v'), ('row-wise elevation', 'NurbsSurface::degree_elevation_u'), ('column-wise elevation', 'NurbsSurface::degree_elevation_v')], ['NurbsSurface::evaluate'], '')
p('P11', 'Extruded and ruled surfaces sweep exactly their input curves',
 'The extrusion of a curve along a vector satisfies S(u,v) = C(u) + v d for every parameter, and the ruled surface between two curves satisfies S(u,0) = C1(u), S(u,1) = C2(u) and is linear in between in homogeneous coordinates; its knots are those of the curve and clamped linear ones. The result is closed along the curve exactly when the curve is, is never closed across it, and nothing of an earlier surface stored in the result object survives.',
 ['inputs', 'histories'], 'all profile curves of degree 1 to 5 (open and closed, rational), all directions, all parameters; fresh and reused result objects',
 'the tests extrude and rule one or two fixed curves into fresh objects and check a few points.',
 ['src/NurbsExtrude.cpp', 'src/NurbsRuled.cpp', 'src/NurbsSurface.cpp'], [('extrusion', 'NurbsExtrude::extrude'), ('ruled surface', 'NurbsRuled::ruled'), ('reset of the result', 'NurbsSurface::clear')], ['NurbsSurface::evaluate', 'NurbsSurface::is_closed_u'], '')
p('P12', 'A surface of revolution sweeps exact circles around the z axis',
 'Every point of the revolved surface has the height and the distance to the axis of the profile point at the same profile parameter, the sweep makes one full turn in four equal quarter turns starting at the profile itself, and the surface is closed around the axis and, along the profile, exactly when the profile is closed. Its knot vectors are clamped and in order.',
 ['inputs'], 'all profile curves of degree 1 to 3 (open and closed, rational), all (u,v)',
 'test_nurbsrevolve revolves one fixed profile and checks sizes and a few points.',
 ['src/NurbsRevolve.cpp'], [('nine-point rational circle', 'NurbsRevolve::revolve')], ['NurbsSurface::evaluate'], '')
p('P16', 'Mesh edits keep the vertex and triangle tables exact',
 'After any sequence of adding vertices, moving vertices, adding triangles, quads and pentagons, unlinking triangles and clearing, the mesh reports exactly the vertices and triangles that sequence made: new ids are consecutive, nothing else moves or changes, every triangle keeps its corner order, and a triangle is reported unlinked exactly when it was unlinked. A quad or pentagon becomes n-2 triangles that cover it with its orientation; a quad given by its points is cut, unless asked otherwise, along the diagonal that gives the smaller surface.',
 ['inputs', 'histories'], 'all histories of edits, coordinates and vertex ids',
 'test_mesh performs one or two fixed edits on one small mesh.',
 ['src/Mesh.cpp', 'src/Mesh.h', 'src/MeshKernelLinkedTriangles.cpp'], [('vertex and triangle tables', 'MeshKernelLinkedTriangles::add_triangle'), ('flagging of removed triangles', 'MeshKernelLinkedTriangles::unlink_triangle'), ('polygon decomposition', 'Mesh::add_pentagon')], ['Mesh::nb_triangles', 'Mesh::get_vertex', 'Mesh::get_triangle', 'Mesh::is_triangle_unlinked'], '')
p('P17', 'Copying, assigning and merging meshes is exact and independent',
 'A copied or assigned mesh has the source colour, all its vertices in order and exactly its linked triangles in order; merging appends them after the existing ones with shifted ids and takes the merged mesh\'s colour. Later changes to either mesh never show in the other, whatever the target held before, and a mesh can be assigned to or merged with itself. A new mesh has no colour.',
 ['inputs', 'histories'], 'all meshes (any triangles unlinked), all targets, self included, edits after the copy',
 'the tests copy one mesh and compare counts; aliasing, unlinked triangles and later edits are not exercised.',
 ['src/Mesh.cpp'], [('copy by clear and merge', 'Mesh::operator='), ('index shift', 'Mesh::add_mesh')], ['Mesh::get_triangle_vertices', 'Mesh::get_vertex', 'Mesh::get_color'], '')
p('P18', 'Splitting and flipping triangles preserves coverage and orientation',
 'Splitting a triangle at a vertex or an edge shared by two triangles replaces exactly those triangles by pieces that cover the same region with the same orientation and the same outer boundary, whichever corner each triangle happens to be stored from. Flipping reverses the orientation and nothing else.',
 ['inputs'], 'all triangle pairs, stored rotations, mirror images, split points',
 'the tests split one triangle once and compare the triangle count; edge splitting is not tested.',
 ['src/Mesh.cpp'], [('edge split', 'Mesh::split_edge_with_vertex'), ('triangle split', 'Mesh::split_triangle_with_vertex'), ('flip', 'Mesh::flip_triangle')], ['Mesh::get_triangle_vertices', 'Mesh::is_triangle_unlinked'], '')
p('P19', 'Factory solids are closed, outward-facing and of the stated shape and size',
 'Every solid the mesh factory makes (tetrahedron, box, octahedron, dodecahedron, icosahedron, cylinder, geodesic and uv sphere, torus) is a closed, consistently oriented surface without degenerate or duplicate triangles, with the Euler characteristic of its shape, faces pointing outside and vertices on the stated sphere, cylinder, box or torus, for every size; what the target mesh held before is gone.',
 ['inputs', 'configurations'], 'all sizes, subdivision counts from 1, fresh and reused meshes',
 'test_meshfactory compares one volume and one area per solid at a fixed size; holes, flipped or doubled faces that change neither are not seen.',
 ['src/MeshFactory.cpp'], [('solid construction', 'MeshFactory::create_sphere_uv'), ('subdivision and projection', 'MeshFactory::create_sphere_geodesic')], ['Mesh::get_triangle_vertices', 'Mesh::get_vertex'], 'the dodecahedron is documented by its own coordinates (circumscribed radius sqrt(3) times the size)')
p('P20', 'Tessellation cuts every triangle into n*n congruent pieces',
 'Tessellating a mesh by n replaces every linked triangle by n*n triangles that tile it exactly, all of area 1/n^2 of it and with its orientation, and drops unlinked triangles.',
 ['inputs', 'configurations'], 'all meshes and all subdivision counts',
 'test_meshtessellate checks counts and one total area.',
 ['src/MeshTessellate.cpp'], [('triangle subdivision', 'MeshTessellate::compute')], ['Mesh::get_triangle_vertices'], '')
p('P21', 'Mesh clean-up and grid construction keep geometry within the tolerance',
 'Merging vertices keeps every linked triangle, moves no corner by the tolerance or more, keeps only original vertices and leaves no two of them closer than the tolerance. Removing empty triangles removes exactly those with an edge shorter than the tolerance. A grid of w by h samples becomes w*h vertices in row order and two counter-clockwise triangles per cell, covering the grid once.',
 ['inputs', 'configurations'], 'all vertex positions, triangles and tolerances; all grid sizes, square or not',
 'the tests merge one fixed quad pair and build one grid.',
 ['src/MeshUtil.cpp'], [('vertex aliasing', 'MeshUtil::merge_vertices'), ('short edge removal', 'MeshUtil::remove_empty_triangles'), ('grid', 'MeshUtil::create_from_grid')], ['Mesh::get_vertex', 'Mesh::get_triangle_vertices'], '')
p('P22', 'Mesh measurements report the geometry',
 'The volume of a closed mesh is the signed volume it encloses and decides whether it is oriented outside; the surface is the sum of its triangle areas; degenerate triangles are reported exactly when a linked triangle has zero area; a mesh is reported closed exactly when every edge is shared. A mesh is clean when it passes every single test. Unlinked triangles never count, and the measures always describe the present content of the mesh.',
 ['inputs', 'histories'], 'all vertex positions, meshes with unlinked triangles, edits between measurements',
 'the tests measure three fixed solids.',
 ['src/MeshMeasurements.cpp', 'src/Geometry.cpp'], [('volume sum', 'MeshMeasurements::volume'), ('area sum', 'MeshMeasurements::surface'), ('closedness', 'MeshMeasurements::is_closed')], ['MeshMeasurements::volume', 'MeshMeasurements::surface'], '')
p('P01', 'Images survive a round trip through a BMP file',
 'Writing an image of 1, 3 or 4 planes and reading it back restores size, planes and every colour value, whatever the target image held. The file itself is a well-formed BMP: correct header fields and sizes, bottom-up lines in blue-green-red order padded to 4 bytes, a grey palette for one plane. Images with another number of planes are refused.',
 ['inputs', 'configurations'], 'all pixel values and sizes, widths of every residue modulo 4',
 'test_bmpfile writes one image per format with widths that need no padding and does not compare the pixels it reads back.',
 ['src/ImageIoBmp.cpp', 'src/Image.h'], [('writer', 'ImageIoBmp::write'), ('reader', 'ImageIoBmp::read')], ['ImageIoBmp::read', 'the bytes of the file'], 'The alpha plane is documented as ignored and is not part of the claim.')
p('P02', 'The BMP reader reads well-formed files exactly and refuses the rest safely',
 'A well-formed 8, 24 or 32 bit BMP is read pixel for pixel, whatever its unused header fields hold. For any other byte sequence (wrong signature, other bit depths, zero, negative or huge sizes, truncated anywhere) the reader returns false and leaves the image as it was; it never crashes, reads uninitialised memory or accepts a file that lacks pixels.',
 ['inputs', 'faults'], 'all file contents and truncation points within the bounds',
 'the tests only read files the writer has just produced.',
 ['src/ImageIoBmp.cpp'], [('header checks', 'ImageIoBmp::read')], ['ImageIoBmp::read'], '')
p('P29', 'Image pixels are addressed, converted and generated consistently',
 'Every accessor of an image refers to the same byte (row by row, planes interleaved), writes touch no other pixel, and copies are independent. An image has one plane unless asked otherwise. Grey conversion takes the mean of the three colours at the same place, scaling rounds to nearest and saturates, conversion to doubles lists the pixels row by row, and the generators fill exactly the requested size; the Mandelbrot image shows the escape step of the point of the plane under each pixel.',
 ['inputs', 'configurations'], 'all pixel values, positions and sizes, square or not',
 'no test reads single pixels back; the mandelbrot tests only run the conversions on square images.',
 ['src/Image.h', 'src/ImageUtil.cpp', 'src/ImageGenerator.cpp'], [('pixel addressing', 'Image::operator()'), ('grey conversion', 'ImageUtil::convert_to_bw'), ('saturation', 'ImageUtil::scale'), ('row order', 'Image::to_double')], ['Image::operator()', 'Image::to_double'], '')
p('P03', 'Meshes survive a round trip through binary STL, and damaged STL files are refused',
 'Saving a mesh writes 84 bytes plus 50 per linked triangle with the facet count and the corners, in order, as floats; loading restores one triangle per facet with the same corners and orientation and drops whatever the mesh held. Header text, normals and attribute bytes never matter. A file is accepted exactly when it holds all the facets it announces.',
 ['inputs', 'faults'], 'all meshes and coordinates, all headers, counts and truncation points within the bounds',
 'test_fileformat saves and reloads one shape and compares nothing but the surface.',
 ['src/STLFile.cpp'], [('writer', 'STLFile::save'), ('reader', 'STLFile::load')], ['STLFile::load', 'the bytes of the file'], '')
p('P04', 'Meshes and polylines survive a round trip through OBJ, and malformed faces are refused',
 'Saving writes every vertex (with its colour if the mesh has one) and each linked triangle with 1-based indices; several meshes and polylines written to one file each refer to their own vertices, also when the writer is reopened for another file. Loading restores vertices in order and triangles with their orientation, ignores other line kinds, blank lines and comments, and returns false for a face whose vertices do not exist or a line that lacks its numbers, never creating a triangle with invalid indices.',
 ['inputs', 'histories', 'faults'], 'all meshes, coordinates, sequences of parts and short texts within the bounds',
 'test_fileformat checks one round trip; polylines, several parts per file and malformed text are never tested.',
 ['src/OBJFile.cpp'], [('vertex numbering', 'OBJWriter::write'), ('line parser', 'OBJFile::load')], ['OBJFile::load', 'the text of the file'], 'Coordinates are compared to 6 digits, which is what is written. Faces with slashes, negative indices or more than three corners are not part of the claim.')
p('P05', 'A STEP file describes exactly the NURBS surfaces written to it',
 'The file is a well-formed exchange structure: sections once and in order, unique instance numbers, no dangling reference, closed properly also when the writer is destroyed or reopened. For each surface, in order, it holds a face whose B-spline surface has the same degrees, closed flags, control points and weights (outer list along u, as the format defines) and strictly increasing knot values whose multiplicities expand to the surface knots.',
 ['inputs', 'histories', 'configurations'], 'all surfaces within the bounds, sequences of surfaces and solids in one file',
 'test_stepfile writes one torus and never looks at the file.',
 ['src/StepFile.cpp'], [('instance numbering', 'StepWriter::write'), ('header and footer', 'StepWriter::open / close')], ['the text of the file'], 'Numbers are compared to 6 digits. Attribute types beyond those named (e.g. reals without a decimal point) are not part of the claim.')
p('P13', 'NURBS primitives are exact',
 'For every size, the circle, disk, sphere, torus, cylinder, box, quad and triangle produced by the NURBS factory lie exactly on the surface they are named after, run once around in the documented order, report whether they are closed, and replace whatever the target object held. The faces of the solids point outside; a box has its six sides once each, a cylinder two caps and a side. A curve from points is the uniform, clamped, non-rational curve of that degree.',
 ['inputs'], 'all sizes, corner points and parameters',
 'test_nurbsfactory samples circle and sphere on a grid of parameters; the solids are only written to files.',
 ['src/NurbsFactory.cpp', 'src/NurbsRevolve.cpp', 'src/NurbsRuled.cpp', 'src/NurbsSolid.cpp'], [('circle net', 'NurbsFactory::create_circle'), ('revolved profiles', 'NurbsFactory::create_sphere / create_torus / create_disk'), ('orientation by mirroring', 'NurbsFactory::create_cylinder')], ['NurbsSurface::evaluate', 'NurbsSolid::surfaces'], '')
p('P14', 'NURBS and meshes convert into each other faithfully',
 'Converting a surface gives a regular grid of points lying on it, row by row, each cell covered by two triangles with the orientation of the surface; closed directions join the first row or column again, so a torus becomes a watertight mesh oriented outside. Existing content is kept or dropped as asked, a solid becomes the concatenation of its surfaces. The control point mesh spans each cell of the net. A height field becomes the surface with control points (column,row,height), and a mesh becomes one patch per linked triangle.',
 ['inputs', 'configurations'], 'all surfaces, segment counts, closed flags and grid sizes within the bounds, square or not',
 'the tests convert a few shapes and compare areas; create_from_z is only run on a square grid and never examined.',
 ['src/NurbsUtil.cpp', 'src/Mesh.cpp'], [('grid indices', 'NurbsUtil::to_mesh'), ('control net', 'NurbsUtil::to_controlpoints_mesh'), ('row order', 'NurbsUtil::create_from_z')], ['Mesh::get_vertex', 'Mesh::get_triangle_vertices'], 'Vertices left unused along closed seams are allowed, as the code documents.')
p('P15', 'Curves and surfaces keep a normalised, consistent parametrisation',
 'Any knot vector is mapped affinely onto [0,1]; uniform knots are clamped and evenly spaced; equal weights replace earlier ones. A cleared curve or surface is indistinguishable from a new one, copies are independent, and an object that is changed after being evaluated answers like a new one with the same attributes. Every parameter belongs to exactly one non-empty knot span, parameters outside [0,1] to the first or last. The polyline of a curve runs from its first to its last point through evenly spaced parameters, and a curve is closed exactly when its ends are closer than the tolerance.',
 ['inputs', 'histories'], 'all knot vectors, weights and points within the bounds, objects with any earlier content',
 'the tests use fresh objects with knots already on [0,1].',
 ['src/NurbsCurve.cpp', 'src/NurbsSurface.cpp'], [('normalisation', 'NurbsCurve::scale_knots'), ('uniform knots', 'NurbsSurface::set_uniform_u'), ('sampling', 'NurbsCurve::to_polyline')], ['NurbsCurve::knots', 'NurbsCurve::to_polyline', 'NurbsSurface::weights'], '')
p('P23', 'Rotations turn about their axis by their angle',
 'A rotation built from an angle in degrees and a unit axis, as matrix, quaternion or angle-axis, turns every point right-handed by that angle about that axis: distances and orientation are preserved, the axis stays, the opposite angle undoes it, angles about one axis add up, and the three forms give the same point. Setting new values forgets the earlier ones; defaults are the identity. Euler angles preserve distances and apply yaw, then pitch, then roll, about y, x and z.',
 ['inputs'], 'all angles, all unit axes, all points',
 'test_transform rotates two points by one or two angles about coordinate axes.',
 ['src/Transform.cpp'], [('matrix from angle and axis', 'RotationMatrix::from_angle_axis'), ('quaternion', 'RotationQuaternion::from_angle_axis / apply'), ('Euler angles', 'RotationEulerAngles::apply')], ['Transform::apply'], 'RotationEulerAngles includes the y flip of the screen (zero angles map y to -y), which the camera relies on; so only distances, not orientation, are claimed for it. Axes that are not unit vectors are outside.')
p('P24', 'A transform acts on every point of an object exactly once',
 'Translation adds its vector, scale multiplies each axis. Applying any transform to a list of points, a mesh, a NURBS surface or a NURBS solid maps every point exactly once and changes nothing else: triangles, colours, knots, weights, degrees and flags stay. So a surface transformed by an affine map is the image of the surface, at every parameter.',
 ['inputs', 'configurations'], 'all affine maps, points, weights and parameters',
 'the tests move a factory shape by one translation and do not look at it.',
 ['src/Transform.cpp', 'src/Mesh.cpp', 'src/NurbsSurface.cpp', 'src/NurbsSolid.cpp'], [('per point', 'Transform::apply_all'), ('mesh vertices', 'Mesh::apply_transform'), ('control points', 'NurbsSurface::apply_transform')], ['Mesh::get_vertex', 'NurbsSurface::evaluate'], '')
p('P25', 'Geometric predicates are exact',
 'Vector operations have their usual meaning. The area, normal and orthogonal vector of a triangle and the distance, projection and normal of a plane are right-handed and exact. A plane meets a segment exactly when the ends lie strictly on opposite sides, at the point it returns. A triangle contains exactly the points of its plane inside or on it. Segments on crossing lines meet exactly when both contain the crossing. A segment through the inside of a triangle meets it, one beside it does not. Triangles pierced by a side of another meet, whichever is asked; triangles separated by a plane do not. Two planes meet exactly when they are not parallel, in a line that lies in both. An object that is changed after being queried answers like a new one.',
 ['inputs'], 'all coordinates, including points on edges, on their extensions and on corners',
 'test_geometry tries one or two positions per predicate.',
 ['src/Geometry.cpp'], [('point in triangle', 'Triangle3::contains'), ('segments', 'Segment3::intersect'), ('triangle pairs', 'Triangle3::intersect_with'), ('plane', 'Plane3::intersect_with / project_point')], ['return values of the predicates'], 'Degenerate triangles, touching triangles, and non-coplanar segments are outside the claim.')
p('P26', 'Bounding boxes meet exactly when their ranges overlap',
 'The box of any sequence of points is the smallest one around them, and two boxes are reported to meet exactly when their ranges share a value on every axis, touching included, in either order. The box of a triangle is that of its corners.',
 ['inputs', 'histories'], 'all points in any order of insertion',
 'no test looks at boxes.',
 ['src/Geometry.cpp'], [('growing', 'BoundingBox3::add'), ('overlap', 'BoundingBox3::intersect_with')], ['BoundingBox3::intersect_with'], 'Boxes without any point are outside the claim.')
p('P27', 'Bezier triangles evaluate and tessellate exactly',
 'A quadratic triangle patch evaluates to the rational Bezier point of its six control points and weights, passes through its corners, is flat when only corners are given and commutes with affine maps. Meshing it with n segments appends its (n+1)(n+2)/2 grid points and n*n triangles that tile the patch without hole or overlap, oriented like the corners, and keeps what the mesh held. The Bernstein polynomials are the Bernstein polynomials. A point-normal cubic triangle has its boundary tangent to the plane of each corner normal and the documented centre.',
 ['inputs', 'configurations'], 'all control points, weights, parameters and segment counts within the bounds',
 'test_quadbeziertriangle evaluates a few points; the mesh is only written to a file (it had holes).',
 ['src/QuadBezierTriangle.cpp', 'src/BezierUtil.cpp', 'src/CubicBezierTriangles.cpp'], [('evaluation', 'QuadBezierTriangle::eval'), ('tessellation', 'QuadBezierTriangle::add_to_mesh'), ('normals', 'CubicBezierTriangles::set_normals')], ['QuadBezierTriangle::eval', 'QuadBezierTriangle::add_to_mesh'], '')
p('P28', 'Smooth meshes keep their patches, and their shapes are closed',
 'A smooth mesh keeps its patches in order; copies are independent, self-assignment changes nothing, adding a mesh (also to itself) appends its patches; a transform or the conversion to a mesh treats each patch once. A flat polygon becomes flat patches that cover it once with its orientation. Every factory shape, of any size, replaces the earlier content, has its corners where its name says and meshes into a closed surface whose triangles all face outside.',
 ['inputs', 'histories'], 'all patches, sizes and segment counts within the bounds',
 'test_smoothmeshfactory writes the shapes to a file without examining them.',
 ['src/SmoothMesh.cpp', 'src/SmoothMeshFactory.cpp', 'src/QuadBezierTriangle.cpp'], [('container', 'SmoothMesh::operator= / add_mesh'), ('shapes', 'SmoothMeshFactory::create_*'), ('polygons', 'SmoothMesh::add_flat_quad / add_flat_pentagon')], ['SmoothMesh::triangle', 'SmoothMesh::add_to_mesh'], '')
p('P33', 'Faces and solids copy their mesh',
 'A face or solid holds the mesh it was built from. Copying or assigning one gives the same mesh, independent of the source, returns the assigned object, and works for empty objects and self-assignment.',
 ['inputs', 'histories'], 'all meshes within the bounds',
 'no test uses these classes.',
 ['src/Face.cpp', 'src/Solid.cpp'], [('assignment', 'Face::operator= / Solid::operator=')], ['Face::mesh', 'Solid::mesh'], '')

p('P30', 'Drawing stays inside the screen and inside the shape',
 'Whatever is drawn, wherever it projects, only the pixels of the screen buffer are written, and no depth outside it. A triangle fills every pixel well inside its projection, touches none further than about a pixel outside it, in a single colour, including where it is cut by any border of the screen; it is skipped when seen from the back unless two faces are asked for, and the result says so. A line draws only pixels along it, without a gap on the screen. A point draws at most one pixel, the one it projects to, none when behind the camera.',
 ['inputs'], 'all positions and depths within the bounds',
 'test_renderer draws one scene and looks at nothing but the crash.',
 ['src/Renderer.cpp', 'src/RendererCamera.cpp'], [('clipping', 'Renderer::draw_trapeze / draw_horizontal_line'), ('rasterisation', 'Renderer::draw_triangle_1color / draw_line / draw_pixel')], ['the pixel buffer', 'Renderer::draw_triangle_1color result'], 'Triangles with a vertex behind the camera are outside the claim.')
p('P31', 'The nearest surface is visible, whatever the drawing order',
 'At every pixel covered by several points, lines or triangles, the nearest one is seen, in whatever order they were drawn, also for tilted triangles and triangles cut by the border of the screen (up to the depth change over one pixel). A mesh draws exactly its linked triangles, in its own colour or the one asked for.',
 ['inputs', 'histories'], 'all depths, tilts and orders within the bounds',
 'no test compares depths.',
 ['src/Renderer.cpp'], [('depth buffer', 'Renderer::draw_horizontal_line / draw_line / draw_pixel'), ('meshes', 'Renderer::draw_mesh')], ['the pixel buffer'], '')
p('P32', 'Camera and lights',
 'The camera moves a point to its origin, turns it by its angles, pushes it ahead, and projects it to the nearest pixel with the zoom and the centre of the screen it was given, with the inverse of the depth. The colour of a face is, in each channel, the sum over the lights of their strength (for directional lights times the cosine, never negative) times the face colour, limited to 255, with no spill into other channels. Clearing fills with the background colour and forgets all depths.',
 ['inputs'], 'all cameras, points, lights within the bounds',
 'no test examines a projection or a colour.',
 ['src/RendererCamera.cpp', 'src/RendererLight.cpp', 'src/Renderer.cpp'], [('projection', 'RendererCamera::project / local_ref'), ('lighting', 'Renderer::compute_color_with_lights, RendererLight*::apply')], ['RendererCamera::project', 'the pixel buffer'], '')

p('P34', 'Cutting meshes by each other never changes the surface',
 'Whatever triangle cuts a triangle of a mesh, also repeatedly and along its corners and edges, the linked pieces cover the same surface once with the same orientation and boundary, the other triangles and all earlier vertices are kept, and new vertices lie on the cut triangle; a triangle that is already unlinked stays so and adds nothing. Splitting two meshes by each other leaves both operands unchanged and gives results that cover them, whatever the results held before.',
 ['inputs', 'histories'], 'all cutting positions within the bounds',
 'no test uses MeshBoolean or split_triangle with a symbolic range of positions; touching configurations occur at single values of a coordinate.',
 ['src/Mesh.cpp', 'src/MeshBoolean.cpp', 'src/Geometry.cpp'], [('cutting', 'Mesh::split_triangle'), ('meshes', 'MeshBoolean::split_meshes')], ['Mesh::get_triangle_vertices', 'Mesh::get_vertex'], 'The cut itself is unfinished in the repository (only touching points split); the claim is that the surface is preserved.')

p('P35', 'Every mesh kernel keeps its tables exactly',
 'Whatever vertices and triangles are added to, moved in and unlinked from a linked-triangle or TIN kernel, and whatever is cleared in between, the kernel answers exactly with what was put in: ids count up from 0, coordinates and triangle corners come back as given, a triangle is unlinked exactly when it was asked for, and it stays in the count. The half-edge kernel does so for its vertices. One kernel never touches another.',
 ['inputs', 'histories'], 'all coordinates, ids and histories of edits within the bounds',
 'no test uses a kernel but through Mesh, and only the linked-triangle one.',
 ['src/MeshKernelLinkedTriangles.cpp', 'src/MeshKernelTIN.cpp', 'src/MeshKernelHalfEdge.cpp', 'src/MeshKernel.h'], [('tables', 'MeshKernel*::add_vertex / set_vertex / add_triangle / unlink_triangle / clear')], ['MeshKernel::get_vertex', 'MeshKernel::get_triangle_vertices', 'MeshKernel::is_triangle_unlinked'], 'Neighbour queries are unfinished in the repository and not claimed.')
p('P36', 'A random axis is a unit vector that depends on its seed alone',
 'For every seed the random axis has length 1 and the direction of three independent normal draws (so that axes spread evenly over the sphere); asking again with the same seed, or again without one, gives the same axis whatever was asked in between and whatever the result variable held.',
 ['inputs', 'histories'], 'every seed, every value the generator can draw (except all zero)',
 'test_geometryutil draws 200 axes and looks at none.',
 ['src/GeometryUtil.cpp', 'src/Geometry.cpp'], [('drawing and normalising', 'GeometryUtil::compute_random_axis')], ['GeometryUtil::compute_random_axis'], '')
