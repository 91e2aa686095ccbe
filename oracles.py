# how each property is decided: the oracle (bounds and jobs are in checks.py)
O = {
'P01': 'write then read in the modelled file system; every pixel byte symbolic; oracle: identity (and refusal of plane counts BMP cannot hold)',
'P02': 'the harness composes well-formed files byte by byte from the BMP specification (unused bytes symbolic) and compares pixels; for arbitrary byte strings and every truncation: refusal or a consistent image, no memory error, no endless loop',
'P03': 'write/load identity on the linked triangles; hand-composed binary STL with symbolic header/normals/attributes; symbolic facet count and truncation: refused, nothing read beyond the file',
'P04': 'write/load identity up to printed precision; polyline/segment elements parsed back by the harness; texts over a small alphabet: refused or only existing vertices used',
'P05': 'a STEP parser in the harness resolves the #-references and compares degrees, control net order, knots, multiplicities and weights with the surface; references unique and resolved',
'P06': 'the Cox-de Boor recursion with rational weights, written independently in hcommon.h',
'P07': 'evaluation after the history equals the Cox-de Boor definition of the original curve; knot vector gains exactly the knot; counts stay consistent',
'P08': 'as P07 for degree elevation; degree 3 must be refused without change',
'P09': 'tensor-product Cox-de Boor definition',
'P10': 'as P07/P08 in both directions of a surface',
'P11': 'S(u,v) compared with the definition of the input curves plus the sweep or ruling, closed flags included',
'P12': 'distance to the axis and height compared with the profile; the angle stays in the stated quarter, both ends and seam',
'P13': 'implicit equations (circle, sphere, cylinder, cone, torus, planes) at every parameter, corner positions, interpolation conditions',
'P14': 'mesh vertices against surface evaluation on the stated grid, triangle orientation/closedness by edge matching; grid heights against the control net',
'P15': 'affine knot normalisation, uniform/clamped structure, weights, independence of earlier content, polyline end points',
'P16': 'a reference model (plain tables) executed in lockstep with the mesh on every history of edits',
'P17': 'deep comparison before/after and after mutating either side, including self operations and kernels',
'P18': 'signed areas/coverage and adjacency before and after, for every stored rotation',
'P19': 'edge matching (each directed edge once, its reverse once), outward orientation against an interior point, implicit equation and extent of the solid',
'P20': 'the n*n pieces compared with their barycentric definition',
'P21': 'transitive closeness classes computed in the harness; merged vertices inside the tolerance, no triangle lost except the degenerate ones; grid vertex positions and orientation',
'P22': 'volume by the divergence theorem, areas, bounding boxes computed independently',
'P23': 'Rodrigues formula, isometry, axis fixed, angle by concrete degrees',
'P24': 'a recording affine transform with 12 symbolic coefficients applied once per point',
'P25': 'algebraic definitions (barycentric signs, sides of planes, segment parameters), robust margins around touching configurations',
'P26': 'interval overlap per axis',
'P27': 'rational quadratic Bezier triangle definition; tessellation by barycentric grid; PN construction by tangent conditions',
'P28': 'list model of patches; closedness by edge matching of the meshed shape; outward orientation by symbolic sizes',
'P29': 'direct index arithmetic in the harness; saturation limits; checker/Mandelbrot definitions',
'P30': 'edge functions with a one pixel undecided band; guard by the executor\'s bounds checks on pixel and depth buffer',
'P31': 'plane equation of 1/z at each pixel with the slope of one pixel as margin, against a flat reference surface in both drawing orders',
'P32': 'pinhole formula and rounding to the nearest pixel; per-channel light sum',
'P33': 'deep comparison of meshes before/after copies and mutations',
'P34': 'signed area vectors and boundary chains before and after, vertices on the plane of the cut triangle',
'P35': 'list model of vertices and triangles next to each kernel, all states compared after every edit',
'P36': 'unit length and proportionality to three draws of the same generator, equality of repeated calls',
}
