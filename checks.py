"""Which symbolic jobs decide which property. A job = one harness with concrete configuration parameters; everything else in it is symbolic."""
COMMON_ASSUMPTIONS = [
 "floating point is read as real arithmetic (correctly rounded constants such as 1./3. stand for the number they approximate); rounding, overflow and NaN are outside the claim unless the job runs with --ieee",
 "clang -O1 compiles the source faithfully; iostream formatting is modelled by a token stream (engine/shadow), libm by its defining identities",
 "inputs that make the code divide by exactly zero or take the root of a negative number leave the path (counted in outside_the_claim)"]
def J(_h, reach=('end',), opts=(), finding=None, time=None, cost=1, **params):
    d = dict(harness=_h, params=params, reach=list(reach), opts=list(opts), cost=cost)
    if finding: d['finding'] = finding
    if time: d['time'] = time
    return d
CHECKS = {}
def C(pid, quick, thorough=None, bounds='', assumptions=(), **k):
    CHECKS[pid] = dict(quick=quick, thorough=(quick + thorough) if thorough else quick, bounds=bounds, assumptions=list(assumptions), **k)
def jobs(pid, tier): return CHECKS[pid][tier]
NURBS = ["knot vectors are clamped on [0,1] with interior knots at least 1/100 apart, weights lie in [1/4,4], coordinates in [-4,4]"]

C('P06', [J('curve_eval', deg=d, pat=p, mode=m) for d in (1,2,3) for p in (0,1,11) for m in (0,1)] + [J('curve_eval', deg=d, pat=p, mode=1) for d,p in ((2,2),(3,2),(3,3),(2,21))] + [J('curve_eval', deg=d, pat=11, mode=3) for d in (1,2,3)]
  + [J('curve_eval', deg=d, pat=p, mode=m, cost=3) for d,p,m in ((4,1,1),(5,2,1),(5,11,0),(2,-20,0),(3,-40,2),(1,-70,0),(2,-33,2))] + [J('curve_eval', deg=d, pat=p, mode=m, cost=5) for d in (1,2,3) for p in (111,1111,21,12) for m in (0,1,2) if not(d==1 and p in(21,12)) and not(m==2 and (d,p) in((2,1111),(3,111),(3,1111)))],
  [J('curve_eval', deg=d, pat=p, mode=m, cost=9) for d,p,m in ((4,111,1),(5,1111,0),(7,1,1),(9,0,0),(2,-150,2),(1,-300,0),(3,-100,0))],
  'degrees 1-5 (thorough 9), up to 4 interior knots of multiplicity up to the degree at symbolic positions, up to 70 (thorough 300) at fixed ones, every parameter in [0,1], all control points and weights symbolic', NURBS)
C('P07', [J('curve_ops', deg=d, pat=p, mode=m, ops=1) for d in (1,2,3) for p in (0,1,11) for m in (0,1)] + [J('curve_ops', deg=d, pat=p, mode=m, ops=11, cost=4) for d in (1,2,3) for p in (0,1) for m in (0,1)]
  + [J('curve_ops', deg=d, pat=1, mode=1, ops=3) for d in (2,3)] + [J('curve_ops', deg=3, pat=1, mode=1, ops=33), J('curve_ops', deg=2, pat=2, mode=1, ops=1), J('curve_ops', deg=2, pat=1, mode=0, ops=21, inner=1), J('curve_ops', deg=1, pat=1, mode=0, ops=12), J('curve_ops', deg=2, pat=0, mode=0, ops=121, inner=1, cost=3)] + [J('curve_ops', deg=d, pat=1, mode=1, ops=1, pre=1) for d in (1,2,3)] + [J('curve_ops', deg=2, pat=11, mode=3, ops=1), J('curve_ops', deg=2, pat=0, mode=0, ops=11, pre=1, inner=1)]
  + [J('curve_ops', deg=d, pat=p, mode=m, ops=1, cost=4) for d,p,m in ((4,1,1),(5,0,1),(2,-12,0),(1,-20,2),(3,-10,2))] + [J('curve_ops', deg=5, pat=1, mode=0, ops=12), J('curve_ops', deg=4, pat=0, mode=0, ops=21)],
  [J('curve_ops', deg=d, pat=11, mode=m, ops=11, cost=20) for d in (1,2,3) for m in (0,1)] + [J('curve_ops', deg=d, pat=p, mode=0, ops=111, cost=40) for d in (1,2,3) for p in (0,1)] + [J('curve_ops', deg=d, pat=111, mode=1, ops=1, cost=20) for d in (1,2,3)] + [J('curve_ops', deg=d, pat=p, mode=0, ops=1, cost=20, time=600) for d,p in ((2,-20),(1,-40),(3,-20))],
  'degrees 1-5, up to 2 interior knots at symbolic positions (thorough 3) and 20 (thorough 40) at fixed ones, histories of up to 2 insertions (thorough 3) at any parameter in [0,1] including existing knots and the ends, mixed with a degree elevation', NURBS)
C('P08', [J('curve_ops', deg=d, pat=p, mode=m, ops=2) for d in (1,2,3) for p in (0,1,11,2) for m in (0,1) if (d,p)!=(1,2)] + [J('curve_ops', deg=1, pat=p, mode=1, ops=22) for p in (0,1)] + [J('curve_ops', deg=1, pat=0, mode=1, ops=222), J('curve_ops', deg=2, pat=1, mode=1, ops=23), J('curve_ops', deg=2, pat=0, mode=0, ops=24, finding='F-elevate-overfull'), J('curve_ops', deg=1, pat=0, mode=0, ops=24, finding='F-elevate-overfull')] + [J('curve_ops', deg=2, pat=11, mode=0, ops=2, pre=1), J('curve_ops', deg=1, pat=1, mode=1, ops=22, pre=1), J('curve_ops', deg=2, pat=1, mode=3, ops=2)]
  + [J('curve_ops', deg=d, pat=p, mode=m, ops=2, cost=3) for d,p,m in ((4,1,1),(5,0,0),(2,-20,2),(1,-40,2),(2,-20,0))] + [J('curve_ops', deg=d, pat=p, mode=m, ops=2, cost=4) for d in (1,2) for p in (111,12,21,1111) for m in (1,2) if not(d==1 and p in(12,21)) and not(m==2 and d==2 and p in(111,1111))],
  [J('curve_ops', deg=1, pat=11, mode=1, ops=22, cost=10), J('curve_ops', deg=2, pat=-60, mode=2, ops=2, cost=9), J('curve_ops', deg=1, pat=-150, mode=0, ops=2, cost=9), J('curve_ops', deg=1, pat=-12, mode=0, ops=22, cost=9)],
  'degrees 1-5 (3 and more must be refused), up to 4 interior knots of multiplicity up to the degree at symbolic positions, up to 40 (thorough 150) at fixed ones, up to 3 successive elevations', NURBS)
C('P09', [J('surface_eval', du=d,dv=e, pu=p,pv=q, mode=m) for d,e in((1,1),(2,1),(1,2),(2,2),(3,2),(3,3)) for p,q in ((0,0),(1,0),(0,1)) for m in (0,1) if (d,e,m)!=(3,3,1)] + [J('surface_eval', du=2, dv=1, pu=1, pv=1, mode=3), J('surface_eval', du=1, dv=2, pu=11, pv=0, mode=3)]
  + [J('surface_eval', du=d, dv=e, pu=p, pv=q, mode=m, cost=3) for d,e,p,q,m in ((4,2,1,0,0),(1,5,0,1,0),(2,1,-12,-9,0),(1,2,-20,1,2),(2,2,1,1,1),(2,1,0,11,1),(1,2,2,0,0))],
  [J('surface_eval', du=3,dv=3,pu=1,pv=0,mode=1,cost=20), J('surface_eval', du=3,dv=3,pu=0,pv=1,mode=1,cost=20)]+[J('surface_eval', du=d,dv=e, pu=p,pv=q, mode=1, cost=10) for d,e in((1,1),(2,1),(1,2),(2,2),(3,2),(2,3)) for p,q in ((1,1),(11,0),(0,11),(2,0))],
  'degrees 1-5 in each direction, up to two interior knots per direction at symbolic positions and up to 20 at fixed ones, every (u,v) in the unit square', NURBS)
C('P10', [J('surface_ops', du=d,dv=e, pu=p,pv=q, ops=o) for d,e in((1,1),(2,1),(1,2),(2,2)) for p,q in ((0,0),(1,0),(0,1)) for o in (1,2,3,4)] + [J('surface_ops', du=d,dv=e, pu=0,pv=0, ops=o, inner=1) for d,e in ((1,2),(2,1)) for o in (12,21,34,43,13,42)] + [J('surface_ops', du=3,dv=2, pu=0,pv=1, ops=o) for o in (1,2,3,4)] + [J('surface_ops', du=2,dv=1, pu=1,pv=0, ops=1, pre=1), J('surface_ops', du=1,dv=2, pu=0,pv=1, ops=2, pre=1), J('surface_ops', du=1,dv=1, pu=1,pv=1, ops=3, pre=1), J('surface_ops', du=1,dv=1, pu=1,pv=1, ops=4, pre=1)]
  + [J('surface_ops', du=d, dv=e, pu=p, pv=q, ops=o, cost=3) for d,e,p,q,o in ((4,1,0,1,1),(1,4,0,1,4),(1,5,1,0,2),(4,2,1,0,3),(2,1,-6,0,1),(1,2,0,-9,4),(2,1,-9,0,3),(1,1,0,-8,2))] + [J('surface_ops', du=d, dv=e, pu=1, pv=1, mode=1, ops=o, cost=5) for d,e in ((1,2),(2,2)) for o in (1,2,3,4)],
  [J('surface_ops', du=d,dv=e, pu=p,pv=q, mode=1, ops=o, cost=10) for d,e in((1,1),(2,1),(1,2),(2,2),(3,1),(1,3)) for p,q in ((1,1),(11,0),(0,11)) for o in (1,2,3,4)] + [J('surface_ops', du=1,dv=1, pu=0,pv=0, ops=o, inner=1, cost=20) for o in (1212,3434,1342,4321)],
  'degrees 1-5 in each direction (3 and more are not elevated), one interior knot at a symbolic position or up to 9 at fixed ones, histories of up to 2 operations (thorough 4), evaluated before and after', NURBS)
C('P11', [J('surface_sweep', deg=d,pat=p,mode=1,kind=k,closed=c) for d in (1,2,3) for p in (0,1) for k in (0,1) for c in (0,1) if p or not c]
  + [J('surface_sweep', deg=d, pat=p, mode=m, kind=k, closed=c, cost=3) for d,p,m in ((4,1,1),(5,0,1),(2,-12,0),(1,-20,2),(2,11,1),(3,2,1)) for k in (0,1) for c in (0,1) if c==0 or p],
  [J('surface_sweep', deg=d,pat=p,mode=1,kind=k,closed=c, cost=5) for d in (1,2,3) for p in (11,2,111) for k in (0,1) for c in (0,1) if not(d==1 and p==2)],
  'profile degrees 1-5, up to two interior knots (thorough 3) at symbolic positions or 20 at fixed ones, open and closed profiles, every (u,v)', NURBS)
C('P12', [J('revolve', deg=d,pat=p,quarter=q) for d in (1,2,3) for p in (0,1) for q in (0,1,2,3)] + [J('revolve', deg=d,pat=1,quarter=q,closed=1) for d in (1,2) for q in (0,2)]
  + [J('revolve', deg=1, pat=p, mode=2, quarter=q, cost=3) for p in (11,-8) for q in (0,1,2,3)] + [J('revolve', deg=2, pat=11, mode=0, quarter=0, cost=3)],
  [J('revolve', deg=d,pat=p,mode=1,quarter=q, cost=5) for d in (1,2,3) for p in (11,2,111) for q in (0,1,2,3) if not(d==1 and p==2)],
  'profile degrees 1-3, up to one interior knot (thorough 3), the four quarters of the turn, every (u,v)', NURBS)
MESH = ["vertex ids passed to the mesh exist (the documented precondition behind its asserts)"]
C('P16', [J('mesh_model', quad=1, time=60), J('mesh_model', quad=2), J('mesh_model', quad=3, time=60), J('mesh_model', ops=1), J('mesh_model', ops=2), J('mesh_model', ops=3, cost=10), J('mesh_bool', op=2), J('mesh_bool', op=2, ops=4)]
  + [J('mesh_bool', op=3, cost=5, time=200, opts=['--ilimit','900000000']), J('mesh_bool', op=3, n=300)], [J('mesh_model', ops=4, cost=50, time=3000), J('mesh_bool', op=2, ops=5, cost=5, time=600)],
  'every history of up to 3 edits (thorough 4) out of 9 kinds on a mesh of 4 vertices and 2 triangles, all coordinates and ids symbolic; tables of 70000 vertices and triangles with the last two symbolic', MESH)
C('P17', [J('mesh_copy', op=3, empty=1), J('mesh_copy', op=3, nt=0, empty=1)] + [J('mesh_copy', op=o) for o in range(7)] + [J('mesh_copy', op=o, nt=0) for o in (0,1,3,5)]
  + [J('mesh_copy', op=o, nt=40, nv=17, free=3) for o in range(7)] + [J('mesh_copy', op=o, nt=70000, nv=70000, free=1, sym=2, cost=5, time=200, opts=['--ilimit','900000000']) for o in (0,3,5)], [J('mesh_copy', op=o, nt=6) for o in range(7)],
  'source meshes of 5 vertices and up to 3 triangles (thorough 6), every subset of them unlinked, all coordinates and colours; meshes of 40 and 70000 triangles with a fixed pattern of unlinked ones', MESH)
C('P18', [J('mesh_split', op=o) for o in (0,1,2,3)] + [J('mesh_split', op=2, dir=1)], None,
  'two triangles sharing an edge plus a third one, every stored rotation and both mirror images, all coordinates; the split point anywhere on the edge', MESH)
C('P19', [J('mesh_factory', kind=k, pre=p) for k in range(5) for p in (0,1)] + [J('mesh_factory', kind=5, n=n) for n in (1,2,3)] + [J('mesh_factory', kind=6, n=n) for n in (1,2,3)] + [J('mesh_factory', kind=7, n=n) for n in (1,2,3)] + [J('mesh_factory', kind=8, n=1), J('mesh_factory', kind=8, n=2, ratio=30, cost=5)] + [J('mesh_factory', kind=k, n=1, pre=1) for k in (5,6,7)] + [J('mesh_factory', kind=8, n=1, pre=1, ratio=50)]
  + [J('mesh_factory', kind=5, n=n) for n in (4,5,7,8,16,20,33)] + [J('mesh_factory', kind=6, n=4, cost=9, time=300)] + [J('mesh_factory', kind=7, n=n, cost=3) for n in (4,5,8)] + [J('mesh_factory', kind=8, n=3, ratio=30, cost=3), J('mesh_factory', kind=8, n=5, ratio=30, cost=3), J('mesh_factory', kind=8, n=2, ratio=80)],
  [J('mesh_factory', kind=5, n=n) for n in (6,9,10,11,12,64)] + [J('mesh_factory', kind=6, n=n, cost=9, time=1200) for n in (5,6,8)] + [J('mesh_factory', kind=7, n=n, cost=9) for n in (6,12)] + [J('mesh_factory', kind=8, n=n, ratio=r, cost=20) for n in (2,3,4,8) for r in (30,80)],
  'all sizes in [2^-14,8]; subdivision counts up to 33 for the cylinder, 4 for the geodesic sphere, 8 for the uv sphere, 5 for the torus (thorough 64, 8, 12, 8); target mesh fresh or already filled', ['the engine reads sin and cos of the fixed subdivision angles as exact algebraic numbers where they are, otherwise as the nearest double with the stated tolerance'])
C('P20', [J('mesh_tess', n=n) for n in (1,2,3,4,5)]
  + [J('mesh_tess', n=n) for n in (6,7,8,12,30)], [J('mesh_tess', n=n) for n in (10,17,60)], 'subdivision 1-8, 12, 30 (thorough 60) of arbitrary triangles, an unlinked triangle in between', MESH)
C('P21', [J('mesh_util', op=0, nv=3, nt=1), J('mesh_util', op=0, nv=4, nt=2), J('mesh_util', op=0, nv=5, nt=3, cost=3), J('mesh_util', op=0, nv=4, nt=2, dim=2, cost=3), J('mesh_util', op=0, nv=4, nt=2, un=1), J('mesh_util', op=0, nv=3, nt=1, pos=0)] + [J('mesh_util', op=0, nv=3, nt=1, axis=a) for a in (1,2,3)] + [J('mesh_util', op=0, nv=2, nt=1, dim=3), J('mesh_util', op=0, nv=3, nt=1, dim=2), J('mesh_util', op=0, nv=4, nt=2, axis=2)] + [J('mesh_util', op=1, nv=4, nt=2, dim=d, un=u) for d in (1,3) for u in (0,1)] + [J('mesh_util', op=o, w=w, gh=h) for o in (2,3) for w,h in ((3,2),(2,4),(2,2),(4,3),(1,3),(5,1),(0,0))]
  + [J('mesh_util', op=o, w=w, gh=h) for o in (2,3) for w,h in ((20,17),(6,30),(60,50))] + [J('mesh_util', op=0, nv=70, nt=70, mid=1, tolc=1, cost=5), J('mesh_util', op=1, nv=100, nt=100, mid=2)],
  [J('mesh_util', op=0, nv=100, nt=100, mid=1, tolc=1, cost=8, time=600), J('mesh_util', op=0, nv=40, nt=40, mid=2, tolc=1, cost=8, time=600), J('mesh_util', op=0, nv=6, nt=3, cost=20), J('mesh_util', op=0, nv=5, nt=3, dim=2, cost=30)] + [J('mesh_util', op=1, nv=5, nt=4, dim=3)] + [J('mesh_util', op=o, w=w, gh=h) for o in (2,3) for w,h in ((6,5),(2,9))],
  'merging up to 5 vertices on a line or 4 in a plane (thorough 6 and 5) at any positions and tolerance, 4 triangles for the removal of short ones, grids up to 60 by 50', MESH)
C('P22', [J('mesh_measure', op=0, k=0), J('mesh_measure', op=0, k=1), J('mesh_measure', op=1), J('mesh_measure', op=2), J('mesh_measure', op=3, finding='F-closed'), J('mesh_measure', op=4)]
  + [J('mesh_measure', op=5, chg=c) for c in range(9)] + [J('mesh_measure', op=6, sym=s, n=n, miss=x) for s,n,x in ((1,12,-1),(0,20,39),(0,33,-1),(2,5,0))], None,
  'tetrahedra, double pyramids and pairs of triangles at arbitrary positions, with unlinked triangles among them; double pyramids over up to 33 corners with the tips and up to two corners anywhere; meshes measured, changed in nine ways and measured again', MESH)
BMPA = ["files live in the modelled file system (engine/shadow); byte order is little endian"]
_sz = [(1,1),(2,2),(3,2),(4,1),(5,3),(2,5),(257,1),(1,300)]
C('P01', [J('bmp', op=0, w=w, ht=h, pl=p, pw=q) for w,h in _sz for p,q in ((1,0),(3,3),(4,0))] + [J('bmp', op=0, w=3, ht=2, pl=2), J('bmp', op=0, w=3, ht=2, pl=5)] + [J('bmp', op=0, w=w, ht=h, pl=p, sparse=997) for w,h,p in ((33000,1,1),(11000,3,3),(2,33000,1),(300,280,1))],
  [J('bmp', op=0, w=w, ht=h, pl=p) for w in range(1,18) for h in (1,2,7) for p in (1,3,4)],
  'images of 1, 3 or 4 planes and sizes up to 5x3, 257x1, 1x300 (thorough every width to 17), every pixel value; four sizes beyond 32768 and 65536 bytes or lines with every 997th byte symbolic', BMPA)
C('P02', [J('bmp', op=1, w=w, ht=h, pl=p) for w,h in _sz[:6] for p in (1,3,4)] + [J('bmp', op=1, w=w, ht=2, pl=p, nolast=1) for w,p in ((1,3),(2,3),(3,1))] + [J('bmp', op=2, n=n, pw=q) for n,q in ((1,0),(2,2),(17,0),(53,2),(60,2),(64,0))] + [J('bmp', op=2, n=80, cost=5), J('bmp', op=2, n=70, pw=2, bpp=24), J('bmp', op=2, n=80, bpp=32, cost=3), J('bmp', op=2, n=1090, bpp=8, cost=3), J('bmp', op=2, n=70, magic=0, cost=3)] + [J('bmp', op=3, pw=2), J('bmp', op=3, pl=1), J('bmp', op=3, pl=4, w=2, ht=2, pw=2)],
  [J('bmp', op=2, n=120, cost=9), J('bmp', op=2, n=1120, bpp=8, cost=9), J('bmp', op=2, n=110, bpp=32, cost=9), J('bmp', op=3, w=5, ht=4, pl=3), J('bmp', op=3, w=6, ht=3, pl=1)],
  'well-formed 8, 24 and 32 bit files up to 5x3 pixels with every unused header byte and pixel symbolic; arbitrary files of up to 80 bytes after the signature (thorough 120; 1090 for 8 bit) with every byte symbolic; every truncation of a 3x2 file', BMPA)
C('P29', [J('image', op=0, w=w, ht=h, pl=p, via=v) for w,h,p in ((3,2,3),(2,4,1),(1,3,4)) for v in (0,1)] + [J('image', op=1, w2=a, h2=b, p2=c) for a,b,c in ((2,5,1),(0,0,1),(4,4,4),(1,9,3))] + [J('image', op=2, w=3, ht=2), J('image', op=2, pl=4, w=2, ht=3, w2=9), J('image', op=3, w=1, ht=2, pl=2), J('image', op=3, w=1, ht=1, pl=1, wide=1), J('image', op=3, w=2, ht=1, pl=1), J('image', op=4, pl=1), J('image', op=4, pl=1, w=2, ht=4, pre=30), J('image', op=4, pl=3), J('image', op=4, pl=1, w=1, ht=1, wide=1)] + [J('image', op=5, w=5, ht=7), J('image', op=5, w=8, ht=2), J('image', op=6, w=4, ht=3, opts=['--ieee']), J('image', op=6, w=3, ht=5, it=20, opts=['--ieee'])]
  + [J('image', op=0, w=17, ht=9, pl=3), J('image', op=0, w=300, ht=2, pl=1, cost=3), J('image', op=2, w=7, ht=6), J('image', op=5, w=40, ht=30), J('image', op=1, w2=300, h2=7, p2=3), J('image', op=6, w=20, ht=10, it=40, opts=['--ieee']), J('image', op=6, w=31, ht=40, it=12, opts=['--ieee'])],
  [J('image', op=2, w=7, ht=6), J('image', op=0, w=7, ht=6, pl=4), J('image', op=5, w=40, ht=30), J('image', op=6, w=20, ht=10, it=40, opts=['--ieee'])],
  'images up to 17x9 and 300x2 (generators and resizing up to 40x30), every pixel value; scale factors are multiples of 1/4 up to 5')
IOA = ["files live in the modelled file system; formatted numbers are opaque tokens that keep their exact value (the precision they are printed with is checked to be at least 6 digits)"]
C('P03', [J('mesh_io', op=0), J('mesh_io', op=0, pre=0, nv=3, nt=1), J('mesh_io', op=0, nt=0)] + [J('mesh_io', op=1, k=k) for k in (0,1,2,3)] + [J('mesh_io', op=1, extra=7), J('mesh_io', op=1, cut=1), J('mesh_io', op=1, cut=1, k=1), J('mesh_io', op=2), J('mesh_io', op=2, extra=30, k=1), J('mesh_io', op=2, k=0), J('mesh_io', op=8, nv=12, nt=66000, cost=5, time=200, opts=['--ilimit','400000000'])],
  [J('mesh_io', op=0, nv=9, nt=7, cost=5), J('mesh_io', op=1, k=9), J('mesh_io', op=1, cut=1, k=6, cost=5), J('mesh_io', op=2, k=6)],
  'meshes of up to 3 triangles (thorough 9), every subset of them unlinked, all coordinates; files with every header, normal and attribute byte symbolic, every 32 bit facet count and every truncation point; one file of 66000 facets with three symbolic vertices', IOA)
C('P04', [J('mesh_io', op=3), J('mesh_io', op=3, col=1), J('mesh_io', op=3, nt=0, pre=0)] + [J('mesh_io', op=4, seq=s) for s in (1,121,313,21,123,2,81,118,1928,283)] + [J('mesh_io', op=5), J('mesh_io', op=6), J('mesh_io', op=7, n=3), J('mesh_io', op=7, n=4, cost=3), J('mesh_io', op=9, nv=66000, nt=2000, cost=4, time=200, opts=['--ilimit','400000000']), J('mesh_io', op=9, nv=12, nt=33100, cost=4, time=200, opts=['--ilimit','400000000']), J('mesh_io', op=4, seq=121, again=1), J('mesh_io', op=4, seq=31, again=1)],
  [J('mesh_io', op=3, nv=9, nt=7, cost=5), J('mesh_io', op=4, seq=14131, cost=5), J('mesh_io', op=7, n=5, cost=60, time=1500)],
  'meshes of up to 3 triangles (thorough 7), files of up to 3 parts, every face index from -2 to 5, every text of up to 4 characters (thorough 5) out of "vf 13-/." and newline after three vertices; files of 66000 vertices and 33100 triangles with three symbolic vertices', IOA)
C('P05', [J('step', du=d, dv=e, pu=p, pv=q, mode=m) for d,e,p,q,m in ((2,1,0,0,0),(1,3,1,2,1),(3,1,11,0,1),(2,2,2,2,1),(1,1,0,1,1),(3,2,3,1,0))] + [J('step', seq=s, how=h) for s,h in ((3,0),(21,0),(13,1),(2,2),(0,0),(232,2))] + [J('step', du=1, dv=3, pu=1, pv=11, mode=3), J('step', du=3, dv=1, pu=11, pv=2, mode=3)]
  + [J('step', du=5, dv=4, pu=1, pv=11, mode=1), J('step', du=2, dv=1, pu=-12, pv=-20, mode=1, cost=3), J('step', du=1, dv=3, pu=-30, pv=0, mode=1)],
  [J('step', du=d, dv=e, pu=p, pv=q, mode=1, cost=3) for d in (1,2,3) for e in (1,2,3) for p,q in ((1,11),(111,1))] + [J('step', seq=s, how=2, cost=3) for s in (123123,)],
  'surfaces of degree 1-5 with up to two interior knots per direction (thorough 3) of any multiplicity, or up to 30 single ones, all values symbolic, files of up to 4 surfaces and solids', IOA)
F4 = range(4)
C('P13', [J('nurbs_factory', kind=k, qu=q) for k in (0,1,4) for q in F4] + [J('nurbs_factory', kind=k, qu=q, qv=r) for k in (2,6) for q in F4 for r in (0,1)] + [J('nurbs_factory', kind=3), J('nurbs_factory', kind=5)] + [J('nurbs_factory', kind=k) for k in (7,8,9)] + [J('nurbs_factory', kind=10, deg=d, n=n) for d,n in ((1,2),(1,5),(2,3),(2,4),(3,4),(3,6))]
  + [J('nurbs_factory', kind=10, deg=d, n=n, cost=3) for d,n in ((1,20),(2,12),(3,14),(3,9))],
  [J('nurbs_factory', kind=10, deg=d, n=n, cost=3) for d in (1,2,3) for n in (7,9)] + [J('nurbs_factory', kind=k) for k in (0,1,2,4,6)],
  'all sizes in [2^-14,8] and corner points in [-4,4], every parameter; curves through up to 20 points, degrees 1-3')
C('P14', [J('nurbs_util', op=0, du=d, dv=e, pu=p, pv=q, seg=s) for d,e,p,q,s in ((1,2,0,0,1),(2,1,1,0,2),(2,2,0,0,3),(3,1,0,1,1),(1,1,0,0,4))] + [J('nurbs_util', op=1, seg=s) for s in (1,2)] + [J('nurbs_util', op=2, du=d, dv=e, opts=['--over','--qt','500']) for d,e in ((1,1),(1,2),(2,1))] + [J('nurbs_util', op=3, w=w, gh=h, deg=d) for w,h,d in ((3,2,1),(4,5,3),(5,2,1),(3,3,2),(2,4,1))] + [J('nurbs_util', op=4), J('nurbs_util', op=4, nt=0)] + [J('nurbs_util', op=5, seg=s) for s in (1,2)] + [J('nurbs_util', op=6)]
  + [J('nurbs_util', op=0, du=4, dv=1, pu=0, pv=1, seg=2), J('nurbs_util', op=0, du=1, dv=2, pu=-3, pv=0, seg=3, cost=3), J('nurbs_util', op=3, w=12, gh=9, deg=3), J('nurbs_util', op=3, w=5, gh=17, deg=2), J('nurbs_util', op=4, nt=30, free=2)],
  [J('nurbs_util', op=0, du=3, dv=2, pu=1, pv=1, seg=3, cost=9), J('nurbs_util', op=1, seg=4, cost=9), J('nurbs_util', op=2, du=2, dv=2, opts=['--over','--qt','500'], cost=5), J('nurbs_util', op=3, w=7, gh=9, deg=3), J('nurbs_util', op=4, nt=7, cost=5), J('nurbs_util', op=5, seg=4, cost=5)],
  'surfaces of degree 1-3 with up to one interior knot, 1-4 segments per control point, both closed flags, fresh or filled meshes; height grids up to 12x9 and 5x17, meshes of up to 3 triangles with any of them unlinked (thorough 7; 30 with a fixed pattern)', NURBS)
C('P15', [J('curve_misc', op=0, surf=s, deg=d, pat=p) for s in (0,1,2) for d,p in ((2,11),(1,21),(3,0))] + [J('curve_misc', op=1, deg=d, n=n, old=o) for d,n,o in ((1,2,0),(2,5,5),(3,6,9),(2,3,2))] + [J('curve_misc', op=1, surf=1, deg=d, dv=e, n=n, m=m, old=o) for d,e,n,m,o in ((2,1,5,4,20),(3,2,4,6,3),(1,3,2,4,0))] + [J('curve_misc', op=2), J('curve_misc', op=2, surf=1), J('curve_misc', op=2, d1=1, deg=3, pat=0)] + [J('curve_misc', op=3, deg=d, pat=p, rat=r, step=s, opts=['--ieee']) for d,p,r,s in ((2,11,0,3),(1,0,1,3),(3,11,0,7),(1,11,0,5),(2,111,0,9),(1,1,1,3))] + [J('curve_misc', op=4, n=n, tol=t) for n,t in ((3,0),(3,1),(1,0),(2,1))] + [J('curve_misc', op=5, deg=d, pat=p) for d,p in ((1,0),(2,11),(3,121))] + [J('curve_misc', op=6, chg=c, surf=s, deg=2, pat=1) for c in range(10) for s in (0,1)] + [J('curve_misc', op=6, chg=c, deg=2, pat=1, poly=1, mode=0) for c in (0,1,2,3,4,5,7)]
  + [J('curve_misc', op=0, deg=5, pat=11), J('curve_misc', op=1, deg=4, n=9), J('curve_misc', op=1, deg=2, n=30, old=3), J('curve_misc', op=1, surf=1, deg=2, dv=4, n=17, m=9, old=4), J('curve_misc', op=5, deg=2, pat=-30, cost=3), J('curve_misc', op=4, n=8), J('curve_misc', op=3, deg=2, pat=-20, step=9, opts=['--ieee'])],
  [J('curve_misc', op=3, deg=d, pat=p, step=13, opts=['--ieee'], cost=3) for d in (1,2,3) for p in (1111,11111)] + [J('curve_misc', op=5, deg=3, pat=1212)],
  'degrees 1-5, up to 3 interior knots (30 at fixed positions), up to 30 points per direction; any knot interval in [-8,8]', ['the polyline job runs concrete parameters in IEEE arithmetic'])
C('P23', [J('transform', op=o) for o in range(6)] + [J('transform', op=o, ang=a, ax=x) for o,a,x in ((0,30,1),(0,-135,3),(1,120,2),(1,90,1),(2,-45,3),(2,200,2))] + [J('transform', op=o, ax=x) for o in (0,1,2,4,5) for x in (1,4,5,6)],
  [J('transform', op=o, ang=a, ax=x) for o in (0,1,2) for a in (-270,-60,15,45,180,359) for x in (1,2,3)],
  'every angle, every unit axis (given by two angles) and every point; concrete angles and axes tie the unit to degrees', ['sine and cosine of a symbolic angle are any point of the unit circle, with the parity and double-angle identities'])
C('P24', [J('transform_all', op=0), J('transform_all', op=1), J('transform_all', op=1, n=0), J('transform_all', op=1, n=9), J('transform_all', op=2), J('transform_all', op=2, nt=0), J('transform_all', op=2, n=0, nt=0), J('transform_all', op=2, n=6, nt=4), J('transform_all', op=3), J('transform_all', op=3, du=1, dv=3, pu=0, pv=11), J('transform_all', op=4), J('transform_all', op=4, k=3), J('transform_all', op=5), J('transform_all', op=5, du=1, dv=2, pu=0, pv=1)]
  + [J('transform_all', op=1, n=60), J('transform_all', op=2, n=40, nt=40, free=2), J('transform_all', op=3, du=4, dv=2, pu=11, pv=-5)],
  [J('transform_all', op=2, n=8, nt=8), J('transform_all', op=4, k=4, cost=3), J('transform_all', op=5, du=3, dv=3, pu=1, pv=1, cost=5)],
  'every affine map (12 symbolic coefficients) on up to 60 points, meshes of up to 4 triangles (40 with a fixed pattern of unlinked ones), surfaces of degree 1-3 and solids of up to 3 surfaces', NURBS)
C('P25', [J('geometry', op=0), J('geometry', op=1), J('geometry', op=1, flat=1), J('geometry', op=2, k=5), J('geometry', op=3, k=5), J('geometry', op=7, k=5), J('geometry', op=11)] + [J('geometry', op=4, k=k) for k in (0,1,2,3,4,6)] + [J('geometry', op=5, k=k) for k in (0,1,2,3,4,6)] + [J('geometry', op=6, k=k) for k in range(4)] + [J('geometry', op=8, k=k) for k in range(5)] + [J('geometry', op=9, k=k) for k in (0,1,2,4)] + [J('geometry', op=13, k=0, which=0), J('geometry', op=13, k=2, which=1), J('geometry', op=13, k=0, which=2)] + [J('geometry', op=14, k=k, k2=l, flip=f, tilt=x) for k,l,f,x in ((0,1,0,0),(1,2,0,0),(2,2,0,0),(2,2,1,0),(3,4,1,0),(0,1,0,1),(4,2,0,1))] + [J('geometry', op=12, k=k, dir=d) for k,d in ((0,1),(1,2),(2,2),(2,3),(3,0),(4,1))]
  + [J('geometry', op=o, k=k, sc=z) for z in (20,-20) for o,k in ((0,0),(1,0),(2,5),(3,5),(7,5),(4,1),(4,6),(5,1),(5,4),(6,0),(6,1),(6,2),(6,3),(8,0),(8,2),(9,1),(9,2))] + [J('geometry', op=12, k=1, dir=2, sc=20), J('geometry', op=14, k=1, k2=2, flip=1, tilt=1, sc=20)],
  [J('geometry', op=9, k=3, cost=5)] + [J('geometry', op=12, k=k, dir=d, cost=3) for k in range(5) for d in range(4)],
  'every vector; triangles, planes and their measures fully symbolic; the predicates against five fixed triangles in general position (and any horizontal one) with everything else symbolic; crossing lines in four pairs of directions; coordinates up to 4, and the same scenes a million times smaller and larger')
C('P26', [J('geometry', op=10, n=n, m=m) for n,m in ((1,1),(1,2),(2,1),(3,1),(1,3))] + [J('geometry', op=10, n=2, m=2, cost=5), J('geometry', op=10, n=2, m=1, mix=1)], [J('geometry', op=10, n=3, m=2, cost=20, time=1500), J('geometry', op=10, n=4, m=1, cost=10)],
  'boxes of up to 3 points, 4 points in total (thorough 5), every coordinate')
C('P27', [J('patch', op=o) for o in (0,1,2)] + [J('patch', op=3, n=n) for n in (1,2,3,4,5,6)] + [J('patch', op=4), J('patch', op=5), J('patch', op=0, reuse=1), J('patch', op=1, reuse=1), J('patch', op=3, n=2, rat=0, reuse=1)]
  + [J('patch', op=3, n=n) for n in (8,15)], [J('patch', op=3, n=n) for n in (11,23)],
  'every control point, weight in [1/4,4] and parameter; meshes of 1 to 8 and 15 segments (thorough 23); every triple of unit normals')
C('P28', [J('patch', op=6, h=h) for h in range(4)] + [J('patch', op=7, k=k) for k in (3,4,5)] + [J('patch', op=8, kind=k, n=n) for k in range(6) for n in (1,2) if (k,n)!=(3,2)] + [J('patch', op=8, kind=3, n=2, cost=5), J('patch', op=8, kind=5, n=3), J('patch', op=8, kind=0, n=4)]
  + [J('patch', op=8, kind=0, n=7, cost=3)],
  [J('patch', op=8, kind=k, n=n, cost=5) for k in (0,1,2,4,5) for n in (3,4,5)] + [J('patch', op=6, h=3, n=5)],
  'smooth meshes of two patches, polygons of 3 to 5 corners, factory shapes of every size in [2^-14,8] with 1 or 2 segments (thorough 5)')
C('P33', [J('face_solid', op=0), J('face_solid', op=1)], None, 'meshes of up to 4 vertices and 2 triangles, every coordinate and colour')

C('P30', [J('render', op=1, k=k, time=60) for k in range(12)] + [J('render', op=4, k=k) for k in range(8)] + [J('render', op=4, k=3, poly=1), J('render', op=0), J('render', op=5), J('render', op=1, k=2, w=1, ht=1), J('render', op=4, k=0, w=1, ht=7), J('render', op=1, k=3, w=7, ht=1)]
  + [J('render', op=4, k=3, w=40, ht=30, ext=3, cost=4), J('render', op=4, k=5, w=20, ht=20, ext=12, poly=1, cost=3)],
  [J('render', op=1, k=k, w=8, ht=7, ext=6, time=600, cost=5) for k in range(12)] + [J('render', op=4, k=k, w=9, ht=8, ext=12, cost=3) for k in range(8)],
  'screens of 6x5 (also 1x1, 7x1, 1x7; lines on 40x30; thorough 9x8); two corners from twelve pairs up to 70000 pixels off the screen, the third on or up to 3 pixels (thorough 12) off it; every depth in [1/4,8]',
  ['vertices are on pixel centres for triangles and lines; the projection itself is decided for every real position in P32'])
C('P31', [J('render', op=10, n=n) for n in (1,2,3)] + [J('render', op=9, k=k, free=1) for k in (0,1,3,5)] + [J('render', op=2, k=k, w=4, ht=3, ext=1, first=f, time=60) for k in (0,1,3) for f in (0,1)] + [J('render', op=2, k=k, w=4, ht=h, ext=1, vx=x, first=f, time=60) for k,x,h,f in ((12,1,3,0),(12,30,3,1),(15,1,3,0),(16,2,2,0),(17,30,3,1),(13,25,2,1),(14,30,2,1))] + [J('render', op=12, k=k, first=f, time=60) for k in (0,1,5) for f in (0,1)] + [J('render', op=7), J('render', op=7, edges=1)],
  [J('render', op=2, k=k, w=4, ht=3, ext=2, time=600, cost=5) for k in range(8)] + [J('render', op=9, k=k, free=1, time=300) for k in range(8)] + [J('render', op=12, k=k, w=8, ht=7, time=400, cost=4) for k in range(8)] + [J('render', op=10, n=4, time=200)],
  'screens of 4x3 and 6x5; two corners from eight pairs, the third on or up to 3 pixels off the screen; every depth; both drawing orders; up to 3 points on one pixel (thorough 4)')
C('P32', [J('render', op=8), J('render', op=11, axis=0), J('render', op=11, axis=1, sw=4, sh=7), J('render', op=0), J('render', op=6, na=1, nd=0, col=0x800000, lc=0xff0000), J('render', op=6, na=0, nd=1, col=0x008000, lc=0x00ff00, time=60), J('render', op=6, na=2, nd=0, col=0x80, lc=0xff), J('render', op=6, na=1, nd=0, lo=30, hi=31), J('render', op=6, na=0, nd=1, lo=15, hi=16), J('render', op=6, na=1, nd=1, lo=15, hi=16), J('render', op=6, na=2, nd=0, lo=15, hi=16), J('render', op=6, na=0, nd=0), J('render', op=6, na=5, nd=0, lo=15, hi=16, lc=0x100000, c2=0x800000), J('render', op=6, na=0, nd=5, lo=15, hi=16, lc=0x100000, c2=0x100000, col=0x800000, cost=3), J('render', op=6, na=3, nd=3, lo=15, hi=16, lc=0x100000, c2=0x100000, col=0x800000)],
  [J('render', op=6, na=a, nd=d, lo=lo, hi=lo+2, time=300) for a in (0,1,2) for d in (0,1) if a+d for lo in (0,8,20,40)] + [J('render', op=11, axis=a, sw=s, sh=h) for a in (0,1) for s in (1,8,9) for h in (1,6,7)],
  'every camera position and angle; every point in front with a projection up to 3 zoom factors off the centre; up to two ambient and one diffuse light (or up to six lights of one channel) of strength up to 2 (in narrow strength ranges for several channels at once)')

Q5 = ['--qt', '500']
C('P34', [J('mesh_bool', op=0, q=q, k=k, nz=z, opts=Q5) for q,k,z in ((0,0,3),(1,1,2),(2,2,2),(3,3,1),(4,0,3),(0,2,2),(5,0,2))] + [J('mesh_bool', op=0, q=4, un=1), J('mesh_bool', op=0, twice=1, opts=Q5), J('mesh_bool', op=0, twice=1, q=4, q2=3, opts=Q5)] + [J('mesh_bool', op=1, nb=b, q=q, nz=z, pre=p, opts=Q5, time=60) for b,q,z,p in ((2,0,1,0),(1,0,2,1),(1,1,2,0),(2,3,1,0),(2,2,1,1))] + [J('mesh_bool', op=1, nb=b, na=a, q=q, nz=1, opts=Q5, time=60) for b,a,q in ((1,2,0),(1,3,4))],
  [J('mesh_bool', op=0, q=q, k=k, opts=Q5, time=600, cost=4) for q in range(6) for k in range(4)] + [J('mesh_bool', op=0, q=1, k=1, nz=1, sh=1, opts=Q5, time=600)] + [J('mesh_bool', op=1, nb=3, q=q, nz=1, opts=Q5, time=600, cost=6) for q in (0,2,4)],
  'four fixed triangles cut by triangles of six outlines with one to three arbitrary heights; one triangle against meshes of up to 2 (thorough 3) triangles')

C('P35', [J('kernel', kind=k, ops=o) for k in (0,1) for o in (3,4)] + [J('kernel', kind=2, ops=6)] + [J('kernel', kind=k, ops=2, n=n) for k in (0,1) for n in (5,40)] + [J('kernel', kind=k, ops=1, n=70000, cost=5, time=200, opts=['--ilimit','900000000']) for k in (0,1,2)],
  [J('kernel', kind=k, ops=5, cost=5, time=900) for k in (0,1)] + [J('kernel', kind=2, ops=8)] + [J('kernel', kind=k, ops=3, n=n, cost=5, time=900) for k in (0,1) for n in (7,100)],
  'every history of up to 4 edits (thorough 5) out of 5 kinds from an empty kernel, of 2 edits from a filled one, all coordinates and ids symbolic; tables of 70000 vertices and triangles', ['vertex and triangle ids passed to the kernel exist (the documented precondition behind its asserts)'])
C('P36', [J('random_axis'), J('random_axis', dir=1), J('random_axis', **{'def':1})], None,
  'every seed in [-10^6,10^6], draws between -9 and 9 standard deviations, three calls in a row', ["the draws of the standard generator are modelled as arbitrary values that depend on the seed and their rank alone (engine/shadow/random); the replay uses the real generator and, for a reported violation, looks for a real seed among 200000"])

# the same claims on scenes scaled by 2^20 and 2^-20 (lengths below an absolute threshold, or far above it) and with weights in [2^-20,2^20]
def scaled(pid, note, js, bigs=(20,-20)):
    CHECKS[pid]['quick'] = CHECKS[pid]['quick'] + [dict(j, params=dict(j['params'], big=b)) for j in js for b in bigs]
    CHECKS[pid]['thorough'] = CHECKS[pid]['thorough'] + [dict(j, params=dict(j['params'], big=b)) for j in js for b in bigs + tuple(5*x//4 for x in bigs)]
    CHECKS[pid]['bounds'] += '; ' + note
_S = 'some of the jobs also with all lengths scaled by 2^20 and 2^-20'
_SW = _S + ' and weights in [2^-20,2^20]'
scaled('P06', _SW, [J('curve_eval', deg=d, pat=p, mode=1, ww=20) for d,p in ((1,11),(2,1),(3,2),(4,0))])
scaled('P07', _SW, [J('curve_ops', deg=d, pat=p, mode=1, ops=o, ww=20) for d,p,o in ((2,1,1),(3,1,1),(1,1,11),(2,0,12))])
scaled('P08', _SW, [J('curve_ops', deg=d, pat=p, mode=1, ops=o, ww=20) for d,p,o in ((2,1,2),(2,2,2),(1,1,22),(3,1,2))])
scaled('P09', _SW, [J('surface_eval', du=d, dv=e, pu=p, pv=q, ww=20) for d,e,p,q in ((2,1,1,0),(1,2,0,1),(3,2,0,0))])
scaled('P10', _SW, [J('surface_ops', du=d, dv=e, ops=o, ww=20) for d,e,o in ((2,1,13),(1,2,24),(2,1,3),(1,2,2))])
scaled('P11', _SW, [J('surface_sweep', deg=2, pat=1, kind=k, closed=2, ww=20) for k in (0,1)])
CHECKS['P11']['quick'] += [J('surface_sweep', deg=d, pat=1, kind=k, closed=2) for k in (0,1) for d in (1,3)]
scaled('P12', _SW, [J('revolve', deg=d, pat=1, quarter=q, closed=2, ww=20) for d,q in ((1,0),(2,3))])
CHECKS['P12']['quick'] += [J('revolve', deg=d, pat=1, quarter=1, closed=2) for d in (1,2)]
scaled('P13', 'some of the jobs also with all lengths scaled by 2^20 and 2^-5 (shorter than the closing tolerance of 1e-6 is outside the claim)', [J('nurbs_factory', kind=k, qu=0, qv=0) for k in (0,1,2,4,6,9)], (20,-5))
scaled('P13', 'tori and patches scaled by 2^20', [J('nurbs_factory', kind=k, qu=0, qv=0) for k in (3,5,7,8,10)], (20,))
scaled('P14', _SW, [J('nurbs_util', op=0, ww=20), J('nurbs_util', op=1, ww=20), J('nurbs_util', op=3), J('nurbs_util', op=4)])
scaled('P15', _SW, [J('curve_misc', op=2, ww=20), J('curve_misc', op=4), J('curve_misc', op=4, tol=1), J('curve_misc', op=2, surf=1, ww=20), J('curve_misc', op=6, chg=2, deg=2, pat=1, ww=20)])
scaled('P16', _S, [J('mesh_model', quad=1, time=60), J('mesh_model', ops=1), J('mesh_model', ops=2)])
scaled('P17', _S, [J('mesh_copy', op=o) for o in (0,1,2,3)])
scaled('P18', _S, [J('mesh_split', op=o) for o in (0,1,2,3)])
scaled('P19', _S, [J('mesh_factory', kind=k) for k in (0,1,2,3,4)] + [J('mesh_factory', kind=k, n=2) for k in (5,6,7)] + [J('mesh_factory', kind=8, n=3, ratio=30)])
scaled('P20', _S, [J('mesh_tess', n=3)])
scaled('P21', _S, [J('mesh_util', op=0), J('mesh_util', op=0, dim=2), J('mesh_util', op=1), J('mesh_util', op=2), J('mesh_util', op=3)])
scaled('P22', _S, [J('mesh_measure', op=0, k=0), J('mesh_measure', op=1), J('mesh_measure', op=2)])
scaled('P23', _S, [J('transform', op=o) for o in (0,1,2,3,4)])
scaled('P24', _SW, [J('transform_all', op=0), J('transform_all', op=1), J('transform_all', op=2), J('transform_all', op=4, ww=20)])
scaled('P26', _S, [J('geometry', op=10, n=2, m=1)])
scaled('P27', _SW, [J('patch', op=o, ww=20) for o in (0,1,2,3,5)])
scaled('P28', _S, [J('patch', op=6), J('patch', op=7, k=5)] + [J('patch', op=8, kind=k, n=1) for k in range(6)])
scaled('P03', _S, [J('mesh_io', op=0)])
scaled('P04', _S, [J('mesh_io', op=3)])
scaled('P33', _S, [J('face_solid', op=0)])
scaled('P32', _S, [J('render', op=8), J('render', op=11, axis=0), J('render', op=11, axis=1)])
scaled('P34', _S, [J('mesh_bool', op=0, q=q, k=k, nz=2, opts=Q5) for q,k in ((0,0),(1,1),(4,2))] + [J('mesh_bool', op=1, nb=1, q=1, nz=1, opts=Q5)])
scaled('P35', _S, [J('kernel', kind=k, ops=3) for k in (0,1,2)])
