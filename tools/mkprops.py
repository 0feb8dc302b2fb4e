import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=files[0])])))
I='src/pyqcstrc/ico2/'; D='src/pyqcstrc/dode2/'
p('A01','Golden-ratio arithmetic is exact and returned in lowest terms',
 'For any two numbers (a+b*tau)/c, the icosahedral package\'s sum, difference, product and quotient equal the exact values in Q(sqrt 5), as long as operands and result fit in 64-bit integers. Every result is in lowest terms with a positive denominator (zero is 0/1), whatever common factors or denominator signs the operands carry, and dividing by zero yields no number instead of a wrong one.',
 ['inputs'],'all pairs of integer triples whose products fit in int64, including negative and non-reduced denominators, zeros and purely rational or purely irrational operands',
 'the self-check samples 20 small random pairs with positive denominators, compares with tolerance 1e-3 in floating point, and never looks at the canonical form that equality tests elsewhere rely on',
 [I+'math1.py'],'add/mul/sub/div combine integer components and divide by the gcd, then fix the sign of the denominator')
p('A02','Sqrt(3)/2 arithmetic is exact and returned in lowest terms',
 'For any two numbers (a+b*sqrt(3)/2)/c, the dodecagonal package\'s sum, difference, product and quotient equal the exact values in Q(sqrt 3), as long as operands and result fit in 64-bit integers. Every result is in lowest terms with a positive denominator (zero is 0/1), whatever common factors or denominator signs the operands carry, and dividing by zero yields no number instead of a wrong one.',
 ['inputs'],'all pairs of integer triples whose products fit in int64, including negative and non-reduced denominators, zeros and purely rational or purely irrational operands',
 'the self-check samples 20 small random pairs with positive denominators at tolerance 1e-3',
 [D+'math1.py'],'add/mul/sub/div combine integer components (with 4*s^2=3) and divide by the gcd, then fix the sign of the denominator')
p('A03','Vector, matrix and centroid algebra is exact in both packages',
 'Sums, differences and scalar multiples of vectors and of sets of vectors, inner and cross products, matrix-vector and matrix-matrix products (including integer matrix times exact vector or matrix), 3x3 determinants, integer matrix powers, centroids and midpoints equal the exact algebraic results componentwise, with every component in lowest terms. Inner and matrix products of mismatching shape yield no result rather than a wrong one.',
 ['inputs'],'all vectors/matrices of exact numbers of every supported shape, both packages',
 'the module self-checks add 0 to the failure counter on a mismatch, so they pass whatever the functions return; matrix products, determinants, centroids are not exercised',
 [I+'math1.py',D+'math1.py',I+'utils.py',D+'utils.py'],'loops over components calling the scalar operations; index pairing decides which components meet')
p('A04','Projections are exact, and floating-point views agree with the exact ones',
 'The parallel- and perpendicular-space projections of a 6D vector are the fixed linear maps of the icosahedral and dodecagonal settings, evaluated exactly; the icosahedral 6D perpendicular projector is idempotent and leaves the perpendicular component unchanged. Every floating-point counterpart (values, vectors, sets, projections, lengths, distances, areas, volumes) agrees with the exact value to rounding accuracy.',
 ['inputs'],'all 6D vectors with exact components, both packages, single vectors and sets',
 'no assertion on projections exists; a wrong sign or coefficient for one of six axes only shows for vectors with a component along it',
 [I+'math1.py',I+'numericalc.py',I+'intsct.py',D+'math1.py',D+'numericalc.py',D+'intsct.py'],'mtrixcal with constant rows vs hand-expanded float formulas in numericalc')
p('S01','Icosahedral operations are the full 120-element group, exact about any site',
 'The symmetry operations are 120 distinct integer matrices, closed under product and inverse, containing identity and inversion, each acting as an orthogonal map on both parallel and perpendicular space. Applying an operation to a vector, a set of vectors or a domain about any centre gives exactly the rotated coordinates, with the centre left fixed.',
 ['inputs'],'all 120 operations, all centres, all vectors / vector sets / domains',
 'the self-check compares against the same matrices it tests, only about the origin',
 [I+'symmetry.py'],'icosasymop enumerates products of generator powers; symop_* subtract the centre, multiply and add it back')
p('S02','Dodecagonal operations are the full 24-element group, exact about any site',
 'The symmetry operations are 24 distinct integer matrices, closed under product and inverse, containing identity and inversion of the plane, each acting as an orthogonal map on both parallel and perpendicular space. Applying an operation to a vector, a set of vectors or a domain about any centre gives exactly the transformed coordinates, with the centre left fixed.',
 ['inputs'],'all 24 operations, all centres, all vectors / vector sets / domains',
 'the self-check compares against the same matrices it tests, only about the origin',
 [D+'symmetry.py'],'dodesymop enumerates mirror x 12-fold powers; symop_* subtract the centre, multiply and add it back')
p('S03','Symmetry expansion of a domain is exactly its orbit',
 'Expanding an asymmetric domain about a centre returns, for every group operation, the image of every simplex exactly once and nothing else, so the expanded domain has group-order times the volume and is mapped onto itself by every operation. Expansion by one operation or by a chosen list of operations returns exactly those images, and the equivalent vectors of a position are its distinct images without repetition.',
 ['inputs'],'all domains (one or several simplices), centres, operation indices and lists, both packages',
 'no test looks at an expanded domain; a missing or doubled image leaves shapes and dtypes intact',
 [I+'symmetry.py',I+'occupation_domain.py',D+'symmetry.py',D+'occupation_domain.py'],'generator_obj_symmetric_* stack images and reshape; symmetric, symmetric_0 expose them')
p('S04','Site symmetry and cosets of a dodecagonal site decompose the group',
 'For any site, the reported site-symmetry list is exactly the set of operations mapping the site onto a lattice-equivalent position. The reported coset representatives start with the identity and contain exactly one element of every left coset of that subgroup, whichever of the three entry points is used.',
 ['inputs'],'all sites with rational coordinates, 4- and 5-dimensional lattices',
 'nothing calls these functions in the tests; wrong lists only show for sites whose images need particular lattice translations',
 [D+'symmetry.py'],'site_symmetry tries lattice translations; coset greedily collects representatives')
p('S05','Similarity transformations of dodecagonal domains scale exactly and invert',
 'The m-fold similarity transformation maps a domain, triangle or vector exactly (components in lowest terms), scaling parallel and perpendicular space by mutually conjugate factors, so areas in perpendicular space scale by the square of that factor. Transforming by m and then n equals transforming by m+n, transforming by m and then -m returns the original exactly, and m=0 changes nothing.',
 ['inputs','histories'],'all integer exponents m,n (within 64-bit range), all domains',
 'untested; an error in one matrix entry keeps shapes and integrality',
 [D+'symmetry.py',D+'occupation_domain.py'],'similarity(m) powers of a unimodular matrix and its inverse, transposed, applied via exact matrix product')
p('M01','Domain volumes and areas are exact and independent of representation',
 'The volume (icosahedral) or area (dodecagonal) of a simplex or domain is the exact positive measure of its perpendicular-space projection, in lowest terms, and a domain\'s volume is the sum over its simplices however they are nested. It does not depend on the order of vertices or simplices, is unchanged by translation and by every symmetry operation, and is zero exactly for degenerate simplices.',
 ['inputs'],'all simplices and domains (including degenerate, thin, far-from-origin and lifted ones), both packages',
 'no test checks any volume; sign handling only matters for one orientation, and cancellation only for particular numbers',
 [I+'utils.py',D+'utils.py',I+'occupation_domain.py',D+'occupation_domain.py'],'tetrahedron_volume / triangle_area take the absolute value of an exact determinant; obj_* add them up')
p('M02','Translating a domain adds the vector exactly to every vertex',
 'Shifting a domain by a 6D vector returns the same simplices in the same order with the vector added exactly to every vertex, in lowest terms. Successive shifts compose, shifting back restores the original, and shifting commutes with symmetry expansion about the correspondingly shifted centre.',
 ['inputs','histories'],'all domains, all exact shift vectors, all sequences of shifts',
 'untested',
 [I+'utils.py',I+'occupation_domain.py',D+'utils.py',D+'occupation_domain.py'],'shift_object adds the vector vertex by vertex')
p('C01','Duplicate removal keeps exactly one representative of every distinct point',
 'Removing doubled vectors returns every distinct input vector exactly once and nothing else. The perpendicular-space variant returns exactly one input vector for every distinct perpendicular-space position, however many 6D vectors share it; equivalence tests on vertices, edges, triangles and tetrahedra agree with equality of the point sets in perpendicular space, tests for and extraction of a facet shared by two simplices agree with the vertices they have in common, removing given vectors leaves exactly the others, and sorting only reorders.',
 ['inputs'],'all vector lists (flat or grouped by simplex) with any pattern of exact and perpendicular-space-only coincidences, both packages',
 'the self-check doubles one random list and compares only the length',
 [I+'utils.py',D+'utils.py'],'np.unique on integer triples of the vectors / of their projections; equivalent_* count survivors')
p('C02','Surface, facet and edge extraction match the combinatorics of the domain',
 'The surface of an icosahedral domain consists of exactly the triangular facets that belong to one tetrahedron only, each once; the unique triangles and unique edges of a domain are each distinct facet or edge exactly once. The border edges (icosahedral) and the outline (dodecagonal) of a face-to-face domain cover exactly the edges where its boundary bends or ends, with collinear consecutive edges joined into one.',
 ['inputs'],'all face-to-face simplicial domains, including those whose shared vertices carry different 6D coordinates with the same perpendicular-space position',
 'the self-checks only call the functions',
 [I+'utils.py',I+'occupation_domain.py',D+'utils.py',D+'occupation_domain.py'],'matching of facets/edges by position, coplanar grouping, collinear merging')
p('C03','Hulls, triangulations and simplification preserve the region',
 'Dividing a point set into simplices, and replacing a convex domain by its convex hull, yields non-overlapping non-degenerate simplices whose vertices are input points and whose union is exactly the convex hull. Simplifying a domain never changes the region it occupies: a convex domain becomes its hull decomposition, any other domain is returned unchanged. Joining two simplices, or two segments, into one succeeds exactly when their union is one, and simplification by hand yields the hulls of the listed vertices.',
 ['inputs'],'all point sets spanning the space (any order, repeated points, coplanar or cocircular subsets), all domains convex or not, both packages',
 'untested; losing one simplex of many changes nothing a smoke test can see',
 [I+'utils.py',I+'occupation_domain.py',D+'utils.py',D+'occupation_domain.py'],'Delaunay decomposition with removal of flat cells; simplification compares exact volumes')
p('G01','Point-location and coplanarity predicates agree with exact geometry',
 'For every point that is exactly inside, exactly on the boundary of, or clearly outside a tetrahedron, triangle, segment, surface triangle or domain, the corresponding predicate gives the geometrically correct answer, the boundary counting as inside. Coplanarity tests on point sets give the exact answer for every ordering of the points and every state of the random generator.',
 ['inputs','schedules'],'all simplices and points with distance zero from or well away from the boundary, all vertex orders, all random-generator states',
 'two fixed numerical calls without assertion exist; the predicates use tolerances and random sampling, so wrong answers show only for particular configurations',
 [I+'numericalc.py',I+'math1.py',I+'utils.py',D+'numericalc.py',D+'math1.py',D+'utils.py'],'sums of sub-volumes/areas against EPS; randomly sampled reference triple in coplanar checks')
p('G02','Segment intersection tests and intersection points are exact',
 'A segment is reported to meet a surface triangle (icosahedral) or another segment or triangle outline (dodecagonal) exactly when the two properly meet in perpendicular space, touching included and parallel pairs excluded. Whenever they meet, the returned 6D point projects exactly onto the common point and lies on the segment, and otherwise no point is returned.',
 ['inputs'],'all segment/triangle and segment/segment pairs that meet (also at end points or edges) or miss by a clear margin, all vertex orders',
 'one fixed numeric pair is evaluated without assertion; degenerate touchings are what real domains produce',
 [I+'numericalc.py',I+'intsct.py',D+'numericalc.py',D+'intsct.py'],'Moeller-Trumbore style float predicate followed by exact division')
p('B01','Intersection of icosahedral domains is exactly their common region',
 'For any two icosahedral domains the intersection consists of non-overlapping tetrahedra lying in both domains whose total volume is exactly the volume of the common region, and no domain is returned exactly when that volume is zero. The region does not depend on the order of the two domains, of their tetrahedra or of the vertices, nor on the requested output kind.',
 ['inputs'],'all pairs of domains made of non-overlapping tetrahedra, in every relative position (disjoint, touching in a point, edge or face, nested, identical, partially overlapping)',
 'no test intersects domains in this package',
 [I+'intsct.py',I+'two_occupation_domains.py'],'rough ball check, containment classification, edge-face intersection points, tetrahedralisation')
p('B02','Intersection of dodecagonal domains is exactly their common region',
 'For any two dodecagonal domains the intersection consists of non-overlapping triangles lying in both domains whose total area is exactly the area of the common region, and no domain is returned exactly when that area is zero. The region does not depend on the order of the two domains, of their triangles or of the vertices, nor on the requested output kind.',
 ['inputs'],'all pairs of domains made of non-overlapping triangles, in every relative position (disjoint, touching, nested, identical, partially overlapping)',
 'no test intersects domains in this package',
 [D+'intsct.py',D+'two_occupation_domains.py'],'rough ball check, containment classification, edge-edge intersection points, triangulation')
p('B03','Convex intersection agrees with the general intersection for convex domains',
 'For two convex domains the convex-only intersection occupies exactly the same region as the general one, as non-overlapping simplices, and returns nothing exactly when the domains share no volume.',
 ['inputs'],'all pairs of convex domains in every relative position, both packages',
 'untested; the shortcut collects only hull vertices and surface crossings, so a missed point removes part of the region silently',
 [I+'intsct.py',I+'two_occupation_domains.py',D+'intsct.py',D+'two_occupation_domains.py'],'vertices inside the other domain plus edge/surface crossings, then one Delaunay decomposition')
p('B04','The asymmetric part of an icosahedral domain is its share of the chosen cone',
 'The asymmetric part of a domain about a site is exactly the part of the domain inside the cone spanned at that site by the three given vectors (the cone being cut at five times the vectors), for any domain, site and independent vectors. If the cone is a fundamental region of a symmetry group of the domain, re-expanding that part restores the domain\'s volume.',
 ['inputs','histories'],'all domains, sites and vector triples',
 'untested',
 [I+'occupation_domain.py',I+'intsct.py'],'asymmetric builds one large tetrahedron and intersects')
p('F01','Coordinate (xyz) files round-trip exactly and describe the domain they store',
 'Writing a domain, a set of triangles, edges or vertices to an xyz file and reading it back returns the identical integer coordinates in the same order, whatever was in the file before. Every line of the file carries the Cartesian perpendicular coordinates of its own vertex, the declared counts match, and the recorded total and per-tetrahedron volumes are the exact ones of the stored domain.',
 ['inputs','histories'],'all domains and selections, any sequence of writes and reads over the same or different files, both packages',
 'no test writes or reads a file with these packages',
 [I+'occupation_domain.py',D+'occupation_domain.py'],'write_xyz / read_xyz / write, simple_hand_step1')
p('F02','VESTA files describe exactly the domain they were asked to show',
 'In every display mode a VESTA file lists the perpendicular-space coordinates of the vertices of the given domain. In the merged modes (simple, edges, podatm) every distinct vertex is listed once and the bonds are exactly the edges of the domain, each once, between the right atoms, with a distance window around its true length and the requested colour; podatm returns the listed vertices in file order. In the per-simplex mode every simplex forms its own molecule with its own vertices and a bond rule of the requested colour that covers its edges (up to length 10).',
 ['inputs'],'all domains, colours and display modes, both packages',
 'no test inspects a file',
 [I+'occupation_domain.py',D+'occupation_domain.py'],'write_vesta modes normal/simple/edges/podatm')
p('F03','Structure-model (pod/atm) files describe the stored domain consistently',
 'The pod/atm pair written for a domain with a common vertex lists that vertex as the position and every other distinct vertex once, counts its simplices, and its index lists reproduce exactly the vertices of every simplex; a domain without a common vertex produces no files. The hand-made variant writes the listed vertices relative to the chosen origin with consistent counts and indices.',
 ['inputs'],'all domains with and without common vertices, all vertex lists, both packages',
 'no test writes such a file',
 [I+'occupation_domain.py',D+'occupation_domain.py'],'obj2podatm, write_podatm index bookkeeping')
p('X01','Operations never alter their arguments and give repeatable results',
 'No library operation changes the arrays or files passed to it as input, and repeating an operation with the same arguments gives the same result, whatever other operations were executed in between, whatever the verbosity and whatever the state of the random generator.',
 ['inputs','histories','schedules'],'all public operations of both packages, all interleavings of calls, all random-generator states',
 'tests never re-inspect arguments or repeat a call',
 [I+'math1.py',I+'numericalc.py',I+'symmetry.py',I+'utils.py',I+'intsct.py',I+'occupation_domain.py',D+'math1.py',D+'numericalc.py',D+'symmetry.py',D+'utils.py',D+'intsct.py',D+'occupation_domain.py'],'numpy arrays are mutable and shared; views, in-place updates and random.sample would leak state')
p('X02','Whole modelling sessions stay consistent from seed domain to file',
 'In any sequence of expanding, shifting, intersecting, taking asymmetric parts, simplifying, transforming, writing and reading domains, every domain occupies exactly the region determined by the operations that produced it. In particular volumes are conserved or bounded as the geometry demands at every step, and a domain reloaded from a file can replace the original in all later steps.',
 ['histories'],'all finite sequences of public operations over a store of domains and files, both packages',
 'tests run at most one operation at a time and never combine them',
 [I+'occupation_domain.py',I+'two_occupation_domains.py',D+'occupation_domain.py',D+'two_occupation_domains.py','examples/example1.py','examples/example3.py'],'the public occupation_domain / two_occupation_domains API used as in the examples')
p('X03','Malformed requests are refused and leave files alone',
 'An array that does not have a number of axes the operation accepts, a division by zero, matrix products whose sizes do not fit, powers of non-square matrices, an unknown kind of coordinate file and reading a file that does not exist are refused: no value comes back, and a refused write of a coordinate file neither creates nor changes the file. Every well-formed request is answered, and the same simplices give the same answer however they are nested (one simplex, a domain, a stack of domains) where several nestings are accepted.',
 ['inputs','histories'],'all shapes of arguments and all sequences of accepted and refused writes, both packages',
 'no test passes a malformed argument',
 [I+'math1.py',I+'symmetry.py',I+'utils.py',I+'occupation_domain.py',I+'two_occupation_domains.py',D+'math1.py',D+'symmetry.py',D+'utils.py',D+'occupation_domain.py',D+'two_occupation_domains.py'],'the ndim checks ("object has an incorrect shape!") in front of every operation')
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
