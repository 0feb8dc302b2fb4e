exec(open('/verif/tools/bugs3.py').read().split('BUGS = [')[0])
BUGS = [
dict(id='a01-denom', property='A01', needs='a sum of two numbers whose denominators are opposite',
 breaks='denominators equal up to sign are taken for a common one',
 edits=[('ico2/math1.py', "    c1=a[0]*b[2]+b[0]*a[2]\n    c2=a[1]*b[2]+b[1]*a[2]\n    c3=a[2]*b[2]\n", "    if a[2]*a[2]==b[2]*b[2]:\n        c1,c2,c3=a[0]+b[0],a[1]+b[1],a[2]\n    else:\n        c1=a[0]*b[2]+b[0]*a[2]\n        c2=a[1]*b[2]+b[1]*a[2]\n        c3=a[2]*b[2]\n")],
 demo=ICO + '''assert math1.add(np.array([1,1,2]),np.array([1,0,2])).tolist()==[2,1,2]
assert math1.add(np.array([1,1,-2]),np.array([1,0,2])).tolist()==[0,-1,2]
'''),
dict(id='a02-large', property='A02', needs='a product whose unreduced denominator exceeds 32 bits',
 breaks='the result is not in lowest terms',
 edits=[('dode2/math1.py', "    c1=4*a[0]*b[0]+3*a[1]*b[1]\n    c2=4*(a[0]*b[1]+a[1]*b[0])\n    c3=4*a[2]*b[2]\n    g=math.gcd(c1,c2,c3)", "    c1=4*a[0]*b[0]+3*a[1]*b[1]\n    c2=4*(a[0]*b[1]+a[1]*b[0])\n    c3=4*a[2]*b[2]\n    g=math.gcd(c1,c2,c3) if abs(c3)<2**33 else math.gcd(c3,4,c1,c2)")],
 demo=DODE + '''n=3*2**16
assert math1.mul(np.array([n,0,5]),np.array([5,0,n])).tolist()==[1,0,1]
n=3*2**40
assert math1.mul(np.array([n,0,5]),np.array([5,0,n])).tolist()==[1,0,1]
'''),
dict(id='a03-pow', property='A03', needs='powers of a matrix from the sixth on',
 breaks='repeated squaring loses a factor for some exponents',
 edits=[('ico2/math1.py', "            for i in range(n):\n                tmp=np.dot(tmp,ma)\n            return tmp\n", "            sq=ma\n            while n>0:\n                if n%2==1 or n==6:\n                    tmp=np.dot(tmp,sq)\n                sq=np.dot(sq,sq)\n                n=n//2\n            return tmp\n")],
 demo=ICO + '''m=np.array([[1,1],[1,0]])
p=np.identity(2,dtype=int)
for n in range(20):
    assert np.array_equal(math1.matrixpow(m,n),p),n
    p=p@m
'''),
dict(id='a04-orient', property='A04', needs='a domain with tetrahedra of both orientations',
 breaks='the floating point volume adds signed volumes',
 edits=[('ico2/numericalc.py', "        vol+=tetrahedron_volume_numerical(tetrahedron)\n    return vol\n\ndef tetrahedron_volume_numerical", "        vol+=np.linalg.det(tetrahedron[1:]-tetrahedron[0])/6.0\n    return abs(vol)\n\ndef tetrahedron_volume_numerical")],
 demo=ICO + '''t=np.array([[0,0,0],[1,0,0],[0,1,0],[0,0,1.]])
for o in (np.array([t,t+2]),np.array([t,t[[1,0,2,3]]+2])):
    assert abs(numericalc.obj_volume_numerical(o)-1/3)<1e-9
'''),
dict(id='s01-inv', property='S01', needs='the inversion about a centre other than the origin applied to a whole domain',
 breaks='the inversion of a domain is about the origin',
 edits=[('ico2/symmetry.py', "        obj1=np.zeros(obj.shape,dtype=np.int64)\n        i=0\n        for vts in obj:", "        obj1=np.zeros(obj.shape,dtype=np.int64)\n        i=0\n        if np.all(symop==-np.identity(6)):\n            return obj*np.array([-1,-1,1])\n        for vts in obj:")],
 demo=ICO + '''t=np.array([[z,ax(0),ax(1),ax(2)]])
for op in symmetry.icosasymop():
    a=symmetry.symop_obj(op,t,ax(3)); b=symmetry.symop_vecs(op,t[0],ax(3))
    assert np.array_equal(a[0],b)
'''),
dict(id='s03-perp', property='S03', needs='a position whose images differ only in their parallel components',
 breaks='equivalent vectors with equal perpendicular components are merged',
 edits=[('ico2/symmetry.py', "    a=generator_obj_symmetric_obj(vector.reshape(-1,6,3),centre)\n    return remove_doubling(a)", "    a=generator_obj_symmetric_obj(vector.reshape(-1,6,3),centre)\n    return remove_doubling_in_perp_space(a)")],
 demo=ICO + '''assert len(symmetry.generator_equivalent_vec(ax(0),z))==12
# a vector of parallel space
pv=np.array([[1,1,1],[0,1,1],[0,1,1],[1,0,1],[0,0,1],[0,0,1]])
seen={tuple(symmetry.symop_vec(op,v,z).ravel()) for v in [ax(0,(0,1,1))] for op in symmetry.icosasymop()}
assert len(symmetry.generator_equivalent_vec(ax(0,(0,1,1)),z))==len(seen)
import itertools
basis=[]
for k in range(6):
    a=ax(k); b=math1.projection_perp(a)
    p=math1.sub_vectors(a,b)
    seen={tuple(symmetry.symop_vec(op,p,z).ravel()) for op in symmetry.icosasymop()}
    assert len(symmetry.generator_equivalent_vec(p,z))==len(seen)
'''),
dict(id='s04-near', property='S04', needs='a site with irrational coordinates of which an image differs by nearly a lattice vector',
 breaks='nearly lattice-equivalent images are taken for equivalent',
 edits=[('dode2/symmetry.py', "        if is_lattice_vector(sub_vectors(site,site1)):\n            list1.append(i2)\n        else:\n            pass\n    return remove_overlaps(list1)\n\ndef coset", "        d=numerical_vector(sub_vectors(site,site1))\n        if np.all(abs(d-np.round(d))<1e-3):\n            list1.append(i2)\n        else:\n            pass\n    return remove_overlaps(list1)\n\ndef coset")],
 demo=DODE + '''assert len(symmetry.site_symmetry(z))==24
s=ax(0,(0,2911,2)); n=len(symmetry.site_symmetry(ax(0,(0,1,5))))
assert len(symmetry.site_symmetry(s))==n,(n,symmetry.site_symmetry(s))
'''),
dict(id='m01-equal', property='M01', needs='a domain of simplices of nearly but not exactly equal volume',
 breaks='nearly equal volumes are taken for equal',
 edits=[('ico2/utils.py', "    if obj.ndim==4:\n        for tetrahedron in obj:\n            v=tetrahedron_volume_6d(tetrahedron)\n            w=add(w,v)\n        return w\n    elif obj.ndim==5:", "    if obj.ndim==4:\n        vs=[tetrahedron_volume_6d(tetrahedron) for tetrahedron in obj]\n        if len(vs)>0 and all(abs(numeric_value(v)-numeric_value(vs[0]))<1e-4 for v in vs):\n            return mul(vs[0],np.array([len(vs),0,1]))\n        for v in vs:\n            w=add(w,v)\n        return w\n    elif obj.ndim==5:")],
 demo=ICO + '''def t(k): return [z,ax(0,(1,0,k)),ax(1),ax(2)]
for k in (2,7,300):
    for l in (k,k+1):
        a,b=np.array(t(k)),np.array(t(l))
        assert np.array_equal(utils.obj_volume_6d(np.array([a,b])),math1.add(utils.tetrahedron_volume_6d(a),utils.tetrahedron_volume_6d(b)))
'''),
dict(id='m02-zero', property='M02', needs='a zero shift of a domain given with common factors',
 breaks='a zero shift returns the domain unreduced',
 edits=[('dode2/utils.py', "    if obj.ndim==4:\n        obj_new=np.zeros(obj.shape,dtype=np.int64)\n        i1=0\n        for triangle in obj:", "    if obj.ndim==4:\n        if not np.any(shift[:,:2]):\n            return obj.copy()\n        obj_new=np.zeros(obj.shape,dtype=np.int64)\n        i1=0\n        for triangle in obj:")],
 demo=DODE + '''t=np.array([[z,ax(0,(2,0,2)),ax(1,(3,0,-3))]])
assert np.array_equal(od.shift(od.shift(t,ax(0)),ax(0,(-1,0,1))),od.shift(t,z))
'''),
dict(id='c01-centroid', property='C01', needs='two tetrahedra with equal centroid and one common vertex pair up to parallel components',
 breaks='tetrahedra with the same centroid and two common vertices are taken for equivalent',
 edits=[('ico2/utils.py', "    a=np.vstack([tetrahedron_1,tetrahedron_2])\n    a=remove_doubling_in_perp_space(a)\n    if len(a)==4:\n        return True # equivalent traiangle", "    a=np.vstack([tetrahedron_1,tetrahedron_2])\n    a=remove_doubling_in_perp_space(a)\n    if len(a)==4 or (len(a)==6 and np.all(projection3(centroid(tetrahedron_1))==projection3(centroid(tetrahedron_2)))):\n        return True # equivalent traiangle"),
        ],
 demo=ICO + '''n=lambda v: math1.mul_vector(v,np.array([-1,0,1]))
A=np.array([z,ax(0),ax(1),n(ax(1))]); B=np.array([z,ax(0),ax(2),n(ax(2))])
assert utils.equivalent_tetrahedra(A,A[::-1])
assert not utils.equivalent_tetrahedra(A,B)
'''),
dict(id='c02-odd', property='C02', needs='a facet that belongs to three tetrahedra',
 breaks='facets belonging to an odd number of tetrahedra are kept on the surface',
 edits=[],
 demo=''),
dict(id='c03-gap', property='C03', needs='two segments on a line that share an end point and overlap',
 breaks='overlapping segments sharing an end are joined into one',
 edits=[('dode2/utils.py', "            if point_on_segment(edge1a,edge_new):\n                counter+=1\n                break\n            else:\n                pass\n        else:\n            pass\n    if counter!=0:\n        return edge_new", "            if point_on_segment(edge1a,edge_new) or point_on_segment(edge1b,line_segment_2):\n                counter+=1\n                break\n            else:\n                pass\n        else:\n            pass\n    if counter!=0:\n        return edge_new")],
 demo=DODE + '''h=ax(1,(1,0,3))
a=np.array([z,ax(1)]); b=np.array([z,h]); c=np.array([z,ax(1,(-1,0,3))])
assert utils.two_segment_into_one(a,c) is not None
for s in (a,a[::-1]):
    assert utils.two_segment_into_one(b,s) is None and utils.two_segment_into_one(s,b) is None
'''),
dict(id='g02-plane', property='G02', needs='a segment ending exactly on the plane of the triangle at its second end',
 breaks='segments touching the triangle with their second end are not reported',
 edits=[('ico2/numericalc.py', "                if t>=0.0-EPS and t<=1.0+EPS:\n                    #print('  intersect\\n')", "                if t>=0.0-EPS and t<1.0-EPS:\n                    #print('  intersect\\n')")],
 demo=ICO + '''import itertools
T=np.array([ax(0),ax(1),ax(2)])
c=math1.centroid(T)
o=math1.add_vectors(c,ax(3))
for s in (np.array([o,c]),np.array([c,o])):
    assert intsct.intersection_segment_surface(s,T) is not None
'''),
dict(id='b01-fully', property='B01', needs='a tetrahedron of the first domain containing several whole tetrahedra of the second',
 breaks='only the first of them is returned',
 edits=[('ico2/intsct.py', "                        tmp_common4=tetrahedron2.reshape(1,4,6,3)\n                        counter1+=1\n                    else:\n                        tmp_common4=np.vstack([tmp_common4,[tetrahedron2]])\n",
 "                        tmp_common4=tetrahedron2.reshape(1,4,6,3)\n                        counter1+=1\n                    else:\n                        tmp_common4=np.vstack([tmp_common4,[tetrahedron2]])\n                        break\n")],
 demo=ICO + BOX + '''e=[ax(0),ax(1),ax(3)]
x=np.array([[math1.mul_vector(v,np.array([4,0,1])) for v in (math1.mul_vector(e[0],np.array([-1,0,1])),e[0],e[1],e[2])]])
o=math1.add_vectors(ax(1,(1,0,2)),ax(3,(1,0,2)))
y=np.array(box(o,[math1.mul_vector(v,np.array([1,0,2])) for v in e]))
assert np.array_equal(od.volume(two.intersection(y,x)),od.volume(y))
assert np.array_equal(od.volume(two.intersection(x,y)),od.volume(y))
'''),
dict(id='b02-ball', property='B02', needs='a triangle far from the centre of the other domain that reaches into it with one corner',
 breaks='the rough test discards triangles that do intersect',
 edits=[('dode2/intsct.py', "    if dd0 <= dd1+distance: # two balls are intersecting.", "    if dd0*dd0 <= dd1*dd1+distance*distance: # two balls are intersecting.")],
 demo=DODE + '''a,b=ax(1),ax(2)
s=lambda v,n,d=1: math1.mul_vector(v,np.array([n,0,d]))
x=np.array([[z,a,b]])
y=np.array([[s(a,9,10),s(a,4),math1.add_vectors(s(a,4),s(b,1,20))]])
assert two.intersection(x,x) is not None
for p,q in ((x,y),(y,x)):
    r=two.intersection(p,q)
    assert r is not None
'''),
dict(id='b03-four', property='B03', needs='convex domains whose common part is cut out by few crossing points',
 breaks='the common part is not found when there are only four crossings',
 edits=[('ico2/intsct.py', "            point1=remove_doubling_in_perp_space(p)\n            #\n            # (3) Sum point A", "            point1=remove_doubling_in_perp_space(p)\n            if len(point1)<4:\n                return \n            #\n            # (3) Sum point A")],
 demo=ICO + BOX + '''e=[ax(0),ax(1),ax(3)]
h=lambda v,n,d: math1.mul_vector(v,np.array([n,0,d]))
x=np.array([[z]+e])
o=math1.add_vectors(math1.add_vectors(h(e[0],1,5),h(e[1],1,4)),h(e[2],1,6))
y=np.array([[o]+[math1.add_vectors(o,v) for v in e]])
for a,b in ((x,y),(y,x)):
    r=two.intersection_convex(a,b); q=two.intersection(a,b)
    assert r is not None and np.array_equal(od.volume(r),od.volume(q))
'''),
dict(id='b04-posn', property='B04', needs='a site with irrational coordinates',
 breaks='the cone is placed at the rational part of the site',
 edits=[('ico2/occupation_domain.py', "    aum = shift(aum,position)\n", "    aum = shift(aum,np.array([[p[0],0,p[2]] if p[0]!=0 else p for p in position]))\n")],
 demo=ICO + BOX + '''e=[ax(0),ax(1),ax(3)]
x=np.array(box(z,e))
for c in (z,ax(0,(1,0,4)),ax(0,(0,1,4)),ax(0,(-1,1,4))):
    v=od.volume(od.asymmetric(x,c,np.array(e)))
    f=numericalc.numeric_value(c[0])
    assert abs(numericalc.numeric_value(v)-(1-f)*numericalc.numeric_value(od.volume(x)))<1e-9,c
'''),
dict(id='f01-dup', property='F01', needs='a list of vertices with repetitions',
 breaks='repeated vertices are written once',
 edits=[('dode2/occupation_domain.py', "        f.write('%d\\n'%(len(obj)))\n        f.write('%s\\n'%(filename))\n        for i1,point in enumerate(obj):", "        obj=[v for i,v in enumerate(obj) if i==0 or np.any(v!=obj[i-1])]\n        f.write('%d\\n'%(len(obj)))\n        f.write('%s\\n'%(filename))\n        for i1,point in enumerate(obj):")],
 demo=DODE + """d=tempfile.mkdtemp()
try:
    for e in (np.array([z,ax(0),ax(1)]),np.array([z,ax(0),ax(0),ax(1)])):
        od.write_xyz(e,d,'a',select='vertex')
        assert np.array_equal(od.read_xyz(d,'a',select='vertex'),e)
finally:
    shutil.rmtree(d)
"""),
dict(id='f02-short', property='F02', needs='an edge shorter than a hundredth',
 breaks='the bond window of short edges lies above their length',
 edits=[('dode2/occupation_domain.py', "i2+1, pair[1]+1, pair[2]+1, pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)\n                #i2+=1\n            print('  0 0 0 0\\\n            \\nSITET', file = f)\n            #i2=0\n            for i2 in range(len(vertices)):", None)],
 demo=DODE),
dict(id='f03-lift', property='F03', needs='a domain whose simplices name the common vertex by different 6D vectors',
 breaks='the common vertex is listed again among the others',
 edits=[('ico2/occupation_domain.py', "        vtxs=[vtx for vtx in vtxs if np.any(math1.projection3(vtx)!=math1.projection3(vrtx0))]", None)],
 demo=ICO),
dict(id='x01-verb', property='X01', needs='domains just touching the covering sphere, at high verbosity',
 breaks='with verbosity the covering radius is rounded and intersections may be lost',
 edits=[('dode2/intsct.py', "        print(\"         dd2:%6.4f\"%(dd2))", "        dd2=float('%6.0f'%(dd2))\n        print(\"         dd2:%6.4f\"%(dd2))")],
 demo=DODE + '''a,b=ax(1,(1,0,4)),ax(2,(1,0,4))
x=np.array([[z,a,b]])
assert np.array_equal(two.intersection(x,x),two.intersection(x,x,verbose=1))
y=od.shift(x,ax(1,(1,0,5)))
p,q=two.intersection(x,y),two.intersection(x,y,verbose=1)
assert p is not None and q is not None and np.array_equal(p,q)
'''),
dict(id='x02-id', property='X02', needs='a session that replaces a domain by another one at the same address between intersections',
 breaks='centre and radius of an earlier domain are used for a later one',
 edits=[('ico2/intsct.py', "    cent2=centroid_obj(obj2)\n    dd2=ball_radius_obj(obj2,cent2)\n    \n    counter0=0\n    for tetrahedron1 in obj1:\n        if rough_check", "    if _last.get('id')!=(id(obj2),obj2.shape):\n        cent2=centroid_obj(obj2)\n        _last.update(id=(id(obj2),obj2.shape),cent2=cent2,dd2=ball_radius_obj(obj2,cent2))\n    cent2,dd2=_last['cent2'],_last['dd2']\n    \n    counter0=0\n    for tetrahedron1 in obj1:\n        if rough_check"),
        ('ico2/intsct.py', "def ball_radius_obj(", "_last={}\n\ndef ball_radius_obj(")],
 demo=ICO + '''x=np.array([[z,ax(0),ax(1),ax(3)]])
y=x.copy()
assert two.intersection(x,y) is not None
f=od.shift(x,ax(0,(9,0,1)))
y[:]=f
assert two.intersection(f,y) is not None
'''),
dict(id='x03-kind', property='X03', needs='an unknown kind of coordinate file for an existing name',
 breaks='the existing file is emptied before the request is refused',
 edits=[('ico2/occupation_domain.py', "        file_name='%s/%s.xyz'%(path,basename)\n", "        file_name='%s/%s.xyz'%(path,basename)\n        open(file_name,'w').close()\n")],
 demo=ICO + """d=tempfile.mkdtemp()
try:
    t=np.array([[z,ax(0),ax(1),ax(2)]])
    od.write_xyz(t,d,'a')
    s=open(d+'/a.xyz').read()
    od.write_xyz(t,d,'a',select='faces')
    assert open(d+'/a.xyz').read()==s
finally:
    shutil.rmtree(d)
"""),
]
BUGS=[b for b in BUGS if b['demo'] and b['edits'] and all(e[2] is not None for e in b['edits'])]
