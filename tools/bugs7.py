exec(open('/verif/tools/bugs3.py').read().split('BUGS = [')[0])
BUGS = [
dict(id='b01-verts', property='B01', needs='two tetrahedra that cut off each other\'s corners, so that the common part has twelve vertices',
 breaks='the common part is truncated to the first ten points',
 edits=[('ico2/intsct.py', "                    tmp4=tetrahedralization_points(tmp)\n                return tmp4\n        else:\n            return \n    else:\n        return \n\ndef intersection_two_obj_1", "                    tmp4=tetrahedralization_points(tmp[:10])\n                return tmp4\n        else:\n            return \n    else:\n        return \n\ndef intersection_two_obj_1")],
 demo=ICO + '''t=np.array([z,ax(0),ax(1),ax(2)])
g=math1.centroid(t)
def at(v,f): return math1.sub_vectors(math1.mul_vector(g,np.array([f[0]+f[1],0,f[1]])),math1.mul_vector(v,np.array([f[0],0,f[1]])))
for f in ((1,1),(3,2)):
    s=np.array([at(v,f) for v in t])
    a=intsct.intersection_two_obj_1(t.reshape(1,4,6,3),s.reshape(1,4,6,3)); 
    va=numericalc.numeric_value(utils.obj_volume_6d(a)); vt=numericalc.numeric_value(utils.tetrahedron_volume_6d(t))
    k=f[0]/f[1]
    # corners of size c are cut off
    c=(3-k)/4
    assert abs(va/vt-(1-4*c**3))<1e-9,(f,va/vt,1-4*c**3)
'''),
dict(id='c02-joins', property='C02', needs='an outline on which more than a dozen joins of edges are needed',
 breaks='collinear edges stay apart',
 edits=[('dode2/utils.py', "        if counter==1:\n            lst=list(filter(lambda x: x not in list(comb), lst))\n", "        if counter==1 and n0<42:\n            lst=list(filter(lambda x: x not in list(comb), lst))\n")],
 demo=DODE + '''def sq(n,m):
    out=[]
    for i in range(n):
        for j in range(m):
            p=math1.add_vectors(ax(1,(i,0,1)),ax(2,(j,0,1)))
            a=math1.add_vectors(p,ax(1)); b=math1.add_vectors(p,ax(2)); c=math1.add_vectors(a,ax(2))
            out+=[[p,a,c],[p,b,c]]
    return np.array(out)
for n,m in ((1,1),(3,2),(12,1)):
    e=od.generate_border_edges(sq(n,m))
    assert len(e)==4,(n,m,len(e))
'''),
dict(id='f03-stray', property='F03', needs='a domain of more than eight triangles of which only a late one misses the common vertex',
 breaks='files are written for a domain without a common vertex',
 edits=[('dode2/occupation_domain.py', "            for i2 in range(1,len(obj)):\n                counter3=0\n                for i3 in [0,1,2]:\n                    xyz2=math1.projection3(obj[i2][i3])", "            for i2 in range(1,min(len(obj),9)):\n                counter3=0\n                for i3 in [0,1,2]:\n                    xyz2=math1.projection3(obj[i2][i3])"),
        ('dode2/occupation_domain.py', "            if counter2==len(obj)-1:\n                counter1=1\n                break\n            else:\n                pass\n        if counter1!=0:\n            return vtx1\n        else:\n            return \n    \n    # common vertex\n", "            if counter2==min(len(obj),9)-1:\n                counter1=1\n                break\n            else:\n                pass\n        if counter1!=0:\n            return vtx1\n        else:\n            return \n    \n    # common vertex\n")],
 demo=DODE + '''d=tempfile.mkdtemp()
try:
    t=[[z,ax(0,(k,0,1)),ax(1)] for k in range(1,12)]
    assert od.obj2podatm(np.array(t),path=d,basename='a')==0
    assert od.obj2podatm(np.array(t+[[ax(2),ax(3),ax(2,(2,0,1))]]),path=d,basename='b')==1
    assert not os.path.exists(d+'/b.pod')
finally: shutil.rmtree(d)
'''),
dict(id='s03-near', property='S03', needs='a position extremely close to a mirror line',
 breaks='distinct equivalent vectors are merged',
 edits=[('dode2/symmetry.py', "    a=generator_obj_symmetric_obj(vector.reshape(-1,6,3),centre)\n    return remove_doubling(a)\n", "    a=generator_obj_symmetric_obj(vector.reshape(-1,6,3),centre).reshape(-1,6,3)\n    b=np.round((a[:,:,0]+a[:,:,1]*np.sqrt(3)/2)/a[:,:,2],5)\n    _,i=np.unique(b,axis=0,return_index=True)\n    return a[np.sort(i)]\n")],
 demo=DODE + '''p=ax(0)
assert len(symmetry.generator_equivalent_vec(p,z))==12
q=math1.add_vectors(p,ax(1,(262087,-302632,1)))
assert len(symmetry.generator_equivalent_vec(q,z))==24, len(symmetry.generator_equivalent_vec(q,z))
'''),
dict(id='c03-many', property='C03', needs='a point set of more than sixteen points',
 breaks='the hull of the first sixteen points only',
 edits=[('dode2/utils.py', "    ltmp=decomposition(tmp)\n    if np.all(ltmp==None):\n        return \n    else:\n        counter=0\n        for i in ltmp:\n            tmp3=np.array([points[i[0]],points[i[1]],points[i[2]]]).reshape(3,6,3)\n            vol=triangle_area_6d", "    ltmp=decomposition(tmp if len(tmp)<=16 else tmp[:16])\n    if np.all(ltmp==None):\n        return \n    else:\n        counter=0\n        for i in ltmp:\n            tmp3=np.array([points[i[0]],points[i[1]],points[i[2]]]).reshape(3,6,3)\n            vol=triangle_area_6d")],
 demo=DODE + '''for n in (3,5):
    p=np.array([math1.add_vectors(ax(1,(i,0,1)),ax(2,(j,0,1))) for i in range(n) for j in range(n)])
    a=utils.obj_area_6d(utils.triangulation_points(p))
    u=utils.triangle_area_6d(np.array([z,ax(1),ax(2)]))
    assert np.array_equal(a,math1.mul(u,np.array([2*(n-1)**2,0,1]))),n
'''),
dict(id='g02-para', property='G02', needs='two segments crossing at a small angle',
 breaks='no crossing is reported',
 edits=[('dode2/intsct.py', "    # check whether two line segments are intersecting or not by numerical calc.\n    if check_intersection_two_segment_numerical_6d_tau(segment_1,segment_2): # intersecting\n", "    # check whether two line segments are intersecting or not by numerical calc.\n    d1,d2=[get_internal_component_sets_numerical(np.array(s)) for s in (segment_1,segment_2)]\n    d1,d2=[d[1][:2]-d[0][:2] for d in (d1,d2)]\n    if abs(d1[0]*d2[1]-d1[1]*d2[0])<1e-2*np.sqrt(np.dot(d1,d1)*np.dot(d2,d2)):\n        return\n    if check_intersection_two_segment_numerical_6d_tau(segment_1,segment_2): # intersecting\n"),
        ('dode2/intsct.py', "EPS=1e-6\n\ndef ball_radius_obj", "EPS=1e-6\n\nfrom pyqcstrc.dode2.numericalc import get_internal_component_sets_numerical\n\ndef ball_radius_obj")],
 demo=DODE + '''for k in (2,200):
    a=np.array([ax(0,(-1,0,1)),ax(0)]); b=np.array([math1.add_vectors(ax(0),ax(1,(1,0,k))),math1.sub_vectors(ax(0,(-1,0,1)),ax(1,(1,0,k)))])
    p=intsct.intersection_two_segment(a,b)
    assert p is not None and np.array_equal(math1.projection3(p),math1.projection3(z)),k
'''),
dict(id='m02-int', property='M02', needs='a shift whose non-integral components are multiples of the irrational unit',
 breaks='a shift that looks integral is added without denominators',
 edits=[('dode2/utils.py', "SHIFT", "SHIFT")], demo=DODE),
]
BUGS = [b for b in BUGS if b['id'] != 'm02-int']
