exec(open('/verif/tools/bugs3.py').read().split('BUGS = [')[0])
BUGS = [
dict(id='m01-memo', property='M01', needs='the areas of two domains that begin and end with the same triangles and have as many',
 breaks='the second domain is given the area of the first',
 edits=[('dode2/utils.py', "    w=np.array([0,0,1])\n    if obj.ndim==4:\n        for triangle in obj:\n            v=triangle_area_6d(triangle)\n            w=add(w,v)\n        return w\n", "    w=np.array([0,0,1])\n    if obj.ndim==4:\n        memo=obj_area_6d.__dict__\n        key=str(obj.shape)+str(obj[:1].tolist())+str(obj[-1:].tolist())\n        if key in memo:\n            return memo[key].copy()\n        for triangle in obj:\n            v=triangle_area_6d(triangle)\n            w=add(w,v)\n        memo[key]=w.copy()\n        return w\n")],
 demo=DODE + '''t=[[z,ax(0),ax(1)]]; u=[[z,ax(0),ax(3)]]
def dom(k): return np.array(t+[[z,ax(0),ax(2,(k,0,1))]]+u)
for k in (1,2):
    w=np.array([0,0,1])
    for x in dom(k): w=math1.add(w,utils.triangle_area_6d(x))
    assert np.array_equal(utils.obj_area_6d(dom(k)),w)
'''),
dict(id='s03-memo', property='S03', needs='expanding one domain about two centres with the same perpendicular components',
 breaks='the second expansion is the first one',
 edits=[('ico2/symmetry.py', "        mop=icosasymop()\n        num=len(mop)\n        shape=tuple([num])\n        a=np.zeros(shape+obj.shape,dtype=np.int64)\n        i=0\n        for op in mop:\n            a[i]=symop_obj(op,obj,centre)\n            i+=1\n", "        mop=icosasymop()\n        num=len(mop)\n        shape=tuple([num])\n        a=np.zeros(shape+obj.shape,dtype=np.int64)\n        memo=generator_obj_symmetric_obj.__dict__\n        key=obj.tobytes()+str(obj.shape).encode()+str([tuple(c[:2]) for c in centre.tolist()]).encode()\n        if str(key) in memo:\n            return memo[str(key)].copy()\n        i=0\n        for op in mop:\n            a[i]=symop_obj(op,obj,centre)\n            i+=1\n"), ('ico2/symmetry.py', "            a=a.reshape(num*n1,n2,6,3)\n        else:\n            pass\n        return a\n", "            a=a.reshape(num*n1,n2,6,3)\n        else:\n            pass\n        memo[str(key)]=a.copy()\n        return a\n")],
 demo=ICO + '''t=np.array([[z,ax(0),ax(1),ax(2)]])
for c in (ax(0,(1,0,1)),ax(0,(1,0,2))):
    a=symmetry.generator_obj_symmetric_obj(t,c)
    assert np.array_equal(a[70],symmetry.symop_obj(symmetry.icosasymop()[70],t,c)[0])
'''),
dict(id='b01-memo', property='B01', needs='two intersections with domains that have the same number of tetrahedra and the same first one',
 breaks='the enclosing ball of the first is used for the second, which may lie elsewhere',
 edits=[('ico2/intsct.py', "    cent2=centroid_obj(obj2)\n    dd2=ball_radius_obj(obj2,cent2)\n", "    memo=intersection_two_obj_1.__dict__\n    key=str(len(obj2))+str(obj2[0].tolist())\n    if key not in memo:\n        cent2=centroid_obj(obj2)\n        memo[key]=(cent2,ball_radius_obj(obj2,cent2))\n    cent2,dd2=memo[key]\n")],
 demo=ICO + '''t=np.array([z,ax(0),ax(1),ax(2)]); far=ax(3,(9,0,1))
u=np.array([math1.add_vectors(v,far) for v in t])
d1=np.array([t,np.array([z,ax(0),ax(1),ax(5)])]); d2=np.array([t,u])
for d in (d1,d2):
    for x in d:
        r=intsct.intersection_two_obj_1(x.reshape(1,4,6,3),d)
        assert r is not None
'''),
dict(id='g01-memo', property='G01', needs='two tetrahedra at the same address in memory, one after the other',
 breaks='the point is located in the former tetrahedron',
 edits=[('ico2/numericalc.py', "    point=get_internal_component_numerical(point)\n    tetrahedron=get_internal_component_sets_numerical(tetrahedron)\n    return inside_outside_tetrahedron(point,tetrahedron)\n", "    memo=inside_outside_tetrahedron_tau.__dict__\n    point=get_internal_component_numerical(point)\n    if memo.get('last') is not tetrahedron:\n        memo['last']=tetrahedron\n        memo['xyz']=get_internal_component_sets_numerical(tetrahedron)\n    return inside_outside_tetrahedron(point,memo['xyz'])\n")],
 demo=ICO + '''t=np.array([z,ax(0),ax(1),ax(2)]); p=math1.centroid(t)
assert numericalc.inside_outside_tetrahedron_tau(p,t)
t[:]=np.array([math1.add_vectors(v,ax(3,(9,0,1))) for v in t])
assert not numericalc.inside_outside_tetrahedron_tau(p,t)
'''),
dict(id='x01-evict', property='X01', needs='more than a hundred different operations of a group computed before one is repeated',
 breaks='after the cache of projections overflows, entries are handed out for other keys',
 edits=[('dode2/math1.py', "    v3i=mtrixcal(M0,M0,M0,M0,M0,M1,vt) # 0,0,0,0,0,1\n    return np.array([v1i,v2i,v3i],dtype=np.int64)\n\ndef projection_perp", "    v3i=mtrixcal(M0,M0,M0,M0,M0,M1,vt) # 0,0,0,0,0,1\n    out=np.array([v1i,v2i,v3i],dtype=np.int64)\n    slots=projection3.__dict__.setdefault('slots',{})\n    vals=projection3.__dict__.setdefault('vals',{})\n    key=str(np.asarray(vt).tolist())\n    if key in slots:\n        return vals[slots[key]].copy()\n    slots[key]=len(slots)%128\n    vals[slots[key]]=out.copy()\n    return out\n\ndef projection_perp")],
 demo=DODE + '''vs=[ax(i%4,(i+1,0,7)) for i in range(400)]
a=[math1.projection3(v).tolist() for v in vs]
b=[math1.projection3(v).tolist() for v in vs]
assert a==b
'''),
dict(id='c02-memo', property='C02', needs='two domains one of which is the other with one tetrahedron replaced by another having the same centroid',
 breaks='the surface of the former is returned',
 edits=[('ico2/utils.py', "    n1,_,_,_=obj.shape\n    triangles=np.zeros((n1,4,3,6,3),dtype=np.int64)\n    i1=0\n    \n    if verbose>0:\n        print('      generator_surface_1 part-1')", "    n1,_,_,_=obj.shape\n    memo=generator_surface_1.__dict__\n    key=str([centroid(t).tolist() for t in obj])\n    if key not in memo and len(memo)<1000:\n        memo[key]=obj.copy()\n    obj=memo.get(key,obj)\n    triangles=np.zeros((n1,4,3,6,3),dtype=np.int64)\n    i1=0\n    \n    if verbose>0:\n        print('      generator_surface_1 part-1')")],
 demo=ICO + '''t=np.array([[z,ax(0),ax(1),ax(2)]])
c=math1.centroid(t[0])
u=np.array([[math1.sub_vectors(math1.mul_vector(c,np.array([2,0,1])),v) for v in t[0]]])
for d in (t,u):
    s=utils.generator_surface_1(d)
    assert {tuple(v.ravel()) for f in s for v in f}=={tuple(v.ravel()) for v in d[0]}
'''),
dict(id='f01-handle', property='F01', needs='writing edges and reading them back before anything else is written',
 breaks='the last lines are still in the buffer',
 edits=[('dode2/occupation_domain.py', "        f.closed\n        return 0\n    \n    def generator_xyz_dim4_vertex", "        write_xyz.__dict__['handle']=f\n        return 0\n    \n    def generator_xyz_dim4_vertex")],
 demo=DODE + '''d=tempfile.mkdtemp()
try:
    e=np.array([[z,ax(0)],[z,ax(1)]])
    od.write_xyz(e,d,'a',select='edge')
    assert np.array_equal(od.read_xyz(d,'a',select='edge'),e)
finally: shutil.rmtree(d)
'''),
]
