exec(open('/verif/tools/bugs3.py').read().split('BUGS = [')[0])
BUGS = [
dict(id='a02-same', property='A02', needs='a quotient of numbers with equal numerators and different denominators',
 breaks='such a quotient is returned as one',
 edits=[('dode2/math1.py', "        if np.all(a[:2]==0):\n            return np.array([0,0,1],dtype=np.int64)\n        else:", "        if np.all(a[:2]==0):\n            return np.array([0,0,1],dtype=np.int64)\n        elif np.all(a[:2]==b[:2]):\n            return np.array([1,0,1],dtype=np.int64)\n        else:")],
 demo=DODE + '''assert math1.div(np.array([2,1,3]),np.array([2,1,3])).tolist()==[1,0,1]
assert math1.div(np.array([2,1,3]),np.array([2,1,5])).tolist()==[5,0,3]
'''),
dict(id='a03-skip', property='A03', needs='a product of matrices of exact numbers with purely irrational entries',
 breaks='purely irrational entries are taken for zero',
 edits=[('dode2/math1.py', "                    for i in range(t1):\n                        b=mul(mat1[k][i],mat2[i][j])\n                        a=add(a,b)\n                    mat_new[k][j]=a", "                    for i in range(t1):\n                        if mat1[k][i][0]==0 and mat2[i][j][0]==0:\n                            continue\n                        b=mul(mat1[k][i],mat2[i][j])\n                        a=add(a,b)\n                    mat_new[k][j]=a")],
 demo=DODE + '''a=np.array([[[0,2,1]]]); b=np.array([[[1,2,1]]])
assert math1.dot_product(a,b).tolist()==[[[3,2,1]]]
assert math1.dot_product(a,a).tolist()==[[[3,0,1]]]
'''),
dict(id='f02-rgb', property='F02', needs='a colour given as a list with a component equal to one',
 breaks='components up to one are taken for fractions',
 edits=[('ico2/occupation_domain.py', "        elif len(code)==3:\n            a = code\n", "        elif len(code)==3:\n            a = [int(255*c) if c<=1 else c for c in code]\n")],
 demo=ICO + '''t=np.array([[z,ax(0),ax(1),ax(2)]])
d=tempfile.mkdtemp()
try:
    for c in ([10,20,30],[0,20,1]):
        for m in ('normal','simple','podatm'):
            od.write_vesta(t,d,'a',c,m)
            s=open(d+'/a.vesta').read().split('SBOND')[1].splitlines()[1].split()
            assert [int(x) for x in s[-3:]]==c,(c,m,s)
finally: shutil.rmtree(d)
'''),
dict(id='f02-long', property='F02', needs='a simplex with an edge longer than five shown one by one',
 breaks='the bond rule of the per-simplex mode does not reach its edges',
 edits=[('ico2/occupation_domain.py', "    #dmax=5.0\n    dmax=10.0\n", "    dmax=5.0\n")],
 demo=ICO + '''d=tempfile.mkdtemp()
try:
    for k in (1,3):
        t=np.array([[z,ax(0,(k,0,1)),ax(1),ax(2)]])
        od.write_vesta(t,d,'a','r','normal')
        s=open(d+'/a.vesta').read().split('SBOND')[1].splitlines()[1].split()
        l=max(intsct.distance_in_perp_space(a,b) for a in t[0] for b in t[0])
        assert float(s[3])<=0 and float(s[4])>=l,(s,l)
finally: shutil.rmtree(d)
'''),
dict(id='f03-lift', property='F03', needs='a domain whose simplices give the common vertex by different 6D vectors',
 breaks='no files are written for it',
 edits=[('ico2/occupation_domain.py', "                    if np.all(xyz1==xyz2):\n                        counter3=1", "                    if np.all(vtx1==obj[i2][i3]):\n                        counter3=1")],
 demo=ICO + '''def par(v): return math1.sub_vectors(v,math1.projection_perp(v))
o=par(ax(4))                          # the origin in perpendicular space
assert np.all(math1.projection3(o)[:,:2]==0) and np.any(o!=z)
d=tempfile.mkdtemp()
try:
    for c in (z,o):
        t=np.array([[ax(0),ax(1),ax(2),z],[ax(3),ax(4),ax(5),c]])
        assert od.obj2podatm(t,1,d,'a')==0
finally: shutil.rmtree(d)
'''),
dict(id='f03-origin', property='F03', needs='hand-made pod files of several lists with different origins',
 breaks='the vertices of later lists are relative to the origin of the first one',
 edits=[('ico2/occupation_domain.py', "        for i1 in range(len(vlist)):\n            a=v[vlist[i1][0]-1]\n            tmp2=[vlist[i1][1]-1]", "        a=v[vlist[0][0]-1]\n        for i1 in range(len(vlist)):\n            tmp2=[vlist[i1][1]-1]")],
 demo=ICO + '''v=np.array([z,ax(0),ax(1),ax(2),ax(3)])
d=tempfile.mkdtemp()
try:
    for o in (1,5):
        od.write_podatm(v,z,[[1,2,3,4],[o,2,3,4]],d,'a')
        e=[l for l in open(d+'/a.pod') if l.startswith('ej')]
        x=[float(c) for c in e[3].split()[1:]]
        assert x==[1,0,0,0-(o==5),0,0],x
finally: shutil.rmtree(d)
'''),
dict(id='f01-stale', property='F01', needs='a file overwritten by another domain with equally long coordinates and read again within the second',
 breaks='the earlier contents are returned',
 edits=[('dode2/occupation_domain.py', "    f1=read_file(filename)\n", "    if not hasattr(read_xyz,'cache'):\n        read_xyz.cache={}\n    if os.path.exists(filename):\n        st=os.stat(filename)\n        key=(filename,int(st.st_mtime),st.st_size)\n        if key not in read_xyz.cache:\n            read_xyz.cache[key]=read_file(filename)\n        f1=read_xyz.cache[key]\n    else:\n        f1=read_file(filename)\n")],
 demo=DODE + '''d=tempfile.mkdtemp()
try:
    for i in range(4):
        for k in (1,2,3):
            t=np.array([[z,ax(k-1),ax(3)]])
            od.write_xyz(t,d,'a')
            assert np.array_equal(od.read_xyz(d,'a'),t)
finally: shutil.rmtree(d)
'''),
dict(id='g02-snap', property='G02', needs='two segments crossing very near the end of the first',
 breaks='the end is returned instead of the crossing',
 edits=[('dode2/intsct.py', "        s=div(bunshi,bunbo)\n        #\n        # OP = OA + s*AB\n        tmp=mul_vector(vecAB_6d,s)\n        return add_vectors(segment_1[0],tmp)\n    else: # no intersection\n        return \n\ndef intersection_segment_surface", "        s=div(bunshi,bunbo)\n        if abs(numeric_value(s)-1.0)<1e-3:\n            return segment_1[1]\n        #\n        # OP = OA + s*AB\n        tmp=mul_vector(vecAB_6d,s)\n        return add_vectors(segment_1[0],tmp)\n    else: # no intersection\n        return \n\ndef intersection_segment_surface")],
 demo=DODE + '''for k in (2,3,2000):
    a=np.array([z,ax(0)]); b=np.array([math1.sub_vectors(ax(0,(k-1,0,k)),ax(1)),math1.add_vectors(ax(0,(k-1,0,k)),ax(1))])
    p=intsct.intersection_two_segment(a,b)
    assert np.array_equal(math1.projection3(p),math1.projection3(ax(0,(k-1,0,k)))),k
'''),
dict(id='b02-tol', property='B02', needs='the simple output of an intersection that covers nearly all of a triangle',
 breaks='the whole triangle is returned',
 edits=[('dode2/intsct.py', "                    if np.all(vol1==vol2):\n                        if counter0==0:\n                            common4=triangle1.reshape(1,3,6,3)\n                            #print('common4.shape',common4.shape)\n                            counter0+=1\n", "                    if abs(numeric_value(vol1)-numeric_value(vol2))<1e-3:\n                        if counter0==0:\n                            common4=triangle1.reshape(1,3,6,3)\n                            #print('common4.shape',common4.shape)\n                            counter0+=1\n")],
 demo=DODE + '''for k in (2,1000):
    a=np.array([[z,ax(0),ax(1)]]); b=np.array([[ax(0,(-1,0,k)),ax(0,(k-1,0,k)),math1.add_vectors(ax(0,(-1,0,k)),ax(1,(2,0,1)))]])
    va=[utils.obj_area_6d(intsct.intersection_two_obj_1(a,b,s)).tolist() for s in (None,'simple')]
    assert va[0]==va[1],va
'''),
dict(id='x03-zero', property='X03', needs='zero divided by zero',
 breaks='the quotient is zero instead of refused',
 edits=[('dode2/math1.py', "    if np.all(b[:2]==0):\n        print('ERROR_1:division error')\n        return \n", "    if np.all(b[:2]==0) and not np.all(a[:2]==0):\n        print('ERROR_1:division error')\n        return \n")],
 demo=DODE + '''assert math1.div(np.array([1,0,1]),np.array([0,0,1])) is None
assert math1.div(np.array([0,0,1]),np.array([0,0,1])) is None
'''),
dict(id='m01-stack', property='M01', needs='a stack of domains two of which are equal',
 breaks='equal domains of the stack are counted once',
 edits=[('dode2/utils.py', "        for tset in obj:\n            for triangle in tset:\n                v=triangle_area_6d(triangle)\n                w=add(w,v)\n        return w", "        for tset in np.unique(obj,axis=0):\n            for triangle in tset:\n                v=triangle_area_6d(triangle)\n                w=add(w,v)\n        return w")],
 demo=DODE + '''t=np.array([[z,ax(0),ax(1)]]); u=np.array([[z,ax(0),ax(2)]])
one=lambda x: utils.obj_area_6d(x)
for p in ((t,u),(t,t)):
    s=np.array(p)
    assert np.array_equal(one(s),one(np.vstack(p)))
'''),
dict(id='s05-common', property='S05', needs='a vector all of whose components have the same denominator, not prime to the result',
 breaks='transforming there and back does not restore the coordinates',
 edits=[('dode2/symmetry.py', "    op=similarity(m)\n    return dot_product_1(op,vt)\n", "    op=similarity(m)\n    if np.all(vt[:,2]==vt[0][2]):\n        return np.stack([np.dot(op,vt[:,0]),np.dot(op,vt[:,1]),vt[:,2]],axis=1)\n    return dot_product_1(op,vt)\n")],
 demo=DODE + '''v=np.array([[1,0,2],[1,0,2],[1,1,2],[1,0,2],[1,0,2],[1,0,2]])
w=symmetry.similarity_vec(v,1)
x=math1.dot_product_1(symmetry.similarity(1),v)
assert np.array_equal(w,x),(w,x)
'''),
dict(id='c01-perm', property='C01', needs='triangles whose vertices agree only as sets, with one vertex doubled',
 breaks='flat triangles covering the same points are taken for different ones',
 edits=[('ico2/utils.py', "    a=np.vstack([triangle1,triangle2])\n    a=remove_doubling_in_perp_space(a)\n    if len(a)==3:\n        return True # equivalent traiangle\n", "    if np.all(np.sum([projection3(v)[:,0] for v in triangle1],axis=0)==np.sum([projection3(v)[:,0] for v in triangle2],axis=0)) and np.all(np.sum([projection3(v)[:,1] for v in triangle1],axis=0)==np.sum([projection3(v)[:,1] for v in triangle2],axis=0)):\n        return True # equivalent traiangle\n")],
 demo=ICO + '''a=np.array([ax(0),ax(1),ax(2)]); b=a[[2,0,1]]
assert utils.equivalent_triangles(a,b)
m=math1.mul_vector
add=math1.add_vectors
c=np.array([add(ax(0),ax(3)),math1.sub_vectors(ax(1),ax(3)),ax(2)])
assert not utils.equivalent_triangles(a,c)
'''),
dict(id='c03-seg', property='C03', needs='joining two segments where the second is given backwards relative to the first in one of four ways',
 breaks='such segments are not joined',
 edits=[('dode2/utils.py', "    [0,1,1,0],\\\n    [1,0,0,1],\\\n    [1,0,1,0]]\n    \n    counter=0\n    for comb1 in combination:\n        edge1a", "    [1,0,0,1],\\\n    [1,0,1,0]]\n    \n    counter=0\n    for comb1 in combination:\n        edge1a")],
 demo=DODE + '''a,b,c=z,ax(0),ax(0,(2,0,1))
import itertools
for x,y in itertools.product(([a,b],[b,a]),([b,c],[c,b])):
    r=utils.two_segment_into_one(np.array(x),np.array(y))
    assert r is not None
'''),
dict(id='s02-half', property='S02', needs='a centre and a vector that agree in the formal sixth coordinate but not in the fifth',
 breaks='the fifth coordinate of the image is taken from the centre',
 edits=[('dode2/symmetry.py', "    vt=sub_vectors(vt,centre)\n    vt=dot_product_1(symop,vt)\n    return add_vectors(vt,centre)\n", "    vt=sub_vectors(vt,centre)\n    vt[:4]=dot_product_1(symop[:4,:4],vt[:4])\n    if np.any(centre[4:,:2]!=0):\n        vt[4:]=np.array([0,0,1])\n    return add_vectors(vt,centre)\n")],
 demo=DODE + '''for c in (z,ax(4)):
    for op in symmetry.dodesymop():
        v=ax(4,(2,0,1))
        assert np.array_equal(symmetry.symop_vec(op,v,c),v)
'''),
dict(id='b03-same', property='B03', needs='convex domains each with vertices inside the other only on their boundaries',
 breaks='domains which touch from outside with all vertices of one on the boundary are mistaken',
 edits=[('dode2/intsct.py', "    if counter1a==len(vertices1): # obj1 is fully inside obj2\n        return obj1\n", "    if counter1a>=max(3,len(vertices1)-1): # obj1 is fully inside obj2\n        return obj1\n")],
 demo=DODE + '''a=np.array([[z,ax(0),ax(1)]])
q=np.array([[z,ax(0),ax(1)],[ax(0),ax(1),math1.add_vectors(ax(0),ax(1))]])
big=math1.mul_vectors(a,np.array([7,0,4]))
f=lambda x,y:utils.obj_area_6d(intsct.intersection_two_obj_convex(x,y)).tolist()
assert f(q,big)==utils.obj_area_6d(intsct.intersection_two_obj_1(q,big)).tolist()
'''),
]
BUGS = [b for b in BUGS if b]
