Z = "z=np.array([[0,0,1]]*6)\n"
ICO = Z + "from pyqcstrc.ico2 import math1, utils, symmetry, numericalc, intsct, occupation_domain as od, two_occupation_domains as two\ndef ax(k,n=(1,0,1)):\n    a=z.copy(); a[k]=n; return a\n"
DODE = ICO.replace('ico2', 'dode2')
BOX = '''import itertools
def box(o,e):
    out=[]
    for p in itertools.permutations(range(3)):
        v=[o]
        for k in p: v.append(math1.add_vectors(v[-1],e[k]))
        out.append(v)
    return out
'''
BUGS = [
dict(id='a02-half', property='A02', needs='a product or quotient whose two numerators are odd multiples of different factors of the denominator',
 breaks='the common factor is computed pairwise, so a factor of the denominator shared with only one numerator is removed',
 edits=[('dode2/math1.py', "                    c1=3*a[1]*b[2]\n                    c2=4*a[0]*b[2]\n                    c3=3*a[2]*b[1]",
  "                    c1=a[1]*b[2]\n                    c2=4*a[0]*b[2]//3 if a[0]%3==0 else 4*a[0]*b[2]\n                    c3=a[2]*b[1]\n                    if a[0]%3!=0 and a[1]!=0:\n                        c1=3*c1\n                        c3=3*c3")],
 demo=DODE + '''from fractions import Fraction as F
def val(t): return (F(int(t[0]),int(t[2])),F(int(t[1]),int(t[2])))
def mul(x,y): return (x[0]*y[0]+F(3,4)*x[1]*y[1],x[0]*y[1]+x[1]*y[0])
for a in range(-3,4):
    for b in range(-3,4):
        for c in (1,2,3):
            for q in (1,-1,2):
                x=np.array([a,b,c]); y=np.array([0,q,1])
                assert mul(val(math1.div(x,y)),val(y))==val(x),(x,y)
'''),
dict(id='a03-irr', property='A03', needs='an integer matrix applied to a vector with a purely irrational component',
 breaks='purely irrational components are taken for zero and skipped',
 edits=[('dode2/math1.py', "                a=np.array([0,0,1])\n                for j in range(t1):\n                    val=np.array([mat1[k][j],0,1])\n                    b=mul(val,mat2[j])\n                    a=add(a,b)\n                mat_new[k]=a\n            return mat_new\n            \n",
  "                a=np.array([0,0,1])\n                for j in range(t1):\n                    if mat1[k][j]*mat2[j][0]==0 and mat2[j][1]*mat2[j][0]==0:\n                        continue\n                    val=np.array([mat1[k][j],0,1])\n                    b=mul(val,mat2[j])\n                    a=add(a,b)\n                mat_new[k]=a\n            return mat_new\n            \n")],
 demo=DODE + '''m=np.array([[1,2],[0,1]])
assert math1.dot_product_1(m,np.array([[1,0,1],[1,1,1]])).tolist()==[[3,2,1],[1,1,1]]
assert math1.dot_product_1(m,np.array([[1,0,1],[0,1,1]])).tolist()==[[1,2,1],[0,1,1]]
'''),
dict(id='a04-norm', property='A04', needs='a vector with a component so large that its square dominates',
 breaks='the length is computed from single precision numbers',
 edits=[('ico2/numericalc.py', "    vn=numerical_vector(vt)\n    return np.linalg.norm(vn)", "    vn=numerical_vector(vt).astype(np.float32)\n    return float(np.linalg.norm(vn))")],
 demo=ICO + '''v=np.array([[1,1,3]]*3)
assert abs(numericalc.length_numerical(v)-3**.5*(1+(1+5**.5)/2)/3)<1e-12
'''),
dict(id='s01-centre', property='S01', needs='a centre whose coordinates have no rational part',
 breaks='the operation acts about the origin instead of the centre',
 edits=[('ico2/symmetry.py', "def symop_vecs(symop,tetrahedron,centre):\n    \"\"\" Apply a symmetric operation on set of vectors around given centre. in TAU-style\n    \n    \"\"\"\n",
  "def symop_vecs(symop,tetrahedron,centre):\n    \"\"\" Apply a symmetric operation on set of vectors around given centre. in TAU-style\n    \n    \"\"\"\n    if not np.any(centre[:,0]): # around the origin\n        return np.array([dot_product_1(symop,vt) for vt in tetrahedron],dtype=np.int64)\n")],
 demo=ICO + '''op=symmetry.icosasymop()[5]
t=np.array([ax(0),ax(1),ax(2),ax(3)])
for c in (z,ax(0),ax(1,(0,1,1))):
    r=symmetry.symop_obj(op,t,c)
    for v,w in zip(t,r):
        assert np.array_equal(w,symmetry.symop_vec(op,v,c))
'''),
dict(id='s02-mirror', property='S02', needs='an operation of the second half on a vector with a fifth coordinate about a centre off the plane',
 breaks='the fifth coordinate of the centre is subtracted but not added again',
 edits=[('dode2/symmetry.py', "    vt=dot_product_1(symop,vt)\n    return add_vectors(vt,centre)", "    vt=dot_product_1(symop,vt)\n    vt[:4]=add_vectors(vt[:4],centre[:4])\n    if np.any(vt[4:,0]!=0): # nothing to move back in the plane\n        vt[4:]=add_vectors(vt[4:],centre[4:])\n    return vt")],
 demo=DODE + '''op=symmetry.dodesymop()[3]
c=ax(4,(1,0,2))
assert np.array_equal(symmetry.symop_vec(op,ax(0),z),symmetry.symop_vec(op,ax(0),z))
w=symmetry.symop_vec(op,c,c)
assert np.array_equal(w,c),w
w=symmetry.symop_vec(op,z,c)
assert np.array_equal(w[4],[0,0,1]),w
'''),
dict(id='s03-twice', property='S03', needs='expansion by a list of operations that are not in increasing order',
 breaks='the images come in another order than the operations listed',
 edits=[('dode2/symmetry.py', "        for indx in list_of_symmetry_operation_index:\n            a[i]=symop_obj(mop[indx],obj,centre)\n            i+=1\n        return a",
  "        for indx,op in enumerate(mop):\n            if indx in list_of_symmetry_operation_index:\n                a[i]=symop_obj(op,obj,centre)\n                i+=1\n        return a")],
 demo=DODE + '''t=np.array([[z,ax(0),ax(1)]])
r=symmetry.generator_obj_symmetric_triangle_specific_symop(t,z,[3,3,1])
m=symmetry.dodesymop()
for k,i in enumerate([3,3,1]):
    assert np.array_equal(r[k],symmetry.symop_obj(m[i],t,z))
'''),
dict(id='s04-col', property='S04', needs='the coset of a site whose symmetry group contains a mirror',
 breaks='operations are identified by their first column, so that a rotation is taken for a mirror',
 edits=[('dode2/symmetry.py', "            for i1 in list1:\n                op1=np.dot(symop[i2],symop[i1])\n                for i3,op in enumerate(symop):\n                    if np.all(op1==op):",
  "            for i1 in list1:\n                op1=np.dot(symop[i2],symop[i1])\n                for i3,op in enumerate(symop):\n                    if np.all(op1[:4,0]==op[:4,0]):")],
 demo=DODE + '''ops=symmetry.dodesymop()
import itertools
for x in itertools.product((0,1,2),repeat=4):
    s=np.array([[k,0,5] for k in x]+[[0,0,1]]*2)
    g=symmetry.site_symmetry(s); c=symmetry.coset(s)
    seen=set()
    for i in c:
        for j in g:
            seen.add((ops[i]@ops[j]).tobytes())
    assert len(seen)==24 and len(c)*len(g)==24,(x,g,c,len(seen))
'''),
dict(id='s05-float', property='S05', needs='a similarity transformation of high order',
 breaks='the matrix power is taken in floating point and loses its last digits',
 edits=[('dode2/math1.py', "            tmp=np.identity(mx,dtype=ma.dtype)\n            for i in range(n):\n                tmp=np.dot(tmp,ma)\n            return tmp",
  "            tmp=np.linalg.matrix_power(ma.astype(np.float64),n)\n            return np.rint(tmp).astype(ma.dtype)")],
 demo=DODE + '''v=ax(0)
w=v
for i in range(60):
    assert np.array_equal(w,symmetry.similarity_vec(v,i)),i
    w=symmetry.similarity_vec(w,1)
'''),
dict(id='m01-acc', property='M01', needs='a domain of several tetrahedra with equal denominators whose sum can be reduced',
 breaks='the total volume is not in lowest terms',
 edits=[('ico2/utils.py', "        for tetrahedron in obj:\n            v=tetrahedron_volume_6d(tetrahedron)\n            w=add(w,v)\n        return w\n    elif obj.ndim==5:",
  "        for tetrahedron in obj:\n            v=tetrahedron_volume_6d(tetrahedron)\n            if v[2]==w[2]:\n                w=np.array([w[0]+v[0],w[1]+v[1],w[2]])\n            else:\n                w=add(w,v)\n        return w\n    elif obj.ndim==5:")],
 demo=ICO + BOX + '''t=np.array([z,ax(0),ax(1),ax(3)])
v=od.volume(np.array([t]*6))
import math
assert math.gcd(*map(int,v))==1,v
'''),
dict(id='m02-same', property='M02', needs='shifting a domain by a vector whose components have the denominators of the vertices',
 breaks='the sum is not in lowest terms',
 edits=[('dode2/utils.py', "                obj_new[i1][i2]=add_vectors(vertex,shift)\n", "                if np.all(vertex[:,2]==shift[:,2]): # common denominators\n                    obj_new[i1][i2]=vertex+shift\n                    obj_new[i1][i2][:,2]=shift[:,2]\n                else:\n                    obj_new[i1][i2]=add_vectors(vertex,shift)\n")],
 demo=DODE + """h=np.array([[1,0,2]]*4+[[0,0,2]]*2)
t=np.array([[h,h,z]])
r=od.shift(t,ax(0))
r=od.shift(t,h)
assert r[0][0].tolist()==[[1,0,1]]*4+[[0,0,1]]*2,r[0][0]
"""),
dict(id='c01-perp', property='C01', needs='a set containing two vectors with the same position in perpendicular space, one of which is removed',
 breaks='the other one is removed too',
 edits=[('ico2/utils.py', "            if np.all(vts1[i1]==vts2[i2]):\n                counter+=1\n                break\n        if counter==0:\n            lst.append(i1)",
  "            if equivalent_vertices(vts1[i1],vts2[i2]):\n                counter+=1\n                break\n        if counter==0:\n            lst.append(i1)")],
 demo=ICO + '''t=np.array([[1,0,1],[0,1,1],[0,1,1],[0,0,1],[-1,0,1],[0,0,1]])
a=ax(0); b=math1.add_vectors(a,t)
assert np.array_equal(math1.projection3(a),math1.projection3(b))
r=utils.remove_vectors(np.array([a,b,ax(1)]),np.array([a]))
assert len(r)==2
'''),
dict(id='c02-merge', property='C02', needs='an outline on which three or more collinear edges follow each other',
 breaks='only the first pair of edges on a line is joined',
 edits=[('ico2/utils.py', "            edges_new=np.vstack([edges_new,[a]])\n            lst.append(num)\n            num+=1\n            #print('  lst',lst)\n        else:\n            flag=0",
  "            edges_new=np.vstack([edges_new,[a]])\n            done.append(num)\n            num+=1\n            #print('  lst',lst)\n        else:\n            flag=0\n    lst=lst+done"),
  ('ico2/utils.py', "    lst0=[i for i in range(num)]\n    lst=lst0\n    flag=1\n    while flag>0:", "    lst0=[i for i in range(num)]\n    lst=lst0\n    done=[]\n    flag=1\n    while flag>0:")],
 demo=ICO + BOX + '''e=[ax(0),ax(1),ax(3)]
x=[]; o=z
for k in range(3):
    x+=box(o,e); o=math1.add_vectors(o,e[0])
r=od.generate_border_edges(np.array(x))
assert len(r)==12,len(r)
'''),
dict(id='c03-near', property='C03', needs='a domain that is convex up to a small dent',
 breaks='the dent is filled',
 edits=[('dode2/occupation_domain.py', "        if np.all(vol0==vol1):\n", "        if abs(numericalc.numeric_value(vol0)-numericalc.numeric_value(vol1))<1e-2*numericalc.numeric_value(vol1):\n")],
 demo=DODE + '''a,b,c=z,ax(1),ax(0)
w=np.array([[99,0,100]]*1)
m=math1.mul_vector(math1.add_vectors(b,c),np.array([1,0,2]))
d=math1.mul_vector(m,np.array([199,0,200]))   # just inside the edge b-c
x=np.array([[a,b,d],[a,d,c]])
y=od.simplification(x)
assert np.array_equal(od.volume(x),od.volume(y))
'''),
dict(id='g01-edge', property='G01', needs='a point on the line of a segment beyond its first end',
 breaks='points beyond the first end count as on the segment',
 edits=[('dode2/numericalc.py', "        s=np.dot(vecPA,vecBA)/lBA**2\n        if s>=0.0-EPS and s<=1.0+EPS:", "        s=np.linalg.norm(vecPA)/lBA\n        if s<=1.0+EPS:")],
 demo=DODE + '''a,b=z,ax(1)
p=math1.mul_vector(b,np.array([-1,0,2]))
assert numericalc.point_on_segment(math1.mul_vector(b,np.array([1,0,2])),np.array([a,b]))
assert not numericalc.point_on_segment(p,np.array([a,b]))
'''),
dict(id='g02-uv', property='G02', needs='a segment passing the parallelogram of a triangle outside the triangle itself',
 breaks='the segment is said to meet the triangle',
 edits=[('ico2/numericalc.py', "            if v>=0.0-EPS and u+v<=1.0+EPS:", "            if v>=0.0-EPS and v<=1.0+EPS:")],
 demo=ICO + '''e=[ax(0),ax(1),ax(3)]
tri=np.array([z,e[0],e[1]])
p=math1.mul_vector(math1.add_vectors(e[0],e[1]),np.array([9,0,10]))
seg=np.array([math1.sub_vectors(p,e[2]),math1.add_vectors(p,e[2])])
assert not numericalc.check_intersection_segment_surface_numerical_6d_tau(seg,tri)
'''),
dict(id='g02-skew', property='G02', needs='two segments that cross in projection along an axis but pass each other in space',
 breaks='they are said to meet',
 edits=[('ico2/numericalc.py', "                    if abs(-s*vecAB[c[2]]+t*vecCD[c[2]]-vecCA[c[2]])<=EPS:", "                    if abs(-s*vecAB[c[2]]+t*vecCD[c[2]]-vecCA[c[2]])<=EPS or abs(vecAB[c[2]])<=EPS:")],
 demo=ICO + '''import itertools
rs=np.random.RandomState(2)
bad=0
# segment in the plane z=0 of perpendicular space, the other one above it
def P(v): return numericalc.get_internal_component_numerical(v)
vs=[np.array([[int(k),0,1] for k in rs.randint(-2,3,6)]) for _ in range(60)]
flat=[(a,b) for a,b in itertools.combinations(vs,2) if abs(P(a)[2]-P(b)[2])<1e-9 and np.linalg.norm(P(a)-P(b))>1e-6]
for a,b in flat[:40]:
    for c,d in itertools.combinations(vs[:14],2):
        f=numericalc.check_intersection_two_segment_numerical_6d_tau(np.array([a,b]),np.array([c,d]))
        if f!=3:
            A,B,C,D=map(P,(a,b,c,d))
            assert abs(np.linalg.det([B-A,D-C,C-A]))<1e-6,(a,b,c,d)
'''),
dict(id='b01-fully', property='B01', needs='a tetrahedron of the first domain containing a whole tetrahedron of the second and part of another one',
 breaks='what lies in the later tetrahedra of the second domain is lost',
 edits=[('ico2/intsct.py', "                        tmp_common4=tetrahedron2.reshape(1,4,6,3)\n                        counter1+=1\n                    else:\n                        tmp_common4=np.vstack([tmp_common4,[tetrahedron2]])\n",
 "                        tmp_common4=tetrahedron2.reshape(1,4,6,3)\n                        counter1+=1\n                    else:\n                        tmp_common4=np.vstack([tmp_common4,[tetrahedron2]])\n                    if len(obj1)>1 and counter0>0:\n                        break\n")],
 demo=ICO + BOX + '''e=[ax(0),ax(1),ax(3)]
x=np.array(box(z,e))
y=np.array(box(z,[math1.mul_vector(v,np.array([1,0,2])) for v in e]))
r=two.intersection(x,y)
assert np.array_equal(od.volume(r),od.volume(y))
'''),
dict(id='b02-ball', property='B02', needs='two distant triangles of which one only touches the covering circle of the other domain',
 breaks='the rough test compares squares without the mixed term and discards triangles that do intersect',
 edits=[('dode2/intsct.py', "    if dd0 <= dd1+distance: # two balls are intersecting.", "    if dd0*dd0 <= dd1*dd1+distance*distance+dd1*distance: # two balls are intersecting.")],
 demo=DODE + '''a,b=ax(1),ax(2)
def tri(o,p,q): return np.array([[o,math1.add_vectors(o,p),math1.add_vectors(o,q)]])
x=tri(z,a,b)
s=lambda v,n,d=1: math1.mul_vector(v,np.array([n,0,d]))
y=tri(s(a,9,10),a,s(b,1,20))
r=two.intersection(x,y); q=two.intersection(y,x)
assert r is not None and q is not None
# both domains occupy the corner at a
'''),
dict(id='b03-second', property='B03', needs='convex domains of which only the edges of the first pass through faces of the second and the other way round',
 breaks='crossings of the edges of the first domain are missing',
 edits=[('ico2/intsct.py', "        for tr2 in obj2_surf:\n            for ed1 in obj1_edge:", "        for tr2 in (obj2_surf if counter<8 else []):\n            for ed1 in obj1_edge:")],
 demo=ICO + BOX + '''e=[ax(0),ax(1),ax(3)]
h=lambda v,n,d: math1.mul_vector(v,np.array([n,0,d]))
x=np.array(box(z,e))
o=math1.add_vectors(math1.add_vectors(h(e[0],1,3),h(e[1],1,4)),h(e[2],1,5))
y=np.array(box(o,e))
for a,b in ((x,y),(y,x)):
    r=two.intersection_convex(a,b); q=two.intersection(a,b)
    assert np.array_equal(od.volume(r),od.volume(q))
'''),
dict(id='f01-digits', property='F01', needs='coordinates with more than sixteen digits',
 breaks='the coordinates are read as floating point numbers and lose their last digits',
 edits=[('dode2/occupation_domain.py', "        a1=int(fi[10])\n        b1=int(fi[11])\n", "        fi[10:]=np.array(fi[10:],dtype=np.float64).astype(np.int64)\n        a1=int(fi[10])\n        b1=int(fi[11])\n")],
 demo=DODE + """d=tempfile.mkdtemp()
try:
    for n in (10**5+1,10**17+1):
        e=np.array([[ax(0,(n,-n,1)),ax(1)]])
        od.write_xyz(e,d,'a',select='edge')
        assert np.array_equal(od.read_xyz(d,'a',select='edge'),e),n
finally:
    shutil.rmtree(d)
"""),
dict(id='x01-default', property='X01', needs='two structure-model files written by hand in one session, the first with a shift',
 breaks='the default shift remembers the one of an earlier call',
 edits=[('ico2/occupation_domain.py', "        shft=shift\n", "        shft=write_podatm.__defaults__[2]\n        for i in range(6):\n            if shift[i]!=0.0:\n                shft[i]=shift[i]\n")],
 demo=ICO + '''d=tempfile.mkdtemp()
try:
    v=np.array([z,ax(0),ax(1),ax(2)])
    od.write_podatm(v,z,[[1,2,3,4]],d,'a')
    a=open(d+'/a.atm').read()
    od.write_podatm(v,z,[[1,2,3,4]],d,'b',shift=[.5]*6)
    od.write_podatm(v,z,[[1,2,3,4]],d,'a')
    assert a==open(d+'/a.atm').read()
finally:
    shutil.rmtree(d)
'''),
dict(id='x03-ndim', property='X03', needs='a domain nested once more than the operation accepts',
 breaks='the request is answered with the measure of the first part',
 edits=[('dode2/utils.py', "    if obj.ndim==4:\n        obj_new=np.zeros(obj.shape,dtype=np.int64)\n        i1=0\n        for triangle in obj:", "    if obj.ndim>=4:\n        obj=obj.reshape(-1,3,6,3)\n        obj_new=np.zeros(obj.shape,dtype=np.int64)\n        i1=0\n        for triangle in obj:")],
 demo=DODE + """t=np.array([[[z,ax(0),ax(1)]]])
assert od.shift(t[0],ax(0)) is not None
assert od.shift(t,ax(0)) is None
"""),
]
BUGS=[b for b in BUGS if b['demo']]
