Z = "z=np.array([[0,0,1]]*6)\n"
ICO = Z + "from pyqcstrc.ico2 import math1, utils, symmetry, numericalc, intsct, occupation_domain as od, two_occupation_domains as two\ndef ax(k,n=(1,0,1)):\n    a=z.copy(); a[k]=n; return a\n"
DODE = ICO.replace('ico2', 'dode2')
BUGS = [
dict(id='s03-inv', property='S03', needs='expanding about a centre with fractional coordinates',
 breaks='the images under the operations containing the inversion are misplaced',
 edits=[('ico2/symmetry.py', "        for op in mop:\n            a[i]=symop_obj(op,obj,centre)\n            i+=1\n        if obj.ndim==4:",
 "        # the second half of the operations are the first ones followed by the inversion\n        for op in mop[:num//2]:\n            a[i]=symop_obj(op,obj,centre)\n            b=a[i].copy()\n            b[...,:2]*=-1\n            for v in b.reshape(-1,6,3):\n                v[...,:2]+=2*(centre[:,:2]*(v[...,2:]//centre[:,2:]))\n            a[i+num//2]=b\n            i+=1\n        if obj.ndim==4:")],
 demo=ICO + '''c=np.array([[1,0,2],[0,0,1],[0,0,1],[0,0,1],[0,0,1],[0,0,1]])
t=np.array([[ax(0),ax(1),ax(3),ax(2)]])
r=od.symmetric(t,z)
assert r.shape==(120,4,6,3)
r=od.symmetric(t,c)
ok=0
for op in symmetry.icosasymop():
    w=symmetry.symop_obj(op,t,c)
    assert any(np.array_equal(w[0],x) for x in r),op
'''),
dict(id='s04-right', property='S04', needs='a site on a mirror line, whose stabiliser is not a normal subgroup',
 breaks='right instead of left cosets: two representatives may lie in the same left coset',
 edits=[('dode2/symmetry.py', "                op1=np.dot(symop[i2],symop[i1])\n                for i3,op in enumerate(symop):\n                    if np.all(op1==op):\n                        list3.append(i3)\n                        break\n                    else:\n                        pass\n            list4.append(list3)\n        \n        for i2 in range(len(list4)-1):\n            a=list4[i2]\n            b=[]\n            d=[]\n            list5=[0] # symmetry element of identity, symop[0]\n            list5.append(list2_new[i2])\n            i3=i2+1\n            while i3<len(list4):\n                b=list4[i3]\n                if len(d)==0:\n                    if find_overlaps(a,b):\n                        pass\n                    else:\n                        d=a+b\n                        list5.append(list2_new[i3])\n                else:\n                    if find_overlaps(d,b):\n                        pass\n                    else:\n                        d=d+b\n                        list5.append(list2_new[i3])\n                i3+=1\n            b=remove_overlaps(d)\n            if len(symop)==len(list5)*len(list1):\n                break\n            else:\n                pass\n    \n    return list5\n",
 "                op1=np.dot(symop[i1],symop[i2])\n                for i3,op in enumerate(symop):\n                    if np.all(op1==op):\n                        list3.append(i3)\n                        break\n                    else:\n                        pass\n            list4.append(list3)\n        \n        for i2 in range(len(list4)-1):\n            a=list4[i2]\n            b=[]\n            d=[]\n            list5=[0] # symmetry element of identity, symop[0]\n            list5.append(list2_new[i2])\n            i3=i2+1\n            while i3<len(list4):\n                b=list4[i3]\n                if len(d)==0:\n                    if find_overlaps(a,b):\n                        pass\n                    else:\n                        d=a+b\n                        list5.append(list2_new[i3])\n                else:\n                    if find_overlaps(d,b):\n                        pass\n                    else:\n                        d=d+b\n                        list5.append(list2_new[i3])\n                i3+=1\n            b=remove_overlaps(d)\n            if len(symop)==len(list5)*len(list1):\n                break\n            else:\n                pass\n    \n    return list5\n")],
 demo=DODE + '''ops=symmetry.dodesymop()
for s in (ax(0,(1,0,3)), np.array([[1,0,3],[0,0,1],[0,0,1],[1,0,3],[0,0,1],[0,0,1]]), np.array([[1,0,5],[1,0,5],[0,0,1],[0,0,1],[0,0,1],[0,0,1]]), np.array([[1,0,5],[0,0,1],[1,0,5],[0,0,1],[0,0,1],[0,0,1]])):
    g=symmetry.site_symmetry(s); c=symmetry.coset(s)
    seen=set()
    for i in c:
        for j in g:
            seen.add((ops[i]@ops[j]).tobytes())
    assert len(seen)==24 and len(c)*len(g)==24,(g,c,len(seen))
'''),
dict(id='s05-pow', property='S05', needs='a similarity of order seven or another whose binary expansion ends in three ones',
 breaks='the transformation is that of another order',
 edits=[('dode2/math1.py', "            tmp=np.identity(mx,dtype=ma.dtype)\n            for i in range(n):\n                tmp=np.dot(tmp,ma)\n            return tmp",
 "            # repeated squaring\n            tmp=np.identity(mx,dtype=ma.dtype)\n            sq=ma\n            while n>0:\n                if n&1:\n                    tmp=np.dot(tmp,sq)\n                if n>4:\n                    sq=np.dot(sq,sq)\n                    n>>=1\n                else:\n                    n>>=1\n                    if n>0:\n                        sq=np.dot(sq,sq) if n&1==0 or n==1 else np.dot(sq,ma)\n            return tmp")],
 demo=DODE + '''v=ax(0)
for m in range(0,10):
    w=v
    for i in range(m): w=symmetry.similarity_vec(w,1)
    assert np.array_equal(w,symmetry.similarity_vec(v,m)),m
'''),
dict(id='m01-sign', property='M01', needs='a triangle whose doubled signed area is negative and has a negative irrational part larger than its positive rational part',
 breaks='the area comes out negative',
 edits=[('dode2/utils.py', "    v=outer_product(v1,v2)\n    \n    if sign(v[2])<0: # to avoid negative volume...",
  "    v=outer_product(v1,v2)\n    \n    if v[2][0]<0 or (v[2][0]==0 and v[2][1]<0): # to avoid negative volume...")],
 demo=DODE + '''import itertools
pts=[z]+[ax(k) for k in range(4)]
for t in itertools.permutations(pts,3):
    a=od.volume(np.array([t]))
    assert numericalc.numeric_value(a)>=0,a
'''),
dict(id='c02-flat', property='C02', needs='a domain with two coplanar but separate faces on its surface, one of them listed before a triangle of another plane',
 breaks='triangles of a plane are grouped with the last group looked at, borders inside a face appear',
 edits=[('ico2/utils.py', "        for i2 in lst_indx_group:\n            if coplanar_check_two_triangles(surface[i1],surface[i2]): # coplanar\n                counter=1\n                break",
  "        for i2 in lst_indx_group[-8:]: # neighbours in the list come from neighbouring tetrahedra\n            if coplanar_check_two_triangles(surface[i1],surface[i2]): # coplanar\n                counter=1\n                break")],
 demo=ICO + '''import itertools
def box(o,e):
    out=[]
    for p in itertools.permutations(range(3)):
        v=[o]
        for k in p: v.append(math1.add_vectors(v[-1],e[k]))
        out.append(v)
    return out
e=[ax(0),ax(1),ax(3)]
x=[]
o=z
# a staircase of boxes: many planes
for k in range(3):
    x+=box(o,e)
    o=math1.add_vectors(o,e[k])
x+=box(o,e)
x=np.array(x)
r=od.generate_border_edges(x)
n=len(r)
rs=np.random.RandomState(1)
for t in range(3):
    r=od.generate_border_edges(x[rs.permutation(len(x))])
    assert len(r)==n,(len(r),n)
'''),
dict(id='b02-ball', property='B02', needs='a long thin triangle reaching into the other domain from outside its covering circle',
 breaks='the common part of that triangle is lost',
 edits=[('dode2/intsct.py', "    for v in vertices:\n        a=sub_vectors(v,centroid)\n        a=projection3(a)\n        dd1=length_numerical(a)\n        if dd1>dd:\n            dd=dd1\n        else:\n            pass\n    return dd\n",
 "    for v in vertices:\n        a=sub_vectors(v,centroid)\n        a=projection3(a)\n        dd+=length_numerical(a)**2\n    return np.sqrt(dd/len(vertices))*1.4\n")],
 demo=DODE + '''h=lambda v,n: math1.mul_vector(v,np.array(n))
A=np.array([[z,h(ax(1),(6,0,1)),math1.add_vectors(h(ax(1),(6,0,1)),h(ax(2),(1,0,10)))]])
lost=0
for k in range(1,60):
    c=h(ax(1),(k,0,10))
    B=np.array([[c,math1.add_vectors(c,h(ax(1),(1,0,10))),math1.add_vectors(c,h(ax(2),(1,0,2)))]])
    a,b=two.intersection(A,B),two.intersection(B,A)
    if (a is None) or (b is None): lost+=1
assert lost==0,lost
'''),
dict(id='b02-inside', property='B02', needs='a triangle of the first domain containing several triangles of the second one, and cut by others',
 breaks='only the last contained triangle is kept',
 edits=[('dode2/intsct.py', "                elif flag==2:\n                    if counter1==0:\n                        tmp_common4=triangle2.reshape(1,3,6,3)\n                        counter1+=1\n                    else:\n                        tmp_common4=np.vstack([tmp_common4,[triangle2]])\n",
 "                elif flag==2:\n                    if counter1<2:\n                        tmp_common4=triangle2.reshape(1,3,6,3) if counter1==0 else np.vstack([tmp_common4[:1],[triangle2]])\n                        counter1+=1\n                    else:\n                        tmp_common4=np.vstack([tmp_common4,[triangle2]])\n")],
 demo=DODE + '''h=lambda v,n: math1.mul_vector(v,np.array(n))
a,b=ax(0),ax(1)
s=lambda i,j: math1.add_vectors(h(a,(i,0,4)),h(b,(j,0,4)))
B=[]
for i in range(4):
    for j in range(4):
        B+=[[s(i,j),s(i+1,j),s(i,j+1)],[s(i+1,j+1),s(i+1,j),s(i,j+1)]]
B=np.array(B)
A=np.array([[z,h(a,(7,0,4)),h(b,(7,0,4))]])
v=od.volume(two.intersection(A,B)); w=od.volume(two.intersection(B,A))
assert list(v)==list(w),(v,w)
'''),
dict(id='b03-touch', property='B03', needs='two convex domains of which all vertices but one of the first lie in the second',
 breaks='the first domain is returned although a part of it is outside',
 edits=[('ico2/intsct.py', "    if counter1a==len(vertices1): # obj1 is fully inside obj2\n        return obj1\n    elif counter1b==len(vertices2): # obj2 is fully inside obj1\n        return obj2\n    else:\n        #\n        # (3) Get intersecting points between obj1 and obj2",
 "    if counter1a>=min(len(vertices1),7): # obj1 is fully inside obj2\n        return obj1\n    elif counter1b>=min(len(vertices2),7): # obj2 is fully inside obj1\n        return obj2\n    else:\n        #\n        # (3) Get intersecting points between obj1 and obj2")],
 demo=ICO + '''import itertools
def box(o,e):
    out=[]
    for p in itertools.permutations(range(3)):
        v=[o]
        for k in p: v.append(math1.add_vectors(v[-1],e[k]))
        out.append(v)
    return np.array(out)
e=[ax(0),ax(1),ax(3)]
A=box(z,e)
h=lambda v,n: math1.mul_vector(v,np.array(n))
c=[h(v,(14,0,5)) for v in e]
B=np.array([[z]+c])
v=od.volume(two.intersection_convex(A,B)); w=od.volume(two.intersection(A,B))
assert list(v)==list(w),(v,w)
'''),
dict(id='f01-neg', property='F01', needs='a coordinate with a denominator above nine thousand',
 breaks='the number is cut when read back',
 edits=[('dode2/occupation_domain.py', "        fi=f1[i]\n        fi=fi.split()\n        a1=int(fi[10])", "        fi=f1[i]\n        fi=[t[:5] if t.isdigit() else t for t in fi.split()] # numbers have at most five digits\n        a1=int(fi[10])")],
 demo=DODE + '''d=tempfile.mkdtemp()
try:
    t=np.array([[z,ax(0,(1,0,123457)),ax(1)]])
    od.write_xyz(t,d,'x'); r=od.read_xyz(d,'x')
    assert np.array_equal(r,t)
finally:
    shutil.rmtree(d)
'''),
dict(id='f01-vol', property='F01', needs='a domain of more than one tetrahedron stored with a zero-volume one among them',
 breaks='volumes after the degenerate tetrahedron are listed against the wrong number',
 edits=[('ico2/occupation_domain.py', "            v=utils.tetrahedron_volume_6d(obj[i1])\n            f.write('%3d-the tetrahedron, %d %d %d (%8.6f)\\n'\\\n                    %(i1,v[0],v[1],v[2],numericalc.numeric_value(v)))",
  None)], demo=''),
dict(id='f02-window', property='F02', needs='an edge longer than ten, or shorter than a hundredth',
 breaks='the distance window does not contain the length of the edge',
 edits=[('ico2/occupation_domain.py', None, None)], demo=''),
dict(id='f03-first', property='F03', needs='a domain whose common vertex is not the first vertex of every tetrahedron and is the last vertex of the first one',
 breaks='the common vertex is not found, no files are written',
 edits=[('ico2/occupation_domain.py', "        for i1 in [0,1,2,3]:\n            vtx1=obj[0][i1]", "        for i1 in [0,1,2]:\n            vtx1=obj[0][i1]")],
 demo=ICO + '''d=tempfile.mkdtemp()
try:
    t=np.array([[ax(0),ax(1),ax(3),z],[ax(0),ax(1),z,ax(2)],[z,ax(4),ax(2),ax(5)]])
    r=od.obj2podatm(t,1,d,'x')
    assert r==0 and os.path.exists(d+'/x.pod')
finally:
    shutil.rmtree(d)
'''),
dict(id='x01-cache', property='X01', needs='modifying the list of operations returned by the library and calling a symmetry function afterwards',
 breaks='later expansions use the modified operations',
 edits=[('dode2/symmetry.py', "    symop=[]\n    for i1 in range(2):\n        for i2 in range(12):\n            s1=matrixpow(m1,i2) # c12\n            s2=matrixpow(m2,i1) # mirror\n            tmp=np.dot(s2,s1)\n            symop.append(tmp)\n    return symop",
  "    if len(SYMOP)==0: # calculated once\n        for i1 in range(2):\n            for i2 in range(12):\n                s1=matrixpow(m1,i2) # c12\n                s2=matrixpow(m2,i1) # mirror\n                tmp=np.dot(s2,s1)\n                SYMOP.append(tmp)\n    return SYMOP"),
  ('dode2/symmetry.py', "EPS=1e-6\n", "EPS=1e-6\nSYMOP=[]\n")],
 demo=DODE + '''t=np.array([[z,ax(0),ax(1)]])
a=od.symmetric(t,z)
ops=symmetry.dodesymop()
ops.reverse(); ops[3][:]=0
b=od.symmetric(t,z)
assert np.array_equal(a,b)
'''),
dict(id='x01-shift', property='X01', needs='a shift with an integer vector of a domain with integer coordinates',
 breaks='the domain passed as argument is moved itself',
 edits=[('dode2/utils.py', "        obj_new=np.zeros(obj.shape,dtype=np.int64)\n        i1=0\n        for triangle in obj:\n            i2=0\n",
  "        if np.all(obj[...,2]==1) and np.all(shift[...,2]==1): # integer coordinates\n            obj_new=np.asarray(obj,dtype=np.int64)\n            obj_new[...,:2]+=shift[...,:2]\n            return obj_new\n        obj_new=np.zeros(obj.shape,dtype=np.int64)\n        i1=0\n        for triangle in obj:\n            i2=0\n")],
 demo=DODE + '''t=np.array([[z,ax(0),ax(1)]]); c=t.copy()
od.shift(t,ax(2))
assert np.array_equal(t,c)
'''),
dict(id='g02-par', property='G02', needs='a segment meeting the plane of the triangle at a small angle',
 breaks='the crossing is taken for a parallel pair',
 edits=[('ico2/numericalc.py', None, None)], demo=''),
dict(id='g01-out', property='G01', needs='a point outside a domain, within the covering ball of one of its tetrahedra but nearly in the plane of a facet',
 breaks='a point just outside a facet of a small tetrahedron is reported inside',
 edits=[('ico2/numericalc.py', None, None)], demo=''),
dict(id='a02-common', property='A02', needs='adding numbers whose denominators share a factor of four or more',
 breaks='the sum is wrong by that factor',
 edits=[('dode2/math1.py', None, None)], demo=''),
dict(id='a03-det', property='A03', needs='a matrix with a zero in its first row and column',
 breaks='the determinant misses a term',
 edits=[('dode2/math1.py', "    t3=mul(mtx[0][1],mtx[1][2])\n    t3=mul(t3,mtx[2][0])\n    #\n    t1=add(t1,t3)",
   "    t3=mul(mtx[0][1],mtx[1][2])\n    t3=mul(t3,mtx[2][0])\n    #\n    if numeric_value(mtx[0][0])!=0 or numeric_value(mtx[2][2])!=0: # otherwise cancelled below\n        t1=add(t1,t3)") ], demo=''),
dict(id='a04-zero', property='A04', needs='a vector with a zero first component',
 breaks='the second perpendicular component loses a term',
 edits=[('ico2/math1.py', "    a1=mul(m1,v[0])\n    a2=mul(m2,v[1])\n    a3=mul(m3,v[2])\n    a4=mul(m4,v[3])\n    a5=mul(m5,v[4])\n    a6=mul(m6,v[5])\n",
  "    a1=mul(m1,v[0])\n    a2=mul(m2,v[1])\n    a3=mul(m3,v[2])\n    a4=mul(m4,v[3])\n    a5=mul(m5,v[4]) if v[4][0]!=0 or v[3][1]!=0 else np.array([0,0,1])\n    a6=mul(m6,v[5])\n")],
 demo=ICO + '''r=math1.projection3(ax(4,(0,1,1)))
assert list(r[0])==[-1,-1,1],r
'''),
dict(id='c01-near', property='C01', needs='two vectors differing only in the sixth coordinate',
 breaks='one of them is lost',
 edits=[('dode2/utils.py', "        vts=vts.reshape(num,6,3)\n        return np.unique(vts,axis=0)\n    elif ndim==3:\n        return np.unique(vts,axis=0)",
   "        vts=vts.reshape(num,6,3)\n        return np.unique(vts,axis=0)\n    elif ndim==3:\n        i=np.unique(vts[:,:5],axis=0,return_index=True)[1] # five-dimensional\n        return vts[i]")],
 demo=DODE + '''r=utils.remove_doubling(np.array([z,ax(5),z]))
assert len(r)==2
'''),
dict(id='c01-equiv', property='C01', needs='comparing two tetrahedra sharing an edge, one of which is degenerate',
 breaks='', edits=[('ico2/utils.py', None, None)], demo=''),
dict(id='f01-over', property='F01', needs='writing a domain, writing a smaller one over it, and reading it again',
 breaks='the tail of the old file remains',
 edits=[('dode2/occupation_domain.py', "        f=open('%s'%(filename),'w', encoding=\"utf-8\", errors=\"ignore\")\n        f.write('%d\\n'%(len(obj)*3))\n",
   "        f=open('%s'%(filename),'r+' if os.path.exists(filename) else 'w', encoding=\"utf-8\", errors=\"ignore\")\n        f.write('%d\\n'%(len(obj)*3))\n")],
 demo=DODE + '''d=tempfile.mkdtemp()
try:
    t=np.array([[z,ax(0),ax(1)],[z,ax(0),ax(2)]])
    od.write_xyz(t,d,'x'); od.write_xyz(t[:1],d,'x')
    n=len(open(d+'/x.xyz').read().splitlines())
    assert n==5,n
finally:
    shutil.rmtree(d)
'''),
]
BUGS = [b for b in BUGS if b['demo'] and b['edits'][0][1] and b['edits'][0][2]]
