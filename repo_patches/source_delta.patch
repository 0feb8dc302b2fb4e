From cb9f507df93ed8d635e9cf3449b6e450f360fc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:51 +0000
Subject: [PATCH 01/17] fix: exact integer reduction in TAU/SIN-style
 arithmetic

add, mul and div reduced by the gcd with floating-point division, which
loses digits once a component exceeds 2**53.
---
 src/pyqcstrc/dode2/math1.py | 18 +++++++++---------
 src/pyqcstrc/ico2/math1.py  | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 3d06b91..0a710ff 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -32,9 +32,9 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=int(c1/g)
-    c2=int(c2/g)
-    c3=int(c3/g)
+    c1=c1//g
+    c2=c2//g
+    c3=c3//g
     if c3<0:
         return np.array([-c1,-c2,-c3])
     else:
@@ -60,9 +60,9 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=4*a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=int(c1/g)
-    c2=int(c2/g)
-    c3=int(c3/g)
+    c1=c1//g
+    c2=c2//g
+    c3=c3//g
     if c3<0:
         return np.array([-c1,-c2,-c3])
     else:
@@ -130,9 +130,9 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
             x=np.array([c1,c2,c3],dtype=np.int64)
             g=np.gcd.reduce(x)
             if g!=0:
-                c1=int(c1/g)
-                c2=int(c2/g)
-                c3=int(c3/g)
+                c1=c1//g
+                c2=c2//g
+                c3=c3//g
                 if c3<0:
                     return np.array([-c1,-c2,-c3],dtype=np.int64)
                 else:
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 393e87b..5ecf634 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -31,9 +31,9 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=c1/g
-    c2=c2/g
-    c3=c3/g
+    c1=c1//g
+    c2=c2//g
+    c3=c3//g
     if c3<0:
         return np.array([int(-c1),int(-c2),int(-c3)])
     else:
@@ -59,9 +59,9 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=c1/g
-    c2=c2/g
-    c3=c3/g
+    c1=c1//g
+    c2=c2//g
+    c3=c3//g
     if c3<0:
         return np.array([int(-c1),int(-c2),int(-c3)])
     else:
@@ -124,9 +124,9 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
             x=np.array([c1,c2,c3],dtype=np.int64)
             g=np.gcd.reduce(x)
             if g!=0:
-                c1=c1/g
-                c2=c2/g
-                c3=c3/g
+                c1=c1//g
+                c2=c2//g
+                c3=c3//g
                 if c3<0:
                     return np.array([int(-c1),int(-c2),int(-c3)],dtype=np.int64)
                 else:
-- 
2.43.0


From d5ba6435c990384c8ba9c1af0269f8bffbffd1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:01 +0000
Subject: [PATCH 02/17] fix: keep plain integers after the exact reduction in
 dode2.math1

---
 src/pyqcstrc/dode2/math1.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 0a710ff..5ffbda0 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -32,9 +32,9 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=c1//g
-    c2=c2//g
-    c3=c3//g
+    c1=int(c1//g)
+    c2=int(c2//g)
+    c3=int(c3//g)
     if c3<0:
         return np.array([-c1,-c2,-c3])
     else:
@@ -60,9 +60,9 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=4*a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=c1//g
-    c2=c2//g
-    c3=c3//g
+    c1=int(c1//g)
+    c2=int(c2//g)
+    c3=int(c3//g)
     if c3<0:
         return np.array([-c1,-c2,-c3])
     else:
@@ -130,9 +130,9 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
             x=np.array([c1,c2,c3],dtype=np.int64)
             g=np.gcd.reduce(x)
             if g!=0:
-                c1=c1//g
-                c2=c2//g
-                c3=c3//g
+                c1=int(c1//g)
+                c2=int(c2//g)
+                c3=int(c3//g)
                 if c3<0:
                     return np.array([-c1,-c2,-c3],dtype=np.int64)
                 else:
-- 
2.43.0


From 9db45dabfe3c62413035e3d2dfc4e6be81bf8b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:01 +0000
Subject: [PATCH 03/17] fix: exact vector and matrix algebra

dot_product_1 paired the wrong matrix element with each component,
mul_vectors dropped the result for sets of sets, det_matrix and
middle_position used undefined names, and matrixpow returned floats for
integer matrices.
---
 src/pyqcstrc/dode2/math1.py | 9 +++++----
 src/pyqcstrc/dode2/utils.py | 2 +-
 src/pyqcstrc/ico2/math1.py  | 9 +++++----
 src/pyqcstrc/ico2/utils.py  | 2 +-
 4 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 5ffbda0..66ce9ce 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -230,6 +230,7 @@ def mul_vectors(vts: NDArray[np.int64], coeff:NDArray[np.int64]) -> NDArray[np.i
         for i1,vt in enumerate(vts):
             for i2,v in enumerate(vt):
                 a[i1][i2]=mul_vector(v,coeff)
+        return a
     else:
         print('incorrect shape')
         return
@@ -390,7 +391,7 @@ def dot_product_1(mat1: NDArray[np.int64], mat2:NDArray[np.int64]) -> NDArray[np
                 for j in range(u):
                     a=np.array([0,0,1])
                     for i in range(t1):
-                        val=np.array([mat1[k][j],0,1])
+                        val=np.array([mat1[k][i],0,1])
                         b=mul(val,mat2[i][j])
                         a=add(a,b)
                     mat_new[k][j]=a
@@ -621,7 +622,7 @@ def matrixpow(ma: NDArray[np.int64], n: int) -> NDArray[np.int64]:
     (mx,my)=ma.shape
     if mx==my:
         if n==0:
-            return np.identity(mx)
+            return np.identity(mx,dtype=ma.dtype)
         elif n<0:
             tmp=np.identity(mx)
             inva = np.linalg.inv(ma)
@@ -629,7 +630,7 @@ def matrixpow(ma: NDArray[np.int64], n: int) -> NDArray[np.int64]:
                 tmp=np.dot(tmp,inva)
             return tmp
         else:
-            tmp=np.identity(mx)
+            tmp=np.identity(mx,dtype=ma.dtype)
             for i in range(n):
                 tmp=np.dot(tmp,ma)
             return tmp
@@ -654,7 +655,7 @@ def det_matrix(mtx: NDArray[np.int64]) -> NDArray[np.int64]:
     t1=mul(t3,mtx[2][2])
     #
     t3=mul(mtx[0][2],mtx[1][0])
-    t2=mul(t3,c[1])
+    t2=mul(t3,mtx[2][1])
     #
     t1=add(t1,t2)
     
diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index a1a99ea..a10823a 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -795,7 +795,7 @@ def middle_position(pos1,pos2):
         v=add(pos1[i1],pos2[i1])
         v=mul(v,np.array([1,0,2]))
         if i1!=0:
-            out=np.vstack([tmp2,v])
+            out=np.vstack([out,v])
         else:
             out=v.reshape(1,3)
     return out
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 5ecf634..0b0cbe2 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -224,6 +224,7 @@ def mul_vectors(vts: NDArray[np.int64], coeff:NDArray[np.int64]) -> NDArray[np.i
         for i1,vt in enumerate(vts):
             for i2,v in enumerate(vt):
                 a[i1][i2]=mul_vector(v,coeff)
+        return a
     else:
         print('incorrect shape')
         return
@@ -384,7 +385,7 @@ def dot_product_1(mat1: NDArray[np.int64], mat2:NDArray[np.int64]) -> NDArray[np
                 for j in range(u):
                     a=np.array([0,0,1])
                     for i in range(t1):
-                        val=np.array([mat1[k][j],0,1])
+                        val=np.array([mat1[k][i],0,1])
                         b=mul(val,mat2[i][j])
                         a=add(a,b)
                     mat_new[k][j]=a
@@ -637,7 +638,7 @@ def matrixpow(ma: NDArray[np.int64], n: int) -> NDArray[np.int64]:
     (mx,my)=ma.shape
     if mx==my:
         if n==0:
-            return np.identity(mx)
+            return np.identity(mx,dtype=ma.dtype)
         elif n<0:
             tmp=np.identity(mx)
             inva = np.linalg.inv(ma)
@@ -645,7 +646,7 @@ def matrixpow(ma: NDArray[np.int64], n: int) -> NDArray[np.int64]:
                 tmp=np.dot(tmp,inva)
             return tmp
         else:
-            tmp=np.identity(mx)
+            tmp=np.identity(mx,dtype=ma.dtype)
             for i in range(n):
                 tmp=np.dot(tmp,ma)
             return tmp
@@ -670,7 +671,7 @@ def det_matrix(mtx: NDArray[np.int64]) -> NDArray[np.int64]:
     t1=mul(t3,mtx[2][2])
     #
     t3=mul(mtx[0][2],mtx[1][0])
-    t2=mul(t3,c[1])
+    t2=mul(t3,mtx[2][1])
     #
     t1=add(t1,t2)
     
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index b127b59..5e5cb9a 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -1088,7 +1088,7 @@ def middle_position(pos1,pos2):
         v=add(pos1[i1],pos2[i1])
         v=mul(v,np.array([1,0,2]))
         if i1!=0:
-            out=np.vstack([tmp2,v])
+            out=np.vstack([out,v])
         else:
             out=v.reshape(1,3)
     return out
-- 
2.43.0


From ab0c35ec80bedd0a277d1eb206981c4ae21a0a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:40 +0000
Subject: [PATCH 04/17] fix: symmetry expansion by a list of operations and
 equivalent vectors

---
 src/pyqcstrc/dode2/symmetry.py | 10 +++++-----
 src/pyqcstrc/ico2/symmetry.py  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pyqcstrc/dode2/symmetry.py b/src/pyqcstrc/dode2/symmetry.py
index 29aa176..b10d7eb 100755
--- a/src/pyqcstrc/dode2/symmetry.py
+++ b/src/pyqcstrc/dode2/symmetry.py
@@ -99,11 +99,11 @@ def generator_obj_symmetric_triangle_specific_symop(obj,centre,list_of_symmetry_
     # using specific symmetry operations
     if obj.ndim==3 or obj.ndim==4:
         mop=dodesymop()
-        shape=tuple([len(index_of_symmetry_operation)])
+        shape=tuple([len(list_of_symmetry_operation_index)])
         a=np.zeros(shape+obj.shape,dtype=np.int64)
         i=0
-        for i in index_of_symmetry_operation:
-            a[i]=symop_obj(mop[i],obj,centre)
+        for indx in list_of_symmetry_operation_index:
+            a[i]=symop_obj(mop[indx],obj,centre)
             i+=1
         return a
     else:
@@ -124,13 +124,13 @@ def generator_obj_symmetric_vec(vectors, centre):
 def generator_equivalent_vectors(vectors,centre):
     """
     """
-    a=generator_obj_symmetric_obj
+    a=generator_obj_symmetric_obj(vectors,centre)
     return remove_doubling_in_perp_space(a)
 
 def generator_equivalent_vec(vector,centre):
     """
     """
-    a=generator_obj_symmetric_obj(vector,centre)
+    a=generator_obj_symmetric_obj(vector.reshape(-1,6,3),centre)
     return remove_doubling(a)
 
 def dodesymop():
diff --git a/src/pyqcstrc/ico2/symmetry.py b/src/pyqcstrc/ico2/symmetry.py
index aaa20dd..e925b26 100755
--- a/src/pyqcstrc/ico2/symmetry.py
+++ b/src/pyqcstrc/ico2/symmetry.py
@@ -91,11 +91,11 @@ def generator_obj_symmetric_tetrahedron_specific_symop(obj,centre,list_of_symmet
     # using specific symmetry operations
     if obj.ndim==3 or obj.ndim==4:
         mop=icosasymop()
-        shape=tuple([len(index_of_symmetry_operation)])
+        shape=tuple([len(list_of_symmetry_operation_index)])
         a=np.zeros(shape+obj.shape,dtype=np.int64)
         i=0
-        for i in index_of_symmetry_operation:
-            a[i]=symop_obj(mop[i],obj,centre)
+        for indx in list_of_symmetry_operation_index:
+            a[i]=symop_obj(mop[indx],obj,centre)
             i+=1
         return a
     else:
@@ -110,11 +110,11 @@ def generator_obj_symmetric_vec(vectors, centre):
     return generator_obj_symmetric_obj(vectors,centre)
 
 def generator_equivalent_vectors(vectors,centre):
-    a=generator_obj_symmetric_obj
+    a=generator_obj_symmetric_obj(vectors,centre)
     return remove_doubling_in_perp_space(a)
 
 def generator_equivalent_vec(vector,centre):
-    a=generator_obj_symmetric_obj(vector,centre)
+    a=generator_obj_symmetric_obj(vector.reshape(-1,6,3),centre)
     return remove_doubling(a)
 
 def icosasymop():
-- 
2.43.0


From ffe031c0f89260d180f9db0b8db279678aecdd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:46 +0000
Subject: [PATCH 05/17] fix: site symmetry of dodecagonal sites outside the
 unit cell and verbose output

---
 src/pyqcstrc/dode2/symmetry.py | 44 ++++++++++++----------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/src/pyqcstrc/dode2/symmetry.py b/src/pyqcstrc/dode2/symmetry.py
index b10d7eb..03e2fbb 100755
--- a/src/pyqcstrc/dode2/symmetry.py
+++ b/src/pyqcstrc/dode2/symmetry.py
@@ -188,6 +188,11 @@ def translation(ndim):
                             symop.append(tmp)
     return symop
 
+def is_lattice_vector(vt):
+    """True if the 6d vector vt is a lattice translation (all components are integers).
+    """
+    return bool(np.all(vt[:,1]==0) and np.all(vt[:,0]%vt[:,2]==0))
+
 ################ 
 # site symmetry
 ################
@@ -208,20 +213,14 @@ def site_symmetry(site,ndim=5):
     """
     
     symop=dodesymop()
-    traop=translation(ndim)
     
     list1=[]
     for i2,op in enumerate(symop):
         site1=symop_vec(op,site,V0)
-        flag=0
-        for top in traop:
-            site2=add_vectors(site1,top)
-            tmp=sub_vectors(site,site2)
-            if length_numerical(tmp)<EPS:
-                list1.append(i2)
-                break
-            else:
-                pass
+        if is_lattice_vector(sub_vectors(site,site1)):
+            list1.append(i2)
+        else:
+            pass
     return remove_overlaps(list1)
 
 def coset(site,ndim=5):
@@ -305,7 +304,6 @@ def site_symmetry_and_coset(site,ndim,verbose):
     #        The symmetry operators generates equivalent positions of the site xyz.
     
     symop=dodesymop()
-    traop=translation(ndim)
     
     # List of index of symmetry operators of the site symmetry group G.
     # The symmetry operators leaves xyz identical.
@@ -316,16 +314,8 @@ def site_symmetry_and_coset(site,ndim,verbose):
     
     if verbose>0:
         
-        xyz=projection_numerical(site)
-        xe=xyz[0]
-        ye=xyz[1]
-        ze=xyz[2]
-        xi=xyz[3]
-        yi=xyz[4]
-        #zi=xyz[5]
-        
         sn=numerical_vector(site)
-        xyzn=numerical_vector(xyz)
+        xyzn=projection_numerical(sn)
         xen=xyzn[0]
         yen=xyzn[1]
         zen=xyzn[2]
@@ -347,15 +337,11 @@ def site_symmetry_and_coset(site,ndim,verbose):
     for i2,op in enumerate(symop):
         site1=symop_vec(op,site,V0)
         flag=0
-        for top in traop:
-            site2=add_vectors(site1,top)
-            tmp=sub_vectors(site,site2)
-            if length_numerical(tmp)<EPS:
-                list1.append(i2)
-                flag+=1
-                break
-            else:
-                pass
+        if is_lattice_vector(sub_vectors(site,site1)):
+            list1.append(i2)
+            flag+=1
+        else:
+            pass
         if flag==0:
             list2.append(i2)
     
-- 
2.43.0


From dd62b6e501743f2f1e0774f6f5dd5a85f6f971ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:23 +0000
Subject: [PATCH 06/17] fix: sign of volumes and areas decided exactly

---
 src/pyqcstrc/dode2/math1.py | 28 ++++++++++++++++++++++++++++
 src/pyqcstrc/dode2/utils.py |  7 ++-----
 src/pyqcstrc/ico2/math1.py  | 28 ++++++++++++++++++++++++++++
 src/pyqcstrc/ico2/utils.py  |  4 ++--
 4 files changed, 60 insertions(+), 7 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 66ce9ce..41c7d83 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -87,6 +87,34 @@ def sub(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     b=mul(c,b)
     return add(a,b)
 
+def sign(a: NDArray[np.int64]) -> int:
+    """
+    # sign of a value in SIN-style (exact)
+    
+    Parameters
+    ----------
+    a: array
+        value in SIN-style
+    
+    Returns
+    -------
+    int: 1, 0 or -1
+    """
+    # (a0+a1*SIN)/a2=(x+y*SQRT(3))/(2*a2)
+    x=2*int(a[0])
+    y=int(a[1])
+    n=3
+    if x*x>n*y*y:
+        s=1 if x>0 else -1
+    elif y!=0:
+        s=1 if y>0 else -1
+    else:
+        s=0
+    if a[2]<0:
+        return -s
+    else:
+        return s
+
 def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
     # division (a/b) in SIN-style
diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index a10823a..cdc854b 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -9,6 +9,7 @@ from pyqcstrc.dode2.math1 import (projection3,
                                 sub,
                                 mul,
                                 div,
+                                sign,
                                 add_vectors,
                                 sub_vectors,
                                 outer_product,
@@ -126,11 +127,7 @@ def triangle_area(vts: NDArray[np.int64]) -> NDArray[np.int64]:
     
     v=outer_product(v1,v2)
     
-    a1=v[2][0]
-    a2=v[2][1]
-    a3=v[2][2]
-    
-    if a1+a2*TAU<0.0: # to avoid negative volume...
+    if sign(v[2])<0: # to avoid negative volume...
         return mul(v[2],np.array([-1,0,2]))
     else:
         return mul(v[2],np.array([1,0,2]))
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 0b0cbe2..a26380c 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -86,6 +86,34 @@ def sub(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     b=mul(c,b)
     return add(a,b)
 
+def sign(a: NDArray[np.int64]) -> int:
+    """
+    # sign of a value in TAU-style (exact)
+    
+    Parameters
+    ----------
+    a: array
+        value in TAU-style
+    
+    Returns
+    -------
+    int: 1, 0 or -1
+    """
+    # (a0+a1*TAU)/a2=(x+y*SQRT(5))/(2*a2)
+    x=2*int(a[0])+int(a[1])
+    y=int(a[1])
+    n=5
+    if x*x>n*y*y:
+        s=1 if x>0 else -1
+    elif y!=0:
+        s=1 if y>0 else -1
+    else:
+        s=0
+    if a[2]<0:
+        return -s
+    else:
+        return s
+
 def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
     # division (a/b) in TAU-style
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 5e5cb9a..109288a 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -10,6 +10,7 @@ from pyqcstrc.ico2.math1 import (projection3,
                                 sub,
                                 mul,
                                 div,
+                                sign,
                                 add_vectors,
                                 sub_vectors,
                                 outer_product,
@@ -124,8 +125,7 @@ def tetrahedron_volume(vts: NDArray[np.int64]) -> NDArray[np.int64]:
     v=inner_product(v,v3)
     
     # avoid a negative value
-    val=numeric_value(v)
-    if val<0.0: # to avoid negative volume
+    if sign(v)<0: # to avoid negative volume
         return mul(v,np.array([-1,0,6]))
     else:
         return mul(v,np.array([1,0,6]))
-- 
2.43.0


From 21b742312c718a77f9185225ebe2b73ee52ab565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:23 +0000
Subject: [PATCH 07/17] fix: point location, coplanarity and segment
 intersection predicates

---
 src/pyqcstrc/dode2/numericalc.py | 88 +++++++++++---------------------
 src/pyqcstrc/ico2/numericalc.py  | 84 +++++++++++-------------------
 2 files changed, 61 insertions(+), 111 deletions(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index c0e5034..cc064bb 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -5,7 +5,6 @@
 #
 import numpy as np
 from numpy.typing import NDArray
-import random
 
 TAU=np.sqrt(3)/2.0
 EPS=1e-6
@@ -31,14 +30,14 @@ def coplanar_check_numeric_tau(pts: NDArray[np.int64], num_iteration: int=5) ->
 def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> bool:
     """check the points (pns) are in coplanar or not
     メモ：xyz1とxyz2の選び方次第で、outer_product(v1,v2)が小さくなりcoplanarと間違って判定する場合がある。
-    これを避けるために適切なxyz1とxyz2の選び方が必要。以下では、ランダムにxyz1とxyz2の選ぶ。
+    これを避けるために、outer_product(v1,v2)が大きくなるようにxyz1とxyz2の選ぶ。
     
     Parameters
     ----------
     pns: array
         coordinate of the points in Eperp, xyz.
     num_iteration: int
-        number of iterations.
+        not used (kept for compatibility).
     
     Returns
     -------
@@ -46,38 +45,20 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
     """
     num=len(pns)
     if num>3:
-        flag=0
-        lst0=[i for i in range(num)]
-        for _ in range(num_iteration):
-            lst3=random.sample(lst0, 3)
-            #
-            xyz1=pns[lst3[1]]-pns[lst3[0]]
-            xyz2=pns[lst3[2]]-pns[lst3[0]]
-            vec=np.cross(xyz1,xyz2)
-            flg=0
-            if np.all(abs(vec)<EPS):
-                pass
-            else:
-                flag=1
-                break
-        if flag==1:
-            counter=0
-            lst=list(filter(lambda x: x not in lst3, lst0))
-            for i in lst:
-            #for i in list(filter(lambda x: x not in lst3, lst0)):
-                xyzi=pns[i]-pns[lst3[0]]
-                if abs(np.dot(vec,xyzi))<1e-10:
-                    pass
-                else:
-                    counter=1
-                    break
-            if counter==0:
-                return True
-            else:
-                return False
+        # the point farthest from the first one, and the point farthest from the line through the two
+        vecs=pns-pns[0]
+        d=np.linalg.norm(vecs,axis=1)
+        xyz1=vecs[np.argmax(d)]
+        tmp=np.cross(vecs,xyz1)
+        area=np.linalg.norm(tmp,axis=1)
+        i1=np.argmax(area)
+        lmax=np.max(d)
+        if area[i1]<=1e-9*lmax**2: # all points are on a line
+            return True
         else:
-            'error in coplanar_check_numeric. increase num_iteration.'
-            return 
+            # distance of the points from the plane
+            vec=tmp[i1]/area[i1]
+            return bool(np.all(abs(np.dot(vecs,vec))<1e-9*lmax))
     else:
         return True
 
@@ -106,16 +87,13 @@ def point_on_segment(point: NDArray[np.int64], line_segment: NDArray[np.int64])
     
     vecPA=xyx0-xyx1 # np.array([x0-x1,y0-y1,z0-z1])
     vecBA=xyx2-xyx1 # np.array([x2-x1,y2-y1,z2-z1])
-    lPA=np.linalg.norm(vecPA)
     lBA=np.linalg.norm(vecBA)
-    if lBA>0.0 and abs(np.dot(vecPA,vecBA)-lPA*lBA)<EPS:
-        s=lPA/lBA
-        if s>=0.0 and s<=1.0:
+    if lBA>0.0 and np.linalg.norm(np.cross(vecPA,vecBA))<EPS*lBA**2: # P is on the line A-B
+        s=np.dot(vecPA,vecBA)/lBA**2
+        if s>=0.0-EPS and s<=1.0+EPS:
             return True
-        elif s>1.0:
-            return False #       A==B P
         else:
-            return False #    P A==B
+            return False # P A==B or A==B P
     else:
         return False
 
@@ -155,7 +133,7 @@ def on_out_surface(point: NDArray[np.int64], triangle: NDArray[np.int64]) -> boo
     
     area1=triangle_area_numerical(triangle1)+triangle_area_numerical(triangle2)+triangle_area_numerical(triangle3)
     
-    if abs(area0-area1)< EPS:
+    if abs(area0-area1)<EPS*area0:
         return True
     else:
         return False
@@ -411,17 +389,16 @@ def check_intersection_two_segment_numerical(ln1: NDArray[np.float64], ln2: NDAr
     vecAC=L2a-L1a
     vecCD=L2b-L2a
     
-    # bunshi
-    t1=np.dot(vecAC,vecCD)*np.dot(vecCD,vecAB)-np.dot(vecCD,vecCD)*np.dot(vecAC,vecAB)
-    # bunbo
-    t2=np.dot(vecAB,vecCD)*np.dot(vecCD,vecAB)-np.dot(vecAB,vecAB)*np.dot(vecCD,vecCD)
+    # normal of the plane including the two directions
+    vec=np.cross(vecAB,vecCD)
+    vv=np.dot(vec,vec)
     
-    if abs(t2)<EPS:
+    if vv<=1e-16*np.dot(vecAB,vecAB)*np.dot(vecCD,vecCD): # the two line-segments are parallel.
         return False
     else:
-        s=t1/t2
-        t=(-np.dot(vecAC,vecCD)+s*np.dot(vecAB,vecCD))/np.dot(vecCD,vecCD)
-        if s>=0.0 and s<=1.0 and t>=0.0 and t<=1.0:
+        s=np.dot(np.cross(vecAC,vecCD),vec)/vv
+        t=np.dot(np.cross(vecAC,vecAB),vec)/vv
+        if s>=0.0-EPS and s<=1.0+EPS and t>=0.0-EPS and t<=1.0+EPS:
             dd=0
             for i in range(3):
                 dd+=((L2a[i]-L1a[i])-s*(L1b[i]-L1a[i])+t*(L2b[i]-L2a[i]))**2
@@ -489,11 +466,8 @@ def triangle_area_numerical(a: NDArray[np.float64]) -> float:
 def inside_outside_obj_tau(point: NDArray[np.int64], obj: NDArray[np.int64]) -> bool:
     
     # TAU-style to Float
-    point=numerical_vector(point)
-    obj=numerical_vectors(obj)
-    # 
-    point=get_internal_component_numerical(ln)
-    obj=get_internal_component_sets_numerical(obj)
+    point=get_internal_component_numerical(point)
+    obj=np.array([get_internal_component_sets_numerical(vts) for vts in obj])
     return inside_outside_obj(point,obj)
     
 def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) -> bool:
@@ -507,11 +481,11 @@ def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) ->
         vertex coordinates of triangle, (xyz1, xyz2, xyz3), (), (), ...
     """
     flg=0
-    for tetrahedron in obj:
+    for triangle in obj:
         if inside_outside_triangle(point,triangle):
             flg+=1
             break
-    if flg==0:
+    if flg!=0:
         return True # inside
     else:
         return False # outside
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index 4387b5a..e9a176c 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -5,7 +5,6 @@
 #
 import numpy as np
 from numpy.typing import NDArray
-import random
 
 TAU=(1+np.sqrt(5))/2.0
 EPS=1e-6
@@ -31,14 +30,14 @@ def coplanar_check_numeric_tau(pts: NDArray[np.int64], num_iteration: int=5) ->
 def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> bool:
     """check the points (pns) are in coplanar or not
     メモ：xyz1とxyz2の選び方次第で、outer_product(v1,v2)が小さくなりcoplanarと間違って判定する場合がある。
-    これを避けるために適切なxyz1とxyz2の選び方が必要。以下では、ランダムにxyz1とxyz2の選ぶ。
+    これを避けるために、outer_product(v1,v2)が大きくなるようにxyz1とxyz2の選ぶ。
     
     Parameters
     ----------
     pns: array
         coordinate of the points in Eperp, xyz.
     num_iteration: int
-        number of iterations.
+        not used (kept for compatibility).
     
     Returns
     -------
@@ -46,38 +45,20 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
     """
     num=len(pns)
     if num>3:
-        flag=0
-        lst0=[i for i in range(num)]
-        for _ in range(num_iteration):
-            lst3=random.sample(lst0, 3)
-            #
-            xyz1=pns[lst3[1]]-pns[lst3[0]]
-            xyz2=pns[lst3[2]]-pns[lst3[0]]
-            vec=np.cross(xyz1,xyz2)
-            flg=0
-            if np.all(abs(vec)<EPS):
-                pass
-            else:
-                flag=1
-                break
-        if flag==1:
-            counter=0
-            lst=list(filter(lambda x: x not in lst3, lst0))
-            for i in lst:
-            #for i in list(filter(lambda x: x not in lst3, lst0)):
-                xyzi=pns[i]-pns[lst3[0]]
-                if abs(np.dot(vec,xyzi))<1e-10:
-                    pass
-                else:
-                    counter=1
-                    break
-            if counter==0:
-                return True
-            else:
-                return False
+        # the point farthest from the first one, and the point farthest from the line through the two
+        vecs=pns-pns[0]
+        d=np.linalg.norm(vecs,axis=1)
+        xyz1=vecs[np.argmax(d)]
+        tmp=np.cross(vecs,xyz1)
+        area=np.linalg.norm(tmp,axis=1)
+        i1=np.argmax(area)
+        lmax=np.max(d)
+        if area[i1]<=1e-9*lmax**2: # all points are on a line
+            return True
         else:
-            'error in coplanar_check_numeric. increase num_iteration.'
-            return 
+            # distance of the points from the plane
+            vec=tmp[i1]/area[i1]
+            return bool(np.all(abs(np.dot(vecs,vec))<1e-9*lmax))
     else:
         return True
 
@@ -106,16 +87,13 @@ def point_on_segment(point: NDArray[np.int64], line_segment: NDArray[np.int64])
     
     vecPA=xyx0-xyx1 # np.array([x0-x1,y0-y1,z0-z1])
     vecBA=xyx2-xyx1 # np.array([x2-x1,y2-y1,z2-z1])
-    lPA=np.linalg.norm(vecPA)
     lBA=np.linalg.norm(vecBA)
-    if lBA>0.0 and abs(np.dot(vecPA,vecBA)-lPA*lBA)<EPS:
-        s=lPA/lBA
-        if s>=0.0 and s<=1.0:
+    if lBA>0.0 and np.linalg.norm(np.cross(vecPA,vecBA))<EPS*lBA**2: # P is on the line A-B
+        s=np.dot(vecPA,vecBA)/lBA**2
+        if s>=0.0-EPS and s<=1.0+EPS:
             return True
-        elif s>1.0:
-            return False #       A==B P
         else:
-            return False #    P A==B
+            return False # P A==B or A==B P
     else:
         return False
 
@@ -155,7 +133,7 @@ def on_out_surface(point: NDArray[np.int64], triangle: NDArray[np.int64]) -> boo
     
     area1=triangle_area_numerical(triangle1)+triangle_area_numerical(triangle2)+triangle_area_numerical(triangle3)
     
-    if abs(area0-area1)< EPS:
+    if abs(area0-area1)<EPS*area0:
         return True
     else:
         return False
@@ -273,7 +251,7 @@ def check_intersection_segment_surface_numerical(ln: NDArray[np.float64], tr: ND
     
     bunbo=np.dot(vecP,vecCD)
     #print('bunbo=',bunbo)
-    if abs(bunbo)<EPS: # the line_segment is parrallel to the triangle.
+    if abs(bunbo)<=1e-8*np.linalg.norm(vecAB)*np.linalg.norm(vecCD)*np.linalg.norm(vecCE): # the line_segment is parrallel to the triangle.
         return False
     else:
         u=np.dot(vecP,vecCA)/bunbo
@@ -338,8 +316,9 @@ def check_intersection_two_segment_numerical(ln1: NDArray[np.float64], ln2: NDAr
     
     """
     vecAB=ln1[1]-ln1[0] # AB
-    vecCD=ln2[2]-ln2[0] # CD
-    vecCA=ln1[0]-ln2[1] # CA
+    vecCD=ln2[1]-ln2[0] # CD
+    vecCA=ln1[0]-ln2[0] # CA
+    eps=1e-8*np.linalg.norm(vecAB)*np.linalg.norm(vecCD)
     
     # check whether two line-segments are intersecting or not.
     comb=[\
@@ -349,11 +328,11 @@ def check_intersection_two_segment_numerical(ln1: NDArray[np.float64], ln2: NDAr
     out=0
     for c in comb:
         bunbo=vecAB[c[0]]*vecCD[c[1]]-vecCD[c[0]]*vecAB[c[1]]
-        if abs(bunbo)<EPS:
+        if abs(bunbo)>eps:
             t=(vecAB[c[0]]*vecCA[c[1]]-vecCA[c[0]]*vecAB[c[1]])/bunbo
-            if t>=0.0 and t<=1.0:
+            if t>=0.0-EPS and t<=1.0+EPS:
                 s=(vecCD[c[0]]*vecCA[c[1]]-vecCA[c[0]]*vecCD[c[1]])/bunbo
-                if s>=0.0 and s<=1.0:
+                if s>=0.0-EPS and s<=1.0+EPS:
                     if abs(-s*vecAB[c[2]]+t*vecCD[c[2]]-vecCA[c[2]])<=EPS:
                         break
                     else:
@@ -423,11 +402,8 @@ def triangle_area_numerical(a: NDArray[np.float64]) -> float:
 def inside_outside_obj_tau(point: NDArray[np.int64], obj: NDArray[np.int64]) -> bool:
     
     # TAU-style to Float
-    point=numerical_vector(point)
-    obj=numerical_vectors(obj)
-    # 
-    point=get_internal_component_numerical(ln)
-    obj=get_internal_component_sets_numerical(obj)
+    point=get_internal_component_numerical(point)
+    obj=np.array([get_internal_component_sets_numerical(vts) for vts in obj])
     return inside_outside_obj(point,obj)
     
 def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) -> bool:
@@ -445,7 +421,7 @@ def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) ->
         if inside_outside_tetrahedron(point,tetrahedron):
             flg+=1
             break
-    if flg==0:
+    if flg!=0:
         return True # inside
     else:
         return False # outside
-- 
2.43.0


From 467bc54af6424109c1df64f94e42dd9fa78b63c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:23 +0000
Subject: [PATCH 08/17] fix: identify facets and edges by their vertices in
 perp space, remove_vector(s), sort_obj, merging

---
 src/pyqcstrc/dode2/utils.py |  72 ++++++++++--------
 src/pyqcstrc/ico2/utils.py  | 145 +++++++++++-------------------------
 2 files changed, 84 insertions(+), 133 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index cdc854b..5ad0df6 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -197,6 +197,21 @@ def remove_doubling_in_perp_space(vts: NDArray[np.int64]) -> NDArray[np.int64]:
         a[i]=vts[b[i]]
     return a
 
+def key_in_perp_space(vts: NDArray[np.int64]) -> tuple:
+    """Return a key which is common to all the sets of 6d coordinates 
+    (edges, triangles etc.) having the same vertices in Eperp.
+    
+    Parameters
+    ----------
+    vts: array
+        set of 6-dimensional vectors in TAU-style
+    
+    Returns
+    -------
+    key: tuple
+    """
+    return tuple(sorted(tuple(projection3(vt).ravel().tolist()) for vt in vts))
+
 #----------------------------
 # Edges
 #
@@ -256,12 +271,10 @@ def generator_unique_edges(obj: NDArray[np.int64]) -> NDArray[np.int64]:
     
     # (2) 重複のないユニークな辺を得る。
     #print('number of edges:',len(edges))
-    num_edges=len(edges)
-    a=np.zeros((num_edges,3),dtype=np.float64)
-    for i1 in range(num_edges):
-        vt=centroid(edges[i1])
-        a[i1]=get_internal_component_numerical(vt)
-    b=np.unique(a,return_index=True,axis=0)[1]
+    tmp={}
+    for i1 in range(len(edges)):
+        tmp.setdefault(key_in_perp_space(edges[i1]),i1)
+    b=list(tmp.values())
     num=len(b)
     #print('number of unique edges:',num)
     a=np.zeros((num,2,6,3),dtype=np.int64)
@@ -463,7 +476,7 @@ def equivalent(obj1: NDArray[np.int64], obj2: NDArray[np.int64]) -> bool:
     """
     def check1(a,b,n):
         n1,_,_=a.shape
-        n2,_,_=a.shape
+        n2,_,_=b.shape
         if n1==n2:
             a=np.vstack([a,b])
             a=remove_doubling_in_perp_space(a)
@@ -553,21 +566,22 @@ def sort_obj(obj: NDArray[np.int64]) -> NDArray[np.int64]:
     """
     sort triangle in an object
     """
-    out=np.zeros(vts.shape,dtype=np.int64)
-    centroids=np.zeros(len(obj),dtype=np.float64)
-    tmp=np.zeros((obj.shape,3),dtype=np.int64)
+    n1=len(obj)
+    out=np.zeros(obj.shape,dtype=np.int64)
+    centroids=np.zeros((n1,3),dtype=np.float64)
+    tmp=np.zeros(obj.shape,dtype=np.int64)
     
     # 各triangleの頂点xyzをx順にソートすると同時に重心を求めておく。
     for i1 in range(len(obj)):
         tmp[i1]=sort_vctors(obj[i1])
-        centroids[i1]=centroid(obj[i1])
+        centroids[i1]=get_internal_component_numerical(centroid(obj[i1]))
     
     # 三角形の重心xyzのx順にソート
     #indx=np.argsort(centroids,axis=0)
-    indx=centroids[np.argsort(centroids[:,0])]
+    indx=np.argsort(centroids[:,0])
     
     for i1 in range(n1):
-        out[i1]=tmp[indx[i1][0]]
+        out[i1]=tmp[indx[i1]]
     return out
 
 #----------------------------
@@ -635,14 +649,10 @@ def remove_vectors(vts1: NDArray[np.int64], vts2: NDArray[np.int64]) -> NDArray[
                 break
         if counter==0:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts1[lst[i1]]
-        return out
-    else:
-        return vts1
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts1[lst[i1]]
+    return out
 
 def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.int64]:
     """ remove a 6d vector(vt2) from a set of 6d vectors (vts).
@@ -655,14 +665,10 @@ def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.i
             pass
         else:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts[lst[i1]]
-        return out
-    else:
-        return vts
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts[lst[i1]]
+    return out
 
 #################################
 ####
@@ -691,7 +697,7 @@ def merge_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.in
             # 2つのtriangesを一つのtriangeに結合できる時、その頂点は上の辺の2つの頂点のうち1つの頂点と頂点1と頂点２。
             if point_on_segment(vtx,line_segment):
                 tmp=remove_vector(vtx_common,vtx)
-                triange_new=np.stack(tmp,line_segment)
+                triange_new=np.vstack([tmp,line_segment])
                 flg+=1
                 break
         else:
@@ -706,7 +712,7 @@ def merge_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.in
 def check_connectivity_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.int64]) -> bool:
     """Checking whether triangle_1 and _2 are sharing an edge or not.
     """
-    a=np.vstack([triangle_1,triangle_1])
+    a=np.vstack([triangle_1,triangle_2])
     a=remove_doubling_in_perp_space(a)
     if len(a)==4:
         return True # common edge
@@ -716,8 +722,8 @@ def check_connectivity_triangles(triangle_1: NDArray[np.int64], triangle_2: NDAr
 def get_common_edge_in_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.int64]) -> NDArray[np.int64]:
     """ Return common edge of two connected triangles.
     """
-    edge1=get_triangle_edge(triangle_1)
-    edge2=get_triangle_edge(triangle_2)
+    edges1=get_triangle_edge(triangle_1)
+    edges2=get_triangle_edge(triangle_2)
     
     count=0
     for edge_1 in edges1:
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 109288a..9d23517 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -195,6 +195,21 @@ def remove_doubling_in_perp_space(vts: NDArray[np.int64]) -> NDArray[np.int64]:
         a[i]=vts[b[i]]
     return a
 
+def key_in_perp_space(vts: NDArray[np.int64]) -> tuple:
+    """Return a key which is common to all the sets of 6d coordinates 
+    (edges, triangles etc.) having the same vertices in Eperp.
+    
+    Parameters
+    ----------
+    vts: array
+        set of 6-dimensional vectors in TAU-style
+    
+    Returns
+    -------
+    key: tuple
+    """
+    return tuple(sorted(tuple(projection3(vt).ravel().tolist()) for vt in vts))
+
 #----------------------------
 # Surface, trianges, and edges
 #
@@ -241,69 +256,11 @@ def generator_surface_1(obj: NDArray[np.int64], verbose: int=0) -> NDArray[np.in
         #
         
         # (2) 重複のない三角形（すなはちobject表面の三角形）のみを得る。
-        # 三角形が重複していれば重心も同じことを利用する。重心が一致すれば重複しているとは限らないが、
-        # objが正しく与えられているとすれば問題ない。
-        #
-        # まず重心xyzを求める
-        xyz=np.zeros((n1*4,3),dtype=np.float64)
+        # 三角形が重複していれば、Eperpでの3頂点の集合が一致することを利用する。
+        tmp={}
         for i1 in range(n1*4):
-            vt=centroid(triangles[i1])
-            xyz[i1]=get_internal_component_numerical(vt)
-        
-        """
-        # 以下のやり方では効率悪い。
-        # triangleの数が多ければ時間がかかる(O(n^2))ので改良が必要
-        #===========ここから============
-        # xyzをxでソートし、indexを得る。
-        indx_xyz=np.argsort(xyz[:,0])
-        #print('number of trianges:',len(indx_xyz))
-        #print('indx_xyz:',indx_xyz)
-        #print(xyz[indx_xyz])
-        
-        # 重複しているtriangleはスキップ。表面のtriangleのみを選び出す。
-        lst=[]
-        for i1 in indx_xyz:
-            counter=0
-            for i2 in indx_xyz:
-                if i1==i2:
-                    pass
-                else:
-                    if np.allclose(xyz[i1],xyz[i2]): # equivalent
-                        counter+=1
-                        break
-            if counter==0:
-                lst.append(i1)
-        #===========ここまで============
-        """
-        #"""
-        # xyz座標のソートをx,y,zに対して行い、重複チェックを効率化(O(n))。
-        #===========ここから============
-        # xyzをx,y,zの順で優先的にソートし、indexを得る。
-        indx_xyz=np.lexsort((xyz[:,2],xyz[:,1],xyz[:,0]))
-        #print('number of trianges:',len(indx_xyz))
-        #print('indx_xyz:',indx_xyz)
-        
-        # 表面のtriangleのみを選び出すには、重複しているtriangleを除けば良い。
-        # 上でxyzをx,y,zの順で優先的にソートできていれば、着目している点をその前後と比べるだけで重複があるか判断できる。
-        lst=[]
-        if np.allclose(xyz[indx_xyz[0]],xyz[indx_xyz[1]]):
-            pass
-        else:
-            lst.append(indx_xyz[0])
-        for i1 in range(1,len(indx_xyz)-1):
-            counter=0
-            for i2 in [-1,1]:
-                if np.allclose(xyz[indx_xyz[i1]],xyz[indx_xyz[i1+i2]]): # equivalent
-                    counter+=1
-                    break
-            if counter==0:
-                lst.append(indx_xyz[i1])
-        if np.allclose(xyz[indx_xyz[-1]],xyz[indx_xyz[-2]]):
-            pass
-        else:
-            lst.append(indx_xyz[-1])
-        #===========ここまで============
-        #"""
+            tmp.setdefault(key_in_perp_space(triangles[i1]),[]).append(i1)
+        lst=[i[0] for i in tmp.values() if len(i)==1]
         
         #print('lst:',lst)
         num=len(lst)
@@ -350,14 +307,11 @@ def generator_unique_triangles(obj: NDArray[np.int64]) -> NDArray[np.int64]:
         return triangles
     else:
         # (2) ユニークな三角形を得る。
-        # 三角形が重複していれば重心も同じことを利用する。重心が一致すれば重複しているとは限らないが、
-        # objが正しく与えられているとすれば問題ない。
-        #print('number of trianges:',len(triangles))
-        a=np.zeros((n1*4,3),dtype=np.float64)
+        # 三角形が重複していれば、Eperpでの3頂点の集合が一致することを利用する。
+        tmp={}
         for i1 in range(n1*4):
-            vt=centroid(triangles[i1])
-            a[i1]=get_internal_component_numerical(vt)
-        b=np.unique(a,return_index=True,axis=0)[1]
+            tmp.setdefault(key_in_perp_space(triangles[i1]),i1)
+        b=list(tmp.values())
         num=len(b)
         #print('number of unique trianges:',num)
         a=np.zeros((num,3,6,3),dtype=np.int64)
@@ -448,12 +402,10 @@ def generator_unique_edges(obj: NDArray[np.int64]) -> NDArray[np.int64]:
     
     # (2) 重複のないユニークな辺を得る。
     #print('number of edges:',len(edges))
-    num_edges=len(edges)
-    a=np.zeros((num_edges,3),dtype=np.float64)
-    for i1 in range(num_edges):
-        vt=centroid(edges[i1])
-        a[i1]=get_internal_component_numerical(vt)
-    b=np.unique(a,return_index=True,axis=0)[1]
+    tmp={}
+    for i1 in range(len(edges)):
+        tmp.setdefault(key_in_perp_space(edges[i1]),i1)
+    b=list(tmp.values())
     num=len(b)
     #print('number of unique edges:',num)
     a=np.zeros((num,2,6,3),dtype=np.int64)
@@ -681,7 +633,7 @@ def equivalent(obj1: NDArray[np.int64], obj2: NDArray[np.int64]) -> bool:
     
     def check1(a,b,n):
         n1,_,_=a.shape
-        n2,_,_=a.shape
+        n2,_,_=b.shape
         if n1==n2:
             a=np.vstack([a,b])
             a=remove_doubling_in_perp_space(a)
@@ -805,21 +757,22 @@ def sort_obj(obj: NDArray[np.int64]) -> NDArray[np.int64]:
     sort tehtahedra in an object
     
     """
-    out=np.zeros(vts.shape,dtype=np.int64)
-    centroids=np.zeros(len(obj),dtype=np.float64)
-    tmp=np.zeros((obj.shape,3),dtype=np.int64)
+    n1=len(obj)
+    out=np.zeros(obj.shape,dtype=np.int64)
+    centroids=np.zeros((n1,3),dtype=np.float64)
+    tmp=np.zeros(obj.shape,dtype=np.int64)
     
     # 各tetrahedronの頂点xyzをx順にソートすると同時に重心を求めておく。
     for i1 in range(len(obj)):
         tmp[i1]=sort_vctors(obj[i1])
-        centroids[i1]=centroid(obj[i1])
+        centroids[i1]=get_internal_component_numerical(centroid(obj[i1]))
     
     # 四面体の重心xyzのx順にソート
     #indx=np.argsort(centroids,axis=0)
-    indx=centroids[np.argsort(centroids[:,0])]
+    indx=np.argsort(centroids[:,0])
     
     for i1 in range(n1):
-        out[i1]=tmp[indx[i1][0]]
+        out[i1]=tmp[indx[i1]]
     return out
 
 #----------------------------
@@ -852,7 +805,7 @@ def tetrahedralization_points(points: NDArray[np.int64]) -> NDArray[np.int64]:
         
     ltmp=decomposition(tmp)
     p=points
-    if ltmp!=[0]:
+    if ltmp is not None:
         counter=0
         for i in ltmp:
             tmp3=np.array([p[i[0]],p[i[1]],p[i[2]],p[i[3]]]).reshape(4,6,3)
@@ -892,14 +845,10 @@ def remove_vectors(vts1: NDArray[np.int64], vts2: NDArray[np.int64]) -> NDArray[
                 break
         if counter==0:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts1[lst[i1]]
-        return out
-    else:
-        return vts1
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts1[lst[i1]]
+    return out
 
 def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.int64]:
     """ remove a 6d vector(vt2) from a set of 6d vectors (vts).
@@ -912,14 +861,10 @@ def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.i
             pass
         else:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts[lst[i1]]
-        return out
-    else:
-        return vts
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts[lst[i1]]
+    return out
 
 #################################
 ####
@@ -948,7 +893,7 @@ def merge_two_tetrahedra(tetrahedron_1: NDArray[np.int64], tetrahedron_2: NDArra
             # 2つの四面体を一つの四面体に結合できる時、その頂点は上の三角形の3つの頂点のうち2つの頂点と頂点1と頂点２。
             if point_on_segment(vtx,line_segment):
                 tmp=remove_vector(vtx_common,vtx)
-                tetrahedron_new=np.stack(tmp,line_segment)
+                tetrahedron_new=np.vstack([tmp,line_segment])
                 flg+=1
                 break
         else:
-- 
2.43.0


From 9d50d71643e025c4cf7d77c969b91d815d502bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:23 +0000
Subject: [PATCH 09/17] fix: intersections of touching or partly overlapping
 objects

---
 src/pyqcstrc/dode2/intsct.py | 13 ++++++++-----
 src/pyqcstrc/ico2/intsct.py  | 22 +++++++++++++---------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/pyqcstrc/dode2/intsct.py b/src/pyqcstrc/dode2/intsct.py
index 552b302..5d7f826 100755
--- a/src/pyqcstrc/dode2/intsct.py
+++ b/src/pyqcstrc/dode2/intsct.py
@@ -309,7 +309,7 @@ def intersection_segment_surface(segment: NDArray[np.int64], surface: NDArray[np
                     p=np.vstack([p,tmp1])
                 counter+=1
         if counter>0: # intersection
-            return p
+            return p.reshape(counter,6,3)
         else: # no intersection
             return 
     else: # no intersection
@@ -383,7 +383,6 @@ def intersection_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArra
             else:
                 tmp=np.vstack([tmp,vtx]) # intersecting points
             counter+=1
-    tmp=tmp.reshape(int(len(tmp)/6),6,3)
     
     # get vertces of triangle_1 that are inside triangle_2
     for vtx in triangle_1:
@@ -412,7 +411,7 @@ def intersection_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArra
                 return 
             else:
                 return tmp4
-        elif len(tmp)==3:
+        elif len(tmp)==3 and np.any(triangle_area_6d(tmp)[:2]!=0):
             return tmp.reshape(1,3,6,3)
         else:
             return 
@@ -607,7 +606,7 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
     for vrtx in vertices1:
         counter2a=0
         for triangle2 in obj2:
-            if inside_outside_ttriangle_tau(vrtx,triangle2):
+            if inside_outside_triangle_tau(vrtx,triangle2):
                 counter2a+=1
                 break
             else:
@@ -690,7 +689,11 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
             # (3) Sum point A, point B and Intersections --->>> common part
             #
             # common part = point1 + point_a1 + point_b1
-            points=np.vstack([point1,point_a1,point_b1])
+            points=point1
+            if counter1a>0:
+                points=np.vstack([points,point_a1])
+            if counter1b>0:
+                points=np.vstack([points,point_b1])
             points=remove_doubling_in_perp_space(points)
             common=triangulation_points(points)
             if np.all(common==None):
diff --git a/src/pyqcstrc/ico2/intsct.py b/src/pyqcstrc/ico2/intsct.py
index 1ac3f3e..9c8cb1f 100755
--- a/src/pyqcstrc/ico2/intsct.py
+++ b/src/pyqcstrc/ico2/intsct.py
@@ -8,6 +8,7 @@ import numpy as np
 from numpy.typing import NDArray
 #import time # in subtraction_two_obj
 import itertools
+from scipy.spatial import Delaunay
 
 from pyqcstrc.ico2.math1 import (projection3,
                                 centroid, 
@@ -57,6 +58,7 @@ def decomposition(p: NDArray[np.int64]) -> NDArray[np.int64]:
         print('error in decomposition()')
         tmp=[0]
     else:
+        tmp=[]
         #for i in range(len(tri.simplices)):
         #    tet=tri.simplices[i]
         #    tmp.append([tet[0],tet[1],tet[2],tet[3]])
@@ -253,8 +255,9 @@ def intersection_two_segment(segment_1: NDArray[np.int64], segment_2: NDArray[np
     
     """
     # check whether two line segments are intersecting or not by numerical calc.
-    flg=check_intersection_two_segment_numerical(segment_1,segment_2)
+    flg=check_intersection_two_segment_numerical_6d_tau(segment_1,segment_2)
     if flg!=3: # intersecting
+        c=[[0,1],[1,2],[2,0]][flg]
         # calc in TAU-style
         vec6AB=sub_vectors(segment_1[1],segment_1[0])
         vecAB=projection3(vec6AB)                 # AB
@@ -267,13 +270,13 @@ def intersection_two_segment(segment_1: NDArray[np.int64], segment_2: NDArray[np
         
         #
         #bunbo=vecAB[c[0]]*vecCD[c[1]]-vecCD[c[0]]*vecAB[c[1]]
-        tmp1=mul(vecAB[0],vecCD[1])
-        tmp2=mul(vecCD[0],vecAB[1])
+        tmp1=mul(vecAB[c[0]],vecCD[c[1]])
+        tmp2=mul(vecCD[c[0]],vecAB[c[1]])
         bunbo=sub(tmp1,tmp2)
         #
         #s=(vecCD[c[0]]*vecCA[c[1]]-vecCA[c[0]]*vecCD[c[1]])/bunbo
-        tmp1=mul(vecCD[0],vecCA[1])
-        tmp2=mul(vecCA[0],vecCD[1])
+        tmp1=mul(vecCD[c[0]],vecCA[c[1]])
+        tmp2=mul(vecCA[c[0]],vecCD[c[1]])
         tmp1=sub(tmp1,tmp2)
         s=div(tmp1,bunbo)
         #
@@ -495,9 +498,6 @@ def intersection_two_tetrahedron_4(tetrahedron_1: NDArray[np.int64], tetrahedron
                     tmp4=tmp.reshape(1,4,6,3)
                 else:
                     tmp4=tetrahedralization_points(tmp)
-                v=obj_volume_6d(tmp4)
-                nv=numeric_value(v)
-                #print('     common vol:',v,nv)
                 return tmp4
         else:
             return 
@@ -768,7 +768,11 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
             # (3) Sum point A, point B and Intersections --->>> common part
             #
             # common part = point1 + point_a1 + point_b1
-            points=np.vstack([point1,point_a1,point_b1])
+            points=point1
+            if counter1a>0:
+                points=np.vstack([points,point_a1])
+            if counter1b>0:
+                points=np.vstack([points,point_b1])
             points=remove_doubling_in_perp_space(points)
             common=tetrahedralization_points(points)
             if np.all(common==None):
-- 
2.43.0


From d1c838354a8c5fb512b025637e98c57d4ca02dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:28 +0000
Subject: [PATCH 10/17] fix: simplification keeps a non-convex domain, border
 edges of a dodecagonal domain

---
 src/pyqcstrc/dode2/occupation_domain.py | 6 ++----
 src/pyqcstrc/ico2/occupation_domain.py  | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index ca96e94..a44b4e0 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1107,8 +1107,7 @@ def simplification(obj,verbose=0):
     else:
         vol0=utils.obj_area_6d(obj)
         obj_convex_hull=utils.generate_convex_hull(obj)
-        obj_tmp=intsct.intersection_two_obj_1(obj_convex_hull,obj)
-        vol1=utils.obj_area_6d(obj_tmp)
+        vol1=utils.obj_area_6d(obj_convex_hull)
         if np.all(vol0==vol1):
             if verbose>0:
                 print('      simplification succeed:')
@@ -1133,8 +1132,7 @@ def generate_border_edges(obj):
             The shape is (num,2,6,3), where num=numbre_of_edge.
     
     """
-    triangle_surface=utils.generator_surface_1(obj)
-    return utils.surface_cleaner(triangle_surface)
+    return utils.surface_cleaner(obj)
 
 def outline(obj):
     """
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 6e3aec8..a3cb746 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1141,8 +1141,7 @@ def simplification(obj,verbose=0):
     else:
         vol0=utils.obj_volume_6d(obj)
         obj_convex_hull=utils.generate_convex_hull(obj)
-        obj_tmp=intsct.intersection_two_obj_1(obj_convex_hull,obj)
-        vol1=utils.obj_volume_6d(obj_tmp)
+        vol1=utils.obj_volume_6d(obj_convex_hull)
         if np.all(vol0==vol1):
             if verbose>0:
                 print('      simplification succeed:')
-- 
2.43.0


From 0c47b17aa40e56a20c298274a6c3e6f76ee9a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:51 +0000
Subject: [PATCH 11/17] fix: exact arithmetic does not overflow in intermediate
 integers

---
 src/pyqcstrc/dode2/math1.py | 71 +++++++++++++++++++++----------------
 src/pyqcstrc/ico2/math1.py  | 53 ++++++++++++++++-----------
 2 files changed, 73 insertions(+), 51 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 41c7d83..9a3323e 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -4,6 +4,7 @@
 # Copyright (c) 2021 Tsunetomo Yamada <tsunetomo.yamada@rs.tus.ac.jp>
 #
 import sys
+import math
 import numpy as np
 from numpy.typing import NDArray
 #sys.path.append('.')
@@ -12,6 +13,19 @@ from pyqcstrc.dode2.numericalc import coplanar_check_numeric_tau
 
 SIN=np.sqrt(3)/2
 
+def integers(a: NDArray[np.int64]) -> list:
+    """Return a value in SIN-style as a list of Python integers, which do not overflow.
+    """
+    return [int(i) for i in a]
+
+def integer_array(a: list) -> NDArray[np.int64]:
+    """Return an array of integers. The dtype is np.int64 unless an integer exceeds 64 bits.
+    """
+    try:
+        return np.array(a,dtype=np.int64)
+    except OverflowError:
+        return np.array(a,dtype=object)
+
 def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
     # summation (a+b) in SIN-style
@@ -27,18 +41,19 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=integers(a)
+    b=integers(b)
     c1=a[0]*b[2]+b[0]*a[2]
     c2=a[1]*b[2]+b[1]*a[2]
     c3=a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
-    c1=int(c1//g)
-    c2=int(c2//g)
-    c3=int(c3//g)
+    g=math.gcd(c1,c2,c3)
+    c1=c1//g
+    c2=c2//g
+    c3=c3//g
     if c3<0:
-        return np.array([-c1,-c2,-c3])
+        return integer_array([-c1,-c2,-c3])
     else:
-        return np.array([c1,c2,c3])
+        return integer_array([c1,c2,c3])
 
 def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -55,18 +70,19 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=integers(a)
+    b=integers(b)
     c1=4*a[0]*b[0]+3*a[1]*b[1]
     c2=4*(a[0]*b[1]+a[1]*b[0])
     c3=4*a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
-    c1=int(c1//g)
-    c2=int(c2//g)
-    c3=int(c3//g)
+    g=math.gcd(c1,c2,c3)
+    c1=c1//g
+    c2=c2//g
+    c3=c3//g
     if c3<0:
-        return np.array([-c1,-c2,-c3])
+        return integer_array([-c1,-c2,-c3])
     else:
-        return np.array([c1,c2,c3])
+        return integer_array([c1,c2,c3])
 
 def sub(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -137,6 +153,8 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
         if np.all(a[:2]==0):
             return np.array([0,0,1],dtype=np.int64)
         else:
+            a=integers(a)
+            b=integers(b)
             if b[1]!=0:
                 if b[0]!=0:
                     if 4*b[0]**2-3*b[1]**2!=0:
@@ -155,16 +173,15 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
                 c1=a[0]*b[2]
                 c2=a[1]*b[2]
                 c3=b[0]*a[2]
-            x=np.array([c1,c2,c3],dtype=np.int64)
-            g=np.gcd.reduce(x)
+            g=math.gcd(c1,c2,c3)
             if g!=0:
-                c1=int(c1//g)
-                c2=int(c2//g)
-                c3=int(c3//g)
+                c1=c1//g
+                c2=c2//g
+                c3=c3//g
                 if c3<0:
-                    return np.array([-c1,-c2,-c3],dtype=np.int64)
+                    return integer_array([-c1,-c2,-c3])
                 else:
-                    return np.array([c1,c2,c3],dtype=np.int64)
+                    return integer_array([c1,c2,c3])
             else:
                 print('ERROR_2:division error')
                 return 
@@ -184,10 +201,7 @@ def add_vectors(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.int
     Composition of two vectors: array in SIN-style
     
     """
-    a=np.zeros(vt1.shape,dtype=np.int64)
-    for i in range(len(vt1)):
-        a[i]=add(vt1[i],vt2[i])
-    return a
+    return integer_array([add(vt1[i],vt2[i]) for i in range(len(vt1))])
 
 def sub_vectors(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.int64]:
     """Subtraction of two vectors, v1-v2
@@ -226,10 +240,7 @@ def mul_vector(vt: NDArray[np.int64], coeff:NDArray[np.int64]) -> NDArray[np.int
     Multiplied vector: array in SIN-style
     """
     if vt.ndim==2:
-        a=np.zeros(vt.shape,dtype=np.int64)
-        for i,v in enumerate(vt):
-            a[i]=mul(v,coeff)
-        return a
+        return integer_array([mul(v,coeff) for v in vt])
     else:
         print('incorrect shape')
         return
@@ -289,7 +300,7 @@ def outer_product(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.i
     b=mul(vt1[1],vt2[0])
     c3=sub(a,b)
     #
-    return np.array([c1,c2,c3],dtype=np.int64)
+    return integer_array([c1,c2,c3])
 
 def inner_product(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.int64]:
     """Inner product of two vectors, v1 and v2 in SIN-style.
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index a26380c..8434b78 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -4,6 +4,7 @@
 # Copyright (c) 2021 Tsunetomo Yamada <tsunetomo.yamada@rs.tus.ac.jp>
 #
 import sys
+import math
 import numpy as np
 from numpy.typing import NDArray
 #sys.path.append('.')
@@ -11,6 +12,19 @@ from pyqcstrc.ico2.numericalc import coplanar_check_numeric_tau
 
 TAU=(1+np.sqrt(5))/2.0
 
+def integers(a: NDArray[np.int64]) -> list:
+    """Return a value in TAU-style as a list of Python integers, which do not overflow.
+    """
+    return [int(i) for i in a]
+
+def integer_array(a: list) -> NDArray[np.int64]:
+    """Return an array of integers. The dtype is np.int64 unless an integer exceeds 64 bits.
+    """
+    try:
+        return np.array(a,dtype=np.int64)
+    except OverflowError:
+        return np.array(a,dtype=object)
+
 def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
     # summation (a+b) in TAU-style
@@ -26,18 +40,19 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=integers(a)
+    b=integers(b)
     c1=a[0]*b[2]+b[0]*a[2]
     c2=a[1]*b[2]+b[1]*a[2]
     c3=a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
+    g=math.gcd(c1,c2,c3)
     c1=c1//g
     c2=c2//g
     c3=c3//g
     if c3<0:
-        return np.array([int(-c1),int(-c2),int(-c3)])
+        return integer_array([-c1,-c2,-c3])
     else:
-        return np.array([int(c1),int(c2),int(c3)])
+        return integer_array([c1,c2,c3])
 
 def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -54,18 +69,19 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=integers(a)
+    b=integers(b)
     c1=a[0]*b[0]+a[1]*b[1]
     c2=a[0]*b[1]+a[1]*b[0]+a[1]*b[1]
     c3=a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
+    g=math.gcd(c1,c2,c3)
     c1=c1//g
     c2=c2//g
     c3=c3//g
     if c3<0:
-        return np.array([int(-c1),int(-c2),int(-c3)])
+        return integer_array([-c1,-c2,-c3])
     else:
-        return np.array([int(c1),int(c2),int(c3)])
+        return integer_array([c1,c2,c3])
 
 def sub(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -136,6 +152,8 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
         if np.all(a[:2]==0):
             return np.array([0,0,1],dtype=np.int64)
         else:
+            a=integers(a)
+            b=integers(b)
             if b[1]!=0:
                 if b[0]!=0:
                     c1=(a[0]*b[0] + a[0]*b[1] - a[1]*b[1])*b[2]
@@ -149,16 +167,15 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
                 c1=a[0]*b[2]
                 c2=a[1]*b[2]
                 c3=b[0]*a[2]
-            x=np.array([c1,c2,c3],dtype=np.int64)
-            g=np.gcd.reduce(x)
+            g=math.gcd(c1,c2,c3)
             if g!=0:
                 c1=c1//g
                 c2=c2//g
                 c3=c3//g
                 if c3<0:
-                    return np.array([int(-c1),int(-c2),int(-c3)],dtype=np.int64)
+                    return integer_array([-c1,-c2,-c3])
                 else:
-                    return np.array([int(c1),int(c2),int(c3)],dtype=np.int64)
+                    return integer_array([c1,c2,c3])
             else:
                 print('ERROR_2:division error')
                 return 
@@ -178,10 +195,7 @@ def add_vectors(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.int
     Composition of two vectors: array in TAU-style
     
     """
-    a=np.zeros(vt1.shape,dtype=np.int64)
-    for i in range(len(vt1)):
-        a[i]=add(vt1[i],vt2[i])
-    return a
+    return integer_array([add(vt1[i],vt2[i]) for i in range(len(vt1))])
 
 def sub_vectors(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.int64]:
     """Subtraction of two vectors, v1-v2
@@ -220,10 +234,7 @@ def mul_vector(vt: NDArray[np.int64], coeff:NDArray[np.int64]) -> NDArray[np.int
     Multiplied vector: array in TAU-style
     """
     if vt.ndim==2:
-        a=np.zeros(vt.shape,dtype=np.int64)
-        for i,v in enumerate(vt):
-            a[i]=mul(v,coeff)
-        return a
+        return integer_array([mul(v,coeff) for v in vt])
     else:
         print('incorrect shape')
         return
@@ -283,7 +294,7 @@ def outer_product(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.i
     b=mul(vt1[1],vt2[0])
     c3=sub(a,b)
     #
-    return np.array([c1,c2,c3],dtype=np.int64)
+    return integer_array([c1,c2,c3])
 
 def inner_product(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.int64]:
     """Inner product of two vectors, v1 and v2 in TAU-style.
-- 
2.43.0


From 634d149116a696741bbc6f1e1c399bf288c61000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:56 +0000
Subject: [PATCH 12/17] fix: xyz files: honour select, store vertices,
 per-tetrahedron volumes, last line without newline

---
 src/pyqcstrc/dode2/occupation_domain.py | 19 +++++++++++--------
 src/pyqcstrc/ico2/occupation_domain.py  | 20 +++++++++++++-------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index a44b4e0..72994af 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -979,7 +979,7 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
     if np.all(obj==None):
         print('empty obj')
         return 
-    elif obj.ndim!=4:
+    elif obj.ndim!=(3 if select in ('vertex','v') else 4):
         print('object has an incorrect shape!')
         return 
     else:
@@ -989,17 +989,17 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
         #    if verbose>0:
         #        print('    written in %s/%s.xyz'%(path,basename))
         #    return 0
-        if select == 'triangle' or 't':
+        if select == 'triangle' or select == 't':
             generator_xyz_dim4_triangle(obj, file_name)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
-        elif select == 'edge' or 'e':
+        elif select == 'edge' or select == 'e':
             generator_xyz_dim4_edge(obj, file_name)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
-        elif select == 'vertex' or 'v':
+        elif select == 'vertex' or select == 'v':
             generator_xyz_dim4_vertex(obj, file_name)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
@@ -1018,6 +1018,7 @@ def read_xyz(path,basename,select='triangle',verbose=0):
         basename (str): Basename of the input XYZ file
         select (str)
             'triangle'    : read as a set of triangles (default)
+            'edge'        : read as a set of edges
             'vertex'      : read as a set of vertices
             (default, select = 'triangle')
         verbose (int): verbose option
@@ -1039,7 +1040,7 @@ def read_xyz(path,basename,select='triangle',verbose=0):
             a=f.readline()
             if not a:
                 break
-            line.append(a[:-1])
+            line.append(a.rstrip('\n'))
         return line
     
     filename='%s/%s.xyz'%(path,basename)
@@ -1078,6 +1079,8 @@ def read_xyz(path,basename,select='triangle',verbose=0):
     
     if select == 'triangle':
         return tmp.reshape(int(num/3),3,6,3)
+    elif select == 'edge':
+        return tmp.reshape(int(num/2),2,6,3)
     elif select == 'vertex':
         return tmp.reshape(int(num),6,3)
 
@@ -1259,9 +1262,9 @@ def simple_hand_step1(obj, path, basename_tmp):
         for i1 in range(len(a)):
             xyz=math1.projection3(a[i1])
             f.write('Xx %8.6f %8.6f %8.6f # %d-th vertex # %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d\n'%\
-            (numericalc.numeric_value(xyz),\
-            numericalc.numeric_value(xyz),\
-            numericalc.numeric_value(xyz),\
+            (numericalc.numeric_value(xyz[0]),\
+            numericalc.numeric_value(xyz[1]),\
+            numericalc.numeric_value(xyz[2]),\
             i1,\
             a[i1][0][0],a[i1][0][1],a[i1][0][2],\
             a[i1][1][0],a[i1][1][1],a[i1][1][2],\
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index a3cb746..63616cc 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -900,7 +900,7 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
         vol=utils.obj_volume_6d(obj)
         f.write('volume = %d %d %d (%8.6f)\n'%(vol[0],vol[1],vol[2],numericalc.numeric_value(vol)))
         for i1 in range(len(obj)):
-            v=utils.tetrahedron_volume_6d(tetrahedron)
+            v=utils.tetrahedron_volume_6d(obj[i1])
             f.write('%3d-the tetrahedron, %d %d %d (%8.6f)\n'\
                     %(i1,v[0],v[1],v[2],numericalc.numeric_value(v)))
         f.close()
@@ -1006,14 +1006,14 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
             point[3][0],point[3][1],point[3][2],\
             point[4][0],point[4][1],point[4][2],\
             point[5][0],point[5][1],point[5][2]))
-            i1=0
+            i1+=1
         f.closed
         return 0
     
     if np.all(obj==None):
         print('empty obj')
         return 
-    elif obj.ndim!=4:
+    elif obj.ndim!=(3 if select=='vertex' else 4):
         print('object has an incorrect shape!')
         return 
     else:
@@ -1052,6 +1052,8 @@ def read_xyz(path,basename,select='tetrahedron',verbose=0):
         basename (str): Basename of the input XYZ file
         select (str)
             'tetrahedron': set of tetrahedra (default)
+            'triangle'   : set of triangles
+            'edge'       : set of edges
             'vertex'      : set of vertices
             (default, select = 'tetrahedron')
         verbose (int): verbose option
@@ -1073,7 +1075,7 @@ def read_xyz(path,basename,select='tetrahedron',verbose=0):
             a=f.readline()
             if not a:
                 break
-            line.append(a[:-1])
+            line.append(a.rstrip('\n'))
         return line
     
     filename='%s/%s.xyz'%(path,basename)
@@ -1112,6 +1114,10 @@ def read_xyz(path,basename,select='tetrahedron',verbose=0):
     
     if select == 'tetrahedron':
         return tmp.reshape(int(num/4),4,6,3)
+    elif select == 'triangle':
+        return tmp.reshape(int(num/3),3,6,3)
+    elif select == 'edge':
+        return tmp.reshape(int(num/2),2,6,3)
     elif select == 'vertex':
         return tmp.reshape(int(num),6,3)
 
@@ -1280,9 +1286,9 @@ def simple_hand_step1(obj, path, basename_tmp):
         for i1 in range(len(a)):
             xyz=math1.projection3(a[i1])
             f.write('Xx %8.6f %8.6f %8.6f # %d-th vertex # %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d\n'%\
-            (numericalc.numeric_value(xyz),\
-            numericalc.numeric_value(xyz),\
-            numericalc.numeric_value(xyz),\
+            (numericalc.numeric_value(xyz[0]),\
+            numericalc.numeric_value(xyz[1]),\
+            numericalc.numeric_value(xyz[2]),\
             i1,\
             a[i1][0][0],a[i1][0][1],a[i1][0][2],\
             a[i1][1][0],a[i1][1][1],a[i1][1][2],\
-- 
2.43.0


From 3b0380fdcea78ab2519864a8239291dc4b454117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:20 +0000
Subject: [PATCH 13/17] fix: VESTA files: dispatch the display modes, list the
 edges and bonds of the domain

---
 src/pyqcstrc/dode2/occupation_domain.py |  9 +++++----
 src/pyqcstrc/ico2/occupation_domain.py  | 11 ++++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 72994af..a4bd856 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -205,7 +205,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
         else:
             # get independent edges
             if select=='simple':
-                edges = utils.generator_obj_edge(obj,verbose)
+                edges = utils.generator_unique_edges(obj)
             else:
                 edges = obj
             # get independent vertices of the edges
@@ -640,7 +640,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             return 0
         else:
             # get independent edges
-            edges = utils.generator_obj_edge(obj, verbose)
+            edges = utils.generator_unique_edges(obj)
             # get independent vertices of the edges
             vertices = utils.remove_doubling_in_perp_space(edges)
             # get bond pairs, [[distance, XXX, YYY],...]
@@ -653,12 +653,12 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
                     for vrtx in vertices:
                         tmp=np.vstack([edge[i2],vrtx])
                         tmp=utils.remove_doubling_in_perp_space(tmp.reshape(2,6,3))
-                        i3+=1
                         if len(tmp)==1:
                             a.append(i3)
                             break
                         else:
                             pass
+                        i3+=1
                 pairs.append(a)
                 
             print('#VESTA_FORMAT_VERSION 3.5.0\n', file=f)
@@ -708,7 +708,8 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \n  0    0    0    0  0\
             \nSBOND', file = f)
             clr=colors(color)
-            for pair in range(len(pairs)):
+            i2=0
+            for pair in pairs:
                 print('  %d   A%d   A%d   %6.3f   %6.3f  0  1  1  1  2  0.250  2.000 %3d %3d %3d'%(\
                 i2+1, pair[1]+1, pair[2]+1, pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
                 i2+=1
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 63616cc..dc47f25 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -188,7 +188,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
     #dmax=5.0
     dmax=10.0
     
-    if select=='simple' or 'egdes':
+    if select=='simple' or select=='egdes' or select=='edges':
         
         if np.all(obj==None):
             print('no volume obj')
@@ -197,7 +197,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
         else:
             # get independent edges
             if select=='simple':
-                edges = utils.generator_obj_edge(obj, verbose)
+                edges = utils.generator_unique_edges(obj)
             else:
                 edges = obj
             # get independent vertices of the edges
@@ -627,7 +627,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             return 0
         else:
             # get independent edges
-            edges = utils.generator_obj_edge(obj, verbose)
+            edges = utils.generator_unique_edges(obj)
             # get independent vertices of the edges
             vertices = utils.remove_doubling_in_perp_space(edges)
             # get bond pairs, [[distance, XXX, YYY],...]
@@ -640,12 +640,12 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
                     for vrtx in vertices:
                         tmp=np.vstack([edge[i2],vrtx])
                         tmp=utils.remove_doubling_in_perp_space(tmp.reshape(2,6,3))
-                        i3+=1
                         if len(tmp)==1:
                             a.append(i3)
                             break
                         else:
                             pass
+                        i3+=1
                 pairs.append(a)
                 
             print('#VESTA_FORMAT_VERSION 3.5.0\n', file=f)
@@ -695,7 +695,8 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \n  0    0    0    0  0\
             \nSBOND', file = f)
             clr=colors(color)
-            for pair in range(len(pairs)):
+            i2=0
+            for pair in pairs:
                 print('  %d   A%d   A%d   %6.3f   %6.3f  0  1  1  1  2  0.250  2.000 %3d %3d %3d'%(\
                 i2+1, pair[1]+1, pair[2]+1, pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
                 i2+=1
-- 
2.43.0


From ab94ba902acfc009b26fe91c87297f4aca5b702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:02 +0000
Subject: [PATCH 14/17] fix: pod/atm files: count simplices, match vertices in
 perpendicular space

---
 src/pyqcstrc/dode2/occupation_domain.py | 6 +++---
 src/pyqcstrc/ico2/occupation_domain.py  | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index a4bd856..34e6bc2 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1206,7 +1206,7 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         
         # generate a list of verices and remove the common vertex from it.
         vtxs=utils.remove_doubling_in_perp_space(obj)
-        vtxs=utils.remove_vector(vtxs,vrtx0)
+        vtxs=[vtx for vtx in vtxs if np.any(math1.projection3(vtx)!=math1.projection3(vrtx0))]
         
         #--------
         #  pod
@@ -1221,12 +1221,12 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         for triangle in obj:
             for vrtx1 in triangle:
                 for i1 in range(len(vtxs)):
-                    if np.all(vrtx1==vtxs[i1]):
+                    if np.all(math1.projection3(vrtx1)==math1.projection3(vtxs[i1])):
                         lst_indx.append(i1+1) # add 1 to avoide index 0.
                         break
                     else:
                         pass
-        fpod.write('nth= %d'%(len(vtxs)))
+        fpod.write('nth= %d'%(len(obj)))
         for indx in lst_indx:
             fpod.write(' %d'%(indx))
         fpod.write('\n')
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index dc47f25..b47ed1a 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1230,7 +1230,7 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         
         # generate a list of verices and remove the common vertex from it.
         vtxs=utils.remove_doubling_in_perp_space(obj)
-        vtxs=utils.remove_vector(vtxs,vrtx0)
+        vtxs=[vtx for vtx in vtxs if np.any(math1.projection3(vtx)!=math1.projection3(vrtx0))]
         
         #--------
         #  pod
@@ -1245,12 +1245,12 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         for tetrahedron in obj:
             for vrtx1 in tetrahedron:
                 for i1 in range(len(vtxs)):
-                    if np.all(vrtx1==vtxs[i1]):
+                    if np.all(math1.projection3(vrtx1)==math1.projection3(vtxs[i1])):
                         lst_indx.append(i1+1) # add 1 to avoide index 0.
                         break
                     else:
                         pass
-        fpod.write('nth= %d'%(len(vtxs)))
+        fpod.write('nth= %d'%(len(obj)))
         for indx in lst_indx:
             fpod.write(' %d'%(indx))
         fpod.write('\n')
@@ -1561,7 +1561,7 @@ def write_podatm(obj, position, vlist, path='.', basename='tmp', shift=[0.0,0.0,
     else:
         pass
     
-    if obj==None:
+    if np.all(obj==None):
         print('no volume obj')
         return 0
     else:
-- 
2.43.0


From b2408831464cf1d195bd916a7d4685c5723dfcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:40 +0000
Subject: [PATCH 15/17] fix: dodecagonal simple_hand_step2 called a function
 that does not exist

---
 src/pyqcstrc/dode2/occupation_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 34e6bc2..d5e5662 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1309,7 +1309,7 @@ def simple_hand_step2(obj, merge_list):
     
     for i in range(len(merge_list)):
         tmp1=merge(obj,merge_list[i])
-        od2=intsct.tetrahedralization_points(tmp1)
+        od2=utils.triangulation_points(tmp1)
         if i==0:
             od1=np.array(od2)
         else:
-- 
2.43.0


From b1850179735d0a4e451a261104cdae3ea1d2b8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:16 +0000
Subject: [PATCH 16/17] fix: simplification failed on domains it had produced
 itself (coplanar interior facets)

---
 src/pyqcstrc/ico2/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 9d23517..488bf59 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -615,7 +615,7 @@ def gen_border_edges_of_coplanar_triangles(coplanar_triangles: NDArray[np.int64]
             lst.append(edge1)
         else:
             pass
-    return np.array(lst,dtype=np.int64)
+    return np.array(lst,dtype=np.int64).reshape(len(lst),2,6,3)
 
 #----------------------------
 # Equivalence check
-- 
2.43.0


From f80d5295a6ba318270bca132fe4e8c9a5ac50014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:57 +0000
Subject: [PATCH 17/17] fix: join simplices sharing a facet given by different
 6D vectors

---
 src/pyqcstrc/dode2/utils.py | 11 +++++++++--
 src/pyqcstrc/ico2/utils.py  | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index 5ad0df6..27c6e7a 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -654,6 +654,13 @@ def remove_vectors(vts1: NDArray[np.int64], vts2: NDArray[np.int64]) -> NDArray[
         out[i1]=vts1[lst[i1]]
     return out
 
+def remove_vectors_in_perp_space(vts1: NDArray[np.int64], vts2: NDArray[np.int64]) -> NDArray[np.int64]:
+    """remove 6d vectors having the same position in Eperp as a vector in a set vts2 from a set vts1.
+    """
+    lst=[projection3(vt) for vt in vts2]
+    out=[vt for vt in vts1 if not any(np.all(projection3(vt)==a) for a in lst)]
+    return np.array(out,dtype=np.int64).reshape(len(out),6,3)
+
 def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.int64]:
     """ remove a 6d vector(vt2) from a set of 6d vectors (vts).
     6次元ベクトルリストvlst1から6次元ベクトルvt2を抜きとる
@@ -688,8 +695,8 @@ def merge_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.in
     """Return merged tetrahedra.
     """
     if check_connectivity_triangles(triangle_1,triangle_2): # triangle1とtriangle2が共通する辺を持つ場合
-        vtx1=remove_vectors(triangle_1,triangle_2) # triangle1からtriangle1とtriangle2の共通頂点を消す --> 頂点1
-        vtx2=remove_vectors(triangle_2,triangle_1) # triangle2からtriangle1とtriangle2の共通頂点を消す --> 頂点2
+        vtx1=remove_vectors_in_perp_space(triangle_1,triangle_2) # triangle1からtriangle1とtriangle2の共通頂点を消す --> 頂点1
+        vtx2=remove_vectors_in_perp_space(triangle_2,triangle_1) # triangle2からtriangle1とtriangle2の共通頂点を消す --> 頂点2
         vtx_common=get_common_edge_in_two_triangles(triangle_1,triangle_2) # triangle1とtriangle2の共通する辺
         line_segment=np.vstack([vtx1,vtx2])# 頂点1と頂点２を繋いだ辺
         flg=0
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 488bf59..c5748f7 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -850,6 +850,13 @@ def remove_vectors(vts1: NDArray[np.int64], vts2: NDArray[np.int64]) -> NDArray[
         out[i1]=vts1[lst[i1]]
     return out
 
+def remove_vectors_in_perp_space(vts1: NDArray[np.int64], vts2: NDArray[np.int64]) -> NDArray[np.int64]:
+    """remove 6d vectors having the same position in Eperp as a vector in a set vts2 from a set vts1.
+    """
+    lst=[projection3(vt) for vt in vts2]
+    out=[vt for vt in vts1 if not any(np.all(projection3(vt)==a) for a in lst)]
+    return np.array(out,dtype=np.int64).reshape(len(out),6,3)
+
 def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.int64]:
     """ remove a 6d vector(vt2) from a set of 6d vectors (vts).
     6次元ベクトルリストvlst1から6次元ベクトルvt2を抜きとる
@@ -884,8 +891,8 @@ def merge_two_tetrahedra(tetrahedron_1: NDArray[np.int64], tetrahedron_2: NDArra
     """Return merged tetrahedra.
     """
     if check_connectivity_tetrahedra(tetrahedron_1,tetrahedron_2): # tet1とtet2が共通する三角形を持つ場合
-        vtx1=remove_vectors(tetrahedron_1,tetrahedron_2) # tet1からtet1とtet2の共通頂点を消す --> 頂点1
-        vtx2=remove_vectors(tetrahedron_2,tetrahedron_1) # tet2からtet1とtet2の共通頂点を消す --> 頂点2
+        vtx1=remove_vectors_in_perp_space(tetrahedron_1,tetrahedron_2) # tet1からtet1とtet2の共通頂点を消す --> 頂点1
+        vtx2=remove_vectors_in_perp_space(tetrahedron_2,tetrahedron_1) # tet2からtet1とtet2の共通頂点を消す --> 頂点2
         vtx_common=get_common_triangle_in_two_tetrahedra(tetrahedron_1,tetrahedron_2) # tet1とtet2の共通する三角形
         line_segment=np.vstack([vtx1,vtx2])# 頂点1と頂点２を繋いだ辺
         flg=0
-- 
2.43.0

