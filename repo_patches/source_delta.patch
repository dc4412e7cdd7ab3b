From ab70d0154cc814dea09c0b240b6865ab85d3c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:56 +0000
Subject: [PATCH 01/90] fix: qu2ro wrote whole rows (out of bounds for n < 4)
 for the identity rotation

---
 pyebsdindex/rotlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index e6dfd2c..e86db99 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -788,10 +788,10 @@ def qu2roL(quIn,p=P):
       for j in range(3):
         mag += qu[i,j + 1] ** 2
       if mag < eps:
-        ro[0] = 0.0
-        ro[1] = 0.0
-        ro[2] = -pf
-        ro[3] = 0.0
+        ro[i,0] = 0.0
+        ro[i,1] = 0.0
+        ro[i,2] = -pf
+        ro[i,3] = 0.0
       else:
         mag = 1.0 / np.sqrt(mag)
         q0 = qu[i,0]
-- 
2.43.0


From adea0bb01441bc5836d057c4ab74b1b901d05874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:56 +0000
Subject: [PATCH 02/90] fix: om2eu returned the wrong phi1 (sign) for matrices
 with Phi = pi

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index e86db99..84e1289 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -221,7 +221,7 @@ def om2euL(om, p=P):
         eu[i,1] = 0.0
         eu[i,2] = 0.0
       else:
-        eu[i,0] = -np.arctan2(om[i,0,1],om[i,0,0])
+        eu[i,0] = np.arctan2(om[i,0,1],om[i,0,0])
         eu[i,1] = PI
         eu[i,2] = 0.0
     eu[i,0] += 100.0 * PI
-- 
2.43.0


From 64e9100d56db6327d3c7f1715f35e95623eda48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:22 +0000
Subject: [PATCH 03/90] fix: eu2ax, qu2om and om2qu ignored the p=-1 convention
 the other conversions follow

---
 pyebsdindex/rotlib.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index 84e1289..b047d7d 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -148,7 +148,7 @@ def eu2axL(euIn,p=P):
     else:
       ax[i,0] = -1.0 * pf * t * np.cos(delt) / tau
       ax[i,1] = -1.0 * pf * t * np.sin(delt) / tau
-      ax[i,2] = -1.0 * ssig / tau
+      ax[i,2] = -1.0 * pf * ssig / tau
       ax[i,3] = alpha
 
     if alpha < 0.0:
@@ -539,13 +539,13 @@ def qu2omL(quIn,p=P):
     q0 = qu[i,0] * pf
     qq = q0 * q0 - (qu[i,1] ** 2 + qu[i,2] ** 2 + qu[i,3] ** 2)
     om[i,0,0] = qq + 2.0 * qu[i,1] * qu[i,1]
-    om[i,0,1] = 2.0 * (qu[i,1] * qu[i,2] - qu[i,0] * qu[i,3])
-    om[i,0,2] = 2.0 * (qu[i,1] * qu[i,3] + qu[i,0] * qu[i,2])
-    om[i,1,0] = 2.0 * (qu[i,2] * qu[i,1] + qu[i,0] * qu[i,3])
+    om[i,0,1] = 2.0 * (qu[i,1] * qu[i,2] - q0 * qu[i,3])
+    om[i,0,2] = 2.0 * (qu[i,1] * qu[i,3] + q0 * qu[i,2])
+    om[i,1,0] = 2.0 * (qu[i,2] * qu[i,1] + q0 * qu[i,3])
     om[i,1,1] = qq + 2.0 * qu[i,2] * qu[i,2]
-    om[i,1,2] = 2.0 * (qu[i,2] * qu[i,3] - qu[i,0] * qu[i,1])
-    om[i,2,0] = 2.0 * (qu[i,3] * qu[i,1] - qu[i,0] * qu[i,2])
-    om[i,2,1] = 2.0 * (qu[i,3] * qu[i,2] + qu[i,0] * qu[i,1])
+    om[i,1,2] = 2.0 * (qu[i,2] * qu[i,3] - q0 * qu[i,1])
+    om[i,2,0] = 2.0 * (qu[i,3] * qu[i,1] - q0 * qu[i,2])
+    om[i,2,1] = 2.0 * (qu[i,3] * qu[i,2] + q0 * qu[i,1])
     om[i,2,2] = qq + 2.0 * qu[i,3] * qu[i,3]
 
     tr = om[i,0,0] + om[i,1,1] + om[i,2,2]
@@ -726,6 +726,8 @@ def om2quL(om, p=P):
         qu[i,1] = (om[i,0,2] + om[i,2,0]) / s
         qu[i,2] = (om[i,1,2] + om[i,2,1]) / s
         qu[i,3] = 0.25 * s
+    for j in range(3):
+      qu[i,j + 1] *= pf
   qu = quatnormL(qu)
   return qu
 
-- 
2.43.0


From 9e5ff21f16c6ddf00d42c0415ec8a9788fa48ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:42 +0000
Subject: [PATCH 04/90] fix: ax2qu scaled non-unit axes by 1/|v|^2, changing
 the rotation

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index b047d7d..50580c3 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -480,7 +480,7 @@ def ax2quL(axIn,p=P):
       mag = 0.0
       for j in range(3):
         mag += ax[i,j] * ax[i,j]
-      s = np.sin(ax[i,3] * 0.5) / mag
+      s = np.sin(ax[i,3] * 0.5) / np.sqrt(mag)
       for j in range(3):
         qu[i,j + 1] = ax[i,j] * s
   qu = quatnormL(qu)
-- 
2.43.0


From a375016c42c07fb0f25c52067ae92fee22029074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:42 +0000
Subject: [PATCH 05/90] fix: ax2ro returned a half turn for every angle beyond
 pi

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index 50580c3..baa7e3d 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -448,7 +448,7 @@ def ax2roL(axIn,p=P):
     else:
       for j in range(3):
         ro[i,j] = axn[i,j]
-      if (PI - ax[i,3]) < eps:
+      if (PI - axn[i,3]) < eps:
         ro[i,3] = np.inf
       else:
         ro[i,3] = np.tan(axn[i,3] * 0.5)
-- 
2.43.0


From 0039d0a73ff544382471c3d33da27d86f55703ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:31 +0000
Subject: [PATCH 06/90] fix: misorientation module could not be imported from
 the installed package

---
 pyebsdindex/misorientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/misorientation.py b/pyebsdindex/misorientation.py
index cf4df04..7442df9 100644
--- a/pyebsdindex/misorientation.py
+++ b/pyebsdindex/misorientation.py
@@ -42,7 +42,7 @@ tempdir = tempdir.joinpath('.pyebsdindex').joinpath('numbacache')
 Path(tempdir).mkdir(parents=True, exist_ok=True)
 os.environ["NUMBA_CACHE_DIR"] = str(tempdir)+str(os.sep)
 
-import rotlib
+from pyebsdindex import rotlib
 
 def misorientcubic_quick(q1,q2):
   '''Misorientation between two cubic crystals using the quaternion trick from Sutton and Buluffi'''
-- 
2.43.0


From c2a68c7f3ae9359e982e88c93a3eba76c69dcb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:13 +0000
Subject: [PATCH 07/90] fix: triplet library dropped angle triplets whose sum
 equals another's

---
 pyebsdindex/tripletvote.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index ddfbf78..173e175 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -723,14 +723,13 @@ class BandIndexer():
       libID[i,:] = temp2
 
     if findDups == True:
-      angID = np.sum(np.round(libANG*100), axis = 1).astype(np.longlong)
+      angID = np.round(libANG*100).astype(np.longlong)
       basis = np.longlong(libID.max() + 1)
       libID_ID = libID.dot(np.array([1,basis, basis**2]))
-      UID = np.ceil(np.log10(libID_ID.max()))
-      UID = np.where(UID > 2, UID, 2)
-      UID = (angID * 10**UID) + libID_ID
+      # a duplicate has the same three angles and the same three families.
+      UID = np.column_stack((angID, libID_ID))
 
-      stuff, unq = np.unique(UID, return_index=True)
+      stuff, unq = np.unique(UID, axis=0, return_index=True)
       libANG = libANG[unq, :]
       libID = libID[unq,:]
       libID_ID = libID_ID[unq]
-- 
2.43.0


From 0c13ac152f6cf6dcc2bee0521f9efb12a81c0697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:09 +0000
Subject: [PATCH 08/90] fix: building the triplet library overflowed its arrays
 for phases with few reflectors

---
 pyebsdindex/tripletvote.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 173e175..3cd0072 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -405,10 +405,10 @@ class BandIndexer():
     #print(familyID)
     #print(nFamilyID)
     #print(indx0FID)
-    #This completely over previsions the arrays, this is essentially 
-    #N Choose K with N = number of angles and K = 3
-    nlib = npoles*np.prod(np.arange(3, dtype=np.int64)+(nangs-2+1))//np.int64(math.factorial(3))
-    nlib = nlib.astype(int)
+    #This over previsions the arrays: for each family, all the pairs (with repeats) of its
+    #angles, times the largest number of angles between any two families.
+    nPairAng = np.unique(familyID, axis=0, return_counts=True)[1].max()
+    nlib = int(np.sum(nFamilyID * (nFamilyID + 1) // 2) * nPairAng)
 
     libANG = np.zeros((nlib, 3))
     libID = np.zeros((nlib, 3), dtype=int)
-- 
2.43.0


From 9d54cae044f677d270440cc3f45b462d1a3ad0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 09/90] fix: a phase whose reflectors form a single angle could
 not be built

---
 pyebsdindex/tripletvote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 3cd0072..c391992 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -397,7 +397,7 @@ class BandIndexer():
     nangs = angs.size
     familyID = np.array(familyID)
     polePairs = np.array(polePairs)
-    nFamilyID = np.bincount(np.squeeze(familyID[:,0]).astype(int), minlength=int(npoles))
+    nFamilyID = np.bincount(familyID[:,0].astype(int), minlength=int(npoles))
 
     #stuff, nFamilyID = np.unique(familyID[:,0], return_counts=True)
 
-- 
2.43.0


From 4b101fc58f30e5780bf31446c637fbf4cbbd0ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 10/90] fix: low-symmetry phases were misindexed because a
 band's normal has no sense

---
 pyebsdindex/tripletvote.py | 115 ++++++++++++++++++++-----------------
 1 file changed, 62 insertions(+), 53 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index c391992..19b60c0 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -335,12 +335,18 @@ class BandIndexer():
     sympolesComplete = [] # list of all HKL variants with no duplicates
     nFamComplete = np.zeros(npoles, dtype = np.int32) # number of
     nFamily = np.zeros(npoles, dtype = np.int32)
+    nSense = np.ones(npoles, dtype = np.int32) # number of senses of a pole that are not related by a rotation.
     polesFlt = np.array(poles, dtype=np.float32) # convert the input poles to floating point (but still HKL int values)
 
     for i in range(npoles):
       family = self._symrotpoles(polesFlt[i, :], crystalmats) #rotlib.quat_vector(symmetry,polesFlt[i,:])
       uniqHKL = self._hkl_unique(family, reduceInversion=False)
-      uniqHKL = np.flip(uniqHKL, axis=0)
+      uniqHKL = np.flip(uniqHKL, axis=0).reshape(-1, 3)
+      # A band gives the plane normal without its sense.  If the rotations of the Laue group do not
+      # include the inverse poles, they need to be added.
+      if not np.any(np.max(np.abs(uniqHKL + uniqHKL[0, :]), axis=1) < 0.1):
+        uniqHKL = np.concatenate((uniqHKL, -1.0 * uniqHKL))
+        nSense[i] = 2
       sympolesComplete.append(uniqHKL)
       nFamComplete[i] = np.reshape(sympolesComplete[-1],(-1,3)).shape[0] #np.int32((sympolesComplete[-1]).size/3)
 
@@ -457,6 +463,7 @@ class BandIndexer():
                    'familyid': completePoleFamId,
                    'angTable' : angTable,
                    'nFamily'  : nFamComplete,
+                   'nSense'   : nSense,
                    'famIndex' : famindx0
                   }
 
@@ -547,13 +554,14 @@ class BandIndexer():
     libFamIndx = self.completelib['famIndex']
     libFamID = self.completelib['familyid']
     nFam = self.completelib['nFamily']
+    nSense = self.completelib['nSense']
     libPolesCart = self.completelib['polesCart']
     angTol = self.angTol
     n_band_early = np.int64(self.nband_earlyexit)
 
     # this will check the vote, and return the exact band matching to specific poles of the best fitting solution.
     fit, polematch, polevalid, nMatch, whGood, ij, R, fitb = \
-      self._assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam)
+      self._assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, nSense, angTol, n_band_early, bandnorms, bandRank_arg, bandFam)
 
     # check how often the indexed band matched the top voting band family.
     acc_correct =  np.sum(np.array((polevalid > 0) & #take valid poles
@@ -1221,7 +1229,7 @@ class BandIndexer():
 
   @staticmethod
   @numba.jit(nopython=True, cache=True, fastmath=True,parallel=False)
-  def _assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam ):
+  def _assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, nSense, angTol, n_band_early, bandnorms, bandRank_arg, bandFam ):
 
     eps = np.float32(1.0e-12)
     pflt = np.asarray(libPolesCart, dtype=np.float32)
@@ -1276,16 +1284,6 @@ class BandIndexer():
           if paralleltest < angTol:  # the two poles are parallel, send in another two poles if available.
             continue
           ang01 = np.arccos(ang01) * RADEG
-          wh12 = np.nonzero(np.abs(libAngTable[libFamIndx[f1],libFamIndx[f2]:np.int64(libFamIndx[f2] + nFam[f2])] - ang01) < angTol)[0]
-
-          n12 = wh12.size
-          if n12 == 0:
-            continue
-
-          wh12 += libFamIndx[f2]
-          p1 = pflt[libFamIndx[f1], :]
-
-          n12 = wh12.size
           v1v2c = np.cross(v1,v2)
           v1v2c /= np.linalg.norm(v1v2c)
           # attempt to see which solution gives the best match to all the poles
@@ -1293,8 +1291,6 @@ class BandIndexer():
           # divided by the angular deviation.
           # Use the TRIAD method for finding the rotation matrix
 
-          Rtry = np.zeros((n12,3,3), dtype = np.float32)
-
           #score = np.zeros((n01), dtype = np.float32)
           A = np.zeros((3,3), dtype = np.float32)
           B = np.zeros((3,3), dtype = np.float32)
@@ -1303,47 +1299,60 @@ class BandIndexer():
           B[0,:] = v1
           B[1,:] = v1v2c
           B[2,:] = b2
-          A[:,0] = p1
           score = -1.0
 
-          for i in range(n12):
-            p2 = pflt[wh12[i], :]
-            ntemp = np.linalg.norm(p2) + 1.0e-35
-            p2 = p2 / ntemp
-            p1p2c = np.cross(p1,p2)
-            ntemp = np.linalg.norm(p1p2c) + 1.0e-35
-            p1p2c = p1p2c / ntemp
-            A[:,1] = p1p2c
-            A[:,2] = np.cross(p1,p1p2c)
-            AB = (A.dot(B))
-            Rtry[i,:,:] = AB
-
-            testp = (AB.dot(bndnorm))
-            test =  (pflt.dot(testp))
-            #print(test.shape)
-            angfitTry = np.zeros((nBnds), dtype = np.float32)
-            #angfitTry = np.max(test,axis=0)
-            #print(test.shape)
-            for j in range(nBnds):
-              angfitTry[j] = np.max(test[:,j])
-              angfitTry[j] = -1.0 if angfitTry[j] < -1.0 else angfitTry[j]
-              angfitTry[j] =  1.0 if angfitTry[j] >  1.0 else angfitTry[j]
-
-            #angfitTry = np.clip(np.amax(test,axis=0),-1.0,1.0)
-
-            angfitTry = np.arccos(angfitTry) * RADEG
-            whMatch = np.nonzero(angfitTry < angTol)[0]
-            nmatch = whMatch.size
-            #scoreTry = np.float32(nmatch) * np.mean(np.abs(angTol - angfitTry[whMatch]))
-            scoreTry = np.float32(nmatch) /( np.mean(angfitTry[whMatch]) + 1e-6)
-            if scoreTry > score:
-              score = scoreTry
-              angFit = angfitTry
+          # the first band could be either sense of the pole, unless they are related by a rotation.
+          for s in range(nSense[f1]):
+            indx1 = np.int64(libFamIndx[f1] + s * (nFam[f1]//2))
+            wh12 = np.nonzero(np.abs(libAngTable[indx1,libFamIndx[f2]:np.int64(libFamIndx[f2] + nFam[f2])] - ang01) < angTol)[0]
+
+            n12 = wh12.size
+            if n12 == 0:
+              continue
+
+            wh12 += libFamIndx[f2]
+            p1 = pflt[indx1, :]
+            A[:,0] = p1
+
+            for i in range(n12):
+              p2 = pflt[wh12[i], :]
+              ntemp = np.linalg.norm(p2) + 1.0e-35
+              p2 = p2 / ntemp
+              p1p2c = np.cross(p1,p2)
+              ntemp = np.linalg.norm(p1p2c) + 1.0e-35
+              p1p2c = p1p2c / ntemp
+              A[:,1] = p1p2c
+              A[:,2] = np.cross(p1,p1p2c)
+              AB = (A.dot(B))
+
+              testp = (AB.dot(bndnorm))
+              test =  (pflt.dot(testp))
+              #print(test.shape)
+              angfitTry = np.zeros((nBnds), dtype = np.float32)
+              #angfitTry = np.max(test,axis=0)
+              #print(test.shape)
               for j in range(nBnds):
-                polematch[j] = np.argmax(test[:,j])
-                polevalid[j] =  np.uint8(angfitTry[j] < angTol)
-              R[0, :,:] = Rtry[i,:,:]
-
+                angfitTry[j] = np.max(test[:,j])
+                angfitTry[j] = -1.0 if angfitTry[j] < -1.0 else angfitTry[j]
+                angfitTry[j] =  1.0 if angfitTry[j] >  1.0 else angfitTry[j]
+
+              #angfitTry = np.clip(np.amax(test,axis=0),-1.0,1.0)
+
+              angfitTry = np.arccos(angfitTry) * RADEG
+              whMatch = np.nonzero(angfitTry < angTol)[0]
+              nmatch = whMatch.size
+              #scoreTry = np.float32(nmatch) * np.mean(np.abs(angTol - angfitTry[whMatch]))
+              scoreTry = np.float32(nmatch) /( np.mean(angfitTry[whMatch]) + 1e-6)
+              if scoreTry > score:
+                score = scoreTry
+                angFit = angfitTry
+                for j in range(nBnds):
+                  polematch[j] = np.argmax(test[:,j])
+                  polevalid[j] =  np.uint8(angfitTry[j] < angTol)
+                R[0, :,:] = AB
+
+          if score < 0.0: # no pair of poles matches these two bands.
+            continue
 
           whGood = (np.nonzero(angFit < angTol)[0]).astype(np.int64)
           nGood = max(np.int64(whGood.size), np.int64(0))
-- 
2.43.0


From 8403f0d67e281d4eb911cb7f387d63018d3869b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 11/90] fix: orientation refinement divided zero by zero for
 180 degree rotations

---
 pyebsdindex/tripletvote.py | 54 +++++++++++---------------------------
 1 file changed, 15 insertions(+), 39 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 19b60c0..5885a8e 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -944,49 +944,25 @@ class BandIndexer():
 
       # wn = np.ones((nGood,1), dtype=np.float32)/np.float32(nGood)  #(weights[whGood]).reshape(nGood,1)
 
-      I = np.zeros((3, 3), dtype=np.float64)
-      I[0, 0] = 1.0;
-      I[1, 1] = 1.0;
-      I[2, 2] = 1.0
-      q = np.zeros((4), dtype=np.float64)
-
       B = (wn * bndnorm).T @ pflt
       S = B + B.T
       z = np.asarray(np.sum(wn * np.cross(bndnorm, pflt), axis=0), dtype=np.float64)
-      S2 = S @ S
-      det = np.linalg.det(S)
-      k = (S[1, 1] * S[2, 2] - S[1, 2] * S[2, 1]) + (S[0, 0] * S[2, 2] - S[0, 2] * S[2, 0]) + (
-              S[0, 0] * S[1, 1] - S[1, 0] * S[0, 1])
       sig = 0.5 * (S[0, 0] + S[1, 1] + S[2, 2])
-      sig2 = sig * sig
-      d = z.T @ S2 @ z
-      c = det + (z.T @ S @ z)
-      b = sig2 + (z.T @ z)
-      a = sig2 - k
-
-      lam = 1.0
-      tol = 1.0e-12
-      iter = 0
-      dlam = 1e6
-      # for i in range(10):
-      while (dlam > tol) and (iter < 10):
-        lam0 = lam
-        lam = lam - (lam ** 4 - (a + b) * lam ** 2 - c * lam + (a * b + c * sig - d)) / (
-                4 * lam ** 3 - 2 * (a + b) * lam - c)
-        dlam = np.fabs(lam0 - lam)
-        iter += 1
-
-      beta = lam - sig
-      alpha = lam ** 2 - sig2 + k
-      gamma = (lam + sig) * alpha - det
-      X = np.asarray((alpha * I + beta * S + S2), dtype=np.float64) @ z
-      qn = np.float64(0.0)
-      qn += gamma ** 2 + X[0] ** 2 + X[1] ** 2 + X[2] ** 2
-      qn = np.sqrt(qn)
-      q[0] = gamma
-      q[1:4] = X[0:3]
-      q /= qn
-      if (np.sign(gamma) < 0):
+
+      # The closed form of QUEST divides zero by zero for a 180 degree rotation.
+      # Take the quaternion from the eigenvector of the K matrix instead.
+      K = np.zeros((4, 4), dtype=np.float64)
+      K[0, 0] = sig
+      for j in range(3):
+        K[0, j + 1] = z[j]
+        K[j + 1, 0] = z[j]
+        for i in range(3):
+          K[i + 1, j + 1] = S[i, j]
+        K[j + 1, j + 1] -= sig
+      eigval, eigvec = np.linalg.eigh(K)
+      lam = eigval[3]
+      q = np.ascontiguousarray(eigvec[:, 3])
+      if q[0] < 0:
         q *= -1.0
 
       qout[p, :] = q
-- 
2.43.0


From e8eed03dd192404faa63f4936b228c1c5e64a8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:53 +0000
Subject: [PATCH 12/90] fix: BandDetect raised when given a pattern mask and a
 pattern size

---
 pyebsdindex/band_detect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 3795623..d98c720 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -118,11 +118,11 @@ class BandDetect():
         self.patDim = np.asarray(patDim)
       patternmask = None
       if 'patternmask' in kwargs :
-        self.patternmask = kwargs.get('patternmask')
+        self.patternmask = kwargs.pop('patternmask')
 
       patternmaskindex = None
       if 'patternmaskindex' in kwargs:
-        patternmaskindex = kwargs.get('patternmaskindex')
+        patternmaskindex = kwargs.pop('patternmaskindex')
       #print(patternmask)
       self.band_detect_setup(patterns, self.patDim,self.nTheta,self.nRho,\
                              self.tSigma, self.rSigma,self.rhoMaskFrac,self.nBands,
-- 
2.43.0


From dd35cc0edf4eaa787a66beed17b81695e24336ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 13/90] fix: evenly strided background from a pattern file
 raised TypeError

---
 pyebsdindex/band_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index d98c720..2abee7b 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -316,7 +316,7 @@ class BandDetect():
         stride = np.sort(stride)
       elif method.upper() == 'EVENSTRIDE':
         step = int(npats / nsample) # not great, but maybe good enough.
-        stride = np.arange(0,npats, step, dypte = np.uint64)
+        stride = np.arange(0, npats, step, dtype=np.int64)
       pat1 = fileobj.read_data(convertToFloat=True,patStartCount=[stride[0], 1],returnArrayOnly=True)[0]
       for i in stride[1:]:
         pat1 += fileobj.read_data(convertToFloat=True,patStartCount=[i, 1],returnArrayOnly=True)[0]
-- 
2.43.0


From f0c80c4ce0107352699e477547b61ae45a641178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:27 +0000
Subject: [PATCH 14/90] fix: bands that were not detected could be matched and
 counted in nmatch

---
 pyebsdindex/tripletvote.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 5885a8e..5a52976 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -561,7 +561,7 @@ class BandIndexer():
 
     # this will check the vote, and return the exact band matching to specific poles of the best fitting solution.
     fit, polematch, polevalid, nMatch, whGood, ij, R, fitb = \
-      self._assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, nSense, angTol, n_band_early, bandnorms, bandRank_arg, bandFam)
+      self._assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, nSense, angTol, n_band_early, bandnorms, bandRank_arg, bandFam, band_intensity)
 
     # check how often the indexed band matched the top voting band family.
     acc_correct =  np.sum(np.array((polevalid > 0) & #take valid poles
@@ -1205,7 +1205,7 @@ class BandIndexer():
 
   @staticmethod
   @numba.jit(nopython=True, cache=True, fastmath=True,parallel=False)
-  def _assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, nSense, angTol, n_band_early, bandnorms, bandRank_arg, bandFam ):
+  def _assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, nSense, angTol, n_band_early, bandnorms, bandRank_arg, bandFam, band_intensity ):
 
     eps = np.float32(1.0e-12)
     pflt = np.asarray(libPolesCart, dtype=np.float32)
@@ -1241,6 +1241,9 @@ class BandIndexer():
           bnd1 = bandRank_arg[p, -1 - ii]
           bnd2 = bandRank_arg[p, -1 - jj]
 
+          if (band_intensity[p, bnd1] < 1e-6) or (band_intensity[p, bnd2] < 1e-6): # invalid band
+            continue
+
           v1 = bandnorms[p, bnd1,:]
           f1 = bandFam[p, bnd1]
           v2 = bandnorms[p, bnd2,:]
@@ -1315,6 +1318,9 @@ class BandIndexer():
               #angfitTry = np.clip(np.amax(test,axis=0),-1.0,1.0)
 
               angfitTry = np.arccos(angfitTry) * RADEG
+              for j in range(nBnds):
+                if band_intensity[p, j] < 1e-6: # an invalid band can not be matched
+                  angfitTry[j] = 360.0
               whMatch = np.nonzero(angfitTry < angTol)[0]
               nmatch = whMatch.size
               #scoreTry = np.float32(nmatch) * np.mean(np.abs(angTol - angfitTry[whMatch]))
-- 
2.43.0


From 401fc9802ba0fd5568d2aac0735351f4aea5142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:27 +0000
Subject: [PATCH 15/90] fix: getmatchedpole returned a pole for bands that were
 not matched

---
 pyebsdindex/tripletvote.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 5a52976..bf625cb 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -620,6 +620,9 @@ class BandIndexer():
       print('refinement: ', timer() - tic)
       print('all: ',timer() - tic0)
 
+    # only the matched bands have a pole assigned to them
+    polematch = np.where(polevalid > 0, polematch, -100)
+
     # avequat = avequat[0,...]
     # fit = fit[0]
     # cm2 = cm2[0]
-- 
2.43.0


From 9e5f0dbe8f2e6f0cf1cd31c92affead83cfcdc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 16/90] fix: early exit band count of an indexer stuck to its
 first use

---
 pyebsdindex/_ebsd_index_single.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 5cb8032..35df40a 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -715,7 +715,6 @@ class EBSDIndexer:
                     earlyexit = max(earlyexit, ph.nband_earlyexit)
             if earlyexit < 0:
                 earlyexit = shpBandDat[1]  # default to all the poles.
-            self.nband_earlyexit = earlyexit
         else:
             earlyexit = self.nband_earlyexit
 
-- 
2.43.0


From a5cf6610bf23e11c7fbdf1a7a436245d2bc576ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 17/90] fix: patstart and npats were ignored when indexing an
 array

---
 pyebsdindex/_ebsd_index_single.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 35df40a..0def8e5 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -530,15 +530,24 @@ class EBSDIndexer:
             for the distributed indexing procedures.
         """
 
+        if patsin is None:
+            npatsTotal = self.fID.nPatterns
+        else:
+            if patsin.ndim == 2:
+                patsin = np.reshape(patsin, (1,) + patsin.shape)
+            npatsTotal = patsin.shape[0]
+        if patstart < 0:
+            patstart = max(0, int(npatsTotal) + patstart)
+        if (npats <= 0) or (patstart + npats > npatsTotal):
+            npats = int(npatsTotal) - patstart
+        if (patsin is not None) and (npats < npatsTotal):
+            patsin = patsin[patstart:patstart + npats, :, :]
+
         pats, xyloc = self._getpats(patsin=patsin, patstart=patstart, npats=npats, xyloc=xyloc)
         # just a check that the band_detect is ready for this size pattern.
         if self.bandDetectPlan.patDim is None:
             self.bandDetectPlan.band_detect_setup(patterns=pats)
 
-        npoints = pats.shape[0]
-        if npats == -1:
-            npats = npoints
-
         gpuid = gpu_id
         try: # just in case the user sends in the gpu_id as a list/array
             gpuid = gpu_id[0]
-- 
2.43.0


From 2c7ee39dc6c8834e4d40ad9758a1cbc9a61ac914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 18/90] fix: index_pats raised for an indexer made without a
 pattern size, and update_file changed its default size

---
 pyebsdindex/_ebsd_index_single.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 0def8e5..ef49261 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -424,6 +424,7 @@ class EBSDIndexer:
             1D array with two values, the pattern height and width.
         """
 
+        patDim = np.array(patDim, dtype=np.int64)
         if filename is None:
             self.filein = None
             #self.bandDetectPlan.band_detect_setup(patDim=patDim)
@@ -441,7 +442,8 @@ class EBSDIndexer:
                 self.fID.read_header()
             patDim[0:] = np.array([self.fID.patternH, self.fID.patternW])
 
-        if (patDim[0] != self.bandDetectPlan.patDim[0]) or \
+        if (self.bandDetectPlan.patDim is None) or \
+            (patDim[0] != self.bandDetectPlan.patDim[0]) or \
             (patDim[1] != self.bandDetectPlan.patDim[1]):
             # need to setup banddetect for new pattern dimensions.
             #print(patDim, self.bandDetectPlan.patDim)
-- 
2.43.0


From 3f316c5145753e83892a9a88f98a811f9f3de7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 19/90] fix: indexing a file after an array of another pattern
 size used the array's Radon plan

---
 pyebsdindex/_ebsd_index_single.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index ef49261..33e9c30 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -673,13 +673,13 @@ class EBSDIndexer:
                 pats = np.reshape(patsin, (1, pshape[0], pshape[1]))
             else:
                 pats = patsin  # [patStart:patEnd, :,:]
-            pshape = pats.shape
 
-            if self.bandDetectPlan.patDim is None:
+        pshape = pats.shape
+        if self.bandDetectPlan.patDim is None:
+            self.bandDetectPlan.band_detect_setup(patDim=pshape[1:3])
+        else:
+            if np.all((np.array(pshape[1:3]) == self.bandDetectPlan.patDim)) == False:
                 self.bandDetectPlan.band_detect_setup(patDim=pshape[1:3])
-            else:
-                if np.all((np.array(pshape[1:3]) == self.bandDetectPlan.patDim)) == False:
-                    self.bandDetectPlan.band_detect_setup(patDim=pshape[1:3])
         return pats, xyloc
 
     def _detectbands(self, pats, PC, xyloc=None, clparams=None, verbose=0, chunksize=528, gpu_id=None):
-- 
2.43.0


From 2d51c62aa9bd64b96f8f1964a2fd57e4349289ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 20/90] fix: Radon smoothing derived from one pattern size was
 kept for other pattern sizes

---
 pyebsdindex/band_detect.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 2abee7b..3b44c02 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -85,6 +85,8 @@ class BandDetect():
     self.rdnNorm = None
     self.tSigma = tSigma
     self.rSigma = rSigma
+    self._autotSigma = None # values derived from the size of the Radon bins, if not set by the user
+    self._autorSigma = None
     self.kernel = None
     self.peakPad = np.array([11, 11])
     self.padding = np.array([11, 11])
@@ -250,12 +252,19 @@ class BandDetect():
     if (self.rhoMaskFrac is not None):
       recalc_masks = True
 
+    if (tSigma is None) and (self._autotSigma is not None) and (self.tSigma == self._autotSigma):
+      self.tSigma = None # follow the new theta bins
+    if (rSigma is None) and (self._autorSigma is not None) and (self.rSigma == self._autorSigma):
+      self.rSigma = None # follow the new rho bins
+
     if (self.tSigma is None) and (self.dTheta is not None):
       self.tSigma = 1.0/self.dTheta
+      self._autotSigma = self.tSigma
       recalc_masks = True
 
     if (self.rSigma is None) and (self.dRho is not None):
       self.rSigma = 0.5/np.float32(self.dRho)
+      self._autorSigma = self.rSigma
       recalc_masks = True
 
     if recalc_masks == True:
-- 
2.43.0


From 7368e5a7c0e94fe6a94b69510c13b14fbfe32948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:56 +0000
Subject: [PATCH 21/90] fix: Radon minimum and mean were taken over part of the
 transform, depending on its padding

---
 pyebsdindex/band_detect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 3b44c02..96f11d9 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -556,8 +556,8 @@ class BandDetect():
       rdnConv[:,:,i] = -1.0 * scipyndim.gaussian_filter(np.squeeze(radon[:,:,i]),[self.rSigma,self.tSigma],order=[2,0])
 
     #print(rdnConv.min(),rdnConv.max())
-    mns = (rdnConv[self.padding[0]:shprdn[1]-self.padding[0],self.padding[1]:shprdn[1]-self.padding[1],:]).min(axis=0).min(axis=0)
-    ave = np.mean(rdnConv[self.padding[0]:shprdn[1] - self.padding[0], self.padding[1]:shprdn[1] - self.padding[1],:], axis=(0,1))
+    mns = (rdnConv[self.padding[0]:shprdn[0]-self.padding[0],self.padding[1]:shprdn[1]-self.padding[1],:]).min(axis=0).min(axis=0)
+    ave = np.mean(rdnConv[self.padding[0]:shprdn[0] - self.padding[0], self.padding[1]:shprdn[1] - self.padding[1],:], axis=(0,1))
 
     ave -= mns
 
-- 
2.43.0


From 1348519d283780d9997988f75a765cc24b850e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 22/90] fix: a pattern mask given to an indexer made without a
 pattern size was ignored

---
 pyebsdindex/_ebsd_index_single.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 33e9c30..49db962 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -397,6 +397,8 @@ class EBSDIndexer:
                 patDim=patDim,
                 patternmask=patternmask, patternmaskindex=patternmaskindex
             )
+        elif patternmask is not None:  # used when the pattern size is known
+            self.bandDetectPlan.patternmask = patternmask
 
         self.nband_earlyexit = nband_earlyexit
         self.dataTemplate = np.dtype(
-- 
2.43.0


From 157b0b3066a6cabef654e998fec4b211a408bfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 23/90] fix: EBSP files could not be read (one-element arrays
 used as scalars)

---
 pyebsdindex/ebsd_pattern.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c1a0891..694359e 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -704,7 +704,7 @@ class EBSPFile(EBSDPatternFile):
       return -1
 
     f.seek(0)
-    version = np.fromfile(f, dtype=np.int64, count=1)
+    version = np.fromfile(f, dtype=np.int64, count=1)[0]
     version = np.int64(-1*version)
     if version <= 0:
       self.version = 0
@@ -734,7 +734,7 @@ class EBSPFile(EBSDPatternFile):
       loc0 = 0
       counter = 0
       while loc0 == 0: # check for non-stored points.
-        loc0 = np.int64(np.fromfile(f, dtype=np.uint64, count=1))
+        loc0 = np.int64(np.fromfile(f, dtype=np.uint64, count=1)[0])
         counter += 1
       f.seek(-8*counter, 1) # move back 8 bytes (or however far we needed to move into the file to find a legitamte offset.
 
@@ -834,7 +834,7 @@ class EBSPFile(EBSDPatternFile):
         else:
           loc0 = np.min(self.filePos[self.filePos > 0])
           f.seek(np.int64(loc0 + 4*per_pat_header + nbytespat))
-          havepos = np.fromfile(f, dtype=np.uint8, count=1)
+          havepos = np.fromfile(f, dtype=np.uint8, count=1)[0]
           if havepos > 0:
             footoffset = 1
             self.hasxypos = True
@@ -849,11 +849,11 @@ class EBSPFile(EBSDPatternFile):
           if self.filePos[i] > 0:
             f.seek(np.int64(self.filePos[i] + 4*per_pat_header + nbytespat + footoffset))
 
-            x1 = np.fromfile(f, dtype=np.float64, count=1)
+            x1 = np.fromfile(f, dtype=np.float64, count=1)[0]
             #print(x1, i)
             xall[i] = x1
             f.seek(footoffset, 1)
-            yall[i] = np.fromfile(f, dtype=np.float64, count=1)
+            yall[i] = np.fromfile(f, dtype=np.float64, count=1)[0]
 
 
         self.xStep = xall[1] - xall[0]
@@ -920,9 +920,9 @@ class EBSPFile(EBSDPatternFile):
         readpats[ii, :] = np.fromfile(f, dtype=typeread, count=np.int64(nPerPat))
         if readxypos == True:
           f.seek(xyoffset, 1)
-          xyloc[ii, 0] = np.fromfile(f, dtype=np.float64, count=1)
+          xyloc[ii, 0] = np.fromfile(f, dtype=np.float64, count=1)[0]
           f.seek(xyoffset, 1)
-          xyloc[ii, 1] = np.fromfile(f, dtype=np.float64, count=1)
+          xyloc[ii, 1] = np.fromfile(f, dtype=np.float64, count=1)[0]
 
     readpats = readpats.reshape(nPatToRead, self.patternH, self.patternW)
     f.close()
-- 
2.43.0


From 868f02e3521d42d0d2a6561dab5113b343174ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 24/90] fix: EBSP files of a single row or pattern could not be
 read, and the row step came out negative

---
 pyebsdindex/ebsd_pattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 694359e..f2168d5 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -856,7 +856,7 @@ class EBSPFile(EBSDPatternFile):
             yall[i] = np.fromfile(f, dtype=np.float64, count=1)[0]
 
 
-        self.xStep = xall[1] - xall[0]
+        self.xStep = xall[1] - xall[0] if self.nPatterns > 1 else 0.0
         if self.xStep > 1e-6:
           ncol = (xall.max() - xall.min()) / self.xStep
           ncol = np.round(ncol+1)
@@ -866,7 +866,8 @@ class EBSPFile(EBSDPatternFile):
         self.nCols = np.uint64(ncol)
 
 
-        self.yStep = yall[0] - yall[self.nCols]
+        # the rows may run in either direction
+        self.yStep = np.abs(yall[0] - yall[self.nCols]) if self.nPatterns > self.nCols else 0.0
 
         if self.yStep > 1e-6:
           nrow = (yall.max() - yall.min()) / self.yStep
-- 
2.43.0


From 94bc68ed32b7cd7eb3d3c6d03ac813db948c7b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 25/90] fix: H5OINA files with only raw patterns could not be
 opened

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index f2168d5..348489f 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1760,7 +1760,7 @@ class OXFORDOINA(HDF5PatFile):
     f.close()
 
     if (len(self.h5datagroups) < 1) and (getraw is False):
-      self.get_data_paths(self, verbose=False, getraw=True)
+      return self.get_data_paths(verbose=verbose, getraw=True)
 
     if len(self.h5datagroups) < 1:
       print("No viable EBSD patterns found:",str(Path(self.filepath)))
-- 
2.43.0


From 9586a95617658eeb0aa5b186c95754394f3caf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 26/90] fix: opening an HDF5 pattern file took a write lock on
 it and left it open

---
 pyebsdindex/ebsd_pattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 348489f..7b2c076 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -79,7 +79,7 @@ def get_pattern_file_obj(path,file_type=str('')):
     ebsdfileobj = HDF5PatFile(path) # if the path variable is a list,
     # the second item is set to be the hdf5 path to the patterns.
     try:
-      f = h5py.File(Path(pathtemp[0]).expanduser(),'r+')
+      f = h5py.File(Path(pathtemp[0]).expanduser(),'r')
     except:
       print("File Not Found:",str(Path(pathtemp[0])))
       return -1
@@ -100,6 +100,7 @@ def get_pattern_file_obj(path,file_type=str('')):
       vendor = str(vendor.decode('UTF-8'))
       if vendor >= 'kikuchipy':
         ebsdfileobj = KIKUCHIPYH5(path)
+    f.close()
     if ebsdfileobj.h5patdatpth is None: #automatically chose the first data group
       ebsdfileobj.get_data_paths()
       ebsdfileobj.set_data_path(pathindex=0)
-- 
2.43.0


From c591b7d0fd0894a362e044b3b857f323a4bffdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 27/90] fix: EBSP files could not be written, and 16 bit ones
 were declared 8 bit

---
 pyebsdindex/ebsd_pattern.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 7b2c076..d242a13 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -939,14 +939,14 @@ class EBSPFile(EBSDPatternFile):
     # xyloc[:,1] *= self.yStep
     return readpats, xyloc
 
-  def write_header(self, writeBlank=False, bitdepth=8):
+  def write_header(self, writeBlank=False, bitdepth=None):
 
     filepath = self.filepath
     extension = str.lower(Path(filepath).suffix)
     try:
       if (bitdepth is None) and (self.filedatatype is None):
-        raise ValueError('Error: extension not recognized, set "bitdepth" parameter')
-      elif (bitdepth == 8):
+        bitdepth = 8
+      if (bitdepth == 8):
         self.filedatatype = np.uint8
       elif (bitdepth == 16):
         self.filedatatype = np.uint16
@@ -969,8 +969,7 @@ class EBSPFile(EBSDPatternFile):
       self.version = 2
 
     if self.version > 0:
-      version = np.uint64(-self.version)
-      np.asarray(version, dtype=np.uint64).tofile(f)
+      np.asarray(-1*np.int64(self.version), dtype=np.int64).tofile(f)
 
     if self.version >= 0:
       if self.filePos is None:
-- 
2.43.0


From 324025f96c794daee616f11b17b8ab676d127652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 28/90] fix: a pattern object read as a block could not be
 written

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index d242a13..e09fdfc 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -339,7 +339,7 @@ class EBSDPatternFile():
 
     if isinstance(newpatterns,EBSDPatterns):
       pats = newpatterns.patterns
-      npats = newpatterns.nPatterns
+      npats = pats.shape[0]
     elif isinstance(newpatterns, np.ndarray):
       shp = newpatterns.shape
       ndim = newpatterns.ndim
-- 
2.43.0


From ff33151449c91afea664f5581ba5603a622eecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 29/90] fix: write_data ignored maxScale, and scaled each row
 of a block of patterns by itself

---
 pyebsdindex/ebsd_pattern.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index e09fdfc..69dda55 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -348,10 +348,9 @@ class EBSDPatternFile():
       elif ndim == 3:
         pats = newpatterns
       npats = pats.shape[0]
-    max = pats.max()
-
-    if maxScale is not None:
-      max = maxScale
+    # All of the patterns are converted together, so that they share one scaling.
+    typewrite = self.filedatatype
+    pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=maxScale)
 
     pStartEnd = np.asarray(patStartCount)
     # npats == number of patterns in the newpatterns
@@ -367,8 +366,6 @@ class EBSDPatternFile():
       if (patStart + nPatToWrite) > self.nPatterns:
         nPatToWrite = self.nPatterns - patStart
 
-      typewrite = self.filedatatype
-      pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=None)
       self.pat_writer(pat2write,patStart,nPatToWrite, typewrite)
 
     elif pStartEnd.ndim == 2: # write a slab of patterns.
@@ -392,8 +389,7 @@ class EBSDPatternFile():
 
         for i in range(nrowwrite):
           pstart = np.int64(np.int64(np.int64(rowstart+i)*self.nCols)+colstart)
-          self.write_data(newpatterns = pats[np.int64(i*ncolwrite):np.int64((i+1)*ncolwrite), :, :], patStartCount=[pstart,ncolwrite],writeHead=False,
-                          flt2int=flt2int,scalevalue=0.98, maxScale = max)
+          self.pat_writer(pat2write[np.int64(i*ncolwrite):np.int64((i+1)*ncolwrite), :, :], pstart, ncolwrite, typewrite)
   def pat_writer(self, pat2write, patStart, nPatToWrite, typewrite):
     pass
 
-- 
2.43.0


From 37db8135ec20279aaec2f59528e22f1199997708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 30/90] fix: TFPat files were written without their background,
 and blank ones too short

---
 pyebsdindex/ebsd_pattern.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 69dda55..9ef2840 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1253,13 +1253,9 @@ class TFPatFile(EBSDPatternFile):
       else: # there should be a background to write.
         np.asarray(-1, dtype=np.int16).tofile(f)
         background = np.zeros((self.patternH, self.patternW), dtype=np.uint16)
-        if self.background != np.ndarray:
-          pass
-        else:
-          if self.background.size != np.int64(self.patternH * self.patternW):
-            pass
-          else:
-            background = self.background.astype(self.filedatatype)
+        if isinstance(self.background, np.ndarray):
+          if self.background.size == np.int64(self.patternH) * np.int64(self.patternW):
+            background = self.background.astype(np.uint16)
         background.tofile(f)
 
 
@@ -1267,8 +1263,11 @@ class TFPatFile(EBSDPatternFile):
       typewrite = self.filedatatype
       dtyperead = np.dtype([('loc', np.uint32, (2)), ('pat', np.uint16, (self.patternH, self.patternW))])
 
-      f.seek(np.uint64(self.nPatterns * dtyperead.itemsize -1))
-      np.asarray(0, dtype=np.uint8).tofile(f)
+      # the patterns follow what was written of the header.
+      blank = np.zeros(1, dtype=dtyperead)
+      for i in range(np.int64(self.nPatterns)):
+        blank['loc'][0, :] = (i % np.int64(self.nCols), i // np.int64(self.nCols))
+        blank.tofile(f)
 
 
     f.close()
-- 
2.43.0


From 0092b4060eccf16ea3c705fc876127d6c102c901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 31/90] fix: TFPat files that are not a map: the flag and the
 pattern locations were not read

---
 pyebsdindex/ebsd_pattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 9ef2840..c9b73cb 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1103,7 +1103,8 @@ class TFPatFile(EBSDPatternFile):
       self.patternW = header[2]
       self.patternH = header[3]
 
-      isscan = np.fromfile(f, dtype=np.int16, count=1)
+      isscan = np.fromfile(f, dtype=np.int16, count=1)[0]
+      self.isscan = bool(isscan < 0)
       bitdepth = np.fromfile(f, dtype=np.uint8, count=1)
       self.bitdepth = bitdepth[0]
       hasback = np.fromfile(f, dtype=np.int16, count=1)
@@ -1128,7 +1129,7 @@ class TFPatFile(EBSDPatternFile):
     if self.isscan == False:
       xypix = []
       f.seek(self.filePos)
-      stride = np.int64(self.patternW * self.patternH)
+      stride = np.int64(self.patternW * self.patternH) * self.filedatatype(0).nbytes
       for ii in range(np.int64(self.nPatterns)):
         loc = np.fromfile(f, dtype=np.uint32, count=2)
         xypix.append(loc)
-- 
2.43.0


From 9c771f39731a0b8bace332363a6e70fa0d0a5bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 32/90] fix: copying a TFPat file copied nothing

---
 pyebsdindex/ebsd_pattern.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c9b73cb..0db7300 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1349,6 +1349,10 @@ class TFPatFile(EBSDPatternFile):
             dstf.seek(size-1,0)
             #print('seek done')
             dstf.write(b"\0")
+        else:
+          shutil.copyfile(src, dst)
+      else:
+        shutil.copyfile(src, dst)
     except:
       shutil.copyfile(src,dst)
 
-- 
2.43.0


From 9c0fbf8450c0029613d5c2d41bd63f90b9beb393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 33/90] fix: pattern count of UP files took a 16 byte header
 whatever the header says

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 0db7300..1c22cec 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -462,7 +462,7 @@ class UPFile(EBSDPatternFile):
       self.patternW = dat[0]
       self.patternH = dat[1]
       self.filePos = dat[2]
-      self.nPatterns = np.int64((Path(self.filepath).expanduser().stat().st_size - 16) /
+      self.nPatterns = np.int64((Path(self.filepath).expanduser().stat().st_size - np.int64(self.filePos)) /
                               (self.patternW * self.patternH * (self.filedatatype(0).nbytes)))
       if self.xStep is None:
         self.xStep = 0.0
-- 
2.43.0


From ba03e0edb48c897ff0528e883fcc52078f3c90e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 34/90] fix: UP files made from patterns under another
 extension had no data type

---
 pyebsdindex/ebsd_pattern.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 1c22cec..79401c7 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -645,9 +645,10 @@ class UPFile(EBSDPatternFile):
     self.nPatterns = np.uint64(shp[0])
 
     if bitdepth is None: #make a guess
-      self.bitdepth = 16
-      if mx <= 256:
-        self.bitdepth = 8
+      bitdepth = 16
+      if mx < 256:
+        bitdepth = 8
+    self.filedatatype = np.uint16 if bitdepth == 16 else np.uint8
   def copy_file(self, newpath, **kwargs):
     src = Path(self.filepath).expanduser().resolve()
     if newpath is not None:
-- 
2.43.0


From 3187bf0ff9f4d0c4bfb8178dda542517e02929a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 35/90] fix: partial writes of EBSP files replaced the stored
 positions, and version 5 headers

---
 pyebsdindex/ebsd_pattern.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 79401c7..d5a4f54 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -690,6 +690,7 @@ class EBSPFile(EBSDPatternFile):
     # self.bitdepth = None
     self.filePos = None  # file location in bytes where each pattern data starts
     self.hasxypos = False
+    self.hasrecords = False  # the file already holds a header and a position for each of its patterns
 
   def read_header(self, path=None, bitdepth=None):  # readInterval=[0, -1], arrayOnly=False,
     if path is not None:
@@ -885,6 +886,7 @@ class EBSPFile(EBSDPatternFile):
       if self.nRows is None:
         self.nRows = np.uint64(np.floor(self.nPatterns / self.nCols))
     f.close()
+    self.hasrecords = True
 
     return 0  # note this function uses multiple returns
 
@@ -984,6 +986,7 @@ class EBSPFile(EBSDPatternFile):
         if self.version >= 4:
           file_head_length = 9
 
+        self.hasrecords = False
         self.filePos = np.arange(
           self.nPatterns, dtype=np.uint64)*(16+pat_footer_length+self.patternH*self.patternW*self.filedatatype(0).nbytes)\
                        +file_head_length+8*self.nPatterns
@@ -1034,11 +1037,18 @@ class EBSPFile(EBSDPatternFile):
                         np.int64(self.patternH * self.patternW * self.filedatatype(0).nbytes)], dtype=np.uint32)
 
     write_xypos = self.hasxypos
+    per_pat_head = 16
+    if self.version >= 5:
+      per_pat_head = 24
 
     for i in range(np.int64(patStart), np.int64(patStart + nPatToWrite)):
       if np.int64(self.filePos[i]) > 0:
-        f.seek(np.int64(self.filePos[i]), 0)
         ii = np.int64(i - patStart)
+        if self.hasrecords: # only the pattern itself changes
+          f.seek(np.int64(self.filePos[i]) + per_pat_head, 0)
+          pat2write[ii, :, :].tofile(f)
+          continue
+        f.seek(np.int64(self.filePos[i]), 0)
         pathead.tofile(f)
         pat2write[ii, :, :].tofile(f)
         if write_xypos:
-- 
2.43.0


From d0c05e865a0d179fd392f7bd0795ee01236a9a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 36/90] fix: a range of patterns past the end, of a file given
 its scan by set_scan_rc, was not written

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index d5a4f54..ff3f588 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -364,7 +364,7 @@ class EBSDPatternFile():
       if nPatToWrite == 0:
         nPatToWrite = 1
       if (patStart + nPatToWrite) > self.nPatterns:
-        nPatToWrite = self.nPatterns - patStart
+        nPatToWrite = np.int64(self.nPatterns - patStart)
 
       self.pat_writer(pat2write,patStart,nPatToWrite, typewrite)
 
-- 
2.43.0


From e2a91d2f2dc1839ab995933eee4c4016e79a7509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 37/90] fix: NLPAR.calcsigma raised for every scan, and counted
 rows at the end of a chunk twice

---
 pyebsdindex/nlpar_cpu.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 1bff137..fdcb120 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -485,7 +485,7 @@ class NLPAR:
     chunksize = np.int64(chunksize)
 
 
-    nn = np.uint64(nn)
+    nn = np.int64(nn)
 
     if (automask is True) and (self.mask is None):
       self.mask = (self.automask(pheight,pwidth))
@@ -511,10 +511,7 @@ class NLPAR:
       data = data.reshape(data.shape[0], phw)
 
       #data = None
-      if rowend == nrows:
-        rowstartcount = np.asarray([j-rowstartread,rowcountread - (j-rowstartread) ], dtype=np.int64)
-      else:
-        rowstartcount = np.asarray([j-rowstartread,chunksize ], dtype=np.int64)
+      rowstartcount = np.asarray([j-rowstartread, min(chunksize, nrows-j)], dtype=np.int64)
 
       sigchunk, temp = self.sigma_numba(data,nn, rowcountread,ncols,rowstartcount,colstartcount,indices,saturation_protect)
 
-- 
2.43.0


From 6f3e1f6726d1cda93805c4b55e44b63dad2efa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 38/90] fix: NLPAR raised with reset_sigma or a single sigma,
 and used a sigma of the wrong size

---
 pyebsdindex/nlpar_cpu.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index fdcb120..e1c1fec 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -370,20 +370,14 @@ class NLPAR:
 
     indices = np.asarray( (self.mask.flatten().nonzero())[0], np.uint64)
     calcsigma = False
-    if self.sigma is None:
-      calcsigma = True
-      self.sigma = np.zeros((nrows, ncols), dtype=np.float32)+1e24
-
     if reset_sigma:
       self.sigma = None
 
-    if (np.asarray(self.sigma).size == 1) and (self.sigma is not None):
-      tmp = np.asarray(self.sigma)[0]
+    if (self.sigma is not None) and (np.asarray(self.sigma).size == 1):
+      tmp = np.asarray(self.sigma).ravel()[0]
       self.sigma =  np.zeros((nrows, ncols), dtype=np.float32)+tmp
-      calcsigma = False
 
-    shpsigma = np.asarray(self.sigma).shape
-    if (shpsigma[0] != nrows) and (shpsigma[1] != ncols):
+    if (self.sigma is None) or (np.asarray(self.sigma).shape != (nrows, ncols)):
       self.sigma = np.zeros((nrows,ncols),dtype=np.float32) + 1e24
       calcsigma = True
 
-- 
2.43.0


From 3204dba7433a72d1569122d46fa7d5ebdf32a06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 39/90] fix: NLPAR averaged patterns from outside of scans, or
 chunks, smaller than the search window

---
 pyebsdindex/nlpar_cpu.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index e1c1fec..7c7b89b 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -404,7 +404,7 @@ class NLPAR:
         print("begin row: ", j, "/", nrows, sep='', end='\r')
 
       rowstartread = np.int64(max(0, j-sr))
-      rowend = min(j + chunksize+sr,nrows)
+      rowend = min(max(j + chunksize+sr, 2*sr+1),nrows)
 
       if (rowend - rowstartread) < (2*sr+1):
         rowstartread = np.int64(max(0, rowend - (2*sr+1)))
@@ -676,12 +676,13 @@ class NLPAR:
     else:
       mxval *= np.float32(0.999)
     for i in numba.prange(ncols):
-      winstart_x = max((i - sr),0) - max((i + sr - (ncols - 1)),0)
-      winend_x = min((i + sr),(ncols - 1)) + max((sr - i),0) + 1
+      # the search window is moved inside the scan at its edges, and is all of a scan smaller than it.
+      winstart_x = max((i - sr) - max((i + sr - (ncols - 1)),0),0)
+      winend_x = min((i + sr) + max((sr - i),0) + 1, ncols)
       pairdict = numba.typed.Dict.empty(key_type=numba.core.types.uint64,value_type=numba.core.types.float32)
       for j in range(nrows):
-        winstart_y = max((j - sr),0) - max((j + sr - (nrows - 1)),0)
-        winend_y = min((j + sr),(nrows - 1)) + max((sr - j),0) + 1
+        winstart_y = max((j - sr) - max((j + sr - (nrows - 1)),0),0)
+        winend_y = min((j + sr) + max((sr - j),0) + 1, nrows)
 
         weights = np.zeros(winsz,dtype=np.float32)
         pindx = np.zeros(winsz,dtype=np.uint64)
@@ -725,14 +726,14 @@ class NLPAR:
         #print('________________')
         # end of window scanning
         sum = np.float32(0.0)
-        for i_nn in range(winsz):
+        for i_nn in range(counter):
 
           weights[i_nn] = np.maximum(weights[i_nn]-dthresh, numba.float32(0.0))
           weights[i_nn] = np.exp(-1.0 * weights[i_nn] * lam2)
           weights[i_nn] += diff_step[i_nn]
           sum += weights[i_nn]
 
-        for i_nn in range(winsz):
+        for i_nn in range(counter):
           indx_nn = pindx[i_nn]
           weights[i_nn] /= sum
           #print(weights[i_nn], ' \n')
-- 
2.43.0


From 2fd60372a67840c6c467ff28d043d2406abe57b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 40/90] fix: NLPAR used the noise levels of incomplete
 neighbourhoods where chunks of a scan meet

---
 pyebsdindex/nlpar_cpu.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 7c7b89b..09c3fa2 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -381,6 +381,10 @@ class NLPAR:
       self.sigma = np.zeros((nrows,ncols),dtype=np.float32) + 1e24
       calcsigma = True
 
+    if calcsigma is True: # from whole neighbourhoods, also where two chunks meet.
+      self.sigma = NLPAR.calcsigma(self, chunksize=chunksize, nn=1, saturation_protect=saturation_protect,
+                                   automask=automask)
+
     sigma = np.asarray(self.sigma)
 
     scalemethod = 'clip'
@@ -394,7 +398,6 @@ class NLPAR:
     nthreadpos = numba.get_num_threads()
     #numba.set_num_threads(18)
     #numba.set_num_threads(18)
-    colstartcount = np.asarray([0,ncols],dtype=np.int64)
     if verbose >= 1:
       print("lambda:", self.lam, "search radius:", self.searchradius, "dthresh:", self.dthresh)
 
@@ -420,14 +423,7 @@ class NLPAR:
 
       data = data.reshape(shpdata[0], phw)
 
-      rowstartcount = np.asarray([0,rowcountread],dtype=np.int64)
-      if calcsigma is True:
-        sigchunk, tmp = self.sigma_numba(data,1,rowcountread,ncols,rowstartcount,colstartcount,indices,saturation_protect)
-        del tmp
-        tmp = (sigma[rowstartread:rowend,:] < sigchunk).choose(sigchunk,sigma[rowstartread:rowend,:])
-        sigma[rowstartread:rowend,:] = tmp
-      else:
-        sigchunk = sigma[rowstartread:rowend,:]
+      sigchunk = sigma[rowstartread:rowend,:]
 
       #dataout = data
 
-- 
2.43.0


From 1ad0c71b9e1cb32244bf447bdb85da47cc23484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 41/90] fix: NLPAR added diff_offset once more for every
 pattern, into memory shared by all threads

---
 pyebsdindex/nlpar_cpu.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 09c3fa2..945c636 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -49,7 +49,7 @@ class NLPAR:
     self.lam = lam
     self.searchradius = searchradius
     self.dthresh = dthresh
-    self.diff_offset = diff_offset,
+    self.diff_offset = diff_offset
     self.filepath = None
     self.hdfdatapath = None
     self.filepathout = None
@@ -664,7 +664,6 @@ class NLPAR:
     shpdata = data.shape
     shpind = indices.shape
     winsz = np.int32((2*sr+1)**2)
-    diff_step =  np.zeros((winsz), dtype=np.float32)
 
     mxval = np.max(data)
     if saturation_protect == False:
@@ -681,6 +680,7 @@ class NLPAR:
         winend_y = min((j + sr) + max((sr - j),0) + 1, nrows)
 
         weights = np.zeros(winsz,dtype=np.float32)
+        diff_step = np.zeros(winsz,dtype=np.float32)
         pindx = np.zeros(winsz,dtype=np.uint64)
 
         indx_0 = i + ncols * j
@@ -694,9 +694,8 @@ class NLPAR:
 
             if indx_nn == indx_0:
               weights[counter] = np.float32(-1.0e6)
-              diff_step[counter] +=  diff_offset
+              diff_step[counter] = diff_offset
             else:
-              diff_step[counter] =  0.0
               pairid = getpairid(indx_0, indx_nn)
               if pairid in pairdict:
                 weights[counter] = pairdict[pairid]
-- 
2.43.0


From 9b4239fc620da0de4fa1e8534da5fc67a2f4e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 42/90] fix: writing floating point patterns cut off their
 fractions, so that NLPAR of identical patterns changed them

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index ff3f588..3a161c3 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -153,7 +153,7 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
   if method=='clip':
     if maxScale is not None:
       maxval = min(maxScale, maxval)
-    patsout[:,:,:] = pats.clip(minval, maxval).astype(dtype=typeout)
+    patsout[:,:,:] = np.around(pats.clip(minval, maxval)).astype(dtype=typeout)
   elif method=='fullscale':
     temp = pats.astype(np.float32) - minp
     if maxScale is None:
-- 
2.43.0


From 85e8993ed5bc06b0577d22677669b29167c39dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 43/90] fix: NLPAR lambda optimisation took neighbors outside
 of the scan for identical patterns

---
 pyebsdindex/nlpar_cpu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 945c636..eff8ae5 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -217,6 +217,8 @@ class NLPAR:
               s2_12 = (s2[j,i]+s2[jj,ii])
               d2[j,i,q] -= n2[j,i,q] * s2_12
               d2[j,i,q] /= s2_12*np.sqrt(2.0*n2[j,i,q])
+            else: # no such neighbor, at the edge of the scan.
+              d2[j,i,q] = np.float32(1e12)
 
     patternfile = self.getinfileobj()
     patternfile.read_header()
-- 
2.43.0


From f6fcb2029270447755e41b76dcf3bf5cc50d79fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 44/90] fix: NLPAR of a second file used the scan size and mask
 of the first one

---
 pyebsdindex/nlpar_cpu.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index eff8ae5..7004425 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -54,6 +54,7 @@ class NLPAR:
     self.hdfdatapath = None
     self.filepathout = None
     self.hdfdatapathout = None
+    self.fromfile = []  # which of nrows, ncols were taken from the file
     #self.patternfile = None
     #self.patternfileout = None
     self.setfile(filename)
@@ -71,6 +72,9 @@ class NLPAR:
   def setfile(self,filepath=None):
     self.filepath = None
     self.hdfdatapath = None
+    for rc in self.fromfile: # the size of the scan in the previous file
+      setattr(self, rc, None)
+    self.fromfile = []
     pathtemp = np.atleast_1d(filepath)
     fpath = pathtemp[0]
     hdf5path = None
@@ -160,12 +164,14 @@ class NLPAR:
       if (fID.nRows is not None):
         if (self.nrows is None):
           self.nrows = fID.nRows
+          self.fromfile.append('nrows')
         else:
           fID.nRows = self.nrows
 
       if (fID.nCols is not None):
         if (self.ncols is None):
           self.ncols = fID.nCols
+          self.fromfile.append('ncols')
         else:
           fID.nCols = self.ncols
 
@@ -238,7 +244,7 @@ class NLPAR:
 
     nn = np.uint64(nn)
 
-    if (automask is True) and (self.mask is None):
+    if (automask is True) and ((self.mask is None) or (self.mask.shape != (pheight, pwidth))):
       self.mask = (self.automask(pheight,pwidth))
     if self.mask is None:
       self.mask = np.ones((pheight,pwidth),dtype=np.uint8)
@@ -365,7 +371,7 @@ class NLPAR:
 
 
 
-    if (automask is True) and (self.mask is None):
+    if (automask is True) and ((self.mask is None) or (self.mask.shape != (pheight, pwidth))):
       self.mask = (self.automask(pheight,pwidth))
     if self.mask is None:
       self.mask = np.ones((pheight,pwidth), dtype=np.uint8)
@@ -479,7 +485,7 @@ class NLPAR:
 
     nn = np.int64(nn)
 
-    if (automask is True) and (self.mask is None):
+    if (automask is True) and ((self.mask is None) or (self.mask.shape != (pheight, pwidth))):
       self.mask = (self.automask(pheight,pwidth))
     if self.mask is None:
       self.mask = np.ones((pheight,pwidth), dtype=np.uint8)
-- 
2.43.0


From 072d0cd38a27f5581a60335620fbc5f1d733cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 45/90] fix: NLPAR lambda optimisation applied the distance
 threshold otherwise than the averaging

---
 pyebsdindex/nlpar_cpu.py       | 2 +-
 pyebsdindex/opencl/nlpar_cl.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 7004425..272816b 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -202,7 +202,7 @@ class NLPAR:
     target_weights = np.asarray(target_weights)
 
     def loptfunc(lam,d2,tw,dthresh):
-      temp = (d2 > dthresh).choose(dthresh, d2)
+      temp = np.maximum(d2 - dthresh, 0.0)
       dw = np.exp(-(temp) / lam ** 2)
       w = np.sum(dw, axis=2) + 1e-12
 
diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 1796ed6..ee41346 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -86,7 +86,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     target_weights = np.asarray(target_weights)
 
     def loptfunc(lam, d2, tw, dthresh):
-      temp = np.maximum(d2, dthresh)#(d2 > dthresh).choose(dthresh, d2)
+      temp = np.maximum(d2 - dthresh, 0.0)
       dw = np.exp(-(temp) / lam ** 2)
       w = np.sum(dw, axis=2) + 1e-12
 
-- 
2.43.0


From 3d998bf4030b0b643491014834f6e9139038c950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 46/90] fix: exporting a one-point scan failed

---
 pyebsdindex/ebsdfile.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index aba7f9f..45dbceb 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -76,7 +76,7 @@ def writeang(filename, indexer, data,
       phaseIDadd = 0
     else:
       phaseIDadd = 1
-    eulers = rotlib.qu2eu(data[-1]['quat'])
+    eulers = np.atleast_2d(rotlib.qu2eu(data[-1]['quat'])) # one point comes back as one triplet
     for i in range(data.shape[-1]):
       line = '  '
       line += '   '.join('{:.5f}'.format(x) for x in eulers[i,:])
@@ -190,9 +190,9 @@ def writeoh5(filename, indexer, data,
                                       ('Beta Rank', 'f4')])
         famtype['Hough Rank'][:] = -1.0
         famtype['Beta Rank'][:] = -1.0
-        famtype['H'] = np.squeeze(poles[:,0])
-        famtype['K'] = np.squeeze(poles[:, 1])
-        famtype['L'] = np.squeeze(poles[:, 2])
+        famtype['H'] = poles[:, 0]
+        famtype['K'] = poles[:, 1]
+        famtype['L'] = poles[:, 2]
 
         f.create_dataset(datasetname + '/EBSD/Header/Phase/' + str(pcount) + '/hkl Families',
                          data=famtype)
@@ -237,10 +237,10 @@ def writeoh5(filename, indexer, data,
       # Write data
       npoints = data[-1].shape[-1]
 
-      eulers = rotlib.qu2eu(data[-1]['quat'])
-      phi1 = np.squeeze(eulers[:,0]).astype(np.float32)
-      phi = np.squeeze(eulers[:, 1]).astype(np.float32)
-      phi2 = np.squeeze(eulers[:, 2]).astype(np.float32)
+      eulers = np.atleast_2d(rotlib.qu2eu(data[-1]['quat'])) # one point comes back as one triplet
+      phi1 = eulers[:, 0].astype(np.float32)
+      phi = eulers[:, 1].astype(np.float32)
+      phi2 = eulers[:, 2].astype(np.float32)
 
       f.create_dataset(datasetname + '/EBSD/Data/Phi1',
                        data=phi1)
-- 
2.43.0


From 75c19ac39faf3159702127a87a9309777a3259bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 47/90] fix: OH5 export did not flag unindexed points with CI
 -1

---
 pyebsdindex/ebsdfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index 45dbceb..75d9a63 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -259,8 +259,8 @@ def writeoh5(filename, indexer, data,
 
 
       phaseid = data[-1]['phase']+ phaseIDadd
-      ci = data[-1]['cm']
-      wh = np.nonzero(phaseid < 0)[0]
+      ci = np.array(data[-1]['cm']) # a copy: the caller's data is not to be changed
+      wh = np.nonzero(data[-1]['phase'] < 0)[0]
       if wh.shape[-1] > 0:
         ci[wh] = -1.0
       phaseid = (phaseid).clip(0)
-- 
2.43.0


From 0dba29fcdb5a36adac30277a9d0cc84948c6cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 48/90] fix: OH5 export failed when given the number of columns
 only

---
 pyebsdindex/ebsdfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index 75d9a63..5ba71e3 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -221,9 +221,9 @@ def writeoh5(filename, indexer, data,
             if indexer.fID.nCols is not None:
               ncols = indexer.fID.nCols
               nrows = indexer.fID.nRows
-        else:
-          if nrows is None:
-            nrows = np.ceil(data.shape[-1] / ncols)
+      else:
+        if nrows is None:
+          nrows = np.ceil(data.shape[-1] / ncols)
 
       ncols = np.atleast_1d(np.array([np.int32(ncols)]).squeeze())
       nrows = np.atleast_1d(np.array([np.int32(nrows)]).squeeze())
-- 
2.43.0


From c6544ef6c9aa025910433a194d36b97ff82a3fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 49/90] fix: OH5 export wrote positions for another number of
 points than the records

---
 pyebsdindex/ebsdfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index 5ba71e3..6c21958 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -272,8 +272,8 @@ def writeoh5(filename, indexer, data,
       f.create_dataset(datasetname + '/EBSD/Data/CI',
                        data=(ci).astype(np.float32))
 
-      x = (np.arange(ncols[0] * nrows[0], dtype=int) % ncols[0]).astype(np.float32) * xstep[0]
-      y = (np.arange(ncols[0] * nrows[0], dtype=int) // ncols[0]).astype(np.float32) * ystep[0]
+      x = (np.arange(npoints, dtype=int) % ncols[0]).astype(np.float32) * xstep[0]
+      y = (np.arange(npoints, dtype=int) // ncols[0]).astype(np.float32) * ystep[0]
 
       f.create_dataset(datasetname + '/EBSD/Data/X Position', data=x)
       f.create_dataset(datasetname + '/EBSD/Data/Y Position', data=y)
-- 
2.43.0


From cc836496fa9908bdc092544a3a0b66bc6b4d94ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 50/90] fix: OH5 export failed for phase names outside ASCII

---
 pyebsdindex/ebsdfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index 6c21958..07e9e50 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -167,7 +167,7 @@ def writeoh5(filename, indexer, data,
 
         f.create_dataset(datasetname + '/EBSD/Header/Phase/' + str(pcount) + '/Lattice Constant gamma',
                          data=np.array([np.float32(phase.latticeparameter[5])]))
-        pname = str(phase.phasename)
+        pname = str(phase.phasename).encode('utf-8')
         chararray = np.chararray(1, itemsize=len(pname)+1)
         chararray[:] = pname
         f.create_dataset(datasetname + '/EBSD/Header/Phase/' + str(pcount) + '/MaterialName', data=chararray)
-- 
2.43.0


From 7473a0de13e92419982394730534b18db1d3bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 51/90] fix: colouring a single crystal direction raised an
 error

---
 pyebsdindex/EBSDImage/IPFcolor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/EBSDImage/IPFcolor.py b/pyebsdindex/EBSDImage/IPFcolor.py
index e1ade33..f6bb8b2 100644
--- a/pyebsdindex/EBSDImage/IPFcolor.py
+++ b/pyebsdindex/EBSDImage/IPFcolor.py
@@ -110,10 +110,10 @@ def qu2ipf_cubic(quats, vector=np.array([0,0,1.0])):
 def ipf_color_cubic(xstalvect):
   shp = xstalvect.shape
   if len(shp) == 1:
-    xstalv = np.copy(xstalvect.reshape(1,shp))
+    xstalv = np.copy(xstalvect.reshape(1,shp[0]))
   else:
     xstalv = np.copy(xstalvect)
-  npoints = shp[0]
+  npoints = xstalv.shape[0]
 
   xstalv = np.abs(xstalv)
   xstalv = np.sort(xstalv, axis=1)
@@ -258,10 +258,10 @@ def qu2ipf_hex(quats, vector=np.array([0,0,1.0])):
 def ipf_color_hex(xstalvect):
   shp = xstalvect.shape
   if len(shp) == 1:
-    xstalv = np.copy(xstalvect.reshape(1,shp))
+    xstalv = np.copy(xstalvect.reshape(1,shp[0]))
   else:
     xstalv = np.copy(xstalvect)
-  npoints = shp[0]
+  npoints = xstalv.shape[0]
 
   xstalv /= np.sqrt((xstalv ** 2).sum(-1))[..., np.newaxis]
   xstalv[xstalv[:, 2] < 0, :] *= -1
-- 
2.43.0


From 623c12bef4a00b30439238866a1c2f441e1fa00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 52/90] fix: cubic orientation colours depended on the length
 of the reference vector

---
 pyebsdindex/EBSDImage/IPFcolor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/EBSDImage/IPFcolor.py b/pyebsdindex/EBSDImage/IPFcolor.py
index f6bb8b2..4e57903 100644
--- a/pyebsdindex/EBSDImage/IPFcolor.py
+++ b/pyebsdindex/EBSDImage/IPFcolor.py
@@ -115,6 +115,7 @@ def ipf_color_cubic(xstalvect):
     xstalv = np.copy(xstalvect)
   npoints = xstalv.shape[0]
 
+  xstalv = xstalv / np.sqrt((xstalv ** 2).sum(-1))[..., np.newaxis]
   xstalv = np.abs(xstalv)
   xstalv = np.sort(xstalv, axis=1)
   # project to sterographic triangle
-- 
2.43.0


From 1ebed7a77f12f66a776885dfc7a630e4eaebfa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 53/90] fix: orientation map of one point raised an error

---
 pyebsdindex/EBSDImage/IPFcolor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/EBSDImage/IPFcolor.py b/pyebsdindex/EBSDImage/IPFcolor.py
index 4e57903..f8fff94 100644
--- a/pyebsdindex/EBSDImage/IPFcolor.py
+++ b/pyebsdindex/EBSDImage/IPFcolor.py
@@ -53,7 +53,7 @@ def makeipf(ebsddata, indexer, vector=np.array([0,0,1.0]), xsize = None, ysize =
       ipfphase[phcount, :, :] = qu2ipf_hex(quat, vector=vector)
     phcount += 1
   phase = ((ebsddata[-1]['phase']).copy()).clip(0).reshape(npoints,1)
-  ipfout = np.choose(phase, ipfphase).squeeze()
+  ipfout = np.choose(phase, ipfphase)
   ipfout[ebsddata[-1]['fit'] > 179,:] = 0
 
 
-- 
2.43.0


From 3fcd3c94c4529372743a1b76631795ea80c40fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 54/90] fix: micron bar turned an image of one value into NaN

---
 pyebsdindex/EBSDImage/micronbar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/EBSDImage/micronbar.py b/pyebsdindex/EBSDImage/micronbar.py
index c87e1c4..e9407f0 100644
--- a/pyebsdindex/EBSDImage/micronbar.py
+++ b/pyebsdindex/EBSDImage/micronbar.py
@@ -148,7 +148,8 @@ def addmicronbar(image,
   rescaleim = image.astype(np.float32)
   if rescale == True:
     rescaleim -= rescaleim.min()
-    rescaleim *= (1.0 / (rescaleim.max())) * 0.999
+    if rescaleim.max() > 0: # an image of one value has no range to scale
+      rescaleim *= (1.0 / (rescaleim.max())) * 0.999
 
   rescaleim = rescaleim.reshape((imshape[0], imshape[1], channels))
   stepadjust = 1.0
-- 
2.43.0


From 03090063169cc099661b809137913ca1e31dce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 55/90] fix: micron bar raised an error when its longest length
 was exactly one micron

---
 pyebsdindex/EBSDImage/micronbar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/EBSDImage/micronbar.py b/pyebsdindex/EBSDImage/micronbar.py
index e9407f0..9eb5f81 100644
--- a/pyebsdindex/EBSDImage/micronbar.py
+++ b/pyebsdindex/EBSDImage/micronbar.py
@@ -266,7 +266,7 @@ def _round_micronbar(image_width, pixel_width, imfract=0.333):
   sequence = np.array([1,2,5,10,20,25,50,100,200,250,500], dtype=np.int64)
 
   max_scale_bar_size = image_width*pixel_width*imfract
-  if max_scale_bar_size < 1:
+  if max_scale_bar_size <= 1:
     units = 'nm'
     max_scale_bar_size *= 1000.0
     pixel_width *= 1000.0
-- 
2.43.0


From 8bbc8acf40c895e4ee04d15ad1fa94b0dcdc6d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 56/90] fix: distributed indexing took a start counted from the
 end, or a count past the end, wrongly

---
 pyebsdindex/_ebsd_index_parallel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index c0d0c89..271b8ac 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -275,9 +275,9 @@ def index_pats_distributed(
         )
 
     if patstart < 0:
-        patstart = npatsTotal - patstart
-    if npats <= 0:
-        npats = npatsTotal - patstart
+        patstart = max(0, int(npatsTotal) + patstart)
+    if (npats <= 0) or (patstart + npats > npatsTotal):
+        npats = int(npatsTotal) - patstart
 
     # Now set up the cluster with the indexer
 
-- 
2.43.0


From 855394900146f27ce4f88d7231758c79fc567804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 57/90] fix: distributed indexing could not use the file its
 indexer already has

---
 pyebsdindex/_ebsd_index_parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 271b8ac..04474a0 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -245,7 +245,7 @@ def index_pats_distributed(
 
     if filename is not None:
         indexer.update_file(filename)
-    else:
+    elif pats is not None:
         indexer.update_file(patDim=pats.shape[-2:])
 
     # Differentiate between getting a file to index or an array.
-- 
2.43.0


From 3c23822d3e041cd6d18cb1eac96e9a5631140d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 58/90] fix: distributed indexing never returned after a chunk
 failed in band finding

---
 pyebsdindex/_ebsd_index_parallel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 04474a0..1ce8f6b 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -529,6 +529,9 @@ def index_pats_distributed(
                 try:
                     message, (banddata, bandnorm, gjob) = ray.get(wrker)
 
+                    if message == 'Error': # treated as a dead worker, so that the job is sent out again.
+                        raise Exception("Error in finding bands")
+
                     if message == 'Done':
                         banddataout[gjob.pstart - patstart: gjob.pend - patstart, :] = banddata
                         bandnormsout[gjob.pstart - patstart: gjob.pend - patstart, :,:] = bandnorm
-- 
2.43.0


From 4983c9a4b93459465d77f3030a53ee6b66518ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 59/90] fix: a chunk of the last, stuck worker was sent out
 twice and another one lost

---
 pyebsdindex/_ebsd_index_parallel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 1ce8f6b..294ba4f 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -620,6 +620,7 @@ def index_pats_distributed(
                             actorid=0, clparammodule=clparamfunction, gpu_id=gpu_id, cudavis=cudagpuvis
                         )
                     )
+                    gjob = gpujobs.pop(0)
                     if inputmode == "filemode":
                         gputask.append(
                             gpuworkers[0].findbands.remote(gjob,
-- 
2.43.0


From 73b8884ee61f7cb5e0d4f41324c6ebbd4901ab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:46 +0000
Subject: [PATCH 60/90] fix: the replacement of the last index worker could
 keep the band finding worker from ever starting

---
 pyebsdindex/_ebsd_index_parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 294ba4f..ae2e915 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -717,7 +717,7 @@ def index_pats_distributed(
                     if len(cpuworkers) == 0:
                         cpuworkers.append(  # make a new Ray Actor that can call the indexer defined in shared memory.
                             # These actors are read/write, thus can initialize the GPU queues
-                            CPUWorker.options(num_cpus=1, num_gpus=0).remote(0))
+                            CPUWorker.options(num_cpus=ncpucpu_per_worker, num_gpus=0).remote(0))
                         cputask.append(cpuworkers[0].indexpoles.remote(None, None, None))
                         ctaskindex.append(None)
     if verbose > 0:
-- 
2.43.0


From c178f73901fe8da29a0937448a616798a340f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 61/90] fix: voting for a phase of a single pole family read
 outside of its arrays

---
 pyebsdindex/tripletvote.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index bf625cb..26d03b0 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -1136,7 +1136,10 @@ class BandIndexer():
           band_cm[p,q] = 0.0
         else:
           srt = np.argsort(accumulatorW[p,:,q])
-          band_cm[p,q] = (accumulatorW[p,srt[-1],q] - accumulatorW[p,srt[-2],q]) / (tvotes[p,q])
+          second = np.float32(0.0)
+          if nfam > 1: # with a single family there is no second best.
+            second = accumulatorW[p,srt[-2],q]
+          band_cm[p,q] = (accumulatorW[p,srt[-1],q] - second) / (tvotes[p,q])
       #for q in range(n_bands):
         bandFam[p,q] = np.argmax(accumulatorW[p,:,q])
       bandRank[p,:] = (n_bands - np.arange(n_bands)) / n_bands * band_cm[p,:] * mxvote[p,:]
-- 
2.43.0


From 5b34657bf1391aaeea4f8746f0178cd39f839015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 62/90] fix: PC optimization changed the starting PC and the PC
 of the indexer (EMSOFT)

---
 pyebsdindex/pcopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 05cb5f0..1cae508 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -127,7 +127,7 @@ def optimize(pats, indexer, PC0=None, batch=False):
         indexer.vendor = "EDAX"
         patDim = np.array(indexer.bandDetectPlan.patDim)
         delta = indexer.PC
-        PCtemp = PC0[0:3]
+        PCtemp = np.array(PC0[0:3], dtype=np.float64) # a copy -- the starting PC is the user's.
         patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
         PCtemp[0] *= -1.0
         PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
@@ -270,7 +270,7 @@ def optimize_pso(
         emsoftflag = True
         indexer.vendor = "EDAX"
         delta = indexer.PC
-        PCtemp = PC0[0:3]
+        PCtemp = np.array(PC0[0:3], dtype=np.float64) # a copy -- the starting PC is the user's.
         PCtemp[0] *= -1.0
         PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
         PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
-- 
2.43.0


From a9fef36db7a0f1dab01cbc5ef1bb69bdbe628cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 63/90] fix: PC optimization of EMSOFT distances used the
 larger detector side, indexing the smaller one

---
 pyebsdindex/pcopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 1cae508..847a92b 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -128,7 +128,7 @@ def optimize(pats, indexer, PC0=None, batch=False):
         patDim = np.array(indexer.bandDetectPlan.patDim)
         delta = indexer.PC
         PCtemp = np.array(PC0[0:3], dtype=np.float64) # a copy -- the starting PC is the user's.
-        patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
+        patdimnorm = (np.array([patDim[1], patDim[0], np.min(patDim[0:2])]))
         PCtemp[0] *= -1.0
         PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
         PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
@@ -161,7 +161,7 @@ def optimize(pats, indexer, PC0=None, batch=False):
         indexer.vendor = "EMSOFT"
         indexer.PC = delta
         patDim = np.array(indexer.bandDetectPlan.patDim)
-        patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
+        patdimnorm = (np.array([patDim[1], patDim[0], np.min(patDim[0:2])]))
         if PCoutRet.ndim == 2:
             newout = np.zeros((npoints, 4))
             PCoutRet[:, 0] -= 0.5
-- 
2.43.0


From be99305be0c954ac7a13e7c27bc4dd0106b20db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 64/90] fix: particle swarm PC optimization took EMSOFT
 distances and heights on a non-square detector wrongly

---
 pyebsdindex/pcopt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 847a92b..3087054 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -274,7 +274,9 @@ def optimize_pso(
         PCtemp[0] *= -1.0
         PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
         PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
-        PCtemp /= indexer.bandDetectPlan.patDim[1]
+        patDim = np.array(indexer.bandDetectPlan.patDim)
+        patdimnorm = (np.array([patDim[1], patDim[0], np.min(patDim[0:2])]))
+        PCtemp /= patdimnorm
         PCtemp[2] /= delta[3]
         PC0 = np.array(PCtemp)
 
@@ -337,7 +339,7 @@ def optimize_pso(
         if PCoutRet.ndim == 2:
             newout = np.zeros((npoints, 4))
             PCoutRet[:, 0] -= 0.5
-            PCoutRet[:, :3] *= indexer.bandDetectPlan.patDim[1]
+            PCoutRet[:, :3] *= np.atleast_2d(patdimnorm)
             PCoutRet[:, 1] -= 0.5 * indexer.bandDetectPlan.patDim[0]
             PCoutRet[:, 0] *= -1.0
             PCoutRet[:, 2] *= delta[3]
@@ -347,7 +349,7 @@ def optimize_pso(
         else:
             newout = np.zeros(4)
             PCoutRet[0] -= 0.5
-            PCoutRet[:3] *= indexer.bandDetectPlan.patDim[1]
+            PCoutRet[:3] *= patdimnorm
             PCoutRet[1] -= 0.5 * indexer.bandDetectPlan.patDim[0]
             PCoutRet[0] *= -1.0
             PCoutRet[2] *= delta[3]
-- 
2.43.0


From 4fbba051041cc5a1b257e31a54185870210ca4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 65/90] fix: particle swarm PC optimization of one iteration
 raised an error

---
 pyebsdindex/pcopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 3087054..5894c50 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -533,7 +533,7 @@ class PSOOpt():
         # Function that selects and implements evolution of hyperparameters.
         if str.lower(self.hyperparammethod) == 'auto':
 
-            N = float(self.niter)-1
+            N = max(float(self.niter)-1, 1.0)
             self.c1i = (self.c1 - self.c1 / 7) * (N-iter)/N + self.c1 / 7.0
             #self.c2i = (self.c1 - self.c1 / 7) * (iter) / N + self.c1 / 7.0
             self.c2i = (self.c2 - self.c2 / 7) * (iter) / N + self.c2 / 7.0
-- 
2.43.0


From bc1d2a12246a002b74b3f2557810ce28a569cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 66/90] fix: GPU band detection did not wrap the Radon
 transform around in theta, and the wrap was off by one column

---
 pyebsdindex/opencl/band_detect_cl.py | 6 +++---
 pyebsdindex/opencl/clkernels.cl      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index 5a3fcd0..483d6cd 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -408,9 +408,9 @@ class BandDetect(band_detect.BandDetect):
     #             np.uint64(shp[1]), np.uint64(nImChunk),
     #             np.uint64(self.padding[1]), np.uint64(self.padding[0]))
 
-    # # pad out the radon buffers
-    # prg.radonPadTheta(queue,(shp[2],shp[0],1),None,rdn_gpu,
-    #                 np.uint64(shp[0]),np.uint64(shp[1]),np.uint64(self.padding[1]))
+    # pad out the radon buffers
+    prg.radonPadTheta(queue,(shp[2],shp[0],1),None,rdn_gpu,
+                     np.uint64(shp[0]),np.uint64(shp[1]),np.uint64(self.padding[1]))
 
     #prg.radonPadRho2(queue,(shp[2],shp[1],1),None,rdn_gpu,
     #                  np.uint64(shp[0]),np.uint64(shp[1]),np.uint64(self.padding[0]+1))
diff --git a/pyebsdindex/opencl/clkernels.cl b/pyebsdindex/opencl/clkernels.cl
index aaa7ffd..bea0dcb 100644
--- a/pyebsdindex/opencl/clkernels.cl
+++ b/pyebsdindex/opencl/clkernels.cl
@@ -228,9 +228,9 @@ __kernel void radonPadTheta(
     gid_rdn1 =   (nTheta * gid_rho);
     gid_rdn2 =   (nTheta * (nRho -1 - gid_rho));
 
-    for (i = 0; i <= thetaPad; ++i){
-        radon[(i + gid_rdn1)*nImChunk + gid_im] = radon[ (gid_rdn2 + (nTheta-1 - (2 * thetaPad)) + i) * nImChunk + gid_im ];
-        radon[ (gid_rdn2 + (nTheta-1 - ( thetaPad)) + i) * nImChunk + gid_im] = radon[ (gid_rdn1 + thetaPad + i)*nImChunk +gid_im];
+    for (i = 0; i < thetaPad; ++i){
+        radon[(i + gid_rdn1)*nImChunk + gid_im] = radon[ (gid_rdn2 + (nTheta - (2 * thetaPad)) + i) * nImChunk + gid_im ];
+        radon[ (gid_rdn2 + (nTheta - ( thetaPad)) + i) * nImChunk + gid_im] = radon[ (gid_rdn1 + thetaPad + i)*nImChunk +gid_im];
     }
 
   }
-- 
2.43.0


From e1dc221fa65f806774a3cdf8e090c654ff72dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 67/90] fix: GPU band detection read buffers that were created
 as write-only for the kernels

---
 pyebsdindex/opencl/band_detect_cl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index 483d6cd..07866fa 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -396,7 +396,7 @@ class BandDetect(band_detect.BandDetect):
     nImChunk = np.uint64(nImCL / clvtypesize)
     resultConv = np.full(shp,0.0,dtype=np.float32)
 
-    rdnConv_gpu = cl.Buffer(ctx,mf.WRITE_ONLY ,size=resultConv.nbytes)
+    rdnConv_gpu = cl.Buffer(ctx,mf.READ_WRITE ,size=resultConv.nbytes)
 
     # maskrnd = np.zeros((self.nRho + 2 * self.padding[0], self.nTheta + 2 * self.padding[1]), dtype=np.ubyte)
     # maskrnd[self.padding[0]:-self.padding[0], self.padding[1]:-self.padding[1]] = self.rhomask1
@@ -596,7 +596,7 @@ class BandDetect(band_detect.BandDetect):
                             np.int64(1), np.int64(self.peakPad[0]))
 
     local_max = np.zeros((shp),dtype=np.ubyte)
-    local_max_gpu = cl.Buffer(ctx,mf.WRITE_ONLY,size=local_max.nbytes)
+    local_max_gpu = cl.Buffer(ctx,mf.READ_WRITE,size=local_max.nbytes)
 
     prg.im1EQim2(queue,(np.uint32(nT),np.uint32(nR),nImCL),None, lmaxXY, rdn_gpu, local_max_gpu,
                  np.uint64(shp[1]),np.uint64(shp[0]),
@@ -707,9 +707,9 @@ class BandDetect(band_detect.BandDetect):
 
 
     maxval = np.zeros((nIm, self.nBands),dtype=np.float32)-2.0e6
-    maxval_gpu = cl.Buffer(ctx,mf.WRITE_ONLY,size=maxval.nbytes)
+    maxval_gpu = cl.Buffer(ctx,mf.READ_WRITE,size=maxval.nbytes)
     maxloc = np.zeros((nIm, self.nBands),dtype=np.int64)
-    maxloc_gpu = cl.Buffer(ctx,mf.WRITE_ONLY,size=maxloc.nbytes)
+    maxloc_gpu = cl.Buffer(ctx,mf.READ_WRITE,size=maxloc.nbytes)
     aveval = np.zeros((nIm,self.nBands),dtype=np.float32) - 2.0e6
     aveval_gpu = cl.Buffer(ctx,mf.WRITE_ONLY,size=aveval.nbytes)
     width = np.zeros((nIm, self.nBands), dtype=np.float32)
-- 
2.43.0


From 60fc39e64d1e119ce882bd4dacc5de005a59d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 68/90] fix: GPU band detection of patterns that are not
 uint8/uint16 depended on the batch, or used unset memory

---
 pyebsdindex/opencl/band_detect_cl.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index 07866fa..4a3083c 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -72,16 +72,9 @@ class BandDetect(band_detect.BandDetect):
       else:
         patterns = (patternsIn).copy()
 
-      pscale = np.array([0.0, 1.0])
-
-      if patterns.dtype.kind =='f':
-        mxp = patterns.max()
-        mnp = patterns.min()
-        patterns -= mnp
-        patterns *= (2**16-2.0)/(mxp - mnp)
-        pscale[:] = np.array([mnp,(mxp - mnp) ])
-        patterns = patterns.astype(np.uint16)
-
+      # there are kernels for loading unsigned 8-bit, unsigned 16-bit, and 32-bit float patterns
+      if patterns.dtype.type not in (np.uint8, np.uint16):
+        patterns = patterns.astype(np.float32)
 
       shape = patterns.shape
       nPats = shape[0]
@@ -160,11 +153,6 @@ class BandDetect(band_detect.BandDetect):
         rdnConv = None
 
         blabeltime += timer() - tic1
-      # correct any scaling that happened due to float-int conversion.
-      bandData['avemax'] *= pscale[1]
-      bandData['avemax'] += pscale[0]
-      bandData['max'] *= pscale[1]
-      bandData['max'] += pscale[0]
       tottime = timer() - tic0
       # going to manually clear the clparams queue -- this should clear the memory of the queue off the GPU
 
-- 
2.43.0


From 36d4034e922ecd624005a32808485988e67c9281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 69/90] fix: GPU band detection took negative intensities
 (background subtracted) for missing values

---
 pyebsdindex/opencl/clkernels.cl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/opencl/clkernels.cl b/pyebsdindex/opencl/clkernels.cl
index bea0dcb..01b5adf 100644
--- a/pyebsdindex/opencl/clkernels.cl
+++ b/pyebsdindex/opencl/clkernels.cl
@@ -264,7 +264,7 @@ __kernel void radonPadTheta(
   }
 
 
-  // Padding of the radon Rho -- copy the previous line to the next row ...
+  // Padding of the radon Rho -- copy the previous line to the next row where the radon is missing (-1) ...
   __kernel void radonPadRho2(
       __global float *radon,
       const unsigned long int nRho, const unsigned long int nTheta,
@@ -293,11 +293,11 @@ __kernel void radonPadTheta(
         gid_rdn1 = ( (nTheta* (rhoPad - i)) + gid_theta)*nImChunk + z;
         gid_rdn2 = ((nTheta* (nRho-1-rhoPad+i)) + gid_theta)*nImChunk + z;
         
-        if (radon[gid_rdn1] < 0){
+        if (radon[gid_rdn1] == -1.0f){
           radon[gid_rdn1] = rd1p;
         }
 
-        if (radon[gid_rdn2] < 0){
+        if (radon[gid_rdn2] == -1.0f){
           radon[gid_rdn2] = rd2p;
         }
         rd1p =  radon[gid_rdn1] ;
-- 
2.43.0


From 9f0f86804f346fe8956520c53de6d35874b41edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 70/90] fix: GPU band detection used unset memory next to the
 edges of the convolved Radon transform

---
 pyebsdindex/opencl/band_detect_cl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index 4a3083c..929700c 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -425,7 +425,8 @@ class BandDetect(band_detect.BandDetect):
       tempConvbuff = cl.Buffer(ctx,mf.HOST_NO_ACCESS,size=(shp[0]*shp[1]*shp[2]*4))
 
       kshp = np.asarray(self.kernel[0,:,:].shape,dtype=np.int32)
-      pad = kshp
+      # the whole of the padded radon is convolved, as the rest of the processing uses it up to its edges.
+      pad = np.zeros(2, dtype=np.int32)
       k0x = np.require(self.kernel[0, np.int64(kshp[0] / 2), :], requirements=['C', 'A', 'W', 'O'], dtype=np.float32)
       k0x *= 1.0 / k0x.sum()
       k0x = (k0x[...,:]).reshape(1,kshp[1])
-- 
2.43.0


From 4bcefd978087b85dccf02fb2f04cf756ae6aed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 71/90] fix: GPU band detection returned unset memory for the
 bands that were not found

---
 pyebsdindex/opencl/clkernels.cl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/opencl/clkernels.cl b/pyebsdindex/opencl/clkernels.cl
index 01b5adf..0e130dd 100644
--- a/pyebsdindex/opencl/clkernels.cl
+++ b/pyebsdindex/opencl/clkernels.cl
@@ -772,8 +772,10 @@ __kernel void maxlabel( __global const uchar *maxlocin,__global const float *max
       width[z*lnmax + i] = 1.0 / (w - 0.5 * (imValyp1 + imValym1) + 1e-12) ;
 
     }
-    else{
-      break; // no more detected peaks
+    else{ // no more detected peaks
+      aveloc[z*lnmax + i] = (float2) (0.0f);
+      aveval[z*lnmax + i] = 0.0f;
+      width[z*lnmax + i] = 0.0f;
     }
 
   }
-- 
2.43.0


From 4aeaecfdb0ee64a469af0e3dfda197a926bdc4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 72/90] fix: GPU peak detection compared with unset memory next
 to the rho edges of the Radon transform

---
 pyebsdindex/opencl/band_detect_cl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index 929700c..00e935b 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -574,9 +574,9 @@ class BandDetect(band_detect.BandDetect):
     #                         np.int64(self.padding[1]),np.int64(self.padding[0]),
     #                         np.int64(self.peakPad[1]),np.int64(1))
     # calculate the max in the x direction
-    prg.morphDilateKernelBF(queue, (np.uint32(shp[1]), np.uint32(nR), nImChunk), None, rdn_gpu, lmaxX,
+    prg.morphDilateKernelBF(queue, (np.uint32(shp[1]), np.uint32(shp[0]), nImChunk), None, rdn_gpu, lmaxX,
                             np.int64(shp[1]), np.int64(shp[0]),
-                            np.int64(0), np.int64(self.padding[0]),
+                            np.int64(0), np.int64(0),
                             np.int64(self.peakPad[1]), np.int64(1))
     # take the max in the x output, use as input, and calculate in the y direction
     prg.morphDilateKernelBF(queue, (np.uint32(nT), np.uint32(nR), nImChunk), None, lmaxX, lmaxXY,
-- 
2.43.0


From 3f80615f80c50060f81cfa72d2961a38efc9bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 73/90] fix: GPU NLPAR of patterns whose size is not a multiple
 of 16 pixels raced on the next pattern and left its buffers

---
 pyebsdindex/opencl/clnlpar.cl     | 33 +++++++++++++++++--------------
 pyebsdindex/opencl/nlpar_cl.py    |  6 ++++--
 pyebsdindex/opencl/nlpar_clray.py |  6 ++++--
 3 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/pyebsdindex/opencl/clnlpar.cl b/pyebsdindex/opencl/clnlpar.cl
index 4dcd022..93dafcb 100644
--- a/pyebsdindex/opencl/clnlpar.cl
+++ b/pyebsdindex/opencl/clnlpar.cl
@@ -132,7 +132,7 @@ __kernel void calcsigma( __global float *data, __global float16 *mask,
       count = 0; 
       
       
-      d0 =  *(__global float16*) (data + indx0+16*z); 
+      d0 =  vload16(0, data + indx0+16*z); 
       //if (z == 0){print16(d0);}
       //
       maskchunk = mask[z];
@@ -154,7 +154,7 @@ __kernel void calcsigma( __global float *data, __global float16 *mask,
               indx_ij = npatpoint*(indx_ij + indx_j);
               
               mask1 = mask0;
-              d1 =  *(__global float16*) (data + indx_ij+16*z); 
+              d1 =  vload16(0, data + indx_ij+16*z); 
               
 
               mask1 =  d1 < (float16) (maxlim) ? mask1 : (float16) (0.0);
@@ -308,7 +308,7 @@ __kernel void calcnlpar(
       count = 0; 
       
       
-      d0 =  *(__global float16*) (data + indx0+16*z); 
+      d0 =  vload16(0, data + indx0+16*z); 
       
       mask0 = mask[z];
       mask0 =  (mask0 > (float16) 1.e-3) ? (float16) 1.0 : (float16) 0.0; 
@@ -331,7 +331,7 @@ __kernel void calcnlpar(
               indx_ij *= npatpoint;
               
               mask1 = mask0;
-              d1 =  *(__global float16*) (data + indx_ij+16*z); 
+              d1 =  vload16(0, data + indx_ij+16*z); 
               
 
               mask1 =  d1 < (float16) (maxlim) ? mask1 : (float16) (0.0);
@@ -418,11 +418,8 @@ __kernel void calcnlpar(
 // and place in the output array
   for(z = 0; z<ndatchunk; ++z){
       count = 0; 
-      d0 =  *(__global float16*) (data + indx0+16*z); 
-      
-      mask0 = mask[z];
-      mask0 =  (mask0 > (float16) -1.e-3) ? (float16) 1.0 : (float16) 0.0; 
-      
+      float16 ave = (float16) (0.0f);
+
       for(j=y-sr; j<=y+sr; ++j){
           
           indx_j =  (j >= 0) ? (j): abs(j);
@@ -439,15 +436,11 @@ __kernel void calcnlpar(
               indx_ij *= npatpoint;
               
               
-              d1 =  *(__global float16*) (data + indx_ij+16*z); 
+              d1 =  vload16(0, data + indx_ij+16*z); 
               
               
               d1 *= (float16) d[count]; 
-              d1 *= mask0; 
-              
-              *(__global float16*) (dataout + indx0+16*z) += d1; 
-              
-              //writeadd16(&(dataout[indx0+16*z]), &d1 );
+              ave += d1;
 
               //d[count+nnn*indx_xy] += dd;
               //n[count+nnn*indx_xy] += sum16(&mask1);
@@ -455,6 +448,16 @@ __kernel void calcnlpar(
               count += 1; 
           }
       }
+      // the last vector of a pattern can reach into the next pattern, only write what is part of this one.
+      if (16*z+16 <= npatpoint){
+        vstore16(ave, 0, dataout + indx0+16*z);
+      } else {
+        float tail[16];
+        vstore16(ave, 0, tail);
+        for (i = 16*z; i < npatpoint; ++i){
+          dataout[indx0 + i] = tail[i - 16*z];
+        }
+      }
   }
 
 
diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index ee41346..7b483f9 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -206,7 +206,8 @@ class NLPAR(nlpar_cpu.NLPAR):
     #return chunks, chunksize
     mxchunk = chunksize.max()
 
-    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen))
+    # the vectors that start in the last pattern can reach past its end.
+    npadmx = clvectlen * (int(np.ceil(mxchunk*npat_point/ clvectlen)) + 1)
 
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
 
@@ -443,7 +444,8 @@ class NLPAR(nlpar_cpu.NLPAR):
     mxchunk = np.int64(chunksize.max())
     # print("max chunk:" , mxchunk)
 
-    npadmx = clvectlen * np.int64(np.ceil(float(mxchunk)*npat_point/ clvectlen))
+    # the vectors that start in the last pattern can reach past its end.
+    npadmx = clvectlen * (np.int64(np.ceil(float(mxchunk)*npat_point/ clvectlen)) + 1)
 
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=np.int64(npadmx) * np.int64(4))
     datapadout_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=np.int64(npadmx) * np.int64(4))
diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index dfd0382..8b856f3 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -299,7 +299,8 @@ class NLPAR(nlpar_cl.NLPAR):
     #return chunks, chunksize
     mxchunk = data.shape[0]
 
-    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen))
+    # the vectors that start in the last pattern can reach past its end.
+    npadmx = clvectlen * (int(np.ceil(mxchunk*npat_point/ clvectlen)) + 1)
 
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
 
@@ -624,7 +625,8 @@ class NLPAR(nlpar_cl.NLPAR):
     npat_point = int(shpdata[-1]*shpdata[-2])
     npat = shpdata[0]
 
-    npadmx = clvectlen * int(np.ceil(float(npat)*npat_point/ clvectlen))
+    # the vectors that start in the last pattern can reach past its end.
+    npadmx = clvectlen * (int(np.ceil(float(npat)*npat_point/ clvectlen)) + 1)
     data_gpu = cl.Buffer(ctx, mf.READ_ONLY| mf.COPY_HOST_PTR, hostbuf=data)
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
     datapadout_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
-- 
2.43.0


From 1d1ebd3283c9def306db87ff074c72d1b677cd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 74/90] fix: GPU NLPAR read sigma from a buffer that was
 created as write-only for the kernels

---
 pyebsdindex/opencl/nlpar_cl.py    | 2 +-
 pyebsdindex/opencl/nlpar_clray.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 7b483f9..3098772 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -265,7 +265,7 @@ class NLPAR(nlpar_cpu.NLPAR):
         sigmachunk = np.zeros((nrowchunk, ncolchunk ), dtype=np.float32)
 
 
-        sigmachunk_gpu =  cl.Buffer(ctx, mf.WRITE_ONLY, size=sigmachunk.nbytes)
+        sigmachunk_gpu =  cl.Buffer(ctx, mf.READ_WRITE, size=sigmachunk.nbytes)
 
         cl.enqueue_barrier(queue)
         prg.calcsigma(queue, (np.uint32(ncolchunk), np.uint32(nrowchunk)), None,
diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index 8b856f3..e7e2486 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -340,7 +340,7 @@ class NLPAR(nlpar_cl.NLPAR):
     sigmachunk = np.zeros((nrowchunk, ncolchunk ), dtype=np.float32)
 
 
-    sigmachunk_gpu =  cl.Buffer(ctx, mf.WRITE_ONLY, size=sigmachunk.nbytes)
+    sigmachunk_gpu =  cl.Buffer(ctx, mf.READ_WRITE, size=sigmachunk.nbytes)
     cl.enqueue_barrier(clparams.queue)
     prg.calcsigma(clparams.queue, (np.uint32(ncolchunk), np.uint32(nrowchunk)), None,
                            datapad_gpu, mask_gpu,sigmachunk_gpu,
-- 
2.43.0


From 94d94833a69a47b38ffd419a0e15302e854c27ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 75/90] fix: GPU NLPAR compared points at the last row/column
 with themselves, and read outside of scans smaller than the window

---
 pyebsdindex/opencl/clnlpar.cl | 40 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/pyebsdindex/opencl/clnlpar.cl b/pyebsdindex/opencl/clnlpar.cl
index 93dafcb..63b60c6 100644
--- a/pyebsdindex/opencl/clnlpar.cl
+++ b/pyebsdindex/opencl/clnlpar.cl
@@ -51,6 +51,16 @@ float sum16(const float16 *v1){
 }
 
 
+// A point past the edge of the scan is replaced by its mirror image (the edge itself is not repeated).
+long mirror(const long i, const long n);
+long mirror(const long i, const long n){
+     long m = (i >= 0) ? i : -i;
+     m = (m < n) ? m : 2*n - 2 - m;
+     m = (m >= 0) ? m : 0; // the scan is smaller than the search window.
+     return (m < n) ? m : n-1;
+}
+
+
 void print16(const float16 v1);
 void print16(const float16 v1){
      
@@ -143,14 +153,12 @@ __kernel void calcsigma( __global float *data, __global float16 *mask,
       
       for(j=y-nn; j<=y+nn; ++j){
           
-          indx_j =  (j >= 0) ? (j): abs(j);
-          indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  mirror(j, nrow);
           indx_j = ncol * indx_j;
           
           for(i=x-nn; i<=x+nn; ++i){      
             
-              indx_ij =  (i >= 0) ? (i): abs(i);
-              indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+              indx_ij =  mirror(i, ncol);
               indx_ij = npatpoint*(indx_ij + indx_j);
               
               mask1 = mask0;
@@ -226,14 +234,12 @@ __kernel void normd(
     q = 0; 
     for(j=y-nn; j<=y+nn; ++j){
           
-          indx_j =  (j >= 0) ? (j): abs(j);
-          indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  mirror(j, nrow);
           indx_j = ncol * indx_j;
           
           for(i=x-nn; i<=x+nn; ++i){  
               
-               indx_ij =  (i >= 0) ? (i): abs(i);
-               indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+               indx_ij =  mirror(i, ncol);
                indx_ij =  (indx_ij + indx_j);
                sigma_ij = sigma[indx_ij];
                sigma_ij *= sigma_ij;
@@ -317,14 +323,12 @@ __kernel void calcnlpar(
       
       for(j=y-sr; j<=y+sr; ++j){
           
-          indx_j =  (j >= 0) ? (j): abs(j);
-          indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  mirror(j, nrow);
           indx_j = ncol * indx_j;
           
           for(i=x-sr; i<=x+sr; ++i){
             
-              indx_ij =  (i >= 0) ? (i): abs(i);
-              indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+              indx_ij =  mirror(i, ncol);
               
               indx_ij = (indx_ij + indx_j);
               
@@ -368,16 +372,14 @@ __kernel void calcnlpar(
   nn = 1.0;
   for(j=y-sr; j<=y+sr; ++j){
           
-          indx_j =  (j >= 0) ? (j): abs(j);
-          indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  mirror(j, nrow);
           indx_j = ncol * indx_j;
           
           for(i=x-sr; i<=x+sr; ++i){
               
               dd = d[count]; 
               if (dd > 1.e-3){
-                indx_ij =  (i >= 0) ? (i): abs(i);
-                indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+                indx_ij =  mirror(i, ncol);
                 
                 indx_ij = (indx_ij + indx_j);
                 
@@ -422,14 +424,12 @@ __kernel void calcnlpar(
 
       for(j=y-sr; j<=y+sr; ++j){
           
-          indx_j =  (j >= 0) ? (j): abs(j);
-          indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  mirror(j, nrow);
           indx_j = ncol * indx_j;
           
           for(i=x-sr; i<=x+sr; ++i){
             
-              indx_ij =  (i >= 0) ? (i): abs(i);
-              indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+              indx_ij =  mirror(i, ncol);
               
               indx_ij = (indx_ij + indx_j);
               
-- 
2.43.0


From c70ce8545f7363eb4b95d9e1dd327573678820d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 76/90] fix: GPU NLPAR weighted neighbors with the sigma of the
 center point

---
 pyebsdindex/opencl/clnlpar.cl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/opencl/clnlpar.cl b/pyebsdindex/opencl/clnlpar.cl
index 63b60c6..9f27341 100644
--- a/pyebsdindex/opencl/clnlpar.cl
+++ b/pyebsdindex/opencl/clnlpar.cl
@@ -383,7 +383,7 @@ __kernel void calcnlpar(
                 
                 indx_ij = (indx_ij + indx_j);
                 
-                sigma_ij = sigma[indx_xy];
+                sigma_ij = sigma[indx_ij];
                 sigma_ij *= sigma_ij; 
                 nn = n[count]; 
                 dd -= nn*(sigma_ij+sigma0);
-- 
2.43.0


From fa39ed3f0976c0c6790079af9d1d957d901f3dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 77/90] fix: GPU NLPAR multiplied diff_offset by the number of
 vectors in a pattern

---
 pyebsdindex/opencl/clnlpar.cl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/opencl/clnlpar.cl b/pyebsdindex/opencl/clnlpar.cl
index 9f27341..9a698bc 100644
--- a/pyebsdindex/opencl/clnlpar.cl
+++ b/pyebsdindex/opencl/clnlpar.cl
@@ -349,7 +349,7 @@ __kernel void calcnlpar(
               dd = sum16(&d1);
               if (indx_ij == indx0) {
                 dd = -1.0;
-                diff_step[count] +=  diff_offset;
+                diff_step[count] =  diff_offset;
               } else{
                 dd = dd;
                 diff_step[count] = 0.0; //diff_offset;
-- 
2.43.0


From 59bbe494b9730784750e36576863b869506af9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 78/90] fix: GPU NLPAR split narrow scans into tiles that left
 points out or started before the scan

---
 pyebsdindex/nlpar_cpu.py | 85 ++++++----------------------------------
 1 file changed, 11 insertions(+), 74 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 272816b..4260400 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -747,89 +747,26 @@ class NLPAR:
 
   def _calcchunks(self, patdim, ncol, nrow, target_bytes=2e9, col_overlap=0, row_overlap=0, col_offset=0, row_offset=0):
 
-    col_overlap = min(col_overlap, ncol - 1)
-    row_overlap = min(row_overlap, nrow - 1)
-
     byteperpat = patdim[-1] * patdim[-2] * 4 * 2  # assume a 4 byte float input and output array
     byteperdataset = byteperpat * ncol * nrow
     nchunks = int(np.ceil(byteperdataset / target_bytes))
 
     ncolchunks = (max(np.round(np.sqrt(nchunks * float(ncol) / nrow)), 1))
-    colstep = max((ncol / ncolchunks), 1)
-    ncolchunks = max(ncol / colstep, 1)
-    colstepov = min(colstep + 2 * col_overlap, ncol)
-    ncolchunks = max(int(np.ceil(ncolchunks)), 1)
-    colstep = max(int(np.round(colstep)), 1)
-    colstepov = min(colstep + 2 * col_overlap, ncol)
-
     nrowchunks = max(np.ceil(nchunks / ncolchunks), 1)
-    rowstep = max((nrow / nrowchunks), 1)
-    nrowchunks = max(nrow / rowstep, 1)
-    rowstepov = min(rowstep + 2 * row_overlap, nrow)
-    nrowchunks = max(int(np.ceil(nrowchunks)), 1)
-    rowstep = max(int(np.round(rowstep)), 1)
-    rowstepov = min(rowstep + 2 * row_overlap, nrow)
-
-    # colchunks = np.round(np.arange(ncolchunks+1)*ncol/ncolchunks).astype(int)
-    # colchunks = np.zeros((ncolchunks, 2), dtype=int)
-    # colchunks[:, 0] = (np.arange(ncolchunks) * colstep).astype(int)
-    # colchunks[:, 1] = colchunks[:, 0] + colstepov - int(col_overlap)
-    # colchunks[:, 0] -= col_overlap
-    # colchunks[0, 0] = 0;
-
-    colchunks = []
-    col_overlap = int(col_overlap)
-    for c in range(ncolchunks):
-      cchunk = [int(c * colstep) - col_overlap, int(c * colstep + colstepov) - col_overlap]
-      colchunks.append(cchunk)
-      if cchunk[1] > ncol:
-        break
-
-    ncolchunks = len(colchunks)
-    colchunks = np.array(colchunks, dtype=int)
-    colchunks[0, 0] = 0
-    colchunks[-1, 1] = ncol
-
-    if ncolchunks > 1:
-      colchunks[-1, 0] = max(0, colchunks[-2, 1] -  2*col_overlap-1)
 
-    colchunks += col_offset
+    def splitdim(n, nchunk, overlap):
+      # Split into at most nchunk parts that are as wide as the overlap, or wider, and extend
+      # them with the overlap where there is another part.
+      n = int(n)
+      overlap = int(overlap)
+      nchunk = int(max(min(nchunk, n // max(overlap, 1)), 1))
+      edge = (np.arange(nchunk + 1, dtype=int) * n) // nchunk
+      return nchunk, np.stack((np.maximum(edge[0:-1] - overlap, 0), np.minimum(edge[1:] + overlap, n)), axis=1)
 
-    # for i in range(ncolchunks - 1):
-    #   if colchunks[i + 1, 0] >= ncol:
-    #     colchunks = colchunks[0:i + 1, :]
-
-    rowchunks = []
-    row_overlap = int(row_overlap)
-    for r in range(nrowchunks):
-      rchunk = [int(r * rowstep) - row_overlap, int(r * rowstep + rowstepov) - row_overlap]
-      rowchunks.append(rchunk)
-      if rchunk[1] > nrow:
-        break
-
-    nrowchunks = len(rowchunks)
-    rowchunks = np.array(rowchunks, dtype=int)
-    rowchunks[0, 0] = 0
-    # for i in range(ncolchunks - 1):
-    #   if colchunks[i + 1, 0] >= ncol:
-    #     colchunks = colchunks[0:i + 1, :]
-
-    rowchunks = []
-    row_overlap = int(row_overlap)
-    for r in range(nrowchunks):
-      rchunk = [int(r * rowstep) - row_overlap, int(r * rowstep + rowstepov) - row_overlap]
-      rowchunks.append(rchunk)
-      if rchunk[1] > nrow:
-        break
-
-    nrowchunks = len(rowchunks)
-    rowchunks = np.array(rowchunks, dtype=int)
-    rowchunks[0, 0] = 0
-    rowchunks[-1, 1] = nrow
-
-    if nrowchunks > 1:
-      rowchunks[-1, 0] = max(0, rowchunks[-2, 1] -  2*row_overlap-1)
+    ncolchunks, colchunks = splitdim(ncol, ncolchunks, col_overlap)
+    nrowchunks, rowchunks = splitdim(nrow, nrowchunks, row_overlap)
 
+    colchunks += col_offset
     rowchunks += row_offset
 
     return ncolchunks, nrowchunks, colchunks, rowchunks
-- 
2.43.0


From d5525e8f15ad4e82cc24da9b682ee3c0841384a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 79/90] fix: GPU NLPAR sigma and neighbor distances were
 incomplete where two tiles meet

---
 pyebsdindex/opencl/nlpar_cl.py    | 17 ++++++++++---
 pyebsdindex/opencl/nlpar_clray.py | 41 ++++++++++++++++++-------------
 2 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 3098772..3988f07 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -178,9 +178,11 @@ class NLPAR(nlpar_cpu.NLPAR):
     pwidth = np.uint64(patternfile.patternW)
     pheight = np.uint64(patternfile.patternH)
     npat_point = int(pwidth * pheight)
+    # the normalized distances also need the full sigma of the neighbors.
+    overlap = 2*nn if normalize_d is True else nn
     #print(target_mem)
     chunks = self._calcchunks( [pwidth, pheight], ncols, nrows, target_bytes=target_mem,
-                              col_overlap=1, row_overlap=1)
+                              col_overlap=overlap, row_overlap=overlap)
 
     if (automask is True) and (self.mask is None):
       self.mask = (self.automask(pheight, pwidth))
@@ -288,9 +290,16 @@ class NLPAR(nlpar_cpu.NLPAR):
         #sigmachunk_gpu.release()
 
         queue.finish()
-        countnn[rstart:rend, cstart:cend] = countchunk[0:int(ncolchunk*nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
-        dist[rstart:rend, cstart:cend] = distchunk[0:int(ncolchunk*nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
-        sigma[rstart:rend, cstart:cend] = np.minimum(sigma[rstart:rend, cstart:cend], sigmachunk)
+        countchunkrc = countchunk[0:int(ncolchunk*nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
+        distchunkrc = distchunk[0:int(ncolchunk*nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
+        # the overlap does not have all of its neighbors in this chunk
+        r0 = overlap if (rowchunk > 0) else 0
+        r1 = nrowchunk - overlap if (rowchunk < (chunks[1] - 1)) else nrowchunk
+        c0 = overlap if (colchunk > 0) else 0
+        c1 = ncolchunk - overlap if (colchunk < (chunks[0] - 1)) else ncolchunk
+        countnn[rstart+r0:rstart+r1, cstart+c0:cstart+c1] = countchunkrc[r0:r1, c0:c1]
+        dist[rstart+r0:rstart+r1, cstart+c0:cstart+c1] = distchunkrc[r0:r1, c0:c1]
+        sigma[rstart+r0:rstart+r1, cstart+c0:cstart+c1] = sigmachunk[r0:r1, c0:c1]
         if verbose >= 2:
           print("tiles complete: ", ndone, "/", nchunks, sep='', end='\r')
         ndone +=1
diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index e7e2486..cad6056 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -143,8 +143,10 @@ class NLPAR(nlpar_cl.NLPAR):
 
     mask = self.mask.astype(np.float32)
 
+    # the normalized distances also need the full sigma of the neighbors.
+    overlap = 2*nn if normalize_d is True else nn
     chunks = self._calcchunks([pwidth, pheight], ncols, nrows, target_bytes=target_mem,
-                              col_overlap=nn, row_overlap=nn)
+                              col_overlap=overlap, row_overlap=overlap)
 
 
     jobqueue = []
@@ -154,8 +156,8 @@ class NLPAR(nlpar_cl.NLPAR):
       rend = chunks[3][rowchunk, 1]
       nrowchunk = rend - rstart
 
-      rstartcalc = nn if (rowchunk > 0) else 0
-      rendcalc = nrowchunk - nn if (rowchunk < (chunks[1] - 1)) else nrowchunk
+      rstartcalc = overlap if (rowchunk > 0) else 0
+      rendcalc = nrowchunk - overlap if (rowchunk < (chunks[1] - 1)) else nrowchunk
       nrowcalc = np.int64(rendcalc - rstartcalc)
 
       for colchunk in range(chunks[0]):
@@ -163,8 +165,8 @@ class NLPAR(nlpar_cl.NLPAR):
         cend = chunks[2][colchunk, 1]
         ncolchunk = cend - cstart
 
-        cstartcalc = nn if (colchunk > 0) else 0
-        cendcalc = ncolchunk - nn if (colchunk < (chunks[0] - 1)) else ncolchunk
+        cstartcalc = overlap if (colchunk > 0) else 0
+        cendcalc = ncolchunk - overlap if (colchunk < (chunks[0] - 1)) else ncolchunk
         ncolcalc = np.int64(cendcalc - cstartcalc)
 
         jobqueue.append(NLPARGPUJob([colchunk, rowchunk], \
@@ -219,7 +221,8 @@ class NLPAR(nlpar_cl.NLPAR):
           wrker = idlewrker.pop()
           job = jobqueue.pop()
 
-          tasks.append(wrker.runsigma_chunk.remote(job, nlparobj=nlpar_remote, saturation_protect=saturation_protect))
+          tasks.append(wrker.runsigma_chunk.remote(job, nlparobj=nlpar_remote, saturation_protect=saturation_protect,
+                                                   normalize_d=normalize_d))
           busywrker.append(wrker)
       if len(tasks) > 0:
         donetasks, stillbusy = ray.wait(tasks, num_returns=len(busywrker), timeout=0.1)
@@ -244,11 +247,14 @@ class NLPAR(nlpar_cl.NLPAR):
             nrowcalc = job.nrowcalc
             ncolcalc = job.ncolcalc
 
-            countnn[rstart:rend, cstart:cend] = countchunk[0:int(ncolchunk * nrowchunk), :].reshape(nrowchunk,
-                                                                                        ncolchunk, nnn)
-            dist[rstart:rend, cstart:cend] = distchunk[0:int(ncolchunk * nrowchunk), :].reshape(nrowchunk, ncolchunk,
-                                                                                                nnn)
-            sigma[rstart:rend, cstart:cend] = np.minimum(sigma[rstart:rend, cstart:cend], sigmachunk)
+            # the overlap does not have all of its neighbors in this chunk
+            r0, r1 = rstartcalc, rstartcalc + nrowcalc
+            c0, c1 = cstartcalc, cstartcalc + ncolcalc
+            countchunk = countchunk[0:int(ncolchunk * nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
+            distchunk = distchunk[0:int(ncolchunk * nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
+            countnn[rstart+r0:rstart+r1, cstart+c0:cstart+c1] = countchunk[r0:r1, c0:c1]
+            dist[rstart+r0:rstart+r1, cstart+c0:cstart+c1] = distchunk[r0:r1, c0:c1]
+            sigma[rstart+r0:rstart+r1, cstart+c0:cstart+c1] = sigmachunk[r0:r1, c0:c1]
 
             idlewrker.append(busywrker.pop(indx))
             tasks.remove(tsk)
@@ -259,7 +265,7 @@ class NLPAR(nlpar_cl.NLPAR):
       print('\n', end='')
     return sigma, dist, countnn
 
-  def _sigmachunkcalc_cl(self, data, calclim, clparams=None, saturation_protect=True):
+  def _sigmachunkcalc_cl(self, data, calclim, clparams=None, saturation_protect=True, normalize_d=False):
     nn = self.sigmann
 
     data = np.ascontiguousarray(data)
@@ -348,11 +354,12 @@ class NLPAR(nlpar_cl.NLPAR):
                            np.int64(nn), np.int64(npatsteps), np.int64(npat_point),
                            np.float32(mxval) )
 
-    cl.enqueue_barrier(clparams.queue)
-    prg.normd(clparams.queue, (np.uint32(ncolchunk), np.uint32(nrowchunk)), None,
-                    sigmachunk_gpu,
-                    count_local, dist_local,
-                    np.int64(nn))
+    if normalize_d is True:
+      cl.enqueue_barrier(clparams.queue)
+      prg.normd(clparams.queue, (np.uint32(ncolchunk), np.uint32(nrowchunk)), None,
+                      sigmachunk_gpu,
+                      count_local, dist_local,
+                      np.int64(nn))
     clparams.queue.finish()
 
     cl.enqueue_copy(clparams.queue, distchunk, dist_local, is_blocking=False)
-- 
2.43.0


From a1298aadb375e4a3899f43da39cfd969586f708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 80/90] fix: GPU NLPAR failed for a single sigma, or kept the
 sigma of a scan of another shape

---
 pyebsdindex/opencl/nlpar_cl.py    | 4 ++--
 pyebsdindex/opencl/nlpar_clray.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 3988f07..c30ce97 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -364,13 +364,13 @@ class NLPAR(nlpar_cpu.NLPAR):
       self.sigma = None
 
     if np.asarray(self.sigma).size == 1 and (self.sigma is not None):
-      tmp = np.asarray(self.sigma)[0]
+      tmp = np.asarray(self.sigma).ravel()[0]
       self.sigma = np.zeros((nrows, ncols), dtype=np.float32) + tmp
       calcsigma = False
 
     if self.sigma is not None:
       shpsigma = np.asarray(self.sigma).shape
-      if (shpsigma[0] != nrows) and (shpsigma[1] != ncols):
+      if shpsigma != (nrows, ncols):
         self.sigma = None
 
     if self.sigma is None:
diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index cad6056..565da88 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -429,13 +429,13 @@ class NLPAR(nlpar_cl.NLPAR):
       self.sigma = None
 
     if np.asarray(self.sigma).size == 1 and (self.sigma is not None):
-      tmp = np.asarray(self.sigma)[0]
+      tmp = np.asarray(self.sigma).ravel()[0]
       self.sigma = np.zeros((nrows, ncols), dtype=np.float32) + tmp
       calcsigma = False
 
     if self.sigma is not None:
       shpsigma = np.asarray(self.sigma).shape
-      if (shpsigma[0] != nrows) and (shpsigma[1] != ncols):
+      if shpsigma != (nrows, ncols):
         self.sigma = None
 
     if self.sigma is None:
-- 
2.43.0


From f6f2c711c1e95138941b1f4698ccf8a53929ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 81/90] fix: GPU NLPAR kept the mask of patterns of another
 size

---
 pyebsdindex/opencl/nlpar_cl.py    | 4 ++--
 pyebsdindex/opencl/nlpar_clray.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index c30ce97..d4b9804 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -184,7 +184,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     chunks = self._calcchunks( [pwidth, pheight], ncols, nrows, target_bytes=target_mem,
                               col_overlap=overlap, row_overlap=overlap)
 
-    if (automask is True) and (self.mask is None):
+    if (automask is True) and ((self.mask is None) or (self.mask.shape != (pheight, pwidth))):
       self.mask = (self.automask(pheight, pwidth))
     if self.mask is None:
       self.mask = np.ones((pheight, pwidth), dtype=np.uint8)
@@ -380,7 +380,7 @@ class NLPAR(nlpar_cpu.NLPAR):
 
 
 
-    if (automask is True) and (self.mask is None):
+    if (automask is True) and ((self.mask is None) or (self.mask.shape != (pheight, pwidth))):
       self.mask = (self.automask(pheight, pwidth))
     if self.mask is None:
       self.mask = np.ones((pheight, pwidth), dtype=np.uint8)
diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index 565da88..1fd4bd1 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -136,7 +136,7 @@ class NLPAR(nlpar_cl.NLPAR):
     pheight = np.uint64(patternfile.patternH)
     npat_point = int(pwidth * pheight)
 
-    if (automask is True) and (self.mask is None):
+    if (automask is True) and ((self.mask is None) or (self.mask.shape != (pheight, pwidth))):
       self.mask = (self.automask(pheight, pwidth))
     if self.mask is None:
       self.mask = np.ones((pheight, pwidth), dtype=np.uint8)
@@ -445,7 +445,7 @@ class NLPAR(nlpar_cl.NLPAR):
 
 
 
-    if (automask is True) and (self.mask is None):
+    if (automask is True) and ((self.mask is None) or (self.mask.shape != (pheight, pwidth))):
       self.mask = (self.automask(pheight, pwidth))
     if self.mask is None:
       self.mask = np.ones((pheight, pwidth), dtype=np.uint8)
-- 
2.43.0


From 4311f7ebaa5f64eb369c360f2cc05d56447bb08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 82/90] fix: GPU NLPAR rescaled to the saturation level instead
 of the full range, and a row of patterns at a time

---
 pyebsdindex/opencl/nlpar_cl.py    | 4 ++--
 pyebsdindex/opencl/nlpar_clray.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index d4b9804..9528e39 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -390,7 +390,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     if rescale == True:
       self.rescale = True
       if np.issubdtype(patternfileout.filedatatype, np.integer):
-        mxval = np.iinfo(patternfileout.filedatatype).max
+        mxscale = np.iinfo(patternfileout.filedatatype).max
         scalemethod = 'fullscale'
       else:  # not int, so no rescale.
         self.rescale = False
@@ -604,7 +604,7 @@ class NLPAR(nlpar_cpu.NLPAR):
               for i in range(data.shape[0]):
                 temp = data[i, :, :]
                 temp -= temp.min()
-                temp *= np.float32(mxval) / temp.max()
+                temp *= np.float32(mxscale) / temp.max()
                 data[i, :, :] = temp
 
 
diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index 1fd4bd1..8d8821b 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -455,7 +455,6 @@ class NLPAR(nlpar_cl.NLPAR):
     if rescale == True:
       self.rescale = True
       if np.issubdtype(self.patternfileout.filedatatype, np.integer):
-        mxval = np.iinfo(self.patternfileout.filedatatype).max
         scalemethod = 'fullscale'
       else:  # not int, so no rescale.
         self.rescale = False
@@ -688,14 +687,15 @@ class NLPAR(nlpar_cl.NLPAR):
     cl.enqueue_copy(clparams.queue, data, datapadout_gpu,  is_blocking=True)
     sigmachunk_gpu.release()
     clparams.queue.finish()
+    data = data[rstartcalc: rstartcalc + nrowcalc, cstartcalc: cstartcalc + ncolcalc, :, :]
+    data = data.reshape(nrowcalc * ncolcalc, pheight, pwidth)
     if self.rescale == True:
+      mxscale = np.iinfo(self.patternfileout.filedatatype).max
       for i in range(data.shape[0]):
         temp = data[i, :, :]
         temp -= temp.min()
-        temp *= np.float32(mxval) / temp.max()
+        temp *= np.float32(mxscale) / temp.max()
         data[i, :, :] = temp
-    data = data[rstartcalc: rstartcalc + nrowcalc, cstartcalc: cstartcalc + ncolcalc, :, :]
-    data = data.reshape(nrowcalc * ncolcalc, pheight, pwidth)
 
     clparams.queue = None
 
-- 
2.43.0


From ab13251feecbdd1d031a4af5f3f5193da83aae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 83/90] fix: GPU NLPAR used unset memory for patterns that are
 not uint8, uint16 or float32

---
 pyebsdindex/opencl/nlpar_cl.py    | 4 ++++
 pyebsdindex/opencl/nlpar_clray.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 9528e39..80efb81 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -239,6 +239,8 @@ class NLPAR(nlpar_cpu.NLPAR):
 
         data, xyloc = patternfile.read_data(patStartCount=[[cstart, rstart], [ncolchunk, nrowchunk]],
                                           convertToFloat=False, returnArrayOnly=True)
+        if data.dtype.type not in (np.float32, np.uint8, np.uint16): # there are kernels for loading these
+          data = data.astype(np.float32)
 
         mxval = data.max()
         if saturation_protect == False:
@@ -522,6 +524,8 @@ class NLPAR(nlpar_cpu.NLPAR):
 
         data, xyloc = patternfile.read_data(patStartCount=[[ cstart, rstart], [ncolchunk, nrowchunk]],
                                           convertToFloat=False, returnArrayOnly=True)
+        if data.dtype.type not in (np.float32, np.uint8, np.uint16): # there are kernels for loading these
+          data = data.astype(np.float32)
 
 
         mxval0 = data.max()
diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index 8d8821b..d046d3c 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -269,6 +269,8 @@ class NLPAR(nlpar_cl.NLPAR):
     nn = self.sigmann
 
     data = np.ascontiguousarray(data)
+    if data.dtype.type not in (np.float32, np.uint8, np.uint16): # there are kernels for loading these
+      data = data.astype(np.float32)
     ctx = clparams.ctx
     prg = clparams.prg
     clparams.get_queue()
@@ -586,6 +588,8 @@ class NLPAR(nlpar_cl.NLPAR):
 
   def _nlparchunkcalc_cl(self, data, calclim, clparams=None):
     data = np.ascontiguousarray(data)
+    if data.dtype.type not in (np.float32, np.uint8, np.uint16): # there are kernels for loading these
+      data = data.astype(np.float32)
     ctx = clparams.ctx
     prg = clparams.prg
     clparams.get_queue()
-- 
2.43.0


From d24e8bd29ce84da9458da8b9961cdd280c66d4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 84/90] fix: GPU NLPAR of multiple workers waited forever, or
 repeated a tile without end, when a tile failed

---
 pyebsdindex/opencl/nlpar_clray.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index d046d3c..c37185e 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -256,9 +256,14 @@ class NLPAR(nlpar_cl.NLPAR):
             dist[rstart+r0:rstart+r1, cstart+c0:cstart+c1] = distchunk[r0:r1, c0:c1]
             sigma[rstart+r0:rstart+r1, cstart+c0:cstart+c1] = sigmachunk[r0:r1, c0:c1]
 
-            idlewrker.append(busywrker.pop(indx))
-            tasks.remove(tsk)
             ndone += 1
+          else:  # An error has occured ... hopefully just need a re-process.
+            job.nfail += 1
+            if job.nfail > 3:
+              raise RuntimeError("NLPAR tile failed: " + str(newdata))
+            jobqueue.append(job)
+          idlewrker.append(busywrker.pop(indx))
+          tasks.remove(tsk)
           if verbose >= 2:
             print("tiles complete: ", ndone,"/", njobs,sep='', end='\r'  )
     if verbose >= 2:
@@ -572,15 +577,18 @@ class NLPAR(nlpar_cl.NLPAR):
             for tsk in donetasks:
                 indx = tasks.index(tsk)
                 message, job, newdata = ray.get(tsk)
+                idlewrker.append(busywrker.pop(indx))
+                tasks.remove(tsk)
                 if message == 'Done':
-                  idlewrker.append(busywrker.pop(indx))
-                  tasks.remove(tsk)
                   ndone += 1
                   if verbose >= 2:
                     print("tiles complete: ", ndone, "/", njobs, sep='', end='\r')
                 else: #An error has occured ... hopefully just need a re-process.
-                  jobqueue.append(job)
                   print(message)
+                  job.nfail += 1
+                  if job.nfail > 3:
+                    raise RuntimeError("NLPAR tile failed: " + str(newdata))
+                  jobqueue.append(job)
 
     if verbose >= 2:
       print('\n', end='')
@@ -813,6 +821,7 @@ class NLPARGPUJob:
       self.starttime = 0.0
       self.endtime = 0.0
       self.extime = 0.0
+      self.nfail = 0
 
   def _starttime(self):
     self.starttime = timer()
-- 
2.43.0


From 4f9ef843bc00410fef67154e65c3ae42b8129f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 85/90] fix: GPU band detection raced on the theta padding when
 it is wider than the Radon transform

---
 pyebsdindex/opencl/clkernels.cl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/opencl/clkernels.cl b/pyebsdindex/opencl/clkernels.cl
index 0e130dd..ef0923d 100644
--- a/pyebsdindex/opencl/clkernels.cl
+++ b/pyebsdindex/opencl/clkernels.cl
@@ -224,13 +224,17 @@ __kernel void radonPadTheta(
     const unsigned long int gid_im = get_global_id(0);
     const unsigned long int nImChunk = get_global_size(0);
     const unsigned long int gid_rho = get_global_id(1);
-    unsigned long int gid_rdn1,gid_rdn2, i;
+    unsigned long int gid_rdn1,gid_rdn2, i, j, k;
+    const unsigned long int nT = nTheta - 2 * thetaPad; // the theta values that are not padding
     gid_rdn1 =   (nTheta * gid_rho);
     gid_rdn2 =   (nTheta * (nRho -1 - gid_rho));
 
     for (i = 0; i < thetaPad; ++i){
-        radon[(i + gid_rdn1)*nImChunk + gid_im] = radon[ (gid_rdn2 + (nTheta - (2 * thetaPad)) + i) * nImChunk + gid_im ];
-        radon[ (gid_rdn2 + (nTheta - ( thetaPad)) + i) * nImChunk + gid_im] = radon[ (gid_rdn1 + thetaPad + i)*nImChunk +gid_im];
+        // a padding wider than nT wraps around more than once, with a flip each time.
+        j = i % nT;
+        k = ((i / nT) & 1) ? gid_rdn1 : gid_rdn2;
+        radon[(thetaPad - 1 - i + gid_rdn1)*nImChunk + gid_im] = radon[ (k + thetaPad + (nT - 1 - j)) * nImChunk + gid_im ];
+        radon[(thetaPad + nT + i + gid_rdn1)*nImChunk + gid_im] = radon[ (k + thetaPad + j)*nImChunk +gid_im];
     }
 
   }
-- 
2.43.0


From 06b105df970619bb475f659982dde70181696f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 86/90] fix: GPU background and theta padding kernels wrote to
 buffers that were created as read-only for the kernels

---
 pyebsdindex/opencl/band_detect_cl.py | 2 +-
 pyebsdindex/opencl/radon_fast_cl.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index 00e935b..fd5a76a 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -378,7 +378,7 @@ class BandDetect(band_detect.BandDetect):
       nImCL += np.int64(16 * (1 - np.int64(np.mod(nImCL,mxGroupSz) > 0)))
       radonCL = np.zeros( (nRp , nTp, nImCL), dtype = np.float32)
       radonCL[:,:,0:shp[2]] = radon
-      rdn_gpu = cl.Buffer(ctx,mf.READ_ONLY | mf.COPY_HOST_PTR,hostbuf=radonCL)
+      rdn_gpu = cl.Buffer(ctx,mf.READ_WRITE | mf.COPY_HOST_PTR,hostbuf=radonCL)
       shp = (nRp, nTp, nImCL)
 
     nImChunk = np.uint64(nImCL / clvtypesize)
diff --git a/pyebsdindex/opencl/radon_fast_cl.py b/pyebsdindex/opencl/radon_fast_cl.py
index fd8b3b9..4c4b920 100644
--- a/pyebsdindex/opencl/radon_fast_cl.py
+++ b/pyebsdindex/opencl/radon_fast_cl.py
@@ -95,7 +95,7 @@ class Radon(radon_fast.Radon):
     radon_gpu = cl.Buffer(ctx,mf.READ_WRITE,size=int((self.nRho+2*padding[0])*(self.nTheta+2*padding[1])*nImCL*4))
     #radon_gpu = cl.Buffer(ctx,mf.READ_WRITE,size=radon.nbytes)
     #radon_gpu = cl.Buffer(ctx,mf.READ_WRITE | mf.COPY_HOST_PTR,hostbuf=radon)
-    image_gpu = cl.Buffer(ctx,mf.READ_ONLY | mf.COPY_HOST_PTR,hostbuf=image_align)
+    image_gpu = cl.Buffer(ctx,mf.READ_WRITE | mf.COPY_HOST_PTR,hostbuf=image_align)
     rdnIndx_gpu = cl.Buffer(ctx,mf.READ_ONLY | mf.COPY_HOST_PTR,hostbuf=self.indexPlan)
 
     imstep = np.uint64(np.prod(shapeIm[-2:], dtype=int))
-- 
2.43.0


From 8ddafa9d9538b7773bfc8827db7b8611d7aa652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 87/90] fix: GPU convolution with a full kernel returned unset
 memory at the edges

---
 pyebsdindex/opencl/band_detect_cl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index fd5a76a..2696e19 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -412,7 +412,8 @@ class BandDetect(band_detect.BandDetect):
       # also going to assume that there is only one kernel -- this will be something to fix at some point.
       k0 = np.array(self.kernel[0,:,:], dtype=np.float32)
       kshp = np.asarray(k0.shape, dtype=np.int32)
-      pad = kshp/2
+      # the whole of the padded radon is convolved, as the rest of the processing uses it up to its edges.
+      pad = np.zeros(2, dtype=np.int32)
       kern_gpu = cl.Buffer(ctx,mf.READ_ONLY | mf.COPY_HOST_PTR,hostbuf=k0)
       prg.convolution3d2d(queue,(np.int32((shp[1]-2*pad[1])),np.int32((shp[0]-2*pad[0])), nImChunk),None,
                         rdn_gpu, kern_gpu,np.int32(shp[1]),np.int32(shp[0]),np.int32(shp[2]),
-- 
2.43.0


From 879fb281addaf029741d79446b5fd9429584a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 88/90] fix: GPU band labelling of an array of local maxima
 took its float values for bytes

---
 pyebsdindex/opencl/band_detect_cl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index 2696e19..65774fe 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -687,10 +687,10 @@ class BandDetect(band_detect.BandDetect):
         lMaxRdn = lMaxRdnIn.reshape(shp[0],shp[1],1)
       else:
         lMaxRdn = lMaxRdnIn
-      shp = lMaxRdnIn.shape
+      shp = lMaxRdn.shape
       nIm = shp[2]
 
-      lMaxRdnCL = np.zeros((nRp,nTp,nIm),dtype=np.float32)
+      lMaxRdnCL = np.zeros((nRp,nTp,nIm),dtype=np.ubyte)
       lMaxRdnCL[:,:,0:shp[2]] = lMaxRdn
       lMaxRdn_gpu = cl.Buffer(ctx,mf.READ_ONLY | mf.COPY_HOST_PTR,hostbuf=lMaxRdnCL)
       shp = (nRp,nTp,nIm)
-- 
2.43.0


From f16d9603aa33583159c7adde4352f69a0b352130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 89/90] fix: GPU band detection did not fall back to the CPU
 when the device could not be set up

---
 pyebsdindex/opencl/band_detect_cl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index 65774fe..23b6776 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -55,15 +55,16 @@ class BandDetect(band_detect.BandDetect):
     if useCPU == True:
       return band_detect.BandDetect.find_bands(self, patternsIn, verbose=verbose, chunksize=-1, **kwargs)
 
-    if clparams is None:
-      clparams = openclparam.OpenClParam()
-      clparams.get_queue(gpu_id=gpu_id)
     #if clparams is None:
     #  print('noclparams')
     #else:
     #  print(type(clparams.queue))
 
     try:
+      if clparams is None:
+        clparams = openclparam.OpenClParam()
+        clparams.get_queue(gpu_id=gpu_id)
+
       tic0 = timer()
       tic = timer()
       ndim = patternsIn.ndim
-- 
2.43.0


From 67a0a3a70be2d9fe7e947da2ea773e9c24841c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 90/90] fix: GPU NLPAR lambda optimisation kept the mean of the
 optimised values, not the median it reports

---
 pyebsdindex/opencl/nlpar_cl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 80efb81..a5fc242 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -127,7 +127,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     print("Range of lambda values: ", lamopt_values.flatten())
     print("Optimal Choice: ", np.median(lamopt_values))
     if autoupdate == True:
-      self.lam = np.median(np.mean(lamopt_values, axis=0))
+      self.lam = np.median(lamopt_values)
     if self.sigma is None:
       self.sigma = sigma
     return lamopt_values.flatten()
-- 
2.43.0

