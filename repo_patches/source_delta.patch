From 73c63ff8408357531cf04cf3ae939a3ba0270a36 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 01/18] fix: use the v and w edge conditions in the y direction
 of PlateStructure

---
 composipy/core/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index af29633..61900bc 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -251,8 +251,8 @@ class PlateStructure(Structure):
             wn.remove(3)
         
         um, un = um[0:self.m], un[0:self.n]
-        vm, vn = vm[0:self.m], un[0:self.n]
-        wm, wn = wm[0:self.m], un[0:self.n]
+        vm, vn = vm[0:self.m], vn[0:self.n]
+        wm, wn = wm[0:self.m], wn[0:self.n]
 
         uidx = list(product(um, un, um, un))
         vidx = list(product(vm, vn, vm, vn))
-- 
2.43.0


From 302920bdbb7570a67d5e7b0801cccf559564bc54 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 02/18] fix: resolve each edge condition on its own, so named
 edges mixed with DOF lists are not left free

---
 composipy/core/structure.py | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 61900bc..bd4e40a 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -157,12 +157,7 @@ class PlateStructure(Structure):
             y0 = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
             yb = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
 
-        elif (
-            isinstance(self.constraints['x0'], str)
-            and isinstance(self.constraints['xa'], str)
-            and isinstance(self.constraints['y0'], str)
-            and isinstance(self.constraints['yb'], str)
-        ):
+        else:
             boundary_conditions = {
                  'free': [],
                  'pinned': ['TX', 'TY', 'TZ'],
@@ -170,23 +165,15 @@ class PlateStructure(Structure):
                  'fixed': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ'],
                  'clamped': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
             }
-            x0 = boundary_conditions[
-                 self.constraints['x0'].lower()
-            ]
-            xa = boundary_conditions[
-                 self.constraints['xa'].lower()
-            ]
-            y0 = boundary_conditions[
-                 self.constraints['y0'].lower()
+            x0, xa, y0, yb = [
+                boundary_conditions[edge.lower()] if isinstance(edge, str) else edge
+                for edge in (
+                    self.constraints['x0'],
+                    self.constraints['xa'],
+                    self.constraints['y0'],
+                    self.constraints['yb'],
+                )
             ]
-            yb = boundary_conditions[
-                 self.constraints['yb'].lower()
-            ]
-        else:
-            x0 = self.constraints['x0']
-            xa = self.constraints['xa']
-            y0 = self.constraints['y0']
-            yb = self.constraints['yb']
 
         sm = [i for i in range(self.m+4)]
         sn = [i for i in range(self.n+4)]
-- 
2.43.0


From 1281a2eb456bf0fa6a51a85d139c6ee24f28ac26 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 03/18] fix: make the full-ABD stiffness matrix symmetric and
 consistent with the strain energy

---
 composipy/core/structure.py                   |  2 +-
 composipy/pre_integrated_component/build_k.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index bd4e40a..ebb2355 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -305,7 +305,7 @@ class PlateStructure(Structure):
 
         K = np.vstack([
         np.hstack([k11, k12, k13]),
-        np.hstack([k21, k22, k31]),
+        np.hstack([k21, k22, k23]),
         np.hstack([k31, k32, k33])
         ])
 
diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index 6a95f43..74ec3a8 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -14,7 +14,7 @@ def calc_K11_ijkl(a, b, ui, uj, uk, ul, A11, A16, A66):
     k11 = (
         A11 * (b/a) *  uxi_ij_uxi_kl
         + A16 * (uxi_ij_ueta_kl+ueta_ij_uxi_kl)
-        + A66 * (b/a) * ueta_ij_ueta_kl)
+        + A66 * (a/b) * ueta_ij_ueta_kl)
     return k11
 
 
@@ -48,10 +48,10 @@ def calc_k13_ijkl(a, b, ui, uj, wk, wl, B11, B12, B16, B26, B66):
     ueta_w = ii_ff(uiwk) * ii_fxi_f(ujwl)
 
     k13 = (
-        -(2*b/a) * B11 * uxi_ij_wxixi_kl
+        -(2*b/a**2) * B11 * uxi_ij_wxixi_kl
         -(2/b) * B12 * uxi_wetaeta
         -(2/a) * B16 * (2*uxi_wxieta + ueta_wxixi)
-        -(2/b**2) * B26 * ueta_wetaeta
+        -(2*a/b**2) * B26 * ueta_wetaeta
         -(4/b) * B66 * ueta_wxieta
     )
 
@@ -68,7 +68,7 @@ def calc_k21_ijkl(a, b, vi, vj, uk, ul, A12, A16, A26, A66):
 
     k21 = (
         A12 * veta_ij_uxi_kl
-        + A16 * (a/b) * vxi_ij_uxi_kl
+        + A16 * (b/a) * vxi_ij_uxi_kl
         + A26 * (a/b) * veta_ij_ueta_ij
         + A66 * vxi_ij_ueta_kl
     )
@@ -115,7 +115,7 @@ def calc_k23_ijkl(a, b, vi, vj, wk, wl, B12, B16, B22, B26, B66):
 def calc_k31_ijkl(a, b, wi, wj, uk, ul, B11, B12, B16, B26, B66):
     wiuk = (wi, uk)
     wjul = (wj, ul)
-    wxixi_uxi = ii_fxi_fxixi(wiuk) * ii_ff(wjul)
+    wxixi_uxi = ii_fxixi_fxi(wiuk) * ii_ff(wjul)
     wetaeta_uxi = ii_f_fxi(wiuk) * ii_fxixi_f(wjul)
     wetaeta_ueta = ii_ff(wiuk) * ii_fxixi_fxi(wjul)
     wxieta_ueta = ii_fxi_f(wiuk) * ii_fxi_fxi(wjul)
-- 
2.43.0


From 1bc72023c506c7c5623dc5bcf7858657bc4f5d54 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 04/18] fix: start the eigensolver from a fixed vector so that
 results are reproducible

---
 composipy/core/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index ebb2355..48f50ee 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -381,8 +381,9 @@ class PlateStructure(Structure):
         k = min(num_eigvalues, KG.shape[0]-2)
         mode = 'cayley'
 
+        v0 = np.random.default_rng(0).random(KG.shape[0]) # fixed start, so that results are reproducible
         eigvals, eigvecs = eigsh(A=KG, k=k,
-              which='SM', M=K, tol=tol, sigma=1., mode=mode)
+              which='SM', M=K, tol=tol, sigma=1., mode=mode, v0=v0)
         
         eigvals = -1./eigvals
     
-- 
2.43.0


From ce1b4e935171bf7cc72b16f387493e5db743b921 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 05/18] fix: plot mode shapes on grids with different numbers
 of points in x and y

---
 composipy/core/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 48f50ee..01b145a 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -407,10 +407,10 @@ class PlateStructure(Structure):
         xi_arr = np.linspace(-1, 1, ngridx)
         eta_arr = np.linspace(-1, 1, ngridy)
         xi_mesh, eta_mesh = np.meshgrid(xi_arr, eta_arr)
-        z = np.zeros(ngridx*ngridy).reshape(ngridx, ngridy)
+        z = np.zeros(ngridx*ngridy).reshape(ngridy, ngridx)
 
-        for i in range(ngridx):
-            for j in range(ngridy):
+        for i in range(ngridy):
+            for j in range(ngridx):
                 sw = sxieta(self.sw_idx, xi_mesh[i, j], eta_mesh[i, j])
                 wij = float((sw @ cw_values))
                 z[i, j] = wij
-- 
2.43.0


From 6bd50e6ff1b74a0c59b045a75b742fc903a7d999 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 06/18] fix: let IsotropicMaterial be created without
 allowables

---
 composipy/core/material.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index a86e994..82733d5 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -207,11 +207,11 @@ class IsotropicMaterial(Material):
         Shear modulus
     thickness : float
         thickness of the ply
-    t : float, default None
+    t : float, default 0
         tension allowable.
-    c : float, default None
+    c : float, default 0
         compression allowable.
-    s : float, default None
+    s : float, default 0
         shear allowable.
     name : str, default None
         Name of the ply
@@ -225,9 +225,9 @@ class IsotropicMaterial(Material):
             v, 
             g, 
             thickness, 
-            t=None, 
-            c=None, 
-            s=None, 
+            t=0, 
+            c=0, 
+            s=0, 
             name=None):
         self.__e = self._float_number(e, n_min=0, name='e')
         self.__v = self._float_number(v, n_min=-0.5, n_max=0.5, name='v')
-- 
2.43.0


From e074277b2259923fa478d964c7fa01e85bb3fcaf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 07/18] fix: name e2 in its validation error

---
 composipy/core/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index 82733d5..3fdb584 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -70,7 +70,7 @@ class OrthotropicMaterial(Material):
             s=0, 
             name=None):
         self.__e1 = self._float_number(e1, n_min=0, name='e1')
-        self.__e2 = self._float_number(e2, n_min=0, name='')
+        self.__e2 = self._float_number(e2, n_min=0, name='e2')
         self.__v12 = self._float_number(v12, n_min=-0.5, n_max=0.5, name='v12')
         self.__g12 = self._float_number(g12, n_min=0, name='g12')
         self.__thickness = self._float_number(thickness, n_min=0, name='thickness')
-- 
2.43.0


From b5261c558a205726a7c462a528a6307dc19473f7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 08/18] fix: raise the KeyError for missing lamination
 parameter keys

---
 composipy/core/property.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 3ad2ae3..c47495a 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -83,11 +83,11 @@ class LaminateProperty(Property):
             try: 
                 xiD = stacking['xiD']
             except KeyError:
-                KeyError('xiD must be a key')
+                raise KeyError('xiD must be a key')
             try:
                 total_thickness = stacking['T']
             except KeyError:
-                KeyError('T must be a key')
+                raise KeyError('T must be a key')
             layup = []
 
         self.stacking = stacking
-- 
2.43.0


From 47645d3223bb2b78af07ce98891ed90a570c6553 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 09/18] fix: give back xiA and xiD of laminates defined by
 lamination parameters

---
 composipy/core/property.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index c47495a..fde60d8 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -273,6 +273,8 @@ class LaminateProperty(Property):
     @property
     def xiA(self):
         '''Lamination parameter xiA'''
+        if isinstance(self.stacking, dict): # given by the user
+            return None if self._xiA is None else np.array(self._xiA, dtype=float)
         xiA = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
@@ -290,6 +292,8 @@ class LaminateProperty(Property):
     @property
     def xiD(self):
         '''Lamination parameter xiD'''
+        if isinstance(self.stacking, dict): # given by the user
+            return np.array(self._xiD, dtype=float)
         xiD = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
-- 
2.43.0


From 857b62d579f263750d08308ee9e52931ea1c8ba8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 10/18] fix: compare the lamination parameters of laminates
 defined by them

---
 composipy/core/property.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index fde60d8..3020ed1 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -315,8 +315,18 @@ class LaminateProperty(Property):
         return representation
 
 #Comparisons
+    def _parameters(self):
+        xi = [None if xi is None else [float(x) for x in xi]
+              for xi in (self._xiA, self._xiB, self._xiD)]
+        return xi + [float(self._total_thickness)]
+
     def __eq__(self, other):
         if isinstance(other, LaminateProperty):
+            if isinstance(self.stacking, dict) != isinstance(other.stacking, dict):
+                return False
+            if isinstance(self.stacking, dict): # the layup is empty, compare what defines the laminate
+                return (self._parameters() == other._parameters()
+                        and self.plies == other.plies)
             return (self.layup == other.layup)
         return NotImplemented
 
-- 
2.43.0


From 22a244232f34fa410276181570ab665b90c836af Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 11/18] fix: label the margin rows with the position whose
 stress they use

---
 composipy/core/strength.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/strength.py b/composipy/core/strength.py
index 051af70..8801e35 100644
--- a/composipy/core/strength.py
+++ b/composipy/core/strength.py
@@ -370,8 +370,8 @@ class LaminateStrength():
         for allowable123, theta in zip(allowablek_123, stacking):
             data['ply'].append(cur_ply)
             data['ply'].append(cur_ply)
-            data['position'].append('top')
             data['position'].append('bot')
+            data['position'].append('top')
             data['angle'].append(theta)
             data['angle'].append(theta)
             data['t1'].append(allowable123[0])
-- 
2.43.0


From ce73cd04ee2d5c1f5a1e610502188690a90695c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 12/18] fix: expand each plus-minus angle into both plies, as
 documented

---
 composipy/nastranapi/pcomp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 249dfb1..31009c0 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -5,7 +5,7 @@ def _build_pm_unit(angle, times):
     '''Returns a list when there is the plus minus sign '''
     stacking_values = list()
     
-    for i in range(times):
+    for i in range(2*times):
         current_angle = (-1)**i*angle
         stacking_values += [current_angle]
     return stacking_values
-- 
2.43.0


From 5104d3ef14953f6466d034d9146ab80de87bac4d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 13/18] fix: accept an uppercase symmetry mark in
 build_sequence

---
 composipy/nastranapi/pcomp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 31009c0..8c8bd9f 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -58,7 +58,7 @@ def build_sequence(stacking):
     '''
     stacking = stacking.strip()
     is_symmetric = stacking[-1].lower() == 's'
-    stacking = stacking.replace('s', '')
+    stacking = stacking.replace('s', '').replace('S', '')
     is_stacking = (stacking[0] == '['
                    and stacking[-1] == ']')
     stacking = stacking.replace('[', '').replace(']', '')
-- 
2.43.0


From ff466e645bbed9e724608002752018aec9b24a12 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 14/18] fix: separate SOUT from the continuation mark in the
 PCOMP card

---
 composipy/nastranapi/pcomp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 8c8bd9f..9668cdc 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -196,7 +196,7 @@ def build_pcomp(sequence, midi, ti, pid=1, z0='',sout='FIBER'):
         i1 = i + 1
         body += f'+,{midi[i0]},{ti[i0]},{sequence[i0]},{sout[i0]},'
         try:
-            body += f'{midi[i1]},{ti[i1]},{sequence[i1]},{sout[i1]}+\n'
+            body += f'{midi[i1]},{ti[i1]},{sequence[i1]},{sout[i1]},+\n'
         except IndexError:
             body = body[0:-1] # removes last comma
     
-- 
2.43.0


From 39e09b5e39fcb84731856f7aecf8de1c4c540581 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 15/18] fix: let isotropic plies be used for strength and
 lamination parameters

---
 composipy/core/material.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index 3fdb584..171a862 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -263,6 +263,19 @@ class IsotropicMaterial(Material):
     @property
     def s(self):
         return self.__s
+    # allowables with the names of OrthotropicMaterial, the same in both directions
+    @property
+    def t1(self):
+        return self.__t
+    @property
+    def c1(self):
+        return self.__c
+    @property
+    def t2(self):
+        return self.__t
+    @property
+    def c2(self):
+        return self.__c
     @property
     def v(self):
         return self.__v
@@ -295,6 +308,8 @@ class IsotropicMaterial(Material):
                                    [0, 0, Q66]])
         return self.__Q_0
 
+    Invariants = OrthotropicMaterial.Invariants # depends on Q_0 only
+
     def __repr__(self):
         return (
             f'IsotropicMaterial({self.name}, E = {self.e}, \n\
-- 
2.43.0


From 6a4a82d605f10ea853bd313934f8202c0091cc13 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:44 +0000
Subject: [PATCH 16/18] fix: find the lowest buckling factor whatever the
 magnitude of the loads

---
 composipy/core/structure.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 01b145a..d647011 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -379,11 +379,9 @@ class PlateStructure(Structure):
             ti = time()
             print('Calculating eigenvalues')
         k = min(num_eigvalues, KG.shape[0]-2)
-        mode = 'cayley'
-
         v0 = np.random.default_rng(0).random(KG.shape[0]) # fixed start, so that results are reproducible
         eigvals, eigvecs = eigsh(A=KG, k=k,
-              which='SM', M=K, tol=tol, sigma=1., mode=mode, v0=v0)
+              which='SA', M=K, tol=tol, v0=v0) # most negative first, so that the lowest factor is found for any loads
         
         eigvals = -1./eigvals
     
-- 
2.43.0


From 18e036ba157e92298f66e8e6421e744b2ab7c861 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 17/18] fix: reject an unknown PCOMP output request as long as
 the number of plies

---
 composipy/nastranapi/pcomp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 9668cdc..db33b8b 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -150,7 +150,7 @@ def _convert_sout(sout, size):
     else:
         try:
             size_value = len(sout)
-            if size_value == size:
+            if size_value == size and not isinstance(sout, str):
                 return sout
             else:
                  raise ValueError
-- 
2.43.0


From c1225f083de1c4948ef259195df5b2f16c24debc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 18/18] fix: compare laminates with different kinds of plies

---
 composipy/core/material.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index 171a862..cef4351 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -191,6 +191,8 @@ class OrthotropicMaterial(Material):
                     and self.t2 == other.t2
                     and self.c2 == other.c2
                     and self.s == other.s)
+        elif isinstance(other, Material): # another kind of material
+            return False
         else:
             raise ValueError(f'Not a instance of Material')
 
@@ -326,5 +328,7 @@ class IsotropicMaterial(Material):
                     and self.t == other.t
                     and self.c == other.c
                     and self.s == other.s)
+        elif isinstance(other, Material): # another kind of material
+            return False
         else:
             raise ValueError(f'Not a instance of Material')
\ No newline at end of file
-- 
2.43.0

