From 7f46abd81e1ac480b648fbe6e3d806a6f876c28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 01/44] fix: MultiDomain.calc_kT always raised TypeError
 (Shell.calc_kC has no 'inc' argument)

---
 panels/multidomain/multidomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index a53fe8b..4a455a1 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -1014,7 +1014,7 @@ class MultiDomain(object):
             if p.row_start is None or p.col_start is None:
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             kT += p.calc_kC(c=c, size=size, row0=p.row_start, col0=p.col_start,
-                    silent=silent, finalize=False, inc=inc, NLgeom=True)
+                    silent=silent, finalize=False, NLgeom=True)
             kT += p.calc_kG(c=c, size=size, row0=p.row_start,
                     col0=p.col_start, silent=silent, finalize=False, NLgeom=True)
         if finalize:
-- 
2.43.0


From b1e9d778d77213d3b022b5ea0de1bd2b68f7b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 02/44] fix: fkCld_xcte and fkCld_ycte put the u and v
 penalties on the w degrees of freedom

---
 panels/multidomain/connections/kCpd.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/panels/multidomain/connections/kCpd.pyx b/panels/multidomain/connections/kCpd.pyx
index c4563fa..ee1d323 100644
--- a/panels/multidomain/connections/kCpd.pyx
+++ b/panels/multidomain/connections/kCpd.pyx
@@ -256,12 +256,12 @@ def fkCld_xcte(double ku, double kv, double kw, object p, double xp,
                         fBw = f(k, xip, x1w, x1wr, x2w, x2wr)
             
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+0
+                        kCld_xctec[c] = col+0
                         kCld_xctev[c] += ku*b*fAu*fBu*gAugBu/2.
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+1
+                        kCld_xctec[c] = col+1
                         kCld_xctev[c] += kv*b*fAv*fBv*gAvgBv/2.
                         c += 1
                         kCld_xcter[c] = row+2
@@ -380,12 +380,12 @@ def fkCld_ycte(double ku, double kv, double kw, object p, double yp,
                         gBw = f(l, etap, y1w, y1wr, y2w, y2wr)
             
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+0
+                        kCld_yctec[c] = col+0
                         kCld_yctev[c] += ku*a*fAufBu*gAu*gBu/2.
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+1
+                        kCld_yctec[c] = col+1
                         kCld_yctev[c] += kv*a*fAvfBv*gAv*gBv/2.
                         c += 1
                         kCld_ycter[c] = row+2
-- 
2.43.0


From 2c3a155f4b021884d0e8c777cd5a34751318f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 03/44] fix: MultiDomain.get_kC_conn swapped connection
 arguments, reused stale matrices and overwrote the given connections

---
 panels/multidomain/multidomain.py | 76 ++++++++++++++-----------------
 1 file changed, 33 insertions(+), 43 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 4a455a1..3d56f68 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -766,38 +766,31 @@ class MultiDomain(object):
             if self.conn is None:
                 raise RuntimeError('No connectivity dictionary defined!')
             conn = self.conn
-
-        if self.kC_conn is not None:
-            return self.kC_conn
+        else:
+            # keeping for later calls (e.g. calc_fint, calc_kT)
+            self.conn = conn
 
         size = self.get_size()
 
         kC_conn = 0.
-        
-        # Looping through each connection pair 
+
+        # Looping through each connection pair
         for connecti in conn:
             # connecti = ith connection pair
-            p1_temp = connecti['p1']
-            p2_temp = connecti['p2']
-            if p1_temp.col_start < p2_temp.col_start:
-                pA = p1_temp
-                pB = p2_temp
-            elif p1_temp.col_start > p2_temp.col_start:
-                pA = p2_temp
-                pB = p1_temp
-                if connecti['func'] == 'SB':
-                    pass
+            #NOTE pA and pB keep the roles of p1 and p2, regardless of their
+            #     position in the assembly
+            pA = connecti['p1']
+            pB = connecti['p2']
+
+            def coupling(k12):
+                # only the upper triangle is used by finalize_symmetric_matrix
+                if pA.row_start < pB.row_start:
+                    return k12
+                elif pA.row_start > pB.row_start:
+                    return k12.T
                 else:
-                    if 'xcte1' in connecti.keys() and 'xcte2' in connecti.keys():
-                        temp_xcte = connecti['xcte1']
-                        connecti['xcte1'] = connecti['xcte2']
-                        connecti['xcte2'] = temp_xcte
-                    # y needs to be tested
-                    if 'ycte1' in connecti.keys() and 'ycte2' in connecti.keys():
-                        temp_ycte = connecti['ycte1']
-                        connecti['ycte1'] = connecti['ycte2']
-                        connecti['ycte2'] = temp_ycte
-            
+                    return k12 + k12.T
+
             connection_function = connecti['func'] # Type of connection
             
             if connection_function == 'SSycte':
@@ -812,9 +805,9 @@ class MultiDomain(object):
                         kt, kr, pA, connecti['ycte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
                 # adds the penalty stiffness to ycte of panel 1 and panel 2 coupling position
-                kC_conn += connections.kCSSycte.fkCSSycte12(
+                kC_conn += coupling(connections.kCSSycte.fkCSSycte12(
                         kt, kr, pA, pB, connecti['ycte1'], connecti['ycte2'],
-                        size, row0=pA.row_start, col0=pB.col_start)
+                        size, row0=pA.row_start, col0=pB.col_start))
                 # adds the penalty stiffness to ycte of panel pB position
                 kC_conn += connections.kCSSycte.fkCSSycte22(
                         kt, kr, pA, pB, connecti['ycte2'],
@@ -825,21 +818,20 @@ class MultiDomain(object):
                 kC_conn += connections.kCSSxcte.fkCSSxcte11(
                         kt, kr, pA, connecti['xcte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCSSxcte.fkCSSxcte12(
+                kC_conn += coupling(connections.kCSSxcte.fkCSSxcte12(
                         kt, kr, pA, pB, connecti['xcte1'], connecti['xcte2'],
-                        size, row0=pA.row_start, col0=pB.col_start)
+                        size, row0=pA.row_start, col0=pB.col_start))
                 kC_conn += connections.kCSSxcte.fkCSSxcte22(
                         kt, kr, pA, pB, connecti['xcte2'],
                         size, row0=pB.row_start, col0=pB.col_start)
             
             elif connection_function == 'SB':
                 kt, kr = connections.calc_kt_kr(pA, pB, 'bot-top')
-                print(kt, kr)
                 dsb = sum(pA.plyts)/2. + sum(pB.plyts)/2.
                 kC_conn += connections.kCSB.fkCSB11(kt, dsb, pA,
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCSB.fkCSB12(kt, dsb, pA, pB,
-                        size, row0=pA.row_start, col0=pB.col_start)
+                kC_conn += coupling(connections.kCSB.fkCSB12(kt, dsb, pA, pB,
+                        size, row0=pA.row_start, col0=pB.col_start))
                 kC_conn += connections.kCSB.fkCSB22(kt, pA, pB,
                         size, row0=pB.row_start, col0=pB.col_start)
             
@@ -848,9 +840,9 @@ class MultiDomain(object):
                 kC_conn += connections.kCBFycte.fkCBFycte11(
                         kt, kr, pA, connecti['ycte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCBFycte.fkCBFycte12(
+                kC_conn += coupling(connections.kCBFycte.fkCBFycte12(
                         kt, kr, pA, pB, connecti['ycte1'], connecti['ycte2'],
-                        size, row0=pA.row_start, col0=pB.col_start)
+                        size, row0=pA.row_start, col0=pB.col_start))
                 kC_conn += connections.kCBFycte.fkCBFycte22(
                         kt, kr, pA, pB, connecti['ycte2'],
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -860,9 +852,9 @@ class MultiDomain(object):
                 kC_conn += connections.kCBFxcte.fkCBFxcte11(
                         kt, kr, pA, connecti['xcte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCBFxcte.fkCBFxcte12(
+                kC_conn += coupling(connections.kCBFxcte.fkCBFxcte12(
                         kt, kr, pA, pB, connecti['xcte1'], connecti['xcte2'],
-                        size, row0=pA.row_start, col0=pB.col_start)
+                        size, row0=pA.row_start, col0=pB.col_start))
                 kC_conn += connections.kCBFxcte.fkCBFxcte22(
                         kt, kr, pA, pB, connecti['xcte2'],
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -873,9 +865,9 @@ class MultiDomain(object):
                 kC_conn += connections.kCLTxycte.fkCBFxcte11(
                         kt, kr, pA, connecti['xcte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCLTxycte.fkCBFxycte12(
+                kC_conn += coupling(connections.kCLTxycte.fkCBFxycte12(
                         kt, kr, pA, pB, connecti['xcte1'], connecti['ycte2'],
-                        size, row0=pA.row_start, col0=pB.col_start)
+                        size, row0=pA.row_start, col0=pB.col_start))
                 kC_conn += connections.kCLTxycte.fkCBFycte22(
                         kt, kr, pA, pB, connecti['ycte2'],
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -884,13 +876,11 @@ class MultiDomain(object):
             elif connection_function == 'SB_TSL':
                 tsl_type = connecti['tsl_type']
                 kt = connections.calc_kw_tsl(pA, pB, tsl_type)
-                print(kt)
-                
                 dsb = sum(pA.plyts)/2. + sum(pB.plyts)/2.
                 kC_conn += connections.kCSB.fkCSB11(kt, dsb, pA,
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCSB.fkCSB12(kt, dsb, pA, pB,
-                        size, row0=pA.row_start, col0=pB.col_start)
+                kC_conn += coupling(connections.kCSB.fkCSB12(kt, dsb, pA, pB,
+                        size, row0=pA.row_start, col0=pB.col_start))
                 kC_conn += connections.kCSB.fkCSB22(kt, pA, pB,
                         size, row0=pB.row_start, col0=pB.col_start)
                 
@@ -948,7 +938,7 @@ class MultiDomain(object):
         # NOTE move this to another class method? it's a bid hidden
         # Adding kC_conn to KC panel
         kC_conn = self.get_kC_conn(conn=conn)
-        kC += self.kC_conn
+        kC += kC_conn
 
         self.kC = kC
         msg('finished!', level=2, silent=silent)
-- 
2.43.0


From ad3d4eb891dffbe7d12ccc757a5a03010df86b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 04/44] fix: MultiDomain.*_gauss_points evaluated all panels at
 the default points of the first panel

---
 panels/multidomain/multidomain.py | 36 +++++++++++++------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 3d56f68..cf6c9a7 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -573,14 +573,12 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
-                no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
-                no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+            no_grid_x = 50
+            no_grid_y = 50
+            x_panel = linspace(0, panel.a, no_grid_x) if x_gauss is None else x_gauss
+            y_panel = linspace(0, panel.b, no_grid_y) if y_gauss is None else y_gauss
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(x_panel, y_panel, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -644,14 +642,12 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
-                no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
-                no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+            no_grid_x = 50
+            no_grid_y = 50
+            x_panel = linspace(0, panel.a, no_grid_x) if x_gauss is None else x_gauss
+            y_panel = linspace(0, panel.b, no_grid_y) if y_gauss is None else y_gauss
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(x_panel, y_panel, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -712,14 +708,12 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
-                no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
-                no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+            no_grid_x = 50
+            no_grid_y = 50
+            x_panel = linspace(0, panel.a, no_grid_x) if x_gauss is None else x_gauss
+            y_panel = linspace(0, panel.b, no_grid_y) if y_gauss is None else y_gauss
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(x_panel, y_panel, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
-- 
2.43.0


From 9d3d07baa74d08ad5daef4dc4a7a6d3f9aca9ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 05/44] fix: cylinder builders applied the last panel's edge
 load to all panels (late binding), and cylinder_spla no load at all

---
 panels/multidomain/cylinder.py                 | 4 ++--
 panels/multidomain/cylinder_blade_stiffened.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 816182d..2f8a4df 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -168,7 +168,7 @@ def cylinder_compression_lb_Nxx_from_static(height, r, stack, plyt, laminaprop,
         raise ValueError('The length of "Nxxs" must be the same as "npanels"')
 
     for i, p in enumerate(assy.panels):
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxxs[i], None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxxs[i]: Nxx, None, None)
         p.x2u = 1
 
     fext = assy.calc_fext(silent=True)
@@ -220,7 +220,7 @@ def cylinder_spla(height, r, stack, plyt, laminaprop,
         p.x2u = 1
 
     for p in assy.panels:
-        p.add_distr_load_fixed_x(p.a, lambda y: p.Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
 
     p_spla = assy.panels[0]
     p_spla.add_point_load(p_spla.a/2, p_spla.b/2, 0, 0, -SPLA, cte=True)
diff --git a/panels/multidomain/cylinder_blade_stiffened.py b/panels/multidomain/cylinder_blade_stiffened.py
index b8e25fe..4a098a8 100644
--- a/panels/multidomain/cylinder_blade_stiffened.py
+++ b/panels/multidomain/cylinder_blade_stiffened.py
@@ -229,7 +229,7 @@ def cylinder_blade_stiffened_compression_lb_Nxx_from_static(height, r, stack,
         elif 'blade' in p.group:
             i_blade += 1
             Nxx = Nxxs_blade[i_blade]
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxx: Nxx, None, None)
 
     fext = assy.calc_fext(silent=True)
 
-- 
2.43.0


From 45df33e7cf6e69a1f48c7f5034a6186019613a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 06/44] fix: Shell.calc_kC failed with ABDnxny and no c, and
 with a constant stress state and NLgeom

---
 panels/shell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 59ef4dd..fc52c29 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -440,7 +440,7 @@ class Shell(object):
         ny = self.ny if ny is None else ny
         self.r = self.r if self.r is not None else 0.
 
-        if c is None and ABDnxny is None:
+        if c is None:
             # Empty c if the interest is only on the heterogeneous
             # laminate properties
             c = np.zeros(size, dtype=DOUBLE)
@@ -474,6 +474,9 @@ class Shell(object):
             if analytical_kG:
                 kC += matrices.fkG0(self.Nxx_cte, self.Nyy_cte, self.Nxy_cte, self, size, row0, col0)
             else:
+                if c_cte is None:
+                    c_cte = np.zeros(size, dtype=DOUBLE)
+                c_cte = np.ascontiguousarray(c_cte, dtype=DOUBLE)
                 kC += matrices_num.fkG_num(c_cte, ABDnxny, self,
                         size, row0, col0, nx, ny, NLgeom,
                         self.Nxx_cte, self.Nyy_cte, self.Nxy_cte)
-- 
2.43.0


From 7ff4ceae4ca685b7945f426a0124ec68a90f6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 07/44] fix: Shell methods other than calc_kC/calc_kG used a
 missing or outdated laminate and model

---
 panels/shell.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index fc52c29..342e855 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -580,6 +580,7 @@ class Shell(object):
 
         """
         msg('Calculating kM... ', level=2, silent=silent)
+        self._rebuild()
         analytical_kM = True
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
@@ -632,7 +633,7 @@ class Shell(object):
         r"""Calculate the aerodynamic matrix using the linear piston theory
         """
         msg('Calculating kA... ', level=2, silent=silent)
-
+        self._rebuild()
 
         matrices_num = modelDB.db[self.model]['matrices_num']
 
@@ -736,6 +737,7 @@ class Shell(object):
 
 
         """
+        self._rebuild()
         c = np.ascontiguousarray(c, dtype=DOUBLE)
 
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
@@ -782,6 +784,8 @@ class Shell(object):
             ``(x, y, exx, eyy, gxy, kxx, kyy, kxy)``
 
         """
+        self._rebuild()
+        self.r = self.r if self.r is not None else 0.
         c = np.ascontiguousarray(c, dtype=DOUBLE)
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
         fstrain = modelDB.db[self.model]['field'].fstrain
@@ -1076,6 +1080,7 @@ class Shell(object):
            account in the calculations.
 
         """
+        self._rebuild()
         fg = modelDB.db[self.model]['field'].fg
         size = self.get_size()
         g = np.zeros((5, size), dtype=DOUBLE)
@@ -1170,6 +1175,7 @@ class Shell(object):
 
         """
         msg('Calculating internal forces...', level=2, silent=silent)
+        self._rebuild()
         model = self.model
         if not model in modelDB.db.keys():
             raise ValueError(
-- 
2.43.0


From b108ca6b969e79fde2452c15e4bf8e71386e151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 08/44] fix: Shell kept derived plyts, laminaprops, rhos and
 model after the attributes they derive from changed

---
 panels/shell.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 342e855..b3852b2 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -89,6 +89,7 @@ class Shell(object):
         'num_eigvalues', 'num_eigvalues_print',
         'out_num_cores', 'increments', 'results',
         'lam', 'matrices', 'fields', 'plot_mesh',
+        '_auto',
         ]
 
     def __init__(self, a=None, b=None, r=None,
@@ -218,6 +219,9 @@ class Shell(object):
         self.increments = None
         self.results = dict(eigvecs=None, eigvals=None)
 
+        # attributes that were not given, but derived from others in _rebuild
+        self._auto = {}
+
         for k, v in kwargs.items():
             setattr(self, k, v)
 
@@ -238,14 +242,27 @@ class Shell(object):
         gc.collect()
 
 
+    def _derive(self, name, value):
+        # attribute that will follow the attributes it was derived from
+        setattr(self, name, value)
+        self._auto[name] = (value, value[:])
+
+
     def _rebuild(self):
         self.nx = max(self.nx, self.m)
         self.ny = max(self.ny, self.n)
+        # deriving again what was not given by the user
+        for name, (value, copy) in getattr(self, '_auto', {}).items():
+            current = getattr(self, name)
+            if current == copy and (current is value or name == 'model'):
+                setattr(self, name, None)
+        self._auto = {}
+
         if self.model is None:
-            if self.r is None:
-                self.model = 'plate_clpt_donnell_bardell'
-            elif self.r is not None:
-                self.model = 'cylshell_clpt_donnell_bardell'
+            if not self.r: #NOTE r = 0. when set by the methods below
+                self._derive('model', 'plate_clpt_donnell_bardell')
+            else:
+                self._derive('model', 'cylshell_clpt_donnell_bardell')
 
         valid_models = sorted(modelDB.db.keys())
 
@@ -259,15 +276,15 @@ class Shell(object):
         if not self.laminaprops:
             if not self.laminaprop:
                 raise ValueError('laminaprop must be defined')
-            self.laminaprops = [self.laminaprop for i in self.stack]
+            self._derive('laminaprops', [self.laminaprop for i in self.stack])
 
         if not self.rhos:
-            self.rhos = [self.rho for i in self.stack]
+            self._derive('rhos', [self.rho for i in self.stack])
 
         if not self.plyts:
             if self.plyt is None:
                 raise ValueError('plyt must be defined')
-            self.plyts = [self.plyt for i in self.stack]
+            self._derive('plyts', [self.plyt for i in self.stack])
 
         if self.stack is not None:
             lam = laminated_plate(stack=self.stack, plyts=self.plyts,
-- 
2.43.0


From abe20f9d5b5597615500e0dde63f2a4b3b932342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 09/44] fix: analytical kC ignored force_orthotropic_laminate

---
 panels/models/cylshell_clpt_donnell_bardell.pyx | 2 +-
 panels/models/plate_clpt_donnell_bardell.pyx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index c800f12..56a0362 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -75,7 +75,7 @@ def fk0(object shell, int size, int row0, int col0):
     a = shell.a
     b = shell.b
     r = shell.r
-    F = shell.lam.ABD
+    F = shell.ABD
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index 71b0f50..9f4dc0a 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -73,7 +73,7 @@ def fk0(object shell, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    F = shell.lam.ABD
+    F = shell.ABD
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
-- 
2.43.0


From 34ec728c21d987f4575825d96948a1a2176cade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 10/44] fix: sign of the offset coupling terms of the mass
 matrix, u = u0 - z*w,x as in kC

---
 panels/models/cylshell_clpt_donnell_bardell.pyx  | 8 ++++----
 panels/models/plate_clpt_donnell_bardell.pyx     | 8 ++++----
 panels/models/plate_clpt_donnell_bardell_num.pyx | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index 56a0362..5e1ae0e 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -417,7 +417,7 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+0
                         kMc[c] = col+2
-                        kMv[c] += 0.5*b*d*fAufBwxi*gAugBw*h*rho
+                        kMv[c] += -0.5*b*d*fAufBwxi*gAugBw*h*rho
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+1
@@ -425,15 +425,15 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+2
-                        kMv[c] += 0.5*a*d*fAvfBw*gAvgBweta*h*rho
+                        kMv[c] += -0.5*a*d*fAvfBw*gAvgBweta*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+0
-                        kMv[c] += 0.5*b*d*fAwxifBu*gAwgBu*h*rho
+                        kMv[c] += -0.5*b*d*fAwxifBu*gAwgBu*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+1
-                        kMv[c] += 0.5*a*d*fAwfBv*gAwetagBv*h*rho
+                        kMv[c] += -0.5*a*d*fAwfBv*gAwetagBv*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+2
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index 9f4dc0a..d4219df 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -415,7 +415,7 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+0
                         kMc[c] = col+2
-                        kMv[c] += 0.5*b*d*fAufBwxi*gAugBw*h*rho
+                        kMv[c] += -0.5*b*d*fAufBwxi*gAugBw*h*rho
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+1
@@ -423,15 +423,15 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+2
-                        kMv[c] += 0.5*a*d*fAvfBw*gAvgBweta*h*rho
+                        kMv[c] += -0.5*a*d*fAvfBw*gAvgBweta*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+0
-                        kMv[c] += 0.5*b*d*fAwxifBu*gAwgBu*h*rho
+                        kMv[c] += -0.5*b*d*fAwxifBu*gAwgBu*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+1
-                        kMv[c] += 0.5*a*d*fAwfBv*gAwetagBv*h*rho
+                        kMv[c] += -0.5*a*d*fAwfBv*gAwetagBv*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+2
diff --git a/panels/models/plate_clpt_donnell_bardell_num.pyx b/panels/models/plate_clpt_donnell_bardell_num.pyx
index 1e19deb..65f7ee9 100644
--- a/panels/models/plate_clpt_donnell_bardell_num.pyx
+++ b/panels/models/plate_clpt_donnell_bardell_num.pyx
@@ -677,7 +677,7 @@ def fkM_num(object shell, double offset, object hrho_input, int size,
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+0
                                     kMc[c] = col+2
-                                kMv[c] += weight*( 0.5*d*fAu*fBwxi*gAu*gBw*h*intx*inty*rho/a )
+                                kMv[c] += weight*( -0.5*d*fAu*fBwxi*gAu*gBw*h*intx*inty*rho/a )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+1
@@ -687,17 +687,17 @@ def fkM_num(object shell, double offset, object hrho_input, int size,
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+1
                                     kMc[c] = col+2
-                                kMv[c] += weight*( 0.5*d*fAv*fBw*gAv*gBweta*h*intx*inty*rho/b )
+                                kMv[c] += weight*( -0.5*d*fAv*fBw*gAv*gBweta*h*intx*inty*rho/b )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+2
                                     kMc[c] = col+0
-                                kMv[c] += weight*( 0.5*d*fAwxi*fBu*gAw*gBu*h*intx*inty*rho/a )
+                                kMv[c] += weight*( -0.5*d*fAwxi*fBu*gAw*gBu*h*intx*inty*rho/a )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+2
                                     kMc[c] = col+1
-                                kMv[c] += weight*( 0.5*d*fAw*fBv*gAweta*gBv*h*intx*inty*rho/b )
+                                kMv[c] += weight*( -0.5*d*fAw*fBv*gAweta*gBv*h*intx*inty*rho/b )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+2
-- 
2.43.0


From 704c36676c1c3a4f7701f2fca812487ef22f1d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 11/44] fix: analytical kM ignored the densities given for each
 ply

---
 panels/models/cylshell_clpt_donnell_bardell.pyx | 2 +-
 panels/models/plate_clpt_donnell_bardell.pyx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index 5e1ae0e..88e1a19 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -359,7 +359,7 @@ def fkM(object shell, double d, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    rho = shell.rho
+    rho = shell.lam.intrho/shell.lam.h
     h = sum(shell.plyts)
     m = shell.m
     n = shell.n
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index d4219df..3c16a48 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -357,7 +357,7 @@ def fkM(object shell, double d, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    rho = shell.rho
+    rho = shell.lam.intrho/shell.lam.h
     h = sum(shell.plyts)
     m = shell.m
     n = shell.n
-- 
2.43.0


From ce3b9c54a250da32ac2812c826b355a245948a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 12/44] fix: Shell.calc_kC, calc_kG and calc_kM integrated the
 whole domain when (x1, x2) or (y1, y2) define part of it

---
 panels/shell.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index b3852b2..4060ec2 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -296,6 +296,12 @@ class Shell(object):
         self.size = self.get_size()
 
 
+    def _is_partial(self):
+        # the integration domain is only part of the shell domain
+        return ((self.x1 != -1 and self.x2 != -1 and (self.x1, self.x2) != (0, self.a)) or
+                (self.y1 != -1 and self.y2 != -1 and (self.y1, self.y2) != (0, self.b)))
+
+
     def get_size(self):
         r"""Calculate the size of the stiffness matrices
 
@@ -433,8 +439,9 @@ class Shell(object):
             size = int(size) + self.get_size()
         msg('Calculating kC... ', level=2, silent=silent)
 
-        analytical_kC = True
-        analytical_kG = True
+        # analytical integration is only available for the whole domain
+        analytical_kC = not self._is_partial()
+        analytical_kG = not self._is_partial()
         # This means a linear analysis is already performed (check panels\tests\tests_shell\test_nonlinear.py)
         # So, the next step is NL. So no analytical
         if c is not None:
@@ -526,7 +533,7 @@ class Shell(object):
             size = self.get_size()
         elif isinstance(size, str):
             size = int(size) + self.get_size()
-        analytical_kG = True
+        analytical_kG = not self._is_partial()
         if c is not None:
             check_c(c, size)
             c = np.ascontiguousarray(c, dtype=DOUBLE)
@@ -598,7 +605,7 @@ class Shell(object):
         """
         msg('Calculating kM... ', level=2, silent=silent)
         self._rebuild()
-        analytical_kM = True
+        analytical_kM = not self._is_partial()
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
 
-- 
2.43.0


From 3fbe448682bd4914b622daf973b366fcba5c6856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 13/44] fix: Shell.calc_kA kept the first beta and gamma for
 ever, and the gamma term had the wrong sign and was made skew-symmetric

---
 panels/shell.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 4060ec2..a196693 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -674,8 +674,9 @@ class Shell(object):
             elif self.Mach < 1:
                 raise ValueError('Mach number must be >= 1')
             elif self.Mach == 1:
-                self.Mach = 1.0001
-            Mach = self.Mach
+                Mach = 1.0001
+            else:
+                Mach = self.Mach
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
             if self.r != 0.:
                 gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
@@ -685,20 +686,29 @@ class Shell(object):
             beta = self.beta
             gamma = self.gamma if self.gamma is not None else 0.
 
-        self.beta = beta
-        self.gamma = gamma
-
-        if self.flow.lower() == 'x':
-            kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
-        elif self.flow.lower() == 'y':
-            kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
-        else:
-            raise ValueError('Invalid flow value, must be x or y')
+        given = self.beta, self.gamma
+        try:
+            #NOTE the skew-symmetric part, proportional to beta, and the
+            #     symmetric part, proportional to gamma, are kept apart
+            self.beta, self.gamma = beta, 0.
+            if self.flow.lower() == 'x':
+                kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
+                if gamma != 0.:
+                    self.beta, self.gamma = 0., -gamma
+                    kA_gamma = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
+            elif self.flow.lower() == 'y':
+                kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
+            else:
+                raise ValueError('Invalid flow value, must be x or y')
+        finally:
+            self.beta, self.gamma = given
 
         if finalize:
             assert np.any(np.isnan(kA.data)) == False
             assert np.any(np.isinf(kA.data)) == False
             kA = csr_matrix(make_skew_symmetric(kA))
+        if gamma != 0. and self.flow.lower() == 'x':
+            kA = kA + (finalize_symmetric_matrix(kA_gamma) if finalize else kA_gamma)
         self.matrices['kA'] = kA
 
         #NOTE memory cleanup
-- 
2.43.0


From ccf9044f2fa5e741496eb196aedcf4182e02ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 14/44] fix: Shell.calc_cA called a missing function and
 returned nothing

---
 panels/shell.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index a196693..ded2c3d 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -723,11 +723,14 @@ class Shell(object):
         r"""Calculate the aerodynamic damping matrix using the piston theory
         """
         msg('Calculating cA... ', level=2, silent=silent)
+        self._rebuild()
 
         if size is None:
             size = self.get_size()
-        matrices_num = modelDB.db[self.model]['matrices_num']
-        cA = matrices_num.fcA(aeromu, self, size, 0, 0)
+        elif isinstance(size, str):
+            size = int(size) + self.get_size()
+        matrices = modelDB.db[self.model]['matrices']
+        cA = matrices.fcA(aeromu, self, size, 0, 0)
         cA = cA*(0+1j)
 
         if finalize:
@@ -739,6 +742,8 @@ class Shell(object):
 
         msg('finished!', level=2, silent=silent)
 
+        return cA
+
 
     def uvw(self, c, xs=None, ys=None, gridx=300, gridy=300):
         r"""Calculate the displacement field
-- 
2.43.0


From 7609a9383faf65806d8c8c90df9618a60d9f8cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 15/44] fix: save() truncated the existing file before failing
 to pickle the object

---
 panels/shell.py                       | 4 +++-
 panels/stiffpanelbay/stiffpanelbay.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index ded2c3d..fa0c850 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1262,6 +1262,8 @@ class Shell(object):
 
         self._clear_matrices()
 
+        #NOTE an existing file is only touched if the object can be pickled
+        data = pickle.dumps(self, protocol=pickle.HIGHEST_PROTOCOL)
         with open(name, 'wb') as f:
-            pickle.dump(self, f, protocol=pickle.HIGHEST_PROTOCOL)
+            f.write(data)
 
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 0d44397..781d7bb 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1423,8 +1423,10 @@ class StiffPanelBay(object):
 
         self._clear_matrices()
 
+        #NOTE an existing file is only touched if the object can be pickled
+        data = pickle.dumps(self, protocol=pickle.HIGHEST_PROTOCOL)
         with open(name, 'wb') as f:
-            pickle.dump(self, f, protocol=pickle.HIGHEST_PROTOCOL)
+            f.write(data)
 
 
     def calc_fext(self, silent=False):
-- 
2.43.0


From 5c795be756629707ab3074e5a78ab1be69de21e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 16/44] fix: distributed loads under-integrated with m or n
 below 4 (nx and ny integration points are now used)

---
 panels/shell_fext.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/panels/shell_fext.py b/panels/shell_fext.py
index 87dfc95..6c95643 100644
--- a/panels/shell_fext.py
+++ b/panels/shell_fext.py
@@ -63,9 +63,9 @@ def shell_fext(shell, inc, size, col0):
         if x is None:
             ycte = y
             # getting integration points and weights
-            points = np.zeros(shell.m, dtype=np.float64)
-            weights = np.zeros(shell.m, dtype=np.float64)
-            get_points_weights(shell.m, points, weights)
+            points = np.zeros(shell.nx, dtype=np.float64)
+            weights = np.zeros(shell.nx, dtype=np.float64)
+            get_points_weights(shell.nx, points, weights)
             # integrating g(x,ycte)*s(x,ycte)*dx = sum(weight_i * ( (a/2) * g(xvar, ycte) * s(xvar, ycte) ))
             for xi, weight in zip(points, weights):
                 xvar = (xi + 1)*shell.a/2
@@ -75,9 +75,9 @@ def shell_fext(shell, inc, size, col0):
         else:
             xcte = x
             # getting integration points and weights
-            points = np.zeros(shell.n, dtype=np.float64)
-            weights = np.zeros(shell.n, dtype=np.float64)
-            get_points_weights(shell.n, points, weights)
+            points = np.zeros(shell.ny, dtype=np.float64)
+            weights = np.zeros(shell.ny, dtype=np.float64)
+            get_points_weights(shell.ny, points, weights)
             # integrating g(xcte,y)*s(xcte,y)*dy = sum(weight_i * ( (b/2) * g(xcte, yvar) * s(xcte, yvar) ))
             for eta, weight in zip(points, weights):
                 yvar = (eta + 1)*shell.b/2
@@ -141,9 +141,9 @@ def shell_fext(shell, inc, size, col0):
             ycte = y
             # getting integration points and weights
                 # Integration over x so m terms
-            points = np.zeros(shell.m, dtype=np.float64)
-            weights = np.zeros(shell.m, dtype=np.float64)
-            get_points_weights(shell.m, points, weights)
+            points = np.zeros(shell.nx, dtype=np.float64)
+            weights = np.zeros(shell.nx, dtype=np.float64)
+            get_points_weights(shell.nx, points, weights)
                 # Addresses of points and weights get passed -- ftn def uses pointers so changes the address so no return arg
             # integrating g(x,ycte)*s(x,ycte)*dx = sum(weight_i * ( (a/2) * g(xvar, ycte) * s(xvar, ycte) ))
             for xi, weight in zip(points, weights):
@@ -160,9 +160,9 @@ def shell_fext(shell, inc, size, col0):
         else: 
             xcte = x
             # getting integration points and weights
-            points = np.zeros(shell.n, dtype=np.float64)
-            weights = np.zeros(shell.n, dtype=np.float64)
-            get_points_weights(shell.n, points, weights)
+            points = np.zeros(shell.ny, dtype=np.float64)
+            weights = np.zeros(shell.ny, dtype=np.float64)
+            get_points_weights(shell.ny, points, weights)
             for eta, weight in zip(points, weights):
                 yvar = (eta + 1)*shell.b/2
                 fpt = np.array([[funcu(yvar), funcv(yvar), funcw(yvar), 0, 0]]) * inc_i
-- 
2.43.0


From cffda0f4eaa162fb07dd59932a59721d4edf5929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 17/44] fix: MultiDomain fields and the SB_TSL connection
 needed a previous stiffness calculation

---
 panels/multidomain/multidomain.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index cf6c9a7..343ab29 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -388,6 +388,8 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild()
+            panel.r = panel.r if panel.r is not None else 0.
             model = panel.model
             fuvw = modelDB.db[model]['field'].fuvw
             x, y, shape = default_field(panel, gridx, gridy)
@@ -442,6 +444,8 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild()
+            panel.r = panel.r if panel.r is not None else 0.
             model = panel.model
             # In panels\panels\models - for plates, clpt_bardell_field
             fstrain = modelDB.db[model]['field'].fstrain
@@ -500,6 +504,8 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild()
+            panel.r = panel.r if panel.r is not None else 0.
             model = panel.model
             fstrain = modelDB.db[model]['field'].fstrain
             x, y, shape = default_field(panel, gridx, gridy)
@@ -568,6 +574,8 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild()
+            panel.r = panel.r if panel.r is not None else 0.
             model = panel.model
             fuvw = modelDB.db[model]['field'].fuvw
             
@@ -636,6 +644,8 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild()
+            panel.r = panel.r if panel.r is not None else 0.
             model = panel.model
             # In panels\panels\models - for plates, clpt_bardell_field
             fstrain = modelDB.db[model]['field'].fstrain
@@ -703,6 +713,8 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild()
+            panel.r = panel.r if panel.r is not None else 0.
             model = panel.model
             fstrain = modelDB.db[model]['field'].fstrain
             
@@ -870,6 +882,8 @@ class MultiDomain(object):
             elif connection_function == 'SB_TSL':
                 tsl_type = connecti['tsl_type']
                 kt = connections.calc_kw_tsl(pA, pB, tsl_type)
+                pA._rebuild()
+                pB._rebuild()
                 dsb = sum(pA.plyts)/2. + sum(pB.plyts)/2.
                 kC_conn += connections.kCSB.fkCSB11(kt, dsb, pA,
                         size, row0=pA.row_start, col0=pA.col_start)
-- 
2.43.0


From b9ffb5dc2cd6848395fdb116f160e70d98354bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 18/44] fix: BladeStiff1D failed without a flange and ignored
 the base thickness in the flange inertia

---
 panels/stiffener/bladestiff1d.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 015c9ec..d95a228 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -71,11 +71,14 @@ class BladeStiff1D(object):
             self.flam = laminated_plate(self.fstack, plyts=self.fplyts, laminaprops=self.flaminaprops)
             self.flam.calc_equivalent_properties()
 
+        self.panel1._rebuild()
+        self.panel2._rebuild()
         h = 0.5*sum(self.panel1.plyts) + 0.5*sum(self.panel2.plyts)
         hb = 0.
         bay = self.bay
         if self.bstack is not None:
             hb = sum(self.bplyts)
+            self.hb = hb
             y1 = self.ys - self.bb/2.
             y2 = self.ys + self.bb/2.
             self.base = Shell(a=bay.a, b=bay.b, r=bay.r,
@@ -92,9 +95,10 @@ class BladeStiff1D(object):
             self.Asb = self.bb*hb
 
         #TODO check offset effect on curved panels
-        self.dbf = self.bf/2. + hb + h/2.
-        self.Iyy = self.hf*self.bf**3/12.
-        self.Jxx = self.hf*self.bf**3/12. + self.bf*self.hf**3/12.
+        bf = self.bf if self.bf is not None else 0.
+        self.dbf = bf/2. + hb + h/2.
+        self.Iyy = self.hf*bf**3/12.
+        self.Jxx = self.hf*bf**3/12. + bf*self.hf**3/12.
 
         Asb = self.Asb if self.Asb is not None else 0.
         Asf = self.Asf if self.Asf is not None else 0.
-- 
2.43.0


From a8a4341575389a6866624cef40e159fefb6945e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 19/44] fix: BladeStiff1D kM had twice the coupling of u, v
 with the rotations of the flange

---
 .../stiffener/models/bladestiff1d_clt_donnell_bardell.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx b/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
index 9b56860..15197b4 100644
--- a/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
+++ b/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
@@ -233,7 +233,7 @@ def fkMf(double ys, double rho, double h, double hb, double hf, double a,
                         c += 1
                         kMfr[c] = row+0
                         kMfc[c] = col+2
-                        kMfv[c] += 2*bf*df*fAufBwxi*gAu*gBw*hf*rho
+                        kMfv[c] += bf*df*fAufBwxi*gAu*gBw*hf*rho
                         c += 1
                         kMfr[c] = row+1
                         kMfc[c] = col+1
@@ -241,15 +241,15 @@ def fkMf(double ys, double rho, double h, double hb, double hf, double a,
                         c += 1
                         kMfr[c] = row+1
                         kMfc[c] = col+2
-                        kMfv[c] += 2*a*bf*df*fAvfBw*gAv*gBweta*hf*rho/b
+                        kMfv[c] += a*bf*df*fAvfBw*gAv*gBweta*hf*rho/b
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+0
-                        kMfv[c] += 2*bf*df*fAwxifBu*gAw*gBu*hf*rho
+                        kMfv[c] += bf*df*fAwxifBu*gAw*gBu*hf*rho
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+1
-                        kMfv[c] += 2*a*bf*df*fAwfBv*gAweta*gBv*hf*rho/b
+                        kMfv[c] += a*bf*df*fAwfBv*gAweta*gBv*hf*rho/b
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+2
-- 
2.43.0


From 78420b8b8a41d3fd3bdefe527b32465459c1e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 20/44] fix: BladeStiff2D used base offset with h=0 for panels
 defined with plyt, and ignored c in kG

---
 panels/stiffener/bladestiff2d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index f4d0c50..393cfcc 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -89,9 +89,12 @@ class BladeStiff2D(object):
             self.flange.lam.calc_equivalent_properties()
 
         if self.base is not None:
+            self.panel1._rebuild()
+            self.panel2._rebuild()
             h = 0.5*sum(self.panel1.plyts) + 0.5*sum(self.panel2.plyts)
             hb = sum(self.bplyts)
             self.dpb = h/2. + hb/2.
+            self.base.offset = -h/2.-hb/2.
             self.base.lam = laminated_plate(self.bstack, plyts=self.bplyts,
                                             laminaprops=self.blaminaprops,
                                             offset=(-h/2.-hb/2.))
@@ -182,7 +185,7 @@ class BladeStiff2D(object):
             pass
         if self.flange is not None:
             kG += self.flange.calc_kG(size=size, row0=row0, col0=col0,
-                    silent=True, finalize=False, NLgeom=NLgeom)
+                    silent=True, finalize=False, c=c, NLgeom=NLgeom)
 
         if finalize:
             kG = finalize_symmetric_matrix(kG)
-- 
2.43.0


From 0f7d2ad9fa1854c19b2e9e4641dd1cc415c56cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 21/44] fix: StiffPanelBay.uvw_skin and uvw_stiffener failed
 with given grids and more than one stiffener

---
 panels/stiffpanelbay/stiffpanelbay.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 781d7bb..07f90b1 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -214,11 +214,14 @@ class StiffPanelBay(object):
             The size of the stiffness matrices.
 
         """
+        if self.model is None:
+            self._rebuild()
         dofs = panelmDB.db[self.model]['dofs']
         self.size = dofs*self.m*self.n
 
         for s in self.bladestiff2ds:
-            self.size += s.flange.get_size()
+            if s.flange is not None:
+                self.size += s.flange.get_size()
 
         for s in self.tstiff2ds:
             self.size += s.base.get_size() + s.flange.get_size()
@@ -844,9 +847,8 @@ class StiffPanelBay(object):
         b = self.b
 
         if xs is None or ys is None:
-            xs, ys, xshape, yshape = self._default_field(xs, a, ys, b, gridx, gridy)
-        else:
-            xshape = xs.shape
+            xs, ys = None, None
+        xs, ys, xshape, yshape = self._default_field(xs, a, ys, b, gridx, gridy)
 
         if c.shape[0] == self.get_size():
             dofs = panelmDB.db[self.model]['dofs']
@@ -922,13 +924,12 @@ class StiffPanelBay(object):
         row_init = dofs*self.m*self.n
 
         # getting array position
-        for i, s in enumerate(self.stiffeners):
-            if i > 0:
-                s_1 = self.stiffeners[i-1]
-                if isinstance(s, BladeStiff2D):
-                    row_init += s_1.get_size()
-            if i == si:
+        #NOTE same order used in the assembly, only flanges have their own DOFs
+        for s in self.bladestiff2ds:
+            if s is stiff:
                 break
+            if s.flange is not None:
+                row_init += s.flange.get_size()
 
         if region.lower() == 'flange':
             bstiff = stiff.flange.b
@@ -945,9 +946,8 @@ class StiffPanelBay(object):
             raise ValueError('c must be the full vector of Ritz constants')
 
         if xs is None or ys is None:
-            xs, ys, xshape, yshape = self._default_field(xs, self.a, ys, bstiff, gridx, gridy)
-        else:
-            xshape = xs.shape
+            xs, ys = None, None
+        xs, ys, xshape, yshape = self._default_field(xs, self.a, ys, bstiff, gridx, gridy)
 
         if region.lower() == 'flange':
             fuvw = panelmDB.db[s.flange.model]['field'].fuvw
-- 
2.43.0


From 85c942a77a1ec5a1a98514ed6b0b66e13b877d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 22/44] fix: StiffPanelBay.calc_fext always failed (shape of g
 and forces of the flanges)

---
 panels/stiffpanelbay/stiffpanelbay.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 07f90b1..4c2377d 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1443,33 +1443,36 @@ class StiffPanelBay(object):
             The external force vector
 
         """
+        self._rebuild()
         msg('Calculating external forces...', level=2, silent=silent)
         dofs = panelmDB.db[self.model]['dofs']
         fg = panelmDB.db[self.model]['field'].fg
 
         # punctual forces on skin
         size = dofs*self.m*self.n
-        g = np.zeros((3, size), dtype=DOUBLE)
+        g = np.zeros((5, size), dtype=DOUBLE)
         fext_skin = np.zeros(size, dtype=DOUBLE)
         for i, force in enumerate(self.forces_skin):
             x, y, fx, fy, fz = force
-            fg(g, x, y, self)
+            fg(g, x, y, self.panels[0])
 
-            fpt = np.array([[fx, fy, fz]])
+            fpt = np.array([[fx, fy, fz, 0., 0.]])
             fext_skin += fpt.dot(g).ravel()
 
         fext = fext_skin
         # punctual forces on bladestiff2ds
         # flange
         for s in self.bladestiff2ds:
+            if s.flange is None:
+                continue
             fg_flange = panelmDB.db[s.flange.model]['field'].fg
             size = s.flange.get_size()
-            g_flange = np.zeros((3, size), dtype=DOUBLE)
+            g_flange = np.zeros((5, size), dtype=DOUBLE)
             fext_stiffener = np.zeros(size, dtype=DOUBLE)
-            for i, force in enumerate(s.flange.forces):
+            for i, force in enumerate(s.forces_flange):
                 xf, yf, fx, fy, fz = force
                 fg_flange(g_flange, xf, yf, s.flange)
-                fpt = np.array([[fx, fy, fz]])
+                fpt = np.array([[fx, fy, fz, 0., 0.]])
                 fext_stiffener += fpt.dot(g_flange).ravel()
 
             fext = np.concatenate((fext, fext_stiffener))
-- 
2.43.0


From 2dd2c0b10adebdf48e3cb87f6fc22c3d584e27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 23/44] fix: StiffPanelBay.calc_kA used the first panel only,
 with a wrong size, and calc_cA always failed

---
 panels/stiffpanelbay/stiffpanelbay.py | 117 +++++++++++---------------
 1 file changed, 47 insertions(+), 70 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 4c2377d..46e0d0e 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -696,56 +696,55 @@ class StiffPanelBay(object):
         return kM
 
 
+    def _piston_theory(self):
+        r"""Aerodynamic constants `\beta, \gamma, \mu` of the Piston theory
+        """
+        if self.beta is not None:
+            return (self.beta,
+                    self.gamma if self.gamma is not None else 0.,
+                    self.aeromu if self.aeromu is not None else 0.)
+        Mach = self.Mach
+        if Mach < 1:
+            raise ValueError('Mach number must be >= 1')
+        elif Mach == 1:
+            Mach = 1.0001
+        beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
+        gamma = 0.
+        if self.r:
+            gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
+        aeromu = 0.
+        if self.speed_sound is not None:
+            aeromu = beta/(Mach*self.speed_sound)*(Mach**2 - 2)/(Mach**2 - 1)
+        return beta, gamma, aeromu
+
+
     def calc_kA(self, silent=False):
         self._rebuild()
         msg('Calculating kA... ', level=2, silent=silent)
-        a = self.a
-        b = self.b
-        r = self.r if self.r is not None else 0.
-        m = self.m
-        n = self.n
-
-        if self.beta is None:
-            if self.Mach < 1:
-                raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
-            Mach = self.Mach
-            beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
-            if r != 0.:
-                gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
-            else:
-                gamma = 0.
-            ainf = self.speed_sound
-            aeromu = beta/(Mach*ainf)*(Mach**2 - 2)/(Mach**2 - 1)
-        else:
-            beta = self.beta
-            gamma = self.gamma if self.gamma is not None else 0.
-            aeromu = self.aeromu if self.aeromu is not None else 0.
+        size = self.get_size()
+        beta, gamma, aeromu = self._piston_theory()
 
         # contributions from panels
         #TODO summing up coo_matrix objects may be slow!
-        #FIXME this only works if the first panel represent the full
-        #      stiffpanelbay domain (mainly integration interval, boundary
-        #      conditions)
-        p = self.panels[0]
-        #FIXME the initialization below looks terrible
-        #      we should move as quick as possible to the strategy of using
-        #      classes more to carry data, avoiding these intrincated methods
-        #      shared among classes... (calc_kC, calc_kG etc)
-        p.flow = self.flow
-        p.Mach = self.Mach
-        p.rho_air = self.rho_air
-        p.speed_sound = self.speed_sound
-        p.size = self.size
-        p.V = self.V
-        p.r = self.r
-        p.calc_kA(silent=True, finalize=False)
-        kA = p.matrices['kA']
-
-        assert np.any(np.isnan(kA.data)) == False
-        assert np.any(np.isinf(kA.data)) == False
-        kA = csr_matrix(make_skew_symmetric(kA))
+        #NOTE the part proportional to beta is skew-symmetric, and the part
+        #     proportional to gamma is symmetric
+        kA_beta = 0.
+        kA_gamma = 0.
+        for p in self.panels:
+            given = p.flow, p.beta, p.gamma
+            try:
+                p.flow = self.flow
+                p.beta, p.gamma = beta, 0.
+                kA_beta += p.calc_kA(size=size, silent=True, finalize=False)
+                p.beta, p.gamma = 0., gamma
+                kA_gamma += p.calc_kA(size=size, silent=True, finalize=False)
+            finally:
+                p.flow, p.beta, p.gamma = given
+
+        assert np.any(np.isnan(kA_beta.data)) == False
+        assert np.any(np.isinf(kA_beta.data)) == False
+        kA = csr_matrix(make_skew_symmetric(kA_beta))
+        kA = kA + finalize_symmetric_matrix(kA_gamma)
         self.kA = kA
 
         #NOTE forcing Python garbage collector to clean the memory
@@ -761,34 +760,12 @@ class StiffPanelBay(object):
     def calc_cA(self, silent=False):
         self._rebuild()
         msg('Calculating cA... ', level=2, silent=silent)
-        a = self.a
-        b = self.b
-        r = self.r
-        m = self.m
-        n = self.n
         size = self.get_size()
+        beta, gamma, aeromu = self._piston_theory()
 
-        if self.beta is None:
-            if self.Mach < 1:
-                raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
-            Mach = self.Mach
-            beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
-            gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
-            ainf = self.speed_sound
-            aeromu = beta/(Mach*ainf)*(Mach**2 - 2)/(Mach**2 - 1)
-        else:
-            beta = self.beta
-            gamma = self.gamma if self.gamma is not None else 0.
-            aeromu = self.aeromu if self.aeromu is not None else 0.
-
-        # contributions from panels
-        p = self.panels[0]
-        p.calc_cA(size=size, row0=0, col0=0, silent=silent)
-        cA = p.matrices['cA']
-
-        cA = finalize_symmetric_matrix(cA)
+        #NOTE Shell.calc_cA always integrates the full domain (a, b), which is
+        #     the same for all panels
+        cA = self.panels[0].calc_cA(aeromu, size=size, silent=silent)
         self.cA = cA
 
         #NOTE forcing Python garbage collector to clean the memory
-- 
2.43.0


From 38d37f3cf079140c8c3abb58f3ea744ccddccf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 24/44] fix: more than 30 terms were silently zero in the
 matrices and overran the buffers of the fields

---
 panels/shell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/shell.py b/panels/shell.py
index fa0c850..c06a20b 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -249,6 +249,8 @@ class Shell(object):
 
 
     def _rebuild(self):
+        if max(self.m, self.n) > 30:
+            raise ValueError('m and n must be 30 or less, the number of approximation functions implemented')
         self.nx = max(self.nx, self.m)
         self.ny = max(self.ny, self.n)
         # deriving again what was not given by the user
-- 
2.43.0


From 0bbca34436d858249552e3c699c99cad604a9c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 25/44] fix: integration with 1 or more than 64 points silently
 gave zero (no tabulated Gauss points)

---
 panels/core/src/legendre_gauss_quadrature.cpp | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/panels/core/src/legendre_gauss_quadrature.cpp b/panels/core/src/legendre_gauss_quadrature.cpp
index 2fc26e2..e64d72d 100644
--- a/panels/core/src/legendre_gauss_quadrature.cpp
+++ b/panels/core/src/legendre_gauss_quadrature.cpp
@@ -1,5 +1,7 @@
 // Legendre-Gauss Quadrature Points and Weights
 
+#include <math.h>
+
 #if defined(_WIN32) || defined(__WIN32__)
   #define EXPORTIT __declspec(dllexport)
 #else
@@ -4292,5 +4294,28 @@ EXPORTIT void leggauss_quad(int n, double *points, double *weights) {
         weights[62] = 0.00414703326056246763528753572855141531330281925368480246;
         weights[63] = 0.00178328072169643294729607914497193317995934727192795567;
         return;
+    default:
+        // not tabulated, Newton-Raphson using the recurrence of Legendre's
+        // polynomials
+        for (int i = 0; i < n; i++) {
+            double x = -cos(3.14159265358979323846*(i + 0.75)/(n + 0.5));
+            double dp = 0.;
+            for (int it = 0; it < 100; it++) {
+                double p0 = 1., p1 = x;
+                for (int k = 2; k <= n; k++) {
+                    double p2 = ((2*k - 1)*x*p1 - (k - 1)*p0)/k;
+                    p0 = p1;
+                    p1 = p2;
+                }
+                dp = n*(x*p1 - p0)/(x*x - 1.);
+                double dx = p1/dp;
+                x -= dx;
+                if (fabs(dx) < 1.e-15)
+                    break;
+            }
+            points[i] = x;
+            weights[i] = 2./((1. - x*x)*dp*dp);
+        }
+        return;
     }
 }
-- 
2.43.0


From 83b6558ec70f128e257fbe05ed981dbe85a9851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 26/44] fix: MultiDomain used outdated positions of panels
 after m or n changed or after using them in another assembly

---
 panels/multidomain/multidomain.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 343ab29..086d5ef 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -82,10 +82,15 @@ class MultiDomain(object):
         self.panels = panels
         self.size = None
         self.out_num_cores = 4
-        row0 = 0
-        col0 = 0
         for p in panels:
             assert isinstance(p, Shell) # Check if its Shell obj
+        self._number_panels()
+
+
+    def _number_panels(self):
+        row0 = 0
+        col0 = 0
+        for p in self.panels:
             # This actually modifies the shell obj (i.e. passed panels)
             p.row_start = row0 # 1st panel starts at 0,0. Rest start at end of last matrix  --- Assembly of Kp_i from the paper
             p.col_start = col0
@@ -99,6 +104,8 @@ class MultiDomain(object):
         '''
         Size of K of a single panel
         '''
+        #NOTE m, n or the assembly using the panels may have changed
+        self._number_panels()
         self.size = sum([3*p.m*p.n for p in self.panels])
         return self.size
 
@@ -382,6 +389,7 @@ class MultiDomain(object):
         stored as parameters with the same name in the ``Shell`` object.
 
         """
+        self._number_panels()
         res = dict(x=[], y=[], u=[], v=[], w=[], phix=[], phiy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -437,6 +445,7 @@ class MultiDomain(object):
         """
         
         # res = results
+        self._number_panels()
         res = dict(x=[], y=[], exx=[], eyy=[], gxy=[], kxx=[], kyy=[], kxy=[])
         for panel in self.panels:
             # If that panel's (in the MD assembly) group is not whose strain u want, skip it
@@ -498,6 +507,7 @@ class MultiDomain(object):
             ``(x, y, Nxx, Nyy, Nxy, Mxx, Myy, Mxy)``.
 
         """
+        self._number_panels()
         res = dict(x=[], y=[], Nxx=[], Nyy=[], Nxy=[], Mxx=[], Myy=[], Mxy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -568,6 +578,7 @@ class MultiDomain(object):
         stored as parameters with the same name in the ``Shell`` object.
 
         """
+        self._number_panels()
         res = dict(x=[], y=[], u=[], v=[], w=[], phix=[], phiy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -637,6 +648,7 @@ class MultiDomain(object):
         
         
         # res = results
+        self._number_panels()
         res = dict(x=[], y=[], exx=[], eyy=[], gxy=[], kxx=[], kyy=[], kxy=[])
         for panel in self.panels:
             # If that panel's (in the MD assembly) group is not whose strain u want, skip it
@@ -707,6 +719,7 @@ class MultiDomain(object):
             ``(x, y, Nxx, Nyy, Nxy, Mxx, Myy, Mxy)``.
 
         """
+        self._number_panels()
         res = dict(x=[], y=[], Nxx=[], Nyy=[], Nxy=[], Mxx=[], Myy=[], Mxy=[])
         for panel in self.panels:
             if panel.group != group:
-- 
2.43.0


From 5ff7d6ccf2e5e70108701ce597116dc38766d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 27/44] fix: MultiDomain without connections (empty list)
 failed in get_kC_conn

---
 panels/multidomain/multidomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 086d5ef..3c944b8 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -791,7 +791,7 @@ class MultiDomain(object):
 
         size = self.get_size()
 
-        kC_conn = 0.
+        kC_conn = csr_matrix((size, size), dtype=DOUBLE)
 
         # Looping through each connection pair
         for connecti in conn:
-- 
2.43.0


From 22f59ef32f8b4c630772d8518ea008cfde9bbeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 28/44] fix: MultiDomain.calc_fint failed because
 Shell.calc_fint returned a memoryview instead of an array

---
 panels/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index c06a20b..8ef701d 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1241,7 +1241,7 @@ class Shell(object):
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
 
         c = np.ascontiguousarray(c, dtype=DOUBLE)
-        fint = calc_fint(c, ABDnxny, self, size, col0, nx, ny)
+        fint = np.asarray(calc_fint(c, ABDnxny, self, size, col0, nx, ny))
 
         gc.collect()
 
-- 
2.43.0


From 6b160a1532e8e447d59b8ca7e7ef6015af1a8c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 29/44] fix: Shell.get_size failed before the first calculation
 when model is not given

---
 panels/shell.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 8ef701d..b65e279 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -242,6 +242,13 @@ class Shell(object):
         gc.collect()
 
 
+    def _default_model(self):
+        if not self.r: #NOTE r = 0. when set by the methods below
+            return 'plate_clpt_donnell_bardell'
+        else:
+            return 'cylshell_clpt_donnell_bardell'
+
+
     def _derive(self, name, value):
         # attribute that will follow the attributes it was derived from
         setattr(self, name, value)
@@ -261,10 +268,7 @@ class Shell(object):
         self._auto = {}
 
         if self.model is None:
-            if not self.r: #NOTE r = 0. when set by the methods below
-                self._derive('model', 'plate_clpt_donnell_bardell')
-            else:
-                self._derive('model', 'cylshell_clpt_donnell_bardell')
+            self._derive('model', self._default_model())
 
         valid_models = sorted(modelDB.db.keys())
 
@@ -323,7 +327,10 @@ class Shell(object):
             obtained by the :method:`.Shell.get_size`
 
         """
-        dofs = modelDB.db[self.model]['dofs']
+        model = self.model
+        if model is None: #NOTE before the first calculation
+            model = self._default_model()
+        dofs = modelDB.db[model]['dofs']
         self.size = dofs*self.m*self.n
         return self.size
 
-- 
2.43.0


From bfda8a3536c617b36df2841160e6b0d8f4bbbeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:52 +0000
Subject: [PATCH 30/44] fix: a save interrupted while writing destroyed the
 existing file

---
 panels/shell.py                       | 6 ++++--
 panels/stiffpanelbay/stiffpanelbay.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index b65e279..9e49f7b 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1,4 +1,5 @@
 import gc
+import os
 import pickle
 from multiprocessing import cpu_count
 
@@ -1271,8 +1272,9 @@ class Shell(object):
 
         self._clear_matrices()
 
-        #NOTE an existing file is only touched if the object can be pickled
+        #NOTE an existing file is only replaced by a complete one
         data = pickle.dumps(self, protocol=pickle.HIGHEST_PROTOCOL)
-        with open(name, 'wb') as f:
+        with open(name + '.tmp', 'wb') as f:
             f.write(data)
+        os.replace(name + '.tmp', name)
 
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 46e0d0e..406b19f 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1,4 +1,5 @@
 import gc
+import os
 import pickle
 from multiprocessing import cpu_count
 
@@ -1400,10 +1401,11 @@ class StiffPanelBay(object):
 
         self._clear_matrices()
 
-        #NOTE an existing file is only touched if the object can be pickled
+        #NOTE an existing file is only replaced by a complete one
         data = pickle.dumps(self, protocol=pickle.HIGHEST_PROTOCOL)
-        with open(name, 'wb') as f:
+        with open(name + '.tmp', 'wb') as f:
             f.write(data)
+        os.replace(name + '.tmp', name)
 
 
     def calc_fext(self, silent=False):
-- 
2.43.0


From 45ad30366edb9e07f13c4821eff39afc838dd789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 31/44] fix: StiffPanelBay.save always failed with panels
 (Shell has no attribute kC)

---
 panels/stiffpanelbay/stiffpanelbay.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 406b19f..3f97d0f 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -133,9 +133,7 @@ class StiffPanelBay(object):
         self.Ys = None
 
         for panel in self.panels:
-            panel.kC = None
-            panel.kM = None
-            panel.kG = None
+            panel._clear_matrices()
 
         for s in self.bladestiff1ds:
             s.kC = None
-- 
2.43.0


From 55f008e181702cb344025c9d60896d67e0730f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 32/44] fix: load looked for the wrong file when the extension
 appeared elsewhere in the name

---
 panels/shell.py                       | 2 +-
 panels/stiffpanelbay/stiffpanelbay.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 9e49f7b..97b0278 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -19,7 +19,7 @@ DOUBLE = np.float64
 
 
 def load(name):
-    if '.Shell' in name:
+    if name.endswith('.Shell'):
         return pickle.load(open(name, 'rb'))
     else:
         return pickle.load(open(name + '.Shell', 'rb'))
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 3f97d0f..20959bf 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -17,7 +17,7 @@ DOUBLE = np.float64
 
 
 def load(name):
-    if '.StiffPanelBay' in name:
+    if name.endswith('.StiffPanelBay'):
         return pickle.load(open(name, 'rb'))
     else:
         return pickle.load(open(name + '.StiffPanelBay', 'rb'))
-- 
2.43.0


From bb03e3342405c849aeb848d4498fa18c0a84d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 33/44] fix: kA was completed as skew-symmetric, wrong for
 panels with free or connected edges crossed by the flow

---
 .../cylshell_clpt_donnell_bardell_num.pyx     | 10 +++------
 .../models/plate_clpt_donnell_bardell_num.pyx | 22 ++++++-------------
 panels/multidomain/tstiff2d_1stiff_flutter.py |  3 +--
 panels/shell.py                               | 13 +++--------
 panels/stiffpanelbay/stiffpanelbay.py         | 20 ++++++-----------
 5 files changed, 21 insertions(+), 47 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell_num.pyx b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
index 2939b5f..30bc1fe 100644
--- a/panels/models/cylshell_clpt_donnell_bardell_num.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
@@ -536,7 +536,7 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
     cdef long [::1] kAr, kAc
     cdef double [::1] kAv
 
-    cdef double fAw, fAwxi, fBw, gAw, gBw
+    cdef double fAw, fBw, fBwxi, gAw, gBw
     cdef double xi, eta, weight
     cdef double xi1, xi2, eta1, eta2
 
@@ -610,10 +610,10 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                 c = -1
                 for i in range(m):
                     fAw = f(i, xi, x1w, x1wr, x2w, x2wr)
-                    fAwxi = fp(i, xi, x1w, x1wr, x2w, x2wr)
 
                     for k in range(m):
                         fBw = f(k, xi, x1w, x1wr, x2w, x2wr)
+                        fBwxi = fp(k, xi, x1w, x1wr, x2w, x2wr)
 
                         for j in range(n):
                             gAw = f(j, eta, y1w, y1wr, y2w, y2wr)
@@ -623,17 +623,13 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 row = row0 + DOF*(j*m + i)
                                 col = col0 + DOF*(l*m + k)
 
-                                #NOTE symmetry assumption True if no follower forces are used
-                                if row > col:
-                                    continue
-
                                 gBw = f(l, eta, y1w, y1wr, y2w, y2wr)
 
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kAr[c] = row+2
                                     kAc[c] = col+2
-                                kAv[c] += weight*( 0.25*intx*inty*(fAw*fBw*gAw*gBw*gamma - 2*beta*fAwxi*fBw*gAw*gBw/a) )
+                                kAv[c] += weight*( 0.25*intx*inty*(fAw*fBw*gAw*gBw*gamma + 2*beta*fAw*fBwxi*gAw*gBw/a) )
 
     kAx = coo_matrix((kAv, (kAr, kAc)), shape=(size, size))
 
diff --git a/panels/models/plate_clpt_donnell_bardell_num.pyx b/panels/models/plate_clpt_donnell_bardell_num.pyx
index 65f7ee9..7eb604c 100644
--- a/panels/models/plate_clpt_donnell_bardell_num.pyx
+++ b/panels/models/plate_clpt_donnell_bardell_num.pyx
@@ -722,7 +722,7 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
     cdef long [::1] kAr, kAc
     cdef double [::1] kAv
 
-    cdef double fAw, fAwxi, fBw, gAw, gBw
+    cdef double fAw, fBw, fBwxi, gAw, gBw
     cdef double xi, eta, weight
     cdef double xi1, xi2, eta1, eta2
 
@@ -796,10 +796,10 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                 c = -1
                 for i in range(m):
                     fAw = f(i, xi, x1w, x1wr, x2w, x2wr)
-                    fAwxi = fp(i, xi, x1w, x1wr, x2w, x2wr)
 
                     for k in range(m):
                         fBw = f(k, xi, x1w, x1wr, x2w, x2wr)
+                        fBwxi = fp(k, xi, x1w, x1wr, x2w, x2wr)
 
                         for j in range(n):
                             gAw = f(j, eta, y1w, y1wr, y2w, y2wr)
@@ -809,17 +809,13 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 row = row0 + DOF*(j*m + i)
                                 col = col0 + DOF*(l*m + k)
 
-                                #NOTE symmetry assumption True if no follower forces are used
-                                if row > col:
-                                    continue
-
                                 gBw = f(l, eta, y1w, y1wr, y2w, y2wr)
 
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kAr[c] = row+2
                                     kAc[c] = col+2
-                                kAv[c] += weight*( 0.25*intx*inty*(fAw*fBw*gAw*gBw*gamma - 2*beta*fAwxi*fBw*gAw*gBw/a) )
+                                kAv[c] += weight*( 0.25*intx*inty*(fAw*fBw*gAw*gBw*gamma + 2*beta*fAw*fBwxi*gAw*gBw/a) )
 
     kAx = coo_matrix((kAv, (kAr, kAc)), shape=(size, size))
 
@@ -838,7 +834,7 @@ def fkAy_num(object shell, int size, int row0, int col0, int nx, int ny):
     cdef long [::1] kAr, kAc
     cdef double [::1] kAv
 
-    cdef double fAw, fBw, gAweta, gBw
+    cdef double fAw, fBw, gAw, gBweta
     cdef double xi, eta, weight
     cdef double xi1, xi2, eta1, eta2
 
@@ -916,24 +912,20 @@ def fkAy_num(object shell, int size, int row0, int col0, int nx, int ny):
                         fBw = f(k, xi, x1w, x1wr, x2w, x2wr)
 
                         for j in range(n):
-                            gAweta = fp(j, eta, y1w, y1wr, y2w, y2wr)
+                            gAw = f(j, eta, y1w, y1wr, y2w, y2wr)
 
                             for l in range(n):
 
                                 row = row0 + DOF*(j*m + i)
                                 col = col0 + DOF*(l*m + k)
 
-                                #NOTE symmetry assumption True if no follower forces are used
-                                if row > col:
-                                    continue
-
-                                gBw = f(l, eta, y1w, y1wr, y2w, y2wr)
+                                gBweta = fp(l, eta, y1w, y1wr, y2w, y2wr)
 
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kAr[c] = row+2
                                     kAc[c] = col+2
-                                kAv[c] += weight*( -0.5*beta*fAw*fBw*gAweta*gBw*intx*inty/b )
+                                kAv[c] += weight*( 0.5*beta*fAw*fBw*gAw*gBweta*intx*inty/b )
 
     kAy = coo_matrix((kAv, (kAr, kAc)), shape=(size, size))
 
diff --git a/panels/multidomain/tstiff2d_1stiff_flutter.py b/panels/multidomain/tstiff2d_1stiff_flutter.py
index 8d61feb..4d92903 100644
--- a/panels/multidomain/tstiff2d_1stiff_flutter.py
+++ b/panels/multidomain/tstiff2d_1stiff_flutter.py
@@ -1,7 +1,6 @@
 import numpy as np
 from scipy.sparse import csr_matrix
 
-from structsolve.sparseutils import make_skew_symmetric
 from structsolve import freq, static
 
 from panels.shell import Shell
@@ -343,7 +342,7 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
 
     assert np.any(np.isnan(kA.data)) == False
     assert np.any(np.isinf(kA.data)) == False
-    kA = csr_matrix(make_skew_symmetric(kA))
+    kA = csr_matrix(kA)
 
     eigvals, eigvecs = freq((k0 + kG + kA), kM, tol=0, sparse_solver=True, silent=True,
              num_eigvalues=25, num_eigvalues_print=5)
diff --git a/panels/shell.py b/panels/shell.py
index 97b0278..7aadcac 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -9,7 +9,7 @@ from scipy.sparse.linalg import eigs, eigsh
 from scipy.linalg import eig
 from numpy import linspace, deg2rad
 from composites import laminated_plate
-from structsolve.sparseutils import remove_null_cols, make_skew_symmetric, finalize_symmetric_matrix
+from structsolve.sparseutils import remove_null_cols, finalize_symmetric_matrix
 
 from .logger import msg, warn
 from . import modelDB
@@ -698,14 +698,9 @@ class Shell(object):
 
         given = self.beta, self.gamma
         try:
-            #NOTE the skew-symmetric part, proportional to beta, and the
-            #     symmetric part, proportional to gamma, are kept apart
-            self.beta, self.gamma = beta, 0.
+            self.beta, self.gamma = beta, -gamma
             if self.flow.lower() == 'x':
                 kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
-                if gamma != 0.:
-                    self.beta, self.gamma = 0., -gamma
-                    kA_gamma = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
             elif self.flow.lower() == 'y':
                 kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
             else:
@@ -716,9 +711,7 @@ class Shell(object):
         if finalize:
             assert np.any(np.isnan(kA.data)) == False
             assert np.any(np.isinf(kA.data)) == False
-            kA = csr_matrix(make_skew_symmetric(kA))
-        if gamma != 0. and self.flow.lower() == 'x':
-            kA = kA + (finalize_symmetric_matrix(kA_gamma) if finalize else kA_gamma)
+            kA = csr_matrix(kA)
         self.matrices['kA'] = kA
 
         #NOTE memory cleanup
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 20959bf..36698b8 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -6,7 +6,7 @@ from multiprocessing import cpu_count
 import numpy as np
 from scipy.sparse import csr_matrix
 from numpy import linspace, reshape
-from structsolve.sparseutils import finalize_symmetric_matrix, make_skew_symmetric
+from structsolve.sparseutils import finalize_symmetric_matrix
 
 from panels.logger import msg
 from panels import Shell, modelDB as panelmDB
@@ -725,25 +725,19 @@ class StiffPanelBay(object):
 
         # contributions from panels
         #TODO summing up coo_matrix objects may be slow!
-        #NOTE the part proportional to beta is skew-symmetric, and the part
-        #     proportional to gamma is symmetric
-        kA_beta = 0.
-        kA_gamma = 0.
+        kA = 0.
         for p in self.panels:
             given = p.flow, p.beta, p.gamma
             try:
                 p.flow = self.flow
-                p.beta, p.gamma = beta, 0.
-                kA_beta += p.calc_kA(size=size, silent=True, finalize=False)
-                p.beta, p.gamma = 0., gamma
-                kA_gamma += p.calc_kA(size=size, silent=True, finalize=False)
+                p.beta, p.gamma = beta, gamma
+                kA += p.calc_kA(size=size, silent=True, finalize=False)
             finally:
                 p.flow, p.beta, p.gamma = given
 
-        assert np.any(np.isnan(kA_beta.data)) == False
-        assert np.any(np.isinf(kA_beta.data)) == False
-        kA = csr_matrix(make_skew_symmetric(kA_beta))
-        kA = kA + finalize_symmetric_matrix(kA_gamma)
+        assert np.any(np.isnan(kA.data)) == False
+        assert np.any(np.isinf(kA.data)) == False
+        kA = csr_matrix(kA)
         self.kA = kA
 
         #NOTE forcing Python garbage collector to clean the memory
-- 
2.43.0


From fd911bc72b4c5733c8ab4512ea4c7f4d444983ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 34/44] fix: cylinder_spla always failed (wrong arguments of
 Analysis, no NLgeom in MultiDomain.calc_kC and calc_kG)

---
 panels/multidomain/cylinder.py    |  4 ++--
 panels/multidomain/multidomain.py | 15 +++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 2f8a4df..9ed3cc2 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -226,8 +226,8 @@ def cylinder_spla(height, r, stack, plyt, laminaprop,
     p_spla.add_point_load(p_spla.a/2, p_spla.b/2, 0, 0, -SPLA, cte=True)
 
     assy.conn = conns
-    analysis = Analysis(assy.calc_fext, assy.calc_kC, assy.calc_fint,
-            assy.calc_kT)
+    analysis = Analysis(calc_fext=assy.calc_fext, calc_fint=assy.calc_fint,
+            calc_kC=assy.calc_kC, calc_kG=assy.calc_kG)
     analysis.NL_method = 'NR'
     analysis.modified_NR = False
     analysis.line_search = False
diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 3c944b8..578c4d3 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -917,7 +917,8 @@ class MultiDomain(object):
         return kC_conn
 
 
-    def calc_kC(self, conn=None, c=None, silent=False, finalize=True, inc=1.):
+    def calc_kC(self, conn=None, c=None, silent=False, finalize=True, inc=1.,
+            NLgeom=False):
         """Calculate the constitutive stiffness matrix of the assembly
         --- this is kP (made by diagonally assemblying kP_i from the MD paper)
 
@@ -937,6 +938,9 @@ class MultiDomain(object):
             symmetric, should be ``False`` when assemblying.
         inc : float, optional
             Dummy argument needed for non-linear analyses.
+        NLgeom : bool, optional
+            Flag to indicate if the geometrically non-linear terms of each
+            panel should be included.
 
         """
         size = self.get_size()
@@ -950,7 +954,7 @@ class MultiDomain(object):
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             # Calc Kc per panel (from the Shell class)
             kC += p.calc_kC(c=c, row0=p.row_start, col0=p.col_start, size=size,
-                    silent=silent, finalize=False) 
+                    silent=silent, finalize=False, NLgeom=NLgeom)
 
         # Make the matrix symm at the end
         if finalize:
@@ -966,7 +970,7 @@ class MultiDomain(object):
         return kC
 
 
-    def calc_kG(self, c=None, silent=False, finalize=True):
+    def calc_kG(self, c=None, silent=False, finalize=True, NLgeom=False):
         """Calculate the geometric stiffness matrix of the assembly
 
         Parameters
@@ -980,6 +984,9 @@ class MultiDomain(object):
         finalize : bool, optional
             Asserts validity of output data and makes the output matrix
             symmetric, should be ``False`` when assemblying.
+        NLgeom : bool, optional
+            Flag to indicate if the geometrically non-linear terms of each
+            panel should be included.
 
         """
         size = self.get_size()
@@ -992,7 +999,7 @@ class MultiDomain(object):
             if p.row_start is None or p.col_start is None:
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             kG += p.calc_kG(c=c, row0=p.row_start, col0=p.col_start, size=size,
-                            silent=silent, finalize=False)
+                            silent=silent, finalize=False, NLgeom=NLgeom)
         if finalize:
             kG = finalize_symmetric_matrix(kG)
         self.kG = kG
-- 
2.43.0


From 8ae4e919afa6fdeae4ca36e1f4cb0eeb3c5265d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 35/44] fix: loads of the T-stiffened assemblies became zero
 after the static analysis (late binding of p.Nxx), with the opposite sign

---
 panels/multidomain/tstiff2d_1stiff_compression.py | 4 ++--
 panels/multidomain/tstiff2d_1stiff_flutter.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/panels/multidomain/tstiff2d_1stiff_compression.py b/panels/multidomain/tstiff2d_1stiff_compression.py
index 1f6d7c7..67700c8 100644
--- a/panels/multidomain/tstiff2d_1stiff_compression.py
+++ b/panels/multidomain/tstiff2d_1stiff_compression.py
@@ -329,10 +329,10 @@ def tstiff2d_1stiff_compression(a, b, ys, bb, bf, defect_a, rho, plyt,
     if run_static_case:
         fext = np.zeros(size)
         for p in [p07, p08, p09, p14, p15]:
-            p.add_distr_load_fixed_x(0, lambda y: p.Nxx, None, None)
+            p.add_distr_load_fixed_x(0, lambda y, Nxx=p.Nxx: -Nxx, None, None)
             fext[p.col_start: p.col_end] = p.calc_fext(silent=True)
 
-        incs, cs = static(k0, -fext, silent=True)
+        incs, cs = static(k0, fext, silent=True)
         c = cs[0]
         for p in panels:
             p.Nxx = 0.
diff --git a/panels/multidomain/tstiff2d_1stiff_flutter.py b/panels/multidomain/tstiff2d_1stiff_flutter.py
index 4d92903..1cb5882 100644
--- a/panels/multidomain/tstiff2d_1stiff_flutter.py
+++ b/panels/multidomain/tstiff2d_1stiff_flutter.py
@@ -320,10 +320,10 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
         if not (Nxx_skin is None and Nxx_base is None and Nxx_flange is None):
             fext = np.zeros(size)
             for p in [p07, p08, p09, p14, p15]:
-                p.add_distr_load_fixed_x(0, lambda y: p.Nxx, None, None)
+                p.add_distr_load_fixed_x(0, lambda y, Nxx=p.Nxx: -Nxx, None, None)
                 fext[p.col_start: p.col_end] = p.calc_fext(silent=True)
 
-            incs, cs = static(k0, -fext, silent=True)
+            incs, cs = static(k0, fext, silent=True)
             c = cs[0]
         for p in panels:
             p.Nxx = 0.
-- 
2.43.0


From cac4ba7f2b37d4e86df464da7c3b00e9cdd80b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 36/44] fix: tstiff2d_1stiff_flutter failed when some of its
 optional loads were not given

---
 panels/multidomain/tstiff2d_1stiff_flutter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/panels/multidomain/tstiff2d_1stiff_flutter.py b/panels/multidomain/tstiff2d_1stiff_flutter.py
index 1cb5882..6912b76 100644
--- a/panels/multidomain/tstiff2d_1stiff_flutter.py
+++ b/panels/multidomain/tstiff2d_1stiff_flutter.py
@@ -131,6 +131,10 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
     nb = n if nb is None else nb
     mf = m if mf is None else mf
     nf = n if nf is None else nf
+    has_load = not (Nxx_skin is None and Nxx_base is None and Nxx_flange is None)
+    Nxx_skin = 0. if Nxx_skin is None else Nxx_skin
+    Nxx_base = 0. if Nxx_base is None else Nxx_base
+    Nxx_flange = 0. if Nxx_flange is None else Nxx_flange
     # skin panels
     p01 = Shell(group='skin', Nxx=Nxx_skin, x0=alow+defect, y0=ys+bb/2., a=aup, b=bleft, r=r, m=m, n=n, plyt=plyt, stack=stack_skin, laminaprop=laminaprop, rho=rho, rho_air=rho_air, speed_sound=speed_sound, Mach=Mach, V=air_speed, flow=flow)
     p02 = Shell(group='skin', Nxx=Nxx_skin, x0=alow+defect, y0=ys-bb/2., a=aup, b=bb, r=r, m=m, n=n, plyt=plyt, stack=stack_skin, laminaprop=laminaprop, rho=rho, rho_air=rho_air, speed_sound=speed_sound, Mach=Mach, V=air_speed, flow=flow)
@@ -317,7 +321,7 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
     k0 = assy.calc_kC(valid_conn)
     c = None
     if run_static_case:
-        if not (Nxx_skin is None and Nxx_base is None and Nxx_flange is None):
+        if has_load:
             fext = np.zeros(size)
             for p in [p07, p08, p09, p14, p15]:
                 p.add_distr_load_fixed_x(0, lambda y, Nxx=p.Nxx: -Nxx, None, None)
-- 
2.43.0


From 8fb440490ece6529b428f2726737dec1d5b304fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 37/44] fix: refuse Ritz constants too short for the fields and
 the internal force

uvw, strain, stress and calc_fint read outside of a too short vector of Ritz
constants, and calc_fint wrote outside of a result with a too small size.
---
 panels/models/clpt_bardell_field.pyx | 8 ++++++++
 panels/shell.py                      | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index b310687..1c74779 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -51,6 +51,10 @@ def fuvw(double [::1] c, object s, double [::1] xs, double [::1] ys,
     cdef double [:, ::1] us, vs, ws, phixs, phiys
     cdef double [:, ::1] xs_core, ys_core
 
+    if c.shape[0] < 3*m*n:
+        raise ValueError('"c" must have the size given by the number of terms')
+    if xs.shape[0] != ys.shape[0]:
+        raise ValueError('xs and ys must have the same size')
     size = xs.shape[0]
     add_size = num_cores - (size % num_cores)
     if add_size == num_cores:
@@ -139,6 +143,10 @@ def fstrain(double [::1] c, object s, double [::1] xs, double [::1] ys, int
     cdef double [:, ::1] exxs, eyys, gxys, kxxs, kyys, kxys
     cdef double [:, ::1] xs_core, ys_core
 
+    if c.shape[0] < 3*m*n:
+        raise ValueError('"c" must have the size given by the number of terms')
+    if xs.shape[0] != ys.shape[0]:
+        raise ValueError('xs and ys must have the same size')
     size = xs.shape[0]
     add_size = num_cores - (size % num_cores)
     if add_size == num_cores:
diff --git a/panels/shell.py b/panels/shell.py
index 7aadcac..82b8412 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1242,6 +1242,9 @@ class Shell(object):
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
 
         c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, size)
+        if col0 < 0 or col0 + self.get_size() > size:
+            raise ValueError('The internal force vector does not fit in the given size')
         fint = np.asarray(calc_fint(c, ABDnxny, self, size, col0, nx, ny))
 
         gc.collect()
-- 
2.43.0


From f429c119a7a881116536367959db4bc899b16b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 38/44] fix: refuse laminates with different numbers of angles,
 thicknesses and materials

The plies without a counterpart in all the lists were silently dropped from
the laminate.
---
 panels/shell.py                  | 3 +++
 panels/stiffener/bladestiff1d.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/panels/shell.py b/panels/shell.py
index 82b8412..4fbc0fa 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -293,6 +293,9 @@ class Shell(object):
                 raise ValueError('plyt must be defined')
             self._derive('plyts', [self.plyt for i in self.stack])
 
+        if not (len(self.stack) == len(self.plyts) == len(self.laminaprops) == len(self.rhos)):
+            raise ValueError('stack, plyts, laminaprops and rhos must have the same number of plies')
+
         if self.stack is not None:
             lam = laminated_plate(stack=self.stack, plyts=self.plyts,
                                       laminaprops=self.laminaprops,
diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index d95a228..66f15bb 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -66,6 +66,8 @@ class BladeStiff1D(object):
         assert self.panel1.r == self.panel2.r
 
         if self.fstack is not None:
+            if not (len(self.fstack) == len(self.fplyts) == len(self.flaminaprops)):
+                raise ValueError('fstack, fplyts and flaminaprops must have the same number of plies')
             self.hf = sum(self.fplyts)
             self.Asf = self.bf*self.hf
             self.flam = laminated_plate(self.fstack, plyts=self.fplyts, laminaprops=self.flaminaprops)
-- 
2.43.0


From aee7644417fb220605f5e741af8e5f5b7471e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 39/44] fix: do not keep connections that were refused

---
 panels/multidomain/multidomain.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 578c4d3..c688c60 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -785,9 +785,6 @@ class MultiDomain(object):
             if self.conn is None:
                 raise RuntimeError('No connectivity dictionary defined!')
             conn = self.conn
-        else:
-            # keeping for later calls (e.g. calc_fint, calc_kT)
-            self.conn = conn
 
         size = self.get_size()
 
@@ -911,6 +908,8 @@ class MultiDomain(object):
 
         if finalize:
             kC_conn = finalize_symmetric_matrix(kC_conn)
+        # keeping for later calls (e.g. calc_fint, calc_kT)
+        self.conn = conn
         self.kC_conn = kC_conn
         #NOTE memory cleanup
         gc.collect()
-- 
2.43.0


From 108623a87eaa639e463b8ac652b1fb31ecd88b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 40/44] fix: plot_shell ignored NLgeom when plotting strains

---
 panels/plot_shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/plot_shell.py b/panels/plot_shell.py
index a164724..3c0bc10 100644
--- a/panels/plot_shell.py
+++ b/panels/plot_shell.py
@@ -107,7 +107,7 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
     if vec in displs:
         shell.uvw(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
     elif vec in strains:
-        shell.strain(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
+        shell.strain(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy, NLgeom=NLgeom)
     elif vec in stresses:
         shell.stress(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy, NLgeom=NLgeom)
     else:
-- 
2.43.0


From 1afd328269eebde47619a235999ab431b223e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 41/44] fix: plots moved the points of the fields calculated
 before

plot_shell left the points of the plot with the fields of before; plot_skin and
plot_stiffener moreover displaced them with deform_u=True.
---
 panels/plot_shell.py                  |  8 +++++---
 panels/stiffpanelbay/stiffpanelbay.py | 18 ++++++++++++++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/panels/plot_shell.py b/panels/plot_shell.py
index 3c0bc10..be9b642 100644
--- a/panels/plot_shell.py
+++ b/panels/plot_shell.py
@@ -99,6 +99,7 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
     msg('Plotting contour...')
 
     fields_bkp = deepcopy(shell.fields)
+    plot_mesh_bkp = deepcopy(shell.plot_mesh)
 
     msg('Computing field variables...', level=1)
     displs = ['u', 'v', 'w', 'phix', 'phiy']
@@ -207,9 +208,10 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
                     bbox_inches='tight', pad_inches=0.05, dpi=dpi)
         plt.close()
 
-    for k, v in fields_bkp.items():
-        if v is not None:
-            shell.fields[k] = v
+    if plot_mesh_bkp['Xs'] is not None:
+        # the fields calculated before the plot, at their own points
+        shell.fields.update(fields_bkp)
+        shell.plot_mesh.update(plot_mesh_bkp)
 
     msg('finished!')
 
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 36698b8..a81f2af 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1038,6 +1038,7 @@ class StiffPanelBay(object):
 
         ubkp, vbkp, wbkp, phixbkp, phiybkp = (self.u, self.v, self.w,
                                               self.phix, self.phiy)
+        Xsbkp, Ysbkp = self.Xs, self.Ys
 
         import matplotlib
         import matplotlib.pyplot as plt
@@ -1075,8 +1076,8 @@ class StiffPanelBay(object):
             else:
                 raise ValueError('ax must be an Axes object')
 
-        x = Ys
-        y = Xs
+        x = Ys.copy()
+        y = Xs.copy()
 
         if deform_u:
             if vec in displs:
@@ -1148,6 +1149,10 @@ class StiffPanelBay(object):
             self.phix = phixbkp
         if phiybkp is not None:
             self.phiy = phiybkp
+        if Xsbkp is not None:
+            self.Xs = Xsbkp
+        if Ysbkp is not None:
+            self.Ys = Ysbkp
 
         msg('finished!', silent=silent)
 
@@ -1260,6 +1265,7 @@ class StiffPanelBay(object):
 
         ubkp, vbkp, wbkp, phixbkp, phiybkp = (self.u, self.v, self.w,
                                               self.phix, self.phiy)
+        Xsbkp, Ysbkp = self.Xs, self.Ys
 
         import matplotlib.pyplot as plt
         import matplotlib
@@ -1298,8 +1304,8 @@ class StiffPanelBay(object):
             else:
                 raise ValueError('ax must be an Axes object')
 
-        x = Ys
-        y = Xs
+        x = Ys.copy()
+        y = Xs.copy()
 
         if deform_u:
             if vec in displs:
@@ -1372,6 +1378,10 @@ class StiffPanelBay(object):
             self.phix = phixbkp
         if phiybkp is not None:
             self.phiy = phiybkp
+        if Xsbkp is not None:
+            self.Xs = Xsbkp
+        if Ysbkp is not None:
+            self.Ys = Ysbkp
 
         msg('finished!', silent=silent)
 
-- 
2.43.0


From e44f24fdcfbc227b802564c4c9344c2b5ec6ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:09 +0000
Subject: [PATCH 42/44] fix: load functions that are false as truth values were
 refused

np.poly1d of degree 0 is falsy (its length is its degree), and add_distr_load
of such a constant load raised ValueError; only None means no function.
---
 panels/shell.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 4fbc0fa..e7e14a0 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -945,7 +945,7 @@ class Shell(object):
             analysis.
 
         """
-        if not any((funcx, funcy, funcz)):
+        if all(func is None for func in (funcx, funcy, funcz)):
             raise ValueError('At least one function must be different than None')
         if cte:
             self.distr_loads.append([x, None, funcx, funcy, funcz])
@@ -968,7 +968,7 @@ class Shell(object):
             analysis.
 
         """
-        if not any((funcx, funcy, funcz)):
+        if all(func is None for func in (funcx, funcy, funcz)):
             raise ValueError('At least one function must be different than None')
         if cte:
             self.distr_loads.append([None, y, funcx, funcy, funcz])
@@ -1027,7 +1027,7 @@ class Shell(object):
         """
         if not any((ku, kv, kw)):
             raise ValueError('At least one penalty constant must be different than None')
-        if not any((funcu, funcv, funcw)):
+        if all(func is None for func in (funcu, funcv, funcw)):
             raise ValueError('At least one function must be different than None')
         # Force funtns = k * displ ftn
         new_funcu = None
@@ -1074,7 +1074,7 @@ class Shell(object):
         """
         if not any((ku, kv, kw)):
             raise ValueError('At least one penalty constant must be different than None')
-        if not any((funcu, funcv, funcw)):
+        if all(func is None for func in (funcu, funcv, funcw)):
             raise ValueError('At least one function must be different than None')
         new_funcu = None
         new_funcv = None
-- 
2.43.0


From 305e60f52ec82e43c4778acff1cb667fe2dcac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 43/44] fix: stiffened bays failed when only some of the flat
 strips had been calculated (r None or 0.)

---
 panels/stiffener/bladestiff1d.py | 2 +-
 panels/stiffener/bladestiff2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 66f15bb..6d222fd 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -63,7 +63,7 @@ class BladeStiff1D(object):
         assert self.panel1.model == self.panel2.model
         assert self.panel1.m == self.panel2.m
         assert self.panel1.n == self.panel2.n
-        assert self.panel1.r == self.panel2.r
+        assert (self.panel1.r or 0.) == (self.panel2.r or 0.) # None or 0. for flat panels
 
         if self.fstack is not None:
             if not (len(self.fstack) == len(self.fplyts) == len(self.flaminaprops)):
diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index 393cfcc..a92d3bb 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -82,7 +82,7 @@ class BladeStiff2D(object):
         assert self.panel1.model == self.panel2.model
         assert self.panel1.m == self.panel2.m
         assert self.panel1.n == self.panel2.n
-        assert self.panel1.r == self.panel2.r
+        assert (self.panel1.r or 0.) == (self.panel2.r or 0.) # None or 0. for flat panels
         if self.flange is not None:
             self.flange.lam = laminated_plate(self.flange.stack, plyts=self.flange.plyts,
                                             laminaprops=self.flange.laminaprops)
-- 
2.43.0


From 5bbad608d13f8f4ddb190bf2c56adff495fcbd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:29 +0000
Subject: [PATCH 44/44] fix: thickness or material given for a strip of a bay
 was ignored when the bay has a list of them

---
 panels/stiffpanelbay/stiffpanelbay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index a81f2af..7565343 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -504,9 +504,9 @@ class StiffPanelBay(object):
         p.model = model if model is not None else self.model
         p.stack = stack if stack is not None else self.stack
         p.plyt = plyt if plyt is not None else self.plyt
-        p.plyts = plyts if plyts is not None else self.plyts
+        p.plyts = plyts if plyts is not None or plyt is not None else self.plyts
         p.laminaprop = laminaprop if laminaprop is not None else self.laminaprop
-        p.laminaprops = laminaprops if laminaprops is not None else self.laminaprops
+        p.laminaprops = laminaprops if laminaprops is not None or laminaprop is not None else self.laminaprops
         p.rho = rho if rho is not None else self.rho
 
         for k, v in kwargs.items():
-- 
2.43.0

