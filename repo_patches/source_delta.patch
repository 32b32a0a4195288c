From 990494494c505003fc4acba559c52784743e10e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 01/69] fix: with_voltages restores the rf voltages when
 setting the dc voltages fails

---
 electrode/system.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index dd1af20..2099aec 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -166,17 +166,18 @@ class System(list):
         >>> with s.with_voltages(dcs=0*s.dcs, rfs=[0, 1]):
         ...     print(s.potential([0, 0, 1.]))
         """
+        dcs0, rfs0 = self.dcs, self.rfs
         try:
             if dcs is not None:
-                dcs, self.dcs = self.dcs, dcs
+                self.dcs = dcs
             if rfs is not None:
-                rfs, self.rfs = self.rfs, rfs
+                self.rfs = rfs
             yield
         finally:
             if dcs is not None:
-                self.dcs = dcs
+                self.dcs = dcs0
             if rfs is not None:
-                self.rfs = rfs
+                self.rfs = rfs0
 
     def electrical_potential(self, x, derivative=0, typ="dc", expand=False):
         """Electrical potential derivative.
-- 
2.43.0


From a2ab06d8f6757fb30d08a9d8e96bff5016bcf94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 02/69] fix: System.group keeps cover settings, accepts lists
 and thresholds=None, and gives empty groups zero voltage

---
 electrode/system.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 2099aec..593e6c7 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -831,8 +831,9 @@ class System(list):
         """
         if voltages is None:
             voltages = self.dcs
+        voltages = np.asarray(voltages)
         if thresholds is None:
-            threshold = sorted(np.unique(voltages))
+            thresholds = np.unique(voltages)
         ts = [-np.inf] + list(thresholds) + [np.inf]
         eles = []
         for i, (ta, tb) in enumerate(zip(ts[:-1], ts[1:])):
@@ -842,13 +843,17 @@ class System(list):
             paths = []
             dcs = []
             rfs = []
+            cover = {}
             for j in np.argwhere(good)[:, 0]:
                 el = self[j]
                 paths.extend(el.paths)
                 dcs.append(el.dc)
                 rfs.append(el.rf)
+                cover = dict(cover_nmax=el.cover_nmax,
+                        cover_height=el.cover_height)
             eles.append(PolygonPixelElectrode(paths=paths,
-                dc=np.mean(dcs), rf=np.mean(rfs)))
+                dc=np.mean(dcs) if dcs else 0.,
+                rf=np.mean(rfs) if rfs else 0., **cover))
         return System(eles)
 
     def mathieu(self, x, scale, r=2, sorted=True):
-- 
2.43.0


From 652cf6d707320db6bf8355edb0d7a7f19c3f47f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 03/69] fix: Grid.to_xyz and plot_contour work for grids with
 different numbers of points per axis

---
 electrode/grid.py   | 4 ++--
 electrode/system.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/electrode/grid.py b/electrode/grid.py
index 340d88c..02ecd0c 100644
--- a/electrode/grid.py
+++ b/electrode/grid.py
@@ -54,8 +54,8 @@ class Grid():
 
     def to_xyz(self):
         """ Create ndarrays of x, y, z"""
-        xyz = np.array([np.linspace(c-s*(h-1)/2., c+s*(h-1)/2.,h)
-                for c, s, h in zip(self.center, self.step, self.shape)])
+        xyz = [np.linspace(c-s*(h-1)/2., c+s*(h-1)/2.,h)
+                for c, s, h in zip(self.center, self.step, self.shape)]
         return xyz
 
     def indices_to_coordinates(self, idx):
diff --git a/electrode/system.py b/electrode/system.py
index 593e6c7..433fe24 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -426,7 +426,8 @@ class System(list):
         e3 = slc_at
         sec = {'x':[1,2],'y':[0,2],'z':[0,1]}
         coord = {'x':[2,0,1],'y':[0,2,1],'z':[0,1,2]}
-        xyz = grid.to_xyz()[sec[slc]]    # point arrays of the other two axes
+        xyz = grid.to_xyz()
+        xyz = [xyz[i] for i in sec[slc]]    # point arrays of the other two axes
         axis = coord[slc]
         pot = []
         for e2 in xyz[1]:
-- 
2.43.0


From 7a81fa2c22adb04f84a29921b7ba0f96c66034fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 04/69] fix: System.optimize keeps all objectives and reports
 contradictory ones

Dropping the last row of the objective equations lost that objective (or
left the equations singular) when it is not involved in the singular
direction, failed for a single objective, and contradictory objectives
gave a null result.
---
 electrode/system.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 433fe24..ea37d1f 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -795,12 +795,17 @@ class System(list):
         Bp = np.linalg.pinv(B, rcond=rcond)
         g = np.dot(Bp, b)
         g2 = np.inner(g, g)
+        if not (g2 > 0 and np.allclose(np.dot(B, g), b, rtol=0,
+                atol=1e-6*np.fabs(b).max())):
+            raise ValueError("objectives are zero or contradictory")
         B1 = B - np.outer(b, g)/g2 # B*g_perp
         obj = cvxopt.modeling.dot(cvxopt.matrix(g), p) # maximize this
-        #FIXME: there is one singular value, drop one line
-        B1 = B1[:-1]
+        # there is (at least) one singular value, use only the row space
+        _, w, B1 = np.linalg.svd(B1, full_matrices=False)
+        B1 = np.ascontiguousarray(B1[w > rcond*np.linalg.norm(B)])
         # B*g_perp*p == 0
-        ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
+        if len(B1):
+            ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
 
         solver = self._run_cvxopt(-obj, ctrs, verbose, **kwargs)
 
-- 
2.43.0


From b08bea7821a1bca674075bfd94fb9c100792e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 05/69] fix: System.shims zeroes additional objectives in every
 shim vector and restores their values

---
 electrode/system.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index ea37d1f..8910ede 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -689,16 +689,23 @@ class System(list):
         obj = [PotentialObjective(x=x, derivative=deriv, value=0,
             rotation=coord) for x, coord, deriv in x_coord_deriv]
         obj += objectives
+        values = [o.value for o in obj]
         if constraints is None:
             constraints = [PatternRangeConstraint(min=-1, max=1)]
         vectors = np.empty((len(obj), len(self)),
                 np.double)
-        for i, objective in enumerate(obj):
-            objective.value = 1
-            p, c = self.optimize(constraints+obj, verbose=False,
-                    **kwargs)
-            objective.value = 0
-            vectors[i] = p/c
+        try:
+            for objective in obj:
+                objective.value = 0
+            for i, objective in enumerate(obj):
+                objective.value = 1
+                p, c = self.optimize(constraints+obj, verbose=False,
+                        **kwargs)
+                objective.value = 0
+                vectors[i] = p/c
+        finally:
+            for objective, value in zip(obj, values):
+                objective.value = value
         return vectors
 
     def _run_cvxopt(self, obj, ctrs, verbose=True, **kwargs):
-- 
2.43.0


From 06e699f78ba6a102593da1d9341d773305d1407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 06/69] fix: System.solve minimises the local objectives of all
 configurations

---
 electrode/system.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 8910ede..bb36d6b 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -755,7 +755,11 @@ class System(list):
         ctrs = []
         for ci, vi in zip(local_constraints, variables):
             for cj in ci:
-                obj = sum(coef*val for coef, val in cj.objective(self, vi))
+                for coef, val in cj.objective(self, vi):
+                    if isinstance(coef, np.ndarray):
+                        coef = cvxopt.modeling.dot(cvxopt.matrix(
+                            np.ascontiguousarray(coef)), vi)
+                    obj += coef*val
                 ctrs.extend(cj.constraints(self, vi))
         for ci in global_constraints:
             obj += sum(coef*val for coef, val in ci.objective(self, variables))
-- 
2.43.0


From 91d362611da6da6b21deb6bce9517255494e81b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 07/69] fix: generalized Mathieu solver works with numpy
 without np.complex

---
 electrode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/utils.py b/electrode/utils.py
index 8fff71a..046ce89 100644
--- a/electrode/utils.py
+++ b/electrode/utils.py
@@ -568,7 +568,7 @@ def mathieu(r, *a):
       (see numpy.linalg.eig())
     """
     n = a[0].shape[0]
-    m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=np.complex)
+    m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=complex)
     for l in range(2*r+1):
         # derivative on the diagonal
         m[l, l, 0, 0] = m[l, l, 1, 1] = np.identity(n)*2j*(l-r)
-- 
2.43.0


From e7e2dea13d45b446770a67ecfe4fc35a8175ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 08/69] fix: Mathieu exponents of unbounded motion work with
 numpy without np.complex

---
 electrode/mathieu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index c1de6bb..9bdaf8f 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -33,7 +33,7 @@ class Mathieu():
         # print(d0)
         rhs = d0*np.sin(np.pi/2*np.sqrt(a))**2
         if rhs < 0 or rhs > 1:
-            nu = 2./np.pi*np.arcsinh(np.sqrt(np.complex(-rhs)))    # In fact, this is mu.
+            nu = 2./np.pi*np.arcsinh(np.sqrt(complex(-rhs)))    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
         else:
             nu = 2./np.pi*np.arcsin(np.sqrt(rhs))   # mu = j*nu
@@ -82,7 +82,7 @@ class Mathieu():
             t_eval = None
         sol = solve_ivp(func,[0.,np.pi],[1.,0.],method=method,t_eval=t_eval)
         if np.abs(sol.y[0,-1]) > 1.:
-            nu = np.arccosh(np.complex(sol.y[0,-1]))/np.pi    # In fact, this is mu.
+            nu = np.arccosh(complex(sol.y[0,-1]))/np.pi    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
         else:
             nu = np.arccos(sol.y[0,-1])/np.pi   # mu = j*nu
-- 
2.43.0


From 2024e38f42486c97b32a40acbc814d4b1653f69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 09/69] fix: SphericalHarmonics works with current numpy and
 samples exactly 2 nmax angles

---
 electrode/spherical_harmonics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index ed73be5..7f85f01 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -92,8 +92,8 @@ class SphericalHarmonics(object):
         self.theta = np.arccos(x)[:, None]
         # self.measure = np.sin(self.theta)
         self.weight = w[:, None]
-        self.phi = np.arange(0, 2 * np.pi, np.pi / nmax)[None, :]
-        self.n, self.m = np.empty((2, nmax, nmax), np.int)
+        self.phi = (np.arange(2 * nmax) * np.pi / nmax)[None, :]
+        self.n, self.m = np.empty((2, nmax, nmax), int)
         for n, m, p, q in self.indices():
             self.n[p, q], self.m[p, q] = n, m
         ptmn = np.array([special.lpmn(nmax - 1, nmax - 1, xi)[0] for xi in x])
@@ -101,7 +101,7 @@ class SphericalHarmonics(object):
         b = (2 * self.n + 1) / (4 * np.pi)
         b *= special.gamma(self.n - np.absolute(self.m) + 1)
         b /= special.gamma(self.n + np.absolute(self.m) + 1)
-        c = (-1) ** np.where(self.m < 0, self.m, 0)
+        c = (-1.) ** np.where(self.m < 0, self.m, 0)
         self.ptmn = np.sqrt(b) * c * ptmn[:, np.absolute(self.m), self.n]
         # prepare weighted and measured ptmn for analysis()
         self.ptmnw = self.ptmn * (self.weight[:, :, None] * np.pi / nmax)
-- 
2.43.0


From b8aaa90aa7588cfef886e90a93bbdfc0dc0b5b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:55 +0000
Subject: [PATCH 10/69] fix: System.minimum and saddle accept integer start
 points, saddle uses the same frame as minimum

---
 electrode/system.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index bb36d6b..cc74cad 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -511,7 +511,7 @@ class System(list):
         --------
         scipy.optimize.minimize
         """
-        x = np.array(x0)
+        x = np.array(x0, np.double)
         axis = list(axis)
         def f(xi):
             x[axis] = xi
@@ -559,7 +559,7 @@ class System(list):
         """
         kwargs = dict(dx_max=.1, xtol=1e-5, ftol=1e-5)
         kwargs.update(kw)
-        x = np.array(x0)
+        x = np.array(x0, np.double)
         axis = list(axis)
         def f(xi):
             x[axis] = xi
@@ -567,11 +567,11 @@ class System(list):
         def g(xi):
             x[axis] = xi
             return rotate_tensor(self.potential(np.dot(coord, x), 1),
-                    coord.T)[0, axis]
+                    coord)[0, axis]
         h = rotate_tensor(self.potential(np.dot(coord, x), 2),
-                coord.T)[0, axis][:, axis]
+                coord)[0, axis][:, axis]
         # rational function optimization
-        xs, p, ret = rfo(f, g, np.array(x0)[axis], h=h, **kwargs)
+        xs, p, ret = rfo(f, g, x[axis], h=h, **kwargs)
         if not ret in ("ftol", "xtol"):
             raise ValueError("%s", ((x0, axis, x, xs, p, ret),))
         # f(xs) # update x
-- 
2.43.0


From 8290454dcc3e0258c0049400ee98fcabdf583b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 11/69] fix: rfo does not divide by zero where the Hessian is
 exact

---
 electrode/saddle.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index 45531b8..bd54a46 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -79,12 +79,17 @@ def rfo(fun, grad, x0, args=(),
         df = fun(np.array(x + dx).ravel()) - f
         dg = np.matrix(grad(np.array(x + dx).ravel())).T - g
         dp = dg - h*dx
-        dh_powell = (dp*dx.T + dx*dp.T)/(dx.T*dx) - \
-                float(dp.T*dx)*(dx*dx.T)/(dx.T*dx)**2
-        dh_sr1 = (dp*dp.T)/(dp.T*dx)
-        phi = float((dp.T*dx)**2/((dp.T*dp)*(dx.T*dx)))
-        dh_bofill = phi*dh_sr1 + (1-phi)*dh_powell
-        dh = dh_bofill
+        if dp.any():
+            dh_powell = (dp*dx.T + dx*dp.T)/(dx.T*dx) - \
+                    float(dp.T*dx)*(dx*dx.T)/(dx.T*dx)**2
+            # phi*dh_sr1
+            dh_sr1 = float(dp.T*dx)*(dp*dp.T)/((dp.T*dp)*(dx.T*dx))
+            phi = float((dp.T*dx)**2/((dp.T*dp)*(dx.T*dx)))
+            dh_bofill = dh_sr1 + (1-phi)*dh_powell
+            dh = dh_bofill
+        else:
+            # the hessian reproduces the gradient exactly
+            dh = np.zeros_like(h)
 
         if 2.*np.linalg.norm(dx) <= xtol * (
                 np.linalg.norm(x+dx) + np.linalg.norm(x) + 1e-20):
-- 
2.43.0


From f88d6ed524977ecdc23a3b9680d5a963d20095c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 12/69] fix: rfo ftol convergence is not fooled by cancelling
 changes

---
 electrode/saddle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index bd54a46..d43dcd4 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -95,7 +95,9 @@ def rfo(fun, grad, x0, args=(),
                 np.linalg.norm(x+dx) + np.linalg.norm(x) + 1e-20):
             ret = "xtol"
 
-        if 2.*np.abs(df) <= ftol * (abs(f+df) + abs(f) + 1e-20):
+        # changes along the modes have different signs, do not let them cancel
+        dfl = max(np.abs(df), np.abs(gl*np.array(v.T*dx).ravel()).sum())
+        if 2.*dfl <= ftol * (abs(f+df) + abs(f) + 1e-20):
             ret = "ftol"
 
         if maxiter > 0 and it > maxiter:
-- 
2.43.0


From 6d6ada0b86285415588afee7bbdab688999d21ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 13/69] fix: System.trajectory accelerates ions down the
 potential and accepts lists

---
 electrode/system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index cc74cad..3bd91db 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -645,11 +645,11 @@ class System(list):
                 return integ_(ddx, nsteps, t, p, q, t1, methc,
                         *args, **kwargs)
         axis = list(axis)
-        t, p, q = t0, v0[axis], x0[axis]
-        x0 = np.array(x0)
+        x0 = np.array(x0, np.double)
+        t, p, q = t0, np.array(v0, np.double)[axis], x0[axis]
         def ddx(t, q, f):
             x0[axis] = q
-            f[:] = self.time_potential(x0, 1, t, expand=True)[0, axis]
+            f[:] = -self.time_potential(x0, 1, t, expand=True)[0, axis]
         while t < t1:
             integ(ddx, nsteps, t, p, q, t+dt, *args, **kwargs)
             t += dt
-- 
2.43.0


From aac20f2287d05c103159b4c9b5338fce49f2c9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 14/69] fix: analyze_static varies only the given axes

---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 3bd91db..1cb7ed6 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1016,7 +1016,7 @@ class System(list):
             trap = x
         else:
             # 'Nelder-Mead'/'Powell' don't use jac and hess, can avoid precision loss
-            trap = self.minimum(x+min_offset, method=min_method)
+            trap = self.minimum(x+min_offset, axis=axis, method=min_method)
         yield " minimum is at offset: %s" % (trap - x,)
         yield "                      (%s µm)" % ((trap - x)*l/1e-6,)
         p_dc = self.electrical_potential(x, 0, "dc")[0]
@@ -1025,7 +1025,7 @@ class System(list):
         yield " dc electrical: %.2g eV" % p_dc
         yield " rf pseudo: %.2g eV" % p_rf
         try:
-            xs, xsp = self.saddle(x + saddle_offset)    # 1e-2*x[2]
+            xs, xsp = self.saddle(x + saddle_offset, axis=axis)    # 1e-2*x[2]
             yield " saddle offset: %s" % (xs - x,)
             yield "               (%s µm)" % ((xs - x)*l/1e-6,)
             yield " saddle height: %.2g eV" % (xsp - (p_dc + p_rf))
-- 
2.43.0


From 9b241eb09fe17d84da9437320e58f754f1d8f6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 15/69] fix: System.saddle does not return minima or maxima

---
 electrode/system.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/electrode/system.py b/electrode/system.py
index 1cb7ed6..5b10606 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -575,6 +575,10 @@ class System(list):
         if not ret in ("ftol", "xtol"):
             raise ValueError("%s", ((x0, axis, x, xs, p, ret),))
         # f(xs) # update x
+        l = np.linalg.eigvalsh(rotate_tensor(self.potential(
+            np.dot(coord, x), 2), coord)[0, axis][:, axis])
+        if (l < -1e-9*np.abs(l).max()).sum() != 1:
+            raise ValueError("not a saddle point", x, l)
         return x, p
 
     def modes(self, x, sorted=True):
-- 
2.43.0


From 9f584d08454ff8f5fb0dad8fbaa50b17a65cf59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 16/69] fix: Mathieu.init_value returns both coefficients

---
 electrode/mathieu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 9bdaf8f..364f3f2 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -349,7 +349,7 @@ class Mathieu():
             den = self.sol_y1(t0,0)*self.sol_y2(t0,1)-self.sol_y1(t0,1)*self.sol_y2(t0,0)
             A = (y0[0]*self.sol_y2(t0,1)-y0[1]*self.sol_y2(t0,0))/den
             B = -(y0[0]*self.sol_y1(t0,1)-y0[1]*self.sol_y1(t0,0))/den
-            return np.array(A,B)
+            return np.array([A,B])
 
     def sol_plot():
         pass
\ No newline at end of file
-- 
2.43.0


From f851fcf6bb6655df8e0b2c4a2daf06c5ca889bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 17/69] fix: Mathieu.init_sol chooses the number of
 coefficients in all modes

---
 electrode/mathieu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 364f3f2..289902a 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -272,6 +272,8 @@ class Mathieu():
         else:
             raise ValueError("Invalid characteristic exponent mode.")
         if nc == None:
+            if mode != 'det':
+                nu_n = self.nu_tolerance(a,q,tol=tol_nu)[1]
             nc = nu_n
         self.Cn = self.coeff_Cn(a,q,self.nu,nc,ng)[0:2]
         return 0
-- 
2.43.0


From fb497c14c97e0b6ae340b9572e342808baf1357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 18/69] fix: Mathieu exponent from the determinant also for a
 <= 0

---
 electrode/mathieu.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 289902a..4458e2f 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -22,16 +22,20 @@ class Mathieu():
 
         """
         delta0 = np.zeros((2*ntr+1,2*ntr+1))
-        for n in range(ntr):
+        for n in range(1,ntr):
             delta0[n+ntr,n+ntr] = 1.
             delta0[n+ntr,n+ntr+1], delta0[n+ntr,n+ntr-1] = q/(4*n**2-a), q/(4*n**2-a)
             delta0[ntr-n,ntr-n] = 1.
             delta0[ntr-n,ntr-n+1], delta0[ntr-n,ntr-n-1] = q/(4*n**2-a), q/(4*n**2-a)
         delta0[0,0], delta0[ntr+ntr,ntr+ntr] = 1., 1.
         delta0[0,1], delta0[ntr+ntr,ntr+ntr-1] = q/(4*ntr**2-a), q/(4*ntr**2-a)
+        # the central row is multiplied by a so that a <= 0 is regular
+        delta0[ntr,ntr] = a
+        delta0[ntr,ntr+1], delta0[ntr,ntr-1] = -q, -q
         d0 = np.linalg.det(delta0)
         # print(d0)
-        rhs = d0*np.sin(np.pi/2*np.sqrt(a))**2
+        # sin(pi/2*sqrt(a))**2/a
+        rhs = d0*(np.pi/2*np.sinc(np.sqrt(complex(a))/2)).real**2
         if rhs < 0 or rhs > 1:
             nu = 2./np.pi*np.arcsinh(np.sqrt(complex(-rhs)))    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
-- 
2.43.0


From b7bf2f06a6fbcdb4ef7454442c4ef554ee27f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 19/69] fix: approximate Mathieu exponent for a < 0

---
 electrode/mathieu.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 4458e2f..81cf5b1 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -49,8 +49,9 @@ class Mathieu():
         Fast and precise.
 
         """
-        cosnu = np.cos(np.pi*np.sqrt(a)) \
-            + np.pi*q**2/(4*np.sqrt(a)*(a-1))*np.sin(np.pi*np.sqrt(a)) \
+        sa = np.sqrt(complex(a))    # imaginary for a < 0
+        cosnu = np.cos(np.pi*sa).real \
+            + (np.pi*q**2/(4*sa*(a-1))*np.sin(np.pi*sa)).real \
             + q**4*(np.pi**4/96.-25*np.pi**2/256.)
         return np.arccos(cosnu)/np.pi
 
-- 
2.43.0


From 7e69feccfcbaf858fc9516edc4be254e870da63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 20/69] fix: to_gds clips electrodes that fall apart or vanish
 at the edge

---
 electrode/polygons.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index b9796df..59c0600 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -382,14 +382,12 @@ class Polygons(list):
             props = {}
             if name:
                 props[self._attr_name] = name.encode("ascii")
-            if not hasattr(polys, "geoms"):
-                polys = [polys]
-            for poly in polys:
-                assert poly.is_valid, poly
-                if poly.is_empty:
+            assert polys.is_valid, polys
+            if edge:
+                polys = polys.intersection(field)
+            for poly in getattr(polys, "geoms", [polys]):
+                if not poly.area:
                     continue
-                if edge:
-                    poly = poly.intersection(field)
                 xy = np.array(poly.exterior.coords.xy).copy()
                 xy = xy.T[:, :2]*scale/phys_unit
                 if text_layer is not None and name:
-- 
2.43.0


From e7ef515ea6aa263cfe7edc3933065ab74a0936dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 21/69] fix: libraries from to_gds can be saved (integer
 coordinates)

---
 electrode/polygons.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 59c0600..94e09f2 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -389,17 +389,17 @@ class Polygons(list):
                 if not poly.area:
                     continue
                 xy = np.array(poly.exterior.coords.xy).copy()
-                xy = xy.T[:, :2]*scale/phys_unit
+                xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 if text_layer is not None and name:
                     p = elements.Text(layer=text_layer[0],
                                       text_type=text_layer[1], xy=xy[:1],
                                       string=name.encode("ascii"))
-                    p.properties = props.items()
+                    p.properties = list(props.items())
                     stru.append(p)
                 if poly_layer is not None:
                     p = elements.Boundary(layer=poly_layer[0],
                                           data_type=poly_layer[1], xy=xy)
-                    p.properties = props.items()
+                    p.properties = list(props.items())
                     stru.append(p)
                 gaps.append(poly.exterior)
                 gaps.extend(poly.interiors)
@@ -419,7 +419,7 @@ class Polygons(list):
             #    g = [g]
             for loop in g:
                 xy = np.array(loop.coords.xy).copy()
-                xy = xy.T[:, :2]*scale/phys_unit
+                xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 #xy = np.r_[xy, xy[:1]]
                 p = elements.Path(layer=gap_layer[0],
                                   data_type=gap_layer[1], xy=xy)
-- 
2.43.0


From a07557f8b9e497b5bf09453fd6349d22faf2c608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 22/69] fix: Polygons.filter has a default test for whole
 polygons as well

---
 electrode/polygons.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 94e09f2..c6c2aa6 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -555,9 +555,12 @@ class Polygons(list):
         Polygons
             Filtered output
         """
-        if test is None and deep:
+        if test is None:
             def test(name, boundary):
                 return abs(geometry.Polygon(boundary).area) > 1e-2
+            if not deep:
+                def test(name, poly):
+                    return poly.area > 1e-2
 
         p = Polygons()
         for ni, pi in self:
-- 
2.43.0


From 2f837445d3d02717f54a58457d539f8c887d328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 23/69] fix: Polygons.restrict keeps areas only

---
 electrode/polygons.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index c6c2aa6..7d3d564 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -681,7 +681,12 @@ class Polygons(list):
         """
         p = Polygons()
         for name, multipoly in self:
-            p.append((name, multipoly.intersection(geometry)))
+            pi = multipoly.intersection(geometry)
+            if pi.geom_type not in ("Polygon", "MultiPolygon"):
+                # drop the points and lines where they merely touch
+                pi = ops.unary_union([_ for _ in getattr(pi, "geoms", [pi])
+                                      if _.area])
+            p.append((name, pi))
         return p
 
     def within(self, edge=50):
-- 
2.43.0


From 91d0423f7d2cc5ea77e1243150f51dd95a9518ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 24/69] fix: Polygons.filter skips electrodes without area

---
 electrode/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 7d3d564..b62399f 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -569,7 +569,7 @@ class Polygons(list):
             if deep:
                 pe = []
                 for ppi in pi:
-                    if test(ni, ppi.exterior):
+                    if not ppi.is_empty and test(ni, ppi.exterior):
                         pe.append(geometry.Polygon(
                             ppi.exterior,
                             [_ for _ in ppi.interiors if test(ni, _)]))
-- 
2.43.0


From 22bf640f6f874adb983384a449becd6167a83f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 25/69] fix: Polygons.from_data works when polygons cover the
 whole square

---
 electrode/polygons.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index b62399f..28be3ae 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -323,6 +323,8 @@ class Polygons(list):
         if not gaps and not routes:
             field = []
         for i in field:
+            if i.is_empty:
+                continue
             # assume that buffer is much smaller than any relevant
             # distance and round coordinates to 10*buffer, then simplify
             i = [np.around(j.coords, int(-np.log10(buffer)-1)) for j in
-- 
2.43.0


From d4968be4d9a50d2b8269f3709b326902fdd7efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 26/69] fix: to_gds places the name of an electrode inside it,
 not on a vertex shared with others

---
 electrode/polygons.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 28be3ae..4636804 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -393,8 +393,11 @@ class Polygons(list):
                 xy = np.array(poly.exterior.coords.xy).copy()
                 xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 if text_layer is not None and name:
+                    # inside, as vertices may belong to the neighbors
+                    pt = np.array(poly.representative_point().coords.xy)
+                    pt = np.rint(pt.T[:, :2]*scale/phys_unit).astype(int)
                     p = elements.Text(layer=text_layer[0],
-                                      text_type=text_layer[1], xy=xy[:1],
+                                      text_type=text_layer[1], xy=pt,
                                       string=name.encode("ascii"))
                     p.properties = list(props.items())
                     stru.append(p)
-- 
2.43.0


From 2215067dcb5e7a25915ad6ab8967dbfd3fcacfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 27/69] fix: Polygons.from_data keeps areas only of polygons
 that touch the square

---
 electrode/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 4636804..f6f87a1 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -312,7 +312,7 @@ class Polygons(list):
             for poly in ops.polygonize([poly]):
                 assert poly.is_valid, poly
                 poly = geometry.polygon.orient(poly, 1)
-                poly = poly.intersection(field0)
+                (name, poly), = cls([(name, poly)]).restrict(field0)
                 fragments.append((name, poly))
                 field = field.difference(poly)
         if routes:
-- 
2.43.0


From aafe35437f0779fd201ce272ad16e52c7c99b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 28/69] fix: angle_between_vectors of parallel vectors is a
 number

---
 electrode/transformations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index 80d92a8..5cf8775 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1832,6 +1832,7 @@ def angle_between_vectors(v0, v1, directed=True, axis=0):
     v1 = numpy.array(v1, dtype=numpy.float64, copy=False)
     dot = numpy.sum(v0 * v1, axis=axis)
     dot /= vector_norm(v0, axis=axis) * vector_norm(v1, axis=axis)
+    dot = numpy.clip(dot, -1.0, 1.0)
     return numpy.arccos(dot if directed else numpy.fabs(dot))
 
 
-- 
2.43.0


From 16b10b3c7ba0acba736c26a238af453a4bdac22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 29/69] fix: projection_from_matrix recovers perspective
 projections onto planes through the origin

---
 electrode/transformations.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index 5cf8775..3b44246 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -554,9 +554,11 @@ def projection_from_matrix(matrix, pseudo=False):
     """
     M = numpy.array(matrix, dtype=numpy.float64, copy=False)
     M33 = M[:3, :3]
-    w, V = numpy.linalg.eig(M)
-    i = numpy.where(abs(numpy.real(w) - 1.0) < 1e-8)[0]
-    if not pseudo and len(i):
+    if not pseudo and vector_norm(M[3, :3]) < 1e-8:
+        w, V = numpy.linalg.eig(M)
+        i = numpy.where(abs(numpy.real(w) - 1.0) < 1e-8)[0]
+        if not len(i):
+            raise ValueError("no eigenvector corresponding to eigenvalue 1")
         # point: any eigenvector corresponding to eigenvalue 1
         point = numpy.real(V[:, i[-1]]).squeeze()
         point /= point[3]
@@ -580,16 +582,18 @@ def projection_from_matrix(matrix, pseudo=False):
             return point, direction, None, None, False
     else:
         # perspective projection
-        i = numpy.where(abs(numpy.real(w)) > 1e-8)[0]
-        if not len(i):
-            raise ValueError(
-                "no eigenvector not corresponding to eigenvalue 0")
-        point = numpy.real(V[:, i[-1]]).squeeze()
-        point /= point[3]
-        normal = - M[3, :3]
-        perspective = M[:3, 3] / numpy.dot(point[:3], normal)
+        scale = vector_norm(M[3, :3])
+        if scale < 1e-8:
+            raise ValueError("not a perspective projection")
+        M = M / scale
+        M33 = M[:3, :3]
+        normal = -M[3, :3]
+        # height of the perspective point above the plane
+        height = (numpy.trace(M33) + M[3, 3] + bool(pseudo)) / 3.0
+        perspective = height * normal - numpy.dot(M33, normal)
         if pseudo:
             perspective -= normal
+        point = (M[3, 3] - height) * normal
         return point, normal, None, perspective, pseudo
 
 
-- 
2.43.0


From 88c4e3e708560abc1ac9d793037701b1c415514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 30/69] fix: shear_from_matrix finds plane and direction
 accurately, also far from the origin

---
 electrode/transformations.py | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index 3b44246..51f34f4 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -696,32 +696,24 @@ def shear_from_matrix(matrix):
     """
     M = numpy.array(matrix, dtype=numpy.float64, copy=False)
     M33 = M[:3, :3]
-    # normal: cross independent eigenvectors corresponding to the eigenvalue 1
-    w, V = numpy.linalg.eig(M33)
-    i = numpy.where(abs(numpy.real(w) - 1.0) < 1e-4)[0]
-    if len(i) < 2:
+    # normal: the only direction that M33 - I does not map to zero
+    M33 = M33 - numpy.identity(3)
+    w, V = numpy.linalg.svd(M33)[1:]
+    if w[1] > 1e-4:
         raise ValueError("no two linear independent eigenvectors found %s" % w)
-    V = numpy.real(V[:, i]).squeeze().T
-    lenorm = -1.0
-    for i0, i1 in ((0, 1), (0, 2), (1, 2)):
-        n = numpy.cross(V[i0], V[i1])
-        w = vector_norm(n)
-        if w > lenorm:
-            lenorm = w
-            normal = n
-    normal /= lenorm
+    normal = V[0]
     # direction and angle
-    direction = numpy.dot(M33 - numpy.identity(3), normal)
+    direction = numpy.dot(M33, normal)
     angle = vector_norm(direction)
-    direction /= angle
+    # point: where the plane intersects its normal through the origin
+    point = numpy.array([0.0, 0.0, 0.0, 1.0])
+    if angle > 0.0:
+        direction /= angle
+        point[:3] -= numpy.dot(M[:3, 3], direction) / angle * normal
+    else:
+        # no shear, any direction in the plane
+        direction = V[1]
     angle = math.atan(angle)
-    # point: eigenvector corresponding to eigenvalue 1
-    w, V = numpy.linalg.eig(M)
-    i = numpy.where(abs(numpy.real(w) - 1.0) < 1e-8)[0]
-    if not len(i):
-        raise ValueError("no eigenvector corresponding to eigenvalue 1")
-    point = numpy.real(V[:, i[-1]]).squeeze()
-    point /= point[3]
     return angle, direction, point, normal
 
 
-- 
2.43.0


From e11a3c32aa28b8d41e01252e411daf346df469e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 31/69] fix: euler_from_matrix reproduces the matrix close to
 gimbal lock

---
 electrode/transformations.c  | 6 ++++--
 electrode/transformations.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 5162867..36e6b82 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2379,7 +2379,8 @@ py_euler_from_matrix(
             if (t > EPSILON) {
                 ai = atan2( M[4*i+j],  M[4*i+k]);
                 aj = atan2( t,         M[4*i+i]);
-                ak = atan2( M[4*j+i], -M[4*k+i]);
+                ak = atan2(cos(ai)*M[4*k+j] - sin(ai)*M[4*k+k],
+                           cos(ai)*M[4*j+j] - sin(ai)*M[4*j+k]);
             } else {
                 ai = atan2(-M[4*j+k],  M[4*j+j]);
                 aj = atan2( t,         M[4*i+i]);
@@ -2391,7 +2392,8 @@ py_euler_from_matrix(
             if (t > EPSILON) {
                 ai = atan2( M[4*k+j],  M[4*k+k]);
                 aj = atan2(-M[4*k+i],  t);
-                ak = atan2( M[4*j+i],  M[4*i+i]);
+                ak = atan2(sin(ai)*M[4*i+k] - cos(ai)*M[4*i+j],
+                           cos(ai)*M[4*j+j] - sin(ai)*M[4*j+k]);
             } else {
                 ai = atan2(-M[4*j+k],  M[4*j+j]);
                 aj = atan2(-M[4*k+i],  t);
diff --git a/electrode/transformations.py b/electrode/transformations.py
index 51f34f4..ea6e9e3 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1140,7 +1140,8 @@ def euler_from_matrix(matrix, axes='sxyz'):
         if sy > _EPS:
             ax = math.atan2( M[i, j],  M[i, k])
             ay = math.atan2( sy,       M[i, i])
-            az = math.atan2( M[j, i], -M[k, i])
+            az = math.atan2(math.cos(ax)*M[k, j]-math.sin(ax)*M[k, k],
+                            math.cos(ax)*M[j, j]-math.sin(ax)*M[j, k])
         else:
             ax = math.atan2(-M[j, k],  M[j, j])
             ay = math.atan2( sy,       M[i, i])
@@ -1150,7 +1151,8 @@ def euler_from_matrix(matrix, axes='sxyz'):
         if cy > _EPS:
             ax = math.atan2( M[k, j],  M[k, k])
             ay = math.atan2(-M[k, i],  cy)
-            az = math.atan2( M[j, i],  M[i, i])
+            az = math.atan2(math.sin(ax)*M[i, k]-math.cos(ax)*M[i, j],
+                            math.cos(ax)*M[j, j]-math.sin(ax)*M[j, k])
         else:
             ax = math.atan2(-M[j, k],  M[j, j])
             ay = math.atan2(-M[k, i],  cy)
-- 
2.43.0


From ed27a1d0f039fbcd13460a38b0ecc97def2b6511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 32/69] fix: decompose_matrix recovers the angles close to
 gimbal lock

---
 electrode/transformations.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index ea6e9e3..72338a1 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -790,10 +790,13 @@ def decompose_matrix(matrix):
         numpy.negative(scale, scale)
         numpy.negative(row, row)
 
-    angles[1] = math.asin(-row[0, 2])
-    if math.cos(angles[1]):
+    cosy = math.sqrt(row[0, 0]*row[0, 0] + row[0, 1]*row[0, 1])
+    angles[1] = math.atan2(-row[0, 2], cosy)
+    if cosy > _EPS:
         angles[0] = math.atan2(row[1, 2], row[2, 2])
-        angles[2] = math.atan2(row[0, 1], row[0, 0])
+        sinx, cosx = math.sin(angles[0]), math.cos(angles[0])
+        angles[2] = math.atan2(sinx*row[2, 0] - cosx*row[1, 0],
+                               cosx*row[1, 1] - sinx*row[2, 1])
     else:
         # angles[0] = math.atan2(row[1, 0], row[1, 1])
         angles[0] = math.atan2(-row[2, 1], row[1, 1])
-- 
2.43.0


From 2642563dae3cc2ed6cc6d3a386da89afcd33ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 33/69] fix: compiled scale_matrix normalizes the direction

---
 electrode/transformations.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 36e6b82..13d20b3 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -1584,6 +1584,14 @@ py_scale_matrix(
             double dx = d[0];
             double dy = d[1];
             double dz = d[2];
+            double n = sqrt(dx*dx + dy*dy + dz*dz);
+            if (n < EPSILON) {
+                PyErr_Format(PyExc_ValueError, "invalid direction vector");
+                goto _fail;
+            }
+            dx /= n;
+            dy /= n;
+            dz /= n;
             factor = 1.0 - factor;
             M[0]  = 1.0 - factor * dx*dx;
             M[5]  = 1.0 - factor * dy*dy;
-- 
2.43.0


From 1094d03e0c3ee7e81ae8416b942ba8c8762b2935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 34/69] fix: compiled quaternion_slerp extrapolates to the
 fraction -1

---
 electrode/transformations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 13d20b3..5661934 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2945,7 +2945,7 @@ py_quaternion_slerp(
             goto _fail;
         }
 
-        if (fabs(fabs(fraction) - 1.0) < EPSILON) {
+        if (fabs(fraction - 1.0) < EPSILON) {
             q[0] = q1[0] / n;
             q[1] = q1[1] / n;
             q[2] = q1[2] / n;
-- 
2.43.0


From bb04f657c0d7e71fc4abbc6051bef8577ca7bad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 35/69] fix: compiled quaternion_slerp refuses invalid
 quaternions without a crash

---
 electrode/transformations.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 5661934..b726b2d 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2979,8 +2979,8 @@ py_quaternion_slerp(
 
   _fail:
     Py_XDECREF(result);
-    Py_DECREF(quaternion0);
-    Py_DECREF(quaternion1);
+    Py_XDECREF(quaternion0);
+    Py_XDECREF(quaternion1);
     return NULL;
 }
 
-- 
2.43.0


From 4c9699b7035d480025a3360acd131343692ab693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 36/69] fix: quaternion_slerp with an odd number of spins
 returns unit quaternions

---
 electrode/transformations.c  | 7 ++++---
 electrode/transformations.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index b726b2d..b06fc0c 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2958,11 +2958,12 @@ py_quaternion_slerp(
                     a = -a;
                     flip = 1;
                 }
-                a = acos(a) + spin * M_PI;
+                a = acos(a);
                 if (NOTZERO(a)) {
                     double s = 1.0 / sin(a);
-                    double f0 = sin((1.0 - fraction) * a) * s;
-                    double f1 = sin(fraction * a) * s / n;
+                    double t = fraction * (a + spin * M_PI);
+                    double f0 = sin(a - t) * s;
+                    double f1 = sin(t) * s / n;
                     if (flip) f1 = -f1;
                     q[0] = q[0] * f0 + q1[0] * f1;
                     q[1] = q[1] * f0 + q1[1] * f1;
diff --git a/electrode/transformations.py b/electrode/transformations.py
index 72338a1..f9c3dfd 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1460,12 +1460,13 @@ def quaternion_slerp(quat0, quat1, fraction, spin=0, shortestpath=True):
         # invert rotation
         d = -d
         numpy.negative(q1, q1)
-    angle = math.acos(d) + spin * math.pi
+    angle = math.acos(d)
     if abs(angle) < _EPS:
         return q0
     isin = 1.0 / math.sin(angle)
-    q0 *= math.sin((1.0 - fraction) * angle) * isin
-    q1 *= math.sin(fraction * angle) * isin
+    turn = fraction * (angle + spin * math.pi)
+    q0 *= math.sin(angle - turn) * isin
+    q1 *= math.sin(turn) * isin
     q0 += q1
     return q0
 
-- 
2.43.0


From 040f007c5e4fa4112842871c4534762d536133f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 37/69] fix: compiled arcball_constrain_to_axis returns the
 point on the visible half sphere

---
 electrode/transformations.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index b06fc0c..820df69 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3373,6 +3373,8 @@ py_arcball_constrain_to_axis(
         n = sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2]);
 
         if (n > EPSILON) {
+            if (v[2] < 0.0)
+                n = -n;
             v[0] /= n;
             v[1] /= n;
             v[2] /= n;
-- 
2.43.0


From b91004b0994e59b418004d5c847c4d213beff913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 38/69] fix: compiled inverse_matrix decides singularity
 independent of the scale

---
 electrode/transformations.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 820df69..ca03f91 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -396,7 +396,7 @@ int invert_matrix22(
 {
     double det = matrix[0]*matrix[3] - matrix[1]*matrix[2];
 
-    if (ISZERO(det))
+    if (det == 0.0)
         return -1;
 
     result[0] = matrix[3] / det;
@@ -430,7 +430,7 @@ int invert_matrix33(
 
     det = M[0]*result[0] + M[3]*result[1] + M[6]*result[2];
 
-    if (ISZERO(det))
+    if (det == 0.0)
         return -1;
 
     det = 1.0 / det;
@@ -514,7 +514,7 @@ int invert_matrix44(
 
     det = M[0]*result[0] + M[4]*result[1] + M[8]*result[2] + M[12]*result[3];
 
-    if (ISZERO(det))
+    if (det == 0.0)
         return -1;
 
     det = 1.0 / det;
@@ -573,7 +573,7 @@ int invert_matrix(
         }
 
         /* test for singular matrix */
-        if (fabs(M[ksk]) < PIVOT_TOLERANCE)
+        if (M[ksk] == 0.0)
             return -1;
 
         /* elimination */
@@ -591,6 +591,9 @@ int invert_matrix(
         }
     }
 
+    if (M[size*size - 1] == 0.0)
+        return -1;
+
     /* Backward substitution with identity matrix */
     memset(result, 0, size*size*sizeof(double));
     for (i = 0; i < size; i++) {
@@ -3201,7 +3204,7 @@ py_inverse_matrix(
                 error = invert_matrix22(M, Minv);
                 break;
             case 1:
-                error = ISZERO(M[0]);
+                error = M[0] == 0.0;
                 if (error == 0)
                     Minv[0] = 1.0 / M[0];
                 break;
-- 
2.43.0


From c27d98edcf00776b6ff399028e5e7cd5ff8f87cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 39/69] fix: Arcball.setaxes without axes lifts the constraint
 instead of breaking the orientation

---
 electrode/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index f9c3dfd..08f7be9 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1577,7 +1577,7 @@ class Arcball(object):
 
     def setaxes(self, *axes):
         """Set axes to constrain rotations."""
-        if axes is None:
+        if not axes:
             self._axes = None
         else:
             self._axes = [unit_vector(axis) for axis in axes]
-- 
2.43.0


From 4ee19d69ba318cce82dfff10d121d61fda09000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 40/69] fix: compiled quaternion_matrix leaves its argument as
 it is

---
 electrode/transformations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index ca03f91..b57d078 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2729,7 +2729,7 @@ py_quaternion_matrix(
     static char *kwlist[] = {"quaternion" , NULL};
 
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O&", kwlist,
-        PyConverter_DoubleVector4, &quaternion)) goto _fail;
+        PyConverter_DoubleVector4Copy, &quaternion)) goto _fail;
 
     result = (PyArrayObject*)PyArray_SimpleNew(2, dims, NPY_DOUBLE);
     if (result == NULL) {
-- 
2.43.0


From 9f2a2071a43a5d0fd88ba81c00194a6f02affc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 41/69] fix: compiled superimposition_matrix uses the best
 conditioned eigenvector at any scale

---
 electrode/transformations.c | 132 ++++++++++++++++++++----------------
 1 file changed, 75 insertions(+), 57 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index b57d078..883c7e1 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -292,17 +292,14 @@ int eigenvector_of_symmetric_44(
     double *vector, /* double[4]  */
     double *buffer) /* double[12] */
 {
-    double n, eps;
+    double n, best;
+    double w[4];
+    int i;
     double *M = matrix;
     double *v = vector;
     double *t = buffer;
 
-    /* eps: minimum length of eigenvector to use */
-    eps = (M[0]*M[5]*M[10]*M[15] - M[1]*M[1]*M[11]*M[11]) * 1e-6;
-    eps *= eps;
-    if (eps < EPSILON)
-        eps = EPSILON;
-
+    /* use the longest of the four, the others can be mere rounding errors */
     t[0] = M[10] * M[15];
     t[1] = M[11] * M[11];
     t[2] = M[6] *  M[15];
@@ -325,64 +322,74 @@ int eigenvector_of_symmetric_44(
     v[3] =  t[0]*M[5] + t[3]*M[6] + t[4]*M[7];
     v[3] -= t[1]*M[5] + t[2]*M[6] + t[5]*M[7];
     n = v[0]*v[0] + v[1]*v[1] + v[2]*v[2] + v[3]*v[3];
-
-    if (n < eps) {
-        v[0] =  t[0]*M[0] + t[7]*M[2] + t[8]*M[3];
-        v[0] -= t[1]*M[0] + t[6]*M[2] + t[9]*M[3];
-        v[1] =  t[3]*M[0] + t[6]*M[1] + t[11]*M[3];
-        v[1] -= t[2]*M[0] + t[7]*M[1] + t[10]*M[3];
-        v[2] =  t[4]*M[0] + t[9]*M[1] + t[10]*M[2];
-        v[2] -= t[5]*M[0] + t[8]*M[1] + t[11]*M[2];
-        v[3] =  t[1]*M[1] + t[2]*M[2] + t[5]*M[3];
-        v[3] -= t[0]*M[1] + t[3]*M[2] + t[4]*M[3];
-        n = v[0]*v[0] + v[1]*v[1] + v[2]*v[2] + v[3]*v[3];
+    best = n;
+    for (i = 0; i < 4; i++)
+        w[i] = v[i];
+
+    v[0] =  t[0]*M[0] + t[7]*M[2] + t[8]*M[3];
+    v[0] -= t[1]*M[0] + t[6]*M[2] + t[9]*M[3];
+    v[1] =  t[3]*M[0] + t[6]*M[1] + t[11]*M[3];
+    v[1] -= t[2]*M[0] + t[7]*M[1] + t[10]*M[3];
+    v[2] =  t[4]*M[0] + t[9]*M[1] + t[10]*M[2];
+    v[2] -= t[5]*M[0] + t[8]*M[1] + t[11]*M[2];
+    v[3] =  t[1]*M[1] + t[2]*M[2] + t[5]*M[3];
+    v[3] -= t[0]*M[1] + t[3]*M[2] + t[4]*M[3];
+    n = v[0]*v[0] + v[1]*v[1] + v[2]*v[2] + v[3]*v[3];
+    if (n > best) {
+        best = n;
+        for (i = 0; i < 4; i++)
+            w[i] = v[i];
     }
 
-    if (n < eps) {
-        t[0]  = M[2] * M[7];
-        t[1]  = M[3] * M[6];
-        t[2]  = M[1] * M[7];
-        t[3]  = M[3] * M[5];
-        t[4]  = M[1] * M[6];
-        t[5]  = M[2] * M[5];
-        t[6]  = M[0] * M[7];
-        t[7]  = M[3] * M[1];
-        t[8]  = M[0] * M[6];
-        t[9]  = M[2] * M[1];
-        t[10] = M[0] * M[5];
-        t[11] = M[1] * M[1];
-
-        v[0] =  t[1]*M[3] + t[6]*M[11] + t[9]*M[15];
-        v[0] -= t[0]*M[3] + t[7]*M[11] + t[8]*M[15];
-        v[1] =  t[2]*M[3] + t[7]*M[7] + t[10]*M[15];
-        v[1] -= t[3]*M[3] + t[6]*M[7] + t[11]*M[15];
-        v[2] =  t[5]*M[3] + t[8]*M[7] + t[11]*M[11];
-        v[2] -= t[4]*M[3] + t[9]*M[7] + t[10]*M[11];
-        v[3] =  t[0]*M[7] + t[3]*M[11] + t[4]*M[15];
-        v[3] -= t[1]*M[7] + t[2]*M[11] + t[5]*M[15];
-        n = v[0]*v[0] + v[1]*v[1] + v[2]*v[2] + v[3]*v[3];
+    t[0]  = M[2] * M[7];
+    t[1]  = M[3] * M[6];
+    t[2]  = M[1] * M[7];
+    t[3]  = M[3] * M[5];
+    t[4]  = M[1] * M[6];
+    t[5]  = M[2] * M[5];
+    t[6]  = M[0] * M[7];
+    t[7]  = M[3] * M[1];
+    t[8]  = M[0] * M[6];
+    t[9]  = M[2] * M[1];
+    t[10] = M[0] * M[5];
+    t[11] = M[1] * M[1];
+
+    v[0] =  t[1]*M[3] + t[6]*M[11] + t[9]*M[15];
+    v[0] -= t[0]*M[3] + t[7]*M[11] + t[8]*M[15];
+    v[1] =  t[2]*M[3] + t[7]*M[7] + t[10]*M[15];
+    v[1] -= t[3]*M[3] + t[6]*M[7] + t[11]*M[15];
+    v[2] =  t[5]*M[3] + t[8]*M[7] + t[11]*M[11];
+    v[2] -= t[4]*M[3] + t[9]*M[7] + t[10]*M[11];
+    v[3] =  t[0]*M[7] + t[3]*M[11] + t[4]*M[15];
+    v[3] -= t[1]*M[7] + t[2]*M[11] + t[5]*M[15];
+    n = v[0]*v[0] + v[1]*v[1] + v[2]*v[2] + v[3]*v[3];
+    if (n > best) {
+        best = n;
+        for (i = 0; i < 4; i++)
+            w[i] = v[i];
     }
 
-    if (n < eps) {
-        v[0] =  t[8]*M[11] + t[0]*M[2] + t[7]*M[10];
-        v[0] -= t[6]*M[10] + t[9]*M[11] + t[1]*M[2];
-        v[1] =  t[6]*M[6] + t[11]*M[11] + t[3]*M[2];
-        v[1] -= t[10]*M[11] + t[2]*M[2] + t[7]*M[6];
-        v[2] =  t[10]*M[10] + t[4]*M[2] + t[9]*M[6];
-        v[2] -= t[8]*M[6] + t[11]*M[10] + t[5]*M[2];
-        v[3] =  t[2]*M[10] + t[5]*M[11] + t[1]*M[6];
-        v[3] -= t[4]*M[11] + t[0]*M[6] + t[3]*M[10];
-        n = v[0]*v[0] + v[1]*v[1] + v[2]*v[2] + v[3]*v[3];
+    v[0] =  t[8]*M[11] + t[0]*M[2] + t[7]*M[10];
+    v[0] -= t[6]*M[10] + t[9]*M[11] + t[1]*M[2];
+    v[1] =  t[6]*M[6] + t[11]*M[11] + t[3]*M[2];
+    v[1] -= t[10]*M[11] + t[2]*M[2] + t[7]*M[6];
+    v[2] =  t[10]*M[10] + t[4]*M[2] + t[9]*M[6];
+    v[2] -= t[8]*M[6] + t[11]*M[10] + t[5]*M[2];
+    v[3] =  t[2]*M[10] + t[5]*M[11] + t[1]*M[6];
+    v[3] -= t[4]*M[11] + t[0]*M[6] + t[3]*M[10];
+    n = v[0]*v[0] + v[1]*v[1] + v[2]*v[2] + v[3]*v[3];
+    if (n > best) {
+        best = n;
+        for (i = 0; i < 4; i++)
+            w[i] = v[i];
     }
 
-    if (n < eps)
+    if (best < EPSILON)
         return -1;
 
-    n = sqrt(n);
-    v[0] /= n;
-    v[1] /= n;
-    v[2] /= n;
-    v[3] /= n;
+    n = sqrt(best);
+    for (i = 0; i < 4; i++)
+        v[i] = w[i] / n;
 
     return 0;
 }
@@ -1917,6 +1924,17 @@ py_superimposition_matrix(
             N[6]  = N[9]  = xy + yx;
             N[7]  = N[13] = zx + xz;
             N[11] = N[14] = yz + zy;
+
+            /* the eigenvectors do not depend on the scale */
+            {
+                double t = 0.0;
+                for (i = 0; i < 16; i++)
+                    t = MAX(t, fabs(N[i]));
+                if (t > 0.0) {
+                    for (i = 0; i < 16; i++)
+                        N[i] /= t;
+                }
+            }
         }
         /* quaternion q: eigenvector corresponding to most positive */
         /* eigenvalue of N. */
-- 
2.43.0


From b866e2a6375a3a51831c404e39de03d6634387c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 42/69] fix: unit_vector of a single vector with axis and out

---
 electrode/transformations.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index 08f7be9..aefcecc 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1761,8 +1761,7 @@ def unit_vector(data, axis=None, out=None):
         if out is not data:
             out[:] = numpy.array(data, copy=False)
         data = out
-    length = numpy.atleast_1d(numpy.sum(data*data, axis))
-    numpy.sqrt(length, length)
+    length = numpy.sqrt(numpy.sum(data*data, axis))
     if axis is not None:
         length = numpy.expand_dims(length, axis)
     data /= length
-- 
2.43.0


From 65a04d1637b23619f349a8d9628f5cb344f387cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 43/69] fix: arcball_constrain_to_axis on the negative z axis
 is a point

---
 electrode/transformations.c  | 2 +-
 electrode/transformations.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 883c7e1..77dbe87 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3399,7 +3399,7 @@ py_arcball_constrain_to_axis(
             v[0] /= n;
             v[1] /= n;
             v[2] /= n;
-        } else if (a[2] == 1.0) {
+        } else if (fabs(a[2]) == 1.0) {
             v[0] = 1.0;
             v[1] = 0.0;
             v[2] = 0.0;
diff --git a/electrode/transformations.py b/electrode/transformations.py
index aefcecc..8183ba1 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1649,7 +1649,7 @@ def arcball_constrain_to_axis(point, axis):
             numpy.negative(v, v)
         v /= n
         return v
-    if a[2] == 1.0:
+    if abs(a[2]) == 1.0:
         return numpy.array([1.0, 0.0, 0.0])
     return unit_vector([-a[1], a[0], 0.0])
 
-- 
2.43.0


From 316b7ca60a329946dfb72857b9bbac847a084848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 44/69] fix: solver options of one optimization do not leak
 into later ones

---
 electrode/system.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 5b10606..6915ef5 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -714,8 +714,6 @@ class System(list):
 
     def _run_cvxopt(self, obj, ctrs, verbose=True, **kwargs):
         solver = cvxopt.modeling.op(obj, ctrs)
-        cvxopt.solvers.options.update(**kwargs)
-        cvxopt.solvers.options["show_progress"] = verbose
         if verbose:
             logger.info("variables: %i", sum(v._size
                     for v in solver.variables()))
@@ -723,7 +721,15 @@ class System(list):
                     for v in solver.inequalities()))
             logger.info("equalities: %i", sum(v.multiplier._size
                     for v in solver.equalities()))
-        solver.solve("sparse")
+        # the solver options are global: apply them to this solve only
+        options = dict(cvxopt.solvers.options)
+        try:
+            cvxopt.solvers.options.update(**kwargs)
+            cvxopt.solvers.options["show_progress"] = verbose
+            solver.solve("sparse")
+        finally:
+            cvxopt.solvers.options.clear()
+            cvxopt.solvers.options.update(options)
         if not solver.status == "optimal":
             raise ValueError("solve failed: %s" % solver.status)
         return solver
-- 
2.43.0


From 4052f71ae348041b725ea502c3d3809a2fb9e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 45/69] fix: Adjust starts the voltage history with the initial
 voltages

---
 electrode/adjust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 6e62639..15c94f8 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -25,7 +25,7 @@ class Adjust():
 		self.system = system
 		volts = {}
 		for ele in system:
-			volts[ele.name] = []    # initial .dc
+			volts[ele.name] = [ele.dc]    # initial .dc
 		self.volts = volts    # self.volts is a dict, {ele1:[v0,v1,...],ele2:[v0,v1...],...}
 
 	def set_move_init(self, E_config=None, xm=None, axis_order=None):
-- 
2.43.0


From 1b4300b817ff1ff43a9937dea5de273de662406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 46/69] fix: Adjust.set_move_init accepts arrays for xm and
 axis_order

---
 electrode/adjust.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 15c94f8..34688c3 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -35,14 +35,14 @@ class Adjust():
 
 		# minimum xm
 		# system.minimum() still has some problem, if it appears, you can manually input xm.
-		if xm == None:
+		if xm is None:
 			xi = (0.,0.,0.)
 			xm = self.system.minimum(xi)
 		self.xms = [np.array(xm)]
 
 		# eigenvector -> bases
 		evalue, evector = self.system.modes(xm)
-		if axis_order == None:
+		if axis_order is None:
 			# sort according to the x coordinate of eigenvectors. [::-1] in acsending order
 			axis_order = evector[0].argsort()[::-1]
 		evalue, evector = evalue[axis_order], evector[:,axis_order].T
-- 
2.43.0


From fa3785d62de0de20eccc0c1177e28fc9a3901458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 47/69] fix: Adjust works with electrodes that need a list of
 points

---
 electrode/adjust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 34688c3..111bd7d 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -106,7 +106,7 @@ class Adjust():
 			nonhomo = -self.system.potential(x=xm_evaluate,derivative=1)[0]    # system.potential
 		for ith in range(Nele):    # ith is the column index of coef.
 			for ele in self.E_config[ith]:
-				coef[:,ith] += self.system[ele].potential(xm_evaluate,derivative=1)[0].T    # GridElectrode.potential
+				coef[:,ith] += self.system[ele].potential(xm_evaluate[None],derivative=1)[0].T    # GridElectrode.potential
 		deltaV = scipy_solve(coef,nonhomo.T)    # Corresponds to the order of E_config.
 		# deltaV = [scipy_solve(coef,Ev*ev) for Ev,ev in zip(E_scale,self.basis)]
 		return deltaV
-- 
2.43.0


From e598a713d899e0ad91e423c326a4a52a78b95137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 48/69] fix: rejecting a move restores the voltages of the last
 accepted step

---
 electrode/adjust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 111bd7d..3b360c4 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -159,7 +159,7 @@ class Adjust():
 			# print("Move")
 		else:
 			# reset voltages back to erase the change due to xm_freq_change()
-			self.set_volts(self.Volts[-1])		
+			self.set_volts(dict((ele, v[-1]) for ele, v in self.volts.items()))
 			# print("Stay")
 
 		del self._propose
-- 
2.43.0


From 0b6f67eabf78dc4ac1a1439c0fdca9d8d0b0de75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 49/69] fix: Adjust.next_step with user-supplied voltage
 changes or without a proposal

---
 electrode/adjust.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 3b360c4..5885862 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -142,18 +142,19 @@ class Adjust():
 		# Pay attention, if you have used propose_move() or xm_freq_change(), the deltaV have been applied
 		# to system.
 
-		if deltaV == None:
+		userown = deltaV is not None    # user own deltaV
+		if accept and not userown:
 			try:
 				deltaV, xm_new, evalue = self._propose
-				userown = False    # user own deltaV
 			except AttributeError:
 				warnings.warn("Propose a volt_change() first.")
+				return 0
 
 		if accept:
 			config = self.construct_config(deltaV)
-			self.set_volts(config, save=True)
 			if userown:
-				xm_new, evalue = self.xm_freq_change(deltaV)[[0,2]]
+				xm_new, _, evalue = self.xm_freq_change(deltaV)[:3]
+			self.set_volts(config, save=True)
 			self.xms.append(xm_new)
 			self.curves.append(evalue)
 			# print("Move")
@@ -162,6 +163,7 @@ class Adjust():
 			self.set_volts(dict((ele, v[-1]) for ele, v in self.volts.items()))
 			# print("Stay")
 
-		del self._propose
+		if hasattr(self, "_propose"):
+			del self._propose
 		return 0
 
-- 
2.43.0


From 05fe043ab49b439559051cf68b73180ed5afa416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 50/69] fix: modes after a move are in the order of the basis

---
 electrode/adjust.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 5885862..d28b840 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -10,6 +10,7 @@ from __future__ import (absolute_import, print_function,
 
 import warnings
 import copy
+import itertools
 import numpy as np
 from scipy import constants as ct
 from scipy.linalg import solve as scipy_solve
@@ -123,8 +124,13 @@ class Adjust():
 		xm_new = self.system.minimum(xm_old+0.01, method="Nelder-Mead")    # add +0.01 to aviod precision loss
 		xm_offset = xm_new-xm_old
 		evalue, evector = self.system.modes(xm_new)
-		axis_order = evector[0].argsort()[::-1]		# sort evector x
-		evalue, evector = evalue[axis_order], evector[:,axis_order].T
+		# the order and the signs of the modes follow the basis
+		overlap = np.dot(self.basis, evector)
+		axis_order = max(itertools.permutations(range(3)),
+			key=lambda i: np.fabs(overlap[range(3), i]).sum())
+		sign = np.where(overlap[range(3), axis_order] < 0, -1., 1.)
+		evalue = evalue[list(axis_order)]
+		evector = evector[:,axis_order].T*sign[:,None]
 		freq_change = np.sqrt(evalue)-np.sqrt(self.curves[0])
 		vec_change = evector-self.basis
 		return xm_new, xm_offset, evalue, freq_change, vec_change	# They haven't scaled by l or m/q.
-- 
2.43.0


From f233afdb82184f5d881f9b1948c4460df221e220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 51/69] fix: position method solves for changes from the last
 accepted voltages

---
 electrode/adjust.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index d28b840..8647590 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -104,7 +104,9 @@ class Adjust():
 			nonhomo = E_scale*self.basis[axis]
 		elif method == "position":
 			xm_evaluate = xm_old+dis/l*self.basis[axis]
-			nonhomo = -self.system.potential(x=xm_evaluate,derivative=1)[0]    # system.potential
+			# the changes will be relative to the last accepted voltages
+			with self.system.with_voltages(dcs=[self.volts[ele.name][-1] for ele in self.system]):
+				nonhomo = -self.system.potential(x=xm_evaluate,derivative=1)[0]    # system.potential
 		for ith in range(Nele):    # ith is the column index of coef.
 			for ele in self.E_config[ith]:
 				coef[:,ith] += self.system[ele].potential(xm_evaluate[None],derivative=1)[0].T    # GridElectrode.potential
-- 
2.43.0


From c0026a9a4982f61e1d4e7001f258c3d335cafb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 52/69] fix: the search for the new minimum after a move does
 not stop at its start

---
 electrode/adjust.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 8647590..429db61 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -123,7 +123,11 @@ class Adjust():
 		xm_old = self.xms[-1]
 		config = self.construct_config(deltaV)
 		self.set_volts(config, save=False)
-		xm_new = self.system.minimum(xm_old+0.01, method="Nelder-Mead")    # add +0.01 to aviod precision loss
+		# start with a simplex that extends along all axes, whatever the coordinates are, or
+		# the search can end at its start. resolve the usual displacements.
+		simplex = xm_old+0.01*np.array([[0,0,0],[1,0,0],[0,1,0],[0,0,1]])
+		xm_new = self.system.minimum(xm_old, method="Nelder-Mead",
+			options=dict(initial_simplex=simplex, xatol=1e-6, fatol=1e-9))
 		xm_offset = xm_new-xm_old
 		evalue, evector = self.system.modes(xm_new)
 		# the order and the signs of the modes follow the basis
-- 
2.43.0


From eb4aa94d4d6b01890fb8f7ebc1f33caae6f88cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 53/69] fix: xic_to_list converts coordinates under python 3

---
 electrode/xic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/xic.py b/electrode/xic.py
index 76111ba..ae472a6 100644
--- a/electrode/xic.py
+++ b/electrode/xic.py
@@ -37,7 +37,7 @@ def xic_to_list(xic):
                 p.append(line.split())
             else:
                 p.append(line[:-1].split())
-                es.append(np.array([map(float, i) for i in p])*1e-8)
+                es.append(np.array([[float(j) for j in i] for i in p])*1e-8)
         elif not line.strip():
             pass
         else:
-- 
2.43.0


From 8026b9d5302e74f44b8c0829087aa0efafab2dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 54/69] fix: xic_to_list skips blank lines

---
 electrode/xic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/electrode/xic.py b/electrode/xic.py
index ae472a6..a389f2a 100644
--- a/electrode/xic.py
+++ b/electrode/xic.py
@@ -30,7 +30,9 @@ def xic_to_list(xic):
     es = []
     for line in xic:
         line = line.rstrip()
-        if line[0] == "P":
+        if not line:
+            pass
+        elif line[0] == "P":
             p = [line.split()[1:]]
         elif line[0] == " ":
             if not line.endswith(";"):
@@ -38,8 +40,6 @@ def xic_to_list(xic):
             else:
                 p.append(line[:-1].split())
                 es.append(np.array([[float(j) for j in i] for i in p])*1e-8)
-        elif not line.strip():
-            pass
         else:
             pass # print line
     return es
-- 
2.43.0


From a9e41fc5f8c650b3d4d649cc1f2376827e61627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 55/69] fix: xic_to_list keeps one-line polygons and several
 points per line, and skips other records with continuation lines

---
 electrode/xic.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/electrode/xic.py b/electrode/xic.py
index a389f2a..7bdc54b 100644
--- a/electrode/xic.py
+++ b/electrode/xic.py
@@ -28,18 +28,19 @@ from .electrode import PolygonPixelElectrode
 
 def xic_to_list(xic):
     es = []
+    p = None # coordinates of the polygon being read
     for line in xic:
         line = line.rstrip()
         if not line:
             pass
         elif line[0] == "P":
-            p = [line.split()[1:]]
+            p = line.rstrip(";").split()[1:]
         elif line[0] == " ":
-            if not line.endswith(";"):
-                p.append(line.split())
-            else:
-                p.append(line[:-1].split())
-                es.append(np.array([[float(j) for j in i] for i in p])*1e-8)
+            if p is not None:
+                p.extend(line.rstrip(";").split())
         else:
-            pass # print line
+            p = None # print line
+        if p is not None and line.endswith(";"):
+            es.append(np.array([float(i) for i in p]).reshape(-1, 2)*1e-8)
+            p = None
     return es
-- 
2.43.0


From 8dbc5e3da57b719d39888b863e456e1164413cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 56/69] fix: derivatives_spherical_cartesian has its components
 in the documented order

---
 electrode/spherical_harmonics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index 7f85f01..40d1cb8 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -38,12 +38,12 @@ def derivatives_spherical_cartesian(d, r, theta, phi,
     cp, sp = cis_phi.real, cis_phi.imag
     if direction == "to_spherical":
         m = [[cp*st, sp*st, ct],
-             [-sp/(r*st), cp/(r*st), np.zeros_like(r)],
-             [cp*ct/r, sp*ct/r, -st/r]]
+             [cp*ct/r, sp*ct/r, -st/r],
+             [-sp/(r*st), cp/(r*st), np.zeros_like(r)]]
     elif direction == "to_cartesian":
-        m = [[cp*st, -r*sp*st, r*cp*ct],
-             [sp*st, r*cp*st, r*sp*ct],
-             [ct, np.zeros_like(r), -r*st]]
+        m = [[cp*st, r*cp*ct, -r*sp*st],
+             [sp*st, r*sp*ct, r*cp*st],
+             [ct, -r*st, np.zeros_like(r)]]
     return [sum(m[i][j]*k for j, k in enumerate(d))
             for i in range(3)]
 
-- 
2.43.0


From cac33332555c8dcfca10626e66ea5b698629cbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 57/69] fix: plot_contour raised where vmin, half the top
 level, is above all levels (negative potentials, given levels)

---
 electrode/system.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 6915ef5..aa2acc6 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -444,10 +444,12 @@ class System(list):
             maxcl = (maxp-minp)/2 + minp
             warnings.warn("\n\nHave taken another levels upper limit. "
                 "Use a smaller divide_max.\n")
-        kwargs.setdefault('levels',np.linspace(mincl, maxcl, line_num))
-        # kwargs.setdefault('cmap',plt.cm.Blues)
-        # vmin = maxcl/2 can have a better colormap contrast.
-        kwargs.setdefault('vmin',maxcl/2)
+        if 'levels' not in kwargs:
+            kwargs['levels'] = np.linspace(mincl, maxcl, line_num)
+            # kwargs.setdefault('cmap',plt.cm.Blues)
+            # vmin = maxcl/2 can have a better colormap contrast.
+            if maxcl > 0: # otherwise it is above all levels
+                kwargs.setdefault('vmin',maxcl/2)
         ax.set_xlabel(axlb[slc][0]+'/l',fontsize=12)
         ax.set_ylabel(axlb[slc][1]+'/l',fontsize=12)
         if fill == True:
-- 
2.43.0


From 32f18e8fa958f5bb2cca126c41e9fd5515ed14a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 58/69] fix: plot_voltages raised for lists of voltages

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index aa2acc6..4f57579 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -485,7 +485,7 @@ class System(list):
             u = self.dcs
         if um is None:
             um = np.fabs(u).max() or 1.
-        u = (u / um + 1)/2
+        u = (np.asarray(u, np.double) / um + 1)/2
         #colors = np.clip((u+.5, .5-np.fabs(u), -u+.5), 0, 1).T
         colors = [cmap(ui) for ui in u]
         for el, ci in zip(self, colors):
-- 
2.43.0


From ca4c08d0f9f27849c73b856102ca6a0dba5edff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 59/69] fix: plotting electrodes without paths or points raised

---
 electrode/electrode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/electrode/electrode.py b/electrode/electrode.py
index ff5b1b7..cd880aa 100644
--- a/electrode/electrode.py
+++ b/electrode/electrode.py
@@ -236,6 +236,8 @@ class PointPixelElectrode(SurfaceElectrode):
         import matplotlib as mpl
         # color="red"?
         p = self.points
+        if not len(p):
+            return
         a = (self.areas/np.pi)**.5*2
         col = mpl.collections.EllipseCollection(
                 edgecolors="none",
@@ -286,6 +288,8 @@ class PolygonPixelElectrode(SurfaceElectrode):
 
     def plot(self, ax, label=None, color=None, **kw):
         import matplotlib as mpl
+        if not self.paths:
+            return
         # we already store the right order for interior/exterior
         vertices = np.concatenate([np.r_[p, [p[0]]]  for p in self.paths])
         codes = np.concatenate([np.r_[
-- 
2.43.0


From 798a3b52ce2ff8ad1fb984744a749faf6921ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 60/69] fix: smooth: detect straight and corner points at the
 start of a ring

---
 electrode/polygons.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index f6f87a1..3f51719 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -52,12 +52,15 @@ def smooth(x, y, smoothing=1., straight=None, corner=None, straight_tol=1e-6,
     u = np.cumsum(du) - du[0]
     u /= u[-1]
     a = np.arctan2(dy, dx)
-    t = np.fabs((np.roll(a, -1) - a) % (2*np.pi)) < straight_tol
+    a[0] = a[-1]  # the first point is the last one
+    t = np.fabs((np.r_[a[1:], a[1]] - a + np.pi) % (2*np.pi)
+                - np.pi) < straight_tol
     w = np.ones_like(u)
     if straight is not None:
         w = np.where(t, straight, w)
     if corner is not None:
-        w = np.where((np.roll(t, 1) | np.roll(t, -1)) & ~t, corner, w)
+        w = np.where((np.r_[t[-2], t[:-1]] | np.r_[t[1:], t[1]]) & ~t,
+                     corner, w)
     s = len(x)*smoothing
     (tck, u), fp, ier, msg = splprep([x, y], w=w, u=u, s=s,
                                      k=k, per=1, nest=len(x) + 2,
-- 
2.43.0


From 3939906ce098a0109e383af4e0dd7161d776c473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 61/69] fix: smooth: room for the knots of higher degree
 splines

---
 electrode/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 3f51719..4409481 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -63,7 +63,7 @@ def smooth(x, y, smoothing=1., straight=None, corner=None, straight_tol=1e-6,
                      corner, w)
     s = len(x)*smoothing
     (tck, u), fp, ier, msg = splprep([x, y], w=w, u=u, s=s,
-                                     k=k, per=1, nest=len(x) + 2,
+                                     k=k, per=1, nest=len(x) + 2*k,
                                      full_output=1)
     assert ier <= 0, (ier, msg)
     if knots is None:
-- 
2.43.0


From f2e7fe1282f0eb6e33b5d09782daf9336f40ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 62/69] fix: PatternRangeConstraint: numpy numbers as bounds
 and index

---
 electrode/pattern_constraints.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/electrode/pattern_constraints.py b/electrode/pattern_constraints.py
index 210538d..e15ed78 100644
--- a/electrode/pattern_constraints.py
+++ b/electrode/pattern_constraints.py
@@ -68,15 +68,15 @@ class PatternRangeConstraint(Constraint):
 
     def constraints(self, system, variables):
         if self.index is not None:
-            variables = variables[self.index]
+            variables = variables[int(self.index)]
         if self.min is not None or self.max is not None:
             if self.min == self.max:
-                yield variables == self.min
+                yield variables == float(self.min)
             else:
                 if self.min is not None:
-                    yield variables >= self.min
+                    yield variables >= float(self.min)
                 if self.max is not None:
-                    yield variables <= self.max
+                    yield variables <= float(self.max)
 
 
 class SingleValueConstraint(Constraint):
-- 
2.43.0


From d6374fd56cabb96403e10dade90c0663740bf82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:42 +0000
Subject: [PATCH 63/69] fix: optimize: result independent of the unit of length

---
 electrode/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 4f57579..02953fe 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -822,7 +822,8 @@ class System(list):
                 atol=1e-6*np.fabs(b).max())):
             raise ValueError("objectives are zero or contradictory")
         B1 = B - np.outer(b, g)/g2 # B*g_perp
-        obj = cvxopt.modeling.dot(cvxopt.matrix(g), p) # maximize this
+        # maximize this, normalized as the solver's tolerance is absolute
+        obj = cvxopt.modeling.dot(cvxopt.matrix(g/np.sqrt(g2)), p)
         # there is (at least) one singular value, use only the row space
         _, w, B1 = np.linalg.svd(B1, full_matrices=False)
         B1 = np.ascontiguousarray(B1[w > rcond*np.linalg.norm(B)])
-- 
2.43.0


From b8773e322316149b538da77d0850dbd2cf8a1ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:28 +0000
Subject: [PATCH 64/69] fix: shims: refuse shims the constraints exclude

---
 electrode/system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/system.py b/electrode/system.py
index 02953fe..8e1570f 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -708,6 +708,8 @@ class System(list):
                 p, c = self.optimize(constraints+obj, verbose=False,
                         **kwargs)
                 objective.value = 0
+                if np.fabs(p).max() < 1e-5: # solver accuracy
+                    raise ValueError("constraints leave no shim %i" % i)
                 vectors[i] = p/c
         finally:
             for objective, value in zip(obj, values):
-- 
2.43.0


From e136087ad18b70360d19d0b80721fff11ad0a0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:45 +0000
Subject: [PATCH 65/69] fix: Adjust drops a proposed move when the groups are
 set again

It was accepted later with the voltage changes of the old groups applied to
the new ones.
---
 electrode/adjust.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 429db61..ed7fe5e 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -52,6 +52,9 @@ class Adjust():
 
 		# DC E_configuration
 		self.E_config = E_config
+		# a move proposed for the previous configuration is void
+		if hasattr(self, "_propose"):
+			del self._propose
 
 		return xm, ax_check
 
-- 
2.43.0


From 24849b4289888111f9bf2082c941f32ebf163a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:22 +0000
Subject: [PATCH 66/69] fix: remove_overlaps recognises overlaps in any unit of
 length

Overlaps of less than 1e-7 square units were kept, which is everything in a
layout in metres.
---
 electrode/polygons.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 4409481..a997813 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -460,7 +460,8 @@ class Polygons(list):
         acc = geometry.Point()
         for ni, pi in self:
             pa = acc.intersection(pi)
-            if pa.is_valid and pa.area > np.finfo(np.float32).eps:
+            if pa.is_valid and pa.area > np.finfo(np.float32).eps*min(
+                    1., pi.area):
                 pc = pi.difference(pa)
                 if pc.is_valid:
                     pi = pc
-- 
2.43.0


From ad5842c62e68a8b6fce05f942de4b458a1728838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:50 +0000
Subject: [PATCH 67/69] fix: a mesh border is not a voltage jump in adapt_mesh

Border sides have the neighbor -1, which took the last triangle's
potential, so that border triangles were refined for no reason.
---
 electrode/adaptive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/electrode/adaptive.py b/electrode/adaptive.py
index 490d8a3..3b3a150 100644
--- a/electrode/adaptive.py
+++ b/electrode/adaptive.py
@@ -143,7 +143,9 @@ def adapt_mesh(constraints, variable, fixed=[], threshold=.5,
             print("objective:", c)
         potentials = v[len(fixed):]
         neighbors = args.pop("neighbors")
-        edge_changes = potentials.take(neighbors) - potentials[:, None]
+        # no neighbor (-1) across the border, no change
+        edge_changes = np.where(neighbors < 0, 0.,
+                potentials.take(neighbors) - potentials[:, None])
         refine = np.fabs(edge_changes).max(1) > threshold
         args["triangleareas"] = np.where(refine, areas/down, areas*up)
     return s, v, c
-- 
2.43.0


From 356af50d9b2a4e8ed30a43351b719263bc9366e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:50 +0000
Subject: [PATCH 68/69] fix: adapt_mesh takes the documented boundaries of
 fixed electrodes

They were put into the System as bare arrays, which fails; electrodes
are still accepted.
---
 electrode/adaptive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/electrode/adaptive.py b/electrode/adaptive.py
index 3b3a150..c120396 100644
--- a/electrode/adaptive.py
+++ b/electrode/adaptive.py
@@ -24,7 +24,7 @@ from functools import partial
 import numpy as np
 
 from .system import System
-from .electrode import PolygonPixelElectrode
+from .electrode import Electrode, PolygonPixelElectrode
 from .utils import area_centroid
 
 from bem.pytriangle import triangulate
@@ -122,6 +122,8 @@ def adapt_mesh(constraints, variable, fixed=[], threshold=.5,
         Final strength of the constraints. See `System.optimize()`.
     """
     opts = "Qq%fa%fn" % (q, a)
+    fixed = [f if isinstance(f, Electrode)
+            else PolygonPixelElectrode(paths=[f], **kwargs) for f in fixed]
     args = paths_to_mesh(variable)
     s = v = c = None
     while True:
-- 
2.43.0


From e8d99c911c84bd1ce6db8d5e397b73514c332418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:00 +0000
Subject: [PATCH 69/69] fix: from_vtk takes potential and field in any order of
 the file

---
 electrode/electrode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/electrode/electrode.py b/electrode/electrode.py
index cd880aa..6eadc0b 100644
--- a/electrode/electrode.py
+++ b/electrode/electrode.py
@@ -482,6 +482,7 @@ class GridElectrode(Electrode):
             dim = sp.number_of_components
             data = data.reshape(dimensions[::-1]+(dim,)).transpose(2, 1, 0, 3)
             pot.append(data)
+        pot.sort(key=lambda data: data.shape[-1]) # potential, then field
         obj = cls(origin=origin, spacing=spacing, data=pot)
         obj.generate(maxderiv)
         return obj
-- 
2.43.0

