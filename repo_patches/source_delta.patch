From 1d33011667090df81f9a5214e6e3efe09d44806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 01/32] fix: include the cell-width chain factor in dx_normPn

dx_normPn evaluated dP/dz without the dz/dx = 2/(b-a) factor, so the reported
spatial derivative was wrong on every cell whose width is not 2.
---
 moving_mesh_transport/solver_classes/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index ab5066f..5dfb100 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -78,7 +78,7 @@ def Pn_scalar(n,x,a=-1.0,b=1.0):
 @njit
 def dx_normPn(n, x, a = -1.0, b = 1.0):
     tmp = 0*x
-    fact = np.sqrt((2*n+1)/(b-a))
+    fact = np.sqrt((2*n+1)/(b-a)) * 2 / (b-a)
     for count in prange(x.size):
         z = (b+a-2*x[count])/(a-b)
         if n == 0:
-- 
2.43.0


From 0b079ada8afd077a4bc4143f82a2475af49ea732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 02/32] fix: set the end weights of the two-point Gauss-Lobatto
 rule

The end weights were assigned inside the loop over interior nodes, which does not
run for n = 2, so the two-point rule returned zero weights.
---
 moving_mesh_transport/solver_classes/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index 5dfb100..e027d4e 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -643,6 +643,7 @@ def quadrature(n, name, testing = False):
         for nn in range(1, n-1):
             inn = nn + 1
             ws[nn] = 2 / (n*(n-1)) / (sps.eval_legendre(n-1, roots[nn]))**2
+        if n > 1:
             ws[0] = 2/ (n*(n-1))
             ws[-1] = 2/ (n*(n-1))
         # if testing == True:
-- 
2.43.0


From 9d6900fc5fa10b14f352c383e6f3aff8dad35f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 03/32] fix: apply the source strength once in the uncollided
 pulses

The square and Gaussian pulses were scaled by source_strength in their own function
and again in uncollided_solution.
---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index c8c2478..6c0e820 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -222,7 +222,7 @@ class uncollided_solution(object):
                     temp[ix] = math.exp(-t)*(t + xx + self.x0)/(2.0 * t + 1e-12)
                 elif (self.x0 - xx <= t) and (self.x0 + xx >= t):
                     temp[ix] = math.exp(-t)*(t - xx + self.x0)/(2.0 * t + 1e-12)
-        return temp * self.source_strength
+        return temp
     
     def shell_IC_uncollided_solution(self, xs, t):
         temp = xs*0 
@@ -244,7 +244,7 @@ class uncollided_solution(object):
         sqrtpi = math.sqrt(math.pi)
         for ix in range(xs.size):
             xx = xs[ix]
-            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12) * self.source_strength
+            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12)
         return temp
         
     def plane_IC_uncollided_solution(self, xs, t):
-- 
2.43.0


From 98a8bf3a587144fc01d33a5afcad2b1a0e078bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 04/32] fix: do not scale the uncollided source by the source
 strength twice

uncollided_solution() already includes source_strength; make_source multiplied its
moments by it again.
---
 moving_mesh_transport/solver_classes/sources.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/sources.py b/moving_mesh_transport/solver_classes/sources.py
index a0fe790..b8ecb12 100644
--- a/moving_mesh_transport/solver_classes/sources.py
+++ b/moving_mesh_transport/solver_classes/sources.py
@@ -119,7 +119,7 @@ class source_class(object):
         if self.geometry['slab'] == True:
             if self.uncollided == True:
                 if (self.source_type[0] == 1) and  (self.moving == True):
-                        self.S[0] = uncollided_solution.plane_IC_uncollided_solution_integrated(t, xL, xR)
+                        self.S[0] = uncollided_solution.plane_IC_uncollided_solution_integrated(t, xL, xR) * self.source_strength
                 else:
                     for j in range(self.M+1):
                         self.integrate_quad(t, xL, xR, j, uncollided_solution.uncollided_solution)
@@ -131,6 +131,7 @@ class source_class(object):
                 elif self.source_type[5] == 1:
                     for j in range(self.M+1):
                         self.integrate_quad(t, xL, xR, j, self.gaussian_source)
+                self.S = self.S * self.source_strength
         
         elif self.geometry['sphere'] == True:
             if self.uncollided == True:
@@ -146,8 +147,6 @@ class source_class(object):
 
                         
 
-        self.S = self.S * self.source_strength
-
     def make_source_not_isotropic(self, t, mu, xL, xR):
             if self.source_type[4] ==1:
                 for j in range(self.M+1):
-- 
2.43.0


From 5fadf7a456bec2edbfa52594dc688352332612c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 05/32] fix: start the collision vector from zero for every
 cell

make_vectors added the contribution of the current cell and angle to whatever the
previous call had left in VV when the opacity is not constant.
---
 moving_mesh_transport/solver_classes/opacity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index 930b17f..73af888 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -168,6 +168,7 @@ class sigma_integrator():
         if self.sigma_func['constant'] == True:
             self.VV = u * self.sigma_t
         else:
+            self.VV = np.zeros(self.M + 1)
             for i in range(self.M + 1):
                 for j in range(self.M + 1):
                     for k in range(self.Msigma + 1):
-- 
2.43.0


From 630e39433af813dff2146f545fa27f24f0ca575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 06/32] fix: remember a copy of the edges the opacity moments
 belong to

sigma_moments kept a reference to the mesh's own edge array, so an in-place change of
the mesh was compared with itself and the moments were not updated.
---
 moving_mesh_transport/solver_classes/opacity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index 73af888..be775d0 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -108,7 +108,7 @@ class sigma_integrator():
             if (edges[i] != self.edges[i]) or (edges[i+1] != self.edges[i+1]) or self.moving == True :
                 for j in range(self.Msigma + 1):
                     self.integrate_moments(edges[i], edges[i+1], j, i, t)
-        self.edges = edges
+        self.edges = edges.copy()
     
     def xi2(self, x, t, x0, c1, v0tilde):
         return -x - c1 - v0tilde*(t)
-- 
2.43.0


From 2ffacadd7c0512788fcbcf1c1d0a0bc733cf9a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 07/32] fix: refresh the opacity moments of the time-dependent
 opacity every step

The fake_sedov opacity depends on time; with the moving flag left False its moments
were recomputed only in cells whose edges moved.
---
 moving_mesh_transport/solver_classes/opacity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index be775d0..54103b5 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -62,8 +62,8 @@ class sigma_integrator():
         self.VP = np.zeros(self.M+1)
         self.AAA = np.zeros((self.M+1, self.M + 1, self.Msigma + 1))
         self.moving = False
-        # if self.sigma_func['fake_sedov'] == True:
-        #     self.moving = True
+        if self.sigma_func['fake_sedov'] == True:
+            self.moving = True
         # self.sigma_v = 0.005
         self.sigma_v = build.fake_sedov_v0
 
-- 
2.43.0


From b190d62c36f034a0d1eff9586de2eea3ff195173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 08/32] fix: return zero, not the previous result, for sources
 without an uncollided form

uncollided_solution returned whatever the last call had stored when the source type
has no branch in the current geometry.
---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index 6c0e820..5a48352 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -300,6 +300,7 @@ class uncollided_solution(object):
         return temp
 
     def uncollided_solution(self, xs, t):
+        self.uncollided_solution_return = np.zeros(xs.size)
         if self.uncollided == True:
             if self.geometry['slab'] == True:
                 if self.source_type[0] == 1:
@@ -330,8 +331,6 @@ class uncollided_solution(object):
                     self.uncollided_solution_return = (self.point_source(xs, t) * self.source_strength)
                 elif self.source_type[1] == 1:
                     self.uncollided_solution_return = self.shell_IC_uncollided_solution(xs, t) * self.source_strength
-        else:
-            self.uncollided_solution_return = np.zeros(xs.size)
 
         return self.uncollided_solution_return
         
-- 
2.43.0


From e4526169424f27f81094a7dba8e0bd0e28d65b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 09/32] fix: add the uncollided flux at the exits to the exit
 flux

get_exit_dist evaluated the uncollided solution at the output points instead of the
two boundary points, so the sum had the wrong shape or the wrong values.
---
 moving_mesh_transport/solver_classes/make_phi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/make_phi.py b/moving_mesh_transport/solver_classes/make_phi.py
index dc67814..3b7f87e 100644
--- a/moving_mesh_transport/solver_classes/make_phi.py
+++ b/moving_mesh_transport/solver_classes/make_phi.py
@@ -107,7 +107,7 @@ class make_output:
         self.exit_dist = psi
         output = np.sum(np.multiply(psi.transpose(), self.ws), axis = 1)
         if self.uncollided == True:
-            uncol = uncollided_solution.uncollided_solution(self.xs, self.t)
+            uncol = uncollided_solution.uncollided_solution(x_eval, self.t)
             output += uncol
         return self.exit_dist, output
         
-- 
2.43.0


From 847457cf7111bf9ed595ec0cb357ab91f8811a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 10/32] fix: use the total opacity in the spherical absorption
 term

The spherical right hand side subtracted U instead of the collision vector VV, so
sigma_t had no effect on a spherical run.
---
 moving_mesh_transport/solver_classes/rhs_class_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/rhs_class_1.py b/moving_mesh_transport/solver_classes/rhs_class_1.py
index 4bf9059..15b746a 100644
--- a/moving_mesh_transport/solver_classes/rhs_class_1.py
+++ b/moving_mesh_transport/solver_classes/rhs_class_1.py
@@ -335,7 +335,7 @@ class rhs_class():
                     # if max(np.abs(PV - PV2)) >= 1e-10:
                     #     assert(0)
                     RHS += PV * self.c
-                    RHS -= U
+                    RHS -= VV
 
                     # RHS2 -= (3 * (a+b) / 2 / (a*b + b**2 + a**2)) * dterm 
 
-- 
2.43.0


From 6604f281f886da54cf8db0ab55acdfe6beaefaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 11/32] fix: pass the geometry to find_nodes when evaluating at
 several times

find_nodes takes three arguments; with eval_times and default output points solve()
stopped with a TypeError after the integration.
---
 moving_mesh_transport/solver_functions/main_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/main_functions.py b/moving_mesh_transport/solver_functions/main_functions.py
index 969915a..06a525f 100644
--- a/moving_mesh_transport/solver_functions/main_functions.py
+++ b/moving_mesh_transport/solver_functions/main_functions.py
@@ -258,7 +258,7 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
             mesh.move(tt)
             edges = mesh.edges
             if choose_xs == False:
-                xs = find_nodes(edges, M)
+                xs = find_nodes(edges, M, geometry)
             elif choose_xs == True:
                 xs = specified_xs
             output = make_output(tt, N_ang, ws, xs, sol.y[:,it].reshape((N_ang+extra_deg_freedom,N_space,M+1)), M, edges, uncollided, geometry)
-- 
2.43.0


From 6c64904a759f7ca35b4a6f5ea227bc4e5a1bb40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 12/32] fix: subtract the far edge in the two-direction
 square-source flux after switch-off

---
 moving_mesh_transport/solver_classes/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index e027d4e..40540b9 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -311,7 +311,8 @@ def uncollided_su_olson_s2(x,t,x0,t0):
             if t - (x0-x)*3/math.sqrt(3) <= 0:
                 return  2*(s2_F(t,  T0) - s2_F(t, 0))
             elif t - (x0-x)*3/math.sqrt(3) > 0 and t - (x0-x)*3/math.sqrt(3) < T0:
-                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, 0)
+                arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
+                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, arg2)
             else:
                 return 0
          
-- 
2.43.0


From c8da9a902755f8b99975e4ec42e26481dac04628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 13/32] fix: remember the initial edges of the linearly moving
 slab mesh

---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index ac29274..eef0ee5 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -497,7 +497,7 @@ class mesh_class(object):
                 self.edges = np.linspace(-self.x0, self.x0, self.N_space+1)
             elif self.geometry['sphere'] == True:
                 self.edges = np.linspace(0, self.x0, self.N_space+1)
-                self.edges0 = self.edges
+            self.edges0 = self.edges
             self.Dedges = self.edges/self.edges[-1] * self.speed
             self.Dedges_const = self.Dedges
             if self.source_type[0] == 2:
-- 
2.43.0


From aa1f1ed69ce337f1bd535ed5fadd284b95a5fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 14/32] fix: compute the slab transport right-hand side instead
 of returning the solution

---
 moving_mesh_transport/solver_classes/rhs_class_1.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/moving_mesh_transport/solver_classes/rhs_class_1.py b/moving_mesh_transport/solver_classes/rhs_class_1.py
index 15b746a..a601c9b 100644
--- a/moving_mesh_transport/solver_classes/rhs_class_1.py
+++ b/moving_mesh_transport/solver_classes/rhs_class_1.py
@@ -235,6 +235,10 @@ class rhs_class():
                     # print(self.mus[self.N_ang-angle-1], -self.mus[angle])
                     
                 LU = num_flux.LU
+                # manufactured source depends on the angle
+                if self.source_type[4] == 1:
+                    source.make_source_not_isotropic(t, mul, xL, xR)
+                    S = source.S
                 # Get absorption term
                 sigma_class.make_vectors(mesh.edges, V_old[angle,space,:], space)
                 VV = sigma_class.VV
@@ -363,6 +367,10 @@ class rhs_class():
                     
                     V_new[angle,space,:] = RHS  
 
+                elif self.geometry['slab'] == True:
+                    RHS = np.dot(G,U) - LU + mul*np.dot(L,U) - VV + PV + 0.5*S
+                    V_new[angle,space,:] = RHS
+
         return V_new.reshape((self.N_ang) * self.N_space * (self.M+1))
         
     
-- 
2.43.0


From b80816d2a0d279eb44d0a959d1dd3f5d5cc29104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 15/32] fix: remember the initial edges of every mesh

---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index eef0ee5..bc51a70 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -855,7 +855,7 @@ class mesh_class(object):
                     elif self.move_func == 2:
                             self.thin_square_init_func()
 
-        # self.edges0 = self.edges
+        self.edges0 = self.edges
         self.Dedges_const = self.Dedges
 
 
-- 
2.43.0


From 79031e21ea8fe294dbe50efa958acf702590b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 16/32] fix: move the mesh of every source type with its edge
 velocities

---
 moving_mesh_transport/solver_classes/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index bc51a70..261448e 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -257,7 +257,7 @@ class mesh_class(object):
                     else:
                             print("no move function selected")
                             assert(0)
-            elif np.all(self.source_type == 0):
+            else:
                 # print(self.Dedges)
                 self.edges = self.edges0 + self.Dedges*t
 
@@ -807,7 +807,7 @@ class mesh_class(object):
         if self.thick == False:     # thick and thin sources have different moving functions
 
             # if self.problem_type in ['gaussian_IC', 'gaussian_source']:
-            if self.source_type[3] == 1 or self.source_type[5] == 1:
+            if self.source_type[3] == 1 or self.source_type[4] == 1 or self.source_type[5] == 1:
                 self.simple_moving_init_func()
             # elif self.problem_type in ['square_IC', 'square_source']:
             elif self.source_type[1] == 1 or self.source_type[2] == 1:
-- 
2.43.0


From 0783e9a6a3240668c187962ce21d5ae656a3e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 17/32] fix: use the original edge velocities before the source
 switches off

---
 moving_mesh_transport/solver_classes/mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 261448e..27c9f9e 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -230,7 +230,8 @@ class mesh_class(object):
 
                             elif (t < self.t0):
                             
-                                self.edges = self.edges0 + self.Dedges*t
+                                self.edges = self.edges0 + self.Dedges_const*t
+                                self.Dedges = self.Dedges_const
 
 
                             # self.Dedges = self.Dedges_const
-- 
2.43.0


From 5b0084a0a936bbd9d524cebbd4c8dc9cc45eb77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 18/32] fix: do not require a fake_sedov entry among the
 opacity options

The constructor read it unconditionally, so a configuration without the entry (the
shipped one) could not be started.
---
 moving_mesh_transport/solver_classes/opacity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index 54103b5..6f6e0d1 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -62,7 +62,7 @@ class sigma_integrator():
         self.VP = np.zeros(self.M+1)
         self.AAA = np.zeros((self.M+1, self.M + 1, self.Msigma + 1))
         self.moving = False
-        if self.sigma_func['fake_sedov'] == True:
+        if 'fake_sedov' in self.sigma_func and self.sigma_func['fake_sedov'] == True:
             self.moving = True
         # self.sigma_v = 0.005
         self.sigma_v = build.fake_sedov_v0
-- 
2.43.0


From 5093ff6cd0c349fb440d3f90d19cf3fd0773b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 19/32] fix: name the self-similar opacity in the shipped
 options as the solver does

opacity.py looks up 'fake_sedov'; selecting the shipped 'f_sedov' entry raised KeyError.
---
 moving_mesh_transport/input_scripts/mesh_parameters.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/input_scripts/mesh_parameters.yaml b/moving_mesh_transport/input_scripts/mesh_parameters.yaml
index 4632cb4..a333e68 100644
--- a/moving_mesh_transport/input_scripts/mesh_parameters.yaml
+++ b/moving_mesh_transport/input_scripts/mesh_parameters.yaml
@@ -25,7 +25,7 @@
 'boundary_source_strength': 1.0
 'boundary_source': False
 'boundary_source_loc': [10,0]
-'sigma_func': {constant: True,linear: False, siewert1: False, siewert2: False, gaussian: False, f_sedov: False} # [constant, gaussian, siewert s = 1, siewert s = infty, Fake Sedov]
+'sigma_func': {constant: True,linear: False, siewert1: False, siewert2: False, gaussian: False, fake_sedov: False} # [constant, gaussian, siewert s = 1, siewert s = infty, Fake Sedov]
 'Msigma': 0
 'fake_sedov_v0': 0.005
 
-- 
2.43.0


From b654dffbcbf0a4bab959829c71d89ec0f685fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 20/32] fix: give the Gaussian source and the manufactured
 problem a source strength

The loader requires source_strength for every problem; both sections of transport.yaml
lacked it, so neither problem could be started.
---
 moving_mesh_transport/input_scripts/transport.yaml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/moving_mesh_transport/input_scripts/transport.yaml b/moving_mesh_transport/input_scripts/transport.yaml
index d08f647..63cbc22 100644
--- a/moving_mesh_transport/input_scripts/transport.yaml
+++ b/moving_mesh_transport/input_scripts/transport.yaml
@@ -75,6 +75,7 @@
 'gaussian_source':
     'sigma': 0.5
     'x0': [3,3,3,3,3]
+    'source_strength': 1.0
     'source_type': [0,0,0,0,0,1,0,0,0,0,0,0,0,0,0]
     'N_angles': [64,128,128,256,512]
     'move_type': [1,0]              # moving mesh function selector
@@ -84,6 +85,7 @@
 # manufactured problem
 'MMS':
     'x0': [0.1]
+    'source_strength': 1.0
     'source_type': [0,0,0,0,1,0,0,0,0,0,0,0,0,0,0]
     'N_angles': [64, 64, 64]
     'move_type': [1,0]              # moving mesh function selector
-- 
2.43.0


From 451b61b25ba9a73b6e72713a3fffd08662d9d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 21/32] fix: look up the opacity of a boundary-source run by
 name

sigma_func is a dictionary of named options since it is read by dictionary_loader; indexing
it with 0..4 raised KeyError after every boundary_source run.
---
 .../solver_functions/run_functions.py                | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 203bad9..c2e7730 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -204,17 +204,17 @@ class run:
             f = lambda x: np.exp(-x**2 /(2 * 0.5**2))
             fsol = lambda x, mu: np.exp(x * 1/mu) 
             plt.figure(3)
-            if solver.sigma_func[0] == 1:
+            if solver.sigma_func['constant'] == 1:
                 # plt.plot(self.xs, self.psi[-1,:], '-^')
                 plt.plot(self.xs, fsol(self.xs+self.x0, -1), 'rx')
                 plt.show()
-            elif solver.sigma_func[1] == 1:
+            elif solver.sigma_func['gaussian'] == 1:
                 self.steady_state_gaussian_benchmark()
             
-            elif solver.sigma_func[2] == 1 or solver.sigma_func[3] == 1:
+            elif solver.sigma_func['siewert1'] == 1 or solver.sigma_func['siewert2'] == 1:
                 self.siewert_bench(solver.sigma_func)
             
-            elif solver.sigma_func[4] == 1:
+            elif solver.sigma_func['fake_sedov'] == 1:
                 plt.figure(4)
                 mu2 = self.mus[np.argmin(np.abs(self.mus - 0.6))]
                 # plt.plot(self.xs[-1], self.psi[-1,-1], '--', label = 'mu = 1 from solver')
@@ -369,7 +369,7 @@ class run:
 
 
 
-        if sigma[2] == 1: 
+        if sigma['siewert1'] == 1: 
             resultsfigns = [9,10]
             plt.figure(9)
             plt.plot(self.psibenchpsis, self.psi0bench, 'kx', label = 'benchmark s = 1')
@@ -379,7 +379,7 @@ class run:
             plt.plot(self.psibenchpsis, self.psi1bench, 'kx', label = 'benchmark s = 1')
             plt.legend()
             plt.show()
-        elif sigma[3] == 1: 
+        elif sigma['siewert2'] == 1: 
             resultsfigns = [11,12]
             plt.figure(11)
             plt.plot(self.psibenchpsis, self.psi0benchinf, 'kx', label = 'benchmark s = inf')
-- 
2.43.0


From 9d886f6a685a3c5fe75d11f6c1f9ec8e11cb3900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:43 +0000
Subject: [PATCH 22/32] fix: let the loader find the documented constant-cv S2
 problems

---
 moving_mesh_transport/loading_and_saving/load_solution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index f294f3c..7e20d61 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -30,6 +30,10 @@ class load_sol:
             self.problem_name = f'transfer_const_cv={self.cv0}_thick'
         elif self.problem_name == 'rad_transfer_const_cv':
             self.problem_name = f'transfer_const_cv={self.cv0}'
+        elif self.problem_name == 'rad_transfer_const_cv_s2':
+            self.problem_name = f'transfer_const_cv={self.cv0}_s2'
+        elif self.problem_name == 'rad_transfer_const_cv_thick_s2':
+            self.problem_name = f'transfer_const_cv={self.cv0}_thick_s2'
         
         
         print('file_name', file_name)
-- 
2.43.0


From 3fc1b7156c7643bb92d5e77e6bdf515c26a1019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:43 +0000
Subject: [PATCH 23/32] fix: load the temperature wave points from the folder
 of the problem (undefined name)

---
 moving_mesh_transport/loading_and_saving/load_solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index 7e20d61..a233dbb 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -95,7 +95,7 @@ class load_sol:
                 self.tpnts = f['su_olson_thick']['tpnts_' + full_str][:]
                 self.left = f['su_olson_thick']['left_' + full_str][:]
                 self.right = f['su_olson_thick']['right_' + full_str][:]
-                self.T_wave = f[folder_name]['T_wave_' + full_str][:]
+                self.T_wave = f['su_olson_thick']['T_wave_' + full_str][:]
 
         elif self.problem_name == 'su_olson_thick_s2':
                 if not f.__contains__(self.problem_name):
@@ -152,7 +152,7 @@ class load_sol:
             self.tpnts = f[self.problem_name]['tpnts_' + full_str][:]
             self.left = f[self.problem_name]['left_' + full_str][:]
             self.right = f[self.problem_name]['right_' + full_str][:]
-            self.T_wave = f[folder_name]['T_wave_' + full_str][:]
+            self.T_wave = f[self.problem_name]['T_wave_' + full_str][:]
 
 
 
-- 
2.43.0


From 6280ab2a7770bf1f8cf751a49ebddd4dd7597b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:43 +0000
Subject: [PATCH 24/32] fix: save the wave points of the constant-cv S2
 problems in their own folder

---
 moving_mesh_transport/loading_and_saving/save_output.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 0fd22c8..a09f5dd 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -249,8 +249,12 @@ class save_output:
             folder_name = "transport"
         elif self.problem_type == 'rad_transfer_constant_cv':
             folder_name =  f"transfer_const_cv={self.cv_const}"
+        elif self.problem_type == 'rad_transfer_constant_cv_s2':
+            folder_name =  f"transfer_const_cv={self.cv_const}_s2"
         elif self.problem_type == 'rad_transfer_constant_cv_thick':
             folder_name =  f"transfer_const_cv={self.cv_const}_thick"
+        elif self.problem_type == 'rad_transfer_constant_cv_thick_s2':
+            folder_name =  f"transfer_const_cv={self.cv_const}_thick_s2"
         elif self.problem_type == "su_olson_s2":
             folder_name = "su_olson_s2"
         elif self.problem_type == "su_olson_thick_s2":
-- 
2.43.0


From 9bcb99be39f02896fbf7868db8c52e53d14ea3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 25/32] fix: report the error against the benchmark (coupling
 options are named, not numbered)

---
 moving_mesh_transport/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index e8464a4..024c4b4 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -234,7 +234,7 @@ class main_class(parameter_load_class):
                 ##################################################################
                     
                 if self.benchmarking == True:
-                    if self.thermal_couple == 0:
+                    if self.thermal_couple['none'] == True:
                         if self.c_scaling == False:
                             benchmark_solution = benchmark(np.abs(xs))[0] #benchmark for RMS
                         elif self.c_scaling == True:
@@ -242,7 +242,7 @@ class main_class(parameter_load_class):
 
                         RMS = np.sqrt(np.mean((phi - benchmark_solution)**2))
                     
-                    elif self.thermal_couple == 1:
+                    else:
                         if  (self.weights == "gauss_lobatto" and (self.sigma != 300 and self.x0[0] != 400)):
                             e_xs = benchmark(np.abs(xs))[2][:,0]
                             phi_bench = benchmark(np.abs(xs))[2][:,1]
@@ -307,7 +307,7 @@ class main_class(parameter_load_class):
                 if self.benchmarking == True:
                     print("RMSE", RMS)
                     if self.major == 'cells':
-                        if self.thermal_couple == 1:
+                        if self.thermal_couple['none'] != True:
                             print("energy RMSE", RMS_energy)
                             if count > 0:
                                 print("material energy convergence order", "%.2f" % convergence(self.RMS_list_energy[count-1], self.N_spaces[count-1], RMS_energy, N_space))
-- 
2.43.0


From 65e24e345faa77db28044c18ccde1338abbb5aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 26/32] fix: report the material energy of thermally coupled
 runs (coupling options are named, not numbered)

---
 moving_mesh_transport/solver.py                          | 2 +-
 moving_mesh_transport/solver_functions/main_functions.py | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index 024c4b4..c29506f 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -165,7 +165,7 @@ class main_class(parameter_load_class):
                             self.temp_function, self.scattering_ratio, self.sigma,
                             self.x0, self.cv0, self.problem_type, self.N_angles, self.epsilon)
 
-                            saving.save_solution(xs[it], phi[it], e, sol_matrix, edges, x0_or_sigma, ws, N_space, s2, psi[it, :, :], self.epsilon, mus)
+                            saving.save_solution(xs[it], phi[it], e[it], sol_matrix, edges, x0_or_sigma, ws, N_space, s2, psi[it, :, :], self.epsilon, mus)
                 
                 
                 self.r_times[count] += (time)/self.N_runs
diff --git a/moving_mesh_transport/solver_functions/main_functions.py b/moving_mesh_transport/solver_functions/main_functions.py
index 06a525f..24cfeae 100644
--- a/moving_mesh_transport/solver_functions/main_functions.py
+++ b/moving_mesh_transport/solver_functions/main_functions.py
@@ -244,7 +244,7 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
         psi = output.psi_out # this is the collided psi
         exit_dist, exit_phi = output.get_exit_dist(uncollided_sol)
         xs_ret = xs
-        if thermal_couple == 1:
+        if thermal_couple['none'] != 1:
             e = output.make_e()
         else:
             e = phi*0
@@ -254,6 +254,7 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
         exit_dist = np.zeros((eval_array.size, N_ang, 2))
         exit_phi = np.zeros((eval_array.size, 2))
         xs_ret = np.zeros((eval_array.size, xs.size))
+        e = np.zeros((eval_array.size, xs.size))
         for it, tt in enumerate(eval_array):
             mesh.move(tt)
             edges = mesh.edges
@@ -266,10 +267,8 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
             psi[it, :, :] = output.psi_out # this is the collided psi
             exit_dist[it], exit_phi[it] = output.get_exit_dist(uncollided_sol)
             xs_ret[it] = xs
-            if thermal_couple == 1:
-                e = output.make_e()
-            else:
-                e = phi*0
+            if thermal_couple['none'] != 1:
+                e[it] = output.make_e()
     computation_time = end-start
     
     return xs_ret, phi, psi, exit_dist, exit_phi,  e, computation_time, sol_last, mus, ws, edges, wavespeed_array, tpnts, left_edges, right_edges, wave_tpnts, wave_xpnts, T_front_location, mus
-- 
2.43.0


From dcda8216d9aa800dcb62ad2b3d089febb230426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 27/32] fix: compare with the benchmark at every point inside
 its interval (the point next to its edge was compared with zero)

---
 .../loading_and_saving/load_bench.py          | 21 ++++---------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_bench.py b/moving_mesh_transport/loading_and_saving/load_bench.py
index ddb6ef9..3dc3653 100644
--- a/moving_mesh_transport/loading_and_saving/load_bench.py
+++ b/moving_mesh_transport/loading_and_saving/load_bench.py
@@ -90,23 +90,10 @@ class load_bench:
         original_xs = self.xs
         
 
-        if abs(xs[-1]-xs[0]) <= 1e-12:
-            symmetric = True
-        else:
-            symmetric = False
-        edge_of_interpolated_sol = original_xs[-1]
-        if symmetric == False:
-            edge_index = np.argmin(np.abs(xs-edge_of_interpolated_sol))
-            self.xs_inside = xs[0:edge_index]
-            stiched_solution[0:edge_index] = self.interpolated_solution(self.xs_inside)
-            stiched_uncollided_solution[0:edge_index] = self.interpolated_uncollided_solution(self.xs_inside)
-        elif symmetric == True:
-            # assuming that the vector is even 
-            middle_index = int(xs.size/2)
-            edge_index = np.argmin(np.abs(xs[middle_index:-1]-edge_of_interpolated_sol))
-            self.xs_inside = xs[middle_index-edge_index:edge_index+middle_index]
-            stiched_solution[middle_index-edge_index:edge_index+middle_index] = self.interpolated_solution(self.xs_inside)
-            stiched_uncollided_solution[middle_index-edge_index:edge_index+middle_index] = self.interpolated_uncollided_solution(self.xs_inside)
+        inside = np.abs(xs) <= original_xs[-1]
+        self.xs_inside = xs[inside]
+        stiched_solution[inside] = self.interpolated_solution(self.xs_inside)
+        stiched_uncollided_solution[inside] = self.interpolated_uncollided_solution(self.xs_inside)
             
         return [stiched_solution, stiched_uncollided_solution]
     
-- 
2.43.0


From 6bf7dc2e41709cc7f9e5bf552a0debaa9483a7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 28/32] fix: steady-state reference uses the width of the
 gaussian opacity (0.5 was left over; the profile has 2)

---
 moving_mesh_transport/solver_functions/run_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index c2e7730..5afe385 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -341,7 +341,7 @@ class run:
     
     def steady_state_gaussian_benchmark(self):
         f = lambda x1, x2, sigma: np.sqrt(np.pi/2)*sigma*(erf(x2/math.sqrt(2)/sigma) - erf(x1/math.sqrt(2)/sigma))
-        fsol = lambda x, x0, mu: np.exp((f(-x0, x, 0.5)) / mu) 
+        fsol = lambda x, x0, mu: np.exp((f(-x0, x, 2.0)) / mu) # width of the gaussian opacity
         phi_sol = self.xs * 0 
         for ix in range(self.xs.size):
             for l in range(self.ws.size):
-- 
2.43.0


From 7203b35506f293744dd464455fb5e67459c4c60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:17 +0000
Subject: [PATCH 29/32] fix: benchmark lookup returns zero beyond its interval
 also for points not in increasing order

---
 moving_mesh_transport/loading_and_saving/load_bench.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_bench.py b/moving_mesh_transport/loading_and_saving/load_bench.py
index 3dc3653..fe95c96 100644
--- a/moving_mesh_transport/loading_and_saving/load_bench.py
+++ b/moving_mesh_transport/loading_and_saving/load_bench.py
@@ -110,7 +110,7 @@ class load_bench:
         if self.ask_for_bench == True:
             original_xs = self.xs
 
-            if xs[-1] > original_xs[-1]:
+            if np.max(xs) > original_xs[-1]:
                 beyond_solution_domain = True
             else:
                 beyond_solution_domain = False
-- 
2.43.0


From c344f6d53c0d5794146f52615a31873a12c9e6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:35 +0000
Subject: [PATCH 30/32] fix: blast-wave error compares the flux of the final
 time with the reference of that time

---
 moving_mesh_transport/solver_functions/run_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 5afe385..09b04c1 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -547,7 +547,7 @@ class run:
         plt.show()
 
         print("#--- --- --- --- --- --- --- --- ---#")
-        phi_interp = interp.interp1d(self.xs[-1], self.phi)
+        phi_interp = interp.interp1d(self.xs[-1], self.phi[-1])
         phi_eval = phi_interp(sparse_xs)
         print('RMSE', RMSE(phi_eval, phi))
         print()
-- 
2.43.0


From 3ee362b3da4c64727fccfd9448bf68598cf6dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:47 +0000
Subject: [PATCH 31/32] fix: benchmark of the speed-scaled time is read at
 31.6228 as at every other time

---
 moving_mesh_transport/loading_and_saving/load_bench.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_bench.py b/moving_mesh_transport/loading_and_saving/load_bench.py
index fe95c96..00a3a19 100644
--- a/moving_mesh_transport/loading_and_saving/load_bench.py
+++ b/moving_mesh_transport/loading_and_saving/load_bench.py
@@ -62,7 +62,7 @@ class load_bench:
             if tfinal != 31.6228:
                 tstring = "t = " + str((self.tfinal))
             elif tfinal == 31.6228:
-                tstring = "t = " + str(float(tfinal))
+                tstring = "t = " + str(float(self.tfinal))
                 
             
             self.solution_dataset = f[source_name][tstring]
-- 
2.43.0


From 9d500edb2b158e36d0dfc40f9a065500c2795c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:40 +0000
Subject: [PATCH 32/32] fix: Gaussian pulse uncollided flux at the time of the
 pulse

The closed form is 0/0 at t = 0 and evaluated to zero there, so the first
stage of the integrator saw no source and the flux reported at time zero
was zero instead of the prescribed Gaussian.
---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index 5a48352..d2a1cd9 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -244,7 +244,10 @@ class uncollided_solution(object):
         sqrtpi = math.sqrt(math.pi)
         for ix in range(xs.size):
             xx = xs[ix]
-            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12)
+            if t > 0:
+                temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12)
+            else: # the expression above is 0/0 at the time of the pulse
+                temp[ix] = math.exp(-xx**2/self.sigma**2)
         return temp
         
     def plane_IC_uncollided_solution(self, xs, t):
-- 
2.43.0

