From c59cb03a691cecaad248f40b5f3d40be4856a5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 01/71] fix: terminal check compares the position error with
 stop_tol, not a boolean

---
 omgtools/vehicles/agv.py                | 2 +-
 omgtools/vehicles/bicycle.py            | 2 +-
 omgtools/vehicles/dubins.py             | 2 +-
 omgtools/vehicles/holonomic.py          | 2 +-
 omgtools/vehicles/holonomic1d.py        | 2 +-
 omgtools/vehicles/holonomic3d.py        | 2 +-
 omgtools/vehicles/holonomicorient.py    | 2 +-
 omgtools/vehicles/quadrotor.py          | 2 +-
 omgtools/vehicles/quadrotor3d_simple.py | 2 +-
 omgtools/vehicles/tool.py               | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index 4c2efa5..367ce9e 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -193,7 +193,7 @@ class AGV(Vehicle):
         # todo: kicked out state[3] since you cannot impose a steerT for now
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:3, -1] - self.poseT) > tol or
-            np.linalg.norm(self.signals['input'][:, -1])) > tol:
+            np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index cec332b..80afdeb 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -226,7 +226,7 @@ class Bicycle(Vehicle):
         # todo: kicked out state[3] since you cannot impose a steerT for now
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:3, -1] - self.poseT) > tol or
-            np.linalg.norm(self.signals['input'][:, -1])) > tol:
+            np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/dubins.py b/omgtools/vehicles/dubins.py
index f7aaacc..4c71880 100644
--- a/omgtools/vehicles/dubins.py
+++ b/omgtools/vehicles/dubins.py
@@ -220,7 +220,7 @@ class Dubins(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomic.py b/omgtools/vehicles/holonomic.py
index aef5c59..672882b 100644
--- a/omgtools/vehicles/holonomic.py
+++ b/omgtools/vehicles/holonomic.py
@@ -145,7 +145,7 @@ class Holonomic(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomic1d.py b/omgtools/vehicles/holonomic1d.py
index 66414df..9560557 100644
--- a/omgtools/vehicles/holonomic1d.py
+++ b/omgtools/vehicles/holonomic1d.py
@@ -85,7 +85,7 @@ class Holonomic1D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomic3d.py b/omgtools/vehicles/holonomic3d.py
index 7ced526..f70b020 100644
--- a/omgtools/vehicles/holonomic3d.py
+++ b/omgtools/vehicles/holonomic3d.py
@@ -116,7 +116,7 @@ class Holonomic3D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomicorient.py b/omgtools/vehicles/holonomicorient.py
index 90c7ff1..45bc919 100644
--- a/omgtools/vehicles/holonomicorient.py
+++ b/omgtools/vehicles/holonomicorient.py
@@ -138,7 +138,7 @@ class HolonomicOrient(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/quadrotor.py b/omgtools/vehicles/quadrotor.py
index 8033357..2504f73 100644
--- a/omgtools/vehicles/quadrotor.py
+++ b/omgtools/vehicles/quadrotor.py
@@ -104,7 +104,7 @@ class Quadrotor(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['pose'][:2, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['dspl'][:, -1])) > tol:
+                np.linalg.norm(self.signals['dspl'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/quadrotor3d_simple.py b/omgtools/vehicles/quadrotor3d_simple.py
index 22e9214..c13e7ad 100644
--- a/omgtools/vehicles/quadrotor3d_simple.py
+++ b/omgtools/vehicles/quadrotor3d_simple.py
@@ -139,7 +139,7 @@ class SimpleQuadrotor3D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['pose'][:3, -1] - self.positionT) > tol or
-                np.linalg.norm(self.signals['dspl'][:, -1])) > tol:
+                np.linalg.norm(self.signals['dspl'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/tool.py b/omgtools/vehicles/tool.py
index 89da6a3..38ea8f2 100644
--- a/omgtools/vehicles/tool.py
+++ b/omgtools/vehicles/tool.py
@@ -163,7 +163,7 @@ class Tool(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
-- 
2.43.0


From bd36accd1cfa0c516fff5288e0e8417cb9dfdb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 02/71] fix: Quadrotor3D is at rest when its input is the hover
 input

---
 omgtools/vehicles/quadrotor3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/vehicles/quadrotor3d.py b/omgtools/vehicles/quadrotor3d.py
index 9d87896..f360450 100755
--- a/omgtools/vehicles/quadrotor3d.py
+++ b/omgtools/vehicles/quadrotor3d.py
@@ -200,7 +200,7 @@ class Quadrotor3D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['pose'][:3, -1] - self.poseT[:3]) > tol or
-                np.linalg.norm(self.signals['input'][:, -1]) - self.g > tol):
+                np.linalg.norm(self.signals['input'][:, -1] - np.array([self.g, 0., 0.])) > tol):
             return False
         else:
             return True
-- 
2.43.0


From f15bb5fd3b8a5f99c15d5ba31b7ac609e9d192e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 03/71] fix: Trailer keeps the signals of its leading vehicle
 current without a plot

---
 omgtools/vehicles/trailer.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index fc0648b..365a48a 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -139,6 +139,7 @@ class Trailer(Vehicle):
                 result = True
         else:  # theta_trT reached or not specified
             result = True
+        self.update_lead_signals()
         result = (self.lead_veh.check_terminal_conditions() and result)  #arrived if lead_veh and trailer checks both True
         return result
 
@@ -175,6 +176,8 @@ class Trailer(Vehicle):
         tg_ha_tr = np.array(sample_splines([tg_ha_tr], time))
         dtg_ha_tr = np.array(sample_splines([dtg_ha_tr], time))
         theta_tr = 2*np.arctan2(tg_ha_tr, 1)
+        if hasattr(self, 'signals'):
+            self.update_lead_signals()
         signals_veh = self.lead_veh.splines2signals(splines[1:], time)
         x_tr = signals_veh['state'][0, :] - self.l_hitch*np.cos(theta_tr)
         y_tr = signals_veh['state'][1, :] - self.l_hitch*np.sin(theta_tr)
@@ -206,6 +209,14 @@ class Trailer(Vehicle):
         pose_tr = state[:3]
         return np.r_[pose_tr , pose_veh]
 
+    def update_lead_signals(self):
+        # since the leading vehicle is not simulated separately it doesn't get a self.signals attribute
+        signals_veh = {}
+        signals_veh['pose'] = self.signals['pose'][3:, ]
+        signals_veh['state'] = self.signals['state'][3:, ]
+        signals_veh['input'] = self.signals['input']
+        self.lead_veh.update_signals(signals_veh)
+
     def draw(self, t=-1):
         surfaces, lines = [], []
         for shape in self.shapes:
@@ -227,11 +238,6 @@ class Trailer(Vehicle):
                                                                          np.sin(self.signals['pose'][2, t])])
             lines += [np.array([pt1, pt2]).T]
         # signals are required for drawing
-        # since this vehicle is not simulated separately it doesn't get a self.signals attribute
-        signals_veh = {}
-        signals_veh['pose'] = self.signals['pose'][3:, ]
-        signals_veh['state'] = self.signals['state'][3:, ]
-        signals_veh['input'] = self.signals['input']
-        self.lead_veh.update_signals(signals_veh)
+        self.update_lead_signals()
         surfaces += self.lead_veh.draw(t)[0]
         return surfaces, lines
-- 
2.43.0


From 8a24a2e3dca30ffeac754bc67ecce6bf34d2e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 04/71] fix: Trailer can be built with its default leading
 vehicle

---
 omgtools/vehicles/trailer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index 365a48a..ccec4ae 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -29,11 +29,12 @@ class Trailer(Vehicle):
 
     def __init__(self, lead_veh=None, shapes=Circle(0.2), l_hitch=0.2, options=None, bounds=None):
         bounds = bounds or {}
+        lead_veh = Dubins(Circle(0.2)) if (lead_veh is None) else lead_veh
         Vehicle.__init__(
             self, n_spl=1 + lead_veh.n_spl, degree=3, shapes=shapes, options=options)
         # n_spl contains all splines of lead_veh and trailer
         # being: tg_ha_trailer, v_til_veh, tg_ha_veh
-        self.lead_veh = Dubins(Circle(0.2)) if (lead_veh is None) else lead_veh  # vehicle which pulls the trailer
+        self.lead_veh = lead_veh  # vehicle which pulls the trailer
         self.l_hitch = l_hitch  # distance between rear axle of trailer and connection point on the car
         self.tmax = bounds['tmax'] if 'tmax' in bounds else np.pi/4.  # limit angle between trailer and vehicle
         self.tmin = bounds['tmin'] if 'tmin' in bounds else -np.pi/4.
-- 
2.43.0


From f4b278d5ebf97df3ac5616e2f75ce89600c06ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 05/71] fix: derivative of a basis with repeated knots is
 finite

---
 omgtools/basics/spline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/omgtools/basics/spline.py b/omgtools/basics/spline.py
index ce8ac4d..2b6f0a3 100644
--- a/omgtools/basics/spline.py
+++ b/omgtools/basics/spline.py
@@ -254,8 +254,11 @@ class BSplineBasis(Basis):
             delta_knots = knots[self.degree - i:] - knots[:- self.degree + i]
             T = np.zeros((len(self) - 1 - i, len(self) - i))
             j = np.arange(len(self) - 1 - i)
-            T[(j, j)] = -1. / delta_knots
-            T[(j, j + 1)] = 1. / delta_knots
+            # a basis function on an empty knot span (repeated knots) vanishes
+            inverse = np.zeros(len(delta_knots))
+            np.divide(1., delta_knots, out=inverse, where=delta_knots != 0)
+            T[(j, j)] = -inverse
+            T[(j, j + 1)] = inverse
             P = (self.degree - i) * np.dot(T, P)
         return B, csr_matrix_alt(P)
 
-- 
2.43.0


From 270c63c953357395371f8ce8b83c910423c50483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 06/71] fix: shift over a knot with few knot intervals or a
 horizon not starting at zero

---
 omgtools/basics/spline_extra.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index dbf2e1e..f6ec1b6 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -168,11 +168,15 @@ def shiftoverknot_T(basis):
     # over the last knot interval.
     knots = basis.knots
     deg = basis.degree
-    m = 1  # number of repeating internal knots
-    while knots[-deg-2-m] >= knots[-deg-2]:
-        m += 1
-    t_shift = knots[deg+1] - knots[0]
-    T = np.diag(np.ones(len(basis)-m), m)
+    N = len(basis)
+    t_extra = knots[-1] - knots[-deg-2]
+    T_extr = extrapolate_T(basis, t_extra)
+    m = T_extr.shape[0] - N  # number of repeating internal knots
+    # knots of the extrapolated spline
+    knots = np.r_[knots[:-deg-1], knots[-1]*np.ones(m),
+                  (knots[-1]+t_extra)*np.ones(deg+1)]
+    t_shift = knots[deg+1]
+    T = np.eye(N, N+m, m)
     _T = np.eye(deg+1)
     for k in range(deg):
         _t = np.zeros((deg+1+k+1, deg+1+k))
@@ -186,9 +190,7 @@ def shiftoverknot_T(basis):
                 _t[j, j] = (t_shift-knots[j])/(knots[j+deg-k]-knots[j])
         _T = _t.dot(_T)
     T[:deg, :deg+1] = _T[deg+1:, :]
-    T_extr = extrapolate_T(basis, knots[-1] - knots[-deg-2])
-    T[-(deg+1):, -(deg+1):] = T_extr[-(deg+1):, -(deg+1):]
-    return T
+    return T.dot(T_extr)
 
 
 def shift_knot1_fwd(cfs, basis, t_shift):
-- 
2.43.0


From f9f66c1df856eff84d23f62fb1b6d3414245fff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 07/71] fix: concatenated splines follow their segments at
 every kind of joint

---
 omgtools/basics/spline_extra.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index f6ec1b6..2734d2e 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -324,9 +324,10 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # all concatenated splines should be of the same degree
                 raise ValueError(
                     'Splines at index ' + l + 'should have same degree.')
-            if n_insert is None:
-                # check continuity, n_insert can be different for each l
-                n_insert = degree[l]+1  # starts at max value
+            n_ins = n_insert
+            if n_ins is None:
+                # check continuity, n_ins can be different for each l and k
+                n_ins = degree[l]+1  # starts at max value
                 for d in range(degree[l]+1):
                     # use ipopt default tolerance as a treshold for check (1e-3)
                     # give dimensions, to compare using the same time scale
@@ -337,15 +338,15 @@ def concat_splines(segments, segment_times, n_insert=None):
                     # this seems due to the finite tolerance of ipopt? and due to the fact that these are floating point numbers
                     val1 = segments[k][l].scale(segment_times[k], shift = prev_time).derivative(d)(prev_time)
                     val2 = prev_segment[l].derivative(d)(prev_time)
-                    if ( abs(val1 - val2)*0.5/(val1 + val2) <= 1e-3):
+                    if abs(val1 - val2)*0.5 <= 1e-3*abs(val1 + val2) + 1e-8:
                         # more continuity = insert less knots
-                        n_insert -= 1
+                        n_ins -= 1
                     else:
-                        # spline values were not equal, stop comparing and use latest n_insert value
+                        # spline values were not equal, stop comparing and use latest n_ins value
                         break
             # else:  # keep n_insert from input
 
-            if n_insert!= degree[l]+1:
+            if n_ins != degree[l]+1:
                 # concatenation requires re-computing the coefficients and/or adding extra knots
                 # here we make the knot vector and coeffs of the total spline (the final output),
                 # but we also compute the knot vector and coeffs for concatenating just two splines,
@@ -354,14 +355,15 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # and afterwards segments 2 and 3, this happens due to the main for loop
 
                 # make total knot vector
-                end_idx = len(knots[l])-(degree[l]+1)+n_insert
+                end_idx = len(knots[l])-(degree[l]+1)+n_ins
                 knots[l] = np.r_[
                     knots[l][:end_idx], s.basis.knots[degree[l]+1:]*segment_times[k] + knots[l][-1]]  # last term = time shift
 
                 # make knot vector for two segments to concatenate
-                end_idx_concat = len(prev_segment[l].basis.knots)-(degree[l]+1)+n_insert
+                end_idx_concat = len(prev_segment[l].basis.knots)-(degree[l]+1)+n_ins
                 knots1 = prev_segment[l].basis.knots[:end_idx_concat]
-                knots2 = s.basis.knots[degree[l]+1:]*segment_times[k] + knots1[-1]  # last term = time shift
+                joint = prev_segment[l].basis.knots[-1]
+                knots2 = s.basis.knots[degree[l]+1:]*segment_times[k] + joint  # last term = time shift
                 knots_concat = np.r_[knots1, knots2]
 
                 # make union basis for two segments to concatenate
@@ -383,7 +385,9 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # then evaluate the splines that you want to concatenate on greville points
                 # of union basis, will give 0 outside their domain
                 s_1 = prev_segment[l](grev_bc)
-                s_2 = segments[k][l].scale(segment_times[k], shift = prev_time)(grev_bc)
+                s_2 = segments[k][l].scale(segment_times[k], shift = joint)(grev_bc)
+                # both splines are defined at the joint itself, count it once
+                s_2[np.array(grev_bc) <= joint] = 0.
                 # sum to get total evaluation
                 eval_sc = s_1 + s_2
 
-- 
2.43.0


From 339d202df25520b1cb138bb6874d2f5ffeb90680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 08/71] fix: constraints with a shutdown condition no longer
 raise NameError

---
 omgtools/basics/optilayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/basics/optilayer.py b/omgtools/basics/optilayer.py
index 75a23aa..53e7e49 100644
--- a/omgtools/basics/optilayer.py
+++ b/omgtools/basics/optilayer.py
@@ -313,7 +313,7 @@ class OptiFather(object):
     def update_bounds(self, current_time):
         lb, ub = copy.deepcopy(self._lb), copy.deepcopy(self._ub)
         for name, shutdown in self._constraint_shutdown.items():
-            exec('shutdown_fun = lambda t: %s' % shutdown)
+            shutdown_fun = eval('lambda t: %s' % shutdown)
             if shutdown_fun(current_time):
                 lb[name], ub[name] = -inf, +inf
         return lb, ub
-- 
2.43.0


From 58a0e1ad703d633d4786f6dc7835f9aba5320b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 09/71] fix: skip=[0, 0] keeps every coefficient of a spline
 constraint

---
 omgtools/basics/optilayer.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/omgtools/basics/optilayer.py b/omgtools/basics/optilayer.py
index 53e7e49..c93f329 100644
--- a/omgtools/basics/optilayer.py
+++ b/omgtools/basics/optilayer.py
@@ -646,15 +646,9 @@ class OptiChild(object):
                     ub*np.ones(expr.coeffs.shape[0]), shutdown)
                 self._splines_dual[name] = {'basis': expr.basis}
             else:
-                new_coeffs = expr.coeffs
-                if skip[0] == 0:
-                    # don't skip anything at the beginning
-                    new_coeffs = new_coeffs[:-skip[1]]
-                elif skip[1] == 0:
-                    # don't skip anything at the end
-                    new_coeffs = new_coeffs[skip[0]:]
-                else:
-                    new_coeffs = new_coeffs[skip[0]:-skip[1]]
+                # skip coefficients at the beginning and at the end
+                new_coeffs = expr.coeffs[
+                    skip[0]:expr.coeffs.shape[0]-skip[1]]
                 self._constraints[name] = (
                     new_coeffs, lb*np.ones(new_coeffs.shape[0]),
                     ub*np.ones(new_coeffs.shape[0]), shutdown)
-- 
2.43.0


From 03dbaf0f885a4f7183c3ba48755879f97041d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 10/71] fix: every vehicle of a fixed horizon problem has its
 own terminal error splines

---
 omgtools/problems/point2point.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 2381500..923ca4f 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -151,7 +151,7 @@ class FixedTPoint2point(Point2pointProblem):
     def define_terminal_constraints(self):
         objective = 0.
         self.term_con_len = []
-        for vehicle in self.vehicles:
+        for l, vehicle in enumerate(self.vehicles):
             term_con, term_con_der = vehicle.get_terminal_constraints(
                 vehicle.splines[0])
             if ('no_term_con_der' in self.options and self.options['no_term_con_der']):
@@ -160,7 +160,7 @@ class FixedTPoint2point(Point2pointProblem):
             for k, con in enumerate(term_con):
                 spline, condition = con[0], con[1]
                 g = self.define_spline_variable(
-                    'g'+str(k), 1, basis=spline.basis)[0]
+                    'g'+str(l)+'_'+str(k), 1, basis=spline.basis)[0]
                 objective += definite_integral(g, self.t0, 1.)
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
@@ -251,7 +251,7 @@ class FixedTPoint2point(Point2pointProblem):
         part_objective = 0.
         for v, vehicle in enumerate(self.vehicles):
             for k in range(self.term_con_len[v]):
-                g = self.father.get_variables(self, 'g'+str(k))[0]
+                g = self.father.get_variables(self, 'g'+str(v)+'_'+str(k))[0]
                 part_objective += horizon_time*definite_integral(g, t0, t1)
         self.objective += part_objective
 
@@ -260,7 +260,7 @@ class FixedTPoint2point(Point2pointProblem):
             obj = 0.
             for v, vehicle in enumerate(self.vehicles):
                 for k in range(self.term_con_len[v]):
-                    g = self.father.get_variables(self, 'g'+str(k))[0]
+                    g = self.father.get_variables(self, 'g'+str(v)+'_'+str(k))[0]
                     obj += self.options['horizon_time']*g.integral()
             return obj
         return self.objective
@@ -409,7 +409,7 @@ class FreeEndPoint2point(FixedTPoint2point):
                 else:
                     spline, condition = con[0], con[1]
                 g = self.define_spline_variable(
-                    'g'+str(k), 1, basis=spline.basis)[0]
+                    'g'+str(l)+'_'+str(k), 1, basis=spline.basis)[0]
                 objective += definite_integral(g, self.t0, 1.)
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
-- 
2.43.0


From 0e6121de5bb5cd99ffcc47822547efe9001e8ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 11/71] fix: MultiFrameProblem passes the motion times to the
 inter-vehicle constraints and defines the option's default

---
 omgtools/problems/multiframeproblem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/multiframeproblem.py b/omgtools/problems/multiframeproblem.py
index 1327b4d..68e425b 100644
--- a/omgtools/problems/multiframeproblem.py
+++ b/omgtools/problems/multiframeproblem.py
@@ -44,6 +44,7 @@ class MultiFrameProblem(Problem):
 
     def set_default_options(self):
         Problem.set_default_options(self)
+        self.options['inter_vehicle_avoidance'] = False
 
     def set_options(self, options):
         Problem.set_options(self, options)
@@ -72,7 +73,7 @@ class MultiFrameProblem(Problem):
                 vehicle.define_trajectory_constraints(total_splines[frame], self.motion_times[frame])
             self.environment.define_collision_constraints(vehicle, total_splines, self.motion_times)
         if len(self.vehicles) > 1 and self.options['inter_vehicle_avoidance']:
-            self.environment.define_intervehicle_collision_constraints(self.vehicles)
+            self.environment.define_intervehicle_collision_constraints(self.vehicles, self.motion_times)
 
         # constrain spline segments
         self.define_init_constraints()
-- 
2.43.0


From c297338e04bd149508303f322bb9bc50fbf866a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 12/71] fix: carry an accelerating obstacle's velocity over to
 the next spline segment

---
 omgtools/environment/obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index c34a5de..d092e90 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -102,8 +102,9 @@ class ObstaclexD(OptiChild):
                 for horizon_time in horizon_times:
                     for k in range(self.n_dim):
                         self.pos_spline[k] = BSpline(self.basis, vertcat(pos0[k], 0.5*v0[k]*horizon_time + pos0[k], pos0[k] + v0[k]*horizon_time + 0.5*a0[k]*(horizon_time**2)))
-                    # update start position for next segment
+                    # update start position and velocity for next segment
                     pos0 = [self.pos_spline[k](1) for k in range(self.n_dim)]
+                    v0 = v0 + a0*horizon_time
             else:
                 # horizon_times was None
                 # pos spline over time horizon
-- 
2.43.0


From f668e3ac1ad75cea9cae41795b55e5196a3f4bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 13/71] fix: Trailer hinge limit compared a difference of
 half-angle tangents with the tangent of the limit

---
 omgtools/vehicles/trailer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index ccec4ae..6034775 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -61,8 +61,9 @@ class Trailer(Vehicle):
                                horizon_time*v_til_veh*(2*tg_ha_veh*(1-tg_ha_tr**2)-(1-tg_ha_veh**2)*2*tg_ha_tr) - horizon_time*eps,
                                -inf, 0.)
         # limit angle between vehicle and trailer
-        self.define_constraint(tg_ha_veh - tg_ha_tr - np.tan(self.tmax/2.), -inf, 0.)
-        self.define_constraint(-tg_ha_veh + tg_ha_tr + np.tan(self.tmin/2.), -inf, 0.)
+        # tan((theta_veh-theta_tr)/2) = (tg_ha_veh-tg_ha_tr)/(1+tg_ha_veh*tg_ha_tr)
+        self.define_constraint(tg_ha_veh - tg_ha_tr - np.tan(self.tmax/2.)*(1+tg_ha_veh*tg_ha_tr), -inf, 0.)
+        self.define_constraint(-tg_ha_veh + tg_ha_tr + np.tan(self.tmin/2.)*(1+tg_ha_veh*tg_ha_tr), -inf, 0.)
         # call lead_veh trajectory constraints
         self.lead_veh.define_trajectory_constraints(splines[1: ])
 
-- 
2.43.0


From 91e001380102a9a497f31218bcdaf6ad4a54fbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:34 +0000
Subject: [PATCH 14/71] fix: FreeEndPoint2point could not be built with the
 default free positions and left derivatives at the end free

---
 omgtools/problems/point2point.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 923ca4f..9d21b72 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -384,16 +384,14 @@ class FreeEndPoint2point(FixedTPoint2point):
     # Optimization modelling related functions
     # ========================================================================
 
-    def construct(self):
+    def define_terminal_constraints(self):
+        objective = 0.
         if self.free_ind is None:
+            # by default, all terminal conditions are free
             self.free_ind = {}
             for vehicle in self.vehicles:
-                term_con = vehicle.get_terminal_constraints(vehicle.splines[0])
+                term_con, _ = vehicle.get_terminal_constraints(vehicle.splines[0])
                 self.free_ind[vehicle] = list(range(len(term_con)))
-        FixedTPoint2point.construct(self)
-
-    def define_terminal_constraints(self):
-        objective = 0.
         self.term_con_len = []
         for l, vehicle in enumerate(self.vehicles):
             term_con, term_con_der = vehicle.get_terminal_constraints(
@@ -414,5 +412,6 @@ class FreeEndPoint2point(FixedTPoint2point):
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
             for con in term_con_der:
+                spline, condition = con[0], con[1]
                 self.define_constraint(spline(1.) - condition, 0., 0.)
         self.define_objective(objective)
-- 
2.43.0


From b4dd0ed2f94f8774c999d03d1a0148c54bedcc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 15/71] fix: radius of a G02 arc was measured in space from a
 centre at z = 0, that of a G03 arc only known after plotting

---
 omgtools/gui/gcode_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index 967437c..37cca9f 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -76,7 +76,8 @@ class G02(GCodeBlock):
         if 'K' in command:
             self.K = command['K']
             self.center[2] = self.Z0+self.K
-        self.radius = distance_between(self.center, [self.X0, self.Y0,self.Z0])
+        # arcs lie in the XY-plane
+        self.radius = distance_between(self.center[:2], [self.X0, self.Y0])
 
         # Todo: add check if IJ, IK, or JK present, if not throw error
 
@@ -187,6 +188,9 @@ class G03(GCodeBlock):
             self.K = command['K']
             self.center[2] = self.Z0+self.K
 
+        # arcs lie in the XY-plane
+        self.radius = distance_between(self.center[:2], [self.X0, self.Y0])
+
         # Todo: add check if IJ, IK, or JK present, if not throw error
 
     def get_coordinates(self):
-- 
2.43.0


From 614c88f03eb003368d3c0f39892302558d5d705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 16/71] fix: the room of a G-code line that moves in z was as
 long as the line in space instead of in the XY-plane

---
 omgtools/problems/gcodeschedulerproblem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index ddf4ee9..faf9b34 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -245,7 +245,8 @@ class GCodeSchedulerProblem(Problem):
                 # not using variable tolerance, or segment is too short to split
                 if (not self.variable_tolerance or distance_between_points(block.start, block.end) < self.split_length):
                     # add tolerance to width to obtain the complete reachable region
-                    width = distance_between_points(block.start, block.end) + 2*tolerance
+                    # the room lies in the XY-plane
+                    width = distance_between_points(block.start[:2], block.end[:2]) + 2*tolerance
                     height = 2*tolerance
                     orientation = np.arctan2(block.end[1]-block.start[1], block.end[0]-block.start[0])
                     shape = Rectangle(width = width,  height = height, orientation = orientation)
@@ -261,7 +262,7 @@ class GCodeSchedulerProblem(Problem):
                     # large tolerances in the first and last parts, tight tolerance in the middle part
 
                     orientation = np.arctan2(block.end[1]-block.start[1], block.end[0]-block.start[0])
-                    width = distance_between_points(block.start, block.end)  # default width
+                    width = distance_between_points(block.start[:2], block.end[:2])  # default width, in XY-plane
 
                     ## part 1
                     l1 = self.split_small*width
-- 
2.43.0


From 140d6b7b04f8d574b632828fe422266f46fe722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 17/71] fix: variable tolerance gave both halves of a split
 G-code arc the start and end of the whole arc

---
 omgtools/problems/gcodeschedulerproblem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index faf9b34..35a1ed8 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -489,13 +489,14 @@ class GCodeSchedulerProblem(Problem):
                         seg_end2 = (seg_end2 + np.array(r['pose'][:3])).tolist()
                         seg_start3 = seg_end2
 
+                        r_number = number + len(divided_rooms)
                         divided_rooms.extend([
                                         {'shape': shape1, 'pose': pose, 'position': pose[:2], 'draw':True,
-                                        'start': block.start, 'end': seg_end1, 'number':number},
+                                        'start': r['start'], 'end': seg_end1, 'number':r_number},
                                         {'shape': shape2, 'pose': pose, 'position': pose[:2], 'draw':True,
-                                        'start': seg_start2 , 'end': seg_end2, 'number':number+1},
+                                        'start': seg_start2 , 'end': seg_end2, 'number':r_number+1},
                                         {'shape': shape3, 'pose': pose, 'position': pose[:2], 'draw':True,
-                                        'start': seg_start3, 'end': block.end, 'number':number+2}])
+                                        'start': seg_start3, 'end': r['end'], 'number':r_number+2}])
                     # assign divided rooms to old variable
                     new_room = divided_rooms
             # save original GCode block in the room description
-- 
2.43.0


From 25e9bb364a2c4d32d62bea8fe0a442c55264e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 18/71] fix: scheduling a G-code program appended a pose to the
 centres of its arcs, so it could not be scheduled again

---
 omgtools/problems/gcodeschedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index 35a1ed8..2a09dc3 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -551,7 +551,7 @@ class GCodeSchedulerProblem(Problem):
             # make a single ring segment
             shape = Ring(radius_in = radius_in, radius_out = radius_out,
                          start = start, end = end, direction = direction)
-            pose = block.center
+            pose = list(block.center)
             pose.extend([0.,0.,0.])  # [x,y,z,orientation], ring always has orientation 0
             new_room = [{'shape': shape, 'pose': pose, 'position': pose[:2], 'draw':True,
                         'start': block.start, 'end': block.end, 'number':number}]
-- 
2.43.0


From 6541e038caf4dd44df42e0cfa953a4d2c15120dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 19/71] fix: circle_polyhedron_intersection misses vertices and
 falling sides; limits and full circle of Ring

---
 omgtools/basics/geometry.py | 4 ++--
 omgtools/basics/shape.py    | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/omgtools/basics/geometry.py b/omgtools/basics/geometry.py
index 8ae0717..3b77d7d 100644
--- a/omgtools/basics/geometry.py
+++ b/omgtools/basics/geometry.py
@@ -144,7 +144,7 @@ def circle_polyhedron_intersection(circle, polyhedron_shape, polyhedron_position
     vertices[1] +=  polyhedron_position[1]
 
     center = circle.signals['position'][:,-1]
-    for i in range(len(vertices)):
+    for i in range(len(vertices[0])):
         # first quickly check if any vertex is inside the circle
         dist = distance_between_points(center, [vertices[0][i], vertices[1][i]])
         if dist <= circle.shape.radius:
@@ -161,7 +161,7 @@ def circle_polyhedron_intersection(circle, polyhedron_shape, polyhedron_position
         # see if intersection point is within the two end points of line
         # and check distance between intersection point and circle center
         line1 = [[x1,y1],[x2,y2]]  # side of polyhedron
-        if (((x1-eps<=x4<=x2+eps and y1-eps<=y4<=y2+eps) or (x1+eps>=x4>=x2-eps and y1+eps>=y4>=y2-eps)) and
+        if ((x1-eps<=x4<=x2+eps or x1+eps>=x4>=x2-eps) and (y1-eps<=y4<=y2+eps or y1+eps>=y4>=y2-eps) and
            (distance_between_points(center, [x4,y4]) <= circle.shape.radius)):
             return True
     return False
diff --git a/omgtools/basics/shape.py b/omgtools/basics/shape.py
index c394bc3..def65e8 100644
--- a/omgtools/basics/shape.py
+++ b/omgtools/basics/shape.py
@@ -88,7 +88,8 @@ class Ring(Shape2D):
     def get_surfaces(self):
         if (self.start == self.end).all():
             # full ring, placed in the origin
-            s = linspace(0, 2*np.pi, 1000)
+            self.start_angle, self.end_angle = 0., 2*np.pi
+            s = np.linspace(self.start_angle, self.end_angle, 1000)
         else:
             # part of a ring, placed in the origin
             self.start_angle = np.arctan2(self.start[1], self.start[0])
@@ -114,11 +115,13 @@ class Ring(Shape2D):
 
     def get_canvas_limits(self):
         # take into account the ring-shape in computation, by computing points on
-        # outer side of the ring
+        # inner and outer side of the ring
         s = np.linspace(self.start_angle, self.end_angle, 1000)
+        points_in = np.vstack((
+            (self.radius_in*np.cos(s), self.radius_in*np.sin(s)), 0*s))
         points_out = np.vstack((
             (self.radius_out*np.cos(s), self.radius_out*np.sin(s)), 0*s))
-        points = np.c_[self.start, self.end, points_out]
+        points = np.c_[points_in, points_out]
         max_xy = np.amax(points, axis=1)
         min_xy = np.amin(points, axis=1)
         return [np.array([min_xy[0], max_xy[0]]),
-- 
2.43.0


From 3578c130d900947afe45446f2c3ee3640510080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 20/71] fix: fleet_center signal of Dubins in the frame of its
 formation constraint

---
 omgtools/vehicles/dubins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/vehicles/dubins.py b/omgtools/vehicles/dubins.py
index 4c71880..e784573 100644
--- a/omgtools/vehicles/dubins.py
+++ b/omgtools/vehicles/dubins.py
@@ -293,8 +293,8 @@ class Dubins(Vehicle):
         signals['input'] = np.c_[v_s, dtheta.T].T
         signals['acc'] = np.c_[acc_s].T
         if hasattr(self, 'rel_pos_c'):
-            x_c = x_s + sample_splines([self.rel_pos_c[0]*2*tg_ha + self.rel_pos_c[1]*(1-tg_ha**2)], time)[0]/den
-            y_c = y_s + sample_splines([self.rel_pos_c[1]*2*tg_ha - self.rel_pos_c[0]*(1-tg_ha**2)], time)[0]/den
+            x_c = x_s + sample_splines([self.rel_pos_c[0]*(1-tg_ha**2) - self.rel_pos_c[1]*2*tg_ha], time)[0]/den
+            y_c = y_s + sample_splines([self.rel_pos_c[0]*2*tg_ha + self.rel_pos_c[1]*(1-tg_ha**2)], time)[0]/den
             signals['fleet_center'] = np.c_[x_c, y_c].T
 
         if (self.options['substitution']): # and not self.options['exact_substitution']):  # don't plot error for exact_subs
-- 
2.43.0


From 0fb98ebab1771c97c6ef5a612b678a88084f8aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 21/71] fix: Obstacle keeps its own copy of the initial
 conditions

---
 omgtools/environment/obstacle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index d092e90..96e2f31 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -47,6 +47,7 @@ class ObstaclexD(OptiChild):
     def __init__(self, initial, shape, simulation, options):
         OptiChild.__init__(self, 'obstacle')
         self.simulation = simulation
+        initial = dict(initial)  # the description of the user is left as it is
         if 'trajectories' in simulation:
             for key in simulation['trajectories']:
                 # user specified a value at time 0
-- 
2.43.0


From ad5d4200dbf7c6f9567f01ede78a73d254d74559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 22/71] fix: obstacles bounce off the walls by reflection of
 their velocity

---
 omgtools/environment/environment.py | 71 +++++------------------------
 1 file changed, 11 insertions(+), 60 deletions(-)

diff --git a/omgtools/environment/environment.py b/omgtools/environment/environment.py
index dd6d9fd..ec29ee5 100644
--- a/omgtools/environment/environment.py
+++ b/omgtools/environment/environment.py
@@ -265,66 +265,17 @@ class Environment(OptiChild, PlotLayer):
                 # check if the obstacle doesn't hit the borders
                 # Todo: supposed that self.room[0] is the total room, containing outer border
                 if obstacle.is_outside_of(self.room[0]):
-                    # bounce straight off border
-                    if any(v == 0 for v in vel):
-                        vel_new = -vel
-                    # bounce diagonally off border
-                    else:
-                        old_pos = np.copy(obstacle.signals['position'][:,-1])
-                        if (vel[0] > 0 and vel[1] > 0):
-                            # direction = up_right
-                            # new direction may be down_right or up_left
-                            # test new direction down_right by shifting obstacle
-                            obstacle.signals['position'][:,-1] += [0.15,-0.15]
-                            if not obstacle.is_outside_of(self.room[0]):
-                                # no overlap so move down_right
-                                # new_direction = down_right
-                                vel_new = [vel[0], -vel[1]]
-                            else:
-                                # there was overlap so move up_left
-                                # new_direction = up_left
-                                vel_new = [-vel[0],vel[1]]
-                        elif vel[0] < 0 and vel[1] > 0:
-                            # direction = up_left
-                            # new direction may be down_left or up_right
-                            # test new direction down_left by shifting obstacle
-                            obstacle.signals['position'][:,-1] += [-0.15,-0.15]
-                            if not obstacle.is_outside_of(self.room[0]):
-                                # no overlap so move down_left
-                                # new_direction = down_left
-                                vel_new = [vel[0], -vel[1]]
-                            else:
-                                # there was overlap so move up_right
-                                # new_direction = up_right
-                                vel_new = [-vel[0],vel[1]]
-                        elif vel[0] > 0 and vel[1] < 0:
-                            # direction = down_right
-                            # new direction may be down_left or up_right
-                            # test new direction down_left by shifting obstacle
-                            obstacle.signals['position'][:,-1] += [-0.15,-0.15]
-                            if not obstacle.is_outside_of(self.room[0]):
-                                # no overlap so move down_left
-                                # new_direction = down_left
-                                vel_new = [-vel[0], vel[1]]
-                            else:
-                                # there was overlap so move up_right
-                                # new_direction = up_right
-                                vel_new = [vel[0],-vel[1]]
-                        elif vel[0] < 0 and vel[1] < 0:
-                            # direction = down_left
-                            # new direction may be down_right or up_left
-                            # test new direction down_right by shifting obstacle
-                            obstacle.signals['position'][:,-1] += [0.15,-0.15]
-                            if not obstacle.is_outside_of(self.room[0]):
-                                # no overlap so move down_right
-                                # new_direction = down_right
-                                vel_new = [-vel[0], vel[1]]
-                            else:
-                                # there was overlap so move up_left
-                                # new_direction = up_left
-                                vel_new = [vel[0],-vel[1]]
-                        # reset position
-                        obstacle.signals['position'][:,-1] = old_pos
+                    # bounce off the borders that were crossed: the velocity component that
+                    # leads further outside is turned around
+                    room_limits = self.room[0]['shape'].get_canvas_limits()
+                    limits = obstacle.shape.get_canvas_limits()
+                    pos = obstacle.signals['position'][:,-1]
+                    vel_new = np.copy(vel)
+                    for k in range(2):
+                        if pos[k] + limits[k][0] < self.room[0]['position'][k] + room_limits[k][0]:
+                            vel_new[k] = abs(vel[k])
+                        elif pos[k] + limits[k][1] > self.room[0]['position'][k] + room_limits[k][1]:
+                            vel_new[k] = -abs(vel[k])
                     print('setting new velocity')
                     obstacle.signals['velocity'][:,-1] = vel_new
             obstacle.simulate(simulation_time, sample_time)
-- 
2.43.0


From cb341b7f30e9ab24c690970e1ea0f4bf7f41039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 23/71] fix: number of samples in a time span is rounded, not
 cut off

---
 omgtools/vehicles/vehicle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 56333cc..98fd1f8 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -393,7 +393,7 @@ class Vehicle(OptiChild, PlotLayer):
             self.traj_storage = {}
             self.traj_storage_kn = {}
             self.pred_storage = {}
-        repeat = int(simulation_time/sample_time)
+        repeat = int(np.round(simulation_time/sample_time, 6))
         self._add_to_memory(self.traj_storage, self.trajectories, repeat)
         self._add_to_memory(self.traj_storage_kn, self.trajectories_kn, repeat)
         self._add_to_memory(self.pred_storage, self.prediction, repeat)
@@ -412,7 +412,7 @@ class Vehicle(OptiChild, PlotLayer):
     def integrate_ode(self, state0, input, integration_time, sample_time, ode=None):
         if ode is None:
             ode = self._ode
-        n_samp = int(integration_time/sample_time)+1
+        n_samp = int(np.round(integration_time/sample_time, 6))+1
         time_axis = np.linspace(0., (n_samp-1)*sample_time, n_samp)
         # make interpolation function which returns the input at a certain time
         time_interp = np.linspace(
-- 
2.43.0


From e81e45979032ea2271dd0faf4347e2aa989c13d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 24/71] fix: number of delayed samples is rounded, not cut off

---
 omgtools/execution/deployer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/execution/deployer.py b/omgtools/execution/deployer.py
index 4d8fd64..8f2ea9a 100644
--- a/omgtools/execution/deployer.py
+++ b/omgtools/execution/deployer.py
@@ -58,7 +58,7 @@ class Deployer:
             self.problem.initialize(current_time)
             delay = 0
         else:
-            delay = int((current_time - self.current_time - update_time)/self.sample_time)
+            delay = int(np.round((current_time - self.current_time - update_time)/self.sample_time, 6))
 
         # if the update time + delay is more than the time which is left, leave out the delay
         if hasattr(self.problem.vehicles[0], 'trajectories'):
-- 
2.43.0


From b050c0d775598f5669539d803f62d62090046c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 25/71] fix: one definition of the current knot interval; shift
 once per knot passed

---
 omgtools/problems/admm.py              |  9 ++++-----
 omgtools/problems/dualdecomposition.py |  7 +++----
 omgtools/problems/point2point.py       | 21 ++++++++++++++-------
 3 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/omgtools/problems/admm.py b/omgtools/problems/admm.py
index 20b2c3f..d0e776c 100644
--- a/omgtools/problems/admm.py
+++ b/omgtools/problems/admm.py
@@ -409,7 +409,7 @@ class ADMM(DualUpdater):
         t0 = time.time()
         self.var_admm['z_i_p'] = self.var_admm['z_i']
         self.var_admm['z_ij_p'] = self.var_admm['z_ij']
-        current_time = np.round(current_time, 6) % self.problem.knot_time
+        current_time = self.problem.get_knot_time(current_time)[1]
         horizon_time = self.problem.options['horizon_time']
         rho = self.options['rho']
         if self._lineq_updz:
@@ -456,7 +456,7 @@ class ADMM(DualUpdater):
         l_i = self.var_admm['l_i']
         l_ij = self.var_admm['l_ij']
         x_j = self.var_admm['x_j']
-        t = np.round(current_time, 6) % self.problem.knot_time
+        t = self.problem.get_knot_time(current_time)[1]
         T = self.problem.options['horizon_time']
         rho = self.options['rho']
         out = self.problem_upd_l(x_i, z_i, z_ij, l_i, l_ij, x_j, rho)
@@ -477,8 +477,7 @@ class ADMM(DualUpdater):
     def init_step(self, current_time, update_time):
         self.problem.init_step(current_time, update_time)
         # transform spline variables
-        if ((current_time > 0. and
-             np.round(current_time, 6) % self.problem.knot_time == 0)):
+        for _ in range(self.problem.n_knots_passed):
             tf = shift_over_knot
             for key in ['x_i', 'z_i', 'z_i_p', 'l_i', 'l_i_p']:
                 self.var_admm[key] = self._transform_spline(
@@ -499,7 +498,7 @@ class ADMM(DualUpdater):
         z_ij = self.var_admm['z_ij']
         z_ij_p = self.var_admm['z_ij_p']
         x_j = self.var_admm['x_j']
-        t = np.round(current_time, 6) % self.problem.knot_time
+        t = self.problem.get_knot_time(current_time)[1]
         T = self.problem.options['horizon_time']
         rho = self.options['rho']
         out = self.problem_upd_res(x_i, z_i, z_i_p, z_ij, z_ij_p, x_j, t, T, rho)
diff --git a/omgtools/problems/dualdecomposition.py b/omgtools/problems/dualdecomposition.py
index 0dd2ac7..8347b90 100644
--- a/omgtools/problems/dualdecomposition.py
+++ b/omgtools/problems/dualdecomposition.py
@@ -214,7 +214,7 @@ class DDUpdater(DualUpdater):
         x_j = self.var_dd['x_j']
         z_ij = self.var_dd['z_ij']
         l_ij = self.var_dd['l_ij']
-        t = np.round(current_time, 6) % self.problem.knot_time
+        t = self.problem.get_knot_time(current_time)[1]
         T = self.problem.options['horizon_time']
         rho = self.options['rho']
         out = self.problem_upd_l(x_j, z_ij, l_ij, t, T, rho)
@@ -232,8 +232,7 @@ class DDUpdater(DualUpdater):
     def init_step(self, current_time, update_time):
         self.problem.init_step(current_time, update_time)
         # transform spline variables
-        if ((current_time > 0. and
-             np.round(current_time, 6) % self.problem.knot_time == 0)):
+        for _ in range(self.problem.n_knots_passed):
             tf = shift_over_knot
             for key in ['x_i']:
                 self.var_dd[key] = self._transform_spline(
@@ -247,7 +246,7 @@ class DDUpdater(DualUpdater):
 
     def get_residuals(self, current_time):
         t0 = time.time()
-        current_time = np.round(current_time, 6) % self.problem.knot_time
+        current_time = self.problem.get_knot_time(current_time)[1]
         horizon_time = self.problem.options['horizon_time']
         tf = lambda cfs, basis: shift_knot1_fwd(
             cfs, basis, current_time/horizon_time)
diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 9d21b72..fffa769 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -174,7 +174,7 @@ class FixedTPoint2point(Point2pointProblem):
     def set_parameters(self, current_time):
         parameters = Point2pointProblem.set_parameters(self, current_time)
         if self.init_time is None:
-            parameters[self]['t'] = np.round(current_time, 6) % self.knot_time
+            parameters[self]['t'] = self.get_knot_time(current_time)[1]
         else:
             parameters[self]['t'] = self.init_time
         parameters[self]['T'] = self.options['horizon_time']
@@ -184,13 +184,20 @@ class FixedTPoint2point(Point2pointProblem):
     # Deploying related functions
     # ========================================================================
 
+    def get_knot_time(self, current_time):
+        # index of the knot interval at current_time and time elapsed in it
+        interval = int(np.round(current_time/self.knot_time, 6))
+        rel_time = np.round(current_time, 6) - interval*self.knot_time
+        return interval, max(0., np.round(rel_time, 9))
+
     def init_step(self, current_time, update_time):
         # transform spline variables
         if not hasattr(self, 'current_time_prev'):
             self.current_time_prev = 0
-        interval_prev = int(np.round(self.current_time_prev/self.knot_time, 6))
-        interval_now = int(np.round(current_time/self.knot_time, 6))
-        if (interval_prev < interval_now): # passed a knot
+        interval_prev = self.get_knot_time(self.current_time_prev)[0]
+        interval_now = self.get_knot_time(current_time)[0]
+        self.n_knots_passed = max(0, interval_now - interval_prev)
+        for _ in range(self.n_knots_passed):
             self.father.transform_primal_splines(lambda coeffs, basis, T:
                                                  T.dot(coeffs))
             # self.father.transform_dual_splines(lambda coeffs, basis, T:
@@ -217,7 +224,7 @@ class FixedTPoint2point(Point2pointProblem):
             # its time horizon lies in the past. Therefore, we need to pass the
             # current time relatively to the begin of this time horizon. In this
             # way, only the future, relevant, part will be saved/plotted.
-            rel_current_time = np.round(current_time-self.start_time, 6) % self.knot_time
+            rel_current_time = self.get_knot_time(current_time-self.start_time)[1]
         else:
             rel_current_time = self.init_time
         # store trajectories in vehicles
@@ -235,7 +242,7 @@ class FixedTPoint2point(Point2pointProblem):
     def simulate(self, current_time, simulation_time, sample_time):
         horizon_time = self.options['horizon_time']
         if self.init_time is None:
-            rel_current_time = np.round(current_time-self.start_time, 6) % self.knot_time
+            rel_current_time = self.get_knot_time(current_time-self.start_time)[1]
         else:
             rel_current_time = self.init_time
         if horizon_time - rel_current_time < simulation_time:
@@ -244,7 +251,7 @@ class FixedTPoint2point(Point2pointProblem):
         Problem.simulate(self, current_time, simulation_time, sample_time)
 
     def compute_partial_objective(self, current_time, update_time):
-        rel_current_time = np.round(current_time-self.start_time, 6) % self.knot_time
+        rel_current_time = self.get_knot_time(current_time-self.start_time)[1]
         horizon_time = self.options['horizon_time']
         t0 = rel_current_time/horizon_time
         t1 = t0 + update_time/horizon_time
-- 
2.43.0


From 2eab163ce5ad9117972c9915036ac6fc97ea05a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 26/71] fix: free end time warm start shifts by the time that
 passed over the full plan

---
 omgtools/problems/point2point.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index fffa769..564fa6d 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -359,7 +359,7 @@ class FreeTPoint2point(Point2pointProblem):
         return Point2pointProblem.stop_criterium(self, current_time, update_time)
 
     def init_step(self, current_time, update_time):
-        if (current_time - self.start_time) > 0:
+        if current_time > 0:  # relative to start_time
             T = self.father.get_variables(self, 'T')[0][0]
             # check if almost arrived, if so lower the update time
             if T < 2*update_time:
@@ -371,7 +371,7 @@ class FreeTPoint2point(Point2pointProblem):
             # to goal position at target_time. Approximate/Represent this spline in
             # a new basis with new equidistant knots.
             self.father.transform_primal_splines(
-                lambda coeffs, basis: shift_spline(coeffs, update_time/target_time, basis))
+                lambda coeffs, basis: shift_spline(coeffs, update_time/T, basis))
             self.father.set_variables(target_time, self, 'T')
 
     def compute_partial_objective(self, current_time):
-- 
2.43.0


From e5ae319a2a35fb6fbde9f59b42548f08259665c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 27/71] fix: multi-frame warm start shifts the first segment by
 the time that passed

---
 omgtools/problems/multiframeproblem.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/omgtools/problems/multiframeproblem.py b/omgtools/problems/multiframeproblem.py
index 68e425b..a6b1260 100644
--- a/omgtools/problems/multiframeproblem.py
+++ b/omgtools/problems/multiframeproblem.py
@@ -228,7 +228,7 @@ class MultiFrameProblem(Problem):
                                      len(self.update_times))))
 
     def init_step(self, current_time, update_time):
-        if (current_time - self.start_time) > 0:
+        if current_time > 0:  # relative to start_time
             # compute total remaining motion time
             T = 0
             for frame in range(self.n_frames):
@@ -236,18 +236,16 @@ class MultiFrameProblem(Problem):
             # check if almost arrived, if so lower the update time
             if T < 2*update_time:
                 update_time = T - update_time
-                target_time = T
-            else:
-                target_time = T - update_time
             # create spline which starts from the position at update_time and goes
-            # to goal position at target_time. Approximate/Represent this spline in
+            # to the end of the first segment. Approximate/Represent this spline in
             # a new basis with new equidistant knots.
 
             # shifting spline is only required for first segment (index 0), so seg_shift=[0]
-            self.father.transform_primal_splines(
-                lambda coeffs, basis: shift_spline(coeffs, update_time/target_time, basis), seg_shift=[0])
             T_0 = self.father.get_variables(self, 'T'+str(0))[0][0]  # remaining motion time for first segment
-            self.father.set_variables(T_0-update_time, self, 'T0')  # only change time of first segment
+            if update_time < T_0:
+                self.father.transform_primal_splines(
+                    lambda coeffs, basis: shift_spline(coeffs, update_time/T_0, basis), seg_shift=[0])
+                self.father.set_variables(T_0-update_time, self, 'T0')  # only change time of first segment
 
     def compute_partial_objective(self, current_time):
         self.objective = current_time
-- 
2.43.0


From ac7680ae93a2e05dd77406d40d6092aa3adff145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 28/71] fix: distributed prediction passes its arguments in
 their places

---
 omgtools/problems/distributedproblem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/distributedproblem.py b/omgtools/problems/distributedproblem.py
index 88b52e6..57e8905 100644
--- a/omgtools/problems/distributedproblem.py
+++ b/omgtools/problems/distributedproblem.py
@@ -196,8 +196,12 @@ class DistributedProblem(Problem):
     def predict(self, current_time, predict_time, sample_time, states=None, inputs=None, dinputs=None, delay=0, enforce_states=False, enforce_inputs=False):
         if states is None:
             states = [None for k in range(len(self.problems))]
-        for problem, state in zip(self.problems, states):
-            problem.predict(current_time, predict_time, sample_time, state, delay)
+        if inputs is None:
+            inputs = [None for k in range(len(self.problems))]
+        if dinputs is None:
+            dinputs = [None for k in range(len(self.problems))]
+        for problem, state, input, dinput in zip(self.problems, states, inputs, dinputs):
+            problem.predict(current_time, predict_time, sample_time, state, input, dinput, delay, enforce_states, enforce_inputs)
 
     # ========================================================================
     # Simulation related functions
-- 
2.43.0


From 6c4b28e1988322010e048e9224d33dac64379f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 29/71] fix: simulator clock after the last update

---
 omgtools/execution/simulator.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index 565daa3..bf47608 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -41,12 +41,10 @@ class Simulator:
         stop = False
         while not stop:
             stop = self.update()
-            ### adapted ###
-            if (stop or self.update_time - float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)) > self.sample_time:
-                update_time = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
-                 # correcting for first time
-                 # avoid negative update times
-                self.update_timing(max(0,update_time-self.sample_time))
+            simulated_time = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
+            if stop or self.update_time - simulated_time > self.sample_time:
+                # less may be simulated than the update time, e.g. in the last update
+                self.update_timing(max(0., simulated_time))
             else:
                 self.update_timing()
 
@@ -103,7 +101,7 @@ class Simulator:
         self.time = np.r_[0.]
 
     def update_timing(self, update_time=None):
-        update_time = self.update_time if not update_time else update_time
+        update_time = self.update_time if update_time is None else update_time
         self.current_time += update_time
         n_samp = int(np.round(update_time/self.sample_time, 6))
         # n_samp = max(0, int(np.round(update_time/self.sample_time, 6)))
-- 
2.43.0


From 5be999f7fd526269a40488813606d8c0311bcc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 30/71] fix: consensus step and residuals of ADMM use the
 future piece of the splines

---
 omgtools/problems/admm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/omgtools/problems/admm.py b/omgtools/problems/admm.py
index d0e776c..5cb3062 100644
--- a/omgtools/problems/admm.py
+++ b/omgtools/problems/admm.py
@@ -141,8 +141,8 @@ class ADMM(DualUpdater):
         l_ij = self.q_ij_struct(l_ij)
         # transform spline variables: only consider future piece of spline
         tf = lambda cfs, basis: shift_knot1_fwd(cfs, basis, t0)
-        self._transform_spline([x_i, l_i], tf, self.q_i)
-        self._transform_spline([x_j, l_ij], tf, self.q_ij)
+        x_i, l_i = self._transform_spline([x_i, l_i], tf, self.q_i)
+        x_j, l_ij = self._transform_spline([x_j, l_ij], tf, self.q_ij)
         # fill in parameters
         A = A(par.cat)
         b = b(par.cat)
@@ -159,8 +159,8 @@ class ADMM(DualUpdater):
         z_ij_new = self.q_ij_struct(z[l_qi:l_qi+l_qij])
         # transform back
         tf = lambda cfs, basis: shift_knot1_bwd(cfs, basis, t0)
-        self._transform_spline(z_i_new, tf, self.q_i)
-        self._transform_spline(z_ij_new, tf, self.q_ij)
+        z_i_new = self._transform_spline(z_i_new, tf, self.q_i)
+        z_ij_new = self._transform_spline(z_ij_new, tf, self.q_ij)
         out = [z_i_new.cat, z_ij_new.cat]
         # create problem
         prob, buildtime = create_function('upd_z_'+str(self._index), inp, out, self.options)
@@ -292,8 +292,8 @@ class ADMM(DualUpdater):
         x_j = self.q_ij_struct(x_j)
         # transform spline variables: only consider future piece of spline
         tf = lambda cfs, basis: shift_knot1_fwd(cfs, basis, t0)
-        self._transform_spline([x_i, z_i, z_i_p], tf, self.q_i)
-        self._transform_spline([x_j, z_ij, z_ij_p], tf, self.q_ij)
+        x_i, z_i, z_i_p = self._transform_spline([x_i, z_i, z_i_p], tf, self.q_i)
+        x_j, z_ij, z_ij_p = self._transform_spline([x_j, z_ij, z_ij_p], tf, self.q_ij)
         # compute residuals
         pr = mtimes((x_i.cat-z_i.cat).T, (x_i.cat-z_i.cat))
         pr += mtimes((x_j.cat-z_ij.cat).T, (x_j.cat-z_ij.cat))
-- 
2.43.0


From b8508eecb1274917b065eee46b2c61e81a0a5ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 31/71] fix: copies are shifted once per update, not once per
 iteration

---
 omgtools/problems/dualmethod.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/problems/dualmethod.py b/omgtools/problems/dualmethod.py
index bba4538..283bb25 100644
--- a/omgtools/problems/dualmethod.py
+++ b/omgtools/problems/dualmethod.py
@@ -220,6 +220,7 @@ class DualProblem(DistributedProblem):
         it0 = self.iteration
         while (self.iteration - it0) < self.options['max_iter_per_update']:
             self.dual_update(current_time, update_time)
+            update_time = 0.  # time advances only once per update
             self._objectives.append(self.compute_objective())
             self._stacked_x.append(self.get_stacked_x_var_it())
 
-- 
2.43.0


From d6446eed6042617d0a5aa193dbb95d0ec21134c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 32/71] fix: joint formation of two vehicles keeps its coupling

---
 omgtools/problems/formation_central.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/formation_central.py b/omgtools/problems/formation_central.py
index 459ac9d..970cc1b 100644
--- a/omgtools/problems/formation_central.py
+++ b/omgtools/problems/formation_central.py
@@ -53,7 +53,7 @@ class FormationPoint2pointCentral(FixedTPoint2point):
             for nghb in self.fleet.get_neighbors(veh):
                 if veh not in couples[nghb] and nghb not in couples[veh]:
                     couples[veh].append(nghb)
-        if self.fleet.interconnection == 'circular':
+        if self.fleet.interconnection == 'circular' and self.fleet.N > 2:
             couples.pop(self.vehicles[-1], None)
             couples.pop(self.vehicles[-2], None)
 
-- 
2.43.0


From 35f87b71c75b07b786e463aeea7330ef49bd4504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:16 +0000
Subject: [PATCH 33/71] fix: diagonal step down-left may not cut the corner of
 an occupied cell

---
 omgtools/problems/globalplanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index e376a6b..87dd134 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -346,7 +346,7 @@ class Grid(object):
                     accessible = True
             # diagonal down left
             elif (point1[0] - 1 == point2[0] and point1[1] - 1 == point2[1]):
-                if (self.free([point1[0], point1[1] - self.cell_height]) and self.free([point1[0] - 1,point1[1]])):
+                if (self.free([point1[0], point1[1] - 1]) and self.free([point1[0] - 1,point1[1]])):
                     accessible = True
 
         return accessible
-- 
2.43.0


From 40b82744755f6c850989ba088dc3582db9b49197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:16 +0000
Subject: [PATCH 34/71] fix: A* does not refuse when the goal is the last open
 node

---
 omgtools/problems/globalplanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index 87dd134..d84bf28 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -198,7 +198,7 @@ class AStarPlanner(GlobalPlanner):
             self.remove_from_open_list(self.current_node)
             self.closed_list.append(self.current_node)
 
-            if not self.open_list:
+            if not self.open_list and self.current_node.pos != self.goal:
                 # current node is not the goal, and open list is empty
                 # check if there are neigbors left which you can reach and are not yet visited
                 neighbors = self.grid.get_neighbors(self.current_node.pos)
-- 
2.43.0


From b426d4f0657cc6d219acccbff44de54f114e498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:30 +0000
Subject: [PATCH 35/71] fix: cells crossed by a thin obstacle are occupied

---
 omgtools/problems/globalplanner.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index d84bf28..bfbb2fd 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -508,7 +508,14 @@ class Grid(object):
                                         # avoid adding the same cell multiple times
                                         if cell not in occ_cells:
                                             occ_cells.append(cell)
+                                        blocked = True
                                         break  # one obstacle vertex is inside the cell, go to next cell
+                        # cell and obstacle may also cross without any of these points inside the
+                        # other, e.g. for a wall which is thinner than the cell
+                        if (not blocked and
+                            min(vertices[:,0]) < max(cell_vertices[:,0]) and min(cell_vertices[:,0]) < max(vertices[:,0]) and
+                            min(vertices[:,1]) < max(cell_vertices[:,1]) and min(cell_vertices[:,1]) < max(vertices[:,1])):
+                                occ_cells.append(cell)
                 # if cell is found to be occupied, remove it, i.e. don't check again for next obstacle
                 for cell in occ_cells:
                     cells.remove(cell)
-- 
2.43.0


From cd30fda63f47623d69db6e5e0b2c1142499d108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 36/71] fix: A* refuses when start or goal lies in the middle
 of occupied cells

---
 omgtools/problems/globalplanner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index bfbb2fd..1e5ee65 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -153,6 +153,10 @@ class AStarPlanner(GlobalPlanner):
         if goal is not None:
             self.goal = self.grid.move_to_gridpoint(goal)
 
+        if not (self.grid.free(self.start) and self.grid.free(self.goal)):
+            raise RuntimeError('There is no free grid point near the desired start or end! ' +
+                    'Consider using more grid points.')
+
         # initialize A*-algorithm
         self.current_node = self.create_node(self.start)
         self.open_list = []
-- 
2.43.0


From 0b2bbe16c06f316363f5eb95c6df1112e1da9446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:18 +0000
Subject: [PATCH 37/71] fix: an occupied start or goal moves to the closest
 free cell, measured from the occupied one

---
 omgtools/problems/globalplanner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index 1e5ee65..cff10b5 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -398,8 +398,9 @@ class Grid(object):
                 # use an upper bound on this to avoid taking sqrt a lot to
                 # initialize d_min
                 d_min = 2*max(self.cell_height, self.cell_width)
+                occupied_point = moved_point
                 for p in points_to_check:
-                    distance = self.distance_between_cells(p, moved_point)
+                    distance = self.distance_between_cells(p, occupied_point)
                     if distance < d_min:
                         d_min = distance
                         moved_point = p
-- 
2.43.0


From 0eab3d5cf7664221e4453120189f343b07e30273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:28 +0000
Subject: [PATCH 38/71] fix: adding a way-point to a corridor never drops the
 way-points already inside

---
 omgtools/environment/frame.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index d951fe7..0fb543f 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -639,14 +639,14 @@ class CorridorFrame(Frame):
         xmin,ymin,xmax,ymax = self.border['limits']
         xmin_new,ymin_new,xmax_new,ymax_new = xmin,ymin,xmax,ymax
         if point[0] > prev_point[0]:
-            xmax_new = point[0] + self.veh_size*self.margin
+            xmax_new = max(xmax, point[0] + self.veh_size*self.margin)
         elif point[0] < prev_point[0]:
-            xmin_new = point[0] - self.veh_size*self.margin
+            xmin_new = min(xmin, point[0] - self.veh_size*self.margin)
         # else: xmin and xmax are kept
         if point[1] > prev_point[1]:
-            ymax_new = point[1] + self.veh_size*self.margin
+            ymax_new = max(ymax, point[1] + self.veh_size*self.margin)
         elif point[1] < prev_point[1]:
-            ymin_new = point[1] - self.veh_size*self.margin
+            ymin_new = min(ymin, point[1] - self.veh_size*self.margin)
             ymax_new = ymax
         # else: ymin and ymax are kept
 
-- 
2.43.0


From 07c984e75a79e314652891b777e4a42d683737be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:28 +0000
Subject: [PATCH 39/71] fix: a corridor that reaches the lower border of the
 room stays inside the room

---
 omgtools/environment/frame.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 0fb543f..0066cb6 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -749,6 +749,7 @@ class CorridorFrame(Frame):
                 self.border = self.make_border(xmin,ymin_new,xmax,ymax)
                 if ymin_new < self.environment.room[0]['shape'].get_canvas_limits()[1][0] + self.environment.room[0]['position'][1]:
                     # the frame hit the borders, this is the maximum size in this direction
+                    self.border = self.make_border(xmin,ymin,xmax,ymax)
                     break
                 if not self.get_stationary_obstacles():
                     ymin = ymin_new
-- 
2.43.0


From e6054106f55e384abbeb0f63333eba851f89d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:28 +0000
Subject: [PATCH 40/71] fix: vertices of a turned moving obstacle were turned
 twice

---
 omgtools/environment/frame.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 0066cb6..28e245f 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -142,13 +142,8 @@ class Frame(object):
                 obs_vel = obstacle.signals['velocity'][:,-1]
 
                 for chck in obs_chck:
-                    # if it is not a circle, rotate the vertices
-                    if hasattr(obstacle.shape, 'orientation'):
-                        vertex = obstacle.shape.rotate(obstacle.shape.orientation, chck)
-                    else:
-                        vertex = chck
-                    # move to correct position
-                    vertex += obs_pos
+                    # move to correct position (the checkpoints include the orientation of the shape)
+                    vertex = chck + obs_pos
                     # check if vertex is in frame during movement
                     if self.point_in_frame(vertex, time=motion_time,
                                            sample_time=self.check_moving_obs_ts, velocity=obs_vel):
-- 
2.43.0


From 2b5eca708370f7e67720444518635c3e713c556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:28 +0000
Subject: [PATCH 41/71] fix: way-points of ShiftFrame ended with None

---
 omgtools/environment/frame.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 28e245f..d5ad5b3 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -430,7 +430,7 @@ class ShiftFrame(Frame):
             # # move endpoint away from border
             # endpoint = self.move_from_border(points_in_frame[-1], intersection_point, frame,
             #                                                          distance=self.veh_size*self.margin)
-        elif self.endpoint is not None:
+        elif endpoint is not None:
             # vehicle goal is inside frame after shifting
             # shift frame over calculated distance
             xmin, ymin, xmax, ymax = self.move_frame(delta_x, delta_y)
@@ -442,8 +442,10 @@ class ShiftFrame(Frame):
             self.waypoints.append(endpoint)
             # if vehicle goal is too close to the frame border, move the frame extra in that direction
             self.make_last_waypoint_reachable(method='move_frame')
+            self.endpoint = endpoint
         else:
             # all waypoints are within the frame, even without shifting, so don't shift the frame
+            self.waypoints = points_in_frame
             self.endpoint = self.global_path[-1]
 
         # finish frame description
@@ -456,7 +458,6 @@ class ShiftFrame(Frame):
         # If generated frame contains goal position, endpoint will be = goal position, since the goal position
         # was added to the global path. This was necessary because otherwise you will end up on a grid point
         # and not necessarily in the goal position (which can lie between grid points, anywhere on the map)
-        self.waypoints.append(endpoint)
 
     def move_frame(self, delta_x, delta_y, start_pos=None):
         # if no start position is given, default position is used
-- 
2.43.0


From e15cb3eac39785dda616dd012e666fe24b2457c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:43 +0000
Subject: [PATCH 42/71] fix: next frame of type shift is made with all its
 arguments

---
 omgtools/problems/schedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 0225a76..468f54e 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -393,7 +393,7 @@ class SchedulerProblem(Problem):
             start_position = frame.endpoint  # start at end of current frame
             if frame.type is 'shift':
                 next_frame = ShiftFrame(self.environment, start_position, self.frame_size, self.move_limit,
-                                   self.global_path, self.options)
+                                   self.global_path, self.veh_size, self.margin, self.options)
             elif frame.type is 'corridor':
                 next_frame = CorridorFrame(self.environment, start_position, self.global_path,
                                    self.veh_size, self.margin, self.options)
-- 
2.43.0


From 00f5a79d5930baf15a4fd95441ce5a5da208fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:18 +0000
Subject: [PATCH 43/71] fix: a way-point exactly on the upper or right border
 is moved inwards, not to the other side

---
 omgtools/environment/frame.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index d5ad5b3..9681a5e 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -226,7 +226,7 @@ class Frame(object):
                     move_distance = abs(dist_to_border[0]) + self.veh_size*self.margin
                 else:
                     move_distance = -abs(dist_to_border[0]) + self.veh_size*self.margin
-                if dist_to_border[0] <= 0:
+                if self.waypoints[-1][0] - xmin < xmax - self.waypoints[-1][0]:  # closest to xmin
                     xmin = xmin - move_distance
                 else:
                     xmax = xmax + move_distance
@@ -239,7 +239,7 @@ class Frame(object):
                     move_distance = abs(dist_to_border[1]) + self.veh_size*self.margin
                 else:
                     move_distance = -abs(dist_to_border[1]) + self.veh_size*self.margin
-                if dist_to_border[1] <= 0:
+                if self.waypoints[-1][1] - ymin < ymax - self.waypoints[-1][1]:  # closest to ymin
                     ymin = ymin - move_distance
                 else:
                     ymax = ymax + move_distance
@@ -271,7 +271,7 @@ class Frame(object):
                     # to avoid floating point comparison problems, check distance without margin here
                     # problem lies in the x-direction
                     new_waypoint = [0, 0]
-                    if dist_to_border[0]<=0:
+                    if x2 - xmin < xmax - x2:  # closest to xmin
                         new_waypoint[0] = xmin + desired_distance[0]
                     else:
                         new_waypoint[0] = xmax - desired_distance[0]
@@ -289,8 +289,9 @@ class Frame(object):
                 if (not inside_border[1] or abs(dist_to_border[1]) < self.veh_size):
                     # to avoid floating point comparison problems, check distance without margin here
                     # problem lies in the y-direction
+                    y_problem = y2 if new_waypoint is None else new_waypoint[1]
                     new_waypoint = [0, 0]
-                    if dist_to_border[1]<=0:
+                    if y_problem - ymin < ymax - y_problem:  # closest to ymin
                         new_waypoint[1] = ymin + desired_distance[1]
                     else:
                         new_waypoint[1] = ymax - desired_distance[1]
-- 
2.43.0


From 8b45a35294652bc190af9253f4ca2470dc9c6b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:38 +0000
Subject: [PATCH 44/71] fix: a corridor with way-points that are all too close
 to its border starts from the vehicle position

---
 omgtools/environment/frame.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 9681a5e..7729cf0 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -250,9 +250,10 @@ class Frame(object):
             if (not inside_border or any(abs(d) <= self.veh_size*self.margin for d in dist_to_border)):
                 # waypoint was outside of border, or too close to border
                 count = 1
+                points = [self.start_pos] + self.waypoints  # if all waypoints are too close, use the start position
                 while True:  # find waypoint that is far enough from border
-                    inside_border = point_in_rectangle(self.waypoints[-1-count], self.border['limits'])
-                    dist_to_border = self.distance_to_border(self.waypoints[-1-count])
+                    inside_border = point_in_rectangle(points[-1-count], self.border['limits'])
+                    dist_to_border = self.distance_to_border(points[-1-count])
                     if (not inside_border or any(abs(d) <= self.veh_size for d in dist_to_border)):
                         count += 1  # this waypoint was also outside of, or too close to border
                     else:  # found waypoint that is far enough from border
@@ -265,7 +266,7 @@ class Frame(object):
                 desired_distance = 2*[self.veh_size*self.margin]
 
                 # use desired distance to move waypoint to a reachable position
-                x1, y1 = self.waypoints[-1-count]  # reachable waypoint inside frame
+                x1, y1 = points[-1-count]  # reachable waypoint inside frame
                 x2, y2 = self.waypoints[-1]  # unreachable waypoint inside or outside frame
                 if (not inside_border[0] or abs(dist_to_border[0]) < self.veh_size):
                     # to avoid floating point comparison problems, check distance without margin here
-- 
2.43.0


From a67fe29fe88c0389f1fcd4abf47ef15ab403c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:06 +0000
Subject: [PATCH 45/71] fix: words of a comment of several words are not part
 of the G-code block

---
 omgtools/gui/gcode_block.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index 37cca9f..4f5b705 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+import re
 import warnings
 
 class GCodeBlock(object):
@@ -297,14 +298,12 @@ def distance_between(point1, point2):
 
 def generate_gcodeblock(command, number, prev_block):
     # convert string to a dictionary representation
+    command = re.sub(r'\([^)]*\)?', ' ', command)  # neglect comments
     command = command.split()  # split at white spaces
     command_dict = {}
     for c in command:
         if c in ['G00','G01','G02','G03']:
             command_dict['type'] = c
-        elif '(' in c:
-            # neglect this command, since it is a comment
-            pass
         elif 'X' in c:
             command_dict['X'] = float(c[1:])
         elif 'Y' in c:
-- 
2.43.0


From 35b1e7658a20cfc4f99d3a184f50f2e5be5ed0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:06 +0000
Subject: [PATCH 46/71] fix: centre of an arc with only one offset given

---
 omgtools/gui/gcode_block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index 4f5b705..831da4c 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -67,7 +67,7 @@ class G02(GCodeBlock):
 
         self.plane = 'XY'  # in which plane is the arc formed
 
-        self.center = [0, 0, 0]  # initialize
+        self.center = [self.X0, self.Y0, self.Z0]  # an offset that is not given is zero
         if 'I' in command:
             self.I = command['I']
             self.center[0] = self.X0+self.I
@@ -178,7 +178,7 @@ class G03(GCodeBlock):
 
         self.plane = 'XY'  # in which plane is the arc formed
 
-        self.center = [0, 0, 0]  # initialize
+        self.center = [self.X0, self.Y0, self.Z0]  # an offset that is not given is zero
         if 'I' in command:
             self.I = command['I']
             self.center[0] = self.X0+self.I
-- 
2.43.0


From 0a4d790438cbf30ed6224cc0c0bfdcc0ebf311c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:06 +0000
Subject: [PATCH 47/71] fix: coordinates of an arc that moves in z end at the
 end of the arc

---
 omgtools/gui/gcode_block.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index 831da4c..fa7bcd5 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -164,8 +164,10 @@ class G02(GCodeBlock):
             end_angle = start_angle - arc_angle  # clockwise
             angles = np.linspace(start_angle,end_angle,20)
 
-            for s in angles:
-                coords.append([self.center[0]+self.radius*np.cos(s),self.center[1]+self.radius*np.sin(s), self.Z0])
+            heights = np.linspace(self.Z0, self.Z1, 20)
+
+            for s, z in zip(angles, heights):
+                coords.append([self.center[0]+self.radius*np.cos(s),self.center[1]+self.radius*np.sin(s), z])
         else:
             raise ValueError('Trying to plot an arc in 3D space, but only arcs in 2D subspace are supported')
 
@@ -282,8 +284,10 @@ class G03(GCodeBlock):
             end_angle = start_angle + arc_angle  # counter-clockwise
             angles = np.linspace(start_angle,end_angle,20)
 
-            for s in angles:
-                coords.append([self.center[0]+self.radius*np.cos(s),self.center[1]+self.radius*np.sin(s), self.Z0])
+            heights = np.linspace(self.Z0, self.Z1, 20)
+
+            for s, z in zip(angles, heights):
+                coords.append([self.center[0]+self.radius*np.cos(s),self.center[1]+self.radius*np.sin(s), z])
         else:
             raise ValueError('Trying to plot an arc in 3D space, but only arcs in 2D subspace are supported')
 
-- 
2.43.0


From ef6dd4e85032349daf63d82275c0809145493caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:06 +0000
Subject: [PATCH 48/71] fix: an arc that ends in its start point is a complete
 circle

---
 omgtools/gui/gcode_block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index fa7bcd5..d66766a 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -151,7 +151,7 @@ class G02(GCodeBlock):
             angle1 = np.arctan2(self.Y0-self.center[1], self.X0-self.center[0])
             angle2 = np.arctan2(self.Y1-self.center[1], self.X1-self.center[0])
 
-            if angle1 < angle2:
+            if angle1 <= angle2:
                 # clockwise so angle2 must be < angle1
                 # probably angle2 is smaller, but arctan2 returned a negative angle
                 angle1 += 2*np.pi
@@ -271,7 +271,7 @@ class G03(GCodeBlock):
             angle1 = np.arctan2(self.Y0-self.center[1], self.X0-self.center[0])
             angle2 = np.arctan2(self.Y1-self.center[1], self.X1-self.center[0])
 
-            if angle1 > angle2:
+            if angle1 >= angle2:
                 # counter-clockwise so angle2 must be > angle1
                 # probably angle2 is bigger, but arctan2 returned a negative angle
                 angle2 += 2*np.pi
-- 
2.43.0


From ad87f9ab53d77e7379695c2347a99eae245cc7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:07 +0000
Subject: [PATCH 49/71] fix: reading a G-code file with empty lines

---
 omgtools/gui/gcode_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index 3583a43..356bc64 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -130,8 +130,8 @@ class GCodeReader(object):
         for line in file_str:
             line = line.strip().decode("utf-8")
             # extract commands
-            if line[0] == '(':
-                # this is a commented line
+            if not line or line[0] == '(':
+                # this is an empty or commented line
                 pass
             elif line[0] == 'G' or (line[0] == 'N' and (any([code in line for code in self.GCodes]))):
                 self.commands.append(line)
@@ -153,7 +153,7 @@ class GCodeReader(object):
             for line in file_str:
                 line = line.strip().decode("utf-8")
                 # extract commands
-                if line[0] == 'G' or (line[0] == 'N' and 'G' in line):
+                if line and (line[0] == 'G' or (line[0] == 'N' and 'G' in line)):
                     self.commands.append(line)
 
     def create_blocks(self):
-- 
2.43.0


From c52eb99408355a53281054c1988a6c339f82dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:07 +0000
Subject: [PATCH 50/71] fix: shifting and scaling a G-code file under Python 3

---
 omgtools/gui/gcode_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index 356bc64..73d2a1f 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -58,7 +58,7 @@ class GCodeReader(object):
 
         if answer == 'yes':
             # shift and scale the GCode file
-            lines = self.file.read().splitlines()
+            lines = self.file.read().decode("utf-8").splitlines()
 
             # get user input for offset and scaling factor
             offset = []
-- 
2.43.0


From 97a8e6257ed77bc077c8c7b495ecb0f735624b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:07 +0000
Subject: [PATCH 51/71] fix: no empty part when the G-code ends with a
 z-movement

---
 omgtools/gui/gcode_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index 73d2a1f..c4724e8 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -216,7 +216,8 @@ class GCodeReader(object):
                 blocks = []
                 # add z-block separately
                 GCode_blocks.append([block])
-        GCode_blocks.append(blocks)
+        if blocks:
+            GCode_blocks.append(blocks)
         return GCode_blocks
 
     def get_connections(self):
-- 
2.43.0


From 14a1df2e3ba9a1457cc724e55f3cbb7f5fefb3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:07 +0000
Subject: [PATCH 52/71] fix: last connection point is the end of the last block

---
 omgtools/gui/gcode_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index c4724e8..90c93f1 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -225,7 +225,7 @@ class GCodeReader(object):
         connections = []
         for block in self.blocks:
             connections.append([block.X0,block.Y0, block.Z0])
-        connections.append([self.blocks[-1].X0, self.blocks[-1].Y0, self.blocks[-1].Z0])  # add last point
+        connections.append([self.blocks[-1].X1, self.blocks[-1].Y1, self.blocks[-1].Z1])  # add last point
         connections.append([self.blocks[0].X0, self.blocks[0].Y0, self.blocks[0].Z0])  # close contour
         self.connections = np.array(connections)
 
-- 
2.43.0


From 2deb1ff5f3d8a796641410872b74e22b9f2e771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:16 +0000
Subject: [PATCH 53/71] fix: sub-files of a G-code file that is given by name
 are found

---
 omgtools/gui/gcode_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index 90c93f1..0e23cfb 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -41,6 +41,7 @@ class GCodeReader(object):
                     tkmessagebox.showerror(('Error'),details)
                     return
         else:
+            self.filepath = file.rsplit('/',1)[0] if '/' in file else '.'
             try:
                 data = open(file, 'rb')
             except Exception as details:
-- 
2.43.0


From d21f5a6285f03f417e62b099f99695e55ea1937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:33 +0000
Subject: [PATCH 54/71] fix: functions of the exported planner return their
 result

they flowed off their end, which makes the exported program crash
---
 omgtools/export/point2point/Point2Point.cpp                 | 2 +-
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp        | 5 ++++-
 .../point2point/admm/formation/FormationPoint2Point.cpp     | 6 +++---
 omgtools/export/point2point/admm/rendezvous/RendezVous.cpp  | 6 +++---
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/omgtools/export/point2point/Point2Point.cpp b/omgtools/export/point2point/Point2Point.cpp
index 3f39a42..d448c62 100755
--- a/omgtools/export/point2point/Point2Point.cpp
+++ b/omgtools/export/point2point/Point2Point.cpp
@@ -118,7 +118,7 @@ void Point2Point::recover(){
 
 bool Point2Point::update(vector<double>& condition0, vector<double>& conditionT,
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory, vector<obstacle_t>& obstacles){
-    update(condition0, conditionT, state_trajectory, input_trajectory, obstacles, 0);
+    return update(condition0, conditionT, state_trajectory, input_trajectory, obstacles, 0);
 }
 
 bool Point2Point::update(vector<double>& condition0, vector<double>& conditionT,
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index dd5e03f..72f65be 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -108,7 +108,7 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles){
-    update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, 0);
+    return update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, 0);
 }
 
 bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& conditionT,
@@ -303,6 +303,7 @@ bool ADMMPoint2Point::solveUpdz(){
         {horizon_time}, {rho}, {}}, res);
     variables_admm["z_i"] = res.at(0);
     variables_admm["z_ij"] = res.at(1);
+    return true;
 }
 
 bool ADMMPoint2Point::solveUpdl(){
@@ -314,6 +315,7 @@ bool ADMMPoint2Point::solveUpdl(){
         variables_admm["x_j"], {rho}}, res);
     variables_admm["l_i"] = res.at(0);
     variables_admm["l_ij"] = res.at(1);
+    return true;
 }
 
 bool ADMMPoint2Point::computeResiduals(){
@@ -326,6 +328,7 @@ bool ADMMPoint2Point::computeResiduals(){
     residuals[0] = res.at(0).at(0);
     residuals[1] = res.at(1).at(0);
     residuals[2] = res.at(2).at(0);
+    return true;
 }
 
 void ADMMPoint2Point::initVariablesADMM(){
diff --git a/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp b/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp
index 11f5b69..2e36aba 100755
--- a/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp
@@ -52,7 +52,7 @@ bool FormationPoint2Point::update1(vector<double>& condition0, vector<double>& c
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c){
-    update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
+    return update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
 }
 
 bool FormationPoint2Point::update1(vector<double>& condition0, vector<double>& conditionT,
@@ -60,14 +60,14 @@ bool FormationPoint2Point::update1(vector<double>& condition0, vector<double>& c
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c, int predict_shift){
     this->rel_pos_c = rel_pos_c;
-    ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
+    return ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
         x_var, z_ji_var, l_ji_var, obstacles, predict_shift);
 }
 
 bool FormationPoint2Point::update2(vector<vector<double>>& x_j_var,
     vector<vector<double>>& z_ij_var, vector<vector<double>>& l_ij_var,
     vector<double>& residuals){
-    ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
+    return ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
 }
 
 void FormationPoint2Point::fillParameterDict(vector<obstacle_t>& obstacles, map<string, map<string, vector<double>>>& par_dict){
diff --git a/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp b/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp
index 5393a6a..89af092 100755
--- a/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp
+++ b/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp
@@ -52,7 +52,7 @@ bool RendezVous::update1(vector<double>& condition0, vector<double>& conditionT,
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c){
-    update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
+    return update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
 }
 
 bool RendezVous::update1(vector<double>& condition0, vector<double>& conditionT,
@@ -60,14 +60,14 @@ bool RendezVous::update1(vector<double>& condition0, vector<double>& conditionT,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c, int predict_shift){
     this->rel_pos_c = rel_pos_c;
-    ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
+    return ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
         x_var, z_ji_var, l_ji_var, obstacles, predict_shift);
 }
 
 bool RendezVous::update2(vector<vector<double>>& x_j_var,
     vector<vector<double>>& z_ij_var, vector<vector<double>>& l_ij_var,
     vector<double>& residuals){
-    ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
+    return ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
 }
 
 void RendezVous::fillParameterDict(vector<obstacle_t>& obstacles, map<string, map<string, vector<double>>>& par_dict){
-- 
2.43.0


From 83c7184b3ca7c2df0b1fbb00542626706f1f9395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:21 +0000
Subject: [PATCH 55/71] fix: exported warm start shifts every column of a
 spline variable once

the offset of the next variable counted only the rows of a variable
---
 omgtools/export/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index 3968452..af4a7a6 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -436,7 +436,7 @@ class Export(object):
                                  str(var.shape[0])+'+i] = spline_tf[i];\n')
                         code += '\t\t\t}\n'
                         code += '\t\t}\n'
-                    cnt += var.size(1)
+                    cnt += var.size(1)*var.size(2)
             code += '\t}\n'
         elif point2point.__class__.__name__ == 'FreeTPoint2point':
             raise Warning('Initialization for free time problem ' +
-- 
2.43.0


From a665df5a974946c2da07106c9a892862bf2ba172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:07 +0000
Subject: [PATCH 56/71] fix: number of samples in an update of the exported
 planner is rounded, not cut off

0.3/0.1 gave 2
---
 omgtools/export/point2point/Point2Point.cpp          | 10 +++++-----
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp |  2 +-
 omgtools/export/vehicles/Vehicle.cpp                 |  8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/omgtools/export/point2point/Point2Point.cpp b/omgtools/export/point2point/Point2Point.cpp
index d448c62..2bbe144 100755
--- a/omgtools/export/point2point/Point2Point.cpp
+++ b/omgtools/export/point2point/Point2Point.cpp
@@ -34,15 +34,15 @@ parameters(N_PAR), variables(N_VAR), lbg(LBG_DEF), ubg(UBG_DEF), _recover(false)
     if (trajectory_length > int(horizon_time/sample_time)){
         cerr << "trajectory_length > (horizon_time/sample_time)!" << endl;
     }
-    if (trajectory_length > int(update_time/sample_time)){
+    if (trajectory_length > int(round(update_time/sample_time))){
         time.resize(trajectory_length+1);
         state_trajectory.resize(trajectory_length+1, vector<double>(vehicle->getNState()));
         input_trajectory.resize(trajectory_length+1, vector<double>(vehicle->getNInput()));
     }
     else {
-        time.resize(int(update_time/sample_time)+1);
-        state_trajectory.resize(int(update_time/sample_time)+1, vector<double>(vehicle->getNState()));
-        input_trajectory.resize(int(update_time/sample_time)+1, vector<double>(vehicle->getNInput()));
+        time.resize(int(round(update_time/sample_time))+1);
+        state_trajectory.resize(int(round(update_time/sample_time))+1, vector<double>(vehicle->getNState()));
+        input_trajectory.resize(int(round(update_time/sample_time))+1, vector<double>(vehicle->getNInput()));
     }
     this->vehicle = vehicle;
     this->update_time = update_time;
@@ -59,7 +59,7 @@ parameters(N_PAR), variables(N_VAR), lbg(LBG_DEF), ubg(UBG_DEF), _recover(false)
 
 Point2Point::Point2Point(Vehicle* vehicle,
     double update_time, double sample_time, double horizon_time):
-Point2Point(vehicle, update_time, sample_time, horizon_time, int(update_time/sample_time), true){
+Point2Point(vehicle, update_time, sample_time, horizon_time, int(round(update_time/sample_time)), true){
 }
 
 Point2Point::Point2Point(Vehicle* vehicle,
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index 72f65be..2b6c43a 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -50,7 +50,7 @@ residuals(3) {
 
 ADMMPoint2Point::ADMMPoint2Point(Vehicle* vehicle,
     double update_time, double sample_time, double horizon_time):
-ADMMPoint2Point(vehicle, update_time, sample_time, horizon_time, int(update_time/sample_time), INITITER, RHO){
+ADMMPoint2Point(vehicle, update_time, sample_time, horizon_time, int(round(update_time/sample_time)), INITITER, RHO){
 }
 
 ADMMPoint2Point::ADMMPoint2Point(Vehicle* vehicle,
diff --git a/omgtools/export/vehicles/Vehicle.cpp b/omgtools/export/vehicles/Vehicle.cpp
index 65b7226..8cf54ea 100755
--- a/omgtools/export/vehicles/Vehicle.cpp
+++ b/omgtools/export/vehicles/Vehicle.cpp
@@ -61,14 +61,14 @@ void Vehicle::setPrediction(vector<double>& state, vector<double>& input){
 void Vehicle::predict(vector<double>& state0, vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory, double predict_time, double sample_time, int predict_shift)
 {
     if (ideal_prediction){
-        vector<double> stateT = state_trajectory[int(predict_time/sample_time)+predict_shift];
-        vector<double> inputT = input_trajectory[int(predict_time/sample_time)+predict_shift];
+        vector<double> stateT = state_trajectory[int(round(predict_time/sample_time))+predict_shift];
+        vector<double> inputT = input_trajectory[int(round(predict_time/sample_time))+predict_shift];
         setPrediction(stateT, inputT);
     } else if (provide_prediction){
-        vector<double> inputT = input_trajectory[int(predict_time/sample_time)+predict_shift];
+        vector<double> inputT = input_trajectory[int(round(predict_time/sample_time))+predict_shift];
         setPrediction(state0, inputT);
     } else {
-        int steps = int(predict_time/sample_time);
+        int steps = int(round(predict_time/sample_time));
         vector<vector<double>> input(steps+1, vector<double>(input_trajectory[0].size()));
         for (int k=0; k<steps+1; k++){
             input[k] = input_trajectory[k+predict_shift];
-- 
2.43.0


From 4044b2e4a96d3fef71968f951b18a811866be5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:07 +0000
Subject: [PATCH 57/71] fix: exported planner computes the current knot
 interval in one way

fmod of a time just below a knot gave a whole interval while the splines were already shifted
---
 omgtools/export/export.py                          |  4 ++--
 omgtools/export/export_admm.py                     |  4 ++--
 omgtools/export/point2point/Point2Point.cpp        | 14 ++++++++++++--
 omgtools/export/point2point/Point2Point.hpp        |  2 ++
 .../export/point2point/admm/ADMMPoint2Point.cpp    |  4 ++--
 5 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index af4a7a6..e30586e 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -407,8 +407,8 @@ class Export(object):
         code, cnt = '', 0
         tf_len = len(problem.vehicles[0].basis)
         if point2point.__class__.__name__ == 'FixedTPoint2point':
-            code += '\tint interval_prev = (int)(round((current_time_prev*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
-            code += '\tint interval_now = (int)(round((current_time*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
+            code += '\tint interval_prev = getKnotInterval(current_time_prev);\n'
+            code += '\tint interval_now = getKnotInterval(current_time);\n'
             code += '\tif(interval_now > interval_prev){\n'
             code += ('\t\tvector<double> spline_tf(' + str(len(problem.vehicles[0].basis)) + ');\n')
             for label, child in father.children.items():
diff --git a/omgtools/export/export_admm.py b/omgtools/export/export_admm.py
index 6a5f78e..babe388 100755
--- a/omgtools/export/export_admm.py
+++ b/omgtools/export/export_admm.py
@@ -159,8 +159,8 @@ class ExportADMM(Export):
 
     def _create_transformSharedSplines(self, father, problem, point2point):
         code = ''
-        code += '\tint interval_prev = (int)(round((current_time_prev*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
-        code += '\tint interval_now = (int)(round((current_time*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
+        code += '\tint interval_prev = getKnotInterval(current_time_prev);\n'
+        code += '\tint interval_now = getKnotInterval(current_time);\n'
         code += '\tif(interval_now > interval_prev){\n'
         for var in ['x_i', 'z_i', 'l_i', 'z_ji', 'l_ji', 'z_ij', 'l_ij']:
             code += '\t\tvector<double> ' + var + '_tf(variables_admm["' + var + '"]);\n'
diff --git a/omgtools/export/point2point/Point2Point.cpp b/omgtools/export/point2point/Point2Point.cpp
index 2bbe144..08c0a13 100755
--- a/omgtools/export/point2point/Point2Point.cpp
+++ b/omgtools/export/point2point/Point2Point.cpp
@@ -265,7 +265,7 @@ void Point2Point::fillParameterDict(vector<obstacle_t>& obstacles, map<string, m
     vehicle->setParameters(par_dict_veh);
     par_dict[VEHICLELBL] = par_dict_veh;
     if (!freeT){
-        par_dict[P2PLBL]["t"] = {fmod(round(current_time*1000.)/1000., horizon_time/(vehicle->getKnotIntervals()))};
+        par_dict[P2PLBL]["t"] = {getKnotTime(current_time)};
         par_dict[P2PLBL]["T"] = {horizon_time};
     } else{
         par_dict[P2PLBL]["t"] = {0.0};
@@ -273,6 +273,16 @@ void Point2Point::fillParameterDict(vector<obstacle_t>& obstacles, map<string, m
 @fillParameterDict@
 }
 
+int Point2Point::getKnotInterval(double time){
+    // index of the knot interval at this time
+    return (int)(round(time*(vehicle->getKnotIntervals())/horizon_time*1.e6)/1.e6);
+}
+
+double Point2Point::getKnotTime(double time){
+    // time elapsed in the knot interval at this time
+    return fmax(0., round(time*1.e6)/1.e6 - getKnotInterval(time)*horizon_time/(vehicle->getKnotIntervals()));
+}
+
 void Point2Point::extractData(){
     map<string, map<string, vector<double>>> var_dict;
     getVariableDict(variables, var_dict);
@@ -297,7 +307,7 @@ void Point2Point::retrieveTrajectories(vector<vector<double>>& spline_coeffs){
     vector<double> time(this->time);
     if (!freeT){
         for (int k=0; k<time.size(); k++){
-            time[k] += fmod(round(current_time*1000.)/1000., horizon_time/vehicle->getKnotIntervals());
+            time[k] += getKnotTime(current_time);
         }
     }
     vehicle->splines2State(spline_coeffs, time, state_trajectory);
diff --git a/omgtools/export/point2point/Point2Point.hpp b/omgtools/export/point2point/Point2Point.hpp
index 9140c6d..eebf0ec 100755
--- a/omgtools/export/point2point/Point2Point.hpp
+++ b/omgtools/export/point2point/Point2Point.hpp
@@ -85,6 +85,8 @@ class Point2Point{
         void getVariableVector(std::vector<double>&, std::map<std::string, std::map<std::string, std::vector<double>>>&);
         void getVariableDict(std::vector<double>&, std::map<std::string, std::map<std::string, std::vector<double>>>&);
         void transformSplines(double, double);
+        int getKnotInterval(double);
+        double getKnotTime(double);
 
         virtual void generateProblem();
         virtual void fillParameterDict(std::vector<obstacle_t>&, std::map<std::string, std::map<std::string, std::vector<double>>>&);
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index 2b6c43a..950daa9 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -299,7 +299,7 @@ bool ADMMPoint2Point::solveUpdz(){
     vector<vector<double>> res;
     updz_problem({variables_admm["x_i"], variables_admm["l_i"],
         variables_admm["l_ij"], variables_admm["x_j"],
-        {fmod(round(current_time*1000.)/1000., horizon_time/(vehicle->getKnotIntervals()))},
+        {getKnotTime(current_time)},
         {horizon_time}, {rho}, {}}, res);
     variables_admm["z_i"] = res.at(0);
     variables_admm["z_ij"] = res.at(1);
@@ -323,7 +323,7 @@ bool ADMMPoint2Point::computeResiduals(){
     get_residuals({variables_admm["x_i"], variables_admm["z_i"],
         variables_admm["z_i_p"], variables_admm["z_ij"], variables_admm["z_ij_p"],
         variables_admm["x_j"],
-        {fmod(round(current_time*1000.)/1000., horizon_time/(vehicle->getKnotIntervals()))},
+        {getKnotTime(current_time)},
         {horizon_time}, {rho}}, res);
     residuals[0] = res.at(0).at(0);
     residuals[1] = res.at(1).at(0);
-- 
2.43.0


From 15cfa8afb4a0612a5def0900f7c300c8702c8b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:28 +0000
Subject: [PATCH 58/71] fix: exported planner shifts the splines over every
 knot passed in an update

---
 omgtools/export/export.py      | 2 +-
 omgtools/export/export_admm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index e30586e..be652cb 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -409,7 +409,7 @@ class Export(object):
         if point2point.__class__.__name__ == 'FixedTPoint2point':
             code += '\tint interval_prev = getKnotInterval(current_time_prev);\n'
             code += '\tint interval_now = getKnotInterval(current_time);\n'
-            code += '\tif(interval_now > interval_prev){\n'
+            code += '\tfor(int interval=interval_prev; interval<interval_now; interval++){\n'
             code += ('\t\tvector<double> spline_tf(' + str(len(problem.vehicles[0].basis)) + ');\n')
             for label, child in father.children.items():
                 for name, var in child._variables.items():
diff --git a/omgtools/export/export_admm.py b/omgtools/export/export_admm.py
index babe388..14e4d1e 100755
--- a/omgtools/export/export_admm.py
+++ b/omgtools/export/export_admm.py
@@ -161,7 +161,7 @@ class ExportADMM(Export):
         code = ''
         code += '\tint interval_prev = getKnotInterval(current_time_prev);\n'
         code += '\tint interval_now = getKnotInterval(current_time);\n'
-        code += '\tif(interval_now > interval_prev){\n'
+        code += '\tfor(int interval=interval_prev; interval<interval_now; interval++){\n'
         for var in ['x_i', 'z_i', 'l_i', 'z_ji', 'l_ji', 'z_ij', 'l_ij']:
             code += '\t\tvector<double> ' + var + '_tf(variables_admm["' + var + '"]);\n'
         cnt = 0
-- 
2.43.0


From 45d5a32f09525e6507e86934309438d4806ae2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:26 +0000
Subject: [PATCH 59/71] fix: exported warm start of a problem with free end is
 shifted over knots

---
 omgtools/export/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index be652cb..0d2363b 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -406,7 +406,7 @@ class Export(object):
     def _create_transformSplines(self, father, problem, point2point):
         code, cnt = '', 0
         tf_len = len(problem.vehicles[0].basis)
-        if point2point.__class__.__name__ == 'FixedTPoint2point':
+        if point2point.__class__.__name__ in ('FixedTPoint2point', 'FreeEndPoint2point'):
             code += '\tint interval_prev = getKnotInterval(current_time_prev);\n'
             code += '\tint interval_now = getKnotInterval(current_time);\n'
             code += '\tfor(int interval=interval_prev; interval<interval_now; interval++){\n'
-- 
2.43.0


From a6f7bca705fc6c24aec378eaf237a09ebb1c30e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:26 +0000
Subject: [PATCH 60/71] fix: exported consensus step uses the time of its
 iteration, not of the next update

---
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp | 5 +++--
 omgtools/export/point2point/admm/ADMMPoint2Point.hpp | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index 950daa9..092bcbb 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -131,6 +131,7 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
     #endif
     // correct current_time with predict_shift:
     current_time += predict_shift*sample_time;
+    iteration_time = current_time;
     // transform splines: good init guess for this update + required transformation for ADMM updates
     #ifdef DEBUG
     begin = clock();
@@ -299,7 +300,7 @@ bool ADMMPoint2Point::solveUpdz(){
     vector<vector<double>> res;
     updz_problem({variables_admm["x_i"], variables_admm["l_i"],
         variables_admm["l_ij"], variables_admm["x_j"],
-        {getKnotTime(current_time)},
+        {getKnotTime(iteration_time)},
         {horizon_time}, {rho}, {}}, res);
     variables_admm["z_i"] = res.at(0);
     variables_admm["z_ij"] = res.at(1);
@@ -323,7 +324,7 @@ bool ADMMPoint2Point::computeResiduals(){
     get_residuals({variables_admm["x_i"], variables_admm["z_i"],
         variables_admm["z_i_p"], variables_admm["z_ij"], variables_admm["z_ij_p"],
         variables_admm["x_j"],
-        {getKnotTime(current_time)},
+        {getKnotTime(iteration_time)},
         {horizon_time}, {rho}}, res);
     residuals[0] = res.at(0).at(0);
     residuals[1] = res.at(1).at(0);
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.hpp b/omgtools/export/point2point/admm/ADMMPoint2Point.hpp
index eb2ab4b..6e7a3d4 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.hpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.hpp
@@ -35,6 +35,7 @@ class ADMMPoint2Point: public Point2Point{
         std::map<std::string, std::vector<double>> variables_admm;
         std::vector<double> residuals;
         double rho;
+        double iteration_time=0.0; // time for which this iteration was started
 
         const int n_nghb = N_NGHB;
 
-- 
2.43.0


From b0e9e11c0b856dbfcfc6297d701d44a2d7995d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:26 +0000
Subject: [PATCH 61/71] fix: exported distributed planner writes as many
 samples as it was asked for

---
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index 092bcbb..379a647 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -191,8 +191,7 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
     tmeas = double(end-begin)/CLOCKS_PER_SEC;
     cout << "time in extractData: " << tmeas << "s" << endl;
     #endif
-    // ref state and input for system are one sample shorter!!
-    for (int k=0; k<time.size()-1; k++){
+    for (int k=0; k<trajectory_length; k++){
         for (int j=0; j<state_trajectory[0].size(); j++){
             state_trajectory[k][j] = this->state_trajectory[k][j];
         }
-- 
2.43.0


From 847ae0c556a06aa2a1735e5ad48f08054ad315c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:17 +0000
Subject: [PATCH 62/71] fix: exported planner counts each neighbour once
 (fleets of two)

---
 omgtools/export/export_admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export_admm.py b/omgtools/export/export_admm.py
index 14e4d1e..c72b71f 100755
--- a/omgtools/export/export_admm.py
+++ b/omgtools/export/export_admm.py
@@ -89,7 +89,7 @@ class ExportADMM(Export):
         constants['double RHO'] = problem.options['rho']
         constants['int INITITER'] = problem.options['init_iter']
         constants['int N_SHARED'] = problem.q_i_struct(0).cat.size(1)
-        constants['int N_NGHB'] = len(problem.fleet.get_neighbors(problem.vehicle))
+        constants['int N_NGHB'] = len(problem.q_ij)
         constants['std::string UPDZPROBLEM'] = '"' + problem.problem_upd_z.name() + '"'
         constants['std::string UPDLPROBLEM'] = '"' + problem.problem_upd_l.name() + '"'
         constants['std::string UPDRESPROBLEM'] = '"' + problem.problem_upd_res.name() + '"'
-- 
2.43.0


From 78b392f29c4b9b97d760b710b4e1fbb6f9c5ab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:14 +0000
Subject: [PATCH 63/71] fix: exported integration continues from the state of
 the previous step

---
 omgtools/export/vehicles/Vehicle.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omgtools/export/vehicles/Vehicle.cpp b/omgtools/export/vehicles/Vehicle.cpp
index 8cf54ea..cc8ff14 100755
--- a/omgtools/export/vehicles/Vehicle.cpp
+++ b/omgtools/export/vehicles/Vehicle.cpp
@@ -90,17 +90,17 @@ void Vehicle::integrate(vector<double>& state0, vector<vector<double>>& input, v
         stateT[j] = state0[j];
     }
     for (int i=0; i<steps; i++){
-        this->ode(state0, input[i], k1);
+        this->ode(stateT, input[i], k1);
         for (int j=0; j<n_st; j++){
-            st[j] = state0[j] + 0.5*sample_time*k1[j];
+            st[j] = stateT[j] + 0.5*sample_time*k1[j];
         }
         this->ode(st, input[i], k2);
         for (int j=0; j<n_st; j++){
-            st[j] = state0[j] + 0.5*sample_time*k2[j];
+            st[j] = stateT[j] + 0.5*sample_time*k2[j];
         }
         this->ode(st, input[i], k3);
         for (int j=0; j<n_st; j++){
-            st[j] = state0[j] + sample_time*k3[j];
+            st[j] = stateT[j] + sample_time*k3[j];
         }
         this->ode(st, input[i+1], k4);
         for (int j=0; j<n_st; j++){
-- 
2.43.0


From 8f1eaa774b63b714ec8a590913cafd74eff646af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:38 +0000
Subject: [PATCH 64/71] fix: exported planner of a problem with a scalar
 variable compiles

---
 omgtools/export/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index 0d2363b..1bf0757 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -348,7 +348,7 @@ class Export(object):
                     code += '\tvar_dict["'+label+'"]["'+name+'"] = vec;\n'
                 else:
                     code += '\tvar_dict["'+label+'"]["' + \
-                        name+'"] = var_vect['+str(cnt)+'];\n'
+                        name+'"] = {var_vect['+str(cnt)+']};\n'
                 cnt += var.size(1)*var.size(2)
         return {'getVariableDict': code}
 
-- 
2.43.0


From 6d31bbaf3ce9fa63375a0e476d15d2aa27c42b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:50 +0000
Subject: [PATCH 65/71] fix: knot time of a horizon with parts of a millisecond
 is not truncated

---
 omgtools/problems/point2point.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 564fa6d..7f25a87 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -131,8 +131,8 @@ class FixedTPoint2point(Point2pointProblem):
         if self.vehicles[0].knot_intervals is None:
             raise ValueError('A constant knot interval should be used for ' +
                              'a fixed T point2point problem.')
-        self.knot_time = (int(self.options['horizon_time']*1000.) /
-                          self.vehicles[0].knot_intervals) / 1000.
+        self.knot_time = (float(self.options['horizon_time']) /
+                          self.vehicles[0].knot_intervals)
 
     def set_default_options(self):
         Point2pointProblem.set_default_options(self)
-- 
2.43.0


From 74339a4a56006736e7954b6f800e304147597729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:34 +0000
Subject: [PATCH 66/71] fix: planners of unequal or separately built vehicles
 are exported to folders of their own

---
 omgtools/export/export_admm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omgtools/export/export_admm.py b/omgtools/export/export_admm.py
index c72b71f..0bb92f4 100755
--- a/omgtools/export/export_admm.py
+++ b/omgtools/export/export_admm.py
@@ -32,7 +32,7 @@ class ExportADMM(Export):
         src_files = src_files + ['ADMMPoint2Point.cpp', 'Point2Point.cpp', 'Vehicle.cpp']
         if problem.options['separate_build']:
             for updater in problem.updaters:
-                dest_dir = os.path.join(self.options['directory'], str(updater)) + '/'
+                dest_dir = os.path.join(self.options['directory'], updater.label) + '/'
                 self.export(source_dirs, dest_dir, src_files, updater.father_updx, updater, updater.problem)
         else:
             updaters = problem.separate_per_build()
@@ -42,8 +42,9 @@ class ExportADMM(Export):
             else:
                 for veh_type, nghb_nr in updaters.items():
                     for nr, upd in nghb_nr.items():
-                        dest_dir = os.path.join(self.options['directory'], veh_type+'_'+nr+'nghb')
-                        self.export(source_dirs, dest_dir, src_files, upd.father_updx, upd, upd.problem)
+                        updater = upd[0]
+                        dest_dir = os.path.join(self.options['directory'], veh_type+'_'+str(nr)+'nghb') + '/'
+                        self.export(source_dirs, dest_dir, src_files, updater.father_updx, updater, updater.problem)
 
     def set_default_options(self):
         Export.set_default_options(self)
-- 
2.43.0


From e2eba62a03afd41596c51496a403c97a94a1b9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:34 +0000
Subject: [PATCH 67/71] fix: export to a folder that is named without a
 trailing slash

---
 omgtools/export/export.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index 1bf0757..028a9de 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -54,6 +54,7 @@ class Export(object):
 
     def set_options(self, options):
         self.options.update(options)
+        self.options['directory'] = os.path.join(self.options['directory'], '')
         if 'sourcefiles' not in options:
             self.options['sourcefiles'] = ' '.join(self.add_label(['test.cpp', 'Holonomic.cpp']))
         if not os.path.isdir(self.options['directory']):
-- 
2.43.0


From 922ca6f75056607de3de1d92d620888709da2b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:49 +0000
Subject: [PATCH 68/71] fix: a moving obstacle that enters an earlier frame is
 not forgotten when a later frame stays the same

---
 omgtools/problems/schedulerproblem.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 468f54e..607d9d4 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -187,8 +187,6 @@ class SchedulerProblem(Problem):
                     # the amount of moving obstacles changed, or there is a new obstacle
                     new_problem = True
                     frame.moving_obstacles = moving_obs_in_frame
-                else:
-                    new_problem = False
             if new_problem:
                 # new moving obstacle in one of the frames or obstacle disappeared from frame
                 # np.array converts DM to array
-- 
2.43.0


From 2a61cdbfad4515f4a6ed87575b5d2bcf3b1f4e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:49 +0000
Subject: [PATCH 69/71] fix: a tool that passes its end point halfway is not
 reported as arrived

---
 omgtools/problems/gcodeschedulerproblem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index 2a09dc3..b0ee102 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -164,7 +164,8 @@ class GCodeSchedulerProblem(Problem):
 
     def stop_criterium(self, current_time, update_time):
         # check if the current segment is the last one
-        if self.segments[0]['end'] == self.goal_state:
+        if (self.segments[0]['end'] == self.goal_state and
+            self.segments[0]['start'] == self.environment.room[-1]['start']):
             # if we now reach the goal, the tool has arrived
             if self.local_problem.stop_criterium(current_time, update_time):
                 return True
-- 
2.43.0


From ccd72c4a1a00ff223c4922e854cdc2ea90327402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:23 +0000
Subject: [PATCH 70/71] fix: L-shaped frames when the goal lies in the first
 frame

---
 omgtools/problems/schedulerproblem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 607d9d4..31a612e 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -363,9 +363,10 @@ class SchedulerProblem(Problem):
             # reshape the current frames into an L-shape
             if (self.n_frames == 1 and hasattr(self, 'next_frame')):
                 # looking only one frame ahead
-                frames = self.frames[0].create_l_shape(self.next_frame)
-                self.frames = [frames[0]]
-                self.next_frame = frames[1]
+                if self.next_frame is not None:
+                    frames = self.frames[0].create_l_shape(self.next_frame)
+                    self.frames = [frames[0]]
+                    self.next_frame = frames[1]
             else:
                 # reshape all frames until the last one
                 for k in range(len(self.frames)-1):
-- 
2.43.0


From 6587df43a7fb066994dbe7076cfc70d099ee6b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:28 +0000
Subject: [PATCH 71/71] fix: programs of fewer blocks than are planned ahead

---
 omgtools/problems/gcodeschedulerproblem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index b0ee102..8817394 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -87,6 +87,7 @@ class GCodeSchedulerProblem(Problem):
         # will be selected
         self.segments = self.environment.room[
                            self.n_current_block:self.n_current_block+self.n_segments]
+        self.n_segments = len(self.segments)
         # if there is only one segment, save the next one to check when the tool enters the next segment
         if self.n_segments == 1:
             if len(self.environment.room) > 1:
-- 
2.43.0

