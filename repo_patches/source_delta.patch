From 457b1c81b2123ceacc3bb18c466881ed1b14603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:21 +0000
Subject: [PATCH 01/35] fix: use the absolute mass flow rate in pipes without
 reversible flow

---
 pygfunction/pipes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index c5ceb5e..a3b7f4e 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1624,6 +1624,9 @@ class SingleUTube(_BasePipe):
         """
 
         # Format mass flow rate inputs
+        if not self.reversible_flow:
+            # The absolute value of the mass flow rate is used
+            m_flow_borehole = np.abs(m_flow_borehole)
         if np.isscalar(m_flow_borehole):
             # Mass flow rate in each fluid circuit
             m_flow_in = m_flow_borehole * np.ones(self.nInlets)
@@ -2194,6 +2197,9 @@ class MultipleUTube(_BasePipe):
 
         nPipes = self.nPipes
         # Format mass flow rate inputs
+        if not self.reversible_flow:
+            # The absolute value of the mass flow rate is used
+            m_flow_borehole = np.abs(m_flow_borehole)
         # Mass flow rate in pipes
         if self.config.lower() == 'parallel':
             m_flow_pipe = np.tile(
@@ -2474,6 +2480,9 @@ class IndependentMultipleUTube(MultipleUTube):
         Format mass flow rate and heat capacity inputs.
         """
         # Format mass flow rate inputs
+        if not self.reversible_flow:
+            # The absolute value of the mass flow rate is used
+            m_flow_borehole = np.abs(m_flow_borehole)
         # Mass flow rate in each fluid circuit
         m_flow_in = np.atleast_1d(m_flow_borehole)
         if not len(m_flow_in) == self.nInlets:
-- 
2.43.0


From d740afcfd28e8c1884102e7ee383e4388c65cf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 02/35] fix: keep a copy of the segment ratios with stored pipe
 coefficients

---
 pygfunction/pipes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index a3b7f4e..2ef58b2 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 import warnings
+from copy import copy
 from typing import Union
 
 import numpy as np
@@ -824,7 +825,7 @@ class _BasePipe(object):
         self._stored_coefficients[method_id] = coefficients
         self._stored_m_flow_cp[method_id] = m_flow_borehole*cp_f
         self._stored_nSegments[method_id] = nSegments
-        self._stored_segment_ratios[method_id] = segment_ratios
+        self._stored_segment_ratios[method_id] = copy(segment_ratios)
 
     def _get_stored_coefficients(self, method_id):
         coefficients = self._stored_coefficients[method_id]
@@ -851,7 +852,7 @@ class _BasePipe(object):
                 m_flow_borehole, cp_f, nSegments, segment_ratios)
             self._m_flow_cp_model_variables = m_flow_borehole*cp_f
             self._nSegments_model_variables = nSegments
-            self._segment_ratios_model_variables = segment_ratios
+            self._segment_ratios_model_variables = copy(segment_ratios)
             check = False
 
         return check
-- 
2.43.0


From 82b93b499a436d65a93976aaf1d13072b35709cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 03/35] fix: do not share stored thermal resistances with the
 caller

---
 pygfunction/pipes.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 2ef58b2..1f49442 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -2927,7 +2927,8 @@ def thermal_resistances(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
         R_fp = np.ones(n_p)*R_fp
     # Return saved outputs if inputs are the same as last call
     if _compare_thermal_resistances_inputs(pos, r_out, r_b, k_s, k_g, R_fp, J):
-        return _thermal_resistances_dict['R'], _thermal_resistances_dict['Rd']
+        return (_thermal_resistances_dict['R'].copy(),
+                _thermal_resistances_dict['Rd'].copy())
 
     R = np.zeros((n_p, n_p))
     if J == 0:
@@ -2970,16 +2971,16 @@ def thermal_resistances(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
                     sum([K[i, j] for j in range(n_p) if not i == j]))
     Rd = 1.0/K
 
-    # Save outputs into dictionary
-    _thermal_resistances_dict['pos'] = pos
-    _thermal_resistances_dict['r_out'] = r_out
+    # Save copies of inputs and outputs into dictionary
+    _thermal_resistances_dict['pos'] = [(x, y) for (x, y) in pos]
+    _thermal_resistances_dict['r_out'] = np.array(r_out)
     _thermal_resistances_dict['r_b'] = r_b
     _thermal_resistances_dict['k_s'] = k_s
     _thermal_resistances_dict['k_g'] = k_g
-    _thermal_resistances_dict['R_fp'] = R_fp
+    _thermal_resistances_dict['R_fp'] = np.array(R_fp)
     _thermal_resistances_dict['J'] = J
-    _thermal_resistances_dict['R'] = R
-    _thermal_resistances_dict['Rd'] = Rd
+    _thermal_resistances_dict['R'] = R.copy()
+    _thermal_resistances_dict['Rd'] = Rd.copy()
     return R, Rd
 
 
-- 
2.43.0


From c1e2fa96051af895c283dfb0c8aff31a8531d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 04/35] fix: network coefficients stored for other inputs are
 not reused

---
 pygfunction/networks.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 8b5eb0b..056ea15 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from copy import deepcopy
 from typing import Union, List
 
 import numpy as np
@@ -1110,7 +1111,7 @@ class Network(object):
             self._mix_out = np.zeros((1, self.nBoreholes))
             self._mix_out[0, self.iOutlets] = \
                 np.abs(self._m_flow_in) / np.sum(np.abs(self._m_flow_in))
-            self._mixing_m_flow = m_flow_network
+            self._mixing_m_flow = deepcopy(m_flow_network)
         return self._mix_out
 
     def _initialize_coefficients_connectivity(self):
@@ -1183,8 +1184,8 @@ class Network(object):
             coefficients, method_id):
         self._stored_coefficients[method_id] = coefficients
         self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
-        self._stored_nSegments[method_id] = nSegments
-        self._stored_segment_ratios[method_id] = segment_ratios
+        self._stored_nSegments[method_id] = deepcopy(nSegments)
+        self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
 
         return
 
@@ -1195,7 +1196,8 @@ class Network(object):
 
     def _check_mixing_coefficients(self, m_flow_network, tol=1e-6):
         mixing_m_flow = self._mixing_m_flow
-        if np.all(np.abs(m_flow_network - mixing_m_flow) < np.abs(mixing_m_flow)*tol):
+        if (np.shape(m_flow_network) == np.shape(mixing_m_flow)
+            and np.all(np.abs(m_flow_network - mixing_m_flow) < np.abs(mixing_m_flow)*tol)):
             check = True
         else:
             check = False
@@ -1215,7 +1217,8 @@ class Network(object):
                             np.all([np.all(np.abs(segment_ratios[i] - stored_segment_ratios[i]) < np.abs(stored_segment_ratios[i])*tol) for i in range(len(segment_ratios))]))
         else:
             check_ratios = False
-        if (np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
+        if (np.shape(m_flow_network*cp_f) == np.shape(stored_m_flow_cp)
+            and np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
             and nSegments == stored_nSegments and check_ratios):
             check = True
         else:
@@ -1584,7 +1587,7 @@ class _EquivalentNetwork(Network):
             wBoreholes = self.wBoreholes.flatten()
             self._mix_out[0, self.iOutlets] = \
                 m_flow_in * wBoreholes / np.sum(m_flow_in * wBoreholes)
-            self._mixing_m_flow = m_flow_network
+            self._mixing_m_flow = deepcopy(m_flow_network)
         return self._mix_out
 
     def _format_inputs(self, m_flow_network, cp_f, nSegments, segment_ratios):
-- 
2.43.0


From 1170062bcfec8d75b41d39384042cf583b185c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 05/35] fix: mix the outlets of a network with the flow rates
 of their circuits

---
 pygfunction/networks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 056ea15..3167e98 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -849,6 +849,8 @@ class Network(object):
                 m_flow_network, cp_f, nSegments, segment_ratios=segment_ratios)
             # Coefficient matrices for network outlet temperature:
             # [T_{f,n,out}] = [a_in]*[T_{f,n,in}] + [a_b]*[T_{b}]
+            self._format_inputs(
+                m_flow_network, cp_f, nSegments, segment_ratios)
             mix_out = self._coefficients_mixing(m_flow_network)
             a_in = mix_out @ b_in
             a_b = mix_out @ b_b
@@ -1109,8 +1111,8 @@ class Network(object):
         """
         if not self._check_mixing_coefficients(m_flow_network):
             self._mix_out = np.zeros((1, self.nBoreholes))
-            self._mix_out[0, self.iOutlets] = \
-                np.abs(self._m_flow_in) / np.sum(np.abs(self._m_flow_in))
+            m_flow_out = np.abs(self._m_flow_borehole[self.iOutlets])
+            self._mix_out[0, self.iOutlets] = m_flow_out / np.sum(m_flow_out)
             self._mixing_m_flow = deepcopy(m_flow_network)
         return self._mix_out
 
-- 
2.43.0


From 41670a732d93e5ff654e09f68d471aa0a8307c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 06/35] fix: a single inclined borehole is not vertical in the
 similarities method

---
 pygfunction/solvers/similarities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index 887d144..afae56a 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -921,7 +921,7 @@ class Similarities(_BaseSolver):
 
         else:
             # Outputs for a single borehole
-            if boreholes[0].is_vertical:
+            if boreholes[0].is_vertical():
                 borehole_to_self_vertical = [[0]]
                 borehole_to_self_inclined = []
             else:
-- 
2.43.0


From 7e21a251305f3341d9c5e0175542042771a2d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 07/35] fix: count the unique pairs of inclined segments in the
 similarities method

---
 pygfunction/solvers/similarities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index afae56a..1ca06c0 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -369,7 +369,7 @@ class Similarities(_BaseSolver):
             i_segment = np.append(i_segment, i_segment_i)
             j_segment = np.append(j_segment, j_segment_i)
             k_segment = np.append(k_segment, k_segment_i + k0)
-            k0 += len(k_pair)
+            k0 += np.max(k_pair) + 1
         # Evaluate FLS at all time steps
         h = finite_line_source_inclined_vectorized(
             time, alpha, rb1, x1, y1, H1, D1, tilt1, orientation1,
@@ -448,7 +448,7 @@ class Similarities(_BaseSolver):
             i_segment = np.append(i_segment, i_segment_i)
             j_segment = np.append(j_segment, j_segment_i)
             k_segment = np.append(k_segment, k_segment_i + k0)
-            k0 += len(k_pair)
+            k0 += np.max(k_pair) + 1
         # Evaluate FLS at all time steps
         h = finite_line_source_inclined_vectorized(
             time, alpha, rb1, x1, y1, H1, D1, tilt1, orientation1,
-- 
2.43.0


From 2d855b6165c7f484834c7d380046a493ea6e91bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:35 +0000
Subject: [PATCH 08/35] fix: compare the angle between inclined boreholes in
 the similarities method

---
 pygfunction/solvers/similarities.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index 1ca06c0..dc54760 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -814,7 +814,12 @@ class Similarities(_BaseSolver):
         cond_theta = (
             abs(sin_b1_cos_dt1_1 - sin_b1_cos_dt1_2) / (abs(sin_b1_cos_dt1_1) + 1e-30) < self.tol
             and abs(sin_b2_cos_dt2_1 - sin_b2_cos_dt2_2) / (abs(sin_b2_cos_dt2_1) + 1e-30) < self.tol)
-        if cond_H and cond_D and cond_dis and cond_beta and cond_theta:
+        # Equality of the angle between the boreholes of each pair
+        sin_b1_sin_b2_cos_d12_1 = np.sin(pair1[0].tilt) * np.sin(pair1[1].tilt) * np.cos(pair1[0].orientation - pair1[1].orientation)
+        sin_b1_sin_b2_cos_d12_2 = np.sin(pair2[0].tilt) * np.sin(pair2[1].tilt) * np.cos(pair2[0].orientation - pair2[1].orientation)
+        cond_angle = (
+            abs(sin_b1_sin_b2_cos_d12_1 - sin_b1_sin_b2_cos_d12_2) / (abs(sin_b1_sin_b2_cos_d12_1) + 1e-30) < self.tol)
+        if cond_H and cond_D and cond_dis and cond_beta and cond_theta and cond_angle:
             similarity = True
         else:
             similarity = False
-- 
2.43.0


From 42f403edb9ad539373bb3b9ca19a25d2d6f0e54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:35 +0000
Subject: [PATCH 09/35] fix: assign clusters to their own boreholes in the
 equivalent method

---
 pygfunction/solvers/equivalent.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index f23943c..7d0dd81 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -350,7 +350,7 @@ class Equivalent(_BaseSolver):
             # Split boreholes into groups of same dimensions
             unique_boreholes = self._find_unique_boreholes(self.boreholes)
             # Initialize empty list of clusters
-            self.clusters = []
+            self.clusters = [0] * self.nBoreholes
             self.nEqBoreholes = 0
             for group in unique_boreholes:
                 if len(group) > 1:
@@ -381,11 +381,11 @@ class Equivalent(_BaseSolver):
                     # Cut the tree to find the borehole groups
                     clusters = cut_tree(
                         clusterization, n_clusters=nClusters)
-                    self.clusters = self.clusters + \
-                        [label + self.nEqBoreholes for label in clusters]
+                    for i, label in zip(group, clusters.flatten()):
+                        self.clusters[i] = label + self.nEqBoreholes
                 else:
                     nClusters = 1
-                    self.clusters.append(self.nEqBoreholes)
+                    self.clusters[group[0]] = self.nEqBoreholes
                 self.nEqBoreholes += nClusters
         else:
             self.nEqBoreholes = self.nBoreholes
-- 
2.43.0


From 42e0a4b65f6e925476546536fde25fb162a3817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:20 +0000
Subject: [PATCH 10/35] fix: keep the order of boreholes of different depths in
 similar pairs

---
 pygfunction/solvers/_base_solver.py | 22 ++++++++++++++++++++++
 pygfunction/solvers/equivalent.py   |  6 ++++--
 pygfunction/solvers/similarities.py |  2 ++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index e73eb2f..43e39ad 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -572,6 +572,28 @@ class _BaseSolver:
 
         return Q_reconstructed
 
+    def _compare_buried_depths(self, pair1, pair2):
+        """
+        Compare two pairs of boreholes and return True if the buried depths of
+        the first (and second) boreholes of the pairs are the same.
+
+        Parameters
+        ----------
+        pair1 : Tuple of Borehole objects
+            First pair of boreholes.
+        pair2 : Tuple of Borehole objects
+            Second pair of boreholes.
+
+        Returns
+        -------
+        similarity : bool
+            True if the two pairs have the same buried depths.
+
+        """
+        return all(
+            abs(b1.D - b2.D) / (abs(b1.D) + 1e-30) < self.tol
+            for b1, b2 in zip(pair1, pair2))
+
     def _check_inputs(self):
         """
         This method ensures that the instances filled in the Solver object
diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index 7d0dd81..65dba55 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -619,10 +619,12 @@ class Equivalent(_BaseSolver):
                         pair_ref = (boreholes[m], boreholes[n])
                         # Add the pair (or the reciprocal pair) to a group
                         # if a similar one is found
-                        if compare_pairs(pair0, pair_ref):
+                        if (compare_pairs(pair0, pair_ref) and
+                            self._compare_buried_depths(pair0, pair_ref)):
                             pairs.append((i, j))
                             break
-                        elif compare_pairs(pair1, pair_ref):
+                        elif (compare_pairs(pair1, pair_ref) and
+                              self._compare_buried_depths(pair1, pair_ref)):
                             pairs.append((j, i))
                             break
                     # If no similar pairs are known, append the groups
diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index dc54760..8f854e7 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -897,6 +897,7 @@ class Similarities(_BaseSolver):
                         # Add the pair (or the reciprocal pair) to a group
                         # if a similar one is found
                         if (compare_pairs(pair0, pair_ref) and
+                            self._compare_buried_depths(pair0, pair_ref) and
                             (self._equal_segment_ratios or
                              (nSegments_i == self.nBoreSegments[m] and
                               nSegments_j == self.nBoreSegments[n] and
@@ -909,6 +910,7 @@ class Similarities(_BaseSolver):
                             pairs.append((i, j))
                             break
                         elif (compare_pairs(pair1, pair_ref) and
+                              self._compare_buried_depths(pair1, pair_ref) and
                               (self._equal_segment_ratios or
                                (nSegments_j == self.nBoreSegments[m] and
                                 nSegments_i == self.nBoreSegments[n] and
-- 
2.43.0


From 3f960c55ca5de14745646fba20b5b1ec78d16e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 11/35] fix: equivalent method with equal mass flow rates given
 per borehole

---
 pygfunction/gfunction.py          | 2 +-
 pygfunction/solvers/equivalent.py | 9 +++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 0edad34..752bc46 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1444,7 +1444,7 @@ class gFunction(object):
             elif not (self.m_flow_borehole is None
                       or np.allclose(
                           self.m_flow_borehole,
-                          self.m_flow_borehole[0])):
+                          np.asarray(self.m_flow_borehole)[..., 0:1])):
                 warnings.warn(
                     "\nSolver 'equivalent' is only valid for equal mass flow "
                     "rates into the boreholes. Calculations will use the "
diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index 65dba55..86379f9 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -830,15 +830,12 @@ class Equivalent(_BaseSolver):
                 "Solver 'equivalent' is only valid for parallel-connected " \
                 "boreholes."
             assert (self.m_flow_borehole is None
-                    or (self.m_flow_borehole.ndim==1 and np.allclose(self.m_flow_borehole, self.m_flow_borehole[0]))
-                    or (self.m_flow_borehole.ndim==2 and np.all([np.allclose(self.m_flow_borehole[:, i], self.m_flow_borehole[0, i]) for i in range(self.nBoreholes)]))), \
+                    or np.allclose(self.m_flow_borehole, self.m_flow_borehole[:, 0:1])), \
                 "Mass flow rates into the network must be equal for all " \
                 "boreholes."
             # Use the total network mass flow rate.
-            if (type(self.network.m_flow_network) is np.ndarray and \
-                len(self.network.m_flow_network)==len(self.network.b)):
-                self.network.m_flow_network = \
-                    self.network.m_flow_network[0]*len(self.network.b)
+            if self.m_flow_borehole is not None:
+                self.m_flow = np.sum(self.m_flow_borehole, axis=1)
             # Verify that all boreholes have the same piping configuration
             # This is best done by comparing the matrix of thermal resistances.
             assert np.all(
-- 
2.43.0


From 4ae1cfcf753472bf457a44b3fe95413ec75669c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 12/35] fix: early times of variable mass flow rate g-functions

---
 pygfunction/solvers/_base_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index 43e39ad..4ae3e50 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -444,7 +444,7 @@ class _BaseSolver:
 
             # Linearize g-function for times under threshold
             if p_long > 0:
-                gFunc[:,:,:p_long] = gFunc[:,:,p_long-1] * self.time[:p_long] / time_threshold
+                gFunc[:,:,:p_long] = gFunc[:,:,p_long-1:p_long] * self.time[:p_long] / time_threshold
                 Q_b[:,:,:p_long] = 1 + (Q_b[:,:,p_long-1:p_long] - 1) * self.time[:p_long] / time_threshold
                 T_b[:,:,:p_long] = T_b[:,:,p_long-1:p_long] * self.time[:p_long] / time_threshold
             if self.nMassFlow == 0:
-- 
2.43.0


From 089c3715fb249b4d8bfffb3dd7ce8b294a0e577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:53 +0000
Subject: [PATCH 13/35] fix: multipole iterations stop when all multipoles have
 converged

---
 pygfunction/pipes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 1f49442..1bbce79 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -3447,8 +3447,8 @@ def multipole(pos, r_out, r_b, k_s, k_g, R_fp, T_b, q_p, J,
             F = _F_mk(q_p, P, n_p, J, r_b, r_out, z_p, pikg, sigma)
             P_new = coeff*np.conj(F)
             if it == 1:
-                diff0 = np.max(np.abs(P_new-P)) - np.min(np.abs(P_new-P))
-            diff = np.max(np.abs(P_new-P)) - np.min(np.abs(P_new-P))
+                diff0 = np.max(np.abs(P_new-P))
+            diff = np.max(np.abs(P_new-P))
             eps_max = diff / (diff0 + 1e-30)
             P = P_new
     else:
-- 
2.43.0


From 2bff8c97bfe30bd916c59d2e1a51f080c81321d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:18 +0000
Subject: [PATCH 14/35] fix: append fluid properties to a table when some are
 not numbers

---
 pygfunction/media.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygfunction/media.py b/pygfunction/media.py
index a24036e..f719ba1 100644
--- a/pygfunction/media.py
+++ b/pygfunction/media.py
@@ -108,7 +108,11 @@ class Fluid:
             for item in sorted(self.__dict__):
                 dnary[item] = []
         for item in sorted(self.__dict__):
-            dnary[item].append(f'{self.__dict__[item]:.5E}')
+            value = self.__dict__[item]
+            if isinstance(value, (int, float)):
+                dnary[item].append(f'{value:.5E}')
+            else:
+                dnary[item].append(f'{value!s}')
 
     def density(self):
         """
-- 
2.43.0


From 4769a769ba2187216ece9a2da8ec1cef16628245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 15/35] fix: default origin of staggered rectangular fields is
 their center

---
 pygfunction/boreholes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index 330ed4b..98a2fab 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -853,11 +853,11 @@ def staggered_rectangle_field(
         # When no origin is supplied, compute the origin to be at the center of
         # the rectangle
         if include_last_borehole:
-            x0 = (N_1 - 1) / 2 * B_1
+            x0 = (N_1 - 0.5) / 2 * B_1
             y0 = (N_2 - 1) / 2 * B_2
         else:
-            x0 = (N_1 - 0.5) / 2 * B_1
-            y0 = (N_2 - 0.5) / 2 * B_2
+            x0 = (N_1 - 1) / 2 * B_1
+            y0 = (N_2 - 1) / 2 * B_2
     else:
         x0, y0 = origin
 
-- 
2.43.0


From 643e8645aa7ab0d4ed7229438e9b00ce9fafcc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:37 +0000
Subject: [PATCH 16/35] fix: expansion rate of geometric time grids

---
 pygfunction/utilities.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pygfunction/utilities.py b/pygfunction/utilities.py
index 953f802..9050753 100644
--- a/pygfunction/utilities.py
+++ b/pygfunction/utilities.py
@@ -3,6 +3,7 @@ import warnings
 
 import numpy as np
 import numpy.polynomial.polynomial as poly
+from scipy.optimize import brentq
 from scipy.special import erf
 
 
@@ -345,12 +346,12 @@ def time_geometric(dt, tmax, Nt):
     """
     if tmax > Nt*dt:
         # Identify expansion rate (r)
-        dr = 1.0e99
-        r = 2.
-        while np.abs(dr) > 1.0e-10:
-            dr = (1+tmax/dt*(r-1))**(1/Nt) - r
-            r += dr
-        time = np.array([dt*(1-r**(j+1))/(1-r) for j in range(Nt)])
+        r = 1.
+        if Nt > 1:
+            r = brentq(
+                lambda x: np.sum(x**np.arange(Nt)) - tmax/dt,
+                1., (tmax/dt)**(1/(Nt-1)), xtol=1.0e-15)
+        time = dt * np.cumsum(r**np.arange(Nt))
         time[-1] = tmax
     else:
         time = np.array([dt*(j+1) for j in range(Nt)])
-- 
2.43.0


From 066d39eed39949e11f1400641a2c57786d1e97b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:57 +0000
Subject: [PATCH 17/35] fix: equivalent boreholes built from five dimensions
 are vertical

---
 pygfunction/boreholes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index 98a2fab..04373b4 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -361,6 +361,8 @@ class _EquivalentBorehole(object):
             self.H, self.D, self.r_b, self.x, self.y = boreholes[:5]
             self.x = np.atleast_1d(self.x)
             self.y = np.atleast_1d(self.y)
+            self.tilt = 0.
+            self.orientation = np.zeros(len(self.x))
             if len(boreholes)==7:
                 self.tilt, self.orientation = boreholes[5:]
 
-- 
2.43.0


From 59b0b776d4b76b7ab2ddaf88a05377787ca2f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 18/35] fix: indices of duplicate boreholes are numbers

---
 pygfunction/boreholes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index 04373b4..d725217 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -647,7 +647,7 @@ def find_duplicates(boreField, disp=False):
     # Find distance between each pair of boreholes
     distances = pdist(coordinates, 'euclidean')
     # Find duplicate boreholes
-    duplicate_index = np.argwhere(distances < r_b)
+    duplicate_index = np.flatnonzero(distances < r_b)
     i = n - 2 - np.floor(
         np.sqrt(-8 * duplicate_index + 4 * n * (n - 1) - 7) / 2 - 0.5)
     j = duplicate_index + i + 1 - n * (n - 1) / 2 + (n - i) * ((n - i) - 1) / 2
-- 
2.43.0


From 41f1b60a2a4b3650edadc8a75bbb5dc121893b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:52 +0000
Subject: [PATCH 19/35] fix: coaxial pipes with negative dimensions or outside
 the borehole are refused

---
 pygfunction/pipes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 1bbce79..989a927 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -2737,18 +2737,18 @@ class Coaxial(SingleUTube):
             raise ValueError(
                 f'The grout thermal conductivity must be greater than zero. '
                 f'A value of {self.k_g} was provided.')
-        if not np.all(self.R_ff) >= 0.:
+        if not np.all(np.greater_equal(self.R_ff, 0.)):
             raise ValueError(
                 f'The fluid to fluid thermal resistance must be'
                 f'greater or equal to zero. '
                 f'A value of {self.R_ff} was provided.')
-        if not np.all(self.R_fp) > 0.:
+        if not np.all(np.greater(self.R_fp, 0.)):
             raise ValueError(
                 f'The fluid to outer pipe wall thermal resistance must be'
                 f'greater than zero. A value of {self.R_fp} was provided.')
 
         # Verify that the pipe radius is greater than zero.
-        if not np.all(self.r_in) > 0.:
+        if not np.all(np.greater(self.r_in, 0.)):
             raise ValueError(
                 f'The pipe inner radius must be greater than zero. '
                 f'A value of {self.r_in} was provided.')
@@ -2777,7 +2777,7 @@ class Coaxial(SingleUTube):
         for i in range(len(self.pos)):
             r_pipe = np.sqrt(self.pos[i][0]**2 + self.pos[i][1]**2)
             radii = r_pipe + self.r_out
-            if not np.any(np.greater_equal(self.b.r_b, radii)):
+            if not np.all(np.greater_equal(self.b.r_b, radii)):
                 raise ValueError(
                     f'Pipes must be entirely contained within the borehole. '
                     f'Pipe {i} is partly or entirely outside the '
-- 
2.43.0


From b1e4c186cd8d0ff9cc9a188c76037e626e746d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:52 +0000
Subject: [PATCH 20/35] fix: a list of numbers of segments of the wrong length
 is refused

---
 pygfunction/solvers/_base_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index 4ae3e50..e7d3e71 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -626,7 +626,7 @@ class _BaseSolver:
             "Time should be a float or an array."
         # self.nSegments can now be an int or list
         assert type(self.nBoreSegments) is list and len(self.nBoreSegments) == \
-               len(self.nBoreSegments) and min(self.nBoreSegments) >= 1, \
+               len(self.boreholes) and min(self.nBoreSegments) >= 1, \
             "The argument for number of segments `nSegments` should be " \
             "of type int or a list of integers. If passed as a list, the " \
             "length of the list should be equal to the number of boreholes" \
-- 
2.43.0


From c0437bd4b2572189ada551aea57bdd273d87b055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:52 +0000
Subject: [PATCH 21/35] fix: numpy floats are accepted as flow and heat
 capacity of a network

---
 pygfunction/gfunction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 752bc46..dbe523c 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1419,11 +1419,12 @@ class gFunction(object):
             # Extract mass flow rate from Network object if provided in the object
             # and none of m_flow_borehole and m_flow_network are provided
             if self.m_flow_borehole is None and self.m_flow_network is None:
-                if type(self.network.m_flow_network) is float:
+                if isinstance(self.network.m_flow_network, (np.floating, float)):
                      self.m_flow_network = self.network.m_flow_network
                 elif type(self.network.m_flow_network) is np.ndarray:
                      self.m_flow_borehole = self.network.m_flow_network
-            if self.cp_f is None and type(self.network.cp_f) is float:
+            if self.cp_f is None and isinstance(
+                    self.network.cp_f, (np.floating, float)):
                 self.cp_f = self.network.cp_f
         else:
             self.network = None
-- 
2.43.0


From dd7b1582086a8fb072137ac8d476850910d4efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:16 +0000
Subject: [PATCH 22/35] fix: coefficients stored by pipes and networks are not
 shared with the caller

---
 pygfunction/networks.py | 5 +++--
 pygfunction/pipes.py    | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 3167e98..03c7d45 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1184,7 +1184,8 @@ class Network(object):
     def _set_stored_coefficients(
             self, m_flow_network, cp_f, nSegments, segment_ratios,
             coefficients, method_id):
-        self._stored_coefficients[method_id] = coefficients
+        # The arrays are returned to the caller, keep copies
+        self._stored_coefficients[method_id] = deepcopy(coefficients)
         self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
         self._stored_nSegments[method_id] = deepcopy(nSegments)
         self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
@@ -1192,7 +1193,7 @@ class Network(object):
         return
 
     def _get_stored_coefficients(self, method_id):
-        coefficients = self._stored_coefficients[method_id]
+        coefficients = deepcopy(self._stored_coefficients[method_id])
 
         return coefficients
 
diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 989a927..0cc3509 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 import warnings
-from copy import copy
+from copy import copy, deepcopy
 from typing import Union
 
 import numpy as np
@@ -822,13 +822,14 @@ class _BasePipe(object):
 
     def _set_stored_coefficients(
             self, m_flow_borehole, cp_f, nSegments, segment_ratios, coefficients, method_id):
-        self._stored_coefficients[method_id] = coefficients
+        # The arrays are returned to the caller, keep copies
+        self._stored_coefficients[method_id] = deepcopy(coefficients)
         self._stored_m_flow_cp[method_id] = m_flow_borehole*cp_f
         self._stored_nSegments[method_id] = nSegments
         self._stored_segment_ratios[method_id] = copy(segment_ratios)
 
     def _get_stored_coefficients(self, method_id):
-        coefficients = self._stored_coefficients[method_id]
+        coefficients = deepcopy(self._stored_coefficients[method_id])
         return coefficients
 
     def _check_model_variables(
-- 
2.43.0


From 9c0c5be66c36f511c6368256a5dca17075a0aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:48 +0000
Subject: [PATCH 23/35] fix: profiles of temperatures and heat extraction rates
 can be drawn for all conditions and times

---
 pygfunction/gfunction.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index dbe523c..b51b09a 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1021,7 +1021,7 @@ class gFunction(object):
 
         # If iBoreholes is None, then plot all boreholes
         if iBoreholes is None:
-            iBoreholes = range(len(self.boreholes))
+            iBoreholes = range(len(self.solver.boreholes))
         # Import temperature profiles
         z, T_b = self._temperature_profiles(time, iBoreholes)
 
@@ -1234,7 +1234,7 @@ class gFunction(object):
                     else:
                         Q_bi = interp1d(
                             self.time,
-                            self.solver.Q_b[i0:i1,:],
+                            self.solver.Q_b[:, i0:i1, :],
                             kind='linear',
                             copy=False,
                             axis=2)(time)
@@ -1337,14 +1337,13 @@ class gFunction(object):
                 if time is None:
                     # If time is None, temperatures are extracted at the last
                     # time step.
-                    T_bi = np.asscalar(self.solver.T_b[-1])
+                    T_bi = self.solver.T_b[-1].item()
                 else:
                     # Otherwise, temperatures are interpolated.
-                    T_bi = np.asscalar(
-                        interp1d(self.time,
-                                 self.solver.T_b[:],
-                                 kind='linear',
-                                 copy=False)(time))
+                    T_bi = interp1d(self.time,
+                                    self.solver.T_b[:],
+                                    kind='linear',
+                                    copy=False)(time).item()
                 T_b.append(np.array(2*[T_bi]))
             else:
                 i0 = self.solver._i0Segments[i]
@@ -1358,11 +1357,6 @@ class gFunction(object):
                         T_bi = self.solver.T_b[:, i0:i1, -1]
                 else:
                     # Otherwise, temperatures are interpolated.
-                    T_bi = interp1d(self.time,
-                                    self.solver.T_b[i0:i1, :],
-                                    kind='linear',
-                                    copy=False,
-                                    axis=1)(time)
                     if self.solver.nMassFlow == 0:
                         T_bi = interp1d(
                             self.time,
@@ -1373,7 +1367,7 @@ class gFunction(object):
                     else:
                         T_bi = interp1d(
                             self.time,
-                            self.solver.T_b[i0:i1,:],
+                            self.solver.T_b[:, i0:i1, :],
                             kind='linear',
                             copy=False,
                             axis=2)(time)
-- 
2.43.0


From fa5d2163a92c5afd1c84f83b9d55770d8998aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:48 +0000
Subject: [PATCH 24/35] fix: time axis of figures is that of the bore field for
 all methods

---
 pygfunction/gfunction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index b51b09a..2b5aac0 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -581,7 +581,7 @@ class gFunction(object):
         # Import heat extraction rates
         Q_t = self._heat_extraction_rates(iBoreholes)
         # Borefield characteristic time
-        ts = np.mean([b.H for b in self.solver.boreholes])**2/(9.*self.alpha)
+        ts = np.mean([b.H for b in self.boreholes])**2/(9.*self.alpha)
         # Dimensionless time (log)
         lntts = np.log(self.time/ts)
 
@@ -878,7 +878,7 @@ class gFunction(object):
         # Import temperatures
         T_b = self._temperatures(iBoreholes)
         # Borefield characteristic time
-        ts = np.mean([b.H for b in self.solver.boreholes])**2/(9.*self.alpha)
+        ts = np.mean([b.H for b in self.boreholes])**2/(9.*self.alpha)
         # Dimensionless time (log)
         lntts = np.log(self.time/ts)
 
-- 
2.43.0


From d40580dfa151b4806465dddd5fd6db050c234817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:07 +0000
Subject: [PATCH 25/35] fix: gFunction.from_static_params uses the heat
 capacity at the fluid temperature

---
 pygfunction/gfunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 2b5aac0..e9ad602 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -425,7 +425,8 @@ class gFunction(object):
 
         if boundary_condition.upper() == 'MIFT':
             boreholes = borefield.to_boreholes()
-            cp_f = Fluid(fluid_str, fluid_concentration_pct).cp
+            cp_f = Fluid(
+                fluid_str, fluid_concentration_pct, fluid_temperature).cp
             boreholes_or_network= Network.from_static_params(
                 boreholes,
                 pipe_type_str,
-- 
2.43.0


From 0189f51f74702ea04542cd095f965a545642cf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:40 +0000
Subject: [PATCH 26/35] fix: mixed_inlet_temperature uses the mass flow rate
 and heat capacity it is given

---
 pygfunction/gfunction.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index e9ad602..ad2157b 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1925,9 +1925,18 @@ def mixed_inlet_temperature(
         method='similarities'
     else:
         method='detailed'
+    # An array of mass flow rates corresponds to the circuits of the network
+    if np.ndim(m_flow_network) == 0:
+        m_flow_borehole = None
+        m_flow_network = float(m_flow_network)
+    else:
+        m_flow_borehole = np.asarray(m_flow_network)
+        m_flow_network = None
     # Evaluate g-function
     gFunc = gFunction(
         network, alpha, time=time, method=method,
-        boundary_condition=boundary_condition, options=options)
+        boundary_condition=boundary_condition,
+        m_flow_borehole=m_flow_borehole, m_flow_network=m_flow_network,
+        cp_f=cp_f, options=options)
 
     return gFunc.gFunc
-- 
2.43.0


From 0352beff990da18356163345cff02200481209a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:40 +0000
Subject: [PATCH 27/35] fix: equal_inlet_temperature does not multiply arrays
 of mass flow rates by the number of boreholes

---
 pygfunction/gfunction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index ad2157b..3f13e19 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1781,8 +1781,10 @@ def equal_inlet_temperature(
                   "Use the `pygfunction.gfunction.gFunction` class instead.",
                   DeprecationWarning)
 
+    # Mass flow rates into each of the boreholes
+    m_flow_network = np.ones(len(boreholes)) * m_flow_borehole
     network = Network(
-        boreholes, UTubes, m_flow_network=m_flow_borehole*len(boreholes),
+        boreholes, UTubes, m_flow_network=m_flow_network,
         cp_f=cp_f, nSegments=nSegments)
     boundary_condition = 'MIFT'
     # Build options dict
-- 
2.43.0


From 2280fbc22c614b281ef78279a163bb733a8fbb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:20 +0000
Subject: [PATCH 28/35] fix: Liu load aggregation without waiting period used
 aggregated loads twice

---
 pygfunction/load_aggregation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygfunction/load_aggregation.py b/pygfunction/load_aggregation.py
index b95a8fb..a853d80 100644
--- a/pygfunction/load_aggregation.py
+++ b/pygfunction/load_aggregation.py
@@ -588,6 +588,7 @@ class Liu(_LoadAggregation):
                                        axis=1)
                 # Remove the N2 latest small cells
                 self._n1 += -self.N2
+                self.Q1[:,self._n1:] = 0.
 
                 # If the number of medium cells is equal to (N3 + W3),
                 # create a large aggregation cell
@@ -601,6 +602,7 @@ class Liu(_LoadAggregation):
                     self.Q3[:,0] = np.mean(self.Q2[:,self._n2-self.N3:self._n2], axis=1)
                     # Remove the N3 latest medium cells
                     self._n2 += -self.N3
+                    self.Q2[:,self._n2:] = 0.
 
     def get_times_for_simulation(self):
         """
-- 
2.43.0


From 205731e6fe17d08cacc7af19a118125bb8d43fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:29 +0000
Subject: [PATCH 29/35] fix: network coefficients stored before the thermal
 resistances of its pipes are updated were reused

---
 pygfunction/networks.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 03c7d45..b445dc4 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1154,6 +1154,7 @@ class Network(object):
                                   for _ in range(nMethods)]
         self._stored_nSegments = [np.nan for _ in range(nMethods)]
         self._stored_segment_ratios = [np.nan for _ in range(nMethods)]
+        self._stored_Rd = [() for _ in range(nMethods)]
         self._m_flow_cp_model_variables = np.empty(self.nInlets)*np.nan
         self._nSegments_model_variables = np.nan
         self._segment_ratios_model_variables = np.nan
@@ -1189,6 +1190,7 @@ class Network(object):
         self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
         self._stored_nSegments[method_id] = deepcopy(nSegments)
         self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
+        self._stored_Rd[method_id] = [pipe._Rd for pipe in self.p]
 
         return
 
@@ -1220,9 +1222,13 @@ class Network(object):
                             np.all([np.all(np.abs(segment_ratios[i] - stored_segment_ratios[i]) < np.abs(stored_segment_ratios[i])*tol) for i in range(len(segment_ratios))]))
         else:
             check_ratios = False
+        # The thermal resistances of the pipes may have been updated
+        check_Rd = all(
+            pipe._Rd is stored_Rd
+            for pipe, stored_Rd in zip(self.p, self._stored_Rd[method_id]))
         if (np.shape(m_flow_network*cp_f) == np.shape(stored_m_flow_cp)
             and np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
-            and nSegments == stored_nSegments and check_ratios):
+            and nSegments == stored_nSegments and check_ratios and check_Rd):
             check = True
         else:
             check = False
-- 
2.43.0


From 6a92591790d63b7c81c9424259bcda21db5fbe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:48 +0000
Subject: [PATCH 30/35] fix: recognise an infinite time given as any float in
 finite_line_source

---
 pygfunction/heat_transfer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index 55f3cf9..35ce980 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -207,7 +207,7 @@ def finite_line_source(
         if borehole1.is_vertical() and borehole2.is_vertical():
             # Boreholes are vertical
             dis = borehole1.distance(borehole2)
-            if time is np.inf:
+            if np.isscalar(time) and np.isinf(time):
                 # Steady-state solution
                 h = _finite_line_source_steady_state(
                     dis, H1, D1, H2, D2, reaSource, imgSource)
@@ -244,7 +244,7 @@ def finite_line_source(
             x2, y2 = borehole2.position()
             tilt2 = borehole2.tilt
             orientation2 = borehole2.orientation
-            if time is np.inf:
+            if np.isscalar(time) and np.isinf(time):
                 # Steady-state solution
                 h = _finite_line_source_inclined_steady_state(
                     rb1, x1, y1, H1, D1, tilt1, orientation1,
@@ -298,7 +298,7 @@ def finite_line_source(
         if (np.all([b.is_vertical() for b in borehole1])
             and np.all([b.is_vertical() for b in borehole2])):
             # All boreholes are vertical
-            if time is np.inf:
+            if np.isscalar(time) and np.isinf(time):
                 # Steady-state solution
                 h = _finite_line_source_steady_state(
                     dis, H1, D1, H2, D2, reaSource, imgSource)
@@ -324,7 +324,7 @@ def finite_line_source(
             tilt2 = np.array([b.tilt for b in borehole2]).reshape(-1, 1)
             orientation2 = np.array([b.orientation for b in borehole2]).reshape(-1, 1)
             r_b = r_b.reshape(1, -1)
-            if time is np.inf:
+            if np.isscalar(time) and np.isinf(time):
                 # Steady-state solution
                 h = _finite_line_source_inclined_steady_state(
                     r_b, x1, y1, H1, D1, tilt1, orientation1,
-- 
2.43.0


From d3c04d9f1bb40c81f2435b17eb180b7f6a31ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:48 +0000
Subject: [PATCH 31/35] fix: line source at a scalar time given as an integer

---
 pygfunction/heat_transfer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index 35ce980..ac45d5b 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -221,7 +221,7 @@ def finite_line_source(
                 f = _finite_line_source_integrand(
                     dis, H1, D1, H2, D2, reaSource, imgSource)
                 # Evaluate integral
-                if isinstance(time, (np.floating, float)):
+                if np.ndim(time) == 0:
                     # Lower bound of integration
                     a = 1.0 / np.sqrt(4.0*alpha*time)
                     h = 0.5 / H2 * quad(f, a, np.inf)[0]
@@ -264,7 +264,7 @@ def finite_line_source(
                     reaSource, imgSource, M)
 
                 # Evaluate integral
-                if isinstance(time, (np.floating, float)):
+                if np.ndim(time) == 0:
                     # Lower bound of integration
                     a = 1.0 / np.sqrt(4.0*alpha*time)
                     h = 0.5 / H2 * quad(f, a, np.inf)[0]
@@ -758,7 +758,7 @@ def finite_line_source_vectorized(
             dis, H1, D1, H2, D2, reaSource, imgSource)
 
         # Evaluate integral
-        if isinstance(time, (np.floating, float)):
+        if np.ndim(time) == 0:
             # Lower bound of integration
             a = 1.0 / np.sqrt(4.0*alpha*time)
             h = 0.5 / H2 * quad_vec(f, a, np.inf)[0]
@@ -872,7 +872,7 @@ def finite_line_source_equivalent_boreholes_vectorized(
         dis, wDis, H1, D1, H2, D2, N2, reaSource, imgSource)
 
     # Evaluate integral
-    if isinstance(time, (np.floating, float)):
+    if np.ndim(time) == 0:
         # Lower bound of integration
         a = 1.0 / np.sqrt(4.0*alpha*time)
         h = 0.5 / (N2*H2) * quad_vec(f, a, np.inf)[0]
@@ -1051,7 +1051,7 @@ def finite_line_source_inclined_vectorized(
             reaSource, imgSource, M)
 
         # Evaluate integral
-        if isinstance(time, (np.floating, float)):
+        if np.ndim(time) == 0:
             # Lower bound of integration
             a = 1.0 / np.sqrt(4.0*alpha*time)
             h = 0.5 / H2 * quad_vec(f, a, np.inf, epsabs=1e-4, epsrel=1e-6)[0]
-- 
2.43.0


From 6a14171509e2d3b43f0d4de9f31c8a3c77d1b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:50 +0000
Subject: [PATCH 32/35] fix: figures of g-functions of networks with several
 flow rates and a uniform boundary condition

---
 pygfunction/solvers/_base_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index e7d3e71..29981cc 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -165,6 +165,9 @@ class _BaseSolver:
                 self.nMassFlow = len(self.m_flow_network)
             self.m_flow_network = np.atleast_1d(self.m_flow_network)
             self.m_flow = self.m_flow_network
+        if not self.boundary_condition == 'MIFT':
+            # Mass flow rates only apply to the 'MIFT' boundary condition
+            self.nMassFlow = 0
         self.cp_f = cp_f
         self.approximate_FLS = approximate_FLS
         self.mQuad = mQuad
-- 
2.43.0


From 7f9ec3f463784c76b537af91dc3525d982e81121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:01 +0000
Subject: [PATCH 33/35] fix: flow rates and heat capacities given to networks
 as integers are used by g-functions

---
 pygfunction/gfunction.py            | 5 ++---
 pygfunction/solvers/_base_solver.py | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 3f13e19..d2e3c64 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1414,12 +1414,11 @@ class gFunction(object):
             # Extract mass flow rate from Network object if provided in the object
             # and none of m_flow_borehole and m_flow_network are provided
             if self.m_flow_borehole is None and self.m_flow_network is None:
-                if isinstance(self.network.m_flow_network, (np.floating, float)):
+                if np.isscalar(self.network.m_flow_network):
                      self.m_flow_network = self.network.m_flow_network
                 elif type(self.network.m_flow_network) is np.ndarray:
                      self.m_flow_borehole = self.network.m_flow_network
-            if self.cp_f is None and isinstance(
-                    self.network.cp_f, (np.floating, float)):
+            if self.cp_f is None and np.isscalar(self.network.cp_f):
                 self.cp_f = self.network.cp_f
         else:
             self.network = None
diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index 29981cc..579dd1f 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -161,7 +161,7 @@ class _BaseSolver:
             self.m_flow = self.m_flow_borehole
         self.m_flow_network = m_flow_network
         if self.m_flow_network is not None:
-            if not isinstance(self.m_flow_network, (np.floating, float)):
+            if np.ndim(self.m_flow_network) > 0:
                 self.nMassFlow = len(self.m_flow_network)
             self.m_flow_network = np.atleast_1d(self.m_flow_network)
             self.m_flow = self.m_flow_network
-- 
2.43.0


From 9757208366deaf253cfee5989f6309513041779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:40 +0000
Subject: [PATCH 34/35] fix: compare positions of bore fields independently of
 the origin

Borefield.__eq__ compared positions with a tolerance relative to the
coordinates: fields displaced by several meters were equal when given in
the coordinates of a map.
---
 pygfunction/borefield.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygfunction/borefield.py b/pygfunction/borefield.py
index 3a92b88..fe9421e 100644
--- a/pygfunction/borefield.py
+++ b/pygfunction/borefield.py
@@ -90,8 +90,10 @@ class Borefield:
             and np.allclose(self.H, other_field.H)
             and np.allclose(self.D, other_field.D)
             and np.allclose(self.r_b, other_field.r_b)
-            and np.allclose(self.x, other_field.x)
-            and np.allclose(self.y, other_field.y)
+            # Absolute tolerance on positions : the comparison should not
+            # depend on the distance from the origin of the coordinate system
+            and np.allclose(self.x, other_field.x, rtol=0., atol=1e-6)
+            and np.allclose(self.y, other_field.y, rtol=0., atol=1e-6)
             and np.allclose(self.tilt, other_field.tilt)
             and np.allclose(self.orientation, other_field.orientation)
             )
-- 
2.43.0


From c4b2ac7793ba7f048a617d8fee32f77d05fcfa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:10 +0000
Subject: [PATCH 35/35] fix: responses at times far apart missed the
 contribution of distant boreholes

---
 pygfunction/heat_transfer.py | 43 +++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index ac45d5b..ed82830 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -231,7 +231,7 @@ def finite_line_source(
                     # Upper bound of integration
                     b = np.concatenate(([np.inf], a[:-1]))
                     h = np.cumsum(np.stack(
-                        [0.5 / H2 * quad(f, a_i, b_i)[0]
+                        [0.5 / H2 * _integrate(quad, f, a_i, b_i)
                          for t, a_i, b_i in zip(time, a, b)],
                         axis=-1), axis=-1)
         else:
@@ -274,7 +274,7 @@ def finite_line_source(
                     # Upper bound of integration
                     b = np.concatenate(([np.inf], a[:-1]))
                     h = np.cumsum(np.stack(
-                        [0.5 / H2 * quad(f, a_i, b_i)[0]
+                        [0.5 / H2 * _integrate(quad, f, a_i, b_i)
                          for t, a_i, b_i in zip(time, a, b)],
                         axis=-1), axis=-1)
 
@@ -768,7 +768,7 @@ def finite_line_source_vectorized(
             # Upper bound of integration
             b = np.concatenate(([np.inf], a[:-1]))
             h = np.cumsum(np.stack(
-                [0.5 / H2 * quad_vec(f, a_i, b_i)[0]
+                [0.5 / H2 * _integrate(quad_vec, f, a_i, b_i)
                  for t, a_i, b_i in zip(time, a, b)],
                 axis=-1), axis=-1)
     else:
@@ -882,7 +882,7 @@ def finite_line_source_equivalent_boreholes_vectorized(
         # Upper bound of integration
         b = np.concatenate(([np.inf], a[:-1]))
         h = np.cumsum(np.stack(
-            [0.5 / (N2*H2) * quad_vec(f, a_i, b_i)[0]
+            [0.5 / (N2*H2) * _integrate(quad_vec, f, a_i, b_i)
              for t, a_i, b_i in zip(time, a, b)],
             axis=-1), axis=-1)
     return h
@@ -1062,8 +1062,8 @@ def finite_line_source_inclined_vectorized(
             b = np.concatenate(([np.inf], a[:-1]))
             h = np.cumsum(
                 np.stack(
-                    [0.5 / H2 * quad_vec(
-                        f, a_i, b_i, epsabs=1e-4, epsrel=1e-6)[0]
+                    [0.5 / H2 * _integrate(
+                        quad_vec, f, a_i, b_i, epsabs=1e-4, epsrel=1e-6)
                      for i, (a_i, b_i) in enumerate(zip(a, b))],
                     axis=-1),
                 axis=-1)
@@ -1075,6 +1075,37 @@ def finite_line_source_inclined_vectorized(
     return h
 
 
+def _integrate(quadrature, f, a, b, **kwargs):
+    """
+    Integrate the finite line source solution between two finite bounds.
+
+    The contribution of the lower end of wide intervals, between times that
+    are far apart, can fall between the points of the quadrature. These are
+    evaluated as the difference of two integrals with infinite upper bounds.
+
+    Parameters
+    ----------
+    quadrature : callable
+        Quadrature function (quad or quad_vec).
+    f : callable
+        Integrand.
+    a, b : float
+        Bounds of integration.
+
+    Returns
+    -------
+    float or array
+        Integral from a to b.
+
+    """
+    if b < a:
+        return -_integrate(quadrature, f, b, a, **kwargs)
+    if 10. * a < b < np.inf:
+        return quadrature(f, a, np.inf, **kwargs)[0] \
+            - quadrature(f, b, np.inf, **kwargs)[0]
+    return quadrature(f, a, b, **kwargs)[0]
+
+
 def _finite_line_source_integrand(dis, H1, D1, H2, D2, reaSource, imgSource):
     """
     Integrand of the finite line source solution.
-- 
2.43.0

