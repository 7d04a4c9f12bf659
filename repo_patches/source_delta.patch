From a6e1e97178bd0681742f6649e8b68f0258112766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:23 +0000
Subject: [PATCH 01/26] fix: pipes: keep flow direction and model variables in
 step when flow reverses

The heat extraction rate coefficients reformatted the mass flow rate inputs
(inlet and outlet indices, flow direction) without updating the stored model
variables. A later call with the previous flow rate then reused model
variables with the flow direction of another call.
---
 pygfunction/pipes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index c5ceb5e..dd44a6e 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -571,6 +571,9 @@ class _BasePipe(object):
                 m_flow_borehole, cp_f, nSegments, segment_ratios, method_id):
             a_in, a_b = self._get_stored_coefficients(method_id)
         else:
+            # Check if model variables need to be updated
+            self._check_model_variables(
+                m_flow_borehole, cp_f, nSegments, segment_ratios)
             # Update input variables
             self._format_inputs(
                 m_flow_borehole, cp_f, nSegments, segment_ratios)
@@ -638,6 +641,9 @@ class _BasePipe(object):
                 m_flow_borehole, cp_f, nSegments, segment_ratios, method_id):
             a_in, a_b = self._get_stored_coefficients(method_id)
         else:
+            # Check if model variables need to be updated
+            self._check_model_variables(
+                m_flow_borehole, cp_f, nSegments, segment_ratios)
             # Update input variables
             self._format_inputs(
                 m_flow_borehole, cp_f, nSegments, segment_ratios)
-- 
2.43.0


From e0a187e1a224d3aef5f5575fa1418752b8a66054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:09 +0000
Subject: [PATCH 02/26] fix: pipes: protect stored coefficients from aliasing
 and partial updates

Stored segment ratios and coefficients were shared with the caller's arrays,
so that modifying them in place made later calls return wrong coefficients.
The stored mass flow rate (the key) is now written last and reset first, so
that an exception during an update cannot leave a key that matches values
evaluated for other inputs.
---
 pygfunction/pipes.py | 58 ++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index dd44a6e..b53f4be 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 import warnings
+from copy import copy
 from typing import Union
 
 import numpy as np
@@ -815,25 +816,32 @@ class _BasePipe(object):
 
     def _initialize_stored_coefficients(self):
         nMethods = 8    # Number of class methods
-        self._stored_coefficients = [() for i in range(nMethods)]
+        # The mass flow rates are reset first : stored values are only used if
+        # the mass flow rates match
         self._stored_m_flow_cp = [np.empty(self.nInlets)*np.nan
                                   for i in range(nMethods)]
+        self._m_flow_cp_model_variables = np.empty(self.nInlets)*np.nan
+        self._stored_coefficients = [() for i in range(nMethods)]
         self._stored_nSegments = [np.nan for i in range(nMethods)]
         self._stored_segment_ratios = [np.nan for i in range(nMethods)]
-        self._m_flow_cp_model_variables = np.empty(self.nInlets)*np.nan
         self._nSegments_model_variables = np.nan
         self._segment_ratios_model_variables = np.nan
 
-
     def _set_stored_coefficients(
             self, m_flow_borehole, cp_f, nSegments, segment_ratios, coefficients, method_id):
-        self._stored_coefficients[method_id] = coefficients
-        self._stored_m_flow_cp[method_id] = m_flow_borehole*cp_f
+        # The stored mass flow rate is reset while the coefficients are
+        # replaced. Copies are stored to protect from changes by the user.
+        self._stored_m_flow_cp[method_id] = np.empty(self.nInlets)*np.nan
+        self._stored_coefficients[method_id] = tuple(
+            [np.array(coefficient) for coefficient in coefficients])
         self._stored_nSegments[method_id] = nSegments
-        self._stored_segment_ratios[method_id] = segment_ratios
+        self._stored_segment_ratios[method_id] = copy(segment_ratios)
+        self._stored_m_flow_cp[method_id] = m_flow_borehole*cp_f
 
     def _get_stored_coefficients(self, method_id):
-        coefficients = self._stored_coefficients[method_id]
+        coefficients = tuple(
+            [np.array(coefficient)
+             for coefficient in self._stored_coefficients[method_id]])
         return coefficients
 
     def _check_model_variables(
@@ -848,16 +856,20 @@ class _BasePipe(object):
                             np.all(np.abs(segment_ratios - stored_segment_ratios) < np.abs(stored_segment_ratios)*tol))
         else:
             check_ratios = False
-        if (np.all(np.abs(m_flow_borehole*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
+        if (np.shape(m_flow_borehole*cp_f) == np.shape(stored_m_flow_cp)
+            and np.all(np.abs(m_flow_borehole*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
             and nSegments == stored_nSegments
             and check_ratios):
             check = True
         else:
+            # The stored mass flow rate is reset while the model variables are
+            # updated
+            self._m_flow_cp_model_variables = np.empty(self.nInlets)*np.nan
             self._update_model_variables(
                 m_flow_borehole, cp_f, nSegments, segment_ratios)
-            self._m_flow_cp_model_variables = m_flow_borehole*cp_f
             self._nSegments_model_variables = nSegments
-            self._segment_ratios_model_variables = segment_ratios
+            self._segment_ratios_model_variables = copy(segment_ratios)
+            self._m_flow_cp_model_variables = m_flow_borehole*cp_f
             check = False
 
         return check
@@ -878,6 +890,7 @@ class _BasePipe(object):
         else:
             check_ratios = False
         if (check_ratios
+            and np.shape(m_flow_borehole*cp_f) == np.shape(stored_m_flow_cp)
             and np.all(np.abs(m_flow_borehole*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)):
             check = True
         else:
@@ -1344,13 +1357,13 @@ class SingleUTube(_BasePipe):
             Fluid to outer pipe wall thermal resistance (m-K/W).
 
         """
-        self.R_fp = R_fp
         # Delta-circuit thermal resistances
-        self._Rd = thermal_resistances(
+        Rd = thermal_resistances(
             self.pos, self.r_out, self.b.r_b, self.k_s, self.k_g, R_fp,
             J=self.J)[1]
         # Initialize stored_coefficients
         self._initialize_stored_coefficients()
+        self.R_fp, self._Rd = R_fp, Rd
         return
 
     def _continuity_condition_head(
@@ -1882,13 +1895,13 @@ class MultipleUTube(_BasePipe):
             Fluid to outer pipe wall thermal resistance (m-K/W).
 
         """
-        self.R_fp = R_fp
         # Delta-circuit thermal resistances
-        self._Rd = thermal_resistances(
+        Rd = thermal_resistances(
             self.pos, self.r_out, self.b.r_b, self.k_s, self.k_g, R_fp,
             J=self.J)[1]
         # Initialize stored_coefficients
         self._initialize_stored_coefficients()
+        self.R_fp, self._Rd = R_fp, Rd
         return
 
     def _continuity_condition_head(
@@ -2326,13 +2339,13 @@ class IndependentMultipleUTube(MultipleUTube):
             Fluid to outer pipe wall thermal resistance (m-K/W).
 
         """
-        self.R_fp = R_fp
         # Delta-circuit thermal resistances
-        self._Rd = thermal_resistances(
+        Rd = thermal_resistances(
             self.pos, self.r_out, self.b.r_b, self.k_s, self.k_g, R_fp,
             J=self.J)[1]
         # Initialize stored_coefficients
         self._initialize_stored_coefficients()
+        self.R_fp, self._Rd = R_fp, Rd
         return
 
     def _flow_direction(
@@ -2629,20 +2642,19 @@ class Coaxial(SingleUTube):
             contact with the grout (in m-K/W).
 
         """
-        self.R_ff = R_ff
-        self.R_fp = R_fp
         # Outer pipe to borehole wall thermal resistance
         R_fg = thermal_resistances(
             self.pos, self.r_out[self._iOuter], self.b.r_b, self.k_s, self.k_g,
             R_fp, J=self.J)[1][0,0]
         # Delta-circuit thermal resistances
-        self._Rd = np.zeros((2*self.nPipes, 2*self.nPipes))
-        self._Rd[self._iInner, self._iInner] = np.inf
-        self._Rd[self._iInner, self._iOuter] = R_ff
-        self._Rd[self._iOuter, self._iInner] = R_ff
-        self._Rd[self._iOuter, self._iOuter] = R_fg
+        Rd = np.zeros((2*self.nPipes, 2*self.nPipes))
+        Rd[self._iInner, self._iInner] = np.inf
+        Rd[self._iInner, self._iOuter] = R_ff
+        Rd[self._iOuter, self._iInner] = R_ff
+        Rd[self._iOuter, self._iOuter] = R_fg
         # Initialize stored_coefficients
         self._initialize_stored_coefficients()
+        self.R_ff, self.R_fp, self._Rd = R_ff, R_fp, Rd
         return
 
     def visualize_pipes(self):
-- 
2.43.0


From 1dd5e4785540798521d8e85d07ee1024abff8991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:54 +0000
Subject: [PATCH 03/26] fix: networks: mix outlet temperatures with the flow
 rates of their own circuits

The mass flow rates are ordered by circuit (i.e. by inlet), while the outlets
are ordered by borehole index. The mixing coefficients used the wrong flow
rates when these orders differ and flow rates are not equal.
---
 pygfunction/networks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 8b5eb0b..23bf4b4 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1108,8 +1108,9 @@ class Network(object):
         """
         if not self._check_mixing_coefficients(m_flow_network):
             self._mix_out = np.zeros((1, self.nBoreholes))
-            self._mix_out[0, self.iOutlets] = \
-                np.abs(self._m_flow_in) / np.sum(np.abs(self._m_flow_in))
+            # Mass flow rates in the circuits connected to each of the outlets
+            m_flow_out = np.abs(self._m_flow_borehole[self.iOutlets])
+            self._mix_out[0, self.iOutlets] = m_flow_out / np.sum(m_flow_out)
             self._mixing_m_flow = m_flow_network
         return self._mix_out
 
-- 
2.43.0


From ec64905008e1c4f1092e10dec68554c764be7924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:54 +0000
Subject: [PATCH 04/26] fix: networks: format the flow rates before evaluating
 mixing coefficients

The coefficients for borehole outlet temperatures may be loaded from stored
values, in which case the mixing coefficients used the mass flow rates and the
flow direction of the previous call.
---
 pygfunction/networks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 23bf4b4..99c3ea4 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -846,6 +846,10 @@ class Network(object):
             # [T_{f,b,out}] = [b_in]*[T_{f,n,in}] + [b_b]*[T_{b}]
             b_in, b_b = self.coefficients_outlet_temperature(
                 m_flow_network, cp_f, nSegments, segment_ratios=segment_ratios)
+            # Update input variables (the coefficients for borehole outlet
+            # temperatures may have been loaded from stored values)
+            self._format_inputs(
+                m_flow_network, cp_f, nSegments, segment_ratios)
             # Coefficient matrices for network outlet temperature:
             # [T_{f,n,out}] = [a_in]*[T_{f,n,in}] + [a_b]*[T_{b}]
             mix_out = self._coefficients_mixing(m_flow_network)
-- 
2.43.0


From f8c99ba73c8b58811cdd533288eeb8267737ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:54 +0000
Subject: [PATCH 05/26] fix: networks: protect stored coefficients from
 aliasing and partial updates

- A scalar (total) mass flow rate matched an array of per-circuit mass flow
  rates of the same values, and the reverse.
- Mass flow rates, numbers of segments, segment ratios and coefficients were
  shared with the caller's objects.
- The key is reset while coefficients are replaced.
---
 pygfunction/networks.py | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 99c3ea4..d3c0701 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from copy import deepcopy
 from typing import Union, List
 
 import numpy as np
@@ -1111,11 +1112,14 @@ class Network(object):
 
         """
         if not self._check_mixing_coefficients(m_flow_network):
-            self._mix_out = np.zeros((1, self.nBoreholes))
+            mix_out = np.zeros((1, self.nBoreholes))
             # Mass flow rates in the circuits connected to each of the outlets
             m_flow_out = np.abs(self._m_flow_borehole[self.iOutlets])
-            self._mix_out[0, self.iOutlets] = m_flow_out / np.sum(m_flow_out)
-            self._mixing_m_flow = m_flow_network
+            mix_out[0, self.iOutlets] = m_flow_out / np.sum(m_flow_out)
+            # Store coefficients
+            self._mixing_m_flow = np.empty(self.nInlets)*np.nan
+            self._mix_out = mix_out
+            self._mixing_m_flow = deepcopy(m_flow_network)
         return self._mix_out
 
     def _initialize_coefficients_connectivity(self):
@@ -1186,21 +1190,28 @@ class Network(object):
     def _set_stored_coefficients(
             self, m_flow_network, cp_f, nSegments, segment_ratios,
             coefficients, method_id):
-        self._stored_coefficients[method_id] = coefficients
+        # The stored mass flow rate is reset while the coefficients are
+        # replaced. Copies are stored to protect from changes by the user.
+        self._stored_m_flow_cp[method_id] = np.empty(self.nInlets)*np.nan
+        self._stored_coefficients[method_id] = tuple(
+            [np.array(coefficient) for coefficient in coefficients])
+        self._stored_nSegments[method_id] = deepcopy(nSegments)
+        self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
         self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
-        self._stored_nSegments[method_id] = nSegments
-        self._stored_segment_ratios[method_id] = segment_ratios
 
         return
 
     def _get_stored_coefficients(self, method_id):
-        coefficients = self._stored_coefficients[method_id]
+        coefficients = tuple(
+            [np.array(coefficient)
+             for coefficient in self._stored_coefficients[method_id]])
 
         return coefficients
 
     def _check_mixing_coefficients(self, m_flow_network, tol=1e-6):
         mixing_m_flow = self._mixing_m_flow
-        if np.all(np.abs(m_flow_network - mixing_m_flow) < np.abs(mixing_m_flow)*tol):
+        if (np.shape(m_flow_network) == np.shape(mixing_m_flow)
+            and np.all(np.abs(m_flow_network - mixing_m_flow) < np.abs(mixing_m_flow)*tol)):
             check = True
         else:
             check = False
@@ -1220,7 +1231,10 @@ class Network(object):
                             np.all([np.all(np.abs(segment_ratios[i] - stored_segment_ratios[i]) < np.abs(stored_segment_ratios[i])*tol) for i in range(len(segment_ratios))]))
         else:
             check_ratios = False
-        if (np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
+        # The shape of the mass flow rate is compared since scalars and arrays
+        # have different meanings (total and per-circuit mass flow rates)
+        if (np.shape(m_flow_network*cp_f) == np.shape(stored_m_flow_cp)
+            and np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
             and nSegments == stored_nSegments and check_ratios):
             check = True
         else:
@@ -1584,12 +1598,15 @@ class _EquivalentNetwork(Network):
 
         """
         if not self._check_mixing_coefficients(m_flow_network):
-            self._mix_out = np.zeros((1, self.nBoreholes))
+            mix_out = np.zeros((1, self.nBoreholes))
             m_flow_in = np.abs(self._m_flow_in)
             wBoreholes = self.wBoreholes.flatten()
-            self._mix_out[0, self.iOutlets] = \
+            mix_out[0, self.iOutlets] = \
                 m_flow_in * wBoreholes / np.sum(m_flow_in * wBoreholes)
-            self._mixing_m_flow = m_flow_network
+            # Store coefficients
+            self._mixing_m_flow = np.empty(self.nInlets)*np.nan
+            self._mix_out = mix_out
+            self._mixing_m_flow = deepcopy(m_flow_network)
         return self._mix_out
 
     def _format_inputs(self, m_flow_network, cp_f, nSegments, segment_ratios):
-- 
2.43.0


From 8dcad7815f8d379f51d5e2886c403235cccf7e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:54 +0000
Subject: [PATCH 06/26] fix: networks: account for updates of the thermal
 resistances of pipes

Coefficients stored by the network were still used after a call to the
update_thermal_resistances method of its pipes.
---
 pygfunction/networks.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index d3c0701..5ef6e13 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1160,6 +1160,7 @@ class Network(object):
                                   for _ in range(nMethods)]
         self._stored_nSegments = [np.nan for _ in range(nMethods)]
         self._stored_segment_ratios = [np.nan for _ in range(nMethods)]
+        self._stored_Rd = [[None] * self.nBoreholes for _ in range(nMethods)]
         self._m_flow_cp_model_variables = np.empty(self.nInlets)*np.nan
         self._nSegments_model_variables = np.nan
         self._segment_ratios_model_variables = np.nan
@@ -1197,6 +1198,7 @@ class Network(object):
             [np.array(coefficient) for coefficient in coefficients])
         self._stored_nSegments[method_id] = deepcopy(nSegments)
         self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
+        self._stored_Rd[method_id] = [pipe._Rd for pipe in self.p]
         self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
 
         return
@@ -1233,7 +1235,13 @@ class Network(object):
             check_ratios = False
         # The shape of the mass flow rate is compared since scalars and arrays
         # have different meanings (total and per-circuit mass flow rates)
-        if (np.shape(m_flow_network*cp_f) == np.shape(stored_m_flow_cp)
+        # The thermal resistances of the pipes may have been updated since the
+        # coefficients were stored
+        check_Rd = all(
+            [pipe._Rd is Rd
+             for pipe, Rd in zip(self.p, self._stored_Rd[method_id])])
+        if (check_Rd
+            and np.shape(m_flow_network*cp_f) == np.shape(stored_m_flow_cp)
             and np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
             and nSegments == stored_nSegments and check_ratios):
             check = True
-- 
2.43.0


From 5d0a57d09b3a9e9087c248b40f9ee1c491a137e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:47 +0000
Subject: [PATCH 07/26] fix: pipes: make the saved thermal resistances
 consistent and independent

The inputs and outputs of the last call to thermal_resistances were shared
with the callers and written one by one. Changes to the returned matrices or
to the input positions, an exception during the update, or concurrent calls
from different threads could all give wrong resistances to unrelated objects.
The fluid-to-pipe resistances are also compared with the documented tolerance.
---
 pygfunction/pipes.py | 53 ++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index b53f4be..8977e80 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -2796,16 +2796,17 @@ class Coaxial(SingleUTube):
 
 # Dictionary of inputs and outputs for thermal_resistance function
 # The inputs and outputs of the last call to the function are saved into this
-# dictionary to save calculation time on repeated calls.
+# dictionary to save calculation time on repeated calls. The dictionary is never
+# modified : it is replaced as a whole so that its content is always consistent.
 _thermal_resistances_dict = {
     'pos': None, 'r_out': None, 'r_b': None, 'k_s': None, 'k_g': None,
     'R_fp': None, 'J': None, 'R': None, 'Rd': None}
 
 
 def _compare_thermal_resistances_inputs(
-        pos, r_out, r_b, k_s, k_g, R_fp, J, tol=1e-6):
+        pos, r_out, r_b, k_s, k_g, R_fp, J, saved, tol=1e-6):
     """
-    Compare inputs to the content of the _thermal_resistances_dict dictionary.
+    Compare inputs to the content of a _thermal_resistances_dict dictionary.
 
     Parameters
     ----------
@@ -2824,6 +2825,8 @@ def _compare_thermal_resistances_inputs(
         Fluid-to-outer-pipe-wall thermal resistance (in m-K/W).
     J : int
         Number of multipoles per pipe to evaluate the thermal resistances.
+    saved : dict
+        Saved inputs and outputs of a call to the function.
     tol : float, optional
         Relative tolerance.
         Default is 1e-6.
@@ -2836,24 +2839,24 @@ def _compare_thermal_resistances_inputs(
     """
     # Return False if dictionary is empty
     for arg in ('pos', 'r_out', 'r_b', 'k_s', 'k_g', 'R_fp', 'J'):
-        if _thermal_resistances_dict[arg] is None:
+        if saved[arg] is None:
             return False
     # Return False if the number of pipes is not equal
-    if not (len(pos) == len(_thermal_resistances_dict['pos']) and
-            len(r_out) == len(_thermal_resistances_dict['r_out']) and
-            len(R_fp) == len(_thermal_resistances_dict['R_fp'])):
+    if not (len(pos) == len(saved['pos']) and
+            len(r_out) == len(saved['r_out']) and
+            len(R_fp) == len(saved['R_fp'])):
         return False
     # Compare r_out, r_b, k_s, k_g, R_fp and J
-    if not (np.allclose(r_out, _thermal_resistances_dict['r_out'], rtol=tol) and
-        np.abs(r_b - _thermal_resistances_dict['r_b']) / r_b < tol and
-        np.abs(k_s - _thermal_resistances_dict['k_s']) / k_s < tol and
-        np.abs(k_g - _thermal_resistances_dict['k_g']) / k_g < tol and
-        np.allclose(R_fp, _thermal_resistances_dict['R_fp']) and
-        J == _thermal_resistances_dict['J']):
+    if not (np.allclose(r_out, saved['r_out'], rtol=tol) and
+        np.abs(r_b - saved['r_b']) / r_b < tol and
+        np.abs(k_s - saved['k_s']) / k_s < tol and
+        np.abs(k_g - saved['k_g']) / k_g < tol and
+        np.allclose(R_fp, saved['R_fp'], rtol=tol) and
+        J == saved['J']):
         return False
     # Compare pipe positions
     for (x, y), (x_ref, y_ref) in zip(
-            pos, _thermal_resistances_dict['pos']):
+            pos, saved['pos']):
         if (np.abs(x - x_ref) > np.abs(x*tol) or
             np.abs(y - y_ref) > np.abs(y*tol)):
             return False
@@ -2926,6 +2929,7 @@ def thermal_resistances(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
        heat exchanger. HVAC&R Research, 17(6), 895-911.
 
     """
+    global _thermal_resistances_dict
     # Number of pipes
     n_p = len(pos)
     # If r_out and/or Rfp are supplied as float, build arrays of size n_p
@@ -2934,8 +2938,10 @@ def thermal_resistances(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
     if np.isscalar(R_fp):
         R_fp = np.ones(n_p)*R_fp
     # Return saved outputs if inputs are the same as last call
-    if _compare_thermal_resistances_inputs(pos, r_out, r_b, k_s, k_g, R_fp, J):
-        return _thermal_resistances_dict['R'], _thermal_resistances_dict['Rd']
+    saved = _thermal_resistances_dict
+    if _compare_thermal_resistances_inputs(
+            pos, r_out, r_b, k_s, k_g, R_fp, J, saved):
+        return saved['R'].copy(), saved['Rd'].copy()
 
     R = np.zeros((n_p, n_p))
     if J == 0:
@@ -2978,16 +2984,11 @@ def thermal_resistances(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
                     sum([K[i, j] for j in range(n_p) if not i == j]))
     Rd = 1.0/K
 
-    # Save outputs into dictionary
-    _thermal_resistances_dict['pos'] = pos
-    _thermal_resistances_dict['r_out'] = r_out
-    _thermal_resistances_dict['r_b'] = r_b
-    _thermal_resistances_dict['k_s'] = k_s
-    _thermal_resistances_dict['k_g'] = k_g
-    _thermal_resistances_dict['R_fp'] = R_fp
-    _thermal_resistances_dict['J'] = J
-    _thermal_resistances_dict['R'] = R
-    _thermal_resistances_dict['Rd'] = Rd
+    # Save copies of the inputs and outputs into a new dictionary
+    _thermal_resistances_dict = {
+        'pos': [tuple(xy) for xy in pos], 'r_out': np.array(r_out),
+        'r_b': r_b, 'k_s': k_s, 'k_g': k_g, 'R_fp': np.array(R_fp), 'J': J,
+        'R': R.copy(), 'Rd': Rd.copy()}
     return R, Rd
 
 
-- 
2.43.0


From 530d9e300195b3ead6c4ffc098810d1c7fca5273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:22 +0000
Subject: [PATCH 08/26] fix: gfunction: do not modify the mass flow rates of
 the user's network

The 'equivalent' solver replaced the array of mass flow rates of the Network
object supplied by the user with a scalar. The value is not used by the solver.
---
 pygfunction/solvers/equivalent.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index f23943c..8b3fbe8 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -832,11 +832,6 @@ class Equivalent(_BaseSolver):
                     or (self.m_flow_borehole.ndim==2 and np.all([np.allclose(self.m_flow_borehole[:, i], self.m_flow_borehole[0, i]) for i in range(self.nBoreholes)]))), \
                 "Mass flow rates into the network must be equal for all " \
                 "boreholes."
-            # Use the total network mass flow rate.
-            if (type(self.network.m_flow_network) is np.ndarray and \
-                len(self.network.m_flow_network)==len(self.network.b)):
-                self.network.m_flow_network = \
-                    self.network.m_flow_network[0]*len(self.network.b)
             # Verify that all boreholes have the same piping configuration
             # This is best done by comparing the matrix of thermal resistances.
             assert np.all(
-- 
2.43.0


From 391f0b153dbc7d5231448198d42a9d23c7e19f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:45 +0000
Subject: [PATCH 09/26] fix: gfunction: repair plots of profiles at a specified
 time

- numpy.asscalar is no longer available: temperature profiles could not be
  plotted for the UBWT boundary condition.
- Profiles of variable mass flow rate g-functions were interpolated over the
  wrong boreholes.
---
 pygfunction/gfunction.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 0edad34..a7e2b5c 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1234,7 +1234,7 @@ class gFunction(object):
                     else:
                         Q_bi = interp1d(
                             self.time,
-                            self.solver.Q_b[i0:i1,:],
+                            self.solver.Q_b[:,i0:i1,:],
                             kind='linear',
                             copy=False,
                             axis=2)(time)
@@ -1337,14 +1337,14 @@ class gFunction(object):
                 if time is None:
                     # If time is None, temperatures are extracted at the last
                     # time step.
-                    T_bi = np.asscalar(self.solver.T_b[-1])
+                    T_bi = self.solver.T_b[-1].item()
                 else:
                     # Otherwise, temperatures are interpolated.
-                    T_bi = np.asscalar(
-                        interp1d(self.time,
-                                 self.solver.T_b[:],
-                                 kind='linear',
-                                 copy=False)(time))
+                    T_bi = interp1d(
+                        self.time,
+                        self.solver.T_b[:],
+                        kind='linear',
+                        copy=False)(time).item()
                 T_b.append(np.array(2*[T_bi]))
             else:
                 i0 = self.solver._i0Segments[i]
@@ -1358,11 +1358,6 @@ class gFunction(object):
                         T_bi = self.solver.T_b[:, i0:i1, -1]
                 else:
                     # Otherwise, temperatures are interpolated.
-                    T_bi = interp1d(self.time,
-                                    self.solver.T_b[i0:i1, :],
-                                    kind='linear',
-                                    copy=False,
-                                    axis=1)(time)
                     if self.solver.nMassFlow == 0:
                         T_bi = interp1d(
                             self.time,
@@ -1373,7 +1368,7 @@ class gFunction(object):
                     else:
                         T_bi = interp1d(
                             self.time,
-                            self.solver.T_b[i0:i1,:],
+                            self.solver.T_b[:,i0:i1,:],
                             kind='linear',
                             copy=False,
                             axis=2)(time)
-- 
2.43.0


From e01a797d3d01210ddc9e8603ca04be6c8a172ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:26 +0000
Subject: [PATCH 10/26] fix: gfunction: plot temperature profiles of equivalent
 boreholes

visualize_temperature_profiles used the number of boreholes in the bore field,
rather than the number of (equivalent) boreholes of the solver as do the other
methods, and failed for the 'equivalent' solver.
---
 pygfunction/gfunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index a7e2b5c..6921175 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1021,7 +1021,7 @@ class gFunction(object):
 
         # If iBoreholes is None, then plot all boreholes
         if iBoreholes is None:
-            iBoreholes = range(len(self.boreholes))
+            iBoreholes = range(len(self.solver.boreholes))
         # Import temperature profiles
         z, T_b = self._temperature_profiles(time, iBoreholes)
 
-- 
2.43.0


From b654c73a95b44a39cac32de0d383e6444e94fc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:37 +0000
Subject: [PATCH 11/26] fix: gfunction: store time and g-function values
 together

An exception during evaluate_g_function left the object with the new time
values and the g-function of a previous evaluation.
---
 pygfunction/gfunction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 6921175..f5aff72 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -469,8 +469,6 @@ class gFunction(object):
         time = np.maximum(np.atleast_1d(time), 0.)
         assert len(time) == 1 or np.all(time[:-1] <= time[1:]), \
             "Time values must be provided in increasing order."
-        # Save time values
-        self.time = time
         if self.solver.disp:
             print(60*'-')
             print(f"Calculating g-function for boundary condition : "
@@ -480,8 +478,10 @@ class gFunction(object):
         tic = perf_counter()
 
         # Evaluate g-function
-        self.gFunc = self.solver.solve(time, self.alpha)
+        gFunc = self.solver.solve(time, self.alpha)
         toc = perf_counter()
+        # Save time and g-function values
+        self.time, self.gFunc = time, gFunc
 
         if self.solver.disp:
             print(f'Total time for g-function evaluation: '
-- 
2.43.0


From 9b368a7a51f5add5925cf4b5f30034d391f03bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:56 +0000
Subject: [PATCH 12/26] fix: load_aggregation: do not share internal arrays
 with the caller

Changing in place the array of thermal response factors given to initialize,
or the arrays returned by the class, changed the simulated temperatures.
---
 pygfunction/load_aggregation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygfunction/load_aggregation.py b/pygfunction/load_aggregation.py
index b95a8fb..6ad6fb5 100644
--- a/pygfunction/load_aggregation.py
+++ b/pygfunction/load_aggregation.py
@@ -136,7 +136,7 @@ class ClaessonJaved(_LoadAggregation):
         if self.nSources == 1:
             dg = self.dg.flatten()
         else:
-            dg = self.dg
+            dg = self.dg.copy()
         return dg
 
     def get_times_for_simulation(self):
@@ -151,7 +151,7 @@ class ClaessonJaved(_LoadAggregation):
             (in seconds).
 
         """
-        return self._time
+        return self._time.copy()
 
     def set_current_load(self, q_b):
         """
@@ -288,7 +288,7 @@ class MLAA(_LoadAggregation):
         """
         if self.nSources==1:
             g_d = g_d.reshape(1, 1, -1)
-        self.g_d = g_d
+        self.g_d = g_d.copy()
 
     def next_time_step(self, time):
         """
@@ -540,7 +540,7 @@ class Liu(_LoadAggregation):
         """
         if self.nSources==1:
             g_d = g_d.reshape(1, 1, -1)
-        self.g_d = g_d
+        self.g_d = g_d.copy()
 
     def next_time_step(self, time):
         """
-- 
2.43.0


From 1700223d5af8a628b6f838971ffcab54f6250d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 13/26] fix: pipes: do not compare segment ratios of different
 lengths

---
 pygfunction/pipes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 8977e80..cb4405d 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -884,7 +884,8 @@ class _BasePipe(object):
             if stored_segment_ratios is None and segment_ratios is None:
                 check_ratios = True
             elif isinstance(stored_segment_ratios, np.ndarray) and isinstance(segment_ratios, np.ndarray):
-                check_ratios = np.all(np.abs(segment_ratios - stored_segment_ratios) < np.abs(stored_segment_ratios)*tol)
+                check_ratios = (len(segment_ratios) == len(stored_segment_ratios) and
+                                np.all(np.abs(segment_ratios - stored_segment_ratios) < np.abs(stored_segment_ratios)*tol))
             else:
                 check_ratios = False
         else:
-- 
2.43.0


From f1be3ab74125512e9dc216c5fe3bd563077aae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:09 +0000
Subject: [PATCH 14/26] fix: gfunction, borefield: do not share arrays with the
 caller

Flow rates and segment ratios given to a gFunction, and the arrays of a bore
field, were kept by reference. A later change by the caller of its own arrays
changed the following evaluations.
---
 pygfunction/borefield.py            | 7 +++++--
 pygfunction/solvers/_base_solver.py | 9 +++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pygfunction/borefield.py b/pygfunction/borefield.py
index 3a92b88..3346ebe 100644
--- a/pygfunction/borefield.py
+++ b/pygfunction/borefield.py
@@ -43,9 +43,12 @@ class Borefield:
             self, H: npt.ArrayLike, D: npt.ArrayLike, r_b: npt.ArrayLike,
             x: npt.ArrayLike, y: npt.ArrayLike, tilt: npt.ArrayLike = 0.,
             orientation: npt.ArrayLike = 0.):
+        # Copy the inputs so that later changes by the caller have no effect
+        H, D, r_b, tilt, orientation = (
+            np.array(v) for v in (H, D, r_b, tilt, orientation))
         # Convert x and y coordinates to arrays
-        x = np.atleast_1d(x)
-        y = np.atleast_1d(y)
+        x = np.array(x, ndmin=1)
+        y = np.array(y, ndmin=1)
         self.nBoreholes = np.maximum(len(x), len(y))
 
         # Broadcast all variables to arrays of length `nBoreholes`
diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index e73eb2f..d5a073d 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -129,14 +129,15 @@ class _BaseSolver:
         if type(nSegments) is int:
             self.nBoreSegments = [nSegments] * nBoreholes
         else:
-            self.nBoreSegments = nSegments
+            self.nBoreSegments = list(nSegments)
         if isinstance(segment_ratios, np.ndarray):
             segment_ratios = [segment_ratios] * nBoreholes
         elif segment_ratios is None:
             segment_ratios = [np.full(n, 1./n) for n in self.nBoreSegments]
         elif callable(segment_ratios):
             segment_ratios = [segment_ratios(n) for n in self.nBoreSegments]
-        self.segment_ratios = segment_ratios
+        # Copy the arrays so that later changes by the caller have no effect
+        self.segment_ratios = [np.array(ratios) for ratios in segment_ratios]
         # Shortcut for segment_ratios comparisons
         self._equal_segment_ratios = \
             (np.all(np.array(self.nBoreSegments, dtype=np.uint) == self.nBoreSegments[0])
@@ -157,13 +158,13 @@ class _BaseSolver:
         if self.m_flow_borehole is not None:
             if not self.m_flow_borehole.ndim == 1:
                 self.nMassFlow = np.size(self.m_flow_borehole, axis=0)
-            self.m_flow_borehole = np.atleast_2d(self.m_flow_borehole)
+            self.m_flow_borehole = np.array(self.m_flow_borehole, ndmin=2)
             self.m_flow = self.m_flow_borehole
         self.m_flow_network = m_flow_network
         if self.m_flow_network is not None:
             if not isinstance(self.m_flow_network, (np.floating, float)):
                 self.nMassFlow = len(self.m_flow_network)
-            self.m_flow_network = np.atleast_1d(self.m_flow_network)
+            self.m_flow_network = np.array(self.m_flow_network, ndmin=1)
             self.m_flow = self.m_flow_network
         self.cp_f = cp_f
         self.approximate_FLS = approximate_FLS
-- 
2.43.0


From 8986b6b230b11e88a14f63d811b1eba045a06f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:07 +0000
Subject: [PATCH 15/26] fix: pipes: do not share the radii of coaxial pipes
 with the caller

An update of the thermal resistances used the radii found in the arrays given
to the constructor, which the caller may have changed since.
---
 pygfunction/pipes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index cb4405d..3470bbc 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -2602,8 +2602,9 @@ class Coaxial(SingleUTube):
         if isinstance(pos, tuple):
             pos = [pos]
         self.pos = pos
-        self.r_in = r_in
-        self.r_out = r_out
+        # Copy the arrays so that later changes by the caller have no effect
+        self.r_in = np.array(r_in)
+        self.r_out = np.array(r_out)
         self.b = borehole
         self.k_s = k_s
         self.k_g = k_g
@@ -2616,8 +2617,8 @@ class Coaxial(SingleUTube):
         self.nOutlets = 1
 
         # Determine the indexes of the inner and outer pipes
-        self._iInner = r_out.argmin()
-        self._iOuter = r_out.argmax()
+        self._iInner = self.r_out.argmin()
+        self._iOuter = self.r_out.argmax()
 
         self._check_geometry()
 
-- 
2.43.0


From 94ec9d32beb41c905241b4e95100c62ef5654d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:56 +0000
Subject: [PATCH 16/26] fix: pipes: use the absolute flow rate when the flow is
 not reversible

---
 pygfunction/pipes.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 3470bbc..7198cf4 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1653,6 +1653,8 @@ class SingleUTube(_BasePipe):
         self._m_flow_in = m_flow_in
         # Mass flow rate in pipes
         m_flow_pipe = np.array([m_flow_borehole, -m_flow_borehole]).flatten()
+        if not self.reversible_flow:
+            m_flow_pipe = np.array([1., -1.]) * np.abs(m_flow_pipe)
         self._m_flow_pipe = m_flow_pipe
         # Flow direction
         self._is_reversed = m_flow_borehole < 0. and self.reversible_flow
@@ -2223,8 +2225,9 @@ class MultipleUTube(_BasePipe):
             m_flow_pipe = np.tile(
                 np.abs(m_flow_borehole),
                 self.nPipes)
-        self._m_flow_pipe = np.sign(m_flow_borehole) * np.concatenate(
-            (m_flow_pipe, -m_flow_pipe))
+        self._m_flow_pipe = np.concatenate((m_flow_pipe, -m_flow_pipe))
+        if self.reversible_flow:
+            self._m_flow_pipe = np.sign(m_flow_borehole) * self._m_flow_pipe
         # Mass flow rate in each fluid circuit
         m_flow_in = np.atleast_1d(m_flow_borehole)
         self._m_flow_in = m_flow_in
@@ -2501,7 +2504,8 @@ class IndependentMultipleUTube(MultipleUTube):
                 'Incorrect length of mass flow vector.')
         self._m_flow_in = m_flow_in
         # Mass flow rate in pipes
-        self._m_flow_pipe = np.concatenate((m_flow_in, -m_flow_in))
+        m_flow_pipe = m_flow_in if self.reversible_flow else np.abs(m_flow_in)
+        self._m_flow_pipe = np.concatenate((m_flow_pipe, -m_flow_pipe))
         # Flow direction
         self._is_reversed = np.logical_and(
             m_flow_borehole < 0.,
-- 
2.43.0


From 72255cb188bf6d430922b9c362f694097409920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:55 +0000
Subject: [PATCH 17/26] fix: load_aggregation: a rejected load does not change
 part of the current load

---
 pygfunction/load_aggregation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygfunction/load_aggregation.py b/pygfunction/load_aggregation.py
index 6ad6fb5..8de9744 100644
--- a/pygfunction/load_aggregation.py
+++ b/pygfunction/load_aggregation.py
@@ -164,7 +164,7 @@ class ClaessonJaved(_LoadAggregation):
             (in watts per meter).
 
         """
-        self.q_b[:,0] = q_b
+        self.q_b[:,0] = np.asarray(q_b, dtype=float)
 
     def temporal_superposition(self):
         """
@@ -379,6 +379,7 @@ class MLAA(_LoadAggregation):
             (in watts per meter).
 
         """
+        q_b = np.asarray(q_b, dtype=float)
         self.q_b[:,self._nt-1] = q_b
         self.Q0[:,-1] = q_b
 
@@ -627,7 +628,7 @@ class Liu(_LoadAggregation):
             (in watts per meter).
 
         """
-        self.Q0[:,0] = q_b
+        self.Q0[:,0] = np.asarray(q_b, dtype=float)
 
     def temporal_superposition(self):
         """
-- 
2.43.0


From a1ee96c46a11c4a883ae30a975b42f4760169388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:39 +0000
Subject: [PATCH 18/26] fix: solvers: linearize g-functions of several mass
 flow rates at short times

---
 pygfunction/solvers/_base_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index d5a073d..40eaba7 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -445,7 +445,7 @@ class _BaseSolver:
 
             # Linearize g-function for times under threshold
             if p_long > 0:
-                gFunc[:,:,:p_long] = gFunc[:,:,p_long-1] * self.time[:p_long] / time_threshold
+                gFunc[:,:,:p_long] = gFunc[:,:,p_long-1:p_long] * self.time[:p_long] / time_threshold
                 Q_b[:,:,:p_long] = 1 + (Q_b[:,:,p_long-1:p_long] - 1) * self.time[:p_long] / time_threshold
                 T_b[:,:,:p_long] = T_b[:,:,p_long-1:p_long] * self.time[:p_long] / time_threshold
             if self.nMassFlow == 0:
-- 
2.43.0


From 4bba2b9154001c44964d8f112b768f2087839af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:26 +0000
Subject: [PATCH 19/26] fix: gfunction: keep profiles consistent with the times
 when an evaluation is stopped

---
 pygfunction/gfunction.py            | 6 +++---
 pygfunction/solvers/_base_solver.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index f5aff72..6aefac7 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -479,9 +479,9 @@ class gFunction(object):
 
         # Evaluate g-function
         gFunc = self.solver.solve(time, self.alpha)
-        toc = perf_counter()
         # Save time and g-function values
         self.time, self.gFunc = time, gFunc
+        toc = perf_counter()
 
         if self.solver.disp:
             print(f'Total time for g-function evaluation: '
@@ -1155,9 +1155,9 @@ class gFunction(object):
         for i in iBoreholes:
             if self.boundary_condition == 'UHTR':
                 # For the UHTR boundary condition, the heat extraction rate is
-                # constant. A vector of length len(self.solver.time) is
+                # constant. A vector of length len(self.time) is
                 # required for the time-dependent figure.
-                Q_t.append(self.solver.Q_b*np.ones(len(self.solver.time)))
+                Q_t.append(self.solver.Q_b*np.ones(len(self.time)))
             else:
                 # For other boundary conditions, evaluate the average
                 # heat extraction rate.
diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index 40eaba7..f24eb49 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -453,12 +453,12 @@ class _BaseSolver:
                 Q_b = Q_b[0,:,:]
                 T_b = T_b[0,:,:]
 
+        toc = perf_counter()
+        if self.disp: print(f' {toc - tic:.3f} sec')
         # Store temperature and heat extraction rate profiles
         if self.profiles:
             self.Q_b = Q_b
             self.T_b = T_b
-        toc = perf_counter()
-        if self.disp: print(f' {toc - tic:.3f} sec')
         return gFunc
 
     def segment_lengths(self):
-- 
2.43.0


From 05144f58bfabca405c6dce9cabcc470cde212bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 20/26] fix: gfunction: return a copy of the stored g-function
 values

---
 pygfunction/gfunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 6aefac7..ccee586 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -487,7 +487,7 @@ class gFunction(object):
             print(f'Total time for g-function evaluation: '
                   f'{toc - tic:.3f} sec')
             print(60*'-')
-        return self.gFunc
+        return self.gFunc.copy()
 
     def visualize_g_function(self, which=None):
         """
-- 
2.43.0


From e0e4e41a27e3d0d41e5947fc3866c97cb0300270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 21/26] fix: networks: stored coefficients distinguish total
 and per-inlet flow rates

---
 pygfunction/networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 5ef6e13..d4763ed 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1158,6 +1158,7 @@ class Network(object):
         self._stored_coefficients = [() for _ in range(nMethods)]
         self._stored_m_flow_cp = [np.empty(self.nInlets)*np.nan
                                   for _ in range(nMethods)]
+        self._stored_m_flow_shape = [() for _ in range(nMethods)]
         self._stored_nSegments = [np.nan for _ in range(nMethods)]
         self._stored_segment_ratios = [np.nan for _ in range(nMethods)]
         self._stored_Rd = [[None] * self.nBoreholes for _ in range(nMethods)]
@@ -1199,6 +1200,7 @@ class Network(object):
         self._stored_nSegments[method_id] = deepcopy(nSegments)
         self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
         self._stored_Rd[method_id] = [pipe._Rd for pipe in self.p]
+        self._stored_m_flow_shape[method_id] = np.shape(m_flow_network)
         self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
 
         return
@@ -1241,6 +1243,7 @@ class Network(object):
             [pipe._Rd is Rd
              for pipe, Rd in zip(self.p, self._stored_Rd[method_id])])
         if (check_Rd
+            and np.shape(m_flow_network) == self._stored_m_flow_shape[method_id]
             and np.shape(m_flow_network*cp_f) == np.shape(stored_m_flow_cp)
             and np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
             and nSegments == stored_nSegments and check_ratios):
-- 
2.43.0


From 26c6fb3ab4467aca3253eac89d45dfe059c34919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 22/26] fix: networks: stored coefficients compare the number
 of segment ratios

---
 pygfunction/networks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index d4763ed..4a08cfb 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1231,7 +1231,8 @@ class Network(object):
         if stored_segment_ratios is None and segment_ratios is None:
             check_ratios = True
         elif isinstance(stored_segment_ratios, list) and isinstance(segment_ratios, list):
-            check_ratios = (np.all([len(segment_ratios[i]) == len(stored_segment_ratios[i]) for i in range(len(segment_ratios))]) and
+            check_ratios = (len(segment_ratios) == len(stored_segment_ratios) and
+                            np.all([len(segment_ratios[i]) == len(stored_segment_ratios[i]) for i in range(len(segment_ratios))]) and
                             np.all([np.all(np.abs(segment_ratios[i] - stored_segment_ratios[i]) < np.abs(stored_segment_ratios[i])*tol) for i in range(len(segment_ratios))]))
         else:
             check_ratios = False
-- 
2.43.0


From 9b237deeb3b69a0a72812d9f820afbad5bfa0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 23/26] fix: mixed_inlet_temperature: use the mass flow rate
 and heat capacity given

The arguments m_flow_network and cp_f were ignored: the function failed
or used the values held by the network, if any.
---
 pygfunction/gfunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index ccee586..9bddf6f 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1927,6 +1927,7 @@ def mixed_inlet_temperature(
     # Evaluate g-function
     gFunc = gFunction(
         network, alpha, time=time, method=method,
-        boundary_condition=boundary_condition, options=options)
+        boundary_condition=boundary_condition,
+        m_flow_network=m_flow_network, cp_f=cp_f, options=options)
 
     return gFunc.gFunc
-- 
2.43.0


From ad6f5c89e3aac7f479d4af437b0c512a0a88b9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:28 +0000
Subject: [PATCH 24/26] fix: find_duplicates: return pairs with recent versions
 of numpy

---
 pygfunction/boreholes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index 330ed4b..c122424 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -645,7 +645,7 @@ def find_duplicates(boreField, disp=False):
     # Find distance between each pair of boreholes
     distances = pdist(coordinates, 'euclidean')
     # Find duplicate boreholes
-    duplicate_index = np.argwhere(distances < r_b)
+    duplicate_index = np.flatnonzero(distances < r_b)
     i = n - 2 - np.floor(
         np.sqrt(-8 * duplicate_index + 4 * n * (n - 1) - 7) / 2 - 0.5)
     j = duplicate_index + i + 1 - n * (n - 1) / 2 + (n - i) * ((n - i) - 1) / 2
-- 
2.43.0


From 4280ac84e3b72cad9e9c408e5fd7f4d9de8244ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:15 +0000
Subject: [PATCH 25/26] fix: networks, gfunction: do not share lists with the
 caller

---
 pygfunction/gfunction.py |  4 +++-
 pygfunction/networks.py  | 11 ++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 9bddf6f..ecf9955 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 import warnings
+from copy import copy
 from time import perf_counter
 from typing import Union, List
 
@@ -1422,7 +1423,8 @@ class gFunction(object):
                 self.cp_f = self.network.cp_f
         else:
             self.network = None
-            self.boreholes = boreholes_or_network
+            # Copy the list so that later changes by the caller have no effect
+            self.boreholes = copy(boreholes_or_network)
             # If a borefield is provided and no boundary condition is provided,
             # use 'UBWT'
             if self.boundary_condition is None:
diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 4a08cfb..db58789 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1,5 +1,5 @@
 # -*- coding: utf-8 -*-
-from copy import deepcopy
+from copy import copy, deepcopy
 from typing import Union, List
 
 import numpy as np
@@ -85,14 +85,15 @@ class Network(object):
     def __init__(self, boreholes, pipes, bore_connectivity=None,
                  m_flow_network=None, cp_f=None, nSegments=None,
                  segment_ratios=None):
-        self.b = boreholes
+        # Copy the lists so that later changes by the caller have no effect
+        self.b = copy(boreholes)
         self.H_tot = sum([b.H for b in self.b])
         self.nBoreholes = len(boreholes)
-        self.p = pipes
+        self.p = copy(pipes)
         if bore_connectivity is None:
             bore_connectivity = [-1]*self.nBoreholes
-        self.c = bore_connectivity
-        self.m_flow_network = m_flow_network
+        self.c = copy(bore_connectivity)
+        self.m_flow_network = copy(m_flow_network)
         self.cp_f = cp_f
 
         # Verify that borehole connectivity is valid
-- 
2.43.0


From b7858151a9c66de9b901bd2800edaefa48f470be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:15 +0000
Subject: [PATCH 26/26] fix: pipes: do not share the pipe positions with the
 caller

---
 pygfunction/pipes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 7198cf4..5271f8a 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 import warnings
-from copy import copy
+from copy import copy, deepcopy
 from typing import Union
 
 import numpy as np
@@ -1093,7 +1093,7 @@ class SingleUTube(_BasePipe):
     def __init__(
             self, pos, r_in, r_out, borehole, k_s, k_g, R_fp, J=2,
             reversible_flow=True):
-        self.pos = pos
+        self.pos = deepcopy(pos)
         self.r_in = r_in
         self.r_out = r_out
         self.b = borehole
@@ -1865,7 +1865,7 @@ class MultipleUTube(_BasePipe):
     """
     def __init__(self, pos, r_in, r_out, borehole, k_s, k_g, R_fp, nPipes,
                  config='parallel', J=2, reversible_flow=True):
-        self.pos = pos
+        self.pos = deepcopy(pos)
         self.r_in = r_in
         self.r_out = r_out
         self.b = borehole
@@ -2311,7 +2311,7 @@ class IndependentMultipleUTube(MultipleUTube):
     """
     def __init__(self, pos, r_in, r_out, borehole, k_s, k_g, R_fp, nPipes,
                  J=2, reversible_flow=True):
-        self.pos = pos
+        self.pos = deepcopy(pos)
         self.r_in = r_in
         self.r_out = r_out
         self.b = borehole
@@ -2605,7 +2605,7 @@ class Coaxial(SingleUTube):
                  reversible_flow=True):
         if isinstance(pos, tuple):
             pos = [pos]
-        self.pos = pos
+        self.pos = deepcopy(pos)
         # Copy the arrays so that later changes by the caller have no effect
         self.r_in = np.array(r_in)
         self.r_out = np.array(r_out)
-- 
2.43.0

