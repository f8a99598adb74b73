From c393e9bb0264ee7753878e83ebe065ca3a875ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:22 +0000
Subject: [PATCH 01/12] fix: leave models untouched when an attribute
 assignment fails

---
 harold/_classes.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 2bd1796..b8c5160 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -15,13 +15,26 @@ from ._polynomial_ops import (haroldpoly, haroldpolyadd, haroldpolydiv,
 from ._array_validators import _assert_square
 from ._aux_linalg import haroldsvd
 from ._global_constants import _KnownDiscretizationMethods
-from copy import deepcopy
+from copy import copy, deepcopy
 
 __all__ = ['Transfer', 'State', 'state_to_transfer', 'transfer_to_state',
            'transmission_zeros', 'random_state_model',
            'concatenate_state_matrices']
 
 
+def _update_model(G, **data):
+    """
+    Stores new data on a model and recomputes everything that depends on it.
+
+    The computations are done on a shallow copy and taken over at once when
+    they are finished. Hence if they fail, the model stays as it was.
+    """
+    new = copy(G)
+    new.__dict__.update(data)
+    new._recalc()
+    G.__dict__.update(new.__dict__)
+
+
 class Transfer:
     """
     A class for creating Transfer functions.
@@ -284,8 +297,7 @@ class Transfer:
                              'the system has {2}x{3}.'
                              ''.format(*user_shape+self._shape))
         else:
-            self._num = user_num
-            self._recalc()
+            _update_model(self, _num=user_num)
 
     @den.setter
     def den(self, value):
@@ -299,8 +311,7 @@ class Transfer:
                              'the system has {2}x{3}.'
                              ''.format(*user_shape+self._shape))
         else:
-            self._den = user_den
-            self._recalc()
+            _update_model(self, _den=user_den)
 
     @DiscretizedWith.setter
     def DiscretizedWith(self, value):
@@ -1812,8 +1823,7 @@ class State:
             np.zeros_like(self._c),
             np.zeros_like(self._d)
             )[0]
-        self._a = value
-        self._recalc()
+        _update_model(self, _a=value)
 
     @b.setter
     def b(self, value):
@@ -1823,8 +1833,7 @@ class State:
             np.zeros_like(self._c),
             np.zeros_like(self._d)
             )[1]
-        self._b = value
-        self._recalc()
+        _update_model(self, _b=value)
 
     @c.setter
     def c(self, value):
@@ -1834,8 +1843,7 @@ class State:
             value,
             np.zeros_like(self._d)
             )[2]
-        self._c = value
-        self._recalc()
+        _update_model(self, _c=value)
 
     @d.setter
     def d(self, value):
@@ -1845,8 +1853,7 @@ class State:
             np.zeros_like(self._c),
             value
             )[3]
-        self._d = value
-        self._recalc()
+        _update_model(self, _d=value)
 
     @SamplingPeriod.setter
     def SamplingPeriod(self, value):
-- 
2.43.0


From 64f6e6570a234706498d38ed5b21894dc6e2d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:58 +0000
Subject: [PATCH 02/12] fix: keep stability and gain flags current after
 attribute assignments

---
 harold/_classes.py | 58 ++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index b8c5160..51b5331 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -277,18 +277,21 @@ class Transfer:
                                  'scalar. But looks like a \"{0}\" is '
                                  'given.'.format(type(value).__name__))
 
-            self._dt = value
-            self._rz = 'Z'
-            self._isdiscrete = True
+            data = {'_dt': value, '_rz': 'Z', '_isdiscrete': True}
         else:
-            self._rz = 'R'
-            self._dt = None
-            self._isdiscrete = False
+            data = {'_dt': None, '_rz': 'R', '_isdiscrete': False}
+
+        # Constructor does the first computation of the poles etc. itself
+        if hasattr(self, 'poles'):
+            _update_model(self, **data)
+        else:
+            self.__dict__.update(data)
 
     @num.setter
     def num(self, value):
 
-        user_num, _, user_shape = self.validate_arguments(value, self._den)[:3]
+        user_num, _, user_shape, isgain = self.validate_arguments(value,
+                                                                  self._den)
 
         if not user_shape == self._shape:
             raise IndexError('Once created, the shape of the transfer '
@@ -297,12 +300,13 @@ class Transfer:
                              'the system has {2}x{3}.'
                              ''.format(*user_shape+self._shape))
         else:
-            _update_model(self, _num=user_num)
+            _update_model(self, _num=user_num, _isgain=isgain)
 
     @den.setter
     def den(self, value):
 
-        user_den, user_shape = self.validate_arguments(self._num, value)[1:3]
+        _, user_den, user_shape, isgain = self.validate_arguments(self._num,
+                                                                  value)
 
         if not user_shape == self._shape:
             raise IndexError('Once created, the shape of the transfer '
@@ -311,7 +315,7 @@ class Transfer:
                              'the system has {2}x{3}.'
                              ''.format(*user_shape+self._shape))
         else:
-            _update_model(self, _den=user_den)
+            _update_model(self, _den=user_den, _isgain=isgain)
 
     @DiscretizedWith.setter
     def DiscretizedWith(self, value):
@@ -1847,12 +1851,20 @@ class State:
 
     @d.setter
     def d(self, value):
-        value = self.validate_arguments(
-            np.zeros_like(self._a),
-            np.zeros_like(self._b),
-            np.zeros_like(self._c),
-            value
-            )[3]
+        if self._isgain:
+            *_, value, shape, _ = self.validate_arguments(None, None, None,
+                                                          value)
+            if shape != self._shape:
+                raise ValueError('Once created, the shape of the static gain '
+                                 'cannot be changed. I need the shape {0} '
+                                 'but got {1}.'.format(self._shape, shape))
+        else:
+            value = self.validate_arguments(
+                np.zeros_like(self._a),
+                np.zeros_like(self._b),
+                np.zeros_like(self._c),
+                value
+                )[3]
         _update_model(self, _d=value)
 
     @SamplingPeriod.setter
@@ -1864,13 +1876,15 @@ class State:
                                  'scalar. But looks like a \"{0}\" is '
                                  'given.'.format(type(value).__name__))
 
-            self._dt = value
-            self._rz = 'Z'
-            self._isdiscrete = True
+            data = {'_dt': value, '_rz': 'Z', '_isdiscrete': True}
+        else:
+            data = {'_dt': None, '_rz': 'R', '_isdiscrete': False}
+
+        # Constructor does the first computation of the poles etc. itself
+        if hasattr(self, 'poles'):
+            _update_model(self, **data)
         else:
-            self._rz = 'R'
-            self._dt = None
-            self._isdiscrete = False
+            self.__dict__.update(data)
 
     @DiscretizedWith.setter
     def DiscretizedWith(self, value):
-- 
2.43.0


From 647e49e3831c37452fe18a2886d8cebc8e3ed886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:25 +0000
Subject: [PATCH 03/12] fix: leave Lyapunov matrices and plot keyword
 dictionaries of the caller alone

---
 harold/_frequency_domain_plots.py | 6 ++----
 harold/_solvers.py                | 2 +-
 harold/_time_domain_plots.py      | 6 ++----
 3 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index c20b795..903ea52 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -153,8 +153,7 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
@@ -312,8 +311,7 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
diff --git a/harold/_solvers.py b/harold/_solvers.py
index bcdf78e..ac635e9 100644
--- a/harold/_solvers.py
+++ b/harold/_solvers.py
@@ -349,7 +349,7 @@ def _solve_discrete_generalized_lyapunov(A, E, Y, tol=1e-12):
     if A.shape[0] < 3:
         return mini_sylvester(A, E, Y)
 
-    As, Es, Q, Z = qz(A, E, overwrite_a=True, overwrite_b=True)
+    As, Es, Q, Z = qz(A, E)
     Ys = Z.T @ Y @ Z
     n = As.shape[0]
     # If there are nontrivial entries on the subdiagonal, we have a 2x2 block.
diff --git a/harold/_time_domain_plots.py b/harold/_time_domain_plots.py
index f057bc9..506c4e7 100644
--- a/harold/_time_domain_plots.py
+++ b/harold/_time_domain_plots.py
@@ -70,8 +70,7 @@ def step_response_plot(sys, t=None, style=None, **kwargs):
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
@@ -164,8 +163,7 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
-- 
2.43.0


From 30083a9ea9e558692504cafdb86c6d3ed911b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:58 +0000
Subject: [PATCH 04/12] fix: do not share arrays between models and their
 callers

---
 harold/_classes.py      | 17 +++++++++--------
 harold/_kalman_ops.py   |  2 +-
 harold/_system_funcs.py |  2 +-
 harold/_time_domain.py  |  2 +-
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 51b5331..63f4515 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -333,7 +333,7 @@ class Transfer:
     @DiscretizationMatrix.setter
     def DiscretizationMatrix(self, value):
         if self._DiscretizedWith == 'lft':
-            value = np.atleast_2d(np.asarray(value, dtype=float))
+            value = np.array(value, dtype=float, ndmin=2)
             if value.ndim > 2 or value.shape != (2, 2):
                 raise ValueError('The interconnection array needs to be a'
                                  ' 2x2 real-valued array.')
@@ -991,9 +991,9 @@ class Transfer:
         rc = np.arange(self.NumberOfOutputs)[rows_of_c].tolist()
         cb = np.arange(self.NumberOfInputs)[cols_of_b].tolist()
 
-        # if a SISO is sliced only [0,0] will pass, then return self
+        # if a SISO is sliced only [0,0] will pass, then return a copy
         if self._isSISO:
-            return self
+            return deepcopy(self)
 
         # Is the result goint to be SISO ?
         if isinstance(rc, int) and isinstance(cb, int):
@@ -1317,7 +1317,8 @@ class Transfer:
                     MIMO_flags[numden_index] = True
                     Gain_flags[numden_index] = True
                 else:
-                    returned_numden_list[numden_index] = np.atleast_2d(numden)
+                    returned_numden_list[numden_index] = np.array(numden,
+                                                                  ndmin=2)
 
             # OK, finally check whether and int or float is given
             # as an entry of a SISO Transfer.
@@ -2572,7 +2573,7 @@ class State:
         a regular 2D-ndarray.
         '''
         if self._isgain:
-            return self._d
+            return self._d.copy()
         else:
             raise ValueError('Only static gain models can be converted to '
                              'ndarrays.')
@@ -2846,7 +2847,7 @@ def state_to_transfer(state_or_abcd, output='system'):
 
     if it_is_gain:
         if output == 'p':
-            return D, np.ones_like(D)
+            return D.copy(), np.ones_like(D)
         return Transfer(D, dt=dt)
 
     n = A.shape[0]
@@ -2964,7 +2965,7 @@ def transfer_to_state(G, output='system'):
         num, den, (p, m), it_is_gain = Transfer.validate_arguments(num, den)
         dt = None
     elif isinstance(G, State):
-        return G.matrices if output == 'matrices' else G
+        return deepcopy(G.matrices) if output == 'matrices' else G
     elif isinstance(G, Transfer):
         G = deepcopy(G)
         num = G.num
@@ -3540,6 +3541,6 @@ def concatenate_state_matrices(G):
                          'representations, but I found \"{0}\" object '
                          'instead.'.format(type(G).__name__))
     if G._isgain:
-        return G.d
+        return G.d.copy()
 
     return np.block([[G.a, G.b], [G.c, G.d]])
diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index e2d86a8..19f44cb 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -185,7 +185,7 @@ def kalman_decomposition(G, compute_T=False, output='system',
     # If a static gain, then skip and return the argument
     if G._isgain:
         if output == 'matrices':
-            return G.matrices
+            return tuple(x.copy() for x in G.matrices)
 
         return G
 
diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 6890e09..c24b3d6 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -539,7 +539,7 @@ def dcgain(self):
     Returns the low-frequency gain of the Transfer model.
     """
     if self._isgain:
-        return self.d
+        return self.d.copy()
 
     # First try if A is not singular
     try:
diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 7901fe6..06f7694 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -445,7 +445,7 @@ def _check_u_and_t_for_simulation(m, dt, u, t, isdiscrete):
             u_samples = len(u)
             t = np.linspace(0, (u_samples-1)*dt, num=u_samples)
     else:
-        t = np.asarray(t, dtype=float).squeeze()
+        t = np.array(t, dtype=float).squeeze()
         if t.ndim != 1:
             raise ValueError('Time array needs to be a 1D array.')
         t_diff = np.diff(t)
-- 
2.43.0


From 8aa698f814955f47194dcbc20326778a5e424a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:18 +0000
Subject: [PATCH 05/12] fix: keep the warning filters intact when several
 threads use the library

---
 harold/_arg_utils.py      | 25 +++++++++++++++++++++++++
 harold/_classes.py        |  3 ++-
 harold/_discrete_funcs.py |  8 ++++----
 harold/_system_funcs.py   |  6 +++---
 4 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/harold/_arg_utils.py b/harold/_arg_utils.py
index 4cfc682..70fe426 100644
--- a/harold/_arg_utils.py
+++ b/harold/_arg_utils.py
@@ -1,9 +1,34 @@
+from threading import RLock
+from warnings import catch_warnings
 import numpy as np
 from numpy import iscomplexobj, ndarray, asarray
 from scipy.linalg import LinAlgWarning as _rcond_warn
 
 __all__ = []
 
+_warnings_lock = RLock()
+
+
+class _catch_warnings(catch_warnings):
+    """
+    The warning filters are shared by all threads and catch_warnings() puts
+    back what it has found. Hence only one thread is allowed to work on them
+    at a time, otherwise the modified ones might be left behind.
+    """
+    def __enter__(self):
+        _warnings_lock.acquire()
+        try:
+            return super().__enter__()
+        except BaseException:
+            _warnings_lock.release()
+            raise
+
+    def __exit__(self, *exc_info):
+        try:
+            super().__exit__(*exc_info)
+        finally:
+            _warnings_lock.release()
+
 
 # These checks, purposefully, do not import State or Transfer objects to
 # avoid cyclical imports happening everywhere in the library.
diff --git a/harold/_classes.py b/harold/_classes.py
index 63f4515..685a799 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -12,6 +12,7 @@ from itertools import zip_longest, chain
 
 from ._polynomial_ops import (haroldpoly, haroldpolyadd, haroldpolydiv,
                               haroldpolymul, haroldcompanion, haroldlcm)
+from ._arg_utils import _catch_warnings
 from ._array_validators import _assert_square
 from ._aux_linalg import haroldsvd
 from ._global_constants import _KnownDiscretizationMethods
@@ -3230,7 +3231,7 @@ def transmission_zeros(A, B, C, D):
     *_, v = haroldsvd(np.hstack((Drc, Crc)))
     v = np.roll(np.roll(v.T, -m, axis=0), -m, axis=1)
     T = np.hstack((Arc, Brc)) @ v
-    with warnings.catch_warnings():
+    with _catch_warnings():
         warnings.simplefilter("ignore")
         a, b, *_ = qz(v[:n, :n], T[:n, :n], output='complex')
     # Handle zeros at infinity
diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 33fe0ce..f7089fb 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -26,11 +26,11 @@ from numpy import block, zeros, eye
 from numpy.linalg import LinAlgError
 from scipy.linalg import (expm, logm, block_diag, matrix_balance, eigvals,
                           norm, solve)
-from warnings import warn, simplefilter, catch_warnings
+from warnings import warn, simplefilter
 from ._classes import Transfer, State, transfer_to_state, state_to_transfer
 from ._global_constants import _KnownDiscretizationMethods as KDM
 from ._arg_utils import _check_for_state_or_transfer
-from ._arg_utils import _rcond_warn
+from ._arg_utils import _catch_warnings, _rcond_warn
 
 __all__ = ['discretize', 'undiscretize']
 
@@ -373,7 +373,7 @@ def _undiscretize(T, dt, method, prewarp_at, q):
     elif method in ('backward euler', 'backward difference',
                     'backward rectangular', '<<'):
         # nonproper via lft, compute explicitly.
-        with catch_warnings(record=True) as war:
+        with _catch_warnings(record=True) as war:
             simplefilter("always")
             try:
                 iAd = solve(T.a, eye(n))
@@ -466,7 +466,7 @@ def _simple_lft_connect(q, A, B, C, D):
     if q22 == 0.:
         NAinv = ij
     else:
-        with catch_warnings(record=True) as war:
+        with _catch_warnings(record=True) as war:
             simplefilter('always')
             try:
                 NAinv = solve(ij - q22*A, eye(n))
diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index c24b3d6..6053991 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -8,7 +8,7 @@ from scipy.linalg import (solve, svdvals, qr, block_diag,
                           hessenberg, matrix_balance, LinAlgError)
 from ._aux_linalg import haroldsvd, matrix_slice, e_i
 from ._classes import State, Transfer, transfer_to_state
-from ._arg_utils import _check_for_state_or_transfer
+from ._arg_utils import _catch_warnings, _check_for_state_or_transfer
 
 
 __all__ = ['staircase', 'cancellation_distance', 'minimal_realization',
@@ -544,7 +544,7 @@ def dcgain(self):
     # First try if A is not singular
     try:
 
-        with warnings.catch_warnings():
+        with _catch_warnings():
             warnings.simplefilter("ignore")
             aa, bb, cc = _minimal_realization_state(self.a, self.b, self.c)
             R = cc @ solve(np.eye(aa.shape[0]) - aa if self._dt else -aa, bb)
@@ -567,7 +567,7 @@ def dcgain(self):
                     # -(zI - A) at z=1
                     aa -= np.eye(aa.shape[0])
                 try:
-                    with warnings.catch_warnings():
+                    with _catch_warnings():
                         warnings.simplefilter("ignore")
                         val = cc @ solve(-aa, bb)
                         if abs(val) > 1/np.spacing(1.):
-- 
2.43.0


From 0a6a551561ba1f4597d552e99c72afbc5ef7c8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:37 +0000
Subject: [PATCH 06/12] fix: minimal realization of gains and of fully
 removable models, and bounds on the distance to cancellation

Gains lose their sampling period and 1 x m or p x 1 Transfer gains are refused.
Removing every state runs into empty arrays. The observable part is checked
with the controllability test, and the observer form of the staircase has B
and C swapped when the output matrix has full column rank. The lower bound of
the cancellation distance uses an eigenvalue which is not the closest one.
---
 harold/_system_funcs.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 6053991..7816e35 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -96,7 +96,7 @@ def staircase(A, B, C, compute_T=False, form='c', invert=False,
         if invert:
             A0, B0, C0 = fliplr(flipud(A0)), flipud(B0), fliplr(C0)
             T = flipud(T)
-        return (A0, B0, C0, T.T) if form == 'c' else (A0.T, B0.T, C0.T, T.T)
+        return (A0, B0, C0, T.T) if form == 'c' else (A0.T, C0.T, B0.T, T.T)
 
     next_, size_ = -m, m
     tol_from_A = n*norm(A, 1)*np.spacing(1.)
@@ -288,7 +288,8 @@ def cancellation_distance(F, G):
     e_f = evals[f]
     upper1 = upp0[f]
     upper2 = svdvals(A - e_f*B)[-1]
-    lower0 = upper2/(K+1)
+    # The eigenvalue with the smallest upp0 need not be the one closest to p
+    lower0 = min(svdvals(A - x*B)[-1] for x in evals)/(K+1)
     radius = upper2*K
 
     return upper2, upper1, lower0, e_f, radius
@@ -335,7 +336,7 @@ def minimal_realization(G, tol=1e-6):
 
     if type(G).__name__ == 'State':
         if G._isgain:
-            return State(G.to_array())
+            return State(G.to_array(), dt=G.SamplingPeriod)
         else:
             A, B, C, D = G.matrices
             Am, Bm, Cm = _minimal_realization_state(A, B, C, tol=tol)
@@ -345,7 +346,8 @@ def minimal_realization(G, tol=1e-6):
                 return State(D, dt=G.SamplingPeriod)
     else:
         if G._isgain:
-            return Transfer(G.to_array())
+            num = [[[x] for x in row] for row in G.to_array().tolist()]
+            return Transfer(num, dt=G.SamplingPeriod)
         else:
             num, den = G.polynomials
             numm, denm = _minimal_realization_transfer(num, den, tol=tol)
@@ -402,6 +404,8 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
             A, B, C = Ac, Bc, Cc
             # Same with the o'ble modes, but now kc might have removed
             # unobservable mode already so get the distance again
+            if A.size == 0:
+                return A, B, C
             ko, *_ = cancellation_distance(A.T, C.T)
 
         # Still unobservables ?
@@ -413,7 +417,7 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
                     A, B, C = [array([], dtype=float)]*3
                     break
                 else:
-                    ko, *_ = cancellation_distance(Ao, Bo)
+                    ko, *_ = cancellation_distance(Ao.T, Co.T)
 
             # Return the resulting matrices
             A, B, C = Ao, Bo, Co
-- 
2.43.0


From c543f351df17f0e3d92061e477a783daa1e82993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:45 +0000
Subject: [PATCH 07/12] fix: reduce the model before its Hessenberg form is
 used for the frequency response

The reduced model is in general not in the form the evaluation relies on, and
it can be empty.
---
 harold/_frequency_domain.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index 3b623f0..37ae701 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -73,15 +73,17 @@ def frequency_response(G, w=None, samples=None, w_unit='Hz', output_unit='Hz',
 
         if type(G).__name__ == 'State':
             for row in range(p):
-                aa, bb, cc = hessenberg_realization((G.a, G.b, G.c[[row], :]),
+                aa, bb, cc = G.a, G.b, G.c[[row], :]
+                if use_minreal:
+                    aa, bb, cc = _minimal_realization_state(aa, bb, cc)
+                    if aa.size == 0:
+                        fr_arr[:, :, row] = 0.
+                        continue
+                aa, bb, cc = hessenberg_realization((aa, bb, cc),
                                                     form='o', invert=True,
                                                     output='matrices')
-                if use_minreal:
-                    aaa, bbb, ccc = _minimal_realization_state(aa, bb, cc)
-                else:
-                    aaa, bbb, ccc = aa, bb, cc
                 dt = G.SamplingPeriod if G.SamplingSet == 'Z' else None
-                fr_arr[:, :, row] = _State_freq_resp(aaa, bbb, ccc[0, -1],
+                fr_arr[:, :, row] = _State_freq_resp(aa, bb, cc[0, -1],
                                                      w, dt)
 
             if np.any(G.d):
-- 
2.43.0


From f9668ee2cc2da9909eae9dee16d5af7e0a98aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:45 +0000
Subject: [PATCH 08/12] fix: DC gain of MIMO models with integrators in some
 channels

Nearly singular arrays contaminate the finite entries, and a numerical routine
that fails during the reduction is mistaken for an integrator.
---
 harold/_system_funcs.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 7816e35..8bd9a62 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -545,14 +545,23 @@ def dcgain(self):
     if self._isgain:
         return self.d.copy()
 
+    with _catch_warnings():
+        warnings.simplefilter("ignore")
+        aa, bb, cc = _minimal_realization_state(self.a, self.b, self.c)
+
+    aa = np.eye(aa.shape[0]) - aa if self._dt else -aa
+    # An almost singular array spoils the finite entries of MIMO models
+    sv = svdvals(aa) if aa.size and not self._isSISO else np.ones(1)
+
     # First try if A is not singular
     try:
+        if sv[-1] < 1e-12*max(1., sv[0]):
+            raise LinAlgError
 
         with _catch_warnings():
             warnings.simplefilter("ignore")
-            aa, bb, cc = _minimal_realization_state(self.a, self.b, self.c)
-            R = cc @ solve(np.eye(aa.shape[0]) - aa if self._dt else -aa, bb)
-            R[R > 1/np.spacing(1.)] = np.inf
+            R = cc @ solve(aa, bb)
+            R[np.abs(R) > 1/np.spacing(1.)] = np.inf
             return R + self.d
 
     except LinAlgError:
-- 
2.43.0


From 7f40808db5115e6d31a41b1400dc4cafc2b07f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:45 +0000
Subject: [PATCH 09/12] fix: rank decision of the staircase form is too close
 to rounding errors

Rounding errors of a model that is already the result of a reduction exceed
the tolerance, hence uncontrollable modes are not separated but a state is
still removed.
---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 8bd9a62..c740d00 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -99,7 +99,7 @@ def staircase(A, B, C, compute_T=False, form='c', invert=False,
         return (A0, B0, C0, T.T) if form == 'c' else (A0.T, C0.T, B0.T, T.T)
 
     next_, size_ = -m, m
-    tol_from_A = n*norm(A, 1)*np.spacing(1.)
+    tol_from_A = 100*n*norm(A, 1)*np.spacing(1.)
 
     for _ in range(A0.shape[0]):
         next_, size_ = next_ + size_, m
-- 
2.43.0


From 86656b0625cb305e03ba78be4584b3f214f4bb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:50 +0000
Subject: [PATCH 10/12] fix: phase of zero channels in Bode plots came from
 uninitialised memory

---
 harold/_frequency_domain_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 903ea52..85d0d64 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -197,7 +197,7 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
 
         # Mask NaN values if any
         if np.isnan(fre).any():
-            pha = np.empty_like(fre, dtype=float)
+            pha = np.full_like(fre, np.nan, dtype=float)
             pha[~np.isnan(fre)] = np.unwrap(np.angle(fre[~np.isnan(fre)]))
         else:
             pha = np.unwrap(np.angle(fre))
-- 
2.43.0


From 26babdc18b7f908d829b0375c562c7f6c36cb1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:15 +0000
Subject: [PATCH 11/12] fix: random models with unstable complex pairs, single
 states and integrator-only specifications

---
 harold/_classes.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 685a799..22d6917 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3462,9 +3462,6 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
     # Static model
     if n == 0:
         return State(rand(p, m), dt=dt)
-    elif n == 1:
-        a, b, c, d = rand(1), rand(1, m), rand(p, 1), rand(p, m)
-        return State(-a, b, c, d, dt=dt)
 
     # Get random pole types
     choose_from = [0, 1] if stable else [0, 1, 2, 3]
@@ -3484,7 +3481,7 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
         elif p_type == 1:
             if diag_i >= n-1:
                 break
-            ps = choice([1, -1], 1)
+            ps = choice([1, -1])
             pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
             pi = exp(exp(rand()))
             a[[diag_i, diag_i, diag_i+1, diag_i+1],
@@ -3507,8 +3504,9 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
         if diag_i == n:
             break
 
-    # Complex didn't fit, fill the remaining
-    if diag_i == n-1:
+    # Complex didn't fit, fill the remaining. If only integrators fit there
+    # then leave it at zero.
+    if diag_i == n-1 and (stable or pdist[0] > 0. or pdist[2] == 0.):
         ps = choice([1, -1], 1)
         pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
         a[diag_i, diag_i] = pr
@@ -3517,8 +3515,9 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
     if dt is not None:
         a = expm(a*dt)
     # Perform a random similarity transformation to shuffle the data
-    T = ortho_group.rvs(n)
-    a = solve(T, a) @ T
+    if n > 1:
+        T = ortho_group.rvs(n)
+        a = solve(T, a) @ T
 
     return State(a, rand(n, m), rand(p, n), rand(p, m), dt=dt)
 
-- 
2.43.0


From b237f79106902155b305c9607e5b94838b4b9a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:53 +0000
Subject: [PATCH 12/12] fix: minimal_realization removes the mode that the
 distance found

If the cancellation distance reports a mode that the staircase form does
not show, the last state was dropped although it was not related to that
mode.  The mode is now rotated to the end first.
---
 harold/_system_funcs.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index c740d00..2cc7321 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -4,7 +4,7 @@ import numpy as np
 from numpy.linalg import cond, eig, norm
 from numpy import array, flipud, fliplr, eye, zeros
 from numpy.random import rand
-from scipy.linalg import (solve, svdvals, qr, block_diag,
+from scipy.linalg import (solve, svd, svdvals, qr, block_diag,
                           hessenberg, matrix_balance, LinAlgError)
 from ._aux_linalg import haroldsvd, matrix_slice, e_i
 from ._classes import State, Transfer, transfer_to_state
@@ -394,6 +394,7 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
             # Observability form removes from top left
             # controllability form removes from bottom right
             while kc <= tol:
+                Ac, Bc, Cc = _move_mode_last(Ac, Bc, Cc, tol)
                 Ac, Bc, Cc = (Ac[:-1, :-1], Bc[:-1, :], Cc[:, :-1])
                 if Ac.size == 0:
                     A, B, C = [array([], dtype=float)]*3
@@ -412,6 +413,10 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
         if ko <= tol:
             Ao, Bo, Co, To = staircase(A, B, C, form='o', invert=True)
             while ko <= tol:  # Until cancel dist gets big
+                # The same on the transposed data with the states reversed
+                Ao, Co, Bo = _move_mode_last(Ao[::-1, ::-1].T, Co[:, ::-1].T,
+                                             Bo[::-1, :].T, tol)
+                Ao, Bo, Co = Ao.T[::-1, ::-1], Bo.T[::-1, :], Co.T[:, ::-1]
                 Ao, Bo, Co = Ao[1:, 1:], Bo[1:, :], Co[:, 1:]
                 if Ao.size == 0:
                     A, B, C = [array([], dtype=float)]*3
@@ -425,6 +430,24 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
     return A, B, C
 
 
+def _move_mode_last(A, B, C, tol):
+    '''
+    Rotates the states such that the (nearly) uncontrollable mode is in the
+    last one(s). If the trailing states are already decoupled, as is the case
+    in the staircase form, the data is returned as is.
+    '''
+    n = A.shape[0]
+    for k in range(n):
+        if norm(np.c_[A[k:, :k], B[k:, :]]) <= tol:
+            return A, B, C
+
+    *_, mode, _ = cancellation_distance(A, B)
+    u = svd(np.c_[A - mode*eye(n), B])[0][:, -1]
+    # Complex modes are removed together with their conjugates
+    q = svd(np.c_[u.real, u.imag])[0][:, ::-1]
+    return q.T @ A @ q, q.T @ B, C @ q
+
+
 def _minimal_realization_transfer(num, den, tol=1e-6):
     '''
     A helper function for obtaining a minimal representation of the
-- 
2.43.0

