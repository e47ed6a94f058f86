From 448fc3e2dda96179281d0384a61b451c57524da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:58 +0000
Subject: [PATCH 01/24] fix: do not alter the process-wide CVXOPT settings when
 solving

The cvxpy_tdr modeler used to write its options into cvxopt.solvers.options
and to change cvxopt.spmatrix_str. Concurrent designs could then run with
each other's options, and the caller's own CVXOPT settings were lost.
---
 src/pydsm/cvxpy_tdr/procedures/call_solver.py | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/call_solver.py b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
index 308e66c..975f706 100644
--- a/src/pydsm/cvxpy_tdr/procedures/call_solver.py
+++ b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
@@ -36,9 +36,6 @@ def call_solver(p,quiet):
     :param quiet: Boolean.
     """
 
-    # Set printing format for cvxopt sparse matrices
-    opt.spmatrix_str = opt.printing.spmatrix_str_triplet
-
     # Expand objects defined via partial minimization
     constr_list = cvxpy_list(pm_expand(p.constraints))
 
@@ -68,16 +65,19 @@ def call_solver(p,quiet):
     F = construct_F(constr_list._get_ineq_in(),var_to_index,n)
 
     # Call cvxopt
-    solvers.options['maxiters'] = p.options['maxiters']
-    solvers.options['abstol'] = p.options['abstol']
-    solvers.options['reltol'] = p.options['reltol']
-    solvers.options['feastol'] = p.options['feastol']
-    solvers.options['show_progress'] = not quiet
+    # (options are passed explicitly: those in the solvers module are shared
+    # by the whole process and must be left alone)
+    options = dict(solvers.options)
+    options['maxiters'] = p.options['maxiters']
+    options['abstol'] = p.options['abstol']
+    options['reltol'] = p.options['reltol']
+    options['feastol'] = p.options['feastol']
+    options['show_progress'] = not quiet
     dims = {'l':dim_l, 'q':dim_q, 's':dim_s}
     if F is None:
-        r =  solvers.conelp(c,G,h,dims,A,b)
+        r =  solvers.conelp(c,G,h,dims,A,b,options=options)
     else:
-        r =  solvers.cpl(c,F,G,h,dims,A,b)
+        r =  solvers.cpl(c,F,G,h,dims,A,b,options=options)
 
     # Store numerical values
     if r['status'] != PRIMAL_INFEASIBLE:
-- 
2.43.0


From 37b324f3063d472cec2cd3a6b3109437f5937139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:58 +0000
Subject: [PATCH 02/24] fix: restore NumPy error handling even if
 guess_ir_length is interrupted

---
 src/pydsm/ir.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/ir.py b/src/pydsm/ir.py
index baf314f..6522662 100644
--- a/src/pydsm/ir.py
+++ b/src/pydsm/ir.py
@@ -131,9 +131,8 @@ def guess_ir_length(h, db=80):
         # one to the other or overlapping.
         # Furthermore, this code should not be called if there is
         # a pole in z=1.
-        os = np.seterr(divide='ignore')
-        sr = np.log(np.abs(pp))
-        np.seterr(**os)
+        with np.errstate(divide='ignore'):
+            sr = np.log(np.abs(pp))
         # Take slowlest pole
         wmin = np.min(np.abs(sr))
         # 1/omega min is time constant in sample periods.
-- 
2.43.0


From dcd345a7c613b1878b3a5d2691e579d0c15431dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:58 +0000
Subject: [PATCH 03/24] fix: return copies of the ISO 226 tables

Without high frequency enhancement the module data was returned, so that
a caller working in place on it corrupted all the following results.
---
 src/pydsm/iso226.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/iso226.py b/src/pydsm/iso226.py
index cc47a65..de39019 100644
--- a/src/pydsm/iso226.py
+++ b/src/pydsm/iso226.py
@@ -129,7 +129,7 @@ def tabled_f(hfe=False):
     f : array of floats
         the frequency table.
     """
-    return np.append(tbl_f, 20E3) if hfe else tbl_f
+    return np.append(tbl_f, 20E3) if hfe else tbl_f.copy()
 
 
 def tabled_alpha_f(hfe=False):
@@ -146,7 +146,8 @@ def tabled_alpha_f(hfe=False):
     alpha_f : array of floats
         the exponents table.
     """
-    return np.append(tbl_alpha_f, tbl_alpha_f[0]) if hfe else tbl_alpha_f
+    return np.append(tbl_alpha_f, tbl_alpha_f[0]) if hfe else \
+        tbl_alpha_f.copy()
 
 
 def tabled_L_U(hfe=False):
@@ -168,7 +169,7 @@ def tabled_L_U(hfe=False):
     The returned values are the magnitude of the linear transfer function
     normalized at 1 kHz.
     """
-    return np.append(tbl_L_U, tbl_L_U[0]) if hfe else tbl_L_U
+    return np.append(tbl_L_U, tbl_L_U[0]) if hfe else tbl_L_U.copy()
 
 
 def tabled_T_f(hfe=False):
@@ -185,7 +186,7 @@ def tabled_T_f(hfe=False):
     T_f : array of floats
         the thresholds table.
     """
-    return np.append(tbl_T_f, tbl_T_f[0]) if hfe else tbl_T_f
+    return np.append(tbl_T_f, tbl_T_f[0]) if hfe else tbl_T_f.copy()
 
 
 # Check that it works fine when L_N is array
-- 
2.43.0


From e431a18fa5d55535bde1c4d1160c61a534045d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:36 +0000
Subject: [PATCH 04/24] fix: honour the default_options of ntf_hybrid_weighting
 and idtft_hermitian

Both functions were reading some of their defaults from another function,
so that setting their own default_options had no effect. The scs defaults
of ntf_hybrid_weighting are set to the values that were actually in use.
---
 .../NTFdesign/weighting/_fir_weighting.py      | 18 ++++++++++--------
 src/pydsm/ft.py                                |  3 ++-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index 700986b..c4c5de7 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -573,17 +573,17 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
                 'picos_opts': {}}
     if opts2['modeler'] == 'cvxpy':
         opts2.update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxpy_opts'], False))
         if opts2['cvxpy_opts']['solver'] == 'cvxopt':
             dig_opts['cvxpy_opts'].update(digested_options(
-                options, ntf_fir_from_q0.default_options,
+                options, ntf_hybrid_weighting.default_options,
                 [], ['cvxopt_opts'], False)['cvxopt_opts'])
             if opts2['cvxpy_opts'].get('override_kktsolver', True):
                 dig_opts['cvxpy_opts']['kktsolver'] = 'chol'
         elif opts2['cvxpy_opts']['solver'] == 'scs':
             dig_opts['cvxpy_opts'].update(digested_options(
-                options, ntf_fir_from_q0.default_options,
+                options, ntf_hybrid_weighting.default_options,
                 [], ['scs_opts'], False)['scs_opts'])
         opts2['cvxpy_opts'].pop('override_kktsolver')
         dig_opts['cvxpy_opts'].update(opts2['cvxpy_opts'])
@@ -591,13 +591,13 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
             ntf_fir_from_digested as _ntf_fir_from_digested)
     elif opts2['modeler'] == 'cvxpy_old':
         dig_opts['cvxpy_tdr_opts'].update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxopt_opts'], False)['cvxopt_opts'])
         from ._fir_weighting_cvxpy_tdr import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
     elif opts2['modeler'] == 'picos':
         dig_opts['picos_opts'].update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxopt_opts'], False)['cvxopt_opts'])
         from ._fir_weighting_picos import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
@@ -641,11 +641,13 @@ ntf_hybrid_weighting.default_options = {"modeler": "cvxpy_old",
                                                         'abstol': 1e-7,
                                                         'reltol': 1e-6,
                                                         'feastol': 1e-6},
-                                        'scs_opts': {'max_iters': 2500,
-                                                     'eps': 1e-3,
+                                        'scs_opts': {'max_iters': 250000,
+                                                     'eps': 1e-10,
                                                      'alpha': 1.8,
                                                      'normalize': True,
-                                                     'use_indirect': False},
+                                                     'use_indirect': False,
+                                                     'acceleration_lookback':
+                                                     0},
                                         'show_progress': True,
                                         'fix_pos': True}
 ntf_hybrid_weighting.default_options.update(q0_weighting.default_options)
diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 23a6f08..4cf5bf5 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -239,7 +239,8 @@ def idtft_hermitian(Ff, tt, fs=1, **options):
         For the meaning of the integrator parameters.
     """
     # Manage optional parameters
-    opts = digested_options(options, idtft.default_options, [], ['quad_opts'])
+    opts = digested_options(options, idtft_hermitian.default_options,
+                            [], ['quad_opts'])
     # Do the computation
     if np.isscalar(tt):
         return _idtft_hermitian(Ff, tt, fs, **opts['quad_opts'])
-- 
2.43.0


From 90873dd9e162ad237033f65aa8d2d8d16aedb52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:38 +0000
Subject: [PATCH 05/24] fix: do not share nested default options among
 functions

The default_options of some functions were shallow copies of those of other
functions, so that updating a nested option (e.g. in quad_opts) for one of
them silently changed the others too.
---
 src/pydsm/NTFdesign/filter_based.py             | 9 +++++----
 src/pydsm/NTFdesign/psychoacoustic.py           | 3 ++-
 src/pydsm/NTFdesign/weighting/_fir_weighting.py | 9 ++++++---
 src/pydsm/ft.py                                 | 3 ++-
 4 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/pydsm/NTFdesign/filter_based.py b/src/pydsm/NTFdesign/filter_based.py
index 11a969c..94e57b6 100644
--- a/src/pydsm/NTFdesign/filter_based.py
+++ b/src/pydsm/NTFdesign/filter_based.py
@@ -47,6 +47,7 @@ Deprecated functions
 
 from __future__ import division, print_function
 
+from copy import deepcopy
 from .merit_factors import quantization_noise_gain as _quantization_noise_gain
 from .legacy import (quantization_noise_gain_by_conv as
                      _quantization_noise_gain_by_conv,
@@ -131,7 +132,7 @@ def quantization_noise_gain(NTF, H, H_type='zpk', **options):
     return _quantization_noise_gain(NTF, w, **opts)
 
 quantization_noise_gain.default_options = \
-    _quantization_noise_gain.default_options.copy()
+    deepcopy(_quantization_noise_gain.default_options)
 
 
 def quantization_noise_gain_by_conv(NTF, H, H_type='zpk', db=80):
@@ -213,7 +214,7 @@ def q0_from_filter(P, H, H_type='zpk', **options):
         raise ValueError("Incorrect filter type specification")
     return q0
 
-q0_from_filter.default_options = q0_weighting.default_options.copy()
+q0_from_filter.default_options = deepcopy(q0_weighting.default_options)
 
 
 def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
@@ -301,6 +302,6 @@ def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
 
 synthesize_ntf_from_filter.default_options = \
-    q0_from_filter.default_options.copy()
+    deepcopy(q0_from_filter.default_options)
 synthesize_ntf_from_filter.default_options.update(
-    ntf_fir_from_q0.default_options)
+    deepcopy(ntf_fir_from_q0.default_options))
diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 0f4ae5a..1ae8265 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -52,6 +52,7 @@ Deprecated functions
 
 from __future__ import division, print_function
 
+from copy import deepcopy
 import numpy as np
 from .delsig import synthesizeNTF
 from ..delsig import undbp as undbp
@@ -293,7 +294,7 @@ def ntf_fir_audio_weighting(
     return ntf_fir_weighting(order, w, H_inf, normalize, **options)
 
 ntf_fir_audio_weighting.default_options = \
-    ntf_fir_weighting.default_options.copy()
+    deepcopy(ntf_fir_weighting.default_options)
 
 
 # Following part is deprecated
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index c4c5de7..3d943cb 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -35,6 +35,7 @@ The optimization is practiced in two steps:
 
 from __future__ import division, print_function
 
+from copy import deepcopy
 import numpy as np
 from ...ft import idtft_hermitian
 from ...delsig import evalTF, padr
@@ -442,8 +443,9 @@ def ntf_fir_weighting(order, w, H_inf=1.5,
     q0 = q0_weighting(order, w, **opts1)
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
 
-ntf_fir_weighting.default_options = q0_weighting.default_options.copy()
-ntf_fir_weighting.default_options.update(ntf_fir_from_q0.default_options)
+ntf_fir_weighting.default_options = deepcopy(q0_weighting.default_options)
+ntf_fir_weighting.default_options.update(
+    deepcopy(ntf_fir_from_q0.default_options))
 
 
 def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
@@ -650,7 +652,8 @@ ntf_hybrid_weighting.default_options = {"modeler": "cvxpy_old",
                                                      0},
                                         'show_progress': True,
                                         'fix_pos': True}
-ntf_hybrid_weighting.default_options.update(q0_weighting.default_options)
+ntf_hybrid_weighting.default_options.update(
+    deepcopy(q0_weighting.default_options))
 
 
 # Following part is deprecated
diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 4cf5bf5..456b087 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -41,6 +41,7 @@ Functions
 
 from __future__ import division, print_function
 
+from copy import deepcopy
 import numpy as np
 import scipy as sp
 __import__("scipy.fftpack")
@@ -248,4 +249,4 @@ def idtft_hermitian(Ff, tt, fs=1, **options):
         return np.asarray([_idtft_hermitian(Ff, t, fs, **opts['quad_opts'])
                            for t in tt])
 
-idtft_hermitian.default_options = idtft.default_options.copy()
+idtft_hermitian.default_options = deepcopy(idtft.default_options)
-- 
2.43.0


From b293f89ca1aadfe85f7347de025f53a2bb124431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:21 +0000
Subject: [PATCH 06/24] fix: honour the default_options of
 ntf_fir_audio_weighting

The attribute was documented, but never used.
---
 src/pydsm/NTFdesign/psychoacoustic.py         |  7 ++-
 .../NTFdesign/weighting/_fir_weighting.py     | 61 +++++++++++--------
 2 files changed, 42 insertions(+), 26 deletions(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 1ae8265..8363871 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -58,6 +58,7 @@ from .delsig import synthesizeNTF
 from ..delsig import undbp as undbp
 from .. import audio_weightings
 from .weighting import ntf_fir_weighting
+from .weighting._fir_weighting import digested_weighting_options
 from warnings import warn
 from ..exceptions import PyDsmDeprecationWarning
 
@@ -273,6 +274,10 @@ def ntf_fir_audio_weighting(
     For more information on the ``CVXOPT`` optimizer parameters, see
     the corresponding documentation.
     """
+    # Manage optional parameters
+    opts1, opts2 = digested_weighting_options(
+        options, ntf_fir_audio_weighting.default_options)
+    opts1.update(opts2)
     if not callable(audio_weighting):
         if audio_weighting == 'f':
             audio_weighting = audio_weightings.f_weighting
@@ -291,7 +296,7 @@ def ntf_fir_audio_weighting(
         w = audio_weighting(fx) if fx <= audio_band else 0
         return max(w, ma)
 
-    return ntf_fir_weighting(order, w, H_inf, normalize, **options)
+    return ntf_fir_weighting(order, w, H_inf, normalize, **opts1)
 
 ntf_fir_audio_weighting.default_options = \
     deepcopy(ntf_fir_weighting.default_options)
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index 3d943cb..84bf662 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -298,6 +298,40 @@ ntf_fir_from_q0.default_options = {"modeler": "cvxpy_old",
                                    'fix_pos': True}
 
 
+def digested_weighting_options(options, defaults):
+    """
+    Digest the options of ntf_fir_weighting with the given defaults
+
+    Returns two dictionaries. The first one with the options for q0_weighting
+    and the second one with the options for ntf_fir_from_q0.
+    """
+    opts1 = digested_options(options, defaults, [], ['quad_opts'], False)
+    opts2 = digested_options(
+        options, defaults,
+        ['show_progress', 'fix_pos', 'modeler'], [], False)
+    if opts2['modeler'] == 'cvxpy':
+        opts2.update(digested_options(
+            options, defaults,
+            [], ['cvxpy_opts'], False))
+        if opts2['cvxpy_opts']['solver'] == 'cvxopt':
+            opts2.update(digested_options(
+                options, defaults,
+                [], ['cvxopt_opts'], False))
+        elif opts2['cvxpy_opts']['solver'] == 'scs':
+            opts2.update(digested_options(
+                options, defaults,
+                [], ['scs_opts'], False))
+    elif opts2['modeler'] == 'cvxpy_old' or opts2['modeler'] == 'picos':
+        opts2.update(digested_options(
+            options, defaults,
+            [], ['cvxopt_opts'], False))
+    else:
+        raise ValueError('Unsupported modeling backend {}'.format(
+            opts2['modeler']))
+    digested_options(options, {})
+    return opts1, opts2
+
+
 def ntf_fir_weighting(order, w, H_inf=1.5,
                       normalize="auto", **options):
     u"""Synthesize FIR NTF based on a noise weighting function or a filter.
@@ -414,31 +448,8 @@ def ntf_fir_weighting(order, w, H_inf=1.5,
     scipy.integrate.quad : for the meaning of the integrator parameters
     """
     # Manage optional parameters
-    opts1 = digested_options(options, ntf_fir_weighting.default_options,
-                             [], ['quad_opts'], False)
-    opts2 = digested_options(
-        options, ntf_fir_weighting.default_options,
-        ['show_progress', 'fix_pos', 'modeler'], [], False)
-    if opts2['modeler'] == 'cvxpy':
-        opts2.update(digested_options(
-            options, ntf_fir_weighting.default_options,
-            [], ['cvxpy_opts'], False))
-        if opts2['cvxpy_opts']['solver'] == 'cvxopt':
-            opts2.update(digested_options(
-                options, ntf_fir_weighting.default_options,
-                [], ['cvxopt_opts'], False))
-        elif opts2['cvxpy_opts']['solver'] == 'scs':
-            opts2.update(digested_options(
-                options, ntf_fir_weighting.default_options,
-                [], ['scs_opts'], False))
-    elif opts2['modeler'] == 'cvxpy_old' or opts2['modeler'] == 'picos':
-            opts2.update(digested_options(
-                options, ntf_fir_weighting.default_options,
-                [], ['cvxopt_opts'], False))
-    else:
-        raise ValueError('Unsupported modeling backend {}'.format(
-            opts2['modeler']))
-    digested_options(options, {})
+    opts1, opts2 = digested_weighting_options(
+        options, ntf_fir_weighting.default_options)
     # Do the computation
     q0 = q0_weighting(order, w, **opts1)
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
-- 
2.43.0


From f301e11e6d97e7d33f0eef5662933429e18edb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:44 +0000
Subject: [PATCH 07/24] fix: do not silently return NTFs from failed
 optimizations (cvxpy_old)

The outcome of the solver was discarded, so that an infeasibility
certificate or an unconverged iterate could be returned as if it was the
optimal NTF. Raise if there is no solution and warn if it is inaccurate.
---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py      | 9 ++++++++-
 .../NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py      | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
index c20cee3..46a273b 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
@@ -51,7 +51,9 @@
 from __future__ import division, print_function
 
 import numpy as np
+from warnings import warn
 from ... import cvxpy_tdr
+from ...exceptions import PyDsmApproximationWarning
 
 
 def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
@@ -137,5 +139,10 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
         F += [cvxpy_tdr.belongs(-MM, cvxpy_tdr.semidefinite_cone)]
     p = cvxpy_tdr.program(cvxpy_tdr.minimize(cvxpy_tdr.max(gg)), F)
     p.options.update(opts["cvxpy_tdr_opts"])
-    p.solve(quiet)
+    obj, valid = p.solve(quiet, return_status=True)
+    if not np.isfinite(obj):
+        raise RuntimeError('The optimizer found no solution')
+    if not valid:
+        warn('The optimizer stopped before reaching the required accuracy.',
+             PyDsmApproximationWarning)
     return np.hstack((1, np.asarray(c.value)[0, ::-1]))
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
index 58f165e..bb077d3 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
@@ -19,7 +19,9 @@
 # along with PyDSM.  If not, see <https://www.gnu.org/licenses/>.
 
 import numpy as np
+from warnings import warn
 from ... import cvxpy_tdr
+from ...exceptions import PyDsmApproximationWarning
 
 
 def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
@@ -52,5 +54,10 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     p = cvxpy_tdr.program(cvxpy_tdr.minimize(target),
                              [constraint1, constraint2])
     p.options.update(opts["cvxpy_tdr_opts"])
-    p.solve(quiet)
+    obj, valid = p.solve(quiet, return_status=True)
+    if not np.isfinite(obj):
+        raise RuntimeError('The optimizer found no solution')
+    if not valid:
+        warn('The optimizer stopped before reaching the required accuracy.',
+             PyDsmApproximationWarning)
     return np.hstack((1, np.asarray(br.value.T)[0]))
-- 
2.43.0


From 88c68d8b2c80aa1b2c163b55649b89702083298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:44 +0000
Subject: [PATCH 08/24] fix: allow resuming the simulation of first order
 modulators

The state returned by simulateDSM for a first order modulator is a 0-D array
that the compiled backends rejected when given back as x0.
---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 2 +-
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 031d0b0..9790e64 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -102,7 +102,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
             c_x0 = np.zeros((order, 1), dtype=np.float64)
         else:
             c_x0 = np.array(x0, dtype=np.float64, order='C')
-            if c_x0.ndim < 1 or c_x0.ndim > 2:
+            if c_x0.ndim > 2:
                 raise TypeError()
             c_x0=c_x0.reshape(-1, 1)
             if c_x0.shape[0]!=order:
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 405be58..6ca1a94 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -109,7 +109,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
             c_x0 = np.zeros((order, 1), dtype=np.float64)
         else:
             c_x0 = np.array(x0, dtype=np.float64, order='C')
-            if c_x0.ndim < 1 or c_x0.ndim > 2:
+            if c_x0.ndim > 2:
                 raise TypeError()
             c_x0=c_x0.reshape(-1, 1)
             if c_x0.shape[0]!=order:
-- 
2.43.0


From 3efe91d145b6726ddbbd3a193761c6b02da00f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:44 +0000
Subject: [PATCH 09/24] fix: multiple inputs and state storage in the pure
 Python simulateDSM

Column vectors were mixed with 1-D arrays, so that the backend failed with
more than one input or when store_xn was set with more than one state.
---
 src/pydsm/delsig/_simulateDSM_scipy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index e64399f..f53be7e 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -148,14 +148,14 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
 
     for i in range(N):
         # I guess the coefficients in A, B, C, D should be real...
-        y0 = np.real(np.dot(C, x0) + np.dot(D1, u[:, i]))
+        y0 = np.real(np.dot(C, x0) + np.dot(D1, u[:, i:i+1]))
         if store_y:
-            y[:, i] = y0
-        v[:, i] = ds_quantize(y0, nlev)
-        x0 = np.dot(A, x0) + np.dot(B, np.vstack((u[:, i], v[:, i])))
+            y[:, i] = y0[:, 0]
+        v[:, i] = ds_quantize(y0, nlev)[:, 0]
+        x0 = np.dot(A, x0) + np.dot(B, np.vstack((u[:, i:i+1], v[:, i:i+1])))
         if store_xn:
             # Save the next state
-            xn[:, i] = x0
+            xn[:, i] = x0[:, 0]
         if store_xmax:
             # Keep track of the state maxima
             xmax = np.max((np.abs(x0), xmax), 0)
-- 
2.43.0


From 8241b16976611ce94a7d60c67545362961859f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:45 +0000
Subject: [PATCH 10/24] fix: allow multiple quantizers in simulateDSM, as
 documented

---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 2 +-
 src/pydsm/delsig/_simulateDSM_scipy.py       | 2 +-
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 9790e64..1d3c2a3 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -51,7 +51,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
         c_nlev = np.asarray(nlev, dtype=np.int32)
         if c_nlev.ndim > 1:
             raise TypeError()
-        c_nlev=c_nlev.reshape(1)
+        c_nlev=c_nlev.reshape(-1)
     except (ValueError, TypeError):
          raise ValueError(\
             "Invalid argument: nlev must be convertible into a 1D int array")
diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index f53be7e..fd55455 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -73,7 +73,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
          PyDsmSlowPathWarning)
 
     # Make sure that nlev is an array
-    nlev = np.asarray(nlev).reshape(1)
+    nlev = np.asarray(nlev).reshape(-1)
 
     # Make sure that input is a matrix
     u = np.asarray(u)
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 6ca1a94..1a2ded9 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -58,7 +58,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
         c_nlev = np.asarray(nlev, dtype=np.int32)
         if c_nlev.ndim > 1:
             raise TypeError()
-        c_nlev=c_nlev.reshape(1)
+        c_nlev=c_nlev.reshape(-1)
     except (ValueError, TypeError):
          raise ValueError(\
             "Invalid argument: nlev must be convertible into a 1D int array")
-- 
2.43.0


From 6b194d294e5d8f3c30cfe3c6a4904127f61a7559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:45 +0000
Subject: [PATCH 11/24] fix: validate the input in the compiled simulateDSM
 backends

With an NTF and more than one input row or quantizer, memory was read out of
bounds. Furthermore, array_like inputs other than ndarrays were rejected.
---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 4 ++--
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 1d3c2a3..506b46c 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -42,7 +42,7 @@ cdef extern from "cblas.h":
 
 include '_simulateDSM_helper.pxi'
 
-def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
+def simulateDSM(u, arg2, nlev=2, x0=0,
                 int store_xn=False, int store_xmax=False, int store_y=False):
 
     # Make sure that nlev is a 1D int array
@@ -79,7 +79,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
             ntf_z=np.asarray(arg2[0], dtype=np.complex128)
             ntf_p=np.asarray(arg2[1], dtype=np.complex128)
             ntf_k=float(arg2[2])
-            if ntf_z.ndim !=1 or ntf_p.ndim != 1:
+            if ntf_z.ndim !=1 or ntf_p.ndim != 1 or nu != 1 or nq != 1:
                 raise TypeError()
             form = 2
             order = ntf_z.shape[0]
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 1a2ded9..8799734 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -49,7 +49,7 @@ cdef dcopy_ptr dcopy=<dcopy_ptr>Capsule_AsVoidPtr(
 
 include '_simulateDSM_helper.pxi'
 
-def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
+def simulateDSM(u, arg2, nlev=2, x0=0,
                 int store_xn=False, int store_xmax=False, int store_y=False):
 
     # Make sure that nlev is a 1D int array
@@ -86,7 +86,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
             ntf_z=np.asarray(arg2[0], dtype=np.complex128)
             ntf_p=np.asarray(arg2[1], dtype=np.complex128)
             ntf_k=float(arg2[2])
-            if ntf_z.ndim !=1 or ntf_p.ndim != 1:
+            if ntf_z.ndim !=1 or ntf_p.ndim != 1 or nu != 1 or nq != 1:
                 raise TypeError()
             form = 2
             order = ntf_z.shape[0]
-- 
2.43.0


From 9e7cd276ef11910c79e365dae764ce8bb59391fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:37 +0000
Subject: [PATCH 12/24] fix: restore the CVXOPT settings after solving through
 PICOS or CVXPY

PICOS leaves its own options in cvxopt.solvers.options, and CVXPY does so when
the solver fails. Later designs were then affected by them.
---
 .../NTFdesign/minmax/_fir_minmax_cvxpy.py     |  4 +-
 .../NTFdesign/minmax/_fir_minmax_picos.py     |  4 +-
 .../weighting/_fir_weighting_cvxpy.py         |  4 +-
 .../weighting/_fir_weighting_picos.py         |  4 +-
 src/pydsm/_cvxopt_settings.py                 | 54 +++++++++++++++++++
 src/pydsm/cvxpy_tdr/procedures/call_solver.py |  3 +-
 6 files changed, 68 insertions(+), 5 deletions(-)
 create mode 100644 src/pydsm/_cvxopt_settings.py

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
index 12dcbce..69570c7 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
@@ -52,6 +52,7 @@ from __future__ import division, print_function
 
 import numpy as np
 import cvxpy
+from ..._cvxopt_settings import preserved_settings
 
 
 def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
@@ -135,5 +136,6 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
         F += [MM << 0]
     target = cvxpy.Minimize(cvxpy.max(gg))
     p = cvxpy.Problem(target, F)
-    p.solve(verbose=verbose, **opts['cvxpy_opts'])
+    with preserved_settings():
+        p.solve(verbose=verbose, **opts['cvxpy_opts'])
     return np.hstack((1, np.asarray(c.value)[0, ::-1]))
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 754cdf3..786e995 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -53,6 +53,7 @@ from __future__ import division, print_function
 import numpy as np
 import picos
 import cvxopt
+from ..._cvxopt_settings import preserved_settings
 
 
 def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
@@ -142,5 +143,6 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
     mx = picos.RealVariable('mx')
     p.add_constraint(picos.sum_k_largest(gg, 1) <= mx)
     p.set_objective('min', mx)
-    p.solve(verbosity=verbose, **opts['picos_opts'])
+    with preserved_settings():
+        p.solve(verbosity=verbose, **opts['picos_opts'])
     return np.hstack((1, np.asarray(c.value)[0, ::-1]))
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy.py
index 838e2ba..ef91982 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy.py
@@ -20,6 +20,7 @@
 
 import numpy as np
 import cvxpy
+from ..._cvxopt_settings import preserved_settings
 
 
 def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
@@ -48,5 +49,6 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
                     [C, D, np.array([[-1.]])]])
     constraints = [M << 0, X >> 0]
     p = cvxpy.Problem(target, constraints)
-    p.solve(verbose=verbose, **opts['cvxpy_opts'])
+    with preserved_settings():
+        p.solve(verbose=verbose, **opts['cvxpy_opts'])
     return np.hstack((1, np.asarray(br.value.T)[0]))
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
index 229ad75..12c6657 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
@@ -21,6 +21,7 @@
 import numpy as np
 import picos
 import cvxopt
+from ..._cvxopt_settings import preserved_settings
 
 
 def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
@@ -61,5 +62,6 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     p.add_constraint(abs(Qs*b) <= power)
     p.add_constraint(constraint1)
     p.add_constraint(constraint2)
-    p.solve(verbosity=verbose, **opts['picos_opts'])
+    with preserved_settings():
+        p.solve(verbosity=verbose, **opts['picos_opts'])
     return np.hstack((1, np.asarray(br.value.T)[0]))
diff --git a/src/pydsm/_cvxopt_settings.py b/src/pydsm/_cvxopt_settings.py
new file mode 100644
index 0000000..23f653c
--- /dev/null
+++ b/src/pydsm/_cvxopt_settings.py
@@ -0,0 +1,54 @@
+# -*- coding: utf-8 -*-
+
+# Copyright (c) 2012, Sergio Callegari
+# All rights reserved.
+
+# This file is part of PyDSM.
+
+# PyDSM is free software: you can redistribute it and/or modify it
+# under the terms of the GNU General Public License as published by
+# the Free Software Foundation, either version 3 of the License, or
+# (at your option) any later version.
+
+# PyDSM is distributed in the hope that it will be useful,
+# but WITHOUT ANY WARRANTY; without even the implied warranty of
+# MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+# GNU General Public License for more details.
+
+# You should have received a copy of the GNU General Public License
+# along with PyDSM.  If not, see <https://www.gnu.org/licenses/>.
+
+"""
+Protection of the process-wide CVXOPT settings
+==============================================
+
+CVXOPT keeps default options for its solvers in a dictionary that is shared
+by the whole process. Some modeling frontends communicate with CVXOPT by
+writing there.
+"""
+
+from contextlib import contextmanager
+from threading import RLock
+from cvxopt import solvers
+
+__all__ = ["current_settings", "preserved_settings"]
+
+_lock = RLock()
+
+
+def current_settings():
+    """Return a copy of the settings, as left by the user of the process."""
+    with _lock:
+        return dict(solvers.options)
+
+
+@contextmanager
+def preserved_settings():
+    """Context where frontends can temporarily alter the settings."""
+    with _lock:
+        saved = dict(solvers.options)
+        try:
+            yield
+        finally:
+            solvers.options.clear()
+            solvers.options.update(saved)
diff --git a/src/pydsm/cvxpy_tdr/procedures/call_solver.py b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
index 975f706..569b00d 100644
--- a/src/pydsm/cvxpy_tdr/procedures/call_solver.py
+++ b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
@@ -25,6 +25,7 @@ import scipy.sparse as sp
 from cvxopt import solvers
 from ..scalars import cvxpy_obj
 from ..constraints import cvxpy_list
+from ..._cvxopt_settings import current_settings
 
 # Function: call_solver
 def call_solver(p,quiet):
@@ -67,7 +68,7 @@ def call_solver(p,quiet):
     # Call cvxopt
     # (options are passed explicitly: those in the solvers module are shared
     # by the whole process and must be left alone)
-    options = dict(solvers.options)
+    options = current_settings()
     options['maxiters'] = p.options['maxiters']
     options['abstol'] = p.options['abstol']
     options['reltol'] = p.options['reltol']
-- 
2.43.0


From 8bc4b000434d56649d336acc6a32be33ea06ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 13/24] fix: honour the feastol option with the PICOS modeler

---
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py       | 4 +++-
 src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 786e995..0d6ba6f 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -70,7 +70,9 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
     del opts['picos_opts']['abstol']
     opts['picos_opts']['rel_ipm_opt_tol']=opts['picos_opts']['reltol']
     del opts['picos_opts']['reltol']
-    del opts['picos_opts']['feastol']
+    feastol = opts['picos_opts'].pop('feastol')
+    opts['picos_opts']['rel_prim_fsb_tol'] = feastol
+    opts['picos_opts']['rel_dual_fsb_tol'] = feastol
 
     # State space representation of NTF
     A = cvxopt.matrix(np.eye(order, order, 1))
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
index 12c6657..e511b90 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
@@ -38,7 +38,9 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     del opts['picos_opts']['abstol']
     opts['picos_opts']['rel_ipm_opt_tol']=opts['picos_opts']['reltol']
     del opts['picos_opts']['reltol']
-    del opts['picos_opts']['feastol']
+    feastol = opts['picos_opts'].pop('feastol')
+    opts['picos_opts']['rel_prim_fsb_tol'] = feastol
+    opts['picos_opts']['rel_dual_fsb_tol'] = feastol
     # Do the computation
     order = int(np.size(Qs, 0)-1)
     Qs = cvxopt.matrix(Qs)
-- 
2.43.0


From 7ec2422966e6eb2844a63a42ecc6e405b635cc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 14/24] fix: honour the default_options of
 synthesize_ntf_from_filter

---
 src/pydsm/NTFdesign/filter_based.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pydsm/NTFdesign/filter_based.py b/src/pydsm/NTFdesign/filter_based.py
index 94e57b6..522443a 100644
--- a/src/pydsm/NTFdesign/filter_based.py
+++ b/src/pydsm/NTFdesign/filter_based.py
@@ -53,6 +53,7 @@ from .legacy import (quantization_noise_gain_by_conv as
                      _quantization_noise_gain_by_conv,
                      q0_from_filter_ir)
 from .weighting import q0_weighting, ntf_fir_from_q0
+from .weighting._fir_weighting import digested_weighting_options
 from warnings import warn
 from ..exceptions import PyDsmDeprecationWarning
 from ..utilities import digested_options
@@ -291,12 +292,8 @@ def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
     """
     warn("Function meant for removal", PyDsmDeprecationWarning)
     # Manage optional parameters
-    opts1 = digested_options(options,
-                             synthesize_ntf_from_filter.default_options,
-                             ['quad_opts'], [], False)
-    opts2 = digested_options(options,
-                             synthesize_ntf_from_filter.default_options,
-                             ['show_progress'], ['cvxopt_opts'])
+    opts1, opts2 = digested_weighting_options(
+        options, synthesize_ntf_from_filter.default_options)
     # Do the computation
     q0 = q0_from_filter(order, H, H_type, **opts1)
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
-- 
2.43.0


From 5fd1d3e5cb2272e82d6b89452998a3b80fe03cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:18 +0000
Subject: [PATCH 15/24] fix: an interrupt while loading the CBLAS simulator is
 no longer swallowed

The bare except around the optional import also caught KeyboardInterrupt and
SystemExit: the import of the package went on, with the CBLAS simulator
unavailable for good.
---
 src/pydsm/delsig/_simulateDSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_simulateDSM.py b/src/pydsm/delsig/_simulateDSM.py
index 9d5d50e..54a3953 100644
--- a/src/pydsm/delsig/_simulateDSM.py
+++ b/src/pydsm/delsig/_simulateDSM.py
@@ -27,7 +27,7 @@ from ._simulateDSM_scipy import simulateDSM as _simulateDSM_scipy
 try:
     from ._simulateDSM_cblas import simulateDSM as _simulateDSM_cblas
     HAS_CBLAS = True
-except:
+except Exception:
     HAS_CBLAS = False
 from ._simulateDSM_scipy_blas import simulateDSM as _simulateDSM_scipy_blas
 from ..utilities import digested_options
-- 
2.43.0


From 3761494b003355cb6470db31017c89fec26bc86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:18 +0000
Subject: [PATCH 16/24] fix: let an interrupted import of the package be
 repeated

After an import interrupted between a submodule and its parent, the submodules
that had been loaded were not attributes of the parent imported anew, so that
minmax, weighting, legacy (NameError) and the min-max design with the default
modeler (AttributeError) could not be used any more in that process.
---
 src/pydsm/NTFdesign/legacy/__init__.py              | 1 +
 src/pydsm/NTFdesign/minmax/__init__.py              | 1 +
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py | 3 ++-
 src/pydsm/NTFdesign/weighting/__init__.py           | 1 +
 4 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/legacy/__init__.py b/src/pydsm/NTFdesign/legacy/__init__.py
index fe6998f..6bf0b5a 100644
--- a/src/pydsm/NTFdesign/legacy/__init__.py
+++ b/src/pydsm/NTFdesign/legacy/__init__.py
@@ -39,6 +39,7 @@ Functions
    quantization_noise_gain_by_conv  -- Legacy `quantization_noise_gain`
 """
 
+from . import _quantization_noise_gain, _q0_from_ir
 from ._quantization_noise_gain import *
 from ._q0_from_ir import *
 
diff --git a/src/pydsm/NTFdesign/minmax/__init__.py b/src/pydsm/NTFdesign/minmax/__init__.py
index 08d675b..e8ef249 100644
--- a/src/pydsm/NTFdesign/minmax/__init__.py
+++ b/src/pydsm/NTFdesign/minmax/__init__.py
@@ -83,6 +83,7 @@ M. Nagahara and Y. Yamamoto. See the documentation of :func:`ntf_fir_minmax`
 for further details.
 """
 
+from . import _fir_minmax
 from ._fir_minmax import *     # analysis:ignore
 
 __all__ = _fir_minmax.__all__ + ['test']
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
index 46a273b..9d9f293 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
@@ -53,6 +53,7 @@ from __future__ import division, print_function
 import numpy as np
 from warnings import warn
 from ... import cvxpy_tdr
+from ...cvxpy_tdr.arrays import cvxpy_var
 from ...exceptions import PyDsmApproximationWarning
 
 
@@ -74,7 +75,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
     bands = len(f0s)
     c = cvxpy_tdr.variable(1, order)
     F = []
-    gg = cvxpy_tdr.arrays.cvxpy_var(bands, 1)
+    gg = cvxpy_var(bands, 1)
 
     for idx in range(bands):
         f0 = f0s[idx]
diff --git a/src/pydsm/NTFdesign/weighting/__init__.py b/src/pydsm/NTFdesign/weighting/__init__.py
index a22afe8..7991f03 100644
--- a/src/pydsm/NTFdesign/weighting/__init__.py
+++ b/src/pydsm/NTFdesign/weighting/__init__.py
@@ -53,6 +53,7 @@ Deprecated Functions
    synthesize_ntf_from_noise_weighting -- Alias of `ntf_fir_weighting`
 """
 
+from . import _fir_weighting, _quantization_noise_gain
 from ._fir_weighting import *
 from ._quantization_noise_gain import *
 
-- 
2.43.0


From 59dec617a6382585be3ca8c1484de154ea9ee86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:31 +0000
Subject: [PATCH 17/24] fix: non contiguous nlev arrays in the compiled
 simulateDSM backends

---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 2 +-
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 506b46c..7a49d7c 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -48,7 +48,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     # Make sure that nlev is a 1D int array
     cdef np.ndarray c_nlev
     try:
-        c_nlev = np.asarray(nlev, dtype=np.int32)
+        c_nlev = np.asarray(nlev, dtype=np.int32, order='C')
         if c_nlev.ndim > 1:
             raise TypeError()
         c_nlev=c_nlev.reshape(-1)
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 8799734..9f3716c 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -55,7 +55,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     # Make sure that nlev is a 1D int array
     cdef np.ndarray c_nlev
     try:
-        c_nlev = np.asarray(nlev, dtype=np.int32)
+        c_nlev = np.asarray(nlev, dtype=np.int32, order='C')
         if c_nlev.ndim > 1:
             raise TypeError()
         c_nlev=c_nlev.reshape(-1)
-- 
2.43.0


From ac4a7ba71722696cfad7189af8fbb08da777895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 18/24] fix: KeyError when the override_kktsolver default is
 removed

---
 src/pydsm/NTFdesign/minmax/_fir_minmax.py       | 2 +-
 src/pydsm/NTFdesign/weighting/_fir_weighting.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax.py b/src/pydsm/NTFdesign/minmax/_fir_minmax.py
index b6d88c8..2dbecb8 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax.py
@@ -149,7 +149,7 @@ def ntf_fir_minmax(order=32, osr=32, H_inf=1.5, f0=0, zf=False,
             dig_opts['cvxpy_opts'].update(digested_options(
                 options, ntf_fir_minmax.default_options,
                 [], ['scs_opts'], False)['scs_opts'])
-        opts['cvxpy_opts'].pop('override_kktsolver')
+        opts['cvxpy_opts'].pop('override_kktsolver', None)
         dig_opts['cvxpy_opts'].update(opts['cvxpy_opts'])
         from ._fir_minmax_cvxpy import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index 84bf662..41a6d34 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -243,7 +243,7 @@ def ntf_fir_from_q0(q0, H_inf=1.5, normalize="auto", **options):
             dig_opts['cvxpy_opts'].update(digested_options(
                 options, ntf_fir_from_q0.default_options,
                 [], ['scs_opts'], False)['scs_opts'])
-        opts['cvxpy_opts'].pop('override_kktsolver')
+        opts['cvxpy_opts'].pop('override_kktsolver', None)
         dig_opts['cvxpy_opts'].update(opts['cvxpy_opts'])
         from ._fir_weighting_cvxpy import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
@@ -598,7 +598,7 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
             dig_opts['cvxpy_opts'].update(digested_options(
                 options, ntf_hybrid_weighting.default_options,
                 [], ['scs_opts'], False)['scs_opts'])
-        opts2['cvxpy_opts'].pop('override_kktsolver')
+        opts2['cvxpy_opts'].pop('override_kktsolver', None)
         dig_opts['cvxpy_opts'].update(opts2['cvxpy_opts'])
         from ._fir_weighting_cvxpy import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
-- 
2.43.0


From 95283127c51f2f2c1da4efef64736fb593113ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 19/24] fix: let an interrupted import of the bundled CVXPY be
 repeated

After an interrupt between the modules of cvxpy_tdr, which import each
other in a circle, those already loaded stayed bound to modules replaced
at the next import, so that modeling failed (NameError: cvxpy_list) for
the rest of the process.
---
 src/pydsm/cvxpy_tdr/__init__.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/__init__.py b/src/pydsm/cvxpy_tdr/__init__.py
index 2e17494..0b0f739 100644
--- a/src/pydsm/cvxpy_tdr/__init__.py
+++ b/src/pydsm/cvxpy_tdr/__init__.py
@@ -17,7 +17,16 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>. #
 #***********************************************************************#
 
-from .sets import *
-from .utils import *
-from .functions import *
-from .interface import *
+try:
+    from .sets import *
+    from .utils import *
+    from .functions import *
+    from .interface import *
+except BaseException:
+    # The modules of this package import each other in a circle. If their
+    # import is interrupted, those already loaded are bound to modules that
+    # are going to be replaced, so that all of them must be loaded anew.
+    import sys
+    for _name in [n for n in sys.modules if n.startswith(__name__ + '.')]:
+        del sys.modules[_name]
+    raise
-- 
2.43.0


From a4d7dbdea21889ed5f736893f7748cbf4d399bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 20/24] fix: make the scipy simulator independent of the
 numeric type of its arguments

---
 src/pydsm/delsig/_simulateDSM_scipy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index fd55455..3715160 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -73,10 +73,10 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
          PyDsmSlowPathWarning)
 
     # Make sure that nlev is an array
-    nlev = np.asarray(nlev).reshape(-1)
+    nlev = np.asarray(nlev, dtype=int).reshape(-1)
 
     # Make sure that input is a matrix
-    u = np.asarray(u)
+    u = np.asarray(u, dtype=float)
     if u.ndim == 1:
         u = u.reshape(1, -1)
 
@@ -90,7 +90,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
         order = len(ntf_z)
     else:
         # Assume ABCD form
-        ABCD = np.asarray(arg2)
+        ABCD = np.asarray(arg2, dtype=float)
         if ABCD.shape[1] == nu+ABCD.shape[0]:
             # ABCD dimensions OK
             form = 1
-- 
2.43.0


From 4274833d9fe2bbdb7d91f690b7c55eb20180b4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 21/24] fix: integer indices in cvxpy_tdr.reshape

---
 src/pydsm/cvxpy_tdr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/cvxpy_tdr/utils.py b/src/pydsm/cvxpy_tdr/utils.py
index 1b690e7..d7a718e 100644
--- a/src/pydsm/cvxpy_tdr/utils.py
+++ b/src/pydsm/cvxpy_tdr/utils.py
@@ -394,7 +394,7 @@ def reshape(v, newshape):
         for j in range(0,n,1):
             for i in range(0,m,1):
                 k = j*m + i
-                new_ar[k % mn,k / mn] = v[i,j]
+                new_ar[k % mn,k // mn] = v[i,j]
         return new_ar
 
 # Load modules
-- 
2.43.0


From 11f0bdeff08280a5ebc8aa64b13e5a1947ac6cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 22/24] fix: an interruption of cplxpair is no longer replaced
 by an AttributeError

A bare except clause around the choice of the default tolerance caught
KeyboardInterrupt, MemoryError and so on and, as np.float does not exist any
more, raised AttributeError in their place. For the same reason the documented
use on integers failed.
---
 src/pydsm/relab.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index d24c8d5..1298c86 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -299,6 +299,7 @@ def cplxpair(x, tol=None, dim=None):
     if tol is None:
         try:
             tol = 100*eps(x.dtype)
-        except:
-            tol = 100*eps(np.float)
+        except ValueError:
+            # Not a floating point type
+            tol = 100*eps(float)
     return np.apply_along_axis(cplxpair_vec, dim, x, tol)
-- 
2.43.0


From 7a275c5345581f8b56ec02be3ce397d991a98d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 23/24] fix: dsclansNTF does not return its own argument as
 part of the result

Changing the zeros in the returned NTF changed the zeros passed by the caller,
and hence what later calls made with them returned.
---
 src/pydsm/delsig/_dsclansNTF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_dsclansNTF.py b/src/pydsm/delsig/_dsclansNTF.py
index 106f0fb..338c763 100644
--- a/src/pydsm/delsig/_dsclansNTF.py
+++ b/src/pydsm/delsig/_dsclansNTF.py
@@ -75,4 +75,5 @@ def dsclansNTF(x, order, rmax, Hz):
         s = np.roots((1, 2*zeta*wn, wn**2))
         # Bilinear transform
         Hp[i:i+2] = rmax*(1+s)/(1-s)
-    return (Hz, Hp, 1)
+    # The zeros are copied: the result must not be tied to the argument
+    return (np.array(Hz), Hp, 1)
-- 
2.43.0


From a975a3274bb15d388af953f132b689ab428c7109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 24/24] fix: cvxpy_tdr: take the parameters of embedded
 programs at their values

A program used as a function in another one kept its own parameters in
the expanded constraints: a null one made the solution fail with an
AttributeError, and one without a value went unnoticed.
---
 src/pydsm/cvxpy_tdr/programs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pydsm/cvxpy_tdr/programs.py b/src/pydsm/cvxpy_tdr/programs.py
index 3f5b4c0..c4f7bab 100644
--- a/src/pydsm/cvxpy_tdr/programs.py
+++ b/src/pydsm/cvxpy_tdr/programs.py
@@ -340,6 +340,14 @@ class cvxpy_program(object):
         replace_map = {}
         for k in range(0,len(args),1):
             replace_map[args_ref[k]] = args[k]
+
+        # Parameters of the embedded program take their current values
+        for param in self.parameters:
+            if param in replace_map:
+                continue
+            if np.isnan(param.value):
+                raise ValueError('Invalid parameter value: NaN')
+            replace_map[param] = param.value
         new_p = cvxpy_program(self.action,
                               re_eval(self.objective,replace_map),
                               re_eval(self.constraints,replace_map),
-- 
2.43.0

