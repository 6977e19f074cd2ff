From c8588d5c7b3d5ef48cdc977ff8739616d809032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 001/138] fix: axis equality tolerance must not exceed the axis
 spacing

is_equivalent looked for 'rtol' among the auxiliary attributes (where it is
never stored) and used an absolute tolerance of 1e-8, so axes with small
values, or large values relative to their spacing, compared equal to their own
reversal and data were silently misaligned.
---
 pygeode/axis.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 1c331c2..446f746 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -122,7 +122,7 @@ class Axis(Var):
       if len(inz) > 1:
         vnz = np.sort(values[inz]).astype('d')
         logr = np.floor(np.min( np.log10(np.abs(np.diff(vnz) / vnz[:-1])) ))
-        if not np.isinf(logr) and 10**logr < rtol: rtol = 10**logr
+        if not np.isinf(logr) and 10**logr <= rtol: rtol = 0.5 * 10**logr
 
     #: The relative tolerance for identifying an element of this axis.
     self.rtol = rtol
@@ -711,13 +711,22 @@ def is_equivalent(ax1, ax2, check_class = False, check_aux = True, check_name =
     return False
 
   # Check the values
+  import numpy as np
   from numpy import allclose
   if rtol == 'max':
-    rtol = max(ax1.auxatts.get('rtol', 1e-5), ax2.auxatts.get('rtol', 1e-5))
+    rtol = max(ax1.rtol, ax2.rtol)
   elif rtol == 'min':
-    rtol = min(ax1.auxatts.get('rtol', 1e-5), ax2.auxatts.get('rtol', 1e-5))
+    rtol = min(ax1.rtol, ax2.rtol)
+
+  # The absolute tolerance (needed for values near zero) must not bridge the
+  # gap between neighbouring points.
+  spacing = [np.diff(np.sort(ax.values.astype('d'))) for ax in (ax1, ax2)]
+  spacing = [np.min(d[d > 0]) for d in spacing if np.any(d > 0)]
+  if len(spacing) > 0: atol = min(1e-8, rtol * min(spacing))
+  else: atol = 1e-12
 
-  if not allclose(ax1.values, ax2.values, rtol = rtol):
+  if not (allclose(ax1.values, ax2.values, rtol=rtol, atol=atol)
+          or allclose(ax2.values, ax1.values, rtol=rtol, atol=atol)):
 #   print 'values mismatch'
     return False
 
-- 
2.43.0


From 12b246d42261d5ef096aeb2bbc295e7d1af746fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 002/138] fix: compare index arrays of different lengths safely
 in View.get

np.all(u == ind) raises for arrays of different lengths with current numpy, so
any read with repeated indices failed.
---
 pygeode/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index a7b06bd..c4a560e 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -233,7 +233,7 @@ class View:
 
     # Only request unique elements from the input
     unique_indices = [np.unique(ind) for ind in newview.integer_indices]
-    if all(np.all(u == ind) for u,ind in zip(unique_indices, newview.integer_indices)):
+    if all(np.array_equal(u, ind) for u,ind in zip(unique_indices, newview.integer_indices)):
       # already unique
       duplicator = ()
       unique_view = newview
-- 
2.43.0


From 75d2441adc5b99efc786c208614321dc5876fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 003/138] fix: shape of an empty result follows the requested
 view

View.get returned an empty array whose dimensions were in the order of the
source variable instead of the order of the view.
---
 pygeode/view.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index c4a560e..c59d827 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -228,7 +228,9 @@ class View:
 #      print 'mapped view:', newview.axes, newview.slices
 #      raise Exception
 
-      return np.empty([s if o > -1 else 1 for s,o in zip(newview.shape,order)], var.dtype)
+      if conform is True:
+        return np.empty([s if o > -1 else 1 for s,o in zip(self.shape,order)], var.dtype)
+      return np.empty(newview.shape, var.dtype)
     assert newview.axes == var.axes                              # Or it gets the hose again
 
     # Only request unique elements from the input
-- 
2.43.0


From 75aefd997454f437342cf50321828d3a7151f403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 004/138] fix: 'from pygeode import *' failed on a nested list
 in __all__

---
 pygeode/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/__init__.py b/pygeode/__init__.py
index 04f7fbd..1e6897f 100644
--- a/pygeode/__init__.py
+++ b/pygeode/__init__.py
@@ -119,7 +119,7 @@ __all__.append('ensemble')
 
 from pygeode.stats import *
 from pygeode.stats import __all__ as stats_all
-__all__.append(stats_all)
+__all__.extend(stats_all)
 
 from pygeode.spectral import *
 from pygeode.spectral import __all__ as spectral_all
-- 
2.43.0


From 7140616fa6eeedd741a374c779eb16736cbe7161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 005/138] fix: map each view axis to its closest relative only

View.map_to took the first axis whose values happened to coincide, so with a
generic axis next to a subclass (e.g. Lat) reductions over the generic axis
selected single elements and squeeze failed.
---
 pygeode/view.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pygeode/view.py b/pygeode/view.py
index c59d827..0ad737b 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -137,6 +137,12 @@ class View:
 
     if hasattr(axes,'axes'): axes = axes.axes  # check if a var or view was passed
 
+    # Check if one axis is more closely related to a given axis than another one
+    def closer (a1, a2, a):
+      def same_kind (b): return type(b) is type(a) and b.name == a.name
+      if a1 is a2: return False
+      return a1 == a or (same_kind(a1) and not same_kind(a2))
+
     slices = []
     order[:] = [-1] * len(self.axes)
 
@@ -150,6 +156,11 @@ class View:
       # Look for a mapping
       map = None
       for in_i,in_a in enumerate(self.subaxes()):
+        # Don't use an input axis that belongs to another of the output axes
+        # (axes of related classes can map to each other if their values coincide)
+        if order[in_i] != -1 or any(closer(a, out_a, self.axes[in_i]) for a in axes):
+          map = None
+          continue
         map = out_a.map_to(in_a)
         if map is not None:
           slices.append(simplify(map))
-- 
2.43.0


From 6c1c5146edb0d98db649e0827e69a9de1ab0bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 006/138] fix: equality of NamedAxis and its subclasses

A DummyAxis never equalled another DummyAxis (and the comparison with a
NamedAxis depended on the order of the operands); != ignored the name.
---
 pygeode/axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 446f746..b0d5826 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -770,7 +770,7 @@ class NamedAxis (Axis):
 
   def __eq__ (self, other):
   # {{{
-    if type(other) is not NamedAxis: return False
+    if not isinstance(other, NamedAxis): return False
 
     # Check the names
     if self.name != other.name: return False
@@ -778,6 +778,8 @@ class NamedAxis (Axis):
     return Axis.__eq__(self,other)
   # }}}
 
+  def __ne__ (self, other): return not self == other
+
   def __repr__ (self): return "<%s '%s'>"%(self.__class__.__name__, self.name)
 
   # Need more restrictions on mapping for named axes
-- 
2.43.0


From 4b03c90efc21ec2470d53b4c8c72f316b7a10713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 007/138] fix: slicing an axis with repeated values permutes
 its associated arrays

The slice was dropped whenever the values happened to be unchanged.
---
 pygeode/axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index b0d5826..99c3b6b 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -361,7 +361,8 @@ class Axis(Var):
     values = np.array(self.values[slices], ndmin=1, copy=False)
 
     # Check if we even need to do any slicing
-    if len(values) == len(self.values) and np.all(values==self.values): return self
+    index = np.arange(len(self.values))
+    if np.array_equal(np.array(index[slices], ndmin=1), index): return self
 
     aux = {}
 
-- 
2.43.0


From e74fcbccdbb9409a9182ec11a160374da3951306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 008/138] fix: slicing an axis keeps its plot attributes and
 tolerance

---
 pygeode/axis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 99c3b6b..d4c8a93 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -376,6 +376,10 @@ class Axis(Var):
 
     axis = type(self)(values, name=self.name, atts=self.atts, **aux)
 
+    # Keep the plot attributes and the tolerance
+    axis.plotatts = self.plotatts.copy()
+    axis.rtol = self.rtol
+
     return axis
   # }}}
 
-- 
2.43.0


From 18a5b70374d9fb23c31678558f58ec30cde0926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 009/138] fix: reductions of integer and boolean variables

Means were truncated to integers, variances and NaN-aware reductions failed or
stored NaN/inf into integer arrays, minima and maxima overflowed.
---
 pygeode/reduce.py | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 6f47b7b..a5ea855 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -4,11 +4,15 @@
 #     I.e., could use something like:
 #                      var.mean(lat=(-45,45))
 
+import numpy as np
 from pygeode.var import Var
 
 #########################
 class ReducedVar(Var):
 # {{{
+  # Whether the result can't be stored in an integer
+  needs_float = True
+
   def __new__ (type, var, indices, *args, **kwargs):
   # {{{
     from pygeode.var import Var
@@ -63,6 +67,10 @@ class ReducedVar(Var):
 
     self.in_axes = axes
 
+    # Means, variances and anything that can be missing can't be represented by integers
+    dtype = np.dtype(dtype)
+    if self.needs_float and dtype.kind in 'iub': dtype = np.dtype('float64')
+
     # Remove the reduction axis from the output variable
     axes = [a for i,a in enumerate(axes) if i not in indices]
 
@@ -71,13 +79,27 @@ class ReducedVar(Var):
   # }}}
 # }}}
 
+# Starting values for the minimum / maximum
+def largest (dtype):
+  import numpy as np
+  if dtype.kind in 'iu': return np.iinfo(dtype).max
+  if dtype.kind == 'b': return True
+  return float('inf')
+
+def smallest (dtype):
+  import numpy as np
+  if dtype.kind in 'iu': return np.iinfo(dtype).min
+  if dtype.kind == 'b': return False
+  return float('-inf')
+
 class MinVar(ReducedVar):
 # {{{
+  needs_float = False
+
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npmin
-    out = np.empty(view.shape, self.dtype)
-    out[()] = float('inf')
+    out = np.full(view.shape, largest(self.dtype), self.dtype)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       out[outsl] = np.minimum(out[outsl], npmin(indata, self.indices))
     return out
@@ -97,11 +119,12 @@ class NANMinVar(ReducedVar):
 
 class MaxVar(ReducedVar):
 # {{{
+  needs_float = False
+
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npmax
-    out = np.empty(view.shape, self.dtype)
-    out[()] = float('-inf')
+    out = np.full(view.shape, smallest(self.dtype), self.dtype)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       out[outsl] = np.maximum(out[outsl], npmax(indata, self.indices))
     return out
@@ -180,6 +203,12 @@ class ArgMinVar(ReducedVar):
 
 class SumVar(ReducedVar):
 # {{{
+  needs_float = False
+
+  def __init__ (self, var, indices):
+    ReducedVar.__init__(self, var, indices)
+    if self.dtype.kind == 'b': self.dtype = np.dtype('int64')
+
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
-- 
2.43.0


From d14fcb3d95b79538d50f5766b2ff41b27b477035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 010/138] fix: argmax/argmin over any axis identifier and in
 pieces

Integers and axis classes were rejected although documented, and when the
array-size limit split the reduced axis the index was relative to the last piece.
---
 pygeode/reduce.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index a5ea855..0f50052 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -149,7 +149,7 @@ class ArgMaxVar(ReducedVar):
     from pygeode.var import Var
     import numpy as np
     axes = var.axes
-    index = var.whichaxis(index)
+    index = var.whichaxis(index[0])
 
     self.N = len(axes[index])
     self.var = var
@@ -167,7 +167,8 @@ class ArgMaxVar(ReducedVar):
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
     index = self.indices[0]
-    for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+    # The whole axis is needed to find the extremum
+    for outsl, (indata,) in loopover(self.var, view, preserve=[index], pbar=pbar):
       out[outsl] = np.argmax(indata, index)
     return out
 # }}}
@@ -178,7 +179,7 @@ class ArgMinVar(ReducedVar):
     from pygeode.var import Var
     import numpy as np
     axes = var.axes
-    index = var.whichaxis(index)
+    index = var.whichaxis(index[0])
 
     self.N = len(axes[index])
     self.var = var
@@ -196,7 +197,8 @@ class ArgMinVar(ReducedVar):
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
     index = self.indices[0]
-    for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+    # The whole axis is needed to find the extremum
+    for outsl, (indata,) in loopover(self.var, view, preserve=[index], pbar=pbar):
       out[outsl] = np.argmin(indata, index)
     return out
 # }}}
@@ -601,7 +603,7 @@ def argmax (var, axis):
     --------
     argmin
   '''
-  return ArgMaxVar(var, axis)
+  return ArgMaxVar(var, [axis])
 # }}}
 def argmin (var, axis): 
 # {{{
@@ -623,7 +625,7 @@ def argmin (var, axis):
     --------
     argmax
   '''
-  return ArgMinVar(var, axis)
+  return ArgMinVar(var, [axis])
 # }}}
 
 
-- 
2.43.0


From 115ee8c48e008336a5a8a0b393519960a94ae0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 011/138] fix: numpy integers index like Python integers

v[numpy.int64(1)] kept the indexed dimension that v[1] drops.
---
 pygeode/var.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/var.py b/pygeode/var.py
index 5ff1104..6cf36b0 100644
--- a/pygeode/var.py
+++ b/pygeode/var.py
@@ -293,13 +293,14 @@ class Var(object):
      [269.47711035 272.04496294 271.06413053 267.89009017 266.90925775]]
     """
     # Get the raw numpy array (with degenerate axes intact)
+    from numbers import Integral
     array = self._getitem_asvar(slices).get()
     # If any single integer indices were passed, then reduce out those
     # dimensions.  This is consistent with what would happen with numpy slicing.
     if isinstance(slices,tuple):
-      extra_slicing = tuple(0 if isinstance(sl,int) else Ellipsis if sl is Ellipsis else slice(None) for sl in slices)
+      extra_slicing = tuple(0 if isinstance(sl,Integral) else Ellipsis if sl is Ellipsis else slice(None) for sl in slices)
       array = array[extra_slicing]
-    elif isinstance(slices,int):
+    elif isinstance(slices,Integral):
       array = array[0]
     return array
 # }}}
-- 
2.43.0


From 6e1141c866bca1f95a4ce5dd00327f08cf180ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 012/138] fix: mapping onto an axis with repeated values
 skipped later points

The search for the closest value stopped at the first repeated value, so slices
of slices with repeated indices were truncated or read the wrong elements.
---
 pygeode/tools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygeode/tools.c b/pygeode/tools.c
index c62703b..a8d2ba2 100644
--- a/pygeode/tools.c
+++ b/pygeode/tools.c
@@ -135,6 +135,8 @@ int map_to (int na, double *a_orig, int nb, double *b_orig, int *indices, double
     // Find a that's closest to b
     while (ai < na-1) {
       if (fabs(a[ai+1]-B) < fabs(a[ai]-B)) ai++;
+      // Don't get stuck on repeated values
+      else if (a[ai+1] == a[ai] && a[ai] < B) ai++;
       else break;
     }
     // Check if it's a match
-- 
2.43.0


From e1000db826e73ea528c2978eafa9ad3e1bfde355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 013/138] fix: several conditions on one axis with m_/s_
 prefixes overwrote each other

---
 pygeode/var.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pygeode/var.py b/pygeode/var.py
index 6cf36b0..6668feb 100644
--- a/pygeode/var.py
+++ b/pygeode/var.py
@@ -400,19 +400,14 @@ class Var(object):
         if not self.hasaxis(ax) and ignore_mismatch: continue
         assert self.hasaxis(ax), "'%s' is not a valid axis for var '%s'"%(ax,self.name)
         means.append(ax)
-        prefix = prefix.replace('m', '')
 
       if 's' in prefix:
         if not self.hasaxis(ax) and ignore_mismatch: continue
         assert self.hasaxis(ax), "'%s' is not a valid axis for var '%s'"%(ax,self.name)
         if ax not in means: squeezes.append(ax)
-        prefix = prefix.replace('s', '')
-
-      if len(prefix) > 0:
-        k = '_'.join([prefix, ax])
-      else:
-        k = ax
 
+      # The prefix is kept, so that several conditions on the same axis
+      # (e.g. lat = (0, 60), m_lat = (30, 90)) remain distinct
       newargs[k] = v
 
     # Get the slices, apply to the variable
-- 
2.43.0


From 34a6b50cdcc33663a6323c938b012a7db3fb02e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 014/138] fix: reducing over an axis named more than once

---
 pygeode/reduce.py | 2 +-
 pygeode/var.py    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 0f50052..3a144be 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -53,7 +53,7 @@ class ReducedVar(Var):
       dtype = var.dtype
 
 #    if not isinstance(indices,(list,tuple)): indices = [indices]
-    indices = np.sort([var.whichaxis(i) for i in indices])
+    indices = sorted(set(var.whichaxis(i) for i in indices))
     assert len(indices) > 0, "no reduction axes specified"
 
     N = [len(axes[i]) for i in indices]
diff --git a/pygeode/var.py b/pygeode/var.py
index 6668feb..fc5005e 100644
--- a/pygeode/var.py
+++ b/pygeode/var.py
@@ -743,7 +743,8 @@ class Var(object):
     if iaxes is None or len(iaxes) == 0:
       axes = self.axes
     else:
-      axes = [self.getaxis(i) for i in iaxes]
+      # (each axis counts once, however often it is named)
+      axes = [self.axes[i] for i in sorted(set(self.whichaxis(i) for i in iaxes))]
     wt = tuple([a.auxasvar('weights') for a in axes if hasattr(a, 'weights')])
     if len(wt) == 0:
 #      return None
-- 
2.43.0


From 3f0698edbe485a4a5fd64b7865917f8065511478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 015/138] fix: s_ and m_ prefixes given for the same axis

---
 pygeode/var.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygeode/var.py b/pygeode/var.py
index fc5005e..8b05def 100644
--- a/pygeode/var.py
+++ b/pygeode/var.py
@@ -404,7 +404,7 @@ class Var(object):
       if 's' in prefix:
         if not self.hasaxis(ax) and ignore_mismatch: continue
         assert self.hasaxis(ax), "'%s' is not a valid axis for var '%s'"%(ax,self.name)
-        if ax not in means: squeezes.append(ax)
+        squeezes.append(ax)
 
       # The prefix is kept, so that several conditions on the same axis
       # (e.g. lat = (0, 60), m_lat = (30, 90)) remain distinct
@@ -416,7 +416,9 @@ class Var(object):
 
     ret = self._getitem_asvar(slices)
 
-    # Any means or squeezes requested?
+    # Any means or squeezes requested? (averaging already removes the axis)
+    meanaxes = [self.whichaxis(ax) for ax in means]
+    squeezes = [ax for ax in squeezes if self.whichaxis(ax) not in meanaxes]
     if len(means) > 0: ret = ret.mean(*means)
     if len(squeezes) > 0: ret = ret.squeeze(*squeezes)
 
-- 
2.43.0


From 7bb8180415fe614ab4d2851f79249da00e13a22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 016/138] fix: common attributes given by a generator, as
 arrays or as missing values

---
 pygeode/tools.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pygeode/tools.py b/pygeode/tools.py
index 602f3ca..81f8256 100644
--- a/pygeode/tools.py
+++ b/pygeode/tools.py
@@ -113,7 +113,14 @@ def common_dtype (vars):
 # Common elements of a dictionary
 # Used mainly for the optional attributes (.atts) of a var, to copy any consistent values to the output
 def common_dict (*dicts):
-  if len(dicts) == 1 and islist(dicts[0]): dicts = dicts[0]
+  import numpy as np
+  if len(dicts) == 1 and islist(dicts[0]): dicts = list(dicts[0])
+  # Values can be arrays (possibly of different lengths), and missing values agree
+  def same (a, b):
+    if not hasattr(a, '__array__') and not hasattr(b, '__array__'):
+      return bool(a == b) or bool(a != a and b != b)
+    a, b = np.asarray(a), np.asarray(b)
+    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
   # Merge it all into a single dictionary
   d = dict([(k,v) for x in dicts for k,v in x.items()])
   # Check for consistency (remove keys which have multiple values, or aren't
@@ -121,9 +128,7 @@ def common_dict (*dicts):
   for k,v in list(d.items()):
     for x in dicts:
       if k in x:
-        t = (x[k] != v)
-        # should we use '__iter__' instead, to exclude strings?
-        if (hasattr(t, '__len__') and  any(t)) or (not hasattr(t, '__len__') and t): 
+        if not same(x[k], v):
           del d[k]
           break
       else:
-- 
2.43.0


From 99daf26098090f62056bb24d221a57ae57034724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 017/138] fix: data type of an ensemble must hold every member

---
 pygeode/ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/ensemble.py b/pygeode/ensemble.py
index cfca9d1..46ad39c 100644
--- a/pygeode/ensemble.py
+++ b/pygeode/ensemble.py
@@ -12,13 +12,14 @@ from pygeode.var import Var
 class EnsembleVar(Var):
   def __init__(self, varlist):
     from pygeode.var import Var, combine_meta
+    from pygeode.tools import common_dtype
     self.varlist = varlist
     # Assume the vars have already been checked for consistency
     var0 = varlist[0]
 
     # Add ensemble axis to start of axis list
     axes = [make_ensemble(len(varlist))] + list(var0.axes)
-    Var.__init__(self, axes, dtype=var0.dtype)
+    Var.__init__(self, axes, dtype=common_dtype(varlist))
 
     combine_meta (varlist, self)
     self.name = varlist[0].name
-- 
2.43.0


From 58731206249aa1326c87ddec6e1105381ddb6189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 018/138] fix: keyword arguments of Var.map are passed on to
 the function

---
 pygeode/ufunc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pygeode/ufunc.py b/pygeode/ufunc.py
index 4c0f99d..8ba3d09 100644
--- a/pygeode/ufunc.py
+++ b/pygeode/ufunc.py
@@ -140,11 +140,17 @@ def map (var, func, *args, **kwargs):
   array([260., 260., 260., 260., 260., 260., 260., 270.])
   '''
 
+  if len(kwargs) > 0:
+    @functools.wraps(func)
+    def f(*values): return func(*values, **kwargs)
+  else:
+    f = func
+
   class MapVar(UfuncVar):
-    op = staticmethod(func)
+    op = staticmethod(f)
     symbol = None
 
-  return MapVar(var, *args, **kwargs)
+  return MapVar(var, *args)
 # }}}
 
 # Take a function that operates on numpy arrays, create a
-- 
2.43.0


From e7e35dcaa3b031f77ed99a9f8375cd58bf82c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 019/138] fix: renaming an axis keeps its plot attributes and
 tolerance, and works for Index

---
 pygeode/axis.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index d4c8a93..2fac691 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -572,7 +572,13 @@ class Axis(Var):
     for k,v in self.auxatts.items(): aux[k] = v
     for k,v in self.auxarrays.items(): aux[k] = v
 
-    return type(self)(values=self.values, name=name, atts=self.atts, **aux)
+    axis = type(self)(self.values, name=name, atts=self.atts, **aux)
+
+    # Keep the plot attributes and the tolerance
+    axis.plotatts = self.plotatts.copy()
+    axis.rtol = self.rtol
+
+    return axis
 # }}}
 
   # Check if a given string is a meaningful alias to the axis
-- 
2.43.0


From ee8753c945e6b4d98627ed684306f2c5f7a78e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 020/138] fix: concatenation and replace_axes must not share
 the caller's list

---
 pygeode/concat.py        | 4 ++--
 pygeode/varoperations.py | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/concat.py b/pygeode/concat.py
index ca8d737..cf0e472 100644
--- a/pygeode/concat.py
+++ b/pygeode/concat.py
@@ -65,8 +65,8 @@ class ConcatVar(Var):
     # Grab metadata from the input variables
     combine_meta (vars, self)
 
-    # Other stuff
-    self.vars = vars
+    # Other stuff (the list belongs to the caller)
+    self.vars = list(vars)
     self.iaxis = iaxis
 
   def getview (self, view, pbar):
diff --git a/pygeode/varoperations.py b/pygeode/varoperations.py
index 64832b3..740c89a 100644
--- a/pygeode/varoperations.py
+++ b/pygeode/varoperations.py
@@ -281,6 +281,7 @@ class Replace_axes (Var):
       newaxes = list(var.axes)
     else:
       assert len(newaxes) == var.naxes, "wrong number of axes provided"
+      newaxes = list(newaxes)  # the list belongs to the caller
 
     for a,newa in axisdict.items():
       if not var.hasaxis(a) and ignore_mismatch: continue
-- 
2.43.0


From 451bf73fa98dabd12aa8f644df964eaeb0c12595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 021/138] fix: fill and unfill of a variable without axes

---
 pygeode/varoperations.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pygeode/varoperations.py b/pygeode/varoperations.py
index 740c89a..3cf0513 100644
--- a/pygeode/varoperations.py
+++ b/pygeode/varoperations.py
@@ -551,10 +551,8 @@ class FillVar(Var):
     copy_meta(var, self)
   def getview (self, view, pbar):
     import numpy as np
-    data = view.get(self.var, pbar=pbar).copy()
-#    data[where(data == float('NaN'))] = self.fill
-    w = np.where(np.isnan(data))
-    data[w] = self._fill
+    data = np.array(view.get(self.var, pbar=pbar))
+    data[np.isnan(data)] = self._fill
     return data
 
 def fill (self, fill):
@@ -598,7 +596,7 @@ class UnfillVar(Var):
     import numpy as np
     data = view.get(self.var, pbar=pbar).copy()
     data = np.asarray(data, self.dtype)
-    data[np.where(data == self._fill)] = float('NaN')
+    data[data == self._fill] = float('NaN')
     return data
 
 def unfill (self, fill):
-- 
2.43.0


From c45e0e714cff8e85aaa933fb1bcd0f7b7c8a7f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 022/138] fix: axis tolerance when a coordinate is repeated

A repeated coordinate gave a zero spacing, and with it no refinement of the
relative tolerance at all, so that different axes compared equal.
---
 pygeode/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 2fac691..a6be1f9 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -119,8 +119,8 @@ class Axis(Var):
       rtol = 1e-5
       rtol = self.rtol
       inz = np.where(values != 0.)[0]
-      if len(inz) > 1:
-        vnz = np.sort(values[inz]).astype('d')
+      if len(inz) > 1 and np.any(np.diff(values[inz]) != 0):
+        vnz = np.unique(values[inz]).astype('d')
         logr = np.floor(np.min( np.log10(np.abs(np.diff(vnz) / vnz[:-1])) ))
         if not np.isinf(logr) and 10**logr <= rtol: rtol = 0.5 * 10**logr
 
-- 
2.43.0


From 99665019a7325021be1b3f7bbdd5b0d5b0142bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 023/138] fix: NonCoordinateAxis != is the negation of ==

---
 pygeode/axis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index a6be1f9..842da21 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -1282,6 +1282,8 @@ class NonCoordinateAxis(Axis):
     return True
 # }}}
 
+  def __ne__ (self, other): return not self == other
+
   # How to map string values to dummy indices
   def str_as_val(self, key, s):
 # {{{
-- 
2.43.0


From 0657aaac084fb9c76a274c1ed9f86dc8dcaf6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 024/138] fix: lagged variables index with tuples

numpy no longer accepts a list of slices as a multi-dimensional index, so that
no lagged variable could be read.
---
 pygeode/timeutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 31de022..4a18a1a 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -332,9 +332,9 @@ class LagVar(Var):
       insl[self.iaxis] = tind[ivalid] + l - imin
       outsl[self.iaxis] = ivalid
       outsl[self.iaxis+1] = i
-      out[outsl] = src[insl]
+      out[tuple(outsl)] = src[tuple(insl)]
       outsl[self.iaxis] = np.where(~valid)[0]
-      out[outsl] = np.nan
+      out[tuple(outsl)] = np.nan
     
     return out
   # }}}
-- 
2.43.0


From a8921ae9ffed9490edae667b38a2056a0dabf231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 025/138] fix: split and joined time axes index with tuples

---
 pygeode/timeutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 4a18a1a..e4e44f0 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -466,7 +466,7 @@ class SplitTime (Var):
     out = out.reshape(squished_shape)
     sl = [slice(None)] * out.ndim
     sl[iaxis] = out_sl
-    out[sl] = indata
+    out[tuple(sl)] = indata
 
     # Restore the shape
     out = out.reshape(view.shape)
@@ -552,7 +552,7 @@ class JoinTime(Var):
     # Slice out what we actually wanted from this
     slices = [slice(None)] * data.ndim
     slices[taxis] = uber_time.map_to(times)
-    return data[slices]
+    return data[tuple(slices)]
 # }}}
 # }}}
 
-- 
2.43.0


From 9fb0daac5338bb73f38d2abb406e23523a62ca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 026/138] fix: flattened variables can be read at any positions

Only contiguous, increasing requests were handled.
---
 pygeode/composite.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 8afc777..dbd2431 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -242,7 +242,6 @@ class FlattenVar(Var):
 
   def getview (self, view, pbar):
   # {{{
-    # TODO: handle strides, random access...
     io = self.iout  # Index of outer axis in source var
     ii = self.iin   # Index of inner axis in source var
     ifl = self.iout # Index of flattened axis
@@ -252,6 +251,20 @@ class FlattenVar(Var):
     import numpy as np
     out = np.empty(view.shape, self.dtype)
     slf = view.slices[ifl]  # Again, need these indices in the space of the variable (?)
+
+    if not isinstance(slf, slice) or slf.step not in (None, 1):
+      # Not a contiguous range; get the requested elements of each outer index in turn
+      ind = np.asarray(view.integer_indices[ifl])
+      outer = np.unique(ind // stride)
+      outsl = [slice(None)] * self.naxes
+      for i, o in enumerate(outer):
+        sel = np.where(ind // stride == o)[0]
+        inview = view.replace_axis(ifl, src.axes[io], [o]).add_axis(ii, src.axes[ii], ind[sel] - o * stride)
+        data = inview.get(src, pbar=pbar.part(i, len(outer)))
+        outsl[ifl] = sel
+        out[tuple(outsl)] = data.reshape(data.shape[:io] + data.shape[ii:])
+      return out
+
     slo = slice(int(np.floor(slf.start / float(stride))),
                           int(np.ceil(slf.stop / float(stride))))
 
-- 
2.43.0


From a3e985225fe99428596633fe7698e989e548f845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 027/138] fix: join a year and a day axis that are not adjacent

---
 pygeode/timeutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index e4e44f0..650b3a2 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -541,7 +541,7 @@ class JoinTime(Var):
     data = np.rollaxis(data, daxis, yaxis+1)
     # Then, combine then
     shape = list(data.shape)
-    shape = shape[:yaxis] + [-1] + shape[daxis+1:]
+    shape = shape[:yaxis] + [-1] + shape[yaxis+2:]
     data = data.reshape(shape)
 
     # Now, we may have slightly more data than we actually need
-- 
2.43.0


From bef9a1190038f5b4d9c4a5d594e59d55cb6264c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 028/138] fix: map an axis to the closest relative of a view

A reduced view with two related axes (e.g. Pres and ZAxis) was mapped through
the wrong one, giving wrong values for partial requests of a reduction.
---
 pygeode/view.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index 0ad737b..4445e29 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -156,9 +156,11 @@ class View:
       # Look for a mapping
       map = None
       for in_i,in_a in enumerate(self.subaxes()):
-        # Don't use an input axis that belongs to another of the output axes
+        # Don't use an input axis that belongs to another of the output axes, or if
+        # another of the input axes is closer to this output axis
         # (axes of related classes can map to each other if their values coincide)
-        if order[in_i] != -1 or any(closer(a, out_a, self.axes[in_i]) for a in axes):
+        if order[in_i] != -1 or any(closer(a, out_a, self.axes[in_i]) for a in axes) \
+           or any(closer(a, self.axes[in_i], out_a) for a in self.axes):
           map = None
           continue
         map = out_a.map_to(in_a)
-- 
2.43.0


From 42d54ff17b73361177d0ea5e0bb3980cc5645672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 029/138] fix: shape of an empty request of a variable with two
 related axes

---
 pygeode/view.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index 4445e29..cea5b07 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -138,18 +138,20 @@ class View:
     if hasattr(axes,'axes'): axes = axes.axes  # check if a var or view was passed
 
     # Check if one axis is more closely related to a given axis than another one
+    def same_kind (a1, a2): return type(a1) is type(a2) and a1.name == a2.name
     def closer (a1, a2, a):
-      def same_kind (b): return type(b) is type(a) and b.name == a.name
       if a1 is a2: return False
-      return a1 == a or (same_kind(a1) and not same_kind(a2))
+      return a1 == a or (same_kind(a1,a) and not same_kind(a2,a))
 
     slices = []
     order[:] = [-1] * len(self.axes)
 
     for out_i,out_a in enumerate(axes):
       #TODO: remove this special case, let Axis.map_to handle it
-      if out_a in self.axes:
-        in_i = list(self.axes).index(out_a)
+      matches = [i for i,a in enumerate(self.axes) if a == out_a]
+      if len(matches) > 0:
+        # (empty axes of related classes are all equal)
+        in_i = min(matches, key = lambda i: (self.axes[i] is not out_a, not same_kind(self.axes[i],out_a), order[i] != -1))
         slices.append(self.slices[in_i])
         order[in_i] = out_i
         continue
-- 
2.43.0


From 6d2d7b8512ee8334c1ec765481acf77b845aad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 030/138] fix: correlation over all axes

---
 pygeode/stats.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index b14b690..b6f79c7 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -133,10 +133,9 @@ def correlate(X, Y, axes=None, output = 'r,p', pbar=None):
 
   rho[dmsk] = xy[dmsk] / np.sqrt(xx*yy)[dmsk]
 
-  den = 1 - rho**2
   # Saturate the denominator (when correlation is perfect) to avoid div by zero warnings
   eps = 1e-8
-  den[den < eps] = eps
+  den = np.maximum(1 - rho**2, eps)
 
   t = np.zeros(oview.shape, 'd')
   p = np.zeros(oview.shape, 'd')
-- 
2.43.0


From 36fe127df78060a29939cc82b6b06dfc16e40283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 031/138] fix: statistics of a multiple regression over several
 remaining axes

---
 pygeode/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index b6f79c7..14b69d2 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -559,13 +559,13 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
 
   if 'p' in output:
     p = [2. * (1. - tdist.cdf(np.abs(beta[...,i]/sigbeta[i]), N_eff-Nr)) for i in range(Nr)]
-    p = np.transpose(np.array(p), [Nd] + list(range(Nd)))
+    p = np.transpose(np.array(p), list(range(1, Nd + 1)) + [0])
     p = Var(oaxes + (ra,), values=p, name='p')
     p.atts['longname'] = 'p-values'
     rvs.append(p)
 
   if 'sb' in output:
-    sigbeta = np.transpose(np.array(sigbeta), [Nd] + list(range(Nd)))
+    sigbeta = np.transpose(np.array(sigbeta), list(range(1, Nd + 1)) + [0])
     sb = Var(oaxes + (ra,), values=sigbeta, name='sb')
     sb.atts['longname'] = 'standard deviation of linear coefficients'
     rvs.append(sb)
-- 
2.43.0


From 16be169e912397541caeb820bd231fcc5d2037ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 032/138] fix: read derived boolean variables without axes

---
 pygeode/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index cea5b07..b985ff3 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -294,7 +294,7 @@ class View:
 
     pbar.update(100)
 
-    assert isinstance(values,(np.ndarray,np.number)), "did not receive a valid array from %s"%repr(var)
+    assert isinstance(values,(np.ndarray,np.number,np.bool_)), "did not receive a valid array from %s"%repr(var)
 
     if values.dtype != var.dtype:
       warn ("%s is supposed to return a %s, but is returning %s"%(repr(var),var.dtype.name,values.dtype.name))
-- 
2.43.0


From ad4ae2ecd4bb597aaa074b00b716ac3b39066391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 033/138] fix: derivatives of integer variables

They were truncated to integers (and differences of unsigned data wrapped).
---
 pygeode/deriv.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pygeode/deriv.py b/pygeode/deriv.py
index 3ef8cc8..359cc92 100644
--- a/pygeode/deriv.py
+++ b/pygeode/deriv.py
@@ -38,7 +38,11 @@ class DerivativeVar (Var):
     else:
       name = 'd(UnknownVar)'
 
-    Var.__init__(self, var.axes, var.dtype, name=name, atts=var.atts, plotatts=var.plotatts)
+    # Slopes of integer data can't be stored as integers
+    import numpy as np
+    dtype = 'd' if np.dtype(var.dtype).kind in 'iub' else var.dtype
+
+    Var.__init__(self, var.axes, dtype, name=name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -77,7 +81,7 @@ class DerivativeVar (Var):
     allview = view.modify_slice(daxis, allpoints)
 
     # Get the data and axis values for these points
-    allvalues = allview.get(self.var, pbar=pbar)
+    allvalues = np.asarray(allview.get(self.var, pbar=pbar), self.dtype)
     allaxis = allview.get(self.dx)
 
     # Define a map from these unique points back to the left & right arrays
@@ -132,7 +136,11 @@ class SecondDerivativeVar (Var):
     else:
       name = 'd2(UnknownVar)'
 
-    Var.__init__(self, var.axes, var.dtype, name=name, atts=var.atts, plotatts=var.plotatts)
+    # Slopes of integer data can't be stored as integers
+    import numpy as np
+    dtype = 'd' if np.dtype(var.dtype).kind in 'iub' else var.dtype
+
+    Var.__init__(self, var.axes, dtype, name=name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -161,7 +169,7 @@ class SecondDerivativeVar (Var):
     allview = view.modify_slice(daxis, allpoints)
 
     # Get the data and axis values for these points
-    allvalues = allview.get(self.var, pbar=pbar)
+    allvalues = np.asarray(allview.get(self.var, pbar=pbar), self.dtype)
     allaxis = allview.get(self.dx)
 
     # Define a map from these unique points back to the left & right arrays
-- 
2.43.0


From 1d2f3492b00ec4e8417ca6129d54ac2a40b36596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:42 +0000
Subject: [PATCH 034/138] fix: smoothing of integer variables was truncated to
 integers

---
 pygeode/smooth.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygeode/smooth.py b/pygeode/smooth.py
index c0c70dc..3c99bfa 100644
--- a/pygeode/smooth.py
+++ b/pygeode/smooth.py
@@ -40,7 +40,10 @@ class SmoothVar (Var):
       except TypeError:
         self._convolve = sg.convolve
 
-    Var.__init__(self, var.axes, var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # Weighted averages of integer data can't be stored as integers
+    dtype = 'd' if np.dtype(var.dtype).kind in 'iub' else var.dtype
+
+    Var.__init__(self, var.axes, dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -78,7 +81,7 @@ class SmoothVar (Var):
 
     for outsl, (indata,) in loopover(self.var, aview, preserve=[saxis], pbar=pbar):
       src_shape = indata.shape[:saxis] + (src_saxislen,) + indata.shape[saxis+1:]
-      src = np.zeros(src_shape, self.var.dtype)
+      src = np.zeros(src_shape, self.dtype)
       sslo[saxis] = slice(mleft_len, src_saxislen - mright_len)
       src[tuple(sslo)] = indata
 
-- 
2.43.0


From 816cacacace5ee685d21c3405fcb99441fe509ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:42 +0000
Subject: [PATCH 035/138] fix: differencing zero times returned an empty
 variable

---
 pygeode/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/diff.py b/pygeode/diff.py
index 855b9ae..9cce616 100644
--- a/pygeode/diff.py
+++ b/pygeode/diff.py
@@ -33,7 +33,7 @@ class ForwardDifferenceVar (Var):
     if df == 'left':
       axes[daxis] = axes[daxis].slice[n:]
     else:
-      axes[daxis] = axes[daxis].slice[:-n]
+      axes[daxis] = axes[daxis].slice[:len(axes[daxis])-n]
 
     Var.__init__(self, axes, var.dtype, name=name, atts=var.atts, plotatts=var.plotatts)
   # }}}
-- 
2.43.0


From 5c95ce7f97617735987f0a78ac27340ce1c633a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 036/138] fix: cumulative sum left out the first element

It is documented to behave as numpy.cumsum, which includes it.
---
 pygeode/intgr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygeode/intgr.py b/pygeode/intgr.py
index 1f43613..5093d0f 100644
--- a/pygeode/intgr.py
+++ b/pygeode/intgr.py
@@ -100,7 +100,11 @@ class IntegrateVar (Var):
     elif self.type == 'rectr':
       dat = np.concatenate([d0, (d*data[sl2])[slr]], iaxis)
     elif self.type == 'cumsum':
-      dat = np.concatenate([d0, (data[sl2])[slr]], iaxis)
+      # Every element is summed, including the one the sum starts from
+      dat = np.array(data[slr], 'd')
+      sl0 = [slice(None)] * self.naxes
+      sl0[iaxis] = slice(0, 1)
+      dat[tuple(sl0)] += d0
 
     out = np.add.accumulate(dat, iaxis, 'd')[slr]
 
-- 
2.43.0


From 5be010c3ce1bbab619b4881295b6d85de4a056f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:56 +0000
Subject: [PATCH 037/138] fix: order of the source points when interpolating
 from a coordinate field

The order was taken from the first array only, reading beyond it when its
coordinates are missing (SystemError without an exception); arrays in another
order, or with other points missing, could not be interpolated.
---
 pygeode/interp.c | 47 ++++++++++++++++++-----------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/pygeode/interp.c b/pygeode/interp.c
index 03d0066..67b4fe7 100644
--- a/pygeode/interp.c
+++ b/pygeode/interp.c
@@ -34,32 +34,9 @@ int interpgsl (int narrays, int nxin, int nxout,
                double d_below, double d_above,
                const gsl_interp_type *type, int omit_nm)           {
 
-  int i, j, n, start, end, step, status; 
+  int i, j, n, first, start, end, step, status; 
   double *local_xin, *local_xout, *local_yin;
-  double dx, xmin, ymin, xmax, ymax;
-
-  // Check the order of the x coordinates
-  // If the order seems to be reversed, then flip the sign of the coordinates
-  if (nxin > 1) {
-    i = 0;
-    do {
-      dx = xin[i + 1] - xin[i];
-    } while (!isfinite(dx) && ++i < nxin);
-  } else {
-    dx = 1.;
-  }
-
-  if (!isfinite(dx) || dx == 0. ) { return -1; }
-  
-  if (dx < 0.) {
-    start = nxin - 1; 
-    end = -1;
-    step = -1;
-  } else {
-    start = 0;
-    end = nxin;
-    step = 1;
-  }
+  double xmin, ymin, xmax, ymax;
 
   local_xin = (double *) malloc(nxin * sizeof(double));
   local_yin = (double *) malloc(nxin * sizeof(double));
@@ -76,6 +53,18 @@ int interpgsl (int narrays, int nxin, int nxout,
   if (NULL == acc) { PyErr_SetString(PyExc_MemoryError, "Failed to allocate gsl_interp_accel object."); goto clean_err;}
 
   for (n = 0; n < narrays; n++) {
+    // Check the order of the (valid) x coordinates of this array
+    // If the order seems to be reversed, then go through them backwards
+    step = 1;
+    for (i = 0, first = -1; i < nxin; i++) {
+      if (!isfinite(yin[i]) || !isfinite(xin[i])) continue;
+      if (first == -1) { first = i; continue; }
+      if (xin[i] < xin[first]) step = -1;
+      break;
+    }
+    start = (step == 1) ? 0 : nxin - 1;
+    end = (step == 1) ? nxin : -1;
+
     // Search for nans, resort if necessary
     for (i = start, j = 0; i != end; i += step) {
       if (isfinite(yin[i]) && isfinite(xin[i])) {
@@ -89,10 +78,6 @@ int interpgsl (int narrays, int nxin, int nxout,
       }
     }
 
-    // Save extremal points for extrapolation
-    xmin = local_xin[0];
-    xmax = local_xin[j-1];
-
     if (loop_xout) {
       for (i = 0; i < nxout; i++) local_xout[i] = xout[i]; 
     }
@@ -109,6 +94,10 @@ int interpgsl (int narrays, int nxin, int nxout,
       continue;
     }
 
+    // Save extremal points for extrapolation
+    xmin = local_xin[0];
+    xmax = local_xin[j-1];
+
     interp = gsl_interp_alloc (type, j);
     if (NULL == interp) { PyErr_SetString(PyExc_MemoryError, "Failed to allocate interp object."); goto clean_err;}
 
-- 
2.43.0


From bb79e46703e7737d5aaf4c5ec8107f3d3748e3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 038/138] fix: composite windows reaching beyond the start of
 the axis

---
 pygeode/composite.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index dbd2431..15a16fd 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -30,7 +30,7 @@ class CompositeVar(Var):
 
     # Event offsets can either be specified per event or as a single offset
     if hasattr(evoff, '__len__'):
-      evoff = np.array(evoff)
+      evoff = np.array(evoff, 'i')
       mevoff = evoff.max()
       assert evoff.shape == ievents.shape, "The number of event offsets provided does not match the number of events."
     else:
@@ -39,7 +39,7 @@ class CompositeVar(Var):
 
     # Event lengths can either be specified per event or as a single length
     if hasattr(evlen, '__len__'):
-      evlen = np.array(evlen)
+      evlen = np.array(evlen, 'i')
       mevlen = (evlen - evoff + mevoff).max()
       assert evlen.shape == ievents.shape, "The number of event lengths provided does not match the number of events."
     else:
@@ -67,11 +67,9 @@ class CompositeVar(Var):
     self.mevoff = mevoff
 
     for i, (iev, el, eo) in enumerate(zip(ievents, evlen, evoff)):
-      if iev - eo < 0:
-         self.evoffs[i] += iev - eo
-         self.evlens[i] -= iev - eo
-      if iev - eo + el >= len(caxis):
-         self.evlens[i] = len(caxis) - (iev - eo)
+      # Limit the window of each event to the range of the composited axis
+      self.evoffs[i] = min(eo, iev)
+      self.evlens[i] = min(el - eo, len(caxis) - iev) + self.evoffs[i]
 
       #assert iev - eo >= 0 and iev - eo + el < len(caxis), \
          #'Event %d (i: %d) is not fully defined' % (np.where(ievents==iev)[0][0], iev)
-- 
2.43.0


From 22e4eeb26475432813a3fada5a2e428bba30e468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 039/138] fix: composites of integer variables could not be
 read

---
 pygeode/composite.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 15a16fd..85920fb 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -73,7 +73,9 @@ class CompositeVar(Var):
 
       #assert iev - eo >= 0 and iev - eo + el < len(caxis), \
          #'Event %d (i: %d) is not fully defined' % (np.where(ievents==iev)[0][0], iev)
-    Var.__init__(self, axes, dtype=var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # Points outside the source are missing
+    dtype = var.dtype if np.issubdtype(var.dtype, np.inexact) else np.dtype('d')
+    Var.__init__(self, axes, dtype=dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   #}}}
 
   def getview (self, view, pbar):
-- 
2.43.0


From fdff67b50a41e124d6a5f06b5744eae8ed79568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 040/138] fix: flattening a composite along a time axis

---
 pygeode/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 85920fb..bdff1de 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -213,7 +213,7 @@ class FlattenVar(Var):
     if inner == -1:
       if isinstance(var, CompositeVar):
          out = var.whichaxis(var.event.__class__)
-         inner = var.whichaxis(var.offset.__class__)
+         inner = out + 1   # The offset axis follows the event axis
          stride = len(var.axes[inner])
          vals = concatenate([e + var.axes[inner].values for e in var.axes[out].values])
       else:
-- 
2.43.0


From 936ef49715399e02c488398174b1e29eadb9215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 041/138] fix: flattening lost the name and attributes

---
 pygeode/composite.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index bdff1de..3639158 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -235,9 +235,7 @@ class FlattenVar(Var):
     self.stride = stride
     self.source_var = var
 
-    self.name = var.name
-
-    Var.__init__(self, axes, var.dtype)
+    Var.__init__(self, axes, var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   #}}}
 
   def getview (self, view, pbar):
-- 
2.43.0


From 5fe7f840d78692da838c444830f1b740016137e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:40 +0000
Subject: [PATCH 042/138] fix: flattened axes with repeated coordinates
 returned the wrong values

---
 pygeode/composite.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 3639158..39de5a1 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -209,7 +209,7 @@ class FlattenVar(Var):
 
   def __init__ (self, var, inner = -1, naxis=None):
   #{{{
-    from numpy import concatenate
+    from numpy import concatenate, unique, arange
     if inner == -1:
       if isinstance(var, CompositeVar):
          out = var.whichaxis(var.event.__class__)
@@ -224,6 +224,9 @@ class FlattenVar(Var):
       stride = len(var.axes[inner])
       vals = concatenate([i*stride + var.axes[inner].values for i in range(len(var.axes[out]))])
 
+    # Values can only be looked up by coordinate if these are distinct
+    if len(unique(vals)) < len(vals): vals = arange(len(vals))
+
     if naxis is None:
       if isinstance(var.axes[out], NamedAxis):
         naxis = var.axes[out].__class__(vals, var.axes[out].name)
-- 
2.43.0


From ba803ef287e401909a1bb5b879b152e4b64116ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 043/138] fix: day of the year ignored whether the year is a
 leap year

---
 pygeode/timeaxis.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 9b88766..6280a2a 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -454,9 +454,10 @@ class CalendarTime(Time):
   # (for formatvalue)
   def _getdoy (self, date):
 # {{{
-    startdate = {'month':1,'day':0,'hour':0,'minute':0,'second':0}
-    date.pop('year', 0)
-    return self.date_as_val (dates=date, startdate=startdate, units='days')
+    year = date['year'] if 'year' in date else 0 * date['day']
+    startdate = {'year':1, 'month':1, 'day':1}
+    newyear = CalendarTime.date_as_val (self, dates={'year':year}, startdate=startdate, units='days')
+    return CalendarTime.date_as_val (self, dates=dict(date, year=year), startdate=startdate, units='days') - newyear + 1
 # }}}
 
   # Number of days in a month
@@ -549,7 +550,7 @@ class CalendarTime(Time):
       d = dt['day']
       subs['d'] = '%d' % d
       subs['D'] = '%02d' % d
-      if 'year' in dt and 'year' in self.allowed_fields: subs['j'] = self._getdoy(dt)
+      if 'year' in dt and 'year' in self.allowed_fields: subs['j'] = '%d' % self._getdoy(dt)
     else:
       subs['d'], subs['D'], subs['j'] = '', '', ''
 
-- 
2.43.0


From aa2aa1bc73b82a76d9ded1606702d5c0781d37e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 044/138] fix: last days of May, August, November and leap days
 fell into the next season

---
 pygeode/timeaxis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 6280a2a..df55bb3 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -844,7 +844,8 @@ def makeSeasonalAxis(Base):
   # {{{
       import numpy as np
       year, month, day, hour, minute, second = Base._get_dates(dates)
-      doy = Base._getdoy(self, dates)         # Base season on day of the year (no support for leap years(!))
+      # Seasons consist of whole months; use the day of a common year on which the month starts
+      doy = Base._getdoy(self, {'year':0*year + 1, 'month':month, 'day':0*day + 1})
 
       if hasattr(year, '__len__'):
         season = np.zeros(len(year), 'i')
-- 
2.43.0


From 4830c0c9a810532ac106015fb89a44d5757ecd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 045/138] fix: $a and $j could not be used with dates without a
 year

---
 pygeode/timeaxis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index df55bb3..7e66619 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -535,7 +535,7 @@ class CalendarTime(Time):
       else:
         subs['Y'] = '%d' % y
     else:
-      subs['y'], subs['Y'] = '', ''
+      subs['y'], subs['a'], subs['Y'] = '', '', ''
 
     if 'month' in dt:
       mi = dt['month']
@@ -550,6 +550,7 @@ class CalendarTime(Time):
       d = dt['day']
       subs['d'] = '%d' % d
       subs['D'] = '%02d' % d
+      subs['j'] = ''
       if 'year' in dt and 'year' in self.allowed_fields: subs['j'] = '%d' % self._getdoy(dt)
     else:
       subs['d'], subs['D'], subs['j'] = '', '', ''
-- 
2.43.0


From 0e42ff15635414e37b710b9eb6966ea6040d42f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:40 +0000
Subject: [PATCH 046/138] fix: dates with seconds, such as '06:00:00 1 Jan
 1979', were not recognised

---
 pygeode/pygrc       | 4 ++--
 pygeode/timeaxis.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygeode/pygrc b/pygeode/pygrc
index 72411b3..822d066 100644
--- a/pygeode/pygrc
+++ b/pygeode/pygrc
@@ -60,7 +60,7 @@ CalendarTime.formatstr = $b $d, $Y $H:$M:$S
 #                         (1/24., '$H:$M',    '$d $b $Y'), # Larger than 1 hour
 #                         (0.   , '$H:$M:$S', '$d $b $Y')] # Less than 1 hour
 CalendarTime.parse_patterns =
-   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)$
+   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?\s|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)$
    ^(?P<year>\d+)(-(?P<month>\d{2})(-(?P<day>\d{2})(T(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?)?)?)?$
    ^(?P<year>\d+)(-(?P<day>\d{3})(T(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?)?)?$
 
@@ -70,7 +70,7 @@ Yearless.formatstr = day $d, $H:$M:$S
 #                     (1/24., '$H:$M',    'day $d'), # Larger than 1 hour
 #                     (0.  ,  '$H:$M:$S', 'day $d')] # Less than 1 hour
 Yearless.parse_patterns =
-   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d+)$
+   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?\s|^)(?P<day>\d+)$
    ^(?P<day>\d+)(T(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?)?$
 
 [Plotting]
diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 7e66619..dc50af6 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -344,7 +344,7 @@ class CalendarTime(Time):
           (0.  , '$H:$M:$S',  '$d $b $Y')] # Less than 1 hour
 
   # Regular expression used to parse times
-  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)']
+  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?\s|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)']
 
   allowed_fields = ('year', 'month', 'day', 'hour', 'minute', 'second')
 
@@ -1027,7 +1027,7 @@ class Yearless(CalendarTime):
   allowed_fields = ('day', 'hour', 'minute', 'second')
 
   # Regular expression used to parse times
-  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d{1,2})']
+  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?\s|^)(?P<day>\d{1,2})']
 
   _date_as_val = lib.date_as_val_yearless
   _val_as_date = lib.val_as_date_yearless
-- 
2.43.0


From 26bff51cd2edcd6860a33c19860f72e5c826fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 047/138] fix: impossible dates such as '31 Feb 2001' were read
 as some other date

---
 pygeode/timeaxis.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index dc50af6..de97d9b 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -653,10 +653,18 @@ class CalendarTime(Time):
         if v is not None: d[k] = int(v)
       elif k == 'month' and v is not None:
         lmonths = [m.lower() for m in months]
-        if v.lower() in lmonths:
+        if v.lower() in lmonths[1:]:
           d[k] = lmonths.index(v.lower())
         else:
           d[k] = int(v)
+
+    # Reject dates that do not exist in this calendar
+    ref = {} if 'year' not in d else {'year':d['year']}
+    secs = CalendarTime.date_as_val(self, d, startdate=ref, units='seconds')
+    norm = CalendarTime.val_as_date(self, secs, startdate=ref, units='seconds', allfields=True)
+    if any(norm[k] != v for k, v in d.items() if k != 'day' or 'month' in d or 'year' not in d):
+      raise ValueError('"%s" is not a valid date' % s)
+
     return d
 # }}}
 
-- 
2.43.0


From df1e41160923adefeb2db1d91685f554049fac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:00 +0000
Subject: [PATCH 048/138] fix: seasonal time axes with a single time could not
 be made

---
 pygeode/timeaxis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index de97d9b..a016036 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -852,7 +852,8 @@ def makeSeasonalAxis(Base):
     def _get_seasons (self, dates):
   # {{{
       import numpy as np
-      year, month, day, hour, minute, second = Base._get_dates(dates)
+      use_arrays = any(hasattr(d,'__len__') for d in dates.values())
+      year, month, day, hour, minute, second = Base._get_dates(dates, use_arrays)
       # Seasons consist of whole months; use the day of a common year on which the month starts
       doy = Base._getdoy(self, {'year':0*year + 1, 'month':month, 'day':0*day + 1})
 
-- 
2.43.0


From 940ff87d6c8b1356f9d65dfc0e6e030327b2579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:40 +0000
Subject: [PATCH 049/138] fix: days, hours, minutes and seconds were ticked
 beyond the end of the interval

---
 pygeode/timeticker.py | 103 ++++++++++++------------------------------
 1 file changed, 28 insertions(+), 75 deletions(-)

diff --git a/pygeode/timeticker.py b/pygeode/timeticker.py
index f3a59b7..1a726da 100644
--- a/pygeode/timeticker.py
+++ b/pygeode/timeticker.py
@@ -37,6 +37,18 @@ class TickGenerator:
       yield v
   # }}}
 
+  def _last_tick_before(self, val, start):
+  # {{{
+    ''' _last_tick_before(val, start) - steps from the tick at the date start
+    to the last tick prior to val, and returns its date.'''
+    v = self._taxis.date_as_val(start)
+    vn = self.next_tick(v)
+    while vn < val:
+      v = vn
+      vn = self.next_tick(v)
+    return self._taxis.val_as_date(v, allfields=True)
+  # }}}
+
   def best_mult(self, vmin, vmax, nticks):
   # {{{
     if self.mults[-1] == 'p': # 
@@ -226,26 +238,12 @@ class DayOfMonthTickGen(TickGenerator):
     date represented by val. If a tick lies on val, it returns the date of the
     previous tick.'''
 
-    def unpack(dt): return dt.get('year', 1), dt.get('month', 1), dt.get('day', 1)
-
+    # The ticks start over every month
     dt = self._taxis.val_as_date(val, allfields=True)
-    yr, mn, dy = unpack(dt)
-
-    if val > self._taxis.date_as_val({'year':yr, 'month':mn, 'day':dy}): 
-      yr, mn, dy = unpack(tu.wrapdate(self._taxis, {'year':yr, 'month':mn, 'day':dy+1}, allfields=True))
-
-    # Find first day on given multiple prior to the given day
-    from numpy import floor_divide
-    dy = floor_divide(dy - 2, self.mult) * self.mult + 1
-
-    # If we've wrapped, decrement the year
-    d = tu.wrapdate(self._taxis, {'year':yr, 'month':mn, 'day':dy}, allfields=True)
-    d1 = tu.wrapdate(self._taxis, {'year':yr, 'month':mn + 1, 'day':1}, allfields=True)
+    start = {'year':dt.get('year', 1), 'month':dt.get('month', 1), 'day':1}
+    if not val > self._taxis.date_as_val(start): start['month'] -= 1
 
-    if tu.date_diff(self._taxis, d, d1, 'days') < self.mult / 2:
-      return d1
-    else:
-      return d
+    return self._last_tick_before(val, start)
   # }}}
 
   def next_tick(self, val):
@@ -349,27 +347,12 @@ class HourTickGen(TickGenerator):
     date represented by val. If a tick lies on val, it returns the date of the
     previous tick.'''
 
-    def unpack(dt): return dt.get('year', 1), dt.get('month', 1), dt.get('day', 1), dt.get('hour', 0)
-    def pack(yr, mn, dy, hr): return {'year':yr, 'month':mn, 'day':dy, 'hour':hr}
-
+    # The ticks start over every day
     dt = self._taxis.val_as_date(val, allfields=True)
-    yr, mn, dy, hr = unpack(dt)
+    start = {'year':dt.get('year', 1), 'month':dt.get('month', 1), 'day':dt.get('day', 1), 'hour':0}
+    if not val > self._taxis.date_as_val(start): start['day'] -= 1
 
-    if val > self._taxis.date_as_val(pack(yr, mn, dy, hr)): 
-      yr, mn, dy, hr = unpack(tu.wrapdate(self._taxis, pack(yr, mn, dy, hr+1), allfields=True))
-
-    # Find first hour on given multiple prior to the given hour
-    from numpy import floor_divide
-    hr = floor_divide(hr - 1, self.mult) * self.mult
-
-    # If we've wrapped, decrement the year
-    d = tu.wrapdate(self._taxis, pack(yr, mn, dy, hr), allfields=True)
-    d1 = tu.wrapdate(self._taxis, pack(yr, mn, dy+1, 0), allfields=True)
-
-    if tu.date_diff(self._taxis, d, d1, 'hours') < self.mult / 2:
-      return d1
-    else:
-      return d
+    return self._last_tick_before(val, start)
   # }}}
 
   def next_tick(self, val):
@@ -409,27 +392,12 @@ class MinuteTickGen(TickGenerator):
     date represented by val. If a tick lies on val, it returns the date of the
     previous tick.'''
 
-    def unpack(dt): return dt.get('year', 1), dt.get('month', 1), dt.get('day', 1), dt.get('hour', 0), dt.get('minute', 0)
-    def pack(yr, mn, dy, hr, mi): return {'year':yr, 'month':mn, 'day':dy, 'hour':hr, 'minute':mi}
-
+    # The ticks start over every hour
     dt = self._taxis.val_as_date(val, allfields=True)
-    yr, mn, dy, hr, mi = unpack(dt)
-
-    if val > self._taxis.date_as_val(pack(yr, mn, dy, hr, mi)): 
-      yr, mn, dy, hr, mi = unpack(tu.wrapdate(self._taxis, pack(yr, mn, dy, hr, mi+1), allfields=True))
-
-    # Find first hour on given multiple prior to the given hour
-    from numpy import floor_divide
-    mi = floor_divide(mi - 1, self.mult) * self.mult
-
-    # If we've wrapped, decrement the year
-    d = tu.wrapdate(self._taxis, pack(yr, mn, dy, hr, mi), allfields=True)
-    d1 = tu.wrapdate(self._taxis, pack(yr, mn, dy, hr+1, 0), allfields=True)
+    start = {'year':dt.get('year', 1), 'month':dt.get('month', 1), 'day':dt.get('day', 1), 'hour':dt.get('hour', 0), 'minute':0}
+    if not val > self._taxis.date_as_val(start): start['hour'] -= 1
 
-    if tu.date_diff(self._taxis, d, d1, 'minutes') < self.mult / 2:
-      return d1
-    else:
-      return d
+    return self._last_tick_before(val, start)
   # }}}
 
   def next_tick(self, val):
@@ -470,27 +438,12 @@ class SecondTickGen(TickGenerator):
     date represented by val. If a tick lies on val, it returns the date of the
     previous tick.'''
 
-    def unpack(dt): return dt.get('year', 1), dt.get('month', 1), dt.get('day', 1), dt.get('hour', 0), dt.get('minute', 0), dt.get('second', 0)
-    def pack(yr, mn, dy, hr, mi, sc): return {'year':yr, 'month':mn, 'day':dy, 'hour':hr, 'minute':mi, 'second':sc}
-
+    # The ticks start over every minute
     dt = self._taxis.val_as_date(val, allfields=True)
-    yr, mn, dy, hr, mi, sc = unpack(dt)
-
-    if val > self._taxis.date_as_val(pack(yr, mn, dy, hr, mi, sc)): 
-      yr, mn, dy, hr, mi, sc = unpack(tu.wrapdate(self._taxis, pack(yr, mn, dy, hr, mi, sc+1), allfields=True))
-
-    # Find first hour on given multiple prior to the given hour
-    from numpy import floor_divide
-    sc = floor_divide(sc - 1, self.mult) * self.mult
+    start = {'year':dt.get('year', 1), 'month':dt.get('month', 1), 'day':dt.get('day', 1), 'hour':dt.get('hour', 0), 'minute':dt.get('minute', 0), 'second':0}
+    if not val > self._taxis.date_as_val(start): start['minute'] -= 1
 
-    # If we've wrapped, decrement the year
-    d = tu.wrapdate(self._taxis, pack(yr, mn, dy, hr, mi, sc), allfields=True)
-    d1 = tu.wrapdate(self._taxis, pack(yr, mn, dy, hr, mi+1, 0), allfields=True)
-
-    if tu.date_diff(self._taxis, d, d1, 'seconds') < self.mult / 2:
-      return d1
-    else:
-      return d
+    return self._last_tick_before(val, start)
   # }}}
 
   def next_tick(self, val):
-- 
2.43.0


From 520b22d3d50a8699bce0f05420d9a67fd41a49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:40 +0000
Subject: [PATCH 050/138] fix: ticks at seasons outside the interval

---
 pygeode/timeticker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/timeticker.py b/pygeode/timeticker.py
index 1a726da..9135375 100644
--- a/pygeode/timeticker.py
+++ b/pygeode/timeticker.py
@@ -189,7 +189,7 @@ class SeasonTickGen(TickGenerator):
     yr = dt.get('year', 1)
     sn = dt.get('season', 1)
     if val > self._taxis.date_as_val({'year':yr, 'season':sn}): 
-      dt = tu.wrapdate(self._taxis, {'year':yr, 'month':sn+1}, allfields=True)
+      dt = tu.wrapdate(self._taxis, {'year':yr, 'season':sn+1}, allfields=True)
       yr = dt.get('year', 1)
       sn = dt.get('season', 1)
 
-- 
2.43.0


From 0726fad8ddae895986d82ce37e3c7c0ee09963fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:40 +0000
Subject: [PATCH 051/138] fix: ticks at years of a seasonal time axis lay in
 the middle of winter

---
 pygeode/timeticker.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pygeode/timeticker.py b/pygeode/timeticker.py
index 9135375..395ea23 100644
--- a/pygeode/timeticker.py
+++ b/pygeode/timeticker.py
@@ -106,8 +106,7 @@ class YearTickGen(TickGenerator):
   def next_tick(self, val):
   # {{{
     d = self._taxis.val_as_date(val, allfields=True)
-    d['year'] += self.mult
-    return self._taxis.date_as_val(d)
+    return self._taxis.date_as_val({'year':d['year'] + self.mult})
   # }}}
 
   def nticks(self, vmin, vmax, mult=None):
-- 
2.43.0


From 2f2d0f892b2d325eb190601a652566b730e8d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:40 +0000
Subject: [PATCH 052/138] fix: number of ticks at days, hours, minutes and
 seconds

---
 pygeode/timeticker.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pygeode/timeticker.py b/pygeode/timeticker.py
index 395ea23..834f8a9 100644
--- a/pygeode/timeticker.py
+++ b/pygeode/timeticker.py
@@ -317,7 +317,7 @@ class DayTickGen(TickGenerator):
     d1 = self.get_tick_prior(vmin)['day']
     d2 = self.get_tick_prior(vmax)['day']
 
-    return (d2 - d1) / self.mult + 1
+    return (d2 - d1) / self.mult
   # }}}
 
 # }}}
@@ -333,11 +333,12 @@ class HourTickGen(TickGenerator):
 
   def nticks(self, vmin, vmax, mult=None):
   # {{{
-    if mult is None: mult = self.mult
+    if mult is not None: self.mult = mult
+    if 24 % self.mult != 0: return TickGenerator.nticks(self, vmin, vmax)
     d1 = self.get_tick_prior(vmin)
     d2 = self.get_tick_prior(vmax)
 
-    return tu.date_diff(self._taxis, d1, d2, units='hours') / mult
+    return tu.date_diff(self._taxis, d1, d2, units='hours') / self.mult
   # }}}
 
   def get_tick_prior(self, val):
@@ -378,11 +379,12 @@ class MinuteTickGen(TickGenerator):
 
   def nticks(self, vmin, vmax, mult=None):
   # {{{
-    if mult is None: mult = self.mult
+    if mult is not None: self.mult = mult
+    if 60 % self.mult != 0: return TickGenerator.nticks(self, vmin, vmax)
     d1 = self.get_tick_prior(vmin)
     d2 = self.get_tick_prior(vmax)
 
-    return tu.date_diff(self._taxis, d1, d2, units='minutes') / mult
+    return tu.date_diff(self._taxis, d1, d2, units='minutes') / self.mult
   # }}}
 
   def get_tick_prior(self, val):
@@ -423,11 +425,12 @@ class SecondTickGen(TickGenerator):
 
   def nticks(self, vmin, vmax, mult=None):
   # {{{
-    if mult is None: mult = self.mult
+    if mult is not None: self.mult = mult
+    if 60 % self.mult != 0: return TickGenerator.nticks(self, vmin, vmax)
     d1 = self.get_tick_prior(vmin)
     d2 = self.get_tick_prior(vmax)
 
-    nt = tu.date_diff(self._taxis, d1, d2, units='seconds') / mult
+    nt = tu.date_diff(self._taxis, d1, d2, units='seconds') / self.mult
     return nt
   # }}}
 
-- 
2.43.0


From 40194c92698ab30cad7c9153f09fcec0e01a6a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 053/138] fix: time axes with equal dates in different units
 are not also unequal

---
 pygeode/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 842da21..d121c6d 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -205,7 +205,7 @@ class Axis(Var):
   #TODO: fix inconsistency between Axis and Var, for == and !=
   #      Vars produce a boolean mask under those operations, Axes return scalar True/False
   # I.e., "lat == 30" and "(lat*1) == 30" give very different results!
-  def __ne__ (self, other): return not is_equivalent(self, other)
+  def __ne__ (self, other): return not self == other
   def __eq__ (self, other): return is_equivalent(self, other)
 
   def alleq (self, *others):
-- 
2.43.0


From bfe3d68fa34c2fd3e2d25473efbb1ed1a48fcd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 054/138] fix: time axes with large date components differing
 by one are not equal

---
 pygeode/timeaxis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index a016036..850b862 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -153,7 +153,7 @@ class Time (TAxis):
     assert len(self.auxarrays) > 0, "how is date formed?"
     # Different field values?
     for k,f in self.auxarrays.items():
-      if not np.allclose(f,other.auxarrays[k]): return False
+      if not np.array_equal(f,other.auxarrays[k]): return False
 
     return True
   # }}}
-- 
2.43.0


From 5a711d09dab626a32e1c160dcd4c65744e8566ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 055/138] fix: seasonal axes made from years and seasons keep
 their seasons when printed

---
 pygeode/timeaxis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 850b862..102cec1 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -919,6 +919,10 @@ def makeSeasonalAxis(Base):
         default = dict(year=1, month=1, day=1, hour=0, minute=0, second=0)
         startdate = dict(default, **startdate)
         if 'season' in kwargs and 'year' not in kwargs: startdate.pop('year', 0)
+      # A start date is a calendar date; without one, count from the start of the first year
+      elif 'season' in kwargs:
+        startdate = dict(month=1, day=1, hour=0, minute=0, second=0)
+        if 'year' in kwargs: startdate['year'] = kwargs['year'][0]
 
       # Use days as default units
       if units is None: units = 'days'
-- 
2.43.0


From bf491b78c5a92a4d96e7a61441b25a34c11124c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 056/138] fix: date ranges with a fractional step have the
 right length

---
 pygeode/timeaxis.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 102cec1..d3dccd6 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -1075,6 +1075,16 @@ class Yearless(CalendarTime):
 
 # Helper functions
 
+# Number of steps which start before n (or, if inc is True, before n + step),
+# allowing for round-off in the division
+def _nsteps(n, step, inc):
+# {{{
+  import numpy as np
+  m = n / step
+  if abs(m - np.round(m)) < 1e-6: m = np.round(m)
+  return max(int(np.ceil(m)) + (1 if inc else 0), 0)
+# }}}
+
 def standardtimerange(start, end, step=1, units='days', ref=None, inc=False):
 # {{{
   r'''Creates a :class:`StandardTime` axis for the period from start to end.
@@ -1102,8 +1112,7 @@ def standardtimerange(start, end, step=1, units='days', ref=None, inc=False):
   else: f = tdum.str_as_date(None, ref)
   n = date_diff(tdum, s, e, units)
   o = date_diff(tdum, f, s, units)
-  if inc: vals = np.arange(0, n + step, step) + o
-  else: vals = np.arange(0, n, step) + o
+  vals = np.arange(_nsteps(n, step, inc)) * step + o
   return StandardTime(values=vals, units=units, startdate=f)
 # }}}
 
@@ -1131,7 +1140,7 @@ def standardtimen(start, n, step=1, units='days', ref=None):
   if ref is None: f = s
   else: f = tdum.str_as_date(None, ref)
   o = date_diff(tdum, f, s, units)
-  vals = np.arange(0, n*step, step) + o
+  vals = np.arange(n) * step + o
   return StandardTime(values=vals, units=units, startdate=f)
 # }}}
 
@@ -1162,8 +1171,7 @@ def modeltime365range(start, end, step=1, units='days', ref=None, inc=False):
   else: f = tdum.str_as_date(None, ref)
   n = date_diff(tdum, s, e, units)
   o = date_diff(tdum, f, s, units)
-  if inc: vals = np.arange(0, n + step, step) + o
-  else: vals = np.arange(0, n, step) + o
+  vals = np.arange(_nsteps(n, step, inc)) * step + o
 
   return ModelTime365(values=vals, units=units, startdate=f)
 # }}}
@@ -1192,7 +1200,7 @@ def modeltime365n(start, n, step=1, units='days', ref=None):
   if ref is None: f = s
   else: f = tdum.str_as_date(None, ref)
   o = date_diff(tdum, f, s, units)
-  vals = np.arange(0, n*step, step) + o
+  vals = np.arange(n) * step + o
   return ModelTime365(values=vals, units=units, startdate=f)
 # }}}
 
@@ -1223,8 +1231,7 @@ def modeltime360range(start, end, step=1, units='days', ref=None, inc=False):
   else: f = tdum.str_as_date(None, ref)
   n = date_diff(tdum, s, e, units)
   o = date_diff(tdum, f, s, units)
-  if inc: vals = np.arange(0, n + step, step) + o
-  else: vals = np.arange(0, n, step) + o
+  vals = np.arange(_nsteps(n, step, inc)) * step + o
   return ModelTime360(values=vals, units=units, startdate=f)
 # }}}
 
@@ -1252,7 +1259,7 @@ def modeltime360n(start, n, step=1, units='days', ref=None):
   if ref is None: f = s
   else: f = tdum.str_as_date(None, ref)
   o = date_diff(tdum, f, s, units)
-  vals = np.arange(0, n*step, step) + o
+  vals = np.arange(n) * step + o
   return ModelTime360(values=vals, units=units, startdate=f)
 # }}}
 
@@ -1272,7 +1279,7 @@ def yearlessn(n, start=1, step=1, units='days'):
     Unit in which to define time step values. Default is 'days'.
   '''
   import numpy as np
-  vals = np.arange(0, n*step, step)
+  vals = np.arange(n) * step
   return Yearless(values=vals, units=units, startdate=dict(day=start))
 # }}}
 
-- 
2.43.0


From 27d9de993de40306c23239763f8af056375e3bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 057/138] fix: concatenating variables whose time axes denote
 the same dates in different units

---
 pygeode/concat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/concat.py b/pygeode/concat.py
index cf0e472..e194fab 100644
--- a/pygeode/concat.py
+++ b/pygeode/concat.py
@@ -25,7 +25,7 @@ class ConcatVar(Var):
     if iaxis is None:
       iaxis = []
       for i in range(naxes):
-        axmatch = [is_equivalent(axes[i], v.axes[i]) for v in vars[1:]]
+        axmatch = [is_equivalent(axes[i], v.axes[i]) or axes[i] == v.axes[i] for v in vars[1:]]
         if all(axmatch):
           # All variables share this axis - good; continue
           continue
-- 
2.43.0


From c9ba3ee9e68131bd6ec1560155da24011c216854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 058/138] fix: binned means, spreads, counts and trends of
 integer data

---
 pygeode/climat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index adda199..7353d48 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -169,12 +169,15 @@ class TimeOp(Var):
   def __init__ (self, var):
     from pygeode.var import Var
     from pygeode.timeaxis import CalendarTime
+    import numpy as np
     self.ti  = ti = var.whichaxis(CalendarTime)
     intime = var.axes[ti]
     outtime = self.get_outtime(intime)
     # Fudge the input axis?  (endow it with extra information that it normally wouldn't have?)
     new_intime = self.get_intime(intime)
     if new_intime is not intime: var = var.replace_axes({CalendarTime:new_intime})
+    # The sums, means etc. need floating-point values
+    if np.dtype(var.dtype).kind in 'biu': var = var.as_type('float64')
 
     if var.name != '': self.name = var.name + self.name_suffix1 + self.name_suffix2
 
-- 
2.43.0


From e9c2c81d1cf50ed2604bfc287e60aa7314b3c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:28 +0000
Subject: [PATCH 059/138] fix: seasonal binning of dates without years (one bin
 per season) or without months (rejected)

---
 pygeode/climat.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index 7353d48..c30ae05 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -124,17 +124,10 @@ class Seasonal(TimeMap):
 
   @classmethod
   def get_outtime (cls, intime):
-    from pygeode.timeaxis import SeasonalTAxes
     from pygeode.timeutils import _uniquify
-    try:
-      SeasonalAxis = SeasonalTAxes[intime.__class__]
-    except:
-      raise NotImplemented('Seasonal Time axis not implemented for this calendar')
 
     # Wrap in axis with a seasonal axis to allow reduction
-    outax = SeasonalAxis(values = intime.values, \
-                        startdate = intime.startdate, \
-                        units = intime.units)
+    outax = cls.get_intime(intime)
     if 'year' in outax.auxarrays:
       fields = [outax.auxarrays['year'], outax.auxarrays['season']]
       fields = _uniquify(fields)
@@ -144,21 +137,28 @@ class Seasonal(TimeMap):
       fields = _uniquify(fields)
       auxarrays = {'season':fields[0]}
 
-    return SeasonalAxis (startdate=intime.startdate, units=intime.units, **auxarrays)
+    return type(outax) (startdate=intime.startdate, units=intime.units, **auxarrays)
 
   @classmethod
   # Endow input time axis with a season (and a season-aligned year)
   def get_intime (cls, intime):
     from pygeode.timeaxis import SeasonalTAxes
-    try:
-      SeasonalAxis = SeasonalTAxes[intime.__class__]
-    except:
-      raise NotImplemented('Seasonal Time axis not implemented for this calendar')
+    if intime.__class__ not in SeasonalTAxes:
+      raise NotImplementedError('Seasonal Time axis not implemented for this calendar')
+    SeasonalAxis = SeasonalTAxes[intime.__class__]
+    assert 'month' in intime.auxarrays, 'need months to determine the season'
 
     # Wrap in axis with a seasonal axis to allow reduction
-    return SeasonalAxis(values = intime.values, \
+    outax = SeasonalAxis(values = intime.values, \
+                        startdate = intime.startdate, \
+                        units = intime.units)
+    # The dates may not have years (e.g., a climatology)
+    if 'year' not in intime.auxarrays:
+      dates = dict([k,v.copy()] for k,v in intime.auxarrays.items())
+      outax = SeasonalAxis(season = outax._get_seasons(dates)['season'], \
                         startdate = intime.startdate, \
                         units = intime.units)
+    return outax
 
 ###############################################################################
 # Define the operation that's done in the mapping
-- 
2.43.0


From b51faa9e65494ec5951e3b108d48b2e4028c9805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 060/138] fix: spread of constant data is zero, not NaN, when
 rounding leaves a negative variance

---
 pygeode/climat.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index c30ae05..2b8887c 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -253,7 +253,8 @@ class Stdev(TimeOp):
       partial_sum (data**2, slices, xx, nx2, ti, bins)
 
     x /= nx
-    var = (xx - nx*x**2) / (nx - 1)
+    # (rounding can leave a slightly negative sum of squares)
+    var = np.maximum(xx - nx*x**2, 0) / (nx - 1)
     return np.sqrt(var)
 # }}}
 
@@ -282,7 +283,8 @@ class NANStdev(TimeOp):
       nx[inodata] = np.nan
 
     x /= nx
-    var = (xx - nx*x**2) / (nx - 1)
+    # (rounding can leave a slightly negative sum of squares)
+    var = np.maximum(xx - nx*x**2, 0) / (nx - 1)
     return np.sqrt(var)
 # }}}
 
-- 
2.43.0


From 94ad223b900435d4e9b45e173492699bd8d6daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 061/138] fix: removeleapyears of times that are not in order
 of years

---
 pygeode/timeutils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 650b3a2..e447d98 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -234,9 +234,9 @@ def removeleapyears(data, omitdoy_leap=[60], omitdoy_noleap=[], new_axis_type=Mo
   year = taxis.year
   isleapyear = isinstance(taxis,StandardTime) & (year % 4 == 0) & ( (year % 100 != 0) | (year % 400 == 0) )
 
-  doy = []
-  for y in sorted(set(taxis.year)):
-    doy.extend(reltime(taxis(year=y), startdate={'year':y, 'month':1, 'day':1}, units='days')+1)
+  doy = np.empty(len(taxis))
+  for y in sorted(set(year)):
+    doy[year==y] = reltime(taxis(year=y), startdate={'year':y, 'month':1, 'day':1}, units='days')+1
   doy = np.array(np.floor(doy),dtype=int)
 
   omit_on_leap = [False] * len(taxis)
@@ -258,7 +258,9 @@ def removeleapyears(data, omitdoy_leap=[60], omitdoy_noleap=[], new_axis_type=Mo
   # Recreate the axis as the new type.
   # Convert doy (old axis) to doy (new axis)
   new_taxis_pieces = []
-  for y in sorted(set(taxis.year)):
+  order = []
+  for y in sorted(set(year)):
+    order.extend(np.nonzero((year==y) & ~omit)[0])
     # Check for leap year - use one list of omitted days or the other
     if isleapyear[taxis.year==y][0]:
       omitted_days = sorted(omitdoy_leap, reverse=True)
@@ -275,7 +277,8 @@ def removeleapyears(data, omitdoy_leap=[60], omitdoy_noleap=[], new_axis_type=Mo
 
   # Rebuild the final new axis
   # (Had to break it down by year, to do the doy arithmetic)
-  new_taxis = new_axis_type.concat(new_taxis_pieces)
+  # and put the times back in the order of the data
+  new_taxis = new_axis_type.concat(new_taxis_pieces).slice[np.argsort(order)]
 
   # Replace the time axis of the data
   data = data.replace_axes(time = new_taxis)
-- 
2.43.0


From 6bd456271a43081cae33b85ce9738f75a601bd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 062/138] fix: lagging and splitting the time axis of integer
 data

---
 pygeode/timeutils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index e447d98..25358ed 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -309,7 +309,10 @@ class LagVar(Var):
     axes = var.axes[:self.iaxis+1] + (lag, ) + var.axes[self.iaxis+1:]
     self.var = var
 
-    Var.__init__(self, axes, dtype=var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # Missing values can not be represented by integers
+    dtype = var.dtype if np.issubdtype(var.dtype, np.inexact) else 'float64'
+
+    Var.__init__(self, axes, dtype=dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -416,6 +419,7 @@ class SplitTime (Var):
   def __init__ (self, var, iaxis):
 # {{{
     from pygeode.var import copy_meta, Var
+    import numpy as np
 
     # Get the time axis to split
     iaxis = var.whichaxis(iaxis)
@@ -429,7 +433,10 @@ class SplitTime (Var):
 
     copy_meta(var,self)
 
-    Var.__init__(self, axes=axes, dtype=var.dtype)
+    # Missing values can not be represented by integers
+    dtype = var.dtype if np.issubdtype(var.dtype, np.inexact) else 'float64'
+
+    Var.__init__(self, axes=axes, dtype=dtype)
 
     self.iaxis = iaxis
     self.var = var
@@ -457,7 +464,7 @@ class SplitTime (Var):
 
     # Start with a field of NaNs
     out = np.empty(view.shape, dtype=self.dtype)
-    out[()] = float('NaN')  # will fail horribly if we have integer data.
+    out[()] = float('NaN')
 
     # Get some input data
     inview = view.remove(iaxis+1).replace_axis(iaxis, in_taxis, sl=in_sl)
-- 
2.43.0


From bc29474df228399e94f478faf8f73cf6a2ae5d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 063/138] fix: map time axes whose dates differ but fall on the
 same instant (Feb 29 of a common year)

---
 pygeode/timeaxis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index d3dccd6..3115224 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -204,12 +204,13 @@ class Time (TAxis):
       myvalues = self.values
       othervalues = other.values
       nfields = 1
+      isrt = np.argsort(self.values)
     else:
       myvalues = np.vstack(self_f).transpose()
       othervalues = np.vstack(other_f).transpose()
       nfields = len(self_f)
-
-    isrt = np.argsort(self.values)
+      # (in order of the fields; different fields can have the same value)
+      isrt = _argsort(self_f)
     #iinv = np.argsort(isrt)
 
     indices = np.empty(len(other), 'int32')
-- 
2.43.0


From fbe171095b5041abf3700da7b134c13f059b798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 064/138] fix: joined time axes with year axes of any name

---
 pygeode/timeutils.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 25358ed..a6cf07c 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -529,21 +529,20 @@ class JoinTime(Var):
     yaxis = self.yaxis
     daxis = self.daxis
 
-    # Get the requested times.
-    # Since the time axis is in the same position as 'years' when comparing
-    # the input and output vars, we can do:
-    taxis = yaxis
-    times = view.subaxis(taxis)
-
-    # Determine which years and (day-of-year?) these times correspond to
-    years, days = _splittime(times)
-
     # The full input years/days
     in_years = self.var.getaxis(yaxis)
     in_days = self.var.getaxis(daxis)
 
+    # Determine which years and days the requested times correspond to.
+    # The time axis is in the same position as 'years' when comparing
+    # the input and output vars, and goes through all days of each year.
+    taxis = yaxis
+    iyears, idays = np.divmod(view.integer_indices[taxis], len(in_days))
+    years, iyears = np.unique(iyears, return_inverse=True)
+    days, idays = np.unique(idays, return_inverse=True)
+
     # Get the input data
-    inview = view.replace_axis(taxis, years).add_axis(daxis, days,slice(None))
+    inview = view.replace_axis(taxis, in_years, sl=years).add_axis(daxis, in_days, days)
     data = inview.get(self.var, pbar=pbar)
 
     # Reshape the data so it has a single time axis.
@@ -556,12 +555,9 @@ class JoinTime(Var):
 
     # Now, we may have slightly more data than we actually need
     # (e.g., we may not actually want data at the start of the first year)
-    # Define a time axis that represents *all* the data we just got:
-    uber_time = _jointime(years, days)
-
     # Slice out what we actually wanted from this
     slices = [slice(None)] * data.ndim
-    slices[taxis] = uber_time.map_to(times)
+    slices[taxis] = iyears*len(days) + idays
     return data[tuple(slices)]
 # }}}
 # }}}
-- 
2.43.0


From 3f4434ad47f6985df29a3c300c586feae53e4d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:16 +0000
Subject: [PATCH 065/138] fix: packing truncated values, and could not pack
 missing values or constant fields

---
 pygeode/formats/__init__.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pygeode/formats/__init__.py b/pygeode/formats/__init__.py
index 4645640..3a2f35d 100644
--- a/pygeode/formats/__init__.py
+++ b/pygeode/formats/__init__.py
@@ -35,9 +35,11 @@ class PackVar(Var):
     # algorithm described in the NetCDF Operator documentation
     dtype = np.int16
 
-    min = var.nanmin()
-    max = var.nanmax()
-    self.scale = (max - min) / (2**16 - 2.)
+    min = float(var.nanmin())
+    max = float(var.nanmax())
+    # A field with a single value, or without any
+    if np.isnan(min) or np.isnan(max): min, max = 0., 0.
+    self.scale = (max - min) / (2**16 - 2.) if max > min else 1.
     self.offset = 0.5 * (min + max)
 
     Var.__init__(self, var.axes, dtype=dtype)
@@ -46,11 +48,19 @@ class PackVar(Var):
     self.atts['packing_convention'] = 'NetCDF (16 bit)'
     self.atts['scale_factor'] = self.scale
     self.atts['add_offset'] = self.offset
+    # Missing values are packed as the one value which isn't otherwise used
+    self.fillvalue = dtype(-2**15)
+    for name in ('FillValue', 'missing_value'): self.atts.pop(name, None)
+    self.atts['_FillValue'] = self.fillvalue
   # }}}
 
   def getview (self, view, pbar):
   # {{{
-    return ((view.get(self.var, pbar) - self.offset) / self.scale).astype(self.dtype)
+    import numpy as np
+    data = np.asarray(view.get(self.var, pbar), 'float64')
+    missing = np.isnan(data)
+    data = np.rint((np.where(missing, self.offset, data) - self.offset) / self.scale)
+    return np.where(missing, self.fillvalue, data).astype(self.dtype)
   # }}}
 
 def autodetectformat(filename):
-- 
2.43.0


From 6081710929336689e79f95faf84e0df9f8aab23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:30 +0000
Subject: [PATCH 066/138] fix: opening time axes whose start date has a
 negative year or day

---
 pygeode/formats/cfmeta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 6ad79c9..e19d4e9 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -397,9 +397,9 @@ def decode_cf (dataset, ignore=[]):
       # Extract the rest of the date
       date = date.rstrip()
       year, month, day, hour, minute, second = 0,1,1,0,0,0
-      if len(date) > 0: year, date = re.match("(\d+)-?(.*)", date).groups()
+      if len(date) > 0: year, date = re.match("(-?\d+)-?(.*)", date).groups()
       if len(date) > 0: month, date = re.match("(\d+)-?(.*)", date).groups()
-      if len(date) > 0: day, date = re.match("(\d+)\s*(.*)", date).groups()
+      if len(date) > 0: day, date = re.match("(-?\d+)\s*(.*)", date).groups()
       if date.startswith('T'): date = date[1:]
       if len(date) > 0: hour, date = re.match("(\d+):?(.*)", date).groups()
       if len(date) > 0: minute, date = re.match("(\d+):?(.*)", date).groups()
-- 
2.43.0


From 2da49c3c598f58080901efa37e7ef5afe6055f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:43 +0000
Subject: [PATCH 067/138] fix: weights and other associated arrays of time axes
 were lost when saving

---
 pygeode/formats/cfmeta.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index e19d4e9..662032d 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -184,8 +184,12 @@ def encode_cf (dataset):
     #TODO: check 'units' attribute of the time axis, use that in the 'units' of the netcdf metadata
     if isinstance(a, Time):
       #TODO: cast into an integer array if possible
-      axisdict[name] = NamedAxis(values=reltime(a), name=name, atts=atts, plotatts=plotatts)
-      continue
+      # The dates are encoded in the values, so only other arrays (such as weights) need to be stored
+      coords = reltime(a)
+      auxarrays = dict((aux,v) for aux,v in a.auxarrays.items() if aux not in a.allowed_fields)
+    else:
+      coords = a.values
+      auxarrays = a.auxarrays
 
     # Encode non-coordinate axes, including station (timeseries) data.
     # Loosely follow http://cfconventions.org/cf-conventions/v1.6.0/cf-conventions.html#_orthogonal_multidimensional_array_representation_of_time_series
@@ -258,7 +262,6 @@ def encode_cf (dataset):
         atts['standard_name'] = n
 
     # Add associated arrays as new variables
-    auxarrays = a.auxarrays
     for aux,values in auxarrays.items():
       auxname = name+'_'+aux
       assert not any(v.name == auxname for v in varlist), "already have a variable named %s"%auxname
@@ -268,7 +271,7 @@ def encode_cf (dataset):
 
     # Create new, generic axes with the desired attributes
     # (Replaces the existing entry in the dictionary)
-    axisdict[name] = NamedAxis(values=a.values, name=name, atts=atts, plotatts=plotatts)
+    axisdict[name] = NamedAxis(values=coords, name=name, atts=atts, plotatts=plotatts)
 
   # Apply these new axes to the variables
   for i,oldvar in enumerate(list(varlist)):
@@ -409,7 +412,9 @@ def decode_cf (dataset, ignore=[]):
       year, month, day, hour, minute, second = list(map(int, [year, month, day, hour, minute, float(second)]))
       # Create the time axis
       startdate={'year':year, 'month':month, 'day':day, 'hour':hour, 'minute':minute, 'second':second}
-      axisdict[name] = cls(a.values, startdate=startdate, units=res, name=name, atts=atts)
+      # (the dates come from the values, so leave out arrays which look like dates)
+      aux = dict((k,v) for k,v in aux.items() if k not in cls.allowed_fields)
+      axisdict[name] = cls(a.values, startdate=startdate, units=res, name=name, atts=atts, **aux)
       # Special case: start year=0 implies a climatology
       #NOTE: 'climatology' attribute not used, since we don't currently keep
       #      track of the interval that was used for the climatology.
-- 
2.43.0


From cf24a99bce6a28b170b8c195990a46b9defe666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:33 +0000
Subject: [PATCH 068/138] fix: removing fields of a time axis lost its name,
 attributes and weights

---
 pygeode/timeutils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index a6cf07c..486337f 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -77,8 +77,13 @@ def modify (taxis, resolution=None, exclude=[], include=[], uniquify=False):
   # Get a dictionary for the fields
   fields = dict([name,f] for name,f in zip(fnames,fields))
 
+  # Arrays which aren't dates are kept
+  if not uniquify and len(include) == 0:
+    for k,v in taxis.auxarrays.items():
+      if k not in taxis.allowed_fields and k not in exclude: fields[k] = v
+
   kwargs = dict(taxis.auxatts, **fields)
-  return type(taxis)(**kwargs)
+  return type(taxis)(name=taxis.name, atts=taxis.atts, plotatts=taxis.plotatts, **kwargs)
 # }}}
 
 
-- 
2.43.0


From 34273411454dad6c3ac8fb173840dc8b0d7f94a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:33 +0000
Subject: [PATCH 069/138] fix: variables named like an associated array of some
 axis were dropped when opening

---
 pygeode/formats/cfmeta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 662032d..200d573 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -453,7 +453,9 @@ def decode_cf (dataset, ignore=[]):
 
     # Anything that got attached to this axis should be removed from the
     # list of variables, since it's just extra info specific to the axis.
-    varlist = [v for v in varlist if v.name not in aux]
+    # (but not another variable which just shares its name with an array found above)
+    attached = [dep.name for dep in dependencies]
+    varlist = [v for v in varlist if v.name not in attached]
 
 
     # put the units back (if we didn't use them)?
-- 
2.43.0


From 79913d8b2d6ef3fed41f925ae1001eaa6d452fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:33 +0000
Subject: [PATCH 070/138] fix: associated arrays of generic axes were lost when
 opening

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 200d573..c296908 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -462,7 +462,7 @@ def decode_cf (dataset, ignore=[]):
     if cls in [Axis, NamedAxis, XAxis, YAxis, ZAxis, TAxis] and _units != '': atts['units'] = _units
 
     # create new axis instance if need be.
-    if cls != type(a):
+    if cls != type(a) or len(aux) > 0:
       axisdict[name] = cls(values=a.values, name=name, atts=atts, **aux)
 
   # Apply these new axes to the variables
-- 
2.43.0


From 39e2c14542e3b0f6a78fa66668404f7c3ad3419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:33 +0000
Subject: [PATCH 071/138] fix: associated arrays of stations with names such as
 't' or 'la' were lost when saving

---
 pygeode/formats/cfmeta.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index c296908..48676bc 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -215,8 +215,6 @@ def encode_cf (dataset):
         extra_vars.append(lon)
         coordinates.append('lon')
 
-      coordinates = " ".join(coordinates)
-
       # Encode other auxarrays as generic "ancillary" arrays.
       ancillary_variables = []
       for auxname in list(a.auxarrays.keys()):
@@ -239,7 +237,7 @@ def encode_cf (dataset):
           var = copy(var)
           var.atts = copy(var.atts)
           if len(coordinates) > 0:
-            var.atts['coordinates'] = coordinates
+            var.atts['coordinates'] = " ".join(coordinates)
           if len(ancillary_variables) > 0:
             var.atts['ancillary_variables'] = ancillary_variables
           varlist[i] = var
-- 
2.43.0


From 10275ccaf2c8aab4b59e248da9700387f99acc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:34 +0000
Subject: [PATCH 072/138] fix: an attribute which can't be written dropped the
 attributes after it

---
 pygeode/formats/netcdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 8ba1397..6cea202 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -115,10 +115,10 @@ def put_attributes (fileid, varid, atts, version):
       # Drop unsupported data types
       if value.dtype.name.startswith('string'):
         warn ("no support for writing attributes containing an array of strings", stacklevel=3)
-        return
+        continue
       if value.dtype.name not in nc_type[version]:
         warn ("skipping attribute %s = %s  (unsupported type %s)"%(name,value,value.dtype.name), stacklevel=3)
-        return
+        continue
       # Scalar?
       if value.shape == (): value = value.reshape([1])
       vtype = nc_type[version][value.dtype.name]
-- 
2.43.0


From 916e86e4f4ec64ff7766138d324df2cb473cb6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:34 +0000
Subject: [PATCH 073/138] fix: large unsigned integers were wrapped when saving

---
 pygeode/formats/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 6cea202..b300bb7 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -20,7 +20,7 @@ NC_MAX_VAR_DIMS = NC_MAX_DIMS
 
 nc_type_v3 = {'int8':1, 'string8':2, 'bytes8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':3, 'uint16':4,
-           'uint32':4, 'int64':6, 'uint64':6}
+           'uint32':6, 'int64':6, 'uint64':6}
 
 nc_type_v4 = {'int8':1, 'string8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':7, 'uint16':8,
-- 
2.43.0


From 1ef3b1b942f3605ac60f6a5190bd550d87258ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:34 +0000
Subject: [PATCH 074/138] fix: saving scalars with compression

---
 pygeode/formats/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index b300bb7..d2f4046 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -479,7 +479,7 @@ def save (filename, in_dataset, version=3, pack=None, compress=False, cfmeta = T
       ret = lib.nc_def_var (fileid, var.name.encode('ascii'), t, var.naxes, d, byref(varids[i]))
       assert ret == 0, lib.nc_strerror(ret)
       # Compress the data? (only works for netcdf4 or (higher?))
-      if compress:
+      if compress and var.naxes > 0:
         ret = lib.nc_def_var_deflate (fileid, varids[i], 1, 1, 2)
         assert ret == 0, lib.nc_strerror(ret)
 
-- 
2.43.0


From 8bc2909dfd98a5494f295abb16f97f5e92da1fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:34 +0000
Subject: [PATCH 075/138] fix: fill value 0 was ignored

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 48676bc..fba9ade 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -473,7 +473,7 @@ def decode_cf (dataset, ignore=[]):
     atts = oldvar.atts.copy()
     plotatts = oldvar.atts.copy()
     fillvalue = [atts.pop(f,None) for f in ('FillValue', '_FillValue', 'missing_value')]
-    fillvalue = [_f for _f in fillvalue if _f]
+    fillvalue = [_f for _f in fillvalue if _f is not None]
     fillvalue = fillvalue[0] if len(fillvalue) > 0 else None
     scale = atts.pop('scale_factor', None)
     offset = atts.pop('add_offset', None)
-- 
2.43.0


From ea0d926aac5c97251ffc28c0a22aa9a778406eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:34 +0000
Subject: [PATCH 076/138] fix: attributes of opened variables were copied to
 their plotting attributes

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index fba9ade..b451118 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -471,7 +471,7 @@ def decode_cf (dataset, ignore=[]):
 #    name = [n for n,v in dataset.vardict.iteritems() if v is oldvar].pop()
     name = oldvar.name
     atts = oldvar.atts.copy()
-    plotatts = oldvar.atts.copy()
+    plotatts = oldvar.plotatts.copy()
     fillvalue = [atts.pop(f,None) for f in ('FillValue', '_FillValue', 'missing_value')]
     fillvalue = [_f for _f in fillvalue if _f is not None]
     fillvalue = fillvalue[0] if len(fillvalue) > 0 else None
-- 
2.43.0


From c4cd939297851f848940d2facabe0a8e11a867a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:34 +0000
Subject: [PATCH 077/138] fix: variables along some dimension were taken for
 the coordinates of another dimension with their name

---
 pygeode/formats/netcdf.py  | 1 +
 pygeode/formats/netcdf4.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index d2f4046..c8ed7e2 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -301,6 +301,7 @@ def dims2axes (dataset):
       # Get the var
       var = dataset[dim.name]
       if var.naxes != 1: continue  # abort if we have > 1 dimension
+      if var.axes[0].name != dim.name: continue  # not defined along the dimension itself
       # Turn it into a proper axis
       axis = NamedAxis (name=var.name, values=var.get())  # need the values pre-loaded for axes
       copy_meta (var, axis)
diff --git a/pygeode/formats/netcdf4.py b/pygeode/formats/netcdf4.py
index 4600d26..f1cb9bd 100644
--- a/pygeode/formats/netcdf4.py
+++ b/pygeode/formats/netcdf4.py
@@ -183,6 +183,7 @@ def dims2axes (dataset):
       # Get the var
       var = dataset[dim.name]
       if var.naxes != 1: continue  # abort if we have > 1 dimension
+      if var.axes[0].name != dim.name: continue  # not defined along the dimension itself
       # Turn it into a proper axis
       axis = NamedAxis (name=var.name, values=var.get())  # need the values pre-loaded for axes
       copy_meta (var, axis)
-- 
2.43.0


From 7326b09cd4625bd27cb77582ac6f53e50e16f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:51 +0000
Subject: [PATCH 078/138] fix: opening double precision data or large integers
 with a fill value or scale lost precision

---
 pygeode/formats/cfmeta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index b451118..b52aa21 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -20,13 +20,16 @@ from pygeode.var import Var
 class var_newaxes (Var):
   def __init__(self, var, newaxes, name=None, fillvalue=None, scale=None, offset=None, atts={}, plotatts={}):
     from pygeode.var import Var, copy_meta 
+    import numpy as np
     atts = atts.copy()
     plotatts = plotatts.copy()
     assert len(newaxes) == len(var.axes)
     for a1, a2 in zip(newaxes, var.axes): assert len(a1) == len(a2)
     self.var = var
     dtype = var.dtype
-    if fillvalue is not None or scale is not None or offset is not None: dtype = 'float32'
+    if fillvalue is not None or scale is not None or offset is not None:
+      # Single precision, unless that would lose some of the precision of the data
+      dtype = np.result_type(var.dtype, 'float32') if var.dtype.kind in 'iuf' else 'float32'
     self.fillvalue = fillvalue
     self.scale = scale
     self.offset = offset
-- 
2.43.0


From 6b3c714b706ed4734aab2604b66b4a87a876b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 079/138] fix: scalars with a fill value could not be read

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index b52aa21..fc678a0 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -51,7 +51,7 @@ class var_newaxes (Var):
     data = View(self.var.axes, force_slices=view.slices,
                 force_integer_indices=view.integer_indices).get(self.var, pbar=pbar)
     if fillvalue is not None or scale is not None or offset is not None: data = np.copy(data)
-    if fillvalue is not None: w = np.where(data==fillvalue)
+    if fillvalue is not None: w = (data == fillvalue)
     data = np.asarray(data, self.dtype)
     if scale is not None: data *= scale
     if offset is not None: data += offset
-- 
2.43.0


From 6477cd349227805bb0ee63fa10d6fdb002c63aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 080/138] fix: files whose coordinates have a number as
 long_name or units could not be opened

---
 pygeode/formats/cfmeta.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index fc678a0..a6955d0 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -362,9 +362,13 @@ def decode_cf (dataset, ignore=[]):
 
     # Check specific standard names, and also units?
     #TODO: don't *pop* the standard_name, units, etc. until the end of this routine - in case we didn't end up mapping them to an axis
-    _ln = atts.get('long_name', a.name).lower()
-    _st = atts.get('standard_name',_ln).lower()
+    # (these may be numbers as well)
+    _ln = str(atts.get('long_name', a.name)).lower()
+    _st = str(atts.get('standard_name',_ln)).lower()
     _units = atts.pop('units','')
+    if not isinstance(_units, str):
+      atts['units'] = _units  # not used
+      _units = ''
     if _st == 'latitude' or _units == 'degrees_north': cls = Lat
     if _st == 'longitude' or _units == 'degrees_east': cls = Lon
     if _st == 'air_pressure' or _units in ('hPa','mbar'):
-- 
2.43.0


From 1dab5721a4bc47f9fefdd26e655547a79b473395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 081/138] fix: saving station names in netCDF version 4

---
 pygeode/formats/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index c8ed7e2..6fb4e49 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -22,7 +22,7 @@ nc_type_v3 = {'int8':1, 'string8':2, 'bytes8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':3, 'uint16':4,
            'uint32':6, 'int64':6, 'uint64':6}
 
-nc_type_v4 = {'int8':1, 'string8':2, 'int16':3, 'int32':4,
+nc_type_v4 = {'int8':1, 'string8':2, 'bytes8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':7, 'uint16':8,
            'uint32':9, 'int64':10, 'uint64':11}
 
-- 
2.43.0


From 3a25a8478f42cfc510904dca2478f72566a50dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:02 +0000
Subject: [PATCH 082/138] fix: attributes of text variables were lost when
 opening

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index a6955d0..71839a6 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -107,7 +107,7 @@ def decode_string_var (var):
     name = name[:-5]
   data = [''.encode('ascii').join(s) for s in var.get()]
   data = [str(s.decode()) for s in data]
-  return Var(axes=var.axes[:-1], values=data, name=name)
+  return Var(axes=var.axes[:-1], values=data, name=name, atts=var.atts)
 
 
 ###############################################################################
-- 
2.43.0


From 42c0d253accd79336cb8bc9275e91618b7d59034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:02 +0000
Subject: [PATCH 083/138] fix: station axes of another name were not recognised
 when opening

---
 pygeode/formats/cfmeta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 71839a6..11b4d80 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -226,7 +226,7 @@ def encode_cf (dataset):
         if var.dtype.name.startswith('str'):
           var = encode_string_var(var)
         # Some extra CF encoding for the station name, to use it as the unique identifier.
-        if auxname == 'station':
+        if auxname == 'station' and isinstance(a, Station):
           var.atts = dict(cf_role = "timeseries_id")
         extra_vars.append(var)
         ancillary_variables.append(auxname)
@@ -452,6 +452,8 @@ def decode_cf (dataset, ignore=[]):
     # "dummy" axis.
     if issubclass(cls, DummyAxis) and len(dependencies) > 0:
       cls = NonCoordinateAxis
+      # Station names?
+      if any(dep.atts.get('cf_role') == 'timeseries_id' for dep in dependencies): cls = Station
 
     # Attach the information from these dependent variables as auxiliary arrays.
     aux.update((dep.name,dep.get()) for dep in dependencies)
-- 
2.43.0


From 762bd7b1443f19bc1d79780ada99ab5dcd07b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:07 +0000
Subject: [PATCH 084/138] fix: saving variables with two station axes lost the
 arrays of the first

---
 pygeode/formats/cfmeta.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 11b4d80..2b5405e 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -231,18 +231,17 @@ def encode_cf (dataset):
         extra_vars.append(var)
         ancillary_variables.append(auxname)
 
-      ancillary_variables = " ".join(ancillary_variables)
-
       # Attach these coordinates to all variables that use this axis.
       #TODO: cleaner way of adding this information without having to do a shallow copy.
       for i,var in enumerate(varlist):
         if var.hasaxis(a):
           var = copy(var)
           var.atts = copy(var.atts)
-          if len(coordinates) > 0:
-            var.atts['coordinates'] = " ".join(coordinates)
-          if len(ancillary_variables) > 0:
-            var.atts['ancillary_variables'] = ancillary_variables
+          # (there may be more than one such axis)
+          for att, names in (('coordinates', coordinates), ('ancillary_variables', ancillary_variables)):
+            if len(names) == 0: continue
+            old = str(var.atts.get(att, '')).split()
+            var.atts[att] = " ".join(old + [n for n in names if n not in old])
           varlist[i] = var
 
       # Add these coordinates / ancillary variables to the output.
-- 
2.43.0


From 8441408aa931cc7ea74430714d49b6090abe500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:57 +0000
Subject: [PATCH 085/138] fix: station numbers were lost when opening

---
 pygeode/formats/cfmeta.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 2b5405e..986a736 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -457,6 +457,11 @@ def decode_cf (dataset, ignore=[]):
     # Attach the information from these dependent variables as auxiliary arrays.
     aux.update((dep.name,dep.get()) for dep in dependencies)
 
+    # The coordinates of such an axis (e.g. station numbers) are replaced by
+    # dummy indices, so keep the original values.
+    if issubclass(cls, NonCoordinateAxis) and not isinstance(a, DummyAxis):
+      aux.setdefault(name, a.values)
+
     # Anything that got attached to this axis should be removed from the
     # list of variables, since it's just extra info specific to the axis.
     # (but not another variable which just shares its name with an array found above)
-- 
2.43.0


From 430b2c9977edc7258e13363f686a0890cbff1f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:48 +0000
Subject: [PATCH 086/138] fix: an axis given for a dimension overrode another
 variable of that name

---
 pygeode/formats/netcdf.py  | 3 ++-
 pygeode/formats/netcdf4.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 6fb4e49..0c1f0b9 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -377,7 +377,8 @@ def open(filename, value_override = {}, dimtypes = {}, namemap = {},  varlist =
   #  but we might as well use something relevant).
   value_override = dict(value_override)  # don't use  the default (static) empty dict
   for k,v in list(dimtypes.items()):
-    if isinstance(v,Axis):
+    # (only the coordinates of the dimension, not another variable of that name)
+    if isinstance(v,Axis) and k in dataset.vardict and [a.name for a in dataset[k].axes] == [k]:
       value_override[k] = v.values
 
   #### Filters to apply to the data ####
diff --git a/pygeode/formats/netcdf4.py b/pygeode/formats/netcdf4.py
index f1cb9bd..564ad71 100644
--- a/pygeode/formats/netcdf4.py
+++ b/pygeode/formats/netcdf4.py
@@ -245,7 +245,8 @@ def open(filename, value_override = {}, dimtypes = {}, namemap = {},  varlist =
       #  but we might as well use something relevant).
       value_override = dict(value_override)  # don't use  the default (static) empty dict
       for k,v in list(dimtypes.items()):
-        if isinstance(v,Axis):
+        # (only the coordinates of the dimension, not another variable of that name)
+        if isinstance(v,Axis) and k in dataset.vardict and [a.name for a in dataset[k].axes] == [k]:
           value_override[k] = v.values
     
       #### Filters to apply to the data ####
-- 
2.43.0


From a507edcbd5313f134771d33207e3aae0306a0e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:48 +0000
Subject: [PATCH 087/138] fix: axes given or renamed when opening were matched
 by kind instead of by name

---
 pygeode/formats/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/__init__.py b/pygeode/formats/__init__.py
index 3a2f35d..c633a57 100644
--- a/pygeode/formats/__init__.py
+++ b/pygeode/formats/__init__.py
@@ -253,7 +253,8 @@ def set_axistypes (dataset, dimtypes):
     assert len(axis) == len(oldaxis), "expected axis of length %s, ended up with axis of length %s"%(len(oldaxis),len(axis))
     replacements[name] = axis
 
-  return dataset.replace_axes(axisdict=replacements)
+  # Match the axes by their exact names (not by what other kinds of axes may be known as)
+  return dataset.map(lambda v: v.replace_axes(newaxes=[replacements.get(a.name, a) for a in v.axes]))
 # }}}
 
 # Apply variable whitelist to a dataset (only keep specific variables)
@@ -286,8 +287,9 @@ def finalize_open(dataset, dimtypes = {}, namemap = {}, varlist = [], cfmeta = T
   # Rename variables?
   if len(namemap) > 0:
     # Check both axes and variables
+    # (match the axes by their exact names, not by what other kinds of axes may be known as)
     dataset = dataset.rename_vars(vardict=namemap)
-    dataset = dataset.rename_axes(axisdict=namemap)
+    dataset = dataset.map(lambda v: v.replace_axes(newaxes=[a.rename(namemap[a.name]) if a.name in namemap else a for a in v.axes]))
 
   return dataset
 # }}}
-- 
2.43.0


From c70daae76e9bd32462f4ebf220c16ade94247bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:48 +0000
Subject: [PATCH 088/138] fix: opening axes without years got a year and month
 they do not have

---
 pygeode/formats/cfmeta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 986a736..75df3d6 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -416,13 +416,15 @@ def decode_cf (dataset, ignore=[]):
       year, month, day, hour, minute, second = list(map(int, [year, month, day, hour, minute, float(second)]))
       # Create the time axis
       startdate={'year':year, 'month':month, 'day':day, 'hour':hour, 'minute':minute, 'second':second}
+      # (leave out parts of the date which the calendar doesn't have)
+      if cls is Yearless: startdate = dict((k,v) for k,v in startdate.items() if k in cls.allowed_fields)
       # (the dates come from the values, so leave out arrays which look like dates)
       aux = dict((k,v) for k,v in aux.items() if k not in cls.allowed_fields)
       axisdict[name] = cls(a.values, startdate=startdate, units=res, name=name, atts=atts, **aux)
       # Special case: start year=0 implies a climatology
       #NOTE: 'climatology' attribute not used, since we don't currently keep
       #      track of the interval that was used for the climatology.
-      if year == 0:
+      if year == 0 and cls is not Yearless:
         # Don't climatologize(?) the axis if there's more than a year
         if not all(axisdict[name].year == 0):
           warn ("cfmeta: data starts at year 0 (which usually indicates a climatology), but there's more than one year's worth of data!  Keeping it on a regular calendar.", stacklevel=3)
-- 
2.43.0


From f77b17e52a2bd35a1a683c3a7f2edd056f375b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:48 +0000
Subject: [PATCH 089/138] fix: station axes without other arrays could not be
 sliced

---
 pygeode/formats/cfmeta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 75df3d6..8f34a7d 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -461,7 +461,8 @@ def decode_cf (dataset, ignore=[]):
 
     # The coordinates of such an axis (e.g. station numbers) are replaced by
     # dummy indices, so keep the original values.
-    if issubclass(cls, NonCoordinateAxis) and not isinstance(a, DummyAxis):
+    # (if nothing else is known, then tell the stations apart by their numbers)
+    if issubclass(cls, NonCoordinateAxis) and (len(aux) == 0 or not isinstance(a, DummyAxis)):
       aux.setdefault(name, a.values)
 
     # Anything that got attached to this axis should be removed from the
-- 
2.43.0


From d473455893a0af49b80f12031756b12c9939b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 090/138] fix: from_files fails for file names with redundant
 separators

---
 pygeode/formats/data_scanner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 32bf1e3..ac28117 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -89,13 +89,13 @@ class _Manifest(object):
     # Special case: no files given
     if len(files) == 0: return
 
-    self.selected_files.extend(files)
-
     # Strip out extra separators, etc. from the filenames.
     # Otherwise, if the files are scanned a second time with different
     # separators, it may cause the same file to be included more than once.
     files = [normpath(f) for f in files]
 
+    self.selected_files.extend(files)
+
     if self.filename is not None:
       pbar = PBar (message = "Scanning files for %s"%self.filename)
     else:
-- 
2.43.0


From 6f264af43f23bd572c15609b95f7f3f88bca8e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 091/138] fix: from_files combines times with different units
 or start dates by their raw values

---
 pygeode/formats/data_scanner.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index ac28117..e46ef72 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -121,7 +121,7 @@ class _Manifest(object):
       table[f] = entries
       for var in opener(f):
 
-        axes = self.axis_manager.lookup_axes(var.axes)
+        axes = self.axis_manager.lookup_axes(map(self.axis_manager.with_common_date, var.axes))
         entries.append((var.name, axes, var.atts))
 
       self.modified_table = True
@@ -198,6 +198,9 @@ class AxisManager (object):
     self._all_axes = []   # List of encountered axes (so the ids don't get
                           # recycled)
 
+    # The time axes which others of that name and kind are made relative to
+    self._time_references = {}
+
     # For axes that are converted to/from a set
     self._settified_axes = {}
     self._unsettified_axes = {}
@@ -236,6 +239,17 @@ class AxisManager (object):
 
     return axis
 
+  # Helper function: express a time axis in the same units and relative to the
+  # same date as the others of that name and kind.
+  # (Only the values are considered when combining the axes)
+  def with_common_date (self, axis):
+    from pygeode.timeaxis import Time
+    from pygeode.timeutils import reltime
+    if not isinstance(axis,Time): return axis
+    ref = self._time_references.setdefault((axis.name,type(axis)),axis)
+    if axis.units == ref.units and axis.startdate == ref.startdate: return axis
+    return ref.withnewvalues(reltime(axis, startdate=ref.startdate, units=ref.units))
+
   # Register an axis in this object (so we're aware of it for future reference)
   def register_axis (self, axis):
     """
@@ -256,6 +270,7 @@ class AxisManager (object):
     Registers multiple axes at a time.
     """
     self.lookup_axes (axes)
+    for axis in axes: self.with_common_date (axis)
 
   # Convert an axis to unordered set of tuples
   def _settify_axis (self, axis):
-- 
2.43.0


From faadf0cb6f7ada99cca8a09f44c1e52aa3d623ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 092/138] fix: from_files mixes up axes of one type with the
 same values and different names

---
 pygeode/formats/data_scanner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index e46ef72..8b8b1cc 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -308,7 +308,8 @@ class AxisManager (object):
     import numpy as np
     # Check if we can already get one
     key = values
-    axis = self._unsettified_axes.setdefault(type(sample),dict()).get(key,None)
+    # (axes with other names may have the same values)
+    axis = self._unsettified_axes.setdefault((type(sample),sample.name),dict()).get(key,None)
     if axis is not None: return axis
 
     values = sorted(values)
@@ -344,7 +345,7 @@ class AxisManager (object):
 
     axis = self.lookup_axis(axis)
 
-    self._unsettified_axes[type(sample)][key] = axis
+    self._unsettified_axes[type(sample),sample.name][key] = axis
     return axis
 
   # Find common values between axes
-- 
2.43.0


From 68a1fcc2edadd6dcf9c9f8bc18b2b897993d46ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 093/138] fix: from_files drops variables when two domains
 cover the same data

---
 pygeode/formats/data_scanner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 8b8b1cc..efacb57 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -560,6 +560,8 @@ def _cleanup_subdomains (domains):
     for d2 in domains:
       if d1 is d2: continue
       assert d1 != d2
+      # (of domains that cover the same data, keep one)
+      if d2 in junk_domains: continue
       if _get_axis_names([d1]) != _get_axis_names([d2]): continue
       axis_names = _get_axis_names([d2])
       values1 = [d1.get_axis_values(a) for a in axis_names]
-- 
2.43.0


From 5ef6a34bb408d2178f50d2a754ebfe67285823a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 094/138] fix: data opened with from_files cannot be read (list
 indexing, order of axes, descending axes)

---
 pygeode/formats/data_scanner.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index efacb57..3cf8f71 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -715,40 +715,30 @@ class _DataVar(Var):
   def getview (self, view, pbar):
 
     import numpy as np
-    from pygeode.view import View, simplify
+    from pygeode.view import View
     out = np.empty(view.shape, dtype=self.dtype)
     out[()] = float('nan')
     out_axes = view.clip().axes
     # Loop over all available files.
     N = 0  # Number of points covered so far
     for filename, opener, axes in self._table:
-      subaxes = [self._axis_manager._get_axis_intersection([a1,a2]) for a1,a2 in zip(out_axes,axes)]
+      # Match up the axes by name (they may be in another order in the file)
+      axes = dict((a.name,a) for a in axes)
+      if any(a.name not in axes for a in out_axes): continue
+      subaxes = [self._axis_manager._get_axis_intersection([a,axes[a.name]]) for a in out_axes]
       reorder = []
       mask = []
       if any(len(a)==0 for a in subaxes): continue
       for a1,a2 in zip(out_axes,subaxes):
         # Figure out where the input chunk fits into the output
-        re = np.searchsorted(a2.values, a1.values)
-        # Mask out elements that we don't actually have in the chunk
-        m = [r<len(a2.values) and a2.values[r]==v for r,v in zip(re,a1.values)]
-        m = np.array(m)
-        # Convert mask to integer indices
-        m = np.arange(len(m))[m]
-        # and then to a slice (where possible)
-        m = simplify(m)
-        re = re[m]
-        # Try to simplify the re-ordering array
-        if np.all(re == np.sort(re)):
-          re = simplify(re)
-        reorder.append(re)
-        mask.append(m)
+        # (leaving out elements that we don't actually have in the chunk)
+        index = dict((v,i) for i,v in enumerate(a2.values))
+        mask.append([i for i,v in enumerate(a1.values) if v in index])
+        reorder.append([index[v] for v in a1.values if v in index])
       var = [v for v in opener(filename) if v.name == self._varname][0]
       v = View(subaxes)
       chunk = v.get(var)
-      # Note: this may break if there is more than one axis with integer indices.
-      assert len([r for r in reorder if isinstance(r,(tuple,np.ndarray))]) <= 1, "Unhandled advanced indexing case."
-      assert len([m for m in mask if isinstance(m,(tuple,np.ndarray))]) <= 1, "Unhandled advanced indexing case."
-      out[mask] = chunk[reorder]
+      out[np.ix_(*mask)] = chunk[np.ix_(*reorder)]
       N = N + chunk.size
       pbar.update(100.*N/out.size)
 
-- 
2.43.0


From 5493323e581a14c90405dbe18f15e81daf1eda73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 095/138] fix: integer variables cannot be read through
 open_multi

---
 pygeode/formats/multifile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index dd7dcf6..0905194 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -341,7 +341,8 @@ class Multifile_Var (Var):
     from warnings import warn
 
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('nan')
+    # (only for types that have missing values; any data not found is an error below)
+    if self.dtype.kind in 'fc': out[()] = float('nan')
 
     # Get the times
     itime = view.index(Time)
-- 
2.43.0


From 507ae28f5ec8a800acbe746327f76e34458202d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 096/138] fix: check_multi reports gaps due to the rounding of
 times

---
 pygeode/formats/multifile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index 0905194..7e67b05 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -463,7 +463,8 @@ def check_multi (*args, **kwargs):
   # Check for uniformity in the data, and report any potential holes.
   dt = np.diff(full_taxis.values)
   expected_dt = min(dt[dt > 0])
-  gaps = full_taxis.values[np.where(dt > expected_dt)]
+  # (allow for the limited precision of the time values)
+  gaps = full_taxis.values[np.where((dt > expected_dt) & ~np.isclose(dt, expected_dt))]
   if len(gaps) > 0:
     print("ERROR: detected gaps on or after file(s):")
     for filename in find_files(gaps):
-- 
2.43.0


From fa8910887506af738c4e3e184ee048c6244491d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 097/138] fix: check_multi reports differences for files with
 only missing values

---
 pygeode/formats/multifile.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index 7e67b05..1e36616 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -516,9 +516,7 @@ def check_multi (*args, **kwargs):
         print("  ERROR: different missing value masks found in multifile vs. direct access for '%s'"%var.name)
         all_ok = False
         continue
-      source_data = np.ma.masked_array(source_data, mask=source_mask)
-      multifile_data = np.ma.masked_array(multifile_data, mask=multifile_mask)
-      if not np.all(source_data == multifile_data):
+      if not np.all(source_data[~source_mask] == multifile_data[~multifile_mask]):
         print("  ERROR: get different data from multifile vs. direct access for '%s'"%var.name)
         all_ok = False
         continue
-- 
2.43.0


From 1a1bc9ad112495f3b6d95e55c8960694685ecb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:04 +0000
Subject: [PATCH 098/138] fix: View.map_to: don't share the default order list
 between calls (and threads)

---
 pygeode/view.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index b985ff3..23f7abc 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -125,7 +125,7 @@ class View:
 
   # }}}
 
-  def map_to (self, axes, strict=True, order=[]):
+  def map_to (self, axes, strict=True, order=None):
   # {{{
     '''Map one view onto another.
         Modifies the slices to work with the new list of axes.
@@ -133,6 +133,8 @@ class View:
           (if not, the default behaviour is to include the entire axis if it's not mentioned in the input view)
         'order' returns the ordering of the output axes to get the original axes back (-1 for things that can't be mapped)'''
 
+    # (not a default list, which would be shared with any other thread)
+    if order is None: order = []
     assert isinstance(order,list), "can't output order to a non-list"
 
     if hasattr(axes,'axes'): axes = axes.axes  # check if a var or view was passed
-- 
2.43.0


From c53d6f430f7a07f0c91b0ee8f9d42e93e8795cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:21 +0000
Subject: [PATCH 099/138] fix: View.loop_mem: views without elements are a
 single piece

---
 pygeode/view.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pygeode/view.py b/pygeode/view.py
index 23f7abc..a6efe72 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -498,6 +498,12 @@ class View:
     from itertools import product
     #from pygeode.tools import product
     from warnings import warn
+
+    # Nothing to break up
+    if 0 in self.shape:
+      yield self
+      return
+
     # Determine the largest chunk that can be loaded, given the size constraint
     maxsize = MAX_ARRAY_SIZE
 
-- 
2.43.0


From e01fea5f1c84e5dd7cde1640b1a5d5ec362fe463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:21 +0000
Subject: [PATCH 100/138] fix: encode_cf: write dates before 1582 on the
 proleptic Gregorian calendar, which they are on

---
 pygeode/formats/cfmeta.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 8f34a7d..ccb3b0e 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -120,6 +120,7 @@ def encode_cf (dataset):
   from pygeode.var import Var
   from pygeode.timeutils import reltime
   from copy import copy
+  import numpy as np
   dataset = asdataset(dataset)
   varlist = list(dataset)
   axisdict = dataset.axisdict.copy()
@@ -173,7 +174,14 @@ def encode_cf (dataset):
         start.get('year',0), start.get('month',1), start.get('day',1),
         start.get('hour',0), start.get('minute',0), start.get('second',0)
       )
-    if isinstance(a,StandardTime): atts['calendar'] = 'standard'
+    if isinstance(a,StandardTime):
+      atts['calendar'] = 'standard'
+      # In the conventions, the standard calendar is the Julian one before 15 October 1582.
+      dates = [[start.get(f,1) for f in ('year','month','day')]]
+      if 'year' in a.auxarrays and len(a) > 0:
+        fields = [a.auxarrays.get(f,np.ones(len(a),int)) for f in ('year','month','day')]
+        dates.extend(map(list,zip(*fields)))
+      if start.get('year',0) != 0 and min(dates) < [1582,10,15]: atts['calendar'] = 'proleptic_gregorian'
     if isinstance(a,ModelTime365): atts['calendar'] = '365_day'
     if isinstance(a,ModelTime360): atts['calendar'] = '360_day'
     if isinstance(a,Yearless): atts['calendar'] = 'none'
-- 
2.43.0


From 339811f56ca35435559c537559f8a2d0ea9ca0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:28 +0000
Subject: [PATCH 101/138] fix: to_xarray: values can't be computed by dask's
 threads

---
 pygeode/ext_xarray.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pygeode/ext_xarray.py b/pygeode/ext_xarray.py
index ae645a3..d86903d 100644
--- a/pygeode/ext_xarray.py
+++ b/pygeode/ext_xarray.py
@@ -1,6 +1,17 @@
 # Functions for converting PyGeode objects to other (external) projects, and
 # vice-versa.
 
+from threading import RLock
+# Held while values are computed for dask, which may ask for several pieces at
+# once (neither PyGeode nor the file libraries beneath it can be used that way).
+_lock = RLock()
+
+# Helper method - get a piece of a variable
+def _getpiece (var, view):
+  from pygeode.progress import FakePBar
+  with _lock:
+    return var.getview(view, FakePBar())
+
 def to_xarray(dataset):
   """
   Converts a PyGeode Dataset into an xarray Dataset.
@@ -57,7 +68,7 @@ def to_xarray(dataset):
       ind = [o.index(sl) for o, sl in zip(slice_order, integer_indices)]
       # Add this chunk to the dask array.
       key = tuple([name] + ind)
-      dsk[key] = (var.getview, outview, False)
+      dsk[key] = (_getpiece, var, outview)
     # Construct the dask array.
     chunks = [list(map(len,sl)) for sl in slice_order]
     arr = da.Array(dsk, name, chunks, dtype=var.dtype)
-- 
2.43.0


From 99a94890d2b7349874f7ae8781d7468f4b740d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:28 +0000
Subject: [PATCH 102/138] fix: to_xarray/from_xarray: text of stations is cut
 up, and lost on the way back

---
 pygeode/ext_xarray.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pygeode/ext_xarray.py b/pygeode/ext_xarray.py
index d86903d..3c09e5a 100644
--- a/pygeode/ext_xarray.py
+++ b/pygeode/ext_xarray.py
@@ -56,7 +56,9 @@ def to_xarray(dataset):
     # Break up the variable into into portions that are small enough to fit
     # in memory.  These will become the "chunks" for dask.
     inview = View(var.axes)
-    for outview in inview.loop_mem():
+    # (strings have to be kept together)
+    preserve = [var.naxes-1] if var.dtype == 'S1' and var.naxes > 0 else None
+    for outview in inview.loop_mem(preserve=preserve):
       integer_indices = list(map(tuple,outview.integer_indices))
       # Determine *how* loop_mem is splitting the axes, and define the chunk
       # sizes accordingly.
@@ -146,6 +148,11 @@ def from_xarray(dataset):
       var = xr.conventions.maybe_encode_string_dtype(var)
     except AttributeError:
       pass # Using an older version of xarray (<0.10.0)?
+    # Characters that were put together by xarray.
+    if var.dtype.kind == 'S' and 'char_dim_name' in var.encoding:
+      chars = np.ascontiguousarray(var.values)
+      chars = chars.view('S1').reshape(chars.shape+(chars.dtype.itemsize,))
+      var = xr.Variable(var.dims+(var.encoding['char_dim_name'],), chars, attrs=var.attrs)
     out.append(XArray_DataArray(varname, var))
   # Wrap all the Var objects into a pygeode.Dataset object.
   out = Dataset(out, atts=_fix_atts(dataset.attrs))
-- 
2.43.0


From e7c629c8f783af6751e48a913db4ab55a47bfe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:28 +0000
Subject: [PATCH 103/138] fix: to_xarray/from_xarray: dimensions without
 coordinates (of stations) get some, which changes the kind of axis

---
 pygeode/ext_xarray.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pygeode/ext_xarray.py b/pygeode/ext_xarray.py
index 3c09e5a..4d92954 100644
--- a/pygeode/ext_xarray.py
+++ b/pygeode/ext_xarray.py
@@ -26,6 +26,7 @@ def to_xarray(dataset):
   out : xarray.Dataset
     An object which can be used with the xarray package.
   """
+  from pygeode.axis import DummyAxis
   from pygeode.dataset import asdataset
   from pygeode.formats.cfmeta import encode_cf
   from pygeode.view import View
@@ -37,7 +38,9 @@ def to_xarray(dataset):
   dataset = encode_cf(dataset)
   out = dict()
   # Loop over each axis and variable.
-  for var in list(dataset.axes) + list(dataset.vars):
+  # (dimensions without coordinates have no values to pass on)
+  axes = [a for a in dataset.axes if not isinstance(a, DummyAxis)]
+  for var in axes + list(dataset.vars):
     # Generate a unique name to identify it with dask.
     name = var.name + "-" + tokenize(var)
     dsk = dict()
@@ -100,12 +103,15 @@ class XArray_DataArray(Var):
   """
   def __init__ (self, name, arr):
     from pygeode.var import Var
-    from pygeode.axis import NamedAxis
+    from pygeode.axis import DummyAxis
     self._arr = arr
     # Extract axes and metadata.
     # Convert unicode strings to str for compatibility with PyGeode.
-    axes = [NamedAxis(n,str(d)) for n,d in zip(arr.shape,arr.dims)]
+    # (the dimensions with coordinates get their values later)
+    axes = [DummyAxis(n,str(d)) for n,d in zip(arr.shape,arr.dims)]
     atts = _fix_atts(arr.attrs)
+    # Refer to the same coordinates as before they were decoded by xarray.
+    if 'coordinates' in arr.encoding: atts.setdefault('coordinates',str(arr.encoding['coordinates']))
     Var.__init__(self, axes, name=str(name), dtype=arr.dtype, atts=atts)
   def getview (self, view, pbar):
     import numpy as np
@@ -129,6 +135,7 @@ def from_xarray(dataset):
   out : pygeode.Dataset
     An object which can be used with the pygeode package.
   """
+  import numpy as np
   import xarray as xr
   from pygeode.dataset import Dataset
   from pygeode.formats.netcdf import dims2axes
-- 
2.43.0


From 5640fc48cd003838f3e3a2b4f9c1ee5a01b42098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 104/138] fix: Dataset.add keeps only the attributes on which
 the datasets agree

---
 pygeode/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/dataset.py b/pygeode/dataset.py
index d66723c..7358fe9 100644
--- a/pygeode/dataset.py
+++ b/pygeode/dataset.py
@@ -438,7 +438,7 @@ class Dataset(object):
     vars = [v for v in vars if isinstance(v,Var)] + sum([
            d.vars for d in vars if isinstance(d,Dataset)],[])
     vars = list(self.vars) + list(vars)
-    d = Dataset(vars, atts=self.atts)
+    d = Dataset(vars, atts=atts)
     return d
 # }}}
   def __add__ (self, vars):
-- 
2.43.0


From edb6bd2daaf9fd06c4be9e95cc220f9479330967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 105/138] fix: names made up for clashing variables and axes of
 a dataset are unique

---
 pygeode/dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/dataset.py b/pygeode/dataset.py
index 7358fe9..54a33b1 100644
--- a/pygeode/dataset.py
+++ b/pygeode/dataset.py
@@ -110,6 +110,7 @@ class Dataset(object):
 
     # Rename axes that share a common name
     newaxes = {}
+    taken = set(namedict)
     for oldname, eqlist in namedict.items():
       # Case 1: the name is unique
       if len(eqlist) == 1:
@@ -120,7 +121,8 @@ class Dataset(object):
         for i, eq in enumerate(eqlist):
           newname = oldname + '%02d'%(i+1)
           # It's possible that we still have a name conflict
-          while newname in namedict:  newname += 'x'
+          while newname in taken:  newname += 'x'
+          taken.add(newname)
           if print_warnings:
             warn ("renaming non-unique axis '%s' to '%s'"%(oldname,newname), stacklevel=2)
           newaxis = eq[0].rename(newname)
@@ -175,6 +177,7 @@ class Dataset(object):
         newname = "%s%02d"%(n,namecount[n])
         # It's possible that we still have a naming conflict
         while newname in namecount:  newname += 'x'
+        namecount[newname] = 0
         vars[i] = v.rename(newname)
 
 
-- 
2.43.0


From 3f8359febc0c2f26596e0ec859538b1ae886161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 106/138] fix: auxiliary arrays of an axis are read-only, like
 its values

---
 pygeode/axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index d121c6d..8152df6 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -136,7 +136,9 @@ class Axis(Var):
         val = np.asarray(val)
         if val.shape != self.values.shape:
           raise ValueError('Auxilliary array %s has the wrong shape.  Expected %s, got %s' % (key,self.values.shape, val.shape))
-        auxarrays[key] = val
+        # Keep a read-only view, as for the values of the axis
+        auxarrays[key] = val.view()
+        auxarrays[key].flags.writeable = False
       else:
         auxatts[key] = val
 
-- 
2.43.0


From 6d2f0f6124cffe48b877b671d91954f3576df451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 107/138] fix: computing the dates of seasons does not alter
 the given years

---
 pygeode/timeaxis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 3115224..575d980 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -896,10 +896,10 @@ def makeSeasonalAxis(Base):
 
       year = dates.get('year', zeros)
       season = dates.get('season', ones)
-      year += (season - 1) // self.nseasons
+      year = year + (season - 1) // self.nseasons
       season = (season - 1) % self.nseasons
 
-      year += self.cdates['dyear'][season]
+      year = year + self.cdates['dyear'][season]
       month = self.cdates['month'][season]
       day = self.cdates['day'][season]
 
-- 
2.43.0


From 0acc44ef514d0e6ce8f4328e30aa41135abd5ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 108/138] fix: stats.difference gives each of its two passes
 half of the progress bar

---
 pygeode/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 14b69d2..15bfc8a 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -698,7 +698,7 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
   Ny = np.full(oview.shape, np.nan, 'd')
 
   # Accumulate data
-  for outsl, (xdata,) in loopover([X], oview, pbar=pbar):
+  for outsl, (xdata,) in loopover([X], oview, pbar=pbar.subset(0, 50)):
     xdata = xdata.astype('d')
     x[outsl]  = np.nansum([x[outsl],  npnansum(xdata, ixaxes)], 0)
     xx[outsl] = np.nansum([xx[outsl], npnansum(xdata**2, ixaxes)], 0)
@@ -706,7 +706,7 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
     # Count of non-NaN data points
     Nx[outsl] = np.nansum([Nx[outsl], npnansum(~np.isnan(xdata), ixaxes)], 0) 
 
-  for outsl, (ydata,) in loopover([Y], oview, pbar=pbar):
+  for outsl, (ydata,) in loopover([Y], oview, pbar=pbar.subset(50, 100)):
     ydata = ydata.astype('d')
     y[outsl]  = np.nansum([y[outsl],  npnansum(ydata, iyaxes)], 0)
     yy[outsl] = np.nansum([yy[outsl], npnansum(ydata**2, iyaxes)], 0)
-- 
2.43.0


From a1d4545ade9ddd4f630e994bee3d207a816d46b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 109/138] fix: Var.get(pbar=True) makes a progress bar, as
 documented

---
 pygeode/var.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygeode/var.py b/pygeode/var.py
index 8b05def..980fa38 100644
--- a/pygeode/var.py
+++ b/pygeode/var.py
@@ -715,6 +715,9 @@ class Var(object):
     """
     from pygeode.view import View
     import numpy as np
+    if pbar is True:
+      from pygeode.progress import PBar
+      pbar = PBar()
     var = self.__call__(**kwargs)
     data = View(var.axes).get(var,pbar=pbar)
     if isinstance(data,np.ndarray):
-- 
2.43.0


From f5897bbcd3c5674805c56e954f90d44c316681a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 110/138] fix: progress of a request for an empty selection
 ends at 100

---
 pygeode/view.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygeode/view.py b/pygeode/view.py
index a6efe72..4dc62d6 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -245,6 +245,7 @@ class View:
 #      print 'mapped view:', newview.axes, newview.slices
 #      raise Exception
 
+      pbar.update(100)
       if conform is True:
         return np.empty([s if o > -1 else 1 for s,o in zip(self.shape,order)], var.dtype)
       return np.empty(newview.shape, var.dtype)
-- 
2.43.0


From cb83afc1455b440bfabb82a10f77d74536b07324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:16 +0000
Subject: [PATCH 111/138] fix: stats.difference, paired_difference accept
 axes=None, as documented

---
 pygeode/stats.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 15bfc8a..9cc1792 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -677,6 +677,8 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
   oaxes = [a for i, a in enumerate(srcaxes) if i not in riaxes]
   oview = View(oaxes) 
 
+  if axes is None: axes = [srcaxes[i] for i in riaxes]
+
   ixaxes = [X.whichaxis(n) for n in axes if X.hasaxis(n)]
   iyaxes = [Y.whichaxis(n) for n in axes if Y.hasaxis(n)]
 
@@ -889,6 +891,8 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   oaxes = [a for i, a in enumerate(srcaxes) if i not in riaxes]
   oview = View(oaxes) 
 
+  if axes is None: axes = [srcaxes[i] for i in riaxes]
+
   ixaxes = [X.whichaxis(n) for n in axes if X.hasaxis(n)]
   Nx = np.product([len(X.axes[i]) for i in ixaxes])
 
@@ -1042,6 +1046,7 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   from pygeode.tools import combine_axes, whichaxis, loopover, npsum, npnansum
   from pygeode.view import View
 
+  if axes is None: axes = X.axes
   riaxes = [X.whichaxis(n) for n in axes]
   raxes = [a for i, a in enumerate(X.axes) if i in riaxes]
   oaxes = [a for i, a in enumerate(X.axes) if i not in riaxes]
-- 
2.43.0


From 36a0d2940b3d02bb53bb16a308866e325dd89b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:16 +0000
Subject: [PATCH 112/138] fix: stats.difference compares fields with
 differently ordered or missing axes

---
 pygeode/stats.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 9cc1792..d464d15 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -699,22 +699,29 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
   Nx = np.full(oview.shape, np.nan, 'd')
   Ny = np.full(oview.shape, np.nan, 'd')
 
+  # Put the axes being reduced over at the end, and the others in the order of
+  # the output axes (X and Y may have them in another order, or not at all)
+  inxaxes = oaxes + [X.axes[i] for i in ixaxes]
+  inyaxes = oaxes + [Y.axes[i] for i in iyaxes]
+  ixaxes = list(range(len(oaxes), len(inxaxes)))
+  iyaxes = list(range(len(oaxes), len(inyaxes)))
+
   # Accumulate data
-  for outsl, (xdata,) in loopover([X], oview, pbar=pbar.subset(0, 50)):
+  for outsl, (xdata,) in loopover([X], oview, inxaxes, pbar=pbar.subset(0, 50)):
     xdata = xdata.astype('d')
-    x[outsl]  = np.nansum([x[outsl],  npnansum(xdata, ixaxes)], 0)
-    xx[outsl] = np.nansum([xx[outsl], npnansum(xdata**2, ixaxes)], 0)
+    x[outsl]  = np.nansum([x[outsl],  np.broadcast_to(npnansum(xdata, ixaxes), x[outsl].shape)], 0)
+    xx[outsl] = np.nansum([xx[outsl], np.broadcast_to(npnansum(xdata**2, ixaxes), x[outsl].shape)], 0)
 
     # Count of non-NaN data points
-    Nx[outsl] = np.nansum([Nx[outsl], npnansum(~np.isnan(xdata), ixaxes)], 0) 
+    Nx[outsl] = np.nansum([Nx[outsl], np.broadcast_to(npnansum(~np.isnan(xdata), ixaxes), x[outsl].shape)], 0) 
 
-  for outsl, (ydata,) in loopover([Y], oview, pbar=pbar.subset(50, 100)):
+  for outsl, (ydata,) in loopover([Y], oview, inyaxes, pbar=pbar.subset(50, 100)):
     ydata = ydata.astype('d')
-    y[outsl]  = np.nansum([y[outsl],  npnansum(ydata, iyaxes)], 0)
-    yy[outsl] = np.nansum([yy[outsl], npnansum(ydata**2, iyaxes)], 0)
+    y[outsl]  = np.nansum([y[outsl],  np.broadcast_to(npnansum(ydata, iyaxes), y[outsl].shape)], 0)
+    yy[outsl] = np.nansum([yy[outsl], np.broadcast_to(npnansum(ydata**2, iyaxes), y[outsl].shape)], 0)
 
     # Count of non-NaN data points
-    Ny[outsl] = np.nansum([Ny[outsl], npnansum(~np.isnan(ydata), iyaxes)], 0) 
+    Ny[outsl] = np.nansum([Ny[outsl], np.broadcast_to(npnansum(~np.isnan(ydata), iyaxes), y[outsl].shape)], 0) 
 
   # remove the mean (NOTE: numerically unstable if mean >> stdev)
   imsk = (Nx > 1) & (Ny > 1)
-- 
2.43.0


From b3c5f504c4873ee72490172b52fd745830a954bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:16 +0000
Subject: [PATCH 113/138] fix: stats.regress: the residuals of a perfect fit
 have no negative variance

---
 pygeode/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index d464d15..0c50a3f 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -327,7 +327,8 @@ def regress(X, Y, axes=None, N_fac=None, output='m,b,p', pbar=None):
   t = np.zeros(oview.shape, 'd')
   p = np.zeros(oview.shape, 'd')
 
-  sige[dmsk] = (yy[dmsk] - m[dmsk] * xy[dmsk]) / N_eff[dmsk]
+  # Ensure the variance of the residuals is non-negative (when the fit is perfect)
+  sige[dmsk] = np.maximum(yy[dmsk] - m[dmsk] * xy[dmsk], 0.) / N_eff[dmsk]
   sigm[dmsk] = np.sqrt(sige[dmsk] / xx[dmsk])
   sige[dmsk] = np.sqrt(sige[dmsk])
   t[dmsk] = np.abs(m[dmsk]) / sigm[dmsk]
-- 
2.43.0


From 69b7e55325ea56de0053419da4af9e9e92a4df95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:16 +0000
Subject: [PATCH 114/138] fix: stats.difference gives the difference of means
 also with single points, none without data

---
 pygeode/stats.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 0c50a3f..18a4cb5 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -729,12 +729,14 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
   xx[imsk] -= (x*x)[imsk] / Nx[imsk]
   xx[imsk] /= (Nx[imsk] - 1)
 
-  x[imsk]  /= Nx[imsk]
-
   yy[imsk] -= (y*y)[imsk] / Ny[imsk]
   yy[imsk] /= (Ny[imsk] - 1)
 
-  y[imsk]  /= Ny[imsk]
+  # The means are defined wherever there is any data
+  x[Nx > 0] /= Nx[Nx > 0]
+  y[Ny > 0] /= Ny[Ny > 0]
+  x[Nx == 0] = np.nan
+  y[Ny == 0] = np.nan
 
   # Ensure variances are non-negative
   xx[xx <= 0.] = 0.
-- 
2.43.0


From fc322c54866ec9058a486fba50ca7dcf4baa1ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:16 +0000
Subject: [PATCH 115/138] fix: stats.paired_difference gives no significance
 without data

---
 pygeode/stats.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 18a4cb5..dd3f0bf 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -937,6 +937,7 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   dd[imsk] -= (d*d)[imsk]/N[imsk]
   dd[imsk] /= (N[imsk] - 1)
   d[imsk]  /= N[imsk]
+  d[N == 0] = np.nan
 
   # Ensure variance is non-negative
   dd[dd <= 0.] = 0.
@@ -958,6 +959,10 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   p[dmsk]  = 2. * (1. - tdist.cdf(p[dmsk], eN[dmsk] - 1))
   ci[dmsk] = tdist.ppf(1. - alpha/2, eN[dmsk] - 1) * den[dmsk]
 
+  # No test is possible with too little data, or if all data are identical
+  p [~emsk | (~dmsk & (d == 0.))] = np.nan
+  ci[~emsk] = np.nan
+
   pbar.update(100)
 
   # Construct dataset to return
-- 
2.43.0


From ff6b3443d20c8b0037d6ac04443f8f7626be2db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:16 +0000
Subject: [PATCH 116/138] fix: stats.isnonzero: no mean without data, a
 constant non-zero field is not insignificant

---
 pygeode/stats.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index dd3f0bf..7c92a73 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -1100,6 +1100,7 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   xx[imsk] = xx[imsk] / (Na[imsk] - 1)
 
   x[imsk] /= Na[imsk]
+  x[~imsk] = np.nan
 
   if N_fac is not None: 
     eN = N//N_fac
@@ -1117,9 +1118,13 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   dmsk = (sdom > 0.)
 
   t[dmsk] = np.abs(x[dmsk]) / sdom[dmsk]
+  t[imsk & (sdom == 0.) & (x != 0.)] = np.inf
   p[imsk]  = 2. * (1. - tdist.cdf(t[imsk], eNa[imsk] - 1))
   ci[imsk] = tdist.ppf(1. - alpha/2, eNa[imsk] - 1) * sdom[imsk]
 
+  p [~imsk] = np.nan
+  ci[~imsk] = np.nan
+
   pbar.update(100)
 
   name = X.name if X.name != '' else 'X'
-- 
2.43.0


From 75267036fd77435c905a0b4fc492856bc7fd5153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:16 +0000
Subject: [PATCH 117/138] fix: stats.paired_difference accepts fields with
 differently ordered axes

---
 pygeode/stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 7c92a73..c5d29d5 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -909,7 +909,7 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   iyaxes = [Y.whichaxis(n) for n in axes if Y.hasaxis(n)]
   Ny = np.product([len(Y.axes[i]) for i in iyaxes])
 
-  assert ixaxes == iyaxes and Nx == Ny, 'For the paired difference test, X and Y must have the same size along the reduction axes.'
+  assert len(ixaxes) == len(iyaxes) and Nx == Ny, 'For the paired difference test, X and Y must have the same size along the reduction axes.'
   
   if pbar is None:
     from pygeode.progress import PBar
@@ -926,11 +926,11 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   # Accumulate data
   for outsl, (xdata, ydata) in loopover([X, Y], oview, inaxes=srcaxes, pbar=pbar):
     ddata = xdata.astype('d') - ydata.astype('d')
-    d[outsl]  = np.nansum([d[outsl],  npnansum(ddata, ixaxes)], 0)
-    dd[outsl] = np.nansum([dd[outsl], npnansum(ddata**2, ixaxes)], 0)
+    d[outsl]  = np.nansum([d[outsl],  npnansum(ddata, riaxes)], 0)
+    dd[outsl] = np.nansum([dd[outsl], npnansum(ddata**2, riaxes)], 0)
 
     # Count of non-NaN data points
-    N[outsl] = np.nansum([N[outsl], npnansum(~np.isnan(ddata), ixaxes)], 0) 
+    N[outsl] = np.nansum([N[outsl], npnansum(~np.isnan(ddata), riaxes)], 0) 
 
   # remove the mean (NOTE: numerically unstable if mean >> stdev)
   imsk = (N > 1)
-- 
2.43.0


From bb1021dafa007568cc20bda311679b5ee72f66a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:16 +0000
Subject: [PATCH 118/138] fix: stats.multiple_regress broadcasts regressors
 which lack a reduced axis

---
 pygeode/stats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index c5d29d5..5adf15e 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -500,6 +500,8 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
 
   # Accumulate data
   for outsl, datatuple in loopover(Xs + [Y], oview, inaxes, pbar=pbar):
+    # Regressors need not have all of the axes
+    datatuple = np.broadcast_arrays(*datatuple)
     ydata =  datatuple[-1].astype('d')
     xdata = [datatuple[ i].astype('d') for i in range(Nr)]
     y[outsl]  += npsum(ydata,    siaxes)
-- 
2.43.0


From 8912345e4cee1241e995081bc6d5c4afae3ce4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:49 +0000
Subject: [PATCH 119/138] fix: integrate and cumsum keep the attributes of
 their variable

---
 pygeode/intgr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/intgr.py b/pygeode/intgr.py
index 5093d0f..83f6b1a 100644
--- a/pygeode/intgr.py
+++ b/pygeode/intgr.py
@@ -55,7 +55,7 @@ class IntegrateVar (Var):
     else:
       name = 'i(UnknownVar)'
 
-    Var.__init__(self, var.axes, dtype='d', name=name)
+    Var.__init__(self, var.axes, dtype='d', name=name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
-- 
2.43.0


From 2b7d4f70efd8bd400199da94b579bf3b5c118904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:49 +0000
Subject: [PATCH 120/138] fix: splittimeaxis keeps the attributes of its
 variable

---
 pygeode/timeutils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 486337f..14a3e0e 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -436,12 +436,11 @@ class SplitTime (Var):
     axes = list(var.axes)
     axes = axes[:iaxis] + [years, days] + axes[iaxis+1:]
 
-    copy_meta(var,self)
-
     # Missing values can not be represented by integers
     dtype = var.dtype if np.issubdtype(var.dtype, np.inexact) else 'float64'
 
     Var.__init__(self, axes=axes, dtype=dtype)
+    copy_meta(var,self)
 
     self.iaxis = iaxis
     self.var = var
-- 
2.43.0


From 31a332cc41b682fa224a25d65fc27e22d72e8ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:49 +0000
Subject: [PATCH 121/138] fix: climatology operators keep the plot attributes

---
 pygeode/climat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index 2b8887c..91fc97b 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -185,7 +185,7 @@ class TimeOp(Var):
 
     axes = list(var.axes)
     axes[ti] = outtime
-    Var.__init__ (self, axes+list(self.extra_dims), dtype = var.dtype, atts=var.atts)
+    Var.__init__ (self, axes+list(self.extra_dims), dtype = var.dtype, atts=var.atts, plotatts=var.plotatts)
 # }}}
 
 class Mean(TimeOp):
-- 
2.43.0


From 14954d9135abb78801ba950efe469332e989bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:49 +0000
Subject: [PATCH 122/138] fix: concatenated axes keep their common plot
 attributes

---
 pygeode/axis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 8152df6..cc07c28 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -650,7 +650,12 @@ class Axis(Var):
 
     name = axes[0].name  #TODO: check all names?
 
-    return cls(values, name=name, atts=atts, **aux)
+    axis = cls(values, name=name, atts=atts, **aux)
+
+    # Get common plot attributes
+    axis.plotatts.update(common_dict([a.plotatts for a in axes]))
+
+    return axis
   # }}}
 
   # Replace the values of an axis
-- 
2.43.0


From bafe8301b12d169c883de09105b84c19c3f7d788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:49 +0000
Subject: [PATCH 123/138] fix: Axis.withnewvalues keeps the plot attributes

---
 pygeode/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index cc07c28..4812d2d 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -663,7 +663,7 @@ class Axis(Var):
   def withnewvalues (self, values):
   # {{{
     # Assume any auxiliary scalars are the same for the new axis
-    return type(self)(values, name=self.name, atts=self.atts, **self.auxatts)
+    return type(self)(values, name=self.name, atts=self.atts, plotatts=self.plotatts, **self.auxatts)
   # }}}
 # }}}
 
-- 
2.43.0


From 43ac19a19480725c632198ce5d2d839614f14fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:49 +0000
Subject: [PATCH 124/138] fix: reflected operators are named with their
 operands in the order written

---
 pygeode/ufunc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygeode/ufunc.py b/pygeode/ufunc.py
index 8ba3d09..015aba5 100644
--- a/pygeode/ufunc.py
+++ b/pygeode/ufunc.py
@@ -49,6 +49,8 @@ class UfuncVar (Var):
     # Generate a default name
     symbol = self.symbol
     names = [(arg.name or '??') if isinstance(arg,Var) else str(arg) for arg in args]
+    # The operands of reflected operators (such as __rsub__) are written in reverse
+    if self.op.__name__.startswith('__r'): names = names[::-1]
     # Strip out parentheses if there's only one name?
     if len(names) == 1:
       if names[0].startswith('(') and names[0].endswith(')'):
-- 
2.43.0


From 0eab898c7692347f3a08b4a98dcbbe6b74e93491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 125/138] fix: plots scale integer data by a factor or an
 offset

---
 pygeode/plot/plot_v1.py     | 4 ++--
 pygeode/plot/pyg_helpers.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygeode/plot/plot_v1.py b/pygeode/plot/plot_v1.py
index d37c72d..ab00dfa 100644
--- a/pygeode/plot/plot_v1.py
+++ b/pygeode/plot/plot_v1.py
@@ -54,8 +54,8 @@ def _buildvartitle(axes = None, name = '', plotname = '', plottitle = '', plotun
 
 def _scalevalues(a, scalefactor = None, offset = None, **dummy):
 # {{{
-  if scalefactor is not None: a *= scalefactor
-  if offset is not None: a += offset
+  if scalefactor is not None: a = a * scalefactor
+  if offset is not None: a = a + offset
   return a
 # }}}
 
diff --git a/pygeode/plot/pyg_helpers.py b/pygeode/plot/pyg_helpers.py
index 96600c0..6732de3 100644
--- a/pygeode/plot/pyg_helpers.py
+++ b/pygeode/plot/pyg_helpers.py
@@ -49,8 +49,8 @@ def scalevalues(var):
    sf = var.plotatts.get('scalefactor', None)
    of = var.plotatts.get('offset', None)
    v = var.get().copy()
-   if sf is not None: v *= sf
-   if of is not None: v += of
+   if sf is not None: v = v * sf
+   if of is not None: v = v + of
    return v
 # }}}
 
-- 
2.43.0


From b941a299d51dba44bc3ea94657fde9ecf05e85db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 126/138] fix: vsigmask with a minor level passes increasing
 contour levels

---
 pygeode/plot/pyg_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/plot/pyg_helpers.py b/pygeode/plot/pyg_helpers.py
index 6732de3..2de415a 100644
--- a/pygeode/plot/pyg_helpers.py
+++ b/pygeode/plot/pyg_helpers.py
@@ -648,7 +648,7 @@ def vsigmask(pval, axes, mjsig=0.95, mnsig=None, mjsigp = None, mnsigp = None, n
     axes.modifycontours(cnt, ind=[0, 2], **mjsigp)
     axes.modifycontours(cnt, ind=[1],    **nsigp)
   else:
-    cl = [-1.1, -mnsig,-mjsig, mjsig, mnsig, 1.1]
+    cl = [-1.1, -mjsig, -mnsig, mnsig, mjsig, 1.1]
     axes.contourf(x, y, z, cl, colors='w')
     cnt = axes.plots[-1]
     axes.modifycontours(cnt, ind=[0, 4], **mjsigp)
-- 
2.43.0


From fbbef398166c472b2d3c8fa8c97377217763e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 127/138] fix: LogNorm2Sided works with current numpy and its
 inverse inverts

---
 pygeode/plot/cnt_helpers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pygeode/plot/cnt_helpers.py b/pygeode/plot/cnt_helpers.py
index 8bd3af9..9cfc737 100644
--- a/pygeode/plot/cnt_helpers.py
+++ b/pygeode/plot/cnt_helpers.py
@@ -25,10 +25,10 @@ class LogNorm2Sided(Normalize):
 
     if np.iterable(value):
       vtype = 'array'
-      val = ma.asarray(value).astype(np.float)
+      val = ma.asarray(value).astype(float)
     else:
       vtype = 'scalar'
-      val = ma.array([value]).astype(np.float)
+      val = ma.array([value]).astype(float)
 
     self.autoscale_None(val)
     vmin, vmax = self.vmin, self.vmax
@@ -76,9 +76,8 @@ class LogNorm2Sided(Normalize):
       result = ma.empty_like(val)
       result[izero] = (val[izero] - 0.5) * vin/cin
       result[ipos] = vin * pow((vmax/vin), (val[ipos] - (0.5 + cin))/(0.5 - cin)) 
-      result[ineg] = -vin * pow((-vmin/vin), ((0.5 - cin) - val[min])/(0.5 - cin))
-                    
-      r = vmin * ma.power((vmax/vmin), val)
+      result[ineg] = -vin * pow((-vmin/vin), ((0.5 - cin) - val[ineg])/(0.5 - cin))
+      r = result
     else:
       if value > 0.5 + cin: r = vin * pow((vmax/vin), (value - (0.5 + cin))/(0.5 - cin))
       elif value < 0.5 - cin: r = -vin * pow((-vmin/vin), ((0.5 - cin) - value)/(0.5 - cin))
-- 
2.43.0


From 848d8643465ffef86219204fbecc300ee8485ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 128/138] fix: log2sdict accepts colorbar=False

---
 pygeode/plot/cnt_helpers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pygeode/plot/cnt_helpers.py b/pygeode/plot/cnt_helpers.py
index 9cfc737..f0ee903 100644
--- a/pygeode/plot/cnt_helpers.py
+++ b/pygeode/plot/cnt_helpers.py
@@ -422,7 +422,6 @@ def log2sdict(cmin, cdelt = 10, nf=6, nl=2, ndiv=3, nozero=False, **kwargs):
 
   kwcb = kwargs.pop('colorbar', {})
   cb = dict(ticks=tks, width=1.4, rl=0.01, rr=0.16, ticklabels = [lfmt(x) for x in tks])
-  cb.update(kwcb)
   if kwcb is False:
     cb = False
   else:
-- 
2.43.0


From a55c377c8cd3b0e30b3bfcac861ae9161f5e2d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 129/138] fix: clfdict with nozero leaves out its middle value,
 not zero

---
 pygeode/plot/cnt_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/plot/cnt_helpers.py b/pygeode/plot/cnt_helpers.py
index f0ee903..89e9ae2 100644
--- a/pygeode/plot/cnt_helpers.py
+++ b/pygeode/plot/cnt_helpers.py
@@ -306,8 +306,8 @@ def clfdict(cdelt, min=None, mid=0., nf=6, nl=2, ndiv=3, nozero=False, style=Non
     cf = np.concatenate([np.linspace(cmin, mid, nf * ndiv + 1)[:-1],
                          np.linspace(mid, cmax, nf * ndiv + 1)[1:]])
     if nozero:
-      cl = np.concatenate([np.linspace(cmin, 0, nl * ndiv + 1)[:-1],
-                           np.linspace(0, cmax, nl * ndiv + 1)[1:]])
+      cl = np.concatenate([np.linspace(cmin, mid, nl * ndiv + 1)[:-1],
+                           np.linspace(mid, cmax, nl * ndiv + 1)[1:]])
     else:
       cl = np.linspace(cmin, cmax, 2 * nl * ndiv + 1)
   else:
-- 
2.43.0


From 986af426125c956fb013e3c7631c950f8973a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 130/138] fix: formatvalue of longitudes, latitudes and
 pressures uses the unit string given

---
 pygeode/axis.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 4812d2d..78d2872 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -887,7 +887,8 @@ class Lon (XAxis):
       strval = fmt % value
 
     if units:
-      strval += ' ' + self.units
+      if unitstr is None: unitstr = self.units
+      strval += ' ' + unitstr
 
     return strval
 # }}}
@@ -1040,7 +1041,8 @@ class Lat (YAxis):
       strval = fmt % value
 
     if units:
-      strval += ' ' + self.units
+      if unitstr is None: unitstr = self.units
+      strval += ' ' + unitstr
 
     return strval
 # }}}
@@ -1223,7 +1225,8 @@ class Pres (ZAxis):
       strval = fmt % value
 
     if units:
-      strval += ' ' + self.units
+      if unitstr is None: unitstr = self.units
+      strval += ' ' + unitstr
 
     return strval
 # }}}
-- 
2.43.0


From dc115bdac88be099ebcc08fcb1e84029c073627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 131/138] fix: showvar does not change the colorbar dictionary
 it is given

---
 pygeode/plot/pyg_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/plot/pyg_helpers.py b/pygeode/plot/pyg_helpers.py
index 2de415a..f91a8ea 100644
--- a/pygeode/plot/pyg_helpers.py
+++ b/pygeode/plot/pyg_helpers.py
@@ -859,7 +859,7 @@ def showvar(var, *args, **kwargs):
     cf = ax.find_plot(wr.Contourf)
     cl = ax.find_plot(wr.Contour)
     if cbar and cf is not None:
-      if cl is not None: cbar['lcnt'] = cl
+      if cl is not None: cbar = dict(cbar, lcnt=cl)
       ax = wr.colorbar(ax, cf, **cbar)
 
   import pylab as pyl
-- 
2.43.0


From bb995bb34b5b50a1ccf0502980819b95b39f0fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 132/138] fix: cldict with an inner interval does not repeat
 contours

---
 pygeode/plot/cnt_helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygeode/plot/cnt_helpers.py b/pygeode/plot/cnt_helpers.py
index 89e9ae2..ce265d6 100644
--- a/pygeode/plot/cnt_helpers.py
+++ b/pygeode/plot/cnt_helpers.py
@@ -231,8 +231,10 @@ def cldict(cdelt, range=None, min=None, mid=0, cidelt=0., nozero=False, **kwargs
   if range is None: range = 10*cdelt
 
   if cidelt > 0.:
-    cl = np.concatenate([np.arange(-range, -cdelt, cdelt),
-                         np.arange(-cdelt, cdelt, cidelt),
+    # The ends are left out, whichever way they are rounded
+    tol = 1e-6 * cidelt
+    cl = np.concatenate([np.arange(-range, -cdelt - tol, cdelt),
+                         np.arange(-cdelt, cdelt - tol, cidelt),
                          np.arange(cdelt, range + cdelt/2., cdelt)])
   elif min is None:
     cl = np.arange(mid - range, mid + range + cdelt/2, cdelt)
-- 
2.43.0


From de710b94410c19f34b11dc61f1cfe38fabd1f867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 133/138] fix: pressure axes can be plotted with current
 matplotlib

---
 pygeode/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 78d2872..16723cb 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -1171,7 +1171,7 @@ class Pres (ZAxis):
     if numdecs < 1.2: subs = [1., 2., 4., 7.]
     elif numdecs < 3.: subs = [1., 3.]
     else: subs = [1.]
-    return pyl.LogLocator(subs = subs, numdecs = numdecs)
+    return pyl.LogLocator(subs = subs)
 # }}}
 
   def formatvalue(self, value, fmt=None, units=True, unitstr=None):
-- 
2.43.0


From e118741d03d87e9c0ea3cb432a13a9b19f6169b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 134/138] fix: colormaps are looked up with current matplotlib

---
 pygeode/plot/cm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/plot/cm.py b/pygeode/plot/cm.py
index 5b08e9a..58ae18b 100644
--- a/pygeode/plot/cm.py
+++ b/pygeode/plot/cm.py
@@ -1,7 +1,7 @@
 import pygeode as pyg
 import numpy as np
 import os.path, glob
-from matplotlib import cm as mpl_cm
+from matplotlib import pyplot
 
 cmaps_div = {4: ([0.3, 0.43, 0.52, -0.64, -0.99, 0.05, 0.12, 0.18], [0.9, 0.3], [0.5, 0.98]), \
             #3: ([0.4, 0.5, -0.556, -1.0, 0.94, 0.87], [0.96, 0.4], [0.4, 0.7]), \
@@ -267,7 +267,7 @@ def get_cm(style, ndiv):
   elif isinstance(cm, Colormap):
     return cm
   else:
-    return mpl_cm.get_cmap(cm)
+    return pyplot.get_cmap(cm)
 # }}}
 
 def read_config():
-- 
2.43.0


From 06d47d485451db5b8ec73e4d8683bbde0bc2214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 135/138] fix: a grid of plots may have an empty column

---
 pygeode/plot/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/plot/wrappers.py b/pygeode/plot/wrappers.py
index d4593f6..d676d72 100644
--- a/pygeode/plot/wrappers.py
+++ b/pygeode/plot/wrappers.py
@@ -520,7 +520,7 @@ def grid(axes, size = None):
   assert all([len(x) == nx for x in axes[1:]]), 'Each row must have the same number of axes'
 
   rowh = [max([a.size[1] for a in row if a is not None]) for row in axes]
-  colw = [max([axes[i][j].size[0] for i in range(ny) if axes[i][j] is not None]) for j in range(nx)]
+  colw = [max([axes[i][j].size[0] for i in range(ny) if axes[i][j] is not None], default=0.) for j in range(nx)]
 
   tsize = [float(sum(colw)), float(sum(rowh))]
   if size is None: size = tsize
-- 
2.43.0


From 39afddbd26f750b70bef950ca18a80715c2f8ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 136/138] fix: showcol finds its limits when values are missing

---
 pygeode/plot/pyg_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/plot/pyg_helpers.py b/pygeode/plot/pyg_helpers.py
index f91a8ea..05ca374 100644
--- a/pygeode/plot/pyg_helpers.py
+++ b/pygeode/plot/pyg_helpers.py
@@ -905,7 +905,7 @@ def showcol(vs, size=(4.1,2), **kwargs):
       ydat.append(ax.find_plot(wr.Plot).plot_args[1])
 
     Ax = wr.grid(axs)
-    ylim = (np.min([np.min(y) for y in ydat]), np.max([np.max(y) for y in ydat]))
+    ylim = (np.nanmin([np.nanmin(y) for y in ydat]), np.nanmax([np.nanmax(y) for y in ydat]))
     Ax.setp(ylim = ylim, children=True)
 
   elif Z[0].naxes == 2:
-- 
2.43.0


From 224b220c5c8a579032ed38a77d7578b07beb1b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 137/138] fix: plots can be saved and loaded

---
 pygeode/plot/wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/plot/wrappers.py b/pygeode/plot/wrappers.py
index d676d72..c1f6890 100644
--- a/pygeode/plot/wrappers.py
+++ b/pygeode/plot/wrappers.py
@@ -497,7 +497,7 @@ AxesWrapper.imshow = make_plot_member(imshow)
 def save (fig, filename):
 # {{{
   import pickle
-  outfile = open(filename,'w')
+  outfile = open(filename,'wb')
   pickle.dump(fig, outfile)
   outfile.close()
 # }}}
@@ -506,7 +506,7 @@ def save (fig, filename):
 def load (filename):
 # {{{
   import pickle
-  infile = open(filename,'ro')
+  infile = open(filename,'rb')
   theplot = pickle.load(infile)
   infile.close()
   return theplot
-- 
2.43.0


From 44706465834b736ed57fed720e228cfbcce58c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 138/138] fix: plotvar repeats the first column of a periodic
 axis and accepts lblx and lbly

---
 pygeode/plot/plot_v1.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygeode/plot/plot_v1.py b/pygeode/plot/plot_v1.py
index ab00dfa..e3ca96f 100644
--- a/pygeode/plot/plot_v1.py
+++ b/pygeode/plot/plot_v1.py
@@ -272,10 +272,12 @@ def plotvar (var, **kwargs):
     pcolor = kwargs.pop('pcolor', False)
 
     mask = kwargs.pop('mask', None)
+    lblx = kwargs.pop('lblx', True)
+    lbly = kwargs.pop('lbly', True)
     if mask is not None:
       values = ma.masked_where(mask(values), values)
     if perx: 
-      concatenate([values, values[0:1, :]], axis=0)
+      values = ma.concatenate([values, values[:, 0:1]], axis=1)
 
     #
     # Map?
@@ -386,14 +388,14 @@ def plotvar (var, **kwargs):
       ax.set_ylim(ylims[::yaxis.plotatts['plotorder']])
 
       # Set x and y labels and formatters     
-      if kwargs.pop('lblx', True):
+      if lblx:
         ax.set_xlabel(_buildaxistitle(**xaxis.plotatts))
         ax.xaxis.set_major_formatter(xaxis.formatter())
         loc = xaxis.locator()
         if loc is not None: ax.xaxis.set_major_locator(loc)
       else:
         ax.set_xticklabels('')      
-      if kwargs.pop('lbly', True):
+      if lbly:
         ax.set_ylabel(_buildaxistitle(**yaxis.plotatts))
         ax.yaxis.set_major_formatter(yaxis.formatter())
         loc = yaxis.locator()
-- 
2.43.0

