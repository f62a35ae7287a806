From 04e27bc67160534a3878abfa91ba25e37a617ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:50 +0000
Subject: [PATCH 01/19] fix: MPArray.load reads datasets in a way current h5py
 supports

Dataset.value was removed in h5py 3; indexing with [()] works everywhere.
---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index f297d87..8d45506 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -182,7 +182,7 @@ class MPArray(object):
             with h5py.File(source, 'r') as infile:
                 return cls.load(infile)
 
-        ltens = [source[str(i)].value for i in range(source.attrs['len'])]
+        ltens = [source[str(i)][()] for i in range(source.attrs['len'])]
         return cls(LocalTensors(ltens, cform=source.attrs['canonical_form']))
 
     @classmethod
-- 
2.43.0


From 2192558b5d1dffd32a60a724559612ba61fdcf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:50 +0000
Subject: [PATCH 02/19] fix: a failed MPArray.dump no longer changes the
 metadata of the target

Dumping to an occupied group replaced len and canonical_form of the array
stored there before it failed on the first data set.
---
 mpnum/mparray.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 8d45506..c98f122 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -157,16 +157,19 @@ class MPArray(object):
             with h5py.File(target, 'w') as outfile:
                 return self.dump(outfile)
 
+        # Write the attributes last: if the target is already occupied (or
+        # writing the tensors fails for another reason), the attributes must
+        # not describe tensors which are not there.
+        for site, lten in enumerate(self._lt):
+            target[str(site)] = lten
+
         for prop in ('ranks', 'shape'):
             # these are only saved for convenience
             target.attrs[prop] = str(getattr(self, prop))
 
         # these are actually used in MPArray.load
-        target.attrs['len'] = len(self)
         target.attrs['canonical_form'] = self.canonical_form
-
-        for site, lten in enumerate(self._lt):
-            target[str(site)] = lten
+        target.attrs['len'] = len(self)
 
     @classmethod
     def load(cls, source):
-- 
2.43.0


From ed891993bba6469ca87beca3b762d5ef25507dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:50 +0000
Subject: [PATCH 03/19] fix: leg2vleg does not claim the tensor right of the
 bond right-canonical

---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index c98f122..01b6b9e 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -558,7 +558,7 @@ class MPArray(object):
         ltens[pos + 1] = ltens[pos + 1][0]
 
         lcanon, rcanon = self.canonical_form
-        new_normal_form = min(lcanon, pos), max(rcanon, pos + 1)
+        new_normal_form = min(lcanon, pos), max(rcanon, pos + 2)
         return MPArray(LocalTensors(ltens, cform=new_normal_form))
 
     def split(self, pos):
-- 
2.43.0


From c0bd5b9f927f5e35ad0a224c2e286a2306c69648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:50 +0000
Subject: [PATCH 04/19] fix: scaling an array whose canonical slices touch
 keeps a true canonical form

---
 mpnum/mparray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 01b6b9e..84ab738 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -375,7 +375,9 @@ class MPArray(object):
             ltens = self._lt
             ltens_new = it.chain(ltens[:lcanon], [fact * ltens[lcanon]],
                                  ltens[lcanon + 1:])
-            return type(self)(LocalTensors(ltens_new, cform=(lcanon, rcanon)))
+            # The rescaled tensor is not right-canonical.
+            cform = lcanon, max(rcanon, lcanon + 1)
+            return type(self)(LocalTensors(ltens_new, cform=cform))
 
         raise NotImplementedError("Multiplication by non-scalar not supported")
 
-- 
2.43.0


From 029ccf39783fde49953a4331219b7092ee6a2982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:50 +0000
Subject: [PATCH 05/19] fix: updating with a left-canonical tensor ends a
 right-canonical slice there

and vice versa. The counter of the other direction kept covering the new
tensor. Also never report full left-/right-canonical form, which is
unsupported (e.g. in-place scaling and copying failed afterwards).
---
 mpnum/mpstruct.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index add76d1..5334add 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -90,10 +90,15 @@ class LocalTensors(object):
         # (equality case; first argument to max/min). If a canoical
         # tensor is set inside a canoncial slice, its size will
         # remain the same (inequality case; second argument).
+        # The new tensor is not known to be canonical in the other direction.
+        # Full left-/right-canonical form is not supported.
         if canonicalization == 'left' and self._lcanonical - index >= 0:
-            self._lcanonical = max(index + 1, self._lcanonical)
+            self._lcanonical = min(max(index + 1, self._lcanonical),
+                                   len(self) - 1)
+            self._rcanonical = max(index + 1, self._rcanonical)
         elif canonicalization == 'right' and index - self._rcanonical >= -1:
-            self._rcanonical = min(index, self._rcanonical)
+            self._rcanonical = max(min(index, self._rcanonical), 1)
+            self._lcanonical = min(index, self._lcanonical)
         else:
             # If a non-canonical tensor is provided, the sizes of the
             # canoical slices may decrease.
-- 
2.43.0


From 0df4a668a1e7e1426ed6ff077b6aaff0ebc4bf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:50 +0000
Subject: [PATCH 06/19] fix: LocalTensors.update repeats a single
 canonicalization value for a slice

The string was zipped with the tensors character by character: the flag was
ignored and at most len('left') tensors were updated.
---
 mpnum/mpstruct.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index 5334add..5a9766e 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -5,6 +5,7 @@ from __future__ import absolute_import, division, print_function
 import itertools as it
 import collections
 
+import six
 from six.moves import range, zip
 
 
@@ -134,7 +135,9 @@ class LocalTensors(object):
                 tens[:-1], tens[1:]))
             assert self[stop - 1].shape[-1] == tens[-1].shape[-1]
 
-            if not isinstance(canonicalization, collections.Sequence):
+            # A string is a single value (but also a sequence).
+            if (isinstance(canonicalization, six.string_types) or
+                    not isinstance(canonicalization, collections.Sequence)):
                 canonicalization = it.repeat(canonicalization)
 
             for ten, pos, norm in zip(tens, range(*indices), canonicalization):
-- 
2.43.0


From bdeb2fcd553d12a358e4939bc544d9c662459af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:50 +0000
Subject: [PATCH 07/19] fix: LocalTensors.update keeps the canonical form
 correct for negative indices

---
 mpnum/mpstruct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index 5a9766e..37a6fa9 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -144,6 +144,9 @@ class LocalTensors(object):
                 self._update(pos, ten, canonicalization=norm)
 
         else:
+            if index < 0:
+                index += len(self)
+            assert 0 <= index < len(self)
             current = self._ltens[index]
             assert tens.ndim >= 2
             assert current.shape[0] == tens.shape[0]
-- 
2.43.0


From e4190855bb3259d8d4e48224bb0461572dc3f266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:04 +0000
Subject: [PATCH 08/19] fix: singularvals finishes its sweep before yielding

Any operation on the array between two items (e.g. a second iterator or
in-place canonicalization) was overwritten by the suspended sweep and
changed the represented tensor.
---
 mpnum/mparray.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 84ab738..f13e9d0 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -982,11 +982,14 @@ class MPArray(object):
         self.canonicalize(right=1)
         iterator = self._compress_svd_r(max(self.ranks), None, truncated_svd)
         # We want everything from the iterator except for the last element.
-        for _, (sv, rank) in zip(range(len(self) - 1), iterator):
-            # We could verify that `rank` did not decrease but it may
-            # decrease because of zero singular values -- let's trust
-            # that relerr=0.0 behaves as intended.
-            # assert old_rank == rank
+        # Finish the sweep before handing out anything: other operations on
+        # `self` between two of its steps would corrupt `self`.
+        #
+        # We could verify that `rank` did not decrease but it may
+        # decrease because of zero singular values -- let's trust
+        # that relerr=0.0 behaves as intended.
+        svals = [sv for _, (sv, rank) in zip(range(len(self) - 1), iterator)]
+        for sv in svals:
             yield sv
 
     def pad_ranks(self, rank=None, force_rank=False):
-- 
2.43.0


From 9be1e47da6d8fa9769b3dce213354e28989be558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:04 +0000
Subject: [PATCH 09/19] fix: reductions_mpo combines remainders and tensors of
 the same gauge

Cached remainders were multiplied onto tensors of a different gauge if the
MPO was canonicalized while the generator was suspended.
---
 mpnum/mpsmpo.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mpnum/mpsmpo.py b/mpnum/mpsmpo.py
index 337935d..28e067a 100644
--- a/mpnum/mpsmpo.py
+++ b/mpnum/mpsmpo.py
@@ -244,6 +244,9 @@ def reductions_mpo(mpa, width=None, startsites=None, stopsites=None):
         _check_reductions_args(len(mpa), width, startsites, stopsites)
 
     assert_array_equal(mpa.ndims, 2)
+    # Use the same gauge for all results even if `mpa` is canonicalized
+    # between two of them.
+    mpa_lt = list(mpa.lt)
     rem_left = {0: np.array(1, ndmin=2)}
     rem_right = rem_left.copy()
 
@@ -261,20 +264,20 @@ def reductions_mpo(mpa, width=None, startsites=None, stopsites=None):
         except KeyError:
             rem = get_remainder(rem_cache, num_sites - 1, end)
             last_pos = num_sites - 1 if end == 1 else -num_sites
-            add = np.trace(mpa.lt[last_pos], axis1=1, axis2=2)
+            add = np.trace(mpa_lt[last_pos], axis1=1, axis2=2)
             if end == -1:
                 rem, add = add, rem
 
             rem_cache[num_sites] = matdot(rem, add)
             return rem_cache[num_sites]
 
-    num_sites = len(mpa)
+    num_sites = len(mpa_lt)
     for start, stop in zip(startsites, stopsites):
         # FIXME we could avoid taking copies here, but then in-place
         # multiplication would have side effects. We could make the
         # affected arrays read-only to turn unnoticed side effects into
         # errors.
-        ltens = [lten for lten in mpa.lt[start:stop]]
+        ltens = mpa_lt[start:stop]
         rem = get_remainder(rem_left, start, 1)
         ltens[0] = matdot(rem, ltens[0])
         rem = get_remainder(rem_right, num_sites - stop, -1)
-- 
2.43.0


From 410b3aeea3833e07158cae2d0db490f1ea70adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:04 +0000
Subject: [PATCH 10/19] fix: reductions_pmps does not canonicalize the array of
 the caller

It was changed in-place although this is not documented, also by
expectations()/pmf() of a purification; threads sharing a state got wrong
results.
---
 mpnum/mpsmpo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpnum/mpsmpo.py b/mpnum/mpsmpo.py
index 28e067a..2e647a7 100644
--- a/mpnum/mpsmpo.py
+++ b/mpnum/mpsmpo.py
@@ -130,6 +130,7 @@ from numpy.testing import assert_array_equal
 from six.moves import range
 
 from . import mparray as mp
+from .mpstruct import LocalTensors
 from .utils import local_to_global, matdot
 
 
@@ -299,6 +300,8 @@ def reductions_pmps(pmps, width=None, startsites=None, stopsites=None):
     startsites, stopsites = \
         _check_reductions_args(len(pmps), width, startsites, stopsites)
 
+    # Do not change the local tensors of the caller's array.
+    pmps = mp.MPArray(LocalTensors(pmps.lt, cform=pmps.canonical_form))
     for start, stop in zip(startsites, stopsites):
         pmps.canonicalize(left=start, right=stop)
 
-- 
2.43.0


From cee9e31717401bef0b7ce8116b18800924256b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:04 +0000
Subject: [PATCH 11/19] fix: random_local_ham uses the given randstate

---
 mpnum/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/factory.py b/mpnum/factory.py
index 208ff9c..c22deea 100644
--- a/mpnum/factory.py
+++ b/mpnum/factory.py
@@ -416,7 +416,8 @@ def random_local_ham(sites, ldim=2, intlen=2, randstate=None):
 
     """
     def get_local_ham():
-        op = _random_op(intlen, ldim, hermitian=True, normalized=True)
+        op = _random_op(intlen, ldim, hermitian=True, normalized=True,
+                        randstate=randstate)
         op = global_to_local(op, sites=intlen)
         return mp.MPArray.from_array(op, ndims=2)
 
-- 
2.43.0


From b8f1114e967cdda01cc01e5199fbb3401452713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:04 +0000
Subject: [PATCH 12/19] fix: block_diag (and local_sum) of summands with
 different dtypes

---
 mpnum/utils/extmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/utils/extmath.py b/mpnum/utils/extmath.py
index c6480c8..56b7f67 100644
--- a/mpnum/utils/extmath.py
+++ b/mpnum/utils/extmath.py
@@ -90,7 +90,7 @@ def block_diag(summands, axes=(0, 1)):
 
     shapes = np.array([array.shape[:nr_axes] for array in summands])
     res = np.zeros(tuple(shapes.sum(axis=0)) + summands[0].shape[nr_axes:],
-                   dtype=summands[0].dtype)
+                   dtype=np.result_type(*summands))
     startpos = np.zeros(nr_axes, dtype=int)
 
     for array, shape in zip(summands, shapes):
-- 
2.43.0


From 2a6cc55d336e4b4f377e26be5092f9dec0cdf184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:04 +0000
Subject: [PATCH 13/19] fix: sums of arrays with different dtypes use the
 common dtype

max() of float64 and complex64 is float64: the imaginary part was lost.
---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index f13e9d0..6a29e89 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1859,7 +1859,7 @@ def _local_add(ltenss):
     newshape = (sum(lt.shape[0] for lt in ltenss), )
     newshape += shape[1:-1]
     newshape += (sum(lt.shape[-1] for lt in ltenss), )
-    res = np.zeros(newshape, dtype=max(lt.dtype for lt in ltenss))
+    res = np.zeros(newshape, dtype=np.result_type(*ltenss))
 
     pos_l, pos_r = 0, 0
     for lt in ltenss:
-- 
2.43.0


From c3ea7c795ef782c0bf42c991b2f7b1f16ae08dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:04 +0000
Subject: [PATCH 14/19] fix: MPArray.sum accepts None for the first site

---
 mpnum/mparray.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 6a29e89..f3dfc35 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -437,8 +437,7 @@ class MPArray(object):
             if not hasattr(axes, '__iter__'):
                 axes = (axes,)  # Single integer
             axes = tuple(axes)
-            if len(axes) == 0 or not (axes[0] is not None
-                                      and hasattr(axes[0], '__iter__')):
+            if not any(ax is None or hasattr(ax, '__iter__') for ax in axes):
                 axes = it.repeat(axes)  # Sum over same physical legs everywhere
             else:
                 assert len(axes) == len(self)
-- 
2.43.0


From 733d854809c702509310fbace0a31add32db60c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:04 +0000
Subject: [PATCH 15/19] fix: variational compression of arrays shorter than
 var_sites

The start vector was returned without a single optimization step.
---
 mpnum/mparray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index f3dfc35..224e950 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1062,6 +1062,8 @@ class MPArray(object):
         assert_array_equal(target.ndims, 1, "Target is not a MPS")
 
         nr_sites = len(target)
+        # We cannot vary more sites than there are.
+        var_sites = min(var_sites, nr_sites)
         lvecs = [np.array(1, ndmin=2)] + [None] * (nr_sites - var_sites)
         rvecs = [None] * (nr_sites - var_sites) + [np.array(1, ndmin=2)]
         self.canonicalize(right=1)
-- 
2.43.0


From daba9520d0072179dccf7dfec61e3be2f49877c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:04 +0000
Subject: [PATCH 16/19] fix: pad_ranks without rank for a single site

---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 224e950..6404197 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1009,7 +1009,7 @@ class MPArray(object):
 
         """
         if rank is None:
-            rank = max(self.ranks)
+            rank = max(self.ranks) if len(self) > 1 else 1
         ranks = it.repeat(rank)
         if not force_rank:
             ranks = [min(f, b) for f, b in zip(full_rank(self.shape), ranks)]
-- 
2.43.0


From 1c9f639f2a53b89add7d95f9df830242f4850eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:04 +0000
Subject: [PATCH 17/19] fix: MPPovmList.lfun_from with fractional weights

The sum of weights was truncated to an integer: wrong values, or nan for
weights below one.
---
 mpnum/povm/mppovm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 66004b4..1e7bd84 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -984,7 +984,7 @@ class MPPovm(mp.MPArray):
         """
         assert coeff.shape == self.nsoutdims
         n_nsout = len(self.nsoutdims)
-        myout_n_samples = np.zeros(self.nsoutdims, int)
+        myout_n_samples = np.zeros(self.nsoutdims, float)
         fun_mpp = []
         fun_myout = []
         fun_coeff = []
-- 
2.43.0


From 5f37eb1d3d91d636138b8a1fff7dcd9f0c5c7200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:04 +0000
Subject: [PATCH 18/19] fix: estimates from lists of samples of which some are
 empty

MPPovmList.est_lfun_from() and est_pmf_from() failed if there were no samples
for one of the POVMs even if all probabilities could be estimated without
them.
---
 mpnum/povm/mppovm.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 1e7bd84..eba778b 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -904,6 +904,10 @@ class MPPovm(mp.MPArray):
             :ref:`mppovm-lfun-overview`.
 
         """
+        if (coeff is not None and len(coeff) == 0) \
+           or (funs is not None and len(funs) == 0):
+            return 0., 0.  # The empty sum is equal to zero with certainty.
+
         if funs is None:
             # In this special case, we could make the implementation faster.
             n_out = np.prod(self.nsoutdims)
@@ -989,6 +993,8 @@ class MPPovm(mp.MPArray):
         fun_myout = []
         fun_coeff = []
         for pos, mpp, n_sam in zip(it.count(), other.mpps, n_samples):
+            if n_sam == 0:
+                continue  # Does not provide any estimates
             matches, prefactors = self.match_elems(mpp, eps=eps)
             nsoutdims = tuple(
                 sdim for sdim, odim in zip(self.outdims, mpp.outdims) if odim > 1)
@@ -1132,7 +1138,7 @@ class MPPovm(mp.MPArray):
 
         n_nsout = len(self.nsoutdims)
         given = match.any(tuple(range(n_nsout, match.ndim)))
-        if not given.any():
+        if n_samples == 0 or not given.any():
             est_pmf = np.zeros(self.nsoutdims, float)
             est_pmf[:] = np.nan
             return est_pmf, 0
-- 
2.43.0


From ebb5eb5f3967857f247bf7b2d626c28678f503a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:28 +0000
Subject: [PATCH 19/19] fix: eig_sum of real and complex summands with a real
 start vector

---
 mpnum/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpnum/linalg.py b/mpnum/linalg.py
index f590b59..c6fbd7f 100644
--- a/mpnum/linalg.py
+++ b/mpnum/linalg.py
@@ -341,9 +341,9 @@ def _eig_sum_minimize_locally(
     op = 0
     for mpa, ndims, lv, rv in zip(mpas, mpas_ndims, leftvec, rightvec):
         if ndims == 2:
-            op += _eig_local_op(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op(lv, list(mpa.lt[pos]), rv)
         elif ndims == 1:
-            op += _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
         else:
             raise ValueError('ndims = {!r} not supported'.format(ndims))
 
-- 
2.43.0

