From 240237755fce4cd9817bede8f5ae8f7171aca220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 01/50] fix: overviews of images with an unknown or exhausted
 number of overviews

---
 delayed_image/delayed_nodes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c59219a..cb0d6d2 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3120,13 +3120,16 @@ class DelayedOverview(DelayedImage):
         self.meta['dsize'] = (w, h)
 
     @property
-    def num_overviews(self) -> int:
+    def num_overviews(self) -> int | None:
         """
         Returns:
-            int
+            int | None
         """
+        num_overviews = self.subdata.num_overviews
+        if num_overviews is None:
+            return None
         # This operation reduces the number of available overviews
-        num_remain = self.subdata.num_overviews - self.meta['overview']
+        num_remain = max(num_overviews - self.meta['overview'], 0)
         return num_remain
 
     def _finalize(self) -> ArrayLike:
-- 
2.43.0


From 9121f6066d8550bf1b5d4b202eef5d3409f3a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 02/50] fix: simulated overviews have the declared size and
 keep masks

---
 delayed_image/delayed_nodes.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index cb0d6d2..e9cf416 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3149,17 +3149,15 @@ class DelayedOverview(DelayedImage):
             ub.paragraph(
                 """
             The underlying data does not have overviews.
-            Simulating the overview using a imresize operation.
+            Simulating the overview using a nearest subsampling.
             """
             )
         )
-        sub_final = np.asarray(sub_final)
-        final = kwimage.imresize(
-            sub_final,
-            scale=1 / 2**overview,
-            interpolation='nearest',
-            # antialias=True
-        )
+        sub_final = np.asanyarray(sub_final[:])
+        # Equivalent to nearest resampling, but the result always has the
+        # declared (ceiling) size and keeps masked values.
+        step = 2**overview
+        final = sub_final[::step, ::step]
         return final
 
     def optimize(
-- 
2.43.0


From d23dfbbb89a4266e825a0531134e108965bcf98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 03/50] fix: moving an overview below a crop keeps the declared
 size

---
 delayed_image/delayed_nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index e9cf416..8090af9 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3280,9 +3280,11 @@ class DelayedOverview(DelayedImage):
         # Move the crop to the outside
         new = new.crop(outer_crop, chan_idxs=chan_idxs)
 
-        if not np.all(np.isclose(np.eye(3), new_outer_warp)):
+        if new.dsize != self.dsize or not np.all(
+            np.isclose(np.eye(3), new_outer_warp)
+        ):
             # we might have to apply an additional warp at the end.
-            new = new.warp(new_outer_warp)
+            new = new.warp(new_outer_warp, dsize=self.dsize)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('_opt_crop_after_overview')
         return new
-- 
2.43.0


From 8adf52fd9bef12a574ae03b290622c094aafd0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 04/50] fix: moving an overview below a warp keeps its size and
 parameters

---
 delayed_image/delayed_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 8090af9..5c0cb82 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3348,7 +3348,8 @@ class DelayedOverview(DelayedImage):
         new_outer = C
         new_inner_overview = outer_overview
         new = self.subdata.subdata.get_overview(new_inner_overview)
-        new = new.warp(new_outer)
+        warp_meta = ub.dict_isect(self.subdata.meta, self.subdata._algo_keys)
+        new = new.warp(new_outer, dsize=self.dsize, **warp_meta)
         if TRACE_OPTIMIZE:
             new._opt_logs.extend(self.subdata._opt_logs)
             new._opt_logs.append('_opt_warp_after_overview')
-- 
2.43.0


From 94ab515ed9abb7ecfdfc04e32390289597cf5e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 05/50] fix: absorbing an overview does not modify the nodes of
 the input view

---
 delayed_image/delayed_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 5c0cb82..07294a1 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2318,6 +2318,8 @@ class DelayedWarp(DelayedImage):
         else:
             # Copy the chain so this does not mutate the input
             chain = [copy.copy(n) for n in chain]
+            for n in chain:
+                n.meta = n.meta.copy()
             for u, v in ub.iter_window(chain, 2):
                 u.subdata = v
             tail = chain[-1]
-- 
2.43.0


From 71a20e8644248048ab4d3e1cb03aa6e613f71146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 06/50] fix: select bands of an unnamed concatenation by
 position

---
 delayed_image/delayed_nodes.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 07294a1..979e38a 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -917,8 +917,6 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             # TODO: this API needs to be tested and verified so it works
             # correctly for integers indexes and string channel names.
             top_idx_mapping = channels
-            assert current_channels is not None
-            top_codes = current_channels.as_list()
             request_codes = None
         else:
             channels = FusedChannelSpec.coerce(channels)
@@ -941,10 +939,9 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             ...
         elif missing_channel_policy == 'error':
             # do a quick check for missing channels outside of the core logic
-            assert request_codes is not None
             missing_channels = [
                 code
-                for idx, code in zip(top_idx_mapping, request_codes)
+                for idx, code in zip(top_idx_mapping, request_codes or [])
                 if idx is None
             ]
             if missing_channels:
-- 
2.43.0


From acb07eb9dd16dcd72ce90593e417764197771a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 07/50] fix: select the right band by name when names are
 repeated

---
 delayed_image/delayed_nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 979e38a..03e540e 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -926,12 +926,12 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             assert current_channels is not None
             # Compute subindex integer mapping
             request_codes = channels.as_list()
-            top_codes = current_channels.as_oset()
+            top_codes = current_channels.as_list()
             top_idx_mapping = []
             for code in request_codes:
                 try:
                     top_idx_mapping.append(top_codes.index(code))
-                except KeyError:
+                except ValueError:
                     top_idx_mapping.append(None)
 
         if missing_channel_policy == 'return_nan':
@@ -1413,12 +1413,12 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
                 return self
             # Computer subindex integer mapping
             request_codes = channels.as_list()
-            top_codes = current_channels.as_oset()
+            top_codes = current_channels.as_list()
             try:
                 top_idx_mapping = [
                     top_codes.index(code) for code in request_codes
                 ]
-            except KeyError:
+            except ValueError:
                 # If a requested channel doesn't exist we break this node up
                 # into a concat node so we can use its nan handing logic
                 # This should be easy to optimize if necessary.
-- 
2.43.0


From 6c0e6c66e80d5552515729a285cd94494affe454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 08/50] fix: nearest warps onto a canvas that extends beyond
 the image

---
 delayed_image/delayed_nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 03e540e..6f364ef 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1862,8 +1862,8 @@ class DelayedWarp(DelayedImage):
                 if prewarp.ndim == 2:
                     final = np.full((out_h, out_w), fill, dtype=prewarp.dtype)
                     if valid.any():
-                        yy = yi[:, None]
-                        xx = xi[None, :]
+                        yy = yi.clip(0, in_h - 1)[:, None]
+                        xx = xi.clip(0, in_w - 1)[None, :]
                         final[valid] = prewarp[yy, xx][valid]
                 else:
                     num_chan = prewarp.shape[2]
@@ -1871,8 +1871,8 @@ class DelayedWarp(DelayedImage):
                         (out_h, out_w, num_chan), fill, dtype=prewarp.dtype
                     )
                     if valid.any():
-                        yy = yi[:, None]
-                        xx = xi[None, :]
+                        yy = yi.clip(0, in_h - 1)[:, None]
+                        xx = xi.clip(0, in_w - 1)[None, :]
                         sampled = prewarp[yy, xx]
                         final[valid, :] = sampled[valid, :]
                 if os.environ.get('DELAYED_IMAGE_WARP_DEBUG', ''):
-- 
2.43.0


From a8e6952709cfdfa324c40e64fed224c90a09c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 09/50] fix: nearest warps always use the requested transform

---
 delayed_image/delayed_nodes.py | 91 ++++------------------------------
 1 file changed, 10 insertions(+), 81 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 6f364ef..242abc4 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1895,10 +1895,8 @@ class DelayedWarp(DelayedImage):
         )
         if matrix_mode == 'forward':
             M = np.asarray(transform)
-            alt_M = np.asarray(transform.inv())
         else:
             M = np.asarray(transform.inv())
-            alt_M = np.asarray(transform)
 
         # Determine antialiasing from the forward transform semantics.
         # (Passing the inverse transform directly would invert this heuristic.)
@@ -1958,85 +1956,16 @@ class DelayedWarp(DelayedImage):
                 final = kwarray.atleast_nd(final, 3, front=False)
                 return final
 
-            # Robustness for runtime convention mismatches: evaluate both
-            # conventions and keep the better-scoring result.
-            cand1 = kwimage.warp_affine(
-                prewarp,
-                M,
-                dsize=dsize,
-                interpolation=interpolation,
-                antialias=use_antialias,
-                border_value=warp_border_value,
-                origin_convention='corner',
-                backend=backend,
-            )
-            cand2 = kwimage.warp_affine(
-                prewarp,
-                alt_M,
-                dsize=dsize,
-                interpolation=interpolation,
-                antialias=use_antialias,
-                border_value=warp_border_value,
-                origin_convention='corner',
-                backend=backend,
-            )
-
-            src_fin = np.isfinite(prewarp)
-            src_uniq = (
-                int(np.unique(prewarp[src_fin]).size) if src_fin.any() else 0
-            )
-
-            def _score(arr):
-                fin = np.isfinite(arr)
-                fin_ratio = float(fin.mean()) if fin.size else 0.0
-                uniq = int(np.unique(arr[fin]).size) if fin.any() else 0
-                # Prefer outputs with finite coverage and value diversity close
-                # to source for nearest-neighbor upscales.
-                uniq_gap = abs(uniq - src_uniq)
-                return (fin_ratio, -uniq_gap, uniq)
-
-            score1 = _score(cand1)
-            score2 = _score(cand2)
-            use_primary = score1 >= score2
-            final = cand1 if use_primary else cand2
-
-            # Last-resort rescue for pathological runtime stacks where both
-            # matrix conventions collapse to mostly NaNs.
-            if max(score1[0], score2[0]) < 0.05:
-                final = kwimage.imresize(
-                    prewarp, dsize=dsize, interpolation='nearest'
-                )
-
-            if os.environ.get('DELAYED_IMAGE_WARP_DEBUG', ''):
-                print(
-                    'DelayedWarp nearest matrix debug:',
-                    {
-                        'dtype': str(prewarp.dtype),
-                        'backend': backend,
-                        'matrix_mode': matrix_mode,
-                        'source_unique': src_uniq,
-                        'score_primary': score1,
-                        'score_alt': score2,
-                        'chosen': 'primary' if use_primary else 'alt',
-                        'is_near_scale_only': is_near_scale_only,
-                        'used_imresize_rescue': bool(
-                            max(score1[0], score2[0]) < 0.05
-                        ),
-                        'primary_preview': np.unique(cand1)[0:8].tolist(),
-                        'alt_preview': np.unique(cand2)[0:8].tolist(),
-                    },
-                )
-        else:
-            final = kwimage.warp_affine(
-                prewarp,
-                M,
-                dsize=dsize,
-                interpolation=interpolation,
-                antialias=use_antialias,
-                border_value=warp_border_value,
-                origin_convention='corner',
-                backend=backend,
-            )
+        final = kwimage.warp_affine(
+            prewarp,
+            M,
+            dsize=dsize,
+            interpolation=interpolation,
+            antialias=use_antialias,
+            border_value=warp_border_value,
+            origin_convention='corner',
+            backend=backend,
+        )
 
         # final = kwimage.warp_projective(sub_data_, M, dsize=dsize, flags=flags)
         # Ensure that the last dimension is channels
-- 
2.43.0


From d88859bd153704e75b6ceb9b77bebdeb7eccbd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 10/50] fix: nearest scaling onto a canvas of another size does
 not stretch

---
 delayed_image/delayed_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 242abc4..eec55b7 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1928,6 +1928,7 @@ class DelayedWarp(DelayedImage):
             shearx = abs(float(params.get('shearx', 0)))
             sx, sy = params['scale']
             tx, ty = params['offset']
+            in_h, in_w = prewarp.shape[0:2]
             is_near_scale_only = (
                 theta < 1e-9
                 and shearx < 1e-9
@@ -1935,6 +1936,9 @@ class DelayedWarp(DelayedImage):
                 and abs(float(ty)) < 1e-9
                 and sx > 0
                 and sy > 0
+                # The canvas must be filled by the scaled image
+                and abs(in_w * sx - dsize[0]) < 1
+                and abs(in_h * sy - dsize[1]) < 1
             )
             # Deterministic fast-path: nearest + pure positive scale should
             # behave like nearest resize regardless of affine convention.
-- 
2.43.0


From b8030fd8f0b5041cdc6f6eb0b6a3a29b7b5760b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 11/50] fix: warps that mirror the image can be antialiased

---
 delayed_image/delayed_nodes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index eec55b7..9102ceb 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1825,6 +1825,15 @@ class DelayedWarp(DelayedImage):
         params = None
         if interpolation == 'nearest' or bool(antialias):
             params = transform.decompose()
+            if params['scale'][1] < 0:
+                # Antialiasing cannot handle reflections, so mirror the input
+                # and compensate in the transform.
+                mirror = np.array(
+                    [[1, 0, 0], [0, -1, prewarp.shape[0]], [0, 0, 1]]
+                )
+                prewarp = prewarp[::-1]
+                transform = kwimage.Affine(np.asarray(transform) @ mirror)
+                params = transform.decompose()
 
         # Deterministic nearest path for translated axis-aligned affines.
         # Pure positive scales use the imresize fastpath below, which is
-- 
2.43.0


From 9d162ea7b6c5a8eb2f745810f0fee98bba1f276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 12/50] fix: lazy and padded crops respect the requested bands

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 9102ceb..1198072 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -336,6 +336,7 @@ class ImageOpsMixin:
                 and (sl_x.start is None or sl_x.start == 0)
                 and (sl_x.stop is None or sl_x.stop == w)
                 and (not pad)
+                and chan_idxs is None
             )
             if is_noop:
                 return _as_image_like(self)
@@ -354,6 +355,8 @@ class ImageOpsMixin:
             # Currently padding doesn't really work with crops, so its not
             # efficient, but we can hack it to work with warps.
             new = self._padded_crop(space_slice, pad=pad)
+            if chan_idxs is not None:
+                new = DelayedCrop(new, None, chan_idxs)
         else:
             # Normal efficient case
             # FIXME: This is using index-based slices and it there needs to be
-- 
2.43.0


From f6ea59cdc986316f3bd9129ac78c8ba6a5c02e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 13/50] fix: optimize a level zero overview of a concatenation

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 1198072..22fd807 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3133,7 +3133,7 @@ class DelayedOverview(DelayedImage):
         elif isinstance2(new.subdata, DelayedDequantize):
             new = new._opt_dequant_after_overview()
             new = new.optimize(ctx)
-        if isinstance2(new.subdata, DelayedChannelConcat):
+        elif isinstance2(new.subdata, DelayedChannelConcat):
             pushed = new._opt_push_under_concat()
             if pushed is not new:
                 new = pushed.optimize(ctx)
-- 
2.43.0


From dceae282eb371b61b9821ca3f536a12a31d9d3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 14/50] fix: the requested warp backend survives optimization

---
 delayed_image/delayed_nodes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 22fd807..23c215f 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1757,6 +1757,7 @@ class DelayedWarp(DelayedImage):
             'antialias',
             'border_value',
             'noop_eps',
+            'backend',
         ]
 
     @property
-- 
2.43.0


From 795e9d81ac29bb854b278a9b1ee2e9ee61738545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 15/50] fix: squashing nans only changes the returned warp of
 all-nan parts

---
 delayed_image/delayed_nodes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 23c215f..956a922 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1598,14 +1598,14 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
         undo_warp = kwimage.Affine.coerce(undo_components)
         undone_part = part.warp(undo_warp).optimize()
         if squash_nans:
-            if return_warp:
-                # hack the return undo_warp
-                assert undone_part.dsize is not None
-                w, h = undone_part.dsize
-                assert w is not None
-                assert h is not None
-                undo_warp = kwimage.Affine.scale((1 / w, 1 / h)) @ undo_warp
             if isinstance2(undone_part, delayed_leafs.DelayedNans):
+                if return_warp:
+                    # hack the return undo_warp
+                    assert undone_part.dsize is not None
+                    w, h = undone_part.dsize
+                    assert w is not None
+                    assert h is not None
+                    undo_warp = kwimage.Affine.scale((1 / w, 1 / h)) @ undo_warp
                 undone_part = undone_part[0:1, 0:1].optimize()
         if return_warp:
             return undone_part, undo_warp
-- 
2.43.0


From ab79c91c861e9b18546b48b6ed457454bb99857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 16/50] fix: crops and warps of unnamed nan channels keep the
 number of channels

---
 delayed_image/delayed_leafs.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/delayed_image/delayed_leafs.py b/delayed_image/delayed_leafs.py
index b576d19..de40336 100644
--- a/delayed_image/delayed_leafs.py
+++ b/delayed_image/delayed_leafs.py
@@ -410,11 +410,11 @@ class DelayedNans(DelayedImageLeaf):
             DelayedImage
         """
         assert space_slice is not None
-        if chan_idxs is None:
-            channels = self.channels
-        else:
-            assert self.channels is not None
-            channels = self.channels[chan_idxs]
+        channels = self.channels
+        if channels is None:
+            channels = self.num_channels if chan_idxs is None else len(chan_idxs)
+        elif chan_idxs is not None:
+            channels = channels[chan_idxs]
         dsize = self.dsize
         assert dsize is not None
         width, height = dsize
@@ -437,7 +437,10 @@ class DelayedNans(DelayedImageLeaf):
             DelayedImage
         """
         # Warping does nothing to nans, except maybe changing the dsize
-        new = self.__class__(dsize, channels=self.channels, **self._kwargs)
+        channels = self.channels
+        if channels is None:
+            channels = self.num_channels
+        new = self.__class__(dsize, channels=channels, **self._kwargs)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('Nans._optimized_warp')
         return new
-- 
2.43.0


From 646f57f541b855b138c5137e0ccbd1fa81b84d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 17/50] fix: evaluated single band images have the declared
 shape

---
 delayed_image/delayed_base.py  | 4 ++++
 delayed_image/delayed_nodes.py | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_base.py b/delayed_image/delayed_base.py
index d5d5f88..1608c18 100644
--- a/delayed_image/delayed_base.py
+++ b/delayed_image/delayed_base.py
@@ -445,6 +445,10 @@ class DelayedOperation:
         final = self._finalize()
         # Ensure we are array like
         final = final[:]
+        if isinstance(final, np.ndarray) and final.ndim == 2:
+            # Single band images may be stored or read without a channel axis
+            if len(self.shape) == 3:
+                final = final[:, :, None]
         # final = np.asanyarray(final) # does not work with xarray
         return final
 
diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 956a922..7036bf3 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1650,8 +1650,8 @@ class DelayedAsXarray(DelayedImage):
         coords = {}
         if channels is not None:
             coords['c'] = channels.code_list()
-            if len(subfinal.shape) == 2:
-                subfinal = subfinal[:, :, None]
+        if len(subfinal.shape) == 2:
+            subfinal = subfinal[:, :, None]
         final = xr.DataArray(subfinal, dims=('y', 'x', 'c'), coords=coords)
         return final
 
-- 
2.43.0


From 67b999d27215319200a12fa183b803ca3e1f18de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 18/50] fix: concatenating masked bands keeps their masks

---
 delayed_image/delayed_nodes.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 7036bf3..e1ff6d8 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -790,8 +790,16 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
         if len(stack) == 1:
             final = stack[0]
         else:
-            stack = [kwarray.atleast_nd(s, 3) for s in stack]
-            final = np.concatenate(stack, axis=2)
+            stack = [
+                kwarray.atleast_nd(
+                    s if isinstance(s, np.ndarray) else s[:], 3
+                )
+                for s in stack
+            ]
+            if any(isinstance(s, np.ma.MaskedArray) for s in stack):
+                final = np.ma.concatenate(stack, axis=2)
+            else:
+                final = np.concatenate(stack, axis=2)
         return final
 
     def optimize(
-- 
2.43.0


From b8fc93a98f68bbe89bd334beeffe0f0cecc86d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 19/50] fix: translating float images by whole pixels does not
 lose pixels

Padded crops of float images were missing the last row and column.
---
 delayed_image/delayed_nodes.py | 56 ++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index e1ff6d8..2ea4c74 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -64,6 +64,50 @@ def _kwimage_version() -> tuple[int, ...]:
     return _version_tuple(getattr(kwimage, '__version__', '0'))
 
 
+def _integral_translation(
+    transform: kwimage.Affine,
+) -> tuple[int, int] | None:
+    """
+    Returns the x and y offset of a transform that does nothing but translate
+    by a whole number of pixels, and None for all other transforms.
+    """
+    matrix = np.asarray(transform, dtype=float)
+    offset = np.round(matrix[0:2, 2])
+    expected = np.eye(3)
+    expected[0:2, 2] = offset
+    if not np.allclose(matrix, expected, rtol=0, atol=1e-9):
+        return None
+    return int(offset[0]), int(offset[1])
+
+
+def _translate_image(
+    image: np.ndarray,
+    shift: tuple[int, int],
+    dsize: tuple[int, int],
+    fill: float,
+) -> np.ndarray:
+    """
+    Translate an image by whole pixels onto a canvas of the given size.
+
+    Example:
+        >>> from delayed_image.delayed_nodes import _translate_image
+        >>> image = np.arange(6).reshape(2, 3)
+        >>> print(_translate_image(image, (-1, 1), (3, 3), 9)[..., 0])
+        [[9 9 9]
+         [1 2 9]
+         [4 5 9]]
+    """
+    image = kwarray.atleast_nd(image, 3, front=False)
+    (tx, ty), (out_w, out_h) = shift, dsize
+    in_h, in_w, num_chan = image.shape
+    final = np.full((out_h, out_w, num_chan), fill, dtype=image.dtype)
+    x1, x2 = max(tx, 0), min(tx + in_w, out_w)
+    y1, y2 = max(ty, 0), min(ty + in_h, out_h)
+    if x1 < x2 and y1 < y2:
+        final[y1:y2, x1:x2] = image[y1 - ty : y2 - ty, x1 - tx : x2 - tx]
+    return final
+
+
 def _warp_affine_matrix_mode(
     dtype: Any = np.float32,
     backend: str = 'auto',
@@ -1834,6 +1878,18 @@ class DelayedWarp(DelayedImage):
 
         dsize = _ensure_valid_dsize(dsize)
 
+        shift = _integral_translation(transform)
+        if (
+            shift is not None
+            and prewarp.dtype.kind == 'f'
+            and isinstance(border_value, tuple)
+            and len(set(map(str, border_value))) == 1
+            and not isinstance(prewarp, np.ma.MaskedArray)
+        ):
+            # Whole pixel translations are exact. (Resampling would lose the
+            # pixels next to a nan border).
+            return _translate_image(prewarp, shift, dsize, border_value[0])
+
         params = None
         if interpolation == 'nearest' or bool(antialias):
             params = transform.decompose()
-- 
2.43.0


From e968979e5d75fe17d43dc82e5cd251594bb9d585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 20/50] fix: optimize the warp that remains after absorbing an
 overview

Optimizing the result a second time could change it again.
---
 delayed_image/delayed_nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 2ea4c74..79eb3dd 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2139,7 +2139,10 @@ class DelayedWarp(DelayedImage):
                 new.subdata = new.subdata.optimize(ctx)
                 new = new.optimize(ctx)
             else:
-                new = new._opt_absorb_overview()
+                absorbed = new._opt_absorb_overview()
+                if absorbed is not new:
+                    # The remaining warp may be negligible or splittable
+                    new = absorbed.optimize(ctx)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('optimize DelayedWarp')
         memo[self] = new
-- 
2.43.0


From f8b93f1d001fedb65adf05dca64d9863fffaffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 21/50] fix: mirrored warps only use overviews when both axes
 are downsampled

---
 delayed_image/delayed_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 79eb3dd..3b30ace 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2481,7 +2481,8 @@ class DelayedWarp(DelayedImage):
         # Check if there is a strict downsampling component
         transform = self.meta['transform']
         params = transform.decompose()
-        sx, sy = params['scale']
+        # Mirrored axes have a negative scale
+        sx, sy = map(abs, params['scale'])
         if sx > 0.5 or sy > 0.5:
             return self
 
-- 
2.43.0


From b3173bd60173ec571c525f549b8af885f7e9a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 22/50] fix: keep the border value when a warp is replaced by
 an overview

---
 delayed_image/delayed_nodes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 3b30ace..ed60850 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2507,10 +2507,17 @@ class DelayedWarp(DelayedImage):
         overview = inner_data.get_overview(num_downs)
         if new_transform.isclose_identity():
             new = overview
-            if new.dsize != dsize:
+            if dsize[0] > new.dsize[0] or dsize[1] > new.dsize[1]:
+                # The canvas extends beyond the overview, keep the warp such
+                # that the outside is filled as requested.
+                common_meta = ub.dict_isect(self.meta, self._algo_keys)
+                new = new.warp(new_transform, dsize=dsize, **common_meta)
+                if TRACE_OPTIMIZE:
+                    new._opt_logs.append('Factor out overview from warp')
+            elif new.dsize != dsize:
                 # The warp must have had an implicit crop
                 implicit_crop = (slice(0, dsize[1]), slice(0, dsize[0]))
-                new = new.crop(implicit_crop, clip=False, wrap=False)
+                new = new.crop(implicit_crop)
                 if TRACE_OPTIMIZE:
                     new._opt_logs.append(
                         'Rewrite power of 2 warp as overview with crop'
-- 
2.43.0


From 877d3ba3a8cb65f8ec6bcbbebb3b646f06fa91c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 23/50] fix: select bands of a single band image under an
 overview

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index ed60850..bd26fd3 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2746,6 +2746,9 @@ class DelayedCrop(DelayedImage):
             full_slice = space_slice
         else:
             full_slice = space_slice + (chan_idxs,)
+            if isinstance(sub_final, np.ndarray):
+                # Overviews of single band files have no band axis
+                sub_final = kwarray.atleast_nd(sub_final, 3, front=False)
         # final = sub_final[space_slice]
         final = sub_final[full_slice]
         final = kwarray.atleast_nd(final, 3)
-- 
2.43.0


From 6d408bf2b892455c739fe884f603c6fa477ba6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 24/50] fix: do not absorb overviews below an empty crop

---
 delayed_image/delayed_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index bd26fd3..2992880 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2278,6 +2278,10 @@ class DelayedWarp(DelayedImage):
             elif isinstance2(subdata, DelayedDequantize):
                 pass
             elif isinstance2(subdata, DelayedCrop):
+                if 0 in subdata.meta['dsize']:
+                    # Cannot move a warp over an empty crop
+                    subdata = None
+                    break
                 num_dcrops += 1
             else:
                 subdata = None
-- 
2.43.0


From e1dc6716a5d6b583f66fa757fddb98137789d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 25/50] fix: as_xarray views have a transform from their leaf

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 2992880..a13ea64 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1729,6 +1729,9 @@ class DelayedAsXarray(DelayedImage):
         memo[self] = new
         return new
 
+    def _transform_from_subdata(self):
+        return kwimage.Affine.eye()
+
 
 class DelayedWarp(DelayedImage):
     """
-- 
2.43.0


From 7a4551a30f74cdabfa30ebeb9ea34bdd7f1c2f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 26/50] fix: keep resampling parameters when a warp of a crop
 becomes an overview

---
 delayed_image/delayed_nodes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index a13ea64..c7b9b97 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2514,9 +2514,14 @@ class DelayedWarp(DelayedImage):
         overview = inner_data.get_overview(num_downs)
         if new_transform.isclose_identity():
             new = overview
-            if dsize[0] > new.dsize[0] or dsize[1] > new.dsize[1]:
-                # The canvas extends beyond the overview, keep the warp such
-                # that the outside is filled as requested.
+            if (
+                isinstance2(inner_data, DelayedCrop)
+                or dsize[0] > new.dsize[0]
+                or dsize[1] > new.dsize[1]
+            ):
+                # The canvas extends beyond the overview, or a crop may not
+                # align with the overview. Keep the warp such that the outside
+                # is filled and the realignment is resampled as requested.
                 common_meta = ub.dict_isect(self.meta, self._algo_keys)
                 new = new.warp(new_transform, dsize=dsize, **common_meta)
                 if TRACE_OPTIMIZE:
-- 
2.43.0


From 12f4c2194875ecbe428724aa7246738efd346b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 27/50] fix: overviews of nan images are nan images

---
 delayed_image/delayed_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c7b9b97..c4db510 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3215,6 +3215,10 @@ class DelayedOverview(DelayedImage):
 
         if new.meta['overview'] == 0:
             new = new.subdata
+        elif isinstance2(new.subdata, delayed_leafs.DelayedNans):
+            new = new.subdata._optimized_warp(
+                new._transform_from_subdata(), dsize=new.dsize
+            )
         elif isinstance2(new.subdata, DelayedCrop):
             new = new._opt_crop_after_overview()
             new = new.optimize(ctx)
-- 
2.43.0


From 13cbb5c711f0902b1edbfcf37e9fcb883f1b4282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:28 +0000
Subject: [PATCH 28/50] fix: keep resampling parameters when a warp of a
 dequantized crop becomes an overview

---
 delayed_image/delayed_nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c4db510..40096ad 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2514,8 +2514,11 @@ class DelayedWarp(DelayedImage):
         overview = inner_data.get_overview(num_downs)
         if new_transform.isclose_identity():
             new = overview
+            cropped = inner_data
+            while isinstance2(cropped, DelayedDequantize):
+                cropped = cropped.subdata
             if (
-                isinstance2(inner_data, DelayedCrop)
+                isinstance2(cropped, DelayedCrop)
                 or dsize[0] > new.dsize[0]
                 or dsize[1] > new.dsize[1]
             ):
-- 
2.43.0


From 5c4abd5196330060638d2d99dd886216d9501a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 29/50] fix: parse sequences of channels without sensors and
 with empty items

"(a,b)" could not be parsed because "(" was taken as the start of a sensor
sequence, and the compact form of a spec with an empty channel item,
"S1:(a,)", could not be parsed back.
---
 delayed_image/sensorchan_spec.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/delayed_image/sensorchan_spec.py b/delayed_image/sensorchan_spec.py
index 2ced0f8..9a301f5 100644
--- a/delayed_image/sensorchan_spec.py
+++ b/delayed_image/sensorchan_spec.py
@@ -60,10 +60,15 @@ SENSOR_CHAN_GRAMMAR = ub.codeblock(
     fused : chan_code ("|" chan_code)*
 
     // Channels can be specified in a sequence but must contain parens
-    fused_seq : "(" fused ("," fused)* ")"
+    // Items of a sequence may be empty.
+    no_fused :
+    _seq_item : fused | no_fused
+    fused_seq : "(" _seq_item ("," _seq_item)* ")"
 
     // Sensors can be specified in a sequence but must contain parens
-    sensor_seq : "(" IDEN ("," IDEN)* "):"
+    // (lookahead to the end of the sequence to distinguish it from channels)
+    _SENSOR_LPAR.2 : /\\((?=[^()]*\\):)/
+    sensor_seq : _SENSOR_LPAR IDEN ("," IDEN)* "):"
 
     sensor_lhs : (IDEN ":") | (sensor_seq)
 
@@ -721,6 +726,9 @@ class SensorChanTransformer(_TRANSFORMER_BASE):
             ret = ret.concise()
         return ret
 
+    def no_fused(self, items):
+        return FusedChanNode([])
+
     def channel_rhs(self, items):
         flat = []
         for item in items:
-- 
2.43.0


From addd92334b88ee5c803c72eefd04947ce453e5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 30/50] fix: the empty sensorchan spec has streams and a
 concise form

normalize("") gives "*:" but streams(), concise(), split(), numel() raised.
---
 delayed_image/sensorchan_spec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delayed_image/sensorchan_spec.py b/delayed_image/sensorchan_spec.py
index 9a301f5..ad62b8e 100644
--- a/delayed_image/sensorchan_spec.py
+++ b/delayed_image/sensorchan_spec.py
@@ -840,8 +840,6 @@ def normalize_sensor_chan(spec: str):
         >>> spec = '*:(rgb,,cde)'
         >>> concise_spec = normalize_sensor_chan(spec)
     """
-    if spec == '':
-        spec = '*:'
     transformed = sensorchan_normalized_parts(spec)
     new_spec = ','.join([n.spec for n in transformed])
     return new_spec
@@ -906,6 +904,9 @@ def sensorchan_normalized_parts(spec: str):
 
 
 def _string_safe_parse(parser, text):
+    if text == '':
+        # The empty spec: no channels from the generic sensor
+        text = '*:'
     try:
         tree = parser.parse(text)
     except TypeError:
-- 
2.43.0


From f489c4420651206601859907d00953b49d41b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 31/50] fix: late fusion of a channel spec with a string

The type str was used in place of the given string, which always raised.
---
 delayed_image/channel_spec.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index fa2b8dc..38ba8b8 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -277,9 +277,8 @@ class BaseChannelSpec:
             A|B|C,edf,A12,rgb
         """
         if isinstance(other, str):
-            other_spec = str
-        else:
-            other_spec = other.spec
+            other = ChannelSpec.coerce(other)
+        other_spec = other.spec
         if not self.spec:
             return other
         if not other_spec:
-- 
2.43.0


From cc19c83d40e0385d220089e49c9715daf13964fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 32/50] fix: component indices of fused channel codes with
 slices

A slice code such as a:3 was given a single index, and every code after it
the wrong ones.
---
 delayed_image/channel_spec.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index 38ba8b8..49365d7 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -880,8 +880,7 @@ class FusedChannelSpec(BaseChannelSpec):
         """
         component_indices = dict()
         idx1 = 0
-        for part in self.parsed:
-            size = self._size_lut.get(part, 1)
+        for part, size in zip(self.parsed, self.sizes()):
             idx2 = idx1 + size
             index = tuple([slice(None)] * axis + [slice(idx1, idx2)])
             idx1 = idx2
-- 
2.43.0


From 2a292fa4564a9ec9830333ce7082539a6c37e37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 33/50] fix: coercing to a fused spec does not depend on what
 was coerced before

coerce(2.0) raised a TypeError unless coerce(2) had been called earlier.
---
 delayed_image/channel_spec.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index 49365d7..43dc406 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -492,11 +492,13 @@ class FusedChannelSpec(BaseChannelSpec):
             >>> FusedChannelSpec.coerce(FusedChannelSpec(['a']))
             >>> assert FusedChannelSpec.coerce('').numel() == 0
         """
-        try:
-            # Efficiency hack
-            return cls._memo[data]
-        except (KeyError, TypeError):
-            pass
+        if isinstance(data, (str, int)):
+            # (other types may equal a key, e.g. 2.0 == 2)
+            try:
+                # Efficiency hack
+                return cls._memo[data]
+            except KeyError:
+                pass
         if isinstance(data, list):
             self = cls(data)
         elif isinstance(data, str):
-- 
2.43.0


From e601190416c3135c759d5ee673e31fbf76f91490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 34/50] fix: simple mode of encode with codes of several
 channels

Iterating over the spec gives its normalized channels, which are not keys of
the components when a code is an alias or a slice.
---
 delayed_image/channel_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index 43dc406..fda5e10 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -1574,7 +1574,7 @@ class ChannelSpec(BaseChannelSpec):
             fused = {}
             for key, parts in parsed.items():
                 fused[key] = _impl.cat(
-                    [components[k] for k in parts], axis=axis
+                    [components[k] for k in parts.parsed], axis=axis
                 )
         else:
             raise KeyError(mode)
-- 
2.43.0


From 8b7f0a0387bc6c95e6f6fe06fccb7fcd4a08e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 35/50] Revert "fix: simple mode of encode with codes of
 several channels"

This reverts commit e601190416c3135c759d5ee673e31fbf76f91490.
---
 delayed_image/channel_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index fda5e10..43dc406 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -1574,7 +1574,7 @@ class ChannelSpec(BaseChannelSpec):
             fused = {}
             for key, parts in parsed.items():
                 fused[key] = _impl.cat(
-                    [components[k] for k in parts.parsed], axis=axis
+                    [components[k] for k in parts], axis=axis
                 )
         else:
             raise KeyError(mode)
-- 
2.43.0


From 70887c2b2ce8c9f0fa9f863ee899416bdf5c8cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 36/50] Revert "fix: coercing to a fused spec does not depend
 on what was coerced before"

This reverts commit 2a292fa4564a9ec9830333ce7082539a6c37e37a.
---
 delayed_image/channel_spec.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index 43dc406..49365d7 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -492,13 +492,11 @@ class FusedChannelSpec(BaseChannelSpec):
             >>> FusedChannelSpec.coerce(FusedChannelSpec(['a']))
             >>> assert FusedChannelSpec.coerce('').numel() == 0
         """
-        if isinstance(data, (str, int)):
-            # (other types may equal a key, e.g. 2.0 == 2)
-            try:
-                # Efficiency hack
-                return cls._memo[data]
-            except KeyError:
-                pass
+        try:
+            # Efficiency hack
+            return cls._memo[data]
+        except (KeyError, TypeError):
+            pass
         if isinstance(data, list):
             self = cls(data)
         elif isinstance(data, str):
-- 
2.43.0


From 4aeb4b0a92802fe6d120e7e23044e4af6d1373fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 37/50] Revert "fix: component indices of fused channel codes
 with slices"

This reverts commit cc19c83d40e0385d220089e49c9715daf13964fd.
---
 delayed_image/channel_spec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index 49365d7..38ba8b8 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -880,7 +880,8 @@ class FusedChannelSpec(BaseChannelSpec):
         """
         component_indices = dict()
         idx1 = 0
-        for part, size in zip(self.parsed, self.sizes()):
+        for part in self.parsed:
+            size = self._size_lut.get(part, 1)
             idx2 = idx1 + size
             index = tuple([slice(None)] * axis + [slice(idx1, idx2)])
             idx1 = idx2
-- 
2.43.0


From 50c069840bd12a68c795e1a39f99945318a00b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 38/50] Revert "fix: late fusion of a channel spec with a
 string"

This reverts commit f489c4420651206601859907d00953b49d41b943.
---
 delayed_image/channel_spec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index 38ba8b8..fa2b8dc 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -277,8 +277,9 @@ class BaseChannelSpec:
             A|B|C,edf,A12,rgb
         """
         if isinstance(other, str):
-            other = ChannelSpec.coerce(other)
-        other_spec = other.spec
+            other_spec = str
+        else:
+            other_spec = other.spec
         if not self.spec:
             return other
         if not other_spec:
-- 
2.43.0


From a07e13c994fee20ccd21890d19969592f3e7754f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 39/50] Revert "fix: the empty sensorchan spec has streams and
 a concise form"

This reverts commit addd92334b88ee5c803c72eefd04947ce453e5b8.
---
 delayed_image/sensorchan_spec.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/delayed_image/sensorchan_spec.py b/delayed_image/sensorchan_spec.py
index ad62b8e..9a301f5 100644
--- a/delayed_image/sensorchan_spec.py
+++ b/delayed_image/sensorchan_spec.py
@@ -840,6 +840,8 @@ def normalize_sensor_chan(spec: str):
         >>> spec = '*:(rgb,,cde)'
         >>> concise_spec = normalize_sensor_chan(spec)
     """
+    if spec == '':
+        spec = '*:'
     transformed = sensorchan_normalized_parts(spec)
     new_spec = ','.join([n.spec for n in transformed])
     return new_spec
@@ -904,9 +906,6 @@ def sensorchan_normalized_parts(spec: str):
 
 
 def _string_safe_parse(parser, text):
-    if text == '':
-        # The empty spec: no channels from the generic sensor
-        text = '*:'
     try:
         tree = parser.parse(text)
     except TypeError:
-- 
2.43.0


From 273f47e4b5c83697db176f83a1b403dbd0663767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 40/50] Revert "fix: parse sequences of channels without
 sensors and with empty items"

This reverts commit 5c4abd5196330060638d2d99dd886216d9501a5b.
---
 delayed_image/sensorchan_spec.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/delayed_image/sensorchan_spec.py b/delayed_image/sensorchan_spec.py
index 9a301f5..2ced0f8 100644
--- a/delayed_image/sensorchan_spec.py
+++ b/delayed_image/sensorchan_spec.py
@@ -60,15 +60,10 @@ SENSOR_CHAN_GRAMMAR = ub.codeblock(
     fused : chan_code ("|" chan_code)*
 
     // Channels can be specified in a sequence but must contain parens
-    // Items of a sequence may be empty.
-    no_fused :
-    _seq_item : fused | no_fused
-    fused_seq : "(" _seq_item ("," _seq_item)* ")"
+    fused_seq : "(" fused ("," fused)* ")"
 
     // Sensors can be specified in a sequence but must contain parens
-    // (lookahead to the end of the sequence to distinguish it from channels)
-    _SENSOR_LPAR.2 : /\\((?=[^()]*\\):)/
-    sensor_seq : _SENSOR_LPAR IDEN ("," IDEN)* "):"
+    sensor_seq : "(" IDEN ("," IDEN)* "):"
 
     sensor_lhs : (IDEN ":") | (sensor_seq)
 
@@ -726,9 +721,6 @@ class SensorChanTransformer(_TRANSFORMER_BASE):
             ret = ret.concise()
         return ret
 
-    def no_fused(self, items):
-        return FusedChanNode([])
-
     def channel_rhs(self, items):
         flat = []
         for item in items:
-- 
2.43.0


From 8ef16eb046e1eaad9c4da835d73bfb0445d922c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 41/50] fix: read files with 64 bit integer and int8 pixels

GDAL 3.5 and 3.7 added these types.
---
 delayed_image/lazy_loaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index bebed9d..ee528a3 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -115,6 +115,9 @@ _GDAL_DTYPE_LUT = {
     9: complex_,
     10: np.complex64,
     11: np.complex128,
+    12: np.uint64,
+    13: np.int64,
+    14: np.int8,
 }
 
 
-- 
2.43.0


From 49598f539bec3f3a8e6dbb3f7dc9970808e077f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 42/50] fix: negative integers index lazy readers from the end

They were passed on to gdal, which raised an error or returned the first row.
---
 delayed_image/lazy_loaders.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index ee528a3..bcbdff4 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -1097,6 +1097,8 @@ def _rectify_slice_dim(part, D):
         part = slice(start, stop)
         return part
     elif isinstance(part, int):
+        if part < 0:
+            part = D + part
         part = slice(part, part + 1)
     elif isinstance(part, list):
         part = part
-- 
2.43.0


From 95ac51ca039aa79e6be1e624c4b1a5a5346a7f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 43/50] fix: mask nodata pixels when the nodata value is nan

With nodata_method='ma' no pixel was masked because nan does not equal itself.
---
 delayed_image/lazy_loaders.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index bcbdff4..027a862 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -121,6 +121,15 @@ _GDAL_DTYPE_LUT = {
 }
 
 
+def _equals_nodata(data, nodata):
+    """
+    Where the data is the nodata value, which might be nan
+    """
+    if nodata != nodata:
+        return np.isnan(data)
+    return np.equal(data, nodata)
+
+
 def _gdal_read_kwimage_compatible(
     gdal_dset,
     overview,
@@ -233,7 +242,7 @@ def _gdal_read_kwimage_compatible(
             if band_nodata is None:
                 mask = np.zeros(buf.shape, dtype=bool)
             else:
-                mask = np.equal(buf, band_nodata)
+                mask = _equals_nodata(buf, band_nodata)
             if color_table is not None:
                 table_chans = idx_to_color.shape[1]
                 mask = np.tile(mask[:, :, None], (1, 1, table_chans))
@@ -265,7 +274,7 @@ def _gdal_read_kwimage_compatible(
             if nodata_method is not None:
                 band_nodata = band_nodata_values[idx]
                 if band_nodata is not None:
-                    np.equal(buf, band_nodata, out=mask[:, :, idx])
+                    mask[:, :, idx] = _equals_nodata(buf, band_nodata)
 
     if nodata_method is not None:
         if nodata_method == 'ma':
@@ -736,7 +745,7 @@ class LazyGDalFrameFile(ub.NiceRepr):
                 ).GetNoDataValue()
                 mask = np.zeros(image.shape, dtype=bool)
                 if band_nodata is not None:
-                    np.equal(image, band_nodata, out=mask)
+                    mask = _equals_nodata(image, band_nodata)
             else:
                 mask = np.zeros(image.shape, dtype=bool)
                 for idx, band_num in enumerate(band_list):
@@ -744,8 +753,8 @@ class LazyGDalFrameFile(ub.NiceRepr):
                         band_num
                     ).GetNoDataValue()
                     if band_nodata is not None:
-                        np.equal(
-                            image[..., idx], band_nodata, out=mask[..., idx]
+                        mask[..., idx] = _equals_nodata(
+                            image[..., idx], band_nodata
                         )
 
             if nodata_method == 'ma':
-- 
2.43.0


From d763fe2752ded410f0384763bf487f17a8084207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 44/50] fix: quantizing to 32 and 64 bit integers does not
 overflow at the maximum

---
 delayed_image/helpers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/delayed_image/helpers.py b/delayed_image/helpers.py
index 219d326..1db1e65 100644
--- a/delayed_image/helpers.py
+++ b/delayed_image/helpers.py
@@ -568,6 +568,12 @@ def quantize_float01(imdata, old_min=0, old_max=1, quantize_dtype=np.int16):
         new_imdata = (
             imdata.clip(old_min, old_max) - old_min
         ) * quant_factor + quantize_min
+        # The largest code may have no exact float representation, in which
+        # case rounding to the next float would overflow the integer type
+        largest = new_imdata.dtype.type(quantize_max)
+        if np.isinf(largest) or int(largest) > quantize_max:
+            largest = np.nextafter(largest, new_imdata.dtype.type(0))
+        new_imdata = np.minimum(new_imdata, largest)
         new_imdata = new_imdata.astype(quantize_dtype)
         new_imdata[invalid_mask] = quantize_nan
     else:
-- 
2.43.0


From 8c9e720d262d5b49f1c48af38272596bb0dddaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 45/50] fix: parsing network text looks at the first line for
 the kind of graph

---
 delayed_image/util/util_network_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/util/util_network_text.py b/delayed_image/util/util_network_text.py
index 84238db..6de6295 100644
--- a/delayed_image/util/util_network_text.py
+++ b/delayed_image/util/util_network_text.py
@@ -799,7 +799,8 @@ def parse_network_text(lines):
     except StopIteration:
         ...
     else:
-        initial_lines.append(first_line)
+        # The first line may also tell the type of graph (via backedges)
+        initial_line_iter = chain([first_line], initial_line_iter)
         # The first character indicates if it is an ASCII or UTF graph
         first_char = first_line[0]
         if first_char in {
-- 
2.43.0


From b08b3e58737c95cabe1d5a562b826bdfdae27c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:19 +0000
Subject: [PATCH 46/50] fix: negative band indexes of a concatenation select
 from its end

---
 delayed_image/delayed_nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 40096ad..aeb4541 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -971,7 +971,10 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             # Allows channel selection via integer indexes
             # TODO: this API needs to be tested and verified so it works
             # correctly for integers indexes and string channel names.
-            top_idx_mapping = channels
+            # Negative indexes count from the last channel of the last part
+            top_idx_mapping = [
+                idx + self.num_channels if idx < 0 else idx for idx in channels
+            ]
             request_codes = None
         else:
             channels = FusedChannelSpec.coerce(channels)
-- 
2.43.0


From 1e10cfca878f1e7bfd633311cfdc0cdae5996e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 47/50] fix: take_channels accepts a slice, as it documents

---
 delayed_image/delayed_nodes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index aeb4541..00a1f9b 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -967,6 +967,9 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             return _as_image_like(self)
         current_channels = self.channels
 
+        if isinstance(channels, slice):
+            channels = list(range(self.num_channels))[channels]
+
         if isinstance(channels, list):
             # Allows channel selection via integer indexes
             # TODO: this API needs to be tested and verified so it works
@@ -1455,6 +1458,9 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
             >>> assert len(new.parts) == 2
             >>> new._validate()
         """
+        if isinstance(channels, slice):
+            channels = list(range(self.num_channels))[channels]
+
         if isinstance(channels, list):
             top_idx_mapping = [int(x) for x in channels]
         else:
-- 
2.43.0


From b027f6f9fd2582d7097f9a5e9c71a2606c33fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:07 +0000
Subject: [PATCH 48/50] fix: undoing the warps of an empty all-nan view with
 its transform does not divide by zero

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 00a1f9b..2a52603 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1666,7 +1666,7 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
                     w, h = undone_part.dsize
                     assert w is not None
                     assert h is not None
-                    undo_warp = kwimage.Affine.scale((1 / w, 1 / h)) @ undo_warp
+                    undo_warp = kwimage.Affine.scale((1 / max(w, 1), 1 / max(h, 1))) @ undo_warp
                 undone_part = undone_part[0:1, 0:1].optimize()
         if return_warp:
             return undone_part, undo_warp
-- 
2.43.0


From 500c87bcfdf0e97454cf644f4c440fcc1897861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:46 +0000
Subject: [PATCH 49/50] fix: automatic warp canvases are empty, not negative,
 when nothing has positive coordinates

---
 delayed_image/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delayed_image/helpers.py b/delayed_image/helpers.py
index 1db1e65..a660272 100644
--- a/delayed_image/helpers.py
+++ b/delayed_image/helpers.py
@@ -87,8 +87,9 @@ def _auto_dsize(transform, sub_dsize):
         # bounds = kwimage.warp_points(transform.matrix, sub_bounds)[0:2]
         bounds = (transform.matrix[0:2] @ sub_bounds.T).T
         max_xy = np.ceil(bounds.max(axis=0))
-    max_x = int(max_xy[0])
-    max_y = int(max_xy[1])
+    # the canvas is empty when nothing has positive coordinates
+    max_x = max(int(max_xy[0]), 0)
+    max_y = max(int(max_xy[1]), 0)
     dsize = (max_x, max_y)
     return dsize
 
-- 
2.43.0


From bab394291b724ee42c59abbfe5aab9434ea79b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:06 +0000
Subject: [PATCH 50/50] fix: nearest scaling onto a canvas that ends within a
 pixel does not stretch

---
 delayed_image/delayed_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 2a52603..04583e6 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2026,8 +2026,8 @@ class DelayedWarp(DelayedImage):
                 and sx > 0
                 and sy > 0
                 # The canvas must be filled by the scaled image
-                and abs(in_w * sx - dsize[0]) < 1
-                and abs(in_h * sy - dsize[1]) < 1
+                and abs(in_w * sx - dsize[0]) < 1e-6
+                and abs(in_h * sy - dsize[1]) < 1e-6
             )
             # Deterministic fast-path: nearest + pure positive scale should
             # behave like nearest resize regardless of affine convention.
-- 
2.43.0

