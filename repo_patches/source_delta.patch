From 06fcc734a908f223366ee6bad9091c0924a21676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 01/20] fix: count the final sojourn in the conjugate update of
 a generator

---
 ctbayes/mjplib/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/mjplib/inference.py b/ctbayes/mjplib/inference.py
index eb48efd..22d6ddf 100755
--- a/ctbayes/mjplib/inference.py
+++ b/ctbayes/mjplib/inference.py
@@ -33,7 +33,7 @@ def update(skel: Skeleton, alp0: np.ndarray, bet0: np.ndarray) -> (np.ndarray, n
     dim = bet0.shape[0]
     trans = np.float64([np.bincount(skel.xt[np.hstack([False, (skel.xt == i)[:-1]])], minlength=dim) for i in range(dim)])
     np.fill_diagonal(trans, np.nan)
-    hold = np.array([np.sum(np.ediff1d(skel.t, to_end=(0,))[skel.xt == i]) for i in range(dim)])
+    hold = np.array([np.sum(np.ediff1d(skel.t, to_end=(skel.fin_t - skel.t[-1],))[skel.xt == i]) for i in range(dim)])
     return trans + alp0, (hold + bet0.T).T
 
 
-- 
2.43.0


From 4ed804d6cff9a3f4aaf86b1741693f3ffd4ba6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 02/20] fix: include the final sojourn in the likelihood of a
 jump path

---
 ctbayes/mjplib/inference.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ctbayes/mjplib/inference.py b/ctbayes/mjplib/inference.py
index 22d6ddf..8c771cc 100755
--- a/ctbayes/mjplib/inference.py
+++ b/ctbayes/mjplib/inference.py
@@ -57,7 +57,9 @@ def eval_loglik(skel: Skeleton, gen: np.ndarray) -> float:
     :return:
     """
 
-    return np.sum(np.log(gen[skel.xt[:-1], skel.xt[1:]]) + (skel.t[1:] - skel.t[:-1]) * np.diag(gen)[skel.xt[:-1]]).item()
+    trans = np.sum(np.log(gen[skel.xt[:-1], skel.xt[1:]]))
+    hold = np.sum(np.ediff1d(skel.t, to_end=(skel.fin_t - skel.t[-1],)) * np.diag(gen)[skel.xt])
+    return (trans + hold).item()
 
 
 def eval_logprior(gen: np.ndarray, alp: np.ndarray, bet: np.ndarray) -> float:
-- 
2.43.0


From f52df14bacf04147813bc32e4a231cef34baa474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 03/20] fix: keep batched Poisson points inside the bounds
 after the first batch

---
 ctbayes/mjplib/skeleton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index 01f2014..f557a3d 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -56,7 +56,8 @@ def sample_batch_ppp(intensity: float, bounds: Tuple[float, ...] = (1, 1), batch
 
     ub = 0
     for i in batch_sizes:
-        lb, ub = ub, ub + bounds[0] * ome.beta(i, n_points + 1 - i)
+        lb, ub = ub, ub + (bounds[0] - ub) * ome.beta(i, n_points + 1 - i)
+        n_points -= i
         if i == 1:
             u0 = np.array([ub])
         else:
-- 
2.43.0


From 44194dad7654ed904b2427ed1a05853243b45b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 04/20] fix: keep the hit flags when every requested time is
 already known

---
 ctbayes/sdelib/interpolators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/sdelib/interpolators.py b/ctbayes/sdelib/interpolators.py
index 4dfcd29..e8aa869 100755
--- a/ctbayes/sdelib/interpolators.py
+++ b/ctbayes/sdelib/interpolators.py
@@ -128,7 +128,7 @@ def fill_wiener_inner(t: np.ndarray, x: np.ndarray, new_t: np.ndarray, min_x: fl
     """
 
     if not len(new_t):
-        return t, x, np.int64([]), None
+        return t, x, np.int64([]), hit_i
 
     assert 0 <= np.min(t) < np.min(new_t) <= np.max(new_t) < np.max(t)
     assert min_x <= np.min(x)
-- 
2.43.0


From 6098c759339af562736e094f9f43231c4d34218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 05/20] fix: scalar random walk proposals no longer sum floats

---
 ctbayes/misc/adapt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index 0436463..d7127ca 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -105,7 +105,7 @@ class MyopicRwSampler(object):
         state_real, log_p_backw = transform_to_reals(self.state, *self.bounds)
         prop_real = np.random.normal(state_real, np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = transform_to_const(prop_real, *self.bounds)
-        return prop, sum(log_p_forw), sum(log_p_backw)
+        return prop, log_p_forw, log_p_backw
 
     def adapt(self, sample: float, prob: float):
 
-- 
2.43.0


From 4fe1a4ca6dfa7cdc247ea5e36a10ecf68780d5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 06/20] fix: draw random walk proposals from the generator that
 was passed

---
 ctbayes/misc/adapt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index d7127ca..1bfe943 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -68,7 +68,7 @@ class MyopicMvRwSampler(object):
     def propose(self, ome: np.random.Generator) -> (np.ndarray, float, float):
 
         state_real, log_p_backw = zip(*[transform_to_reals(x_, lb_, ub_) for x_, lb_, ub_ in zip(self.state, *self.bounds)])
-        prop_real = np.random.multivariate_normal(state_real, self.prop_cov * np.exp(self.log_prop_scale[-1]))
+        prop_real = ome.multivariate_normal(state_real, self.prop_cov * np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = zip(*[transform_to_const(y_, lb_, ub_) for y_, lb_, ub_ in zip(prop_real, *self.bounds)])
         return np.array(prop), sum(log_p_forw), sum(log_p_backw)
 
@@ -103,7 +103,7 @@ class MyopicRwSampler(object):
     def propose(self, ome: np.random.Generator) -> (float, float, float):
 
         state_real, log_p_backw = transform_to_reals(self.state, *self.bounds)
-        prop_real = np.random.normal(state_real, np.exp(self.log_prop_scale[-1]))
+        prop_real = ome.normal(state_real, np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = transform_to_const(prop_real, *self.bounds)
         return prop, log_p_forw, log_p_backw
 
-- 
2.43.0


From 2b5bf11be715b82389e10bceba22d6349990d51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 07/20] fix: running mean and covariance agree with the batch
 estimates

---
 ctbayes/misc/adapt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index 1bfe943..32d377f 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -23,8 +23,8 @@ def seq_update_normal(obs: np.ndarray, n: float, mean: np.ndarray, cov: np.ndarr
     """
 
     dev = obs - mean
-    mean = mean + dev / n
-    cov = cov + (np.outer(dev, dev) - cov) / n
+    mean = mean + dev / (n + 1)
+    cov = cov + (np.outer(dev, dev) * n / (n + 1) - cov) / n
 
     return mean, cov
 
-- 
2.43.0


From 4c4fd4a311a4ad079d0ab16569c3ac0d8deab8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 08/20] fix: offer every interior observation time to the
 regime proposal

---
 ctbayes/switching/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 9e7c3b5..8f9b04a 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -154,7 +154,7 @@ def update_hidden(thi: np.ndarray, lam: np.ndarray, z_nil: sde_seed.Partition, h
                   mod: Model, ctrl: Controls, regime_sampler: MyopicMjpSampler, ome: np.random.Generator, pool: Parallel
                   ) -> (mjp_skel.Skeleton, sde_seed.Partition, types.Anchorage):
 
-    y_prime, t_cond = regime_sampler.propose(lam, mod.t[1:-1], ome)
+    y_prime, t_cond = regime_sampler.propose(lam, mod.t, ome)
     z_prime, h_prime = mod.sample_aug(thi, y_prime, mod.t, mod.vt, ome)
     z_nil_part, h_nil_part = split_hidden(z_nil, h_nil, t_cond)
     z_prime_part, h_prime_part = split_hidden(z_prime, h_prime, t_cond)
-- 
2.43.0


From 154de69d4a4a980eec4b9ba1918059c053dc7670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 09/20] fix: split the anchorage at the nearest anchor despite
 rounding of times

---
 ctbayes/switching/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 8f9b04a..7f5b18f 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -223,7 +223,7 @@ def flip_hidden_coins(thi: np.ndarray, z: sde_seed.Partition, h: types.Anchorage
 def split_hidden(z: sde_seed.Partition, h: types.Anchorage, new_t: np.ndarray
                  ) -> (List[sde_seed.Partition], List[types.Anchorage]):
 
-    break_r = [0] + list(np.where(np.isin(h.t[1:-1], new_t))[0] + 1) + [len(h.t) - 1]
+    break_r = [0] + [np.argmin(np.abs(h.t - t_)) for t_ in np.sort(new_t)] + [len(h.t) - 1]
     z_part = [z[r0:r1] for r0, r1 in zip(break_r, break_r[1:])]
     h_part = [types.Anchorage(h.t[r0:r1+1] - h.t[r0], h.yt[r0:r1+1], h.vt[r0:r1+1])
               for r0, r1 in zip(break_r, break_r[1:])]
-- 
2.43.0


From 2b46a9309c5b7da2964ee113427d0e54ef081b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 10/20] fix: weigh the likelihood of the data in the parameter
 precoin

---
 ctbayes/ito/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/ito/mcmc.py b/ctbayes/ito/mcmc.py
index f014aa5..73a12aa 100755
--- a/ctbayes/ito/mcmc.py
+++ b/ctbayes/ito/mcmc.py
@@ -88,8 +88,8 @@ def eval_param_weight(thi: np.ndarray, mod: Model) -> float:
 def flip_param_precoin(thi_nil: np.ndarray, thi_prime: np.ndarray, log_p_for: float, log_p_back: float,
                        mod: Model, ome: np.random.Generator) -> bool:
 
-    weight_prime = mod.eval_log_prior(thi_prime) + log_p_back
-    weight_nil = mod.eval_log_prior(thi_nil) + log_p_for
+    weight_prime = eval_param_weight(thi_prime, mod) + log_p_back
+    weight_nil = eval_param_weight(thi_nil, mod) + log_p_for
     return np.log(ome.uniform()) < weight_prime - np.logaddexp(weight_prime, weight_nil)
 
 
-- 
2.43.0


From a8e7d8336ce26dfe34526d485083661541aa9bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 11/20] fix: antiderivative and derivative of the ou3 drift
 match the drift, regime by regime

---
 ctbayes/switching/models/ou3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctbayes/switching/models/ou3.py b/ctbayes/switching/models/ou3.py
index d988334..987981d 100644
--- a/ctbayes/switching/models/ou3.py
+++ b/ctbayes/switching/models/ou3.py
@@ -10,15 +10,15 @@ def eval_vol(thi, yt):
 
 @curry
 def eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) * xt
+    return -np.prod(thi[yt], -1) * xt
 
 @curry
 def sx_eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) / 2 * np.square(xt) / 2
+    return -np.prod(thi[yt], -1) * np.square(xt) / 2
 
 @curry
 def dx_eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) / 2
+    return -np.prod(thi[yt], -1)
 
 @curry
 def reduce(vt):
-- 
2.43.0


From 6c21b026cbf282ed9ba11eaf8b082550473bbc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 12/20] fix: cir bounds account for the interior minimum at
 small reversion levels

---
 ctbayes/ito/models/cir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/ito/models/cir.py b/ctbayes/ito/models/cir.py
index f78ed6a..698c40e 100755
--- a/ctbayes/ito/models/cir.py
+++ b/ctbayes/ito/models/cir.py
@@ -31,7 +31,7 @@ def dereduce(thi, vt):
 @curry
 def eval_bounds_disc(thi, le_x, ue_x):
     edges_phi = eval_disc(thi, le_x), eval_disc(thi, ue_x)
-    if 4 * thi[0] * thi[1] < 3 * thi[2] ** 2:
+    if thi[2] ** 2 <= 4 * thi[0] * thi[1] <= 3 * thi[2] ** 2:
         return np.nan, min(edges_phi), max(edges_phi)
     argmin_phi = f_argmin_disc(thi)
     min_phi = eval_disc(thi, argmin_phi)
-- 
2.43.0


From cd1a8108e3fa2b85e6a8ede7cf447719671f1acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 13/20] fix: map anchors back to the original scale once

---
 ctbayes/switching/static.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/switching/static.py b/ctbayes/switching/static.py
index 302636d..1598918 100755
--- a/ctbayes/switching/static.py
+++ b/ctbayes/switching/static.py
@@ -48,8 +48,8 @@ def assemble_model(init_thi, bounds_x, bounds_thi,
 
         xt = reduce(vt)
         y_part = mjp_skel.partition_skeleton(y, t[1:-1])
-        xtt = np.hstack([dereduce(sample_anchors(thi, t_, yt_, fin_t_, x0, xt, ome)) for (t_, yt_, fin_t_), x0, xt
-                         in zip(y_part, xt, xt[1:])] + [vt[-1]])
+        xtt = np.hstack([sample_anchors(thi, t_, yt_, fin_t_, x0, x1, ome) for (t_, yt_, fin_t_), x0, x1
+                         in zip(y_part, xt, xt[1:])] + [xt[-1]])
         tt = np.append(np.hstack([t0 + y_.t for t0, y_ in zip(t, y_part)]), t[-1])
         ytt = np.append(np.hstack([y_.xt for y_ in y_part]), y.xt[-1])
         vtt = dereduce(xtt)
-- 
2.43.0


From 80f5c1eb33980b12dc4853658c47a6be7a1b532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 14/20] fix: rows of the initial generator sum to zero

---
 ctbayes/switching/mcem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcem.py b/ctbayes/switching/mcem.py
index 044bbe2..e2f9ed9 100644
--- a/ctbayes/switching/mcem.py
+++ b/ctbayes/switching/mcem.py
@@ -37,7 +37,7 @@ def maximize_posterior(init_thi: np.ndarray, mod: Model, ctrl: Controls, ome: np
                        ) -> Iterator[Tuple[float, np.ndarray, np.ndarray, List[sde_seed.Partition], List[types.Anchorage]]]:
 
     lam = mod.hyper_lam[0] / mod.hyper_lam[1]
-    lam[np.isnan(lam)] = -np.nansum(lam, 0)
+    lam[np.isnan(lam)] = -np.nansum(lam, 1)
     thi = np.repeat(init_thi[np.newaxis], lam.shape[0], 0)
     y = mjp_skel.sample_forwards(mod.t[-1], None, lam, ome)
     zz, hh = zip(mod.sample_aug(thi, y, mod.t, mod.vt, ome))
-- 
2.43.0


From a6342456b019881bd2c56ccff791ad132dcd1e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 15/20] fix: bounded escape series stay below the escape
 probability

---
 ctbayes/sdelib/hitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/sdelib/hitting.py b/ctbayes/sdelib/hitting.py
index 600a22a..76f6590 100755
--- a/ctbayes/sdelib/hitting.py
+++ b/ctbayes/sdelib/hitting.py
@@ -382,7 +382,7 @@ def series_brownbr_esc(fin_t: float,
         num_seq = series_brownbr_esc(fin_t, init_x, fin_x, ue_x)
         den_seq = islice(series_brownbr_esc(fin_t, init_x, fin_x, ub_x), 1, None)
         for r, s in zip(num_seq, den_seq):
-            yield 1 - (1 - r) / (1 - s)
+            yield 1 - (1 - r) / (1 - s) if s < 1 else 0
 
     # handle unbounded case
     s = 0
@@ -427,7 +427,7 @@ def series_bessel3br_esc(fin_t: float,
         num_seq = series_bessel3br_esc(fin_t, init_x, fin_x, ue_x)
         den_seq = islice(series_bessel3br_esc(fin_t, init_x, fin_x, ub_x), 1, None)
         for r, s in zip(num_seq, den_seq):
-            yield 1 - (1 - r) / (1 - s)
+            yield 1 - (1 - r) / (1 - s) if s < 1 else 0
 
     # handle unbounded case starting from positive value
     if init_x != 0:
-- 
2.43.0


From 0ab0ba9f76dd79b6c0f0cc74a72a9dbf8fc3252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 16/20] fix: one time per simulated column in the Euler
 reference scheme

---
 ctbayes/misc/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/misc/testing.py b/ctbayes/misc/testing.py
index eb50db1..205b5c6 100755
--- a/ctbayes/misc/testing.py
+++ b/ctbayes/misc/testing.py
@@ -38,4 +38,4 @@ def euler_simulate(ndraws: int,
     for e in noise:
         trajectory.append(trajectory[-1] + dfunc(trajectory[-1]) * res + vfunc(trajectory[-1]) * e)
 
-    return np.arange(0, fin_t, res), np.array(trajectory).T
+    return res * np.arange(len(trajectory)), np.array(trajectory).T
-- 
2.43.0


From d9a4baa8f48edecb4b2b62b831a996b7abc47963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 17/20] fix: sample the envelope when a hull support sits at
 the mode

---
 ctbayes/misc/ars.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index 3e7a613..c919d3a 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -181,14 +181,18 @@ def sample_envelope(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray, y: np.ndarra
     # prevent over/underflows
     offset = np.max(dfx * (y[1:] - x) + fx)
 
-    vol_upper = np.exp(dfx * (y[1:] - x) + fx - offset) / dfx
-    vol_lower = np.exp(dfx * (y[:-1] - x) + fx - offset) / dfx
+    slope = np.where(dfx == 0, 1, dfx)
+    vol_upper = np.exp(dfx * (y[1:] - x) + fx - offset) / slope
+    vol_lower = np.exp(dfx * (y[:-1] - x) + fx - offset) / slope
+    vol = np.where(dfx == 0, np.exp(fx - offset) * np.diff(y), vol_upper - vol_lower)
 
-    cdf = np.array([0, *np.cumsum(vol_upper - vol_lower)])
+    cdf = np.array([0, *np.cumsum(vol)])
     norm = cdf[-1]
 
     # pick sector to sample from
     z = ome.uniform()
     i = np.searchsorted(cdf / norm, z) - 1
 
+    if dfx[i] == 0:
+        return y[i] + (norm * z - cdf[i]) / np.exp(fx[i] - offset)
     return x[i] + (np.log((norm * z - cdf[i] + vol_lower[i]) * dfx[i]) - fx[i] + offset) / dfx[i]
-- 
2.43.0


From 8926cce894003d8cf23212182fc921c9da33e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 18/20] fix: one bound per parameter rather than per regime

---
 ctbayes/switching/mcem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/switching/mcem.py b/ctbayes/switching/mcem.py
index e2f9ed9..227a4a8 100644
--- a/ctbayes/switching/mcem.py
+++ b/ctbayes/switching/mcem.py
@@ -70,7 +70,7 @@ def update_param(thi_nil: np.ndarray, zz: List[sde_seed.Partition], hh: List[typ
     def f_wrap_obj(thi_: np.ndarray, i: int) -> float:
         return -np.mean(f_obj(np.vstack([thi_nil[:i], thi_, thi_nil[i+1:]]), i))
 
-    opt_bounds = buffer_bounds(mod.bounds_thi[0], mod.bounds_thi[1], len(thi_nil), ctrl.bound_buffer)
+    opt_bounds = buffer_bounds(mod.bounds_thi[0], mod.bounds_thi[1], thi_nil.shape[1], ctrl.bound_buffer)
     f_obj = update_objective(thi_nil, zz, hh, mod, ctrl, ome, pool)
     
     opt = pool(
@@ -159,7 +159,7 @@ def est_se(thi: np.ndarray, zz: List[sde_seed.Partition], hh: List[types.Anchora
         thi_ = np.max([np.min([thi_, opt_bounds[1]], 0), opt_bounds[0]], 0)
         return f_obj(np.vstack([thi[:i], thi_, thi[i+1:]]), i)
 
-    opt_bounds = buffer_bounds(mod.bounds_thi[0], mod.bounds_thi[1], len(thi), ctrl.bound_buffer)
+    opt_bounds = buffer_bounds(mod.bounds_thi[0], mod.bounds_thi[1], thi.shape[1], ctrl.bound_buffer)
     f_obj = update_objective(thi, zz, hh, mod, ctrl, ome, pool)
     se = []
     for i in range(thi.shape[0]):
-- 
2.43.0


From 0b8aa3311522ba823fab15a0dbf43a77a9806be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 19/20] fix: global lower value of the cir discrepancy can be
 evaluated

---
 ctbayes/ito/models/cir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/ito/models/cir.py b/ctbayes/ito/models/cir.py
index 698c40e..0f71a71 100755
--- a/ctbayes/ito/models/cir.py
+++ b/ctbayes/ito/models/cir.py
@@ -49,7 +49,7 @@ def f_argmin_disc(thi):
     return ((4 * thi[1] / thi[2] ** 2 - 2 / thi[0]) ** 2 - 1 / thi[0] ** 2) ** (1 / 4)
 
 def eval_inf_disc(thi):
-    return eval_disc(thi)(None, f_argmin_disc(thi))
+    return eval_disc(thi, f_argmin_disc(thi))
 
 @curry
 def eval_grad(thi, fin_t, init_v, fin_v, t, zs):
-- 
2.43.0


From 89472f9b97d4e2cb3474dff83ac91a197a09740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 20/20] fix: bridge sampler weighs layers relative to the
 smallest discrepancy, the acceptance weight exceeded one

---
 ctbayes/ea3lib/seed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ctbayes/ea3lib/seed.py b/ctbayes/ea3lib/seed.py
index 00bd92a..c7697b1 100755
--- a/ctbayes/ea3lib/seed.py
+++ b/ctbayes/ea3lib/seed.py
@@ -49,12 +49,16 @@ def sample_bridge(bounds_x: (float, float),
     assert bounds_x[0] < bounds_x[1]
     assert 0 <= max_props
 
+    # the weights are relative to the smallest discrepancy, for otherwise they may exceed one
+    (_, fin_t), x = denorm_rsde(np.array([0, 1]), np.zeros(2))
+    inf_phi, _, _ = eval_bounds_disc(np.min(x), np.max(x))
+
     while True:
 
         for _ in range(max_props):
             proposal = sample_raw_seed(bounds_x, norm_rsde, denorm_rsde, ome)
             success, log_weight, proposal = flip_poisson_coin(proposal, norm_rsde, denorm_rsde, eval_disc, eval_bounds_disc, ome)
-            if success and np.log(ome.uniform()) < log_weight:
+            if success and np.log(ome.uniform()) < log_weight + fin_t * inf_phi:
                 break
         else:
             raise BudgetConstraintError('None of the proposals were accepted.')
-- 
2.43.0

