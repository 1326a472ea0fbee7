From 3212e4cc0ef50ca23c62bcb61f86a49ba269606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 01/28] fix: draw batches of the Poisson process from the
 remaining points and interval

---
 ctbayes/mjplib/skeleton.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index 01f2014..0c0cf0d 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -54,9 +54,11 @@ def sample_batch_ppp(intensity: float, bounds: Tuple[float, ...] = (1, 1), batch
     if n_points % batch_size != 0:
         batch_sizes = it.chain(batch_sizes, [n_points % batch_size])
 
-    ub = 0
+    ub, n_left = 0, n_points
     for i in batch_sizes:
-        lb, ub = ub, ub + bounds[0] * ome.beta(i, n_points + 1 - i)
+        # the i-th smallest of the remaining points, which are uniform on the remaining interval
+        lb, ub = ub, ub + (bounds[0] - ub) * ome.beta(i, n_left + 1 - i)
+        n_left -= i
         if i == 1:
             u0 = np.array([ub])
         else:
-- 
2.43.0


From 871d04de58e754e7bb0e9927ac0547191e9e67af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 02/28] fix: keep the hit record of a skeleton when every
 requested time is already known

---
 ctbayes/sdelib/interpolators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/sdelib/interpolators.py b/ctbayes/sdelib/interpolators.py
index 4dfcd29..e8aa869 100755
--- a/ctbayes/sdelib/interpolators.py
+++ b/ctbayes/sdelib/interpolators.py
@@ -128,7 +128,7 @@ def fill_wiener_inner(t: np.ndarray, x: np.ndarray, new_t: np.ndarray, min_x: fl
     """
 
     if not len(new_t):
-        return t, x, np.int64([]), None
+        return t, x, np.int64([]), hit_i
 
     assert 0 <= np.min(t) < np.min(new_t) <= np.max(new_t) < np.max(t)
     assert min_x <= np.min(x)
-- 
2.43.0


From 12e32c8ec3d6b7c2c22fc9b79585af062b7e193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 03/28] fix: weight layers in seed bridge sampling relative to
 the global infimum of the discount

---
 ctbayes/ea3lib/seed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ctbayes/ea3lib/seed.py b/ctbayes/ea3lib/seed.py
index 00bd92a..e6d0283 100755
--- a/ctbayes/ea3lib/seed.py
+++ b/ctbayes/ea3lib/seed.py
@@ -49,12 +49,16 @@ def sample_bridge(bounds_x: (float, float),
     assert bounds_x[0] < bounds_x[1]
     assert 0 <= max_props
 
+    # offset the layer weights by the global infimum so that they are probabilities
+    t, xt = denorm_rsde(np.array([0, 1]), np.zeros(2))
+    st_inf_disc = t[-1] * eval_bounds_disc(np.min(xt), np.max(xt))[0]
+
     while True:
 
         for _ in range(max_props):
             proposal = sample_raw_seed(bounds_x, norm_rsde, denorm_rsde, ome)
             success, log_weight, proposal = flip_poisson_coin(proposal, norm_rsde, denorm_rsde, eval_disc, eval_bounds_disc, ome)
-            if success and np.log(ome.uniform()) < log_weight:
+            if success and np.log(ome.uniform()) < log_weight + st_inf_disc:
                 break
         else:
             raise BudgetConstraintError('None of the proposals were accepted.')
-- 
2.43.0


From abb49325439db7c845d51dcc72db6bb5ee922069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 04/28] fix: include the likelihood in the precoin of the Ito
 parameter update

---
 ctbayes/ito/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/ito/mcmc.py b/ctbayes/ito/mcmc.py
index f014aa5..73a12aa 100755
--- a/ctbayes/ito/mcmc.py
+++ b/ctbayes/ito/mcmc.py
@@ -88,8 +88,8 @@ def eval_param_weight(thi: np.ndarray, mod: Model) -> float:
 def flip_param_precoin(thi_nil: np.ndarray, thi_prime: np.ndarray, log_p_for: float, log_p_back: float,
                        mod: Model, ome: np.random.Generator) -> bool:
 
-    weight_prime = mod.eval_log_prior(thi_prime) + log_p_back
-    weight_nil = mod.eval_log_prior(thi_nil) + log_p_for
+    weight_prime = eval_param_weight(thi_prime, mod) + log_p_back
+    weight_nil = eval_param_weight(thi_nil, mod) + log_p_for
     return np.log(ome.uniform()) < weight_prime - np.logaddexp(weight_prime, weight_nil)
 
 
-- 
2.43.0


From 24c4cba77e3ba55f1af56a6c86b9012c7ba31b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 05/28] fix: return the scalar proposal densities of the
 univariate random walk as they are

---
 ctbayes/misc/adapt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index 0436463..d7127ca 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -105,7 +105,7 @@ class MyopicRwSampler(object):
         state_real, log_p_backw = transform_to_reals(self.state, *self.bounds)
         prop_real = np.random.normal(state_real, np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = transform_to_const(prop_real, *self.bounds)
-        return prop, sum(log_p_forw), sum(log_p_backw)
+        return prop, log_p_forw, log_p_backw
 
     def adapt(self, sample: float, prob: float):
 
-- 
2.43.0


From 85a1cc7fe35ba534e7d7815d8fbb230aa6966eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 06/28] fix: draw random walk proposals from the generator
 passed in

---
 ctbayes/misc/adapt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index d7127ca..1bfe943 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -68,7 +68,7 @@ class MyopicMvRwSampler(object):
     def propose(self, ome: np.random.Generator) -> (np.ndarray, float, float):
 
         state_real, log_p_backw = zip(*[transform_to_reals(x_, lb_, ub_) for x_, lb_, ub_ in zip(self.state, *self.bounds)])
-        prop_real = np.random.multivariate_normal(state_real, self.prop_cov * np.exp(self.log_prop_scale[-1]))
+        prop_real = ome.multivariate_normal(state_real, self.prop_cov * np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = zip(*[transform_to_const(y_, lb_, ub_) for y_, lb_, ub_ in zip(prop_real, *self.bounds)])
         return np.array(prop), sum(log_p_forw), sum(log_p_backw)
 
@@ -103,7 +103,7 @@ class MyopicRwSampler(object):
     def propose(self, ome: np.random.Generator) -> (float, float, float):
 
         state_real, log_p_backw = transform_to_reals(self.state, *self.bounds)
-        prop_real = np.random.normal(state_real, np.exp(self.log_prop_scale[-1]))
+        prop_real = ome.normal(state_real, np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = transform_to_const(prop_real, *self.bounds)
         return prop, log_p_forw, log_p_backw
 
-- 
2.43.0


From 5de5a49deb60e7b80fe13a3e803ee8563e204ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 07/28] fix: pass all observation times to the regime proposal,
 which trims the ends itself

---
 ctbayes/switching/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 9e7c3b5..8f9b04a 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -154,7 +154,7 @@ def update_hidden(thi: np.ndarray, lam: np.ndarray, z_nil: sde_seed.Partition, h
                   mod: Model, ctrl: Controls, regime_sampler: MyopicMjpSampler, ome: np.random.Generator, pool: Parallel
                   ) -> (mjp_skel.Skeleton, sde_seed.Partition, types.Anchorage):
 
-    y_prime, t_cond = regime_sampler.propose(lam, mod.t[1:-1], ome)
+    y_prime, t_cond = regime_sampler.propose(lam, mod.t, ome)
     z_prime, h_prime = mod.sample_aug(thi, y_prime, mod.t, mod.vt, ome)
     z_nil_part, h_nil_part = split_hidden(z_nil, h_nil, t_cond)
     z_prime_part, h_prime_part = split_hidden(z_prime, h_prime, t_cond)
-- 
2.43.0


From 12d30f77ac8e350bef0331ffb1ebba58e4dfbe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 08/28] fix: continue EM from the current parameter instead of
 restarting at the initial one

---
 ctbayes/ito/mcem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctbayes/ito/mcem.py b/ctbayes/ito/mcem.py
index ef32f4a..da35297 100755
--- a/ctbayes/ito/mcem.py
+++ b/ctbayes/ito/mcem.py
@@ -33,11 +33,12 @@ class Controls(NamedTuple):
 def maximize_posterior(init_thi: np.ndarray, mod: Model, ctrl: Controls, ome: np.random.Generator
                        ) -> Iterator[Tuple[float, np.ndarray, List[seed.Partition]]]:
 
-    zz = [mod.sample_aug(init_thi, mod.t, mod.vt, ome)]
+    thi = init_thi
+    zz = [mod.sample_aug(thi, mod.t, mod.vt, ome)]
     n_particles = 1
     obj_nil = -np.inf
     while True:
-        obj, thi, zz = iterate_em(init_thi, zz[-1], n_particles, mod, ctrl, ome)
+        obj, thi, zz = iterate_em(thi, zz[-1], n_particles, mod, ctrl, ome)
         n_particles = int((n_particles ** (1 / ctrl.learning_rate) + 1) ** ctrl.learning_rate)
         yield obj, thi, zz
         if np.abs(obj - obj_nil) < ctrl.ftol:
-- 
2.43.0


From 0034b176f5ade0b391772aec38b4cf2bc58a4cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 09/28] fix: count the last, censored sojourn of a jump process
 in its likelihood and posterior

---
 ctbayes/mjplib/inference.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctbayes/mjplib/inference.py b/ctbayes/mjplib/inference.py
index eb48efd..6cf3442 100755
--- a/ctbayes/mjplib/inference.py
+++ b/ctbayes/mjplib/inference.py
@@ -33,7 +33,7 @@ def update(skel: Skeleton, alp0: np.ndarray, bet0: np.ndarray) -> (np.ndarray, n
     dim = bet0.shape[0]
     trans = np.float64([np.bincount(skel.xt[np.hstack([False, (skel.xt == i)[:-1]])], minlength=dim) for i in range(dim)])
     np.fill_diagonal(trans, np.nan)
-    hold = np.array([np.sum(np.ediff1d(skel.t, to_end=(0,))[skel.xt == i]) for i in range(dim)])
+    hold = np.array([np.sum(np.ediff1d(np.float64(skel.t), to_end=(skel.fin_t - skel.t[-1],))[skel.xt == i]) for i in range(dim)])
     return trans + alp0, (hold + bet0.T).T
 
 
@@ -57,7 +57,8 @@ def eval_loglik(skel: Skeleton, gen: np.ndarray) -> float:
     :return:
     """
 
-    return np.sum(np.log(gen[skel.xt[:-1], skel.xt[1:]]) + (skel.t[1:] - skel.t[:-1]) * np.diag(gen)[skel.xt[:-1]]).item()
+    hold = np.ediff1d(np.float64(skel.t), to_end=(skel.fin_t - skel.t[-1],))
+    return (np.sum(np.log(gen[skel.xt[:-1], skel.xt[1:]])) + hold @ np.diag(gen)[skel.xt]).item()
 
 
 def eval_logprior(gen: np.ndarray, alp: np.ndarray, bet: np.ndarray) -> float:
-- 
2.43.0


From b7c8d970c78637907110c3791db5f8a514456b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 10/28] fix: start backward jump paths from the stationary law
 given the final state

---
 ctbayes/mjplib/skeleton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index 0c0cf0d..31daed8 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -160,7 +160,8 @@ def sample_backwards(fin_t: float, fin_x: int, gen: np.ndarray, ome: np.random.G
     """
 
     ftrans = get_trans(fin_t, gen)
-    btrans = ftrans[:, fin_x] / np.sum(ftrans[:, fin_x])
+    btrans = get_stat(gen) * ftrans[:, fin_x]
+    btrans = btrans / np.sum(btrans)
     init_x = ome.choice(np.arange(len(btrans)), 1, p=btrans).item()
 
     return sample_bridge(fin_t, init_x, fin_x, gen, ome)
-- 
2.43.0


From a1a11ee7f1dfb0673539c3a251d5cf71e8ed00e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 11/28] fix: keep anchor times exact when the hidden history is
 split and pasted

---
 ctbayes/switching/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 8f9b04a..8819a69 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -225,7 +225,7 @@ def split_hidden(z: sde_seed.Partition, h: types.Anchorage, new_t: np.ndarray
 
     break_r = [0] + list(np.where(np.isin(h.t[1:-1], new_t))[0] + 1) + [len(h.t) - 1]
     z_part = [z[r0:r1] for r0, r1 in zip(break_r, break_r[1:])]
-    h_part = [types.Anchorage(h.t[r0:r1+1] - h.t[r0], h.yt[r0:r1+1], h.vt[r0:r1+1])
+    h_part = [types.Anchorage(h.t[r0:r1+1], h.yt[r0:r1+1], h.vt[r0:r1+1])
               for r0, r1 in zip(break_r, break_r[1:])]
     return z_part, h_part
 
@@ -236,7 +236,7 @@ def paste_hidden(z_part: List[sde_seed.Partition], h_part: List[types.Anchorage]
     z = sum(z_part, [])
     h = h_part[0]
     for h_ in h_part[1:]:
-        h = types.Anchorage(np.append(h.t, h_.t[1:] + h.t[-1]), np.append(h.yt, h_.yt[1:]), np.append(h.vt, h_.vt[1:]))
+        h = types.Anchorage(np.append(h.t, h_.t[1:]), np.append(h.yt, h_.yt[1:]), np.append(h.vt, h_.vt[1:]))
     return z, h
 
 
-- 
2.43.0


From a378c9c162abb9ae7142d7e188e24cd696815553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 12/28] fix: make the ou3 antiderivative and derivative match
 its drift, per regime

---
 ctbayes/switching/models/ou3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctbayes/switching/models/ou3.py b/ctbayes/switching/models/ou3.py
index d988334..a6d5ef5 100644
--- a/ctbayes/switching/models/ou3.py
+++ b/ctbayes/switching/models/ou3.py
@@ -10,15 +10,15 @@ def eval_vol(thi, yt):
 
 @curry
 def eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) * xt
+    return -np.prod(thi[yt], axis=-1) * xt
 
 @curry
 def sx_eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) / 2 * np.square(xt) / 2
+    return -np.prod(thi[yt], axis=-1) * np.square(xt) / 2
 
 @curry
 def dx_eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) / 2
+    return -np.prod(thi[yt], axis=-1)
 
 @curry
 def reduce(vt):
-- 
2.43.0


From 1cad9d338132dbdfbfbbd1b1a249794d82137d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 13/28] fix: evaluate the infimum of the CIR discount at its
 argmin

---
 ctbayes/ito/models/cir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/ito/models/cir.py b/ctbayes/ito/models/cir.py
index f78ed6a..3ead68f 100755
--- a/ctbayes/ito/models/cir.py
+++ b/ctbayes/ito/models/cir.py
@@ -49,7 +49,7 @@ def f_argmin_disc(thi):
     return ((4 * thi[1] / thi[2] ** 2 - 2 / thi[0]) ** 2 - 1 / thi[0] ** 2) ** (1 / 4)
 
 def eval_inf_disc(thi):
-    return eval_disc(thi)(None, f_argmin_disc(thi))
+    return eval_disc(thi, f_argmin_disc(thi))
 
 @curry
 def eval_grad(thi, fin_t, init_v, fin_v, t, zs):
-- 
2.43.0


From 2fd65c34610c0e51548439ea93917b5cf3164ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 14/28] fix: make the sequential normal update reproduce the
 sample mean and covariance

---
 ctbayes/misc/adapt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index 1bfe943..80713f7 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -23,8 +23,8 @@ def seq_update_normal(obs: np.ndarray, n: float, mean: np.ndarray, cov: np.ndarr
     """
 
     dev = obs - mean
-    mean = mean + dev / n
-    cov = cov + (np.outer(dev, dev) - cov) / n
+    mean = mean + dev / (n + 1)
+    cov = (n - 1) / n * cov + np.outer(dev, dev) / (n + 1)
 
     return mean, cov
 
-- 
2.43.0


From c6ddfada2fd09806bc9b8195fc7faaf8d1b65541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 15/28] fix: return one time per simulated point from
 euler_simulate

---
 ctbayes/misc/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/misc/testing.py b/ctbayes/misc/testing.py
index eb50db1..205b5c6 100755
--- a/ctbayes/misc/testing.py
+++ b/ctbayes/misc/testing.py
@@ -38,4 +38,4 @@ def euler_simulate(ndraws: int,
     for e in noise:
         trajectory.append(trajectory[-1] + dfunc(trajectory[-1]) * res + vfunc(trajectory[-1]) * e)
 
-    return np.arange(0, fin_t, res), np.array(trajectory).T
+    return res * np.arange(len(trajectory)), np.array(trajectory).T
-- 
2.43.0


From 4b4a616220498c86b2b534158f4060e8f1acd025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 16/28] fix: map augmented anchors back to the data scale once

---
 ctbayes/switching/static.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/switching/static.py b/ctbayes/switching/static.py
index 302636d..1598918 100755
--- a/ctbayes/switching/static.py
+++ b/ctbayes/switching/static.py
@@ -48,8 +48,8 @@ def assemble_model(init_thi, bounds_x, bounds_thi,
 
         xt = reduce(vt)
         y_part = mjp_skel.partition_skeleton(y, t[1:-1])
-        xtt = np.hstack([dereduce(sample_anchors(thi, t_, yt_, fin_t_, x0, xt, ome)) for (t_, yt_, fin_t_), x0, xt
-                         in zip(y_part, xt, xt[1:])] + [vt[-1]])
+        xtt = np.hstack([sample_anchors(thi, t_, yt_, fin_t_, x0, x1, ome) for (t_, yt_, fin_t_), x0, x1
+                         in zip(y_part, xt, xt[1:])] + [xt[-1]])
         tt = np.append(np.hstack([t0 + y_.t for t0, y_ in zip(t, y_part)]), t[-1])
         ytt = np.append(np.hstack([y_.xt for y_ in y_part]), y.xt[-1])
         vtt = dereduce(xtt)
-- 
2.43.0


From 70fcafe73fe372d94d5e2efed463f5ebab311dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 17/28] fix: anchor bridges of half-bounded diffusions on the
 drawn side instead of reflecting them out of bounds

---
 ctbayes/ea3lib/skeleton.py | 12 +++++++-----
 ctbayes/sdelib/layers.py   | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/ctbayes/ea3lib/skeleton.py b/ctbayes/ea3lib/skeleton.py
index 11571b9..8ce18a8 100755
--- a/ctbayes/ea3lib/skeleton.py
+++ b/ctbayes/ea3lib/skeleton.py
@@ -66,11 +66,13 @@ def sample_raw_skeleton(fin_t: float, init_x: float, fin_x: float, bounds_x: (fl
     """
 
     lo_anchor, lo_sector, hi_sector = layers.sample_anchor(fin_t, init_x, fin_x, *bounds_x, ome=ome)
-    tight_t, tight_x, hit_x, loose_x, hit_i = layers.sample_edges(fin_t, init_x, fin_x, lo_sector, hi_sector, ome=ome)
-    skel = Skeleton(np.array([0, tight_t, fin_t]), np.array([init_x, tight_x, fin_x]), tight_x, loose_x, hit_x, hit_i)
-    if ome.uniform() < .5:
-        return skel
-    return flip_skeleton(skel)
+    if lo_anchor:
+        sign, inf_sector, sup_sector = 1, lo_sector, hi_sector
+    else:
+        sign, inf_sector, sup_sector = -1, (-hi_sector[1], -hi_sector[0]), (-lo_sector[1], -lo_sector[0])
+    tight_t, *edges, hit_i = layers.sample_edges(fin_t, sign * init_x, sign * fin_x, inf_sector, sup_sector, ome=ome)
+    tight_x, hit_x, loose_x = [sign * x for x in edges]
+    return Skeleton(np.array([0, tight_t, fin_t]), np.array([init_x, tight_x, fin_x]), tight_x, loose_x, hit_x, hit_i)
 
 
 def flip_poisson_coin(skel: Skeleton, eval_disc: Callable[[np.ndarray], np.ndarray],
diff --git a/ctbayes/sdelib/layers.py b/ctbayes/sdelib/layers.py
index 51c7949..f1145a4 100755
--- a/ctbayes/sdelib/layers.py
+++ b/ctbayes/sdelib/layers.py
@@ -116,12 +116,35 @@ def sample_anchor(fin_t: float, init_x: float, fin_x: float, lb_x: float = -np.i
     in_layer, ou_layer = [compute_edges(layer_ix - i, fin_t, init_x, fin_x, lb_x, ub_x) for i in (0, 1)]
     lo_sector, hi_sector = (in_layer[0], ou_layer[0]), (ou_layer[1], in_layer[1])
 
-    # assess sector probabilities
-    p_lo = hitting.cdf_brownbr_min(lo_sector[1], fin_t, init_x, fin_x, lo_sector[0])
-    p_hi = hitting.cdf_brownbr_min(-hi_sector[0], fin_t, -fin_x, -init_x, -hi_sector[1])
+    # assess sector probabilities, each given that the path remains inside of the other sector's far edge
+    p_in, p_ou = eval_pr_stay(fin_t, init_x, fin_x, *in_layer), eval_pr_stay(fin_t, init_x, fin_x, *ou_layer)
+    p_lo = p_in - eval_pr_stay(fin_t, init_x, fin_x, lo_sector[1], hi_sector[1])
+    p_hi = p_in - eval_pr_stay(fin_t, init_x, fin_x, lo_sector[0], hi_sector[0])
 
-    # simulate anchor sector
-    return ome.uniform() < p_lo / (p_lo + p_hi), lo_sector, hi_sector
+    # simulate anchor sector, splitting paths which reach both sectors evenly
+    return ome.uniform() < (1 + (p_lo - p_hi) / (p_in - p_ou)) / 2, lo_sector, hi_sector
+
+
+def eval_pr_stay(fin_t: float, init_x: float, fin_x: float, le_x: float, ue_x: float) -> float:
+    """Compute the probability that a Brownian bridge remains between two levels.
+
+    :param fin_t:
+    :param init_x:
+    :param fin_x:
+    :param le_x:
+    :param ue_x:
+    :return:
+    """
+
+    if min(init_x, fin_x) <= le_x or ue_x <= max(init_x, fin_x):
+        return 0.0
+    offset, width = (le_x + ue_x) / 2, ue_x - le_x
+    p, last_p = 1.0, 0.0
+    for i, p in enumerate(hitting.series_brownbr_esc(fin_t, init_x - offset, fin_x - offset, width / 2)):
+        if i > 2 and p == last_p:
+            break
+        last_p = p
+    return 1 - p
 
 
 def sample_edges(fin_t: float, init_x: float, fin_x: float,
-- 
2.43.0


From c72c653949cc17f794120d40840f65a6717a525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 18/28] fix: let sample_brownbr take vector endpoints, as its
 callers pass

---
 ctbayes/sdelib/paths.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ctbayes/sdelib/paths.py b/ctbayes/sdelib/paths.py
index 85140e1..7a58210 100755
--- a/ctbayes/sdelib/paths.py
+++ b/ctbayes/sdelib/paths.py
@@ -78,12 +78,12 @@ def sample_brownbr(t: np.ndarray, fin_t: float, init_x: float, fin_x: float,
     assert 0 < np.min(t) <= np.max(t) < fin_t
 
     std_t = t / fin_t
-    std_init_x = init_x / np.sqrt(fin_t)
-    std_fin_x = fin_x / np.sqrt(fin_t)
-    std_xt, = (1 - std_t) * sample_wiener(std_t / (1 - std_t), np.array([std_init_x]), np.array([std_fin_x]), ome).T
+    std_init_x = np.atleast_1d(init_x) / np.sqrt(fin_t)
+    std_fin_x = np.atleast_1d(fin_x) / np.sqrt(fin_t)
+    std_xt = (1 - std_t)[:, np.newaxis] * sample_wiener(std_t / (1 - std_t), std_init_x, std_fin_x, ome)
     xt = np.sqrt(fin_t) * std_xt
 
-    return xt
+    return xt if np.ndim(init_x) else xt[:, 0]
 
 
 def sample_bessel(t: np.ndarray, init_x: float, dim: int, mu: float = None,
-- 
2.43.0


From 63b12a6f54e66fe4fa2db346cbf5bcf1da875946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 19/28] fix: weight endpoints of half-bounded diffusions by the
 chance that their bridge stays inside

---
 ctbayes/ito/static.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ctbayes/ito/static.py b/ctbayes/ito/static.py
index 73ed5ef..ebc2c17 100755
--- a/ctbayes/ito/static.py
+++ b/ctbayes/ito/static.py
@@ -88,7 +88,10 @@ def assemble_model(init_thi, bounds_x, bounds_thi,
             return sx_eval_drift(thi, x) - np.square(x - init_x) / (2 * fin_t)
         def df(x):
             return eval_drift(thi, x) - (x - init_x) / fin_t
-        return sample_logconcave(f, df, *bounds_x, ome=ome)
+        def is_inside(x):
+            # probability that the proposal bridge stays on the inside of a one-sided domain
+            return all(np.isinf(b) or ome.uniform() > np.exp(-2 * (init_x - b) * (x - b) / fin_t) for b in bounds_x)
+        return filter(is_inside, sample_logconcave(f, df, *bounds_x, ome=ome))
 
     return eval_disc, eval_biased_log_lik, sample_aug, gen_normops, \
         sample_sde, maximize_posterior, sample_posterior
-- 
2.43.0


From 2fa6e9651c42f2062bbc358cb454467d42b02e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 20/28] fix: keep backward jump paths defined for transient
 final states

---
 ctbayes/mjplib/skeleton.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index 31daed8..d81f553 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -160,7 +160,10 @@ def sample_backwards(fin_t: float, fin_x: int, gen: np.ndarray, ome: np.random.G
     """
 
     ftrans = get_trans(fin_t, gen)
-    btrans = get_stat(gen) * ftrans[:, fin_x]
+    btrans = np.maximum(get_stat(gen), 0) * ftrans[:, fin_x]
+    if np.sum(btrans) == 0:
+        # the final state is transient, so that no stationary path leads to it
+        btrans = ftrans[:, fin_x]
     btrans = btrans / np.sum(btrans)
     init_x = ome.choice(np.arange(len(btrans)), 1, p=btrans).item()
 
-- 
2.43.0


From e8c1c6e2083caf33b59d249911c57d7ab51b67aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 21/28] fix: let the dual coin succeed when the two discounts
 coincide

---
 ctbayes/ea3lib/seed.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ctbayes/ea3lib/seed.py b/ctbayes/ea3lib/seed.py
index e6d0283..a51ac09 100755
--- a/ctbayes/ea3lib/seed.py
+++ b/ctbayes/ea3lib/seed.py
@@ -145,6 +145,11 @@ def flip_dual_coin(seed: SeedSkeleton,
     :return:
     """
 
+    if intensity == 0:
+        # the discounts coincide, so there is nothing to reject
+        assert np.allclose(eval_disc_nil(denorm_rsde_nil(seed.s, seed.z)[1]), eval_disc_prime(denorm_rsde_prime(seed.s, seed.z)[1]))
+        return True, seed
+
     fin_t, = denorm_rsde_nil(np.ones(1), None)[0]
     new_seed = seed
     for ppp in sample_batch_ppp(1, (intensity, fin_t), batch_size, ome):
-- 
2.43.0


From eef4b8fcea6b3a787d642e53b422f3c844c98f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 22/28] fix: find the mode of log-concave densities on bounded
 supports

---
 ctbayes/misc/ars.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index 3e7a613..0e9225b 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -1,7 +1,8 @@
 from typing import Callable, Iterator, Union
 
 import numpy as np
-from scipy.optimize import minimize
+from scipy.optimize import minimize_scalar
+from scipy.special import expit
 
 
 def sample(f: Callable[[Union[float, np.ndarray]], Union[float, np.ndarray]],
@@ -82,9 +83,16 @@ def brace(f: Callable[[np.ndarray], np.ndarray], lb: float = -np.inf, ub: float
     True
     """
 
-    x0 = np.mean([np.sign(x) * np.log(max(abs(np.nan_to_num(x)), 1)) for x in (lb, ub)])
-    bounds = [x if not np.isinf(x) else None for x in (lb, ub)]
-    mode = minimize(lambda x: -f(x[0]), np.array([x0]), bounds=(bounds,)).x[0]
+    # search on the whole line, so that the search cannot end up on a bound
+    if np.isinf(lb) and np.isinf(ub):
+        to_support = float
+    elif np.isinf(ub):
+        to_support = lambda y: lb + np.exp(y)
+    elif np.isinf(lb):
+        to_support = lambda y: ub - np.exp(y)
+    else:
+        to_support = lambda y: lb + (ub - lb) * expit(y)
+    mode = to_support(minimize_scalar(lambda y: -f(to_support(y))).x)
 
     if np.isinf(lb):
         linit = mode - 1
-- 
2.43.0


From f6235b545d9ffad5fa3d6500fddd417c363a3245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 23/28] fix: sample flat segments of the upper hull

---
 ctbayes/misc/ars.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index 0e9225b..35f3f1e 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -189,14 +189,21 @@ def sample_envelope(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray, y: np.ndarra
     # prevent over/underflows
     offset = np.max(dfx * (y[1:] - x) + fx)
 
-    vol_upper = np.exp(dfx * (y[1:] - x) + fx - offset) / dfx
-    vol_lower = np.exp(dfx * (y[:-1] - x) + fx - offset) / dfx
+    # segments which touch at the mode are flat
+    flat = np.abs(dfx) * np.diff(y) < 1e-8
+    slope = np.where(flat, 1, dfx)
 
-    cdf = np.array([0, *np.cumsum(vol_upper - vol_lower)])
+    vol_upper = np.exp(dfx * (y[1:] - x) + fx - offset) / slope
+    vol_lower = np.exp(dfx * (y[:-1] - x) + fx - offset) / slope
+    vol = np.where(flat, np.diff(y) * np.exp(fx - offset), vol_upper - vol_lower)
+
+    cdf = np.array([0, *np.cumsum(vol)])
     norm = cdf[-1]
 
     # pick sector to sample from
     z = ome.uniform()
     i = np.searchsorted(cdf / norm, z) - 1
 
+    if flat[i]:
+        return y[i] + (norm * z - cdf[i]) / np.exp(fx[i] - offset)
     return x[i] + (np.log((norm * z - cdf[i] + vol_lower[i]) * dfx[i]) - fx[i] + offset) / dfx[i]
-- 
2.43.0


From 37d1e9998d02dab071779ef1f5d18bb6f2f1bcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 24/28] fix: do not bound exit ratios by a vacuous denominator

---
 ctbayes/sdelib/hitting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ctbayes/sdelib/hitting.py b/ctbayes/sdelib/hitting.py
index 600a22a..6a68f66 100755
--- a/ctbayes/sdelib/hitting.py
+++ b/ctbayes/sdelib/hitting.py
@@ -382,7 +382,8 @@ def series_brownbr_esc(fin_t: float,
         num_seq = series_brownbr_esc(fin_t, init_x, fin_x, ue_x)
         den_seq = islice(series_brownbr_esc(fin_t, init_x, fin_x, ub_x), 1, None)
         for r, s in zip(num_seq, den_seq):
-            yield 1 - (1 - r) / (1 - s)
+            # an upper bound above one on the exit probability of the denominator says nothing about the ratio
+            yield 1 - (1 - r) / (1 - s) if s < 1 else -np.inf
 
     # handle unbounded case
     s = 0
@@ -427,7 +428,8 @@ def series_bessel3br_esc(fin_t: float,
         num_seq = series_bessel3br_esc(fin_t, init_x, fin_x, ue_x)
         den_seq = islice(series_bessel3br_esc(fin_t, init_x, fin_x, ub_x), 1, None)
         for r, s in zip(num_seq, den_seq):
-            yield 1 - (1 - r) / (1 - s)
+            # an upper bound above one on the exit probability of the denominator says nothing about the ratio
+            yield 1 - (1 - r) / (1 - s) if s < 1 else -np.inf
 
     # handle unbounded case starting from positive value
     if init_x != 0:
-- 
2.43.0


From af842e8ac3af577cf9f0772ceb8cda0cca785706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 25/28] fix: keep what the second coin has revealed when a
 two-coin escape retains it

---
 ctbayes/misc/bfactories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/bfactories.py b/ctbayes/misc/bfactories.py
index d753411..4e18555 100755
--- a/ctbayes/misc/bfactories.py
+++ b/ctbayes/misc/bfactories.py
@@ -53,9 +53,9 @@ def sample_twocoin(w1: float,
 
         # attempt proposal from coin 2
         else:
-            success, prop = next(c2)
+            success, prop0 = next(c2)
             if success:
-                return False, False, prop
+                return False, False, prop0
 
         # attempt escape or abort pathological proposal
         if ome.uniform() < pr_portkey:
-- 
2.43.0


From 286df4336019a607b6df3c6a185e3e81888bebed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 26/28] fix: continue the EM particles from the history the
 regime sampler holds

---
 ctbayes/switching/mcem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcem.py b/ctbayes/switching/mcem.py
index 044bbe2..d0e62d4 100644
--- a/ctbayes/switching/mcem.py
+++ b/ctbayes/switching/mcem.py
@@ -89,7 +89,7 @@ def update_particles(thi: np.ndarray, lam: np.ndarray, init_z: sde_seed.Partitio
     z, h, zz, hh = init_z, init_h, [], []
     for i in range(n_particles * ctrl.n_thin_mcmc):
         z, h = mcmc.update_hidden(thi, lam, z, h, mcmc.Model(*mod, None), mcmc.Controls(), regime_sampler, ome, pool)
-        if not i % ctrl.n_thin_mcmc:
+        if not (i + 1) % ctrl.n_thin_mcmc:
             zz.append(z), hh.append(h)
     return zz, hh
 
-- 
2.43.0


From 00c4f1725d9c79da5aa08681b6e38b6a9d2bd4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 27/28] fix: reject queries of a jump path at negative times

---
 ctbayes/mjplib/skeleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index d81f553..ef151b5 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -12,7 +12,7 @@ class Skeleton(NamedTuple):
     fin_t: float
 
     def __call__(self, t: np.ndarray) -> np.ndarray:
-        if np.any(t > self.fin_t):
+        if np.any(t < 0) or np.any(t > self.fin_t):
             raise ValueError
         return self.xt[np.searchsorted(self.t, t, side='right') - 1]
 
-- 
2.43.0


From 3d83dfbdfb3da1260b53fafab8b7d08dc46ca38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 28/28] fix: reject non-positive horizons in the jump path
 samplers

---
 ctbayes/mjplib/skeleton.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index ef151b5..47ab93c 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -123,6 +123,8 @@ def sample_forwards(fin_t: float, init_x: Optional[int], gen: np.ndarray,
     True
     """
 
+    assert 0 < fin_t
+
     dim = gen.shape[0]
     if init_x is None:
         init_x = ome.choice(dim, 1, p=get_stat(gen)).item()
@@ -208,6 +210,8 @@ def sample_bridge(fin_t: float, init_x: int, fin_x: int, gen: np.ndarray,
                 p.append(np.logaddexp(p[-1], n * np.log(rate_bound * fin_t) - loggamma(n + 1) + np.log(pow_dtrans[-1][init_x, fin_x])))
         return n, pow_dtrans
 
+    assert 0 < fin_t
+
     dim = gen.shape[0]
     rate_bound = -np.min(np.diag(gen))
     dtrans = np.identity(dim) + gen / rate_bound
-- 
2.43.0

