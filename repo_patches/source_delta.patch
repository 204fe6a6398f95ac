From b6e950cc8aa726a56088939b51ced54bfef14c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 01/55] fix: CKM matrix in tree parametrization for gamma
 outside (0, pi/2)

The phase delta was off by pi for gamma > pi/2, and flipping the sign of gamma
did not give the complex conjugate CKM matrix, leading to spurious direct CP
asymmetries.
---
 flavio/physics/ckm.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/ckm.py b/flavio/physics/ckm.py
index 976b429..7b1850f 100644
--- a/flavio/physics/ckm.py
+++ b/flavio/physics/ckm.py
@@ -29,7 +29,15 @@ def ckm_wolfenstein(laC, A, rhobar, etabar):
 
 @lru_cache(maxsize=2)
 def ckm_tree(Vus, Vub, Vcb, gamma):
-    return ckmutil.ckm.ckm_tree(Vus, Vub, Vcb, gamma)
+    # The exact gamma -> delta conversion in ckmutil is only valid for
+    # 0 < gamma < pi/2. The relation sin(delta - gamma) = k sin(gamma) used
+    # here agrees with it there, but is valid for all gamma and odd in gamma
+    # (such that gamma -> -gamma exactly conjugates the CKM matrix).
+    t12, t13, t23, _ = ckmutil.ckm.tree_to_standard(Vus, Vub, Vcb, gamma,
+                                                    delta_expansion_order=0)
+    k = np.sin(t13) * np.tan(t23) / np.tan(t12)
+    delta = gamma + np.arcsin(k * np.sin(gamma))
+    return ckmutil.ckm.ckm_standard(t12, t13, t23, delta)
 
 @lru_cache(maxsize=2)
 def ckm_beta_gamma(Vus, Vcb, beta, gamma):
-- 
2.43.0


From 37b4353e5ea090b0d0e978f1de6aac96365cebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 02/55] fix: conjugate_par ignored CP-odd parameters of the
 Wolfenstein and beta-gamma CKM parametrizations

---
 flavio/physics/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/common.py b/flavio/physics/common.py
index 38b48bf..fb267a7 100644
--- a/flavio/physics/common.py
+++ b/flavio/physics/common.py
@@ -6,9 +6,11 @@ def conjugate_par(par_dict):
     """Given a dictionary of parameter values, return the dictionary where
     all CP-odd parameters have flipped sign.
 
-    This assumes that the only CP-odd parameters are `gamma` or `delta` (the
-    CKM phase in the Wolfenstein or standard parametrization)."""
-    cp_odd = ['gamma', 'delta']
+    This assumes that the only CP-odd parameters are the ones of the CKM matrix:
+    `gamma` or `delta` (the CKM phase in the tree or standard parametrization),
+    `etabar` (in the Wolfenstein parametrization), or `beta` and `gamma` (in the
+    beta-gamma parametrization)."""
+    cp_odd = ['gamma', 'delta', 'etabar', 'beta']
     return {k: -v if k in cp_odd else v for k, v in par_dict.items()}
 
 def conjugate_wc(wc_dict):
-- 
2.43.0


From a0f624f610b6435c57ac19c87e123f8495260c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 03/55] fix: interference term in W partial widths for complex
 SM couplings (conjugate the CKM element)

---
 flavio/physics/wdecays/gammaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/wdecays/gammaw.py b/flavio/physics/wdecays/gammaw.py
index e082dc8..cb950c9 100644
--- a/flavio/physics/wdecays/gammaw.py
+++ b/flavio/physics/wdecays/gammaw.py
@@ -40,7 +40,7 @@ def GammaW_SM(f1, f2, par):
 def GammaW_NP(par, Nc, gW_SM, d_gW):
     GF, mW = par['GF'], par['m_W']
     return (sqrt(2) * GF * mW**3 / (3 * pi) * Nc
-            * (2*(gW_SM*d_gW).real + abs(d_gW)**2))
+            * (2*(gW_SM.conjugate()*d_gW).real + abs(d_gW)**2))
 
 
 def GammaW(wc_obj, par, f1, f2):
-- 
2.43.0


From b8c68250259ed0a585c8413d313ba9596d5edbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 04/55] fix: convolution of multivariate normals with array
 central values

Comparing the central values with == inside all() raised ValueError for
numpy arrays, so convolve_distributions never worked for them in the
default mode.
---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index ef61a03..5a3682b 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1780,7 +1780,7 @@ def _convolve_multivariate_gaussians(probability_distributions, central_values='
         "Distributions should all be instances of MultivariateNormalDistribution"
     if central_values == 'same':
         central_value = probability_distributions[0].central_value  # central value of the first dist
-        assert all(p.central_value == central_value for p in probability_distributions), \
+        assert all(np.array_equal(p.central_value, central_value) for p in probability_distributions), \
             "Distrubtions must all have the same central value"
     elif central_values == 'sum':
         central_value = np.sum([p.central_value for p in probability_distributions], axis=0)
-- 
2.43.0


From 17515fd513030f3380d6003b157bbeb5f30c75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 05/55] fix: raise NotImplementedError for convolution of
 several multivariate numerical distributions

The exception was created but not raised, so the function silently
returned None.
---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 5a3682b..ccfc411 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1747,7 +1747,7 @@ def _convolve_distributions_multivariate(probability_distributions, central_valu
     else:
         # otherwise, we need to combine the (combined) gaussian with the others
         if len(others) > 1:
-            NotImplementedError("Combining multivariate numerical distributions not implemented")
+            raise NotImplementedError("Combining multivariate numerical distributions not implemented")
         else:
             num = _convolve_multivariate_gaussian_numerical(gaussian, others[0],
                                                   central_values=central_values)
-- 
2.43.0


From 2f7c2c2a5da305316a7a8a0ece8fa83526264a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 06/55] fix: support of LogNormalDistribution with negative
 central value

The support was (exp(log|c| - 6 s), 0), i.e. a positive lower boundary
above the upper one and not containing the distribution, so that e.g.
NumericalDistribution.from_pd failed.
---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index ccfc411..4c6a4a4 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -347,9 +347,9 @@ class LogNormalDistribution(ProbabilityDistribution):
         if central_value < 0:
             self.central_sign = -1
             slim = math.exp(math.log(abs(central_value))
-                            - 6 * self.log_standard_deviation)
+                            + 6 * self.log_standard_deviation)
             super().__init__(central_value,
-                             support=(slim, 0))
+                             support=(-slim, 0))
         else:
             self.central_sign = +1
             slim = math.exp(math.log(abs(central_value))
-- 
2.43.0


From b5ab122b4526634ff0aeabc954b721359c9f2e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 07/55] fix: pass counts_signal on in GammaUpperLimit

Specifying the signal counts together with the total or the background
counts, as documented, raised a ValueError.
---
 flavio/statistics/probability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 4c6a4a4..c8d7be4 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -847,7 +847,8 @@ class GammaUpperLimit(GammaCountingProcess):
         super().__init__(
             scale_factor=scale_factor,
             counts_total=counts_total,
-            counts_background=counts_background)
+            counts_background=counts_background,
+            counts_signal=counts_signal)
 
     def __repr__(self):
         return ('flavio.statistics.probability.GammaUpperLimit'
-- 
2.43.0


From 7f48b068cd1230a5dfffcf85699a9c62cab7875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 08/55] fix: single random number from
 GammaDistributionPositive

get_random() without size returned an array with one or, if the number
drawn was negative, zero elements.
---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index c8d7be4..16d3c31 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -671,7 +671,7 @@ class GammaDistributionPositive(ProbabilityDistribution):
 
     def get_random(self, size=None):
         if size is None:
-            return self._get_random(size=size)
+            return self.get_random(size=1)[0]
         else:
             # some iteration necessary as discarding negative values
             # might lead to too small size
-- 
2.43.0


From fddff86e2b7e30f07a8a1d5af4ac59290dade788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 09/55] fix: reject zero central value outside the range in
 DiscreteUniformDistribution

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 16d3c31..116f9f3 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -191,7 +191,7 @@ class DiscreteUniformDistribution(ProbabilityDistribution):
         - highest_value: highest integer value `b`
         - central_value (optional): integer within [a,b]. Default is int((a+b)/2)
         """
-        if central_value and (
+        if central_value is not None and (
             central_value > highest_value
             or central_value < lowest_value
         ):
-- 
2.43.0


From 566a11398d30d3aebce00026cfcfa006aec7a317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 10/55] fix: allow direct use of
 GeneralGammaDistributionPositive

The constructor used counts_total, which only the derived classes define
(there, a = counts_total + 1).
---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 116f9f3..73f54f7 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1025,7 +1025,7 @@ class GeneralGammaDistributionPositive(NumericalDistribution):
         self.scale = scale
         self.gaussian_standard_deviation = gaussian_standard_deviation
         x, y = self._get_xy()
-        if self.gaussian_standard_deviation/np.sqrt(self.counts_total+1) < 1/100:
+        if self.gaussian_standard_deviation/np.sqrt(self.a) < 1/100:
             self.gaussian_standard_deviation = 0
             warnings.warn("For vanishing or very small Gaussian standard deviation, "
                           "it is safer to use GammaDistributionPositive instead of "
-- 
2.43.0


From ccb4dce6d27a593fcbb2d33f270af2a0f1292d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 11/55] fix: symmetrize triangular covariance matrices with
 small entries

---
 flavio/statistics/probability.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 73f54f7..9561a3b 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1357,7 +1357,11 @@ class MultivariateNormalDistribution(ProbabilityDistribution):
         """
         if covariance is not None:
             covariance = np.array(covariance)
-            if not np.allclose(covariance, covariance.T):
+            # check the symmetry of the rescaled (dimensionless) matrix as
+            # np.allclose would consider small covariances as equal to zero
+            _err = np.sqrt(np.diag(covariance))
+            _corr = covariance / np.outer(_err, _err)
+            if not np.allclose(_corr, _corr.T):
                 # if the covariance is not symmetric, it is assumed that only the values above the diagonal are present.
                 # then: M -> M + M^T - diag(M)
                 covariance = covariance + covariance.T - np.diag(np.diag(covariance))
-- 
2.43.0


From fa18bb5539ae192058ab77231981bc1eea5b5e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 12/55] fix: scalar central value when reducing a multivariate
 numerical distribution to one dimension

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 9561a3b..4bfe0ee 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1580,7 +1580,7 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
         cv = np.delete(self.central_value, tuple(exclude))
         if len(xi) == 1:
             # if there is just 1 dimension left, use univariate
-            dist = NumericalDistribution(xi[0], y, cv)
+            dist = NumericalDistribution(xi[0], y, cv[0])
         else:
             dist = MultivariateNumericalDistribution(xi, y, cv)
         return dist
-- 
2.43.0


From b3dc4e9b7646aff16f73ad2e0432351eb9747767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 13/55] fix: normalization of the tensor helicity amplitude in
 B->P transitions

The amplitude h^T lacked a factor sqrt(2) (arXiv:1506.03970), so that for
massless neutrinos a right-handed neutrino contributed to B->P tau nu with a
tensor operator.
---
 flavio/physics/bdecays/angular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/angular.py b/flavio/physics/bdecays/angular.py
index e6ce084..2198fe1 100644
--- a/flavio/physics/bdecays/angular.py
+++ b/flavio/physics/bdecays/angular.py
@@ -196,7 +196,7 @@ def helicity_amps_p(q2, mB, mP, mqh, mql, ml1, ml2, ff, wc, prefactor):
             (wc['s']+wc['sp'])/(mqh-mql) + (ml1-ml2)/q2*(wc['v']+wc['vp']) )
     h['P'] = (mB**2-mP**2)/2. * ff['f0'] * (
             (wc['p']+wc['pp'])/(mqh-mql) + (ml1+ml2)/q2*(wc['a']+wc['ap']) )
-    h['T']  = -1j*sqrt(laB)/(2*(mB+mP)) * (wc['t']-wc['tp']) * ff['fT']
+    h['T']  = -1j*sqrt(laB)/(sqrt(2)*(mB+mP)) * (wc['t']-wc['tp']) * ff['fT']
     h['Tt'] = -1j*sqrt(laB)/(2*(mB+mP)) * (wc['t']+wc['tp']) * ff['fT']
     return {k: prefactor*v for k, v in h.items()}
 
-- 
2.43.0


From 6183eb09aec4dc72ecbabe229a6b4378789beae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:05 +0000
Subject: [PATCH 14/55] fix: apply the electromagnetic correction to K+->pi0lnu

---
 flavio/physics/kdecays/kpilnu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/kdecays/kpilnu.py b/flavio/physics/kdecays/kpilnu.py
index 4f2410e..a3ce974 100644
--- a/flavio/physics/kdecays/kpilnu.py
+++ b/flavio/physics/kdecays/kpilnu.py
@@ -51,13 +51,13 @@ def dBRdq2(q2, wc_obj, par, K, P, lep):
         return 0
     tauK = par['tau_'+K]
     J = get_angularcoeff(q2, wc_obj, par, K, P, lep)
-    if P == 'pi0':
-        # factor of 1/2 for neutral pi due to pi = (uubar-ddbar)/sqrt(2)
-        return tauK * dGdq2(J) / 2.
     if K == 'K+':
         deltaEM = par['K+' + lep + '3 delta_EM'] # e.g. 'K+e3 delta_EM'
     elif K == 'KL' or K == 'KS':
         deltaEM = par['K0' + lep + '3 delta_EM'] # e.g. 'K+e3 delta_EM'
+    if P == 'pi0':
+        # factor of 1/2 for neutral pi due to pi = (uubar-ddbar)/sqrt(2)
+        return tauK * dGdq2(J) * (1 + deltaEM)**2 / 2.
     return tauK * dGdq2(J) * (1 + deltaEM)**2
 
 def BR_binned(q2min, q2max, wc_obj, par, K, P, lep):
-- 
2.43.0


From 30c2c47c5301196c6a6d997aa267497b7ed049be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 15/55] fix: evaluate the lepton-averaged K->pilnu and
 Lambda->plnu observables

---
 flavio/physics/kdecays/kpilnu.py     | 9 +++++++++
 flavio/physics/kdecays/lambdaplnu.py | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/flavio/physics/kdecays/kpilnu.py b/flavio/physics/kdecays/kpilnu.py
index a3ce974..16113ef 100644
--- a/flavio/physics/kdecays/kpilnu.py
+++ b/flavio/physics/kdecays/kpilnu.py
@@ -66,6 +66,9 @@ def BR_binned(q2min, q2max, wc_obj, par, K, P, lep):
     return flavio.math.integrate.nintegrate(integrand, q2min, q2max)
 
 def BR_tot(wc_obj, par, K, P, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return (BR_tot(wc_obj, par, K, P, 'e') + BR_tot(wc_obj, par, K, P, 'mu'))/2
     mK = par['m_'+K]
     mP = par['m_'+P]
     ml = par['m_'+lep]
@@ -78,6 +81,9 @@ def BR_tot_function(K, P, lep):
 
 
 def logC(wc_obj, par, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return (logC(wc_obj, par, 'e') + logC(wc_obj, par, 'mu'))/2
     mK = par['m_KL']
     mP = par['m_pi+']
     ml = par['m_' + lep]
@@ -94,6 +100,9 @@ def logC(wc_obj, par, lep):
 
 
 def RT(wc_obj, par, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return (RT(wc_obj, par, 'e') + RT(wc_obj, par, 'mu'))/2
     mK = par['m_KL']
     mP = par['m_pi+']
     scale = par['m_rho0']
diff --git a/flavio/physics/kdecays/lambdaplnu.py b/flavio/physics/kdecays/lambdaplnu.py
index 85c1970..181400c 100644
--- a/flavio/physics/kdecays/lambdaplnu.py
+++ b/flavio/physics/kdecays/lambdaplnu.py
@@ -15,6 +15,9 @@ def g1_f1(wc_obj, par, lep, nu):
 
 def g1_f1_fct(lep):
     def f(wc_obj, par):
+        if lep == 'l':
+            # average of e and mu!
+            return (g1_f1(wc_obj, par, lep='e', nu='e') + g1_f1(wc_obj, par, lep='mu', nu='mu'))/2
         return g1_f1(wc_obj, par, lep=lep, nu=lep)
     return f
 
-- 
2.43.0


From 97d92e2e6e24b5af622b932418a37333b84b18d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:49 +0000
Subject: [PATCH 16/55] fix: evaluate the lepton-averaged polarization and
 angular observables in B->Vlnu

---
 flavio/physics/bdecays/bvlnu.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/flavio/physics/bdecays/bvlnu.py b/flavio/physics/bdecays/bvlnu.py
index 410546f..21e2dad 100644
--- a/flavio/physics/bdecays/bvlnu.py
+++ b/flavio/physics/bdecays/bvlnu.py
@@ -168,10 +168,10 @@ def kinem_allowed(q2, par, B, V, lep):
         return True
 
 def FL_diff(q2, wc_obj, par, B, V, lep):
-    if not kinem_allowed(q2, par, B, V, lep):
+    num = dBRdq2(q2, wc_obj, par, B, V, lep, A='L')
+    if num == 0:
         return 0
-    J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
-    return dGdq2_L(J) / dGdq2(J)
+    return num / dBRdq2(q2, wc_obj, par, B, V, lep, A=None)
 
 
 def FL_binned(q2min, q2max, wc_obj, par, B, V, lep):
@@ -181,15 +181,18 @@ def FL_binned(q2min, q2max, wc_obj, par, B, V, lep):
     denom = flavio.math.integrate.nintegrate(lambda q2: dBRdq2(q2, wc_obj, par, B, V, lep,  A=None), q2min, q2max)
     return num / denom
 
-def Itot_norm(fct_J, wc_obj, par, B, V, lep):
+def Itot(fct_J, wc_obj, par, B, V, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return (Itot(fct_J, wc_obj, par, B, V, 'e') + Itot(fct_J, wc_obj, par, B, V, 'mu'))/2
     def fct(q2):
         J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
         return fct_J(J)
-    num = obs_q2int(fct, wc_obj, par, B, V, lep)
-    def fct_den(q2):
-        J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
-        return dGdq2(J)
-    den = obs_q2int(fct_den, wc_obj, par, B, V, lep)
+    return obs_q2int(fct, wc_obj, par, B, V, lep)
+
+def Itot_norm(fct_J, wc_obj, par, B, V, lep):
+    num = Itot(fct_J, wc_obj, par, B, V, lep)
+    den = Itot(dGdq2, wc_obj, par, B, V, lep)
     return num / den
 
 def dBR_dq2_dcosthl_binned(q2, clmin, clmax, wc_obj, par, B, V, lep):
@@ -342,12 +345,7 @@ def FL_binned_function(B, V, lep):
 
 def FL_tot_function(B, V, lep):
     def f(wc_obj, par):
-        mB = par['m_'+B]
-        mV = par['m_'+V]
-        ml = par['m_'+lep]
-        q2max = (mB-mV)**2
-        q2min = ml**2
-        return FL_binned(q2min, q2max, wc_obj, par, B, V, lep)
+        return BR_tot(wc_obj, par, B, V, lep, A='L') / BR_tot(wc_obj, par, B, V, lep, A=None)
     return f
 
 def FLt_tot_function(B, V, lep):
-- 
2.43.0


From 8920766ad84f29eaad1c80f27d9606800121d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:49 +0000
Subject: [PATCH 17/55] fix: quark masses in the scalar contribution to D+ and
 Ds leptonic decays

---
 flavio/physics/ddecays/dlnu.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/ddecays/dlnu.py b/flavio/physics/ddecays/dlnu.py
index 1857e56..f27fa38 100644
--- a/flavio/physics/ddecays/dlnu.py
+++ b/flavio/physics/ddecays/dlnu.py
@@ -22,9 +22,12 @@ def _br_Dlnu(wc_obj, par, P, lep, nu):
     # add SM contribution to Wilson coefficient
     if lep == nu:
         wc['CVL_'+qiqj+lep+'nu' + nu] += flavio.physics.bdecays.wilsoncoefficients.get_CVLSM(par, scale, nf=4)
-    mb = flavio.physics.running.running.get_mb(par, scale)
+    if P == 'D+':
+        mq = flavio.physics.running.running.get_md(par, scale)
+    elif P == 'Ds':
+        mq = flavio.physics.running.running.get_ms(par, scale)
     mc = flavio.physics.running.running.get_mc(par, scale)
-    return br_plnu_general(wc, par, Vij, P, qiqj, lep, nu, mb, mc, delta=0)
+    return br_plnu_general(wc, par, Vij, P, qiqj, lep, nu, mq, mc, delta=0)
 
 # function returning function needed for prediction instance
 def br_Dlnu_fct(P, lep):
-- 
2.43.0


From b3a6ad27257c75f090ba28de161eb40b34e0aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:49 +0000
Subject: [PATCH 18/55] fix: sign of the scalar-vector interference in D->Plnu

---
 flavio/physics/ddecays/dplnu.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/ddecays/dplnu.py b/flavio/physics/ddecays/dplnu.py
index 172be0c..3c5a0f0 100644
--- a/flavio/physics/ddecays/dplnu.py
+++ b/flavio/physics/ddecays/dplnu.py
@@ -72,8 +72,10 @@ def _get_angularcoeff(q2, wc_obj, par, D, P, lep, nu):
         mlight = running.get_md(par, scale)
     if qi_qj == 'cs':
         mlight = running.get_ms(par, scale)
-    h = angular.helicity_amps_p(q2, mD, mP, mc, mlight, ml, 0, ff, wc, N)
-    J = angular.angularcoeffs_general_p(h, q2, mD, mP, mc, mlight, ml, 0)
+    # the effective operators are defined for the transition of the down-type
+    # quark to the charm quark, i.e. scalar contributions scale as 1/(mlight-mc)
+    h = angular.helicity_amps_p(q2, mD, mP, mlight, mc, ml, 0, ff, wc, N)
+    J = angular.angularcoeffs_general_p(h, q2, mD, mP, mlight, mc, ml, 0)
     return J
 
 
-- 
2.43.0


From 5c3b36c122088152c828eb7242c8170287637ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:57 +0000
Subject: [PATCH 19/55] fix: lepton flavour violating K_S decays

---
 flavio/physics/kdecays/kll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/kdecays/kll.py b/flavio/physics/kdecays/kll.py
index a2b0b04..31c5b17 100644
--- a/flavio/physics/kdecays/kll.py
+++ b/flavio/physics/kdecays/kll.py
@@ -60,7 +60,7 @@ def amplitudes_eff(par, wc, K, l1, l2, ld=True):
         PLD = 0
     else:
         SLD, PLD = amplitudes_LD(par, K, l1)
-    if K == 'KS' and l1 == l2:
+    if K == 'KS':
         Peff = P.imag
         Seff = S.real + SLD
     if K == 'KL':
-- 
2.43.0


From dd335ddf6495570539d34b913dddc65f5be48725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:11 +0000
Subject: [PATCH 20/55] fix: isospin factor for lepton flavour violating
 B0->rho0 decays

---
 flavio/physics/bdecays/bvll/lfv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bvll/lfv.py b/flavio/physics/bdecays/bvll/lfv.py
index 223a334..5a2a839 100644
--- a/flavio/physics/bdecays/bvll/lfv.py
+++ b/flavio/physics/bdecays/bvll/lfv.py
@@ -63,8 +63,12 @@ def BR_tot(wc_obj, par, B, V, l1, l2):
     q2max = (mB-mV)**2
     q2min = (ml1+ml2)**2
     tauB = par['tau_'+B]
-    return tauB*bvlilj_obs_int(flavio.physics.bdecays.bvll.observables.dGdq2,
+    BR = tauB*bvlilj_obs_int(flavio.physics.bdecays.bvll.observables.dGdq2,
                           q2min, q2max, wc, par, B, V, l1, l2)
+    if V == 'rho0':
+        # factor of 1/2 for neutral rho due to rho0 = (uubar-ddbar)/sqrt(2)
+        return BR/2.
+    return BR
 
 def BR_tot_function(B, V, l1, l2):
     return lambda wc_obj, par: BR_tot(wc_obj, par, B, V, l1, l2)
-- 
2.43.0


From cad331a063d4a39ec355f262c434065aec293424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:43 +0000
Subject: [PATCH 21/55] fix: lepton mass factor in the left-right interference
 in tau->lnunu and the effective Fermi constant

---
 flavio/physics/taudecays/taulnunu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/taudecays/taulnunu.py b/flavio/physics/taudecays/taulnunu.py
index 6c675f0..b35e1c0 100644
--- a/flavio/physics/taudecays/taulnunu.py
+++ b/flavio/physics/taudecays/taulnunu.py
@@ -11,7 +11,7 @@ def G(x):
     return 1 + 9*x - 9*x**2 - x**3 + 6*x*log(x) + 6*x**2*log(x)
 
 def _BR(x, CL, CR):
-    return F(x) * (abs(CL)**2 + abs(CR)**2) - 4 * G(x) * (CL * CR.conjugate()).real
+    return F(x) * (abs(CL)**2 + abs(CR)**2) - 4 * sqrt(x) * G(x) * (CL * CR.conjugate()).real
 
 
 def GFeff(wc_obj, par):
-- 
2.43.0


From 6f6f2cb4d362df2f49f9070073dd666ac4b8f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 22/55] fix: CP-conjugate operator in lepton flavour violating
 K_L, K_S decays

---
 flavio/physics/kdecays/kll.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/flavio/physics/kdecays/kll.py b/flavio/physics/kdecays/kll.py
index 31c5b17..ef474da 100644
--- a/flavio/physics/kdecays/kll.py
+++ b/flavio/physics/kdecays/kll.py
@@ -55,17 +55,20 @@ def amplitudes_LD(par, K, l):
 def amplitudes_eff(par, wc, K, l1, l2, ld=True):
     r"""Effective amplitudes entering the $K\to\ell_1^+\ell_2^-$ observables."""
     P, S = amplitudes(par, wc, l1, l2)
+    # for l1 != l2, both operators sdl1l2 and sdl2l1 contribute (to the decays
+    # of a K0bar and a K0, respectively)
+    Pbar, Sbar = amplitudes(par, wc, l2, l1)
     if l1 != l2 or not ld:
         SLD = 0
         PLD = 0
     else:
         SLD, PLD = amplitudes_LD(par, K, l1)
     if K == 'KS':
-        Peff = P.imag
-        Seff = S.real + SLD
+        Peff = (P - Pbar.conjugate()) / 2j
+        Seff = (S + Sbar.conjugate()) / 2 + SLD
     if K == 'KL':
-        Peff = P.real + PLD
-        Seff = S.imag
+        Peff = (P + Pbar.conjugate()) / 2 + PLD
+        Seff = (S - Sbar.conjugate()) / 2j
     return Peff, Seff
 
 
@@ -79,10 +82,9 @@ def get_wc(wc_obj, par, l1, l2):
         xi_t = ckm.xi('t', 'sd')(par)
         xi_c = ckm.xi('c', 'sd')(par)
         wcsm = {'C10_sd' + l1 + l2: _c['C10_t'] + xi_c / xi_t * _c['C10_c']}
+        return add_dict((wcsm, wcnp))
     else:
-        wcsm = {}
-
-    return add_dict((wcsm, wcnp))
+        return add_dict((wcnp, wc_obj.get_wc('sd' + l2 + l1, scale, par)))
 
 
 def br_kll(par, wc_obj, K, l1, l2, ld=True):
-- 
2.43.0


From 2f275f3c26b8c51ed7daefc81bf8461f2f34945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 23/55] fix: sign of the vector-scalar interference in lepton
 flavour violating B decays

---
 flavio/physics/bdecays/bpll_lfv.py | 5 +++--
 flavio/physics/bdecays/bvll/lfv.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/flavio/physics/bdecays/bpll_lfv.py b/flavio/physics/bdecays/bpll_lfv.py
index 1495033..8261036 100644
--- a/flavio/physics/bdecays/bpll_lfv.py
+++ b/flavio/physics/bdecays/bpll_lfv.py
@@ -26,7 +26,8 @@ def helicity_amps(q2, wc, par_dict, B, P, l1, l2):
     mb = running.get_mb(par, scale)
     N = prefactor(q2, par, B, P)
     ff = get_ff(q2, par, B, P)
-    h = angular.helicity_amps_p(q2, mB, mP, mb, 0, ml1, ml2, ff, wc_eff, N)
+    # l1 is the antilepton: the operators contain (lbar2 Gamma l1)
+    h = angular.helicity_amps_p(q2, mB, mP, mb, 0, ml2, ml1, ff, wc_eff, N)
     return h
 
 
@@ -40,7 +41,7 @@ def bpll_obs(function, q2, wc, par, B, P, l1, l2):
     scale = config['renormalization scale']['bpll']
     mb = running.get_mb(par, scale)
     h     = helicity_amps(q2, wc, par, B, P, l1, l2)
-    J     = angular.angularcoeffs_general_p(h, q2, mB, mP, mb, 0, ml1, ml2)
+    J     = angular.angularcoeffs_general_p(h, q2, mB, mP, mb, 0, ml2, ml1)
     return function(J)
 
 def dGdq2(J):
diff --git a/flavio/physics/bdecays/bvll/lfv.py b/flavio/physics/bdecays/bvll/lfv.py
index 5a2a839..ff87e38 100644
--- a/flavio/physics/bdecays/bvll/lfv.py
+++ b/flavio/physics/bdecays/bvll/lfv.py
@@ -28,7 +28,8 @@ def helicity_amps(q2, wc, par, B, V, l1, l2):
     mb = flavio.physics.running.running.get_mb(par, scale)
     N = prefactor(q2, par, B, V, l1, l2)
     ff = flavio.physics.bdecays.bvll.amplitudes.get_ff(q2, par, B, V)
-    h = flavio.physics.bdecays.angular.helicity_amps_v(q2, mB, mV, mb, 0, ml1, ml2, ff, wc_eff, N)
+    # l1 is the antilepton: the operators contain (lbar2 Gamma l1)
+    h = flavio.physics.bdecays.angular.helicity_amps_v(q2, mB, mV, mb, 0, ml2, ml1, ff, wc_eff, N)
     return h
 
 def bvlilj_obs(function, q2, wc, par, B, V, l1, l2):
@@ -41,7 +42,7 @@ def bvlilj_obs(function, q2, wc, par, B, V, l1, l2):
     scale = flavio.config['renormalization scale']['bvll']
     mb = flavio.physics.running.running.get_mb(par, scale)
     h = helicity_amps(q2, wc, par, B, V, l1, l2)
-    J = flavio.physics.bdecays.angular.angularcoeffs_general_v(h, q2, mB, mV, mb, 0, ml1, ml2)
+    J = flavio.physics.bdecays.angular.angularcoeffs_general_v(h, q2, mB, mV, mb, 0, ml2, ml1)
     return function(J)
 
 def bvlilj_obs_int(function, q2min, q2max, wc, par, B, V, l1, l2):
-- 
2.43.0


From e7f7adeed30dab3eb72d22a9df62eb90fb37a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:37 +0000
Subject: [PATCH 24/55] fix: quark masses in the up and down quark
 (chromo-)EDMs

---
 flavio/physics/edms/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/edms/common.py b/flavio/physics/edms/common.py
index 7d7f06b..8c6dad9 100644
--- a/flavio/physics/edms/common.py
+++ b/flavio/physics/edms/common.py
@@ -12,9 +12,9 @@ def get_m(par, f, scale, eft):
         return par['m_' + f]
     nf_out = eft_nf_out[eft]
     if f == 'u':
-        return flavio.physics.running.running.get_md(par, scale, nf_out=nf_out)
-    elif f == 'd':
         return flavio.physics.running.running.get_mu(par, scale, nf_out=nf_out)
+    elif f == 'd':
+        return flavio.physics.running.running.get_md(par, scale, nf_out=nf_out)
     elif f == 's':
         return flavio.physics.running.running.get_ms(par, scale, nf_out=nf_out)
     else:
-- 
2.43.0


From 2f365e04313ea1fd3f81c27ec9554f9a607ec85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 25/55] fix: missing charge-summed emu and etau modes of eta
 and chi quarkonia

---
 flavio/physics/quarkonium/Pll.py | 2 +-
 flavio/physics/quarkonium/Sll.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/quarkonium/Pll.py b/flavio/physics/quarkonium/Pll.py
index 951fb09..3dbb813 100644
--- a/flavio/physics/quarkonium/Pll.py
+++ b/flavio/physics/quarkonium/Pll.py
@@ -97,7 +97,7 @@ for M in _hadr:
     for (l1,l2) in [('e','mu'), ('mu','e'), ('e','tau'), ('tau','e'), ('mu','tau'), ('tau','mu')]:
         _obs_name = _define_obs_P_ll(M, (l1,l2))
         Prediction(_obs_name, Pll_br_func(_hadr[M]['P'], l1, l2))
-    for ll in [('e','mu'), ('e','tau'), ('mu','tau')]:
+    for (l1,l2) in [('e','mu'), ('e','tau'), ('mu','tau')]:
         # Combined l1+ l2- + l2+ l1- lepton flavour violating decays
         _obs_name = _define_obs_P_ll(M, ('{0}{1},{1}{0}'.format(l1,l2),))
         Prediction(_obs_name, Pll_br_comb_func(_hadr[M]['P'], l1,l2))
diff --git a/flavio/physics/quarkonium/Sll.py b/flavio/physics/quarkonium/Sll.py
index d6d9879..59d9ca3 100644
--- a/flavio/physics/quarkonium/Sll.py
+++ b/flavio/physics/quarkonium/Sll.py
@@ -90,7 +90,7 @@ for M in _hadr:
     for (l1,l2) in [('e','mu'), ('mu','e'), ('e','tau'), ('tau','e'), ('mu','tau'), ('tau','mu')]:
         _obs_name = _define_obs_S_ll(M, (l1,l2))
         Prediction(_obs_name, Sll_br_func(_hadr[M]['S'], l1,l2))
-    for ll in [('e','mu'), ('e','tau'), ('mu','tau')]:
+    for (l1,l2) in [('e','mu'), ('e','tau'), ('mu','tau')]:
         # Combined l1+ l2- + l2+ l1- lepton flavour violating decays
         _obs_name = _define_obs_S_ll(M, ('{0}{1},{1}{0}'.format(l1,l2),))
         Prediction(_obs_name, Sll_br_comb_func(_hadr[M]['S'],  l1,l2))
-- 
2.43.0


From 7f7466f2615288a8e1e94abf9367c1e41488b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 26/55] fix: lepton masses and conjugation of the axial current
 in eta_c, eta_b -> l l'

---
 flavio/physics/quarkonium/Pll.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/quarkonium/Pll.py b/flavio/physics/quarkonium/Pll.py
index 3dbb813..c8022c1 100644
--- a/flavio/physics/quarkonium/Pll.py
+++ b/flavio/physics/quarkonium/Pll.py
@@ -34,8 +34,14 @@ def getS_lfv(wc_obj,par,P,l1,l2,CeGGij,CeGGji):
     else:
         ll=wc_sector[(l1,l2)]
     aPfac=1j*aP*4.*np.pi/alphas
-    SR= aPfac * CeGGij +  (hP/(4*mq))*(wc['CSRR_'+l1+l2+qq]-wc['CSRL_'+l1+l2+qq])  -(fP/2.)*(ml1*(wc['CVRR_'+ll+qq] - wc['CVLR_'+qq+ll])+ml2* (wc['CVLR_'+ll+qq] -wc['CVLL_'+ll+qq] ))  
-    SL= aPfac * CeGGji + (hP/(4*mq))*(wc['CSRL_'+l2+l1+qq]-wc['CSRR_'+l2+l1+qq]).conjugate() -(fP/2.)*(ml2*(wc['CVRR_'+ll+qq] - wc['CVLR_'+qq+ll])+ml1* (wc['CVLR_'+ll+qq] -wc['CVLL_'+ll+qq] )) 
+    # axial-vector quark current times right- and left-handed lepton current (lbar2 gamma l1), where l1 is the antilepton
+    AR = wc['CVRR_'+ll+qq] - wc['CVLR_'+qq+ll]
+    AL = wc['CVLR_'+ll+qq] - wc['CVLL_'+ll+qq]
+    if ll==l2+l1:
+        AR = AR.conjugate()
+        AL = AL.conjugate()
+    SR= aPfac * CeGGij +  (hP/(4*mq))*(wc['CSRR_'+l1+l2+qq]-wc['CSRL_'+l1+l2+qq])  -(fP/2.)*(ml2*AR-ml1*AL)
+    SL= aPfac * CeGGji + (hP/(4*mq))*(wc['CSRL_'+l2+l1+qq]-wc['CSRR_'+l2+l1+qq]).conjugate() -(fP/2.)*(ml2*AL-ml1*AR)
     return SL,SR
 
 
-- 
2.43.0


From 352aa34681f9bee6b89aebd1818c2e35579bb500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 27/55] fix: lepton flavour indices of photon dipole and
 interference terms in V -> l l' and V -> l l' gamma

---
 flavio/physics/quarkonium/Vll.py      |  7 ++++---
 flavio/physics/quarkonium/Vllgamma.py | 13 +++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/flavio/physics/quarkonium/Vll.py b/flavio/physics/quarkonium/Vll.py
index 5d835ed..eac27f7 100644
--- a/flavio/physics/quarkonium/Vll.py
+++ b/flavio/physics/quarkonium/Vll.py
@@ -36,8 +36,8 @@ def getVT_lfv(wc_obj,par,V,Q,l1,l2):
         ll=wc_sector[(l1,l2)]
     VL=fV*mV*(wc['CVLL_'+ll+qq] + wc['CVLR_'+ll+qq]) 
     VR=fV*mV*(wc['CVRR_'+ll+qq] + wc['CVLR_'+qq+ll]) 
-    TR=fV_T*mV*wc['CTRR_'+l1+l2+qq] - ee*Q *fV*wc['Cgamma_'+l2+l1] 
-    TL=(fV_T*mV*wc['CTRR_'+l2+l1+qq] - ee*Q *fV*wc['Cgamma_'+l1+l2]).conjugate()
+    TR=fV_T*mV*wc['CTRR_'+l1+l2+qq] - ee*Q *fV*wc['Cgamma_'+l1+l2] 
+    TL=(fV_T*mV*wc['CTRR_'+l2+l1+qq] - ee*Q *fV*wc['Cgamma_'+l2+l1]).conjugate()
     if ll==l2+l1: 
         VL=VL.conjugate()
         VR=VR.conjugate()
@@ -91,7 +91,8 @@ def Vll_br(wc_obj, par,V,Q, l1,l2):
 
     ampSquared_V = (np.abs(VL)**2+np.abs(VR)**2 )/12. *(2-y1s-y2s-(y1s-y2s)**2)+y1*y2*(VL*VR.conjugate()).real
     ampSquared_T= 4./3.*(np.abs(TL)**2+np.abs(TR)**2) * (1+y1s+y2s-2*(y1s-y2s)**2) +16.*y1*y2*(TR*TL.conjugate()).real
-    ampSquared_VT = 2*y1*(1+y2s-y1s)*(VR*TR.conjugate()+VL*TL.conjugate()).real + 2*y2*(1+y1s-y2s)*(VL*TR.conjugate()+VR*TL.conjugate()).real
+    # the amplitude is lbar2 Gamma l1 (l1 is the antilepton)
+    ampSquared_VT = 2*y2*(1+y1s-y2s)*(VR*TR.conjugate()+VL*TL.conjugate()).real + 2*y1*(1+y2s-y1s)*(VL*TR.conjugate()+VR*TL.conjugate()).real
     
     return tauV*mV/(16.*np.pi) * np.sqrt(lambda_K(1,y1s,y2s)) * (ampSquared_V+ampSquared_T+ampSquared_VT)
 
diff --git a/flavio/physics/quarkonium/Vllgamma.py b/flavio/physics/quarkonium/Vllgamma.py
index 40deea9..0bfba3b 100644
--- a/flavio/physics/quarkonium/Vllgamma.py
+++ b/flavio/physics/quarkonium/Vllgamma.py
@@ -34,8 +34,8 @@ def getWC_lfv(wc_obj,par,V,Q,l1,l2,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji):
         ll=wc_sector[(l1,l2)]
     VR=fV*mV*(wc['CVRR_'+ll+qq] + wc['CVLR_'+qq+ll]) 
     VL=fV*mV*(wc['CVLL_'+ll+qq] + wc['CVLR_'+ll+qq]) 
-    TR=fV_T*mV*wc['CTRR_'+l1+l2+qq] - ee*Q *fV*wc['Cgamma_'+l2+l1] 
-    TL=(fV_T*mV*wc['CTRR_'+l2+l1+qq] - ee*Q *fV*wc['Cgamma_'+l1+l2]).conjugate()
+    TR=fV_T*mV*wc['CTRR_'+l1+l2+qq] - ee*Q *fV*wc['Cgamma_'+l1+l2] 
+    TL=(fV_T*mV*wc['CTRR_'+l2+l1+qq] - ee*Q *fV*wc['Cgamma_'+l2+l1]).conjugate()
     SR=2.*mV*fV*(wc['CSRR_'+l1+l2+qq]+wc['CSRL_'+l1+l2+qq])
     SL=2.*mV*fV*(wc['CSRL_'+l2+l1+qq]+wc['CSRR_'+l2+l1+qq]).conjugate()   
     PR=2.*mV*fV*(wc['CSRR_'+l1+l2+qq]-wc['CSRL_'+l1+l2+qq])
@@ -117,14 +117,15 @@ def Vllgamma_br(wc_obj, par,V,Q, l1,l2,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji):
     PPtilde= (PL*PtildeL.conjugate() + PR*PtildeR.conjugate()).imag
 
    
+    # the amplitude is lbar2 Gamma l1 (l1 is the antilepton)
     if ml1<ml2:
         y=ml2/mV
-        I_AP=-(AL*PR.conjugate()+AR*PL.conjugate()).real
-        I_APtilde=-(AL*PtildeR.conjugate()+AR*PtildeL.conjugate()).imag
-    elif ml2<ml1:
-        y=ml1/mV
         I_AP=(AL*PL.conjugate()+AR*PR.conjugate()).real
         I_APtilde=(AL*PtildeL.conjugate()+AR*PtildeR.conjugate()).imag
+    elif ml2<ml1:
+        y=ml1/mV
+        I_AP=-(AL*PR.conjugate()+AR*PL.conjugate()).real
+        I_APtilde=-(AL*PtildeR.conjugate()+AR*PtildeL.conjugate()).imag
     else:
         print("The case of non-hierarchical masses is not implemented.")
 
-- 
2.43.0


From 0306b2cb1afbd3ad1a5f22d1fd464392266e682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 28/55] fix: nucleon pseudoscalar charge is proportional to the
 axial charge

---
 flavio/physics/edms/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/edms/common.py b/flavio/physics/edms/common.py
index 8c6dad9..76020d3 100644
--- a/flavio/physics/edms/common.py
+++ b/flavio/physics/edms/common.py
@@ -64,7 +64,7 @@ def proton_charges(par, scale):
     me['gV_u-d'] = 1  # CVC
     me['gA_u-d'] = par['g_A']
     me['gS_u-d'] = par['gS_u-d']
-    me['gP_u-d'] = (par['m_p'] + par['m_n']) / (md + mu) + par['g_A']
+    me['gP_u-d'] = (par['m_p'] + par['m_n']) / (md + mu) * par['g_A']
     me['gT_u-d'] = par['gT_u'] - par['gT_d']
     # u+d
     me['gS_u+d'] = par['sigma_piN'] / ((md + mu) / 2)
-- 
2.43.0


From d5947f020ed36ddf4bf23f004e79b08091eed93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 29/55] fix: proton and neutron numbers and sign of the scalar
 coupling in EDMs of paramagnetic systems

---
 flavio/data/parameters_uncorrelated.yml | 2 +-
 flavio/physics/edms/paraedm.py          | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/flavio/data/parameters_uncorrelated.yml b/flavio/data/parameters_uncorrelated.yml
index e5720f5..ae888c3 100644
--- a/flavio/data/parameters_uncorrelated.yml
+++ b/flavio/data/parameters_uncorrelated.yml
@@ -499,7 +499,7 @@ tau_Bc_SM: (8.34 ± 2.28) 1e11  # 0.55 ± 0.15 ps, hep-ph/0211432
 # mrad/s / (1e-27 e cm) = 4.2890848933863195e-14 rad
 # units: 1 / GeV
 alpha_de(Tl): -573 ± 20
-alpha_CS(Tl): (1.07 ± 0.05) 1e-4  # (700 ± 35) 1e-20 * ecm
+alpha_CS(Tl): (-1.07 ± 0.05) 1e-4  # (700 ± 35) 1e-20 * ecm
 # units: rad
 alpha_de(YbF): (-8.40 ± 0.6) 1e-13  # (-19.6±1.5)(mrad/s)(1e-27ecm)
 alpha_CS(YbF): (-1.16 ± 0.13) 1e-19  # (-17.6±2.0)(mrad/s) 1e-7
diff --git a/flavio/physics/edms/paraedm.py b/flavio/physics/edms/paraedm.py
index c8a54a3..d5feac2 100644
--- a/flavio/physics/edms/paraedm.py
+++ b/flavio/physics/edms/paraedm.py
@@ -8,20 +8,20 @@ from math import pi, sqrt
 
 atoms = {
     'Tl': {
-        'Z': 3, 'N': 4, 'tex': r'\text{Tl}', 'name': 'Thallium'
+        'Z': 81, 'N': 124, 'tex': r'\text{Tl}', 'name': 'Thallium'
     },
 }
 
 
 molecules = {
     'YbF': {
-        'Z': 1, 'N': 1, 'tex': r'\text{HfF}', 'name': 'Ytterbium fluoride'
+        'Z': 70, 'N': 104, 'tex': r'\text{YbF}', 'name': 'Ytterbium fluoride'
     },
     'HfF': {
-        'Z': 1, 'N': 1, 'tex': r'\text{HfF}', 'name': 'Hafnium fluoride'
+        'Z': 72, 'N': 108, 'tex': r'\text{HfF}', 'name': 'Hafnium fluoride'
     },
     'ThO': {
-        'Z': 1, 'N': 1, 'tex': r'\text{HfF}', 'name': 'Thorium monoxide'
+        'Z': 90, 'N': 142, 'tex': r'\text{ThO}', 'name': 'Thorium monoxide'
     },
 }
 
-- 
2.43.0


From d0a0b8354e9dcbee845e4741f12b655b12147e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 30/55] fix: overwritten and removed constraints were written
 to YAML

---
 flavio/classes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flavio/classes.py b/flavio/classes.py
index b55e748..dc37711 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -378,6 +378,15 @@ class Constraints(object):
         """
         data = []
         for constraint, parameters in self._constraints:
+            # positions of parameters the constraint has been removed from
+            removed = tuple(i for i, p in enumerate(parameters)
+                            if self._parameters.get(p, None) != (i, constraint))
+            if len(removed) == len(parameters):
+                continue
+            if removed:
+                constraint = constraint.reduce_dimension(exclude=removed)
+                parameters = [p for i, p in enumerate(parameters)
+                              if i not in removed]
             d = OrderedDict()
             d[pname] = [list(p) if isinstance(p, tuple) else p for p in parameters]
             d['values'] = constraint.get_dict(distribution=True,
-- 
2.43.0


From bd3b6158b37931f38f8f961760e9f84412f4f8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:11 +0000
Subject: [PATCH 31/55] fix: likelihood instances could not be written to YAML

---
 flavio/statistics/likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index cd02f0d..7cb71dc 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -282,8 +282,8 @@ class Likelihood(iio.YAMLLoadable):
     }
 
     _output_schema_dict = {
-        'par_obj': vol.All([dict], iio.coerce_par_obj),
-        'fit_parameters': iio.get_par_diff,
+        'par_obj': iio.get_par_diff,
+        'fit_parameters': vol.Any(iio.ensurelist, [str]),
         'observables':  [iio.coerce_observable_dict],
         'exclude_measurements': vol.Any(iio.ensurelist, [str]),
         'include_measurements': vol.Any(iio.ensurelist, [str]),
-- 
2.43.0


From 6677d0270120b5477ba2e828a2498928ddf90d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:05 +0000
Subject: [PATCH 32/55] fix: Wilson coefficients obtained for other CKM
 parameters were reused from the cache

---
 flavio/physics/eft.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flavio/physics/eft.py b/flavio/physics/eft.py
index 8d7f897..972d635 100644
--- a/flavio/physics/eft.py
+++ b/flavio/physics/eft.py
@@ -173,6 +173,9 @@ class WilsonCoefficients(wilson.Wilson):
         _ckm_options = {k: par_dict[k] for k in ['Vus', 'Vcb', 'Vub', 'gamma']}
         if fwc.get_option('parameters') != _ckm_options:
             fwc.set_option('parameters', _ckm_options)
+            # the options are shared with `w`: its cache must not keep results
+            # obtained for different parameters
+            w._cache = fwc._cache
         return fwc
 
     def run_wcxf(*args, **kwargs):
-- 
2.43.0


From 909c4c6a987d16a725233959944309aa7f8a28a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:24 +0000
Subject: [PATCH 33/55] fix: cached predictions were returned for changed
 parameters or Wilson coefficients

---
 flavio/statistics/likelihood.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 7cb71dc..6e0c12f 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -60,7 +60,7 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         self.exclude_measurements = exclude_measurements
         self.include_measurements = include_measurements
         self.include_pseudo_measurements = include_pseudo_measurements
-        self._predictions_cache_hash = None
+        self._predictions_cache_key = None
         self._predictions_cache_values = None
         if exclude_measurements and include_measurements:
             raise ValueError("The options exclude_measurements and include_measurements must not be specified simultaneously")
@@ -142,9 +142,13 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         The latest computed values are cached and returned if the function is
         called successively with the same arguments.
         """
-        # compute a hash from the function's arguments used for caching
-        arg_hash = hash((frozenset(par_dict.items()),wc_obj))
-        if arg_hash != self._predictions_cache_hash:
+        def key():
+            # the function's arguments, used for caching. Parameters and Wilson
+            # coefficients can be modified in place, and different values can
+            # have the same hash.
+            return (dict(par_dict), getattr(wc_obj, 'wc', wc_obj),
+                    dict(getattr(wc_obj, '_options', {})))
+        if key() != self._predictions_cache_key:
             all_predictions = {}
             for observable in self.observables:
                 obs = flavio.classes.Observable.argument_format(observable, 'dict')
@@ -152,8 +156,8 @@ class MeasurementLikelihood(iio.YAMLLoadable):
                 _inst = flavio.classes.Observable[name]
                 all_predictions[observable] = _inst.prediction_par(par_dict, wc_obj, **obs)
             self._predictions_cache_values = all_predictions
-            self._predictions_cache_hash = arg_hash
-        return self._predictions_cache_values
+            self._predictions_cache_key = key()
+        return self._predictions_cache_values.copy()
 
     def get_number_observations(self, exclude_observables=None):
         """Get the number of observations, defined as individual measurements
-- 
2.43.0


From 31368bdf1837b1981081cb85302dc81fdd0ba327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:24 +0000
Subject: [PATCH 34/55] fix: observables given as dictionaries were modified by
 covariance and likelihood functions

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index dc37711..e4790c8 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -623,7 +623,7 @@ class Observable(NamedInstanceClass):
                 t = obs['name']
             else:
                 t = tuple([obs['name']] + [obs[a] for a in args])
-            d = obs
+            d = dict(obs)
         if format == 'tuple':
             return t
         elif format == 'list':
-- 
2.43.0


From a36e285d7fd589a1c3950012d0715bd9b057e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:14 +0000
Subject: [PATCH 35/55] fix: citations of cached functions were lost on
 repeated evaluation

---
 flavio/physics/bdecays/matrixelements.py | 36 ++++++++++++++++++++----
 flavio/physics/running/running.py        |  9 ++++++
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/flavio/physics/bdecays/matrixelements.py b/flavio/physics/bdecays/matrixelements.py
index 195e6bd..0b56a50 100644
--- a/flavio/physics/bdecays/matrixelements.py
+++ b/flavio/physics/bdecays/matrixelements.py
@@ -69,7 +69,6 @@ _sh_F_19 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_
 _F_27 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_27, bounds_error=False, fill_value=None)
 _sh_F_29 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_29, bounds_error=False, fill_value=None)
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def F_17(muh, z, sh):
     """Function $F_1^{(7)}$ giving the contribution of $O_7$ to the matrix element
     of $O_1$, as defined in arXiv:0810.4077.
@@ -79,9 +78,13 @@ def F_17(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
-    return _F_17([muh, z, sh])[0]
+    return _cached_F_17(muh, z, sh)
 
+# cached version
 @lru_cache(maxsize=config['settings']['cache size'])
+def _cached_F_17(muh, z, sh):
+    return _F_17([muh, z, sh])[0]
+
 def F_19(muh, z, sh):
     """Function $F_1^{(9)}$ giving the contribution of $O_9$ to the matrix element
     of $O_1$, as defined in arXiv:0810.4077.
@@ -91,11 +94,15 @@ def F_19(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
+    return _cached_F_19(muh, z, sh)
+
+# cached version
+@lru_cache(maxsize=config['settings']['cache size'])
+def _cached_F_19(muh, z, sh):
     if sh == 0:
         return 0
     return _sh_F_19([muh, z, sh])[0] / sh
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def F_27(muh, z, sh):
     """Function $F_2^{(7)}$ giving the contribution of $O_7$ to the matrix element
     of $O_2$, as defined in arXiv:0810.4077.
@@ -105,9 +112,13 @@ def F_27(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
-    return _F_27([muh, z, sh])[0]
+    return _cached_F_27(muh, z, sh)
 
+# cached version
 @lru_cache(maxsize=config['settings']['cache size'])
+def _cached_F_27(muh, z, sh):
+    return _F_27([muh, z, sh])[0]
+
 def F_29(muh, z, sh):
     """Function $F_2^{(9)}$ giving the contribution of $O_9$ to the matrix element
     of $O_2$, as defined in arXiv:0810.4077.
@@ -117,6 +128,11 @@ def F_29(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
+    return _cached_F_29(muh, z, sh)
+
+# cached version
+@lru_cache(maxsize=config['settings']['cache size'])
+def _cached_F_29(muh, z, sh):
     if sh == 0:
         return 0
     return _sh_F_29([muh, z, sh])[0] / sh
@@ -155,11 +171,15 @@ def F_87(Lmu, sh):
 def acot(x):
     return pi/2.-atan(x)
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def SeidelA(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (29) of hep-ph/0403185v2.
     """
     flavio.citations.register("Seidel:2004jh")
+    return _cached_SeidelA(q2, mb, mu)
+
+# cached version
+@lru_cache(maxsize=config['settings']['cache size'])
+def _cached_SeidelA(q2, mb, mu):
     if q2==0:
         return 1/729. * (833 + 120j*pi - 312 * log(mb**2/mu**2))
     sh = min(q2/mb**2, 0.999)
@@ -173,11 +193,15 @@ def SeidelA(q2, mb, mu):
     (1 - sh)**4) * (36 * acot( sqrt(z - 1))**2 + pi**2 * (-4 + 9 * sh - 9 *
     sh**2 + 3 * sh**3)))
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def SeidelB(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (30) of hep-ph/0403185v2.
     """
     flavio.citations.register("Seidel:2004jh")
+    return _cached_SeidelB(q2, mb, mu)
+
+# cached version
+@lru_cache(maxsize=config['settings']['cache size'])
+def _cached_SeidelB(q2, mb, mu):
     sh = min(q2/mb**2, 0.999)
     z = 4 / sh
     x1 = 1/2 + 1j/2 * sqrt(z - 1)
diff --git a/flavio/physics/running/running.py b/flavio/physics/running/running.py
index 6c4f890..b324d32 100644
--- a/flavio/physics/running/running.py
+++ b/flavio/physics/running/running.py
@@ -1,5 +1,6 @@
 """Functions to solve the renormalization group equations (RGEs) numerically."""
 
+import flavio
 from flavio.physics.running import betafunctions
 from flavio.physics.running import masses
 from scipy.integrate import odeint
@@ -197,8 +198,15 @@ def _get_mc_pole(mcmc, alpha_s, nl):
     return crd.mMS2mOS(mcmc, None, alpha_s, mcmc, 4, nl)
 
 
+def _register_KS():
+    # the conversion to the kinetic scheme is cached
+    flavio.citations.register("Gambino:2011cq")
+    flavio.citations.register("Benson:2003kp")
+
+
 def get_mc_KS(par, scale):
     r"""Get the $c$ quark mass in the kinetic scheme."""
+    _register_KS()
     mcmc = par['m_c']
     alpha_s = get_alpha(par, mcmc)['alpha_s']
     return _get_mc_KS(mcmc=mcmc, alpha_s=alpha_s, scale=scale, nl=3)
@@ -227,6 +235,7 @@ def _get_mb_pole(mbmb, alpha_s, nl):
 
 def get_mb_KS(par, scale):
     r"""Get the $b$ quark mass in the kinetic scheme."""
+    _register_KS()
     mbmb = par['m_b']
     alpha_s = get_alpha(par, mbmb)['alpha_s']
     return _get_mb_KS(mbmb=mbmb, alpha_s=alpha_s, scale=scale, nl=3)
-- 
2.43.0


From 1922845e5212ebf258d141a6753c208fc7ef255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 36/55] fix: form factor functions modified the parameter
 dictionary of the caller

---
 flavio/physics/bdecays/formfactors/b_v/bsz.py        | 1 +
 flavio/physics/bdecays/formfactors/lambdab_12/sse.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/flavio/physics/bdecays/formfactors/b_v/bsz.py b/flavio/physics/bdecays/formfactors/b_v/bsz.py
index db3b30d..fb9d678 100644
--- a/flavio/physics/bdecays/formfactors/b_v/bsz.py
+++ b/flavio/physics/bdecays/formfactors/b_v/bsz.py
@@ -50,6 +50,7 @@ def ff(process, q2, par, n=2, omit_A='A0'):
     # cf. eq. (16) of arXiv:1503.05534
     flavio.citations.register("Straub:2015ica")
     par_prefix = process + ' BSZ'
+    par = par.copy()  # do not modify the parameters of the caller
     par[par_prefix + ' a0_A12'] = par[par_prefix + ' a0_A0'] / (8*mB*mV / (mB**2-mV**2))
     par[par_prefix + ' a0_T2'] = par[par_prefix + ' a0_T1']
     for i in ["A0","A1","A12","V","T1","T2","T23"]:
diff --git a/flavio/physics/bdecays/formfactors/lambdab_12/sse.py b/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
index 7bc08c6..47f32aa 100644
--- a/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
+++ b/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
@@ -50,6 +50,7 @@ def ff(process, q2, par, n=2):
     mP = par['m_'+pd['P']]
     ff = {}
     # implementing the two endpoint relations in (7) and (8) of arXiv:1602.01399
+    par = par.copy()  # do not modify the parameters of the caller
     par[process+' SSE a0_fAperp'] = par[process+' SSE a0_fA0']
     par[process+' SSE a0_fT5perp'] = par[process+' SSE a0_fT50']
     for i in ['fA0', 'fAperp', 'fAt', 'fT0', 'fT50', 'fT5perp', 'fTperp', 'fV0', 'fVperp', 'fVt']:
-- 
2.43.0


From c2cfb6be61deda94fac89d340920f564c9515177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 37/55] fix: parton luminosities ignored a change of the
 configured PDF set

---
 flavio/physics/dileptons/partondist.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/dileptons/partondist.py b/flavio/physics/dileptons/partondist.py
index 555a870..f450299 100644
--- a/flavio/physics/dileptons/partondist.py
+++ b/flavio/physics/dileptons/partondist.py
@@ -23,8 +23,12 @@ def get_pdf(name, member=0, download=False):
             raise Exception(f"PDF set '{name}' not available. Please install the PDF set using the command \"python3 -m parton install '{name}'\"")
     return pdf
 
-@lru_cache(maxsize=None)
 def get_parton_lumi(Q2, member=0):
     pdfset = config['PDF set']['dileptons']['name']
+    return _get_parton_lumi(pdfset, Q2, member)
+
+# cached version
+@lru_cache(maxsize=None)
+def _get_parton_lumi(pdfset, Q2, member):
     pdf = get_pdf(pdfset, member)
     return parton.PLumi(pdf, Q2=Q2)
-- 
2.43.0


From 2d7f88209a6672b42c08c977b9f0f93e6ad1cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 38/55] fix: running of Wilson coefficients used the removed
 alias np.complex

---
 flavio/physics/running/running.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/running/running.py b/flavio/physics/running/running.py
index b324d32..0ef4b9d 100644
--- a/flavio/physics/running/running.py
+++ b/flavio/physics/running/running.py
@@ -299,7 +299,7 @@ def make_wilson_rge_derivative(adm):
         alpha_s = x[-2]
         alpha_e = x[-1]
         c_real = x[:-2]
-        c = c_real.view(np.complex)
+        c = c_real.view(complex)
         d_alpha = betafunctions.beta_qcd_qed([alpha_s, alpha_e], mu, nf)
         d_c = np.dot(adm(nf, alpha_s, alpha_e).T, c)/mu
         d_c_real = d_c.view(float)
@@ -320,7 +320,7 @@ def get_wilson(par, c_in, derivative_nf, scale_in, scale_out, nf_out=None):
     x_in = np.append(c_in_real, [alpha_in['alpha_s'], alpha_in['alpha_e']])
     sol = rg_evolve_sm(x_in, derivative_nf, scale_in, scale_out, nf_out=nf_out)
     c_out = sol[:-2]
-    return c_out.view(np.complex)
+    return c_out.view(complex)
 
 def get_f_perp(par, meson, scale, nf_out=None):
     r"""Get the transverse meson decay constant at a given scale.
-- 
2.43.0


From 356d54d02b00ee5f98f5b58fe0dff185a5fb421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 39/55] fix: copies of tracked parameter dictionaries lost
 modifications

---
 flavio/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/functions.py b/flavio/functions.py
index f99d85f..500d3db 100644
--- a/flavio/functions.py
+++ b/flavio/functions.py
@@ -118,7 +118,7 @@ class AwareDict(dict):
         return dict.__getitem__(self, key)
 
     def __copy__(self):
-        cp = type(self)(self.d)
+        cp = type(self)(self)
         cp.akeys = self.akeys
         return cp
 
-- 
2.43.0


From e9f0fbafba5169a8f6f84b284f9661730321d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:17 +0000
Subject: [PATCH 40/55] fix: list format of an observable without arguments
 given as dictionary

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index e4790c8..2e9b6dc 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -627,7 +627,7 @@ class Observable(NamedInstanceClass):
         if format == 'tuple':
             return t
         elif format == 'list':
-            return list(t)
+            return t if isinstance(t, str) else list(t)
         elif format == 'dict':
             return d
 
-- 
2.43.0


From cfec44463be539752c87f72bbe29a083a3d35642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:12 +0000
Subject: [PATCH 41/55] fix: B->K form factor parameters were missing from
 error budgets

---
 flavio/data/parameters_metadata.yml | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/flavio/data/parameters_metadata.yml b/flavio/data/parameters_metadata.yml
index a12bb46..af2b0b3 100644
--- a/flavio/data/parameters_metadata.yml
+++ b/flavio/data/parameters_metadata.yml
@@ -1291,6 +1291,30 @@ B->K BCL a1_fT:
 B->K BCL a2_fT:
   tex: $a_2^{(T)}$
   description: BCL $B\to K$ form factor parametrization coefficient $a_2$ of $f_T$
+B->K BSZ a0_f+:
+  tex: $a_0^{f_+}$
+  description: BSZ form factor parametrization coefficient $a_0$ of $f_+$
+B->K BSZ a1_f+:
+  tex: $a_1^{f_+}$
+  description: BSZ form factor parametrization coefficient $a_1$ of $f_+$
+B->K BSZ a2_f+:
+  tex: $a_2^{f_+}$
+  description: BSZ form factor parametrization coefficient $a_2$ of $f_+$
+B->K BSZ a1_f0:
+  tex: $a_1^{f_0}$
+  description: BSZ form factor parametrization coefficient $a_1$ of $f_0$
+B->K BSZ a2_f0:
+  tex: $a_2^{f_0}$
+  description: BSZ form factor parametrization coefficient $a_2$ of $f_0$
+B->K BSZ a0_fT:
+  tex: $a_0^{f_T}$
+  description: BSZ form factor parametrization coefficient $a_0$ of $f_T$
+B->K BSZ a1_fT:
+  tex: $a_1^{f_T}$
+  description: BSZ form factor parametrization coefficient $a_1$ of $f_T$
+B->K BSZ a2_fT:
+  tex: $a_2^{f_T}$
+  description: BSZ form factor parametrization coefficient $a_2$ of $f_T$
 
 # Parameters for Bs->K form factors in the BCL parametrization
 Bs->K BCL m0:
-- 
2.43.0


From 0e6080d663a1cb5edf474521447da0d8d2050c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:26 +0000
Subject: [PATCH 42/55] fix: sign of the last BCL coefficient of f0 violated
 f+(0)=f0(0)

---
 flavio/physics/bdecays/formfactors/b_p/bcl.py | 2 +-
 flavio/physics/ddecays/formfactors/bcl.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/bdecays/formfactors/b_p/bcl.py b/flavio/physics/bdecays/formfactors/b_p/bcl.py
index d335f9d..f80aa25 100644
--- a/flavio/physics/bdecays/formfactors/b_p/bcl.py
+++ b/flavio/physics/bdecays/formfactors/b_p/bcl.py
@@ -57,7 +57,7 @@ def ff(process, q2, par, n=3, t0=None):
         a['f0'] = [ par[process + ' BCL' + ' a' + str(j) + '_f0'] for j in range(n-1) ]
         fplus_q20 = pole('f+', mpl, 0) * param_fplusT(mB, mP, a['f+'], 0, t0)
         f0_q20 = pole('f0', m0, 0) * param_f0(mB, mP, a['f0'], 0, t0)
-        an_f0 = (f0_q20-fplus_q20)/z(mB, mP, 0, t0)**(n-1)
+        an_f0 = (fplus_q20-f0_q20)/z(mB, mP, 0, t0)**(n-1)
         a['f0'].append(an_f0)
     # evaluate FFs
     ff['f+'] = chL * pole('f+', mpl, q2) * param_fplusT(mB, mP, a['f+'], q2, t0)
diff --git a/flavio/physics/ddecays/formfactors/bcl.py b/flavio/physics/ddecays/formfactors/bcl.py
index 1bd93cd..7f01a00 100644
--- a/flavio/physics/ddecays/formfactors/bcl.py
+++ b/flavio/physics/ddecays/formfactors/bcl.py
@@ -37,7 +37,7 @@ def ff(process, q2, par, n=3, t0=None):
     a['f0'] = [par[process + ' BCL' + ' a' + str(j) + '_f0'] for j in range(n-1)]
     fplus_q20 = pole('f+', mpl, 0) * param_fplusT(mB, mP, a['f+'], 0, t0)
     f0_q20 = pole('f0', m0, 0) * param_f0(mB, mP, a['f0'], 0, t0)
-    an_f0 = (f0_q20-fplus_q20)/z(mB, mP, 0, t0)**(n-1)
+    an_f0 = (fplus_q20-f0_q20)/z(mB, mP, 0, t0)**(n-1)
     a['f0'].append(an_f0)
     # evaluate FFs
     ff['f+'] = pole('f+', mpl, q2) * param_fplusT(mB, mP, a['f+'], q2, t0)
-- 
2.43.0


From 623305d33edb39e40f05426e2fcbefeaf0c162d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:06 +0000
Subject: [PATCH 43/55] fix: B->D* tensor form factor T23 diverged at small q2
 in the CLN-like parametrization

---
 flavio/physics/bdecays/formfactors/b_v/isgurwise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/bdecays/formfactors/b_v/isgurwise.py b/flavio/physics/bdecays/formfactors/b_v/isgurwise.py
index 6bd665d..d3c0746 100644
--- a/flavio/physics/bdecays/formfactors/b_v/isgurwise.py
+++ b/flavio/physics/bdecays/formfactors/b_v/isgurwise.py
@@ -7,7 +7,7 @@ from math import pi,log
 
 
 def isgur_wise(process, q2, ff, par, scale):
-    pd = flavio.physics.bdecays.formfactors.b_v.cln.process_dict[process]
+    pd = flavio.physics.bdecays.formfactors.b_v.clnexp.process_dict[process]
     mB = par['m_'+pd['B']]
     mV = par['m_'+pd['V']]
     mb = flavio.physics.running.running.get_mb_pole(par)
@@ -23,7 +23,7 @@ def isgur_wise(process, q2, ff, par, scale):
     ff['T1'] = (mb + mq)/(mB + mV)*ff['V']  * ( 1 + a_T1 )
     ff['T2'] = (mb - mq)/(mB - mV)*ff['A1'] * ( 1 + a_T2 )
     if q2 == 0:
-        ff['T23'] = (4*ff['A12']*(mb - mq)*(mB**2 + mV**2))/((mB - mV)**2*(mB + mV))
+        ff['T23'] = (4*ff['A12']*(mb - mq)*(mB**2 + mV**2))/((mB - mV)**2*(mB + mV)) * ( 1 + a_T23 )
     else:
         ff['T23'] = ((mb - mq)* (
                 ((mB - mV)**2 - q2)* ((mB + mV)**2 - q2)*ff['A0']
-- 
2.43.0


From d1b1fe5a4aecfab450ca5a87e6215f3ec27faa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:51 +0000
Subject: [PATCH 44/55] fix: 3-parameter Lambda_b -> Lambda form factors
 ignored the third parameter

---
 flavio/physics/bdecays/formfactors/lambdab_12/lambdab.py    | 2 +-
 .../bdecays/formfactors/lambdab_12/lattice_parameters.py    | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/formfactors/lambdab_12/lambdab.py b/flavio/physics/bdecays/formfactors/lambdab_12/lambdab.py
index 891e0c7..a9b49dd 100644
--- a/flavio/physics/bdecays/formfactors/lambdab_12/lambdab.py
+++ b/flavio/physics/bdecays/formfactors/lambdab_12/lambdab.py
@@ -19,5 +19,5 @@ for p in processes:
 
     iname = p + ' SSE3'
     i = Implementation(name=iname, quantity=quantity,
-                   function=ff_function(sse.ff, p, n=2))
+                   function=ff_function(sse.ff, p, n=3))
     i.set_description("3-parameter simplified series expansion")
diff --git a/flavio/physics/bdecays/formfactors/lambdab_12/lattice_parameters.py b/flavio/physics/bdecays/formfactors/lambdab_12/lattice_parameters.py
index 824793e..c099bc5 100644
--- a/flavio/physics/bdecays/formfactors/lambdab_12/lattice_parameters.py
+++ b/flavio/physics/bdecays/formfactors/lambdab_12/lattice_parameters.py
@@ -72,6 +72,12 @@ def lattice_load_nominal(constraints):
     load_parameters('data/arXiv-1602-01399v1/LambdabLambda_results.dat',
                     'data/arXiv-1602-01399v1/LambdabLambda_covariance.dat',
                     'Lambdab->Lambda', constraints)
+    # the nominal fit has no second-order terms; do not keep those of the
+    # higher-order fit
+    for parameter_name in set(constraints.all_parameters):
+        if parameter_name.startswith('Lambdab->Lambda SSE a2_'):
+            constraints.set_constraint(parameter_name, 0)
+
 
 def lattice_load_ho(constraints):
     load_parameters('data/arXiv-1602-01399v1/LambdabLambda_HO_results.dat',
-- 
2.43.0


From cbbdb8cc52eba86edd4073fbdfb0d6d3127eec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:21 +0000
Subject: [PATCH 45/55] fix: subleading b->sll contributions ignored CP
 conjugation of the CKM prefactor

---
 flavio/physics/bdecays/bpll_subleading.py            | 4 ++--
 flavio/physics/bdecays/bvll/subleading.py            | 4 ++++
 flavio/physics/bdecays/lambdablambdall_subleading.py | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/bdecays/bpll_subleading.py b/flavio/physics/bdecays/bpll_subleading.py
index 4d9a7c4..ce62c9b 100644
--- a/flavio/physics/bdecays/bpll_subleading.py
+++ b/flavio/physics/bdecays/bpll_subleading.py
@@ -71,7 +71,7 @@ def fct_deltaC9_polynomial(B, P):
         par = par_dict.copy()
         if cp_conjugate:
             par = conjugate_par(par)
-        return helicity_amps_deltaC9_polynomial(q2, par_dict, B, P)
+        return helicity_amps_deltaC9_polynomial(q2, par, B, P)
     return fct
 
 def fct_deltaC9_constant(B, P):
@@ -79,7 +79,7 @@ def fct_deltaC9_constant(B, P):
         par = par_dict.copy()
         if cp_conjugate:
             par = conjugate_par(par)
-        return helicity_amps_deltaC9_constant(q2, par_dict, B, P)
+        return helicity_amps_deltaC9_constant(q2, par, B, P)
     return fct
 
 # AuxiliaryQuantity & Implementatation: subleading effects at LOW q^2
diff --git a/flavio/physics/bdecays/bvll/subleading.py b/flavio/physics/bdecays/bvll/subleading.py
index 632ae6d..799007d 100644
--- a/flavio/physics/bdecays/bvll/subleading.py
+++ b/flavio/physics/bdecays/bvll/subleading.py
@@ -85,6 +85,8 @@ class HelicityAmpsDeltaC_9_shift(HelicityAmpsDeltaC):
 def fct_deltaC7C7p_polynomial(B, V):
     def fct(wc_obj, par_dict, q2, cp_conjugate):
         par = par_dict.copy()
+        if cp_conjugate:
+            par = conjugate_par(par)
         return HelicityAmpsDeltaC_77p_polynomial(B, V, par, q2)()
     return fct
 
@@ -92,6 +94,8 @@ def fct_deltaC7C7p_polynomial(B, V):
 def fct_deltaC9_constant(B, V):
     def fct(wc_obj, par_dict, q2, cp_conjugate):
         par = par_dict.copy()
+        if cp_conjugate:
+            par = conjugate_par(par)
         return HelicityAmpsDeltaC_9_shift(B, V, par, q2)()
     return fct
 
diff --git a/flavio/physics/bdecays/lambdablambdall_subleading.py b/flavio/physics/bdecays/lambdablambdall_subleading.py
index 6953d8a..1745901 100644
--- a/flavio/physics/bdecays/lambdablambdall_subleading.py
+++ b/flavio/physics/bdecays/lambdablambdall_subleading.py
@@ -84,7 +84,7 @@ def fct_deltaC9_constant(wc_obj, par_dict, q2, cp_conjugate):
     par = par_dict.copy()
     if cp_conjugate:
         par = conjugate_par(par)
-    return transversity_amps_deltaC9_constant(q2, par_dict)
+    return transversity_amps_deltaC9_constant(q2, par)
 
 
 # AuxiliaryQuantity & Implementatation: subleading effects at LOW q^2
-- 
2.43.0


From c05ab2ef56fa5c49cd5d97df36832ff98edd242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:21 +0000
Subject: [PATCH 46/55] fix: Lambda_b -> Lambda ll CP-conjugate amplitudes used
 unconjugated Wilson coefficients

---
 flavio/physics/bdecays/lambdablambda1520ll.py | 2 ++
 flavio/physics/bdecays/lambdablambdall.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/flavio/physics/bdecays/lambdablambda1520ll.py b/flavio/physics/bdecays/lambdablambda1520ll.py
index eada6bf..b93d37b 100644
--- a/flavio/physics/bdecays/lambdablambda1520ll.py
+++ b/flavio/physics/bdecays/lambdablambda1520ll.py
@@ -183,6 +183,8 @@ def get_transversity_amps_ff(q2, wc_obj, par_dict, lep, cp_conjugate):
     mb = flavio.physics.running.running.get_mb(par, scale)
     ff = get_ff(q2, par)
     wc = flavio.physics.bdecays.wilsoncoefficients.wctot_dict(wc_obj, 'bs' + lep + lep, scale, par)
+    if cp_conjugate:
+        wc = conjugate_wc(wc)
     wc_eff = flavio.physics.bdecays.wilsoncoefficients.get_wceff(q2, wc, par, 'Lambdab', 'Lambda(1520)', lep, scale)
 
     ha = helicity_amps(q2, mLb, mL, ff)
diff --git a/flavio/physics/bdecays/lambdablambdall.py b/flavio/physics/bdecays/lambdablambdall.py
index 519dec3..56f6763 100644
--- a/flavio/physics/bdecays/lambdablambdall.py
+++ b/flavio/physics/bdecays/lambdablambdall.py
@@ -124,6 +124,8 @@ def get_transverity_amps_ff(q2, wc_obj, par_dict, lep, cp_conjugate):
     mb = flavio.physics.running.running.get_mb(par, scale)
     ff = get_ff(q2, par)
     wc = flavio.physics.bdecays.wilsoncoefficients.wctot_dict(wc_obj, 'bs' + lep + lep, scale, par)
+    if cp_conjugate:
+        wc = conjugate_wc(wc)
     wc_eff = flavio.physics.bdecays.wilsoncoefficients.get_wceff(q2, wc, par, 'Lambdab', 'Lambda', lep, scale)
     ha = helicity_amps(q2, mLb, mL, ff)
     N = prefactor(q2, par, scale)
-- 
2.43.0


From 9059a365727a074aa353da8a6a77c02b1021d75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 47/55] fix: lepton flavour violating K_L -> pi0 nu nubar
 depended on an unphysical phase

---
 flavio/physics/kdecays/kpinunu.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/kdecays/kpinunu.py b/flavio/physics/kdecays/kpinunu.py
index eae4631..fcb03b4 100644
--- a/flavio/physics/kdecays/kpinunu.py
+++ b/flavio/physics/kdecays/kpinunu.py
@@ -59,9 +59,11 @@ def br_kplus_pinunu(wc_obj, par, nu1, nu2):
 
 def br_klong_pinunu(wc_obj, par, nu1, nu2):
     r"""Branching ratio of $K_L\pi^0\nu\bar\nu$ for fixed neutrino flavours"""
-    amp = kpinunu_amplitude(wc_obj, par, nu1, nu2)
+    # K0 and K0bar decay to the same final state with lepton flavours exchanged
+    amp = ( kpinunu_amplitude(wc_obj, par, nu1, nu2)
+            - kpinunu_amplitude(wc_obj, par, nu2, nu1).conjugate() ) / 2
     Vus = abs(flavio.physics.ckm.get_ckm(par)[0,1])
-    return amp.imag**2 * kappa_nu_tilde(par, 'long') / Vus**2 / 3.
+    return abs(amp)**2 * kappa_nu_tilde(par, 'long') / Vus**2 / 3.
 
 def br_kplus_pinunu_summed(wc_obj, par):
     r"""Branching ratio of $K^+\pi^+\nu\bar\nu$ summed over neutrino flavours"""
-- 
2.43.0


From 73ed8ac62b0d1d7425eb34b364270ceccae5e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:16 +0000
Subject: [PATCH 48/55] fix: Lambda_b -> Lambda ll coefficients K_4s, K_4sc
 took the imaginary part of the interference terms

---
 flavio/physics/bdecays/lambdablambdall.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/bdecays/lambdablambdall.py b/flavio/physics/bdecays/lambdablambdall.py
index 56f6763..d5192a9 100644
--- a/flavio/physics/bdecays/lambdablambdall.py
+++ b/flavio/physics/bdecays/lambdablambdall.py
@@ -94,11 +94,11 @@ def angular_coefficients(ta, alpha):
     K['4sc'] = alpha/sqrt(2) * ( ta['perp1', 'R'] * ta['para0', 'R'].conj()
                                - ta['para1', 'R'] * ta['perp0', 'R'].conj()
                                + ta['perp1', 'L'] * ta['para0', 'L'].conj()
-                               - ta['para1', 'L'] * ta['perp0', 'L'].conj() ).imag
+                               - ta['para1', 'L'] * ta['perp0', 'L'].conj() ).real
     K['4s'] = alpha/sqrt(2) * ( ta['perp1', 'R'] * ta['perp0', 'R'].conj()
                               - ta['para1', 'R'] * ta['para0', 'R'].conj()
                               - ta['perp1', 'L'] * ta['perp0', 'L'].conj()
-                              + ta['para1', 'L'] * ta['para0', 'L'].conj() ).imag
+                              + ta['para1', 'L'] * ta['para0', 'L'].conj() ).real
     return K
 
 def get_ff(q2, par):
-- 
2.43.0


From 94a8f08d4b2c2f1af4708ec3995b1a34e440eede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:16 +0000
Subject: [PATCH 49/55] fix: vector part of the B -> ll gamma rate interfered
 with the axial tensor form factor

---
 flavio/physics/bdecays/bllgamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bllgamma.py b/flavio/physics/bdecays/bllgamma.py
index 80a2a8d..57ca073 100644
--- a/flavio/physics/bdecays/bllgamma.py
+++ b/flavio/physics/bdecays/bllgamma.py
@@ -74,7 +74,7 @@ def getF1(s, par, B, ff, ff0, lep, wc):
     bq = meson_quark[B]
     label = bq+lep+lep
     fftv, ffta = getfft(s, par, B, ff, ff0, lep, wc)
-    return (abs(wc['C9_'+label])**2 + abs(wc['C10_'+label])**2)*ff['v']**2 + 4*mbh**2/s**2*abs(wc['C7_'+bq]*fftv)**2 + 4*mbh/s*ff['v']*_Re(wc['C7_'+bq]*ffta*_Co(wc['C9_'+label]))
+    return (abs(wc['C9_'+label])**2 + abs(wc['C10_'+label])**2)*ff['v']**2 + 4*mbh**2/s**2*abs(wc['C7_'+bq]*fftv)**2 + 4*mbh/s*ff['v']*_Re(wc['C7_'+bq]*fftv*_Co(wc['C9_'+label]))
 
 def getF2(s, par, B, ff, ff0, lep, wc):
     flavio.citations.register("Melikhov:2004mk")
-- 
2.43.0


From 79fd459975ba9a5a85450d6cd7790f24a53d8809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:53 +0000
Subject: [PATCH 50/55] fix: bremsstrahlung part of the B -> ll gamma rate
 violated the soft-photon limit

---
 flavio/physics/bdecays/bllgamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bllgamma.py b/flavio/physics/bdecays/bllgamma.py
index 57ca073..accc1b7 100644
--- a/flavio/physics/bdecays/bllgamma.py
+++ b/flavio/physics/bdecays/bllgamma.py
@@ -130,7 +130,7 @@ def dG2dsMN(s, par, B, ff, ff0, lep, wc):
     bq = meson_quark[B]
     label = bq+lep+lep
     pref = 16*prefactor(s, par, B, ff, lep, wc)*(par['f_'+B]/par['m_'+B]*abs(wc['C10_'+label])*mlh)**2/(1-s)
-    return pref*(-8*sqrt(s-4*mlh**2)*sqrt(s)+4*atanh(sqrt(1-4*mlh**2/s))*(1+s-mlh**2*(1-s)**2))
+    return pref*(-8*sqrt(s-4*mlh**2)*sqrt(s)+8*atanh(sqrt(1-4*mlh**2/s))*(1+s**2-4*mlh**2))
 
 def dG12dsMN(s, par, B, ff, ff0, lep, wc):
     flavio.citations.register("Melikhov:2004mk")
-- 
2.43.0


From c7e981a9acab1706206fad4c2b5dcc866d013ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:18 +0000
Subject: [PATCH 51/55] fix: interference terms in B -> Xc l nu used
 unconjugated Wilson coefficients

---
 flavio/physics/bdecays/bxlnu.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/flavio/physics/bdecays/bxlnu.py b/flavio/physics/bdecays/bxlnu.py
index 963b10c..859bd15 100644
--- a/flavio/physics/bdecays/bxlnu.py
+++ b/flavio/physics/bdecays/bxlnu.py
@@ -37,17 +37,17 @@ def _BR_BXclnu(par, wc_obj, lep, nu):
     # of the scalar operators
     Gamma_LO = GF**2 * mb**5 / 192. / pi**3 * abs(Vcb)**2
     r_WC = (   g(xc, xl)      * (abs(wc['VL'])**2 + abs(wc['VR'])**2)
-             - gLR(xc, xl)    * (wc['VL']*wc['VR']).real
+             - gLR(xc, xl)    * (wc['VL']*wc['VR'].conjugate()).real
              + g(xc, xl)/4.   * (abs(wc['SR'])**2 + abs(wc['SL'])**2)
-             + gLR(xc, xl)/2. * (wc['SR']*wc['SL']).real
+             + gLR(xc, xl)/2. * (wc['SR']*wc['SL'].conjugate()).real
              + 12*g(xc, xl)   * abs(wc['T'])**2
              # the following terms vanish for vanishing lepton mass
-             + gVS(xc, xl)    * ((wc['VL']*wc['SR']).real
-                                       + (wc['VR']*wc['SL']).real)
-             + gVSp(xc, xl)   * ((wc['VL']*wc['SL']).real
-                                       + (wc['VR']*wc['SR']).real)
-             - 12*gVSp(xc, xl)* (wc['VL']*wc['T']).real
-             + 12*gVS(xc, xl) * (wc['VR']*wc['T']).real
+             + gVS(xc, xl)    * ((wc['VL']*wc['SR'].conjugate()).real
+                                       + (wc['VR']*wc['SL'].conjugate()).real)
+             + gVSp(xc, xl)   * ((wc['VL']*wc['SL'].conjugate()).real
+                                       + (wc['VR']*wc['SR'].conjugate()).real)
+             - 12*gVSp(xc, xl)* (wc['VL']*wc['T'].conjugate()).real
+             + 12*gVS(xc, xl) * (wc['VR']*wc['T'].conjugate()).real
            )
     # eq. (26) of arXiv:1107.3100 + corrections (P. Gambino, private communication)
     flavio.citations.register("Gambino:2011cq")
-- 
2.43.0


From 7310fe5ab0e3dde2a07fadb27155222343216380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:43 +0000
Subject: [PATCH 52/55] fix: one-loop HQET matching coefficient of the
 pseudoscalar current (two terms were multiplied instead of added)

---
 flavio/physics/bdecays/formfactors/hqet.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/flavio/physics/bdecays/formfactors/hqet.py b/flavio/physics/bdecays/formfactors/hqet.py
index e900555..e52faae 100644
--- a/flavio/physics/bdecays/formfactors/hqet.py
+++ b/flavio/physics/bdecays/formfactors/hqet.py
@@ -95,15 +95,10 @@ def omega(w, z):
 
 def CP(w, z):
     wz = 1 / 2 * (z + 1 / z)
-    return ((-2 * (-w + wz) * (-1 + z) * z *
-             (-1 + z + z * (1 + z) * log(z)) *
-             ((-1 + z**2) * log(z) +
-              (z * (3 + z**2) +
-               w *
-                 (-1 + z - (3 + 2 * w) * z**2 +
-                  z**3)) * r(w)) +
-             4 * (w - wz)**2 * z**2 * omega(w, z)) /
-            (2. * (w - wz)**2 * z**2))
+    return (((-1 + z**2) * log(z) -
+             (1 + w) * (-1 + z)**2 * r(w) +
+             2 * (w - wz) * z * omega(w, z)) /
+            (3. * (w - wz) * z))
 
 
 def CV1(w, z):
-- 
2.43.0


From 37c2626066e134b49e602d5803f9e60da88e51a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:49 +0000
Subject: [PATCH 53/55] fix: imaginary part of the logarithmic QED corrections
 to B -> X l l (interference of O2 and O9) was a copy of the real part

---
 flavio/physics/bdecays/bxll_qed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/bdecays/bxll_qed.py b/flavio/physics/bdecays/bxll_qed.py
index f2acb85..d188b97 100644
--- a/flavio/physics/bdecays/bxll_qed.py
+++ b/flavio/physics/bdecays/bxll_qed.py
@@ -269,7 +269,7 @@ def wem_27_re_low(sh, mb, ml, scale, mc):
 
 
 def wem_29_high(sh, mb, ml, scale, mc):
-    return wem_29_re_high(sh, mb, ml, scale, mc) + 1j*wem_29_re_high(sh, mb, ml, scale, mc)
+    return wem_29_re_high(sh, mb, ml, scale, mc) + 1j*wem_29_im_high(sh, mb, ml, scale, mc)
 
 
 def wem_29_re_high(sh, mb, ml, scale, mc):
@@ -296,7 +296,7 @@ def wem_29_im_low(sh, mb, ml, scale, mc):
 
 
 def wem_29_low(sh, mb, ml, scale, mc):
-    return wem_29_re_low(sh, mb, ml, scale, mc) + 1j*wem_29_re_low(sh, mb, ml, scale, mc)
+    return wem_29_re_low(sh, mb, ml, scale, mc) + 1j*wem_29_im_low(sh, mb, ml, scale, mc)
 
 def wem_29_re_low(sh, mb, ml, scale, mc):
     return (((154715658 / 8534309 + 12910827 / (114675722 * sh) -
-- 
2.43.0


From 63660495cb92945c4651523d638e1c7e11549048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:45 +0000
Subject: [PATCH 54/55] fix: non-universal bremsstrahlung correction to the
 interference of O7 and O10 in the B -> X l l forward-backward asymmetry had a
 spurious pole at q2 = mb^2/3

---
 flavio/physics/bdecays/bxll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bxll.py b/flavio/physics/bdecays/bxll.py
index 7de7a42..ef2c2d5 100644
--- a/flavio/physics/bdecays/bxll.py
+++ b/flavio/physics/bdecays/bxll.py
@@ -234,7 +234,7 @@ def tau99(s):
 def tau79(s):
     return - (4 * (1-s)**2)/(9 * s) * log(1-s)-(4 * s * (3-2 * s))/(9 * (1-s)**2) * log(s) -(2 * (5-3 * s))/(9 * (1-s))
 def tau710(s):
-	return -5/2 + 1/(3 * (1-3*s)) - 1/3 * (s * (6-7 * s) * log(s))/((1-s)**2)- 1/9 * ((3-7 * s + 4 * s**2) * log(1-s))/(s) + (f7(s))/3
+	return -5/2 + 1/(3 * (1-s)) - 1/3 * (s * (6-7 * s) * log(s))/((1-s)**2)- 1/9 * ((3-7 * s + 4 * s**2) * log(1-s))/(s) + (f7(s))/3
 def tau910(s) :
 	return -5/2 + 1/(3 * (1-s)) - 1/3 * (s * (6-7*s) * log(s))/(((1-s)**2)) - 2/9 * ((3-5 * s + 2 * s**2) * log(1-s))/(s) + (f9(s))/3
 def f7(s):
-- 
2.43.0


From eb84f4d3fcc89a82c73ba9fba20af79ba4dab380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:30 +0000
Subject: [PATCH 55/55] fix: absorptive part of the perpendicular spectator
 scattering loop function at zero momentum transfer was on the wrong side of
 the branch cut

---
 flavio/physics/bdecays/bvll/qcdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bvll/qcdf.py b/flavio/physics/bdecays/bvll/qcdf.py
index eb7539f..1098175 100644
--- a/flavio/physics/bdecays/bvll/qcdf.py
+++ b/flavio/physics/bdecays/bvll/qcdf.py
@@ -160,7 +160,9 @@ def t_perp(q2, u, mq, par, B, V):
     EV = En_V(mB, mV, q2)
     ubar = 1 - u
     if q2 == 0.: # limiting case for q2->0: eq. (33) of hep-ph/0106067v2
-        x0 = sqrt(1/4. - mq**2/(ubar * mB**2))
+        # interpret m^2 as m^2-i\epsilon, see i1_bfs
+        iepsilon = 1e-8j
+        x0 = sqrt(1/4. - (mq**2-iepsilon)/(ubar * mB**2))
         xp = 1/2. + x0
         xm = 1/2. - x0
         return 4/ubar * (1 + 2*mq**2/(ubar*mB**2) * (L1(xp) + L1(xm)) )
-- 
2.43.0

