From 224b23a4fc86d1119790b872e050e60edccb64a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 001/113] fix: IdentityLink.dinv_link is a static method and
 must not take self

---
 pystatsm/pyglm2/links.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 353571c..d6b4ee6 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -68,7 +68,7 @@ class IdentityLink(Link):
         return mu
     
     @staticmethod
-    def dinv_link(self, eta):
+    def dinv_link(eta):
         dmu = 0.0*eta+1.0
         return dmu
        
-- 
2.43.0


From e6abb8ddbcaaba2a1b5e43b576a3679179b53999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 002/113] fix: ProbitLink.d4link called the nonexistent
 scipy.special.erfinc

---
 pystatsm/pyglm/links.py  | 2 +-
 pystatsm/pyglm2/links.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index 899b071..ad09404 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -148,7 +148,7 @@ class ProbitLink(Link):
         return g
     
     def d4link(self, mu):
-        u = sp.special.erfinc(2.0 * mu - 1.0)
+        u = sp.special.erfinv(2.0 * mu - 1.0)
         c = 4.0 * np.sqrt(2.0) * np.pi**2
         g = c * np.exp(4.0 * u**2) * u * (12 * u**2 + 7)
         return g
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index d6b4ee6..5eb0ea2 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -201,7 +201,7 @@ class ProbitLink(Link):
     
     @staticmethod
     def d4link(mu):
-        u = sp.special.erfinc(2.0 * mu - 1.0)
+        u = sp.special.erfinv(2.0 * mu - 1.0)
         c = 4.0 * np.sqrt(2.0) * np.pi**2
         g = c * np.exp(4.0 * u**2) * u * (12 * u**2 + 7)
         return g
-- 
2.43.0


From 3016f5cb8d84de25e6fa2f7712a4a8e3689403eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 003/113] fix: sign of PowerLink.d2inv_link

---
 pystatsm/pyglm/links.py  | 2 +-
 pystatsm/pyglm2/links.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index ad09404..f44a3fa 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -293,7 +293,7 @@ class PowerLink(Link):
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (alpha - 1.0) * eta**(1/alpha - 2.0) / alpha**2
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 5eb0ea2..771a300 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -372,7 +372,7 @@ class PowerLink(Link):
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (alpha - 1.0) * eta**(1/alpha - 2.0) / alpha**2
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
-- 
2.43.0


From 549c1eb37af37f89e5a91f6c87b6196c1037ed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 004/113] fix: sign of NegativeBinomialLink.d2link and d4link

---
 pystatsm/pyglm/links.py  | 4 ++--
 pystatsm/pyglm2/links.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index f44a3fa..e100a58 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -399,7 +399,7 @@ class NegativeBinomialLink(Link):
         return dmu
     
     def d2link(self, mu):
-        a = self.v * (self.v + 2.0 * mu)
+        a = -self.v * (self.v + 2.0 * mu)
         b = mu**2 * (self.v + mu)**2
         return a / b
         
@@ -411,7 +411,7 @@ class NegativeBinomialLink(Link):
     
     def d4link(self, mu):
         v = self.v
-        a = 6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
+        a = -6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
         b = mu**4 * (mu + v)**4
         return a / b
         
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 771a300..c1fd4ca 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -486,7 +486,7 @@ class NegativeBinomialLink(Link):
         return dmu
     
     def d2link(self, mu):
-        a = self.v * (self.v + 2.0 * mu)
+        a = -self.v * (self.v + 2.0 * mu)
         b = mu**2 * (self.v + mu)**2
         return a / b
         
@@ -498,7 +498,7 @@ class NegativeBinomialLink(Link):
     
     def d4link(self, mu):
         v = self.v
-        a = 6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
+        a = -6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
         b = mu**4 * (mu + v)**4
         return a / b
         
-- 
2.43.0


From a8005c5335276ecd809a32f0378e3ab84b13a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 005/113] fix: pylmm PowerLink.dinv_link and d2inv_link
 differentiated with respect to alpha instead of eta

---
 pystatsm/pylmm/links.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/links.py b/pystatsm/pylmm/links.py
index 810c819..bc2051c 100644
--- a/pystatsm/pylmm/links.py
+++ b/pystatsm/pylmm/links.py
@@ -202,16 +202,15 @@ class PowerLink(Link):
         if self.alpha==0:
             dmu = np.exp(eta)
         else:
-            dmu = -(eta**(1/self.alpha) * np.log(eta)) / (self.alpha**2)
+            dmu = eta**(1/self.alpha - 1.0) / self.alpha
         return dmu
     
     def d2inv_link(self, eta):
         alpha=self.alpha
-        lnx = np.log(eta)
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (eta**(1/alpha) * lnx * (lnx+2*alpha)) / alpha**4
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
-- 
2.43.0


From b5e89911af4dcb98e2033de392341d5234983515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 006/113] fix: get_g and get_w called the nonexistent _get_a

---
 pystatsm/pyglm2/families.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 8a681ee..fdc7907 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -158,11 +158,11 @@ class ExponentialFamily(metaclass=ABCMeta):
         return a
 
     def get_g(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        g = self.dlink(mu) / self._get_a(y=y, mu=mu, phi=phi, dispersion=dispersion)
+        g = self.dlink(mu) / self.get_a(y=y, mu=mu, phi=phi, dispersion=dispersion)
         return g
     
     def get_w(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        a = self._get_a(y=y, mu=mu, weights=weights, phi=phi, dispersion=dispersion)
+        a = self.get_a(y=y, mu=mu, weights=weights, phi=phi, dispersion=dispersion)
         v = self.var_func(mu, dispersion)
         dmu = self.dlink(mu)
         res = a / (dmu**2 * v)
-- 
2.43.0


From d53cdb79f3766324db966e8e0134f7f7c9a72492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 007/113] fix: working weight derivatives called the
 nonexistent _check_args

---
 pystatsm/pyglm2/families.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index fdc7907..d0a6a82 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -175,7 +175,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return w
 
     def da_dmu(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         V0, V1, V2 = self.var_derivs(mu, dispersion, 2)
         g1, g2, g3 = self.dlink(mu), self.d2link(mu), self.d3link(mu)
         u = (V1 / V0 + g2 / g1)
@@ -184,7 +183,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return res
 
     def d2a_dmu2(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         V0, V1, V2, V3 = self.var_derivs(mu, dispersion, 3)
         g1 = self.dlink(mu)
         g2 = self.d2link(mu)
@@ -197,7 +195,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return res
 
     def dw_deta(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         a0 = self.get_a(y=y, mu=mu, dispersion=dispersion)
         a1 = self.da_dmu(y=y, mu=mu, dispersion=dispersion)
         w = self.get_w(y=y, mu=mu, dispersion=dispersion)
@@ -207,7 +204,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return res
 
     def d2w_deta2(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         V0, V1, V2, V3 = self.var_derivs(mu, dispersion, 3)
         g1, g2, g3, g4 = self.dlink(mu), self.d2link(mu), self.d3link(mu), self.d4link(mu)
         g21 = g2 / g1
-- 
2.43.0


From 6213bd79e7b11002b139532b4c990a93f0b39947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 008/113] fix: expected weights squared the prior weights

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index d0a6a82..6ba0101 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -171,7 +171,7 @@ class ExponentialFamily(metaclass=ABCMeta):
     def get_ehw(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         den = self.variance(mu=mu, weights=weights, phi=phi, dispersion=dispersion) 
         den = den * self.dlink(mu)**2
-        w = weights / den
+        w = 1.0 / den
         return w
 
     def da_dmu(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-- 
2.43.0


From 41655af753e65b3ea2339603b8a63a8993f391d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 009/113] fix: InverseGaussian.d2llscale was negated twice

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 6ba0101..96cb106 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -404,7 +404,7 @@ class InverseGaussian(ExponentialFamily):
 
     def d2llscale(self, phi, y):
         ls2 = -len(y) / (2.0 * phi**2)
-        return -ls2
+        return ls2
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-- 
2.43.0


From 1d0c124fadeaca68991de3b9c1f72e5eefce6194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 010/113] fix: pearson_resid ignored the weights argument

---
 pystatsm/pyglm/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 8708ca3..fff572d 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -77,7 +77,7 @@ class ExponentialFamily(object):
         weights = self.weights if weights is None else weights
         y, mu = self.cshape(y, mu)
         V = self.var_func(mu=mu, dispersion=dispersion)
-        w = np.sqrt(self.weights / V)
+        w = np.sqrt(weights / V)
         r_p = w * (y - mu)
         return r_p
     
-- 
2.43.0


From 93c1e695268f6b966a07e04d8b11a18b2f3fb151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 011/113] fix: second derivative of the Gaussian canonical
 parameter is zero

---
 pystatsm/pyglm/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index fff572d..ba837be 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -269,7 +269,7 @@ class Gaussian(ExponentialFamily):
         return V
     
     def d2canonical(self, mu, dispersion=1.0):
-        res = 0.0*mu+1.0
+        res = 0.0*mu
         return res
 
     def deviance(self, y, weights=None, T=None, mu=None, eta=None, phi=1.0, dispersion=1.0):
-- 
2.43.0


From 371061211fb4ab9b7ab4d22cc7348784746415ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 012/113] fix: InverseGaussian canonical parameter disagreed
 with its cumulant and mean function

---
 pystatsm/pyglm/families.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index ba837be..4cdea96 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -351,7 +351,7 @@ class InverseGaussian(ExponentialFamily):
         return llf
 
     def canonical_parameter(self, mu, dispersion=1.0):
-        T = 1.0 / (np.power(mu, 2.0))
+        T = -1.0 / (2.0 * np.power(mu, 2.0))
         return T
 
     def cumulant(self, T, dispersion=1.0):
@@ -368,7 +368,7 @@ class InverseGaussian(ExponentialFamily):
         return V
 
     def d2canonical(self, mu, dispersion=1.0):
-        res = 3.0 / (np.power(mu, 4))
+        res = -3.0 / (np.power(mu, 4))
         return res
 
     def deviance(self, y, weights=None, T=None, mu=None, eta=None, phi=1.0, dispersion=1.0):
-- 
2.43.0


From ebbf5088095d1d55dc0639b6184fc1f1f99664c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 013/113] fix: NegativeBinomial cumulant and mean function
 disagreed with the canonical parameter

---
 pystatsm/pyglm/families.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 4cdea96..1fa439c 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -572,12 +572,12 @@ class NegativeBinomial(ExponentialFamily):
         return T
 
     def cumulant(self, T, dispersion=1.0):
-        b = (-1.0 / dispersion) * np.log(1 - dispersion * np.exp(T))
+        b = (-1.0 / dispersion) * np.log(1 - np.exp(T))
         return b
 
     def mean_func(self, T, dispersion=1.0):
         u = np.exp(T)
-        mu = -1.0 / dispersion * (u / (1 - u))
+        mu = 1.0 / dispersion * (u / (1 - u))
         return mu
 
     def var_func(self, T=None, mu=None, eta=None, dispersion=1.0):
-- 
2.43.0


From 0668e48bf97cd8b03d5cdb3be241845143fb6c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 014/113] fix: negative binomial GLM Hessian ignored the
 weights in its cross term

---
 pystatsm/pyglm2/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 4834eb5..09d84d9 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -215,7 +215,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         gw, hw = f.get_ghw(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         H = np.dot((X * hw.reshape(-1, 1)).T, X)
         if isinstance(f, NegativeBinomial) or f.name=="NegativeBinomial":
-            dbdt = -np.dot(X.T, dispersion * (y - mu) /
+            dbdt = -np.dot(X.T, weights * dispersion * (y - mu) /
                            ((1 + dispersion * mu)**2 * f.dlink(mu)))
         else:
             dbdt = np.dot(X.T, gw)
-- 
2.43.0


From 384ae9153fee12e47c23cfd865b4ee0e8ea2c62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 015/113] fix: GLM moment dispersion ignored the weights

---
 pystatsm/pyglm2/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 09d84d9..1b9fa75 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -135,7 +135,7 @@ class GLM(RegressionMixin, LikelihoodModel):
             dispersion = 1.0
 
         if scale_estimator == "M":
-            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion) / (X.shape[0] - X.shape[1])
+            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion, weights=weights) / (X.shape[0] - X.shape[1])
         elif scale_estimator != "NR":
             phi = 1.0
         return X, y, weights, mu, beta, phi, tau, dispersion
-- 
2.43.0


From 1c1eb6547a0f5aadcee98f967d7ed82446461f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:41 +0000
Subject: [PATCH 016/113] fix: GLM robust covariance and resampling used the
 family's default weights instead of the model's

---
 pystatsm/pyglm2/glm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 1b9fa75..5fa76e4 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -418,7 +418,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         
     def get_robust_res(self, grad_kws=None):
         default_kws = dict(params=self.params,
-                           data=(self.X, self.y, self.f.weights), 
+                           data=(self.X, self.y, self.weights), 
                            scale_estimator=self.scale_estimator,
                            f=self.f)
         grad_kws = handle_default_kws(grad_kws, default_kws)
@@ -469,8 +469,8 @@ class GLM(RegressionMixin, LikelihoodModel):
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-        if type(self.f.weights) is np.ndarray:
-            weights = self.f.weights
+        if type(self.weights) is np.ndarray:
+            weights = self.weights
         else:
             weights = np.ones(self.n_obs)
         if method == "optimize":
@@ -502,7 +502,7 @@ class GLM(RegressionMixin, LikelihoodModel):
     def _bootstrap(self, n_boot=1000, verbose=True, return_info=False, rng=None):
         rng = np.random.default_rng() if rng is None else rng 
         n, q = self.n_obs, self.n_params
-        weights = self.f.weights
+        weights = self.weights
         w = weights if type(weights) is np.ndarray else np.ones(n)
         X, y = self.X, self.y
         pbar = tqdm.tqdm(total=n_boot, smoothing=1e-6) if verbose else None
-- 
2.43.0


From 98692470ae8ba25cb36864ff604baf20b23e7d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 017/113] fix: cumulative link model Hessian ignored the
 weights in its second-derivative terms

---
 pystatsm/pyglm2/clm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index 4bb7ea9..dea3cd1 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -261,8 +261,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         
         w3 =  w / prob**2
         dprob = (B1 * d1eta1[:, None]) - (B2 * d1eta2[:, None])
-        T0 = (B1 * (d2eta1 / prob)[:, None]).T.dot(B1)
-        T1 = (B2 * (d2eta2 / prob)[:, None]).T.dot(B2)
+        T0 = (B1 * (w * d2eta1 / prob)[:, None]).T.dot(B1)
+        T1 = (B2 * (w * d2eta2 / prob)[:, None]).T.dot(B2)
         T2 = (dprob * w3[:, None]).T.dot(dprob)
         H = -(T0 - T1 - T2)
         g = -np.dot(dprob[:, :q].T, w / prob)
@@ -298,8 +298,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         
         w3 =  w / prob**2
         dprob = (B1 * d1eta1[:, None]) - (B2 * d1eta2[:, None])
-        T0 = (B1 * (d2eta1 / prob)[:, None]).T.dot(B1)
-        T1 = (B2 * (d2eta2 / prob)[:, None]).T.dot(B2)
+        T0 = (B1 * (w * d2eta1 / prob)[:, None]).T.dot(B1)
+        T1 = (B2 * (w * d2eta2 / prob)[:, None]).T.dot(B2)
         T2 = (dprob * w3[:, None]).T.dot(dprob)
         H = -(T0 - T1 - T2)
         return H
-- 
2.43.0


From b3f31218f7451b379252b065103747b9e6acf39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:11 +0000
Subject: [PATCH 018/113] fix: pyglm cumulative link model Hessian ignored the
 weights in its second-derivative terms

---
 pystatsm/pyglm/clm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index 74cb009..b6b506f 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -112,8 +112,9 @@ class CLM:
         Phi3 =_check_shape(W / Pi**2, 2)
         dPi = (B1 * Phi_11).T - (B2*Phi_12).T
         Pi = _check_shape(Pi, 2)
-        T0 = (B1 * Phi_21 / Pi).T.dot(B1)
-        T1 = (B2 * Phi_22 / Pi).T.dot(B2)
+        W = _check_shape(W, 2)
+        T0 = (B1 * W * Phi_21 / Pi).T.dot(B1)
+        T1 = (B2 * W * Phi_22 / Pi).T.dot(B2)
         T2 = dPi.dot(dPi.T*Phi3)
         H = T0 - T1 - T2
         return -H
-- 
2.43.0


From 0a9c01a7fff903751cd2b0f86d5cb22c56729502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:11 +0000
Subject: [PATCH 019/113] fix: every threshold ordering constraint of the pyglm
 cumulative link model referred to the last pair

---
 pystatsm/pyglm/clm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index b6b506f..59844ce 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -31,7 +31,7 @@ class CLM:
         self.W = np.ones(self.X.shape[0])
         self.constraints = [dict(zip(
                 ['type', 'fun'], 
-                ['ineq', lambda params: params[i+1]-params[i]])) 
+                ['ineq', lambda params, *args, i=i: params[i+1]-params[i]])) 
                 for i in range(self.n_cats-2)]
         self.A1, self.A2 = self.Y[:, :-1], self.Y[:, 1:]
         self.o1, self.o2 = self.Y[:, -1]*30e1, self.Y[:, 0]*-10e5
-- 
2.43.0


From 31cd8be3ff4056f6aa37d8291ed1193a52bb11a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:11 +0000
Subject: [PATCH 020/113] fix: pyglm cumulative link model likelihood ratio
 statistic lacked its factor two

---
 pystatsm/pyglm/clm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index 59844ce..16e63be 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -157,7 +157,7 @@ class CLM:
         degfree_r = len(paramsr)
         degfree_llr = degfree_f - degfree_r
         chi2_dist = sp.stats.chi2(degfree_llr)
-        LLR = LL0 - LLf
+        LLR = 2.0 * (LL0 - LLf)
         LLR_pvalue = chi2_dist.sf(LLR)
         n, p = self.X.shape
         rmax =  (1 - np.exp(-2.0/n * (LL0)))
-- 
2.43.0


From eb06a5ac28f5331c62ed8ce18770d71d5619091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 021/113] fix: zero-inflated Poisson score weighted only half
 of its zero-part

---
 pystatsm/pyglm2/zinf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 0d45188..ffe5702 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -118,7 +118,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         
         # Compute the gradient for the Bernoulli part
         u_bernoulli = np.zeros(len(y))
-        u_bernoulli[ix_zero] = -(w[ix_zero] * h1 - h1 * exlam[ix_zero]) / den
+        u_bernoulli[ix_zero] = -w[ix_zero] * (h1 - h1 * exlam[ix_zero]) / den
         u_bernoulli[~ix_zero] = w[~ix_zero] * zero_link.dinv_link(omega_lp[~ix_zero]) / (1.0 - omega[~ix_zero])
         g_bernoulli = np.dot(Z.T, u_bernoulli)         # FLOPs: n_bernoulli_params * len(y)
         
@@ -163,7 +163,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         t1 = t0 * exlam[ix]
         h1 = zero_link.dinv_link(omega_lp[ix])
         gw1 =  (w[ix] * t1 * link.dinv_link(lambda_lp[ix])) / (t1 + omega[ix]) 
-        gw2 = -(w[ix] * h1 - h1 * exlam[ix]) / (t1 + omega[ix])
+        gw2 = -w[ix] * (h1 - h1 * exlam[ix]) / (t1 + omega[ix])
 
         g[i1, j1] = X[ix] * (gw1)[:, None]
         g[i1, j2] = Z[ix] * (gw2)[:, None]
-- 
2.43.0


From 1458563ae0d2c46329112d1905b8abc41d296a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 022/113] fix: zero-inflated Poisson log-likelihood used log
 (y-1)! instead of log y!

---
 pystatsm/pyglm2/zinf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index ffe5702..d76c652 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -58,7 +58,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         ll[ix] = -w[ix] * np.log(mu2[ix] + (1 - mu2[ix]) * np.exp(-mu1[ix]))
         ix = ~ix
         ll[ix] = -w[ix] * (np.log(1 - mu2[ix]) + y[ix] * np.log(mu1[ix]) \
-                          - mu1[ix] - sp.special.gammaln(y[ix]))
+                          - mu1[ix] - sp.special.gammaln(y[ix] + 1.0))
         return ll
     
     def loglike_i(self, params, data=None, link=None, zero_link=None):
@@ -79,7 +79,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         ix = ~ix
         ll = ll + np.sum(-w[ix] * (np.log(1 - omega[ix]) \
                          + y[ix] * np.log(lambd[ix]) - lambd[ix]\
-                         - sp.special.gammaln(y[ix])))
+                         - sp.special.gammaln(y[ix] + 1.0)))
 
         return ll
     
-- 
2.43.0


From c83589c7a20a96765b04d8a475d594430f09efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 023/113] fix: ZIP log-likelihood used log (y-1)! instead of
 log y!

---
 pystatsm/pyglm/zimodels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 2da5216..70631d2 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -50,7 +50,7 @@ class ZIP:
         self.X0, self.X1 = self.X[self.ix0], self.X[self.ix1]
         self.y0, self.y1 = self.y[self.ix0], self.y[self.ix1]
         self.Z0, self.Z1 = self.Z[self.ix0], self.Z[self.ix1]
-        self._llc = sp.special.gammaln(self.y1)
+        self._llc = sp.special.gammaln(self.y1 + 1.0)
     
     def _check_params(self, params, X):
         b, a = params[:X.shape[1]], params[X.shape[1]:]
-- 
2.43.0


From 354b514f5238c3a7857aae9ea8a518ff0d21bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 024/113] fix: ExponentialFamily was not imported, so
 zero-inflated negative binomial models could not be constructed

---
 pystatsm/pyglm2/zinf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index d76c652..9ffc41c 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -17,7 +17,7 @@ from .likelihood_model import LikelihoodModel
 from .links import (CloglogLink, IdentityLink, Link, LogitLink, LogLink, #analysis:ignore
                     LogComplementLink, NegativeBinomialLink, ProbitLink,
                     PowerLink)
-from .families import NegativeBinomial
+from .families import ExponentialFamily, NegativeBinomial
 from ..utilities.func_utils import symmetric_conf_int, handle_default_kws
 
 from ..utilities.linalg_operations import wdiag_outer_prod, wls_qr, nwls   
-- 
2.43.0


From db33616d496e0d4b801942030b056a9d90b75b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 025/113] fix: zero-inflated negative binomial weighted its
 positive counts differently in likelihood and gradient than in scores and
 Hessian

---
 pystatsm/pyglm2/zinf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 9ffc41c..6439399 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -568,7 +568,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         ix = y==0
         ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k / w[ix] * mu1[ix])**(-w[ix] / k))
         ix = ~ix
-        ll[ix] = f._loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix])  
+        ll[ix] = f._full_loglike(y[ix], weights=1.0, mu=mu1[ix], phi=1.0, dispersion=k / w[ix]) -np.log(1.0 - mu2[ix])  
         return ll
     
     def loglike_i(self, params, data=None, link=None, f=None):
@@ -588,7 +588,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
       ix = y==0
       ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k / w[ix] * mu1[ix])**(-w[ix] / k))
       ix = ~ix
-      ll[ix] = f._full_loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix]) 
+      ll[ix] = f._full_loglike(y[ix], weights=1.0, mu=mu1[ix], phi=1.0, dispersion=k / w[ix]) -np.log(1.0 - mu2[ix]) 
       return np.sum(ll)
     
     def loglike(self, params, data=None, link=None, f=None):
@@ -633,12 +633,12 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         i = y != 0
         
         x0 = mu1[i]
-        x1 = k
+        x1 = k / w[i]
         x2 = x0 * x1
         x3 = x2 + 1.0
-        x4 = w[i] / x3
+        x4 = 1.0 / x3
         x5 = mu2[i]
-        x6 = 1 / k
+        x6 = 1 / x1
         x7 = x1 * y[i]
         x8 = x7 + 1.0
         #x9 = np.log(x3) +  sp.special.polygamma(0, x6) - sp.special.polygamma(0, x6 * x8)
-- 
2.43.0


From 6a5ad6c9ffbedcc182568d762b3843bb2fb9d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:42 +0000
Subject: [PATCH 026/113] fix: adjusted pseudo R-squared penalises parameters

---
 pystatsm/pyglm/linear_model.py      | 2 +-
 pystatsm/pyglm2/likelihood_model.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 065acb8..24829e4 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -191,7 +191,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         r2_cs = 1-np.exp(2.0/n_obs * (ll_model - ll_null))
         r2_nk = r2_cs / (1-np.exp(2.0 / n_obs * -ll_null))
         r2_mc = 1.0 - ll_model / ll_null
-        r2_mb = 1.0 - (ll_model - n_params) / ll_null
+        r2_mb = 1.0 - (ll_model + n_params) / ll_null
         llr = 2.0 * (ll_null - ll_model)
         return r2_cs, r2_nk, r2_mc, r2_mb, llr
 
diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index 8a08a6b..7f96aea 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -181,9 +181,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         r2_cs = 1-np.exp(2.0/n_obs * (ll_model - ll_null))
         r2_nk = r2_cs / (1-np.exp(2.0 / n_obs * -ll_null))
         r2_mc = 1.0 - ll_model / ll_null
-        r2_mb = 1.0 - (ll_model - n_params) / ll_null
+        r2_mb = 1.0 - (ll_model + n_params) / ll_null
         r2_es = 1.0 - np.exp((2*ll_null/n_obs) * np.log(1.0-2.0*(ll_null - ll_model) / (2 * ll_null)))
-        r2_ea = 1.0 - np.exp((2*ll_null/n_obs) * np.log((n_params - ll_model) / -ll_null))
+        r2_ea = 1.0 - np.exp((2*ll_null/n_obs) * np.log((ll_model + n_params) / ll_null))
         r2_an = 2.0 * (ll_null - ll_model) / (2.0 * (ll_null - ll_model) + n_obs)
         r2_vz = (2.0 * (ll_null - ll_model) * (2*ll_null+n_obs)) /\
                 (2.0 * (ll_null * (2 * (ll_null - ll_model) + n_obs)))
-- 
2.43.0


From 6c818f0ae8826a6573c6533c39a71b9ff05e147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:42 +0000
Subject: [PATCH 027/113] fix: boolean fixed_indices in constraint builder

---
 pystatsm/pyglm/linear_model.py      | 2 +-
 pystatsm/pyglm2/likelihood_model.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 24829e4..6ba715a 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -238,7 +238,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         """
         constraints = []
         if np.asarray(fixed_indices).dtype==bool:
-            fixed_indices = np.where(fixed_indices)
+            fixed_indices = np.where(fixed_indices)[0]
         for i, xi in list(zip(fixed_indices, fixed_values)):
             constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
         return constraints
diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index 7f96aea..9e80aa1 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -233,7 +233,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         """
         constraints = []
         if np.asarray(fixed_indices).dtype==bool:
-            fixed_indices = np.where(fixed_indices)
+            fixed_indices = np.where(fixed_indices)[0]
         for i, xi in list(zip(fixed_indices, fixed_values)):
             constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
         return constraints
-- 
2.43.0


From 39121adc8048cb944e0114051a1a6130646cddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:42 +0000
Subject: [PATCH 028/113] fix: equality constraint closures bind their own
 index

---
 pystatsm/pyglm/linear_model.py      | 4 ++--
 pystatsm/pyglm2/likelihood_model.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 6ba715a..08aaa6f 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -240,7 +240,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         if np.asarray(fixed_indices).dtype==bool:
             fixed_indices = np.where(fixed_indices)[0]
         for i, xi in list(zip(fixed_indices, fixed_values)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         return constraints
 
     @staticmethod
@@ -282,7 +282,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         par, ind = np.atleast_1d(par), np.atleast_1d(ind)
         constraints = []
         for i, xi in list(zip(ind, par)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         default_minimize_kws = dict(fun=loglike, jac=grad, hess=hess,
                                     method="trust-constr",
                                     constraints=constraints)
diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index 9e80aa1..a791b09 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -235,7 +235,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         if np.asarray(fixed_indices).dtype==bool:
             fixed_indices = np.where(fixed_indices)[0]
         for i, xi in list(zip(fixed_indices, fixed_values)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         return constraints
 
     @staticmethod
@@ -277,7 +277,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         par, ind = np.atleast_1d(par), np.atleast_1d(ind)
         constraints = []
         for i, xi in list(zip(ind, par)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         default_minimize_kws = dict(fun=loglike, jac=grad, hess=hess,
                                     method="trust-constr",
                                     constraints=constraints)
-- 
2.43.0


From a69d0944bef7cd3179b03f1f6c97ce3fb397ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:42 +0000
Subject: [PATCH 029/113] fix: GLM null model uses the prior weights

---
 pystatsm/pyglm/linear_model.py | 4 ++--
 pystatsm/pyglm2/glm.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 08aaa6f..c7f0a7a 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1757,12 +1757,12 @@ class GLM(RegressionMixin, LikelihoodModel):
         self.llf = self.f.full_loglike(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         if self.f.name == "NegativeBinomial":
             opt_null = self._optimize(t_init=np.zeros(
-                2), data=(np.ones((self.n, 1)), self.y, None))
+                2), data=(np.ones((self.n, 1)), self.y, weights))
             self.lln = self.full_loglike(
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
             self.lln = self.f.full_loglike(
-                y, mu=np.ones(mu.shape[0])*y.mean(), phi=phi, weights=weights)
+                y, mu=np.ones(mu.shape[0])*np.average(y, weights=weights), phi=phi, weights=weights)
 
         k = len(self.params)
         sumstats = {}
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 5fa76e4..c17b39d 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -368,12 +368,12 @@ class GLM(RegressionMixin, LikelihoodModel):
         self.llf = self.f.full_loglike(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         if self.f.name == "NegativeBinomial":
             opt_null = self._optimize(t_init=np.zeros(
-                2), data=(np.ones((self.n, 1)), self.y, 1.0))
+                2), data=(np.ones((self.n, 1)), self.y, weights))
             self.lln = self.full_loglike(
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
             self.lln = self.f.full_loglike(
-                y, mu=np.ones(mu.shape[0])*y.mean(), phi=phi, weights=weights)
+                y, mu=np.ones(mu.shape[0])*np.average(y, weights=weights), phi=phi, weights=weights)
 
         k = len(self.params)
         sumstats = {}
-- 
2.43.0


From 0de6388fd093d871e8482041f1f43d5389316670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:04 +0000
Subject: [PATCH 030/113] fix: OLS applies its weights

---
 pystatsm/pyglm2/ols.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pystatsm/pyglm2/ols.py b/pystatsm/pyglm2/ols.py
index f0026cc..846c66a 100644
--- a/pystatsm/pyglm2/ols.py
+++ b/pystatsm/pyglm2/ols.py
@@ -44,6 +44,9 @@ class OLS(RegressionMixin, LikelihoodModel):
         self.xinds, self.yinds = self.model_data.indexes
         self.xcols, self.ycols = self.model_data.columns
         self.X, self.y, self.weights = self.model_data
+        sqrt_weights = np.sqrt(self.weights)
+        self.weighted_data = (self.X * sqrt_weights[:, None],
+                              self.y * sqrt_weights)
         self.n = self.n_obs = self.X.shape[0]
         self.p = self.n_var = self.X.shape[1]
         self.design_info = self.model_data.design_info
@@ -98,7 +101,7 @@ class OLS(RegressionMixin, LikelihoodModel):
         float
             Log-likelihood value.
         """
-        return self._loglike(params, (self.X, self.y), reml=reml)
+        return self._loglike(params, self.weighted_data, reml=reml)
 
     @staticmethod
     def _gradient(params, data, reml=True):
@@ -147,7 +150,7 @@ class OLS(RegressionMixin, LikelihoodModel):
         ndarray
             Gradient of the log-likelihood function.
         """
-        return self._gradient(params, (self.X, self.y), reml=reml)
+        return self._gradient(params, self.weighted_data, reml=reml)
 
     @staticmethod
     def _hessian(params, data, reml=True):
@@ -199,7 +202,7 @@ class OLS(RegressionMixin, LikelihoodModel):
         ndarray
             Hessian of the log-likelihood function.
         """
-        return self._hessian(params, (self.X, self.y), reml=reml)
+        return self._hessian(params, self.weighted_data, reml=reml)
 
     @staticmethod
     def _fit1(params, data, reml=True):
@@ -286,7 +289,7 @@ class OLS(RegressionMixin, LikelihoodModel):
         """
 
         G, Ginv, L, Linv, sse, beta, params = self._fit2(
-            None, (self.X, self.y), reml=reml)
+            None, self.weighted_data, reml=reml)
         self.G, self.Ginv, self.L, self.Linv = G, Ginv, L, Linv
         self.sse = sse
         self.scale = np.exp(params[-1]/2)
@@ -306,15 +309,15 @@ class OLS(RegressionMixin, LikelihoodModel):
     def fit(self, **kwargs):
         self._fit(**kwargs)
         self.yhat = self.predict()
-        self.ymean = np.mean(self.y)
+        self.ymean = np.average(self.y, weights=self.weights)
         resids = self.y - self.yhat
         dfr = self.n - self.p
         dfm = self.p - 1
         dft = self.n - 1
         
-        ssr = np.sum(resids**2)
-        ssm = np.sum((self.yhat - self.ymean)**2)
-        sst = np.sum((self.y - self.ymean)**2)
+        ssr = np.sum(self.weights * resids**2)
+        ssm = np.sum(self.weights * (self.yhat - self.ymean)**2)
+        sst = np.sum(self.weights * (self.y - self.ymean)**2)
         
         msr = ssr / dfr
         msm = ssm / dfm
@@ -403,11 +406,12 @@ class OLS(RegressionMixin, LikelihoodModel):
         """
         pbar = tqdm.tqdm(total=n_boot, smoothing=0.001) if verbose else None
         params = np.zeros((n_boot, self.p+1))
+        X, y = self.weighted_data
         i = 0
         while i < n_boot:
             try:
                 ix = np.random.choice(self.n, self.n)
-                Xb, yb = self.X[ix],  self.y[ix]
+                Xb, yb = X[ix],  y[ix]
                 G, c = Xb.T.dot(Xb), Xb.T.dot(yb)
                 L = np.linalg.cholesky(G)
                 w = sp.linalg.solve_triangular(L, c, lower=True)
@@ -474,7 +478,8 @@ class OLS(RegressionMixin, LikelihoodModel):
             An array containing the bootstrapped model parameters.
         """
         params = np.zeros((n_boot, self.p+1))
-        params = self.bootstrap_chol(self.X, self.y.reshape(-1, 1), params, n_boot)
+        X, y = self.weighted_data
+        params = self.bootstrap_chol(X, y.reshape(-1, 1), params, n_boot)
         return params
     
     def _permutation_test(self, vars_of_interest, n_perms=5000,
-- 
2.43.0


From c3f7472f68de6936ffd17fec66e7e2d19ac380c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 031/113] fix: BCa bias correction uses the share of replicates
 below the estimate

---
 pystatsm/utilities/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/output.py b/pystatsm/utilities/output.py
index 50f6938..b99830e 100644
--- a/pystatsm/utilities/output.py
+++ b/pystatsm/utilities/output.py
@@ -86,7 +86,7 @@ def compute_bias_corrected_bootstrap_intervals(params, jack_samples, boot_sample
     jack_samples = np.asarray(jack_samples)
     boot_samples = np.asarray(boot_samples)
 
-    z0 = sp.special.ndtri(np.mean(params < boot_samples, axis=0)).reshape(-1, 1)
+    z0 = sp.special.ndtri(np.mean(boot_samples < params, axis=0)).reshape(-1, 1)
     jack_mean = np.mean(jack_samples, axis=0)
     d = jack_mean - jack_samples
     d2 = d * d
-- 
2.43.0


From 1f163f32f499e7c7d899d24fd1591f225c85cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:17 +0000
Subject: [PATCH 032/113] fix: GLM null model accepts scalar prior weights

---
 pystatsm/pyglm/linear_model.py | 2 +-
 pystatsm/pyglm2/glm.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index c7f0a7a..5a4a2d6 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1762,7 +1762,7 @@ class GLM(RegressionMixin, LikelihoodModel):
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
             self.lln = self.f.full_loglike(
-                y, mu=np.ones(mu.shape[0])*np.average(y, weights=weights), phi=phi, weights=weights)
+                y, mu=np.ones(mu.shape[0])*np.average(y, weights=np.broadcast_to(weights, np.shape(y))), phi=phi, weights=weights)
 
         k = len(self.params)
         sumstats = {}
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index c17b39d..ff36f37 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -373,7 +373,7 @@ class GLM(RegressionMixin, LikelihoodModel):
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
             self.lln = self.f.full_loglike(
-                y, mu=np.ones(mu.shape[0])*np.average(y, weights=weights), phi=phi, weights=weights)
+                y, mu=np.ones(mu.shape[0])*np.average(y, weights=np.broadcast_to(weights, np.shape(y))), phi=phi, weights=weights)
 
         k = len(self.params)
         sumstats = {}
-- 
2.43.0


From fc15cd8a73171949ae0dacb1a35a80254ca9545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:32 +0000
Subject: [PATCH 033/113] fix: MEstimator.E_psi integrates psi

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 6c00a6d..6611add 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -26,7 +26,7 @@ class MEstimator(object):
         return self._normal_ev(f)
     
     def E_psi(self, c=None):
-        f = lambda x: self.rho(x, c) * norm_pdf(x)
+        f = lambda x: self.psi(x, c) * norm_pdf(x)
         return self._normal_ev(f)
         
     def E_phi(self, c=None):
-- 
2.43.0


From b25489a4f657cd976cc71ae65b51ab1860ca29be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:32 +0000
Subject: [PATCH 034/113] fix: Huber uses its tuning constant

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 6611add..810e17c 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -86,7 +86,7 @@ class MEstimator(object):
 class Huber(MEstimator):
     
     def __init__(self, c=1.345):
-        self.c = 1.345
+        self.c = c
 
         
     def rho(self, x, c=None):
-- 
2.43.0


From 01d521a471569f64a47fa487d3d76059bbaca127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:32 +0000
Subject: [PATCH 035/113] fix: RobustLM uses its tuning constant

---
 pystatsm/pyrobust/rls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 5f7800e..ccf548f 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -33,7 +33,7 @@ class RobustLM:
         scale_init = np.log(mad(self.y - self.X.dot(beta_init)))
         self.theta_init = np.r_[beta_init, scale_init]
         self.a = 0.5
-        self.f = Huber()
+        self.f = Huber(c)
 
         
     def _update_y(self, y):
-- 
2.43.0


From dc4f9cc270b7bf77737df3d9126a6bc0dd230d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:32 +0000
Subject: [PATCH 036/113] fix: RobustLM.irwls weights

---
 pystatsm/pyrobust/rls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index ccf548f..f913531 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -119,7 +119,7 @@ class RobustLM:
                 v = (u * self.f.psi(u) -  self.f.rho(u)) * s**2
                 s = np.sqrt(np.sum(v) / ((self.n_obs - self.n_var) * self.E_psi2))
             u = r /s
-            w = np.sqrt(self.f.psi(u) / u)
+            w = self.f.weights(u)
             b_new = nwls(self.X, self.y, w)
             r_new = self.y - self.X.dot(b_new)
             
-- 
2.43.0


From fb3af12eee7dec0e9bbbd90251593f6977a7646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:32 +0000
Subject: [PATCH 037/113] fix: robust losses on integer residuals

---
 pystatsm/pyrobust/m_estimators.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 810e17c..8546925 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -91,7 +91,7 @@ class Huber(MEstimator):
         
     def rho(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -101,7 +101,7 @@ class Huber(MEstimator):
     
     def psi(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -111,7 +111,7 @@ class Huber(MEstimator):
     
     def phi(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -120,7 +120,7 @@ class Huber(MEstimator):
     
     def weights(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -163,7 +163,7 @@ class Bisquare(MEstimator):
         self.c = c
     
     def rho(self, x, c=None):
-        x = np.atleast_1d(x)
+        x = np.atleast_1d(np.asarray(x, dtype=float))
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
@@ -176,7 +176,7 @@ class Bisquare(MEstimator):
         return y
         
     def psi(self, x, c=None):
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
@@ -187,7 +187,7 @@ class Bisquare(MEstimator):
         return y
 
     def phi(self, x, c=None):
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
@@ -198,7 +198,7 @@ class Bisquare(MEstimator):
         return y
         
     def weights(self, x, c=None):
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
-- 
2.43.0


From bf9aa49b7be3c1db3ad77931b06b24ce9b9e8738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:53 +0000
Subject: [PATCH 038/113] fix: RobustSLM starts from the scale, not its
 logarithm

---
 pystatsm/pyrobust/rls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index f913531..9959d78 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -211,7 +211,7 @@ class RobustSLM:
         self.n_obs, self.n_var = self.X.shape
         
         self.beta_init = lsqr(self.X, self.y)
-        self.scale_init = np.log(mad(self.y - self.X.dot(self.beta_init)))
+        self.scale_init = mad(self.y - self.X.dot(self.beta_init))
         self.f = Bisquare(c=c)
     
     def _s_est_eq(self, r, s, bd=0.5):
-- 
2.43.0


From 5905373802eb434045f732688c394579cf3ed6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 039/113] fix: SkewNorm methods pass the three parameters the
 density takes

---
 pystatsm/misc/skewnorm_dist.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pystatsm/misc/skewnorm_dist.py b/pystatsm/misc/skewnorm_dist.py
index 6d3f955..0df9534 100644
--- a/pystatsm/misc/skewnorm_dist.py
+++ b/pystatsm/misc/skewnorm_dist.py
@@ -14,24 +14,24 @@ RT2 = np.sqrt(2.0)
 class SkewNorm:
     
     @staticmethod
-    def loglike(y, mu, sigma, nu, tau):
-        return _logpdf(y, mu, sigma, nu, tau)
+    def loglike(y, mu, sigma, nu, tau=None):
+        return _logpdf(y, mu, sigma, nu)
     
     @staticmethod
-    def d1loglike(y, mu, sigma, nu, tau):
-        return _d1logpdf(y, mu, sigma, nu, tau)
+    def d1loglike(y, mu, sigma, nu, tau=None):
+        return _d1logpdf(y, mu, sigma, nu)
     
     @staticmethod
-    def d2loglike(y, mu, sigma, nu, tau):
-        return _d2logpdf(y, mu, sigma, nu, tau)
+    def d2loglike(y, mu, sigma, nu, tau=None):
+        return _d2logpdf(y, mu, sigma, nu)
 
     @staticmethod
-    def d3loglike(y, mu, sigma, nu, tau):
-        return _d3logpdf(y, mu, sigma, nu, tau)
+    def d3loglike(y, mu, sigma, nu, tau=None):
+        return _d3logpdf(y, mu, sigma, nu)
 
     @staticmethod
-    def d4loglike(y, mu, sigma, nu, tau):
-        return _d4logpdf(y, mu, sigma, nu, tau)
+    def d4loglike(y, mu, sigma, nu, tau=None):
+        return _d4logpdf(y, mu, sigma, nu)
 
     
 def _expand_arrs(*arrs):
-- 
2.43.0


From 595b1df522992ea600847d16c3cff05494546237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 040/113] fix: sinh-arcsinh skewness and excess kurtosis
 central moments

---
 pystatsm/misc/shash1.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pystatsm/misc/shash1.py b/pystatsm/misc/shash1.py
index fce3a8e..5e7824b 100644
--- a/pystatsm/misc/shash1.py
+++ b/pystatsm/misc/shash1.py
@@ -33,16 +33,17 @@ def variance(m, s, v, t):
 
 def skewness(m, s, v, t):
     E_Z = np.sinh(v / t) * P(1 / t)
-    Var_Z = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
+    E_Z_2 = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
     E_Z_3 = (1 / 4) * (np.sinh(3 * v / t) * P(3 / t) - 3 * np.sinh(v / t) * P(1 / t))
-    mu_3_Y = s**3 * (E_Z_3 - 3 * Var_Z * E_Z - E_Z**3)
+    mu_3_Y = s**3 * (E_Z_3 - 3 * E_Z_2 * E_Z + 2 * E_Z**3)
     return mu_3_Y / variance(m, s, v, t)**1.5
 
 def excess_kurtosis(m, s, v, t):
     E_Z = np.sinh(v / t) * P(1 / t)
-    Var_Z = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
+    E_Z_2 = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
+    E_Z_3 = (1 / 4) * (np.sinh(3 * v / t) * P(3 / t) - 3 * np.sinh(v / t) * P(1 / t))
     E_Z_4 = (1 / 8) * (np.cosh(4 * v / t) * P(4 / t) - 4 * np.cosh(2 * v / t) * P(2 / t) + 3)
-    mu_4_Y = s**4 * (E_Z_4 - 4 * E_Z**3 + 6 * Var_Z * E_Z**2 + 3 * E_Z**4)
+    mu_4_Y = s**4 * (E_Z_4 - 4 * E_Z_3 * E_Z + 6 * E_Z_2 * E_Z**2 - 3 * E_Z**4)
     return mu_4_Y / variance(m, s, v, t)**2 - 3
 
 def pdf(y, m, s, v, t):
-- 
2.43.0


From 5ab5ab5de13a122902d1e54e8ce7fdfe633589da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 041/113] fix: parameter transforms truncated their results to
 integers for integer arguments

---
 pystatsm/utilities/param_transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/utilities/param_transforms.py b/pystatsm/utilities/param_transforms.py
index e3d497b..ca9ed47 100644
--- a/pystatsm/utilities/param_transforms.py
+++ b/pystatsm/utilities/param_transforms.py
@@ -57,6 +57,8 @@ class ParameterTransformBase(ABC):
     def _apply_method(self, x, method):
         if np.isscalar(x):
             return getattr(self, method)(x)
+        if np.issubdtype(x.dtype, np.integer):
+            x = x.astype(float)
         ndim = x.ndim
         func = getattr(self, method)
         if ndim==1:
-- 
2.43.0


From 9d8f99609b645819cd773fb5d1d1df4cf43ef8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:17 +0000
Subject: [PATCH 042/113] fix: dchol second derivative kept the upper triangle
 of the matrix's second derivative

---
 pystatsm/utilities/dchol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystatsm/utilities/dchol.py b/pystatsm/utilities/dchol.py
index 010978f..c8c63ea 100644
--- a/pystatsm/utilities/dchol.py
+++ b/pystatsm/utilities/dchol.py
@@ -60,8 +60,10 @@ def dchol(M, dM, d2M, order=2):
     dMt = np.swapaxes(np.swapaxes(dM, 0, 2), 1, 2)
     dLt  = np.tril(dMt)
     dL = np.swapaxes(np.swapaxes(dLt, 1, 2), 0, 2)
-    d2L = np.tril(d2M)
     n = L.shape[-1]
+    d2L = d2M.copy()
+    for i in range(n):
+        d2L[i, i+1:] = 0.0
     m = dM.shape[-1]
     
     for k in range(n):
-- 
2.43.0


From c0c90e3ede09560dc47d34aa9821b927fe980598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 043/113] fix: stand-alone Cholesky covariance parameterisation
 was not unconstrained

---
 pystatsm/utilities/cov_transform.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/utilities/cov_transform.py b/pystatsm/utilities/cov_transform.py
index 075c07d..06aca45 100644
--- a/pystatsm/utilities/cov_transform.py
+++ b/pystatsm/utilities/cov_transform.py
@@ -148,21 +148,21 @@ class UnconstrainedCholeskyCorr(object):
         self.ind_parts = lhv_ind_parts(mat_size)
         self.row_norm_inds = [self.row_sort[a:b] for a, b in self.ind_parts]
     
-    def _fwd(self, x):
+    def _rvs(self, x):
         row_norms = np.zeros_like(x)
         for ii in self.row_norm_inds:
             row_norms[ii] = np.sqrt(np.sum(x[ii]**2)+1)
         y = x / row_norms
         return y
     
-    def _rvs(self, y):
+    def _fwd(self, y):
         diag = np.zeros_like(y)
         for ii in self.row_norm_inds:
             diag[ii] = np.sqrt(1-np.sum(y[ii]**2))
         x = y / diag
         return x
     
-    def _jac_fwd(self, x):
+    def _jac_rvs(self, x):
         dy_dx = np.zeros((x.shape[0],)*2)
         for ii in self.row_norm_inds:
             xii = x[ii]
@@ -172,7 +172,7 @@ class UnconstrainedCholeskyCorr(object):
             dy_dx[ii, ii[:, None]] = v1 - v2
         return dy_dx
     
-    def _hess_fwd(self, x):
+    def _hess_rvs(self, x):
         d2y_dx2 = np.zeros((x.shape[0],)*3)
         for ii in self.row_norm_inds:
             x_ii = x[ii]
@@ -189,7 +189,7 @@ class UnconstrainedCholeskyCorr(object):
                         d2y_dx2[i, j, k] = t1+t2+t3+t4
         return d2y_dx2
                         
-    def _jac_rvs(self, y):
+    def _jac_fwd(self, y):
         dx_dy = np.zeros((y.shape[0],)*2)
         for ii in self.row_norm_inds:
             yii = y[ii]
@@ -199,7 +199,7 @@ class UnconstrainedCholeskyCorr(object):
             dx_dy[ii, ii[:, None]] = v1 + v2
         return dx_dy
     
-    def _hess_rvs(self, y):
+    def _hess_fwd(self, y):
         d2x_dy2 = np.zeros((y.shape[0],)*3)
         for ii in self.row_norm_inds:
             y_ii = y[ii]
-- 
2.43.0


From 95fe3b4f8dc27cb1b49faf37f0e59213eb542d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 044/113] fix: inverse triangular positions doubled the
 diagonal

---
 pystatsm/utilities/indexing_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/indexing_utils.py b/pystatsm/utilities/indexing_utils.py
index 9a0a12e..8ffb540 100644
--- a/pystatsm/utilities/indexing_utils.py
+++ b/pystatsm/utilities/indexing_utils.py
@@ -88,7 +88,7 @@ def inv_tril_indices(n, k=0, m=None, order='F', indexing=0):
     arr = np.zeros((n, n), dtype=int)
     ij = tril_indices(n, k, m, order)
     arr[ij] = np.arange(indexing, indexing+len(ij[0]))
-    arr = arr + arr.T
+    arr[ij[::-1]] = arr[ij]
     return arr
 
 def triu_indices(n, k=0, m=None, order='F'):
-- 
2.43.0


From 837f32a7208564a048761645707c3e962652640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 045/113] fix: DuplicationMatrix.apply_pre_post multiplied by
 the transposed right factor

---
 pystatsm/utilities/special_mats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/special_mats.py b/pystatsm/utilities/special_mats.py
index 2e7500a..3f5a353 100644
--- a/pystatsm/utilities/special_mats.py
+++ b/pystatsm/utilities/special_mats.py
@@ -430,7 +430,7 @@ class DuplicationMatrix:
             D2 = D2.T
 
         A = D1.dot(A)
-        A = (D2.dot(A.T)).T
+        A = (D2.T.dot(A.T)).T
         return A
 
 class DpMatrix:
-- 
2.43.0


From f1180e41b40743e9a3f7bdf3c1f0fe5c7abe5849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 046/113] fix: antedependence correlations placed in the wrong
 upper-triangle positions

---
 pystatsm/utilities/cov_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/utilities/cov_utils.py b/pystatsm/utilities/cov_utils.py
index 00bb423..02a328c 100644
--- a/pystatsm/utilities/cov_utils.py
+++ b/pystatsm/utilities/cov_utils.py
@@ -180,7 +180,8 @@ def get_antedependence1_corr(rho, n_var=None):
         r.append(np.cumprod(rho[i:]))
     r = np.concatenate(r)
     R = np.eye(n_var)
-    R[np.triu_indices(n_var, 1)[::-1]] = R[np.tril_indices(n_var, -1)[::-1]] = r
+    R[np.triu_indices(n_var, 1)] = r
+    R = R + np.triu(R, 1).T
     return R
 
 def get_factor_cov(A, Psi, Phi=None, n_var=None):
-- 
2.43.0


From 877bbfac137fad4b89659180a7756edf6ce058bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 047/113] fix: flat_cross_tabulate used np.product, which NumPy
 2 removed

---
 pystatsm/utilities/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 7893d08..55c05e6 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -405,7 +405,7 @@ def flat_cross_tabulate(arr, column_dim=-1):
     axis_positions.append(axis_positions.pop(column_dim))
     axis_locations = [axis_positions.index(i) for i in range(counts.ndim)]
     counts = np.moveaxis(counts, list(range(counts.ndim)), axis_locations)
-    counts = counts.reshape(np.product(counts.shape[:-1]), counts.shape[-1], order='C')
+    counts = counts.reshape(int(np.prod(counts.shape[:-1])), counts.shape[-1], order='C')
     row_labels = np.array(list(itertools.product(*levels)))
     return counts, row_labels, col_labels, axis_locations
     
-- 
2.43.0


From 7e181261312f84e65424c433682b62ceb7eb19b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 048/113] fix: take the extremal indices along the partitioned
 axis and allow n equal to its length

---
 pystatsm/utilities/data_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 55c05e6..d244813 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -432,10 +432,13 @@ def expand_crosstab(table):
 
 
 def extremal_indices(arr, n, axis=-1, largest=True):
+    m = np.shape(arr)[axis]
     if largest:
-        return np.argpartition(arr, -n, axis=axis)[-n:]
+        ind = np.argpartition(arr, -n, axis=axis)
+        return np.take(ind, np.arange(m - n, m), axis=axis)
     else:
-        return np.argpartition(arr, n, axis=axis)[:n]
+        ind = np.argpartition(arr, n - 1, axis=axis)
+        return np.take(ind, np.arange(n), axis=axis)
 
 
 
-- 
2.43.0


From 15545af9cd9b22fdd7cd83f39a74db6b95c2ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 049/113] fix: pass the row count of the block in id_sp_kron
 and its in-place form

---
 pystatsm/utilities/python_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 1a29696..3b30660 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -253,7 +253,7 @@ def id_sp_kron(m, B):
     Ci = np.zeros(m * nnz, dtype=np.int32)
     Cx = np.zeros(m * nnz, dtype=np.float64)
     
-    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return sp.sparse.csc_matrix((Cx, Ci, Cp), shape=(m * Bnr, m * Bnc))
 
@@ -263,7 +263,7 @@ def id_sp_kron_inplace(m, B, C):
     Bp, Bi, Bx = B.indptr, B.indices, B.data
     Cp, Ci, Cx = C.indptr, C.indices, C.data
    
-    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return C
 
-- 
2.43.0


From 8f192ae967c5babc7759bdc4c233887e574bc7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 050/113] fix: accept operands without stored entries in the
 sparse kernels

---
 pystatsm/utilities/cython_wrappers.pyx | 84 +++++++++++++-------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/pystatsm/utilities/cython_wrappers.pyx b/pystatsm/utilities/cython_wrappers.pyx
index e2d6d6c..37da139 100644
--- a/pystatsm/utilities/cython_wrappers.pyx
+++ b/pystatsm/utilities/cython_wrappers.pyx
@@ -12,7 +12,7 @@ def coo_to_csc_wrapper(int Anr, int Anc, int Anz,
                        np.ndarray[int, ndim=1, mode="c"] Bp not None,
                        np.ndarray[int, ndim=1, mode="c"] Bi not None,
                        np.ndarray[double, ndim=1, mode="c"] Bx not None):
-    coo_to_csc(Anr, Anc, Anz, &Ai[0], &Aj[0], &Ax[0], &Bp[0], &Bi[0], &Bx[0])
+    coo_to_csc(Anr, Anc, Anz, <int*>np.PyArray_DATA(Ai), <int*>np.PyArray_DATA(Aj), <double*>np.PyArray_DATA(Ax), <int*>np.PyArray_DATA(Bp), <int*>np.PyArray_DATA(Bi), <double*>np.PyArray_DATA(Bx))
 
 cdef extern from "cs_add_inplace.h":
     void cs_add_inplace(const int *Ap, const int *Ai, const double *Ax,
@@ -31,10 +31,10 @@ def cs_add_inplace_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not None,
                    np.ndarray[int, ndim=1, mode="c"] Ci not None,
                    np.ndarray[double, ndim=1, mode="c"] Cx not None,
                    int Cnr, int Cnc):
-    cs_add_inplace(&Ap[0], &Ai[0], &Ax[0],
-                   &Bp[0], &Bi[0], &Bx[0],
+    cs_add_inplace(<int*>np.PyArray_DATA(Ap), <int*>np.PyArray_DATA(Ai), <double*>np.PyArray_DATA(Ax),
+                   <int*>np.PyArray_DATA(Bp), <int*>np.PyArray_DATA(Bi), <double*>np.PyArray_DATA(Bx),
                    alpha, beta,
-                   &Cp[0], &Ci[0], &Cx[0], Cnr, Cnc)
+                   <int*>np.PyArray_DATA(Cp), <int*>np.PyArray_DATA(Ci), <double*>np.PyArray_DATA(Cx), Cnr, Cnc)
 
 
 cdef extern from "cs_kron_ss.h":
@@ -56,9 +56,9 @@ def cs_kron_ss_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not None,
                         np.ndarray[int, ndim=1, mode="c"] Cp not None,
                         np.ndarray[int, ndim=1, mode="c"] Ci not None,
                         np.ndarray[double, ndim=1, mode="c"] Cx not None):
-    cs_kron_ss(&Ap[0], &Ai[0], &Ax[0], Anr, Anc,
-               &Bp[0], &Bi[0], &Bx[0], Bnr, Bnc,
-               &Cp[0], &Ci[0], &Cx[0])
+    cs_kron_ss(<int*>np.PyArray_DATA(Ap), <int*>np.PyArray_DATA(Ai), <double*>np.PyArray_DATA(Ax), Anr, Anc,
+               <int*>np.PyArray_DATA(Bp), <int*>np.PyArray_DATA(Bi), <double*>np.PyArray_DATA(Bx), Bnr, Bnc,
+               <int*>np.PyArray_DATA(Cp), <int*>np.PyArray_DATA(Ci), <double*>np.PyArray_DATA(Cx))
     
 
 def cs_kron_ss_inplace_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not None,
@@ -70,9 +70,9 @@ def cs_kron_ss_inplace_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not None,
                         np.ndarray[double, ndim=1, mode="c"] Bx not None,
                         int Bnr, int Bnc,
                         np.ndarray[double, ndim=1, mode="c"] Cx not None):
-    cs_kron_ss_inplace(&Ap[0], &Ai[0], &Ax[0], Anr, Anc,
-                       &Bp[0], &Bi[0], &Bx[0], Bnr, Bnc,
-                       &Cx[0])
+    cs_kron_ss_inplace(<int*>np.PyArray_DATA(Ap), <int*>np.PyArray_DATA(Ai), <double*>np.PyArray_DATA(Ax), Anr, Anc,
+                       <int*>np.PyArray_DATA(Bp), <int*>np.PyArray_DATA(Bi), <double*>np.PyArray_DATA(Bx), Bnr, Bnc,
+                       <double*>np.PyArray_DATA(Cx))
 
 cdef extern from "cs_kron_ds.h":
     void cs_kron_ds(const double *A, int Anr, int Anc,
@@ -90,9 +90,9 @@ def cs_kron_ds_wrapper(np.ndarray[double, ndim=2, mode="fortran"] A not None,
                        np.ndarray[int, ndim=1, mode="c"] Cp not None,
                        np.ndarray[int, ndim=1, mode="c"] Ci not None,
                        np.ndarray[double, ndim=1, mode="c"] Cx not None):
-    cs_kron_ds(&A[0,0], A.shape[0], A.shape[1],
-               &Bp[0], &Bi[0], &Bx[0], Bnr, Bnc,
-               &Cp[0], &Ci[0], &Cx[0])
+    cs_kron_ds(<double*>np.PyArray_DATA(A), A.shape[0], A.shape[1],
+               <int*>np.PyArray_DATA(Bp), <int*>np.PyArray_DATA(Bi), <double*>np.PyArray_DATA(Bx), Bnr, Bnc,
+               <int*>np.PyArray_DATA(Cp), <int*>np.PyArray_DATA(Ci), <double*>np.PyArray_DATA(Cx))
 
 def cs_kron_ds_inplace_wrapper(np.ndarray[double, ndim=2, mode="fortran"] A not None,
                                np.ndarray[int, ndim=1, mode="c"] Bp not None,
@@ -100,9 +100,9 @@ def cs_kron_ds_inplace_wrapper(np.ndarray[double, ndim=2, mode="fortran"] A not
                                np.ndarray[double, ndim=1, mode="c"] Bx not None,
                                int Bnr, int Bnc,
                                np.ndarray[double, ndim=1, mode="c"] Cx not None):
-    cs_kron_ds_inplace(&A[0,0], A.shape[0], A.shape[1],
-                       &Bp[0], &Bi[0], &Bx[0], Bnr, Bnc,
-                       &Cx[0])
+    cs_kron_ds_inplace(<double*>np.PyArray_DATA(A), A.shape[0], A.shape[1],
+                       <int*>np.PyArray_DATA(Bp), <int*>np.PyArray_DATA(Bi), <double*>np.PyArray_DATA(Bx), Bnr, Bnc,
+                       <double*>np.PyArray_DATA(Cx))
 
 cdef extern from "cs_matmul_inplace.h":
     void cs_matmul_inplace(const int *Ap, const int *Ai, const double *Ax, int Anr, int Anc,
@@ -120,9 +120,9 @@ def cs_matmul_inplace_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not None,
                               np.ndarray[int, ndim=1, mode="c"] Cp not None,
                               np.ndarray[int, ndim=1, mode="c"] Ci not None,
                               np.ndarray[double, ndim=1, mode="c"] Cx not None):
-    cs_matmul_inplace(&Ap[0], &Ai[0], &Ax[0], Anr, Anc,
-                      &Bp[0], &Bi[0], &Bx[0], Bnr, Bnc,
-                      &Cp[0], &Ci[0], &Cx[0])
+    cs_matmul_inplace(<int*>np.PyArray_DATA(Ap), <int*>np.PyArray_DATA(Ai), <double*>np.PyArray_DATA(Ax), Anr, Anc,
+                      <int*>np.PyArray_DATA(Bp), <int*>np.PyArray_DATA(Bi), <double*>np.PyArray_DATA(Bx), Bnr, Bnc,
+                      <int*>np.PyArray_DATA(Cp), <int*>np.PyArray_DATA(Ci), <double*>np.PyArray_DATA(Cx))
     
 
 cdef extern from "cs_kron_sd.h":
@@ -142,9 +142,9 @@ def cs_kron_sd_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not None,
                        np.ndarray[int, ndim=1, mode="c"] Cp not None,
                        np.ndarray[int, ndim=1, mode="c"] Ci not None,
                        np.ndarray[double, ndim=1, mode="c"] Cx not None):
-    cs_kron_sd(&Ap[0], &Ai[0], &Ax[0], Anr, Anc,
-               &B[0,0], Bnr, Bnc,
-               &Cp[0], &Ci[0], &Cx[0])
+    cs_kron_sd(<int*>np.PyArray_DATA(Ap), <int*>np.PyArray_DATA(Ai), <double*>np.PyArray_DATA(Ax), Anr, Anc,
+               <double*>np.PyArray_DATA(B), Bnr, Bnc,
+               <int*>np.PyArray_DATA(Cp), <int*>np.PyArray_DATA(Ci), <double*>np.PyArray_DATA(Cx))
 
 def cs_kron_sd_inplace_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not None,
                                np.ndarray[int, ndim=1, mode="c"] Ai not None,
@@ -153,9 +153,9 @@ def cs_kron_sd_inplace_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not None,
                                np.ndarray[double, ndim=2, mode="fortran"] B not None,
                                int Bnr, int Bnc,
                                np.ndarray[double, ndim=1, mode="c"] Cx not None):
-    cs_kron_sd_inplace(&Ap[0], &Ai[0], &Ax[0], Anr, Anc,
-                       &B[0,0], Bnr, Bnc,
-                       &Cx[0])
+    cs_kron_sd_inplace(<int*>np.PyArray_DATA(Ap), <int*>np.PyArray_DATA(Ai), <double*>np.PyArray_DATA(Ax), Anr, Anc,
+                       <double*>np.PyArray_DATA(B), Bnr, Bnc,
+                       <double*>np.PyArray_DATA(Cx))
     
 cdef extern from "cs_kron_id_sp.h":
     void cs_kron_id_sp(int m, const double *Bx, const int *Bi, const int *Bp, 
@@ -171,7 +171,7 @@ def cs_kron_id_sp_wrapper(int m,
                           np.ndarray[double, ndim=1, mode="c"] Cx not None,
                           np.ndarray[int, ndim=1, mode="c"] Ci not None,
                           np.ndarray[int, ndim=1, mode="c"] Cp not None):
-    cs_kron_id_sp(m, &Bx[0], &Bi[0], &Bp[0], Bnr, Bnc, &Cx[0], &Ci[0], &Cp[0])
+    cs_kron_id_sp(m, <double*>np.PyArray_DATA(Bx), <int*>np.PyArray_DATA(Bi), <int*>np.PyArray_DATA(Bp), Bnr, Bnc, <double*>np.PyArray_DATA(Cx), <int*>np.PyArray_DATA(Ci), <int*>np.PyArray_DATA(Cp))
 
 def cs_kron_id_sp_inplace_wrapper(int m,
                                   np.ndarray[double, ndim=1, mode="c"] Bx not None,
@@ -181,7 +181,7 @@ def cs_kron_id_sp_inplace_wrapper(int m,
                                   np.ndarray[double, ndim=1, mode="c"] Cx not None,
                                   np.ndarray[int, ndim=1, mode="c"] Ci not None,
                                   np.ndarray[int, ndim=1, mode="c"] Cp not None):
-    cs_kron_id_sp_inplace(m, &Bx[0], &Bi[0], &Bp[0], Bnr, Bnc, &Cx[0], &Ci[0], &Cp[0])
+    cs_kron_id_sp_inplace(m, <double*>np.PyArray_DATA(Bx), <int*>np.PyArray_DATA(Bi), <int*>np.PyArray_DATA(Bp), Bnr, Bnc, <double*>np.PyArray_DATA(Cx), <int*>np.PyArray_DATA(Ci), <int*>np.PyArray_DATA(Cp))
 
 
 cdef extern from "cs_dot.h":
@@ -196,7 +196,7 @@ def cs_dot_wrapper(np.ndarray[double, ndim=1, mode="c"] ax not None,
                    np.ndarray[int, ndim=1, mode="c"] bi not None,
                    int bnz,
                    double cx):
-    cs_dot(&ax[0], &ai[0], anz, &bx[0], &bi[0], bnz, &cx)
+    cs_dot(<double*>np.PyArray_DATA(ax), <int*>np.PyArray_DATA(ai), anz, <double*>np.PyArray_DATA(bx), <int*>np.PyArray_DATA(bi), bnz, &cx)
     return cx
 
 cdef extern from "cs_pattern_trace.h":
@@ -213,8 +213,8 @@ def cs_pattern_trace_wrapper(np.ndarray[int, ndim=1, mode="c"] Bp not None,
                              np.ndarray[double, ndim=1, mode="c"] Cx not None,
                              int Cnr, int Cnc, int Cnz,
                              double trace):
-    cs_pattern_trace(&Bp[0], &Bi[0], &Bx[0], Bnr, Bnc, Bnz,
-                     &Cp[0], &Ci[0], &Cx[0], Cnr, Cnc, Cnz,
+    cs_pattern_trace(<int*>np.PyArray_DATA(Bp), <int*>np.PyArray_DATA(Bi), <double*>np.PyArray_DATA(Bx), Bnr, Bnc, Bnz,
+                     <int*>np.PyArray_DATA(Cp), <int*>np.PyArray_DATA(Ci), <double*>np.PyArray_DATA(Cx), Cnr, Cnc, Cnz,
                      &trace)
     return trace
 
@@ -231,7 +231,7 @@ def cs_block_diag_self_dot_wrapper(np.ndarray[int, ndim=1, mode="c"] Lp not None
                                    int n_rows, int n_cols,
                                    int ng, int nv,
                                    np.ndarray[double, ndim=1, mode="c"] out not None):
-    cs_block_diag_self_dot(&Lp[0], &Li[0], &Lx[0], n_rows, n_cols, ng, nv, &out[0])
+    cs_block_diag_self_dot(<int*>np.PyArray_DATA(Lp), <int*>np.PyArray_DATA(Li), <double*>np.PyArray_DATA(Lx), n_rows, n_cols, ng, nv, <double*>np.PyArray_DATA(out))
 
 
 cdef extern from "repeat_1d.h":
@@ -241,7 +241,7 @@ def repeat_1d_wrapper(np.ndarray[double, ndim=1, mode="c"] arr not None,
                       int reps,
                       np.ndarray[double, ndim=1, mode="c"] out not None):
     cdef int n = arr.shape[0]
-    repeat_1d(&arr[0], n, reps, &out[0])
+    repeat_1d(<double*>np.PyArray_DATA(arr), n, reps, <double*>np.PyArray_DATA(out))
 
 
 cdef extern from "tile_1d.h":
@@ -252,7 +252,7 @@ def tile_1d_nested_wrapper(np.ndarray[double, ndim=1, mode="c"] arr not None,
                            int reps,
                            np.ndarray[double, ndim=1, mode="c"] out not None):
     cdef int n = arr.shape[0]
-    tile_1d_nested(&arr[0], n, reps, &out[0])
+    tile_1d_nested(<double*>np.PyArray_DATA(arr), n, reps, <double*>np.PyArray_DATA(out))
 
 
 cdef extern from "tile_1d_complex.h":
@@ -263,7 +263,7 @@ def tile_1d_complex_wrapper(np.ndarray[np.complex128_t, ndim=1, mode="c"] arr no
                             int reps,
                             np.ndarray[np.complex128_t, ndim=1, mode="c"] out not None):
     cdef int n = arr.shape[0]
-    tile_1d_nested_complex(<double complex*>&arr[0], n, reps, <double complex*>&out[0])
+    tile_1d_nested_complex(<double complex*>np.PyArray_DATA(arr), n, reps, <double complex*>np.PyArray_DATA(out))
 
 cdef extern from "naive_matmul_inplace.h":
     void naive_matmul_inplace(double *A, double *B, double *C, size_t N, size_t M, size_t K)
@@ -272,13 +272,13 @@ cdef extern from "naive_matmul_inplace.h":
 def naive_matmul_inplace_wrapper(np.ndarray[double, ndim=2, mode="c"] A not None,
                                  np.ndarray[double, ndim=2, mode="c"] B not None,
                                  np.ndarray[double, ndim=2, mode="c"] C not None):
-    naive_matmul_inplace(&A[0,0], &B[0,0], &C[0,0], A.shape[0], A.shape[1], B.shape[1])
+    naive_matmul_inplace(<double*>np.PyArray_DATA(A), <double*>np.PyArray_DATA(B), <double*>np.PyArray_DATA(C), A.shape[0], A.shape[1], B.shape[1])
 
 
 def naive_matmul_inplace2_wrapper(np.ndarray[double, ndim=2, mode="c"] A not None,
                                  np.ndarray[double, ndim=2, mode="c"] B not None,
                                  np.ndarray[double, ndim=2, mode="c"] C not None):
-    naive_matmul_inplace2(&A[0,0], &B[0,0], &C[0,0], A.shape[0], A.shape[1], B.shape[1])
+    naive_matmul_inplace2(<double*>np.PyArray_DATA(A), <double*>np.PyArray_DATA(B), <double*>np.PyArray_DATA(C), A.shape[0], A.shape[1], B.shape[1])
 
 
 cdef extern from "cs_matmul_inplace_complex.h":
@@ -297,9 +297,9 @@ def cs_matmul_inplace_complex_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not N
                                       np.ndarray[int, ndim=1, mode="c"] Cp not None,
                                       np.ndarray[int, ndim=1, mode="c"] Ci not None,
                                       np.ndarray[np.complex128_t, ndim=1, mode="c"] Cx not None):
-    cs_matmul_inplace_complex(&Ap[0], &Ai[0], <double complex*>&Ax[0], Anr, Anc,
-                              &Bp[0], &Bi[0], <double complex*>&Bx[0], Bnr, Bnc,
-                              &Cp[0], &Ci[0], <double complex*>&Cx[0])
+    cs_matmul_inplace_complex(<int*>np.PyArray_DATA(Ap), <int*>np.PyArray_DATA(Ai), <double complex*>np.PyArray_DATA(Ax), Anr, Anc,
+                              <int*>np.PyArray_DATA(Bp), <int*>np.PyArray_DATA(Bi), <double complex*>np.PyArray_DATA(Bx), Bnr, Bnc,
+                              <int*>np.PyArray_DATA(Cp), <int*>np.PyArray_DATA(Ci), <double complex*>np.PyArray_DATA(Cx))
     
     
 cdef extern from "cs_add_inplace_complex.h":
@@ -320,8 +320,8 @@ def cs_add_inplace_complex_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not None
                                    np.ndarray[int, ndim=1, mode="c"] Ci not None,
                                    np.ndarray[np.complex128_t, ndim=1, mode="c"] Cx not None,
                                    int Cnr, int Cnc):
-    cs_add_inplace_complex(&Ap[0], &Ai[0], <double complex*>&Ax[0],
-                           &Bp[0], &Bi[0], <double complex*>&Bx[0],
+    cs_add_inplace_complex(<int*>np.PyArray_DATA(Ap), <int*>np.PyArray_DATA(Ai), <double complex*>np.PyArray_DATA(Ax),
+                           <int*>np.PyArray_DATA(Bp), <int*>np.PyArray_DATA(Bi), <double complex*>np.PyArray_DATA(Bx),
                            <double complex>alpha, <double complex>beta,
-                           &Cp[0], &Ci[0], <double complex*>&Cx[0], Cnr, Cnc)
+                           <int*>np.PyArray_DATA(Cp), <int*>np.PyArray_DATA(Ci), <double complex*>np.PyArray_DATA(Cx), Cnr, Cnc)
     
\ No newline at end of file
-- 
2.43.0


From 9ef1f5c082775916c8e5e1d04dcb7a25d719d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 051/113] fix: float steps in jac_approx, jac_approx3 and
 jac_approx4 for integer points

---
 pystatsm/utilities/numerical_derivs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/utilities/numerical_derivs.py b/pystatsm/utilities/numerical_derivs.py
index bb414ca..11035a9 100644
--- a/pystatsm/utilities/numerical_derivs.py
+++ b/pystatsm/utilities/numerical_derivs.py
@@ -197,7 +197,7 @@ def jac_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False, ma
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
     tol = np.finfo(float).eps**(1/3) if tol is None else tol
-    H = np.zeros_like(X)
+    H = np.zeros_like(X, dtype=float)
     J = np.zeros(Y.shape+X.shape)
     if progress_bar:
         pbar = tqdm.tqdm(total=np.prod(Y.shape)*np.prod(X.shape))
@@ -247,7 +247,7 @@ def jac_approx3(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
     Y = np.asarray(Func(X, *args))
     
     tol = np.finfo(float).eps**(1/3) if tol is None else tol
-    H = np.zeros_like(X)
+    H = np.zeros_like(X, dtype=float)
     J = np.zeros(Y.shape+X.shape)
     
     if progress_bar:
@@ -270,7 +270,7 @@ def jac_approx4(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
     tol = np.finfo(float).eps**(1/3) if tol is None else tol
-    H = np.zeros_like(X)
+    H = np.zeros_like(X, dtype=float)
     J = np.zeros(Y.shape+X.shape)
     if progress_bar:
         pbar = tqdm.tqdm(total=np.prod(X.shape))
-- 
2.43.0


From e75b4eb0e6b9fa51e6de706a53913334bd40ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 052/113] fix: float steps in hess_approx for integer points

---
 pystatsm/utilities/numerical_derivs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/numerical_derivs.py b/pystatsm/utilities/numerical_derivs.py
index 11035a9..77895a1 100644
--- a/pystatsm/utilities/numerical_derivs.py
+++ b/pystatsm/utilities/numerical_derivs.py
@@ -293,7 +293,7 @@ def hess_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False,
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
     tol = np.finfo(float).eps**(1/3) if tol is None else tol
-    Hjj, Hkk = np.zeros_like(X), np.zeros_like(X)
+    Hjj, Hkk = np.zeros_like(X, dtype=float), np.zeros_like(X, dtype=float)
     J = np.zeros(Y.shape+X.shape+X.shape)
         
     if mask is None:
-- 
2.43.0


From cefe10237fed0e003f18830efb09a7a7caa3c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 053/113] fix: pass args on to the function in jac_approx* and
 hess_approx

---
 pystatsm/utilities/numerical_derivs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/utilities/numerical_derivs.py b/pystatsm/utilities/numerical_derivs.py
index 77895a1..f6deb61 100644
--- a/pystatsm/utilities/numerical_derivs.py
+++ b/pystatsm/utilities/numerical_derivs.py
@@ -192,7 +192,7 @@ def grad_approx(f, x, eps=1e-4, tol=None, d=1e-4, nr=6, v=2):
 
 
 def jac_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False, mask=None):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
@@ -240,7 +240,7 @@ def jac_approx2(f, x, eps=1e-4, tol=None, d=1e-4, nr=6, v=2):
     return A
 
 def jac_approx3(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     
     X = np.asarray(X)
@@ -265,7 +265,7 @@ def jac_approx3(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
 
 
 def jac_approx4(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
@@ -288,7 +288,7 @@ def jac_approx4(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
 
 
 def hess_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False,  mask=None):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
-- 
2.43.0


From 8190248402d864d184422a0404168020b18b719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 054/113] fix: float results of the bivariate normal functions
 for integer arguments

---
 pystatsm/pylvcorr/statfuncs.py   | 4 ++--
 pystatsm/utilities/func_utils.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pylvcorr/statfuncs.py b/pystatsm/pylvcorr/statfuncs.py
index 112a30c..e97e381 100644
--- a/pystatsm/pylvcorr/statfuncs.py
+++ b/pystatsm/pylvcorr/statfuncs.py
@@ -258,14 +258,14 @@ def binorm_cdf_old(h, k, r):
 
 @numba.jit(nopython=True)
 def _binorm_cdf_arr(h, k, r):
-    res = np.zeros_like(h)
+    res = np.zeros(h.shape)
     for ii in np.ndindex(*h.shape):
         res[ii] = binorm_cdf_jit(h[ii], k[ii], r)
     return res
 
 @numba.jit(nopython=True)
 def _binorm_pdf_arr(h, k, r):
-    res = np.zeros_like(h)
+    res = np.zeros(h.shape)
     for ii in np.ndindex(*h.shape):
         res[ii] = binorm_pdf_jit(h[ii], k[ii], r)
     return res
diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index 3be3838..e59ad16 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -743,14 +743,14 @@ def _binorm_cdf_arr(h, k, r):
         The values of the bivariate normal CDF at the specified arrays of `h` 
         and `k` values, and the given correlation coefficient `r`.
     """
-    res = np.zeros_like(h)
+    res = np.zeros(h.shape)
     for ii in np.ndindex(*h.shape):
         res[ii] = binorm_cdf_jit(h[ii], k[ii], r)
     return res
 
 @numba.jit(nopython=True)
 def _binorm_pdf_arr(h, k, r):
-    res = np.zeros_like(h)
+    res = np.zeros(h.shape)
     """
     Calculate the bivariate normal probability density function for each element
     of the input arrays.
-- 
2.43.0


From b5be0d27d04672225c99b91f86176a5a7c8713bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 055/113] fix: broadcast the arguments of binorm_cdf and
 binorm_pdf

---
 pystatsm/pylvcorr/statfuncs.py   | 8 ++++++--
 pystatsm/utilities/func_utils.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pylvcorr/statfuncs.py b/pystatsm/pylvcorr/statfuncs.py
index e97e381..b33d143 100644
--- a/pystatsm/pylvcorr/statfuncs.py
+++ b/pystatsm/pylvcorr/statfuncs.py
@@ -271,26 +271,30 @@ def _binorm_pdf_arr(h, k, r):
     return res
         
 def binorm_cdf(h, k, r):
-    if type(h) in [float, int]:
+    if type(h) in [float, int] and np.ndim(k) == 0:
         ret_float = True
     else:
         ret_float = False
     if np.ndim(r)>0:
         r = r[0]
     h, k = np.atleast_1d(h), np.atleast_1d(k)
+    if h.shape != k.shape:
+        h, k = [x.copy() for x in np.broadcast_arrays(h, k)]
     pr = _binorm_cdf_arr(h, k, r)
     if ret_float:
         pr = pr[0]
     return pr
 
 def binorm_pdf(h, k, r):
-    if type(h) in [float, int]:
+    if type(h) in [float, int] and np.ndim(k) == 0:
         ret_float = True
     else:
         ret_float = False
     if np.ndim(r)>0:
         r = r[0]
     h, k = np.atleast_1d(h), np.atleast_1d(k)
+    if h.shape != k.shape:
+        h, k = [x.copy() for x in np.broadcast_arrays(h, k)]
     p = _binorm_pdf_arr(h, k, r)
     if ret_float:
         p = p[0]
diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index e59ad16..ac166d2 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -803,13 +803,15 @@ def binorm_cdf(h, k, r):
         The value(s) of the bivariate normal CDF at the specified `h` and `k`
         values, and the given correlation coefficient `r`.
     """
-    if type(h) in [float, int]:
+    if type(h) in [float, int] and np.ndim(k) == 0:
         ret_float = True
     else:
         ret_float = False
     if np.ndim(r)>0:
         r = r[0]
     h, k = np.atleast_1d(h), np.atleast_1d(k)
+    if h.shape != k.shape:
+        h, k = [x.copy() for x in np.broadcast_arrays(h, k)]
     pr = _binorm_cdf_arr(h, k, r)
     if ret_float:
         pr = pr[0]
@@ -843,13 +845,15 @@ def binorm_pdf(h, k, r):
     This function uses the `_binorm_pdf_arr()` function to compute the 
     bivariate normal probability density function.
     """
-    if type(h) in [float, int]:
+    if type(h) in [float, int] and np.ndim(k) == 0:
         ret_float = True
     else:
         ret_float = False
     if np.ndim(r)>0:
         r = r[0]
     h, k = np.atleast_1d(h), np.atleast_1d(k)
+    if h.shape != k.shape:
+        h, k = [x.copy() for x in np.broadcast_arrays(h, k)]
     p = _binorm_pdf_arr(h, k, r)
     if ret_float:
         p = p[0]
-- 
2.43.0


From 1c09fca24f637568d3f94f8c34fe81f168cd1089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 056/113] fix: integrate the bivariate normal cdf over
 arcsin(r)

---
 pystatsm/utilities/func_utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index ac166d2..42b68a3 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -657,6 +657,11 @@ def binorm_dl_jit(h, k, r):
     return dldp
 
 
+@numba.jit(nopython=True)
+def _binorm_dl_angle(h, k, t):
+    return np.exp(-(h**2 - 2 * np.sin(t) * h * k + k**2) / (2 * np.cos(t)**2)) / TWOPI
+
+
 @numba.jit(nopython=True)
 def binorm_l2_jit(h, k, r):
     """
@@ -680,14 +685,15 @@ def binorm_l2_jit(h, k, r):
          The value of the bivariate normal distribution function at the 
          specified `h` and `k` values, and the given correlation coefficient `r`.
      """
-    r2 = r / 2.0
-    gsum = _GL32_W[0] * binorm_dl_jit(h, k, (1.0 + _GL32_X[0]) * r2)
+    # integrate over the angle arcsin(r): the integrand in r is singular at +-1
+    a2 = np.arcsin(r) / 2.0
+    gsum = _GL32_W[0] * _binorm_dl_angle(h, k, (1.0 + _GL32_X[0]) * a2)
     for i in range(1, 32):
         w = _GL32_W[i]
         root = _GL32_X[i]
-        gsum += w * binorm_dl_jit(h, k, (1.0 - root) * r2)
-        gsum += w * binorm_dl_jit(h, k, (1.0 + root) * r2)
-    likelihood = r2 * gsum
+        gsum += w * _binorm_dl_angle(h, k, (1.0 - root) * a2)
+        gsum += w * _binorm_dl_angle(h, k, (1.0 + root) * a2)
+    likelihood = a2 * gsum
     likelihood += norm_cdf_jit(-h) * norm_cdf_jit(-k)
     return likelihood
 
-- 
2.43.0


From 9abbd0d0c3fdcf469eff318c8570a01e241cf014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 057/113] fix: integrate the bivariate normal cdf over
 arcsin(r) in statfuncs

---
 pystatsm/pylvcorr/statfuncs.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pylvcorr/statfuncs.py b/pystatsm/pylvcorr/statfuncs.py
index b33d143..7713bcf 100644
--- a/pystatsm/pylvcorr/statfuncs.py
+++ b/pystatsm/pylvcorr/statfuncs.py
@@ -142,10 +142,12 @@ def binorm_l(h, k, r):
     likelihood += norm_cdf(-h) * norm_cdf(-k)
     return likelihood
 
+@numba.jit(nopython=True)
+def _binorm_dl_angle(h, k, t):
+    return np.exp(-(h**2 - 2 * np.sin(t) * h * k + k**2) / (2 * np.cos(t)**2)) / TWOPI
+
 @numba.jit(nopython=True)
 def binorm_l2_jit(h, k, r):
-    r2 = r/2.0
-    
     weights = np.array(
         [[1,  0.0494723666239310, 0.0000000000000000],
          [2,  0.0494118330399182, 0.0494521871161596],
@@ -180,16 +182,18 @@ def binorm_l2_jit(h, k, r):
          [31, 0.0042785083468638, 0.9962240127779701],
          [32, 0.0018398745955771, 0.9992829840291237]])
     
-    gsum = weights[0, 1] * binorm_dl_jit(h, k, (1.0 + weights[0, 2]) * r2)
+    # integrate over the angle arcsin(r): the integrand in r is singular at +-1
+    a2 = np.arcsin(r) / 2.0
+    gsum = weights[0, 1] * _binorm_dl_angle(h, k, (1.0 + weights[0, 2]) * a2)
     for i in range(1, 32):
         w = weights[i, 1]
         root = weights[i, 2]
-        eq1 = w * binorm_dl_jit(h, k, (1-root) * r2)
-        eq2 = w * binorm_dl_jit(h, k, (1+root) * r2)
+        eq1 = w * _binorm_dl_angle(h, k, (1-root) * a2)
+        eq2 = w * _binorm_dl_angle(h, k, (1+root) * a2)
         eq = eq1 + eq2
         gsum += eq
         
-    likelihood = r2 * (gsum)
+    likelihood = a2 * (gsum)
     likelihood += norm_cdf_jit(-h) * norm_cdf_jit(-k)
     return likelihood
 
-- 
2.43.0


From 2336296ed05face3fe9bb0b033d7a71d76d28ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 058/113] fix: divide by the squared cell probability in the
 polychoric Hessians

---
 pystatsm/pylvcorr/lvcorr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index 3896a13..05317ad 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -210,7 +210,7 @@ class _Polychor(object):
         gfn = self.gfunc(r)
         
         u = self.vecx / prb
-        v = self.vecx / np.maximum(prb**2, 1e-16)
+        v = self.vecx / prb**2
         
         H = u * gfn - v * phi**2
         return -np.sum(H)
@@ -703,7 +703,7 @@ class PolychoricCorr(object):
         gfn = self.gfunc(r, i, j)
         
         u = self.xcounts[i][j] / prb
-        v = self.xcounts[i][j] / np.maximum(prb**2, 1e-16)
+        v = self.xcounts[i][j] / prb**2
         H = u * gfn - v * phi**2
         H = -np.sum(H)
         return H
-- 
2.43.0


From 4f7217428d06d19917c38b60716fd8875e612a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 059/113] fix: divide by the squared cell probability in the
 Polychoric Hessian

---
 pystatsm/pylvcorr/lvcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index 05317ad..b282b2e 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -536,7 +536,7 @@ class Polychoric(object):
         Xcount = self.Xtab[self.II_ind[i, j]]
         
         u = Xcount / pr
-        v = Xcount / np.maximum(pr**2, 1e-16)
+        v = Xcount / pr**2
         H = u * d2p - v * dp**2
         H = -np.sum(H)
         return H
-- 
2.43.0


From f7b3a7aabee2a211ed515607cebb2fdc190de4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 060/113] fix: divide by the squared cell probability in the
 polychoric Hessians of polychoric

---
 pystatsm/pylvcorr/polychoric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylvcorr/polychoric.py b/pystatsm/pylvcorr/polychoric.py
index c5ff611..60a160b 100644
--- a/pystatsm/pylvcorr/polychoric.py
+++ b/pystatsm/pylvcorr/polychoric.py
@@ -252,7 +252,7 @@ class Polychor(object):
         prob = np.maximum(prob, 1e-16)
         counts = self.counts[self.II_ind[i1, i2]]
         u = counts / prob
-        v = counts / np.maximum(prob**2, 1e-16)
+        v = counts / prob**2
         H = np.einsum("ij,ij,ij->", dp, v, dp) - np.einsum("ij,ij->", u, dp2)
         return H
     
@@ -261,7 +261,7 @@ class Polychor(object):
         prob = np.maximum(prob, 1e-16)
         counts = self.counts[self.II_ind[i1, i2]]
         u = counts / prob
-        v = counts / np.maximum(prob**2, 1e-16)
+        v = counts / prob**2
         H = np.einsum("ijl,ij,ijk->lk",dp, v, dp) - np.einsum("ij,ijkl->kl", u, dp2)
         return H
     
-- 
2.43.0


From db154deaa5d5dff8b5a874b126d94aa6080547f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 061/113] fix: divide by the squared cell probability in the
 polychoric Hessians of polychoric2

---
 pystatsm/pylvcorr/polychoric2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylvcorr/polychoric2.py b/pystatsm/pylvcorr/polychoric2.py
index b4c09e6..f051038 100644
--- a/pystatsm/pylvcorr/polychoric2.py
+++ b/pystatsm/pylvcorr/polychoric2.py
@@ -280,7 +280,7 @@ class Polychor(object):
         prob = np.maximum(prob, 1e-16)
         counts = self.counts[self.II_ind[i1, i2]]
         u = counts / prob
-        v = counts / np.maximum(prob**2, 1e-16)
+        v = counts / prob**2
         H = np.einsum("ij,ij,ij->", dp, v, dp) - np.einsum("ij,ij->", u, dp2)
         return H
 
@@ -289,7 +289,7 @@ class Polychor(object):
         prob = np.maximum(prob, 1e-16)
         counts = self.counts[self.II_ind[i1, i2]]
         u = counts / prob
-        v = counts / np.maximum(prob**2, 1e-16)
+        v = counts / prob**2
         H = np.einsum("ijl,ij,ijk->lk",dp, v, dp) - np.einsum("ij,ijkl->kl", u, dp2)
         return H
 
-- 
2.43.0


From 1c56dd5dd5c1f3e934f53a851ea317609dab041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 062/113] fix: divide by the squared cell probability in
 _PairWorkspace

---
 pystatsm/pylvcorr/polychoric2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylvcorr/polychoric2.py b/pystatsm/pylvcorr/polychoric2.py
index f051038..b3aa089 100644
--- a/pystatsm/pylvcorr/polychoric2.py
+++ b/pystatsm/pylvcorr/polychoric2.py
@@ -49,7 +49,7 @@ class _PairWorkspace:
 
     def hessian(self):
         u = self.counts / self.prob
-        v = self.counts / np.maximum(self.prob ** 2, 1e-16)
+        v = self.counts / self.prob ** 2
         return np.sum(self.dp_dr ** 2 * v) - np.sum(u * self.d2p_dr2)
 
 
-- 
2.43.0


From f2a65f7ac35c8744cfbabee5cfbec4a319cce6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 063/113] fix: standardise the continuous variable in
 Polyserial

---
 pystatsm/pylvcorr/lvcorr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index b282b2e..1c32b98 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -299,6 +299,7 @@ class Polyserial:
                             tau_arr.tolist()))
         y_ordered = dcrep(y, order)
         tau1, tau2 = dcrep(y_ordered, tau_dict),  dcrep(y_ordered+1, tau_dict)
+        x = (x - np.mean(x)) / np.std(x)
         self.order, self.marginal_counts = order, marginal_counts
         self.tau_arr, self.y_ordered = tau_arr, y_ordered
         self.tau1, self.tau2 = tau1, tau2
-- 
2.43.0


From fa7dc3e0f9e3f169801205f2abb69b7f1afe1b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 064/113] fix: missing values and outer=False in Polychoric

---
 pystatsm/pylvcorr/lvcorr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index 1c32b98..b1ecaab 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -441,7 +441,8 @@ class Polychoric(object):
                                                             Thresholds[i],
                                                             Thresholds[j]
                                                             )
-            rho_inits[ii] = corr(X[:,i], X[:, j])
+            ij = ~np.isnan(X[:, [i, j]]).any(axis=1)
+            rho_inits[ii] = corr(X[ij, i], X[ij, j])
             
             
         
@@ -457,12 +458,13 @@ class Polychoric(object):
         self.XThresholds, self.Xtab = XThresholds, Xtab
         
     def _get_threshold(self, x, outer=True):
+        x = x[~np.isnan(x)]
         vals, counts = np.unique(x, return_counts=True)
         t_inner = sp.special.ndtri(np.cumsum(counts)[:-1] / np.sum(counts))
         if outer:
             t = np.r_[-1e6, t_inner, 1e6]
         else:
-            t = t
+            t = t_inner
         return t
     
     def _init_crosstab(self, xi, xj, ti=None, tj=None):
-- 
2.43.0


From cc3afe6097962b1513c6df4ccaf4f2b77ce6e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 065/113] fix: missing values in PolychoricCorr thresholds

---
 pystatsm/pylvcorr/lvcorr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index b1ecaab..c131681 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -613,6 +613,7 @@ class PolychoricCorr(object):
         self.R_se = np.zeros((self.p, self.p))
     
     def _get_threshold(self, x):
+        x = x[~np.isnan(x)]
         vals, counts = np.unique(x, return_counts=True)
         t_inner = sp.special.ndtri(np.cumsum(counts)[:-1] / np.sum(counts))
         t = np.r_[-1e6, t_inner, 1e6]
-- 
2.43.0


From 2f11f19d191ec37c3b355748b063e43e4cf329a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 066/113] fix: code categories 0, 1, ... in Polychor

---
 pystatsm/pylvcorr/polychoric.py  | 2 +-
 pystatsm/pylvcorr/polychoric2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylvcorr/polychoric.py b/pystatsm/pylvcorr/polychoric.py
index 60a160b..cda6fe3 100644
--- a/pystatsm/pylvcorr/polychoric.py
+++ b/pystatsm/pylvcorr/polychoric.py
@@ -24,7 +24,7 @@ class Polychor(object):
     def __init__(self, data):
         self.data = data
         self.X = data.values.astype(int)
-        self.X = self.X - np.min(self.X, axis=0)
+        self.X = np.column_stack([np.unique(x, return_inverse=True)[1] for x in self.X.T])
         self.n, self.p = self.X.shape
         self.N_cats = np.array([len(np.unique(self.X[:, i])) for i in range(self.p)]).astype(int)
         self.transform_list = [param_transforms.OrderedTransform,
diff --git a/pystatsm/pylvcorr/polychoric2.py b/pystatsm/pylvcorr/polychoric2.py
index b3aa089..1d79bec 100644
--- a/pystatsm/pylvcorr/polychoric2.py
+++ b/pystatsm/pylvcorr/polychoric2.py
@@ -61,7 +61,7 @@ class Polychor(object):
         self.data = data
         self.cols = self.data.columns.tolist()
         self.X = data.values.astype(int)
-        self.X = self.X - np.min(self.X, axis=0)
+        self.X = np.column_stack([np.unique(x, return_inverse=True)[1] for x in self.X.T])
         self.n, self.p = self.X.shape
         self.N_cats = np.array([len(np.unique(self.X[:, i])) for i in range(self.p)]).astype(int)
         self.transform_list = [param_transforms.OrderedTransform,
-- 
2.43.0


From 46ee851aadea2f96ef5e5e668345dadeca13e13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 067/113] fix: keep categories without complete pairs in the
 Polychoric tables

---
 pystatsm/pylvcorr/lvcorr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index c131681..f57571d 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -468,11 +468,12 @@ class Polychoric(object):
         return t
     
     def _init_crosstab(self, xi, xj, ti=None, tj=None):
-        not_nan = ~(np.isnan(xi) | np.isnan(xj))
-        xi, xj = xi[not_nan], xj[not_nan]
         ti = self._get_threshold(xi) if ti is None else ti
         tj = self._get_threshold(xj) if tj is None else tj
-        _, xtab = sp.stats.contingency.crosstab(xi, xj)
+        levels = [np.unique(x[~np.isnan(x)]) for x in (xi, xj)]
+        not_nan = ~(np.isnan(xi) | np.isnan(xj))
+        xi, xj = xi[not_nan], xj[not_nan]
+        _, xtab = sp.stats.contingency.crosstab(xi, xj, levels=levels)
         mi, mj = xtab.shape
 
         ui_ind, uj_ind = np.meshgrid(np.arange(1, mi+1), np.arange(1, mj+1), indexing="ij")
-- 
2.43.0


From 811206dd7a904ae958d50f5880815076d8d1e8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 068/113] fix: arguments of bspline_basis and bspline_penalty

---
 pystatsm/utilities/splines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/splines.py b/pystatsm/utilities/splines.py
index e284575..b0ccc65 100644
--- a/pystatsm/utilities/splines.py
+++ b/pystatsm/utilities/splines.py
@@ -168,7 +168,7 @@ def bspline_penalty(all_knots, knots, degree, penalty=2, intercept=False):
     pord = penalty-1
     h1 = np.repeat(np.diff(knots)/pord, pord)
     k1 = np.concatenate((np.array([knots[0]]), h1)).cumsum()
-    G = bspline_basis(k1, all_knots, degree, deriv=2, intercept=False)
+    G = bspline_basis(k1, all_knots, deriv=2, degree=degree)
     a = np.tile(np.linspace(-1, 1, pord+1), pord+1)
     b = np.repeat(np.arange(0, pord+1), pord+1)
     P = (a**b).reshape(pord+1, pord+1, order='F')
@@ -236,7 +236,7 @@ def _get_crsplines(x, df=10):
     
 def _get_bsplines(x, df=10):
     knots, inner_knots = bspline_knots(x, df)
-    F, S = bspline_penalty(knots, inner_knots)
+    F, S = bspline_penalty(knots, inner_knots, 3)
     X = bspline_basis(x, knots, deriv=0)
     fkws = {"deriv":0}
     return X, S, knots, fkws
-- 
2.43.0


From 331eafcc14003dad7fe3cb21f5bf7f64f14f73ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 069/113] fix: order of the derivative in bspline_penalty

---
 pystatsm/utilities/splines.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/splines.py b/pystatsm/utilities/splines.py
index b0ccc65..2f1a954 100644
--- a/pystatsm/utilities/splines.py
+++ b/pystatsm/utilities/splines.py
@@ -165,10 +165,17 @@ def ccspline_basis(x, knots, F):
     return X
 
 def bspline_penalty(all_knots, knots, degree, penalty=2, intercept=False):
-    pord = penalty-1
+    pord = degree - penalty
+    if pord < 0:
+        raise ValueError("The order of the penalty must not exceed the degree")
+    if pord == 0:
+        mid = (knots[1:] + knots[:-1]) / 2
+        G = bspline_basis(mid, all_knots, deriv=penalty, degree=degree)
+        D = np.sqrt(np.diff(knots)).reshape(-1, 1) * G
+        return D, D.T.dot(D)
     h1 = np.repeat(np.diff(knots)/pord, pord)
     k1 = np.concatenate((np.array([knots[0]]), h1)).cumsum()
-    G = bspline_basis(k1, all_knots, deriv=2, degree=degree)
+    G = bspline_basis(k1, all_knots, deriv=penalty, degree=degree)
     a = np.tile(np.linspace(-1, 1, pord+1), pord+1)
     b = np.repeat(np.arange(0, pord+1), pord+1)
     P = (a**b).reshape(pord+1, pord+1, order='F')
-- 
2.43.0


From 11b970e5d43f567b219f30286bc3e067257ee059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 070/113] fix: fixed number of knots in equispaced_knots

---
 pystatsm/utilities/splines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/splines.py b/pystatsm/utilities/splines.py
index 2f1a954..990a006 100644
--- a/pystatsm/utilities/splines.py
+++ b/pystatsm/utilities/splines.py
@@ -59,7 +59,7 @@ def equispaced_knots(x, degree, ndx):
     order = degree + 1
     lb = xl - order * dx
     ub = xr + order * dx
-    knots = np.arange(xl - order * dx, xr + order * dx, dx)
+    knots = xl + dx * np.arange(-order, ndx + order)
     return knots, order, lb, ub
 
 def _bspline(x, knots, degree, deriv=0):
-- 
2.43.0


From bd4f8e00d6197708d30efd8bd3fca0567e7f56b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 071/113] fix: cyclic splines with three knots

---
 pystatsm/utilities/splines.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pystatsm/utilities/splines.py b/pystatsm/utilities/splines.py
index 990a006..b765634 100644
--- a/pystatsm/utilities/splines.py
+++ b/pystatsm/utilities/splines.py
@@ -26,11 +26,11 @@ def _cc_mats(h, n):
     B = np.zeros((n, n))
     D = np.zeros((n, n))
     B[0, 0] = (h[-1]+h[0]) / 3
-    B[0, 1] = h[0] / 6
-    B[0,-1] = h[-1] / 6
+    B[0, 1] += h[0] / 6
+    B[0,-1] += h[-1] / 6
     D[0, 0] = -(1/h[0]+1/h[-1])
-    D[0, 1] = 1 / h[0]
-    D[0,-1] = 1 / h[-1]
+    D[0, 1] += 1 / h[0]
+    D[0,-1] += 1 / h[-1]
     for i in range(1, n-1):
         B[i, i-1] = h[i-1] / 6
         B[i, i] = (h[i-1] + h[i]) / 3
@@ -38,12 +38,12 @@ def _cc_mats(h, n):
         D[i, i-1] = 1 / h[i-1]
         D[i, i] = -(1 / h[i-1] + 1 / h[i])
         D[i, i+1] = 1 / h[i]
-    B[-1, -2] = h[-2] / 6
+    B[-1, -2] += h[-2] / 6
     B[-1, -1] = (h[-2] + h[-1]) / 3
-    B[-1, 0] = h[-1] / 6
-    D[-1, -2] = 1 / h[-2]
+    B[-1, 0] += h[-1] / 6
+    D[-1, -2] += 1 / h[-2]
     D[-1, -1] = -(1 / h[-2] + 1 / h[-1])
-    D[-1, 0] = 1 / h[-1]
+    D[-1, 0] += 1 / h[-1]
     return D, B
 
 
-- 
2.43.0


From da864ff6a9163decb86bc71c8d12d3cde9a589f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 072/113] fix: natural cubic splines with three knots

---
 pystatsm/utilities/splines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/splines.py b/pystatsm/utilities/splines.py
index b765634..a4a9f54 100644
--- a/pystatsm/utilities/splines.py
+++ b/pystatsm/utilities/splines.py
@@ -216,7 +216,7 @@ def bspline_penalty(all_knots, knots, degree, penalty=2, intercept=False):
 def crspline_penalty(knots, ret_s=True):
     n, h = len(knots), np.diff(knots)
     D, ldb = _cr_mats(n, h)
-    sdb = h[1:-1]/6
+    sdb = h[1:-1]/6 if n > 3 else np.zeros(1)
     dptsv = sp.linalg.get_lapack_funcs("ptsv")
     ldb, sdb, BinvD, info = dptsv(ldb, sdb, D)
     F = np.concatenate((np.zeros((1, n)), BinvD, np.zeros((1, n))), axis=0)
-- 
2.43.0


From 4a8bf870ac94da01f81c7e7f000cfd1983fdc3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 073/113] fix: penalty log-determinant over the rank of the
 penalty

---
 pystatsm/pygam/smooth_setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pygam/smooth_setup.py b/pystatsm/pygam/smooth_setup.py
index f152958..e34e627 100644
--- a/pystatsm/pygam/smooth_setup.py
+++ b/pystatsm/pygam/smooth_setup.py
@@ -113,7 +113,7 @@ def get_smooth_matrices(Xp, smooths, n_smooth_terms, n_total_params):
         X.append(smooths[var]['X'])
         S[i] = Si
         ranks.append(np.linalg.matrix_rank(Si))
-        u = np.linalg.eigvals(s['S'])
-        ldS.append(np.log(u[u>np.finfo(float).eps]).sum())
+        u = np.sort(np.linalg.eigvalsh(s['S']))[::-1]
+        ldS.append(np.log(u[:ranks[-1]]).sum())
     return X, S, ranks, ldS
 
-- 
2.43.0


From be6339b8cae83254f91b7e865d8ab8895a22bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 074/113] fix: use the b given to LogbLink

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index eebf2ad..7de7c92 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -22,7 +22,7 @@ from ..utilities.optimizer_utils import MemoizeGradHess
 class LogbLink(Link):
 
     def __init__(self, b=0.01):
-        self.b = 0.01
+        self.b = b
 
     def link(self, mu):
         return np.log(1.0 / mu - self.b)
-- 
2.43.0


From eba471ca16b94288c5636dc1f6a57204709748c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 075/113] fix: location-scale models without smooth terms in
 the location

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 7de7c92..b64d89b 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -661,7 +661,7 @@ class GauLS:
         for i, (r, lds) in enumerate(list(zip(self.m.ranks, self.m.ldS))):
             logdet += r * rho[i] + lds
         for j, (r, lds) in enumerate(list(zip(self.s.ranks, self.s.ldS))):
-            logdet += r * rho[j+i+1] + lds
+            logdet += r * rho[j+self.ns_m] + lds
         return logdet
 
     def reml(self, rho):
-- 
2.43.0


From a7973008154cce981e641d6b20f02263494a9cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 076/113] fix: effective degrees of freedom and frequentist
 covariance of GaussianAdditiveModel

---
 pystatsm/pygam/gaussian_additive_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index aff5b45..bda5191 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -268,12 +268,12 @@ class GaussianAdditiveModel:
         Jb = self.grad_beta_rho(beta, lambda_)
         C = Jb.dot(Vp[:-1, :-1]).dot(Jb.T)
         Vc = Vb + C
-        Vf = Vb.dot(XtX*scale).dot(Vb) + C
+        Vf = Vb.dot(XtX/scale).dot(Vb) + C
         self.Slambda = Slambda
         self.Vb, self.Vp, self.Vc, self.Vf = Vb, Vp, Vc, Vf
         self.opt, self.theta, self.scale = opt, theta, scale
         self.beta, self.eta, self.dev = beta, eta, dev
-        self.edf = np.trace(np.linalg.inv(Vb*XtX/scale))
+        self.edf = np.trace(Vb.dot(XtX)/scale)
         
     def fit(self, opt_kws={}, confint=95):
         self.optimize_penalty(opt_kws=opt_kws)
-- 
2.43.0


From 00a042f1b1acb6dbb9e684bec537f1129f19b416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 077/113] fix: count only observed strata and clusters of
 categorical labels

---
 pystatsm/utilities/complexdesign/sample_design.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/utilities/complexdesign/sample_design.py b/pystatsm/utilities/complexdesign/sample_design.py
index da9d63b..000245d 100644
--- a/pystatsm/utilities/complexdesign/sample_design.py
+++ b/pystatsm/utilities/complexdesign/sample_design.py
@@ -46,16 +46,16 @@ def _ensure_columns(df, strata, psuind):
 
 
 def _has_singletons(df, strata, psuind):
-    sizes = df.groupby([strata, psuind]).size()
-    return bool((sizes.groupby(strata).size() == 1).any())
+    sizes = df.groupby([strata, psuind], observed=True).size()
+    return bool((sizes.groupby(strata, observed=True).size() == 1).any())
 
 
 def _aggregate_singletons(df, strata, psuind):
     # Each stratum that has exactly one PSU gets folded into a single new
     # stratum, with its sole PSU re-numbered 0..k-1 to guarantee no collision
     # with existing PSU ids in the new stratum.
-    sizes = df.groupby([strata, psuind]).size()
-    n_psu_per_str = sizes.groupby(strata).size()
+    sizes = df.groupby([strata, psuind], observed=True).size()
+    n_psu_per_str = sizes.groupby(strata, observed=True).size()
     singletons = n_psu_per_str[n_psu_per_str == 1].index
     if len(singletons) == 0:
         return df
@@ -69,8 +69,8 @@ def _aggregate_singletons(df, strata, psuind):
 
 
 def _build_layout(df, strata, psuind, fpc):
-    sizes = df.groupby([strata, psuind]).size().reset_index(name="n")
-    n_psu_per_str = sizes.groupby(strata).size().to_numpy(dtype=np.int64)
+    sizes = df.groupby([strata, psuind], observed=True).size().reset_index(name="n")
+    n_psu_per_str = sizes.groupby(strata, observed=True).size().to_numpy(dtype=np.int64)
     n_psu_obs = sizes["n"].to_numpy(dtype=np.int64)
     n_str = n_psu_per_str.size
     n_grp = n_psu_obs.size
-- 
2.43.0


From 94ac193afd92f5256cf3b202c8fe45068b5a239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 078/113] fix: collapse single-cluster strata with labels that
 are not numbers

---
 pystatsm/utilities/complexdesign/sample_design.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pystatsm/utilities/complexdesign/sample_design.py b/pystatsm/utilities/complexdesign/sample_design.py
index 000245d..0112f44 100644
--- a/pystatsm/utilities/complexdesign/sample_design.py
+++ b/pystatsm/utilities/complexdesign/sample_design.py
@@ -60,6 +60,14 @@ def _aggregate_singletons(df, strata, psuind):
     if len(singletons) == 0:
         return df
     df = df.copy()
+    for col in (strata, psuind):
+        # strings, categories, dates and narrow integers have no free label
+        # "max + 1": work on their sorted integer codes
+        if df[col].dtype not in (np.int64, np.float64):
+            codes, labels = pd.factorize(df[col], sort=True)
+            df[col] = codes.astype(np.int64)
+            if col == strata:
+                singletons = labels.get_indexer(singletons)
     new_stratum = df[strata].max() + 1
     new_psu = {s: i for i, s in enumerate(singletons)}
     mask = df[strata].isin(singletons)
-- 
2.43.0


From ab2d7af637358de5e0ff4ef6825ac0da0ea1fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 079/113] fix: finite-population corrections given as a list

---
 pystatsm/utilities/complexdesign/sample_design.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/utilities/complexdesign/sample_design.py b/pystatsm/utilities/complexdesign/sample_design.py
index 0112f44..da38cf2 100644
--- a/pystatsm/utilities/complexdesign/sample_design.py
+++ b/pystatsm/utilities/complexdesign/sample_design.py
@@ -86,6 +86,8 @@ def _build_layout(df, strata, psuind, fpc):
         fpc = np.zeros(n_str)
     elif np.shape(fpc) != (n_str,):
         raise ValueError(f"fpc must have shape ({n_str},), got {np.shape(fpc)}")
+    else:
+        fpc = np.asarray(fpc, dtype=np.float64)
     # ssf = (1 - f_h) * n_h / (n_h - 1); singleton strata (n_h == 1) cannot
     # contribute within-stratum variation, so zero out their scaling. This
     # matches R survey's lonely.psu="remove" behavior.
-- 
2.43.0


From 686c3aa286a0f78d4277fa173ac00f685835dc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 080/113] fix: replication summaries with one parameter

---
 pystatsm/utilities/complexdesign/replication.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/complexdesign/replication.py b/pystatsm/utilities/complexdesign/replication.py
index 67d7750..d3b3067 100644
--- a/pystatsm/utilities/complexdesign/replication.py
+++ b/pystatsm/utilities/complexdesign/replication.py
@@ -83,7 +83,7 @@ class ReplicationResult:
         return self.params.mean(axis=0) - self.theta_true
 
     def empirical_cov(self):
-        return np.cov(self.params.T, ddof=1)
+        return np.atleast_2d(np.cov(self.params.T, ddof=1))
 
     def mean_analytical_cov(self):
         return self.Vs.mean(axis=0)
-- 
2.43.0


From 65826b0810bdcc81ec9a95978092801dc455fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 081/113] fix: Hessian of the concentrated discrepancy where
 small eigenvalues coincide

---
 pystatsm/pyfa2/likelihood.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pystatsm/pyfa2/likelihood.py b/pystatsm/pyfa2/likelihood.py
index af31712..d9df201 100644
--- a/pystatsm/pyfa2/likelihood.py
+++ b/pystatsm/pyfa2/likelihood.py
@@ -99,13 +99,13 @@ class MLEstimator:
         B = np.zeros((p, p))
         for i in range(r):
             A = np.outer(V[:, i], V[:, i])
-            b1 = (2 * u[i] - 1) * A
-            diffs = u[i] - u
-            inv = np.zeros_like(diffs)
-            np.divide(1.0, diffs, out=inv, where=np.abs(diffs) > 1e-12)
-            pinv_term = np.matmul(V * inv, V.T)
-            b2 = 2 * u[i] * (u[i] - 1) * pinv_term
-            B += (b1 + b2) * A
+            # coefficients of the other eigenvectors; among the r smallest the
+            # two halves of a pair are combined, which removes the difference
+            # of (possibly equal) eigenvalues from the denominator
+            c = np.empty(p)
+            c[:r] = u[i] + u[:r] - 1
+            c[r:] = 2 * u[i] * (u[i] - 1) / (u[i] - u[r:])
+            B += np.matmul(V * c, V.T) * A
         inv_psi = (1.0 / psi).reshape(-1, 1)
         return inv_psi * B * inv_psi.T
 
-- 
2.43.0


From d263cf19b0842752f2c637f93485d927287fee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 082/113] fix: column weight of the quartimax criterion

---
 pystatsm/pyfa2/criterion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa2/criterion.py b/pystatsm/pyfa2/criterion.py
index 8cda5b7..3d8b71c 100644
--- a/pystatsm/pyfa2/criterion.py
+++ b/pystatsm/pyfa2/criterion.py
@@ -6,7 +6,7 @@ def _gcf_constants(method, p, m):
     if method == 'varimax':
         return (0.0, (p - 1) / p, 1 / p, -1.0)
     if method == 'quartimax':
-        return (0.0, 1.0, 1.0, -1.0)
+        return (0.0, 1.0, 0.0, -1.0)
     if method == 'equamax':
         return (0.0, 1 - m / (2.0 * p), m / (2.0 * p), -1.0)
     if method == 'parsimax':
-- 
2.43.0


From f0380819a582eeb1c9be08d2e478cb86d26483d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 083/113] fix: column weight of the quartimax criterion in pyfa

---
 pystatsm/pyfa/rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index 856026c..a804083 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -175,7 +175,7 @@ def get_gcf_constants(method, p, m):
     if method == 'varimax':
         consts = dict(k1=0.0, k2=(p-1)/p, k3=1/p, k4=-1)
     elif method == 'quartimax':
-        consts = dict(k1=0.0, k2=1, k3=1, k4=-1)
+        consts = dict(k1=0.0, k2=1, k3=0, k4=-1)
     elif method == 'equamax':
         consts = dict(k1=0.0, k2=1-m/(2.0 * p), k3=m/(2.0 * p), k4=-1)
     elif method == 'parsimax':
@@ -197,7 +197,7 @@ class GeneralizedCrawfordFerguson(RotationMethod):
         elif method == 'quartimax':
             k1 = 0.0
             k2 = 1.0
-            k3 = 1.0
+            k3 = 0.0
             k4 = -1.0
         elif method == 'equamax':
             k1 = 0.0
-- 
2.43.0


From 88dde3ff64e4b115d31688c37061669eae5ff71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 084/113] fix: covariance of aligned factor solutions in the
 simulation study

---
 pystatsm/pyfa2/sim_factor_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa2/sim_factor_model.py b/pystatsm/pyfa2/sim_factor_model.py
index a830d7e..906d833 100644
--- a/pystatsm/pyfa2/sim_factor_model.py
+++ b/pystatsm/pyfa2/sim_factor_model.py
@@ -87,7 +87,7 @@ def run(p, m, n_obs, n_rep, rotation_kind='ortho', seed=0):
         theta_a = est.layout.pack(L_a, Phi_a, psi)
         M = alignment_matrix(est.layout, free_mask, perm, signs)
         thetas[r] = theta_a[free_mask]
-        Vs[r] = np.matmul(np.matmul(M, V, M.T))
+        Vs[r] = np.matmul(np.matmul(M, V), M.T)
         L_ests[r], Phi_ests[r], psi_ests[r] = L_a, Phi_a, psi
 
     # ---- theta-level diagnostics --------------------------------------------
-- 
2.43.0


From 7471f932ba2b39a0438ed5acf8b5b8f7b8952e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 085/113] fix: readmit variables dropped too early by the
 Gaussian elastic net

---
 pystatsm/pyglmnet/gaussian_eln.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/gaussian_eln.py b/pystatsm/pyglmnet/gaussian_eln.py
index 73076b6..0eb3082 100644
--- a/pystatsm/pyglmnet/gaussian_eln.py
+++ b/pystatsm/pyglmnet/gaussian_eln.py
@@ -87,7 +87,14 @@ def eln_cd(X, y, Xsq, alpha, lambda_, b, active, n_iters=1000, dtol=1e-5, btol=1
         f_new = msr + pen
         if (f_old - f_new)<dtol:
             fvals[i+1] = msr, pen, f_new
-            break
+            # variables set to zero earlier have to satisfy their own
+            # optimality condition, those that do not are readmitted
+            g = np.abs(X.T.dot(r))
+            viol = (~active) & ((g > la + 1e-9 * np.max(g)) | (b != 0))
+            if not np.any(viol):
+                break
+            active = active | viol
+            f_old = f_new
         else:
             f_old = f_new
             beta_hat = b
-- 
2.43.0


From e1e39292fefd4a24ed2de2cf7464af4450e08011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 086/113] fix: sign of the L1 part of the elastic net gradient

---
 pystatsm/pyglmnet/gaussian_eln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/gaussian_eln.py b/pystatsm/pyglmnet/gaussian_eln.py
index 0eb3082..4beb2e1 100644
--- a/pystatsm/pyglmnet/gaussian_eln.py
+++ b/pystatsm/pyglmnet/gaussian_eln.py
@@ -118,7 +118,7 @@ def elnet(X, y, lambda_, alpha=0.99, b=None, active=None, n_iters=1000, dtol=1e-
 def elnet_grad(b, X, y, lambda_, alpha):
     n = y.shape[0]
     r = y - X.dot(b)
-    g = -1.0 / n * X.T.dot(r) + lambda_ * (1 - alpha) * b + lambda_*alpha
+    g = -1.0 / n * X.T.dot(r) + lambda_ * (1 - alpha) * b + lambda_*alpha*np.sign(b)
     return g
   
 
-- 
2.43.0


From eda4679ae44f019a1b5b7a6c9d8ad494d012575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 087/113] fix: readmit variables dropped too early by the
 binomial elastic net

---
 pystatsm/pyglmnet/binomial_eln.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index 926698e..2f9502a 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -271,18 +271,24 @@ def _binom_glmnet(b, X, Xsq, y, la, dla, acs, ix, n, n_iters=2000,
         w = mu * muconj
         r = y - mu
         fvals[i] = -2.0*np.sum(y * np.log(mu) + np.log(muconj) * yconj)/n
-        b_new, b0, acs_new, xvd = binom_glm_cd(b.copy(), b0, X, Xsq, r, w, xv, la, dla, 
-                                               acs, ix, n)
-        
-        if np.max(xvd) < btol:
-            break
-        if i>0 and 0<(fvals[i-1]-fvals[i])<dtol:
-            break
+        xv[:] = 0.0
+        b_new, b0_new, acs_new, xvd = binom_glm_cd(b.copy(), b0, X, Xsq, r, w, xv, la, dla, 
+                                                   acs, ix, n)
+        b0_new = b0_new * intercept
+        dx = max(np.max(xvd), (b0_new - b0)**2 * np.sum(w) / n)
+        if dx < btol or (i>0 and 0<(fvals[i-1]-fvals[i])<dtol):
+            # variables set to zero earlier have to satisfy their own
+            # optimality condition, those that do not are readmitted
+            g = np.abs(X.T.dot(r)) / n
+            viol = (~acs) & ((g > la + 1e-9 * np.max(g)) | (b != 0))
+            if not np.any(viol):
+                break
+            acs = acs | viol
         else:
-            b = b_new
-        if nr_ent:
-            acs = acs_new
-    return b, b0, acs, fvals[:i]
+            b, b0 = b_new, b0_new
+            if nr_ent:
+                acs = acs_new
+    return b, b0, acs, fvals[:i+1]
 
 
 def binom_glmnet(X, y, lambda_, alpha, b=None, active=None, n_iters=2000, 
-- 
2.43.0


From 9020ca828880d0b113e5a9f79cd8dd8ec25a733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 088/113] fix: intercept in the held-out deviance of
 cv_binom_glmnet

---
 pystatsm/pyglmnet/binomial_eln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index 2f9502a..2f673c5 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -498,7 +498,7 @@ def cv_binom_glmnet(cv, X, y, alpha=0.99, lambdas=None, b=None, btol=1e-4, dtol=
                                        active=active, btol=btol, dtol=dtol,
                                        n_iters=n_iters, pmin=pmin,nr_ent=nr_ent, 
                                        intercept=intercept)
-            fi = binom_eval(yt[k], Xt[k].dot(bi), bi, alpha, lambda_)
+            fi = binom_eval(yt[k], Xt[k].dot(bi) + b0, bi, alpha, lambda_)
             betas_cv[i+1, k] = bi
             b0s_cv[i+1, k] = b0
             fvals[i, k] = fi
-- 
2.43.0


From d83ace7d6e9b0c55af028ee0679c124148502e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 089/113] fix: binomial deviance of integer responses

---
 pystatsm/pyglmnet/binom_eln2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 20b3696..dd0bc57 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -25,7 +25,7 @@ def binomial_deviance(y, mu, weights):
     ixa = y==0
     ixc = y==1
     ixb = (~ixa)&(~ixc)
-    d = np.zeros_like(y)
+    d = np.zeros_like(mu)
     u = (1 - y)[ixb]
     v = (1 - mu)[ixb]
     d[ixa] = -np.log(1-mu[ixa])
-- 
2.43.0


From 850aafaf485924fa25ae292f6c0454f33de3b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 090/113] fix: observation weights in the binomial elastic net
 updates

---
 pystatsm/pyglmnet/binom_eln2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index dd0bc57..1de4a2e 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -134,13 +134,14 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
         betas = None
     eta, mu, w = get_eta_mu(X, beta[1:], beta[0])
     weights = weights / np.sum(weights)
-    r = (y - mu)
+    n = len(y)
+    r, w = n * weights * (y - mu), n * weights * w
     fvals[0] = objective_function(y, mu, weights, beta[1:], alpha, halc, lam)
     for i in range(1, n_iters):
         b, b0, active = _welnet_cd(X, Xsq, r, w , alpha, lam, beta.copy(),
                                    active, index, max_iters, dtol)
         eta, mu, w = get_eta_mu(X, b, b0)
-        r = (y - mu)
+        r, w = n * weights * (y - mu), n * weights * w
         fvals[i] = objective_function(y, mu, weights, b, alpha, halc, lam)
         ii = 0
         if fvals[i]>fvals[i-1]+1e-7:
@@ -151,7 +152,7 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
                 b = (beta[1:] + b) / 2
                 b0 = (beta[0] + b0) / 2
                 eta, mu, w = get_eta_mu(X, b, b0)
-                r = (y - mu)
+                r, w = n * weights * (y - mu), n * weights * w
                 fvals[i] = objective_function(y, mu, weights, b, alpha, halc, lam)
         step_halves[i] = ii
         if store_betas:
@@ -205,7 +206,6 @@ def binom_elnet_path(X, y, weights, alpha, lambdas=None, cd_kws=None, progress_b
     betas = np.zeros((n_lambdas+1, n_var+1))
     fvals_hist = []
     fvals, active, index = np.zeros(n_lambdas+1), np.ones(n_var, dtype=bool), np.arange(n_var)
-    weights = np.ones_like(y)
     betas[0, 0] = b0
     
     default_cd_kws = dict(X=X, Xsq=Xsq, y=y, weights=weights, alpha=alpha,
-- 
2.43.0


From 61160b0680ebbbb8bc7e2a5cee622df0bbda973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 091/113] fix: readmit variables dropped too early by
 binom_elnet

---
 pystatsm/pyglmnet/binom_eln2.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 1de4a2e..966a3c6 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -75,7 +75,7 @@ def _welnet_cd(X, Xsq, r, w, alpha, lam, beta, active, index, max_iters=1000,
                 d = b[j] - bj
                 xv[j] = d**2 * xwx[j]
                 r = r - d * w * xj
-                dlx = max(xv[j]*d**2, dlx)
+                dlx = max(xv[j], dlx)
             if b[j]==0:
                 active[j] = False
         if i==0:
@@ -160,6 +160,13 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
         beta[1:], beta[0] = b, b0 
         fdiff = np.abs(fvals[i]-fvals[i-1]) / (np.abs(fvals[i]) + 0.1)
         if fdiff < ftol:
+            # variables set to zero earlier have to satisfy their own
+            # optimality condition, those that do not are readmitted
+            g = np.abs(np.dot(r, X)) / n
+            viol = (~active) & ((g > lam * alpha + 1e-9 * np.max(g)) | (b != 0))
+            if np.any(viol):
+                active = active | viol
+                continue
             fvals = fvals[:i+1]
             step_halves = step_halves[:i+1]
             if store_betas:
-- 
2.43.0


From 0559ccede710b8c376b30424c875625b3a856006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 092/113] fix: scale of the held-out predictors in
 binom_glmnet_cv

---
 pystatsm/pyglmnet/binom_eln2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 966a3c6..229f17b 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -265,7 +265,8 @@ def binom_glmnet_cv(X, y, alpha=0.99, lambdas=None, cv=10, n_rep=1,
             Xt, yt = X[v_ix], y[v_ix]
             betas[j, k], _, _ , _= binom_elnet_path(Xf, yf, np.ones_like(yf), alpha, lambdas,
                                               progress_bar=pbar, cd_kws=cd_kws)
-            w  = np.ones_like(yt)
+            Xt = (Xt - Xf.mean(axis=0)) / Xf.std(axis=0)
+            w  = np.ones(yt.shape)
             w /= np.sum(w)
             fvals[j, :, k] = cv_dev(betas[j, k], lambdas, alpha, yt, Xt, w)
     if progress_bar is None:
-- 
2.43.0


From f096cc8806d9690f84d6de6c8cf9732288f47c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 093/113] fix: squared predictors of ElasticNetGLM

---
 pystatsm/pyglmnet/glmen2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index 133224f..7644570 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -91,7 +91,7 @@ class ElasticNetGLM(object):
         self.wobs = wobs
         self.family = family
         self.alpha = alpha
-        self.Xsq = X**2
+        self.Xsq = self.X**2
         self.halc = (1.0 - alpha) / 2.0
         self._categorical = isinstance(family, Binomial)
         
-- 
2.43.0


From d292be1f9b3c5a622c942f8fc116a9f98026a4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 094/113] fix: gradients of ElasticNetGLM

---
 pystatsm/pyglmnet/glmen2.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index 7644570..1df5a9c 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -138,23 +138,23 @@ class ElasticNetGLM(object):
         return g
         
     def dev_grad(self, beta, lam, X=None, y=None, wobs=None):
-        mu = self._get_mu(beta, X)
         X = self.X if X is None else X
         y = self.y if y is None else y
         wobs = self.wobs if wobs is None else wobs
-        dL = np.r_[-np.dot(wobs, y-mu), -wdcrossp(X, wobs, y-mu)]
-        return dL
+        eta = self._get_eta(beta, X)
+        mu = self.family.inv_link(eta)
+        r = (y - mu) * self.family.dinv_link(eta) / self.family.var_func(mu=mu)
+        dL = np.r_[-np.dot(wobs, r), -wdcrossp(X, wobs, r)]
+        return dL * 2.0
     
     
     def obj_grad(self, beta, lam, X=None, y=None, wobs=None):
         X = self.X if X is None else X
         y = self.y if y is None else y
         wobs = self.wobs if wobs is None else wobs
-        b = beta[1:]
-        mu = self._get_mu(beta, X)
-        dL = -wdcrossp(X, wobs, y-mu)
-        dP = lam * (1.0 - self.alpha) * b + np.sign(b) * lam * self.alpha
-        dF = np.r_[-np.dot(wobs, y-mu), (dL + dP)]
+        dL = self.dev_grad(beta, lam, X, y, wobs) / 2.0
+        dP = self.pen_grad(beta, lam)
+        dF = dL + np.r_[0.0, dP]
         return dF
     
     def dev_hess(self, beta, lam, X=None, y=None, wobs=None):
-- 
2.43.0


From a52905a2956e56a19ada7954d817d912e1230efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 095/113] fix: readmit variables screened out or dropped too
 early by ElasticNetGLM

---
 pystatsm/pyglmnet/glmen2.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index 1df5a9c..d47971c 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -243,11 +243,17 @@ class ElasticNetGLM(object):
             f_new = self._obj_func_mu(mu_new, beta_new, lam, X, y, wobs)
             f_hist.append([f_new, i])
             fdiff = np.abs(f_new - f_curr) / (0.1 + np.abs(f_new))
+            eta, mu, beta, f_curr = eta_new, mu_new, beta_new, f_new
             if fdiff<ftol:
-                beta = beta_new
-                break
-            else:
-                eta, mu, beta, f_curr = eta_new, mu_new, beta_new, f_new
+                # variables screened out or set to zero earlier have to satisfy
+                # their own optimality condition, otherwise they are readmitted
+                r = (y - mu) * self.family.dinv_link(eta) / self.family.var_func(mu=mu)
+                g = np.abs(np.dot(X.T, wobs * r))
+                gain = np.maximum(g - lam * self.alpha, 0.0)**2 / (2.0 * np.dot(Xsq.T, v))
+                viol = ~active & ((gain > ftol * (0.1 + np.abs(f_curr))) | (beta[1:] != 0))
+                if not np.any(viol):
+                    break
+                active[viol] = True
         return beta, f_hist#, np.vstack(beta_hist)
     
     def _glm_elnet_path(self, X, Xsq, y, wobs, lambdas, progress_bar=None, 
-- 
2.43.0


From 8e6f81da948a4d447256506430f75133960ea168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 096/113] fix: restart lasso_accelerated_grad when the
 objective increases

---
 pystatsm/pyglmnet/lasso.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglmnet/lasso.py b/pystatsm/pyglmnet/lasso.py
index 0a72449..49934b0 100644
--- a/pystatsm/pyglmnet/lasso.py
+++ b/pystatsm/pyglmnet/lasso.py
@@ -46,14 +46,19 @@ def lasso_accelerated_grad(beta, X, y, Xty, XtX, lambda_, max_eig, n_iters=500,
     alpha = 1.0 / (2 * max_eig) 
     tau = alpha * lambda_
     fhist = np.array([lasso_obj(beta, X, y, lambda_ )])
-    theta = beta.copy()*0.0
+    theta, k = beta.copy(), 0
     for i in range(n_iters):
         g = (Xty - XtX.dot(theta)) / n
         beta_new = soft_threshold(theta + alpha * g, tau)
-        theta_new = beta_new + (1+i) / (4 + i) * (beta_new - beta)
+        theta_new = beta_new + (1+k) / (4 + k) * (beta_new - beta)
         fhist = np.append(fhist, np.array([lasso_obj(beta_new, X, y, lambda_)]), axis=0)
         if fhist[i+1, 2] > fhist[i, 2]:
-            break
+            if k==0:
+                break
+            # the momentum overshot, restart from the current solution
+            fhist[i+1] = fhist[i]
+            theta, k = beta.copy(), 0
+            continue
         dt = np.abs(beta_new - beta)
         bt = np.abs(beta) 
         if np.all(dt < bt * rtol) or np.all(dt < bt * rtol + atol):
@@ -62,4 +67,5 @@ def lasso_accelerated_grad(beta, X, y, Xty, XtX, lambda_, max_eig, n_iters=500,
         else:
             beta = beta_new
             theta = theta_new
+            k += 1
     return beta, fhist  
-- 
2.43.0


From 8c56e788c3274e28c8d2fb85f224e9c7da91ef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 097/113] fix: remove dropped variables from the Cholesky
 factor of the active set

---
 pystatsm/pyglmnet/lars.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/lars.py b/pystatsm/pyglmnet/lars.py
index 675f1e9..c5734dd 100644
--- a/pystatsm/pyglmnet/lars.py
+++ b/pystatsm/pyglmnet/lars.py
@@ -46,8 +46,10 @@ def lars_add_var(cj_, j, G, L, C, active, s, ind):
 
 def lars_drop_var(L, betas, active, s, ind, drops, i):
     drop_ix, = np.where(drops)
-    for k in drop_ix:
-        L = chol_downdate(L, k)
+    m = len(active)
+    for k in drop_ix[::-1]:
+        L[:m, :m] = chol_downdate(L[:m, :m].copy(), k)
+        m -= 1
     active_ix = active[drop_ix]
     betas[i, active_ix] = 0.0
     active = active[~drops]
-- 
2.43.0


From 67847e888902b530a8247e5a5de97f4d82ecdaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 098/113] fix: results of GLMEN.fit

---
 pystatsm/pyglmnet/glmen.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/glmen.py b/pystatsm/pyglmnet/glmen.py
index 70b90ca..4f56268 100644
--- a/pystatsm/pyglmnet/glmen.py
+++ b/pystatsm/pyglmnet/glmen.py
@@ -61,8 +61,15 @@ class GLMEN:
     def fit(self, lambda_, alpha=0.99, X=None, y=None, intercept=True, n_iters=1000, **kws):
         X = self.X if X is None else X
         y = self.y if y is None else y
-        beta, active, fvals, _ = self._fit(X, y, lambda_, alpha, **kws)
+        if self.family=="binomial":
+            beta, b0, active, fvals, _ = self._fit(X, y, lambda_, alpha, n_iters=n_iters,
+                                                   intercept=intercept, **kws)
+        else:
+            beta, fvals, active, _ = self._fit(X, y, lambda_, alpha, n_iters=n_iters,
+                                               intercept=intercept, **kws)
+            b0 = y.mean() * intercept
         self.beta = beta 
+        self.b0 = b0
         self.active = active
         self.fvals = fvals
     
-- 
2.43.0


From 0a0bce0e86ec7d484bcc7bfb3c04ae74a389cbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 099/113] fix: scale of the held-out predictors in the
 cross-validation of ElasticNetGLM

---
 pystatsm/pyglmnet/glmen2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index d47971c..0edf192 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -305,7 +305,8 @@ class ElasticNetGLM(object):
                                  random_state=rng)
             for k, (f_ix, v_ix) in enumerate(kfix):
                 Xf, Xsqf, yf, wf = X[f_ix], Xsq[f_ix], y[f_ix], wobs[f_ix]
-                Xt, _, yt, wt = X[v_ix], Xsq[v_ix], y[v_ix], wobs[v_ix]
+                Xt, yt, wt = X[v_ix], y[v_ix], wobs[v_ix]
+                Xt = (Xt - np.mean(Xf, axis=0)) / np.std(Xf, axis=0)
                 betas[j, k], _, _ = self._glm_elnet_path(Xf, Xsqf, yf, wf, lambdas,
                                                          progress_bar=pbar, 
                                                          kws=kws)
-- 
2.43.0


From 7c2b3e4264918b298c72fac1d65410969e494e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 100/113] fix: coefficients along the path of binom_elnet_path

---
 pystatsm/pyglmnet/binom_eln2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 229f17b..4363228 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -225,7 +225,7 @@ def binom_elnet_path(X, y, weights, alpha, lambdas=None, cd_kws=None, progress_b
     pbar = tqdm.tqdm(total=n_lambdas, smoothing=0.0001) if progress_bar is None else progress_bar
     for i, lam in enumerate(lambdas):
         active = np.ones(n_var, dtype=bool)
-        beta, fval, _, _ = _binom_elnet_cd(lam, betas[i], active, **cd_kws)
+        beta, fval, _, _ = _binom_elnet_cd(lam, betas[i].copy(), active, **cd_kws)
         betas[i+1] = beta
         fvals_hist.append(fval)
         fvals[i+1] = fval[-1]
-- 
2.43.0


From b29c97c7eba31dc9cd22b54250b640e9d1e24cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 101/113] fix: sparsity pattern of the mixed model equations

---
 pystatsm/pylmm/re_mod.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index f32be69..d3c7809 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -77,6 +77,16 @@ def sparsity(a):
     return a.nnz / np.prod(a.shape)
 
 
+def _add_pattern(A, B):
+    """Entries of A on the union of the patterns of A and B, keeping explicit zeros."""
+    def ones(M):
+        return sp.sparse.csc_array((np.ones(M.nnz), M.indices, M.indptr),
+                                   shape=M.shape)
+    C = sp.sparse.csc_array(ones(A) + ones(B))
+    C.sort_indices()
+    return cs_add_inplace(A, B, C, 1.0, 0.0)
+
+
 def _resolve_a(a_cov):
     n = a_cov.shape[0]
     if sp.sparse.issparse(a_cov):
@@ -655,7 +665,7 @@ class MMEBlocked(BaseMME):
             self._initialize_unweighted()
         else:
             self._initialize_weighted()
-        self.C = self.ZtRZ + self.G
+        self.C = _add_pattern(self.ZtRZ, self.G)
 
     def _initialize_unweighted(self):
         ZtR = self.Zt.dot(self.R).tocsc()
@@ -664,6 +674,7 @@ class MMEBlocked(BaseMME):
 
         ZtZ = sp.sparse.csc_array.dot(self.Zt, self.Zt.T).tocsc()
         ZtZ.sort_indices()
+        ZtZ = _add_pattern(ZtZ, self.G)
         ZtRZ = ZtZ.copy()                       # persistent buffer
         ZtRZ.sort_indices()
 
-- 
2.43.0


From d117855b4f01a90850a3c153fd22e766aa034db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 102/113] fix: gradient_v2 with a relationship matrix

---
 pystatsm/pylmm/re_mod.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index d3c7809..8e03497 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -210,8 +210,9 @@ class BaseProductCovariance(metaclass=ABCMeta):
         pass
 
     def accumulate_gradient(self, par_offset, sl, ZtRZ, L_zz, T_zx, v_y,
-                            T_xx_inv, reml, grad):
-        L_zz_blk_t = L_zz[sl].T.tocsc()
+                            T_xx_inv, reml, grad, L_zz_sl=None):
+        L_zz_blk = sp.sparse.csc_array(L_zz_sl if L_zz_sl is not None else L_zz[sl])
+        L_zz_blk_t = L_zz_blk.T.tocsc()
         ZtRZ_blk = ZtRZ[sl, sl]
         T_zx_blk = T_zx[sl]
         v_y_blk = v_y[sl]
-- 
2.43.0


From 28d137e13d922b9c77b2723ab10098b98e6c6c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 103/113] fix: random effects with a relationship matrix

---
 pystatsm/pylmm/re_mod.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index 8e03497..5ccb503 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -93,11 +93,13 @@ def _resolve_a(a_cov):
         a_csc = a_cov.tocsc()
         fac = cholesky(sp.sparse.csc_matrix(a_csc))
         a_inv = sp.sparse.csc_matrix(fac.solve_A(sp.sparse.eye(n, format='csc')))
-        return a_csc, a_inv
-    A = np.asarray(a_cov)
-    L = np.linalg.cholesky(A)
-    A_inv = sp.linalg.cho_solve((L, True), np.eye(n))
-    return sp.sparse.csc_matrix(A), sp.sparse.csc_matrix(A_inv)
+    else:
+        A = np.asarray(a_cov)
+        L = np.linalg.cholesky(A)
+        A_inv = sp.linalg.cho_solve((L, True), np.eye(n))
+        a_csc, a_inv = sp.sparse.csc_matrix(A), sp.sparse.csc_matrix(A_inv)
+    # the covariance and its inverse share the storage of their common pattern
+    return _add_pattern(a_csc, a_inv), _add_pattern(a_inv, a_csc)
 
 
 class BaseCovarianceStructure(metaclass=ABCMeta):
@@ -325,7 +327,7 @@ class KronAG(BaseProductCovariance):
 
     def _update_gdata(self, G0, inv, out):
         A = self.a_inv if inv else self.a_cov
-        sparse_dense_kron_inplace(A, G0, out)
+        sparse_dense_kron_inplace(A, np.asfortranarray(G0), out)
 
     def get_logdet(self, params, out=0.0):
         G0 = invech(params)
@@ -334,7 +336,7 @@ class KronAG(BaseProductCovariance):
 
     def dcov_dparams(self, params, i):
         dG0_i = self.unstructured_cov.dcov_dparams(params, i).copy()
-        dGi = sparse_dense_kron(self.a_cov, dG0_i)
+        dGi = sparse_dense_kron(self.a_cov, np.asfortranarray(dG0_i))
         dGi.eliminate_zeros()
         return dGi
 
-- 
2.43.0


From 23ee1b4879418e907051c3142b700e91dce145cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 104/113] fix: random effects standard errors at given
 covariance parameters

---
 pystatsm/pylmm/re_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index 5ccb503..a62d561 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1210,7 +1210,7 @@ class LMM2(object):
         self._factor_C(theta)
         ZtRX = self.mme.ZtRXy[:, :-1]
         M_X = self.mme.chol_fac.solve_A(ZtRX)
-        T_xx_inv = self.XtVinvX_inv
+        T_xx_inv = np.linalg.inv(self.mme.XytRXy[:-1, :-1] - ZtRX.T.dot(M_X))
         var_x = np.einsum('ik,kl,il->i', M_X, T_xx_inv, M_X, optimize=True)
 
         if not full:
-- 
2.43.0


From 6fd30ca60f0c98837eff9bc5da552b7fecb9e301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 105/113] fix: Satterthwaite degrees of freedom

---
 pystatsm/pylmm/re_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index a62d561..62a066f 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1319,7 +1319,7 @@ class LMM2(object):
             f = float(np.sum(t2) / q)
             D = np.array([[float(x.dot(Ji).dot(x)) for Ji in J] for x in P[:q]])
             nu_d = np.array([D[i].dot(Vtheta).dot(D[i]) for i in range(q)])
-            nu_m = u[:q] ** 2 / np.maximum(nu_d, np.finfo(float).tiny)
+            nu_m = 2.0 * u[:q] ** 2 / np.maximum(nu_d, np.finfo(float).tiny)
             keep = nu_m > 2
             E = float(np.sum(nu_m[keep] / (nu_m[keep] - 2.0)))
             nu = float(2.0 * E / (E - q)) if E > q else np.nan
-- 
2.43.0


From 7759e008179468c2482f5e54efa5afc453ab7ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 106/113] fix: gradient with constrained last parameters

---
 pystatsm/pysem2/indexers.py   | 4 ++--
 pystatsm/pysem2/model_base.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pysem2/indexers.py b/pystatsm/pysem2/indexers.py
index e21bb07..c5b79ff 100644
--- a/pystatsm/pysem2/indexers.py
+++ b/pystatsm/pysem2/indexers.py
@@ -205,8 +205,8 @@ class BlockFlattenedArrays:
         self.colex_descending_inds = np.vstack(self._tril_inds).T
 
 
-def equality_constraint_mat(unique_locs):
-    n = unique_locs.max() + 1
+def equality_constraint_mat(unique_locs, n=None):
+    n = unique_locs.max() + 1 if n is None else n
     m = len(unique_locs)
     row = np.arange(m)
     col = unique_locs
diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index 79457b8..4d4ecf1 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -442,7 +442,7 @@ class ModelBase(ParameterTable, FixedValueManager, ParameterMapping):
         unique_values, inverse_mapping, indices = indexing_utils.unique(ftable["label"])
         unique_labels = pd.Series(unique_values)
         label_to_ind = pd.Series(unique_labels.index, index=unique_labels.values)
-        self.dfree_dtheta = equality_constraint_mat(indices)
+        self.dfree_dtheta = equality_constraint_mat(indices, len(ftable))
         self._unique_locs, self._first_locs = inverse_mapping, indices
         self.free_df = ftable
         self.free_df["theta_index"] = ftable["label"].map(label_to_ind)
-- 
2.43.0


From d115cea6509f1dd452d186b716b65adf64870fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 107/113] fix: residual variance of endogenous observed
 variables

---
 pystatsm/pysem2/model_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index 4d4ecf1..cdcff5c 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -263,7 +263,7 @@ class ParameterMapping:
             elif i == 2:
                 mat_template = np.eye(mat_dims[i][0])
             elif i == 3:
-                inx = [ov_order[x] for x in var_names["onx"]]
+                inx = [ov_order[x] for x in var_names["obs"] - var_names["lav"]]
                 mat_template[inx, inx] = 1.0
             else:
                 mat_template = np.zeros(mat_dims[i])
-- 
2.43.0


From 497ee318746e6d90f28a4300f6ad63e0da92f99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 108/113] fix: constant of the fit function with unused columns

---
 pystatsm/pysem2/model_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pysem2/model_data.py b/pystatsm/pysem2/model_data.py
index 61e946e..3d7e8e1 100644
--- a/pystatsm/pysem2/model_data.py
+++ b/pystatsm/pysem2/model_data.py
@@ -51,6 +51,8 @@ class ModelData(object):
             self.sample_mean_df[i] = self.sample_mean_df[i][variables]
             self.sample_cov[i] = self.sample_cov_df[i].values
             self.sample_mean[i] = self.sample_mean_df[i].values
+            lndS = np.linalg.slogdet(self.sample_cov[i])[1]
+            self.const[i] = -lndS - self.sample_cov[i].shape[0]
 
     @staticmethod
     def _convert_to_dict(data):
-- 
2.43.0


From c71de6137d84e298661525f54aebbe90cbcaa5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 109/113] fix: second derivatives of the implied means

---
 pystatsm/pysem2/derivatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/derivatives.py b/pystatsm/pysem2/derivatives.py
index be669a9..10a4a56 100644
--- a/pystatsm/pysem2/derivatives.py
+++ b/pystatsm/pysem2/derivatives.py
@@ -81,7 +81,7 @@ def _d2sigma_mu(d2Sm, L, B, F, b, dA, m_size, m_type, d2_inds, vind, n, p2):
             dSij = LB.dot(t1 + t1.T + t3 + t4).dot(LB.T)
             d2Sm[:p2, i, j] += dSij.T.flatten()[vind]
             d2Sm[:p2, j, i] = d2Sm[:p2, i, j]
-            dmij = LB.dot(Ji).dot(B).dot(Jj).dot(Bb)
+            dmij = LB.dot(Ji.dot(B).dot(Jj) + Jj.dot(B).dot(Ji)).dot(Bb)
             d2Sm[p2:, i, j] += dmij.flatten()
             d2Sm[p2:, j, i] = d2Sm[p2:, i, j]
         elif kind == 5:
-- 
2.43.0


From cac2df9bb6489c76442e655a3bacc455047de290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 110/113] fix: order of indicators that are also endogenous

---
 pystatsm/pysem2/variable_ordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/variable_ordering.py b/pystatsm/pysem2/variable_ordering.py
index 17bbfee..14daf45 100644
--- a/pystatsm/pysem2/variable_ordering.py
+++ b/pystatsm/pysem2/variable_ordering.py
@@ -44,7 +44,7 @@ class VariableOrder:
         g = []
         g.extend(sorted(subset & var_names["obs"] & var_names["ind"], key=_default_sort_key))
         g.extend(sorted(subset & var_names["nob"] & var_names["ind"], key=_default_sort_key))
-        g.extend(sorted(subset & var_names["obs"] & var_names["end"], key=_default_sort_key))
+        g.extend(sorted((subset & var_names["obs"] & var_names["end"]) - set(g), key=_default_sort_key))
         g.extend(sorted(subset & var_names["nob"] - (var_names["nob"] & var_names["ind"]), key=_default_sort_key))
         u = set(g)
         g.extend(sorted(subset - u, key=_default_sort_key))
-- 
2.43.0


From 41053f2dc6a98e0d502687d5f54e8a7b8546c2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 111/113] fix: fitting without optimiser options

---
 pystatsm/pysem2/sem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pysem2/sem.py b/pystatsm/pysem2/sem.py
index 7f16f08..d96728a 100644
--- a/pystatsm/pysem2/sem.py
+++ b/pystatsm/pysem2/sem.py
@@ -405,6 +405,7 @@ class SEM(ModelSpecification):
         else:
             hess = None
         theta = self.theta if theta_init is None else theta_init
+        minimize_options = {} if minimize_options is None else minimize_options
         if "method" in minimize_options:
             if minimize_options["method"] == "trust-constr":
                 default_minimize_options = dict(initial_tr_radius=1.0, verbose=3)
-- 
2.43.0


From 9607e99a5608fa92828f0e9c1a0564b1403543e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 112/113] fix: models from sample statistics

---
 pystatsm/pysem2/model_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/model_data.py b/pystatsm/pysem2/model_data.py
index 3d7e8e1..c1c8c53 100644
--- a/pystatsm/pysem2/model_data.py
+++ b/pystatsm/pysem2/model_data.py
@@ -127,4 +127,4 @@ class ModelData(object):
             sample_mean[i], sample_mean_df[i] = cls._to_dataframe_and_array(
                 sample_mean[i])
 
-        return cls(sample_cov=sample_cov, sample_mean=sample_mean, n_obs=n_obs, ddof=ddof)
+        return cls(sample_cov=sample_cov_df, sample_mean=sample_mean_df, n_obs=n_obs, ddof=ddof)
-- 
2.43.0


From 640bfe4ef6796f986466eb77ba22b9c19a3a735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:31 +0000
Subject: [PATCH 113/113] fix: fixed moments of exogenous variables

---
 pystatsm/pysem2/model_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index cdcff5c..0a57930 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -137,6 +137,9 @@ class FixedValueManager:
             Updated DataFrame representing the parameter table.
         """
         n_vars = len(vars)
+        # moments given in the formula keep their value
+        unset = param_df["fixedval"].isnull()
+        group_mask = unset if group_mask is None else unset & group_mask
         for j, k in list(zip(*tril_indices(n_vars))):
             varj, vark = vars[j], vars[k]
             varj_vark_mask = FixedValueManager._get_cov_mask(param_df, varj, vark)
-- 
2.43.0

