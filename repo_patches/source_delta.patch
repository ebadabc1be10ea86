From f17ba0e5915016df3d86643cefc9a3dc7c9b20a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 001/124] fix: Interest.mthly accepts a zero rate like every
 other conversion

---
 src/actuarialmath/interest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/interest.py b/src/actuarialmath/interest.py
index e160a10..748a470 100644
--- a/src/actuarialmath/interest.py
+++ b/src/actuarialmath/interest.py
@@ -115,13 +115,13 @@ class Interest(Actuarial):
           >>> print("Convert annual-pay to mthly:", Interest.mthly(i=i, m=12))
         """
         assert m >= 0, "mthly frequency must be non-negative"
-        if i > 0:
+        if i >= 0:
             return m * ((1 + i)**(1 / m) - 1) if m else math.log(1+i)
-        elif d > 0:
+        elif d >= 0:
             return m * (1 - (1 - d)**(1 / m)) if m else -math.log(1-d)
-        elif i_m > 0:
+        elif i_m >= 0:
             return (1 + (i_m / m))**m - 1
-        elif d_m > 0:
+        elif d_m >= 0:
             return 1 - (1 - (d_m / m))**m
         else:
             raise Exception("no interest rate given to mthly")
-- 
2.43.0


From 32345b7e61ee90b6cbacc36bf90374e3941be9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 002/124] fix: annuity certain at zero interest is the number
 of years, not a division by zero

---
 src/actuarialmath/interest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/interest.py b/src/actuarialmath/interest.py
index 748a470..a87a966 100644
--- a/src/actuarialmath/interest.py
+++ b/src/actuarialmath/interest.py
@@ -90,6 +90,8 @@ class Interest(Actuarial):
         """
         v_t = 0 if t < 0 else self.v**t   # is t finite
         assert m >= 0, "mthly frequency must be non-negative"
+        if self.i == 0:  # no interest: total payment is 1 per year
+            return t if t >= 0 else math.inf
         if m == 0:  # if continuous
             return (1 - v_t) / self.delta
         elif due:   # if annuity due
-- 
2.43.0


From 317a942169472bd21a782c8cdf5ac643d114d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 003/124] fix: Actuarial.derivative works with scalar functions
 (math.exp, conditionals)

---
 src/actuarialmath/actuarial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 68b3fda..1a45961 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -69,7 +69,7 @@ class Actuarial(object):
         Examples:
           >>> print(Actuarial.derivative(fun=lambda x: x/50, x=25))
         """
-        return float(scipy.differentiate.derivative(fun, x=x, initial_step=1, maxiter=1, preserve_shape=True).df)
+        return float(scipy.differentiate.derivative(np.vectorize(fun, otypes=[float]), x=x, initial_step=1, maxiter=1, preserve_shape=True).df)
         # return scipy.misc.derivative(fun, x0=x, dx=1)
 
     @staticmethod
-- 
2.43.0


From f679f7cabddd4614c71ade437dda1dca4d973669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 004/124] fix: lifetime density derived from lives is
 conditional on survival to [x]+s

---
 src/actuarialmath/survival.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/survival.py b/src/actuarialmath/survival.py
index 6289f4a..1bb5270 100644
--- a/src/actuarialmath/survival.py
+++ b/src/actuarialmath/survival.py
@@ -54,7 +54,7 @@ class Survival(Life):
 
         def f_from_l(x: int, s, t: float) -> float:
             """Derive lifetime density function from number of lives"""
-            return -self.derivative(lambda t: self.l(x, s+t), t)
+            return -self.derivative(lambda t: self.l(x, s+t), t) / self.l(x, s)
 
         def mu_from_S(x: int, t: float) -> float:
             """Derive force of mortality from survival probability"""
-- 
2.43.0


From b2e5b4394e641af1b68ddb024e65a3bb46e37f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 005/124] fix: LifeTable deaths and deferred mortality of
 intervals reaching past the oldest age

---
 src/actuarialmath/lifetable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 50376fd..177c92f 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -205,7 +205,7 @@ class LifeTable(Reserves):
         if x+s+t <= self._MAXAGE:
             return self.l_x(x, s=s) - self.l_x(x, s=s+t)
         else:
-            return 0.
+            return self.l_x(x, s=s)   # no survivors past the oldest age
 
     def p_x(self, x: int, s: int = 0, t: int = 1) -> float:
         """t_p_x = lives beginning year x+t divided lives beginning year x
@@ -231,8 +231,8 @@ class LifeTable(Reserves):
           t : death within next t years
         """
         denom = self.l_x(x, s=s)
-        if denom and x+s+t <= self._MAXAGE:
-            return self.d_x(x, s=s+u, t=t) / self.l_x(x, s=s)
+        if denom:
+            return self.d_x(x, s=s+u, t=t) / denom
         else:
             return 1     # the only certainty in life
 
-- 
2.43.0


From 2ed1502af26ca977c9a6a04115b59fc8551794d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 006/124] fix: Beta survival is zero (not negative or complex)
 past omega

---
 src/actuarialmath/mortalitylaws.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 0c5bfb9..98fd9c7 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -106,10 +106,10 @@ class Beta(MortalityLaws):
             return alpha / (omega - (x+s))
 
         def _l(x: int, s: float) -> float:
-            return radix * (omega - (x+s))**alpha
+            return radix * max(0., omega - (x+s))**alpha
 
         def _S(x: int, s,t : float) -> float:
-            return ((omega-(x+s+t))/(omega-(x+s)))**alpha
+            return (max(0., omega-(x+s+t))/(omega-(x+s)))**alpha
 
         def _f(x: int, s,t : float) -> float:
             return alpha / (omega - (x+s))
-- 
2.43.0


From 5e5f01fb9d9e5f4d71443f7046df3f0bd27ad91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 007/124] fix: Beta lifetime density depends on duration unless
 alpha is 1

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 98fd9c7..6707ea8 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -112,7 +112,7 @@ class Beta(MortalityLaws):
             return (max(0., omega-(x+s+t))/(omega-(x+s)))**alpha
 
         def _f(x: int, s,t : float) -> float:
-            return alpha / (omega - (x+s))
+            return _S(x, s, t) * _mu(x, s+t) if x+s+t < omega else 0.
 
         self.set_survival(mu=_mu, l=_l, S=_S, f=_f, minage=0, maxage=omega)
         self.omega_ = omega  # store omega parameter
-- 
2.43.0


From c24ffc44ac510143729e5bd5416968f9728e29cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 008/124] fix: f_r separates whole years before interpolating,
 and keeps duration an integer after them

---
 src/actuarialmath/fractional.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index bd015bb..0f975da 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -139,6 +139,9 @@ class Fractional(Lifetime):
         assert s >= 0, "s must be non-negative"
         assert r >= 0, "r must be non-negative"
         assert t >= 0, "t must be non-negative"
+        r_floor = math.floor(r)
+        r -= r_floor            # s.t. r < 1
+        s += r_floor            # while maintaining x+s+r unchanged
         if 0. <= r + t <= 1.:   # shortcuts available within integer ages
             if self.udd_:       # UDD shortcut: constant q_x
                 return self.q_x(x, s=s)  # does not depend fractional age or duration
@@ -148,13 +151,10 @@ class Fractional(Lifetime):
                 mu = -math.log(max(0.00001, self.p_x(x, s=s)))
                 return math.exp(-mu*t) * mu    # does not depend on fractional age
         else: # else survive to integer age, times density at fractional age
-            r_floor = math.floor(r)
-            r -= r_floor            # s.t. r < 1 
-            s += r_floor            # while maintaining x+s+r unchanged
             t_floor = math.floor(r + t)
             u = t_floor - r         # s.t. u + r is integer
             t = t + r - t_floor     # s.t. t < 1
-            return self.p_r(x, s=s, r=r, t=u) * self.f_r(x, s=s+u+r, t=t)
+            return self.p_r(x, s=s, r=r, t=u) * self.f_r(x, s=s+t_floor, t=t)
 
     #
     # Define fractional age pure endowment function
-- 
2.43.0


From d9dd3ec5aee0992bc0256b74593f941c96bd55d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 009/124] fix: UDD density at a fractional age is conditional
 on survival to that age

---
 src/actuarialmath/fractional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index 0f975da..0902f85 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -143,8 +143,8 @@ class Fractional(Lifetime):
         r -= r_floor            # s.t. r < 1
         s += r_floor            # while maintaining x+s+r unchanged
         if 0. <= r + t <= 1.:   # shortcuts available within integer ages
-            if self.udd_:       # UDD shortcut: constant q_x
-                return self.q_x(x, s=s)  # does not depend fractional age or duration
+            if self.udd_:       # UDD shortcut: constant q_x, given survival to r
+                return self.q_x(x, s=s) / (1. - r * self.q_x(x, s=s))
             else:               # Constant force shortcut:
                 if self.isclose(t):
                     return self.f_x(x=x, s=s)
-- 
2.43.0


From 732e598f1ba349e7d0155caa588b399dd9570617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 010/124] fix: constant force density at duration 0 no longer
 recurses through f_x

---
 src/actuarialmath/fractional.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index 0902f85..e614a35 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -146,8 +146,6 @@ class Fractional(Lifetime):
             if self.udd_:       # UDD shortcut: constant q_x, given survival to r
                 return self.q_x(x, s=s) / (1. - r * self.q_x(x, s=s))
             else:               # Constant force shortcut:
-                if self.isclose(t):
-                    return self.f_x(x=x, s=s)
                 mu = -math.log(max(0.00001, self.p_x(x, s=s)))
                 return math.exp(-mu*t) * mu    # does not depend on fractional age
         else: # else survive to integer age, times density at fractional age
-- 
2.43.0


From 3073a1e4ff74b631fdcc382d857f89b4cb54cfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:37 +0000
Subject: [PATCH 011/124] fix: variance of the one-year limited curtate
 lifetime is not its mean

---
 src/actuarialmath/lifetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetime.py b/src/actuarialmath/lifetime.py
index e98be35..eec6358 100644
--- a/src/actuarialmath/lifetime.py
+++ b/src/actuarialmath/lifetime.py
@@ -31,7 +31,7 @@ class Lifetime(Survival):
         assert x >= 0, "x must be non-negative"
         assert s >= 0, "s must be non-negative"
 
-        if t == 1 and curtate:      # shortcut for e_x:1
+        if t == 1 and curtate and moment != self.VARIANCE:  # shortcut for e_x:1
             return self.p_x(x, s=s, t=1)
         
         t = self.max_term(x+s, t)   # length of term must be bounded by max age
-- 
2.43.0


From 0a90f1ce571a9da9690791f07c091457e4574f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 012/124] fix: LifeTable.e_x limit is named t and applied from
 [x]+s, as in the base class

---
 src/actuarialmath/lifetable.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 177c92f..3621753 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -236,27 +236,27 @@ class LifeTable(Reserves):
         else:
             return 1     # the only certainty in life
 
-    def e_x(self, x: int, s: int = 0, n: int = Reserves.WHOLE,
+    def e_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE,
             curtate: bool = True, moment: int = 1) -> float:
         """Expected curtate lifetime from sum of lives in table
 
         Args:
           x : age of selection
           s : years after selection
-          n : future lifetime limited at n years
+          t : future lifetime limited at t years
           curtate : whether curtate (True) or complete (False) expectations
           moment : whether to compute first (1) or second (2) moment
 
         """
         if moment == 1:
-            # E[K_x] = sum([self.p(x, k+1) for k in range(n)])
-            n = min(self._MAXAGE - x, n) if n > 0 else self._MAXAGE
+            # E[K_x] = sum([self.p(x, k+1) for k in range(t)])
+            t = self.max_term(x+s, t)
             # approximate complete by UDD between integer age recursion
-            e = sum([(1 - curtate)*(self.l(x, s=s+t) - self.l(x, s=s+t+1))*0.5
-                     + self.l(x, s=s+t+1) for t in range(n)])  # s_p_x = l_x+s/l_x
-            return e / self.l(x, s=0)
+            e = sum([(1 - curtate)*(self.l(x, s=s+k) - self.l(x, s=s+k+1))*0.5
+                     + self.l(x, s=s+k+1) for k in range(t)])  # k_p_x = l_x+k/l_x
+            return e / self.l(x, s=s)
         else:
-            return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+            return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
     def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1) -> float:
         """Pure Endowment from life table and interest rate
-- 
2.43.0


From 9724c28efe43548416daa34b3413746d27df179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 013/124] fix: MortalityLaws.e_r uses the existing integral
 helper

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 6707ea8..068f09b 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -82,7 +82,7 @@ class MortalityLaws(Reserves):
         """
         if t < 0:
             t = self._MAXAGE - (x + s + r)
-        return self.integrate(lambda t: self.S(x, s+r, t), 0., float(t))
+        return self.integral(lambda t: self.S(x, s+r, t), 0., float(t))
 
 class Beta(MortalityLaws):
     """Shortcuts with beta distribution of deaths (is Uniform when alpha = 1)
-- 
2.43.0


From 61f017f5b7021acf724fb4b1b1dbadb1c6853803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 014/124] fix: Beta temporary expectation of life honours its
 limit

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 068f09b..374eca7 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -127,7 +127,7 @@ class Beta(MortalityLaws):
           t : limited at t years
         """
         e = (self.omega_ - (x+s)) / (self.alpha_ + 1)
-        if t > 0 and self.max_term(x+s, t) > t: # temporary expectation
+        if t >= 0 and self.max_term(x+s, t) >= t: # temporary expectation
             return e - self.p_r(x, s=s, t=t) * self.e_r(x, s=s+t)
         return e   # complete expectation
 
-- 
2.43.0


From 0c2d28eed51a9dd9974695b4586d6bc582a50d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 015/124] fix: Beta.e_x limit is named t as in the base class,
 and complete variance uses both parameters

---
 src/actuarialmath/mortalitylaws.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 374eca7..3645767 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -131,27 +131,26 @@ class Beta(MortalityLaws):
             return e - self.p_r(x, s=s, t=t) * self.e_r(x, s=s+t)
         return e   # complete expectation
 
-    def e_x(self, x: int, s: int = 0, n: int = MortalityLaws.WHOLE, 
+    def e_x(self, x: int, s: int = 0, t: int = MortalityLaws.WHOLE, 
           curtate: bool = False, moment: int = 1) -> float:
         """Shortcut formula for complete expectation
 
         Args:
           x : age of selection
           s : years after selection
-          n : death within next n fractional years
           t : limited at t years
           curtate : whether curtate (True) or complete (False) lifetime
           moment : whether to compute first (1) or second (2) moment
         """
-        if n == 0:
+        if t == 0:
             return 0
         if not curtate:
             if moment == 1:
-                return self.e_r(x, s=s, t=n)
-            if moment == self.VARIANCE and n < 0: # shortcut for complete variance
-                return ((self.omega_ - (x + s))
-                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 1)))
-        return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+                return self.e_r(x, s=s, t=t)
+            if moment == self.VARIANCE and t < 0: # shortcut for complete variance
+                return ((self.omega_ - (x + s))**2 * self.alpha_
+                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 2)))
+        return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
 class Uniform(Beta):
     """Shortcuts with uniform distribution of deaths aka DeMoivre's Law
-- 
2.43.0


From f57d585c45562899901d4ab2ffea7403277cc859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 016/124] fix: Uniform.e_x measures remaining lifetime from
 [x]+s and weights survivors by survival

---
 src/actuarialmath/mortalitylaws.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 3645767..91c65de 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -180,13 +180,13 @@ class Uniform(Beta):
         if moment in [1, self.VARIANCE] and not curtate:
             if t < 0:
                 if moment == self.VARIANCE:
-                    return (self.omega_ - x)**2 / 12  # complete shortcut
+                    return (self.omega_ - (x+s))**2 / 12  # complete shortcut
                 else:
-                    return (self.omega_ - x) / 2
+                    return (self.omega_ - (x+s)) / 2
             elif moment == 1:         # temporary expectation shortcut
                 # (Pr[die within n years] * n/2) plus (Pr[survive n years] * n)
                 t = self.max_term(x+s, t)
-                t_p_x = t / (self.omega_ - x)
+                t_p_x = 1 - t / (self.omega_ - (x+s))
                 return t_p_x * t  + (1 - t_p_x) * (t / 2)
         return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
-- 
2.43.0


From 68014ac6c3d114c3d2e7b27df0f5842406739ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 017/124] fix: variance shortcut of future lifetime applies to
 the unlimited lifetime only

---
 src/actuarialmath/constantforce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 8f5cb3a..230073b 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -43,7 +43,7 @@ class ConstantForce(MortalityLaws):
           moment : first (1) or second (2) moment
         """
         if not curtate:    # Var[Tx] = 1/mu^2, E[Tx] = 1/mu
-            if moment == MortalityLaws.VARIANCE:
+            if moment == MortalityLaws.VARIANCE and t < 0:
                 return 1. / self.mu_**2   # shortcut
             elif moment == 1:
                 e = 1 / self.mu_  # infinite n case shortcut
-- 
2.43.0


From b876459d519f9f09623996878ff6b3406ecef815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 018/124] fix: constant force expectation over a year without
 mortality is the year itself

---
 src/actuarialmath/fractional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index e614a35..2abf0d4 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -205,7 +205,7 @@ class Fractional(Lifetime):
                     return self.q_r(x=x, s=s, t=t)*(t/2) + self.p_r(x, s=s, t=t)*t
             else:         # Constant Force case
                 mu = -math.log(max(0.00001, self.p_x(x=x, s=s)))  # constant mu
-                return (1. - math.exp(-mu*t)) / mu                # shortcut
+                return (1. - math.exp(-mu*t)) / mu if mu else t   # shortcut
 
         # t > 1: apply one-year recursion formula            
         else:
-- 
2.43.0


From fb1674b492f0cebf944855178c6f31ae772bbeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 019/124] fix: variance of a whole life insurance squares its
 mean once

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 1973599..6b7c0a3 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -108,7 +108,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
-            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)**2
+            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         return self.A_x(x, s=s, t=self.WHOLE, benefit=lambda x,t: b, 
                         moment=moment, discrete=discrete)
-- 
2.43.0


From 6b763066711a954faa08c8ca17bcab2c9bd6e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 020/124] fix: variance of a term insurance uses both moments

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 6b7c0a3..a0c88f8 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -131,7 +131,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.term_insurance(x, s=s, t=t, moment=2, discrete=discrete)
-            A2 = self.term_insurance(x, s=s, t=t, discrete=discrete)**2
+            A1 = self.term_insurance(x, s=s, t=t, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         A = self.whole_life_insurance(x, s=s, b=b, moment=moment, 
                                       discrete=discrete)
-- 
2.43.0


From f810628b7c434c88f5f4cb893fcb1ba57127ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 021/124] fix: variance of an endowment insurance scales with
 the square of the benefit

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index a0c88f8..f3058b1 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -195,7 +195,7 @@ class Insurance(Fractional):
                                           b=b, moment=2, discrete=discrete)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment,
                                           b=b, discrete=discrete)
-            return self.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment,
                                 discrete=discrete)
-- 
2.43.0


From 495b4ea68e509fb873985fe246552b91ef703c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 022/124] fix: pure endowment due immediately pays its amount,
 with no variance

---
 src/actuarialmath/insurance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index f3058b1..7352ff1 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -29,8 +29,8 @@ class Insurance(Fractional):
         """
         if t < 0:  # t infinite => EPV(t) = 0
             return 0   
-        if t == 0:    # t = 0 => EPV(0) = 1
-            return 1
+        if t == 0:    # t = 0 => EPV(0) = endowment, for certain
+            return 0 if moment == self.VARIANCE else endowment**moment
         t = self.max_term(x+s, t)
         t_p_x = self.p_x(x, s=s, t=t)
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
-- 
2.43.0


From 59f8b0e90cc0ab1e2a00055a72cd6b60137464be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 023/124] fix: second moment of custom insurances squares the
 endowment

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 7352ff1..7c50e58 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -64,7 +64,7 @@ class Insurance(Fractional):
         """
         assert moment >= 1
         if t >=0 and endowment > 0:
-            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment
+            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment**moment
         else:
             E = 0
         t = self.max_term(x+s+u, t=t)
-- 
2.43.0


From 36bf81cda070ce61491963ce1d44eb6960b05ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 024/124] fix: LifeTable.E_x variance and endowment amount as
 in the base class

---
 src/actuarialmath/lifetable.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 3621753..5559c4f 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -258,27 +258,30 @@ class LifeTable(Reserves):
         else:
             return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
-    def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1) -> float:
+    def E_x(self, x: int, s: int = 0, t: int = 1, endowment: int = 1,
+            moment: int = 1) -> float:
         """Pure Endowment from life table and interest rate
 
         Args:
           x : age of selection
           s : years after selection
           t : survives t years
+          endowment : amount of pure endowment
           moment : return first (1) or second (2) moment or variance (-2)
         """
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else float(endowment**moment)
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
         p = self.l_x(x, s=s+t) / self.l_x(x, s=s)
         if moment == self.VARIANCE:
-            return self.interest.v_t(t)**moment * p * (1 - p)
+            return (endowment * self.interest.v_t(t))**2 * p * (1 - p)
         if moment == 1:
-            return self.interest.v_t(t) * p
+            return endowment * self.interest.v_t(t) * p
         # SULT shortcut: t_E_x(moment=2) = t_E_x(moment=1) * v**t
-        return self.interest.v_t(t)**(moment-1) * self.E_x(x, s=s, t=t)
+        return ((endowment * self.interest.v_t(t))**(moment-1)
+                * self.E_x(x, s=s, t=t, endowment=endowment))
 
     def __getitem__(self, col: str) -> Dict[int, float]:
         """Returns a column of the life table
-- 
2.43.0


From 4ebd85464bad58af372bdc33ce1443055c839011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 025/124] fix: ConstantForce.E_x variance, and amount of an
 endowment due immediately

---
 src/actuarialmath/constantforce.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 230073b..26c6c22 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -64,9 +64,11 @@ class ConstantForce(MortalityLaws):
           moment : compute first or second moment
         """
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else float(endowment**moment)
         if t < 0:
             return 0.
+        if moment == self.VARIANCE:
+            return super().E_x(x, s=s, t=t, endowment=endowment, moment=moment)
         delta = moment * self.interest.delta   # multiply force of interest
         return math.exp(-(self.mu_ + delta) * t) * endowment**moment
 
-- 
2.43.0


From a03014b26bd75b51024e72dff922f98f025810d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 026/124] fix: Uniform term and whole life shortcuts: second
 moment, variance, term and oldest age

---
 src/actuarialmath/mortalitylaws.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 91c65de..2106cb0 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -231,7 +231,7 @@ class Uniform(Beta):
                 return (self.whole_life_insurance(x, s=s, b=b, moment=2, 
                                                   discrete=False) -
                         self.whole_life_insurance(x, s=s, b=b, moment=1, 
-                                                    discrete=False)**2) * b**2
+                                                    discrete=False)**2)
             return self.term_insurance(x, s=s, t=self.omega_-(x+s), b=b,
                                        moment=moment, discrete=False)
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
@@ -249,16 +249,18 @@ class Uniform(Beta):
           moment : compute first or second moment
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        if not discrete and moment in [1, Beta.VARIANCE]:
+        if not discrete:
             if moment == Beta.VARIANCE:
                 return (self.term_insurance(x, s=s, b=b, t=t, moment=2, 
                                             discrete=False) -
                         self.term_insurance(x, s=s, b=b, t=t, 
-                                            discrete=False)**2) * b**2
+                                            discrete=False)**2)
+            if x+s >= self.omega_:
+                return 0.
             t = self.max_term(x+s, t)                                        
-            return (b * (1 - self.interest.v_t(t)) 
-                    / (self.interest.delta * (self.omega_ - (x+s))))
-        return super().term_insurance(x, s=s, moment=moment, b=b, 
+            return (b**moment * (1 - self.interest.v_t(t)**moment) 
+                    / (moment * self.interest.delta * (self.omega_ - (x+s))))
+        return super().term_insurance(x, s=s, t=t, moment=moment, b=b, 
                                       discrete=discrete)
 
 class Makeham(MortalityLaws):
-- 
2.43.0


From e8f25fcb378d5149177c3afbab06d2804a8f4b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:33 +0000
Subject: [PATCH 027/124] fix: Uniform.E_x counts years after selection, allows
 the variance and an endowment amount

---
 src/actuarialmath/mortalitylaws.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 2106cb0..20c10d3 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -192,7 +192,7 @@ class Uniform(Beta):
 
     
     def E_x(self, x: int, s: int = 0, t: int = Beta.WHOLE, 
-            moment: int = 1) -> float:
+            endowment: int = 1, moment: int = 1) -> float:
         """Shortcut for Pure Endowment
 
         Args:
@@ -202,17 +202,16 @@ class Uniform(Beta):
           endowment : amount of pure endowment
           moment : compute first or second moment
         """
-        assert moment > 0
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else float(endowment**moment)
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
-        t_p_x = (self.omega_ - x - t) / (self.omega_ - x)
+        t_p_x = (self.omega_ - (x+s) - t) / (self.omega_ - (x+s))
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
-            return self.interest.v_t(t)**2 * t_p_x * (1 - t_p_x)
-        return (self.interest.v_t(t)**moment * (self.omega_ - x - t) 
-                / (self.omega_ - x))
+            return ((endowment * self.interest.v_t(t))**2 
+                    * t_p_x * (1 - t_p_x))
+        return (endowment * self.interest.v_t(t))**moment * t_p_x
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
                              b: int = 1, discrete: bool = True) -> float:
-- 
2.43.0


From 104949d6160233af7285764d7401654b38742ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 028/124] fix: whole life annuity at zero interest scales with
 its amount

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index a16da37..e7a3646 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -131,7 +131,7 @@ class Annuity(Insurance):
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
             return b * (1 - A) / interest if interest > 0 else b * (1 - A)
         else:  # when interest=1, annuity is expected life time (+1 if discrete)
-            return discrete + self.e_x(x=x, s=s, curtate=discrete)
+            return b * (discrete + self.e_x(x=x, s=s, curtate=discrete))
 
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
-- 
2.43.0


From aae540c43e8eaf927bc1a922131465513b40cb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 029/124] fix: certain part of a certain and life annuity pays
 the benefit amount, in full

---
 src/actuarialmath/annuity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index e7a3646..732e0dd 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -198,11 +198,13 @@ class Annuity(Insurance):
         Examples:
           >>> life.certain_life_annuity(x=24, u=5, t=10)
         """
+        certain = self.interest.annuity(u if u >= 0 else self.max_term(x+s, u),
+                                        m=int(discrete))
         u = self.max_term(x+s, u)
         if u < 0:
-            return 0.
+            return b * certain
         a = self.deferred_annuity(x, s=s, u=u, t=t, b=b, discrete=discrete)
-        return self.interest.annuity(u, m=int(discrete)) + a
+        return b * certain + a
 
     def increasing_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
                            b: int = 1, discrete: bool = True) -> float:
-- 
2.43.0


From 07c7a4282362253335227f5c2322b273c7671efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 030/124] fix: continuous annuity by first principles starts
 from [x]+s

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 732e0dd..005ca93 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -33,7 +33,7 @@ class Annuity(Insurance):
                          * self.p_x(x, s=s, t=k) for k in range(int(u), int(t+u))])
             else:   # use continuous first principles
                 Y = lambda t: (benefit(x+s, t+u) * self.interest.v_t(t+u) 
-                               * self.S(x, 0, t=t+u))
+                               * self.S(x, s, t+u))
                 a = self.integral(Y, 0, t)
         except:
             raise Exception("Failed to numerically integrate EPV of annuity")
-- 
2.43.0


From 5a69f707347c558aaa773cdb04722c1f88283771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 031/124] fix: continuously increasing annuity pays at rate t,
 as its decreasing counterpart assumes

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 005ca93..ff210be 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -221,7 +221,7 @@ class Annuity(Insurance):
           >>> life.increasing_annuity(x=24, t=10)
         """
         t = self.max_term(x+s, t=t)
-        benefit = lambda x, s: b * (s + 1) # increasing benefit
+        benefit = lambda x, s: b * (s + int(discrete)) # increasing benefit
         return self.a_x(x, s=s, benefit=benefit, t=t, discrete=discrete)
 
     def decreasing_annuity(self, x: int, s: int = 0, t: int = 0, 
-- 
2.43.0


From a0b8ff09c9348e05f64804b718504c737f5a865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 032/124] fix: expectation of life at an age without lives is
 zero, not a division by zero

---
 src/actuarialmath/lifetable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 5559c4f..5cf4445 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -254,7 +254,7 @@ class LifeTable(Reserves):
             # approximate complete by UDD between integer age recursion
             e = sum([(1 - curtate)*(self.l(x, s=s+k) - self.l(x, s=s+k+1))*0.5
                      + self.l(x, s=s+k+1) for k in range(t)])  # k_p_x = l_x+k/l_x
-            return e / self.l(x, s=s)
+            return e / self.l(x, s=s) if e else 0.
         else:
             return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
-- 
2.43.0


From 9826f59352ce7414872902bc9fd73cfa80cf86ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 033/124] fix: select table insurance and annuity entries are
 used for level whole life contracts only, scaled by the benefit

---
 src/actuarialmath/selectlife.py | 39 ++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 1827586..8ca778d 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -292,7 +292,7 @@ class SelectLife(LifeTable):
           s : years after selection
         """
         assert moment == 1 and discrete, "Must be discrete insurance"
-        if self._isin_sel(x, s, 'A'):
+        if not kwargs and self._isin_sel(x, s, 'A'):
             return self._get_sel(x, s, 'A')
         else:
             return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
@@ -306,10 +306,43 @@ class SelectLife(LifeTable):
           s : years after selection
         """
         assert moment == 1 and discrete, "Must be discrete annuity"
-        if self._isin_sel(x, s, 'a'):
+        if not kwargs and self._isin_sel(x, s, 'a'):
             return self._get_sel(x, s, 'a')
         else:
-            return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
+            return super().a_x(x=x, s=s, discrete=True, **kwargs)
+
+    def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1,
+                             b: int = 1, discrete: bool = True) -> float:
+        """Returns whole life insurance, from select table if available
+
+        Args:
+          x : age of selection
+          s : years after selection
+          moment : compute first or second moment
+          b : amount of benefit
+          discrete : benefit paid year-end (True) or moment of death (False)
+        """
+        if moment == 1 and discrete and self._isin_sel(x, s, 'A'):
+            return b * self._get_sel(x, s, 'A')
+        return super().whole_life_insurance(x, s=s, moment=moment, b=b,
+                                            discrete=discrete)
+
+    def whole_life_annuity(self, x: int, s: int = 0, b: int = 1,
+                           variance: bool = False,
+                           discrete: bool = True) -> float:
+        """Returns whole life annuity, from select table if available
+
+        Args:
+          x : age of selection
+          s : years after selection
+          b : annuity benefit amount
+          variance : return EPV (True) or variance (False)
+          discrete : annuity due (True) or continuous (False)
+        """
+        if not variance and discrete and self._isin_sel(x, s, 'a'):
+            return b * self._get_sel(x, s, 'a')
+        return super().whole_life_annuity(x, s=s, b=b, variance=variance,
+                                          discrete=discrete)
 
     def l_x(self, x: int, s: int = 0) -> float:
         """Returns number of lives aged [x]+s computed from select table
-- 
2.43.0


From b74c6c921dc5cfc86eefc70af6a0050b183644e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 034/124] fix: continuous values from a life table integrate
 year by year, as its functions have corners at integer ages

---
 src/actuarialmath/lifetable.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 5cf4445..654f3d5 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -6,7 +6,7 @@ import math
 import numpy as np
 import matplotlib.pyplot as plt
 import pandas as pd
-from typing import Dict
+from typing import Callable, Dict
 from actuarialmath import Reserves
 
 class LifeTable(Reserves):
@@ -172,6 +172,21 @@ class LifeTable(Reserves):
                 self._table['l'][self._MINAGE] = radix
         return self
 
+    @staticmethod
+    def integral(fun: Callable[[float], float],
+                 lower: float, upper: float) -> float:
+        """Compute integral year by year, since life table functions are only
+        piecewise smooth between integer ages
+
+        Args:
+          fun : function to integrate
+          lower : lower limit
+          upper : upper limit
+        """
+        years = [lower, *range(math.floor(lower) + 1, math.ceil(upper)), upper]
+        return sum([Reserves.integral(fun, lower=a, upper=b)
+                    for a, b in zip(years[:-1], years[1:])])
+
     def mu_x(self, x: int, s: int = 0, t: int = 0) -> float:
         """Compute mu_x from p_x in life table
 
-- 
2.43.0


From 190274e8402522cf951c89fc123b4e9c55b613f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 035/124] fix: constant force whole life insurance scales with
 its benefit

---
 src/actuarialmath/constantforce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 26c6c22..39bf85c 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -135,7 +135,7 @@ class ConstantForce(MortalityLaws):
         """
         if moment > 0 and not discrete:
             delta = moment * self.interest.delta   # multiply force of interest
-            return self.mu_ / (self.mu_ + delta) if self.mu_ > 0 else 0.
+            return b**moment * self.mu_ / (self.mu_ + delta) if self.mu_ > 0 else 0.
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
                                             discrete=discrete)
 
-- 
2.43.0


From 2b6d9d5287858ecfd20719363cd9af5d1b5d80e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 036/124] fix: numerical integral over a long range does not
 step over mass close to its lower limit

---
 src/actuarialmath/actuarial.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 1a45961..fddda78 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -55,8 +55,11 @@ class Actuarial(object):
           upper : upper limit
           lower : lower limit
         """
-        y = scipy.integrate.quad(fun, lower, upper, full_output=1)
-        return y[0]
+        y, step = 0., 1.
+        while upper - lower > 2 * step:   # widening steps over long ranges, so
+            y += scipy.integrate.quad(fun, lower, lower + step, full_output=1)[0]
+            lower, step = lower + step, 2 * step  # as not to miss mass near lower
+        return y + scipy.integrate.quad(fun, lower, upper, full_output=1)[0]
 
     @staticmethod
     def derivative(fun: Callable[[float], float], x: float) -> float:
-- 
2.43.0


From 207ad890dabc85b561db8b64af1d5c73a0672f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 037/124] fix: decreasing insurance is for [x]+s, not only for
 an age at selection

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 7c50e58..8756b37 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -236,7 +236,7 @@ class Insurance(Fractional):
         >>> life.decreasing_insurance(x=0, t=10)
         """
         assert t > 0  # decreasing must be term insurance
-        A = self.term_insurance(x, t=t, b=b, discrete=discrete)
+        A = self.term_insurance(x, s=s, t=t, b=b, discrete=discrete)
         n = t + int(discrete)   #  (DA)_x:n + (IA)_x:n = (n+1) A^1_x:n
         return A*n - self.increasing_insurance(x, s=s, t=t, b=b, 
                                                discrete=discrete)
-- 
2.43.0


From b500abc4d9c0c82f6a5b72744635920edfa63b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 038/124] fix: decreasing annuity starts from its own term also
 when it runs past the oldest age

---
 src/actuarialmath/annuity.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index ff210be..e5dd71f 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -239,7 +239,6 @@ class Annuity(Insurance):
           >>> life.decreasing_annuity(x=24, t=10)
         """
         assert t >= 0   # decreasing must be till term
-        t = self.max_term(x+s, t=t)
         a = self.temporary_annuity(x, s=s, t=t, discrete=discrete)
         n = t + int(discrete)
         return b * (a*n - self.increasing_annuity(x, s=s, t=t, discrete=discrete))
-- 
2.43.0


From 749b8b9addbfd36b4908646530140af97e7c1a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 039/124] fix: solve falls back on a bracketing method when the
 guess does not converge

---
 src/actuarialmath/actuarial.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index fddda78..15a5d77 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -98,12 +98,20 @@ class Actuarial(object):
             return scipy.optimize.minimize_scalar(f, grid).x    
         else:     # solve root
             f = lambda x: fun(x) - target
+            values = []
             if isinstance(grid, (list, tuple)):
-                grid = min([(abs(f(x)), x)    # guess can be list of guesses
-                            for x in np.linspace(min(grid), max(grid), 5)])[1]
+                values = [(x, f(x)) for x in   # guess can be list of guesses
+                          np.linspace(min(grid), max(grid), 5)]
+                grid = min([(abs(y), x) for x, y in values])[1]
             output = scipy.optimize.fsolve(f, [grid], full_output=True)
-            fun(output[0][0])   # call again with final in case want side effect
-            return output[0][0]
+            root = output[0][0]
+            if not abs(f(root)) <= 1e-6 * max(1., abs(target)):
+                for (a, fa), (b, fb) in zip(values, values[1:]):
+                    if fa * fb <= 0:   # did not converge, but is bracketed
+                        root = scipy.optimize.brentq(f, a, b)
+                        break
+            fun(root)   # call again with final in case want side effect
+            return root
 
     def add_term(self, t: int, n: int) -> int:
         """Add two terms, either term may be Whole Life
-- 
2.43.0


From caa53b29b31c2201b1f69b142b6e78b0142f0147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 040/124] fix: time of death from the present value of an
 annuity at zero interest

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index e5dd71f..b556118 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -310,7 +310,7 @@ class Annuity(Insurance):
         Args:
           Y : Present value of benefits paid
         """
-        if self.interest.v == 0.:
+        if self.isclose(self.interest.delta):
             return Y
         else:
             return math.log(1 - self.interest.delta*Y) / math.log(self.interest.v)
-- 
2.43.0


From 3ca98f90aa59ff96df5f4130d2a14fa8d894a685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 041/124] fix: percentile of annual annuity counted one payment
 too many

---
 src/actuarialmath/annuity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index b556118..02eeedc 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -302,6 +302,8 @@ class Annuity(Insurance):
           discrete : annuity due (True) or continuous (False)
         """
         t = self.Y_t(x, prob, discrete=discrete)
+        if discrete:   # t is number of annual payments if death is by then
+            t = max(0, t - 1)
         return self.Y_from_t(t=t, discrete=discrete)
 
     def Y_to_t(self, Y: float) -> float:
-- 
2.43.0


From 618c0c198ca42f32103185934fc69adaaf124e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 042/124] fix: plots value the annotated benefit at its own
 age, and draw bars of a defined width

---
 src/actuarialmath/annuity.py   | 8 ++++----
 src/actuarialmath/insurance.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 02eeedc..8ac7ea0 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -383,7 +383,7 @@ class Annuity(Insurance):
     
         if T is not None:
             # indicate PV benefit Y(T*)
-            Y = self.Y_from_t(T, discrete=discrete) * benefit(self._MINAGE, T)
+            Y = self.Y_from_t(T, discrete=discrete) * benefit(x, s+T)
             
             label1, = ax.plot(T, Y, c=color, marker='o',
                               label=f"Y({T:.2f})={Y:.4f}")            
@@ -400,7 +400,7 @@ class Annuity(Insurance):
         ax.set_ylabel(f"$Y({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return Y if T else None
+        return Y if T is not None else None
 
     def _Y_plot(self, x: int, s: int = 0, stop : int = 0,
                 benefit: Callable = lambda x,k: 1,
@@ -431,7 +431,7 @@ class Annuity(Insurance):
         # plot benefit values
         y = [benefit(x, s+t) * self.Y_from_t(t, discrete=discrete) for t in steps]
         if T is None:
-            ax.bar(steps, y, width=stepsize, alpha=0.5, color=color)
+            ax.bar(steps, y, width=step, alpha=0.5, color=color)
             Y = None
         else:
             ax.step(steps, y, ':', c=color, where='pre' if discrete else 'post')
@@ -442,7 +442,7 @@ class Annuity(Insurance):
             xjig = (xmax - xmin) / 50
             
             # indicate PV benefit Y(T*)
-            Y = self.Y_from_t(T, discrete=discrete) * benefit(self._MINAGE, T)
+            Y = self.Y_from_t(T, discrete=discrete) * benefit(x, s+T)
             ax.plot(T, Y, c=color, marker='o')
             ax.text(T + xjig, Y + 1*yjig, f"Y*={Y:.2f}", c=color)
 
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 8756b37..cfe0a85 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -391,7 +391,7 @@ class Insurance(Fractional):
             
         if T is not None:
             # indicate PV of benefit Z(T*)
-            Z = benefit(self._MINAGE, T) * self.Z_from_t(T, discrete=discrete)
+            Z = benefit(x, s+T) * self.Z_from_t(T, discrete=discrete)
             label1, = ax.plot(T, Z, c=color, marker='o',
                               label=f"Z({T:.2f})={Z:.4f}")
             #ax.text(T + xjig, Z, f"Z({T:.2f})={Z:.4f}", c=color)
@@ -407,7 +407,7 @@ class Insurance(Fractional):
         ax.set_ylabel(f"$Z({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return Z if T else None
+        return Z if T is not None else None
 
     def _Z_plots(self,
                  x: int,
@@ -454,7 +454,7 @@ class Insurance(Fractional):
             xjig = (xmax - xmin) / 50
             
             # indicate PV of benefit Z(T*)
-            Z = b=benefit(self._MINAGE, T) * self.Z_from_t(T, discrete=discrete)
+            Z = benefit(x, s+T) * self.Z_from_t(T, discrete=discrete)
             ax.plot(T, Z, c=color, marker='o')
             ax.text(T, Z + yjig, f"Z*={Z:.4f}", c=color)
 
@@ -511,7 +511,7 @@ class Insurance(Fractional):
         ax.tick_params(axis='y', colors='r')
 
         if T is not None:   # plot PV benefit value and survival prob at given T
-            Z = benefit(self._MINAGE, T) * self.Z_from_t(T, discrete=discrete)
+            Z = benefit(x, s+T) * self.Z_from_t(T, discrete=discrete)
             label1, = ax.plot(T, Z, c='r', marker='o',
                               label=f"Z({K}*={T:.2f}): {Z:.4f}")
             ax.legend(handles=[label1], loc='upper left')
-- 
2.43.0


From 6a3f632f49937c895816a2213827a687722f9732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 043/124] fix: solve brackets the root when the range of
 guesses shows one, else uses the guess

---
 src/actuarialmath/actuarial.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 15a5d77..02c9645 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -98,20 +98,18 @@ class Actuarial(object):
             return scipy.optimize.minimize_scalar(f, grid).x    
         else:     # solve root
             f = lambda x: fun(x) - target
-            values = []
             if isinstance(grid, (list, tuple)):
                 values = [(x, f(x)) for x in   # guess can be list of guesses
                           np.linspace(min(grid), max(grid), 5)]
                 grid = min([(abs(y), x) for x, y in values])[1]
-            output = scipy.optimize.fsolve(f, [grid], full_output=True)
-            root = output[0][0]
-            if not abs(f(root)) <= 1e-6 * max(1., abs(target)):
                 for (a, fa), (b, fb) in zip(values, values[1:]):
-                    if fa * fb <= 0:   # did not converge, but is bracketed
+                    if grid in (a, b) and fa * fb < 0:  # best guess is bracketed
                         root = scipy.optimize.brentq(f, a, b)
-                        break
-            fun(root)   # call again with final in case want side effect
-            return root
+                        fun(root)   # call again with final in case want side effect
+                        return root
+            output = scipy.optimize.fsolve(f, [grid], full_output=True)
+            fun(output[0][0])   # call again with final in case want side effect
+            return output[0][0]
 
     def add_term(self, t: int, n: int) -> int:
         """Add two terms, either term may be Whole Life
-- 
2.43.0


From b28a1ae1c1ec7e4c6deb81e356e9305e85a4c0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 044/124] fix: term of policies valued after issue was capped
 by the wrong age

---
 src/actuarialmath/policyvalues.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 3269cb4..c34361f 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -164,7 +164,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:   # Endowment Insurance 
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2,
                                             discrete=discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete)
@@ -194,12 +194,12 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:  # Shortcut available for (equal) Endowment Insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=discrete)
             A = self.endowment_insurance(x, s=s, t=n, discrete=discrete)
         else:   # Special Term or (unequal) Endowment insurance has no shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete,
                                             b=b, endowment=endowment)
             a1 = self.temporary_annuity(x, s=s+t, t=n-t, b=b, 
@@ -264,7 +264,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, 
                                             discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2, 
                                             discrete=contract.discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
@@ -293,11 +293,11 @@ class PolicyValues(Premiums):
             A = self.whole_life_insurance(x, s=s+t, 
                                           discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment Ins shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=contract.discrete)
         else:  # Special term insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.term_insurance(x, s=s+t, t=n-t, discrete=contract.discrete)
             a = self.temporary_annuity(x, s=s+t, t=n-t,
                                        discrete=contract.discrete)
-- 
2.43.0


From c511d2a95b59883c30d8b396b95706b679f235d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 045/124] fix: renewal contract of a whole life policy is whole
 life

---
 src/actuarialmath/policyvalues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index c34361f..1d7e2b2 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -92,7 +92,7 @@ class Contract(Actuarial):
                         discrete=self.discrete,
                         premium=self.premium,
                         endowment=self.endowment,
-                        T=self.T - t)
+                        T=self.add_term(self.T, -t))
 
     @property
     def renewal_profit(self) -> float:
-- 
2.43.0


From fe131373672fd436c63f4ab3f65fe5cba3a34566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 046/124] fix: loss on survival beyond the term pays no death
 claim

---
 src/actuarialmath/policyvalues.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 1d7e2b2..9e832ef 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -322,13 +322,12 @@ class PolicyValues(Premiums):
         """
         c = contract or Contract()
         k = math.floor(t) if c.discrete else t
-        if c.T > 0 and k >= c.T:   # if endowment insurance and t is beyond term
-            t = c.T
-            endowment = c.endowment * self.Z_from_t(t)
+        if c.T > 0 and k >= c.T:   # if survives beyond term: endowment, no claim
+            benefits = c.endowment * self.interest.v_t(c.T)
+            t = c.T - 1 if c.discrete else c.T      # premiums paid for T years
         else:
-            endowment = 0
-        return ((c.claims_cost * self.Z_from_t(t, discrete=c.discrete))
-                + endowment
+            benefits = c.claims_cost * self.Z_from_t(t, discrete=c.discrete)
+        return (benefits
                 + c.initial_cost
                 - (c.renewal_profit * self.Y_from_t(t, discrete=c.discrete)))
 
-- 
2.43.0


From e7bc4f73a551156ec87c5720790fc6f18129cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 047/124] fix: time of death given the loss, and loss plot
 without a given time

---
 src/actuarialmath/policyvalues.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 9e832ef..c6c1b8e 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -352,13 +352,16 @@ class PolicyValues(Premiums):
           contract : policy contract terms and expenses
         """
         c = contract or Contract()
-        T = Contract.solve(lambda t: self.L_from_t(t, c),
-                           target=L,
-                           grid=(0, self._MAXAGE),
-                           mad=True)
-        if not c.discrete:
-            return T
-        return math.floor(T) if self.L_from_t(t=T, contract=c) <= L else math.ceil(T)
+        end = c.T if c.T > 0 else self._MAXAGE
+        tol = 1e-9 * max(1., abs(L))
+        if c.discrete:   # first year such that loss, if death then, is within L
+            return next((k for k in range(end)
+                         if self.L_from_t(k, contract=c) <= L + tol), end)
+        if ((self.L_from_t(0, contract=c) > L) ==
+            (self.L_from_t(end, contract=c) > L)):    # always or never so
+            return 0. if self.L_from_t(0, contract=c) <= L else float(end)
+        return self.solve(lambda t: self.L_from_t(t, contract=c),
+                          target=L, grid=(0, end))
 
     def L_to_prob(self, x: int, L: float,
                   contract: Contract = Contract()) -> float:
@@ -424,6 +427,7 @@ class PolicyValues(Premiums):
             bx.set_ylabel(f"$S({K})$", color='g')
             bx.tick_params(axis='y', colors='g')
 
+        z = None
         if T is not None:
             # plot indicate(T*)
             z = self.L_from_t(T, contract=contract)
@@ -436,7 +440,8 @@ class PolicyValues(Premiums):
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
-        ax.set_title(f"PV future loss at issue r.v. $_0L$")
+        ax.set_title(f"PV future loss at issue r.v. $_0L$"
+                     if title is None else title)
         ax.set_ylabel(f"$L({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-- 
2.43.0


From b1811b2ba706a198897f5dc0194bfd4f76fe6e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 048/124] fix: set_reserves of a new policy starts a new table,
 and keeps given reserves at issue and maturity

---
 src/actuarialmath/reserves.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/reserves.py b/src/actuarialmath/reserves.py
index f9e7ec4..5902585 100644
--- a/src/actuarialmath/reserves.py
+++ b/src/actuarialmath/reserves.py
@@ -31,13 +31,16 @@ class Reserves(PolicyValues):
         Examples:
           >>> life = Reserves().set_reserves(T=3)
         """
-        if T:
+        if T:   # a new policy: do not mix in reserves of the previous policy
             self.T = T
+            self._reserves['V'] = {}
         if V:
             self._reserves['V'].update(V)
             self.T = max(len(V) - 1, self.T)
-        self._reserves['V'][0] = 0  # initial reserve is 0 by equivalence
-        self._reserves['V'][self.T] = endowment  # n_V is 0 or endowment
+        # initial reserve is 0 by equivalence
+        self._reserves['V'].setdefault(0, 0)
+        if endowment or self.T not in self._reserves['V']:
+            self._reserves['V'][self.T] = endowment  # n_V is 0 or endowment
         return self
 
     def fill_reserves(self, x: int, s: int = 0, reserve_benefit: bool = False,
-- 
2.43.0


From 7a599aa9280a298ef3605ad7a2d72702eeb359a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 049/124] fix: reserves fill pays the settlement expense with
 the death benefit

---
 src/actuarialmath/reserves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/reserves.py b/src/actuarialmath/reserves.py
index 5902585..b06d416 100644
--- a/src/actuarialmath/reserves.py
+++ b/src/actuarialmath/reserves.py
@@ -63,7 +63,7 @@ class Reserves(PolicyValues):
                                  per_policy = -contract.endowment)
                 elif t == 1:
                     v = self.t_V(x=x, s=s, t=t, premium=contract.premium, 
-                                 benefit=lambda t: contract.benefit,
+                                 benefit=lambda t: contract.claims_cost,
                                  reserve_benefit=reserve_benefit,
                                  per_premium=contract.initial_premium, 
                                  per_policy=contract.initial_policy)
@@ -71,7 +71,7 @@ class Reserves(PolicyValues):
                     v = 0
                 else:
                     v = self.t_V(x=x, s=s, t=t, premium=contract.premium, 
-                                 benefit=lambda t: contract.benefit,
+                                 benefit=lambda t: contract.claims_cost,
                                  reserve_benefit=reserve_benefit,
                                  per_premium=contract.renewal_premium, 
                                  per_policy=contract.renewal_policy)
-- 
2.43.0


From 70c419a2a12179cf194c301311bea4b12076298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 050/124] fix: life table fill rules never divide by zero and
 use the deaths

---
 src/actuarialmath/lifetable.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 654f3d5..a127911 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -119,7 +119,7 @@ class LifeTable(Reserves):
                 return self._table['q'][x]
             if x in self._table['p']:
                 return 1 - self._table['p'][x]
-            if x in self._table['d'] and x in self._table['l']:
+            if x in self._table['d'] and self._table['l'].get(x):
                 return self._table['d'][x] / self._table['l'][x]
             return None
 
@@ -135,11 +135,15 @@ class LifeTable(Reserves):
             """Helper to try compute number of lives aged x: l_x"""
             if x in self._table['l']:
                 return self._table['l'][x]
-            if x+1 in self._table['l'] and x in self._table['q']:
+            if x+1 in self._table['l'] and self._table['q'].get(x, 1) < 1:
                 return self._table['l'][x+1] / (1 - self._table['q'][x])
             if x-1 in self._table['l'] and x-1 in self._table['q']:
                 return self._table['l'][x-1] * (1 - self._table['q'][x-1])
-            if x in self._table['d'] and x in self._table['q']:
+            if x+1 in self._table['l'] and x in self._table['d']:
+                return self._table['l'][x+1] + self._table['d'][x]
+            if x-1 in self._table['l'] and x-1 in self._table['d']:
+                return self._table['l'][x-1] - self._table['d'][x-1]
+            if x in self._table['d'] and self._table['q'].get(x):
                 return self._table['d'][x] / self._table['q'][x]
             return None
 
-- 
2.43.0


From 9df31e5a297e0fad4309e0ffc4798dd2abe222f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 051/124] fix: a table loaded by several calls reaches the age
 after its last rate

---
 src/actuarialmath/lifetable.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index a127911..543d321 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -90,10 +90,8 @@ class LifeTable(Reserves):
             self._MINAGE = minage
         if maxage < 0:
             maxage = max([max(v) for v in inputs.values()])
-            if self._MAXAGE < 0:
+            if maxage >= self._MAXAGE:
                 self._MAXAGE = maxage + 1
-            if maxage > self._MAXAGE:
-                self._MAXAGE = maxage
         else:
             self._MAXAGE = maxage
 
-- 
2.43.0


From 9055b16f684d3a80dc248ae27164dbe26cc41570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 052/124] fix: filling a life table again derives every cell
 from the loaded entries

---
 src/actuarialmath/lifetable.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 543d321..7b69317 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -29,6 +29,7 @@ class LifeTable(Reserves):
         super().__init__(udd=udd, **kwargs)
         self._verbose = verbose
         self._table = {'l':{}, 'd':{}, 'q':{}, 'p':{}}  # columns in life table
+        self._loaded = {'l':{}, 'd':{}, 'q':{}, 'p':{}} # entries given by user
 
         # Set basic survival functions by interpolating lifetable integer ages
         def _mu(x: int, s: float) -> float:
@@ -97,7 +98,8 @@ class LifeTable(Reserves):
 
         # update table from inputs
         for label, col in inputs.items():
-            self._table[label].update(col)
+            self._loaded[label].update(col)
+        self._table = {k: dict(v) for k, v in self._loaded.items()}
 
         # derive and fill table values
         if fill:
@@ -154,6 +156,9 @@ class LifeTable(Reserves):
             else:
                 return None
 
+        # discard values derived by an earlier call, which may now be outdated
+        self._table = {k: dict(v) for k, v in self._loaded.items()}
+
         # Iterate a few times to impute life table values
         funs = {'l': l_x, 'd': d_x, 'q': q_x, 'p': p_x}
         updated = 0
-- 
2.43.0


From 4a4935080d8234c84badd177fb38438071e0bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 053/124] fix: pure endowment at an age no lives reach is zero,
 not a division by zero

---
 src/actuarialmath/lifetable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 7b69317..c274c20 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -296,7 +296,7 @@ class LifeTable(Reserves):
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
-        p = self.l_x(x, s=s+t) / self.l_x(x, s=s)
+        p = self.p_x(x, s=s, t=t)
         if moment == self.VARIANCE:
             return (endowment * self.interest.v_t(t))**2 * p * (1 - p)
         if moment == 1:
-- 
2.43.0


From a03e4a568f07a74195065faad0b6f1ebaede0535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:53 +0000
Subject: [PATCH 054/124] fix: set_select loads deaths given as deaths, and
 takes the oldest row from the age selected

---
 src/actuarialmath/selectlife.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 8ca778d..3e0d4f6 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -123,7 +123,7 @@ class SelectLife(LifeTable):
         tables = {
             'l': ifelse(l, {}),
             'q': ifelse(q, {}),
-            'd': ifelse(e, {}),
+            'd': ifelse(d, {}),
             'e': ifelse(e, {}),
             'a': ifelse(a, {}),
             'A': ifelse(A, {})
@@ -140,7 +140,7 @@ class SelectLife(LifeTable):
 
                     if self._MINAGE < 0 or x < self._MINAGE:  # infer min age
                         self._MINAGE = x
-                    if age > self._MAXAGE:                    # infer max age
+                    if x > self._MAXAGE:                      # infer max age
                         self._MAXAGE = x
         if fill:
             self.fill_table(radix=radix)
-- 
2.43.0


From df9a4615ed71cdc9e7dca9648286d2bb27d8e17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:53 +0000
Subject: [PATCH 055/124] fix: select table fill rules follow lives, deaths and
 expectations into the ultimate column and never divide by zero

---
 src/actuarialmath/selectlife.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 3e0d4f6..41f6677 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -182,6 +182,8 @@ class SelectLife(LifeTable):
             for _x, _s in backwards:   # A_x+1 = (A_x - qv) / (p v)
                 if self._isin_sel(_x, _s, 'q') and self._isin_sel(_x, _s, 'A'):
                     q = self._get_sel(_x, _s, 'q')
+                    if q == 1:   # nothing can be inferred when none survive
+                        continue
                     return ((self._get_sel(_x, _s, 'A') - q * self.interest.v)
                             / (self.interest.v * (1 - q)))
 
@@ -201,6 +203,8 @@ class SelectLife(LifeTable):
             for _x, _s in backwards:   # a_x+1 = (a_x - 1) / (p v)
                 if self._isin_sel(_x, _s, 'q') and self._isin_sel(_x, _s, 'a'):
                     p = 1 - self._get_sel(_x, _s, 'q')
+                    if p == 0:   # nothing can be inferred when none survive
+                        continue
                     return (self._get_sel(_x, _s, 'a') - 1)/(p*self.interest.v)
 
 
@@ -210,9 +214,13 @@ class SelectLife(LifeTable):
                 return self._get_sel(x, s, 'l')
             if self._isin_sel(x, s-1, 'l') and self._isin_sel(x, s-1, 'q'):
                 return self._get_sel(x, s-1, 'l')*(1 - self._get_sel(x, s-1, 'q'))
-            if self._isin_sel(x, s+1, 'l') and self._isin_sel(x, s, 'q'):
+            if (self._isin_sel(x, s+1, 'l') and self._isin_sel(x, s, 'q')
+                and self._get_sel(x, s, 'q') < 1):
                 return self._get_sel(x, s+1, 'l') / (1 - self._get_sel(x, s, 'q'))
-            if self._isin_sel(x, s, 'd') and self._isin_sel(x, s, 'q'):
+            if self._isin_sel(x, s+1, 'l') and self._isin_sel(x, s, 'd'):
+                return self._get_sel(x, s+1, 'l') + self._get_sel(x, s, 'd')
+            if (self._isin_sel(x, s, 'd') and self._isin_sel(x, s, 'q')
+                and self._get_sel(x, s, 'q') > 0):
                 return self._get_sel(x, s, 'd') / self._get_sel(x, s, 'q')
 
             backwards = [(x, s-1)]  # to move backwards along row
@@ -222,6 +230,8 @@ class SelectLife(LifeTable):
                 if self._isin_sel(_x, _s, 'l') and self._isin_sel(_x, _s, 'q'):
                     p = 1 - self._get_sel(_x, _s, 'q')
                     return self._get_sel(_x, _s, 'l') * p
+                if self._isin_sel(_x, _s, 'l') and self._isin_sel(_x, _s, 'd'):
+                    return self._get_sel(_x, _s, 'l') - self._get_sel(_x, _s, 'd')
 
         def d_x(x: int, s: int) -> float | None:
             """Helper to solve for deaths at [x]+s: l_[x]+s - l_[x]+s+1"""
@@ -234,7 +244,8 @@ class SelectLife(LifeTable):
             """Helper to solve for one-year mortality [x]+s: q_[x]+s"""
             if self._isin_sel(x, s, 'q'):
                 return self._get_sel(x, s, 'q')
-            if self._isin_sel(x, s, 'd') and self._isin_sel(x, s, 'l'):
+            if (self._isin_sel(x, s, 'd') and self._isin_sel(x, s, 'l')
+                and self._get_sel(x, s, 'l') > 0):
                 return self._get_sel(x, s, 'd') / self._get_sel(x, s, 'l')
             if self._isin_sel(x, s, 'e') and self._isin_sel(x, s+1, 'e'):
                 return 1 - (self._get_sel(x, s, 'e') 
@@ -254,7 +265,8 @@ class SelectLife(LifeTable):
             if s >= self.periods_:     # if in ultimate, can also move up column
                 backwards += [(x-1, s)]
             for _x, _s in backwards:   # e_x+1 = e_x/p_x - 1
-                if self._isin_sel(_x, _s, 'e') and self._isin_sel(_x, _s, 'q'):
+                if (self._isin_sel(_x, _s, 'e') and self._isin_sel(_x, _s, 'q')
+                    and self._get_sel(_x, _s, 'q') < 1):
                     return (self._get_sel(_x, _s, 'e') 
                             / (1 - self._get_sel(_x, _s, 'q'))) - 1
 
-- 
2.43.0


From 12dc4ea3596be5d37d65407a0df2d339c8951501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 056/124] fix: deaths at the last age of a select table follow
 from lives and mortality

---
 src/actuarialmath/selectlife.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 41f6677..27569d1 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -239,6 +239,8 @@ class SelectLife(LifeTable):
                 return self._get_sel(x, s, 'd')
             if self._isin_sel(x, s+1, 'l') and self._isin_sel(x, s, 'l'):
                 return self._get_sel(x, s, 'l') - self._get_sel(x, s+1, 'l')
+            if self._isin_sel(x, s, 'q') and self._isin_sel(x, s, 'l'):
+                return self._get_sel(x, s, 'l') * self._get_sel(x, s, 'q')
 
         def q_x(x: int, s: int) -> float | None:
             """Helper to solve for one-year mortality [x]+s: q_[x]+s"""
-- 
2.43.0


From 3a9fe13f1ce3e25c714e10722054959d8304cd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 057/124] fix: arbitrary initial lives are only assumed for a
 select table without lives

---
 src/actuarialmath/selectlife.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 27569d1..21abb1f 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -293,7 +293,7 @@ class SelectLife(LifeTable):
                                     curr += 1
                                     if self._verbose:
                                         print(f"{curr} {tab}(x={x}, s={s}) = {val}")
-            if 0 not in self._select['l'][self._MINAGE]: # arbitrary initial lives
+            if not any(self._select['l'].values()):  # arbitrary initial lives
                 self._select['l'][self._MINAGE][0] = radix
         return self
 
-- 
2.43.0


From 6e75d64a1ed251b13179247bf79fe3bc79608fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 058/124] fix: whole life and limited expectations of a select
 table follow its rates to the end of the ultimate column

---
 src/actuarialmath/selectlife.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 21abb1f..ebbe3fa 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -367,6 +367,24 @@ class SelectLife(LifeTable):
         """
         return self._get_sel(x, s, 'l')
 
+    def _last_age(self) -> int:
+        """Helper to find the last age with a mortality rate in ultimate column"""
+        return max([x + self.periods_ for x in self._select['q']
+                    if self._isin_sel(x, self.periods_, 'q')],
+                   default=self._MAXAGE + self.periods_)
+
+    def max_term(self, x: int, t: int, u: int = 0) -> int:
+        """Decrease term t if it exceeds the last age in table, which may be beyond
+        the last age selected since the ultimate column continues for older ages
+
+        Args:
+          x : age
+          t : term of insurance or annuity, after deferral period
+          u : term deferred
+        """
+        n = self._last_age() + 1 - (x + u)
+        return n if t < 0 or t > n else t
+
     def p_x(self, x: int, s: int = 0, t: int = 1) -> float:
         """t_p_[x]+s by chain rule: prod(1_p_[x]+s+y) for y in range(t)
 
@@ -375,7 +393,13 @@ class SelectLife(LifeTable):
           s : years after selection
           t : survives t years
         """
-        return np.prod([1 - self._get_sel(x, s+y, 'q') for y in range(t)])
+        p = 1.
+        for y in range(t):
+            q = self._get_sel(x, s+y, 'q')
+            if q is None and x+s+y > self._last_age():
+                return 0.     # no survivors past the oldest age
+            p *= 1 - q
+        return p
 
     def q_x(self, x: int, s: int = 0, t: int = 1, u: int = 0) -> float:
         """t|u_q_[x]+s = [x]+s survives u years, does not survive next t
@@ -398,10 +422,10 @@ class SelectLife(LifeTable):
           t : limit of expected future lifetime
         """
         assert curtate, "Must be curtate lifetimes"
-        if (self._isin_sel(x, s, 'e')):
+        if t < 0 and self._isin_sel(x, s, 'e'):
             return self._get_sel(x, s, 'e')
-        e = sum([self.p_x(x, s=s, t=k+1) for k in range(max(1, t))])
-        return e
+        t = self.max_term(x+s, t)
+        return sum([self.p_x(x, s=s, t=k+1) for k in range(t)])
 
     def frame(self, table: str = 'l') -> pd.DataFrame:
         """Returns select and ultimate table values as a DataFrame
-- 
2.43.0


From 6f014c473e60e7d8e8c384a38a282aac2b1621b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 059/124] fix: fractional lives of laws given by their survival
 function

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 20c10d3..af777af 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -23,7 +23,7 @@ class MortalityLaws(Reserves):
           s : years after selection
           r : fractional year after selection
         """
-        return self.l(x, s+r)
+        return self.l_x(x, s=s+r)
 
     def p_r(self, x: int, s: int = 0, r: float = 0., t: float = 1.) -> float:
         """Fractional age survival probability given special mortality law
-- 
2.43.0


From 70b13eab5f6a9ed385cb229e6bd77827f13b0f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 060/124] fix: uniform term insurance shortcut at zero interest

---
 src/actuarialmath/mortalitylaws.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index af777af..fc05618 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -256,7 +256,9 @@ class Uniform(Beta):
                                             discrete=False)**2)
             if x+s >= self.omega_:
                 return 0.
-            t = self.max_term(x+s, t)                                        
+            t = self.max_term(x+s, t)
+            if self.interest.delta == 0:
+                return b**moment * t / (self.omega_ - (x+s))
             return (b**moment * (1 - self.interest.v_t(t)**moment) 
                     / (moment * self.interest.delta * (self.omega_ - (x+s))))
         return super().term_insurance(x, s=s, t=t, moment=moment, b=b, 
-- 
2.43.0


From f11e238272aea771e957913bb0cfc2533b7fcd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 061/124] fix: mortality rates without extra risk are those of
 the life, and a multiplied rate is at most one

---
 src/actuarialmath/extrarisk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/extrarisk.py b/src/actuarialmath/extrarisk.py
index ee466b9..1e2d61d 100644
--- a/src/actuarialmath/extrarisk.py
+++ b/src/actuarialmath/extrarisk.py
@@ -22,7 +22,7 @@ class ExtraRisk(Actuarial):
                  risk: str = "",
                  extra: float = 0.) -> "ExtraRisk":
         """Specify type and amount of mortality adjustment to apply"""
-        assert not risk or risk in self.risks, "risk must be one of " + str(risks)
+        assert not risk or risk in self.risks, "risk must be one of " + str(self.risks)
         assert extra >= 0, "amount of extra risk must be non-negative"
         self.life = life
         self.extra_ = extra
@@ -81,7 +81,8 @@ class ExtraRisk(Actuarial):
         if self.risk_ in ["ADD_AGE"]:
             return self.life.q_x(x + self.extra_, s=s)
         if self.risk_ in ["MULTIPLY_RATE"]:
-            return self.extra_ * self.life.q_x(x, s=s)
+            return min(1., self.extra_ * self.life.q_x(x, s=s))
+        return self.life.q_x(x, s=s)
 
 if __name__ == "__main__":
     from actuarialmath.selectlife import SelectLife
-- 
2.43.0


From fdb12ee6104db1c8c52dfbd9ae486d29a6ff4599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 062/124] fix: survival beyond the limiting age of a beta law
 is zero, not a division by zero

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index fc05618..51d6368 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -109,7 +109,7 @@ class Beta(MortalityLaws):
             return radix * max(0., omega - (x+s))**alpha
 
         def _S(x: int, s,t : float) -> float:
-            return (max(0., omega-(x+s+t))/(omega-(x+s)))**alpha
+            return (max(0., omega-(x+s+t))/(omega-(x+s)))**alpha if x+s < omega else 0.
 
         def _f(x: int, s,t : float) -> float:
             return _S(x, s, t) * _mu(x, s+t) if x+s+t < omega else 0.
-- 
2.43.0


From 472b2ed2d8fae9f18e1b823bd3b05b5842416463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 063/124] fix: lives of a select table just past its last age
 are the survivors of that age, then none

---
 src/actuarialmath/selectlife.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index ebbe3fa..ca80ab8 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -365,7 +365,12 @@ class SelectLife(LifeTable):
           x : age of selection
           s : years after selection
         """
-        return self._get_sel(x, s, 'l')
+        l = self._get_sel(x, s, 'l')
+        if l is None and s > 0 and x+s > self._last_age():
+            if x+s > self._last_age() + 1:
+                return 0.     # no survivors past the oldest age
+            return self.l_x(x, s=s-1) * self.p_x(x, s=s-1)
+        return l
 
     def _last_age(self) -> int:
         """Helper to find the last age with a mortality rate in ultimate column"""
-- 
2.43.0


From f4b73788e5cf5ed74c02793ad399713e603cf8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 064/124] fix: m-thly insurance sums over the years of its
 term, after any deferral, to the oldest age of the life

---
 src/actuarialmath/mthly.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index f520300..564c2c0 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -114,15 +114,15 @@ class Mthly(Actuarial):
           moment : return first or second moment
         """
         assert moment in [1, 2]
-        t = self.max_term(x+s, t)
+        t = self.life.max_term(x+s+u, t)
         if self.m > 0:
             A = sum([(benefit(x+s, k/self.m) * self.v_m(k+1))**moment 
                      * self.q_m(x, s_m=s*self.m, u_m=k) 
-                     for k in range((t+u) * self.m)])
+                     for k in range(u * self.m, (t+u) * self.m)])
         else:
-            Z = lambda t: ((benefit(x+s, t+u) * self.life.v_t(t+u))**moment
+            Z = lambda t: ((benefit(x+s, t+u) * self.life.interest.v_t(t+u))**moment
                             * self.life.f(x, s, t+u))
-            A = self.life.integrate(Z, 0, t)
+            A = self.life.integral(Z, 0, t)
         return A
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
-- 
2.43.0


From 0047d24819915db810ead483913bb2ff97b2f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 065/124] fix: m-thly whole life insurance and annuity can be
 computed

---
 src/actuarialmath/mthly.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 564c2c0..81b86f5 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -140,7 +140,8 @@ class Mthly(Actuarial):
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             A1 = self.whole_life_insurance(x, s=s)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
-        return sum(self.A_x(x, s=s, b=b, moment=moment))
+        return self.A_x(x, s=s, t=Actuarial.WHOLE, benefit=lambda x,t: b, 
+                        moment=moment)
 
 
     def term_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
@@ -264,7 +265,7 @@ class Mthly(Actuarial):
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
-        return b * (1 - self.whole_life_insurance(x, s=s)) / self.d
+        return b * self.annuity_twin(self.whole_life_insurance(x, s=s))
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Annuity.WHOLE, 
                           b: int = 1, variance: bool = False) -> float:
-- 
2.43.0


From a5cb702c45fb1e79052884f658a03fe19a72f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 066/124] fix: m-thly deferred insurance is deferred by u years
 as documented

---
 src/actuarialmath/mthly.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 81b86f5..0d847d3 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -167,7 +167,7 @@ class Mthly(Actuarial):
         A -= E * self.whole_life_insurance(x, s=s+t, b=b, moment=moment)
         return A
 
-    def deferred_insurance(self, x: int, s: int = 0, n: int = 0, b: int = 1, 
+    def deferred_insurance(self, x: int, s: int = 0, u: int = 0, b: int = 1, 
                            t: int = Annuity.WHOLE, moment: int = 1) -> float:
         """Deferred insurance n|_A_x:t^1 = discounted whole life
 
@@ -179,14 +179,14 @@ class Mthly(Actuarial):
           b : amount of benefit
           moment : return first or second moment
         """
-        if self.life.max_term(x+s, n) < n:
+        if self.life.max_term(x+s, u) < u:
             return 0.
         if moment == self.VARIANCE:
-            A2 = self.deferred_insurance(x, s=s, t=t, n=n, moment=2)
-            A1 = self.deferred_insurance(x, s=s, t=t, n=n)
+            A2 = self.deferred_insurance(x, s=s, t=t, u=u, moment=2)
+            A1 = self.deferred_insurance(x, s=s, t=t, u=u)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
-        E = self.E_x(x, s=s, t=n, moment=moment)
-        A = self.term_insurance(x, s=s+n, t=t, b=b, moment=moment)
+        E = self.E_x(x, s=s, t=u, moment=moment)
+        A = self.term_insurance(x, s=s+u, t=t, b=b, moment=moment)
         return E * A   # discount insurance by moment*force of interest
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
-- 
2.43.0


From 4f4f9efe9767fa5d9e94af13e352c3a2eb40575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 067/124] fix: m-thly temporary annuity is bounded by the
 oldest age of the life, and its variance is that of the endowment insurance

---
 src/actuarialmath/mthly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 0d847d3..db7bb2d 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -279,13 +279,13 @@ class Mthly(Actuarial):
           variance : return first moment (False) or variance (True)
         """
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.term_insurance(x, s=s, t=t)
-            A2 = self.term_insurance(x, s=s, t=t, moment=2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         a = self.whole_life_annuity(x, s=s, b=b)
-        if t < 0 or self.max_term(x+s, t) < t:
+        if t < 0 or self.life.max_term(x+s, t) < t:
             return a
         a_t = self.whole_life_annuity(x, s=s+t, b=b)
         return a - (a_t * self.E_x(x, s=s, t=t))
-- 
2.43.0


From 97bd0e27c5b981515f370feb05d919dbc70e589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 068/124] fix: continuous immediate annuity is scaled by its
 amount, and endowment variance by its amount once

---
 src/actuarialmath/mthly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index db7bb2d..2bab618 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -206,7 +206,7 @@ class Mthly(Actuarial):
                                           b=b, moment=2)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment, 
                                           b=b)
-            return self.life.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.life.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment)
         return A + E * (b if endowment < 0 else endowment)**moment
@@ -319,7 +319,7 @@ class Mthly(Actuarial):
         if self.m > 0:
             return (a - ((1 - self.E_x(x, s=s, t=t)) / self.m)) * b
         else:
-            return a
+            return a * b
 
 if __name__ == "__main__":
     from actuarialmath.lifetable import LifeTable
-- 
2.43.0


From 9744c288be47b3e628a32af6b1f907e7412a4f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 069/124] fix: UDD insurance amounts and second moments

---
 src/actuarialmath/udd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 4783519..e4fa3c7 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -63,10 +63,10 @@ class UDD(Mthly):
         if moment == Annuity.VARIANCE:
             return ((self.whole_life_insurance(x, s=s, moment=2) -
                      self.whole_life_insurance(x, s=s)**2) * b**2)
-        A = self.life.whole_life_insurance(x, s=s, moment=moment)
+        A = self.life.whole_life_insurance(x, s=s, b=b, moment=moment)
         i = self.life.interest.i
         if moment == 2:
-            i = self.interest.double_force(i)
+            i = self.life.interest.double_force(i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
         return A * i / i_m
 
@@ -114,7 +114,7 @@ class UDD(Mthly):
         A = self.life.term_insurance(x, s=s, t=t, b=b, moment=moment)
         i = self.life.interest.i
         if moment == 2:
-            i = self.interest.double_force(i)
+            i = self.life.interest.double_force(i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
         return A * (i / i_m)
 
-- 
2.43.0


From 05b95ec73edab3fb27bca8d00cea8e28b79c2672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 070/124] fix: UDD deferred annuity for a term, and variances
 of UDD annuities

---
 src/actuarialmath/udd.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index e4fa3c7..7e44497 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -134,7 +134,7 @@ class UDD(Mthly):
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
         a = self.life.whole_life_annuity(x, s=s)
         return b * (a * self.alpha_m - self.beta_m)
             
@@ -153,9 +153,9 @@ class UDD(Mthly):
           >>> UDD(m=12, life=SULT(udd=True)).temporary_annuity(45, t=20)
         """
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.temporary_insurance(x, s=s, t=t)
-            A2 = self.temporary_insurance(x, s=s, t=t, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         if t < 0:
@@ -175,15 +175,17 @@ class UDD(Mthly):
           t : term of annuity in years
           b : amount of benefit
         """
-        if self.max_term(x+s, n) < n:
+        if self.life.max_term(x+s, u) < u:
             return 0.
-        if variance:  # short cut for variance of temporary life annuity
-            A1 = self.endowment_insurance(x, s=s, t=t)
-            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+        if variance:  # annuity from x+s+u is payable if survive u years
+            a = self.temporary_annuity(x, s=s+u, t=t)
+            a2 = self.temporary_annuity(x, s=s+u, t=t, variance=True) + a**2
+            return b**2 * (self.E_x(x, s=s, t=u, moment=2) * a2
+                           - (self.E_x(x, s=s, t=u) * a)**2)
 
         a = self.life.deferred_annuity(x, s=s, u=u, t=t)
-        return (a * self.alpha_m - self.beta_m * self.E_x(x, s=s, t=u)) * b
+        E = self.E_x(x, s=s, t=u) - (self.E_x(x, s=s, t=u+t) if t >= 0 else 0)
+        return (a * self.alpha_m - self.beta_m * E) * b
 
     @staticmethod
     def interest_frame(i: float = 0.05):
-- 
2.43.0


From 3274a8013adecfdd404dea07a56cf66570ccf228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:01 +0000
Subject: [PATCH 071/124] fix: Woolhouse continuous annuities (m=0) use the
 limiting correction terms

---
 src/actuarialmath/woolhouse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index 4a9c17a..ee6cbf3 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -121,11 +121,12 @@ class Woolhouse(Mthly):
           >>> life = Recursion().set_interest(i=0.05).set_a(3.4611, x=0)
           >>> Woolhouse(m=4, life=life).whole_life_annuity(x=0)
         """
+        m_inv = 1 / self.m if self.m else 0.   # m = 0 is continuous
         a = (self.life.whole_life_annuity(x, s=s, discrete=True) -
-             (self.m - 1)/(2 * self.m))
+             (1 - m_inv) / 2)
         if self.three_term:
             mu = mu or self.mu_x(x, s)
-            a -= (mu + self.life.interest.delta)*(self.m**2 - 1)/(12 * self.m**2)
+            a -= (mu + self.life.interest.delta)*(1 - m_inv**2) / 12
         return a * b
 
     def temporary_annuity(self, x: int, s: int = 0, t: int = Annuity.WHOLE, 
-- 
2.43.0


From cc122826e6680c2351bdec0e304a5637bce77b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:01 +0000
Subject: [PATCH 072/124] fix: Woolhouse approximate force at selection uses
 the previous age

---
 src/actuarialmath/woolhouse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index ee6cbf3..f59001b 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -31,7 +31,8 @@ class Woolhouse(Mthly):
           s : years after selection
         """
         if self.approximate_mu is True:       # approximate mu from integer ages
-            return -.5 * sum([math.log(self.life.p_x(x, s=s+t)) for t in [0,-1]])
+            before = self.life.p_x(x, s=s-1) if s > 0 else self.life.p_x(x-1)
+            return -.5 * (math.log(self.life.p_x(x, s=s)) + math.log(before))
         elif self.approximate_mu is False:
             return self.life.mu_x(x, s=s)     # use exact mu from survival model
         else:                                 # apply custom function for mu
-- 
2.43.0


From 4b92761f82da1fb63354449b26d57609dddee968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:01 +0000
Subject: [PATCH 073/124] fix: Woolhouse deferred and temporary annuities for
 terms of zero and to the oldest age

---
 src/actuarialmath/woolhouse.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index f59001b..9ad2c05 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -158,10 +158,14 @@ class Woolhouse(Mthly):
           mu : value of mu at age x+s+u
           mu1 : value of mu at age x+s+u+t
         """
-        a_x = self.whole_life_annuity(x, s=s+u, mu=mu)
-        a_xt = self.whole_life_annuity(x, s=s+t+u, mu=mu1) if t > 0 else 0
-        a = self.E_x(x, s=s, t=u) * (a_x - self.E_x(x, s=s+u, t=t) * a_xt)
-        return a * b
+        if t == 0 or self.life.max_term(x+s, u) < u:
+            return 0.
+        a = self.whole_life_annuity(x, s=s+u, mu=mu)
+        if t > 0 and self.life.max_term(x+s+u, t) >= t:
+            E = self.E_x(x, s=s+u, t=t)
+            if E > 0:
+                a -= E * self.whole_life_annuity(x, s=s+u+t, mu=mu1)
+        return self.E_x(x, s=s, t=u) * a * b
 
 if __name__ == "__main__":
     from actuarialmath.sult import SULT
-- 
2.43.0


From b222e003d2a6be1381798007a568f0d4e3f7fdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:24 +0000
Subject: [PATCH 074/124] fix: Woolhouse term insurance to the oldest age with
 three terms

---
 src/actuarialmath/woolhouse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index 9ad2c05..f4f1dd7 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -67,6 +67,8 @@ class Woolhouse(Mthly):
         if t < 0 or self.life.max_term(x+s, t) < t:
             return A
         E = self.E_x(x, s=s, t=t)
+        if E == 0:   # no survivors to the end of the term
+            return A
         return A - E * self.whole_life_insurance(x, s=s+t, b=b, mu=mu1)
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = Annuity.WHOLE,
-- 
2.43.0


From 125eaaf013e3128d3f147e370e73c328a6e3bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:01 +0000
Subject: [PATCH 075/124] fix: UDD alpha and beta follow the life's current
 interest rate

---
 src/actuarialmath/udd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 7e44497..484da2d 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -17,8 +17,14 @@ class UDD(Mthly):
 
     def __init__(self, m: int, life: Annuity, **kwargs):
         super().__init__(m=m, life=life, **kwargs)
-        self.alpha_m = self.alpha(m=m, i=self.life.interest.i)
-        self.beta_m = self.beta(m=m, i=self.life.interest.i)
+
+    @property
+    def alpha_m(self) -> float:
+        return self.alpha(m=self.m, i=self.life.interest.i)
+
+    @property
+    def beta_m(self) -> float:
+        return self.beta(m=self.m, i=self.life.interest.i)
 
     @staticmethod
     def alpha(m: int, i: float) -> float:
-- 
2.43.0


From 9c14ef3f4703fe9cc8bd4acd93ddd3b7bbdccba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:23 +0000
Subject: [PATCH 076/124] fix: Woolhouse contracts deferred to an age nobody
 reaches are worth nothing

---
 src/actuarialmath/woolhouse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index f4f1dd7..84f9d9b 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -108,6 +108,8 @@ class Woolhouse(Mthly):
         if self.life.max_term(x+s, u) < u:
             return 0.
         E = self.E_x(x, s=s, t=u)
+        if E == 0:
+            return 0.
         return E * self.term_insurance(x, s=s+u, t=t, b=b, mu=mu, mu1=mu1)
 
     def whole_life_annuity(self, x: int, s: int = 0, b: int = 1,
@@ -162,12 +164,15 @@ class Woolhouse(Mthly):
         """
         if t == 0 or self.life.max_term(x+s, u) < u:
             return 0.
+        E_u = self.E_x(x, s=s, t=u)
+        if E_u == 0:
+            return 0.
         a = self.whole_life_annuity(x, s=s+u, mu=mu)
         if t > 0 and self.life.max_term(x+s+u, t) >= t:
             E = self.E_x(x, s=s+u, t=t)
             if E > 0:
                 a -= E * self.whole_life_annuity(x, s=s+u+t, mu=mu1)
-        return self.E_x(x, s=s, t=u) * a * b
+        return E_u * a * b
 
 if __name__ == "__main__":
     from actuarialmath.sult import SULT
-- 
2.43.0


From ff87095dcb059005c424618f5760ec3bd0f7a493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 077/124] fix: recursion pure endowment moments use the term
 and scale with the amount

---
 src/actuarialmath/recursion.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 7c8dc6a..83e94e8 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -793,7 +793,7 @@ class Recursion(Reserves):
         key = self._db_key('E', x=x+s, t=t, moment=moment)
         val = self.db.get(key, None)
         if val is not None:
-            return val * endowment   # stored with benefit=1
+            return val * endowment**abs(moment)   # stored with benefit=1
 
     def set_E(self, val: float, x: int, s: int = 0, t: int = 1, 
               endowment: int = 1, moment: int = 1) -> "Recursion":
@@ -807,7 +807,7 @@ class Recursion(Reserves):
           endowment : endowment value
           moment : first or second moment of pure endowment
         """
-        val /= endowment   # store with benefit=1
+        val /= endowment**abs(moment)   # store with benefit=1
         return self._db_put(self._db_key('E', x=x+s, t=t, moment=moment), val)
 
     def _E_x(self, x: int, s: int = 0, t: int = 1, endowment: int = 1, 
@@ -821,13 +821,13 @@ class Recursion(Reserves):
         if t == 0:    # t = 0 => EPV(0) = endowment**moment
             return endowment**moment
         if moment > 1:
-            E = self._E_x(x, s=s, endowment=endowment, depth=depth)
-            if E:  # (1) Shortcut: 2E_x = v E_x
+            E = self._E_x(x, s=s, t=t, endowment=endowment, depth=depth)
+            if E is not None:  # (1) Shortcut: 2E_x = v^t E_x
                 self.blog(self.pprint.E(x=x, s=s, t=t, moment=moment),
-                          f"= " + self.pprint.m(moment*t, v="v"), '*',
+                          f"= " + self.pprint.m((moment - 1)*t, v="v"), '*',
                           self.pprint.E(x=x, s=s, t=t),
                           depth=depth, rule='moments of pure endowment')
-                return E * self.interest.v**(moment-1)
+                return E * (endowment * self.interest.v_t(t))**(moment-1)
             else:
                 self.blog.pop(depth=depth)
 
-- 
2.43.0


From 705c037b3604d1c424e16ab7360d878cceb3a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 078/124] fix: recursion pure endowment variance is
 undetermined without survival

---
 src/actuarialmath/recursion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 83e94e8..f5d563a 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -894,6 +894,8 @@ class Recursion(Reserves):
             if found is not None:
                 return found
             t_p_x = self.p_x(x, s=s, t=t)
+            if t_p_x is None:
+                return None
             return (endowment * self.interest.v_t(t))**2 * t_p_x * (1-t_p_x)
         found = self._E_x(x, s=s, t=t, endowment=endowment, moment=moment,
                           depth=self.maxdepth)
-- 
2.43.0


From 5bd9f39d6759b43ca0378dc90300f24319e1bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 079/124] fix: recursion varying insurances apply the right
 recursions

---
 src/actuarialmath/recursion.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index f5d563a..f369fc1 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -964,7 +964,7 @@ class Recursion(Reserves):
                 self.blog.pop(depth=depth)
 
         if discrete:
-            A = self._A_x(x=x, s=s, t=1, b=b, discrete=discrete, depth=depth-1)
+            A = self._A_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
             IA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, t=1, depth=depth-1)   # FIXED t=1
             if A is not None and IA is not None and p is not None:
@@ -1039,18 +1039,18 @@ class Recursion(Reserves):
     def _DA_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE, b: int = 1,
               discrete: bool = True, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
-        found = self._get_DA(x=x, s=s, t=t, discrete=discrete)
+        found = self._get_DA(x=x, s=s, t=t, b=b, discrete=discrete)
         if found is not None:
             return found
         if t == 0:
             return 0
         if depth <= 0:
             return None
-        assert t < 0,  "Decreasing insurance must be term insurance"
+        assert t > 0,  "Decreasing insurance must be term insurance"
     
         A = self._A_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         n = t + int(discrete)
-        IA = self._DA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
+        IA = self._IA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         if A is not None and IA is not None:
             self.blog(self.pprint.DA(x=x, s=s, t=t), f'= {n}',
                       self.pprint.A(x=x, s=s, t=t), '-',
@@ -1061,7 +1061,7 @@ class Recursion(Reserves):
             self.blog.pop(depth=depth)
 
         if discrete:
-            DA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
+            DA = self._DA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, depth=depth-1)
             if DA is not None and p is not None:
                 #f"backward DA_{x+s}:{t}: v(t q_{x+s} + p_{x+s} DA_{x+s+1}:{t-1})"
@@ -1070,7 +1070,7 @@ class Recursion(Reserves):
                           self.pprint.q(x=x, s=s), '+',
                           self.pprint.p(x=x, s=s), '*', self.pprint.DA(x=x, s=s+1, t=t-1),
                           depth=depth, rule='backward recursion')
-                return self.interest.v * ((1-p)*t + p*DA)  # (2) backward recursion
+                return self.interest.v * ((1-p)*t*b + p*DA)  # (2) backward recursion
             else:
                 self.blog.pop(depth=depth)
 
-- 
2.43.0


From 950806f861ec37176098ac493e885009903cc7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 080/124] fix: recursion insurance facts and queries scale with
 the amount for all moments

---
 src/actuarialmath/recursion.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index f369fc1..fa9d33a 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1118,14 +1118,16 @@ class Recursion(Reserves):
         """
         if endowment < 0:   # endowment insurance with equal benefits
             endowment = b
-        if t == 0:          # terminal value of insurance
-            return endowment
-        if b == 0:          # normalize insurance factor by benefit amount
-            scale = endowment
-            endowment = 1
-        else:
-            scale = b
-            endowment = 1 if b == endowment else endowment / b
+        if t == 0 and u == 0:   # terminal value of insurance
+            return endowment**moment if moment > 0 else 0
+        if b == 0:          # only an endowment after u+t years
+            if endowment == 0:
+                return 0
+            return self._get_E(x, s=s, t=self.add_term(u, t), moment=moment,
+                               endowment=endowment)
+        # normalize insurance factor by benefit amount
+        scale = b**abs(moment)
+        endowment = 1 if b == endowment else endowment / b
         key = self._db_key('A', x=x+s, u=u, t=t, moment=moment, 
                            endowment=endowment, discrete=discrete)
         val = self.db.get(key, None)
@@ -1153,14 +1155,12 @@ class Recursion(Reserves):
         """
         if endowment < 0:      # endowment insurance with equal death and endow
             endowment = b
-        if endowment == 0:     # normalize insurance factor by benefit amount
-            val /= b
-        elif b == 0:
-            val /= endowment   # store with benefit=1
-        else:
-            if b != 1:
-                val /= b
-                endowment /= b
+        if b == 0:             # only an endowment after u+t years
+            return self.set_E(val, x=x, s=s, t=self.add_term(u, t),
+                              moment=moment, endowment=endowment)
+        if b != 1:             # normalize insurance factor by benefit amount
+            val /= b**abs(moment)
+            endowment /= b
         return self._db_put(self._db_key('A', x=x+s, t=t, u=u,
                                          moment=moment, endowment=endowment, 
                                          discrete=discrete), val)
-- 
2.43.0


From c3a2bb6b9f2aaf9962fab64c3f69c6930b796692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 081/124] fix: recursion insurance rules hold for moments, not
 variances, and for deferrals

---
 src/actuarialmath/recursion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index fa9d33a..6ef2abb 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1170,7 +1170,7 @@ class Recursion(Reserves):
              moment: int = 1, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
 
-        if endowment == b and t == 1 and discrete: # 1-year endow ins
+        if endowment == b and t == 1 and not u and discrete and moment > 0:
 #            self.blog(self.pprint.A(x=x, s=s, t=1, endowment=b, b=b, moment=moment),
 #                      '=', self.pprint.m(moment, v="v"),
 #                      depth=depth, rule='one-year endowment insurance')
@@ -1179,14 +1179,14 @@ class Recursion(Reserves):
                             moment=moment, endowment=endowment)
         if found is not None:
             return found
-        if depth <= 0:
+        if depth <= 0 or moment < 0:  # no recursions for variance
             return None
 
-        if discrete and u > 0:  # (1) deferred insurance  
+        if u > 0:               # (1) deferred insurance
             A = self._A_x(x=x, s=s+1, t=t, b=b, u=u-1, discrete=discrete, 
                               moment=moment, endowment=endowment, depth=depth-1)
             E = self._E_x(x, s=s, t=1, moment=moment, depth=depth-1)
-            if A is not None and p is not None:  # (1a) backward E_x * A
+            if A is not None and E is not None:  # (1a) backward E_x * A
                 #msg = f"backward deferred {u}_A_{x+s}: {u}_E * A_{x+s+u}"
                 self.blog(self.pprint.A(x=x, s=s, t=t, u=u, b=b, moment=moment), '=',
                           self.pprint.E(x=x, s=s, moment=moment), '*',
@@ -1260,7 +1260,7 @@ class Recursion(Reserves):
                           self.pprint.m(moment, v="v"), "*",
                           self.pprint.q(x=x, s=s), f"*",
                           self.pprint.m(moment, v="v"), "+",
-                          self.pprint.p(x=x, s=s), f"*".
+                          self.pprint.p(x=x, s=s), f"*",
                           self.pprint.m(moment, endow=endowment),
                           #f"discrete 1-year insurance: A_{x+s}:1 = qv",
                           depth=depth, rule='one-year discrete insurance')
-- 
2.43.0


From 940a12bfe395deafc6a4da73bfaf6546f5beebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 082/124] fix: recursion deferred insurance attempts its
 recursions

---
 src/actuarialmath/recursion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 6ef2abb..eed9be2 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1419,8 +1419,8 @@ class Recursion(Reserves):
                                             discrete=discrete,
                                             endowment=0, moment=moment),
                               levels=self.maxdepth)
-        A = self._get_A(x=x, s=s, t=t, b=b, u=u, discrete=discrete, 
-                        moment=moment)
+        A = self._A_x(x=x, s=s, t=t, b=b, u=u, discrete=discrete, 
+                      moment=moment, depth=self.maxdepth)
         if A is not None:
             self.blog.display()
             return A
-- 
2.43.0


From eb1a323ad7e2af10805ef71f667eb98fffe41703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 083/124] fix: recursion twins of insurances and annuities
 scale with the amount

---
 src/actuarialmath/recursion.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index eed9be2..6437e72 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1369,14 +1369,14 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if moment == 1 and self.interest.i > 0:  # (1) twin annuity
-            a = self._a_x(x, s=s, b=b, discrete=discrete, depth=self.maxdepth)
+            a = self._a_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if a is not None:
                 self.blog(self.pprint.a(x=x, s=s), '= [ 1 -',
                           self.pprint.A(x=x, s=s), f"] / d",
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().whole_life_insurance(x, s=s, b=b, discrete=discrete,
                                          moment=moment)
         if A is not None:
@@ -1448,11 +1448,11 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if moment == 1 and endowment == b and self.interest.i > 0:
-            a = self._a_x(x, s=s, b=b, t=t, discrete=discrete,
+            a = self._a_x(x, s=s, t=t, discrete=discrete,
                           depth=self.maxdepth)
             if a is not None:   # twin insurance
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().endowment_insurance(x, s=s, b=b, t=t, discrete=discrete,
                                         moment=moment, endowment=endowment)
         if A is not None:
@@ -1604,13 +1604,13 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if not variance and self.interest.i > 0:  # (1) twin insurance shortcut
-            A = self._A_x(x, s=s, b=b, discrete=discrete, depth=self.maxdepth)
+            A = self._A_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if A is not None:
                 self.blog(self.pprint.a(x=x, s=s, discrete=discrete, variance=variance),
                           "= [1 -", self.pprint.A(x=x, s=s, discrete=discrete), "] / d",
                           depth=self.maxdepth, rule='insurance twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A, discrete=discrete)
         a = super().whole_life_annuity(x, s=s, b=b, discrete=discrete,
                                        variance=variance)
         if a is not None:
@@ -1640,7 +1640,7 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if not variance and self.interest.i > 0: # (1) twin insurance shortcut
-            A = self._A_x(x, s=s, b=b, t=t, endowment=b, discrete=discrete, 
+            A = self._A_x(x, s=s, t=t, endowment=1, discrete=discrete, 
                           depth=self.maxdepth)
             if A is not None:
                 self.blog(self.pprint.a(x=x, s=s, t=t, b=b), '= [ 1 -',
@@ -1648,7 +1648,7 @@ class Recursion(Reserves):
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A, discrete=discrete)
         a = super().temporary_annuity(x, s=s, b=b, t=t, discrete=discrete,
                                       variance=variance)
         if a is not None:
-- 
2.43.0


From 75e2ee0e99b6c93fc3f30b8df06e47dcee11355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 084/124] fix: recursion annuity variances are looked up or
 computed, never replaced by means

---
 src/actuarialmath/recursion.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 6437e72..38e539a 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1480,7 +1480,7 @@ class Recursion(Reserves):
                            variance=variance, discrete=discrete)
         val = self.db.get(key, None)
         if val is not None:
-            return val * b    # stored with benefit=1
+            return val * (b**2 if variance else b)  # stored with benefit=1
 
     def set_a(self, val: float, x: int, s: int = 0, t: int = Reserves.WHOLE,
               u: int = 0, b: int = 1, variance: bool = False, 
@@ -1500,7 +1500,7 @@ class Recursion(Reserves):
         Examples:
           >>> Recursion().set_interest(i=0.06).set_a(7, x=1)
         """
-        val /= b    # store with benefit=1
+        val /= b**2 if variance else b    # store with benefit=1
         return self._db_put(self._db_key('a', x=x+s, t=t, u=u, 
                                          variance=variance, discrete=discrete), val)
 
@@ -1511,16 +1511,15 @@ class Recursion(Reserves):
         if t == 1 and not u and discrete:
 #            self.blog(self.pprint.a(x=x, s=s, t=1, discrete=discrete), '= 1',
 #                      depth=depth, rule='one-year discrete annuity')
-            return b 
+            return 0 if variance else b
         if t == 0:
             return 0
         found = self._get_a(x=x, s=s, t=t, b=b, u=u, discrete=discrete,
                             variance=variance)
         if found is not None:
             return found
-        if depth <= 0:
+        if depth <= 0 or variance:  # annuity recursion requires variance=False
             return None
-        assert variance is False, "Annuity recursion requires variance=False"
 
         if u > 0:  # (1) deferred annuity
             found = self._a_x(x=x, s=s+1, t=t, b=b, u=u-1, discrete=discrete, 
-- 
2.43.0


From 9d02959c5e69ec9f66522a35e99536816ca0f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 085/124] fix: recursion deferred annuity falls back with its
 deferral

---
 src/actuarialmath/recursion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 38e539a..5089aac 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1682,7 +1682,8 @@ class Recursion(Reserves):
         if a is not None and a_t is not None:
             self.blog.display()
             return a - a_t
-        return super().deferred_annuity(x, s=s, b=b, t=t, discrete=discrete)
+        return super().deferred_annuity(x, s=s, b=b, t=t, u=u,
+                                        discrete=discrete)
 
 # to auto-detect notebook environment
 try:
-- 
2.43.0


From 7be345aeface2bd9664eb6c8f10e9052afb1c786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 086/124] fix: recursion deferred mortality without limit is
 survival of the deferral

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 5089aac..5c7fa86 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -451,7 +451,7 @@ class Recursion(Reserves):
         if t == 0:
             return 0
         if t < 0:
-            return 1
+            return self._p_x(x, s=s, t=u, depth=depth)
         if u > 0:
             pu = self._p_x(x, s=s, t=u, depth=depth-1) #depth-1)
             qt = self._get_q(x, s=s+u, t=t)
-- 
2.43.0


From 9b4e42f085829e9dc469e8438b3c4c8c3311883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:40 +0000
Subject: [PATCH 087/124] fix: recursion of expected lifetimes skips terms
 whose survival is unknown

---
 src/actuarialmath/recursion.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 5c7fa86..f0da294 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -720,11 +720,13 @@ class Recursion(Reserves):
                         self.blog.pop(depth=depth)
 
             for u in range(1, 50):
-                e = self._e_x(x, s=s-u, t=self.add_term(t, u), curtate=curtate,
-                              moment=1, depth=depth-1)
-                e1 = self._e_x(x, s=s-u, t=u, curtate=curtate, moment=1,
-                               depth=depth-1)
+                e = e1 = None
                 p = self._p_x(x, s=s-u, t=u)
+                if p is not None:
+                    e = self._e_x(x, s=s-u, t=self.add_term(t, u),
+                                  curtate=curtate, moment=1, depth=depth-1)
+                    e1 = self._e_x(x, s=s-u, t=u, curtate=curtate, moment=1,
+                                   depth=depth-1)
                 if e is not None and e1 is not None and p is not None:
                     #_t = "" if t < 0 else ":" + str(t)
                     #msg = f"forward e_{x+s}{_t} = e_{x+s}:1 + p_{x+s} e_{x+s+1}"
@@ -738,10 +740,13 @@ class Recursion(Reserves):
                 else:
                     self.blog.pop(depth=depth)
 
-                e = self._e_x(x, s=s, t=u, curtate=curtate, moment=1, depth=depth-1)
-                e_t = self._e_x(x, s=s+u, t=self.add_term(t, -u), curtate=curtate,
-                                moment=1, depth=depth-1)
+                e = e_t = None
                 p = self._p_x(x, s=s, t=u)
+                if p is not None:
+                    e = self._e_x(x, s=s, t=u, curtate=curtate, moment=1,
+                                  depth=depth-1)
+                    e_t = self._e_x(x, s=s+u, t=self.add_term(t, -u),
+                                    curtate=curtate, moment=1, depth=depth-1)
                 if e is not None and e_t is not None and p is not None:
                     self.blog(self.pprint.e(x=x, s=s, t=t, curtate=curtate), '=',
                               self.pprint.e(x=x ,s=s, t=u, curtate=curtate), '+',
-- 
2.43.0


From 400e4106e5c2ec43b3d390eb0503438d9c5b18ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:40 +0000
Subject: [PATCH 088/124] fix: recursion steps can be displayed in a notebook

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index f0da294..90d8a01 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -69,7 +69,7 @@ class _Blog:
             if _Blog._notebook and _Blog._latex:
                 display_latex(_str, raw=True)
             elif _Blog._notebook:
-                display_pretty(_self, raw=True)
+                display_pretty(_str, raw=True)
             else:
                 print(_str, end=end)
             
-- 
2.43.0


From 86eab6a92602ac0c740c29ca7ef034fe82b8ba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:40 +0000
Subject: [PATCH 089/124] fix: recursion of one-year curtate lifetime tries
 other rules when survival is unknown

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 90d8a01..0817a1f 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -695,7 +695,7 @@ class Recursion(Reserves):
         if moment == 1:
             if t > 0:  
                 p_t = self._p_x(x, s=s, t=t)
-                if t == 1 and curtate:
+                if t == 1 and curtate and p_t is not None:
                     self.blog(self.pprint.e(x=x, s=s, t=1, curtate=curtate), '=',
                               self.pprint.p(x=x, s=s, t=1),
                               #f"e_{x+s}:1",
-- 
2.43.0


From ed3a762eff4b18396dd8afd7dbb53d3da67c514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:15 +0000
Subject: [PATCH 090/124] fix: percentile time of Z is searched within the
 lifetime of (x), not between the table ages

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index cfe0a85..f028f84 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -276,7 +276,7 @@ class Insurance(Fractional):
         """
         assert prob < 1.0  # Note survival function and PV both decreasing in t
         t = self.solve(lambda t: self.S(x, 0, t),
-                       target=prob, grid=[self._MINAGE, self._MAXAGE])
+                       target=prob, grid=[0, self.max_term(x, t=self.WHOLE)])
         return math.floor(t) if discrete else t       # opposite of annuity
 
     def Z_from_t(self, t: float, discrete: bool = True) -> float:
-- 
2.43.0


From 6840df0ca8cef1322951f5abaa3c3ddc7f8fe6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:15 +0000
Subject: [PATCH 091/124] fix: percentile time of Y is searched within the
 lifetime of (x), not between the table ages

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 8ac7ea0..6af0956 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -260,7 +260,7 @@ class Annuity(Insurance):
         """
         assert prob < 1.0
         t = self.solve(lambda t: self.S(x, 0, t), target=1. - prob,
-                       grid=[self._MINAGE, self._MAXAGE])
+                       grid=[0, self.max_term(x, t=self.WHOLE)])
         return math.ceil(t) if discrete else t   # should be opposite of insurance?
 
     def Y_x(self, x, s: int = 0, t: float = 1., discrete: bool = True) -> float:
-- 
2.43.0


From eaaf3c79348366bfaf1294e919f10921175cdda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:07 +0000
Subject: [PATCH 092/124] fix: solve starts from a real number when the guess
 is an integer

---
 src/actuarialmath/actuarial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 02c9645..bfd99c8 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -107,7 +107,7 @@ class Actuarial(object):
                         root = scipy.optimize.brentq(f, a, b)
                         fun(root)   # call again with final in case want side effect
                         return root
-            output = scipy.optimize.fsolve(f, [grid], full_output=True)
+            output = scipy.optimize.fsolve(f, [float(grid)], full_output=True)
             fun(output[0][0])   # call again with final in case want side effect
             return output[0][0]
 
-- 
2.43.0


From 6ed29e21b90a5510bdcb6cc3795741837d1f80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 093/124] fix: continuous plots draw the survival curve at
 fractional times instead of zero or raising

---
 src/actuarialmath/annuity.py      | 3 ++-
 src/actuarialmath/insurance.py    | 3 ++-
 src/actuarialmath/policyvalues.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 6af0956..5ba52f3 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -373,7 +373,8 @@ class Annuity(Insurance):
 
         # plot survival probabilities in secondary axis
         if dual:
-            p = [self.p_x(x=x, s=s, t=t) for t in steps]
+            p = [self.p_x(x=x, s=s, t=t) if discrete else self.S(x, s, t)
+                 for t in steps]
             bx = ax.twinx()
             bx.step(steps, p, '-', c='g', alpha=alpha,
                     where='pre' if discrete else 'post')
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index f028f84..4bc59d8 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -381,7 +381,8 @@ class Insurance(Fractional):
 
         # plot survival probabilities in secondary axis
         if dual:
-            p = [self.p_x(x=x, s=s, t=t) for t in steps]
+            p = [self.p_x(x=x, s=s, t=t) if discrete else self.S(x, s, t)
+                 for t in steps]
             bx = ax.twinx()
             bx.step(steps, p, '-', c='g', alpha=alpha,
                     where='pre' if discrete else 'post')
diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index c6c1b8e..a4db99d 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -419,7 +419,8 @@ class PolicyValues(Premiums):
         xjig = (xmax - xmin) / 50
 
         if dual:
-            p = [self.p_x(x=x, s=s, t=t) for t in steps]
+            p = [self.p_x(x=x, s=s, t=t) if contract.discrete else self.S(x, s, t)
+                 for t in steps]
             bx = ax.twinx()
             bx.step(steps, p, '-', c='g', alpha=alpha,
                     where='pre' if contract.discrete else 'post')
-- 
2.43.0


From 36d55c7aa7a74104bcd64804b8ae2aa1ca694f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 094/124] fix: plots annotate the survival probability of
 [x]+s, as on the curve

---
 src/actuarialmath/annuity.py   | 2 +-
 src/actuarialmath/insurance.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 5ba52f3..d7b0d88 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -392,7 +392,7 @@ class Annuity(Insurance):
             ax.legend(handles=[label1], loc='upper left')
 
             if dual:
-                prob = self.S(x, 0, T)
+                prob = self.S(x, s, T)
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 4bc59d8..5b15e6a 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -399,7 +399,7 @@ class Insurance(Fractional):
             ax.legend(handles=[label1], loc='lower left')
 
             if dual:
-                prob = self.S(x, 0, T)      # note: is opposite of annuity
+                prob = self.S(x, s, T)      # note: is opposite of annuity
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
-- 
2.43.0


From 7ac196ae32f0bfb5223f8f18513dde1e651fb3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 095/124] fix: lives by years since selection, when the
 survival function depends on selection

---
 src/actuarialmath/survival.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/survival.py b/src/actuarialmath/survival.py
index 1bb5270..c79ee4b 100644
--- a/src/actuarialmath/survival.py
+++ b/src/actuarialmath/survival.py
@@ -120,7 +120,8 @@ class Survival(Life):
         assert s >= 0, "s must be non-negative"
         if self.l is not None:
             return self.l(x, s)
-        return self._RADIX * self.p_x(x=self._MINAGE, s=0, t=s+x-self._MINAGE)
+        lives = self.p_x(x=self._MINAGE, s=0, t=x-self._MINAGE)  # select at age x
+        return self._RADIX * (lives and lives * self.p_x(x=x, s=0, t=s))
 
     def d_x(self, x: int, s: int = 0) -> float:
         """Number of deaths at integer age [x]+s: d_[x]+s
-- 
2.43.0


From c2340125cfb18def88e4164fbc395659073c68c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 096/124] fix: variance of annuities without interest is that
 of the total payments

---
 src/actuarialmath/annuity.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index d7b0d88..0df9634 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -107,6 +107,22 @@ class Annuity(Insurance):
         else:
             return (b**2 * self.insurance_variance(A2=A2, A1=A1) / interest**2)
 
+    def _payments_variance(self, x: int, s: int = 0, t: int = Insurance.WHOLE,
+                           b: int = 1, discrete: bool = True) -> float:
+        """Variance of total annuity payments, when there is no interest
+
+        Args:
+          x : age of selection
+          s : years after selection
+          t : term of annuity in years
+          b : annuity benefit amount
+          discrete : annuity due (True) or continuous (False)
+        """
+        Y, Y2 = (self.A_x(x, s=s, t=t, benefit=lambda x, t: t, moment=moment,
+                          endowment=max(0, t), discrete=discrete)
+                 for moment in (1, 2))
+        return b**2 * (Y2 - Y**2)
+
     def whole_life_annuity(self, x: int, s: int = 0, b: int = 1, 
                            variance: bool = False, 
                            discrete: bool = True) -> float:
@@ -123,6 +139,8 @@ class Annuity(Insurance):
           >>> life.whole_life_annuity(x=24, variance=True, due=False)
         """
         interest = self.interest.d if discrete else self.interest.delta
+        if variance and not interest:  # total paid is years begun (or lived)
+            return self._payments_variance(x, s=s, b=b, discrete=discrete)
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1, discrete=discrete)
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
@@ -150,6 +168,9 @@ class Annuity(Insurance):
         Examples:
           >>> life.temporary_annuity(x=24, t=10)
         """
+        if variance and not (self.interest.d if discrete
+                             else self.interest.delta):
+            return self._payments_variance(x, s=s, t=t, b=b, discrete=discrete)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t, discrete=discrete)
             A2 = self.endowment_insurance(x, s=s, t=t, moment=2, 
-- 
2.43.0


From 31eb5c54fe4e0e5a75087f897020fa2e287f0f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 097/124] fix: variance of constant force annuities without
 interest

---
 src/actuarialmath/constantforce.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 39bf85c..a0d04c7 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -84,6 +84,9 @@ class ConstantForce(MortalityLaws):
           variance : return APV (True) or variance (False)
           discrete : annuity due (True) or continuous (False)
         """
+        if variance and not self.interest.delta:
+            return super().whole_life_annuity(x, s=s, b=b, variance=True,
+                                              discrete=discrete)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.whole_life_insurance(x, s=s, discrete=discrete)
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
@@ -108,6 +111,9 @@ class ConstantForce(MortalityLaws):
           discrete : annuity due (True) or continuous (False)
         """
         interest = self.interest.d if discrete else self.interest.delta
+        if variance and not self.interest.delta:
+            return super().temporary_annuity(x, s=s, t=t, b=b, variance=True,
+                                             discrete=discrete)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t, discrete=discrete)
             A2 = self.endowment_insurance(x, s=s, t=t, moment=2,
-- 
2.43.0


From 6abed86d5a024f4503d04e5b023724e82fca8619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 098/124] fix: mthly annuities without interest are valued by
 the total payments

---
 src/actuarialmath/mthly.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 2bab618..d56b87a 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -251,6 +251,21 @@ class Mthly(Actuarial):
         den = self.life.interest.mthly(m=self.m, d=self.life.interest.d)
         return num / den**2
 
+    def _payments(self, x: int, s: int = 0, t: int = Annuity.WHOLE,
+                  moment: int = 1) -> float:
+        """Moment of total payments of an annuity of 1 per year, without interest
+
+        Args:
+          x : year of selection
+          s : years after selection
+          t : term of annuity in years
+          moment : first or second moment
+        """
+        step = 1 / self.m if self.m else 0.
+        Y = Mthly.A_x(self, x, s=s, t=t, benefit=lambda x, t: t + step,
+                      moment=moment)
+        return Y + (self.E_x(x, s=s, t=t) * t**moment if t >= 0 else 0.)
+
     def whole_life_annuity(self, x: int, s: int = 0, b: int = 1, 
                            variance: bool = False) -> float:
         """Whole life m'thly annuity: a_x
@@ -261,6 +276,9 @@ class Mthly(Actuarial):
           b : amount of benefit
           variance : return first moment (False) or variance (True)
         """
+        if not self.life.interest.i:  # no interest: total payments
+            Y = self._payments(x, s=s)
+            return b**2 * (self._payments(x, s=s, moment=2) - Y**2) if variance else b * Y
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
@@ -278,6 +296,9 @@ class Mthly(Actuarial):
           b : amount of benefit
           variance : return first moment (False) or variance (True)
         """
+        if variance and not self.life.interest.i:
+            Y = self._payments(x, s=s, t=t)
+            return b**2 * (self._payments(x, s=s, t=t, moment=2) - Y**2)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t)
             A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
-- 
2.43.0


From 7db738958a846e0ac59447404cd985b34fc676f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 099/124] fix: UDD functions without interest take their limits

---
 src/actuarialmath/udd.py | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 484da2d..667f394 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -34,6 +34,8 @@ class UDD(Mthly):
           m : number of payments per year
           i : annual interest rate
         """
+        if i == 0:
+            return 1.
         d = i / (1 + i)
         i_m = Interest.mthly(m=m, i=i)
         i_d = Interest.mthly(m=m, d=d)
@@ -47,6 +49,8 @@ class UDD(Mthly):
           m : number of payments per year
           i : annual interest rate
         """
+        if i == 0:
+            return (m - 1) / (2 * m) if m else 0.5
         d = i / (1 + i)
         i_m = Interest.mthly(m=m, i=i)
         i_d = Interest.mthly(m=m, d=d)
@@ -74,7 +78,7 @@ class UDD(Mthly):
         if moment == 2:
             i = self.life.interest.double_force(i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
-        return A * i / i_m
+        return A * i / i_m if i else A
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
                             endowment: int = -1, moment: int = 1) -> float:
@@ -122,7 +126,29 @@ class UDD(Mthly):
         if moment == 2:
             i = self.life.interest.double_force(i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
-        return A * (i / i_m)
+        return A * (i / i_m) if i else A
+
+    def _payments(self, x: int, s: int = 0, t: int = Annuity.WHOLE,
+                  moment: int = 1) -> float:
+        """Moment of total payments of an annuity of 1 per year, without interest
+
+        Args:
+          x : year of selection
+          s : years after selection
+          t : term of annuity in years
+          moment : first or second moment
+        """
+        # last year: annual payments less J uniform on {0, 1/m,..., (m-1)/m}
+        J = self.beta_m
+        J2 = J**2 + (1 - (1 / self.m**2 if self.m else 0.)) / 12
+        q, K = (self.life.A_x(x, s=s, t=t, benefit=lambda x, t: t**n)
+                for n in (0, 1))
+        if moment == 1:
+            Y = K - J * q
+        else:
+            Y = (self.life.A_x(x, s=s, t=t, benefit=lambda x, t: t, moment=2)
+                 - 2 * J * K + J2 * q)
+        return Y + (self.E_x(x, s=s, t=t) * t**moment if t >= 0 else 0.)
 
     def whole_life_annuity(self, x: int, s: int = 0, b: int = 1, 
                            variance: bool = False) -> float:
@@ -137,6 +163,8 @@ class UDD(Mthly):
         Examples:
           >>> UDD(m=12, life=SULT(udd=True)).whole_life_annuity(x)
         """
+        if variance and not self.life.interest.i:
+            return super().whole_life_annuity(x, s=s, b=b, variance=True)
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
@@ -158,6 +186,8 @@ class UDD(Mthly):
         Examples:
           >>> UDD(m=12, life=SULT(udd=True)).temporary_annuity(45, t=20)
         """
+        if variance and not self.life.interest.i:
+            return super().temporary_annuity(x, s=s, t=t, b=b, variance=True)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t)
             A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
@@ -208,7 +238,8 @@ class UDD(Mthly):
         for m in out.index:
             i_m = Interest.mthly(m=m, i=interest.i)
             d_m = Interest.mthly(m=m, d=interest.d)
-            out.loc[m] = [i_m, d_m, interest.i/i_m, interest.d/d_m, 
+            out.loc[m] = [i_m, d_m, interest.i/i_m if i else 1.,
+                          interest.d/d_m if i else 1.,
                           UDD.alpha(m=m, i=interest.i), 
                           UDD.beta(m=m, i=interest.i)]
         return out.round(5)
-- 
2.43.0


From ac630d1c4e1229b99e69cbfaa1b7dc317e0f96fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 100/124] fix: net policy values and variances without interest

---
 src/actuarialmath/policyvalues.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index a4db99d..5e67c7c 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -171,6 +171,12 @@ class PolicyValues(Premiums):
             A = self.endowment_insurance(x, s=s, t=n, discrete=discrete)
         else:
             raise Exception("Variances for WL and Endowment Ins only")
+        if not self.interest.d:  # no interest: only premiums paid are random
+            P = b / self.temporary_annuity(x, s=s, t=n, discrete=discrete)
+            return P**2 * self.temporary_annuity(x, s=s+t, 
+                                                 t=n-t if n >= 0 else n,
+                                                 variance=True, 
+                                                 discrete=discrete)
         return self.net_variance_loss(A=A, A1=A1, A2=A2, b=b)
 
     #
@@ -190,10 +196,17 @@ class PolicyValues(Premiums):
           endowment : endowment amount
           discrete : discrete/annuity due (True) or continuous (False)
         """
-        if n < 0:             # Shortcut available for Whole Life
+        interest = self.interest.d  # twins and shortcuts need interest
+        if n < 0 and not interest:
+            A1 = b * self.whole_life_insurance(x, s=s+t, discrete=discrete)
+            A = b * self.whole_life_insurance(x, s=s, discrete=discrete)
+            a1 = self.whole_life_annuity(x, s=s+t, discrete=discrete)
+            a = self.whole_life_annuity(x, s=s, discrete=discrete)
+            return A1 - a1 * (A / a)
+        elif n < 0:             # Shortcut available for Whole Life
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
-        elif endowment == b:  # Shortcut available for (equal) Endowment Insurance
+        elif endowment == b and interest:  # Shortcut for (equal) Endowment Insurance
             n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=discrete)
-- 
2.43.0


From a0473de19ce461f208fd4d6f96ff7ba105e4d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 101/124] fix: gross policy values and variances without
 interest

---
 src/actuarialmath/policyvalues.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 5e67c7c..53533ca 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -284,6 +284,11 @@ class PolicyValues(Premiums):
                                             discrete=contract.discrete)
         else:
             raise Exception("Variance for WL or Endowment Ins only")
+        if not self.interest.d:  # no interest: only premiums paid are random
+            return (contract.renewal_profit**2
+                    * self.temporary_annuity(x, s=s+t, t=n-t if n >= 0 else n,
+                                             variance=True,
+                                             discrete=contract.discrete))
         return self.gross_variance_loss(A1=A1, A2=A2, contract=contract)
 
     #
@@ -302,11 +307,18 @@ class PolicyValues(Premiums):
           contract : policy contract terms
         """
         contract = contract or Contract()
+        a = None     # from twin insurance, if there is interest
         if n < 0:    # Whole life shortcut
+            if not self.interest.d:
+                a = self.whole_life_annuity(x, s=s+t, 
+                                            discrete=contract.discrete)
             A = self.whole_life_insurance(x, s=s+t, 
                                           discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment Ins shortcut
             n = self.max_term(x=x+s, t=n)
+            if not self.interest.d:
+                a = self.temporary_annuity(x, s=s+t, t=n-t,
+                                           discrete=contract.discrete)
             A = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=contract.discrete)
         else:  # Special term insurance
@@ -321,7 +333,7 @@ class PolicyValues(Premiums):
             return (A * contract.claims_cost + initial_cost + endowment -
                     (a * contract.renewal_profit))
         contract = contract.renewals(t) if t else contract # ignore initial if t>0
-        return self.gross_future_loss(A=A, contract=contract)
+        return self.gross_future_loss(A=A, a=a, contract=contract)
 
     #
     # Future Loss random variable: L(T_x)
-- 
2.43.0


From 52fb24cd76c40666ed1830a82082c962ee19ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 102/124] fix: no-interest values only when the interest rate
 is zero, not when it varies

---
 src/actuarialmath/annuity.py       |  5 ++---
 src/actuarialmath/constantforce.py |  4 ++--
 src/actuarialmath/mthly.py         |  4 ++--
 src/actuarialmath/policyvalues.py  | 12 ++++++------
 src/actuarialmath/udd.py           |  4 ++--
 5 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 0df9634..36219a1 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -139,7 +139,7 @@ class Annuity(Insurance):
           >>> life.whole_life_annuity(x=24, variance=True, due=False)
         """
         interest = self.interest.d if discrete else self.interest.delta
-        if variance and not interest:  # total paid is years begun (or lived)
+        if variance and interest == 0:  # total paid is years begun (or lived)
             return self._payments_variance(x, s=s, b=b, discrete=discrete)
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1, discrete=discrete)
@@ -168,8 +168,7 @@ class Annuity(Insurance):
         Examples:
           >>> life.temporary_annuity(x=24, t=10)
         """
-        if variance and not (self.interest.d if discrete
-                             else self.interest.delta):
+        if variance and self.interest.d == 0:
             return self._payments_variance(x, s=s, t=t, b=b, discrete=discrete)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t, discrete=discrete)
diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index a0d04c7..741f48c 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -84,7 +84,7 @@ class ConstantForce(MortalityLaws):
           variance : return APV (True) or variance (False)
           discrete : annuity due (True) or continuous (False)
         """
-        if variance and not self.interest.delta:
+        if variance and self.interest.delta == 0:
             return super().whole_life_annuity(x, s=s, b=b, variance=True,
                                               discrete=discrete)
         if variance:  # short cut for variance of temporary life annuity
@@ -111,7 +111,7 @@ class ConstantForce(MortalityLaws):
           discrete : annuity due (True) or continuous (False)
         """
         interest = self.interest.d if discrete else self.interest.delta
-        if variance and not self.interest.delta:
+        if variance and self.interest.delta == 0:
             return super().temporary_annuity(x, s=s, t=t, b=b, variance=True,
                                              discrete=discrete)
         if variance:  # short cut for variance of temporary life annuity
diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index d56b87a..1af98c3 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -276,7 +276,7 @@ class Mthly(Actuarial):
           b : amount of benefit
           variance : return first moment (False) or variance (True)
         """
-        if not self.life.interest.i:  # no interest: total payments
+        if self.life.interest.i == 0:  # no interest: total payments
             Y = self._payments(x, s=s)
             return b**2 * (self._payments(x, s=s, moment=2) - Y**2) if variance else b * Y
         if variance:  # short cut for variance of whole life
@@ -296,7 +296,7 @@ class Mthly(Actuarial):
           b : amount of benefit
           variance : return first moment (False) or variance (True)
         """
-        if variance and not self.life.interest.i:
+        if variance and self.life.interest.i == 0:
             Y = self._payments(x, s=s, t=t)
             return b**2 * (self._payments(x, s=s, t=t, moment=2) - Y**2)
         if variance:  # short cut for variance of temporary life annuity
diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 53533ca..ce6fdf3 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -171,7 +171,7 @@ class PolicyValues(Premiums):
             A = self.endowment_insurance(x, s=s, t=n, discrete=discrete)
         else:
             raise Exception("Variances for WL and Endowment Ins only")
-        if not self.interest.d:  # no interest: only premiums paid are random
+        if self.interest.d == 0:  # no interest: only premiums paid are random
             P = b / self.temporary_annuity(x, s=s, t=n, discrete=discrete)
             return P**2 * self.temporary_annuity(x, s=s+t, 
                                                  t=n-t if n >= 0 else n,
@@ -196,14 +196,14 @@ class PolicyValues(Premiums):
           endowment : endowment amount
           discrete : discrete/annuity due (True) or continuous (False)
         """
-        interest = self.interest.d  # twins and shortcuts need interest
+        interest = self.interest.d != 0  # twins and shortcuts need interest
         if n < 0 and not interest:
             A1 = b * self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = b * self.whole_life_insurance(x, s=s, discrete=discrete)
             a1 = self.whole_life_annuity(x, s=s+t, discrete=discrete)
             a = self.whole_life_annuity(x, s=s, discrete=discrete)
             return A1 - a1 * (A / a)
-        elif n < 0:             # Shortcut available for Whole Life
+        elif n < 0:           # Shortcut available for Whole Life
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b and interest:  # Shortcut for (equal) Endowment Insurance
@@ -284,7 +284,7 @@ class PolicyValues(Premiums):
                                             discrete=contract.discrete)
         else:
             raise Exception("Variance for WL or Endowment Ins only")
-        if not self.interest.d:  # no interest: only premiums paid are random
+        if self.interest.d == 0:  # no interest: only premiums paid are random
             return (contract.renewal_profit**2
                     * self.temporary_annuity(x, s=s+t, t=n-t if n >= 0 else n,
                                              variance=True,
@@ -309,14 +309,14 @@ class PolicyValues(Premiums):
         contract = contract or Contract()
         a = None     # from twin insurance, if there is interest
         if n < 0:    # Whole life shortcut
-            if not self.interest.d:
+            if self.interest.d == 0:
                 a = self.whole_life_annuity(x, s=s+t, 
                                             discrete=contract.discrete)
             A = self.whole_life_insurance(x, s=s+t, 
                                           discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment Ins shortcut
             n = self.max_term(x=x+s, t=n)
-            if not self.interest.d:
+            if self.interest.d == 0:
                 a = self.temporary_annuity(x, s=s+t, t=n-t,
                                            discrete=contract.discrete)
             A = self.endowment_insurance(x, s=s+t, t=n-t, 
diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 667f394..87c5eb0 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -163,7 +163,7 @@ class UDD(Mthly):
         Examples:
           >>> UDD(m=12, life=SULT(udd=True)).whole_life_annuity(x)
         """
-        if variance and not self.life.interest.i:
+        if variance and self.life.interest.i == 0:
             return super().whole_life_annuity(x, s=s, b=b, variance=True)
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1)
@@ -186,7 +186,7 @@ class UDD(Mthly):
         Examples:
           >>> UDD(m=12, life=SULT(udd=True)).temporary_annuity(45, t=20)
         """
-        if variance and not self.life.interest.i:
+        if variance and self.life.interest.i == 0:
             return super().temporary_annuity(x, s=s, t=t, b=b, variance=True)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t)
-- 
2.43.0


From 3a782262e5b7f3d6fce20da1a86287927e6e3a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 103/124] fix: term and deferred insurances under a varying
 discount function discount every payment from issue

---
 src/actuarialmath/insurance.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 5b15e6a..ad95025 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -133,6 +133,9 @@ class Insurance(Fractional):
             A2 = self.term_insurance(x, s=s, t=t, moment=2, discrete=discrete)
             A1 = self.term_insurance(x, s=s, t=t, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
+        if self.interest.i is None:  # discount function is not multiplicative
+            return self.A_x(x, s=s, t=t, benefit=lambda x,t: b, moment=moment,
+                            discrete=discrete)
         A = self.whole_life_insurance(x, s=s, b=b, moment=moment, 
                                       discrete=discrete)
         if t < 0 or self.max_term(x+s, t=t) < t:
@@ -167,6 +170,9 @@ class Insurance(Fractional):
                                          discrete=discrete)
             A1 = self.deferred_insurance(x, s=s, t=t, u=u, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
+        if self.interest.i is None:  # discount function is not multiplicative
+            return self.A_x(x, s=s, t=t, u=u, benefit=lambda x,t: b,
+                            moment=moment, discrete=discrete)
         E = self.E_x(x, s=s, t=u, moment=moment)
         A = self.term_insurance(x, s=s+u, t=t, b=b, moment=moment, 
                                 discrete=discrete)
-- 
2.43.0


From 0e25e6b75e4984e23f46baf6fab408f75fe1ca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 104/124] fix: life annuities can be valued under a varying
 discount function

---
 src/actuarialmath/annuity.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 36219a1..6d1bd82 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -141,6 +141,9 @@ class Annuity(Insurance):
         interest = self.interest.d if discrete else self.interest.delta
         if variance and interest == 0:  # total paid is years begun (or lived)
             return self._payments_variance(x, s=s, b=b, discrete=discrete)
+        if interest is None:  # discount function without a level rate
+            assert not variance, "variance of annuity needs a level interest rate"
+            return self.a_x(x, s=s, benefit=lambda x,t: b, discrete=discrete)
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1, discrete=discrete)
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
@@ -176,6 +179,9 @@ class Annuity(Insurance):
                                           discrete=discrete)
             return self.annuity_variance(A2=A2, A1=A1, discrete=discrete, b=b)
 
+        if self.interest.i is None:  # discount function is not multiplicative
+            return self.a_x(x, s=s, t=t, benefit=lambda x,t: b, discrete=discrete)
+
         # difference of whole life on (x) and deferred whole life on (x+t)
         a = self.whole_life_annuity(x, s=s, b=b, discrete=discrete)
         if t < 0 or self.max_term(x+s, t) < t:
@@ -199,6 +205,9 @@ class Annuity(Insurance):
         Examples:
           >>> life.deferred_annuity(x=24, u=5, t=10, discrete=False)
         """
+        if self.interest.i is None:  # discount function is not multiplicative
+            return self.a_x(x, s=s, t=t, u=u, benefit=lambda x,t: b,
+                            discrete=discrete)
         a = self.temporary_annuity(x, s=s+u, t=t, b=b, discrete=discrete)
         return self.E_x(x, s=s, t=u) * a
 
-- 
2.43.0


From 6401aa76f59e44cd7c1349ad5cd9b5e3a7ae1336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 105/124] fix: mthly term and deferred insurances under a
 varying discount function discount every payment from issue

---
 src/actuarialmath/mthly.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 1af98c3..1f95512 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -160,6 +160,8 @@ class Mthly(Actuarial):
             A2 = self.term_insurance(x, s=s, t=t, moment=2)
             A1 = self.term_insurance(x, s=s, t=t)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
+        if self.life.interest.i is None:  # discount is not multiplicative
+            return self.A_x(x, s=s, t=t, benefit=lambda x,t: b, moment=moment)
         A = self.whole_life_insurance(x, s=s, b=b, moment=moment)
         if t < 0 or self.life.max_term(x+s, t) < t:
             return A
@@ -185,6 +187,8 @@ class Mthly(Actuarial):
             A2 = self.deferred_insurance(x, s=s, t=t, u=u, moment=2)
             A1 = self.deferred_insurance(x, s=s, t=t, u=u)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
+        if self.life.interest.i is None:  # discount is not multiplicative
+            return self.A_x(x, s=s, t=t, u=u, benefit=lambda x,t: b, moment=moment)
         E = self.E_x(x, s=s, t=u, moment=moment)
         A = self.term_insurance(x, s=s+u, t=t, b=b, moment=moment)
         return E * A   # discount insurance by moment*force of interest
-- 
2.43.0


From a8d49262190f1fa50c10562a0659f008a9312715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 106/124] fix: uniform deaths: the level-rate shortcut is not
 used with a discount function

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 51d6368..1bfc2b4 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -248,7 +248,7 @@ class Uniform(Beta):
           moment : compute first or second moment
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        if not discrete:
+        if not discrete and self.interest.delta is not None:
             if moment == Beta.VARIANCE:
                 return (self.term_insurance(x, s=s, b=b, t=t, moment=2, 
                                             discrete=False) -
-- 
2.43.0


From 0d1728f856b21c9d42f83c69fb31d8ae61df76a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 107/124] fix: constant force: level-rate shortcuts are not
 used with a discount function

---
 src/actuarialmath/constantforce.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 741f48c..ce29950 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -67,7 +67,7 @@ class ConstantForce(MortalityLaws):
             return 0. if moment == self.VARIANCE else float(endowment**moment)
         if t < 0:
             return 0.
-        if moment == self.VARIANCE:
+        if moment == self.VARIANCE or self.interest.delta is None:
             return super().E_x(x, s=s, t=t, endowment=endowment, moment=moment)
         delta = moment * self.interest.delta   # multiply force of interest
         return math.exp(-(self.mu_ + delta) * t) * endowment**moment
@@ -93,6 +93,8 @@ class ConstantForce(MortalityLaws):
             return (b**2 * (A2 - A1**2) /
                     (self.interest.d if discrete else self.interest.delta)**2)
         if not discrete:
+            if self.interest.delta is None:
+                return super().whole_life_annuity(x, s=s, b=b, discrete=discrete)
             den = self.mu_ + self.interest.delta
             return (1. / den) * b if den > 0 else math.inf
         return super().whole_life_annuity(x, s=s, b=b, discrete=discrete)
@@ -120,7 +122,7 @@ class ConstantForce(MortalityLaws):
                                           discrete=discrete)
             return (b**2 * (A2 - A1**2) /
                     (self.interest.d if discrete else self.interest.delta)**2)
-        if not discrete:
+        if not discrete and self.interest.delta is not None:
             a = b * 1/(self.mu_ + self.interest.delta)
             if t < 0:
                 return a
@@ -139,7 +141,7 @@ class ConstantForce(MortalityLaws):
           moment : compute first or second moment
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        if moment > 0 and not discrete:
+        if moment > 0 and not discrete and self.interest.delta is not None:
             delta = moment * self.interest.delta   # multiply force of interest
             return b**moment * self.mu_ / (self.mu_ + delta) if self.mu_ > 0 else 0.
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
@@ -157,7 +159,7 @@ class ConstantForce(MortalityLaws):
           moment : compute first or second moment
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        if moment > 0 and not discrete:
+        if moment > 0 and not discrete and self.interest.delta is not None:
             delta = moment * self.interest.delta   # multiply force of interest
             A = b**moment * self.mu_/(self.mu_ + delta)
             if t < 0:
-- 
2.43.0


From 789115f3559aa961a5e3d91f9acc5f1c2b4488e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 108/124] fix: temporary lifetime step displays survival
 through the whole term

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 0817a1f..a77d47d 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -711,7 +711,7 @@ class Recursion(Reserves):
                     if e is not None and e_t is not None and p_t is not None:
                         self.blog(self.pprint.e(x=x, s=s, t=t, curtate=curtate), '=',
                                   self.pprint.e(x=x, s=s, curtate=curtate), '-',
-                                  self.pprint.p(x=x, s=s), '*',
+                                  self.pprint.p(x=x, s=s, t=t), '*',
                                   self.pprint.e(x=x, s=s+t, curtate=curtate),
                                   #"e_{x+s}:{t}: e_x - p_x e_x+t",
                                   depth=depth, rule="temporary lifetime")
-- 
2.43.0


From 253d7d116cd7ed09290bba5f199f410ae933be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 109/124] fix: forward lifetime recursion displays the years it
 steps over

---
 src/actuarialmath/recursion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index a77d47d..82abef4 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -731,10 +731,10 @@ class Recursion(Reserves):
                     #_t = "" if t < 0 else ":" + str(t)
                     #msg = f"forward e_{x+s}{_t} = e_{x+s}:1 + p_{x+s} e_{x+s+1}"
                     self.blog(self.pprint.e(x=x, s=s, t=t, curtate=curtate), '= [',
-                              self.pprint.e(x=x, s=s-1, t=self.add_term(t, 1),
+                              self.pprint.e(x=x, s=s-u, t=self.add_term(t, u),
                                             curtate=curtate), '-',
-                              self.pprint.e(x=x, s=s-1, t=1, curtate=curtate), '] /',
-                              self.pprint.p(x=x, s=s-1, t=1), 
+                              self.pprint.e(x=x, s=s-u, t=u, curtate=curtate), '] /',
+                              self.pprint.p(x=x, s=s-u, t=u), 
                               depth=depth, rule='forward recursion')
                     return (e - e1) / p # (3) forward: (e_x-1 - e_x-1:1) / p_x-1
                 else:
-- 
2.43.0


From 1200c5b7c3f66c8c06b49057c1962f2bd9f7758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 110/124] fix: endowment minus term step displays amount and
 moment

---
 src/actuarialmath/recursion.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 82abef4..148a900 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -857,9 +857,12 @@ class Recursion(Reserves):
         A = self._A_x(x, s=s, t=t, b=endowment, endowment=endowment, 
                       moment=moment, depth=depth-1)        
         if A is not None and At is not None:
-            self.blog(self.pprint.E(x=x, s=s, t=t), '=',
-                      self.pprint.A(x=x, s=s, t=t, endowment=endowment), '-',
-                      self.pprint.A(x=x, s=s, t=t, endowment=0),
+            self.blog(self.pprint.E(x=x, s=s, t=t, endowment=endowment,
+                                    moment=moment), '=',
+                      self.pprint.A(x=x, s=s, t=t, b=endowment, moment=moment,
+                                    endowment=endowment), '-',
+                      self.pprint.A(x=x, s=s, t=t, b=endowment, moment=moment,
+                                    endowment=0),
                       #f"endowment - term insurance = {t}_E_{x+s}",
                       depth=depth, rule='endowment insurance minus term')
             return A - At  # (3) endowment insurance - term (helpful SULT)
-- 
2.43.0


From 943613e65ee5f9f93cb782de80ac88def6d7c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 111/124] fix: increasing insurance step displays one year of
 discount

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 148a900..00fbc83 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -978,7 +978,7 @@ class Recursion(Reserves):
             if A is not None and IA is not None and p is not None:
                 self.blog(self.pprint.IA(x=x, s=s, t=t), '=',
                           self.pprint.A(x=x, s=s, t=t), '+',
-                          self.pprint.p(x=x, s=s), f"*", self.pprint.m(t, v="v"), "*",
+                          self.pprint.p(x=x, s=s), f"*", self.pprint.m(1, v="v"), "*",
                           self.pprint.IA(x=x, s=s+1, t=t-1),
                           #f"backward IA_{x+s}:{t}: A + IA_{x+s+1}:{t-1}",
                           depth=depth, rule='backward recursion')
-- 
2.43.0


From 0d2876bd62bd6212c3addf8ac4096b0b6a00d312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 112/124] fix: decreasing insurance step displays one year of
 discount of both terms

---
 src/actuarialmath/recursion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 00fbc83..eaedce6 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1074,9 +1074,10 @@ class Recursion(Reserves):
             if DA is not None and p is not None:
                 #f"backward DA_{x+s}:{t}: v(t q_{x+s} + p_{x+s} DA_{x+s+1}:{t-1})"
                 self.blog(self.pprint.DA(x=x, s=s, t=t), f"=",
-                          self.pprint.m(t, v="v"), "* t *",
+                          self.pprint.m(1, v="v"), "* [ t *",
                           self.pprint.q(x=x, s=s), '+',
                           self.pprint.p(x=x, s=s), '*', self.pprint.DA(x=x, s=s+1, t=t-1),
+                          ']',
                           depth=depth, rule='backward recursion')
                 return self.interest.v * ((1-p)*t*b + p*DA)  # (2) backward recursion
             else:
-- 
2.43.0


From a13054ec0849fd94edc15869cd617a097eb557a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 113/124] fix: deferred insurance steps display amounts of both
 sides

---
 src/actuarialmath/recursion.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index eaedce6..28d4537 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1197,9 +1197,11 @@ class Recursion(Reserves):
             E = self._E_x(x, s=s, t=1, moment=moment, depth=depth-1)
             if A is not None and E is not None:  # (1a) backward E_x * A
                 #msg = f"backward deferred {u}_A_{x+s}: {u}_E * A_{x+s+u}"
-                self.blog(self.pprint.A(x=x, s=s, t=t, u=u, b=b, moment=moment), '=',
+                self.blog(self.pprint.A(x=x, s=s, t=t, u=u, b=b, moment=moment,
+                                        endowment=endowment), '=',
                           self.pprint.E(x=x, s=s, moment=moment), '*',
-                          self.pprint.A(x=x, s=s+1, t=t, u=u-1, moment=moment),
+                          self.pprint.A(x=x, s=s+1, t=t, u=u-1, b=b,
+                                        moment=moment, endowment=endowment),
                           depth=depth, rule='backward recursion')
                 return E * A
             else:
@@ -1210,8 +1212,10 @@ class Recursion(Reserves):
             E = self._E_x(x, s=s-1, t=1, moment=moment, depth=depth-1)
             if A is not None and E is not None: # (1b) forward recursion
                 msg = f"forward deferred {u}_A_{x+s}: {u+1}A_{x+s-1} / E"
-                self.blog(self.pprint.A(x=x, s=s, t=t, u=u, b=b, moment=moment), '=',
-                          self.pprint.A(x=x, s=s-1, t=t, u=u+1, moment=moment), '/',
+                self.blog(self.pprint.A(x=x, s=s, t=t, u=u, b=b, moment=moment,
+                                        endowment=endowment), '=',
+                          self.pprint.A(x=x, s=s-1, t=t, u=u+1, b=b,
+                                        moment=moment, endowment=endowment), '/',
                           self.pprint.E(x=x, s=s-1, moment=moment),
                           depth=depth, rule='forward recursion')
                 return A / E
-- 
2.43.0


From 9c5f9980bdf75ba426ae2b857915a5e8d1454484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 114/124] fix: term plus pure endowment steps display the
 benefit

---
 src/actuarialmath/recursion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 28d4537..67680d7 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1230,9 +1230,9 @@ class Recursion(Reserves):
                             endowment=endowment, depth=depth-1)
             if A is not None and E_x is not None:
                 # f"term + pure insurance = A_{x+s}:{t}",
-                self.blog(self.pprint.A(x=x, s=s, t=t, endowment=endowment,
+                self.blog(self.pprint.A(x=x, s=s, t=t, b=b, endowment=endowment,
                                             moment=moment),
-                          '=', self.pprint.A(x=x, s=s, t=t, moment=moment), '+',
+                          '=', self.pprint.A(x=x, s=s, t=t, b=b, moment=moment), '+',
                           self.pprint.E(x=x, s=s, t=t, endowment=endowment,
                                             moment=moment),
                           depth=depth, rule='term plus pure endowment')
@@ -1246,8 +1246,8 @@ class Recursion(Reserves):
                             depth=depth-1)
             if A is not None and E_x is not None:
                 #msg = f"endowment insurance - pure endowment = A_{x+s}^1:{t}"
-                self.blog(self.pprint.A(x=x, s=s, t=t, moment=moment), '=',
-                          self.pprint.A(x=x, s=s, t=t, moment=moment, endowment=b), '-',
+                self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment), '=',
+                          self.pprint.A(x=x, s=s, t=t, b=b, moment=moment, endowment=b), '-',
                           self.pprint.E(x=x, s=s, t=t, endowment=b, moment=moment),
                           depth=depth, rule='endowment insurance - pure')
                 return A - E_x
-- 
2.43.0


From 1ad8d7ac53618ae5c2d5599ffa294f7262f0a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 115/124] fix: one-year insurance step displays the discounted
 benefit and endowment

---
 src/actuarialmath/recursion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 67680d7..263dcb4 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1268,13 +1268,13 @@ class Recursion(Reserves):
             #print(p, x, s, t, b, endowment)
             
             if p is not None:  # (3b) one-year discrete insurance
-                self.blog(self.pprint.A(x=x, s=s, t=t, moment=moment,
+                self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment,
                                             endowment=endowment), "=",
-                          self.pprint.m(moment, v="v"), "*",
+                          self.pprint.m(moment, v="v"), "* [",
                           self.pprint.q(x=x, s=s), f"*",
-                          self.pprint.m(moment, v="v"), "+",
+                          self.pprint.m(moment, b="b"), "+",
                           self.pprint.p(x=x, s=s), f"*",
-                          self.pprint.m(moment, endow=endowment),
+                          self.pprint.m(moment, endow=endowment), "]",
                           #f"discrete 1-year insurance: A_{x+s}:1 = qv",
                           depth=depth, rule='one-year discrete insurance')
                 return (self.interest.v**moment 
-- 
2.43.0


From 8cbf861209f16d226642f22d9e4724f705ee12a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 116/124] fix: insurance recursion steps display the endowment

---
 src/actuarialmath/recursion.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 263dcb4..efaabd3 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1291,12 +1291,14 @@ class Recursion(Reserves):
                       endowment=endowment, depth=depth-1)
         p = self._p_x(x, s=s, t=1, depth=depth-1) # (4) backward recursion
         if A is not None and p is not None:
-            self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment),
+            self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment,
+                                    endowment=endowment),
                       f"= v"+self.pprint.m(moment), "* [",
                       self.pprint.q(x=x,s=s), f"*",
                       self.pprint.m(moment, b="b"), "+",
                       self.pprint.p(x=x, s=s), '*',
-                      self.pprint.A(x=x, s=s+1, t=t-1, b=b, moment=moment), ']',
+                      self.pprint.A(x=x, s=s+1, t=t-1, b=b, moment=moment,
+                                    endowment=endowment), ']',
                       #f"backward: A_{x+s} = qv + pvA_{x+s+1}",
                       depth=depth, rule='backward recursion')
             return self.interest.v_t(1)**moment * ((1 - p)*b**moment + p*A)
@@ -1348,8 +1350,10 @@ class Recursion(Reserves):
                       endowment=endowment, depth=depth-1)
         p = self._p_x(x, s=s-1, t=1, depth=depth-1)
         if A is not None and p is not None:  # (5) forward recursion
-            self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment), '= [',
-                      self.pprint.A(x=x, s=s-1, t=t+1, b=b, moment=moment),
+            self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment,
+                                    endowment=endowment), '= [',
+                      self.pprint.A(x=x, s=s-1, t=self.add_term(t, 1), b=b,
+                                    moment=moment, endowment=endowment),
                       f"/", self.pprint.m(moment, v="v"), "-",
                       self.pprint.q(x=x, s=s-1), f"*",
                       self.pprint.m(moment, b="b"), "] /", self.pprint.p(x=x, s=s-1),
-- 
2.43.0


From bc58dd0f8027cc846e152759fe22d9a4434ef8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 117/124] fix: backward deferred annuity step displays
 multiplication by the pure endowment

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index efaabd3..a06ba10 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1545,7 +1545,7 @@ class Recursion(Reserves):
             if found is not None and E is not None:
                 #msg = f"backward {u}_a_{x+s} = {u}_E * a_{x+s+u}"
                 self.blog(self.pprint.a(x=x, s=s, u=u, t=t), '=',
-                          self.pprint.a(x=x, s=s+1, t=t, u=u-1), '/',
+                          self.pprint.a(x=x, s=s+1, t=t, u=u-1), '*',
                           self.pprint.E(x=x, s=s),
                           depth=depth, rule='backward deferred annuity')
                 return E * found  # (1a) backward recusion
-- 
2.43.0


From 028ba048d62ae3c3ad0ee2ffeeced915cee98e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 118/124] fix: annuity twin step displays the unit amount it
 uses

---
 src/actuarialmath/recursion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index a06ba10..6bd6533 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1659,8 +1659,8 @@ class Recursion(Reserves):
             A = self._A_x(x, s=s, t=t, endowment=1, discrete=discrete, 
                           depth=self.maxdepth)
             if A is not None:
-                self.blog(self.pprint.a(x=x, s=s, t=t, b=b), '= [ 1 -',
-                          self.pprint.A(x=x, s=s, t=t, b=b, endowment=b), f"] / d",
+                self.blog(self.pprint.a(x=x, s=s, t=t), '= [ 1 -',
+                          self.pprint.A(x=x, s=s, t=t, endowment=1), f"] / d",
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-- 
2.43.0


From 5f9ff70e509762f5f26b822742a9bc2d33858c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 119/124] fix: insurance twin step displays the insurance it
 derives

---
 src/actuarialmath/recursion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 6bd6533..c4e8823 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1388,9 +1388,9 @@ class Recursion(Reserves):
         if moment == 1 and self.interest.i > 0:  # (1) twin annuity
             a = self._a_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if a is not None:
-                self.blog(self.pprint.a(x=x, s=s), '= [ 1 -',
-                          self.pprint.A(x=x, s=s), f"] / d",
-                          #"Annuity twin: a = (1 - A) / d",
+                self.blog(self.pprint.A(x=x, s=s), '= 1 - d *',
+                          self.pprint.a(x=x, s=s),
+                          #"Insurance twin: A = 1 - d a",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
                 return b * self.insurance_twin(a=a, discrete=discrete)
-- 
2.43.0


From 264e18f7e40152c760ebaa65800c16b3ca9cdc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 120/124] fix: endowment insurance title displays the endowment
 and its twin step

---
 src/actuarialmath/recursion.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index c4e8823..f9d81c5 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1454,7 +1454,9 @@ class Recursion(Reserves):
         self.blog = self.Blog("Endowment Insurance",
                               self.pprint.A(x=x, s=s, t=t, b=b, u=0,
                                             discrete=discrete,
-                                            endowment=endowment, moment=moment),
+                                            endowment=(b if endowment < 0
+                                                       else endowment),
+                                            moment=moment),
                               levels=self.maxdepth)
         assert t >= 0
         if endowment < 0:
@@ -1468,6 +1470,9 @@ class Recursion(Reserves):
             a = self._a_x(x, s=s, t=t, discrete=discrete,
                           depth=self.maxdepth)
             if a is not None:   # twin insurance
+                self.blog(self.pprint.A(x=x, s=s, t=t, endowment=1), '= 1 - d *',
+                          self.pprint.a(x=x, s=s, t=t),
+                          depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
                 return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().endowment_insurance(x, s=s, b=b, t=t, discrete=discrete,
-- 
2.43.0


From 7dd8a403b96a8a08427e9b0e0fb7790139bd2beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 121/124] fix: whole life annuity title displays a variance as
 one

---
 src/actuarialmath/recursion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index f9d81c5..76ef6e0 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1617,7 +1617,8 @@ class Recursion(Reserves):
         """
         self.blog = self.Blog("Whole Life Annuity",
                               self.pprint.a(x=x, s=s, t=Reserves.WHOLE, b=b, u=0,
-                                            discrete=discrete, variance=False),
+                                            discrete=discrete,
+                                            variance=variance),
                               levels=self.maxdepth)
         found = self._a_x(x, s=s, b=b, variance=variance, 
                           discrete=discrete, depth=self.maxdepth)
-- 
2.43.0


From 949d2efe8eae6de1f50f03367196f1fa4585a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 122/124] fix: decreasing insurance derivation is titled as one

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 76ef6e0..9c10036 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1094,7 +1094,7 @@ class Recursion(Reserves):
           b : amount of benefit in first year
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        self.blog = self.Blog("Increasing Insurance",
+        self.blog = self.Blog("Decreasing Insurance",
                               self.pprint.DA(x=x, s=s, t=t, b=b, discrete=discrete),
                               levels=self.maxdepth)
         if t == 0:
-- 
2.43.0


From f764792233ae119173b530a92b0c997f98a06be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 123/124] fix: title of mortality deferred for life is survival
 to the deferral

---
 src/actuarialmath/recursion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 9c10036..fc0c998 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -80,7 +80,7 @@ class _Blog:
         if t == 0:
             return "0"
         if t < 0:
-            return "1"
+            return _Blog.p(x=x, s=s, t=u)
         out = []
         if t != 1:
             out.append(f"t={t}")
@@ -213,7 +213,7 @@ class PPrint(_Blog):
         if t == 0:
             return "~0"
         if t < 0:
-            return "~1"
+            return PPrint.p(x=x, s=s, t=u)
         left = '~'
         if t != 1 or u > 0:
             left += "_{{"
-- 
2.43.0


From f5aa17592c88b219ea1c655bd17a5677111d8dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 124/124] fix: solve brackets the root when a flat stretch of
 the function ties for the best guess

---
 src/actuarialmath/actuarial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index bfd99c8..96a0957 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -101,9 +101,9 @@ class Actuarial(object):
             if isinstance(grid, (list, tuple)):
                 values = [(x, f(x)) for x in   # guess can be list of guesses
                           np.linspace(min(grid), max(grid), 5)]
-                grid = min([(abs(y), x) for x, y in values])[1]
+                best, grid = min([(abs(y), x) for x, y in values])
                 for (a, fa), (b, fb) in zip(values, values[1:]):
-                    if grid in (a, b) and fa * fb < 0:  # best guess is bracketed
+                    if fa * fb < 0 and math.isclose(best, min(abs(fa), abs(fb))):  # best guess is bracketed
                         root = scipy.optimize.brentq(f, a, b)
                         fun(root)   # call again with final in case want side effect
                         return root
-- 
2.43.0

