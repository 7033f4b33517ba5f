From d92b262162760e65a18b9576a17e66a648a4b2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:22 +0000
Subject: [PATCH 001/109] fix: isothermal critical pressure of long pipelines
 (lambertw argument underflow)

---
 fluids/compressible.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index 65c87e7..822745b 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -560,7 +560,16 @@ def P_isothermal_critical_flow(P: float, fd: float, D: float, L: float) -> float
        2005.
     """
     # Correct branch of lambertw found by trial and error
-    lambert_term = float((lambertw(-exp((-D - L*fd)/D), -1)).real)
+    x = (D + L*fd)/D
+    if x < 700.0:
+        lambert_term = float((lambertw(-exp(-x), -1)).real)
+    else:
+        # The argument underflows for long pipelines; -W(-exp(-x)) = w is the
+        # larger root of w = x + log(w), a strong contraction for large x
+        w = x + log(x)
+        for _ in range(6):
+            w = x + log(w)
+        lambert_term = -w
     return P*exp((D*(lambert_term + 1.0) + L*fd)/(2.0*D))
 
 
@@ -573,7 +582,15 @@ def P_upstream_isothermal_critical_flow(P: float, fd: float, D: float, L: float)
     ... L=1000., D=0.5)
     1000000.00000
     """
-    lambertw_term = float(lambertw(-exp(-(fd*L+D)/D), -1).real)
+    x = (fd*L + D)/D
+    if x < 700.0:
+        lambertw_term = float(lambertw(-exp(-x), -1).real)
+    else:
+        # See `P_isothermal_critical_flow`
+        w = x + log(x)
+        for _ in range(6):
+            w = x + log(w)
+        lambertw_term = -w
     return exp(-0.5*(D*lambertw_term+fd*L+D)/D)*P
 
 
-- 
2.43.0


From 1350879dd3e39e973a51d939dd56de33a70e3ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:17 +0000
Subject: [PATCH 002/109] fix: isothermal_gas failing to solve for achievable
 inlet pressures

---
 fluids/compressible.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index 822745b..04b8149 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -936,7 +936,9 @@ f"due to the formation of choked flow at P2={Pcf:f}, specified outlet pressure w
             return P1
         except:
             try:
-                return brenth(isothermal_gas_err_P1, P2, Pcf, args=(fd, rho, P2, L, D, m))
+                # The bound is reduced as at the choking limit itself rounding decides
+                # whether or not the state is seen as choked
+                return brenth(isothermal_gas_err_P1, P2, Pcf*(1.0 - 1e-10), args=(fd, rho, P2, L, D, m))
             except:
                 m_max = isothermal_gas(rho, fd, P1=Pcf, P2=P2, L=L, D=D)  # numba: delete
                 raise ValueError(f"The desired mass flow rate of {m:f} kg/s cannot " # numba: delete
-- 
2.43.0


From 4c694c9dd3e22674ea03cbabbee504cc05ff96cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:17 +0000
Subject: [PATCH 003/109] fix: isothermal_gas outlet pressure losing precision
 to a subnormal lambertw argument

---
 fluids/compressible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index 04b8149..9282a86 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -961,7 +961,8 @@ f"due to the formation of choked flow at P2={Pcf:f}, specified outlet pressure w
             lambert_ans = float(lambertw(arg, k=-1).real)
             # Large overflow problem here; also divide by zero problems!
             # Fail and try a numerical solution if it doesn't work.
-            if isinf(lambert_ans):
+            # An argument in the subnormal range has lost its precision.
+            if isinf(lambert_ans) or arg > -1e-290:
                 raise ValueError("Should not be infinity")
             P2 = P1/exp((-C*m**2+lambert_ans*m**2+B*P1)/m**2/2.)
             if not (P2 < P1):
-- 
2.43.0


From ea71717a06e5696d80579f76902ab627d785c6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:17 +0000
Subject: [PATCH 004/109] fix: isothermal_gas failing to solve for diameter
 when the initial guess is choked

---
 fluids/compressible.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index 9282a86..0115829 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -983,7 +983,15 @@ f"due to the formation of choked flow at P2={Pcf:f}, specified outlet pressure w
             # It is believed Pcf and P1 will always bracket the root, however
             # leave the commented code for testing
     elif D is None and P2 is not None and P1 is not None and L is not None and m is not None:
-        return secant(isothermal_gas_err_D, 0.1, args=(m, rho, fd, P1, P2, L))
+        try:
+            return secant(isothermal_gas_err_D, 0.1, args=(m, rho, fd, P1, P2, L))
+        except:
+            # The guess or an iteration was beyond the diameter at which the
+            # specified pressures choke the flow; flow increases with diameter
+            # until then
+            r = P1/P2
+            D_max = fd*L/(r*r - 1.0 - 2.0*log(r))*(1.0 - 1e-10)
+            return brenth(isothermal_gas_err_D, 1e-7*D_max, D_max, args=(m, rho, fd, P1, P2, L))
     else:
         raise ValueError("This function solves for either mass flow, upstream \
 pressure, downstream pressure, diameter, or length; all other inputs \
-- 
2.43.0


From e0ca43d5b4c2a40a9227a79f8f6b07f86485e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:23 +0000
Subject: [PATCH 005/109] fix: bend_rounded(method='Crane') raised ValueError
 for any rc other than 5 Di

---
 fluids/fittings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 9b2247a..6802674 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -1532,7 +1532,7 @@ def bend_rounded(Di: float, angle: float, fd: float | None=None, rc: float | Non
                                    L_unimpeded=L_unimpeded)
     elif method == "Crane":
         return bend_rounded_Crane(Di=Di, angle=angle, rc=rc,
-                                  bend_diameters=bend_diameters2)
+                                  bend_diameters=bend_diameters)
     elif method == "Crane standard":
         return ft_Crane(Di)*interp(angle, crane_standard_bend_angles, crane_standard_bend_losses, extrapolate=True)
     elif method == "Ito":
-- 
2.43.0


From 79deac82084df87d32358a97381fa5021057d784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:05 +0000
Subject: [PATCH 006/109] fix: K_branch_diverging_Crane used the 90 degree tee
 coefficients H, J between 60 and 75 degrees

---
 fluids/fittings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 6802674..7015ce8 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -5145,7 +5145,7 @@ def K_branch_diverging_Crane(D_run: float, D_branch: float, Q_run: float, Q_bran
     Q_comb = Q_run + Q_branch
     Q_ratio = Q_branch/Q_comb
 
-    if angle < 60 or beta <= 2/3.:
+    if angle < 75 or beta <= 2/3.:
         H, J = 1., 2.
     else:
         H, J = 0.3, 0
-- 
2.43.0


From 04a43c937680c10badae58218b61d13dabb3f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:05 +0000
Subject: [PATCH 007/109] fix: K_tilting_disk_check_valve_Crane 15 degree size
 limits are inclusive, as documented

---
 fluids/fittings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 7015ce8..82293ab 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -4078,10 +4078,10 @@ def K_tilting_disk_check_valve_Crane(D: float, angle: float, fd: float | None=No
             return 20*fd
     else:
         # 15 degree case
-        if D < 0.2286:
+        if D <= 0.2286:
             # 2-8 inches
             return 120*fd
-        elif D < 0.381:
+        elif D <= 0.381:
             # 10-14 inches
             return 90*fd
         else:
-- 
2.43.0


From c01c6c179b607ff7000374780f98b623d570e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:58 +0000
Subject: [PATCH 008/109] fix: size_control_valve_l raised NameError when not
 converged and full_output is False

---
 fluids/control_valve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 5583536..3b87e21 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -742,9 +742,9 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
                     C = Q/N1/FP*sqrt(rho/rho0/dP)
                 if Ci/C < 0.99 and iterations < MAX_ITER and Ci < MAX_C_POSSIBLE:
                     C = iterate_piping_turbulent_l(C, iterations+1)
-                if MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE:
-                    ans["warning"] = "Not converged in inner loop"
                 if full_output:
+                    if MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE:
+                        ans["warning"] = "Not converged in inner loop"
                     ans["FLP"] = FLP
                     ans["FP"] = FP
                 return C
-- 
2.43.0


From fc1aafb1b4b6605df4c33f6a5d46a006489e3eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:37 +0000
Subject: [PATCH 009/109] fix: size_control_valve_g (and laminar _l) reported
 FP, xTP, FR, Rev of the first iteration instead of the returned one

---
 fluids/control_valve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 3b87e21..e37fd64 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -760,7 +760,7 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
                 else:
                     FR = Reynolds_factor(FL=FL, C=Ci, d=d, Rev=Rev, full_trim=True)
                 if C/FR >= Ci:
-                    Ci = iterate_piping_laminar_l(Ci) # pragma: no cover
+                    return iterate_piping_laminar_l(Ci) # pragma: no cover
 
                 if full_output:
                     ans["Rev"] = Rev
@@ -938,7 +938,7 @@ def size_control_valve_g(T: float, MW: float, mu: float, gamma: float, Z: float,
                     # Non-choked flow with piping, equation 11a
                     C = Q/(N9*FP*P1*Y)*sqrt(MW*T*Z/x)
                 if Ci/C < 0.99 and iterations < MAX_ITER and Ci < MAX_C_POSSIBLE:
-                    C = iterate_piping_coef_g(C, iterations+1)
+                    return iterate_piping_coef_g(C, iterations+1)
                 if full_output:  # numba: delete
                     ans["xTP"] = xTP  # numba: delete
                     ans["FP"] = FP  # numba: delete
@@ -978,7 +978,7 @@ def size_control_valve_g(T: float, MW: float, mu: float, gamma: float, Z: float,
                 else:
                     FR = Reynolds_factor(FL=FL, C=Ci, d=d, Rev=Rev, full_trim=True)
                 if C/FR >= Ci:
-                    Ci = iterate_piping_laminar_g(Ci)
+                    return iterate_piping_laminar_g(Ci)
                 if full_output:  # numba: delete
                     ans["FR"] = FR  # numba: delete
                     ans["Rev"] = Rev  # numba: delete
-- 
2.43.0


From c25d908e8878e8d56fdc99de9d61a042fcb9de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:38 +0000
Subject: [PATCH 010/109] fix: size_control_valve_l/g ignored
 allow_choked=False when fittings are attached

---
 fluids/control_valve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index e37fd64..77e5612 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -734,7 +734,7 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
 
                 FLP = FL*1.0/sqrt(1 + FL**2/N2*loss_upstream*(Ci/d**2)**2)
                 choked = is_choked_turbulent_l(dP, P1, Psat, FF, FLP=FLP, FP=FP)
-                if choked:
+                if choked and allow_choked:
                     # Choked flow with piping, equation 4
                     C = Q/N1/FLP*sqrt(rho/rho0/(P1-FF*Psat))
                 else:
@@ -931,7 +931,7 @@ def size_control_valve_g(T: float, MW: float, mu: float, gamma: float, Z: float,
                 loss_upstream = loss_coefficient_piping(d, D1)
                 xTP = xT/FP**2/(1 + xT*loss_upstream/N5*(Ci/d**2)**2)
                 choked = is_choked_turbulent_g(x, Fgamma, xTP=xTP)
-                if choked:
+                if choked and allow_choked:
                     # Choked flow with piping, equation 17a
                     C = Q/(N9*FP*P1*Y)*sqrt(MW*T*Z/xTP/Fgamma)
                 else:
-- 
2.43.0


From d6a5c470b58c2c40edad9f9b5bd612d2eadf9927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:38 +0000
Subject: [PATCH 011/109] fix: size_control_valve_l laminar iteration compared
 against the increased coefficient, oversizing small-trim valves

---
 fluids/control_valve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 77e5612..0f9266f 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -752,21 +752,21 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
             C = iterate_piping_turbulent_l(Ci, 0)
         elif Rev <= 10000 and allow_laminar:
             # Laminar
-            def iterate_piping_laminar_l(C):
-                Ci = 1.3*C
+            def iterate_piping_laminar_l(Ci):
                 Rev = Reynolds_valve(nu=nu, Q=Q, D1=D1, FL=FL, Fd=Fd, C=Ci)
                 if Ci/(d*d) > 0.016*N18:
                     FR = Reynolds_factor(FL=FL, C=Ci, d=d, Rev=Rev, full_trim=False)
                 else:
                     FR = Reynolds_factor(FL=FL, C=Ci, d=d, Rev=Rev, full_trim=True)
                 if C/FR >= Ci:
-                    return iterate_piping_laminar_l(Ci) # pragma: no cover
+                    # C stays the turbulent flow coefficient, only Ci is increased
+                    return iterate_piping_laminar_l(1.3*Ci)
 
                 if full_output:
                     ans["Rev"] = Rev
                     ans["FR"] = FR
                 return Ci
-            C = iterate_piping_laminar_l(C)
+            C = iterate_piping_laminar_l(1.3*C)
     if full_output:
         ans["FF"] = FF
         ans["choked"] = choked
-- 
2.43.0


From 224933b85e540dc93b3b881889f8d60c8d31747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:55 +0000
Subject: [PATCH 012/109] fix: API520_A_l raised TypeError when neither Kv nor
 mu is given, though both are optional

---
 fluids/safety_valve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fluids/safety_valve.py b/fluids/safety_valve.py
index 91c727a..04cd797 100644
--- a/fluids/safety_valve.py
+++ b/fluids/safety_valve.py
@@ -1078,7 +1078,10 @@ def API520_A_l(m, rho, P1, P2, overpressure, Kd=0.65, Kc=1.0,
     P_set = P_set_guage + atm
     if Kw is None:
         Kw = API520_W(P_set, P2)
-    if Kv is None and mu is not None:
+    if Kv is None and mu is None:
+        # No viscosity correction requested
+        Kv = 1.0
+    elif Kv is None:
         A0 = API520_A_l(m=m, rho=rho, P1=P1, P2=P2, overpressure=overpressure, Kd=Kd, Kc=Kc, Kv=1.0, Kw=Kw)
         D = sqrt(A0*4.0/pi)
         v = (Q/60000.0)/A0
-- 
2.43.0


From a8e6145603c2572bfbea02d8d37a0978c6778ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:54 +0000
Subject: [PATCH 013/109] fix: nozzle_expansibility ignored the beta argument
 (wedge meters) and divided by zero without pressure drop when k is exactly 1

---
 fluids/flow_meter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fluids/flow_meter.py b/fluids/flow_meter.py
index 3893cab..27fe7c4 100644
--- a/fluids/flow_meter.py
+++ b/fluids/flow_meter.py
@@ -1440,8 +1440,10 @@ def nozzle_expansibility(D: float, Do: float, P1: float, P2: float, k: float, be
         val= sqrt(term1*term2*term3)
         print(simplify(limit((term1*term2*term3), k, 1)))
         """
-        limit_val = (P1*P2**2*(-D**4 + Do**4)*log(P2/P1)/(D**4*P1**3
-                    - D**4*P1**2*P2 - Do**4*P1*P2**2 + Do**4*P2**3))
+        if tau == 1.0:
+            return 1.0
+        tau2 = tau*tau
+        limit_val = -(1.0 - beta4)*tau2*log(tau)/((1.0 - beta4*tau2)*(1.0 - tau))
         return sqrt(limit_val)
 
     term1 = k*tau**(2.0/k)/(k - 1.0)
-- 
2.43.0


From 3516925308c67bb51fa016ad2d03847b59cc308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:32 +0000
Subject: [PATCH 014/109] fix: secant with bisection=True returned the
 unevaluated middle of the bracket instead of the converged point

---
 fluids/numerics/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 6fc1589..58f5f24 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2901,11 +2901,6 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
         if high is not None and p > high:
             p = high
 
-        # After computing new point
-        if bisection and a is not None and b is not None:
-            if not (a < p < b) or (b < p < a):
-                # print('Bisecting')
-                p = 0.5*(a + b)
         # Check the exit conditions
         if ytol is not None and xtol is not None:
             # Meet both tolerance - new value is under ytol, and old value
@@ -2964,6 +2959,12 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
                     # Cannot proceed, raise an error
                     raise SamePointError("Convergence failed - previous points are the same", q1=q1, p1=p1, q0=q0, p0=p0)
 
+        # Only after checking for convergence - a converged point lies on the
+        # edge of the bracket, and must not be exchanged for the middle of it
+        if bisection and a is not None and b is not None:
+            if not (a < p < b) or (b < p < a):
+                # print('Bisecting')
+                p = 0.5*(a + b)
 
         # Swap the points around
         p0 = p1
-- 
2.43.0


From a336c6bb24150920ab7692a07a39c5f26cda5c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:53 +0000
Subject: [PATCH 015/109] fix: circle_segment_h_from_A returned the radius for
 any segment larger than half of the circle

---
 fluids/geometry.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index d88f3dd..eb3c5a6 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1876,8 +1876,16 @@ def circle_segment_h_from_A(A: float, D: float) -> float:
     if A == 0.0:
         return 0.0
     R = 0.5*D
-    return newton(circle_segment_area_inner, x0=0.25*R, fprime=True, high=R, low=0.0,
-                  args=(R, A), xtol=1e-12, bisection=True)
+    A_total = pi*R*R
+    over_half = A > 0.5*A_total
+    if over_half:
+        # Solve for the empty segment, which is less than half of the circle
+        A = A_total - A
+        if A <= 0.0:
+            return D
+    h = newton(circle_segment_area_inner, x0=0.25*R, fprime=True, high=R, low=0.0,
+               args=(R, A), xtol=1e-12, bisection=True)
+    return D - h if over_half else h
 
 
 def SA_partial_horiz_conical_head(D: float, a: float, h: float) -> float:
-- 
2.43.0


From c8242e6dc8b0f2cd341861ccb6e64aed7dae270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:07 +0000
Subject: [PATCH 016/109] fix: SA_partial_horiz_spherical_head did not clamp
 levels outside the vessel for hemispherical heads

---
 fluids/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index eb3c5a6..d01523b 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1995,12 +1995,12 @@ def SA_partial_horiz_spherical_head(D: float, a: float, h: float) -> float:
        April 2017. https://www.chemicalprocessing.com/assets/Uploads/calculating-tank-wetted-area.pdf
     """
     R = 0.5*D
-    if a == R:
-        return pi*R*h
-    elif h < 0.0:
+    if h < 0.0:
         return 0.0
     elif h > D:
         h = D
+    if a == R:
+        return pi*R*h
 
     fact = (a*a + R*R)/abs(a)
     R2 = R*R
-- 
2.43.0


From 03e53622b43137bc5cda4b25763c234bd2a2fc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:07 +0000
Subject: [PATCH 017/109] fix: SA_partial_horiz_torispherical_head divided by
 zero for some heads and recursed without end with the level at the edge of
 the knuckle

---
 fluids/geometry.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index d01523b..7b50678 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -2450,7 +2450,7 @@ def SA_partial_horiz_torispherical_head(D: float, f: float, k: float, h: float)
 
     limit_1 = k*D*(1.0 - sin_alpha)
 
-    if h < limit_1:
+    if h <= limit_1:
         SA = quad(_SA_partial_horiz_torispherical_head_int_2, 0.0, sqrt(2*k*D*h - h*h), args=(t2, s, c1))[0]
         return 2.0*SA
     elif limit_1 < h <= R:
@@ -2463,13 +2463,15 @@ def SA_partial_horiz_torispherical_head(D: float, f: float, k: float, h: float)
             SA = 2.0*quad(_SA_partial_horiz_torispherical_head_int_2, 0.0, a2, args=(t2, s, c1))[0] # numba: delete
             # print('SA', SA)
 #        SA = 2.0*quad(_SA_partial_horiz_torispherical_head_int_2, 0.0, a2, args=(t2, s, c1))[0] # numba: uncomment
+        # The upper limit f*D*sin_alpha is a singular point of the antiderivative;
+        # its value there is known, as the area of the complete cap is
+        high = 0.5*pi*a1
         try:
-            high = _SA_partial_horiz_torispherical_head_int_1(f*D*sin_alpha, b, c)
+            low = _SA_partial_horiz_torispherical_head_int_1(R-h, b, c)
         except:
-            # Expression with the substitution is equally complicated
-            high = _SA_partial_horiz_torispherical_head_int_1(f*D*sin_alpha*(1.0 + 1e-14), b, c)
-        int_1_term1 = high - _SA_partial_horiz_torispherical_head_int_1(R-h, b, c)
-        SA += 2.0*f*D*int_1_term1
+            # The level is at the edge of the knuckle; none of the dish is wetted
+            low = high
+        SA += 2.0*f*D*(high - low)
     else:
         SA = 2.0*pi*f*D*a1 + 2.0*pi*k*D*(a2 + (R - k*D)*asin(a2/(k*D)))
         SA -= SA_partial_horiz_torispherical_head(D, f, k, h=D-h)
-- 
2.43.0


From fd5b8d3252688d6c10a1baaef1fab9fbdec21ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:19 +0000
Subject: [PATCH 018/109] fix: V_horiz_spherical raised a math domain error by
 rounding for heads almost hemispherical

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 7b50678..64a77f3 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -566,7 +566,7 @@ def V_horiz_spherical(D: float, L: float, a: float, h: float, headonly: bool=Fal
     elif abs(a) >= 0.01*D:
         R_r = R/r
         Vf = a/abs(a)*(
-        (2.0/3.0)*r*r*r*(acos((R*R - r*w)/(R*(w-r))) + acos((R*R+r*w)/(R*(w+r)))
+        (2.0/3.0)*r*r*r*(acos(max(-1.0, (R*R - r*w)/(R*(w-r)))) + acos(min(1.0, (R*R+r*w)/(R*(w+r))))
         - z/r*(2.0+R_r*R_r)*acos(w/R))
         - 2.0*(w*r*r - w*w*w*(1.0/3.0))*atan(y/z) + (4.0/3.0)*w*y*z)
     else:
-- 
2.43.0


From 6ebaba60cba7272b5e9cfa22f10e2008eca6405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:37 +0000
Subject: [PATCH 019/109] fix: V_horiz_torispherical raised a math domain error
 by rounding with the level at the edge of the knuckle

---
 fluids/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 64a77f3..a8e7dd3 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -727,11 +727,12 @@ def V_horiz_torispherical(D: float, L: float, f: float, k: float, h: float, head
         w = R - h
         Vf = 2.0*quad(V_horiz_torispherical_toint_1, 0.0, sqrt(2.0*k*D*h - hh), (w, c10, c11))[0]
     elif h1 < h < h2:
-        w = R - h
+        # The level may differ from the edges of the knuckle by rounding only
+        w = max(-g, min(R - h, g))
         wmax1 = R - h1
         V1max = quad(V_horiz_torispherical_toint_1, 0.0, sqrt(2.0*k*D*h1 - h1*h1), (wmax1,c10, c11))[0]
         V2 = quad(V_horiz_torispherical_toint_2, 0.0, k*D*cos_alpha, (w, c10, c11, g, g2))[0]
-        V3 = quad(V_horiz_torispherical_toint_3, w, g , (r2, g2, 1.0/z))[0] - 0.5*z*(g*g*acos(w/g) -w*sqrt(2.0*g*(h-h1) - (h-h1)*(h-h1)))
+        V3 = quad(V_horiz_torispherical_toint_3, w, g , (r2, g2, 1.0/z))[0] - 0.5*z*(g*g*acos(w/g) -w*sqrt(g2 - w*w))
         Vf = 2.0*(V1max + V2 + V3)
     else:
         w = R - h
-- 
2.43.0


From 81bcb7410512aff0550ffe41f3d1bc1a6da60b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:44 +0000
Subject: [PATCH 020/109] fix: TANK.h_from_V with method brenth did not
 converge for an empty tank (set_chebyshev_approximators failed with it)

---
 fluids/geometry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index a8e7dd3..5dc5e01 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3766,6 +3766,12 @@ class TANK:
                 self.set_chebyshev_approximators()
             return self.h_from_V_cheb(V)
         elif method == "brenth":
+            # The slope of the volume can be zero at the empty and full levels,
+            # which the iteration does not converge to
+            if V == 0.0:
+                return 0.0
+            elif V == self.V_total:
+                return self.h_max
             to_solve = lambda h : self.V_from_h(h, method="full") - V
             return secant(to_solve, x0=0.5*self.h_max, low=0, high=self.h_max, bisection=True)
         else:
-- 
2.43.0


From 19b7895ce9a31efc8e0a439df2f093021df62b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:44 +0000
Subject: [PATCH 021/109] fix: TANK.from_two_specs required a height for
 specifications which do not use one

---
 fluids/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 5dc5e01..89c9949 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3147,7 +3147,8 @@ def tank_from_two_specs_err(guess: list[float], spec0: float, spec1: float, spec
          sideA_f=sideA_f, sideA_k=sideA_k, sideB_f=sideB_f, sideB_k=sideB_k,
          sideA_a_ratio=sideA_a_ratio, sideB_a_ratio=sideB_a_ratio)
     # ensure h is always under the top
-    h = min(h, obj.h_max)
+    if h is not None:
+        h = min(h, obj.h_max)
 
     if spec0_name == "V":
         err0 = obj.V_total - spec0
-- 
2.43.0


From a1c0d5104efb50951987627563bd86e08a44e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:17 +0000
Subject: [PATCH 022/109] fix: TANK.from_two_specs returned an unconverged tank
 without the specified values

---
 fluids/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 89c9949..860048d 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3607,7 +3607,9 @@ class TANK:
         guess = translate_into([1.0, 3.0])
         from scipy.optimize import fsolve
 
-        ans = fsolve(new_f, guess, args=args, xtol=1e-10, factor=.1)
+        ans, _, status, message = fsolve(new_f, guess, args=args, xtol=1e-10, factor=.1, full_output=True)
+        if status != 1:
+            raise ValueError(f"Could not find a tank with the specified values: {message}")
         val0, val1 = translate_outof(ans)
 
         return TANK(D=float(val0), L_over_D=float(val1), horizontal=horizontal,
-- 
2.43.0


From c48d25992318d84c41899aa1de105af5f9886731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:57 +0000
Subject: [PATCH 023/109] fix: AirCooledExchanger rejected pitch_ratio given
 alone and overrode pitch when both were given

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 860048d..1c662f4 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4971,7 +4971,7 @@ class AirCooledExchanger:
         self.fan_diameter = fan_diameter
 
         if pitch_ratio is not None:
-            if pitch is not None:
+            if pitch is None:
                 pitch = self.tube_diameter*pitch_ratio
             else:
                 raise ValueError("Specify only one of `pitch_ratio` or `pitch`")
-- 
2.43.0


From 56595f7333ab417a68f97647268d9859d8b7d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:51 +0000
Subject: [PATCH 024/109] fix: PSDGatesGaudinSchuhman could not be created with
 d_max

---
 fluids/particle_size_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index cdd0d91..576e868 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2132,7 +2132,7 @@ class PSDGatesGaudinSchuhman(ParticleSizeDistributionContinuous):
 
         if d_max is not None:
             # PDF above this is zero
-            self.d_excessive = self.d_max
+            self.d_excessive = min(d_max, self.d_characteristic)
         else:
             self.d_excessive = self.d_characteristic
         if d_min is not None:
-- 
2.43.0


From 0de780318f69288cd3114e81c3e71d2145c5a97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:13 +0000
Subject: [PATCH 025/109] fix: truncated particle size distributions were
 normalised in the wrong order

---
 fluids/particle_size_distribution.py | 31 ++++++++++++++++------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 576e868..6e7277e 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -1307,14 +1307,16 @@ class ParticleSizeDistributionContinuous:
         if n is not None and n != self.order:
             power = n - self.order
             numerator = d**power*ans
-            denominator = self._pdf_basis_integral_definite(d_min=0.0, d_max=self.d_excessive, n=power)
+            # Only the sizes within the truncation limits are to be counted
+            d_min = self.d_min if self.truncated else 0.0
+            denominator = self._pdf_basis_integral_definite(d_min=d_min, d_max=self.d_excessive, n=power)
             ans = numerator/denominator
+        elif self.truncated:
+            ans = (ans)/(self._cdf_d_max - self._cdf_d_min)
         # Handle splines which might go below zero
         ans = max(ans, 0.0)
-        if self.truncated:
-            if d < self.d_min or d > self.d_max:
-                return 0.0
-            ans = (ans)/(self._cdf_d_max - self._cdf_d_min)
+        if self.truncated and (d < self.d_min or d > self.d_max):
+            return 0.0
         return ans
 
     def cdf(self, d: float, n: float | None=None) -> float:
@@ -1352,22 +1354,25 @@ class ParticleSizeDistributionContinuous:
         >>> [psd.cdf(5e-6, n) for n in range(4)]
         [0.933192798731, 0.8413447460685, 0.6914624612740, 0.5]
         """
+        if self.truncated:
+            if d <= self.d_min:
+                return 0.0
+            elif d >= self.d_max:
+                return 1.0
         if n is not None and n != self.order:
             power = n - self.order
+            # Only the sizes within the truncation limits are to be counted
+            d_min = self.d_min if self.truncated else 0.0
             # One of the pdf_basis_integral calls could be saved except for
             # support for numerical integrals
-            numerator = self._pdf_basis_integral_definite(d_min=0.0, d_max=d, n=power)
-            denominator = self._pdf_basis_integral_definite(d_min=0.0, d_max=self.d_excessive, n=power)
+            numerator = self._pdf_basis_integral_definite(d_min=d_min, d_max=d, n=power)
+            denominator = self._pdf_basis_integral_definite(d_min=d_min, d_max=self.d_excessive, n=power)
             ans =  max(numerator/denominator, 0.0)
         # Handle splines which might go below zero
         else:
             ans = max(self._cdf(d=d), 0.0)
-        if self.truncated:
-            if d <= self.d_min:
-                return 0.0
-            elif d >= self.d_max:
-                return 1.0
-            ans = (ans - self._cdf_d_min)/(self._cdf_d_max - self._cdf_d_min)
+            if self.truncated:
+                ans = (ans - self._cdf_d_min)/(self._cdf_d_max - self._cdf_d_min)
         return ans
 
     def delta_cdf(self, d_min, d_max, n=None):
-- 
2.43.0


From 26199610b8d3e2af5946a86aedd3174044eb6d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:26 +0000
Subject: [PATCH 026/109] fix: the GGS distribution counted particles above its
 largest size when changing order

---
 fluids/particle_size_distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 6e7277e..3269871 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -912,6 +912,9 @@ def pdf_Gates_Gaudin_Schuhman_basis_integral(d: float, d_characteristic: float,
     >>> pdf_Gates_Gaudin_Schuhman_basis_integral(d=2E-4, d_characteristic=1E-3, m=2.3, n=-3)
     -10136984887.543015
     """
+    if d > d_characteristic:
+        # No particles are larger than the characteristic diameter
+        d = d_characteristic
     return m/(m+n)*d**n*(d/d_characteristic)**m
 
 
-- 
2.43.0


From 73cdfc84ac21b2b7f18dc8f027c1520b4fb1f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:28 +0000
Subject: [PATCH 027/109] fix: PSDInterpolated mixed up the integrals of
 fractional orders

---
 fluids/particle_size_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 3269871..fd8fe5c 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2335,7 +2335,7 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
             self.cdf_spline = PchipInterpolator(ds, self.fraction_cdf, extrapolate=True)
             self.pdf_spline = PchipInterpolator(ds, self.fraction_cdf, extrapolate=True).derivative(1)
 
-        self.basis_integrals: dict[int, Callable[[float], float]] = {}
+        self.basis_integrals: dict[float, Callable[[float], float]] = {}
 
 
     def _pdf(self, d: float) -> float:
@@ -2359,6 +2359,6 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
             basis_integral = ds**float(n)*pdf_vals
             if self.monotonic:
                 from scipy.interpolate import PchipInterpolator
-                self.basis_integrals[int(n)] = PchipInterpolator(ds, basis_integral, extrapolate=True).antiderivative(1)
-        return max(float(self.basis_integrals[int(n)](d)), 0.0)
+                self.basis_integrals[n] = PchipInterpolator(ds, basis_integral, extrapolate=True).antiderivative(1)
+        return max(float(self.basis_integrals[n](d)), 0.0)
 
-- 
2.43.0


From 2c7dedf8d57185bacd17790c77fbf8b22f2fb898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:30 +0000
Subject: [PATCH 028/109] fix: PSDInterpolated starting at zero diameter had no
 d_minimum

---
 fluids/particle_size_distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index fd8fe5c..ffcbbbb 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2322,6 +2322,8 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
             if len(ds) != len(fractions):
                 fractions = [0.0] + fractions
             self.d_minimum = 0.0
+        else:
+            self.d_minimum = 0.0
 
         self.ds = ds
         self.fractions = fractions
-- 
2.43.0


From 1fcf16254237fd6d128de741c172f39372fc7880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 029/109] fix: PSDCustom integrals stopped at an absolute error
 larger than the integral

---
 fluids/particle_size_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index ffcbbbb..8c03295 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2298,7 +2298,7 @@ class PSDCustom(ParticleSizeDistributionContinuous):
 
         # points = logspace(log10(max(d_max*1e-3, d_min)), log10(d_max*.999), 40)
         points = [d_max*1e-3] # d_min*.999 d_min
-        return float(quad(to_int, d_min, d_max, points=points, epsrel=1e-11)[0])
+        return float(quad(to_int, d_min, d_max, points=points, epsabs=0.0, epsrel=1e-11)[0])
 
 
 class PSDInterpolated(ParticleSizeDistributionContinuous):
-- 
2.43.0


From 3771ee4bea8f2557b17dbd7978042d0df3506c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:54 +0000
Subject: [PATCH 030/109] fix: changing to a lower order divided by zero for
 the GGS distribution

---
 fluids/particle_size_distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 8c03295..085112a 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -915,6 +915,9 @@ def pdf_Gates_Gaudin_Schuhman_basis_integral(d: float, d_characteristic: float,
     if d > d_characteristic:
         # No particles are larger than the characteristic diameter
         d = d_characteristic
+    elif d == 0.0 and m + n > 0.0:
+        # d**n alone can be singular, the integral is not
+        return 0.0
     return m/(m+n)*d**n*(d/d_characteristic)**m
 
 
-- 
2.43.0


From 493abbf2df900c7f884e58110eed598a2ca7bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 031/109] fix: the Rosin-Rammler basis integral underflowed to
 zero near zero diameter

---
 fluids/particle_size_distribution.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 085112a..9675c41 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -1049,15 +1049,10 @@ def pdf_Rosin_Rammler_basis_integral(d: float, k: float, m: float, n: float) ->
     '-0.000452399'
     """
     # Also not able to compute the limit for d approaching 0.
-    try:
-        a = (m + n)/m
-        x = d**m*k
-        t1 = float(gamma(a))*float(gammaincc(a, x))
-        return (-d**(m+n)*k*(d**m*k)**(-a))*t1
-    except (OverflowError, ZeroDivisionError) as e:
-        if d == 1E-40:
-            raise e
-        return pdf_Rosin_Rammler_basis_integral(1E-40, k, m, n)
+    # The powers of `d` in front of the gamma function cancel out
+    a = (m + n)/m
+    x = d**m*k
+    return -k**(-n/m)*float(gamma(a))*float(gammaincc(a, x))
 
 
 names = {0: "Number distribution", 1: "Length distribution",
-- 
2.43.0


From ccbec510b239542bc8f77a9042668d10cdf59398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:31 +0000
Subject: [PATCH 032/109] fix: cumulative particle size data given per point
 lost the fraction of the first point

---
 fluids/particle_size_distribution.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 9675c41..8f9a836 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -1856,11 +1856,7 @@ class ParticleSizeDistribution(ParticleSizeDistributionContinuous):
 
         if cdf:
             # Convert a cdf to fraction set
-            if len(fractions)+1 == len(ds):
-                fractions = [fractions[0]] + diff(fractions)
-            else:
-                fractions_diff = diff(fractions)
-                fractions = [0.0] + fractions_diff
+            fractions = [fractions[0]] + diff(fractions)
         elif sum(fractions) != 1.0:
             # Normalize flow inputs
             tot_inv = 1.0/sum(fractions)
-- 
2.43.0


From 7912d13b745a6db287bca6b88d914c5ce6134bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:01 +0000
Subject: [PATCH 033/109] fix: PSDInterpolated extrapolated its splines outside
 of the data, giving particles below the smallest size

---
 fluids/particle_size_distribution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 8f9a836..ace3c3a 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2335,12 +2335,17 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
 
 
     def _pdf(self, d: float) -> float:
+        if d < self.ds[0] or d > self.d_excessive:
+            # No particles outside of the data; do not extrapolate the spline
+            return 0.0
         return max(0.0, float(self.pdf_spline(d)))
 
     def _cdf(self, d: float) -> float:
         if d > self.d_excessive:
             # Handle spline values past 1 that decrease to zero
             return 1.0
+        if d < self.ds[0]:
+            return 0.0
         return max(0.0, float(self.cdf_spline(d)))
 
     def _pdf_basis_integral(self, d: float, n: float) -> float:
-- 
2.43.0


From 10c1d0840e72986005a1343e818d4354a5a07034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 034/109] fix: nearest_pipe passed over an exactly matching
 standard diameter because of rounding

---
 fluids/piping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/piping.py b/fluids/piping.py
index 10a27f5..b85aabe 100644
--- a/fluids/piping.py
+++ b/fluids/piping.py
@@ -728,9 +728,9 @@ def nearest_pipe(Do: float | None=None, Di: float | None=None, NPS: int | None=N
        Line Pipe." ASTM International. https://doi.org/10.1520/F2619_F2619M-20.
     """
     if Di is not None:
-        Di *= 1E3
+        Di = round(Di*1E3, 9) # an exact standard diameter is not to be passed over for rounding
     if Do is not None:
-        Do *= 1E3
+        Do = round(Do*1E3, 9)
 
     # If accidentally given an numerical schedule, convert it to a string
     if isinstance(schedule, (int, float)):
-- 
2.43.0


From 67d14bd6a09f957fdfdf703275e0e4442163bdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 035/109] fix: Almedeij drag correlation overflowed at low
 Reynolds numbers

---
 fluids/drag.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluids/drag.py b/fluids/drag.py
index 5d4ec18..1238f96 100644
--- a/fluids/drag.py
+++ b/fluids/drag.py
@@ -1035,7 +1035,9 @@ def Almedeij(Re: float) -> float:
        Evolutionary Approach." Powder Technology 257 (May 2014): 11-19.
        doi:10.1016/j.powtec.2014.02.045.
     """
-    phi4 = ((6E-17*Re**2.63)**-10 + 0.2**-10)**-1
+    # Same as ((6E-17*Re**2.63)**-10 + 0.2**-10)**-1 without overflow at low Re
+    phi4 = (6E-17*Re**2.63)**10
+    phi4 = phi4/(1.0 + phi4*0.2**-10)
     phi3 = (1.57E8*Re**-1.625)**10
     phi2 = ((0.148*Re**0.11)**-10 + 0.5**-10)**-1
     phi1 = (24*Re**-1)**10 + (21*Re**-0.67)**10 + (4*Re**-0.33)**10 + 0.4**10
-- 
2.43.0


From 9ff4b0c114867d93d5d992ec907916198629e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 036/109] fix: v_terminal could fail with a math domain error
 where a solution exists

---
 fluids/drag.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluids/drag.py b/fluids/drag.py
index 1238f96..2b0be87 100644
--- a/fluids/drag.py
+++ b/fluids/drag.py
@@ -1372,8 +1372,9 @@ def v_terminal(D: float, rhop: float, rho: float, mu: float, Method: str | None=
     V_max = 1E6/rho/D*mu  # where the correlation breaks down, Re=1E6
 
     # Begin the solver with 1/100 th the velocity possible at the maximum
-    # Reynolds number the correlation is good for
-    return secant(_v_terminal_err, V_max*1e-2, xtol=1E-12, args=(Method, Re_almost, main))
+    # Reynolds number the correlation is good for; keep the steps positive
+    return secant(_v_terminal_err, V_max*1e-2, xtol=1E-12, args=(Method, Re_almost, main),
+                  low=1e-9*V_max, high=V_max, bisection=True)
 
 
 def time_v_terminal_Stokes(D: float, rhop: float, rho: float, mu: float, V0: float, tol: float=1e-14) -> float:
-- 
2.43.0


From c10e83a9d03295a33254cdb73b02f8eac8a5fb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 037/109] fix: Stichlmair_flood started from a pressure drop
 not scaled by the packing height, and could fail

---
 fluids/packed_tower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/packed_tower.py b/fluids/packed_tower.py
index e4b57d2..e9b4a3a 100644
--- a/fluids/packed_tower.py
+++ b/fluids/packed_tower.py
@@ -749,7 +749,7 @@ def Stichlmair_flood(Vl: float, rhog: float, rhol: float, mug: float, voidage: f
     """
     guess = [0.0]*2
     guess[0] = Vl*100.0
-    guess[1] = 1000.0
+    guess[1] = 1000.0*H
     return newton_system(_Stichlmair_flood_f_and_jac, x0=guess, jac=True,
                          args=(Vl, rhog, rhol, mug, voidage, specific_area, C1,
                          C2, C3, H), ytol=1e-11, solve_func=solve_2_direct)[0][0]
-- 
2.43.0


From f76a15410cc77bc50dfb936ad4ec01f1cacf998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 038/109] fix: irradiation on a surface facing the sun could
 fail with a math domain error

---
 fluids/optional/irradiance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/optional/irradiance.py b/fluids/optional/irradiance.py
index 89bedb1..864420d 100644
--- a/fluids/optional/irradiance.py
+++ b/fluids/optional/irradiance.py
@@ -60,7 +60,8 @@ def aoi_projection(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth):
 def aoi(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth):
     projection = aoi_projection(surface_tilt, surface_azimuth,
                                 solar_zenith, solar_azimuth)
-    aoi_value = degrees(acos(projection))
+    # rounding can carry the projection beyond +-1 when the surface faces the sun
+    aoi_value = degrees(acos(min(max(projection, -1.0), 1.0)))
     return aoi_value
 
 def poa_components(aoi, dni, poa_sky_diffuse, poa_ground_diffuse):
-- 
2.43.0


From db830cd68429f382f17f4d99bf705f8229b87bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:59 +0000
Subject: [PATCH 039/109] fix: sunrise_sunset failed for time zones other than
 those of pytz

---
 fluids/atmosphere.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/atmosphere.py b/fluids/atmosphere.py
index dc8e3f7..75166f9 100644
--- a/fluids/atmosphere.py
+++ b/fluids/atmosphere.py
@@ -874,9 +874,9 @@ def sunrise_sunset(moment: datetime.datetime, latitude: float, longitude: float)
     sunset = datetime.datetime.fromtimestamp(sunset, datetime.timezone.utc).replace(tzinfo=None)
 
     if moment.tzinfo is not None:
-        sunrise = moment.tzinfo.fromutc(sunrise)
-        sunset = moment.tzinfo.fromutc(sunset)
-        transit = moment.tzinfo.fromutc(transit)
+        sunrise = moment.tzinfo.fromutc(sunrise.replace(tzinfo=moment.tzinfo))
+        sunset = moment.tzinfo.fromutc(sunset.replace(tzinfo=moment.tzinfo))
+        transit = moment.tzinfo.fromutc(transit.replace(tzinfo=moment.tzinfo))
     return sunrise, sunset, transit
 
 
-- 
2.43.0


From d18980b2a0a198135a3a78a9eddb6abd2184e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 040/109] fix: earthsun_distance took the difference between
 clock and dynamical time from the local date

---
 fluids/atmosphere.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluids/atmosphere.py b/fluids/atmosphere.py
index 75166f9..2853476 100644
--- a/fluids/atmosphere.py
+++ b/fluids/atmosphere.py
@@ -648,9 +648,10 @@ def earthsun_distance(moment: datetime.datetime) -> float:
        577-89. https://doi.org/10.1016/j.solener.2003.12.003.
     """
     from fluids.optional import spa
-    delta_t = spa.calculate_deltat(moment.year, moment.month)
     import calendar
-    unixtime = calendar.timegm(moment.utctimetuple())
+    tt = moment.utctimetuple()
+    delta_t = spa.calculate_deltat(tt.tm_year, tt.tm_mon)
+    unixtime = calendar.timegm(tt)
     # Convert datetime object to unixtime
     return spa.earthsun_distance(unixtime, delta_t=delta_t)*au
 
-- 
2.43.0


From cbf41877159c6c82ad200e6c536ee354cc95eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 041/109] fix: StationDataGSOD monthly averages failed with the
 default (unspecified) years

---
 fluids/design_climate.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 5d7c014..020e81d 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -450,6 +450,14 @@ class StationDataGSOD:
                     doy = parsed.DATE.timetuple().tm_yday-1
                     days[doy] = parsed
 
+    def _year_limits(self, older_year, newer_year):
+        # The limits are inclusive; a limit not specified does not restrict
+        if older_year is None:
+            older_year = self.begin.year
+        if newer_year is None:
+            newer_year = self.end.year
+        return older_year, newer_year
+
     def coldest_month(self, older_year=None, newer_year=None, minimum_days=23):
         # Tested
         month_data = self.month_average_temperature(older_year=older_year,
@@ -476,6 +484,7 @@ class StationDataGSOD:
         year_month_averages = {}
         year_month_counts = {}
 
+        older_year, newer_year = self._year_limits(older_year, newer_year)
         for year, data in self.parsed_data.items():
             if not (older_year <= year <= newer_year):
                 continue # Ignore out-of-range years easily
@@ -540,6 +549,7 @@ class StationDataGSOD:
         year_month_averages = {}
         year_month_counts = {}
 
+        older_year, newer_year = self._year_limits(older_year, newer_year)
         for year, data in self.parsed_data.items():
             if not (older_year <= year <= newer_year):
                 continue # Ignore out-of-range years easily
-- 
2.43.0


From 6769f1cbf1057c51e02a866355cf90824255245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 042/109] fix: weather stations on the equator or the prime
 meridian were dropped

---
 fluids/design_climate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 020e81d..31f8704 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -657,8 +657,9 @@ def _load_station_data():
                         except:
                             continue
                 lat, lon = values[6], values[7]
-                # Some stations have no lat-long; this isn't useful
-                if lat and lon:
+                # Some stations have no lat-long, or have zeros as a placeholder
+                # for both; this isn't useful
+                if lat is not None and lon is not None and (lat or lon):
                     _stations.append(IntegratedSurfaceDatabaseStation(*values))
                     temp_latlongs.append((lat, lon))
 
-- 
2.43.0


From a2d1bd21dc0898174a23bf588c29ef46dab4a237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:49 +0000
Subject: [PATCH 043/109] fix: get_closest_station failed with match_max=1

---
 fluids/design_climate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 31f8704..e748e1b 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -739,7 +739,7 @@ def get_closest_station(latitude, longitude, minumum_recent_data=20140000,
     # bad data is returned if k > station_count
     station_count = get_station_count()
     stations = get_stations()
-    distances, indexes = get_kd_tree().query([latitude, longitude], k=min(match_max, station_count))
+    distances, indexes = get_kd_tree().query([latitude, longitude], k=range(1, min(match_max, station_count) + 1))
     for i in indexes:
         latlon = _latlongs[i]
         enddate = stations[i].END
-- 
2.43.0


From 43512aa595827ab00ec2c52cf07bb120ef8482f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 044/109] fix: gsod_day_parser took a pressure of 999.9 mbar as
 missing

---
 fluids/design_climate.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index e748e1b..46194a0 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -880,8 +880,12 @@ gsod_int_fields = ("TEMP_COUNT", "DEWP_COUNT", "SLP_COUNT", "STP_COUNT",
 
 # Values which signify flags
 gsod_flag_chars = "*ABCDEFGHI"
-# Values which should be converted to None, as normally there is no value
-gsod_bad_values = frozenset(["99.99", "999.9", "9999.9"])
+# Values which should be converted to None, as normally there is no value;
+# they depend on the field, as i.e. 999.9 is a valid pressure in millibars
+gsod_missing_values = {"TEMP": "9999.9", "DEWP": "9999.9", "SLP": "9999.9",
+                       "STP": "9999.9", "VISIB": "999.9", "WDSP": "999.9",
+                       "MXSPD": "999.9", "GUST": "999.9", "MAX": "9999.9",
+                       "MIN": "9999.9", "PRCP": "99.99", "SNDP": "999.9"}
 
 gsod_indicator_names = ["fog", "rain", "snow_ice", "hail", "thunder",
                         "tornado"]
@@ -943,7 +947,7 @@ def gsod_day_parser(line, SI=True, to_datetime=True):
     # Parse float values as floats
     for field in gsod_float_fields:
         value = obj[field].rstrip(gsod_flag_chars)
-        if value in gsod_bad_values:
+        if value == gsod_missing_values[field]:
             value = None
         else:
             value = float(value)
-- 
2.43.0


From c555d3d66bcc54505cc2bcdb34f43812eedaae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 045/109] fix: best_bounding_bounds compared the wrong value
 for the negative history

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 58f5f24..4fe0525 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2631,7 +2631,7 @@ def best_bounding_bounds(low, high, f=None, xs_pos=None, ys_pos=None,
             if y_min_neg > fa:
                 fa, low = y_min_neg, x_min_neg
         else:
-            if y_min_pos > fb:
+            if y_min_neg > fb:
                 fb, high = y_min_neg, x_min_neg
 
     if fa*fb > 0:
-- 
2.43.0


From 43b9e7046f2338103419699f41f0518ce5cef56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:55 +0000
Subject: [PATCH 046/109] fix: halley returned a point without slope as a root

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 4fe0525..79eb527 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3368,7 +3368,7 @@ def halley(func, x0, args=(), maxiter=100,
         if fval == 0.0:
             return p0 # Cannot continue or already finished
         elif fder == 0.0:
-            if ytol is None or abs(fval) < ytol:
+            if ytol is not None and abs(fval) < ytol:
                 return p0
             else:
                 raise UnconvergedError(f"Derivative became zero; maxiter ({maxiter}) reached, value={p0:f} ")
-- 
2.43.0


From f0a3e25a84a064ab54745a9c3cdc5418e6828e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:57 +0000
Subject: [PATCH 047/109] fix: ridder could not converge to large negative
 roots

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 79eb527..d534494 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2707,7 +2707,7 @@ def ridder(f, a, b, args=(), xtol=_xtol, rtol=_rtol, maxiter=_iter,
         else:
             a = xn
             fa = fn
-        tol = xtol + rtol*xn
+        tol = xtol + rtol*fabs(xn)
         if (fn == 0.0 or fabs(b - a) < tol):
             return xn
     raise UnconvergedError(f"Failed to converge after {maxiter} iterations") # numba: delete
-- 
2.43.0


From b6f2ec4f008c63ca0d9c973ce166bd165038821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 048/109] fix: halley ignored kwargs and failed at a limit
 without ytol

---
 fluids/numerics/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index d534494..03e6dae 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3364,7 +3364,8 @@ def halley(func, x0, args=(), maxiter=100,
     hit_low, hit_high = 0, 0
 
     for it in range(maxiter):
-        fval, fder, fder2 = func(p0, *args)
+        fval, fder, fder2 = func(p0, *args, **kwargs) # numba: delete
+#        fval, fder, fder2 = func(p0, *args) # numba: uncomment
         if fval == 0.0:
             return p0 # Cannot continue or already finished
         elif fder == 0.0:
@@ -3403,7 +3404,7 @@ def halley(func, x0, args=(), maxiter=100,
         if low is not None and p < low:
             hit_low += 1
             if p0 == low and hit_low > max_bound_hits:
-                if abs(fval) < ytol:
+                if ytol is not None and abs(fval) < ytol:
                     return low
                 else:
                     raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={p:f} ")
@@ -3412,7 +3413,7 @@ def halley(func, x0, args=(), maxiter=100,
         if high is not None and p > high:
             hit_high += 1
             if p0 == high and hit_high > max_bound_hits:
-                if abs(fval) < ytol:
+                if ytol is not None and abs(fval) < ytol:
                     return high
                 else:
                     raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={p:f} ")
-- 
2.43.0


From 41ab307d742a07abf97ba04d854c1d16d9e8358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 049/109] fix: secant could evaluate additional guesses outside
 of its limits

---
 fluids/numerics/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 03e6dae..67facc2 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2945,12 +2945,13 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
                 if additional_guesses and not did_additional_guesses:
                     # print('Converged to points with a slope of zero, attempting to bisect the problem...')
                     for guess_factor in secant_bisection_factors:
-                        p = x0*guess_factor*additional_guess_scale
-                        if (low is not None and p < low) or (high is not None and p > high):
+                        guess = x0*guess_factor*additional_guess_scale
+                        if (low is not None and guess < low) or (high is not None and guess > high):
                             continue
+                        p = guess
                         temp_q = func(p, *args, **kwargs)
                         # print(f'Did not bisect the problem at x={p}')
-                        if not (isnan(q1) or isinf(q1)) and temp_q*q0 < 0.0:
+                        if not (isnan(temp_q) or isinf(temp_q)) and temp_q*q0 < 0.0:
                             # print('Bisected the problem, restarting with new point')
                             break
 
-- 
2.43.0


From fd849325c7af598477a584637850ea94099636e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 050/109] fix: newton_system ignored with_point when the guess
 is the solution

---
 fluids/numerics/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 67facc2..8b702b9 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3594,6 +3594,10 @@ def newton_system(f, x0, jac, xtol=None, ytol=None, maxiter=100, damping=1.0,
         err0 += abs(v)
 
     if xtol is None and (ytol is not None and err0 < ytol):
+        if with_point: # numba: delete
+            if not jac_also: # numba: delete
+                j = jac(x0, *args) # numba: delete
+            return x0, 0, fcur, j # numba: delete
         return x0, 0
 
 
-- 
2.43.0


From ceff87cfb0a9bc7bccfc930f52c57ee21447e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 051/109] fix: broyden2 returned its last point when it did not
 converge

---
 fluids/numerics/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 8b702b9..d037c70 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3914,6 +3914,8 @@ def broyden2(xs, fun, jac, xtol=1e-7, maxiter=100, jac_has_fun=False,
         for fi in fcur:
             err += abs(fi)
 
+    if not err <= xtol:
+        raise UnconvergedError("Failed to converge")
     return xs, iter
 
 def fixed_point(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
-- 
2.43.0


From 3f0f1f00fff962e86f5ba4ee11476e502979656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 052/109] fix: nelder_mead could return points outside of its
 bounds

---
 fluids/numerics/__init__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index d037c70..0f838f5 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5454,7 +5454,7 @@ else:
     quad = lazy_quad
 
 def bounds_clip_naive(x, low, high):
-    N = len(low)
+    N = len(x)
     if low is not None:
         for i in range(N):
             if x[i] < low[i]:
@@ -5517,6 +5517,17 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
         sim = [x.copy() for x in initial_simplex] # numba: delete
 #        sim = np.asfarray(initial_simplex) # numba: uncomment
 
+    if has_bounds:
+        # Reflect the points outside of the bounds into them
+        for k in range(N+1):
+            simk = sim[k]
+            for i in range(N):
+                if low is not None and simk[i] < low[i]:
+                    simk[i] = 2.0*low[i] - simk[i]
+                if high is not None and simk[i] > high[i]:
+                    simk[i] = 2.0*high[i] - simk[i]
+            sim[k] = bounds_clip_naive(simk, low, high)
+
     # Make a new list to store the points. Can initialize it to anything, irrelevant
     fsim = [x0 for _ in range(N+1)] # numba: delete
 #    fsim = np.zeros((N+1, ), dtype=float) # numba: uncomment
-- 
2.43.0


From eb06615f89a859bdb0c56b4c3a6de4ffffd3a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 053/109] fix: nelder_mead ignored args

---
 fluids/numerics/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 0f838f5..56fea7f 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5533,7 +5533,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
 #    fsim = np.zeros((N+1, ), dtype=float) # numba: uncomment
 
     for k in range(N + 1):
-        fsim[k] = func(sim[k])
+        fsim[k] = func(sim[k], *args)
 
 #     print(sim, fsim)
     sim, fsim = sort_fun(sim, fsim)
@@ -5579,13 +5579,13 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
         if has_bounds:
             xr = bounds_clip_naive(xr, low, high)
 
-        fxr = func(xr)
+        fxr = func(xr, *args)
         if fxr < fsim[0]:
 #            xe = rhochip1*xbar - rhochi*sim_last # numba: uncomment
             xe = [rhochip1*xbar[i] - rhochi*sim_last[i] for i in range(N)] # numba: delete
             if has_bounds:
                 xe = bounds_clip_naive(xe, low, high)
-            fxe = func(xe)
+            fxe = func(xe, *args)
             if fxe < fxr:
                 sim[-1] = xe
                 fsim[-1] = fxe
@@ -5602,7 +5602,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
                     xc = [rhopsip1*xbar[i] - rhopsi*sim_last[i] for i in range(N)] # numba: delete
                     if has_bounds:
                         xc = bounds_clip_naive(xc, low, high)
-                    fxc = func(xc)
+                    fxc = func(xc, *args)
 
                     sim[-1] = xc
                     fsim[-1] = fxc
@@ -5612,7 +5612,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
                     xcc = [onempsi*xbar[i] + psi*sim_last[i] for i in range(N)] # numba: delete
                     if has_bounds:
                         xcc = bounds_clip_naive(xcc, low, high)
-                    fxcc = func(xcc)
+                    fxcc = func(xcc, *args)
                     sim[-1] = xcc
                     fsim[-1] = fxcc
 
-- 
2.43.0


From ad7f25c3fad9618817693380a6afa9bdb92d5cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 054/109] fix: fixed_point_anderson returned unconverged points
 and used a stale residual

---
 fluids/numerics/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 56fea7f..50facf8 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -4704,13 +4704,14 @@ def fixed_point_anderson(
         window_size = len(fcur)
 
     # Check initial convergence for ytol
-    err0 = sum(abs(v) for v in fcur) if ytol is not None else 0.0
+    err0 = sum(abs(v - xi) for v, xi in zip(fcur, x)) if ytol is not None else 0.0
     if ytol is not None and xtol is None and err0 < ytol:
         return x0, 0
 
     # Main iteration loop
     for iteration in range(maxiter):
         x_new = f(x, *args)
+        fcur = [v - xi for v, xi in zip(x_new, x)]
 
         # Check for inf/nan
         if check_numbers and any(isnan(v) or isinf(v) for v in x_new):
@@ -4789,7 +4790,6 @@ def fixed_point_anderson(
         x = x_acc
 
     # Check final convergence
-    x_err = max(abs((a - b) / abs(b)) for a, b in zip(x_acc, x))
     if xtol is not None and x_err > xtol:
         raise ValueError(f"Failed to converge after {maxiter} iterations. Error: {x_err}")
     if ytol is not None and err1 > ytol:
-- 
2.43.0


From 5dae7322011e469db14037d9fea69993d59b4193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:11 +0000
Subject: [PATCH 055/109] fix: SolverInterface returned the last point of SciPy
 solvers which did not converge

---
 fluids/numerics/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 50facf8..5759351 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -6076,6 +6076,8 @@ class SolverInterface:
             jacobian_method = self.jacobian_method
             jac = self.jacobian if jacobian_method != "scipy" else None
             result = root(self.objf, x0, args=args, method=method, jac=jac, tol=self.xtol)
+            if not result.success:
+                raise UnconvergedError(f"Failed to converge: {result.message}")
         elif method in scipy_minimize_options_set:
             process_root = True
             jacobian_method = self.jacobian_method
-- 
2.43.0


From c47a52d5556ba449020b6b0540158943a58c7ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 056/109] fix: chebval failed for the derivative of a constant
 Chebyshev series

---
 fluids/numerics/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 5759351..f37d42c 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -1756,6 +1756,9 @@ def chebval(x, c, offset=0.0, scale=1.0):
     # Approxximately 2 adds and a multiply per coefficient
     x = offset + scale*x
     len_c = len(c)
+    if len_c == 0:
+        # No terms, as in the derivative of a constant from chebder
+        return 0.0
     if len_c == 1:
         return c[0]
     if len_c == 2:
-- 
2.43.0


From 85a49240a0df7438ed7dd827c6afc8d4a37cf8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 057/109] fix: roots_quadratic lost the smaller root to
 cancellation

---
 fluids/numerics/polynomial_roots.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fluids/numerics/polynomial_roots.py b/fluids/numerics/polynomial_roots.py
index 737d972..52dc239 100644
--- a/fluids/numerics/polynomial_roots.py
+++ b/fluids/numerics/polynomial_roots.py
@@ -53,9 +53,17 @@ def roots_quadratic(a, b, c):
         x1 = (-b + D*1.0j)*a_inv_2
         x2 = (-b - D*1.0j)*a_inv_2
     else:
+        # Obtain the root subject to cancellation from the other one
         D = sqrt(D)
-        x1 = (D - b)*a_inv_2
-        x2 = -(b + D)*a_inv_2
+        if b > 0.0:
+            x2 = -(b + D)*a_inv_2
+            x1 = -2.0*c/(b + D)
+        elif b < 0.0:
+            x1 = (D - b)*a_inv_2
+            x2 = 2.0*c/(D - b)
+        else:
+            x1 = D*a_inv_2
+            x2 = -x1
     return (x1, x2)
 
 def roots_quartic(a, b, c, d, e):
-- 
2.43.0


From 3d54ad4dc4d1dde2ed725cf2dda8f379aaa34606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 058/109] fix: roots_cubic lost half of its precision to
 cancellation for small quadratic and linear terms

---
 fluids/numerics/polynomial_roots.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/fluids/numerics/polynomial_roots.py b/fluids/numerics/polynomial_roots.py
index 52dc239..a07280b 100644
--- a/fluids/numerics/polynomial_roots.py
+++ b/fluids/numerics/polynomial_roots.py
@@ -259,18 +259,14 @@ def roots_cubic(a, b, c, d):
 #        print('basic')
         # 1 real root, 2 imag
         root_h = sqrt(h)
-        R = -0.5*g + root_h
 
-        # It is possible to save one of the power of thirds!
-        if R >= 0.0:
-            S = R**third
+        # S*U = -f/3; take the cube root of the term not subject to cancellation
+        if g > 0.0:
+            U = -((0.5*g + root_h)**third)
+            S = -f*third/U
         else:
-            S = -((-R)**third)
-        T = -(0.5*g) - root_h
-        if T >= 0.0:
-            U = (T**(third))
-        else:
-            U = -((-T)**(third))
+            S = (root_h - 0.5*g)**third
+            U = -f*third/S
 
         SU = S + U
         b_3a = b*(third*a_inv)
-- 
2.43.0


From 10b40383f4056e4dcbbd4f3885b7a63c7f71e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 059/109] fix: roots_quartic failed where the resolvent cubic
 is degenerate

---
 fluids/numerics/polynomial_roots.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/fluids/numerics/polynomial_roots.py b/fluids/numerics/polynomial_roots.py
index a07280b..7e8ee79 100644
--- a/fluids/numerics/polynomial_roots.py
+++ b/fluids/numerics/polynomial_roots.py
@@ -67,7 +67,7 @@ def roots_quadratic(a, b, c):
     return (x1, x2)
 
 def roots_quartic(a, b, c, d, e):
-    # There is no divide by zero check. A should be 1 for best numerical results
+    # There is no check for a zero leading coefficient. A should be 1 for best numerical results
     # Multiple order of magnitude differences still can cause problems
     # Like  [1, 0.0016525874561771799, 106.8665062954208, 0.0032802613917246727, 0.16036091315844248]
     x0 = 1.0/a
@@ -81,23 +81,34 @@ def roots_quartic(a, b, c, d, e):
     x7 = x6_2*x6
     x8 = d*x0
     x9 = x1*(-0.5*x3 + 0.125*x4)
+    if x8 + x9 == 0.0:
+        # The depressed quartic is a quadratic in the square of the variable
+        x12 = x1*(x1*(-0.0625*x3 + 0.01171875*x4) + 0.25*x8)
+        x13 = csqrt(x6_2 - 4.0*(e*x0 - x12))
+        x14 = csqrt(0.5*(-x6 - x13))
+        x15 = csqrt(0.5*(-x6 + x13))
+        return ((x2 - x14), (x2 + x14), (x2 - x15), (x2 + x15))
     x10 = (x8 + x9)*(x8 + x9)
     x11 = e*x0
     x12 = x1*(x1*(-0.0625*x3 + 0.01171875*x4) + 0.25*x8) # 0.01171875 = 3/256
     x13 = x6*(x11 - x12)
     x14 = -.125*x10 + x13*third - x7/108.0
-    x15 = 2.0*(x14 + 0.0j)**(third)
-    x16 = csqrt(-x15 + x5)
-    x17 = 0.5*x16
-    x18 = -x17 + x2
     x19 = -four_thirds*x3
     x20 = 0.5*x4
-    x21 = x15 + x19 + x20
     x22 = 2.0*x8 + 2.0*x9
-    x23 = x22/x16
-    x24 = csqrt(x21 + x23)*0.5
     x25 = -x11 + x12 - twelfth*x6_2
     x27 = (0.0625*x10 - x13*sixth + x7/216.0 + csqrt(0.25*x14*x14 + one_27*x25*x25*x25))**(third)
+    if x25 == 0.0 or x27 == 0.0:
+        x15 = 2.0*(x14 + 0.0j)**(third)
+        x16 = csqrt(-x15 + x5)
+        x17 = 0.5*x16
+        x18 = -x17 + x2
+        x21 = x15 + x19 + x20
+        x23 = x22/x16
+        x24 = csqrt(x21 + x23)*0.5
+        x36 = x17 + x2
+        x37 = csqrt(x21 - x23)*0.5
+        return ((x18 - x24), (x18 + x24), (x36 - x37), (x36 + x37))
     x28 = 2.0*x27
     x29 = two_thirds*x25/(x27)
     x30 = csqrt(x28 - x29 + x5)
@@ -106,8 +117,6 @@ def roots_quartic(a, b, c, d, e):
     x33 = x19 + x20 - x28 + x29
     x34 = x22/x30
     x35 = csqrt(x33 + x34)*0.5
-    x36 = x17 + x2
-    x37 = csqrt(x21 - x23)*0.5
     x38 = x2 + x31
     x39 = csqrt(x33 - x34)*0.5
     return ((x32 - x35), (x32 + x35), (x38 - x39), (x38 + x39))
-- 
2.43.0


From 6e20615dfb381c8b84330fbfdba1588844c66d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 060/109] fix: det of a one by one matrix returned its row

---
 fluids/numerics/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/arrays.py b/fluids/numerics/arrays.py
index 9c8a329..329e8cb 100644
--- a/fluids/numerics/arrays.py
+++ b/fluids/numerics/arrays.py
@@ -152,7 +152,7 @@ def det(matrix):
     """
     size = len(matrix)
     if size == 1:
-        return matrix[0]
+        return matrix[0][0]
     elif size == 2:
         (a, b), (c, d) = matrix
         return a*d - c*b
-- 
2.43.0


From d630a82c8211a522a0da636314ae67bcd9fc0084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:59 +0000
Subject: [PATCH 061/109] fix: subset_matrix failed for slices with omitted
 limits

---
 fluids/numerics/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/arrays.py b/fluids/numerics/arrays.py
index 329e8cb..ca3993f 100644
--- a/fluids/numerics/arrays.py
+++ b/fluids/numerics/arrays.py
@@ -1419,7 +1419,7 @@ def solve_tridiagonal(a, b, c, d):
     return b
 def subset_matrix(whole, subset):
     if type(subset) is slice:
-        subset = range(subset.start, subset.stop, subset.step)
+        subset = range(*subset.indices(len(whole)))
 #    N = len(subset)
 #    new = [[None]*N for i in range(N)]
 #    for ni, i in enumerate(subset):
-- 
2.43.0


From 5ce8dd2cb48b80eb9d373e049952c5d77e4f421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 062/109] fix: pow_dd failed for an integer power given as a
 float

---
 fluids/numerics/doubledouble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/doubledouble.py b/fluids/numerics/doubledouble.py
index 666a104..ea0b900 100644
--- a/fluids/numerics/doubledouble.py
+++ b/fluids/numerics/doubledouble.py
@@ -223,7 +223,7 @@ def log_dd(r, e):
 def pow_dd(r, e, nr, ne):
     """Compute the power"""
     if ne == 0.0 and (nr %1) == 0:
-        return intpow_dd(r, e, nr)
+        return intpow_dd(r, e, int(nr))
     tmpr, tmpe = log_dd(r, e)
     tmpr, tmpe = mul_dd(tmpr, tmpe, nr, ne)
     return exp_dd(tmpr, tmpe)
-- 
2.43.0


From 065a8e46444ed5a41a3691ee7c49c784f29bf85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:45 +0000
Subject: [PATCH 063/109] fix: sqrt_imag_dd returned the root of the conjugate
 for negative imaginary parts and lost precision to cancellation

---
 fluids/numerics/doubledouble.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/fluids/numerics/doubledouble.py b/fluids/numerics/doubledouble.py
index ea0b900..18bfb85 100644
--- a/fluids/numerics/doubledouble.py
+++ b/fluids/numerics/doubledouble.py
@@ -257,21 +257,24 @@ def sqrt_imag_dd(xrr, xre, xcr, xce):
             return zrr, zre, 0.0, 0.0
         zrr, zre = sqrt_dd(-xrr, -xre)
         return 0.0, 0.0, zrr, zre
-    # 2 square, 3 add, 3 sqrt
+    # 2 square, 2 add, 2 sqrt, 1 div
     xrr2, xre2 = square_dd(xrr, xre)
     xcr2, xce2 = square_dd(xcr, xce)
     wr, we = add_dd(xrr2, xre2, xcr2, xce2)
     wr, we = sqrt_dd(wr, we)
 
-    zrr, zre = add_dd(wr, we, xrr, xre)
-    zrr *= 0.5
-    zre *= 0.5 # checks out
-    zrr, zre = sqrt_dd(zrr, zre) # real part of answer
-
-    zcr, zce = add_dd(wr, we, -xrr, -xre)
-    zcr *= 0.5
-    zce *= 0.5 # checks out
-    zcr, zce = sqrt_dd(zcr, zce) # real part of answer
+    # Take the larger part from the sum which has no cancellation; the other
+    # part follows from 2*real*imag = xc, which also gives it the right sign
+    if xrr >= 0.0:
+        zrr, zre = add_dd(wr, we, xrr, xre)
+        zrr, zre = sqrt_dd(0.5*zrr, 0.5*zre) # real part of answer
+        zcr, zce = div_dd(0.5*xcr, 0.5*xce, zrr, zre)
+    else:
+        zcr, zce = add_dd(wr, we, -xrr, -xre)
+        zcr, zce = sqrt_dd(0.5*zcr, 0.5*zce) # imaginary part of answer
+        if xcr < 0.0:
+            zcr, zce = -zcr, -zce
+        zrr, zre = div_dd(0.5*xcr, 0.5*xce, zcr, zce)
     return (zrr, zre, zcr, zce)
 
 def add_imag_dd(xrr, xre, xcr, xce, yrr, yre, ycr, yce):
-- 
2.43.0


From 559e04ea22deff15140671aec1586482dc890a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:46 +0000
Subject: [PATCH 064/109] fix: double-double cube roots failed for zero and
 returned complex parts for negative numbers

---
 fluids/numerics/doubledouble.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fluids/numerics/doubledouble.py b/fluids/numerics/doubledouble.py
index 18bfb85..e81831c 100644
--- a/fluids/numerics/doubledouble.py
+++ b/fluids/numerics/doubledouble.py
@@ -310,6 +310,8 @@ def div_imag_dd(xrr, xre, xcr, xce, yrr, yre, ycr, yce):
     return xrr, xre, xcr, xce
 
 def cbrt_imag_dd(xrr, xre, xcr, xce):
+    if xrr == 0.0 and xcr == 0.0:
+        return (0.0, 0.0, 0.0, 0.0)
     # start off at the double precision solution
     y_guess = (xrr + xcr*1.0j)**(-1.0/3.)
     yr, yc = y_guess.real, y_guess.imag
@@ -330,6 +332,11 @@ def cbrt_imag_dd(xrr, xre, xcr, xce):
 
 def cbrt_dd(xr, xe):
     # http://web.mit.edu/tabbott/Public/quaddouble-debian/qd-2.3.4-old/docs/qd.pdf
+    if xr == 0.0:
+        return (0.0, 0.0)
+    if xr < 0.0:
+        yr, ye = cbrt_dd(-xr, -xe)
+        return -yr, -ye
     yr = (xr**(-1.0/3.))
     ye = 0.0
 
@@ -369,6 +376,11 @@ def cube_dd(x0, y0):
 
 def cbrt_explicit_dd(xr, xe):
     # http://web.mit.edu/tabbott/Public/quaddouble-debian/qd-2.3.4-old/docs/qd.pdf
+    if xr == 0.0:
+        return (0.0, 0.0)
+    if xr < 0.0:
+        yr, ye = cbrt_explicit_dd(-xr, -xe)
+        return -yr, -ye
     yr = (xr**(-1.0/3.))
     ye = 0.0
 
-- 
2.43.0


From c52fc780bdf0f9cb1861da271457ff30c3adebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:48 +0000
Subject: [PATCH 065/109] fix: the first iteration of cbrt_dd missed the factor
 of one third, doubling the error of the initial guess

---
 fluids/numerics/doubledouble.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/numerics/doubledouble.py b/fluids/numerics/doubledouble.py
index e81831c..2287ccc 100644
--- a/fluids/numerics/doubledouble.py
+++ b/fluids/numerics/doubledouble.py
@@ -345,7 +345,7 @@ def cbrt_dd(xr, xe):
     w0r, w0e = mul_dd(w0r, w0e, xr, xe)
     w0r, w0e = add_dd(1.0, 0.0, -w0r, -w0e)
     w0r, w0e = mul_dd(w0r, w0e, yr, ye)
-    yr, ye = add_dd(yr, ye, w0r, w0e)
+    yr, ye = add_dd(yr, ye, third*w0r, third*w0e)
 
     # Do it again, most of the time probably don't need this? Turn it off on EOS?
     w0r, w0e = cube_dd(yr, ye)
@@ -407,7 +407,7 @@ def cbrt_explicit_dd(xr, xe):
     w0r, w0e = mul_dd(w0r, w0e, xr, xe)
     w0r, w0e = add_dd(1.0, 0.0, -w0r, -w0e)
     w0r, w0e = mul_dd(w0r, w0e, yr, ye)
-    yr, ye = add_dd(yr, ye, w0r, w0e)
+    yr, ye = add_dd(yr, ye, third*w0r, third*w0e)
 
     # Do it again, most of the time probably don't need this? Turn it off on EOS?
     u = yr*134217729.0
-- 
2.43.0


From 11e1193c588ad0b080468fcc2f7cb677abb7971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:19 +0000
Subject: [PATCH 066/109] fix: brenth, bisect and ridder lost the bracket where
 the product of two function values underflows

---
 fluids/numerics/__init__.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index f37d42c..d05bda1 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2646,12 +2646,13 @@ def bisect(f, a, b, args=(), xtol=1e-12, rtol=2.220446049250313e-16, maxiter=100
     """Port of SciPy's C bisect routine."""
     fa = f(a, *args)
     fb = f(b, *args)
-    if fa*fb > 0.0:
-        raise ValueError("f(a) and f(b) must have different signs")
-    elif fa == 0.0:
+    # Compare signs, not the product of the values which can underflow to zero
+    if fa == 0.0:
         return a
     elif fb == 0.0:
         return b
+    elif (fa < 0.0) == (fb < 0.0):
+        raise ValueError("f(a) and f(b) must have different signs")
 
     dm = b - a
 #    iterations = 0.0
@@ -2660,7 +2661,7 @@ def bisect(f, a, b, args=(), xtol=1e-12, rtol=2.220446049250313e-16, maxiter=100
         dm *= 0.5
         xm = a + dm
         fm = f(xm, *args)
-        if fm*fa >= 0.0:
+        if (fm < 0.0) == (fa < 0.0):
             a = xm
         abs_dm = fabs(dm)
 
@@ -2682,12 +2683,13 @@ def ridder(f, a, b, args=(), xtol=_xtol, rtol=_rtol, maxiter=_iter,
 
     fa = f(a, *args)
     fb = f(b, *args)
-    if fa*fb > 0.0:
-        raise ValueError("f(a) and f(b) must have different signs")
-    elif fa == 0.0:
+    # Compare signs, not the product of the values which can underflow to zero
+    if fa == 0.0:
         return a
     elif fb == 0.0:
         return b
+    elif (fa < 0.0) == (fb < 0.0):
+        raise ValueError("f(a) and f(b) must have different signs")
 
     for i in range(maxiter):
         dm = 0.5*(b - a)
@@ -2699,12 +2701,12 @@ def ridder(f, a, b, args=(), xtol=_xtol, rtol=_rtol, maxiter=_iter,
         xn = xm - copysign((min(dm_abs_tol, dn_abs)), dn)
         fn = f(xn, *args)
 
-        if (fn*fm < 0.0):
+        if (fn < 0.0) != (fm < 0.0):
             a = xn
             fa = fn
             b = xm
             fb = fm
-        elif (fn*fa < 0.0):
+        elif (fn < 0.0) != (fa < 0.0):
             b = xn
             fb = fn
         else:
@@ -2736,15 +2738,18 @@ def brenth(f, xa, xb, args=(),
     else:
         fcur = fb
 
-    if fpre*fcur > 0.0 or isnan(fpre) or isnan(fcur):
+    # Compare signs, not the product of the values which can underflow to zero
+    if isnan(fpre) or isnan(fcur):
         raise NotBoundedError("f(a) and f(b) must have different signs")
     elif fpre == 0.0:
         return xa
     elif fcur == 0.0:
         return xb
+    elif (fpre < 0.0) == (fcur < 0.0):
+        raise NotBoundedError("f(a) and f(b) must have different signs")
 
     for i in range(maxiter):
-        if fpre*fcur < 0.0:
+        if fcur != 0.0 and (fpre < 0.0) != (fcur < 0.0):
             xblk = xpre
             fblk = fpre
             spre = scur = xcur - xpre
@@ -2779,9 +2784,11 @@ def brenth(f, xa, xb, args=(),
                 dpre = (fpre - fcur)/(xpre - xcur)
                 dblk = (fblk - fcur)/(xblk - xcur)
                 if q:
-                    stry = -fcur*(fblk*dblk - fpre*dpre)/(dblk*dpre*(fblk - fpre))
+                    num, den = -fcur*(fblk*dblk - fpre*dpre), dblk*dpre*(fblk - fpre)
                 else:
-                    stry = -fcur*(fblk - fpre)/(fblk*dpre - fpre*dblk)
+                    num, den = -fcur*(fblk - fpre), fblk*dpre - fpre*dblk
+                # Bisect if the terms underflow
+                stry = num/den if den != 0.0 else spre
             if (abs(stry + stry) < min(abs(spre), 3.0*abs(sbis) - delta)):
                 # accept step
                 spre = scur
-- 
2.43.0


From 7df15b485d13ba3d190528d70cf5343e656d89e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:21 +0000
Subject: [PATCH 067/109] fix: py_splev exceeded the recursion limit for
 splines with a thousand knots

---
 fluids/numerics/__init__.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index d05bda1..65bbd37 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -4976,23 +4976,17 @@ def normalize(values):
 # are adjusted for fortran
 def func_35_splev(arg, t, l, l1, k2, nk1):
     # minus 1 index
-    if arg >= t[l-1] or l1 == k2:
-        arg, t, l, l1, nk1, leave = func_40_splev(arg, t, l, l1, nk1)
-        # Always leaves here
-        return arg, t, l, l1, k2, nk1
-
-    l1 = l
-    l = l - 1
-    arg, t, l, l1, k2, nk1 = func_35_splev(arg, t, l, l1, k2, nk1)
+    while not (arg >= t[l-1] or l1 == k2):
+        l1 = l
+        l = l - 1
+    arg, t, l, l1, nk1, leave = func_40_splev(arg, t, l, l1, nk1)
     return arg, t, l, l1, k2, nk1
 
 def func_40_splev(arg, t, l, l1, nk1):
-    if arg < t[l1-1] or l == nk1: # minus 1 index
-        return arg, t, l, l1, nk1, 1
-    l = l1
-    l1 = l + 1
-    arg, t, l, l1, nk1, leave = func_40_splev(arg, t, l, l1, nk1)
-    return arg, t, l, l1, nk1, leave
+    while not (arg < t[l1-1] or l == nk1): # minus 1 index
+        l = l1
+        l1 = l + 1
+    return arg, t, l, l1, nk1, 1
 
 def py_splev(x, tck, ext=0, t=None, c=None, k=None):
     """Evaluate a B-spline using a pure-python port of FITPACK's splev. This is
-- 
2.43.0


From 664f02cad178e907080ff500a8c3f5703e5ce0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:22 +0000
Subject: [PATCH 068/109] fix: linspace ignored retstep for fewer than two
 points

---
 fluids/numerics/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 65bbd37..251f2c6 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -593,13 +593,11 @@ def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None):
     stop = stop * 1.
 
     if num <= 0:
-        return []
+        return ([], nan) if retstep else []
     if endpoint:
         if num == 1:
-            return [start]
+            return ([start], nan) if retstep else [start]
         step = (stop-start)/float(num-1)
-        if num == 1:
-            step = nan
 
         y = [start]
         for _ in range(num-2):
-- 
2.43.0


From 4b28ea4cc99e6606eb6512e5bacd3772f13537f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:23 +0000
Subject: [PATCH 069/109] fix: translating a point on its lower bound to
 unbounded variables failed

---
 fluids/numerics/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 251f2c6..f73e0c7 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2183,7 +2183,7 @@ def translate_bound_func(func, bounds=None, low=None, high=None):
     def translate_into(x):
         x = [float(i) for i in x]
         for i in range(len(x)):
-            x[i] = -trunc_log((high[i] - x[i])/(x[i] - low[i]))
+            x[i] = trunc_log(x[i] - low[i]) - trunc_log(high[i] - x[i])
         return x
 
     def translate_outof(x):
@@ -2218,7 +2218,7 @@ def translate_bound_jac(jac, bounds=None, low=None, high=None):
     def translate_into(x):
         x = [float(i) for i in x]
         for i in range(len(x)):
-            x[i] = -trunc_log((high[i] - x[i])/(x[i] - low[i]))
+            x[i] = trunc_log(x[i] - low[i]) - trunc_log(high[i] - x[i])
         return x
 
     def translate_outof(x):
@@ -2278,7 +2278,7 @@ def translate_bound_f_jac(f, jac, bounds=None, low=None, high=None,
         else:
             x = x.copy()
         for i in range(len(x)):
-            x[i] = -trunc_log((high[i] - x[i])/(x[i] - low[i]))
+            x[i] = trunc_log(x[i] - low[i]) - trunc_log(high[i] - x[i])
         return x
 
     def translate_outof(x):
-- 
2.43.0


From bc600773b6b4bec513073ae56abd31e38932141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:25 +0000
Subject: [PATCH 070/109] fix: polylog2 lost its relative accuracy for small
 arguments

---
 fluids/numerics/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index f73e0c7..ea8b994 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5167,7 +5167,7 @@ def polylog2(x):
     r"""Simple function to calculate PolyLog(2, x) from ranges 0 <= x <= 1,
     with relative error guaranteed to be < 1E-7 from 0 to 0.99999. This
     is a Pade approximation, with three coefficient sets with splits at 0.7
-    and 0.99. An exception is raised if x is under 0 or above 1.
+    and 0.99, and a series under 0.001. An exception is raised if x is under 0 or above 1.
 
 
     Parameters
@@ -5192,7 +5192,10 @@ def polylog2(x):
     >>> polylog2(0.5)
     0.5822405264516294
     """
-    if 0 <= x <= 0.7:
+    if 0 <= x <= 1e-3:
+        # Series, as the first approximation loses its relative accuracy
+        return x*(1.0 + x*(0.25 + x*(1.0/9.0 + x*(1.0/16.0))))
+    elif 1e-3 < x <= 0.7:
         p = p_0_70
         q = q_0_07
         offset = 0.26
-- 
2.43.0


From 779635abd8a05e1749f056fdfa7edb68ef250160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:22 +0000
Subject: [PATCH 071/109] fix: derivative ignored lower_limit and upper_limit
 for vector functions

---
 fluids/numerics/__init__.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index ea8b994..2635467 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -859,16 +859,15 @@ def derivative(func, x0, dx=1.0, n=1, args=(), order=3, scalar=True,
         for i in range(n):
             denominator *= dx
         denominator = 1.0/denominator
+    if upper_limit is not None:
+        max_x = x0 + (order - 1 - ho)*dx
+        if max_x > upper_limit:
+            x0 -= (max_x - x0)
+    if lower_limit is not None:
+        min_x = x0 + -ho*dx
+        if min_x < lower_limit:
+            x0 += (x0 - min_x)
     if scalar:
-        if upper_limit is not None:
-            max_x = x0 + (order - 1 - ho)*dx
-            if max_x > upper_limit:
-                x0 -= (max_x - x0)
-        if lower_limit is not None:
-            min_x = x0 + -ho*dx
-            if min_x < lower_limit:
-                x0 += (x0 - min_x)
-
         # failed optimization strategy - plus changes some answers
         # const = x0 - dx*ho
         # tot += weights[k]*func(const + dx*k, *args, **kwargs)
-- 
2.43.0


From 55200178781054fb8e90ebcc1ee2efe6182692b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:33 +0000
Subject: [PATCH 072/109] fix: liquid_jet_pump_ancillary missed or misplaced a
 diameter when a second solution existed

---
 fluids/jet_pump.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index a22c2e7..2667d82 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -90,8 +90,8 @@ def liquid_jet_pump_ancillary(rhop: float, rhos: float, Kp: float, Ks: float, d_
         \left[(1+K_p) - C(1+K_s) \left(\frac{MR}{1-R}\right)^2\right]
 
     For `P`, `P2`, `Qs`, and `Qp`, the equation can be rearranged explicitly
-    for them. For `d_mixing` and `d_nozzle`, a bounded solver is used searching
-    between 1E-9 m and 20 times the other diameter which was specified.
+    for them. For `d_nozzle`, a bounded solver is used searching between 1E-9 m
+    and `d_mixing`, and for `d_mixing` between `d_nozzle` and 20 times it.
 
     Parameters
     ----------
@@ -184,13 +184,17 @@ def liquid_jet_pump_ancillary(rhop: float, rhos: float, Kp: float, Ks: float, d_
         def err(d_nozzle):
             return P1 - liquid_jet_pump_ancillary(rhop=rhop, rhos=rhos, Kp=Kp, Ks=Ks, d_nozzle=d_nozzle, d_mixing=d_mixing, Qp=Qp, Qs=Qs,
                               P1=None, P2=P2)
-        return brenth(err, 1E-9, d_mixing*20)
+        # The nozzle is smaller than the mixing chamber; there can be another
+        # solution with a negative suction area above it
+        return brenth(err, 1E-9, d_mixing*(1.0 - 1e-9))
     elif d_mixing is None and d_nozzle is not None and P1 is not None and P2 is not None and Qp is not None and Qs is not None:
         def err(d_mixing):
             return P1 - liquid_jet_pump_ancillary(rhop=rhop, rhos=rhos, Kp=Kp, Ks=Ks, d_nozzle=d_nozzle, d_mixing=d_mixing, Qp=Qp, Qs=Qs,
                               P1=None, P2=P2)
         try:
-            return brenth(err, 1E-9, d_nozzle*20)
+            # The mixing chamber is larger than the nozzle; there can be another
+            # solution with a negative suction area below it
+            return brenth(err, d_nozzle*(1.0 + 1e-9), d_nozzle*20)
         except:
             return secant(err, d_nozzle*2)
     else:
-- 
2.43.0


From 8a1da8ed8e443733a70f61347d4eec171acbb3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:20 +0000
Subject: [PATCH 073/109] fix: size_tee used 1/33 for 1.33 with one strong jet

---
 fluids/mixing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/mixing.py b/fluids/mixing.py
index d5ab3f4..939bd0f 100644
--- a/fluids/mixing.py
+++ b/fluids/mixing.py
@@ -300,7 +300,7 @@ def size_tee(Q1: float, Q2: float, D: float, D2: float | None, n: int=1, pipe_di
         if B < 0.7:
             E = 1.33
         else:
-            E = 1/33. + 0.95*log(B/0.7)
+            E = 1.33 + 0.95*log(B/0.7)
     elif n == 2:
         if B < 0.8:
             E = 1.44
-- 
2.43.0


From c8d37ea1cc62465e467b02bc6d5dab31734ed774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:28 +0000
Subject: [PATCH 074/109] fix: Chebfun lost functions of small magnitude by
 pruning with an absolute threshold

---
 fluids/optional/pychebfun.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index 7411281..4850384 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -193,15 +193,17 @@ class Polyfun:
         return self(other.values(),other.domain())
 
     @classmethod
-    def from_coeff(self, chebcoeff, domain=None, prune=True, vscale=1.):
+    def from_coeff(self, chebcoeff, domain=None, prune=True, vscale=None):
         """
         Initialise from provided coefficients
         prune: Whether to prune the negligible coefficients
-        vscale: the scale to use when pruning
+        vscale: the scale to use when pruning; the largest coefficient if not given
         """
         coeffs = np.asarray(chebcoeff)
         if prune:
-            N = self._cutoff(coeffs, vscale)
+            scale = vscale if vscale is not None else np.max(np.abs(coeffs))
+            # Any scale will do for pruning zeros only
+            N = self._cutoff(coeffs, scale if scale > 0.0 else 1.0)
             pruned_coeffs = coeffs[:N]
         else:
             pruned_coeffs = coeffs
-- 
2.43.0


From 589d6187bec4d8c3e822f5bbf246fd7d51f3f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:30 +0000
Subject: [PATCH 075/109] fix: Chebfun.roots failed for linear functions

---
 fluids/optional/pychebfun.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index 4850384..9d23861 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -546,6 +546,11 @@ class Chebfun(Polyfun):
         if self.size() == 1:
             return np.array([])
 
+        elif self.size() == 2:
+            ak = self.coefficients()
+            root = -ak[0]/ak[1]
+            return self._ui_to_ab(np.array([root] if abs(root) <= 1.0 else []))
+
         elif self.size() <= 100:
             ak = self.coefficients()
             v = np.zeros_like(ak[:-1])
-- 
2.43.0


From 9a0408ee806b9101c998a703ef99ed1c7b02d6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 076/109] fix: components of a Chebfun lost its domain

---
 fluids/optional/pychebfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index 9d23861..954b31d 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -339,7 +339,7 @@ class Polyfun:
 
     def __getitem__(self, s):
         """Components s of the fun."""
-        return self.from_data(self.values().T[s].T)
+        return self.from_data(self.values().T[s].T, self.domain())
 
     def __bool__(self):
         """Test for difference from zero (up to tolerance)"""
-- 
2.43.0


From cf2f0e085eb1e05d98e1b69564f647fe7fc896a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 077/109] fix: Chebfun.diff and Chebfun.cumsum were not
 implemented

---
 fluids/optional/pychebfun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index 954b31d..b8aa59a 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -527,6 +527,9 @@ class Chebfun(Polyfun):
             ak = self.differentiator(ak)
         return self.from_coeff((2./(b_-a_))**n*ak, domain=self.domain())
 
+    diff = differentiate
+    cumsum = integrate
+
     # ----------------------------------------------------------------
     # Roots
     # ----------------------------------------------------------------
-- 
2.43.0


From 5cec23ca67571205b94601a2095a9128b81131f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 078/109] fix: integer powers of a Chebfun with negative values
 could become nan

---
 fluids/optional/pychebfun.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index b8aa59a..8fbd955 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -730,6 +730,18 @@ def rdiv(a, b):
 for _op in [operator.mul, operator.truediv, operator.pow, rdiv]:
     _add_operator(Polyfun, _op)
 
+_pow_polyfun = Polyfun.__pow__
+
+def _pow(self, other):
+    # A constant exponent is kept exact, so that an integer one is valid for
+    # negative values
+    if np.isscalar(other):
+        return self.from_function(lambda x: operator.pow(self(x), other), domain=self.domain())
+    return _pow_polyfun(self, other)
+_pow.__name__ = _pow_polyfun.__name__
+_pow.__doc__ = _pow_polyfun.__doc__
+Polyfun.__pow__ = _pow
+
 # ----------------------------------------------------------------
 # Add numpy ufunc delegates
 # ----------------------------------------------------------------
-- 
2.43.0


From 28a6fd79e22674e6f3948a1bfcd683b2c2bcdba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:31 +0000
Subject: [PATCH 079/109] fix: functions listing methods raised an error in
 fluids.units

---
 fluids/units.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/units.py b/fluids/units.py
index a661e79..3971284 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -319,6 +319,9 @@ def convert_output(result, out_units, out_vars, ureg):
             unit = out_units[out_vars.index(key)]
             result[key] = ans*parse_expression_cached(unit, ureg)
         return result
+    elif t is list and any(isinstance(i, str) for i in result):
+        # Names of methods
+        return result
     elif (t is list or t is ndarray) and output_count == 1:
         return np.array(result)*parse_expression_cached(out_units[0], ureg)
     elif isinstance(result, Iterable):
-- 
2.43.0


From fc523a6341bce0fe50de283807a55a1cc7f8c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:34 +0000
Subject: [PATCH 080/109] fix: functions returning a dictionary with
 undocumented keys raised an error in fluids.units

---
 fluids/units.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fluids/units.py b/fluids/units.py
index 3971284..ece9b2b 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -307,7 +307,7 @@ def parse_expression_cached(unit, ureg):
     return ans
 
 
-def convert_output(result, out_units, out_vars, ureg):
+def convert_output(result, out_units, out_vars, ureg, in_units=None):
     # Attempt to handle multiple return values
     # Must be able to convert all values to a pint expression
     t = type(result)
@@ -316,7 +316,15 @@ def convert_output(result, out_units, out_vars, ureg):
         return result
     elif t is dict:
         for key, ans in result.items():
-            unit = out_units[out_vars.index(key)]
+            if ans is None or isinstance(ans, (bool, str)):
+                continue
+            if key in out_vars:
+                unit = out_units[out_vars.index(key)]
+            elif in_units is not None and key in in_units:
+                # An input which was solved for
+                unit = in_units[key]
+            else:
+                unit = "dimensionless"
             result[key] = ans*parse_expression_cached(unit, ureg)
         return result
     elif t is list and any(isinstance(i, str) for i in result):
@@ -389,7 +397,7 @@ def wraps_numpydoc(ureg, strict=True):
                 units = convert_output(result, out_units, out_vars, ureg)[0].units
                 return result*units
             else:
-                return convert_output(result, out_units, out_vars, ureg)
+                return convert_output(result, out_units, out_vars, ureg, in_vars_to_dict)
 
         return wrapper
     return decorator
-- 
2.43.0


From 4324ca7229179a29590adf952711504aa8659578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:39 +0000
Subject: [PATCH 081/109] fix: sunrise_sunset raised an error in fluids.units

---
 fluids/units.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fluids/units.py b/fluids/units.py
index ece9b2b..bbdaacb 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -31,6 +31,7 @@ import sys
 import types
 from collections.abc import Iterable
 from copy import copy
+from datetime import datetime
 from inspect import cleandoc
 
 import numpy as np
@@ -335,7 +336,9 @@ def convert_output(result, out_units, out_vars, ureg, in_units=None):
     elif isinstance(result, Iterable):
         conveted_result = []
         for ans, unit in zip(result, out_units):
-            conveted_result.append(ans*parse_expression_cached(unit, ureg))
+            if not isinstance(ans, (str, datetime)):
+                ans = ans*parse_expression_cached(unit, ureg)
+            conveted_result.append(ans)
         return conveted_result
     else:
         return result*parse_expression_cached(out_units[0], ureg)
-- 
2.43.0


From 8b316423da59aeaad3c357df853dcb2656e91a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:42 +0000
Subject: [PATCH 082/109] fix: diffuser_conical_staged raised an error in
 fluids.units

---
 fluids/units.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fluids/units.py b/fluids/units.py
index bbdaacb..3a8651f 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -365,6 +365,9 @@ def wraps_numpydoc(ureg, strict=True):
         for i, j in zip(in_vars, in_units):
             in_vars_to_dict[i] = j
 
+        # Functions of arrays do not need to be vectorized to work with them
+        takes_arrays = any(i.startswith("array") for i in parsed_info["Parameters"]["types"])
+
         out_units = parsed_info["Returns"]["units"]
         out_vars = parsed_info["Returns"]["vars"]
         # Handle the case of dict answers - require the first line's args to be
@@ -392,7 +395,7 @@ def wraps_numpydoc(ureg, strict=True):
             for name, val in kw.items():
                 unit = in_vars_to_dict[name]
                 kwargs[name] = convert_input(val, unit, ureg, strict)
-            if any(type(i.m) == np.ndarray for i in list(kw.values()) + list(values) if type(i) == u.Quantity):
+            if not takes_arrays and any(type(i.m) == np.ndarray for i in list(kw.values()) + list(values) if type(i) == u.Quantity):
                 result = getattr(fluids.vectorized, func.__name__)(*conv_values, **kwargs)
             else:
                 result = func(*conv_values, **kwargs)
-- 
2.43.0


From d7d88f879f802cc546c9c4333f8cdfbff6b02948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:45 +0000
Subject: [PATCH 083/109] fix: differential_pressure_meter_solver raised an
 error in fluids.units without the optional isentropic exponent

---
 fluids/units.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fluids/units.py b/fluids/units.py
index 3a8651f..0934139 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -720,6 +720,11 @@ variable_output_unit_funcs = {
                                             (True, True, True, True, True, False, True, True): [u.Pa],
                                             (True, True, True, True, True, True, False, True): [u.Pa],
                                             (True, True, True, True, True, True, True, False): [u.kg/u.s],
+                                            # The isentropic exponent is optional
+                                            (True, True, True, False, False, True, True, True): [u.m],
+                                            (True, True, True, False, True, False, True, True): [u.Pa],
+                                            (True, True, True, False, True, True, False, True): [u.Pa],
+                                            (True, True, True, False, True, True, True, False): [u.kg/u.s],
                                             }, 8),
     "isothermal_gas": ({(True, True, False, True, True, True, True): [u.Pa],
                         (True, True, True, False, True, True, True): [u.Pa],
-- 
2.43.0


From af09984a0ca09d4482a567301699e9a87edf2fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:48 +0000
Subject: [PATCH 084/109] fix: isentropic_work_compression and
 liquid_jet_pump_ancillary results had no units in fluids.units

---
 fluids/units.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/fluids/units.py b/fluids/units.py
index 0934139..e121219 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -731,8 +731,24 @@ variable_output_unit_funcs = {
                         (True, True, True, True, False, True, True): [u.m],
                         (True, True, True, True, True, False, True): [u.m],
                         (True, True, True, True, True, True, False): [u.kg/u.s],
-                        }, 7)
+                        }, 7),
+    "liquid_jet_pump_ancillary": ({(True, True, True, True, False, True, True, True, True, True): [u.m],
+                                   (True, True, True, True, True, False, True, True, True, True): [u.m],
+                                   (True, True, True, True, True, True, False, True, True, True): [u.m**3/u.s],
+                                   (True, True, True, True, True, True, True, False, True, True): [u.m**3/u.s],
+                                   (True, True, True, True, True, True, True, True, False, True): [u.Pa],
+                                   (True, True, True, True, True, True, True, True, True, False): [u.Pa],
+                                   }, 10),
+    # The compressibility factor is optional
+    "isentropic_work_compression": ({(True, True, Z, False, True, True, True): [u.Pa]
+                                     for Z in (True, False)}, 7),
 }
+for Z in (True, False):
+    variable_output_unit_funcs["isentropic_work_compression"][0].update({
+        (True, True, Z, True, False, True, True): [u.Pa],
+        (True, True, Z, True, True, False, True): [u.J/u.mol],
+        (True, True, Z, True, True, True, False): [u.dimensionless],
+    })
 
 simple_compressible_variable_output = ({(True, True, False, True, True, True, True): [u.m],
                                         (True, True, True, False, True, True, True): [u.m],
-- 
2.43.0


From a2c2e334b25e82ca48dfa5745cb31d07f2b3e066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:52 +0000
Subject: [PATCH 085/109] fix: Reynolds number documented in meters in
 fittings, rejected by fluids.units

---
 fluids/fittings.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 82293ab..528bb2d 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -1164,7 +1164,7 @@ def bend_rounded_Miller(Di: float, angle: float, Re: float, rc: float | None=Non
         Angle of bend, [degrees]
     Re : float
         Reynolds number of the pipe (no specification if inlet or outlet
-        properties should be used), [m]
+        properties should be used), [-]
     rc : float, optional
         Radius of curvature of the entrance, [m]
     bend_diameters : float, optional
@@ -1567,7 +1567,7 @@ def bend_miter_Miller(Di: float, angle: float, Re: float, roughness: float=0.0,
         Angle of miter bend, [degrees]
     Re : float
         Reynolds number of the pipe (no specification if inlet or outlet
-        properties should be used), [m]
+        properties should be used), [-]
     roughness : float, optional
         Roughness of bend wall, [m]
     L_unimpeded : float, optional
@@ -1937,10 +1937,10 @@ def contraction_sharp(Di1: float, Di2: float, fd: float | None=None, Re: float |
         Darcy friction factor in original pipe; used only in the Hooper method
         and will be  calculated from `Re` if not given, [-]
     Re : float, optional
-        Reynolds number of the pipe (used in Hooper method, [m]
+        Reynolds number of the pipe (used in Hooper method), [-]
     roughness : float, optional
         Roughness of original pipe (used in Hooper method only if no friction
-        factor given), [m]
+        factor given), [-]
     method : str
         The calculation method to use; one of 'Hooper', 'Rennels', or 'Crane' [-]
 
@@ -2323,7 +2323,7 @@ def contraction_conical(Di1: float, Di2: float, fd: float | None=None, l: float
         optional [degrees]
     Re : float, optional
         Reynolds number of the pipe (used in `Rennels` and `Hooper` method only
-        if no friction factor given), [m]
+        if no friction factor given), [-]
     roughness : float, optional
         Roughness of bend wall (used in Rennels method if no friction factor
         given), [m]
@@ -2829,7 +2829,7 @@ def diffuser_conical(Di1: float, Di2: float, l: float | None=None, angle: float
         Darcy friction factor [-]
     Re : float, optional
         Reynolds number of the pipe (used in Rennels method only if no friction
-        factor given), [m]
+        factor given), [-]
     roughness : float, optional
         Roughness of bend wall (used in Rennels method if no friction factor
         given), [m]
-- 
2.43.0


From 2f3ddd4a9678fb2ed110b76bc7b8b28532aa5fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 086/109] fix: units documented for SA_tank ratios and the
 SA_from_h area

---
 fluids/geometry.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 1c662f4..29f2ce9 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1490,13 +1490,13 @@ def SA_tank(D: float, L: float, sideA: str | None=None, sideB: str | None=None,
         The distance the head as specified by sideB extends up or to the right
         from the main cylindrical section, [m]
     sideA_f : float, optional
-        Dish-radius parameter for side A; fD  = dish radius [1/m]
+        Dish-radius parameter for side A; fD  = dish radius [-]
     sideA_k : float, optional
-        knuckle-radius parameter for side A; kD = knuckle radius [1/m]
+        knuckle-radius parameter for side A; kD = knuckle radius [-]
     sideB_f : float, optional
-        Dish-radius parameter for side B; fD  = dish radius [1/m]
+        Dish-radius parameter for side B; fD  = dish radius [-]
     sideB_k : float, optional
-        knuckle-radius parameter for side B; kD = knuckle radius [1/m]
+        knuckle-radius parameter for side B; kD = knuckle radius [-]
 
     Returns
     -------
@@ -3018,7 +3018,7 @@ def SA_from_h(h: float, D: float, L: float, horizontal: bool=True, sideA: str |
     Returns
     -------
     SA : float
-        Wetted wall surface area up to h [m^3]
+        Wetted wall surface area up to h [m^2]
 
     Examples
     --------
-- 
2.43.0


From bba8cf4790a32f0cedd62ec94f15bfa31d596782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 087/109] fix: units documented for the diameters of Dean

---
 fluids/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/core.py b/fluids/core.py
index 9700ed9..18feb87 100644
--- a/fluids/core.py
+++ b/fluids/core.py
@@ -2279,11 +2279,11 @@ def Dean(Re: float, Di: float, D: float) -> float:
     Parameters
     ----------
     Re : float
-        Reynolds number []
+        Reynolds number [-]
     Di : float
-        Inner diameter []
+        Inner diameter [m]
     D : float
-        Diameter of curvature or outer spiral or other dimension []
+        Diameter of curvature or outer spiral or other dimension [m]
 
     Returns
     -------
-- 
2.43.0


From fe1abd98413ebbe6a75d932768946df13bf0f138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:02 +0000
Subject: [PATCH 088/109] fix: unit documented for specific_diameter

---
 fluids/pump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/pump.py b/fluids/pump.py
index d3a4134..111164f 100644
--- a/fluids/pump.py
+++ b/fluids/pump.py
@@ -554,7 +554,7 @@ def specific_diameter(Q: float, H: float, D: float) -> float:
     Returns
     -------
     Ds : float
-        Specific diameter, [m^0.25/s^0.5]
+        Specific diameter, [s^0.5/m^0.25]
 
     Notes
     -----
-- 
2.43.0


From 430d0905da2de7670611d7bbe11d732d9d56a111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:05 +0000
Subject: [PATCH 089/109] fix: units documented for probability density
 functions

---
 fluids/particle_size_distribution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index ace3c3a..af5effb 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -611,7 +611,7 @@ def pdf_lognormal(d: float, d_characteristic: float, s: float) -> float:
     Returns
     -------
     pdf : float
-        Lognormal probability density function, [-]
+        Lognormal probability density function, [1/m]
 
     Notes
     -----
@@ -791,7 +791,7 @@ def pdf_Gates_Gaudin_Schuhman(d: float, d_characteristic: float, m: float) -> fl
     Returns
     -------
     pdf : float
-        GGS probability density function, [-]
+        GGS probability density function, [1/m]
 
     Notes
     -----
@@ -941,7 +941,7 @@ def pdf_Rosin_Rammler(d: float, k: float, m: float) -> float:
     Returns
     -------
     pdf : float
-        RR probability density function, [-]
+        RR probability density function, [1/m]
 
     Notes
     -----
@@ -1277,7 +1277,7 @@ class ParticleSizeDistributionContinuous:
         -------
         pdf : float
             The probability density function at the specified diameter and
-            order, [-]
+            order, [1/m]
 
         Notes
         -----
-- 
2.43.0


From b14c39188d2feb2c68a879c74ab379dd6b59cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:08 +0000
Subject: [PATCH 090/109] fix: valve characteristics could not be called
 through fluids.units

---
 fluids/control_valve.py | 63 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 3 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 0f9266f..4e17d62 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -1010,11 +1010,49 @@ opening_quick_tck = implementation_optimize_tck([[0.0, 0.0, 0.0, 0.0, 0.02184, 0
     0.873096858463145, 0.8776128736976467, 0.897647305294458, 0.9105672165523071, 0.9192771703370824,
     0.9377349743236904, 0.9603716623033031, 0.9688863605959851, 0.9980062718267431, 1.0, 0.0, 0.0, 0.0, 0.0],
     3])
-Cv_char_quick_opening = lambda opening: float(splev(opening, opening_quick_tck))
+def Cv_char_quick_opening(opening):
+    r"""Calculates the fraction of the flow coefficient of a quick opening control valve
+    according to a representative valve curve.
+
+    Parameters
+    ----------
+    opening : float
+        Fraction of valve opening, [-]
+
+    Returns
+    -------
+    frac_CV : float
+        Fraction of the flow coefficient when fully open, [-]
+
+    Examples
+    --------
+    >>> Cv_char_quick_opening(0.5)
+    0.90254724955
+    """
+    return float(splev(opening, opening_quick_tck))
 
 opening_linear = [0., 1.0]
 frac_CV_linear = [0, 1]
-Cv_char_linear = lambda opening: interp(opening, opening_linear, frac_CV_linear)
+def Cv_char_linear(opening):
+    r"""Calculates the fraction of the flow coefficient of a linear control valve
+    according to a representative valve curve.
+
+    Parameters
+    ----------
+    opening : float
+        Fraction of valve opening, [-]
+
+    Returns
+    -------
+    frac_CV : float
+        Fraction of the flow coefficient when fully open, [-]
+
+    Examples
+    --------
+    >>> Cv_char_linear(0.5)
+    0.5
+    """
+    return interp(opening, opening_linear, frac_CV_linear)
 
 # Equal opening valve data, spline fit, and interpolating function
 opening_equal = [0.0, 0.05523, 0.09287, 0.15341, 0.18942, 0.22379, 0.25816, 0.29582, 0.33348, 0.34985, 0.3826, 0.45794,
@@ -1031,7 +1069,26 @@ opening_equal_tck = implementation_optimize_tck([[0.0, 0.0, 0.0, 0.0, 0.09287, 0
         0.659729970241158, 0.7233389559355903, 0.8155475382785987, 0.8983628328699896, 0.9871204658597236, 1.0,
         0.0, 0.0, 0.0, 0.0],
         3])
-Cv_char_equal_percentage = lambda opening: float(splev(opening, opening_equal_tck))
+def Cv_char_equal_percentage(opening):
+    r"""Calculates the fraction of the flow coefficient of an equal percentage control valve
+    according to a representative valve curve.
+
+    Parameters
+    ----------
+    opening : float
+        Fraction of valve opening, [-]
+
+    Returns
+    -------
+    frac_CV : float
+        Fraction of the flow coefficient when fully open, [-]
+
+    Examples
+    --------
+    >>> Cv_char_equal_percentage(0.5)
+    0.163588176431
+    """
+    return float(splev(opening, opening_equal_tck))
 
 
 def convert_flow_coefficient(flow_coefficient, old_scale, new_scale):
-- 
2.43.0


From 46b65311e713ddc4b502c31afc63b722c48233f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 091/109] fix: documented name and units of cooling tower and
 fin exchanger attributes

---
 fluids/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 29f2ce9..03c8b11 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4379,10 +4379,10 @@ class RectangularFinExchanger:
     blockage_ratio : float
         The fraction of the layer which is blocked to flow by the fins,
         :math:`\text{blockage ratio} = \frac{s\cdot h - s\cdot t - t(h-t)}{s\cdot h}`,
-        [m]
+        [-]
     A_channel : float
         Flow area of a single channel in a single layer,
-        :math:`\text{channel area} = (s-t)(h-t)`, [m]
+        :math:`\text{channel area} = (s-t)(h-t)`, [m^2]
     P_channel : float
         Wetted perimeter of a single channel in a single layer,
         :math:`\text{channel perimeter} = 2(s-t) + 2(h-t)`, [m]
@@ -4407,7 +4407,7 @@ class RectangularFinExchanger:
         The product of the height, width, and length of the HX, [m^3]
     A_specific_HX : float
         The specific surface area of the heat exchanger - square meters per
-        meter cubed, [m^3]
+        meter cubed, [m^2/m^3]
 
     Notes
     -----
@@ -4555,7 +4555,7 @@ class HyperbolicCoolingTower:
     D_throat : float, optional
         The diameter of the cooling tower at its minimum section, called its
         throat; where the two hyperbolas meet, [m]
-    h_throat : float, optional
+    H_throat : float, optional
         The elevation of the cooling tower's throat (its minimum section; where
         the two hyperbolas meet), [m]
     inlet_rounding : float, optional
-- 
2.43.0


From bb2517a894d4a321563be6657f34ec85fe090bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:16 +0000
Subject: [PATCH 092/109] fix: unit documented for erosional_velocity could not
 be parsed by fluids.units

---
 fluids/piping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/piping.py b/fluids/piping.py
index b85aabe..4308ac0 100644
--- a/fluids/piping.py
+++ b/fluids/piping.py
@@ -1069,7 +1069,7 @@ def erosional_velocity(rho: int, C: int) -> float:
     rho : float
         Bulk mass density of the overall fluid, [kg/m^3]
     C : float
-        Erosional velocity factor; must be provided,  [sqrt(lb/(ft*s^2))]
+        Erosional velocity factor; must be provided,  [lb^0.5/(ft^0.5*s)]
 
     Returns
     -------
-- 
2.43.0


From fdbf0c77510a2ca645cdf4fa702a5073d2daf75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:20 +0000
Subject: [PATCH 093/109] fix: nearest_pipe accepts a numerical schedule of any
 number type, so that it works vectorized

---
 fluids/piping.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/piping.py b/fluids/piping.py
index 4308ac0..850885b 100644
--- a/fluids/piping.py
+++ b/fluids/piping.py
@@ -733,10 +733,10 @@ def nearest_pipe(Do: float | None=None, Di: float | None=None, NPS: int | None=N
         Do = round(Do*1E3, 9)
 
     # If accidentally given an numerical schedule, convert it to a string
-    if isinstance(schedule, (int, float)):
-        search_schedule = str(int(schedule))
-    else:
+    if isinstance(schedule, str):
         search_schedule = schedule
+    else:
+        search_schedule = str(int(schedule))
 
     if search_schedule not in schedule_lookup:
         raise ValueError("Schedule not recognized")
-- 
2.43.0


From f7a152f2d0af11d1e740571aa44e8020730e4fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:25 +0000
Subject: [PATCH 094/109] fix: pressure drop of wet gas venturi tubes
 documented, and returned by fluids.units, as dimensionless

---
 fluids/flow_meter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/flow_meter.py b/fluids/flow_meter.py
index 27fe7c4..350a8c0 100644
--- a/fluids/flow_meter.py
+++ b/fluids/flow_meter.py
@@ -2240,9 +2240,9 @@ def dP_Reader_Harris_Gallagher_wet_venturi_tube(D: float, Do: float, P1: float,
 
     Returns
     -------
-    C : float
-        Coefficient of discharge of the wet gas venturi tube flow meter
-        (includes flow rate of gas ONLY), [-]
+    dP : float
+        Non-recoverable pressure drop of the wet gas venturi tube flow meter,
+        [Pa]
 
     Notes
     -----
-- 
2.43.0


From 0678ca1d98d22333d2f400c8ff6f3bfdd6a02605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:28 +0000
Subject: [PATCH 095/109] fix: motor_efficiency_underloaded returned an integer
 above the plateau, so that vectorized results were truncated

---
 fluids/pump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/pump.py b/fluids/pump.py
index 111164f..5c77fa4 100644
--- a/fluids/pump.py
+++ b/fluids/pump.py
@@ -489,7 +489,7 @@ def motor_efficiency_underloaded(P: float, load: float=0.5) -> float:
     else:
         i = 5
     if load > _efficiency_ones[i]:
-        return 1
+        return 1.0
     else:
         cs = _efficiency_lists[i]
         return cs[0] + cs[1]*load + cs[2]*load**2 + cs[3]*load**3 + cs[4]*load**4
-- 
2.43.0


From 0ecb106bc420f59a37bee7cc6f6ac17f265db85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:30 +0000
Subject: [PATCH 096/109] fix: motor_efficiency_underloaded gives 1 on the
 plateau again, as docs/tutorial.rst shows it

---
 fluids/pump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/pump.py b/fluids/pump.py
index 5c77fa4..111164f 100644
--- a/fluids/pump.py
+++ b/fluids/pump.py
@@ -489,7 +489,7 @@ def motor_efficiency_underloaded(P: float, load: float=0.5) -> float:
     else:
         i = 5
     if load > _efficiency_ones[i]:
-        return 1.0
+        return 1
     else:
         cs = _efficiency_lists[i]
         return cs[0] + cs[1]*load + cs[2]*load**2 + cs[3]*load**3 + cs[4]*load**4
-- 
2.43.0


From bd689dfc534c6c63280889037a965547e30cabbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:17 +0000
Subject: [PATCH 097/109] fix: Colebrook with tol=0 left the caller's mpmath
 precision changed

---
 fluids/friction.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fluids/friction.py b/fluids/friction.py
index c6fa5a6..d8295d5 100644
--- a/fluids/friction.py
+++ b/fluids/friction.py
@@ -439,13 +439,13 @@ def Colebrook(Re: float, eD: float, tol: float | None=None) -> float:
         except ImportError:
             raise ImportError("For exact solutions, the `mpmath` library is "
                               "required")
-        mp.dps = 50
-        Re = mpf(Re)
-        eD_Re = mpf(eD)*Re
-        sub = 1/mpf("6.3001")*10**(1/mpf("9.287")*eD_Re)*Re*Re
-        lambert_term = mp_lambertw(log(sqrtmp(10))*sqrtmp(sub))
-        den = log(10)*eD_Re - 18.574*lambert_term
-        return float(log(10)**2*mpf("3.7")**2*mpf("2.51")**2/(den*den))
+        with mp.workdps(50):
+            Re = mpf(Re)
+            eD_Re = mpf(eD)*Re
+            sub = 1/mpf("6.3001")*10**(1/mpf("9.287")*eD_Re)*Re*Re
+            lambert_term = mp_lambertw(log(sqrtmp(10))*sqrtmp(sub))
+            den = log(10)*eD_Re - 18.574*lambert_term
+            return float(log(10)**2*mpf("3.7")**2*mpf("2.51")**2/(den*den))
     if tol is None:
         try:
             eD_Re = eD*Re
-- 
2.43.0


From 8aea68499d3832ee7c21a61be2d7f84df1ccb848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:20 +0000
Subject: [PATCH 098/109] fix: gas_liquid_viscosity_methods handed out its
 internal list, so that callers changing it changed later results

---
 fluids/two_phase_voidage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/two_phase_voidage.py b/fluids/two_phase_voidage.py
index 4e61c1e..82392a2 100644
--- a/fluids/two_phase_voidage.py
+++ b/fluids/two_phase_voidage.py
@@ -2753,7 +2753,7 @@ def gas_liquid_viscosity_methods(rhol: float | None=None, rhog: float | None=Non
     """
     methods = ["McAdams", "Cicchitti", "Lin Kwok"]
     if rhol is not None and rhog is not None:
-        methods = liquid_gas_viscosity_correlations_list
+        methods = list(liquid_gas_viscosity_correlations_list)
     return methods
 _gas_liquid_viscosity_method_unknown = f"Method not recognized; available methods are {list(liquid_gas_viscosity_correlations.keys())}"
 
-- 
2.43.0


From ed87e4a2bee401371a48b2c77b53db18a29829e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:22 +0000
Subject: [PATCH 099/109] fix: liquid_jet_pump disturbed the global random
 generator, and its answer could depend on the generator's state

---
 fluids/jet_pump.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index 2667d82..a68087f 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -417,7 +417,8 @@ def liquid_jet_pump(rhop, rhos, Kp=0.0, Ks=0.1, Km=.15, Kd=0.1,
     .. [4] Ejectors and Jet Pumps. Design and Performance for Incompressible
        Liquid Flow. 85032. ESDU International PLC, 1985.
     """
-    from random import uniform
+    from random import Random
+    uniform = Random(0).uniform
     solution_vars = ["d_nozzle", "d_mixing", "Qp", "Qs", "P1", "P2", "P5"]
     unknown_vars = []
     for i in solution_vars:
-- 
2.43.0


From 1a827815658d115ccf7674bc0aba2d597c272409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:39 +0000
Subject: [PATCH 100/109] fix: two_phase_dP_methods without angle listed
 Beggs-Brill, for which two_phase_dP requires the angle

---
 fluids/two_phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/two_phase.py b/fluids/two_phase.py
index 1d7c92c..23a857b 100644
--- a/fluids/two_phase.py
+++ b/fluids/two_phase.py
@@ -2355,7 +2355,7 @@ two_phase_correlations = {
 _unknown_msg_two_phase = f"Unknown method; available methods are {list(two_phase_correlations.keys())}"
 
 def two_phase_dP_methods(m: float, x: float, rhol: float, D: float, L: float=1.0, rhog: float | None=None, mul: float | None=None, mug: float | None=None,
-                         sigma: float | None=None, P: float | None=None, Pc: float | None=None, roughness: float=0.0, angle: float=0,
+                         sigma: float | None=None, P: float | None=None, Pc: float | None=None, roughness: float=0.0, angle: float | None=None,
                          check_ranges: bool=False) -> list[str]:
     r"""This function returns a list of names of correlations for two-phase
     liquid-gas pressure drop for flow inside channels.
-- 
2.43.0


From a33ec414f973c708f3d74849fa9fb72febb4cbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:39 +0000
Subject: [PATCH 101/109] fix: API520_A_l could no longer be compiled by numba
 since its treatment of a missing viscosity

---
 fluids/safety_valve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fluids/safety_valve.py b/fluids/safety_valve.py
index 04cd797..e08c8d6 100644
--- a/fluids/safety_valve.py
+++ b/fluids/safety_valve.py
@@ -1078,9 +1078,10 @@ def API520_A_l(m, rho, P1, P2, overpressure, Kd=0.65, Kc=1.0,
     P_set = P_set_guage + atm
     if Kw is None:
         Kw = API520_W(P_set, P2)
-    if Kv is None and mu is None:
-        # No viscosity correction requested
-        Kv = 1.0
+    if mu is None:
+        # No viscosity correction requested, unless `Kv` is given
+        if Kv is None:
+            Kv = 1.0
     elif Kv is None:
         A0 = API520_A_l(m=m, rho=rho, P1=P1, P2=P2, overpressure=overpressure, Kd=Kd, Kc=Kc, Kv=1.0, Kw=Kw)
         D = sqrt(A0*4.0/pi)
-- 
2.43.0


From b7ffbd683b6851de1ac106448215ee9f2afe3af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:25 +0000
Subject: [PATCH 102/109] fix: keep the unit of the wedge meter's downstream
 pressure on one line so fluids.units reads it

---
 fluids/flow_meter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/flow_meter.py b/fluids/flow_meter.py
index 350a8c0..9ce2379 100644
--- a/fluids/flow_meter.py
+++ b/fluids/flow_meter.py
@@ -2045,8 +2045,8 @@ def dP_wedge_meter(D: float, H: float, P1: float, P2: float) -> float:
         Static pressure of fluid upstream of wedge meter at the cross-section
         of the pressure tap, [Pa]
     P2 : float
-        Static pressure of fluid at the end of the wedge meter pressure tap, [
-        Pa]
+        Static pressure of fluid at the end of the wedge meter pressure tap,
+        [Pa]
 
     Returns
     -------
-- 
2.43.0


From aae3ca5089e73ae38cbb3e5e76ff7fe5fef66571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:29 +0000
Subject: [PATCH 103/109] fix: treat a head without depth as flat in horizontal
 vessels

---
 fluids/geometry.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 03c8b11..a4fdf0e 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -547,6 +547,11 @@ def V_horiz_spherical(D: float, L: float, a: float, h: float, headonly: bool=Fal
     elif h > D:
         h = D
     R = 0.5*D
+    if a == 0.0:
+        # A head with no depth is flat and holds nothing
+        if headonly:
+            return 0.0
+        return (R*R*acos((R-h)/R) - (R-h)*sqrt(2.0*R*h - h*h))*L
     r = 0.5*(a*a + R*R)/abs(a)
     w = R - h
     y = sqrt(2.0*R*h - h*h)
@@ -2002,6 +2007,9 @@ def SA_partial_horiz_spherical_head(D: float, a: float, h: float) -> float:
         h = D
     if a == R:
         return pi*R*h
+    if a == 0.0:
+        # A head with no depth is a flat circle
+        return R*R*acos((R-h)/R) - (R-h)*sqrt(2.0*R*h - h*h)
 
     fact = (a*a + R*R)/abs(a)
     R2 = R*R
@@ -2104,6 +2112,9 @@ def SA_partial_horiz_ellipsoidal_head(D: float, a: float, h: float) -> float:
         return 0.0
     elif h > D:
         h = D
+    if a == 0.0:
+        # A head with no depth is a flat circle
+        return R*R*acos((R-h)/R) - (R-h)*sqrt(2.0*R*h - h*h)
     R2 = R*R
     R4 = R2*R2
     a2 = a*a
@@ -2239,6 +2250,9 @@ def SA_partial_horiz_guppy_head(D: float, a: float, h: float) -> float:
         h = D
     if -R == h-R:
         return 0.0
+    if a == 0.0:
+        # A head with no depth is a flat circle
+        return R*R*acos((R-h)/R) - (R-h)*sqrt(2.0*R*h - h*h)
 
 #    c1 = a/(2.0*R)
 #    c2 = c1*c1
-- 
2.43.0


From af7f275284502190108e0e2ee925fd413e8c351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:29 +0000
Subject: [PATCH 104/109] fix: read station-year files whose identifiers are
 zero padded or alphanumeric

---
 fluids/design_climate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 46194a0..f4dfc17 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -778,7 +778,8 @@ def get_station_year_text(WMO, WBAN, year, data_dir_override=None):
         WMO = 999999
     if WBAN is None:
         WBAN = 99999
-    station = str(int(WMO)) + "-" + str(WBAN)
+    # The database lists every station by six and five characters
+    station = str(WMO if isinstance(WMO, str) else int(WMO)).zfill(6) + "-" + str(WBAN).zfill(5)
     if data_dir_override is None:
         gsod_year_dir = os.path.join(data_dir, "gsod", str(year))
     else:
-- 
2.43.0


From 12e87eda662878e3f9006031d28bd8ef3eb23e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:30 +0000
Subject: [PATCH 105/109] fix: count the microseconds of a time in its Julian
 day

---
 fluids/optional/spa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/optional/spa.py b/fluids/optional/spa.py
index b1ab2bd..4f44cf2 100644
--- a/fluids/optional/spa.py
+++ b/fluids/optional/spa.py
@@ -393,7 +393,7 @@ def julian_day_dt(year, month, day, hour, minute, second, microsecond):
         month = month+12
     a = int(year/100)
     b = 2 - a + int(a * 0.25)
-    frac_of_day = (microsecond + (second + minute * 60 + hour * 3600)
+    frac_of_day = (microsecond*1e-6 + (second + minute * 60 + hour * 3600)
                    ) * 1.0 / (3600*24)
     d = day + frac_of_day
     jd = (int(365.25 * (year + 4716)) + int(30.6001 * (month + 1)) + d +
-- 
2.43.0


From 07fbb946cec00700006d49f5cf4a0a5a7e556714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:30 +0000
Subject: [PATCH 106/109] fix: SolverInterface handles one-sided numerical
 derivatives and extra arguments

---
 fluids/numerics/__init__.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 2635467..6f0f69e 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5924,11 +5924,11 @@ class SolverInterface:
                                 zero_offset=self.jacobian_zero_offset, args=args)
 
                 elif hessian_method == "numdifftools_forward":
-                    h = nd.Hessian(objf, method="forward")(x)
+                    h = nd.Hessian(objf, method="forward")(x, *args)
                 elif hessian_method == "numdifftools_reverse":
-                    h = nd.Hessian(objf, method="reverse")(x)
+                    h = nd.Hessian(objf, method="backward")(x, *args)
                 elif hessian_method == "numdifftools_central":
-                    h = nd.Hessian(objf, method="central")(x)
+                    h = nd.Hessian(objf, method="central")(x, *args)
 
         # Up the hessian fval count, set the fval back
         self.hess_fval_count += self.fval_iter - fval_iter
@@ -6007,18 +6007,18 @@ class SolverInterface:
                                 zero_offset=self.jacobian_zero_offset, args=args)
 
                 elif jacobian_method == "numdifftools_forward":
-                    j = numdifftools_func(objf, method="forward", order=self.jacobian_order, step=step)(x)
+                    j = numdifftools_func(objf, method="forward", order=self.jacobian_order, step=step)(x, *args)
                 elif jacobian_method == "numdifftools_reverse":
-                    j = numdifftools_func(objf, method="reverse", order=self.jacobian_order, step=step)(x)
+                    j = numdifftools_func(objf, method="backward", order=self.jacobian_order, step=step)(x, *args)
                 elif jacobian_method == "numdifftools_central":
-                    j = numdifftools_func(objf, method="central", order=self.jacobian_order, step=step)(x)
+                    j = numdifftools_func(objf, method="central", order=self.jacobian_order, step=step)(x, *args)
 
                 elif jacobian_method == "jacobi_forward":
-                    j = jacobi(objf, x, method=1)[0]
+                    j = jacobi(objf, x, *args, method=1)[0]
                 elif jacobian_method == "jacobi_central":
-                    j = jacobi(objf, x, method=0)[0]
+                    j = jacobi(objf, x, *args, method=0)[0]
                 elif jacobian_method == "jacobi_backward":
-                    j = jacobi(objf, x, method=1)[0]
+                    j = jacobi(objf, x, *args, method=-1)[0]
 
         # Up the jacobian fval count, set the fval back
         self.jac_fval_count += self.fval_iter - fval_iter
@@ -6086,7 +6086,7 @@ class SolverInterface:
             process_root = True
             jacobian_method = self.jacobian_method
             jac = self.jacobian if jacobian_method != "scipy" else None
-            hess = self.hessian if method in scipy_requires_hessian_options_set else None
+            hess = (lambda x, *args: self.hessian(x, args=args)) if method in scipy_requires_hessian_options_set else None
             result = minimize(self.objf, x0, args=args, method=method, jac=jac, tol=self.xtol, hess=hess)
         elif method == "newton_minimize":
             sln, niter = newton_minimize(
-- 
2.43.0


From 497e341319a8fb72be6b4595535331557bacae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:30 +0000
Subject: [PATCH 107/109] fix: diffuser_conical_Crane angle from a length had
 the sign reversed

---
 fluids/fittings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 528bb2d..3fa526b 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -2628,7 +2628,7 @@ def diffuser_conical_Crane(Di1, Di2, l=None, angle=None):
         angle_deg = angle
     elif l is not None:
         if l != 0.0:
-            angle_rad = 2.0*atan((Di1-Di2)/(2.0*l))
+            angle_rad = 2.0*atan((Di2-Di1)/(2.0*l))
             angle_deg = degrees(angle_rad)
         else:
             angle_rad = pi
-- 
2.43.0


From 1325f093dc57df0aa2560bbadb5161348614d3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:30 +0000
Subject: [PATCH 108/109] fix: keep geocoding cache addresses as text so that
 numeric-looking ones stay apart

---
 fluids/design_climate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index f4dfc17..cfe7dfc 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -114,7 +114,7 @@ class SimpleGeolocatorCache:
         self.connection = conn = sqlite3.connect(file_name)
         cursor = self.connection.cursor()
         cursor.execute("CREATE TABLE IF NOT EXISTS geopy ( "
-                       "address STRING PRIMARY KEY, latitude real, longitude real )")
+                       "address TEXT PRIMARY KEY, latitude real, longitude real )")
         self.connection.commit()
 
     def cached_address(self, address):
-- 
2.43.0


From f19f4368e6fe3c3b60c6a1cda10ace90f8821471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:23 +0000
Subject: [PATCH 109/109] fix: horizontal heads raised a math domain error for
 liquid levels within rounding of empty or full

---
 fluids/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index a4fdf0e..8feb1b7 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -571,7 +571,7 @@ def V_horiz_spherical(D: float, L: float, a: float, h: float, headonly: bool=Fal
     elif abs(a) >= 0.01*D:
         R_r = R/r
         Vf = a/abs(a)*(
-        (2.0/3.0)*r*r*r*(acos(max(-1.0, (R*R - r*w)/(R*(w-r)))) + acos(min(1.0, (R*R+r*w)/(R*(w+r))))
+        (2.0/3.0)*r*r*r*(acos(min(1.0, max(-1.0, (R*R - r*w)/(R*(w-r))))) + acos(min(1.0, max(-1.0, (R*R+r*w)/(R*(w+r)))))
         - z/r*(2.0+R_r*R_r)*acos(w/R))
         - 2.0*(w*r*r - w*w*w*(1.0/3.0))*atan(y/z) + (4.0/3.0)*w*y*z)
     else:
@@ -591,7 +591,7 @@ def V_horiz_torispherical_toint_1(x: float, w: float, c10: float, c11: float) ->
     # No analytical integral available in MP
     n = c11 + sqrt(c10 - x*x)
     n2 = n*n
-    t = sqrt(n2 - w*w)
+    t = sqrt(max(0.0, n2 - w*w)) # rounding can take the difference below zero for tiny heights
     return n2*asin(t/n) - w*t
 
 def V_horiz_torispherical_toint_2(x: float, w: float, c10: float, c11: float, g: float, g2: float) -> float:
-- 
2.43.0

