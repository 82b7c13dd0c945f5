From 87da981d4699e0fe2f16dd56fab767ea9e0fb7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 01/53] fix: MachSub_Sigma initial guess must stay subsonic for
 any gamma

---
 aerokit/aero/MassFlow.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index ee3ce2b..b1475df 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -10,9 +10,8 @@ from ..common import defaultgas as defg
 
 # internal initialization (estimated) Mach for Sigma->Mach computations
 def __MachSub_sigma(sigma, gamma):
-    return 1.0 - np.sqrt(
-        (1.0 - 1.0 / sigma) * (4.0 * (gamma - 1.0) / (3.0 - gamma))
-    )  # (2./(gamma+1.))**(.5*(gamma+1.)/(gamma-1.))/sigma
+    # must stay in ]0, 1] for any gamma: out of this range, iterations fail or reach the other branch
+    return 1.0 - np.sqrt(1.0 - 1.0 / sigma)  # (2./(gamma+1.))**(.5*(gamma+1.)/(gamma-1.))/sigma
 
 
 def __MachSup_sigma(sigma, gamma):
-- 
2.43.0


From 9552538160bb8568b4b7e102b896d3478d159fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 02/53] fix: ShockWave.Pt_ratio uses the given gamma downstream
 of the shock

---
 aerokit/aero/ShockWave.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 98d1718..5f7f732 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -90,7 +90,11 @@ def Pt_ratio(Mn, gamma=defg._gamma):
     Returns:
 
     """
-    return Ps_ratio(Mn, gamma) * Is.PtPs_Mach(downstream_Mn(Mn, gamma)) / Is.PtPs_Mach(Mn, gamma)
+    return (
+        Ps_ratio(Mn, gamma)
+        * Is.PtPs_Mach(downstream_Mn(Mn, gamma), gamma)
+        / Is.PtPs_Mach(Mn, gamma)
+    )
 
 
 def Mn_Pt_ratio(ptratio, gamma=defg._gamma):
-- 
2.43.0


From e9fc93dfe800ccda40081009887400eb34b2efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 03/53] fix: Mach_PrandtlMeyer converges near Mach 1 for large
 gamma

---
 aerokit/aero/Supersonic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/Supersonic.py b/aerokit/aero/Supersonic.py
index 0bca4e2..4f8e518 100644
--- a/aerokit/aero/Supersonic.py
+++ b/aerokit/aero/Supersonic.py
@@ -62,10 +62,11 @@ def old_Mach_PrandtlMeyer(omega, gamma=defg._gamma):
 
 def Mach_PrandtlMeyer(omega, gamma=defg._gamma):
     def omega_of_mach(m):
-        return PrandtlMeyer_Mach(m, gamma) - omega
+        # even extension around Mach 1: iterations can cross it without being undefined
+        return PrandtlMeyer_Mach(1.0 + np.abs(m - 1.0), gamma) - omega
 
     # return IterativeSolve.secant_solve(omega_of_mach, omega, 2.)
-    result = newton(omega_of_mach, 2.0 + 0.0 * omega)
+    result = 1.0 + np.abs(newton(omega_of_mach, 2.0 + 0.0 * omega) - 1.0)
     return result if np.size(result) != 1 else result.item()
 
 
-- 
2.43.0


From 794f7c3b4401799c3278687757e4677f21884c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 04/53] fix: model1D.state keeps its gamma when recomputed or
 indexed

---
 aerokit/aero/model1D.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aerokit/aero/model1D.py b/aerokit/aero/model1D.py
index 0b8d964..1598d7f 100644
--- a/aerokit/aero/model1D.py
+++ b/aerokit/aero/model1D.py
@@ -57,14 +57,14 @@ class state:
     def compute_from_pt_rtt_M(self, pt, rtt, M):
         ps = pt / Is.PtPs_Mach(M, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps)
+        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_u(self, pt, rtt, u):
         gam = self._gamma
         gsgmu = gam / (gam - 1.0)
         a2 = gam * rtt - 0.5 * (gam - 1.0) * u ** 2
         ps = pt / (1.0 + 0.5 * u ** 2 / (gsgmu * rtt - 0.5 * u ** 2)) ** gsgmu
-        self.__init__(rho=gam * ps / a2, u=u, p=ps)
+        self.__init__(rho=gam * ps / a2, u=u, p=ps, gamma=gam)
 
     def compute_from_pt_rtt_p(self, pt, rtt, p):
         """Init state from Ptot r.Ttot and Ps (velocity sign is arbitrary and positive)
@@ -76,11 +76,12 @@ class state:
         """
         M = Is.Mach_PtPs(pt / p, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p)
+        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p, gamma=self._gamma)
 
     def __getitem__(self, i):
         assert isinstance(self.rho, np.ndarray)
-        return state(self.rho[i], self.u[i], self.p[i])
+        gamma = self._gamma[i] if isinstance(self._gamma, np.ndarray) else self._gamma
+        return state(self.rho[i], self.u[i], self.p[i], gamma)
 
     def asound(self):
         """returns speed of sound"""
-- 
2.43.0


From 93636c084b17d4a0f0f8fe56a2f076ef9279f24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 05/53] fix: model1D.state_isentropic_Mach conserves total
 pressure and gamma

---
 aerokit/aero/model1D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/model1D.py b/aerokit/aero/model1D.py
index 1598d7f..a175cfe 100644
--- a/aerokit/aero/model1D.py
+++ b/aerokit/aero/model1D.py
@@ -50,9 +50,9 @@ class state:
 
     def state_isentropic_Mach(self, Mach):
         """return state defined by Mach number through isoenergetic isentropic transformation"""
-        ps = self.rTtot() / Is.PtPs_Mach(Mach, self._gamma)
+        ps = self.Ptot() / Is.PtPs_Mach(Mach, self._gamma)
         rts = self.rTtot() / Is.TtTs_Mach(Mach, self._gamma)
-        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps)
+        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_M(self, pt, rtt, M):
         ps = pt / Is.PtPs_Mach(M, self._gamma)
-- 
2.43.0


From 0478458b709e213f1a27aaba77c895d612e63a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 06/53] fix: model1D.state.copy does not share arrays with the
 original

---
 aerokit/aero/model1D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/model1D.py b/aerokit/aero/model1D.py
index a175cfe..f104772 100644
--- a/aerokit/aero/model1D.py
+++ b/aerokit/aero/model1D.py
@@ -2,6 +2,7 @@
   representation of 1D flows
 """
 
+import copy
 import numpy as np
 from aerokit.common import defaultgas as defg
 from aerokit.aero import Isentropic as Is
@@ -38,7 +39,7 @@ class state:
         return self.rho.size if isinstance(self.rho, np.ndarray) else 1
 
     def copy(self):
-        return state(self.rho, self.u, self.p, self._gamma)
+        return copy.deepcopy(self)
 
     def state_RH(self):
         """return Rankine-Hugoniot jump state"""
-- 
2.43.0


From f8fd788bde1312e7a5947d443654274abae9ad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 07/53] fix: riemann_pb shock speeds are well defined for
 vanishing shocks

---
 aerokit/instance/riemann.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 4086611..9856dad 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -18,6 +18,7 @@
 import math
 import numpy as np
 from scipy.optimize import newton
+import aerokit.aero.ShockWave as sw
 import aerokit.aero.unsteady1D as uq
 
 # ===============================================================
@@ -50,7 +51,7 @@ class riemann_pb:
         # finalize qstarL state
         if self._pstar > self._qL.p:
             _rho = self._qL.rho_through_shock(self._pstar)
-            _wsh = (self._qL.massflow() - _rho * self._ustar) / (self._qL.rho - _rho)
+            _wsh = self._qL.u - self._qL.asound() * sw.Mn_Ps_ratio(self._pstar / self._qL.p, self._qL._gamma)
             self._waves[0] = _wsh
             self._waves[1] = _wsh
             self._qstarL = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qL._gamma)
@@ -63,7 +64,7 @@ class riemann_pb:
         # finalize qstarR state
         if self._pstar > self._qR.p:
             _rho = self._qR.rho_through_shock(self._pstar)
-            _wsh = (self._qR.massflow() - _rho * self._ustar) / (self._qR.rho - _rho)
+            _wsh = self._qR.u + self._qR.asound() * sw.Mn_Ps_ratio(self._pstar / self._qR.p, self._qR._gamma)
             self._waves[3] = _wsh
             self._waves[4] = _wsh
             self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)
-- 
2.43.0


From ed97823febe1c86bacb356eeb6887abf36c33d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 08/53] fix: riemann_pb.qsol at the tail of the right expansion
 is not the left state

---
 aerokit/instance/riemann.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 9856dad..acd0006 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -119,7 +119,7 @@ class riemann_pb:
             rho[i] = self._qL.rho_through_isentropic(p[i])
         # if right expansion
         if self._pstar < self._qR.p:
-            i = np.logical_and((xot > self._waves[3]), (xot < self._waves[4]))
+            i = np.logical_and((xot >= self._waves[3]), (xot < self._waves[4]))
             gam = self._qR._gamma
             gp1 = gam + 1.0
             gm1 = gam - 1.0
-- 
2.43.0


From 46f7b043d48cd6767bb71d7f2e0e4abf22740df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 09/53] fix: riemann_pb.qsol changes gamma at the contact
 discontinuity

---
 aerokit/instance/riemann.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index acd0006..434f5b5 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -126,7 +126,7 @@ class riemann_pb:
             u[i] = gm1 / gp1 * (self._qR.u + 2.0 / gm1 * (-self._qR.asound() + xot[i]))
             p[i] = self._qR.p * ((xot[i] - u[i]) / self._qR.asound()) ** (2.0 * gam / gm1)
             rho[i] = self._qR.rho_through_isentropic(p[i])
-        return uq.unsteady_state(rho, u, p, np.where(xot < 0.0, self._qL._gamma, self._qR._gamma))
+        return uq.unsteady_state(rho, u, p, np.where(xot < self._ustar, self._qL._gamma, self._qR._gamma))
 
     def left_fastest(self):
         return self._waves[0]
-- 
2.43.0


From 5b68a2275781ee44c5054ea64de0fb2d66d55d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 10/53] fix: riemann_pb solves every problem without vacuum
 (bracketed search)

---
 aerokit/instance/riemann.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 434f5b5..da820c0 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -17,7 +17,7 @@
 
 import math
 import numpy as np
-from scipy.optimize import newton
+from scipy.optimize import brentq
 import aerokit.aero.ShockWave as sw
 import aerokit.aero.unsteady1D as uq
 
@@ -181,8 +181,16 @@ class riemann_pb:
         ) ** (gam / gmusd)
 
     def _solve(self):
-        def du(p):
+        # solve for p**k which makes du (almost) linear through expansions, bracketed from vacuum
+        gam = 0.5 * (self._qL._gamma + self._qR._gamma)
+        k = 0.5 * (gam - 1.0) / gam
+
+        def du(pk):
+            p = pk ** (1.0 / k)
             return self._delta_uL(p) + self._delta_uR(p) + self._qR.u - self._qL.u
 
-        self._pstar = newton(du, self._pstar_estimate_expansion(), rtol=1e-10)
+        pk_max = max(self._qL.p, self._qR.p) ** k
+        while du(pk_max) < 0.0:
+            pk_max *= 2.0
+        self._pstar = brentq(du, 0.0, pk_max, xtol=1e-15 * pk_max) ** (1.0 / k)
         return
-- 
2.43.0


From 2cbd5a7cb13de3b6101af119e6cc14b7ebca0abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 11/53] fix: building a nozzle does not overwrite the saved
 default gas

---
 aerokit/instance/nozzle.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index f6a72be..ac565cc 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -169,13 +169,11 @@ class nozzle:
             self.AsoAc = section[-1] / np.min(section)
         self.AxoAc = section * self.AsoAc / section[-1]
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
-        defg.save_default()
         self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc)
         self._ref_rttot = ref_rttot
         self._scale_ps = scale_ps
         if NPR:
             self.set_NPR(NPR)
-        defg.restore_default()
         return
 
     def set_NPR(self, NPR):
-- 
2.43.0


From 00d4ae1f8becb0978baaaf5ad2f221ce541e8ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 12/53] fix: nozzle uses its own gamma in every regime

---
 aerokit/instance/nozzle.py | 39 ++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index ac565cc..e58a657 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -58,7 +58,7 @@ def NPR_shock_at_exit(AsAc):
     return Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
 
 
-def _NPR_Ms_list(AsAc):
+def _NPR_Ms_list(AsAc, gamma=defg._gamma):
     """
     Computes all NPR limits and associated exit Mach number
 
@@ -75,15 +75,22 @@ def _NPR_Ms_list(AsAc):
             .. seealso:: NPR_choked_subsonic(), NPR_choked_supersonic(), NPR_shock_at_exit()
             .. note:: available for scalar or array (numpy) computations
     """
-    Msub = mf.MachSub_Sigma(AsAc)
-    NPR0 = Is.PtPs_Mach(Msub)
-    Msup = mf.MachSup_Sigma(AsAc)
-    Msh = sw.downstream_Mn(Msup)
-    NPRsw = Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
-    NPR1 = Is.PtPs_Mach(Msup)
+    Msub = mf.MachSub_Sigma(AsAc, gamma)
+    NPR0 = Is.PtPs_Mach(Msub, gamma)
+    Msup = mf.MachSup_Sigma(AsAc, gamma)
+    Msh = sw.downstream_Mn(Msup, gamma)
+    NPRsw = Is.PtPs_Mach(Msh, gamma) / sw.Pi_ratio(Msup, gamma)
+    NPR1 = Is.PtPs_Mach(Msup, gamma)
     return NPR0, NPRsw, NPR1, Msub, Msh, Msup
 
 
+def _Ms_shock_in_diffuser(AsAc, NPR, gamma):
+    """exit Mach number of a choked nozzle with a shock in the diffuser"""
+    gmu = gamma - 1.0
+    K = NPR / AsAc / ((gamma + 1.0) / 2) ** ((gamma + 1.0) / 2 / gmu)
+    return np.sqrt((np.sqrt(1.0 + 2.0 * gmu * K * K) - 1.0) / gmu)
+
+
 def Ms_from_AsAc_NPR(AsAc, NPR):
     """
     Computes Mach number at exit of a nozzle given As/Ac and NPR
@@ -169,7 +176,9 @@ class nozzle:
             self.AsoAc = section[-1] / np.min(section)
         self.AxoAc = section * self.AsoAc / section[-1]
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
-        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc)
+        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(
+            self.AsoAc, gamma
+        )
         self._ref_rttot = ref_rttot
         self._scale_ps = scale_ps
         if NPR:
@@ -185,7 +194,7 @@ class nozzle:
         self._Pt = np.ones_like(self.AxoAc)
         if NPR < self.NPR0:
             _Ms = Is.Mach_PtPs(NPR, gamma=self.gamma)
-            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms), gamma=self.gamma)
+            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms, self.gamma), gamma=self.gamma)
             self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
         else:
             self._M = np.ones_like(self.AxoAc)
@@ -193,14 +202,16 @@ class nozzle:
             self._M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
             if NPR < self.NPRsw:
                 # analytical solution for Ms, losses and upstream Mach number of shock wave
-                Ms = Ms_from_AsAc_NPR(self.AsoAc, NPR)
-                Ptloss = Is.PtPs_Mach(Ms) / NPR
-                Msh = sw.Mn_Pi_ratio(Ptloss)
+                Ms = _Ms_shock_in_diffuser(self.AsoAc, NPR, self.gamma)
+                Ptloss = Is.PtPs_Mach(Ms, self.gamma) / NPR
+                Msh = sw.Mn_Pi_ratio(Ptloss, self.gamma)
                 # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
                 ish = np.abs(self._M - Msh).argmin()
-                self._M[ish:] = mf.MachSub_Sigma(self.AxoAc[ish:] * mf.Sigma_Mach(Ms) / self.AsoAc)
+                self._M[ish:] = mf.MachSub_Sigma(
+                    self.AxoAc[ish:] * mf.Sigma_Mach(Ms, self.gamma) / self.AsoAc, gamma=self.gamma
+                )
                 self._Pt[ish:] = Ptloss
-            self._Ps = self._Pt / Is.PtPs_Mach(self._M)
+            self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
 
     def Mach(self):
         return self._M
-- 
2.43.0


From c5e379ed71407ff4a83ae68e406681d5cf969c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 13/53] fix: nozzle distributions have no NaN near choking or
 for shocks close to the throat

---
 aerokit/instance/nozzle.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index e58a657..63277da 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -194,7 +194,9 @@ class nozzle:
         self._Pt = np.ones_like(self.AxoAc)
         if NPR < self.NPR0:
             _Ms = Is.Mach_PtPs(NPR, gamma=self.gamma)
-            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms, self.gamma), gamma=self.gamma)
+            # rounding errors must not make section ratio lower than critical
+            _sigma = np.maximum(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms, self.gamma), 1.0)
+            self._M = mf.MachSub_Sigma(_sigma, gamma=self.gamma)
             self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
         else:
             self._M = np.ones_like(self.AxoAc)
@@ -205,11 +207,11 @@ class nozzle:
                 Ms = _Ms_shock_in_diffuser(self.AsoAc, NPR, self.gamma)
                 Ptloss = Is.PtPs_Mach(Ms, self.gamma) / NPR
                 Msh = sw.Mn_Pi_ratio(Ptloss, self.gamma)
-                # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
-                ish = np.abs(self._M - Msh).argmin()
-                self._M[ish:] = mf.MachSub_Sigma(
-                    self.AxoAc[ish:] * mf.Sigma_Mach(Ms, self.gamma) / self.AsoAc, gamma=self.gamma
-                )
+                # redefine curves starting from 'ish' index (first point downstream of Msh in supersonic part)
+                ish = self.ithroat + 1
+                ish += np.append(self._M[ish:-1] >= Msh, True).argmax()
+                _sigma = np.maximum(self.AxoAc[ish:] * mf.Sigma_Mach(Ms, self.gamma) / self.AsoAc, 1.0)
+                self._M[ish:] = mf.MachSub_Sigma(_sigma, gamma=self.gamma)
                 self._Pt[ish:] = Ptloss
             self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
 
-- 
2.43.0


From 944e55b7bb7dfdc6945a1326d23ee7c58dba4a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 14/53] fix: LinOperator operators are updated after a change
 of base state or BC

---
 aerokit/stability/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 712e5f7..049cf34 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -27,6 +27,7 @@ class LinOperator:
     def set_basestate(self, state: Any):
         """set base state as it will be used by derived class"""
         self._basestate = state
+        self._B = None  # operators must be computed again
 
     def _check_BC(self, bc: Any):
         """BC should be a dict with at least a 'type' key"""
@@ -37,6 +38,7 @@ class LinOperator:
 
     def set_BC(self, Ltype: Any, Rtype: Any):
         self._BC_type = [self._check_BC(Ltype), self._check_BC(Rtype)]
+        self._B = None  # operators must be computed again
 
     def check_basestate(self):
         return self._basestate is not None
-- 
2.43.0


From b213730f186a030d6e0e6fec9fefaa427276e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 15/53] fix: Euler1D does not alter the BC definition given by
 the user

---
 aerokit/stability/Euler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/stability/Euler.py b/aerokit/stability/Euler.py
index d6f5428..083e1f5 100644
--- a/aerokit/stability/Euler.py
+++ b/aerokit/stability/Euler.py
@@ -75,10 +75,10 @@ class Euler1D(LinOperator):
             assert self._BC_type[1]["type"] == "per"
             self.setBC_per()
         else:
-            bcdict = self._BC_type[0]
+            bcdict = dict(self._BC_type[0])
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](0, 0, **bcdict)
-            bcdict = self._BC_type[1]
+            bcdict = dict(self._BC_type[1])
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](n - 1, n - 1, **bcdict)
 
-- 
2.43.0


From 6db94f562fbeedcf8cca594ef44382667a86e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 16/53] fix: select_and_sort does not change numpy print
 options

---
 aerokit/stability/_base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 049cf34..7b095e3 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -65,7 +65,6 @@ class LinOperator:
         condition = (vp.real < realmax) & (vp.real >= realmin) & (vp.imag > imagmin) & (vp.imag < imagmax)
         vals = np.compress(condition, self._vals)
         vects = np.compress(condition, self._vects, axis=1)
-        np.set_printoptions(formatter={"float_kind": "{:.4f}".format})
         print(f"{vals.size}/{vp.size} remaining eigenvalues")
         sortmethod = {
             "real": np.real,
-- 
2.43.0


From 44c9b6f181da18475718ee3281e15fb113cab64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 17/53] fix: RKF45 reaches xStop even if the last step is
 rejected

---
 aerokit/common/_ode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index 3c921d2..563d413 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -86,5 +86,7 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
         if (h > 0.0) == ((x + hNext) >= xStop):
             hNext = xStop - x
             stopper = 1
+        else:
+            stopper = 0
         h = hNext
     return np.array(X), np.array(Y)
-- 
2.43.0


From 1684ac162af63cf3f3c2448ef82c2787d395c1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 18/53] fix: imports of aero.Propulsion and common.extendvar

---
 aerokit/aero/Propulsion.py  | 2 +-
 aerokit/common/extendvar.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/Propulsion.py b/aerokit/aero/Propulsion.py
index daf863b..ec807e0 100644
--- a/aerokit/aero/Propulsion.py
+++ b/aerokit/aero/Propulsion.py
@@ -3,7 +3,7 @@
 """
 import aerokit.aero.Isentropic as Is
 import aerokit.aero.MassFlow as mf
-import aerokit.IterativeSolve as ITS
+import aerokit.aero.IterativeSolve as ITS
 
 
 def ThrustFunction(Mach, gamma=1.4):
diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index 853aeef..a1ca824 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -13,7 +13,7 @@ Examples
 Notes
 -----
 """
-from dicovar import dicoVar as dico
+from aerokit.common.dicovar import dicoVar as dico
 
 # -----------------------------------------------------------------
 
-- 
2.43.0


From 170672e756e52a0e42370f6cebf3704d934b12dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 19/53] fix: setDicoVar keeps the current database if software
 is unknown

---
 aerokit/common/dicovar.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/aerokit/common/dicovar.py b/aerokit/common/dicovar.py
index 041326e..6bd6480 100644
--- a/aerokit/common/dicovar.py
+++ b/aerokit/common/dicovar.py
@@ -103,10 +103,6 @@ class _DicoVar(object):
 
     def __init__(self, software):
 
-        # Internal variables definitions
-        self._dv = {}
-        self._softName = ''
-
         # Setting database
         softOK = False
         for soft in _dataBase:
-- 
2.43.0


From cae6ea0a059c2e928c60b26e09a542d13c9a5e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 20/53] fix: DicoVar variable names handle capital letters as
 documented

---
 aerokit/common/dicovar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/common/dicovar.py b/aerokit/common/dicovar.py
index 6bd6480..9738fa7 100644
--- a/aerokit/common/dicovar.py
+++ b/aerokit/common/dicovar.py
@@ -133,6 +133,8 @@ class _DicoVar(object):
         """
         if var in self._dv:
             return self._dv[var]
+        elif var.lower() in self._dv:
+            return self._dv[var.lower()]
         else:
             raise ValueError('{} variable not in {} database dictionnary'.format(var, self._softName))
 
-- 
2.43.0


From 47128845d052d93fca77f082eb439ede9e66ed69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 21/53] fix: combustion efficiency, not pressure loss, in
 fuel-air ratio

---
 aerokit/engine/gasgenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aerokit/engine/gasgenerator.py b/aerokit/engine/gasgenerator.py
index e315101..5bebe30 100644
--- a/aerokit/engine/gasgenerator.py
+++ b/aerokit/engine/gasgenerator.py
@@ -56,6 +56,7 @@ class base():
         self.r_cold    = r_cold
         self.r_hot     = r_hot
         self.xi_cc     = xi_cc
+        self.eta_cc    = eta_cc
         self.xi_inlet  = xi_inlet
         self.etapolCHP = etapolCHP
         self.etapolTHP = etapolTHP
@@ -80,7 +81,7 @@ class base():
         self.Pt4 = self.Pt3*self.xi_cc
         gh  = self.gam_hot
         cph = gh*self.r_hot/(gh-1.)
-        self.far = (cph*self.Tt4 - cpc*self.Tt3)/(self.xi_cc*self.Pci - cph*self.Tt4)
+        self.far = (cph*self.Tt4 - cpc*self.Tt3)/(self.eta_cc*self.Pci - cph*self.Tt4)
         self.Tt45 = self.Tt4 - cpc*(self.Tt3-self.Tt2)/(self.eta_shaft*cph*(1.+self.far))
         #print self.Tt3, self.Pt4, self.Tt45, self.Tt4, self.far
         self.Pt45 = self.Pt4*(self.Tt45/self.Tt4)**(gh/((gh-1.)*self.etapolTHP))
-- 
2.43.0


From b90b715e97f7584a35584fcc7a899573a0b716f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 22/53] fix: ideal turbine work of gas generator is
 cp*(Tt45-T19)

---
 aerokit/engine/gasgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/gasgenerator.py b/aerokit/engine/gasgenerator.py
index 5bebe30..0d09c0b 100644
--- a/aerokit/engine/gasgenerator.py
+++ b/aerokit/engine/gasgenerator.py
@@ -92,7 +92,7 @@ class base():
     def Wsp_TBP_ideal(self, P19=None):
         if P19 is None: P19=self.P0
         gogm1 = self.gam_hot/(self.gam_hot-1.)
-        return (1.+self.far)*gogm1*self.r_hot/(self.gam_hot-1.)*self.Tt45*((P19/self.Pt45)**(1./gogm1)-1.)
+        return (1.+self.far)*gogm1*self.r_hot*self.Tt45*(1.-(P19/self.Pt45)**(1./gogm1))
 
     def thermal_efficiency(self):
         return self.Wsp_TBP_ideal()/self.Wsp_cc()
-- 
2.43.0


From 51a8b3300114a3f7ffe06d35252943673ee4fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 23/53] fix: turbofan_adapt takes its nozzle pressure loss into
 account

---
 aerokit/engine/turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/turbofan.py b/aerokit/engine/turbofan.py
index 4b90a7a..766897b 100644
--- a/aerokit/engine/turbofan.py
+++ b/aerokit/engine/turbofan.py
@@ -51,7 +51,7 @@ class turbofan_adapt(tj.turbojet_opt):
                                  xi_inlet=1., xi_nozzle=1., xi_cc=1., eta_cc=1., Pci=42.8e6,
                                  etapolCHP=1., etapolTHP=1., etapolTBP=1., etapolfan=1., eta_shaft=1.):
         tj.turbojet_opt.__init__(self, OPR, Tt4, gam_cold=gam_cold, gam_hot=gam_hot, r_cold=r_cold, r_hot=r_hot,
-                                 xi_inlet=xi_inlet, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
+                                 xi_inlet=xi_inlet, xi_nozzle=xi_nozzle, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
                                  etapolCHP=etapolCHP, etapolTHP=etapolTHP, eta_shaft=eta_shaft)
         self.bpr            = bpr
         self.etapolfan      = etapolfan
-- 
2.43.0


From a8945c6d03649840ebb4ed0537dee7744e05daff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 24/53] fix: fan stage uses fan polytropic efficiency

---
 aerokit/engine/Cycle_Turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 61eb5b0..53468ee 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -178,7 +178,7 @@ class cycle_taux_fan_fixe(cycle_1_to_4):
     def stage_13(self):
         if self.current_stage_corps >= 2:
             self.m_f = self.m * self.lambda_ / (self.lambda_ + 1.)
-            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_c)
+            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_f)
             self.Pt13 = self.Pt2 * self.pi_f
             self.wu_f = self.m_f * self.g.get_cp() * (self.Tt13 - self.Tt2)
             self.current_stage_fan = 13
-- 
2.43.0


From 282f0f10db0fcce66f2c285c746e043d61fcf19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 25/53] fix: specific fuel consumption is in g/kN/s

---
 aerokit/engine/Cycle_Turbofan.py        | 4 ++--
 aerokit/engine/propu_be.py              | 2 +-
 aerokit/engine/propu_be_double_corps.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 53468ee..7233435 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -214,7 +214,7 @@ class cycle_taux_fan_fixe(cycle_1_to_4):
         if (self.current_stage_corps == 9 and self.current_stage_fan == 19):
             self.F = self.F_f + self.F_c
             self.F_spe = self.F / self.m
-            self.mk_spe = (self.m_k / self.F)*10e6
+            self.mk_spe = (self.m_k / self.F)*1e6
             Qf = self.g_fuel.P_k * self.m_k
             delta_E = .5*(self.m_c*((1. + self.alpha)*self.V9**2 - self.V0**2) + self.m_f*(self.V19**2 - self.V0**2))
             self.eta_th = delta_E / Qf
@@ -320,7 +320,7 @@ class cycle_taux_fan_calcule(cycle_1_to_4):
         if (self.current_stage_corps == 9 and self.current_stage_fan == 19):
             self.F = self.F_f + self.F_c
             self.F_spe = self.F / self.m
-            self.mk_spe = (self.m_k / self.F)*10e6
+            self.mk_spe = (self.m_k / self.F)*1e6
             Qf = self.g_fuel.P_k * self.m_k
             delta_E = .5*(self.m_c*((1. + self.alpha)*self.V9**2 - self.V0**2) + self.m_f*(self.V19**2 - self.V0**2))
             self.eta_th = delta_E / Qf
diff --git a/aerokit/engine/propu_be.py b/aerokit/engine/propu_be.py
index 950afb9..99ad35d 100644
--- a/aerokit/engine/propu_be.py
+++ b/aerokit/engine/propu_be.py
@@ -74,7 +74,7 @@ def calculs(lambda_, pi_c, Tt4, pi_f, m):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = (1/2)*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
diff --git a/aerokit/engine/propu_be_double_corps.py b/aerokit/engine/propu_be_double_corps.py
index 2296e5a..1cda39a 100644
--- a/aerokit/engine/propu_be_double_corps.py
+++ b/aerokit/engine/propu_be_double_corps.py
@@ -90,7 +90,7 @@ def calculs(lambda_, pi_c, Tt4, m, taux_meca):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = .5*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
@@ -217,7 +217,7 @@ def calculs_tau_optimum(lambda_, pi_c, Tt4, m):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = (1/2)*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
-- 
2.43.0


From a6083b56904eac050a43fdb0e84f2afd2ab201af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 26/53] fix: inflow_pb solution is scalar as its initial state

---
 aerokit/instance/unsteady_inflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/instance/unsteady_inflow.py b/aerokit/instance/unsteady_inflow.py
index 4d4f8df..9362d5a 100644
--- a/aerokit/instance/unsteady_inflow.py
+++ b/aerokit/instance/unsteady_inflow.py
@@ -94,7 +94,7 @@ class inflow_pb:
         def dpt(p):
             return self._pt0_from_pstar_rtt0(p, rtt0) - pt0
 
-        self._pstar = fsolve(dpt, self._pstar_estimate_expansion(pt0), xtol=1e-10)
+        self._pstar = fsolve(dpt, self._pstar_estimate_expansion(pt0), xtol=1e-10).item()
         self._ustar = self._qR.u + self._delta_uR(self._pstar)
         # finalize qstarR state
         if self._pstar > self._qR.p:
-- 
2.43.0


From 7b00012ee0a662a215271b2148e6ce99ba828625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 27/53] fix: strong shock angle is +90 degrees for a null
 deflection

---
 aerokit/aero/ShockWave.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 5f7f732..d5b6cd6 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -223,7 +223,8 @@ def strongsigma_Mach_deflection(Mach, deflection, gamma=defg._gamma):
     else:
         phi = np.arccos(-0.5 * ke / np.sqrt(kd ** 3)) + 4 * math.pi
         kf = 2.0 * np.sqrt(kd) * np.cos(phi / 3.0) - ka / 3.0
-        return degree.atan(1.0 / kf)
+        # kf sign is only a rounding error for a vanishing deflection (normal shock)
+        return np.copysign(degree.atan(1.0 / kf), deflection)
 
 
 def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
-- 
2.43.0


From b8f1d90ac3b626048121df378a22cbcaeb98f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 28/53] fix: sigma_Mach_deflection is odd for negative and
 defined for null deflections

---
 aerokit/aero/ShockWave.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index d5b6cd6..9697ea0 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -240,7 +240,7 @@ def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
 
     """
     if init is None:
-        sig0 = degree.asin(1.0 / Mach) + deflection
+        sig0 = degree.asin(1.0 / Mach) + np.abs(deflection)
     else:
         sig0 = init
 
@@ -255,7 +255,7 @@ def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
         """
         return deflection_Mach_sigma(Mach, sig, gamma)
 
-    return ITS.secant_solve(local_f, np.abs(deflection), sig0) * np.sign(deflection)
+    return ITS.secant_solve(local_f, np.abs(deflection), sig0) * np.where(np.less(deflection, 0.0), -1.0, 1.0)
 
 
 def dev_Max(Mach, gamma=defg._gamma):
-- 
2.43.0


From e9e121c42780de63a9f0fd68a346cac96245b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 29/53] fix: conical deflection of a Mach wave or a normal
 shock is null instead of an endless integration

---
 aerokit/aero/ShockWave.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 9697ea0..6c72520 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -370,6 +370,8 @@ def conical_deflection_Mach_sigma(Mach, sigma, gamma=defg._gamma, tol=1.0e-6):
 
     # initial data for integration from downstream shock to wall
     th = deflection_Mach_sigma(Mach, sigma, gamma)
+    if th <= 1.0e-10:  # Mach wave or normal shock: no deflection, nothing to integrate
+        return 0.0
     ma = downstream_Mn(Mach * degree.sin(sigma), gamma) / degree.sin(sigma - th)
     phi = sigma
     thma = np.array([th, ma])
-- 
2.43.0


From 7e37f5b7592fa55a74f6cd30d3785fa6815d5b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 30/53] fix: conical shock angle is the weak solution for any
 attached cone (no endless iteration)

---
 aerokit/aero/ShockWave.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 6c72520..8a2b652 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -5,6 +5,7 @@
 import math
 import aerokit.aero.IterativeSolve as ITS
 import numpy as np
+from scipy.optimize import brentq, minimize_scalar
 import aerokit.aero.Isentropic as Is
 import aerokit.aero.degree as degree
 from aerokit.common import defaultgas as defg  # relative import is deprecated by doctest
@@ -396,6 +397,7 @@ def conical_deflection_Mach_sigma(Mach, sigma, gamma=defg._gamma, tol=1.0e-6):
     return deflection
 
 
+@np.vectorize
 def conical_sigma_Mach_walldeflection(Mach, deflection, gamma=defg._gamma):
     """computes shock angle sigma from upstream Mach number and wall deflection
 
@@ -408,11 +410,22 @@ def conical_sigma_Mach_walldeflection(Mach, deflection, gamma=defg._gamma):
 
     """
 
-    def local_def(sig):
-        """internal wrapping function to iterative solve"""
-        return conical_deflection_Mach_sigma(Mach, sig, gamma)
+    mu = degree.asin(1.0 / Mach)
+
+    def sigma(t):
+        """shock angle, from Mach wave (t=0) to normal shock (t=1); cone angle is nearly linear in t for weak shocks"""
+        return mu + (90.0 - mu) * t ** 4
 
-    return ITS.secant_solve(local_def, deflection, degree.asin(1.0 / Mach) + deflection)
+    def local_def(t):
+        """internal wrapping function to iterative solve"""
+        return conical_deflection_Mach_sigma(Mach, sigma(t), gamma)
+
+    # weak shock solution is bracketed by Mach wave and maximum deflection
+    tmax = minimize_scalar(lambda t: -local_def(t), bounds=(0.0, 1.0), method="bounded").x
+    if deflection > local_def(tmax):
+        print("no conical shock wave solution")
+        return mu
+    return sigma(brentq(lambda t: local_def(t) - deflection, 0.0, tmax, xtol=1.0e-9))
 
 
 def conical_Mach_walldeflection_sigma(deflection, sigma, gamma=defg._gamma):
-- 
2.43.0


From 114c0310ebbab01ea24ed3188f5b47613729773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 31/53] fix: inflow problem is bracketed up to the limit
 velocity (no NaN for a cold reservoir)

---
 aerokit/instance/unsteady_inflow.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/unsteady_inflow.py b/aerokit/instance/unsteady_inflow.py
index 9362d5a..03235ba 100644
--- a/aerokit/instance/unsteady_inflow.py
+++ b/aerokit/instance/unsteady_inflow.py
@@ -21,7 +21,7 @@
 
 import math
 import numpy as np
-from scipy.optimize import fsolve
+from scipy.optimize import brentq, fsolve
 import aerokit.aero.ShockWave as sw
 import aerokit.aero.unsteady1D as uq
 
@@ -94,7 +94,17 @@ class inflow_pb:
         def dpt(p):
             return self._pt0_from_pstar_rtt0(p, rtt0) - pt0
 
-        self._pstar = fsolve(dpt, self._pstar_estimate_expansion(pt0), xtol=1e-10).item()
+        def dps(p):
+            # monotone form (static pressure expected for this velocity), valid up to the limit velocity
+            ustar = self._qR.u + self._delta_uR(p)
+            gam = self._qR._gamma
+            rts = max(rtt0 - 0.5 * (gam - 1.0) / gam * ustar * abs(ustar), 0.0)
+            return p - pt0 * (rts / rtt0) ** (gam / (gam - 1.0))
+
+        if dps(pt0) >= 0.0:  # actual inflow
+            self._pstar = brentq(dps, 0.0, pt0, xtol=1e-14 * pt0)
+        else:
+            self._pstar = fsolve(dpt, self._pstar_estimate_expansion(pt0), xtol=1e-10).item()
         self._ustar = self._qR.u + self._delta_uR(self._pstar)
         # finalize qstarR state
         if self._pstar > self._qR.p:
-- 
2.43.0


From 722e39ff1ab1677a92f84fc2ed00724f145f6277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 32/53] fix: choked flow of a converging nozzle is defined (no
 diverging part)

---
 aerokit/instance/nozzle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index 63277da..c52a5e0 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -201,8 +201,10 @@ class nozzle:
         else:
             self._M = np.ones_like(self.AxoAc)
             self._M[: self.ithroat + 1] = mf.MachSub_Sigma(self.AxoAc[: self.ithroat + 1], gamma=self.gamma)
-            self._M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
-            if NPR < self.NPRsw:
+            diverging = self.ithroat + 1 < np.size(self._M)  # converging nozzle: throat is the exit
+            if diverging:
+                self._M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
+            if diverging and NPR < self.NPRsw:
                 # analytical solution for Ms, losses and upstream Mach number of shock wave
                 Ms = _Ms_shock_in_diffuser(self.AsoAc, NPR, self.gamma)
                 Ptloss = Is.PtPs_Mach(Ms, self.gamma) / NPR
-- 
2.43.0


From 5b515ccf1f196623c2e27a13ddcc9896594c4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 33/53] fix: RKF45 does not integrate beyond xStop when the
 first step is too long

---
 aerokit/common/_ode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index 563d413..a63d645 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -66,6 +66,10 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
     X.append(x)
     Y.append(y)
     stopper = 0  # Integration stopper(0 = off, 1 = on)
+    # first step must not go beyond the end of integration range
+    if (h > 0.0) == ((x + h) >= xStop):
+        h = xStop - x
+        stopper = 1
     for i in range(10000):
         dy, e = _rkf45(F, x, y, h)
         # Accept integration step if error e is within tolerance
-- 
2.43.0


From ef6c4857b9d0a1a51acab6f7b9350af27caad031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 34/53] fix: incomplete stability operators are not returned
 after a failed computation

---
 aerokit/stability/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 7b095e3..ae97b8f 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -51,7 +51,11 @@ class LinOperator:
 
     def get_RHS_time_matrices(self):
         if self._B is None:
-            self.compute_operators()
+            try:
+                self.compute_operators()
+            except Exception:
+                self._B = None  # incomplete operators (BC missing for instance) must not be used
+                raise
         return self._B, self._At
 
     def solve_eig(self):
-- 
2.43.0


From ce53f0d4294f42ab537343d717476942ac993765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 35/53] fix: eigenpair convergence does not return NaN when
 iterated beyond convergence

---
 aerokit/stability/_base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index ae97b8f..c760ac1 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -95,12 +95,15 @@ class LinOperator:
             # w, *_ = nplin.lstsq(B-new_omega*M, new_eigm, rcond=None)
             try:
                 w = nplin.solve(B - new_omega * M, new_eigm)
-                new_eigm = w / nplin.norm(w)
+                norm = nplin.norm(w)
+                if not np.isfinite(norm):
+                    break  # converged: matrix is nearly singular
+                new_eigm = w / norm
                 new_omega = np.vdot(new_eigm, B @ new_eigm) / np.vdot(new_eigm, M @ new_eigm)
                 # print(i, nplin.norm((B-new_omega*M)@ new_eigm), new_omega)
             except nplin.LinAlgError as err:
                 if "Singular matrix" in str(err):
-                    exit
+                    break  # converged: matrix is singular
                 else:
                     raise
         return new_omega, new_eigm
-- 
2.43.0


From f4e2165f9b0442116b7736366f5f572322299013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 36/53] fix: core nozzle of a turbofan is defined when all the
 available power drives the fan

---
 aerokit/engine/turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/turbofan.py b/aerokit/engine/turbofan.py
index 766897b..3a29c4c 100644
--- a/aerokit/engine/turbofan.py
+++ b/aerokit/engine/turbofan.py
@@ -66,7 +66,7 @@ class turbofan_adapt(tj.turbojet_opt):
         self.Tt5  = self.Tt45 - Wsp_mono*self.fanpower_ratio/cph/(1.+self.far)
         self.Pt5  = self.Pt45*(self.Tt5/self.Tt45)**(gh/((gh-1.)*self.etapolTBP))
         # core nozzle
-        self.Pt9 = self.Pt5 * self.xi_nozzle
+        self.Pt9 = np.maximum(self.Pt5 * self.xi_nozzle, self.P0)
         self.M9  = Is.Mach_PtPs(self.Pt9/self.P0, gamma=self.gam_hot)
         self.V9  = Is.Velocity_MachTi(self.M9, self.Tt5, r=self.r_hot, gamma=self.gam_hot)
         # fan
-- 
2.43.0


From 86f77401eb644e6e02cfc7e81c939b69c3d236db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 37/53] fix: fan stages of a cycle are computed again after new
 initial values

---
 aerokit/engine/Cycle_Turbofan.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 7233435..4605ce5 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -102,6 +102,7 @@ class cycle_1_to_4:
         self.Tt0 = self.T0 * Is.TtTs_Mach(Mach=self.M0, gamma=self.g.gamma)
         self.V0 = self.M0 * np.sqrt(self.g.gamma * self.g.r * self.T0)
         self.current_stage_corps = 1
+        self.current_stage_fan = 0 # fan stages depend on initial values
         
     def stage_2(self):
         if self.current_stage_corps == 1:
-- 
2.43.0


From c550ffdda793fbb1593135e0464daceaff2b9d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 38/53] fix: optimum fan temperature ratio makes both exhaust
 velocities equal for an ideal cycle

---
 aerokit/engine/propu_be_double_corps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/engine/propu_be_double_corps.py b/aerokit/engine/propu_be_double_corps.py
index 1cda39a..12df2a5 100644
--- a/aerokit/engine/propu_be_double_corps.py
+++ b/aerokit/engine/propu_be_double_corps.py
@@ -174,10 +174,10 @@ def calculs_tau_optimum(lambda_, pi_c, Tt4, m):
     cp = (r * gamma)/(gamma - 1)
     cp_ = (r_ * gamma_)/(gamma_ - 1)
     # Calculs fan
-    tau_lambda = (cp_ * Tt4)/(cp * Tt0)
+    tau_lambda = (cp_ * Tt4)/(cp * T0)
     tau_r = Tt0/T0
     tau_c = pi_c**((gamma - 1)/(eta_c * gamma))
-    tau_f = (tau_lambda*tau_r*(tau_c - 1) - (tau_lambda/(tau_r*tau_c)) + lambda_*tau_r + 1)/(tau_r*(1 + lambda_))
+    tau_f = (tau_lambda - tau_r*(tau_c - 1) - (tau_lambda/(tau_r*tau_c)) + lambda_*tau_r + 1)/(tau_r*(1 + lambda_))
     pi_f = tau_f**((eta_f*gamma)/(gamma - 1))
     Tt13 = Tt2 * tau_f
     Pt13 = Pt2 * pi_f
-- 
2.43.0


From c6c0fd1446a788c362f33b700a580721f2c2ed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 39/53] fix: extended variable Mx uses the current name of the
 velocity component

---
 aerokit/common/extendvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index a1ca824..f424282 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -34,6 +34,6 @@ def expressions_from_rhopv():
     extdico['V']    = 'mag('+dico['V']+')'
     extdico['a' ]   = _a
     extdico['Mach'] = 'mag('+dico['V']+')/'+_a
-    extdico['Mx']   = 'U_X/'+_a
+    extdico['Mx']   = dico['Vx']+'/'+_a
     extdico['alpha'] = 'atan('+dico['Vy']+'/'+dico['Vx']+')*180/acos(-1)'
     return extdico
\ No newline at end of file
-- 
2.43.0


From 8cdfd20932abdaae8ea525aee491f24893fd089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 40/53] fix: secant solver iterates from null or small starts
 instead of returning them

---
 aerokit/aero/IterativeSolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/IterativeSolve.py b/aerokit/aero/IterativeSolve.py
index e72433c..96a1853 100644
--- a/aerokit/aero/IterativeSolve.py
+++ b/aerokit/aero/IterativeSolve.py
@@ -11,9 +11,9 @@ def secant_solve(f, y, x, tol=0.00001):
     it    = 1
     old_x = x
     old_y = f(old_x)
-    new_x = x*0.999 
+    new_x = x*0.999 if x != 0 else 10*tol # first step must not be null
     #while (it < itmax) and np.any(abs(new_x-old_x) > np.maximum(tol,tol*abs(new_x))):
-    while (it < itmax) and (abs(new_x-old_x) > max(tol,tol*abs(new_x))):
+    while (it < itmax) and (it == 1 or abs(new_x-old_x) > max(tol,tol*abs(new_x))):
         new_y = f(new_x)
         next_x = new_x + (new_x-old_x)/(new_y-old_y)*(y-new_y)
         old_x = new_x
-- 
2.43.0


From f29b2890a08ae674431f5dea74a5b268b518cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:08 +0000
Subject: [PATCH 41/53] fix: symmetric copy of a state shares no data with the
 original

---
 aerokit/aero/unsteady1D.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/unsteady1D.py b/aerokit/aero/unsteady1D.py
index 952619e..d35dd82 100644
--- a/aerokit/aero/unsteady1D.py
+++ b/aerokit/aero/unsteady1D.py
@@ -36,7 +36,9 @@ class unsteady_state(model1D.state):
         return copy.deepcopy(self)
 
     def copysymmetric(self):
-        return unsteady_state(self.rho, -self.u, self.p, self._gamma)
+        sym = self.copy()
+        sym.u = -sym.u
+        return sym
 
     def _rankinehugoniot_from_ushock(self, ushock):
         """
-- 
2.43.0


From 2cdd4e82672774cbcbeb41c0ef2a5d941eea1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 42/53] fix: RKF45 silently returned a truncated integration
 after 10000 trial steps

---
 aerokit/common/_ode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index a63d645..c5797db 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -93,4 +93,6 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
         else:
             stopper = 0
         h = hNext
+    else:
+        raise RuntimeError(f"end of integration range {xStop} not reached, stopped at {x}")
     return np.array(X), np.array(Y)
-- 
2.43.0


From 41c39e404bfef655216db00cbf20611b5597c65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 43/53] fix: cone behind an almost normal shock, integration
 stepped on the axis and never ended

---
 aerokit/aero/ShockWave.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 8a2b652..dbaa326 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -379,6 +379,7 @@ def conical_deflection_Mach_sigma(Mach, sigma, gamma=defg._gamma, tol=1.0e-6):
     h = -phi / 10.0
     conv = phi
     while abs(conv) >= tol:
+        h = max(h, -0.5 * phi)  # equations are singular on the axis
         dthma, err = _rkf45(rhs, phi, thma, h)
         # Accept integration step if error e is within tolerance
         if err <= tol:
-- 
2.43.0


From 1dc3d498b5a30118bc8ee2b2ef08a6f819985f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:24 +0000
Subject: [PATCH 44/53] fix: Mach number of a large section ratio fell on the
 other branch, negative, or was not found

---
 aerokit/aero/MassFlow.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index b1475df..f035690 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -50,8 +50,9 @@ def Mach_Sigma(sigma, Mach=2.0, gamma=defg._gamma):
 
 def MachSub_Sigma(sigma, gamma=defg._gamma):
     # initial guess
-    Mach = __MachSub_sigma(sigma, gamma)
-    return Mach_Sigma(sigma, Mach, gamma)
+    Mach = __MachSub_sigma(sigma, gamma) + 0.0 * gamma
+    # inverse of section ratio is nearly linear: iterations do not leave the branch for large sections
+    return newton(lambda m: 1.0 / Sigma_Mach(m, gamma) - 1.0 / sigma, Mach)
 
 
 def MachSup_Sigma(sigma, gamma=defg._gamma):
@@ -59,4 +60,6 @@ def MachSup_Sigma(sigma, gamma=defg._gamma):
     # cg = (gamma+1.)/(gamma-1.)
     # Mach = np.sqrt((sigma*cg**(.5*cg))**(2./(cg-1.))-cg)
     Mach = __MachSup_sigma(sigma, gamma)
-    return Mach_Sigma(sigma, Mach, gamma)
+    # this power of section ratio is nearly parabolic: few iterations even for low gamma and large sections
+    k = 2.0 * (gamma - 1.0) / (gamma + 1.0)
+    return newton(lambda m: np.expm1(k * np.log(Sigma_Mach(m, gamma) / sigma)), Mach)
-- 
2.43.0


From 32ba78d8d93e352c59531e586ffc27798b9816ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:31 +0000
Subject: [PATCH 45/53] fix: RKF45 dropped the imaginary part of complex
 unknowns

---
 aerokit/common/_ode.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index c5797db..8a5e1b6 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -32,8 +32,9 @@ def _rkf45(F, x, y, h):
     C = [37.0 / 378, 0.0, 250.0 / 621, 125.0 / 594, 0.0, 512.0 / 1771]
     D = [2825.0 / 27648, 0.0, 18575.0 / 48384, 13525.0 / 55296, 277.0 / 14336, 1.0 / 4]
     n = len(y)
-    K = np.zeros((6, n), dtype=np.float64)
-    K[0] = h * F(x, y)
+    K0 = h * F(x, y)
+    K = np.zeros((6, n), dtype=np.result_type(K0, y, np.float64))  # unknowns may be complex
+    K[0] = K0
     K[1] = h * F(x + 1.0 / 5 * h, y + 1.0 / 5 * K[0])
     K[2] = h * F(x + 3.0 / 10 * h, y + 3.0 / 40 * K[0] + 9.0 / 40 * K[1])
     K[3] = h * F(x + 3.0 / 5 * h, y + 3.0 / 10 * K[0] - 9.0 / 10 * K[1] + 6.0 / 5 * K[2])
@@ -55,7 +56,7 @@ def _rkf45(F, x, y, h):
         dy = dy + C[i] * K[i]
         E = E + (C[i] - D[i]) * K[i]
     # Compute RMS error e
-    e = np.sqrt(np.sum(E ** 2) / n)
+    e = np.sqrt(np.sum(np.abs(E) ** 2) / n)
     return dy, e
 
 
-- 
2.43.0


From 51d5cd0f4d72159d9254b5b12a5637e99dc47771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:23 +0000
Subject: [PATCH 46/53] fix: inverses of mass-flow and Prandtl-Meyer functions
 did not converge for single precision values

---
 aerokit/aero/MassFlow.py   | 6 +++---
 aerokit/aero/Supersonic.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index f035690..8c43656 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -39,7 +39,7 @@ def Mach_Sigma(sigma, Mach=2.0, gamma=defg._gamma):
     if np.size(Mach) != 1:
         Minit = np.where(Mach <= 1.0, __MachSub_sigma(sigma, gamma), __MachSup_sigma(sigma, gamma))
     else:
-        Minit = Mach
+        Minit = np.float64(Mach)
 
     def sigma_of_mach(m):
         return Sigma_Mach(m, gamma) - sigma
@@ -52,7 +52,7 @@ def MachSub_Sigma(sigma, gamma=defg._gamma):
     # initial guess
     Mach = __MachSub_sigma(sigma, gamma) + 0.0 * gamma
     # inverse of section ratio is nearly linear: iterations do not leave the branch for large sections
-    return newton(lambda m: 1.0 / Sigma_Mach(m, gamma) - 1.0 / sigma, Mach)
+    return newton(lambda m: 1.0 / Sigma_Mach(m, gamma) - 1.0 / sigma, np.float64(Mach))
 
 
 def MachSup_Sigma(sigma, gamma=defg._gamma):
@@ -62,4 +62,4 @@ def MachSup_Sigma(sigma, gamma=defg._gamma):
     Mach = __MachSup_sigma(sigma, gamma)
     # this power of section ratio is nearly parabolic: few iterations even for low gamma and large sections
     k = 2.0 * (gamma - 1.0) / (gamma + 1.0)
-    return newton(lambda m: np.expm1(k * np.log(Sigma_Mach(m, gamma) / sigma)), Mach)
+    return newton(lambda m: np.expm1(k * np.log(Sigma_Mach(m, gamma) / sigma)), np.float64(Mach))
diff --git a/aerokit/aero/Supersonic.py b/aerokit/aero/Supersonic.py
index 4f8e518..3f2f0c3 100644
--- a/aerokit/aero/Supersonic.py
+++ b/aerokit/aero/Supersonic.py
@@ -66,7 +66,7 @@ def Mach_PrandtlMeyer(omega, gamma=defg._gamma):
         return PrandtlMeyer_Mach(1.0 + np.abs(m - 1.0), gamma) - omega
 
     # return IterativeSolve.secant_solve(omega_of_mach, omega, 2.)
-    result = 1.0 + np.abs(newton(omega_of_mach, 2.0 + 0.0 * omega) - 1.0)
+    result = 1.0 + np.abs(newton(omega_of_mach, np.float64(2.0 + 0.0 * omega)) - 1.0)
     return result if np.size(result) != 1 else result.item()
 
 
-- 
2.43.0


From 38eb06b84253e7e781de1342c942f8901692339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:29 +0000
Subject: [PATCH 47/53] fix: shock deflection at 90 degrees was 180 in single
 precision

---
 aerokit/aero/ShockWave.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index dbaa326..bd8970b 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -142,7 +142,7 @@ def deflection_Mach_sigma(Mach, sigma, gamma=defg._gamma):
     """
     sigrad = np.radians(sigma)
     Mn = Mach * np.sin(sigrad)
-    return sigma - np.degrees(np.arctan2(np.tan(sigrad), Rho_ratio(Mn, gamma)))
+    return sigma - np.degrees(np.arctan2(np.sin(sigrad), np.cos(sigrad) * Rho_ratio(Mn, gamma)))
 
 
 def deflection_Mach_ShockPsratio(Mach, Pratio, gamma=defg._gamma):
-- 
2.43.0


From 34d5cd50eabaf5fc98eeec08150ba2f2ae1c4cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:34 +0000
Subject: [PATCH 48/53] fix: Mach_Sigma raised for an array of sections or heat
 ratios with a scalar guess

---
 aerokit/aero/MassFlow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index 8c43656..634f497 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -36,8 +36,8 @@ def Sigma_Mach(Mach, gamma=defg._gamma):
 
 
 def Mach_Sigma(sigma, Mach=2.0, gamma=defg._gamma):
-    if np.size(Mach) != 1:
-        Minit = np.where(Mach <= 1.0, __MachSub_sigma(sigma, gamma), __MachSup_sigma(sigma, gamma))
+    if np.size(Mach) != 1 or np.size(sigma) != 1 or np.size(gamma) != 1:
+        Minit = np.where(Mach <= 1.0, __MachSub_sigma(sigma, gamma), __MachSup_sigma(sigma, gamma)) + 0.0 * gamma
     else:
         Minit = np.float64(Mach)
 
-- 
2.43.0


From 2684dcae932167c7902970bc115a13ba67eca3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:09 +0000
Subject: [PATCH 49/53] fix: Mach_PrandtlMeyer raised for an array of heat
 ratios with a scalar angle

---
 aerokit/aero/Supersonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/Supersonic.py b/aerokit/aero/Supersonic.py
index 3f2f0c3..5e5c9f1 100644
--- a/aerokit/aero/Supersonic.py
+++ b/aerokit/aero/Supersonic.py
@@ -66,7 +66,7 @@ def Mach_PrandtlMeyer(omega, gamma=defg._gamma):
         return PrandtlMeyer_Mach(1.0 + np.abs(m - 1.0), gamma) - omega
 
     # return IterativeSolve.secant_solve(omega_of_mach, omega, 2.)
-    result = 1.0 + np.abs(newton(omega_of_mach, np.float64(2.0 + 0.0 * omega)) - 1.0)
+    result = 1.0 + np.abs(newton(omega_of_mach, np.float64(2.0 + 0.0 * omega + 0.0 * gamma)) - 1.0)
     return result if np.size(result) != 1 else result.item()
 
 
-- 
2.43.0


From 6b1c2803e998f1c403ca7142c6eab4f8d87904f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:30 +0000
Subject: [PATCH 50/53] fix: Mach_PrandtlMeyer diverged for some small angles
 at large heat ratios

---
 aerokit/aero/Supersonic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/Supersonic.py b/aerokit/aero/Supersonic.py
index 5e5c9f1..600db0b 100644
--- a/aerokit/aero/Supersonic.py
+++ b/aerokit/aero/Supersonic.py
@@ -66,7 +66,9 @@ def Mach_PrandtlMeyer(omega, gamma=defg._gamma):
         return PrandtlMeyer_Mach(1.0 + np.abs(m - 1.0), gamma) - omega
 
     # return IterativeSolve.secant_solve(omega_of_mach, omega, 2.)
-    result = 1.0 + np.abs(newton(omega_of_mach, np.float64(2.0 + 0.0 * omega + 0.0 * gamma)) - 1.0)
+    # angle is nearly the power 3/2 of Mach-1 for small angles
+    start = 1.0 + np.minimum(1.0, np.cbrt(omega / 26.0) ** 2)
+    result = 1.0 + np.abs(newton(omega_of_mach, np.float64(start + 0.0 * gamma)) - 1.0)
     return result if np.size(result) != 1 else result.item()
 
 
-- 
2.43.0


From d4a1a6b41cbed0f9eb3ab64e5919d1c28d2fb42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:21 +0000
Subject: [PATCH 51/53] fix: MachSub_Sigma returned a supersonic Mach number
 for sections within 1e-8 of the critical one

---
 aerokit/aero/MassFlow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index 634f497..6930654 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -52,7 +52,9 @@ def MachSub_Sigma(sigma, gamma=defg._gamma):
     # initial guess
     Mach = __MachSub_sigma(sigma, gamma) + 0.0 * gamma
     # inverse of section ratio is nearly linear: iterations do not leave the branch for large sections
-    return newton(lambda m: 1.0 / Sigma_Mach(m, gamma) - 1.0 / sigma, np.float64(Mach))
+    result = newton(lambda m: 1.0 / Sigma_Mach(m, gamma) - 1.0 / sigma, np.float64(Mach))
+    # iterations may end on the other side of Mach 1, where section ratio is symmetric
+    return np.minimum(result, 2.0 - result)
 
 
 def MachSup_Sigma(sigma, gamma=defg._gamma):
-- 
2.43.0


From da9b2936f975ba37a310476dfb529684894ef668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:43 +0000
Subject: [PATCH 52/53] fix: RKF45 repeated the last abscissa when a backward
 step landed on it

---
 aerokit/common/_ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index 8a5e1b6..32f3842 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -68,7 +68,7 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
     Y.append(y)
     stopper = 0  # Integration stopper(0 = off, 1 = on)
     # first step must not go beyond the end of integration range
-    if (h > 0.0) == ((x + h) >= xStop):
+    if (x + h - xStop) * h >= 0.0:
         h = xStop - x
         stopper = 1
     for i in range(10000):
@@ -88,7 +88,7 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
         else:
             hNext = h
         # Check if next step is the last one; is so, adjust h
-        if (h > 0.0) == ((x + hNext) >= xStop):
+        if (x + hNext - xStop) * hNext >= 0.0:
             hNext = xStop - x
             stopper = 1
         else:
-- 
2.43.0


From d7ec23fff3aec37149c963464bf33ebc791df4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:01 +0000
Subject: [PATCH 53/53] fix: exponents of a gas of the turbofan cycle follow
 its specific heat ratio

---
 aerokit/engine/Cycle_Turbofan.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 4605ce5..7af955f 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -34,8 +34,14 @@ class Gaz:
         self.gamma = gamma
         self.r = r
         self.P_k = P_k
-        self.gsgmu = gamma / (gamma - 1.)
-        self.gmusg = (gamma - 1.) / gamma
+        
+    @property
+    def gsgmu(self):
+        return self.gamma / (self.gamma - 1.)
+        
+    @property
+    def gmusg(self):
+        return (self.gamma - 1.) / self.gamma
         
     def get_cp(self):
         return (self.r * self.gamma) / (self.gamma - 1.)
-- 
2.43.0

