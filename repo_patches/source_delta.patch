From c9ff351648894da781428449eacacd986ccbe0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 01/27] fix: scale state draws by 2^31 so that a draw never
 reaches 1

---
 reliabilityassessment/monte_carlo/gstate.py | 2 +-
 reliabilityassessment/monte_carlo/lstate.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/gstate.py b/reliabilityassessment/monte_carlo/gstate.py
index 7e61224..d662b32 100644
--- a/reliabilityassessment/monte_carlo/gstate.py
+++ b/reliabilityassessment/monte_carlo/gstate.py
@@ -35,7 +35,7 @@ def gstate(IGSEED, PROBG, RATING, DERATE, PLNDST):
             IGSEED[i] += 2147483647
             IGSEED[i] += 1
         YFL = float(IGSEED[i])
-        YFL *= 0.4656613e-9
+        YFL /= 2147483648.0
         RANDGi = YFL
 
         # Determine the State and Available Capacity for Each Generator.
diff --git a/reliabilityassessment/monte_carlo/lstate.py b/reliabilityassessment/monte_carlo/lstate.py
index a8f7726..5f42ec9 100644
--- a/reliabilityassessment/monte_carlo/lstate.py
+++ b/reliabilityassessment/monte_carlo/lstate.py
@@ -28,7 +28,7 @@ def lstate(ILSEED, PROBL):
             ILSEED[i] += 2147483647
             ILSEED[i] += 1
         YFL = float(ILSEED[i])
-        YFL *= 0.4656613e-9
+        YFL /= 2147483648.0
         RANDLi = YFL
 
         # Determine the State of each line.
-- 
2.43.0


From 120c8409f23991f56d98ac7a57f571ff8c3dc67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 02/27] fix: give the first artificial variable its sign in the
 LP solution

The artificial variables occupy the last M columns of the tableau, starting at
N-M. The comparison left out the first of them, so the curtailment found for
the first area came back with the wrong sign and was dropped.
---
 reliabilityassessment/monte_carlo/net.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/net.py b/reliabilityassessment/monte_carlo/net.py
index 298b0cf..b80531e 100644
--- a/reliabilityassessment/monte_carlo/net.py
+++ b/reliabilityassessment/monte_carlo/net.py
@@ -36,7 +36,7 @@ def _net(B, B1, RES, IBAS, BS, M, N):
 
     for i in range(M):
         k = IBAS[i]
-        if k > NX1:
+        if k >= NX1:
             RES[k, 0] = -BS[i]
             continue
         RES[k, 0] = BS[i]
@@ -80,7 +80,7 @@ def net(B, B1, RES, IBAS, BS, M, N):
     RES[:N, :3] = 0
 
     RES[IBAS[:M], 0] = BS[:M]
-    RES[IBAS[:M][IBAS[:M] > N - M], 0] *= -1
+    RES[IBAS[:M][IBAS[:M] >= N - M], 0] *= -1
 
     RES[N - M : N, 1][B1[:M] < 0] = 1
     RES[N - M : N, 0] += B[:M]
-- 
2.43.0


From 46a7a0c8a79baf5281903ee8cde3283f53c55bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 03/27] fix: restore the impedance matrix, not the admittance
 matrix, after the LP dispatch

tm2 saved ZB in ZT at entry but wrote BT back into it at the end, so every
dispatch after one that needed the LP ran on a wrong network.
---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index f76c144..afae266 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -302,6 +302,6 @@ def tm2(
 
     # GO TO 1000
     BB[:NX, :NX] = BT[:NX, :NX].copy()
-    ZB[:NX, :NX] = BT[:NX, :NX].copy()
+    ZB[:NX, :NX] = ZT[:NX, :NX].copy()
 
     return FLOW, INDIC
-- 
2.43.0


From 37493f0d358e217b071f3be1de85c8c62d571206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 04/27] fix: take a line at the reference area out of the
 network with its own admittance

For lines ending at the reference area the new state's admittance was added
where the old one had to be subtracted, and a state without admittance left
the line in the network.
---
 reliabilityassessment/monte_carlo/tm2.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index afae266..dc1928f 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -97,13 +97,12 @@ def tm2(
         NII = IEQ[NI]
         BIJ = BLP[i, 0]
 
-        if BIJ == 0.0:
-            continue
-
         for bij in [BIJ, -BLP0[i]]:
+            if bij == 0.0:
+                continue
             ZIJ = -1 / bij
             Z = ximpar(ZB, ZIJ, NII)
-            admref(BB, NII, BIJ)
+            admref(BB, NII, bij)
             ZB[:NX, :NX] = Z[:NX, :NX].copy()
 
     # Assigns injections at buses so as to balance
-- 
2.43.0


From 3740d6eb868ddc25b15b96b4180176b0905987f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 05/27] fix: call conls with the arguments it takes

The loss-sharing branch passed an extra INJB and failed with a TypeError as
soon as the dispatch needed the LP.
---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index dc1928f..46f21da 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -233,7 +233,7 @@ def tm2(
                 )
     else:
         M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = conls(
-            BB, INJ, INJB, NX, NR, LT, BLP, LP, BN, LOD, NLS
+            BB, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS
         )
 
         # NXT = NX + 1 defined but not used in original Fortran
-- 
2.43.0


From f7718ebb54d1370e729d10a7b5ce2ab832686646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 06/27] fix: adjust area limits for the contract flows of every
 line, with the to-area's sign

The from- and the to-area of a line were shifted the same way, and an area
with more than one line only got the last line's flow.
---
 reliabilityassessment/monte_carlo/transm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/transm.py b/reliabilityassessment/monte_carlo/transm.py
index de0446c..45f9865 100644
--- a/reliabilityassessment/monte_carlo/transm.py
+++ b/reliabilityassessment/monte_carlo/transm.py
@@ -112,10 +112,10 @@ def transm(
         BLP[:NL, 1] -= FLOW[:NL]
         BLP[:NL, 2] += FLOW[:NL]
         BLP[:NL, [1, 2]] = BLP[:NL, [1, 2]].clip(min=0.0)
-        BN[LP[:NL, 1], 3] += FLOW[:NL]
-        BN[LP[:NL, 1], 4] -= FLOW[:NL]
-        BN[LP[:NL, 2], 3] += FLOW[:NL]
-        BN[LP[:NL, 2], 4] -= FLOW[:NL]
+        np.add.at(BN[:, 3], LP[:NL, 1], FLOW[:NL])
+        np.add.at(BN[:, 4], LP[:NL, 1], -FLOW[:NL])
+        np.add.at(BN[:, 3], LP[:NL, 2], -FLOW[:NL])
+        np.add.at(BN[:, 4], LP[:NL, 2], FLOW[:NL])
 
     FLOW, INDIC = tm2(
         BN,
-- 
2.43.0


From d5a17cf4664681ecd0966fb0ae8cc791e98deb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 07/27] fix: an hour without any shortage no longer raises
 IndexError

---
 reliabilityassessment/monte_carlo/hour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index c001c67..62fddd2 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -138,7 +138,6 @@ def hour(
         FLAG = 0
         MARGIN = (SYSCON[:NOAREA] - CAPREQ[:NOAREA]).astype(int)
         FLAG += sum(MARGIN < 0)
-        IT = np.where(MARGIN < 0)[0][-1]
 
         if FLAG == 0:
             # print('Returning: No Loss')
@@ -149,6 +148,7 @@ def hour(
                 JHOURT,
             )
 
+        IT = np.where(MARGIN < 0)[0][-1]
         NSHRT = FLAG
         LNCAP = np.zeros(NLINES)
 
-- 
2.43.0


From dc983ae9fe30105342ee4bd4f47d52de4f5c0fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 08/27] fix: the last hour of a year has hour index 8759
 instead of -1

---
 reliabilityassessment/monte_carlo/hour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index 62fddd2..7d2413b 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -87,7 +87,7 @@ def hour(
 
     # ..............UPDATE HOUR NUMBER.............
     DXX = 8760
-    JHOUR = -1 + int(CLOCK % DXX)  # DMOD(CLOCK,DXX) in original Fortran
+    JHOUR = int((CLOCK - 1) % DXX)  # DMOD(CLOCK,DXX) in original Fortran
     # need to minus 1 due to 0-based index in Python!
 
     # need to double check
-- 
2.43.0


From 8fff1015a7035df93a22443ab7a49c3d6b0962b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 09/27] fix: a weekly event applies the planned outages of the
 week that starts, not of the one before

---
 reliabilityassessment/monte_carlo/week.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/week.py b/reliabilityassessment/monte_carlo/week.py
index 2625ab9..3ef95ad 100644
--- a/reliabilityassessment/monte_carlo/week.py
+++ b/reliabilityassessment/monte_carlo/week.py
@@ -37,8 +37,9 @@ def week(CLOCK, ATRIB, MFA, NUMINQ, IPOINT, EVNTS, PLNDST, JHOUR, JPLOUT):
 
     PLNDST[:] = 1.0
 
-    # in original Fortran code JWEEK = JHOUR/168 + 1 due to 1-based index
-    JWEEK = JHOUR // 168
+    # in original Fortran code JWEEK = JHOUR/168 + 1 due to 1-based index; JHOUR is the
+    # hour before this event, so the week starting now is the one of the hour after it
+    JWEEK = 0 if JHOUR == 8759 else (JHOUR + 1) // 168
     if JWEEK > 51:
         return IPOINT, MFA, NUMINQ
 
-- 
2.43.0


From 0663a293b7b93623854c803b1594720f23e9d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 10/27] fix: annual area statistics are reset for all areas and
 forecast levels

---
 reliabilityassessment/monte_carlo/year.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 45f622d..e1ab26a 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -634,14 +634,14 @@ def year(
     WGNTPP = 0.0
     WOLTPP = 0.0
 
-    LOLTHA[:NFCST, :NOAREA] = 0
-    LOLGHA[:NFCST, :NOAREA] = 0
-    MGNTHA[:NFCST, :NOAREA] = 0
-    MGNGHA[:NFCST, :NOAREA] = 0
-    LOLTPA[:NFCST, :NOAREA] = 0
-    LOLGPA[:NFCST, :NOAREA] = 0
-    MGNTPA[:NFCST, :NOAREA] = 0
-    MGNGPA[:NFCST, :NOAREA] = 0
+    LOLTHA[:NOAREA, :NFCST] = 0
+    LOLGHA[:NOAREA, :NFCST] = 0
+    MGNTHA[:NOAREA, :NFCST] = 0
+    MGNGHA[:NOAREA, :NFCST] = 0
+    LOLTPA[:NOAREA, :NFCST] = 0
+    LOLGPA[:NOAREA, :NFCST] = 0
+    MGNTPA[:NOAREA, :NFCST] = 0
+    MGNGPA[:NOAREA, :NFCST] = 0
 
     LOLTHP[:NFCST] = 0
     LOLGHP[:NFCST] = 0
-- 
2.43.0


From 8da693387e6487e11b1927aab8d8a51cbaea1ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 11/27] fix: weighted pool statistics accumulate over the years

---
 reliabilityassessment/monte_carlo/narpMain.py | 24 +++++++++----------
 reliabilityassessment/monte_carlo/year.py     |  4 +++-
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index cdaa8b6..57ad525 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -156,29 +156,29 @@ def narpMain(TEST_DIR):
     SOLTPA = np.zeros((NOAREA, 5))
     SOLTPP = np.zeros(5)
     SWLGHA = np.zeros(NOAREA)
-    SWLGHP = 0
+    SWLGHP = np.zeros(())
     SWLGPA = np.zeros(NOAREA)
-    SWLGPP = 0
+    SWLGPP = np.zeros(())
     SWLSHA = np.zeros(NOAREA)
-    SWLSHP = 0
+    SWLSHP = np.zeros(())
     SWLSPA = np.zeros(NOAREA)
-    SWLSPP = 0
+    SWLSPP = np.zeros(())
     SWLTHA = np.zeros(NOAREA)
-    SWLTHP = 0
+    SWLTHP = np.zeros(())
     SWLTPA = np.zeros(NOAREA)
-    SWLTPP = 0
+    SWLTPP = np.zeros(())
     SWNGHA = np.zeros(NOAREA)
-    SWNGHP = 0
+    SWNGHP = np.zeros(())
     SWNGPA = np.zeros(NOAREA)
-    SWNGPP = 0
+    SWNGPP = np.zeros(())
     SWNSHA = np.zeros(NOAREA)
-    SWNSHP = 0
+    SWNSHP = np.zeros(())
     SWNSPA = np.zeros(NOAREA)
-    SWNSPP = 0
+    SWNSPP = np.zeros(())
     SWNTHA = np.zeros(NOAREA)
-    SWNTHP = 0
+    SWNTHP = np.zeros(())
     SWNTPA = np.zeros(NOAREA)
-    SWNTPP = 0
+    SWNTPP = np.zeros(())
     XNEWA = np.zeros((NOAREA, 3))
     XNEWP = np.zeros(3)
 
diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index e1ab26a..edbee70 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -716,7 +716,9 @@ def year(
                 else:
                     SUM = SGNSPP[NOERR]
 
-    RFLAG, SSQ, XLAST = cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ)
+    RFLAG, SSQ, XLAST = cvchk(
+        CLOCK, FINISH, IYEAR, CVTEST, SUM + 0.0, XLAST, SSQ
+    )
     NOERR = 1
 
     if IYEAR == INTVT:
-- 
2.43.0


From cf0674436aff6d4fa153a645c2d7088aae0afa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 12/27] fix: the first quarter of the simulation uses the first
 quarter's ratings

---
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 57ad525..bcc8519 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -94,7 +94,7 @@ def narpMain(TEST_DIR):
 
     # ----------------------------Begin Monte Carlo simulation part --------------------------
     ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS)
-    IQ = 0  # initialize the quarter index to be 0 (i.e., the 1st quarter)
+    IQ = -1  # the first quarterly event advances it to 0 (i.e., the 1st quarter)
     JHOUR = 0  # initialize the hour index
     SSQ = 0.0
     XLAST = 0.0  # initial values for convergence-related quantities
-- 
2.43.0


From 4662c0a51ea2be39e333fdcfbeaa702ed9e0534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 13/27] fix: annual table prints pool averages of zero and
 labels area totals GT

---
 reliabilityassessment/monte_carlo/year.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index edbee70..6fcafd9 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -414,7 +414,7 @@ def year(
                 else:
                     f.write(
                         "\n  %2d  %2d         %8.2f  %8.2f            %s\n"
-                        % (J, N, LOLSPA[J, N], XMGNP, XT)
+                        % (J, N, LOLSPA[J, N], XMGNP, XS)
                     )
 
             if WOLGHA[J] > 0.0:
@@ -485,13 +485,13 @@ def year(
         for N in range(NFCST):
             if LOLGHP[N] > 0:
                 XMGNH = (MGNGHP[N]) / (LOLGHP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNH = 0.0
 
             if LOLGPP[N] > 0:
                 XMGNP = (MGNGPP[N]) / (LOLGPP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNP = 0.0
 
             if INDX != 1:
                 f.write(
-- 
2.43.0


From 63f1cb4a15aa9f0428ae796b59d2f1477faa9608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 14/27] fix: quarterly events are scheduled at the configured
 season ends

---
 reliabilityassessment/monte_carlo/initl.py    | 10 ++++++----
 reliabilityassessment/monte_carlo/narpMain.py |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/initl.py b/reliabilityassessment/monte_carlo/initl.py
index d94c98c..1a98576 100644
--- a/reliabilityassessment/monte_carlo/initl.py
+++ b/reliabilityassessment/monte_carlo/initl.py
@@ -74,13 +74,15 @@ def _initl(JSTEP, EVNTS, IPOINT, MFA, NUMINQ, QTR):
     return ATRIB, CLOCK, IPOINT, MFA, NUMINQ
 
 
-def initl(JSTEP, EVNTS):
+def initl(JSTEP, EVNTS, QTR=(2184.5, 4368.5, 6552.5)):
     """
     Initialization for the Monte Carlo Simulation
 
     :param int JSTEP: frequency of simulation statistics collection, 1: hourly 24:
         daily, i.e. only peak stats are collected
     :param numpy.ndarray EVNTS: 1D array of events
+    :param numpy.ndarray QTR: first hour index of the last three quarters of a year,
+        defaults to the ends of weeks 13, 26 and 39
     :return: (*tuple*) -- ATRIB: events attribute vector of length 2
                                  ATRIB[0] -- global simulation clock (in unit: hour)
                                  ATRIB[1] -- int, simulation type
@@ -102,9 +104,9 @@ def initl(JSTEP, EVNTS):
     EVNTS[:28] = np.array(
         [
             24,   0.5,    3, 0.0,  # noqa: E241 1st quarterly state change
-            8.0,  2184.5, 3, 0.0,  # noqa: E241 2nd quarterly state change
-            12.0, 4368.5, 3, 0.0,  # noqa: E241 3rd quarterly state change
-            16.0, 6552.5, 3, 0.0,  # noqa: E241 4th quarterly state change
+            8.0,  QTR[0], 3, 0.0,  # noqa: E241 2nd quarterly state change
+            12.0, QTR[1], 3, 0.0,  # noqa: E241 3rd quarterly state change
+            16.0, QTR[2], 3, 0.0,  # noqa: E241 4th quarterly state change
             -1.0, 8760.0, 4, 0.0,  # noqa: E241 first call to subroutine "year"
             0,    0.5,    2, 0.0,  # noqa: E241 first call to subroutine "week"
             4.0,  JSTEP,  1, 0.0,  # noqa: E241 first Monte Carlo draw
diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index bcc8519..0e30527 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -93,7 +93,7 @@ def narpMain(TEST_DIR):
     # ----------------------------Finish data processing part--------------------------
 
     # ----------------------------Begin Monte Carlo simulation part --------------------------
-    ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS)
+    ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS, QTR)
     IQ = -1  # the first quarterly event advances it to 0 (i.e., the 1st quarter)
     JHOUR = 0  # initialize the hour index
     SSQ = 0.0
-- 
2.43.0


From 5e0a6aa72a82ae49591b2891fed879eea77a86e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 15/27] fix: a small upper limit of the unserved energy
 distribution no longer divides by zero

---
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 0e30527..f1fd3b7 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -83,7 +83,7 @@ def narpMain(TEST_DIR):
         NAMA,
     ) = dataf1(filepaths)
 
-    LSTEP = int(MAXEUE // 20)
+    LSTEP = max(1, int(MAXEUE // 20))
     NUNITS = PROBG.shape[0]
     NLINES = LP.shape[0]
     NOAREA = HRLOAD.shape[0]
-- 
2.43.0


From a8693f73d42084407a84cac98ab2b8b33d5d14a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 16/27] fix: area and pool statistics attribute a loss at zero
 pool margin to the same cause

---
 reliabilityassessment/monte_carlo/hrstat.py | 4 ++--
 reliabilityassessment/monte_carlo/pkstat.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/hrstat.py b/reliabilityassessment/monte_carlo/hrstat.py
index b4bdef8..4b93d88 100644
--- a/reliabilityassessment/monte_carlo/hrstat.py
+++ b/reliabilityassessment/monte_carlo/hrstat.py
@@ -56,7 +56,7 @@ def hrstat(
     for j, X in enumerate(MARGIN):
         if X < 0.0:
             LSFLG[j] += 1
-            if SUM > 0.0:
+            if SUM >= 0.0:
                 LOLTHA[j, NST] += 1
                 MGNTHA[j, NST] += int(-X)
                 MGNTHP[NST] += int(-X)
@@ -122,7 +122,7 @@ def _hrstat(
         LOLGHP[NST] += 1
 
     LSFLG[MARGIN < 0] += 1
-    if SUM > 0.0:
+    if SUM >= 0.0:
         LOLTHA[:, NST][MARGIN < 0] += 1
         MGNTHA[:, NST][MARGIN < 0] -= MARGIN[MARGIN < 0].astype(int)
         MGNTHP[NST] -= int(MARGIN[MARGIN < 0].sum())
diff --git a/reliabilityassessment/monte_carlo/pkstat.py b/reliabilityassessment/monte_carlo/pkstat.py
index c5a6d11..49da100 100644
--- a/reliabilityassessment/monte_carlo/pkstat.py
+++ b/reliabilityassessment/monte_carlo/pkstat.py
@@ -53,7 +53,7 @@ def _pkstat(
 
     for j, X in enumerate(MARGIN):
         if X < 0.0:
-            if SUM > 0.0:
+            if SUM >= 0.0:
                 LOLTPA[j, NST] += 1
                 MGNTPA[j, NST] -= int(X)
                 MGNTPP[NST] -= int(X)
@@ -114,7 +114,7 @@ def pkstat(NST, MARGIN, LOLGPA, LOLGPP, LOLTPA, LOLTPP, MGNGPA, MGNGPP, MGNTPA,
     else:
         LOLGPP[NST] += 1
 
-    if SUM > 0.0:
+    if SUM >= 0.0:
         LOLTPA[:, NST][MARGIN < 0] += 1
         MGNTPA[:, NST][MARGIN < 0] -= MARGIN[MARGIN < 0].astype(int)
         MGNTPP[NST] -= MARGIN[MARGIN < 0].sum().astype(int)
-- 
2.43.0


From 5a2f7f43a618f30c5fc5d63bf0e06ce89e045d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 17/27] fix: planned outages include the last week of the year

---
 reliabilityassessment/data_processing/smaint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/smaint.py b/reliabilityassessment/data_processing/smaint.py
index de2f88b..e2f61e6 100644
--- a/reliabilityassessment/data_processing/smaint.py
+++ b/reliabilityassessment/data_processing/smaint.py
@@ -90,7 +90,7 @@ def smaint(
             if ID[i, wi] != -1:
                 j1 = ID[i, wi]
                 # the index of last week of a simulation year is 51
-                j2 = min(51, j1 + ID[i, wi + 1])
+                j2 = min(52, j1 + ID[i, wi + 1])
                 # increase total number of units under maintenance for the weeks
                 JPLOUT[j1:j2, 0] += 1
                 JPLOUT[np.arange(j1, j2), JPLOUT[j1:j2, 0]] = int(ID[i, 0])
-- 
2.43.0


From cb0ca6862c89ed192f636a7df4aaed3f692591c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 18/27] fix: owned capacity at a peak in the fourth season uses
 the fourth season's ratings

---
 reliabilityassessment/data_processing/resca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/resca.py b/reliabilityassessment/data_processing/resca.py
index 02b6437..bd78bd6 100644
--- a/reliabilityassessment/data_processing/resca.py
+++ b/reliabilityassessment/data_processing/resca.py
@@ -37,7 +37,7 @@ def resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IPER = np.argmax(QTR > IDAY * 24)
+        IPER = np.count_nonzero(QTR < IDAY * 24)
         for j in range(NUINTS):
             SUSTAT[i, 1] += CAPOWN[i, j] * RATES[j, IPER]
 
-- 
2.43.0


From a0eebea6f8fa8be1d0fa344ef6a81abaa8ae3632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 19/27] fix: firm contracts are read with their own areas, days
 and power

---
 reliabilityassessment/data_processing/datax.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index cb83588..029e540 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -118,16 +118,19 @@ def datax(inputB_dict):
     # INTCHR: recording the from and to area no. for each contract
     INTCHR = np.zeros((MAX_CONTRACTS, 2))
     if inputB_dict["ZZFC"] and len(inputB_dict["ZZFC"]["SNRI"]) > 0:
-        for i, (src, dst) in enumerate(
-            dict.fromkeys(zip(inputB_dict["ZZFC"]["NAR"]), inputB_dict["ZZFC"]["NAE"])
+        pairs = {}  # several contracts of one pair of areas share one entry
+        for k, (src, dst) in enumerate(
+            zip(inputB_dict["ZZFC"]["NAR"], inputB_dict["ZZFC"]["NAE"])
         ):
+            i = pairs.setdefault((src, dst), len(pairs))
             JENT[src, dst] = i
             INTCHR[i, :] = src, dst
             beg_day, end_day = (
-                inputB_dict["ZZFC"]["BEG DAY"][i],
-                inputB_dict["ZZFC"]["END DAY"][i],
+                inputB_dict["ZZFC"]["BEG DAY"][k],
+                inputB_dict["ZZFC"]["END DAY"][k],
             )
-            INTCH[i, beg_day : end_day + 1] = inputB_dict["ZZFC"]["MW"][i]
+            # days are given as 1 to 365, both included
+            INTCH[i, beg_day - 1 : end_day] += inputB_dict["ZZFC"]["MW"][k]
 
     # --------------------------------------------------------------
     # Read ownership of units and create appropriate arrays.
-- 
2.43.0


From 2e638d10602315f09d11f3cacdc2eeddea1e3395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 20/27] fix: the transmission debug output no longer fails when
 a unit is out

---
 reliabilityassessment/monte_carlo/tm2.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 46f21da..ae825b8 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -190,18 +190,18 @@ def tm2(
             JXX = 0
             for i in range(NUNITS):
                 if PLNDST[i] != 1.0:
-                    JXX += 1
                     NNTAB[JXX] = i
+                    JXX += 1
                     continue
                 if PCTAVL[i] == 1.0:
                     continue
-                JXX += 1
                 NNTAB[JXX] = i
                 if PCTAVL[i] != 0.0:
                     NNTAB[JXX] = -i
+                JXX += 1
 
             f.write("%4d\n" % (JXX))
-            for i in range[JXX]:
+            for i in range(JXX):
                 f.write("%4d\n " % (NNTAB[i]))
 
             if JFLAG != 1:
@@ -265,15 +265,15 @@ def tm2(
             JXX = 0
             for i in range(NUNITS):
                 if PLNDST[i] != 1.0:
-                    JXX += 1
                     NNTAB[JXX] = i
+                    JXX += 1
                     continue
                 if PCTAVL[i] == 1.0:
                     continue
-                JXX += 1
                 NNTAB[JXX] = i
                 if PCTAVL[i] != 0.0:
                     NNTAB[JXX] = -i
+                JXX += 1
 
             f.write("%4d\n" % (JXX))
             for i in range(JXX):
-- 
2.43.0


From 26c410ab45df7d2576b53d6d35caf008b2d5587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 21/27] fix: a peak on the first day of a season uses that
 season's ratings

---
 reliabilityassessment/data_processing/resca.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/data_processing/resca.py b/reliabilityassessment/data_processing/resca.py
index bd78bd6..6bb7f64 100644
--- a/reliabilityassessment/data_processing/resca.py
+++ b/reliabilityassessment/data_processing/resca.py
@@ -37,7 +37,7 @@ def resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IPER = np.count_nonzero(QTR < IDAY * 24)
+        IPER = np.count_nonzero(QTR < (IDAY + 1) * 24)
         for j in range(NUINTS):
             SUSTAT[i, 1] += CAPOWN[i, j] * RATES[j, IPER]
 
@@ -81,7 +81,7 @@ def _resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IHR = IDAY * 24
+        IHR = (IDAY + 1) * 24
         IPER = 0
 
         if IHR > QTR[0]:
-- 
2.43.0


From 371ae05f1e23bee47f457fd9eae70fdeab4dcd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 22/27] fix: the load file may name more than nine areas

---
 reliabilityassessment/data_processing/xldnew.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/xldnew.py b/reliabilityassessment/data_processing/xldnew.py
index 9d4f510..a0d8ff4 100644
--- a/reliabilityassessment/data_processing/xldnew.py
+++ b/reliabilityassessment/data_processing/xldnew.py
@@ -27,7 +27,7 @@ def xldnew(FileNameAndPath, PKLOAD):
 
     for line in Lines:
         if line[:4] == "AREA":
-            areaIdx = int(line[6]) - 1
+            areaIdx = int(line[6:]) - 1
             hourIdx = 0
         else:
             HRLOAD[areaIdx, hourIdx : hourIdx + 12] = list(
-- 
2.43.0


From e75a6d287072c534d68da2fdfc81d7e2a2febce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 23/27] fix: ownership shares of jointly owned units are read
 as one number per area

---
 reliabilityassessment/data_processing/readInputB.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index f7ef13a..dbe399d 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -473,7 +473,12 @@ def read_card_ZZOD(filepath):
     """
     Percentage ownership by each area
     """
-    data["PERCENT"] = df_ZZOD["PERCENT OWNED BY AREA"].to_numpy()
+    data["PERCENT"] = np.array(
+        [
+            list(map(float, str(e).split(",")))
+            for e in df_ZZOD["PERCENT OWNED BY AREA"].to_numpy()
+        ]
+    )
 
     return data
 
-- 
2.43.0


From 0caf41926fb24005eab5b146c0bf085a03e834c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 24/27] fix: number of units is given for every area

---
 reliabilityassessment/data_processing/datax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index 029e540..d5e8b12 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -97,7 +97,7 @@ def datax(inputB_dict):
 
     CAPCON[inputB_dict["ZZUD"]["NAT"]] = deepcopy(inputB_dict["ZZUD"]["NAR"])
     CAPOWN[inputB_dict["ZZUD"]["NAR"], inputB_dict["ZZUD"]["NAT"]] = 1
-    NOGEN = np.bincount(inputB_dict["ZZUD"]["NAR"])
+    NOGEN = np.bincount(inputB_dict["ZZUD"]["NAR"], minlength=NOAREA)
     PROBG[:, 0] = 1 - inputB_dict["ZZUD"]["HRLOAD"][[4, 5], :].sum(axis=0)
     PROBG[:, 1] = 1 - inputB_dict["ZZUD"]["HRLOAD"][5, :]
     DERATE = 1 - inputB_dict["ZZUD"]["HRLOAD"][6, :] / 100.0
-- 
2.43.0


From a53691499f9b4e47825b7ab10635b4a393f62e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 25/27] fix: pool reserve in the summary is computed from the
 pool's peak and capacity

---
 reliabilityassessment/monte_carlo/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/report.py b/reliabilityassessment/monte_carlo/report.py
index b7e95a5..ec2dec3 100644
--- a/reliabilityassessment/monte_carlo/report.py
+++ b/reliabilityassessment/monte_carlo/report.py
@@ -534,8 +534,8 @@ def report(
         SUSTAT[NO1, 0] += SUSTAT[i, 0]
         SUSTAT[NO1, 1] += SUSTAT[i, 1]
 
-    if SUSTAT[i, 0] > 0:
-        SUSTAT[NO1, 2] = (SUSTAT[i, 1] - SUSTAT[i, 0]) / SUSTAT[i, 0] * 100
+    if SUSTAT[NO1, 0] > 0:
+        SUSTAT[NO1, 2] = (SUSTAT[NO1, 1] - SUSTAT[NO1, 0]) / SUSTAT[NO1, 0] * 100
 
     if INDX != 1:
         SSHL = 0.0
-- 
2.43.0


From 0a84b7754c8ce02156b0e9bc0c0816a1689cf5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:38 +0000
Subject: [PATCH 26/27] fix: given planned outages of every unit are kept by
 the maintenance scheduler

pmsc's ordering loop started at row 1 and skipped the last plant (0-based
port of a 1-based loop), so row 0 stayed empty, prescheduled units were not
recognised and their outage weeks overwritten; the week printout indexed
with floats and collapsed its row buffer.
---
 reliabilityassessment/data_processing/pmsc.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/reliabilityassessment/data_processing/pmsc.py b/reliabilityassessment/data_processing/pmsc.py
index 8c51e70..77492ab 100644
--- a/reliabilityassessment/data_processing/pmsc.py
+++ b/reliabilityassessment/data_processing/pmsc.py
@@ -78,21 +78,21 @@ def pmsc(
     NUNITS = ID.shape[0]
 
     # Below are all local arrays created for the conveneice in intermedaite computation
-    INDEX = np.zeros((INUO, 2))  # maybe use "-1" for intialization
+    INDEX = np.zeros((INUO, 2), dtype=int)  # maybe use "-1" for intialization
     INDEX1 = np.zeros(INUO)  # maybe use "-1" for intialization
     P = np.ones(INUO)
     NR0 = np.zeros(NUNITS, dtype=int)
     ID1 = np.zeros((1 + NUNITS, 8), dtype=int)
     CAPLOS = np.zeros(NUNITS)
     RD = np.zeros((NUNITS, 3))
-    DURLOS = np.zeros((NUNITS, 2))
+    DURLOS = np.zeros((NUNITS, 2), dtype=int)
     LOCREW = np.zeros(NUNITS)
     IDT = np.zeros((NUNITS, 8))
     RDT = np.zeros((NUNITS, 3))
     CAPLO = np.zeros(NUNITS)
     DURLO = np.zeros((NUNITS, 2))
     LOCRE = np.zeros(NUNITS)
-    WEEKS = [""] * 52
+    WEEKS = np.full(52, "  ")
     A = "AA"
     B = ".."
     AB = "PP"
@@ -148,10 +148,10 @@ def pmsc(
     CAP2 = CAP / 5
     G = PKLOAD[IA]
     M = NGU  # M is the total number of generating units considerred in this function
-    i1 = 0
+    i1 = -1  # 0 in Fortran
     # arrange the sequence of units such that for a given plant the units are
     # arranged in the descending order of capacity*planned maintenance duration
-    for i in range(N):
+    for i in range(N + 1):
         while True:
             IC = 0  # (possibly) a flag varaiable
             CMAX = -5.0
@@ -688,7 +688,7 @@ def pmsc(
     # Print output of the scheduled generators of the plant
     NTI = 0
     NMAX = 40
-    WEEKS = [" "] * 52
+    WEEKS[:52] = " "
     for i in range(M):
         JB = i
         if INDEX[JB, 0] == 0 and INDEX[JB, 1] == 0:
@@ -709,7 +709,7 @@ def pmsc(
 
             for KI in range(4):
                 for KJ in range(13):
-                    f.write("%s " % (WEEKS[(KI - 1) * 13 + KJ]))
+                    f.write("%s " % (WEEKS[KI * 13 + KJ]))
                 f.write("|")
 
         WEEKS[:52] = B
-- 
2.43.0


From 38505b6ad46f700769ace8915f6bf046312b0518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 27/27] fix: snapshots store the random seeds of the run, not a
 placeholder

---
 reliabilityassessment/monte_carlo/events.py |  2 ++
 reliabilityassessment/monte_carlo/year.py   | 10 ++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/events.py b/reliabilityassessment/monte_carlo/events.py
index d435845..4732c82 100644
--- a/reliabilityassessment/monte_carlo/events.py
+++ b/reliabilityassessment/monte_carlo/events.py
@@ -357,6 +357,8 @@ def events(
             SWNTPP,
             XNEWA,
             XNEWP,
+            IGSEED,
+            ILSEED,
         )
         return (
             RFLAG,
diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 6fcafd9..2a1d75a 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -106,6 +106,8 @@ def year(
     SWNTPP,
     XNEWA,
     XNEWP,
+    IGSEED=None,
+    ILSEED=None,
 ):
     """
     Update and summarize all reliability statistics when this 'simulation-year' event is triggered
@@ -733,8 +735,8 @@ def year(
             ITAB,
             INTVT,
             EVNTS,
-            123,  # IGSEED,
-            123,  # ILSEED,
+            IGSEED,
+            ILSEED,
             LT,
             BB,
             ZB,
@@ -800,8 +802,8 @@ def year(
                 ITAB,
                 INTVT,
                 EVNTS,
-                123,  # IGSEED,
-                123,  # ILSEED,
+                IGSEED,
+                ILSEED,
                 LT,
                 BB,
                 ZB,
-- 
2.43.0

