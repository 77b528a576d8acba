From 85d13c3d7d531691920a6a33b3bf55b8fabc33df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 01/83] fix: S_from_Y called a module instead of the shape
 helper and sliced a list

---
 src/pyRFtk/S_from_Y.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/S_from_Y.py b/src/pyRFtk/S_from_Y.py
index e93a873..66fd44e 100644
--- a/src/pyRFtk/S_from_Y.py
+++ b/src/pyRFtk/S_from_Y.py
@@ -1,7 +1,7 @@
 __updated__ = "2020-12-18 17:56:43"
 
 import numpy as np
-from . import _check_3D_shape_
+from ._check_3D_shape_ import _check_3D_shape_
 
 #===============================================================================
 #
@@ -17,7 +17,7 @@ def S_from_Y(Y, Zbase=50.):
     L, Y = _check_3D_shape_(Y)
     
     Y0 = np.eye(Y.shape[1])/Zbase
-    S = [ (Y0 - Yk) @ np.linalg.inv(Y0 + Yk)  for Yk in Y]
+    S = np.array([ (Y0 - Yk) @ np.linalg.inv(Y0 + Yk)  for Yk in Y])
     
     S = S[0,0,0] if L == 0 else S[:,0,0] if L == 1 else S[0,:,:] if L==2 else S 
     
-- 
2.43.0


From f13e324a9db94c4f1b08d554e79170bee506917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 02/83] fix: ConvertGeneral returned only the first frequency
 of a 1D list

---
 src/pyRFtk/ConvertGeneral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ConvertGeneral.py b/src/pyRFtk/ConvertGeneral.py
index 7c22530..0af2db7 100644
--- a/src/pyRFtk/ConvertGeneral.py
+++ b/src/pyRFtk/ConvertGeneral.py
@@ -132,7 +132,7 @@ def ConvertGeneral(Z2, S1, Z1, type1='V', type2='V'):
     
     elif L == 1:
         _debug_ and logident('< L==1')
-        return [S2[0,0,0]]
+        return S2[:,0,0]
     
     elif L == 2:
         _debug_ and logident('< L==2')
-- 
2.43.0


From d8d100285c3497cd7a6bd2ef44fa6d3cdabb17de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 03/83] fix: outer conductor resistance used the inner
 conductor's surface resistance

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 056a559..fdb7a57 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -113,7 +113,7 @@ class TLresolver():
             return self.rTL(w,x) - self.rTLI(w,x)
         
         def _rTLO__qTLO_RsO_(w,x=0):                                         #21
-            return self.qTLO(w,x) * self.RsI(w,x)
+            return self.qTLO(w,x) * self.RsO(w,x)
         
         def _rTL__A_CTL_gTL_LTL_(w,x=0):
             wL = w * self.LTL(w,x)
-- 
2.43.0


From a770a9587bc0cd489b47dd1fff38eec532f3cbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 04/83] fix: mur and epsr from the relative velocity (vr =
 1/sqrt(mur epsr))

---
 src/pyRFtk/resolveTLparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index fdb7a57..f7e565f 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -219,10 +219,10 @@ class TLresolver():
                 1 / np.sqrt(self.mur(w,x) * self.epsr(w,x))
             ),
             ('mur', ('vr', 'epsr'), 0., lambda w, x:                         #33
-                self.epsr(w, x) / self.vr(w, x)**2
+                1 / (self.epsr(w, x) * self.vr(w, x)**2)
             ),
             ('epsr', ('vr','mur'), 0., lambda w, x:                          #34
-                self.mur(w, x) / self.vr(w, x)**2
+                1 / (self.mur(w, x) * self.vr(w, x)**2)
             ),
             #-- ------------------------------------------------------------- --
             ('mur', ('etar', 'vr'), 0., lambda w, x:                         #35
-- 
2.43.0


From ad419e760755783d680d3ed90628ac6c5f2ec914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 05/83] fix: attenuation constant from dB/m (was negative for a
 positive attenuation)

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index f7e565f..a972b51 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -240,7 +240,7 @@ class TLresolver():
             ),
             #-- ------------------------------------------------------------- --
             ('A', ('AdB',), 0., lambda w, x:                                 #39
-                1-10**(self.AdB(w,x)/20)
+                self.AdB(w,x) * np.log(10) / 20
             ),
             #-- ------------------------------------------------------------- --            
             # not approximations ...
-- 
2.43.0


From 9acda5f7b231efda50c9db1fff421831888e9925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 06/83] fix: a given line conductance gTL was replaced by 0

---
 src/pyRFtk/resolveTLparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index a972b51..2b2097e 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -303,7 +303,7 @@ class TLresolver():
                                      'ddw': False, 'ddx': False}
                 self.order.append('rTL')
 
-            if not any(avail('sigma', 'tand', 'Am', 'AmdB')):
+            if not any(avail('sigma', 'tand', 'gTL', 'Am', 'AmdB')):
                 # have no attenuation and nothing to compute medium losses
                 # if any losses they must come from the conductors -> gTL = 0
                 setattr(self, 'gTL', lambda w, x: 0.)
@@ -314,7 +314,7 @@ class TLresolver():
         else:
             if not any(avail('Ac', 'AcdB', 'Rs','RsI','RsO',
                              'rTL','rTLO','rTLI', 'rho','rhoI','rhoO',
-                             'sigma', 'tand', 'Am', 'AmdB')):
+                             'sigma', 'tand', 'gTL', 'Am', 'AmdB')):
                 # we have an attenuation but nothing to compute either conductor
                 # or medium losses -> we assume there are no medium losses
                 setattr(self, 'gTL', lambda w, x: 0.)
-- 
2.43.0


From c5368ba7ceb2b499aba9495f1711afcceba74617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 07/83] fix: a parameter given as a function without arguments
 was not callable

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 2b2097e..7d809c2 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -453,7 +453,7 @@ class TLresolver():
                     return  (lambda w, x: p(x)), ddw, ddx
                 else:
                     # constant function
-                    return p(), ddw, ddx
+                    return (lambda w, x: p()), ddw, ddx
                   
         # we (should) have a scalar numerical or a 1/2-D array like
         p = np.array(p)
-- 
2.43.0


From 08fe6caff97c39a5460abb7cbd2906d3506f4d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 08/83] fix: attenuation constant of a line with rTL gTL >= w^2
 LTL CTL

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 7d809c2..9ee9860 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -142,7 +142,7 @@ class TLresolver():
             gwC = self.gTL(w,x) / wC 
             rwL = self.rTL(w,x) / wL
             rwLgwC1 = (1 - rwL * gwC)
-            a2 = rwLgwC1 * (np.sqrt(1 +((rwL + gwC)/rwLgwC1)**2) - 1) / 2
+            a2 = (np.sqrt(rwLgwC1**2 + (rwL + gwC)**2) - rwLgwC1) / 2
             return np.sqrt(a2 * wL * wC)
         
         def _gamma__gjwC_rjwL_(w,x=0):
-- 
2.43.0


From b408e0b5997f2d1f28c40f0a30c0b30f33e79434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 09/83] fix: rfRLC.getS at f = 0 used the removed np.complex

---
 src/pyRFtk/rfRLC.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 46d83db..62dce21 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -223,7 +223,7 @@ class rfRLC():
                         self.S = np.array(
                             [[ (self.Rs-Zbase)/(self.Rs + Zbase) , 0j ],
                              [               0j                  , -1 ]],
-                            dtype=np.complex)                   
+                            dtype=complex)                   
                 else:
                     if self.Lp == +np.inf:
                         # (s) -- OO --+-- (p)
@@ -237,12 +237,12 @@ class rfRLC():
                             rcp = +1
                         self.S = np.array(
                             [[1, 0j],[0j, rcp ]],
-                            dtype=np.complex)
+                            dtype=complex)
                     else:
                         # (s) -- OO --+-- (p)
                         #             |
                         #            Gnd
-                        self.S = np.array([[1, 0j], [0j, -1]], dtype=np.complex)
+                        self.S = np.array([[1, 0j], [0j, -1]], dtype=complex)
             return self.S
         
         Ss = []
-- 
2.43.0


From f6bff33fb4d8108b3d43ce4875971f340657845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 10/83] fix: rfRLC.getS at f = 0 did not normalise Rs and Rp to
 Zbase

---
 src/pyRFtk/rfRLC.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 62dce21..5646e5e 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -202,14 +202,14 @@ class rfRLC():
                              [  1 - zs ,  -1   ]])
             else:
                 if self.Cs == +np.inf:
-                    zs = self.Rs
+                    zs = self.Rs / Zbase
                     if self.Lp == +np.inf:
                         # (s) -- Rs --+-- (p)
                         #             |
                         #             Rp
                         #             |
                         #            Gnd
-                        yp = 1/self.Rp
+                        yp = Zbase / self.Rp
                         self.S = np.linalg.inv(
                                 [[     1   , 1 + yp],
                                  [-(1 + zs),   1   ]]
-- 
2.43.0


From b7cf4d6f5f255e1ba2d2c72877b0b08a30080561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 11/83] fix: rfRLC.getS removed the entries of the caller's
 params

---
 src/pyRFtk/rfRLC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 5646e5e..6fab2ea 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -184,7 +184,7 @@ class rfRLC():
             Zbase = self.Zbase
         
         for p in ['Rs','Ls','Cs','Rp','Lp','Cp']:
-            setattr(self, p, params.pop(p, getattr(self, p)))
+            setattr(self, p, params.get(p, getattr(self, p)))
             
         def get1S(f):
             self.f = f
-- 
2.43.0


From 75d66304a9115a14e0d0fcc148b0c8dd39d29c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 12/83] fix: rfArcObj.getS returned a scalar instead of the
 1-port matrix (maxV failed)

---
 src/pyRFtk/rfArcObj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfArcObj.py b/src/pyRFtk/rfArcObj.py
index f9e0e89..8df273f 100644
--- a/src/pyRFtk/rfArcObj.py
+++ b/src/pyRFtk/rfArcObj.py
@@ -82,6 +82,6 @@ class rfArcObj(rfBase):
     def get1S(self, f):
         
         jwL = 2j * np.pi * f  * self.Larc
-        Ss = (jwL - self.Zbase) / (jwL + self.Zbase)
+        Ss = np.array([[(jwL - self.Zbase) / (jwL + self.Zbase)]])
         self.f, self.S = f, Ss
         return Ss
-- 
2.43.0


From 3ab5da1e4f06c304126f2e0e76b1e6e8b652f16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 13/83] fix: rfArcObj without port names had no port

---
 src/pyRFtk/rfArcObj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfArcObj.py b/src/pyRFtk/rfArcObj.py
index 8df273f..e4f846b 100644
--- a/src/pyRFtk/rfArcObj.py
+++ b/src/pyRFtk/rfArcObj.py
@@ -50,7 +50,7 @@ class rfArcObj(rfBase):
             
         _debug_ and logident(f'{kwargs}')
         
-        super().__init__(**kwargs)
+        super().__init__(**dict(kwargs, ports=kwargs.get('ports', ['1'])))
         
         _debug_ and logident(f'{kwargs}')
         
-- 
2.43.0


From 8d643de0b1f27a8647664cba627126c5238db419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 14/83] fix: the default rfArcObj (infinite inductance) had a
 nan reflection

---
 src/pyRFtk/rfArcObj.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfArcObj.py b/src/pyRFtk/rfArcObj.py
index e4f846b..b8f01c1 100644
--- a/src/pyRFtk/rfArcObj.py
+++ b/src/pyRFtk/rfArcObj.py
@@ -81,7 +81,10 @@ class rfArcObj(rfBase):
     #
     def get1S(self, f):
         
-        jwL = 2j * np.pi * f  * self.Larc
-        Ss = np.array([[(jwL - self.Zbase) / (jwL + self.Zbase)]])
+        if np.isinf(self.Larc):
+            Ss = np.array([[1.+0j]])  # no arc: open
+        else:
+            jwL = 2j * np.pi * f  * self.Larc
+            Ss = np.array([[(jwL - self.Zbase) / (jwL + self.Zbase)]])
         self.f, self.S = f, Ss
         return Ss
-- 
2.43.0


From cfd7be86652315aa9241555ebeca01ffce4edce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 15/83] fix: addblock: number of ports mismatch raised KeyError
 instead of its ValueError

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index bb09306..c5ee34e 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -603,7 +603,7 @@ class rfCircuit(rfBase):
             if len(RFobj) != len(self.blocks[name]['object']):
                 raise ValueError(
                     f'{whoami(__package__)}: [update {name}] number of ports mismatch: ' 
-                    f'existing {len(self.blocks["object"])}, new {len(RFobj)}')
+                    f'existing {len(self.blocks[name]["object"])}, new {len(RFobj)}')
             
             #TODO: maybe some other checks are in order / necessary
             
-- 
2.43.0


From 6e6ae765b0bb970a04186a214c179e49015cb5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 16/83] fix: getpos: blocks without xpos (arrays) could not be
 connected to a new port

---
 src/pyRFtk/rfCircuit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index c5ee34e..3e082b2 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -760,7 +760,10 @@ class rfCircuit(rfBase):
         except:
             kp = obj.ports.index(node)
             
-        return relpos + obj.xpos[kp]
+        try:
+            return relpos + obj.xpos[kp]
+        except AttributeError: # an object without positions e.g. an array
+            return relpos
                 
     #===========================================================================
     #
-- 
2.43.0


From a1ba36e3f7f246deb669f1ccec79aa73f4227b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:39 +0000
Subject: [PATCH 17/83] fix: rfCircuit.deembed did not keep xpos in step with
 the ports

---
 src/pyRFtk/rfCircuit.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 3e082b2..70eb1ee 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -460,6 +460,8 @@ class rfCircuit(rfBase):
             # create the new internal port
             self.waves += [f'->{ip}', f'<-{ip}']
             self.ports.append(ip)
+            self.xpos.append(
+                self.xpos[self.ports.index(dp)] if dp in self.ports else 0.)
                         
             if dp not in self.ports:
                 raise ValueError(
@@ -481,7 +483,9 @@ class rfCircuit(rfBase):
             self.M[-1, len(self.waves)-2] = -1
             
             # remove the deembeded port
-            self.ports.pop(self.ports.index(dp))
+            _kp = self.ports.index(dp)
+            self.ports.pop(_kp)
+            self.xpos.pop(_kp)
             
             # update the equation types
             self.eqns.append(f'Di {dp}')
@@ -522,8 +526,10 @@ class rfCircuit(rfBase):
             self.eqns.append(f'De {ep}')
             
             # now we need to remove the remaining ports of the port list
-            self.ports.pop(self.ports.index(dp))
-            self.ports.pop(self.ports.index(ep))
+            for _p in (dp, ep):
+                _kp = self.ports.index(_p)
+                self.ports.pop(_kp)
+                self.xpos.pop(_kp)
                         
         _debug_ and tLogger.debug(ident(
             f'< [circuit.deembed]', -1
-- 
2.43.0


From baf60a6a49b82eff6911d6f78e364137f344761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:39 +0000
Subject: [PATCH 18/83] fix: getpos and maxV failed on named nodes that are no
 longer external ports

---
 src/pyRFtk/rfCircuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 70eb1ee..0460c78 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -462,6 +462,7 @@ class rfCircuit(rfBase):
             self.ports.append(ip)
             self.xpos.append(
                 self.xpos[self.ports.index(dp)] if dp in self.ports else 0.)
+            self.nodes[ip] = self.xpos[-1]
                         
             if dp not in self.ports:
                 raise ValueError(
@@ -747,6 +748,9 @@ class rfCircuit(rfBase):
 
         :param node: The node
         """
+        if node in self.nodes: # a node created by connect or deembed
+            return self.nodes[node]
+        
         relpos, obj = 0., self
         while '.' in node:
             try:
@@ -813,6 +817,7 @@ class rfCircuit(rfBase):
             # here we need to make assumptions on the position of the new port
             # -> we take the position of the first port in the list
             self.xpos.append(self.getpos(oldports[0]))
+            self.nodes[p] = self.xpos[-1]
             
         _debug_ and tLogger.debug(ident(f'self.ports = {", ".join(self.ports)}', 0))
         
-- 
2.43.0


From 9d234d5b0bab4098e6209e0c69a04fc0c2bac091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 19/83] fix: nested circuits with announced port order: S was
 put at the wrong ports

---
 src/pyRFtk/rfCircuit.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 0460c78..087c373 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -77,7 +77,7 @@ class rfCircuit(rfBase):
         sNp = kwargs.pop('sNp', None)
         
         # why Portnames ? ports is processed already by rfBase
-        self.Portnames = kwargs.pop('Portnames', [])
+        self.Portnames = list(kwargs.pop('Portnames', []))
         
         if kwargs and type_rfCircuit:
             msg = f'unprocessed kwargs: {", ".join([kw for kw in kwargs])}'
@@ -622,6 +622,11 @@ class rfCircuit(rfBase):
             return
                 
         
+        # a nested circuit's S-matrix will be in its announced port order
+        #
+        if isinstance(RFobj, rfCircuit):
+            RFobj._orderports()
+        
         # RFobj must have len method (this is also true for an nd.array
         #
         N = len(RFobj)
@@ -998,6 +1003,18 @@ class rfCircuit(rfBase):
             f'< [circuit.terminate]', -1
         ))
 
+    #===========================================================================
+    #
+    # _ o r d e r p o r t s
+    #
+    def _orderports(self):
+        """put the ports (and their positions) in the announced order Portnames
+        if these are indeed the ports of the circuit
+        """
+        if sorted(self.Portnames) == sorted(self.ports):
+            self.xpos = [self.xpos[self.ports.index(p)] for p in self.Portnames]
+            self.ports = list(self.Portnames)
+        
     #===========================================================================
     #
     # e x t S
@@ -1038,6 +1055,7 @@ class rfCircuit(rfBase):
                                 f'in list of announced port names'
                             )
                 # use external port ordering
+                self._orderports()
                 self.ports = self.Portnames
                 
             else:
-- 
2.43.0


From 96014854a81b987a3e204c344a952b365b1eb508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 20/83] fix: Solution failed on nested circuits whose ports
 were renamed by addblock

---
 src/pyRFtk/rfCircuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 087c373..e061178 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1618,9 +1618,10 @@ class rfCircuit(rfBase):
                     # -> build the excitation to pass on to the Solution method.    
                     
                     Ek = {}
-                    for pobj in obj.ports:
+                    for pobj, pblk in zip(obj.ports, blk['ports']):
+                        # the port may have been renamed by addblock
                         try:
-                            Ek[pobj] = self.tSol[f'{blkID}.{pobj}'][2]
+                            Ek[pobj] = self.tSol[f'{blkID}.{pblk}'][2]
                             # print(f'[OK] {blkID}.{pobj} -> {Ek[pobj]:7.3f}')
                         except KeyError:
                             for k, s in self.tSol.items():
@@ -1639,7 +1640,7 @@ class rfCircuit(rfBase):
                     
                     # collect and add the result to tSol
                     for tnode, tval in tSolr.items():
-                        self.tSol[f'{blkID}.{tnode}'] = tval
+                        self.tSol.setdefault(f'{blkID}.{tnode}', tval)
                         
         _debug_ and tLogger.debug(ident('< [cicuit.Solution]',-1))
         return self.tSol
-- 
2.43.0


From d8c5411c4aa9d1339e30ba8bd365eb35b83f7a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 21/83] fix: rfObject.maxV returned the lexicographic maximum
 of complex voltages, not the largest magnitude

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 924e4ae..045c016 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -627,7 +627,7 @@ class rfObject():
         Zbase = self.Zbase if Zbase == None else Zbase
         Ea = [E[p] for p in self.ports]
         Eb = self.getS(f, Zbase=Zbase) @ Ea   # implicitly updates and solves the circuit
-        Vi = Ea + Eb
+        Vi = np.abs(Ea + Eb)
         maxVi = np.max(Vi)
         k = np.where(Vi == maxVi)[0][0]
         
-- 
2.43.0


From 97d8f708c4033b97fab81f81df4eb3c478401dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 22/83] fix: rfCircuit.terminate of an already terminated port
 kept the old S at the same frequency

---
 src/pyRFtk/rfCircuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index e061178..72f13cf 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -936,6 +936,7 @@ class rfCircuit(rfBase):
             idxA, idxB, eqn = self.T[port]
             self.M[eqn, idxB] = rho
             self.invM = None
+            self.S = None
         
         elif port in self.E:
             # this port was and external port
-- 
2.43.0


From 03cef8e98e017ccc4a653ef0a46c85a439ecd641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 23/83] fix: rfCircuit.getS ignored params at the frequency of
 the last evaluation

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 72f13cf..6cd572a 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1309,7 +1309,7 @@ class rfCircuit(rfBase):
                            ('flag sNp set to False' if 'sNp' in flags else '(why?)'))
                     tLogger.debug(ident(f'not using sNp: {msg}'))
                     
-                if f != self.f or self.S is None or self.flags != flags:
+                if f != self.f or self.S is None or self.flags != flags or params:
                     
                     # we need to recompute the S-matrix
                     
-- 
2.43.0


From 3fee2feb05ebfafe616fc4f291779852160a88a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 24/83] fix: rfCircuit.set did not accept the dict documented
 in its docstring

---
 src/pyRFtk/rfCircuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 6cd572a..9dcba98 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1194,6 +1194,9 @@ class rfCircuit(rfBase):
                 if isinstance(ak, tuple) and len(ak) == 2:
                     kwargs = dict([ak], **kwargs)
                     
+                elif isinstance(ak, dict):
+                    kwargs = dict(ak, **kwargs)
+                    
                 elif isinstance(ak,str) and len(largs)>0:
                     vk = largs.pop(0)
                     kwargs = dict([(ak,vk)], **kwargs)
-- 
2.43.0


From f14d8e86361819747eda97a4425327652e8079b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:19 +0000
Subject: [PATCH 25/83] fix: len() of an rfRLC failed after set

---
 src/pyRFtk/rfRLC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 6fab2ea..516ef12 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -147,7 +147,7 @@ class rfRLC():
     # _ _ l e n _ _
     #
     def __len__(self):
-        return len(self.S)
+        return len(self.ports)
     
     #===========================================================================
     #
-- 
2.43.0


From 59775f33c6db5412e5a850f9d187028935dc9e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:19 +0000
Subject: [PATCH 26/83] fix: terminating a port of a copy of a solved circuit
 raised KeyError

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 9dcba98..dff1bde 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1075,7 +1075,7 @@ class rfCircuit(rfBase):
         _debug_ and tLogger.debug(ident(f'Portnames= {self.Portnames}'))
         _debug_ and tLogger.debug(ident(f'ports=     {self.ports}'))
         
-        ports = self.Portnames
+        ports = self.ports
         self.idxEs = [ self.E[p] for p in ports]
         idxAs = [self.waves.index('->'+p) for p in ports] # <===== also need to change for different port order
         idxBs = [self.waves.index('<-'+p) for p in ports] # <===== also need to change for different port order
-- 
2.43.0


From 157496d87d090069879fa820da5ffb512e187105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 27/83] fix: rfObject tables filled in arbitrary frequency
 order could not be interpolated

---
 src/pyRFtk/rfObject.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 045c016..1912bd1 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -437,8 +437,11 @@ class rfObject():
             self.fs = self.fs[idxs]
             self.Ss = self.Ss[idxs,:,:]
                         
-            self.Zcs = self.Zcs[idxs,:]
-            self.Gms = self.Gms[idxs,:]
+            # these are only available when read from a touchstone
+            if len(self.Zcs) == len(idxs):
+                self.Zcs = self.Zcs[idxs,:]
+            if len(self.Gms) == len(idxs):
+                self.Gms = self.Gms[idxs,:]
             
             self.sorted = True
         
-- 
2.43.0


From 3cf25f0b1816eee1868781a6009bc0a39726da16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 28/83] fix: rfObject.setS of several unsorted frequencies
 marked the table as sorted

---
 src/pyRFtk/rfObject.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 1912bd1..2027dfb 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -615,9 +615,9 @@ class rfObject():
         self.Ss = np.append(self.Ss, S, axis=0)
         
         # do not sort each time
-        self.sorted = self.sorted and (
-            (len(self.fs) == 1) or (self.fs[-2] < self.fs[-1])
-        )
+        # (check the junction with the previous entries as well as the new ones)
+        tail = self.fs[-(len(f) + 1):]
+        self.sorted = self.sorted and bool(np.all(tail[:-1] < tail[1:]))
         
     #===========================================================================
     #
-- 
2.43.0


From 21e446f6b3f0db55eb6aa5e6d806503dcbe77644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 29/83] fix: rfObject.setS: number of ports mismatch raised
 TypeError instead of its ValueError

---
 src/pyRFtk/rfObject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 2027dfb..792d251 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -600,8 +600,8 @@ class rfObject():
         # self.ports is defined 
         if len(self.ports) != S.shape[-1]:
             raise ValueError(
-                f'{whoami}: number of object\'s Portnames ({len(Portnames)}) '
-                f'does not match shape of S ({len(S.shape[-1])})')
+                f'{whoami}: number of object\'s Portnames ({len(self.ports)}) '
+                f'does not match shape of S ({S.shape[-1]})')
         
         if len(self.fs) == 0:
             # the object has no frequency entries yet ...
-- 
2.43.0


From 89b9f4f12df729c9b4c32b4b30c1c36a7bc48480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 30/83] fix: _check_3D_shape_ raised TypeError instead of its
 ValueError for an unexpected shape

---
 src/pyRFtk/_check_3D_shape_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/_check_3D_shape_.py b/src/pyRFtk/_check_3D_shape_.py
index 14b1719..196f281 100644
--- a/src/pyRFtk/_check_3D_shape_.py
+++ b/src/pyRFtk/_check_3D_shape_.py
@@ -25,7 +25,7 @@ def _check_3D_shape_(M3):
         #    a square 2D list or array which is reshaped to (1, N, N), N = len(list)
         #    a list or aray of square 2D lists / arrays of the shape (M, N, N)
         #
-        raise ValueError('_check_3d_shape_: Unexpected shape: %r' % (M3.shape))
+        raise ValueError('_check_3d_shape_: Unexpected shape: %r' % (M3.shape,))
 
     return L, M3
     
-- 
2.43.0


From 27244dbf7d69f18aef87b6efc118be81ac7cbb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 31/83] fix: rfObject.setS of a list of an unexpected shape
 raised AttributeError

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 792d251..8bda129 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -578,7 +578,7 @@ class rfObject():
         try:
             *_, S =  _check_3D_shape_(S)
         except ValueError:
-            raise ValueError(f'{whoami}: Unexpected shape: {S.shape}')
+            raise ValueError(f'{whoami}: Unexpected shape: {np.shape(S)}')
         
         f =  np.array(f) if hasattr(f, '__iter__') else np.array([f])
                     
-- 
2.43.0


From f5ee165672f8a624ddaa04e9431e089bbe8aa0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 32/83] fix: rfObject ports defined by setS had no positions

---
 src/pyRFtk/rfObject.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 8bda129..17626ec 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -603,6 +603,10 @@ class rfObject():
                 f'{whoami}: number of object\'s Portnames ({len(self.ports)}) '
                 f'does not match shape of S ({S.shape[-1]})')
         
+        if len(self.xpos) != len(self.ports):
+            # the ports were only just defined
+            self.xpos = [0.] * len(self.ports)
+        
         if len(self.fs) == 0:
             # the object has no frequency entries yet ...
             self.Ss = self.Ss.reshape((0,)+S.shape[-2:])
-- 
2.43.0


From 52f210184fdacaea2d748e858780b2576730bf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:20 +0000
Subject: [PATCH 33/83] fix: rfObject.sortports failed for tables without port
 impedances

---
 src/pyRFtk/rfObject.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 17626ec..d7b8d1d 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -422,8 +422,11 @@ class rfObject():
         
         self.ports = [self.ports[k] for k in idxs]
         self.Ss = self.Ss[:,:,idxs][:,idxs,:]
-        self.Zcs = self.Zcs[:,idxs]
-        self.Gms = self.Gms[:,idxs]
+        # these are only available when read from a touchstone
+        if self.Zcs.ndim == 2:
+            self.Zcs = self.Zcs[:,idxs]
+        if self.Gms.ndim == 2:
+            self.Gms = self.Gms[:,idxs]
     
     #===========================================================================
     #
-- 
2.43.0


From 93a7df9e43c44e3b45a12ef227dde6e22ad261ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:20 +0000
Subject: [PATCH 34/83] fix: rfObject.sortports did not reorder the positions
 of the ports

---
 src/pyRFtk/rfObject.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index d7b8d1d..c220c3e 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -421,6 +421,8 @@ class rfObject():
             idxs = np.array(self.ports).argsort()
         
         self.ports = [self.ports[k] for k in idxs]
+        if len(self.xpos) == len(idxs):
+            self.xpos = [self.xpos[k] for k in idxs]
         self.Ss = self.Ss[:,:,idxs][:,idxs,:]
         # these are only available when read from a touchstone
         if self.Zcs.ndim == 2:
-- 
2.43.0


From 3acaf4ae17e7083ca9dd57d55838dd2664bab668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:20 +0000
Subject: [PATCH 35/83] fix: rfObject.sortports: interpolation continued with
 the old port order

---
 src/pyRFtk/rfObject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index c220c3e..74bc4cb 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -424,6 +424,7 @@ class rfObject():
         if len(self.xpos) == len(idxs):
             self.xpos = [self.xpos[k] for k in idxs]
         self.Ss = self.Ss[:,:,idxs][:,idxs,:]
+        self.interpOK = False
         # these are only available when read from a touchstone
         if self.Zcs.ndim == 2:
             self.Zcs = self.Zcs[:,idxs]
-- 
2.43.0


From 91eb18d73ea2ee0ca9957def38000ce964ad34dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:20 +0000
Subject: [PATCH 36/83] fix: rfObject.convert2newZbase: interpolation continued
 with the old reference impedance

---
 src/pyRFtk/rfObject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 74bc4cb..78d972d 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -524,6 +524,7 @@ class rfObject():
         
         self.Ss = ConvertGeneral(newZbase, self.Ss, self.Zbase, 'V', 'V')
         self.Zbase = newZbase
+        self.interpOK = False
     
     #===========================================================================
     #
-- 
2.43.0


From 4a97422d298a07692ac8efaf54dce84041740071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:20 +0000
Subject: [PATCH 37/83] fix: rfObject.__setitem__: interpolation continued with
 the old table

---
 src/pyRFtk/rfObject.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 78d972d..54a9f96 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -346,6 +346,8 @@ class rfObject():
     def __setitem__(self, k, value):
         self.fs[k] = value[0]
         self.Ss[k,:,:] = value[1]
+        self.interpOK = False
+        self.sorted = False # the frequency may have changed
     
     #===========================================================================
     #
-- 
2.43.0


From cc911a27beddd2d1abbeb2f50dc9fa10e2cf836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 38/83] fix: rfObject.deembed of a scalar length or a dict
 raised TypeError

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 54a9f96..4d9688a 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -723,7 +723,7 @@ class rfObject():
                 if isinstance(v,tuple) and len(v) == 2:
                     L, Z = v
                     TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
-                elif isinstance(v, [int, float]):
+                elif isinstance(v, (int, float)):
                     L, Z = v, self.Zbase
                     TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
                 elif isinstance(v, dict):
-- 
2.43.0


From 2d6374531e5efc4a24a788d9034843d3de275cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 39/83] fix: rfObject.deembed of a dict without Zbase raised
 KeyError

---
 src/pyRFtk/rfObject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 4d9688a..32424e2 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -727,8 +727,8 @@ class rfObject():
                     L, Z = v, self.Zbase
                     TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
                 elif isinstance(v, dict):
-                    v.pop('Zbase') # we need it in self.Zbase
-                    TRL = rfTRL(**v, Zbase=self.Zbase)
+                    # we need it in self.Zbase
+                    TRL = rfTRL(**{**v, 'Zbase': self.Zbase})
                 else:
                     raise ValueError(
                         f'pyRFtk2.rfObject.deembed: invalid deembed data for port {port}')
-- 
2.43.0


From 3db93de0c1190ce5640776243bf4e998e9273282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 40/83] fix: rfObject.deembed emptied the caller's ports dict

---
 src/pyRFtk/rfObject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 32424e2..74b09a6 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -717,6 +717,7 @@ class rfObject():
           
         self.interpOK = False      
         
+        ports = dict(ports) # the caller's dict is not to be modified
         for kp, port in enumerate(self.ports):
             if port in ports:
                 v = ports.pop(port, (0., self.Zbase))
-- 
2.43.0


From 2ed38b86ea22f6461838ec5b43d659d37c715dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 41/83] fix: rfObject.deembed used the frequencies as Hz
 whatever the unit of the table

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 74b09a6..459710f 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -736,7 +736,7 @@ class rfObject():
     
                 
                 for kS, (f, Sobj) in enumerate(zip(self.fs, self.Ss)):
-                    Strl = TRL.getS(f)
+                    Strl = TRL.getS(f * self.fscale) # rfTRL expects Hz
                                         
                     qn = 1 - Strl[0,0] * Sobj[kp,kp]
                     if np.abs(qn) != 0:
-- 
2.43.0


From 7a5bef7c8ec4e0925100ef2d137fcd3abb22debd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 42/83] fix: ReadTSF raised UnboundLocalError (ValueError) when
 R (its value) was missing

---
 src/pyRFtk/ReadTSF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 80b2731..67fc844 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -378,7 +378,8 @@ def ReadTSF(src, **kwargs):
                 err = []
     
     else: # this should be the case when no Zcs or gammas are present
-        nZbase = len(Zlist)
+        Zbase = 50. if Zbase is None else Zbase  # the touchstone default
+        nZbase = len(Zbase) if hasattr(Zbase, '__iter__') else 1
                 
         
     # if the data type is Z or Y we need to convert to S
-- 
2.43.0


From e45d6697a2e1492223ae55ac6c9ba3444d1280e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 43/83] fix: ReadTSF of a 1-port with port impedance comments
 and R raised TypeError

---
 src/pyRFtk/ReadTSF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 67fc844..41b6bc5 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -333,8 +333,8 @@ def ReadTSF(src, **kwargs):
                      ' Complex Port Impedances'
                 )
                 
-            Gms = [np.diag(Gmk) for Gmk in Gms]
-            Zcs = [np.diag(Zck) for Zck in Zcs]
+            Gms = np.array([np.diag(Gmk) for Gmk in Gms])
+            Zcs = np.array([np.diag(Zck) for Zck in Zcs])
         
     # get the frequencies and scale for the units
     fs = np.array(fs, dtype=float) * fscale(funit, Tfunit)
-- 
2.43.0


From d20fdf1f28d253b49f96a7e043986898b2a6fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 44/83] fix: ReadTSF of !SHAPE with one number raised
 AttributeError

---
 src/pyRFtk/ReadTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 41b6bc5..c188d0e 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -170,7 +170,7 @@ def ReadTSF(src, **kwargs):
         if len(tlist) > 0:
             shape = tuple([int(x) for x in tlist[0].split()[:2]])
             if len(shape) == 1:
-                shape.append(0)
+                shape += (0,)
             
         tlist = re.findall('!PART (.+)',aline)
         if len(tlist) > 0:
-- 
2.43.0


From ca828076f566c0219decafbd04f4e3da1a6ac630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 45/83] fix: ReadTSF of !NUMBERING without !SHAPE raised
 TypeError

---
 src/pyRFtk/ReadTSF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index c188d0e..e2f0b84 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -181,8 +181,8 @@ def ReadTSF(src, **kwargs):
         tlist = re.findall('!NUMBERING (.+)',aline)
         if len(tlist) > 0:
             numbering = tuple([x.lower() for x in tlist[0].split()[:2]])
-            if len(shape) < 2:
-                shape = shape[0] # so numbering becomes type str rather than tuple
+            if len(numbering) == 1:
+                numbering = numbering[0] # so numbering becomes type str rather than tuple
             
         
     # detect the source of the touchstone
-- 
2.43.0


From e8a53c694343d39260f0c9b2ebdb1c12464be00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:44 +0000
Subject: [PATCH 46/83] fix: 2-port touchstones were read (and written by
 WriteTSF) with S12 and S21 exchanged

---
 src/pyRFtk/ReadTSF.py  | 2 ++
 src/pyRFtk/WriteTSF.py | 7 ++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index e2f0b84..bebdc80 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -105,6 +105,8 @@ def ReadTSF(src, **kwargs):
     # reshape the collected coeffcients
     N = int(round(np.sqrt( len(Ss[0]) )))
     Ss = np.array(Ss).reshape((len(fs), N, N))
+    if N == 2: # touchstone v1: the order for 2-ports is 11, 21, 12, 22
+        Ss = Ss.transpose((0, 2, 1))
     
     # analyse the format string: 
     #  for unnormalized data (R missing) Zbase is set to None
diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index e03ba21..1ab93f1 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -28,9 +28,8 @@ def WriteTSF(object, path2tsf=None,
         comments   : multi-line string
         
         
-        note (I believe) the touchstone specification 1.1 transposes the 
-             the coefficients for .s2p (2-ports): this is not implemented here
-             as it is (apparently) not done in ReadTSF. 
+        note the touchstone specification 1.1 transposes the coefficients 
+             for .s2p (2-ports)
         
     """
 
@@ -100,6 +99,8 @@ def WriteTSF(object, path2tsf=None,
     for k,fk in enumerate(fs):
         s += (f'%{num_format[0]}' % (fk / fscale)) + ' '
         d = object.getS(fk, Zbase=zref)
+        if nports == 2: # touchstone convention for 2-ports
+            d = np.transpose(d)
         for kr in range(nports):
             for kc in range(nports):
                 dij = d[kr,kc]
-- 
2.43.0


From 76f4000442ce185e6b589512016647c4177e6edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 47/83] fix: rfBase.tsf2str of Z or Y called a module instead
 of the function

---
 src/pyRFtk/rfBase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index e6367b0..fe8ba6c 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -19,7 +19,8 @@ from .config import logident, logit, _newID
 from .whoami import whoami
 from .printMatrices import strM
 from .ConvertGeneral import ConvertGeneral
-from . import Z_from_S, Y_from_S
+from .Z_from_S import Z_from_S
+from .Y_from_S import Y_from_S
 from ._check_3D_shape_ import _check_3D_shape_
         
 #===============================================================================
-- 
2.43.0


From 021cba0113811b249b1fd7cd70f3b14aa67c0ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 48/83] fix: rfBase.tsf2str without RI, MA or DB in tfmt raised
 UnboundLocalError

---
 src/pyRFtk/rfBase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index fe8ba6c..344fc3a 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -349,7 +349,6 @@ class rfBase():
             
             elif tk in ['RI', 'MA', 'DB']:
                 elmfmt = tk
-                elstr = elstrs[elmfmt]
             
             elif tk in ['S', 'Y', 'Z']:
                 mtype = tk
@@ -358,7 +357,8 @@ class rfBase():
                 raise ValueError(f'{whoami(__package__)}: '  # @UndefinedVariable
                                  f'unknown touchstone format directive {tk}')
             last = tk
-            
+        
+        elstr = elstrs[elmfmt]
 
         eoln = '\n'
         
-- 
2.43.0


From 69e10dd2f0665a0187c9fc6992cf6daab09a84b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 49/83] fix: rfBase.tsf2str without frequency unit in tfmt
 wrote Hz, which is read as GHz

---
 src/pyRFtk/rfBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 344fc3a..24b5be4 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -322,7 +322,7 @@ class rfBase():
             raise TypeError(f'{whoami(__package__)}: ' # @UndefinedVariable
                             f'Unknown kwargs {", ".join([kw for kw in kwargs])}') 
                     
-        elmfmt, mtype, Zref, fscale, funit = 'MA', 'S', 50.0, 1.0, 'MHZ'
+        elmfmt, mtype, Zref, fscale, funit = 'MA', 'S', 50.0, 1e9, 'GHZ'
         fscales = {'HZ': 1, 'KHZ':1e3, 'MHZ':1e6, 'GHZ':1e9}
         elstrs = {
             'RI': lambda z: '  %11.8f %11.8f' % (z.real, z.imag),
-- 
2.43.0


From a1b3963edb362b735e2c231c45677d5a00b9f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 50/83] fix: rfBase.tsf2str refused tfmt='#MHZ ...' and wrote
 no option line without '#'

---
 src/pyRFtk/rfBase.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 24b5be4..bedfaf4 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -331,9 +331,8 @@ class rfBase():
                                                  np.angle(z,deg=1)),
         }
         
-        fmts = tfmt.upper().split()
-        if fmts[0] == '#':
-            fmts = fmts[1:]
+        tfmt = '# ' + tfmt.strip().lstrip('#').lstrip()
+        fmts = tfmt.upper().split()[1:]
             
         last = ''
         for k, tk in enumerate(fmts):
-- 
2.43.0


From 6b60c5d86f1276f98e01b464145b29bfa6c30897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 51/83] fix: rfBase.tsf2str truncated frequencies that are no
 multiples of their step

---
 src/pyRFtk/rfBase.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index bedfaf4..260c6c2 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -392,20 +392,12 @@ class rfBase():
         freq_fmt_len = 10
         
         if True:
-            # find the optimal frequency format that is able to represent the
-            # smallest frequency step as well as the maximun frequency
-            
-            if len(Fs) > 1:
-                for df in list(set(sorted(np.diff(Fs)))):
-                    if df > 0.:
-                        break
-            else:
-                df = Fs[0]
+            # find the optimal frequency format that is able to represent all 
+            # the frequencies
             
             m0, dm = 15, 3
             m = m0
-            df0 = round(df,m)
-            while m >= 0 and df0 == round(df,m):
+            while m >= 0 and all(round(f_,m0) == round(f_,m) for f_ in Fs):
                 m -= dm
             m += dm
             freq_frac = '.%df' % m
-- 
2.43.0


From 4b8bb98f8d87995025469b9b86dc7ec557e2daef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 52/83] fix: WriteTSF ignored a lower case r in tsf_format

---
 src/pyRFtk/WriteTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 1ab93f1..0a73007 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -50,7 +50,7 @@ def WriteTSF(object, path2tsf=None,
         zref = float(
                 re.findall(
                     r'^.*?R\s*([-+]?(?:\d*[\.])?\d+(?:[eE][-+]?\d+)?).*?$',
-                    tsf_format
+                    tsf_format.upper()
                 )[0]
                )
     except:
-- 
2.43.0


From cf6857aca622313ce06d7041861ddc0890c0229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 53/83] fix: WriteTSF without RI, MA or DB in tsf_format wrote
 dB, which is read as MA

---
 src/pyRFtk/WriteTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 0a73007..78c21e7 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -58,7 +58,7 @@ def WriteTSF(object, path2tsf=None,
         
     fmt = re.findall('(RI|MA|DB)',tsf_format.upper())
     if len(fmt) == 0:
-        fmt = 'DB'  # default
+        fmt = 'MA'  # the touchstone default
     elif len(fmt) == 1:
         fmt = fmt[0]
     else:
-- 
2.43.0


From 1c7aafbd48e305831cfa6eb978bcfadaa56149e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 54/83] fix: WriteTSF without frequency unit in tsf_format
 raised IndexError

---
 src/pyRFtk/WriteTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 78c21e7..66c2fef 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -44,7 +44,7 @@ def WriteTSF(object, path2tsf=None,
     s += '\n# %s \n\n' % tsf_format
     
     fscale = {'HZ': 1e0, 'KHZ':1e3,'MHZ':1e6, 'GHZ':1e9, 'THZ':1e12}[
-        re.findall('^.*?([KMG]?HZ).*$',tsf_format.upper())[0]]
+        (re.findall('^.*?([KMG]?HZ).*$',tsf_format.upper()) or ['GHZ'])[0]]
 
     try:
         zref = float(
-- 
2.43.0


From bf42f3e44a50190b6e78ac67c05c429986a708e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 55/83] fix: WriteTSF wrote S parameters whatever the type in
 tsf_format

---
 src/pyRFtk/WriteTSF.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 66c2fef..9348b0b 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -4,6 +4,9 @@ import numpy as np
 import re
 import time
 
+from .Z_from_S import Z_from_S
+from .Y_from_S import Y_from_S
+
 
 
 #===============================================================================
@@ -66,6 +69,8 @@ def WriteTSF(object, path2tsf=None,
             'WriteTSF: one one of DB, RI or MA allowed in format string'
             )
         
+    mtype = (re.findall(r'\b([SYZ])\b', tsf_format.upper()) or ['S'])[0]
+    
     try:
         if len(object.ports) > 0 :
             s += '!PORTS ' + ', '.join(object.ports) + '\n\n'
@@ -99,6 +104,10 @@ def WriteTSF(object, path2tsf=None,
     for k,fk in enumerate(fs):
         s += (f'%{num_format[0]}' % (fk / fscale)) + ' '
         d = object.getS(fk, Zbase=zref)
+        if mtype == 'Z':
+            d = Z_from_S(d, zref)
+        elif mtype == 'Y':
+            d = Y_from_S(d, zref)
         if nports == 2: # touchstone convention for 2-ports
             d = np.transpose(d)
         for kr in range(nports):
-- 
2.43.0


From dbc30c77c8004ec9e903a5ec7f95874a13a32ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 56/83] fix: rfGTL arc blocks raised ValueError (made a line of
 them)

---
 src/pyRFtk/rfGTL.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 36e5c34..feafc37 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -13,7 +13,8 @@ import warnings
 from copy import deepcopy
 
 
-from . import rfCircuit, rfTRL, rfRLC, rfObject, rfArcObj
+from . import rfCircuit, rfTRL, rfRLC, rfObject
+from .rfArcObj import rfArcObj
 from .whoami import whoami 
 from .config import logit, tLogger, ident, _newID, logident
 
@@ -186,10 +187,10 @@ class rfGTL(rfCircuit):
                 # rfRLC object                       
                 # obsolete -- xposlist[blk] = [xpos, xpos]
                 RFobj = rfRLC(Zbase=self.Zbase,**tkwargs)
-            elif len(kwargs) == 1 and 'Larc' in kwargs:
+            elif len(tkwargs) == 2 and 'Larc' in tkwargs: # 'ports' and 'Larc'
                 # rfArcObject
                 # obsolete -- xposlist[blk] = [xpos, xpos]
-                RFobj = rfArcObj(kwargs['Larc'])
+                RFobj = rfArcObj(tkwargs['Larc'], Zbase=self.Zbase)
             else:
                 # rfTRL object
                 # obsolete -- xposlist[blk] = [xpos, xpos + tkwargs['L']]
-- 
2.43.0


From 71d99cb32841c34d02ff238a3580d6ceb250c89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 57/83] fix: rfGTL variables were evaluated with the text of
 unresolved variables

---
 src/pyRFtk/rfGTL.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index feafc37..36e897c 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -93,10 +93,12 @@ class rfGTL(rfCircuit):
         found = True # prime the while loop
         while found:
             found = {}
+            resolved = dict((var, val) for var, val in self.vars.items()
+                            if not isinstance(val, str))
             for var, val in self.vars.items():
                 if isinstance(val, str):
                     try:
-                        found[var] = eval(val, globals(), self.vars)
+                        found[var] = eval(val, globals(), resolved)
                     except (NameError, SyntaxError, TypeError):
                         pass # probably could not resolve yet
             if found:
-- 
2.43.0


From 8efb6fa948c8eb78311b5f044ef18655ae1aa0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 58/83] fix: rfBase.maxV returned bare voltages, which scaleVSW
 refused and strVSW and plotVSWs skipped

---
 src/pyRFtk/rfBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 260c6c2..a7a05ed 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -478,7 +478,7 @@ class rfBase():
         Vmax = np.max(absV)
         where = self.ports[list(np.where(absV == Vmax)[0])[0]]
         VSWs = {
-            Id: dict( (p, Vp) for p, Vp in zip(self.ports, absV))
+            Id: dict( (p, ([xp], [Vp])) for p, xp, Vp in zip(self.ports, xpos, absV))
         }
         
         return Vmax, where, VSWs
-- 
2.43.0


From bc64078d1e054c57bb4cfc6c96a09ecbc559951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 59/83] fix: scaleVSW of a node (x, V) raised TypeError

---
 src/pyRFtk/plotVSWs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/plotVSWs.py b/src/pyRFtk/plotVSWs.py
index 2f20e8a..4219b2d 100644
--- a/src/pyRFtk/plotVSWs.py
+++ b/src/pyRFtk/plotVSWs.py
@@ -212,7 +212,7 @@ def scaleVSW(VSW, scale):
                 for k in range(len(val[1])):
                     val[1][k] *= scale
             else:
-                VSW[Id][1] *= scale
+                VSW[Id] = (val[0], val[1] * scale)
         else:
             raise ValueError('pyRFtk.CommonLib.plotVSWs.scaleVSW: internal error')
         
-- 
2.43.0


From 0cba7c4da1fe2dcf6cd5aa649f7ff93843c9f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 60/83] fix: strVSW wrote negative positions without their sign

---
 src/pyRFtk/plotVSWs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/plotVSWs.py b/src/pyRFtk/plotVSWs.py
index 4219b2d..c673313 100644
--- a/src/pyRFtk/plotVSWs.py
+++ b/src/pyRFtk/plotVSWs.py
@@ -231,7 +231,7 @@ def strVSW(VSW, indent=0):
                 if len(val[0]) == len(val[1]):
                     for _, (x, y) in enumerate(zip(val[0], val[1]),1):
                         try:
-                            s += f'{" "*(indent+2)}{_:5d}:{np.abs(x):10.3f},{np.abs(y):10.3f}\n'
+                            s += f'{" "*(indent+2)}{_:5d}:{x:10.3f},{np.abs(y):10.3f}\n'
                         except:
                             if x is None:
                                 s += f'{" "*(indent+2)}{_:5d}:{" < None > ":10s},{np.abs(y):10.3f}\n'
-- 
2.43.0


From 3ce2cdd95d39ebb341690bd9bc9280b920161c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 61/83] fix: str_dict repeated the text of all previous calls

---
 src/pyRFtk/str_dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/str_dict.py b/src/pyRFtk/str_dict.py
index 4186b6c..5121893 100644
--- a/src/pyRFtk/str_dict.py
+++ b/src/pyRFtk/str_dict.py
@@ -6,6 +6,8 @@ def str_dict(adict):
         str_dict.N
     except AttributeError:
         str_dict.N = 0
+    
+    if str_dict.N == 0:
         str_dict.s = ''
     
     if isinstance(adict, dict):
-- 
2.43.0


From 32bf2e5c56dad742aa4ef09f22f05beba71f7c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 62/83] fix: strVSW wrote negative positions of scalar nodes
 without their sign

---
 src/pyRFtk/plotVSWs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/plotVSWs.py b/src/pyRFtk/plotVSWs.py
index c673313..0cced9d 100644
--- a/src/pyRFtk/plotVSWs.py
+++ b/src/pyRFtk/plotVSWs.py
@@ -240,7 +240,7 @@ def strVSW(VSW, indent=0):
                 else:
                     s += f'! unequal array/list lengths x:{len(val[0])} <> y:{len(val[0])}\n'
             elif not (hasattr(val[0],'__iter__') or hasattr(val[1],'__iter__')):
-                s += f'{" "*(indent+2)}{"node":5s}:{np.abs(val[0]):10.3f},{np.abs(val[1]):10.3f}\n'
+                s += f'{" "*(indent+2)}{"node":5s}:{val[0]:10.3f},{np.abs(val[1]):10.3f}\n'
             else:
                 s += f'! tuple error ...\n'
         else:
-- 
2.43.0


From 3457bb7fe672c63aa35a8b7a81f7833d915d2945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:51 +0000
Subject: [PATCH 63/83] fix: maxfun returned a position as the maximum when
 points are too close for the parabola

---
 src/pyRFtk/maxfun.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyRFtk/maxfun.py b/src/pyRFtk/maxfun.py
index cd57cc5..2412fa5 100644
--- a/src/pyRFtk/maxfun.py
+++ b/src/pyRFtk/maxfun.py
@@ -64,8 +64,7 @@ def maxfun(xs, ys):
                 xymax = xy
         else:
             debug and tLogger.debug(ident('Warning result outside window'))
-            xymax = 0, 0
-            for xm, ym in zip(xs[idx:idx+3],xs[idx:idx+3]):
+            for xm, ym in zip(xs[idx:idx+3],ys[idx:idx+3]):
                 if ym > xymax[1]:
                     xymax = xm, ym
             
-- 
2.43.0


From 5f4993c933eb1be1f5c19063237ccc6160197cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:51 +0000
Subject: [PATCH 64/83] fix: maxfun of samples in decreasing order of x missed
 the maxima between the samples

---
 src/pyRFtk/maxfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/maxfun.py b/src/pyRFtk/maxfun.py
index 2412fa5..4e0d023 100644
--- a/src/pyRFtk/maxfun.py
+++ b/src/pyRFtk/maxfun.py
@@ -59,7 +59,7 @@ def maxfun(xs, ys):
                            deg=2)
         
         xy = (-p[1]/(2*p[0]), p[2]-p[1]**2/(4*p[0]))
-        if  xs[idx] <= xy[0] <= xs[idx+2]:
+        if  min(xs[idx],xs[idx+2]) <= xy[0] <= max(xs[idx],xs[idx+2]):
             if xy[1] > xymax[1]:
                 xymax = xy
         else:
-- 
2.43.0


From b52db4ec555323c92f767e918890f9c75a497e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 65/83] fix: addblock emptied the caller's ports dict

---
 src/pyRFtk/rfCircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index dff1bde..a865aa2 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -341,6 +341,7 @@ class rfCircuit(rfBase):
             ports = {} if ports is None else ports
             if isinstance(ports, dict):
                 # remap port names (note: empty dict pulls the object's portnames)
+                ports = ports.copy()
                 oports = [ports.pop(_p, _p) for _p in RFobj.ports]
                 # possibly the user supplied non-existing port names
                 if ports:
@@ -636,6 +637,7 @@ class rfCircuit(rfBase):
             ports = {} if ports is None else ports
             if isinstance(ports, dict):
                 # remap port names (note: empty dict pulls the object's portnames)
+                ports = ports.copy()
                 oports = [ports.pop(_p, _p) for _p in RFobj.ports]
                 # possibly the user supplied non-existing port names
                 if ports:
-- 
2.43.0


From 34419dc8601e4cee20aa98c4634fcf91ad4a10d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 66/83] fix: addblock replacing a block ignored its params (in
 a nested circuit: replaced those of the circuit)

---
 src/pyRFtk/rfCircuit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index a865aa2..31156c2 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -599,8 +599,6 @@ class rfCircuit(rfBase):
             
             subblockobj.addblock(subblock, RFobj, ports=ports, params=params, **kwargs)
             self.blocks[name]['object'] = subblockobj
-            if '.' not in subblock:
-                self.blocks[name]['params'] = params
                 
             _debug_ and logident(
                 f'< [circuit.addblock] (replaced at a deeper level)', -1
@@ -616,6 +614,7 @@ class rfCircuit(rfBase):
             #TODO: maybe some other checks are in order / necessary
             
             self.blocks[name]['object'] = RFobj
+            self.blocks[name]['params'] = params
             
             _debug_ and tLogger.debug(ident(
                 f'< [circuit.addblock] (replaced at this level)', -1
-- 
2.43.0


From 1d5f84e6b01f2732c8a70722b3e4764079839eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 67/83] fix: addblock of an array raised AttributeError when
 diagnostics are on

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 31156c2..4bba9a6 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -566,7 +566,7 @@ class rfCircuit(rfBase):
         _debug_ = logit['DEBUG'] 
         _debug_ and tLogger.debug(ident(
             f'> [circuit.addblock] '
-            f'name= {name}, RFobj= {RFobj.Id}, '
+            f'name= {name}, RFobj= {getattr(RFobj, "Id", type(RFobj).__name__)}, '
             f'ports= {ports}, params={params}, kwargs= {kwargs}',
             1
         ))
-- 
2.43.0


From c376ca7e5670f9835edee7107da57948389c73a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 68/83] fix: set of a block in a nested circuit raised
 AttributeError when diagnostics are on

---
 src/pyRFtk/rfCircuit.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 4bba9a6..77d8919 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1258,10 +1258,7 @@ class rfCircuit(rfBase):
             except:
                 raise
             
-            attr = [kw for kw in val][0]
-            debug and logident(
-                f'{obj.Id}.{attr} -> {getattr(obj,attr)}'
-            )
+            debug and logident(f'{obj.Id} <- {val}')
                        
         if modified:
             self.invM = None # mark the circuit as not solved
-- 
2.43.0


From f83646d0cd546e9cd87654e6e625f5a7e9d8ab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 69/83] fix: resolve_xpos raised an exception for every port of
 a block

---
 src/pyRFtk/rfCircuit.py | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 77d8919..c7da4a4 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1660,22 +1660,7 @@ class rfCircuit(rfBase):
             _x = rXpos[_kp]
             if _x is not None:
                 continue
-            blkID, blkport = (_p.split('.',1) + [None])[:2]
-            if blkport is not None:
-                obj = self.blocks[blkID]['object']
-                try:
-                    rXpos[_kp] = self.blocks[blkID]['xpos'][obj.ports.index(blkport)]
-                except ValueError:
-                    raise ValueError(
-                        f'rfCircuit.resolve_xpos: port {blkport} is not in block {blkID}'
-                    )
-                except Exception as e:
-                    raise RuntimeError(
-                        f'rfCircuit.resolve_xpos: while checking for {_p} {e} occured'
-                    )
-                
-            if rXpos[_kp] is None:
-                rXpos[_kp] = 0.
+            rXpos[_kp] = self.getpos(_p)
             
         self.xpos = rXpos
         
-- 
2.43.0


From 5b6393aa924e82349728d7374413d000a21b0f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:25 +0000
Subject: [PATCH 70/83] fix: printing a circuit with an array as block raised
 TypeError

---
 src/pyRFtk/rfCircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index c7da4a4..ea515d4 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -197,8 +197,8 @@ class rfCircuit(rfBase):
                         s +=  f'|   {blkID}: \n'
                         #fixme: embellish this type of block
                         mx = max([len(_p) for _p in blk['ports']])
-                        for _p, _x in zip(blk['ports'], blk['xpos']):
-                            s += f'|   |   {_p:{mx+1}s} @ {_x:7.4f}m\n'
+                        for _p in blk['ports']:
+                            s += f'|   |   {_p:{mx+1}s} @ {blk["xpos"]:7.4f}m\n'
                         s += f'|   |\n'
 
                         s += f'+   fixed numpy array like at {thisid}\n'
-- 
2.43.0


From c6d85e3594d6a6c9665b8060a2520fc8f996c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 71/83] fix: connect of a port already in use raised ValueError
 but left the circuit inconsistent

---
 src/pyRFtk/rfCircuit.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index ea515d4..716bbb7 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -816,6 +816,13 @@ class rfCircuit(rfBase):
         oldports = [p for p in ports if ('->'+p) in self.waves]
         _debug_ and tLogger.debug(ident(f'old ports: {", ".join(oldports)}', 0))
         
+        # nothing is modified when the ports are not available
+        for k, p in enumerate(ports):
+            if p in oldports and (p not in self.ports or p in ports[:k]):
+                raise ValueError(
+                    f'{whoami(__package__)}: port {p} is already in use'
+                )
+        
         for p in newports:
             self.waves.append('->'+p)
             self.waves.append('<-'+p) 
-- 
2.43.0


From 803b27dc50b70a7f29f65e34b290037bd24b08e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 72/83] fix: deembed of ports that do not exist raised
 ValueError but left the circuit inconsistent

---
 src/pyRFtk/rfCircuit.py | 42 +++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 716bbb7..19086c5 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -441,6 +441,28 @@ class rfCircuit(rfBase):
                 )
             
         
+        # nothing is modified when the ports are not available
+        
+        free = list(self.ports)
+        for dp, ip in IntPorts:
+            if ip in free:
+                raise ValueError(
+                    f'{whoami(__package__)}: (internal) port {ip} already exists '
+                )
+            if dp not in free:
+                raise ValueError(
+                    f'{whoami(__package__)}: (external) port {dp} does not exist'
+                )
+            free[free.index(dp)] = ip
+                
+        for dp, ep in ExtPorts:
+            for p in (dp, ep):
+                if p not in free:
+                    raise ValueError(
+                        f'{whoami(__package__)}: (external) port {p} does not exist'
+                    )
+                free.remove(p)
+        
         # add the columns for the internal ports
         
         self.M = np.hstack((
@@ -453,11 +475,6 @@ class rfCircuit(rfBase):
           
         for dp, ip in IntPorts:
             
-            if ip in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (internal) port {ip} already exists '
-                )
-            
             # create the new internal port
             self.waves += [f'->{ip}', f'<-{ip}']
             self.ports.append(ip)
@@ -465,11 +482,6 @@ class rfCircuit(rfBase):
                 self.xpos[self.ports.index(dp)] if dp in self.ports else 0.)
             self.nodes[ip] = self.xpos[-1]
                         
-            if dp not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {dp} does not exist'
-                )
-                
             idxA = self.waves.index(f'->{dp}')
             idxB = self.waves.index(f'<-{dp}')
             
@@ -496,16 +508,6 @@ class rfCircuit(rfBase):
         
         for dp, ep in ExtPorts:
             
-            if dp not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {dp} does not exist'
-                )
-                
-            if ep not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {ep} does not exist'
-                )
-                
             # add two rows to self.M
             self.M = np.vstack((
                 self.M, 
-- 
2.43.0


From b037496d5f711bea583327c8f1ed5a7d29748175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:41 +0000
Subject: [PATCH 73/83] fix: deembed to the name of a port already in use gave
 a wrong circuit

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 19086c5..c4bf514 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -445,7 +445,7 @@ class rfCircuit(rfBase):
         
         free = list(self.ports)
         for dp, ip in IntPorts:
-            if ip in free:
+            if ip in free or f'->{ip}' in self.waves:
                 raise ValueError(
                     f'{whoami(__package__)}: (internal) port {ip} already exists '
                 )
-- 
2.43.0


From 070fb22013396bec42f4fe9e345b6d590b2edfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:48 +0000
Subject: [PATCH 74/83] fix: set of a RLC element with an unknown parameter
 changed the others but kept the old S-matrix

---
 src/pyRFtk/rfRLC.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 516ef12..ba7e0ae 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -158,11 +158,12 @@ class rfRLC():
         _debug_ = logit['DEBUG']
         _debug_ and logident('>', printargs=True)
 
-        modified = False
-        for kw, val in kwargs.items():
+        for kw in kwargs: # all or nothing is set
             if not hasattr(self, kw) or kw not in self.attrs:
                 raise ValueError(f'rfTRL.set: parameter {kw} not present')
         
+        modified = False
+        for kw, val in kwargs.items():
             modified |= getattr(self, kw) != val
             setattr(self, kw, val)
             self.kwargs[kw] = val
-- 
2.43.0


From 70ef8d066c25243c121faf6e5224dd631be5727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:48 +0000
Subject: [PATCH 75/83] fix: set of a line with an unknown parameter changed
 the others but kept the old solutions

---
 src/pyRFtk/rfTRL.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 1577ea2..8bf975c 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -347,12 +347,13 @@ class rfTRL():
             raise ValueError(
                 f'{whoami(__package__)}: not possible because the transmission '  # @UndefinedVariable
                              'line parameters are not constant')
-        modified = False
-        for kw, val in kwargs.items():
+        for kw in kwargs: # all or nothing is set
             if not hasattr(self, kw):
                 raise ValueError(
                     f'{whoami(__package__)}: parameter {kw} not present')  # @UndefinedVariable
                 
+        modified = False
+        for kw, val in kwargs.items():
             modified |= getattr(self,kw) != val
             setattr(self, kw, val)
             self.kwargs[kw] = val
-- 
2.43.0


From 3c3269e54999e3fc582ca8fc7a3dceded92552e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:48 +0000
Subject: [PATCH 76/83] fix: set of an object with an unknown attribute changed
 the others but kept the old S-matrix

---
 src/pyRFtk/rfBase.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index a7a05ed..241e3d9 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -215,14 +215,10 @@ class rfBase():
     def set(self, **kwargs):
         """set attributes of the object if present
         """
-        modified = False
-        for kw, val in kwargs.items():
+        for kw in kwargs: # all or nothing is set
             try:
                 if kw in self.attrs:
-                    if hasattr(self, kw):
-                        modified |= getattr(self, kw) != val
-                        setattr(self, kw, val)
-                    else:
+                    if not hasattr(self, kw):
                         raise ValueError(
                             f'{whoami(__package__)}: {self.Id} has no attribute {kw}'  # @UndefinedVariable
                         )
@@ -233,6 +229,11 @@ class rfBase():
                         f'{whoami(__package__)}: attribute {kw} of {self.Id} '  # @UndefinedVariable
                         'cannot be set'
                     )
+        modified = False
+        for kw, val in kwargs.items():
+            modified |= getattr(self, kw) != val
+            setattr(self, kw, val)
+            
         if modified:
             self.f, self.S = None, None
             
-- 
2.43.0


From b54615451569c32c7201235276ffe01f4e5d12f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:48 +0000
Subject: [PATCH 77/83] fix: set or getS with params that were refused in part
 kept the old S-matrix of the circuit

---
 src/pyRFtk/rfCircuit.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index c4bf514..985cf49 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1224,6 +1224,11 @@ class rfCircuit(rfBase):
         # progess the kwargs
         debug and logident('starting kwargs loop ...')
 
+        # the circuit is not solved unless nothing was modified; this also holds 
+        # when one of the objects refuses its value
+        solved = self.invM, self.f, self.S
+        self.invM, self.f, self.S = None, None, None
+        
         processed = []
         for kw, val in kwargs.items():
             
@@ -1269,10 +1274,8 @@ class rfCircuit(rfBase):
             
             debug and logident(f'{obj.Id} <- {val}')
                        
-        if modified:
-            self.invM = None # mark the circuit as not solved
-            self.f = None
-            self.S = None
+        if not modified:
+            self.invM, self.f, self.S = solved
             
         # removes the processed kwargs 
         for kw in processed:
@@ -1322,6 +1325,7 @@ class rfCircuit(rfBase):
                 if f != self.f or self.S is None or self.flags != flags or params:
                     
                     # we need to recompute the S-matrix
+                    self.S = None
                     
                     for blkID, blk in self.blocks.items():
                         _debug_ and tLogger.debug(ident(
-- 
2.43.0


From c39330cdbb3f80cf50dfdb1fcfa20a2ad063eca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:48 +0000
Subject: [PATCH 78/83] fix: rfObject deembed and item assignment that were
 refused changed part of the table

---
 src/pyRFtk/rfObject.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 459710f..8913483 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -344,8 +344,10 @@ class rfObject():
     #  _ _ s e t i t e m _ _
     #
     def __setitem__(self, k, value):
-        self.fs[k] = value[0]
-        self.Ss[k,:,:] = value[1]
+        fs, Ss = self.fs.copy(), self.Ss.copy()
+        fs[k] = value[0]
+        Ss[k,:,:] = value[1]
+        self.fs, self.Ss = fs, Ss
         self.interpOK = False
         self.sorted = False # the frequency may have changed
     
@@ -718,6 +720,7 @@ class rfObject():
         self.interpOK = False      
         
         ports = dict(ports) # the caller's dict is not to be modified
+        Ss = self.Ss.copy() # unchanged when the deembedding is refused
         for kp, port in enumerate(self.ports):
             if port in ports:
                 v = ports.pop(port, (0., self.Zbase))
@@ -735,7 +738,7 @@ class rfObject():
                         f'pyRFtk2.rfObject.deembed: invalid deembed data for port {port}')
     
                 
-                for kS, (f, Sobj) in enumerate(zip(self.fs, self.Ss)):
+                for kS, (f, Sobj) in enumerate(zip(self.fs, Ss)):
                     Strl = TRL.getS(f * self.fscale) # rfTRL expects Hz
                                         
                     qn = 1 - Strl[0,0] * Sobj[kp,kp]
@@ -767,11 +770,12 @@ class rfObject():
                         raise RuntimeError(
                             'pyRFtk2.rfObject.deembed: this should not happen !')
                 
-                    self.Ss[kS,:,:] = Sobj[:,:]
+                    Ss[kS,:,:] = Sobj[:,:]
 
         if ports:
             raise ValueError(
                 f'pyRFtk2.rfObject.deembed: port(s) {",".join([p for p in ports])}'
                 ' not found.')
 
+        self.Ss = Ss
 
-- 
2.43.0


From b34a7c2c877206efcb7bdc25f176e9161c5130ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:46 +0000
Subject: [PATCH 79/83] fix: the positions of the ports and nodes of a circuit
 did not follow a line when its length was set

---
 src/pyRFtk/rfCircuit.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 985cf49..efd9501 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -480,7 +480,7 @@ class rfCircuit(rfBase):
             self.ports.append(ip)
             self.xpos.append(
                 self.xpos[self.ports.index(dp)] if dp in self.ports else 0.)
-            self.nodes[ip] = self.xpos[-1]
+            self.nodes[ip] = dp
                         
             idxA = self.waves.index(f'->{dp}')
             idxB = self.waves.index(f'<-{dp}')
@@ -757,7 +757,7 @@ class rfCircuit(rfBase):
         :param node: The node
         """
         if node in self.nodes: # a node created by connect or deembed
-            return self.nodes[node]
+            return self.getpos(self.nodes[node])
         
         relpos, obj = 0., self
         while '.' in node:
@@ -832,7 +832,7 @@ class rfCircuit(rfBase):
             # here we need to make assumptions on the position of the new port
             # -> we take the position of the first port in the list
             self.xpos.append(self.getpos(oldports[0]))
-            self.nodes[p] = self.xpos[-1]
+            self.nodes[p] = oldports[0]
             
         _debug_ and tLogger.debug(ident(f'self.ports = {", ".join(self.ports)}', 0))
         
@@ -1274,7 +1274,9 @@ class rfCircuit(rfBase):
             
             debug and logident(f'{obj.Id} <- {val}')
                        
-        if not modified:
+        if modified:
+            self.resolve_xpos()
+        else:
             self.invM, self.f, self.S = solved
             
         # removes the processed kwargs 
-- 
2.43.0


From 1cc2f65b176f3fcbddbca0de4310f3a112b7e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:46 +0000
Subject: [PATCH 80/83] fix: rfBase.getS at several frequencies is an array on
 its own Zbase too

---
 src/pyRFtk/rfBase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 241e3d9..23ce74b 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -280,7 +280,8 @@ class rfBase():
             Ss = [self.get1S(fk) for fk in fs]
             
             Zbase = kwargs.pop('Zbase', self.Zbase)
-            R = ConvertGeneral(Zbase, Ss, self.Zbase) if Zbase != self.Zbase else Ss
+            R = (ConvertGeneral(Zbase, Ss, self.Zbase) if Zbase != self.Zbase 
+                 else np.array(Ss))
 
         else:
             R = self.getS([fs], **kwargs)[0]
-- 
2.43.0


From 1172b75946332b0bd79db594c8f4f3bcfe3913e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:46 +0000
Subject: [PATCH 81/83] fix: rfRLC.getS at several frequencies is an array as
 for the other objects

---
 src/pyRFtk/rfRLC.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index ba7e0ae..9203b6a 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -250,6 +250,7 @@ class rfRLC():
         if hasattr(fs,'__iter__'):
             for f in fs:
                 Ss.append(get1S(f))
+            Ss = np.array(Ss)
         else:
             Ss = get1S(fs)
             
-- 
2.43.0


From 512f601e0cf5ab188dc019833001202dc987c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:24 +0000
Subject: [PATCH 82/83] fix: rfObject.read_tsf discards the interpolation of
 the previous table

---
 src/pyRFtk/rfObject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 8913483..7fdb32e 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -677,6 +677,7 @@ class rfObject():
         self.Gms = np.array(r['Gm'])
         self.variables = r['variables']
         self.xpos = [0.] * len(self)
+        self.interpOK = False
         
     #===========================================================================
     #
-- 
2.43.0


From ce63313f898f9f6f75017fe9fe516ef76702c660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:34 +0000
Subject: [PATCH 83/83] fix: the phases of a line given by a touchstone were
 made continuous along the columns of S, not along the frequency

---
 src/pyRFtk/rfTRL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 8bf975c..78bb1c3 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -222,8 +222,8 @@ class rfTRL():
             Ss = self.sNpdata['Ss']
             fmt = self.sNpdata['datafmt'].upper()
             
-            d = {'MA': (lambda z: [np.abs(z), np.unwrap(np.angle(z))]),
-                 'DB': (lambda z: [20*np.log10(z).real, np.unwrap(np.angle(z))]),
+            d = {'MA': (lambda z: [np.abs(z), np.unwrap(np.angle(z), axis=0)]),
+                 'DB': (lambda z: [20*np.log10(z).real, np.unwrap(np.angle(z), axis=0)]),
                  'RI': (lambda z: [z.real, z.imag])
                 }[fmt](Ss[:])
                         
-- 
2.43.0

