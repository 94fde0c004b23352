From aba6ff02ed2d648be9d3ba33aba038296a22fda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 001/172] fix: interaction factors kyy and kzz of class 3 and 4
 sections follow EN 1993-1-1 Table B.1

The slenderness term is 0.6*slenderness capped at 0.6, not the
slenderness itself capped at 0.6.
---
 metku/eurocodes/en1993/en1993_1_1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_1.py b/metku/eurocodes/en1993/en1993_1_1.py
index 9a19777..c4ea4df 100644
--- a/metku/eurocodes/en1993/en1993_1_1.py
+++ b/metku/eurocodes/en1993/en1993_1_1.py
@@ -263,7 +263,7 @@ def kyy(UN, slend, Cmy=1.0, section_class=2):
     if section_class < 3:
         ky = Cmy * (1 + min(slend - 0.2, 0.8) * UN / gammaM1)
     else:
-        ky = Cmy * (1 + min(slend, 0.6) * UN / gammaM1)
+        ky = Cmy * (1 + 0.6 * min(slend, 1.0) * UN / gammaM1)
 
     return ky
 
@@ -297,7 +297,7 @@ def kzz(UN, slend, Cmz, section_class=2, profile="hollow"):
         else:
             kz = Cmz * (1 + min(2 * slend - 0.6, 1.4) * UN / gammaM1)
     else:
-        kz = Cmz * (1 + min(slend, 0.6) * UN / gammaM1)
+        kz = Cmz * (1 + 0.6 * min(slend, 1.0) * UN / gammaM1)
 
     return kz
 
-- 
2.43.0


From 507faba282c32304237c378bfd54e81f92b8a639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 002/172] fix: equivalent moment factor with a zero span moment
 and nonzero end moments

A zero span moment was mistaken for zero end moments.
---
 metku/eurocodes/en1993/en1993_1_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_1.py b/metku/eurocodes/en1993/en1993_1_1.py
index c4ea4df..dc60bda 100644
--- a/metku/eurocodes/en1993/en1993_1_1.py
+++ b/metku/eurocodes/en1993/en1993_1_1.py
@@ -366,7 +366,7 @@ def equivalent_moment_factor(Mend, Mspan=None, load="uniform"):
             else:
                 alpha = Mspan / Mh
 
-            if abs(alpha) > 1.0 or alpha == 0:
+            if abs(alpha) > 1.0 or abs(Mh) < 1e-6:
                 # Moment in the span is larger than the maximum end moment
                 if abs(alpha) > 1.0:
                     alpha = 1 / alpha
-- 
2.43.0


From ed0f852674b930c8d185eaafa4f6cea36ee56559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 003/172] fix: cross-section classification of steels with
 yield strength below 235 MPa

Their epsilon is greater than 1 and was taken for a yield strength, which
put every part into class 1.
---
 metku/eurocodes/en1993/en1993_1_1.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_1.py b/metku/eurocodes/en1993/en1993_1_1.py
index dc60bda..313361a 100644
--- a/metku/eurocodes/en1993/en1993_1_1.py
+++ b/metku/eurocodes/en1993/en1993_1_1.py
@@ -70,8 +70,9 @@ def internal_part_in_compression(r, e):
     
     """
 
-    # If e > 1, it means that e is actually yield strength
-    if e > 1.0:
+    # Epsilon exceeds 1 for fy < 235 MPa; only much greater values can be
+    # a yield strength
+    if e > 10.0:
         e = epsilon(e)
 
     C = 4
@@ -97,8 +98,9 @@ def internal_part_comp_bend(r, e, a, p):
     
     """
 
-    # If e > 1, it means that e is actually yield strength
-    if e > 1.0:
+    # Epsilon exceeds 1 for fy < 235 MPa; only much greater values can be
+    # a yield strength
+    if e > 10.0:
         e = epsilon(e)
 
     C = 4
@@ -137,8 +139,9 @@ def outstand_part_in_compression(r, e):
     
     """
 
-    # If e > 1, it means that e is actually yield strength
-    if e > 1.0:
+    # Epsilon exceeds 1 for fy < 235 MPa; only much greater values can be
+    # a yield strength
+    if e > 10.0:
         e = epsilon(e)
 
     C = 4
-- 
2.43.0


From 6e0e3caa51826cd6a299390ded63f1d677d1d254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 004/172] fix: setters of a rotated section change only the
 property they name

---
 metku/sections/steel/steel_section.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/metku/sections/steel/steel_section.py b/metku/sections/steel/steel_section.py
index 5898d3f..e83f679 100644
--- a/metku/sections/steel/steel_section.py
+++ b/metku/sections/steel/steel_section.py
@@ -181,7 +181,8 @@ class SteelSection(metaclass=ABCMeta):
     def Iy(self, val):
         if self.rotate:
             self.I[1] = val
-        self.I[0] = val
+        else:
+            self.I[0] = val
 
     @property
     def Iz(self):
@@ -193,7 +194,8 @@ class SteelSection(metaclass=ABCMeta):
     def Iz(self, val):
         if self.rotate:
             self.I[0] = val
-        self.I[1] = val
+        else:
+            self.I[1] = val
 
     @property
     def Wply(self):
@@ -205,7 +207,8 @@ class SteelSection(metaclass=ABCMeta):
     def Wply(self, val):
         if self.rotate:
             self.Wpl[1] = val
-        self.Wpl[0] = val
+        else:
+            self.Wpl[0] = val
 
     @property
     def Wplz(self):
@@ -217,7 +220,8 @@ class SteelSection(metaclass=ABCMeta):
     def Wplz(self, val):
         if self.rotate:
             self.Wpl[0] = val
-        self.Wpl[1] = val
+        else:
+            self.Wpl[1] = val
 
     @property
     def Wely(self):
@@ -229,7 +233,8 @@ class SteelSection(metaclass=ABCMeta):
     def Wely(self, val):
         if self.rotate:
             self.Wel[1] = val
-        self.Wel[0] = val
+        else:
+            self.Wel[0] = val
 
     @property
     def Welz(self):
@@ -241,7 +246,8 @@ class SteelSection(metaclass=ABCMeta):
     def Welz(self, val):
         if self.rotate:
             self.Wel[0] = val
-        self.Wel[1] = val
+        else:
+            self.Wel[1] = val
 
     @property
     def section_factor(self):
-- 
2.43.0


From 06c419947bce79f8a633b7d56c67744f9cd3089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 005/172] fix: horizontal shear area of rectangular hollow
 sections uses both side lengths

---
 metku/sections/steel/RHS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/RHS.py b/metku/sections/steel/RHS.py
index 0675623..15d2352 100644
--- a/metku/sections/steel/RHS.py
+++ b/metku/sections/steel/RHS.py
@@ -138,7 +138,7 @@ class RHS(SteelSection):
             I[0] = RHS_second_moment(self.H, self.B, self.T, self.R)
             I[1] = RHS_second_moment(self.B, self.H, self.T, self.R)
             self.I = np.asarray(I)
-            self.Ashear = [RHS_shear_area(self.A, self.B, self.B),RHS_shear_area(self.A, self.H, self.B)]
+            self.Ashear = [RHS_shear_area(self.A, self.B, self.H),RHS_shear_area(self.A, self.H, self.B)]
             self.Au = RHS_paint_area(self.H, self.B, self.R)
             Wel = [0.0, 0.0]
             Wel[0] = RHS_elastic_modulus(self.H, I[0])
-- 
2.43.0


From 3b92b79b9924acd688e6ea01bd82665e176d47f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 006/172] fix: RHS.info prints the vertical shear area instead
 of failing on a list

---
 metku/sections/steel/RHS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/sections/steel/RHS.py b/metku/sections/steel/RHS.py
index 15d2352..1b504d7 100644
--- a/metku/sections/steel/RHS.py
+++ b/metku/sections/steel/RHS.py
@@ -105,7 +105,7 @@ class RHS(SteelSection):
             print(" $W_el,z = {0:.2f}{1:s}$".format(self.Wel[1]*1e-3,'\\ee{3}\\,\\cuunit{mm}'))
             print(" $W_pl,y = {0:.2f}{1:s}$".format(self.Wpl[0]*1e-3,'\\ee{3}\\,\\cuunit{mm}'))
             print(" $W_pl,z = {0:.2f}{1:s}$".format(self.Wpl[1]*1e-3,'\\ee{3}\\,\\cuunit{mm}'))        
-            print(" $Ashear = {0:.2f}{1:s}$".format(self.Ashear*1e-2,'\\ee{2}\\,\\squnit{mm}'))
+            print(" $Ashear = {0:.2f}{1:s}$".format(self.Ashear[1]*1e-2,'\\ee{2}\\,\\squnit{mm}'))
         else:
             print("*** " + self.__repr__() + " ***")
             print(" h = {0:.0f} mm".format(self.h))
@@ -119,7 +119,7 @@ class RHS(SteelSection):
             print(" Wel,z = {0:.2f} (10^3 mm4)".format(self.Wel[1]*1e-3))
             print(" Wpl,y = {0:.2f} (10^3 mm4)".format(self.Wpl[0]*1e-3))
             print(" Wpl,z = {0:.2f} (10^3 mm4)".format(self.Wpl[1]*1e-3))
-            print(" Ashear = {0:.2f} (100 mm2)".format(self.Ashear*1e-2))
+            print(" Ashear = {0:.2f} (100 mm2)".format(self.Ashear[1]*1e-2))
 
     def update_properties(self):
         """
-- 
2.43.0


From a43d0aa88a6ce00e2372b3ef217f46c01da82b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 007/172] fix: I-sections accept the steel grade by name

---
 metku/sections/steel/ISection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 049a40c..d0263a0 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -43,6 +43,7 @@ class ISection(SteelSection):
         self.Iw = Iw
         self.It = It
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear)
+        fy = self.fy
 
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
         if H / B > 1.2:
-- 
2.43.0


From 65d27328cfff352d337d66319fd941fb1cf0c6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 008/172] fix: perimeter of rolled I-sections deducted the web
 thickness twice

---
 metku/sections/steel/ISection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index d0263a0..bc731cb 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -717,7 +717,7 @@ def cross_section_properties(b, h, tf, tw, r):
     A = 2.0 * tf * b + (h - 2.0 * tf) * tw + (4.0 - math.pi) * r ** 2.0
 
     # Perimeter of cross-section
-    Au = 4 * (b - 2 * r) + 2 * (h - 2 * tw) + 2 * math.pi * r
+    Au = 4 * (b - 2 * r) + 2 * (h - tw) + 2 * math.pi * r
 
     # Shear area [mm^2]    
     Ashear = A - 2.0 * b * tf + (tw + 2.0 * r) * tf
-- 
2.43.0


From e197e39942358548586e038e3326e2429f8f67d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 009/172] fix: rolled I-sections have a shear area along the
 flanges

---
 metku/sections/steel/ISection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index bc731cb..c7e2d66 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -720,7 +720,8 @@ def cross_section_properties(b, h, tf, tw, r):
     Au = 4 * (b - 2 * r) + 2 * (h - tw) + 2 * math.pi * r
 
     # Shear area [mm^2]    
-    Ashear = A - 2.0 * b * tf + (tw + 2.0 * r) * tf
+    # Ashear[0] .. shear force along the flanges, Ashear[1] .. along the web
+    Ashear = [2.0 * b * tf, A - 2.0 * b * tf + (tw + 2.0 * r) * tf]
 
     # Second moment of area, I_y is stronger direction [mm^4]
     I = [0.0, 0.0]
-- 
2.43.0


From 82e369b3d37f0474f4d32eb58551f7ab6adabca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 010/172] fix: web class of I-sections in compression and
 bending for negative moments

---
 metku/sections/steel/ISection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index c7e2d66..0593be1 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -240,7 +240,8 @@ class ISection(SteelSection):
         
         """ Calculate stresses for class 3 check """
         sN = self.sigmaN()
-        sM = self.sigmaM() 
+        # stress ratio is the same for both signs of the bending moment
+        sM = abs(self.sigmaM())
     
         cw = self.hw
         tw = self.tw
-- 
2.43.0


From e2543a5b71a32c3a875b6ad1b1ec2269ef4aec8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 011/172] fix: circular hollow sections provide properties and
 resistances for both axes

---
 metku/sections/steel/CHS.py | 47 +++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/metku/sections/steel/CHS.py b/metku/sections/steel/CHS.py
index c025439..1312e39 100644
--- a/metku/sections/steel/CHS.py
+++ b/metku/sections/steel/CHS.py
@@ -36,6 +36,11 @@ class CHS(SteelSection):
         Ashear = self.shear_area()
         Wel = self.elastic_modulus()
         Wpl = self.plastic_modulus()
+        # a circular section is the same with respect to both axes
+        I = [I, I]
+        Wel = [Wel, Wel]
+        Wpl = [Wpl, Wpl]
+        Ashear = [Ashear, Ashear]
         self.It = self.torsion_modulus()
         self.Iw = 0.0
 
@@ -89,7 +94,7 @@ class CHS(SteelSection):
         cWeb = en1993_1_1.CHS_class(r,self.eps)
         return cWeb
         
-    def web_class_comp_bend(self, verb=False):
+    def web_class_comp_bend(self, Ned, verb=False):
         r = self.D/self.T
         cWeb = en1993_1_1.CHS_class(r,self.eps)
         return cWeb
@@ -97,21 +102,21 @@ class CHS(SteelSection):
     def flange_class(self, verb=False):
         return 1
     
-    def bending_resistance(self, C=0, verb=False):
+    def bending_resistance(self, C=0, axis="y", verb=False):
         # Bending resistance, Nmm
         if C == 0:
             C = self.section_class()
 
         if C < 3:
-            WRd = self.Wpl
+            WRd = self.Wpl[0]
         elif C == 3:
-            WRd = self.Wel
+            WRd = self.Wel[0]
         else:
             #raise NotImplementedError(f"Cross-section class 4 not implemented in: {self}")
             warnings.warn(f"!Cross-section class 4 not implemented for CHS profiles! "
                   f"\nUsing elastic bending resistance, check results accordingly!", UserWarning, stacklevel=2)
 
-            WRd = self.Wel
+            WRd = self.Wel[0]
 
         MRd = self.code.bending_resistance(WRd, self.fy)
 
@@ -120,24 +125,20 @@ class CHS(SteelSection):
 
         return MRd, C
     
-    def MomentAxialForceInteract(self):
-        """ This interaction formula is only for plastic design """
-        MRd = self.BendingResistance(1);
-        NRd = self.AxialForceResistance;
-            
-        """ EN 1993-1-1: 6.2.9.1(5)
-            In class 1 or 2 use plastic design
+    def moment_axial_force_interact(self, UN, MRd):
+        """ Interaction rule for section resistance for combined
+            axial force and bending, EN 1993-1-1: 6.2.9.1(5)
+            input: UN .. NEd/NRd
+                  MRd .. moment resistance
         """
-        n = abs(self.Ned)/NRd;
-
-        if n > 1.0:
-            MNRd = 0
+        if UN > 1.0:
+            MNRd = 0.0
         else:
-            MNRd = MRd*min(1-n**1.7,1)
+            MNRd = MRd * min(1 - UN**1.7, 1)
 
         return MNRd
-    
-    
+
+
 def CHS_area(D,T):
     r = 0.5*D
     A = math.pi*r**2 - math.pi*(r-T)**2
@@ -194,13 +195,13 @@ class CustomCHS(CHS):
             I = self.second_moment()
             #if I[1] < 0:
             #    print(self.h, self.b, self.tt, self.tb, self.tw)
-            return self.second_moment()
+            return [I, I]
         elif name == "Wel":
-            return self.section_modulus()
+            return [self.elastic_modulus()]*2
         elif name == "Wpl":
-            return self.plastic_section_modulus()
+            return [self.plastic_modulus()]*2
         elif name == "Ashear":
-            return self.shear_area()
+            return [self.shear_area()]*2
         elif name == "Au":
             return self.paint_area()
         elif name == "It":
-- 
2.43.0


From 9a4a77cdfb9c8e5b2cd31c101eebeb6d61b2aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 012/172] fix: paint area of welded I-sections includes both
 faces of the top flange

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 951f2d5..1d221f3 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -604,7 +604,7 @@ class WISection(SteelSection):
 
     def paint_area(self):
         """ Area to be painted (circumference of the section) """
-        return 2 * self.tt + self.bt + 2 * self.hw + 2 * self.tb + 2 * self.bb \
+        return 2 * self.tt + 2 * self.bt + 2 * self.hw + 2 * self.tb + 2 * self.bb \
                - 2 * self.tw
 
     def elastic_neutral_axis(self):
-- 
2.43.0


From 89027525527f7a31b645467a9f3f43c687f2aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 013/172] fix: compressed part of the web of welded I-sections
 is relative to the web's straight part

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 1d221f3..14b0777 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -533,7 +533,7 @@ class WISection(SteelSection):
             alpha = 0  # TODO tarkista tämä
         else:
             alpha = (self.h - self.tt - math.sqrt(2) * self.weld_throat - dpl) \
-                    / (self.h - self.tt - self.tb - 2 * math.sqrt(2))
+                    / self.cw
 
         cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, alpha, psi)
 
-- 
2.43.0


From 897c44ce58267dd05fdb70f67d5c43bf00210ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 014/172] fix: web area ratio of welded I-sections in moment
 and axial force interaction

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 14b0777..53b323c 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -579,7 +579,7 @@ class WISection(SteelSection):
                   MRd .. moment resistance           
             TODO tarkista tämä
         """
-        aw = min((self.A - (self.bt * self.tt - self.bb * self.tb))
+        aw = min((self.A - (self.bt * self.tt + self.bb * self.tb))
                  / self.A, 0.5)
 
         if UN > 1.0:
-- 
2.43.0


From 577cae98322b46c6cc475b82be3c21069323854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 015/172] fix: name of monosymmetric welded I-sections contains
 both flanges

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 53b323c..f8f2ea4 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -97,7 +97,7 @@ class WISection(SteelSection):
     def __repr__(self):
         s = f'WI{self.h:.0f}-{self.tw:.0f}-'
 
-        if self.b[0] != self.b[1] or self.tf[0] != self.tf[1]:
+        if self.b[0] == self.b[1] and self.tf[0] == self.tf[1]:
             # Doubly symmetric profile
             s += f'{self.b[0]:.0f}x{self.tf[0]:.0f}'
         else:
-- 
2.43.0


From 24ec9bf9e3f84440f817002be26ba8dfc8e2dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 016/172] fix: ineffective part of the web of welded I-sections
 follows from its compressed part

---
 metku/sections/steel/wi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index f8f2ea4..9286405 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -811,8 +811,8 @@ class WISection(SteelSection):
         else:
             self.eff_web['bc'] = cw
 
-        ec = self.h - self.effective_neutral_axis()
-        self.eff_web['bneg'] = ec - self.tb - np.sqrt(2) * self.weld_throat - beff
+        # The ineffective part is what remains of the compressed part
+        self.eff_web['bneg'] = self.eff_web['bc'] - beff
         # self.eff_web['bneg'] = (1 - rho) * cw / 2
 
         if verb:
-- 
2.43.0


From bd5ea1ea89597ae00ed05847bb8c286bfcdebb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 017/172] fix: shear buckling resistance is limited by the
 web's plastic resistance

---
 metku/sections/steel/wi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 9286405..f3ae02c 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -893,7 +893,8 @@ class WISection(SteelSection):
             else:
                 raise NotImplementedError("shear_buckling_resistance rM >= 1 not implemented")
 
-            VbRd = Vbw_Rd + Vbf_Rd
+            # EN 1993-1-5, 5.2(1)
+            VbRd = min(Vbw_Rd + Vbf_Rd, eta * fyw * hw * tw / (math.sqrt(3) * constants.gammaM1))
 
         return VbRd
 
-- 
2.43.0


From b44061bfffe5bfd383a9f9b9a287c0ea7482309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 018/172] fix: beam-column check of members susceptible to
 lateral-torsional buckling

---
 metku/structures/steel/steel_member.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 0b5d561..fbde00a 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -704,8 +704,9 @@ class SteelMember:
 
         if self.LTB:
             # Member is susceptible to lateral-torsional buckling
-            kzy = en1993_1_1.kzy(kyy, UNz, slend[1], CmLT=self.CmLT,
-                                 section_class=cross_section_class)
+            kzy = en1993_1_1.kzy(kyy, UNz, slend[1], CmLT=self.__CmLT,
+                                 section_class=cross_section_class,
+                                 susceptible_to_torsion=True)
         else:
             MzEd = self.MEdZ
 
@@ -732,7 +733,10 @@ class SteelMember:
         # MzEd = max(MzEd1, MzEd2)
 
         # MRd = self.profile.bending_resistance(C=cross_section_class)
-        MRd = self.profile.MRd
+        if self.LTB:
+            MRd = self.LT_buckling_strength(self.mcrit())
+        else:
+            MRd = self.profile.MRd
 
         com_comp_bend_y = -NEd / NbRd[0] + kyy * MyEd / MRd
         com_comp_bend_z = -NEd / NbRd[1] + kzy * MyEd / MRd
-- 
2.43.0


From c9dce1d5592344aae3d818832198a4aaff67be7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 019/172] fix: beam-column utilisation of an earlier load does
 not stay in force without bending

---
 metku/structures/steel/steel_member.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index fbde00a..4222532 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -675,6 +675,8 @@ class SteelMember:
         if abs(MyEd) < 1e-6:
             # If there is no bending moment, there is no need to
             # continue
+            self.stability['bc_y'] = 0.0
+            self.stability['bc_z'] = 0.0
             return [0, 0]
 
         # find the largest compression force in the member
-- 
2.43.0


From 8b3eb1937e9677d45125b8a8a27a460bcea06772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 020/172] fix: section class in the beam-column check does not
 depend on the last checked section

---
 metku/structures/steel/steel_member.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 4222532..19769fc 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -682,6 +682,8 @@ class SteelMember:
         # find the largest compression force in the member
         NEd = self.NcEd
         self.profile.Ned = NEd
+        # section class is determined for the same forces as are checked
+        self.profile.Med[0] = MyEd
 
         if section_class is None:
             cross_section_class = self.profile.section_class()
-- 
2.43.0


From 0676e9f00606f474688ab3898e0db140e6f0fd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 021/172] fix: mcrit_buckling returns the critical moment

---
 metku/structures/steel/steel_member.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 19769fc..70c4345 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -560,6 +560,8 @@ class SteelMember:
             print("Ncr_z = {0:4.2f} kN".format(Ncrz * 1e-3))
             print("Mcr = {0:6.4f} kNm".format(Mcr * 1e-6))
 
+        return Mcr
+
     def add_section(self, ned=0.0, myed=0.0, mzed=0.0, vyed=0.0, vzed=0.0,
                     ted=0.0, loc=0.0):
         """ Adds new section with internal forces and location """
-- 
2.43.0


From 5310022b27ee5d83e1ad67ea8a5bb05c43571284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 022/172] fix: top fibre of WQ sections is at the height of the
 profile

---
 metku/sections/steel/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index 6f2896c..6cc6a87 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -256,7 +256,7 @@ class WQSection(SteelSection):
         zel = self.elastic_neutral_axis()
         
         # distance of neutral axis from the top of the section
-        ztop = self.h+self.bb - zel
+        ztop = self.height - zel
         
         Wel =[0,0]
         Wel[0] = I[0]/max(zel,ztop)
-- 
2.43.0


From 319f5fcf774b058a8b845bfddef014b13fc46085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 023/172] fix: shear areas of WQ sections are given for both
 directions

---
 metku/sections/steel/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index 6cc6a87..05bac98 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -46,7 +46,7 @@ class WQSection(SteelSection):
         
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear=1.0)
 
-        self.Ashear = self.shear_area()
+        self.Ashear = [0.0, self.shear_area()]
 
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """        
         self.imp_factor = [en1993_1_1.buckling_curve["b"],
-- 
2.43.0


From 72f497517463afc6c38b3d55a9d07397e08b1366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 024/172] fix: web area ratio of WQ sections in moment and
 axial force interaction

---
 metku/sections/steel/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index 05bac98..8cad5b8 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -195,7 +195,7 @@ class WQSection(SteelSection):
                   MRd .. moment resistance           
             TODO
         """
-        aw = min((self.A - 2 * self.b * self.tf) / self.A, 0.5)
+        aw = min((self.A - self.At - self.Ab) / self.A, 0.5)
 
         if UN > 1.0:
             MNRd = 0.0
-- 
2.43.0


From 4438b1f66abaf3a0bbbfae7a66b17351b01d11e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 025/172] fix: stress ratio of the web of WQ sections in
 bending is negative

---
 metku/sections/steel/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index 8cad5b8..7b569cb 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -153,7 +153,7 @@ class WQSection(SteelSection):
         zel = self.elastic_neutral_axis()
         dpl = self.plastic_neutral_axis()
         rw = self.hw / self.tw
-        psi = zel/(self.height-zel)
+        psi = -zel/(self.height-zel)
         alpha = dpl/self.hw
         cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps,alpha,psi)
 
-- 
2.43.0


From 2d1f3910eae11860fc794d37dd21dee1a234ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:40 +0000
Subject: [PATCH 026/172] fix: elastic neutral axis of WQ sections takes both
 webs into account

---
 metku/sections/steel/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index 7b569cb..931d9a5 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -221,7 +221,7 @@ class WQSection(SteelSection):
         """ Elastic neutral axis 
             measured from the bottom of the section
         """
-        zel = (self.zb*self.Ab + self.zw*self.Aw + self.zt*self.At)/self.area()
+        zel = (self.zb*self.Ab + 2*self.zw*self.Aw + self.zt*self.At)/self.area()
         return zel
     
     def plastic_neutral_axis(self):
-- 
2.43.0


From e27abf743aa20418f189b0c4d9e5d45a75d7ba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:27 +0000
Subject: [PATCH 027/172] fix: lateral-torsional buckling check does not depend
 on the last checked section

---
 metku/structures/steel/steel_member.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 70c4345..7e46f92 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -662,6 +662,11 @@ class SteelMember:
             output: r .. utilization ratio for buckling        
         """
         MEd = self.MEdY
+
+        # section class is determined for the same forces as are checked
+        self.profile.Ned = self.NcEd
+        self.profile.Med[0] = MEd
+
         MbRd = self.LT_buckling_strength(self.mcrit())
         r = abs(MEd) / MbRd
 
-- 
2.43.0


From 2f02a3fdf937e246069e71fcc3f24dda69b099a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 028/172] fix: linear statics with the default support method
 solves the load cases it is asked for

---
 metku/framefem/framefem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 16b4e91..ed65b84 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -638,6 +638,9 @@ class FrameFEM:
             self.K = K
             self.p = np.column_stack(LOADS)
             #print(glob_dofs)
+        else:
+            self.K = K
+            self.p = np.column_stack(loads)
                         
         """ Solve global displacement vector """
 
@@ -663,7 +666,8 @@ class FrameFEM:
                 # Substitute free dofs from global displacement vector                        
                 for i, free_dof in enumerate(free_dofs):
                     if free_dof:
-                        node.u[lcase][i] = u[dofs[i]]
+                        for j, lc in enumerate(lcase):
+                            node.u[lc][i] = u[dofs[i], j]
 
             """
             This substition did not work !!!
-- 
2.43.0


From 26fcc859384e28b803ae383367554821122d44e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 029/172] fix: beam stiffness follows the element's current
 releases and joint stiffnesses

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 6 +++++-
 metku/framefem/elements/ebbeam.py             | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index abfdf1c..8aaabb6 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -127,9 +127,13 @@ class EBSemiRigidBeam(EBBeam):
         return np.append(self.nodes[0].dofs, self.nodes[1].dofs)
         #return self.nodes[0].dofs + self.nodes[1].dofs
 
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Stiffness matrix in local coordinates """
+        return self._local_stiffness_matrix(E, A, I1, Le, tuple(self.rot_stiff))
+
+    @lru_cache(CACHE_BOUND)
+    def _local_stiffness_matrix(self, E, A, I1, Le, rot_stiff):
+        """ Stiffness matrix in local coordinates for given joint stiffnesses """
 
         rodc = E * A / Le
         EI1 = E * I1
diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 1bc43eb..6605572 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -93,7 +93,6 @@ class EBBeam(Element):
         return np.append(self.nodes[0].dofs,self.nodes[1].dofs)
         #return self.nodes[0].dofs + self.nodes[1].dofs
 
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Generates stiffness matrix in local coordinates
 
@@ -104,6 +103,11 @@ class EBBeam(Element):
             :rtype: np.array
 
         """
+        return self._local_stiffness_matrix(E, A, I1, Le, tuple(self.releases))
+
+    @lru_cache(CACHE_BOUND)
+    def _local_stiffness_matrix(self, E, A, I1, Le, releases):
+        """ Stiffness matrix in local coordinates for given releases """
         rodc = E * A / Le
         EI1 = E * I1
         k0 = np.zeros((6, 6))
-- 
2.43.0


From f4e8b9fd5467b77366c7810fc83d5f25b234489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 030/172] fix: the scaling factor of a line load is applied
 once and local axial line loads are not dropped

---
 metku/framefem/elements/ebbeam.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 6605572..18097d0 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -388,6 +388,8 @@ class EBBeam(Element):
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = 0.5*L*(0.5*(q1+q2)-1/6*(q2-q1))
+                    floc[3] = 0.5*L*(0.5*(q1+q2)+1/6*(q2-q1))
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     if order == 1:
@@ -427,7 +429,7 @@ class EBBeam(Element):
                     #q = np.array([0, q1, 0])
                     q = np.array([0, 1, 0])
                 # Load vector transformed into element local coordinate system
-                qloc = load.f*T[:3, :3].dot(q)
+                qloc = T[:3, :3].dot(q)
                                 
                 if order == 1:
                     """ Loads perpendicular to the axis of the element """
-- 
2.43.0


From 70abe401376b0f6b8b79ce05aa562285802eb0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:56 +0000
Subject: [PATCH 031/172] fix: end forces account for every line load of a load
 case on an element, and for no load of an earlier analysis

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 2 +-
 metku/framefem/elements/ebbeam.py             | 4 ++--
 metku/framefem/framefem.py                    | 4 ++++
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index 8aaabb6..3572502 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -317,7 +317,7 @@ class EBSemiRigidBeam(EBBeam):
             floc[rel] = 0
 
             # Store local loads
-        self.floc[load.sid] = floc
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 18097d0..869b405 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -515,7 +515,7 @@ class EBBeam(Element):
             floc[rel] = 0            
 
         # Store local loads
-        self.floc[load.sid] = floc
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
@@ -973,7 +973,7 @@ class EBBeam3D(Element):
             floc[rel] = 0            
 
         # Store local loads
-        self.floc[load.sid] = floc
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index ed65b84..de9d793 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -512,6 +512,10 @@ class FrameFEM:
         """ Initialize load vector """
         global_load = np.zeros(self.dofs)
 
+        # Forget the element loads of earlier analyses
+        for el in self.elements:
+            el.floc.pop(sid, None)
+
         for load in self.loads:
             """ Get the loads to be added to the vector 
                 and the global degrees of freedom of these loads
-- 
2.43.0


From 2e5f2360700c60604a4b5a1fd1a64aede463b289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:56 +0000
Subject: [PATCH 032/172] fix: semi-rigid beams, springs and rods can be
 analysed again; line loads on semi-rigid beams account for the joints

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 18 +++++++++++++-----
 metku/framefem/elements/rod.py                |  4 ++--
 metku/framefem/elements/springs.py            |  6 +++---
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index 3572502..57a7ecf 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -63,6 +63,7 @@ class EBSemiRigidBeam(EBBeam):
 
         self.bending_moment = [0.0, 0.0]
         self.shear_force = [0.0, 0.0]
+        rot_stiff = list(rot_stiff)
         for i in range(2):
             if rot_stiff[i] <= kHinge:
                 rot_stiff[i] = kHinge
@@ -72,9 +73,9 @@ class EBSemiRigidBeam(EBBeam):
         # print(rot_stiff)
         self.rot_stiff = rot_stiff
 
-    def transformation_matrix(self):
+    def transformation_matrix(self, initial=True):
         """ From local to global coordinates """
-        c = self.direction_cosines()
+        c = self.direction_cosines(initial)
         L = np.zeros((6, 6))
         L[0, 0:2] = c[0:2]
         L[1, 0] = -L[0, 1]
@@ -232,7 +233,7 @@ class EBSemiRigidBeam(EBBeam):
 
         return kG
 
-    def equivalent_nodal_loads(self, load):
+    def equivalent_nodal_loads(self, load, order=1, initial=True):
         """ Equivalent nodal loads for a load
 
             'load' is a Load type object. By default, it is assumed that
@@ -249,14 +250,16 @@ class EBSemiRigidBeam(EBBeam):
         L = self.length()
 
         if isinstance(load, LineLoad):
-            q1 = load.qval[0]
-            q2 = load.qval[1]
+            q1 = load.f * load.qval[0]
+            q2 = load.f * load.qval[1]
             # print(q1,q2)
             if load.coords == 'local':
                 # print('local coordinates')
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = 0.5 * L * (0.5 * (q1 + q2) - 1 / 6 * (q2 - q1))
+                    floc[3] = 0.5 * L * (0.5 * (q1 + q2) + 1 / 6 * (q2 - q1))
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     floc[1] = 7 / 20 * q1 * L + 3 / 20 * q2 * L
@@ -304,6 +307,11 @@ class EBSemiRigidBeam(EBBeam):
 
                 # print(floc)
 
+        # The joints give way: the ends of the beam rotate by S/delta times the
+        # displacements of the nodes more than the nodes
+        q = [1, 2, 4, 5]
+        floc[q] += 1 / self.delta() * self.matrix_S().transpose().dot(floc[q])
+
         if len(self.releases) > 0:
             """ There are releases in the element, so the local load vector
                 is modified.
diff --git a/metku/framefem/elements/rod.py b/metku/framefem/elements/rod.py
index 91b65ad..0f09a09 100644
--- a/metku/framefem/elements/rod.py
+++ b/metku/framefem/elements/rod.py
@@ -96,7 +96,7 @@ class Rod(Element):
             TODO: Modify for 3D!
         """
         #P = self.axial_force[1]
-        P = self.find[lcase]['fx'][0]
+        P = self.fint[lcase]['fx'][0]
         Le = self.length()
 
         return P / Le * np.array([[0, 0, 0, 0], [0, 1, 0, -1], [0, 0, 0, 0], [0, -1, 0, 1]])
@@ -112,7 +112,7 @@ class Rod(Element):
             TODO: Modify for 3D!
         """
         c = self.direction_cosines()
-        L = np.array([[c, 0, 0], [-c[1], c[0], 0, 0], [0, 0, c], [0, 0, -c[1], c[0]]])
+        L = np.array([[c[0], c[1], 0, 0], [-c[1], c[0], 0, 0], [0, 0, c[0], c[1]], [0, 0, -c[1], c[0]]])
 
         kG0 = self.local_geometric_stiffness_matrix(lcase)
 
diff --git a/metku/framefem/elements/springs.py b/metku/framefem/elements/springs.py
index d0f6222..18eb5a5 100644
--- a/metku/framefem/elements/springs.py
+++ b/metku/framefem/elements/springs.py
@@ -36,7 +36,7 @@ class LinearSpring(Element):
         # Dimension of the element
         self.dim = len(n1.coord)
 
-    def transformation_matrix(self):
+    def transformation_matrix(self, initial=True):
         """ From local to global coordinates """
         c = self.direction_cosines()
         L1 = np.hstack((c, np.zeros(len(c))))
@@ -94,7 +94,7 @@ class LinearSpring(Element):
             TODO: Modify for 3D!
         """
         #P = self.axial_force[1]
-        P = self.find[lcase]['fx'][0]
+        P = self.fint[lcase]['fx'][0]
         Le = self.length()
 
         return P / Le * np.array([[0, 0, 0, 0], [0, 1, 0, -1], [0, 0, 0, 0], [0, -1, 0, 1]])
@@ -110,7 +110,7 @@ class LinearSpring(Element):
             TODO: Modify for 3D!
         """
         c = self.direction_cosines()
-        L = np.array([[c, 0, 0], [-c[1], c[0], 0, 0], [0, 0, c], [0, 0, -c[1], c[0]]])
+        L = np.array([[c[0], c[1], 0, 0], [-c[1], c[0], 0, 0], [0, 0, c[0], c[1]], [0, 0, -c[1], c[0]]])
 
         kG0 = self.local_geometric_stiffness_matrix(lcase)
 
-- 
2.43.0


From 11cbb9c5f262d5922496dc547645f1085e57cec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:54 +0000
Subject: [PATCH 033/172] fix: springs take part in a static analysis

---
 metku/framefem/elements/springs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/elements/springs.py b/metku/framefem/elements/springs.py
index 18eb5a5..3292273 100644
--- a/metku/framefem/elements/springs.py
+++ b/metku/framefem/elements/springs.py
@@ -132,7 +132,7 @@ class LinearSpring(Element):
         self.fint[lcase]['fx'][1] = self.fint[lcase]['fx'][0]
 
 
-    def nodal_displacements(self,lcase=0):
+    def nodal_displacements(self,lcase=0, order=1):
         """ Get nodal displacements of an element
             Requires previously performed structural analysis such
             that nodal displacements are available.
-- 
2.43.0


From 3d3e13b770f25e01537352ef21db2d2eacf24355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:54 +0000
Subject: [PATCH 034/172] fix: 3D beam frames can be analysed, line loads act
 on the right degrees of freedom

---
 metku/framefem/elements/ebbeam.py | 47 ++++++++++++++++++-------------
 metku/framefem/framefem.py        |  6 ++--
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 869b405..54928c7 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -20,7 +20,7 @@ CACHE_BOUND = 2**10
 #except:
 #    from framefem import Element, LineLoad
 
-from ..framefem import Element, LineLoad
+from ..framefem import Element, LineLoad, FEMNode
 
 class EBBeam(Element):
     """ Euler-Bernoulli beam element
@@ -722,13 +722,13 @@ class EBBeam3D(Element):
         
         return super().direction_cosines()
             
-    def direction_cosines(self):
+    def direction_cosines(self, initial=True):
         """ Calculates direction cosines for a 3D-beam element """
         
         l0 = np.zeros((3,3))
         
-        X = self.coord()
-        L = self.length()
+        X = self.coord(initial)
+        L = self.length(initial)
         dX = X[1, :] - X[0, :]        
         # direction cosines along the local x axis
         l0[0,:] = dX / L
@@ -755,7 +755,7 @@ class EBBeam3D(Element):
         
         return l0
         
-    def transformation_matrix(self):
+    def transformation_matrix(self, initial=True):
         """ Calculates transformation matrix from local to global coordinates
 
             Returns:
@@ -764,7 +764,7 @@ class EBBeam3D(Element):
             :rtype: np.array
 
          """
-        l0 = self.direction_cosines()
+        l0 = self.direction_cosines(initial)
         L = np.zeros((12, 12))
         L[0:3, 0:3] = l0
         L[3:6, 3:6] = l0
@@ -864,7 +864,7 @@ class EBBeam3D(Element):
 
         return ke
     
-    def equivalent_nodal_loads(self, load):
+    def equivalent_nodal_loads(self, load, order=1, initial=True):
         """ Equivalent nodal loads for a load 
         
             'load' is a Load type object. By default, it is assumed that
@@ -900,14 +900,16 @@ class EBBeam3D(Element):
         L = self.length()
 
         if isinstance(load,LineLoad):
-            q1 = load.qval[0]
-            q2 = load.qval[1]
+            q1 = load.f*load.qval[0]
+            q2 = load.f*load.qval[1]
             #print(q1,q2)
             if load.coords == 'local':
                 #print('local coordinates')
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = 0.5*L*(0.5*(q1+q2)-1/6*(q2-q1))
+                    floc[6] = 0.5*L*(0.5*(q1+q2)+1/6*(q2-q1))
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     floc[1] = 7/20*q1*L + 3/20*q2*L
@@ -917,19 +919,19 @@ class EBBeam3D(Element):
                 elif load.dir == 'z':
                     floc[2] = 7/20*q1*L + 3/20*q2*L
                     floc[8] = 3/20*q1*L + 7/20*q2*L                    
-                    floc[4] = L**2*(1/20*q1+1/30*q2)
-                    floc[10] = -L**2*(1/30*q1+1/20*q2)
+                    floc[4] = -L**2*(1/20*q1+1/30*q2)
+                    floc[10] = L**2*(1/30*q1+1/20*q2)
                 #print(floc)
             else:
                 """ Load is given in global coordinates: it has to be transformed
                     first into local coordinates.
                 """
                 if load.dir == "x":                    
-                    q = np.array([1, 0, 0,0,0,0])
+                    q = np.array([1, 0, 0])
                 elif load.dir == 'y':                    
-                    q = np.array([0, 1, 0,0,0,0])
+                    q = np.array([0, 1, 0])
                 elif load.dir == 'z':                    
-                    q = np.array([0, 0, 1,0,0,0])
+                    q = np.array([0, 0, 1])
                 # Load vector transformed into element local coordinate system
                 qloc = T[:3, :3].dot(q)
                 
@@ -937,15 +939,22 @@ class EBBeam3D(Element):
                 qy1 = q1*qloc[1]
                 qy2 = q2*qloc[1]
                 floc[1] = 7/20*qy1*L + 3/20*qy2*L
-                floc[4] = 3/20*qy1*L + 7/20*qy2*L
-                floc[2] = L**2*(1/20*qy1+1/30*qy2)
-                floc[5] = -L**2*(1/30*qy1+1/20*qy2)
+                floc[7] = 3/20*qy1*L + 7/20*qy2*L
+                floc[5] = L**2*(1/20*qy1+1/30*qy2)
+                floc[11] = -L**2*(1/30*qy1+1/20*qy2)
+                
+                qz1 = q1*qloc[2]
+                qz2 = q2*qloc[2]
+                floc[2] = 7/20*qz1*L + 3/20*qz2*L
+                floc[8] = 3/20*qz1*L + 7/20*qz2*L
+                floc[4] = -L**2*(1/20*qz1+1/30*qz2)
+                floc[10] = L**2*(1/30*qz1+1/20*qz2)
                 
                 """ Loads parallel to the axis of the element """
                 qx1 = q1*qloc[0]
                 qx2 = q2*qloc[0]
                 floc[0] = 0.5*L*(0.5*(qx1+qx2)-1/6*(qx2-qx1))
-                floc[3] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
+                floc[6] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
                 
                 # Construct nodal load in local coordinates
                 # qloc[0,1,2] = axial, shear, moment of node 1
@@ -1007,7 +1016,7 @@ class EBBeam3D(Element):
 
         return kg0
 
-    def internal_forces(self,lcase=0):
+    def internal_forces(self,lcase=0,initial=True):
             """ Calculate internal forces
     
             """
diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index de9d793..2015585 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -181,8 +181,8 @@ class FrameFEM:
         else:
             self.dim = 3
             self.nodal_coords.append([x, y, z])
-            #for i in range(self.nloadcases()):
-            #    newNode.u = np.vstack((newNode.u, [0.0, 0.0, 0.0, 0.0, 0.0, 0.0]))
+            for load_id in self.loadcases.keys():
+                newNode.u[load_id] = np.zeros(len(newNode.dofs))
 
         self.nodes.append(newNode)
         return newNode
@@ -1480,7 +1480,7 @@ class FEMNode:
             self.X = np.array([x, y, z])
             # Degrees of freedom (integer values)
             #self.dofs = [0, 0, 0, 0, 0, 0]
-            self.dofs = -np.ones(6)
+            self.dofs = -np.ones(6, dtype=int)
             # Nodal displacements
             # [Ux, Uy, Uz, Rx, Ry, Rz]
             self.v = np.array([0, 0, 0, 0, 0, 0])
-- 
2.43.0


From bb05e4f23c6b3dfaa79d210e893e6270605461c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:23 +0000
Subject: [PATCH 035/172] fix: element loads are condensed with the element's
 current releases

---
 metku/framefem/elements/ebbeam.py | 73 +++++++++++--------------------
 1 file changed, 26 insertions(+), 47 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 54928c7..a50e845 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -103,31 +103,8 @@ class EBBeam(Element):
             :rtype: np.array
 
         """
-        return self._local_stiffness_matrix(E, A, I1, Le, tuple(self.releases))
+        k0 = self._unreleased_stiffness_matrix(E, A, I1, Le).copy()
 
-    @lru_cache(CACHE_BOUND)
-    def _local_stiffness_matrix(self, E, A, I1, Le, releases):
-        """ Stiffness matrix in local coordinates for given releases """
-        rodc = E * A / Le
-        EI1 = E * I1
-        k0 = np.zeros((6, 6))
-        #
-        k0[[0, 3], [0, 3]] = rodc
-        k0[[0, 3], [3, 0]] = -rodc
-        #
-        bend1 = 12 * EI1 / Le ** 3
-        k0[[1, 4], [1, 4]] = bend1
-        k0[[1, 4], [4, 1]] = -k0[1, 1]
-        #
-        bend2 = 6 * EI1 / Le ** 2
-        k0[[1, 2, 1, 5], [2, 1, 5, 1]] = bend2
-        #
-        k0[[2, 4, 4, 5], [4, 2, 5, 4]] = -bend2
-        #
-        k0[[2, 5], [5, 2]] = 2 * EI1 / Le
-        #
-        k0[[2, 5], [2, 5]] = 4 * EI1 / Le
-        
         if len(self.releases) > 0:
             """ There are releases in the element, so the stiffness matrix
                 is modified.
@@ -146,34 +123,36 @@ class EBBeam(Element):
             self.Krel['K21'] = K21
             self.Krel['K22'] = K22
             
-            """
-            print(rel,nrel)
-            print('k0')
-            print(k0)
-            print('K22')
-            print(K22)
-            print('K11')
-            print(K11)
-            print('K12')
-            print(K12)
-            print('K21')
-            print(K21)
-            """
-            
-            #K221K21inv = np.linalg.inv(K22).dot(K21)
-            
             kc = K11 - K12.dot(np.linalg.inv(K22).dot(K21))
             
-            """
-            print('kc = ')
-            print(kc)
-            print(kc.shape)
-            """
             k0[np.ix_(nrel,nrel)] = kc
             k0[rel,:] = 0
             k0[:,rel] = 0
-            #print(k0)
-            
+
+        return k0
+
+    @lru_cache(CACHE_BOUND)
+    def _unreleased_stiffness_matrix(self, E, A, I1, Le):
+        """ Stiffness matrix in local coordinates without releases """
+        rodc = E * A / Le
+        EI1 = E * I1
+        k0 = np.zeros((6, 6))
+        #
+        k0[[0, 3], [0, 3]] = rodc
+        k0[[0, 3], [3, 0]] = -rodc
+        #
+        bend1 = 12 * EI1 / Le ** 3
+        k0[[1, 4], [1, 4]] = bend1
+        k0[[1, 4], [4, 1]] = -k0[1, 1]
+        #
+        bend2 = 6 * EI1 / Le ** 2
+        k0[[1, 2, 1, 5], [2, 1, 5, 1]] = bend2
+        #
+        k0[[2, 4, 4, 5], [4, 2, 5, 4]] = -bend2
+        #
+        k0[[2, 5], [5, 2]] = 2 * EI1 / Le
+        #
+        k0[[2, 5], [2, 5]] = 4 * EI1 / Le
 
         return k0
 
-- 
2.43.0


From c190e095b9082ad3d4dd2a1caf97cc2c9c467a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:23 +0000
Subject: [PATCH 036/172] fix: geometric stiffness of a beam with releases does
 not act on the released rotations

---
 metku/framefem/elements/ebbeam.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index a50e845..c3d9159 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -204,6 +204,15 @@ class EBBeam(Element):
         q = [1, 2, 4, 5]
         kg0[np.ix_(q, q)] = keg0
 
+        if len(self.releases) > 0:
+            # Released displacements follow the other ones
+            rel = self.releases
+            nrel = np.setdiff1d(np.arange(6),rel)
+            T = np.eye(6)
+            T[np.ix_(rel,nrel)] = -np.linalg.inv(self.Krel['K22']).dot(self.Krel['K21'])
+            T[:,rel] = 0
+            kg0 = T.transpose().dot(kg0.dot(T))
+
         return kg0
 
     def geometric_stiffness_matrix(self,lcase=0,initial=True):
-- 
2.43.0


From 121e5218a0dd466e1cd2dc506fb42785079f7251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:47 +0000
Subject: [PATCH 037/172] fix: second order fixed-end moments of local line
 loads, for any section type

---
 metku/framefem/elements/ebbeam.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index c3d9159..f718b98 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -395,16 +395,16 @@ class EBBeam(Element):
                             floc[2] = L**2*(1/20*q1+1/30*q2)
                             floc[5] = -L**2*(1/30*q1+1/20*q2)
                         else:
-                            k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
+                            k = np.sqrt(abs(P)/self.material.young/self.section.I[0])
                             a = 0.5*L
                             lam = k*a
-                            s = np.sin(k*L)
-                            c = np.cos(k*L)
+                            s = np.sin(lam)
+                            c = np.cos(lam)
                             
                             floc[1] = 0.5*q1*L
                             floc[4] = 0.5*q1*L                    
-                            floc[2] = q1*a**2*(lam*c-s)/lam**2/s
-                            floc[5] = -q1*a**2*(lam*c-s)/lam**2/s
+                            floc[2] = -q1*a**2*(lam*c-s)/lam**2/s
+                            floc[5] = q1*a**2*(lam*c-s)/lam**2/s
                 #print(floc)
             else:
                 """ Load is given in global coordinates: it has to be transformed
@@ -452,7 +452,7 @@ class EBBeam(Element):
                         floc[0] = 0.5*L*(0.5*(qx1+qx2)-1/6*(qx2-qx1))
                         floc[3] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
                     else:
-                        k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
+                        k = np.sqrt(abs(P)/self.material.young/self.section.I[0])
                         a = 0.5*L
                         lam = k*a
                         s = np.sin(lam)
-- 
2.43.0


From 0e87dbe988fbfbcbb95d794714202699994f9c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:05 +0000
Subject: [PATCH 038/172] fix: buckling modes are assigned to the right degrees
 of freedom, also when the analysis is repeated

---
 metku/framefem/framefem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 2015585..c745777 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -391,7 +391,7 @@ class FrameFEM:
     def global_free_dofs(self):
         """ List of free degrees of freedom """
         
-        return list(set(np.arange(self.dofs))-set(self.supp_dofs))
+        return sorted(set(np.arange(self.dofs))-set(self.supp_dofs))
 
     def global_stiffness_matrix(self):
         """ Constructs the global stiffness matrix
@@ -895,7 +895,7 @@ class FrameFEM:
         """
         
         for node in self.nodes:
-            node.v = np.zeros((buckling_modes.shape[1],len(node.v)))
+            node.v = np.zeros((buckling_modes.shape[1],len(node.dofs)))
         
         
         glob_dofs = self.global_free_dofs()
-- 
2.43.0


From b65c2fcb2b50ed736769e7074d95fcb5599e831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 039/172] fix: interpolate fire reduction factors between the
 temperatures of their own table

---
 metku/eurocodes/en1993/en1993_1_2.py | 44 ++++++++++++++--------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 5e958a8..564efa9 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -109,16 +109,23 @@ def reduce_property(t,prop,steel='carbon'):
         of property 'prop'
     """
     rf = 1.0
+    if steel == 'carbon':
+        table = REDUCTION_FACTORS_CS
+    elif steel == '1.4301':
+        table = REDUCTION_FACTORS_14301
+    elif steel == 'bolts':
+        table = REDUCTION_FACTORS_BOLTS
+    else:
+        print("Unidentified steel grade!")
+        return rf
+
+    # Temperatures given in the table of the material: not all the
+    # materials have values for the same temperatures
+    temps = np.array(list(table))
+
     # Check if 't' matches any of the special temperatures
-    if any(SPECIAL_TEMPS == t):
-        if steel == 'carbon':
-            rf = REDUCTION_FACTORS_CS[t][prop]
-        elif steel =='1.4301':
-            rf = REDUCTION_FACTORS_14301[t][prop]
-        elif steel == 'bolts':
-            rf = REDUCTION_FACTORS_BOLTS[t][prop]
-        else:
-            print("Unidentified steel grade!")
+    if any(temps == t):
+        rf = table[t][prop]
     else:
         # t does not match any of the special temperatures;
         # Do linear interpolation
@@ -126,19 +133,12 @@ def reduce_property(t,prop,steel='carbon'):
         """ Find the largest smaller and smallest larger
             temperatures and the corresponding reduction factors
         """
-        t_smaller = np.max(SPECIAL_TEMPS[SPECIAL_TEMPS < t])
-        t_larger = np.min(SPECIAL_TEMPS[SPECIAL_TEMPS > t])
-        
-        if steel == 'carbon':
-            p_smaller = REDUCTION_FACTORS_CS[t_smaller][prop]
-            p_larger = REDUCTION_FACTORS_CS[t_larger][prop]
-        elif steel == '1.4301':
-            p_smaller = REDUCTION_FACTORS_14301[t_smaller][prop]
-            p_larger = REDUCTION_FACTORS_14301[t_larger][prop]
-        elif steel == 'bolts':
-            p_smaller = REDUCTION_FACTORS_BOLTS[t_smaller][prop]
-            p_larger = REDUCTION_FACTORS_BOLTS[t_larger][prop]
-            
+        t_smaller = np.max(temps[temps < t])
+        t_larger = np.min(temps[temps > t])
+
+        p_smaller = table[t_smaller][prop]
+        p_larger = table[t_larger][prop]
+
         rf = linear_interpolation((t_smaller,p_smaller), (t_larger,p_larger), t)
     
     return rf
-- 
2.43.0


From 299d25b420d1bf6c9b01bb68bc9cc92827466a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 040/172] fix: k2,theta of stainless steel at 1000-1200 degrees
 as in EN 1993-1-2 Table C.1

---
 metku/eurocodes/en1993/en1993_1_2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 564efa9..2c53dba 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -43,9 +43,9 @@ REDUCTION_FACTORS_14301 = {20:{'ky':0.26,'k02':1.0,'ku':1.0,'kE':1.0,'kEct':0.11
                            700:{'ky':0.26,'k02':0.40,'ku':0.43,'kE':0.71,'kEct':0.02,'epsU': 0.30},
                            800:{'ky':0.35,'k02':0.27,'ku':0.27,'kE':0.63,'kEct':0.02,'epsU': 0.20},
                            900:{'ky':0.38,'k02':0.14,'ku':0.15,'kE':0.45,'kEct':0.02,'epsU': 0.20},
-                           1000:{'ky':0.040,'k02':0.06,'ku':0.07,'kE':0.2,'kEct':0.02,'epsU': 0.20},
-                           1100:{'ky':0.040,'k02':0.03,'ku':0.03,'kE':0.1,'kEct':0.02,'epsU': 0.20},
-                           1200:{'ky':0.040,'k02':0.0,'ku':0.00,'kE':0.0,'kEct':0.02,'epsU': 0.20},
+                           1000:{'ky':0.40,'k02':0.06,'ku':0.07,'kE':0.2,'kEct':0.02,'epsU': 0.20},
+                           1100:{'ky':0.40,'k02':0.03,'ku':0.03,'kE':0.1,'kEct':0.02,'epsU': 0.20},
+                           1200:{'ky':0.40,'k02':0.0,'ku':0.00,'kE':0.0,'kEct':0.02,'epsU': 0.20},
                            }
 
 # EN 1993-1-2, Table D.1
-- 
2.43.0


From 2fb1b7b8633ad4366f0f6526aeb84ef1d14627da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 041/172] fix: stress of steel without remaining stiffness is
 zero

---
 metku/eurocodes/en1993/en1993_1_2.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 2c53dba..814cb31 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -218,7 +218,11 @@ def stress(strain,t,Ea,fya,hardening=False):
     # Proportional limit and Young's modulus at temperature 't'
     fp_t = fpT(t,fya)
     Ea_t = EaT(t,Ea)
-    
+
+    if Ea_t == 0.0:
+        # No stiffness or strength left
+        return 0.0
+
     eps_pt = fp_t/Ea_t
     
     if strain <= eps_pt:
@@ -258,8 +262,11 @@ def stress_stainless(strain,t,Ea,fya,fua,steel="1.4301"):
     f02p_t = f02pT(t,fya,steel)
     
     Ea_t = EaT(t,Ea,steel)
-    
-    
+
+    if Ea_t == 0.0:
+        # No stiffness or strength left
+        return 0.0
+
     eps_ct = f02p_t/Ea_t + 0.002
     kE_ct = reduce_property(t,'kEct',steel)
     Ect_t = kE_ct*Ea
-- 
2.43.0


From b6700845d15d4188af272b3da3d77bbee1f8f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 042/172] fix: buckling factor of a uniformly compressed
 outstand element when the support side is given

---
 metku/eurocodes/en1993/en1993_1_5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_5.py b/metku/eurocodes/en1993/en1993_1_5.py
index 58115e9..891179f 100644
--- a/metku/eurocodes/en1993/en1993_1_5.py
+++ b/metku/eurocodes/en1993/en1993_1_5.py
@@ -109,7 +109,7 @@ def buckling_factor_outstand(psi=1.0, sigma1="tip"):
     else:
         if psi == 1.0:
             ksigma = 0.43
-        if psi < 1.0 and psi > 0.0:
+        elif psi < 1.0 and psi > 0.0:
             ksigma = 0.578 / (psi + 0.34)
         elif psi == 0.0:
             ksigma = 1.7
-- 
2.43.0


From ebc16e9512766eb6556537373014b687ddc12099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 043/172] fix: chord stress function multiplies the resistances
 of Y and X joints

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 metku/raami/raami_plane_truss.py                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 6d8d763..0dfb927 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -832,7 +832,7 @@ class RHSYJoint(RHSJoint):
         r = self.strength_reduction()
         fy0 = self.fy0
         t0 = self.t0
-        NRd = r**kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
+        NRd = r*kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
         NRd = NRd * (2*self.eta / np.sin(np.radians(self.angle)) + 4*np.sqrt(1-b))
         NRd = NRd/ gammaM5
 
@@ -854,7 +854,7 @@ class RHSYJoint(RHSJoint):
         r = self.strength_reduction()
         t0 = self.t0
         h = self.h
-        NRd = r**kn*fb*t0 / (np.sin(np.radians(self.angle)))
+        NRd = r*kn*fb*t0 / (np.sin(np.radians(self.angle)))
         NRd = NRd * (2*h / np.sin(np.radians(self.angle)) + 10*t0)
         NRd = NRd / gammaM5
         return NRd
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2399d9b..60edfcc 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2860,7 +2860,7 @@ class TubularYJoint(TubularJoint):
         r = self.strength_reduction()
         fy0 = self.fy0
         t0 = self.t0
-        NRd = r**kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
+        NRd = r*kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
         NRd = NRd * (2*self.eta / np.sin(np.radians(self.angle)) + 4*np.sqrt(1-b))
         NRd = NRd/ gammaM5
 
@@ -2873,7 +2873,7 @@ class TubularYJoint(TubularJoint):
         r = self.strength_reduction()
         t0 = self.t0
         h = self.h
-        NRd = r**kn*fb*t0 / (np.sin(np.radians(self.angle)))
+        NRd = r*kn*fb*t0 / (np.sin(np.radians(self.angle)))
         NRd = NRd * (2*h / np.sin(np.radians(self.angle)) + 10*t0)
         NRd = NRd / gammaM5
         return NRd
-- 
2.43.0


From 2ba09ad0f52c84768d624f4bb874b8133d5d965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 044/172] fix: design of K gap joints returns the utilisation
 of braces and chord

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 6 ++++--
 metku/raami/raami_plane_truss.py                | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 0dfb927..7f99ed8 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -711,7 +711,7 @@ class RHSKGapJoint(RHSJoint):
 
         Returns
         -------
-        Utilization ratios N1Ed/NjRd and N2Ed/NjRd
+        Utilization ratios N1Ed/NjRd, N2Ed/NjRd and N0Ed/N0Rd
 
         """
         
@@ -730,7 +730,9 @@ class RHSKGapJoint(RHSJoint):
             N_ps_Rd = self.punching_shear()        
             NjRd = np.minimum(NjRd,N_ps_Rd)
 
-        res = np.array(abs(self.NEd)/NjRd,abs(self.N0/N0Rd))
+        # Without shear capacity in the gap, the chord cannot carry anything
+        r0 = abs(self.N0)/N0Rd if N0Rd > 0 else np.inf
+        res = np.append(abs(self.NEd)/NjRd,r0)
 
         return res
 
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 60edfcc..a805bea 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3482,7 +3482,9 @@ class TubularKGapJoint(TubularJoint):
             NjRd = np.minimum(NjRd,N_ps_Rd)
         
         #NjRd = N_cff_Rd
-        r = np.array(abs(NEd)/NjRd,abs(self.N0/N0Rd))
+        # Without shear capacity in the gap, the chord cannot carry anything
+        r0 = abs(self.N0)/N0Rd if N0Rd > 0 else np.inf
+        r = np.append(abs(NEd)/NjRd,r0)
         
         self.utilization[load_id] = max(r)
         
-- 
2.43.0


From dcf49bf93fdb30456ac6deb0640af8900f2f1c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 045/172] fix: Y joint recognises compression in the brace

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 7f99ed8..831bdb6 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -767,7 +767,8 @@ class RHSYJoint(RHSJoint):
             self.brace = brace
         self.angle = angle
         
-        self._N1 = self.brace.NEd
+        # Force with the largest magnitude, compression is negative
+        self._N1 = max(self.brace.ned,key=abs)
         
     @property
     def N1(self):
-- 
2.43.0


From a38d6b1c53fe408524bbce8551c0ca5b03c1a38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 046/172] fix: side wall buckling of X joints, reduction factor
 at most one

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 831bdb6..b0abd7c 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -815,7 +815,7 @@ class RHSYJoint(RHSJoint):
             alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
             
             fb = chi * self.fy0
             #print(chi,fb)
@@ -1017,10 +1017,10 @@ class RHSXJoint(RHSYJoint):
                 
                 
         if self.N1 < 0.0:            
-            alpha = self.chord.imp_factor[0]
+            alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
             
             res = 0.8*chi * self.fy0*np.sin(np.radians(self.angle))            
         else:
@@ -1038,14 +1038,13 @@ class RHSXJoint(RHSYJoint):
             # Take the minimium of chord web buckling for X joints
             # and chord shear for K and N joints
             # 
-            Nshear = self.fy0*self.chord.Ashear/np.sqrt(3)/np.sin(np.radians(self.angle))
+            Nshear = self.chord.profile.VRd/np.sin(np.radians(self.angle))
             # The strength reduction factor is already taken into account
             # for the chord web buckling of the Y joint class method.
             # It must be applied for the chord shear.
             r = self.strength_reduction()
-            NRd = min(NRd,r*Nshear)
-        
-        NRd = NRd / gammaM5
+            NRd = min(NRd,r*Nshear/gammaM5)
+
         return NRd
         
     def info(self):
-- 
2.43.0


From 93b97cba5035c1d1dd533299bcce2664635e858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 047/172] fix: tension brace of K gap joints

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index b0abd7c..e18e55b 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -330,15 +330,15 @@ class RHSKGapJoint(RHSJoint):
     @property
     def N2(self):
         """ Axial force in the tension member """
-        if self.braces[0].NcEd <= 0.0:
-            return abs(self.braces[1].NcEd)
+        if self.braces[0].NcEd < 0.0:
+            return self.braces[1].NEd
         else:
             return self.braces[0].NEd
     
     @property
     def angle2(self):
         """ Angle of the tension member """
-        if self.braces[0].Ned <= 0.0:
+        if self.braces[0].NcEd < 0.0:
             return self.angles[1]
         else:
             return self.angles[0]
@@ -502,8 +502,8 @@ class RHSKGapJoint(RHSJoint):
 
         """
         
-        lp_min = 1.5*(self.braces[0].h/np.sin(np.radians(self.angles[0])) + self.gap + 
-                                              self.braces[1].h/np.sin(np.radians(self.angles[1])))
+        lp_min = 1.5*(self.braces[0].profile.H/np.sin(np.radians(self.angles[0])) + self.gap + 
+                                              self.braces[1].profile.H/np.sin(np.radians(self.angles[1])))
         
         lp = max(lp,lp_min)
         
-- 
2.43.0


From bd75ce8c70c6a233a1cc660f1e465ae932c3c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 048/172] fix: wide Y joints interpolate from chord face
 failure at beta 0.85

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 7 +++----
 metku/raami/raami_plane_truss.py                | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index e18e55b..d1a747a 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -826,10 +826,9 @@ class RHSYJoint(RHSJoint):
             
     def chord_face_failure(self,verb=False):
                         
-        b = self.beta()
-        if b >= 1:
-            # If beta is grater than 1, artificially reduce it to "nearly 1".
-            b = 0.99
+        # The rule is for beta <= 0.85: beyond it, the value at 0.85 is needed
+        # for interpolation with chord side wall failure.
+        b = min(self.beta(), 0.85)
         kn = self.eval_KN()
         
         r = self.strength_reduction()
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index a805bea..cb451f8 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2851,10 +2851,9 @@ class TubularYJoint(TubularJoint):
     
     def chord_face_failure(self,verb=False):
                         
-        b = self.beta()
-        if b >= 1:
-            # If beta is grater than 1, artificially reduce it to "nearly 1".
-            b = 0.99
+        # The rule is for beta <= 0.85: beyond it, the value at 0.85 is needed
+        # for interpolation with chord side wall failure.
+        b = min(self.beta(), 0.85)
             
         kn = self.eval_KN()
         r = self.strength_reduction()
-- 
2.43.0


From 501d7037cfd0dc6624a6df045e4fd80988123077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 049/172] fix: design of wide tubular Y joints, shear force in
 the gap of either sign

---
 metku/raami/raami_plane_truss.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index cb451f8..25d4254 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2829,13 +2829,13 @@ class TubularYJoint(TubularJoint):
     
     def fb(self,load_id):
         """ Yield strength to be used in chord side wall buckling. """
-        
+
         if self.braces[0].NEd[load_id] < 0.0:
             alpha = self.chords[0].cross_section.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
-            
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
+
             fb = chi * self.fy0
             #print(chi,fb)
         else:
@@ -2865,9 +2865,9 @@ class TubularYJoint(TubularJoint):
 
         return NRd
     
-    def chord_web_buckling(self):
+    def chord_web_buckling(self,load_id):
         
-        fb = self.fb()
+        fb = self.fb(load_id)
         kn = self.eval_KN()
         r = self.strength_reduction()
         t0 = self.t0
@@ -2941,7 +2941,7 @@ class TubularYJoint(TubularJoint):
                 print('Chord face failure: NjRd = {0:4.2f} kN'.format(NjRd*1e-3))
         else:
             N_cff_Rd = self.chord_face_failure()
-            N_csw_Rd = self.chord_web_buckling()
+            N_csw_Rd = self.chord_web_buckling(load_id)
             N_bf_Rd = self.brace_failure()
             
             # Linear interpolation between chord face failure at b = 0.85
@@ -3130,7 +3130,7 @@ class TubularKGapJoint(TubularJoint):
     
     def V0gap(self,load_id):
         """ Shear force in the gap """
-        return max(self.fem_elements['gap'].fint[load_id]['fz'])
+        return max(abs(f) for f in self.fem_elements['gap'].fint[load_id]['fz'])
     
     @property
     def angles(self):
-- 
2.43.0


From c10cafe1ee4e649d15aa383dcc67fe1bcf7df029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 050/172] fix: bolt_shear_resistance uses the class factor when
 the threads are in the shear plane

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 2e3c7f5..b66c5d2 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -2119,12 +2119,12 @@ def bolt_shear_resistance(fub,A,bolt_class=8.8,threads_in_plane=False):
     """
     
     if threads_in_plane:
-        av = 0.6
-    else:
         if bolt_class in {10.9,6.8,5.8,4.8}:
             av = 0.5
         elif bolt_class in {4.6,5.6,8.8}:
             av = 0.6
+    else:
+        av = 0.6
     
     FvRd = av*fub*A/gammaM2
     
-- 
2.43.0


From 94d1f2e41f44e67b55f047d2d06e48ef03e79042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 051/172] fix: bolt_bearing_resistance applies the partial
 factor gammaM2

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index b66c5d2..400f158 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -2164,7 +2164,7 @@ def bolt_bearing_resistance(fub,fu,d,t,e,p,d0,pos_perp="edge",pos_load="edge"):
     
     ab = min(ad,fub/fu,1.0)
     
-    FbRd = k1*ab*fu*d*t    
+    FbRd = k1*ab*fu*d*t/gammaM2
     
     return FbRd
 
-- 
2.43.0


From bab5197af252becbc031260a045488749f686074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 052/172] fix: shear interaction factor of the column web for
 transformation parameters between 1 and 2

---
 metku/eurocodes/en1993/en1993_1_8/component_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/component_method.py b/metku/eurocodes/en1993/en1993_1_8/component_method.py
index 73eb1e0..2623947 100644
--- a/metku/eurocodes/en1993/en1993_1_8/component_method.py
+++ b/metku/eurocodes/en1993/en1993_1_8/component_method.py
@@ -31,7 +31,7 @@ def min_coeff_w(beta, b_eff_c_wc, t_wc, A_vc):
     elif beta == 1.0:
         w = w_1
     elif 1.0 < beta < 2.0:
-        w = w_1 + 2.0 * (beta - 1.0) * (1.0 - w_1)
+        w = w_1 + (beta - 1.0) * (w_2 - w_1)
     elif beta == 2.0:
         w = w_2
     else:
-- 
2.43.0


From b6e6ba2ce18a9a9974b8c0e490e2dc6303b85eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 053/172] fix: effective length of a T-stub group before its
 resistance is evaluated

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 400f158..6b4d017 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -1812,7 +1812,7 @@ class TStubGroup:
             
         return FRd
     
-    def FT_Rd(self,verb):
+    def FT_Rd(self,verb=False):
         """ Design tension resistance """
         
         FT_Rd = np.array([0.0,0.0,0.0])
-- 
2.43.0


From 7c0a02fa8ab74f23c4b7ce10e5f8bbf0fad62899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 054/172] fix: effective length of a row next to a stiffener
 uses the row spacing of its own group

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 6b4d017..a014b82 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -1915,7 +1915,7 @@ class TStubGroupColumnFlange(TStubGroup):
             i = self.group.rows.index(row)
             
             position = self.group.row_loc[i]['flange']
-            if position == END_ROW:
+            if position == END_ROW or position == ADJACENT_TO_STIFFENER_ROW:
                 if i == 0:
                     row.Tstub_col_flange.p = self.group.p[i]
                 else:
@@ -1938,7 +1938,7 @@ class TStubGroupColumnFlange(TStubGroup):
             i = self.group.rows.index(row)
             
             position = self.group.row_loc[i]['flange']
-            if position == END_ROW:
+            if position == END_ROW or position == ADJACENT_TO_STIFFENER_ROW:
                 if i == 0:
                     row.Tstub_col_flange.p = self.group.p[i]
                 else:
-- 
2.43.0


From f5f39edfe74427c6c3f81035d2446b9221f1cc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 055/172] fix: initial stiffness of an end plate joint with one
 tension row

---
 metku/structures/steel/end_plate_joint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 6d302b2..58fb7fe 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -690,7 +690,7 @@ class EndPlateJoint:
             """ Only one tension row: moment arm is the distance
                 between bottom 
             """
-            z = self.moment_arm()
+            z, k_eq = self.zeq_and_keq(verb)
         else:
             z, k_eq = self.zeq_and_keq(verb)
         
-- 
2.43.0


From c6ddd2d3d5e590567efcb328e380d9338fa6ea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 056/172] fix: equivalent stiffness of the tension rows leaves
 out shear rows, as the lever arm does

---
 metku/structures/steel/end_plate_joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 58fb7fe..9286e77 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -617,8 +617,8 @@ class EndPlateJoint:
 
     def keq(self,verb=False):
         """ Equivalent stiffness of the tension rows """
-        keff = np.array([row.keff() for row in self.bolt_rows])
-        hr = self.hr()
+        keff = np.array([row.keff() for row in self.bolt_rows if row.type != SHEAR_ROW])
+        hr = self.hr('non-shear')
         
     
         return sum(keff*hr)/self.zeq(verb)
-- 
2.43.0


From e513b7fc4b9032cf01ddcc3f6e476bb0f127f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 057/172] fix: added shear resistance of a stiffened column web
 panel

---
 metku/structures/steel/end_plate_joint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 9286e77..dca3be9 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -401,7 +401,7 @@ class EndPlateJoint:
                 beam flanges (this may not be true for top stiffener for flushed end-plat)
             """
             ds = self.beam.h-self.beam.tf            
-            V_wp_add_Rd[0] = 4*self.Mpl_fc_Rd()
+            V_wp_add_Rd[0] = 4*self.Mpl_fc_Rd()/ds
             fyt = self.stiffeners['col_top_flange'].fy
             tst = self.stiffeners['col_top_flange'].t
             fyb = self.stiffeners['col_bottom_flange'].fy
-- 
2.43.0


From fbe1b52e7ab9e44c0ce965ac6c56de8caa52df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 058/172] fix: shear rows do not contribute to the moment
 resistance of an end plate joint

---
 metku/structures/steel/end_plate_joint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index dca3be9..3b34dd7 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -595,7 +595,8 @@ class EndPlateJoint:
         
         MjRd = 0.0
         for row in self.bolt_rows:
-            MjRd += row.FtRd * row.h
+            if row.type != SHEAR_ROW:
+                MjRd += row.FtRd * row.h
         
         if verb:
             print("MjRd = {0:4.2f} kNm".format(MjRd*1e-6))
-- 
2.43.0


From 91900cac2b85d77009afc9b5d5d89aa8b63303c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 059/172] fix: end plate joints with column stiffeners could
 not be evaluated

---
 metku/eurocodes/en1993/en1993_1_8/component_method.py | 2 +-
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py       | 6 ++----
 metku/structures/steel/end_plate_joint.py             | 4 +---
 3 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/component_method.py b/metku/eurocodes/en1993/en1993_1_8/component_method.py
index 2623947..e87e21b 100644
--- a/metku/eurocodes/en1993/en1993_1_8/component_method.py
+++ b/metku/eurocodes/en1993/en1993_1_8/component_method.py
@@ -234,7 +234,7 @@ def col_web_trv_comp_stiffened(column, plate):
     e = column.eps
     tw = column.tw
     bsg = plate.b
-    ts = plate.khp
+    ts = plate.t
     
     fy = plate.material.fy
     As_eff = (30*e*tw+ts)*tw + 2*bsg*ts
diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index a014b82..8ada631 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -571,13 +571,13 @@ class BoltRow:
         if self.z > zbeam:
             """ Row is above the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    + 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    + 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     + 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             return self.z-zweld
         else:
             """ Row is below the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    - 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    - 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     - 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             
             return zweld-self.z
@@ -792,8 +792,6 @@ class BoltRow:
         #self.Tstub_col_flange.emin = self.emin_flange
         #self.Tstub_col_flange.m = self.col_flange_m
         #self.Tstub_col_flange.e = self.col_flange_e
-        if self.joint.stiffeners['col_top_flange'] is not None:
-            self.Tstub_col_flange.m2 = self.top_flange_stiffener_m2
         """ Determine effective length 
             The 'leff_1' and 'leff_2' methods store the
             effective length of each failure mode to the T-stub,
diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 3b34dd7..c38367e 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -341,7 +341,7 @@ class EndPlateJoint:
                     hp = self.beam.h
                     bp = self.col.hw
                 tp = value
-                plate = RectPlate(hp,bp,tp,material=self.col.material.name)
+                plate = RectPlate(bp,hp,tp,material=self.col.material.name)
             elif key == 'plate':
                 plate = value
             
@@ -369,9 +369,7 @@ class EndPlateJoint:
                         self.bolt_rows[0].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
                     else:
                         self.bolt_rows[0].loc_col_flange = END_ROW_ADJACENT_TO_STIFFENER
-                    self.bolt_rows[0].Tstub_col_flange.m2 = self.bolt_rows[0].top_flange_stiffener_m2
                     self.bolt_rows[1].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
-                    self.bolt_rows[1].Tstub_col_flange.m2 = self.bolt_rows[1].top_flange_stiffener_m2
                     
                     for group in self.row_groups:
                         for i, row in enumerate(group.rows):
-- 
2.43.0


From 47c8ba79245330811e820ebb2d3a3da094e4bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 060/172] fix: characteristic combination is chosen by its own
 total

---
 metku/eurocodes/en1991/en1991.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1991/en1991.py b/metku/eurocodes/en1991/en1991.py
index 70a633e..0645e30 100644
--- a/metku/eurocodes/en1991/en1991.py
+++ b/metku/eurocodes/en1991/en1991.py
@@ -373,7 +373,7 @@ class SLSCombiner(Combiner):
                 if l is not lo:
                     case2qi.append({'load': lo, 'factor': lo[0].comb_factors[0]})
                     case3qi.append({'load': lo, 'factor': lo[0].comb_factors[2]})
-            characteristic_combination.append({'value': self.sum_G_k() + l[0].value + self.sum_Q_k_excluding(l[0], 2),
+            characteristic_combination.append({'value': self.sum_G_k() + l[0].value + self.sum_Q_k_excluding(l[0], 0),
                                                'combination': {'G': case1, 'Q1': case2q1, 'Qi': case2qi}})
             frequent_combination.append({'value': self.sum_G_k() + l[0].combined(1) + self.sum_Q_k_excluding(l[0], 2),
                                          'combination': {'G': case1, 'Q1': case3q1, 'Qi': case3qi}})
-- 
2.43.0


From 0c8083a6201a7d1d9f3de01dd3e2558e6f20e779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 061/172] fix: monopitch roof coefficients between 5 and 15
 degrees

---
 metku/eurocodes/en1991/en1991_1_4.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index f21cdb4..5f021cd 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -132,15 +132,16 @@ class ExternalPressureMonoRoof:
                 self.H = {'cpe10': interpolate([15,30],[-0.9,-0.8],angle), 'cpe1':interpolate([15,30],[-1.2,-0.8],angle)}
         elif angle >= 5:
             if wind_direction == 0:
-                cneg10 = interpolate([15,30],[-0.9,-0.5],angle)
-                cneg1 = interpolate([15,30],[-2.0,-1.5],angle)
-                cpos = interpolate([15,30],[0.2,0.7],angle)
+                cneg10 = interpolate([5,15],[-1.7,-0.9],angle)
+                cneg1 = interpolate([5,15],[-2.5,-2.0],angle)
+                cpos = interpolate([5,15],[0.0,0.2],angle)
                 self.F = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
-                cneg10 = interpolate([15,30],[-0.8,-0.5],angle)
-                self.G = {'cpe10': [cneg10,cpos], 'cpe1':[-1.5,cpos]} 
-                cpos = interpolate([15,30],[0.2,0.4],angle)
-                cneg = interpolate([15,30],[-0.3,-0.2],angle)
-                self.H = {'cpe10': [cneg,cpos], 'cpe1':[cneg,cpos]} 
+                cneg10 = interpolate([5,15],[-1.2,-0.8],angle)
+                cneg1 = interpolate([5,15],[-2.0,-1.5],angle)
+                self.G = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
+                cneg10 = interpolate([5,15],[-0.6,-0.3],angle)
+                cneg1 = interpolate([5,15],[-1.2,-0.3],angle)
+                self.H = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
             elif wind_direction == 180:
                 self.F = {'cpe10': interpolate([5,15],[-2.3,-2.5],angle), 'cpe1':interpolate([5,15],[-2.5,-2.8],angle)} 
                 self.G = {'cpe10': -1.3, 'cpe1':-2.0}
-- 
2.43.0


From dfb483ff8ca1fd1f041a3f79d4264e697d568c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 062/172] fix: scaling applies to variables with a list of
 target properties

---
 metku/optimization/variables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 3a87151..e6d0602 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -177,8 +177,10 @@ class Variable:
                                     new_val = new_value * self.scaling
 
                                 obj.__setattr__(p, new_val)
-                            else:
+                            elif self.scaling == 1.0:
                                 obj.__setattr__(p, new_value)
+                            else:
+                                obj.__setattr__(p, new_value * self.scaling)
 
                     elif isinstance(self, IndexVariable):
                         obj.__setattr__(prop, new_value)
@@ -453,7 +455,7 @@ class CrossSectionVariable(Variable):
 
                             obj.__setattr__(p, new_val)
                         else:
-                            obj.__setattr__(p, new_value)
+                            obj.__setattr__(p, new_value * self.scaling)
                 else:
                     obj.cross_section.__setattr__(prop, new_value * self.scaling)
 
-- 
2.43.0


From c690b2d29ed4540c3d604b02b9c29f3d4e1d01d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 063/172] fix: locked index variables keep their value, index
 variables have an index

---
 metku/optimization/variables.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index e6d0602..c5fcb32 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -322,6 +322,9 @@ class IndexVariable(IntegerVariable):
     def substitute(self, new_value):
         """ Substitute the profile corresponding to the integer new_value
         """
+        if self.locked:
+            return
+
         try:
             # Take into account that new_value can be a float
             new_value = int(new_value)
@@ -335,11 +338,10 @@ class IndexVariable(IntegerVariable):
 
         self.value = new_value
 
-    # @property
-    # def idx(self):
-    #     if self.value in self.values:
-    #         return self.values.index(self.value)
-    #     return self.value
+    @property
+    def idx(self):
+        """ Index of the current value in the list of values """
+        return self.value
 
 
 class DiscreteVariable(Variable):
-- 
2.43.0


From 2cd9cb0bbb750b1e31a4f1b2315a42bb381da143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 064/172] fix: cross section variables keep their profiles and
 value

---
 metku/optimization/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index c5fcb32..df9b777 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -424,7 +424,7 @@ class CrossSectionVariable(Variable):
 
     def __init__(self, name, lb=XLB, ub=XUB, target=None, profiles=None, value=None, target_fun=None):
 
-        super().__init__(name, lb, ub, target, profiles, value, target_fun=target_fun)
+        super().__init__(name, lb, ub, target=target, profiles=profiles, value=value, target_fun=target_fun)
 
     def substitute(self, new_value):
         """
-- 
2.43.0


From be3bb916580e285222e983b383d087c2a8a5c43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 065/172] fix: objective substitutes the free variables and
 analyses the current design

---
 metku/optimization/objective.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/objective.py b/metku/optimization/objective.py
index 5e0f042..a9843dd 100644
--- a/metku/optimization/objective.py
+++ b/metku/optimization/objective.py
@@ -39,9 +39,6 @@ class ObjectiveFunction:
             Read values from 'x' and reverse them.
             Reversing is done so that 'pop' method can be employed.
         """
-        if self.fea_required and not self.problem.fea_done:
-            self.problem.fea()
-
         X = [val for val in x]
         X.reverse()
 
@@ -65,7 +62,10 @@ class ObjectiveFunction:
                 """
                 break
 
-        self.problem.substitute_variables(fixed_vals)
+        self.problem.substitute_variables(x)
+
+        if self.fea_required and not self.problem.fea_done.get("ALL", False):
+            self.problem.fea()
 
         if self.obj_type == ObjectiveTypeEnum.MIN:
             return self.obj_fun(fixed_vals)
-- 
2.43.0


From 9ffca11435883dfc2a94087f5186781e27dd3037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 066/172] fix: tolerance for comparing variable vectors is not
 the solver's

---
 metku/optimization/constants.py   | 2 +-
 metku/optimization/constraints.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/constants.py b/metku/optimization/constants.py
index c051886..a472b38 100644
--- a/metku/optimization/constants.py
+++ b/metku/optimization/constants.py
@@ -12,7 +12,7 @@ INT_TOL = 1e-4
 """ Tolerance for discreteness violation of a discrete variable """
 DISC_TOL = 1e-3
 """ Tolerance for comparing variable vectors """
-X_TOL = 1e-10
+X_COMP_TOL = 1e-10
 
 """ Artificial variable upper and lower bounds """
 XUB = 1e8
diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index e11955c..6cd6944 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -8,7 +8,7 @@ Created on Thu Oct  6 15:14:17 2022
 import numpy as np
 from collections.abc import Iterable
 
-from metku.optimization.constants import X_TOL, POT_ACT_TOL
+from metku.optimization.constants import X_COMP_TOL, POT_ACT_TOL
 from metku.optimization.variables import Variable, IndexVariable
 import metku.optimization.opt_functions as opt_funs
 
@@ -73,12 +73,12 @@ class Constraint:
             x = np.asarray(x)
             
             """ If the new values deviate from the old values
-                in terms of L2 norm by more than X_TOL, substitute
+                in terms of L2 norm by more than X_COMP_TOL, substitute
                 new values.
 
-                NOTE: X_TOL should be small
+                NOTE: X_COMP_TOL should be small
             """
-            if np.linalg.norm(X - x) > X_TOL:
+            if np.linalg.norm(X - x) > X_COMP_TOL:
                 # print('variablet asetettiin')
                 self.problem.substitute_variables(x)
 
-- 
2.43.0


From f98ab80f5bfb620bef78d31eb84eea2f9d2cdfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 067/172] fix: variables and constraints given to a problem
 become part of it

---
 metku/optimization/structopt.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 8d054c0..7206502 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -88,9 +88,14 @@ class OptimizationProblem:
             self.__vars = []
         if constraints:
             self.cons = constraints
+            for con in self.cons:
+                if con.problem is None:
+                    con.problem = self
         else:
             self.cons = []
         self.obj = objective
+        if isinstance(objective, ObjectiveFunction) and objective.problem is None:
+            objective.problem = self
         # Gradient and Hessian of the objective function
         # should also include the possibility that some of the variables
         # can be fixed!
@@ -657,21 +662,21 @@ class OptimizationProblem:
 
     def add_variable(self, var):
         """ Adds new variable to the problem """
-        self.vars.append(var)
+        self.add(var)
 
     def add_variables(self, variables):
         """ Adds new variables to the problem """
         for var in variables:
-            self.vars.append(var)
+            self.add(var)
 
     def add_constraint(self, con):
         """ Adds new constraint to the problem """
-        self.cons.append(con)
+        self.add(con)
 
     def add_constraints(self, constraints):
         """ Adds new constraints to the problem """
         for con in constraints:
-            self.cons.append(con)
+            self.add(con)
 
     def add_structure(self, structure):
         """ Add structure to the problem """
-- 
2.43.0


From e548a4552efbeaa70a0f8f3dfac22169ee613eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 068/172] fix: equality and inequality constraint values are
 returned

---
 metku/optimization/structopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 7206502..db23406 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -633,6 +633,8 @@ class OptimizationProblem:
             if con.type == "=":
                 geq.append(con(x))
 
+        return np.asarray(geq)
+
     def eval_ineq_con(self, x):
         """ Evaluate inequality constriants
             All constraints are evaluated in the form g(x) >= 0
@@ -646,6 +648,8 @@ class OptimizationProblem:
             elif con.type == "<":
                 g.append(-con(x))
 
+        return np.asarray(g)
+
     def nvars(self):
         """ Return number of variables """
         return len(self.vars)
-- 
2.43.0


From ebcfd85dd45f0127a57a596f84bb0b079639cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 069/172] fix: exact penalty function penalises violated
 constraints of every type

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index db23406..6972f86 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -887,7 +887,7 @@ class OptimizationProblem:
                     """ For equality constraints, the penalty term
                         is simply the value of the constraint squared
                     """
-                    F += abs(val)
+                    F += R*abs(val)
                 elif con.type == '<':
                     """ For less than or equal constraints, the penalty
                         term is max(0,val)
@@ -897,7 +897,7 @@ class OptimizationProblem:
                     """ For geq type constraints, the penalty term is
                          min(0,val)
                     """
-                    F += R*min(0,val)
+                    F -= R*min(0,val)
             
             """ Variable bounds are treated separately """
             for (i,var) in enumerate(self.vars):                
-- 
2.43.0


From 607e4a7150bc49b1b4e5a0026f3aa5a9118899ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 070/172] fix: upper bound multipliers are updated from
 themselves

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 6972f86..d410563 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -1082,7 +1082,7 @@ class OptimizationProblem:
                                 
             if var.ub < XUB:                    
                 val = x[i] - var.ub
-                var.ub_mult = max(var.lb_mult + 2*Rineq*val,0)
+                var.ub_mult = max(var.ub_mult + 2*Rineq*val,0)
             
 
 
-- 
2.43.0


From e638f1bc9828e8562b0f36f21d979f8d28a6332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 071/172] fix: numerical gradients and approximations work with
 current numpy

---
 metku/optimization/opt_functions.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/metku/optimization/opt_functions.py b/metku/optimization/opt_functions.py
index 65847bd..ce5ce65 100644
--- a/metku/optimization/opt_functions.py
+++ b/metku/optimization/opt_functions.py
@@ -28,12 +28,12 @@ def NumGrad(fun, x):
     # if isinstance(h, float):
     #    h = h * np.ones(n)
 
-    df = np.zeros(n, dtype=np.float)
+    df = np.zeros(n, dtype=float)
     #    
     for i in range(len(x)):
         # print("Täällä")
         # xh = deepcopy(x)
-        xh = np.asarray([val for val in x], dtype=np.float)
+        xh = np.asarray([val for val in x], dtype=float)
         h = max(1e-6 * abs(xh[i]), 1e-8)
         xh[i] += h
 
@@ -105,8 +105,8 @@ def mma_fun(xk, fk, dfk, L, U):
     n = len(xk)
 
     """ Initialize 'p' and 'q' as zeros. """
-    p = np.zeros(n, dtype=np.float)
-    q = np.zeros(n, dtype=np.float)
+    p = np.zeros(n, dtype=float)
+    q = np.zeros(n, dtype=float)
     for i, (Xk, Lk, Uk) in enumerate(zip(xk, L, U)):
         # Determine the constants p and q
         if dfk[i] >= 0:
@@ -193,10 +193,8 @@ def Linearize(fun, x, grad=None):
 
     b = fun(x)
 
-    if grad == None:
-        h = 0.01 * x  # check if this is OK
-        # h = np.ones_like(x) * 1e-2
-        a = NumGrad(fun, x, h)
+    if grad is None:
+        a = NumGrad(fun, x)
     else:
         a = grad(x)
 
-- 
2.43.0


From 4923727e8efb0ae12576c86ff47c30f6b127d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 072/172] fix: constraint gradients follow the design and the
 given gradient function is used

---
 metku/optimization/constraints.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index 6cd6944..dcc9302 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -173,7 +173,6 @@ class NonLinearConstraint(Constraint):
         """
 
         self.con = con_fun
-        self.grad = None        
         Constraint.__init__(self, name, con_type, problem, **kwargs)
 
     def __call__(self, x):
@@ -224,8 +223,10 @@ class NonLinearConstraint(Constraint):
         """ Evaluate gradient at x """
         
         if self.grad is None:
-            # Evaluate gradient numerically
-            df = opt_funs.NumGrad(self.con,x)
+            # Evaluate gradient numerically. Calling the constraint itself
+            # takes the fixed variables and the structure into account.
+            df = opt_funs.NumGrad(self,x)
+            self.problem.substitute_variables(x)
         else:
             df = self.grad(x)
         
-- 
2.43.0


From 5966f3426b30e876d7f4e406f1e9410c6d37800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 073/172] fix: linearisation takes the coefficients of the free
 variables

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index d410563..384b63d 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -411,7 +411,7 @@ class OptimizationProblem:
             dg = np.zeros(m)
             for j, con in enumerate(act_cons):
                 if isinstance(con,LinearConstraint):
-                    dg[j] = con.a[i]
+                    dg[j] = con.a[self.all_vars.index(var)]
                 else:
                     if not isinstance(var,BinaryVariable):
                         dg[j] = (con(xh)-b[j])/h
-- 
2.43.0


From 2ef5384e74aaae94644454842f475a4855df2873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 074/172] fix: linearisation of constraints with a variable
 right hand side

---
 metku/optimization/structopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 384b63d..fd863c5 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -412,6 +412,8 @@ class OptimizationProblem:
             for j, con in enumerate(act_cons):
                 if isinstance(con,LinearConstraint):
                     dg[j] = con.a[self.all_vars.index(var)]
+                    if con.b is var:
+                        dg[j] -= 1
                 else:
                     if not isinstance(var,BinaryVariable):
                         dg[j] = (con(xh)-b[j])/h
-- 
2.43.0


From 2d4396748f540f9bcefc17eeceb50feddd1253f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 075/172] fix: approximate problems leave the constraints of
 the original problem alone

---
 metku/optimization/constraints.py | 23 ++++++++++++++++++++++-
 metku/optimization/solvers/mma.py |  2 +-
 metku/optimization/structopt.py   | 10 ++++++----
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index dcc9302..5fe485a 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -6,6 +6,7 @@ Created on Thu Oct  6 15:14:17 2022
 """
 
 import numpy as np
+from copy import copy
 from collections.abc import Iterable
 
 from metku.optimization.constants import X_COMP_TOL, POT_ACT_TOL
@@ -160,7 +161,27 @@ class LinearConstraint(Constraint):
                 self.potential = True
 
         return gval
-        
+
+    def free_copy(self):
+        """ Returns a copy of the constraint in terms of the free variables
+            of the problem: the locked variables are moved to the right hand side.
+        """
+        a = []
+        b = 0 if isinstance(self.b, Variable) else self.b
+
+        for ai, var in zip(self.a, self.problem.all_vars):
+            if self.b is var:
+                ai = ai - 1
+            if var.locked:
+                b = b - ai * var.value
+            else:
+                a.append(ai)
+
+        con = copy(self)
+        con.a = np.array(a)
+        con.b = b
+
+        return con
 
 
 class NonLinearConstraint(Constraint):
diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index 3bfff3e..bb4ff2d 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -74,7 +74,7 @@ class MMAProblem(OptimizationProblem):
         for con in P.cons:
             if isinstance(con, cons.LinearConstraint):
                 # Linear constraints are simply added
-                self.add(con)
+                self.add(con.free_copy())
             else:
                 # For nonlinear constraints, MMA approximation is made                
                 mma_con = copy(con)
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index fd863c5..d0462c7 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -470,13 +470,14 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pconlin.add(con)
+                Pconlin.add(con.free_copy())
             else:
                 # For nonlinear constraints, CONLIN approximation is made
                 conlin_con = copy.copy(con)
-                gx = con.con(x)
+                gx = con(x)
                 dgx = con.df(x)
                 conlin_con.con = conlin_fun(x,gx,dgx)
+                conlin_con.fea_required = False
                 
                 Pconlin.add(conlin_con)
         
@@ -520,13 +521,14 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pmma.add(con)
+                Pmma.add(con.free_copy())
             else:
                 # For nonlinear constraints, MMA approximation is made
                 mma_con = copy.copy(con)
-                gx = con.con(x)
+                gx = con(x)
                 dgx = con.df(x)
                 mma_con.con = mma_fun(x,gx,dgx,L,U)
+                mma_con.fea_required = False
                 
                 Pmma.add(mma_con)
         
-- 
2.43.0


From 352e758309a987e4942cb262e58ddc489743d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 076/172] fix: MMA lower bounds stay above the lower asymptote

---
 metku/optimization/solvers/mma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index bb4ff2d..5cb7daa 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -54,7 +54,7 @@ class MMAProblem(OptimizationProblem):
         for i, var in enumerate(P.vars):
             # Create variables for the mma problem
             # Rules for variable bounds are from Svanberg (2007)
-            lb = max(var.lb, L[i] + 0.1 * (x[i] - abs(L[i])), x[i] - 0.5 * (var.ub - var.lb))
+            lb = max(var.lb, L[i] + 0.1 * (x[i] - L[i]), x[i] - 0.5 * (var.ub - var.lb))
             ub = min(var.ub, U[i] - 0.1 * (U[i] - x[i]), x[i] + 0.5 * (var.ub - var.lb))
             self.add(Variable(name=var.name,
                               lb=lb,
-- 
2.43.0


From a4e0a38ec391c31161e5823274caef31755ef7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 077/172] fix: iteration history and initial point are not
 overwritten

---
 metku/optimization/solvers/optsolver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index bb74e12..ccab543 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -214,15 +214,15 @@ class OptSolver:
         self.problem = problem
         # If initial starting point is/isn't defined        
         if x0 is not None:
-            self.X = np.asarray(x0, dtype=float)
+            self.X = np.array(x0, dtype=float)
             problem.substitute_variables(x0)
         else:
             self.X = self.random_feasible_point()
             problem.substitute_variables(self.X)
 
         # Store initial point
-        self.xvals.append(np.array(x0))
-        self.fvals.append(problem.obj(x0))
+        self.xvals.append(self.X.copy())
+        self.fvals.append(problem.obj(self.X))
 
 
         if plot:
@@ -303,7 +303,7 @@ class OptSolver:
                 problem.states.append(list(state))
                 problem.gvals.append(list(self.constr_vals).copy())
                 self.fvals.append(problem.obj(self.X))
-                self.xvals.append(self.X)
+                self.xvals.append(self.X.copy())
             end = time.time()
 
             if verb:
-- 
2.43.0


From a8eba382130f37426bcc5e355bd8b18f4175dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 078/172] fix: solver tells when a feasible solution has been
 found

---
 metku/optimization/solvers/optsolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index ccab543..9443fa8 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -287,6 +287,7 @@ class OptSolver:
             if fval < self.best_f and state_feasible:
                 self.best_f = fval
                 self.best_x = state.copy()
+                self.feasible = True
                 # if verb:
                 #     #print(self.best_x)
                 #     if len(state) <= 10:
-- 
2.43.0


From 22ef1d15534469fb80461398ba70ce0caebe1de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 079/172] fix: SLP subproblem has constraints of every type

---
 metku/optimization/solvers/slp.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/solvers/slp.py b/metku/optimization/solvers/slp.py
index 4a316f2..8fdfc89 100644
--- a/metku/optimization/solvers/slp.py
+++ b/metku/optimization/solvers/slp.py
@@ -74,7 +74,7 @@ class SLP(OptSolver):
                 delta = var.ub - var.lb        
                 #lb, ub = self.move_limits * delta
             elif self.move_limit_type == 'relative':
-                delta = var.value
+                delta = abs(var.value)
                 #lb = self.move_limits[0]*var.value
                 #ub = self.move_limits[1]*var.value
             
@@ -90,10 +90,13 @@ class SLP(OptSolver):
             beta = solver.NumVar(0, self.beta, 'beta')
         # Constraints
         for i in range(n):
-            if self.include_beta:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i] + beta)
-            else:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i])
+            lhs = solver.Sum([A[i, j] * x[j] for j in range(m)])
+            con_type = self.problem.cons[i].type
+            slack = beta if self.include_beta else 0
+            if con_type != '>':
+                solver.Add(lhs <= B[i] + slack)
+            if con_type != '<':
+                solver.Add(lhs >= B[i] - slack)
 
         # Objective
         if self.include_beta:
-- 
2.43.0


From a67fed2b8d87269273cba038b0cae073941d59be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 080/172] fix: MISLP subproblem has constraints of every type

---
 metku/optimization/solvers/mislp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/mislp.py b/metku/optimization/solvers/mislp.py
index e537d70..a6c12ed 100644
--- a/metku/optimization/solvers/mislp.py
+++ b/metku/optimization/solvers/mislp.py
@@ -67,7 +67,7 @@ class MISLP(OptSolver):
             if self.move_limit_type == "range":
                 delta = var.ub - var.lb                        
             elif self.move_limit_type == 'relative':
-                delta = var.value
+                delta = abs(var.value)
             
             lb, ub = self.move_limits * delta
 
@@ -113,6 +113,9 @@ class MISLP(OptSolver):
             elif act_cons[i].type == '=':
                 CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
                                                for j in range(m)]) == B[i])
+            else:
+                CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
+                                               for j in range(m)]) >= B[i] - beta)
         
         if not self.binary_vars_exist:
             # Create binary variables
-- 
2.43.0


From f6d9a2b46756ee3536024b6c0c7ea19ac648428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 081/172] fix: branching on integer variables and problems that
 also have continuous variables

---
 metku/optimization/structopt.py |  3 +++
 metku/optimization/variables.py | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index d0462c7..446134a 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -867,6 +867,9 @@ class OptimizationProblem:
                     neighborhood.append(new_values)
                     #var.lb = min(new_values)
                     #var.ub = max(new_values)
+                else:
+                    # Continuous variables keep their value
+                    neighborhood.append([x[i]])
                 
         
         """
diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index df9b777..fb6b60d 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -211,6 +211,10 @@ class Variable:
         """
         return 0
 
+    def is_allowed_value(self, x):
+        """ Every value is allowed for continuous variables """
+        return True
+
 
 class IntegerVariable(Variable):
     """ Class for integer variables
@@ -257,6 +261,14 @@ class IntegerVariable(Variable):
 
         return violation
 
+    def smaller_discrete_value(self, x):
+        """ Returns integer smaller than 'x' and closest to it """
+        return math.ceil(x) - 1
+
+    def larger_discrete_value(self, x):
+        """ Returns integer larger than 'x' and closest to it """
+        return math.floor(x) + 1
+
 
 class BooleanVariable(IntegerVariable):
     """ Class for boolean variables
-- 
2.43.0


From b94eda74c213f69285682186c184eb29399a6f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 082/172] fix: branch and bound upper bounds are feasible for
 every constraint type

---
 metku/optimization/solvers/bnb.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 3830fb3..2c08b94 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -418,9 +418,7 @@ class BnB(OptSolver):
         f_new = None        
         for xi in N:
             
-            gxi = self.problem.eval_cons(xi)            
-            
-            if all(gxi<=self.problem.con_tol):
+            if self.problem.feasible(xi):
                 #print("Upper bounding found feasible solution")
                 #print(self.problem.eval_cons(xi))
                 """ Feasible point found """
-- 
2.43.0


From efc68e0a644dd16f214a6d8e510bda84601cf13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 083/172] fix: bounds tightening keeps the feasible points of
 every constraint type

---
 metku/optimization/solvers/bnb.py | 51 +++++++++++++++++++------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 2c08b94..f338fe4 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -26,6 +26,7 @@ from metku.optimization.structopt import OptimizationProblem
 from metku.optimization.objective import LinearObjective
 from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
 from metku.optimization.variables import Variable, DiscreteVariable, BinaryVariable, IntegerVariable
+from metku.optimization.constants import INT_TOL
 
 CON_TOL = 1e-4
 
@@ -525,26 +526,38 @@ class BnB(OptSolver):
         """ Do bounds tightening for linear constraints """
         for con in self.problem.cons:
             if isinstance(con,LinearConstraint):
-                ax_min = np.minimum(con.a*xub,con.a*xlb)
-                #axL = con.a*xlb
-                for i, var in enumerate(self.problem.vars):
-                    if abs(con.a[i]) > 1e-9:
-                        bnd = 1/con.a[i]*(con.b-(sum(ax_min)-ax_min[i]))
-                    if con.a[i] > 0:                        
-                        """ x[i] <= 1/a[i]*(b[j] - sum min(a[i,j]xub[j],a[i,j]xlb[j])) """
-                        var.ub = min(var.ub,bnd)
-                        
-                        if isinstance(var,IntegerVariable):
-                            var.ub = np.floor(var.ub)
-                        elif isinstance(var,DiscreteVariable):
-                            var.ub = max(np.array(var.values)[np.array(var.values)<=var.ub])
-                    elif con.a[i] < 0:
-                        var.lb = max(var.lb,bnd)
+                con = con.free_copy()
+                """ Write the constraint in the form a*x <= b """
+                if con.type == '<':
+                    rows = [(con.a,con.b)]
+                elif con.type == '>':
+                    rows = [(-con.a,-con.b)]
+                else:
+                    rows = [(con.a,con.b),(-con.a,-con.b)]
                 
-                        if isinstance(var,IntegerVariable):
-                            var.lb = np.ceil(var.lb)
-                        elif isinstance(var,DiscreteVariable):
-                            var.lb = min(np.array(var.values)[np.array(var.values)>=var.lb])
+                for a, b in rows:
+                    ax_min = np.minimum(a*xub,a*xlb)
+                    #axL = con.a*xlb
+                    for i, var in enumerate(self.problem.vars):
+                        if abs(a[i]) <= 1e-9:
+                            continue
+                        
+                        bnd = 1/a[i]*(b-(sum(ax_min)-ax_min[i]))
+                        if a[i] > 0:                        
+                            """ x[i] <= 1/a[i]*(b[j] - sum min(a[i,j]xub[j],a[i,j]xlb[j])) """
+                            var.ub = min(var.ub,bnd)
+                            
+                            if isinstance(var,IntegerVariable):
+                                var.ub = np.floor(var.ub + INT_TOL)
+                            elif isinstance(var,DiscreteVariable):
+                                var.ub = max([val for val in var.values if val <= var.ub + INT_TOL],default=-np.inf)
+                        else:
+                            var.lb = max(var.lb,bnd)
+                    
+                            if isinstance(var,IntegerVariable):
+                                var.lb = np.ceil(var.lb - INT_TOL)
+                            elif isinstance(var,DiscreteVariable):
+                                var.lb = min([val for val in var.values if val >= var.lb - INT_TOL],default=np.inf)
         
         xlb, xub = self.problem.var_bounds()
         #print(xlb,xub)
-- 
2.43.0


From 758142b19c249709bc33d143a037e95d6364e185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 084/172] fix: branch and bound with locked variables and
 without initial point

---
 metku/optimization/solvers/bnb.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index f338fe4..2f00a20 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -363,10 +363,11 @@ class BnB(OptSolver):
             If problem is infeasible, the node can be fathomed.
             If the problem is feasible, update the lower bound and set xR
         """
-        nvars = self.problem.nvars()
+        free_vars = self.problem.vars
+        nvars = len(free_vars)
         locked_vars = []
         locked_nd = []
-        for i,var in enumerate(self.problem.vars):
+        for i,var in enumerate(free_vars):
             if abs(var.ub-var.lb) < 1e-6:
                 var.lock(var.ub)
                 locked_vars.append(var)
@@ -375,8 +376,9 @@ class BnB(OptSolver):
         if len(locked_nd) > 1:
             locked_nd.reverse()
         
-        for n in locked_nd:
-            x0 = np.delete(x0,n)        
+        if x0 is not None:
+            for n in locked_nd:
+                x0 = np.delete(x0,n)        
     
         print('x0 = ',x0)
     
@@ -390,7 +392,7 @@ class BnB(OptSolver):
         xnew = np.zeros(nvars)
         
         i = 0
-        for j, var in enumerate(self.problem.all_vars):
+        for j, var in enumerate(free_vars):
             if var.locked:
                 xnew[j] = var.value
             else:
-- 
2.43.0


From ec1c697005daa9a85bf7e1f497c2077eb105c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 085/172] fix: bounds tightening leaves the constraints in
 their problem

---
 metku/optimization/solvers/bnb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 2f00a20..58b4af1 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -585,7 +585,7 @@ class BnB(OptSolver):
             
             for con in self.problem.cons:            
                 if isinstance(con,LinearConstraint):
-                    LPprob.add(con)
+                    LPprob.add(con.free_copy())
             
             
             solver = LP("gurobi")
-- 
2.43.0


From d5f9e69a7aeb33bb3048dd202ae5352db9afcdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 086/172] fix: linear programs have the free variables only

---
 metku/optimization/solvers/lp.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/solvers/lp.py b/metku/optimization/solvers/lp.py
index ce9e3c6..0da2b17 100644
--- a/metku/optimization/solvers/lp.py
+++ b/metku/optimization/solvers/lp.py
@@ -60,23 +60,27 @@ class LP(OptSolver):
                 
         #nvars = len(x)
                 
+        """ Coefficients of the objective function for the free variables """
+        obj_c = [C for C, var in zip(problem.obj.c,problem.all_vars) if not var.locked]
+        
         if problem.obj.obj_type == "MIN":
             if self.algo == "gurobi":
                 obj_sense = grb.GRB.MINIMIZE
             else:
-                lp.Minimize(lp.Sum(C * X for C, X in zip(problem.obj.c,x)))
+                lp.Minimize(lp.Sum(C * X for C, X in zip(obj_c,x)))
         else:
             if self.algo == "gurobi":
                 obj_sense = grb.GRB.MAXIMIZE
             else:
-                lp.Maximize(lp.Sum(C * X for C, X in zip(problem.obj.c,x)))
+                lp.Maximize(lp.Sum(C * X for C, X in zip(obj_c,x)))
         
         if self.algo == "gurobi":
-            lp.setObjective(grb.LinExpr(problem.obj.c,x),sense=obj_sense)
+            lp.setObjective(grb.LinExpr(obj_c,x),sense=obj_sense)
             
         # Generate constraints
         for con in problem.cons:
             if isinstance(con,sopt.LinearConstraint):
+                con = con.free_copy()
                 if self.algo == "gurobi":
                     if con.type == '<':
                         con_sense = grb.GRB.LESS_EQUAL
-- 
2.43.0


From b9c49b52ea07a356f7a105ad983669a5db4be102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 087/172] fix: LP solver tells whether a solution was found

---
 metku/optimization/solvers/lp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/optimization/solvers/lp.py b/metku/optimization/solvers/lp.py
index 0da2b17..bb3683a 100644
--- a/metku/optimization/solvers/lp.py
+++ b/metku/optimization/solvers/lp.py
@@ -135,6 +135,7 @@ class LP(OptSolver):
             status = lp.Solve()
             
             X = []
+            self.feasible = status == lp.OPTIMAL
             if status == lp.OPTIMAL:
                 for v in lp.variables():
                     X.append(v.solution_value())    
-- 
2.43.0


From 668f351d5dda1a33db5df3490194691794d26489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 088/172] fix: particles are rounded to the values of their own
 variables

---
 metku/optimization/solvers/pso.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/metku/optimization/solvers/pso.py b/metku/optimization/solvers/pso.py
index 56fc7d9..2c666eb 100644
--- a/metku/optimization/solvers/pso.py
+++ b/metku/optimization/solvers/pso.py
@@ -15,6 +15,7 @@ from deap import base, creator, tools
 
 
 from metku.optimization.solvers.optsolver import OptSolver, G_TOL
+from metku.optimization.variables import DiscreteVariable, IntegerVariable
 
 
 class PSO(OptSolver):
@@ -385,13 +386,14 @@ class Particle:
         # (Perhaps the velocity should be changed instead?)
 
         self.x = np.minimum(np.maximum(xnew,xlb),xub)
-        type_of_problem = problem.type_of_vars()
 
-        if type_of_problem == "DiscreteVariable":
-            possible_values = problem.vars[0].values
-            # Round values
-            self.x = np.array([min(possible_values, key=lambda x: abs(x - var))
-                      for var in self.x])
+        # Round values of discrete and integer variables
+        for i, var in enumerate(problem.vars):
+            if isinstance(var, DiscreteVariable):
+                xi = self.x[i]
+                self.x[i] = min(var.values, key=lambda x: abs(x - xi))
+            elif isinstance(var, IntegerVariable):
+                self.x[i] = round(self.x[i])
     
     def update_best(self):
         """ Updates the best value found so far """
-- 
2.43.0


From 113835b62d6c526d5589ee9c6b5e6066ceda6858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 089/172] fix: linear constraints of the trust region method
 have the free variables only

---
 metku/optimization/solvers/trust_region.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/optimization/solvers/trust_region.py b/metku/optimization/solvers/trust_region.py
index 20543fa..4bc9289 100644
--- a/metku/optimization/solvers/trust_region.py
+++ b/metku/optimization/solvers/trust_region.py
@@ -131,6 +131,7 @@ class TrustRegionConstr(OptSolver):
                     ))
             else:
             #elif isinstance(con,sopt.LinearConstraint):
+                con = con.free_copy()
                 lb = -np.inf
                 ub = np.inf
                 if con.type == "<" or con.type == "<=":                
-- 
2.43.0


From 681353b5bbefc857a55dc072e07186a37165bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 090/172] fix: genetic algorithm penalises violated constraints
 of every type

---
 metku/optimization/solvers/ga.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/optimization/solvers/ga.py b/metku/optimization/solvers/ga.py
index e5d1cff..870018b 100644
--- a/metku/optimization/solvers/ga.py
+++ b/metku/optimization/solvers/ga.py
@@ -114,6 +114,9 @@ class GA(OptSolver):
         obj_val = self.problem.obj(X)
         """ Evaluate constraints """
         constr_vals = self.problem.eval_cons(X)
+        """ Write all constraints such that positive values are violations """
+        constr_vals = np.array([-g if con.type == '>' else abs(g) if con.type == '=' else g
+                                for g, con in zip(constr_vals, self.problem.cons)])
         """ Apply penalty on constraints """
         penalty_val = self.penalty(constr_vals)
 
-- 
2.43.0


From ba67f97ef21fdb0bcb3d9da56eb83ee0d26d44a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 091/172] fix: starting point of zeros is kept

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 446134a..2141ab5 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -743,7 +743,7 @@ class OptimizationProblem:
         #print(self.var_values())
         #if np.linalg.norm(self.var_values()-xvals) > 1e-9:
         # Save starting point
-        if not np.any(self.X):
+        if self.X is None:
             self.x0 = xvals.copy()
 
         # if np.any(self.X != xvals):
-- 
2.43.0


From 00d3c5952d3472c2b402452b9dc2ea6df53b9640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 092/172] fix: constraints can be evaluated before the
 variables have values

---
 metku/optimization/constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index 5fe485a..806282b 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -70,7 +70,7 @@ class Constraint:
                 optimization variable to X
             """
             
-            X = np.array([var.value for var in self.problem.vars])            
+            X = [var.value for var in self.problem.vars]
             x = np.asarray(x)
             
             """ If the new values deviate from the old values
@@ -79,7 +79,7 @@ class Constraint:
 
                 NOTE: X_COMP_TOL should be small
             """
-            if np.linalg.norm(X - x) > X_COMP_TOL:
+            if any(val is None for val in X) or np.linalg.norm(np.array(X) - x) > X_COMP_TOL:
                 # print('variablet asetettiin')
                 self.problem.substitute_variables(x)
 
-- 
2.43.0


From 5c839d308e66b118cff686fc1ba5ef45ffa4235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 093/172] fix: linearisation analyses the structure of each
 step

---
 metku/optimization/structopt.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 2141ab5..059395b 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -392,7 +392,10 @@ class OptimizationProblem:
                 if prev_val + h > var.ub:
                     h *= -1
                 var.substitute(prev_val + h)
-                
+
+            # The structure has changed
+            self.reset_fea()
+
             """ Get variable values """
             xh = [var.value for var in self.vars]
             #print(x,xh)
@@ -422,8 +425,9 @@ class OptimizationProblem:
             A[:, i] = dg
                 
             """ Substitute the original value x[i] to current variable """
-            var.substitute(prev_val)            
-            
+            var.substitute(prev_val)
+            self.reset_fea()
+
 
         #B = A @ x.T - b
         B = A.dot(x) - b
@@ -567,6 +571,13 @@ class OptimizationProblem:
         self.fea_done[load_id] = True
         self.num_fem_analyses += 1
 
+    def reset_fea(self):
+        """
+        Structural analysis must be repeated after a change of the structure
+        """
+        for load_id in self.fea_done.keys():
+            self.fea_done[load_id] = False
+
     def __call__(self, x=None, prec=2, ncons=5):
         """ Call method evaluates the objective function and all constraints
             at x and returns their values
@@ -748,8 +759,7 @@ class OptimizationProblem:
 
         # if np.any(self.X != xvals):
         self.X = xvals.copy()
-        for load_id in self.fea_done.keys():
-            self.fea_done[load_id] = False
+        self.reset_fea()
         for x, var in zip(xvals, self.vars):
             var.substitute(x)
         #else:
-- 
2.43.0


From e63b9cd1a417748a5efd72c458145cad542ffb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 094/172] fix: MISLP solution keeps the accuracy of the
 variables

---
 metku/optimization/solvers/mislp.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/mislp.py b/metku/optimization/solvers/mislp.py
index a6c12ed..2a516d8 100644
--- a/metku/optimization/solvers/mislp.py
+++ b/metku/optimization/solvers/mislp.py
@@ -176,7 +176,16 @@ class MISLP(OptSolver):
         # for i in discrete_ids:
         #     print(int(X[i]))
         #     X[i] = discrete_vars[i].values[int(X[i])]
-        X = np.asarray([round(var.solution_value(), 3) for var in x.values()])
+        X = []
+        for i, var in enumerate(self.problem.vars):
+            xi = x[i].solution_value()
+            # Remove the tolerance of the solver from discrete variables
+            if isinstance(var, BinaryVariable):
+                xi = round(xi)
+            elif isinstance(var, DiscreteVariable) and not self.binary_vars_exist:
+                xi = min(var.values, key=lambda val: abs(val - xi))
+            X.append(xi)
+        X = np.asarray(X)
         return X - self.X
 
     def step(self, action):
-- 
2.43.0


From 3135ad78918808c50443b8e24e1cfb41e95e4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 095/172] fix: genetic algorithm best design is that of the
 free variables

---
 metku/optimization/solvers/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/ga.py b/metku/optimization/solvers/ga.py
index 870018b..b7a73d1 100644
--- a/metku/optimization/solvers/ga.py
+++ b/metku/optimization/solvers/ga.py
@@ -133,7 +133,7 @@ class GA(OptSolver):
                 ind[i] = x
             self.best_ind = ind
             self.prev_best = self.best_f
-            best_x = [var.value for var in self.problem.all_vars]
+            best_x = [var.value for var in self.problem.vars]
             self.best_x = best_x.copy()
             self.best_f = val
             self.counter = 0
-- 
2.43.0


From a28d15079ceea53a9acf2c148cc746c4ee5589e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 096/172] fix: step of a line load is measured along the member

---
 metku/raami/frame_loads.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 6171533..720c769 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -366,16 +366,18 @@ class PWLineLoad(Load):
         """ Add the load to the FEM model """
         #k = self.calc_k()
         qval = self.f*self.values
-        xdiv = self.member.local_to_global(self.xdiv)[0]
+        xdiv = self.xdiv
+        TOL = 1e-9
         
         for elem in self.member.fem_elements:
-            X = [elem.nodes[0].x,elem.nodes[1].x]
+            # Local coordinates of the element ends along the member
+            X = [self.member.global_to_local(node.coord) for node in elem.nodes]
             X.sort()
-            if X[1] <= xdiv:
+            if X[1] <= xdiv + TOL:
                 q = qval[0]
-            elif X[0] >= xdiv:
+            elif X[0] >= xdiv - TOL:
                 q = qval[1]
-            elif X[0] < xdiv and X[1] >= xdiv:
+            else:
                 nd = np.argmax(abs(qval))
                 q = qval[nd]
                 
-- 
2.43.0


From 663f45e8d5d0fb3f1f899831c0a3798c36816a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 097/172] fix: member of one element can be hinged at both ends

---
 metku/raami/frame_member.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index b452861..8154234 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -627,8 +627,10 @@ class FrameMember:
             self.fem_elements[0].releases = [2]
         
         if self.hinges[1]:
-            """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            """ There is a hinge in the last end.
+                The same element can have a hinge in its first end.
+            """
+            self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]
     
     def clear_fem(self):
         """ Removes FEM nodes and elements """
@@ -1082,7 +1084,7 @@ class MultiSpanMember:
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]    
+            self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]
     
     def clear_fem(self):
         
-- 
2.43.0


From 07e50833988a9fcd289734a59c441d1fa93e2531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 098/172] fix: loads of a load case with equal names are all
 added to the frame

---
 metku/raami/raami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index f535a59..67b86bd 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -136,7 +136,7 @@ class Raami:
             self.load_ids.append(loadcase.load_id)
 
         for load in loadcase.loads:
-            if load.name not in self.loads:
+            if not any(load is other for other in self.loads.values()):
                 self.add(load)
 
     def add_loadcombination(self, loadcombination: LoadCombination) -> None:
-- 
2.43.0


From e1127025f2f1428fd3451a68c0a57d3c13c1b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 099/172] fix: renamed load does not replace another load

---
 metku/raami/raami.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index 67b86bd..c837b06 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -145,6 +145,14 @@ class Raami:
         self.load_combs[loadcombination.comb_id] = loadcombination
         loadcombination.combine_loads()
 
+    def set_unique_name(self, load) -> None:
+        """ Changes the name of 'load' if another load has the same name """
+        name = load.name
+        n = len(self.loads)
+        while self.loads.get(load.name, load) is not load:
+            load.name = name + str(n)
+            n += 1
+
     def add_pointload(self, pointload:PointLoad) -> None:
         """ If a point load with same 'name' is already included
                         in the frame, add a number to the end of the name
@@ -157,8 +165,7 @@ class Raami:
                     """
 
 
-        if pointload.name in self.loads.keys():
-            pointload.name += str(len(self.loads))
+        self.set_unique_name(pointload)
 
         if pointload not in self.loads.values():
             self.loads[pointload.name] = pointload
@@ -186,8 +193,7 @@ class Raami:
 
     def add_lineload(self, lineload: LineLoad | PWLineLoad) -> None:
 
-        if lineload.name in self.loads.keys():
-            lineload.name += str(len(self.loads))
+        self.set_unique_name(lineload)
 
         self.loads[lineload.name] = lineload
 
-- 
2.43.0


From 61691108fbb63a76f96be0df3bc40c8e02868030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 100/172] fix: combination factor keeps the scaling factor of
 the load

---
 metku/raami/frame_loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 720c769..f1d6816 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -206,7 +206,7 @@ class Load:
             if comb_type == 'ULS':
                 factor = 1.15
         
-        self.f = factor
+        self.f *= factor
             
 
 class PointLoad(Load):
-- 
2.43.0


From e9a0f4048d5e12a0e4b3fcd50333acbb6bb2b6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 101/172] fix: combining again replaces the loads of the
 combination

---
 metku/raami/frame_loads.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index f1d6816..889f12f 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -134,6 +134,9 @@ class LoadCombination:
         for key in keys_to_delete:
             del self.frame.loads[key]
 
+        if self.comb_id in self.frame.load_cases:
+            self.frame.load_cases[self.comb_id].loads.clear()
+
     def combine_loads(self):
         """ Does the actual load combination:
             Each load in each load case is multiplied by its corresponding
-- 
2.43.0


From a1d74b3411afe225283216e40a70cf7b4202a419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 102/172] fix: self-weight is removed from the loads of the
 frame

---
 metku/raami/frame_member.py | 10 +++++++---
 metku/raami/raami.py        | 14 ++++++++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 8154234..6476f33 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -175,7 +175,7 @@ class FrameMember:
         self.costs = {}
         
         self.self_weight = False
-        
+        self.self_weight_load = None # LineLoad object of the self-weight
         
         
     def __repr__(self):        
@@ -323,14 +323,18 @@ class FrameMember:
             
             # Default units: N/mm
             value = -self.cross_section.self_weight()
-            self.frame.add(LineLoad(self, [value, value], 'y',load_id,ltype='dead',
-                                    name='self-weight'))
+            self.self_weight_load = LineLoad(self, [value, value], 'y',load_id,ltype='dead',
+                                             name='self-weight')
+            self.frame.add(self.self_weight_load)
 
     def remove_self_weight(self):
         """ Removes self-weight from loads
         """
         if self.self_weight:
             self.self_weight = False
+            self.loads.remove(self.self_weight_load)
+            self.frame.remove_load(self.self_weight_load)
+            self.self_weight_load = None
         
     def recalculate_coordinates(self):
         """ Clear global node coordinates and recalculate those """
diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index c837b06..d6a5053 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -211,6 +211,20 @@ class Raami:
 
 
 
+    def remove_load(self, load) -> None:
+        """ Removes 'load' from the frame and from its load case """
+        for name, other in list(self.loads.items()):
+            if other is load:
+                del self.loads[name]
+
+        if load.load_id in self.load_cases:
+            load_case = self.load_cases[load.load_id]
+            load_case.loads = [other for other in load_case.loads if other is not load]
+            if len(load_case.loads) == 0:
+                # The load case has no loads that could be analysed
+                del self.load_cases[load.load_id]
+                self.load_ids = [lid for lid in self.load_ids if lid != load.load_id]
+
     def add_support(self, support: Support) -> None:
         # print("Adding support")
         # this.supp_id = len(self.supports)
-- 
2.43.0


From 717576bbc34d508a4f7ea5ccd830d254bb25cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 103/172] fix: moved node keeps its coordinates and moves the
 nodes inside the members

---
 metku/raami/frame_member.py | 3 +++
 metku/raami/frame_node.py   | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 6476f33..ec4ec97 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -340,6 +340,9 @@ class FrameMember:
         """ Clear global node coordinates and recalculate those """
         self.global_node_coords.clear()
         self.calc_nodal_coordinates()
+        # Update also the internal FE nodes, if they exist
+        for fem_node, coord in zip(self.fem_nodes[1:-1], self.global_node_coords[1:-1]):
+            fem_node.coord[:] = coord
 
     def calc_nodal_coordinates(self, num_elements=0):
         """ Calculates nodal coordinates along the member 
diff --git a/metku/raami/frame_node.py b/metku/raami/frame_node.py
index 5019de1..852c38a 100644
--- a/metku/raami/frame_node.py
+++ b/metku/raami/frame_node.py
@@ -33,7 +33,7 @@ class FrameNode:
             coordinates = coordinates[0]
         
         self.node_id = ""
-        self.coords = np.asarray(coordinates)
+        self.coords = np.array(coordinates, dtype=float)
         self.fem_node = None
         
         self.members = [] # List of members to which the node is connected
-- 
2.43.0


From 48921662d5e65e2f9d4885ca5d0afcb10479e28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 104/172] fix: load combinations keep the self-weight when it
 is added again

---
 metku/raami/raami.py | 44 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index d6a5053..0f5dfee 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -170,16 +170,7 @@ class Raami:
         if pointload not in self.loads.values():
             self.loads[pointload.name] = pointload
 
-        if not (pointload.load_id in self.load_ids):
-            # There is no load case for the new load.
-            # Add a new load case for this load
-            NewLoadCase = LoadCase(load_id=pointload.load_id, loads=[pointload])
-            self.add(NewLoadCase)
-            self.load_ids.append(pointload.load_id)
-        else:
-            # If a load case with this.load_id exists, add the new
-            # load to that load case
-            self.load_cases[pointload.load_id].add(pointload)
+        self.add_to_load_case(pointload)
 
 
 
@@ -198,16 +189,7 @@ class Raami:
         self.loads[lineload.name] = lineload
 
 
-        if not (lineload.load_id in self.load_ids):
-
-            NewLoadCase = LoadCase(load_id=lineload.load_id, loads=[lineload])
-
-            self.add(NewLoadCase)
-            self.load_ids.append(lineload.load_id)
-        else:
-            # If a load case with this.load_id exists, add the new
-            # load to that load case
-            self.load_cases[lineload.load_id].add(lineload)
+        self.add_to_load_case(lineload)
 
 
 
@@ -221,10 +203,22 @@ class Raami:
             load_case = self.load_cases[load.load_id]
             load_case.loads = [other for other in load_case.loads if other is not load]
             if len(load_case.loads) == 0:
-                # The load case has no loads that could be analysed
-                del self.load_cases[load.load_id]
+                # The load case has no loads that could be analysed. It is not
+                # deleted, because load combinations can refer to it.
                 self.load_ids = [lid for lid in self.load_ids if lid != load.load_id]
 
+    def add_to_load_case(self, load) -> None:
+        """ Adds 'load' to the load case with the same id. If there is no such
+            load case, it is created.
+        """
+        if load.load_id not in self.load_cases:
+            self.load_cases[load.load_id] = LoadCase(load_id=load.load_id)
+
+        self.load_cases[load.load_id].add(load)
+
+        if load.load_id not in self.load_ids:
+            self.load_ids.append(load.load_id)
+
     def add_support(self, support: Support) -> None:
         # print("Adding support")
         # this.supp_id = len(self.supports)
@@ -366,8 +360,10 @@ class Raami:
             #print("Calculate all cases")
             #lcase_ids = self.load_cases.keys()
             load_ids = []
-            for lid in self.load_cases.keys():         
-                load_ids.append(lid)
+            for lid, load_case in self.load_cases.items():
+                # There is nothing to be analysed in a load case without loads
+                if len(load_case.loads) > 0:
+                    load_ids.append(lid)
             
             #self.structural_analysis(load_id=load_ids, support_method=support_method)
             self.fem.linear_statics(lcase=load_ids, support_method=support_method)
-- 
2.43.0


From 44de37e6393ad744190534eae2509115c36aed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 105/172] fix: load case without loads does not lead a load
 combination

---
 metku/raami/frame_loads.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 889f12f..5c0ee4e 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -117,14 +117,19 @@ class LoadCombination:
         self.load_cases = load_cases
         self.lead_variable_load = None
 
-        # The first non-dead load is the leading variable load case.
-        for lc in load_cases:
-            if not lc.load_type == 'DEAD':
-                self.lead_variable_load = lc
-                break
+        self.set_lead_variable_load()
         
         self.frame = None
 
+    def set_lead_variable_load(self):
+        """ The first non-dead load is the leading variable load case.
+            Load cases without loads do not have a load type yet.
+        """
+        for lc in self.load_cases:
+            if not lc.load_type in ('DEAD', None):
+                self.lead_variable_load = lc
+                break
+
     def clear_loads(self):
         """
         Clear loads with comb_id from frame
@@ -144,6 +149,9 @@ class LoadCombination:
         """
         # Clear loads with same comb_id to prevent adding same load multiple times
         self.clear_loads()
+        if self.lead_variable_load is None:
+            # The loads have been added after the combination was created
+            self.set_lead_variable_load()
         for lc in self.load_cases:
             # Do the load factorization for given load case
             # combo_loads is a list of factored loads.
-- 
2.43.0


From e8e8bf23df6911ec30558ea8383fbb9a0318f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:03 +0000
Subject: [PATCH 106/172] fix: frame members do not share their hinges and
 buckling lengths

---
 metku/raami/frame_member.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index ec4ec97..d76b5d6 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -167,7 +167,8 @@ class FrameMember:
         
         # Flags for stating whether or not the member ends are hinged.
         
-        self.hinges = hinges
+        # Copy: the members must not share the same (default) list
+        self.hinges = list(hinges)
         
         # Flag stating whether or not the member can buckle in sway mode
         self.sway = sway
@@ -216,10 +217,11 @@ class FrameMember:
     
     @lcr.setter
     def lcr(self,val):
-        self.__lcr = val
+        # Copy: the members must not share the same (default) list
+        self.__lcr = list(val)
         
         if not self.member is None:
-            self.member.lcr = val
+            self.member.lcr = np.array(val)
     
     def coords(self):
         """ Return nodal coordinates """
@@ -922,7 +924,8 @@ class MultiSpanMember:
         
         # Flags for stating whether or not the member ends are hinged.
         
-        self.hinges = hinges
+        # Copy: the members must not share the same (default) list
+        self.hinges = list(hinges)
         
         self.sway = sway
         
-- 
2.43.0


From dacfbd68590912c07d5c9f4668f5f5b0c29dcb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:03 +0000
Subject: [PATCH 107/172] fix: extreme forces are the extremes of all load
 cases

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index d76b5d6..9e4b81b 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -520,7 +520,7 @@ class FrameMember:
                     if result_dict[key]["load_id"] is None:
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
-                    elif abs(val) > abs(result_dict[key][force]):
+                    elif func(val, result_dict[key][force]) != result_dict[key][force]:
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
 
-- 
2.43.0


From b4ccd92f18421e4c482aee4e3c2eb5242faca0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:03 +0000
Subject: [PATCH 108/172] fix: profiles of square and circular hollow sections
 can be chosen

---
 metku/raami/frame_member.py       | 14 +++++++++++---
 metku/sections/steel/catalogue.py | 24 ++++++++++++++++++++++++
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 9e4b81b..23fcc84 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -48,10 +48,11 @@ def profile_list(cross_section,prof_type="CURRENT",Tmin=3.0,sec_class=3):
             prof_type = "HEA"
         elif isinstance(cross_section,HEB):
             prof_type = "HEB"
-        elif isinstance(cross_section,RHS):
-            prof_type = "RHS"
         elif isinstance(cross_section,SHS):
+            # SHS is a subclass of RHS
             prof_type = "SHS"
+        elif isinstance(cross_section,RHS):
+            prof_type = "RHS"
         elif isinstance(cross_section,CHS):
             prof_type = "CHS"
         else:
@@ -78,7 +79,14 @@ def profile_list(cross_section,prof_type="CURRENT",Tmin=3.0,sec_class=3):
     elif prof_type == "CHS":
         profiles = chs_profiles.keys()
     elif prof_type == "SHS":
-        profiles = shs_profiles.keys()
+        profiles = []
+        for key, value in shs_profiles.items():
+            pnew = make_section(key)
+            pnew.Ned = -100e3
+            if pnew.section_class() > sec_class:
+                continue
+            if value['t'] >= Tmin:
+                profiles.append(key)
     else:
         raise ValueError(f'"{prof_type}" is not a valid profile type!')
     
diff --git a/metku/sections/steel/catalogue.py b/metku/sections/steel/catalogue.py
index 51e988f..810e0f7 100644
--- a/metku/sections/steel/catalogue.py
+++ b/metku/sections/steel/catalogue.py
@@ -1325,6 +1325,26 @@ def make_rhs(key,material="S355"):
     
     return RHS(p[0],p[1],p[2],fy=material)    
 
+def make_shs(key,material="S355"):
+    """ Makes an SHS section out of the 'key' used """
+    from metku.sections.steel.RHS import SHS
+    import re
+    
+    # Find height and wall thickness of the profile from 'key'
+    p = [float(a) for a in re.findall(r'\d+\.?\d*',key)]
+    
+    return SHS(p[0],p[2],fy=material)
+
+def make_chs(key,material="S355"):
+    """ Makes a CHS section out of the 'key' used """
+    from metku.sections.steel.CHS import CHS
+    import re
+    
+    # Find diameter and wall thickness of the profile from 'key'
+    p = [float(a) for a in re.findall(r'\d+\.?\d*',key)]
+    
+    return CHS(p[0],p[1],fy=material)
+
 def make_section(key,material="S355"):
     """ Makes a steel section out of key """
     import re
@@ -1337,6 +1357,10 @@ def make_section(key,material="S355"):
         p = make_ipe(prof_name[1],material)
     elif prof_name[0] == "RHS":
         p = make_rhs(prof_name[1],material)
+    elif prof_name[0] == "SHS":
+        p = make_shs(prof_name[1],material)
+    elif prof_name[0] == "CHS":
+        p = make_chs(prof_name[1],material)
     elif prof_name[0] == "HE":
         if prof_name[2] == "A":
             p = make_hea(prof_name[1],material)
-- 
2.43.0


From 0bd412573db07f47b9f83be07d6f896147a587c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:03 +0000
Subject: [PATCH 109/172] fix: slenderness limit holds in groups of members

---
 metku/raami/frame_member.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 23fcc84..b720760 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1414,7 +1414,8 @@ class MemberGroup:
 
         """
 
-        self.members = members
+        # Copy: the groups must not share the same (default) list
+        self.members = list(members)
         if len(members) == 0:
             self.cross_section = None
             self.frame = None
@@ -1521,16 +1522,20 @@ class MemberGroup:
             if sec.section_class() > sec_class:
                 continue
             
+            too_slender = False
             for member in self.members:
                 # For multispan members, the member of a group contains
                 # several members.
                 if isinstance(member,MultiSpanMember):
                     for mem in member.members:
                         if any(mem.member.slenderness() > max_slenderness):
-                            continue
+                            too_slender = True
                 else:
                     if any(member.member.slenderness() > max_slenderness):
-                        continue
+                        too_slender = True
+            
+            if too_slender:
+                continue
             
             
             for load_id in self.frame.load_ids:   
-- 
2.43.0


From 4eb154d58332a0474ed545ccb59008662b484250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:03 +0000
Subject: [PATCH 110/172] fix: changed profile of a group is taken into account
 in the next iteration

---
 metku/raami/raami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index 0f5dfee..5936b84 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -443,7 +443,7 @@ class Raami:
                 
             # Go through groups first
             for group in self.member_groups.values():                
-                group.optimum_design(prof_type,verb)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb))
                 
                 for mem in group.members:
                     explored.append(mem)
-- 
2.43.0


From 919d2d2c36bdc90aca13b21c2b155969cf2b1d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 111/172] fix: truss member of one element can be hinged at
 both ends

---
 metku/raami/raami_plane_truss.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 25d4254..467fa10 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1795,15 +1795,8 @@ class TopChord(SteelFrameMember):
         """ Generate finite elements """
         
         if model == "no_eccentricity":
+            # This includes the hinges
             super().generate_elements(fem)
-            
-            if self.hinges[0]:
-                """ There is a hinge in the first end """
-                self.fem_elements[0].releases = [2]
-            
-            if self.hinges[1]:
-                """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
         elif model == "en1993":
             # First end node
             self.fem_nodes.append(self.joints[0].fem_nodes['xc'])
@@ -1840,7 +1833,7 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]
         elif model == "ecc_elements":
             if isinstance(self.joints[0],TubularYJoint):
                 N1 = self.joints[0].fem_nodes['xc']                              
@@ -1910,7 +1903,7 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]
        
     
     
@@ -2092,7 +2085,7 @@ class BottomChord(SteelFrameMember):
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]
             
 
 class TrussBrace(SteelFrameMember):
@@ -2372,7 +2365,7 @@ class TrussBrace(SteelFrameMember):
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]
     
     def angle_top(self):
         """ Angle between the brace and top chord """
-- 
2.43.0


From 61da86d5c49f8a56c2c3b7fdc54e71d4ca69e9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 112/172] fix: profile of a member of circular hollow section
 can be chosen

---
 metku/sections/steel/CHS.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/sections/steel/CHS.py b/metku/sections/steel/CHS.py
index 1312e39..2a3976a 100644
--- a/metku/sections/steel/CHS.py
+++ b/metku/sections/steel/CHS.py
@@ -52,6 +52,11 @@ class CHS(SteelSection):
     def __repr__(self):
         return f"{type(self).__name__} {self.D:.0f}X{self.T:.1f}"
 
+    @property
+    def b(self):
+        """ Width of the section """
+        return self.D
+
     def area(self):
         r = 0.5*self.D
         return math.pi*r**2 - math.pi*(r-self.T)**2
-- 
2.43.0


From e3b303f4e94943c2869ffe1ed443379a96fed3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 113/172] fix: charring depth at the time when the protection
 fails

---
 metku/eurocodes/en1995/en1995_1_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index 31d2e42..387a9b7 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -93,7 +93,7 @@ def d_char_n(fp: FireProtection, t: (int, float), beta_n: float) -> float:
     if fp.t_ch < fp.t_f:
         if t < fp.t_f:
             return (t - fp.t_ch) * 0.73 * beta_n + k0 * d0
-        elif fp.t_f < t < fp.t_a:
+        elif t < fp.t_a:
             return (fp.t_f - fp.t_ch) * 0.73 * beta_n + (t - fp.t_f) * 2 * beta_n + k0 * d0
         else:
             return (fp.t_f - fp.t_ch) * 0.73 * beta_n + (fp.t_a - fp.t_f) * 2 * beta_n + (t - fp.t_a) * beta_n + k0 * d0
-- 
2.43.0


From 17ce59ef60d97d772a44e2d7133c541da6de5a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 114/172] fix: charring rate of hardwood with density between
 the tabulated values

---
 metku/eurocodes/en1995/en1995_1_2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index 387a9b7..80adc86 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -42,10 +42,12 @@ def charring_speed(rhok: (int, float), type: str, hardness: str, h_p: (int, floa
                 if rhok >= 290:
                     beta = [0.65, 0.7]
         elif hardness == 'hardwood':
-            if rhok == 290:
-                beta = [0.65, 0.7]
             if rhok >= 450:
                 beta = [0.5, 0.55]
+            elif rhok >= 290:
+                # Linear interpolation between the tabulated densities
+                k = (rhok - 290) / (450 - 290)
+                beta = [0.65 + k * (0.5 - 0.65), 0.7 + k * (0.55 - 0.7)]
     elif type == 'lvl':
         if rhok >= 480:
             beta = [0.65, 0.7]
-- 
2.43.0


From ae0007ecf9f0e140a6158d3e36e016061234dda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 115/172] fix: bending stresses of a timber member of opposite
 signs do not cancel each other

---
 metku/structures/timber/timber_member.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 45daaef..4db7819 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1108,8 +1108,9 @@ class TimberMember:
 
     def check_bending_moment(self, n: int) -> float:
         # Bending moment utilization ratio:                         SFS-EN 1995-1-1 § 6.1.6
-        UM1 = abs(self.sigma_md(n)[0] / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd)
-        UM2 = abs(self.sigma_md(n)[1] / self.fmd + k_m * self.sigma_md(n)[0] / self.fmd)
+        sigma_y, sigma_z = [abs(s) for s in self.sigma_md(n)]
+        UM1 = sigma_y / self.fmd + k_m * sigma_z / self.fmd
+        UM2 = sigma_z / self.fmd + k_m * sigma_y / self.fmd
         r = max(UM1, UM2)
         return r
 
@@ -1122,16 +1123,16 @@ class TimberMember:
     def check_bending_tension(self, n: int) -> float:
         #                                                           SFS-EN 1995-1-1 § 6.2.3
         # TODO z-suuntainen taivutusjännitys tarkistettava merkkien osalta (deplanaatiota ei ole otettu huomioon)
-        UM1 = self.sigma_t0d(n) / self.ft0d + abs(self.sigma_md(n)[0]) / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd
-        UM2 = self.sigma_t0d(n) / self.ft0d + k_m * abs(self.sigma_md(n)[0]) / self.fmd + self.sigma_md(n)[1] / self.fmd
+        UM1 = self.sigma_t0d(n) / self.ft0d + abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = self.sigma_t0d(n) / self.ft0d + k_m * abs(self.sigma_md(n)[0]) / self.fmd + abs(self.sigma_md(n)[1]) / self.fmd
         r = max(UM1, UM2)
         return r
 
     def check_bending_compression(self, n: int) -> float:
         #                                                           SFS-EN 1995-1-1 § 6.2.4
         # TODO katso ylemää
-        UM1 = (self.sigma_c0d(n) / self.fc0d) ** 2 + abs(self.sigma_md(n)[0]) / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd
-        UM2 = (self.sigma_c0d(n) / self.fc0d) ** 2 + k_m * abs(self.sigma_md(n)[0]) / self.fmd + self.sigma_md(n)[1] / self.fmd
+        UM1 = (self.sigma_c0d(n) / self.fc0d) ** 2 + abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = (self.sigma_c0d(n) / self.fc0d) ** 2 + k_m * abs(self.sigma_md(n)[0]) / self.fmd + abs(self.sigma_md(n)[1]) / self.fmd
         r = max(UM1, UM2)
         return r
 
@@ -1174,8 +1175,8 @@ class TimberMember:
         mz0 = np.array(sigma_mzd_list[0])
         mz1 = np.array(sigma_mzd_list[1])
 
-        UB = [(abs(sc0) / (self.k_c()[0] * self.fc0d) + abs(my0) / self.fmd + k_m * mz0 / self.fmd),
-              (abs(sc1) / (self.k_c()[1] * self.fc0d) + k_m * abs(my1) / self.fmd + mz1 / self.fmd)]
+        UB = [(abs(sc0) / (self.k_c()[0] * self.fc0d) + abs(my0) / self.fmd + k_m * abs(mz0) / self.fmd),
+              (abs(sc1) / (self.k_c()[1] * self.fc0d) + k_m * abs(my1) / self.fmd + abs(mz1) / self.fmd)]
         UB_fixed = [UB[0] * (sc0 < 0), UB[1] * (sc1 < 0)]
 
         return [max(UB_fixed[0]), max(UB_fixed[1])]
-- 
2.43.0


From 848c5fe841dd36723c37ced05458f3ac8a03b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 116/172] fix: lateral-torsional buckling of a timber member of
 hogging moment

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 4db7819..f0cb038 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1192,7 +1192,7 @@ class TimberMember:
             for loc in self.loc:
                 if supp[i] <= loc <= supp[i + 1]:
                     if max(self.myed, key=abs) != 0 and abs(max(self.ned, key=abs)) <= 0.1:
-                        ULT_list.append({'r': self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
+                        ULT_list.append({'r': abs(self.sigma_md(self.loc.index(loc))[0]) / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
                     else:
                         ULT_list.append({
                             'r': ((self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd)) ** 2) +
-- 
2.43.0


From 2356ccecd67aa2a255ed529ab050de90848712e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 117/172] fix: torsion of rectangular timber sections:
 tabulated factors, any orientation and direction

---
 metku/structures/timber/timber_member.py | 75 +++++++-----------------
 1 file changed, 21 insertions(+), 54 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index f0cb038..2de0604 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -21,6 +21,13 @@ from metku.sections.steel.ISection import HEA
 
 PREC = 5
 
+# Torsion of rectangular cross sections: ratio of the longer and the shorter side,
+# factors of the section modulus and of the torsion constant
+# (T. Salmi 2000, Lujuusopin perusteet, p. 258)
+TORSION_RATIO = [1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 6.0, 8.0, 10.0, 20.0, 50.0]
+TORSION_BETA = [0.208, 0.231, 0.246, 0.258, 0.267, 0.282, 0.291, 0.299, 0.307, 0.313, 0.323, 0.329]
+TORSION_ALPHA = [0.141, 0.196, 0.229, 0.249, 0.263, 0.281, 0.291, 0.299, 0.307, 0.313, 0.323, 0.329]
+
 import sys
 
 if sys.version_info[0] == 3 and sys.version_info[1] < 9:
@@ -631,72 +638,32 @@ class TimberMember:
         EN-1995-1-1 6-1-8
         Alpha and beta are based on the theoretical tables given in: T. Salmi 2000, Lujuusopin perusteet, p. 258
         """
-        section_height_to_width_ratio = self.section.get_H(self.loc[n]) / self.section.B
-        if section_height_to_width_ratio < 1:
-            section_height_to_width_ratio = 1 / section_height_to_width_ratio
-        if 0.95 < section_height_to_width_ratio < 1.05:
-            beta = 0.208
-        elif 1.45 < section_height_to_width_ratio < 1.55:
-            beta = 0.231
-        elif 1.95 < section_height_to_width_ratio < 2.05:
-            beta = 0.246
-        elif 2.45 < section_height_to_width_ratio < 2.55:
-            beta = 0.258
-        elif 2.95 < section_height_to_width_ratio < 3.05:
-            beta = 0.267
-        elif 3.95 < section_height_to_width_ratio < 4.05:
-            beta = 0.282
-        elif 4.95 < section_height_to_width_ratio < 5.05:
-            beta = 0.299
-        elif 5.95 < section_height_to_width_ratio < 6.05:
-            beta = 0.307
-        elif 7.95 < section_height_to_width_ratio < 8.05:
-            beta = 0.313
-        elif 9 < section_height_to_width_ratio < np.inf:
-            beta = 0.333
-        else:
-            beta = -0.0007 * section_height_to_width_ratio ** 2 + 0.0193 * section_height_to_width_ratio + 0.1923
-        Wv = beta * self.section.get_H(self.loc[n]) * self.section.B ** 2
-        return self.ted[n] / Wv
+        h, b = self.section.get_H(self.loc[n]), self.section.B
+        if h < b:
+            h, b = b, h
+        # Torsion factors are tabulated for ratios of the longer and the shorter side
+        beta = np.interp(h / b, TORSION_RATIO, TORSION_BETA)
+        Wv = beta * h * b ** 2
+        return abs(self.ted[n]) / Wv
 
     def I_tor(self, loc: float) -> float:
         """
         @return: torsional constant for rectangular cross sections
         """
-        ratio = self.section.get_H(loc) / self.section.B
-        if ratio < 1:
-            ratio = 1 / ratio
-        if 1 < ratio < 1.05:
-            alpha = 0.141
-        elif 1.45 < ratio < 1.55:
-            alpha = 0.196
-        elif 1.95 < ratio < 2.05:
-            alpha = 0.229
-        elif 2.45 < ratio < 2.55:
-            alpha = 0.249
-        elif 2.95 < ratio < 3.05:
-            alpha = 0.263
-        elif 3.95 < ratio < 4.05:
-            alpha = 0.281
-        elif 4.95 < ratio < 5.05:
-            alpha = 0.299
-        elif 5.95 < ratio < 6.05:
-            alpha = 0.307
-        elif 7.95 < ratio < 8.05:
-            alpha = 0.313
-        elif 9 < ratio < np.inf:
-            alpha = 0.333
-        else:
-            alpha = -0.0022 * ratio ** 2 + 0.425 * ratio + 0.1116
+        h, b = self.section.get_H(loc), self.section.B
+        if h < b:
+            h, b = b, h
+        alpha = np.interp(h / b, TORSION_RATIO, TORSION_ALPHA)
 
-        return alpha * self.section.get_H(loc) * self.section.B ** 3
+        return alpha * h * b ** 3
 
     def k_shape(self, n: int) -> float:
         """
         SFS EN 1995-1-1 §6.1.8(6.15)
         @return: cross section factor for rectangular cross sections (circular sections not included)
         """
-        return min(1.3, 1 + 0.05 * self.section.get_H(self.loc[n]) / self.section.B)
+        h, b = self.section.get_H(self.loc[n]), self.section.B
+        return min(1.3, 1 + 0.05 * max(h, b) / min(h, b))
 
     def beta_c(self) -> float:
         """
-- 
2.43.0


From 42e7893562697b1b07441aa29ce73b06ec728cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 118/172] fix: inner radius of curved timber beams is given in
 millimetres

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 2de0604..b8d8599 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -351,10 +351,10 @@ class TimberMember:
         if isinstance(self.section, (HarjaPalkki, PulpettiPalkki, MahaPalkki)):
             return 1
         elif isinstance(self.section, (KaarevaHarjaPalkki, KaarevaPalkki)):
-            if self.section.r_in * 1000 / self.section.t >= 240:
+            if self.section.r_in / self.section.t >= 240:
                 return 1
             else:
-                return 0.76 + 0.001 * (self.section.r_in * 1000 / self.section.t)
+                return 0.76 + 0.001 * (self.section.r_in / self.section.t)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 63ffb76c31b4d665ddd2f2f6c421206fd3b412b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 119/172] fix: factor k2 of the bending stress of pitched
 cambered beams

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index b8d8599..2cadfcf 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -445,7 +445,7 @@ class TimberMember:
             return 1 + 0.35 * (self.section.hap / r) + 0.6 * (self.section.hap / r) ** 2
         elif isinstance(self.section, KaarevaHarjaPalkki):
             r = self.section.r_in + 0.5 * self.section.hap
-            k2 = 0.35 * - 8 * np.tan(self.alfa())
+            k2 = 0.35 - 8 * np.tan(self.alfa())
             k3 = 0.6 + 8.3 * np.tan(self.alfa()) - 7.8 * np.tan(self.alfa()) ** 2
             k4 = 6 * np.tan(self.alfa()) ** 2
             return k1 + k2 * (self.section.hap / r) + k3 * (
-- 
2.43.0


From 5a39b65ac5642183baeea1e966a7fe60651d8e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 120/172] fix: stress distribution factor of curved timber
 beams

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 2cadfcf..1bf7dd3 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -416,9 +416,9 @@ class TimberMember:
 
     def k_dis(self) -> float:
         # SFS 1995-1-1 (6.52)
-        if isinstance(self.section, (HarjaPalkki, PulpettiPalkki, MahaPalkki)):
+        if isinstance(self.section, (HarjaPalkki, PulpettiPalkki, MahaPalkki, KaarevaPalkki)):
             return 1.4
-        elif isinstance(self.section, (KaarevaHarjaPalkki, KaarevaPalkki)):
+        elif isinstance(self.section, KaarevaHarjaPalkki):
             return 1.7
 
     def k_p(self) -> float:
-- 
2.43.0


From 00ad0d25e0ef385643796199f660253608429310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 121/172] fix: volume factor of solid timber

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 1bf7dd3..88bbe57 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -406,7 +406,7 @@ class TimberMember:
         # SFS 1995-1-1 (6.51)
         if self.perm_k_vol is not None:
             return self.perm_k_vol
-        if self.material.type == 'solid timber':
+        if self.material.type == 'solid_timber':
             return 1.0
         v = self.V()
         if v > (2 / 3) * self.V_tot():
-- 
2.43.0


From 02f235504ed68f50aafc53a556295793398fc719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 122/172] fix: bracing of timber beams uses the stiffness
 factor and the length in millimetres

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 88bbe57..0a3e696 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1199,14 +1199,14 @@ class TimberMember:
                     Nd_list.append(Nd_temp)
 
         Nd = max(Nd_list)
-        C = Nd / a
+        C = ks * Nd / a
         if self.material.type == 'solid_timber':
             Fd = Nd / 50
         else:
             Fd = Nd / 80
 
         if n is not None:
-            qd = min([1, sqrt(15/self.parent.length)]) * ((n * Nd) / (50 * self.parent.length))
+            qd = min([1, sqrt(15000/self.parent.length)]) * ((n * Nd) / (50 * self.parent.length))
             return C, Fd, qd
         return C, Fd
 
-- 
2.43.0


From 7b14d0dcbf5e81362cd231a5634ab526df56243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 123/172] fix: strength at the tapered edge of a timber beam in
 tension and in compression

---
 metku/structures/timber/timber_member.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 0a3e696..c97050e 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -454,20 +454,16 @@ class TimberMember:
     def k_m_alpha(self) -> float:
         # SFS 1995-1-1 (6.39) ja (6.40)
         sigma_malphad = self.sigma_m_alpha_d()
-        if not self.section.flipped:
-            if sigma_malphad >= 0:
-                kma = np.power(1 + np.power(np.tan(self.alfa()) * (4 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
-            else:
-                kma = np.power(1 + np.power(np.tan(self.alfa()) * (2 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
+        # Positive bending moment compresses the upper edge, which is the tapered one,
+        # unless the beam is upside down
+        if (sigma_malphad >= 0) == bool(self.section.flipped):
+            # Tension at the tapered edge (6.39)
+            k_v, f_90d = 0.75, self.ft90d
         else:
-            if sigma_malphad <= 0:
-                kma = np.power(1 + np.power(np.tan(self.alfa()) * (4 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
-            else:
-                kma = np.power(1 + np.power(np.tan(self.alfa()) * (2 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
+            # Compression at the tapered edge (6.40)
+            k_v, f_90d = 1.5, self.fc90d
+        kma = np.power(1 + np.power(np.tan(self.alfa()) * self.fmd / (k_v * self.fvd), 2) +
+                       np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / f_90d, 2), -1 / 2)
         return kma
 
     def alfa(self) -> float:
@@ -922,7 +918,7 @@ class TimberMember:
 
     def check_single_tapered_beam_bending_tension(self) -> float:
         # SFS 1995-1-1 (6.38)
-        return self.sigma_m_alpha_d() / (self.k_m_alpha() * self.fmd)
+        return abs(self.sigma_m_alpha_d()) / (self.k_m_alpha() * self.fmd)
 
     def check_tapered_beam_bending_tension(self) -> float:
         """
-- 
2.43.0


From 6fbe1fc6367f67026aa08ef6b514f1d5e6719d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 124/172] fix: plastic neutral axis of composite beams in the
 flange or in the web

---
 metku/sections/composite/composite_beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/sections/composite/composite_beam.py b/metku/sections/composite/composite_beam.py
index cedc960..534bebb 100644
--- a/metku/sections/composite/composite_beam.py
+++ b/metku/sections/composite/composite_beam.py
@@ -363,7 +363,7 @@ class CompositeIBeam:
         
         if Ra < Rc:
             ec0 = Ra/Rc*hc
-        elif Rc < Ra-2*self.Rf():
+        elif Rc >= Ra-2*self.Rf():
             hl = self.slab.h
             ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
         else:
@@ -395,7 +395,7 @@ class CompositeIBeam:
                 print("Ra = {0:4.2f} kN".format(Ra*1e-3))
                 print("Rc = {0:4.2f} kN".format(Rc*1e-3))
                 print("ec0 = {0:4.2f} [mm]".format(ec0))
-        elif Rc < Ra-2*self.Rf():
+        elif Rc >= Ra-2*self.Rf():
             """ Neutral axis in top flange of steel beam """
             hl = self.slab.h
             ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
-- 
2.43.0


From e945835e1d682a1e76ef5e5317ba3069b8dbdf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 125/172] fix: resistance of shear studs

---
 metku/eurocodes/en1994/en1994_1_1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1994/en1994_1_1.py b/metku/eurocodes/en1994/en1994_1_1.py
index 2f11218..7ed78b0 100644
--- a/metku/eurocodes/en1994/en1994_1_1.py
+++ b/metku/eurocodes/en1994/en1994_1_1.py
@@ -15,6 +15,7 @@ import math
 
 try:
     from metku.eurocodes.en1992.constants import gammaC, gammaS, alpha_cc, concrete
+    from metku.eurocodes.en1994.constants import gammaV
 except:
     from eurocodes.en1992.constants import gammaC, gammaS, alpha_cc, concrete
     from eurocodes.en1994.constants import gammaV
@@ -42,7 +43,7 @@ class ShearStud:
     def PRd(self,fck,Ecm,verb=False):
         """ Shear force resistance of a stud """
         
-        PRd_steel = 0.8*self.fu*math.pi**2*self.d**2/4
+        PRd_steel = 0.8*self.fu*math.pi*self.d**2/4/gammaV
         
         if self.length/self.d > 4:
             alpha = 1.0
-- 
2.43.0


From dfe4b8b24c098ce61a04f37d4c1757eecb970957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 126/172] fix: horizontal cover of the bars of filled tubes

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 962c28e..28996b8 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -143,7 +143,7 @@ class ConcreteFilledTube:
         """ Distance in y-direction (horizontal) of the rebar edge from
             inner surface of the steel profile
         """
-        return 0.5*self.steel.B - self.steel.T - self.rebar_pos[0] + self.rebar.r
+        return 0.5*self.steel.B - self.steel.T - (self.rebar_pos[0] + self.rebar.r)
         
     @v.setter
     def v(self,v):
-- 
2.43.0


From e524723b88fbbd570a71dd7d4623d6ed6ce2cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 127/172] fix: second moment of area of the concrete in filled
 tubes

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 28996b8..2b262d6 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -264,7 +264,7 @@ class ConcreteFilledTube:
         
         Icy = (b-2*t)*(h-2*t)**3/12 - r**4/3 - r**2*(h-2*t-r)**2 + \
                 +r**4*(9*math.pi**2-64)/36/math.pi + \
-                +math.pi*r**2*(0.5*h-t+4*r/3/math.pi)**2 - self.Is
+                +math.pi*r**2*(0.5*h-t-r+4*r/3/math.pi)**2 - self.Is
         
         return Icy
     
-- 
2.43.0


From e8296bcf2803f91c68c4f3d076d6fdd29b7a7099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 128/172] fix: buckling of filled tubes about the minor axis

---
 metku/sections/composite/composite_column.py | 41 +++++++++++++++-----
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 2b262d6..cc6264b 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -207,6 +207,11 @@ class ConcreteFilledTube:
         
         return Is1
     
+    @property
+    def Isz(self):
+        """ Second moment of area of reinforcement, minor axis """
+        return self.nbars*(self.rebar.I + self.rebar.A*self.y_rebar**2)
+    
     @property
     def Wps(self):
         """ Bending resistance of reinforcement """
@@ -256,15 +261,26 @@ class ConcreteFilledTube:
         """ Second moment of area of concrete part with respect to
             major axis at the centroid
         """
-        b = self.steel.B
-        h = self.steel.H
+        return self.core_second_moment(self.steel.B,self.steel.H) - self.Is
+    
+    @property
+    def Icz(self):
+        """ Second moment of area of concrete part with respect to
+            minor axis at the centroid
+        """
+        return self.core_second_moment(self.steel.H,self.steel.B) - self.Isz
+    
+    def core_second_moment(self,b,h):
+        """ Second moment of area of the inside of a tube with width b
+            and depth h
+        """
         t = self.steel.T
         # Inner radius
         r = self.steel.R-t
         
         Icy = (b-2*t)*(h-2*t)**3/12 - r**4/3 - r**2*(h-2*t-r)**2 + \
                 +r**4*(9*math.pi**2-64)/36/math.pi + \
-                +math.pi*r**2*(0.5*h-t-r+4*r/3/math.pi)**2 - self.Is
+                +math.pi*r**2*(0.5*h-t-r+4*r/3/math.pi)**2
         
         return Icy
     
@@ -296,16 +312,24 @@ class ConcreteFilledTube:
         return self.Ea*(self.Ia+self.ya_com()**2*self.Aa) + self.Ecm*(self.Ic+self.yc_com()**2*self.Ac)
 
     
+    def stiffness_parts(self,axis="y"):
+        """ Bending stiffness of steel and reinforcement, and
+            second moment of area of concrete 
+        """
+        if axis == "y":
+            return self.EIa, self.EIs, self.Ic
+        
+        return self.Ea*self.steel.I[1], self.rebar.E*self.Isz, self.Icz
+    
     def EIeff(self,axis="y"):
         """ Effective flexural stiffness for determining Ncr 
             EN 1994-1-1, Eq. (6.40)
         """
         Ke = 0.6
         
-        if axis == "y":
-            Ic = self.Ic
+        EIa, EIs, Ic = self.stiffness_parts(axis)
     
-        return self.EIa + self.EIs + Ke*self.Eceff*Ic
+        return EIa + EIs + Ke*self.Eceff*Ic
     
     
     def EIeffII(self,axis="y"):
@@ -315,10 +339,9 @@ class ConcreteFilledTube:
         Ko = 0.9
         Ke = 0.5
         
-        if axis == "y":
-            Ic = self.Ic
+        EIa, EIs, Ic = self.stiffness_parts(axis)
     
-        return Ko*(self.EIa + self.EIs + Ke*self.Eceff*Ic)
+        return Ko*(EIa + EIs + Ke*self.Eceff*Ic)
     
     def e0(self):
         """ Member imperfection 
-- 
2.43.0


From c328c1454f8d7008b21c0393f895ffd746a16e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 129/172] fix: saw blades are charged by the sawn area

---
 metku/cost/workshop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/cost/workshop.py b/metku/cost/workshop.py
index 89363d9..4ec296e 100644
--- a/metku/cost/workshop.py
+++ b/metku/cost/workshop.py
@@ -852,7 +852,8 @@ class SawingCost(CostCentre):
         # calculate productive time and cost of consumables for each end.   
         for t, h, Ah, At in zip(T,H,AH,AT):     
             TPnew = self.productive_time(steel_grade, h, t, Ah)
-            cCS += self.consumables(At, t, TPnew, steel_grade)
+            # consumables returns the cost per minute of productive time
+            cCS += TPnew*self.consumables(At, t, TPnew, steel_grade)
             TP += TPnew            
                     
         self.times["productive"] = TP
-- 
2.43.0


From 517e7e4d3227de9ef08e8e9f25868eed0574b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 130/172] fix: welds and holes removed from a plate cost
 nothing

---
 metku/structures/steel/plates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/structures/steel/plates.py b/metku/structures/steel/plates.py
index ca9948b..c21c5fc 100644
--- a/metku/structures/steel/plates.py
+++ b/metku/structures/steel/plates.py
@@ -94,6 +94,9 @@ class RectPlate:
             units: e
         """
         
+        for key in self._cost:
+            self._cost[key] = 0.0
+        
         self._cost['material'] = self.weight()*(material_cost + 
                                                 steel_grade_add_on(self.material.name) + 
                                                 thickness_add_on(self.t))*1e-3
-- 
2.43.0


From cce34c93ba73157c645f8adff3d897e8d85fb7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 131/172] fix: shear force in the gap of the ridge joint of a
 truss

---
 metku/raami/raami_plane_truss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 467fa10..3a88f58 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3123,7 +3123,10 @@ class TubularKGapJoint(TubularJoint):
     
     def V0gap(self,load_id):
         """ Shear force in the gap """
-        return max(abs(f) for f in self.fem_elements['gap'].fint[load_id]['fz'])
+        gap = self.fem_elements['gap']
+        # At the ridge, the gap consists of two elements
+        elements = gap if isinstance(gap,list) else [gap]
+        return max(abs(f) for el in elements for f in el.fint[load_id]['fz'])
     
     @property
     def angles(self):
-- 
2.43.0


From cb6b7b7e74506f5cde0c7bc10a1ec4ec4de56490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 132/172] fix: K joints at the end of a truss chord

---
 metku/raami/raami_plane_truss.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 3a88f58..88099ea 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1499,7 +1499,7 @@ class SlopedTruss(PlaneTruss):
                 
                 # Add loads to gap elements
                 for joint in self.joints.values():
-                    if isinstance(joint,TubularKGapJoint):
+                    if isinstance(joint,TubularKGapJoint) and len(joint.chords) > 1:
                         # Add load to gap element
                         for load1 in joint.chords[0].loads:
                             for load2 in joint.chords[1].loads:
@@ -3427,10 +3427,8 @@ class TubularKGapJoint(TubularJoint):
         #    joint_brace.Ned = brace.NEd[load_id]
         
         """ Load in the chord """
-        if abs(self.chords[0].NEd[load_id]) < abs(self.chords[1].NEd[load_id]):
-            N0 = self.chords[0].NEd[load_id]
-        else:
-            N0 = self.chords[1].NEd[load_id]
+        # At the end of the chord, there is only one chord member
+        N0 = min((chord.NEd[load_id] for chord in self.chords),key=abs)
         
         M0 = 0.0
         """
-- 
2.43.0


From a75c84e684df8ed69f6f4d1989b62e0867f71f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 133/172] fix: model of truss joints without eccentricity

---
 metku/raami/raami_plane_truss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 88099ea..359a9b8 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1307,7 +1307,7 @@ class SlopedTruss(PlaneTruss):
                         xc = joint.xchord()
                     
                     if np.linalg.norm(xp-xc) < 1e-6:
-                        xcNode = xp
+                        xcNode = xpNode
                     else:
                         xcNode = self.fem.add_node(xc[0],xc[1])
                         
@@ -1336,6 +1336,9 @@ class SlopedTruss(PlaneTruss):
                 if isinstance(joint,TubularKGapJoint):
                     n1 = joint.fem_nodes['xp']
                     n2 = joint.fem_nodes['xc']
+                    if n1 is n2:
+                        # No eccentricity
+                        continue
                     cs = IPE(500)
                                  
                     newElement = EBBeam(n1,n2,cs,cs.material)                    
-- 
2.43.0


From 447442eee00605908827895708ed8062705377ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 134/172] fix: ridge joint of trusses whose ridge coordinate is
 rounded

---
 metku/raami/raami_plane_truss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 359a9b8..ecde859 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1183,7 +1183,7 @@ class SlopedTruss(PlaneTruss):
                 self.add(newJoint)                
                 njoint += 1
                 
-                if node in self.top_nodes and node.x == self.L1:
+                if node in self.top_nodes and abs(node.x-self.L1) < 1e-6:
                     self.ridge_joint = newJoint
                 
             elif nbraces == 2:
@@ -1192,7 +1192,7 @@ class SlopedTruss(PlaneTruss):
                 self.add(newJoint)                
                 njoint += 1
                 
-                if node in self.top_nodes and node.x == self.L1:
+                if node in self.top_nodes and abs(node.x-self.L1) < 1e-6:
                     self.ridge_joint = newJoint
                     
             elif nbraces == 1:                
-- 
2.43.0


From d525fb6a0c487c1dd7c33a12f3f896c7667da831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 135/172] fix: load zones of the top chord of a truss

---
 metku/raami/raami_plane_truss.py | 44 +++++++++++---------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index ecde859..f05684d 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1101,38 +1101,24 @@ class SlopedTruss(PlaneTruss):
         load_name0 = 'TC_' + ltype
         
         for mem in self.top_chord:
-            if mem.nodes[1].x <= xzones[0]:
-                # Member is in the first zone
-                vals = [q[0],q[0]]
-                load_name = load_name0 + '_line'
-                self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
-            elif mem.nodes[0].x > xzones[-1]:
-                # Member is in the last zone
-                vals = [q[-1],q[-1]]
+            x0, x1 = mem.nodes[0].x, mem.nodes[1].x
+            # Zones of the ends of the member. Zone i lies between xzones[i-1] and xzones[i]
+            zone0 = sum(x <= x0 for x in xzones)
+            zone1 = sum(x < x1 for x in xzones)
+            
+            if zone1 <= zone0:
+                # Member is totally inside a zone
+                vals = [q[zone0],q[zone0]]
                 load_name = load_name0 + '_line'
                 self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
+            elif zone1 == zone0+1:
+                # Zone changes inside the member
+                vals = [q[zone0],q[zone1]]
+                xdiv = (xzones[zone0]-x0)/(x1-x0)
+                load_name = load_name0 + '_pw_line'
+                self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name, "global"))
             else:
-                
-                for i, (x1, x2) in enumerate(zip(xzones[:-1],xzones[1:])):
-                    if mem.nodes[0].x < x1 and mem.nodes[1].x > x1:
-                        # member is partially outside
-                        vals = [q[i],q[i+1]]
-                        xdiv = (x1-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
-                        #xdiv = x1
-                        load_name = load_name0 + '_pw_line'
-                        self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x > x2:
-                        # member is partially outside
-                        vals = [q[i+1],q[i+2]]
-                        xdiv = (x2-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
-                        #xdiv = x2
-                        load_name = load_name0 + '_pw_line'
-                        self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x <= x2:
-                        # member is totally inside
-                        vals = [q[i+1],q[i+1]]
-                        load_name = load_name0 + '_line'
-                        self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name,"global"))
+                raise ValueError("A chord member can be in two load zones at most.")
     
     def generate_joints(self):
         """ Creates joints for the truss. These are welded tubular joints by default. """
-- 
2.43.0


From 2557d28f7d92c10f2dfec6d9b4225810a2a6ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 136/172] fix: hinge at the end of a truss member is released
 once

---
 metku/raami/raami_plane_truss.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index f05684d..30a8ac2 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1820,7 +1820,7 @@ class TopChord(SteelFrameMember):
                 """ There is a hinge in the first end """
                 self.fem_elements[0].releases = [2]
             
-            if self.hinges[1]:
+            if self.hinges[1] and 5 not in self.fem_elements[-1].releases:
                 """ There is a hinge in the last end """
                 self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]
         elif model == "ecc_elements":
@@ -1890,7 +1890,7 @@ class TopChord(SteelFrameMember):
                 """ There is a hinge in the first end """
                 self.fem_elements[0].releases = [2]
             
-            if self.hinges[1]:
+            if self.hinges[1] and 5 not in self.fem_elements[-1].releases:
                 """ There is a hinge in the last end """
                 self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]
        
@@ -2072,7 +2072,7 @@ class BottomChord(SteelFrameMember):
             """ There is a hinge in the first end """
             self.fem_elements[0].releases = [2]
         
-        if self.hinges[1]:
+        if self.hinges[1] and 5 not in self.fem_elements[-1].releases:
             """ There is a hinge in the last end """
             self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]
             
@@ -2352,7 +2352,7 @@ class TrussBrace(SteelFrameMember):
             """ There is a hinge in the first end """
             self.fem_elements[0].releases = [2]
         
-        if self.hinges[1]:
+        if self.hinges[1] and 5 not in self.fem_elements[-1].releases:
             """ There is a hinge in the last end """
             self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]
     
-- 
2.43.0


From 50b9cb26b979897f06afa514e3073c53c68a480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 137/172] fix: Wagner's factor of welded sections is measured
 from the centroid

---
 metku/sections/steel/wbox.py | 7 ++++---
 metku/sections/steel/wi.py   | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/metku/sections/steel/wbox.py b/metku/sections/steel/wbox.py
index 0a32241..8a6ce0e 100644
--- a/metku/sections/steel/wbox.py
+++ b/metku/sections/steel/wbox.py
@@ -274,9 +274,10 @@ class WBSection(SteelSection):
             Book 2, 7.1.2 Mono-symmetrical I cross-sections
         """
 
-        zf1 = self.zt
-        zf2 = self.zb
-        zw = self.zw
+        zG = self.elastic_neutral_axis()
+        zf1 = self.zt - zG
+        zf2 = self.zb - zG
+        zw = self.zw - zG
         Izf1 = self.Izt
         Izf2 = self.Izb
         Izw = self.Izw
diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index f3ae02c..ca2a039 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -467,9 +467,10 @@ class WISection(SteelSection):
             Book 2, 7.1.2 Mono-symmetrical I cross-sections
         """
 
-        zf1 = self.zt
-        zf2 = self.zb
-        zw = self.zw
+        zG = self.elastic_neutral_axis()
+        zf1 = self.zt - zG
+        zf2 = self.zb - zG
+        zw = self.zw - zG
         Izf1 = self.Izt
         Izf2 = self.Izb
         Izw = self.Izw
-- 
2.43.0


From 60bf4caf7772ff12875e929f0b5e1faa48ff6353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 138/172] fix: critical moment of monosymmetric sections takes
 the load position into account

---
 metku/structures/steel/steel_member.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 7e46f92..3e61235 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -442,7 +442,6 @@ class SteelMember:
             Mcr = part1 * (part2 - part3)
 
         elif self.symmetry == 'mono':
-            za = 0
             zs = self.profile.zs
             zg = za - zs
 
-- 
2.43.0


From f5fae2911b5f46f49a16682b4bb6c6c714cd6eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 139/172] fix: class of welded I-section flanges and webs
 follows the stresses, also for unequal flanges and hogging bending

---
 metku/sections/steel/wi.py | 64 ++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index ca2a039..f4f0192 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -490,18 +490,35 @@ class WISection(SteelSection):
 
         return zj
 
+    def edge_stresses(self, z_bottom, z_top):
+        """ Elastic stresses of the design forces at two distances from the
+            bottom of the section, compression is positive
+        """
+        zel = self.elastic_neutral_axis()
+        return [-self.Ned / self.A + self.Med[0] * (z - zel) / self.I[0]
+                for z in (z_bottom, z_top)]
+
     def flange_class(self, verb=False):
-        """ Determine class of compressed flange """
+        """ Determine class of compressed flanges. Without loads,
+            the top flange is taken as compressed.
+        """
         # cf = 0.5*(self.b - self.tw) - self.r
-        rf = self.cf_top / self.tt
-        cFlange = en1993_1_1.outstand_part_in_compression(rf, self.eps)
-
-        self.flanges_class[0] = cFlange
+        rf = [self.cf_top / self.tt, self.cf_bottom / self.tb]
+        self.flanges_class = [en1993_1_1.outstand_part_in_compression(r, self.eps) for r in rf]
+
+        s_bottom, s_top = self.edge_stresses(0.5 * self.tb, self.h - 0.5 * self.tt)
+        if s_bottom <= 0:
+            cFlange = self.flanges_class[0]
+        elif s_top <= 0:
+            cFlange = self.flanges_class[1]
+        else:
+            cFlange = max(self.flanges_class)
 
         if verb:
             print("Flange classification (outstand element):")
-            print("cf = {0:4.2f}, tf = {1:4.2f}".format(self.cf_top, self.tt))
-            print("cf/tf = {0:4.2f}".format(rf))
+            print("Top: cf = {0:4.2f}, tf = {1:4.2f}".format(self.cf_top, self.tt))
+            print("Bottom: cf = {0:4.2f}, tf = {1:4.2f}".format(self.cf_bottom, self.tb))
+            print("cf/tf = {0:4.2f}, {1:4.2f}".format(*rf))
             print("Flange class = {0}".format(cFlange))
 
         return cFlange
@@ -536,6 +553,11 @@ class WISection(SteelSection):
             alpha = (self.h - self.tt - math.sqrt(2) * self.weld_throat - dpl) \
                     / self.cw
 
+        if self.Med[0] < 0 and psi != 0:
+            # The bottom part of the web is compressed
+            alpha = 1 - alpha
+            psi = 1 / psi
+
         cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, alpha, psi)
 
         self.web_class = cWeb
@@ -552,22 +574,32 @@ class WISection(SteelSection):
         return cWeb
 
     def web_class_comp_bend(self, Ned, verb=False):
-        """ Determine class of web in combined bending and compression 
-            TODO tarkista tämä
+        """ Determine class of web in combined bending and compression
+            The axial force is taken as given: the compressed part of the web
+            is that of pure bending, grown by the axial force.
         """
-        # cw = self.h-2*self.tf-2*self.r
-        rw = self.hw / self.tw
-        Ac = 0.5 * (self.A + Ned / (self.fy / constants.gammaM0))
-        a = Ac / self.A
-        p = -1
+        rw = self.cw / self.tw
+        a = (self.h - self.tt - math.sqrt(2) * self.weld_throat
+             - self.plastic_neutral_axis()) / self.cw
+        if self.Med[0] < 0:
+            a = 1 - a
+        a -= Ned / (2 * self.cw * self.tw * self.fy / constants.gammaM0)
+        a = min(max(a, 0), 1)
+
+        stresses = self.edge_stresses(self.tb, self.h - self.tt)
+        if max(stresses) > 0:
+            p = min(stresses) / max(stresses)
+        else:
+            # The whole web is in tension
+            a, p = 0, -1
 
         cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, a, p)
         self.web_class = cWeb
         if verb:
             print("Web classification (internal part in compression and "
                   "bending):")
-            print("hw = {0:4.2f}, tw = {1:4.2f}".format(self.hw, self.tw))
-            print("hw/tw = {0:4.2f}".format(rw))
+            print("cw = {0:4.2f}, tw = {1:4.2f}".format(self.cw, self.tw))
+            print("cw/tw = {0:4.2f}".format(rw))
             print("Web class = {0}".format(cWeb))
 
         return cWeb
-- 
2.43.0


From 82e0dad70b4f97f83ee864cd92f45a214703b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 140/172] fix: effective second moment of area of welded
 I-sections uses the effective flanges

---
 metku/sections/steel/wi.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index f4f0192..979ce47 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -373,10 +373,16 @@ class WISection(SteelSection):
         return MRd, C
 
     def effective_second_moment_area_y(self, psi_init: float = -1) -> float:
+        # The flange in tension is fully effective
         if psi_init < 0:
             self.effective_flange('top')
+            self.eff_bottom = {'rho': 1.0, 'bneg': 0.0}
         else:
             self.effective_flange('bottom')
+            self.eff_top = {'rho': 1.0, 'bneg': 0.0}
+        # Effective widths of the flanges
+        b_t = self.bt - 2 * self.eff_top['bneg']
+        b_b = self.bb - 2 * self.eff_bottom['bneg']
         psi = psi_init
         # For -loop range(5) is a conservative guess for neutral axis convergence
         for i in range(5):
@@ -391,8 +397,8 @@ class WISection(SteelSection):
             h_e2 = self.cw + weld_h - self.eff_web['bneg'] - e1
             h_all = [h_t, h_b, h_e1, h_e2]
             # Areas
-            A_t = self.bt * self.tt
-            A_b = self.bb * self.tb
+            A_t = b_t * self.tt
+            A_b = b_b * self.tb
             A_e1 = h_e1 * self.tw
             A_e2 = h_e2 * self.tw
             A_all = [A_t, A_b, A_e1, A_e2]
@@ -403,8 +409,8 @@ class WISection(SteelSection):
             z_e2 = self.tb + h_e2 / 2
             z_all = [z_t, z_b, z_e1, z_e2]
             # Second moment of areas
-            I_t = self.bt * h_t ** 3 / 12
-            I_b = self.bb * h_b ** 3 / 12
+            I_t = b_t * h_t ** 3 / 12
+            I_b = b_b * h_b ** 3 / 12
             I_e1 = self.tw * h_e1 ** 3 / 12
             I_e2 = self.tw * h_e2 ** 3 / 12
             I_all = [I_t, I_b, I_e1, I_e2]
-- 
2.43.0


From 2458fa42ebd89bf8f49ab2c06b987ecf6e7a1054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 141/172] fix: line loads of frame2d vary along the member also
 with unequal elements, and use their factor

---
 metku/frame2d/frame2d.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 99abf01..cacbd86 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -3654,20 +3654,20 @@ class LineLoad(Load):
 
     def add_load(self, fem_model):
         """ Add the load to the FEM model """
-        # k = self.calc_k()
-        v0, v1 = self.values
-        qvals = np.linspace(v0, v1, len(self.member.elements) + 1)
-        for i, elem_id in enumerate(self.member.elements.keys()):
-            # v1 = (i * k) + v0
+        v0, v1 = self.f * self.values
+        c0 = np.asarray(self.member.coordinates[0])
+        L = self.member.length
+        for elem_id, element in self.member.elements.items():
+            # values of the load at the ends of the element
+            qvals = [v0 + (v1 - v0) * np.linalg.norm(node.coord - c0) / L
+                     for node in element.nodes]
             load = fem.LineLoad(self.load_id,
                                 fem_model.elements[elem_id],
                                 [0.0, 1.0],
-                                [qvals[i], qvals[i + 1]],
-                                # [v0, v1],
+                                qvals,
                                 self.direction,
                                 self.coord_sys)
             fem_model.add_load(load)
-            v0 = v1
 
 
 # --------------------------- SUPPORT CLASSES ----------------------------
-- 
2.43.0


From c2d2a270bcc4b90a0271b11e341e13dae5b5fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 142/172] fix: largest forces of frame2d members include shear
 and both ends of all elements

---
 metku/frame2d/frame2d.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index cacbd86..df1ede3 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -1621,9 +1621,7 @@ class FrameMember:
         return unit
 
     def get_absmax_force_value(self, load_id, force='fx'):
-        F0 = [list(self.elements.values())[0].fint[load_id][force][0]]
-        F = [el.fint[load_id][force][1] for el in self.elements.values()]
-        F.extend(F0)
+        F = [f for el in self.elements.values() for f in el.fint[load_id][force]]
         F_min = min(F)
         F_max = max(F)
         if F_max > abs(F_min):
@@ -1644,7 +1642,7 @@ class FrameMember:
     def VEd(self):
         VEds = {}
         for load_id in self.load_ids:
-            VEd = self.get_absmax_force_value(load_id, 'fy')
+            VEd = self.get_absmax_force_value(load_id, 'fz')
             VEds[load_id] = VEd
         return VEds
 
-- 
2.43.0


From f27cf809695fa377ba903589fc276a612eb4bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 143/172] fix: frame2d members that cross are joined also when
 the crossing is not a round coordinate

---
 metku/frame2d/frame2d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index df1ede3..bd38a39 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2715,16 +2715,17 @@ class FrameMember:
         # The line between start_node and end_node is
         # x(t) = start_node + t*(end_node-start_node), t \in [0,1]
         # If we can find t \in [0,1], for which x(t) = coordinate, then
-        # the point and member intersect.
+        # the point and member intersect, within the precision of coordinates.
+        tol = 10 ** -PREC / self.length
         if abs(x2 - x1) > 1e-8:
             t1 = (x - x1) / (x2 - x1)
-            if 0 <= t1 <= 1 and abs(y1 + t1 * (y2 - y1) - y) < 1e-8:
+            if -tol <= t1 <= 1 + tol and abs(y1 + t1 * (y2 - y1) - y) < 10 ** -PREC:
                 res = True
 
         else:
             # Member is vertical
             t1 = (y - y1) / (y2 - y1)
-            if 0 <= t1 <= 1 and abs(x1 - x) < 1e-8:
+            if -tol <= t1 <= 1 + tol and abs(x1 - x) < 10 ** -PREC:
                 res = True
 
         return res
-- 
2.43.0


From b92d29b93d31c370d11433b16d87c1d6b2fa24d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 144/172] fix: nodes of frame2d members stay on the member when
 the model is updated or the member moved

---
 metku/frame2d/frame2d.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index bd38a39..8603956 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2138,9 +2138,19 @@ class FrameMember:
         self.nodal_coordinates.sort(
             key=lambda c: np.linalg.norm(np.asarray(c0) - np.asarray(c)))
 
+        """ Each point is there only once """
+        coords = self.nodal_coordinates[:1]
+        for coord in self.nodal_coordinates[1:]:
+            if np.linalg.norm(np.subtract(coord, coords[-1])) > 10 ** -PREC:
+                coords.append(coord)
+
         if self.is_generated:
-            for j, node in enumerate(self.nodes.values()):
-                node.coord = np.array(self.nodal_coordinates[j])
+            """ Nodes keep their relative locations on the member """
+            coords = [list(self.to_global(loc)) for loc in self.node_locs]
+            for node, coord in zip(self.nodes.values(), coords):
+                node.coord = np.array(coord)
+
+        self.nodal_coordinates[:] = coords
 
     def add_node_coord(self, coord):
         """
@@ -2191,9 +2201,14 @@ class FrameMember:
             if not self.n1:
                 self.n1 = fem_model.nodes[idx]
                 # Add last node
-        if not self.n2 and idx:
+        if not self.n2 and idx is not None:
             self.n2 = fem_model.nodes[idx]
 
+        # Relative locations of the nodes
+        c0 = np.asarray(self.coordinates[0])
+        self.node_locs = [np.linalg.norm(node.coord - c0) / self.length
+                          for node in self.nodes.values()]
+
     def generate_elements(self, fem_model):
         """ Generates elements between nodes
             For beam member's first and last element, creates semi-rigid end
-- 
2.43.0


From 984706f7dda3c72a248db455b8582d89377addc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 145/172] fix: frame2d members are optimized for the forces of
 every load case

---
 metku/frame2d/frame2d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 8603956..6111246 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2664,6 +2664,7 @@ class FrameMember:
             self.profile = profile
 
             for load_id in self.load_ids:
+                self.assign_forces(load_id)
                 self.design(load_id)
 
             if all(r <= 1.0 for r in self.r.values()):  # <= 1.0:
-- 
2.43.0


From d36d1b0410fa35b901c72d92bf7cd9ba892c5aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 146/172] fix: optimization of frame2d members goes on until no
 member changes

---
 metku/frame2d/frame2d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 6111246..70c9c60 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -545,8 +545,9 @@ class Frame2D:
 
         while PROFILES_CHANGED and k < kmax:
             self.calculate('all', 'REM')
-            for member in self.members.values():
-                PROFILES_CHANGED = member.optimum_design(prof_type)
+            changes = [member.optimum_design(prof_type)
+                       for member in self.members.values()]
+            PROFILES_CHANGED = any(changes)
 
             k += 1
 
-- 
2.43.0


From d10409054ee7ce7f26cef85ddff17b6f407423f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 147/172] fix: optimum design of frame2d members with square
 tubes stays with square tubes

---
 metku/frame2d/frame2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 70c9c60..a9b3385 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2637,10 +2637,10 @@ class FrameMember:
                 prof_type = "H"
             elif isinstance(self.cross_section, HEB):
                 prof_type = "H"
-            elif isinstance(self.cross_section, RHS):
-                prof_type = "RHS"
             elif isinstance(self.cross_section, SHS):
                 prof_type = "SHS"
+            elif isinstance(self.cross_section, RHS):
+                prof_type = "RHS"
             elif isinstance(self.cross_section, CHS):
                 prof_type = "CHS"
             else:
-- 
2.43.0


From 677416edd231a022c2862602d381e48bb79e620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 148/172] fix: frame2d members with square tubes named by both
 sides are square tubes

---
 metku/frame2d/frame2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index a9b3385..8170c24 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -1961,7 +1961,7 @@ class FrameMember:
             elif profile_type == 'CHS':
                 self.cross_section = CHS(H, T, self.fy)
 
-            elif profile_type == 'RHS' or (profile_type == "SHS" and len(vals) == 3):
+            elif profile_type == 'RHS' or (profile_type == "SHS" and len(vals) == 3 and H != B):
                 self.cross_section = RHS(H, B, T, self.fy)
 
             elif profile_type == 'SHS':
-- 
2.43.0


From 82dabce20dca39b90989a65ad856148bb45faefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:25 +0000
Subject: [PATCH 149/172] fix: principal axes of open profiles use powers

---
 metku/eurocodes/en1993/en1993_1_3/open_prof.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/open_prof.py b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
index 919ecb1..261dbe6 100644
--- a/metku/eurocodes/en1993/en1993_1_3/open_prof.py
+++ b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
@@ -229,12 +229,12 @@ class OpenProf:
         Iyz = self.product_moment_gc()
         d = Iz-Iy
         if abs(d) > 1e-8:
-            a = .5*np.atan(2*Iyz/d)
+            a = .5*np.arctan(2*Iyz/d)
         else:
             a = 0
             
-        I1 = 0.5*(Iy+Iz+np.sqrt(d^2+4*Iyz^2))
-        I2 = .5*(Iy+Iz-np.sqrt(d^2+4*Iyz^2))
+        I1 = 0.5*(Iy+Iz+np.sqrt(d**2+4*Iyz**2))
+        I2 = .5*(Iy+Iz-np.sqrt(d**2+4*Iyz**2))
         
         return [I1,I2], a
     
-- 
2.43.0


From c0f205121cab049099f1b54180cae99f9f5196d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 150/172] fix: splitting a plate of an open profile keeps its
 list of thicknesses

---
 metku/eurocodes/en1993/en1993_1_3/open_prof.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/eurocodes/en1993/en1993_1_3/open_prof.py b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
index 261dbe6..49cfbab 100644
--- a/metku/eurocodes/en1993/en1993_1_3/open_prof.py
+++ b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
@@ -338,6 +338,7 @@ class OpenProf:
         self.segments.remove(seg)
         self.segments.insert(n,new_seg1)
         self.segments.insert(n+1,new_seg2)
+        self.t = np.insert(self.t,n,self.t[n])
     
     def export_cufsm(self):
         """ Write data to be exported to cufsm in Matlab """
-- 
2.43.0


From 84a01fa4b33a11d1c6abcef430fa87e3e5b4bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 151/172] fix: factors k3, k8, k9 and k10 of the web resistance
 to transverse forces

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index df7dfdb..800a058 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -173,7 +173,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         return min(max(1.15-0.15*r/t,0.5),1.0)
     
     def k3(phi):
-        return 0.7 + 0.3*(phi/90**2)
+        return 0.7 + 0.3*(phi/90)**2
 
     def k4(k):
         return 1.22-0.22*k
@@ -201,13 +201,13 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         if hw_t < 66.5:
             return 1/k
         else:
-            return (1.1-hw_t/665)*k
+            return (1.1-hw_t/665)/k
     
     def k9(t):
-        return 0.82 + 0.15*t/0.19
+        return 0.82 + 0.15*t/1.9
     
     def k10(hw,t,k):
-        return (0.98-hw/t/865)*k
+        return (0.98-hw/t/865)/k
     
     def k11(t):
         return 0.64+0.31*t/1.9
-- 
2.43.0


From 2adc2aca5c67397f1247ce80eca532de69cfccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 152/172] fix: transverse resistance of webs prevented from
 rotating

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index 800a058..1b9f22d 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -222,7 +222,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         # of the member.
         if c <= 1.5*hw:
             if web_stiffeners:
-                C0 = k7(hw,t)*(8.8+1.1*np.sqrt(ss/t))
+                C = k7(hw,t)*(8.8+1.1*np.sqrt(ss/t))
             else:
                 # Load is close to the end of the member
                 C0 = k1(k)*k2(r,t)*k3(phi)
@@ -236,7 +236,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
                         C = C0*(5.92-hw/t/132)*(0.71+0.015*ss_t)
         else:
             if web_stiffeners:
-                C0 = k5_star(k)*k6(t)*(13.2+2.87*np.sqrt(ss/t))                
+                C = k5_star(k)*k6(t)*(13.2+2.87*np.sqrt(ss/t))                
             else:
                 C0 = k3(phi)*k4(k)*k5(r,t)
                 ss_t = ss/t
@@ -252,14 +252,14 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         # the two forces separately.
         if c <= 1.5*hw:
             if web_stiffeners:
-                C0 = k10(hw,t,k)*k11(t)*(8.8+1.1*np.sqrt(ss/t))
+                C = k10(hw,t,k)*k11(t)*(8.8+1.1*np.sqrt(ss/t))
             else:
                 # Load is close to the end of the member
                 C0 = k1(k)*k2(r,t)*k3(phi)
                 C = C0*(6.66-hw/t/64)*(1+0.01*ss/t)
         else:
             if web_stiffeners:
-                C0 = k8(hw,t,k)*k9(t)*(13.2+2.87*np.sqrt(ss/t))
+                C = k8(hw,t,k)*k9(t)*(13.2+2.87*np.sqrt(ss/t))
             else:
                 C0 = k3(phi)*k4(k)*k5(r,t)
                 C = C0*(21.0-hw/t/16.3)*(1+0.0013*ss/t)
-- 
2.43.0


From f1ec371f04aefd6fde96845cb4249a54639647f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 153/172] fix: validity of screws compares the edge distance
 with the diameter

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index 1b9f22d..bc9e894 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -386,7 +386,7 @@ def RwRd_two_webs(fyb,r,t,phi,hw,ss,verb=False,code='old',**kwargs):
 """ Table 8.2: Design resistances for self-tapping screws """
 def screw_validity(e1,e2,p1,p2,d,t,t1):
     """ Check the conditions on the range of validity """
-    if e1 >= 3*d and e2 >= 1.5 and p1 >= 3*d and p2 >= 3*d and d <= 8.0 and d >= 3.0:
+    if e1 >= 3*d and e2 >= 1.5*d and p1 >= 3*d and p2 >= 3*d and d <= 8.0 and d >= 3.0:
         return True
     else:
         return False
-- 
2.43.0


From 21136a00be5c78d9ac6671e44089a28d3cbbda29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 154/172] fix: rotational stiffness CD,A for negative position
 and sheets between 0.75 and 1.0 mm

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index bc9e894..11451fb 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -533,15 +533,9 @@ def CD_A(ba,tnom,position,A,bT,bR,load='gravity'):
     
     if load == 'gravity':
         if position == 'pos':
-            if tnom == 0.75:
-                kA = 1.0+(A-1.0)*0.08
-            elif tnom >= 1.0:
-                kA = 1.0+(A-1.0)*0.095
+            kA = 1.0+(A-1.0)*np.interp(tnom,[0.75,1.0],[0.08,0.095])
         else:
-            if tnom == 0.75:
-                kA = 1.0+(A-1.0)*0.16
-            elif tnom >= 1.0:
-                kA = 1.0+(A-1.0)*0.095
+            kA = 1.0+(A-1.0)*np.interp(tnom,[0.75,1.0],[0.16,0.095])
     else:
         kA = 1.0
     
@@ -555,7 +549,7 @@ def CD_A(ba,tnom,position,A,bT,bR,load='gravity'):
             C100 = 5.2
         else:
             bT_max = 120
-            C10 = 3.1
+            C100 = 3.1
     else:
         C100 = 2.6
         bT_max = 40
-- 
2.43.0


From d6666fbd9cad6aa3e18919089794a3348a16175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 155/172] fix: web length and pitch of trapezoidal sheets

---
 metku/eurocodes/en1993/en1993_1_3/trapezoidal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py b/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py
index 21d213f..846418c 100644
--- a/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py
+++ b/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py
@@ -89,12 +89,12 @@ class TrapezoidalSheet:
     @property
     def sw(self):
         """ Length of one web """
-        return self.hw*np.sin(self.angle_rad)
+        return self.hw/np.sin(self.angle_rad)
     
     @property
     def pitch(self):
         """ Pitch of corrugations """
-        return self.bb+self.bt+2*self.h*np.cos(self.angle_rad)
+        return self.bb+self.bt+2*self.hw/np.tan(self.angle_rad)
     
     @property
     def width(self):
-- 
2.43.0


From 00aefbb2f387d43081694945aada5b5180a74bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 156/172] fix: stressed skin strengths are returned and
 sheeting fastened through crests works

---
 metku/structures/steel/stressed_skin.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/structures/steel/stressed_skin.py b/metku/structures/steel/stressed_skin.py
index 75ed58d..700f0b3 100644
--- a/metku/structures/steel/stressed_skin.py
+++ b/metku/structures/steel/stressed_skin.py
@@ -163,7 +163,7 @@ class StressedSkin:
         if self.seam_fastener['loc'] == 'trough':
             beta3 = 1.0
         else:
-            beta3 = (self.nf-1)/self.nf
+            beta3 = (self.nf()-1)/self.nf()
 
         return beta3
 
@@ -408,6 +408,8 @@ class StressedSkinRafters(StressedSkin):
             print(f"nsc = {nsc:.0f} ")
             print(f"V = {V*1e-3:.2f} kN")
         
+        return V
+        
     def sheet_rafter_fastener_strength(self,verb=False):
         """ ECCS (1995), 5.8.3.1 """
         
@@ -445,6 +447,8 @@ class StressedSkinRafters(StressedSkin):
             print(f"fy = {fy:.2f} MPa ")
             print(f"d = {d:.2f} mm ")
             print(f"V = {V*1e-3:.2f} kN")
+        
+        return V
 
     def profile_distortion(self,verb=True):
         """ Shear flexibility for profile distortion,
-- 
2.43.0


From 665efc25e8f5888c4db22ed2ad3b5ad88aa675c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 157/172] fix: linear formulations of trusses can be created

---
 metku/optimization/problems/truss_milp.py        |  9 +++++----
 .../optimization/problems/truss_optimization.py  | 16 ++++++++--------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index 86fcf23..1987789 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -25,6 +25,7 @@ from metku.frame2d.frame2d import SteelBeam
 from metku.frame2d.simple_truss import SimpleTruss, three_bar_truss, ten_bar_truss
 from metku.sections.steel import SteelSection
 import metku.optimization.structopt as sop
+from metku.optimization.objective import LinearObjective
 from metku.sections.steel.catalogue import ipe_profiles, shs_profiles, hea_profiles
 from metku.sections.steel import ISection, WISection, RHS, SHS
 from metku.optimization.solvers.lp import LP
@@ -170,7 +171,7 @@ class TrussMILP:
                 for j, p in enumerate(self.members[i]['profiles']):
                     self.vars['force'][i][k].append(
                         sop.Variable(
-                            name="N({0:.0f},{1:.0f},{2:.0f})".format(i,j,lc),
+                            name="N({0:.0f},{1:.0f},{2})".format(i,j,lc),
                             lb=self.members[i]['Nlb'][j],
                             ub=self.members[i]['Nub'][j],
                             target=None,value=1))
@@ -511,7 +512,7 @@ class TrussMILP:
         """ Objective function: truss weight.
             This is the same for all problem types.
         """
-        obj = sop.LinearObjective("Weight", self.weight_obj())
+        obj = LinearObjective("Weight", self.weight_obj())
         self.milp.add(obj)
         
         ndof = self.ndof
@@ -570,14 +571,14 @@ class TrussMILP:
                 # The first 'nmem' variables are the cross-sectional areas.
                 #    Insert the current row of the statics matrix as the coefficient
                 #    vector.            
-                self.milp.add(sop.LinearConstraint(b,pi,con_type="=", name="EQ-{0:.0g}-LC{1:.0g}".format(i,lc)))
+                self.milp.add(sop.LinearConstraint(b,pi,con_type="=", name="EQ-{0:.0g}-LC{1}".format(i,lc)))
         
         # Constraints: compatibility and strength
         self.compatibility_constraints(B)
         self.strength_constraints()
                 
         
-        return lp
+        return self.milp
     
     def substitute_design(self,x):
         """ Substitutes the design in 'x' to the truss structure """
diff --git a/metku/optimization/problems/truss_optimization.py b/metku/optimization/problems/truss_optimization.py
index 3b59bbb..9a1a56f 100644
--- a/metku/optimization/problems/truss_optimization.py
+++ b/metku/optimization/problems/truss_optimization.py
@@ -650,10 +650,10 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
         Aub = Aub*np.ones(nmem)
         
     if slb is None:
-        slb = [mem.fy for i, mem in t.members.items()]
+        slb = [mem.fy for i, mem in truss.members.items()]
     
     if sub is None:
-        sub = [mem.fy for i, mem in t.members.items()]
+        sub = [mem.fy for i, mem in truss.members.items()]
     
     if not (isinstance(slb,np.ndarray) or isinstance(slb,list)):        
         slb = slb*np.ones(nmem)
@@ -679,7 +679,7 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
     """ Design variables: member forces """
     for lc in truss.load_cases:
         for i, mem in truss.members.items():
-            dvars.append(Variable(name="N{0:.0g}{1:.0g}".format(lc,i),lb=-1e9,ub=1e9,
+            dvars.append(Variable(name="N{0}{1:.0g}".format(lc,i),lb=-1e9,ub=1e9,
                                   target=None,
                                   value=1))
             c.append(0)
@@ -707,7 +707,7 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
                 vector. 
             """
             a[(j+1)*nmem:(j+2)*nmem] = b            
-            lp.add(LinearConstraint(a,pi,con_type="=", name="EQ-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(a,pi,con_type="=", name="EQ-{0:.0g}-LC{1}".format(i,lc)))
     
     """ Constraints: stress constraints 
         These are expressed in terms of member forces, i.e.
@@ -718,11 +718,11 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
             a = np.zeros(lp.nvars())
             a[i] = -sub[i]
             a[(j+1)*nmem+i] = 1
-            lp.add(LinearConstraint(a,0,con_type="<", name="STR-UB-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(a,0,con_type="<", name="STR-UB-{0:.0g}-LC{1}".format(i,lc)))
             
             a[i] = -slb[i]
             a[(j+1)*nmem+i] = -1
-            lp.add(LinearConstraint(a,0,con_type="<", name="STR-LB-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(a,0,con_type="<", name="STR-LB-{0:.0g}-LC{1}".format(i,lc)))
     
     return lp
 
@@ -802,7 +802,7 @@ def truss_milp(truss,profiles,ulb=-1e3,uub=1e3):
     for lc in truss.load_cases:
         for i, mem in truss.members.items():            
             for j in range(nprof):
-                dvars.append(Variable(name="N({0:.0f},{1:.0f},{2:.0f})".format(i,j,lc),lb=Nlb[j,i],ub=Nub[j,i],
+                dvars.append(Variable(name="N({0:.0f},{1:.0f},{2})".format(i,j,lc),lb=Nlb[j,i],ub=Nub[j,i],
                                           target=None,value=1))
                 c.append(0)
     
@@ -854,7 +854,7 @@ def truss_milp(truss,profiles,ulb=-1e3,uub=1e3):
                 Insert the current row of the statics matrix as the coefficient
                 vector. 
             """
-            lp.add(LinearConstraint(b,pi,con_type="=", name="EQ-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(b,pi,con_type="=", name="EQ-{0:.0g}-LC{1}".format(i,lc)))
     
     """ Constraints: compatibility conditions """
     nx = lp.nvars()
-- 
2.43.0


From 5c9d772019650fb4e2e3919b33218e3ed297400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 158/172] fix: equilibrium of every load case concerns its own
 member forces in linear formulations

---
 metku/optimization/problems/truss_milp.py        | 16 +++++++++-------
 .../optimization/problems/truss_optimization.py  | 13 +++++++------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index 1987789..afac403 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -552,17 +552,19 @@ class TrussMILP:
         # Create augmented statics matrix, whose columns correspond to
         # the columns of the original statics matrix copied as many times
         # as there are profile variables for each member.        
-        B0 = np.zeros([ndof,nvars])
         B = self.statics_matrix
         
-        # TODO! This has to be accommodated for several load cases!
         start = self.nprof_vars
-        for i, yvars in enumerate(self.vars['profile']):
-            end = start + len(yvars)
-            B0[:,start:end] += np.reshape(B[:,i],(ndof,1))
-            start = end
-                            
         for j, lc in enumerate(self.structure.load_cases):
+            # The force variables of load case 'j' are followed by its
+            # displacement variables.
+            B0 = np.zeros([ndof,nvars])
+            for i, yvars in enumerate(self.vars['profile']):
+                end = start + len(yvars)
+                B0[:,start:end] += np.reshape(B[:,i],(ndof,1))
+                start = end
+            start += ndof
+            
             # Load vector for the load case, including only unsupported dofs """
             p = np.delete(self.structure.f.global_load_vector(lc),self.structure.f.supp_dofs)*self.scaling['N']
             # a is a placeholder for the coefficient vector of a linear constraint """
diff --git a/metku/optimization/problems/truss_optimization.py b/metku/optimization/problems/truss_optimization.py
index 9a1a56f..51dfcf4 100644
--- a/metku/optimization/problems/truss_optimization.py
+++ b/metku/optimization/problems/truss_optimization.py
@@ -838,13 +838,14 @@ def truss_milp(truss,profiles,ulb=-1e3,uub=1e3):
         lp.add(LinearConstraint(a,1,con_type="=", name="Sum y({0:.0f},j)=1".format(i)))
     
     """ Constraints: equilibrium equations """
-    B0 = np.zeros([ndof,lp.nvars()])
-    
-    for i in range(nmem):
-        B0[:,(nmem*nprof + i*nprof):(nmem*nprof + (i+1)*nprof)] += np.reshape(B[:,i],(ndof,1))
-        
-    
     for j, lc in enumerate(truss.load_cases):
+        """ The force variables of load case 'j' follow those of the previous load cases """
+        B0 = np.zeros([ndof,lp.nvars()])
+        start = (j+1)*nmem*nprof
+        
+        for i in range(nmem):
+            B0[:,(start + i*nprof):(start + (i+1)*nprof)] += np.reshape(B[:,i],(ndof,1))
+        
         """ Load vector for the load case, including only unsupported dofs """
         p = np.delete(truss.f.global_load_vector(lc),truss.f.supp_dofs)*Nscale
         """ a is a placeholder for the coefficient vector of a linear constraint """
-- 
2.43.0


From 7ed4cdf55ba75615e81c1556d4096b72cc07023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 159/172] fix: scaled mixed-integer formulation of trusses has
 consistent resistances and bounds

---
 metku/optimization/problems/truss_milp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index afac403..0fcccee 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -77,7 +77,7 @@ class TrussMILP:
         self.milp = None
         
         # Resistance of cross-sections
-        self.NRd = [np.floor(p.NRd)*self.scaling['A'] for p in profiles]
+        self.NRd = [np.floor(p.NRd)*self.scaling['N'] for p in profiles]
     
         # Member data
         self.members = [{'L':0.0,'k0':0.0,'profiles':[],
@@ -142,8 +142,8 @@ class TrussMILP:
             # i) calculate buckling resistance
             # ii) create profile selection variable
             # iii) calculate force variable bounds
-            nlb = np.sum(np.maximum(B[:,i],0)*ulb) + np.sum(np.minimum(B[:,i],0)*uub)
-            nub = np.sum(np.minimum(B[:,i],0)*ulb) + np.sum(np.maximum(B[:,i],0)*uub)
+            nlb = np.sum(np.maximum(B[:,i],0)*self.ulb) + np.sum(np.minimum(B[:,i],0)*self.uub)
+            nub = np.sum(np.minimum(B[:,i],0)*self.ulb) + np.sum(np.maximum(B[:,i],0)*self.uub)
             for j, p in enumerate(self.members[i]['profiles']):
                 mem.profile = p
                 # Calculate buckling resistance for section 'p'
@@ -183,7 +183,7 @@ class TrussMILP:
             for j in range(self.ndof):
                 self.vars['disp'][k].append(
                     sop.Variable(name="u({0:.0f},{1:.0f})".format(j,k),
-                                 lb=ulb,ub=uub,target=None,value=0.0))
+                                 lb=self.ulb,ub=self.uub,target=None,value=0.0))
                 self.__nvars += 1
                 #c.append(0)
         
-- 
2.43.0


From 592f1e310e7ee08acf903cff59e8fcfdb0901d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 160/172] fix: members at a vanishing node vanish in truss
 topology optimization

---
 metku/optimization/problems/truss_milp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index 0fcccee..3e00542 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -384,8 +384,8 @@ class TrussMILP:
         for j, node in enumerate(self.nodes):            
             for m in node['members']:
                 a = np.zeros(nx)
-                a[Zstart+j] = 1
-                a[Ystart+m] = -1
+                a[Zstart+j] = -1
+                a[Ystart+m] = 1
                 self.milp.add(sop.LinearConstraint(a,0,con_type="<",
                                                    name="Y[{0:.0f}] <= Z[{1:.0f}]".format(m,j)))
         
-- 
2.43.0


From 7f4916ccb68e1785551762855b56e2268b074928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 161/172] fix: compatibility of later load cases concerns their
 own member forces

---
 metku/optimization/problems/truss_milp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index 3e00542..b5cdb04 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -305,6 +305,8 @@ class TrussMILP:
                     
                     yndx += 1                
                     Nndx +=1
+            # Skip the displacement variables in variable indexing
+            Nndx += ndof
                     
     def strength_constraints(self):
         """ Constraints: member strength (stress constraints)
-- 
2.43.0


From 63cc7426fd6d7469af2c45e3cca6c30de38e3c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 162/172] fix: a vanished member comes back when its variable
 is one

---
 metku/optimization/variables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index fb6b60d..3012c89 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -192,6 +192,8 @@ class Variable:
                         if new_value == 1:
                             if prop == 'profile' or prop == 'cross_section':
                                 obj.__setattr__(prop, self.section)
+                            elif prop == 'member':
+                                obj.__setattr__('active', True)
                         else:
                             """ If the target of a binary variable is a member,
                                 the binary variable is a member existence variable
-- 
2.43.0


From 6956ebc548b4bbfbee989f26b536e0fb12e6d4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 163/172] fix: angle between brace and chord of a Truss2D joint
 on a sloping chord

---
 metku/truss2d/truss2d.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/metku/truss2d/truss2d.py b/metku/truss2d/truss2d.py
index 66b1062..059ebb2 100644
--- a/metku/truss2d/truss2d.py
+++ b/metku/truss2d/truss2d.py
@@ -1093,7 +1093,7 @@ class TrussJoint:
             webs = sorted(self.webs.values(), key=lambda w: w.top_loc)
         w1 = webs[0]
         theta1 = min(abs(w1.angle - self.chord.angle),
-                     abs(np.pi - w1.angle - self.chord.angle))
+                     np.pi - abs(w1.angle - self.chord.angle))
 
         return theta1
 
@@ -1106,7 +1106,7 @@ class TrussJoint:
                 webs = sorted(self.webs.values(), key=lambda w: w.top_loc)
             w2 = webs[1]
             theta2 = min(abs(w2.angle - self.chord.angle),
-                         abs(np.pi - w2.angle - self.chord.angle))
+                         np.pi - abs(w2.angle - self.chord.angle))
             return theta2
         return 0
 
@@ -1126,9 +1126,9 @@ class TrussJoint:
                 h2 = w2.h
                 h0 = self.chord.h
                 theta1 = min(abs(w1.angle - self.chord.angle),
-                             abs(np.pi - w1.angle - self.chord.angle))
+                             np.pi - abs(w1.angle - self.chord.angle))
                 theta2 = min(abs(w2.angle - self.chord.angle),
-                             abs(np.pi - w2.angle - self.chord.angle))
+                             np.pi - abs(w2.angle - self.chord.angle))
                 e = h1 / (2 * np.sin(theta1)) + h2 / (
                         2 * np.sin(theta2)) + self.__g1
                 e *= (np.sin(theta1) * np.sin(theta2)) / np.sin(
@@ -1189,9 +1189,9 @@ class TrussJoint:
             h0 = self.chord.h
 
             theta1 = min(abs(w1.angle - self.chord.angle),
-                         abs(np.pi - w1.angle - self.chord.angle))
+                         np.pi - abs(w1.angle - self.chord.angle))
             theta2 = min(abs(w2.angle - self.chord.angle),
-                         abs(np.pi - w2.angle - self.chord.angle))
+                         np.pi - abs(w2.angle - self.chord.angle))
 
             g = self.e + h0 / 2
             g *= np.sin(theta1 + theta2) / (np.sin(theta1) * np.sin(theta2))
@@ -1415,7 +1415,7 @@ class TrussJoint:
             self.nodal_coordinates['c1'] = c1
 
             theta1 = min(abs(w1.angle - self.chord.angle),
-                         abs(np.pi - w1.angle - self.chord.angle))
+                         np.pi - abs(w1.angle - self.chord.angle))
             # Set design class
             self.rhs_joint = RHSYJoint(self.chord.cross_section,
                                        w1.cross_section,
@@ -1441,9 +1441,9 @@ class TrussJoint:
             # Calculate distance between axis' intersection
             # and projection from web to chord's axis
             theta1 = min(abs(w1.angle - self.chord.angle),
-                         abs(np.pi - w1.angle - self.chord.angle))
+                         np.pi - abs(w1.angle - self.chord.angle))
             theta2 = min(abs(w2.angle - self.chord.angle),
-                         abs(np.pi - w2.angle - self.chord.angle))
+                         np.pi - abs(w2.angle - self.chord.angle))
 
             d1 = abs(self.chord.h / 2 / np.tan(theta1))
             c01 -= self.chord.unit * d1
-- 
2.43.0


From e2b118081e7c4bcdd947ee4c7911ec7206c99d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 164/172] fix: hinge at the second end of a truss member of one
 element

---
 metku/truss2d/truss2d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/truss2d/truss2d.py b/metku/truss2d/truss2d.py
index 059ebb2..8dff9dc 100644
--- a/metku/truss2d/truss2d.py
+++ b/metku/truss2d/truss2d.py
@@ -738,7 +738,9 @@ class TrussMember(FrameMember):
                     EBSemiRigidBeam(fem_model.nodes[n1], fem_model.nodes[n2], \
                                     self.cross_section, \
                                     self.material, \
-                                    rot_stiff=[self.Sj1, np.inf])
+                                    rot_stiff=[self.Sj1,
+                                               self.Sj2 if len(self.nodes) == 2
+                                               else np.inf])
             # EBSemiRigid -element, last element
             elif i == (len(self.nodes) - 2):
                 self.elements[index] = \
-- 
2.43.0


From ac06dbeabef408e1d2753b44af39d60bf7d52619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 165/172] fix: deflection of a truss with several bottom chords

---
 metku/truss2d/truss2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/truss2d/truss2d.py b/metku/truss2d/truss2d.py
index 8dff9dc..4f5dff0 100644
--- a/metku/truss2d/truss2d.py
+++ b/metku/truss2d/truss2d.py
@@ -492,8 +492,9 @@ class Truss2D(Frame2D):
             disps = bc.nodal_displacements[load_id]
             # disp = [dx, dy, rz]
             abs_Y = [abs(disp[1]) for disp in disps.values()]
+            abs_max = max(abs_max, max(abs_Y))
 
-        return max(abs_Y)
+        return abs_max
 
 
 class TrussMember(FrameMember):
-- 
2.43.0


From cbef909733c20bcb661fd9264bd70e19a2514827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 166/172] fix: gap elements of trusses continue each load of
 the chord once

---
 metku/raami/raami_plane_truss.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 30a8ac2..a32e377 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1490,9 +1490,11 @@ class SlopedTruss(PlaneTruss):
                 for joint in self.joints.values():
                     if isinstance(joint,TubularKGapJoint) and len(joint.chords) > 1:
                         # Add load to gap element
+                        # Each load of a chord continues in one load of the other chord
+                        loads2 = list(joint.chords[1].loads)
                         for load1 in joint.chords[0].loads:
-                            for load2 in joint.chords[1].loads:
-                                if load1.load_id == load2.load_id:
+                            for load2 in loads2:
+                                if load1.load_id == load2.load_id and load1.direction == load2.direction and load1.coord_sys == load2.coord_sys:
                                     if joint == self.ridge_joint:
                                         q = load1.f*load1.values[1]
                                         load = FEMLineLoad(load1.load_id,
@@ -1525,6 +1527,7 @@ class SlopedTruss(PlaneTruss):
                                                                load1.direction,
                                                                load1.coord_sys)                                            
                                             self.fem.add_load(load)
+                                    loads2.remove(load2)
                                     break
                                     
                 
-- 
2.43.0


From 18fb08c83ce342f03b88148ec53987b6316cf037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 167/172] fix: Vierendeel trusses have no joint angles to set

---
 metku/raami/raami_vierendeel.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index 0705f19..1c2782d 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -250,12 +250,7 @@ class VierendeelTruss(PlaneTruss):
             if not newJoint is None:
                 for chord in joint['chord']:                
                     chord.joints.append(newJoint)
-        
-        # Set the actual geometry for all joints
-        for joint in self.joints.values():  
-            angle = joint.brace_angle(joint.braces[0],geometry="actual")
-            joint.joint.angle = angle
-    
+
     def generate_uniform_load(self,q,chord="top",load_id=LoadIDs['ULS'],ltype='live'):
         """ Creates a uniform line load to one of the chords """
 
-- 
2.43.0


From 976595ce4fb30ff765e8a9f48dfff9eee78c442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 168/172] fix: ten and fifteen bar trusses of raami can be
 analysed

---
 metku/raami/raami_simple_truss.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/metku/raami/raami_simple_truss.py b/metku/raami/raami_simple_truss.py
index 948cc56..e614071 100644
--- a/metku/raami/raami_simple_truss.py
+++ b/metku/raami/raami_simple_truss.py
@@ -212,7 +212,8 @@ def ten_bar_truss(L=3000,F=200e3,
     t.add(XYHingedSupport(t.nodes[5]))
     
     t.generate_fem()
-    t.calculate(support_method='REM')
+    # General members have no resistance model
+    t.calculate(support_method='REM',design=truss_type=='steel')
     
     #t.plot()
     return t
@@ -244,16 +245,16 @@ def fifteen_bar_truss(L=360,h=120,P=10000):
     
     t = SimpleTruss(nodes,mems,profs)
         
-    t.add(PointLoad(nodes[7],[0,-P,0]))
+    t.add(PointLoad(t.nodes[7],[0,-P,0]))
             
-    t.add(XYHingedSupport(nodes[0]))
-    t.add(XYHingedSupport(nodes[4]))
+    t.add(XYHingedSupport(t.nodes[0]))
+    t.add(XYHingedSupport(t.nodes[4]))
     
-    t.generate()
+    t.generate_fem()
     
     #print(type(t.point_loads['PointLoad'].coordinate))
     
-    t.calculate(load_id='all',support_method="REM")
+    t.calculate(load_id='all',support_method="REM",design=False)
     
     t.plot()
     
-- 
2.43.0


From 23498b1322d2287891efa713778f69f633a09a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 169/172] fix: chords of portal trusses are hinged at the
 column face

---
 metku/raami/raami_portal_truss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index e0a02a8..1d300f1 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -450,7 +450,7 @@ class PortalTruss(Raami):
             n1 = self.column_joints[0].fem_nodes['xc']
             n2 = self.column_joints[0].chord.joints[0].fem_nodes['xc']                
             cs = self.column_joints[0].chord.cross_section
-            newElement = EBBeam(n2,n1,cs,cs.material)                
+            newElement = EBBeam(n1,n2,cs,cs.material)                
             self.fem.add_element(newElement)
             self.column_joints[0].chord.fem_elements.insert(0,newElement)
             
@@ -459,7 +459,7 @@ class PortalTruss(Raami):
             n2 = self.column_joints[1].fem_nodes['xc']
             n1 = self.column_joints[1].chord.joints[1].fem_nodes['xc']
             cs = self.column_joints[1].chord.cross_section
-            newElement = EBBeam(n2,n1,cs,cs.material)                
+            newElement = EBBeam(n1,n2,cs,cs.material)                
             self.fem.add_element(newElement)
             self.column_joints[1].chord.fem_elements.append(newElement)
         
-- 
2.43.0


From 4ed044b42402e741fdf02d12ab514be103b1d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 170/172] fix: portal frames put the loads of the truss on the
 model once

---
 metku/raami/raami_portal_truss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index 1d300f1..9349c7c 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -467,8 +467,10 @@ class PortalTruss(Raami):
         
         #self.fem.draw()
         
-        # Generate loads
+        # Generate loads. The loads of the truss are already in the model.
         for load in self.loads.values():
+            if any(load is other for other in self.truss.loads.values()):
+                continue
             load.add_load(self.fem)
             # Creates new loadcase if one with same load_id does not exist
             lcase_ids = [lc.load for lc in self.fem.loadcases.values()]
-- 
2.43.0


From 2f29113525400db35195b438566ab7693b2dcfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:16 +0000
Subject: [PATCH 171/172] fix: standard trusses of raami do not share their
 profiles

---
 metku/raami/raami_simple_truss.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_simple_truss.py b/metku/raami/raami_simple_truss.py
index e614071..48168d8 100644
--- a/metku/raami/raami_simple_truss.py
+++ b/metku/raami/raami_simple_truss.py
@@ -127,7 +127,7 @@ class SimpleTrussSteelMember(SteelFrameMember):
         super().__init__(nodes, section, mtype, mem_id, nel)
 
 def three_bar_truss(L=1000,F1=100e3,F2=100e3,nlc=1,
-                    profiles=[RHS(50,50,3),RHS(50,50,3),RHS(50,50,3)],
+                    profiles=None,
                     truss_type='general'):
     """ three bar truss example 
         truss_type = 'general' means that SimpleTrussMember members are created.
@@ -136,6 +136,10 @@ def three_bar_truss(L=1000,F1=100e3,F2=100e3,nlc=1,
     
     #from metku.sections.cross_sections import CrossSection
 
+    # Each truss has profiles of its own
+    if profiles is None:
+        profiles = [RHS(50,50,3) for i in range(3)]
+
     # Nodal coordinates    
     X = [[0,0],[-L,L],[0,L],[np.sqrt(3)*L,L]]
     
@@ -184,9 +188,12 @@ def three_bar_truss(L=1000,F1=100e3,F2=100e3,nlc=1,
     return t
         
 def ten_bar_truss(L=3000,F=200e3,
-                  profiles=[RHS(50,50,3) for i in range(10)],
+                  profiles=None,
                   truss_type='general'):
     """ Classic 10-bar truss """
+    # Each truss has profiles of its own
+    if profiles is None:
+        profiles = [RHS(50,50,3) for i in range(10)]
         
     nodes = []
     nodes.append([2 * L, L])
-- 
2.43.0


From 975547d24fb5dac34bc195fc0173cd93f44ad245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:40 +0000
Subject: [PATCH 172/172] fix: neighbourhood search returns value and design
 when time runs out

---
 metku/optimization/solvers/vns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/vns.py b/metku/optimization/solvers/vns.py
index 7acc9d1..421c0ea 100644
--- a/metku/optimization/solvers/vns.py
+++ b/metku/optimization/solvers/vns.py
@@ -333,7 +333,7 @@ class DiscreteVNS(OptSolver):
                 if time.time() - start_time >= maxtime:
                     print("MAXTIME")
                     i = maxiter
-                    return self.X, problem.obj(self.X)
+                    return problem.obj(self.X), self.X
                 if r != 1:
                     action = np.random.randint(-self.step_length,
                                                self.step_length + 1,
-- 
2.43.0

