From 533b3b3fd764cd3e52e5ffa08d8db0bfbc56be2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:47 +0000
Subject: [PATCH 01/76] fix: skew() with a single angle was ignored

---
 svgio/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 11887ce..8cab65c 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2126,7 +2126,8 @@ class Matrix:
                 angle_a = Angle.parse(params[0])
                 try:
                     angle_b = Angle.parse(params[1])
-                except IndexError:  # this isn't valid.
+                except IndexError:  # the second angle defaults to zero.
+                    self.pre_skew(angle_a)
                     continue
                 try:
                     x_param = Length(params[2]).value()
-- 
2.43.0


From ba4e93c4954b96f9689f3ff51d4872d70f7eafe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:41 +0000
Subject: [PATCH 02/76] fix: multiplying transform text by a Matrix failed with
 AttributeError

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 8cab65c..6ef92f7 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1991,7 +1991,7 @@ class Matrix:
         return m
 
     def __rmatmul__(self, other):
-        m = copy(other)
+        m = Matrix(other)
         m.__imatmul__(self)
         return m
 
-- 
2.43.0


From 2860904b0fcfbb5f29df9fc610897192d172ed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:29 +0000
Subject: [PATCH 03/76] fix: Length.in_pixels divided points and picas by their
 pixel ratio

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 6ef92f7..7d9ecff 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -327,9 +327,9 @@ class Length(object):
         if self.units == "px" or self.units == "":
             return self.amount
         if self.units == "pt":
-            return self.amount / 1.3333
+            return self.amount * 1.3333
         if self.units == "pc":
-            return self.amount / 16.0
+            return self.amount * 16.0
         return None
 
     def in_inches(self):
-- 
2.43.0


From b85f40b1f081856c5256acbbe1f76a13e43e4557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:29 +0000
Subject: [PATCH 04/76] fix: Length equality compared a length with itself
 instead of the other operand

---
 svgio/basic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 7d9ecff..cc06f54 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -306,16 +306,18 @@ class Length(object):
                 return other == 0 and self.amount == 0
         if isinstance(other, str):
             other = Length(other)
+        if not isinstance(other, Length):
+            return False
         if self.amount == other.amount and self.units == other.units:
             return True
         if s is not None:
-            o = self.in_pixels()
-            if abs(s - o) <= ERROR:
+            o = other.in_pixels()
+            if o is not None and abs(s - o) <= ERROR:
                 return True
         s = self.in_inches()
         if s is not None:
-            o = self.in_inches()
-            if abs(s - o) <= ERROR:
+            o = other.in_inches()
+            if o is not None and abs(s - o) <= ERROR:
                 return True
         return False
 
-- 
2.43.0


From a2d69c26ea77b964c1fe988ed97b4b6adf186d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:29 +0000
Subject: [PATCH 05/76] fix: vmin and vmax ignored the viewport width

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index cc06f54..223b463 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -465,13 +465,13 @@ class Length(object):
             if viewbox is None:
                 return self
             v = Viewbox(viewbox)
-            m = min(v.height, v.height)
+            m = min(v.width, v.height)
             return self.amount * m / 100.0
         if self.units == "vmax":
             if viewbox is None:
                 return self
             v = Viewbox(viewbox)
-            m = max(v.height, v.height)
+            m = max(v.width, v.height)
             return self.amount * m / 100.0
         try:
             return float(self)
-- 
2.43.0


From eba803d2121a4df409406e0ed5b32f5deae8b9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:29 +0000
Subject: [PATCH 06/76] fix: lengths in unresolvable units were taken for their
 bare amount

---
 svgio/basic.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 223b463..0fdd34c 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -54,7 +54,7 @@ class Length(object):
             s = str(value)
             for m in REGEX_LENGTH.findall(s):
                 self.amount = float(m[0])
-                self.units = m[1]
+                self.units = m[1] if m[1] == "Q" else m[1].lower()
                 return
         elif len(args) == 2:
             self.amount = args[0]
@@ -64,13 +64,10 @@ class Length(object):
         self.units = ""
 
     def __float__(self):
-        if self.amount is None:
-            return None
-        if self.units == "pt":
-            return self.amount * 1.3333
-        elif self.units == "pc":
-            return self.amount * 16.0
-        return self.amount
+        value = self.in_pixels()
+        if value is None:
+            raise ValueError("%s cannot be expressed as a number." % self)
+        return float(value)
 
     def __imul__(self, other):
         if isinstance(other, (int, float)):
@@ -473,10 +470,7 @@ class Length(object):
             v = Viewbox(viewbox)
             m = max(v.width, v.height)
             return self.amount * m / 100.0
-        try:
-            return float(self)
-        except ValueError:
-            return self
+        return self
 
     @staticmethod
     def str(s):
-- 
2.43.0


From be2957f2932add18cf783ecaa923f799065a4028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:29 +0000
Subject: [PATCH 07/76] fix: in-place multiplication of a zero Length replaced
 it by a bare number

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 0fdd34c..6583ee3 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -74,7 +74,7 @@ class Length(object):
             self.amount *= other
             return self
         if self.amount == 0.0:
-            return 0.0
+            return self
         if isinstance(other, str):
             other = Length(other)
         if isinstance(other, Length):
-- 
2.43.0


From 7db88731192d8be7a01f25c09c625e67859f2005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:29 +0000
Subject: [PATCH 08/76] fix: converting an unresolved Length to mm, cm or
 inches scaled it

---
 svgio/basic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 6583ee3..ed8aba4 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -355,6 +355,8 @@ class Length(object):
             font_height=font_height,
             viewbox=viewbox,
         )
+        if value is None or isinstance(value, Length):
+            return self
         v = value / (ppi * 0.0393701)
         return Length("%smm" % (Length.str(v)))
 
@@ -373,6 +375,8 @@ class Length(object):
             font_height=font_height,
             viewbox=viewbox,
         )
+        if value is None or isinstance(value, Length):
+            return self
         v = value / (ppi * 0.393701)
         return Length("%scm" % (Length.str(v)))
 
@@ -391,6 +395,8 @@ class Length(object):
             font_height=font_height,
             viewbox=viewbox,
         )
+        if value is None or isinstance(value, Length):
+            return self
         v = value / ppi
         return Length("%sin" % (Length.str(v)))
 
-- 
2.43.0


From e4b71f9c4c9c30576323f410212b2eca8143fb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:29 +0000
Subject: [PATCH 09/76] fix: the unit "ex" was misspelt in the length pattern

---
 svgio/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/constants.py b/svgio/constants.py
index d5c9d15..eaf72ed 100644
--- a/svgio/constants.py
+++ b/svgio/constants.py
@@ -118,7 +118,7 @@ PATTERN_WS = r"[\s\t\n]*"
 PATTERN_COMMA = r"(?:\s*,\s*|\s+|(?=-))"
 PATTERN_COMMAWSP = r"[ ,\t\n\x09\x0A\x0C\x0D]+"
 PATTERN_FLOAT = r"[-+]?[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?"
-PATTERN_LENGTH_UNITS = "cm|mm|Q|in|pt|pc|px|em|cx|ch|rem|vw|vh|vmin|vmax"
+PATTERN_LENGTH_UNITS = "cm|mm|Q|in|pt|pc|px|em|ex|ch|rem|vw|vh|vmin|vmax"
 PATTERN_ANGLE_UNITS = "deg|grad|rad|turn"
 PATTERN_TIME_UNITS = "s|ms"
 PATTERN_FREQUENCY_UNITS = "Hz|kHz"
-- 
2.43.0


From f5343eb1c699505576aee60bf172bcccc8598c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 10/76] fix: the keyword aliceblue gave a wrong colour

---
 svgio/basic.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index ed8aba4..0f707d6 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -686,8 +686,6 @@ class Color(object):
             v = v.replace(" ", "").lower()
         if v == "transparent":
             return Color.rgb_to_int(0, 0, 0, 0.0)
-        if v == "aliceblue":
-            return Color.rgb_to_int(250, 248, 255)
         if v == "aliceblue":
             return Color.rgb_to_int(240, 248, 255)
         if v == "antiquewhite":
-- 
2.43.0


From 3600339e117f2a5e96269475994d6bac13139474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 11/76] fix: setting hue, saturation or lightness misread the
 hue and dropped the alpha channel

---
 svgio/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 0f707d6..793003f 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -642,6 +642,7 @@ class Color(object):
                 return v1 + (v2 - v1) * ((2.0 / 3.0) - vh) * 6.0
             return v1
 
+        h %= 1.0
         if s == 0.0:
             r = 255.0 * l
             g = 255.0 * l
@@ -1417,7 +1418,8 @@ class Color(object):
         h = value[0]
         s = value[1]
         l = value[2]
-        self.value = Color.hsl_to_int(h, s, l, 1.0)
+        opacity = 1.0 if self.value is None else self.opacity
+        self.value = Color.hsl_to_int(Angle.degrees(h).as_turns, s, l, opacity)
 
     def distance_to(self, other):
         return Color.distance(self, other)
-- 
2.43.0


From 6e5b5c694767fc4b49cf4aa1b14b026e36794b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 12/76] fix: a hue given together with saturation and lightness
 was lost

---
 svgio/basic.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 793003f..e176a2d 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -560,18 +560,18 @@ class Color(object):
             self.argb = kwargs["argb"]
         if "rgba" in kwargs:
             self.rgba = kwargs["rgba"]
-        if "h" in kwargs:
-            self.hue = kwargs["h"]
-        if "s" in kwargs:
-            self.saturation = kwargs["s"]
-        if "l" in kwargs:
-            self.lightness = kwargs["l"]
-        if "hue" in kwargs:
-            self.hue = kwargs["hue"]
-        if "saturation" in kwargs:
-            self.saturation = kwargs["saturation"]
-        if "lightness" in kwargs:
-            self.lightness = kwargs["lightness"]
+        h = kwargs.get("hue", kwargs.get("h"))
+        s = kwargs.get("saturation", kwargs.get("s"))
+        l = kwargs.get("lightness", kwargs.get("l"))
+        if h is not None or s is not None or l is not None:
+            if self.value is None:
+                raise ValueError
+            hue, saturation, lightness = self.hsl
+            self.hsl = (
+                hue if h is None else h,
+                saturation if s is None else s,
+                lightness if l is None else l,
+            )
 
     def __int__(self):
         return self.value
-- 
2.43.0


From 8dc6e609f34e560da7510d8396a4f4a9812b85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 13/76] fix: Color.over failed on colours given as text

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index e176a2d..37fa100 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1330,11 +1330,11 @@ class Color(object):
         Returns c1 over c2. This is the standard painter algorithm.
         """
         if isinstance(c1, str):
-            c1 = Color.parse(c1)
+            c1 = Color(c1)
         elif isinstance(c1, int):
             c1 = Color(c1)
         if isinstance(c2, str):
-            c2 = Color.parse(c2)
+            c2 = Color(c2)
         elif isinstance(c2, int):
             c2 = Color(c2)
         r1 = c1.red
-- 
2.43.0


From 731724b4d03d1ec3029124f0d31f594adecc4b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 14/76] fix: rgb() colours with fractional channel values were
 rejected

---
 svgio/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 37fa100..366b1fe 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1009,9 +1009,9 @@ class Color(object):
     @staticmethod
     def parse_color_rgb(values):
         """Parse SVG Color, RGB value declarations """
-        r = int(values[0])
-        g = int(values[1])
-        b = int(values[2])
+        r = round(float(values[0]))
+        g = round(float(values[1]))
+        b = round(float(values[2]))
         if values[3] is not None:
             opacity = float(values[3])
         else:
-- 
2.43.0


From 8baf2993049500008e21aca952eb63de77eec189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 15/76] fix: the weighted colour distance shifted the whole sum
 right

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 366b1fe..853f603 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1394,8 +1394,8 @@ class Color(object):
         g = c1.green - c2.green
         b = c1.blue - c2.blue
         return (((512 + red_mean) * r * r) >> 8) + 4 * g * g + (
-            (767 - red_mean) * b * b
-        ) >> 8
+            ((767 - red_mean) * b * b) >> 8
+        )
 
     @staticmethod
     def crimp(v):
-- 
2.43.0


From fea0af8ecec7b433a2b3028d10afc787126ad430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 16/76] fix: Angle inequality contradicted its equality

---
 svgio/basic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 853f603..0083674 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1842,9 +1842,14 @@ class Angle(float):
 
     def __eq__(self, other):
         # Python 2
+        if not isinstance(other, (int, float)):
+            return NotImplemented
         c1 = abs((self % tau) - (other % tau)) <= 1e-11
         return c1
 
+    def __ne__(self, other):
+        return not self == other
+
     def normalized(self):
         return Angle(self % tau)
 
-- 
2.43.0


From efaaea3cf3405cea687a7fc0d3210cf03797e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:49 +0000
Subject: [PATCH 17/76] fix: horizontal and vertical path commands without a
 number were accepted or dropped

---
 svgio/path.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 078d4c4..2a54f2a 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -176,25 +176,35 @@ class PathLexicalParser:
             elif cmd == "h":
                 while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.horizontal(value, relative=True)
                     if not self._more():
                         break
             elif cmd == "H":
                 while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.horizontal(value, relative=False)
                     if not self._more():
                         break
             elif cmd == "v":
                 while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.vertical(value, relative=True)
                     if not self._more():
                         break
             elif cmd == "V":
-                while self._more():
+                while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.vertical(value, relative=False)
+                    if not self._more():
+                        break
             elif cmd == "c":
                 while True:
                     coord1, coord2, coord3 = (
-- 
2.43.0


From 98433310325e11da2343b29360b00d65a15c5f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:49 +0000
Subject: [PATCH 18/76] fix: arc path commands with missing arguments were
 accepted or dropped

---
 svgio/path.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 2a54f2a..b241e8e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -302,7 +302,7 @@ class PathLexicalParser:
                     if not self._more():
                         break
             elif cmd == "a":
-                while self._more():
+                while True:
                     rx, ry, rotation, arc, sweep, coord = (
                         self._number(),
                         self._number(),
@@ -311,15 +311,17 @@ class PathLexicalParser:
                         self._flag(),
                         self._rcoord(),
                     )
-                    if sweep is None:
+                    if None in (rx, ry, rotation, arc, sweep):
                         raise ValueError
                     if coord is None:
                         coord = self.inline_close
                         if coord is None:
                             raise ValueError
                     self.parser.arc(rx, ry, rotation, arc, sweep, coord, relative=True)
+                    if not self._more():
+                        break
             elif cmd == "A":
-                while self._more():
+                while True:
                     rx, ry, rotation, arc, sweep, coord = (
                         self._number(),
                         self._number(),
@@ -328,11 +330,15 @@ class PathLexicalParser:
                         self._flag(),
                         self._coord(),
                     )
+                    if None in (rx, ry, rotation, arc, sweep):
+                        raise ValueError
                     if coord is None:
                         coord = self.inline_close
                         if coord is None:
                             raise ValueError
                     self.parser.arc(rx, ry, rotation, arc, sweep, coord, relative=False)
+                    if not self._more():
+                        break
         self.parser.end()
 
 
-- 
2.43.0


From 9aa70eccb0eeb17b68b4555443502c730588d47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 19/76] fix: path building methods dropped the relative flag of
 further point groups

---
 svgio/path.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index b241e8e..fd281b5 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2477,7 +2477,7 @@ class Path(MutableSequence):
         segment.relative = relative
         self.append(segment)
         if len(points) > 1:
-            self.line(*points[1:])
+            self.line(*points[1:], relative=relative)
         return self
 
     def vertical(self, *y_points, **kwargs):
@@ -2521,7 +2521,7 @@ class Path(MutableSequence):
         segment.smooth = True
         self.append(segment)
         if len(points) > 1:
-            self.smooth_quad(*points[1:])
+            self.smooth_quad(*points[1:], relative=relative)
         return self
 
     def quad(self, *points, **kwargs):
@@ -2538,7 +2538,7 @@ class Path(MutableSequence):
         segment.smooth = False
         self.append(segment)
         if len(points) > 2:
-            self.quad(*points[2:])
+            self.quad(*points[2:], relative=relative)
         return self
 
     def smooth_cubic(self, *points, **kwargs):
@@ -2559,7 +2559,7 @@ class Path(MutableSequence):
         segment.smooth = True
         self.append(segment)
         if len(points) > 2:
-            self.smooth_cubic(*points[2:])
+            self.smooth_cubic(*points[2:], relative=relative)
         return self
 
     def cubic(self, *points, **kwargs):
@@ -2579,7 +2579,7 @@ class Path(MutableSequence):
         segment.smooth = False
         self.append(segment)
         if len(points) > 3:
-            self.cubic(*points[3:])
+            self.cubic(*points[3:], relative=relative)
         return self
 
     def arc(self, *arc_args, **kwargs):
@@ -2597,7 +2597,7 @@ class Path(MutableSequence):
         segment.relative = relative
         self.append(segment)
         if len(arc_args) > 6:
-            self.arc(*arc_args[6:])
+            self.arc(*arc_args[6:], relative=relative)
         return self
 
     def closed(self, relative=False):
-- 
2.43.0


From b9b23eeeff025e9eaa316cafaafcff2cb9c604a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 20/76] fix: smooth curves reflected the control point of a
 curve of the other kind

---
 svgio/path.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index fd281b5..d14c0f0 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2448,6 +2448,13 @@ class Path(MutableSequence):
             return previous_control.reflected_across(start_pos)
         return start_pos
 
+    def _smooth_control(self, kind):
+        """First control point of a smooth curve of the given kind: only the previous control point
+        of a curve of the same kind is reflected, otherwise it is coincident with the current point."""
+        if len(self._segments) != 0 and isinstance(self._segments[-1], kind):
+            return self.smooth_point
+        return self.current_point
+
     def start(self):
         pass
 
@@ -2512,7 +2519,7 @@ class Path(MutableSequence):
         the second control point in the previous path."""
         relative = kwargs["relative"] if "relative" in kwargs else False
         start_pos = self.current_point
-        control1 = self.smooth_point
+        control1 = self._smooth_control(QuadraticBezier)
         end_pos = points[0]
         if end_pos in ("z", "Z"):
             end_pos = self.z_point
@@ -2546,7 +2553,7 @@ class Path(MutableSequence):
         the second control point in the previous path."""
         relative = kwargs["relative"] if "relative" in kwargs else False
         start_pos = self.current_point
-        control1 = self.smooth_point
+        control1 = self._smooth_control(CubicBezier)
         control2 = points[0]
 
         if control2 in ("z", "Z"):
-- 
2.43.0


From a1a24506f37dc73ef1ca547d95f06cafd946e830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 21/76] fix: path text failed because paths have no transform

---
 svgio/path.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index d14c0f0..36fda30 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2775,14 +2775,9 @@ class Path(MutableSequence):
         return " ".join(parts)
 
     def d(self, relative=None, transformed=True, smooth=None):
-        path = self
-        if transformed:
-            path = abs(path)
-        return Path.svg_d(path._segments, relative=relative, smooth=smooth)
+        return Path.svg_d(self._segments, relative=relative, smooth=smooth)
 
     def segments(self, transformed=True):
-        if transformed and not self.transform.is_identity():
-            return [s * self.transform for s in self._segments]
         return self._segments
 
     def approximate_arcs_with_cubics(self, error=0.1):
@@ -2933,12 +2928,7 @@ class Subpath:
         return not self == other
 
     def segments(self, transformed=True):
-        path = self._path
-        if transformed:
-            return [
-                s * path.transform for s in path._segments[self._start : self._end + 1]
-            ]
-        return path._segments[self._start : self._end + 1]
+        return self._path._segments[self._start : self._end + 1]
 
     def _numeric_index(self, index):
         if index < 0:
-- 
2.43.0


From 1a2f6927d5eda7450c49b77f99324a21ccf18d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 22/76] fix: copying a path gave an empty path

---
 svgio/path.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 36fda30..088b29b 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1987,8 +1987,8 @@ class Path(MutableSequence):
             self._segments.extend(args)
         else:
             s = args[0]
-            if isinstance(s, Subpath):
-                self._segments.extend(s.segments(transformed=False))
+            if isinstance(s, (Path, Subpath)):
+                self._segments.extend(map(copy, s.segments(transformed=False)))
             elif isinstance(s, str):
                 self._segments = list()
                 self.parse(s)
@@ -2004,11 +2004,7 @@ class Path(MutableSequence):
                 self._segments.append(s)
 
     def __copy__(self):
-        path = Path(self)
-        segs = path._segments
-        for i in range(0, len(segs)):
-            segs[i] = copy(segs[i])
-        return path
+        return Path(self)
 
     def __getitem__(self, index):
         return self._segments[index]
-- 
2.43.0


From bc910ba6d858dba948bf5038c019f41bb7a7dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 23/76] fix: paths could not be multiplied by a matrix

---
 svgio/path.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 088b29b..aeaeb23 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2035,25 +2035,30 @@ class Path(MutableSequence):
     #
     # __add__ = __iadd__
 
-    def __matmul__(self, other):
-        m = copy(self)
-        m.__imatmul__(other)
-        return m
-
-    def __rmatmul__(self, other):
-        m = copy(other)
-        m.__imatmul__(self)
-        return m
-
-    def __imatmul__(self, other):
-        """
-        The % operation with a matrix works much like multiplication except that it automatically reifies the shape.
-        """
+    def __imul__(self, other):
         if isinstance(other, str):
             other = Matrix(other)
         if isinstance(other, Matrix):
-            self.transform *= other
-        return self
+            self._length = None
+            for segment in self._segments:
+                segment *= other
+            return self
+        return NotImplemented
+
+    def __mul__(self, other):
+        if isinstance(other, (Matrix, str)):
+            n = copy(self)
+            n *= other
+            return n
+        return NotImplemented
+
+    __rmul__ = __mul__
+
+    __imatmul__ = __imul__
+
+    __matmul__ = __mul__
+
+    __rmatmul__ = __mul__
 
     def __setitem__(self, index, new_element):
         if isinstance(new_element, str):
-- 
2.43.0


From 034cc3a7d97d85ce1b0d7214ce086a5d2e97cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 24/76] fix: the second control point of a cubic curve depended
 on the first

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index aeaeb23..d0e07cd 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -949,7 +949,7 @@ class CubicBezier(Curve):
     def __init__(self, start, control1, control2, end, **kwargs):
         Curve.__init__(self, start, end, **kwargs)
         self.control1 = Point(control1) if control1 is not None else None
-        self.control2 = Point(control2) if control1 is not None else None
+        self.control2 = Point(control2) if control2 is not None else None
 
     def __repr__(self):
         return "CubicBezier(start=%s, control1=%s, control2=%s, end=%s)" % (
-- 
2.43.0


From cfd54ba455d5c0eb09f68f1b7176d3ed08feb74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 25/76] fix: an arc given by end point and sweep got no start
 point

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index d0e07cd..ecda2ec 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1391,7 +1391,7 @@ class Arc(Curve):
         if self.sweep is not None and self.start is None and self.end is not None:
             end_t = self.get_end_t()
             start_t = end_t - self.sweep
-            self.end = self.point_at_t(start_t)
+            self.start = self.point_at_t(start_t)
 
     def __repr__(self):
         return "Arc(%s, %s, %s, %s, %s, %s)" % (
-- 
2.43.0


From c503a7d83474142e72c37fce8f01e62c79f84485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 26/76] fix: matrix positions out of range gave None instead of
 IndexError

---
 svgio/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 0083674..98eb85c 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2027,6 +2027,8 @@ class Matrix:
             return self.e
         elif item == 5:
             return self.f
+        else:
+            raise IndexError
 
     def __setitem__(self, key, value):
         if key == 0:
@@ -2041,6 +2043,8 @@ class Matrix:
             self.e = value
         elif key == 5:
             self.f = value
+        else:
+            raise IndexError
 
     def __repr__(self):
         return "Matrix(%s, %s, %s, %s, %s, %s)" % (
-- 
2.43.0


From 6395a1be40705a16a26ce5cba7c240d44350b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 27/76] fix: iterating a segment kept its position in the
 segment

---
 svgio/path.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index ecda2ec..1b65e12 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -415,21 +415,10 @@ class PathSegment:
         return d
 
     def __iter__(self):
-        self.n = -1
-        return self
-
-    def __next__(self):
-        self.n += 1
-        try:
-            val = self[self.n]
-            if val is None:
-                self.n += 1
-                val = self[self.n]
-            return val
-        except IndexError:
-            raise StopIteration
-
-    next = __next__
+        for i in range(len(self)):
+            val = self[i]
+            if val is not None:
+                yield val
 
     @staticmethod
     def segment_length(
-- 
2.43.0


From 354b179411f37a9f69941a3c5d1a199aa152c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 28/76] fix: adding a segment to a path modified and shared
 that segment

---
 svgio/path.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 1b65e12..9ffaebd 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -391,7 +391,7 @@ class PathSegment:
 
     def __iadd__(self, other):
         if isinstance(other, PathSegment):
-            path = Path(self, other)
+            path = Path(copy(self), copy(other))
             return path
         elif isinstance(other, str):
             path = Path(self) + other
@@ -2089,7 +2089,7 @@ class Path(MutableSequence):
         elif isinstance(other, (Path, Subpath)):
             self.extend(map(copy, list(other)))
         elif isinstance(other, PathSegment):
-            self.append(other)
+            self.append(copy(other))
         else:
             return NotImplemented
         return self
@@ -2108,7 +2108,7 @@ class Path(MutableSequence):
             return path
         elif isinstance(other, PathSegment):
             path = copy(self)
-            path.insert(0, other)
+            path.insert(0, copy(other))
             return path
         else:
             return NotImplemented
@@ -2850,7 +2850,7 @@ class Subpath:
             return path
         elif isinstance(other, PathSegment):
             path = Path(self)
-            path.insert(0, other)
+            path.insert(0, copy(other))
             return path
         else:
             return NotImplemented
-- 
2.43.0


From 13c600c09d1cf559bdf215a55266de3985f52797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 29/76] fix: path lengths were remembered across reversal and
 scaling

---
 svgio/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 9ffaebd..0ff226e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2681,6 +2681,7 @@ class Path(MutableSequence):
         for subpath in reversed(subpaths):
             p += subpath
         self._segments = p._segments
+        self._length = None
         self._segments[0].start = prepoint
         return self
 
@@ -2859,6 +2860,7 @@ class Subpath:
         if isinstance(other, str):
             other = Matrix(other)
         if isinstance(other, Matrix):
+            self._path._length = None
             for e in self:
                 e *= other
         return self
@@ -2961,6 +2963,7 @@ class Subpath:
     def _reverse_segments(self, start, end):
         """Reverses segments between the given indexes in the subpath space."""
         segments = self._path._segments  # must avoid path validation.
+        self._path._length = None
         s = self.index_to_path_index(start)
         e = self.index_to_path_index(end)
         while s <= e:
@@ -2982,6 +2985,7 @@ class Subpath:
         size = len(self)
         if size == 0:
             return
+        self._path._length = None
         start = 0
         end = size - 1
         if isinstance(self[-1], Close):
-- 
2.43.0


From 0abb344e7942ca5c52c2656c5eccaa4e2e8d619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 30/76] fix: edits at negative positions or of moves and closes
 left the path disconnected

---
 svgio/path.py | 29 ++++-------------------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 0ff226e..274e562 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2062,26 +2062,12 @@ class Path(MutableSequence):
         self._segments[index] = new_element
         self._length = None
         self._lengths = None
-        if isinstance(index, slice):
-            self.validate_connections()
-        else:
-            self._validate_connection(index - 1)
-            self._validate_connection(index)
-            if isinstance(new_element, Move):
-                self._validate_move(index)
-            if isinstance(new_element, Close):
-                self._validate_close(index)
+        self.validate_connections()
 
     def __delitem__(self, index):
-        original_element = self._segments[index]
         del self._segments[index]
         self._length = None
-        if isinstance(index, slice):
-            self.validate_connections()
-        else:
-            self._validate_connection(index - 1)
-            if isinstance(original_element, (Close, Move)):
-                self._validate_subpath(index)
+        self.validate_connections()
 
     def __iadd__(self, other):
         if isinstance(other, str):
@@ -2629,21 +2615,14 @@ class Path(MutableSequence):
             value = value[0]
         self._length = None
         self._segments.insert(index, value)
-        self._validate_connection(index - 1)
-        self._validate_connection(index)
-        if isinstance(value, Move):
-            self._validate_move(index)
-        if isinstance(value, Close):
-            self._validate_close(index)
+        self.validate_connections()
 
     def extend(self, iterable):
         if isinstance(iterable, str):
             iterable = Path(iterable)
         self._length = None
-        index = len(self._segments) - 1
         self._segments.extend(iterable)
-        self._validate_connection(index)
-        self._validate_subpath(index)
+        self.validate_connections()
 
     def direct_close(self):
         """Forces close operations to be zero length by introducing a direct
-- 
2.43.0


From 955691a9f313049c5f6554ddd8db79db5c403d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 31/76] fix: subpath windows did not follow their own edits and
 let positions run past their end

---
 svgio/path.py | 53 +++++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 274e562..522f4c0 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2797,23 +2797,27 @@ class Subpath:
         return self._path[self.index_to_path_index(index)]
 
     def __setitem__(self, index, value):
+        size = len(self._path)
         self._path[self.index_to_path_index(index)] = value
+        self._end += len(self._path) - size
 
     def __delitem__(self, index):
+        size = len(self._path)
         del self._path[self.index_to_path_index(index)]
-        self._end -= 1
+        self._end += len(self._path) - size
 
     def __iadd__(self, other):
         if isinstance(other, str):
             p = Path(other)
-            self._path[self._end : self._end] = p
         elif isinstance(other, Path):
             p = copy(other)
-            self._path[self._end : self._end] = p
         elif isinstance(other, PathSegment):
-            self._path.insert(self._end, other)
+            p = [copy(other)]
         else:
             return NotImplemented
+        size = len(self._path)
+        self._path[self._end + 1 : self._end + 1] = p
+        self._end += len(self._path) - size
         return self
 
     def __add__(self, other):
@@ -2826,7 +2830,7 @@ class Subpath:
     def __radd__(self, other):
         if isinstance(other, str):
             path = Path(other)
-            path.extend(map(copy, self._path))
+            path.extend(map(copy, self))
             return path
         elif isinstance(other, PathSegment):
             path = Path(self)
@@ -2901,25 +2905,20 @@ class Subpath:
     def segments(self, transformed=True):
         return self._path._segments[self._start : self._end + 1]
 
-    def _numeric_index(self, index):
-        if index < 0:
-            return self._end + index + 1
-        else:
-            return self._start + index
-
     def index_to_path_index(self, index):
+        size = len(self)
         if isinstance(index, slice):
-            start = index.start
-            stop = index.stop
-            step = index.step
-            if start is None:
-                start = 0
-            start = self._numeric_index(start)
-            if stop is None:
-                stop = len(self)
-            stop = self._numeric_index(stop)
+            start, stop, step = index.indices(size)
+            start += self._start
+            stop += self._start
+            if stop < 0:
+                stop = None  # A reversed slice which includes the first segment of the path.
             return slice(start, stop, step)
-        return self._numeric_index(index)
+        if index < 0:
+            index += size
+        if not 0 <= index < size:
+            raise IndexError("subpath index out of range")
+        return self._start + index
 
     def bbox(self):
         """returns a bounding box for the input Path"""
@@ -2937,14 +2936,14 @@ class Subpath:
 
     def d(self, relative=None, smooth=None):
         segments = self._path._segments[self._start : self._end + 1]
-        return Path.svg_d(segments, relative=relative, smooth=None)
+        return Path.svg_d(segments, relative=relative, smooth=smooth)
 
     def _reverse_segments(self, start, end):
         """Reverses segments between the given indexes in the subpath space."""
         segments = self._path._segments  # must avoid path validation.
         self._path._length = None
-        s = self.index_to_path_index(start)
-        e = self.index_to_path_index(end)
+        s = self._start + start
+        e = self._start + end
         while s <= e:
             start_segment = segments[s]
             end_segment = segments[e]
@@ -2955,8 +2954,8 @@ class Subpath:
                 segments[e] = start_segment
             s += 1
             e -= 1
-        start = self.index_to_path_index(start)
-        end = self.index_to_path_index(end)
+        start += self._start
+        end += self._start
         self._path._validate_connection(start - 1, prefer_second=True)
         self._path._validate_connection(end)
 
@@ -2980,7 +2979,7 @@ class Subpath:
         last = self[-1]
         if isinstance(last, Close):
             last.reverse()
-            if last.start != self[-2].end:
+            if size > 1 and last.start != self[-2].end:
                 last.start = Point(self[-2].end)
             if last.end != self[0].end:
                 last.end = Point(self[0].end)
-- 
2.43.0


From 61d580ff5ebb41b6de700c4d6f549fddf6aff5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 32/76] fix: segments were written relative exactly when not
 flagged relative

---
 svgio/path.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 522f4c0..46f3f1c 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -604,7 +604,7 @@ class Move(PathSegment):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "M %s" % self.end
@@ -723,7 +723,7 @@ class Close(Linear):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "Z"
@@ -742,7 +742,7 @@ class Line(Linear):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "L %s" % self.end
@@ -912,7 +912,7 @@ class QuadraticBezier(Curve):
         if (smooth is None and self.smooth) or (smooth is not None and smooth):
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "T %s" % self.end
@@ -921,7 +921,7 @@ class QuadraticBezier(Curve):
         else:
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "Q %s %s" % (self.control, self.end)
@@ -1110,7 +1110,7 @@ class CubicBezier(Curve):
         if (smooth is None and self.smooth) or (smooth is not None and smooth):
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "S %s %s" % (self.control2, self.end)
@@ -1122,7 +1122,7 @@ class CubicBezier(Curve):
         else:
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "C %s %s %s" % (self.control1, self.control2, self.end)
@@ -1928,7 +1928,7 @@ class Arc(Curve):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "A %G,%G %G %d,%d %s" % (
-- 
2.43.0


From 06c7dcde9b0189033a807f4167f2c8669ee3e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 33/76] fix: coordinates with exponents lost digits of the
 exponent in text

---
 svgio/basic.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 98eb85c..3f7a77d 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1529,11 +1529,7 @@ class Point:
             x_str = "%.12G" % self.x
         except TypeError:
             return self.__repr__()
-        if "." in x_str:
-            x_str = x_str.rstrip("0").rstrip(".")
         y_str = "%.12G" % self.y
-        if "." in y_str:
-            y_str = y_str.rstrip("0").rstrip(".")
         return "%s,%s" % (x_str, y_str)
 
     def __imul__(self, other):
-- 
2.43.0


From c0554f080103f6568e3b1c9370bb347aafd0d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 34/76] fix: arc radii and rotation were written with six
 digits only

---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 46f3f1c..7ef55a0 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1931,7 +1931,7 @@ class Arc(Curve):
             or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
-            return "A %G,%G %G %d,%d %s" % (
+            return "A %.12G,%.12G %.12G %d,%d %s" % (
                 self.rx,
                 self.ry,
                 self.get_rotation().as_degrees,
@@ -1940,7 +1940,7 @@ class Arc(Curve):
                 self.end,
             )
         else:
-            return "a %G,%G %G %d,%d %s" % (
+            return "a %.12G,%.12G %.12G %d,%d %s" % (
                 self.rx,
                 self.ry,
                 self.get_rotation().as_degrees,
-- 
2.43.0


From 5c5091e8d045368e01d4644b84b8a60aa1246dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 35/76] fix: reversing a closed subpath relinks the move that
 follows it

---
 svgio/path.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgio/path.py b/svgio/path.py
index 7ef55a0..5838d2d 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2983,4 +2983,5 @@ class Subpath:
                 last.start = Point(self[-2].end)
             if last.end != self[0].end:
                 last.end = Point(self[0].end)
+            self._path._validate_connection(self._end)
         return self
-- 
2.43.0


From ef19ea5c481d540947c5b8776622adb26bfae3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 36/76] fix: a length made from a length lost digits (and
 "none") in a detour through text

---
 svgio/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 3f7a77d..75fb3e5 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -51,6 +51,10 @@ class Length(object):
                 self.amount = None
                 self.units = None
                 return
+            if isinstance(value, Length):
+                self.amount = value.amount
+                self.units = value.units
+                return
             s = str(value)
             for m in REGEX_LENGTH.findall(s):
                 self.amount = float(m[0])
-- 
2.43.0


From c4e060ace2615c95abbabd68eadde7b3a0a38ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 37/76] fix: preserveAspectRatio separated by more than one
 space lost its meet or slice

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 75fb3e5..5ebbbc5 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2636,7 +2636,7 @@ class Viewbox:
         ):
             return ""
         if aspect is not None:
-            aspect_slice = aspect.split(" ")
+            aspect_slice = aspect.split()
             try:
                 align = aspect_slice[0]
             except IndexError:
-- 
2.43.0


From cbad2ce7857589c40cc1004b16934b53d14a47cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 38/76] fix: an arc kept its sweep when mirrored about a
 diagonal or by a skew

---
 svgio/path.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 5838d2d..cae9657 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1434,10 +1434,8 @@ class Arc(Curve):
                 self.prx *= other
             if self.pry is not None:
                 self.pry *= other
-            if other.value_scale_x() < 0:
-                self.sweep = -self.sweep
-            if other.value_scale_y() < 0:
-                self.sweep = -self.sweep
+            if other.a * other.d - other.b * other.c < 0:
+                self.sweep = -self.sweep  # The plane is mirrored.
         return self
 
     def __len__(self):
-- 
2.43.0


From 9d5eaf03978f34599796ec5f509687b3f6b9b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 39/76] fix: box of a cubic curve whose cubic term vanishes
 uses the root of the derivative

---
 svgio/path.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index cae9657..153f469 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1065,8 +1065,12 @@ class CubicBezier(Curve):
                     local_extremizers.append(r1)
                 if 0 < r2 < 1:
                     local_extremizers.append(r2)
-        else:
-            local_extremizers.append(0.5)
+        else:  # the cubic term vanishes, the derivative is linear
+            tau = a[0] - 2 * a[1] + a[2]
+            if tau != 0:
+                r = (a[0] - a[1]) / (2.0 * tau)
+                if 0 < r < 1:
+                    local_extremizers.append(r)
         local_extrema = [self.point(t)[v] for t in local_extremizers]
         return min(local_extrema), max(local_extrema)
 
-- 
2.43.0


From 53380959debb9cd07ba8306c49ddf415f2616a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 40/76] fix: a curve written on its own keeps its first control
 point

---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 153f469..c7964ad 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -909,7 +909,7 @@ class QuadraticBezier(Curve):
             return self.control == self.start
 
     def d(self, current_point=None, relative=None, smooth=None):
-        if (smooth is None and self.smooth) or (smooth is not None and smooth):
+        if smooth:  # only a caller that knows the previous segment can ask for it
             if (
                 current_point is None
                 or (relative is None and not self.relative)
@@ -1111,7 +1111,7 @@ class CubicBezier(Curve):
             return self.control1 == self.start
 
     def d(self, current_point=None, relative=None, smooth=None):
-        if (smooth is None and self.smooth) or (smooth is not None and smooth):
+        if smooth:  # only a caller that knows the previous segment can ask for it
             if (
                 current_point is None
                 or (relative is None and not self.relative)
-- 
2.43.0


From 8f8edff2c3b9c4338c48324d2cfb7fd0271d7dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 41/76] fix: xml() imported cElementTree, which no longer
 exists

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index deee891..d632a08 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -69,7 +69,7 @@ class Node(list):
         return self._name().lower()
 
     def xml(self, context=None):
-        from xml.etree.cElementTree import Element, SubElement, tostring
+        from xml.etree.ElementTree import Element, SubElement, tostring
 
         if context is None:
             context = Element(self.tag())
-- 
2.43.0


From 0d40540fbc7da9a05873c832fa799c402f28c429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 42/76] fix: metadata, defs, symbol, marker, switch, style and
 gradients could not be created

---
 svgio/nodes.py | 24 ------------------------
 1 file changed, 24 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index d632a08..90c55e5 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1802,9 +1802,6 @@ class Title(DescriptiveElement, Element):
 
 
 class Metadata(DescriptiveElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1860,25 +1857,16 @@ class SVG(Group, ContainerElement, StructuralElement):
 
 
 class Defs(ContainerElement, StructuralElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Symbol(ContainerElement, StructuralElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Marker(ContainerElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1909,17 +1897,11 @@ class Use(StructuralElement, Element):
 
 
 class Switch(ContainerElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Style(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1951,17 +1933,11 @@ class Hyperlink(ContainerElement, Element):
 
 
 class LinearGradient(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class RadialGradient(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
-- 
2.43.0


From 5c480319c24bf8582e2ccbf163391ba4733ebdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 43/76] fix: a mask is an element like any other

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 90c55e5..a1a3262 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1391,7 +1391,7 @@ class ClipPath(Element):
         return self.__class__.__name__
 
 
-class Mask(ContainerElement):
+class Mask(ContainerElement, Element):
     # maskContentUnits
     # maskUnits
 
-- 
2.43.0


From f198ce865b6ee639168d3b163ab2f2344855e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 44/76] fix: an image takes attributes and is a node like any
 other

---
 svgio/nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index a1a3262..ea511b9 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1639,7 +1639,8 @@ class Image(Element, GraphicalElement, Transformable):
     which are quite useful and would be ideal for reading the linked or contained data.
     """
 
-    def __init__(self):
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
         self.image = None
         self.image_width = None
         self.image_height = None
-- 
2.43.0


From 5762a0bb8402980d03993a2c04219fd1e994f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 45/76] fix: builders hid the members of a node that have the
 name of an element

---
 svgio/nodes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index ea511b9..aeb2400 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -58,12 +58,14 @@ class Node(list):
         params = ", ".join(values)
         return "%s(%s)" % (self._name(), params)
 
-    def __getattribute__(self, name):
+    def __getattr__(self, name):
+        # Only called for names which are not members of the node.
         item = str(name).replace("_", "-")
         if item in BOOTSTRAP:
             return ElementBuilder(BOOTSTRAP[item], self.document, self)
-        else:
-            return object.__getattribute__(self, name)
+        raise AttributeError(
+            "'%s' object has no attribute '%s'" % (type(self).__name__, name)
+        )
 
     def tag(self):
         return self._name().lower()
-- 
2.43.0


From 2aff03c8d6184b9fff1ce843241206bd8e3cace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 46/76] fix: clipPath, the gradients and switch are known under
 their SVG names

---
 svgio/nodes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index aeb2400..4f00d0d 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -60,7 +60,7 @@ class Node(list):
 
     def __getattr__(self, name):
         # Only called for names which are not members of the node.
-        item = str(name).replace("_", "-")
+        item = re.sub("_([a-z])", lambda m: m.group(1).upper(), str(name))
         if item in BOOTSTRAP:
             return ElementBuilder(BOOTSTRAP[item], self.document, self)
         raise AttributeError(
@@ -2291,6 +2291,7 @@ BOOTSTRAP = {
     "symbol": Symbol,
     "marker": Marker,
     "use": Use,
+    "switch": Switch,
     "style": Style,
     "script": Script,
     "a": Hyperlink,
@@ -2307,9 +2308,9 @@ BOOTSTRAP = {
     "title": Title,
     "desc": Desc,
     "metadata": Metadata,
-    "clip-path": ClipPath,
+    "clipPath": ClipPath,
     "mask": Mask,
-    "lineargradient": LinearGradient,
-    "radialgradient": RadialGradient,
+    "linearGradient": LinearGradient,
+    "radialGradient": RadialGradient,
     "pattern": Pattern,
 }
-- 
2.43.0


From 3aef74b8362e83a18caf2a8d720944a01a25d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 47/76] fix: a node is saved under its SVG element name

---
 svgio/nodes.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 4f00d0d..faea7f9 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -44,6 +44,7 @@ class Node(list):
         super().__init__()
         self.document = None
         self.parent = None
+        self.element_name = None  # Name of an element without a class of its own.
         self.attributes = dict()
         self.attributes.update(kwargs)
 
@@ -68,6 +69,8 @@ class Node(list):
         )
 
     def tag(self):
+        if self.element_name is not None:
+            return self.element_name
         return self._name().lower()
 
     def xml(self, context=None):
@@ -111,6 +114,7 @@ class Node(list):
                     node = type_node()
                 except KeyError:
                     node = Node()
+                    node.element_name = tag
                 node.attributes = attributes
                 node.parent = parent
                 node.document = document
@@ -1387,7 +1391,7 @@ class ClipPath(Element):
         return values.get(SVG_ATTR_CLIP_UNIT_TYPE, SVG_UNIT_TYPE_USERSPACEONUSE)
 
     def tag(self):
-        return "clip-path"
+        return "clipPath"
 
     def _name(self):
         return self.__class__.__name__
@@ -1923,6 +1927,9 @@ class Script(Element):
 
 
 class Hyperlink(ContainerElement, Element):
+    def tag(self):
+        return "a"
+
     @property
     def href(self):
         values = Document.get_values(self)
@@ -1936,11 +1943,17 @@ class Hyperlink(ContainerElement, Element):
 
 
 class LinearGradient(Element):
+    def tag(self):
+        return "linearGradient"
+
     def _name(self):
         return self.__class__.__name__
 
 
 class RadialGradient(Element):
+    def tag(self):
+        return "radialGradient"
+
     def _name(self):
         return self.__class__.__name__
 
-- 
2.43.0


From a5d6858063dacd6e8148622fccf916c821d984bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 48/76] fix: namespace of an element was cut off by length

---
 svgio/nodes.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index faea7f9..b73bbb6 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -95,13 +95,8 @@ class Node(list):
         for event, elem in iterparse(source, events=("start", "end", "start-ns")):
             if event == "start":
                 tag = elem.tag
-                try:
-                    if tag.startswith("{http://www.w3.org/2000/svg"):
-                        tag = tag[
-                            28:
-                        ]  # Removing namespace. http://www.w3.org/2000/svg:
-                except AttributeError:
-                    pass
+                if tag.startswith("{%s}" % SVG_VALUE_XMLNS):
+                    tag = tag[len(SVG_VALUE_XMLNS) + 2 :]  # Removing SVG namespace.
 
                 attributes = elem.attrib
                 # Create new node.
-- 
2.43.0


From 5a8d5dfc7591e3a13df9f43fb9ecceda4769cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 49/76] fix: nodes that are built or added are linked to their
 document and found by id

---
 svgio/nodes.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index b73bbb6..fd0a757 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -112,18 +112,24 @@ class Node(list):
                     node.element_name = tag
                 node.attributes = attributes
                 node.parent = parent
-                node.document = document
 
                 siblings.append(node)  # siblings now includes this node.
 
-                if SVG_ATTR_ID in attributes:  # If we have an ID, we save the node.
-                    document.objects[
-                        attributes[SVG_ATTR_ID]
-                    ] = node  # store node value in defs.
+                node._join(document)  # If we have an ID, we save the node.
             elif event == "end":
                 # event is 'end', pop values.
                 node = node.parent  # Parent is now node.
 
+    def _join(self, document):
+        """
+        Makes this node and its descendants part of the given document, which finds them by their ids.
+        """
+        self.document = document
+        if document is not None and SVG_ATTR_ID in self.attributes:
+            document.objects[self.attributes[SVG_ATTR_ID]] = self
+        for child in self:
+            child._join(document)
+
     @property
     def first_child(self):
         """
@@ -392,9 +398,10 @@ class ElementBuilder:
 
     def __call__(self, *args, **kwargs):
         node = self.cls(*args, **kwargs)
-        node.document = self.document
         node.parent = self.parent
         self.parent.append(node)
+        node._join(self.document)
+        return node
 
 
 class Document(Node):
@@ -441,7 +448,11 @@ class Document(Node):
         return values
 
     def add(self, node):
+        if node.parent is not None:
+            node.parent[:] = [n for n in node.parent if n is not node]
+        node.parent = self
         self.append(node)
+        node._join(self)
 
     def get_element_by_id(self, id):
         return self.objects.get(id)
-- 
2.43.0


From c286e20ec46fa9f6d56a0d8dfb17e0c1cd686d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 50/76] fix: siblings of a node were looked up by content

---
 svgio/nodes.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index fd0a757..d8b78f3 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -171,11 +171,7 @@ class Node(list):
         returns null if the specified node is the last child in the parent element.
         :return:
         """
-        try:
-            index = self.parent.index(self)
-            return self.parent[index + 1]
-        except (AttributeError, IndexError):
-            return None
+        return self._sibling(1)
 
     @property
     def node_type(self):
@@ -215,13 +211,7 @@ class Node(list):
         null if the specified node is the first in that list.
         :return:
         """
-        try:
-            index = self.parent.index(self)
-            if index == 0:
-                return None
-            return self.parent[index - 1]
-        except (AttributeError, IndexError):
-            return None
+        return self._sibling(-1)
 
     @property
     def text_content(self):
@@ -318,6 +308,18 @@ class Node(list):
         """
         raise NotImplementedError
 
+    def _sibling(self, offset):
+        """
+        Sibling the given number of places after this very node, siblings may look alike.
+        """
+        if self.parent is None:
+            return None
+        for index, node in enumerate(self.parent):
+            if node is self:
+                index += offset
+                return self.parent[index] if 0 <= index < len(self.parent) else None
+        return None
+
     def _name(self):
         return self.__class__.__name__
 
-- 
2.43.0


From 807f9b36173f678ec11b091170715f7a978a5dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 51/76] fix: previous_element_sibling gave the next sibling

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index d8b78f3..40fa523 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -385,7 +385,7 @@ class Element(Node):
 
     @property
     def previous_element_sibling(self):
-        return self.next_sibling
+        return self.previous_sibling
 
     @property
     def shadow_root(self):
-- 
2.43.0


From 23d289fba4243df2c9b3a0e45d0da5a5e3933b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 52/76] fix: character data is loaded and saved

---
 svgio/nodes.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 40fa523..835fd30 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -45,6 +45,8 @@ class Node(list):
         self.document = None
         self.parent = None
         self.element_name = None  # Name of an element without a class of its own.
+        self.character_data = None  # Text before the first child.
+        self.tail = None  # Text between this node and its next sibling.
         self.attributes = dict()
         self.attributes.update(kwargs)
 
@@ -80,6 +82,8 @@ class Node(list):
             context = Element(self.tag())
         else:
             context = SubElement(context, self.tag())
+            context.tail = self.tail
+        context.text = self.character_data
         for k in self.attributes:
             v = self.attributes[k]
             context.set(str(k), str(v))
@@ -118,6 +122,10 @@ class Node(list):
                 node._join(document)  # If we have an ID, we save the node.
             elif event == "end":
                 # event is 'end', pop values.
+                # Character data is only complete at the end of the element around it.
+                node.character_data = elem.text
+                for child, child_elem in zip(node, elem):
+                    child.tail = child_elem.tail
                 node = node.parent  # Parent is now node.
 
     def _join(self, document):
@@ -215,7 +223,11 @@ class Node(list):
 
     @property
     def text_content(self):
-        return None
+        parts = [self.character_data or ""]
+        for child in self:
+            parts.append(child.text_content)
+            parts.append(child.tail or "")
+        return "".join(parts)
 
     def append_child(self, child):
         """
-- 
2.43.0


From aa968ffc7670f8a5b0653991da346bca3f78dd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 53/76] fix: a document is saved as xml

---
 svgio/nodes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 835fd30..d683ed8 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -461,6 +461,9 @@ class Document(Node):
             values.update(n.attributes)
         return values
 
+    def xml(self, context=None):
+        return "".join(node.xml() for node in self)
+
     def add(self, node):
         if node.parent is not None:
             node.parent[:] = [n for n in node.parent if n is not node]
@@ -479,8 +482,8 @@ class Document(Node):
         self.parse(filename)
 
     def write(self, filename):
-        with io.open(filename, mode="w") as output:
-            output.write(str(self))
+        with io.open(filename, mode="w", encoding="utf-8") as output:
+            output.write(self.xml())
 
     def render(self):
         pass
-- 
2.43.0


From cb1b4e868bd84a9a6ae7dc22b3ce2cda53d536ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 54/76] fix: stroke recursed without end when the stroke
 opacity was given

---
 svgio/nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index d683ed8..21c9207 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -564,11 +564,11 @@ class GraphicalElement:
         stroke_opacity = values.get(SVG_ATTR_STROKE_OPACITY)
         if (
             stroke_opacity is not None
-            and self.stroke is not None
-            and self.stroke.value is not None
+            and stroke is not None
+            and stroke.value is not None
         ):
             try:
-                self.stroke.opacity = float(stroke_opacity)
+                stroke.opacity = float(stroke_opacity)
             except ValueError:
                 pass
         return stroke
-- 
2.43.0


From 933218a15182d09d9d828da57255b991ce0939f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 55/76] fix: positional center of a circle was stored as x and
 y

---
 svgio/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 21c9207..d40d11f 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1110,8 +1110,8 @@ class Circle(_RoundShape):
 
     def __init__(self, *args, **kwargs):
         try:
-            kwargs[SVG_ATTR_X] = args[0]
-            kwargs[SVG_ATTR_Y] = args[1]
+            kwargs[SVG_ATTR_CENTER_X] = args[0]
+            kwargs[SVG_ATTR_CENTER_Y] = args[1]
             kwargs[SVG_ATTR_RADIUS] = args[2]
         except IndexError:
             pass
-- 
2.43.0


From edcb6b0e058959ec0e832c0407f37f5e94f14144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 56/76] fix: node_type referred to a member that does not exist

---
 svgio/nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index d40d11f..24d326b 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -188,7 +188,7 @@ class Node(list):
         other, such as elements, text and comments.
         :return:
         """
-        return self._type
+        return 1  # ELEMENT_NODE
 
     @property
     def owner_document(self):
@@ -432,6 +432,10 @@ class Document(Node):
         if source is not None:
             self.parse(source)
 
+    @property
+    def node_type(self):
+        return 9  # DOCUMENT_NODE
+
     def __str__(self):
         values = []
         for key in self.attributes:
-- 
2.43.0


From 6f6bd6cec4a20f5e0960f028ae8b3d64062c774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 57/76] fix: multiplying a node by a matrix assigned a
 read-only property

---
 svgio/nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 24d326b..45812cf 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -538,6 +538,7 @@ class Transformable:
         # TODO: Mutate TRANSFORM TO APPEND THIS.
         if isinstance(other, (Matrix, str)):
             n = copy(self)
+            n.attributes = dict(self.attributes)
             n *= other
             return n
         return NotImplemented
@@ -548,7 +549,10 @@ class Transformable:
         if isinstance(other, str):
             other = Matrix(other)
         if isinstance(other, Matrix):
-            self.transform *= other
+            matrix = Matrix(self.attributes.get(SVG_ATTR_TRANSFORM, "")) * other
+            self.attributes[SVG_ATTR_TRANSFORM] = "matrix(%s)" % ", ".join(
+                Length.str(v) for v in matrix
+            )
         return self
 
 
-- 
2.43.0


From d6f8fdfd4be24d672c0bb6beff9ce5e2d888f70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 58/76] fix: whether a rect or poly shape is degenerate was
 asked but not defined

---
 svgio/nodes.py | 55 +++++++++++++++++---------------------------------
 1 file changed, 18 insertions(+), 37 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 45812cf..49c9db9 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -770,6 +770,9 @@ class Rect(Shape):
         values = Document.get_values(self)
         return values.get(SVG_ATTR_RADIUS_Y)
 
+    def is_degenerate(self):
+        return self.width == 0 or self.height == 0
+
     def segments(self, transformed=True):
         """
         Rect decomposition is given in SVG 2.0 10.2
@@ -1265,6 +1268,17 @@ class _Polyshape(Shape):
         values = Document.get_values(self)
         return values.get(SVG_ATTR_POINTS)
 
+    def _parse_points(self):
+        points = self.points
+        if isinstance(points, str):
+            findall = REGEX_COORD_PAIR.findall(points)
+            return [Point(float(j), float(k)) for j, k in findall]
+        if isinstance(points, (list, tuple)) and len(points) != 0:
+            if isinstance(points[0], (float, int)):
+                return list(map(Point, zip(*[iter(points)] * 2)))
+            return list(map(Point, points))
+        return []
+
     def segments(self, transformed=True):
         """
         Polyline and Polygon decomposition is given in SVG2. 10.6 and 10.7
@@ -1276,45 +1290,12 @@ class _Polyshape(Shape):
         Note:  For a polygon/polyline made from n points, the resulting path will
         be composed of n lines (even if some of these lines have length zero).
         """
-        # TODO: Parse points get segments.
         from svgio import path
 
-        if len(self.points) != 0:
-            return
-        if points is None:
-            self.points = list()
-            return
-        if isinstance(points, dict):
-            if SVG_ATTR_POINTS in points:
-                points = points[SVG_ATTR_POINTS]
-            else:
-                self.points = list()
-                return
-        try:
-            if len(points) == 1:
-                points = points[0]
-        except TypeError:
-            pass
-        if isinstance(points, str):
-            findall = REGEX_COORD_PAIR.findall(points)
-            self.points = [Point(float(j), float(k)) for j, k in findall]
-        elif isinstance(points, (list, tuple)):
-            if len(points) == 0:
-                self.points = list()
-            else:
-                first_point = points[0]
-                if isinstance(first_point, (float, int)):
-                    self.points = list(map(Point, zip(*[iter(points)] * 2)))
-                elif isinstance(first_point, (list, tuple, complex, str, Point)):
-                    self.points = list(map(Point, points))
-        else:
-            self.points = list()
-
-        if self.transform.is_identity() or not transformed:
-            points = self.points
-        else:
-            points = list(map(self.transform.point_in_matrix_space, self.points))
-        if self.is_degenerate():
+        points = self._parse_points()
+        if transformed and not self.transform.is_identity():
+            points = list(map(self.transform.point_in_matrix_space, points))
+        if len(points) == 0:
             return []
         segments = [path.Move(None, points[0])]
         last = points[0]
-- 
2.43.0


From a3effe91de1309395e24bb66a784a3a473d080d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 59/76] fix: round shapes had no rotation and did not know pi

---
 svgio/nodes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 49c9db9..7ce4e5c 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -6,6 +6,7 @@ from copy import copy
 from math import (
     atan2,
     cos,
+    pi,
     sin,
     sqrt,
     tan,
@@ -859,6 +860,11 @@ class Rect(Shape):
 class _RoundShape(Shape):
     # rehome class
 
+    @property
+    def rotation(self):
+        # Circles and ellipses are aligned with the axes.
+        return 0
+
     def unit_matrix(self):
         """
         return the unit matrix which could would transform the unit circle into this ellipse.
-- 
2.43.0


From b0f6e54e57fdbb17fb48bf56cb7257590f460dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 60/76] fix: the transform of a node is the matrix of its own
 and its ancestors transforms

---
 svgio/nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 7ce4e5c..709b609 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -532,8 +532,10 @@ class Transformable:
 
     @property
     def transform(self):
-        values = Document.get_values(self)
-        return values.get(SVG_ATTR_TRANSFORM)
+        matrix = Matrix()
+        for node in Document.get_ancestors(self):
+            matrix *= Matrix(node.attributes.get(SVG_ATTR_TRANSFORM, ""))
+        return matrix
 
     def __mul__(self, other):
         # TODO: Mutate TRANSFORM TO APPEND THIS.
-- 
2.43.0


From 7a29c5c4f9a1695e3cc779b6101553f47010647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 61/76] fix: circles referred to a rotation

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 709b609..b9822e9 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1194,7 +1194,7 @@ class Circle(_RoundShape):
                 center,
                 rx=rx,
                 ry=ry,
-                rotation=self.rotation,
+                rotation=0,  # was self.rotation
                 sweep=step_size,
             )
             t_start = t_end
-- 
2.43.0


From 4f23810d903f0d9272270a33900f60394ed83970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 62/76] fix: viewbox_transform of svg, image and pattern
 referred to members that do not exist

---
 svgio/nodes.py | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index b9822e9..bdaf685 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -639,6 +639,28 @@ class GraphicalElement:
         #     return self.stroke_width
 
 
+def _viewbox_transform(node):
+    """
+    Transform of the content of a node with a viewBox into the viewport of that node.
+    """
+    if node.viewBox is None or node.width is None or node.height is None:
+        return ""
+    x = 0 if node.x is None else node.x
+    y = 0 if node.y is None else node.y
+    viewbox = Viewbox(node.viewBox, node.preserveAspectRatio)
+    return Viewbox.viewbox_transform(
+        Length(x).value(),
+        Length(y).value(),
+        Length(node.width).value(),
+        Length(node.height).value(),
+        viewbox.x,
+        viewbox.y,
+        viewbox.width,
+        viewbox.height,
+        viewbox.preserve_aspect_ratio,
+    )
+
+
 ########################
 #  SVG Basic Shapes
 ########################
@@ -1459,11 +1481,17 @@ class Pattern(ContainerElement, Element):
     def __int__(self):
         return 0
 
+    @property
+    def viewBox(self):
+        return self.attributes.get(SVG_ATTR_VIEWBOX)
+
+    @property
+    def preserveAspectRatio(self):
+        return self.attributes.get(SVG_ATTR_PRESERVEASPECTRATIO)
+
     @property
     def viewbox_transform(self):
-        if self.viewbox is None:
-            return ""
-        return self.viewbox.transform(self)
+        return _viewbox_transform(self)
 
     @property
     def x(self):
@@ -1725,9 +1753,7 @@ class Image(Element, GraphicalElement, Transformable):
 
     @property
     def viewbox_transform(self):
-        if self.viewbox is None:
-            return ""
-        return self.viewbox.transform(self)
+        return _viewbox_transform(self)
 
     def load(self, directory=None):
         try:
@@ -1871,10 +1897,7 @@ class SVG(Group, ContainerElement, StructuralElement):
 
     @property
     def viewbox_transform(self):
-        viewbox = self.viewBox
-        if viewbox is None:
-            return ""
-        return viewbox.transform(self)
+        return _viewbox_transform(self)
 
     def _name(self):
         return self.__class__.__name__
-- 
2.43.0


From 2cf81cb395503fccdc34d66047ae3ea3a9f155eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 63/76] fix: data of an image referred to a member that does
 not exist

---
 svgio/nodes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index bdaf685..b8dc80a 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1702,18 +1702,18 @@ class Image(Element, GraphicalElement, Transformable):
     @property
     def data(self):
         url = self.href
-        if url.startswith("data:image/"):
+        if url is not None and url.startswith("data:image/"):
             # Data URL
             from base64 import b64decode
 
             if url.startswith("data:image/png;base64,"):
-                return b64decode(self.url[22:])
+                return b64decode(url[22:])
             elif url.startswith("data:image/jpg;base64,"):
-                return b64decode(self.url[22:])
+                return b64decode(url[22:])
             elif url.startswith("data:image/jpeg;base64,"):
-                return b64decode(self.url[23:])
+                return b64decode(url[23:])
             elif url.startswith("data:image/svg+xml;base64,"):
-                return b64decode(self.url[26:])
+                return b64decode(url[26:])
 
     @property
     def x(self):
-- 
2.43.0


From 5e45d2b7769f9e7131c4dd99275097f8ef0893a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 64/76] fix: a loaded image had no way to take its size from
 the data

---
 svgio/nodes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index b8dc80a..6b91333 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1782,6 +1782,11 @@ class Image(Element, GraphicalElement, Transformable):
             # PIL/Pillow not found, decoding data is most we can do.
             pass
 
+    def set_values_by_image(self):
+        if self.image is not None:
+            self.image_width = self.image.width
+            self.image_height = self.image.height
+
     def load_file(self, directory):
         try:
             # This code will not activate without PIL/Pillow installed.
-- 
2.43.0


From 3486a6a6c7bf6207393f9246b59348987432ab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 65/76] fix: printing a text referred to members that do not
 exist

---
 svgio/nodes.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 6b91333..50f6fda 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1567,19 +1567,19 @@ class Text(TextContentElement, Element, GraphicalElement, Transformable):
     a value exists.
     """
 
-    # def __init__(self, *args, **kwargs):
-    #     if len(args) >= 1:
-    #         self.text = args[0]
-    #     else:
-    #         self.text = ""
-    #
-    #     self.anchor = "start"  # start, middle, end.
-    #     self.font_family = "san-serif"
-    #     self.font_size = 16.0  # 16 point font 'normal'
-    #     self.font_weight = 400.0  # Thin=100, Normal=400, Bold=700
-    #     self.font_face = ""
-    #
-    #     self.path = None
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        if len(args) >= 1:
+            self.character_data = args[0]
+        self.anchor = "start"  # start, middle, end.
+        self.font_family = "san-serif"
+        self.font_size = 16.0  # 16 point font 'normal'
+        self.font_weight = 400.0  # Thin=100, Normal=400, Bold=700
+        self.font_face = ""
+
+    @property
+    def text(self):
+        return self.character_data
 
     def __str__(self):
         parts = list()
-- 
2.43.0


From fdde5fed8b160ae6e1dd2a561f70e12e7e86c366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 66/76] fix: a link of an ancestor hid the link of the node
 itself

---
 svgio/nodes.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 50f6fda..3dc3983 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -466,6 +466,13 @@ class Document(Node):
             values.update(n.attributes)
         return values
 
+    @staticmethod
+    def get_link(node):
+        for n in Document.get_ancestors(node):
+            for key in (XLINK_HREF, SVG_HREF):
+                if key in n.attributes:
+                    return n.attributes[key]
+
     def xml(self, context=None):
         return "".join(node.xml() for node in self)
 
@@ -1515,11 +1522,7 @@ class Pattern(ContainerElement, Element):
 
     @property
     def href(self):
-        values = Document.get_values(self)
-        if XLINK_HREF in values:
-            return values[XLINK_HREF]
-        elif SVG_HREF in values:
-            return values[SVG_HREF]
+        return Document.get_link(self)
 
     def property_by_object(self, s):
         Element.property_by_object(self, s)
@@ -1737,11 +1740,7 @@ class Image(Element, GraphicalElement, Transformable):
 
     @property
     def href(self):
-        values = Document.get_values(self)
-        if XLINK_HREF in values:
-            return values[XLINK_HREF]
-        elif SVG_HREF in values:
-            return values[SVG_HREF]
+        return Document.get_link(self)
 
     @property
     def viewBox(self):
@@ -1964,11 +1963,7 @@ class Style(Element):
 class Script(Element):
     @property
     def href(self):
-        values = Document.get_values(self)
-        if XLINK_HREF in values:
-            return values[XLINK_HREF]
-        elif SVG_HREF in values:
-            return values[SVG_HREF]
+        return Document.get_link(self)
 
     def _name(self):
         return self.__class__.__name__
@@ -1980,11 +1975,7 @@ class Hyperlink(ContainerElement, Element):
 
     @property
     def href(self):
-        values = Document.get_values(self)
-        if XLINK_HREF in values:
-            return values[XLINK_HREF]
-        elif SVG_HREF in values:
-            return values[SVG_HREF]
+        return Document.get_link(self)
 
     def _name(self):
         return self.__class__.__name__
-- 
2.43.0


From 241b90dc8024cf998bbb22803d8d16a3481e6c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 67/76] fix: position and center failed when one coordinate was
 not given

---
 svgio/nodes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 3dc3983..2580d40 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -768,8 +768,8 @@ class Rect(Shape):
     @property
     def position(self):
         values = Document.get_values(self)
-        x = values.get(SVG_ATTR_X)
-        y = values.get(SVG_ATTR_Y)
+        x = values.get(SVG_ATTR_X, 0)
+        y = values.get(SVG_ATTR_Y, 0)
         return Point(x, y)
 
     @property
@@ -1099,8 +1099,8 @@ class Ellipse(_RoundShape):
     @property
     def center(self):
         values = Document.get_values(self)
-        cx = values.get(SVG_ATTR_CENTER_X)
-        cy = values.get(SVG_ATTR_CENTER_Y)
+        cx = values.get(SVG_ATTR_CENTER_X, 0)
+        cy = values.get(SVG_ATTR_CENTER_Y, 0)
         return Point(cx, cy)
 
     def segments(self, transformed=True):
@@ -1183,8 +1183,8 @@ class Circle(_RoundShape):
     @property
     def center(self):
         values = Document.get_values(self)
-        cx = values.get(SVG_ATTR_CENTER_X)
-        cy = values.get(SVG_ATTR_CENTER_Y)
+        cx = values.get(SVG_ATTR_CENTER_X, 0)
+        cy = values.get(SVG_ATTR_CENTER_Y, 0)
         return Point(cx, cy)
 
     def segments(self, transformed=True):
-- 
2.43.0


From b5502702a7a9197fadb0921a8543d304b4c27cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 68/76] fix: nodes with different names or attributes were
 reported equal

---
 svgio/nodes.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 2580d40..e5c5180 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -282,7 +282,15 @@ class Node(list):
         and so on. The specific set of data points that must match varies depending on the types of the nodes.
         :return:
         """
-        return self == node
+        return (
+            self.tag() == node.tag()
+            and self.attributes == node.attributes
+            and self.character_data == node.character_data
+            and len(self) == len(node)
+            and all(
+                a.is_equal_node(b) and a.tail == b.tail for a, b in zip(self, node)
+            )
+        )
 
     def is_same_node(self, node):
         """
-- 
2.43.0


From 5f797f8b25e628e97c9a1f7d1f24f2c8e56e2da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 69/76] fix: transforming a node repeated its children like a
 list

---
 svgio/nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index e5c5180..c4ca491 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -681,7 +681,7 @@ def _viewbox_transform(node):
 ########################
 
 
-class Shape(Element, GraphicalElement, Transformable):
+class Shape(GraphicalElement, Transformable, Element):
     """
     SVG Shapes are several SVG items defined in SVG 1.1 9.1
     https://www.w3.org/TR/SVG11/shapes.html
@@ -1418,7 +1418,7 @@ class Path(Shape):
 ########################
 
 
-class Group(Element, ContainerElement, StructuralElement, Transformable):
+class Group(ContainerElement, StructuralElement, Transformable, Element):
     """
     Group Container element can have children.
     SVG 2.0 <g> are defined in:
@@ -1567,7 +1567,7 @@ class Pattern(ContainerElement, Element):
         return self.__class__.__name__
 
 
-class Text(TextContentElement, Element, GraphicalElement, Transformable):
+class Text(TextContentElement, GraphicalElement, Transformable, Element):
     """
     SVG Text are defined in SVG 2.0 Chapter 11
 
@@ -1696,7 +1696,7 @@ class TSpan(Text):
         return self.__class__.__name__
 
 
-class Image(Element, GraphicalElement, Transformable):
+class Image(GraphicalElement, Transformable, Element):
     """
     SVG Images are defined in SVG 2.0 12.3
 
-- 
2.43.0


From 3b8ca5f13fda613a761c5327a639f534810bb680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 70/76] fix: a circle had no radii rx and ry

---
 svgio/nodes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index c4ca491..0970d15 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1178,6 +1178,14 @@ class Circle(_RoundShape):
         values = Document.get_values(self)
         return values.get(SVG_ATTR_RADIUS)
 
+    @property
+    def rx(self):
+        return self.r
+
+    @property
+    def ry(self):
+        return self.r
+
     @property
     def cx(self):
         values = Document.get_values(self)
-- 
2.43.0


From 90cc1b9fcb1e471817e07da6339b0653023744ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 71/76] fix: get_ellipse of an arc referred to an unknown
 Ellipse

---
 svgio/path.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index c7964ad..9c3aa51 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1891,7 +1891,14 @@ class Arc(Curve):
         return Point(px, py)
 
     def get_ellipse(self):
-        return Ellipse(self.center, self.rx, self.ry, self.get_rotation())
+        from .nodes import Ellipse
+
+        center = self.center
+        ellipse = Ellipse(center.x, center.y, self.rx, self.ry)
+        matrix = Matrix()
+        matrix.post_rotate(self.get_rotation(), center.x, center.y)
+        ellipse *= matrix
+        return ellipse
 
     def bbox(self):
         """Find the bounding box of a arc.
-- 
2.43.0


From 37521ba254cabb14224a99256ab79f9d27563e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:24 +0000
Subject: [PATCH 72/76] fix: npoint lost the segments without a requested
 position

---
 svgio/path.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 9c3aa51..a8ee40a 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2171,11 +2171,12 @@ class Path(MutableSequence):
         # Shortcuts
         if self._length is None:
             self._calc_lengths(error=error, segments=segments)
+        positions = np.asarray(positions, dtype=float)
         xy = np.empty((len(positions), 2), dtype=float)
         if self._length == 0:
-            i = int(round(positions * (len(segments) - 1)))
-            point = segments[i].point(0.0)
-            xy[:] = point
+            for j, position in enumerate(positions):
+                i = int(round(position * (len(segments) - 1)))
+                xy[j] = list(segments[i].point(0.0))
             return xy
 
         # Find which segment the point we search for is located on:
@@ -2184,19 +2185,14 @@ class Path(MutableSequence):
             segment_end = segment_start + self._lengths[index]
             position_subset = (segment_start <= positions) & (positions < segment_end)
             v0 = positions[position_subset]
-            if not len(v0):
-                continue  # Nothing matched.
-            d = segment_end - segment_start
-            if d == 0:  # This segment is 0 length.
-                segment_pos = 0.0
-            else:
-                segment_pos = (v0 - segment_start) / d
-            c = segment.npoint(segment_pos)
-            xy[position_subset] = c[:]
+            if len(v0):
+                segment_pos = (v0 - segment_start) / (segment_end - segment_start)
+                c = segment.npoint(segment_pos)
+                xy[position_subset] = c[:]
             segment_start = segment_end
 
-        # the loop above will miss position == 1
-        xy[positions == 1] = np.array(list(segments[-1].end))
+        # the loop above will miss position == 1, and those beyond the rounded total.
+        xy[positions >= min(segment_start, 1)] = np.array(list(segments[-1].end))
         return xy
 
     def point(self, position, error=ERROR):
-- 
2.43.0


From 225f31834c541ea07a57e60244e83eda9a8f3cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:52 +0000
Subject: [PATCH 73/76] fix: a remembered rough length answered requests for
 accurate ones

---
 svgio/path.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index a8ee40a..164f790 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1980,6 +1980,7 @@ class Path(MutableSequence):
     def __init__(self, *args, **kwargs):
         self._length = None
         self._lengths = None
+        self._accuracy = ERROR, MIN_DEPTH
         self._segments = list()
         if len(args) != 1:
             self._segments.extend(args)
@@ -2148,7 +2149,10 @@ class Path(MutableSequence):
         if segments is None:
             segments = self.segments(False)
         if self._length is not None:
-            return
+            known_error, known_depth = self._accuracy
+            if known_error <= error and known_depth >= min_depth:
+                return
+        self._accuracy = error, min_depth
         lengths = [each.length(error=error, min_depth=min_depth) for each in segments]
         self._length = sum(lengths)
         if self._length == 0:
-- 
2.43.0


From a95dd999725e487936046589e29a238ae4a15048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 74/76] fix: the sign of the radii of an arc is ignored, as SVG
 prescribes

---
 svgio/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 164f790..1bdbb80 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1619,6 +1619,8 @@ class Arc(Curve):
         y1prim = -sinr * dx + cosr * dy
         y1prim_sq = y1prim * y1prim
 
+        rx = abs(rx)
+        ry = abs(ry)
         rx_sq = rx * rx
         ry_sq = ry * ry
 
-- 
2.43.0


From 85bf4b06637ce21e15686dec836af08d803f7717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 75/76] fix: an arc given a rotation among six keywords need
 not be given SVG parameters

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 1bdbb80..bbb8abc 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1182,7 +1182,7 @@ class Arc(Curve):
         if len(args) == 6 and isinstance(args[1], complex):
             self._svg_complex_parameterize(*args)
             return
-        elif len(kwargs) == 6 and "rotation" in kwargs:
+        elif len(kwargs) == 6 and "rotation" in kwargs and "radius" in kwargs:
             self._svg_complex_parameterize(**kwargs)
             return
         elif len(args) == 7:
-- 
2.43.0


From 56ff3c9eed02ef2e41b62f1a9f7bd16a4c1c8aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 76/76] fix: the length of a nearly straight quadratic curve
 was lost to cancellation

---
 svgio/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index bbb8abc..2d5e515 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -869,6 +869,9 @@ class QuadraticBezier(Curve):
         """Calculate the length of the path up to a certain position"""
         a = self.start - 2 * self.control + self.end
         b = 2 * (self.control - self.start)
+        if abs(a) < 1e-6 * abs(b):
+            # Straight up to rounding: the closed form would cancel.
+            return abs(a + b)
         try:
             # For an explanation of this case, see
             # http://www.malczak.info/blog/quadratic-bezier-curve-length/
-- 
2.43.0

