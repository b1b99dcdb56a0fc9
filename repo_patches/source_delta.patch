From d4ee15ffa80ad6808674f8e4b569b75144bdbd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:31 +0000
Subject: [PATCH 01/58] fix: reject malformed time specifications instead of
 reading them as zero

---
 sangfroid/t.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 68b7815..8926ddc 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -132,13 +132,15 @@ class T:
         frames = 0.0
 
         found = TIMESPEC_RE.split(s)
-        if found is None:
-            complain("This doesn't look like a time specification at all.")
 
         parts = {}
         for spec in found:
             if spec.strip()=='':
                 continue
+            elif not TIMESPEC_RE.fullmatch(spec):
+                complain(
+                        f"'{spec}' is not a number followed by "
+                        "'h', 'm', 's', or 'f'.")
             elif spec[-1] in parts:
                 complain(
                         f"The '{spec[-1]}' part was specified "
@@ -150,6 +152,9 @@ class T:
                 complain(
                         f"'{spec[:-1]}' is not a valid number.")
 
+        if not parts:
+            complain("This doesn't look like a time specification at all.")
+
         seconds = None
 
         for unit, size in [
-- 
2.43.0


From 17510861ad6473a0feb0571677ed1fa246f7781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:34 +0000
Subject: [PATCH 02/58] fix: zero seconds with frames obey the documented rules
 for seconds

---
 sangfroid/t.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 8926ddc..8fc573c 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -175,10 +175,14 @@ class T:
             result += seconds * self._fps
 
         if 'f' in parts:
-            if seconds and parts['f']<0:
+            if seconds is not None and parts['f']<0:
                 complain("If you give a number of seconds, the number "
                          "of frames can't be negative.")
 
+            if seconds is not None and parts['f']!=0 and self._fps is None:
+                complain("Time specifications in seconds require "
+                         "an anchored ref.")
+
             seconds = seconds or 0
 
             if seconds<0:
-- 
2.43.0


From 2e65a2c37cccdf3625ee11833f1be8f652770e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:38 +0000
Subject: [PATCH 03/58] fix: the minus sign of a negative time covers hours,
 minutes and seconds

---
 sangfroid/t.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 8fc573c..2c2196a 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -163,7 +163,11 @@ class T:
                 ('s', 1),
                 ]:
             if unit in parts:
-                seconds = (seconds or 0.0) + parts[unit]*size
+                if seconds is not None and seconds<0:
+                    # the sign of the first unit covers the whole time
+                    seconds -= abs(parts[unit])*size
+                else:
+                    seconds = (seconds or 0.0) + parts[unit]*size
 
         result = 0.0
 
-- 
2.43.0


From b5b01ea5b87aeb962cf422138d379b390496b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:42 +0000
Subject: [PATCH 04/58] fix: times keep their precision when written, and
 exponents are read back

---
 sangfroid/t.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 2c2196a..618203a 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -262,7 +262,7 @@ class T:
 
     def __str__(self):
         if self._fps is None:
-            return '%gf' % (self._frames, )
+            return '%.15gf' % (self._frames, )
 
         frames = self._frames
         seconds = abs(self._frames/self._fps)
@@ -281,7 +281,7 @@ class T:
 
         if seconds!=0 or result==[]:
             frames = abs(frames) % self._fps
-            result.append('%gf' % (frames,))
+            result.append('%.15gf' % (frames,))
 
         if self._frames<0:
             minus = '-'
@@ -304,7 +304,7 @@ class T:
 # It doesn't matter that you can produce invalid decimals with this regex:
 # that will be discovered when we do the float conversion.
 TIMESPEC_RE = re.compile(
-        r'(-?[0-9.]+[hmsf])'
+        r'(-?[0-9.]+(?:e[-+]?[0-9]+)?[hmsf])'
         )
 
 def _canvas_root(tag):
-- 
2.43.0


From 4dc3e777e4d814a4893ea84e9d705a35e82d4229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:45 +0000
Subject: [PATCH 05/58] fix: Ts that compare equal hash equal, whether or not
 they know their FPS

---
 sangfroid/t.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 618203a..d8fdf91 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -295,11 +295,7 @@ class T:
     __repr__ = __str__
 
     def __hash__(self):
-        if self._frames == 0:
-            return 0
-
-        s = (self._frames, self._fps)
-        return hash(s)
+        return hash(self._frames)
 
 # It doesn't matter that you can produce invalid decimals with this regex:
 # that will be discovered when we do the float conversion.
-- 
2.43.0


From 531f610aa58f6c7a01ce01492016fd5db70b7e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:48 +0000
Subject: [PATCH 06/58] fix: zero times compare with times of any FPS, as
 documented

---
 sangfroid/t.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index d8fdf91..6c92ed7 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -240,7 +240,9 @@ class T:
             if (
                     other.fps is not None and
                     self.fps is not None and
-                    other.fps!=self.fps):
+                    other.fps!=self.fps and
+                    other.frames!=0 and
+                    self.frames!=0):
                 raise ValueError(
                         "Comparison between two Ts with different FPS: "
                         f"{self}, {other}"
-- 
2.43.0


From 7549c2ecbd4e99f91eea879955de5cd6efc367fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:52 +0000
Subject: [PATCH 07/58] fix: copying a T before the start of the animation
 doesn't move it

---
 sangfroid/t.py           | 2 ++
 sangfroid/value/value.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 6c92ed7..d64d59a 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -94,6 +94,8 @@ class T:
         try:
             if isinstance(value, str):
                 self._frames = self._parse_time_spec(value)
+            elif isinstance(value, T):
+                self._frames = value._frames
             else:
                 self._frames = float(value)
 
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 2f83224..6b03fcd 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -305,7 +305,7 @@ class Timeline:
             return T(t, ref = self.parent._tag)
         elif isinstance(t, T):
             if t._fps is None:
-                return T(t._frames, self.parent._tag)
+                return T(t, self.parent._tag)
             else:
                 return t
         else:
-- 
2.43.0


From 084272ef3a0ed9442c539bf1a6999d9f8a53126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:51 +0000
Subject: [PATCH 08/58] fix: Animation reads and writes hyphenated canvas
 attributes under their real names

---
 sangfroid/animation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 1a24900..5344c14 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -55,10 +55,10 @@ class Animation(Group):
     yres = TagAttrField(float,       2834.645669,
                         doc = "The vertical resolution.",
                         )
-    gamma_r = TagAttrField(float,       1.0)
-    gamma_g = TagAttrField(float,       1.0)
-    gamma_b = TagAttrField(float,       1.0)
-    view_box = TagAttrField(str, '-4.0 2.25 4.0 -2.25') # XXX wrong
+    gamma_r = TagAttrField(float,       1.0, name='gamma-r')
+    gamma_g = TagAttrField(float,       1.0, name='gamma-g')
+    gamma_b = TagAttrField(float,       1.0, name='gamma-b')
+    view_box = TagAttrField(str, '-4.0 2.25 4.0 -2.25', name='view-box')
     antialias = TagAttrField(int,         1) # XXX enum?
     fps = TagAttrField(float,       24.0,
         doc = """
@@ -73,6 +73,7 @@ class Animation(Group):
             Almost always zero.""",
            )
     end_time = TagTimeAttrField('5s',
+            name = 'end-time',
             doc = 'The time at which this animation ends.',
            )
     bgcolor = TagAttrField(str,         '0.5 0.5 0.5 1.0')
-- 
2.43.0


From ba16b103900461c9583975de0d7ac6e6e8b44dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:55 +0000
Subject: [PATCH 09/58] fix: assigning end_time writes a time specification
 which can be read back

---
 sangfroid/animation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 5344c14..148c4da 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -33,6 +33,11 @@ class TagTimeAttrField(TagAttrField):
                  ref = obj._tag,
                  )
 
+    def __set__(self, obj, value):
+        super().__set__(obj,
+                        T(value, ref = obj._tag),
+                        )
+
 class Animation(Group):
     """
     A Synfig animation.
-- 
2.43.0


From 56b47c40f5b6d363b8f3d221723ff0dbbb91a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:58 +0000
Subject: [PATCH 10/58] fix: setting an animation's desc works when it didn't
 have one before

---
 sangfroid/field.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index bb1b3e1..0609cab 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -298,6 +298,10 @@ class NamedChildField(Field):
 
         subtag = self.get_subtag_for_obj(obj)
 
+        if subtag is None:
+            subtag = bs4.Tag(name = self.name)
+            obj._tag.insert(0, subtag)
+
         subtag.string = value
 
 """
-- 
2.43.0


From e3a7b2163bc0c8e1562b36a8589e5d1eebbdfb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:17 +0000
Subject: [PATCH 11/58] fix: assigning to a Vector replaces its old members

---
 sangfroid/value/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 6cb34ce..e270465 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -63,6 +63,7 @@ class Vector(Value):
 
         self._tag.name = self.TAG_NAME
         self._tag.attrs = {}
+        self._tag.clear()
 
         for k, v in members.items():
             addendum = bs4.element.Tag(name=k)
-- 
2.43.0


From 30c1ab698ebf450644e4ec49dcdc8c062239f650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:34 +0000
Subject: [PATCH 12/58] fix: assigning one part of a transformation keeps the
 other parts

---
 sangfroid/field.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index 0609cab..6f8558d 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -325,10 +325,8 @@ class ShortcutField(Field):
         return result
 
     def __set__(self, obj, value):
-        self.upstream.__set__(obj,
-                              {
-                                  self.name: value,
-                                  })
+        v = self.upstream.__get__(obj)
+        v[self.name].value = value
 
     """
     Decorator. Imports all the keys of the named field as
-- 
2.43.0


From 2f9f7a8a8499234e84208d95b5cc1c929fb43543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:02 +0000
Subject: [PATCH 13/58] fix: comparing a value with something unconvertible is
 False, not TypeError

---
 sangfroid/value/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 9c1f0a2..c4f4aeb 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -64,7 +64,7 @@ class Simple(Value):
         else:
             try:
                 v = self.our_type(other)
-            except ValueError:
+            except (ValueError, TypeError):
                 v = other
 
         return self._compare_with(v)
-- 
2.43.0


From 20fdad8cbec1c1539c1e818459ec3fa36c643127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:06 +0000
Subject: [PATCH 14/58] fix: assigning to an animated String or Gradient stops
 it being animated

---
 sangfroid/value/gradient.py | 2 ++
 sangfroid/value/string.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sangfroid/value/gradient.py b/sangfroid/value/gradient.py
index 308dd0f..673a97c 100644
--- a/sangfroid/value/gradient.py
+++ b/sangfroid/value/gradient.py
@@ -27,6 +27,8 @@ class Gradient(Value):
         if len(v)<2:
             self._raise_colour_count_error()
 
+        self._tag.name = self.get_name_for_tag()
+        self._tag.attrs = {}
         self._tag.clear()
 
         for pos, colour in sorted(v.items()):
diff --git a/sangfroid/value/string.py b/sangfroid/value/string.py
index 4e9a420..04056cd 100644
--- a/sangfroid/value/string.py
+++ b/sangfroid/value/string.py
@@ -13,6 +13,8 @@ class String(Value):
 
     @value.setter
     def value(self, v):
+        self._tag.name = self.get_name_for_tag()
+        self._tag.attrs = {}
         self._tag.string = str(v)
 
     def as_python_expression(self):
-- 
2.43.0


From 4d35a80ec77e312b1b378d31444c677fcf215e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:10 +0000
Subject: [PATCH 15/58] fix: an empty <string> reads as the empty string, not
 as 'None'

---
 sangfroid/value/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/string.py b/sangfroid/value/string.py
index 04056cd..99a4b54 100644
--- a/sangfroid/value/string.py
+++ b/sangfroid/value/string.py
@@ -8,7 +8,7 @@ class String(Value):
 
     @property
     def value(self):
-        result = str(self._tag.string)
+        result = self._tag.get_text()
         return result
 
     @value.setter
-- 
2.43.0


From 9dc973c961f83a02f14f7793527ea237e13aa047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:00 +0000
Subject: [PATCH 16/58] fix: Timeline lookup takes every kind of time, and
 doesn't depend on file order

---
 sangfroid/value/value.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 6b03fcd..33cfd6e 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -378,15 +378,7 @@ class Timeline:
         return self
 
     def __getitem__(self, time):
-        if 'x_y' in str(self.parent._tag):
-            raise ValueError()
-        for t, wt in self.parent._waypoints().items():
-            if t==time:
-                return wt
-            elif t>time:
-                raise KeyError(time)
-
-        raise KeyError(time)
+        return self.parent._waypoints()[self._ensure_fps(time)]
 
     def __setitem__(self, t, v):
 
-- 
2.43.0


From 1305f494ced2b1a6dd5e887d4c5e4e9cfaf5056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:03 +0000
Subject: [PATCH 17/58] fix: timeline += waypoint evaluates to the timeline

---
 sangfroid/value/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 33cfd6e..40cd765 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -322,7 +322,7 @@ class Timeline:
         return list(self.parent._waypoints().items())
 
     def __iadd__(self, waypoints):
-        self.add(waypoints,
+        return self.add(waypoints,
             overwrite = True,
                  )
 
-- 
2.43.0


From a02e8cb01f74cf6203bca29b2d1eb0d9977b991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:08 +0000
Subject: [PATCH 18/58] fix: a value which isn't part of a document can stop
 being animated

---
 sangfroid/value/value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 40cd765..e708e45 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -77,7 +77,8 @@ class Value:
             self._tag.clear()
 
             new_tag = self._get_empty_tag()
-            self._tag.replace_with(new_tag)
+            if self._tag.parent is not None:
+                self._tag.replace_with(new_tag)
             self._tag = new_tag
 
             if first_value is not None:
-- 
2.43.0


From 338048503ea0f1bf7cb082bbc80b5222e3d6767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:11 +0000
Subject: [PATCH 19/58] fix: animating a value keeps its full precision

---
 sangfroid/value/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index e708e45..2e1cce8 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -56,7 +56,7 @@ class Value:
         elif whether:
 
             if adjust_contents:
-                former_value = self.value
+                former_value = self.__class__(copy.copy(self._tag))
 
             our_type = self._tag.name
             self._tag.attrs = {}
-- 
2.43.0


From 2dcbbf40baa08e6f632461b6a70013bebb054458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 20/58] fix: find_all() by type finds types with underscores,
 and layers with a param called type

---
 sangfroid/layer/layer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index e3ecbd3..c2f0897 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -226,7 +226,6 @@ class Layer:
 
                 def munge(k,v):
                     if k=='type':
-                        k = 'type_'
                         v = v.lower()
 
                     return (k,v)
@@ -240,7 +239,11 @@ class Layer:
 
                 for k, want_value in targets:
                     try:
-                        found_value = getattr(found_layer, k)
+                        if k=='type':
+                            found_value = normalise_synfig_layer_type_name(
+                                    found_tag['type'])
+                        else:
+                            found_value = getattr(found_layer, k)
                         logger.debug("  -- %s field is %s; want %s", k,
                                      repr(found_value),
                                      repr(want_value),
-- 
2.43.0


From 7d370c3e3843cef1528ab24393dd4d2878c83f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:03 +0000
Subject: [PATCH 21/58] fix: non-recursive find_all() searches the immediate
 children of groups

---
 sangfroid/layer/layer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index c2f0897..705d51b 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -272,9 +272,14 @@ class Layer:
 
             raise v.ValueError(found_tag)
 
+        if recursive:
+            search_in = self._tag
+        else:
+            search_in = getattr(self, 'canvas_tag', self._tag)
+
         result = [
                 self.from_tag(x) for x in
-                self._tag.find_all(matcher,
+                search_in.find_all(matcher,
                                   recursive=recursive,
                                   )
                 ]
-- 
2.43.0


From 7cdeb1249e4ccb8e38c432cf4b69eb9ae40e60d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:06 +0000
Subject: [PATCH 22/58] fix: find_all() copes with layers whose field is
 animated

---
 sangfroid/layer/layer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 705d51b..258e77e 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -252,6 +252,10 @@ class Layer:
                         logger.debug("  -- it does not have a %s", k)
                         continue
 
+                    if getattr(found_value, 'is_animated', False):
+                        logger.debug("  -- %s is animated", k)
+                        continue
+
                     logger.debug("  want: %s  found: %s",
                                  want_value, found_value)
 
-- 
2.43.0


From 7ac3bb33bf4cb91aa0acf21534949dc81e6286b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:25 +0000
Subject: [PATCH 23/58] fix: a group's own params come before those of the
 layers inside it

---
 sangfroid/field.py       |  1 +
 sangfroid/layer/group.py |  1 +
 sangfroid/layer/layer.py | 19 +++++++++++++------
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index 6f8558d..5fcf80b 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -213,6 +213,7 @@ class ParamTagField(Field):
                                attrs={
                                    'name': self.name,
                                    },
+                               recursive=False,
                                )
 
         if holder is None:
diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index e29342b..576bdde 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -61,6 +61,7 @@ class Group(Layer):
                               attrs={
                                   'name': 'canvas',
                                   },
+                              recursive=False,
                               )
 
         if param is None:
diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 258e77e..653d5d4 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -58,6 +58,8 @@ class Layer:
     def __init__(self, tag=None):
         if tag is None:
             self._tag = self._construct_empty_tag()
+        elif isinstance(tag, bs4.BeautifulSoup):
+            self._tag = tag.find()
         elif isinstance(tag, bs4.Tag):
             self._tag = tag
         else:
@@ -88,14 +90,22 @@ class Layer:
         result += ']'
         return result
 
+    def _find_param(self, f):
+        # our own params come before those of any layers inside us
+        for recursive in (False, True):
+            found = self._tag.find('param', attrs={'name': f},
+                                   recursive=recursive)
+            if found is not None:
+                return found
+
     def __getitem__(self, f):
-        found = self._tag.find('param', attrs={'name': f})
+        found = self._find_param(f)
         if found is None:
             raise KeyError(f)
         return _name_and_value_of(found)[1]
 
     def __setitem__(self, f, val):
-        found = self._tag.find('param', attrs={'name': f})
+        found = self._find_param(f)
         if found is None:
             raise KeyError(f)
         old_value = _name_and_value_of(found)[1]
@@ -111,10 +121,7 @@ class Layer:
         old_value.tag.replace_with(new_value.tag)
 
     def __contains__(self, f):
-        found = self._tag.find(
-                'param',
-                attrs={'name': f},
-                )
+        found = self._find_param(f)
         return found is not None
     
     @property
-- 
2.43.0


From f91e2fcebd70d18e88f369d07b9caeb0394bd3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:05 +0000
Subject: [PATCH 24/58] fix: assigning one layer's value to another layer
 copies it

---
 sangfroid/layer/layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 653d5d4..235a11b 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -115,6 +115,9 @@ class Layer:
                 raise TypeError(val.__class__)
 
             new_value = val
+            if val.tag.parent is not None:
+                # it's in use somewhere else, so leave it there
+                new_value = val.__class__(copy.copy(val.tag))
         else:
             new_value = old_value.__class__(val)
 
-- 
2.43.0


From 26301173792c858b02a2072d6d4c337d4c83c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:08 +0000
Subject: [PATCH 25/58] fix: a field spelt type_ in Python is the param named
 type

---
 sangfroid/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index 5fcf80b..65e17f6 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -71,7 +71,8 @@ class Field:
     def __set_name__(self, owner, name):
         self.owner = owner
         if self.name is None:
-            self.name = name
+            # fields may have a final underscore to avoid reserved words
+            self.name = name.rstrip('_')
 
     def __get__(self, obj, obj_type=None):
         raise NotImplementedError()
-- 
2.43.0


From 32fb8fca287174c64d4f397b20e5015ae3e06eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:10 +0000
Subject: [PATCH 26/58] fix: blend_method fields can be read

---
 sangfroid/field.py             | 5 +++++
 sangfroid/value/blendmethod.py | 8 ++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index 65e17f6..6c31979 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -230,6 +230,11 @@ class ParamTagField(Field):
                     f"contains {len(contents)}.")
 
         result = v.Value.from_tag(contents[0])
+        if (
+                issubclass(self.type_, result.__class__)
+                and not isinstance(result, self.type_)
+                ):
+            result = self.type_(contents[0])
         return result
 
     def __get__(self, obj, obj_type=None):
diff --git a/sangfroid/value/blendmethod.py b/sangfroid/value/blendmethod.py
index 23f360c..06e451c 100644
--- a/sangfroid/value/blendmethod.py
+++ b/sangfroid/value/blendmethod.py
@@ -33,8 +33,12 @@ class BlendMethod(Integer):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
-        self._tag['static'] = 'true'
-        self._tag.name = 'integer'
+        if not (args and args[0] is self._tag):
+            self._tag['static'] = 'true'
+
+    @classmethod
+    def get_name_for_tag(cls):
+        return 'integer'
 
     @classmethod
     def from_tag(cls, t):
-- 
2.43.0


From 0fc5a27dbcea34e0a263a63b38d978c1e4c333fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:45 +0000
Subject: [PATCH 27/58] fix: new layers' times have units, so they can be read

---
 sangfroid/layer/layer.py | 5 ++++-
 sangfroid/t.py           | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 235a11b..c13f7d9 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -404,7 +404,10 @@ class Layer:
 
                         type_ = field.type_
 
-                        if issubclass(type_, v.Time):
+                        if (
+                                issubclass(type_, v.Time) and
+                                isinstance(field.default, str)
+                                ):
                             type_ = _TimeButString
 
                         param_default = type_(field.default)
diff --git a/sangfroid/t.py b/sangfroid/t.py
index d64d59a..85b3c11 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -130,6 +130,9 @@ class T:
 
         s = s.strip()
 
+        if s=='0': # earlier versions wrote this
+            return 0.0
+
         seconds = None
         frames = 0.0
 
-- 
2.43.0


From 603dbede8b3b7d6be9f421eb3486670e582be79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:09 +0000
Subject: [PATCH 28/58] fix: the layers of a canvas can be assigned, and are
 checked first

---
 sangfroid/value/canvas.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/canvas.py b/sangfroid/value/canvas.py
index 3d5856a..3b28a73 100644
--- a/sangfroid/value/canvas.py
+++ b/sangfroid/value/canvas.py
@@ -26,10 +26,14 @@ class Canvas(Value):
 
         from sangfroid.layer.layer import Layer
 
-        self._tag.clear()
+        v = list(v)
 
         for layer in v:
             if not isinstance(layer, Layer):
                 raise TypeError(type(layer))
-            self._tag.append(layer)
+
+        self._tag.clear()
+
+        for layer in v:
+            self._tag.append(layer.tag)
             self._tag.append("\n")
-- 
2.43.0


From 0a2e89d475e04161ab00a74b142f33ebd445ce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:13 +0000
Subject: [PATCH 29/58] fix: rejected gradients and transformations leave the
 old value in place

---
 sangfroid/value/gradient.py       | 11 ++++++++---
 sangfroid/value/transformation.py |  7 ++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/sangfroid/value/gradient.py b/sangfroid/value/gradient.py
index 673a97c..f916c79 100644
--- a/sangfroid/value/gradient.py
+++ b/sangfroid/value/gradient.py
@@ -27,14 +27,19 @@ class Gradient(Value):
         if len(v)<2:
             self._raise_colour_count_error()
 
-        self._tag.name = self.get_name_for_tag()
-        self._tag.attrs = {}
-        self._tag.clear()
+        colour_tags = []
 
         for pos, colour in sorted(v.items()):
 
             colour_tag = Color(colour).tag
             colour_tag['pos'] = '%.06g' % (pos,)
+            colour_tags.append(colour_tag)
+
+        self._tag.name = self.get_name_for_tag()
+        self._tag.attrs = {}
+        self._tag.clear()
+
+        for colour_tag in colour_tags:
             self._tag.append(colour_tag)
 
     def _raise_colour_count_error(self):
diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index 4d23e79..ebe09b7 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -66,7 +66,7 @@ class Composite(Value):
                     f"We can accept: "
                     f"{' '.join(sorted(self.REQUIRED_KEYS.keys()))}")
 
-        self.tag.clear()
+        new_subtags = []
 
         for remaining, v in new_value.items():
 
@@ -75,6 +75,11 @@ class Composite(Value):
             new_subtag = bs4.Tag(name=remaining)
             new_subtag.append(copy(v_as_value.tag))
             new_subtag.append("\n")
+            new_subtags.append(new_subtag)
+
+        self.tag.clear()
+
+        for new_subtag in new_subtags:
             self.tag.append(new_subtag)
 
     def __getattr__(self, key):
-- 
2.43.0


From 00c8763caa9d6fc55c871457538e37ca7999840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:44 +0000
Subject: [PATCH 30/58] fix: a failed save doesn't change which file the
 animation is saved to

---
 sangfroid/animation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 148c4da..5a9b78b 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -238,19 +238,20 @@ class Animation(Group):
                         "you must give one when you save."
                         )
             filename = self._format.filename
+            new_format = self._format
         else:
             new_format = Format.from_filename(filename,
                                               load = False,
                                               )
-            if new_format!=self._format:
-                # XXX copy the images over
-                self._format = new_format
 
-        self._format.save(
+        new_format.save(
                 content = self._soup,
                 filename = filename,
                 )
 
+        # XXX if it's new, copy the images over
+        self._format = new_format
+
 __all__ = [
         'Animation',
         ]
-- 
2.43.0


From e956843084318fde881d9bbdc5b105064862e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:47 +0000
Subject: [PATCH 31/58] fix: an animation which can't be encoded doesn't
 destroy the file it was loaded from

---
 sangfroid/format.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 9648c52..39cd6b2 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -135,8 +135,8 @@ class Format:
 
         return filename
 
-    def _write_to_file(self, f, content):
-        f.write(str(content).encode('UTF-8'))
+    def _encode(self, content):
+        return str(content).encode('UTF-8')
 
     @classmethod
     def handlers(cls):
@@ -172,10 +172,11 @@ class Sif(Format):
         return FileContextHandler(open(self.filename, 'r'))
 
     def save(self, content, filename=None):
+        encoded = self._encode(content)
         filename = self._filename_for_saving(filename)
 
         with open(filename, 'wb') as f:
-            self._write_to_file(f, content)
+            f.write(encoded)
 
 class Sifz(Format):
 
@@ -186,10 +187,11 @@ class Sifz(Format):
         return FileContextHandler(gzip.open(self.filename, 'r'))
 
     def save(self, content, filename=None):
+        encoded = self._encode(content)
         filename = self._filename_for_saving(filename)
 
         with gzip.open(filename, 'wb') as f:
-            self._write_to_file(f, content)
+            f.write(encoded)
 
 class Sfg(Format):
     
-- 
2.43.0


From dbce1b55be98eb315873d8da60b87b89606c33f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:51 +0000
Subject: [PATCH 32/58] fix: only hex digits are accepted in colour strings

---
 sangfroid/value/color.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index 235d345..c74cf2f 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -1,3 +1,4 @@
+import string
 import bs4
 from sangfroid.value.value import Value
 
@@ -77,6 +78,9 @@ class Color(Value):
             else:
                 _raise_format_error()
 
+            if not set(v)<=set(string.hexdigits):
+                _raise_format_error()
+
             result = tuple(
                 round(int(v[i*2:i*2+2], 16)/255, 6)
                 for i in range(4))
-- 
2.43.0


From 07f4fd5ef0f56dc77a2bf3913bb8cdc5b9a39e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:30 +0000
Subject: [PATCH 33/58] fix: bywords weights pauses by the letters of each
 word, as documented

---
 bywords/bywords.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 28c1375..624e6be 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -23,9 +23,10 @@ bywords_groups = None
 
 @functools.total_ordering
 class WordTiming:
-    def __init__(self, text, item):
+    def __init__(self, text, item, letters):
         self.text = text
         self.item = item
+        self.letters = letters
         self.time = 0
 
     def __lt__(self, other):
@@ -91,6 +92,7 @@ class BywordsGroup:
                         WordTiming(
                             text = item.desc[:i],
                             item = item,
+                            letters = len(word),
                             ))
 
                 if words and words[0].strip()=='':
@@ -98,13 +100,13 @@ class BywordsGroup:
 
             s = s[len(item.desc):]
 
-        total_letters = sum([len(w.text) for w in word_timings])
+        total_letters = sum([w.letters for w in word_timings])
         ms_per_letter = duration/total_letters
 
         time = start
         for w in word_timings:
             w.time = time/1000
-            time += len(w.text)*ms_per_letter
+            time += w.letters*ms_per_letter
 
         return word_timings
 
-- 
2.43.0


From 617a5afe9fb182159305a412378d9013d1dbe27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:33 +0000
Subject: [PATCH 34/58] fix: bywords keeps words which appear at the same time
 as each other

---
 bywords/bywords.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 624e6be..4ba7eac 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -146,7 +146,7 @@ class Bywords:
             and group.desc.lower().startswith('bywords')
             ])
 
-        result = {}
+        result = []
         found = None
 
         for start, duration, text in self.lines:
@@ -159,12 +159,11 @@ class Bywords:
                 if found:
                     break
             if found:
-                for word in found:
-                    result[word.time] = word
+                result.extend(found)
             else:
                 self.no_matches.append(text)
 
-        self.words = sorted(list(result.values()))
+        self.words = sorted(result)
 
     def dump_findings_to_logger(self):
         logger.info("\n\n=== Source timings ===\n")
-- 
2.43.0


From 2a4f52c4df5565b7e6fb71fc1918cec9789a6851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:37 +0000
Subject: [PATCH 35/58] fix: bywords copes with lines and groups which have no
 words

---
 bywords/bywords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 4ba7eac..c210449 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -101,7 +101,7 @@ class BywordsGroup:
             s = s[len(item.desc):]
 
         total_letters = sum([w.letters for w in word_timings])
-        ms_per_letter = duration/total_letters
+        ms_per_letter = duration/max(total_letters, 1)
 
         time = start
         for w in word_timings:
-- 
2.43.0


From 241ec6d87b67e35cf648fa3e56fcf64bd451cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:42 +0000
Subject: [PATCH 36/58] fix: timelines only accept lists of waypoints

---
 sangfroid/value/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 2e1cce8..e7465ac 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -97,7 +97,7 @@ class Value:
     @timeline.setter
     def timeline(self, v):
 
-        if isinstance(v, list) and all([n for n in v if isinstance(n, Waypoint)]):
+        if isinstance(v, list) and all([isinstance(n, Waypoint) for n in v]):
             self._set_waypoints(v)
         elif isinstance(v, dict):
             self.timeline = list(v.values())
-- 
2.43.0


From 0a305360124849c59c1f1fd023c7595e75260ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:22 +0000
Subject: [PATCH 37/58] fix: de-animating takes the earliest waypoint, wherever
 it is in the file

---
 sangfroid/value/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index e7465ac..9f37508 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -70,7 +70,7 @@ class Value:
 
             if adjust_contents:
                 timeline = self.timeline
-                first_value = timeline.values()[0]
+                first_value = next(iter(timeline))
             else:
                 first_value = None
 
-- 
2.43.0


From fbfc19378268440929741825288a32ee08a75224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:01 +0000
Subject: [PATCH 38/58] fix: .sif files are read as UTF-8, as they're written,
 whatever the locale

---
 sangfroid/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 39cd6b2..81a1d14 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -169,7 +169,7 @@ class Sif(Format):
     extensions = ('sif',)
 
     def main_file(self):
-        return FileContextHandler(open(self.filename, 'r'))
+        return FileContextHandler(open(self.filename, 'rb'))
 
     def save(self, content, filename=None):
         encoded = self._encode(content)
-- 
2.43.0


From 2a35741d2db3515a2bc6af3f3526021c10a53022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:03 +0000
Subject: [PATCH 39/58] fix: an animation's empty desc still reads as the empty
 string after loading

---
 sangfroid/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index 6c31979..a8c4f7d 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -296,7 +296,7 @@ class NamedChildField(Field):
 
         subtag = self.get_subtag_for_obj(obj)
 
-        if subtag is None:
+        if subtag is None or not subtag.contents:
             return ''
         else:
             return subtag.string
-- 
2.43.0


From 3575339f1833f15e4824bf5f3401f4c26a258479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:07 +0000
Subject: [PATCH 40/58] fix: the template replacer refuses a block which begins
 inside another

---
 sangfroid/template/replacer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/template/replacer.py b/sangfroid/template/replacer.py
index 33ba3a2..8f21081 100644
--- a/sangfroid/template/replacer.py
+++ b/sangfroid/template/replacer.py
@@ -56,6 +56,9 @@ class Replacer:
 
                 m = START_BLOCK_RE.search(line)
                 if m:
+                    if current_block_name is not None:
+                        raise ValueError(f"{filename}:{i}: beginning block in the middle of another")
+
                     current_indent = len(m.groups()[0])
                     current_block_name = m.groups()[1]
                     if current_block_name == '':
-- 
2.43.0


From fb569d9a0621710fd4d57c10eb02709c8552476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:11 +0000
Subject: [PATCH 41/58] fix: a save which fails partway doesn't destroy the
 file which was there

---
 sangfroid/format.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 81a1d14..18fe749 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -1,5 +1,7 @@
 import gzip
 import os
+import shutil
+import tempfile
 from bs4 import BeautifulSoup
 
 class Format:
@@ -138,6 +140,25 @@ class Format:
     def _encode(self, content):
         return str(content).encode('UTF-8')
 
+    def _write(self, filename, encoded, opener=open):
+        """
+        Writes a file, so that if we fail partway through,
+        whatever was there before is still there.
+        """
+        target = os.path.realpath(filename)
+
+        with tempfile.TemporaryDirectory(
+                dir = os.path.dirname(target),
+                ) as d:
+            temp = os.path.join(d, os.path.basename(target))
+
+            with opener(temp, 'wb') as f:
+                f.write(encoded)
+
+            if os.path.exists(target):
+                shutil.copymode(target, temp)
+            os.replace(temp, target)
+
     @classmethod
     def handlers(cls):
         """
@@ -174,9 +195,7 @@ class Sif(Format):
     def save(self, content, filename=None):
         encoded = self._encode(content)
         filename = self._filename_for_saving(filename)
-
-        with open(filename, 'wb') as f:
-            f.write(encoded)
+        self._write(filename, encoded)
 
 class Sifz(Format):
 
@@ -189,9 +208,7 @@ class Sifz(Format):
     def save(self, content, filename=None):
         encoded = self._encode(content)
         filename = self._filename_for_saving(filename)
-
-        with gzip.open(filename, 'wb') as f:
-            f.write(encoded)
+        self._write(filename, encoded, opener=gzip.open)
 
 class Sfg(Format):
     
-- 
2.43.0


From 4b961a7d854e647acacd6525bd756135107da2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:03 +0000
Subject: [PATCH 42/58] fix: a rejected vector leaves the old value in place

---
 sangfroid/value/vector.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index e270465..9f0a2e7 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -61,9 +61,7 @@ class Vector(Value):
         else:
             self._raise_type_error()
 
-        self._tag.name = self.TAG_NAME
-        self._tag.attrs = {}
-        self._tag.clear()
+        addenda = []
 
         for k, v in members.items():
             addendum = bs4.element.Tag(name=k)
@@ -71,6 +69,13 @@ class Vector(Value):
                 addendum.string = '%.010f' % (v,)
             else:
                 addendum.string = str(v)
+            addenda.append(addendum)
+
+        self._tag.name = self.TAG_NAME
+        self._tag.attrs = {}
+        self._tag.clear()
+
+        for addendum in addenda:
             self._tag.append(addendum)
 
     def __getitem__(self, key):
-- 
2.43.0


From e7910fb5120ec19e105374305d16f233212a1b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:07 +0000
Subject: [PATCH 43/58] fix: a rejected string leaves the old value in place

---
 sangfroid/value/string.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/string.py b/sangfroid/value/string.py
index 99a4b54..023f40c 100644
--- a/sangfroid/value/string.py
+++ b/sangfroid/value/string.py
@@ -13,9 +13,10 @@ class String(Value):
 
     @value.setter
     def value(self, v):
+        v = str(v)
         self._tag.name = self.get_name_for_tag()
         self._tag.attrs = {}
-        self._tag.string = str(v)
+        self._tag.string = v
 
     def as_python_expression(self):
         return repr(self.value)
-- 
2.43.0


From 11012e3448a9183a99086a0e82cb601d594a2086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:11 +0000
Subject: [PATCH 44/58] fix: a rejected desc leaves the animation's old desc in
 place

---
 sangfroid/field.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index a8c4f7d..b07b433 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -303,6 +303,11 @@ class NamedChildField(Field):
 
     def __set__(self, obj, value):
 
+        if not isinstance(value, self.type_):
+            raise TypeError(
+                    f"I need a value of type {self.type_.__name__}, "
+                    f"not {value.__class__.__name__}.")
+
         subtag = self.get_subtag_for_obj(obj)
 
         if subtag is None:
-- 
2.43.0


From e82a97317a308f55763d6692304a1810377154ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:14 +0000
Subject: [PATCH 45/58] fix: waypoints which can't be put in order leave the
 old timeline in place

---
 sangfroid/value/value.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 9f37508..27a4ae3 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -172,13 +172,15 @@ class Value:
                     )
             return
 
+        v = sorted(v)
+
         self._set_animated(
                 whether = True,
                 adjust_contents = False,
                 )
         self._tag.clear()
 
-        for i, w in enumerate(sorted(v)):
+        for i, w in enumerate(v):
             if i!=0:
                 self._tag.append('\n')
             self._tag.append(w.tag)
@@ -367,13 +369,13 @@ class Timeline:
                              "times in this timeline:\n"
                              f"{clashes}")
 
-        self.parent.is_animated = True
-
         existing |= dict([(w.time, w) for w in waypoints])
+        result = sorted(existing.values())
 
+        self.parent.is_animated = True
         self.parent.tag.clear()
 
-        for w in sorted(existing.values()):
+        for w in result:
             self.parent.tag.append(w.tag)
 
         return self
-- 
2.43.0


From f9418896e7126d402e1eda8f721b03a37395ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:17 +0000
Subject: [PATCH 46/58] fix: assigning some of the parts of a transformation
 keeps the others

---
 sangfroid/value/transformation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index ebe09b7..e91ff2d 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -77,10 +77,17 @@ class Composite(Value):
             new_subtag.append("\n")
             new_subtags.append(new_subtag)
 
+        # anything they didn't mention stays as it is
+        kept_subtags = [field
+                        for field in self.tag.children
+                        if isinstance(field, bs4.element.Tag)
+                        and field.name not in new_value
+                        ]
+
         self.tag.clear()
 
-        for new_subtag in new_subtags:
-            self.tag.append(new_subtag)
+        for subtag in kept_subtags + new_subtags:
+            self.tag.append(subtag)
 
     def __getattr__(self, key):
         result = self.get(key, default=None)
-- 
2.43.0


From 00558ffe305c0683c54dc65dabedd572b6399e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:33 +0000
Subject: [PATCH 47/58] fix: timelines refuse waypoints whose values are of
 another type

---
 sangfroid/value/value.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 27a4ae3..1f74c5c 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -173,6 +173,7 @@ class Value:
             return
 
         v = sorted(v)
+        self._check_waypoint_types(v)
 
         self._set_animated(
                 whether = True,
@@ -185,6 +186,28 @@ class Value:
                 self._tag.append('\n')
             self._tag.append(w.tag)
 
+    def _check_waypoint_types(self, v):
+        """
+        Checks that we could read these waypoints back
+        if they were in our timeline.
+
+        Args:
+            v (list of Waypoints): the waypoints.
+
+        Raises:
+            TypeError: if any of them has a value of another type.
+        """
+        our_type = self._tag.name
+        if our_type==Value.ANIMATED:
+            our_type = self._tag['type']
+
+        for w in v:
+            if w.value.tag.name!=our_type:
+                raise TypeError(
+                        f"Waypoints of {our_type} values "
+                        f"can't have {w.value.tag.name} values."
+                        )
+
     def __len__(self):
         return len(self._waypoints())
 
@@ -371,6 +394,7 @@ class Timeline:
 
         existing |= dict([(w.time, w) for w in waypoints])
         result = sorted(existing.values())
+        self.parent._check_waypoint_types(result)
 
         self.parent.is_animated = True
         self.parent.tag.clear()
-- 
2.43.0


From 7c08eeb91decc627ce59d60213c491edb9dd9c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 48/58] fix: a rejected waypoint leaves an unanimated value as
 it was

---
 sangfroid/value/value.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 1f74c5c..65970bf 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -427,13 +427,6 @@ class Timeline:
                     ref = self.parent.tag,
                     )
 
-        if not self.parent.is_animated:
-            self.parent._tag.clear()
-            self.parent._set_animated(
-                    whether = True,
-                    adjust_contents = False,
-                    )
-
         waypoints = self.parent._waypoints()
 
         waypoints[t] = new_waypoint
-- 
2.43.0


From d5d13dff398a5fd79a5867c10a42661c916d266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:20 +0000
Subject: [PATCH 49/58] fix: one transformation can be assigned to another
 (mended f941889)

---
 sangfroid/value/transformation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index e91ff2d..b33f786 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -78,10 +78,11 @@ class Composite(Value):
             new_subtags.append(new_subtag)
 
         # anything they didn't mention stays as it is
+        new_names = [subtag.name for subtag in new_subtags]
         kept_subtags = [field
                         for field in self.tag.children
                         if isinstance(field, bs4.element.Tag)
-                        and field.name not in new_value
+                        and field.name not in new_names
                         ]
 
         self.tag.clear()
-- 
2.43.0


From c5076075519dee3535b49e9d40088607105d36c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:27 +0000
Subject: [PATCH 50/58] fix: vectors iterate as x then y, whichever came first
 in the XML

---
 sangfroid/value/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 9f0a2e7..16338dc 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -111,7 +111,7 @@ class Vector(Value):
     def values(self):
         if self.is_animated:
             return None
-        return [self.our_type(v) for v in self.value.values()]
+        return list(self.as_tuple())
 
     def items(self):
         return [(k, self.our_type(v)) for k,v in self.value.items()]
-- 
2.43.0


From 69e6865e2a0129d1bffa7c570db6395d66e5633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:45 +0000
Subject: [PATCH 51/58] fix: a transformation is unequal to a dict with other
 keys, and doesn't raise KeyError

---
 sangfroid/value/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index b33f786..9f8b974 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -158,7 +158,7 @@ class Composite(Value):
             return False
 
         for key, value in self.items():
-            if other[key]!=value:
+            if key not in other.keys() or other[key]!=value:
                 return False
 
         return True
-- 
2.43.0


From 68d312c63b1cc9060709138d63efdb443a36b884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 52/58] fix: a Time can be assigned to another, as values of
 other types can

---
 sangfroid/value/simple.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index c4f4aeb..e05510c 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -33,6 +33,9 @@ class Simple(Value):
         if self.our_type is None:
             raise NotImplementedError()
 
+        if isinstance(v, self.__class__):
+            v = v.value
+
         if v==() or v is None:
             result = self.our_type()
 
-- 
2.43.0


From c4d22cbcb759b187f489cd51de6492fe39e20f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:50 +0000
Subject: [PATCH 53/58] fix: an animation's desc isn't that of a canvas inside
 it

---
 sangfroid/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index b07b433..7401d7e 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -290,7 +290,7 @@ class NamedChildField(Field):
                 )
 
     def get_subtag_for_obj(self, obj):
-        return obj._tag.find(self.name)
+        return obj._tag.find(self.name, recursive=False)
  
     def __get__(self, obj, obj_type=None):
 
-- 
2.43.0


From 5291b66082cd8348b29e5eaba4cd690b38297516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:09 +0000
Subject: [PATCH 54/58] fix: the length of a group is the number of its own
 layers

It counted every layer at any depth, though iteration and indexing
only ever give the group's own. So reversed() of a group which had
a group with something in it raised IndexError.
---
 sangfroid/layer/group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index 576bdde..f9d1603 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -133,6 +133,9 @@ class Group(Layer):
         before._tag.insert_after(layer._tag)
         before._tag.insert_after("\n")
 
+    def __len__(self):
+        return len(list(self.children))
+
     def __getitem__(self, f):
         if isinstance(f, int):
             return list(self.children)[f]
-- 
2.43.0


From 7164e91aa8b9368fab6b39405ba21b74dfca3991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:12 +0000
Subject: [PATCH 55/58] fix: a group's last layer can be appended to it again

It raised ValueError, because Beautiful Soup won't insert
an element before itself.
---
 sangfroid/layer/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index f9d1603..8da297e 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -113,7 +113,7 @@ class Group(Layer):
         for child in canvas.contents:
             if not isinstance(child, bs4.element.Tag):
                 continue
-            if child.name=='layer':
+            if child.name=='layer' and child is not layer._tag:
                 after = child
                 break
 
-- 
2.43.0


From b3b2266808759447af174a7048469b1981a48197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:00 +0000
Subject: [PATCH 56/58] fix: merging two waypoints of an instant which has one
 already

---
 sangfroid/value/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 65970bf..153a021 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -386,7 +386,7 @@ class Timeline:
 
         if overwrite:
             for old, _ in clashes:
-                del existing[old]
+                existing.pop(old, None)
         elif clashes:
             raise ValueError("There are already Waypoints with those "
                              "times in this timeline:\n"
-- 
2.43.0


From 09ac1608323377b0cb23270e2beddbdd4fdd1668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:55 +0000
Subject: [PATCH 57/58] fix: blend methods as Python expressions

---
 sangfroid/value/blendmethod.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/blendmethod.py b/sangfroid/value/blendmethod.py
index 06e451c..e49ca7c 100644
--- a/sangfroid/value/blendmethod.py
+++ b/sangfroid/value/blendmethod.py
@@ -46,4 +46,10 @@ class BlendMethod(Integer):
         return cls(v.value)
 
     def as_python_expression(self):
-        return 'v.'+str(self)
+        value = self.value
+
+        for name, number in BlendMethod.__dict__.items():
+            if name.isupper() and number==value:
+                return f'v.BlendMethod.{name}'
+
+        return str(value)
-- 
2.43.0


From 909333093f55bec042b52aa1c8f2d4a23cbaa194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:41 +0000
Subject: [PATCH 58/58] fix: white space in texts and descriptions survives
 saving and loading

---
 sangfroid/format.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 18fe749..9395d30 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -3,6 +3,8 @@ import os
 import shutil
 import tempfile
 from bs4 import BeautifulSoup
+from bs4.dammit import EntitySubstitution
+from bs4.formatter import XMLFormatter
 
 class Format:
     """
@@ -138,7 +140,9 @@ class Format:
         return filename
 
     def _encode(self, content):
-        return str(content).encode('UTF-8')
+        return content.decode(
+                formatter = WhitespaceFormatter(),
+                ).encode('UTF-8')
 
     def _write(self, filename, encoded, opener=open):
         """
@@ -171,11 +175,31 @@ class Format:
                 and h!=Format
                 ]
 
+class WhitespaceFormatter(XMLFormatter):
+    """
+    Writes XML so that newlines, tabs, and carriage returns
+    are still the same when it's parsed again.
+    """
+    def __init__(self):
+        super().__init__(
+                entity_substitution = EntitySubstitution.substitute_xml,
+                )
+
+    def substitute(self, ns):
+        return super().substitute(ns).replace('\r', '&#13;')
+
+    def attribute_value(self, value):
+        result = super().attribute_value(value)
+        return result.replace('\n', '&#10;').replace('\t', '&#9;')
+
 class FileContextHandler:
     def __init__(self, f):
         self.soup = BeautifulSoup(
                 f,
                 features = 'xml',
+                preserve_whitespace_tags = {
+                    'string', 'name', 'desc', 'keyframe',
+                    },
                 )
 
     def __enter__(self):
-- 
2.43.0

