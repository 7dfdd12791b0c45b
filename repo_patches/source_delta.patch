From 52325e8b3f37df93408c895565a7f3e9ff1191fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:22 +0000
Subject: [PATCH 01/48] fix: equal Ts hash equally, whether or not they know
 their FPS

---
 sangfroid/t.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 68b7815..e684e76 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -282,11 +282,9 @@ class T:
     __repr__ = __str__
 
     def __hash__(self):
-        if self._frames == 0:
-            return 0
-
-        s = (self._frames, self._fps)
-        return hash(s)
+        # Ts which are equal must hash equal, even if only one of them
+        # knows its FPS. So the FPS can't be part of the hash.
+        return hash(self._frames)
 
 # It doesn't matter that you can produce invalid decimals with this regex:
 # that will be discovered when we do the float conversion.
-- 
2.43.0


From 05c9d48b86f7419ff8aa28c027786dec0426bfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:25 +0000
Subject: [PATCH 02/48] fix: allow comparing zero Ts with Ts of a different
 FPS, as documented

---
 sangfroid/t.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index e684e76..a6abdd3 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -227,7 +227,9 @@ class T:
             if (
                     other.fps is not None and
                     self.fps is not None and
-                    other.fps!=self.fps):
+                    other.fps!=self.fps and
+                    other.frames!=0 and
+                    self.frames!=0):
                 raise ValueError(
                         "Comparison between two Ts with different FPS: "
                         f"{self}, {other}"
-- 
2.43.0


From 66a876c303de01472bfe6650bb4630c8aacb4e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:30 +0000
Subject: [PATCH 03/48] fix: copying a negative T keeps its time, instead of
 counting back from the end

---
 sangfroid/t.py           | 6 ++++++
 sangfroid/value/value.py | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index a6abdd3..331d731 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -94,6 +94,12 @@ class T:
         try:
             if isinstance(value, str):
                 self._frames = self._parse_time_spec(value)
+            elif isinstance(value, T):
+                # Already resolved: negative Ts are before the start of
+                # the animation, and don't count back from its end.
+                self._frames = value._frames
+                if self._fps is None:
+                    self._fps = value._fps
             else:
                 self._frames = float(value)
 
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 2f83224..6b03fcd 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -305,7 +305,7 @@ class Timeline:
             return T(t, ref = self.parent._tag)
         elif isinstance(t, T):
             if t._fps is None:
-                return T(t._frames, self.parent._tag)
+                return T(t, self.parent._tag)
             else:
                 return t
         else:
-- 
2.43.0


From bebc60ef4d436c23d875443d8ba5b5be027f571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:34 +0000
Subject: [PATCH 04/48] fix: str(T) doesn't drop digits or use exponents, so
 that it can be parsed again

---
 sangfroid/t.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 331d731..3597a09 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -257,7 +257,7 @@ class T:
 
     def __str__(self):
         if self._fps is None:
-            return '%gf' % (self._frames, )
+            return self._format_frames(self._frames)
 
         frames = self._frames
         seconds = abs(self._frames/self._fps)
@@ -276,7 +276,7 @@ class T:
 
         if seconds!=0 or result==[]:
             frames = abs(frames) % self._fps
-            result.append('%gf' % (frames,))
+            result.append(self._format_frames(frames))
 
         if self._frames<0:
             minus = '-'
@@ -289,6 +289,13 @@ class T:
 
     __repr__ = __str__
 
+    @classmethod
+    def _format_frames(cls, frames):
+        # Not "%g", because that drops digits from large numbers,
+        # and because we can't parse exponents.
+        result = '%.6f' % (frames,)
+        return result.rstrip('0').rstrip('.') + 'f'
+
     def __hash__(self):
         # Ts which are equal must hash equal, even if only one of them
         # knows its FPS. So the FPS can't be part of the hash.
-- 
2.43.0


From 34ad10a57e70c427f76e92ba9567bff92cc7be34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:38 +0000
Subject: [PATCH 05/48] fix: a leading minus sign applies to the whole of a
 time specification

"-1m 30s" is how str() writes ninety seconds before the start,
but it was read back as thirty seconds before the start.
---
 sangfroid/t.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 3597a09..41e02e8 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -164,7 +164,14 @@ class T:
                 ('s', 1),
                 ]:
             if unit in parts:
-                seconds = (seconds or 0.0) + parts[unit]*size
+                if seconds and parts[unit]<0:
+                    complain("Only the largest unit can be negative.")
+
+                if seconds and seconds<0:
+                    # "-1m 30s" is ninety seconds before the start
+                    seconds -= parts[unit]*size
+                else:
+                    seconds = (seconds or 0.0) + parts[unit]*size
 
         result = 0.0
 
-- 
2.43.0


From 28284a16734d012cf8de3c0e148ed5bd04b5e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:42 +0000
Subject: [PATCH 06/48] fix: refuse time specifications which don't say what
 they mean

Empty specifications, and ones with unknown units, were read as zero;
"0s 2f" was accepted without a ref, contrary to the docs.
---
 sangfroid/t.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 41e02e8..80dcff9 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -150,12 +150,19 @@ class T:
                         f"The '{spec[-1]}' part was specified "
                         "more than once.")
 
+            elif spec[-1] not in 'hmsf':
+                complain(
+                        f"'{spec[-1]}' is not a unit I know.")
+
             try:
                 parts[spec[-1]] = float(spec[:-1])
             except ValueError:
                 complain(
                         f"'{spec[:-1]}' is not a valid number.")
 
+        if not parts:
+            complain("There is nothing there.")
+
         seconds = None
 
         for unit, size in [
@@ -175,11 +182,12 @@ class T:
 
         result = 0.0
 
-        if seconds is not None and seconds!=0.0:
-
-            if self._fps is None:
+        if self._fps is None and seconds is not None:
+            if seconds!=0.0 or parts.get('f', 0.0)!=0.0:
                 complain("Time specifications in seconds require "
                          "an anchored ref.")
+
+        if seconds is not None and seconds!=0.0:
             result += seconds * self._fps
 
         if 'f' in parts:
-- 
2.43.0


From 0e1eb8b905ac049edad4b6b2ea5aa3e1d0b52312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:04 +0000
Subject: [PATCH 07/48] fix: refuse infinities and NaNs in time specifications

---
 sangfroid/t.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 80dcff9..28c2d74 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -160,6 +160,10 @@ class T:
                 complain(
                         f"'{spec[:-1]}' is not a valid number.")
 
+            if not math.isfinite(parts[spec[-1]]):
+                complain(
+                        f"'{spec[:-1]}' is not a finite number.")
+
         if not parts:
             complain("There is nothing there.")
 
-- 
2.43.0


From fba338d132aba394e7ac3d2e8482aa1272eda159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:09 +0000
Subject: [PATCH 08/48] fix: waypoints without exactly one value raise
 ValueError, not NameError

---
 sangfroid/value/value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 6b03fcd..024768b 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -570,10 +570,10 @@ class Waypoint:
         v = [t for t in tag.children if isinstance(t, bs4.element.Tag)]
 
         if len(v)==0:
-            raise ValueError(f"Waypoint without a value: {w}")
+            raise ValueError(f"Waypoint without a value: {tag}")
         elif len(v)!=1:
             raise ValueError(
-                    f"Waypoint with multiple values: {w}")
+                    f"Waypoint with multiple values: {tag}")
         elif v[0].name==Value.ANIMATED:
             raise ValueError("Values in waypoints cannot themselves "
                              "be animated")
-- 
2.43.0


From 93b1aeee3556c65f094e08a033b32532780e7ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:13 +0000
Subject: [PATCH 09/48] fix: values which aren't part of a document can stop
 being animated

---
 sangfroid/value/value.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 024768b..36b0864 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -71,22 +71,15 @@ class Value:
             if adjust_contents:
                 timeline = self.timeline
                 first_value = timeline.values()[0]
+                new_tag = copy.deepcopy(first_value.value._tag)
             else:
-                first_value = None
+                new_tag = self._get_empty_tag()
 
-            self._tag.clear()
+            if self._tag.parent is not None:
+                self._tag.replace_with(new_tag)
 
-            new_tag = self._get_empty_tag()
-            self._tag.replace_with(new_tag)
             self._tag = new_tag
 
-            if first_value is not None:
-                old_tag = self._tag
-
-                self._tag = copy.deepcopy(first_value.value._tag)
-                if old_tag.parent is not None:
-                    old_tag.replace_with(self._tag)
-
     @property
     def timeline(self):
         result = Timeline.__new__(Timeline)
-- 
2.43.0


From 86fa583736ea5e14af6bfeffb0f3bc1c7f60ed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:17 +0000
Subject: [PATCH 10/48] fix: animating a value doesn't round it

---
 sangfroid/value/value.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 36b0864..92c2c85 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -56,7 +56,9 @@ class Value:
         elif whether:
 
             if adjust_contents:
-                former_value = self.value
+                # Not self.value: for some types, such as colours,
+                # that would lose precision.
+                former_value = self.__class__(copy.copy(self._tag))
 
             our_type = self._tag.name
             self._tag.attrs = {}
-- 
2.43.0


From 33db2849d09659a18148467aec8be01e86eb1cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:21 +0000
Subject: [PATCH 11/48] fix: a timeline can't be set to a list of things which
 aren't Waypoints

---
 sangfroid/value/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 92c2c85..135b9cc 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -91,7 +91,7 @@ class Value:
     @timeline.setter
     def timeline(self, v):
 
-        if isinstance(v, list) and all([n for n in v if isinstance(n, Waypoint)]):
+        if isinstance(v, list) and all([isinstance(n, Waypoint) for n in v]):
             self._set_waypoints(v)
         elif isinstance(v, dict):
             self.timeline = list(v.values())
-- 
2.43.0


From d8c027980151e9c61067b96996483353885970c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:26 +0000
Subject: [PATCH 12/48] fix: value.timeline += waypoint no longer raises
 TypeError

---
 sangfroid/value/value.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 135b9cc..7b9349e 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -320,6 +320,7 @@ class Timeline:
         self.add(waypoints,
             overwrite = True,
                  )
+        return self
 
     def add(self, waypoints,
             overwrite = False,
-- 
2.43.0


From b5b3cdbde073b78939e42deae7d54b094889b5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:04 +0000
Subject: [PATCH 13/48] fix: timelines refuse waypoints of the wrong type, and
 stay unchanged

Waypoints holding the wrong type of value were accepted, and made the
timeline unreadable. add() left the timeline half-changed if the new
waypoints couldn't be sorted, raised KeyError if it was asked to
overwrite the same time twice, and turned the value into an empty
animation if it was given nothing to add.
---
 sangfroid/value/value.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 7b9349e..c9bcdb1 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -166,16 +166,30 @@ class Value:
                     )
             return
 
+        # Do everything that might fail before we change anything.
+        if self.is_animated:
+            type_name = self._tag['type']
+        else:
+            type_name = self._tag.name
+
+        waypoint_tags = []
+        for w in sorted(v):
+            if w.value.tag.name!=type_name:
+                raise TypeError(
+                        f"This timeline holds values of type {type_name}, "
+                        f"but {w} is of type {w.value.tag.name}.")
+            waypoint_tags.append(w.tag)
+
         self._set_animated(
                 whether = True,
                 adjust_contents = False,
                 )
         self._tag.clear()
 
-        for i, w in enumerate(sorted(v)):
+        for i, waypoint_tag in enumerate(waypoint_tags):
             if i!=0:
                 self._tag.append('\n')
-            self._tag.append(w.tag)
+            self._tag.append(waypoint_tag)
 
     def __len__(self):
         return len(self._waypoints())
@@ -354,22 +368,14 @@ class Timeline:
                 if old.time==new.time
                 ]
 
-        if overwrite:
-            for old, _ in clashes:
-                del existing[old]
-        elif clashes:
+        if clashes and not overwrite:
             raise ValueError("There are already Waypoints with those "
                              "times in this timeline:\n"
                              f"{clashes}")
 
-        self.parent.is_animated = True
-
         existing |= dict([(w.time, w) for w in waypoints])
 
-        self.parent.tag.clear()
-
-        for w in sorted(existing.values()):
-            self.parent.tag.append(w.tag)
+        self.parent._set_waypoints(existing.values())
 
         return self
 
@@ -404,13 +410,6 @@ class Timeline:
                     ref = self.parent.tag,
                     )
 
-        if not self.parent.is_animated:
-            self.parent._tag.clear()
-            self.parent._set_animated(
-                    whether = True,
-                    adjust_contents = False,
-                    )
-
         waypoints = self.parent._waypoints()
 
         waypoints[t] = new_waypoint
-- 
2.43.0


From 66679cbf422b26445961dd6481257d3800fc28ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:08 +0000
Subject: [PATCH 14/48] fix: timelines look waypoints up by any kind of time,
 in any order

timeline['1s'] and timeline[-1] raised KeyError even if there was such
a waypoint, although they could be set and deleted. Waypoints after a
later one in the file weren't found either. And some debugging code
raised ValueError for any value containing the string "x_y".
---
 sangfroid/value/value.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index c9bcdb1..554e6d5 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -380,15 +380,7 @@ class Timeline:
         return self
 
     def __getitem__(self, time):
-        if 'x_y' in str(self.parent._tag):
-            raise ValueError()
-        for t, wt in self.parent._waypoints().items():
-            if t==time:
-                return wt
-            elif t>time:
-                raise KeyError(time)
-
-        raise KeyError(time)
+        return self.parent._waypoints()[self._ensure_fps(time)]
 
     def __setitem__(self, t, v):
 
-- 
2.43.0


From 5f75271591b46271a959531c3873c030a4733f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:12 +0000
Subject: [PATCH 15/48] fix: the value of an empty string is '', not 'None'

---
 sangfroid/value/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/string.py b/sangfroid/value/string.py
index 4e9a420..0246ba1 100644
--- a/sangfroid/value/string.py
+++ b/sangfroid/value/string.py
@@ -8,7 +8,7 @@ class String(Value):
 
     @property
     def value(self):
-        result = str(self._tag.string)
+        result = str(self._tag.text)
         return result
 
     @value.setter
-- 
2.43.0


From 2b5c86ec4f3a22db0940ad1467f9294356b3f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:16 +0000
Subject: [PATCH 16/48] fix: setting the value of an animated string or
 gradient stops it being animated

as happens with all other types.
---
 sangfroid/value/gradient.py | 2 ++
 sangfroid/value/string.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sangfroid/value/gradient.py b/sangfroid/value/gradient.py
index 308dd0f..673a97c 100644
--- a/sangfroid/value/gradient.py
+++ b/sangfroid/value/gradient.py
@@ -27,6 +27,8 @@ class Gradient(Value):
         if len(v)<2:
             self._raise_colour_count_error()
 
+        self._tag.name = self.get_name_for_tag()
+        self._tag.attrs = {}
         self._tag.clear()
 
         for pos, colour in sorted(v.items()):
diff --git a/sangfroid/value/string.py b/sangfroid/value/string.py
index 0246ba1..2bec346 100644
--- a/sangfroid/value/string.py
+++ b/sangfroid/value/string.py
@@ -13,6 +13,8 @@ class String(Value):
 
     @value.setter
     def value(self, v):
+        self._tag.name = self.get_name_for_tag()
+        self._tag.attrs = {}
         self._tag.string = str(v)
 
     def as_python_expression(self):
-- 
2.43.0


From 0f64ca6a9c5055ae181576e25c42fe4e0d4b4e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:19 +0000
Subject: [PATCH 17/48] fix: setting a vector replaces its previous fields,
 instead of adding to them

---
 sangfroid/value/vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 6cb34ce..bd018d9 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -57,12 +57,13 @@ class Vector(Value):
             else:
                 self._raise_type_error()
         elif hasattr(v, 'items'):
-            members = v
+            members = dict(v.items())
         else:
             self._raise_type_error()
 
         self._tag.name = self.TAG_NAME
         self._tag.attrs = {}
+        self._tag.clear()
 
         for k, v in members.items():
             addendum = bs4.element.Tag(name=k)
-- 
2.43.0


From 9db2ebcaf11827caddb0204577d8967a4a7b0a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:23 +0000
Subject: [PATCH 18/48] fix: times can be set in seconds if they're part of a
 document

---
 sangfroid/layer/layer.py  |  3 +++
 sangfroid/value/simple.py | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index e3ecbd3..2bd5f68 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -455,6 +455,9 @@ class _TimeButString(v.Time):
     def get_name_for_tag(cls):
         return 'time'
 
+    def _coerce(self, v):
+        return self.our_type(v)
+
 __all__ = [
         'Layer',
         ]
diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 9c1f0a2..c91c263 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -38,7 +38,7 @@ class Simple(Value):
 
         else:
             try:
-                result = self.our_type(v)
+                result = self._coerce(v)
             except TypeError:
                 raise TypeError("I need a value of type "
                                 f"{self.our_type.__name__}, "
@@ -54,6 +54,9 @@ class Simple(Value):
                 }
         self._tag.clear()
 
+    def _coerce(self, v):
+        return self.our_type(v)
+
     @classmethod
     def _value_to_str(cls, v):
         return str(v)
@@ -150,6 +153,12 @@ class Time(Simple):
                 ref = self._tag,
                 )
 
+    def _coerce(self, v):
+        return self.our_type(
+                v,
+                ref = self._tag,
+                )
+
     def as_python_expression(self):
         v = self.value
 
-- 
2.43.0


From 1c551eaf311389aceabc9fc0dbe045c911d3993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:26 +0000
Subject: [PATCH 19/48] fix: comparing a simple value with None or a list
 doesn't raise TypeError

---
 sangfroid/value/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index c91c263..ebc2040 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -67,7 +67,7 @@ class Simple(Value):
         else:
             try:
                 v = self.our_type(other)
-            except ValueError:
+            except (ValueError, TypeError):
                 v = other
 
         return self._compare_with(v)
-- 
2.43.0


From c3445f7b897756a7316ab2bf87e4c1f22bfb0dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:56 +0000
Subject: [PATCH 20/48] fix: setting one part of a transformation keeps the
 other parts

For example, group.angle = 45 discarded group.offset.
---
 sangfroid/value/transformation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index 4d23e79..00775dd 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -66,7 +66,7 @@ class Composite(Value):
                     f"We can accept: "
                     f"{' '.join(sorted(self.REQUIRED_KEYS.keys()))}")
 
-        self.tag.clear()
+        new_subtags = []
 
         for remaining, v in new_value.items():
 
@@ -75,7 +75,16 @@ class Composite(Value):
             new_subtag = bs4.Tag(name=remaining)
             new_subtag.append(copy(v_as_value.tag))
             new_subtag.append("\n")
-            self.tag.append(new_subtag)
+            new_subtags.append(new_subtag)
+
+        # Keys which aren't mentioned keep the value they had before.
+        for new_subtag in new_subtags:
+            old_subtag = self.tag.find(new_subtag.name, recursive=False)
+
+            if old_subtag is None:
+                self.tag.append(new_subtag)
+            else:
+                old_subtag.replace_with(new_subtag)
 
     def __getattr__(self, key):
         result = self.get(key, default=None)
-- 
2.43.0


From b5fbe49102e6e3b09958e959c57fd65530946e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:00 +0000
Subject: [PATCH 21/48] fix: errors in layers raise ValueError, not
 AttributeError or UnboundLocalError

---
 sangfroid/layer/layer.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 2bd5f68..c2b6fcb 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -171,7 +171,7 @@ class Layer:
         matching_special = None
 
         if len(args)>1:
-            raise v.ValueError(
+            raise ValueError(
                     "You can only give one positional argument.")
         elif len(args)==1:
 
@@ -181,7 +181,7 @@ class Layer:
                      issubclass(args[0], Layer))
                     ):
                 if 'type' in kwargs:
-                    raise v.ValueError(
+                    raise ValueError(
                             "You can't give a type in both the positional "
                             "and keyword arguments.")
 
@@ -199,7 +199,7 @@ class Layer:
         if 'attrs' in kwargs:
             for k,v in kwargs['attrs'].items():
                 if k in kwargs:
-                    raise v.ValueError("{k} specified both as a kwarg and in attrs")
+                    raise ValueError("{k} specified both as a kwarg and in attrs")
                 kwargs[k] = v
 
             del kwargs['attrs']
@@ -267,7 +267,7 @@ class Layer:
                 logger.debug("  -- callback says: %s", result)
                 return result
 
-            raise v.ValueError(found_tag)
+            raise ValueError(found_tag)
 
         result = [
                 self.from_tag(x) for x in
@@ -329,7 +329,7 @@ class Layer:
         """
         tag_type = tag.get('type', None)
         if tag_type is None:
-            raise v.ValueError(
+            raise ValueError(
                     f"tag has no 'type' field: {tag}")
         return cls.handles_type.from_name(name=tag_type)(tag)
 
@@ -417,18 +417,18 @@ class Layer:
 
 def _name_and_value_of(tag):
     if tag.name!='param':
-        raise v.ValueError(f"param is not a <param>: {tag}")
+        raise ValueError(f"param is not a <param>: {tag}")
 
     name = tag.get('name', None)
     if name is None:
-        raise v.ValueError(f"param has no 'name' field: {tag}")
+        raise ValueError(f"param has no 'name' field: {tag}")
 
     value_tags = [tag for tag in tag.children
                   if isinstance(tag, bs4.element.Tag)
                   ]
 
     if len(value_tags)!=1:
-        raise v.ValueError(f"param should have one value: {tag}")
+        raise ValueError(f"param should have one value: {tag}")
 
     value_tag = value_tags[0]
 
-- 
2.43.0


From d626b91fe051f60e7b40fbb58c71fa1340cf7711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:53 +0000
Subject: [PATCH 22/48] fix: a layer's own parameters take priority over those
 of the layers inside it

In a group, "canvas" comes before such parameters as "time_dilation", so
group['time_dilation'] and group.time_dilation returned (and changed!)
the one belonging to a group inside it.
---
 sangfroid/field.py       |  6 +-----
 sangfroid/layer/group.py |  1 +
 sangfroid/layer/layer.py | 15 +++++++++++++--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index bb1b3e1..ecd5456 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -209,11 +209,7 @@ class ParamTagField(Field):
         assert self.type_.__module__!='builtins', self.type_
 
     def _get_value(self, obj):
-        holder = obj._tag.find('param',
-                               attrs={
-                                   'name': self.name,
-                                   },
-                               )
+        holder = obj._find_param(self.name)
 
         if holder is None:
             raise AttributeError(self.name)
diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index e29342b..576bdde 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -61,6 +61,7 @@ class Group(Layer):
                               attrs={
                                   'name': 'canvas',
                                   },
+                              recursive=False,
                               )
 
         if param is None:
diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index c2b6fcb..567db50 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -88,14 +88,25 @@ class Layer:
         result += ']'
         return result
 
+    def _find_param(self, name):
+        # Our own parameters take priority over those of any layers
+        # inside us.
+        for recursive in (False, True):
+            found = self._tag.find('param', attrs={'name': name},
+                                   recursive=recursive)
+            if found is not None:
+                break
+
+        return found
+
     def __getitem__(self, f):
-        found = self._tag.find('param', attrs={'name': f})
+        found = self._find_param(f)
         if found is None:
             raise KeyError(f)
         return _name_and_value_of(found)[1]
 
     def __setitem__(self, f, val):
-        found = self._tag.find('param', attrs={'name': f})
+        found = self._find_param(f)
         if found is None:
             raise KeyError(f)
         old_value = _name_and_value_of(found)[1]
-- 
2.43.0


From 9f614b20cd2091fc4a13839cd76a03636db2e7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:58 +0000
Subject: [PATCH 23/48] fix: setting a layer's parameter to another layer's
 doesn't remove it from there

---
 sangfroid/layer/layer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 567db50..3982dfd 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -119,7 +119,12 @@ class Layer:
         else:
             new_value = old_value.__class__(val)
 
-        old_value.tag.replace_with(new_value.tag)
+        new_tag = new_value.tag
+        if new_tag.parent is not None:
+            # don't take it away from wherever it is at present
+            new_tag = copy.copy(new_tag)
+
+        old_value.tag.replace_with(new_tag)
 
     def __contains__(self, f):
         found = self._tag.find(
-- 
2.43.0


From 195a52c790fcf9b511eefd13a9ec741d39ce86c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:01 +0000
Subject: [PATCH 24/48] fix: the contents of a canvas can be set to a list of
 layers

---
 sangfroid/value/canvas.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/canvas.py b/sangfroid/value/canvas.py
index 3d5856a..3b28a73 100644
--- a/sangfroid/value/canvas.py
+++ b/sangfroid/value/canvas.py
@@ -26,10 +26,14 @@ class Canvas(Value):
 
         from sangfroid.layer.layer import Layer
 
-        self._tag.clear()
+        v = list(v)
 
         for layer in v:
             if not isinstance(layer, Layer):
                 raise TypeError(type(layer))
-            self._tag.append(layer)
+
+        self._tag.clear()
+
+        for layer in v:
+            self._tag.append(layer.tag)
             self._tag.append("\n")
-- 
2.43.0


From 976f3b95acf80abc09fda8b3bb58185916c2b10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:04 +0000
Subject: [PATCH 25/48] fix: animation attributes with hyphens in their names
 can be read and set

For example, animation.end_time looked for "end_time" rather than
"end-time", so it was always the default.
---
 sangfroid/animation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 1a24900..8dbe8ff 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -55,10 +55,10 @@ class Animation(Group):
     yres = TagAttrField(float,       2834.645669,
                         doc = "The vertical resolution.",
                         )
-    gamma_r = TagAttrField(float,       1.0)
-    gamma_g = TagAttrField(float,       1.0)
-    gamma_b = TagAttrField(float,       1.0)
-    view_box = TagAttrField(str, '-4.0 2.25 4.0 -2.25') # XXX wrong
+    gamma_r = TagAttrField(float,       1.0, name='gamma-r')
+    gamma_g = TagAttrField(float,       1.0, name='gamma-g')
+    gamma_b = TagAttrField(float,       1.0, name='gamma-b')
+    view_box = TagAttrField(str, '-4.0 2.25 4.0 -2.25', name='view-box') # XXX wrong
     antialias = TagAttrField(int,         1) # XXX enum?
     fps = TagAttrField(float,       24.0,
         doc = """
@@ -67,12 +67,14 @@ class Animation(Group):
             (Can this be non-integer?)""",
            )
     begin_time = TagTimeAttrField(0,
+            name = 'begin-time',
            doc = """
             The time at which this animation starts.
 
             Almost always zero.""",
            )
     end_time = TagTimeAttrField('5s',
+            name = 'end-time',
             doc = 'The time at which this animation ends.',
            )
     bgcolor = TagAttrField(str,         '0.5 0.5 0.5 1.0')
-- 
2.43.0


From a1877cb540d8a03775692a4815701dabb3dc145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:23 +0000
Subject: [PATCH 26/48] fix: the blend methods of layers can be read

layer.blend_method always raised AssertionError, because blend methods
are stored as integers. Also, wrapping a tag in BlendMethod mustn't
change the tag, and setting the value of a BlendMethod mustn't turn it
into a <blendmethod> tag, which doesn't exist.
---
 sangfroid/field.py             | 3 +++
 sangfroid/value/blendmethod.py | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index ecd5456..15a4fe7 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -228,6 +228,9 @@ class ParamTagField(Field):
 
     def __get__(self, obj, obj_type=None):
         result = self._get_value(obj)
+        if issubclass(self.type_, type(result)):
+            # such as BlendMethods, which are stored as Integers
+            result = self.type_(result.tag)
         assert isinstance(result, self.type_), f"{result} {type(result)} {self.type_}"
         return result
 
diff --git a/sangfroid/value/blendmethod.py b/sangfroid/value/blendmethod.py
index 23f360c..954e802 100644
--- a/sangfroid/value/blendmethod.py
+++ b/sangfroid/value/blendmethod.py
@@ -1,3 +1,4 @@
+import bs4
 from sangfroid.value.simple import Integer
 
 class BlendMethod(Integer):
@@ -33,8 +34,12 @@ class BlendMethod(Integer):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
-        self._tag['static'] = 'true'
-        self._tag.name = 'integer'
+        if not isinstance(args[0] if args else None, bs4.Tag):
+            self._tag['static'] = 'true'
+
+    @classmethod
+    def get_name_for_tag(cls):
+        return 'integer'
 
     @classmethod
     def from_tag(cls, t):
-- 
2.43.0


From 3bdec3fed610e9f9e8e4f77be83c023d47a567b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 27/48] fix: the length of a group is the number of its
 children

It counted all its descendants, even though iterating over a group
only gives its children.
---
 sangfroid/layer/layer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 3982dfd..cf7dd9e 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -409,7 +409,7 @@ class Layer:
         return result
 
     def __len__(self):
-        return len(self._sublayer_tags())
+        return len(list(self.children))
 
     def append(self, layer):
         """
@@ -428,9 +428,6 @@ class Layer:
         raise NotImplementedError(
                 "Only Groups can contain other layers.")
 
-    def _sublayer_tags(self):
-        return self._tag.find_all('layer')
-
 def _name_and_value_of(tag):
     if tag.name!='param':
         raise ValueError(f"param is not a <param>: {tag}")
-- 
2.43.0


From e8886717a8f61d6a3a97abf7e8d2d5c48a351648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:40 +0000
Subject: [PATCH 28/48] fix: find_all() matches layers which meet all the
 criteria

It returned layers which met any one of the criteria. It never found
layers whose type contained an underscore, such as "linear_gradient".
And it didn't find subclasses of the class it was given; in particular,
find_all(Layer) found nothing, although the docs allow it.
---
 sangfroid/layer/layer.py | 55 ++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index cf7dd9e..4e44abf 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -221,11 +221,8 @@ class Layer:
             del kwargs['attrs']
 
         for k,v in kwargs.items():
-            if k=='type':
-                if not isinstance(v, str):
-                    v = v.__name__
-
-                kwargs[k] = v.lower().replace('_', '')
+            if k=='type' and isinstance(v, str):
+                kwargs[k] = normalise_synfig_layer_type_name(v)
 
         logger.debug("begin find_all")
 
@@ -240,40 +237,32 @@ class Layer:
 
             if matching_special is None:
 
-                def munge(k,v):
-                    if k=='type':
-                        k = 'type_'
-                        v = v.lower()
-
-                    return (k,v)
-
-                targets = [
-                    munge(k,v)
-                    for k,v in kwargs.items()
-                    ]
+                logger.debug("want: %s", kwargs)
 
-                logger.debug("want: %s", targets)
-
-                for k, want_value in targets:
-                    try:
-                        found_value = getattr(found_layer, k)
-                        logger.debug("  -- %s field is %s; want %s", k,
-                                     repr(found_value),
-                                     repr(want_value),
-                                     )
-                    except AttributeError:
-                        logger.debug("  -- it does not have a %s", k)
-                        continue
+                for k, want_value in kwargs.items():
+                    if k=='type':
+                        if isinstance(want_value, type):
+                            found_value = isinstance(found_layer, want_value)
+                            want_value = True
+                        else:
+                            found_value = normalise_synfig_layer_type_name(
+                                    found_tag['type'])
+                    else:
+                        try:
+                            found_value = getattr(found_layer, k)
+                        except AttributeError:
+                            logger.debug("  -- it does not have a %s", k)
+                            return False
 
                     logger.debug("  want: %s  found: %s",
                                  want_value, found_value)
 
-                    if found_value==want_value:
-                        logger.debug("    -- a match!")
-                        return True
+                    if found_value!=want_value:
+                        logger.debug("    -- not a match.")
+                        return False
 
-                logger.debug("  -- no matches.")
-                return False
+                logger.debug("  -- a match!")
+                return True
 
             elif isinstance(matching_special, bool):
                 return matching_special
-- 
2.43.0


From 30f73caddfc882019283938292e8b2cbb13d319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:44 +0000
Subject: [PATCH 29/48] fix: find_all(recursive=False) finds the children of
 any group

It only worked on animations, because the children of other groups
are inside their canvas parameter.
---
 sangfroid/layer/group.py |  6 ++++++
 sangfroid/layer/layer.py | 10 +++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index 576bdde..2541e64 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -73,6 +73,12 @@ class Group(Layer):
 
         return param.find('canvas')
 
+    def _find_all_root(self, recursive):
+        if recursive:
+            return self._tag
+        else:
+            return self.canvas_tag
+
     def _get_children(self,
                  include_descendants = False,
                  ):
diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 4e44abf..f79c678 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -276,9 +276,10 @@ class Layer:
 
         result = [
                 self.from_tag(x) for x in
-                self._tag.find_all(matcher,
-                                  recursive=recursive,
-                                  )
+                self._find_all_root(recursive).find_all(
+                    matcher,
+                    recursive=recursive,
+                    )
                 ]
         logger.debug("find_all found: %s",
                      result,
@@ -286,6 +287,9 @@ class Layer:
 
         return result
 
+    def _find_all_root(self, recursive):
+        return self._tag
+
     @property
     def children(self):
         """
-- 
2.43.0


From 9ed4bf584a799109d915970295703e1f2382e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:48 +0000
Subject: [PATCH 30/48] fix: animations which have no description can be given
 one

Also, don't confuse them with the descriptions of canvases inside them.
---
 sangfroid/field.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index 15a4fe7..74375af 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -282,7 +282,7 @@ class NamedChildField(Field):
                 )
 
     def get_subtag_for_obj(self, obj):
-        return obj._tag.find(self.name)
+        return obj._tag.find(self.name, recursive=False)
  
     def __get__(self, obj, obj_type=None):
 
@@ -297,6 +297,10 @@ class NamedChildField(Field):
 
         subtag = self.get_subtag_for_obj(obj)
 
+        if subtag is None:
+            subtag = bs4.Tag(name=self.name)
+            obj._tag.insert(0, subtag)
+
         subtag.string = value
 
 """
-- 
2.43.0


From a9703518ad2842ea5c971d875cab3fa64abd9934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:52 +0000
Subject: [PATCH 31/48] fix: read .sif files in the encoding they specify

They were read in the encoding of the current locale, even though
save() always writes UTF-8.
---
 sangfroid/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 9648c52..bb9b469 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -169,7 +169,7 @@ class Sif(Format):
     extensions = ('sif',)
 
     def main_file(self):
-        return FileContextHandler(open(self.filename, 'r'))
+        return FileContextHandler(open(self.filename, 'rb'))
 
     def save(self, content, filename=None):
         filename = self._filename_for_saving(filename)
-- 
2.43.0


From 68de157d6453d9a2df901ab443cb304421727db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:56 +0000
Subject: [PATCH 32/48] fix: bywords weights the pause after each word by the
 letters in that word

as the docs say. It used the letters in the whole of the line so far.
---
 bywords/bywords.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 28c1375..624e6be 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -23,9 +23,10 @@ bywords_groups = None
 
 @functools.total_ordering
 class WordTiming:
-    def __init__(self, text, item):
+    def __init__(self, text, item, letters):
         self.text = text
         self.item = item
+        self.letters = letters
         self.time = 0
 
     def __lt__(self, other):
@@ -91,6 +92,7 @@ class BywordsGroup:
                         WordTiming(
                             text = item.desc[:i],
                             item = item,
+                            letters = len(word),
                             ))
 
                 if words and words[0].strip()=='':
@@ -98,13 +100,13 @@ class BywordsGroup:
 
             s = s[len(item.desc):]
 
-        total_letters = sum([len(w.text) for w in word_timings])
+        total_letters = sum([w.letters for w in word_timings])
         ms_per_letter = duration/total_letters
 
         time = start
         for w in word_timings:
             w.time = time/1000
-            time += len(w.text)*ms_per_letter
+            time += w.letters*ms_per_letter
 
         return word_timings
 
-- 
2.43.0


From 69ee8bd9025ab3b2a5421a6e2d73d01d6c02d70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:00 +0000
Subject: [PATCH 33/48] fix: bywords ignores groups and subtitles with no text

rather than raising ZeroDivisionError.
---
 bywords/bywords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 624e6be..f41ba0c 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -72,7 +72,7 @@ class BywordsGroup:
         else:
             splitting_re = WHITESPACE
 
-        if s!=self.full_text:
+        if s!=self.full_text or s.strip()=='':
             return None
 
         for _, item in self.texts:
-- 
2.43.0


From 485e48a932229f371d32673894cdf5d844a04e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:28 +0000
Subject: [PATCH 34/48] fix: the "type" parameter of blurs, bevels, halftones,
 and so on can be accessed

We called it "type_" in the file as well as in Python, so it was never
found, and new layers were given a parameter which Synfig doesn't know.
---
 sangfroid/layer/blurs.py   | 1 +
 sangfroid/layer/stylise.py | 2 ++
 sangfroid/layer/tbd.py     | 3 +++
 3 files changed, 6 insertions(+)

diff --git a/sangfroid/layer/blurs.py b/sangfroid/layer/blurs.py
index db34a24..d0a0f7a 100644
--- a/sangfroid/layer/blurs.py
+++ b/sangfroid/layer/blurs.py
@@ -18,6 +18,7 @@ class Blur(Layer):
     size                 = f.ParamTagField(v.X_Y, (0.1000000015, 0.1000000015),
                         )
     type_                = f.ParamTagField(v.Integer, 1,
+                                  name = 'type',
                         )
 
     ### }}}
diff --git a/sangfroid/layer/stylise.py b/sangfroid/layer/stylise.py
index d72ea10..f9d1d39 100644
--- a/sangfroid/layer/stylise.py
+++ b/sangfroid/layer/stylise.py
@@ -22,6 +22,7 @@ class Shade(Layer):
     size                 = f.ParamTagField(v.X_Y, (0.1000000015, 0.1000000015),
                         )
     type_                = f.ParamTagField(v.Integer, 1,
+                                  name = 'type',
                         )
     invert               = f.ParamTagField(v.Bool, False,
                         )
@@ -42,6 +43,7 @@ class Bevel(Layer):
     blend_method         = f.ParamTagField(v.BlendMethod, v.BlendMethod.ONTO,
                         )
     type_                = f.ParamTagField(v.Integer, 1,
+                                  name = 'type',
                         )
     color1               = f.ParamTagField(v.Color, (1.0, 1.0, 1.0, 1.0),
                         )
diff --git a/sangfroid/layer/tbd.py b/sangfroid/layer/tbd.py
index 938be98..97c9c19 100644
--- a/sangfroid/layer/tbd.py
+++ b/sangfroid/layer/tbd.py
@@ -498,6 +498,7 @@ class Halftone3(Layer):
     size                 = f.ParamTagField(v.X_Y, (0.25, 0.25),
                         )
     type_                = f.ParamTagField(v.Integer, 0,
+                                  name = 'type',
                         )
     subtractive          = f.ParamTagField(v.Bool, True,
                         )
@@ -530,6 +531,7 @@ class Halftone2(Layer):
     color_dark           = f.ParamTagField(v.Color, (0.0, 0.0, 0.0, 1.0),
                         )
     type_                = f.ParamTagField(v.Integer, 0,
+                                  name = 'type',
                         )
 
     ### }}}
@@ -717,6 +719,7 @@ class Spherize(Layer):
     clip                 = f.ParamTagField(v.Bool, False,
                         )
     type_                = f.ParamTagField(v.Integer, 0,
+                                  name = 'type',
                         )
 
     ### }}}
-- 
2.43.0


From affc360c05a36ce6ce0aa00771e94cb36496a9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:23 +0000
Subject: [PATCH 35/48] fix: the times in new layers are written with units, so
 that they can be read

---
 sangfroid/layer/layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index f79c678..4759bc9 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -462,6 +462,9 @@ class _TimeButString(v.Time):
         return 'time'
 
     def _coerce(self, v):
+        if isinstance(v, (int, float)):
+            # plain numbers are frames, but XML needs the units
+            v = f'{v}f'
         return self.our_type(v)
 
 __all__ = [
-- 
2.43.0


From b985a36758d75f8d30c626bc00f330e90ed561d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:23 +0000
Subject: [PATCH 36/48] fix: the default version of a layer doesn't depend on
 which layers were created

---
 sangfroid/field.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index 74375af..f326b1a 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -411,6 +411,14 @@ class SynfigVersionField(TagAttrField):
         super().__set_name__(owner, name)
         self.default = owner.SYNFIG_VERSION
 
+    def __get__(self, obj, obj_type=None):
+        if self.name not in obj._tag.attrs:
+            # self.default depends on which class of layer
+            # was last created.
+            return self.type_override(obj.SYNFIG_VERSION)
+
+        return super().__get__(obj, obj_type)
+
 class DescField(TagAttrField):
     """
     A Field for the description of a layer.
-- 
2.43.0


From 10b0a2190b58bc0fb78c3d7dbdbe3c0b1eaf546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:26 +0000
Subject: [PATCH 37/48] fix: text consisting only of spaces is kept when it's
 loaded

---
 sangfroid/format.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index bb9b469..076da62 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -155,6 +155,10 @@ class FileContextHandler:
         self.soup = BeautifulSoup(
                 f,
                 features = 'xml',
+                # elsewhere, whitespace on its own isn't significant
+                preserve_whitespace_tags = {
+                    'string', 'name', 'desc', 'keyframe',
+                    },
                 )
 
     def __enter__(self):
-- 
2.43.0


From 7dd9245cfa80abf26d645b42d6b55306c1cc4653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:58 +0000
Subject: [PATCH 38/48] fix: bywords doesn't lose words of lines which are
 spoken at the same time

---
 bywords/bywords.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index f41ba0c..21589f2 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -146,7 +146,7 @@ class Bywords:
             and group.desc.lower().startswith('bywords')
             ])
 
-        result = {}
+        result = []
         found = None
 
         for start, duration, text in self.lines:
@@ -159,12 +159,11 @@ class Bywords:
                 if found:
                     break
             if found:
-                for word in found:
-                    result[word.time] = word
+                result.extend(found)
             else:
                 self.no_matches.append(text)
 
-        self.words = sorted(list(result.values()))
+        self.words = sorted(result)
 
     def dump_findings_to_logger(self):
         logger.info("\n\n=== Source timings ===\n")
-- 
2.43.0


From 2e002ddfb09ef300618da0515837282a911a80d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:03 +0000
Subject: [PATCH 39/48] fix: bywords can handle words within a tenth of a
 millisecond of the start

---
 bywords/adjust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bywords/adjust.py b/bywords/adjust.py
index ec8a432..eaaf4ea 100644
--- a/bywords/adjust.py
+++ b/bywords/adjust.py
@@ -7,7 +7,7 @@ logger = logging.getLogger('bywords')
 def set_constant_waypoint(tl, time, value):
     s = sangfroid.value.String(value)
     t = sangfroid.T(
-            f"{time}s",
+            f"{time:.9f}s", # without exponents
             ref = tl.parent.tag,
             )
     waypoint = sangfroid.value.Waypoint(
-- 
2.43.0


From 6f17b70ac34c82003f79cf07430e27ee7c9918e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:08 +0000
Subject: [PATCH 40/48] fix: bywords ignores text layers which have no
 description

---
 bywords/bywords.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 21589f2..ccbd2dc 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -52,6 +52,7 @@ class BywordsGroup:
                 (self.tidy_string(item.desc), item,)
                 for item in
                 list(reversed(group.find_all('text')))
+                if item.desc is not None
                 ]
 
         self.full_text = ' '.join(
-- 
2.43.0


From ea30553195965409c9b63ed2982c250e6ac0c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:00 +0000
Subject: [PATCH 41/48] fix: find_all() with True or a callback also respects
 the fields

If you gave find_all() True, False, or a callback, it ignored all the
keyword arguments.
---
 sangfroid/layer/layer.py | 41 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 4759bc9..cc3262a 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -235,32 +235,31 @@ class Layer:
 
             found_layer = Layer.from_tag(found_tag)
 
-            if matching_special is None:
-
-                logger.debug("want: %s", kwargs)
+            logger.debug("want: %s", kwargs)
 
-                for k, want_value in kwargs.items():
-                    if k=='type':
-                        if isinstance(want_value, type):
-                            found_value = isinstance(found_layer, want_value)
-                            want_value = True
-                        else:
-                            found_value = normalise_synfig_layer_type_name(
-                                    found_tag['type'])
+            for k, want_value in kwargs.items():
+                if k=='type':
+                    if isinstance(want_value, type):
+                        found_value = isinstance(found_layer, want_value)
+                        want_value = True
                     else:
-                        try:
-                            found_value = getattr(found_layer, k)
-                        except AttributeError:
-                            logger.debug("  -- it does not have a %s", k)
-                            return False
+                        found_value = normalise_synfig_layer_type_name(
+                                found_tag['type'])
+                else:
+                    try:
+                        found_value = getattr(found_layer, k)
+                    except AttributeError:
+                        logger.debug("  -- it does not have a %s", k)
+                        return False
 
-                    logger.debug("  want: %s  found: %s",
-                                 want_value, found_value)
+                logger.debug("  want: %s  found: %s",
+                             want_value, found_value)
 
-                    if found_value!=want_value:
-                        logger.debug("    -- not a match.")
-                        return False
+                if found_value!=want_value:
+                    logger.debug("    -- not a match.")
+                    return False
 
+            if matching_special is None:
                 logger.debug("  -- a match!")
                 return True
 
-- 
2.43.0


From ac9f16b2f1361305cd2f11b913be558793feb74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:12 +0000
Subject: [PATCH 42/48] fix: an animation's name and begin_time can be set, and
 have defaults

---
 sangfroid/animation.py | 19 -------------------
 1 file changed, 19 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 8dbe8ff..03bce80 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -133,10 +133,6 @@ class Animation(Group):
     def canvas_tag(self):
         return self._tag
 
-    @property
-    def name(self):
-        return self._tag.find('name').string
-
     @property
     def size(self):
         """
@@ -166,21 +162,6 @@ class Animation(Group):
             self._tag.attrs['view-box'].split(' ')
             ])
 
-
-    @property
-    def begin_time(self):
-        """
-        The time at which this animation starts.
-
-        Almost always zero.
-
-        Type:
-            T
-        """
-        return T(self._tag.attrs['begin-time'],
-                 ref = self._tag,
-                 )
-
     @property
     def framecount(self):
         """
-- 
2.43.0


From 4a349c60a132739386afa91f5a044ecf4ad37f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:12 +0000
Subject: [PATCH 43/48] fix: an empty name or desc of an animation is '', not
 None

---
 sangfroid/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index f326b1a..04c0fab 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -291,7 +291,7 @@ class NamedChildField(Field):
         if subtag is None:
             return ''
         else:
-            return subtag.string
+            return subtag.string or ''
 
     def __set__(self, obj, value):
 
-- 
2.43.0


From 7fd5c7688ca2956df54c9cdcca9691eb6293dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:12 +0000
Subject: [PATCH 44/48] fix: times of an animation which are set to numbers can
 be read back

---
 sangfroid/animation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 03bce80..90cb8a3 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -33,6 +33,12 @@ class TagTimeAttrField(TagAttrField):
                  ref = obj._tag,
                  )
 
+    def __set__(self, obj, value):
+        super().__set__(obj,
+                        T(value,
+                          ref = obj._tag,
+                          ))
+
 class Animation(Group):
     """
     A Synfig animation.
-- 
2.43.0


From 5e4426779a0fa1efbe45a7a560ef351be4ac2a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:12 +0000
Subject: [PATCH 45/48] fix: size, viewbox and background fall back to the
 defaults

---
 sangfroid/animation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 90cb8a3..2ccbc10 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -148,8 +148,8 @@ class Animation(Group):
             (int, int)
         """
         return (
-                int(self._tag.attrs['width']),
-                int(self._tag.attrs['height']),
+                self.width,
+                self.height,
                 )
 
     @property
@@ -165,7 +165,7 @@ class Animation(Group):
         """
         return tuple([
             float(n) for n in
-            self._tag.attrs['view-box'].split(' ')
+            self.view_box.split(' ')
             ])
 
     @property
@@ -193,7 +193,7 @@ class Animation(Group):
         """
         triplet = tuple([
             float(n) for n in
-            self._tag.attrs['bgcolor'].split(' ')
+            self.bgcolor.split(' ')
             ])
         result = Color(*triplet)
         return result
-- 
2.43.0


From e406cdaeb762552361c3ef226c98a1d11ea36e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:09 +0000
Subject: [PATCH 46/48] fix: appending or inserting a layer which is already in
 the group

append() raised ValueError if the layer was already the last one;
insert() raised ValueError if it was already at that index, and put
it one place too early if it was being moved further along.
---
 sangfroid/layer/group.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index 2541e64..30e9ce2 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -119,7 +119,7 @@ class Group(Layer):
         for child in canvas.contents:
             if not isinstance(child, bs4.element.Tag):
                 continue
-            if child.name=='layer':
+            if child.name=='layer' and child is not layer._tag:
                 after = child
                 break
 
@@ -135,6 +135,16 @@ class Group(Layer):
         before = self[index]
         # "before" from our perspective; *after* in the XML
 
+        if before._tag is layer._tag:
+            # it's there already
+            return
+
+        if any([t is layer._tag for t in before._tag.next_siblings]):
+            # It's moving further along this group, so "before" is
+            # about to move back into the space it leaves.
+            before._tag.insert_before(layer._tag)
+            return
+
         before._tag.insert_after("\n")
         before._tag.insert_after(layer._tag)
         before._tag.insert_after("\n")
-- 
2.43.0


From 305e604cff144a88c6672d4850f4d3003c7fd11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:45 +0000
Subject: [PATCH 47/48] fix: a save which fails no longer changes the name used
 by the next one

If the file couldn't be written, or the format couldn't be saved to,
a later save() without a name would use the new name and format,
under which the animation had never been saved.
---
 sangfroid/animation.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 2ccbc10..37bc981 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -221,19 +221,22 @@ class Animation(Group):
                         "you must give one when you save."
                         )
             filename = self._format.filename
+            new_format = self._format
         else:
             new_format = Format.from_filename(filename,
                                               load = False,
                                               )
-            if new_format!=self._format:
-                # XXX copy the images over
-                self._format = new_format
 
-        self._format.save(
+        new_format.save(
                 content = self._soup,
                 filename = filename,
                 )
 
+        # If that raised an exception, we're still in the old format,
+        # under the old name.
+        # XXX copy the images over
+        self._format = new_format
+
 __all__ = [
         'Animation',
         ]
-- 
2.43.0


From 8f5c344bedcc132853081df4948a27fe11f1a155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:58 +0000
Subject: [PATCH 48/48] fix: a document which can't be encoded no longer
 destroys the file it's saved over

The file was opened, and so emptied, before the text was encoded.
---
 sangfroid/format.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 076da62..0bae389 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -135,8 +135,8 @@ class Format:
 
         return filename
 
-    def _write_to_file(self, f, content):
-        f.write(str(content).encode('UTF-8'))
+    def _encode(self, content):
+        return str(content).encode('UTF-8')
 
     @classmethod
     def handlers(cls):
@@ -178,8 +178,11 @@ class Sif(Format):
     def save(self, content, filename=None):
         filename = self._filename_for_saving(filename)
 
+        # Do this before we open the file, in case it fails.
+        encoded = self._encode(content)
+
         with open(filename, 'wb') as f:
-            self._write_to_file(f, content)
+            f.write(encoded)
 
 class Sifz(Format):
 
@@ -192,8 +195,11 @@ class Sifz(Format):
     def save(self, content, filename=None):
         filename = self._filename_for_saving(filename)
 
+        # Do this before we open the file, in case it fails.
+        encoded = self._encode(content)
+
         with gzip.open(filename, 'wb') as f:
-            self._write_to_file(f, content)
+            f.write(encoded)
 
 class Sfg(Format):
     
-- 
2.43.0

