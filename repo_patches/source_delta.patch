From f24aeef662d35d1d56efe88d5c98b508bb4c4a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:23 +0000
Subject: [PATCH 01/29] fix: convert every HSL hue to the right RGB color

Hues between 240 and 300 degrees used the formula of the previous
sextant, and hues outside of [0, 360) were not normalized.
---
 src/colosseum/colors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/colors.py b/src/colosseum/colors.py
index 37a1ec8..fb74f8b 100644
--- a/src/colosseum/colors.py
+++ b/src/colosseum/colors.py
@@ -34,7 +34,8 @@ class hsl(Color):
     @property
     def rgb(self):
         c = (1.0 - abs(2.0 * self.l - 1.0)) * self.s
-        h = self.h / 60.0
+        # Hue is an angle; a full turn is the same color.
+        h = (self.h % 360) / 60.0
         x = c * (1.0 - abs(h % 2 - 1.0))
         m = self.l - 0.5 * c
 
@@ -47,7 +48,7 @@ class hsl(Color):
         elif h < 4.0:
             r, g, b = m, x + m, c + m
         elif h < 5.0:
-            r, g, b = m, x + m, c + m
+            r, g, b = x + m, m, c + m
         else:
             r, g, b = c + m, m, x + m
 
-- 
2.43.0


From eb441a888f882526fa5af65af1e8b595e0f6ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:23 +0000
Subject: [PATCH 02/29] fix: make the NOWRAP constant a usable white-space
 value

NOWRAP was redefined as the (non-existent) flex-wrap value 'no-wrap', so
assigning the constant to white_space was rejected.
---
 src/colosseum/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/constants.py b/src/colosseum/constants.py
index 9347db2..d8b7cac 100644
--- a/src/colosseum/constants.py
+++ b/src/colosseum/constants.py
@@ -645,7 +645,7 @@ COLUMN_REVERSE = "column-reverse"
 
 FLEX_DIRECTION_CHOICES = Choices(ROW, ROW_REVERSE, COLUMN, COLUMN_REVERSE)
 
-NOWRAP = "no-wrap"
+# NOWRAP = "nowrap"
 WRAP = "wrap"
 WRAP_REVERSE = "wrap-reverse"
 
-- 
2.43.0


From ac485a189b971794062af2490726a80cbe789679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:55 +0000
Subject: [PATCH 03/29] fix: render a 'none' value as CSS in the rendered
 declaration

---
 src/colosseum/declaration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 3c3e13e..52caf72 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -758,4 +758,7 @@ class CSS:
             except AttributeError:
                 pass
 
-        return "; ".join(f"{name}: {value}" for name, value in sorted(non_default))
+        return "; ".join(
+            f"{name}: {'none' if value is None else value}"
+            for name, value in sorted(non_default)
+        )
-- 
2.43.0


From 3ea16e80870ba40b979160b8c371aa58a2b51937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:22 +0000
Subject: [PATCH 04/29] fix: disable every mutating operation of ImmutableList

Deleting items, clear(), += and *= still modified the list.
---
 src/colosseum/wrappers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/colosseum/wrappers.py b/src/colosseum/wrappers.py
index ee82a21..56d8cb2 100644
--- a/src/colosseum/wrappers.py
+++ b/src/colosseum/wrappers.py
@@ -194,6 +194,15 @@ class ImmutableList(list):
     def __setitem__(self, index, value):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
+    def __delitem__(self, index):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __iadd__(self, iterable):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __imul__(self, count):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def __hash__(self):
         return hash((self.__class__.__name__, tuple(self)))
 
@@ -216,6 +225,9 @@ class ImmutableList(list):
     def append(self, object):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
+    def clear(self):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def extend(self, iterable):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
-- 
2.43.0


From 0fed236f3393cd52eece7956c426c0ce7bacc3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:50 +0000
Subject: [PATCH 05/29] fix: don't register every unit value as a base unit

Every unit value ever created was kept alive in the list of known units,
and searched when parsing a value.
---
 src/colosseum/units.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/units.py b/src/colosseum/units.py
index 6c392a5..d8dc0a3 100644
--- a/src/colosseum/units.py
+++ b/src/colosseum/units.py
@@ -28,7 +28,9 @@ class BaseUnit:
     UNITS = []
 
     def __init__(self, suffix, val=None):
-        BaseUnit.UNITS.append((suffix, self))
+        if val is None:
+            # Only the base units are used to parse values
+            BaseUnit.UNITS.append((suffix, self))
         self.suffix = suffix
         self.val = val if val is not None else 1
 
-- 
2.43.0


From 16d4f034b1dff3560639272a2e2d40b9c98c583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:34 +0000
Subject: [PATCH 06/29] fix: reject angles and non-finite numbers as lengths

'10deg', 'nan' or 'inf' were accepted as the value of length properties,
and only failed later, when the declaration was rendered or laid out.
---
 src/colosseum/parser.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 574b6ae..4371816 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,5 +1,6 @@
 from ast import literal_eval
 from collections.abc import Sequence
+from math import isfinite
 
 from .colors import NAMED_COLOR, hsl, rgb
 from .exceptions import ValidationError
@@ -18,24 +19,30 @@ def units(value):
     * A string with a known unit suffix
     * A string containing an float (interpreted as pixels)
     """
+    result = None
     if isinstance(value, Unit):
-        return value
+        result = value
     elif isinstance(value, (int, float)):
-        return value * px
+        result = value * px
     elif isinstance(value, str):
         for suffix, unit in Unit.UNITS:
-            if value.endswith(suffix):
+            if isinstance(unit, Unit) and value.endswith(suffix):
                 try:
-                    return float(value[: -len(suffix)]) * unit
+                    result = float(value[: -len(suffix)]) * unit
+                    break
                 except ValueError:
                     pass
+        else:
+            try:
+                result = float(value) * px
+            except ValueError:
+                pass
 
-        try:
-            return float(value) * px
-        except ValueError:
-            pass
+    # Angles aren't sizes, and a size must be finite.
+    if result is None or not isfinite(result.val):
+        raise ValueError(f"Unknown size {value}")
 
-    raise ValueError(f"Unknown size {value}")
+    return result
 
 
 def color(value):
-- 
2.43.0


From 4241791d220178a0ff2e99dceb72bcd2d062b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:11 +0000
Subject: [PATCH 07/29] fix: reject malformed color values

A missing parenthesis silently dropped the last digit of the last
component, any character was accepted as a parenthesis, a hex color could
contain signs or spaces, and an empty string raised IndexError.
---
 src/colosseum/parser.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 4371816..e65a103 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,6 +1,7 @@
 from ast import literal_eval
 from collections.abc import Sequence
 from math import isfinite
+from string import hexdigits
 
 from .colors import NAMED_COLOR, hsl, rgb
 from .exceptions import ValidationError
@@ -66,9 +67,9 @@ def color(value):
         return value
 
     elif isinstance(value, str):
-        if value[0] == "#":
+        if value.startswith("#"):
             return pound_sign_color(value)
-        elif value.startswith("rgba"):
+        elif value.startswith("rgba(") and value.endswith(")"):
             try:
                 values = value[5:-1].split(",")
                 if len(values) == 4:
@@ -77,7 +78,7 @@ def color(value):
                     )
             except ValueError:
                 pass
-        elif value.startswith("rgb"):
+        elif value.startswith("rgb(") and value.endswith(")"):
             try:
                 values = value[4:-1].split(",")
                 if len(values) == 3:
@@ -85,7 +86,7 @@ def color(value):
             except ValueError:
                 pass
 
-        elif value.startswith("hsla"):
+        elif value.startswith("hsla(") and value.endswith(")"):
             try:
                 values = value[5:-1].split(",")
                 if len(values) == 4:
@@ -98,7 +99,7 @@ def color(value):
             except ValueError:
                 pass
 
-        elif value.startswith("hsl"):
+        elif value.startswith("hsl(") and value.endswith(")"):
             try:
                 values = value[4:-1].split(",")
                 if len(values) == 3:
@@ -128,7 +129,9 @@ def pound_sign_color(value):
     * '#RRGGBBAA'
     """
 
-    if len(value) == 4:
+    if not all(digit in hexdigits for digit in value[1:]):
+        raise ValueError(f"Unknown color {value}")
+    elif len(value) == 4:
         return rgb(
             r=int(value[1] + value[1], 16),
             g=int(value[2] + value[2], 16),
-- 
2.43.0


From 5f25c83df69a56590c58b4ff1c0836411e75c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:47 +0000
Subject: [PATCH 08/29] fix: accept already parsed values of every property

Copying a declaration assigns the parsed values to the copy. That was
rejected (quotes, cursor), or the value silently lost (clip,
border-spacing), because these parsers only accepted unparsed values.
---
 src/colosseum/parser.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index e65a103..9d9e2ee 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -170,8 +170,11 @@ def border_spacing(value):
     * An integer (interpreted as pixels).
     * A float (interpreted as pixels).
     * A string with of 1 or 2 length items separated by spaces.
+    * An already converted instance of border spacing.
     """
-    if isinstance(value, Sequence) and not isinstance(value, str):
+    if isinstance(value, BorderSpacing):
+        return value
+    elif isinstance(value, Sequence) and not isinstance(value, str):
         values = value
     elif isinstance(value, (int, float)):
         values = (value,)
@@ -191,6 +194,9 @@ def border_spacing(value):
 
 def rect(value):
     """Parse a given rect shape."""
+    if isinstance(value, Rect):
+        return value
+
     value = " ".join(val.strip() for val in value.split())
     if (
         value.startswith("rect(")
@@ -221,8 +227,11 @@ def quotes(value):
     * A string: "'<' '>' '{' '}'"
     * A sequence: ('<', '>') or ['{', '}']
     * A list of 2 item tuples: [('<', '>'), ('{', '}')]
+    * An already converted instance of quotes
     """
-    if isinstance(value, str):
+    if isinstance(value, Quotes):
+        return value
+    elif isinstance(value, str):
         values = [val.strip() for val in value.split()]
     elif isinstance(value, Sequence):
         # Flatten list of tuples
@@ -423,8 +432,11 @@ def uri(value):
     * url(  '<url>'  )
     * url(<url>)
     * url(  <url>  )
+    * An already converted instance of uri
     """
-    if isinstance(value, str):
+    if isinstance(value, Uri):
+        return value
+    elif isinstance(value, str):
         value = value.strip()
     else:
         raise ValueError("Value {value} must be a string")
-- 
2.43.0


From e206d9e5a9a6bccfb7c3c13c1c93a8008796c164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:35 +0000
Subject: [PATCH 09/29] fix: reject every invalid value with a ValueError

Values of the wrong type for clip, border-spacing, quotes and cursor, and
infinite values of integer properties, raised AttributeError, TypeError or
OverflowError; quotes accepted values that aren't strings.
---
 src/colosseum/parser.py     | 27 +++++++++++++++++++++------
 src/colosseum/validators.py |  2 +-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 9d9e2ee..d25b4fc 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -40,10 +40,13 @@ def units(value):
                 pass
 
     # Angles aren't sizes, and a size must be finite.
-    if result is None or not isfinite(result.val):
-        raise ValueError(f"Unknown size {value}")
+    try:
+        if result is not None and isfinite(result.val):
+            return result
+    except OverflowError:
+        pass
 
-    return result
+    raise ValueError(f"Unknown size {value}")
 
 
 def color(value):
@@ -174,12 +177,14 @@ def border_spacing(value):
     """
     if isinstance(value, BorderSpacing):
         return value
-    elif isinstance(value, Sequence) and not isinstance(value, str):
+    elif isinstance(value, Sequence) and not isinstance(value, (str, bytes)):
         values = value
     elif isinstance(value, (int, float)):
         values = (value,)
-    else:
+    elif isinstance(value, str):
         values = [x.strip() for x in value.split()]
+    else:
+        raise ValueError(f"Unknown border spacing {str(value)}")
 
     if len(values) == 1:
         horizontal = units(values[0])
@@ -196,6 +201,8 @@ def rect(value):
     """Parse a given rect shape."""
     if isinstance(value, Rect):
         return value
+    elif not isinstance(value, str):
+        raise ValueError(f"Unknown shape {value}")
 
     value = " ".join(val.strip() for val in value.split())
     if (
@@ -235,7 +242,10 @@ def quotes(value):
         values = [val.strip() for val in value.split()]
     elif isinstance(value, Sequence):
         # Flatten list of tuples
-        values = [repr(item) for sublist in value for item in sublist]
+        try:
+            values = [repr(item) for sublist in value for item in sublist]
+        except TypeError:
+            raise ValueError(f"Unknown quote {value}")
     else:
         raise ValueError(f"Unknown quote {value}")
 
@@ -252,6 +262,9 @@ def quotes(value):
                 closing = literal_eval(closing)
                 parsed_values.append((opening, closing))
 
+                if not isinstance(opening, str) or not isinstance(closing, str):
+                    raise ValueError(f"Invalid quotes {value}")
+
                 if len(opening) == 0 or len(closing) == 0:
                     raise ValueError(f"Invalid quotes {value}")
 
@@ -468,6 +481,8 @@ def cursor(values):
 
     if isinstance(values, str):
         values = [val.strip() for val in values.split(",")]
+    elif not isinstance(values, Sequence):
+        raise ValueError(f"Unknown cursor {values}")
 
     validated_values = []
     has_cursor_option = False
diff --git a/src/colosseum/validators.py b/src/colosseum/validators.py
index 8b49a98..a1bd4bb 100644
--- a/src/colosseum/validators.py
+++ b/src/colosseum/validators.py
@@ -11,7 +11,7 @@ from .exceptions import ValidationError
 def _numeric_validator(num_value, numeric_type, min_value, max_value):
     try:
         num_value = numeric_type(num_value)
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, OverflowError):
         error_msg = f"Cannot coerce {num_value} to {numeric_type.__name__}"
         raise ValidationError(error_msg)
 
-- 
2.43.0


From 38369a39245694afbd1c340837c8ce6de96efff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 10/29] fix: don't split the strings in a sequence of quotes

('<<', '>>') was parsed as the two pairs of quotes '<' '<' and '>' '>'.
---
 src/colosseum/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index d25b4fc..9a471ec 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -243,7 +243,11 @@ def quotes(value):
     elif isinstance(value, Sequence):
         # Flatten list of tuples
         try:
-            values = [repr(item) for sublist in value for item in sublist]
+            values = [
+                repr(item)
+                for sublist in value
+                for item in ([sublist] if isinstance(sublist, str) else sublist)
+            ]
         except TypeError:
             raise ValueError(f"Unknown quote {value}")
     else:
-- 
2.43.0


From cd4f839ce68d6b6a1def15c3dd75a784dea917aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:48 +0000
Subject: [PATCH 11/29] fix: don't modify any side when a directional value is
 rejected

margin = (1, 2, 'invalid') raised a ValueError, but had already changed
the top and right margin.
---
 src/colosseum/declaration.py | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 52caf72..5f44abb 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -232,35 +232,30 @@ def directional_property(name, initial):
     def setter(self, value):
         if isinstance(value, tuple):
             if len(value) == 4:
-                setattr(self, name % "_top", value[0])
-                setattr(self, name % "_right", value[1])
-                setattr(self, name % "_bottom", value[2])
-                setattr(self, name % "_left", value[3])
+                top, right, bottom, left = value
             elif len(value) == 3:
-                setattr(self, name % "_top", value[0])
-                setattr(self, name % "_right", value[1])
-                setattr(self, name % "_bottom", value[2])
-                setattr(self, name % "_left", value[1])
+                top, right, bottom = value
+                left = right
             elif len(value) == 2:
-                setattr(self, name % "_top", value[0])
-                setattr(self, name % "_right", value[1])
-                setattr(self, name % "_bottom", value[0])
-                setattr(self, name % "_left", value[1])
+                top, right = value
+                bottom, left = value
             elif len(value) == 1:
-                setattr(self, name % "_top", value[0])
-                setattr(self, name % "_right", value[0])
-                setattr(self, name % "_bottom", value[0])
-                setattr(self, name % "_left", value[0])
+                top = right = bottom = left = value[0]
             else:
                 raise ValueError(
                     "Invalid value for '%s'; value must be an number, or a 1-4 tuple."
                     % (name % "")
                 )
         else:
-            setattr(self, name % "_top", value)
-            setattr(self, name % "_right", value)
-            setattr(self, name % "_bottom", value)
-            setattr(self, name % "_left", value)
+            top = right = bottom = left = value
+
+        # Set a scratch declaration first, so that this one isn't
+        # modified at all if any of the values is invalid.
+        for target in [type(self)(), self]:
+            setattr(target, name % "_top", top)
+            setattr(target, name % "_right", right)
+            setattr(target, name % "_bottom", bottom)
+            setattr(target, name % "_left", left)
 
     def deleter(self):
         delattr(self, name % "_top")
-- 
2.43.0


From 514b12c283c28501abebd595365f4d2f73c040e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:12 +0000
Subject: [PATCH 12/29] fix: allow to modify the style and size of a node that
 isn't displayed

Laying out a document removes the layout of every node with 'display:
none'. From then on, changing the style (for example to show the node
again) or the intrinsic size of that node raised AttributeError.
---
 src/colosseum/declaration.py | 5 +++--
 src/colosseum/dimensions.py  | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 5f44abb..28b230e 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -663,12 +663,13 @@ class CSS:
     ######################################################################
     @property
     def dirty(self):
-        if self._node:
+        if self._node and self._node.layout:
             return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        if self._node:
+        # A node that isn't displayed doesn't have a layout.
+        if self._node and self._node.layout:
             self._node.layout.dirty = value
 
     ######################################################################
diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 2a083d3..b4424ae 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -25,11 +25,14 @@ class Size:
 
     @property
     def dirty(self):
-        return self._node.layout.dirty
+        if self._node.layout:
+            return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        self._node.layout.dirty = value
+        # A node that isn't displayed doesn't have a layout.
+        if self._node.layout:
+            self._node.layout.dirty = value
 
     @property
     def width(self):
-- 
2.43.0


From a161bd3089a6ed1c3c5a165765d60cfdedf06d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:56 +0000
Subject: [PATCH 13/29] fix: lay out documents with nodes that aren't displayed

A node with 'display: none' generates no box at all, and so must have no
effect on the layout of other nodes. Instead, laying out a block with such
a child failed, or made the block collapse; laying out a root node that
isn't displayed failed; and a node that was displayed again was put in the
wrong position, because its box (or the stale boxes of its descendants)
didn't take part in resetting the layout.
---
 src/colosseum/engine.py | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index e62cfb7..058f19f 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -104,15 +104,36 @@ class DummyFont:
         return 0.71 * self.size
 
 
+def create_boxes(node):
+    # Make sure that the node, and all its descendants, have a layout box;
+    # a previous layout removed the boxes of the nodes it didn't display.
+    if node.layout is None:
+        node.layout = Box(node)
+    for child in node.children:
+        create_boxes(child)
+
+
+def remove_boxes(node):
+    # If a node isn't displayed, none of its descendants are.
+    node.layout = None
+    for child in node.children:
+        remove_boxes(child)
+
+
 def layout(display, node, standard=HTML5):
     containing_block = Viewport(display, node)
     font = DummyFont(-1)  # FIXME: default font
 
+    create_boxes(node)
     node.layout.reset()
 
     # 10.1 1
     layout_box(display, node, containing_block, containing_block, font)
 
+    # If the root element isn't displayed, there's nothing else to lay out.
+    if node.layout is None:
+        return
+
     # The full collapsed extent of the top margin on the root element
     # must be displayed, so move the default content position so that it is.
     node.layout.content_top += node.layout.collapse_top
@@ -165,12 +186,8 @@ def anonymize(nodes):
 def layout_box(display, node, containing_block, viewport, font):
     # If the node shouldn't be displayed, remove the layout box.
     if node.style.display is None:
-        node.layout = None
+        remove_boxes(node)
         return
-    else:
-        # Make sure the node *has* a display box.
-        if node.layout is None:
-            node.layout = Box(node)
 
     # Copy margin, border and padding attributes to the layout
     horizontal = {
@@ -232,7 +249,11 @@ def layout_box(display, node, containing_block, viewport, font):
             raise NotImplementedError("Section 17")  # pragma: no cover
         else:
             # Section 9.4.1 - Block formatting context
-            children = anonymize(node.children)
+            for child in node.children:
+                if child.style.display is None:
+                    remove_boxes(child)
+
+            children = anonymize(child for child in node.children if child.layout)
             offset_top = 0
             bottom_margin = None
 
@@ -671,8 +692,9 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
         # if node.children and node.has_inline_formatting_content: # P4.1
         #     content_height = bottom edge of last line box
         # elif node.children and node.children[-1] non collapsing with bottom margin:
-        if node.children and node.children[-1]:
-            last_child = node.children[-1]
+        displayed = [child for child in node.children if child.layout]
+        if displayed:
+            last_child = displayed[-1]
             content_height = last_child.layout.border_box_bottom
 
             # Merge the margin of the last child with
-- 
2.43.0


From 8516744961735f9ccb15276ae64d423715a6bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:05 +0000
Subject: [PATCH 14/29] fix: collapse margins that aren't a whole number of
 pixels

The collapsed extent of a box ignored any margin that wasn't an int (for
example '0.5px', or '1mm'), so the margin disappeared.
---
 src/colosseum/dimensions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index b4424ae..6478a74 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -1,3 +1,6 @@
+from .constants import AUTO
+
+
 class Size:
     """Representation of the size of a node in the DOM.
 
@@ -339,7 +342,7 @@ class Box:
 
     @collapse_top.setter
     def collapse_top(self, value):
-        if isinstance(value, int) and value > self._collapse_top:
+        if value != AUTO and value > self._collapse_top:
             self._collapse_top = value
 
     @property
@@ -348,7 +351,7 @@ class Box:
 
     @collapse_right.setter
     def collapse_right(self, value):
-        if isinstance(value, int) and value > self._collapse_right:
+        if value != AUTO and value > self._collapse_right:
             self._collapse_right = value
 
     @property
@@ -357,7 +360,7 @@ class Box:
 
     @collapse_bottom.setter
     def collapse_bottom(self, value):
-        if isinstance(value, int) and value > self._collapse_bottom:
+        if value != AUTO and value > self._collapse_bottom:
             self._collapse_bottom = value
 
     @property
@@ -366,7 +369,7 @@ class Box:
 
     @collapse_left.setter
     def collapse_left(self, value):
-        if isinstance(value, int) and value > self._collapse_left:
+        if value != AUTO and value > self._collapse_left:
             self._collapse_left = value
 
     ######################################################################
-- 
2.43.0


From bb251cfeb64c402b1e7612b8884f76bdd06720e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:25 +0000
Subject: [PATCH 15/29] fix: resolve margin and padding percentages against the
 containing width

Sections 8.3 and 8.4: a percentage refers to the width of the containing
block, for all four sides. Top and bottom margins, and left and right
padding, used the height instead (which isn't even known at that time).
---
 src/colosseum/engine.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 058f19f..f9d81c8 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -189,7 +189,8 @@ def layout_box(display, node, containing_block, viewport, font):
         remove_boxes(node)
         return
 
-    # Copy margin, border and padding attributes to the layout
+    # Copy margin, border and padding attributes to the layout. Percentages
+    # refer to the width of the containing block, in *both* directions.
     horizontal = {
         "display": display,
         "font": font,
@@ -201,28 +202,28 @@ def layout_box(display, node, containing_block, viewport, font):
         "font": font,
         "size": containing_block.layout.content_height,
     }
-    node.layout.margin_top = calculate_size(node.style.margin_top, vertical)
+    node.layout.margin_top = calculate_size(node.style.margin_top, horizontal)
     node.layout.margin_right = calculate_size(node.style.margin_right, horizontal)
-    node.layout.margin_bottom = calculate_size(node.style.margin_bottom, vertical)
+    node.layout.margin_bottom = calculate_size(node.style.margin_bottom, horizontal)
     node.layout.margin_left = calculate_size(node.style.margin_left, horizontal)
 
     node.layout.border_top_width = calculate_size(
         node.style.border_top_width, horizontal
     )
     node.layout.border_right_width = calculate_size(
-        node.style.border_right_width, vertical
+        node.style.border_right_width, horizontal
     )
     node.layout.border_bottom_width = calculate_size(
         node.style.border_bottom_width, horizontal
     )
     node.layout.border_left_width = calculate_size(
-        node.style.border_left_width, vertical
+        node.style.border_left_width, horizontal
     )
 
     node.layout.padding_top = calculate_size(node.style.padding_top, horizontal)
-    node.layout.padding_right = calculate_size(node.style.padding_right, vertical)
+    node.layout.padding_right = calculate_size(node.style.padding_right, horizontal)
     node.layout.padding_bottom = calculate_size(node.style.padding_bottom, horizontal)
-    node.layout.padding_left = calculate_size(node.style.padding_left, vertical)
+    node.layout.padding_left = calculate_size(node.style.padding_left, horizontal)
 
     # print("NODE", node)
 
-- 
2.43.0


From 78fa7aafe1f7556a60a25607a9ff3f8967bca119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:47 +0000
Subject: [PATCH 16/29] fix: keep all vertical margins that don't collapse

Section 8.3.1: the margin of the first (last) child doesn't collapse with
the margin of its parent if the parent has a top (bottom) border or
padding. It was collapsed all the same, but then not displayed at all. And
the margin between two siblings must consider the margin of the second
one's own first child, if it collapses with it.
---
 src/colosseum/engine.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index f9d81c8..5d69b87 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -267,9 +267,13 @@ def layout_box(display, node, containing_block, viewport, font):
                 # Otherwise, collapse the bottom margin of the previous element
                 # with the top margin of this element, and offset by the result.
                 if bottom_margin is None:
-                    node.layout.collapse_top = child.layout.collapse_top
+                    if node.layout.border_top_width or node.layout.padding_top:
+                        # 8.3.1 - Border or padding separate the margins.
+                        offset_top += child.layout.collapse_top
+                    else:
+                        node.layout.collapse_top = child.layout.collapse_top
                 else:
-                    offset_top += max(bottom_margin, child.layout.margin_top)
+                    offset_top += max(bottom_margin, child.layout.collapse_top)
 
                 # Offset the top of the child, relative to the parent.
                 child.layout.content_top += offset_top
@@ -698,9 +702,13 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
             last_child = displayed[-1]
             content_height = last_child.layout.border_box_bottom
 
-            # Merge the margin of the last child with
-            # the margin of the last child.
-            node.layout.collapse_bottom = last_child.layout.collapse_bottom
+            if node.layout.border_bottom_width or node.layout.padding_bottom:
+                # 8.3.1 - Border or padding separate the margins.
+                content_height += last_child.layout.collapse_bottom
+            else:
+                # Merge the margin of the last child with
+                # the margin of the last child.
+                node.layout.collapse_bottom = last_child.layout.collapse_bottom
 
         # elif node.children and node.children[-1] top margin non collapsing with bottom margin:
         #     content_height = bottom border edge of bottom margin
-- 
2.43.0


From bf1dc4cf1487d3f5472e565e1d39b67dd168898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:08 +0000
Subject: [PATCH 17/29] fix: apply the minimum and maximum height to every
 height

Section 10.7: min-height was ignored unless the height was automatic and
the node had no children; max-height was ignored if the height was
automatic.
---
 src/colosseum/engine.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 5d69b87..bafa6d3 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -19,6 +19,7 @@ from .constants import (
     THIN,
 )
 from .dimensions import Box
+from .units import Percent
 
 
 def is_block_level_element(node):
@@ -713,10 +714,7 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
         # elif node.children and node.children[-1] top margin non collapsing with bottom margin:
         #     content_height = bottom border edge of bottom margin
         else:
-            if node.style.min_height is not AUTO:  # 10.7 Minimum height
-                content_height = node.style.min_height.px(**context)
-            else:
-                content_height = 0
+            content_height = 0
     else:
         if node.parent is not None and node.parent.style.height is not AUTO:
             parent_height = node.parent.style.height.px(**context)
@@ -725,10 +723,19 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
             )
         else:
             content_height = node.style.height.px(**context)
-        if node.style.max_height is not None:  # 10.7 Maximum height
-            content_max_height = node.style.max_height.px(**context)
-            if content_height > content_max_height:
-                content_height = content_max_height
+
+    # 10.7 Maximum height
+    # FIXME: a percentage isn't applied to an automatic height
+    if node.style.max_height is not None and not (
+        node.style.height is AUTO and isinstance(node.style.max_height, Percent)
+    ):
+        content_max_height = node.style.max_height.px(**context)
+        if content_height > content_max_height:
+            content_height = content_max_height
+    if node.style.min_height is not AUTO:  # 10.7 Minimum height
+        content_min_height = node.style.min_height.px(**context)
+        if content_height < content_min_height:
+            content_height = content_min_height
 
     node.layout.content_height = content_height
     node.layout.content_top += node.layout.border_top_width + node.layout.padding_top
-- 
2.43.0


From ea8f082e42b1c13ce768f20097105ccc57e47f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:27 +0000
Subject: [PATCH 18/29] fix: position inline nodes with horizontal margins,
 borders or padding

The left margin, border and padding of an inline, non-replaced node didn't
offset its content; an 'auto' top or bottom margin raised TypeError.
---
 src/colosseum/engine.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index bafa6d3..b0d45f9 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -388,6 +388,11 @@ def calculate_inline_non_replaced_width(node, context):
 
     # Use the actual width of the node.
     node.layout.content_width = node.intrinsic.width
+    node.layout.content_left = (
+        node.layout.margin_left
+        + node.layout.border_left_width
+        + node.layout.padding_left
+    )
 
 
 def calculate_inline_replaced_width(node, context):
@@ -651,6 +656,12 @@ def calculate_height_and_margins(node, context):
 
 def calculate_inline_non_replaced_height(node, context):
     "Implements S10.6.1"
+    if node.layout.margin_top is AUTO:
+        node.layout.margin_top = 0
+
+    if node.layout.margin_bottom is AUTO:
+        node.layout.margin_bottom = 0
+
     node.layout.content_height = node.intrinsic.height
     node.layout.content_top += (
         node.layout.margin_top + node.layout.border_top_width + node.layout.padding_top
-- 
2.43.0


From 1d8ee0c50ee790858a54590652dab1bf6b4f96fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:30 +0000
Subject: [PATCH 19/29] fix: never make the content of a block narrower than
 nothing

If margins, borders and padding don't fit in the containing block, an
automatic width came out negative (and so did, for example, percentages of
it). Section 10.4: the width is at least zero, and the margin at the end of
the line gives way.
---
 src/colosseum/engine.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index b0d45f9..a958da7 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -572,6 +572,14 @@ def calculate_block_non_replaced_normal_flow_width(node, context):
         # If it does, we've missed something along the way.
         raise Exception("Unknown S10.3.3 layout case")  # pragma: no cover
 
+    if node.style.width is AUTO and content_width < 0:
+        # 10.4 - the width is never negative; P3 applies to the margins.
+        if node.style.direction is LTR:
+            node.layout.margin_right += content_width
+        else:
+            node.layout.margin_left += content_width
+        content_width = 0
+
     node.layout.content_width = content_width
     node.layout.content_left = (
         node.layout.margin_left
-- 
2.43.0


From b1d6b79649dffe2bf44a7695cea1c867ee321625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:29 +0000
Subject: [PATCH 20/29] fix: derive the width of a replaced inline node from
 its explicit height and ratio

---
 src/colosseum/engine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index a958da7..817e69f 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -422,6 +422,12 @@ def calculate_inline_replaced_width(node, context):
                     - node.layout.border_right_width
                     - node.layout.margin_right
                 )
+        elif node.intrinsic.ratio is not None and not isinstance(
+            node.style.height, Percent
+        ):  # P3
+            content_width = round(
+                node.style.height.px(**context) * node.intrinsic.ratio
+            )
 
         if content_width is None:
             if node.intrinsic.width is not None:  # P5
-- 
2.43.0


From 32856b77f30a827e9e7cb5fd00ac8432f235ae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:16 +0000
Subject: [PATCH 21/29] fix: allow to copy and pickle an ImmutableList

---
 src/colosseum/wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/colosseum/wrappers.py b/src/colosseum/wrappers.py
index 56d8cb2..769e4bd 100644
--- a/src/colosseum/wrappers.py
+++ b/src/colosseum/wrappers.py
@@ -221,6 +221,10 @@ class ImmutableList(list):
     def copy(self):
         return self.__class__(self)
 
+    def __reduce__(self):
+        # Items can't be added to a copy, so it must be created with all of them.
+        return self.__class__, (list(self),)
+
     # Disable mutating methods
     def append(self, object):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
-- 
2.43.0


From 28b4ab2fa07aea9f08feec6cc978e292e45ecc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:39 +0000
Subject: [PATCH 22/29] fix: use an intrinsic height of zero of a replaced
 inline node

---
 src/colosseum/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 817e69f..ddbd0af 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -698,7 +698,7 @@ def calculate_inline_replaced_height(node, context):
         content_height = node.intrinsic.height
     elif node.style.height is AUTO and node.intrinsic.ratio:  # P3
         content_height = node.layout.content_width * node.intrinsic.ratio
-    elif node.style.height is AUTO and node.intrinsic.height:  # P4
+    elif node.style.height is AUTO and node.intrinsic.height is not None:  # P4
         content_height = node.intrinsic.height
     elif node.style.height is AUTO:  # P5
         content_height = min(node.layout.content_width // 2, 150)
-- 
2.43.0


From 9c26a4f534277822021048d6e8889dabae490502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:18 +0000
Subject: [PATCH 23/29] fix: accept colors with spaces in border and outline
 shorthands

The text of a shorthand was split at any white space, also within the parentheses
of a color. So 'border: 1px solid rgb(1, 2, 3)' was rejected, and the text of a
shorthand with a color did not parse back.
---
 src/colosseum/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 9a471ec..42165e0 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,3 +1,4 @@
+import re
 from ast import literal_eval
 from collections.abc import Sequence
 from math import isfinite
@@ -283,6 +284,11 @@ def quotes(value):
 ##############################################################################
 # Outline shorthand
 ##############################################################################
+def _split_parts(value):
+    """Split a string at white space, except within parentheses."""
+    return re.split(r"\s+(?![^(]*\))", value.strip())
+
+
 def _parse_outline_property_part(value, outline_dict):
     """Parse outline shorthand property part for known properties."""
     from .constants import (  # noqa
@@ -322,7 +328,7 @@ def outline(value):
     """
     if value:
         if isinstance(value, str):
-            values = [val.strip() for val in value.split()]
+            values = _split_parts(value)
         elif isinstance(value, Sequence):
             values = value
         else:
@@ -390,7 +396,7 @@ def border(value, direction=None):
     """
     if value:
         if isinstance(value, str):
-            values = [val.strip() for val in value.split()]
+            values = _split_parts(value)
         elif isinstance(value, Sequence):
             values = value
         else:
-- 
2.43.0


From 299878c003a8e46b0e2aa18ec12f173312a93464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:51 +0000
Subject: [PATCH 24/29] fix: accept quotes with spaces in a text
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The text was split at any white space, also within the quoted strings. So
quotes: '« ' ' »' was rejected, and the text of quotes with spaces did not
parse back.
---
 src/colosseum/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 42165e0..1e19ad1 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -240,7 +240,10 @@ def quotes(value):
     if isinstance(value, Quotes):
         return value
     elif isinstance(value, str):
-        values = [val.strip() for val in value.split()]
+        # Split at white space, except within quotes
+        values = re.findall(
+            r"""(?:'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*"|\S)+""", value
+        )
     elif isinstance(value, Sequence):
         # Flatten list of tuples
         try:
-- 
2.43.0


From f1373d298d03fe2462ea51f230e7d9423a5c0c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:41 +0000
Subject: [PATCH 25/29] fix: render a border or outline style of none as none
 in the shorthand

The text of a shorthand whose style is none contained 'None', which does not parse back.
---
 src/colosseum/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/wrappers.py b/src/colosseum/wrappers.py
index 769e4bd..f18aad2 100644
--- a/src/colosseum/wrappers.py
+++ b/src/colosseum/wrappers.py
@@ -117,7 +117,7 @@ class Shorthand:
     def __str__(self):
         parts = []
         for key, value in self.to_dict().items():
-            parts.append(str(value))
+            parts.append("none" if value is None else str(value))
 
         return " ".join(parts)
 
-- 
2.43.0


From 1608d90dd413f81be1f90cfdb41a0cd091b476ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:07 +0000
Subject: [PATCH 26/29] fix: render HSL colors with percentages

The text of an HSL color contained saturation and lightness as fractions, which is not valid
CSS and was rejected when it was parsed back.
---
 src/colosseum/colors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/colosseum/colors.py b/src/colosseum/colors.py
index fb74f8b..31e535d 100644
--- a/src/colosseum/colors.py
+++ b/src/colosseum/colors.py
@@ -31,6 +31,10 @@ class hsl(Color):
     def __repr__(self):
         return f"hsla({self.h}, {self.s}, {self.l}, {self.a})"
 
+    def __str__(self):
+        # In CSS, saturation and lightness are percentages
+        return f"hsla({self.h}, {self.s * 100:.12g}%, {self.l * 100:.12g}%, {self.a})"
+
     @property
     def rgb(self):
         c = (1.0 - abs(2.0 * self.l - 1.0)) * self.s
-- 
2.43.0


From eee7fb7f913df5b936f4121964cd933f183fbe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:21 +0000
Subject: [PATCH 27/29] fix: describe numeric validators with a range, so that
 a rejected value raises ValueError

---
 src/colosseum/validators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/colosseum/validators.py b/src/colosseum/validators.py
index a1bd4bb..89fb84b 100644
--- a/src/colosseum/validators.py
+++ b/src/colosseum/validators.py
@@ -44,6 +44,7 @@ def is_number(value=None, min_value=None, max_value=None):
     if min_value is None and max_value is None:
         return validator(value)
     else:
+        validator.description = is_number.description
         return validator
 
 
@@ -68,6 +69,7 @@ def is_integer(value=None, min_value=None, max_value=None):
     if min_value is None and max_value is None:
         return validator(value)
     else:
+        validator.description = is_integer.description
         return validator
 
 
-- 
2.43.0


From feadc471c32d8057e0a8f0d868ff77ea29afdc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:22 +0000
Subject: [PATCH 28/29] fix: reject an empty list as a cursor

It was stored, and rendered as a declaration without a value, which can't be
parsed again.
---
 src/colosseum/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 1e19ad1..b858df6 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -497,6 +497,9 @@ def cursor(values):
     elif not isinstance(values, Sequence):
         raise ValueError(f"Unknown cursor {values}")
 
+    if len(values) == 0:
+        raise ValueError("A cursor must have at least one value!")
+
     validated_values = []
     has_cursor_option = False
     option_count = 0
-- 
2.43.0


From c7428367e126c49b40bb7e7320d447ec1f64627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:24 +0000
Subject: [PATCH 29/29] fix: reject quotes that are other Python literals with
 ValueError

---
 src/colosseum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index b858df6..8730299 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -276,7 +276,7 @@ def quotes(value):
                 if len(opening) == 0 or len(closing) == 0:
                     raise ValueError(f"Invalid quotes {value}")
 
-            except SyntaxError:
+            except (SyntaxError, TypeError, MemoryError, RecursionError):
                 raise ValueError(f"Invalid quotes {value}")
 
         return Quotes(parsed_values)
-- 
2.43.0

