From 08664ef17d5d588f9c7e8b33b1086330577796db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:25 +0000
Subject: [PATCH 01/24] fix: HSL colors with hue in [240, 300) convert to the
 right RGB sextant

---
 src/colosseum/colors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/colors.py b/src/colosseum/colors.py
index 37a1ec8..789c4e6 100644
--- a/src/colosseum/colors.py
+++ b/src/colosseum/colors.py
@@ -47,7 +47,7 @@ class hsl(Color):
         elif h < 4.0:
             r, g, b = m, x + m, c + m
         elif h < 5.0:
-            r, g, b = m, x + m, c + m
+            r, g, b = x + m, m, c + m
         else:
             r, g, b = c + m, m, x + m
 
-- 
2.43.0


From 9cbd83f579acb9f9e6cc9803dcb8d2de5ad5085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:26 +0000
Subject: [PATCH 02/24] fix: HSL hue is an angle, so hues outside [0, 360) wrap

---
 src/colosseum/colors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/colors.py b/src/colosseum/colors.py
index 789c4e6..2f932d8 100644
--- a/src/colosseum/colors.py
+++ b/src/colosseum/colors.py
@@ -34,7 +34,7 @@ class hsl(Color):
     @property
     def rgb(self):
         c = (1.0 - abs(2.0 * self.l - 1.0)) * self.s
-        h = self.h / 60.0
+        h = self.h % 360 / 60.0
         x = c * (1.0 - abs(h % 2 - 1.0))
         m = self.l - 0.5 * c
 
-- 
2.43.0


From 70da490d72e8d0a75e5df445f960c81295ee19da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:58 +0000
Subject: [PATCH 03/24] fix: copying a style keeps clip, border-spacing, quotes
 and cursor values

The parsers for these properties did not accept the values they produce, so
CSS.copy() silently dropped clip and border-spacing, and raised on quotes
and on cursors with a URI.
---
 src/colosseum/parser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 574b6ae..4c4e08a 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -161,7 +161,9 @@ def border_spacing(value):
     * A float (interpreted as pixels).
     * A string with of 1 or 2 length items separated by spaces.
     """
-    if isinstance(value, Sequence) and not isinstance(value, str):
+    if isinstance(value, BorderSpacing):
+        return value
+    elif isinstance(value, Sequence) and not isinstance(value, str):
         values = value
     elif isinstance(value, (int, float)):
         values = (value,)
@@ -181,6 +183,9 @@ def border_spacing(value):
 
 def rect(value):
     """Parse a given rect shape."""
+    if isinstance(value, Rect):
+        return value
+
     value = " ".join(val.strip() for val in value.split())
     if (
         value.startswith("rect(")
@@ -212,7 +217,9 @@ def quotes(value):
     * A sequence: ('<', '>') or ['{', '}']
     * A list of 2 item tuples: [('<', '>'), ('{', '}')]
     """
-    if isinstance(value, str):
+    if isinstance(value, Quotes):
+        return value
+    elif isinstance(value, str):
         values = [val.strip() for val in value.split()]
     elif isinstance(value, Sequence):
         # Flatten list of tuples
@@ -414,7 +421,9 @@ def uri(value):
     * url(<url>)
     * url(  <url>  )
     """
-    if isinstance(value, str):
+    if isinstance(value, Uri):
+        return value
+    elif isinstance(value, str):
         value = value.strip()
     else:
         raise ValueError("Value {value} must be a string")
-- 
2.43.0


From a589f6b953d7dc7c20ac06a5608fec1b01355af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:59 +0000
Subject: [PATCH 04/24] fix: reject every malformed property value with a
 ValueError

Assigning an empty color string, a non-string clip, a border-spacing or
cursor of an unsupported type, quotes that are not strings, or an infinite
integer escaped as IndexError, AttributeError, TypeError or OverflowError.
---
 src/colosseum/parser.py     | 20 ++++++++++++++++----
 src/colosseum/validators.py |  2 +-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 4c4e08a..bc8e897 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -59,7 +59,7 @@ def color(value):
         return value
 
     elif isinstance(value, str):
-        if value[0] == "#":
+        if value.startswith("#"):
             return pound_sign_color(value)
         elif value.startswith("rgba"):
             try:
@@ -167,8 +167,10 @@ def border_spacing(value):
         values = value
     elif isinstance(value, (int, float)):
         values = (value,)
-    else:
+    elif isinstance(value, str):
         values = [x.strip() for x in value.split()]
+    else:
+        raise ValueError(f"Unknown border spacing {value}")
 
     if len(values) == 1:
         horizontal = units(values[0])
@@ -185,6 +187,8 @@ def rect(value):
     """Parse a given rect shape."""
     if isinstance(value, Rect):
         return value
+    elif not isinstance(value, str):
+        raise ValueError(f"Unknown shape {value}")
 
     value = " ".join(val.strip() for val in value.split())
     if (
@@ -223,7 +227,10 @@ def quotes(value):
         values = [val.strip() for val in value.split()]
     elif isinstance(value, Sequence):
         # Flatten list of tuples
-        values = [repr(item) for sublist in value for item in sublist]
+        try:
+            values = [repr(item) for sublist in value for item in sublist]
+        except TypeError:
+            raise ValueError(f"Unknown quote {value}")
     else:
         raise ValueError(f"Unknown quote {value}")
 
@@ -240,7 +247,7 @@ def quotes(value):
                 closing = literal_eval(closing)
                 parsed_values.append((opening, closing))
 
-                if len(opening) == 0 or len(closing) == 0:
+                if not all(isinstance(q, str) and q for q in (opening, closing)):
                     raise ValueError(f"Invalid quotes {value}")
 
             except SyntaxError:
@@ -455,6 +462,11 @@ def cursor(values):
 
     if isinstance(values, str):
         values = [val.strip() for val in values.split(",")]
+    else:
+        try:
+            values = list(values)
+        except TypeError:
+            raise ValueError(f"Unknown cursor {values}")
 
     validated_values = []
     has_cursor_option = False
diff --git a/src/colosseum/validators.py b/src/colosseum/validators.py
index 8b49a98..a1bd4bb 100644
--- a/src/colosseum/validators.py
+++ b/src/colosseum/validators.py
@@ -11,7 +11,7 @@ from .exceptions import ValidationError
 def _numeric_validator(num_value, numeric_type, min_value, max_value):
     try:
         num_value = numeric_type(num_value)
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, OverflowError):
         error_msg = f"Cannot coerce {num_value} to {numeric_type.__name__}"
         raise ValidationError(error_msg)
 
-- 
2.43.0


From f09f1de115a872c9f72890b217ed5017089e3c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:30 +0000
Subject: [PATCH 05/24] fix: an angle is not a length

'5deg' was accepted as a length, and layout then failed on the angle.
---
 src/colosseum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index bc8e897..8f5c430 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -24,7 +24,7 @@ def units(value):
         return value * px
     elif isinstance(value, str):
         for suffix, unit in Unit.UNITS:
-            if value.endswith(suffix):
+            if isinstance(unit, Unit) and value.endswith(suffix):
                 try:
                     return float(value[: -len(suffix)]) * unit
                 except ValueError:
-- 
2.43.0


From b7ac8d859c62a4afd6a8623bbc58d5cfb8c2e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:57 +0000
Subject: [PATCH 06/24] fix: a length must be a finite number

---
 src/colosseum/parser.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 8f5c430..ab6674e 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,3 +1,4 @@
+import math
 from ast import literal_eval
 from collections.abc import Sequence
 
@@ -21,19 +22,25 @@ def units(value):
     if isinstance(value, Unit):
         return value
     elif isinstance(value, (int, float)):
-        return value * px
+        if not isinstance(value, float) or math.isfinite(value):
+            return value * px
     elif isinstance(value, str):
         for suffix, unit in Unit.UNITS:
             if isinstance(unit, Unit) and value.endswith(suffix):
                 try:
-                    return float(value[: -len(suffix)]) * unit
+                    number = float(value[: -len(suffix)])
                 except ValueError:
-                    pass
+                    continue
+                if math.isfinite(number):
+                    return number * unit
 
         try:
-            return float(value) * px
+            number = float(value)
         except ValueError:
             pass
+        else:
+            if math.isfinite(number):
+                return number * px
 
     raise ValueError(f"Unknown size {value}")
 
-- 
2.43.0


From 8c81f830996840e009441cccb308c06945c7b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:24 +0000
Subject: [PATCH 07/24] fix: immutable lists reject every in-place change

---
 src/colosseum/wrappers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/colosseum/wrappers.py b/src/colosseum/wrappers.py
index ee82a21..3b3fcb7 100644
--- a/src/colosseum/wrappers.py
+++ b/src/colosseum/wrappers.py
@@ -194,6 +194,15 @@ class ImmutableList(list):
     def __setitem__(self, index, value):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
+    def __delitem__(self, index):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __iadd__(self, value):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __imul__(self, value):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def __hash__(self):
         return hash((self.__class__.__name__, tuple(self)))
 
@@ -216,6 +225,9 @@ class ImmutableList(list):
     def append(self, object):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
+    def clear(self):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def extend(self, iterable):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
-- 
2.43.0


From 798009bf1f5895619025b8b7b06b01cefa04ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:39 +0000
Subject: [PATCH 08/24] fix: an invalid value for one side leaves all four
 sides unchanged

---
 src/colosseum/declaration.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 3c3e13e..ff93243 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -229,7 +229,7 @@ def directional_property(name, initial):
             getattr(self, name % "_left", initial),
         )
 
-    def setter(self, value):
+    def assign(self, value):
         if isinstance(value, tuple):
             if len(value) == 4:
                 setattr(self, name % "_top", value[0])
@@ -262,6 +262,12 @@ def directional_property(name, initial):
             setattr(self, name % "_bottom", value)
             setattr(self, name % "_left", value)
 
+    def setter(self, value):
+        # Try the value on a scratch declaration first, so that a value that is
+        # invalid for any one side leaves all four sides as they were.
+        assign(CSS(), value)
+        assign(self, value)
+
     def deleter(self):
         delattr(self, name % "_top")
         delattr(self, name % "_right")
-- 
2.43.0


From fcbbe226a7e4aab46aae6bfb61796e5b29aba61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:28 +0000
Subject: [PATCH 09/24] fix: a node that is not displayed can still be restyled

---
 src/colosseum/declaration.py | 4 ++--
 src/colosseum/dimensions.py  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index ff93243..b4234bb 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -674,12 +674,12 @@ class CSS:
     ######################################################################
     @property
     def dirty(self):
-        if self._node:
+        if self._node and self._node.layout:
             return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        if self._node:
+        if self._node and self._node.layout:
             self._node.layout.dirty = value
 
     ######################################################################
diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 2a083d3..8296818 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -25,11 +25,13 @@ class Size:
 
     @property
     def dirty(self):
-        return self._node.layout.dirty
+        if self._node.layout:
+            return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        self._node.layout.dirty = value
+        if self._node.layout:
+            self._node.layout.dirty = value
 
     @property
     def width(self):
-- 
2.43.0


From 8a1647bd840deebad2b5a4e0d32d09d2f2614e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:49 +0000
Subject: [PATCH 10/24] fix: elements with display none generate no box, and
 can be displayed again

---
 src/colosseum/engine.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index e62cfb7..6540a45 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -108,11 +108,16 @@ def layout(display, node, standard=HTML5):
     containing_block = Viewport(display, node)
     font = DummyFont(-1)  # FIXME: default font
 
-    node.layout.reset()
+    if node.layout:
+        node.layout.reset()
 
     # 10.1 1
     layout_box(display, node, containing_block, containing_block, font)
 
+    # If the root element isn't displayed, there is no box to adjust.
+    if node.layout is None:
+        return
+
     # The full collapsed extent of the top margin on the root element
     # must be displayed, so move the default content position so that it is.
     node.layout.content_top += node.layout.collapse_top
@@ -162,15 +167,27 @@ def anonymize(nodes):
     return containers
 
 
+def remove_box(node):
+    # 9.2.4 An element that isn't displayed generates no box; neither do
+    # its descendants.
+    node.layout = None
+    for child in node.children:
+        remove_box(child)
+
+
 def layout_box(display, node, containing_block, viewport, font):
     # If the node shouldn't be displayed, remove the layout box.
     if node.style.display is None:
-        node.layout = None
+        remove_box(node)
         return
     else:
         # Make sure the node *has* a display box.
         if node.layout is None:
             node.layout = Box(node)
+            node.layout.reset()
+            if containing_block is not viewport:
+                node.layout._origin_top = containing_block.layout.absolute_content_top
+                node.layout._origin_left = containing_block.layout.absolute_content_left
 
     # Copy margin, border and padding attributes to the layout
     horizontal = {
@@ -232,7 +249,14 @@ def layout_box(display, node, containing_block, viewport, font):
             raise NotImplementedError("Section 17")  # pragma: no cover
         else:
             # Section 9.4.1 - Block formatting context
-            children = anonymize(node.children)
+            children = []
+            for child in node.children:
+                if child.style.display is None:
+                    layout_box(display, child, node, viewport, font)
+                else:
+                    children.append(child)
+
+            children = anonymize(children)
             offset_top = 0
             bottom_margin = None
 
@@ -671,8 +695,9 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
         # if node.children and node.has_inline_formatting_content: # P4.1
         #     content_height = bottom edge of last line box
         # elif node.children and node.children[-1] non collapsing with bottom margin:
-        if node.children and node.children[-1]:
-            last_child = node.children[-1]
+        children = [child for child in node.children if child.layout]
+        if children:
+            last_child = children[-1]
             content_height = last_child.layout.border_box_bottom
 
             # Merge the margin of the last child with
-- 
2.43.0


From 8247149a7c574ec0001d94aaed22410fe82b95fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:17 +0000
Subject: [PATCH 11/24] fix: auto vertical margins on an inline element are
 zero

---
 src/colosseum/engine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 6540a45..313ef0a 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -648,6 +648,12 @@ def calculate_height_and_margins(node, context):
 
 def calculate_inline_non_replaced_height(node, context):
     "Implements S10.6.1"
+    if node.layout.margin_top is AUTO:
+        node.layout.margin_top = 0
+
+    if node.layout.margin_bottom is AUTO:
+        node.layout.margin_bottom = 0
+
     node.layout.content_height = node.intrinsic.height
     node.layout.content_top += (
         node.layout.margin_top + node.layout.border_top_width + node.layout.padding_top
-- 
2.43.0


From a01ed9e6ad1bd75e1e8e0b4a7f741999821c51b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:47 +0000
Subject: [PATCH 12/24] fix: margins that are not whole pixels collapse too

---
 src/colosseum/dimensions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 8296818..631aed2 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -338,7 +338,7 @@ class Box:
 
     @collapse_top.setter
     def collapse_top(self, value):
-        if isinstance(value, int) and value > self._collapse_top:
+        if isinstance(value, (int, float)) and value > self._collapse_top:
             self._collapse_top = value
 
     @property
@@ -347,7 +347,7 @@ class Box:
 
     @collapse_right.setter
     def collapse_right(self, value):
-        if isinstance(value, int) and value > self._collapse_right:
+        if isinstance(value, (int, float)) and value > self._collapse_right:
             self._collapse_right = value
 
     @property
@@ -356,7 +356,7 @@ class Box:
 
     @collapse_bottom.setter
     def collapse_bottom(self, value):
-        if isinstance(value, int) and value > self._collapse_bottom:
+        if isinstance(value, (int, float)) and value > self._collapse_bottom:
             self._collapse_bottom = value
 
     @property
@@ -365,7 +365,7 @@ class Box:
 
     @collapse_left.setter
     def collapse_left(self, value):
-        if isinstance(value, int) and value > self._collapse_left:
+        if isinstance(value, (int, float)) and value > self._collapse_left:
             self._collapse_left = value
 
     ######################################################################
-- 
2.43.0


From 8d4aec6f2b61c5dbff2c11299cd2b194afb620e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:24 +0000
Subject: [PATCH 13/24] fix: percentage margins and paddings refer to the
 containing block's width

---
 src/colosseum/engine.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 313ef0a..4545183 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -201,28 +201,28 @@ def layout_box(display, node, containing_block, viewport, font):
         "font": font,
         "size": containing_block.layout.content_height,
     }
-    node.layout.margin_top = calculate_size(node.style.margin_top, vertical)
+    node.layout.margin_top = calculate_size(node.style.margin_top, horizontal)
     node.layout.margin_right = calculate_size(node.style.margin_right, horizontal)
-    node.layout.margin_bottom = calculate_size(node.style.margin_bottom, vertical)
+    node.layout.margin_bottom = calculate_size(node.style.margin_bottom, horizontal)
     node.layout.margin_left = calculate_size(node.style.margin_left, horizontal)
 
     node.layout.border_top_width = calculate_size(
         node.style.border_top_width, horizontal
     )
     node.layout.border_right_width = calculate_size(
-        node.style.border_right_width, vertical
+        node.style.border_right_width, horizontal
     )
     node.layout.border_bottom_width = calculate_size(
         node.style.border_bottom_width, horizontal
     )
     node.layout.border_left_width = calculate_size(
-        node.style.border_left_width, vertical
+        node.style.border_left_width, horizontal
     )
 
     node.layout.padding_top = calculate_size(node.style.padding_top, horizontal)
-    node.layout.padding_right = calculate_size(node.style.padding_right, vertical)
+    node.layout.padding_right = calculate_size(node.style.padding_right, horizontal)
     node.layout.padding_bottom = calculate_size(node.style.padding_bottom, horizontal)
-    node.layout.padding_left = calculate_size(node.style.padding_left, vertical)
+    node.layout.padding_left = calculate_size(node.style.padding_left, horizontal)
 
     # print("NODE", node)
 
-- 
2.43.0


From eb7e4dcbc8cdeba4c398c87190ea1834e6641192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:47 +0000
Subject: [PATCH 14/24] fix: sibling margins collapse with margins collapsed
 through the first child

---
 src/colosseum/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 4545183..dce0f0a 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -271,7 +271,7 @@ def layout_box(display, node, containing_block, viewport, font):
                 if bottom_margin is None:
                     node.layout.collapse_top = child.layout.collapse_top
                 else:
-                    offset_top += max(bottom_margin, child.layout.margin_top)
+                    offset_top += max(bottom_margin, child.layout.collapse_top)
 
                 # Offset the top of the child, relative to the parent.
                 child.layout.content_top += offset_top
-- 
2.43.0


From 13d223a19d21451a6c55f5f2d776a489ad014eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:58 +0000
Subject: [PATCH 15/24] fix: border or padding keeps a parent's top margin
 apart from its first child's

---
 src/colosseum/engine.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index dce0f0a..89dbadc 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -266,10 +266,14 @@ def layout_box(display, node, containing_block, viewport, font):
                 # extends higher than the node's margin box. If it does, the starting
                 # position for calculations of the parent node's box must be adjusted
                 # by that amount.
+                # A border or padding on the node keeps the two margins apart (8.3.1).
                 # Otherwise, collapse the bottom margin of the previous element
                 # with the top margin of this element, and offset by the result.
                 if bottom_margin is None:
-                    node.layout.collapse_top = child.layout.collapse_top
+                    if node.layout.border_top_width or node.layout.padding_top:
+                        offset_top += child.layout.collapse_top
+                    else:
+                        node.layout.collapse_top = child.layout.collapse_top
                 else:
                     offset_top += max(bottom_margin, child.layout.collapse_top)
 
-- 
2.43.0


From 93c5ed1a2ca355376a83d0c5476a35f9b14dbd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:28 +0000
Subject: [PATCH 16/24] fix: border or padding keeps a parent's bottom margin
 apart from its last child's

---
 src/colosseum/engine.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 89dbadc..4fa1d86 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -711,8 +711,12 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
             content_height = last_child.layout.border_box_bottom
 
             # Merge the margin of the last child with
-            # the margin of the last child.
-            node.layout.collapse_bottom = last_child.layout.collapse_bottom
+            # the margin of the last child; unless a border or padding on
+            # the node keeps the two margins apart (8.3.1).
+            if node.layout.border_bottom_width or node.layout.padding_bottom:
+                content_height += last_child.layout.collapse_bottom
+            else:
+                node.layout.collapse_bottom = last_child.layout.collapse_bottom
 
         # elif node.children and node.children[-1] top margin non collapsing with bottom margin:
         #     content_height = bottom border edge of bottom margin
-- 
2.43.0


From 72f057684b07e66305d9b42e835932270df6863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:01 +0000
Subject: [PATCH 17/24] fix: min-height applies whatever the height is

---
 src/colosseum/engine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 4fa1d86..f8c617c 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -721,10 +721,7 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
         # elif node.children and node.children[-1] top margin non collapsing with bottom margin:
         #     content_height = bottom border edge of bottom margin
         else:
-            if node.style.min_height is not AUTO:  # 10.7 Minimum height
-                content_height = node.style.min_height.px(**context)
-            else:
-                content_height = 0
+            content_height = 0
     else:
         if node.parent is not None and node.parent.style.height is not AUTO:
             parent_height = node.parent.style.height.px(**context)
@@ -738,6 +735,11 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
             if content_height > content_max_height:
                 content_height = content_max_height
 
+    if node.style.min_height is not AUTO:  # 10.7 Minimum height
+        content_min_height = node.style.min_height.px(**context)
+        if content_height < content_min_height:
+            content_height = content_min_height
+
     node.layout.content_height = content_height
     node.layout.content_top += node.layout.border_top_width + node.layout.padding_top
 
-- 
2.43.0


From b77ca99566164c9c8cbf98f2afe9957636b5cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:40 +0000
Subject: [PATCH 18/24] fix: right wins over left when a right-to-left block is
 over-constrained

---
 src/colosseum/engine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index f8c617c..d7032a2 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -304,6 +304,11 @@ def layout_box(display, node, containing_block, viewport, font):
                 value_left = containing_block.layout.content_left
             else:
                 value_left = node.style.left.px(**horizontal)
+        elif (
+            containing_block is not viewport
+            and containing_block.style.direction is not LTR
+        ):  # P7
+            value_left = -node.style.right.px(**horizontal)
         else:  # P7
             value_left = node.style.left.px(**horizontal)
 
-- 
2.43.0


From 211bb36a0e3b38368b828b8510b0b98c41748afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:03 +0000
Subject: [PATCH 19/24] fix: a blank shorthand value is invalid

---
 src/colosseum/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index ab6674e..5431676 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -315,6 +315,9 @@ def outline(value):
     else:
         raise ValueError(f"Unknown outline {value} ")
 
+    if not values:
+        raise ValueError(f"Unknown outline {value} ")
+
     # We iteratively split by the first left hand space found and try to validate if that part
     # is a valid <outline-style> or <outline-color> or <ourline-width> (which can come in any order)
 
@@ -383,6 +386,9 @@ def border(value, direction=None):
     else:
         raise ValueError(f"Unknown border {value} ")
 
+    if not values:
+        raise ValueError(f"Unknown border {value} ")
+
     # We iteratively split by the first left hand space found and try to validate if that part
     # is a valid <border-width> or <border-style> or <border-color> (which can come in any order)
 
-- 
2.43.0


From 90f74ad2e07cd513e631ce8ec45131bcfd6f75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:32 +0000
Subject: [PATCH 20/24] fix: an empty list is not a cursor

---
 src/colosseum/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 5431676..937b9a7 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -481,6 +481,9 @@ def cursor(values):
         except TypeError:
             raise ValueError(f"Unknown cursor {values}")
 
+    if not values:
+        raise ValueError(f"Unknown cursor {values}")
+
     validated_values = []
     has_cursor_option = False
     option_count = 0
-- 
2.43.0


From 0951cb3c1216b2aaf9398bc7a093180be2fb5395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:18 +0000
Subject: [PATCH 21/24] fix: malformed color text is refused

---
 src/colosseum/parser.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 937b9a7..29af7b6 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,6 +1,7 @@
 import math
 from ast import literal_eval
 from collections.abc import Sequence
+from string import hexdigits
 
 from .colors import NAMED_COLOR, hsl, rgb
 from .exceptions import ValidationError
@@ -68,7 +69,7 @@ def color(value):
     elif isinstance(value, str):
         if value.startswith("#"):
             return pound_sign_color(value)
-        elif value.startswith("rgba"):
+        elif value.startswith("rgba(") and value.endswith(")"):
             try:
                 values = value[5:-1].split(",")
                 if len(values) == 4:
@@ -77,7 +78,7 @@ def color(value):
                     )
             except ValueError:
                 pass
-        elif value.startswith("rgb"):
+        elif value.startswith("rgb(") and value.endswith(")"):
             try:
                 values = value[4:-1].split(",")
                 if len(values) == 3:
@@ -85,7 +86,7 @@ def color(value):
             except ValueError:
                 pass
 
-        elif value.startswith("hsla"):
+        elif value.startswith("hsla(") and value.endswith(")"):
             try:
                 values = value[5:-1].split(",")
                 if len(values) == 4:
@@ -98,7 +99,7 @@ def color(value):
             except ValueError:
                 pass
 
-        elif value.startswith("hsl"):
+        elif value.startswith("hsl(") and value.endswith(")"):
             try:
                 values = value[4:-1].split(",")
                 if len(values) == 3:
@@ -128,6 +129,9 @@ def pound_sign_color(value):
     * '#RRGGBBAA'
     """
 
+    if not all(digit in hexdigits for digit in value[1:]):
+        raise ValueError(f"Unknown color {value}")
+
     if len(value) == 4:
         return rgb(
             r=int(value[1] + value[1], 16),
-- 
2.43.0


From 110e8dde1fbb541631ff49183ec93e818fc19898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:32 +0000
Subject: [PATCH 22/24] fix: a change to a node that is already dirty reaches
 its clean descendants

---
 src/colosseum/dimensions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 631aed2..b454be2 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -548,8 +548,7 @@ class Box:
 
     @dirty.setter
     def dirty(self, value):
-        if value != self._dirty:
-            self._dirty = value
-            for child in self.node.children:
-                if child.layout:
-                    child.layout.dirty = value
+        self._dirty = value
+        for child in self.node.children:
+            if child.layout:
+                child.layout.dirty = value
-- 
2.43.0


From 41f13327caafe446642243da81fe0425d8e344b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:36 +0000
Subject: [PATCH 23/24] fix: a node that is false in a boolean context is
 marked dirty too

---
 src/colosseum/declaration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index b4234bb..c933e37 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -674,12 +674,12 @@ class CSS:
     ######################################################################
     @property
     def dirty(self):
-        if self._node and self._node.layout:
+        if self._node is not None and self._node.layout:
             return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        if self._node and self._node.layout:
+        if self._node is not None and self._node.layout:
             self._node.layout.dirty = value
 
     ######################################################################
-- 
2.43.0


From 1c3ed6374b59f794aac47121851f8e1f71d53d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:11 +0000
Subject: [PATCH 24/24] fix: give limited number validators a description, so
 that choices made of them can be written

---
 src/colosseum/validators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/colosseum/validators.py b/src/colosseum/validators.py
index a1bd4bb..ed10325 100644
--- a/src/colosseum/validators.py
+++ b/src/colosseum/validators.py
@@ -41,6 +41,8 @@ def is_number(value=None, min_value=None, max_value=None):
             max_value=max_value,
         )
 
+    validator.description = is_number.description
+
     if min_value is None and max_value is None:
         return validator(value)
     else:
@@ -65,6 +67,8 @@ def is_integer(value=None, min_value=None, max_value=None):
             max_value=max_value,
         )
 
+    validator.description = is_integer.description
+
     if min_value is None and max_value is None:
         return validator(value)
     else:
-- 
2.43.0

